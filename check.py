#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current source."""
import json
import os
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.setrecursionlimit(20000)
threading.stack_size(512 << 20)

import build                                    # noqa: E402
import registry                                 # noqa: E402
from base import Report                         # noqa: E402


def known():
    """[(property, rule, key, text)] of the recorded, unrepaired findings"""
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if not l.startswith('open: '):
                continue
            head, what = l[6:].split(' :: ', 1)
            d = dict(x.split('=', 1) for x in head.split(' | '))
            out.append((d['property'], d['rule'], d['key'], what))
    return out


def jsonable(x):
    return x if isinstance(x, (str, int, float)) else str(x)


def decide(pid, thorough):
    t0 = time.time()
    rep = Report(pid)
    spec = registry.PROPS[pid]
    undecided = None
    try:
        spec.run(rep, thorough)
    except (build.InfraError, build.BuildError):
        raise
    except Exception as e:                       # noqa: BLE001 - fail closed
        traceback.print_exc()
        undecided = '%s: %s' % (type(e).__name__, e)
        rep.fail('decided', type(e).__name__, 'the analysis could not decide the property on this source: ' + undecided,
                 traceback.format_exc().splitlines()[-12:])
    rep.finish()
    kn = [k for k in known() if k[0] == pid]
    new, old = [], []
    for (rule, key), f in sorted(rep.bad.items()):
        m = [k for k in kn if k[1] == rule and k[2] == key]
        (old if m else new).append((f, m[0][3] if m else None))
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    total = sum(rep.n.values())
    ev = {
        'property': pid,
        'tier': 'thorough' if thorough else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': spec.level,
        'coverage': {
            'explanation': spec.explanation,
            'obligations': total,
            'discharged': total - sum(rep.failed.values()),
            'obligations_by_rule': dict(sorted(rep.n.items())),
            'failed_by_rule': dict(sorted(rep.failed.items())),
            'analysed': {k: jsonable(v) for k, v in sorted(rep.units.items())},
            'samples': [{'rule': k, 'instance': v} for k, v in sorted(rep.samples.items())],
            'known_findings_met': [f.text for f, _ in old],
        },
        'assumptions': sorted(set(spec.assumptions) | rep.assume),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for f, what in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    vio = os.path.join(evdir, pid + '.violation.json')
    if os.path.exists(vio):
        os.remove(vio)
    print('%s: %d obligations, %d not discharged, %d known findings, %.1f s' %
          (pid, total, len(new), len(old), time.time() - t0))
    if not new:
        return 0
    with open(vio, 'w') as f:
        json.dump([x.json() for x, _ in new], f, indent=1)
    for x, _ in new[:12]:
        print('  [%s] %s' % (x.rule, x.text))
        for l in x.trace[:8]:
            print('      ' + l[:240])
    print('VIOLATION property=%s replay=%s' % (pid, vio))
    return 1


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv
    if pid not in registry.PROPS:
        print('no such property: ' + pid)
        return 2

    def late(*a):
        print('  [decided] the analysis did not finish in its time')
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, 'check.py')))
        sys.stdout.flush()
        os._exit(1)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(3000 if thorough else 840)
    res = []

    def body():
        try:
            res.append(decide(pid, thorough))
        except build.BuildError as e:
            print('the repository does not build:\n' + str(e))
            res.append(2)
        except build.InfraError as e:
            print('the machinery could not run:\n' + str(e))
            res.append(2)
    t = threading.Thread(target=body)
    t.start()
    while t.is_alive():
        t.join(0.5)
    sys.stdout.flush()
    return res[0] if res else 2


if __name__ == '__main__':
    sys.exit(main())
