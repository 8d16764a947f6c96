#!/usr/bin/env python3
"""writes MANIFEST.json from analysis/registry.py and properties.jsonl"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
import registry

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        s = registry.PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': s.technique,
            'level': s.level,
            'level_note': s.note,
        })
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'no check yet')})
m = {
    'version': 1,
    'setup_cmd': 'python3 analysis/build.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Static analysis of the compiler\'s MIR of /repo by abstract interpretation; see DESIGN.md. No hooks in /repo.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
