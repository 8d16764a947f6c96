"""Facts about the reachable object states that the rules share."""
import re
from dom import *
import dom
import interp
import prog as P
import reach


RAW = mk('deref', mk('arg', 1))      # the bytes received, as they came


class Finding:
    def __init__(self, prop, rule, key, text, trace=None):
        self.prop, self.rule, self.key, self.text, self.trace = prop, rule, key, text, trace or []

    def json(self):
        return dict(property=self.prop, rule=self.rule, key=self.key, text=self.text, trace=self.trace)


class Report:
    """obligations of one property"""

    def __init__(self, prop):
        self.prop = prop
        self.n = {}            # rule -> obligations
        self.failed = {}       # rule -> obligations not discharged
        self.prefix = ''
        self.bad = {}          # (rule, key) -> Finding
        self.samples = {}
        self.floors = {}
        self.units = {}        # counts of what was analysed
        self.assume = set()

    def ok(self, rule, sample=None, n=1):
        self.n[rule] = self.n.get(rule, 0) + n
        if sample is not None and rule not in self.samples:
            self.samples[rule] = sample

    def fail(self, rule, key, text, trace=None):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.failed[rule] = self.failed.get(rule, 0) + 1
        if self.prefix:
            text = self.prefix + text
        if (rule, key) not in self.bad:
            self.bad[(rule, key)] = Finding(self.prop, rule, key, text, trace)

    def check(self, cond, rule, key, text, trace=None, sample=None):
        if cond:
            self.ok(rule, sample)
        elif (rule, key) in self.bad:
            self.fail(rule, key, text)
        else:
            self.fail(rule, key, text, trace() if callable(trace) else trace)
        return cond

    def floor(self, rule, n):
        """a rule that met fewer instances than confirmed by hand has lost its subject"""
        self.floors[rule] = max(n, self.floors.get(rule, 0))

    def finish(self):
        for rule, n in self.floors.items():
            self.floor_now(rule, n)

    def floor_now(self, rule, n):
        got = self.n.get(rule, 0)
        if got < n:
            self.fail(rule, 'instances', 'the rule met %d instances, at least %d are expected: '
                      'the construct it decides was not found' % (got, n))


# ------------------------------------------------------------ pretty printing
class Show:
    def __init__(self, p):
        self.p = p

    def __call__(self, v, d=0):
        if d > 8:
            return '..'
        if v[0] == 'adt':
            t = self.p.types[v[1]]
            if t['k'] == 'adt' and t['expanded'] or t.get('variants'):
                vv = t['variants'][v[2]]
                nm = vv['name'] if t.get('adt') == 'enum' else t['path'].split('::')[-1]
                if not v[3]:
                    return nm
                return nm + '(' + ', '.join(self(x, d + 1) for x in v[3]) + ')'
        if v[0] == 'tup':
            return '(' + ', '.join(self(x, d + 1) for x in v[1]) + ')'
        return show(v)


def trace_of(st, p=None):
    """call sites passed by a partition, oldest first"""
    out = []
    x = st.path
    while x is not None:
        out.append('%s called at %s' % (x[1], x[2]))
        x = x[0]
    out.reverse()
    return out[-14:]


def facts_text(F, n=14):
    out = []
    for p, t in F.preds.items():
        out.append(('' if t else 'not ') + show(p))
    for l in sorted(F.lins, key=lambda x: x.n):
        out.append(show(l) + ' <= 0')
    return [x[:300] for x in out[:n]]


# ------------------------------------------------------------------- equality
def same(a, b, F):
    """must-equality of two values up to arithmetic facts of F"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return type(a) == type(b) and not isinstance(a, tuple) and a == b
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == 'i':
        if F.eq_lin(a, b):
            return True
        # same shape with equal atoms
        if a[1] == b[1] and len(a[2]) == len(b[2]) and len(a[2]) <= 2:
            return all(x[1] == y[1] and same(x[0], y[0], F) for x, y in zip(a[2], b[2]))
        return False
    if k == 'seq':
        return same_seq(a, b, F)
    if len(a) != len(b):
        return False
    return all(same(x, y, F) if isinstance(x, tuple) else x == y for x, y in zip(a[1:], b[1:]))


def same_seq(a, b, F):
    a, b = nonempty(a, F), nonempty(b, F)
    if a is b:
        return True
    ba, bb = bytes_of(a, F), bytes_of(b, F)
    if ba is not None and bb is not None:
        return ba == bb
    if len(a[1]) != len(b[1]):
        return F.entails_eq_seq(a, b)
    for s, t in zip(a[1], b[1]):
        if s is t:
            continue
        if s[0] != t[0]:
            return F.entails_eq_seq(a, b)
        if s[0] == 'sub':
            if not (same(s[1], t[1], F) and same(s[2], t[2], F) and same(s[3], t[3], F)):
                return F.entails_eq_seq(a, b)
        elif s[0] == 'lit':
            return F.entails_eq_seq(a, b)
        elif not all(same(x, y, F) if isinstance(x, tuple) else x == y for x, y in zip(s[1:], t[1:])):
            return F.entails_eq_seq(a, b)
    return True


def nonempty(q, F):
    """drop segments known to be empty, resolve offsets"""
    out = []
    for s in q[1]:
        if s[0] == 'sub':
            s = mk('sub', s[1], F.res(s[2]), F.res(s[3]))
            if s[2] is s[3] or F.eq_lin(s[2], s[3]):
                continue
        out.append(s)
    return mkseq(out)


def assume_all(F, vs):
    """conjunction of facts, None when contradictory"""
    for v in vs:
        F = F.assume(v)
        if F is None:
            return None
    return F


def contradicts(F, vs):
    """F and all of vs cannot hold together"""
    G = assume_all(F, vs)
    if G is None:
        return True
    # predicates refuted up to arithmetic equality
    pos = [p for p, t in G.preds.items() if t]
    neg = [p for p, t in G.preds.items() if not t]
    for n in neg:
        if n[0] == 'eq':
            a, b = n[1], n[2]
            if a[0] == 'seq' and b[0] == 'seq' and same_seq(a, b, G):
                return True
        if n[0] == 'eqi':
            if G.eq_lin(n[1], I(0)):
                return True
            l = n[1]
            if len(l[2]) == 2 and l[1] == 0 and {l[2][0][1], l[2][1][1]} == {1, -1} and same(l[2][0][0], l[2][1][0], G):
                return True
        for q in pos:
            if q[0] != n[0]:
                continue
            if q[0] == 'eq':
                if (same(q[1], n[1], G) and same(q[2], n[2], G)) or (same(q[1], n[2], G) and same(q[2], n[1], G)):
                    return True
            elif len(q) == len(n) and all(same(x, y, G) if isinstance(x, tuple) else x == y
                                          for x, y in zip(q[1:], n[1:])):
                return True
    return False


def bases_in(t):
    return [x for x in atoms_in(t)]


# ------------------------------------------------------------------- analysis
class Layer:
    """one explored layer type with its results classified"""

    def __init__(self, prog, layer, log=None):
        self.p = prog
        self.layer = layer
        self.W = reach.World(prog, layer, log)
        self.E = self.W.E
        self.show = Show(prog)
        if layer != 'MinimalSecureLayer':
            self.E.apikeys = {r['key'] for r in prog.roots if r['exported'] and not r['derived']
                              and self.selfname(r) == 'MinimalSecureLayer'}
            self.E.errnote = self.nonfatal
        self.W.explore()
        self.ty = self.W.ty
        self.msgty = None
        for i, t in enumerate(prog.types):
            if t['k'] == 'adt' and t['path'].split('::')[-1] == 'Message':
                self.msgty = i
        self.runs = list(self.W.runs.values())

    def selfname(self, r):
        if not r['has_self'] or not r['inputs']:
            return None
        t = self.p.types[r['inputs'][0]]
        if t['k'] == 'ref':
            t = self.p.types[t['ty']]
        return t['path'].split('::')[-1] if t['k'] == 'adt' else None

    def nonfatal(self, F):
        """why an error of a reading operation need not end the connection, or None"""
        for p, t in F.preds.items():
            if p[0] == 'sig' and not t:
                return 'signature'
            if p[0] == 'eq' and not t and p[1][0] == 'seq' and p[2][0] == 'seq':
                if bytes_of(p[1]) is None and bytes_of(p[2]) is None and not any(
                        F.preds.get(mk('slt', a, b)) for a, b in ((p[1], p[2]), (p[2], p[1]))):
                    return 'mismatch'
            if p[0] == 'in' and t:
                return 'repeated number'
        nonces = set()
        leaves = set()
        other = [p[1] for p, t in F.preds.items() if p[0] == 'eqi' and not t]
        for l in list(F.lins) + other:
            for a, _ in l[2]:
                if a[0] == 'be' and a[1] == 8:
                    nonces.add(a)
                    q = a[2]
                    if q[0] == 'seq' and len(q[1]) == 1 and q[1][0][0] == 'sub' and \
                            cint(q[1][0][2]) == 8 and cint(q[1][0][3]) == 16 and \
                            q[1][0][1] != RAW:
                        # a decrypted message: the whole message, but no 32-byte hash after it
                        rest = lsub(baselen(q[1][0][1]), ladd(atom(a), I(16)))
                        d = F.res(ladd(rest, I(-32)))
                        head = lsub(I(26), ladd(atom(a), I(16)))    # up to the number included
                        if F.ent_le(lscale(rest, -1)) and F.ent_le(head) and (
                                F.ent_le(ladd(d, I(1))) or F.ent_le(ladd(lscale(d, -1), I(1))) or
                                any(F.res(o) in (d, lscale(d, -1)) for o in other)):
                            return 'hash length'
                elif a[0] == 'int' and a[2] == 64:
                    leaves.add(a)
        for n in nonces:
            q = n[2]
            if len(q[1]) == 1 and q[1][0][0] == 'sub' and cint(q[1][0][2]) == 8:
                continue                        # the length field
            for a in leaves:
                if F.ent_le(ladd(lsub(atom(n), atom(a)), I(1))):
                    return 'old number'
        return None

    # -- types
    def tyname(self, ty):
        return self.p.types[ty].get('path', '').split('::')[-1] if ty is not None and ty >= 0 else ''

    def mentions(self, ty, name, seen=None):
        """type ty contains an adt called name"""
        seen = seen if seen is not None else set()
        if ty is None or ty in seen or ty < 0:
            return False
        seen.add(ty)
        t = self.p.types[ty]
        if t['k'] == 'adt' and t['path'].split('::')[-1] == name:
            return True
        sub = []
        if t['k'] == 'adt':
            sub = list(t.get('args') or [])
            if t.get('expanded'):
                sub += [f['ty'] for v in t['variants'] for f in v['fields']]
        elif t['k'] == 'tuple':
            sub = t['tys']
        elif 'ty' in t:
            sub = [t['ty']]
        return any(self.mentions(x, name, seen) for x in sub if isinstance(x, int))

    def msgs_out(self, ty):
        return any(self.mentions(ty, n) for n in ('Message', 'IncomingBinaryMessage', 'IncomingMessage'))

    # -- results
    def unopt(self, v, st=None):
        """value inside Some, None for None, or the value"""
        if v[0] == 'adt' and self.p.isadt(v[1], 'Option'):
            return v[3][0] if v[2] == 1 else None
        return v

    def enumname(self, v):
        if v[0] == 'adt':
            t = self.p.types[v[1]]
            if t.get('adt') == 'enum':
                return t['variants'][v[2]]['name']
        return None

    def opname(self, r):
        return r.root['name']

    def where(self, r, shape=None):
        s = r.shape if shape is None else shape
        return '%s from state %s' % (r.key, self.W.sh.show(self.ty, s) if s is not None else '(constructor)')

    def some(self, v):
        return v[0] == 'adt' and self.p.isadt(v[1], 'Option') and v[2] == 1

    def none(self, v):
        return v[0] == 'adt' and self.p.isadt(v[1], 'Option') and v[2] == 0

    # -- leaves of a layer value
    def leaves(self, v, path=()):
        if v[0] == 'adt':
            t = self.p.types[v[1]]
            if t['k'] == 'adt' and t.get('expanded') and v[3]:
                for i, x in enumerate(v[3]):
                    yield from self.leaves(x, path + ((v[2], i),))
                return
            yield path, v
            return
        if v[0] == 'tup':
            for i, x in enumerate(v[1]):
                yield from self.leaves(x, path + ((0, i),))
            return
        yield path, v

    def get(self, v, path):
        """value at a path, None when another variant is live"""
        for var, i in path:
            if v[0] == 'tup':
                v = v[1][i]
            elif v[0] == 'adt':
                if v[2] != var or i >= len(v[3]):
                    return None
                v = v[3][i]
            else:
                return None
        return v

    def pathname(self, path):
        return self.walked(path)[0]

    def pathty(self, path):
        return self.walked(path)[1]

    def walked(self, path):
        ty = self.ty
        out = []
        for var, i in path:
            t = self.p.types[ty]
            if t['k'] == 'tuple':
                out.append(str(i))
                ty = t['tys'][i]
                continue
            f = t['variants'][var]['fields'][i]
            out.append(f['name'])
            ty = f['ty']
        return '.'.join(out), ty

    def fin(self, x):
        return x.st.cells[('root', 'self')]

    # -- what an operation handed to its caller
    def opt_message(self, v):
        """list of message values in Option<Message> / Message"""
        if self.none(v):
            return []
        if self.some(v):
            v = v[3][0]
        return [v]

    def deliveries(self, r, x, ret=None):
        """[Delivery] of an exit; a value of unknown content yields kind '?'"""
        if not self.msgs_out(r.root['output']):
            return []
        if ret is None:
            k, v = self.W.split_result(x)
        else:
            k, v = self.split(ret)
        if k == 'err':
            return []
        return self.deliv_value(r, x, v)

    def split(self, v):
        if v[0] == 'adt' and self.p.isadt(v[1], 'Result'):
            return ('ok' if v[2] == 0 else 'err'), v[3][0]
        return 'val', v

    def deliv_value(self, r, x, v):
        fin = self.fin(x)
        pre = r.selfv
        if v[0] == 'seq':
            out = []
            for s in v[1]:
                out.extend(self.deliv_seg(r, s, x.st.F, pre, fin, None, set()))
            return out
        if v[0] == 'adt' and (self.p.isadt(v[1], 'Option') or self.ismsg(v)):
            return [Delivery(self.enumname(m) or '?', m, x.st.F, pre, fin, None, x.st.ev)
                    for m in self.opt_message(v)]
        if v[0] == 'sym' and self.mentions(v[2], 'Message'):
            return [Delivery('?', v, x.st.F, pre, fin, None, x.st.ev)]
        return []

    def ismsg(self, v):
        return self.p.types[v[1]].get('path', '').split('::')[-1] in ('Message', 'IncomingBinaryMessage',
                                                                     'IncomingMessage')

    def deliv_seg(self, r, s, F, pre, post, li, seen):
        if s[0] == 'one':
            m = s[1]
            return [Delivery(self.enumname(m) or '?', m, F, pre, post, li, None)]
        if s[0] == 'lit':
            return []
        if s[0] == 'sub' and s[1] in seen:
            return []
        if s[0] == 'sub' and s[1][0] == 'seqbase':
            out = []
            for y in s[1][1][1]:
                out.extend(self.deliv_seg(r, y, F, pre, post, li, seen))
            return out
        if s[0] == 'sub':
            for l in r.sum.loops.values():
                if s[1] in l.phis:
                    seen.add(s[1])
                    out = []
                    e, bs = l.phis[s[1]]
                    for y in e[1]:
                        out.extend(self.deliv_seg(r, y, l.entryF, pre, l.entry.get(('root', 'self'), pre), li, seen))
                    for i, (bF, bv, bev) in enumerate(bs):
                        cells = l.backs[i][1]
                        for y in bv[1]:
                            ds = self.deliv_seg(r, y, bF, l.tmpl.get(('root', 'self'), pre),
                                                cells.get(('root', 'self'), pre), l, seen)
                            for d in ds:
                                if d.ev is None:
                                    d.ev = bev
                            out.extend(ds)
                    return out
        return [Delivery('?', s, F, pre, post, li, None)]


class Delivery:
    __slots__ = ('kind', 'val', 'F', 'pre', 'post', 'loop', 'ev')

    def __init__(self, kind, val, F, pre, post, loop, ev):
        self.kind, self.val, self.F, self.pre, self.post, self.loop, self.ev = kind, val, F, pre, post, loop, ev

    def fields(self):
        return self.val[3] if self.val[0] == 'adt' else ()
