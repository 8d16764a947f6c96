"""Reachable abstract states of the layer objects.

The shape of a layer is the finite part of its abstract value: enum variants,
Option-ness and booleans of every field, everything else forgotten.  Starting
from the constructors' exits, every exported operation is analysed from every
reachable shape; each exit yields the successor shape.  Ghost bits record what
the public results reported along the way (handshake steps, deliveries, fatal
errors), so that a rule can ask what must have been reported before."""
import itertools
import time
from dom import *
import interp


class Shapes:
    def __init__(self, E):
        self.E = E
        self.p = E.p

    # value of a symbol restricted to a shape
    def inst(self, term, ty, sh):
        E = self.E
        if sh == '*':
            return E.mksym(term, ty)
        if sh in ('T', 'F'):
            return TRUE if sh == 'T' else FALSE
        _, var, kids = sh
        t = self.p.types[ty]
        if t['k'] == 'tuple':
            return mk('tup', tuple(self.inst(mk('fld', term, 0, i), x, kids[i]) for i, x in enumerate(t['tys'])))
        fs = t['variants'][var]['fields']
        return interp.mkenum(ty, var, [self.inst(mk('fld', term, var, i), f['ty'], kids[i])
                                       for i, f in enumerate(fs)])

    def of(self, v, F):
        """list of possible shapes of a value"""
        E = self.E
        k = v[0]
        if v is TRUE:
            return ['T']
        if v is FALSE:
            return ['F']
        if k in ('p', 'np'):
            e = F.ev(v)
            if e is not None:
                return ['T' if e else 'F']
            return ['T', 'F']
        if k == 'sym' and v[2] is not None and v[2] >= 0 and E.is_enum(v[2]):
            vs = self.p.types[v[2]]['variants']
            if len(vs) > 3:
                return ['*']
            kv = F.isv.get(v[1])
            nv = F.notv.get(v[1], ())
            out = []
            for i in range(len(vs)):
                if (kv is not None and kv != i) or i in nv:
                    continue
                out.extend(self.of(E.expand(v, i), F))
            return out
        if k == 'adt':
            t = self.p.types[v[1]]
            if not (t['k'] == 'adt' and t['expanded']):
                return ['*']
            if E.is_enum(v[1]) and len(t['variants']) > 3:
                return ['*']
            ks = [self.of(x, F) for x in v[3]]
            if not ks and not E.is_enum(v[1]):
                return ['*']
            out = [('v', v[2], tuple(c)) for c in itertools.product(*ks)]
            if not E.is_enum(v[1]):
                out = ['*' if all(x == '*' for x in s[2]) else s for s in out]
            return out
        if k == 'tup':
            ks = [self.of(x, F) for x in v[1]]
            out = [('v', 0, tuple(c)) for c in itertools.product(*ks)]
            return ['*' if all(x == '*' for x in s[2]) else s for s in out]
        return ['*']

    def show(self, ty, sh, name=''):
        if sh == '*':
            return '*'
        if sh in ('T', 'F'):
            return sh
        t = self.p.types[ty]
        if t['k'] == 'tuple':
            return '(' + ','.join(self.show(x, s) for x, s in zip(t['tys'], sh[2])) + ')'
        v = t['variants'][sh[1]]
        parts = []
        for f, s in zip(v['fields'], sh[2]):
            r = self.show(f['ty'], s)
            if r != '*':
                parts.append('%s=%s' % (f['name'], r))
        nm = v['name'] if t['adt'] == 'enum' else ''
        return nm + ('{' + ','.join(parts) + '}' if parts else '')


class Run:
    """analysis of one operation from one shape"""
    __slots__ = ('key', 'shape', 'sum', 'root', 'selfv', 'args', 'used')


class World:
    def __init__(self, prog, layer, log=None):
        self.p = prog
        self.layer = layer                 # type name, e.g. 'MinimalSecureLayer'
        self.E = interp.Engine(prog)
        self.sh = Shapes(self.E)
        self.ty = None
        for i, t in enumerate(prog.types):
            if t['k'] == 'adt' and t['path'].split('::')[-1] == layer:
                self.ty = i
        self.ctors, self.ops = [], []
        for r in prog.roots:
            if not r['exported'] or r['derived']:
                continue
            if self.selfty(r) == self.ty:
                self.ops.append(r)
            elif r['impl_self'] is not None and self.implself(r) == self.ty and not r['has_self']:
                self.ctors.append(r)
        self.runs = {}
        self.steps = 0
        self.log = log or (lambda *a: None)

    def implself(self, r):
        x = r['impl_self']
        if isinstance(x, int):
            return x
        return self.ty if isinstance(x, str) and x.split('<')[0].split('::')[-1] == self.layer else None

    def selfty(self, r):
        if not r['has_self'] or not r['inputs']:
            return None
        ty = r['inputs'][0]
        t = self.p.types[ty]
        return t['ty'] if t['k'] == 'ref' else ty

    def run(self, r, shape):
        """analyse root r with self in the given shape (None: constructor)"""
        k = (r['key'], shape)
        o = self.runs.get(k)
        if o is not None:
            return o
        E = self.E
        o = Run()
        o.key, o.shape, o.root = r['key'], shape, r
        cells, args, tys = {}, [], {}
        o.selfv = None
        for i, ty in enumerate(r['inputs']):
            t = self.p.types[ty]
            isself = i == 0 and r['has_self']
            if isself:
                sv = self.sh.inst(mk('self'), self.ty, shape)
                o.selfv = sv
                cells[('root', 'self')] = sv
                tys['self'] = self.ty
                if t['k'] == 'ref':
                    args.append(mk('mref', ('root', 'self'), ()) if t['mut'] else mk('vref', sv))
                else:
                    args.append(sv)
            elif t['k'] == 'ref' and t['mut']:
                nm = 'arg%d' % i
                cells[('root', nm)] = E.mksym(mk('arg', i), t['ty'])
                tys[nm] = t['ty']
                args.append(mk('mref', ('root', nm), ()))
            else:
                args.append(E.mksym(mk('arg', i), ty))
        o.args = args
        t0 = time.time()
        E.usedinv = set()
        o.sum = E.run(r['key'], args, cells, tys)
        o.used = set(E.usedinv)
        self.log('%6.2fs %4d exits %2d panics  %s  %s' % (time.time() - t0, len(o.sum.exits), len(o.sum.panics),
                                                       r['key'], self.sh.show(self.ty, shape) if shape else ''))
        self.runs[k] = o
        return o

    # ----------------------------------------------------- exploration
    def containers(self, v, out):
        """sequence-of-non-byte leaves of a symbolic layer value"""
        if v[0] == 'adt':
            for x in v[3]:
                self.containers(x, out)
        elif v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'sub' and v[1][0][1][0] == 'tb':
            out.add(v[1][0][1])

    def stored(self, v, path=()):
        """(path, sequence value) of the container leaves of a layer value"""
        if v[0] == 'adt':
            for i, x in enumerate(v[3]):
                yield from self.stored(x, path + ((v[2], i),))
        elif v[0] == 'seq':
            yield path, v

    def pathterm(self, path):
        t = mk('self')
        for var, i in path:
            t = mk('fld', t, var, i)
        return t

    def pieces(self, q, F, sm, seen):
        """values ever put in a container value: (value, facts) or ('*', base)"""
        for s in q[1]:
            if s[0] == 'one':
                yield s[1], F
            elif s[0] == 'sub' and s[1][0] == 'tb':
                t = s[1][1]
                if t[0] in ('phi', 'pf'):
                    if s[1] in seen:
                        continue
                    seen.add(s[1])
                    for li in sm.loops.values():
                        if s[1] in li.phis:
                            e, bs = li.phis[s[1]]
                            yield from self.pieces(e, li.entryF, sm, seen)
                            for bF, bv, _ in bs:
                                yield from self.pieces(bv, bF, sm, seen)
                            break
                    else:
                        yield None, s[1]
                else:
                    yield None, s[1]
            elif s[0] == 'sub' and s[1][0] == 'seqbase':
                yield from self.pieces(s[1][1], F, sm, seen)
            elif s[0] == 'lit':
                return
            else:
                yield None, s[1]

    def learn(self, run, v, F):
        """update container invariants from a final layer value"""
        E = self.E
        ch = False
        for path, q in self.stored(v):
            t = self.pathterm(path)
            if t not in self.cont:
                continue
            ety = self.cont[t]
            for val, G in self.pieces(q, F, run.sum, set()):
                inv = E.eleminv.get(t)
                if val is None:
                    if G[0] == 'tb' and G[1] is t:
                        continue
                    facts = []
                    if inv is None or inv.facts:
                        E.eleminv[t] = Inv(E, ety, [])
                        ch = True
                    continue
                k = (t, val, G.key())
                if k in self.learned and inv is self.learned[k]:
                    continue
                if inv is None:
                    inv = E.eleminv[t] = Inv(E, ety, abstract(E, val, G, ety))
                    ch = True
                else:
                    keep = [f for f in inv.facts if entails(E, f, val, G, ety)]
                    if len(keep) != len(inv.facts):
                        inv = E.eleminv[t] = Inv(E, ety, keep)
                        ch = True
                self.learned[k] = inv
        return ch

    def explore(self):
        E = self.E
        self.cont = {}
        self.learned = {}
        cs = set()
        self.containers(E.mksym(mk('self'), self.ty), cs)
        for b in cs:
            self.cont[b[1]] = b[2]
            E.eleminv[b[1]] = None
        again = True
        while again:
            again = False
            self.shapes = []
            self.origin = {}
            todo = []

            def add(v, F, src):
                out = []
                for s in self.sh.of(v, F):
                    if s not in self.origin:
                        self.origin[s] = src
                        self.shapes.append(s)
                        todo.append(s)
                    out.append(s)
                return out
            self.trans = []        # (shape or None, run, exit, [successors], [born])
            for c in self.ctors:
                r = self.run(c, None)
                for x in r.sum.exits:
                    k, v = self.split_result(x)
                    if k != 'err':
                        self.learn(r, v, x.st.F)
                        self.trans.append((None, r, x, [], add(v, x.st.F, (c['key'], None))))
            while todo:
                s = todo.pop(0)
                for o in self.ops:
                    r = self.run(o, s)
                    for x in r.sum.exits:
                        fin = x.st.cells[('root', 'self')]
                        if self.learn(r, fin, x.st.F):
                            again = True
                        suc = add(fin, x.st.F, (o['key'], s))
                        k, v = self.split_result(x)
                        born = []
                        if k != 'err' and v[0] == 'adt' and v[1] == self.ty:
                            if self.learn(r, v, x.st.F):
                                again = True
                            born = add(v, x.st.F, (o['key'], s))
                        self.trans.append((s, r, x, suc, born))
                    if again:
                        break
                if again:
                    break
            if again:
                # an invariant was weakened: redo the analyses that relied on it
                for k in [k for k, r in self.runs.items() if r.used]:
                    del self.runs[k]

    # --------------------------------------------------- results of exits
    def split_result(self, x):
        """('ok', value) / ('err', value) / ('val', value) of an exit"""
        E = self.E
        v = x.ret
        if v[0] == 'sym':
            v = E.concrete(x.st, v)
        if v[0] == 'adt' and self.p.isadt(v[1], 'Result'):
            return ('ok' if v[2] == 0 else 'err'), v[3][0]
        return 'val', v


# ------------------------------------------------- invariants of kept values
CLOSED_BAD = {'arg', 'self', 'phi', 'pf', 'unk', 'havoc', 'rng', 'ephpriv', 'uninit', 'rec', 'static'}
CANON = mk('E')


class Inv:
    """facts common to every value ever stored in a container field"""

    def __init__(self, E, ety, facts):
        self.ety = ety
        self.facts = facts
        self.canon = E.mksym(CANON, ety)

    def inst(self, E, v):
        m = {}
        if not match(E, self.canon, v, m):
            return []
        out = []
        for f in self.facts:
            g = substb(f, m)
            if g is not TRUE:
                out.append(g)
        return out


def substb(f, m):
    if f is TRUE or f is FALSE:
        return f
    p = f[1]
    if p[0] == 'bool' and p[1][0] == 'authmsg':
        q = m.get(p[1][1], p[1][1])
        return mk(f[0], mk('bool', mk('authmsg', seqbase(q) if q[0] == 'seq' else q)))
    r = substp(p, m)
    return bnot(r) if f[0] == 'np' else r


def match(E, c, v, m):
    """bind the symbols of canonical value c to the parts of v"""
    k = c[0]
    if k == 'seq':
        if v[0] != 'seq' or len(c[1]) != 1:
            return False
        m[c[1][0][1]] = v
        return True
    if k == 'i':
        if v[0] != 'i':
            return False
        m[c[2][0][0]] = v
        return True
    if k == 'tup' and v[0] == 'tup' and len(c[1]) == len(v[1]):
        return all([match(E, a, b, m) for a, b in zip(c[1], v[1])])
    if k == 'adt' and v[0] == 'adt' and c[1] == v[1] and c[2] == v[2]:
        return all([match(E, a, b, m) for a, b in zip(c[3], v[3])])
    if k == 'sym' and v[0] == 'sym':
        m[c[1]] = v[1]
        return True
    return True


def facts_of(F):
    out = []
    for a, v in F.known.items():
        out.append(eq0(lsub(atom(a), I(v))))
    for l in F.lins:
        out.append(le0(l))
    for p, t in F.preds.items():
        out.append(mk('p', p) if t else mk('np', p))
    for t, v in F.isv.items():
        out.append(mk('p', mk('isv', t, v)))
    return out


def closed(f):
    ts = atoms_in(f)
    return CANON in ts and not any(t and t[0] in CLOSED_BAD for t in ts)


def abstract(E, v, F, ety):
    """facts about v in terms of the canonical element"""
    c = E.mksym(CANON, ety)
    m = {}

    def rev(c, v):
        k = c[0]
        if k == 'seq' and v[0] == 'seq' and len(c[1]) == 1:
            cb = c[1][0][1]
            b = seqbase(v)
            m[b] = cb
            L = slen(v)
            if b[0] != 'fixed' and len(L[2]) == 1 and L[2][0][1] == 1:
                a = L[2][0][0]
                if a is not mk('len', b):
                    m[a] = lsub(baselen(cb), I(L[1]))
        elif k == 'i' and v[0] == 'i' and len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 1:
            m[v[2][0][0]] = c
        elif k == 'tup' and v[0] == 'tup':
            for a, b in zip(c[1], v[1]):
                rev(a, b)
        elif k == 'adt' and v[0] == 'adt' and c[1] == v[1] and c[2] == v[2]:
            for a, b in zip(c[3], v[3]):
                rev(a, b)
    rev(c, v)
    out = []
    fs = facts_of(F)
    for b in list(m):
        if isauth(b, F):
            fs.append(mk('p', mk('bool', mk('authmsg', b))))
    for f in fs:
        g = substb(f, m)
        if g is not TRUE and g is not FALSE and closed(g):
            out.append(g)
    return out


def isauth(b, F):
    """b is the base of an authenticated plaintext in this partition"""
    if F.preds.get(mk('bool', mk('authmsg', b))):
        return True
    t = b[2] if b[0] in ('fixed', 'lenof') else b
    if t[0] == 'dec':
        return F.preds.get(mk('bool', mk('authentic', *t[1:]))) is True
    return False


def entails(E, g, v, F, ety):
    c = E.mksym(CANON, ety)
    m = {}
    if not match(E, c, v, m):
        return False
    h = substb(g, m)
    if F.ev(h) is True:
        return True
    if h[0] == 'p' and h[1][0] == 'bool' and h[1][1][0] == 'authmsg':
        return isauth(h[1][1][1], F)
    return False
