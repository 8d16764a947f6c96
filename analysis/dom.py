"""Abstract domain: hash-consed value-numbering terms, linear integer forms,
byte-sequence layouts and path facts (must-facts of one partition)."""
from math import gcd


class T(tuple):
    """Hash-consed term: equality is identity."""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.n < o.n

    def __repr__(self):
        return show(self)


_tab = {}


def mk(*a):
    t = _tab.get(a)
    if t is None:
        t = T(a)
        t.n = len(_tab)
        _tab[a] = t
    return t


TRUE = mk('true')
FALSE = mk('false')
UNIT = mk('tup', ())
U64MAX = (1 << 64) - 1
LENMAX = 1 << 47      # no object is larger than the address space


def boolv(b):
    return TRUE if b else FALSE


# ----------------------------------------------------------------- integers
def I(c):
    return mk('i', int(c), ())


def atom(a):
    return mk('i', 0, ((a, 1),))


def lin(c, terms):
    ts = tuple(sorted(((a, k) for a, k in terms.items() if k), key=lambda x: x[0].n))
    return mk('i', c, ts)


def ladd(x, y, k=1):
    d = dict(x[2])
    for a, c in y[2]:
        d[a] = d.get(a, 0) + k * c
    return lin(x[1] + k * y[1], d)


def lsub(x, y):
    return ladd(x, y, -1)


def lscale(x, k):
    return lin(x[1] * k, {a: c * k for a, c in x[2]})


def isint(v):
    return v[0] == 'i'


def cint(v):
    """constant value or None"""
    return v[1] if v[0] == 'i' and not v[2] else None


def arange(a):
    """inclusive integer range of an atom"""
    k = a[0]
    if k == 'byte':
        return (0, 255)
    if k == 'len' or k == 'setlen':
        return (0, LENMAX)
    if k == 'be' or k == 'le_int':
        return (0, (1 << (8 * a[1])) - 1)
    if k == 'int':
        b = a[2]
        if b < 0:
            b = -b
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return (0, (1 << b) - 1)
    if k == 'idx':
        return (0, LENMAX)
    return (None, None)


# ---------------------------------------------------------------- sequences
# mk('seq', segs); segs: ('lit',bytes) ('sub',base,lo,hi) ('one',v) ('rep',v,n)
def baselen(b):
    k = b[0]
    if k in ('enc', 'encle'):
        return I(b[1])
    if k == 'fixed':            # ('fixed', n, term)
        return I(b[1])
    if k == 'lenof':            # ('lenof', lin, term)
        return b[1]
    if k == 'seqbase':
        return slen(b[1])
    return atom(mk('len', b))


def whole(b):
    return mkseq([mk('sub', b, I(0), baselen(b))])


def fixed(n, term):
    return whole(mk('fixed', n, term))


def lenof(l, term):
    c = cint(l)
    if c is not None:
        return fixed(c, term)
    return whole(mk('lenof', l, term))


def lit(b):
    return mkseq([mk('lit', bytes(b))])


def mkseq(segs):
    out = []
    for s in segs:
        if s[0] == 'lit':
            if not s[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = mk('lit', out[-1][1] + s[1])
                continue
        elif s[0] == 'sub':
            if s[2] is s[3]:
                continue
            if s[1][0] == 'seqbase' and s[2] is I(0) and s[3] is baselen(s[1]):
                inner = s[1][1]
                out2 = mkseq(list(out) + list(inner[1]))
                out = list(out2[1])
                continue
            if out and out[-1][0] == 'sub' and out[-1][1] is s[1] and out[-1][3] is s[2]:
                out[-1] = mk('sub', s[1], out[-1][2], s[3])
                continue
        elif s[0] == 'one':
            c = cint(s[1]) if s[1][0] == 'i' else None
            if c is not None and 0 <= c < 256 and len(s) > 2 and s[2]:
                s = mk('lit', bytes([c]))
                if out and out[-1][0] == 'lit':
                    out[-1] = mk('lit', out[-1][1] + s[1])
                    continue
            if s[0] == 'one' and s[1][0] == 'i' and len(s[1][2]) == 1 and s[1][1] == 0 and s[1][2][0][1] == 1 \
                    and s[1][2][0][0][0] == 'byte':
                by = s[1][2][0][0]
                s = mk('sub', by[1], by[2], ladd(by[2], I(1)))
                if out and out[-1][0] == 'sub' and out[-1][1] is s[1] and out[-1][3] is s[2]:
                    out[-1] = mk('sub', s[1], out[-1][2], s[3])
                    continue
        elif s[0] == 'rep':
            n = cint(s[2])
            if n == 0:
                continue
            v = cint(s[1]) if s[1][0] == 'i' else None
            if n is not None and n <= 4096 and v is not None and 0 <= v < 256 and s[3]:
                s = mk('lit', bytes([v]) * n)
                if out and out[-1][0] == 'lit':
                    out[-1] = mk('lit', out[-1][1] + s[1])
                    continue
        out.append(s)
    return mk('seq', tuple(out))


EMPTY = mk('seq', ())


def seglen(s):
    if s[0] == 'lit':
        return I(len(s[1]))
    if s[0] == 'sub':
        return lsub(s[3], s[2])
    if s[0] == 'one':
        return I(1)
    return s[2]


def slen(q):
    r = I(0)
    for s in q[1]:
        r = ladd(r, seglen(s))
    return r


def scat(*qs):
    segs = []
    for q in qs:
        segs.extend(q[1])
    return mkseq(segs)


def seqbase(q):
    if len(q[1]) == 1 and q[1][0][0] == 'sub' and q[1][0][2] is I(0) and q[1][0][3] is baselen(q[1][0][1]):
        return q[1][0][1]
    return mk('seqbase', q)


def sslice(q, lo, hi, F=None):
    """q[lo..hi], positions assumed in bounds"""
    if lo is hi:
        return EMPTY
    pos = I(0)
    out = []
    started = False
    segs = q[1]
    n = len(segs)
    for i, s in enumerate(segs):
        l = seglen(s)
        end = ladd(pos, l)
        # does this segment start at or after lo ?
        if not started:
            c = cmp0(lsub(lo, end), F)      # lo >= end ?
            if c == 'ge' or c == 'gt' or c == 'eq':
                if not (c == 'eq' and i == n - 1):
                    pos = end
                    continue
            elif c is None:
                if n == 1 and s[0] == 'sub':
                    pass
                else:
                    return mkseq([mk('sub', seqbase(q), lo, hi)])
            st = lsub(lo, pos)
            started = True
        else:
            st = I(0)
        c = cmp0(lsub(hi, end), F)
        if c in ('ge', 'eq', 'gt'):
            en = l
            done = c == 'eq'
        elif c in ('lt', 'le'):
            en = lsub(hi, pos)
            done = True
        else:
            if i == n - 1:
                en = lsub(hi, pos)
                done = True
            else:
                return mkseq([mk('sub', seqbase(q), lo, hi)])
        if not (st is en):
            p = segpart(s, st, en)
            if p is None:
                return mkseq([mk('sub', seqbase(q), lo, hi)])
            out.append(p)
        pos = end
        if done:
            return mkseq(out)
    return mkseq(out)


def segpart(s, a, b):
    if s[0] == 'sub':
        return mk('sub', s[1], ladd(s[2], a), ladd(s[2], b))
    if s[0] == 'lit':
        ca, cb = cint(a), cint(b)
        if ca is None or cb is None:
            return None
        return mk('lit', s[1][ca:cb])
    if s[0] == 'one':
        if cint(a) == 0 and cint(b) == 1:
            return s
        return None
    return mk('rep', s[1], lsub(b, a), s[3])


def cmp0(l, F):
    """sign of linear form under facts: 'lt','le','eq','ge','gt' or None"""
    c = cint(l)
    if c is None and F is not None:
        l = F.res(l)
        c = cint(l)
    if c is not None:
        return 'eq' if c == 0 else ('gt' if c > 0 else 'lt')
    if F is None:
        return None
    if F.ent_le(l):
        if F.ent_le(lscale(l, -1)):
            return 'eq'
        return 'le'
    if F.ent_le(lscale(l, -1)):
        return 'ge'
    return None


def sat(q, i, F=None, u8=True):
    """element i of a sequence (a value) or None"""
    pos = I(0)
    for s in q[1]:
        end = ladd(pos, seglen(s))
        c = cmp0(lsub(ladd(i, I(1)), end), F)
        if c in ('le', 'lt', 'eq'):
            off = lsub(i, pos)
            if s[0] == 'lit':
                k = cint(off)
                if k is None and F is not None:
                    k = cint(F.res(off))
                return I(s[1][k]) if k is not None else None
            if s[0] == 'sub':
                return mk('elem', s[1], ladd(s[2], off)) if not u8 else atom(mk('byte', s[1], ladd(s[2], off)))
            return s[1]
        if c in ('gt', 'ge'):
            if c == 'ge':
                # i+1 >= end: only equal or beyond; undecided
                pass
            pos = end
            if c == 'gt':
                continue
            return None
        return None
    return None


def bytes_of(q, F=None):
    """fully literal content or None"""
    out = b''
    for s in q[1]:
        if s[0] == 'lit':
            out += s[1]
        elif s[0] == 'sub' and F is not None:
            lo, hi = F.res(s[2]), F.res(s[3])
            n = cint(lsub(hi, lo))
            if n is None or n > 64 or n < 0:
                return None
            for i in range(n):
                v = F.known.get(mk('byte', s[1], ladd(s[2], I(i))))
                if v is None:
                    return None
                out += bytes([v])
        elif s[0] == 'one' and s[1][0] == 'i':
            c = cint(s[1]) if F is None else cint(F.res(s[1]))
            if c is None:
                return None
            out += bytes([c])
        else:
            return None
    return out


def seq_eq(a, b, F):
    """boolean value for a == b"""
    if a is b:
        return TRUE
    sa, sb = list(a[1]), list(b[1])
    while sa and sb and sa[0] is sb[0]:
        sa.pop(0)
        sb.pop(0)
    while sa and sb and sa[-1] is sb[-1]:
        sa.pop()
        sb.pop()
    a, b = mkseq(sa), mkseq(sb)
    if a is b:
        return TRUE
    la, lb = slen(a), slen(b)
    c = cmp0(lsub(la, lb), F)
    if c in ('gt', 'lt'):
        return FALSE
    ba, bb = bytes_of(a, F), bytes_of(b, F)
    if ba is not None and bb is not None:
        return boolv(ba == bb)
    # split multi-segment comparisons against literals is left to facts
    if ba is not None:
        a, b = b, lit(ba)
        bb = ba
    elif bb is not None:
        b = lit(bb)
    else:
        if a.n > b.n:
            a, b = b, a
    return mk('p', mk('eq', a, b))


# --------------------------------------------------------------------- bool
def bnot(v):
    if v is TRUE:
        return FALSE
    if v is FALSE:
        return TRUE
    if v[0] == 'p':
        return mk('np', v[1])
    if v[0] == 'np':
        return mk('p', v[1])
    return mk('np', mk('bool', v))


def le0(l):
    c = cint(l)
    if c is not None:
        return boolv(c <= 0)
    g = 0
    for _, k in l[2]:
        g = gcd(g, abs(k))
    if g > 1:
        l = mk('i', -((-l[1]) // g), tuple((a, k // g) for a, k in l[2]))
    return mk('p', mk('le', l))


def eq0(l):
    c = cint(l)
    if c is not None:
        return boolv(c == 0)
    if l[2][0][1] < 0:
        l = lscale(l, -1)
    return mk('p', mk('eqi', l))


# -------------------------------------------------------------------- facts
_fm_cache = {}


class Facts:
    __slots__ = ('known', 'lins', 'preds', 'isv', 'notv')

    def __init__(self):
        self.known = {}
        self.lins = frozenset()
        self.preds = {}
        self.isv = {}
        self.notv = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.known = dict(self.known)
        f.lins = self.lins
        f.preds = dict(self.preds)
        f.isv = dict(self.isv)
        f.notv = dict(self.notv)
        return f

    def key(self):
        return (frozenset(self.known.items()), self.lins, frozenset(self.preds.items()),
                frozenset(self.isv.items()), frozenset(self.notv.items()))

    # -- integers
    def res(self, l):
        """substitute known atoms"""
        if not l[2]:
            return l
        ch = False
        c = l[1]
        d = {}
        for a, k in l[2]:
            v = self.known.get(a)
            if v is None and a[0] == 'be':
                bs = bytes_of(a[2], self)
                if bs is not None:
                    v = int.from_bytes(bs, 'big')
            if v is not None:
                c += k * v
                ch = True
            else:
                d[a] = k
        if not ch:
            return l
        return lin(c, d)

    def ent_le(self, l):
        """facts entail l <= 0"""
        l = self.res(l)
        c = cint(l)
        if c is not None:
            return c <= 0
        hi = 0
        for a, k in l[2]:
            r = arange(a)
            b = r[1] if k > 0 else r[0]
            if b is None:
                hi = None
                break
            hi += k * b
        if hi is not None and hi + l[1] <= 0:
            return True
        return self._infeasible(lsub(I(1), l))

    def infeasible(self):
        return self._infeasible(None)

    def _infeasible(self, extra):
        rows = [r for r in (self.res(x) for x in self.lins)]
        for r in rows:
            c = cint(r)
            if c is not None and c > 0:
                return True
        rows = [r for r in rows if r[2]]
        # restrict to the component of `extra`
        if extra is not None:
            want = set(a for a, _ in extra[2])
            if not want:
                return cint(extra) > 0
            sel = [extra]
            rest = list(rows)
            ch = True
            while ch:
                ch = False
                nr = []
                for r in rest:
                    if any(a in want for a, _ in r[2]):
                        sel.append(r)
                        want.update(a for a, _ in r[2])
                        ch = True
                    else:
                        nr.append(r)
                rest = nr
            rows = sel
        key = frozenset(rows)
        v = _fm_cache.get(key)
        if v is None:
            v = fm_infeasible(rows)
            _fm_cache[key] = v
        return v

    # -- booleans
    def ev(self, v):
        if v is TRUE:
            return True
        if v is FALSE:
            return False
        if v[0] == 'p':
            return self.evp(v[1])
        if v[0] == 'np':
            r = self.evp(v[1])
            return None if r is None else (not r)
        return None

    def evp(self, p):
        r = self.preds.get(p)
        if r is not None:
            return r
        k = p[0]
        if k == 'le':
            l = p[1]
            if self.ent_le(l):
                return True
            if self.ent_le(lsub(I(1), l)):
                return False
            return None
        if k == 'eqi':
            l = self.res(p[1])
            c = cint(l)
            if c is not None:
                return c == 0
            a = self.ent_le(l)
            b = self.ent_le(lscale(l, -1))
            if a and b:
                return True
            if a and self.ent_le(ladd(l, I(1))):
                return False
            if b and self.ent_le(lsub(I(1), l)):
                return False
            q = eq0(l)
            if q[0] == 'p' and q[1] is not p:
                r = self.preds.get(q[1])
                if r is not None:
                    return r
            return None
        if k == 'eq':
            a, b = p[1], p[2]
            if a[0] == 'seq' and b[0] == 'seq':
                q = seq_eq(a, b, self)
                if q is TRUE:
                    return True
                if q is FALSE:
                    return False
                if q[1] is not p:
                    return self.preds.get(q[1])
            return None
        if k == 'isv':
            v = self.isv.get(p[1])
            if v is not None:
                return v == p[2]
            if p[2] in self.notv.get(p[1], ()):
                return False
            return None
        if k == 'and':
            a, b = self.ev(p[1]), self.ev(p[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a, b = self.ev(p[1]), self.ev(p[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if k == 'in':
            s = p[2]
            if s[0] == 'sempty':
                return False
            return None
        return None

    def assume(self, v, truth=True):
        """new Facts with boolean value v == truth, or None if contradictory"""
        e = self.ev(v)
        if e is not None:
            return self if e == truth else None
        p = v[1]
        if v[0] == 'np':
            truth = not truth
        f = self.copy()
        if not f._add(p, truth):
            return None
        return f

    def _add(self, p, truth):
        k = p[0]
        if k == 'and' and truth:
            return self._assume_in(p[1], True) and self._assume_in(p[2], True)
        if k == 'or' and not truth:
            return self._assume_in(p[1], False) and self._assume_in(p[2], False)
        if k == 'and' and not truth:
            for x, y in ((p[1], p[2]), (p[2], p[1])):
                if self.ev(x) is True:
                    return self._assume_in(y, False)
        if k == 'or' and truth:
            for x, y in ((p[1], p[2]), (p[2], p[1])):
                if self.ev(x) is False:
                    return self._assume_in(y, True)
        if k == 'le':
            l = self.res(p[1] if truth else lsub(I(1), p[1]))
            if l[2]:
                e = l if l[2][0][1] > 0 else lscale(l, -1)
                if self.preds.get(mk('eqi', e)) is False:       # l <= 0 and l != 0
                    l = ladd(l, I(1))
            return self._addlin(l)
        if k == 'eqi':
            if truth:
                return self._addeq(p[1])
            self.preds[p] = False
            # integer tightening: l != 0 with l<=0 or l>=0
            l = p[1]
            if self.ent_le(l):
                return self._addlin(ladd(l, I(1)))
            if self.ent_le(lscale(l, -1)):
                return self._addlin(lsub(I(1), l))
            return True
        if k == 'isv':
            if truth:
                return self.set_variant(p[1], p[2])
            self.notv[p[1]] = self.notv.get(p[1], frozenset()) | {p[2]}
            return True
        self.preds[p] = truth
        if k == 'eq' and truth:
            a, b = p[1], p[2]
            if a[0] == 'seq' and b[0] == 'seq':
                if not self._addeq(lsub(slen(a), slen(b))):
                    return False
                bb = bytes_of(b)
                if bb is not None:
                    return self._addbytes(a, bb)
        return True

    def _assume_in(self, v, truth):
        g = self.assume(v, truth)
        if g is None:
            return False
        for s in Facts.__slots__:
            setattr(self, s, getattr(g, s))
        return True

    def _addbytes(self, q, bs):
        pos = 0
        for s in q[1]:
            n = cint(self.res(seglen(s)))
            if n is None:
                return True
            if pos + n > len(bs):
                return True
            if s[0] == 'lit':
                if s[1] != bs[pos:pos + n]:
                    return False
            elif s[0] == 'sub':
                for i in range(n):
                    a = mk('byte', s[1], ladd(s[2], I(i)))
                    if not self._setknown(a, bs[pos + i]):
                        return False
            elif s[0] == 'one' and s[1][0] == 'i':
                if not self._addeq(lsub(s[1], I(bs[pos]))):
                    return False
            pos += n
        return True

    def _setknown(self, a, v):
        o = self.known.get(a)
        if o is not None:
            return o == v
        lo, hi = arange(a)
        if lo is not None and v < lo:
            return False
        if hi is not None and v > hi:
            return False
        self.known[a] = v
        if a[0] == 'be':
            q = a[2]
            if not self._addbytes(q, v.to_bytes(a[1], 'big')):
                return False
        # disequalities
        for p, t in list(self.preds.items()):
            if p[0] == 'eqi' and not t:
                l = self.res(p[1])
                if cint(l) == 0:
                    return False
            elif p[0] == 'eq' and not t and a[0] == 'byte':
                if p[1][0] == 'seq' and p[2][0] == 'seq':
                    x, y = bytes_of(p[1], self), bytes_of(p[2], self)
                    if x is not None and x == y:
                        return False
        if self.infeasible():
            return False
        return True

    def _addeq(self, l):
        l = self.res(l)
        c = cint(l)
        if c is not None:
            return c == 0
        if len(l[2]) == 1:
            a, k = l[2][0]
            if (-l[1]) % k:
                return False
            return self._setknown(a, (-l[1]) // k)
        if not self._addlin(l):
            return False
        return self._addlin(lscale(l, -1))

    def _addlin(self, l):
        l = self.res(l)
        c = cint(l)
        if c is not None:
            return c <= 0
        q = le0(l)
        l = q[1][1]
        if l in self.lins:
            return True
        self.lins = self.lins | {l}
        if self.infeasible():
            return False
        # promote to known when pinned
        if len(l[2]) == 1:
            a, k = l[2][0]
            if self.ent_le(lscale(l, -1)):
                if (-l[1]) % k == 0:
                    return self._setknown(a, (-l[1]) // k)
                return False
        for p, t in self.preds.items():
            if p[0] == 'eqi' and not t and any(a in dict(l[2]) for a, _ in p[1][2]):
                m = p[1]
                if self.ent_le(m) and self.ent_le(lscale(m, -1)):
                    return False
        return True

    # -- enum variants
    def set_variant(self, term, v):
        o = self.isv.get(term)
        if o is not None:
            return o == v
        if v in self.notv.get(term, ()):
            return False
        self.isv[term] = v
        self.notv.pop(term, None)
        return True

    def with_variant(self, term, v):
        f = self.copy()
        return f if f.set_variant(term, v) else None

    def entails_eq_seq(self, a, b):
        """must-equality of two sequences"""
        q = seq_eq(a, b, self)
        return self.ev(q) is True or self._eq_norm(a, b)

    def _eq_norm(self, a, b):
        if a is b:
            return True
        na, nb = self.nseq(a), self.nseq(b)
        if na is nb:
            return True
        return self.ev(seq_eq(na, nb, self)) is True

    def nseq(self, q):
        """sequence with offsets resolved by known facts"""
        out = []
        for s in q[1]:
            if s[0] == 'sub':
                out.append(mk('sub', s[1], self.res(s[2]), self.res(s[3])))
            else:
                out.append(s)
        return mkseq(out)

    def eq_lin(self, a, b):
        d = lsub(a, b)
        return self.ent_le(d) and self.ent_le(lscale(d, -1))


def fm_infeasible(rows, limit=600):
    """rational Fourier-Motzkin with integer tightening; True = no solution"""
    cons = {}

    def norm(c, d):
        g = 0
        for k in d.values():
            g = gcd(g, abs(k))
        if g > 1:
            d = {a: k // g for a, k in d.items()}
            c = -((-c) // g)
        return c, d

    def put(c, d):
        if not d:
            return c <= 0
        c, d = norm(c, d)
        k = frozenset(d.items())
        o = cons.get(k)
        if o is None or c > o:
            cons[k] = c
        # immediate contradiction with the opposite row
        nk = frozenset((a, -v) for a, v in d.items())
        o = cons.get(nk)
        if o is not None and o + cons[k] > 0:
            return False
        return True

    atoms = set()
    for r in rows:
        if not put(r[1], dict(r[2])):
            return True
        atoms.update(a for a, _ in r[2])
    for a in atoms:
        lo, hi = arange(a)
        if lo is not None and not put(lo, {a: -1}):
            return True
        if hi is not None and not put(-hi, {a: 1}):
            return True
    while True:
        pos, neg = {}, {}
        for k in cons:
            for a, v in k:
                (pos if v > 0 else neg).setdefault(a, []).append(k)
        allv = set(pos) | set(neg)
        if not allv:
            return False
        best = None
        for a in allv:
            n = len(pos.get(a, ())) * len(neg.get(a, ()))
            if best is None or n < best[0] or (n == best[0] and a.n < best[1].n):
                best = (n, a)
        a = best[1]
        P, N = pos.get(a, []), neg.get(a, [])
        newc = []
        for p in P:
            dp = dict(p)
            for q in N:
                dq = dict(q)
                kp, kq = dp[a], -dq[a]
                d = {}
                for x, v in dp.items():
                    if x is not a:
                        d[x] = d.get(x, 0) + v * kq
                for x, v in dq.items():
                    if x is not a:
                        d[x] = d.get(x, 0) + v * kp
                d = {x: v for x, v in d.items() if v}
                newc.append((cons[p] * kq + cons[q] * kp, d))
        for p in P + N:
            cons.pop(p, None)
        for c, d in newc:
            if not put(c, d):
                return True
        if len(cons) > limit:
            return False


# ------------------------------------------------------------------ printing
NAMES = {}          # term -> pretty name


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if t in NAMES if isinstance(t, T) else False:
        return NAMES[t]
    if d > 12:
        return '..'
    if not isinstance(t, T):
        return '(' + ','.join(show(x, d + 1) for x in t) + ')'
    k = t[0]
    if k == 'i':
        out = []
        for a, c in t[2]:
            s = show(a, d + 1)
            out.append(s if c == 1 else ('-' + s if c == -1 else '%d*%s' % (c, s)))
        if t[1] or not out:
            out.append(str(t[1]))
        return '+'.join(out).replace('+-', '-')
    if k == 'true' or k == 'false':
        return k
    if k == 'seq':
        return '[' + ' ++ '.join(show(s, d + 1) for s in t[1]) + ']'
    if k == 'lit':
        return 'x' + t[1].hex() if len(t[1]) <= 40 else 'x%s..(%d)' % (t[1][:8].hex(), len(t[1]))
    if k == 'sub':
        if t[2] is I(0) and t[3] is baselen(t[1]):
            return show(t[1], d + 1)
        return '%s[%s..%s]' % (show(t[1], d + 1), show(t[2], d + 1), show(t[3], d + 1))
    if k == 'fixed':
        return show(t[2], d + 1)
    if k == 'lenof':
        return show(t[2], d + 1)
    if k == 'p':
        return show(t[1], d + 1)
    if k == 'np':
        return '!' + show(t[1], d + 1)
    if k == 'vref':
        return '&' + show(t[1], d + 1)
    if k == 'len':
        return 'len(%s)' % show(t[1], d + 1)
    if k == 'int':
        return show(t[1], d + 1)
    return '%s(%s)' % (k, ','.join(show(x, d + 1) for x in t[1:]))


def subst(t, m, memo=None):
    """substitute terms (atoms, bases, syms) by values of the same kind.
    m maps: int-atom -> Lin, seq base -> seq value, other term -> term"""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple):
        return t
    if not isinstance(t, T):
        return tuple(subst(x, m, memo) for x in t)
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        k = t[0]
        if k == 'i':
            r = I(t[1])
            for a, c in t[2]:
                if a in m and m[a][0] == 'i':
                    x = m[a]
                else:
                    b = subst(a, m, memo)
                    x = b if b[0] == 'i' else atom(b)
                    if b[0] == 'len' and b[1][0] == 'seq':
                        x = slen(b[1])
                    elif b[0] == 'len' and b[1] is not a[1]:
                        x = baselen(b[1])
                    elif b[0] == 'be' and b[2] is not a[2]:
                        x = mkbe(b[1], b[2])
                    elif b[0] == 'byte' and b[1][0] == 'seq':
                        x = sat(b[1], b[2])
                        if x is None or x[0] != 'i':
                            x = atom(mk('byte', seqbase(b[1]), b[2]))
                r = ladd(r, x, c)
        elif k == 'seq':
            segs = []
            for s in t[1]:
                if s[0] == 'sub':
                    lo, hi = subst(s[2], m, memo), subst(s[3], m, memo)
                    if s[1] in m and m[s[1]][0] == 'seq':
                        q = m[s[1]]
                        if s[2] is I(0) and s[3] is baselen(s[1]):
                            segs.extend(q[1])
                        else:
                            segs.extend(sslice(q, lo, hi)[1])
                    else:
                        b = subst(s[1], m, memo)
                        segs.append(mk('sub', b, lo, hi))
                elif s[0] == 'lit':
                    segs.append(s)
                else:
                    segs.append(mk(*[subst(x, m, memo) for x in s]))
            r = mkseq(segs)
        elif k == 'p' or k == 'np':
            r = substp(t[1], m, memo)
            if k == 'np':
                r = bnot(r)
        else:
            r = mk(*[subst(x, m, memo) for x in t])
    memo[t] = r
    return r


def substp(p, m, memo=None):
    k = p[0]
    if k == 'le':
        return le0(subst(p[1], m, memo))
    if k == 'eqi':
        return eq0(subst(p[1], m, memo))
    if k == 'eq':
        a, b = subst(p[1], m, memo), subst(p[2], m, memo)
        if a[0] == 'seq' and b[0] == 'seq':
            return seq_eq(a, b, None)
        if a.n > b.n:
            a, b = b, a
        return TRUE if a is b else mk('p', mk('eq', a, b))
    r = mk(*[subst(x, m, memo) for x in p])
    return mk('p', r)


def mkbe(n, q, kind='be'):
    """integer decoded from an n byte sequence"""
    b = bytes_of(q)
    if b is not None and len(b) == n:
        return I(int.from_bytes(b, 'big' if kind == 'be' else 'little'))
    if len(q[1]) == 1 and q[1][0][0] == 'sub':
        base = q[1][0][1]
        if base[0] == ('enc' if kind == 'be' else 'encle') and base[1] == n and q is whole(base):
            return base[2]
    if n == 1:
        e = sat(q, I(0))
        if e is not None:
            return e
    return atom(mk('be' if kind == 'be' else 'le_int', n, q))


def mkenc(n, l, kind='be'):
    c = cint(l)
    if c is not None:
        return lit((c & ((1 << (8 * n)) - 1)).to_bytes(n, 'big' if kind == 'be' else 'little'))
    if len(l[2]) == 1 and l[1] == 0 and l[2][0][1] == 1:
        a = l[2][0][0]
        if a[0] == ('be' if kind == 'be' else 'le_int') and a[1] == n:
            return a[2]
    return whole(mk('enc' if kind == 'be' else 'encle', n, l))


def atoms_in(t, out=None, seen=None):
    """all sub-terms"""
    if out is None:
        out, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            out.add(x)
            st.extend(y for y in x if isinstance(y, tuple))
        elif isinstance(x, tuple):
            st.extend(y for y in x if isinstance(y, tuple))
    return out
