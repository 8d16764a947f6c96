"""Partitioned abstract interpreter over the dumped MIR.

A state is one trace partition: a store from cells to abstract values, the
must-facts of the partition, and may-sets of effects.  Calls to functions whose
body is available are analysed in context; primitives of other crates are
interpreted by abstract transfer functions (models.py).  Loops are solved by a
fixpoint with widening to versioned symbols plus candidate invariants."""
import sys
from dom import *
import prog as P

sys.setrecursionlimit(20000)


class St:
    __slots__ = ('cells', 'F', 'ev', 'fails', 'trail', 'fk', 'path', 'dead', 'tag')

    def __init__(self):
        self.cells = {}
        self.F = Facts()
        self.ev = frozenset()
        self.fails = frozenset()
        self.trail = ()
        self.fk = None
        self.tag = None         # why the error being returned is not fatal
        self.dead = False       # contradictory, to be dropped
        self.path = None        # call sites passed, newest first (for reports only)

    def copy(self):
        s = St.__new__(St)
        s.cells = dict(self.cells)
        s.F = self.F
        s.ev = self.ev
        s.fails = self.fails
        s.trail = self.trail
        s.fk = self.fk
        s.path = self.path
        s.dead = self.dead
        s.tag = self.tag
        return s

    def event(self, *e):
        self.ev = self.ev | {mk('ev', *e)}

    def storekey(self):
        return (frozenset(self.cells.items()), self.ev, self.fails, self.trail, self.tag)


class Split(Exception):
    """the statement needs the partition to be refined first"""
    def __init__(self, states):
        self.states = states


class Dead(Exception):
    """the partition is contradictory"""


class Panic:
    __slots__ = ('st', 'fn', 'span', 'why', 'stack')

    def __init__(self, st, fn, span, why, stack):
        self.st, self.fn, self.span, self.why, self.stack = st, fn, span, why, stack


def part(v, of=None):
    """(base, from, to) of a part of one base; the empty sequence counts as the end of the part `of`"""
    if v[0] != 'seq':
        return None
    if of is not None:
        o = part(of)
        if o is None:
            return None
        if not v[1]:
            return o[0], o[2], o[2]
        p = part(v)
        return p if p is not None and p[0] is o[0] else None
    if len(v[1]) == 1 and v[1][0][0] == 'sub' and v[1][0][1][0] != 'fixed':
        return v[1][0][1:]
    return None


class LoopInfo:
    __slots__ = ('id', 'fn', 'head', 'span', 'phis', 'entryF', 'root', 'entry', 'tmpl', 'backs')


class Exit:
    __slots__ = ('st', 'ret')

    def __init__(self, st, ret):
        self.st, self.ret = st, ret


class Summary:
    def __init__(self):
        self.exits = []
        self.panics = []
        self.loops = {}
        self.prints = []           # what is printed, apart from the states so that a conditional log line does not split them
        self.unknown = set()
        self.notes = []


def mkenum(ty, var, fields=()):
    return mk('adt', ty, var, tuple(fields))


def opq(*a):
    return mk('sym', mk(*a), -1)


class Engine:
    MAXSTATES = 400
    observer = None         # told about values that end their life: (kind, fn key, site, type, value)

    def __init__(self, prog):
        self.p = prog
        import models
        self.models = models.MODELS
        self.dropped = models.dropped
        self.widened = False
        self.m = models
        self.n = 0
        self.stack = []
        self.sum = None
        self.undec = False
        self.celltys = {}
        self.cdefs = {}
        self.steps = 0
        self._sz = {}
        self.overrides = {}
        self.eleminv = {}       # container symbol -> Inv (None: always empty)
        self.usedinv = set()
        self.counters = set()   # 64-bit terms assumed not to wrap
        self.apikeys = set()    # calls recorded in the partition's trail
        self.apidepth = 0
        self.errnote = None    # facts of an error result worth keeping through joins

    # ------------------------------------------------------------ symbols
    def fresh(self):
        self.n += 1
        return self.n

    def mksym(self, term, ty, depth=0):
        """the canonical unknown value of a type"""
        if ty is None or ty < 0:
            if ty == -8:
                return atom(mk('int', term, 8))
            return mk('sym', term, -1)
        t = self.p.types[ty]
        k = t['k']
        if k == 'bool':
            return mk('p', mk('bool', term))
        if k == 'int':
            if t['bits'] == 8 and not t['signed'] and term[0] == 'elem':
                return atom(mk('byte', term[1], term[2]))
            return atom(mk('int', term, -t['bits'] if t['signed'] else t['bits']))
        if k == 'char':
            return atom(mk('int', term, 32))
        e = self.p.seq_elem(ty)
        if e is not None:
            if k == 'array':
                n = t['len']
                if self.p.isu8(e):
                    return fixed(n, term)
                if n is not None:
                    return whole(mk('fixed', n, mk('tb', term, e)))
            if self.p.isu8(e):
                return whole(term)
            return whole(mk('tb', term, e))
        if k == 'ref' or k == 'ptr':
            if not t['mut']:
                return mk('vref', self.mksym(mk('deref', term), t['ty'], depth))
            return mk('sym', term, ty)
        if k == 'tuple':
            return mk('tup', tuple(self.mksym(mk('fld', term, 0, i), x, depth + 1) for i, x in enumerate(t['tys'])))
        if k == 'adt':
            p = t['path']
            if p in ('alloc::collections::btree::set::BTreeSet', 'std::collections::hash::set::HashSet'):
                return mk('set', mk('sbase', term))
            if p.endswith('::BufWriter') or p.endswith('::LineWriter'):
                inner = t['args'][0]
                if self.p.seq_elem(inner) is not None:
                    return mk('w', 'vec', whole(mk('w0', term)), None)
                return mk('w', 'gen', whole(mk('w0', term)), None)
            if t.get('box') and t['args']:
                return mk('box', self.mksym(mk('deref', term), t['args'][0], depth + 1))
            if t['adt'] == 'struct' and t['expanded'] and depth < 8:
                fs = t['variants'][0]['fields']
                return mkenum(ty, 0, [self.mksym(mk('fld', term, 0, i), f['ty'], depth + 1) for i, f in enumerate(fs)])
        return mk('sym', term, ty)

    def variant_of_discr(self, ty, d):
        t = self.p.types[ty]
        for i, v in enumerate(t['variants']):
            if int(v['discr']) == d:
                return i
        return None

    def discr_of(self, ty, var):
        return int(self.p.types[ty]['variants'][var]['discr'])

    def is_enum(self, ty):
        if ty is None or ty < 0:
            return False
        t = self.p.types[ty]
        return t['k'] == 'adt' and t['adt'] == 'enum' and t['expanded']

    # ---------------------------------------------------------- projection
    def fldval(self, st, v, var, i, fty):
        k = v[0]
        if k == 'adt':
            if var is not None and v[2] != var and self.is_enum(v[1]):
                raise Dead()
            if i >= len(v[3]):
                return opq('fld', v, var or 0, i)
            return v[3][i]
        if k == 'tup':
            if i >= len(v[1]):
                return opq('fld', v, 0, i)
            return v[1][i]
        if k == 'clo':
            return v[2][i]
        if k == 'sym':
            if self.is_enum(v[2]):
                if var is None:
                    var = 0
                kv = st.F.isv.get(v[1])
                if kv is None:
                    nf = st.F.with_variant(v[1], var)
                    if nf is None:
                        raise Dead()
                    st.F = nf
                elif kv != var:
                    raise Dead()
            return self.mksym(mk('fld', v[1], var or 0, i), fty)
        if k == 'box':
            return self.fldval(st, v[1], var, i, fty) if False else opq('fld', v, var or 0, i)
        if k == 'range' and i < 2:
            return v[1 + i]
        return self.mksym(mk('fld', v, var or 0, i), fty)

    def concrete(self, st, v):
        """expand a symbolic enum value whose variant is known"""
        if v[0] == 'sym' and v[2] is not None and v[2] >= 0 and self.is_enum(v[2]):
            kv = st.F.isv.get(v[1])
            if kv is None:
                vs = self.p.types[v[2]]['variants']
                nv = st.F.notv.get(v[1], ())
                left = [i for i in range(len(vs)) if i not in nv]
                if len(left) == 1:
                    kv = left[0]
                elif not left:
                    raise Dead()
            if kv is not None:
                return self.expand(v, kv)
        return v

    def expand(self, v, var):
        fs = self.p.types[v[2]]['variants'][var]['fields']
        return mkenum(v[2], var, [self.mksym(mk('fld', v[1], var, i), f['ty']) for i, f in enumerate(fs)])

    def split_enum(self, st, v):
        """concrete adt value; raises Split when the variant is not known"""
        v = self.concrete(st, v)
        if v[0] == 'sym' and v[2] >= 0 and self.is_enum(v[2]):
            out = []
            nv = st.F.notv.get(v[1], ())
            for i in range(len(self.p.types[v[2]]['variants'])):
                if i in nv:
                    continue
                f = st.F.with_variant(v[1], i)
                if f is not None:
                    s = st.copy()
                    s.F = f
                    out.append(s)
            raise Split(out)
        return v

    def elem(self, st, q, i):
        """element of a sequence value"""
        if q[0] != 'seq':
            return opq('elem', q, i)
        i = st.F.res(i)
        pos = I(0)
        F = st.F
        for s in q[1]:
            end = ladd(pos, seglen(s))
            c = cmp0(lsub(ladd(i, I(1)), end), F)
            if c in ('le', 'lt', 'eq'):
                off = lsub(i, pos)
                if s[0] == 'lit':
                    k = cint(F.res(off))
                    if k is not None and k < len(s[1]):
                        return I(s[1][k])
                    return atom(mk('byte', mk('seqbase', lit(s[1])), off))
                if s[0] == 'sub':
                    return self.baseelem(s[1], ladd(s[2], off), st)
                return s[1]
            if c == 'gt' or (c == 'ge' and F.ent_le(lsub(end, i))):
                pos = end
                continue
            break
        return self.baseelem(seqbase(q), i, st)

    def baseelem(self, b, i, st=None):
        if b[0] == 'tb':
            v = self.mksym(mk('elem', b[1], i), b[2])
            if st is not None and b[1] in self.eleminv:
                self.usedinv.add(b[1])
                inv = self.eleminv[b[1]]
                if inv is None:
                    st.dead = True          # nothing was ever stored there
                    return v
                for g in inv.inst(self, v):
                    nf = st.F.assume(g)
                    if nf is None:
                        st.dead = True
                        return v
                    st.F = nf
            return v
        if b[0] == 'fixed' and b[2][0] == 'tb':
            return self.mksym(mk('elem', b[2][1], i), b[2][2])
        if b[0] == 'seqbase':
            # element type from the pieces
            for s in b[1][1]:
                if s[0] == 'sub' and s[1][0] == 'tb':
                    return self.mksym(mk('elem', b, i), s[1][2])
                if s[0] == 'one' and s[1][0] != 'i':
                    ty = self.valty(s[1])
                    return self.mksym(mk('elem', b, i), ty) if ty is not None else opq('elem', b, i)
        return atom(mk('byte', b, i))

    def valty(self, v):
        if v[0] == 'adt':
            return v[1]
        if v[0] == 'sym':
            return v[2]
        return None

    def isu8seq(self, q):
        for s in q[1]:
            if s[0] == 'lit':
                return True
            if s[0] == 'sub':
                b = s[1]
                return not (b[0] == 'tb' or (b[0] == 'fixed' and b[2][0] == 'tb'))
            if s[0] == 'one':
                return s[1][0] == 'i'
        return True

    def proj(self, st, v, pe):
        k = pe[0]
        if k == 'f':
            return self.fldval(st, v, pe[1], pe[2], pe[3])
        if k == 'x':
            return self.elem(st, v, pe[1])
        if k == 'r':
            if v[0] != 'seq':
                return opq('slice', v, pe[1], pe[2])
            return sslice(v, st.F.res(pe[1]), st.F.res(pe[2]), st.F)
        if k == 'b':
            return v[1] if v[0] == 'box' else opq('unbox', v)
        if k == 'wv':                       # the buffer inside a writer
            return v[2] if v[0] == 'w' else v
        raise AssertionError(pe)

    def load(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            return opq('uninit', cell)
        for pe in path:
            v = self.proj(st, v, pe)
        return v

    def store(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        v = st.cells.get(cell)
        if v is None:
            v = opq('uninit', cell)
        st.cells[cell] = self._upd(st, v, path, 0, val)

    def _upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        pe = path[i]
        k = pe[0]
        if k == 'f':
            var = pe[1] or 0
            if v[0] == 'sym' and v[2] is not None and v[2] >= 0:
                t = self.p.types[v[2]]
                if t['k'] == 'adt' and t['expanded']:
                    if t['adt'] == 'enum':
                        kv = st.F.isv.get(v[1])
                        if kv is None:
                            nf = st.F.with_variant(v[1], var)
                            if nf is None:
                                raise Dead()
                            st.F = nf
                        elif kv != var:
                            raise Dead()
                    v = self.expand(v, var)
            if v[0] == 'adt':
                fs = list(v[3])
                while len(fs) <= pe[2]:
                    fs.append(opq('uninitf', v, len(fs)))
                fs[pe[2]] = self._upd(st, fs[pe[2]], path, i + 1, val)
                return mk('adt', v[1], var if self.is_enum(v[1]) else v[2], tuple(fs))
            if v[0] == 'tup':
                fs = list(v[1])
                fs[pe[2]] = self._upd(st, fs[pe[2]], path, i + 1, val)
                return mk('tup', tuple(fs))
            if v[0] == 'clo':
                fs = list(v[2])
                fs[pe[2]] = self._upd(st, fs[pe[2]], path, i + 1, val)
                return mk('clo', v[1], tuple(fs))
            if v[0] == 'range':
                fs = [v[1], v[2]]
                fs[pe[2]] = self._upd(st, fs[pe[2]], path, i + 1, val)
                return mk('range', fs[0], fs[1])
            return opq('upd', self.fresh())
        if k == 'x':
            if v[0] != 'seq':
                return opq('upd', self.fresh())
            lo = st.F.res(pe[1])
            hi = ladd(lo, I(1))
            ev = self._upd(st, self.elem(st, v, lo), path, i + 1, val)
            n = slen(v)
            return scat(sslice(v, I(0), lo, st.F), mkseq([mk('one', ev, self.isu8seq(v))]),
                        sslice(v, hi, n, st.F))
        if k == 'r':
            if v[0] != 'seq':
                return opq('upd', self.fresh())
            lo, hi = st.F.res(pe[1]), st.F.res(pe[2])
            part = sslice(v, lo, hi, st.F)
            nv = self._upd(st, part, path, i + 1, val)
            if nv[0] != 'seq':
                return opq('upd', self.fresh())
            return scat(sslice(v, I(0), lo, st.F), nv, sslice(v, hi, slen(v), st.F))
        if k == 'b':
            return mk('box', self._upd(st, v[1] if v[0] == 'box' else opq('unbox', v), path, i + 1, val))
        if k == 'wv':
            nv = self._upd(st, v[2] if v[0] == 'w' else v, path, i + 1, val)
            return mk('w', v[1], nv, v[3]) if v[0] == 'w' else nv
        raise AssertionError(pe)

    # --------------------------------------------------------------- places
    def resolve(self, st, fr, pl):
        """place -> ('m', cell, path) or ('v', value)"""
        cur = ('m', (fr, pl[0]), ())
        var = None
        for pe in pl[1]:
            if pe == '*':
                v = cur[1] if cur[0] == 'v' else self.load(st, cur[1], cur[2])
                if v[0] == 'vref':
                    cur = ('v', v[1])
                elif v[0] == 'mref':
                    cur = ('m', v[1], v[2])
                elif v[0] == 'box':
                    cur = ('v', v[1]) if cur[0] == 'v' else ('m', cur[1], cur[2] + (('b',),))
                elif v[0] == 'sym':
                    d = self.p.deref_ty(v[2]) if v[2] is not None and v[2] >= 0 else None
                    cur = ('v', self.mksym(mk('deref', v[1]), d) if d is not None else opq('deref', v[1]))
                elif v[0] == 'seq':          # Box<[T]> / Box<str>
                    pass
                else:
                    cur = ('v', opq('deref', v))
                var = None
                continue
            k = pe[0]
            if k == 'd':
                var = pe[1]
                continue
            if k == 'f':
                e = ('f', var, pe[1], pe[2])
                var = None
            elif k == 'i':
                e = ('x', self.load(st, (fr, pe[1]), ()))
            elif k == 'c':
                if pe[3]:
                    v = cur[1] if cur[0] == 'v' else self.load(st, cur[1], cur[2])
                    e = ('x', lsub(slen(v), I(pe[1])) if v[0] == 'seq' else I(0))
                else:
                    e = ('x', I(pe[1]))
            elif k == 's':
                v = cur[1] if cur[0] == 'v' else self.load(st, cur[1], cur[2])
                hi = (lsub(slen(v), I(pe[2])) if pe[3] else I(pe[2])) if v[0] == 'seq' else I(0)
                e = ('r', I(pe[1]), hi)
            else:
                continue
            if cur[0] == 'v':
                cur = ('v', self.proj(st, cur[1], e))
            else:
                cur = ('m', cur[1], cur[2] + (e,))
        return cur

    def rd(self, st, fr, pl):
        c = self.resolve(st, fr, pl)
        return c[1] if c[0] == 'v' else self.load(st, c[1], c[2])

    def wr(self, st, fr, pl, val):
        c = self.resolve(st, fr, pl)
        if c[0] == 'm':
            self.store(st, c[1], c[2], val)
        else:
            st.event('lostwrite', self.cur())

    def cur(self):
        return self.stack[-1][0] if self.stack else '?'

    # ------------------------------------------------------------- operands
    def op(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            return self.rd(st, fr, o[1])
        if k == 'k':
            return self.const(o[1])
        return FALSE if k != 'rt' else TRUE        # runtime checks enabled

    def const(self, c):
        ty = c['ty']
        if 'fn' in c:
            return mk('fn', ty)
        if 'uneval' in c:
            return self.mksym(mk('const', c['uneval']), ty)
        return self.cv(c['v'], ty)

    def cv(self, v, ty):
        t = self.p.types[ty] if ty is not None and ty >= 0 else {'k': '?'}
        if v is None:
            return opq('const', str(ty))
        if 'int' in v:
            n = int(v['int'])
            if t['k'] == 'bool':
                return boolv(n)
            if t['k'] == 'int' and t['signed'] and n >= 1 << (t['bits'] - 1):
                n -= 1 << t['bits']
            return I(n)
        if 'bytes' in v:
            b = bytes.fromhex(v['bytes'])
            if t['k'] in ('ref', 'ptr'):
                return mk('vref', lit(b))
            return lit(b)
        if 'ref' in v:
            inner = self.p.deref_ty(ty) if ty is not None and ty >= 0 else None
            r = v['ref']
            if isinstance(r, dict) and 'static' in r:
                return mk('vref', mk('sym', mk('static', str(r['static'])), inner if inner is not None else -1))
            return mk('vref', self.cv(r, inner))
        if 'static' in v:
            return mk('sym', mk('static', str(v['static'])), ty)
        if 'arr' in v and 'variant' not in v and 'fields' not in v:
            e = t.get('ty') if t['k'] in ('array', 'slice') else None
            return self.seqof([self.cv(x, e) for x in v['arr']], e)
        if 'fields' in v:
            if t['k'] == 'tuple':
                return mk('tup', tuple(self.cv(x, t['tys'][i]) for i, x in enumerate(v['fields'])))
            if t['k'] == 'closure':
                return mk('clo', ty, ())
            if t['k'] == 'adt' and t['expanded']:
                var = v.get('variant') or 0
                fs = t['variants'][var]['fields']
                return self.norm_adt(ty, var, [self.cv(x, fs[i]['ty']) for i, x in enumerate(v['fields'])])
            return mk('sym', mk('const', str(v)), ty)
        if 'fn' in v:
            return mk('fn', ty)
        if t['k'] == 'tuple' and not t['tys']:
            return UNIT
        if t['k'] == 'closure':
            return mk('clo', ty, ())
        if t['k'] == 'adt' and t['expanded'] and t['adt'] == 'struct' and not t['variants'][0]['fields']:
            return mkenum(ty, 0)
        return self.mksym(mk('const', str(v)), ty)

    def norm_adt(self, ty, var, fields):
        return mkenum(ty, var, fields)

    def seqof(self, vals, e):
        u8 = e is not None and self.p.isu8(e)
        return mkseq([mk('one', v, u8) for v in vals])

    # -------------------------------------------------------------- rvalues
    def intty(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'int':
            return t['bits'], t['signed']
        if t['k'] == 'char':
            return 32, False
        if t['k'] in ('ptr', 'ref', 'fnptr'):
            return 64, False
        return None

    def fit(self, st, v, ty, why):
        """value of v reduced to the type's range when it provably fits"""
        it = self.intty(ty)
        if it is None or v[0] != 'i':
            return v if v[0] == 'i' else atom(mk('int', mk('cast', v, ty), 64))
        b, s = it
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        c = cint(v)
        if c is not None:
            c &= (1 << b) - 1
            if s and c > hi:
                c -= 1 << b
            return I(c)
        if st.F.ent_le(lsub(v, I(hi))) and st.F.ent_le(lsub(I(lo), v)):
            return v
        return atom(mk('int', mk('wrap', v, b), -b if s else b))

    def binop(self, st, op, a, b, ty):
        """returns a value (or a tuple for ..WithOverflow)"""
        ov = False
        if op.endswith('WithOverflow'):
            ov = True
            op = op[:-12]
        unch = op.endswith('Unchecked')
        if unch:
            op = op[:-9]
        it = self.intty(ty)
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and it and \
                a[0] == 'i' and b[0] == 'i':
            bits, sg = it
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            a, b = st.F.res(a), st.F.res(b)
            ca, cb = cint(a), cint(b)
            r = None
            exact = True
            if op == 'Add':
                r = ladd(a, b)
            elif op == 'Sub':
                r = lsub(a, b)
            elif op == 'Mul':
                if cb is not None:
                    r = lscale(a, cb)
                elif ca is not None:
                    r = lscale(b, ca)
                else:
                    x, y = (a, b) if a.n < b.n else (b, a)
                    r = atom(mk('int', mk('mul', x, y), 128))
            elif op in ('Div', 'Rem') and cb and not sg:
                if ca is not None:
                    r = I(ca // cb if op == 'Div' else ca % cb)
                elif cb == 1:
                    r = a if op == 'Div' else I(0)
                else:
                    x = atom(mk('int', mk(op, a, cb), bits))
                    for g in ([le0(lsub(x, I(cb - 1)))] if op == 'Rem' else
                              [le0(lsub(lscale(x, cb), a)), le0(lsub(a, ladd(lscale(x, cb), I(cb - 1))))]):
                        f = st.F.assume(g)
                        if f is not None:
                            st.F = f
                    return x
            elif op == 'Shl' and cb is not None:
                r = lscale(a, 1 << cb)
                if not (st.F.ent_le(lsub(r, I(hi)))):
                    r = None
            elif op == 'Shr' and cb is not None:
                if ca is not None:
                    r = I(ca >> cb)
                elif cb == 0:
                    r = a
                else:
                    return self.shr(st, a, cb, bits)
            elif op in ('BitOr', 'BitXor', 'BitAnd'):
                r = self.bitop(st, op, a, b, bits)
            if r is not None:
                if op in ('Add', 'Sub', 'Mul') and not unch:
                    over = self.bor(bnot(le0(lsub(r, I(hi)))), bnot(le0(lsub(I(lo), r))))
                    if ov:
                        return mk('tup', (r, over))
                    return self.fit(st, r, ty, 'wrap') if st.F.ev(over) is not False else r
                return mk('tup', (r, FALSE)) if ov else r
            x, y = a, b
            v = atom(mk('int', mk(op, x, y), -bits if sg else bits))
            if op == 'BitAnd' and not sg:
                for z in (a, b):
                    f = st.F.assume(le0(lsub(v, z)))
                    if f is not None:
                        st.F = f
            return mk('tup', (v, mk('p', mk('bool', mk('ovf', op, x, y))))) if ov else v
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            return self.compare(st, op, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and self.isbool(a) and self.isbool(b):
            if op == 'BitAnd':
                return self.band(a, b)
            if op == 'BitOr':
                return self.bor(a, b)
            return self.booleq(a, bnot(b))
        r = self.mksym(mk('bin', op, a, b), ty)
        return mk('tup', (r, FALSE)) if ov else r

    def shr(self, st, a, k, bits):
        """a >> k when a is a sum of byte atoms with power-of-two weights"""
        m = 1 << k
        hi = {}
        lo = 0
        for at, c in a[2]:
            r = arange(at)
            if c % m == 0:
                hi[at] = c // m
            elif r[0] is not None and r[0] >= 0 and c > 0:
                lo += c * r[1]
            else:
                lo = m
        if a[1] % m + lo < m and a[1] >= 0:
            return lin(a[1] // m, hi)
        x = atom(mk('int', mk('shr', a, k), bits))
        for g in (le0(lsub(lscale(x, m), a)), le0(lsub(a, ladd(lscale(x, m), I(m - 1))))):
            f = st.F.assume(g)
            if f is not None:
                st.F = f
        return x

    def bitop(self, st, op, a, b, bits):
        ca, cb = cint(a), cint(b)
        if ca is not None and cb is not None:
            return I({'BitOr': ca | cb, 'BitXor': ca ^ cb, 'BitAnd': ca & cb}[op] & ((1 << bits) - 1))
        if op == 'BitAnd':
            for x, c in ((a, cb), (b, ca)):
                if c is not None:
                    if c == 0:
                        return I(0)
                    if c & (c + 1) == 0:            # mask of low bits
                        m = c + 1
                        if st.F.ent_le(lsub(x, I(c))):
                            return x
                        # drop multiples of the mask
                        d = {at: k for at, k in x[2] if k % m}
                        y = lin(x[1] % m, d)
                        if st.F.ent_le(lsub(y, I(c))) and st.F.ent_le(lscale(y, -1)):
                            return y
            return None
        if ca == 0:
            return b
        if cb == 0:
            return a
        for x, y in ((a, b), (b, a)):
            g = 0
            from math import gcd as _g
            for _, k in x[2]:
                g = _g(g, abs(k))
            g = _g(g, abs(x[1]))
            low = g & -g if g else 0
            if low > 1 and st.F.ent_le(lsub(y, I(low - 1))) and st.F.ent_le(lscale(y, -1)):
                return self.rebe(ladd(x, y))
        return None

    def rebe(self, l):
        """sum of weighted bytes of consecutive positions -> integer decode"""
        if l[1] != 0:
            return l
        ws = {}
        for at, c in l[2]:
            part = [(at, c)]
            if at[0] in ('be', 'le_int') and len(at[2][1]) == 1 and at[2][1][0][0] == 'sub':
                _, b, lo, _ = at[2][1][0]
                part = [(mk('byte', b, ladd(lo, I(i))), c * 256 ** (at[1] - 1 - i if at[0] == 'be' else i))
                        for i in range(at[1])]
            for x, w in part:
                if x[0] != 'byte' or w in ws:
                    return l
                ws[w] = x
        n = len(ws)
        if n not in (2, 4, 8) or any((256 ** i) not in ws for i in range(n)):
            return l
        base = ws[1][1]
        if any(ws[256 ** i][1] is not base for i in range(n)):
            return l
        if all(lsub(ws[256 ** i][2], ws[1][2]) is I(-i) for i in range(n)):
            lo = ws[256 ** (n - 1)][2]
            return mkbe(n, mkseq([mk('sub', base, lo, ladd(lo, I(n)))]))
        if all(lsub(ws[256 ** i][2], ws[1][2]) is I(i) for i in range(n)):
            lo = ws[1][2]
            return mkbe(n, mkseq([mk('sub', base, lo, ladd(lo, I(n)))]), 'le')
        return l

    def isbool(self, v):
        return v is TRUE or v is FALSE or v[0] in ('p', 'np')

    def band(self, a, b):
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        return mk('p', mk('and', a, b))

    def bor(self, a, b):
        if a is TRUE or b is TRUE:
            return TRUE
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        return mk('p', mk('or', a, b))

    def booleq(self, a, b):
        if a is b:
            return TRUE
        if a is bnot(b):
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return bnot(b)
        if b is FALSE:
            return bnot(a)
        return self.bor(self.band(a, b), self.band(bnot(a), bnot(b)))

    def compare(self, st, op, a, b):
        if op == 'Ne':
            return bnot(self.compare(st, 'Eq', a, b))
        if op == 'Cmp':
            return opq('cmp', a, b)
        if a[0] == 'vref' and b[0] == 'vref' and op == 'Eq':      # pointer comparison
            return mk('p', mk('bool', mk('ptreq', a, b)))
        if a[0] == 'i' and b[0] == 'i':
            d = lsub(a, b)
            if op == 'Eq':
                if d[1] == 0 and len(d[2]) == 1 and d[2][0][0][0] == 'int' and d[2][0][0][1][0] == 'differ':
                    return seq_eq(*[st.F.nseq(q) for q in d[2][0][0][1][1:3]], st.F)
                return eq0(d)
            if op == 'Le':
                return le0(d)
            if op == 'Lt':
                return le0(ladd(d, I(1)))
            if op == 'Ge':
                return le0(lscale(d, -1))
            return le0(lsub(I(1), d))
        if self.isbool(a) and self.isbool(b) and op == 'Eq':
            return self.booleq(a, b)
        if a[0] == 'dsc' or b[0] == 'dsc':
            if op == 'Eq':
                if b[0] == 'dsc' and a[0] != 'dsc':
                    a, b = b, a
                if a is b:
                    return TRUE
                if b[0] == 'i' and cint(b) is not None:
                    v = self.variant_of_discr(a[2], cint(b))
                    if v is None:
                        return FALSE
                    return mk('p', mk('isv', a[1], v))
                if b[0] == 'dsc':
                    # split the left one
                    self.split_term(st, a[1], a[2])
            elif a[0] == 'dsc':
                self.split_term(st, a[1], a[2])
            else:
                self.split_term(st, b[1], b[2])
        if a[0] == 'seq' and b[0] == 'seq' and op == 'Eq':
            return seq_eq(a, b, st.F)
        if op == 'Eq' and a is b:
            return TRUE
        if op == 'Eq':
            if a.n > b.n:
                a, b = b, a
            return mk('p', mk('eq', a, b))
        return mk('p', mk('bool', mk('cmp', op, a, b)))

    def split_term(self, st, term, ty):
        out = []
        kv = st.F.isv.get(term)
        if kv is not None:
            return
        nv = st.F.notv.get(term, ())
        for i in range(len(self.p.types[ty]['variants'])):
            if i not in nv:
                f = st.F.with_variant(term, i)
                if f is not None:
                    s = st.copy()
                    s.F = f
                    out.append(s)
        raise Split(out)

    def discr(self, st, v, ty):
        v = self.concrete(st, v)
        if v[0] == 'adt':
            if self.is_enum(v[1]):
                return I(self.discr_of(v[1], v[2]))
            return I(0)
        if v[0] == 'sym':
            if self.is_enum(v[2]):
                return mk('dsc', v[1], v[2])
            if self.is_enum(ty):
                return mk('dsc', v[1], ty)
        return atom(mk('int', mk('discr', v), 64))

    def rvalue(self, st, fr, rv, f):
        k = rv[0]
        if k == 'use':
            return self.op(st, fr, rv[1])
        if k == 'ref' or k == 'rawptr':
            mut = rv[1] if k == 'ref' else ('Mut' in str(rv[1]) or rv[1] is True)
            c = self.resolve(st, fr, rv[2])
            if c[0] == 'v':
                return mk('vref', c[1])
            if mut:
                # keep &mut into an indexed element concrete
                return mk('mref', c[1], c[2])
            return mk('vref', self.load(st, c[1], c[2]))
        if k == 'bin':
            a, b = self.op(st, fr, rv[2]), self.op(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, rv[4])
        if k == 'un':
            a = self.op(st, fr, rv[2])
            if rv[1] == 'Not':
                if self.isbool(a):
                    return bnot(a)
                it = self.intty(rv[3]) if len(rv) > 3 else None
                if a[0] == 'i' and it and not it[1]:
                    return lsub(I((1 << it[0]) - 1), a)
                return self.mksym(mk('not', a), rv[3] if len(rv) > 3 else -1)
            if rv[1] == 'Neg':
                return lscale(a, -1) if a[0] == 'i' else opq('neg', a)
            if rv[1] == 'PtrMetadata':
                v = self.peek(st, a)
                if v[0] == 'seq':
                    return slen(v)
                return atom(mk('int', mk('meta', a), 64))
            return opq('un', rv[1], a)
        if k == 'len':
            v = self.rd(st, fr, rv[1])
            return slen(v) if v[0] == 'seq' else atom(mk('int', mk('meta', v), 64))
        if k == 'cast':
            return self.cast(st, fr, rv)
        if k == 'discr':
            v = self.rd(st, fr, rv[1])
            t = self.p.types[rv[2]]
            return self.discr(st, v, rv[2])
        if k == 'agg':
            ops = [self.op(st, fr, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == 'array':
                return self.seqof(ops, kk[1])
            if kk[0] == 'tuple':
                return mk('tup', tuple(ops))
            if kk[0] == 'adt':
                return self.norm_adt(kk[1], kk[2], ops)
            if kk[0] == 'closure':
                return mk('clo', kk[1], tuple(ops))
            if ops:
                return ops[0]
            return opq('agg', self.fresh())
        if k == 'repeat':
            v = self.op(st, fr, rv[1])
            n = rv[2]
            u8 = v[0] == 'i' and (cint(v) is not None or (v[2] and v[2][0][0][0] == 'byte'))
            if isinstance(n, dict) or n is None:
                return opq('repeat', self.fresh())
            return mkseq([mk('rep', v, I(int(n)), True if v[0] == 'i' and 0 <= (cint(v) if cint(v) is not None else -1) < 256 else u8)])
        return opq('rv', str(k), self.fresh())

    def cast(self, st, fr, rv):
        _, kind, o, frm, to = rv
        if kind == 'BoxDerefTransmute' and o[0] in 'cm' and len(o[1][1]) and o[1][1][-1][0] == 'f':
            r = self.resolve(st, fr, [o[1][0], o[1][1][:-1]])        # the address of what the box holds
            v = r[1] if r[0] == 'v' else self.load(st, r[1], r[2])
            if v[0] == 'box' and r[0] == 'm':
                return mk('mref', r[1], r[2] + (('b',),))
            return mk('vref', v[1]) if v[0] == 'box' else v
        v = self.op(st, fr, o)
        if kind == 'IntToInt':
            if v[0] == 'dsc':
                kv = st.F.isv.get(v[1])
                if kv is None:
                    self.split_term(st, v[1], v[2])
                v = I(self.discr_of(v[2], st.F.isv[v[1]]))
            if self.isbool(v):
                e = st.F.ev(v)
                if e is None:
                    raise Split([s for s in self.fork(st, v) if s is not None])
                v = I(1 if e else 0)
            return self.fit(st, v, to, 'cast')
        if kind.startswith('Coerce') or kind.startswith('PtrToPtr') or 'Pointer' in kind:
            if v[0] == 'vref' and v[1][0] == 'box':
                return v
            return v
        if kind == 'Transmute':
            tf, tt = self.p.types[frm], self.p.types[to]
            if v[0] in ('vref', 'mref') or tf['s'] == tt['s']:
                return v
            if v[0] == 'seq' and tt['k'] == 'int' and tt['bits'] in (8, 16, 32, 64):
                return mkbe(tt['bits'] // 8, v, 'le')
            if v[0] == 'i' and tt['k'] == 'array':
                return mkenc(tt['len'], v, 'le')
            # newtype wrappers
            if v[0] == 'adt' and len(v[3]) == 1:
                return v[3][0]
            if tt['k'] == 'adt' and tt['adt'] == 'struct' and tt['expanded'] and len(tt['variants'][0]['fields']) == 1:
                return mkenum(to, 0, [v])
            return self.mksym(mk('transmute', v, to), to)
        return self.mksym(mk('cast', v, to), to)

    def fork(self, st, cond):
        a, b = st.F.assume(cond, True), st.F.assume(cond, False)
        out = []
        for f in (a, b):
            if f is None:
                out.append(None)
            else:
                s = st.copy()
                s.F = f
                out.append(s)
        return out

    # --------------------------------------------------- references / values
    def peek(self, st, v):
        """follow references to the value"""
        n = 0
        while n < 12:
            if v[0] == 'vref':
                v = v[1]
            elif v[0] == 'mref':
                v = self.load(st, v[1], v[2])
            elif v[0] == 'box':
                v = v[1]
            else:
                return v
            n += 1
        return v

    def deref1(self, st, v):
        if v[0] == 'vref':
            return v[1]
        if v[0] == 'mref':
            return self.load(st, v[1], v[2])
        if v[0] == 'box':
            return v[1]
        return v

    def target(self, st, v):
        """innermost mutable location a reference value designates, or None"""
        loc = None
        n = 0
        while n < 12:
            if v[0] == 'mref':
                loc = (v[1], v[2])
                v = self.load(st, v[1], v[2])
            elif v[0] == 'vref':
                v = v[1]
            elif v[0] == 'box' and loc is not None:
                loc = (loc[0], loc[1] + (('b',),))
                v = v[1]
            else:
                break
            n += 1
        return loc

    def put(self, st, ref, val):
        loc = self.target(st, ref)
        if loc is None:
            st.event('lostwrite', self.cur())
            return
        self.store(st, loc[0], loc[1], val)

    def havoc(self, st, v, why):
        """anything reachable mutably from v may have changed"""
        if v[0] == 'mref':
            old = self.load(st, v[1], v[2])
            self.store(st, v[1], v[2], self.havocval(old, mk('havoc', why, self.fresh())))
            self.havoc(st, old, why)
        elif v[0] in ('adt', 'tup', 'clo'):
            for x in v[-1]:
                self.havoc(st, x, why)
        elif v[0] == 'box':
            self.havoc(st, v[1], why)

    def havocval(self, old, term):
        k = old[0]
        if k == 'mref' or k == 'vref':
            return old
        if k == 'i':
            return atom(mk('int', term, 64))
        if self.isbool(old):
            return mk('p', mk('bool', term))
        if k == 'seq':
            if self.isu8seq(old):
                return whole(term)
            for s in old[1]:
                if s[0] == 'sub' and s[1][0] == 'tb':
                    return whole(mk('tb', term, s[1][2]))
                if s[0] == 'one':
                    ty = self.valty(s[1])
                    if ty is not None:
                        return whole(mk('tb', term, ty))
            return whole(term)
        if k == 'adt':
            return self.mksym(term, old[1])
        if k == 'sym':
            return self.mksym(term, old[2])
        if k == 'w':
            return mk('w', old[1], whole(term), old[3])
        if k == 'set':
            return mk('set', mk('sbase', term))
        if k == 'tup':
            return mk('tup', tuple(self.havocval(x, mk('fld', term, 0, i)) for i, x in enumerate(old[1])))
        return mk('sym', term, -1)

    # ---------------------------------------------------------------- panics
    def panic(self, st, why, span=None):
        self.sum.panics.append(Panic(st, self.cur(), span or (self.stack[-1][1] if self.stack else ''), why,
                                     tuple(x[0] for x in self.stack)))

    def need(self, st, cond, why):
        """cond must hold or the program panics; returns the surviving state (or None)"""
        e = st.F.ev(cond)
        if e is True:
            return st
        f = st.F.assume(cond, False)
        if f is not None:
            s = st.copy()
            s.F = f
            self.panic(s, why)
        f = st.F.assume(cond, True)
        if f is None:
            return None
        st.F = f
        return st

    # ------------------------------------------------------------- functions
    def call_fn(self, st, key, args):
        """analyse a function body in context: list of (state, value)"""
        f = self.p.fn(key)
        depth = sum(1 for x in self.stack if x[2] == key)
        if depth >= 2 or len(self.stack) > 90:
            self.sum.notes.append('recursion cut at ' + key)
            return [(st, opq('rec', key, self.fresh()))]
        fr = self.fresh()
        if self.stack:
            st.path = (st.path, key, self.stack[-1][1])
        if f.spread and len(args) >= 1:
            # rust-call: the last argument is a tuple collecting the rest
            n = f.argc
            if len(args) > n:
                args = args[:n - 1] + [mk('tup', tuple(args[n - 1:]))]
        for i, a in enumerate(args):
            st.cells[(fr, i + 1)] = a
        self.celltys[fr] = f.locals
        self.stack.append([f.path, f.span, key])
        try:
            outs, rets = self.region(f, fr, 0, [st], None, None)
        finally:
            self.stack.pop()
        res = []
        for s in rets:
            v = s.cells.get((fr, 0), UNIT)
            if self.observer is not None:
                for i in range(1, f.argc + 1):
                    if (fr, i) in s.cells:
                        self.observer('dead', f, f.span, f.locals[i], s.cells[(fr, i)], i,
                                      self.stack[0][2] if self.stack else key)
            for i in range(len(f.locals)):
                s.cells.pop((fr, i), None)
            res.append((s, v))
        return self.dedup(res)

    def dedup(self, res):
        if len(res) < 2 and self.errnote is None:
            return res
        seen = {}
        out = []
        for s, v in res:
            if self.errnote is not None and s.tag is None and v[0] == 'adt' and v[2] == 1 and \
                    self.p.isadt(v[1], 'Result'):
                s.tag = self.errnote(s.F)
            k = (v, s.storekey())
            l = seen.setdefault(k, [])
            done = False
            for i, (o, idx) in enumerate(l):
                m = joinfacts(o.F, s.F, len(res) > 60)
                if m is not None:
                    o.F = m
                    done = True
                    break
            if not done:
                l.append((s, v))
                out.append((s, v))
        return out

    def region(self, f, fr, entry, states, reg, head):
        """run the blocks of `reg` (None: whole body); returns (exits, returns)
        where exits = [(target, state)] are edges leaving the region (or to head)"""
        pend = {entry: list(states)}
        exits, rets = [], []
        rpo = f.rpo
        first = True
        while pend:
            b = min(pend, key=rpo.__getitem__)
            sts = pend.pop(b)
            if b in f.heads and not (b == head and first):
                inner = f.heads[b]
                for s in sts:
                    for tgt, x in self.loop(f, fr, b, inner, s, rets):
                        self.enq(pend, tgt, x, reg, head, exits, f)
                first = False
                continue
            first = False
            for s in sts:
                for tgt, x in self.block(f, fr, b, s, rets):
                    self.enq(pend, tgt, x, reg, head, exits, f)
        return exits, rets

    def enq(self, pend, tgt, s, reg, head, exits, f):
        if reg is not None and (tgt == head or tgt not in reg):
            exits.append((tgt, s))
            return
        l = pend.setdefault(tgt, [])
        k = s.storekey()
        s.fk = k
        for o in l:
            if o.fk == k:
                m = joinfacts(o.F, s.F, len(l) > self.MAXSTATES)
                if m is not None:
                    o.F = m
                    return
        l.append(s)

    # ---------------------------------------------------------------- loops
    def loop(self, f, fr, head, reg, S0, rets):
        sp = f.blocks[head]['sp']
        # locals that are only live inside an iteration are dropped at the head
        def body(S):
            r2 = []
            ex, r = self.region_loop(f, fr, head, S, reg)
            backs = [x for t, x in ex if t == head]
            outs = [('e', t, x) for t, x in ex if t != head] + [('r', None, x) for x in r]
            return outs, backs
        few = any(c[0] == fr and self.finite(S0, v) for c, v in S0.cells.items())
        outs = self.fix(S0, body, (f.path, head, sp), few)
        res = []
        for k, t, x in outs:
            if k == 'r':
                rets.append(x)
            else:
                res.append((t, x))
        return res

    def region_loop(self, f, fr, head, S, reg):
        return self.region(f, fr, head, [S], reg, head)

    @staticmethod
    def finite(st, v):
        """an iterator with a known small number of elements left"""
        while v[0] in ('imap', 'ifilter', 'ifmap', 'ienum', 'icopied', 'itake', 'iskip'):
            v = v[1]
        if v[0] == 'izip':
            return any(Engine.finite(st, x) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
        if v[0] == 'iter':
            n = cint(st.F.res(lsub(slen(v[1]), v[2])))
        elif v[0] == 'range' and v[1][0] == 'i' and v[2][0] == 'i':
            n = cint(st.F.res(lsub(v[2], v[1])))
        else:
            return False
        return n is not None and n <= 16

    def fix(self, S0, body, info, few=False):
        # 1. bounded loops are unrolled
        saved = self.undec
        mark = len(self.sum.panics), len(self.sum.prints)
        cur, outs = [S0.copy()], []
        ok = True
        for it in range(41):
            nxt = []
            for s in cur:
                self.undec = False
                o, bk = body(s)
                if self.undec and bk and not (few and len(outs) < 200):
                    ok = False
                    break
                outs.extend(o)
                nxt.extend(bk)
            if not ok or len(nxt) > 12:
                ok = False
                break
            if not nxt:
                self.undec = saved
                return outs
            cur = [self.trim(S0, x) for x in nxt]
        self.undec = saved
        self.rewind(mark)
        # 2. widening
        self.widened = True
        lid = mk('loop', info[0], info[1], self.fresh())
        tmpl = dict(S0.cells)
        ev, fails, trail = S0.ev, S0.fails, S0.trail
        cands = {}
        dropped = set()
        phis = {}
        for rnd in range(30):
            S = S0.copy()
            S.cells = dict(tmpl)
            S.ev, S.fails, S.trail = ev, fails, trail
            for c in list(phis.get('given', ())) + list(cands):
                nf = S.F.assume(c)
                if nf is not None:
                    S.F = nf
            mark = len(self.sum.panics), len(self.sum.prints)
            undec = self.undec
            o, bk = body(S.copy())
            self.undec = undec
            changed = False
            for b in bk:
                for c in list(tmpl):
                    if c not in b.cells:
                        del tmpl[c]
                        changed = True
                        continue
                    nv = self.widen(tmpl[c], b.cells[c], self.cellty(c), mk('phi', lid, c), phis)
                    if nv is not tmpl[c]:
                        tmpl[c] = nv
                        changed = True
                if not (b.ev <= ev):
                    ev = ev | b.ev
                    changed = True
                if not (b.fails <= fails):
                    fails = fails | b.fails
                    changed = True
                if b.trail != trail:
                    if trail[-1:] != (mk('apiloop',),):
                        trail = trail + (mk('apiloop',),)
                        changed = True
            if changed:
                self.rewind(mark)
                continue
            # candidate invariants on integer phis
            binds = self.binds(S0.cells, tmpl, [b.cells for b in bk])
            new = False
            bad = []
            for c in cands:
                for i, b in enumerate(bk):
                    m = {}
                    for ph, (e, vs) in binds.items():
                        m[ph] = vs[i]
                    if b.F.ev(subst(c, m)) is not True:
                        bad.append(c)
                        break
            for c in bad:
                del cands[c]
                dropped.add(c)
            if bad:
                self.rewind(mark)
                continue
            if rnd < 12:
                for c in self.candidates(S0, S, binds, bk):
                    if c in cands or c in dropped:
                        continue
                    m = {ph: e for ph, (e, vs) in binds.items()}
                    if S0.F.ev(subst(c, m)) is True:
                        cands[c] = 1
                        new = True
                    else:
                        dropped.add(c)
            if new:
                self.rewind(mark)
                continue
            li = LoopInfo()
            li.id, li.fn, li.head, li.span = lid, info[0], info[1], info[2]
            li.phis = {ph: (e, [(b.F, vs[i], b.ev) for i, b in enumerate(bk)]) for ph, (e, vs) in binds.items()}
            li.entryF = S0.F
            li.entry = S0.cells
            li.tmpl = tmpl
            li.backs = [(b.F, b.cells, b.ev) for b in bk]
            self.sum.loops[lid] = li
            return o
        self.sum.notes.append('loop at %s not solved' % info[2])
        return o

    def rewind(self, mark):
        del self.sum.panics[mark[0]:]
        del self.sum.prints[mark[1]:]

    def printed(self, name, args):
        self.sum.prints.append(mk('ev', 'print', name, args))

    def trim(self, S0, b):
        for c in list(b.cells):
            if c not in S0.cells:
                del b.cells[c]
        return b

    def cellty(self, c):
        t = self.celltys.get(c[0])
        if t is None:
            return None
        if isinstance(t, dict):
            return t.get(c[1])
        return t[c[1]] if c[1] < len(t) else None

    def widen(self, a, b, ty, key, phis):
        """least template covering a and b"""
        if a is b:
            return a
        pv = phis.get(key)
        if pv is not None and pv is a:
            return a
        ka, kb = a[0], b[0]
        if ka == 'adt' and kb == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            t = self.p.types[a[1]]
            fs = t['variants'][a[2]]['fields'] if t['k'] == 'adt' and t['expanded'] else []
            out = []
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                out.append(self.widen(x, y, fs[i]['ty'] if i < len(fs) else None, mk('pf', key, a[2], i), phis))
            return mk('adt', a[1], a[2], tuple(out))
        if ka == 'tup' and kb == 'tup' and len(a[1]) == len(b[1]):
            tys = self.p.types[ty]['tys'] if ty is not None and ty >= 0 and self.p.types[ty]['k'] == 'tuple' else None
            return mk('tup', tuple(self.widen(x, y, tys[i] if tys else None, mk('pf', key, 0, i), phis)
                                   for i, (x, y) in enumerate(zip(a[1], b[1]))))
        if ka == 'clo' and kb == 'clo' and a[1] == b[1]:
            return mk('clo', a[1], tuple(self.widen(x, y, None, mk('pf', key, 0, i), phis)
                                         for i, (x, y) in enumerate(zip(a[2], b[2]))))
        if ka == 'iter' and kb == 'iter' and a[3] == b[3]:
            return mk('iter', self.widen(a[1], b[1], None, mk('pf', key, 0, 0), phis),
                      self.widen(a[2], b[2], None, mk('pf', key, 0, 1), phis), a[3])
        if ka == 'iset' and kb == 'iset' and a[2] == b[2]:
            return mk('iset', self.widen(a[1], b[1], None, mk('pf', key, 0, 0), phis), a[2])
        if ka == 'range' and kb == 'range':
            return mk('range', self.widen(a[1], b[1], None, mk('pf', key, 0, 0), phis),
                      self.widen(a[2], b[2], None, mk('pf', key, 0, 1), phis))
        if ka == kb and ka in ('imap', 'ifilter', 'ienum', 'izip', 'ichain', 'ifmap', 'icopied', 'itake', 'iskip') \
                and len(a) == len(b):
            return mk(ka, *[self.widen(x, y, None, mk('pf', key, 0, i), phis) if isinstance(x, T) else x
                            for i, (x, y) in enumerate(zip(a[1:], b[1:]))])
        if ka == 'w' and kb == 'w' and a[1] == b[1]:
            return mk('w', a[1], self.widen(a[2], b[2], -9, mk('pf', key, 0, 0), phis), a[3])
        if ka == 'vref' and kb == 'vref':
            d = self.p.deref_ty(ty) if ty is not None and ty >= 0 else None
            return mk('vref', self.widen(a[1], b[1], d, mk('pf', key, 0, 0), phis))
        if ka == 'box' and kb == 'box':
            d = self.p.deref_ty(ty) if ty is not None and ty >= 0 else None
            return mk('box', self.widen(a[1], b[1], d, mk('pf', key, 0, 0), phis))
        if ka == 'i' and kb in ('i',):
            bits = 64
            if ty is not None and ty >= 0:
                it = self.intty(ty)
                if it:
                    bits = -it[0] if it[1] else it[0]
            r = atom(mk('int', key, bits))
        elif self.isbool(a):
            r = mk('p', mk('bool', key))
        elif ka == 'seq' and kb == 'seq' and part(a) and part(b, a):
            # shorter and shorter parts of one sequence
            (base, lo, hi), (_, lo2, hi2) = part(a), part(b, a)
            lo = self.widen(lo, lo2, None, mk('pf', key, 0, 0), phis)
            hi = self.widen(hi, hi2, None, mk('pf', key, 0, 1), phis)
            given = phis.setdefault('given', {})
            for l in (lscale(lo, -1), lsub(lo, hi), lsub(hi, baselen(base))):
                given[le0(l)] = 1
            return mkseq([mk('sub', base, lo, hi)])
        elif ka == 'seq' and kb == 'seq':
            et = None
            if ty is not None and ty >= 0:
                et = self.p.seq_elem(ty)
            if ty == -9:
                et = -8
            if et is not None and self.p.types and et >= 0 and not self.p.isu8(et):
                r = whole(mk('tb', key, et))
            elif et is not None:
                r = whole(key)
            else:
                x = a if a[1] else b
                r = self.havocval(x, key)
        elif ka == 'set' and kb == 'set':
            r = mk('set', mk('sbase', key))
        elif ty is not None and ty >= 0:
            r = self.mksym(key, ty)
        elif ka == 'adt':
            r = self.mksym(key, a[1])
        elif ka == 'sym':
            r = self.mksym(key, a[2])
        elif kb == 'adt':
            r = self.mksym(key, b[1])
        else:
            r = mk('sym', key, -1)
        phis[key] = r
        return r

    def binds(self, entry, tmpl, backs):
        """phi atom/base/term -> (entry value, [back values])"""
        out = {}

        def go(e, t, bs):
            if all(b is t for b in bs) and e is t:
                return
            k = t[0]
            if k == 'i' and len(t[2]) == 1 and t[1] == 0 and t[2][0][0][0] == 'int' and t[2][0][0][1][0] in ('phi', 'pf'):
                out[t[2][0][0]] = (e, bs)
                return
            if k == 'seq' and len(t[1]) == 1 and t[1][0][0] == 'sub':
                b = t[1][0][1]
                x = b[1] if b[0] == 'tb' else b
                if x[0] in ('phi', 'pf'):
                    out[b] = (e, bs)
                    return
                if part(e, t) and all(part(x, t) for x in bs):
                    for i in (1, 2):
                        go(part(e, t)[i], part(t)[i], [part(x, t)[i] for x in bs])
                    return
            if k == 'set' and t[1][0] == 'sbase' and t[1][1][0] in ('phi', 'pf'):
                out[t[1]] = (e[1] if e[0] == 'set' else e, [b[1] if b[0] == 'set' else b for b in bs])
                return
            if k == 'sym' and t[1][0] in ('phi', 'pf'):
                out[t[1]] = (e, bs)
                return
            if k == 'p' and t[1][0] == 'bool' and t[1][1][0] in ('phi', 'pf'):
                out[t[1][1]] = (e, bs)
                return
            ch = self.kids(t)
            if ch is None:
                return
            ce = self.kids(e)
            cb = [self.kids(b) for b in bs]
            for i in range(len(ch)):
                if ce is None or len(ce) != len(ch) or any(x is None or len(x) != len(ch) for x in cb):
                    return
                go(ce[i], ch[i], [x[i] for x in cb])
        for c, t in tmpl.items():
            go(entry.get(c, t), t, [b.get(c, t) for b in backs])
        return out

    def kids(self, v):
        k = v[0]
        if k == 'adt':
            return v[3]
        if k == 'tup':
            return v[1]
        if k == 'clo':
            return v[2]
        if k == 'iter':
            return (v[1], v[2])
        if k == 'w':
            return (v[2],)
        if k in ('vref', 'box', 'iset'):
            return (v[1],)
        if k in ('range', 'imap', 'ifilter', 'ienum', 'izip', 'ichain', 'ifmap', 'icopied', 'itake', 'iskip'):
            return tuple(x for x in v[1:] if isinstance(x, T))
        return None

    def candidates(self, S0, S, binds, bk):
        out = []
        for ph, (e, vs) in binds.items():
            if ph[0] != 'int' or e[0] != 'i':
                continue
            x = atom(ph)
            if all(v[0] == 'i' for v in vs):
                ds = [cint(lsub(v, x)) for v in vs]
                if all(d is None or d >= 0 for d in ds):
                    out.append(le0(lsub(e, x)))
                if all(d is None or d <= 0 for d in ds):
                    out.append(le0(lsub(x, e)))
                base = S.F.lins
                for v, d, b in zip(vs, ds, bk):
                    if d is None or d == 0:
                        continue
                    for l in b.F.lins - base:
                        c = dict(l[2]).get(ph)
                        if c is None:
                            continue
                        if (c > 0) == (d > 0):
                            # l(phi) <= 0 before the step: shifted bound after it
                            others = [a for a, _ in l[2] if a is not ph]
                            if all(not (a[0] == 'int' and a[1][0] in ('phi', 'pf')) or a in binds for a in others):
                                out.append(le0(lsub(l, I(c * d))))
        # two counters moving together
        ints = [(ph, e, vs) for ph, (e, vs) in binds.items() if ph[0] == 'int' and e[0] == 'i']
        for i in range(len(ints)):
            for j in range(i):
                a, b = ints[i], ints[j]
                if all(x[0] == 'i' and y[0] == 'i' and cint(lsub(lsub(x, atom(a[0])), lsub(y, atom(b[0])))) == 0
                       for x, y in zip(a[2], b[2])):
                    d = lsub(lsub(atom(a[0]), atom(b[0])), lsub(a[1], b[1]))
                    out.append(le0(d))
                    out.append(le0(lscale(d, -1)))
        return out

    # --------------------------------------------------------------- blocks
    def block(self, f, fr, b, st, rets):
        """interpret one basic block; yields (target, state)"""
        out = []
        work = [(st, 0)]
        bl = f.blocks[b]
        stmts = bl['s']
        while work:
            s, i = work.pop()
            try:
                while i < len(stmts):
                    self.steps += 1
                    x = stmts[i]
                    if x[0] == '=':
                        self.stack[-1][1] = x[3]
                        snap = s.F
                        v = self.rvalue(s, fr, x[2], f)
                        if s.dead:
                            raise Dead()
                        self.wr(s, fr, x[1], v)
                    elif x[0] == 'sk':
                        v = s.cells.pop((fr, x[1]), None)
                        if self.observer is not None and v is not None:
                            self.observer('dead', f, bl['sp'], f.locals[x[1]], v, x[1], self.stack[0][2])
                    elif x[0] == 'sl':
                        pass
                    elif x[0] == 'sd':
                        self.setdiscr(s, fr, x[1], x[2])
                    i += 1
                self.stack[-1][1] = bl['sp']
                self.term(f, fr, b, bl['t'], s, out, rets)
            except Split as e:
                for y in e.states:
                    work.append((y, i))
            except Dead:
                pass
        return out

    def setdiscr(self, st, fr, pl, var):
        v = self.rd(st, fr, pl)
        if v[0] == 'adt':
            self.wr(st, fr, pl, mk('adt', v[1], var, v[3]))

    def term(self, f, fr, b, t, st, out, rets):
        k = t['k']
        if k == 'goto':
            out.append((t['t'], st))
        elif k == 'ret':
            rets.append(st)
        elif k == 'drop':
            if self.observer is not None:
                self.observer('drop', f, f.blocks[b]['sp'], t['ty'], self.rd(st, fr, t['p']), None,
                              self.stack[0][2])
            if self.p.types[t['ty']]['k'] == 'adt' and self.p.types[t['ty']]['path'].endswith('Writer'):
                for s in self.dropped(self, st, self.rd(st, fr, t['p'])):
                    out.append((t['t'], s))
            else:
                out.append((t['t'], st))
        elif k == 'switch':
            self.switch(f, fr, b, t, st, out)
        elif k == 'assert':
            c = self.op(st, fr, t['c'])
            exp = bool(t['exp'])
            msg = t['msg']
            why = 'assertion: ' + str(msg[0])
            if msg[0] == 'overflow':
                why = 'arithmetic overflow (%s)' % msg[1]
                if self.benign_overflow(st, fr, msg):
                    f2 = st.F.assume(c, exp)
                    if f2 is None:
                        return
                    st.F = f2
                    out.append((t['t'], st))
                    return
            elif msg[0] == 'bounds':
                why = 'index out of bounds'
            if not self.isbool(c):
                c = mk('p', mk('bool', c))
            s = self.need(st, c if exp else bnot(c), why)
            if s is not None:
                out.append((t['t'], s))
        elif k == 'call':
            for s, v in self.call(f, fr, t, st):
                if s.dead:
                    continue
                if t.get('t') is not None:
                    self.wr(s, fr, t['dest'], v)
                    out.append((t['t'], s))
        elif k == 'unreach':
            pass

    def benign_overflow(self, st, fr, msg):
        """64-bit event counters kept by the layer itself cannot wrap"""
        if msg[1] != 'Add':
            return False
        a, b = self.op(st, fr, msg[2]), self.op(st, fr, msg[3])
        if a[0] != 'i' or b[0] != 'i':
            return False
        s = ladd(a, b)
        if len(s[2]) != 1 or s[2][0][1] != 1 or not (0 <= s[1] <= 1 << 20):
            return False
        at = s[2][0][0]
        if at[0] == 'setlen':
            return True
        if at[0] == 'int' and at[2] == 64 and self.own_counter(at[1]):
            self.counters.add(at[1])
            return True
        # a number known to be no larger than such a counter
        for l in st.F.lins:
            for c, k in l[2]:
                if c[0] == 'int' and c[2] == 64 and c is not at and self.own_counter(c[1]) and \
                        st.F.ent_le(lsub(atom(at), atom(c))):
                    self.counters.add(c[1])
                    return True
        return False

    def own_counter(self, x):
        while x[0] in ('fld', 'deref', 'pf', 'phi'):
            if x[0] in ('phi',):
                return True
            if x[0] == 'pf':
                x = x[1]
                continue
            x = x[1]
        return x[0] == 'self'

    def switch(self, f, fr, b, t, st, out):
        v = self.op(st, fr, t['d'])
        vals = t['vals']
        els = t['else']
        if v[0] == 'dsc':
            kv = st.F.isv.get(v[1])
            if kv is not None:
                v = I(self.discr_of(v[2], kv))
        if v[0] == 'i':
            v = st.F.res(v)
        if v[0] == 'i' and cint(v) is not None:
            c = cint(v)
            for x, tg in vals:
                if int(x) == c or (c < 0 and int(x) == c + (1 << 128)) or self.sgn(t['ty'], int(x)) == c:
                    out.append((tg, st))
                    return
            if els is not None:
                out.append((els, st))
            return
        if v is TRUE or v is FALSE:
            c = 1 if v is TRUE else 0
            for x, tg in vals:
                if int(x) == c:
                    out.append((tg, st))
                    return
            if els is not None:
                out.append((els, st))
            return
        conds = []
        if self.isbool(v):
            rest = [v]
            for x, tg in vals:
                conds.append(((v, int(x) == 1), tg))
            if els is not None and len(vals) == 1:
                conds.append(((v, int(vals[0][0]) == 0), els))
            n = 0
            res = []
            for (c, tr), tg in conds:
                fc = st.F.assume(c, tr)
                if fc is not None:
                    res.append((fc, tg))
            self.forked(f, b, res, st, out, v)
            return
        if v[0] == 'dsc':
            nv = st.F.notv.get(v[1], ())
            used = set()
            res = []
            for x, tg in vals:
                var = self.variant_of_discr(v[2], int(x))
                if var is None:
                    continue
                used.add(var)
                fc = st.F.with_variant(v[1], var)
                if fc is not None:
                    res.append((fc, tg))
            if els is not None:
                left = [i for i in range(len(self.p.types[v[2]]['variants'])) if i not in used and i not in nv]
                if len(left) == 1:
                    fc = st.F.with_variant(v[1], left[0])
                    if fc is not None:
                        res.append((fc, els))
                elif left:
                    fc = st.F.copy()
                    ok = True
                    for u in used:
                        fc.notv[v[1]] = fc.notv.get(v[1], frozenset()) | {u}
                    res.append((fc, els))
            self.forked(f, b, res, st, out, v)
            return
        if v[0] == 'i':
            res = []
            cur = st.F
            for x, tg in vals:
                c = eq0(lsub(v, I(self.sgn(t['ty'], int(x)))))
                fc = cur.assume(c, True)
                if fc is not None:
                    res.append((fc, tg))
                cur = cur.assume(c, False)
                if cur is None:
                    break
            if els is not None and cur is not None:
                res.append((cur, els))
            self.forked(f, b, res, st, out, v)
            return
        # opaque scrutinee: every branch possible
        res = [(st.F, tg) for _, tg in vals]
        if els is not None:
            res.append((st.F, els))
        self.forked(f, b, res, st, out, v)

    def sgn(self, ty, x):
        it = self.intty(ty)
        if it and it[1] and x >= 1 << (it[0] - 1):
            return x - (1 << it[0])
        return x

    def forked(self, f, b, res, st, out, v):
        tg = set(t for _, t in res)
        if len(tg) > 1:
            # does the fork decide whether a surrounding loop goes on?
            for h, reg in f.heads.items():
                if b in reg and any(t not in reg for t in tg) and any(t in reg for t in tg):
                    if not self.soft(v):
                        self.undec = True
        for i, (fc, t) in enumerate(res):
            s = st if i == len(res) - 1 else st.copy()
            s.F = fc
            out.append((t, s))

    def soft(self, v):
        """early exits on Result/ControlFlow do not decide a loop bound"""
        if v[0] == 'dsc':
            return self.p.isadt(v[2], 'core::result::Result', 'core::ops::control_flow::ControlFlow')
        return False

    # ---------------------------------------------------------------- calls
    def call(self, f, fr, t, st):
        args = [self.op(st, fr, a) for a in t['args']]
        fn = t['f']
        c = Call(self, fn, args, t, fr, f)
        return self.dispatch(st, c)

    def dispatch(self, st, c):
        fn = c.fn
        if 'dyn' in fn:
            d = self.op(st, c.fr, fn['dyn'])
            return self.invoke(st, d, c.args, c.rty)
        if fn.get('ctor'):
            ty, var = fn['ctor']
            return [(st, self.norm_adt(ty, var, c.args))]
        inst = fn.get('inst') or {}
        key = inst.get('key')
        path = P.norm(fn['path'])
        islocal = (inst.get('crate') or fn['crate']) == 'pkstl' and key is not None and self.p.has(key)
        if islocal and self.p.fn(key).closure:
            # the trait call of a closure: its arguments come packed in a tuple
            a = c.args[1] if len(c.args) > 1 else UNIT
            return self.invoke(st, c.args[0], list(a[1]) if a[0] == 'tup' else [a], c.rty)
        if islocal:
            ov = self.overrides.get(key)
            if ov is not None:
                r = ov(self, st, c)
                if r is not None:
                    return r
            if key in self.apikeys and not self.apidepth:
                self.apidepth += 1
                try:
                    r = self.call_fn(st, key, c.args)
                finally:
                    self.apidepth -= 1
                for s, v in r:
                    s.trail = s.trail + (mk('api', key, v, tuple(c.args), s.tag),)
                    s.tag = None
                return r
            return self.call_fn(st, key, c.args)
        m = None
        if fn.get('trait'):
            tn = P.norm(fn['trait']).split('::')[-1]
            m = self.models.get(tn + '::' + fn['name'])
        if m is None:
            m = self.models.get(path)
        if m is None:
            m = self.models.get('::'.join(path.split('::')[-2:]))
        if m is None and inst.get('path'):
            ip = P.norm(inst['path'])
            m = self.models.get(ip) or self.models.get('::'.join(ip.split('::')[-2:]))
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        if key is not None and self.p.has(key):
            return self.call_fn(st, key, c.args)
        return self.unknown(st, c)

    def unknown(self, st, c):
        name = P.norm(c.fn.get('path', 'dyn'))
        if c.t is not None and c.t.get('t') is None:      # diverges
            self.panic(st, name)
            return []
        # a callable argument may run any number of times: give up on its effects
        self.sum.unknown.add((name, self.cur()))
        for a in c.args:
            self.havoc(st, a, name)
        st.event('unknown', name, tuple(c.args))
        return [(st, self.mksym(mk('unk', name, self.fresh()), c.rty))]

    def invoke(self, st, f, args, rty=-1):
        """call a callable value with unpacked arguments"""
        n = 0
        while f[0] in ('vref', 'box') and n < 6:
            if f[1][0] in ('clo', 'fn', 'vref', 'box', 'mref'):
                f = f[1]
            else:
                break
            n += 1
        selfref = None
        if f[0] == 'mref':
            inner = self.load(st, f[1], f[2])
            if inner[0] == 'clo':
                selfref = f
                f = inner
            elif inner[0] in ('fn', 'mref', 'vref', 'box'):
                return self.invoke(st, inner, args, rty)
        if f[0] == 'clo':
            t = self.p.types[f[1]]
            key = t.get('key')
            if key is not None and self.p.has(key):
                fn = self.p.fn(key)
                t1 = self.p.types[fn.locals[1]] if len(fn.locals) > 1 else {'k': '?'}
                if t1['k'] == 'ref':
                    if t1['mut']:
                        if selfref is None:
                            cell = ('h', self.fresh())
                            st.cells[cell] = f
                            selfref = mk('mref', cell, ())
                        a0 = selfref
                    else:
                        a0 = mk('vref', f)
                else:
                    a0 = f
                return self.call_fn(st, key, [a0] + list(args))
        if f[0] == 'fn':
            t = self.p.types[f[1]]
            if t['k'] == 'fndef':
                fd = t['f']
                c = Call(self, fd, list(args), None, None, None)
                c.rty = rty
                return self.dispatch(st, c)
        self.sum.unknown.add(('call of ' + f[0], self.cur()))
        for a in args:
            self.havoc(st, a, 'callable')
        self.havoc(st, f, 'callable')
        return [(st, self.mksym(mk('unk', 'callable', self.fresh()), rty))]

    # ------------------------------------------------- loops of the models
    def pyloop(self, st, vals, step, info='iterator'):
        """vals: list of values; step(st, vals) -> [('next',st,vals)|('done',st,res)]"""
        n = self.fresh()
        cells = [(('py', n), i) for i in range(len(vals))]
        for c, v in zip(cells, vals):
            st.cells[c] = v

        def body(S):
            cur = [S.cells[c] for c in cells]
            outs, backs = [], []
            for r in step(S, cur):
                if r[0] == 'next':
                    for c, v in zip(cells, r[2]):
                        r[1].cells[c] = v
                    backs.append(r[1])
                else:
                    outs.append(('d', r[2], r[1]))
            if len(outs) and len(backs):
                if any(o[1] is not None for o in outs):
                    pass
            return outs, backs
        sp = self.stack[-1][1] if self.stack else ''
        res = self.fix(st, body, (self.cur(), 'py', sp), any(self.finite(st, v) for v in vals))
        out = []
        for _, v, s in res:
            for c in cells:
                s.cells.pop(c, None)
            out.append((s, v))
        return out

    # ------------------------------------------------------------ entry point
    def run(self, key, args, cells, celltys=None):
        """analyse a root; cells: initial memory"""
        self.sum = Summary()
        st = St()
        st.cells.update(cells)
        self.celltys['root'] = celltys or {}
        outs = self.call_fn(st, key, args)
        self.sum.exits = [Exit(s, v) for s, v in outs]
        self.sum.key = key
        return self.sum


class Call:
    __slots__ = ('E', 'fn', 'args', 't', 'fr', 'f', 'rty')

    def __init__(self, E, fn, args, t, fr, f):
        self.E, self.fn, self.args, self.t, self.fr, self.f = E, fn, args, t, fr, f
        self.rty = t.get('rty', -1) if t else -1
        if self.rty is None:
            self.rty = -1

    @property
    def name(self):
        return self.fn['name']

    def targs(self):
        return self.fn.get('args') or []


def joinfacts(a, b, force=False):
    """facts of the union of two partitions with equal stores, when exact
    (or when forced: intersection)"""
    if a is b:
        return a
    if a.key() == b.key():
        return a
    da, db = diff(a, b)
    if not da:
        return a                       # b is stronger
    if not db:
        return b
    ok = False
    if len(da) == 1 and len(db) == 1:
        x, y = next(iter(da)), next(iter(db))
        if x[0] == 'p' and y[0] == 'p' and x[1] is y[1] and x[2] != y[2]:
            ok = True
        if x[0] == 'l' and y[0] == 'l' and lsub(I(1), x[1]) is y[1]:
            ok = True
    if not ok and not force:
        return None
    f = Facts()
    f.known = {k: v for k, v in a.known.items() if b.known.get(k) == v}
    f.lins = a.lins & b.lins
    f.preds = {k: v for k, v in a.preds.items() if b.preds.get(k) == v}
    f.isv = {k: v for k, v in a.isv.items() if b.isv.get(k) == v}
    f.notv = {k: a.notv[k] & b.notv[k] for k in a.notv if k in b.notv}
    return f


def diff(a, b):
    da, db = set(), set()
    for x, y, d in ((a, b, da), (b, a, db)):
        for k, v in x.known.items():
            if y.known.get(k) != v:
                d.add(('k', k, v))
        for l in x.lins - y.lins:
            d.add(('l', l))
        for k, v in x.preds.items():
            if y.preds.get(k) != v:
                d.add(('p', k, v))
        for k, v in x.isv.items():
            if y.isv.get(k) != v:
                d.add(('v', k, v))
        for k, v in x.notv.items():
            if y.notv.get(k) != v and y.isv.get(k) is None:
                d.add(('n', k, v))
            elif y.isv.get(k) is not None and y.isv.get(k) in v:
                d.add(('n', k, v))
    return da, db
