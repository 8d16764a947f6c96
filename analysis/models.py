"""Abstract transfer functions of the primitives of other crates (std, ring,
chacha20-poly1305-aead, flate2, serde codecs, zeroize)."""
from dom import *
import prog as P

MODELS = {}
CAPMAX = 1 << 60


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------------ helpers
def some(E, ty, v):
    return mk('adt', ty, 1, (v,))


def none(E, ty):
    return mk('adt', ty, 0, ())


def ok(E, ty, v):
    return mk('adt', ty, 0, (v,))


def err(E, ty, v):
    return mk('adt', ty, 1, (v,))


def argty(E, ty, i):
    t = E.p.types[ty] if ty is not None and ty >= 0 else {}
    a = t.get('args') or []
    return a[i] if i < len(a) else -1


def isty(E, ty, name):
    if ty is None or ty < 0:
        return False
    t = E.p.types[ty]
    return t['k'] == 'adt' and t['path'].split('::')[-1] == name


def fail(E, st, ty, what, detail=()):
    """the failing outcome of a primitive: Err(opaque) on a copy of the state"""
    s = st.copy()
    s.fails = s.fails | {mk('fail', what)}
    et = argty(E, ty, 1)
    return s, err(E, ty, E.mksym(mk('errval', what, E.fresh()), et))


def okst(E, st, what):
    return st


def fork(E, st, cond):
    return E.fork(st, cond)


def bytesof(E, st, v):
    """the byte sequence a value (or reference) denotes, else None"""
    v = E.peek(st, v)
    if v[0] == 'seq':
        return v
    if v[0] == 'w' and v[1] == 'vec':
        return v[2]
    if v[0] == 'sym':
        # containers whose bytes are a function of the value
        return None
    return None


def asbytes(E, st, v, tag='bytes'):
    q = bytesof(E, st, v)
    if q is not None:
        return q
    return whole(mk(tag, E.peek(st, v)))


def retref(v):
    return mk('vref', v)


# ---------------------------------------------------------- Vec / slice / str
@model('Vec::new', 'String::new', 'VecDeque::new')
def _(E, st, c):
    return [(st, EMPTY)]


@model('Vec::with_capacity', 'String::with_capacity', 'VecDeque::with_capacity')
def _(E, st, c):
    if c.args[0][0] == 'i':
        st = E.need(st, le0(lsub(c.args[0], I(CAPMAX))), 'capacity overflow')
        if st is None:
            return []
    return [(st, EMPTY)]


@model('Vec::reserve', 'Vec::reserve_exact', 'Vec::shrink_to_fit', 'String::reserve')
def _(E, st, c):
    if len(c.args) > 1 and c.args[1][0] == 'i':
        st = E.need(st, le0(lsub(c.args[1], I(CAPMAX))), 'capacity overflow')
        if st is None:
            return []
    return [(st, UNIT)]


@model('Vec::capacity')
def _(E, st, c):
    return [(st, atom(mk('int', mk('cap', E.fresh()), 64)))]


@model('slice::len', 'Vec::len', 'str::len', 'String::len', 'VecDeque::len', 'array::len')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return [(st, atom(mk('len', v)))]
    return [(st, slen(v))]


@model('slice::is_empty', 'Vec::is_empty', 'str::is_empty', 'String::is_empty', 'VecDeque::is_empty')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return [(st, eq0(atom(mk('len', v))))]
    return [(st, eq0(slen(v)))]


@model('slice::to_vec', 'slice::into_vec', 'slice::to_owned', 'ToOwned::to_owned', 'ConvertVec::to_vec', 'str::to_string', 'str::to_owned',
       'String::into_bytes', 'str::as_bytes_owned', 'Vec::into_boxed_slice', 'slice::to_vec_in')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    return [(st, v)] if v[0] == 'seq' else None


@model('Vec::as_slice', 'Vec::as_mut_slice', 'slice::as_ref', 'String::as_bytes', 'str::as_bytes', 'String::as_str',
       'array::as_slice', 'array::as_mut_slice', 'Vec::leak', 'slice::as_mut', 'array::as_ref', 'BufWriter::get_ref0')
def _(E, st, c):
    return [(st, c.args[0])]


@model('Vec::push', 'String::push', 'VecDeque::push_back')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return None
    x = c.args[1]
    E.put(st, c.args[0], scat(v, mkseq([mk('one', x, u8elem(E, st, v, c, x))])))
    return [(st, UNIT)]


def u8elem(E, st, v, c, x):
    if x[0] != 'i':
        return False
    a = c.targs()
    if a:
        return E.p.isu8(a[0])
    return E.isu8seq(v)


@model('VecDeque::push_front')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return None
    x = c.args[1]
    E.put(st, c.args[0], scat(mkseq([mk('one', x, u8elem(E, st, v, c, x))]), v))
    return [(st, UNIT)]


@model('Vec::pop', 'VecDeque::pop_back')
def _(E, st, c):
    return popgen(E, st, c, True)


@model('VecDeque::pop_front')
def _(E, st, c):
    return popgen(E, st, c, False)


def popgen(E, st, c, last):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return None
    n = slen(v)
    out = []
    e, x = fork(E, st, eq0(n))
    if e is not None and x is not None:
        E.undec = True
    if e is not None:
        out.append((e, none(E, c.rty)))
    if x is not None:
        i = lsub(n, I(1)) if last else I(0)
        el = E.elem(x, v, i)
        E.put(x, c.args[0], sslice(v, I(0), i, x.F) if last else sslice(v, I(1), n, x.F))
        out.append((x, some(E, c.rty, el)))
    return out


@model('Vec::extend_from_slice', 'String::push_str', 'Vec::extend_from_within0')
def _(E, st, c):
    v, w = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    if v[0] != 'seq' or w[0] != 'seq':
        return None
    E.put(st, c.args[0], scat(v, w))
    return [(st, UNIT)]


@model('Vec::append', 'VecDeque::append')
def _(E, st, c):
    v, w = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    if v[0] != 'seq' or w[0] != 'seq':
        return None
    E.put(st, c.args[0], scat(v, w))
    E.put(st, c.args[1], EMPTY)
    return [(st, UNIT)]


@model('Vec::clear', 'VecDeque::clear', 'String::clear')
def _(E, st, c):
    E.put(st, c.args[0], EMPTY)
    return [(st, UNIT)]


@model('Vec::truncate', 'VecDeque::truncate')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    n = c.args[1]
    if v[0] != 'seq' or n[0] != 'i':
        return None
    out = []
    for s, short in zip(fork(E, st, le0(lsub(slen(v), n))), (True, False)):
        if s is None:
            continue
        if not short:
            E.put(s, c.args[0], sslice(v, I(0), n, s.F))
        out.append((s, UNIT))
    return out


@model('Vec::resize', 'VecDeque::resize')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    n = c.args[1]
    if v[0] != 'seq' or n[0] != 'i':
        return None
    st = E.need(st, le0(lsub(n, I(CAPMAX))), 'capacity overflow')
    if st is None:
        return []
    out = []
    for s, short in zip(fork(E, st, le0(lsub(n, slen(v)))), (True, False)):
        if s is None:
            continue
        if short:
            E.put(s, c.args[0], sslice(v, I(0), n, s.F))
        else:
            E.put(s, c.args[0], scat(v, mkseq([mk('rep', c.args[2], lsub(n, slen(v)), u8elem(E, s, v, c, c.args[2]))])))
        out.append((s, UNIT))
    return out


@model('alloc::vec::from_elem', 'vec::from_elem', 'slice::repeat0')
def _(E, st, c):
    st = E.need(st, le0(lsub(c.args[1], I(CAPMAX))), 'capacity overflow')
    if st is None:
        return []
    x = c.args[0]
    a = c.targs()
    u8 = x[0] == 'i' and bool(a) and E.p.isu8(a[0])
    return [(st, mkseq([mk('rep', x, c.args[1], u8)]))]


@model('Vec::remove', 'Vec::swap_remove')
def _(E, st, c):
    v, i = E.peek(st, c.args[0]), c.args[1]
    if v[0] != 'seq' or i[0] != 'i':
        return None
    st = E.need(st, le0(ladd(lsub(i, slen(v)), I(1))), 'index out of bounds')
    if st is None:
        return []
    el = E.elem(st, v, i)
    n = slen(v)
    if c.name == 'remove':
        E.put(st, c.args[0], scat(sslice(v, I(0), i, st.F), sslice(v, ladd(i, I(1)), n, st.F)))
    else:
        E.put(st, c.args[0], E.havocval(v, mk('swaprem', v, i)))
    return [(st, el)]


@model('Vec::insert')
def _(E, st, c):
    v, i = E.peek(st, c.args[0]), c.args[1]
    if v[0] != 'seq' or i[0] != 'i':
        return None
    st = E.need(st, le0(lsub(i, slen(v))), 'index out of bounds')
    if st is None:
        return []
    E.put(st, c.args[0], scat(sslice(v, I(0), i, st.F), mkseq([mk('one', c.args[2], u8elem(E, st, v, c, c.args[2]))]),
                              sslice(v, i, slen(v), st.F)))
    return [(st, UNIT)]


@model('Vec::split_off')
def _(E, st, c):
    v, i = E.peek(st, c.args[0]), c.args[1]
    if v[0] != 'seq' or i[0] != 'i':
        return None
    st = E.need(st, le0(lsub(i, slen(v))), 'index out of bounds')
    if st is None:
        return []
    E.put(st, c.args[0], sslice(v, I(0), i, st.F))
    return [(st, sslice(v, i, slen(v), st.F))]


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def _(E, st, c):
    d, s = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    if d[0] != 'seq' or s[0] != 'seq':
        return None
    st = E.need(st, eq0(lsub(slen(d), slen(s))), 'copy_from_slice length mismatch')
    if st is None:
        return []
    E.put(st, c.args[0], s)
    return [(st, UNIT)]


@model('slice::fill')
def _(E, st, c):
    d = E.peek(st, c.args[0])
    if d[0] != 'seq':
        return None
    E.put(st, c.args[0], mkseq([mk('rep', c.args[1], slen(d), E.isu8seq(d))]))
    return [(st, UNIT)]


@model('slice::reverse', 'slice::sort', 'slice::sort_unstable', 'slice::sort_by_key', 'slice::sort_by', 'Vec::dedup',
       'slice::sort_unstable_by_key', 'slice::swap', 'slice::rotate_left', 'slice::rotate_right', 'Vec::retain', 'Vec::dedup_by_key')
def _(E, st, c):
    d = E.peek(st, c.args[0])
    if d[0] == 'seq':
        E.put(st, c.args[0], E.havocval(d, mk('permuted', c.name, d, E.fresh())))
    return [(st, UNIT)]


def rng_bounds(E, st, r, n):
    """(lo, hi, conditions) of a range index over length n"""
    r = E.peek(st, r)
    if r[0] == 'range':
        return r[1], r[2]
    if r[0] == 'adt':
        p = E.p.types[r[1]]['path'].split('::')[-1]
        if p == 'Range':
            return r[3][0], r[3][1]
        if p == 'RangeTo':
            return I(0), r[3][0]
        if p == 'RangeFrom':
            return r[3][0], n
        if p == 'RangeFull':
            return I(0), n
        if p == 'RangeToInclusive':
            return I(0), ladd(r[3][0], I(1))
        if p == 'RangeInclusive':
            return r[3][0], ladd(r[3][1], I(1))
    return None


def istext(E, c):
    """the sliced value is a string"""
    for k in ('self',):
        ty = c.fn.get(k)
        if ty is None or ty < 0:
            continue
        t = E.p.types[ty]
        while t['k'] == 'ref':
            t = E.p.types[t['ty']]
        if t['k'] == 'str' or t['k'] == 'adt' and t['path'].split('::')[-1] == 'String':
            return True
    return False


def boundary(F, v, i):
    """i is certainly between two characters of the text"""
    if cint(i) == 0 or F.eq_lin(i, slen(v)):
        return True
    b = bytes_of(v, F)
    n = cint(i)
    return b is not None and n is not None and n < len(b) and b[n] & 0xc0 != 0x80


@model('Index::index', 'IndexMut::index_mut', 'SliceIndex::index', 'SliceIndex::index_mut')
def _(E, st, c):
    ref, ix = c.args
    if P.norm(c.fn['trait']).split('::')[-1] == 'SliceIndex':
        ref, ix = ix, ref
    v = E.peek(st, ref)
    if v[0] != 'seq':
        return None
    n = slen(v)
    mut = c.name == 'index_mut'
    if ix[0] == 'i':
        st = E.need(st, le0(ladd(lsub(ix, n), I(1))), 'index out of bounds')
        if st is None:
            return []
        if mut:
            loc = E.target(st, ref)
            if loc:
                return [(st, mk('mref', loc[0], loc[1] + (('x', ix),)))]
        return [(st, retref(E.elem(st, v, ix)))]
    b = rng_bounds(E, st, ix, n)
    if b is None or b[0][0] != 'i' or b[1][0] != 'i':
        return None
    lo, hi = b
    st = E.need(st, le0(lsub(hi, n)), 'range end out of bounds')
    if st is None:
        return []
    st = E.need(st, le0(lsub(lo, hi)), 'range start after its end')
    if st is None:
        return []
    if istext(E, c):
        for i in (lo, hi):
            if not boundary(st.F, v, i):
                st = E.need(st, mk('p', mk('bool', mk('charboundary', v, i))), 'byte index is not a character boundary')
                if st is None:
                    return []
    if mut:
        loc = E.target(st, ref)
        if loc:
            return [(st, mk('mref', loc[0], loc[1] + (('r', lo, hi),)))]
    return [(st, retref(sslice(v, st.F.res(lo), st.F.res(hi), st.F)))]


@model('slice::get', 'slice::get_mut', 'str::get')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return None
    n = slen(v)
    ix = c.args[1]
    mut = c.name == 'get_mut'
    if ix[0] == 'i':
        cond = le0(ladd(lsub(ix, n), I(1)))
        lo = hi = None
    else:
        b = rng_bounds(E, st, ix, n)
        if b is None:
            return None
        lo, hi = b
        cond = E.band(le0(lsub(hi, n)), le0(lsub(lo, hi)))
    a, b = fork(E, st, cond)
    out = []
    if a is not None:
        if mut:
            loc = E.target(a, c.args[0])
            r = mk('mref', loc[0], loc[1] + ((('x', ix),) if lo is None else (('r', lo, hi),)))
        else:
            r = retref(E.elem(a, v, ix) if lo is None else sslice(v, a.F.res(lo), a.F.res(hi), a.F))
        out.append((a, some(E, c.rty, r)))
    if b is not None:
        out.append((b, none(E, c.rty)))
    return out


@model('slice::first', 'slice::last', 'VecDeque::front', 'VecDeque::back', 'slice::first_mut', 'slice::last_mut')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return None
    n = slen(v)
    e, x = fork(E, st, eq0(n))
    out = []
    if e is not None:
        out.append((e, none(E, c.rty)))
    if x is not None:
        i = I(0) if c.name in ('first', 'front', 'first_mut') else lsub(n, I(1))
        if c.name.endswith('_mut'):
            loc = E.target(x, c.args[0])
            r = mk('mref', loc[0], loc[1] + (('x', i),))
        else:
            r = retref(E.elem(x, v, i))
        out.append((x, some(E, c.rty, r)))
    return out


@model('slice::split_at', 'slice::split_at_mut', 'str::split_at')
def _(E, st, c):
    v, i = E.peek(st, c.args[0]), c.args[1]
    if v[0] != 'seq' or i[0] != 'i':
        return None
    n = slen(v)
    st = E.need(st, le0(lsub(i, n)), 'split index out of bounds')
    if st is None:
        return []
    if c.name.endswith('mut'):
        loc = E.target(st, c.args[0])
        if loc is None:
            return None
        return [(st, mk('tup', (mk('mref', loc[0], loc[1] + (('r', I(0), i),)),
                                mk('mref', loc[0], loc[1] + (('r', i, n),)))))]
    return [(st, mk('tup', (retref(sslice(v, I(0), i, st.F)), retref(sslice(v, i, n, st.F)))))]


@model('slice::split_at_checked')
def _(E, st, c):
    v, i = E.peek(st, c.args[0]), c.args[1]
    if v[0] != 'seq' or i[0] != 'i':
        return None
    n = slen(v)
    a, b = fork(E, st, le0(lsub(i, n)))
    out = []
    if a is not None:
        out.append((a, some(E, c.rty, mk('tup', (retref(sslice(v, I(0), i, a.F)), retref(sslice(v, i, n, a.F)))))))
    if b is not None:
        out.append((b, none(E, c.rty)))
    return out


@model('slice::split_first', 'slice::split_last', 'slice::split_first_chunk', 'slice::first_chunk', 'slice::split_last_chunk',
       'slice::last_chunk')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return None
    n = slen(v)
    k = 1
    if 'chunk' in c.name:
        # array length from the return type
        t = E.p.types[argty(E, c.rty, 0)]
        if t['k'] == 'tuple':
            t = E.p.types[t['tys'][0 if 'first' in c.name else 1]]
        t = E.p.types[t['ty']] if t['k'] == 'ref' else t
        k = t.get('len')
        if k is None:
            return None
    a, b = fork(E, st, le0(lsub(I(k), n)))
    out = []
    if a is not None:
        if c.name in ('split_first', 'split_first_chunk'):
            h = E.elem(a, v, I(0)) if k == 1 and 'chunk' not in c.name else sslice(v, I(0), I(k), a.F)
            r = mk('tup', (retref(h), retref(sslice(v, I(k), n, a.F))))
        elif c.name == 'split_last':
            r = mk('tup', (retref(E.elem(a, v, lsub(n, I(1)))), retref(sslice(v, I(0), lsub(n, I(1)), a.F))))
        elif c.name == 'split_last_chunk':
            r = mk('tup', (retref(sslice(v, I(0), lsub(n, I(k)), a.F)), retref(sslice(v, lsub(n, I(k)), n, a.F))))
        elif c.name == 'first_chunk':
            r = retref(sslice(v, I(0), I(k), a.F))
        else:
            r = retref(sslice(v, lsub(n, I(k)), n, a.F))
        out.append((a, some(E, c.rty, r)))
    if b is not None:
        out.append((b, none(E, c.rty)))
    return out


@model('slice::starts_with', 'slice::ends_with', 'str::starts_with')
def _(E, st, c):
    v, w = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    if v[0] != 'seq' or w[0] != 'seq':
        return None
    n, k = slen(v), slen(w)
    out = []
    a, b = fork(E, st, le0(lsub(k, n)))
    if a is not None:
        x = sslice(v, I(0), k, a.F) if c.name == 'starts_with' else sslice(v, lsub(n, k), n, a.F)
        out.append((a, seq_eq(x, w, a.F)))
    if b is not None:
        out.append((b, FALSE))
    return out


@model('slice::contains', 'VecDeque::contains')
def _(E, st, c):
    v, x = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    if v[0] != 'seq':
        return None
    return [(st, mk('p', mk('in', x, mk('seqset', v))))]


@model('slice::concat', 'slice::join', 'Join::join', 'Concat::concat')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq' or len(c.args) > 1 and c.name == 'join':
        return None
    qs = []
    for s in v[1]:
        if s[0] != 'one':
            return None
        x = E.peek(st, s[1])
        if x[0] != 'seq':
            return None
        qs.append(x)
    return [(st, scat(*qs))]


@model('Vec::drain', 'VecDeque::drain', 'String::drain')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'seq':
        return None
    n = slen(v)
    b = rng_bounds(E, st, c.args[1], n)
    if b is None:
        return None
    lo, hi = b
    st = E.need(st, le0(lsub(hi, n)), 'drain range out of bounds')
    if st is None:
        return []
    st = E.need(st, le0(lsub(lo, hi)), 'drain range start after its end')
    if st is None:
        return []
    lo, hi = st.F.res(lo), st.F.res(hi)
    E.put(st, c.args[0], scat(sslice(v, I(0), lo, st.F), sslice(v, hi, n, st.F)))
    return [(st, mk('iter', sslice(v, lo, hi, st.F), I(0), 'val'))]


# --------------------------------------------------------------- conversions
@model('Deref::deref', 'DerefMut::deref_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    a = c.args[0]
    if v[0] in ('seq', 'w', 'set', 'iter') or v[0] == 'sym':
        return [(st, a)]
    x = E.deref1(st, a)
    if x[0] == 'box':
        if a[0] == 'mref':
            return [(st, mk('mref', a[1], a[2] + (('b',),)))]
        return [(st, retref(x[1]))]
    return None


@model('AsRef::as_ref', 'AsMut::as_mut')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] == 'seq':
        loc = E.target(st, c.args[0])
        if c.name == 'as_mut' and loc:
            return [(st, mk('mref', loc[0], loc[1]))]
        return [(st, retref(v))]
    if v[0] == 'hash':
        return [(st, retref(v[1]))]
    if v[0] == 'sigv':
        return [(st, retref(v[1]))]
    if v[0] == 'pubk':
        return [(st, retref(v[1]))]
    if v[0] == 'sym' and v[2] is not None and v[2] >= 0:
        t = E.p.types[v[2]]
        if t['k'] == 'adt' and t['crate'] == 'ring':
            n = {'PublicKey': 32, 'Digest': None}.get(t['path'].split('::')[-1])
            if n:
                return [(st, retref(fixed(n, mk('bytes', v[1]))))]
    return None


@model('From::from', 'Into::into')
def _(E, st, c):
    v = c.args[0]
    x = E.peek(st, v)
    t = E.p.types[c.rty] if c.rty >= 0 else {'k': '?'}
    if x[0] == 'i' and t['k'] == 'int':
        return [(st, x)]
    if E.isbool(x) and t['k'] == 'int':
        s1, s0 = fork(E, st, x)
        return [(s, I(k)) for s, k in ((s1, 1), (s0, 0)) if s is not None]
    if x[0] == 'seq' and E.p.seq_elem(c.rty) is not None:
        return [(st, x)]
    if v[0] == 'seq' and t['k'] == 'ref':
        return [(st, v)]
    a = c.targs()
    if len(a) >= 2 and a[0] == a[1]:
        return [(st, v)]
    return None


@model('TryFrom::try_from', 'TryInto::try_into')
def _(E, st, c):
    x = E.peek(st, c.args[0])
    okt = argty(E, c.rty, 0)
    if okt < 0:
        return None
    t = E.p.types[okt]
    byref = False
    if t['k'] == 'ref':
        byref = True
        t = E.p.types[t['ty']]
    if x[0] == 'seq' and t['k'] == 'array' and t['len'] is not None:
        a, b = fork(E, st, eq0(lsub(slen(x), I(t['len']))))
        out = []
        if a is not None:
            y = a.F.nseq(x)
            out.append((a, ok(E, c.rty, retref(y) if byref else y)))
        if b is not None:
            out.append((b, err(E, c.rty, E.mksym(mk('tryfromslice',), argty(E, c.rty, 1)))))
        return out
    if x[0] == 'i' and t['k'] == 'int':
        bb = t['bits']
        lo, hi = (-(1 << (bb - 1)), (1 << (bb - 1)) - 1) if t['signed'] else (0, (1 << bb) - 1)
        a, b = fork(E, st, E.band(le0(lsub(x, I(hi))), le0(lsub(I(lo), x))))
        out = []
        if a is not None:
            out.append((a, ok(E, c.rty, x)))
        if b is not None:
            out.append((b, err(E, c.rty, E.mksym(mk('tryfromint',), argty(E, c.rty, 1)))))
        return out
    return None


@model('Clone::clone', 'option::cloned0')
def _(E, st, c):
    v = E.deref1(st, c.args[0])
    if v[0] == 'mref':
        return None
    if v[0] == 'adt':
        t = E.p.types[v[1]]
        if t['crate'] == 'pkstl':
            return None
        if t['crate'] in ('core', 'alloc', 'std') and any(hasmref(x) for x in v[3]):
            return None
    if haslocal(E, v):
        return None
    return [(st, v)]


def hasmref(v):
    return any(x[0] == 'mref' for x in atoms_in(v))


def haslocal(E, v):
    """does cloning the value run clone code of the crate under analysis?"""
    if v[0] == 'adt':
        if E.p.types[v[1]]['crate'] == 'pkstl':
            return True
        return any(haslocal(E, x) for x in v[3])
    if v[0] == 'sym' and v[2] is not None and v[2] >= 0:
        t = E.p.types[v[2]]
        return t['k'] == 'adt' and t['crate'] == 'pkstl'
    if v[0] == 'tup':
        return any(haslocal(E, x) for x in v[1])
    return False


@model('Default::default')
def _(E, st, c):
    t = E.p.types[c.rty] if c.rty >= 0 else {'k': '?'}
    if t['k'] == 'int':
        return [(st, I(0))]
    if t['k'] == 'bool':
        return [(st, FALSE)]
    if t['k'] == 'array' and t['len'] is not None and E.p.isu8(t['ty']):
        return [(st, lit(bytes(t['len'])))]
    if t['k'] != 'array' and E.p.seq_elem(c.rty) is not None:
        return [(st, EMPTY)]
    if isty(E, c.rty, 'BTreeSet') or isty(E, c.rty, 'HashSet'):
        return [(st, mk('set', mk('sempty')))]
    if isty(E, c.rty, 'Option'):
        return [(st, none(E, c.rty))]
    return None


# ---------------------------------------------------------------- comparison
@model('PartialEq::eq', 'PartialEq::ne', 'SlicePartialEq::equal_same_length', 'SlicePartialEq::equal',
       'SpecArrayEq::spec_eq', 'SpecArrayEq::spec_ne')
def _(E, st, c):
    a, b = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    r = None
    if a[0] == 'seq' and b[0] == 'seq':
        r = seq_eq(st.F.nseq(a), st.F.nseq(b), st.F)
    elif a[0] == 'i' and b[0] == 'i' or E.isbool(a) and E.isbool(b):
        r = E.compare(st, 'Eq', a, b)
    elif a is b and a[0] in ('sym', 'adt'):
        r = TRUE
    if r is None:
        key = (c.fn.get('inst') or {}).get('key')
        if key is not None and E.p.has(key):
            return None
        if a.n > b.n:
            a, b = b, a
        r = mk('p', mk('eq', a, b))
    if c.name in ('ne', 'spec_ne'):
        r = bnot(r)
    return [(st, r)]


@model('intrinsics::raw_eq')
def _(E, st, c):
    a, b = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    if a[0] == 'seq' and b[0] == 'seq':
        return [(st, seq_eq(st.F.nseq(a), st.F.nseq(b), st.F))]
    return [(st, E.compare(st, 'Eq', a, b))]


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _(E, st, c):
    a, b = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    n = c.name
    ta = [E.p.types[t].get('path', '') for t in c.targs() if isinstance(t, int) and t >= 0]
    if n == 'le' and any(t.startswith('log::') for t in ta):
        return [(st, TRUE)]            # every log statement is taken to be enabled: what it prints is judged
    if a[0] == 'i' and b[0] == 'i':
        return [(st, E.compare(st, n.capitalize(), a, b))]
    if a[0] == 'seq' and b[0] == 'seq':
        if n == 'lt':
            return [(st, slt(a, b))]
        if n == 'gt':
            return [(st, slt(b, a))]
        if n == 'ge':
            return [(st, bnot(slt(a, b)))]
        return [(st, bnot(slt(b, a)))]
    return None


def slt(a, b):
    if a is b:
        return FALSE
    return mk('p', mk('slt', a, b))


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def _(E, st, c):
    a, b = E.peek(st, c.args[0]), E.peek(st, c.args[1])
    part = c.name == 'partial_cmp'
    oty = argty(E, c.rty, 0) if part else c.rty
    if a[0] == 'i' and b[0] == 'i':
        d = lsub(a, b)
        conds = [(0, le0(ladd(d, I(1)))), (1, eq0(d)), (2, le0(lsub(I(1), d)))]
    elif a[0] == 'seq' and b[0] == 'seq':
        conds = [(0, slt(a, b)), (1, seq_eq(a, b, st.F)), (2, slt(b, a))]
    else:
        return None
    out = []
    for var, cnd in conds:
        f = st.F
        for v2, c2 in conds:
            f = f.assume(c2, v2 == var) if f is not None else None
        if f is None:
            continue
        s = st.copy()
        s.F = f
        r = mk('adt', oty, var, ())
        out.append((s, some(E, c.rty, r) if part else r))
    return out


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def _(E, st, c):
    x, y = c.args
    a, b = E.peek(st, x), E.peek(st, y)
    if a[0] == 'i' and b[0] == 'i':
        cond = le0(lsub(a, b))            # a <= b
    elif a[0] == 'seq' and b[0] == 'seq':
        cond = bnot(slt(b, a))
    else:
        return None
    s1, s0 = fork(E, st, cond)
    mx = c.name == 'max'
    return [(s, v) for s, v in ((s1, y if mx else x), (s0, x if mx else y)) if s is not None]


@model('slice::eq_ignore_ascii_case')
def _(E, st, c):
    return [(st, mk('p', mk('bool', mk('cieq', c.args[0], c.args[1]))))]


@model('intrinsics::discriminant_value', 'mem::discriminant')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    ty = v[1] if v[0] == 'adt' else (v[2] if v[0] == 'sym' else -1)
    return [(st, E.discr(st, v, ty))]


# ------------------------------------------------------------------- numbers
def width(c, E):
    import re
    for s in (c.fn['path'], str((c.fn.get('inst') or {}).get('path')), str((c.fn.get('inst') or {}).get('key'))):
        m = re.search(r'<impl ([ui])(\d+|size)>', s)
        if m:
            return (64 if m.group(2) == 'size' else int(m.group(2))), m.group(1) == 'i'
    if c.fn.get('self') is not None:
        it = E.intty(c.fn['self'])
        if it:
            return it
    return 64, False


@model('num::from_be_bytes', 'num::from_le_bytes', 'num::from_ne_bytes')
def _(E, st, c):
    w, sg = width(c, E)
    v = c.args[0]
    if v[0] != 'seq' or sg:
        return None
    return [(st, mkbe(w // 8, st.F.nseq(v), 'be' if 'be' in c.name else 'le'))]


@model('num::to_be_bytes', 'num::to_le_bytes', 'num::to_ne_bytes')
def _(E, st, c):
    w, sg = width(c, E)
    v = c.args[0]
    if v[0] != 'i':
        return None
    return [(st, mkenc(w // 8, st.F.res(v), 'be' if 'be' in c.name else 'le'))]


@model('intrinsics::bswap', 'num::swap_bytes', 'num::to_be', 'num::from_be')
def _(E, st, c):
    v = c.args[0]
    w = E.intty(c.rty)
    if v[0] != 'i' or not w:
        return None
    n = w[0] // 8
    if len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 1:
        a = v[2][0][0]
        if a[0] in ('be', 'le_int') and a[1] == n:
            return [(st, mkbe(n, a[2], 'be' if a[0] == 'le_int' else 'le'))]
    # value -> bytes in one order -> integer in the other
    return [(st, mkbe(n, mkenc(n, v, 'be'), 'le'))]


@model('num::checked_add', 'num::checked_sub', 'num::checked_mul')
def _(E, st, c):
    w, sg = width(c, E)
    a, b = c.args
    if a[0] != 'i' or b[0] != 'i':
        return None
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    r = arith(E, st, c.name.split('_')[1], a, b)
    s1, s0 = fork(E, st, E.band(le0(lsub(r, I(hi))), le0(lsub(I(lo), r))))
    out = []
    if s1 is not None:
        out.append((s1, some(E, c.rty, r)))
    if s0 is not None:
        out.append((s0, none(E, c.rty)))
    return out


def arith(E, st, op, a, b):
    if op == 'add':
        return ladd(a, b)
    if op == 'sub':
        return lsub(a, b)
    if cint(b) is not None:
        return lscale(a, cint(b))
    if cint(a) is not None:
        return lscale(b, cint(a))
    x, y = (a, b) if a.n < b.n else (b, a)
    return atom(mk('int', mk('mul', x, y), 128))


@model('num::saturating_add', 'num::saturating_sub', 'num::wrapping_add', 'num::wrapping_sub', 'num::overflowing_add',
       'num::overflowing_sub', 'num::saturating_mul', 'num::wrapping_mul', 'num::overflowing_mul', 'num::abs_diff0')
def _(E, st, c):
    w, sg = width(c, E)
    a, b = c.args
    if a[0] != 'i' or b[0] != 'i' or sg:
        return None
    hi = (1 << w) - 1
    k, op = c.name.split('_')
    r = arith(E, st, op, a, b)
    out = []
    s1, s0 = fork(E, st, E.band(le0(lsub(r, I(hi))), le0(lscale(r, -1))))
    if s1 is not None:
        out.append((s1, mk('tup', (r, FALSE)) if k == 'overflowing' else r))
    if s0 is not None:
        if k == 'saturating':
            v = I(0) if op == 'sub' else I(hi)
        else:
            v = ladd(r, I(hi + 1)) if op == 'sub' else (lsub(r, I(hi + 1)) if op == 'add' else
                                                         atom(mk('int', mk('wrap', r, w), w)))
        out.append((s0, mk('tup', (v, TRUE)) if k == 'overflowing' else v))
    return out


@model('num::pow', 'num::is_power_of_two', 'num::leading_zeros', 'num::trailing_zeros', 'num::count_ones')
def _(E, st, c):
    return [(st, E.mksym(mk('num', c.name, tuple(c.args)), c.rty))]


@model('NonZero::new', 'nonzero::new')
def _(E, st, c):
    a = c.args[0]
    if a[0] != 'i':
        return None
    z, nz = fork(E, st, eq0(a))
    out = []
    if nz is not None:
        out.append((nz, some(E, c.rty, mk('nz', a))))
    if z is not None:
        out.append((z, none(E, c.rty)))
    return out


@model('NonZero::get', 'NonZero::new_unchecked')
def _(E, st, c):
    v = c.args[0]
    if c.name == 'get':
        return [(st, v[1] if v[0] == 'nz' else E.mksym(mk('nzget', v), c.rty))]
    return [(st, mk('nz', v))]


# ------------------------------------------------------------------ mem / ptr
@model('mem::replace', 'mem::take')
def _(E, st, c):
    loc = E.target1(st, c.args[0]) if hasattr(E, 'target1') else None
    r = c.args[0]
    if r[0] != 'mref':
        return None
    old = E.load(st, r[1], r[2])
    if c.name == 'replace':
        E.store(st, r[1], r[2], c.args[1])
        return [(st, old)]
    t = E.p.types[c.rty] if c.rty >= 0 else None
    if E.p.seq_elem(c.rty) is not None and t['k'] != 'array':
        new = EMPTY
    elif isty(E, c.rty, 'Option'):
        new = none(E, c.rty)
    elif t and t['k'] == 'int':
        new = I(0)
    elif t and t['k'] == 'bool':
        new = FALSE
    elif isty(E, c.rty, 'BTreeSet') or isty(E, c.rty, 'HashSet'):
        new = mk('set', mk('sempty'))
    elif t and t['k'] == 'array' and t['len'] is not None and E.p.isu8(t['ty']):
        new = lit(bytes(t['len']))
    else:
        return None
    E.store(st, r[1], r[2], new)
    return [(st, old)]


@model('mem::swap')
def _(E, st, c):
    a, b = c.args
    if a[0] != 'mref' or b[0] != 'mref':
        return None
    x, y = E.load(st, a[1], a[2]), E.load(st, b[1], b[2])
    E.store(st, a[1], a[2], y)
    E.store(st, b[1], b[2], x)
    return [(st, UNIT)]


@model('mem::drop', 'mem::forget', 'hint::black_box0')
def _(E, st, c):
    return [(st, UNIT)]


@model('Box::new', 'boxed::box_new', 'alloc::boxed::box_new')
def _(E, st, c):
    v = c.args[0]
    return [(st, v if v[0] == 'seq' else mk('box', v))]


@model('Box::new_uninit')
def _(E, st, c):
    return [(st, mk('box', mk('sym', mk('uninit', E.fresh()), -1)))]


@model('boxed::box_assume_init_into_vec_unsafe')
def _(E, st, c):
    v = c.args[0]
    if v[0] == 'box' and v[1][0] == 'seq':
        return [(st, v[1])]
    return None


@model('hint::must_use', 'convert::identity', 'hint::black_box')
def _(E, st, c):
    return [(st, c.args[0])]


# ----------------------------------------------------------------------- sets
def setv(E, st, ref):
    v = E.peek(st, ref)
    return v[1] if v[0] == 'set' else None


@model('BTreeSet::new', 'HashSet::new', 'HashSet::with_capacity')
def _(E, st, c):
    return [(st, mk('set', mk('sempty')))]


def member(x, s):
    """boolean: x in set term s"""
    if s[0] == 'sempty':
        return FALSE
    if s[0] == 'sins':
        e = eq0(lsub(x, s[2])) if x[0] == 'i' and s[2][0] == 'i' else mk('p', mk('eq', x, s[2]))
        if e is TRUE:
            return TRUE
        r = member(x, s[1])
        if e is FALSE:
            return r
        if r is FALSE:
            return e
        if r is TRUE:
            return TRUE
        return mk('p', mk('or', e, r))
    if s[0] == 'srem':
        e = eq0(lsub(x, s[2])) if x[0] == 'i' and s[2][0] == 'i' else mk('p', mk('eq', x, s[2]))
        if e is TRUE:
            return FALSE
        r = member(x, s[1])
        if r is FALSE:
            return FALSE
        if e is FALSE:
            return r
        return mk('p', mk('and', bnot(e), r))
    return mk('p', mk('in', x, s))


def setlen(E, st, s):
    if s[0] == 'sempty':
        return I(0)
    if s[0] in ('sins', 'srem'):
        m = st.F.ev(member(s[2], s[1]))
        if m is not None:
            n = setlen(E, st, s[1])
            if s[0] == 'sins':
                return n if m else ladd(n, I(1))
            return lsub(n, I(1)) if m else n
    return atom(mk('setlen', s))


@model('BTreeSet::contains', 'HashSet::contains')
def _(E, st, c):
    s = setv(E, st, c.args[0])
    x = E.peek(st, c.args[1])
    if s is None:
        return None
    return [(st, member(x, s))]


@model('BTreeSet::insert', 'HashSet::insert')
def _(E, st, c):
    s = setv(E, st, c.args[0])
    x = c.args[1]
    if s is None:
        return None
    a, b = fork(E, st, member(x, s))
    out = []
    if a is not None:
        out.append((a, FALSE))
    if b is not None:
        E.put(b, c.args[0], mk('set', mk('sins', s, x)))
        out.append((b, TRUE))
    return out


@model('BTreeSet::remove', 'HashSet::remove', 'BTreeSet::take', 'HashSet::take')
def _(E, st, c):
    s = setv(E, st, c.args[0])
    x = E.peek(st, c.args[1])
    if s is None:
        return None
    a, b = fork(E, st, member(x, s))
    if a is not None and b is not None and s[0] == 'sbase':
        E.undec = True
    out = []
    tk = c.name == 'take'
    if a is not None:
        E.put(a, c.args[0], mk('set', mk('srem', s, x)))
        out.append((a, some(E, c.rty, x) if tk else TRUE))
    if b is not None:
        out.append((b, none(E, c.rty) if tk else FALSE))
    return out


def pick(E, st, s):
    """[(state, element or None)]: some element of a set, or the set is empty"""
    if s[0] == 'sempty':
        return [(st, None)]
    n = setlen(E, st, s)
    a, b = fork(E, st, le0(lsub(I(1), n)))
    if a is not None and b is not None:
        E.undec = True
    out = []
    if a is not None:
        m = atom(mk('int', mk('least', s), 64))
        a2, _ = fork(E, a, member(m, s))
        if a2 is not None:
            out.append((a2, m))
    if b is not None:
        out.append((b, None))
    return out


@model('BTreeSet::first', 'BTreeSet::pop_first')
def _(E, st, c):
    s = setv(E, st, c.args[0])
    if s is None or not intset(E, c):
        return None
    out = []
    for a, m in pick(E, st, s):
        if m is None:
            out.append((a, none(E, c.rty)))
            continue
        if c.name == 'pop_first':
            E.put(a, c.args[0], mk('set', mk('srem', s, m)))
            out.append((a, some(E, c.rty, m)))
        else:
            out.append((a, some(E, c.rty, retref(m))))
    return out


def intset(E, c):
    """the sets of this call hold numbers"""
    t = c.targs()
    return not t or not isinstance(t[0], int) or E.p.types[t[0]]['k'] == 'int'


@model('BTreeSet::iter', 'HashSet::iter')
def _(E, st, c):
    s = setv(E, st, c.args[0])
    if s is None or not intset(E, c):
        return None
    return [(st, mk('iset', mk('set', s), 'ref'))]


@model('BTreeSet::len', 'HashSet::len')
def _(E, st, c):
    s = setv(E, st, c.args[0])
    if s is None:
        return None
    return [(st, setlen(E, st, s))]


@model('BTreeSet::is_empty', 'HashSet::is_empty')
def _(E, st, c):
    s = setv(E, st, c.args[0])
    if s is None:
        return None
    return [(st, eq0(setlen(E, st, s)))]


@model('BTreeSet::clear', 'HashSet::clear')
def _(E, st, c):
    E.put(st, c.args[0], mk('set', mk('sempty')))
    return [(st, UNIT)]


# -------------------------------------------------------------------- writers
def writer(E, st, ref):
    """(location, value) of a writer; unknown generic writers become 'gen'"""
    loc = E.target(st, ref)
    v = E.peek(st, ref)
    if v[0] == 'sym':
        v = mk('w', 'gen', whole(mk('w0', v[1])), None)
        if loc is None and False:
            return None, v
    return loc, v


def wappend(E, st, loc, v, q):
    if v[0] == 'seq':
        nv = scat(v, q)
    elif v[0] == 'w':
        nv = mk('w', v[1], scat(v[2], q), None if v[1] == 'vec' else v[3])
    else:
        return
    if loc is None:
        st.event('lostwrite', E.cur())
        return
    E.store(st, loc[0], loc[1], nv)


def isgen(v):
    return v[0] == 'w' and v[1] == 'gen'


@model('Write::write')
def _(E, st, c):
    loc, v = writer(E, st, c.args[0])
    q = E.peek(st, c.args[1])
    if q[0] != 'seq' or v[0] not in ('seq', 'w'):
        return None
    if not isgen(v) and v[0] != 'w' or (v[0] == 'w' and v[1] == 'vec'):
        wappend(E, st, loc, v, q)
        return [(st, ok(E, c.rty, slen(q)))]
    if v[0] == 'w' and v[1] == 'buf':
        s, e = fail(E, st, c.rty, 'write')
        spill(E, s, v, whole(mk('partial', E.fresh())))
        wappend(E, st, loc, v, q)
        return [(s, e), (st, ok(E, c.rty, slen(q)))]
    if v[0] == 'w' and v[1] == 'denc':
        wappend(E, st, loc, v, q)
        return [(st, ok(E, c.rty, slen(q)))]
    out = []
    s, e = fail(E, st, c.rty, 'write')
    wappend(E, s, loc, v, whole(mk('partial', E.fresh())))
    out.append((s, e))
    # complete
    s2 = st.copy()
    wappend(E, s2, loc, v, q)
    out.append((s2, ok(E, c.rty, slen(q))))
    # short
    n = atom(mk('int', mk('short', E.fresh()), 64))
    f = st.F.assume(le0(ladd(lsub(n, slen(q)), I(1))))
    if f is not None:
        s3 = st.copy()
        s3.F = f
        wappend(E, s3, loc, v, sslice(q, I(0), n, f))
        s3.event('shortwrite', E.cur())
        out.append((s3, ok(E, c.rty, n)))
    return out


@model('Write::write_all', 'Write::write_fmt0')
def _(E, st, c):
    loc, v = writer(E, st, c.args[0])
    q = E.peek(st, c.args[1])
    if q[0] != 'seq' or v[0] not in ('seq', 'w'):
        return None
    out = []
    if isgen(v):
        s, e = fail(E, st, c.rty, 'write')
        wappend(E, s, loc, v, whole(mk('partial', E.fresh())))
        out.append((s, e))
    elif v[0] == 'w' and v[1] in ('denc', 'ddec'):
        s, e = fail(E, st, c.rty, 'compress' if v[1] == 'denc' else 'decompress')
        out.append((s, e))
    elif v[0] == 'w' and v[1] == 'buf':
        s, e = fail(E, st, c.rty, 'write')
        spill(E, s, v, whole(mk('partial', E.fresh())))
        out.append((s, e))
    s2 = st.copy()
    wappend(E, s2, loc, v, q)
    out.append((s2, ok(E, c.rty, UNIT)))
    return out


def spill(E, st, v, q):
    """hand bytes to the writer below a buffering one"""
    loc, w = writer(E, st, v[3])
    if w[0] in ('w', 'seq'):
        wappend(E, st, loc, w, q)


def dropped(E, st, v):
    """states after a buffering writer is dropped: what it still holds is written, and a failure goes unnoticed"""
    if v[0] != 'w' or v[1] != 'buf' or not v[2][1]:
        return [st]
    s = st.copy()
    spill(E, s, v, whole(mk('partial', E.fresh())))
    s.event('lostwrite', E.cur())
    spill(E, st, v, v[2])
    return [st, s]


@model('Write::flush')
def _(E, st, c):
    loc, v = writer(E, st, c.args[0])
    out = []
    if isgen(v) or v[0] == 'sym':
        out.append(fail(E, st, c.rty, 'write'))
    s = st.copy()
    if v[0] == 'w' and v[1] == 'vec' and loc:
        E.store(s, loc[0], loc[1], mk('w', 'vec', v[2], mk('flushed')))
    elif v[0] == 'w' and v[1] == 'buf' and loc:
        f, e = fail(E, st, c.rty, 'write')
        spill(E, f, v, whole(mk('partial', E.fresh())))
        out.append((f, e))
        spill(E, s, v, v[2])
        E.store(s, loc[0], loc[1], mk('w', 'buf', EMPTY, v[3]))
    out.append((s, ok(E, c.rty, UNIT)))
    return out


@model('Write::by_ref', 'Read::by_ref', 'Iterator::by_ref')
def _(E, st, c):
    return [(st, c.args[0])]


@model('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new')
def _(E, st, c):
    v = c.args[-1]
    x = E.peek(st, v)
    if v[0] == 'seq':
        return [(st, mk('w', 'vec', v, mk('flushed')))]
    if v[0] == 'mref' and x[0] == 'seq':
        # buffered writer over a borrowed vector: contents appear in the vector
        return [(st, v)]
    if v[0] == 'mref' and writer(E, st, v)[1][0] == 'w':
        return [(st, mk('w', 'buf', EMPTY, v))]
    return [(st, mk('w', 'gen', whole(mk('w0', v)), None))]


@model('BufWriter::into_inner')
def _(E, st, c):
    v = c.args[0]
    if v[0] == 'w' and v[1] == 'vec':
        return [(st, ok(E, c.rty, v[2]))]
    if v[0] == 'mref':
        return [(st, ok(E, c.rty, v))]
    if v[0] == 'w' and v[1] == 'buf':
        s, e = fail(E, st, c.rty, 'write')
        spill(E, s, v, whole(mk('partial', E.fresh())))
        spill(E, st, v, v[2])
        return [(s, e), (st, ok(E, c.rty, v[3]))]
    return [fail(E, st, c.rty, 'write'), (st.copy(), ok(E, c.rty, E.mksym(mk('inner', v), argty(E, c.rty, 0))))]


@model('BufWriter::into_parts')
def _(E, st, c):
    return None


@model('BufWriter::buffer', 'BufWriter::get_ref', 'BufWriter::get_mut')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] == 'w' and v[1] == 'vec' and c.name != 'buffer':
        if v[3] is None:                # what is still buffered is not there
            return [(st, retref(whole(mk('unflushed', v[2]))))] if c.name == 'get_ref' else None
        if c.name == 'get_mut':
            loc = E.target(st, c.args[0])
            if loc:
                return [(st, mk('mref', loc[0], loc[1] + (('wv',),)))]
        return [(st, retref(v[2]))]
    return None


@model('Cursor::new', 'BufReader::new', 'BufReader::with_capacity', 'io::empty')
def _(E, st, c):
    v = c.args[-1]
    x = E.peek(st, v)
    if x[0] == 'seq':
        return [(st, mk('rd', x))]
    return [(st, mk('rd', whole(mk('rdsrc', x))))]


@model('Read::read_to_end')
def _(E, st, c):
    loc = E.target(st, c.args[0])
    v = E.peek(st, c.args[0])
    q = E.peek(st, c.args[1])
    src = v[1] if v[0] == 'rd' else (v if v[0] == 'seq' else None)
    if src is None or q[0] != 'seq':
        return None
    E.put(st, c.args[1], scat(q, src))
    if loc:
        E.store(st, loc[0], loc[1], mk('rd', EMPTY))
    return [(st, ok(E, c.rty, slen(src)))]


@model('Read::read_exact')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    d = E.peek(st, c.args[1])
    src = v[1] if v[0] == 'rd' else (v if v[0] == 'seq' else None)
    if src is None or d[0] != 'seq':
        return None
    n = slen(d)
    a, b = fork(E, st, le0(lsub(n, slen(src))))
    out = []
    if a is not None:
        E.put(a, c.args[1], sslice(src, I(0), n, a.F))
        rest = sslice(src, n, slen(src), a.F)
        if v[0] == 'rd':
            E.put(a, c.args[0], mk('rd', rest))
        else:
            r = c.args[0]
            if r[0] == 'mref':
                E.store(a, r[1], r[2], retref(rest))
        out.append((a, ok(E, c.rty, UNIT)))
    if b is not None:
        out.append((b, err(E, c.rty, E.mksym(mk('eof', E.fresh()), argty(E, c.rty, 1)))))
    return out


# ------------------------------------------------------------------ iterators
def mkiter(E, st, v):
    """iterator value of an into_iter() argument"""
    if v[0] == 'seq':
        return mk('iter', v, I(0), 'val')
    if v[0] == 'vref':
        x = E.peek(st, v)
        if x[0] == 'seq':
            return mk('iter', x, I(0), 'ref')
        if x[0] == 'set':
            return mk('iset', x, 'ref')
    if v[0] == 'set':
        return mk('iset', v, 'val')
    if v[0] in ITERS or v[0] == 'mref' and E.peek(st, v)[0] in ITERS:
        return v
    if v[0] == 'adt':
        p = E.p.types[v[1]]['path']
        if p.endswith('::Range'):
            return mk('range', v[3][0], v[3][1])
        if p == 'core::option::Option':
            if v[2] == 0:
                return mk('iter', EMPTY, I(0), 'val')
            return mk('iter', mkseq([mk('one', v[3][0], False)]), I(0), 'val')
    return None


ITERS = ('iter', 'iset', 'range', 'imap', 'ifilter', 'ifmap', 'ienum', 'izip', 'ichain', 'icopied', 'itake', 'iskip')


@model('IntoIterator::into_iter')
def _(E, st, c):
    it = mkiter(E, st, c.args[0])
    if it is None:
        v = c.args[0]
        if v[0] == 'sym' and isty(E, v[2], 'Option'):
            v = E.split_enum(st, v)
            it = mkiter(E, st, v)
        if it is None:
            return None
    return [(st, it)]


@model('slice::iter', 'Vec::iter', 'VecDeque::iter', 'array::iter', 'slice::iter_mut0')
def _(E, st, c):
    x = E.peek(st, c.args[0])
    if x[0] != 'seq':
        return None
    return [(st, mk('iter', x, I(0), 'ref'))]


@model('slice::iter_mut', 'Vec::iter_mut', 'VecDeque::iter_mut')
def _(E, st, c):
    loc = E.target(st, c.args[0])
    x = E.peek(st, c.args[0])
    if loc is None or x[0] != 'seq':
        return None
    return [(st, mk('iter', x, I(0), mk('mut', loc[0], loc[1])))]


@model('slice::chunks', 'slice::chunks_exact', 'slice::windows')
def _(E, st, c):
    x, k = E.peek(st, c.args[0]), c.args[1]
    n = cint(st.F.res(slen(x))) if x[0] == 'seq' else None
    kk = cint(k) if k[0] == 'i' else None
    if n is None or not kk or n > 4096:
        return None
    out = []
    if c.name == 'windows':
        rng = range(0, n - kk + 1)
    else:
        rng = range(0, n, kk)
    for i in rng:
        j = min(n, i + kk)
        if c.name == 'chunks_exact' and j - i < kk:
            break
        out.append(mk('one', retref(sslice(x, I(i), I(j), st.F)), False))
    return [(st, mk('iter', mkseq(out), I(0), 'val'))]


ADAPT = {'map': 'imap', 'filter': 'ifilter', 'filter_map': 'ifmap', 'enumerate': 'ienum', 'zip': 'izip',
         'chain': 'ichain', 'copied': 'icopied', 'cloned': 'icopied', 'take': 'itake', 'skip': 'iskip'}


@model(*['Iterator::' + k for k in ADAPT])
def _(E, st, c):
    it = c.args[0]
    if it[0] == 'mref':
        x = E.load(st, it[1], it[2])
        if x[0] not in ITERS:
            return None
    elif it[0] not in ITERS:
        it = mkiter(E, st, it)
        if it is None:
            return None
    k = ADAPT[c.name]
    if k in ('ienum',):
        return [(st, mk(k, it, I(0)))]
    if k == 'icopied':
        return [(st, mk(k, it))]
    if k in ('izip', 'ichain'):
        o = mkiter(E, st, c.args[1])
        if o is None:
            return None
        if k == 'ichain':
            return [(st, mk(k, it, o, TRUE))]
        return [(st, mk(k, it, o))]
    if k in ('itake', 'iskip'):
        n = c.args[1]
        if it[0] == 'iter' and n[0] == 'i':
            q, pos = it[1], it[2]
            rest = sslice(q, pos, slen(q), st.F)
            out = []
            for s, fits in zip(fork(E, st, le0(lsub(n, slen(rest)))), (True, False)):
                if s is None:
                    continue
                if k == 'itake':
                    r = sslice(rest, I(0), n, s.F) if fits else rest
                else:
                    r = sslice(rest, n, slen(rest), s.F) if fits else EMPTY
                out.append((s, mk('iter', r, I(0), it[3])))
            return out
        return None
    return [(st, mk(k, it, c.args[1]))]


@model('Iterator::rev')
def _(E, st, c):
    it = c.args[0]
    if it[0] == 'iter':
        q = sslice(it[1], it[2], slen(it[1]), st.F)
        n = cint(st.F.res(slen(q)))
        if n is not None and n <= 64:
            return [(st, mk('iter', mkseq([mk('one', E.elem(st, q, I(n - 1 - i)), E.isu8seq(q)) for i in range(n)]), I(0), it[3]))]
        return [(st, mk('iter', E.havocval(q, mk('rev', q)), I(0), it[3]))]
    return None


def iter_next(E, st, it):
    """[(state, iterator', element or None)]"""
    k = it[0]
    if k == 'mref':
        inner = E.load(st, it[1], it[2])
        out = []
        for s, n, x in iter_next(E, st, inner):
            E.store(s, it[1], it[2], n)
            out.append((s, it, x))
        return out
    if k == 'iter':
        q, pos, mode = it[1], it[2], it[3]
        pos = st.F.res(pos)
        n = slen(q)
        a, b = fork(E, st, le0(ladd(lsub(pos, n), I(1))))
        if a is not None and b is not None:
            E.undec = True
        out = []
        if a is not None:
            el = E.elem(a, q, pos)
            if mode == 'ref':
                el = retref(el)
            elif mode != 'val':
                el = mk('mref', mode[1], mode[2] + (('x', pos),))
            out.append((a, mk('iter', q, ladd(pos, I(1)), mode), el))
        if b is not None:
            out.append((b, it, None))
        return out
    if k == 'range':
        lo, hi = it[1], it[2]
        if lo[0] != 'i' or hi[0] != 'i':
            return [(st.copy(), it, opq_elem(E)), (st, it, None)]
        a, b = fork(E, st, le0(ladd(lsub(lo, hi), I(1))))
        if a is not None and b is not None:
            E.undec = True
        out = []
        if a is not None:
            out.append((a, mk('range', ladd(a.F.res(lo), I(1)), hi), lo))
        if b is not None:
            out.append((b, it, None))
        return out
    if k == 'iset':
        return [(s, it if m is None else mk('iset', mk('set', mk('srem', it[1][1], m)), it[2]),
                 None if m is None else retref(m) if it[2] == 'ref' else m) for s, m in pick(E, st, it[1][1])]
    if k == 'ienum':
        out = []
        for s, n, x in iter_next(E, st, it[1]):
            if x is None:
                out.append((s, mk('ienum', n, it[2]), None))
            else:
                out.append((s, mk('ienum', n, ladd(it[2], I(1))), mk('tup', (it[2], x))))
        return out
    if k == 'icopied':
        return [(s, mk('icopied', n), None if x is None else E.deref1(s, x)) for s, n, x in iter_next(E, st, it[1])]
    if k == 'imap':
        out = []
        for s, n, x in iter_next(E, st, it[1]):
            if x is None:
                out.append((s, mk('imap', n, it[2]), None))
            else:
                for s2, f2, v in invoke_mut(E, s, it[2], [x]):
                    out.append((s2, mk('imap', n, f2), v))
        return out
    if k == 'izip':
        out = []
        for s, n, x in iter_next(E, st, it[1]):
            if x is None:
                out.append((s, mk('izip', n, it[2]), None))
                continue
            for s2, m, y in iter_next(E, s, it[2]):
                out.append((s2, mk('izip', n, m), None if y is None else mk('tup', (x, y))))
        return out
    if k == 'ichain':
        out = []
        if it[3] is TRUE:
            for s, n, x in iter_next(E, st, it[1]):
                if x is not None:
                    out.append((s, mk('ichain', n, it[2], TRUE), x))
                else:
                    for s2, m, y in iter_next(E, s, it[2]):
                        out.append((s2, mk('ichain', n, m, FALSE), y))
            return out
        return [(s, mk('ichain', it[1], m, FALSE), y) for s, m, y in iter_next(E, st, it[2])]
    if k in ('ifilter', 'ifmap'):
        def step(s, vals):
            return [('done', s1, mk('tup', (n, f2, x) if x is not None else (n, f2))) if x is not SKIP else
                    ('next', s1, [n, f2]) for s1, n, f2, x in sift(E, s, k, iter_next(E, s, vals[0]), vals[1])]
        w, E.widened = E.widened, False
        out = []
        for s, r in E.pyloop(st, [it[1], it[2]], step):
            n, f2 = r[1][0], r[1][1]
            out.append((s, mk(k, n, f2), r[1][2] if len(r[1]) > 2 else None))
        if E.widened:
            E.undec = True             # whether there is a next element is not known
        E.widened = E.widened or w
        return out
    return None


SKIP = mk('skip')


def sift(E, st, k, nexts, f):
    """one step of a filter: [(state, iterator, closure, element | None at the end | SKIP)]"""
    res = []
    for s1, n, x in nexts:
        if x is None or x is SKIP:
            res.append((s1, n, f, x))
        elif k == 'ifilter':
            for s2, f2, v in invoke_mut(E, s1, f, [retref(x)]):
                a, b = E.fork(s2, v) if E.isbool(v) else (s2.copy(), s2)
                if a is not None:
                    res.append((a, n, f2, x))
                if b is not None:
                    res.append((b, n, f2, SKIP))
        else:
            for s2, f2, v in invoke_mut(E, s1, f, [x]):
                for s3, o in variants(E, s2, v):
                    res.append((s3, n, f2, o[3][0] if o[0] == 'adt' and o[2] == 1 else SKIP))
    return res


def iter_step(E, st, it):
    """like iter_next, but an element that a filter leaves out counts as a step of its own"""
    k = it[0]
    if k in ('ifilter', 'ifmap'):
        return [(s, mk(k, n, f2), x) for s, n, f2, x in sift(E, st, k, iter_step(E, st, it[1]), it[2])]
    if k == 'imap':
        out = []
        for s, n, x in iter_step(E, st, it[1]):
            if x is None or x is SKIP:
                out.append((s, mk('imap', n, it[2]), x))
            else:
                out += [(s2, mk('imap', n, f2), v) for s2, f2, v in invoke_mut(E, s, it[2], [x])]
        return out
    if k == 'icopied':
        return [(s, mk('icopied', n), x if x is None or x is SKIP else E.deref1(s, x)) for s, n, x in iter_step(E, st, it[1])]
    if k == 'ienum':
        return [(s, mk('ienum', n, it[2] if x is None or x is SKIP else ladd(it[2], I(1))),
                 x if x is None or x is SKIP else mk('tup', (it[2], x))) for s, n, x in iter_step(E, st, it[1])]
    return iter_next(E, st, it)


def opq_elem(E):
    return mk('sym', mk('elem?', E.fresh()), -1)


def invoke_mut(E, st, f, args):
    """call a FnMut value held by value: (state, f', result)"""
    if f[0] == 'clo':
        cell = ('h', E.fresh())
        st.cells[cell] = f
        out = []
        for s, v in E.invoke(st, mk('mref', cell, ()), args):
            nf = s.cells.pop(cell, f)
            out.append((s, nf, v))
        return out
    return [(s, f, v) for s, v in E.invoke(st, f, args)]


def variants(E, st, v):
    """partition by the variant of an enum value"""
    v = E.concrete(st, v)
    if v[0] == 'sym' and E.is_enum(v[2]):
        out = []
        for i in range(len(E.p.types[v[2]]['variants'])):
            f = st.F.with_variant(v[1], i)
            if f is not None:
                s = st.copy()
                s.F = f
                out.append((s, E.expand(v, i)))
        return out
    return [(st, v)]


def the_iter(E, st, v):
    if v[0] in ITERS:
        return v
    if v[0] == 'mref':
        x = E.load(st, v[1], v[2])
        if x[0] in ITERS or x[0] == 'mref':
            return v
        if x[0] == 'adt' and E.p.types[x[1]]['path'].endswith('::Range'):
            E.store(st, v[1], v[2], mk('range', x[3][0], x[3][1]))
            return v
        return None
    if v[0] == 'sym' and isty(E, v[2], 'Option'):
        v = E.split_enum(st, v)
    return mkiter(E, st, v)


@model('Iterator::next', 'DoubleEndedIterator::next0')
def _(E, st, c):
    it = the_iter(E, st, c.args[0])
    if it is None:
        return None
    r = iter_next(E, st, it)
    if r is None:
        return None
    return [(s, none(E, c.rty) if x is None else some(E, c.rty, x)) for s, n, x in r]


@model('Iterator::size_hint', 'ExactSizeIterator::len')
def _(E, st, c):
    it = E.peek(st, c.args[0])
    if it[0] == 'iter' and c.name == 'len':
        return [(st, lsub(slen(it[1]), it[2]))]
    return [(st, E.mksym(mk('sizehint', E.fresh()), c.rty))]


def drive(E, st, it, init, each, fin):
    """fold over an iterator: each(st, acc, x) -> [('next',st,acc)|('done',st,res)]"""
    def step(s, vals):
        res = []
        for s1, n, x in iter_step(E, s, vals[0]):
            if x is SKIP:
                res.append(('next', s1, [n] + list(vals[1:])))
            elif x is None:
                res.append(('done', s1, fin(s1, vals[1:])))
            else:
                for r in each(s1, vals[1:], x):
                    if r[0] == 'next':
                        res.append(('next', r[1], [n] + list(r[2])))
                    else:
                        res.append(r)
        return res
    return E.pyloop(st, [it] + list(init), step)


def content(E, st, it, copy):
    """the elements an iterator still yields, when they are pieces of known sequences"""
    k = it[0]
    if k == 'iter':
        if it[3] == 'val' or copy and it[3] == 'ref':
            return sslice(it[1], it[2], slen(it[1]), st.F)
    elif k == 'icopied':
        return content(E, st, it[1], True)
    elif k == 'ichain':
        b = content(E, st, it[2], copy)
        if b is None or it[3] is FALSE:
            return b
        a = content(E, st, it[1], copy)
        return scat(a, b) if a is not None and it[3] is TRUE else None
    elif k in ('itake', 'iskip') and it[2][0] == 'i':
        a = content(E, st, it[1], copy)
        if a is not None and st.F.ent_le(lsub(it[2], slen(a))):
            return sslice(a, I(0), it[2], st.F) if k == 'itake' else sslice(a, it[2], slen(a), st.F)
    return None


def collect(E, st, it, rty):
    p = E.p.types[rty]['path'] if rty >= 0 and E.p.types[rty]['k'] == 'adt' else ''
    if E.p.seq_elem(rty) is not None:
        q = content(E, st, it, False)
        if q is not None:
            return [(st, q)]
        e = E.p.seq_elem(rty)
        w = it
        while w[0] in ('imap', 'icopied', 'ienum'):
            w = next((x for x in w[1:] if isinstance(x, tuple) and x and x[0] in ITERS), UNIT)
        if w[0] == 'range' and w[1][0] == 'i' and w[2][0] == 'i':
            st = E.need(st, le0(lsub(lsub(w[2], w[1]), I(CAPMAX))), 'capacity overflow')
            if st is None:
                return []

        def each(s, acc, x):
            if e == -8 and x[0] != 'i':
                y = E.peek(s, x)
                if y[0] == 'seq':
                    return [('next', s, [scat(acc[0], y)])]
            return [('next', s, [scat(acc[0], mkseq([mk('one', x, E.p.isu8(e) and x[0] == 'i')]))])]
        return drive(E, st, it, [EMPTY], each, lambda s, a: a[0])
    if p.endswith('::BTreeSet') or p.endswith('::HashSet'):
        return drive(E, st, it, [mk('set', mk('sempty'))],
                     lambda s, acc, x: [('next', s, [mk('set', mk('sins', acc[0][1], x))])], lambda s, a: a[0])
    if p in ('core::result::Result', 'core::option::Option'):
        inner = argty(E, rty, 0)
        okv = 0 if p.endswith('Result') else 1
        if E.p.seq_elem(inner) is None and not (E.p.types[inner]['k'] == 'tuple' and not E.p.types[inner]['tys']):
            return None
        e = E.p.seq_elem(inner)

        def each(s, acc, x):
            out = []
            for s2, v in variants(E, s, x):
                if v[0] != 'adt':
                    out.append(('next', s2, [E.havocval(acc[0], mk('coll', E.fresh()))]))
                elif v[2] == okv:
                    if e is None:
                        out.append(('next', s2, acc))
                    else:
                        y = v[3][0]
                        out.append(('next', s2, [scat(acc[0], mkseq([mk('one', y, E.p.isu8(e) and y[0] == 'i')]))]))
                else:
                    out.append(('done', s2, mk('adt', rty, v[2], v[3])))
            return out
        return drive(E, st, it, [EMPTY if e is not None else UNIT], each, lambda s, a: mk('adt', rty, okv, (a[0],)))
    return None


@model('Iterator::collect', 'FromIterator::from_iter', 'SpecFromIter::from_iter', 'SpecFromIterNested::from_iter')
def _(E, st, c):
    it = the_iter(E, st, c.args[0])
    if it is None:
        return None
    return collect(E, st, it, c.rty)


@model('Extend::extend', 'SpecExtend::spec_extend')
def _(E, st, c):
    it = the_iter(E, st, c.args[1])
    v = E.peek(st, c.args[0])
    if it is None:
        return None
    if v[0] == 'seq':
        def each(s, acc, x):
            if x[0] in ('vref',) and x[1][0] == 'i':
                x = x[1]
            return [('next', s, [scat(acc[0], mkseq([mk('one', x, E.isu8seq(acc[0]) and x[0] == 'i')]))])]
        w = it
        while w[0] in ('ichain', 'itake', 'iskip'):
            w = w[1]
        q = content(E, st, it, E.isu8seq(v) or w[0] == 'iter' and E.isu8seq(w[1]))
        if q is not None:
            E.put(st, c.args[0], scat(v, q))
            return [(st, UNIT)]
        out = []
        for s, r in drive(E, st, it, [v], each, lambda s, a: a[0]):
            E.put(s, c.args[0], r)
            out.append((s, UNIT))
        return out
    if v[0] == 'set':
        out = []
        for s, r in drive(E, st, it, [v], lambda s, acc, x: [('next', s, [mk('set', mk('sins', acc[0][1], E.peek(s, x)))])],
                          lambda s, a: a[0]):
            E.put(s, c.args[0], r)
            out.append((s, UNIT))
        return out
    return None


@model('Iterator::for_each')
def _(E, st, c):
    it = the_iter(E, st, c.args[0])
    if it is None:
        return None
    return drive(E, st, it, [c.args[1]], lambda s, acc, x: [('next', s2, [f2]) for s2, f2, v in invoke_mut(E, s, acc[0], [x])],
                 lambda s, a: UNIT)


def operands(v, op):
    """the two operands when the value is an application of a bit operator"""
    if v[0] == 'i' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        a = v[2][0][0]
        if a[0] == 'int' and a[1][0] == op:
            return a[1][1], a[1][2]
    return None


def gathers(v, acc, x, y):
    """acc | (x ^ y)"""
    o = operands(v, 'BitOr')
    if o is None or acc not in o:
        return False
    d = operands(o[1] if o[0] is acc else o[0], 'BitXor')
    return d is not None and set(d) == {x, y}


@model('Iterator::fold', 'Iterator::try_fold', 'Iterator::try_for_each')
def _(E, st, c):
    it = the_iter(E, st, c.args[0])
    if it is None:
        return None
    zs = zipped(E, st, it) if c.name == 'fold' and c.args[1][0] == 'i' and cint(c.args[1]) == 0 else None
    if zs is not None:
        acc = atom(mk('byte', mk('pair', 'acc'), I(0)))
        one = onpair(E, st, it, c.args[2], (acc,))
        if one is not None and gathers(one[0], acc, one[1], one[2]):
            return [(s, atom(mk('int', mk('differ', a, b), 8))) for s, a, b in zs]
    if c.name == 'fold':
        return drive(E, st, it, [c.args[1], c.args[2]],
                     lambda s, acc, x: [('next', s2, [v, f2]) for s2, f2, v in invoke_mut(E, s, acc[1], [acc[0], x])],
                     lambda s, a: a[0])
    tf = c.name == 'try_fold'
    rty = c.rty
    p = E.p.types[rty]['path'] if rty >= 0 and E.p.types[rty]['k'] == 'adt' else ''
    if p not in ('core::result::Result', 'core::option::Option'):
        return None
    okv = 0 if p.endswith('Result') else 1

    def each(s, acc, x):
        out = []
        for s2, f2, v in invoke_mut(E, s, acc[1], [acc[0], x] if tf else [x]):
            for s3, o in variants(E, s2, v):
                if o[0] != 'adt':
                    out.append(('next', s3, [acc[0], f2]))
                elif o[2] == okv:
                    out.append(('next', s3, [o[3][0] if tf else UNIT, f2]))
                else:
                    out.append(('done', s3, mk('adt', rty, o[2], o[3])))
        return out
    return drive(E, st, it, [c.args[1] if tf else UNIT, c.args[-1]], each, lambda s, a: mk('adt', rty, okv, (a[0],)))


def plain(E, st, it):
    """the bytes an iterator without closures still has to yield, else None"""
    if it[0] == 'mref':
        it = E.peek(st, it)
    if it[0] == 'icopied':
        it = it[1]
    if it[0] != 'iter' or it[1][0] != 'seq' or it[3] not in ('ref', 'val'):
        return None
    return sslice(it[1], it[2], slen(it[1]), st.F)


def zipped(E, st, it):
    """(state, bytes, bytes) for two byte sequences walked in step, else None"""
    if it[0] == 'mref':
        it = E.peek(st, it)
    if it[0] != 'izip':
        return None
    a, b = plain(E, st, it[1]), plain(E, st, it[2])
    if a is None or b is None:
        return None
    out = []
    for s, short in zip(fork(E, st, le0(lsub(slen(a), slen(b)))), (True, False)):
        if s is not None:
            out.append((s, a, sslice(b, I(0), slen(a), s.F)) if short else (s, sslice(a, I(0), slen(b), s.F), b))
    return out


def onpair(E, st, it, f, pre=()):
    """what a closure makes of one pair of unknown bytes: (result, x, y), None when it does more than that"""
    x, y = (atom(mk('byte', mk('pair', k), I(0))) for k in 'ab')
    if it[0] == 'mref':
        it = E.peek(st, it)
    ref = lambda i: (i[0] == 'iter' and i[3] == 'ref')
    args = list(pre) + [mk('tup', (retref(x) if ref(it[1]) else x, retref(y) if ref(it[2]) else y))]
    s0 = st.copy()
    res = invoke_mut(E, s0, f, args)
    if len(res) != 1 or res[0][1] is not f or res[0][0].ev != st.ev:
        return None
    return res[0][2], x, y


@model('Iterator::eq', 'Iterator::ne')
def _(E, st, c):
    a, b = the_iter(E, st, c.args[0]), the_iter(E, st, c.args[1])
    if a is None or b is None:
        return None
    a, b = plain(E, st, a), plain(E, st, b)
    if a is None or b is None:
        return None
    r = seq_eq(st.F.nseq(a), st.F.nseq(b), st.F)
    return [(st, r if c.name == 'eq' else bnot(r))]


@model('Iterator::any', 'Iterator::all', 'Iterator::position', 'Iterator::find')
def _(E, st, c):
    it = the_iter(E, st, c.args[0])
    if it is None:
        return None
    nm = c.name
    zs = zipped(E, st, it) if nm in ('any', 'all') else None
    if zs is not None:
        one = onpair(E, st, it, c.args[1])
        if one is not None:
            v, x, y = one
            same = eq0(lsub(x, y))
            if v is same and nm == 'all' or v is bnot(same) and nm == 'any':
                out = []
                for s, a, b in zs:
                    r = seq_eq(s.F.nseq(a), s.F.nseq(b), s.F)
                    out.append((s, r if nm == 'all' else bnot(r)))
                return out

    def each(s, acc, x):
        out = []
        for s2, f2, v in invoke_mut(E, s, acc[1], [retref(x) if nm == 'find' else x]):
            t, f = E.fork(s2, v) if E.isbool(v) else (s2.copy(), s2)
            hit, miss = (t, f) if nm != 'all' else (f, t)
            if hit is not None:
                r = {'any': TRUE, 'all': FALSE}.get(nm)
                if nm == 'position':
                    r = some(E, c.rty, acc[0])
                if nm == 'find':
                    r = some(E, c.rty, x)
                out.append(('done', hit, r))
            if miss is not None:
                out.append(('next', miss, [ladd(acc[0], I(1)), f2]))
        return out
    fin = {'any': FALSE, 'all': TRUE}.get(nm)
    if fin is None:
        fin = none(E, c.rty)
    return drive(E, st, it, [I(0), c.args[1]], each, lambda s, a: fin)


@model('Iterator::count', 'Iterator::last', 'Iterator::sum', 'Iterator::max', 'Iterator::min', 'Iterator::nth')
def _(E, st, c):
    it = the_iter(E, st, c.args[0])
    if it is None:
        return None
    if c.name == 'count':
        if it[0] == 'iter':
            return [(st, lsub(slen(it[1]), it[2]))]
        return drive(E, st, it, [I(0)], lambda s, acc, x: [('next', s, [ladd(acc[0], I(1))])], lambda s, a: a[0])
    if c.name == 'sum':
        def each(s, acc, x):
            y = E.peek(s, x)
            if y[0] != 'i':
                y = atom(mk('int', mk('sum', E.fresh()), 64))
            r = ladd(acc[0], y)
            s = E.need(s, le0(lsub(r, I(U64MAX))), 'arithmetic overflow (sum)')
            return [('next', s, [r])] if s is not None else []
        return drive(E, st, it, [I(0)], each, lambda s, a: a[0])
    return None


# ------------------------------------------------------------------ callables
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def _(E, st, c):
    a = c.args[1] if len(c.args) > 1 else UNIT
    args = list(a[1]) if a[0] == 'tup' else [a]
    return E.invoke(st, c.args[0], args, c.rty)


# ------------------------------------------------------------------- formatting
def snapshot(E, st, v):
    """the value a formatting argument shows: references to places are replaced by what stands there"""
    return mk('vref', E.peek(st, v)) if v[0] in ('mref', 'vref') else v


@model('alloc::fmt::format', 'fmt::format', 'ToString::to_string')
def _(E, st, c):
    args = tuple(snapshot(E, st, a) for a in c.args)
    E.printed(c.name, args)
    return [(st, whole(mk('text', E.fresh(), args)))]


@model('Arguments::new', 'Arguments::new_v1', 'Arguments::from_str', 'Arguments::new_const', 'Argument::new_display',
       'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_octal',
       'Argument::new_binary', 'Argument::new_pointer', 'Argument::new_lower_exp', 'Argument::new_upper_exp', 'Arguments::as_str', 'Arguments::from_str_nonconst')
def _(E, st, c):
    return [(st, mk('fmtargs', c.name, tuple(snapshot(E, st, a) for a in c.args)))]


@model('log::max_level')
def _(E, st, c):
    return [(st, E.mksym(mk('maxlevel'), c.rty))]


@model('log::__private_api_log', '__private_api::log', 'log::__private_api_enabled0')
def _(E, st, c):
    E.printed(c.name, tuple(snapshot(E, st, a) for a in c.args))
    return [(st, UNIT)]


@model('Formatter::write_str', 'Formatter::write_fmt', 'Formatter::pad', 'Formatter::debug_tuple_field1_finish',
       'Formatter::debug_struct_field1_finish', 'Formatter::debug_struct_field2_finish', 'Formatter::debug_tuple_field2_finish',
       'Formatter::debug_struct_field3_finish', 'Formatter::debug_struct_field4_finish', 'Formatter::debug_struct_field5_finish',
       'Formatter::debug_struct_fields_finish', 'Formatter::debug_tuple_fields_finish',
       'Formatter::debug_c_like_enum_write_str', 'io::_print', 'stdio::_print', 'stdio::_eprint', 'io::_eprint')
def _(E, st, c):
    E.printed(c.name, tuple(c.args[:1]) + tuple(snapshot(E, st, a) for a in c.args[1:]))
    if c.rty >= 0 and E.p.types[c.rty]['k'] == 'adt':
        s2 = st.copy()
        return [(s2, E.mksym(mk('fmtres', E.fresh()), c.rty))]
    return [(st, UNIT)]


# ------------------------------------------------------------------------ ring
@model('SystemRandom::new')
def _(E, st, c):
    return [(st, mk('sym', mk('sysrng'), c.rty))]


def is_sysrng(E, st, v):
    v = E.peek(st, v)
    return v[0] == 'sym' and v[1] is mk('sysrng')


@model('rand::generate')
def _(E, st, c):
    n = E.fresh()
    src = 'os' if is_sysrng(E, st, c.args[0]) else 'other'
    out = [fail(E, st, c.rty, 'random generation')]
    s = st.copy()
    okt = argty(E, c.rty, 0)
    s.event('random', src, E.cur())
    out.append((s, ok(E, c.rty, mk('sym', mk('rng', src, n), okt))))
    return out


@model('Random::expose')
def _(E, st, c):
    v = c.args[0]
    t = E.p.types[c.rty] if c.rty >= 0 else {}
    return [(st, E.mksym(v[1] if v[0] == 'sym' else mk('rng?', v), c.rty))]


@model('SecureRandom::fill', 'SystemRandom::fill')
def _(E, st, c):
    d = E.peek(st, c.args[1])
    if d[0] != 'seq':
        return None
    src = 'os' if is_sysrng(E, st, c.args[0]) else 'other'
    out = [fail(E, st, c.rty, 'random generation')]
    s = st.copy()
    s.event('random', src, E.cur())
    E.put(s, c.args[1], lenof(slen(d), mk('rng', src, E.fresh())))
    out.append((s, ok(E, c.rty, UNIT)))
    return out


@model('EphemeralPrivateKey::generate')
def _(E, st, c):
    alg = E.peek(st, c.args[0])
    src = 'os' if is_sysrng(E, st, c.args[1]) else 'other'
    n = E.fresh()
    out = [fail(E, st, c.rty, 'ephemeral key generation')]
    s = st.copy()
    t = mk('ephpriv', algname(alg), src, n)
    s.event('genkey', t)
    out.append((s, ok(E, c.rty, mk('sym', t, argty(E, c.rty, 0)))))
    return out


def algname(a):
    """name of a ring algorithm static"""
    s = None
    if a[0] == 'sym':
        t = a[1]
        while t[0] in ('deref', 'fld'):
            t = t[1]
        if t[0] in ('static', 'const'):
            s = str(t[1])
    if s is None:
        return str(a)
    import re
    m = re.findall(r'[A-Z][A-Z0-9_]{3,}', s)
    return m[-1] if m else s


@model('EphemeralPrivateKey::compute_public_key')
def _(E, st, c):
    k = E.peek(st, c.args[0])
    out = [fail(E, st, c.rty, 'public key computation')]
    s = st.copy()
    out.append((s, ok(E, c.rty, mk('pubk', fixed(32, mk('ephpub', k[1] if k[0] == 'sym' else k))))))
    return out


@model('UnparsedPublicKey::new')
def _(E, st, c):
    return [(st, mk('upk', E.peek(st, c.args[0]), c.args[1]))]


def upk(E, st, v):
    v = E.peek(st, v)
    if v[0] == 'upk':
        return algname(v[1]), asbytes(E, st, v[2])
    return '?', whole(mk('bytes', v))


@model('agreement::agree_ephemeral')
def _(E, st, c):
    k = c.args[0]
    alg, peer = upk(E, st, c.args[1])
    kt = k[1] if k[0] == 'sym' else k
    n = E.fresh()
    secret = fixed(32, mk('agree', kt, alg, peer))
    out = []
    s = st.copy()
    s.fails = s.fails | {mk('fail', 'key agreement')}
    s.event('agree', kt, alg, peer)
    # error value is passed by the caller, success value comes from the closure
    if len(c.args) == 4:
        t = E.p.types[c.rty] if c.rty >= 0 else None
        if t is None or t['k'] != 'adt':
            return None
        out.append((s, err(E, c.rty, c.args[2])))
        kdf = c.args[3]
    else:
        out.append((s, err(E, c.rty, E.mksym(mk('agreefail', n), argty(E, c.rty, 1)))))
        kdf = c.args[2]
    s2 = st.copy()
    s2.event('agree', kt, alg, peer)
    for s3, v in E.invoke(s2, kdf, [retref(secret)], c.rty):
        out.append((s3, v if len(c.args) == 4 else ok(E, c.rty, v)))
    return out


@model('pbkdf2::derive')
def _(E, st, c):
    alg, it, salt, secret, o = c.args
    iv = E.peek(st, it)
    d = E.peek(st, o)
    if d[0] != 'seq':
        return None
    iters = iv[1] if iv[0] == 'nz' else (iv[3][0] if iv[0] == 'adt' and iv[3] else iv)
    while iters[0] == 'adt' and iters[3]:
        iters = iters[3][0]
    r = lenof(slen(d), mk('pbkdf2', algname(E.peek(st, alg)), iters, asbytes(E, st, salt), asbytes(E, st, secret)))
    E.put(st, o, r)
    return [(st, UNIT)]


@model('digest::digest')
def _(E, st, c):
    alg = algname(E.peek(st, c.args[0]))
    n = {'SHA256': 32, 'SHA384': 48, 'SHA512': 64, 'SHA512_256': 32, 'SHA1_FOR_LEGACY_USE_ONLY': 20}.get(alg)
    q = asbytes(E, st, c.args[1])
    if n is None:
        r = whole(mk('hash', alg, q))
    else:
        r = fixed(n, mk('hash', alg, q))
    return [(st, mk('hash', r))]


@model('digest::Context::new', 'Context::new')
def _(E, st, c):
    return [(st, mk('hctx', algname(E.peek(st, c.args[0])), EMPTY))]


@model('digest::Context::update', 'Context::update')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] != 'hctx':
        return None
    E.put(st, c.args[0], mk('hctx', v[1], scat(v[2], asbytes(E, st, c.args[1]))))
    return [(st, UNIT)]


@model('digest::Context::finish', 'Context::finish')
def _(E, st, c):
    v = c.args[0]
    if v[0] != 'hctx':
        return None
    n = {'SHA256': 32, 'SHA384': 48, 'SHA512': 64}.get(v[1])
    h = mk('hash', v[1], v[2])
    return [(st, mk('hash', fixed(n, h) if n else whole(h)))]


@model('UnparsedPublicKey::verify')
def _(E, st, c):
    alg, key = upk(E, st, c.args[0])
    p = mk('p', mk('sig', alg, st.F.nseq(key), st.F.nseq(asbytes(E, st, c.args[1])), st.F.nseq(asbytes(E, st, c.args[2]))))
    a, b = fork(E, st, p)
    out = []
    if a is not None:
        out.append((a, ok(E, c.rty, UNIT)))
    if b is not None:
        out.append((b, err(E, c.rty, E.mksym(mk('badsig',), argty(E, c.rty, 1)))))
    return out


@model('signature::verify')
def _(E, st, c):
    return None


@model('Ed25519KeyPair::from_seed_unchecked')
def _(E, st, c):
    q = asbytes(E, st, c.args[0])
    out = [fail(E, st, c.rty, 'signature key loading')]
    s = st.copy()
    out.append((s, ok(E, c.rty, mk('sym', mk('edkp', q), argty(E, c.rty, 0)))))
    return out


@model('Ed25519KeyPair::from_pkcs8', 'Ed25519KeyPair::from_seed_and_public_key', 'Ed25519KeyPair::from_pkcs8_maybe_unchecked')
def _(E, st, c):
    out = [fail(E, st, c.rty, 'signature key loading')]
    s = st.copy()
    out.append((s, ok(E, c.rty, mk('sym', mk('edkp?', E.fresh()), argty(E, c.rty, 0)))))
    return out


@model('KeyPair::public_key')
def _(E, st, c):
    k = E.peek(st, c.args[0])
    return [(st, retref(mk('pubk', fixed(32, mk('edpub', k[1] if k[0] == 'sym' else k)))))]


@model('Ed25519KeyPair::sign')
def _(E, st, c):
    k = E.peek(st, c.args[0])
    q = asbytes(E, st, c.args[1])
    kt = k[1] if k[0] == 'sym' else k
    st.event('sign', kt, q)
    return [(st, mk('sigv', fixed(64, mk('edsig', kt, q))))]


# ------------------------------------------------------------------------ aead
@model('aead::encrypt_read', 'chacha20_poly1305_aead::encrypt_read', 'aead::encrypt', 'chacha20_poly1305_aead::encrypt')
def _(E, st, c):
    key, nonce, aad = [st.F.nseq(asbytes(E, st, x)) for x in c.args[:3]]
    src = E.peek(st, c.args[3])
    if src[0] == 'rd':
        pt = src[1]
    elif src[0] == 'seq':
        pt = src
    else:
        pt = whole(mk('rdsrc', src))
    loc, w = writer(E, st, c.args[4])
    if w[0] not in ('w', 'seq'):
        return None
    pt = st.F.nseq(pt)
    out = []
    s, e = fail(E, st, c.rty, 'encryption')
    s.event('enc', key, nonce, aad, pt)
    wappend(E, s, loc, w, whole(mk('partial', E.fresh())))
    out.append((s, e))
    s2 = st.copy()
    s2.event('enc', key, nonce, aad, pt)
    wappend(E, s2, loc, w, lenof(slen(pt), mk('aead', key, nonce, aad, pt)))
    if src[0] == 'rd':
        E.put(s2, c.args[3], mk('rd', EMPTY))
    out.append((s2, ok(E, c.rty, fixed(16, mk('aeadtag', key, nonce, aad, pt)))))
    return out


@model('aead::decrypt', 'chacha20_poly1305_aead::decrypt')
def _(E, st, c):
    key, nonce, aad = [st.F.nseq(asbytes(E, st, x)) for x in c.args[:3]]
    ct = st.F.nseq(asbytes(E, st, c.args[3]))
    tag = st.F.nseq(asbytes(E, st, c.args[4]))
    st = E.need(st, eq0(lsub(slen(tag), I(16))), 'AEAD tag of wrong length')
    if st is None:
        return []
    loc, w = writer(E, st, c.args[5])
    if w[0] not in ('w', 'seq'):
        return None
    cond = mk('p', mk('bool', mk('authentic', key, nonce, aad, ct, tag)))
    out = []
    a, b = fork(E, st, cond)
    if b is not None:
        s, e = fail(E, b, c.rty, 'decryption')
        s.event('dec', key, nonce, aad, ct, tag)
        out.append((s, e))
    if a is not None:
        a.event('dec', key, nonce, aad, ct, tag)
        wappend(E, a, loc, w, lenof(slen(ct), mk('dec', key, nonce, aad, ct, tag)))
        out.append((a, ok(E, c.rty, UNIT)))
    return out


# ---------------------------------------------------------------------- flate2
@model('Compression::none', 'Compression::fast', 'Compression::best', 'Compression::new', 'Compression::default')
def _(E, st, c):
    return [(st, mk('sym', mk('level', c.name, tuple(c.args)), c.rty))]


@model('DeflateEncoder::new', 'DeflateDecoder::new')
def _(E, st, c):
    w = c.args[0]
    path = P.norm(c.fn['path'])
    kind = 'denc' if 'Encoder' in path else 'ddec'
    if '::read::' in path or '::bufread::' in path:
        x = E.peek(st, w)
        q = x[1] if x[0] == 'rd' else (x if x[0] == 'seq' else None)
        if q is None:
            return None
        if kind == 'denc':
            return [(st, mk('rd', whole(mk('zip', c.args[1] if len(c.args) > 1 else UNIT, q))))]
        return [(st, mk('rd', whole(mk('unzip', q))))]
    return [(st, mk('w', kind, EMPTY, mk('tup', (w, c.args[1] if len(c.args) > 1 else UNIT))))]


@model('DeflateEncoder::finish', 'DeflateDecoder::finish', 'DeflateEncoder::try_finish', 'DeflateDecoder::try_finish')
def _(E, st, c):
    v = c.args[0]
    loc = None
    if v[0] == 'mref':
        loc = E.target(st, v)
        v = E.peek(st, v)
    if v[0] != 'w' or v[1] not in ('denc', 'ddec', 'fin'):
        return None
    inner, lvl = v[3][1]
    if v[1] == 'fin':
        return [(st, ok(E, c.rty, UNIT if c.name == 'try_finish' else inner))]
    out = [fail(E, st, c.rty, 'compress' if v[1] == 'denc' else 'decompress')]
    data = mk('zip', lvl, v[2]) if v[1] == 'denc' else mk('unzip', v[2])
    q = whole(data)
    s = st.copy()
    if inner[0] == 'seq':
        r = scat(inner, q)
    elif inner[0] == 'w':
        r = mk('w', inner[1], scat(inner[2], q), None if inner[1] == 'vec' else inner[3])
    elif inner[0] == 'mref':
        wl, w = writer(E, s, inner)
        wappend(E, s, wl, w, q)
        r = inner
    else:
        r = E.mksym(mk('flate', E.fresh()), argty(E, c.rty, 0))
    s.event('zip' if v[1] == 'denc' else 'unzip', v[2])
    if c.name == 'try_finish':
        if loc is None:
            return None
        E.store(s, loc[0], loc[1], mk('w', 'fin', EMPTY, mk('tup', (r, lvl))))
        r = UNIT
    out.append((s, ok(E, c.rty, r)))
    return out


# ----------------------------------------------------------------- serde codecs
def codec(path):
    p = path.split('::')[0]
    return {'serde_json': 'json', 'serde_cbor': 'cbor', 'bincode': 'bincode'}.get(p, p)


def okres(E, c):
    return c.rty >= 0 and E.p.types[c.rty]['k'] == 'adt'


@model('serde_json::ser::to_writer', 'serde_cbor::ser::to_writer', 'bincode::serialize_into', 'serde_json::to_writer',
       'serde_cbor::to_writer')
def _(E, st, c):
    loc, w = writer(E, st, c.args[0])
    if w[0] not in ('w', 'seq'):
        return None
    m = E.peek(st, c.args[1])
    k = codec(P.norm(c.fn['path']))
    s, e = fail(E, st, c.rty, 'serialization')
    s2 = st.copy()
    wappend(E, s2, loc, w, whole(mk('ser', k, m)))
    return [(s, e), (s2, ok(E, c.rty, UNIT))]


@model('serde_json::ser::to_vec', 'serde_cbor::ser::to_vec', 'bincode::serialize', 'serde_json::ser::to_string')
def _(E, st, c):
    m = E.peek(st, c.args[0])
    k = codec(P.norm(c.fn['path']))
    return [fail(E, st, c.rty, 'serialization'), (st.copy(), ok(E, c.rty, whole(mk('ser', k, m))))]


@model('serde_json::de::from_slice', 'serde_cbor::de::from_slice', 'bincode::deserialize')
def _(E, st, c):
    q = asbytes(E, st, c.args[0])
    k = codec(P.norm(c.fn['path']))
    s2 = st.copy()
    return [fail(E, st, c.rty, 'deserialization'),
            (s2, ok(E, c.rty, mk('sym', mk('de', k, st.F.nseq(q)), argty(E, c.rty, 0))))]


@model('serde_json::de::from_reader', 'serde_cbor::de::from_reader', 'bincode::deserialize_from')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    q = v[1] if v[0] == 'rd' else (v if v[0] == 'seq' else None)
    if q is None:
        return None
    k = codec(P.norm(c.fn['path']))
    s2 = st.copy()
    return [fail(E, st, c.rty, 'deserialization'),
            (s2, ok(E, c.rty, mk('sym', mk('de', k, st.F.nseq(q)), argty(E, c.rty, 0))))]


# --------------------------------------------------------------------- zeroize
@model('Zeroize::zeroize')
def _(E, st, c):
    v = E.peek(st, c.args[0])
    if v[0] == 'seq':
        n = slen(v)
        t = E.p.types[c.fn['self']] if c.fn.get('self') is not None else {}
        st.event('zeroize', v)
        E.put(st, c.args[0], mkseq([mk('rep', I(0), n, True)]) if t.get('k') in ('array', 'slice', None) else EMPTY)
        return [(st, UNIT)]
    if v[0] == 'i':
        E.put(st, c.args[0], I(0))
        return [(st, UNIT)]
    return None


@model('panic::catch_unwind')
def _(E, st, c):
    return None
