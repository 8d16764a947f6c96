"""Secrets in memory and in printed output, features, type-level facts (C15, C16, C25, C26)."""
import itertools
import multiprocessing
import os
import tomllib
import build
import interp
import rules_com
from base import *
from mini import *
from rules_send import leafterm, selfpath_any

SECRETS = ('pbkdf2', 'agree')           # bytes derived from the agreement


# ----------------------------------------------------------------- plumbing
class Types:
    def __init__(self, p):
        self.p = p
        self.rolenames = {}

    def name(self, ty):
        return self.p.types[ty]['s']

    def local(self, ty):
        t = self.p.types[ty]
        return t['k'] == 'adt' and t.get('local')

    def bytesty(self, ty):
        e = self.p.seq_elem(ty)
        return e is not None and self.p.isu8(e)

    def contains(self, ty, pred, seen=None):
        seen = set() if seen is None else seen
        if ty is None or ty < 0 or ty in seen:
            return False
        seen.add(ty)
        if pred(ty):
            return True
        t = self.p.types[ty]
        if t['k'] == 'adt':
            return any(self.contains(f['ty'], pred, seen) for v in t['variants'] for f in v['fields']) or \
                any(isinstance(a, int) and self.contains(a, pred, seen) for a in t['args'])
        if t['k'] == 'tuple':
            return any(self.contains(x, pred, seen) for x in t['tys'])
        if t['k'] in ('array', 'slice', 'ref', 'ptr'):
            return self.contains(t['ty'], pred, seen)
        return False

    def chain(self, ty, path):
        """local types passed on the way from a value of type ty to the leaf at path, outermost first"""
        return self.walk(ty, path)[0]

    def walk(self, ty, path):
        """(chain, field path below its last type)"""
        out = []
        below = []
        for var, i in path:
            t = self.p.types[ty]
            while t['k'] == 'ref':
                ty = t['ty']
                t = self.p.types[ty]
            if t['k'] == 'tuple':
                ty = t['tys'][i]
                below.append((var, i))
                continue
            if t['k'] != 'adt' or var >= len(t['variants']) or i >= len(t['variants'][var]['fields']):
                break
            if t.get('local') or keepsalive(t) or wipes(t):
                out.append(ty)
                below = []
            below.append((var, i))
            ty = t['variants'][var]['fields'][i]['ty']
        t = self.p.types[ty]
        if t['k'] == 'adt' and (t.get('local') or wipes(t)):
            out.append(ty)
            below = []
        return out, tuple(below)


def keepsalive(t):
    """its contents are never dropped"""
    return t['path'] in ('core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit',
                         'core::mem::ManuallyDrop', 'core::mem::MaybeUninit')


def wipes(t):
    return t['path'].split('::')[-1] == 'Zeroizing' and t['path'].startswith('zeroize')


def leaves(p, v, chain=(), sub=()):
    """(chain of types, field path below the innermost, bytes) of the values owned by v"""
    k = v[0]
    if k == 'adt':
        t = p.types[v[1]]
        if t.get('local') or keepsalive(t) or wipes(t):
            chain, sub = chain + (v[1],), ()
        for i, x in enumerate(v[3]):
            yield from leaves(p, x, chain, sub + ((v[2], i),))
    elif k == 'tup':
        for i, x in enumerate(v[1]):
            yield from leaves(p, x, chain, sub + ((0, i),))
    elif k == 'seq':
        yield chain, sub, v
        for s in v[1]:
            if s[0] == 'one' and s[1][0] in ('adt', 'tup', 'seq'):
                yield from leaves(p, s[1], chain, sub)
    elif k == 'w':
        for x in v[1:]:
            if isinstance(x, tuple) and x and x[0] in ('seq', 'adt', 'w'):
                yield from leaves(p, x, chain, sub)


def bases(q):
    """terms the bytes of a sequence are taken from"""
    for s in q[1]:
        if s[0] == 'sub':
            yield s[1]
        elif s[0] == 'one' and s[1][0] == 'i':
            for a, _ in s[1][2]:
                if a[0] == 'byte':
                    yield a[1]


def root(b):
    while b[0] in ('fixed', 'lenof') or b[0] in ('bytes', 'deref'):
        b = b[2] if b[0] in ('fixed', 'lenof') else b[1]
    return b


def peel(t):
    """(outermost term, field path below it)"""
    path = []
    while t[0] in ('fld', 'pf'):
        path.append((t[2], t[3]))
        t = t[1]
    return t, tuple(reversed(path))


class Observer:
    def __init__(self):
        self.seen = {}

    def __call__(self, kind, f, sp, ty, v, local, rootkey):
        k = (kind, f.key, ty, v, rootkey)
        if k not in self.seen:
            self.seen[k] = (f, sp, local)


def observed(ctx):
    """explore both layers and the other exported functions with an observer of dying values"""
    if getattr(ctx, 'obs', None) is None:
        ctx.obs = interp.Engine.observer = Observer()
        ctx.obs.worlds = ctx.worlds()
        ctx.obs.roots = ctx.roots.runs
        ctx.obs.inner = inner_runs(ctx)
        interp.Engine.observer = None
    return ctx.obs


def symrun(p, r, E=None):
    E = E or interp.Engine(p)
    cells, args, tys = {}, [], {}
    for i, ty in enumerate(r['inputs']):
        t = p.types[ty]
        if t['k'] == 'ref' and t['mut']:
            nm = 'arg%d' % i
            cells[('root', nm)] = E.mksym(mk('arg', i), t['ty'])
            tys[nm] = t['ty']
            args.append(mk('mref', ('root', nm), ()))
        else:
            args.append(E.mksym(mk('arg', i), ty))
    return E.run(r['key'], args, cells, tys)


def inner_runs(ctx):
    """internal functions that produce key material: analysed alone, for every argument"""
    T = Types(ctx.p)
    out = []
    for r in ctx.p.roots:
        if r['exported'] or r['derived'] or r['impl_trait']:
            continue
        if not reaches(ctx.p, r['key'], ('pbkdf2::derive', 'agreement::agree_ephemeral')):
            continue
        if r['has_self'] and r['inputs']:
            t = ctx.p.types[r['inputs'][0]]
            if t['k'] == 'ref' and t['mut']:
                continue            # layer internals: covered through the exported operations
        out.append((r, symrun(ctx.p, r)))
    return out


def callees(p, key):
    f = p.fn(key)
    if f is None:
        return
    for b in f.blocks:
        if b is None:
            continue
        t = b['t']
        if t['k'] == 'call' and isinstance(t['f'], dict):
            yield t['f']
        for s in b['s']:
            for c in fnconsts(s):
                yield c
        for a in (t.get('args') or []):
            for c in fnconsts(a):
                yield c


def fnconsts(x):
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], dict):
            yield x['fn']
        else:
            for y in x.values():
                yield from fnconsts(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from fnconsts(y)


def reaches(p, key, ends, seen=None):
    seen = set() if seen is None else seen
    if key in seen:
        return False
    seen.add(key)
    for c in callees(p, key):
        if any(c['path'].split('<')[0].endswith(e) for e in ends):
            return True
        k = (c.get('inst') or {}).get('key')
        if k and p.has(k) and reaches(p, k, ends, seen):
            return True
    return False


# ---------------------------------------------------------------------- C15
def wipe_table(ctx):
    """{type: None if every byte it holds is overwritten by its Drop, else what is left}"""
    p = ctx.p
    out = {}
    for r in p.roots:
        if r['impl_trait'] != 'core::ops::drop::Drop' or not r['inputs']:
            continue
        ty = p.types[r['inputs'][0]]['ty']
        if not Types(p).local(ty):
            continue
        E = interp.Engine(p)
        cells = {('root', 'self'): E.mksym(mk('self'), ty)}
        s = E.run(r['key'], [mk('mref', ('root', 'self'), ())], cells, {'self': ty})
        left = None
        if s.unknown or not s.exits:
            left = 'undecided'
        for x in s.exits:
            left = left or survives(E, x.st.cells[('root', 'self')])
        out[ty] = left
    return out


def survives(E, v):
    """what of `self` a wiped value still holds"""
    k = v[0]
    if k == 'adt':
        for x in v[3]:
            l = survives(E, x)
            if l:
                return l
    elif k == 'tup':
        for x in v[1]:
            l = survives(E, x)
            if l:
                return l
    elif k == 'seq':
        for s in v[1]:
            if s[0] == 'sub' and peel(root(s[1]))[0][0] == 'self':
                return show(v)[:200]
            if s[0] == 'one':
                l = survives(E, s[1])
                if l:
                    return l
    elif k == 'i':
        for a, _ in v[2]:
            if peel(root(a[1]))[0][0] == 'self':
                return show(v)[:200]
    elif k == 'sym':
        if v[2] is not None and v[2] >= 0 and holdsbytes(E, v[2]):
            return show(v)[:200]
    return None


def holdsbytes(E, ty):
    return Types(E.p).contains(ty, lambda x: E.p.seq_elem(x) is not None)


def secret_of(ctx, obs):
    """predicate: the bytes of this term are secret (None or what they are)"""
    M = ctx.min
    T = Types(ctx.p)
    keyp = set()
    for k in M.keyleaf:
        for q in k:
            l = leafterm(q)
            sp = selfpath_any(l) if l is not None else None
            if sp is not None:
                keyp.add(sp)
    seedargs, drawn = set(), set()
    for G in obs.worlds:
        for r in G.runs:
            for x in r.sum.exits:
                for v in list(x.st.cells.values()) + [x.ret]:
                    for t in atoms_in(v):
                        if t[0] == 'edkp' and t[1][0] == 'seq':
                            for b in bases(t[1]):
                                rt, path = peel(root(b))
                                if rt[0] == 'rng':
                                    drawn.add(rt)
                                if rt[0] == 'arg':
                                    ch, below = T.walk(r.root['inputs'][rt[1]], path)
                                    if ch:
                                        seedargs.add((ch[-1], below))

    def secret(b, inputs, rng):
        b = root(b)
        if b[0] in SECRETS:
            return 'key material from the agreement'
        if b[0] == 'rng' and rng:
            return 'a random seed'
        rt, path = peel(b)
        if rt[0] == 'self' or (rt[0] == 'phi' and rt[2] == ('root', 'self')):
            if any(path[-len(k):] == k for k in keyp if k):
                return 'session key bytes'
        if rt[0] == 'arg' and inputs is not None and rt[1] < len(inputs):
            ch, below = T.walk(inputs[rt[1]], path)
            if ch and (ch[-1], below) in seedargs:
                return SEED
        if b in drawn:
            return SEED
        return None
    return secret, keyp, seedargs


def storing(ctx, obs):
    """where secret bytes are: {(innermost type, field path): (kind, key, what, chain, sample)} and the seed types"""
    p = ctx.p
    T = Types(p)
    secret, keyp, seedargs = secret_of(ctx, obs)
    out = []
    for G in obs.worlds:
        for n, r, x, suc, born in G.cases():
            for cell, v in x.st.cells.items():
                if cell[0] != 'root':
                    continue
                for chain, sub, q in leaves(p, v):
                    for b in bases(q):
                        s = secret(b, r.root['inputs'], False)
                        if s and s != SEED:
                            out.append(('kept', r.key, 'keeps ' + s, chain, sub))
    M = ctx.min
    for kp in sorted(keyp):
        ch, below = T.walk(layer_ty(ctx, 'MinimalSecureLayer'), kp)
        out.append(('session-key', M.pathname(kp), 'session key bytes', tuple(ch), below))
    for r, s, *_ in list(obs.roots) + list(obs.inner):
        for x in s.exits:
            for v in [x.ret] + list(x.st.cells.values()):
                for chain, sub, q in leaves(p, v):
                    for b in bases(q):
                        w = secret(b, None, bool(chain))
                        if w:
                            out.append(('made', r['key'], 'returns ' + w, chain, sub))
    for ty, sub in sorted(seedargs):
        out.append(('seed', T.name(ty), SEED, (ty,), sub))
    return sorted(set(out)), secret


SEED = 'the signature seed'


def C15(ctx, rep):
    p = ctx.p
    T = Types(p)
    table = wipe_table(ctx)
    obs = observed(ctx)
    stored, secret = storing(ctx, obs)
    wiped = {ty for ty, l in table.items() if l is None}

    def protected(chain):
        """a wiping type encloses the bytes and gets dropped"""
        for ty in chain:
            t = p.types[ty]
            if keepsalive(t):
                return False
            if ty in wiped or wipes(t):
                return True
        return False

    def why(chain):
        for ty in chain:
            if keepsalive(p.types[ty]):
                return 'inside %s, whose contents are never dropped' % T.name(ty)
        for ty in chain:
            if table.get(ty):
                return 'in %s, whose Drop leaves %s' % (T.name(ty), table[ty])
        return 'in %s, which is not overwritten when dropped' % (' > '.join(T.name(t) for t in chain) or 'plain storage')
    # 1. where secrets are kept
    for rule, key, what, chain, sub in stored:
        rep.check(protected(chain), rule, '%s/%s' % (key, '>'.join(T.name(t) for t in chain)),
                  '%s: %s %s' % (key, what, why(chain)), sample='%s: %s' % (key, ' > '.join(T.name(t) for t in chain)))
    for ty in sorted({c[3][-1] for c in stored if c[3]}):
        rep.check(True, 'storing-type', T.name(ty), '', sample=T.name(ty))

    # 2. values that end their life
    inputs = {r['key']: r['inputs'] for r in p.roots}
    for (kind, key, ty, v, rootkey), (f, sp, local) in obs.seen.items():
        if kind == 'dead' and (needs_drop(p, ty) or moved(f, local)):
            continue
        for chain, sub, q in leaves(p, v):
            if kind == 'dead' and not chain:
                continue            # bare byte arrays in locals: registers and stack temporaries
            for b in bases(q):
                s = secret(b, inputs.get(rootkey), False)
                if s:
                    rep.check(protected(chain), 'dropped', '%s/%s' % (key, T.name(ty)), '%s drops %s %s (at %s)' %
                              (key, s, why(chain), sp), sample='%s: %s' % (key, T.name(ty)))

    # storage that is never dropped, or of which nothing is known
    runs = [(r.key, r.root['inputs'], r.sum) for G in obs.worlds for r in G.runs]
    runs += [(r['key'], r['inputs'], s) for r, s, *_ in list(obs.roots) + list(obs.inner)]
    for key, ins, s in runs:
        hit = None
        for e, st in all_events(s):
            if e[1] != 'unknown' or not any(w in str(e[2]) for w in SHARED):
                continue
            for b in term_bases(mk('tup', tuple(e[3]))):
                w = secret(b, ins, False)
                if w:
                    hit = '%s puts %s in storage that outlives it: %s' % (key, w, show(e)[:160])
        rep.check(hit is None, 'shared-storage', key, hit or '', sample=key)

    # 3. what keeps values of the storing types from being dropped
    types = {c[3][-1] for c in stored if c[3]}
    holder = lambda x: x in types or x in wiped
    for key in p.local_fns():
        f = p.fn(key)
        for b in f.blocks:
            if b is None or b['t']['k'] != 'call' or not isinstance(b['t']['f'], dict):
                continue
            c = b['t']['f']
            path = c['path'].split('<')[0]
            if not path.endswith(LEAKS):
                continue
            tys = [a for a in (c.get('args') or []) if isinstance(a, int)]
            rep.check(not any(T.contains(a, holder) for a in tys), 'leaks', key, '%s calls %s on a value holding secrets (%s)' %
                      (key, c['path'], b['sp']))
    for ty, l in table.items():
        rep.assume.add('Drop of %s, analysed: %s' % (T.name(ty), l or 'all bytes overwritten'))
    rep.floor('session-key', 3)
    rep.floor('seed', 1)
    rep.floor('made', 2)
    rep.floor('dropped', 1)
    rep.floor('storing-type', 3)


SHARED = ('LocalKey', 'OnceLock', 'OnceCell', 'LazyLock', 'Mutex', 'RwLock', 'RefCell', 'cell::Cell', 'mpsc', 'thread::')


def term_bases(v, seen=None):
    """bases of all byte sequences inside a value"""
    seen = set() if seen is None else seen
    if not isinstance(v, tuple) or v in seen:
        return
    seen.add(v)
    if v and v[0] == 'seq':
        yield from bases(v)
    elif v and v[0] == 'sym':
        yield v[1]
    for y in v:
        yield from term_bases(y, seen)


LEAKS = ('mem::forget', 'ManuallyDrop::new', 'Box::leak', 'Vec::leak', 'Box::into_raw', 'MaybeUninit::new', 'mem::take_unchecked',
         'Arc::into_raw', 'Rc::into_raw', 'String::leak')


def needs_drop(p, ty, seen=None):
    seen = set() if seen is None else seen
    if ty in seen:
        return False
    seen.add(ty)
    t = p.types[ty]
    if t['k'] == 'adt':
        for a in p.adts:
            if a['ty'] == ty:
                return a['needs_drop']
        if keepsalive(t):
            return False
        if t.get('box') or p.seq_elem(ty) is not None or not t.get('expanded', True):
            return True
        return any(needs_drop(p, f['ty'], seen) for v in t['variants'] for f in v['fields'])
    if t['k'] == 'tuple':
        return any(needs_drop(p, x, seen) for x in t['tys'])
    if t['k'] == 'array':
        return needs_drop(p, t['ty'], seen)
    return False


def moved(f, local):
    """some instruction moves the local, or a part of it, elsewhere"""
    def has(x):
        if isinstance(x, dict):
            return any(has(y) for y in x.values())
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == 'm' and isinstance(x[1], (list, tuple)) and x[1] and x[1][0] == local:
                return True
            return any(has(y) for y in x)
        return False
    return any(b is not None and (has(b['s']) or has(b['t'])) for b in f.blocks)


def layer_ty(ctx, name):
    for i, t in enumerate(ctx.p.types):
        if t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == name:
            return i


# ---------------------------------------------------------------------- C16
def shown(p, v, secret, loops, seen=None):
    """secret bytes that reach the output when v is printed, other than through the formatter of a type of the crate"""
    seen = set() if seen is None else seen
    if not isinstance(v, tuple) or not v or v in seen:
        return
    seen.add(v)
    k = v[0]
    if k == 'adt' and p.types[v[1]].get('local'):
        return
    if k in ('mref', 'fn', 'p', 'np'):
        return
    if k == 'seq':
        for s in v[1]:
            if s[0] == 'sub':
                yield from base_shown(p, s[1], secret, loops, seen)
            elif s[0] in ('one', 'rep'):
                for y in s[1:]:
                    yield from shown(p, y, secret, loops, seen)
        return
    if k == 'i':
        for a, _ in v[2]:
            if a[0] == 'byte':
                yield from base_shown(p, a[1], secret, loops, seen)
            elif a[0] == 'int':
                yield from base_shown(p, a[1], secret, loops, seen)
        return
    if k == 'sym':
        if v[2] is not None and v[2] >= 0 and p.types[v[2]]['k'] == 'adt' and p.types[v[2]].get('local'):
            return
        yield from base_shown(p, v[1], secret, loops, seen)
        return
    for y in v[1:]:
        if isinstance(y, tuple):
            if y and isinstance(y[0], str):
                yield from shown(p, y, secret, loops, seen)
            else:
                for z in y:
                    if isinstance(z, tuple) and z and isinstance(z[0], str):
                        yield from shown(p, z, secret, loops, seen)


def base_shown(p, b, secret, loops, seen):
    b = root(b)
    if b in seen:
        return
    seen.add(b)
    s = secret(b)
    if s:
        yield s, b
        return
    if b[0] == 'text':
        for a in b[2]:
            yield from shown(p, a, secret, loops, seen)
    elif b[0] == 'seqbase':
        yield from shown(p, b[1], secret, loops, seen)
    elif b[0] in ('tb', 'elem', 'bytes'):
        yield from base_shown(p, b[1], secret, loops, seen)
    for l in loops:
        if b in l.phis:
            e, bs = l.phis[b]
            yield from shown(p, e, secret, loops, seen)
            for x in bs:
                yield from shown(p, x[1], secret, loops, seen)


def all_events(s):
    """(event, loops) of an analysed function, events of loop iterations included"""
    loops = list(s.loops.values())
    for x in s.exits:
        for e in x.st.ev:
            yield e, x.st
    for l in loops:
        for _, _, ev in l.backs:
            for e in ev or ():
                yield e, None
    for e in dict.fromkeys(s.prints):
        yield e, None


PRINTING = ('fmt', 'print', 'log', 'debug', 'display', 'trace', 'write_str', 'panic', 'dbg')


def C16(ctx, rep):
    p = ctx.p
    T = Types(p)
    obs = observed(ctx)
    stored, secret = storing(ctx, obs)
    spots = {(c[3][-1], c[4]) for c in stored if c[3]}
    types = {ty for ty, _ in spots}

    def isspot(ty, path):
        ch, below = T.walk(ty, path)
        return any(ch[-1:] == [t] and (below[:len(sub)] == sub or sub[:len(below)] == below) for t, sub in spots)

    # 1. every formatting implementation
    for r in p.roots:
        if not (r['impl_trait'] or '').startswith('core::fmt::') or not r['inputs']:
            continue
        t = p.types[r['inputs'][0]]
        if t['k'] != 'ref':
            continue
        ty = t['ty']
        E = interp.Engine(p)
        selfv = E.mksym(mk('self'), ty)
        cells = {('root', 'f'): E.mksym(mk('arg', 1), p.types[r['inputs'][1]]['ty'])}
        s = E.run(r['key'], [mk('vref', selfv), mk('mref', ('root', 'f'), ())], cells, {'f': p.types[r['inputs'][1]]['ty']})

        def sec(b, ty=ty):
            rt, path = peel(b)
            return rt[0] == 'self' and isspot(ty, path) and 'secret bytes'
        n = 0
        loops = list(s.loops.values())
        for e, _ in all_events(s):
            if e[1] not in ('print', 'unknown'):
                continue
            n += 1
            for what, b in shown(p, mk('tup', tuple(e[3])), sec, loops):
                rep.check(False, 'formatter', r['key'], '%s prints %s: %s' % (r['key'], T.name(ty), show(b)[:160]),
                          [show(e)[:400]])
        holds = T.contains(ty, lambda x: x in types)
        rep.check(bool(n) or not s.exits, 'formatter', r['key'], '%s prints nothing that could be analysed' % r['key'],
                  sample='%s%s' % (r['key'], ' (holds secrets)' if holds else ''))
        if holds:
            rep.check(True, 'formatter-of-holder', r['key'], '', sample=r['key'])

    # 2. what operations print, and what their errors carry
    runs = [(r.key, r.root['inputs'], r.sum) for G in obs.worlds for r in G.runs]
    runs += [(r['key'], r['inputs'], s) for r, s, *_ in list(obs.roots) + list(obs.inner)]
    for key, inputs, s in runs:
        loops = list(s.loops.values())
        sec = lambda b: secret(b, inputs, False)
        bad = set()
        for e, st in all_events(s):
            if e[1] == 'print' or (e[1] == 'unknown' and any(w in str(e[2]).lower() for w in PRINTING)):
                for what, b in shown(p, mk('tup', tuple(e[3])), sec, loops):
                    bad.add('prints %s: %s' % (what, show(e)[:200]))
        for b in sorted(bad):
            rep.check(False, 'printed', key, '%s %s' % (key, b))
        rep.check(not bad, 'operation', key, '%s prints secrets' % key, sample=key)
        for x in s.exits:
            v = x.ret
            if v[0] == 'adt' and p.isadt(v[1], 'Result') and v[2] == 1:
                hit = None
                for chain, sub, q in leaves(p, v):
                    if any(ty in types and any(ty == t and sub[:len(b)] == b for t, b in spots) for ty in chain):
                        continue
                    for w, b in shown(p, q, sec, loops):
                        hit = '%s (%s)' % (w, show(b)[:100])
                rep.check(hit is None, 'error', key, '%s returns an error carrying %s' % (key, hit), sample=show(v)[:150])
    rep.floor('formatter', 20)
    rep.floor('formatter-of-holder', 4)
    rep.floor('operation', 15)
    rep.floor('error', 10)


# ---------------------------------------------------------------------- C25
LAYER_OPS = {
    '': (('MinimalSecureLayer', ('create', 'create_connect_message', 'create_ack_message', 'write_message', 'read', 'change_config',
                                 'try_clone')),
         ('Seed32', ('new', 'random'))),
    'zip-sign': (('SecureLayer', ('create', 'write_connect_msg_bin', 'write_ack_msg_bin', 'write_bin', 'read_bin', 'change_config',
                                  'try_clone')),),
    'ser': (('SecureLayer', ('write_connect_msg', 'write_ack_msg', 'write', 'read')),),
}
FORMATS = {'ser': ('RawBinary', 'Utf8PlainText'), 'json': ('Utf8Json',), 'cbor': ('Cbor',), 'bin': ('Bincode',)}


def configurations(thorough):
    """[(selected, set of active features)], one per distinct set of active features"""
    d = tomllib.load(open(os.path.join(build.REPO, 'Cargo.toml'), 'rb'))
    named = dict(d.get('features', {}))
    named.pop('default', None)
    text = [x for v in named.values() for x in v]
    implicit = [k for k, v in d.get('dependencies', {}).items() if isinstance(v, dict) and v.get('optional') and
                'dep:' + k not in text and k not in named]

    def closure(sel):
        out, todo = set(), list(sel)
        while todo:
            f = todo.pop()
            if f in out or '/' in f or f.startswith('dep:'):
                continue
            out.add(f)
            todo += named.get(f, ())
        return frozenset(out)
    base = sorted(named)
    seen = {}

    def add(sel):
        seen.setdefault(closure(sel), tuple(sel))
    for n in range(len(base) + 1):
        for c in itertools.combinations(base, n):
            add(c)
    nbase = len(seen)
    for f in implicit:
        add((f,))
    add(tuple(implicit))
    if thorough:
        every = sorted(named) + implicit
        if len(every) <= 14:
            for n in range(len(every) + 1):
                for c in itertools.combinations(every, n):
                    add(c)
    return [(sel, act) for act, sel in seen.items()], nbase


def toolchain():
    """the toolchain the repository is built with"""
    rc, o = build.run(['rustup', 'toolchain', 'list'], build.HERE)
    return '1.77.2' if rc == 0 and '1.77.2' in o else None


def flags(sel):
    return '--no-default-features' + (' --features ' + ','.join(sel) if sel else '')


def codecs_of(f):
    """rules of C21 in one configuration (run in a process of its own)"""
    import ctx as C
    rep = Report('C25')
    rep.prefix = '[%s] ' % f
    try:
        c = C.Ctx(f)
        names, written = rules_com.format_codes(c, rep)
        if names is not None:
            rules_com.format_codecs(c, rep, names, written)
        rep.finish()
        return f, names, rep.n, rep.failed, [(k, v.text) for k, v in rep.bad.items()]
    except build.BuildError as e:
        return f, None, {}, {}, [(('builds', f), str(e)[-1500:])]
    except Exception as e:                       # noqa: BLE001 - fail closed
        return f, None, {}, {}, [(('decided', f), 'the analysis could not decide %s: %s' % (f, e))]


def C25(ctx, rep, thorough=False):
    import ctx as C
    confs, nbase = configurations(thorough)
    tc = toolchain()
    tgt = os.path.join(build.CACHE, 'conf-target')
    built = []
    with build.Lock('conf'):
        for sel, act in confs:
            f = flags(sel)
            env = {'CARGO_TARGET_DIR': tgt, 'RUSTFLAGS': ''}
            if tc:
                env['RUSTUP_TOOLCHAIN'] = tc
            rc, o = build.run(['cargo', 'check', '--lib', '--locked', '--offline', '--color', 'never'] + f.split(), build.REPO, env)
            errs = [l for l in o.splitlines() if l.startswith('error') or l.strip().startswith('-->')]
            rep.check(rc == 0, 'builds', f, 'the library does not compile with the features {%s}: %s' %
                      (', '.join(sorted(act)) or 'none', '; '.join(errs)[:400]), o.splitlines()[-30:], sample=f)
            if rc == 0:
                built.append((sel, act))
    # what each configuration offers
    for sel, act in built[:nbase]:
        f = flags(sel)
        try:
            c = C.Ctx(f)
        except build.BuildError as e:
            rep.fail('builds', f, 'the library does not compile with the features {%s}: %s' % (', '.join(sorted(act)), str(e)[-400:]))
            continue
        have = {e[1] for e in c.p.exports}
        names = {strip(h) for h in have}
        for feat, ops in LAYER_OPS.items():
            if feat and feat not in act:
                continue
            for ty, fns in ops:
                for fn in fns:
                    rep.check('%s::%s' % (ty, fn) in names, 'offers', '%s %s::%s' % (f, ty, fn), 'with the features {%s} the '
                              'library does not offer %s::%s' % (', '.join(sorted(act)) or 'none', ty, fn),
                              sample='%s: %s::%s' % (f, ty, fn))
        for t in c.p.types:
            if t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == 'MessageFormat':
                vs = {v['name'] for v in t['variants']}
                for feat, fm in FORMATS.items():
                    if feat in act:
                        for v in fm:
                            rep.check(v in vs, 'offers', '%s format %s' % (f, v), 'with the features {%s} the format %s does not '
                                      'exist' % (', '.join(sorted(act)), v))
                break
        else:
            rep.check('ser' not in act, 'offers', '%s formats' % f, 'with the features {%s} the library offers no message format' %
                      ', '.join(sorted(act)))
    # each format works in each configuration that names it
    todo = [flags(sel) for sel, act in built[:nbase] if 'ser' in act]
    with multiprocessing.get_context('fork').Pool(min(8, max(1, len(todo)))) as pool:
        for f, names, n, failed, bad in pool.imap_unordered(codecs_of, todo):
            for k, v in n.items():
                rep.ok('format: ' + k, n=v - failed.get(k, 0))
            for (rule, key), text in bad:
                rep.fail('format: ' + rule, '%s %s' % (f, key), text)
            rep.ok('format-works', sample=f)
    rep.units['configurations'] = len(confs)
    rep.units['toolchain'] = tc or 'default'
    rep.floor('builds', 10)
    rep.floor('offers', 80)
    rep.floor('format-works', 8)


def strip(path):
    from prog import strip_generics
    q = strip_generics(path).split('::')
    return '::'.join(q[-2:])


# ---------------------------------------------------------------------- C26
def C26(ctx, rep):
    p = ctx.p
    T = Types(p)
    by = {a['ty']: a for a in p.adts}
    short = lambda ty: p.types[ty]['path'].split('::')[-1]
    tr_ = lambda ty: {x.split('::')[-1] for x in by[ty]['traits']}
    layers = [ty for ty in by if short(ty) in ('MinimalSecureLayer', 'SecureLayer')]
    config = [ty for ty in by if short(ty) == 'SecureLayerConfig']
    rep.check(bool(config), 'shareable', 'configuration', 'no layer configuration type')
    for ty in layers + config:
        for m in ('Send', 'Sync'):
            rep.check(m in tr_(ty), 'shareable', '%s %s' % (T.name(ty), m), '%s is not %s' % (T.name(ty), m), sample='%s: %s' % (T.name(ty), m))
    # duplicating a layer
    islayer = lambda x: x in layers
    for ty in layers:
        for m in ('Clone', 'Copy'):
            rep.check(m not in tr_(ty), 'no-silent-copy', '%s %s' % (T.name(ty), m), '%s is %s: a layer can be duplicated without the '
                      'check of its clone operation' % (T.name(ty), m), sample='%s: not %s' % (T.name(ty), m))
        for v in p.types[ty]['variants']:
            for f in v['fields']:
                rep.check(not f['pub'] or not by[ty]['exported'], 'fields-private', '%s.%s' % (T.name(ty), f['name']),
                          '%s.%s can be taken or replaced from outside' % (T.name(ty), f['name']))
    for r in p.roots:
        if not r['exported'] or not r['inputs'] or not T.contains(r['output'], islayer):
            continue
        if not any(T.contains(i, islayer) for i in r['inputs']):
            continue
        o = p.types[r['output']]
        fallible = o['k'] == 'adt' and p.isadt(r['output'], 'Result', 'Option')
        rep.check(fallible or o['k'] in ('ref', 'ptr'), 'checked-clone', r['key'], '%s yields a layer from a layer and cannot refuse' %
                  r['key'], sample=r['key'])
    # secrets
    secret = secret_types(ctx)
    for ty in sorted(secret):
        if ty not in by:
            continue
        rep.check('Copy' not in tr_(ty), 'secret-not-copy', T.name(ty), '%s holds secrets and is Copy: it is duplicated silently' %
                  T.name(ty), sample=T.name(ty))
    for ty in by:
        if T.contains(ty, lambda x: p.isadt(x, 'EphemeralPrivateKey')) and ty not in layers:
            rep.check(not {'Clone', 'Copy'} & tr_(ty), 'one-time-key', T.name(ty), '%s holds a one-time private key and can be '
                      'duplicated' % T.name(ty), sample=T.name(ty))
    rep.floor('shareable', 2 * (len(layers) + 1))
    rep.floor('no-silent-copy', 4 if ctx.haslayer('SecureLayer') else 2)
    rep.floor('checked-clone', 2 if ctx.haslayer('SecureLayer') else 1)
    rep.floor('secret-not-copy', 5)
    rep.floor('one-time-key', 1)


def secret_types(ctx):
    """types of the crate that hold secret bytes, by what the code stores in them, and the types around them"""
    p = ctx.p
    T = Types(p)
    out = set()
    lty = layer_ty(ctx, 'MinimalSecureLayer')
    for k in ctx.min.keyleaf:
        for q in k:
            l = leafterm(q)
            sp = selfpath_any(l) if l is not None else None
            if sp is not None:
                ch = T.chain(lty, sp)
                out.update(ch[1:])
    for r, s, *_ in list(ctx.roots.runs) + list(inner_runs(ctx)):
        for x in s.exits:
            for chain, sub, q in leaves(p, x.ret):
                for b in bases(q):
                    if root(b)[0] in SECRETS + ('rng',):
                        out.update(chain)
    for a in p.adts:
        if {'Drop', 'Zeroize'} <= {x.split('::')[-1] for x in a['traits']}:
            out.add(a['ty'])
    inner = set(out)
    for a in p.adts:
        if T.contains(a['ty'], lambda x: x in inner):
            out.add(a['ty'])
    return out
