"""No panics, finality of fatal errors, handshake history (C01, C02, C03, C08)."""
from base import *
from mini import ALL4

READERS = ('read', 'read_bin', 'take_ack_msg_recv_too_early', 'drain_tmp_stack_user_msgs')


def excused(pn):
    """the only accepted reason: the operating system's generator failed while drawing a seed"""
    return any(f[0] == 'fail' and 'random' in str(f[1]) for f in pn.st.fails)


def panic_finding(rep, rule, where, pn, extra=()):
    fn = pn.fn
    rep.fail(rule, '%s: %s' % (fn, pn.why), '%s can panic: %s (%s at %s)' % (where, pn.why, fn, pn.span),
             list(extra) + trace_of(pn.st) + ['fact: ' + f for f in facts_text(pn.st.F)])


def selfpath(t):
    """path of a field of the layer value, for terms rooted in self or in a loop's copy of it"""
    path = []
    while t[0] in ('fld', 'pf'):
        if t[0] == 'fld':
            path.append((t[2], t[3]))
            t = t[1]
        else:
            path.append((t[2], t[3]))
            t = t[1]
    path.reverse()
    return t, tuple(path)


def atomroot(a):
    """(kind, path) of a 64-bit atom: ('self', path) for a layer field, ('phi', term) for a loop copy"""
    t = a[1]
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return None, None
    r, path = selfpath(t)
    if r[0] == 'self':
        return 'self', path
    if r[0] == 'phi' and r[2] == ('root', 'self'):
        return 'self', path
    if r[0] == 'phi':
        return 'phi', t
    return None, None


SMALL = 1 << 20


def small_step(v):
    """the one 64-bit atom v is a small step away from"""
    if v is None or v[0] != 'i' or len(v[2]) != 1 or v[2][0][1] != 1 or not (-SMALL <= v[1] <= SMALL):
        return None
    return v[2][0][0]


def selfatoms(F, path=None):
    """counters of the layer the facts talk about"""
    out = set()
    for l in F.lins:
        for a, k in l[2]:
            if a[0] == 'int' and a[2] == 64:
                w, p = atomroot(a)
                if w == 'self' and (path is None or p == path):
                    out.add(a)
    return out


def step_ok(v, path, F=None, loops=(), seen=()):
    """v is a small constant, or the counter at `path` (None: any) plus a small step; a number known to be no larger than
    that; or a loop variable that starts so and moves by small steps"""
    if v is None:
        return True
    if v[0] != 'i':
        return False
    if not v[2]:
        return 0 <= v[1] < 1 << 32
    a = small_step(v)
    if a is None:
        return False
    if a[0] == 'int' and atomroot(a)[0] == 'self' and (path is None or atomroot(a)[1] == path):
        return True
    if path is None and a[0] in ('len', 'setlen'):
        return True
    if F is not None:
        F = getattr(F, 'F', F)
        if any(F.ent_le(lsub(atom(a), atom(c))) for c in selfatoms(F, path)):
            return True
    if a in seen:
        return True
    for li in loops:
        if a in li.phis:
            e, bs = li.phis[a]
            return step_ok(e, path, li.entryF, loops, seen + (a,)) and \
                all(step_ok(b[1], path, b[0], loops, seen + (a,)) for b in bs)
    return False


def counter_rule(rep, rule, G):
    """G: explored layer.  Fields used as counters obey the small-step discipline"""
    paths = set()
    for t in G.E.counters:
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            continue
        r, path = selfpath(t)
        if r[0] == 'self' or (r[0] == 'phi' and r[2] == ('root', 'self')):
            paths.add(path)
    loops = {id(r.sum): list(r.sum.loops.values()) for r in G.runs}
    for path in sorted(paths):
        nm = G.pathname(path)
        for s, r, x, suc, born in G.W.trans:
            vals = []
            k, v = G.W.split_result(x)
            if s is None:
                vals.append(('created', G.get(v, path)))
            else:
                vals.append(('after', G.get(G.fin(x), path)))
                if born:
                    vals.append(('cloned', G.get(v, path)))
            for w, c in vals:
                rep.check(step_ok(c, path, x.st.F, loops.get(id(r.sum), ())), rule, '%s %s' % (nm, r.key),
                          'counter %s is not only advanced by small steps: %s %s %s' % (nm, r.key, w,
                                                                                     G.show(c) if c else ''),
                          lambda: trace_of(x.st))
        for r in G.runs:
            ls = loops[id(r.sum)]
            for li in ls:
                vs = [(li.entryF, li.entry.get(('root', 'self')))] + [(b[0], b[1].get(('root', 'self'))) for b in li.backs]
                for F, v in vs:
                    if v is None:
                        continue
                    c = G.get(v, path)
                    rep.check(step_ok(c, path, F, ls), rule, '%s loop in %s' % (nm, r.key),
                              'counter %s is not only advanced by small steps in a loop of %s' % (nm, r.key))
    # loop-local counters
    for r in G.runs:
        ls = loops[id(r.sum)]
        for li in ls:
            for ph, (e, bs) in li.phis.items():
                if not (isinstance(ph, tuple) and ph[0] == 'int' and ph[2] == 64 and ph[1] in G.E.counters):
                    continue
                if atomroot(ph)[0] == 'self':
                    continue
                for F, v in [(li.entryF, e)] + [(b[0], b[1]) for b in bs]:
                    rep.check(step_ok(v, None, F, ls, (ph,)), rule, 'local %s' % r.key,
                              'a loop counter of %s may wrap: %s' % (r.key, G.show(v)))


def C01(ctx, rep):
    for G in ctx.worlds():
        n = 0
        for r in G.runs:
            if G.opname(r) not in READERS and not G.msgs_out(r.root['output']):
                continue
            n += 1
            bad = [q for q in r.sum.panics if not excused(q)]
            for q in bad:
                panic_finding(rep, 'no-panic', G.where(r), q)
            if not bad:
                rep.ok('no-panic', sample='%s: %d result partitions, no reachable panic' % (G.where(r),
                                                                                           len(r.sum.exits)))
        rep.units['%s.read operations x states' % G.layer] = n
        rep.units['%s.partitions' % G.layer] = sum(len(r.sum.exits) for r in G.runs)
        counter_rule(rep, 'counters', G)
        unknowns(rep, G)
    unsafe_rule(ctx, rep)
    rep.floor('no-panic', 30)
    rep.floor('safe-code', 60)


def unknowns(rep, G):
    for r in G.runs:
        for name, fn in r.sum.unknown:
            rep.assume.add('%s (called from %s) does not panic' % (name, fn))
        for n in r.sum.notes:
            rep.assume.add(str(n))


def macro(path):
    """unsafe functions only format macros expand to"""
    return 'fmt::Arguments' in path or 'fmt::rt::' in path


def unsafe_rule(ctx, rep):
    """no function of the crate reads or writes memory unchecked"""
    p = ctx.p
    for key in p.local_fns():
        f = p.fn(key)
        bad = None
        for b in f.blocks:
            if b is None:
                continue
            t = b['t']
            if t['k'] == 'call' and isinstance(t['f'], dict) and t['f'].get('unsafe') and not macro(t['f']['path']):
                bad = 'calls unsafe %s' % t['f']['path']
            fn = t.get('f')
            for c in (t.get('args') or []):
                if isinstance(c, (list, tuple)) and c and c[0] == 'const' and isinstance(c[1], dict) and \
                        (c[1].get('fn') or {}).get('unsafe') and not macro(c[1]['fn']['path']):
                    bad = 'passes unsafe %s' % c[1]['fn']['path']
        rep.check(bad is None, 'safe-code', key, '%s %s: memory accesses are no longer checked' % (key, bad))


def C02(ctx, rep):
    for G in ctx.worlds():
        for r in G.runs:
            bad = [q for q in r.sum.panics if not excused(q)]
            for q in bad:
                panic_finding(rep, 'no-panic', G.where(r), q)
            if not bad:
                rep.ok('no-panic', sample='%s: %d result partitions, no reachable panic' % (G.where(r),
                                                                                           len(r.sum.exits)))
            rep.check(bool(r.sum.exits) or bool(bad), 'returns', r.key, '%s never returns' % G.where(r))
        rep.units['%s.states' % G.layer] = len(G.W.shapes)
        rep.units['%s.operations x states' % G.layer] = len(G.runs)
        rep.units['%s.transitions' % G.layer] = len(G.W.trans)
        counter_rule(rep, 'counters', G)
        unknowns(rep, G)
    for r, s, E in ctx.roots.runs:
        bad = [q for q in s.panics if not excused(q)]
        for q in bad:
            panic_finding(rep, 'no-panic-other', r['key'], q)
        if not bad:
            rep.ok('no-panic-other', sample=r['key'])
        for name, fn in s.unknown:
            rep.assume.add('%s (called from %s) does not panic' % (name, fn))
    rep.floor('no-panic', 100)
    rep.floor('no-panic-other', 5)


def C03(ctx, rep):
    for G in ctx.worlds():
        fatal = 0
        for n, r, x, suc, born in G.cases():
            if 'fatal' not in n[1]:
                continue
            fatal += 1
            add, ft, dl, wrote, kind, v = G.effects(r, x)
            t = lambda: G.trace(n, r, x)
            rep.check(not dl, 'no-delivery', G.opname(r),
                      '%s delivers a message after a fatal error was reported' % r.key, t,
                      sample='%s after %s' % (r.key, '; '.join(G.history(n))[:200]))
            rep.check(all(same(a, b, x.st.F) if b is not None else False for _, a, b in wrote), 'no-write', G.opname(r),
                      '%s writes to the output after a fatal error was reported' % r.key, t)
            rep.check(not born, 'no-clone', G.opname(r),
                      '%s clones the layer after a fatal error was reported' % r.key, t)
            made = kind != 'err' and bool(add & {'sC', 'sA', 'cl'})
            rep.check(not made, 'no-message', G.opname(r),
                      '%s produces a message after a fatal error was reported' % r.key, t)
        rep.units['%s.fatal cases' % G.layer] = fatal
        rep.units['%s.states with history' % G.layer] = len(G.nodes)
        rep.check(fatal > 10, 'fatal-reachable', G.layer, 'no fatal error is reported by %s' % G.layer)
    rep.floor('no-delivery', 50)


def C08(ctx, rep):
    for G in ctx.worlds():
        for n, r, x, suc, born in G.cases():
            g = n[1]
            add, ft, dl, wrote, kind, v = G.effects(r, x)
            done = g >= ALL4 or 'isclone' in g
            t = lambda: G.trace(n, r, x)
            if any(d.kind in ('Message', '?') for d in dl):
                rep.check(done or (G.complete and g | add >= ALL4), 'deliver-after-handshake', G.opname(r),
                          '%s delivers a user message although only %s of the handshake happened' %
                          (r.key, sorted(g & ALL4)), t, sample='%s after %s' % (r.key, sorted(g)))
            if wrote and not handshake_op(G, r):
                rep.check(done, 'write-after-handshake', G.opname(r),
                          '%s writes although only %s of the handshake happened' % (r.key, sorted(g & ALL4)), t,
                          sample='%s after %s' % (r.key, sorted(g)))
            if born:
                rep.check(done, 'clone-after-handshake', G.opname(r),
                          '%s clones although only %s of the handshake happened' % (r.key, sorted(g & ALL4)), t,
                          sample='%s after %s' % (r.key, sorted(g)))
            for s in add & ALL4:
                rep.check(s not in g and 'isclone' not in g, 'once-' + s, G.opname(r),
                          '%s: handshake step %s happens a second time' % (r.key, s), t,
                          sample='%s after %s' % (r.key, sorted(g)))
            if 'sA' in add:
                rep.check('rC' in g, 'ack-after-connect', G.opname(r),
                          '%s: an ACK is created before the CONNECT message of the peer was accepted' % r.key, t)
        rep.units['%s.states with history' % G.layer] = len(G.nodes)
        rep.units['%s.edges' % G.layer] = G.edges
    for q in ('deliver-after-handshake', 'write-after-handshake', 'clone-after-handshake', 'once-sC', 'once-sA',
              'once-rC', 'once-rA', 'ack-after-connect'):
        rep.floor(q, 1)


def handshake_op(G, r):
    return any(w in G.opname(r) for w in ('connect', 'ack'))
