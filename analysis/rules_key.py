"""Where keys come from and how long they live (C13, C14)."""
from base import *
from mini import *
from frame import *
import rules_recv
import rules_send
from rules_send import leafterm, selfpath, selfpath_any, tr


def key_triples(M):
    """{(key path, nonce path, aad path)} of the cipher inputs"""
    out = set()
    for k in M.keyleaf:
        out.add(tuple(selfpath_any(leafterm(q)) if leafterm(q) is not None else None for q in k))
    return out


SLICES = ((0, 32, 'cipher key'), (32, 44, 'nonce'), (44, 48, 'associated data'))


def C13(ctx, rep):
    M = ctx.min
    tri = key_triples(M)
    rep.check(len(tri) == 1 and None not in next(iter(tri), (None,)), 'session-fields', 'cipher inputs',
              'key, nonce and associated data of the cipher are not three fields of the layer: %s' %
              '; '.join(str([M.pathname(p) if p is not None else None for p in t]) for t in tri),
              sample=[M.pathname(p) for t in tri for p in t if p is not None])
    paths = set()
    for t in tri:
        paths |= {p for p in t if p is not None}

    def changed(F, pre, post):
        for p in sorted(paths):
            a, b = M.get(pre, p) if pre is not None else None, M.get(post, p)
            if a is b or (a is not None and b is not None and same(a, b, F)):
                continue
            yield p, a, b

    for r, x, d in rules_recv.all_deliveries(M):
        if d.kind != 'Connect':
            continue
        t = tr(M, r, x)
        key = r.key
        fs = signed_frames(d.F)
        if not rep.check(bool(fs), 'signed', key, '%s accepts a CONNECT message without a verified signature' % key, t):
            continue
        D = fs[0][0]
        peer = sub(D, 18, 50)
        for tpl in tri:
            for p, (lo, hi, what) in zip(tpl, SLICES):
                if p is None:
                    continue
                l = M.get(d.post, p)
                if not rep.check(l is not None and l[0] == 'seq', 'established', key, '%s accepts a CONNECT message without '
                                 'establishing the %s' % (key, what), t):
                    continue
                pc = piece(l)
                b = pc[0][2] if pc and pc[0][0] == 'fixed' else None
                if not rep.check(b is not None and b[0] == 'pbkdf2', 'derived', key, '%s: the %s is %s, not derived with '
                                 'PBKDF2' % (key, what, show(l)[:200]), t, sample=show(l)[:300]):
                    continue
                rep.check(pc[0][1] == 48 and cint(pc[1]) == lo and cint(pc[2]) == hi, 'slices', key + ' ' + what,
                          '%s: the %s is bytes %s..%s of %s derived bytes, not %d..%d of 48' %
                          (key, what, show(pc[1]), show(pc[2]), pc[0][1], lo, hi), t,
                          sample='%s = derived[%d..%d]' % (what, lo, hi))
                rep.check(b[1] == 'PBKDF2_HMAC_SHA384', 'algorithm', key, '%s derives with %s' % (key, b[1]), t,
                          sample=b[1])
                sec = termof(b[4])
                ok = sec is not None and sec[0] == 'agree'
                if rep.check(ok, 'agreement', key, '%s derives from %s, not from a key agreement' %
                             (key, show(b[4])[:200]), t, sample=show(b[4])[:200]):
                    rep.check(selfpath(sec[1]) in M.priv and sec[2] == 'X25519', 'own-private-key', key,
                              '%s agrees with %s (%s), not with the ephemeral private key of the layer' %
                              (key, show(sec[1]), sec[2]), t, sample=show(sec[1]))
                    rep.check(same_seq(sec[3], peer, d.F), 'peer-key', key, '%s agrees with the key %s, not with the one the '
                              'accepted message carries' % (key, show(sec[3])), t, sample=show(sec[3]))
                salt = b[3]
                own = [o for o in M.own_epk()]
                lt = slt_facts(d.F)
                isown = any(same_seq(salt, o, d.F) for o in own)
                ispeer = same_seq(salt, peer, d.F)
                ok = (isown and any(ordered(d.F, lt, peer, o) for o in own)) or \
                    (ispeer and any(ordered(d.F, lt, o, peer) for o in own))
                rep.check(ok, 'salt', key, '%s salts the derivation with %s although that is not known to be the larger of '
                          'the two ephemeral public keys' % (key, show(salt)), t, sample=show(salt))
    for r in M.runs:
        for x in r.sum.exits:
            add, fatal, dl, wrote, kind, v = M.effects(r, x)
            if fatal:
                continue
            con = any(d.kind == 'Connect' for d in dl)
            t = tr(M, r, x)
            if r.shape is None:
                if kind != 'err':
                    rep.check(all(M.get(v, p) is None for p in paths), 'no-other-source', r.key, '%s gives a new layer a '
                              'session key' % r.key, t, sample=r.key)
                continue
            ch = list(changed(x.st.F, r.selfv, M.fin(x)))
            rep.check(con or not ch, 'no-other-source', r.key, '%s sets the session key (%s) without accepting a CONNECT '
                      'message' % (r.key, ', '.join(M.pathname(p) for p, a, b in ch)), t, sample=r.key)
            if kind != 'err' and v[0] == 'adt' and v[1] == M.ty:
                ch = list(changed(x.st.F, r.selfv, v))
                rep.check(not ch, 'clone-shares', r.key, '%s: the clone uses another session key' % r.key, t, sample=r.key)
    for q, k in (('session-fields', 1), ('slices', 3), ('salt', 3), ('agreement', 3), ('own-private-key', 3),
                 ('peer-key', 3), ('no-other-source', 100), ('clone-shares', 1)):
        rep.floor(q, k)


def slt_facts(F):
    return {(p[1], p[2]): t for p, t in F.preds.items() if p[0] == 'slt'}


def ordered(F, lt, a, b):
    """a <= b is known"""
    for (x, y), t in lt.items():
        if t and same_seq(x, a, F) and same_seq(y, b, F):
            return True
        if not t and same_seq(x, b, F) and same_seq(y, a, F):
            return True
    return F.entails_eq_seq(a, b)


# ------------------------------------------------------------------------ C14
def C14(ctx, rep):
    M = ctx.min
    for r, x in M.ctors:
        k, v = M.W.split_result(x)
        if k == 'err':
            continue
        t = tr(M, r, x)
        gens = [e for e in x.st.ev if e[1] == 'genkey']
        rep.check(len(gens) == 1 and gens[0][2][0] == 'ephpriv' and gens[0][2][2] == 'os' and gens[0][2][1] == 'X25519',
                  'fresh-key', r.key, '%s does not draw exactly one X25519 key from the generator of the operating system: %s' %
                  (r.key, ', '.join(show(e) for e in gens)), t, sample=', '.join(show(e) for e in gens))
        privs = [l for p, l in M.leaves(v) if l[0] == 'sym' and l[1][0] == 'ephpriv']
        pubs = [(p, l) for p, l in M.leaves(v) if l[0] == 'pubk']
        rep.check(len(privs) == 1 and len(gens) == 1 and privs[0][1] is gens[0][2], 'keeps-drawn-key', r.key,
                  '%s does not keep the key it drew' % r.key, t)
        for p, l in pubs:
            tm = termof(l[1])
            rep.check(bool(privs) and tm is not None and tm[0] == 'ephpub' and tm[1] is privs[0][1], 'matching-public-key',
                      '%s %s' % (r.key, M.pathname(p)), '%s: %s is not the public key of the drawn private key' %
                      (r.key, M.pathname(p)), t, sample=show(l))
    rep.check(bool(M.ownepk) and bool(M.priv), 'matching-public-key', 'fields', 'no ephemeral key pair is kept by a new layer')
    kp = set()
    for tpl in key_triples(M):
        kp |= {p for p in tpl if p is not None}
    announced = set()
    for r in M.runs:
        if r.shape is None:
            continue
        for x in r.sum.exits:
            t = tr(M, r, x)
            add, fatal, dl, wrote, kind, v = M.effects(r, x)
            F = x.st.F
            fin = M.fin(x)
            ags = [e for e in x.st.ev if e[1] == 'agree']
            if ags:
                rep.check(len(ags) == 1 and selfpath(ags[0][2]) in M.priv, 'one-agreement', r.key,
                          '%s runs %d agreements in one call' % (r.key, len(ags)), t, sample=show(ags[0]))
                for p in M.priv:
                    rep.check(M.get(fin, p) is None, 'private-key-consumed', r.key, '%s keeps the ephemeral private key after '
                              'it was used in an agreement' % r.key, t, sample='%s: %s' % (r.key, M.pathname(p)))
            for p in M.ownepk:
                a, b = M.get(r.selfv, p), M.get(fin, p)
                if a is not None and b is not None:
                    rep.check(a is b or same(a, b, F), 'public-key-fixed', r.key, '%s replaces the ephemeral public key' %
                              r.key, t, sample=r.key)
            for p in M.priv:
                a, b = M.get(r.selfv, p), M.get(fin, p)
                rep.check(b is None or (a is not None and same(a, b, F)), 'private-key-fixed', r.key, '%s replaces the '
                          'ephemeral private key' % r.key, t)
            rep.check(not any(e[1] == 'genkey' for e in x.st.ev), 'no-other-key', r.key, '%s draws another ephemeral key' %
                      r.key, t)
            if not fatal:
                for p in kp:
                    a, b = M.get(r.selfv, p), M.get(fin, p)
                    if a is not None:
                        rep.check(b is not None and same(a, b, F), 'session-key-fixed', r.key, '%s replaces or forgets the '
                                  'session key' % r.key, t, sample='%s: %s' % (r.key, M.pathname(p)))
            if kind != 'err' and v[0] == 'adt' and v[1] == M.ty:
                for p in M.priv:
                    rep.check(M.get(v, p) is None, 'clone-has-no-private-key', r.key, '%s hands the ephemeral private key to '
                              'the clone' % r.key, t, sample=r.key)
            if 'sC' in add and kind != 'err' and v[0] == 'seq':
                s = sslice(v, I(18), I(50), F)
                rep.check(any(same(s, o, F) for o in M.own_epk()), 'announces-it', r.key, '%s announces %s' %
                          (r.key, show(s)), t, sample=show(s))
    # the signing key of a new layer nobody gave a seed for
    if ctx.haslayer('SecureLayer'):
        G = ctx.com
        for r in G.runs:
            if r.shape is not None:
                continue
            for x in r.sum.exits:
                kind, v = G.W.split_result(x)
                if kind == 'err':
                    continue
                for p, l in G.leaves(v):
                    if l[0] != 'sym' or l[1][0] != 'edkp' or l[1][1][0] != 'seq':
                        continue
                    q = l[1][1]
                    b = termof(q)
                    drawn = b is not None and b[0] == 'rng' and b[1] == 'os'
                    rep.check(drawn or from_argument(q), 'random-signing-key', r.key, '%s derives the signing key '
                              'from %s: neither a seed it was given nor entirely drawn from the generator of the operating '
                              'system' % (r.key, show(q)[:200]), tr(G, r, x), sample=show(q)[:100])
        rep.floor('random-signing-key', 2)
    # randomness
    for G in ctx.worlds():
        for r in G.runs:
            for x in r.sum.exits:
                rand_events(rep, r.key, x.st, tr(G, r, x))
    for r, s, E in ctx.roots.runs:
        for x in s.exits:
            rand_events(rep, r['key'], x.st, None)
            for q in rng_values(x.ret):
                rep.check(q[1] == 'os', 'os-generator', r['key'], '%s returns bytes of another generator' % r['key'],
                          sample='%s: %s' % (r['key'], show(q)))
            if 'random' in r['name'] and not r['inputs']:
                ok = list(seed_bytes(x.ret))
                rep.check(bool(ok) and all(termof(q) is not None and termof(q)[0] == 'rng' and termof(q)[1] == 'os'
                                           for q in ok), 'random-seed', r['key'], '%s returns a seed that is not entirely '
                          'drawn from the generator of the operating system: %s' % (r['key'], ctx.show(x.ret)[:200]),
                          sample=ctx.show(x.ret)[:200])
    for q, k in (('fresh-key', 1), ('matching-public-key', 2), ('one-agreement', 2), ('private-key-consumed', 2),
                 ('session-key-fixed', 50), ('public-key-fixed', 100), ('announces-it', 2), ('random-seed', 1)):
        rep.floor(q, k)


def from_argument(q):
    """the whole value is what an argument holds"""
    b = termof(q)
    if b is None and len(q[1]) == 1 and q[1][0][0] == 'sub':
        b = q[1][0][1]
    if b is None:
        return False
    pc = piece(q)
    if pc is not None and not (cint(pc[1]) == 0 and pc[2] is baselen(pc[0])):
        return False
    while b[0] in ('fld', 'deref', 'bytes', 'lenof', 'fixed', 'sym'):
        b = b[2] if b[0] in ('lenof', 'fixed') else b[1]
    return b[0] == 'arg'


def rand_events(rep, key, st, t):
    for e in st.ev:
        if e[1] == 'random':
            rep.check(e[2] == 'os', 'os-generator', key, '%s draws random bytes from another generator: %s' %
                      (key, show(e)), t, sample=show(e))
        if e[1] == 'genkey':
            rep.check(e[2][2] == 'os', 'os-generator', key, '%s draws a key from another generator: %s' % (key, show(e)), t)


def rng_values(v):
    return [t for t in atoms_in(v) if t[0] == 'rng']


def seed_bytes(v):
    if v[0] == 'seq':
        yield v
    elif v[0] == 'adt':
        for x in v[3]:
            yield from seed_bytes(x)
    elif v[0] == 'tup':
        for x in v[1]:
            yield from seed_bytes(x)
