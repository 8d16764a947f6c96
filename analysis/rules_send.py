"""What leaves a layer and how it is numbered (C04, C11, C17, C18, C24)."""
from base import *
from mini import *
from frame import *


def tr(G, r, x):
    return lambda: G.trace(None, r, x)


class Out:
    """what an exit appended to one writer of the caller"""
    __slots__ = ('i', 'init', 'fin', 'segs')

    def __init__(self, i, init, fin):
        self.i, self.init, self.fin = i, init, fin
        self.segs = None
        if fin is not None and fin[0] == 'seq':
            k = len(init[1])
            if fin[1][:k] == init[1] and all(a is b for a, b in zip(fin[1][:k], init[1])):
                self.segs = list(fin[1][k:])


def outs(G, r, x):
    return [Out(i, a, b) for i, a, b in G.written(r, x) if b is not a]


def segterm(s):
    """the term a whole-base segment stands for"""
    return termof(mkseq([s]))


def ispartial(s):
    t = segterm(s)
    return t is not None and t[0] == 'partial'


def seals(segs):
    """[(kind, term or segment)] of a written sequence"""
    out = []
    for s in segs:
        t = segterm(s)
        out.append((t[0] if t is not None and isinstance(t[0], str) else s[0], t if t is not None else s))
    return out


def user_write(G, r):
    """the exit is of an operation that writes user messages"""
    if not G.writer_args(r):
        return False
    return not any(w in G.opname(r) for w in ('connect', 'ack'))


def sealed_frame(pt):
    """E of the plaintext E ++ SHA-256(E)"""
    if pt[0] != 'seq' or not pt[1]:
        return None
    h = hashof(mkseq([pt[1][-1]]))
    if h is None:
        return None
    E = mkseq(list(pt[1][:-1]))
    return E if E is h else None


def leafterm(q):
    """self leaf path term of whole-leaf bytes"""
    p = piece(q)
    if p is None:
        return None
    b = p[0]
    t = b[2] if b[0] in ('fixed', 'lenof') else b
    if t[0] == 'bytes':
        t = t[1]
    return t


def selfpath(t):
    """field path of a term below self"""
    path = []
    while t[0] == 'fld':
        path.append((t[2], t[3]))
        t = t[1]
    return tuple(reversed(path)) if t[0] == 'self' else None


def argterm(G, r, i):
    a = r.args[i]
    return a[1] if a[0] == 'vref' else a


def data_args(G, r):
    """positions of the arguments that carry what the caller wants to send"""
    out = []
    for i, ty in enumerate(r.root['inputs']):
        if i == 0 and r.root['has_self'] or i in G.writer_args(r):
            continue
        out.append(i)
    return out


def mentions_arg(t, i):
    a = mk('arg', i)
    return a in atoms_in(t)


# ------------------------------------------------------------------------ C04
def C04(ctx, rep):
    for G in ctx.worlds():
        W = 0
        for n, r, x, suc, born in G.cases():
            if not user_write(G, r):
                continue
            add, fatal, dl, wrote, kind, v = G.effects(r, x)
            os_ = outs(G, r, x)
            key = '%s' % r.key
            t = lambda: G.trace(n, r, x)
            if kind != 'err':
                rep.check(len(os_) == 1, 'writes', key, '%s reports success without writing a message' % r.key, t)
            for o in os_:
                W += 1
                g = n[1]
                rep.check(g >= ALL4 or 'isclone' in g, 'after-negotiation', key, '%s writes although the negotiation is '
                          'not complete (%s)' % (r.key, sorted(g & ALL4)), t, sample=sorted(g & ALL4))
                if not rep.check(o.segs is not None, 'output-known', key, '%s: what is written is not the former output '
                                 'followed by new bytes' % r.key, t):
                    continue
                ks = seals(o.segs)
                names = [k for k, _ in ks]
                okc = names in (['aead', 'aeadtag'],) if kind != 'err' else \
                    names in ([], ['partial'], ['aead'], ['aead', 'partial'], ['aead', 'aeadtag'],
                              ['aead', 'aeadtag', 'partial'])
                if not rep.check(okc, 'only-ciphertext', key, '%s writes something else than one ciphertext followed by '
                                 'its authentication tag: %s' % (r.key, show(mkseq(o.segs))[:400]), t,
                                 sample='%s: %s' % (r.key, names)):
                    continue
                if 'aead' not in names:
                    continue
                a = ks[0][1]
                if 'aeadtag' in names:
                    b = ks[1][1]
                    rep.check(a[1:5] == b[1:5], 'own-tag', key, '%s: the tag written belongs to another encryption' %
                              r.key, t, sample=key)
                rep.check(secret_leaf(G, a[1]), 'session-key', key, '%s encrypts under %s, not under the negotiated key '
                          'kept by the layer' % (r.key, show(a[1])), t, sample=show(a[1]))
                E = sealed_frame(a[4])
                if not rep.check(E is not None, 'hash-appended', key, '%s: what is encrypted is not a message followed by '
                                 'its SHA-256' % r.key, t, sample=show(a[4])[:300]):
                    continue
                F = x.st.F
                okf = fieldis_q(F, E, 0, 4, MAGIC) and fieldis_q(F, E, 16, 18, TYPES['Message']) and \
                    F.eq_lin(mkbe(8, sslice(E, I(8), I(16), F)), lsub(slen(E), I(16)))
                rep.check(okf, 'encapsulated', key, '%s: what is encrypted is not an encapsulated user message: %s' %
                          (r.key, show(E)[:300]), t, sample=show(E)[:200])
                pay = sslice(E, I(26), slen(E), F)
                if not G.complete:
                    i = data_args(G, r)[0]
                    rep.check(pay is argterm(G, r, i), 'data-inside', key, '%s encrypts %s instead of the data to send' %
                              (r.key, show(pay)[:200]), t, sample=show(pay)[:100])
                else:
                    rep.check(any(mentions_arg(pay, i) for i in data_args(G, r)), 'data-inside', key,
                              '%s encrypts %s instead of the data to send' % (r.key, show(pay)[:200]), t,
                              sample=show(pay)[:100])
        rep.units['%s.write cases' % G.layer] = W
    # the only other outputs of the minimal layer are the two handshake messages
    M = ctx.min
    for r in M.runs:
        for x in r.sum.exits:
            if M.writer_args(r) and not user_write(M, r):
                rep.check(not outs(M, r, x), 'no-other-output', r.key, '%s writes although it is not the operation that '
                          'sends user messages' % r.key, tr(M, r, x))
    for q, k in (('only-ciphertext', 10), ('own-tag', 5), ('session-key', 5), ('hash-appended', 5), ('data-inside', 5)):
        rep.floor(q, k)


def secret_leaf(G, q):
    t = leafterm(q)
    return t is not None and selfpath(t) is not None


def fieldis_q(F, q, lo, hi, val):
    s = sslice(q, I(lo), I(hi), F)
    b = bytes_of(s, F)
    return b == val if b is not None else F.entails_eq_seq(s, lit(val))


# ------------------------------------------------------------------------ C11
def numbers(G, r, x):
    """numbers (integer terms) of the user messages encrypted on the way to this exit"""
    out = []
    for e in x.st.ev:
        if e[1] == 'enc':
            E = sealed_frame(e[5])
            if E is None:
                out.append(None)
                continue
            out.append(mkbe(8, sslice(E, I(18), I(26), x.st.F)))
    return out


def number_leaves(G):
    """paths of the fields sent numbers are taken from"""
    ps = set()
    for r in G.runs:
        if r.shape is None:
            continue
        pre = dict((a, p) for p, a in G.u64atoms(r.selfv))
        for x in r.sum.exits:
            for k in numbers(G, r, x):
                if k is not None:
                    for a in k[2]:
                        if a[0] in pre:
                            ps.add(pre[a[0]])
    return ps


def C11(ctx, rep):
    for G in ctx.worlds():
        ps = number_leaves(G)
        if not rep.check(len(ps) == 1, 'counter', G.layer, 'the numbers of sent messages are not taken from one counter of '
                         'the layer (%s)' % ', '.join(G.pathname(p) for p in ps)):
            continue
        p = next(iter(ps))
        rep.units['%s.counter' % G.layer] = G.pathname(p)
        for r in G.runs:
            for x in r.sum.exits:
                add, fatal, dl, wrote, kind, v = G.effects(r, x)
                t = tr(G, r, x)
                if r.shape is None:
                    if kind != 'err' and v[0] == 'adt' and v[1] == G.ty:
                        rep.check(cint(G.get(v, p)) == 0, 'starts-at-zero', r.key, '%s: the numbering of a new layer starts '
                                  'at %s' % (r.key, show(G.get(v, p))), t, sample=r.key)
                    continue
                a, b = G.get(r.selfv, p), G.get(G.fin(x), p)
                F = x.st.F
                ks = numbers(G, r, x)
                if user_write(G, r) and kind != 'err':
                    rep.check(len(ks) == 1 and ks[0] is not None and F.eq_lin(ks[0], a), 'numbered', r.key,
                              '%s sends the message with number %s instead of %s' %
                              (r.key, ', '.join(show(k) if k is not None else '?' for k in ks), show(a)), t,
                              sample='%s: number %s' % (r.key, show(a)))
                    rep.check(F.eq_lin(b, ladd(a, I(1))), 'advances-by-one', r.key, '%s: after a sent message the next '
                              'number is %s' % (r.key, show(b)), t, sample='%s: %s -> %s' % (r.key, show(a), show(b)))
                elif not fatal:
                    rep.check(F.eq_lin(a, b), 'unchanged', r.key, '%s changes the number of the next sent message from %s '
                              'to %s' % (r.key, show(a), show(b)), t, sample=r.key)
                if not fatal and kind != 'err' and v[0] == 'adt' and v[1] == G.ty:
                    rep.check(F.eq_lin(G.get(v, p), a), 'clone-continues', r.key, '%s: the clone numbers its messages from '
                              '%s instead of %s' % (r.key, show(G.get(v, p)), show(a)), t, sample=r.key)
            for li in r.sum.loops.values():
                h = li.tmpl.get(('root', 'self'))
                if h is None or r.selfv is None:
                    continue
                a = G.get(h, p)
                for F, cells, ev in li.backs:
                    b = G.get(cells[('root', 'self')], p)
                    rep.check(a is not None and b is not None and F.eq_lin(a, b), 'unchanged', r.key + ' loop',
                              '%s changes the number of the next sent message in a loop' % r.key)
    for q, k in (('numbered', 5), ('advances-by-one', 5), ('unchanged', 200), ('clone-continues', 1),
                 ('starts-at-zero', 1)):
        rep.floor(q, k)


# ------------------------------------------------------------------------ C17
def layout(G, rep, r, x, q, kind, name, pk=None, payload_=None, t=None, own=None, peer=None):
    """a produced message has the documented layout"""
    F = x.st.F
    key = '%s %s' % (name, kind)

    def f(rule, lo, hi, val, what):
        rep.check(fieldis_q(F, q, lo, hi, val), rule, key, '%s produces a message whose %s is %s' %
                  (name, what, show(sslice(q, I(lo), I(hi), F))), t, sample='%s: bytes %d..%d' % (name, lo, hi))
    f('out-magic', 0, 4, MAGIC, 'magic value')
    f('out-version', 4, 8, VERSION, 'version')
    f('out-type', 16, 18, TYPES[kind], 'type')
    n = mkbe(8, sslice(q, I(8), I(16), F))
    rep.check(F.eq_lin(n, lsub(slen(q), I(16))), 'out-length', key, '%s announces the length %s of a message of %s bytes '
              'after the length field' % (name, show(n), show(lsub(slen(q), I(16)))), t, sample=show(n))
    if kind == 'Connect':
        f('out-sigalgo', 50, 54, bytes(4), 'signature algorithm')
        s = sslice(q, I(18), I(50), F)
        rep.check(any(same(s, o, F) for o in own), 'out-headers', key, '%s announces %s instead of the ephemeral public '
                  'key of the layer' % (name, show(s)), t, sample=show(s))
        e = ladd(I(54), slen(pk))
        s = sslice(q, I(54), e, F)
        rep.check(same_seq(s, pk, F), 'out-headers', key, '%s announces the signature key %s' % (name, show(s)), t,
                  sample=show(s))
    elif kind == 'Ack':
        s = sslice(q, I(18), I(50), F)
        h = hashof(s)
        rep.check(h is not None and peer is not None and same_seq(h, peer, F), 'out-headers', key, '%s answers the '
                  'challenge with %s' % (name, show(s)), t, sample=show(s))
        e = I(50)
    else:
        e = I(26)
        s = sslice(q, I(18), I(26), F)
        rep.check(len(s[1]) == 1 and s[1][0][0] == 'sub' and s[1][0][1][0] == 'enc' or bytes_of(s) is not None,
                  'out-headers', key, '%s: the message number is not written big-endian in 8 bytes: %s' % (name, show(s)), t,
                  sample=show(s))
    if payload_ is not None:
        s = sslice(q, e, slen(q), F)
        rep.check(same_seq(s, payload_, F), 'out-payload', key, '%s: what follows the headers is %s instead of the '
                  'payload' % (name, show(s)[:200]), t, sample=show(s)[:100])


def optarg(G, x, v):
    """payload bytes of an Option argument at this exit: sequence, EMPTY for None, None unknown"""
    if G.some(v):
        v = v[3][0]
    elif G.none(v):
        return EMPTY
    elif v[0] == 'sym':
        k = x.st.F.isv.get(v[1])
        if k == 0:
            return EMPTY
        if k != 1:
            return None
        return mkseq([mk('sub', b, I(0), baselen(b)) for b in (mk('deref', mk('fld', v[1], 1, 0)),)])
    if v[0] == 'vref':
        v = v[1]
    return v if v[0] == 'seq' else None


def C17(ctx, rep):
    M = ctx.min
    peers = set()
    for r in M.runs:
        for x in r.sum.exits:
            add, fatal, dl, wrote, kind, v = M.effects(r, x)
            if kind == 'err':
                continue
            t = tr(M, r, x)
            if add & {'sC', 'sA'} and v[0] == 'seq':
                k = 'Connect' if 'sC' in add else 'Ack'
                args = [argterm(M, r, i) for i in data_args(M, r)]
                pk = next((a for a in args if a[0] == 'seq'), None)
                cd = next((a for a in args if a[0] in ('sym', 'adt')), None)
                pay = optarg(M, x, cd) if cd is not None else EMPTY
                peer = peer_epk(M, r) if k == 'Ack' else None
                rep.check(pay is not None, 'out-payload', r.key, '%s produces the same message with and without payload' %
                          r.key, t)
                layout(M, rep, r, x, v, k, r.key, pk, pay, t, M.own_epk(), peer)
            for o in outs(M, r, x):
                for nm, a in seals(o.segs or []):
                    if nm == 'aead':
                        E = sealed_frame(a[4]) or a[4]
                        layout(M, rep, r, x, E, 'Message', r.key, None, argterm(M, r, data_args(M, r)[0]), t)
    # the reader: every delivered message was taken from the documented places
    import rules_recv
    for r, x, d in rules_recv.all_deliveries(M):
        t = tr(M, r, x)
        key = '%s %s' % (r.key, d.kind)
        F = d.F
        if d.kind == 'Message':
            fs = rules_recv.frame_of(M, d)
        elif d.kind in ('Connect', 'Ack'):
            fs = signed_frames(F)
        else:
            rep.fail('in-known', key, '%s accepts something that is not recognised as a message' % r.key, t())
            continue
        if not rep.check(bool(fs), 'in-known', key, '%s accepts a message without checking a hash or signature over it' %
                         r.key, t):
            continue
        D, e = fs[0][:2]
        for rule, lo, hi, val, what in (('in-magic', 0, 4, MAGIC, 'magic value'), ('in-version', 4, 8, VERSION, 'version'),
                                        ('in-type', 16, 18, TYPES[d.kind], 'type')):
            rep.check(fieldis(F, D, lo, hi, val), rule, key, '%s accepts a %s message whatever its %s is (bytes %d..%d)' %
                      (r.key, d.kind, what, lo, hi), t, sample='%s: %s' % (key, show(sub(D, lo, hi))))
        rep.check(lenfield(F, D, e), 'in-length', key, '%s takes the end of the message from elsewhere than the 8-byte '
                  'length field' % r.key, t, sample=show(e))
        opt, rest = payload(M, d.val)
        off = 16 + HDR[d.kind]
        rep.check(payload_is(M, F, opt, D, off, e), 'in-payload', key, '%s does not deliver the bytes between the headers '
                  'and the end as payload: %s' % (r.key, M.show(d.val)[:200]), t, sample=M.show(d.val)[:160])
        if d.kind == 'Connect':
            rep.check(fieldis(F, D, 50, 54, bytes(4)), 'in-sigalgo', key, '%s accepts a CONNECT message whatever its '
                      'signature algorithm is' % r.key, t)
            rep.check(any(v[0] == 'seq' and same_seq(v, sub(D, 54, 86), F) for v in rest), 'in-key', key, '%s does not '
                      'report the announced signature key' % r.key, t, sample=[show(v) for v in rest])
            ag = [e2 for e2 in (d.ev or ()) if e2[1] == 'agree']
            rep.check(all(same_seq(e2[4], sub(D, 18, 50), F) for e2 in ag) and len(ag) == 1, 'in-epk', key,
                      '%s does not take the ephemeral key of the peer from bytes 18..50' % r.key, t,
                      sample=[show(e2[4]) for e2 in ag])
    for q, k in (('out-magic', 5), ('out-version', 5), ('out-type', 5), ('out-length', 5), ('out-headers', 8),
                 ('out-payload', 5), ('in-magic', 5), ('in-version', 5), ('in-type', 5), ('in-length', 5),
                 ('in-payload', 5), ('in-sigalgo', 1), ('in-key', 1), ('in-epk', 1)):
        rep.floor(q, k)


def peer_epk(M, r):
    """bytes of the peer's ephemeral public key kept by the state"""
    for p in peer_paths(M):
        l = M.get(r.selfv, p)
        if l is not None and M.some(l):
            return l[3][0]
    return None


def peer_paths(M):
    """where accepting a CONNECT stores the peer's ephemeral public key"""
    if getattr(M, '_peerp', None) is None:
        import rules_recv
        ps = set()
        for r, x, d in rules_recv.all_deliveries(M):
            if d.kind != 'Connect':
                continue
            fs = signed_frames(d.F)
            for D, e, k in fs:
                for p, l in M.leaves(d.post):
                    if l[0] == 'seq' and same_seq(l, sub(D, 18, 50), d.F):
                        ps.add(p[:-1])
        M._peerp = ps
    return M._peerp


# ------------------------------------------------------------------------ C18
def C18(ctx, rep):
    for G in ctx.worlds():
        W = 0
        for r in G.runs:
            if not G.writer_args(r):
                continue
            for x in r.sum.exits:
                W += 1
                kind, v = G.W.split_result(x)
                t = tr(G, r, x)
                bad = [f for f in x.st.fails if f[1] == 'write']
                rep.check(not bad or kind == 'err', 'failure-reported', r.key, '%s reports success although the writer '
                          'failed' % r.key, t, sample=r.key)
                if kind == 'err':
                    continue
                lost = [e for e in x.st.ev if e[1] in ('shortwrite', 'lostwrite')]
                rep.check(not lost, 'no-short-write', r.key, '%s reports success although a write may have taken only a '
                          'part of the bytes (%s)' % (r.key, ', '.join(show(e) for e in lost)[:200]), t, sample=r.key)
                os_ = outs(G, r, x)
                if not rep.check(len(os_) == 1 and os_[0].segs is not None, 'written', r.key, '%s reports success without '
                                 'writing' % r.key, t):
                    continue
                ks = seals(os_[0].segs)
                names = [k for k, _ in ks]
                if user_write(G, r):
                    rep.check(names == ['aead', 'aeadtag'] and ks[0][1][1:5] == ks[1][1][1:5], 'complete', r.key,
                              '%s reports success but has written %s' % (r.key, show(mkseq(os_[0].segs))[:300]), t,
                              sample=names)
                else:
                    msg = api_message(G, x)
                    whole_ = mkseq(os_[0].segs[:-1])
                    rep.check(msg is not None and names[-1:] == ['edsig'] and same_seq(whole_, msg, x.st.F) and
                              full(os_[0].segs[-1]), 'complete', r.key,
                              '%s reports success but has not written the message it created and one whole signature: %s' %
                              (r.key, show(mkseq(os_[0].segs))[:300]), t, sample=names)
        rep.units['%s.partitions of writing operations' % G.layer] = W
    for q, k in (('failure-reported', 20), ('no-short-write', 5), ('complete', 5)):
        rep.floor(q, k)


def full(s):
    return segterm(s) is not None


def api_message(G, x):
    """bytes of the handshake message created on the way to this exit"""
    for t in x.st.trail:
        if t[0] == 'api':
            k, val = G.split(t[2])
            if k != 'err' and val[0] == 'seq':
                return val
    return None


# ------------------------------------------------------------------------ C24
def key_paths(M):
    """self paths of the key, nonce and associated data of encryptions and decryptions"""
    out = set()
    for k in M.keyleaf:
        out |= {selfpath(leafterm(q)) if leafterm(q) is not None else None for q in k}
    return out


def C24(ctx, rep):
    M = ctx.min
    for G in ctx.worlds():
        for r in G.runs:
            for x in r.sum.exits:
                for e in x.st.ev:
                    if e[1] not in ('enc', 'dec'):
                        continue
                    for nm, q in zip(('key', 'nonce', 'associated data'), e[2:5]):
                        rep.check(from_secret(M, G, q, x), 'from-secret', '%s %s' % (r.key, nm),
                                  '%s: the %s of the cipher, %s, does not come from the negotiated secret' %
                                  (r.key, nm, show(q)), tr(G, r, x), sample='%s: %s %s' % (r.key, nm, show(q)))
    ps = number_leaves(M)
    for r in M.runs:
        for x in r.sum.exits:
            for e in x.st.ev:
                if e[1] != 'enc':
                    continue
                leaves = [M.get(r.selfv, p) for p in ps] if r.selfv is not None else []
                dep = any(a[0] in atoms_in(e[3]) or a[0] in atoms_in(e[2]) for l in leaves if l is not None for a in l[2])
                rep.check(dep, 'nonce-per-message', 'constant nonce', '%s encrypts every message under the same key and '
                          'nonce %s: neither depends on the message number' % (r.key, show(e[3])), tr(M, r, x))
    for q, k in (('from-secret', 20), ('nonce-per-message', 1)):
        rep.floor(q, k)


def from_secret(M, G, q, x):
    p = piece(q)
    if p is None:
        return False
    b = p[0]
    t = b[2] if b[0] in ('fixed', 'lenof') else b
    if t[0] == 'bytes':
        t = t[1]
    if t[0] == 'pbkdf2':
        return True
    pth = selfpath_any(t)
    if pth is None:
        return False
    if G.complete:
        pth = strip_prefix(M, G, pth)
    return pth in secret_paths(M)


def selfpath_any(t):
    path = []
    while t[0] in ('fld', 'pf'):
        path.append((t[2], t[3]))
        t = t[1]
    if t[0] == 'self' or (t[0] == 'phi' and t[2] == ('root', 'self')):
        return tuple(reversed(path))
    return None


def prefix_of(M, G):
    """path of the minimal layer inside the complete one"""
    for r in G.runs:
        if r.selfv is None:
            continue
        for i, f in enumerate(r.selfv[3]):
            if f[0] == 'adt' and f[1] == M.ty:
                return ((0, i),)
    return ()


def strip_prefix(M, G, p):
    pre = prefix_of(M, G)
    return p[len(pre):] if p[:len(pre)] == pre else None


def secret_paths(M):
    """leaves assigned from the derived key material when a CONNECT is accepted"""
    if getattr(M, '_secp', None) is None:
        import rules_recv
        ps = set()
        for r, x, d in rules_recv.all_deliveries(M):
            if d.kind != 'Connect':
                continue
            for p, l in M.leaves(d.post):
                t = leafterm(l) if l[0] == 'seq' else None
                if t is not None and t[0] == 'pbkdf2':
                    ps.add(p)
        M._secp = ps
    return M._secp
