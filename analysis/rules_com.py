"""The complete layer: signatures, payload pipeline, format codes, failures, configuration (C19 - C23)."""
from base import *
from mini import *
from frame import *
from rules_send import Out, outs, ispartial, segterm, selfpath, data_args, tr, argterm

CODEC = {'Bincode': 'bincode', 'Cbor': 'cbor', 'Utf8Json': 'json'}
CODES = {'RawBinary': bytes(4), 'Utf8PlainText': bytes([0, 0, 0, 1]), 'Utf8Json': bytes([0, 0, 0, 2]),
         'Cbor': bytes([0, 0, 0, 3]), 'Bincode': bytes([0, 0, 0, 4])}


def apiname(key):
    return key.split('::<')[0].split('::')[-1]


def api(G, x):
    """[(name, kind, value, args)] of the calls of the minimal layer on the way to an exit"""
    out = []
    for t in x.st.trail:
        if t[0] != 'api':
            continue
        k, v = G.split(G.settled(x, t[2]))
        out.append((apiname(t[1]), k, v, t[3]))
    return out


def created(G, x):
    """bytes of the handshake messages made on the way to an exit"""
    out = []
    for nm, k, v, args in api(G, x):
        if nm in CREATES and k != 'err':
            q = v
            while q[0] == 'adt' and len(q[3]) == 1:
                q = q[3][0]
            out.append((nm, q))
    return out


# ------------------------------------------------------------------------ C19
def C19(ctx, rep):
    if not ctx.haslayer('SecureLayer'):
        rep.units['not compiled'] = 1
        return
    G = ctx.com
    kps = set()
    for r in G.runs:
        for x in r.sum.exits:
            for e in x.st.ev:
                if e[1] == 'sign':
                    kps.add(e[2])
    for r in G.runs:
        for x in r.sum.exits:
            t = tr(G, r, x)
            key = r.key
            cs = created(G, x)
            signs = [e for e in x.st.ev if e[1] == 'sign']
            F = x.st.F
            for e in signs:
                rep.check(any(same_seq(e[3], q, F) for _, q in cs), 'signs-only-handshake', key, '%s signs %s, which is not '
                          'a CONNECT or ACK message it just created' % (key, show(e[3])[:300]), t, sample=show(e[3])[:200])
                rep.check(selfpath(e[2]) is not None, 'own-key', key, '%s signs with %s, not with the key pair of the layer'
                          % (key, show(e[2])), t, sample=show(e[2]))
            for nm, q in cs:
                if nm != 'create_connect_message':
                    continue
                pk = sslice(q, I(22 + 32), I(22 + 64), F)
                tm = termof(pk)
                rep.check(tm is not None and tm[0] == 'edpub' and selfpath(tm[1]) is not None and
                          all(tm[1] is k for k in kps), 'announces-signing-key', key, '%s announces the key %s, not the '
                          'public key of the pair it signs with' % (key, show(pk)[:200]), t, sample=show(pk)[:200])
            os_ = outs(G, r, x)
            if not cs:
                continue
            kind = G.W.split_result(x)[0]
            want = []
            kp = signs[0][2] if signs else (next(iter(kps)) if len(kps) == 1 else None)
            for nm, q in cs:
                want += list(q[1])
                if kp is not None:
                    want += list(edsig(kp, q)[1])
            want = list(mkseq(want)[1])
            if kind != 'err':
                ok = len(os_) == 1 and os_[0].segs is not None and same_seq(mkseq(os_[0].segs), mkseq(want), F)
                rep.check(ok, 'message-then-signature', key, '%s reports success but what it wrote is not the message followed '
                          'by its signature: %s' % (key, show(mkseq(os_[0].segs))[:500] if os_ and os_[0].segs is not None
                                                    else 'nothing'), t, sample=show(mkseq(want))[:300])
                rep.check(not any(e[1] in ('shortwrite', 'lostwrite') for e in x.st.ev), 'message-then-signature', key,
                          '%s reports success although the writer may not have taken everything' % key, t)
            else:
                ok = True
                for o in os_:
                    s = o.segs
                    if s is None:
                        ok = False
                        continue
                    if s and ispartial(s[-1]):
                        s = s[:-1]
                    ok = ok and len(s) <= len(want) and same_seq(mkseq(s), mkseq(want[:len(s)]), F)
                rep.check(ok and len(os_) <= 1, 'nothing-else-on-error', key, '%s fails after writing something that is not the '
                          'beginning of the message and its signature' % key, t, sample=key)
    # where the key pair comes from and that it stays
    paths = {selfpath(k) for k in kps if selfpath(k) is not None}
    for r in G.runs:
        for x in r.sum.exits:
            kind, v = G.W.split_result(x)
            t = tr(G, r, x)
            if r.shape is None:
                if kind == 'err':
                    continue
                seedarg = [i for i, ty in enumerate(r.root['inputs']) if G.mentions(ty, 'Seed32')]
                for p in paths:
                    l = keyat(G, v, p)
                    ok = l is not None and l[0] == 'sym' and l[1][0] == 'edkp' and l[1][1][0] == 'seq'
                    if not rep.check(ok, 'key-from-seed', r.key, '%s: the signing key of a new layer is %s' %
                                     (r.key, show(l)[:200] if l is not None else 'absent'), t):
                        continue
                    q = l[1][1]
                    given = None
                    for i in seedarg:
                        given = x.st.F.isv.get(mk('arg', i), given) if G.p.isadt(r.root['inputs'][i], 'Option') else 1
                    b = segterm(q[1][0]) if len(q[1]) == 1 else None
                    isseed = any(mk('arg', i) in atoms_in(q) for i in seedarg) and leaf_of_arg(q, seedarg)
                    isrng = b is not None and b[0] == 'rng' and b[1] == 'os'
                    rep.check(isseed if given == 1 else isrng if given == 0 else isseed or isrng, 'key-from-seed', r.key,
                              '%s derives the signing key from %s %s' %
                              (r.key, show(q)[:200], 'although a seed is given' if given == 1 else
                               'although no seed is given' if given == 0 else ''), t,
                              sample='seed %s: %s' % ({0: 'absent', 1: 'given'}.get(given, '?'), show(q)[:100]))
                continue
            fin = G.fin(x)
            for p in paths:
                a, b = G.get(r.selfv, p), G.get(fin, p)
                rep.check(b is None or b is a or (a is not None and same(a, b, x.st.F)), 'key-stays', r.key,
                          '%s replaces the signing key' % r.key, t, sample=r.key)
                if kind != 'err' and v[0] == 'adt' and v[1] == G.ty:
                    c = G.get(v, p)
                    rep.check(c is None or c is a, 'key-stays', r.key, '%s gives the clone another signing key' % r.key, t)
    for q, k in (('signs-only-handshake', 2), ('announces-signing-key', 1), ('message-then-signature', 2),
                 ('key-from-seed', 2), ('key-stays', 50), ('nothing-else-on-error', 2)):
        rep.floor(q, k)


def edsig(kp, q):
    return fixed(64, mk('edsig', kp, q))


def keyat(G, v, p):
    l = G.get(v, p)
    return l


def leaf_of_arg(q, idx):
    """q is exactly the bytes kept in an argument"""
    if len(q[1]) != 1 or q[1][0][0] != 'sub':
        return False
    b = q[1][0][1]
    if q[1][0][2] is not I(0) or q[1][0][3] is not baselen(b):
        return False
    t = b[2] if b[0] in ('fixed', 'lenof') else b
    while t[0] in ('fld', 'deref', 'bytes'):
        t = t[1]
    return t[0] == 'arg' and t[1] in idx


# ------------------------------------------------------- payloads, both ways
def option_at(G, F, v, t=None):
    """('none',) / ('some', inner) / None for an Option value"""
    if v[0] == 'adt' and G.p.isadt(v[1], 'Option'):
        return ('some', v[3][0]) if v[2] == 1 else ('none',)
    return None


def sent_payload(G, nm, args):
    """payload the minimal layer is given: 'none', a sequence, or None"""
    cand = []
    for a in args[1:]:
        v = a[1] if a[0] == 'vref' else a
        o = option_at(G, None, v)
        if o is not None:
            v = o[1] if o[0] == 'some' else 'none'
            if v != 'none' and v[0] == 'vref':
                v = v[1]
            cand.append(('opt', v))
        elif v[0] == 'seq':
            cand.append(('seq', v))
    opts = [v for k, v in cand if k == 'opt']
    if nm in CREATES:
        return opts[0] if len(opts) == 1 else None
    seqs = [v for k, v in cand if k == 'seq']
    return opts[0] if opts else seqs[0] if len(seqs) == 1 else None


SENDS = ('create_connect_message', 'create_ack_message', 'write_message')


def unzipped(q):
    """(level, content) when q is exactly one compressor output"""
    t = termof(q) if q[0] == 'seq' else None
    if t is not None and t[0] == 'zip':
        return t[1], t[2]
    return None


def objpart(q):
    """(code bytes, codec, object) of a serialized payload"""
    if q[0] == 'seq' and len(q[1]) == 2 and q[1][0][0] == 'lit':
        t = segterm(q[1][1])
        if t is not None and t[0] == 'ser':
            return q[1][0][1], t[1], t[2]
    return None


def data_of(G, r, F):
    """[(arg, 'none'|'some'|'plain', term of the data)] of the payload arguments of an operation"""
    out = []
    for i in data_args(G, r):
        ty = r.root['inputs'][i]
        if G.p.isadt(ty, 'Option'):
            k = F.isv.get(mk('arg', i))
            v = r.args[i]
            if v[0] == 'adt':
                k = v[2]
            if k is None:
                k = -1
            out.append((i, {0: 'none', 1: 'some', -1: '?'}[k]))
        else:
            out.append((i, 'plain'))
    return out


def isdata(t, i):
    """t is what the caller passed: a dereference chain of argument i"""
    n = 0
    while t[0] in ('fld', 'deref', 'sym', 'lenof', 'fixed'):
        t = t[2] if t[0] in ('lenof', 'fixed') else t[1]
        n += 1
    return t[0] == 'arg' and t[1] == i


def isbytes_of_arg(q, i):
    if q[0] == 'seq' and len(q[1]) == 1 and q[1][0][0] == 'sub':
        s = q[1][0]
        return s[2] is I(0) and s[3] is baselen(s[1]) and isdata(s[1], i)
    return False


def sends(G):
    """(run, exit, api call, payload) of the messages given to the minimal layer"""
    for r in G.runs:
        if r.shape is None:
            continue
        for x in r.sum.exits:
            for nm, k, v, args in api(G, x):
                if nm in SENDS:
                    yield r, x, nm, k, sent_payload(G, nm, args)


def byte_arg(G, r, i):
    """the payload argument is bytes rather than an object"""
    ty = r.root['inputs'][i]
    t = G.p.types[ty]
    while True:
        if t['k'] == 'adt' and t['path'].split('::')[-1] == 'Option':
            t = G.p.types[t['args'][0]]
        elif t['k'] == 'ref':
            t = G.p.types[t['ty']]
        else:
            break
    return t['k'] == 'slice' or t['k'] == 'adt' and t['path'].split('::')[-1] == 'Vec'


def C20(ctx, rep):
    if not ctx.haslayer('SecureLayer'):
        rep.units['not compiled'] = 1
        return
    G = ctx.com
    for r, x, nm, k, pay in sends(G):
        t = tr(G, r, x)
        key = r.key
        ds = data_of(G, r, x.st.F)
        if not rep.check(len(ds) == 1, 'sent-payload', key, '%s sends a message although it is not given one payload' % key, t):
            continue
        i, pres = ds[0]
        if not rep.check(pay is not None, 'sent-payload', key, '%s: the payload handed over is not known' % key, t):
            continue
        if pay == 'none':
            rep.check(pres == 'none', 'sent-absent', key, '%s drops the payload it was given' % key, t, sample=key)
            continue
        rep.check(pres in ('some', 'plain'), 'sent-absent', key, '%s sends a payload although none is given' % key, t,
                  sample=key)
        z = unzipped(pay)
        if not rep.check(z is not None, 'sent-compressed-once', key, '%s hands over %s, not one compressed payload' %
                         (key, show(pay)[:300]), t, sample=show(pay)[:200]):
            continue
        q = z[1]
        if byte_arg(G, r, i):
            rep.check(isbytes_of_arg(q, i), 'sent-payload', key, '%s compresses %s, not the bytes to send' %
                      (key, show(q)[:300]), t, sample=show(q)[:200])
        else:
            o = objpart(q)
            rep.check(o is not None and len(o[0]) == 4 and isdata(o[2], i), 'sent-serialized', key,
                      '%s compresses %s, not a format code followed by the serialized object' % (key, show(q)[:300]), t,
                      sample=show(q)[:200])
            if o is not None:
                rep.check(chosen_format(G, r, x.st.F, o[0]), 'configured-format', key, '%s serializes as %s although nothing says '
                          'that this is the configured format' % (key, o[1]), t, sample='%s: %s' % (key, o[1]))
    for r in G.runs:
        if r.shape is None or not G.writer_args(r):
            continue
        unsent(G, rep, r, 'sent-not-refused', signing_keys(G))
        for x in r.sum.exits:
            if G.W.split_result(x)[0] == 'err':
                continue
            n = [c for c in api(G, x) if c[0] in SENDS and c[1] != 'err']
            rep.check(len(n) == 1, 'sent-once', r.key, '%s reports success after handing over %d messages' % (r.key, len(n)),
                      tr(G, r, x), sample=r.key)
    nrecv = 0
    for r in G.runs:
        if r.shape is None or not G.msgs_out(r.root['output']):
            continue
        for x in r.sum.exits:
            kind, v = G.W.split_result(x)
            if kind == 'err':
                refused(G, rep, r, x)
                continue
            nrecv += 1
            received(G, rep, r, x, v)
    rep.units['receiving partitions'] = nrecv
    for q, k in (('sent-compressed-once', 6), ('sent-absent', 8), ('sent-once', 6), ('received', 20),
                 ('loop-maps-each', 4), ('received-all', 4), ('not-refused', 4)):
        rep.floor(q, k)
    if serde_here(G):
        rep.floor('sent-serialized', 3)


def serde_here(G):
    return any(t['k'] == 'adt' and t['path'].split('::')[-1] == 'IncomingMessage' for t in G.p.types)


def stripped(q, F, codecs):
    """(operations applied, innermost first; root sequence) of a received payload"""
    ops = []
    while True:
        if q[0] == 'sym' and q[1][0] == 'de':
            codec, inner = q[1][1], q[1][2]
            p = piece(inner)
            if p is None or cint(p[1]) != 4 or not F.eq_lin(p[2], baselen(p[0])):
                return ops, q
            whole_ = mkseq([mk('sub', p[0], I(0), baselen(p[0]))])
            code = [c for n, c in CODES.items() if CODEC.get(n) == codec]
            ok = bool(code) and fieldis_seq(F, mkseq([mk('sub', p[0], I(0), I(4))]), code[0])
            ops.append(('de', ok, codec))
            q = whole_
            continue
        if q[0] == 'seq':
            t = termof(q)
            if t is not None and t[0] == 'unzip':
                ops.append(('unzip', True, None))
                q = t[1]
                continue
        break
    ops.reverse()
    return ops, q


def fieldis_seq(F, q, val):
    b = bytes_of(q, F)
    return b == val if b is not None else F.entails_eq_seq(q, lit(val))


def parts(G, m):
    """(kind, payload option value, key bytes) of a message value"""
    kind = G.enumname(m)
    names = [f['name'] for f in G.p.types[m[1]]['variants'][m[2]]['fields']]
    opt, key = None, None
    for n, f in zip(names, m[3]):
        if f[0] == 'adt' and G.p.isadt(f[1], 'Option') or f[0] == 'sym' and G.p.isadt(f[2], 'Option'):
            opt = f
        elif 'pub' in n and 'key' in n:
            key = f
    return kind, opt, key


def looplist(r, base):
    for l in r.sum.loops.values():
        if base in l.phis:
            return l
    return None


def flat(G, r, q, srcs):
    """entries of a list value: ('one', value), ('src', base) of another call's list, ('loop', base, loop), ('?', seg)"""
    out = []
    for s in q[1]:
        if s[0] == 'one':
            out.append(('one', s[1]))
        elif s[0] == 'lit' and not s[1]:
            pass
        elif s[0] == 'sub' and cint(s[2]) == 0 and s[3] is baselen(s[1]):
            b = s[1]
            if b in srcs:
                out.append(('src', b))
            elif b[0] == 'seqbase':
                out += flat(G, r, b[1], srcs)
            else:
                li = looplist(r, b)
                if li is not None:
                    out += flat(G, r, li.phis[b][0], srcs)
                    out.append(('loop', b, li))
                else:
                    out.append(('?', s))
        else:
            out.append(('?', s))
    return out


def counters(li):
    """loop counters that start at 0 and grow by one each time round"""
    out = []
    for k, (e, bs) in li.phis.items():
        if k[0] == 'pf' or k[0] == 'int' or True:
            if e[0] != 'i' or cint(e) != 0:
                continue
            if all(b[1][0] == 'i' and b[1][1] == 1 and len(b[1][2]) == 1 and b[1][2][0][1] == 1 and
                   (b[1][2][0][0] is k or b[1][2][0][0][0] == 'int' and b[1][2][0][0][1] is k) for b in bs):
                out.append(k)
    return out


def skipping(r, li):
    """inner loops that only advance the position of a loop (as a filter does): (position, inner loop) pairs"""
    out = []
    for k, (e, bs) in li.phis.items():
        if e[0] != 'i' or cint(e) != 0 or not bs:
            continue
        for l2 in r.sum.loops.values():
            for k2, (e2, bs2) in l2.phis.items():
                if l2 is li or e2[0] != 'i' or not idx_is(e2, k):
                    continue
                if all(b[1][0] == 'i' and idx_is(ladd(b[1], I(-1)), k2) for b in list(bs) + list(bs2)):
                    out.append((k2, l2))
    return out


def elems_in(vals):
    out = set()
    for v in vals:
        for a in atoms_in(v):
            if a[0] == 'elem':
                out.add(a)
    return out


def srcbase(b):
    """the list a term elem(...) indexes, in the form it has as a segment base"""
    return b[1] if b[0] == 'tb' else b


def received(G, rep, r, x, v):
    t = tr(G, r, x)
    key = r.key
    want, srcs = [], set()
    for nm, k, val, args in api(G, x):
        if k == 'err':
            continue
        root = [q for q in G.p.roots if q['name'] == nm and q['exported'] and G.selfname(q) == 'MinimalSecureLayer']
        if not root or not G.msgs_out(root[0]['output']):
            continue
        if val[0] == 'seq':
            for s in val[1]:
                if s[0] == 'one':
                    want.append(('one', s[1]))
                elif s[0] == 'sub' and cint(s[2]) == 0 and s[3] is baselen(s[1]):
                    want.append(('src', s[1]))
                    srcs.add(s[1])
                else:
                    want.append(('?', s))
        elif val[0] == 'adt':
            for m in G.opt_message(val) if G.p.isadt(val[1], 'Option') else [val]:
                want.append(('one', m))
    want_ops = ['unzip', 'de'] if G.mentions(r.root['output'], 'IncomingMessage') else ['unzip']
    if not rep.check(v[0] == 'seq', 'received-all', key, '%s returns %s, not a list of messages' % (key, show(v)[:200]), t):
        return
    got = canon(G, rep, r, x, flat(G, r, v, srcs), srcs, t)
    if got is None:
        return
    ok = len(got) == len(want)
    if ok:
        for g, w in zip(got, want):
            if g[0] != w[0]:
                ok = False
    if not rep.check(ok, 'received-all', key, '%s returns %s although the messages received are %s' %
                     (key, [g[0] for g in got], [G.show(w[1])[:60] for w in want]), t,
                     sample='%s: %s' % (key, [G.show(w[1])[:60] for w in want])):
        return
    for g, w in zip(got, want):
        if w[0] == 'src':
            rep.check(g[1] is w[1] and g[2] == want_ops, 'received', key, '%s transforms the kept messages with %s, not '
                      'with %s' % (key, g[2], want_ops), t, sample=str(g[2]))
            continue
        gk, gopt, gkey = parts(G, g[1])
        wk, wopt, wkey = parts(G, w[1])
        rep.check(gk == wk, 'received', key, '%s returns a %s message for a %s message' % (key, gk, wk), t)
        if wkey is not None:
            rep.check(gkey is not None and same(gkey, wkey, x.st.F), 'received', key, '%s reports another key of the peer '
                      'than the accepted message carries' % key, t)
        if gopt is None or wopt is None:
            continue
        if G.none(wopt) or G.none(gopt):
            rep.check(G.none(wopt) and G.none(gopt), 'received-absent', key, '%s returns payload %s for payload %s' %
                      (key, G.show(gopt)[:200], G.show(wopt)[:200]), t, sample=key)
            continue
        if not rep.check(G.some(gopt) and G.some(wopt), 'received', key, '%s: payload %s is not known' %
                         (key, G.show(gopt)[:200]), t):
            continue
        ops, root = stripped(gopt[3][0], x.st.F, None)
        rep.check([o[0] for o in ops] + g[2] == want_ops and same(root, wopt[3][0], x.st.F), 'received', key,
                  '%s returns %s for the payload %s' % (key, G.show(gopt)[:300], G.show(wopt)[:200]), t,
                  sample=G.show(gopt)[:200])
        rep.check(all(o[1] for o in ops), 'received', key, '%s decodes a payload with %s although its code does not name that '
                  'codec' % (key, [o[2] for o in ops]), t)


def canon(G, rep, r, x, entries, srcs, t):
    """entries with loops over other lists replaced by what they visit"""
    out = []
    for e in entries:
        if e[0] in ('one', 'src'):
            out.append((e[0], e[1], []))
            continue
        if e[0] == '?':
            rep.check(False, 'received-all', r.key, '%s returns something that is not traced to a received message: %s' %
                      (r.key, show(e[1])[:300]), t)
            return None
        res = mapped(G, rep, r, x, e[1], e[2], srcs, t)
        if res is None:
            return None
        base, ops = res
        if base in srcs:
            out.append(('src', base, ops))
            continue
        li = looplist(r, base)
        inner = canon(G, rep, r, x, flat(G, r, mkseq([mk('sub', base, I(0), baselen(base))]), srcs), srcs, t)
        if inner is None:
            return None
        for y in inner:
            out.append((y[0], y[1], y[2] + ops))
    return out


def kinds_of(G, r, base):
    """variant names of the elements of a list built by a loop; None when unknown"""
    li = looplist(r, base)
    if li is None:
        return None
    out = set()
    e, bs = li.phis[base]
    for q in [e] + [b[1] for b in bs]:
        for s in q[1]:
            if s[0] == 'one' and s[1][0] == 'sym' and s[1][1][0] == 'elem':
                # a message of another list, as it is
                sub = [b for l in r.sum.loops.values() for b in l.phis if b is not base and srcbase(b) is s[1][1][1]]
                ks = kinds_of(G, r, sub[0]) if len(sub) == 1 else None
                if ks is None:
                    return None
                out |= ks
            elif s[0] == 'one':
                n = G.enumname(s[1])
                if n is None:
                    return None
                out.add(n)
            elif s[0] == 'sub' and s[1] is base:
                pass
            elif s[0] == 'sub' and looplist(r, s[1]) is not None and s[1] is not base:
                out |= kinds_of(G, r, s[1]) or {None}
            else:
                return None
    return out


def mapped(G, rep, r, x, base, li, srcs, t):
    """(list the loop visits, operations applied to each payload), None after a report"""
    key = r.key
    cs = counters(li)
    e, bs = li.phis[base]
    new = []
    if not cs:
        for k2, l2 in skipping(r, li):
            cs.append(k2)
            for i, (F, v, ev) in enumerate(l2.phis[k2][1]):
                new.append((F, (), l2.backs[i]))
    for i, (F, v, ev) in enumerate(bs):
        segs = list(v[1])
        ok = segs and segs[0][0] == 'sub' and segs[0][1] is base
        if not rep.check(ok, 'loop-maps-each', key, '%s: a loop replaces the messages found so far' % key, t):
            return None
        new.append((F, segs[1:], li.backs[i]))
    cand = set()
    for F, add, back in new:
        for a in elems_in(add) | elems_in(list(F.isv)):
            if any(idx_is(a[2], c) for c in cs):
                cand.add((a[1], a))
    lists = {a for a, _ in cand}
    bases = [b for b in list(srcs) + [k for l in r.sum.loops.values() for k in l.phis if k[0] == 'tb']
             if srcbase(b) in lists]
    bases = list(dict.fromkeys(bases))
    if not rep.check(len(bases) == 1, 'loop-maps-each', key, '%s: a loop adds messages that are not the elements of one list '
                     'in order' % key, t):
        return None
    src = bases[0]
    el = [a for l, a in cand if l is srcbase(src)]
    kinds = kinds_of(G, r, src)
    opsall = None
    for F, add, back in new:
        es = [a for a in el]
        var = None
        left = None
        for a in es:
            if a in F.isv:
                var = (a, F.isv[a])
            elif a in F.notv and src[0] == 'tb':
                left = {v['name'] for i, v in enumerate(G.p.types[src[2]]['variants']) if i not in F.notv[a]}
        sty = src[2] if src[0] == 'tb' else None
        nm = None
        if var is not None and sty is not None:
            nm = G.p.types[sty]['variants'][var[1]]['name']
        if not add:
            left = {nm} if nm is not None else left
            rep.check(left is not None and kinds is not None and not left & kinds, 'loop-maps-each', key, '%s: a loop skips '
                      '%s messages' % (key, ' and '.join(sorted(left)) if left else 'some'), facts_of(F, t),
                      sample='%s skips only %s, which cannot be met' % (key, sorted(left or ())))
            continue
        if kinds is not None and nm is not None and nm not in kinds:
            continue
        if not rep.check(len(add) == 1 and add[0][0] == 'one', 'loop-maps-each', key, '%s: a loop adds %d messages for one '
                         'received' % (key, len(add)), facts_of(F, t)):
            return None
        m = add[0][1]
        if m[0] == 'sym' and m[1] in el:
            if opsall is not None:
                rep.check(not opsall, 'loop-maps-each', key, '%s: a loop treats payloads differently' % key, facts_of(F, t))
            opsall = opsall or []
            continue
        k, opt, pk = parts(G, m)
        if not rep.check(var is not None and k == nm, 'loop-maps-each', key, '%s: a loop returns a %s message for a %s '
                         'message' % (key, k, nm), facts_of(F, t), sample='%s: %s for %s' % (key, k, nm)):
            return None
        a = var[0]
        fields = G.p.types[sty]['variants'][var[1]]['fields']
        oi = [i for i, f in enumerate(fields) if G.p.isadt(f['ty'], 'Option')]
        ki = [i for i, f in enumerate(fields) if 'pub' in f['name'] and 'key' in f['name']]
        if pk is not None and ki:
            rt = termof(pk)
            rep.check(rt is not None and rt is mk('fld', a, var[1], ki[0]), 'loop-maps-each', key, '%s: a loop reports '
                      'another key' % key, facts_of(F, t))
        ft = mk('fld', a, var[1], oi[0])
        known = F.isv.get(ft)
        if G.none(opt):
            rep.check(known == 0, 'loop-maps-each', key, '%s: a loop drops the payload of a message' % key, facts_of(F, t),
                      sample='absent payload stays absent')
            continue
        if not rep.check(G.some(opt) and known == 1, 'loop-maps-each', key, '%s: a loop adds a payload' % key,
                         facts_of(F, t)):
            return None
        ops, root = stripped(opt[3][0], F, None)
        rt = termof(root) if root[0] == 'seq' else None
        rep.check(rt is not None and rt is mk('fld', ft, 1, 0), 'loop-maps-each', key, '%s: a loop returns %s for the payload '
                  '%s' % (key, G.show(opt)[:200], show(ft)[:200]), facts_of(F, t), sample=G.show(opt)[:200])
        rep.check(all(o[1] for o in ops), 'loop-maps-each', key, '%s decodes a payload with %s although its code does not name '
                  'that codec' % (key, [o[2] for o in ops]), facts_of(F, t))
        names = [o[0] for o in ops]
        if opsall is not None and names != opsall:
            rep.check(False, 'loop-maps-each', key, '%s: a loop treats payloads differently: %s and %s' %
                      (key, names, opsall), facts_of(F, t))
        opsall = names
    # the loop goes on to the end of the list
    n = mk('len', srcbase(src))
    done = any(x.st.F.ent_le(lsub(baselen(src), mkint_of(c))) for c in cs if any(idx_is(a[2], c) for a in el))
    rep.check(done, 'loop-complete', key, '%s: a loop may stop before the last message' % key, t, sample=key)
    return src, opsall or []


def mkint_of(c):
    return c if c[0] == 'i' else atom(c if c[0] in ('int', 'len') else mk('int', c, 64))


def idx_is(i, c):
    if i is c:
        return True
    if i[0] == 'i' and i[1] == 0 and len(i[2]) == 1 and i[2][0][1] == 1:
        a = i[2][0][0]
        return a is c or a[0] == 'int' and a[1] is c
    return i[0] == 'int' and i[1] is c


def facts_of(F, t):
    return lambda: ['loop fact: ' + f for f in facts_text(F)] + t()


def refused(G, rep, r, x, rule='not-refused'):
    """an error after the minimal layer accepted the bytes has a reason"""
    calls = api(G, x)
    if not calls or any(c[1] == 'err' for c in calls):
        return
    t = tr(G, r, x)
    ok = bool(x.st.fails)
    if not ok and G.mentions(r.root['output'], 'IncomingMessage'):
        us = []
        for e in x.st.ev:
            if e[1] == 'unzip':
                us.append(whole_of(mk('unzip', e[2])))
        for b in bases_of_facts(x.st.F):
            us.append(mkseq([mk('sub', b, I(0), baselen(b))]))
        for u in us:
            if u is None:
                continue
            F = x.st.F
            if all(contradicts(F, [le0(lsub(I(4), slen(u))), seq_eq(sslice(u, I(0), I(4), F), lit(CODES[n]), None)])
                   for n in CODEC):
                ok = True
                break
    rep.check(ok, rule, r.key, '%s reports an error although the message was accepted and nothing failed' % r.key, t,
              sample='%s: %s' % (r.key, ', '.join(show(f) for f in x.st.fails)))


def chosen_format(G, r, F, code):
    """the code is the one of the format held by the layer or an argument"""
    if any(G.mentions(ty, 'MessageFormat') for ty in r.root['inputs'][1:]):
        return True
    return any(CODES.get(f) == code for f in formats_known(G, r, F))


def formats_known(G, r, F):
    """formats which fields of the layer are known to hold"""
    out = []
    for p, v in G.leaves(r.selfv):
        n = G.enumname(v)
        if v[0] == 'sym' and G.p.isadt(v[2], 'MessageFormat') and F.isv.get(v[1]) is not None:
            out.append(G.p.types[v[2]]['variants'][F.isv[v[1]]]['name'])
        elif n is not None and G.p.isadt(v[1], 'MessageFormat'):
            out.append(n)
    return out


def no_key(G, r, F, paths):
    """the layer has no signing key"""
    for p in paths:
        for n in range(len(p) + 1):
            v = G.get(r.selfv, p[:n])
            if v is None:
                return True
            if v[0] == 'adt' and G.p.isadt(v[1], 'Option') and v[2] == 0:
                return True
            if v[0] == 'sym' and F.isv.get(v[1]) == 0 and G.p.isadt(v[2], 'Option'):
                return True
    return False


def handed(G, c):
    """the call of the minimal layer delivered a handshake message"""
    return c[1] != 'err' and any(G.enumname(v) in ('Connect', 'Ack') for v in adts_in(c[2]))


def adts_in(v):
    if v[0] == 'adt':
        yield v
    if v[0] in ('adt', 'tup'):
        for y in v[3] if v[0] == 'adt' else v[1]:
            yield from adts_in(y)
    elif v[0] == 'seq':
        for s in v[1]:
            if s[0] == 'one':
                yield from adts_in(s[1])


def signing_keys(G):
    if getattr(G, '_signing', None) is None:
        G._signing = {selfpath(e[2]) for r in G.runs for x in r.sum.exits for e in x.st.ev
                      if e[1] == 'sign' and selfpath(e[2]) is not None}
    return G._signing


def unsent(G, rep, r, rule, paths=()):
    """a message is only refused by the complete layer for a reason: a failed step, a format without object codec, or
    no key to sign with"""
    for x in r.sum.exits:
        kind, v = G.W.split_result(x)
        if kind != 'err' or x.st.fails or any(c[1] == 'err' for c in api(G, x)):
            continue
        fmt = [f for f in formats_known(G, r, x.st.F) if f not in CODEC]
        rep.check(bool(fmt) and not api(G, x) or no_key(G, r, x.st.F, paths), rule, r.key, '%s refuses to send what it was '
                  'given: %s' % (r.key, G.show(x.ret)[:200]), tr(G, r, x), sample='%s -> %s' % (r.key, G.show(x.ret)[:100]))


def handshake_above(ctx, rep):
    """the complete layer refuses no handshake message the minimal layer creates or accepts"""
    if not ctx.haslayer('SecureLayer'):
        return
    G = ctx.com
    for r in G.runs:
        if r.shape is None:
            continue
        if G.writer_args(r):
            if any(c[0] in CREATES for x in r.sum.exits for c in api(G, x)):
                unsent(G, rep, r, 'created-above', signing_keys(G))
        elif G.msgs_out(r.root['output']):
            for x in r.sum.exits:
                if G.W.split_result(x)[0] == 'err' and any(handed(G, c) for c in api(G, x)):
                    refused(G, rep, r, x, 'accepted-above')


def whole_of(t):
    return whole(t)


def all_atoms(F):
    out = set()
    for l in F.lins:
        for a, _ in l[2]:
            out.add(a)
    for p in F.preds:
        out |= set(atoms_in(p))
    for k in F.known:
        out.add(k)
    return out


def bases_of_facts(F):
    out = []
    for a in all_atoms(F):
        if a[0] == 'len' and a[1] not in out:
            out.append(a[1])
        elif a[0] == 'byte' and a[1] not in out:
            out.append(a[1])
    return out


# ------------------------------------------------------------------------ C21
def C21(ctx, rep):
    names, written = format_codes(ctx, rep)
    if names is None:
        return
    format_codecs(ctx, rep, names, written)


def format_codes(ctx, rep):
    """({format: code} both ways; (names, codes written)"""
    fmt = [i for i, t in enumerate(ctx.p.types) if t['k'] == 'adt' and t['path'].split('::')[-1] == 'MessageFormat']
    if not fmt:
        rep.units['not compiled'] = 1
        return None, None
    T_ = ctx.p.types[fmt[0]]
    names = [v['name'] for v in T_['variants']]
    written, readers, writers = {}, 0, 0
    for r, s, E in ctx.roots.runs:
        ins = r['inputs']
        if len(ins) != 1:
            continue
        t0 = ctx.p.types[ins[0]]
        inner = t0['ty'] if t0['k'] == 'ref' else ins[0]
        out = ctx.p.types[r['output']]
        if inner == fmt[0] and out['k'] == 'ref' and ctx.p.types[out['ty']]['k'] == 'slice':
            writers += 1
            for x in s.exits:
                q = x.ret[1] if x.ret[0] == 'vref' else x.ret
                b = bytes_of(q, x.st.F) if q[0] == 'seq' else None
                vs = [v for k, v in x.st.F.isv.items() if root_arg(k)]
                vs = vs or list(range(len(names)))
                for v in vs:
                    rep.check(b is not None and len(b) == 4 and written.get(names[v], b) == b, 'one-code', names[v],
                              'the code of format %s is %s' % (names[v], show(q)), sample='%s: %s' % (names[v], b.hex() if b else b))
                    written[names[v]] = b
    for n in names:
        rep.check(n in written, 'one-code', n, 'format %s has no code' % n)
        rep.check(CODES.get(n, written.get(n)) == written.get(n), 'documented-code', n, 'format %s is written as %s' %
                  (n, written.get(n)), sample='%s = %s' % (n, written[n].hex() if written.get(n) else None))
    vals = [b for b in written.values()]
    rep.check(len(set(vals)) == len(vals), 'distinct-codes', 'codes', 'two formats share one code: %s' % written,
              sample={k: v.hex() for k, v in written.items() if v})
    for r, s, E in ctx.roots.runs:
        ins = r['inputs']
        if len(ins) != 1 or not mentions_fmt(ctx, r['output'], fmt[0]) or ctx.p.types[ins[0]]['k'] != 'ref':
            continue
        if ctx.p.types[ctx.p.types[ins[0]]['ty']]['k'] != 'slice':
            continue
        readers += 1
        b0 = mk('deref', mk('arg', 0))
        q = whole(b0)
        seen = set()
        for x in s.exits:
            v = x.ret
            t = lambda: trace_of(x.st) + ['fact: ' + f for f in facts_text(x.st.F)]
            okv = v[0] == 'adt' and v[2] == 0 and v[3] and v[3][0][0] == 'adt'
            if okv:
                n = names[v[3][0][2]]
                seen.add(n)
                F = x.st.F
                rep.check(F.eq_lin(slen(q), I(4)) and written.get(n) is not None and
                          fieldis_seq(F, sslice(q, I(0), I(4), F), written[n]), 'reads-back', n,
                          '%s accepts as %s bytes that are not its code' % (r['key'], n), t,
                          sample='%s <- %s' % (n, written[n].hex() if written.get(n) else None))
            elif v[0] == 'adt' and v[2] == 1:
                for n, c in written.items():
                    if c is None:
                        continue
                    rep.check(contradicts(x.st.F, [eq0(lsub(slen(q), I(4))), seq_eq(sslice(q, I(0), I(4), x.st.F), lit(c), x.st.F)]),
                              'code-accepted', n, '%s may refuse the code of format %s' % (r['key'], n), t, sample=n)
            else:
                rep.check(False, 'reads-back', 'form', '%s yields %s' % (r['key'], show(v)[:200]), t)
        for n in names:
            rep.check(n in seen, 'code-accepted', n, '%s never yields format %s' % (r['key'], n))
    rep.check(readers >= 1 and writers >= 1, 'one-code', 'functions', 'no function reads or writes format codes')
    rep.floor('one-code', 2)
    rep.floor('reads-back', 2)
    return names, written


def format_codecs(ctx, rep, names, written):
    """the serializer used goes with the code written or read"""
    fmt = [i for i, t in enumerate(ctx.p.types) if t['k'] == 'adt' and t['path'].split('::')[-1] == 'MessageFormat']
    if ctx.haslayer('SecureLayer'):
        G = ctx.com
        mine = {CODEC[n]: written.get(n) for n in names if n in CODEC}
        for r, x, nm, k, pay in sends(G):
            if pay is None or pay == 'none':
                continue
            ds = data_of(G, r, x.st.F)
            if len(ds) != 1 or byte_arg(G, r, ds[0][0]):
                continue
            t = tr(G, r, x)
            z = unzipped(pay)
            o = objpart(z[1]) if z else None
            if not rep.check(o is not None, 'sent-codec', r.key, '%s sends an object that is not a format code followed by '
                             'one serialization: %s' % (r.key, show(pay)[:300]), t):
                continue
            rep.check(mine.get(o[1]) == o[0], 'sent-codec', '%s %s' % (r.key, o[1]), '%s writes the code %s before data '
                      'encoded by %s' % (r.key, o[0].hex(), o[1]), t, sample='%s: %s' % (o[1], o[0].hex()))
            cf = [names[v] for k2, v in x.st.F.isv.items() if selfpath(k2) is not None and fmtleaf(G, r, k2, fmt[0])]
            for k2, no in x.st.F.notv.items():
                left = [n for v, n in enumerate(names) if v not in no]
                if len(left) == 1 and selfpath(k2) is not None and fmtleaf(G, r, k2, fmt[0]):
                    cf += left
            cf += [names[v] for v in formats_in(r.selfv, fmt[0])]
            rep.check(any(written.get(n) == o[0] for n in cf), 'configured-format', '%s %s' % (r.key, o[1]),
                      '%s uses %s although the configured format is %s' % (r.key, o[1], cf or 'not consulted'), t,
                      sample='%s: %s' % (o[1], cf))
        for r in G.runs:
            if r.shape is None:
                continue
            if not G.mentions(r.root['output'], 'IncomingMessage'):
                continue
            for x in r.sum.exits:
                for F, m in decoded(r, x):
                    p = piece(m[2])
                    t = tr(G, r, x)
                    if not rep.check(p is not None and cint(p[1]) == 4, 'received-codec', '%s %s' % (r.key, m[1]), '%s decodes '
                                     '%s' % (r.key, show(m[2])[:200]), t):
                        continue
                    code = mine.get(m[1])
                    rep.check(code is not None and fieldis_seq(F, mkseq([mk('sub', p[0], I(0), I(4))]), code),
                              'received-codec', '%s %s' % (r.key, m[1]), '%s decodes with %s a payload whose code is not %s' %
                              (r.key, m[1], code.hex() if code else None), t, sample='%s after %s' % (m[1], code.hex() if code else None))
        if mine:
            rep.floor('sent-codec', 3 * len(mine))
            rep.floor('received-codec', 2 * len(mine))


def formats_in(v, ty):
    """variants of the formats an object is known to hold"""
    if v[0] == 'adt':
        if v[1] == ty:
            yield v[2]
        for y in v[3]:
            yield from formats_in(y, ty)


def decoded(r, x):
    """(facts, de term) of what was deserialized for an exit, loops included"""
    seen = set()

    def walk(F, v):
        for a in atoms_in(v):
            if a[0] == 'de' and (id(F), a) not in seen:
                seen.add((id(F), a))
                yield F, a
    yield from walk(x.st.F, x.ret)
    for l in r.sum.loops.values():
        for k, (e, bs) in l.phis.items():
            for F, v, ev in bs:
                yield from walk(F, v)


def root_arg(k):
    while k[0] in ('deref', 'fld'):
        k = k[1]
    return k[0] == 'arg' and k[1] == 0


def mentions_fmt(ctx, ty, f):
    if ty == f:
        return True
    t = ctx.p.types[ty]
    return t['k'] == 'adt' and any(a == f for a in t.get('args') or [] if isinstance(a, int))


def fmtleaf(G, r, k, fty):
    v = G.get(r.selfv, selfpath(k))
    return v is not None and (v[0] == 'sym' and v[2] == fty or v[0] == 'adt' and v[1] == fty)


# ------------------------------------------------------------------------ C22
WANT = ('encryption', 'decryption', 'write', 'key agreement', 'ephemeral key generation', 'public key computation')
WANTC = ('signature key loading', 'compress', 'decompress')
WANTS = ('serialization', 'deserialization')


def C22(ctx, rep):
    for G in ctx.worlds():
        met = {}
        for r in G.runs:
            for x in r.sum.exits:
                kind, v = G.W.split_result(x)
                bad = sorted(f[1] if len(f) > 1 else str(f) for f in x.st.fails)
                for b in bad:
                    met[b] = met.get(b, 0) + 1
                lost = [e[1] for e in x.st.ev if e[1] in ('shortwrite', 'lostwrite')]
                if kind == 'err':
                    if bad:
                        rep.ok('reported', sample='%s: %s -> %s' % (r.key, bad, G.show(x.ret)[:80]))
                    continue
                t = tr(G, r, x)
                rep.check(not bad, 'no-swallowed-failure', '%s %s' % (r.key, ','.join(bad)), '%s reports success although %s '
                          'failed' % (r.key, ', '.join(bad)), t, sample=r.key)
                rep.check(not lost, 'no-lost-output', r.key, '%s reports success although part of the output may not have '
                          'been taken by the writer' % r.key, t, sample=r.key)
        for w in WANT + (WANTC if G.complete else ()) + (WANTS if G.complete and serde_here(G) else ()):
            rep.check(met.get(w, 0) > 0, 'failure-considered', '%s %s' % (G.layer, w), 'no path of %s on which %s fails was '
                      'found' % (G.layer, w), sample='%s: %s on %d paths' % (G.layer, w, met.get(w, 0)))
        rep.units['%s.failing paths' % G.layer] = sum(met.values())
    for r, s, E in ctx.roots.runs:
        for x in s.exits:
            bad = sorted(f[1] for f in x.st.fails)
            v = x.ret
            err = v[0] == 'adt' and ctx.p.isadt(v[1], 'Result') and v[2] == 1
            rep.check(err or not bad, 'no-swallowed-failure', '%s %s' % (r['key'], ','.join(bad)), '%s reports success although '
                      '%s failed' % (r['key'], ', '.join(bad)), lambda: trace_of(x.st), sample=r['key'])
    rep.floor('no-swallowed-failure', 100)
    rep.floor('reported', 20)


# ------------------------------------------------------------------------ C23
def confpaths(G):
    """leaves of the configuration in a layer of G"""
    out = set()
    for t in G.W.trans:
        if t[0] is not None:
            continue
        r, x = t[1], t[2]
        k, v = G.W.split_result(x)
        if k == 'err':
            continue
        for path, l in G.leaves(v):
            if G.E and argof(l) == 0 and G.tyname(r.root['inputs'][0]) == 'SecureLayerConfig':
                out.add(path)
    return out


def argof(l):
    if l[0] == 'sym':
        t = l[1]
    elif l[0] == 'i' and len(l[2]) == 1:
        t = l[2][0][0]
        if t[0] == 'int':
            t = t[1]
    else:
        return None
    while t[0] == 'fld':
        t = t[1]
    return t[1] if t[0] == 'arg' else None


def C23(ctx, rep):
    for G in ctx.worlds():
        cf = confpaths(G)
        rep.check(bool(cf), 'kept', G.layer, 'a new %s does not keep its configuration' % G.layer, sample=sorted(
            G.pathname(p) for p in cf))
        for n, r, x, suc, born in G.cases():
            g = n[1]
            kind, v = G.W.split_result(x)
            pre, fin = r.selfv, G.fin(x)
            t = lambda: G.trace(n, r, x)
            carg = [i for i, ty in enumerate(r.root['inputs']) if G.tyname(ty) == 'SecureLayerConfig']
            F = x.st.F
            same_conf = all(eqleaf(G, pre, fin, p, F) for p in cf)
            if carg:
                cl = 'cl' in g or 'isclone' in g
                if cl:
                    rep.check(kind == 'err', 'frozen', r.key, '%s succeeds although the layer %s' %
                              (r.key, 'is a clone' if 'isclone' in g else 'was cloned'), t, sample='%s after %s' % (r.key, sorted(g)))
                else:
                    rep.check(kind != 'err', 'changeable', r.key, '%s is refused although the layer was never cloned' % r.key, t,
                              sample='%s after %s' % (r.key, sorted(g)))
                if kind != 'err':
                    a = r.args[carg[0]]
                    for p in cf:
                        l = G.get(fin, p)
                        rep.check(l is not None and argof(l) == carg[0] and leafarg(l)[-1:] == p[-1:], 'takes-effect',
                                  '%s %s' % (r.key, G.pathname(p)), '%s leaves %s as it was' % (r.key, G.pathname(p)), t,
                                  sample='%s := %s' % (G.pathname(p), show(l) if l is not None else l))
                else:
                    for p, a in G.leaves(pre):
                        b = G.get(fin, p)
                        rep.check(b is not None and (a is b or same(a, b, F)), 'refusal-changes-nothing', r.key,
                                  '%s is refused but changes %s' % (r.key, G.pathname(p)), t, sample=r.key)
            else:
                rep.check(same_conf, 'only-by-request', r.key, '%s changes the configuration' % r.key, t, sample=r.key)
            if born or kind != 'err' and v[0] == 'adt' and v[1] == G.ty:
                cl = v if v[0] == 'adt' and v[1] == G.ty else None
                if cl is None:
                    rep.check(False, 'clone-config', r.key, '%s makes a layer that is not its result' % r.key, t)
                else:
                    rep.check(all(eqleaf(G, pre, cl, p, F) for p in cf), 'clone-config', r.key,
                              '%s gives the clone another configuration' % r.key, t, sample=r.key)
            if 'isclone' in g:
                add, fatal, dl, wrote, k2, v2 = G.effects(r, x)
                rep.check(not add & {'sC', 'sA'}, 'no-handshake', r.key, '%s: a clone produces a handshake message' % r.key, t,
                          sample=r.key)
                if G.complete and any(w in r.root['name'] for w in ('connect', 'ack')) and G.writer_args(r):
                    rep.check(kind == 'err' and not wrote, 'no-handshake', r.key, '%s: a clone writes a handshake message' %
                              r.key, t)
        if G.complete:
            level(G, rep, cf)
    for q, k in (('frozen', 1), ('changeable', 1), ('takes-effect', 1), ('refusal-changes-nothing', 1), ('only-by-request', 100),
                 ('clone-config', 1), ('no-handshake', 2)):
        rep.floor(q, k)


def leafarg(l):
    t = l[1] if l[0] == 'sym' else l[2][0][0]
    if t[0] == 'int':
        t = t[1]
    path = []
    while t[0] == 'fld':
        path.append((t[2], t[3]))
        t = t[1]
    return tuple(reversed(path))


def eqleaf(G, a, b, p, F):
    x, y = G.get(a, p), G.get(b, p)
    return x is y or (x is not None and y is not None and same(x, y, F))


def level(G, rep, cf):
    """the compression settings decide how payloads are compressed"""
    lv = [p for p in cf if G.pathname(p).endswith('compression')]
    ms = [p for p in cf if G.pathname(p).endswith('compression_min_size')]
    if not lv or not ms:
        rep.check(False, 'level', 'fields', 'the configuration has no compression settings')
        return
    for r, x, nm, k, pay in sends(G):
        if pay is None or pay == 'none':
            continue
        z = unzipped(pay)
        if z is None:
            continue
        t = tr(G, r, x)
        l = z[0]
        n = slen(z[1])
        m = G.get(r.selfv, ms[0])
        c = G.get(r.selfv, lv[0])
        small = x.st.F.ent_le(ladd(lsub(n, m), I(1)))
        big = x.st.F.ent_le(lsub(m, n))
        if small:
            ok = not (c is l) and l[0] == 'sym' and l[1][0] == 'level' and l[1][1] == 'none'
        elif big:
            ok = l is c or same(l, c, x.st.F)
        else:
            ok = False
        rep.check(ok, 'level', '%s %s' % (r.key, 'small' if small else 'big' if big else '?'), '%s compresses a %s payload at '
                  'level %s' % (r.key, 'small' if small else 'big' if big else 'any', show(l)), t,
                  sample='%s: %s' % ('below the minimal size' if small else 'from the minimal size on', show(l)))
    rep.floor('level', 6)
