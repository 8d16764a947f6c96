"""What a layer accepts and what accepting changes (C05, C06, C07, C09, C10, C12, C27, C28)."""
from base import *
from mini import *
from frame import *


def all_deliveries(M):
    """[(run, exit, delivery)] over every state and operation, one per iteration for collected results"""
    if getattr(M, '_dl', None) is None:
        out = []
        seen = set()
        for r in M.runs:
            for x in r.sum.exits:
                for d in M.deliveries(r, x):
                    k = (id(d.F), d.val)
                    if d.loop is not None:
                        if k in seen:
                            continue
                        seen.add(k)
                    out.append((r, x, d))
        M._dl = out
    return M._dl


def tr(M, r, x):
    return lambda: M.trace(None, r, x)


def frame_of(M, d):
    """frame (D, e) of a delivered user message: the hash-checked one its payload is taken from"""
    fs = hashed_frames(d.F)
    opt, rest = payload(M, d.val)
    if M.some(opt) if opt is not None else False:
        p = piece(opt[3][0])
        if p:
            fs = [f for f in fs if f[0] is p[0]] or fs
    return fs


# ------------------------------------------------------------------------ C05
def C05(ctx, rep):
    M = ctx.min
    for r, x, d in all_deliveries(M):
        key = '%s %s' % (r.key, d.kind)
        t = tr(M, r, x)
        if d.kind == 'Message':
            fs = frame_of(M, d)
            if not rep.check(bool(fs), 'hash-checked', key, '%s delivers a user message without a SHA-256 check of the '
                             'message it is taken from' % r.key, t, sample=M.show(d.val)[:300]):
                continue
            D, e = fs[0]
            rep.check(isauth(d.F, D), 'authenticated', key, '%s delivers a user message whose bytes were not '
                      'authenticated by decryption' % r.key, t, sample=show(D)[:300])
            q = isdec(D)
            if q is not None:
                rep.check(all(session_bytes(M, s) for s in q[1:4]), 'session-key', key,
                          '%s delivers a user message decrypted with %s, not with the session key of the layer' %
                          (r.key, ', '.join(show(s) for s in q[1:4])), t)
            rep.check(fieldis(d.F, D, 16, 18, TYPES['Message']), 'type', key,
                      '%s delivers a user message from bytes that are not of the user message type' % r.key, t)
            opt, rest = payload(M, d.val)
            rep.check(payload_is(M, d.F, opt, D, 26, e) and lenfield(d.F, D, e), 'payload', key,
                      '%s delivers something else than the payload of the checked message: %s' %
                      (r.key, M.show(d.val)[:300]), t, sample=M.show(d.val)[:300])
        elif d.kind in ('Connect', 'Ack'):
            bs = {f[0] for f in signed_frames(d.F)}
            opt, rest = payload(M, d.val)
            for v in [opt[3][0]] if opt is not None and M.some(opt) else []:
                p = piece(v)
                if p:
                    bs.add(p[0])
            rep.check(bool(bs) and all(isdec(b) is None and not isauth(d.F, b) for b in bs), 'handshake-in-clear', key,
                      '%s accepts a handshake message that was received encrypted' % r.key, t,
                      sample=', '.join(show(b) for b in bs)[:200])
        else:
            rep.fail('identified', key, '%s hands over something that is not recognised as a message: %s' %
                     (r.key, M.show(d.val)[:200]), t())
    rep.units['deliveries'] = len(all_deliveries(M))
    rep.units['operations x states'] = len(M.runs)
    for q, n in (('hash-checked', 4), ('authenticated', 4), ('session-key', 2), ('payload', 4),
                 ('handshake-in-clear', 4)):
        rep.floor(q, n)


def session_bytes(M, q):
    """q consists of bytes stored in the layer, or of the key material derived in this very operation"""
    p = piece(q)
    if p is None:
        return False
    b = p[0]
    t = b[2] if b[0] in ('fixed', 'lenof') else b
    if t[0] == 'pbkdf2':
        return True
    if t[0] == 'bytes':
        t = t[1]
    while t[0] in ('fld', 'pf'):
        t = t[1]
    return t[0] == 'self' or (t[0] == 'phi' and t[2] == ('root', 'self'))


# ------------------------------------------------------------------------ C06
def trusted_changes(M, r, x, pre, post):
    for p in M.trusted:
        a, b = M.get(pre, p), M.get(post, p)
        if a is not b and not (a is not None and b is not None and same(a, b, x.st.F)):
            yield p, a, b


def C06(ctx, rep):
    M = ctx.min
    for r, x, d in all_deliveries(M):
        if d.kind != 'Connect':
            continue
        key = r.key
        t = tr(M, r, x)
        fs = signed_frames(d.F)
        if not rep.check(bool(fs), 'signature', key, '%s accepts a CONNECT message without a verified Ed25519 signature '
                         'over all bytes before it' % r.key, t):
            continue
        B, e, k = fs[0]
        rep.check(lenfield(d.F, B, e), 'signature-extent', key,
                  '%s: the verified signature does not cover the message up to its end' % r.key, t)
        rep.check(same_seq(k, sub(B, 54, 86), d.F), 'announced-key', key,
                  '%s verifies the signature of a CONNECT message with %s, not with the key the message announces' %
                  (r.key, show(k)), t, sample=show(k))
        rep.check(fieldis(d.F, B, 16, 18, TYPES['Connect']), 'type', key,
                  '%s accepts as CONNECT bytes of another type' % r.key, t)
        # expected key
        was = M.trust_of(d.pre)
        now = M.trust_of(d.post)
        if not rep.check(bool(was) and bool(now), 'trusted-field', key, '%s: the place where the expected key of the '
                         'peer is kept was not found' % r.key, t):
            continue
        for w, n in zip(was, now):
            if w is not None:
                rep.check(w[0] == 'seq' and (same_seq(w, k, d.F) or d.F.entails_eq_seq(w, k) or
                                             d.F.ev(seq_eq(w, k, d.F)) is True), 'expected-key', key,
                          '%s accepts a CONNECT message whose announced key was not found equal to the expected key' %
                          r.key, t, sample='%s == %s' % (show(w), show(k)))
            rep.check(n is not None and n[0] == 'seq' and (same_seq(n, k, d.F) or (w is not None and same_seq(n, w, d.F))),
                      'key-remembered', key, '%s: after accepting a CONNECT message the trusted key is %s' %
                      (r.key, M.show(n) if n is not None else 'none'), t)
    # nothing else touches the trusted key
    for r in M.runs:
        if r.shape is None:
            continue
        for x in r.sum.exits:
            dl = M.deliveries(r, x)
            add, fatal, _, _, kind, v = M.effects(r, x)
            if fatal or any(d.kind in ('Connect', '?') for d in dl):
                continue
            ch = list(trusted_changes(M, r, x, r.selfv, M.fin(x)))
            rep.check(not ch, 'untouched', '%s' % r.key, '%s changes the key the peer is recognised by (%s) although no '
                      'CONNECT message was accepted' % (r.key, ', '.join(M.pathname(c[0]) for c in ch)), tr(M, r, x),
                      sample='%s -> %s' % (r.key, M.show(x.ret)[:120]))
        for li in r.sum.loops.values():
            h = li.tmpl.get(('root', 'self'))
            if h is None:
                continue
            for F, cells, ev in li.backs:
                for p in M.trusted:
                    a, b = M.get(h, p), M.get(cells[('root', 'self')], p)
                    rep.check(a is b or same(a, b, F), 'untouched', '%s loop' % r.key,
                              '%s changes the key the peer is recognised by in a loop' % r.key)
    # the constructor keeps the expected key it is given
    for r, x in M.ctors:
        k, v = M.W.split_result(x)
        exp = [x.st.F.isv.get(mk('arg', i)) for i, ty in enumerate(r.root['inputs']) if ctx.p.isadt(ty, 'Option')]
        kept = M.trusted
        rep.check(bool(kept), 'constructor', r.key, '%s does not keep the expected key of the peer' % r.key, tr(M, r, x),
                  sample=', '.join(M.pathname(p) for p in kept))
    rep.units['deliveries'] = len(all_deliveries(M))
    rep.floor('announced-key', 2)
    rep.floor('expected-key', 1)
    rep.floor('untouched', 100)
    rep.floor('constructor', 1)


# ------------------------------------------------------------------------ C07
def C07(ctx, rep):
    M = ctx.min
    for r, x, d in all_deliveries(M):
        if d.kind != 'Ack':
            continue
        key = r.key
        t = tr(M, r, x)
        fs = signed_frames(d.F)
        if not rep.check(bool(fs), 'signature', key, '%s accepts an ACK message without a verified Ed25519 signature '
                         'over all bytes before it' % r.key, t):
            continue
        B, e, k = fs[0]
        rep.check(lenfield(d.F, B, e), 'signature-extent', key,
                  '%s: the verified signature does not cover the message up to its end' % r.key, t)
        was = [w for w in M.trust_of(d.pre) if w is not None]
        rep.check(any(w[0] == 'seq' and same_seq(w, k, d.F) for w in was), 'trusted-key', key,
                  '%s verifies the signature of an ACK message with %s, not with the key of the peer' %
                  (r.key, show(k)), t, sample=show(k))
        rep.check(own_challenge(M, d.F, B), 'challenge', key,
                  '%s accepts an ACK message without finding its challenge equal to the hash of this layer\'s own '
                  'ephemeral public key' % r.key, t, sample=show(B))
        rep.check(fieldis(d.F, B, 16, 18, TYPES['Ack']), 'type', key,
                  '%s accepts as ACK bytes of another type' % r.key, t)
    # the own key compared with never changes
    for r in M.runs:
        if r.shape is None:
            continue
        for x in r.sum.exits:
            if M.effects(r, x)[1]:
                continue
            for p in M.ownepk:
                a, b = M.get(r.selfv, p), M.get(M.fin(x), p)
                rep.check(a is None or b is None or a is b or same(a, b, x.st.F), 'own-key-fixed', r.key,
                          '%s changes the ephemeral public key of the layer' % r.key, tr(M, r, x))
    rep.floor('challenge', 2)
    rep.floor('trusted-key', 2)


# ------------------------------------------------------------- C09, C10 ranges
def strip(s, base):
    """operations applied to a set term since `base`, newest first; None if not derived from it"""
    ops = []
    t = s[1]
    b = base[1]
    while t is not b:
        if t[0] == 'sins':
            ops.append(('ins', t[2]))
            t = t[1]
        elif t[0] == 'srem':
            ops.append(('rem', t[2]))
            t = t[1]
        else:
            return None
    return ops


class Cov:
    """numbers below the next-expected counter L or in the set S count as received; at a loop head the counter may stand
    one step behind (the offset tried there)"""

    OFFSETS = (0, 1)

    def __init__(self, M, r, pL, pS):
        self.M, self.r, self.pL, self.pS = M, r, pL, pS
        t = M.p.types[M.pathty(pS)]
        self.ordered = t['k'] == 'adt' and t['path'].endswith('BTreeSet')

    def pair(self, v):
        return self.M.get(v, self.pL), self.M.get(v, self.pS)

    @staticmethod
    def shift(p, j):
        return (ladd(p[0], I(j)), p[1]) if p[0] is not None and j else p

    def heads(self):
        out = []
        for li in self.r.sum.loops.values():
            h = li.tmpl.get(('root', 'self'))
            if h is not None:
                out.append((li, self.pair(h)))
        return out

    def picks(self, post, seen):
        """loops whose head state the post state is derived from, with what plays the counter there: the field itself or
        a local that is stored into it later"""
        L, S = post
        for li, h in self.heads():
            if li in seen or h[0] is None or h[1] is None or strip(S, h[1]) is None:
                continue
            ent = self.pair(li.entry[('root', 'self')])
            bks = [(F, self.pair(cells[('root', 'self')])) for F, cells, ev in li.backs]
            if cint(lsub(L, h[0])) is not None:
                yield li, h, ent, bks
                continue
            for ph, (e, bs) in li.phis.items():
                if isinstance(ph, tuple) and ph[0] == 'int' and e[0] == 'i' and cint(lsub(L, atom(ph))) is not None and \
                        len(bs) == len(bks) and all(x[1][0] == 'i' for x in bs):
                    yield li, (atom(ph), h[1]), (e, ent[1]), [(F, (x[1], b[1])) for (F, b), x in zip(bks, bs)]

    @staticmethod
    def member(F, x, st, extra=None):
        """x is below L, or in the set, or the number `extra`"""
        if extra is not None and (same(x, extra, F) or F.eq_lin(x, extra)):
            return True
        L, S = st
        if F.ent_le(lsub(ladd(x, I(1)), L)):
            return True
        t = S[1]
        while True:
            for p, v in F.preds.items():
                if v and p[0] == 'in' and p[2] is t and F.eq_lin(p[1], x):
                    return True
            if t[0] == 'sins':
                if same(t[2], x, F) or F.eq_lin(t[2], x):
                    return True
            elif t[0] == 'srem':
                if not F.ent_le(lsub(ladd(x, I(1)), t[2])) and not F.ent_le(lsub(ladd(t[2], I(1)), x)):
                    return False                    # not known to differ from the removed number
            else:
                return False
            t = t[1]

    @staticmethod
    def common(a, b):
        """the deepest set term both are derived from: (operations of a, operations of b)"""
        chain = []
        t = a[1]
        while True:
            chain.append(t)
            if t[0] not in ('sins', 'srem'):
                break
            t = t[1]
        for t in chain:
            base = mk('set', t)
            ob = strip(b, base)
            if ob is not None:
                return strip(a, base), ob
        return None

    def within(self, F, a, b, extra=None):
        """every number received in state a is received in state b, or is `extra`"""
        c = self.common(a[1], b[1])
        if c is None:
            return False
        oa, ob = c
        if not F.ent_le(lsub(a[0], b[0])):
            d = next((d for d in (1, 2, 3) if F.ent_le(lsub(lsub(a[0], b[0]), I(d)))), None)
            if d is None:
                return False
            if not all(self.member(F, ladd(b[0], I(i)), b, extra) for i in range(d)):
                return False
        for k, x in oa:
            if k == 'ins' and not self.member(F, x, b, extra):
                return False
        for k, x in ob:
            # taken out of b: it was known, so it has to be known still
            if k == 'rem' and not self.member(F, x, b, extra) and not self.absent(F, x, a):
                return False
        return True

    @staticmethod
    def absent(F, x, a):
        L, S = a
        return F.ent_le(lsub(L, x)) and F.ev(mk('p', mk('in', x, S[1]))) is False

    def bad(self, pre, post):
        return None in pre or None in post or pre[1][0] != 'set' or post[1][0] != 'set'

    def induct(self, post, seen, entry, step, last):
        """some loop, at some offset: entry holds, every turn keeps it, the way out ends in post"""
        for li, h, ent, bks in self.picks(post, seen):
            sn = seen + (li,)
            for j in self.OFFSETS:
                hj = self.shift(h, j)
                if last(hj) and entry(li, self.shift(ent, j), sn) and \
                        all(step(F, hj, self.shift(b, j), sn) for F, b in bks):
                    return True
        return False

    def covers(self, F, pre, post, seen=()):
        """everything received before is still known as received"""
        if self.bad(pre, post):
            return False
        if self.within(F, pre, post):
            return True
        return self.induct(post, seen,
                           lambda li, e, s: self.covers(li.entryF, pre, e, s),
                           lambda bF, h, b, s: self.covers(bF, h, b, s),
                           lambda h: self.within(F, h, post))

    def has(self, F, n, post, seen=()):
        """n is known as received afterwards"""
        if None in post:
            return False
        if self.member(F, n, post):
            return True
        return self.induct(post, seen,
                           lambda li, e, s: self.has(li.entryF, n, e, s),
                           lambda bF, h, b, s: self.covers(bF, h, b, s),
                           lambda h: self.within(F, h, post))

    def exactly(self, F, pre, post, n, seen=()):
        """nothing but n became known as received"""
        if self.bad(pre, post):
            return False
        if self.within(F, post, pre, n):
            return True
        return self.induct(post, seen,
                           lambda li, e, s: self.exactly(li.entryF, pre, e, n, s),
                           lambda bF, h, b, s: self.exactly(bF, h, b, None, s),
                           lambda h: self.within(F, post, h, n))

    def above(self, F, S, c, root):
        """every element of the set S is >= c; root(F, base set, c) decides it for the set S was derived from"""
        if root(F, S, c):
            return True
        if S[0] == 'sempty':
            return True
        if F.ent_le(atom(mk('setlen', S))):
            return True                             # nothing in it
        m = atom(mk('int', mk('least', S), 64))
        b = ladd(c, I(-1))
        if F.ev(mk('p', mk('in', b, S))) is False or \
                self.ordered and F.ev(eq0(lsub(m, b))) is False:
            if self.above_(F, S, b, root):
                return True
        return self.above_(F, S, c, root)

    def above_(self, F, S, c, root):
        if S[0] == 'sempty':
            return True
        if root(F, S, c):
            return True
        if S[0] == 'sins':
            return self.ge(F, S[2], c) and self.above(F, S[1], c, root)
        if S[0] == 'srem':
            if self.above(F, S[1], c, root):
                return True
            return F.eq_lin(ladd(S[2], I(1)), c) and self.above(F, S[1], S[2], root)
        return False

    @staticmethod
    def ge(F, x, c):
        """x >= c"""
        if F.ent_le(lsub(c, x)):
            return True
        return F.ent_le(lsub(ladd(c, I(-1)), x)) and F.ev(eq0(lsub(x, ladd(c, I(-1))))) is False

    def least(self, F, S, c):
        """what is known of the smallest element says every element of S is >= c, given that every one is >= c-1"""
        m = atom(mk('int', mk('least', S), 64))
        return self.ordered and self.ge(F, m, c) and F.ev(mk('p', mk('in', m, S))) is True

    def ahead(self, F, pre, post):
        """given that every number kept in the set is above the next expected one in state pre, it is so in post"""
        if self.bad(pre, post):
            return False
        return self.low(F, self.given(pre, 1), post, 1, ())

    def given(self, h, k):
        return lambda F, S, c: S is h[1][1] and F.ent_le(lsub(c, ladd(h[0], I(k)))) or self.least(F, S, c)

    def low(self, F, root, post, k, seen):
        """every number kept in the set of state post is >= its next expected one + k"""
        if None in post or post[1][0] != 'set':
            return False
        if self.above(F, post[1][1], ladd(post[0], I(k)), root):
            return True
        for li, h, ent, bks in self.picks(post, seen):
            sn = seen + (li,)
            for j in (1, 0):
                g = self.given(h, j)
                if self.above(F, post[1][1], ladd(post[0], I(k)), g) and self.low(li.entryF, root, ent, j, sn) and \
                        all(self.low(bF, g, b, j, sn) for bF, b in bks):
                    return True
        return False


def nonce_of(M, d):
    fs = frame_of(M, d)
    return be8(fs[0][0], 18) if fs else None


def refuses(d, n, L, S):
    """the facts of a delivery exclude every number known as received"""
    if L is None or S is None or S[0] != 'set':
        return False
    return d.F.ent_le(lsub(L, n)) and d.F.ev(mk('p', mk('in', n, S[1]))) is False


def roles(M):
    """(counter path, set path) deciding freshness"""
    if getattr(M, '_fresh', None) is not None:
        return M._fresh
    ds = [(r, x, d) for r, x, d in all_deliveries(M) if d.kind == 'Message']
    ints, sets = set(), set()
    for r, x, d in ds:
        for p, l in M.leaves(d.pre):
            if l[0] == 'i':
                ints.add(p)
            elif l[0] == 'set':
                sets.add(p)
    best = None
    for a in sorted(ints):
        for b in sorted(sets):
            n = 0
            for r, x, d in ds:
                k = nonce_of(M, d)
                if k is not None and refuses(d, k, M.get(d.pre, a), M.get(d.pre, b)):
                    n += 1
            if best is None or n > best[0]:
                best = (n, a, b)
    M._fresh = best[1:] if best else None
    return M._fresh


def C09(ctx, rep):
    M = ctx.min
    fr = roles(M)
    if not rep.check(fr is not None, 'roles', 'state', 'no counter and number set that decide freshness were found'):
        return
    pL, pS = fr
    rep.units['next expected number'] = M.pathname(pL)
    rep.units['received numbers'] = M.pathname(pS)
    for r, x, d in all_deliveries(M):
        if d.kind != 'Message':
            if d.kind == '?':
                rep.fail('identified', r.key, '%s hands over an unrecognised message' % r.key, M.trace(None, r, x))
            continue
        t = tr(M, r, x)
        n = nonce_of(M, d)
        if not rep.check(n is not None, 'number', r.key, '%s delivers a user message whose number is not known' % r.key, t):
            continue
        L, S = M.get(d.pre, pL), M.get(d.pre, pS)
        rep.check(refuses(d, n, L, S), 'fresh', r.key, '%s delivers a user message without having found its number '
                  'unused (not below %s and not in %s)' % (r.key, M.pathname(pL), M.pathname(pS)), t,
                  sample='%s: %s <= %s' % (r.key, show(L), show(n)[:120]))
        c = Cov(M, r, pL, pS)
        rep.check(c.has(d.F, n, c.pair(d.post)), 'recorded', r.key, '%s delivers a user message without recording its '
                  'number' % r.key, t, sample='%s: %s' % (r.key, M.show(M.get(d.post, pS))[:200]))
    for r in M.runs:
        if r.shape is None:
            continue
        c = Cov(M, r, pL, pS)
        pre = c.pair(r.selfv)
        for x in r.sum.exits:
            add, fatal, dl, wrote, kind, v = M.effects(r, x)
            if fatal:
                continue
            t = tr(M, r, x)
            rep.check(c.covers(x.st.F, pre, c.pair(M.fin(x))), 'never-forgotten', r.key,
                      '%s may forget that a message number was received' % r.key, t,
                      sample='%s -> %s' % (r.key, M.show(x.ret)[:120]))
            if v[0] == 'adt' and v[1] == M.ty and kind != 'err':
                rep.check(c.covers(x.st.F, pre, c.pair(v)), 'clone', r.key,
                          '%s: the clone does not know every number its original received' % r.key, t,
                          sample=M.show(M.get(v, pS)))
            if kind == 'err' and M.rawbase(r) is not None and M.msgs_out(r.root['output']):
                ch = [M.pathname(p) for p, l in M.leaves(r.selfv)
                      if not (M.get(M.fin(x), p) is l or (M.get(M.fin(x), p) is not None and
                                                          same(M.get(M.fin(x), p), l, x.st.F)))]
                rep.check(not ch, 'refusal-without-effect', r.key,
                          '%s refuses a message without a fatal error but changes %s' % (r.key, ', '.join(ch)), t,
                          sample='%s -> %s' % (r.key, M.show(x.ret)))
    for q, n in (('fresh', 4), ('recorded', 4), ('never-forgotten', 100), ('clone', 1), ('refusal-without-effect', 5)):
        rep.floor(q, n)


# ------------------------------------------------------------------------ C10
def C10(ctx, rep):
    M = ctx.min
    fr = roles(M)
    if not rep.check(fr is not None, 'roles', 'state', 'no counter and number set that decide freshness were found'):
        return
    pL, pS = fr
    states = 0
    for n, r, x, suc, born in M.cases():
        g = n[1]
        if 'fatal' in g or not (g >= ALL4 or 'isclone' in g):
            continue
        R = M.rawbase(r)
        if R is None or not M.msgs_out(r.root['output']):
            continue
        states += 1
        dl = M.deliveries(r, x)
        if any(d.kind in ('Message', '?') for d in dl):
            rep.ok('delivers')
            continue
        L, S = M.get(r.selfv, pL), M.get(r.selfv, pS)
        F = x.st.F
        ds = decs(x.st.ev, R, F)
        clear = seq_eq(sub(R, 0, 4), lit(MAGIC), None)
        base, e = ds[0] if ds else (None, None)
        vs = valid_user(R, base, e)
        cases = [('any', [])]
        if base is not None:
            k = be8(base, 18)
            vs = vs + [le0(lsub(L, k)), mk('np', mk('in', k, S[1]))]
            cases = [('next expected number', [eq0(lsub(k, L))]),
                     ('window not full', [le0(lsub(atom(mk('setlen', S[1])), I(BOUND - 1)))])]
        for nm, extra in cases:
            t = lambda: M.trace(n, r, x)
            rep.check(contradicts(F, vs + extra + [bnot(clear)]), 'refusal-justified', '%s' % r.key,
                      '%s can refuse or withhold a fresh authentic user message (%s): %s' %
                      (r.key, nm, M.show(x.ret)[:200]), t, sample='%s -> %s' % (r.key, M.show(x.ret)[:200]))
            if not contradicts(F, vs + extra + [clear]):
                rep.fail('ciphertext-form', 'ciphertext starting with the magic value',
                         '%s takes an encrypted message whose first 4 bytes happen to equal the magic value of clear '
                         'messages for a clear message: %s' % (r.key, M.show(x.ret)[:160]), M.trace(n, r, x))
            else:
                rep.ok('ciphertext-form')
    looped = {r.key for r in M.runs for x in r.sum.exits for d in M.deliveries(r, x) if d.loop is not None}
    for r in M.runs:
        if r.shape is None:
            continue
        c = Cov(M, r, pL, pS)
        pre = c.pair(r.selfv)
        for x in r.sum.exits:
            add, fatal, dl, wrote, kind, v = M.effects(r, x)
            if fatal:
                continue
            ds = [d for d in dl if d.kind == 'Message' and d.loop is None]
            k = nonce_of(M, ds[0]) if ds else None
            if r.key not in looped:                 # those are judged per iteration below
                rep.check(c.exactly(x.st.F, pre, c.pair(M.fin(x)), k), 'only-delivered-recorded', r.key,
                          '%s marks a message number as received that it did not deliver' % r.key, tr(M, r, x),
                          sample='%s -> %s' % (r.key, M.show(x.ret)[:120]))
            rep.check(c.ahead(x.st.F, pre, c.pair(M.fin(x))), 'only-outstanding-kept', r.key,
                      '%s can leave numbers in %s that are not above %s: they would count as outstanding for ever' %
                      (r.key, M.pathname(pS), M.pathname(pL)), tr(M, r, x),
                      sample='%s -> %s' % (r.key, M.show(x.ret)[:120]))
            if v[0] == 'adt' and v[1] == M.ty and kind != 'err':
                rep.check(c.ahead(x.st.F, pre, c.pair(v)), 'only-outstanding-kept', r.key, '%s: the clone keeps numbers '
                          'in %s that are not above %s' % (r.key, M.pathname(pS), M.pathname(pL)), tr(M, r, x))
                rep.check(c.exactly(x.st.F, pre, c.pair(v), None), 'clone-exact', r.key,
                          '%s: the clone treats numbers as received that its original did not' % r.key, tr(M, r, x))
        if r.key in looped:
            # deliveries made in a loop: its entry, each turn and each way out are judged
            dd = {}
            for x in r.sum.exits:
                for d in M.deliveries(r, x):
                    if d.loop is not None:
                        dd[(d.loop, id(d.F))] = d
            loops = {li for li, _ in dd}
            for li in loops:
                h = li.tmpl.get(('root', 'self'))
                if h is None:
                    continue
                ok = c.exactly(li.entryF, pre, c.pair(li.entry[('root', 'self')]), None)
                for F, cells, ev in li.backs:
                    d = dd.get((li, id(F)))
                    k = nonce_of(M, d) if d is not None else None
                    rep.check(ok and c.exactly(F, c.pair(h), c.pair(cells[('root', 'self')]), k), 'only-delivered-recorded',
                              r.key + ' loop', '%s marks a message number as received that it did not deliver' % r.key)
            for x in r.sum.exits:
                if M.effects(r, x)[1]:
                    continue
                post = c.pair(M.fin(x))
                rep.check(c.exactly(x.st.F, pre, post, None) or
                          any(c.exactly(x.st.F, c.pair(li.tmpl[('root', 'self')]), post, None) for li in loops
                              if ('root', 'self') in li.tmpl), 'only-delivered-recorded', r.key + ' exit',
                          '%s marks a message number as received that it did not deliver' % r.key, tr(M, r, x))
    for r, x in M.ctors:
        k, v = M.W.split_result(x)
        L, S = M.get(v, pL), M.get(v, pS)
        rep.check(cint(L) == 0 and S == mk('set', mk('sempty')), 'fresh-start', r.key,
                  'a new layer already counts some numbers as received: %s %s' % (M.show(L), M.show(S)), tr(M, r, x))
    rep.units['reads of a user message in a negotiated state'] = states
    for q, n in (('delivers', 10), ('refusal-justified', 10), ('only-delivered-recorded', 100), ('clone-exact', 1),
                 ('only-outstanding-kept', 100),
                 ('fresh-start', 1)):
        rep.floor(q, n)


# ------------------------------------------------------------------------ C12
def C12(ctx, rep):
    M = ctx.min
    conts, sets, bytep = set(), set(), set()
    for r in M.runs:
        if r.shape is None:
            continue
        for p, l in M.leaves(r.selfv):
            if l[0] == 'set':
                sets.add(p)
            elif l[0] == 'seq' and len(l[1]) == 1 and l[1][0][0] == 'sub':
                (conts if l[1][0][1][0] == 'tb' else bytep).add(p)

    def heads(r):
        for li in r.sum.loops.values():
            h = li.tmpl.get(('root', 'self'))
            if h is not None:
                yield h

    def bounded(r, F, p, pre, post):
        """all collections within the bound before (and at every loop head) implies so afterwards"""
        G = F
        olds = [pre] + [M.get(h, p) for h in heads(r)]
        for o in olds:
            if o is None or G is None:
                continue
            if o is post:
                return True
            if o[0] == 'set':
                G = G.assume(le0(lsub(atom(mk('setlen', o[1])), I(BOUND))))
            elif o[0] == 'seq':
                G = G.assume(le0(lsub(slen(o), I(BOUND))))
        if G is None:
            return True
        if post[0] == 'seq':
            return G.ent_le(lsub(slen(post), I(BOUND)))
        if post[0] != 'set':
            return False
        t, k = post[1], 0
        while t[0] in ('sins', 'srem'):
            k += t[0] == 'sins'
            t = t[1]
        if t[0] == 'sempty':
            return k <= BOUND
        if k == 0:
            return any(o is not None and o[0] == 'set' and o[1] is t for o in olds)
        return G.ent_le(lsub(atom(mk('setlen', t)), I(BOUND - k))) or \
            G.ent_le(lsub(atom(mk('setlen', post[1])), I(BOUND)))

    def grown(l, p):
        """byte string made of its own former content and something else"""
        own = M.term(p)
        mine = [s for s in l[1] if s[0] == 'sub' and (s[1] is own or s[1][0] in ('fixed', 'lenof', 'bytes') and
                                                      own in s[1][1:])]
        return bool(mine) and len(l[1]) > 1

    def judge(rule, r, F, pre, post, x=None):
        t = tr(M, r, x) if x is not None else None
        for p, l in M.leaves(post):
            a = M.get(pre, p) if pre is not None else None
            nm = M.pathname(p)
            if p in conts or p in sets:
                rep.check(bounded(r, F, p, a, l), rule, '%s %s' % (nm, r.key),
                          '%s: %s is not kept within %d entries' % (r.key, nm, BOUND), t,
                          sample='%s: %s -> %s' % (r.key, nm, M.show(l)[:120]))
            elif l[0] == 'seq' and l is not a:
                rep.check(not grown(l, p), 'bytes-not-growing', '%s %s' % (nm, r.key),
                          '%s: %s grows with every call' % (r.key, nm), t, sample='%s: %s' % (r.key, nm))
            elif l[0] not in ('seq', 'set', 'i', 'adt', 'sym', 'p', 'np', 'pubk', 'tup') and l is not TRUE and \
                    l is not FALSE:
                rep.fail('understood', '%s %s' % (nm, r.key), '%s: what %s holds afterwards is not understood: %s' %
                         (r.key, nm, M.show(l)[:100]), t() if t else None)

    rep.units['bounded collections'] = ', '.join(sorted(M.pathname(p) for p in conts | sets))
    for r in M.runs:
        for x in r.sum.exits:
            kind, v = M.W.split_result(x)
            if r.shape is None:
                if kind != 'err':
                    judge('bounded', r, x.st.F, None, v, x)
                continue
            judge('bounded', r, x.st.F, r.selfv, M.fin(x), x)
            if kind != 'err' and v[0] == 'adt' and v[1] == M.ty:
                judge('bounded', r, x.st.F, r.selfv, v, x)
        for li in r.sum.loops.values():
            h = li.tmpl.get(('root', 'self'))
            if h is None or r.selfv is None:
                continue
            judge('bounded-loop', r, li.entryF, r.selfv, li.entry[('root', 'self')])
            for F, cells, ev in li.backs:
                judge('bounded-loop', r, F, h, cells[('root', 'self')])
    rep.check(len(conts) >= 1 and len(sets) >= 1, 'collections', 'state',
              'the collections of kept messages and received numbers were not found')
    rep.floor('bounded', 200)
    rep.floor('bytes-not-growing', 3)


# ------------------------------------------------------------------------ C28
def C28(ctx, rep):
    M = ctx.min
    n1 = n2 = 0
    for n, r, x, suc, born in M.cases():
        g = n[1]
        if 'fatal' in g:
            continue
        t = lambda: M.trace(n, r, x)
        nm = M.opname(r)
        if nm in CREATES and 'isclone' not in g:
            s = CREATES[nm]
            entitled = s not in g and (s == 'sC' or 'rC' in g)
            if entitled:
                kind, v = M.W.split_result(x)
                rep.check(kind != 'err', 'created', r.key, '%s refuses to create a handshake message the layer is '
                          'entitled to: %s' % (r.key, M.show(x.ret)[:200]), t,
                          sample='%s after %s' % (r.key, sorted(g)))
            continue
        R = M.rawbase(r)
        if R is None or not M.msgs_out(r.root['output']) or 'isclone' in g:
            continue
        dl = M.deliveries(r, x)
        F = x.st.F
        trust = [w for w in M.trust_of(r.selfv)]
        if 'rC' not in g:
            n1 += 1
            if any(d.kind == 'Connect' for d in dl):
                rep.ok('connect-accepted')
            elif any(f[0] == 'fail' and 'agree' in str(f[1]) for f in x.st.fails):
                rep.ok('key-agreement-failed')
            else:
                vs = valid_clear(M, R, 'Connect')
                exp = [seq_eq(w, sub(R, 54, 86), F) for w in trust if w is not None and w[0] == 'seq']
                rep.check(contradicts(F, vs + exp), 'connect-refusal-justified', r.key,
                          '%s can refuse a valid first CONNECT message: %s' % (r.key, M.show(x.ret)[:200]), t,
                          sample='%s -> %s' % (r.key, M.show(x.ret)[:160]))
        if 'sC' in g and 'rA' not in g:
            n2 += 1
            if any(d.kind == 'Ack' for d in dl):
                rep.ok('ack-accepted')
            else:
                kind, v = M.W.split_result(x)
                for w in trust or [None]:
                    kept = kind != 'err' and 'rC' not in g
                    if kept and M.none(v):
                        rep.ok('ack-kept')              # C27 decides that it really is
                        continue
                    if w is None and slot_full(M, r):
                        rep.ok('ack-already-kept')
                        continue
                    vs = valid_clear(M, R, 'Ack', key=w, challenge=True)
                    rep.check(contradicts(F, vs), 'ack-refusal-justified', r.key,
                              '%s can refuse a valid ACK message: %s' % (r.key, M.show(x.ret)[:200]), t,
                              sample='%s -> %s' % (r.key, M.show(x.ret)[:160]))
    rep.units['reads awaiting a CONNECT'] = n1
    rep.units['reads awaiting an ACK'] = n2
    for q, k in (('created', 4), ('connect-accepted', 2), ('connect-refusal-justified', 10), ('ack-accepted', 2),
                 ('ack-refusal-justified', 10)):
        rep.floor(q, k)
    import rules_com
    rules_com.handshake_above(ctx, rep)


def slots(M):
    """fields keeping one early message: Option of bytes that a read fills with what it received"""
    if getattr(M, '_slots', None) is None:
        out = set()
        for r in M.runs:
            R = M.rawbase(r) if r.shape is not None else None
            if R is None:
                continue
            for x in r.sum.exits:
                for p, v in slotsof(M, M.fin(x)):
                    if M.some(v) and v[3][0][0] == 'seq' and v[3][0] is whole(R):
                        out.add(p)
        M._slots = out
    return M._slots


def slotsof(M, v, path=()):
    """(path, option value) of the Option<bytes> fields of a layer value"""
    if v[0] != 'adt':
        return
    for i, x in enumerate(v[3]):
        p = path + ((v[2], i),)
        if x[0] == 'adt' and M.p.isadt(x[1], 'Option'):
            if M.none(x) or x[3][0][0] == 'seq':
                yield p, x
            else:
                yield from slotsof(M, x, p)
        elif x[0] == 'adt':
            yield from slotsof(M, x, p)


def slot_full(M, r):
    return any(M.some(M.get(r.selfv, p)) for p in slots(M))


# ------------------------------------------------------------------------ C27
def conts_of(M):
    out = set()
    for r in M.runs:
        if r.shape is not None:
            for p, l in M.leaves(r.selfv):
                if l[0] == 'seq' and len(l[1]) == 1 and l[1][0][0] == 'sub' and l[1][0][1][0] == 'tb':
                    out.add(p)
    return out


def appended(pre, post):
    """values appended to a collection, None if it changed otherwise"""
    if pre is None or post is None or post[0] != 'seq':
        return None
    k = len(pre[1])
    if post[1][:k] != pre[1]:
        return None
    out = []
    for s in post[1][k:]:
        if s[0] != 'one':
            return None
        out.append(s[1])
    return out


def holds(F, ev, v, R):
    """v is the received message R, or its complete plaintext"""
    if v[0] != 'seq':
        return False
    if v is whole(R):
        return True
    p = piece(v)
    if p is None:
        return False
    n = baselen(p[0])
    if not (cint(p[1]) == 0 and F.eq_lin(p[2], n)):
        return False
    return p[0] is R or any(D is p[0] for D, e in decs(ev, R, F))


def C27(ctx, rep):
    M = ctx.min
    SL, CO = slots(M), conts_of(M)
    rep.units['kept ACK'] = ', '.join(M.pathname(p) for p in SL)
    rep.units['kept user messages'] = ', '.join(M.pathname(p) for p in CO)

    def preserved(r, F, pre, post, skip=()):
        """names of the keeping places whose content changed other than by appending"""
        out = []
        for p in SL:
            a, b = M.get(pre, p), M.get(post, p)
            if p in skip or a is None or b is None or M.none(a):
                continue
            if not (a is b or same(a, b, F)):
                out.append(p)
        for p in CO:
            a, b = M.get(pre, p), M.get(post, p)
            if p in skip or a is None:
                continue
            if a is not b and (b is None or appended(a, b) is None):
                out.append(p)
        return out

    for r in M.runs:
        if r.shape is None:
            continue
        R = M.rawbase(r)
        for x in r.sum.exits:
            add, fatal, dl, wrote, kind, v = M.effects(r, x)
            F = x.st.F
            t = tr(M, r, x)
            fin = M.fin(x)
            if fatal:
                continue
            if R is not None and M.msgs_out(r.root['output']) and kind != 'err' and not dl:
                kept = False
                for p in SL:
                    a, b = M.get(r.selfv, p), M.get(fin, p)
                    if M.none(a) and M.some(b) and holds(F, x.st.ev, b[3][0], R):
                        kept = True
                for p in CO:
                    ap = appended(M.get(r.selfv, p), M.get(fin, p))
                    if ap and len(ap) == 1 and holds(F, x.st.ev, ap[0], R):
                        kept = True
                rep.check(kept, 'kept', r.key, '%s reports that there is nothing to deliver yet but does not keep the '
                          'message it received' % r.key, t, sample='%s -> %s' % (r.key, M.show(x.ret)))
            lost = preserved(r, F, r.selfv, fin)
            for p in list(lost):
                a, b = M.get(r.selfv, p), M.get(fin, p)
                if kind == 'err':
                    # taken out and reported as an error
                    about = R is None
                    if R is not None and p in SL and M.some(a) and a[3][0][0] == 'seq':
                        bs = {s_[1] for s_ in a[3][0][1] if s_[0] == 'sub'}
                        about = any(bs & set(atoms_in(q)) for q, tv in F.preds.items())
                    rep.check(about, 'not-lost-by-refusal', r.key, '%s refuses what it received and loses %s' %
                              (r.key, M.pathname(p)), t)
                    lost.remove(p)
                    rep.ok('reported')
                elif p in SL:
                    B = a[3][0][1][0][1]
                    got = [d for d in dl if B in atoms_in(d.val) or any(f[0] is B for f in signed_frames(d.F))
                           or any(D is f[0] for D, e in decs(x.st.ev, B, F) for f in hashed_frames(d.F))]
                    moved = False
                    for q in CO:
                        ap = appended(M.get(r.selfv, q), M.get(fin, q))
                        if ap and any(holds(F, x.st.ev, y, B) for y in ap):
                            moved = True
                    if rep.check(bool(got) or moved, 'kept-ack-handed-over', r.key,
                                 '%s drops the kept ACK message without handing it over or reporting an error' % r.key,
                                 t, sample='%s -> %s' % (r.key, M.show(x.ret)[:160])):
                        lost.remove(p)
                    else:
                        lost.remove(p)
                else:
                    drained(M, rep, r, x, p, dl, t)
                    lost.remove(p)
            if kind != 'err' and v[0] == 'adt' and v[1] == M.ty:
                for p in CO:
                    a, b = M.get(r.selfv, p), M.get(v, p)
                    rep.check(b is a, 'clone-keeps', r.key, '%s: the clone lacks the kept user messages' % r.key, t)
            rep.ok('preserved')
        if any(M.some(M.get(r.selfv, p)) for p in SL) and r.root['has_self'] and R is None and \
                M.msgs_out(r.root['output']) and not any(d.loop for x in r.sum.exits for d in M.deliveries(r, x)):
            # an operation handing over the kept ACK must not ignore it
            for x in r.sum.exits:
                kind, v = M.W.split_result(x)
                if kind != 'err' and v[0] == 'adt' and M.none(v):
                    ok = True
                    for p in SL:
                        a, b = M.get(r.selfv, p), M.get(M.fin(x), p)
                        B = a[3][0][1][0][1]
                        ok = (M.some(b) and same(a, b, x.st.F)) or any(
                            (appended(M.get(r.selfv, q), M.get(M.fin(x), q)) or []) for q in CO)
                    rep.check(ok, 'kept-ack-handed-over', r.key, '%s loses the kept ACK message' % r.key, tr(M, r, x))
    if ctx.haslayer('SecureLayer'):
        G = ctx.com
        # user messages are only ever kept after the CONNECT message was accepted
        early = any(appended(M.get(r.selfv, p), M.get(M.fin(x), p)) for n, r, x, suc, born in M.cases() for p in CO
                    if 'rC' not in n[1] and M.get(r.selfv, p) is not M.get(M.fin(x), p))
        ret = {}
        for q in M.runs:
            if q.root['has_self'] and M.msgs_out(q.root['output']):
                ret[q.key] = q.root['name']
        for n, r, x, suc, born in G.cases():
            bad = []
            for c in x.st.trail:
                if c[0] == 'api' and c[1] in ret:
                    k, v = G.split(G.settled(x, c[2]))
                    if k == 'err':
                        bad.append(ret[c[1]])
                    rep.ok('complete-asks')
            rep.check(not bad or G.effects(r, x)[4] == 'err', 'complete-reports', r.key, '%s reports success although %s '
                      'reported that received messages were refused' % (r.key, ', '.join(bad)), tr(G, r, x),
                      sample='%s: %s -> %s' % (r.key, ', '.join(bad), G.show(x.ret)[:80]))
        rep.floor('complete-asks', 20)
        for pre in minfields(G, M):
            for n, r, x, suc, born in G.cases():
                add, fatal, dl, wrote, kind, v = G.effects(r, x)
                if kind == 'err':
                    continue
                fin = G.fin(x)
                if 'rC' in add:
                    for p in SL:
                        b = G.get(fin, pre + p)
                        rep.check(b is None or G.none(b), 'complete-hands-over', r.key, '%s accepts the CONNECT message '
                                  'and leaves the kept ACK message unprocessed' % r.key, tr(G, r, x), sample=r.key)
                if 'rA' in add:
                    for p in CO:
                        b = G.get(fin, pre + p)
                        rep.check(b is None or x.st.F.eq_lin(slen(b), I(0)) or 'rC' not in n[1] and not early, 'complete-hands-over', r.key, '%s accepts '
                                  'the ACK message and leaves kept user messages unprocessed' % r.key, tr(G, r, x),
                                  sample=r.key)
        rep.floor('complete-hands-over', 4)
    rep.check(bool(SL), 'places', 'ack', 'no place where an early ACK is kept was found')
    rep.check(bool(CO), 'places', 'user', 'no place where early user messages are kept was found')
    for q, k in (('kept', 5), ('preserved', 100), ('kept-ack-handed-over', 2), ('drained-in-order', 2),
                 ('drained-all', 2)):
        rep.floor(q, k)


def minfields(G, M):
    """where a complete layer keeps its minimal layer"""
    out = []
    for v, var in enumerate(G.p.types[G.ty]['variants']):
        for i, f in enumerate(var['fields']):
            if f['ty'] == M.ty:
                out.append(((v, i),))
    return out


def drained(M, rep, r, x, p, dl, t):
    """every element of the collection at p was processed, in order"""
    a = M.get(r.selfv, p)
    base = a[1][0][1]                  # ('tb', term, elemty)
    F = x.st.F
    b = M.get(M.fin(x), p)
    # the loops that walk over the collection
    found = False
    for li in r.sum.loops.values():
        # the position of the element an iteration works on is a value the loop advances
        idx = ph = None
        for i, (bF, cells, ev) in enumerate(li.backs):
            for el in elems(bF, ev, cells, base):
                for k, v in li.phis.items():
                    if isinstance(k, T) and core(k) is core(el):
                        ph, idx = v, k if k[0] == 'i' else atom(k)
        if idx is None:
            continue
        found = True
        key = r.key
        ok = ph is not None and cint(ph[0]) == 0 and all(cint(lsub(v, idx)) == 1 for _, v, _ in ph[1])
        rep.check(ok, 'drained-in-order', key, '%s does not process the kept user messages from the first to the last' %
                  key, t, sample='%s: position %s' % (key, show(idx)))
        rep.check(F.ent_le(lsub(slen(a), idx)), 'drained-all', key,
                  '%s can stop before every kept user message was processed' % key, t, sample=key)
        fr = roles(M)
        for i, (bF, cells, ev) in enumerate(li.backs):
            D = [z for z in elemterms(bF, ev, cells, base)]
            n = 0
            for phk, (e, bs) in li.phis.items():
                if not (isinstance(phk, tuple) and phk[0] == 'tb'):
                    continue
                v = bs[i][1]
                n += sum(1 for s in v[1] if s[0] == 'one')
            if n == 1:
                rep.ok('drained-delivered')
                continue
            pre, post = li.tmpl[('root', 'self')], cells[('root', 'self')]
            again = any(appended(M.get(pre, q), M.get(post, q)) for q in conts_of(M))
            rptd = False
            if fr is not None:
                c = Cov(M, r, *fr)
                for d in D:
                    k = be8(d, 18)
                    L, S = c.pair(pre)
                    if bF.ent_le(lsub(ladd(k, I(1)), L)) or bF.ev(mk('p', mk('in', k, S[1]))) is True or \
                            bF.ev(mk('p', mk('le', lsub(ladd(k, I(1)), L)))) is True:
                        rptd = True
            rep.check(n == 0 and (again or rptd or seen_number(M, bF, D, pre, fr)), 'drained-handed-over', key,
                      '%s passes over a kept user message that is not a repeated copy' % key, t, sample=key)
    rep.check(found, 'drained-loop', r.key,
              '%s empties the kept user messages without processing each of them' % r.key, t)


def seen_number(M, F, D, pre, fr):
    return False


def elemterms(F, ev, cells, base):
    """terms of the element of the collection the iteration works on"""
    out = set()
    def scan(x):
        for y in atoms_in(x):
            if y and y[0] == 'elem' and (y[1] is base or y[1] is base[1]):
                out.add(y)
    for q in F.preds:
        scan(q)
    for l in F.lins:
        scan(l)
    for e in ev or ():
        scan(e)
    return out


def elems(F, ev, cells, base):
    for y in elemterms(F, ev, cells, base):
        yield y[2]


def core(t):
    """the term an integer value stands for"""
    while True:
        if t[0] == 'i' and len(t[2]) == 1 and t[1] == 0 and t[2][0][1] == 1:
            t = t[2][0][0]
        elif t[0] == 'int':
            t = t[1]
        else:
            return t
