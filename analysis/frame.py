"""Recognising received and produced messages in result partitions."""
from base import *
from mini import *


def termof(q):
    """the term a whole-base sequence stands for"""
    if q[0] == 'seq' and len(q[1]) == 1 and q[1][0][0] == 'sub':
        b = q[1][0][1]
        if q[1][0][2] is I(0) and q[1][0][3] is baselen(b):
            return b[2] if b[0] in ('fixed', 'lenof') else b
    return None


def piece(q):
    """(base, lo, hi) of a one-piece sequence"""
    if q[0] == 'seq' and len(q[1]) == 1 and q[1][0][0] == 'sub':
        return q[1][0][1], q[1][0][2], q[1][0][3]
    return None


def hashof(q, alg='SHA256'):
    t = termof(q)
    if t is not None and t[0] == 'hash' and t[1] == alg:
        return t[2]
    return None


def fieldis(F, b, lo, hi, val):
    q = sub(b, lo, hi)
    x = bytes_of(q, F)
    if x is not None:
        return x == val
    return F.entails_eq_seq(q, lit(val))


def eqs(F):
    """positive equalities of byte strings, both ways round"""
    for p, t in F.preds.items():
        if p[0] == 'eq' and t and p[1][0] == 'seq' and p[2][0] == 'seq':
            yield p[1], p[2]
            yield p[2], p[1]


def hashed_frames(F):
    """[(D, e)]: D[e..] was found equal to SHA-256 of D[0..e]"""
    out = []
    for a, b in eqs(F):
        q = hashof(b)
        if q is None:
            continue
        x, y = piece(a), piece(q)
        if x and y and x[0] is y[0] and cint(y[1]) == 0 and F.eq_lin(x[1], y[2]):
            out.append((x[0], y[2]))
    return out


def signed_frames(F):
    """[(B, e, key)]: the Ed25519 signature B[e..] of B[0..e] verified under key"""
    out = []
    for p, t in F.preds.items():
        if p[0] == 'sig' and t and p[1] == 'ED25519':
            m, s = piece(p[3]), piece(p[4])
            if m and s and m[0] is s[0] and cint(m[1]) == 0 and F.eq_lin(m[2], s[1]):
                out.append((m[0], m[2], p[2]))
    return out


def payload(G, v):
    """(payload leaf value, other byte leaves) of a delivered message"""
    opt, rest = None, []
    for x in v[3] if v[0] == 'adt' else ():
        if x[0] == 'adt' and G.p.isadt(x[1], 'Option') or x[0] == 'sym':
            opt = x
        else:
            rest.append(x)
    return opt, rest


def payload_is(G, F, v, D, off, e):
    if v is None:
        return False
    if G.none(v):
        return F.eq_lin(F.res(e), I(off))
    if G.some(v):
        return v[3][0][0] == 'seq' and same_seq(v[3][0], mkseq([mk('sub', D, I(off), e)]), F)
    return False


def lenfield(F, D, e):
    """e is where the length field of D says the message ends"""
    return F.eq_lin(e, msgend(D))


def own_challenge(M, F, B):
    """B[18..50] was found equal to the hash of the layer's own ephemeral public key"""
    own = M.own_epk()
    for a, b in eqs(F):
        q = hashof(b)
        if q is None:
            continue
        x = piece(a)
        if x and x[0] is B and F.eq_lin(x[1], I(18)) and F.eq_lin(x[2], I(50)) and \
                any(same(q, o, F) for o in own):
            return True
    return False


def own_challenge_facts(M, B):
    """the challenge answers the key of this layer: one fact for each place that holds it"""
    return [seq_eq(sub(B, 18, 50), fixed(32, mk('hash', 'SHA256', o)), None) for o in M.own_epk()]


def isauth(F, b):
    import reach
    return reach.isauth(b, F)


def decs(ev, R, F):
    """[(base of the plaintext, key, nonce, aad)] of decryptions of the received bytes R"""
    out = []
    n = baselen(R)
    for e in ev or ():
        if e[1] != 'dec':
            continue
        c, t = piece(e[5]), piece(e[6])
        if c and t and c[0] is R and t[0] is R and cint(c[1]) == 0 and F.eq_lin(c[2], t[1]) and \
                F.eq_lin(t[2], n) and F.eq_lin(lsub(t[2], t[1]), I(16)):
            q = lenof(slen(e[5]), mk('dec', *e[2:7]))
            out.append((q[1][0][1], e))
    return out


def valid_clear(M, R, kind, key=None, challenge=False):
    """facts of a well-formed handshake message in R, signed by key (None: by the key it announces)"""
    n = baselen(R)
    e = msgend(R)
    min_ = HDR[kind]
    vs = [seq_eq(sub(R, 0, 4), lit(MAGIC), None), seq_eq(sub(R, 4, 8), lit(VERSION), None),
          le0(lsub(I(min_), be8(R, 8))), eq0(lsub(n, ladd(e, I(64)))),
          seq_eq(sub(R, 16, 18), lit(TYPES[kind]), None)]
    if kind == 'Connect':
        vs.append(seq_eq(sub(R, 50, 54), lit(bytes(4)), None))
        if key is None:
            key = sub(R, 54, 86)
    if key is not None:
        vs.append(mk('p', mk('sig', 'ED25519', key, mkseq([mk('sub', R, I(0), e)]), mkseq([mk('sub', R, e, n)]))))
    if challenge:
        vs += own_challenge_facts(M, R)
    return vs


def valid_user(R, D, e):
    """facts of an authentic well-formed user message: R received, D its plaintext (None: not decrypted here)"""
    n = baselen(R)
    if D is None:
        return [le0(lsub(I(16 + 16 + HDR['Message'] + 32), n))]
    vs = [mk('p', mk('bool', mk('authentic', *e[2:7]))),
          le0(lsub(I(16 + 16 + HDR['Message'] + 32), n)),
          seq_eq(sub(D, 0, 4), lit(MAGIC), None), seq_eq(sub(D, 4, 8), lit(VERSION), None),
          seq_eq(sub(D, 16, 18), lit(TYPES['Message']), None),
          le0(lsub(I(HDR['Message']), be8(D, 8))), eq0(lsub(baselen(D), ladd(msgend(D), I(32))))]
    h = fixed(32, mk('hash', 'SHA256', mkseq([mk('sub', D, I(0), msgend(D))])))
    vs.append(seq_eq(mkseq([mk('sub', D, msgend(D), baselen(D))]), h, None))
    return vs
