"""Roles and ghost history of the reachable states of MinimalSecureLayer (and,
through the calls recorded in the trail, of SecureLayer)."""
from base import *

MAGIC = bytes([0xE2, 0xC2, 0xE2, 0xD2])
VERSION = bytes([0, 0, 0, 1])
TYPES = {'Connect': bytes([0, 1]), 'Ack': bytes([0, 2]), 'Message': bytes([0, 0])}
HDR = {'Connect': 2 + 32 + 4 + 32, 'Ack': 2 + 32, 'Message': 2 + 8}
BOUND = 10000
CREATES = {'create_connect_message': 'sC', 'create_ack_message': 'sA'}
ALL4 = frozenset(['sC', 'sA', 'rC', 'rA'])


def sub(b, lo, hi):
    lo = I(lo) if isinstance(lo, int) else lo
    hi = I(hi) if isinstance(hi, int) else hi
    return mkseq([mk('sub', b, lo, hi)])


def be8(b, off):
    return mkbe(8, sub(b, off, off + 8))


def msgend(b):
    return ladd(be8(b, 8), I(16))


def isdec(b):
    t = b[2] if b[0] in ('fixed', 'lenof') else b
    return t if t[0] == 'dec' else None


class Ghosts(Layer):
    """states with their reported history"""

    def __init__(self, prog, layer, log=None):
        super().__init__(prog, layer, log)
        self.complete = layer != 'MinimalSecureLayer'
        self.out = {}          # id(exit) -> effects
        self.nonce_leaf = None
        self.build()

    # received bytes, as the reader sees them
    def rawbase(self, r):
        for i, ty in enumerate(r.root['inputs']):
            t = self.p.types[ty]
            if t['k'] == 'ref' and self.p.types[t['ty']]['k'] in ('slice',) and not t.get('mut'):
                a = r.args[i]
                v = a[1] if a[0] == 'vref' else a
                if v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'sub':
                    return v[1][0][1]
        return None

    def writer_args(self, r):
        out = []
        for i, ty in enumerate(r.root['inputs']):
            t = self.p.types[ty]
            if t['k'] == 'ref' and t.get('mut') and not (i == 0 and r.root['has_self']):
                out.append(i)
        return out

    def written(self, r, x):
        """(initial, final) content values of the caller's writers"""
        out = []
        for i in self.writer_args(r):
            v = x.st.cells.get(('root', 'arg%d' % i))
            init = whole(mk('w0', mk('arg', i)))
            if v is None:
                continue
            if v[0] == 'w':
                out.append((i, init, v[2]))
            elif v[0] == 'sym':
                out.append((i, init, init))
            else:
                out.append((i, init, None))
        return out

    def u64atoms(self, v):
        for path, x in self.leaves(v):
            if x[0] == 'i' and len(x[2]) == 1 and x[1] == 0 and x[2][0][1] == 1 and x[2][0][0][0] == 'int':
                yield path, x[2][0][0]

    def settled(self, x, ret):
        """the result of a call, with its variant fixed when the facts of the exit know it"""
        if ret[0] == 'sym':
            try:
                return self.E.concrete(x.st, ret)
            except interp.Split:
                pass
        return ret

    def effects(self, r, x):
        """(ghosts added, fatal?, deliveries, wrote?) of an exit"""
        e = self.out.get(id(x))
        if e is not None:
            return e
        add = set()
        fatal = False
        dl = self.deliveries(r, x)
        name = self.opname(r)
        kind, v = self.W.split_result(x)
        if not self.complete:
            calls = [(name, x.ret, self.nonfatal(x.st.F))]
        else:
            calls = []
            for t in x.st.trail:
                if t[0] == 'api':
                    root = [q for q in self.p.roots if q['key'] == t[1]][0]
                    calls.append((root['name'], t[2], t[4]))
        for nm, ret, why in calls:
            k, val = self.split(self.settled(x, ret))
            if k != 'err':
                if nm in CREATES:
                    add.add(CREATES[nm])
                if nm == 'try_clone':
                    add.add('cl')
                if val[0] == 'adt':
                    for m in self.opt_message(val) if self.p.isadt(val[1], 'Option', 'Message') else []:
                        n = self.enumname(m)
                        if n == 'Connect':
                            add.add('rC')
                        elif n == 'Ack':
                            add.add('rA')
            else:
                root = [q for q in self.p.roots if q['name'] == nm and q['exported']
                        and self.selfname(q) == 'MinimalSecureLayer']
                if not root:
                    continue
                root = root[0]
                if self.msgs_out(root['output']):
                    if why is None:
                        fatal = True
                elif nm == 'write_message':
                    fatal = True
        wrote = [(i, a, b) for i, a, b in self.written(r, x) if b is not a]
        e = (frozenset(add), fatal, dl, wrote, kind, v)
        self.out[id(x)] = e
        return e

    def build(self):
        """reachable (shape, ghosts) nodes"""
        W = self.W
        self.nodes = {}        # node -> predecessor (node, run, exit)
        todo = []

        def add(n, pred):
            if n not in self.nodes:
                self.nodes[n] = pred
                todo.append(n)
        byshape = {}
        for t in W.trans:
            if t[0] is None:
                for s in t[4]:
                    add((s, frozenset()), (None, t[1], t[2]))
            else:
                byshape.setdefault(t[0], []).append(t)
        self.byshape = byshape
        self.edges = 0
        while todo:
            n = todo.pop()
            s, g = n
            for t in byshape.get(s, []):
                _, r, x, suc, born = t
                add_, fatal, dl, wrote, kind, v = self.effects(r, x)
                g2 = g | add_ | (frozenset(['fatal']) if fatal else frozenset())
                self.edges += 1
                for s2 in suc:
                    add((s2, g2), (n, r, x))
                for s2 in born:
                    add((s2, g2 | frozenset(['isclone'])), (n, r, x))

    def history(self, n):
        """operations leading to a node"""
        out = []
        k = 0
        while n is not None and k < 30:
            pred = self.nodes[n]
            k += 1
            n, r, x = pred
            kind, v = self.W.split_result(x)
            out.append('%s -> %s' % (self.opname(r), self.show(x.ret)[:110]))
        out.reverse()
        return out

    def trace(self, n, r, x):
        return (['history: ' + '; '.join(self.history(n))] if n is not None else []) + \
            ['operation: ' + self.where(r), 'result: ' + self.show(x.ret)[:300]] + \
            trace_of(x.st) + ['fact: ' + f for f in facts_text(x.st.F)]

    def cases(self):
        """every reachable (node, run, exit, successors, born)"""
        for n in list(self.nodes):
            for t in self.byshape.get(n[0], []):
                yield n, t[1], t[2], t[3], t[4]


class Min(Ghosts):
    def __init__(self, prog, log=None):
        super().__init__(prog, 'MinimalSecureLayer', log)
        self.roles()

    def term(self, path):
        t = mk('self')
        for var, i in path:
            t = mk('fld', t, var, i)
        return t

    def roles(self):
        W = self.W
        self.ctors = [(t[1], t[2]) for t in W.trans if t[0] is None]
        self.trusted, self.config, self.ownepk, self.priv = set(), set(), set(), set()
        for r, x in self.ctors:
            k, v = W.split_result(x)
            for path, l in self.leaves(v):
                if l[0] == 'sym' and l[1][0] == 'arg' and self.p.isadt(l[2], 'Option'):
                    self.trusted.add(path)
                elif self.argof(l) == 0 and self.tyname(r.root['inputs'][0]) == 'SecureLayerConfig':
                    self.config.add(path)
                if l[0] == 'pubk':
                    self.ownepk.add(path)
                if l[0] == 'sym' and l[1][0] == 'ephpriv':
                    self.priv.add(path)
        # AEAD inputs
        self.keyleaf = set()
        for r in self.runs:
            for x in r.sum.exits:
                for e in x.st.ev:
                    if e[1] in ('enc', 'dec'):
                        self.keyleaf.add(e[2:5])

    def argof(self, l):
        if l[0] == 'sym':
            t = l[1]
        elif l[0] == 'i' and len(l[2]) == 1:
            t = l[2][0][0]
            if t[0] == 'int':
                t = t[1]
        else:
            return None
        while t[0] == 'fld':
            t = t[1]
        return t[1] if t[0] == 'arg' else None

    def own_epk(self):
        """byte values that stand for this layer's own ephemeral public key"""
        return [fixed(32, mk('bytes', self.term(p))) for p in self.ownepk] + \
               [whole(mk('bytes', self.term(p))) for p in self.ownepk]

    def trust_of(self, v):
        """trusted key bytes stored in a layer value: list over trusted leaves (None when absent)"""
        out = []
        for p in self.trusted:
            l = self.get(v, p)
            if l is None:
                continue
            if self.some(l):
                out.append(l[3][0])
            elif self.none(l):
                out.append(None)
            else:
                out.append(l)
        return out
