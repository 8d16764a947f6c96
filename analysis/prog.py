"""The dumped program: types, function bodies, CFG facts."""
import json
import re


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    while '::::' in r:
        r = r.replace('::::', '::')
    return r.strip(':')


_nc = {}


def norm(path):
    r = _nc.get(path)
    if r is None:
        r = _nc[path] = strip_generics(path)
    return r


def last2(path):
    p = norm(path).split('::')
    return '::'.join(p[-2:])


class Fn:
    __slots__ = ('key', 'path', 'crate', 'local', 'closure', 'span', 'argc', 'spread', 'locals',
                 'vars', 'blocks', 'rpo', 'heads', 'region', 'norm')

    def __init__(self, key, d):
        self.key = key
        for a in ('path', 'crate', 'local', 'closure', 'span', 'argc', 'spread', 'locals', 'vars', 'blocks'):
            setattr(self, a, d[a])
        self.norm = norm(self.path)
        self._cfg()

    def succ(self, b):
        bl = self.blocks[b]
        if bl is None:
            return []
        t = bl['t']
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            r = [x[1] for x in t['vals']]
            if t['else'] is not None:
                r.append(t['else'])
            return r
        if k in ('drop', 'call', 'assert'):
            return [t['t']] if t.get('t') is not None else []
        return []

    def _cfg(self):
        n = len(self.blocks)
        seen = [0] * n
        order = []
        st = [(0, iter(self.succ(0)))]
        seen[0] = 1
        back = []
        while st:
            b, it = st[-1]
            for s in it:
                if seen[s] == 0:
                    seen[s] = 1
                    st.append((s, iter(self.succ(s))))
                    break
                elif seen[s] == 1:
                    back.append((b, s))
            else:
                seen[b] = 2
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {}
        for b in order:
            for s in self.succ(b):
                preds.setdefault(s, []).append(b)
        self.heads = {}
        for b, h in back:
            reg = self.heads.setdefault(h, {h})
            stack = [b]
            while stack:
                x = stack.pop()
                if x in reg:
                    continue
                reg.add(x)
                stack.extend(p for p in preds.get(x, ()))


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {k: None for k in d['fns']}
        self._raw = d['fns']
        self.roots = d['roots']
        self.adts = d['adts']
        self.impls = d['impls']
        self.exports = d['exports']
        self.clokey = {}
        for i, t in enumerate(self.types):
            t['id'] = i
        self._seq = {}
        self._find = {}

    def fn(self, key):
        f = self.fns.get(key)
        if f is None and key in self._raw:
            d = self._raw[key]
            if d['blocks']:
                self.unwrap(d['blocks'])
            f = self.fns[key] = Fn(key, d)
        return f

    WRAPPERS = ('ManuallyDrop', 'MaybeDangling')

    def unwrap(self, x):
        """drops the projections into the fields of MaybeUninit, which hold the value itself"""
        if isinstance(x, dict):
            for v in x.values():
                if isinstance(v, (dict, list)):
                    self.unwrap(v)
            return
        i = 0
        while i < len(x):
            y = x[i]
            if isinstance(y, list) and len(y) == 3 and y[0] == 'f' and self.wrapper(y[2]):
                while i < len(x) and isinstance(x[i], list) and x[i][0] == 'f' and self.wrapper(x[i][2]):
                    del x[i]
                if i < len(x):
                    del x[i]
                continue
            if isinstance(y, (dict, list)):
                self.unwrap(y)
            i += 1

    def wrapper(self, ty):
        if not isinstance(ty, int) or ty < 0:
            return False
        t = self.types[ty]
        return t['k'] == 'adt' and t['path'].split('::')[-1] in self.WRAPPERS

    def has(self, key):
        return key in self._raw

    def ty(self, i):
        return self.types[i]

    def local_fns(self):
        return [k for k, f in self._raw.items() if f['crate'] == 'pkstl']

    def seq_elem(self, ty):
        """element type id if values of the type are modelled as sequences (else None)"""
        r = self._seq.get(ty, 0)
        if r == 0:
            r = self._seq[ty] = self._seq_elem(ty)
        return r

    def _seq_elem(self, ty):
        t = self.types[ty]
        k = t['k']
        if k in ('array', 'slice'):
            return t['ty']
        if k == 'str':
            return -8
        if k == 'adt':
            p = t['path']
            if p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
                return t['args'][0]
            if p == 'alloc::string::String':
                return -8
            if t.get('box') and t['args']:
                return self.seq_elem(t['args'][0])
        return None

    def isu8(self, e):
        if e == -8:
            return True
        t = self.types[e]
        return t['k'] == 'int' and t['bits'] == 8 and not t['signed']

    def deref_ty(self, ty):
        t = self.types[ty]
        if t['k'] in ('ref', 'ptr'):
            return t['ty']
        if t['k'] == 'adt' and t.get('box') and t['args']:
            return t['args'][0]
        return None

    def find_ty(self, pred, tag=None):
        for i, t in enumerate(self.types):
            if pred(t):
                return i
        return None

    def ty_by_s(self, s):
        if s not in self._find:
            self._find[s] = self.find_ty(lambda t: t['s'] == s)
        return self._find[s]

    def isadt(self, ty, *names):
        if ty is None or ty < 0:
            return False
        t = self.types[ty]
        return t['k'] == 'adt' and (t['path'] in names or t['path'].split('::')[-1] in names)
