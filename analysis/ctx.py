"""What the rules of one check share: the dumped program and the explored layers."""
import build
import prog as P
import interp
from base import *
import mini


class Roots:
    """every exported function that is not a layer operation, analysed alone"""

    def __init__(self, prog, layertys):
        self.p = prog
        self.runs = []
        for r in prog.roots:
            if not r['exported'] or r['derived']:
                continue
            if r['inputs'] and r['has_self']:
                t = prog.types[r['inputs'][0]]
                st = t['ty'] if t['k'] == 'ref' else r['inputs'][0]
                if st in layertys:
                    continue
            E = interp.Engine(prog)
            cells, args, tys = {}, [], {}
            for i, ty in enumerate(r['inputs']):
                t = prog.types[ty]
                if t['k'] == 'ref' and t['mut']:
                    nm = 'arg%d' % i
                    cells[('root', nm)] = E.mksym(mk('arg', i), t['ty'])
                    tys[nm] = t['ty']
                    args.append(mk('mref', ('root', nm), ()))
                else:
                    args.append(E.mksym(mk('arg', i), ty))
            self.runs.append((r, E.run(r['key'], args, cells, tys), E))


class Ctx:
    def __init__(self, features='--all-features', log=None):
        self.features = features
        self.p = P.Prog(build.dump(features))
        self.log = log
        self._min = self._com = self._roots = None
        self.show = Show(self.p)

    def haslayer(self, name):
        return any(t['k'] == 'adt' and t['path'].split('::')[-1] == name for t in self.p.types) and \
            any(r['exported'] and r['name'] == 'create' and name in r['key'].split('::') for r in self.p.roots)

    @property
    def min(self):
        if self._min is None:
            self._min = mini.Min(self.p, self.log)
        return self._min

    @property
    def com(self):
        if self._com is None:
            self._com = mini.Ghosts(self.p, 'SecureLayer', self.log)
        return self._com

    @property
    def roots(self):
        if self._roots is None:
            tys = {i for i, t in enumerate(self.p.types) if t['k'] == 'adt' and
                   t['path'].split('::')[-1] in ('MinimalSecureLayer', 'SecureLayer')}
            self._roots = Roots(self.p, tys)
        return self._roots

    def worlds(self):
        out = [self.min]
        if self.haslayer('SecureLayer'):
            out.append(self.com)
        return out
