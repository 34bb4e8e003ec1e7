import sys, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from pyvc.source import Program
from pyvc.registry import Registry
from pyvc.verify import Verifier
import contracts.load as L

def main():
    R = Registry(); L.load(R)
    pat = sys.argv[1]
    root = sys.argv[2] if len(sys.argv) > 2 else '/repo'
    for k, c in R.contracts.items():
        if pat in k and not c.trusted and not c.inline:
            v = Verifier(Program(root), R)
            if '-t' in sys.argv:
                r = v.Result(k); v._verify(c, r)
            r = v.verify(k)
            bad = r.failed
            print(f'{k}: {len(r.obls)} obls, {len(bad)} failed, oos={r.oos}, paths={r.paths}, {r.time:.1f}s q={r.queries}')
            for o in r.obls:
                if o.status != 'proved' or '-v' in sys.argv:
                    print('   ', o.status, o.kind, o.name, '|', o.detail[-200:], f'{o.time:.1f}s')
                    if '-m' in sys.argv and o.model: print(o.model)
main()
