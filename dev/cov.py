"""dev: cov.py refs|bugs ID FUNC ASPECT - branches of the formulas of one aspect never taken by random interpretation"""
import sys, tempfile, importlib, shutil
from collections import Counter
from pathlib import Path
sys.setrecursionlimit(50000)
sys.path[:0] = ["/verif", "/verif/dev"]
from sa import contract as ct, model
from sa.terms import show, atom_term
m = importlib.import_module(sys.argv[1])
d = Path(tempfile.mkdtemp(prefix="feat"))
try:
    assert not m.make(sys.argv[2], d)
    C = ct.Contract(d)
    def esc(self, K, c, s, out):
        R = model.Refuter(c, s, (s.types.get, c.types.get), self.enums)
        allc = Counter()
        o = model.Evaluator.f
        def f(self, n, env):
            r = o(self, n, env)
            for k in self.cov: allc[k] += 1
            return r
        model.Evaluator.f = f
        for r in out:
            if sys.argv[4] == r.aspect:
                print(r.aspect, r.verdict, R.aspect(r.aspect, r.diffs))
                seen = Counter()
                for (n, x), k in allc.items(): seen[(atom_term(n.var), x)] += k
                for a in {t for t, _ in seen}: print(seen[(a, True)], seen[(a, False)], show(a)[:int((sys.argv[5:] or [200])[0])])
    ct.Contract.escalate = esc
    C.compare(sys.argv[3])
finally: shutil.rmtree(d)
