"""dev: show.py refs|bugs ID FUNC ASPECT [width] - both sides of an aspect in full"""
import sys, tempfile, importlib, shutil
from pathlib import Path
sys.setrecursionlimit(50000)
sys.path[:0] = ["/verif", "/verif/dev"]
from sa import contract as ct
from sa.terms import show
m = importlib.import_module(sys.argv[1])
d = Path(tempfile.mkdtemp(prefix="feat"))
W = int((sys.argv[5:] or [3000])[0])
def shw(x):
    if isinstance(x, ct.Term): return show(x)[:W]
    return str(x)[:W]
try:
    assert not m.make(sys.argv[2], d)
    C = ct.Contract(d)
    def esc(self, K, c, s, out):
        for r in out:
            if sys.argv[4] == r.aspect:
                for n, z in (("code", c), ("spec", s)):
                    if r.aspect == "ret": print(n, shw(z.ret))
                    elif r.aspect.startswith("raise:"): print(n, shw(z.raises.get(r.aspect[6:], ct.F)))
                    elif r.aspect.startswith("field:"): print(n, [(shw(o), shw(v)) for (o, a), v in z.fields.items() if a == r.aspect[6:]])
                    else:
                        k = r.aspect[3:].partition("#")[0]
                        for e in z.events:
                            if e.kind == k: print(n, [shw(x) for x in e.loops], shw(e.guard), [(a, shw(v)) for a, v in e.args])
    ct.Contract.escalate = esc
    C.compare(sys.argv[3])
finally: shutil.rmtree(d)
