"""dev: val.py refs|bugs ID FUNC ASPECT N - values of both sides (event args / ret) in the first N worlds"""
import sys, tempfile, importlib, shutil
from pathlib import Path
sys.setrecursionlimit(50000)
sys.path[:0] = ["/verif", "/verif/dev"]
from sa import contract as ct, model
from sa.terms import show
m = importlib.import_module(sys.argv[1])
d = Path(tempfile.mkdtemp(prefix="feat"))
try:
    assert not m.make(sys.argv[2], d)
    C = ct.Contract(d)
    def esc(self, K, c, s, out):
        R = model.Refuter(c, s, (s.types.get, c.types.get), self.enums)
        asp = sys.argv[4]
        k, _, arg = asp[3:].partition("#")
        for i in range(int(sys.argv[5])):
            R.world(i)
            ev = model.Evaluator(R.world(i).w, R.enums)
            for n, z in (("code", c), ("spec", s)):
                try:
                    if asp == "ret":
                        print(i, n, ev.f(z.ret_guard, {}), repr(ev.v(z.ret, {}))[:300])
                    for e in z.events if asp.startswith("ev:") else ():
                        if e.kind == k:
                            for en in ev.loop(e.loops, {}):
                                g = ev.f(e.guard, en)
                                if g: print(i, n, {kk: repr(ev.v(v, en))[:int((sys.argv[6:] or [200])[0])] for kk, v in e.args if not arg or kk in arg.split(",")})
                except (model.Undef, model.Opaque) as x: print(i, n, repr(x))
    ct.Contract.escalate = esc
    C.compare(sys.argv[3])
finally: shutil.rmtree(d)
