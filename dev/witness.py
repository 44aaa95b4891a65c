"""dev: witness.py refs|bugs ID FUNC ASPECT - an assignment telling the sides apart"""
import sys, tempfile, importlib, shutil
from pathlib import Path
sys.setrecursionlimit(50000)
sys.path[:0] = ["/verif", "/verif/dev"]
from sa import contract as ct, model
from sa.terms import show
m = importlib.import_module(sys.argv[1])
d = Path(tempfile.mkdtemp(prefix="feat"))
try:
    assert not m.make(sys.argv[2], d)
    C = ct.Contract(d)
    def esc(self, K, c, s, out):
        R = model.Refuter(c, s, (s.types.get, c.types.get), self.enums)
        for r in out:
            if r.verdict == 0 or r.aspect.startswith("order:"): continue
            res = R.aspect(r.aspect, r.diffs)
            if sys.argv[4] == r.aspect:
                print(r.aspect, r.verdict, res, R.sure, R.fair, "LOSSY", [show(x)[:200] for x in getattr(getattr(R,"witness",None),"lossy",())])
                ev = R.witness; R.witness.steps=0
                if r.aspect.startswith("ev:"):
                    k = r.aspect[3:].partition("#")[0]
                    for n, z in (("code", c), ("spec", s)):
                        for e in z.events:
                            if e.kind == k:
                                print(n, "loops", [show(x)[:100] for x in e.loops], "guard", e.guard)
                                for en in ev.loop(e.loops, {}):
                                    print("   guard", ev.f(e.guard, en), {kk: ev.v(v, en) for kk, v in e.args} if ev.f(e.guard, en) else "")
                        print(n, [(kk, show(v)) for e in z.events if e.kind == k for kk, v in e.args][:6])
                elif r.aspect == "ret":
                    print("code", ev.v(c.ret, {}), show(c.ret)); print("spec", ev.v(s.ret, {}), show(s.ret))
                elif r.aspect.startswith("raise:"):
                    x = r.aspect[6:]
                    print("code", ev.f(c.raises.get(x, ct.F), {}), c.raises.get(x)); print("spec", ev.f(s.raises.get(x, ct.F), {}), s.raises.get(x))
                for k, v in list(ev.memo.items()):
                    if isinstance(k, ct.Term) and k.op in ("param", "attr", "call", "raises", "glob"): print("   ", show(k)[:80], "=", repr(v)[:150])
    ct.Contract.escalate = esc
    C.compare(sys.argv[3])
finally: shutil.rmtree(d)
