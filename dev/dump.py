"""dump canonical summary: dump.py ROOT FUNC [kind]"""
import sys
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/dev'); sys.setrecursionlimit(50000)
from pathlib import Path
from sa.contract import Contract
from sa.terms import *
def pp(t, d=0, w=150):
    ind = "  " * d
    if isinstance(t, Node): 
        s = showf(t)
        if len(s) < w and "…" not in s: return ind + s
        return ind + "F("+s[:600]+"):\n" + "\n".join(pp(a, d+1,w) for a in support(t))
    if isinstance(t, tuple): return ind+"(\n" + "\n".join(pp(x, d+1,w) for x in t) + "\n"+ind+")"
    if not isinstance(t, Term): return ind + repr(t)
    s = show(t)
    if len(s) < w and "…" not in s: return ind + s
    return ind + t.op + "[\n" + "\n".join(pp(x, d+1,w) for x in t.args) + "\n" + ind + "]"
if __name__ == "__main__":
    C = Contract(Path(sys.argv[1]))
    s = C.code.summary(sys.argv[2])
    k = sys.argv[3] if len(sys.argv) > 3 else None
    if k in (None, "ret"): print("RET\n", pp(s.ret, 1)); print("RETGUARD\n", pp(s.ret_guard, 1))
    for e in s.events:
        if k is None or k in e.kind:
            print("EVENT", e.kind, e.line, e.func)
            print(pp(e.guard, 2)); print("  LOOPS", pp(e.loops, 2))
            for n, v in e.args: print("   ", n, "="); print(pp(v, 3))
    for x, g in s.raises.items():
        if k is None or k == "raise": print("RAISE", x); print(pp(g, 2))
    for (o, a), v in s.fields.items():
        if k is None or k == "field": print("FIELD", a, show(o)); print(pp(v, 2))
