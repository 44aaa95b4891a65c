"""print full terms of differing results: full.py ROOT FUNC ASPECT"""
import sys
sys.path.insert(0,'/verif'); sys.setrecursionlimit(50000)
import sa.terms as tm
from pathlib import Path
from sa.contract import Contract
from sa.terms import *
def pp(t, d=0, out=None):
    ind = "  " * d
    if isinstance(t, Node): 
        s = showf(t)
        if len(s) < 200: return ind + s
        return ind + "F:\n" + "\n".join(pp(a, d+1) for a in support(t))
    if isinstance(t, tuple): return ind+"(\n" + "\n".join(pp(x, d+1) for x in t) + "\n"+ind+")"
    if not isinstance(t, Term): return ind + repr(t)
    s = show(t)
    if len(s) < 160 and "…" not in s: return ind + s
    return ind + t.op + "[\n" + "\n".join(pp(x, d+1) for x in t.args) + "\n" + ind + "]"
C = Contract(Path(sys.argv[1]))
for r in C.compare(sys.argv[2]):
    if r.aspect == sys.argv[3]:
        n = int(sys.argv[4]) if len(sys.argv) > 4 else 0
        d = r.diffs[n]
        print(len(r.diffs), d.why)
        open("/tmp/fc.txt","w").write(pp(d.code)); open("/tmp/fs.txt","w").write(pp(d.spec))
