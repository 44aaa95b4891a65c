"""dev: rx.py refs|bugs ID [FUNC [ASPECT]] - the smallest differing parts"""
import sys, shutil
from pathlib import Path
sys.setrecursionlimit(50000)
sys.path[:0] = ["/verif", "/verif/dev"]
import importlib
mod = importlib.import_module(sys.argv[1]); ID = sys.argv[2]
d = Path("/tmp/rx"); shutil.rmtree("/tmp/rx", ignore_errors=True); d.mkdir()
e = mod.make(ID, d)
if e: print(e); sys.exit()
from sa.contract import Contract, fresh
from sa.compare import DIFF, UNK, EQ
from sa.terms import *
C = Contract(d)
from pathlib import Path as P

def sh(l, x):
    if isinstance(x, tuple) and len(x) != 1 or isinstance(x, tuple) and x and isinstance(x[0], Term) and x[0].op in ("ent", "acc"):
        for e in x:
            if isinstance(e, Term) and e.op in ("ent", "acc"):
                print("     ", l, e.op, "L=", show(e.args[0])[:300]); print("          g=", show(e.args[1])[:700]); print("          v=", show(e.args[2])[:300], "k=", show(e.args[3])[:200])
            else: print("     ", l, "-", show(e)[:500])
    elif isinstance(x, Node):
        print("     ", l, "F", show(x)[:600])
        for a in support(x): print("           .", show(a)[:400])
    else: print("     ", l, show(x)[:900])

def drill(a, z, path="", depth=0, out=None):
    if a is z: return
    if isinstance(a, tuple) and isinstance(z, tuple) and len(a) == len(z):
        for i, (x, y) in enumerate(zip(a, z)): drill(x, y, f"{path}/{i}", depth + 1, out)
        return
    if isinstance(a, Term) and isinstance(z, Term) and a.op == z.op and len(a.args) == len(z.args):
        if a.op == "call" and a.args[0] != z.args[0]:
            out.append((path, a, z)); return
        n = len(out)
        for i, (x, y) in enumerate(zip(a.args, z.args)): drill(x, y, f"{path}/{a.op}{i}", depth + 1, out)
        return
    if isinstance(a, Node) and isinstance(z, Node):
        sa, sz = support(a), support(z)
        ua = [x for x in sa if x not in sz]; uz = [x for x in sz if x not in sa]
        if len(ua) == len(uz) and ua and len(ua) <= 3:
            for x, y in zip(ua, uz): drill(x, y, path + "/atom", depth + 1, out)
            return
    out.append((path, a, z))

funcs = sys.argv[3:4] or [f.qual for f in C.code.project.all_functions() if C.spec.project.resolve(f.qual)]
asp = sys.argv[4] if len(sys.argv) > 4 else ""
for q in funcs:
    try: rs = C.compare(q)
    except KeyError: continue
    for r in rs:
        if r.verdict == EQ or asp not in r.aspect: continue
        print("##", q, r.aspect, ["EQ", "UNK", "DIFF"][r.verdict])
        seen = set()
        for dd in r.diffs:
            print("  --", dd.why, ["EQ", "UNK", "DIFF"][dd.verdict])
            out = []
            if isinstance(dd.code, (Term, Node, tuple)) and isinstance(dd.spec, (Term, Node, tuple)):
                drill(dd.code, dd.spec, "", 0, out)
                for p, x, y in out[:6]:
                    if (id(x), id(y)) in seen: continue
                    seen.add((id(x), id(y)))
                    print("    @", p[-150:]); sh("C", x); sh("S", y)
            else: print("      C:", str(dd.code)[:600]); print("      S:", str(dd.spec)[:600])
