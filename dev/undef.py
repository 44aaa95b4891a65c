"""dev: undef.py refs|bugs ID FUNC ASPECT - why assignments give no value"""
import sys, tempfile, importlib, shutil
from pathlib import Path
from collections import Counter
sys.setrecursionlimit(50000)
sys.path[:0] = ["/verif", "/verif/dev"]
from sa import contract as ct, model
from sa.terms import show
m = importlib.import_module(sys.argv[1])
d = Path(tempfile.mkdtemp(prefix="feat"))
try:
    assert not m.make(sys.argv[2], d)
    C = ct.Contract(d)
    def esc(self, K, c, s, out):
        R = model.Refuter(c, s, (s.types.get, c.types.get), self.enums)
        cnt = Counter(); ex = {}
        model.TRACE = []
        for r in out:
            if sys.argv[4] in r.aspect: 
                print(r.aspect, r.verdict, R.aspect(r.aspect, r.diffs))
        tr, model.TRACE = model.TRACE, None
        for t, ev, env in tr:
                cnt[t] += 1
                if t in ex: continue
                a = []
                ev.trace = None
                for x in t.args:
                    try: a.append(repr(ev.v(x, env))[:60])
                    except Exception as e: a.append(type(e).__name__)
                ex[t] = a
        for t, n in cnt.most_common(6): print(n, t.op, show(t)[:200], ex[t])
    ct.Contract.escalate = esc
    C.compare(sys.argv[3])
finally: shutil.rmtree(d)
