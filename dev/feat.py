"""dev: feat.py refs|bugs|DIR OUT - features of escalated results"""
import sys, json, subprocess, tempfile, shutil, importlib
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor
sys.setrecursionlimit(50000)
sys.path[:0] = ["/verif", "/verif/dev"]


def one(root):
    from sa import contract as ct
    from sa.compare import UNK, DIFF
    from sa.terms import subterms, Term, Node, show
    C = ct.Contract(Path(root))
    rows = []
    orig = ct.Contract.escalate

    def esc(self, K, c, s, out):
        before = {id(r) for r in out if r.verdict == UNK}
        nd = sum(1 for r in out if r.verdict == DIFF)
        orig(self, K, c, s, out)
        ks, kc = set(), set()
        for t in s.terms(): subterms(t, ks)
        for t in c.terms(): subterms(t, kc)
        fa, fb = len(kc - ks), len(ks - kc)
        for r in out:
            if id(r) in before and r.verdict == DIFF:
                f1, f2 = set(), set()
                for d in r.diffs:
                    ct.fresh(d.code, ks, f1); ct.fresh(d.spec, kc, f2)
                ops1 = sorted({t.op for t in f1}); ops2 = sorted({t.op for t in f2})
                rows.append(dict(func=r.func, aspect=r.aspect, f1=len(f1), f2=len(f2), tot1=fa, tot2=fb, nd=nd, ops1=ops1, ops2=ops2, whys=sorted({d.why[:20] for d in r.diffs}), nunk=len(before)))
    ct.Contract.escalate = esc
    for f in C.spec.project.all_functions():
        try: C.compare(f.qual)
        except KeyError: pass
    print(json.dumps(rows))


def run(m, i):
    d = Path(tempfile.mkdtemp(prefix="feat"))
    try:
        if m.make(i, d): return i, []
        r = subprocess.run([sys.executable, __file__, "one", str(d)], capture_output=True, text=True)
        try: return i, json.loads(r.stdout.splitlines()[-1])
        except Exception: return i, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "one":
        one(sys.argv[2])
    else:
        m = importlib.import_module(sys.argv[1])
        ids = [i for i in (m.R if sys.argv[1] == "refs" else m.B) if not sys.argv[3:] or i.startswith(sys.argv[3])]
        with ThreadPoolExecutor(8) as ex:
            res = dict(ex.map(lambda i: run(m, i), ids))
        json.dump(res, open(sys.argv[2], "w"))
