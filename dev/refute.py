"""dev: refute.py refs|bugs OUT [prefix] - random interpretation of every DIFF"""
import sys, json, subprocess, tempfile, shutil, importlib
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor
sys.setrecursionlimit(50000)
sys.path[:0] = ["/verif", "/verif/dev"]


def one(root):
    from sa import contract as ct, model
    from sa.compare import UNK, DIFF
    C = ct.Contract(Path(root))
    rows = []
    orig = ct.Contract.escalate

    def esc(self, K, c, s, out):
        was = {id(r) for r in out if r.verdict == DIFF}
        orig(self, K, c, s, out)
        R = model.Refuter(c, s, (s.types.get, c.types.get), self.enums)
        for r in out:
            if r.verdict != 0 and not r.aspect.startswith("order:"):
                res, why = R.aspect(r.aspect, r.diffs)
                rows.append((r.func, r.aspect, r.verdict, id(r) in was, res, why, "sure", (getattr(R, "sure", 0), getattr(R, "fair", 0)), str(c.unknown)[:80]))
    ct.Contract.escalate = esc
    for f in C.spec.project.all_functions():
        try: C.compare(f.qual)
        except KeyError: pass
        for r in C.results.get(f.qual, []):
            if r.aspect == "*": rows.append((r.func, "*", r.verdict, False, None, r.diffs[0].code if r.diffs else ""))
    print(json.dumps(rows, default=str))


def run(m, i):
    d = Path(tempfile.mkdtemp(prefix="feat"))
    try:
        if m.make(i, d): return i, []
        r = subprocess.run([sys.executable, __file__, "one", str(d)], capture_output=True, text=True)
        try: return i, json.loads(r.stdout.splitlines()[-1])
        except Exception: return i, r.stderr[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "one":
        one(sys.argv[2])
    else:
        m = importlib.import_module(sys.argv[1])
        ids = [i for i in (m.R if sys.argv[1] == "refs" else m.B) if not sys.argv[3:] or any(i.startswith(a) for a in sys.argv[3:])]
        with ThreadPoolExecutor(8) as ex:
            res = dict(ex.map(lambda i: run(m, i), ids))
        json.dump(res, open(sys.argv[2], "w"))
        for i, rows in res.items():
            if isinstance(rows, str): print(i, "ERR", rows); continue
            for r in rows: print(i, *r)
