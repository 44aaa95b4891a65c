"""Development aid: all properties against one tree in one process; last line is JSON."""
import json, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent.parent)); sys.setrecursionlimit(50000); sys.dont_write_bytecode = True
from sa import obligations, rules
from sa.compare import DIFF, UNK
from sa.contract import Contract
repo = Path(sys.argv[1])
C = Contract(repo)
ctx = rules.Ctx(C)
allf = [f.qual for f in C.spec.project.all_functions()]
cache, out, und = {}, {}, {}
for pid in sorted(obligations.TEXT):
    obs, rls = obligations.parse(pid)
    for q in obligations.functions(obs, allf):
        if q not in cache:
            try:
                cache[q] = C.compare(q)
            except KeyError as e:
                cache[q] = []
                und.setdefault(pid, []).append(str(e))
        for r in cache[q]:
            if obligations.relevant(obs, r.func, r.aspect):
                if r.verdict == DIFF:
                    out.setdefault(pid, []).append(f"{r.func} {r.aspect} {str(r.diffs[:1])[:200]}")
                elif r.verdict == UNK:
                    und.setdefault(pid, []).append(f"{r.func} {r.aspect} {str(r.diffs[:1])[:200]}")
    for name, a in rls:
        fs, st = rules.run(ctx, name, a, pid)
        for file, line, func, msg in fs:
            out.setdefault(pid, []).append(f"rule:{name} {func} {msg[:200]}")
unused = [(q, r.aspect, r.verdict) for q, rs in cache.items() for r in rs if r.verdict and not any(
    obligations.relevant(obligations.parse(p)[0], r.func, r.aspect) for p in obligations.TEXT)]
if "-v" in sys.argv:
    for k, v in out.items():
        print(k, *v, sep="\n   ")
print(json.dumps({"viol": out if "-v" in sys.argv else sorted(out), "und": und, "unused": unused}))
