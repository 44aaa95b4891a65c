import sys,time
sys.path.insert(0,'/verif'); sys.setrecursionlimit(50000)
from pathlib import Path
from sa.contract import Contract
from sa.compare import *
repo=Path(sys.argv[1]); verbose='-v' in sys.argv; want=[a for a in sys.argv[2:] if not a.startswith('-')]
t=time.time()
C=Contract(repo)
n={0:0,1:0,2:0}
for f in C.spec.project.all_functions():
    if want and not any(w in f.qual for w in want): continue
    try: rs=C.compare(f.qual)
    except KeyError as e: print("SPECERR",e); continue
    for r in rs:
        n[r.verdict]+=1
        if r.verdict: print(NAMES[r.verdict].upper(), r.func, r.aspect, r.file.rpartition('/')[2], r.line, r.diffs[:3] if verbose else '')
print(n, f"{time.time()-t:.1f}s dropped", C.dropped)
