import sys, difflib
sys.path.insert(0, "/verif/dev")
import refs
for i in sys.argv[1:]:
    print("=====", i)
    for rel, old, new in refs.R[i]:
        print("".join(l for l in difflib.unified_diff(old.splitlines(1), new.splitlines(1), rel, rel, n=2) if True))
