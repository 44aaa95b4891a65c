"""dev: bugshow.py ID... - the planted change"""
import sys, subprocess, shutil
from pathlib import Path
sys.path.insert(0, "/verif/dev")
import bugs
for i in sys.argv[1:]:
    d = Path("/tmp/bugshow"); shutil.rmtree("/tmp/bugshow", ignore_errors=True); d.mkdir()
    e = bugs.make(i, d)
    print("=====", i, e or "")
    print(subprocess.run(["diff", "-ru", "-U2", "/repo/src", str(d / "src")], capture_output=True, text=True).stdout)
