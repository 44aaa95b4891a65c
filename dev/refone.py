"""apply one refactoring kind to one file into /tmp/r1: refone.py KIND REL [only-func]"""
import shutil, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from refactor import REPO, transform
kind, rel = sys.argv[1:3]
d = Path("/tmp/r1")
shutil.rmtree(d, ignore_errors=True)
shutil.copytree(REPO / "src", d / "src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
code, n = transform(rel, kind, sys.argv[3] if len(sys.argv) > 3 else None)
(d / "src/auditwheel" / rel).write_text(code)
print(n, "sites")
