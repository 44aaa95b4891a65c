"""Development aid: writes /verif/seeded/<id>/ from bugs.py and demos/, keeping what is confirmed:
the repository's tests pass with the change, the demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
HERE = Path(__file__).resolve().parent
sys.path[:0] = [str(HERE), str(HERE / "demos")]
import bugs, survive
from d1 import D
import d2, d3  # noqa
SEED = HERE.parent / "seeded"
SH = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH\nexec python "$here/demo.py"\n'


def rundemo(folder, src):
    env = dict(os.environ, PYTHONPATH=str(src))
    r = subprocess.run(["bash", str(folder / "demo.sh")], cwd="/repo", env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def one(id):
    prop = bugs.B[id][0]
    needs, breaks, code = D[id]
    d = Path(tempfile.mkdtemp(prefix="seed"))
    try:
        err = bugs.make(id, d)
        if err:
            return id, err
        f = d / "folder"
        f.mkdir()
        shutil.copy(HERE / "demos/util.py", f / "util.py")
        (f / "demo.py").write_text("from util import *\n" + code)
        (f / "demo.sh").write_text(SH)
        rc, out = rundemo(f, "/repo/src")
        if rc != 0:
            return id, f"demo fails on the unchanged tree: {out}"
        rc, out = rundemo(f, d / "src")
        if rc == 0:
            return id, "demo passes with the change"
        if "FAILED:" not in out and rc not in (142, -14):
            return id, f"demo fails oddly: {out}"
        shutil.copytree("/repo/src", d / "a/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        (d / "b").mkdir()
        shutil.move(str(d / "src"), str(d / "b/src"))
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=d, capture_output=True, text=True)
        diff = r.stdout.replace("a/a/src", "a/src").replace("b/b/src", "b/src")
        (f / "patch.diff").write_text(diff)
        r = subprocess.run(["git", "-C", "/repo", "apply", "--check", str(f / "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return id, r.stderr
        (f / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        dst = SEED / id
        shutil.rmtree(str(dst), ignore_errors=True)
        shutil.copytree(f, dst)
        return id, "kept"
    finally:
        shutil.rmtree(str(d), ignore_errors=True)


if __name__ == "__main__":
    surv = json.loads(Path("/tmp/surv.json").read_text()) if Path("/tmp/surv.json").exists() else {}
    ids = [i for i in D if not sys.argv[1:] or any(a in i for a in sys.argv[1:])]
    for i in ids:
        if i not in surv:
            surv[i] = survive.one(i)[1]
            Path("/tmp/surv.json").write_text(json.dumps(surv, indent=0))
    bad = [i for i in ids if surv[i] != "survives"]
    print("killed by the tests:", bad)
    with ThreadPoolExecutor(8) as ex:
        for id, r in ex.map(one, [i for i in ids if i not in bad]):
            if r != "kept":
                print(id, r if len(r) < 250 else r[:60] + ' ... ' + r[-190:])
