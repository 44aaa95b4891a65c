"""Development aid: which planted changes of bugs.py survive the repository's own tests."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
sys.path.insert(0, str(Path(__file__).parent))
import bugs


def one(id):
    d = Path(tempfile.mkdtemp(prefix="surv"))
    try:
        err = bugs.make(id, d)
        if err:
            return id, "ERR " + err
        for x in ("tests", "scripts", "pyproject.toml", "noxfile.py", "README.rst"):
            s = Path("/repo") / x
            if s.is_dir():
                shutil.copytree(s, d / x, symlinks=True)
            elif s.exists():
                shutil.copy2(s, d / x)
        for w in Path("/opt/vp/wheels").glob("*.whl"):
            t = d / "tests/bundled-wheels" / w.name
            if not t.exists():
                shutil.copy2(w, t)
        env = dict(os.environ, PYTHONPATH=str(d / "src"), PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"])
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", f"--basetemp={d}/bt",
                            "--ignore=tests/integration/test_manylinux.py"], cwd=d, env=env, capture_output=True, text=True, timeout=600)
        last = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
        return id, ("survives" if r.returncode == 0 else "killed " + (last[0][:150] if last else r.stdout[-200:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    out = Path(sys.argv[1])
    res = json.loads(out.read_text()) if out.exists() else {}
    ids = [i for i in bugs.B if (not sys.argv[2:] and i not in res) or any(a in i for a in sys.argv[2:])]
    with ThreadPoolExecutor(8) as ex:
        for id, r in ex.map(one, ids):
            res[id] = r
            print(id, r, flush=True)
            out.write_text(json.dumps(res, indent=0))
