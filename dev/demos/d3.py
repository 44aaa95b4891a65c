from d1 import demo
from d2 import PATCH, AR

demo("c30-envwins", "the platform given both in the environment and on the command line", "the environment overrides the command line", '''
import argparse
from auditwheel.tools import EnvironmentDefault
os.environ["AW_DEMO"] = "a"
p = argparse.ArgumentParser()
p.add_argument("--x", action=EnvironmentDefault, env="AW_DEMO", dest="X", default="d", choices=["a", "b", "d"])
check(p.parse_args(["--x", "b"]).X == "b", "command line overridden")
check(p.parse_args([]).X == "a", "environment ignored")
''')
demo("c17-overlapnew", "removing a dependency that is the new name of a replaced one", "the contradiction is accepted", PATCH + '''
pa.replace_needed(a, ("x.so", "y.so"))
check(raises(ValueError, pa.remove_needed, a, "y.so") is not None, "contradicting changes accepted")
''')
demo("c17-nomove", "a file that is renamed after a change was recorded", "the change is applied to the old path too", PATCH + '''
pa.set_soname(a, "x.so")
pa.update_elf_path(a, b)
apply()
check(all(str(a) not in c for c in calls) and len(calls) == 1, calls)
''')
demo("c17-clearempty", "a search path set after it was cleared", "the pending search path is not seen", PATCH + '''
pa.clear_rpath(a)
pa.set_rpath(a, "$ORIGIN/x")
check(pa.get_rpath(a) == "$ORIGIN/x", pa.get_rpath(a))
''')
demo("c25-sbomorder", "packages found in another order", "the SBOM lists them in that order", '''
import auditwheel.sboms as S
P = lambda n: NS(purl="pkg:deb/" + n, package_name=n, package_version="1")
def sbom(order):
    with mock.patch.object(S, "whichprovides", lambda fs: {"/l/" + n: P(n) for n in order}):
        return S.create_sbom_for_wheel("x-1-py3-none-linux_x86_64.whl", [Path("/l/a"), Path("/l/b")])
check(json.dumps(sbom("ab")) == json.dumps(sbom("ba")), "order of the SBOM depends on the order of the packages")
''')
demo("c27-elim", "libraries found in another order", "the JSON report lists them unsorted", '''
import auditwheel.main_show as M
from auditwheel.wheel_abi import ExternalReference
p = pols()
ext = {q.name: ExternalReference({"libb.so": None, "liba.so": None}, {}, q) for q in p}
out = io.StringIO()
with contextlib.redirect_stdout(out):
    M._output_json("x.whl", winfo(p, external_refs=ext, overall_policy=p.linux))
r = json.loads(out.getvalue())
check(all(e["libs_to_eliminate"] == ["liba.so", "libb.so"] for e in r["policy_upgrades"].values()) and r["policy_upgrades"], r["policy_upgrades"])
''')
demo("c21-pycunique", "a wheel with several platform tags", "WHEEL lists a tag twice", '''
from auditwheel.wheeltools import InWheelCtx, add_platforms
w = mkwheel("x-1-cp39-abi3-linux_x86_64.linux_i686.whl", {"a.py": b""})
seen = []
with InWheelCtx(w, None) as ctx:
    add_platforms(ctx, ["manylinux1_x86_64"], ["linux_x86_64"])
    seen = [l for l in next(ctx.path.glob("*.dist-info/WHEEL")).read_text().splitlines() if l.startswith("Tag:")]
check(len(seen) == len(set(seen)), seen)
''')
demo("c29-status", "a pure wheel without --allow-pure-python-wheel", "repair reports success", '''
w = mkwheel("x-1-py3-none-any.whl", {"a.py": b""})
r = aw("repair", w, "-w", SCRATCH / "out")
check(r.returncode == 1, (r.returncode, r.stderr[-300:]))
''')
demo("c25-set", "another hash seed", "the order of the external libraries changes", '''
code = """
import json
from pathlib import Path
from unittest import mock
from util import pols, exe, lib
import auditwheel.policy as P
names = ["lib%s.so" % c for c in "abcdefghij"]
p = pols()
with mock.patch.object(P, "filter_undefined_symbols", lambda *a: {}):
    r = p.lddtree_external_references(exe("/w/a.so", names, [lib(n, "/l/" + n) for n in names]), Path("/w"))
print(json.dumps([list(r[p.highest.name].libs)]))
"""
here = os.path.dirname(os.path.abspath(__file__))
outs = set()
for seed in "0123":
    e = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=here + ":" + os.environ.get("PYTHONPATH", ""))
    outs.add(subprocess.run([sys.executable, "-c", code], env=e, capture_output=True, text=True, check=True).stdout)
check(len(outs) == 1, outs)
''')
demo("c16-unique", "an entry listed twice with another between", "it appears twice", AR + '''
r = ar("$ORIGIN/sub:$ORIGIN:$ORIGIN/sub")
check(r == ["$ORIGIN/sub:$ORIGIN:$ORIGIN/../x.libs"], r)
''')
demo("c07-readlink", "a chain of symbolic links", "the library is found under the name of a link", '''
from auditwheel.lddtree import readlink
(SCRATCH / "t").write_bytes(b"")
(SCRATCH / "l1").symlink_to(SCRATCH / "t")
(SCRATCH / "l2").symlink_to(SCRATCH / "l1")
r = readlink(str(SCRATCH / "l2"), "/", prefixed=True)
check(r == str(SCRATCH / "t"), r)
''')
demo("c17-move", "a renamed file with dependencies to remove", "they are not removed", PATCH + '''
pa.remove_needed(a, "libx.so")
pa.update_elf_path(a, b)
apply()
check(any("libx.so" in c for c in calls), calls)
''')
demo("c33-validate", "policy data where a tag lacks a library of the one before but lists another", "it is accepted", '''
import auditwheel.policy as P
q = lambda n, pr, l: {"name": n, "priority": pr, "aliases": [], "lib_whitelist": l, "symbol_versions": {}, "blacklist": {}}
check(raises(ValueError, P._validate_pep600_compliance, [q("m1", 100, ["a", "b"]), q("m2", 90, ["a", "c"])]) is not None, "accepted")
''')
demo("c33-symacc", "policy data where a symbol version disappears in the third tag", "it is accepted", '''
import auditwheel.policy as P
q = lambda n, pr, v: {"name": n, "priority": pr, "aliases": [], "lib_whitelist": [], "symbol_versions": {"x86_64": v}, "blacklist": {}}
pol = [q("m1", 100, {"A": ["1"]}), q("m2", 90, {"A": ["1"], "B": ["1"]}), q("m3", 80, {"A": ["1"], "B": ["2"]})]
try:
    P._validate_pep600_compliance(pol)
except ValueError:
    pass
except Exception as e:
    check(False, f"rejected with {e!r}, not as an invalid policy file")
else:
    check(False, "accepted")
''')
