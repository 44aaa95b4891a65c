from d1 import demo

W64 = 'w = mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {})\np = pols()\n'
# ---- C10
demo("c10-blacklist", "a black-listed symbol and any --exclude option", "the black-list refusal is skipped", W64 + '''
rc, kw, _ = run_repair(winfo(p, blacklist_policy=p.linux), w, PLAT="manylinux_2_17_x86_64", EXCLUDE=["libq.so"])
check(rc == "exit 2" and not kw, (rc, kw))
''')
demo("c10-machine", "an instruction-set verdict of generic linux without --only-plat", "repair goes on", W64 + '''
rc, kw, _ = run_repair(winfo(p, machine_policy=p.linux, overall_policy=p.linux), w, PLAT="manylinux_2_17_x86_64")
check(rc == "exit 2" and not kw, (rc, kw))
''')
demo("c10-after", "a wheel with UCS2 but without PyFPE references", "the unicode refusal is skipped", W64 + '''
rc, kw, _ = run_repair(winfo(p, ucs_policy=p.linux, overall_policy=p.linux), w, PLAT="manylinux_2_17_x86_64")
check(rc == "exit 2" and not kw, (rc, kw))
''')
# ---- C11
demo("c11-order", "an overall tag with aliases better than the requested tag", "aliases of the overall tag come after the requested tag", W64 + '''
o = p.get_policy_by_name("manylinux_2_17_x86_64")
rc, kw, _ = run_repair(winfo(p, overall_policy=o), w, PLAT="manylinux_2_28_x86_64")
check(kw["abis"][:2] == ["manylinux_2_17_x86_64", "manylinux2014_x86_64"], kw["abis"])
''')
demo("c11-sym", "a symbol verdict better than the overall verdict", "the wheel gets the tag of the symbol verdict", W64 + '''
o = p.get_policy_by_name("manylinux_2_17_x86_64")
rc, kw, _ = run_repair(winfo(p, overall_policy=o), w, PLAT="manylinux_2_28_x86_64")
check(set(kw["abis"]) == {"manylinux_2_17_x86_64", "manylinux2014_x86_64", "manylinux_2_28_x86_64"}, kw["abis"])
''')
demo("c11-only", "--only-plat with the automatic tag, or a tag given by its alias", "additional tags are given", W64 + '''
rc, kw, _ = run_repair(winfo(p), w, PLAT="manylinux_2_28", ONLY_PLAT=True)
check(kw["abis"] == ["manylinux_2_28_x86_64"], kw["abis"])
''')
demo("c11-last", "several tags with different external libraries", "the libraries external for the last tag are grafted", '''
import auditwheel.repair as R
from auditwheel.wheel_abi import ExternalReference
p = pols()
so = cc("libq.so.1", "int q(void){return 1;}", "-nostdlib")
w = mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {"m.so": so.read_bytes()})
a, b = p.get_policy_by_name("manylinux_2_17_x86_64"), p.get_policy_by_name("manylinux_2_28_x86_64")
full = {Path("m.so"): {a.name: ExternalReference({"libq.so.1": so}, {}, a), b.name: ExternalReference({}, {}, b)}}
(SCRATCH / "out").mkdir()
pa = FakePatcher()
with mock.patch.object(R, "elf_read_dt_needed", lambda path: []):
    out = R.repair_wheel(NS(full_external_refs=full), w, [a.name, b.name], ".libs", SCRATCH / "out", update_tags=True, patcher=pa, strip=False, zip_compression_level=1)
check(any("x.libs/libq" in n for n in zipfile.ZipFile(out).namelist()), "library not grafted")
''')
# ---- C12
demo("c12-strip-call", "--strip without the strip program", "the failure is ignored", '''
import auditwheel.repair as R
def boom(*a, **k):
    raise FileNotFoundError("strip")
with mock.patch.object(R, "check_call", boom):
    check(raises(OSError, R.strip_symbols, [Path("a.so")]) is not None, "no error")
''')
PATCH = '''
import auditwheel.patcher as P
calls = []
def call(argv, *a, **k):
    calls.append([str(x) for x in argv])
with mock.patch.object(P, "_verify_patchelf", lambda v: Path("/fake/patchelf")):
    pa = P.ElfPatcher.get_patcher("patchelf")
def apply(f=call):
    with mock.patch.object(P, "check_call", f):
        pa.apply_updates()
a = SCRATCH / "a.so"
b = SCRATCH / "b.so"
a.write_bytes(b"a")
b.write_bytes(b"b")
'''
demo("c12-swallow", "a failing patching tool on a file whose soname is changed", "the failure is ignored", PATCH + '''
from subprocess import CalledProcessError
def boom(*x, **k):
    raise CalledProcessError(1, "patchelf")
pa.set_soname(a, "x.so")
check(raises(CalledProcessError, apply, boom) is not None, "failure of patchelf ignored")
''')
# ---- C13, C14, C15
G = '''
so = cc("sys/libq.so.1", "int q(void){return 1;}", "-nostdlib")
so2 = cc("sys/libr.so.2.1", "int r(void){return 2;}", "-nostdlib")
w = mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {"pkg/m.so": b"ELF1", "pkg/n.so": b"ELF2"})
def h(f):
    return hashlib.sha256(Path(f).read_bytes()).hexdigest()[:8]
Q, R_ = f"libq-{h(so)}.so.1", f"libr-{h(so2)}.so.2.1"
'''
demo("c13-continue", "two external libraries, one of them not located", "the missing library is skipped silently", G + '''
e = raises(ValueError, graft, w, {"pkg/m.so": {"libq.so.1": so, "libmissing.so": None}})
check(e is not None, "no error for a missing library")
''')
demo("c14-split", "a library with several dots in its name", "the digits are put at another place than after the base name", G + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so}})
check(("replace_needed", Path("pkg/m.so"), ("libq.so.1", Q)) in pa.calls, pa.calls)
''')
demo("c14-name", "a library found under a link name", "the grafted name comes from the link's target", G + '''
ln = SCRATCH / "sys/liblink.so.1"
ln.symlink_to("libq.so.1")
out, pa = graft(w, {"pkg/m.so": {"liblink.so.1": ln}})
check(f"x.libs/liblink-{h(so)}.so.1" in zipfile.ZipFile(out).namelist(), zipfile.ZipFile(out).namelist())
''')
demo("c14-writable", "a read-only library grafted by the superuser", "the copy is not writable by its owner", G + '''
so.chmod(0o555)
from auditwheel.repair import copylib
(SCRATCH / "d").mkdir()
n, path = copylib(so, SCRATCH / "d", FakePatcher())
check(path.stat().st_mode & 0o200, oct(path.stat().st_mode))
''')
demo("c14-writable2", "a read-only library with an unusual mode", "the copy loses its mode", G + '''
so.chmod(0o555)
from auditwheel.repair import copylib
(SCRATCH / "d").mkdir()
n, path = copylib(so, SCRATCH / "d", FakePatcher())
check(path.stat().st_mode & 0o777 == 0o755, oct(path.stat().st_mode))
''')
demo("c14-endswith", "a library whose name already ends with eight hexadecimal digits of another content", "its name is kept although its content differs", G + '''
x = SCRATCH / "sys/libz-01234567.so.1"
x.write_bytes(so.read_bytes())
from auditwheel.repair import copylib
(SCRATCH / "d").mkdir()
n, path = copylib(x, SCRATCH / "d", FakePatcher())
check(n == f"libz-01234567-{h(x)}.so.1", n)
''')
demo("c14-replace-last", "a file needing two grafted libraries", "only one needed entry is rewritten", G + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so, "libr.so.2": so2}})
got = {x for c in pa.calls if c[0] == "replace_needed" and c[1] == Path("pkg/m.so") for x in c[2:]}
check(got == {("libq.so.1", Q), ("libr.so.2", R_)}, got)
''')
demo("c14-soname-name", "a library whose soname differs from its file name", "the needed entry of the file name is rewritten instead", G + '''
out, pa = graft(w, {"pkg/m.so": {"libr.so.2": so2}})
check(("replace_needed", Path("pkg/m.so"), ("libr.so.2", R_)) in pa.calls, pa.calls)
''')
demo("c14-soname-exists", "a wheel that already has a file with the library's plain name in its library directory", "the wheel's file is used instead of the library", G + '''
w = mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {"pkg/m.so": b"ELF1", "x.libs/libq.so.1": b"other"})
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so}})
check("x.libs/" + Q in zipfile.ZipFile(out).namelist(), zipfile.ZipFile(out).namelist())
''')
demo("c15-first", "a grafted library needing two other grafted ones", "only the first entry is rewritten", G + '''
so3 = cc("sys/libs.so.3", "int s(void){return 3;}", "-nostdlib")
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so, "libr.so.2": so2, "libs.so.3": so3}}, needed={"libs-": ["libq.so.1", "libr.so.2"]})
got = {x for c in pa.calls if c[0] == "replace_needed" and c[1].name.startswith("libs-") for x in c[2:]}
check(got == {("libq.so.1", Q), ("libr.so.2", R_)}, got)
''')
demo("c15-prefix", "a needed entry that merely starts with the name of a grafted library", "it is rewritten to a different library", G + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so": so, "libr.so.2": so2}}, needed={"libr-": ["libq.so.7"]})
got = [c for c in pa.calls if c[0] == "replace_needed" and c[1].name.startswith("libr-")]
check(got == [], got)
''')
demo("c15-rpath", "a grafted library with a search path of its own that needs another one", "its old search path is kept", G + '''
pa = FakePatcher({R_: "/usr/lib/old"})
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so, "libr.so.2": so2}}, patcher=pa, needed={"libr-": ["libq.so.1"]})
got = [c[2] for c in pa.calls if c[0] == "set_rpath" and c[1].name.startswith("libr-")]
check(got == ["$ORIGIN"], got)
''')
demo("c15-clear", "a grafted library without needed entries", "its search path is kept", G + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so}})
got = [c for c in pa.calls if c[0] == "clear_rpath"]
check(len(got) == 1, pa.calls)
''')
demo("c15-key", "a library whose soname differs from its file name, needed by another grafted one", "the entry is not rewritten", G + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so, "libr.so.2": so2}}, needed={"libq-": ["libr.so.2"]})
got = {x for c in pa.calls if c[0] == "replace_needed" and c[1].name.startswith("libq-") for x in c[2:]}
check(got == {("libr.so.2", R_)}, got)
''')
# ---- C16
AR = '''
from auditwheel.repair import append_rpath_within_wheel
(SCRATCH / "w/pkg/sub").mkdir(parents=True)
(SCRATCH / "w/pkg/m.so").write_bytes(b"")
os.chdir(SCRATCH / "w")
def ar(old, new="$ORIGIN/../x.libs"):
    pa = FakePatcher({"m.so": old})
    append_rpath_within_wheel(Path("pkg/m.so"), new, SCRATCH / "w", pa)
    return [c[2] for c in pa.calls if c[0] == "set_rpath"]
'''
demo("c16-tokens", "an entry with ${ORIGIN}", "entries inside the wheel written that way are dropped", AR + '''
check(ar("${ORIGIN}/sub") == ["${ORIGIN}/sub:$ORIGIN/../x.libs"], ar("${ORIGIN}/sub"))
''')
demo("c16-prefix", "an entry leaving the wheel through ..", "entries outside the wheel are kept", AR + '''
check(ar("$ORIGIN/../../other") == ["$ORIGIN/../x.libs"], ar("$ORIGIN/../../other"))
''')
demo("c16-libdir", "a file in a linked directory", "$ORIGIN is expanded to another directory", AR + '''
(SCRATCH / "w/lnk").symlink_to(SCRATCH / "w/pkg/sub")
(SCRATCH / "w/pkg/sub/m.so").write_bytes(b"")
seen = []
import auditwheel.repair as R
real = R._is_valid_rpath
with mock.patch.object(R, "_is_valid_rpath", lambda r, d, b: seen.append(d) or real(r, d, b)):
    append_rpath_within_wheel(Path("lnk/m.so"), "$ORIGIN", SCRATCH / "w", FakePatcher({"m.so": "$ORIGIN/a"}))
check(seen == [SCRATCH / "w/lnk"], seen)
''')
demo("c16-direct", "a file whose search path has been changed before", "the pending change is lost", AR + '''
class P(FakePatcher):
    def get_rpath(self, f):
        return "$ORIGIN/sub"
    def get_rpath_direct(self, f):
        return ""
pa = P()
append_rpath_within_wheel(Path("pkg/m.so"), "$ORIGIN", SCRATCH / "w", pa)
check(pa.calls[-1][2] == "$ORIGIN/sub:$ORIGIN", pa.calls)
''')
demo("c16-legacy", "a search path with a blank", "everything after the blank is lost", '''
import auditwheel.patcher as P
with mock.patch.object(P, "_verify_patchelf", lambda v: Path("/fake/patchelf")):
    pa = P.ElfPatcher.get_patcher("patchelf")
with mock.patch.object(P, "check_output", lambda *a, **k: b"$ORIGIN/my lib:$ORIGIN/b (legacy)\\n"):
    r = pa.get_rpath_direct(Path("x"))
check(r == "$ORIGIN/my lib:$ORIGIN/b", r)
''')
demo("c16-fnparent", "an executable in the scripts directory", "the search path is relative to the executable's old place", G + '''
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"x-1.data/scripts/run": (b"ELF", 0o755)})
out, pa = graft(w, {"x-1.data/scripts/run": {"libq.so.1": so}})
got = [c[2] for c in pa.calls if c[0] == "set_rpath" and c[1].name == "run"]
check(got == ["$ORIGIN/../x.libs"], got)
''')
demo("c16-cond", "a file whose only external library is libpython", "its search path is not updated", G + '''
out, pa = graft(w, {"pkg/m.so": {"libpython3.10.so.1.0": None}, "pkg/n.so": {"libq.so.1": so}})
got = [c for c in pa.calls if c[0] == "set_rpath" and c[1] == Path("pkg/m.so").absolute() or c[0] == "set_rpath" and c[1].name == "m.so"]
check(len(got) == 1, pa.calls)
''')
# ---- C17
demo("c17-notpop", "a patching tool that fails, and a second attempt", "the changes that failed are applied again later", PATCH + '''
from subprocess import CalledProcessError
def boom(*x, **k):
    raise CalledProcessError(1, "patchelf")
pa.set_soname(a, "x.so")
raises(CalledProcessError, apply, boom)
apply()
check(calls == [], calls)
''')
demo("c17-key", "a file named by two different paths", "its changes are applied in two invocations", PATCH + '''
(SCRATCH / "ln").symlink_to(SCRATCH)
pa.set_soname(a, "x.so")
pa.set_rpath(SCRATCH / "ln/a.so", "$ORIGIN")
apply()
check(len(calls) == 1, calls)
''')
demo("c17-elif", "a file with both removed and replaced needed entries", "replacements are dropped", PATCH + '''
pa.remove_needed(a, "p.so")
pa.replace_needed(a, ("q.so", "r.so"))
apply()
check("--replace-needed" in calls[0] and "--remove-needed" in calls[0], calls)
''')
demo("c17-clear", "a file whose search path is cleared and then set", "the search path is removed", PATCH + '''
pa.clear_rpath(a)
pa.set_rpath(a, "$ORIGIN")
apply()
check("--remove-rpath" not in calls[0] and "--set-rpath" in calls[0], calls)
''')
demo("c17-setclear", "a file whose search path is set and then cleared", "the path that was set is lost", PATCH + '''
pa.set_rpath(a, "$ORIGIN")
pa.clear_rpath(a)
apply()
check("--set-rpath" in calls[0], calls)
''')
demo("c17-rpath-empty", "a search path set to the empty string", "it is not applied", PATCH + '''
pa.set_rpath(a, "")
apply()
check(calls and "--set-rpath" in calls[0], calls)
''')
# ---- C18
demo("c18-before", "a wheel that contains a file RECORD.done", "RECORD is not rewritten", '''
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"a.py": b"1", "RECORD.done": b""})
check_record(rewrite(w, SCRATCH / "o.whl", lambda c: Path("a.py").write_text("changed")))
''')
demo("c18-recorddirs", "a file named RECORD outside the metadata directory", "its hash is left out", '''
check_record(rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"pkg/RECORD": b"data"}), SCRATCH / "o.whl"))
''')
demo("c18-size", "a file ending in white space", "its size is wrong", '''
check_record(rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"pkg/a.py": b"x = 1\\n"}), SCRATCH / "o.whl"))
''')
demo("c18-posix", "a symbolic link in the wheel", "the row names the link's target", '''
def inside(ctx):
    os.symlink("a.py", "pkg/b.py")
check_record(rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"pkg/a.py": b"x = 1\\n"}), SCRATCH / "o.whl", inside))
''')
demo("c18-b64", "a file whose digest contains + or / in base 64", "the hash is not URL-safe", '''
check_record(rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {f"pkg/a{i}.py": b"%d" % i for i in range(40)}), SCRATCH / "o.whl"))
''')
demo("c18-jws", "a signed wheel", "the invalid signature is kept", '''
o = rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"x-1.dist-info/RECORD.jws": b"{}"}), SCRATCH / "o.whl")
check("x-1.dist-info/RECORD.jws" not in zipfile.ZipFile(o).namelist(), "signature kept")
''')
demo("c18-csv", "a file name with a comma", "the row is malformed", '''
check_record(rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"pkg/a.py": b""}), SCRATCH / "o.whl", lambda c: Path("pkg/a,b.py").write_text("")))
''')
demo("c18-hidden", "a file whose name starts with a dot", "it has no row", '''
check_record(rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"pkg/.hidden": b"1"}), SCRATCH / "o.whl"))
''')
demo("c18-pyc", "a compiled Python file in the wheel", "it is left out", '''
o = rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"pkg/a.pyc": b"1"}), SCRATCH / "o.whl")
check("pkg/a.pyc" in zipfile.ZipFile(o).namelist() and "pkg/a.pyc" in record(o)[0], "file lost")
''')
# ---- C19
demo("c19-symlink", "a symbolic link to a directory in the unpacked wheel", "files below the link appear twice", '''
from auditwheel.tools import dir2zip
(SCRATCH / "w/a").mkdir(parents=True)
(SCRATCH / "w/a/f").write_text("1")
(SCRATCH / "w/b").symlink_to("a")
dir2zip(SCRATCH / "w", SCRATCH / "o.zip", 1, None)
n = zipfile.ZipFile(SCRATCH / "o.zip").namelist()
check("b/f" not in n, n)
''')
demo("c19-level", "compression level 0", "the archive is compressed", '''
from auditwheel.tools import dir2zip
(SCRATCH / "w").mkdir(parents=True)
(SCRATCH / "w/f").write_text("1" * 100000)
dir2zip(SCRATCH / "w", SCRATCH / "o.zip", 0, None)
check((SCRATCH / "o.zip").stat().st_size > 100000, "compressed although level 0 was asked for")
''')
demo("c19-tz", "SOURCE_DATE_EPOCH in another time zone", "the timestamp depends on the time zone", '''
import time
os.environ["TZ"] = "Asia/Tokyo" if Path("/usr/share/zoneinfo/Asia/Tokyo").exists() else "JST-9"
time.tzset()
os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
o = rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"a": b"1"}), SCRATCH / "o.whl")
t = {i.date_time for i in zipfile.ZipFile(o).infolist()}
check(t == {(2001, 9, 9, 1, 46, 40)}, t)
''')
# ---- C20
demo("c20-bits", "an archive member with the set-user-id bit", "the bit is kept", '''
from auditwheel.tools import zip2dir
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"a": (b"1", 0o4755)})
zip2dir(w, SCRATCH / "o")
check((SCRATCH / "o/a").stat().st_mode & 0o7777 == 0o755, oct((SCRATCH / "o/a").stat().st_mode))
''')
# ---- C21
TAGS = '''
from auditwheel.wheeltools import InWheelCtx, add_platforms
def tags(name, platforms, remove=(), tag_lines=None):
    w = mkwheel(name, {}, tag_lines)
    with InWheelCtx(w) as ctx:
        ctx.out_wheel = SCRATCH / name
        out = add_platforms(ctx, list(platforms), list(remove))
        info = next(ctx.path.glob("*.dist-info/WHEEL")).read_text()
        ctx.out_wheel = None
    return out.name, [l[5:] for l in info.splitlines() if l.startswith("Tag: ")], info
'''
demo("c21-pyc", "a wheel for several interpreters", "metadata tags of the other interpreters are lost", TAGS + '''
n, t, _ = tags("x-1-cp310.cp311-abi3-linux_x86_64.whl", ["manylinux_2_17_x86_64"], ["linux_x86_64"])
check(sorted(t) == ["cp310-abi3-manylinux_2_17_x86_64", "cp311-abi3-manylinux_2_17_x86_64"], t)
''')
demo("c21-sort", "new tags that do not sort after each other", "the tags in the file name are not sorted", TAGS + '''
n, t, _ = tags("x-1-cp310-cp310-linux_x86_64.whl", ["manylinux_2_17_x86_64", "manylinux2014_x86_64"], ["linux_x86_64"])
check(n == "x-1-cp310-cp310-manylinux2014_x86_64.manylinux_2_17_x86_64.whl", n)
''')
demo("c21-any-meta", "an 'any' wheel that gets a platform tag", "the metadata keeps the 'any' tag", TAGS + '''
n, t, i = tags("x-1-py3-none-any.whl", ["manylinux_2_17_x86_64"])
check(t == ["py3-none-manylinux_2_17_x86_64"], t)
''')
demo("c21-dup", "a wheel that already has one of the new tags", "the metadata lists a tag twice", TAGS + '''
n, t, i = tags("x-1-py3-none-linux_x86_64.manylinux_2_17_x86_64.whl", ["manylinux_2_17_x86_64"], ["linux_x86_64"])
check(t == ["py3-none-manylinux_2_17_x86_64"], t)
''')
demo("c21-cond", "as many tags removed as added", "the metadata keeps the old tags", TAGS + '''
n, t, i = tags("x-1-py3-none-linux_x86_64.whl", ["manylinux_2_17_x86_64"], ["linux_x86_64"])
check(t == ["py3-none-manylinux_2_17_x86_64"], t)
''')
demo("c21-replace", "a musllinux tag", "the replaced platform is computed wrongly and the old tag stays", '''
from auditwheel.policy import get_replace_platforms
check(get_replace_platforms("musllinux_1_2_x86_64") == ["linux_x86_64"], get_replace_platforms("musllinux_1_2_x86_64"))
''')
demo("c21-prefix", "a wheel with a build number", "part of the file name is lost", TAGS + '''
n, t, i = tags("x-1-2abc-py3-none-linux_x86_64.whl", ["manylinux_2_17_x86_64"], ["linux_x86_64"])
check(n == "x-1-2abc-py3-none-manylinux_2_17_x86_64.whl", n)
''')
demo("c21-abi0", "a wheel that gets the generic tag last", "the replaced platform tag stays", G + '''
out, pa = graft(w, {"pkg/m.so": {}}, abis=["manylinux_2_17_x86_64", "linux_x86_64"])
check(out.name == "x-1-cp310-cp310-linux_x86_64.manylinux_2_17_x86_64.whl" or "manylinux" in out.name, out.name)
import auditwheel.repair as R
seen = []
with mock.patch.object(R, "get_replace_platforms", lambda n: seen.append(n) or []):
    graft(w, {"pkg/m.so": {}}, abis=["manylinux_2_17_x86_64", "manylinux2014_x86_64"])
check(seen == ["manylinux_2_17_x86_64"], seen)
''')
# ---- C22
PKG = G + '''
from auditwheel._vendor.whichprovides import ProvidedBy
pkg = ProvidedBy("deb", "ubuntu", "libq1", "1.2-3")
def sbom(out):
    z = zipfile.ZipFile(out)
    n = [x for x in z.namelist() if x.endswith("auditwheel.cdx.json")]
    return json.loads(z.read(n[0])) if n else None
'''
demo("c22-name", "a wheel whose file name changes during repair", "the SBOM describes the wheel under its old file name", PKG + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so}}, whichp={str(so): pkg})
d = sbom(out)
check(out.name in d["metadata"]["component"]["purl"], d["metadata"])
''')
demo("c22-always", "a grafted library that belongs to no package", "an SBOM without components is added", PKG + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so}}, whichp={})
check(sbom(out) is None, sbom(out))
''')
demo("c22-libpython", "a located libpython that belongs to a package", "the SBOM lists libpython although it is not grafted", PKG + '''
py = cc("sys/libpython3.10.so.1.0", "int p(void){return 1;}", "-nostdlib")
out, pa = graft(w, {"pkg/m.so": {"libpython3.10.so.1.0": py}}, whichp={str(py): pkg})
check(sbom(out) is None, sbom(out))
''')
demo("c22-basename", "two libraries of one package with the same name in different directories", "two components share one reference", PKG + '''
from auditwheel import sboms as S
fs = ["/usr/lib/libq.so.1", "/usr/lib/opt/libq.so.1"]
with mock.patch.object(S, "whichprovides", lambda f: {x: pkg for x in f}):
    d = S.create_sbom_for_wheel("x-1-cp310-cp310-linux_x86_64.whl", [Path(f) for f in fs])
refs = [c["bom-ref"] for c in d["components"]]
check(len(set(refs)) == 3, refs)
''')
demo("c22-dest", "a grafted library that belongs to a package", "the package of the copy in the wheel is looked up, so no SBOM is added", PKG + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so}}, whichp={str(so): pkg})
check(sbom(out) is not None, "no SBOM")
''')
demo("c22-exist", "--no-update-tags and a grafted library of a known package", "no SBOM is added", PKG + '''
out, pa = graft(w, {"pkg/m.so": {"libq.so.1": so}}, whichp={str(so): pkg}, update_tags=False)
check(sbom(out) is not None, "no SBOM")
''')
# ---- C23
demo("c23-chmodsrc", "a read-only system library", "the mode of the system library is changed", G + '''
so.chmod(0o555)
graft(w, {"pkg/m.so": {"libq.so.1": so}})
check(so.stat().st_mode & 0o777 == 0o555, oct(so.stat().st_mode))
''')
demo("c23-absdest", "an absolute library directory option", "libraries are written outside the wheel", G + '''
d = SCRATCH / "elsewhere"
try:
    graft(w, {"pkg/m.so": {"libq.so.1": so}}, lib_sdir=str(d))
except Exception:
    pass
check(not d.exists(), "written outside of the wheel")
''')
demo("c23-unlink", "an output directory that is the input wheel's directory", "the input wheel is deleted", '''
import argparse
import auditwheel.repair as R, auditwheel.wheel_abi as W
from auditwheel import main_repair as M
w = mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {})
i = winfo(pols())
a = dict(WHEEL_FILE=[w], PLAT="auto", EXCLUDE=[], WHEEL_DIR=SCRATCH, UPDATE_TAGS=True, STRIP=False, ONLY_PLAT=False, LDPATHS=None,
         DISABLE_ISA_EXT_CHECK=False, ALLOW_PURE_PY_WHEEL=False, PATCHER="none", ZIP_COMPRESSION_LEVEL=-1, LIB_SDIR=".libs")
with mock.patch.object(R, "repair_wheel", lambda *x, **k: SCRATCH / "out.whl"), mock.patch.object(W, "analyze_wheel_abi", lambda *x, **k: i):
    M.execute(argparse.Namespace(**a), argparse.ArgumentParser())
check(w.exists(), "input wheel deleted")
''')
# ---- C24
SH = G + '''
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"x-1.data/scripts/run": (b"ELF", 0o750), "pkg/m.so": b"ELF"})
def mode(out, n):
    return next(i.external_attr >> 16 & 0o777 for i in zipfile.ZipFile(out).infolist() if i.filename == n)
'''
demo("c24-data", "an ELF file in a subdirectory of the scripts directory", "it is replaced by a shim", G + '''
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"x-1.data/scripts/sub/run": (b"ELF", 0o755)})
out, pa = graft(w, {"x-1.data/scripts/sub/run": {"libq.so.1": so}})
check(zipfile.ZipFile(out).read("x-1.data/scripts/sub/run") == b"ELF", "moved")
''')
demo("c24-mode", "a script with an unusual mode", "the shim has another mode than the executable", SH + '''
out, pa = graft(w, {"x-1.data/scripts/run": {"libq.so.1": so}})
check(mode(out, "x-1.data/scripts/run") == mode(out, "x.scripts/run") == 0o750, oct(mode(out, "x-1.data/scripts/run")))
''')
demo("c24-copy", "a script that is executable", "the moved executable loses its mode", SH + '''
out, pa = graft(w, {"x-1.data/scripts/run": {"libq.so.1": so}})
check(mode(out, "x.scripts/run") == 0o750, oct(mode(out, "x.scripts/run")))
''')
demo("c24-strip", "--strip and an ELF file in the scripts directory", "the moved executable is not stripped", SH + '''
import auditwheel.repair as R
calls = []
with mock.patch.object(R, "check_call", lambda a, **k: calls.append(str(a[-1]))):
    graft(w, {"x-1.data/scripts/run": {"libq.so.1": so}}, strip=True)
check("x.scripts/run" in calls, calls)
''')
demo("c24-update", "an ELF file in the scripts directory", "pending changes stay with the old path", SH + '''
out, pa = graft(w, {"x-1.data/scripts/run": {"libq.so.1": so}})
check(any(c[0] == "update_elf_path" for c in pa.calls), pa.calls)
''')
demo("c24-argv", "a shim called with arguments", "the executable gets other arguments", '''
from auditwheel.repair import _script_shim
seen = []
with mock.patch.object(os, "execv", lambda path, argv: seen.append((path, list(argv)))), mock.patch.object(sys, "argv", ["run", "a"]):
    exec(compile(_script_shim(Path("x.scripts/run")), "shim", "exec"), {"__name__": "__main__"})
check(seen[0][1] == ["run", "a"], seen)
''')
demo("c24-purelib", "an installation whose pure and platform directories differ", "the executable is looked for in the wrong directory", '''
import sysconfig
from auditwheel.repair import _script_shim
seen = []
with mock.patch.object(os, "execv", lambda path, argv: seen.append(path)), mock.patch.object(sysconfig, "get_path", lambda n: "/" + n):
    exec(compile(_script_shim(Path("x.scripts/run")), "shim", "exec"), {"__name__": "__main__"})
check(seen == ["/platlib/x.scripts/run"], seen)
''')
# ---- C25
demo("c25-set2", "a file system that lists directories in another order", "the archive depends on the directory order", '''
import auditwheel.tools as T
for d in "cab":
    (SCRATCH / "w" / d).mkdir(parents=True)
real = os.walk
def walk(top, *a, **k):
    for p, ds, fs in real(top, *a, **k):
        ds.sort(reverse=True)
        yield p, ds, fs
with mock.patch.object(os, "walk", walk):
    r = [p.name for p, _, _ in T.walk(SCRATCH / "w")]
check(r == ["w", "a", "b", "c"], r)
''')
demo("c25-unique", "several elements and varying hash seeds", "the order of the elements is lost", '''
r = {subprocess.run([sys.executable, "-c", "from auditwheel.tools import unique_by_index; print(unique_by_index(list('hgfedcbahgf')))"],
     env={**os.environ, "PYTHONHASHSEED": str(s)}, capture_output=True, text=True).stdout for s in range(8)}
check(r == {str(list("hgfedcba")) + "\\n"}, r)
''')
demo("c25-bl", "several black-listed symbols and varying hash seeds", "the order of the symbols varies", '''
so = cc("a.so", "extern int s1(void),s2(void),s3(void),s4(void),s5(void); int f(void){return s1()+s2()+s3()+s4()+s5();}", "-nostdlib")
code = f"from auditwheel.elfutils import filter_undefined_symbols as f\\nfrom pathlib import Path\\nprint(f(Path({str(so)!r}), dict(l=frozenset(['s1','s2','s3','s4','s5']))))"
r = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(s)}, capture_output=True, text=True).stdout for s in range(8)}
check(r == {"{'l': ['s1', 's2', 's3', 's4', 's5']}\\n"}, r)
''')
# ---- C26
demo("c26-ldpaths", "two files analysed one after the other in one process", "the cached loader configuration is modified by the first one", '''
import auditwheel.lddtree as L
(SCRATCH / "r").mkdir()
m = cc("m.so", "int f(void){return 1;}", "-nostdlib", f"-Wl,-rpath,{SCRATCH}/r")
L.ldd(m)
check(set(L.load_ld_paths(None)) == {"conf", "env", "interp"}, L.load_ld_paths(None))
''')
demo("c26-newcache", "the same path with another content later in the same process", "the needed entries of an earlier file are used", '''
from auditwheel.elfutils import elf_read_dt_needed
q = cc("libq.so", "int q(void){return 1;}", "-nostdlib", "-Wl,-soname,libq.so")
m = cc("m.so", "int q(void); int f(void){return q();}", "-nostdlib", q)
a = list(elf_read_dt_needed(m))
cc("m.so", "int f(void){return 1;}", "-nostdlib")
b = list(elf_read_dt_needed(m))
check((a, b) == (["libq.so"], []), (a, b))
''')
demo("c26-cwd", "the search path with an empty entry from two directories", "the directory of the first call is used", '''
from auditwheel.lddtree import parse_ld_paths
(SCRATCH / "a").mkdir()
os.chdir(SCRATCH / "a")
parse_ld_paths(":/usr")
os.chdir(SCRATCH)
check(parse_ld_paths(":/usr")[0] == str(SCRATCH), parse_ld_paths(":/usr"))
''')
demo("c26-cache-refs", "the same wheel analysed twice in one process", "the second analysis sees merged references of the first", '''
p = pols()
from auditwheel import wheel_abi as W
a, b = Path("a.so"), Path("b.so")
full = {fn: {q.name: W.ExternalReference({n: None} if q != p.linux else {}, {}, q) for q in p} for fn, n in ((a, "la.so"), (b, "lb.so"))}
data = W.WheelElfData(p, {a: exe(a), b: exe(b)}, full, {}, False, False)
with mock.patch.object(W, "get_wheel_elfdata", lambda *x, **k: data):
    W.analyze_wheel_abi(None, None, Path("x.whl"), frozenset(), disable_isa_ext_check=True, allow_graft=True)
check(set(full[a][p.highest.name].libs) == {"la.so"}, full[a][p.highest.name].libs)
''')
demo("c26-cache-data", "a wheel analysed twice in one process", "the cached analysis is modified", '''
p = pols()
syms = {"libc.so.6": {"GLIBC_2.2.5"}, "": {"X_1"}}
fn = Path("a.so")
analyze(p, {fn: exe(fn)}, {fn: {}}, syms=syms)
check("" in syms, syms)
''')
# ---- C27, C28, C29
demo("c27-indent", "JSON output with a key that cannot be written", "entries are dropped silently", '''
from auditwheel import json as J
o = {"x": {Path("a"): 1}}
check(raises(TypeError, J.dumps, o) is not None or "a" in J.dumps(o)[8:], "entry dropped")
''')
demo("c28-log", "the lddtree command", "a file is written in the current directory", '''
m = cc("in/m.so", "int f(void){return 1;}", "-nostdlib")
(SCRATCH / "cwd").mkdir()
from auditwheel import main_lddtree as M
import argparse
os.chdir(SCRATCH / "cwd")
M.execute(argparse.Namespace(file=m, LDPATHS=None, verbose=0), argparse.ArgumentParser())
check(list((SCRATCH / "cwd").iterdir()) == [], list((SCRATCH / "cwd").iterdir()))
''')
demo("c28-subproc", "show of a wheel on a musl system", "another program than the C library is run", '''
import auditwheel.libc as L
seen = []
class R:
    stderr = "musl libc\\nVersion 1.2.4\\n"
with mock.patch.object(L, "_find_musl_libc", lambda: Path("/lib/ld-musl-x.so.1")), mock.patch.object(L.subprocess, "run", lambda a, *x, **k: seen.append([str(y) for y in a]) or R):
    L._get_musl_version(Path("/lib/ld-musl-x.so.1"))
check(seen == [["/lib/ld-musl-x.so.1"]], seen)
''')
demo("c29-pure", "show of an impure wheel without ELF files whose name has an unknown architecture", "the wheel is reported as pure", '''
w = mkwheel("x-1-py3-none-sparc99.whl", {"a.py": b""})
r = aw("show", "--allow-pure-python-wheel", w)
check(r.returncode == 1, r)
''')
demo("c29-main", "an error during repair", "the exit status is success", '''
import auditwheel.main as M
def boom(a, p):
    raise ValueError("cannot repair")
with mock.patch.object(sys, "argv", ["auditwheel", "show", "x.whl"]), mock.patch.object(M.main_show, "execute", boom):
    try:
        rc = M.main()
    except ValueError:
        rc = 1
check(rc not in (0, None), rc)
''')
# ---- C30
demo("c30-strip", "--strip with another patcher", "the option is ignored", '''
p = pols()
w = mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {})
import auditwheel.patcher as P
rc, kw, _ = run_repair(winfo(p), w, STRIP=True, PATCHER="none")
check(kw["strip"] is True, kw)
''')
demo("c30-ldpaths", "repair with an empty --ldpaths", "the build machine's configuration is used", '''
rc, kw, seen = run_repair(winfo(pols()), mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {}), LDPATHS="")
check(seen["args_ldpaths"] == "", seen)
''')
demo("c30-zip", "compression level 0", "the option is ignored", G + '''
import auditwheel.wheeltools as T
seen = []
with mock.patch.object(T, "dir2zip", lambda d, f, level, t: seen.append(level)):
    graft(w, {"pkg/m.so": {}}, zip_compression_level=0)
check(seen == [0], seen)
''')
demo("c30-isa", "show --json --disable-isa-ext-check", "the option is ignored", '''
import argparse
import auditwheel.wheel_abi as W
from auditwheel import main_show as M
seen = {}
i = winfo(pols())
with mock.patch.object(W, "analyze_wheel_abi", lambda *a, **k: seen.update(k) or i), contextlib.redirect_stdout(io.StringIO()):
    M.execute(argparse.Namespace(WHEEL_FILE=mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {}), JSON=True, DISABLE_ISA_EXT_CHECK=True, ALLOW_PURE_PY_WHEEL=False, LDPATHS=None, verbose=0), argparse.ArgumentParser())
check(seen["disable_isa_ext_check"] is True, seen)
''')
# ---- C31
demo("c31-shell", "a conda package whose name contains a quote", "the name is interpreted by a shell", '''
import auditwheel.tools as T
seen = []
with mock.patch.object(T.subprocess, "check_output", lambda a, **k: seen.append((a, k.get("shell")))):
    T.tarbz2todir(SCRATCH / "it's.tar.bz2", SCRATCH)
check(isinstance(seen[0][0], list) and not seen[0][1], seen)
''')
demo("c31-run", "a damaged conda package", "the failure of tar is ignored", '''
import auditwheel.tools as T
(SCRATCH / "x.tar.bz2").write_bytes(b"junk")
check(raises(subprocess.CalledProcessError, T.tarbz2todir, SCRATCH / "x.tar.bz2", SCRATCH) is not None, "no error")
''')
demo("c31-strip", "--strip", "strip is called with other options than documented", '''
import auditwheel.repair as R
seen = []
with mock.patch.object(R, "check_call", lambda a, **k: seen.append([str(x) for x in a])):
    R.strip_symbols([Path("a.so")])
check(seen == [["strip", "-s", "a.so"]], seen)
''')
# ---- C32
demo("c32-tmp", "an exception while a package is unpacked", "the temporary directory is left behind", '''
from auditwheel.tmpdirs import InTemporaryDirectory
c = InTemporaryDirectory()
t = None
try:
    with c as t:
        raise KeyError
except KeyError:
    pass
left = t.exists()
shutil.rmtree(str(t), ignore_errors=True)
check(not left, "temporary directory left behind")
''')
demo("c32-init", "a change of directory between creation and entry of the context", "another directory is restored", '''
from auditwheel.tmpdirs import InTemporaryDirectory
c = InTemporaryDirectory()
(SCRATCH / "a").mkdir()
os.chdir(SCRATCH / "a")
with c:
    pass
check(Path.cwd() == SCRATCH / "a", Path.cwd())
''')
demo("c32-umask", "analysis of a wheel with a restrictive umask", "the process's umask is changed", '''
os.umask(0o077)
from auditwheel.wheeltools import InWheel
with InWheel(mkwheel("x-1-py3-none-any.whl", {})):
    pass
check(os.umask(0o077) == 0o077, "umask changed")
''')
demo("c32-epoch", "SOURCE_DATE_EPOCH and two wheels repaired in one process", "the environment is changed", '''
os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
rewrite(mkwheel("x-1-py3-none-linux_x86_64.whl", {"a": b"1"}), SCRATCH / "o.whl")
check(os.environ.get("SOURCE_DATE_EPOCH") == "1000000000", "environment changed")
''')
# ---- C33, C34, C35
demo("c33-aliases", "a tag with two aliases", "the second alias is dropped", '''
import auditwheel.policy as P
data = json.loads(P._POLICY_JSON_MAP[P.Libc.GLIBC].read_text())
for q in data:
    if q["aliases"]:
        q["aliases"] = [q["aliases"][0], "other_alias"]
        name = q["name"]
f = SCRATCH / "p.json"
f.write_text(json.dumps(data))
with mock.patch.dict(P._POLICY_JSON_MAP, {P.Libc.GLIBC: f}):
    p = pols()
check(len(p.get_policy_by_name(name + "_x86_64").aliases) == 2, p.get_policy_by_name(name + "_x86_64").aliases)
''')
demo("c33-musl", "a musl wheel for riscv64", "the C library is not white-listed under its name", '''
p = pols("MUSL", "riscv64")
check("libc.musl-riscv64.so.1" in p.highest.whitelist, p.highest.whitelist)
''')
demo("c34-libc", "a platform tag that contains but does not start with a libc prefix", "the libc is taken from the middle of the tag", '''
from auditwheel.wheeltools import get_wheel_libc
from auditwheel.error import WheelToolsError
check(raises(WheelToolsError, get_wheel_libc, "x-1-py3-none-my_musllinux_1_1_x86_64.whl") is not None, "libc guessed from the middle of a tag")
''')
demo("c34-libcmismatch", "a file of another C library with dependencies", "it is judged by the tags of the wheel's C library", '''
import auditwheel.wheel_abi as W
from auditwheel.libc import Libc
from auditwheel.architecture import Architecture
from auditwheel.error import NonPlatformWheelError
m = cc("m.so", "int PyInit_m(void){return 1;}", "-nostdlib")
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"a.so": m.read_bytes()})
with mock.patch.object(W, "ldd", lambda fn, **k: exe(fn, ["libc.musl-x86_64.so.1"], [lib("libc.musl-x86_64.so.1")], libc="MUSL")):
    e = raises(NonPlatformWheelError, W.get_wheel_elfdata, Libc.GLIBC, Architecture.x86_64, w, frozenset(), None)
check(e is not None, "musl file judged by glibc tags")
''')
demo("c34-both", "an executable with a musl interpreter that needs glibc", "the mix is accepted", '''
import auditwheel.lddtree as L
from auditwheel.error import InvalidLibcError
q = cc("libc.so.6", "int q(void){return 1;}", "-nostdlib", "-Wl,-soname,libc.so.6")
src = 'const char interp[] __attribute__((section(".interp"))) = "/lib/ld-musl-x86_64.so.1"; int q(void); int f(void){return q();}'
m = cc("m.so", src, "-nostdlib", q)
check(raises(InvalidLibcError, L.ldd, m) is not None, "file needing both C libraries accepted")
''')
demo("c35-force", "an Android wheel with an API level of three digits or below 20", "RPATH is written for Android", '''
import auditwheel.patcher as P
with mock.patch.object(P, "_verify_patchelf", lambda v: Path("/fake/patchelf")):
    pa = P.ElfPatcher.get_patcher("patchelf", "android_30_arm64_v8a")
a = SCRATCH / "a.so"
a.write_bytes(b"")
pa.set_rpath(a, "$ORIGIN")
calls = []
with mock.patch.object(P, "check_call", lambda c, **k: calls.append(c)):
    pa.apply_updates()
check("--force-rpath" not in calls[0], calls)
''')
