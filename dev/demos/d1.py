"""Demonstrations, keyed by the identifier in bugs.py: (needs, what it breaks, code)."""
D = {}


def demo(id, needs, breaks, code):
    D[id] = (needs, breaks, code)


# ---- C01
demo("c01-graft-skip", "repair with the automatic tag of a wheel whose best symbol tag needs more grafts than a lower tag", "the tag chosen for repair is better than the graft verdict", '''
p = pols()
fn = Path("a.so")
hi, lo = p.highest, p.lowest
t = exe(fn)
refs = {fn: {q.name: ({"libx.so.1": None} if q > lo else {}, {}) for q in p}}
w = analyze(p, {fn: t}, refs, requested_policy_base_name="auto")
check(not w.overall_policy > w.graft_policy, f"overall {w.overall_policy.name} exceeds the graft verdict {w.graft_policy.name}")
''')
demo("c01-graft-lt", "a tag that grafts exactly one library more than the best one", "graft verdict ignores one additional library", '''
p = pols()
fn = Path("a.so")
t = exe(fn)
refs = {fn: {q.name: ({"libx.so.1": None} if q > p.lowest else {}, {}) for q in p}}
w = analyze(p, {fn: t}, refs, requested_policy_base_name="auto")
check(w.graft_policy == p.lowest and w.overall_policy == p.lowest, f"graft verdict {w.graft_policy.name}")
''')
demo("c01-ref-cond", "show on a wheel whose external libraries were not located", "external-library verdict dropped when not grafting", '''
p = pols()
fn = Path("a.so")
t = exe(fn)
refs = {fn: {q.name: ({} if q == p.linux else {"libx.so.1": None}, {}) for q in p}}
w = analyze(p, {fn: t}, refs, allow_graft=False)
check(w.overall_policy == p.linux, f"overall {w.overall_policy.name} although every tag lacks a library")
''')
# ---- C02
demo("c02-missing-soname", "two external libraries, the first of them not analysed", "symbol versions of external libraries after an unanalysed one are ignored", '''
from auditwheel.wheel_abi import get_symbol_policies, ExternalReference
from collections import defaultdict
p = pols()
q = p.highest
refs = {q.name: ExternalReference({"liba.so": None, "libb.so": Path("/b")}, {}, q)}
(pol, syms), = get_symbol_policies(p, defaultdict(set), {"libb.so": {"libc.so.6": {"GLIBC_2.39"}}}, refs)
check(syms.get("libc.so.6") == {"GLIBC_2.39"} and pol < q, f"{pol.name} {dict(syms)}")
''')
demo("c02-partition", "a symbol version with two underscores (GLIBC_ABI_DT_RELR)", "versions with a second underscore escape the tags' lists", '''
p = pols()
r = p.versioned_symbols_policy({"libc.so.6": {"GLIBC_ABI_NEW_FEATURE"}})
check(r == p.linux, f"{r.name} accepts GLIBC_ABI_NEW_FEATURE")
''')
demo("c02-private", "a wheel using a private version of the C library", "GLIBC_PRIVATE is accepted by every tag", '''
p = pols()
r = p.versioned_symbols_policy({"libc.so.6": {"GLIBC_2.2.5", "GLIBC_PRIVATE"}})
check(r == p.linux, f"{r.name} accepts GLIBC_PRIVATE")
''')
demo("c02-ldlinux-prefix", "a version need on a library whose name starts with ld but is not the loader", "its versions are not counted", '''
from auditwheel.elfutils import elf_find_versioned_symbols
sec = NS(iter_versions=lambda: iter([(NS(name="ldns.so.3"), [NS(name="LDNS_9.9")]), (NS(name="ld-linux-x86-64.so.2"), [NS(name="GLIBC_2.3")])]))
r = list(elf_find_versioned_symbols(NS(get_section_by_name=lambda n: sec)))
check(r == [("ldns.so.3", "LDNS_9.9")], r)
''')
# ---- C03
demo("c03-pyver", "a PyPy cffi module", "PyPy cffi modules are taken for Python 3 ones, so UCS2 is not looked for", '''
from auditwheel.elfutils import elf_is_python_extension
class Sym(dict):
    name = "_cffi_pypyinit_mod"
s = Sym(st_shndx=5, st_info={"type": "STT_FUNC", "bind": "STB_GLOBAL"})
elf = NS(get_section_by_name=lambda n: NS(iter_symbols=lambda: iter([s])))
r = elf_is_python_extension(Path("mod.pypy_41.so"), elf)
check(r == (True, 2), r)
''')
demo("c03-jbuf-shortcircuit", "an extension module without needed entries referencing PyFPE_jbuf", "PyFPE use of modules without dependencies is ignored", '''
so = cc("mod.so", "extern int PyFPE_jbuf(void); int PyInit_mod(void){return PyFPE_jbuf();}", "-nostdlib")
w = mkwheel("x-1-cp27-cp27m-manylinux_2_17_x86_64.whl", {"mod.so": so.read_bytes()})
r = aw("show", "--json", w)
d = json.loads(r.stdout)
check(d["pyfpe"] is True and d["overall_tag"].startswith("linux_"), d)
''')
# ---- C04
demo("c04-weak", "a strong undefined symbol without a type, as compilers emit them", "black-listed symbols of that kind are not seen", '''
from auditwheel.elfutils import get_undefined_symbols
so = cc("a.so", "extern int bad(void); int f(void){return bad();}", "-nostdlib")
check("bad" in get_undefined_symbols(so), get_undefined_symbols(so))
''')
demo("c04-star", "a wildcard black-list entry", "wildcard entries match nothing", '''
from auditwheel.elfutils import filter_undefined_symbols
so = cc("a.so", "int f(void){return 1;}", "-nostdlib")
r = filter_undefined_symbols(so, {"libz.so.1": frozenset("*")})
check(r == {"libz.so.1": ["*"]}, r)
''')
demo("c04-update-lost", "two files using different black-listed symbols of the same library", "only one file's symbols are reported", '''
from auditwheel.wheel_abi import update, ExternalReference
q = pols().highest
d = {q.name: ExternalReference({}, {}, q)}
update(d, {q.name: ExternalReference({}, {"l": ["b"]}, q)})
update(d, {q.name: ExternalReference({}, {"l": ["a"]}, q)})
check(d[q.name].blacklist == {"l": ["a", "b"]}, d[q.name].blacklist)
''')
demo("c04-first-only", "a second file with a black-listed symbol of another library", "black-listed libraries after the first one are dropped", '''
from auditwheel.wheel_abi import update, ExternalReference
q = pols().highest
d = {q.name: ExternalReference({}, {}, q)}
update(d, {q.name: ExternalReference({}, {"l": ["b"]}, q)})
update(d, {q.name: ExternalReference({}, {"m": ["a"]}, q)})
check(d[q.name].blacklist == {"l": ["b"], "m": ["a"]}, d[q.name].blacklist)
''')
demo("c04-needed", "an excluded, black-listed library that is needed but not resolved", "black-listed symbols are looked up by resolved libraries instead of needed ones", '''
import auditwheel.policy as P
p = pols()
q = next(x for x in p if "libz.so.1" in x.blacklist)
asked = []
with mock.patch.object(P, "filter_undefined_symbols", lambda path, syms: asked.append(set(syms)) or {}):
    p.lddtree_external_references(exe("/x/a.so", ["libm.so.6"], [lib("libm.so.6", "/x/libm.so.6", ["libz.so.1"]), lib("libz.so.1", "/x/libz.so.1")]), SCRATCH)
check(not any("libz.so.1" in a for a in asked), "black-listed symbols of a library that is not needed are looked up")
''')
# ---- C05
demo("c05-superset", "a wheel for x86_64 with a file that needs x86-64-v3", "x86-64-v3 is accepted for an x86_64 tag", '''
from auditwheel.wheel_abi import _get_machine_policy
p = pols()
r = _get_machine_policy(p, {Path("a.so"): exe("a.so", platform=plat(ext="x86_64_v3"))}, frozenset())
check(r == p.linux, r.name)
''')
demo("c05-soname-any", "an external library without dependencies that needs x86-64-v3", "the instruction set of such libraries is not checked", '''
from auditwheel.wheel_abi import _get_machine_policy
p = pols()
r = _get_machine_policy(p, {Path("a.so"): exe("a.so", ["libx.so"], [lib("libx.so", "/l/libx.so", platform=plat(ext="x86_64_v3"))])}, frozenset(["libx.so"]))
check(r == p.linux, r.name)
''')
demo("c05-extended", "a file announcing an unknown x86-64 level", "unknown levels are accepted", '''
e = raises(ValueError, lambda: plat(err="unknown x86_64 ISA").extended_architecture)
check(e is not None, "no error for an unknown instruction set")
''')
NOTE = '''
import auditwheel.lddtree as L
from auditwheel.architecture import Architecture as A
class Note(L.NoteSection):
    def __init__(self, datas):
        self.datas = datas
    def iter_notes(self):
        for d in self.datas:
            yield {"n_type": "NT_GNU_PROPERTY_TYPE_0", "n_name": "GNU", "n_desc": [NS(pr_type="GNU_PROPERTY_X86_ISA_1_NEEDED", pr_datasz=4, pr_data=x) for x in d]}
class Elf(dict):
    header = {"e_ident": {"EI_OSABI": "ELFOSABI_SYSV"}}
    elfclass = 64
    little_endian = True
def elf(*datas):
    e = Elf(e_machine="EM_X86_64", e_flags=0)
    e.iter_sections = lambda: iter([Note(datas)])
    return L._get_platform(e)
'''
demo("c05-order", "a file announcing the levels cumulatively", "x86-64-v4 files are taken for x86-64-v3", NOTE + '''
check(elf([0b1111]).extended_architecture == A.x86_64_v4, elf([0b1111]))
''')
demo("c05-break-notes", "a note with several needed properties, v4 first", "a later, lower level replaces the highest one", NOTE + '''
check(elf([8, 4]).extended_architecture == A.x86_64_v4, elf([8, 4]))
''')
demo("c05-disable", "a musllinux wheel without external libraries needing x86-64-v3", "the check is skipped although it is not disabled", '''
p = pols("MUSL")
fn = Path("a.so")
w = analyze(p, {fn: exe(fn, libc="MUSL", platform=plat(ext="x86_64_v3"))}, {fn: {}})
check(w.machine_policy == p.linux, w.machine_policy.name)
''')
# ---- C06
demo("c06-prefix", "a library in a directory whose name starts with the wheel directory's name", "libraries beside the unpacked wheel are taken for being inside", '''
from auditwheel.tools import is_subdir
check(not is_subdir(SCRATCH / "wheel-other" / "lib.so", SCRATCH / "wheel"), "sibling directory counted as inside")
check(is_subdir(SCRATCH / "wheel" / "lib.so", SCRATCH / "wheel"), "inside not recognised")
''')
EXT = '''
p = pols()
def libs(t, name=None):
    return p.lddtree_external_references(t, SCRATCH / "w")[name or p.highest.name].libs
'''
demo("c06-ldlinux", "a library whose name contains ld and linux but is not the loader", "it is taken for the dynamic loader", EXT + '''
t = exe("/x/m.so", ["libldap_linux.so.1"], [lib("libldap_linux.so.1", "/l/libldap_linux.so.1")])
check(set(libs(t)) == {"libldap_linux.so.1"}, libs(t))
''')
demo("c06-inwheel-stop", "an external library reached only through a library inside the wheel", "it is not grafted", EXT + '''
t = exe("/x/m.so", ["libin.so"], [lib("libin.so", SCRATCH / "w" / "libin.so", ["libout.so"]), lib("libout.so", "/l/libout.so")])
check(set(libs(t)) == {"libout.so"}, libs(t))
''')
demo("c06-whitelist-last", "a library white-listed by a newer tag only", "the white-list of another tag is used", EXT + '''
q, h = next((a, b) for a in p for b in p if a != p.linux and (a.whitelist - p.highest.whitelist))  , None
q = q[0]
s = sorted(q.whitelist - p.highest.whitelist)[0]
t = exe("/x/m.so", [s], [lib(s, "/l/" + s)])
check(libs(t, q.name) == {}, libs(t, q.name))
''')
demo("c06-fullrefs", "a library of the wheel that is needed by another file of it", "external references of needed libraries are not recorded", '''
a = cc("libx.so", "int x(void){return 1;}", "-nostdlib", "-Wl,-soname,libx.so")
b = cc("libz9.so.1", "int z(void){return 1;}", "-nostdlib", "-Wl,-soname,libz9.so.1")
x = cc("w/libx.so", "int z(void); int x(void){return z();}", "-nostdlib", "-Wl,-soname,libx.so", b)
m = cc("w/m.so", "int x(void); int PyInit_m(void){return x();}", "-nostdlib", a)
from auditwheel.wheel_abi import get_wheel_elfdata
from auditwheel.libc import Libc
from auditwheel.architecture import Architecture
w = mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {"m.so": m.read_bytes(), "libx.so": x.read_bytes()})
d = get_wheel_elfdata(Libc.GLIBC, Architecture.x86_64, w, frozenset(), None)
check(set(map(str, d.full_external_refs)) == {"m.so", "libx.so"}, d.full_external_refs)
''')
demo("c06-fixup-needed", "a chain of libraries found only through another file of the wheel", "the end of the chain is not followed", '''
from auditwheel import wheel_abi as W
names = ["liba.so", "libb.so", "libc1.so", "libd.so"]
f = {}
for n in [*names, "m.so", "n.so"]:
    f[n] = SCRATCH / n
    f[n].write_bytes(b"x" + n.encode())
def L(n, need, found=True):
    return lib(n, f[n] if found else None, need)
py = exe(f["m.so"], ["n.so"], [L("n.so", ["liba.so"]), L("liba.so", ["libb.so"]), L("libb.so", ["libc1.so", "liba.so"]), L("libc1.so", ["libd.so"]), L("libd.so", [])])
non = {Path("n.so"): exe(f["n.so"], ["liba.so"], [L("liba.so", [], False)])}
W._fixup_elf_trees({Path("m.so"): py}, non)
check(set(non[Path("n.so")].libraries) == set(names), sorted(non[Path("n.so")].libraries))
''')
# ---- C07
demo("c07-order", "the same library in a RUNPATH directory and in an environment directory", "environment directories are searched before RUNPATH", '''
from auditwheel.lddtree import ldd
for d in ("r", "e"):
    cc(f"{d}/libq.so", "int q(void){return 1;}", "-nostdlib", "-Wl,-soname,libq.so")
m = cc("m.so", "int q(void); int f(void){return q();}", "-nostdlib", SCRATCH / "r/libq.so", "-Wl,--enable-new-dtags", f"-Wl,-rpath,{SCRATCH}/r")
t = ldd(m, ldpaths={"conf": [], "env": [str(SCRATCH / "e")], "interp": []})
check(str(t.libraries["libq.so"].path) == str(SCRATCH / "r/libq.so"), t.libraries["libq.so"].path)
''')
demo("c07-rpath-cleared", "a file with different RPATH and RUNPATH", "RPATH is searched although RUNPATH is present", '''
import auditwheel.lddtree as L
for d in ("r", "q"):
    cc(f"{d}/libq.so", "int q(void){return 1;}", "-nostdlib", "-Wl,-soname,libq.so")
m = cc("m.so", "int q(void); int f(void){return q();}", "-nostdlib", SCRATCH / "r/libq.so", "-Wl,--enable-new-dtags", f"-Wl,-rpath,{SCRATCH}/r")
real = L.DynamicSegment.iter_tags
class T:
    entry = NS(d_tag="DT_RPATH")
    rpath = str(SCRATCH / "q")
with mock.patch.object(L.DynamicSegment, "iter_tags", lambda self, *a: iter([T, *real(self, *a)])):
    t = L.ldd(m, ldpaths={"conf": [], "env": [], "interp": []})
check(t.libraries["libq.so"].path == str(SCRATCH / "r/libq.so"), t.libraries["libq.so"].path)
''')
demo("c07-origin", "a file reached through a symbolic link whose RUNPATH contains $ORIGIN", "$ORIGIN is expanded to the link's target directory", '''
from auditwheel.lddtree import parse_ld_paths
for d in ("real/lib", "link/lib"):
    (SCRATCH / d).mkdir(parents=True)
(SCRATCH / "real/m.so").write_bytes(b"")
(SCRATCH / "link/m.so").symlink_to(SCRATCH / "real/m.so")
r = parse_ld_paths("$ORIGIN/lib", path=str(SCRATCH / "link/m.so"))
check(r == [str(SCRATCH / "link/lib")], r)
''')
demo("c07-compat-little", "a library of the other byte order in an earlier directory", "it is accepted", '''
check(not plat("ppc64le", machine="EM_PPC64").is_compatible(plat("ppc64", machine="EM_PPC64", little=False)), "byte order ignored")
''')
demo("c07-compat-osabi", "a FreeBSD library in an earlier directory", "it is accepted", '''
check(not plat().is_compatible(plat(osabi="ELFOSABI_FREEBSD")), "FreeBSD library accepted")
''')
demo("c07-first-incompat", "an incompatible library in an earlier directory than a compatible one", "the search stops at the incompatible one", '''
import auditwheel.lddtree as L
for d in ("a", "b"):
    cc(f"{d}/libq.so", "int q(void){return 1;}", "-nostdlib")
raw = bytearray((SCRATCH / "a/libq.so").read_bytes())
raw[18:20] = (183).to_bytes(2, "little")
(SCRATCH / "a/libq.so").write_bytes(raw)
r = L.find_lib(plat(), "libq.so", [str(SCRATCH / "a"), str(SCRATCH / "b")])
check(r[1] == str(SCRATCH / "b/libq.so"), r)
''')
demo("c07-dedupe2", "a directory listed twice with another one between", "the order of the directories changes", '''
from auditwheel.lddtree import parse_ld_paths
for d in "ab":
    (SCRATCH / d).mkdir()
a, b = str(SCRATCH / "a"), str(SCRATCH / "b")
r = parse_ld_paths(f"{a}:{b}:{a}")
check(r == [a, b], r)
''')
demo("c07-envorder", "both library path variables set", "LD_LIBRARY_PATH is searched before AUDITWHEEL_LD_LIBRARY_PATH", '''
from auditwheel.lddtree import load_ld_paths
for d in "ab":
    (SCRATCH / d).mkdir()
a, b = str(SCRATCH / "a"), str(SCRATCH / "b")
os.environ.update(AUDITWHEEL_LD_LIBRARY_PATH=a, LD_LIBRARY_PATH=b)
r = load_ld_paths(None)["env"]
check(r == [a, b], r)
''')
demo("c07-envsole", "both library path variables set", "LD_LIBRARY_PATH is ignored when AUDITWHEEL_LD_LIBRARY_PATH is set", '''
from auditwheel.lddtree import load_ld_paths
for d in "ab":
    (SCRATCH / d).mkdir()
a, b = str(SCRATCH / "a"), str(SCRATCH / "b")
os.environ.update(AUDITWHEEL_LD_LIBRARY_PATH=a, LD_LIBRARY_PATH=b)
r = load_ld_paths(None)["env"]
check(r == [a, b], r)
''')
demo("c07-comment", "a directory followed by a comment in the loader configuration", "the line is not understood", '''
from auditwheel.lddtree import parse_ld_so_conf
(SCRATCH / "lib").mkdir()
(SCRATCH / "ld.so.conf").write_text("/lib # system\\n")
r = parse_ld_so_conf(str(SCRATCH / "ld.so.conf"), root=str(SCRATCH) + "/")
check(r == [str(SCRATCH / "lib")], r)
''')
demo("c07-include-rel", "a relative include in a configuration file outside etc", "the include is looked up in another directory", '''
from auditwheel.lddtree import parse_ld_so_conf
(SCRATCH / "lib").mkdir()
(SCRATCH / "conf").mkdir()
(SCRATCH / "conf/ld.so.conf").write_text("include sub.conf\\n")
(SCRATCH / "conf/sub.conf").write_text("/lib\\n")
r = parse_ld_so_conf(str(SCRATCH / "conf/ld.so.conf"), root=str(SCRATCH) + "/")
check(r == [str(SCRATCH / "lib")], r)
''')
demo("c07-musl-conf", "a musl wheel on a system without loader configuration", "the default directories are searched in another order", '''
from auditwheel.lddtree import load_ld_paths
from auditwheel.libc import Libc
r = load_ld_paths(Libc.MUSL, root=str(SCRATCH))["conf"]
check(r == [str(SCRATCH) + x for x in ("/lib", "/usr/local/lib", "/usr/lib")], r)
''')
demo("c07-trusted", "a library that is only in /lib64", "the trusted directory /lib64 is not searched", '''
from auditwheel.lddtree import load_ld_paths
r = load_ld_paths(None)["conf"]
check(r[-4:] == ["/lib", "/lib64/", "/usr/lib", "/usr/lib64"], r)
''')
# ---- C08
LDD = '''
from auditwheel.lddtree import ldd
c = cc("l/libc1.so", "int c1(void){return 1;}", "-nostdlib", "-Wl,-soname,libc1.so")
b = cc("l/libb.so", "int c1(void); int b(void){return c1();}", "-nostdlib", "-Wl,-soname,libb.so", c)
m = cc("m.so", "int b(void); int f(void){return b();}", "-nostdlib", b)
def tree(exclude):
    return ldd(m, ldpaths={"conf": [str(SCRATCH / "l")], "env": [], "interp": []}, exclude=frozenset(exclude))
'''
demo("c08-path-exact", "a library excluded by its real path, found through a symbolic link", "the pattern is matched against the link", LDD + '''
(SCRATCH / "l/libb.so").rename(SCRATCH / "l/libb.so.1.0")
(SCRATCH / "l/libb.so").symlink_to("libb.so.1.0")
t = tree([str(SCRATCH / "l/libb.so.1.0")])
check("libb.so" not in t.libraries and t.needed == (), (t.needed, list(t.libraries)))
''')
demo("c08-recursive", "a wildcard excluding a library that is only needed by another library", "exclusion patterns are not honoured below the first level", LDD + '''
t = tree(["libc1.*"])
check("libc1.so" not in t.libraries and t.libraries["libb.so"].needed == (), list(t.libraries))
''')
demo("c08-drop-exclude", "an excluded library that is only needed by another library", "exclusion patterns are not honoured below the first level", LDD + '''
t = tree(["libc1.so"])
check("libc1.so" not in t.libraries, list(t.libraries))
''')
demo("c08-prefix", "an exclusion pattern that is a prefix of another library's name", "other libraries are excluded too", LDD + '''
t = tree(["lib"])
check(set(t.libraries) == {"libb.so", "libc1.so"}, list(t.libraries))
''')
demo("c08-case", "an exclusion pattern differing in case", "a library that does not match is excluded", LDD + '''
t = tree(["LIBB.so"])
check("libb.so" in t.libraries, list(t.libraries))
''')
demo("c08-cli", "three --exclude options", "the second pattern is ignored", '''
rc, kw, seen = run_repair(winfo(pols()), mkwheel("x-1-cp310-cp310-linux_x86_64.whl", {}), EXCLUDE=["a", "b", "c"])
check(set(seen["args"][3]) == {"a", "b", "c"}, seen["args"][3])
''')
# ---- C09
demo("c09-py", "an ELF file with another suffix than .so", "ELF files with these names are not analysed", '''
from auditwheel.elfutils import elf_file_filter
f = [cc(n, "int f(void){return 1;}", "-nostdlib") for n in ("a.so", "b.data", "c.pyc")]
r = [p.name for p, _ in elf_file_filter(f)]
check(r == ["a.so", "b.data", "c.pyc"], r)
''')
demo("c09-suffixes", "a module named like mod.py.so", "ELF files with .py inside the name are not analysed", '''
from auditwheel.elfutils import elf_file_filter
r = [p.name for p, _ in elf_file_filter([cc("mod.py.so", "int f(void){return 1;}", "-nostdlib")])]
check(r == ["mod.py.so"], r)
''')
demo("c09-purelib", "a shared library in a subdirectory of purelib", "it is accepted", '''
m = cc("m.so", "int PyInit_m(void){return 1;}", "-nostdlib")
w = mkwheel("x-1-cp310-cp310-manylinux_2_17_x86_64.whl", {"x-1.data/purelib/pkg/m.so": m.read_bytes()})
r = aw("show", w)
check(r.returncode != 0 and "purelib" in r.stderr, r.stderr[-300:])
''')
demo("c09-needed", "a library of the wheel named lib... that nothing in it needs", "its symbols do not count", '''
from auditwheel.wheel_abi import get_wheel_elfdata
from auditwheel.libc import Libc
from auditwheel.architecture import Architecture
m = cc("libm9.so", "int f(void){return 1;}", "-nostdlib")
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"pkg/libm9.so": m.read_bytes()})
d = get_wheel_elfdata(Libc.GLIBC, Architecture.x86_64, w, frozenset(), None)
check(set(map(str, d.full_elftree)) == {"pkg/libm9.so"}, d.full_elftree)
''')
demo("c09-record", "a file listed in RECORD without hash", "it is not analysed", '''
from auditwheel.wheeltools import InWheelCtx
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"a.so": b"1", "b.so": b"2"}, nohash=("b.so",))
with InWheelCtx(w) as ctx:
    r = {str(f) for f in ctx.iter_files()}
check({"a.so", "b.so"} <= r, r)
''')
demo("c09-needed-all", "a library of the wheel whose name is resolved indirectly only", "libraries merely reachable are treated as directly needed and left out of the verdicts", '''
import auditwheel.wheel_abi as W
from auditwheel.libc import Libc
from auditwheel.architecture import Architecture
m = cc("a.so", "int f(void){return 1;}", "-nostdlib")
w = mkwheel("x-1-py3-none-linux_x86_64.whl", {"pkg/a.so": m.read_bytes(), "pkg/libx.so": m.read_bytes()})
def fake(fn, **k):
    return exe(fn, ["libo.so"], [lib("libo.so", "/l/libo.so", ["libx.so"]), lib("libx.so", "/l/libx.so")]) if fn.name == "a.so" else exe(fn)
with mock.patch.object(W, "ldd", fake):
    d = W.get_wheel_elfdata(Libc.GLIBC, Architecture.x86_64, w, frozenset(), None)
check(set(map(str, d.full_elftree)) == {"pkg/a.so", "pkg/libx.so"}, list(d.full_elftree))
''')
