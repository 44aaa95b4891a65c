"""Helpers of the demonstrations: everything happens in a scratch directory removed at exit."""
import atexit, base64, contextlib, hashlib, io, json, os, shutil, signal, stat, subprocess, sys, tempfile, types, zipfile
from pathlib import Path
from unittest import mock

signal.alarm(40)  # a change may make the code loop for ever
SCRATCH = Path(tempfile.mkdtemp(prefix="awdemo")).resolve()


def _cleanup():
    os.chdir("/")
    shutil.rmtree(str(SCRATCH), ignore_errors=True)


atexit.register(_cleanup)
os.chdir(SCRATCH)
for _v in ("AUDITWHEEL_PLAT", "AUDITWHEEL_LD_LIBRARY_PATH", "LD_LIBRARY_PATH", "SOURCE_DATE_EPOCH", "AUDITWHEEL_PATCHER", "AUDITWHEEL_ZIP_COMPRESSION_LEVEL"):
    os.environ.pop(_v, None)
NS = types.SimpleNamespace


def check(cond, msg):
    if not cond:
        print("FAILED:", str(msg)[:800])
        sys.exit(1)


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc as e:
        return e
    return None


def cc(out, src, *flags):
    out = SCRATCH / out
    out.parent.mkdir(parents=True, exist_ok=True)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", str(out), "-x", "c", "-", "-x", "none", *map(str, flags)], input=src.encode(), check=True)
    return out


def mkwheel(name, files, tag_lines=None, dist=None, extra_rows=(), nohash=()):
    """files: {path: bytes | (bytes, mode)}"""
    dist = dist or "-".join(name.split("-")[:2]) + ".dist-info"
    py, abi, plat = name[:-4].split("-")[-3:]
    tags = tag_lines or [f"{p}-{a}-{pl}" for p in py.split(".") for a in abi.split(".") for pl in plat.split(".")]
    wheel = "Wheel-Version: 1.0\nGenerator: demo\nRoot-Is-Purelib: %s\n" % ("true" if plat == "any" else "false") + "".join(f"Tag: {t}\n" for t in tags) + "\n"
    files = dict(files)
    files.setdefault(f"{dist}/METADATA", b"Metadata-Version: 2.1\nName: x\nVersion: 1\n")
    files.setdefault(f"{dist}/WHEEL", wheel.encode())
    rows = []
    for p, d in files.items():
        d = d[0] if isinstance(d, tuple) else d
        h = "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(d).digest()).rstrip(b"=").decode()
        rows.append(f"{p},,\n" if p in nohash else f"{p},{h},{len(d)}\n")
    rows += [f"{dist}/RECORD,,\n"]
    files[f"{dist}/RECORD"] = "".join(rows).encode()
    path = SCRATCH / name
    with zipfile.ZipFile(path, "w") as z:
        for p, d in files.items():
            d, mode = d if isinstance(d, tuple) else (d, 0o644)
            zi = zipfile.ZipInfo(p)
            zi.external_attr = (stat.S_IFREG | mode) << 16
            z.writestr(zi, d)
    return path


def aw(*args, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run([sys.executable, "-m", "auditwheel", *map(str, args)], env=e, cwd=cwd or SCRATCH, capture_output=True, text=True)
    return r


def pols(libc="GLIBC", arch="x86_64", **k):
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.policy import WheelPolicies
    if libc == "MUSL":
        k.setdefault("musl_policy", "musllinux_1_2")
    return WheelPolicies(libc=Libc[libc], arch=Architecture(arch), **k)


def plat(base="x86_64", ext=None, err=None, osabi="ELFOSABI_SYSV", cls=64, little=True, machine="EM_X86_64"):
    from auditwheel.architecture import Architecture
    from auditwheel.lddtree import Platform
    return Platform(osabi, cls, little, machine, Architecture(base) if base else None, Architecture(ext) if ext else None, err)


def lib(soname, realpath=None, needed=(), platform=None):
    from auditwheel.lddtree import DynamicLibrary
    return DynamicLibrary(soname, str(realpath) if realpath else None, Path(realpath) if realpath else None, platform or plat(), tuple(needed))


def exe(path, needed=(), libraries=(), libc="GLIBC", platform=None):
    from auditwheel.lddtree import DynamicExecutable
    from auditwheel.libc import Libc
    return DynamicExecutable(None, Libc[libc], str(path), Path(path), platform or plat(), tuple(needed), (), (), {l.soname: l for l in libraries})


def analyze(p, trees, refs, syms=None, ucs2=False, fpe=False, **k):
    """analyze_wheel_abi on given wheel data; refs: {fn: {policy name: (libs, blacklist)}}"""
    from auditwheel import wheel_abi as W
    full = {fn: {q.name: W.ExternalReference(*r.get(q.name, ({}, {})), q) for q in p} for fn, r in refs.items()}
    data = W.WheelElfData(p, trees, full, syms or {}, ucs2, fpe)
    k.setdefault("disable_isa_ext_check", False)
    k.setdefault("allow_graft", True)
    with mock.patch.object(W, "get_wheel_elfdata", lambda *a, **kw: data):
        return W.analyze_wheel_abi(None, None, Path("x.whl"), frozenset(), **k)


def winfo(p, full=None, external_refs=None, **k):
    from auditwheel.wheel_abi import ExternalReference, WheelAbIInfo
    h = p.highest
    ext = external_refs or {q.name: ExternalReference({}, {}, q) for q in p}
    d = dict(overall_policy=h, ref_policy=h, versioned_symbols={}, sym_policy=h, ucs_policy=h, pyfpe_policy=h, blacklist_policy=h, machine_policy=h, graft_policy=h)
    d.update(k)
    return WheelAbIInfo(p, full or {}, d["overall_policy"], ext, d["ref_policy"], d["versioned_symbols"], d["sym_policy"], d["ucs_policy"],
                        d["pyfpe_policy"], d["blacklist_policy"], d["machine_policy"], d["graft_policy"])


def run_repair(info, wheel, **k):
    """main_repair.execute with a given analysis; returns (status or SystemExit, keyword arguments given to repair_wheel)"""
    import argparse
    import auditwheel.repair as R
    import auditwheel.wheel_abi as W
    from auditwheel import main_repair as M
    a = dict(WHEEL_FILE=[Path(wheel)], PLAT="auto", EXCLUDE=[], WHEEL_DIR=SCRATCH / "out", UPDATE_TAGS=True, STRIP=False, ONLY_PLAT=False, LDPATHS=None,
             DISABLE_ISA_EXT_CHECK=False, ALLOW_PURE_PY_WHEEL=False, PATCHER="none", ZIP_COMPRESSION_LEVEL=-1, LIB_SDIR=".libs")
    a.update(k)
    got, seen = {}, {}

    def fake(*args, **kw):
        got.update(kw)
        return None

    def ana(*args, **kw):
        seen.update(kw, args=args)
        if isinstance(info, BaseException):
            raise info
        return info

    with mock.patch.object(R, "repair_wheel", fake), mock.patch.object(W, "analyze_wheel_abi", ana), contextlib.redirect_stderr(io.StringIO()):
        try:
            rc = M.execute(argparse.Namespace(**a), argparse.ArgumentParser())
        except SystemExit as e:
            rc = f"exit {e.code}"
    return rc, got, seen


class FakePatcher:
    """records the requests made to an ELF patcher"""

    def __init__(self, rpaths=None):
        self.calls = []
        self.rpaths = rpaths or {}

    def get_rpath(self, f):
        return self.rpaths.get(Path(f).name, "")

    get_rpath_direct = get_rpath

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, *a))
        return f


def graft(wheel, refs, plat_="manylinux_2_17_x86_64", patcher=None, needed=None, whichp=None, **k):
    """repair_wheel with given external references {file in wheel: {soname: path}}; returns (result, patcher)"""
    import auditwheel.repair as R
    import auditwheel.sboms as S
    from auditwheel.wheel_abi import ExternalReference
    p = pols()
    pol = p.get_policy_by_name(plat_)
    full = {Path(fn): {pol.name: ExternalReference({s: (Path(x) if x else None) for s, x in libs.items()}, {}, pol)} for fn, libs in refs.items()}
    pa = patcher or FakePatcher()
    a = dict(abis=[pol.name, *pol.aliases], lib_sdir=".libs", out_dir=SCRATCH / "out", update_tags=True, patcher=pa, strip=False, zip_compression_level=-1)
    a.update(k)
    Path(a["out_dir"]).mkdir(exist_ok=True)
    needed = needed or {}
    with mock.patch.object(R, "elf_read_dt_needed", lambda path: list(next((v for k_, v in needed.items() if Path(path).name.startswith(k_)), []))), \
            mock.patch.object(S, "whichprovides", lambda fs: {f: whichp[f] for f in fs if f in (whichp or {})}):
        return R.repair_wheel(NS(full_external_refs=full), Path(wheel), a.pop("abis"), a.pop("lib_sdir"), a.pop("out_dir"), **a), pa


def record(whl):
    import csv
    with zipfile.ZipFile(whl) as z:
        n = next(x for x in z.namelist() if x.endswith(".dist-info/RECORD"))
        rows = list(csv.reader(io.StringIO(z.read(n).decode())))
        return {r[0]: (r[1], r[2]) for r in rows}, {i.filename: z.read(i) for i in z.infolist() if not i.is_dir()}


def check_record(whl):
    rows, files = record(whl)
    check(set(rows) == set(files), f"RECORD rows {sorted(set(rows) ^ set(files))} differ from the files")
    for n, (h, s) in rows.items():
        if n.endswith(".dist-info/RECORD"):
            check((h, s) == ("", ""), "RECORD has a hash for itself")
            continue
        d = files[n]
        check(h == "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(d).digest()).rstrip(b"=").decode(), f"hash of {n}: {h}")
        check(s == str(len(d)), f"size of {n}: {s}, it has {len(d)} bytes")


def rewrite(wheel, out, inside=None):
    """unpack and write again with InWheelCtx"""
    from auditwheel.wheeltools import InWheelCtx
    with InWheelCtx(Path(wheel), Path(out)) as ctx:
        if inside:
            inside(ctx)
    return Path(out)
