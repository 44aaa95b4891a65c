"""Development aid (not a check): enumerates small source mutations of /repo and reports
which of them the comparison calls different / undecided / equal."""
import ast, copy, json, os, random, sys, tempfile, shutil, hashlib
from pathlib import Path
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
REPO = Path("/repo")
FILES = ["repair.py", "wheeltools.py", "wheel_abi.py", "tools.py", "sboms.py", "policy/__init__.py", "patcher.py", "lddtree.py", "libc.py",
         "main_repair.py", "main_show.py", "main.py", "main_lddtree.py", "elfutils.py", "hashfile.py", "json.py", "architecture.py",
         "tmpdirs.py", "options.py", "genericpkgctx.py", "condatools.py", "error.py"]
SWAP = {"resolve": "absolute", "startswith": "endswith", "endswith": "startswith", "rsplit": "split", "copy2": "copy", "append": "remove",
        "union": "intersection", "rpartition": "partition", "min": "max", "max": "min", "any": "all", "all": "any", "extend": "append",
        "sorted": "list", "rglob": "glob", "is_file": "exists", "exists": "is_dir", "removeprefix": "removesuffix", "issubset": "issuperset",
        "update": "difference_update", "add": "discard", "match": "search", "lower": "upper", "check_call": "call", "check_output": "run"}


def sites(tree):
    """yield (description, fn(tree_copy_nodes)) by index"""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
                  ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            yield i, "cmp", lambda m, sw=sw: setattr(m, "ops", [sw[type(m.ops[0])]()])
        if isinstance(n, ast.BoolOp):
            yield i, "boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for j in range(len(n.values)):
                if len(n.values) > 1:
                    yield i, f"dropcond{j}", lambda m, j=j: (m.values.pop(j), m.values.append(ast.Constant(isinstance(m.op, ast.And))) if len(m.values) < 2 else None)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield i, "dropnot", "REPL_operand"
        if isinstance(n, ast.Constant) and not getattr(n, "_doc", False):
            if isinstance(n.value, bool):
                yield i, "bool", lambda m: setattr(m, "value", not m.value)
            elif isinstance(n.value, int):
                yield i, "int", lambda m: setattr(m, "value", m.value + 1)
            elif isinstance(n.value, str) and n.value:
                yield i, "str", lambda m: setattr(m, "value", m.value[:-1] if len(m.value) > 1 else m.value + "x")
        if isinstance(n, (ast.If, ast.While)):
            yield i, "ifnot", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
            if isinstance(n, ast.If):
                yield i, "iftrue", lambda m: setattr(m, "test", ast.Constant(True))
                yield i, "iffalse", lambda m: setattr(m, "test", ast.Constant(False))
        if isinstance(n, ast.IfExp):
            yield i, "ifexp", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
        if isinstance(n, ast.comprehension):
            for j in range(len(n.ifs)):
                yield i, f"dropif{j}", lambda m, j=j: m.ifs.pop(j)
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if nm in SWAP:
                def f(m, nm=nm):
                    if isinstance(m.func, ast.Attribute):
                        m.func.attr = SWAP[nm]
                    else:
                        m.func.id = SWAP[nm]
                yield i, f"swap:{nm}", f
            for j in range(len(n.keywords)):
                yield i, f"dropkw:{n.keywords[j].arg}", lambda m, j=j: m.keywords.pop(j)
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield i, "swapargs", lambda m: setattr(m, "args", m.args[::-1])
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                yield i, f"dropcall:{nm}", "REPL_func.value"
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
            if type(n.op) in sw:
                yield i, "binop", lambda m, sw=sw: setattr(m, "op", sw[type(m.op)]())
        if isinstance(n, ast.Break):
            yield i, "break", "REPL_continue"
        if isinstance(n, ast.Continue):
            yield i, "continue", "REPL_break"
        for fld in ("body", "orelse", "finalbody"):
            bl = getattr(n, fld, None)
            if isinstance(bl, list) and bl and isinstance(bl[0], ast.stmt) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for j, s in enumerate(bl):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, ast.Expr) and "logger" in ast.unparse(s):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Return, ast.If, ast.For, ast.Delete, ast.With)):
                        def d(m, fld=fld, j=j):
                            l = getattr(m, fld)
                            l[j] = ast.Pass()
                        yield i, f"del:{type(s).__name__}", d
                    if j + 1 < len(bl):
                        def sw2(m, fld=fld, j=j):
                            l = getattr(m, fld)
                            l[j], l[j + 1] = l[j + 1], l[j]
                        yield i, "swapstmt", sw2


def mutants(rel):
    src = (REPO / "src/auditwheel" / rel).read_text()
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            n.value._doc = True
        if isinstance(n, ast.JoinedStr):
            pass
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "logger":
            for x in ast.walk(n):
                if isinstance(x, ast.Constant):
                    x._doc = True
                    x.value = x.value
        if isinstance(n, ast.AnnAssign) or isinstance(n, ast.arg):
            if n.annotation is not None:
                for x in ast.walk(n.annotation):
                    if isinstance(x, ast.Constant):
                        x._doc = True
    out = []
    for k, (i, d, f) in enumerate(sites(tree)):
        t2 = copy.deepcopy(tree)
        nodes = list(ast.walk(t2))
        m = nodes[i]
        line = getattr(m, "lineno", 0)
        if getattr(m, "_doc", False):
            continue
        try:
            before = ast.unparse(m)
            if isinstance(f, str):
                rep = {"REPL_operand": lambda: m.operand, "REPL_func.value": lambda: m.func.value, "REPL_continue": ast.Continue, "REPL_break": ast.Break}[f]()
                done = False
                for p in nodes:
                    for fld, val in ast.iter_fields(p):
                        if val is m:
                            setattr(p, fld, rep); done = True
                        elif isinstance(val, list):
                            for q, x in enumerate(val):
                                if x is m:
                                    val[q] = rep; done = True
                if not done:
                    continue
                after = ast.unparse(rep)
            else:
                f(m)
                after = ast.unparse(m)
            ast.fix_missing_locations(t2)
            code = ast.unparse(t2)
            compile(code, rel, "exec")
        except Exception:
            continue
        if code == ast.unparse(tree):
            continue
        out.append(dict(file=rel, line=line, kind=d, before=before[:300], after=after[:300], code=code, id=f"{rel.replace('/','_')}:{line}:{d}:{k}"))
    return out


BASE = None


def evaluate(mu):
    sys.setrecursionlimit(50000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    from sa.contract import Contract
    d = Path(tempfile.mkdtemp(prefix="mut"))
    try:
        shutil.copytree(REPO / "src", d / "src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        (d / "src/auditwheel" / mu["file"]).write_text(mu["code"])
        res = {"id": mu["id"], "kind": mu["kind"], "line": mu["line"], "file": mu["file"], "before": mu["before"], "after": mu["after"]}
        try:
            C = Contract(d)
            worst, what = 0, []
            for f in C.spec.project.all_functions():
                if "_vendor" in f.qual: continue
                for r in C.compare(f.qual):
                    if r.verdict:
                        what.append((r.verdict, r.func, r.aspect, str(r.diffs[:1])[:300]))
                        worst = max(worst, r.verdict)
            res["verdict"] = worst
            res["what"] = what[:12]
        except Exception as e:
            res["verdict"] = -1
            res["what"] = [repr(e)[:300]]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    out = sys.argv[1]
    files = sys.argv[2:] or FILES
    ms = []
    for f in files:
        ms += mutants(f)
    print(len(ms), "mutants")
    import multiprocessing as mp
    with mp.get_context("fork").Pool(8, maxtasksperchild=20) as ex:
        rs = list(ex.imap(evaluate, ms, chunksize=4))
    json.dump(rs, open(out, "w"), indent=1)
    from collections import Counter
    print(Counter(r["verdict"] for r in rs))
    for f in files:
        print(f, Counter(r["verdict"] for r in rs if r["file"] == f))
