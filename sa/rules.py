"""Rules that look at the current tree directly (call graph, alias, effect, table and structure rules).

Every rule returns (findings, stats): a finding is (file, line, function, message)."""
from __future__ import annotations

import ast
import json
import re
from fnmatch import fnmatchcase

from .compare import DIFF, UNK
from .interp import worklist
from .project import imports_from, walk_own

PKG = "auditwheel."


# ------------------------------------------------------------------------------ call graph
class Graph:
    """Over-approximate call graph: names are resolved through imports; a method call reaches every
    project method of that name; creating a context manager reaches its __enter__ and __exit__."""

    def __init__(self, project):
        self.p = project
        self.funcs = {f.qual: f for f in project.all_functions()}
        self.by_name = {}
        self.imports = {}
        for f in self.funcs.values():
            if f.cls is not None:
                self.by_name.setdefault(f.name, []).append(f.qual)
        self.edges = {q: self.callees(f) for q, f in self.funcs.items()}

    def resolve(self, f, e):
        """qualified name of the expression, as far as imports tell"""
        if isinstance(e, ast.Name):
            local = self.imports.get(f.node)
            if local is None:
                local = self.imports[f.node] = {}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.ImportFrom):
                        local.update(imports_from(n, f.module.name if f.module.path.name == "__init__.py" else f.module.name.rpartition(".")[0]))
                    elif isinstance(n, ast.Import):
                        for a in n.names:
                            local[a.asname or a.name.split(".")[0]] = a.name
            m = f.module
            if e.id in local:
                return local[e.id]
            if e.id in m.funcs or e.id in m.classes or e.id in m.globals:
                return f"{m.name}.{e.id}"
            return m.imports.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(f, e.value)
            return f"{b}.{e.attr}" if b else None
        return None

    def callees(self, f):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                for q in self.by_name.get(n.attr, ()):
                    out.add(q)
            if isinstance(n, (ast.Name, ast.Attribute)):
                q = self.resolve(f, n)
                r = self.p.resolve(q) if q and q.startswith(PKG[:-1]) else None
                if r and r[0] == "func":
                    out.add(r[1].qual)
                elif r and r[0] == "class":
                    c = r[1]
                    seen = [c]
                    while seen:
                        c = seen.pop()
                        for m in c.methods.values():
                            if m.name.startswith("__"):
                                out.add(m.qual)
                        for b in c.bases:
                            q2 = self.p.resolve_in(c.module, ast.unparse(b)) if hasattr(self.p, "resolve_in") else None
                            bn = ast.unparse(b)
                            q2 = c.module.imports.get(bn, f"{c.module.name}.{bn}")
                            r2 = self.p.resolve(q2)
                            if r2 and r2[0] == "class":
                                seen.append(r2[1])
        return out

    def reach(self, roots, stop=()):
        seen, st = set(), [r for r in roots if r in self.funcs]
        while st:
            q = st.pop()
            if q in seen or q in stop:
                continue
            seen.add(q)
            st += [x for x in self.edges.get(q, ()) if x not in seen]
        return seen


ROOTS = {
    "repair": [PKG + "main_repair.execute"],
    "show": [PKG + "main_show.execute"],
    "lddtree": [PKG + "main_lddtree.execute"],
}


class Ctx:
    def __init__(self, contract):
        self.c = contract
        self.code, self.spec = contract.code.project, contract.spec.project
        self._g = {}

    def graph(self, side="code"):
        if side not in self._g:
            self._g[side] = Graph(self.code if side == "code" else self.spec)
        return self._g[side]


def where(f, n=None):
    return str(f.module.path), getattr(n, "lineno", getattr(f.node, "lineno", 0)), f.qual


# ------------------------------------------------------------------------------ effects
WRITES = ["ev:fs.unlink*", "ev:fs.rmtree*", "ev:fs.rmdir*", "ev:fs.open_write*", "ev:fs.write*", "ev:fs.rename*", "ev:fs.move*", "ev:fs.chmod*",
          "ev:fs.copy*", "ev:fs.mkdir*", "ev:fs.symlink*", "ev:fs.utime*", "ev:fs.truncate*", "ev:fs.touch*", "ev:fs.chdir*"]
PROCS = ["ev:proc.*"]


def relative_effects(ctx, roots, pats, stop=()):
    """operations of the given kinds in everything reachable: any that the contract does not have"""
    g = ctx.graph()
    reach = g.reach(roots, stop)
    finds, n = [], 0
    for q in sorted(reach):
        s = ctx.c.code.summary(q)
        if s is not None:
            n += sum(1 for e in s.events if any(fnmatchcase("ev:" + e.kind, p) for p in pats))
        if ctx.c.spec.project.resolve(q) is None:
            continue
        try:
            rs = ctx.c.compare(q)
        except KeyError:
            continue
        for r in rs:
            if r.verdict == DIFF and any(fnmatchcase(r.aspect, p) for p in pats):
                finds.append((r.file, r.line, r.func, f"{r.aspect}: {r.diffs[0] if r.diffs else ''}"))
    return finds, {"functions reachable": len(reach), "effect sites analysed": n}


def r_effects(ctx, args, pid):
    if pid == "C28":
        return relative_effects(ctx, ROOTS["show"] + ROOTS["lddtree"], WRITES + PROCS,
                                (PKG + "wheeltools.rewrite_record", PKG + "tools.dir2zip"))
    if pid == "C31":
        f, st = relative_effects(ctx, ROOTS["repair"] + ROOTS["show"] + ROOTS["lddtree"], PROCS)
        f2, n = shell_sites(ctx)
        st["call sites of program starters"] = n
        return f + f2, st
    return relative_effects(ctx, ROOTS["repair"], WRITES)


STARTERS = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "subprocess.getoutput",
            "subprocess.getstatusoutput", "os.system", "os.popen", "os.execv", "os.execvp", "os.spawnv", "os.spawnvp", "os.posix_spawn"}
SHELLS = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput"}


def shell_sites(ctx):
    g = ctx.graph()
    out, n = [], 0
    for f in g.funcs.values():
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call):
                continue
            q = g.resolve(f, c.func)
            if q not in STARTERS:
                continue
            n += 1
            if q in SHELLS:
                out.append((*where(f, c), f"{q} starts a shell"))
            for k in c.keywords:
                if k.arg == "shell" and not (isinstance(k.value, ast.Constant) and not k.value.value):
                    out.append((*where(f, c), f"{q} with shell={ast.unparse(k.value)}"))
            if c.args and (isinstance(c.args[0], ast.JoinedStr) or isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str)):
                out.append((*where(f, c), f"{q} with a command string instead of an argument list"))
    return out, n


# ------------------------------------------------------------------------------ stdout
def r_stdout(ctx, args, pid):
    g = ctx.graph()
    finds, st = relative_effects(ctx, ROOTS["show"], ["ev:print*", "ev:exit*"])
    reach = g.reach(ROOTS["show"] + [PKG + "main.main"], (PKG + "main_repair.execute", PKG + "main_lddtree.execute"))
    for q in sorted(reach):
        f = g.funcs[q]
        base = ctx.graph("spec").funcs.get(q)
        known = {ast.unparse(c) for c in walk_own(base.node) if isinstance(c, ast.Call)} if base else set()
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call) or ast.unparse(c) in known:
                continue
            n = g.resolve(f, c.func)
            if n in ("sys.stdout.write", "sys.__stdout__.write", "os.write") and not (n == "os.write" and c.args and ast.unparse(c.args[0]) == "2"):
                finds.append((*where(f, c), f"{n} writes to standard output"))
            if n in ("logging.basicConfig", "logging.StreamHandler") and any("stdout" in ast.unparse(a) for a in [*c.args, *[k.value for k in c.keywords]]):
                finds.append((*where(f, c), "log records go to standard output"))
    st["functions searched for writes to standard output"] = len(reach)
    return finds, st


# ------------------------------------------------------------------------------ determinism
CLOCK = {"time.time", "time.time_ns", "time.monotonic", "time.localtime", "time.gmtime", "time.ctime", "time.strftime", "datetime.datetime.now",
         "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "os.getpid", "os.getppid", "uuid.uuid1", "uuid.uuid4",
         "random.random", "random.randint", "random.choice", "random.shuffle", "random.sample", "os.urandom", "secrets.token_hex", "id", "hash",
         "os.times", "time.perf_counter", "platform.node", "socket.gethostname", "getpass.getuser", "os.getuid", "os.getlogin", "os.getcwd",
         "pathlib.Path.cwd"}
LISTING = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "iterdir", "glob", "rglob", "Path.walk"}
ORDERLESS = {"sorted", "set", "frozenset", "len", "any", "all", "sum", "max", "min", "dict"}


def nondet_sites(g, f):
    """calls whose result depends on clock, process or directory order, unless an order-insensitive consumer takes it"""
    par = {}
    for n in ast.walk(f.node):
        for ch in ast.iter_child_nodes(n):
            par[ch] = n
    out = []
    for c in ast.walk(f.node):
        if not isinstance(c, ast.Call):
            continue
        q = g.resolve(f, c.func)
        kind = None
        if q in CLOCK:
            kind = q
        elif q in LISTING or isinstance(c.func, ast.Attribute) and c.func.attr in ("iterdir", "glob", "rglob", "listdir", "scandir"):
            kind = q if q in LISTING else c.func.attr
        if kind is None:
            continue
        n, ok = c, False
        log = False
        while n in par:
            p = par[n]
            if isinstance(p, ast.Call) and n in p.args:
                if isinstance(p.func, ast.Name) and p.func.id in ORDERLESS and kind not in CLOCK:
                    ok = True
                if re.match(r"(logger|log|logging)\.", ast.unparse(p.func)):
                    log = True
            n = p
            if isinstance(p, ast.stmt):
                break
        if not ok and not log:
            out.append((kind, c))
    return out


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


def is_set_type(a):
    t = ast.unparse(a).strip("\"'")
    return re.match(r"(typing\.)?(set|frozenset|Set|FrozenSet|AbstractSet)(\[|$)", t) is not None


def set_orders(g, f):
    """iterations over sets whose order can show: for/list/join/star/comprehension over an expression that is syntactically a set"""
    out = []
    setvars, typed, setfuncs = {}, set(), set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            setvars.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            setvars.setdefault(n.target.id, []).append(n.value)
            if is_set_type(n.annotation):
                typed.add(n.target.id)
        elif isinstance(n, ast.arg) and n.annotation is not None and is_set_type(n.annotation):
            typed.add(n.arg)
        elif isinstance(n, FUNC) and n.returns is not None and is_set_type(n.returns):
            setfuncs.add(n.name)

    def is_set(e, d=0):
        if isinstance(e, ast.Name) and e.id in typed and not any(isinstance(v, ast.Call) and ast.unparse(v.func) == "sorted" for v in setvars.get(e.id, ())):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in setfuncs:
                return True
            q = g.resolve(f, e.func)
            if q in g.funcs and getattr(g.funcs[q].node, "returns", None) is not None and is_set_type(g.funcs[q].node.returns):
                return True
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference"):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return is_set(e.left, d) or is_set(e.right, d)
        if isinstance(e, ast.Name) and d < 3:
            vs = setvars.get(e.id, [])
            return bool(vs) and all(is_set(v, d + 1) for v in vs)
        return False

    parents = {c: n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if nm in ("list", "tuple", "join", "enumerate", "chain", "fromkeys") and n.args and is_set(n.args[-1]) \
                    and (nm not in ("list", "tuple", "chain") or order_shows(f.node, n, parents)):
                out.append(("set order", n))
        elif isinstance(n, (ast.ListComp,)) and is_set(n.generators[0].iter):
            if order_shows(f.node, n, parents):
                out.append(("set order", n))
        elif isinstance(n, ast.DictComp) and is_set(n.generators[0].iter):
            out.append(("set order", n))
        elif isinstance(n, ast.For) and (is_set(n.iter) or isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) in ("enumerate", "iter", "reversed")
                                         and n.iter.args and is_set(n.iter.args[0])):
            if any(ordered_writes(f.node, n)):
                out.append(("set order", n.iter))
    return out


def order_shows(fn, n, parents, depth=0):
    """the order of the elements of this expression can show in what the function does"""
    p = parents.get(n)
    if isinstance(p, ast.Starred):
        p, n = parents.get(p), p
    if isinstance(p, ast.Call):
        if isinstance(p.func, ast.Name):
            if p.func.id in ORDERLESS - {"dict", "len"} or p.func.id == "len":
                return False
            return p.func.id not in ("list", "tuple", "filter", "iter", "map") or order_shows(fn, p, parents, depth)
        return not (isinstance(p.func, ast.Attribute) and n is not p.func
                    and p.func.attr in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "intersection_update",
                                        "difference_update"))
    if isinstance(p, ast.Compare):
        return False
    if isinstance(p, (ast.UnaryOp, ast.While)) or isinstance(p, (ast.If, ast.IfExp)) and p.test is n:
        return False
    if isinstance(p, ast.For) and p.iter is n:
        return any(ordered_writes(fn, p))
    if isinstance(p, ast.comprehension) and p.iter is n:
        c = parents[p]
        return not isinstance(c, ast.SetComp) and order_shows(fn, c, parents, depth)
    if isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is n and depth < 3:
        t = p.targets[0] if isinstance(p, ast.Assign) else p.target
        if not isinstance(t, ast.Name):
            return True
        lists = {id(y) for w in ast.walk(fn) if isinstance(w, ast.While) and (m := worklist(w)) and m[0].id == t.id for y in ast.walk(w)}
        return any(isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load) and id(x) not in lists
                   and order_shows(fn, x, parents, depth + 1) for x in ast.walk(fn))
    return True


def ordered_writes(fn, loop):
    """what the loop leaves in an order that shows: list and mapping insertions, yields, output; not what is sorted afterwards"""
    after = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id in ORDERLESS - {"dict"} and x.args:
                after |= {y.id for y in ast.walk(x.args[0]) if isinstance(y, ast.Name)}
            elif isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and isinstance(x.func.value, ast.Name):
                after.add(x.func.value.id)
    inner = set()
    for x in ast.walk(loop):
        if isinstance(x, (ast.Assign, ast.AnnAssign)):
            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                if isinstance(t, ast.Name):
                    inner.add(t.id)

    def base(e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None
    for st in loop.body:
        for x in ast.walk(st):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                yield "yield"
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                o = base(x.func.value)
                if x.func.attr in ("append", "extend", "insert", "appendleft") and o is not None and o not in after | inner:
                    yield "list insertion"
                elif x.func.attr in ("write", "writestr", "writerow", "writelines"):
                    yield "output"
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript):
                o = base(x.targets[0])
                if o is not None and o not in after | inner and base(x.targets[0].slice) in {y.id for y in ast.walk(loop.target) if isinstance(y, ast.Name)}:
                    yield "mapping insertion"


OUTPUT_FUNCS = ("repair.", "sboms.", "wheeltools.", "tools.", "patcher.", "hashfile.", "main_show._output_json", "json.", "policy.",
                "wheel_abi.", "lddtree.", "elfutils.", "condatools.", "main_repair.", "main_show.", "_vendor.", "libc.", "architecture.", "tmpdirs.")


def r_determinism(ctx, args, pid):
    g, h = ctx.graph(), ctx.graph("spec")
    reach = g.reach(ROOTS["repair"] + ROOTS["show"])
    base = {}
    for f in h.funcs.values():
        for kind, c in nondet_sites(h, f) + set_orders(h, f):
            base[kind] = base.get(kind, 0) + 1
    found = {}
    for q in sorted(reach):
        f = g.funcs[q]
        for kind, c in nondet_sites(g, f) + set_orders(g, f):
            found.setdefault(kind, []).append((f, c))
    out = []
    n = 0
    base_by = {}
    for f in h.funcs.values():
        for kind, c in nondet_sites(h, f) + set_orders(h, f):
            base_by.setdefault(kind, []).append((f.qual, ast.unparse(c)))
    for kind, sites in found.items():
        n += len(sites)
        extra = len(sites) - base.get(kind, 0)
        if extra <= 0:
            continue
        known = list(base_by.get(kind, []))
        rest = []
        for f, c in sites:
            k = (f.qual, ast.unparse(c))
            if k in known:
                known.remove(k)
            else:
                rest.append((f, c))
        for f, c in rest[:extra] if len(rest) >= extra else rest:
            out.append((*where(f, c), f"{kind}: {ast.unparse(c)[:80]} depends on the clock, the process, a hash seed or the order of a directory or set"))
    return out, {"functions reachable from repair and show": len(reach), "non-deterministic sources found": n,
                 "of these in the contract (argued in DESIGN.md)": sum(base.values())}


# ------------------------------------------------------------------------------ state between calls
CACHES = {"functools.lru_cache", "functools.cache", "functools.cached_property", "lru_cache", "cache"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "add", "discard", "setdefault", "popitem",
            "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "appendleft", "popleft"}
SHALLOW = {"list", "dict", "set", "tuple", "frozenset", "sorted", "reversed", "defaultdict", "OrderedDict"}
AL, SH, CLEAN = 0, 1, 4     # depth at which a value is shared with a cached result (0: itself, 1: its elements, ...)


def cached(g, f):
    for d in getattr(f.node, "decorator_list", []):
        e = d.func if isinstance(d, ast.Call) else d
        if g.resolve(f, e) in CACHES:
            return True
    return False


def resolve_calls(g, f, c):
    """project functions a call may reach (qualified names)"""
    q = g.resolve(f, c.func)
    if q and q.startswith(PKG):
        r = g.p.resolve(q)
        if r and r[0] == "func":
            return [r[1].qual]
    if isinstance(c.func, ast.Attribute):
        if isinstance(c.func.value, ast.Name) and c.func.value.id in ("self", "cls") and f.cls is not None and c.func.attr in f.cls.methods:
            return [f.cls.methods[c.func.attr].qual]
        return g.by_name.get(c.func.attr, []) if c.func.attr not in MUTATORS | {"get", "copy", "keys", "values", "items"} else []
    if isinstance(c.func, ast.Name):
        # nested function
        for x in g.funcs:
            if x.startswith(f.qual + ".<locals>.") and x.rpartition(".")[2] == c.func.id:
                return [x]
    return []


IMMUTABLE_TYPES = {"Path", "str", "int", "bool", "NoneType", "bytes", "float", "frozenset", "tuple", "type(None)", "Policy", "Libc", "Architecture"}


def narrowed(f):
    """{node: names known to be immutable there} from isinstance tests"""
    out = {}

    def names(t):
        if isinstance(t, ast.Call) and ast.unparse(t.func) == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            ty = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
            if all(ast.unparse(x).rpartition(".")[2] in IMMUTABLE_TYPES for x in ty):
                return {t.args[0].id}
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            return set().union(*[names(x) for x in t.values])
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and isinstance(t.ops[0], ast.Is) and ast.unparse(t.comparators[0]) == "None":
            return {t.left.id}
        return set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.If):
            k = names(n.test)
            if k:
                for b in n.body:
                    for x in ast.walk(b):
                        out[x] = out.get(x, set()) | k
    return out


def alias_analysis(g):
    """flow-insensitive, interprocedural: which variables may share structure with a cached result, and how deep"""
    cset = {q for q, f in g.funcs.items() if cached(g, f)}
    var, retn = {}, {}
    findings = {}
    changed = True
    rounds = 0
    nar = {q: narrowed(f) for q, f in g.funcs.items()}
    frozen = set()          # attributes holding a frozen record: shared wherever they are read, immutable themselves
    fz = {c.name for m in g.p.modules.values() for c in m.classes.values() if (deco_opts(c) or {}).get("frozen")}
    for m in g.p.modules.values():
        for c in m.classes.values():
            for k, a in c.fields.items():
                if ast.unparse(a) in fz:
                    frozen.add(k)

    def worst(xs):
        return min([*xs, CLEAN])

    def up(d):
        return min(d + 1, CLEAN)

    def down(d):
        return d if d == CLEAN else max(d - 1, AL)

    def val(f, e):
        if e is None:
            return CLEAN
        if isinstance(e, ast.Name):
            if e.id in nar[f.qual].get(e, ()):
                return CLEAN
            return var.get((f.qual, e.id), CLEAN)
        if isinstance(e, ast.Attribute):
            if e.attr in frozen and cset:
                return AL
            return down(val(f, e.value))
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return max(val(f, e.value), SH)
            return down(val(f, e.value))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in SHALLOW:
                return worst(max(val(f, a), SH) for a in e.args)
            if isinstance(e.func, ast.Attribute):
                if e.func.attr == "copy":
                    return max(val(f, e.func.value), SH)
                if e.func.attr in ("get", "pop", "setdefault", "popitem"):
                    return worst([down(val(f, e.func.value)), *[val(f, a) for a in e.args[1:]]])
                if e.func.attr in ("values", "items", "keys"):
                    return max(val(f, e.func.value), SH)
                if e.func.attr in ("deepcopy", "join", "format", "split", "strip"):
                    return CLEAN
            if ast.unparse(e.func) in ("copy.copy", "dataclasses.replace", "replace", "itertools.chain", "chain"):
                return worst(max(val(f, a), SH) for a in [*e.args, *[k.value for k in e.keywords]])
            q = g.resolve(f, e.func)
            r = g.p.resolve(q) if q and q.startswith(PKG) else None
            if r and r[0] == "class":
                ci = r[1]
                fl = list(ci.fields)
                ds = [val(f, a) for i, a in enumerate(e.args) if not (i < len(fl) and fl[i] in frozen)]
                ds += [val(f, k.value) for k in e.keywords if k.arg not in frozen]
                return up(worst(ds))
            out = CLEAN
            for q in resolve_calls(g, f, e):
                if q in cset:
                    out = AL
                out = min(out, retn.get(q, CLEAN))
            return out
        if isinstance(e, ast.IfExp):
            return min(val(f, e.body), val(f, e.orelse))
        if isinstance(e, ast.BoolOp):
            return worst(val(f, x) for x in e.values)
        if isinstance(e, ast.NamedExpr):
            return val(f, e.value)
        if isinstance(e, ast.BinOp):
            return max(min(val(f, e.left), val(f, e.right)), SH)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return worst(max(val(f, x.value), SH) if isinstance(x, ast.Starred) else up(val(f, x)) for x in e.elts)
        if isinstance(e, ast.Dict):
            return worst(up(val(f, x)) if k is not None else max(val(f, x), SH) for k, x in zip(e.keys, e.values))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return up(val(f, e.elt))
        if isinstance(e, ast.DictComp):
            return up(val(f, e.value))
        if isinstance(e, ast.Starred):
            return val(f, e.value)
        return CLEAN

    def put(f, t, v):
        nonlocal changed
        if isinstance(t, ast.Name):
            k = (f.qual, t.id)
            if v < var.get(k, CLEAN):
                var[k] = v
                changed = True
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                put(f, x, down(v))
        elif isinstance(t, ast.Starred):
            put(f, t.value, v)
        elif isinstance(t, (ast.Subscript, ast.Attribute)) and v < CLEAN:
            put(f, t.value, up(v))

    def mutated(f, e, n, how):
        if val(f, e) == AL:
            findings[(f.qual, n.lineno, ast.unparse(e))] = (*where(f, n), f"{how} changes {ast.unparse(e)[:60]}, which may be part of a cached result")

    while changed and rounds < 30:
        changed = False
        rounds += 1
        for f in g.funcs.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        put(f, t, val(f, n.value))
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    put(f, n.target, val(f, n.value))
                elif isinstance(n, ast.NamedExpr):
                    put(f, n.target, val(f, n.value))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    it = n.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2:
                        put(f, n.target.elts[1], down(val(f, it.func.value)))
                        continue
                    put(f, n.target, down(val(f, it)))
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    put(f, n.optional_vars, val(f, n.context_expr))
                elif isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None:
                    v = val(f, n.value)
                    if isinstance(n, ast.Yield):
                        v = up(v)
                    if v < retn.get(f.qual, CLEAN):
                        retn[f.qual] = v
                        changed = True
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and n.args:
                        if n.func.attr in ("append", "add", "insert", "appendleft", "setdefault"):
                            v = up(val(f, n.args[-1]))
                            if v < CLEAN and isinstance(n.func.value, (ast.Name, ast.Subscript, ast.Attribute)):
                                put(f, n.func.value, v)
                        if n.func.attr in ("extend", "update"):
                            v = max(val(f, n.args[0]), SH)
                            if v < CLEAN and isinstance(n.func.value, (ast.Name, ast.Subscript, ast.Attribute)):
                                put(f, n.func.value, v)
                    for q in resolve_calls(g, f, n):
                        h = g.funcs[q]
                        pos, va, kwo, kw = h.params
                        if h.cls is not None and not h.is_static and pos and isinstance(n.func, ast.Attribute):
                            pos = pos[1:]
                        for i, a in enumerate(n.args):
                            if i < len(pos):
                                put(h, ast.Name(pos[i]), val(f, a))
                        for k in n.keywords:
                            if k.arg:
                                put(h, ast.Name(k.arg), val(f, k.value))
    for f in g.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.AugAssign):
                t = n.target
                if isinstance(t, ast.Name):
                    if not isinstance(n.value, (ast.Constant, ast.JoinedStr)) and isinstance(n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                        mutated(f, t, n, "augmented assignment")
                elif isinstance(t, (ast.Subscript, ast.Attribute)):
                    mutated(f, t.value, n, "augmented assignment")
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for x in ast.walk(t):
                        if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                            mutated(f, x.value, n, "assignment")
            elif isinstance(n, ast.Delete):
                for x in n.targets:
                    if isinstance(x, ast.Subscript):
                        mutated(f, x.value, n, "del")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                mutated(f, n.func.value, n, f".{n.func.attr}()")
    return cset, findings, {k: v for k, v in var.items() if v < CLEAN}


def mutable_display(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(e, ast.Call) and \
        ast.unparse(e.func).rpartition(".")[2] in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "bytearray", "WeakValueDictionary", "ChainMap")


def global_state(g):
    """(module variable or class attribute, how it is changed by which function)"""
    out = []
    for f in g.funcs.values():
        local = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs} if not isinstance(f.node, ast.Lambda) else set()
        if not isinstance(f.node, ast.Lambda):
            for v in (f.node.args.vararg, f.node.args.kwarg):
                if v:
                    local.add(v.arg)
        gl = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Global):
                gl |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                local.add(n.id)
        local -= gl
        # enclosing functions' locals
        outer = set()
        if ".<locals>." in f.qual:
            parent = g.funcs.get(f.qual.rpartition(".<locals>.")[0])
            if parent:
                outer = {n.id for n in ast.walk(parent.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
                    {a.arg for a in ast.walk(parent.node) if isinstance(a, ast.arg)}

        def root(e):
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                e = e.value
            return e

        def is_global(e):
            """name of the long-lived object the expression denotes, or None"""
            r = root(e)
            if not isinstance(r, ast.Name):
                return None
            if r.id in local or r.id in outer:
                if r.id == "cls" and isinstance(e, ast.Attribute):
                    return f"{f.cls.qual if f.cls else f.module.name}.{e.attr}"
                if r.id == "self" and isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and e.attr in f.cls.consts \
                        and mutable_display(f.cls.consts[e.attr]) and not assigned_in_init(f.cls, e.attr):
                    return f"{f.cls.qual}.{e.attr}"
                return None
            q = g.resolve(f, r)
            if r.id in f.module.globals or r.id in gl or r.id in f.module.classes or r.id in f.module.funcs:
                return f"{f.module.name}.{r.id}" + (f".{e.attr}" if isinstance(e, ast.Attribute) else "")
            if q and q.startswith(PKG):
                return q
            if q == "os" and isinstance(e, ast.Attribute) and e.attr == "environ" or isinstance(e, ast.Subscript) and ast.unparse(e.value) == "os.environ":
                return "os.environ"
            return None

        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in gl:
                out.append((f"{f.module.name}.{n.id}", f, n, "global assignment"))
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                q = is_global(n.value) if isinstance(n, ast.Subscript) else is_global(n.value)
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "cls" and "cls" in local:
                    q = f"{f.cls.qual if f.cls else ''}.{n.attr}"
                if q:
                    out.append((q, f, n, "store"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                q = is_global(n.func.value)
                if q:
                    out.append((q, f, n, f".{n.func.attr}()"))
        # mutable defaults
        if not isinstance(f.node, ast.Lambda):
            a = f.node.args
            named = a.posonlyargs + a.args
            for p, d in [*zip(named[len(named) - len(a.defaults):], a.defaults), *[(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]]:
                if not mutable_display(d):
                    continue
                for n in ast.walk(f.node):
                    bad = None
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and ast.unparse(n.func.value) == p.arg:
                        bad = n
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and ast.unparse(n.value) == p.arg:
                        bad = n
                    elif isinstance(n, ast.AugAssign) and ast.unparse(n.target) == p.arg:
                        bad = n
                    elif isinstance(n, (ast.Return, ast.Assign)) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id == p.arg:
                        bad = n
                    elif isinstance(n, ast.Call) and any(isinstance(x, ast.Name) and x.id == p.arg for x in [*n.args, *[k.value for k in n.keywords]]) \
                            and resolve_calls(g, f, n):
                        bad = n
                    if bad is not None:
                        out.append((f"{f.qual}({p.arg}=...)", f, bad, "mutable default is shared between calls and changed or handed out"))
                        break
    return out


def assigned_in_init(c, attr):
    i = c.methods.get("__init__")
    return i is not None and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr for n in ast.walk(i.node))


IMPURE = {"open", "os.environ.get", "os.getenv", "os.stat", "os.listdir", "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.realpath",
          "os.readlink", "os.scandir", "os.walk", "os.getcwd"} | STARTERS
IMPURE_M = {"read_text", "read_bytes", "exists", "is_file", "is_dir", "resolve", "stat", "glob", "rglob", "iterdir", "open", "readlink", "is_symlink",
            "absolute", "write_text", "write_bytes", "unlink", "mkdir"}
IMMUTABLE = {"str", "int", "bool", "float", "bytes", "None", "Path", "Architecture", "Libc", "LibcVersion", "re.Pattern[str]"}


def immutable_annotation(a):
    if a is None:
        return False
    if isinstance(a, ast.Constant):
        return a.value is None or str(a.value) in IMMUTABLE
    if isinstance(a, ast.BinOp):
        return immutable_annotation(a.left) and immutable_annotation(a.right)
    if isinstance(a, ast.Subscript):
        b = ast.unparse(a.value).rpartition(".")[2]
        el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        return b in ("tuple", "Tuple", "frozenset", "FrozenSet", "Optional", "Union") and all(immutable_annotation(x) or isinstance(x, ast.Constant) and x.value is ... for x in el)
    return ast.unparse(a).rpartition(".")[2] in IMMUTABLE


def impure(g, q):
    for r in g.reach([q]):
        f = g.funcs[r]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if g.resolve(f, n.func) in IMPURE or isinstance(n.func, ast.Attribute) and n.func.attr in IMPURE_M:
                    return f"{f.qual}:{n.lineno} {ast.unparse(n.func)}"
            if isinstance(n, ast.Attribute) and ast.unparse(n) in ("os.environ", "sys.argv"):
                return f"{f.qual}:{n.lineno} {ast.unparse(n)}"
    return None


def option_mutations(g):
    """in-place changes of attributes of the parsed options"""
    for f in g.funcs.values():
        a = getattr(f.node, "args", None)
        if not isinstance(a, ast.arguments):
            continue
        ns = {x.arg for x in a.args + a.kwonlyargs if x.annotation is not None and ast.unparse(x.annotation).rpartition(".")[2] == "Namespace" or x.arg == "args"}
        if not ns:
            continue

        def is_opt(e):
            return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ns or isinstance(e, ast.Name) and e.id in al
        al = set()
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and is_opt(n.value):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Name):
                            al.add(t.id)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and is_opt(n.func.value):
                yield f, n, ast.unparse(n)[:80]
            elif isinstance(n, ast.AugAssign) and is_opt(n.target) and not isinstance(n.value, ast.Constant) \
                    and isinstance(n.value, (ast.List, ast.ListComp, ast.Call)) and isinstance(n.op, ast.Add) and (
                        not isinstance(n.value, ast.Call) or ast.unparse(n.value.func) == "list" or ast.unparse(n.value).endswith((".split()",))):
                yield f, n, ast.unparse(n)[:80]
            elif isinstance(n, (ast.Assign, ast.Delete)):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and is_opt(t.value):
                        yield f, n, ast.unparse(n)[:80]


def r_state(ctx, args, pid):
    g, h = ctx.graph(), ctx.graph("spec")
    out = []
    cset, finds, tainted = alias_analysis(g)
    out += finds.values()
    known = {q for q, f in h.funcs.items() if cached(h, f)}
    for q in sorted(cset - known):
        f = g.funcs[q]
        why = impure(g, q)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            out.append((*where(f), "the result is kept for later calls but is a generator: it is exhausted after its first use"))
        elif why:
            out.append((*where(f), f"the result is kept for later calls but depends on more than the arguments ({why})"))
    base = {(q, f.qual) for q, f, _, _ in global_state(h)}
    names = {q for q, _ in base}
    sites = global_state(g)
    for q, f, n, how in sites:
        if q not in names:
            out.append((*where(f, n), f"{how} keeps state in {q} after the call"))
    for f, n, t in option_mutations(g):
        out.append((*where(f, n), f"{t} changes an option value in place; when the option is not given that is the parser's default, kept for later runs"))
    if args:
        out = [x for x in out if any(x[2].startswith(PKG + a) for a in args)]
    return out, {"cached functions": sorted(cset), "variables that may share a cached result": len(tainted),
                 "functions searched": len(g.funcs), "stores to long-lived objects": len(sites)}


# ------------------------------------------------------------------------------ class definitions
DUNDERS = {"__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "__hash__", "__bool__", "__len__", "__contains__", "__iter__", "__getattr__",
           "__getattribute__", "__setattr__", "__new__", "__post_init__", "__init__", "__enter__", "__exit__", "__call__", "_missing_", "__getitem__",
           "__del__", "__init_subclass__", "__class_getitem__", "__copy__", "__deepcopy__", "__fspath__"}


def lit(e):
    try:
        return True, ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        return False, ast.unparse(e) if e is not None else None


def deco_opts(c):
    for d in c.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        if ast.unparse(e).rpartition(".")[2] == "dataclass":
            return {k.arg: lit(k.value)[1] for k in d.keywords} if isinstance(d, ast.Call) else {}
    return None


def r_class(ctx, args, pid):
    q = PKG + args[0]
    a, z = ctx.code.resolve(q), ctx.spec.resolve(q)
    if not z or z[0] != "class":
        return [], {"class " + args[0]: "not in the contract"}
    if not a or a[0] != "class":
        return [], {"class " + args[0]: "not present in the code: not decided"}
    c, s = a[1], z[1]
    at = (str(c.module.path), c.node.lineno, q)
    out = []
    if c.is_enum and s.is_enum:
        cm = [(k, lit(v)) for k, v in c.consts.items()]
        sm = [(k, lit(v)) for k, v in s.consts.items()]
        if [k for k, _ in cm] != [k for k, _ in sm]:
            out.append((*at, f"members (their order is meaningful): {[k for k, _ in cm]} instead of {[k for k, _ in sm]}"))
        else:
            for (k, (l1, v1)), (_, (l2, v2)) in zip(cm, sm):
                if l1 and l2 and v1 != v2:
                    out.append((*at, f"value of {k}: {v1!r} instead of {v2!r}"))
    elif not c.is_enum and s.is_enum:
        pass
    co, so = deco_opts(c), deco_opts(s)
    if co is not None and so is not None:
        for k in ("order", "eq", "unsafe_hash"):
            if bool(co.get(k, k == "eq")) != bool(so.get(k, k == "eq")):
                out.append((*at, f"dataclass option {k}={co.get(k)} instead of {so.get(k)}"))
        if so.get("order") and list(c.fields) != list(s.fields):
            out.append((*at, f"order of fields decides comparison: {list(c.fields)} instead of {list(s.fields)}"))
    for k in set(c.consts) & set(s.consts):
        if not s.is_enum:
            l1, v1 = lit(c.consts[k])
            l2, v2 = lit(s.consts[k])
            if l1 and l2 and (v1 != v2 or type(v1) is not type(v2)):
                out.append((*at, f"default of {k}: {v1!r} instead of {v2!r}"))
    cd, sd = {m for m in c.methods if m in DUNDERS}, {m for m in s.methods if m in DUNDERS}
    for m in sorted(cd - sd - {"__init__", "__post_init__"}):
        out.append((str(c.module.path), c.methods[m].node.lineno, c.methods[m].qual, f"{m} added: the meaning of built-in operations on {args[0]} changes"))
    if [x for x in c.bases] and s.bases and c.is_enum == s.is_enum:
        n1, n2 = sorted(ast.unparse(b).rpartition(".")[2] for b in c.bases), sorted(ast.unparse(b).rpartition(".")[2] for b in s.bases)
        if n1 != n2 and ("Exception" in n2 or any(x.endswith("Error") for x in n2)):
            out.append((*at, f"base classes {n1} instead of {n2}: handlers of the contract's bases no longer apply"))
    return out, {"class " + args[0]: f"{len(c.consts)} constants, {len(c.fields)} fields, {len(c.methods)} methods"}


# ------------------------------------------------------------------------------ entry points
def r_entry(ctx, args, pid):
    m = ctx.code.modules.get("auditwheel.__main__")
    if m is None:
        return [], {"__main__": "missing"}
    g = ctx.graph()
    calls = []
    par = {}
    for n in ast.walk(m.tree):
        for ch in ast.iter_child_nodes(n):
            par[ch] = n

    class FakeF:
        module, qual, cls = m, "auditwheel.__main__", None
        node = m.tree
    out = []
    ok = 0
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and g.resolve(FakeF, n.func) == "auditwheel.main.main":
            p = par.get(n)
            if isinstance(p, ast.Call) and g.resolve(FakeF, p.func) in ("sys.exit", "SystemExit", "os._exit", "exit"):
                ok += 1
            elif isinstance(p, ast.Expr):
                out.append((str(m.path), n.lineno, "auditwheel.__main__", "the result of main() is dropped: the exit status is always 0"))
            calls.append(n)
    return out, {"calls of main() in __main__": len(calls), "passed to sys.exit": ok}


# ------------------------------------------------------------------------------ contexts and temporary files
def r_cleanup(ctx, args, pid):
    g = ctx.graph()
    ctxcls = set()
    for m in ctx.code.modules.values():
        for c in m.classes.values():
            if ctx.code.find_method(c, "__exit__") is not None:
                ctxcls.add(c.qual)
    makers = {PKG + "genericpkgctx.InGenericPkgCtx"}
    out, n = [], 0
    base = {}
    for f in ctx.graph("spec").funcs.values():
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call):
                q = ctx.graph("spec").resolve(f, c.func)
                if q in LEAKY:
                    base[f.qual] = base.get(f.qual, 0) + 1
    for f in g.funcs.values():
        par = {}
        for x in ast.walk(f.node):
            for ch in ast.iter_child_nodes(x):
                par[ch] = x
        entered = {ast.unparse(i.context_expr) for x in ast.walk(f.node) if isinstance(x, (ast.With, ast.AsyncWith)) for i in x.items}
        here = 0
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call):
                continue
            q = g.resolve(f, c.func)
            r = g.p.resolve(q) if q and q.startswith(PKG) else None
            rq = r[1].qual if r and r[0] in ("class", "func") else q
            if rq in ctxcls or rq in makers:
                n += 1
                p = par.get(c)
                if isinstance(p, ast.withitem) or isinstance(p, ast.Return):
                    continue
                if isinstance(p, ast.IfExp) and isinstance(par.get(p), (ast.withitem, ast.Return)):
                    continue
                if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "enter_context":
                    continue
                if isinstance(p, (ast.Assign, ast.AnnAssign)):
                    t = p.targets[0] if isinstance(p, ast.Assign) else p.target
                    nm = ast.unparse(t)
                    if nm in entered or any(isinstance(x, ast.Return) and x.value is not None and ast.unparse(x.value) == nm for x in ast.walk(f.node)) \
                            or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "enter_context" and nm in map(ast.unparse, x.args) for x in ast.walk(f.node)):
                        continue
                    used = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and ast.unparse(x.value) == nm and x.attr == "__exit__"]
                    tr = [x for x in ast.walk(f.node) if isinstance(x, ast.Try) and any(u in set(ast.walk(y)) for y in x.finalbody for u in used)]
                    if tr:
                        continue
                    out.append((*where(f, c), f"{ast.unparse(c)[:60]} is not used as a context manager: the directory is not restored and removed when something fails"))
                elif isinstance(p, (ast.Expr, ast.Attribute)):
                    out.append((*where(f, c), f"{ast.unparse(c)[:60]} is not used as a context manager"))
            if q in LEAKY:
                here += 1
                if here > base.get(f.qual, 0):
                    p = par.get(c)
                    if isinstance(p, ast.withitem):
                        continue
                    out.append((*where(f, c), f"{q} outside a context that undoes it"))
    return out, {"context manager classes": sorted(x.rpartition(".")[2] for x in ctxcls), "constructions checked": n}


LEAKY = {"tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.NamedTemporaryFile", "os.chdir", "tempfile.TemporaryDirectory"}


# ------------------------------------------------------------------------------ policy tables
def r_tables(ctx, args, pid):
    out = []
    n = 0
    st = {}
    for fn in sorted((ctx.code.root / "src" / "auditwheel" / "policy").glob("*-policy.json")):
        try:
            t = json.loads(fn.read_text())
        except ValueError as e:
            out.append((str(fn), 1, fn.name, f"not JSON: {e}"))
            continue
        text = fn.read_text().splitlines()

        def at(name):
            for i, line in enumerate(text, 1):
                if f'"name": "{name}"' in line:
                    return i
            return 1

        def bad(name, msg):
            out.append((str(fn), at(name), name, msg))
        names = [p["name"] for p in t]
        prio = [p["priority"] for p in t]
        allnames = names + [a for p in t for a in p["aliases"]]
        for p in t:
            n += 1
            if allnames.count(p["name"]) > 1:
                bad(p["name"], "name used more than once")
            for a in p["aliases"]:
                if allnames.count(a) > 1:
                    bad(p["name"], f"alias {a} is ambiguous")
            if prio.count(p["priority"]) > 1:
                bad(p["name"], f"priority {p['priority']} used more than once")
            if p["name"] == "linux":
                if p["priority"] != min(prio) or p["lib_whitelist"] or p["symbol_versions"] or p["blacklist"] or p["aliases"]:
                    bad("linux", "the generic tag has to be the lowest one and to accept nothing")
            elif p["priority"] <= 0:
                bad(p["name"], "not above the generic tag")
            for lib in p["blacklist"]:
                if lib not in p["lib_whitelist"]:
                    bad(p["name"], f"black-listed symbols for {lib}, which is not white-listed")
            if len(set(p["lib_whitelist"])) != len(p["lib_whitelist"]):
                bad(p["name"], "library listed twice")
            for a in p["symbol_versions"]:
                ctx_arch = ctx.code.resolve(PKG + "architecture.Architecture")
                if ctx_arch and a not in {lit(v)[1] for v in ctx_arch[1].consts.values()}:
                    bad(p["name"], f"unknown architecture {a}")
        if "linux" not in names:
            out.append((str(fn), 1, fn.name, "no generic tag"))
        # a tag with a lower version in its name is older, hence better
        ver = {}
        for p in t:
            m = re.match(r"^[a-z]+_(\d+)(?:_(\d+))?$", p["name"])
            if m:
                ver[p["name"]] = (int(m[1]), int(m[2] or 0))
        ps = sorted((p for p in t if p["name"] in ver), key=lambda p: ver[p["name"]])
        for p, q in zip(ps, ps[1:]):
            if not p["priority"] > q["priority"]:
                bad(q["name"], f"priority {q['priority']} is not below the one of the older {p['name']} ({p['priority']})")
            miss = set(p["lib_whitelist"]) - set(q["lib_whitelist"])
            if miss:
                bad(q["name"], f"does not accept {sorted(miss)} accepted by {p['name']}")
        for i, p in enumerate(ps):
            for q in ps[i + 1:]:
                for a, fam in p["symbol_versions"].items():
                    for k, vs in fam.items():
                        if a in q["symbol_versions"] and k in q["symbol_versions"][a]:
                            miss = set(vs) - set(q["symbol_versions"][a][k])
                            if miss:
                                bad(q["name"], f"{a}: does not accept {k} {sorted(miss)} accepted by {p['name']}")
                        elif a in q["symbol_versions"] and k not in q["symbol_versions"][a] and False:
                            bad(q["name"], f"{a}: family {k} of {p['name']} missing")
        if fn.name.startswith("manylinux"):
            for p in ps:
                for a, fam in p["symbol_versions"].items():
                    if "GLIBC" not in fam:
                        bad(p["name"], f"{a}: no GLIBC versions listed, every one would be accepted")
        st[fn.name] = len(t)
    return out, {"policy entries checked": n, **st}


# ------------------------------------------------------------------------------ iteration
RESIZE = {"add", "discard", "remove", "pop", "popitem", "clear", "update", "difference_update", "intersection_update", "symmetric_difference_update"}


def leaves_after(block, i):
    """the statements after block[i] leave the loop on every path"""
    return any(isinstance(s, (ast.Break, ast.Return, ast.Raise)) for s in block[i:])


def resized_while_iterated(fnode):
    """(loop, mutation, name): a loop runs directly over a set or dict (or list, for removals) that its own body resizes"""
    binds, alias = {}, {}
    for n in walk_own(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            binds[n.id] = binds.get(n.id, 0) + 1
    for n in walk_own(fnode):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if binds.get(n.targets[0].id) == 1:
                alias[n.targets[0].id] = n.value.id

    def root(name):
        seen = set()
        while name in alias and name not in seen:
            seen.add(name)
            name = alias[name]
        return name

    def source(e):
        if isinstance(e, ast.Call) and not e.keywords:
            if isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "iter", "reversed") and e.args:
                return source(e.args[0])
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "values", "items") and not e.args:
                return source(e.func.value)
            return None
        if isinstance(e, ast.Name):
            return root(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return f"{e.value.id}.{e.attr}"
        return None

    def hits(block, src, out):
        for i, s in enumerate(block):
            subs = [getattr(s, k, None) for k in ("body", "orelse", "finalbody")]
            if isinstance(s, ast.Try):
                subs += [h.body for h in s.handlers]
            if isinstance(s, ast.Match):
                subs += [c.body for c in s.cases]
            for b in subs:
                if isinstance(b, list) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if not leaves_after(block, i + 1):
                        hits(b, src, out)
            if leaves_after(block, i):
                continue
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == src for t in s.targets):
                return          # from here on the name is another object
            if isinstance(s, ast.Delete):
                for t in s.targets:
                    if isinstance(t, ast.Subscript) and source(t.value) == src:
                        out.append(s)
            e = getattr(s, "value", None) if isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign)) else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in RESIZE and source(e.func.value) == src:
                out.append(s)

    out = []
    for n in walk_own(fnode):
        if isinstance(n, (ast.For, ast.AsyncFor)):
            src = source(n.iter)
            if src is None:
                continue
            found = []
            hits(n.body, src, found)
            out += [(n, m, src) for m in found]
    return out


def r_iterate(ctx, args, pid):
    """no loop resizes the collection it runs over (the iteration fails or skips elements)"""
    out, loops, fs = [], 0, 0
    have = {}
    for f in ctx.spec.all_functions():
        have[f.qual] = len(resized_while_iterated(f.node))
    for f in ctx.code.all_functions():
        if not any(fnmatchcase(f.qual, PKG + a) for a in args):
            continue
        fs += 1
        loops += sum(isinstance(n, ast.For) for n in walk_own(f.node))
        found = resized_while_iterated(f.node)
        if len(found) > have.get(f.qual, 0):
            for lp, m, src in found:
                out.append((*where(f, m), f"`{ast.unparse(m)[:80]}` resizes `{src}` while the loop of line {lp.lineno} runs over it"))
    return out, {"functions searched for loops that resize what they run over": fs, "loops": loops}


RULES = {"iterate": r_iterate, "class": r_class, "effects": r_effects, "stdout": r_stdout, "determinism": r_determinism, "state": r_state, "entry": r_entry,
         "cleanup": r_cleanup, "tables": r_tables}


def run(ctx, name, args, pid):
    return RULES[name](ctx, args, pid)
