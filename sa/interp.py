"""Abstract interpreter: evaluates function bodies over normalised terms.

Join-based (no path enumeration).  Every function gives a Summary: returned
term, guarded raises, guarded effect events, heap writes.
"""
from __future__ import annotations

import ast
import sys

from . import simp
from .simp import (
    agg, coll, concat, ent, eq, exists, exists_all, getattr_, getitem, identity_of, in_, isnone, join_path, le, lt, skey,
    strip_as, truth, with_kind,
)
from .project import ClassInfo, FuncInfo, Project, imports_from, walk_own
from .terms import (
    BOOLT, F, FALSE, NONE, STRT, T, TRUE, And, Node, Not, Or, Term, _ATOM_IX, as_bool, atom, b, bite, const, contains, is_const, ite, leaves, mk,
    given, quant, restrict, simplify, subst_atoms, subterms, support,
)
from .typing_ import parse_type, strip_opt, union

sys.setrecursionlimit(20000)

COSTATE = True
PATHLIKE_ATTRS = {"name", "parent", "stem", "suffix", "parts", "parents", "anchor", "suffixes"}


def always_raises(body):
    """every path through the statements ends in an exception (or in the process's end)"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "os._exit", "p.error", "parser.error"):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
        if isinstance(s, ast.Try) and (always_raises(s.finalbody) or always_raises(s.body) and all(always_raises(h.body) for h in s.handlers)):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


class Event:
    __slots__ = ("kind", "args", "guard", "loops", "seq", "file", "line", "func", "result", "fin", "handler", "caught")

    def __init__(self, kind, args, guard, loops, seq, file, line, func, result, fin, handler, caught):
        self.kind, self.args, self.guard, self.loops, self.seq = kind, args, guard, loops, seq
        self.file, self.line, self.func, self.result, self.fin, self.handler = file, line, func, result, fin, handler
        self.caught = caught

    def arg(self, name):
        for n, v in self.args:
            if n == name:
                return v
        return None

    def __repr__(self):
        return f"<{self.kind}({', '.join(f'{n}={v}' for n, v in self.args)}) if {self.guard} in {list(self.loops)} @{self.func}:{self.line}>"


def worklist(s):
    """(pending, noted, element, set of the next elements) of a loop over what is still to be done"""
    t = s.test
    if isinstance(t, ast.Compare) and isinstance(t.left, ast.Call) and len(t.left.args) == 1 and ast.unparse(t).endswith((" > 0", " != 0", " >= 1")):
        t = t.left.args[0]
    if not isinstance(t, ast.Name) or s.orelse or len(s.body) < 2:
        return None
    pend, b = t.id, list(s.body)
    a = b.pop(0)
    if not (isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name)
            and ast.unparse(a.value) in (f"{pend}.pop()", f"{pend}.popleft()", f"{pend}.pop(0)")):
        return None
    x = a.targets[0]
    known, noted = False, None

    def isin(e):
        return isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Name) and e

    def absent(e, d):
        """`d not in noted`"""
        return isin(e) and isinstance(e.ops[0], ast.NotIn) and ast.unparse(e.left) == d and e.comparators[0].id == noted

    def split(tests, d):
        """the other conditions"""
        nonlocal known
        out = []
        for e in tests:
            for v in e.values if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) else [e]:
                if absent(v, d):
                    known = True
                else:
                    out.append(v)
        return out

    if len(b) > 1 and isinstance(b[0], ast.If) and len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Continue) and not b[0].orelse:
        e = isin(b[0].test)
        if e is False or not isinstance(e.ops[0], ast.In) or ast.unparse(e.left) != x.id:
            return None
        noted, known = e.comparators[0].id, True
        b.pop(0)

    def call(n, *names):
        """(object, argument) of `object.name(argument)`"""
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in names \
                and isinstance(n.value.func.value, ast.Name) and len(n.value.args) == 1 and not n.value.keywords:
            return n.value.func.value.id, n.value.args[0]
        return None

    pushed = False
    if len(b) == 1 and noted is None and isinstance(b[0], ast.For) and isinstance(b[0].target, ast.Name) and not b[0].orelse:
        # elements are noted when they are put in
        pushed, f = True, b[0]
        d, body = f.target.id, f.body
        marks = [c for n in ast.walk(f) if (c := call(n, "add")) and c[0] != pend and ast.unparse(c[1]) == d]
        if len(marks) != 1:
            return None
        noted = marks[0][0]
        n = f
    elif len(b) != 2:
        return None
    for i in () if pushed else (0, 1):
        c = call(b[i], "add")
        if c and c[0] != pend and ast.unparse(c[1]) == x.id and noted in (None, c[0]):
            noted = c[0]
            n = b[1 - i]
            break
    else:
        if not pushed:
            return None
    c = call(n, "update", "extend")
    if c:
        if c[0] != pend:
            return None
        it = c[1]
        if isinstance(it, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) and len(it.generators) == 1 \
                and isinstance(it.elt, ast.Name) and ast.unparse(it.generators[0].target) == it.elt.id:
            g = it.generators[0]
            d, it, tests = it.elt.id, g.iter, split(g.ifs, it.elt.id)
        elif isinstance(it, ast.BinOp) and isinstance(it.op, ast.Sub) and ast.unparse(it.right) == noted:
            known = True
            d, it, tests = "_d", it.left, []
        else:
            d, tests = "_d", []
    elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and not n.orelse:
        d, it, body, tests = n.target.id, n.iter, n.body, []
        if len(body) > 1 and isinstance(body[0], ast.If) and isinstance(body[0].body[0], ast.Continue) and not body[0].orelse:
            e = isin(body[0].test)
            if e is False or not isinstance(e.ops[0], ast.In) or ast.unparse(e.left) != d or e.comparators[0].id != noted:
                return None
            known, body = True, body[1:]
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            tests += split([body[0].test], d)
            body = body[0].body
        if pushed:
            if len(body) != 2:
                return None
            body = [k for k in body if call(k, "add", "append")[:1] != (noted,)] if all(call(k, "add", "append") for k in body) else []
        c = call(body[0], "add", "append") if len(body) == 1 else None
        if not c or c[0] != pend or ast.unparse(c[1]) != d:
            return None
    else:
        return None
    if not known or any(isinstance(v, ast.Name) and v.id in (pend, noted) for e in [it, *tests] for v in ast.walk(e)):
        return None
    succ = ast.SetComp(elt=ast.Name(id=d, ctx=ast.Load()),
                       generators=[ast.comprehension(target=ast.Name(id=d, ctx=ast.Store()), iter=it, ifs=tests, is_async=0)])
    ast.copy_location(succ, s)
    ast.fix_missing_locations(succ)
    return (ast.copy_location(ast.Name(id=pend, ctx=ast.Load()), s), ast.copy_location(ast.Name(id=noted, ctx=ast.Load()), s), x, succ,
            pushed)


class Raise:
    __slots__ = ("guard", "exc", "loops", "file", "line", "func", "msg", "seq")

    def __init__(self, guard, exc, loops, file, line, func, msg, seq):
        self.guard, self.exc, self.loops, self.file, self.line, self.func, self.msg, self.seq = guard, exc, loops, file, line, func, msg, seq

    def __repr__(self):
        return f"<raise {self.exc} if {self.guard} in {list(self.loops)} @{self.func}:{self.line}>"


class Summary:
    def __init__(self):
        self.ret = NONE
        self.ret_guard = T
        self.events = []
        self.raises = []
        self.fields = {}
        self.yields = None
        self.unknown = []
        self.approx = set()
        self.orders = set()
        self.site = None
        self.func = None


class St:
    __slots__ = ("vars", "live")

    def __init__(self, vars_, live):
        self.vars, self.live = vars_, live

    def copy(self):
        return St(dict(self.vars), self.live)


class Frame:
    def __init__(self, fi, module, parent=None, cls=None):
        self.fi, self.module, self.parent, self.cls = fi, module, parent, cls
        self.id = None
        self.returns = []
        self.loopstack = []
        self.globals_decl = set()
        self.imports = {}
        self.nonlocals = set()


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


class Handler:
    def __init__(self, types, node, frame):
        self.types, self.node, self.frame = types, node, frame
        self.entries = []


class Unsupported(Exception):
    pass


MUTATORS = {
    "append", "add", "extend", "update", "pop", "remove", "discard", "clear", "insert", "sort", "setdefault", "popitem",
    "popleft", "appendleft", "write", "writerow", "writerows", "writelines", "writestr", "reverse", "add_header",
    "intersection_update", "difference_update", "symmetric_difference_update", "set_defaults", "add_argument", "add_parser",
    "replace_header", "write_text", "write_bytes",
}

NORAISE_METHODS = {
    "startswith", "endswith", "strip", "lower", "upper", "split", "rsplit", "partition", "rpartition", "items", "keys", "values",
    "get", "join", "replace", "append", "add", "extend", "rstrip", "lstrip", "removeprefix", "removesuffix", "absolute",
}


class Interp:
    def __init__(self, project: Project, boundary=(), max_depth=14):
        self.p = project
        self.boundary = set(boundary)
        self.max_depth = max_depth
        self.types: dict[Term, tuple] = {}
        self.funcs: dict[Term, tuple] = {}  # func term -> (FuncInfo, frame)
        self._gcache = {}
        self.reset()
        self._enum_setup()

    def reset(self):
        self.events: list[Event] = []
        self.raises: list[Raise] = []
        self.loops: list[Term] = []
        self.stack: list[Frame] = []
        self.handlers: list[list[Handler]] = []
        self.swallowing: list[tuple] = []
        self.unknown: list[str] = []
        self.nid = 0
        self.seq = 0
        self.fin = 0
        self.inhandler = 0
        self.whilecount = 0
        self.yieldstack = []
        self.used_boundary = set()
        self.steps = 0
        self.born = {}
        self.baseinit = {}  # what a container held when the loop that grows it was entered
        self.baseused = set()
        self.approx = set()  # what the loops leave out
        self.orders = set()  # what is gone through, and whether sorted or each once

    def _enum_setup(self):
        simp.SUBEXC = lambda a, b: b in ("*", "Exception", "BaseException") or bool(self.p.is_exc_subclass(a, b))
        for m in self.p.modules.values():
            for c in m.classes.values():
                if c.is_enum:
                    for n, v in c.consts.items():
                        simp.ENUMS[f"{c.qual}.{n}"] = v.value if isinstance(v, ast.Constant) else None

    def fresh(self):
        self.nid += 1
        return self.nid

    # ------------------------------------------------------------------ types
    def set_type(self, t, ty):
        if ty is None or t in self.types:
            return
        self.types[t] = ty
        if ty[0] == "opt" and ty[1] and ty[1][0] in ("cls", "ext"):
            simp.OBJ_OPT.add(t)
        elif ty[0] in ("cls", "ext", "prim", "seq", "dict", "tuple") and t.op in ("elem", "val", "key") or ty[0] in ("seq", "dict") and t.op == "item":
            simp.NOTNONE.add(t)
        if ty[0] == "cls" and t.op in ("elem", "val", "key", "item"):
            r = self.p.resolve(ty[1])
            if r and r[0] == "class" and not any(self.p.find_method(r[1], m) for m in ("__bool__", "__len__")):
                simp.NOTNONE.add(t)
                simp.OBJ_TRUE.add(t)
        if t.op in ("call", "param") and ty == ("prim", "bool"):
            BOOLT.add(t)
        if t.op in ("elem", "val", "key", "call", "param") and ty == ("prim", "str"):
            STRT.add(t)

    def ty(self, t, d=0):
        if t in self.types:
            return self.types[t]
        if d > 20:
            return None
        r = self._ty(t, d + 1)
        if r is not None:
            self.set_type(t, r)
        return r

    def _ty(self, t, d):
        o = t.op
        if o == "attr":
            bt = strip_opt(self.ty(t.args[0], d))
            if bt and bt[0] == "cls":
                r = self.p.resolve(bt[1])
                if r and r[0] == "class":
                    f = self.p.find_attr_type(r[1], t.args[1])
                    if f:
                        return parse_type(f[0], f[1].module, self.p)
                    mth = self.p.find_method(r[1], t.args[1])
                    if mth and mth.is_property:
                        return parse_type(mth.node.returns, mth.module, self.p)
            if bt and bt[0] == "ext" and bt[1].endswith("Path"):
                if t.args[1] == "parent":
                    return bt
                if t.args[1] in ("name", "stem", "suffix"):
                    return ("prim", "str")
            if bt and bt[0] == "union":
                for u in bt[1]:
                    if u and u[0] == "cls":
                        r = self.p.resolve(u[1])
                        if r and r[0] == "class" and t.args[1] == "path":
                            return ("ext", "pathlib.Path")
            return None
        if o in ("linux", "highest", "lowest"):
            return ("cls", "auditwheel.policy.Policy")
        if o == "elem":
            bt = strip_opt(self.ty(t.args[0], d))
            if bt and bt[0] == "seq":
                return bt[1]
            if bt and bt[0] == "dict":
                return bt[1]
            if bt and bt[0] == "cls":
                r = self.p.resolve(bt[1])
                if r and r[0] == "class":
                    m = self.p.find_method(r[1], "__iter__")
                    if m:
                        rt = parse_type(m.node.returns, m.module, self.p)
                        if rt and rt[0] == "seq":
                            return rt[1]
            if t.args[0].op == "glob":
                r = self.p.resolve(t.args[0].args[0])
                if r and r[0] == "class" and r[1].is_enum:
                    return ("cls", r[1].qual)
            return None
        if o in ("key", "val"):
            e = t.args[0]
            if e.op == "elem":
                bt = strip_opt(self.ty(e.args[0], d))
                if bt and bt[0] == "dict":
                    return bt[1] if o == "key" else bt[2]
            return None
        if o == "item":
            bt = strip_opt(self.ty(t.args[0], d))
            if bt and bt[0] == "dict":
                return bt[2]
            if bt and bt[0] == "seq":
                return bt[1]
            if bt and bt[0] == "tuple" and is_const(t.args[1]) and isinstance(t.args[1].args[0], int):
                i = t.args[1].args[0]
                return bt[1][i] if -len(bt[1]) <= i < len(bt[1]) else None
            return None
        if o == "new":
            return ("cls", t.args[0])
        if o == "ite":
            a, c = self.ty(t.args[1], d), self.ty(t.args[2], d)
            if t.args[1] is NONE:
                a = ("none",)
            if t.args[2] is NONE:
                c = ("none",)
            if a and c:
                return union([a, c])
            return a or c
        if o == "first":
            a = self.ty(t.args[2], d)
            return a
        if o == "agg":
            for e in t.args[1]:
                a = self.ty(e.args[2], d)
                if a:
                    return a
            return None
        if o == "call":
            f = t.args[0]
            if isinstance(f, str):
                r = self.p.resolve(f)
                if r and r[0] == "func":
                    fi = r[1]
                    if fi.name == "InGenericPkgCtx":
                        return parse_type(fi.node.returns, fi.module, self.p)
                    return parse_type(fi.node.returns, fi.module, self.p)
                if r and r[0] == "class":
                    return ("cls", f)
                if f in ("method.pop", "method.get", "method.setdefault") and len(t.args) > 2:
                    bt = strip_opt(self.ty(t.args[1], d))
                    if bt and bt[0] == "dict" and bt[2]:
                        return ("opt", bt[2]) if f == "method.get" and (len(t.args) == 3 or t.args[3] is NONE) else bt[2] if f != "method.get" else None
                if f in ("resolve", "absolute", "pathlib.Path.cwd"):
                    return ("ext", "pathlib.Path")
                if f in ("method.split", "method.rsplit", "method.splitlines"):
                    return ("seq", ("prim", "str"))
                if f in ("re.match", "re.search", "re.fullmatch"):
                    return ("opt", ("ext", "re.Match"))
            return None
        if o == "join":
            return ("ext", "pathlib.Path")
        if o == "concat":
            return ("prim", "str")
        if o == "as":
            bt = strip_opt(self.ty(t.args[1], d))
            if bt and bt[0] == "dict":
                return ("seq", bt[1])
            return bt
        if o == "values":
            bt = strip_opt(self.ty(t.args[0], d))
            return ("seq", bt[2]) if bt and bt[0] == "dict" else None
        if o == "glob":
            if simp.is_enum_member(t):
                return ("cls", t.args[0].rpartition(".")[0])
        return None

    # ------------------------------------------------------------------ heap
    def alloc(self, st, content):
        t = mk("obj", self.fresh())
        st.vars[("c", t)] = content
        self.born[t] = st.live
        return t

    def val(self, t, st):
        """one-level dereference of local container objects"""
        if t.op == "obj":
            return st.vars.get(("c", t), t)
        if t.op == "ite":
            x, y = self.val(t.args[1], st), self.val(t.args[2], st)
            if x is not t.args[1] or y is not t.args[2]:
                return ite(t.args[0], x, y)
        return t

    def freeze(self, t, st, memo=None, active=()):
        """replace container objects by their contents"""
        if memo is None:
            memo = {}

        def leaf(x):
            if x.op == "obj":
                if x in active:
                    return mk("self")
                c = st.vars.get(("c", x))
                if c is None:
                    return mk("objref")
                g = self.born.get(x, T)
                if g is not T and c.op == "coll" and g is not F:
                    c = coll(c.args[0], [regard(e, g) for e in c.args[1]])
                return self.freeze(c, st, memo, (*active, x))
            return None

        return rewrite(t, leaf, memo, needs=lambda y: has_op(y, "obj"))

    def freezef(self, n, st):
        t = b(n)
        r = self.freeze(t, st)
        return truth(r)

    # ------------------------------------------------------------------ events
    def emit(self, kind, args, st, node, result=None):
        self.seq += 1
        fr = self.stack[-1] if self.stack else None
        fargs = tuple((n, self.freeze(v, st)) for n, v in args)
        caught = tuple(t for ts in self.swallowing for t in ts)
        ev = Event(
            kind, fargs, self.freezef(st.live, st), tuple(self.loops), self.seq,
            str(fr.module.path) if fr else "?", getattr(node, "lineno", 0), fr.fi.qual if fr and fr.fi else "?",
            result, self.fin > 0, self.inhandler > 0, caught,
        )
        self.events.append(ev)
        return ev

    def unk(self, why, node=None):
        self.unknown.append(f"{why} line {getattr(node, 'lineno', '?')}")
        return mk("unk", why)

    def do_raise(self, exc, st, node, msg=NONE):
        """exc: name"""
        for hs in reversed(self.handlers):
            done = False
            for h in hs:
                m = self.matches(exc, h.types)
                if m:
                    h.entries.append((st.live, dict(st.vars), mk("exc0", exc)))
                    done = True
                    break
            if done:
                st.live = F
                return
        fr = self.stack[-1]
        self.seq += 1
        self.raises.append(Raise(self.freezef(st.live, st), exc, tuple(self.loops), str(fr.module.path), getattr(node, "lineno", 0),
                                 fr.fi.qual if fr.fi else "?", msg, self.seq))
        st.live = F

    def matches(self, exc, types):
        for ty_ in types:
            if ty_ == "*":
                return True
            r = self.p.is_exc_subclass(exc, ty_)
            if r:
                return True
        return False

    def may_raise(self, callterm, st, node):
        """library/boundary call lexically inside a try body"""
        fr = self.stack[-1]
        if not self.handlers or not self.handlers[-1]:
            return
        hs = self.handlers[-1]
        if hs[0].frame is not fr:
            return
        fzn = self.freeze(callterm, st)
        for h in hs:
            a = F
            for ty_ in sorted(set(h.types)):
                a = Or(a, atom(mk("raises", fzn, ty_)))
            h.entries.append((And(st.live, a), dict(st.vars), mk("excof", fzn)))
            st.live = And(st.live, Not(a))

    def guarded(self, exc):
        """a handler that names this exception is in force in this function"""
        fr = self.stack[-1]
        return any(h.frame is fr and any(ty_ == exc or ty_ in ("*", "Exception") for ty_ in h.types) for hs in self.handlers for h in hs)

    # ------------------------------------------------------------------ names
    def key(self, fr, name):
        return ("v", fr.id, name)

    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            k = ("v", f.id, name)
            if k in st.vars and name not in f.globals_decl:
                return st.vars[k]
            if name in f.imports:
                return self.glob_term(f.imports[name])
            f = f.parent
        m = fr.module
        k = ("g", m.name, name)
        if k in st.vars:
            return st.vars[k]
        return self.global_name(name, m)

    def global_name(self, name, m):
        if name in m.funcs or name in m.classes:
            return self.glob_term(f"{m.name}.{name}")
        if name in m.globals:
            return self.glob_term(f"{m.name}.{name}")
        if name in m.imports:
            return self.glob_term(m.imports[name])
        import builtins
        if hasattr(builtins, name):
            return mk("glob", name)
        if name in ("__file__", "__name__"):
            return mk("glob", f"{m.name}.{name}")
        return mk("glob", f"?{name}")

    def glob_term(self, qual):
        q = self.p.canonical(qual)
        r = self.p.resolve(q)
        if r and r[0] == "global":
            m, name = r[1], r[2]
            if name in self._gcache.setdefault(m.name, {}):
                v = self._gcache[m.name][name]
                return v if v is not None else mk("glob", q)
            self._gcache[m.name][name] = None
            v = self.eval_global(m.globals[name], m, q) if name not in m.multi else None
            self._gcache[m.name][name] = v
            return v if v is not None else mk("glob", q)
        return mk("glob", q)

    def eval_global(self, node, m, q):
        """module constants that are immutable expressions"""
        if any(isinstance(n, (ast.Lambda, ast.Yield, ast.Await, ast.NamedExpr)) for n in ast.walk(node)):
            return None
        src = ast.unparse(node)
        if "getLogger" in src or "TypeVar" in src or "Literal[" in src:
            return None
        sub = Interp.__new__(Interp)
        sub.__dict__.update(self.__dict__)
        sub.reset()
        fr = Frame(None, m)
        fr.id = f"g:{m.name}"
        fr.fi = FuncInfo(f"{m.name}.<module>", ast.parse("lambda: 0").body[0].value, m)
        sub.stack = [fr]
        st = St({}, T)
        try:
            v = sub.ev(node, st)
            v = sub.freeze(v, st)
        except Exception:  # noqa: BLE001
            return None
        if sub.events:
            return None
        return v

    # ------------------------------------------------------------------ run
    def run(self, fi: FuncInfo, args=None, self_type=None):
        self.reset()
        # what is known about parameters of the same name in other functions does not count
        self.types = {}
        for r in registers():
            r.clear()
        s = Summary()
        s.func = fi
        fr = Frame(fi, fi.module)
        fr.id = self.fresh()
        fr.cls = fi.cls
        st = St({}, T)
        pos, var, kwo, kw = fi.params
        names = list(pos)
        for i, n in enumerate(pos + kwo):
            t = mk("param", n)
            if args and n in args:
                t = args[n]
            ann = fi.annotation(n)
            ty = parse_type(ann, fi.module, self.p)
            if i == 0 and fi.cls is not None and not fi.is_static and n in ("self", "cls"):
                ty = ("cls", fi.cls.qual)
                if n == "cls":
                    t = mk("glob", fi.cls.qual)
                else:
                    t = mk("param", f"self:{fi.cls.qual}")
            self.set_type(t, ty)
            st.vars[self.key(fr, n)] = t
        if var:
            st.vars[self.key(fr, var)] = mk("param", "*" + var)
        if kw:
            st.vars[self.key(fr, kw)] = mk("param", "**" + kw)
        self.stack.append(fr)
        if fi.is_generator:
            yl = self.alloc(st, coll("gen", ()))
            self.yieldstack.append(yl)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, st)
                fr.returns.append((st.live, v, st.vars))
            else:
                self.block(fi.node.body, st)
                if st.live is not F:
                    fr.returns.append((st.live, NONE, st.vars))
            ret, st2 = self.merge_returns(fr, T)
        finally:
            self.stack.pop()
        s.ret_guard = st2.live
        s.ret = self.freeze(ret, st2)
        if fi.is_generator:
            s.yields = self.freeze(st2.vars.get(("c", yl), coll("gen", ())), st2)
            s.ret = s.yields
        for k, v in st2.vars.items():
            if k[0] == "f":
                s.fields[(k[1], k[2])] = self.freeze(v, st2)
            elif k[0] == "g":
                s.fields[(mk("glob", k[1]), k[2])] = self.freeze(v, st2)
        s.events, s.raises, s.unknown = self.events, self.raises, self.unknown
        s.used = set(self.used_boundary)
        s.approx = self.approx
        s.orders = self.orders
        self.scrub_ids(s)
        return s

    def scrub_ids(self, s):
        """identities of local objects and loop variables that are left over carry no meaning"""
        memo = {}
        anon = {"obj": "objref", "base": "baseref", "phi": "phiref"}
        f = lambda t: mk(anon[t.op]) if t.op in anon else None  # noqa: E731
        needs = lambda t: any(has_op(t, o) for o in anon)  # noqa: E731
        s.ret = rewrite(s.ret, f, memo, needs)
        s.ret_guard = rewritef(s.ret_guard, f, memo, needs)
        s.fields = {(rewrite(o, f, memo, needs), a): rewrite(v, f, memo, needs) for (o, a), v in s.fields.items()}
        for e in s.events:
            e.args = tuple((n, rewrite(v, f, memo, needs)) for n, v in e.args)
            e.guard = rewritef(e.guard, f, memo, needs)
            e.loops = tuple(rewrite(x, f, memo, needs) for x in e.loops)
        for r in s.raises:
            r.guard = rewritef(r.guard, f, memo, needs)
            r.loops = tuple(rewrite(x, f, memo, needs) for x in r.loops)

    def merge_returns(self, fr, entry):
        if not fr.returns:
            return NONE, St({}, F)
        acc_g, acc_v, acc_vars = None, None, None
        for g, v, vs in reversed(fr.returns):
            if acc_g is None:
                acc_g, acc_v, acc_vars = g, v, dict(vs)
                continue
            c = simplify(g, Or(g, acc_g))
            acc_v = ite(c, v, acc_v)
            acc_vars = self.join_vars(c, g, vs, acc_g, acc_vars)
            acc_g = Or(g, acc_g)
        return acc_v, St(acc_vars, acc_g)

    def join_vars(self, c, g1, v1, g2, v2):
        if g1 is F:
            return dict(v2)
        if g2 is F:
            return dict(v1)
        out = {}
        for k in v1.keys() | v2.keys():
            x, y = v1.get(k), v2.get(k)
            if x is None or y is None or x is y:
                out[k] = x if x is not None else y
                continue
            out[k] = self.join_val(k, c, x, y)
        return out

    def join_val(self, k, c, x, y):
        if x is y:
            return x
        if k[0] == "c" and x.op == "coll" and y.op == "coll" and x.args[0] == y.args[0]:
            ex, ey = x.args[1], y.args[1]
            n = 0
            while n < len(ex) and n < len(ey) and ex[n] is ey[n]:
                n += 1
            # overwritten contents (no common prefix although both non-empty): guards tell them apart
            if n == min(len(ex), len(ey)) or all(e.op in ("ent", "acc") for e in ex[n:] + ey[n:]):
                out = list(ex[:n])
                for e in ex[n:]:
                    out.append(reguard(e, c))
                for e in ey[n:]:
                    out.append(reguard(e, Not(c)))
                return coll(x.args[0], out)
        return ite_minmax(c, x, y)

    def join(self, a: St, c: St):
        if a.live is F:
            return c
        if c.live is F:
            return a
        cond = simplify(a.live, Or(a.live, c.live))
        return St(self.join_vars(cond, a.live, a.vars, c.live, c.vars), Or(a.live, c.live))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st.live is F:
                # still scan nested defs? unreachable
                return
            self.steps += 1
            if self.steps > 60000:
                raise Unsupported("step budget")
            self.site = s
            self.stmt(s, st)

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unk("stmt:" + type(s).__name__, s)
            return
        m(s, st)

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        n = len(self.events)
        v = self.ev(s.value, st)
        if isinstance(s.value, ast.Call) and v.op == "call" and len(self.events) == n and isinstance(v.args[0], str):
            # called for its effect alone
            f = v.args[0]
            if f.startswith("method.") and f[7:] not in NORAISE_METHODS or "." in f and not f.startswith(("method.", "auditwheel.", "logging.", "warnings.")):
                self.emit("stmt", [("call", v)], st, s, v)

    def s_Assert(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            self.stack[-1].imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]

    def s_ImportFrom(self, s, st):
        m = self.stack[-1].module
        pkg = m.name if m.path.name == "__init__.py" else m.name.rpartition(".")[0]
        self.stack[-1].imports.update(imports_from(s, pkg))

    def s_Global(self, s, st):
        self.stack[-1].globals_decl.update(s.names)

    def s_Nonlocal(self, s, st):
        self.stack[-1].nonlocals.update(s.names)

    def s_FunctionDef(self, s, st):
        fr = self.stack[-1]
        fi = FuncInfo(f"{fr.fi.qual}.<locals>.{s.name}", s, fr.module, None)
        st.vars[self.key(fr, s.name)] = self.func_term(fi, fr)

    def func_term(self, fi, fr):
        t = mk("func", self.fresh())
        self.funcs[t] = (fi, fr)
        return t

    def s_ClassDef(self, s, st):
        st.vars[self.key(self.stack[-1], s.name)] = self.unk("local class", s)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.live is F:
            return
        self.stack[-1].returns.append((st.live, v, dict(st.vars)))
        st.live = F

    def s_Raise(self, s, st):
        if s.exc is None:
            exc = getattr(self, "_cur_exc", ["?"])[-1] if getattr(self, "_cur_exc", None) else "?"
            self.do_raise(exc, st, s)
            return
        e = s.exc
        msg = NONE
        name = "?"
        if isinstance(e, ast.Call):
            f = self.ev(e.func, st)
            if f.op == "glob":
                name = f.args[0]
            elif f.op == "attr":
                name = "?"
            args = [self.ev(a, st) for a in e.args if not isinstance(a, ast.Starred)]
            if args:
                msg = args[0]
        else:
            v = self.ev(e, st)
            if v.op == "glob":
                name = v.args[0]
            elif v.op == "exc0":
                name = v.args[0]
            elif v.op == "call" and isinstance(v.args[0], str):
                name = v.args[0]
        if st.live is F:
            return
        self.do_raise(name, st, s, msg)

    def s_Break(self, s, st):
        lc = self.stack[-1].loopstack[-1]
        lc.breaks.append((st.live, dict(st.vars)))
        st.live = F

    def s_Continue(self, s, st):
        lc = self.stack[-1].loopstack[-1]
        lc.continues.append((st.live, dict(st.vars)))
        st.live = F

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                pass
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.del_item(base, k, st, s)
            else:
                self.unk("del", s)

    def del_item(self, base, k, st, node):
        if base.op == "obj":
            st.vars[("c", base)] = ite(st.live, mk("without", self.val(base, st), k), self.val(base, st))
        else:
            self.emit("del.item", [("obj", base), ("key", k)], st, node)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                pt = parse_type(s.annotation, self.stack[-1].module, self.p)
                if v.op not in ("const", "obj"):
                    self.set_type(v, pt)
            self.assign(s.target, v, st)

    def s_AugAssign(self, s, st):
        tgt = s.target
        load = ast.copy_location(
            ast.Name(tgt.id, ast.Load()) if isinstance(tgt, ast.Name) else
            ast.Attribute(tgt.value, tgt.attr, ast.Load()) if isinstance(tgt, ast.Attribute) else
            ast.Subscript(tgt.value, tgt.slice, ast.Load()), tgt)
        cur = self.ev(load, st)
        v = self.ev(s.value, st)
        cc = self.val(cur, st)
        if cur.op == "obj" and cc.op == "coll":
            if isinstance(s.op, ast.Add):
                self.mutate_extend(cur, v, st)
                return
            if isinstance(s.op, ast.BitOr):
                self.mutate_extend(cur, v, st)
                return
            if isinstance(s.op, (ast.Sub, ast.BitAnd)):
                st.vars[("c", cur)] = self.setop(s.op, cc, self.val(v, st))
                return
        r = self.binop(s.op, cur, v, st, s)
        self.assign(tgt, r, st)

    def assign(self, t, v, st):
        fr = self.stack[-1]
        if isinstance(t, ast.Name):
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and ("v", f.id, t.id) not in st.vars:
                    f = f.parent
                f = f or fr
            if t.id in fr.globals_decl:
                st.vars[("g", fr.module.name, t.id)] = v
                self.emit("global.set", [("name", const(f"{fr.module.name}.{t.id}")), ("value", v)], st, t)
                return
            st.vars[self.key(f, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vv = self.val(v, st)
            n = len(t.elts)
            if not star and vv.op not in ("tup", "const") and self.guarded("ValueError"):
                ln = call_qual_len(self, vv, st)
                ok = eq(ln, const(n))
                if ok is not T:
                    x = St(dict(st.vars), And(st.live, Not(ok)))
                    if x.live is not F:
                        self.do_raise("ValueError", x, t)
                    st.live = And(st.live, ok)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("slice", vv, const(i), const(i + 1 - n) if i + 1 < n else NONE, NONE), st)
                elif star and i > star[0]:
                    self.assign(e, self.item(vv, const(i - n), st), st)
                else:
                    self.assign(e, self.unpack_item(vv, i, n, st), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.set_attr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                self.slice_assign(o, t.slice, v, st, t)
                return
            k = self.ev(t.slice, st)
            self.set_item(o, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack_item(self, v, i, n, st):
        if v.op == "coll" and v.args[0] in ("list", "tuple", "uniq"):
            pass
        return self.item(v, const(i), st)

    def slice_assign(self, o, sl, v, st, node):
        if o.op == "obj" and sl.lower is None and sl.upper is None:
            st.vars[("c", o)] = self.as_coll(v, st, "list")
        else:
            self.emit("mut.sliceassign", [("obj", o), ("value", v)], st, node)

    def set_attr(self, o, a, v, st, node):
        if o.op == "ite":
            s1, s0 = st.copy(), st.copy()
            s1.live, s0.live = And(st.live, o.args[0]), And(st.live, Not(o.args[0]))
            self.set_attr(o.args[1], a, v, s1, node)
            self.set_attr(o.args[2], a, v, s0, node)
            r = self.join(s1, s0)
            st.vars, st.live = r.vars, r.live
            return
        st.vars[("f", o, a)] = v
        self.emit("setattr", [("obj", o), ("attr", const(a)), ("value", v)], st, node)

    def set_item(self, o, k, v, st, node):
        if o.op == "obj":
            c = self.val(o, st)
            if c.op == "coll" and c.args[0] in ("dict", "defaultdict"):
                e = ent((), st.live, v, k)
                ents = list(c.args[1])
                # overwriting same key under same guard
                if ents and ents[-1].op == "ent" and ents[-1].args[3] is k and ents[-1].args[1] is st.live and not ents[-1].args[0]:
                    ents[-1] = e
                else:
                    ents.append(e)
                st.vars[("c", o)] = coll(c.args[0], ents)
                return
            st.vars[("c", o)] = mk("upd", c, k, v, b(st.live))
            return
        if o.op == "ddslot":
            pass
        if o.op == "glob" or (o.op == "attr" and o.args[0].op == "glob"):
            self.emit("global.setitem", [("obj", o), ("key", k), ("value", v)], st, node)
            return
        space = namespace_of(o)
        if space is not None:
            self.call(mk("glob", "setattr"), [space, k, v], {}, st, node)
            return
        self.emit("setitem", [("obj", o), ("key", k), ("value", v)], st, node)

    # -- control flow
    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if st.live is F:
            return
        a, z = st.copy(), st.copy()
        a.live, z.live = And(st.live, c), And(st.live, Not(c))
        if a.live is not F:
            self.block(s.body, a)
        if z.live is not F and s.orelse:
            self.block(s.orelse, z)
        if a.live is F and z.live is F:
            st.live = F
            # keep heap of either for consistency
            return
        if a.live is F:
            st.vars, st.live = z.vars, z.live
        elif z.live is F:
            st.vars, st.live = a.vars, a.live
        else:
            cc = c
            st.vars = self.join_vars(simplify(a.live, Or(a.live, z.live)) if True else cc, a.live, a.vars, z.live, z.vars)
            st.live = Or(a.live, z.live)

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)
        out = None
        cur = st.copy()
        for case in s.cases:
            if cur.live is F:
                break
            br = cur.copy()
            c = self.pattern(case.pattern, subj, br)
            if case.guard is not None:
                br.live = And(br.live, c)
                c = And(c, self.cond(case.guard, br))
            br.live = And(cur.live, c)
            cur.live = And(cur.live, Not(c))
            if br.live is not F:
                self.block(case.body, br)
                out = br if out is None else self.join(out, br)
        out = cur if out is None else self.join(out, cur)
        st.vars, st.live = out.vars, out.live

    def pattern(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return eq(subj, self.ev(p.value, st))
        if isinstance(p, ast.MatchSingleton):
            return eq(subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            r = F
            for q in p.patterns:
                r = Or(r, self.pattern(q, subj, st))
            return r
        if isinstance(p, ast.MatchAs):
            c = T if p.pattern is None else self.pattern(p.pattern, subj, st)
            if p.name:
                st.vars[self.key(self.stack[-1], p.name)] = subj
            return c
        return atom(mk("pattern", const(ast.unparse(p)), subj))

    def s_With(self, s, st):
        ctxs = []
        for item in s.items:
            v = self.ev(item.context_expr, st)
            if st.live is F:
                return
            self.emit("with.enter", [("ctx", v)], st, s)
            if v.op == "suppress":
                pass
            if item.optional_vars is not None:
                r = v
                self.assign(item.optional_vars, r, st)
            ctxs.append(v)
        sup = [c for c in ctxs if c.op == "call" and c.args[0] == "contextlib.suppress"]
        if sup:
            types = []
            for c in sup:
                for a in c.args[1:]:
                    types.append(a.args[0] if a.op == "glob" else "*")
            self.try_common(s.body, [(types, None, [])], [], [], st, s)
        else:
            self.block(s.body, st)
        if st.live is not F:
            for c in reversed(ctxs):
                self.emit("with.exit", [("ctx", c)], st, s)

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        hs = []
        for h in s.handlers:
            types = []
            if h.type is None:
                types = ["*"]
            else:
                tn = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in tn:
                    v = self.ev(t, st)
                    if v.op == "glob":
                        q = v.args[0]
                        types.append("OSError" if q in ("IOError", "EnvironmentError") else q)
                    elif v.op in ("tup",):
                        types += [x.args[0] if x.op == "glob" else "*" for x in v.args]
                    else:
                        types.append("*")
            hs.append((types, h.name, h.body))
        self.try_common(s.body, hs, s.orelse, s.finalbody, st, s)

    s_TryStar = s_Try

    def try_common(self, body, hs, orelse, final, st, node):
        fr = self.stack[-1]
        entry_live = st.live
        nret = len(fr.returns)
        nraise = len(self.raises)
        handlers = [Handler(t, node, fr) for t, _, _ in hs]
        nbr = [(len(lc.breaks), len(lc.continues)) for lc in fr.loopstack]
        if handlers:
            self.handlers.append(handlers)
        swallowed = tuple(t for ts, _, hb in hs if not always_raises(hb) for t in ts)
        if any(isinstance(n, ast.Return) for x in final for n in ast.walk(x)):
            swallowed += ("*",)
        self.swallowing.append(swallowed)
        self.block(body, st)
        self.swallowing.pop()
        if handlers:
            self.handlers.pop()
        if orelse and st.live is not F:
            self.block(orelse, st)
        out = st
        for h, (types, name, hbody) in zip(handlers, hs):
            if not h.entries:
                continue
            hst = None
            excv = None
            for g, vs, ev in h.entries:
                if g is F:
                    continue
                x = St(dict(vs), g)
                if hst is None:
                    hst, excv = x, ev
                else:
                    c = simplify(hst.live, Or(hst.live, g))
                    excv = ite(c, excv, ev) if excv is not ev else ev
                    hst = self.join(hst, x)
            if hst is None or hst.live is F:
                continue
            hst = hst.copy()
            if name:
                hst.vars[self.key(fr, name)] = excv if excv is not None else mk("exc0", types[0])
            self.inhandler += 1
            self._cur_exc = [*getattr(self, "_cur_exc", []), types[0]]
            self.block(hbody, hst)
            self._cur_exc = self._cur_exc[:-1]
            self.inhandler -= 1
            if out.live is F:
                out = hst
            elif hst.live is not F:
                out = self.join(out, hst)
        if final:
            fst = St(dict(out.vars), entry_live)
            if out.live is F and len(fr.returns) > nret:
                fst.vars = dict(fr.returns[-1][2])
            self.fin += 1
            self.block(final, fst)
            self.fin -= 1
            if fst.live is F:
                out = St(fst.vars, F)
            else:
                # heap effects of the final block
                live = out.live
                out = St(fst.vars, live)
                new = []
                for i, (g, v, vs) in enumerate(fr.returns):
                    if i >= nret:
                        nv = dict(vs)
                        for k, x in fst.vars.items():
                            if k[0] in ("f", "c", "g"):
                                nv[k] = x
                        new.append((g, v, nv))
                    else:
                        new.append((g, v, vs))
                fr.returns[:] = new
        st.vars, st.live = out.vars, out.live

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.live is F:
            return
        self.loop_over(it, lambda v, x: self.assign(s.target, v, x), lambda x: self.block(s.body, x), st, s,
                       (lambda x: self.block(s.orelse, x)) if s.orelse else None)

    s_AsyncFor = s_For

    def went(self, it, st, how=None):
        """note what is gone through"""
        while it.op == "as" and it.args[0] not in ("rev", "sortedby"):
            if it.args[0] in ("sorted", "uniq"):
                how = it.args[0]
            it = it.args[1]
        if it.op in ("items", "keys", "values"):
            it = self.val(it.args[0], st)
        if it.op == "ite":
            for _, x in leaves(it):
                if x.op != "const":
                    self.went(x, st, how)
            return
        if it.op == "coll" and it.args[0] in ("sorted", "sortdup", "uniq"):
            how = how or it.args[0].replace("sortdup", "sorted")
        if it.op not in ("tup", "const") and it.op != "coll" or it.op == "coll" and it.args[1]:
            self.orders.add((self.freeze(it, st), how, self.site))

    def sources(self, it, st):
        """iterable -> [(loops, guard, value)] (None guard-free)"""
        it = self.val(it, st)
        if it.op != "ite":
            self.went(it, st)
        return self.sources_(it, st)

    def sources_(self, it, st):
        if it.op == "ite":
            out = []
            for g, leaf in leaves(it):
                for L, gg, v in self.sources(leaf, st):
                    out.append((L, And(g, gg), v))
            return out
        if it.op == "as" and it.args[0] not in ("rev", "sortedby"):
            return self.sources_(self.val(it.args[1], st), st)
        if it.op == "coll":
            kind, ents = it.args
            if all(e.op == "ent" for e in ents):
                out = []
                for e in ents:
                    L, g, v, k = e.args
                    out.append((L, g, k if k is not None else v))
                return out
            if all(e.op in ("ent", "acc") for e in ents):
                return [(e.args[0], e.args[1], e.args[3] if e.args[3] is not None else e.args[2]) for e in ents]
        if it.op in ("items", "keys", "values") :
            d = self.val(it.args[0], st)
            if d.op == "as":
                d = d.args[1]
            if d.op == "coll" and all(e.op == "ent" for e in d.args[1]):
                out = []
                for e in d.args[1]:
                    L, g, v, k = e.args
                    out.append((L, g, {"items": mk("tup", k, v), "keys": k, "values": v}[it.op]))
                return out
            L = self.loopvar(d, st)
            return [((L,), T, {"items": mk("tup", L, mk("val", L)), "keys": L, "values": mk("val", L)}[it.op])]
        if it.op == "enum":
            out = []
            for L, g, v in self.sources(it.args[0], st):
                out.append((L, g, mk("tup", mk("index", *L) if L else const(len(out)), v)))
            return out
        if it.op == "tup":
            return [((), T, v) for v in it.args]
        if is_const(it) and isinstance(it.args[0], (tuple, frozenset)):
            vals = it.args[0] if isinstance(it.args[0], tuple) else sorted(it.args[0], key=repr)
            return [((), T, const(v)) for v in vals]
        if it.op == "cat":
            out = []
            for x in it.args[0]:
                out += self.sources(x, st)
            return out
        L = self.loopvar(it, st)
        ty_ = strip_opt(self.ty(it))
        if ty_ and ty_[0] == "dict":
            return [((L,), T, L)]
        return [((L,), T, L)]

    def loopvar(self, dom, st=None):
        dom = strip_as(dom) if not (dom.op == "as" and dom.args[0] in ("rev", "sortedby")) else dom
        if st is not None and dom.op != "obj" and has_op(dom, "obj"):
            dom = self.freeze(dom, st)
        k = sum(1 for x in self.loops if x.op == "elem" and x.args[0] is dom)
        return mk("elem", dom, k)

    def rename_src(self, src):
        """avoid capturing loop variables already in scope"""
        L, g, v = src
        m = {}
        for x in L:
            if x in self.loops and x.op == "elem":
                k = sum(1 for y in self.loops if y.op == "elem" and y.args[0] is x.args[0])
                m[x] = mk("elem", x.args[0], k)
        if not m:
            return src
        f = lambda t: m.get(t)  # noqa: E731
        L2 = tuple(rewrite(x, f, {}) for x in L)
        return L2, truth(rewrite(b(g), f, {})), rewrite(v, f, {})

    def loop_over(self, it, bind, body, st, node, orelse=None):
        srcs = self.sources(it, st)
        fr = self.stack[-1]
        if self.each_once(it, st):
            self.approx.add("uniq")
        if len(srcs) > 24:
            srcs = [((mk("elem", self.freeze(self.val(it, st), st), 0),), T, mk("elem", self.freeze(self.val(it, st), st), 0))]
        brk_total = F
        for src in srcs:
            if st.live is F:
                break
            L, g, v = self.rename_src(src)
            if not L:
                # unrolled
                lc = LoopCtx()
                fr.loopstack.append(lc)
                x = st.copy()
                x.live = And(st.live, g, Not(brk_total))
                skip = st.copy()
                skip.live = And(st.live, Or(Not(g), brk_total))
                if x.live is not F:
                    bind(v, x)
                    body(x)
                fr.loopstack.pop()
                for gl, vs in lc.continues:
                    x = self.join(x, St(vs, gl))
                bst = None
                for gl, vs in lc.breaks:
                    bst = St(vs, gl) if bst is None else self.join(bst, St(vs, gl))
                    brk_total = Or(brk_total, gl)
                r = x
                if bst is not None:
                    r = self.join(r, bst)
                if skip.live is not F:
                    r = self.join(r, skip)
                st.vars, st.live = r.vars, r.live
            else:
                bt = self.run_loop(L, And(g, Not(brk_total)), lambda x: bind(v, x), body, st, node)
                brk_total = Or(brk_total, bt)
        if orelse and st.live is not F:
            x, z = st.copy(), st.copy()
            x.live, z.live = And(st.live, Not(brk_total)), And(st.live, brk_total)
            if x.live is not F:
                orelse(x)
            r = self.join(x, z)
            st.vars, st.live = r.vars, r.live

    def each_once(self, it, st):
        it = self.val(it, st)
        return any(x.op in ("as", "coll") and x.args[0] == "uniq" for _, x in leaves(it)) if it.op == "ite" else it.op in ("as", "coll") and it.args[0] == "uniq"

    closures = False

    def closure(self, s, st):
        """a loop that takes elements out of a collection, notes each and puts in what is next to it:
        what it has noted in the end is all that can be reached"""
        m = worklist(s)
        if m is None:
            return False
        pend, noted, x, succ, pushed = m
        o = self.ev(noted, st)
        c = self.val(o, st)
        seed = self.freeze(self.val(self.call(mk("glob", "set"), [self.ev(pend, st)], {}, st, s), st), st)
        if c.op != "coll" or (self.freeze(c, st) is not seed if pushed else c.args != ("set", ())):
            return False
        W = mk("wnode", 0)
        mark = len(self.events)
        self.assign(x, W, st)
        step = self.freeze(self.val(self.ev(succ, st), st), st)
        if len(self.events) > mark:
            msg = "effects in the steps"
            raise NotImplementedError(msg)
        if pushed:
            self.call_attr(o, "clear", [], {}, st, s)
        self.call_attr(o, "update", [mk("closure", seed, W, step)], {}, st, s)
        self.call_attr(self.ev(pend, st), "clear", [], {}, st, s)
        return True

    def s_While(self, s, st):
        if self.closures and self.closure(s, st):
            return
        self.whilecount += 1
        W = mk("witer", self.whilecount)

        def body(x):
            c = self.cond(s.test, x)
            lc = self.stack[-1].loopstack[-1]
            if c is not T:
                lc.breaks.append((And(x.live, Not(c)), dict(x.vars)))
            x.live = And(x.live, c)
            if x.live is not F:
                self.block(s.body, x)

        wc = self.whilecount
        self.run_loop((W,), T, lambda x: None, body, st, s, is_while=True)
        self.whilecount = max(self.whilecount, wc)
        if s.orelse and st.live is not F:
            self.block(s.orelse, st)

    def run_loop(self, L, g, bind, body, st, node, is_while=False):
        """returns the condition (after the loop) that it was left by break"""
        fr = self.stack[-1]
        base = dict(st.vars)
        uid = self.fresh()
        changed = set()
        entry = And(st.live, g)
        marks = None
        wc0 = self.whilecount
        for _ in range(8):
            self.whilecount = wc0
            marks = (len(self.events), len(self.raises), len(fr.returns), [[len(h.entries) for h in hs] for hs in self.handlers],
                     [(len(c.breaks), len(c.continues)) for c in fr.loopstack], len(self.unknown))
            x = St(dict(base), entry)
            phis = {}
            for k in changed:
                if k not in base:
                    continue
                if k[0] == "c" and base[k].op == "coll":
                    bt = mk("base", uid, repr(k[1].args))
                    x.vars[k] = coll(base[k].args[0], (bt,))
                    self.baseinit[bt] = base[k]
                else:
                    ph = mk("phi", uid, repr((k[0], k[1].id if isinstance(k[1], Term) else k[1], k[2] if len(k) > 2 else "")))
                    t0 = self.ty(base[k])
                    if t0:
                        self.set_type(ph, t0)
                    x.vars[k] = ph
                phis[k] = x.vars[k]
            start = dict(x.vars)
            self.loops.extend(L)
            lc = LoopCtx()
            fr.loopstack.append(lc)
            bind(x)
            body(x)
            fr.loopstack.pop()
            del self.loops[-len(L):]
            end = x
            for gl, vs in lc.continues:
                end = self.join(end, St(vs, gl))
            new = set()
            for i, st_ in enumerate([end.vars] + [vs for _, vs in lc.breaks] + [vs for _, _, vs in fr.returns[marks[2]:]]):
                for k, v in st_.items():
                    if k in base and start[k] is not v and k not in changed and (i == 0 or is_while or k[0] != "v"):
                        new.add(k)
            if not new:
                break
            changed |= new
            # discard
            del self.events[marks[0]:]
            del self.raises[marks[1]:]
            del fr.returns[marks[2]:]
            for hs, ns in zip(self.handlers, marks[3]):
                for h, n in zip(hs, ns):
                    del h.entries[n:]
            for c, (nb, nc) in zip(fr.loopstack, marks[4]):
                del c.breaks[nb:]
                del c.continues[nc:]
        else:
            self.unk("loop fixpoint", node)
        outer_loops = list(self.loops)
        if g is not T and not is_while:
            # elements left out change nothing
            skip = St(start, And(st.live, Not(g)))
            if skip.live is not F:
                end = self.join(end, skip) if end.live is not F else skip
        # break condition
        bg = F
        for gl, _ in lc.breaks:
            bg = Or(bg, gl)
        if is_while:
            prior = F
        else:
            prior = bg
        rets = fr.returns[marks[2]:]
        rg = F
        for gl, _, _ in rets:
            rg = Or(rg, gl)
        stop = Or(prior, rg)
        # relative to what is fixed for the loop
        notprior = T
        if stop is not F and stop is not entry and not is_while:
            relstop = simplify(stop, st.live) if st.live is not T else stop
            if any(contains(a, set(L)) for a in support(relstop)):
                notprior = Not(atom(mk("prior", tuple(L), relstop)))
        # summarise
        post = dict(base)
        summ = {}
        order_ = sorted(changed, key=repr)
        self.loopstate = (base, end, lc.breaks)
        for k in order_:
            summ[k] = self.summarise(k, L, base[k], phis.get(k), end, lc.breaks, phis, notprior, st.live, is_while)
        # a course that depends on another one whose course depends on more is told in full
        if COSTATE:
            ph1 = {k: ph.args[1][0] if ph.op == "coll" else ph for k, ph in phis.items()}
            allph = set(ph1.values())
            dep = {k for k in order_ if contains(summ[k], allph)}
            for k in order_:
                if k in dep and summ[k].op != "fold" and any(contains(summ[k], {ph1[q]}) for q in dep):
                    v = end.vars.get(k, phis[k]) if end.live is not F else None
                    bv = [(gl, vs.get(k, phis[k])) for gl, vs in lc.breaks]
                    if not (v is None and not bv):
                        summ[k] = self.fold(tuple(L), base[k], phis[k], v, bv, phis)
        onbreak = {}
        if not is_while:
            # assigned only where the loop is left: the initial value holds throughout
            for k in base:
                if k[0] == "v" and k not in changed and any(vs.get(k, base[k]) is not base[k] for _, vs in lc.breaks):
                    bgk, val_ = F, None
                    for gl, vs in reversed(lc.breaks):
                        bgk = Or(bgk, gl)
                        val_ = vs[k] if val_ is None else ite(simplify(gl, bgk), vs[k], val_)
                    gg = rel(bgk, st.live)
                    onbreak[k] = simp.first(tuple(L), gg, val_, base[k])
        # second round: substitute other phis inside summaries
        m = {}
        for k in changed:
            ph = phis[k]
            if ph.op == "coll":
                m[ph.args[1][0]] = None
                m[ph.args[1][0]] = mk("carry", summ[k])
            else:
                m[ph] = mk("carry", summ[k])
        f = lambda t: m.get(t)  # noqa: E731
        clean = {}
        mems = {}
        phset = set(m)
        for k in changed:
            v = summ[k]
            if contains(v, phset):
                # two-level substitution at most
                m2 = {q: mk("carry", scrub(w.args[0], phset)) for q, w in m.items()}
                v = rewrite(v, lambda t: m2.get(t), {})
            clean[k] = v
            post[k] = v
        m = {q: mk("carry", clean_v) for q, clean_v in
             ((phis[k].args[1][0] if phis[k].op == "coll" else phis[k], clean[k]) for k in changed)}
        f = lambda t: m.get(t)  # noqa: E731
        # rewrite events/raises/returns produced in the body
        memo = {}
        for k, v in onbreak.items():
            post[k] = rewrite(v, f, memo) if m else v
        if m:
            for e in self.events[marks[0]:]:
                e.args = tuple((n, rewrite(v, f, memo)) for n, v in e.args)
                e.guard = truth(rewrite(b(e.guard), f, memo))
            for r in self.raises[marks[1]:]:
                r.guard = truth(rewrite(b(r.guard), f, memo))
        if notprior is not T:
            for e in self.events[marks[0]:]:
                e.guard = And(e.guard, notprior)
        raise_g = F
        for r in self.raises[marks[1]:]:
            extra = r.loops[len(outer_loops) + len(L):]
            raise_g = Or(raise_g, exists_all(extra, r.guard))
        # variables first bound inside the loop
        for k, v in end.vars.items():
            if k not in base and k[0] in ("v", "f"):
                if contains(v, set(L)):
                    v = mk("last", tuple(L), v)
                post[k] = rewrite(v, f, memo) if m else v
            elif k not in base and k[0] == "c":
                post[k] = rewrite(v, f, memo) if m else v
        for gl, vs in lc.breaks:
            for k, v in vs.items():
                if k not in base and k[0] == "c":
                    if k not in post:
                        post[k] = v
        # returns
        bg_post = exists_all(L, rewritef(bg, f, memo)) if not is_while else F
        newrets = []
        live_after = st.live
        if rets:
            rg2 = rewritef(rg, f, memo)
            ex = exists_all(L, rg2)
            vals = None
            for gl, v, vs in reversed(rets):
                gl = rewritef(gl, f, memo)
                v = rewrite(v, f, memo)
                vals = v if vals is None else ite(simplify(gl, rg2), v, vals)
            if is_while:
                vals = mk("last", tuple(L), vals) if contains(vals, set(L)) else vals
                ex = And(st.live, atom(mk("exists", L[0], rg2))) if rg2 is not entry else st.live
                if rg2 is T:
                    ex = st.live
            elif contains(vals, set(L)) or vals.op == "ite":
                vals = simp.first(tuple(L), rel(rg2, st.live), vals)
            rv = dict(post)
            for _, _, vs in rets:
                for k, v in vs.items():
                    if k not in rv:
                        rv[k] = rewrite(v, f, memo)
            del fr.returns[marks[2]:]
            if ex is not F:
                fr.returns.append((And(st.live, ex), vals, rv))
            if not is_while:
                live_after = And(live_after, Not(ex))
            else:
                live_after = And(live_after, Not(ex))
        if is_while:
            if not lc.breaks:
                live_after = F if rets or True else live_after
        else:
            if raise_g is not F:
                live_after = And(live_after, Not(exists_all(L, rewritef(raise_g, f, memo))))
        st.vars, st.live = post, live_after
        return bg_post

    def summarise(self, k, L, init, ph, end, breaks, phis, notprior, outer, is_while):
        Ls = tuple(L)
        v = end.vars.get(k, ph) if end.live is not F else None
        bv = [(gl, vs.get(k, ph)) for gl, vs in breaks]
        # ---- containers
        if k[0] == "c" and ph.op == "coll":
            basee = ph.args[1][0]
            kind = ph.args[0]
            added = []
            ok = True
            seen = set()
            for val_ in ([v] if v is not None else []) + [x for _, x in bv]:
                if val_ is None:
                    continue
                if val_.op == "coll" and val_.args[1] and val_.args[1][0] is basee and not any(
                    y is basee for y in val_.args[1][1:]
                ):
                    for e in val_.args[1][1:]:
                        if e not in seen:
                            seen.add(e)
                            added.append(e)
                else:
                    ok = False
            if is_while:
                ok = ok and all(e.op in ("ent", "acc") for e in added)
            if ok and init.op == "coll":
                # de-duplication idiom
                out = []
                newkind = init.args[0]
                for e in added:
                    if e.op not in ("ent", "acc"):
                        ok = False
                        break
                    ee = e
                    if e.op == "ent":
                        g2, dd = self.dedup_guard(e, basee, phis, end)
                        if dd:
                            ee = ent(e.args[0], g2, e.args[2], e.args[3])
                            if newkind == "list":
                                newkind = "uniq"
                            if kind in ("dict", "defaultdict") and e.args[3] is not None:
                                ee = mk("ent", e.args[0], e.args[1], e.args[2], e.args[3])
                    out.append(mk(ee.op, Ls + ee.args[0], And(ee.args[1], notprior), ee.args[2], ee.args[3]))
                if ok:
                    if newkind == "list":
                        out = alternatives(out)
                    return coll(newkind, init.args[1] + tuple(out))
            if basee in self.baseused:
                self.unk("element of a list the loop rewrites")
            return self.fold(Ls, init, ph, v, bv, phis)
        # ---- scalars
        if v is None and not bv:
            return init
        if not bv:
            r = self.scalar(Ls, init, ph, v)
            if r is not None and not is_while:
                return r
            return self.fold(Ls, init, ph, v, bv, phis)
        if is_while:
            return self.fold(Ls, init, ph, v, bv, phis)
        # breaks: first-match idiom
        if v is None or v is ph:
            bg = F
            val_ = None
            for gl, x in reversed(bv):
                bg = Or(bg, gl)
                val_ = x if val_ is None else ite(simplify(gl, bg), x, val_)
            if not contains(val_, ph):
                gg = rel(bg, outer)
                if contains(gg, {p for p in self._phs(phis)}):
                    return self.fold(Ls, init, ph, v, bv, phis)
                if not contains(val_, set(Ls)):
                    return ite(exists_all(Ls, gg), val_, init)
                return simp.first(Ls, gg, val_, init)
            if val_ is ph:
                return init
        # a change before/without break
        r = None
        allv = v
        return self.fold(Ls, init, ph, allv, bv, phis)

    def _phs(self, phis):
        for p in phis.values():
            yield p.args[1][0] if p.op == "coll" else p

    def dedup_guard(self, e, basee, phis, end):
        L, g, v, key = e.args
        probe = key if key is not None else v
        for a in support(g):
            if a.op == "in" and a.args[0] is probe:
                tgt = a.args[1]
                ok = tgt is basee
                if not ok and tgt.op == "base":
                    # another container that records the same values
                    for k2, ph2 in phis.items():
                        if ph2.op == "coll" and ph2.args[1][0] is tgt:
                            c2 = end.vars.get(k2)
                            if c2 is not None and c2.op == "coll" and any(
                                x.op == "ent" and (x.args[3] if x.args[3] is not None else x.args[2]) is probe for x in c2.args[1][1:]
                            ):
                                ok = True
                if ok:
                    from .terms import _ATOM_IX, restrict
                    ix = _ATOM_IX[a]
                    if restrict(g, ix, 1) is F:
                        return restrict(g, ix, 0), True
        return g, False

    def scalar(self, Ls, init, ph, v):
        if v is ph:
            return init
        # boolean flag
        vb = as_bool(v)
        sup = set(support(vb)) if vb is not None else set()
        phat = mk("truthy", ph)
        if vb is not None or (v.op == "ite" and all(as_bool(x) is not None or x is ph for _, x in leaves(v))):
            if vb is None:
                n = F
                for g, x in leaves(v):
                    n = Or(n, And(g, atom(phat) if x is ph else as_bool(x)))
                vb = n
            from .terms import _ATOM_IX, restrict
            if phat in _ATOM_IX:
                ix = _ATOM_IX[phat]
                f1, f0 = restrict(vb, ix, 1), restrict(vb, ix, 0)
            else:
                f1 = f0 = vb
            if not contains(f1, ph) and not contains(f0, ph):
                i = truth(init)
                if f1 is T:
                    return b(Or(i, exists_all(Ls, f0)))
                if f0 is F:
                    return b(And(i, Not(exists_all(Ls, Not(f1)))))
        # min/max accumulations
        for op in ("min", "max"):
            if v.op == "agg" and v.args[0] == op and v.args[2] is None:
                rest = [e for e in v.args[1] if not (e.args[2] is ph and not e.args[0])]
                if len(rest) < len(v.args[1]) and not any(contains(e, ph) for e in rest):
                    return agg(op, [ent((), T, init)] + [ent(Ls + e.args[0], e.args[1], e.args[2], e.args[3]) for e in rest])
        # ite-tree whose leaves are ph / agg(op, ph, x) / absorbing constants
        lv = leaves(v)
        for op, absorb in (("min", "linux"), ("max", "highest")):
            ents, ok = [], True
            for g, x in lv:
                if x is ph:
                    if contains(g, ph):
                        ok = False
                    continue
                if x.op == absorb:
                    ents.append(ent(Ls, g, x))
                elif x.op == "agg" and x.args[0] == op and x.args[2] is None and any(e.args[2] is ph and not e.args[0] for e in x.args[1]):
                    for e in x.args[1]:
                        if e.args[2] is ph and not e.args[0]:
                            continue
                        ents.append(ent(Ls + e.args[0], And(g, e.args[1]), e.args[2], e.args[3]))
                else:
                    ok = False
            if ok and ents and not any(contains(e, ph) for e in ents):
                return agg(op, [ent((), T, init), *ents])
        # last assignment wins
        if not any(contains(x, ph) for g, x in lv if x is not ph) and not any(contains(g, ph) for g, _ in lv):
            ch = F
            val_ = None
            for g, x in lv:
                if x is ph:
                    continue
                ch = Or(ch, g)
            vals = [(g, x) for g, x in lv if x is not ph]
            if len(vals) == 1 and not contains(vals[0][1], set(Ls)):
                return ite(exists_all(Ls, ch), vals[0][1], init)
            vv = vals[-1][1]
            for g, x in vals[:-1]:
                vv = ite(simplify(g, ch), x, vv)
            return mk("lastof", Ls, ch, vv, init)
        return None

    def fold(self, Ls, init, ph, v, bv, phis):
        """the course of a variable from one iteration to the next, with those of the variables it depends on"""
        base, end, breaks = self.loopstate
        me = ph.args[1][0] if ph.op == "coll" else ph
        ks = {(p.args[1][0] if p.op == "coll" else p): k for k, p in phis.items()}
        steps = [v, *(x for _, x in bv), *(b(g) for g, _ in bv)]
        order, at = [me], 0
        values = {me: [x for x in steps if x is not None]}

        def seen(t):
            if t in ks and t not in values:
                batch.append(t)
                values[t] = [end.vars.get(ks[t], phis[ks[t]]) if end.live is not F else phis[ks[t]]]
            return None

        while at < len(order):
            memo = {}
            batch = []
            for x in values[order[at]]:
                rewrite(x, seen, memo)
            order += sorted(batch, key=lambda t: fingerprint((base[ks[t]], values[t][0]), ks))
            at += 1
        lvl = 1 + max((t.args[1] if len(t.args) > 1 else 1 for xs in values.values() for x in xs for t in subterms(x) if t.op == "rec"), default=0)
        if lvl == 1:
            num = {t: mk("rec", i) for i, t in enumerate(order)}
        else:
            num = {t: mk("rec", i, lvl) for i, t in enumerate(order)}
        memo = {}
        f = num.get
        vv = rewrite(v, f, memo) if v is not None else NONE
        bb = tuple(mk("brk", rewritef(g, f, memo), rewrite(x, f, memo)) for g, x in bv)
        co = tuple(mk("co", base[ks[t]], rewrite(values[t][0], f, memo)) for t in order[1:])
        if not co and lvl == 1:
            return mk("fold", Ls, init, vv, bb)
        return mk("fold", Ls, init, vv, bb, co, lvl)

    # ------------------------------------------------------------------ expressions
    def cond(self, n, st):
        """evaluate an expression as a condition (handles short circuit effects)"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return Not(self.cond(n.operand, st))
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            acc = T if isand else F
            live0 = st.live
            for x in n.values:
                sub = st
                st.live = And(live0, acc if isand else Not(acc))
                if st.live is F:
                    break
                c = self.cond(x, st)
                acc = And(acc, c) if isand else Or(acc, c)
            st.live = live0
            return acc
        v = self.ev(n, st)
        return self.truth(v, st)

    def truth(self, v, st):
        v = self.val(v, st)
        if v.op in ("as", "items", "keys", "values", "len"):
            i = 1 if v.op == "as" else 0
            inner = v.args[i]
            if inner.op == "obj":
                return self.truth(inner, st)
        self.ty(v)
        return truth(v)

    def ev(self, n, st) -> Term:
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unk("expr:" + type(n).__name__, n)
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        return self.lookup(n.id, st, self.stack[-1])

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        st.vars[self.key(self.stack[-1], n.target.id)] = v
        return v

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        vals = []
        live0 = st.live
        acc = T
        for x in n.values:
            st.live = And(live0, acc)
            if st.live is F:
                break
            v = self.ev(x, st)
            t = self.truth(v, st)
            vals.append((v, t))
            acc = And(acc, t if isand else Not(t))
        st.live = live0
        if all(self.boolish(v) for v, _ in vals):
            r = T if isand else F
            for _, t in vals:
                r = And(r, t) if isand else Or(r, t)
            return b(r)
        r = vals[-1][0]
        for v, t in reversed(vals[:-1]):
            r = ite(t, r, v) if isand else ite(t, v, r)
        return r

    def boolish(self, v):
        return as_bool(v) is not None or self.ty(v) == ("prim", "bool")

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return b(Not(self.cond(n.operand, st)))
        v = self.ev(n.operand, st)
        if is_const(v) and isinstance(v.args[0], (int, float)):
            if isinstance(n.op, ast.USub):
                return const(-v.args[0])
            if isinstance(n.op, ast.Invert):
                return const(~v.args[0])
        return mk("arith", type(n.op).__name__, v)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is T:
            return self.ev(n.body, st)
        if c is F:
            return self.ev(n.orelse, st)
        a, z = st.copy(), st.copy()
        a.live, z.live = And(st.live, c), And(st.live, Not(c))
        x = self.ev(n.body, a) if a.live is not F else NONE
        y = self.ev(n.orelse, z) if z.live is not F else NONE
        if a.live is F:
            st.vars, st.live = z.vars, z.live
            return y
        if z.live is F:
            st.vars, st.live = a.vars, a.live
            return x
        r = self.join(a, z)
        st.vars, st.live = r.vars, r.live
        return self.mkite(c, x, y, st)

    def mkite(self, c, x, y, st):
        # min/max idiom
        return ite_minmax(c, x, y)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        r = T
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st)
            r = And(r, self.compare(op, left, right, st))
            left = right
        return b(r)

    def is_set(self, t, st):
        t = self.val(t, st)
        if t.op == "coll":
            return t.args[0] in simp.SETK
        if t.op == "as":
            return t.args[0] in simp.SETK
        ty_ = strip_opt(self.ty(t))
        return False

    def compare(self, op, x, y, st):
        for z in (x, y):
            if z.op not in ("const", "obj"):
                self.ty(z)
        if isinstance(op, ast.Is) or isinstance(op, ast.Eq):
            return eq(self.val(x, st), self.val(y, st))
        if isinstance(op, ast.IsNot) or isinstance(op, ast.NotEq):
            return Not(eq(self.val(x, st), self.val(y, st)))
        if isinstance(op, ast.In):
            return self.contains_(x, y, st)
        if isinstance(op, ast.NotIn):
            return Not(self.contains_(x, y, st))
        xv, yv = self.val(x, st), self.val(y, st)
        if self.is_set(x, st) or self.is_set(y, st):
            if isinstance(op, ast.LtE):
                return self.subset(x, y, st)
            if isinstance(op, ast.GtE):
                return self.subset(y, x, st)
        if isinstance(op, ast.Lt):
            return lt(xv, yv)
        if isinstance(op, ast.Gt):
            return lt(yv, xv)
        if isinstance(op, ast.LtE):
            return le(xv, yv)
        return le(yv, xv)

    def contains_(self, x, c, st):
        c = self.val(c, st)
        ty_ = strip_opt(self.ty(c))
        if is_const(c) and isinstance(c.args[0], str) or (ty_ == ("prim", "str")) or c.op in ("concat",) or (c.op == "attr" and c.args[1] in ("name",) and is_const(x)):
            if is_const(c) and is_const(x):
                return T if x.args[0] in c.args[0] else F
            return atom(mk("substr", self.val(x, st), c))
        if c.op in ("items", "keys", "values"):
            d = self.val(c.args[0], st)
            if c.op == "keys":
                return self.contains_(x, d, st)
            if d.op == "coll" and c.op == "values":
                r = F
                for e in d.args[1]:
                    e = simp.apart(e, x)
                    r = Or(r, exists_all(e.args[0], And(e.args[1], eq(x, e.args[2])))) if e.op == "ent" else Or(r, atom(mk("in", x, e)))
                return r
            c = mk(c.op, d)
        if c.op == "new" or (ty_ and ty_[0] == "cls"):
            pass
        if is_const(x) and isinstance(x.args[0], str) and c.op == "elem" and not ty_:
            return atom(mk("substr", x, c))
        return in_(self.freeze(x, st) if x.op != "obj" else self.val(x, st), c)

    def subset(self, x, y, st):
        g = F
        for L, gg, v in self.sources(x, st):
            g = Or(g, exists_all(L, And(gg, Not(self.contains_(v, y, st)))))
        return Not(g)

    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.attr(o, n.attr, st, n)

    def attr(self, o, a, st, node=None):
        if o.op == "glob":
            q = f"{o.args[0]}.{a}"
            if q in simp.ENUMS:
                return mk("glob", q)
            if simp.is_enum_member(o):
                if a == "value" and simp.ENUMS[o.args[0]] is not None:
                    return const(simp.ENUMS[o.args[0]])
                if a == "name":
                    return const(o.args[0].rpartition(".")[2])
            else:
                r = self.p.resolve(q)
                if r and r[0] == "cattr":
                    if r[1].is_enum:
                        return mk("glob", f"{r[1].qual}.{a}")
                    return mk("glob", q)
                r0 = self.p.resolve(o.args[0])
                if o.args[0].endswith(".__file__"):
                    r0 = ("value",)
                if r0 is None or r0[0] in ("mod", "class"):
                    return self.glob_term(q)
        if o.op == "ite":
            x = self.attr(o.args[1], a, st, node)
            y = self.attr(o.args[2], a, st, node)
            return ite(o.args[0], x, y)
        k = ("f", o, a)
        if k in st.vars:
            return st.vars[k]
        if o.op == "super":
            return mk("attr", o, a)
        if o.op == "first" and o.args[3] is simp.ABSENT:
            return simp.first(o.args[0], o.args[1], self.attr(o.args[2], a, st, node))
        ty_ = strip_opt(self.ty(o))
        if ty_ and ty_[0] == "cls":
            r = self.p.resolve(ty_[1])
            if r and r[0] == "class":
                ci = r[1]
                m = self.p.find_method(ci, a)
                if m and m.is_property:
                    if m.qual == "auditwheel.policy.WheelPolicies.linux" or m.qual in (
                        "auditwheel.policy.WheelPolicies.highest", "auditwheel.policy.WheelPolicies.lowest"):
                        if self.stack and self.stack[0].fi is not m:
                            self.used_boundary.add(m.qual)
                            return mk(a, o)
                    if self.is_boundary(m):
                        self.used_boundary.add(m.qual)
                        t = getattr_(o, a)
                        self.set_type(t, parse_type(m.node.returns, m.module, self.p))
                        return t
                    return self.inline(m, [o], {}, st, node, cls=ci)
                if not m and ci.is_enum and a in ("value", "name"):
                    return getattr_(o, a)
                if not m and o.op not in ("new",):
                    for kk in self.p.mro(ci):
                        if a in kk.consts and a not in kk.fields:
                            return mk("attr", o, a)
        t = getattr_(o, a)
        self.ty(t)
        return t

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, st) if n.slice.lower else NONE
            hi = self.ev(n.slice.upper, st) if n.slice.upper else NONE
            step = self.ev(n.slice.step, st) if n.slice.step else NONE
            return self.slice(o, lo, hi, step, st)
        k = self.ev(n.slice, st)
        return self.item(o, k, st)

    def slice(self, o, lo, hi, step, st):
        v = self.val(o, st)
        if is_const(lo) and lo.args[0] == 0:
            lo = NONE
        if lo is NONE and hi is NONE and step is NONE:
            return self.alloc(st, v) if o.op == "obj" else with_kind(v, "list") if v.op != "const" else v
        if lo is NONE and hi is NONE and is_const(step) and step.args[0] == -1:
            if v.op == "as" and v.args[0] == "rev":
                return v.args[1]
            return mk("as", "rev", self.freeze(v, st))
        if is_const(v) and all(is_const(x) for x in (lo, hi, step)):
            try:
                return const(v.args[0][slice(lo.args[0], hi.args[0], step.args[0])])
            except TypeError:
                pass
        if v.op == "tup" and all(is_const(x) for x in (lo, hi, step)):
            return mk("tup", *v.args[slice(lo.args[0], hi.args[0], step.args[0])])
        # x[:-len(s)] after endswith(s)
        if lo is NONE and hi.op == "arith" and hi.args[0] == "USub" and hi.args[1].op == "len" and step is NONE:
            return mk("call", "method.removesuffix", v, hi.args[1].args[0])
        if lo.op == "len" and hi is NONE and step is NONE:
            return mk("call", "method.removeprefix", v, lo.args[0])
        return mk("slice", self.freeze(v, st), lo, hi, step)

    def item(self, o, k, st):
        v = self.val(o, st)
        if v.op == "call" and isinstance(v.args[0], str) and is_const(k) and isinstance(k.args[0], int):
            r = simp.str_item(v, k.args[0])
            if r is not None:
                return r
        if v.op == "coll" and v.args[0] == "list" and v.args[1] and v.args[1][0] in self.baseinit and is_const(k) and type(k.args[0]) is int and k.args[0] >= 0:
            # the loop only appends: the leading elements stay
            bt = v.args[1][0]
            init = self.baseinit[bt]
            while init.op == "coll" and init.args[1] and init.args[1][0] in self.baseinit:
                self.baseused.add(init.args[1][0])
                init = self.baseinit[init.args[1][0]]
            lead = init.args[1][: k.args[0] + 1] if init.op == "coll" and init.args[0] == "list" else ()
            if len(lead) == k.args[0] + 1 and all(e.op == "ent" and not e.args[0] and e.args[1] is T for e in lead):
                self.baseused.add(bt)
                return lead[-1].args[2]
        if v.op == "coll" and v.args[0] in ("dict", "defaultdict") and any(e.op == "acc" for e in v.args[1]):
            # a map of accumulated containers: collect what was added under this key
            ents = []
            for e in v.args[1]:
                L, g, val_, key = simp.apart(e, k).args
                if e.op == "acc":
                    ents.append(ent(L, And(g, eq(k, key)), val_))
            t = coll("set", ents)
            return mk("slot", o, k, self.freeze(t, st)) if o.op == "obj" else t
        if v.op == "coll" and v.args[0] == "defaultdict" and not v.args[1]:
            return mk("slot", o, k, coll("set", ()))
        if o.op == "obj" and v.op == "coll" and v.args[0] in ("dict", "defaultdict"):
            if any(e.op in ("base",) for e in v.args[1]) or v.args[0] == "defaultdict":
                return mk("slot", o, k, mk("item", self.freeze(v, st), self.freeze(k, st)))
            from .lib import under
            r = under(getitem(v, k), st.live)
            if r.op == "item":
                r = mk("slot", o, k, self.freeze(r, st))
            return r
        if v.op == "coll" and v.args[0] in ("dict",):
            return getitem(v, k)
        t = getitem(self.freeze(v, st) if v.op == "coll" and v.args[0] != "list" else v, k)
        if t.op == "item":
            self.ty(t)
        return t

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.seq_display(n.elts, "tuple", st)
        return mk("tup", *[self.ev(e, st) for e in n.elts])

    def seq_display(self, elts, kind, st):
        ents = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                t0 = self.ty(v)
                if t0 and t0[0] == "tuple" and v.op not in ("tup", "ite", "obj", "coll"):
                    ents += [ent((), T, getitem(v, const(i))) for i in range(len(t0[1]))]
                    continue
                for L, g, x in self.sources(v, st):
                    ents.append(ent(L, g, x))
            else:
                ents.append(ent((), T, self.ev(e, st)))
        return self.alloc(st, coll(kind, ents))

    def e_List(self, n, st):
        return self.seq_display(n.elts, "list", st)

    def e_Set(self, n, st):
        return self.seq_display(n.elts, "set", st)

    def e_Dict(self, n, st):
        ents = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.val(self.ev(v, st), st)
                ents += self.dict_entries(x, st)
            else:
                kk = self.ev(k, st)
                ents.append(ent((), T, self.ev(v, st), kk))
        return self.alloc(st, coll("dict", ents))

    def dict_entries(self, x, st):
        x = self.val(x, st)
        if x.op == "as":
            x = x.args[1]
        if x.op == "coll" and x.args[0] in ("dict", "defaultdict"):
            return list(x.args[1])
        if x.op == "items":
            return self.dict_entries(x.args[0], st)
        if x.op == "coll":
            out = []
            for e in x.args[1]:
                L, g, v, _ = e.args
                if v.op == "tup" and len(v.args) == 2:
                    out.append(ent(L, g, v.args[1], v.args[0]))
                else:
                    out.append(ent(L, g, getitem(v, const(1)), getitem(v, const(0))))
            return out
        L = self.loopvar(x, st)
        return [ent((L,), T, mk("val", L), L)]

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                if v.conversion == 114:
                    x = mk("call", "repr", self.freeze(x, st))
                elif v.format_spec is not None:
                    x = mk("call", "format", self.freeze(x, st), self.ev(v.format_spec, st))
                else:
                    x = self.strconv(x, st)
                parts.append(x)
        return concat(parts)

    def strconv(self, x, st):
        x = self.val(x, st)
        if is_const(x):
            return const(str(x.args[0]))
        if simp.is_enum_member(x):
            c = self.p.resolve(x.args[0].rpartition(".")[0])
            if c and c[0] == "class" and "__str__" in c[1].methods:
                return const(simp.ENUMS[x.args[0]])
        ty_ = self.ty(x)
        if ty_ and ty_[0] == "opt":
            none = And(st.live, atom(mk("isnone", x)))
            if none is not F:
                return ite(rel(none, st.live), const("None"), self.strconv_(x, strip_opt(ty_)))
        return self.strconv_(x, strip_opt(ty_))

    def strconv_(self, x, ty_):
        if ty_ and ty_[0] == "cls":
            r = self.p.resolve(ty_[1])
            if r and r[0] == "class" and r[1].is_enum and "__str__" in r[1].methods:
                return getattr_(x, "value")
        if x.op in ("arith", "len") or (ty_ and ty_[0] == "prim" and ty_[1] in ("int",)):
            return mk("call", "str", x)
        return x

    def e_FormattedValue(self, n, st):
        return self.strconv(self.ev(n.value, st), st)

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        fr = self.stack[-1]
        return self.func_term(FuncInfo(f"{fr.fi.qual}.<lambda>", n, fr.module, None), fr)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        y = self.yieldstack[-1]
        c = st.vars.get(("c", y), coll("gen", ()))
        if c.op == "coll":
            st.vars[("c", y)] = coll("gen", c.args[1] + (ent((), st.live, v),))
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        y = self.yieldstack[-1]
        c = st.vars.get(("c", y), coll("gen", ()))
        ents = [ent(L, And(st.live, g), x) for L, g, x in self.sources(v, st)]
        if c.op == "coll":
            st.vars[("c", y)] = coll("gen", c.args[1] + tuple(ents))
        return NONE

    # comprehension == loop with append
    def comp(self, n, kind, st):
        fr = self.stack[-1]
        o = self.alloc(st, coll(kind, ()))

        filtered = []

        def go(i, x):
            if i == len(n.generators):
                if kind == "dict":
                    k = self.ev(n.key, x)
                    v = self.ev(n.value, x)
                    self.add_ent(o, ent((), x.live, v, k), x)
                else:
                    v = self.ev(n.elt, x)
                    self.add_ent(o, ent((), x.live, v), x)
                return
            gen = n.generators[i]
            it = self.ev(gen.iter, x)
            if i == 0 and kind != "dict" and len(n.generators) == 1 and isinstance(gen.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == gen.target.id:
                v = self.val(it, x)
                filtered.extend([v.op in ("as", "coll") and v.args[0] == "uniq" or v.op == "coll" and v.args[0] in ("dict", "defaultdict"), "uniq" in self.approx])

            def body(y):
                skipped = F
                for c in gen.ifs:
                    cc = self.cond(c, y)
                    skipped = Or(skipped, And(y.live, Not(cc)))
                    y.live = And(y.live, cc)
                    if y.live is F:
                        break
                else:
                    go(i + 1, y)
                y.live = Or(y.live, skipped)

            self.loop_over(it, lambda v, y: self.assign(gen.target, v, y), body, x, n)

        names = set()
        for g in n.generators:
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name):
                    names.add(t.id)
        shadow = {nm: st.vars.get(self.key(fr, nm)) for nm in names}
        for nm in names:
            st.vars.pop(self.key(fr, nm), None)
        live0 = st.live
        # entry guards inside the comprehension are relative to it
        st.live = T
        self.comp_guard(st, live0, lambda: go(0, st))
        for nm, v in shadow.items():
            if v is None:
                st.vars.pop(self.key(fr, nm), None)
            else:
                st.vars[self.key(fr, nm)] = v
        if filtered and filtered[0] and kind in ("list", "gen"):
            # some of the elements of a sequence that has each once
            c = st.vars[("c", o)]
            if c.op == "coll" and c.args[0] == kind:
                st.vars[("c", o)] = coll("uniq", c.args[1])
                if not filtered[1]:
                    self.approx.discard("uniq")
        if kind == "gen":
            return self.val(o, st)
        return o

    def comp_guard(self, st, live0, f):
        """run f with relative guards but emit events/raises under live0"""
        ne, nr = len(self.events), len(self.raises)
        f()
        st.live = And(st.live, live0)
        for e in self.events[ne:]:
            e.guard = And(e.guard, live0)
        for r in self.raises[nr:]:
            r.guard = And(r.guard, live0)

    def add_ent(self, o, e, st):
        c = st.vars.get(("c", o))
        if c is not None and c.op == "coll":
            st.vars[("c", o)] = coll(c.args[0], c.args[1] + (e,))
        else:
            st.vars[("c", o)] = mk("upd", c if c is not None else NONE, e)

    def e_ListComp(self, n, st):
        return self.comp(n, "list", st)

    def e_SetComp(self, n, st):
        return self.comp(n, "set", st)

    def e_GeneratorExp(self, n, st):
        return self.comp(n, "gen", st)

    def e_DictComp(self, n, st):
        return self.comp(n, "dict", st)

    def e_Slice(self, n, st):
        return mk("slicearg", const(ast.unparse(n)))

    def e_BinOp(self, n, st):
        x = self.ev(n.left, st)
        y = self.ev(n.right, st)
        return self.binop(n.op, x, y, st, n)

    def binop(self, op, x, y, st, node):
        xv, yv = self.val(x, st), self.val(y, st)
        if xv.op == "ite" and not isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub)) and yv.op != "ite":
            return ite(xv.args[0], self.binop(op, xv.args[1], y, st, node), self.binop(op, xv.args[2], y, st, node))
        if isinstance(op, ast.Div):
            return join_path([self.freeze(xv, st), self.freeze(yv, st)])
        if isinstance(op, ast.Add):
            if self.stringy(xv) or self.stringy(yv):
                return concat([xv, yv])
            if is_const(xv) and is_const(yv):
                try:
                    return const(xv.args[0] + yv.args[0])
                except TypeError:
                    pass
            if self.listy(xv) or self.listy(yv):
                ents = [ent(L, g, v) for L, g, v in self.sources(xv, st)] + [ent(L, g, v) for L, g, v in self.sources(yv, st)]
                return self.alloc(st, coll("list", ents))
            tx, ty_ = strip_opt(self.ty(xv)), strip_opt(self.ty(yv))
            if tx == ("prim", "str") or ty_ == ("prim", "str"):
                return concat([xv, yv])
            if tx and tx[0] == "seq":
                ents = [ent(L, g, v) for L, g, v in self.sources(xv, st)] + [ent(L, g, v) for L, g, v in self.sources(yv, st)]
                return self.alloc(st, coll("list", ents))
            return mk("arith", "Add", xv, yv)
        if isinstance(op, ast.Mod) and is_const(xv) and isinstance(xv.args[0], str):
            parts = xv.args[0].split("%s")
            args = list(yv.args) if yv.op == "tup" else [yv]
            if len(parts) == len(args) + 1 and "%" not in "".join(parts):
                out = []
                for i, pth in enumerate(parts):
                    out.append(const(pth))
                    if i < len(args):
                        out.append(self.strconv(args[i], st))
                return concat(out)
            return mk("arith", "Mod", xv, self.freeze(yv, st))
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            bx, by = as_bool(xv), as_bool(yv)
            if isinstance(op, (ast.BitOr, ast.BitAnd)) and (bx is not None or by is not None):
                bx = bx if bx is not None else truth(xv)
                by = by if by is not None else truth(yv)
                return b(Or(bx, by) if isinstance(op, ast.BitOr) else And(bx, by))
            if self.setish(xv, st) or self.setish(yv, st):
                return self.alloc(st, self.setop(op, xv, yv, st))
            if xv.op == "coll" and xv.args[0] in ("dict",) and isinstance(op, ast.BitOr):
                return self.alloc(st, coll("dict", self.dict_entries(xv, st) + self.dict_entries(yv, st)))
        if is_const(xv) and is_const(yv):
            try:
                import operator
                fn = {ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
                      ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
                      ast.Pow: operator.pow, ast.BitXor: operator.xor}.get(type(op))
                if fn:
                    return const(fn(xv.args[0], yv.args[0]))
            except Exception:  # noqa: BLE001
                pass
        xs, ys = self.freeze(xv, st), self.freeze(yv, st)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Mult)) and skey(ys) < skey(xs):
            xs, ys = ys, xs
        return mk("arith", type(op).__name__, xs, ys)

    def stringy(self, t):
        if is_const(t):
            return isinstance(t.args[0], str)
        if t.op == "concat" or t.op == "joinstr":
            return True
        if t.op == "ite":
            return self.stringy(t.args[1]) or self.stringy(t.args[2])
        return strip_opt(self.ty(t)) == ("prim", "str")

    def listy(self, t):
        return t.op == "coll" and t.args[0] in ("list", "tuple", "uniq", "sorted", "sortdup", "gen") or (
            t.op == "as" and t.args[0] in ("list", "tuple", "sorted", "uniq", "rev")) or t.op == "tup"

    def setish(self, t, st):
        if t.op == "coll":
            return t.args[0] in simp.SETK
        if t.op == "as":
            return t.args[0] in simp.SETK
        if t.op in ("keys", "items"):
            return True
        if t.op == "slot":
            return True
        if t.op == "ite":
            return self.setish(t.args[1], st) or self.setish(t.args[2], st)
        ty_ = strip_opt(self.ty(t))
        return bool(ty_ and ty_[0] == "seq")

    def setop(self, op, x, y, st=None):
        x, y = deslot(x), deslot(y)
        st = st or St({}, T)
        if isinstance(op, ast.BitOr):
            ents = [ent(L, g, v) for L, g, v in self.sources(x, st)] + [ent(L, g, v) for L, g, v in self.sources(y, st)]
            return coll("set", ents)
        if isinstance(op, ast.BitXor):
            return mk("arith", "BitXor", x, y)
        if isinstance(op, ast.BitAnd) and skey(self.freeze(y, st)) < skey(self.freeze(x, st)) and not (
            x.op == "coll" and any(e.op == "base" for e in x.args[1])):
            x, y = y, x
        out = []
        for L, g, v in self.sources(x, st):
            c = self.contains_(v, y, st)
            out.append(ent(L, And(g, c if isinstance(op, ast.BitAnd) else Not(c)), v))
        return coll("set", out)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        # logging is not observable behaviour here
        if is_logging(n, self.stack[-1], self):
            if any(isinstance(x, ast.Call) for a in n.args for x in ast.walk(a)):
                self.args(n, st)
            return NONE
        f = n.func
        # isinstance etc need no special evaluation
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st)
            if st.live is F:
                return NONE
            args, kwargs = self.args(n, st)
            if st.live is F:
                return NONE
            return self.call_attr(recv, f.attr, args, kwargs, st, n)
        fv = self.ev(f, st)
        if fv.op == "glob" and fv.args[0] == "super":
            fr = self.stack[-1]
            g = fr
            while g.cls is None and g.parent is not None:
                g = g.parent
            selfv = self.lookup(g.fi.params[0][0], st, fr) if g.fi.params[0] else NONE
            return mk("super", selfv, g.fi.cls.qual if g.fi.cls else "?")
        mark = len(self.events)
        args, kwargs = self.args(n, st)
        if st.live is F:
            return NONE
        if len(self.events) > mark and fv.op == "glob" and fv.args[0] in ("next", "any", "all") and n.args and isinstance(n.args[0], ast.GeneratorExp):
            self.until(fv.args[0], args[0], mark, st)
        return self.call(fv, args, kwargs, st, n)

    def until(self, how, gen, mark, st):
        """what a generator does is done up to the first element asked for"""
        src = self.sources(gen, st)
        if len(src) != 1:
            return
        L, g, v = src[0]
        if how != "next":
            t = self.truth(v, st)
            g = And(g, t if how == "any" else Not(t))
        L = tuple(self.freeze(x, st) for x in L)
        g = self.freezef(g, st)
        g = simplify(g, st.live) if st.live is not T else g
        if L and g is not F and any(contains(a, set(L)) for a in support(g)):
            for e in self.events[mark:]:
                if e.loops[len(e.loops) - len(L):] == L:
                    e.guard = And(e.guard, Not(atom(mk("prior", L, g))))

    def args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.val(self.ev(a.value, st), st)
                if v.op == "tup":
                    args += list(v.args)
                elif v.op == "coll" and all(e.op == "ent" and not e.args[0] and e.args[1] is T for e in v.args[1]):
                    args += [e.args[2] for e in v.args[1]]
                else:
                    args.append(mk("star", self.freeze(v, st)))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                vv = self.val(v, st)
                if vv.op == "coll" and vv.args[0] == "dict" and all(e.op == "ent" and not e.args[0] and is_const(e.args[3]) for e in vv.args[1]):
                    for e in vv.args[1]:
                        kwargs[e.args[3].args[0]] = e.args[2]
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def call(self, fv, args, kwargs, st, node):
        if fv.op == "ite":
            s1, s0 = st.copy(), st.copy()
            s1.live, s0.live = And(st.live, fv.args[0]), And(st.live, Not(fv.args[0]))
            x = self.call(fv.args[1], args, kwargs, s1, node) if s1.live is not F else NONE
            y = self.call(fv.args[2], args, kwargs, s0, node) if s0.live is not F else NONE
            r = self.join(s1, s0)
            st.vars, st.live = r.vars, r.live
            return ite(fv.args[0], x, y)
        if fv.op == "func":
            fi, fr = self.funcs[fv]
            return self.inline(fi, args, kwargs, st, node, parent=fr)
        if fv.op == "partial":
            f2, a2, k2 = fv.args
            kw = dict(k2)
            kw.update(kwargs)
            return self.call(f2, list(a2) + args, kw, st, node)
        if fv.op == "pattr" and len(args) == 1:
            r = args[0]
            for a in fv.args[0].split("."):
                r = self.attr(r, a, st, node)
            return r
        if fv.op == "pitem" and len(args) == 1:
            return self.item(args[0], fv.args[0], st)
        if fv.op == "attr":
            return self.call_attr(fv.args[0], fv.args[1], args, kwargs, st, node)
        if fv.op == "bound":
            return self.call_attr(fv.args[0], fv.args[1], args, kwargs, st, node)
        if fv.op == "glob":
            return self.call_qual(fv.args[0], args, kwargs, st, node)
        if fv.op == "item" or fv.op == "param" or fv.op == "call":
            t = mk("call", fv, *[self.freeze(a, st) for a in args], *kwterms(self, kwargs, st))
            self.emit("call.value", [("fn", fv), *((str(i), a) for i, a in enumerate(args)), *kwargs.items()], st, node, t)
            return t
        return self.unkcall(fv, args, kwargs, st)

    def unkcall(self, fv, args, kwargs, st):
        return mk("call", fv, *[self.freeze(a, st) for a in args], *kwterms(self, kwargs, st))

    def is_boundary(self, fi):
        if self.stack and self.stack[0].fi is fi and len(self.stack) == 1:
            return fi.qual in self.boundary
        return fi.qual in self.boundary

    def call_qual(self, q, args, kwargs, st, node):
        r = self.p.resolve(q)
        if r and r[0] == "func":
            fi = r[1]
            if fi.cls is not None and not fi.is_static and not fi.is_classmethod and "." in q:
                # Class.method(obj, …)
                if args:
                    return self.call_func(fi, args, kwargs, st, node)
            if fi.is_classmethod:
                args = [mk("glob", q.rpartition(".")[0]), *args]
            return self.call_func(fi, args, kwargs, st, node)
        if r and r[0] == "class":
            return self.construct(r[1], args, kwargs, st, node)
        from . import lib
        return lib.call_ext(self, q, args, kwargs, st, node)

    def bind_boundary(self, fi, args, kwargs, st, node):
        """argument list in parameter order, defaults filled in"""
        pos, var, kwo, kw = fi.params
        out = {}
        extra = []
        a = fi.node.args
        i = 0
        for j, v in enumerate(args):
            if v.op == "star":
                if i < len(pos) and i < len(pos) - len(a.defaults) and not any(n_ in kwargs for n_ in pos[i:]):
                    # fills positional parameters first
                    w, k = v.args[0], 0
                    while i < len(pos) and i < len(pos) - len(a.defaults):
                        out[pos[i]] = getitem(w, const(k))
                        i, k = i + 1, k + 1
                    v = mk("star", mk("slice", w, const(k), NONE))
                extra.append(v)
            elif i < len(pos) and not extra:
                out[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        for k, v in kwargs.items():
            out[k] = v
        defs = {}
        for name, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defs[name] = d
        for name, d in zip(kwo, a.kw_defaults):
            if d is not None:
                defs[name] = d
        for n_ in pos + kwo:
            if n_ not in out and n_ in defs:
                out[n_] = self.default(defs[n_], fi)
        lst = [(n_, out[n_]) for n_ in pos + kwo if n_ in out]
        for n_ in out:
            if n_ not in pos and n_ not in kwo:
                lst.append((n_, out[n_]))
        if var:
            lst.append(("*" + var, self.alloc(st, coll("tuple", [
                ent(L, g, x) for v in extra for L, g, x in ([((), T, v)] if v.op != "star" else self.sources(v.args[0], st))]))))
        elif extra:
            for j, v in enumerate(extra):
                lst.append((f"*{j}", v))
        return lst

    def default(self, node, fi):
        st = St({}, T)
        fr = Frame(fi, fi.module)
        fr.id = f"d:{fi.qual}"
        self.stack.append(fr)
        try:
            return self.freeze(self.ev(node, st), st)
        finally:
            self.stack.pop()

    def call_func(self, fi, args, kwargs, st, node):
        if self.is_boundary(fi):
            return self.boundary_call(fi, args, kwargs, st, node)
        if any(fr.fi is not None and fr.fi.node is fi.node for fr in self.stack):
            # recursion
            bound = self.bind_boundary(fi, args, kwargs, st, node)
            t = mk("call", fi.qual, *[self.freeze(v, st) for _, v in bound])
            self.emit(fi.qual, bound, st, node, t)
            self.set_type(t, parse_type(fi.node.returns, fi.module, self.p))
            return t
        return self.inline(fi, args, kwargs, st, node)

    def iterated(self, fi, name, v):
        """an argument that is only iterated over: a dict stands for its keys"""
        if v.op == "keys":
            a = fi.annotation(name)
            if a is not None and "Iterable" in ast.unparse(a):
                return v.args[0]
        return v

    def boundary_call(self, fi, args, kwargs, st, node, name=None):
        self.used_boundary.add(fi.qual)
        bound = self.bind_boundary(fi, args, kwargs, st, node)
        bound = [(n_, self.iterated(fi, n_, v)) for n_, v in bound]
        t = mk("call", name or fi.qual, *[self.freeze(v, st) for _, v in bound])
        self.set_type(t, parse_type(fi.node.returns, fi.module, self.p))
        self.emit(name or fi.qual, bound, st, node, t)
        self.may_raise(t, st, node)
        # locals handed to a mutating boundary
        if fi.qual in MUTATING_BOUNDARY:
            for n_, v in bound:
                if v.op == "obj":
                    c = self.val(v, st)
                    if n_ in MUTATING_BOUNDARY[fi.qual]:
                        st.vars[("c", v)] = mk("mutated", fi.qual, n_, self.freeze(c, st))
                        self.set_type(st.vars[("c", v)], parse_type(fi.annotation(n_), fi.module, self.p))
        return t

    def construct(self, ci: ClassInfo, args, kwargs, st, node):
        if ci.is_enum:
            if args and is_const(args[0]):
                for n_, v in ci.consts.items():
                    if isinstance(v, ast.Constant) and v.value == args[0].args[0]:
                        return mk("glob", f"{ci.qual}.{n_}")
            t = mk("call", ci.qual, *[self.freeze(a, st) for a in args])
            self.set_type(t, ("cls", ci.qual))
            return t
        init = self.p.find_method(ci, "__init__")
        if ci.is_dataclass and "__init__" not in ci.methods:
            names = []
            for k in reversed(self.p.mro(ci)):
                for n_ in k.fields:
                    if n_ not in names:
                        names.append(n_)
            vals = {}
            for n_, v in zip(names, args):
                vals[n_] = v
            vals.update(kwargs)
            out = []
            for n_ in names:
                if n_ in vals:
                    out.append((n_, vals[n_]))
                else:
                    d = None
                    for k in self.p.mro(ci):
                        if n_ in k.field_defaults:
                            d = k.field_defaults[n_]
                            break
                    if d is None:
                        out.append((n_, mk("missingarg", n_)))
                    elif isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
                        dv = NONE
                        for kw in d.keywords:
                            if kw.arg == "default_factory":
                                fac = ast.unparse(kw.value)
                                dv = self.alloc(st, coll({"list": "list", "dict": "dict", "set": "set"}.get(fac, "list"), ()))
                            elif kw.arg == "default":
                                dv = self.ev(kw.value, st)
                        out.append((n_, dv))
                    else:
                        out.append((n_, self.default(d, FuncInfo(ci.qual, ast.parse("lambda: 0").body[0].value, ci.module))))
            t = mk("new", ci.qual, tuple(out))
            self.set_type(t, ("cls", ci.qual))
            self.emit("new:" + ci.qual, out, st, node, t)
            return t
        if init is not None:
            bound = self.bind_boundary(init, [mk("newobj"), *args], kwargs, st, node)[1:]
        else:
            bound = [(str(i), a) for i, a in enumerate(args)] + list(kwargs.items())
        t = mk("call", ci.qual, *[self.freeze(v, st) for _, v in bound])
        self.set_type(t, ("cls", ci.qual))
        self.emit("new:" + ci.qual, bound, st, node, t)
        if not self.is_exc(ci):
            self.may_raise(t, st, node)
        return t

    def is_exc(self, ci):
        return bool(self.p.is_exc_subclass(ci.qual, "Exception"))

    def inline(self, fi, args, kwargs, st, node, parent=None, cls=None):
        if len(self.stack) > self.max_depth or sum(1 for f in self.stack if f.fi is not None and f.fi.node is fi.node) >= 1:
            t = mk("call", fi.qual, *[self.freeze(a, st) for a in args], *kwterms(self, kwargs, st))
            self.emit("rec:" + fi.qual, [(str(i), a) for i, a in enumerate(args)], st, node, t)
            return t
        fr = Frame(fi, fi.module, parent)
        fr.id = self.fresh()
        fr.cls = fi.cls
        pos, var, kwo, kw = fi.params
        a = fi.node.args
        extra = []
        i = 0
        vals = {}
        for v in args:
            if i < len(pos) and v.op != "star" and not extra:
                vals[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        rest = {}
        for k, v in kwargs.items():
            if k in pos or k in kwo:
                vals[k] = v
            else:
                rest[k] = v
        if extra and (not var or i < len(pos) - len(a.defaults)):
            # *args into positional parameters
            v = extra[0]
            if v.op == "star":
                j = 0
                while i < len(pos):
                    if pos[i] not in vals:
                        vals[pos[i]] = getitem(v.args[0], const(j))
                    j += 1
                    i += 1
        defs = {}
        for name, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defs[name] = d
        for name, d in zip(kwo, a.kw_defaults):
            if d is not None:
                defs[name] = d
        for n_ in pos + kwo:
            if n_ not in vals:
                if n_ in defs:
                    vals[n_] = self.default(defs[n_], fi)
                else:
                    vals[n_] = mk("missingarg", n_)
            pt = parse_type(fi.annotation(n_), fi.module, self.p)
            if pt and vals[n_].op in ("call", "attr", "elem", "key", "val", "item", "param"):
                self.set_type(vals[n_], pt)
            st.vars[("v", fr.id, n_)] = vals[n_]
        if var:
            ents = []
            for v in extra:
                if v.op == "star":
                    ents += [ent(L, g, x) for L, g, x in self.sources(v.args[0], st)]
                else:
                    ents.append(ent((), T, v))
            st.vars[("v", fr.id, var)] = self.alloc(st, coll("tuple", ents))
        if kw:
            st.vars[("v", fr.id, kw)] = self.alloc(st, coll("dict", [ent((), T, v, const(k)) for k, v in rest.items()]))
        self.stack.append(fr)
        entry = st.live
        y = None
        if fi.is_generator:
            y = self.alloc(st, coll("gen", ()))
            self.yieldstack.append(y)
        x = st.copy()
        try:
            if fi.is_generator:
                x.live = T

                def body():
                    self.block(fi.node.body, x)

                self.comp_guard(x, entry, body)
                if x.live is not F:
                    fr.returns.append((x.live, NONE, x.vars))
                if not fr.returns:
                    fr.returns.append((entry, NONE, x.vars))
            elif isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, x)
                fr.returns.append((x.live, v, x.vars))
            else:
                self.block(fi.node.body, x)
                if x.live is not F:
                    fr.returns.append((x.live, NONE, x.vars))
            ret, st2 = self.merge_returns(fr, entry)
        finally:
            self.stack.pop()
            if y is not None:
                self.yieldstack.pop()
        if not fr.returns:
            st.live = F
            return NONE
        if y is not None:
            st.vars = st2.vars
            r = st2.vars.get(("c", y))
            st.live = entry
            return r
        st.vars, st.live = st2.vars, st2.live
        for k in [k for k in st.vars if k[0] == "v" and k[1] == fr.id]:
            if not has_closure(self, fr):
                del st.vars[k]
        # a function returning min/max through branches
        return minmax_tree(ret)

    def call_attr(self, recv, name, args, kwargs, st, node):
        if name == "__setattr__" and len(args) == 2 and not kwargs and recv.op not in ("super", "glob"):
            return self.call(mk("glob", "setattr"), [recv, *args], {}, st, node)
        if name == "update" and len(args) == 1 and not kwargs and namespace_of(recv) is not None:
            c = self.val(args[0], st)
            if c.op == "coll" and c.args[0] == "dict" and all(e.op == "ent" and not e.args[0] and e.args[1] is T for e in c.args[1]):
                for e in c.args[1]:
                    self.call(mk("glob", "setattr"), [namespace_of(recv), e.args[3], e.args[2]], {}, st, node)
                return NONE
        if recv.op == "ite" and recv.args[1].op in ("glob", "super"):
            s1, s0 = st.copy(), st.copy()
            s1.live, s0.live = And(st.live, recv.args[0]), And(st.live, Not(recv.args[0]))
            x = self.call_attr(recv.args[1], name, args, kwargs, s1, node) if s1.live is not F else NONE
            y = self.call_attr(recv.args[2], name, args, kwargs, s0, node) if s0.live is not F else NONE
            r = self.join(s1, s0)
            st.vars, st.live = r.vars, r.live
            return ite(recv.args[0], x, y)
        if recv.op == "glob" and not simp.is_enum_member(recv):
            q = f"{recv.args[0]}.{name}"
            return self.call_qual(self.p.canonical(q), args, kwargs, st, node)
        if recv.op == "super":
            r = self.p.resolve(recv.args[1])
            if r and r[0] == "class":
                m = self.p.find_method(r[1], name, after=r[1])
                if m:
                    if self.is_boundary(m):
                        return self.boundary_call(m, [recv.args[0], *args], kwargs, st, node)
                    return self.inline(m, [recv.args[0], *args], kwargs, st, node)
            t = mk("call", "super." + name, *[self.freeze(a, st) for a in args])
            self.emit("super." + name, [(str(i), a) for i, a in enumerate(args)] + list(kwargs.items()), st, node, t)
            return t
        k = ("f", recv, name)
        if k in st.vars:
            return self.call(st.vars[k], args, kwargs, st, node)
        ty_ = strip_opt(self.ty(recv))
        if ty_ and ty_[0] == "cls":
            r = self.p.resolve(ty_[1])
            if r and r[0] == "class":
                m = self.p.find_method(r[1], name)
                if m is not None:
                    a2 = list(args) if m.is_static else [recv, *args]
                    if self.is_boundary(m):
                        return self.boundary_call(m, a2, kwargs, st, node)
                    if any(fr.fi is not None and fr.fi.node is m.node for fr in self.stack):
                        return self.call_func(m, a2, kwargs, st, node)
                    if is_abstract(m) and any(m.name in k.methods for k in self.p.subclasses(r[1]) if k is not r[1]):
                        bound = self.bind_boundary(m, a2, kwargs, st, node)
                        t = mk("call", m.qual, *[self.freeze(v, st) for _, v in bound])
                        self.set_type(t, parse_type(m.node.returns, m.module, self.p))
                        self.emit(m.qual, bound, st, node, t)
                        return t
                    return self.inline(m, a2, kwargs, st, node, cls=r[1])
        from . import lib
        return lib.call_method(self, recv, name, args, kwargs, st, node)

    # -- container mutation helpers
    def as_coll(self, v, st, kind):
        v = self.val(deslot(v), st)
        return coll(kind, [ent(L, g, x) for L, g, x in self.sources(v, st)])

    def mutate_extend(self, o, v, st):
        c = self.val(o, st)
        if c.op != "coll":
            st.vars[("c", o)] = mk("upd", c, "extend", self.freeze(v, st), b(st.live))
            return
        if c.args[0] in ("dict", "defaultdict"):
            ents = [mk(e.op, e.args[0], And(e.args[1], st.live), e.args[2], e.args[3]) for e in self.dict_entries(v, st) if e.op != "base"]
        else:
            vv = self.val(deslot(v), st)
            if vv.op == "coll" and vv.args[0] in ("dict", "defaultdict") and c.args[0] == "list":
                vv = self.val(self.call(mk("glob", "list"), [vv], {}, st, None), st)
            if vv.op == "coll" and any(e.op == "base" for e in vv.args[1]):
                vv = self.freeze(vv, st)
                L = self.loopvar(vv)
                ents = [ent((L,), st.live, L)]
            elif vv.op == "coll" and vv.args[0] == "uniq" and c.args[0] in ("list", "uniq") and not c.args[1] and st.live is self.born.get(o, T):
                st.vars[("c", o)] = vv
                return
            else:
                if self.each_once(vv, st):
                    self.approx.add("uniq")
                ents = [ent(L, And(g, st.live), x) for L, g, x in self.sources(vv, st)]
        st.vars[("c", o)] = coll(c.args[0], c.args[1] + tuple(ents))


def namespace_of(t):
    """x of vars(x), x.__dict__"""
    if t.op == "call" and t.args[0] == "vars" and len(t.args) == 2:
        return t.args[1]
    if t.op == "attr" and t.args[1] == "__dict__":
        return t.args[0]
    return None


MUTATING_BOUNDARY = {
    "auditwheel.wheel_abi._fixup_elf_trees": {"nonpy_elftree"},
    "auditwheel.wheel_abi.update": {"d"},
}


def alternatives(ents):
    """entries of one pass of a loop that exclude each other: one entry whose value is chosen"""
    out = []
    for e in ents:
        if e.op == "ent" and out and out[-1].op == "ent" and out[-1].args[0] == e.args[0] and out[-1].args[3] is e.args[3] \
                and And(out[-1].args[1], e.args[1]) is F:
            p = out[-1]
            g = Or(p.args[1], e.args[1])
            out[-1] = mk("ent", p.args[0], g, ite(simplify(p.args[1], g), p.args[2], e.args[2]), p.args[3])
        else:
            out.append(e)
    return out


def kwterms(ip, kwargs, st):
    return [mk("kw", k, ip.freeze(v, st)) for k, v in sorted(kwargs.items())]


def deslot(t):
    return t.args[2] if t.op == "slot" else t


def is_abstract(m):
    body = [s for s in m.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and "NotImplementedError" in ast.unparse(body[0])


def has_closure(ip, fr):
    return any(f is fr for _, f in ip.funcs.values())


def call_qual_len(ip, v, st):
    return ip.call_qual("len", [v], {}, st, None)


def reguard(e, c):
    if e.op in ("ent", "acc"):
        return mk(e.op, e.args[0], And(e.args[1], c), e.args[2], e.args[3])
    return e


def regard(e, g):
    """guard of an entry relative to the condition under which its container exists"""
    if e.op in ("ent", "acc"):
        h = given(e.args[1], g)
        if h is e.args[1] and h is not T and h is not F:
            q = simplify(h, g)
            if len(support(q)) < len(support(h)):
                h = q
        return e if h is e.args[1] else mk(e.op, e.args[0], h, e.args[2], e.args[3])
    return e


def rel(g, outer):
    return simplify(g, outer) if outer is not T else g


def ite_minmax(c, x, y):
    """x if x < y else y -> min"""
    if c is not T and c is not F:
        for p, q in ((x, y), (y, x)):
            a = mk("lt", p, q)
            ix = _ATOM_IX.get(a)
            if ix is None or (p.op == "ite" or q.op == "ite"):
                continue
            c1, c0 = restrict(c, ix, 1), restrict(c, ix, 0)
            if c1 is c0:
                continue
            ents = [ent((), T, x), ent((), T, y)]
            lo, hi = agg("min", ents), agg("max", ents)
            if p is y:
                lo, hi = hi, lo
            # with p < q:  x is lo (the picked one) when p is x
            if c0 is F:
                return ite_minmax(c1, lo, y) if c1 is not T else lo
            if c1 is T:
                return ite_minmax(c0, x, lo)
            if c1 is F:
                return ite_minmax(c0, hi, y) if c0 is not T else hi
            if c0 is T:
                return ite_minmax(c1, x, hi)
    return ite(c, x, y)


def minmax_tree(t):
    if t.op == "ite":
        return ite_minmax(t.args[0], minmax_tree(t.args[1]), minmax_tree(t.args[2]))
    return t


def fingerprint(x, but):
    """a key of a term that depends neither on the order of its conditions nor on the names of loop states"""
    out = set()
    for t in subterms(x):
        if t in but:
            continue
        if t.op in ("const", "glob", "param", "attr", "call"):
            out.add(f"{t.op}:{[a for a in t.args if not isinstance(a, (Term, Node, tuple))]}")
        else:
            out.add(t.op)
    return sorted(out)


LOGGERS = {"logger", "log", "logging", "_logger", "LOG"}
def registers():
    """what the normal forms know about the types of terms"""
    return simp.OBJ_OPT, simp.NOTNONE, simp.OBJ_TRUE, BOOLT, STRT


LOGM = {"debug", "info", "warning", "error", "exception", "critical", "log", "warn"}


def is_logging(n, fr, ip):
    f = n.func
    if isinstance(f, ast.Attribute) and f.attr in LOGM and isinstance(f.value, ast.Name):
        nm = f.value.id
        g = fr.module.globals.get(nm)
        if g is not None and "getLogger" in ast.unparse(g):
            return True
        if fr.module.imports.get(nm) == "logging":
            return True
    return False


# ---------------------------------------------------------------- rewriting
def has_op(t, op):
    fl = t._flags
    if fl is None:
        fl = {x.op for x in subterms(t)}
        t._flags = fl
    return op in fl


def rewrite(t, f, memo, needs=None):
    if not isinstance(t, Term):
        if isinstance(t, Node):
            return rewritef(t, f, memo, needs)
        if isinstance(t, tuple):
            return tuple(rewrite(x, f, memo, needs) for x in t)
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if needs is not None and not needs(t):
        memo[t] = t
        return t
    r = f(t)
    if r is None:
        r = rebuild(t, tuple(rewrite(a, f, memo, needs) for a in t.args))
    memo[t] = r
    return r


def rewritef(n, f, memo, needs=None):
    if n is T or n is F:
        return n
    m = {}
    same = True
    for a in support(n):
        na = rewrite_atom(a, f, memo, needs)
        m[a] = na
        if not (na.hi is T and na.lo is F and na is atom(a)):
            same = False
    if same:
        return n
    return subst_atoms(n, m)


def rewrite_atom(a, f, memo, needs=None):
    k = ("atom", a)
    if k in memo:
        return memo[k]
    if needs is not None and not needs(a):
        r = atom(a)
        memo[k] = r
        return r
    if a.op in ("exists", "prior"):
        q = f(a)
        if q is not None:
            r = memo[k] = atom(q)
            return r
    args = tuple(rewrite(x, f, memo, needs) for x in a.args)
    if all(x is y for x, y in zip(args, a.args)):
        r = atom(a)
    else:
        o = a.op
        if o == "eq":
            r = eq(*args)
        elif o == "lt":
            r = lt(*args)
        elif o == "in":
            r = in_(*args) if args[1].op != "base" else atom(mk("in", *args))
        elif o == "isnone":
            r = isnone(*args)
        elif o == "truthy":
            r = truth(*args)
        elif o == "exists":
            r = exists(*args)
        elif o == "islinux":
            r = eq(mk("attr", args[0], "priority"), const(0)) if args[0].op not in ("linux",) else T
        else:
            r = atom(mk(o, *args))
    memo[k] = r
    return r


def rebuild(t, args):
    if all(x is y for x, y in zip(args, t.args)):
        return t
    o = t.op
    if o == "ite":
        return ite(*args)
    if o == "b":
        return b(args[0])
    if o == "attr":
        return getattr_(*args)
    if o == "item":
        return getitem(*args)
    if o == "concat":
        return concat(args[0])
    if o == "join":
        return join_path(args[0])
    if o == "agg":
        return agg(args[0], args[1], args[2])
    if o == "as":
        return with_kind(args[1], args[0]) if args[0] in ("list", "tuple", "set", "frozenset", "sorted") else mk(o, *args)
    if o == "slot":
        return args[2]
    if o == "first":
        return simp.first(*args)
    return mk(o, *args)


def rebuild_ent(e, m):
    f = lambda t: m.get(t)  # noqa: E731
    L, g, v, k = e.args
    return mk(e.op, tuple(rewrite(x, f, {}) for x in L), truth(rewrite(b(g), f, {})) if g is not T else g, rewrite(v, f, {}),
              rewrite(k, f, {}) if k is not None else None)


def scrub(t, phset):
    """replace loop-carried references by an opaque marker"""
    return rewrite(t, lambda x: mk("rec", 9) if x in phset else None, {})
