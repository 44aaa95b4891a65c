"""Development aid (not a check): behaviour-preserving rewrites of /repo, one kind at a time,
optionally one site at a time, to see that the comparison stays quiet."""
import ast, copy, json, sys, tempfile, shutil
from pathlib import Path
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
REPO = Path("/repo")
from dev.mutate import FILES


def own(fn):
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def name(s, ctx=None):
    return ast.Name(s, ctx or ast.Load())


def assign(n, v):
    return ast.Assign([name(n, ast.Store())], v)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def terminates(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class R(ast.NodeTransformer):
    """applies one kind at every (or the k-th) opportunity"""

    def __init__(self, kind, only=None):
        self.kind, self.only, self.count, self.tmp = kind, only, 0, 0

    def hit(self):
        self.count += 1
        return self.only is None or self.count - 1 == self.only

    def fresh(self, p="tmp"):
        self.tmp += 1
        return f"{p}_{self.tmp}"

    def visit(self, n):
        n = super().visit(n)
        return n

    # -- statement lists
    def generic_visit(self, n):
        super().generic_visit(n)
        for fld in ("body", "orelse", "finalbody"):
            bl = getattr(n, fld, None)
            if isinstance(bl, list) and bl and isinstance(bl[0], ast.stmt) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, fld, self.block(bl, n, fld))
        return n

    def visit_ClassDef(self, n):
        return self.generic_visit(n)

    def block(self, bl, parent, fld):
        out = []
        k = self.kind
        i = 0
        while i < len(bl):
            s = bl[i]
            rep = None
            if k == "noop":
                if self.hit():
                    out.append(assign("_unused", ast.Constant(None)))
            elif k == "invert" and isinstance(s, ast.If) and s.orelse:
                if self.hit():
                    rep = [ast.If(neg(s.test), s.orelse, s.body)]
            elif k == "guard_else" and isinstance(s, ast.If) and not s.orelse and terminates(s.body) and i + 1 < len(bl):
                if self.hit():
                    out.append(ast.If(s.test, s.body, bl[i + 1:]))
                    return out
            elif k == "else_guard" and isinstance(s, ast.If) and s.orelse and terminates(s.body):
                if self.hit():
                    rep = [ast.If(s.test, s.body, []), *s.orelse]
            elif k == "early_continue" and isinstance(s, ast.If) and not s.orelse and i == len(bl) - 1 and isinstance(parent, ast.For) and fld == "body":
                if self.hit():
                    rep = [ast.If(neg(s.test), [ast.Continue()], []), *s.body]
            elif k == "split_and" and isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                if self.hit():
                    v = s.test.values
                    rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
                    rep = [ast.If(v[0], [ast.If(rest, s.body, [])], [])]
            elif k == "condvar" and isinstance(s, ast.If) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                if self.hit():
                    t = self.fresh("cond")
                    rep = [assign(t, s.test), ast.If(name(t), s.body, s.orelse)]
            elif k == "ternary" and isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                if self.hit():
                    rep = [ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])]
            elif k == "ret_ternary" and isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                if self.hit():
                    rep = [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
            elif k == "ret_var" and isinstance(s, ast.Return) and s.value is not None:
                if self.hit():
                    t = self.fresh("result")
                    rep = [assign(t, s.value), ast.Return(name(t))]
            elif k == "comp_loop" and isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign)) and isinstance(s.value, (ast.ListComp, ast.SetComp, ast.DictComp)):
                if self.hit():
                    c = s.value
                    t = self.fresh("acc")
                    if isinstance(c, ast.ListComp):
                        init, body = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [c.elt], []))
                    elif isinstance(c, ast.SetComp):
                        init, body = ast.Call(name("set"), [], []), ast.Expr(ast.Call(ast.Attribute(name(t), "add", ast.Load()), [c.elt], []))
                    else:
                        init, body = ast.Dict([], []), ast.Assign([ast.Subscript(name(t), c.key, ast.Store())], c.value)
                    for g in reversed(c.generators):
                        for cond in reversed(g.ifs):
                            body = ast.If(cond, [body], [])
                        body = ast.For(g.target, g.iter, [body], [])
                    s2 = copy.copy(s)
                    s2.value = name(t)
                    rep = [assign(t, init), body, s2]
            elif k == "loop_comp" and i + 1 < len(bl) and isinstance(s, ast.For) and not s.orelse and len(s.body) == 1:
                pass
            elif k == "items_get" and isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) and not s.iter.args:
                if self.hit():
                    d = s.iter.func.value
                    rep = [ast.For(s.target.elts[0], d, [ast.Assign([s.target.elts[1]], ast.Subscript(copy.deepcopy(d), name(s.target.elts[0].id), ast.Load())), *s.body], s.orelse)]
            elif k == "items_pair" and isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
                if self.hit():
                    t = self.fresh("pair")
                    rep = [ast.For(name(t, ast.Store()), s.iter, [ast.Assign([s.target], name(t)), *s.body], s.orelse)]
            elif k == "list_iter" and isinstance(s, ast.For):
                if self.hit():
                    rep = [ast.For(s.target, ast.Call(name("list"), [s.iter], []), s.body, s.orelse)]
            elif k == "iter_var" and isinstance(s, ast.For):
                if self.hit():
                    t = self.fresh("seq")
                    rep = [assign(t, s.iter), ast.For(s.target, name(t), s.body, s.orelse)]
            elif k == "unpack" and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
                if self.hit():
                    t = self.fresh("pair")
                    rep = [assign(t, s.value)] + [ast.Assign([e], ast.Subscript(name(t), ast.Constant(j), ast.Load())) for j, e in enumerate(s.targets[0].elts)]
            elif k == "arg_temp" and isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.args[0], (ast.Call, ast.BinOp, ast.JoinedStr, ast.Attribute, ast.ListComp)) and not isinstance(s.value.func, ast.Call):
                f = s.value.func
                if not (isinstance(f, ast.Attribute) and any(isinstance(x, ast.Call) for x in ast.walk(f.value))):
                    if self.hit():
                        t = self.fresh("arg")
                        s2 = copy.copy(s)
                        s2.value = ast.Call(f, [name(t), *s.value.args[1:]], s.value.keywords)
                        rep = [assign(t, s.value.args[0]), s2]
            elif k == "recv_temp" and isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.If)) :
                v = s.test if isinstance(s, ast.If) else s.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, (ast.Call, ast.BinOp, ast.Attribute)) and "logger" not in ast.unparse(v) and not isinstance(getattr(v.func.value, "func", None), ast.Name):
                    if self.hit():
                        t = self.fresh("obj")
                        v2 = ast.Call(ast.Attribute(name(t), v.func.attr, ast.Load()), v.args, v.keywords)
                        s2 = copy.copy(s)
                        if isinstance(s, ast.If):
                            s2.test = v2
                        else:
                            s2.value = v2
                        rep = [assign(t, v.func.value), s2]
            elif k == "ret_bool" and isinstance(s, ast.Return) and isinstance(s.value, (ast.Compare, ast.UnaryOp)) and not (isinstance(s.value, ast.UnaryOp) and not isinstance(s.value.op, ast.Not)):
                if self.hit():
                    rep = [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
            elif k == "any_loop" and isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("any", "all") and isinstance(s.value.args[0], ast.GeneratorExp):
                if self.hit():
                    g = s.value.args[0]
                    isany = s.value.func.id == "any"
                    body = ast.If(g.elt if isany else neg(g.elt), [ast.Return(ast.Constant(isany))], [])
                    for c in reversed(g.generators):
                        for cond in reversed(c.ifs):
                            body = ast.If(cond, [body], [])
                        body = ast.For(c.target, c.iter, [body], [])
                    rep = [body, ast.Return(ast.Constant(not isany))]
            elif k == "any_var" and isinstance(s, (ast.If,)) and isinstance(s.test, ast.Call) and isinstance(s.test.func, ast.Name) and s.test.func.id in ("any", "all") and isinstance(s.test.args[0], ast.GeneratorExp):
                if self.hit():
                    g = s.test.args[0]
                    isany = s.test.func.id == "any"
                    t = self.fresh("flag")
                    body = ast.If(g.elt if isany else neg(g.elt), [assign(t, ast.Constant(isany)), ast.Break()], [])
                    c = g.generators
                    if len(c) == 1:
                        for cond in reversed(c[0].ifs):
                            body = ast.If(cond, [body], [])
                        body = ast.For(c[0].target, c[0].iter, [body], [])
                        rep = [assign(t, ast.Constant(not isany)), body, ast.If(name(t), s.body, s.orelse)]
            elif k == "swap_assign" and i + 1 < len(bl) and simple(s) and simple(bl[i + 1]) and independent(s, bl[i + 1]):
                if self.hit():
                    out += [bl[i + 1], s]
                    i += 2
                    continue
            elif k == "inline_temp" and i + 1 < len(bl) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not isinstance(s.value, (ast.Call,)):
                nm = s.targets[0].id
                uses = sum(1 for x in bl[i + 1:] for y in ast.walk(x) if isinstance(y, ast.Name) and y.id == nm)
                first = [y for y in ast.walk(bl[i + 1]) if isinstance(y, ast.Name) and y.id == nm]
                loopy = any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(bl[i + 1]))
                if uses == 1 and len(first) == 1 and isinstance(first[0].ctx, ast.Load) and not loopy and fld == "body" and isinstance(parent, ast.FunctionDef):
                    if self.hit():
                        class S(ast.NodeTransformer):
                            def visit_Name(q, n):
                                return s.value if n.id == nm and isinstance(n.ctx, ast.Load) else n
                        out.append(S().visit(bl[i + 1]))
                        i += 2
                        continue
            elif k == "extend_loop" and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("extend",) and len(s.value.args) == 1:
                if self.hit():
                    t = self.fresh("el")
                    rep = [ast.For(name(t, ast.Store()), s.value.args[0], [ast.Expr(ast.Call(ast.Attribute(s.value.func.value, "append", ast.Load()), [name(t)], []))], [])]
            elif k == "with_split" and isinstance(s, ast.With) and len(s.items) == 2:
                if self.hit():
                    rep = [ast.With([s.items[0]], [ast.With([s.items[1]], s.body)])]
            elif k == "else_drop" and isinstance(s, ast.If) and s.orelse and not terminates(s.body) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.Assign):
                pass
            elif k == "loop_helper" and isinstance(s, ast.For) and self.can_extract(s, parent):
                if self.hit():
                    t = self.fresh("handle")
                    tn = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
                    fd = ast.FunctionDef(t, ast.arguments([], [ast.arg(x) for x in tn], None, [], [], None, []), fix_continue(s.body), [], None)
                    fd.type_params = []
                    rep = [fd, ast.For(s.target, s.iter, [ast.Expr(ast.Call(name(t), [name(x) for x in tn], []))], s.orelse)]
            if rep is None:
                out.append(s)
            else:
                out += rep
            i += 1
        return out

    def can_extract(self, s, parent):
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.AugAssign, ast.FunctionDef)):
                return False
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                # locals of the body only: be careful, require not otherwise used
                if n.id in getattr(self, "outer_names", ()):
                    return False
        return not any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) for n in ast.walk(ast.Module(s.body, [])))

    # -- expressions
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if self.kind == "fstring" and all(isinstance(v, ast.Constant) or (v.conversion == -1 and v.format_spec is None) for v in n.values) and n.values:
            if self.hit():
                parts = [v if isinstance(v, ast.Constant) else ast.Call(name("str"), [v.value], []) for v in n.values]
                r = parts[0]
                for p in parts[1:]:
                    r = ast.BinOp(r, ast.Add(), p)
                return r
        if self.kind == "fstring_format" and all(isinstance(v, ast.Constant) or (v.conversion == -1 and v.format_spec is None) for v in n.values):
            if self.hit():
                t = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
                return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), [v.value for v in n.values if not isinstance(v, ast.Constant)], [])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.kind == "joinpath" and isinstance(n.op, ast.Div):
            if self.hit():
                return ast.Call(ast.Attribute(n.left, "joinpath", ast.Load()), [n.right], [])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.kind == "eq_swap" and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            if self.hit():
                return ast.Compare(n.comparators[0], n.ops, [n.left])
        if self.kind == "not_in" and len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.IsNot, ast.NotEq)):
            if self.hit():
                m = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}[type(n.ops[0])]
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m()], n.comparators))
        if self.kind == "lt_swap" and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            if self.hit():
                m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]
                return ast.Compare(n.comparators[0], [m()], [n.left])
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.kind == "demorgan":
            if self.hit():
                return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [neg(v) for v in n.values])) if getattr(n, "_cond", False) else n
        return n

    def visit_If(self, n):
        if self.kind == "demorgan":
            if isinstance(n.test, ast.BoolOp):
                n.test._cond = True
        return self.generic_visit(n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.kind == "len0" and isinstance(n.func, ast.Name) and n.func.id == "len":
            pass
        if self.kind == "set_union" and isinstance(n.func, ast.Attribute) and n.func.attr == "union":
            pass
        if self.kind == "gen_list" and isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "sorted", "set", "max", "min", "list", "tuple") and len(n.args) >= 1 and isinstance(n.args[0], ast.GeneratorExp):
            if self.hit():
                n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        if self.kind == "join_list" and isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            if self.hit():
                n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        return n

    def visit_FunctionDef(self, n):
        if self.kind == "rename":
            if self.hit():
                a = n.args
                params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
                nested = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n]
                bad = {y.arg for x in nested for y in x.args.args}
                gl = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
                loc = {x.id for x in own(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - bad - gl
                hn = {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
                loc -= hn
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id in loc:
                        x.id = x.id + "_renamed"
                    if isinstance(x, ast.MatchAs) and x.name in loc:
                        x.name += "_renamed"
            return n
        return self.generic_visit(n)


def fix_continue(b):
    return b


def simple(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(x, (ast.Call, ast.Yield, ast.NamedExpr)) for x in ast.walk(s.value))


def independent(a, z):
    na = {x.id for x in ast.walk(a) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    nz = {x.id for x in ast.walk(z) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    ua = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
    uz = {x.id for x in ast.walk(z) if isinstance(x, ast.Name)}
    return not (na & uz) and not (nz & ua)


class Wrap(ast.NodeTransformer):
    """moves every function body into a helper the function delegates to"""

    def __init__(self, only=None):
        self.only, self.count = only, 0
        self.new = []
        self.cls = None

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                r = self.fn(s, None)
                out += r
            elif isinstance(s, ast.ClassDef):
                body = []
                for m in s.body:
                    body += self.fn(m, s) if isinstance(m, ast.FunctionDef) else [m]
                s.body = body
                out.append(s)
            else:
                out.append(s)
        n.body = out
        return n

    def fn(self, f, cls):
        a = f.args
        if f.decorator_list or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(f)) or any(
                isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)) or (f.name.startswith("__") and f.name != "__exit__"):
            return [f]
        self.count += 1
        if self.only is not None and self.count - 1 != self.only:
            return [f]
        h = copy.deepcopy(f)
        h.name = "_do_" + f.name.strip("_")
        args = a.posonlyargs + a.args
        call = [name(x.arg) for x in (args[1:] if cls else args)]
        if a.vararg:
            call.append(ast.Starred(name(a.vararg.arg), ast.Load()))
        kws = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
        if a.kwarg:
            kws.append(ast.keyword(None, name(a.kwarg.arg)))
        fn = ast.Attribute(name(args[0].arg), h.name, ast.Load()) if cls else name(h.name)
        f.body = [ast.Return(ast.Call(fn, call, kws))]
        return [h, f]


KINDS = ["noop", "invert", "guard_else", "else_guard", "early_continue", "split_and", "condvar", "ternary", "ret_ternary", "ret_var", "comp_loop",
         "items_get", "items_pair", "list_iter", "iter_var", "unpack", "arg_temp", "recv_temp", "ret_bool", "any_loop", "any_var", "swap_assign",
         "inline_temp", "extend_loop", "with_split", "loop_helper", "fstring", "fstring_format", "joinpath", "eq_swap", "not_in", "lt_swap",
         "demorgan", "gen_list", "join_list", "rename", "wrap", "tail_helper"]


class Tail(ast.NodeTransformer):
    """extracts the tail of a function body (from statement i on) into a new top-level helper"""

    def __init__(self, only=None):
        self.only, self.count = only, 0

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                out += self.fn(s)
            else:
                out.append(s)
        n.body = out
        return n

    def fn(self, f):
        if len(f.body) < 3 or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(f)):
            return [f]
        self.count += 1
        if self.only is not None and self.count - 1 != self.only:
            return [f]
        i = len(f.body) // 2
        head, tail = f.body[:i], f.body[i:]
        a = f.args
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        for s in head:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    loc.add(x.id)
                if isinstance(x, ast.FunctionDef):
                    loc.add(x.name)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    loc |= {(a.asname or a.name).split(".")[0] for a in x.names}
        comp = set()
        for s in head:
            for x in ast.walk(s):
                if isinstance(x, ast.comprehension):
                    comp |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        real = {x.id for s in head for x in own(ast.Module([s], [])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        used = []
        for s in tail:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in loc and x.id not in used:
                    used.append(x.id)
        h = ast.FunctionDef("_rest_of_" + f.name.strip("_"), ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), tail, [], None)
        h.type_params = []
        f.body = head + [ast.Return(ast.Call(name(h.name), [name(u) for u in used], []))]
        return [h, f]


def transform(rel, kind, only=None):
    src = (REPO / "src/auditwheel" / rel).read_text()
    t = ast.parse(src)
    tr = {"wrap": Wrap, "tail_helper": Tail}.get(kind)
    tr = tr(only) if tr else R(kind, only)
    t = tr.visit(t)
    ast.fix_missing_locations(t)
    code = ast.unparse(t)
    compile(code, rel, "exec")
    return code, tr.count


def evaluate(job):
    sys.setrecursionlimit(50000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    kind, changes = job
    from sa.contract import Contract
    d = Path(tempfile.mkdtemp(prefix="ref"))
    try:
        shutil.copytree(REPO / "src", d / "src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        for rel, code in changes.items():
            (d / "src/auditwheel" / rel).write_text(code)
        what = []
        n = 0
        try:
            C = Contract(d)
            for f in C.spec.project.all_functions():
                if "_vendor" in f.qual:
                    continue
                for r in C.compare(f.qual):
                    n += 1
                    if r.verdict:
                        what.append((r.verdict, r.func, r.aspect, str(r.diffs[:2])[:700]))
        except Exception as e:
            what.append((-1, "crash", "", repr(e)[:300]))
        return kind, n, what
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    kinds = sys.argv[1:] or KINDS
    jobs = []
    for k in kinds:
        ch = {}
        tot = 0
        for rel in FILES:
            try:
                code, n = transform(rel, k)
            except SyntaxError as e:
                print("syntax", rel, k, e)
                continue
            if n:
                ch[rel] = code
                tot += n
        jobs.append((k, ch))
        print(k, tot, "sites")
    allw = {}
    with ProcessPoolExecutor(8) as ex:
        for kind, n, what in ex.map(evaluate, jobs):
            d = [w for w in what if w[0] == 2]
            u = [w for w in what if w[0] == 1]
            c = [w for w in what if w[0] == -1]
            print(f"{kind}: {n} obligations, DIFF {len(d)}, undecided {len(u)}, crash {len(c)}")
            allw[kind] = what
    json.dump(allw, open("/tmp/ref.json", "w"), indent=1)
