"""Types from annotations."""
from __future__ import annotations

import ast

SEQ = {"list", "set", "frozenset", "Iterable", "Iterator", "Generator", "Sequence", "Collection", "List", "Set", "deque"}
DICT = {"dict", "Mapping", "defaultdict", "Dict", "MutableMapping", "OrderedDict"}
PRIM = {"int", "str", "bool", "float", "bytes", "None", "object", "Any"}


def parse_type(n, module, project):
    if n is None:
        return None
    if isinstance(n, ast.Constant):
        if n.value is None:
            return ("none",)
        if isinstance(n.value, str):
            try:
                return parse_type(ast.parse(n.value, mode="eval").body, module, project)
            except SyntaxError:
                return None
        return None
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        return union([parse_type(n.left, module, project), parse_type(n.right, module, project)])
    if isinstance(n, ast.Subscript):
        head = ast.unparse(n.value).split(".")[-1]
        sl = n.slice
        args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if head == "Optional":
            return union([parse_type(args[0], module, project), ("none",)])
        if head == "Union":
            return union([parse_type(a, module, project) for a in args])
        if head in DICT and len(args) == 2:
            return ("dict", parse_type(args[0], module, project), parse_type(args[1], module, project))
        if head in SEQ:
            return ("seq", parse_type(args[0], module, project))
        if head in ("tuple", "Tuple"):
            if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                return ("seq", parse_type(args[0], module, project))
            return ("tuple", tuple(parse_type(a, module, project) for a in args))
        if head == "type":
            return None
        return None
    if isinstance(n, (ast.Name, ast.Attribute)):
        s = ast.unparse(n)
        last = s.split(".")[-1]
        if s in PRIM:
            return ("prim", s) if s not in ("Any", "object") else None
        if last in DICT:
            return ("dict", None, None)
        if last in SEQ or last == "tuple":
            return ("seq", None)
        alias = module.globals.get(s) if module is not None else None
        if alias is not None and not isinstance(alias, (ast.Name, ast.Attribute)):
            # a type variable, or an alias
            return parse_type(alias, module, project) if isinstance(alias, (ast.Subscript, ast.BinOp)) else None
        q = project.name_to_qual(s, module)
        if q:
            r = project.resolve(q)
            if r and r[0] == "class":
                return ("cls", r[1].qual)
            return ("ext", q)
        return ("ext", s)
    return None


def union(ts):
    none = any(t == ("none",) or (t and t[0] == "opt") for t in ts)
    rest = []
    for t in ts:
        if t == ("none",):
            continue
        if t and t[0] == "opt":
            t = t[1]
        if t not in rest:
            rest.append(t)
    if len(rest) == 1:
        r = rest[0]
    else:
        r = ("union", tuple(rest))
    return ("opt", r) if none else r


def strip_opt(t):
    while t and t[0] == "opt":
        t = t[1]
    return t
