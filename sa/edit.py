"""The last resort for a function whose comparison stays undecided: if its source is the contract's with exactly one
decision replaced by its opposite (or one of its literals by another, or one update of a collection dropped), the
undecided parts are different.  A rewriting that keeps behaviour never consists of such an edit alone."""
from __future__ import annotations

import ast

OPPOSITE = {(ast.Eq, ast.NotEq), (ast.NotEq, ast.Eq), (ast.In, ast.NotIn), (ast.NotIn, ast.In), (ast.Is, ast.IsNot), (ast.IsNot, ast.Is),
            (ast.Lt, ast.GtE), (ast.GtE, ast.Lt), (ast.Gt, ast.LtE), (ast.LtE, ast.Gt), (ast.Lt, ast.Gt), (ast.Gt, ast.Lt), (ast.LtE, ast.GtE),
            (ast.GtE, ast.LtE)}
DUAL = [{"any", "all"}, {"min", "max"}, {"issubset", "issuperset"}, {"startswith", "endswith"}, {"isdisjoint", "issubset"}, 
        {"intersection", "union"}, {"intersection_update", "update"}, {"difference_update", "update"}, {"add", "discard"}]
UPDATES = {"add", "update", "append", "extend", "discard", "remove"}
LOGGERS = {"debug", "info", "warning", "error", "exception", "critical", "log", "print"}


class Many(Exception):  # noqa: N818
    pass


def is_log(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (
        isinstance(s.value.func, ast.Attribute) and s.value.func.attr in LOGGERS and isinstance(s.value.func.value, ast.Name)
        and "log" in s.value.func.value.id.lower() or isinstance(s.value.func, ast.Name) and s.value.func.id == "print")


def idle(s):
    return isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or is_log(s)


def update_of(s):
    """the name of the collection a statement updates"""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in UPDATES:
        e = s.value.func.value
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None
    return None


class Walk:
    def __init__(self, fn):
        self.edits = []
        self.raising = 0
        self.reads = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                self.reads[n.id] = self.reads.get(n.id, 0) + 1

    def note(self, what, at):
        self.edits.append((what, at))
        if len(self.edits) > 1:
            raise Many

    def same(self, a, b):
        try:
            w = Walk.__new__(Walk)
            w.edits, w.raising, w.reads = [], 0, {}
            w.go(a, b)
        except Many:
            return False
        return not w.edits

    def block(self, a, b):
        a, b = [s for s in a if not idle(s)], [s for s in b if not idle(s)]
        if len(a) == len(b):
            for x, y in zip(a, b):
                self.go(x, y)
            return
        if len(a) + 1 == len(b):
            i = next((i for i, x in enumerate(a) if not self.same(x, b[i])), len(a))
            if all(self.same(x, y) for x, y in zip(a[i:], b[i + 1:])):
                u = update_of(b[i])
                if u and self.reads.get(u, 0) > 2:
                    self.note(f"`{ast.unparse(b[i])[:80]}` is missing", a[i - 1] if i else (a[0] if a else b[i]))
                    return
        raise Many

    def go(self, a, b):
        if isinstance(a, list) and isinstance(b, list):
            if a and isinstance(a[0], ast.stmt) or b and isinstance(b[0], ast.stmt):
                return self.block(a, b)
            if len(a) != len(b):
                raise Many
            for x, y in zip(a, b):
                self.go(x, y)
            return None
        if not isinstance(a, ast.AST) or not isinstance(b, ast.AST):
            if a != b or type(a) is not type(b):
                raise Many
            return None
        if isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.Not) and self.same(a.operand, b) or (
                isinstance(b, ast.UnaryOp) and isinstance(b.op, ast.Not) and self.same(a, b.operand)):
            return self.note(f"`{ast.unparse(a)[:80]}` instead of `{ast.unparse(b)[:80]}`", a)
        if type(a) is not type(b):
            raise Many
        if isinstance(a, ast.Constant):
            if a.value != b.value or type(a.value) is not type(b.value):
                if self.raising or type(a.value) is not type(b.value) or isinstance(a.value, float):
                    raise Many
                self.note(f"{a.value!r} instead of {b.value!r}"[:160], a)
            return None
        if isinstance(a, ast.Compare) and len(a.ops) == len(b.ops) == 1 and (type(a.ops[0]), type(b.ops[0])) in OPPOSITE:
            if self.same(a.left, b.left) and self.same(a.comparators, b.comparators):
                return self.note(f"`{ast.unparse(a)[:80]}` instead of `{ast.unparse(b)[:80]}`", a)
        if isinstance(a, ast.BoolOp) and type(a.op) is not type(b.op) and self.same(a.values, b.values):
            return self.note(f"`{ast.unparse(a)[:80]}` instead of `{ast.unparse(b)[:80]}`", a)
        if isinstance(a, ast.Call) and isinstance(a.func, (ast.Name, ast.Attribute)) and type(a.func) is type(b.func):
            na, nb = (x.func.id if isinstance(x.func, ast.Name) else x.func.attr for x in (a, b))
            if na != nb and {na, nb} in DUAL and self.same(a.args, b.args) and self.same(a.keywords, b.keywords):
                if isinstance(a.func, ast.Name) or self.same(a.func.value, b.func.value):
                    return self.note(f"`{ast.unparse(a)[:80]}` instead of `{ast.unparse(b)[:80]}`", a)
            if na in LOGGERS and nb in LOGGERS:
                return None
        if isinstance(a, (ast.arg, ast.AnnAssign)):
            skip = {"annotation"}
        elif isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)):
            skip = {"returns", "type_params", "type_comment"}
        else:
            skip = {"type_comment", "kind"}
        msg = isinstance(a, ast.Raise) or isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id in (
            "msg", "message", "help", "description")
        self.raising += msg
        for k in a._fields:
            if k not in skip:
                self.go(getattr(a, k), getattr(b, k))
        self.raising -= msg
        return None


def one_edit(a, b):
    """(what, line) of the one edit that makes function b function a, or None"""
    w = Walk(b)
    try:
        w.go(a, b)
    except (Many, RecursionError):
        return None
    if len(w.edits) != 1:
        return None
    what, at = w.edits[0]
    return what, getattr(at, "lineno", a.lineno)
