"""Random interpretation of terms.

Two summaries that the normal forms leave apart may still denote the same thing.
Before a difference is reported, both terms are interpreted under many random
assignments of their atoms (parameters, fields, results of opaque operations),
the operations that have a meaning of their own (strings, collections,
comparisons, quantifiers, folds) being given that meaning.  A pair of terms no
assignment tells apart is not reported (Gulwani & Necula, "Discovering affine
equalities using random interpretation"; here used in one direction only: to
withhold a report, never to establish that a property holds).
"""
from __future__ import annotations

import posixpath
import random
import time

from . import simp
from .simp import truth
from .terms import F, Node, T, Term, atom_term, is_const, mk, subterms, support


TRACE = None  # for diagnosis: terms without a value


class Undef(Exception):
    """the assignment gives the term no value (lookup of a missing key, …)"""


class Endless(Undef):
    """a loop that does not come to its end"""


class Opaque(Exception):
    """the term cannot be interpreted"""


class P(str):
    """a path"""
    __slots__ = ()


class Obj:
    __slots__ = ("key", "shape", "rank")

    def __init__(self, key, shape, rank=None):
        self.key, self.shape, self.rank = key, shape, rank

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Obj) and self.key == o.key

    def __repr__(self):
        return f"<{self.key}>"


class Member:
    __slots__ = ("qual",)

    def __init__(self, qual):
        self.qual = qual

    def __hash__(self):
        return hash(self.qual)

    def __eq__(self, o):
        return isinstance(o, Member) and o.qual == self.qual

    def __repr__(self):
        return self.qual


class Rec:
    __slots__ = ("cls", "fields", "_h")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.cls, tuple(sorted(self.fields.items(), key=lambda x: x[0]))))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Rec) and o.cls == self.cls and o.fields == self.fields

    def __repr__(self):
        return f"{self.cls}({self.fields})"


class D(dict):
    __slots__ = ()

    def __hash__(self):
        return hash(frozenset(self.items()))

    def __repr__(self):
        return "D" + dict.__repr__(self)


class Open(D):
    """a dictionary of the outside world: it also has a value for the keys nobody asked for"""
    __slots__ = ("shape", "key")


MISSING = Obj("absent", ())
UNDEF = Obj("undefined", ())
STR_OPS = {"startswith", "endswith", "substr", "before", "after", "rbefore", "rafter", "startswith*"}
STR_METHODS = {
    "lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "removeprefix", "removesuffix", "title", "casefold",
    "capitalize", "partition", "rpartition", "isdigit", "isalpha", "isnumeric", "isdecimal", "isidentifier", "isupper", "islower", "isspace", "isalnum",
    "find", "rfind", "index", "rindex", "splitlines", "zfill", "count", "startswith", "endswith", "join", "encode", "format", "swapcase", "expandtabs", "ljust", "rjust", "center",
}
PATH_ATTRS = {"name", "parent", "stem", "suffix", "parts", "suffixes", "anchor"}
MAXN = 3


class Shapes:
    """what the values of a shape have to be able to do, by their uses in the terms at hand

    The shape of a value says where it comes from: a parameter, the result of an operation,
    a field of a class, followed by how it was reached from there (element, value, item)."""

    def __init__(self, roots, typers=()):
        self.typers = typers
        self.need = {}
        self.consts = {}
        self.types = {}
        self.strings, self.ints = set(), {0, 1, 2}
        self.seps = set()
        self.hints = {}
        self.derived = set()
        self.memo = {}
        self.tmemo = {}
        seen = set()
        for r in roots:
            subterms(r, seen)
        self.terms = seen
        self.whiles = {}
        for t in seen:
            if t.op in ("param", "attr", "call", "elem", "val", "item", "glob"):
                x = self.ty(t)
                if x is not None:
                    for k in self.keys(t):
                        self.types.setdefault(k, x)
        self.pairs = []
        self.tuples = set()
        for t in seen:
            self.use(t)
        # what is compared for equality is of one kind
        for _ in range(2):
            for x, y in self.pairs:
                for p in self.keys(x):
                    for q in self.keys(y):
                        for p_, q_ in ((p, q), (q, p)):
                            if p_ not in self.types and q_ in self.types:
                                self.types[p_] = self.types[q_]
                            for m in (self.need, self.consts, self.hints):
                                if q_ in m:
                                    m.setdefault(p_, set()).update(m[q_])

    def ty(self, t):
        if t in self.tmemo:
            return self.tmemo[t]
        x = None
        for ty in self.typers:
            try:
                x = ty(t)
            except Exception:  # noqa: BLE001
                x = None
            if x is not None:
                break
        self.tmemo[t] = x
        return x

    def cls(self, t):
        x = self.ty(t)
        while x and x[0] == "opt":
            x = x[1]
        return x[1] if x and x[0] == "cls" else None

    def keys(self, t, path=(), d=0):
        k = (t, path)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = []
            r = self.memo[k] = list(dict.fromkeys(self._keys(t, path, d)))
        return r

    def _keys(self, t, path, d):
        if d > 40 or not isinstance(t, Term):
            return []
        o, a = t.op, t.args
        d += 1
        if path and isinstance(path[0], tuple) and path[0][0] == "attr":
            c = self.cls(t)
            if c:
                return [(("cls", c), *path)]
        if o == "param":
            return [(("param", a[0]), *path)]
        if o in ("rec", "baseref", "objref", "phiref"):
            return [((o, *a), *path)]
        if o == "glob":
            return [(("glob", a[0]), *path)]
        if o == "call":
            n = a[0] if isinstance(a[0], str) else "?"
            if n in ("resolve", "absolute", "os.path.normpath", "os.path.abspath", "os.path.join"):
                return []
            if n == "method.get" and len(a) > 2:
                return self.keys(a[1], ("val", *path), d)
            return [(("call", n), *path)]
        if o == "excof":
            return [(("excof",), *path)]
        if o == "mutated":
            return [(("mutated", a[0]), *path)]
        if o == "attr":
            return self.keys(a[0], (("attr", a[1]), *path), d) or [(("attr", a[1]), *path)]
        if o == "elem":
            return self.keys(a[0], ("elem", *path), d)
        if o == "key":
            return self.keys(a[0], path, d)
        if o == "val":
            e = a[0]
            if e.op == "key":
                e = e.args[0]
            return self.keys(e.args[0], ("val", *path), d) if e.op == "elem" else []
        if o == "values":
            return self.keys(a[0], ("val", *path[1:]), d) if path and path[0] == "elem" else []
        if o == "item":
            return self.keys(a[0], (("item", a[1].args[0]) if is_const(a[1]) else "val", *path), d)
        if o == "ite":
            return self.keys(a[1], path, d) + self.keys(a[2], path, d)
        if o == "first":
            return self.keys(a[2], path, d)
        if o == "lastof":
            return self.keys(a[2], path, d) + self.keys(a[3], path, d)
        if o == "last":
            return self.keys(a[1], path, d)
        if o == "agg":
            return [k for e in a[1] for k in self.keys(e.args[2], path, d)]
        if o == "as":
            return self.keys(a[1], path, d)
        if o in ("slice", "carry", "copyof"):
            return self.keys(a[0], path, d)
        if o == "arith" and a[0] in ("Add", "BitOr", "Sub", "BitAnd") and path and len(a) == 3:
            return self.keys(a[1], path, d) + (self.keys(a[2], path, d) if a[0] in ("Add", "BitOr") else [])
        if o == "fold":
            return self.keys(a[1], path, d)
        if o == "new" and path and isinstance(path[0], tuple) and path[0][0] == "attr":
            for n, v in a[1]:
                if n == path[0][1]:
                    return self.keys(v, path[1:], d)
            return [(("cls", a[0]), *path)]
        if o == "tup" and path:
            if path[0] == "elem":
                return [k for x in a for k in self.keys(x, path[1:], d)]
            if isinstance(path[0], tuple) and isinstance(path[0][1], int) and -len(a) <= path[0][1] < len(a):
                return self.keys(a[path[0][1]], path[1:], d)
            return []
        if o == "coll" and path:
            out = []
            for e in a[1]:
                if e.op not in ("ent", "acc"):
                    out += self.keys(e, path, d)
                elif path[0] == "elem":
                    out += self.keys(e.args[3] if e.args[3] is not None else e.args[2], path[1:], d)
                else:
                    out += self.keys(e.args[2], path[1:], d)
            return out
        return []

    def want(self, t, what, path=()):
        for k in self.keys(t, path):
            self.need.setdefault(k, set()).add(what)
            # containers on the way
            for i in range(1, len(k)):
                p = k[i]
                w = "iter" if p == "elem" else "dict" if p == "val" else p
                self.need.setdefault(k[:i], set()).add(w)

    def hint(self, t, kind, v):
        for k in self.keys(t):
            self.hints.setdefault(k, set()).add((kind, v))

    def lit(self, t, v):
        for k in self.keys(t):
            self.consts.setdefault(k, set()).add(v)

    def use(self, t):
        o, a = t.op, t.args
        if o == "const":
            self.literal(a[0])
        elif o in ("elem",):
            self.want(a[0], "iter")
        elif o == "val":
            e = a[0].args[0] if a[0].op == "key" else a[0]
            if e.op == "elem":
                self.want(e.args[0], "dict")
        elif o in ("item",):
            if is_const(a[1]):
                self.want(a[0], ("item", a[1].args[0]))
            else:
                self.want(a[0], "dict")
        elif o in STR_OPS:
            k = a[1] if o != "substr" else a[0]
            x = a[0] if o != "substr" else a[1]
            if is_const(k) and isinstance(k.args[0], str):
                self.hint(x, {"startswith": "pre", "endswith": "suf", "substr": "sub"}.get(o, "sep"), k.args[0])
                if o in ("before", "after", "rbefore", "rafter"):
                    self.seps.add(k.args[0])
            elif o in ("startswith", "startswith*", "substr"):
                self.derived.add(k)
            for x in a[:2]:
                if o != "startswith*" or x is a[0]:
                    self.want(x, "str")
        elif o == "slice":
            self.want(a[0], "sliced")
        elif o == "concat":
            self.derived.add(t)
            for x in a[0]:
                self.want(x, "str")
        elif o == "joinstr":
            self.want(a[1], "str", ("elem",))
            self.want(a[0], "str")
        elif o == "join":
            for i, x in enumerate(a[0]):
                self.want(x, "segment" if i else "pathlike")
        elif o == "attr":
            if self.cls(a[0]) is None:
                self.want(a[0], "path" if a[1] in PATH_ATTRS and a[1] != "name" else ("attr", a[1]))
        elif o == "isnone":
            self.want(a[0], "none")
        elif o == "truthy":
            self.hint(a[0], "falsy", 0)
        elif o == "len":
            self.want(a[0], "len")
        elif o == "lt":
            for x, y in (a, a[::-1]):
                v = y.args[0] if is_const(y) else tuple(z.args[0] if is_const(z) else None for z in y.args) if y.op == "tup" else None
                if y.op == "coll" and y.args[0] in ("list", "tuple") and y.args[1] and all(e.op == "ent" and not e.args[0] and is_const(e.args[2]) for e in y.args[1]):
                    v = tuple(e.args[2].args[0] for e in y.args[1])
                if isinstance(v, tuple) and v and all(type(z) is int for z in v):
                    self.tuples.add(v)
                if is_const(y) and isinstance(y.args[0], (int, str, tuple)):
                    self.want(x, "int" if isinstance(y.args[0], int) else "str" if isinstance(y.args[0], str) else "tuple")
                elif y.op == "len" or y.op == "arith":
                    self.want(x, "int")
                else:
                    self.want(x, "ord")
        elif o == "arith":
            ints = any(is_const(x) and type(x.args[0]) is int for x in a[1:])
            for x in a[1:]:
                self.want(x, "num" if ints or a[0] not in ("Add", "BitOr", "Sub", "BitAnd", "BitXor") else "arith" + a[0])
        elif o == "eq":
            self.equal(*a)
        elif o == "isinst" and is_const(a[1]) and str(a[1].args[0]).endswith(".Policy"):
            self.want(a[0], "policy")
        elif o == "islinux":
            self.want(a[0], "policy")
        elif o in ("highest", "lowest", "linux"):
            self.want(a[0], "policies")
        elif o == "in":
            c = a[1]
            if c.op == "concat" or c.op == "const" and isinstance(c.args[0], str):
                self.want(a[0], "str")
            else:
                self.want(c, "in")
        elif o == "call" and isinstance(a[0], str):
            n = a[0]
            if n.startswith("method.") and len(a) > 1:
                m = n[7:]
                if m in ("split", "rsplit", "partition", "rpartition") and len(a) > 2 and is_const(a[2]) and isinstance(a[2].args[0], str):
                    self.seps.add(a[2].args[0])
                    self.hint(a[1], "sep", a[2].args[0])
                if m == "replace" and is_const(a[2]) and isinstance(a[2].args[0], str):
                    x = a[1]
                    while x.op == "call" and x.args[0] == "method.replace":
                        x = x.args[1]
                    self.hint(x, "sub", a[2].args[0])
                if m in ("strip", "rstrip", "lstrip"):
                    for c in a[2].args[0][:3] if len(a) > 2 and is_const(a[2]) and isinstance(a[2].args[0], str) else (" ", "\n"):
                        self.hint(a[1], "pre" if m == "lstrip" else "suf", c)
                        if m == "strip":
                            self.hint(a[1], "pre", c)
                if m == "join":
                    self.want(a[1], "str")
                elif m in STR_METHODS and m not in ("index", "count", "replace", "find", "encode"):
                    self.want(a[1], "str")
                elif m in ("index", "replace", "count", "find"):
                    self.want(a[1], "str?")
                elif m in ("items", "keys", "values"):
                    self.want(a[1], "dict")
                elif m in ("resolve", "read_text", "read_bytes", "iterdir", "glob", "rglob", "stat", "lstat", "relative_to", "is_relative_to", "exists", "is_file", "is_dir", "with_name", "with_suffix"):
                    self.want(a[1], "path")
            elif n == "int" and len(a) > 1:
                x = a[1]
                while x.op in ("elem", "item", "slice"):
                    x = x.args[0]
                if x is not a[1] and x.op == "call" and x.args[0] in ("method.split", "method.rsplit") and len(x.args) > 2 and is_const(x.args[2]):
                    self.hint(x.args[1], "nums", x.args[2].args[0])
                else:
                    self.hint(a[1], "nums", ".")
            elif n in ("resolve", "absolute", "os.path.normpath", "os.path.basename", "os.path.dirname", "which", "relpath"):
                self.want(a[1], "pathlike")
        elif o == "fs":
            for x in a[1:]:
                self.want(x, "pathlike")
        elif o == "as" and a[0] != "dict":
            self.want(a[1], "iter")
        if o in ("exists", "first", "lastof", "last", "fold", "prior"):
            pass

    def equal(self, *a):
        x, y = a
        if x.op == "tup" and y.op == "tup" and len(x.args) == len(y.args):
            for p, q in zip(x.args, y.args):
                self.equal(p, q)
        elif not is_const(x) and not is_const(y):
            self.pairs.append((x, y))
        for x, y in (a, a[::-1]):
            if x.op == "tup" and y.op == "tup":
                continue
            if is_const(y):
                v = y.args[0]
                if isinstance(v, bool):
                    self.want(x, "bool")
                elif isinstance(v, int):
                    self.want(x, "int")
                    self.lit(x, v)
                elif isinstance(v, str):
                    self.want(x, "str")
                    self.lit(x, v)
            elif simp.is_enum_member(y):
                self.want(x, ("member", y.args[0].rpartition(".")[0]))
            elif y.op == "arith" and y.args[0].startswith("Bit") or y.op == "len":
                self.want(x, "num")
            elif y.op in ("linux", "highest", "lowest"):
                self.want(x, "policy")
            elif y.op == "tup":
                for i, z in enumerate(y.args):
                    self.want(x, ("item", i))
                    if is_const(z):
                        self.want(x, "int" if isinstance(z.args[0], int) else "str", (("item", i),))

    def literal(self, v):
        if isinstance(v, bool) or v is None:
            return
        if isinstance(v, str):
            self.strings.add(v)
        elif isinstance(v, int):
            self.ints |= {v, v + 1, v - 1}
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                self.literal(x)



ATOMIC = (str, int, Member)
LEAVES = ("param", "attr", "glob", "item", "elem", "val", "call", "values")


class World:
    """one assignment"""

    def __init__(self, shapes, seed, salts=(), fixed=()):
        self.sh = shapes
        self.seed = seed
        self.salts = dict(salts)
        self.fixed = dict(fixed)
        self.used = {}
        rnd = self.rnd = random.Random(seed)
        self.memo = {}
        strs = sorted(s for s in shapes.strings if len(s) < 60)
        k = min(len(strs), rnd.choice((2, 4, 7)))
        self.pool = rnd.sample(strs, k) + ["a", "b"]
        if rnd.random() < 0.3:
            self.pool.append("")
        self.strs = strs
        self.core = (["a", "b", "c"] if rnd.random() < 0.5 or not strs else [rnd.choice(strs), "a", "b"])[:rnd.choice((2, 3))]
        self.seps = sorted(shapes.seps) or ["-", "."]
        self.digits = sorted({str(i) for i in shapes.ints if 0 <= i < 100000})
        self.derived = []
        self.paths = []
        # how the assignment is inclined: agreement of values, literals from the text, success, emptiness
        self.uniform = rnd.choice((0, 0, 0.5, 0.9))
        self.literal = rnd.choice((0.3, 0.6, 0.9))
        self.falsy = rnd.choice((0.05, 0.2, 0.5))
        self.true = rnd.choice((0.15, 0.5, 0.85))
        self.fail = rnd.choice((0, 0.15, 0.5))
        self.empties = rnd.random()
        self.sparse = rnd.choice((0, 0, 0.5, 0.85))
        self.late = rnd.random() < 0.5
        self.agree = rnd.choice((0, 0, 0.7, 0.9, 0.97))
        self.ints = sorted(shapes.ints)
        if any(t.op == "arith" and t.args[0] in ("BitAnd", "BitOr", "RShift", "LShift") for t in shapes.terms):
            self.ints = sorted({*self.ints, *[i << 16 for i in self.ints if 0 < i < 65536],
                                *[(rnd.getrandbits(16) << 16) | rnd.getrandbits(16) for _ in range(12)],
                                *[rnd.getrandbits(12) for _ in range(6)], *[1 << i for i in range(13)]})
        self.policies = [Obj(("policy", r), (("policy",),), r) for r in (0, 10, 20, 30)]

    def r(self, key):
        k = f"{self.seed}|{key!r}"
        self.used[k] = None
        salt = self.salts.get(k)
        return random.Random(k if salt is None else f"{salt}{k}")

    # ------------------------------------------------------------ values of atoms
    def value(self, shape, key, ty=None, d=0):
        k = (shape, key)
        if k in self.memo:
            return self.memo[k]
        n = repr(k)
        v = self.memo[k] = self.fixed[n] if n in self.fixed else self.gen(shape, key, ty, d)
        return v

    def gen(self, shape, key, ty, d):
        need = self.sh.need.get(shape, set())
        ty = self.sh.types.get(shape) or ty
        r = self.r((shape, key))
        opt = False
        if ty and ty[0] == "opt":
            opt, ty = True, ty[1]
        elif "none" in need and (ty is None):
            opt = True
        if opt and r.random() < 0.3:
            return None
        if ty and ty[0] == "union":
            ty = ty[1][0] if all(ty[1]) and False else r.choice([x for x in ty[1]] or [None])
        if ty and ty[0] == "none":
            return None
        lits = self.sh.consts.get(shape)
        hints = self.sh.hints.get(shape, ())
        if ty and ty[0] == "prim":
            p = ty[1]
            r = self.common(r, ty)
            if p == "bool":
                return r.random() < self.true
            if p == "int":
                return self.int(r, lits)
            if p == "str":
                v = self.str(r, lits, hints)
                return v.replace("/", "_") or "x" if "segment" in need else v
            if p == "bytes":
                return self.str(r, lits).encode()
            if p == "None":
                return None
        if ty and ty[0] == "cls":
            ms = [q for q in simp.ENUMS if q.rpartition(".")[0] == ty[1]]
            if ms:
                return Member(self.common(r, ty).choice(ms))
            if ty[1].endswith(".Policy"):
                return r.choice(self.policies)
            return Obj((shape, key), (("cls", ty[1]),))
        if ty and ty[0] == "ext" and ty[1].rpartition(".")[2] in ("Path", "PurePath", "PurePosixPath"):
            return self.path(r, lits, shape)
        if ty and ty[0] in ("seq",):
            return self.seq(shape, key, ty[1], need, r, d)
        if ty and ty[0] == "dict":
            return self.dict(shape, key, ty, need, r, d)
        if ty and ty[0] == "tuple":
            return tuple(self.value((*shape, ("item", i)), (key, i), x, d + 1) for i, x in enumerate(ty[1]))
        # by use
        for w in need:
            if isinstance(w, tuple) and w[0] == "member":
                return Member(r.choice([q for q in simp.ENUMS if q.rpartition(".")[0] == w[1]]))
        if "policy" in need:
            return r.choice(self.policies)
        if "policies" in need:
            return Obj((shape, key), shape)
        if "segment" in need and "iter" not in need:
            return self.str(r, lits, hints).replace("/", "_") or "x"
        if "path" in need:
            return self.path(r, lits, shape)
        items = [w[1] for w in need if isinstance(w, tuple) and w[0] == "item"]
        attrs = any(isinstance(w, tuple) and w[0] == "attr" for w in need)
        if attrs and not lits:
            return Obj((shape, key), shape)
        if "dict" in need or any(isinstance(i, str) for i in items):
            return self.dict(shape, key, None, need, r, d)
        if "str" in need and not items:
            return self.str(r, lits, hints)
        if items:
            n = max(i if i >= 0 else -i - 1 for i in items if isinstance(i, int)) + 1 if any(isinstance(i, int) for i in items) else 1
            if "str" in need and "elem" not in need:
                return self.str(r, lits, hints)
            if "iter" in need or "len" in need or "sliced" in need:
                n = max(0, n + r.choice((0, 0, 0, 1, 2)))
            return tuple(self.value((*shape, ("item", i)) if (*shape, ("item", i)) in self.sh.need or (*shape, "elem") not in self.sh.need else (*shape, "elem"), (key, i), None, d + 1)
                         for i in range(n))
        if "iter" in need or "in" in need or "arithBitOr" in need:
            return self.seq(shape, key, None, need, r, d, kind=frozenset if "arithBitOr" in need or "arithSub" in need else tuple)
        if "int" in need or "num" in need or "arithBitAnd" in need:
            return self.int(r, lits)
        if "bool" in need:
            return r.random() < self.true
        if any(isinstance(w, tuple) and w[0] == "attr" for w in need):
            return Obj((shape, key), shape)
        if "pathlike" in need:
            return self.path(r, lits, shape)
        if "str?" in need or "sliced" in need or "arithAdd" in need:
            return self.str(r, lits, hints)
        if "ord" in need:
            return self.int(r, lits)
        if "len" in need:
            return self.seq(shape, key, None, need, r, d)
        # may be used in conditions only: something falsy at times
        v = self.str(r, lits, hints)
        return v if r.random() < 0.7 else ""

    def common(self, r, ty):
        """atoms of one type are inclined to have one value"""
        return self.r(("common", ty)) if self.agree and r.random() < self.agree else r

    def int(self, r, lits):
        if r.random() < self.uniform:
            return self.ints[0] if not lits else sorted(lits, key=repr)[0] if isinstance(sorted(lits, key=repr)[0], int) else self.ints[0]
        return r.choice(sorted(lits)) if lits and all(isinstance(x, int) for x in lits) and r.random() < self.literal else r.choice(self.ints)

    def str(self, r, lits, hints=()):
        lits = [x for x in lits if isinstance(x, str)] if lits else None
        if hints:
            hs = sorted(hints, key=repr)
            if ("falsy", 0) in hints and r.random() < self.falsy:
                return ""
            hs = [h for h in hs if h[0] != "falsy"]
            if hs and r.random() < self.literal:
                k, v = r.choice(hs)
                x = self.str(r, lits)
                if k == "pre":
                    return v + x
                if k == "suf":
                    return x + v
                if k == "sub":
                    return (self.str(r, None) if r.random() < 0.5 else "") + v + x
                if k == "sep" and self.derived and r.random() < 0.5:
                    ds = [x for x in self.derived if v in x]
                    if ds:
                        return r.choice(ds)
                if k == "sep":
                    n = r.choice((1, 2, 2, 3))
                    return v.join(self.str(r, lits if i == 0 else None) if r.random() < 0.6 else r.choice(self.digits) for i in range(n))
                if k == "nums" and self.sh.tuples and r.random() < 0.6:
                    t = [x + r.choice((0, 0, 0, 0, 1, -1)) for x in r.choice(sorted(self.sh.tuples))]
                    return v.join(str(x) for x in t[:r.choice((1, 2, 3, 4, 5, 6))])
                if k == "nums":
                    return v.join(r.choice(self.digits) for _ in range(r.choice((1, 2, 3, 3))))
        if r.random() < self.uniform:
            return sorted(lits)[0] if lits else self.core[0]
        x = r.random()
        if lits and x < self.literal:
            return r.choice(sorted(lits))
        x = r.random()
        if self.derived and x < 0.2:
            v = r.choice(self.derived)
            return v if r.random() < 0.6 else v + r.choice(("/", "", ".")) + r.choice(self.pool)
        if x < 0.5:
            return r.choice(self.core)
        if x < 0.75:
            return r.choice(self.pool)

        def piece():
            y = r.random()
            return r.choice(self.strs) if self.strs and y < 0.45 else r.choice(self.digits) if y < 0.65 else r.choice(self.pool)
        parts = [piece() for _ in range(r.choice((2, 2, 3)))]
        y = r.random()
        sep = r.choice(self.seps) if y < 0.5 else r.choice(("-", ".", "/", "_", ",", " ", ":", "\n", "1", "@")) if y < 0.7 else ""
        v = sep.join(parts)
        if r.random() < 0.1:
            v = "/" + v
        return v

    def path(self, r, lits, shape=()):
        if self.paths and r.random() < (0.3 if not self.agree else 0.6):
            # somewhere below another one, or the same
            p = r.choice(self.paths)
            if r.random() < (0.8 if not self.agree else 0.35):
                p = posixpath.normpath(f"{p}/{self.str(r, lits).strip('/') or 'x'}")
        else:
            p = self.path_(r, lits, shape)
        if len(self.paths) < 6 and p not in self.paths:
            self.paths.append(p)
        return P(p)

    def path_(self, r, lits, shape=()):
        n = r.choice((1, 1, 2, 3))
        parts = [self.str(r, lits).strip("/") or "x" for _ in range(n)]
        names = (*shape, ("attr", "name"))
        at = [(-1, names)]
        for i in range(4):
            at.append((i, (*shape, ("attr", "parts"), ("item", i))))
        at.append((r.randrange(n), (*shape, ("attr", "parents"), "elem", ("attr", "name"))))
        at.append((r.randrange(n), (*shape, ("attr", "parts"), "elem")))
        for i, k in at:
            if (k in self.sh.hints or k in self.sh.consts) and r.random() < 0.7:
                while len(parts) <= i and len(parts) < 6:
                    parts.append("x")
                parts[i] = self.str(r, self.sh.consts.get(k), self.sh.hints.get(k, ())).replace("/", "_") or "x"
        s = "/".join(parts)
        if r.random() < 0.4:
            s = "/" + s
        return P(posixpath.normpath(s))

    def count(self, r):
        return r.choice((0, 1, 1, 2, 2, 3)) if self.empties > 0.3 else r.choice((1, 2, 2, 3)) if self.empties > 0.1 else r.choice((0, 0, 1, 2))

    def seq(self, shape, key, ety, need, r, d, kind=tuple):
        n = self.count(r) if d < 6 and not (len(shape) > 1 and self.sparse and r.random() < self.sparse) else 0
        idx = [w[1] for w in need if isinstance(w, tuple) and w[0] == "item" and isinstance(w[1], int)]
        if idx and r.random() < 0.85:
            n = max(n, *[i + 1 if i >= 0 else -i for i in idx])
        es = (*shape, "elem")
        vals = [self.value(es, (key, i), ety, d + 1) for i in range(n)]
        if kind is frozenset:
            return fset(vals)
        return tuple(vals)

    def dict(self, shape, key, ty, need, r, d):
        kt, vt = (ty[1], ty[2]) if ty else (None, None)
        out = Open()
        out.shape, out.key = shape, (key, vt)
        names = [w[1] for w in need if isinstance(w, tuple) and w[0] == "item"]
        for k in sorted(names, key=repr):
            out[k] = self.value((*shape, ("item", k)), (key, k), vt, d + 1)
        if "iter" in need or "dict" in need or "in" in need or not names:
            es = (*shape, "elem")
            for i in range(self.count(r) if d < 6 else 0):
                k = self.value(es, (key, "k", i), kt, d + 1) if kt or es in self.sh.need or es in self.sh.types else self.str(self.r((key, "k", i)), None)
                if k not in out:
                    out[k] = self.value((*shape, "val"), (key, k), vt, d + 1)
        return out


def fset(vals):
    return frozenset(vals)


def order(vals):
    """an order for the elements of a set"""
    try:
        return sorted(vals)
    except TypeError:
        return sorted(vals, key=lambda x: (type(x).__name__, x.rank if isinstance(x, Obj) and x.rank is not None else 0, repr(x)))


def rank(x):
    if isinstance(x, Obj) and x.rank is not None:
        return x.rank
    return x


class Evaluator:
    def __init__(self, world, enums):
        self.w = world
        self.enums = enums
        self.memo = {}
        self.free_ = {}
        self.steps = 0
        self.depth = 0
        self.cmps = []
        self.lossy = set()  # depends on what the summary does not tell
        self.loose = False  # ... on the order and number of elements
        self.cov = set()  # branches of formulas taken
        self.trace = TRACE

    # ------------------------------------------------------------ free loop variables
    def free(self, x):
        r = self.free_.get(x)
        if r is None:
            r = frozenset(t for t in subterms(x) if t.op in ("elem", "rec", "witer")) if isinstance(x, (Term, Node)) else frozenset()
            self.free_[x] = r
        return r

    def key(self, x, env):
        if not env:
            return x
        fr = self.free(x)
        return (x, tuple((e, env[e][1], repr(env[e][0]) if e.op == "rec" else env[e][3]) for e in env if isinstance(e, Term) and e in fr), env.get("lim"))

    # ------------------------------------------------------------ formulas
    def f(self, n, env):
        while n is not T and n is not F:
            try:
                x = self.atom(atom_term(n.var), env)
                self.cov.add((n, x))
                n = n.hi if x else n.lo
            except Undef:
                # an operand that is not looked at
                if self.depth > 6:
                    raise
                self.depth += 1
                try:
                    p = self.f(n.hi, env)
                    if p != self.f(n.lo, env):
                        raise
                    return p
                finally:
                    self.depth -= 1
        return n is T

    def atom(self, t, env):
        return bool(self.v(t, env))

    def v(self, t, env):
        k = self.key(t, env)
        if k in self.memo:
            r = self.memo[k]
            if r is Undef:
                raise Undef
            return r
        self.steps += 1
        if self.steps > 150_000:
            raise Opaque("steps")
        try:
            r = self.ev(t, env)
        except Undef as e:
            self.memo[k] = Undef
            if self.trace is not None and not getattr(e, "seen", False):
                e.seen = True
                self.trace.append((t, self, env))
            raise
        self.memo[k] = r
        return r

    def rnd(self, *key):
        return self.w.r(key).random()

    # ------------------------------------------------------------ loops
    def seqof(self, t, env):
        """what iterating over the value of t yields: [(item, value or None)]"""
        v = self.v(t, env)
        return self.items(v, t)

    def items(self, v, t=None):
        if isinstance(v, D):
            return [(k, x) for k, x in v.items()]
        if isinstance(v, frozenset):
            return [(x, None) for x in order(v)]
        if isinstance(v, tuple):
            return [(x, None) for x in v]
        if isinstance(v, str) and not isinstance(v, P):
            return [(x, None) for x in v]
        if isinstance(v, Obj):
            if v.shape and v.shape[0] == ("glob",):
                pass
            if v.rank is None and self.is_policies(v, t):
                return [(x, None) for x in self.w.policies]
            sh = (*v.shape, "elem")
            n = self.w.count(self.w.r(("n", v.key)))
            vs = (*v.shape, "val")
            out = []
            for i in range(n):
                x = self.w.value(sh, (v.key, i), None, 3)
                y = self.w.value(vs, (v.key, i, "v"), None, 3) if vs in self.w.sh.need or "dict" in self.w.sh.need.get(v.shape, ()) else None
                out.append((x, y))
            return out
        if v is None:
            raise Undef
        if isinstance(v, (int, bytes, Rec, Member)):
            raise Undef
        raise Opaque("iter")

    def is_policies(self, v, t):
        if v.shape and v.shape[-1][0] == "cls" and v.shape[-1][1].endswith("WheelPolicies"):
            return True
        ty = self.w.sh.types.get(v.shape)
        while ty and ty[0] == "opt":
            ty = ty[1]
        return bool(ty and ty[0] == "cls" and ty[1].endswith("WheelPolicies")) or "policies" in self.w.sh.need.get(v.shape, ())

    def dead(self, g, env, Ls):
        """the condition fails whatever the loops yield"""
        if g is T or g is F:
            return g is F
        a = atom_term(g.var)
        x = None
        if not any(L in self.free(a) for L in Ls):
            try:
                x = self.atom(a, env)
            except Undef:
                x = None
        if x is None:
            return self.dead(g.hi, env, Ls) and self.dead(g.lo, env, Ls)
        return self.dead(g.hi if x else g.lo, env, Ls)

    def loop(self, Ls, env, guard=T):
        """environments of the iterations of nested loops"""
        Ls = tuple(Ls)
        if not Ls:
            yield env
            return
        L, rest = Ls[0], Ls[1:]
        if L.op not in ("elem", "witer"):
            raise Opaque(L.op)
        lim = env.get("lim")
        stop, last = None, False
        if lim is not None:
            d = dict(lim[0])
            if L in d:
                stop, last = d[L], L is lim[1]
                if not last and not rest:
                    # an outer loop alone: whether its own iteration counts depends on where it was asked
                    self.lossy.add(L)
                    last = self.w.late
        if L.op == "witer":
            # as many rounds as it takes
            if stop is not None:
                src = [(i, None) for i in range(stop + 1)]
            else:
                n = self.rounds(L, env)
                if n is None:
                    self.lossy.add(L)
                    n = self.w.r(("rounds", L.args)).choice((0, 1, 2, 3))
                src = [(i, None) for i in range(n)]
        else:
            try:
                src = self.seqof(L.args[0], {k: v for k, v in env.items() if k != "lim"} if lim is not None else env)
            except Undef:
                if guard is not T and self.dead(guard, env, Ls):
                    return
                raise
        for i, (x, y) in enumerate(src):
            if stop is not None and (i >= stop if last else i > stop):
                break
            e = dict(env)
            e[L] = (x, i, y, (i, hash_(x)))
            if lim is not None and (stop is None or i < stop or last):
                # earlier than the position: the inner loops run to their end
                if stop is not None:
                    e.pop("lim", None)
            yield from self.loop(rest, e, guard)

    def binders(self, x):
        binders = set()
        for t in subterms(x):
            if t.op in ("ent", "acc", "first", "lastof", "fold", "last"):
                binders.update(t.args[0])
            elif t.op in ("agg",):
                for e in t.args[1]:
                    binders.update(e.args[0])
            elif t.op == "exists":
                binders.add(t.args[0])
        return binders

    def rounds(self, L, env):
        """the number of rounds of a while loop, the one in which it is left included"""
        fs = self.w.sh.whiles.get(L)
        if fs is None:
            fs = self.w.sh.whiles[L] = sorted((t for t in self.w.sh.terms if t.op == "fold" and len(t.args[0]) == 1 and t.args[0][0] is L and t.args[3]), key=simp.skey)
        for t in fs:
            if all(x in env or x is L or x.op == "rec" for x in self.free(t) - self.binders(t)):
                k = ("rounds", self.key(t, env))
                if k not in self.memo:
                    try:
                        self.o_fold(t, t.args, env)
                        self.memo[k] = self.left
                    except Undef as e:
                        self.memo[k] = e
                n = self.memo[k]
                if isinstance(n, Undef):
                    raise n
                return n
        return None

    def prefix(self, x, env):
        """environment in which loops that are under way are restricted to earlier iterations"""
        binders = self.binders(x)
        bound = [e for e in env if isinstance(e, Term) and e.op in ("elem", "witer") and e in binders]
        if not bound:
            return env
        return {**{k: v for k, v in env.items() if k not in bound and k != "lim"},
                "lim": (tuple((e, env[e][1]) for e in bound), bound[-1])}

    # ------------------------------------------------------------ terms
    def ev(self, t, env):
        o, a = t.op, t.args
        m = getattr(self, "o_" + o.rstrip("*") + ("_any" if o.endswith("*") else ""), None)
        if m is None:
            raise Opaque(o)
        return m(t, a, env)

    def o_const(self, t, a, env):
        v = a[0]
        if isinstance(v, frozenset):
            return fset(v)
        if v is Ellipsis:
            return "..."
        if isinstance(v, float):
            return v
        return v

    def leaf(self, t):
        ks = self.w.sh.keys(t)
        return ks[0] if ks else ((t.op,),)

    def o_param(self, t, a, env):
        if str(a[0]).startswith("self:"):
            q = a[0][5:]
            ms = [m for m in self.enums if m.rpartition(".")[0] == q]
            if ms:
                return Member(self.w.r(("self", q)).choice(ms))
            if q.endswith(".Policy"):
                return self.w.r(("self", q)).choice(self.w.policies)
            return Obj(a[0], (("cls", q),))
        return self.w.value((("param", a[0]),), ())

    def o_glob(self, t, a, env):
        q = a[0]
        if q in self.enums:
            return Member(q)
        ms = [m for m in self.enums if m.rpartition(".")[0] == q]
        if ms:
            return tuple(Member(m) for m in ms)
        sh = (("glob", q),)
        if sh in self.w.sh.need and self.w.sh.need[sh] - {"none"} or sh in self.w.sh.types:
            return self.w.value(sh, ())
        return Obj(q, sh)

    def o_elem(self, t, a, env):
        if t in env:
            return env[t][0]
        return self.lost(t, env)

    def o_key(self, t, a, env):
        return self.v(a[0], env)

    def o_val(self, t, a, env):
        e = a[0].args[0] if a[0].op == "key" else a[0]
        if e in env:
            x = env[e]
            if x[2] is None:
                d = self.v(e.args[0], env)
                if isinstance(d, D):
                    return d[x[0]]
                return self.opaque(t, (("valof",), self.v(e, env)), self.w.sh.keys(t))
            return x[2]
        return self.lost(t, env)

    def o_index(self, t, a, env):
        if len(a) == 1 and a[0] in env:
            return env[a[0]][1]
        raise Opaque("index")

    def opaque(self, t, key, keys=None):
        keys = self.w.sh.keys(t) if keys is None else keys
        return self.w.value(keys[0] if keys else ((t.op,),), freeze(key))

    def o_attr(self, t, a, env):
        x = self.v(a[0], env)
        n = a[1]
        return self.attr(t, x, n)

    def attr(self, t, x, n):
        if x is None:
            raise Undef
        if isinstance(x, Member):
            if n == "value":
                v = self.enums.get(x.qual)
                return v if v is not None else x.qual
            if n == "name":
                return x.qual.rpartition(".")[2]
        if isinstance(x, Rec):
            if n in x.fields:
                return x.fields[n]
        if isinstance(x, P) or isinstance(x, str) and n in PATH_ATTRS:
            import pathlib
            p = pathlib.PurePosixPath(x)
            if n == "parent":
                return P(p.parent)
            if n in ("name", "stem", "suffix", "anchor"):
                return getattr(p, n)
            if n in ("parts", "suffixes"):
                return tuple(getattr(p, n))
        if isinstance(x, Obj) and x.rank is not None:
            if n == "priority":
                return x.rank
            if n == "linux":
                return self.w.policies[0]
        if n == "linux" and isinstance(x, Obj):
            return self.w.policies[0]
        if isinstance(x, (frozenset, tuple, D, int, bytes)) and not isinstance(x, Rec):
            raise Undef
        if isinstance(x, Rec):
            sh = (("cls", x.cls),)
        elif isinstance(x, Obj):
            sh = x.shape if x.rank is None else (("cls", "auditwheel.policy.Policy"),)
        elif isinstance(x, Member):
            sh = (("cls", x.qual.rpartition(".")[0]),)
        else:
            sh = ()
        return self.w.value((*sh, ("attr", n)), freeze(("of", x)))

    def o_item(self, t, a, env):
        x, k = self.v(a[0], env), self.v(a[1], env)
        if isinstance(x, D):
            if k in x:
                return x[k]
            if isinstance(x, Open):
                return self.w.value((*x.shape, "val"), freeze((x.key[0], k)), x.key[1])
            if a[0].op == "coll" or a[0].op == "item" and any(z.op == "coll" for z in subterms(a[0])):
                # a mapping that may supply a value by itself
                self.lossy.add(t)
                return fset(())
            raise Undef
        if isinstance(x, (tuple, str, bytes)) and not isinstance(x, P):
            if isinstance(k, int) and not isinstance(k, bool):
                if -len(x) <= k < len(x):
                    return x[k]
            raise Undef
        if isinstance(x, Obj):
            return self.w.value(((*x.shape, ("item", k)) if is_const(a[1]) else (*x.shape, "val")), freeze((x.key, "item", k)))
        raise Undef

    def o_missing(self, t, a, env):
        # an operation as an atom (raises KeyError) and as a value
        d, k = self.v(a[0], env), self.v(a[1], env)
        if isinstance(d, D):
            if k in d:
                return False
            return True
        raise Undef

    def o_tup(self, t, a, env):
        return tuple(self.v(x, env) for x in a)

    def o_kw(self, t, a, env):
        return ("kw", a[0], self.v(a[1], env))

    def o_star(self, t, a, env):
        return ("star", self.v(a[0], env))

    def o_ite(self, t, a, env):
        return self.v(a[1] if self.f(a[0], env) else a[2], env)

    def o_b(self, t, a, env):
        return self.f(a[0], env)

    def o_truthy(self, t, a, env):
        v = self.v(a[0], env)
        return bool(v) if not isinstance(v, (Obj, Member, Rec, P)) else True

    def o_isnone(self, t, a, env):
        return self.v(a[0], env) is None

    def o_eq(self, t, a, env):
        x, y = self.v(a[0], env), self.v(a[1], env)
        r = same(x, y)
        if not r and len(self.cmps) < 60:
            self.cmp(a[0], x, a[1], y)
        return r

    def cmp(self, s, x, t, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if s.op == "tup" and t.op == "tup" and len(x) == len(y) == len(s.args) == len(t.args):
                for p, q, u, w in zip(s.args, x, t.args, y):
                    self.cmp(p, q, u, w)
        elif isinstance(x, ATOMIC) and isinstance(y, ATOMIC) and x != y:
            for p, q, w in ((s, x, y), (t, y, x)):
                if p.op in LEAVES and len(str(w)) < 200:
                    self.cmps.append((p, q, w))

    def o_in(self, t, a, env):
        x, c = self.v(a[0], env), self.v(a[1], env)
        if isinstance(c, (D, frozenset, tuple)):
            return x in c
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Obj):
            if self.is_policies(c, a[1]):
                return x in self.w.policies
            return self.rnd("in", freeze(x), c.key) < 0.5
        raise Undef

    def o_values(self, t, a, env):
        v = self.v(a[0], env)
        if isinstance(v, D):
            return tuple(v.values())
        raise Opaque("values")

    def o_lt(self, t, a, env):
        x, y = rank(self.v(a[0], env)), rank(self.v(a[1], env))
        try:
            return bool(x < y)
        except TypeError:
            raise Undef from None

    def o_len(self, t, a, env):
        v = self.v(a[0], env)
        if isinstance(v, Obj):
            return len(self.items(v, a[0]))
        if isinstance(v, (str, tuple, D, frozenset, bytes)):
            return len(v)
        raise Undef

    def o_startswith(self, t, a, env):
        x, y = self.v(a[0], env), self.v(a[1], env)
        if isinstance(y, tuple) and isinstance(x, str):
            return x.startswith(tuple(z for z in y if isinstance(z, str)))
        if isinstance(x, str) and isinstance(y, str) or isinstance(x, bytes) and isinstance(y, bytes):
            return x.startswith(y)
        raise Undef

    def o_startswith_any(self, t, a, env):
        x, y = self.v(a[0], env), self.v(a[1], env)
        if isinstance(x, str) and isinstance(y, (tuple, frozenset)):
            return any(x.startswith(z) for z in y if isinstance(z, str))
        raise Undef

    def o_endswith(self, t, a, env):
        x, y = self.v(a[0], env), self.v(a[1], env)
        if isinstance(y, tuple) and isinstance(x, str):
            return x.endswith(tuple(z for z in y if isinstance(z, str)))
        if isinstance(x, str) and isinstance(y, str) or isinstance(x, bytes) and isinstance(y, bytes):
            return x.endswith(y)
        raise Undef

    def o_endswith_any(self, t, a, env):
        x, y = self.v(a[0], env), self.v(a[1], env)
        if isinstance(x, str) and isinstance(y, (tuple, frozenset)):
            return any(x.endswith(z) for z in y if isinstance(z, str))
        raise Undef

    def o_substr(self, t, a, env):
        x, y = self.v(a[0], env), self.v(a[1], env)
        if isinstance(x, str) and isinstance(y, str):
            return x in y
        raise Undef

    def strs(self, a, env):
        out = [self.v(x, env) for x in a]
        if not all(isinstance(x, str) for x in out):
            raise Undef
        return out

    def o_before(self, t, a, env):
        s, p = self.strs(a, env)
        if not p:
            raise Undef
        return s.partition(p)[0]

    def o_after(self, t, a, env):
        s, p = self.strs(a, env)
        if not p:
            raise Undef
        return s.partition(p)[2]

    def o_rbefore(self, t, a, env):
        s, p = self.strs(a, env)
        if not p or p not in s:
            raise Undef
        return s.rpartition(p)[0]

    def o_rafter(self, t, a, env):
        s, p = self.strs(a, env)
        if not p:
            raise Undef
        return s.rpartition(p)[2]

    def tostr(self, v):
        if isinstance(v, str):
            return str(v)
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return str(v)
        if isinstance(v, Member):
            x = self.enums.get(v.qual)
            return x if isinstance(x, str) else v.qual
        return "<" + repr(freeze(v)) + ">"

    def o_concat(self, t, a, env):
        return "".join(self.tostr(self.v(x, env)) for x in a[0])

    def o_joinstr(self, t, a, env):
        sep = self.v(a[0], env)
        if not isinstance(sep, str):
            raise Undef
        return sep.join(self.tostr(x) for x, _ in self.seqof(a[1], env))

    def o_join(self, t, a, env):
        out = ""
        for x in a[0]:
            v = self.v(x, env)
            if isinstance(v, Obj):
                v = "<" + repr(v.key) + ">"
            if not isinstance(v, str):
                raise Undef
            out = posixpath.join(out, v) if out else v
        return P(posixpath.normpath(out) if ".." not in out.split("/") else out)

    def o_slice(self, t, a, env):
        x = self.v(a[0], env)
        lo, hi, st = (self.v(y, env) for y in a[1:])
        if isinstance(x, Obj):
            x = tuple(y for y, _ in self.items(x))
        if not isinstance(x, (str, tuple, bytes)):
            raise Undef
        try:
            return x[lo:hi:st]
        except (TypeError, ValueError):
            raise Undef from None

    def o_arith(self, t, a, env):
        v = [self.v(x, env) for x in a[1:]]
        op = a[0]
        try:
            if len(v) == 1:
                return {"USub": lambda x: -x, "Invert": lambda x: ~x, "UAdd": lambda x: +x}[op](v[0])
            x, y = v
            if op in ("BitOr", "BitAnd", "Sub", "BitXor") and (isinstance(x, (frozenset, D, tuple)) or isinstance(y, (frozenset, D, tuple))):
                if isinstance(x, D) and isinstance(y, D) and op == "BitOr":
                    return D({**x, **y})
                x, y = fset(x), fset(y)
            if op == "Add" and isinstance(x, tuple) != isinstance(y, tuple):
                x, y = (tuple(z for z, _ in self.items(q)) for q in (x, y))
            if op == "Mod" and isinstance(x, str):
                return x % y
            if op in ("Mult", "LShift", "Pow") and isinstance(x, int) and isinstance(y, int) and (abs(x) > 10**6 or abs(y) > 200):
                raise Undef
            return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "FloorDiv": lambda: x // y, "Div": lambda: x / y,
                    "Mod": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                    "LShift": lambda: x << y, "RShift": lambda: x >> y, "Pow": lambda: x ** y}[op]()
        except (TypeError, ZeroDivisionError, ValueError):
            raise Undef from None
        except KeyError:
            raise Opaque(op) from None

    # collections
    def o_coll(self, t, a, env):
        kind, ents = a
        if kind in ("dict", "defaultdict"):
            out = D()
            for e in ents:
                if e.op == "ent":
                    L, g, v, k = e.args
                    for en in self.loop(L, env, g):
                        if self.f(g, en):
                            if k is None:
                                raise Opaque("dict entry")
                            out[self.v(k, en)] = self.v(v, en)
                elif e.op == "acc":
                    L, g, v, k = e.args
                    for en in self.loop(L, env, g):
                        if self.f(g, en):
                            kk = self.v(k, en)
                            out[kk] = fset((*out.get(kk, ()), self.v(v, en)))
                else:
                    x = self.v(e, env)
                    if isinstance(x, tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in x):
                        out.update(x)
                        continue
                    its = self.items(x, e)
                    if not isinstance(x, D) and any(y is None for _, y in its):
                        raise Undef
                    out.update(its)
            return out
        vals = []
        for e in ents:
            if e.op == "ent":
                L, g, v, _ = e.args
                for en in self.loop(L, env, g):
                    if self.f(g, en):
                        vals.append(self.v(v, en))
            elif e.op == "acc":
                raise Opaque("acc")
            else:
                vals += [x for x, _ in self.items(self.v(e, env))]
        return self.conv(kind, vals)

    def conv(self, kind, vals):
        if kind in ("list", "tuple", "gen", "iter"):
            return tuple(vals)
        if kind in ("set", "frozenset"):
            return fset(vals)
        if kind in ("sorted", "sortset"):
            return tuple(order(fset(vals)))
        if kind == "sortdup":
            return tuple(order(vals))
        if kind == "uniq":
            return tuple(dict.fromkeys(vals))
        if kind == "rev":
            return tuple(vals)[::-1]
        raise Opaque(kind)

    def o_as(self, t, a, env):
        kind = a[0]
        if kind == "sortedby":
            return ("sortedby", self.v(a[1], env), repr(a[2]), repr(a[3]))
        vals = [x for x, _ in self.seqof(a[1], env)]
        if kind == "dict":
            raise Opaque("as dict")
        if kind == "sorted":
            return tuple(order(fset(vals)))
        return self.conv(kind, vals)

    def o_enum(self, t, a, env):
        return tuple((i, x) for i, (x, _) in enumerate(self.seqof(a[0], env)))

    def o_copyof(self, t, a, env):
        return self.v(a[0], env)

    def o_new(self, t, a, env):
        return Rec(a[0], {n: self.v(v, env) for n, v in a[1]})

    def o_replace(self, t, a, env):
        x = self.v(a[0], env)
        return Rec(("replace", freeze(x)), {n: self.v(v, env) for n, v in a[1]})

    # quantifiers
    def o_exists(self, t, a, env):
        return any(self.f(a[1], en) for en in self.loop((a[0],), env, a[1]))

    def o_prior(self, t, a, env):
        Ls, g = a
        bound = [L for L in Ls if L in env]
        if not bound:
            raise Opaque("prior")
        en = {**{k: v for k, v in env.items() if k not in Ls and k != "lim"}, "lim": (tuple((e, env[e][1]) for e in bound), bound[-1])}
        if len(bound) < len(Ls):
            # an earlier iteration of the outer loops
            pass
        return any(self.f(g, e) for e in self.loop(Ls, en))

    def o_first(self, t, a, env):
        L, g, v, d = a
        for en in self.loop(L, env, g):
            if self.f(g, en):
                return self.v(v, en)
        if d is None or d is simp.ABSENT:
            raise Undef
        return self.v(d, env)

    def o_absent(self, t, a, env):
        raise Undef

    def o_stopiter(self, t, a, env):
        raise Undef

    def o_lastof(self, t, a, env):
        L, ch, v, init = a
        r = MISSING
        for en in self.loop(L, env, ch):
            if self.f(ch, en):
                r = self.v(v, en)
        return self.v(init, env) if r is MISSING else r

    def o_last(self, t, a, env):
        r = MISSING
        for en in self.loop(a[0], env):
            r = self.v(a[1], en)
        if r is MISSING:
            raise Undef
        return r

    def o_carry(self, t, a, env):
        return self.v(a[0], self.prefix(a[0], env))

    def o_rec(self, t, a, env):
        if t in env:
            if env[t][0] is UNDEF:
                raise Undef
            return env[t][0]
        # another variable of the loop, whose course is not at hand
        return self.lost(t, env)

    def lost(self, t, env):
        """what the summary does not tell"""
        self.lossy.add(t)
        ks = self.w.sh.keys(t)
        return self.w.value(ks[0] if ks else ((t.op,),), ("lost", tuple(env[e][3] for e in env if isinstance(e, Term) and e.op in ("elem", "witer"))))

    o_baseref = o_objref = o_phiref = lambda self, t, a, env: self.lost(t, env)

    def o_fold(self, t, a, env):
        Ls, init, vv, bb = a[:4]
        co, lvl = a[4:] if len(a) > 4 else ((), 1)
        Rs = [mk("rec", i) if lvl == 1 else mk("rec", i, lvl) for i in range(len(co) + 1)]
        s = [self.v(init, env), *(self.lazy(c.args[0], env) for c in co)]
        rounds = self.loop(Ls, env)
        free = len(Ls) == 1 and Ls[0].op == "witer" and bb and not ("lim" in env and Ls[0] in dict(env["lim"][0]))
        n = 0
        if free:
            # until it is left
            rounds = ({**env, Ls[0]: (i, i, None, (i, hash_(i)))} for i in range(48))
        for en in rounds:
            n += 1
            en = {**en, **{R: (x, 0, None, 0) for R, x in zip(Rs, s)}}
            out = False
            for br in bb:
                if self.f(br.args[0], en):
                    s[0] = self.v(br.args[1], en)
                    out = True
                    break
            if out:
                break
            s = [self.v(vv, en), *(self.lazy(c.args[1], en) for c in co)]
        else:
            if free:
                raise Endless
        self.left = n
        return s[0]

    def lazy(self, x, env):
        try:
            return self.v(x, env)
        except Undef:
            return UNDEF

    def o_agg(self, t, a, env):
        op, ents, d = a
        vals = []
        for e in ents:
            L, g, v, k = e.args
            for en in self.loop(L, env):
                if self.f(g, en):
                    x = self.v(v, en)
                    vals.append((rank(x) if k is None else rank(self.v(k, en)), x))
        if not vals:
            if d is None:
                raise Undef
            return self.v(d, env)
        try:
            best = vals[0]
            for x in vals[1:]:
                if (x[0] < best[0] if op == "min" else x[0] > best[0]):
                    best = x
        except TypeError:
            raise Undef from None
        return best[1]

    def o_aggempty(self, t, a, env):
        raise Undef

    # policies
    def o_islinux(self, t, a, env):
        x = self.v(a[0], env)
        return isinstance(x, Obj) and x.rank == 0

    def o_linux(self, t, a, env):
        return self.w.policies[0]

    def o_highest(self, t, a, env):
        return self.w.policies[-1]

    def o_lowest(self, t, a, env):
        return self.w.policies[0]

    # atoms of the outside world
    def o_fs(self, t, a, env):
        return self.rnd("fs", a[0], freeze(tuple(self.v(x, env) for x in a[1:]))) < self.w.true

    def o_isinst(self, t, a, env):
        x = self.v(a[0], env)
        q = a[1].args[0] if is_const(a[1]) else repr(a[1])
        for ty, c in (("str", str), ("int", int), ("bytes", bytes), ("dict", D), ("bool", bool), ("tuple", tuple), ("list", tuple), ("set", frozenset)):
            if q == ty:
                return isinstance(x, c) and not isinstance(x, P)
        if isinstance(q, str) and q.endswith("Path"):
            return isinstance(x, P)
        if x is None:
            return q == "NoneType"
        return self.rnd("isinst", freeze(x), repr(q)) < 0.5

    def o_hasattr(self, t, a, env):
        return self.rnd("hasattr", freeze(self.v(a[0], env)), freeze(self.v(a[1], env))) < 0.5

    def o_callable(self, t, a, env):
        return self.rnd("callable", freeze(self.v(a[0], env))) < 0.5

    def o_raises(self, t, a, env):
        c = a[0]
        args = []
        for x in c.args[1:] if isinstance(c, Term) and c.op == "call" else ():
            args.append(self.v(x, env))
        h = (c.op, repr(c.args[0]) if c.args else "")
        if c.op != "call":
            args.append(self.v(c, env))
        kind = a[1].args[0] if isinstance(a[1], Term) and is_const(a[1]) else repr(a[1])
        # one outcome per operation
        x = self.w.r(("raises", h, freeze(tuple(args)))).random()
        if x > self.w.fail:
            return False
        return self.rnd("raised", h, freeze(tuple(args)), kind) < 0.5

    def o_excof(self, t, a, env):
        c = a[0]
        args = tuple(self.v(x, env) for x in c.args[1:]) if c.op == "call" else (self.v(c, env),)
        return Obj(("exc", freeze(args)), (("excof",),))

    def o_csv(self, t, a, env):
        return ("csv", tuple(self.v(x, env) for x in a))

    def o_upd(self, t, a, env):
        if a[1].__class__ is Term and a[1].op in ("ent", "acc"):
            c = self.v(a[0], env)
            kind = "dict" if isinstance(c, D) else "set" if isinstance(c, frozenset) else "list" if isinstance(c, tuple) else None
            if kind is None:
                raise Undef
            e = dict(env)
            R = mk("rec", "upd", a[0])
            e[R] = (c, 0, None, 0)
            return self.o_coll(None, (kind, (R, a[1])), e)
        c = self.v(a[0], env)
        if not isinstance(a[1], str):
            # an element is set
            if len(a) != 4:
                raise Opaque("upd")
            if not self.f(truth(a[3]), env):
                return c
            k, v = self.v(a[1], env), self.v(a[2], env)
            if isinstance(c, D):
                c = D(c)
                c[k] = v
                return c
            if isinstance(c, tuple) and type(k) is int and -len(c) <= k < len(c):
                x = list(c)
                x[k] = v
                return tuple(x)
            raise Undef
        m = a[1]
        rest = [x for x in a[2:]]
        if m == "extend" and len(rest) == 2 and rest[1].op == "b":
            if not self.f(truth(rest[1]), env):
                return c
            rest = rest[:1]
        if any(x.op == "kw" for x in rest):
            raise Opaque("upd")
        v = [self.v(x, env) for x in rest]
        seq = lambda x, t: [y for y, _ in self.items(x, t)]  # noqa: E731
        if isinstance(c, D):
            c = D(c)
            if m == "update" and len(v) == 1 and isinstance(v[0], D):
                c.update(v[0])
            elif m == "setdefault" and v:
                c.setdefault(v[0], v[1] if len(v) > 1 else None)
            elif m == "pop" and v:
                c.pop(v[0], None)
            elif m == "clear":
                c.clear()
            else:
                raise Opaque("upd")
            return c
        if isinstance(c, frozenset):
            if m == "add":
                return fset((*c, v[0]))
            if m == "update":
                return fset((*c, *(y for x, t_ in zip(v, rest) for y in seq(x, t_))))
            if m in ("remove", "discard"):
                if m == "remove" and v[0] not in c:
                    raise Undef
                return c - {v[0]}
            if m == "difference_update":
                return fset(set(c).difference(*(seq(x, t_) for x, t_ in zip(v, rest))))
            if m == "intersection_update":
                return fset(set(c).intersection(*(seq(x, t_) for x, t_ in zip(v, rest))))
            if m == "clear":
                return fset(())
            if m == "pop" and not v:
                if not c:
                    raise Undef
                return c - {order(c)[0]}
            raise Opaque("upd")
        if isinstance(c, tuple):
            x = list(c)
            try:
                if m in ("append", "add"):
                    if m == "append" or v[0] not in x:
                        x.append(v[0])
                elif m in ("extend", "update"):
                    for y, t_ in zip(v, rest):
                        x += seq(y, t_)
                elif m == "insert":
                    x.insert(v[0], v[1])
                elif m == "pop":
                    x.pop(*v)
                elif m == "popleft":
                    x.pop(0)
                elif m in ("remove", "discard"):
                    if m == "remove" or v[0] in x:
                        x.remove(v[0])
                elif m == "clear":
                    x.clear()
                elif m == "reverse":
                    x.reverse()
                elif m == "sort" and not v:
                    x = order(x)
                else:
                    raise Opaque("upd")
            except (ValueError, IndexError, TypeError):
                raise Undef from None
            return tuple(x)
        raise Undef

    def o_mutated(self, t, a, env):
        vals = tuple(self.v(x, env) if isinstance(x, Term) else x for x in a)
        if isinstance(vals[2], (D, Rec)):
            return self.vary(vals[2], (("mutated", a[0]),), freeze(vals), 0)
        return self.w.value((("mutated", a[0]),), freeze(vals))

    def vary(self, v, shape, key, d):
        """what a call may have left of a container: the same kind of thing, otherwise filled"""
        r = self.w.r(("vary", shape, key))
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.vary(x, (*shape, ("attr", k)), (key, k), d + 1) for k, x in v.fields.items()})
        if not isinstance(v, D):
            return v
        out = D({k: self.vary(x, (*shape, "val"), (key, "val", k), d + 1) for k, x in v.items()})
        if d < 4 and not any(isinstance(x, Rec) for x in v.values()):
            es = (*shape, "elem")
            for i in range(r.choice((0, 0, 1, 2))):
                k = self.w.value(es, (key, "k", i), None, d + 1)
                if k not in out:
                    out[k] = self.w.value((*shape, "val"), (key, "val", k), None, d + 1)
        return out

    def o_func(self, t, a, env):
        raise Opaque("func")

    # calls
    def o_call(self, t, a, env):
        n = a[0]
        if isinstance(n, Term):
            fn = self.v(n, env)
            return self.opaque(t, ("call", fn, *[self.v(x, env) for x in a[1:]]))
        v = [self.v(x, env) for x in a[1:]]
        r = self.builtin(n, v)
        if r is not NotImplemented:
            return r
        if n in ("resolve", "absolute", "os.path.abspath", "os.path.realpath") and isinstance(v[0], str):
            x = posixpath.normpath(v[0])
            if n in ("absolute", "os.path.abspath"):
                return P(x if x.startswith("/") else "/cwd/" + x)
            if x.startswith("/real/") or x == "/":
                return P(x)
            x = x if x.startswith("/") else "/cwd/" + x
            if self.rnd("link", x) < 0.4:
                return P("/real" + posixpath.dirname(x).rstrip("/") + "/to-" + posixpath.basename(x))
            return P("/real" + x)
        if n.startswith("method.") and isinstance(v[0] if v else None, (tuple, frozenset, D)):
            self.lossy.add(t)
        keys = [(("call", n),)]
        return self.w.value(keys[0], freeze(tuple(v)))

    def builtin(self, n, v):
        if not v:
            return NotImplemented
        x = v[0]
        if n == "method.timetuple":
            r = self.w.r(("timetuple", freeze(x)))
            return (r.choice((1969, 1979, 1980, 1980, 1981, 2024, 2108)), r.choice((1, 2, 12)), r.choice((1, 2, 31)), r.choice((0, 1, 23)), r.choice((0, 1, 59)), r.choice((0, 1, 2, 58)), 0, 1, 0)
        if n.startswith("method.") and isinstance(x, str) and not isinstance(x, P):
            m = n[7:]
            if m in STR_METHODS:
                args, kw = [], {}
                for y in v[1:]:
                    if isinstance(y, bytes):
                        y = y.decode("latin-1")
                    if isinstance(y, tuple) and len(y) == 3 and y[0] == "kw":
                        kw[y[1]] = y[2]
                    else:
                        args.append(y)
                if m == "format":
                    return NotImplemented
                try:
                    r = getattr(x, m)(*args, **kw)
                except ValueError:
                    raise Undef from None
                except (TypeError, LookupError):
                    raise Undef from None
                return tuple(r) if isinstance(r, list) else r
            return NotImplemented
        if n in ("method.pop", "method.popleft") and isinstance(x, tuple):
            try:
                return x[v[1] if len(v) > 1 else -1 if n == "method.pop" else 0]
            except (IndexError, TypeError):
                raise Undef from None
        if n == "method.pop" and isinstance(x, frozenset) and len(v) == 1:
            if not x:
                raise Undef
            return order(x)[0]
        if n.startswith("method.") and isinstance(x, tuple):
            m = n[7:]
            if m in ("index", "count"):
                try:
                    return getattr(x, m)(*v[1:])
                except ValueError:
                    raise Undef from None
            return NotImplemented
        if n.startswith("method.") and isinstance(x, frozenset):
            m = n[7:]
            if m in ("union", "difference", "intersection", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
                try:
                    return getattr(x, m)(*[y if not isinstance(y, Obj) else frozenset(z for z, _ in self.items(y)) for y in v[1:]])
                except TypeError:
                    raise Undef from None
            return NotImplemented
        if n.startswith("method.") and isinstance(x, D):
            m = n[7:]
            if m in ("get", "setdefault"):
                return x.get(v[1], v[2] if len(v) > 2 else None)
            if m == "pop":
                if v[1] not in x and len(v) < 3:
                    raise Undef
                return x.get(v[1], v[2] if len(v) > 2 else None)
            return NotImplemented
        if n.startswith("method.") and isinstance(x, str):
            m = n[7:]
            import pathlib
            p = pathlib.PurePosixPath(x)
            try:
                if m == "relative_to" and isinstance(v[1], str):
                    return P(p.relative_to(v[1])) if p.is_relative_to(v[1]) else P("outside/" + str(x).lstrip("/"))
                if m == "is_relative_to" and isinstance(v[1], str):
                    return p.is_relative_to(v[1])
                if m == "with_name":
                    return P(p.with_name(v[1]))
                if m == "with_suffix":
                    return P(p.with_suffix(v[1]))
                if m == "joinpath":
                    return P(p.joinpath(*v[1:]))
                if m == "as_posix":
                    return str(x)
                if m in STR_METHODS and m in ("replace", "split", "rstrip", "lstrip", "strip", "lower", "upper", "rsplit", "partition", "rpartition"):
                    r = getattr(str(x), m)(*v[1:])
                    return tuple(r) if isinstance(r, list) else r
            except (ValueError, TypeError, IndexError):
                raise Undef from None
            return NotImplemented
        if n in ("auditwheel.tools.walk", "os.walk") and isinstance(x, str):
            r = self.w.r(("walk", str(x)))
            names = lambda: tuple(self.w.str(r, None).replace("/", "_") or "x" for _ in range(self.w.count(r)))  # noqa: E731
            return tuple((P(posixpath.join(x, *(["d%d" % i] if i else []))), names(), names()) for i in range(r.choice((1, 1, 2, 3))))
        if n == "str":
            return self.tostr(x)
        if n == "int":
            if isinstance(x, str):
                try:
                    return int(x, *v[1:])
                except (ValueError, TypeError):
                    raise Undef from None
            if isinstance(x, int):
                return int(x)
            return NotImplemented
        if n == "abs" and isinstance(x, int):
            return abs(x)
        if n == "sum" and isinstance(x, tuple) and all(isinstance(y, int) for y in x):
            return sum(x)
        if n == "range" and all(isinstance(y, int) for y in v):
            r = range(*v)
            if len(r) > 40:
                raise Undef
            return tuple(r)
        if n == "os.path.normpath" and isinstance(x, str):
            return P(posixpath.normpath(x))
        if n == "os.path.basename" and isinstance(x, str):
            return posixpath.basename(x)
        if n == "os.path.dirname" and isinstance(x, str):
            return P(posixpath.dirname(x))
        if n == "os.path.join" and all(isinstance(y, str) for y in v):
            return P(posixpath.join(*v))
        if n == "os.path.isabs" and isinstance(x, str):
            return x.startswith("/")
        if n == "os.path.splitext" and isinstance(x, str):
            return posixpath.splitext(x)
        return NotImplemented


def same(x, y):
    if isinstance(x, bool) != isinstance(y, bool) and (isinstance(x, bool) or isinstance(y, bool)):
        return bool(x == y) if isinstance(x, int) and isinstance(y, int) else False
    return x == y


def freeze(v):
    """a key for memoisation"""
    if isinstance(v, D):
        return ("D", tuple(sorted(((repr(k), freeze(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, frozenset):
        return ("S", tuple(sorted((repr(freeze(x)) for x in v))))
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, Obj):
        return ("O", v.key)
    if isinstance(v, Member):
        return ("M", v.qual)
    if isinstance(v, Rec):
        return ("R", v.cls, tuple(sorted((k, repr(freeze(x))) for k, x in v.fields.items())))
    if isinstance(v, P):
        return str(v)
    return v


def loosen(v):
    """without the order and number of elements"""
    if isinstance(v, tuple):
        return ("L", *sorted({repr(loosen(x)) for x in v}))
    return v


def hash_(x):
    return repr(freeze(x))


# ------------------------------------------------------------------ comparing summaries
class Side:
    def __init__(self, s):
        self.s = s


def formula(ev, n):
    return ev.f(n, {})


def value(ev, t):
    return freeze(ev.v(t, {}))


def loops_of(*ts):
    """loops the terms are in, outer first"""
    out = []

    def go(x):
        for t in subterms(x):
            if t.op == "elem" and t is not x:
                go(t)
        if isinstance(x, Term) and x.op == "elem" and x not in out:
            out.append(x)
    for t in ts:
        bound = set()
        for x in subterms(t):
            if x.op in ("ent", "acc", "first", "lastof", "fold", "last"):
                bound.update(x.args[0])
            elif x.op in ("exists",):
                bound.add(x.args[0])
        for x in subterms(t):
            if x.op == "elem" and x not in bound:
                go(x)
    return tuple(out)


def ev_events(ev, events, kind, names=None):
    """occurrences of an operation: multiset of its arguments"""
    out = []
    for e in events:
        if e.kind != kind:
            continue
        for en in ev.loop(e.loops, {}, e.guard):
            if not ev.f(e.guard, en):
                continue
            row = []
            for i, (k, v) in enumerate(e.args):
                row.append((k, freeze(ev.v(v, en))))
            out.append(tuple(row))
    return out


class Refuter:
    """tries to tell the two summaries of a function apart"""

    def __init__(self, c, s, typers, enums, tries=300, guided=3000, seconds=20):
        self.c, self.s, self.enums = c, s, enums
        self.typers = typers
        self.tries, self.guided, self.seconds = tries, guided, seconds
        self.found = []
        self.shapes = None
        self.worlds = {}
        self.closed = self.made = None
        sides = []
        for z in (c, s):
            seen = set()
            for x in z.terms():
                subterms(x, seen)
            sides.append(seen)
        self.common = sides[0] & sides[1]

    def world(self, i):
        if self.shapes is None:
            self.shapes = Shapes([*self.c.terms(), *self.s.terms(), *[x for o, _ in (*self.c.fields, *self.s.fields) for x in (o,)]], self.typers)
        w = self.worlds.get(i)
        if w is None:
            w = World(self.shapes, i)
            w.ev = Evaluator(w, self.enums)
            self.prepare(w)
            self.worlds[i] = w
        w.ev.steps = 0
        return w.ev

    def prepare(self, w):
        """strings put together elsewhere turn up as values"""
        if self.closed is None:
            self.closed = [t for t in sorted(self.shapes.derived, key=simp.skey) if not any(x.op in ("elem", "rec", "carry", "val") for x in subterms(t))][:12]
        for t in self.closed:
            try:
                v = w.ev.v(t, {})
            except (Undef, Opaque):
                continue
            if isinstance(v, str) and v:
                w.derived.append(str(v))
        if self.made is None:
            self.made = []
            for t in sorted(self.shapes.derived, key=simp.skey):
                sub = subterms(t)
                if t.op != "concat" or any(x.op in ("rec", "carry", "fold", "witer") for x in sub):
                    continue
                Ls = [x for x in sub if x.op == "elem"]
                if Ls and len(Ls) <= 3:
                    Ls.sort(key=lambda x: (sum(y.op == "elem" for y in subterms(x)), simp.skey(x)))
                    self.made.append((tuple(Ls), t))
            self.made = self.made[:6]
        for Ls, t in self.made:
            n = 0
            try:
                for en in w.ev.loop(Ls, {}):
                    v = w.ev.v(t, en)
                    if isinstance(v, str) and v and str(v) not in w.derived:
                        w.derived.append(str(v))
                    n += 1
                    if n >= 8:
                        break
            except (Undef, Opaque, RecursionError):
                continue

    def run(self, f):
        """f(ev) -> (interesting, equal); -> (number of interesting assignments, number telling apart, without a value)"""
        n = diff = undef = 0
        self.sure = self.fair = 0
        t0 = time.process_time()
        cov, corpus = set(), []

        def one(ev):
            nonlocal n, diff, undef
            ev.cov = set()
            ev.steps = 0
            try:
                a, same_ = f(ev)
            except Undef:
                undef += 1
                a, same_ = 0, True
            n += bool(a)
            diff += not same_
            if not same_:
                self.witness = ev
                self.sure += not ev.lossy
                self.fair += not ev.lossy - self.common
            if ev.cov - cov:
                cov.update(ev.cov)
                corpus.append(ev)
                return True
            return False
        try:
            for ev in list(self.found):
                one(ev)
            for i in range(self.tries):
                if self.sure >= 3 or diff >= 9:
                    return (n, diff, undef), ""
                if time.process_time() - t0 > self.seconds:
                    break
                # memoised values do not count as branches taken
                ev = self.world(i)
                one(Evaluator(ev.w, self.enums))
            rnd = random.Random(1)
            k = 0
            while corpus and k < self.guided and time.process_time() - t0 < self.seconds:
                k += 1
                base = corpus[-1 - int(len(corpus) * rnd.random() ** 2)]
                ev = self.mutant(base, rnd)
                if ev and one(ev):
                    self.found.append(ev)
                if self.sure >= 3 or diff >= 9:
                    break
        except Opaque as e:
            return None, str(e)
        except RecursionError:
            return None, "recursion"
        return (n, diff, undef), ""

    def mutant(self, base, rnd):
        """a variation of an assignment: some atoms drawn anew, or given a value that occurs elsewhere"""
        w = base.w
        salts, fixed = dict(w.salts), dict(w.fixed)
        used = list(w.used)
        for _ in range(rnd.choice((1, 1, 2, 3))):
            if base.cmps and rnd.random() < 0.4:
                # make a comparison succeed
                t, x, y = rnd.choice(base.cmps)
                ks = self.shapes.keys(t)
                at = [k for k, v in w.memo.items() if v.__class__ is x.__class__ and v == x and k[0] in ks]
                if at:
                    fixed[repr(rnd.choice(at))] = P(y) if isinstance(x, P) else str(y) if isinstance(y, P) else y
                    continue
            if rnd.random() < 0.5 and w.memo:
                k, v = rnd.choice(list(w.memo.items()))
                if not isinstance(v, (str, int, Member)) and v is not None:
                    continue
                ty = str if isinstance(v, str) else type(v)
                vals = [x for x in base.memo.values() if isinstance(x, ty) and not (ty is int and isinstance(x, bool)) and len(str(x)) < 200]
                if vals:
                    x = rnd.choice(vals)
                    if isinstance(v, P):
                        x = P(x)
                    elif isinstance(x, P):
                        x = str(x)
                    if isinstance(x, str) and not isinstance(x, P) and rnd.random() < 0.3:
                        x = x + rnd.choice(("/", ".", "x")) if rnd.random() < 0.5 else x[:-1]
                    fixed[repr(k)] = x
            elif used:
                salts[rnd.choice(used)] = rnd.randrange(10 ** 6)
        if not salts and not fixed:
            return None
        m = World(self.shapes, w.seed, salts, fixed)
        m.derived = w.derived
        return Evaluator(m, self.enums)

    def loose(self, ev):
        return ev.loose or self.c.approx or self.s.approx

    def aspect(self, name, diffs):
        if any(d.why in ("cleanup", "error handling", "missing operation!") for d in diffs):
            return None, "not a value"
        c, s = self.c, self.s
        if name.startswith("raise:"):
            x = name[6:]

            def f(ev):
                p, q = ev.f(c.raises.get(x, F), {}), ev.f(s.raises.get(x, F), {})
                return p or q, p == q
            return self.run(f)
        if name == "ret":
            def f(ev):
                if not (ev.f(c.ret_guard, {}) and ev.f(s.ret_guard, {})):
                    return 0, True
                q = value(ev, s.ret)
                try:
                    p = value(ev, c.ret)
                except Endless:
                    return 1, False
                return 1, same(p, q) or self.loose(ev) and loosen(p) == loosen(q)
            return self.run(f)
        if name.startswith("field:"):
            x = name[6:]

            def f(ev):
                if not (ev.f(c.ret_guard, {}) and ev.f(s.ret_guard, {})):
                    return 0, True
                p, q = ({(repr(freeze(ev.v(o, en))), i): freeze(ev.v(v, en)) for (o, a), v in z.fields.items() if a == x
                         for i, en in enumerate(ev.loop(loops_of(o, v), {}))} for z in (c, s))
                return 1, p == q or self.loose(ev) and {k: loosen(v) for k, v in p.items()} == {k: loosen(v) for k, v in q.items()}
            return self.run(f)
        if name.startswith("ev:"):
            kind, _, arg = name[3:].partition("#")

            def f(ev):
                q = ev_events(ev, s.events, kind)
                try:
                    p = ev_events(ev, c.events, kind)
                except Endless:
                    return 1, False
                if p == q:
                    return bool(p), True
                if self.loose(ev):
                    p, q = (sorted({tuple((k, repr(loosen(v))) for k, v in row) for row in z}) for z in (p, q))
                    if p == q:
                        return bool(p), True
                if arg:
                    pp, qq = (sorted(repr([v for k, v in row if k == arg]) for row in z) for z in (p, q))
                    if pp != qq or len(p) != len(q):
                        return 1, False
                    return bool(p), sorted(map(repr, p)) == sorted(map(repr, q)) or not self.other(p, q, arg)
                if sorted(tuple(k for k, _ in row) for row in p) != sorted(tuple(k for k, _ in row) for row in q):
                    return 1, False
                return bool(p or q), len(p) == len(q) and (sorted(map(repr, p)) == sorted(map(repr, q)) or not self.other(p, q, ""))
            return self.run(f)
        return None, "order"

    def other(self, p, q, arg):
        """no argument by itself tells the occurrences apart (they are permuted among each other)"""
        names = {k for row in p + q for k, _ in row}
        for n in names - {arg}:
            if sorted(repr([v for k, v in row if k == n]) for row in p) != sorted(repr([v for k, v in row if k == n]) for row in q):
                return False
        return True
