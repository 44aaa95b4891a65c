"""Normalising constructors over terms."""
from __future__ import annotations

from .terms import (
    BOOLT, F, FALSE, NONE, STRT, T, TRUE, And, Node, Not, Or, Term, _ATOM_IX, as_bool, atom, b, bite, const,
    contains, is_const, ite, leaves, mk, restrict, show, simplify, subterms, support,
)

SETK = ("set", "frozenset")
LISTK = ("list", "tuple", "gen", "sorted", "sortdup", "uniq", "iter")


def skey(t):
    """structural sort key (stable between spec and code)"""
    k = _SK.get(t)
    if k is None:
        k = _skey(t)
        _SK[t] = k
    return k


_SK: dict = {}


def _skey(t):
    import hashlib

    def enc(x):
        if isinstance(x, Term):
            return skey(x)
        if isinstance(x, Node):
            return "B" + hashlib.md5(nodekey(x).encode()).hexdigest()
        if isinstance(x, tuple):
            return "(" + ",".join(enc(y) for y in x) + ")"
        return type(x).__name__ + repr(x)

    return t.op + hashlib.md5(("|".join(enc(a) for a in t.args)).encode()).hexdigest()


def nodekey(n):
    if n is T:
        return "1"
    if n is F:
        return "0"
    from .terms import atom_term
    return f"[{skey(atom_term(n.var))}?{nodekey(n.hi)}:{nodekey(n.lo)}]"


# ---------------------------------------------------------------- collections
def ent(loops, guard, val, key=None):
    return mk("ent", tuple(loops), guard, val, key)


def flat_entries(t):
    """the entries of a concatenation of lists"""
    if t.op == "arith" and t.args[0] == "Add" and len(t.args) == 3:
        return flat_entries(t.args[1]) + flat_entries(t.args[2])
    if t.op == "coll" and t.args[0] in ("list", "tuple", "gen", "iter"):
        return list(t.args[1])
    L = mk("elem", t, 0)
    return [ent((L,), T, L)]


def coll(kind, entries):
    return mk("coll", kind, tuple(entries))


def is_coll(t):
    return t.op == "coll"


def with_kind(t, kind):
    """list(t), set(t), …  t: coll or opaque"""
    if t.op == "keys" and kind in ("list", "tuple", "set", "frozenset", "sorted", "uniq"):
        t = t.args[0]
    if t.op == "coll":
        ents = t.args[1]
        if t.args[0] == "dict" and kind != "dict":
            ents = merge_keys(tuple(ent(e.args[0], e.args[1], e.args[3]) if e.op in ("ent", "acc") else e for e in ents))
        if len(ents) == 1:
            o = identity_of(ents[0])
            if o is not None and kind != "dict":
                return mk("as", kind, o) if kind not in ("iter", "gen") else o
        return coll(kind, ents)
    if t.op == "ite":
        return ite(t.args[0], with_kind(t.args[1], kind), with_kind(t.args[2], kind))
    if t.op == "as":
        if kind in ("iter", "gen"):
            return t
        if t.args[0] == kind:
            return t
        if kind in ("list", "tuple") and t.args[0] in ("sorted", "uniq"):
            return t
        if kind in SETK or kind == "sorted":
            return mk("as", "sortset" if kind == "sorted" and t.args[0] in (*SETK, "uniq") else kind, t.args[1])
        return mk("as", kind, t)
    if kind in ("iter", "gen"):
        return t
    return mk("as", kind, t)


def identity_of(e):
    """if entry is 'every element of X' return X"""
    if e.op != "ent":
        return None
    loops, g, v, k = e.args
    if len(loops) == 1 and g is T and k is None and v is loops[0] and v.op == "elem":
        return v.args[0]
    return None


def merge_keys(ents):
    """drop repeated entries (same key under the same loops): the keys of a dict"""
    out = []
    for e in ents:
        for i, o in enumerate(out):
            if o.op == e.op == "ent" and o.args[0] == e.args[0] and o.args[2] is e.args[2]:
                out[i] = ent(o.args[0], Or(o.args[1], e.args[1]), o.args[2])
                break
        else:
            out.append(e)
    return tuple(out)


def strip_as(t):
    while t.op == "as":
        t = t.args[1]
    return t


# ---------------------------------------------------------------- comparisons
def islinux_side(t):
    return t.op == "linux" or (t.op == "attr" and t.args[1] == "linux")


def one_bit(m):
    if is_const(m):
        return type(m.args[0]) is int and m.args[0] > 0 and m.args[0] & (m.args[0] - 1) == 0
    return m.op == "glob" and m.args[0].startswith("stat.S_I") and not m.args[0].startswith(("stat.S_IRWX", "stat.S_IF", "stat.S_IM"))


def eq(x, y) -> Node:
    if x is y:
        return T
    if x.op == "ite" or y.op == "ite":
        if x.op != "ite" or (y.op == "ite" and skey(y) < skey(x)):
            x, y = y, x
        c, p, q = x.args
        return bite(c, eq(p, y), eq(q, y))
    if is_const(x) and is_const(y):
        return T if x.args[0] == y.args[0] else F
    if y is NONE or x is NONE:
        return isnone(x if y is NONE else y)
    if x.op == "tup" and y.op == "tup":
        r = T if len(x.args) == len(y.args) else F
        for p, q in zip(x.args, y.args):
            r = And(r, eq(p, q)) if r is not F else F
        return r
    bx, by = as_bool(x), as_bool(y)
    if bx is not None and by is not None:
        from .terms import Xor
        return Not(Xor(bx, by))
    if is_const(x) or (not is_const(y) and skey(y) < skey(x)):
        x, y = y, x
    # all the bits of m are set in x
    for u, v in ((x, y), (y, x)):
        if v.op == "arith" and len(v.args) == 3 and v.args[0] in ("BitOr", "BitAnd") and u in v.args[1:]:
            w = v.args[2] if v.args[1] is u else v.args[1]
            m, o = (w, u) if v.args[0] == "BitOr" else (u, w)
            if one_bit(m):
                return truth(mk("arith", "BitAnd", *sorted((m, o), key=skey)))
    # y is const if any is
    if y is TRUE or y is FALSE:
        t = truth(x)
        return t if y is TRUE else Not(t)
    # priority of policies
    if x.op == "attr" and x.args[1] == "priority":
        if is_const(y) and y.args[0] == 0:
            return atom(mk("islinux", x.args[0]))
        if y.op == "attr" and y.args[1] == "priority":
            return eq(x.args[0], y.args[0])
    if islinux_side(y):
        return atom(mk("islinux", x)) if not islinux_side(x) else T
    if islinux_side(x):
        return atom(mk("islinux", y))
    # attr .name of policies vs linux name : leave
    if x.op in ("linux", "highest", "lowest") and y.op in ("linux", "highest", "lowest"):
        return F
    if x.op == "len" and is_const(y):
        n = y.args[0]
        if n == 0:
            return Not(truth(x.args[0]))
        if type(n) is int and n > 0:
            return And(Not(lt(x, y)), lt(x, const(n + 1)))
    if x.op == "arith" and is_const(y) and type(y.args[0]) is int and y.args[0] == 0:
        return Not(truth(x))
    if is_const(y) and y.args[0] == "" and (x in STRT or x.op in STROPS or x.op == "call" and x.args[0] in STRCALLS):
        return Not(truth(x))
    if x.op == "glob" and y.op == "glob":
        if is_enum_member(x) and is_enum_member(y):
            return F
    for u, v in ((x, y), (y, x)):
        ms = last_member(u, v)
        if ms:
            return And(*[Not(eq(u, m)) for m in ms])
    # str concatenation with same const prefix/suffix
    if x.op == "concat" and y.op == "concat":
        xa, ya = list(x.args[0]), list(y.args[0])
        while xa and ya and xa[0] is ya[0]:
            xa.pop(0), ya.pop(0)
        while xa and ya and xa[-1] is ya[-1]:
            xa.pop(), ya.pop()
        if len(xa) < len(x.args[0]):
            return eq(concat(xa), concat(ya))
    if x.op == "coll" and y.op == "coll":
        if not x.args[1] and not y.args[1]:
            return T
        if not y.args[1]:
            return Not(truth(x))
        if not x.args[1]:
            return Not(truth(y))
    elif y.op == "coll" and not y.args[1]:
        return Not(truth(x))
    return atom(mk("eq", x, y))


STROPS = ("concat", "before", "after", "rbefore", "rafter", "joinstr")
STRCALLS = {"method." + m for m in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "removeprefix", "removesuffix", "title", "casefold", "join")}
ENUMS: dict = {}  # qualified enum member name -> value


def last_member(x, y):
    """y is the last member of the enumeration x is known to belong to: the others"""
    if y.op != "glob" or y.args[0] not in ENUMS:
        return None
    cls = y.args[0].rpartition(".")[0]
    if x.op == "param" and x.args[0] == "self:" + cls or x.op == "elem" and x.args[0].op in ("glob", "cls") and x.args[0].args[0] == cls:
        ms = [m for m in ENUMS if m.rpartition(".")[0] == cls]
        if len(ms) > 1 and ms[-1] == y.args[0]:
            return [mk("glob", m) for m in ms[:-1]]
    return None


def SUBEXC(a, b):  # replaced by the interpreter: is exception a a subclass of b
    return a == b


_KINDS = ({"str"}, {"bytes"}, {"int", "bool"}, {"float"}, {"list"}, {"dict"}, {"tuple"}, {"set"}, {"frozenset"}, {"enum.Enum"},
          {"pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath"})


def disjoint(p, q):
    kp, kq = ([i for i, k in enumerate(_KINDS) if x in k] for x in (p, q))
    return bool(kp and kq and kp != kq)


def is_enum_member(t):
    return t.op == "glob" and t.args[0] in ENUMS


def isnone(x) -> Node:
    if x is NONE:
        return T
    if x.op == "ite":
        return bite(x.args[0], isnone(x.args[1]), isnone(x.args[2]))
    if x.op in ("const", "coll", "concat", "obj", "func", "tup", "new", "b", "as", "join", "len",
                "agg", "key", "linux", "highest", "lowest", "joinstr", "cls", "arith", "slice"):
        return F
    if x.op == "glob" and (is_enum_member(x) or x.args[0] in ENUMS):
        return F
    if x in NOTNONE:
        return F
    if x.op == "call" and isinstance(x.args[0], str) and x.args[0] in NONNULL:
        return F
    if x.op == "first":
        # first(L, g, v, default)
        L, g, v, d = x.args
        iv = isnone(v)
        if d is ABSENT and iv is F:
            return F
    return atom(mk("isnone", x))


NONNULL = {
    "resolve", "absolute", "open", "file", "csv.reader", "csv.writer", "method.strip", "method.split",
    "method.rsplit", "method.lower", "method.upper", "method.replace", "pathlib.Path.cwd", "os.listdir",
    "pathlib.Path", "ELFFile", "method.lstrip", "method.rstrip", "glob.glob", "method.glob",
    "method.read_text", "method.read_bytes", "method.hexdigest", "method.digest",
}


def consts_of(x):
    """the value of a tuple display of constants, else None"""
    if is_const(x) and isinstance(x.args[0], tuple):
        return x.args[0]
    if x.op == "tup" and all(is_const(y) for y in x.args):
        return tuple(y.args[0] for y in x.args)
    return None


def lt(x, y) -> Node:
    if x is y:
        return F
    if x.op == "ite" or y.op == "ite":
        if x.op == "ite":
            return bite(x.args[0], lt(x.args[1], y), lt(x.args[2], y))
        return bite(y.args[0], lt(x, y.args[1]), lt(x, y.args[2]))
    if is_const(x) and is_const(y):
        try:
            return T if x.args[0] < y.args[0] else F
        except TypeError:
            return atom(mk("lt", x, y))
    kx, ky = consts_of(x), consts_of(y)
    if kx is not None and ky is not None:
        try:
            return T if kx < ky else F
        except TypeError:
            return atom(mk("lt", x, y))
    if x.op == "attr" and y.op == "attr" and x.args[1] == "priority" and y.args[1] == "priority":
        return lt(x.args[0], y.args[0])
    if x.op == "attr" and x.args[1] == "priority" and is_const(y) and y.args[0] == 1:
        return atom(mk("islinux", x.args[0]))
    if y.op == "attr" and y.args[1] == "priority" and is_const(x) and x.args[0] == 0:
        return Not(atom(mk("islinux", y.args[0])))
    # policies.linux is the least, policies.highest the greatest
    if y.op == "linux" or x.op == "highest":
        return F
    if x.op == "linux":
        return Not(eq(y, x))
    if y.op == "len" and is_const(x):
        if x.args[0] == 0:
            return truth(y.args[0])
        if isinstance(x.args[0], int) and x.args[0] < 0:
            return T
    if x.op == "len" and is_const(y):
        if y.args[0] == 1:
            return Not(truth(x.args[0]))
        if isinstance(y.args[0], int) and y.args[0] <= 0:
            return F
    if x.op == "len" and is_const(y) and type(y.args[0]) is int and x.args[0].op == "coll" and x.args[0].args[0] in SETK \
            and len(x.args[0].args[1]) <= 4 and all(e.op == "ent" and not e.args[0] for e in x.args[0].args[1]):
        # number of distinct elements of a set display
        count = {0: T}
        ents = x.args[0].args[1]
        for i, e in enumerate(ents):
            new = e.args[1]
            for p in ents[:i]:
                new = And(new, Not(And(p.args[1], eq(p.args[2], e.args[2]))))
            nxt = {}
            for k, c in count.items():
                nxt[k] = Or(nxt.get(k, F), And(c, Not(new)))
                nxt[k + 1] = Or(nxt.get(k + 1, F), And(c, new))
            count = nxt
        return Or(*[c for k, c in count.items() if k < y.args[0]])
    # integers: x < const  ; const < x   -> x < c  canonical: lt(x, c); c<x == not x < c+1
    if is_const(x) and type(x.args[0]) is int and not is_const(y):
        return Not(lt(y, const(x.args[0] + 1)))
    return atom(mk("lt", x, y))


def le(x, y) -> Node:
    return Not(lt(y, x))


def apart(e, *ts):
    """the entry with loop variables the given terms do not know"""
    L = e.args[0] if e.op in ("ent", "acc") else ()
    if not L:
        return e
    seen = set()
    for t in ts:
        if t is not None:
            subterms(t, seen)
    if not any(x in seen for x in L):
        return e
    from .interp import rebuild_ent
    subterms(e, seen)
    return rebuild_ent(e, {x: mk("elem", x.args[0], 1 + max(y.args[1] for y in seen if y.op == "elem" and y.args[0] is x.args[0]))
                           for x in L if x.op == "elem" and x in seen and any(contains(t, {x}) for t in ts if t is not None)})


def in_(x, c) -> Node:
    c0 = c
    if c.op == "ite":
        return bite(c.args[0], in_(x, c.args[1]), in_(x, c.args[2]))
    c = strip_as(c)
    if c.op == "coll":
        r = F
        for e in c.args[1]:
            if e.op not in ("ent", "acc"):
                r = Or(r, atom(mk("in", x, e)))
                continue
            loops, g, v, k = apart(e, x).args
            t = k if k is not None else v
            r = Or(r, exists_all(loops, And(g, eq(x, t))))
        return r
    if c.op == "tup":
        r = F
        for v in c.args:
            r = Or(r, eq(x, v))
        return r
    if is_const(c) and isinstance(c.args[0], (tuple, frozenset)):
        r = F
        for v in c.args[0]:
            r = Or(r, eq(x, const(v)))
        return r
    if is_const(c) and is_const(x) and isinstance(c.args[0], str) and isinstance(x.args[0], str):
        return T if x.args[0] in c.args[0] else F
    if x.op == "ite":
        return bite(x.args[0], in_(x.args[1], c0), in_(x.args[2], c0))
    if x.op == "elem" and x.args[0] is c:
        return T
    if x.op == "key" and x.args[0].op == "elem" and x.args[0].args[0] is c:
        return T
    if c.op == "cat":
        r = F
        for y in c.args[0]:
            r = Or(r, in_(x, y))
        return r
    if c.op == "values":
        return atom(mk("in", x, c))
    return atom(mk("in", x, c))


# ---------------------------------------------------------------- truthiness
NOTNONE = set()  # filled by interp: terms whose type excludes None
OBJ_TRUE = set()  # filled by interp: terms that are objects without a truth value of their own
OBJ_OPT = set()  # filled by interp: terms whose type is Optional[object]; truthy == not None


def truth(x) -> Node:
    bx = as_bool(x)
    if bx is not None:
        return bx
    if is_const(x):
        return T if x.args[0] else F
    if x.op == "ite":
        return bite(x.args[0], truth(x.args[1]), truth(x.args[2]))
    if x.op == "coll":
        r = F
        for e in x.args[1]:
            if e.op not in ("ent", "acc"):
                r = Or(r, atom(mk("truthy", e)))
                continue
            r = Or(r, exists_all(e.args[0], e.args[1]))
        return r
    if x.op == "tup":
        return T if x.args else F
    if x.op in ("as", "keys", "values", "items"):
        return truth(x.args[1] if x.op == "as" else x.args[0])
    if x.op == "len":
        return truth(x.args[0])
    if x.op in ("obj", "func", "new", "linux", "highest", "lowest", "cls", "join"):
        return T
    if is_enum_member(x):
        return T
    if x.op == "cat":
        r = F
        for y in x.args[0]:
            r = Or(r, truth(y))
        return r
    if x.op == "concat":
        r = F
        for p in x.args[0]:
            r = Or(r, truth(p))
        return r
    if x.op == "first":
        L, g, v, d = x.args
        if d is ABSENT and truth(v) is T:
            return T
    if x in OBJ_OPT:
        return Not(isnone(x))
    if x in OBJ_TRUE:
        return T
    return atom(mk("truthy", x))


# ---------------------------------------------------------------- quantifiers
def exists_all(loops, g) -> Node:
    for L in reversed(tuple(loops)):
        g = exists(L, g)
    return g


_EX: dict = {}


def exists(L, g) -> Node:
    if g is F:
        return F
    k = (L, g)
    r = _EX.get(k)
    if r is not None:
        return r
    r = _exists(L, g)
    _EX[k] = r
    return r


def needless(g, loops):
    """without the conditions that follow from being in these loops: what is iterated over is not empty,
    and there is an element that satisfies a condition when the one at hand does"""
    if g is T or g is F:
        return g
    for L in loops:
        if L.op == "elem":
            a = mk("truthy", L.args[0])
            if a in _ATOM_IX:
                g = restrict(g, _ATOM_IX[a], 1)
    for a in support(g):
        if a.op == "exists" and a.args[0].op == "elem":
            M, c = a.args
            for L in loops:
                if L.op == "elem" and L.args[0] is M.args[0]:
                    k = needless(replace_term(c, M, L), loops)
                    g1 = restrict(g, _ATOM_IX[a], 1)
                    if k is T or And(g1, Not(k)) is F and And(restrict(g, _ATOM_IX[a], 0), Not(g1)) is F:
                        g = g1
                        break
    return g


def _exists(L, g):
    if g is T:
        if L.op == "elem":
            return truth(L.args[0])
        return atom(mk("exists", L, T))
    if L.op == "elem" and L.args[0].op == "ite":
        # one branch of the domain or the other
        c, x, y = L.args[0].args
        out = []
        for d in (x, y):
            M = mk("elem", d, *L.args[1:])
            out.append(exists(M, replace_term(g, L, M)))
        return bite(c, *out)
    if L.op == "elem":
        a = _ATOM_IX.get(mk("truthy", L.args[0]))
        if a is not None:
            # there is an element
            g2 = restrict(g, a, 1)
            if g2 is not g:
                return exists(L, g2)
        g2 = needless(g, (L,))
        if g2 is not g:
            return exists(L, g2)
    sup = support(g)
    indep = [a for a in sup if not contains(a, L)]
    if indep:
        ix = _ATOM_IX[indep[0]]
        return bite(atom(indep[0]), exists(L, restrict(g, ix, 1)), exists(L, restrict(g, ix, 0)))
    # the element meant is known
    if L.op == "elem":
        for a in sup:
            if a.op == "eq" and L in a.args and restrict(g, _ATOM_IX[a], 0) is F:
                v = a.args[1] if a.args[0] is L else a.args[0]
                if contains(v, L):
                    continue
                D = L.args[0]
                memo = {}

                def f(t):
                    if t is L:
                        return v
                    if t.op == "val" and (t.args[0] is L or t.args[0].op == "key" and t.args[0].args[0] is L):
                        return mk("val", v) if v.op == "elem" and v.args[0] is D else getitem(D, v)
                    return None
                from .interp import rewritef
                return And(in_(v, D), rewritef(restrict(g, _ATOM_IX[a], 1), f, memo))
    # single positive eq atom -> membership
    if len(sup) == 1 and g.hi is T and sup[0].op == "eq" and L.op == "elem":
        p, q = sup[0].args
        for u, v in ((p, q), (q, p)):
            if u is L and not contains(v, L):
                return in_(v, L.args[0])
            if u.op == "key" and u.args[0] is L and not contains(v, L):
                return in_(v, L.args[0])
            if u.op == "val" and u.args[0] is L and not contains(v, L):
                return in_(v, mk("values", L.args[0]))
    return atom(mk("exists", L, g))


def replace_term(x, old, new):
    from .interp import rewrite
    return rewrite(x, lambda t: new if t is old else None, {})


def split_ents(ents, values=True):
    """entries over alternative domains (or with alternative values) as one entry per alternative;
    for containers without an order"""
    out = []
    work = list(ents)
    n = 0
    while work:
        e = work.pop(0)
        n += 1
        if e.op != "ent" or n > 60:
            out.append(e)
            continue
        loops, g, v, k = e.args
        for i, L in enumerate(loops):
            if L.op == "elem" and L.args[0].op == "ite":
                c, x, y = L.args[0].args
                more = []
                for cc, d in ((c, x), (Not(c), y)):
                    M = mk("elem", d, *L.args[1:])
                    g2 = And(replace_term(g, L, M), cc)
                    if g2 is F or d.op == "coll" and not d.args[1] or is_const(d):
                        continue
                    more.append(ent(replace_term(loops[:i], L, L) + (M,) + replace_term(loops[i + 1:], L, M), g2, replace_term(v, L, M),
                                    replace_term(k, L, M) if k is not None else None))
                work[:0] = more
                break
        else:
            if values and v.op == "ite":
                work[:0] = [ent(loops, And(g, g2), x, k) for g2, x in leaves(v) if And(g, g2) is not F]
            else:
                out.append(e)
    return out


# ---------------------------------------------------------------- strings
def concat(parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out += p.args[0]
        elif is_const(p) and isinstance(p.args[0], str):
            if p.args[0] == "":
                continue
            if out and is_const(out[-1]) and isinstance(out[-1].args[0], str):
                out[-1] = const(out[-1].args[0] + p.args[0])
            else:
                out.append(p)
        else:
            out.append(p)
    # merge after flatten
    m = []
    for p in out:
        if m and is_const(p) and is_const(m[-1]) and isinstance(p.args[0], str) and isinstance(m[-1].args[0], str):
            m[-1] = const(m[-1].args[0] + p.args[0])
        else:
            m.append(p)
    if not m:
        return const("")
    if len(m) == 1:
        return m[0]
    return mk("concat", tuple(m))


def join_path(parts):
    out = []
    for p in parts:
        if p.op == "join":
            out += p.args[0]
        elif is_const(p) and p.args[0] in ("", "."):
            continue
        else:
            out.append(p)
    if not out:
        return const(".")
    if len(out) == 1:
        return out[0]
    return mk("join", tuple(out))


# ---------------------------------------------------------------- items
ABSENT = mk("absent")


def first(L, g, v, d=None):
    """v of the first element satisfying g, else d"""
    if not L:
        return ite(g, v, d)
    e = exists_all(L, g)
    if e is F:
        return ABSENT if d is None else d
    x = mk("first", tuple(L), g, v, ABSENT) if contains(v, set(L)) else v
    return x if d is None or d is ABSENT else ite(e, x, d)


def getattr_(x, a):
    if x.op == "ite":
        return ite(x.args[0], getattr_(x.args[1], a), getattr_(x.args[2], a))
    if x.op == "first" and x.args[3] is ABSENT:
        return first(x.args[0], x.args[1], getattr_(x.args[2], a))
    if x.op == "new":
        for n, v in x.args[1]:
            if n == a:
                return v
    if a == "parent" and x.op == "join" and len(x.args[0]) > 1:
        last = x.args[0][-1]
        if is_const(last) and isinstance(last.args[0], str) and "/" not in last.args[0] and last.args[0] not in ("", ".", ".."):
            return join_path(x.args[0][:-1])
    return mk("attr", x, a)


def const_index(k):
    return k.args[0] if is_const(k) else None


def str_item(v, i):
    """split/partition components"""
    m = v.args[0]
    a = v.args
    if m in ("method.partition",):
        if i == 0:
            return mk("before", a[1], a[2])
        if i in (2, -1):
            return mk("after", a[1], a[2])
    if m == "method.rpartition":
        if i == 0:
            return mk("rbefore", a[1], a[2])
        if i in (2, -1):
            return mk("rafter", a[1], a[2])
    if m in ("method.split", "method.rsplit") and len(a) >= 3:
        mx = None
        rest = a[3:]
        if rest:
            r = rest[0].args[1] if rest[0].op == "kw" else rest[0]
            mx = r.args[0] if is_const(r) else "?"
        if m == "method.split":
            if i == 0 and mx in (None, 1):
                return mk("before", a[1], a[2])
            if i in (1, -1) and mx == 1:
                return mk("after", a[1], a[2])
            if i == -1 and mx is None:
                return mk("rafter", a[1], a[2])
        else:
            if i == 0 and mx == 1:
                return mk("rbefore", a[1], a[2])
            if i in (1, -1) and mx == 1:
                return mk("rafter", a[1], a[2])
            if i == -1 and mx is None:
                return mk("rafter", a[1], a[2])
            if i == 0 and mx is None:
                return mk("before", a[1], a[2])
    return None


def getitem(x, k):
    if x.op == "ite":
        return ite(x.args[0], getitem(x.args[1], k), getitem(x.args[2], k))
    if k.op == "ite":
        return ite(k.args[0], getitem(x, k.args[1]), getitem(x, k.args[2]))
    if x.op == "first" and x.args[3] is ABSENT and not contains(k, set(x.args[0])):
        return first(x.args[0], x.args[1], getitem(x.args[2], k))
    ci = const_index(k)
    if x.op == "slice" and type(ci) is int and ci >= 0 and x.args[-1] is NONE and len(x.args) == 4:
        lo, hi = (const_index(a) if is_const(a) else "?" for a in x.args[1:3])
        lo = 0 if lo is None else lo
        if type(lo) is int and lo >= 0 and (hi is None or type(hi) is int and lo + ci < hi):
            return getitem(x.args[0], const(lo + ci))
    if x.op == "call" and isinstance(x.args[0], str) and type(ci) is int:
        r = str_item(x, ci)
        if r is not None:
            return r
    if x.op == "tup" and isinstance(ci, int) and not isinstance(ci, bool):
        if -len(x.args) <= ci < len(x.args):
            return x.args[ci]
    if is_const(x) and isinstance(x.args[0], (str, tuple)) and isinstance(ci, int):
        try:
            return const(x.args[0][ci])
        except IndexError:
            pass
    if x.op == "elem" and ci in (0, 1) and x.args[0].op == "items":
        pass
    if x.op == "coll":
        kind, ents = x.args
        if kind == "dict":
            # literal dict with constant keys, no loops
            r = None
            if ents and all(e.op == "ent" and not e.args[0] for e in ents):
                r = mk("missing", x, k)
                for e in ents:
                    r = ite(And(e.args[1], eq(k, e.args[3])), e.args[2], r)
                return _drop_missing(r)
            # dict built by a loop: lookup by the loop key
            for e in reversed(ents):
                if e.op == "ent" and e.args[3] is k and e is ents[-1] and (k.op in ("elem", "key") or not contains(replace_term(e.args[2], k, NONE), set(e.args[0]))):
                    return e.args[2]
        elif isinstance(ci, int) and kind in ("list", "tuple", "uniq") and all(e.op == "ent" and not e.args[0] and e.args[1] is T for e in ents):
            if -len(ents) <= ci < len(ents):
                return ents[ci].args[2]
        elif kind == "list" and ci == 0 and ents and ents[0].op == "ent" and not ents[0].args[0] and ents[0].args[1] is T:
            return ents[0].args[2]
        elif type(ci) is int and ci == 0 and kind in ("list", "tuple", "uniq", "set", "frozenset") and ents and all(e.op == "ent" for e in ents):
            return first_ent(ents)
        elif kind in ("sorted", "sortdup") and ci in (0, -1) and all(e.op == "ent" for e in ents):
            return agg("min" if ci == 0 else "max", ents)
    if x.op == "as" and x.args[0] in ("list", "tuple", "iter"):
        return getitem(x.args[1], k)
    if k.op == "elem" and k.args[0] is x:
        return mk("val", k)
    if k.op == "key" and k.args[0].op == "elem" and k.args[0].args[0] is x:
        return mk("val", k.args[0])
    return mk("item", x, k)


def first_ent(ents, default=None):
    """the first of the entries (an arbitrary one of a set)"""
    r = mk("stopiter") if default is None else default
    for e in reversed(ents):
        L, g, v, _ = e.args
        r = first(L, g, v, r)
    return r


def _drop_missing(r):
    if r.op == "ite" and r.args[2].op == "missing":
        # exhaustive lookup assumed to succeed (KeyError otherwise)
        lv = [(g, v) for g, v in leaves(r)]
        return r
    return r


# ---------------------------------------------------------------- aggregates
def agg(op, ents, default=None, key=None):
    """ents: entries (value in args[2], optional sort key in args[3])"""
    flat = []
    for e in ents:
        loops, g, v, k = e.args
        if v.op == "agg" and v.args[0] == op and v.args[2] is None and k is None:
            for e2 in v.args[1]:
                flat.append(ent(loops + e2.args[0], And(g, e2.args[1]), e2.args[2], e2.args[3]))
        elif v.op == "ite" and k is None:
            for g2, leaf in leaves(v):
                flat.append(ent(loops, And(g, g2), leaf, k))
        else:
            flat.append(ent(loops, g, v, k))
    # flatten again if ite leaves were aggs
    if any(e.args[2].op == "agg" and e.args[2].args[0] == op and e.args[2].args[2] is None and e.args[3] is None for e in flat) or any(
        e.args[2].op == "ite" and e.args[3] is None for e in flat
    ):
        return agg(op, flat, default, key)
    # conditions that do not depend on the elements
    for e in flat:
        if e.args[0] and e.args[1] is not T:
            for a in support(e.args[1]):
                if not contains(a, set(e.args[0])):
                    ix = _ATOM_IX[a]
                    side = [[ent(q.args[0], restrict(q.args[1], ix, v), q.args[2], q.args[3]) for q in flat if restrict(q.args[1], ix, v) is not F] for v in (1, 0)]
                    return ite(atom(a), agg(op, side[0], default), agg(op, side[1], default))
    # max over priority: value keyed by itself
    if op == "max" and default is not None and default.op == "linux":
        flat.append(ent((), T, default))
        default = None
    if op == "min" and default is not None and default.op == "highest":
        flat.append(ent((), T, default))
        default = None
    m = {}
    for e in flat:
        kk = (e.args[0], e.args[2], e.args[3])
        m[kk] = Or(m.get(kk, F), e.args[1])
    drop = "highest" if op == "min" else "linux"
    uncond = [v for (L, v, k), g in m.items() if not L and g is T and v.op != drop and k is None]
    out = []
    tot = F
    for (L, v, k), g in m.items():
        if not L:
            tot = Or(tot, g)
    for (L, v, k), g in m.items():
        if g is F:
            continue
        if v.op == drop and not L and k is None:
            others = F
            for (L2, v2, k2), g2 in m.items():
                if not L2 and v2.op != drop:
                    others = Or(others, g2)
            g = T if others is not T else F
            if others is T:
                continue
            g = T
        out.append(ent(L, g, v, k))
    # absorbing elements
    absorb = "linux" if op == "min" else "highest"
    if any(e.args[2].op == absorb and not e.args[0] and e.args[1] is T and e.args[3] is None for e in out):
        return [e.args[2] for e in out if e.args[2].op == absorb][0]
    if not out:
        return default if default is not None else mk("aggempty", op)
    if default is not None and any(not e.args[0] and e.args[1] is T for e in out):
        default = None
    if len(out) == 1 and not out[0].args[0] and out[0].args[1] is T:
        return out[0].args[2]
    out.sort(key=skey)
    if default is not None:
        some = F
        for e in out:
            some = Or(some, exists_all(e.args[0], e.args[1]))
        return ite(some, mk("agg", op, tuple(out), None), default)
    return mk("agg", op, tuple(out), None)
