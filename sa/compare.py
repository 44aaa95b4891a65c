"""Three-valued comparison of summaries: EQ / DIFF / UNK.

Terms of both sides live in one hash-consed universe.  Conditions are compared
as BDDs under a care set (the guard of the construct and theory axioms); atoms
that only occur on one side are paired structurally first.
"""
from __future__ import annotations

from . import simp
from .interp import has_op, rebuild, rewrite, rewritef
from .simp import coll, ent, exists_all, identity_of, skey, truth
from .terms import (
    _ATOM_IX, F, NONE, T, And, Node, Not, Or, Term, Xor, as_bool, atom, atom_term, b, contains, cube, is_const, ite, leaves, mk, restrict, show, simplify, subst_atoms,
    subterms, support,
)

EQ, UNK, DIFF = 0, 1, 2
NAMES = {EQ: "equal", UNK: "undecided", DIFF: "different"}

BADOPS = ("unk", "fold", "carry", "upd", "rec", "phi", "base", "slot", "self", "objref", "mutated", "pattern", "slicearg",
          "func", "baseref", "phiref", "without", "lastof", "last", "copyof", "partial", "pattr", "pitem", "obj", "replace")


# ------------------------------------------------------------------ canonical form of finished terms
def canon(t, memo):
    def f(x):
        return None

    return _canon(t, memo)


def _canon(t, memo):
    if isinstance(t, Node):
        if t is T or t is F:
            return t
        m = {a: _canon_atom(a, memo) for a in support(t)}
        return subst_atoms(t, m)
    if isinstance(t, tuple):
        return tuple(_canon(x, memo) for x in t)
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    args = tuple(_canon(a, memo) for a in t.args)
    r = rebuild(t, args)
    if r.op == "coll":
        r = canon_coll(r)
    elif r.op == "ite":
        r = canon_ite(none_leaves(r))
    elif r.op == "arith" and r.args[0] == "Add":
        r = canon_add(r)
    elif r.op == "first" and r.args[0]:
        g = simp.needless(r.args[1], r.args[0])
        if g is not r.args[1]:
            r = mk("first", r.args[0], g, *r.args[2:])
    elif r.op == "tup":
        # (f()[0], f()[1]) is the tuple f() returns
        a = r.args
        if len(a) > 1 and all(x.op == "item" and x.args[0] is a[0].args[0] and is_const(x.args[1]) and x.args[1].args[0] == i for i, x in enumerate(a)) \
                and a[0].args[0].op == "call" and str(a[0].args[0].args[0]).startswith("auditwheel."):
            r = a[0].args[0]
    memo[t] = r
    return r


def _canon_atom(a, memo):
    k = ("A", a)
    if k in memo:
        return memo[k]
    r = rewritef(atom(a), lambda x: _canon(x, memo), {})
    memo[k] = r
    return r


def none_leaves(t, g=T):
    """x where it is known to be None is None"""
    if t.op != "ite":
        if g is not T and not is_const(t):
            ix = _ATOM_IX.get(mk("isnone", t))
            if ix is not None and And(g, Not(atom(mk("isnone", t)))) is F:
                return NONE
        return t
    c, x, y = t.args
    p, q = none_leaves(x, And(g, c)), none_leaves(y, And(g, Not(c)))
    return t if p is x and q is y else ite(c, p, q)


def hoistable(ents):
    """conditions of entries that do not depend on what is iterated over"""
    out = set()
    for e in ents:
        if e.op == "ent" and e.args[1] is not T:
            L = set(e.args[0])
            out |= {a for a in support(e.args[1]) if not (L and contains(a, L))}
    return sorted(out, key=skey)


def needless_ent(e):
    if e.op not in ("ent", "acc") or not e.args[0] or e.args[1] is T:
        return e
    g = simp.needless(e.args[1], e.args[0])
    return e if g is e.args[1] else mk(e.op, e.args[0], g, *e.args[2:])


def addends(t):
    if t.op == "arith" and t.args[0] == "Add" and len(t.args) == 3:
        return addends(t.args[1]) + addends(t.args[2])
    return [t]


def as_entries(t):
    if t.op == "coll" and t.args[0] in ("list", "tuple", "gen", "iter"):
        return list(t.args[1])
    L = mk("elem", t, 0)
    return [ent((L,), T, L)]


def canon_add(t):
    """[..] + x is a list"""
    xs = addends(t)
    if any(x.op == "ite" for x in xs):
        for i, x in enumerate(xs):
            if x.op == "ite":
                c, p, q = x.args
                return canon_ite(ite(c, canon_add(add_all([*xs[:i], p, *xs[i + 1:]])), canon_add(add_all([*xs[:i], q, *xs[i + 1:]]))))
    if any(x.op == "coll" and x.args[0] == "list" for x in xs):
        return canon_coll(coll("list", [e for x in xs for e in as_entries(x)]))
    return t


def add_all(xs):
    r = xs[0]
    for x in xs[1:]:
        r = mk("arith", "Add", r, x)
    return r


def canon_ite(t):
    return t


def canon_coll(t):
    kind, ents = t.args
    ents = [e for e in ents if not (e.op in ("ent", "acc") and e.args[1] is F)]
    if kind in ("gen", "tuple", "iter"):
        kind = "list"
    if kind == "frozenset":
        kind = "set"
    if kind == "defaultdict":
        kind = "dict"
    ents = [needless_ent(e) for e in ents]
    if kind in ("set", "sorted", "sortdup"):
        out = {}
        ents = simp.split_ents(ents)
        for e in ents:
            if e.op == "ent":
                k = (e.args[0], e.args[2], e.args[3])
                out[k] = Or(out.get(k, F), e.args[1])
            else:
                out[e] = T
        ents = [ent(k[0], g, k[1], k[2]) if isinstance(k, tuple) else k for k, g in out.items()]
        ents.sort(key=skey)
    else:
        out = []
        for e in ents:
            if e.op not in ("ent", "acc"):
                out.append(e)
                continue
            for i in range(len(out) - 1, -1, -1):
                p = out[i]
                if p.op not in ("ent", "acc") or And(p.args[1], e.args[1]) is not F or e.args[0] and kind != "dict":
                    out.append(e)
                    break
                if p.op == e.op and p.args[0] == e.args[0] and p.args[3] is e.args[3] and (e.op == "ent" or p.args[2] is e.args[2]):
                    # exclusive in each pass of the loop: one entry with alternatives
                    g = Or(p.args[1], e.args[1])
                    out[i] = mk(e.op, p.args[0], g, ite(simplify(p.args[1], g), p.args[2], e.args[2]), p.args[3])
                    break
            else:
                out.append(e)
        ents = out
    if kind == "uniq" and all(e.op == "ent" for e in ents):
        # an element that is there already is not added again
        out = []
        for e in ents:
            dup = F
            for p in out:
                dup = Or(dup, exists_all(p.args[0], And(p.args[1], simp.eq(p.args[2], e.args[2]))))
            out.append(ent(e.args[0], simplify(e.args[1], Not(dup)) if dup is not F and dup is not T else e.args[1], e.args[2], e.args[3]))
        ents = out
    if len(ents) == 1 and kind != "dict":
        o = identity_of(ents[0])
        if o is not None:
            if kind == "list":
                return o
            return mk("as", kind, o)
    if kind == "list":
        for i, e in enumerate(ents):
            for L in e.args[0] if e.op in ("ent", "acc") else ():
                if L.op == "elem" and L.args[0].op == "ite" and L is e.args[0][0]:
                    # alternatives of what is listed
                    c, x, y = L.args[0].args
                    out = []
                    for d in (x, y):
                        M = mk("elem", d, *L.args[1:])
                        e2 = simp.replace_term(e, L, M)
                        more = [] if d.op == "coll" and not d.args[1] else [e2]
                        out.append(canon_coll(coll(kind, [*ents[:i], *more, *ents[i + 1:]])))
                    return canon_ite(ite(c, *out))
        h = hoistable(ents)
        if 0 < len(h) <= 5 and all(e.op == "ent" for e in ents):
            a = h[0]
            ix = _ATOM_IX[a]
            out = [canon_coll(coll(kind, [ent(e.args[0], restrict(e.args[1], ix, v), e.args[2], e.args[3]) for e in ents if restrict(e.args[1], ix, v) is not F]))
                   for v in (1, 0)]
            return canon_ite(ite(atom(a), *out))
        ids = [identity_of(e) for e in ents]
        if len(ids) > 1 and all(o is not None and o.op not in ("coll", "as") for o in ids):
            return add_all(ids)
    if len(ents) == 1 and kind == "dict" and ents[0].op == "ent":
        L, g, v, k = ents[0].args
        if len(L) == 1 and g is T and k is not None and k is L[0] and v.op == "val" and v.args[0] is L[0]:
            return L[0].args[0]
    return coll(kind, ents)


# ------------------------------------------------------------------ theory
def axioms(f):
    """conjunction of facts linking the atoms of the given formulas"""
    ats = support(f)
    r = T
    by = {}
    for a in ats:
        by.setdefault(a.op, []).append(a)

    def imp(p, q):
        return Or(Not(p), q)

    eqs = by.get("eq", [])
    const_of = {}
    for a in eqs:
        x, y = a.args
        if is_const(y):
            const_of.setdefault(x, []).append((y, a))
        if simp.is_enum_member(y):
            const_of.setdefault(x, []).append((y, a))
        elif simp.is_enum_member(x):
            const_of.setdefault(y, []).append((x, a))
    for x, l in const_of.items():
        for i, (c1, a1) in enumerate(l):
            for c2, a2 in l[i + 1:]:
                r = And(r, Not(And(atom(a1), atom(a2))))
    known = set(ats)

    def has(op, *args):
        t = mk(op, *args)
        return t if t in known else None

    for a in ats:
        A = atom(a)
        if a.op == "isnone":
            x = a.args[0]
            t = has("truthy", x)
            if t:
                r = And(r, Not(And(A, atom(t))))
            for c, ea in const_of.get(x, ()):
                r = And(r, Not(And(A, atom(ea))))
            for p in ats:
                if p.op in ("startswith", "endswith", "isinst") and p.args[0] is x:
                    r = And(r, Not(And(A, atom(p))))
                if p.op == "in" and p.args[1] is x:
                    r = And(r, Not(And(A, atom(p))))
        elif a.op == "truthy":
            x = a.args[0]
            for c, ea in const_of.get(x, ()):
                if is_const(c):
                    r = And(r, imp(atom(ea), A if c.args[0] else Not(A)))
            for p in ats:
                if p.op in ("in", "substr") and p.args[1] is x and p.op == "in":
                    r = And(r, imp(atom(p), A))
                if p.op == "exists" and p.args[0].op == "elem" and p.args[0].args[0] is x:
                    r = And(r, imp(atom(p), A))
        elif a.op in ("startswith", "endswith"):
            x, s = a.args
            if is_const(s) and isinstance(s.args[0], str):
                t = has("truthy", x)
                if t and s.args[0]:
                    r = And(r, imp(A, atom(t)))
                for p in ats:
                    if p is not a and p.op == a.op and p.args[0] is x and is_const(p.args[1]) and isinstance(p.args[1].args[0], str):
                        u, v = s.args[0], p.args[1].args[0]
                        if getattr(u, a.op)(v):
                            r = And(r, imp(A, atom(p)))
                        elif not getattr(v, a.op)(u):
                            r = And(r, Not(And(A, atom(p))))
                for c, ea in const_of.get(x, ()):
                    if is_const(c) and isinstance(c.args[0], str):
                        ok = getattr(c.args[0], a.op)(s.args[0])
                        r = And(r, imp(atom(ea), A if ok else Not(A)))
                for p in ats:
                    if p.op == "substr" and p.args[1] is x and is_const(p.args[0]) and p.args[0].args[0] in s.args[0]:
                        r = And(r, imp(A, atom(p)))
        elif a.op == "lt":
            x, y = a.args
            t = has("lt", y, x)
            for n, o, more in ((x, y, True), (y, x, False)):
                # a size above some number is not zero; a size of zero is below it
                if o.op == "len" and is_const(n) and type(n.args[0]) is int and n.args[0] >= (0 if more else 1):
                    tr = simp.truth(o.args[0])
                    if all(q in known for q in support(tr)):
                        r = And(r, imp(A, tr) if more else Or(tr, A))
            if t:
                r = And(r, Not(And(A, atom(t))))
            for e in eqs:
                if set(e.args) == {x, y}:
                    r = And(r, Not(And(A, atom(e))))
            for p in by.get("lt", ()):
                if p is a:
                    continue
                if p.args[0] is x and is_const(y) and is_const(p.args[1]):
                    try:
                        if y.args[0] <= p.args[1].args[0]:
                            r = And(r, imp(A, atom(p)))
                    except TypeError:
                        pass
            if is_const(y):
                for c, ea in const_of.get(x, ()):
                    try:
                        r = And(r, imp(atom(ea), A if c.args[0] < y.args[0] else Not(A)))
                    except TypeError:
                        pass
        elif a.op == "fs" and a.args[0] in ("isfile", "isdir", "islink"):
            t = has("fs", "exists", a.args[1])
            if t and a.args[0] != "islink":
                r = And(r, imp(A, atom(t)))
            if a.args[0] == "isfile":
                t = has("fs", "isdir", a.args[1])
                if t:
                    r = And(r, Not(And(A, atom(t))))
        elif a.op == "exists":
            for p in by.get("exists", ()):
                if p is not a and p.args[0] is a.args[0] and isinstance(p.args[1], Node) and isinstance(a.args[1], Node):
                    if And(a.args[1], Not(p.args[1])) is F:
                        r = And(r, imp(A, atom(p)))
            if a.args[0].op == "elem":
                t = has("truthy", a.args[0].args[0])
                if t:
                    r = And(r, imp(A, atom(t)))
        elif a.op == "raises":
            # raises(call, type): one call raises one exception
            for p in by.get("raises", ()):
                if p is not a and p.args[0] is a.args[0]:
                    if simp.SUBEXC(a.args[1], p.args[1]):
                        r = And(r, imp(A, atom(p)))
                    elif not simp.SUBEXC(p.args[1], a.args[1]):
                        r = And(r, Not(And(A, atom(p))))
        elif a.op == "isinst":
            # unrelated concrete classes have no common instances
            for p in by.get("isinst", ()):
                if p is not a and p.args[0] is a.args[0] and is_const(p.args[1]) and is_const(a.args[1]):
                    r = And(r, Not(And(A, atom(p)))) if simp.disjoint(p.args[1].args[0], a.args[1].args[0]) else r
    return r


# ------------------------------------------------------------------ comparer
class Diff:
    def __init__(self, verdict, code, spec, why):
        self.verdict, self.code, self.spec, self.why = verdict, code, spec, why

    def __repr__(self):
        return f"{NAMES[self.verdict]}: {self.why}: code={short(self.code)} contract={short(self.spec)}"


def short(x, n=220):
    s = show(x) if isinstance(x, (Term, Node, tuple)) else str(x)
    return s if len(s) <= n else s[: n - 1] + "…"


class Comparer:
    def __init__(self, vocab=frozenset()):
        self.vocab = vocab
        self.memo = {}
        self.depth = 0
        self.budget = 200_000

    # -- confidence
    def confident(self, t):
        return not self.doubts(t)

    def doubts(self, t):
        k = ("conf", t)
        r = self.memo.get(k)
        if r is None:
            r = []
            for x in subterms(t):
                if x.op in BADOPS:
                    r.append(x.op)
                elif x.op == "call":
                    f = x.args[0]
                    if not isinstance(f, str):
                        if f.op not in ("item", "param"):
                            r.append("call")
                    elif f not in self.vocab and f not in MODELLED:
                        r.append(f)
            self.memo[k] = r
        return r

    # -- main entry
    def cmp(self, c, s, care=T):
        """-> (verdict, [Diff])"""
        if c is s:
            return EQ, []
        if isinstance(c, Node) or isinstance(s, Node):
            if isinstance(c, Node) and isinstance(s, Node):
                return self.cmpf(c, s, care)
            return UNK, [Diff(UNK, c, s, "shape")]
        if isinstance(c, tuple) or isinstance(s, tuple):
            return self.cmpseq(c, s, care)
        if not isinstance(c, Term) or not isinstance(s, Term):
            if c == s:
                return EQ, []
            return DIFF, [Diff(DIFF, c, s, "value")]
        k = (c, s, care)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.budget -= 1
        self.depth += 1
        if self.budget < 0 or self.depth > 120:
            self.depth -= 1
            return UNK, [Diff(UNK, c, s, "budget")]
        self.memo[k] = (UNK, [Diff(UNK, c, s, "recursion")])
        r = self.cmp_(c, s, care)
        self.depth -= 1
        self.memo[k] = r
        return r

    def cmp_(self, c, s, care):
        bc, bs = as_bool(c), as_bool(s)
        if bc is not None and bs is not None:
            return self.cmpf(bc, bs, care)
        if c.op == "ite" or s.op == "ite":
            return self.cmpite(c, s, care)
        if c.op == s.op:
            o = c.op
            if o == "coll":
                return self.cmpcoll(c, s, care)
            if o == "ent" or o == "acc":
                return self.cmpent(c, s, care)
            if o == "const":
                return DIFF, [Diff(DIFF, c, s, "constant")]
            if o in ("exists", "first", "prior", "lastof", "last", "fold"):
                return self.cmpbinder(c, s, care)
            if o == "agg":
                if c.args[0] != s.args[0]:
                    return DIFF, [Diff(DIFF, c, s, "aggregate")]
                return self.combine([self.cmp_ents(c.args[1], s.args[1], care, ordered=False, c=c, s=s),
                                     self.cmp(c.args[2] if c.args[2] is not None else NONE, s.args[2] if s.args[2] is not None else NONE, care)])
            if o == "as" and c.args[0] != s.args[0]:
                v, d = self.cmp(c.args[1], s.args[1], care)
                kinds = {c.args[0], s.args[0]}
                if v == EQ and kinds <= {"sorted", "sortset"}:
                    return EQ, []
                if v == EQ:
                    return DIFF, [Diff(DIFF, c, s, "container kind")]
                return UNK, [Diff(UNK, c, s, "container")]
            if o == "call":
                return self.cmpcall(c, s, care)
            if o in ("concat", "join"):
                return self.cmpconcat(c, s, care)
            if o == "param" or o == "glob":
                return DIFF, [Diff(DIFF, c, s, "variable")]
            if o == "attr" and c.args[1] != s.args[1]:
                return self.leafdiff(c, s, "attribute")
            if len(c.args) == len(s.args):
                return self.cmpseq(c.args, s.args, care, whole=(c, s))
            return UNK, [Diff(UNK, c, s, "arity")]
        return self.leafdiff(c, s, "expression")

    def leafdiff(self, c, s, why):
        """different head symbols"""
        # as(kind, X) vs X
        if c.op in SMALL and s.op in SMALL and self.confident(c) and self.confident(s):
            return DIFF, [Diff(DIFF, c, s, why)]
        if (c.op == "as") != (s.op == "as"):
            x, y = (c.args[1], s) if c.op == "as" else (c, s.args[1])
            if (c if c.op == "as" else s).args[0] in ("sorted", "sortset", "rev", "sortedby", "set"):
                if self.cmp(x, y)[0] == EQ:
                    return DIFF, [Diff(DIFF, c, s, "ordering")]
        if self.confident(c) and self.confident(s) and (contains(c, s) or contains(s, c)):
            return DIFF, [Diff(DIFF, c, s, why)]
        return UNK, [Diff(UNK, c, s, why)]

    def combine(self, rs):
        """within one value: doubt dominates"""
        v = EQ
        ds = []
        for x, d in rs:
            ds += d
            if x == UNK:
                v = UNK
            elif x == DIFF and v == EQ:
                v = DIFF
        return v, ds

    def cmpseq(self, c, s, care, whole=None):
        if not (isinstance(c, tuple) and isinstance(s, tuple)):
            if c == s:
                return EQ, []
            return DIFF, [Diff(DIFF, c, s, "value")]
        if len(c) != len(s):
            w = whole or (c, s)
            return UNK, [Diff(UNK, *w, "length")]
        return self.combine([self.cmp(x, y, care) for x, y in zip(c, s)])

    def cmpcall(self, c, s, care):
        f, g = c.args[0], s.args[0]
        if f is not g and f != g:
            if isinstance(f, str) and isinstance(g, str):
                if self.known(f) and self.known(g):
                    return DIFF, [Diff(DIFF, c, s, "called function")]
                return UNK, [Diff(UNK, c, s, "called function")]
            return self.combine([self.cmp(f, g, care)])
        a, z = c.args[1:], s.args[1:]
        if len(a) == len(z):
            if isinstance(f, str) and f in SYMMETRIC:
                pass
            return self.combine([self.cmp(x, y, care) for x, y in zip(a, z)])
        if isinstance(f, str) and self.known(f) and self.confident(c) and self.confident(s):
            return DIFF, [Diff(DIFF, c, s, "arguments")]
        return UNK, [Diff(UNK, c, s, "arguments")]

    def known(self, f):
        return f in self.vocab or f in MODELLED

    def cmpconcat(self, c, s, care):
        x, y = list(c.args[0]), list(s.args[0])
        while x and y and self.cmp(x[0], y[0], care)[0] == EQ:
            x.pop(0), y.pop(0)
        while x and y and self.cmp(x[-1], y[-1], care)[0] == EQ:
            x.pop(), y.pop()
        if not x and not y:
            return EQ, []
        if len(x) == len(y):
            return self.combine([self.cmp(p, q, care) for p, q in zip(x, y)])
        if all(self.confident(p) for p in x + y) and all(p.op != "ite" for p in x + y):
            return DIFF, [Diff(DIFF, tuple(x), tuple(y), "text")]
        return UNK, [Diff(UNK, tuple(x), tuple(y), "text")]

    # -- alternatives
    def cmpite(self, c, s, care):
        lc, ls = leaves(c), leaves(s)
        if len(lc) * len(ls) > 400:
            if c.op == s.op:
                return self.cmpseq(c.args, s.args, care)
            return UNK, [Diff(UNK, c, s, "alternatives")]
        # align the atoms of the conditions first
        gc = [g for g, _ in lc]
        gs = [g for g, _ in ls]
        m, un_c, un_s = self.align(gc, gs, care)
        if m:
            gc = [subst_atoms(g, m) for g in gc]
        res = []
        allf = T
        for g in gc + gs:
            pass
        bad = []
        for g1, (_, x) in zip(gc, lc):
            for g2, (_, y) in zip(gs, ls):
                g = And(g1, g2, care)
                if g is F:
                    continue
                v, d = self.cmp(x, y, And(care, g1, g2))
                if v == EQ:
                    continue
                ax = axioms(g)
                if And(g, ax) is F:
                    continue
                bad.append((v, d, g, x, y))
        if not bad:
            return EQ, []
        if un_c and un_s:
            # conditions spelled differently
            v, ds = self.pair_unmatched(un_c, un_s, care)
            if v == DIFF:
                return DIFF, ds
            return UNK, ds
        for v, d, g, x, y in bad:
            if v == DIFF and not any(not self.confident(a) for a in un_c):
                continue
            return UNK, d
        return DIFF, [q for _, d, *_ in bad for q in d][:4] + [Diff(DIFF, c, s, "choice")]

    # -- conditions
    def align(self, gc, gs, care):
        """pair atoms occurring only in code with equal atoms occurring only in the contract"""
        ac, as_ = set(), set()
        for g in gc:
            ac |= set(support(g))
        for g in gs:
            as_ |= set(support(g))
        as_all = set(as_) | set(support(care))
        uc = sorted(ac - as_all, key=skey)
        us = sorted(as_ - ac, key=skey)
        m = {}
        for a in list(uc):
            for s in us:
                if s.op == a.op and self.cmp_atom(a, s, care)[0] == EQ:
                    m[a] = atom(s)
                    uc.remove(a)
                    us.remove(s)
                    break
        return m, uc, us

    def cmp_atom(self, a, s, care):
        if a is s:
            return EQ, []
        if a.op != s.op:
            return self.leafdiff(a, s, "condition")
        if a.op in ("exists", "prior"):
            return self.cmpbinder(a, s, care)
        if a.op in ("eq", "fs") and a.op == "eq":
            v1 = self.combine([self.cmp(x, y, care) for x, y in zip(a.args, s.args)])
            if v1[0] == EQ:
                return v1
            v2 = self.combine([self.cmp(x, y, care) for x, y in zip(a.args, reversed(s.args))])
            return v2 if v2[0] == EQ else v1
        if a.op == "fs" and a.args[0] != s.args[0]:
            v = self.cmpseq(a.args[1:], s.args[1:], care)
            return (DIFF, [Diff(DIFF, a, s, "file test")]) if v[0] == EQ else (UNK, [Diff(UNK, a, s, "file test")])
        return self.cmpseq(a.args, s.args, care, whole=(a, s))

    def cmpf(self, c, s, care):
        x = And(Xor(c, s), care)
        if x is F:
            return EQ, []
        both = And(care, common_cube(c, s, care))
        m, uc, us = self.align([c], [s], both)
        if m:
            c = subst_atoms(c, m)
            x = And(Xor(c, s), care)
            if x is F:
                return EQ, []
        x = And(x, axioms(x), axioms(And(x, care)))
        if x is F:
            return EQ, []
        # drop atoms the difference does not depend on
        dep = set(support(x))
        uc = [a for a in uc if a in dep]
        us = [a for a in us if a in dep]
        if uc and us:
            return self.pair_unmatched(uc, us, care)
        if uc:
            for a in uc:
                if not self.confident(a):
                    return UNK, [Diff(UNK, a, s, "extra condition")]
            return DIFF, [Diff(DIFF, b(c), b(s), "extra condition " + short(uc[0], 120))]
        if us:
            for a in us:
                if not self.confident(a):
                    return DIFF, [Diff(DIFF, b(c), b(s), "missing condition (?) " + short(a, 160))]
            return DIFF, [Diff(DIFF, b(c), b(s), "missing condition " + short(us[0], 160))]
        return DIFF, [Diff(DIFF, b(c), b(s), "condition")]

    def pair_unmatched(self, uc, us, care):
        """every unmatched code atom must be a near miss of a contract atom"""
        rest = list(us)
        ds = []
        worst = EQ
        for a in uc:
            best = None
            for q in rest:
                v, d = self.cmp_atom(a, q, care)
                if v == DIFF and (best is None or best[0] != DIFF):
                    best = (v, d, q)
                elif best is None:
                    best = (v, d, q)
            if best is None:
                # more conditions than in the contract
                if not self.confident(a):
                    return UNK, [Diff(UNK, a, NONE, "condition")]
                return UNK, [Diff(UNK, a, NONE, "condition")]
            if best[0] != DIFF:
                return UNK, best[1]
            worst = DIFF
            ds += best[1]
            rest.remove(best[2])
        if rest:
            return UNK, [Diff(UNK, NONE, rest[0], "condition")]
        return worst, ds

    # -- binders
    def unify_loops(self, Lc, Ls, care):
        """-> substitution code loop var -> contract loop var, or None"""
        if len(Lc) != len(Ls):
            return None, [Diff(UNK, Lc, Ls, "loops")], UNK
        m = {}
        worst = EQ
        ds = []
        for x, y in zip(Lc, Ls):
            if m:
                x2 = rewrite(x, lambda t: m.get(t), {})
            else:
                x2 = x
            if x2 is y:
                if x is not y:
                    m[x] = y
                continue
            if x2.op != y.op:
                return None, [Diff(UNK, x, y, "loop")], UNK
            if x2.op == "elem":
                v, d = self.cmp(x2.args[0], y.args[0], care)
                if v != EQ:
                    ds += d
                    worst = max(worst, v) if UNK not in (worst, v) else UNK
                m[x] = y
                if x2 is not x:
                    m[x2] = y
            elif x2.op == "witer":
                m[x] = y
            else:
                return None, [Diff(UNK, x, y, "loop")], UNK
        return m, ds, worst

    def sub(self, t, m):
        if not m:
            return t
        f = lambda x: m.get(x)  # noqa: E731
        if isinstance(t, Node):
            return rewritef(t, f, {})
        return rewrite(t, f, {})

    def cmpbinder(self, c, s, care):
        if c.op == "exists":
            Lc, Ls = (c.args[0],), (s.args[0],)
        else:
            Lc, Ls = c.args[0], s.args[0]
        m, ds, w = self.unify_loops(Lc, Ls, care)
        if m is None:
            return UNK, ds
        rest_c = tuple(self.sub(x, m) for x in c.args[1:])
        rest_s = s.args[1:]
        if c.op == "first":
            g = self.cmp(rest_c[0], rest_s[0], care)
            v = self.cmp(rest_c[1], rest_s[1], And(care, rest_s[0]))
            d = self.cmp(rest_c[2], rest_s[2], care)
            return self.combine([(w, ds), g, v, d])
        return self.combine([(w, ds), *[self.cmp(x, y, care) for x, y in zip(rest_c, rest_s)]])

    def cmpent(self, c, s, care):
        if c.op != s.op:
            return UNK, [Diff(UNK, c, s, "entry kind")]
        if c.op not in ("ent", "acc"):
            return self.cmp(c, s, care)
        m, ds, w = self.unify_loops(c.args[0], s.args[0], care)
        if m is None:
            return UNK, ds
        g1, v1, k1 = (self.sub(x, m) if x is not None else None for x in c.args[1:])
        g2, v2, k2 = s.args[1:]
        rs = [(w, ds), self.cmp(g1, g2, care)]
        care2 = And(care, Or(g1, g2))
        rs.append(self.cmp(v1, v2, care2))
        if (k1 is None) != (k2 is None):
            rs.append((UNK, [Diff(UNK, c, s, "key")]))
        elif k1 is not None:
            rs.append(self.cmp(k1, k2, care2))
        return self.combine(rs)

    def cmpcoll(self, c, s, care):
        kc, ks = c.args[0], s.args[0]
        if kc != ks:
            if {kc, ks} <= {"list", "uniq", "sorted", "sortdup", "set"}:
                v, d = self.cmp_ents(c.args[1], s.args[1], care, False, c, s)
                if v == EQ:
                    if {kc, ks} in ({"uniq", "set"}, {"list", "gen"}) or len(c.args[1]) == 0:
                        return EQ, []
                    return DIFF, [Diff(DIFF, c, s, f"container {kc} for {ks}")]
            return UNK, [Diff(UNK, c, s, "container")]
        if kc in ("dict", "defaultdict"):
            return self.cmp_ents(effective(c.args[1], care), effective(s.args[1], care), care, False, c, s)
        return self.cmp_ents(c.args[1], s.args[1], care, kc not in ("set", "sorted", "sortdup", "dict"), c, s)

    def cmp_ents(self, ec, es, care, ordered, c=None, s=None):
        ec = [e for e in ec if not (e.op in ("ent", "acc") and And(e.args[1], care) is F)]
        es = [e for e in es if not (e.op in ("ent", "acc") and And(e.args[1], care) is F)]
        if ordered:
            while ec and es and self.cmpent(ec[0], es[0], care)[0] == EQ:
                ec.pop(0), es.pop(0)
            while ec and es and self.cmpent(ec[-1], es[-1], care)[0] == EQ:
                ec.pop(), es.pop()
        else:
            for x in list(ec):
                for y in es:
                    if self.cmpent(x, y, care)[0] == EQ:
                        ec.remove(x)
                        es.remove(y)
                        break
        if not ec and not es:
            return EQ, []
        if ordered and len(ec) == len(es) > 1:
            # permuted?
            rem = list(range(len(es)))
            where = []
            for x in ec:
                for j in rem:
                    if self.cmpent(x, es[j], care)[0] == EQ:
                        rem.remove(j)
                        where.append(j)
                        break
            if not rem:
                for i in range(len(where)):
                    for j in range(i):
                        if where[j] > where[i] and not exclusive(es[where[i]], es[where[j]]):
                            return DIFF, [Diff(DIFF, c, s, "order of elements")]
                return EQ, []
        if not es:
            if all(self.confident(e) for e in ec):
                return DIFF, [Diff(DIFF, tuple(ec), (), "extra element")]
            return UNK, [Diff(UNK, tuple(ec), (), "extra element")]
        if not ec:
            return DIFF, [Diff(DIFF, (), tuple(es), "missing element")]
        if len(ec) != len(es):
            return UNK, [Diff(UNK, tuple(ec), tuple(es), "elements")]
        return self.combine([self.cmpent(x, y, care) for x, y in zip(ec, es)])


def effective(ents, care):
    """without the entries of a dict that a later one of the same key replaces"""
    out = list(ents)
    for i in range(len(ents) - 1, -1, -1):
        e = ents[i]
        if e.op == "ent" and not e.args[0] and any(
                z.op == "ent" and not z.args[0] and z.args[3] is e.args[3] and And(care, e.args[1], Not(z.args[1])) is F for z in ents[i + 1:]):
            del out[i]
    return tuple(out)


def common_cube(c, s, care):
    """literals both conditions imply"""
    l1, l2 = dict(cube(And(c, care))), dict(cube(And(s, care)))
    r = T
    for ix, v in l1.items():
        if l2.get(ix) == v:
            a = atom(atom_term(ix))
            r = And(r, a if v else Not(a))
    return r


def exclusive(a, z):
    """never both present: their order does not matter"""
    if not (a.op in ("ent", "acc") and z.op in ("ent", "acc")):
        return False
    return And(a.args[1], z.args[1]) is F


SMALL = {"const", "param", "glob", "attr", "resolve", "before", "after", "rbefore", "rafter", "linux", "highest", "lowest",
         "startswith", "endswith", "eq", "substr", "key", "val", "isnone_"}
SYMMETRIC = ()
MODELLED = {
    "resolve", "absolute", "relpath", "file", "env", "rootpart", "which",
    "method.lower", "method.upper", "method.strip", "method.lstrip", "method.rstrip", "method.replace", "method.split", "method.rsplit",
    "method.removeprefix", "method.removesuffix", "method.glob", "method.rglob", "method.iterdir", "method.stat", "method.lstat",
    "method.read_text", "method.read_bytes", "method.read", "os.listdir", "pathlib.Path.cwd", "re.match", "re.search", "re.fullmatch",
    "re.compile", "int", "float", "repr", "str", "method.title", "method.casefold", "method.capitalize", "method.readlink",
    "glob.glob", "method.encode", "method.decode", "hashlib.sha256", "hashlib.md5", "hashlib.sha1", "hashlib.sha512", "format", "range",
}
