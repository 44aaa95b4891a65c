"""Hash-consed terms and boolean formulas (ROBDDs over atom terms).

Values are `Term`s.  Conditions are BDD nodes (`Node`) over atoms, an atom being
a Term.  Formulas embed in terms as Term('b', node).
"""
from __future__ import annotations

_TERMS: dict = {}


class Term:
    __slots__ = ("op", "args", "id", "_vars", "_flags")

    def __init__(self, op, args, id_):
        self.op = op
        self.args = args
        self.id = id_
        self._vars = None
        self._flags = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def _key(a):
    if isinstance(a, (Term, Node)):
        return a
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    k = (op, tuple(_key(a) for a in args))
    t = _TERMS.get(k)
    if t is None:
        t = Term(op, args, len(_TERMS) + 1)
        _TERMS[k] = t
    return t


# ---------------------------------------------------------------- BDD
class Node:
    __slots__ = ("var", "lo", "hi", "id")

    def __init__(self, var, lo, hi, id_):
        self.var = var
        self.lo = lo
        self.hi = hi
        self.id = id_

    def __repr__(self):
        return showf(self)

    def __hash__(self):
        return self.id * 2654435761 & 0xFFFFFFFF

    def __eq__(self, other):
        return self is other


_BIG = 1 << 60
F = Node(_BIG, None, None, 0)
T = Node(_BIG, None, None, 1)
_NODES: dict = {}
_ITE: dict = {}
_ATOMS: list = []
_ATOM_IX: dict = {}


class Blowup(Exception):
    pass


LIMIT = 400_000


def _node(var, lo, hi):
    if lo is hi:
        return lo
    k = (var, lo.id, hi.id)
    n = _NODES.get(k)
    if n is None:
        if len(_NODES) > LIMIT:
            raise Blowup
        n = Node(var, lo, hi, len(_NODES) + 2)
        _NODES[k] = n
    return n


def atom(t: Term) -> Node:
    ix = _ATOM_IX.get(t)
    if ix is None:
        ix = len(_ATOMS)
        _ATOMS.append(t)
        _ATOM_IX[t] = ix
    return _node(ix, F, T)


def atom_term(ix) -> Term:
    return _ATOMS[ix]


def bite(f, g, h):
    if f is T:
        return g
    if f is F:
        return h
    if g is h:
        return g
    if g is T and h is F:
        return f
    k = (f.id, g.id, h.id)
    r = _ITE.get(k)
    if r is not None:
        return r
    v = min(f.var, g.var, h.var)

    def co(n, b):
        if n.var != v:
            return n
        return n.hi if b else n.lo

    r = _node(v, bite(co(f, 0), co(g, 0), co(h, 0)), bite(co(f, 1), co(g, 1), co(h, 1)))
    _ITE[k] = r
    return r


def And(*fs):
    r = T
    for f in fs:
        r = bite(r, f, F)
    return r


def Or(*fs):
    r = F
    for f in fs:
        r = bite(r, T, f)
    return r


def Not(f):
    return bite(f, F, T)


def Xor(a, b):
    return bite(a, Not(b), b)


def support(f) -> list[Term]:
    seen, out = set(), set()
    st = [f]
    while st:
        n = st.pop()
        if n is T or n is F or n.id in seen:
            continue
        seen.add(n.id)
        out.add(n.var)
        st += [n.lo, n.hi]
    return [_ATOMS[i] for i in sorted(out)]


def restrict(f, ix, val):
    """cofactor of f for atom index ix"""
    memo = {}

    def go(n):
        if n.var > ix:
            return n
        r = memo.get(n.id)
        if r is None:
            if n.var == ix:
                r = n.hi if val else n.lo
            else:
                r = _node(n.var, go(n.lo), go(n.hi))
            memo[n.id] = r
        return r

    return go(f)


def subst_atoms(f, m):
    """m: atom Term -> Node"""
    memo = {}

    def go(n):
        if n is T or n is F:
            return n
        r = memo.get(n.id)
        if r is None:
            a = _ATOMS[n.var]
            v = m.get(a)
            if v is None:
                v = atom(a)
            r = bite(v, go(n.hi), go(n.lo))
            memo[n.id] = r
        return r

    return go(f)


_CUBE: dict = {}


def cube(f):
    """literals implied by f: [(atom index, value)]"""
    r = _CUBE.get(f.id)
    if r is None:
        r = []
        if f is not F:
            for a in support(f):
                ix = _ATOM_IX[a]
                if restrict(f, ix, 0) is F:
                    r.append((ix, 1))
                elif restrict(f, ix, 1) is F:
                    r.append((ix, 0))
        _CUBE[f.id] = r
    return r


def cubef(f):
    r = T
    for ix, v in cube(f):
        a = atom(_ATOMS[ix])
        r = And(r, a if v else Not(a))
    return r


def given(f, g):
    """f with the literals implied by g substituted"""
    for ix, v in cube(g):
        f = restrict(f, ix, v)
    if f is T or f is F or And(g, Not(f)) is F:
        return T if f is not F else F
    h = simplify(f, g)
    if h is not f:
        sg = set(support(g))
        if not any(a in sg for a in support(h)):
            return h
    return f


def quant(f, pred):
    """existentially quantify atoms satisfying pred"""
    for a in support(f):
        if pred(a):
            ix = _ATOM_IX[a]
            f = Or(restrict(f, ix, 0), restrict(f, ix, 1))
    return f


def simplify(f, care):
    """f restricted to the care set (Coudert-Madre restrict)"""
    memo = {}

    def go(f, c):
        if c is T or f is T or f is F:
            return f
        if c is F:
            return F
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        v = min(f.var, c.var)
        cl = c.lo if c.var == v else c
        ch = c.hi if c.var == v else c
        if f.var != v:
            r = go(f, Or(cl, ch))
        elif cl is F:
            r = go(f.hi, ch)
        elif ch is F:
            r = go(f.lo, cl)
        else:
            r = _node(v, go(f.lo, cl), go(f.hi, ch))
        memo[k] = r
        return r

    key = (f, care)
    h = _SIMP.get(key)
    if h is None:
        h = go(f, care)
        # drop the variables the value does not need under the care set
        sup = support(h)
        if 1 < len(sup) <= 24:
            for a in reversed(sup):
                ix = _ATOM_IX[a]
                for v in (0, 1):
                    r = restrict(h, ix, v)
                    if r is not h and bite(bite(r, Not(f), f), care, F) is F:
                        h = r
                        break
        _SIMP[key] = h
    return h


_SIMP: dict = {}


# ---------------------------------------------------------------- basic constructors
def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const"


BOOLT = set()  # terms of boolean type
STRT = set()  # terms of type str


def b(node):
    """term for a formula"""
    if node is T:
        return TRUE
    if node is F:
        return FALSE
    if node.hi is T and node.lo is F:
        a = _ATOMS[node.var]
        if a.op == "truthy" and a.args[0] in BOOLT:
            return a.args[0]
    return mk("b", node)


def ite(c, x, y):
    """c: Node"""
    if c is T:
        return x
    if c is F:
        return y
    if x is y:
        return x
    bx, by = as_bool(x), as_bool(y)
    if bx is not None and by is not None:
        return b(bite(c, bx, by))
    if x.op == "ite":
        # collapse ite(c, ite(c, a, _), y)
        if x.args[0] is c:
            return ite(c, x.args[1], y)
        if x.args[2] is y:
            return ite(And(c, x.args[0]), x.args[1], y)
        if x.args[1] is y:
            return ite(And(c, Not(x.args[0])), x.args[2], y)
    if y.op == "ite":
        if y.args[0] is c:
            return ite(c, x, y.args[2])
        if y.args[1] is x:
            return ite(Or(c, y.args[0]), x, y.args[2])
        if y.args[2] is x:
            return ite(Or(c, Not(y.args[0])), x, y.args[1])
    # p if p.is_absolute() else p.absolute()
    if y.op == "call" and y.args[0] == "absolute" and y.args[1] is x and And(c, Not(atom(mk("fs", "isabs", x)))) is F:
        return y
    if x.op == "call" and x.args[0] == "absolute" and x.args[1] is y and And(Not(c), Not(atom(mk("fs", "isabs", y)))) is F:
        return x
    # the value itself: x if x is not None else None
    if y.op == "const" and c is Not(is_value(x, y)) or x.op == "const" and c is is_value(y, x):
        return x if y.op == "const" else y
    return mk("ite", c, x, y)


def is_value(x, k):
    """the condition that x is the constant"""
    if k.args[0] is None:
        return atom(mk("isnone", x))
    if isinstance(k.args[0], str):
        from .simp import eq
        return eq(x, k)
    return F


def as_bool(t):
    """Node if t is boolean-typed, else None"""
    if t.op == "b":
        return t.args[0]
    if t is TRUE:
        return T
    if t is FALSE:
        return F
    if t in BOOLT:
        return atom(mk("truthy", t))
    return None


def leaves(t, g=None):
    """[(guard, leaf)] of an ite tree"""
    g = T if g is None else g
    if t.op == "ite":
        c, x, y = t.args
        out = []
        g1, g0 = And(g, c), And(g, Not(c))
        if g1 is not F:
            out += leaves(x, g1)
        if g0 is not F:
            out += leaves(y, g0)
        return out
    return [(g, t)]


# ---------------------------------------------------------------- traversal
def subterms(x, seen=None):
    """all Terms reachable (through formulas too)"""
    if seen is None:
        seen = set()
    st = [x]
    out = []
    while st:
        y = st.pop()
        if isinstance(y, Term):
            if y in seen:
                continue
            seen.add(y)
            out.append(y)
            st.extend(y.args)
        elif isinstance(y, Node):
            st.extend(support(y))
        elif isinstance(y, tuple):
            st.extend(y)
    return out


def contains(x, ts):
    """does x contain any of the terms in set ts"""
    if isinstance(ts, Term):
        ts = {ts}
    st = [x]
    seen = set()
    while st:
        y = st.pop()
        if isinstance(y, Term):
            if y in ts:
                return True
            if y in seen:
                continue
            seen.add(y)
            st.extend(y.args)
        elif isinstance(y, Node):
            if y in seen:
                continue
            seen.add(y)
            st.extend(support(y))
        elif isinstance(y, tuple):
            st.extend(y)
    return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, Node):
        return showf(t, d)
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    if not isinstance(t, Term):
        return repr(t)
    if d > 9:
        return "…"
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o in ("param", "glob", "exc0"):
        return str(a[0])
    if o == "attr":
        return f"{show(a[0], d + 1)}.{a[1]}"
    if o == "b":
        return "{" + showf(a[0], d + 1) + "}"
    if o == "ite":
        return f"({show(a[1], d + 1)} if {showf(a[0], d + 1)} else {show(a[2], d + 1)})"
    if o == "call":
        f = a[0]
        return f"{f if isinstance(f, str) else show(f, d + 1)}({', '.join(show(x, d + 1) for x in a[1:])})"
    if o == "elem":
        return f"each{a[1] or ''}<{show(a[0], d + 1)}>"
    return f"{o}[{', '.join(show(x, d + 1) for x in a)}]"


def showf(f, d=0):
    if f is T:
        return "T"
    if f is F:
        return "F"
    if d > 9:
        return "…"
    # sum of paths (bounded)
    paths = []

    def go(n, p):
        if len(paths) > 6:
            return
        if n is F:
            return
        if n is T:
            paths.append(p)
            return
        s = show(_ATOMS[n.var], d + 1)
        go(n.hi, [*p, s])
        go(n.lo, [*p, "¬" + s])

    go(f, [])
    out = " | ".join(" & ".join(p) for p in paths[:6])
    if len(paths) > 6:
        out += " | …"
    return out
