"""Compares the summaries of the current tree with those of the contract tree."""
from __future__ import annotations

import ast
import contextlib
import signal
import threading
import time
from copy import copy
from pathlib import Path

from . import edit, model, simp
from .boundary import BOUNDARY
from .compare import BADOPS, DIFF, EQ, MODELLED, UNK, Comparer, Diff, axioms, canon, short
from .interp import Interp, has_op, registers, rewrite, rewritef
from .project import Project
from .simp import coll, ent, exists_all, skey
from .terms import F, NONE, Node, T, And, Not, Or, Term, atom, b, const, contains, is_const, ite, leaves, mk, show, simplify, subterms, support

HERE = Path(__file__).resolve().parent.parent


class TimeLimit(BaseException):
    pass


@contextlib.contextmanager
def deadline(seconds):
    """gives up after so much processor time (an obligation that takes longer is undecided)"""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def stop(*_):
        raise TimeLimit(f"{seconds} s")
    old = signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


class NEvent:
    """event in canonical form"""
    __slots__ = ("kind", "args", "guard", "loops", "seq", "file", "line", "func", "fin", "handler", "n", "caught")

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={short(v, 60)}' for k, v in self.args)})"


class Side:
    def __init__(self, root, boundary=(), *, loose=False):
        self.project = Project(root)
        self.ip = Interp(self.project, boundary)
        self.ip.closures = self.loose = loose
        self.enums = dict(simp.ENUMS)
        self.cache = {}
        self.errors = {}

    def sigs(self):
        out = {}
        for f in self.project.all_functions():
            pos, var, kwo, kw = f.params
            out[f.qual] = (tuple(pos), var is not None, tuple(kwo), kw is not None, f.is_property, f.is_static, f.is_generator)
        return out

    def activate(self):
        simp.ENUMS.clear()
        simp.ENUMS.update(self.enums)

    def summary(self, qual):
        if qual in self.cache:
            return self.cache[qual]
        self.activate()
        r = self.project.resolve(qual)
        if not r or r[0] != "func" or r[1].qual != qual:
            self.cache[qual] = None
            return None
        try:
            with deadline(60):
                s = self.ip.run(r[1])
                s = Canon(s, loose=self.loose)
                s.note_types(self.ip.ty)
        except (Exception, TimeLimit) as e:  # noqa: BLE001
            import traceback
            self.errors[qual] = f"{type(e).__name__}: {e} " + " ".join(
                f"{x.name}:{x.lineno}" for x in traceback.extract_tb(e.__traceback__)[-3:])
            s = None
        self.cache[qual] = s
        return s


IGNORED = ("with.enter", "with.exit", "setattr", "call.value")


def ours(v):
    """context managers of the project itself"""
    return any(x.op in ("call", "new") and isinstance(x.args[0], str) and x.args[0].startswith("auditwheel.") for x in subterms(v))


class Canon:
    """canonical summary"""

    def __init__(self, s, *, loose=False):
        memo = {}
        self.func = s.func
        self.unknown = s.unknown
        self.approx = s.approx
        self.orders = {}
        for d, how, site in s.orders:
            d = canon(d, memo)
            k = tuple((e.args[0], e.args[2], e.args[3]) if e.op in ("ent", "acc") else e for e in d.args[1]) if d.op == "coll" else d
            self.orders.setdefault((k, how), set()).add(site)
        self.ret = canon(s.ret, memo)
        self.ret_guard = canon(s.ret_guard, memo)
        self.fields = {}
        for (o, a), v in s.fields.items():
            self.fields[(canon(o, memo), a)] = canon(v, memo)
        self.raw = s.events
        evs = []
        for e in s.events:
            n = NEvent()
            n.kind, n.seq, n.file, n.line, n.func, n.fin, n.handler, n.n = e.kind, e.seq, e.file, e.line, e.func, e.fin, e.handler, 1
            n.caught = set(e.caught)
            n.loops = tuple(canon(x, memo) for x in e.loops)
            n.guard = simp.needless(canon(e.guard, memo), n.loops)
            n.args = tuple((k, canon(v, memo)) for k, v in e.args)
            if n.guard is not F:
                evs.append(n)
        if loose:
            self.drained(evs, s.raises, memo)
        self.all_events = evs
        self.events = merge_events([e for e in evs if e.kind not in IGNORED])
        self.quiet = [e for e in evs if e.kind == "setattr" or e.kind == "with.exit" and ours(e.args[0][1])]
        self.raises = {}
        self.raise_at = {}
        for r in s.raises:
            g = exists_all(tuple(canon(x, memo) for x in r.loops), canon(r.guard, memo))
            self.raises[r.exc] = Or(self.raises.get(r.exc, F), g)
            self.raise_at.setdefault(r.exc, []).append((r.file, r.line, r.func))
        if self.drop:
            self.apply(self.drop)

    drop = None

    def drained(self, evs, raises, memo):
        """taking out each element, with nothing else done meanwhile, is emptying"""
        for e in evs:
            k = dict(e.args)
            d = k.get("obj")
            if e.kind != "mut.pop" or not e.loops or set(k) != {"obj", "0"} or e.guard is not T:
                continue
            L = e.loops[-1]
            if L.op != "elem" or k["0"] is not L or L.args[0] is not d:
                continue
            n = len(e.loops)
            if any(x is not e and x.loops[:n] == e.loops for x in evs) or any(canon(r.loops[:n], memo) == e.loops for r in raises):
                continue
            t = mk("call", "method.pop", d, L)
            self.drop = {t: mk("val", L)}
            e.kind, e.loops, e.args = "mut.clear", e.loops[:-1], (("obj", d),)

    def note_types(self, ty):
        """declared types of the values the summary speaks of (parameter names recur in other functions)"""
        self.types = {}
        self.known = [set(r) for r in registers()]
        seen = set()
        for t in self.terms():
            subterms(t, seen)
        for t in seen:
            if t.op in ("param", "attr", "call", "elem", "val", "item", "glob"):
                x = ty(t)
                if x is not None:
                    self.types[t] = x

    def apply(self, m):
        """substitute terms and atoms"""
        memo = {}

        def f(x):
            return m.get(x)

        def g(n):
            return rewritef(n, f, memo)

        self.ret = rewrite(self.ret, f, memo)
        self.ret_guard = g(self.ret_guard)
        self.fields = {(rewrite(o, f, memo), a): rewrite(v, f, memo) for (o, a), v in self.fields.items()}
        for e in self.all_events:
            e.guard = g(e.guard)
            e.loops = tuple(rewrite(x, f, memo) for x in e.loops)
            e.args = tuple((k, rewrite(v, f, memo)) for k, v in e.args)
        self.raises = {k: g(v) for k, v in self.raises.items()}

    def terms(self):
        out = [self.ret, b(self.ret_guard), *self.fields.values()]
        for e in self.events:
            out += [v for _, v in e.args] + [b(e.guard), *e.loops]
        out += [b(g) for g in self.raises.values()]
        return out


def merge_events(evs):
    """same call in exclusive branches = one call with conditional arguments"""
    out = []
    for e in evs:
        for p in out:
            if p.kind == e.kind and p.loops == e.loops and [k for k, _ in p.args] == [k for k, _ in e.args] and And(p.guard, e.guard) is F:
                g = Or(p.guard, e.guard)
                c = simplify(p.guard, g)
                p.args = tuple((k, ite(c, v, w)) for (k, v), (_, w) in zip(p.args, e.args))
                p.guard = g
                p.n += 1
                break
        else:
            out.append(e)
    return out


def worst(rs):
    return max(v for v, _ in rs), [x for _, d in rs for x in d]


UNIFY = {"exists", "prior", "elem", "fold", "first", "agg", "call", "lastof", "coll"}


class Result:
    agree = False           # random interpretation found the two sides equal
    def __init__(self, func, aspect, verdict, diffs, file="", line=0):
        self.func, self.aspect, self.verdict, self.diffs, self.file, self.line = func, aspect, verdict, diffs, file, line


class Contract:
    def __init__(self, repo, spec=HERE / "spec", *, again=True, loose=False):
        self.repo, self.base, self.again = repo, spec, again
        self._fact = None
        self.code = Side(repo, loose=loose)
        self.spec = Side(spec, loose=loose)
        a, z = self.code.sigs(), self.spec.sigs()
        common = {q for q in BOUNDARY if a.get(q) is not None and a.get(q) == z.get(q)}
        self.dropped = sorted(set(BOUNDARY) - common)
        self.code.ip.boundary = self.spec.ip.boundary = common
        self.enums = {**self.spec.enums, **self.code.enums}
        self.vocab = None
        self.results = {}
        self.pending = {}
        self.spent = self.looked = 0.0

    def build_vocab(self):
        v = set(self.code.ip.boundary)
        for f in self.spec.project.all_functions():
            s = self.spec.summary(f.qual)
            if s is None:
                continue
            for t in s.terms():
                for x in subterms(t):
                    if x.op == "call" and isinstance(x.args[0], str):
                        v.add(x.args[0])
        self.vocab = frozenset(v)

    def compare(self, qual):
        if qual in self.results:
            return self.results[qual]
        if self.vocab is None:
            self.build_vocab()
        s = self.spec.summary(qual)
        c = self.code.summary(qual)
        simp.ENUMS.clear()
        simp.ENUMS.update(self.enums)
        if s is None:
            raise KeyError(f"no contract for {qual}: {self.spec.errors.get(qual)}")
        out = []
        if c is None:
            why = self.code.errors.get(qual)
            out.append(Result(qual, "*", UNK, [Diff(UNK, why or "function not present", "", "not analysed")]))
        else:
            for r, x, y in zip(registers(), c.known, s.known):
                r.clear()
                r |= x | y
            try:
                with deadline(90):
                    out = self.cmp_summary(qual, c, s)
            except (Exception, TimeLimit) as e:  # noqa: BLE001
                out.append(Result(qual, "*", UNK, [Diff(UNK, f"{type(e).__name__}: {e}"[:200], "", "comparison gave up")]))
            if qual in self.pending:
                try:
                    with deadline(90):
                        self.settle(qual, out)
                except (Exception, TimeLimit):  # noqa: BLE001, S110
                    pass
        if c is not None and s is not None and not any(r.aspect == "*" for r in out):
            out += self.cmp_orders(qual, c, s)
        if self.again and self.looked < 60 and any(r.verdict == DIFF for r in out):
            t0 = time.process_time()
            try:
                with deadline(40):
                    if self.loosely(qual) or self.inlined(qual, out):
                        for r in out:
                            r.verdict = EQ
            except (Exception, TimeLimit):  # noqa: BLE001, S110
                pass
            self.looked += time.process_time() - t0
        if self.again and c is not None:
            self.edited(qual, c, s, out)
        self.results[qual] = out
        return out

    def edited(self, qual, c, s, out):
        """what stays undecided in a function that is the contract's with one decision reversed is different"""
        todo = [r for r in out if r.verdict == UNK and not r.agree]
        if not todo or any(r.verdict == DIFF for r in out):
            return
        e = edit.one_edit(c.func.node, s.func.node)
        if e is None:
            return
        for r in todo:
            r.verdict, r.line, r.file = DIFF, e[1], r.file or str(c.func.module.path)
            r.diffs.insert(0, Diff(DIFF, e[0], "the contract", "the function is the contract's but for this"))

    def cmp_orders(self, qual, c, s):
        """what the contract goes through sorted, or each element once, is gone through like that"""
        out = []

        def n(x, *k):
            return len(x.orders.get(k, ()))
        for d, how in s.orders:
            if how is not None and n(s, d, how) > n(c, d, how) and n(c, d, None) > n(s, d, None):
                at = c.func
                out.append(Result(qual, f"order:each {how}", DIFF, [Diff(DIFF, short(d), how, f"gone through, but not {how}")],
                                  str(at.module.path), getattr(at.node, "lineno", 0)))
        return out

    def loosely(self, qual):
        """the function is the same as the contract when both are read with work lists as what can be
        reached and with taking every element out as emptying"""
        D = Contract(self.repo, self.base, again=False, loose=True)
        D.vocab = self.vocab
        rs = D.compare(qual)
        return bool(rs) and all(r.verdict == EQ for r in rs)

    def inlined(self, qual, out):
        """the function is the same as the contract once the functions it calls are part of it, on both sides"""
        kinds = set()
        for side in (self.code, self.spec):
            r = side.summary(qual)
            if r is not None:
                kinds |= {e.kind for e in r.events if e.kind in side.ip.boundary}
        # what a handler of this function is waiting for must stay a call
        for r in (self.code.summary(qual), self.spec.summary(qual)):
            for t in r.terms() if r is not None else ():
                for x in subterms(t):
                    if x.op == "raises" and x.args[0].op == "call":
                        kinds.discard(x.args[0].args[0])
        first = {k for k in kinds for r in out if r.verdict == DIFF and r.aspect.startswith("ev:" + k)}
        for less in (first or kinds,):
            if not less:
                continue
            D = Contract(self.repo, self.base, again=False)
            D.vocab = self.vocab
            D.code.ip.boundary = D.spec.ip.boundary = D.code.ip.boundary - less
            rs = D.compare(qual)
            seen = {r.aspect for r in rs}
            if rs and all(r.verdict == EQ for r in rs) and all(
                    r.aspect in seen or any(r.aspect.startswith("ev:" + k) for k in less) for r in out if r.verdict == DIFF):
                return True
        return False

    def unify(self, K, c, s):
        """replace terms of the code summary that are provably equal to a contract term by that term"""
        have = set()
        for t in s.terms():
            subterms(t, have)
        memo_size = {}

        def size(t):
            r = memo_size.get(t)
            if r is None:
                r = memo_size[t] = len(subterms(t))
            return r

        tried = set()
        for _ in range(6):
            seen = set()
            for t in c.terms():
                subterms(t, seen)
            mine = [t for t in seen - have if t.op in UNIFY and t not in tried]
            if not mine:
                return
            theirs = [t for t in have - seen if t.op in UNIFY]
            m = {}
            n = 0
            for t in sorted(mine, key=lambda t: (size(t), skey(t)))[:400]:
                tried.add(t)
                for q in theirs:
                    if q.op != t.op or t.op == "call" and t.args[0] is not q.args[0] and t.args[0] != q.args[0]:
                        continue
                    n += 1
                    if n > 4000:
                        break
                    if (K.cmp_atom(t, q, T) if t.op in ("exists", "prior") else K.cmp(t, q, T))[0] == EQ:
                        m[t] = q
                        break
            if not m:
                return
            c.apply(m)

    def factories(self):
        """{attribute: class} of the dictionaries of objects that make missing entries in the contract and not in the code"""
        if self._fact is None:
            self._fact = {}
            for cl in (x for m in self.spec.project.modules.values() for x in m.classes.values()):
                for n in ast.walk(cl.methods["__init__"].node) if "__init__" in cl.methods else ():
                    t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
                    if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).endswith("defaultdict") and len(n.value.args) == 1:
                        q = self.spec.project.name_to_qual(ast.unparse(n.value.args[0]), cl.module)
                        if q:
                            self._fact[cl.qual, t.attr] = q
        return self._fact

    def fresh_default(self, cls, v):
        r = self.spec.project.resolve(cls)
        if v.op != "new" or v.args[0] != cls or not r or r[0] != "class":
            return False
        for n, x in v.args[1]:
            d = r[1].consts.get(n)
            if isinstance(d, ast.Call) and ast.unparse(d) in ("dataclasses.field(default_factory=list)", "field(default_factory=list)"):
                if x is not coll("list", []):
                    return False
            elif isinstance(d, ast.Constant):
                if x is not (b(T) if d.value is True else b(F) if d.value is False else const(d.value)):
                    return False
            else:
                return False
        return True

    def drop_defaults(self, c):
        """`if k not in d: d[k] = C()` says what a dictionary with C as its default does by itself"""
        for e in c.events:
            if e.kind != "setitem":
                continue
            d = dict(e.args)
            o = d["obj"]
            if o.op != "attr":
                continue
            cls = next((v for (q, a), v in self.factories().items() if a == o.args[1] and ("self:" + q == show(o.args[0]))), None)
            if cls and self.fresh_default(cls, d["value"]) and And(e.guard, atom(mk("in", d["key"], o))) is F:
                new = [x for x in c.events if x.kind == "new:" + cls and And(e.guard, Not(x.guard)) is F and x.loops == e.loops]
                c.events = [x for x in c.events if x is not e and x not in new[:1]]
                return self.drop_defaults(c)
        return None

    def cmp_summary(self, qual, c, s):
        self.drop_defaults(c)
        K = Comparer(self.vocab)
        self.unify(K, c, s)
        K = Comparer(self.vocab)
        self.side = c
        f = c.func
        file, line = str(f.module.path), getattr(f.node, "lineno", 0)
        out = []
        # raises
        for exc in sorted(set(c.raises) | set(s.raises)):
            v, d = K.cmpf(c.raises.get(exc, F), s.raises.get(exc, F), T)
            at = c.raise_at.get(exc, [(file, line, qual)])[0]
            out.append(Result(qual, f"raise:{exc}", v, d, at[0], at[1]))
        # returned value
        care = And(c.ret_guard, s.ret_guard)
        if c.ret is s.ret:
            out.append(Result(qual, "ret", EQ, [], file, line))
        else:
            v, d = K.cmp(c.ret, s.ret, care)
            out.append(Result(qual, "ret", v, d, file, line))
        # fields
        out += self.cmp_fields(K, qual, c, s, file, line)
        # events
        res, pairs = self.cmp_events(K, qual, c, s, file, line)
        out += res
        out += self.cmp_order(K, qual, c, s, pairs)
        plain = {id(r) for r in out if r.verdict == DIFF and not any(d.why.startswith("missing condition (?)") for d in r.diffs)}
        self.escalate(K, c, s, out)
        if c.unknown:
            for r in out:
                if r.verdict == DIFF and any(has_unk(d) for d in r.diffs):
                    r.verdict = UNK
        self.pending[qual] = (c, s, plain)
        return out

    def settle(self, qual, out):
        """Random interpretation of what structure alone leaves open (see model.py): a difference that no
        assignment shows is not reported, an undecided one that assignments show is."""
        c, s, plain = self.pending.pop(qual)
        todo = [r for r in out if r.verdict != EQ and id(r) not in plain and not r.aspect.startswith("order:")]
        if not todo:
            return
        R = model.Refuter(c, s, (s.types.get, c.types.get), self.enums, seconds=25)
        t0 = time.process_time()
        for r in todo:
            if time.process_time() - t0 > 120 or self.spent > 360:
                break
            res, why = R.aspect(r.aspect, r.diffs)
            if res is None:
                continue
            n, told, void = res
            r.agree = n >= 20 and not told
            if any(d.why.startswith("missing condition (?)") for d in r.diffs):
                if r.verdict == DIFF and not told and n >= 300 and 2 * void < n:
                    r.verdict = UNK
                continue
            if r.verdict == DIFF and (not told and n >= 20 or told and not R.fair):
                r.verdict = UNK
                r.diffs.append(Diff(UNK, f"no difference in {n - told} interpretations", "", "form only"))
            elif r.verdict == UNK and told >= 3 and R.sure >= 3 and not c.unknown:
                r.verdict = DIFF
        self.spent += time.process_time() - t0

    def escalate(self, K, c, s, out):
        """An undecided result becomes a difference when nothing in the differing parts is of a form
        the normalisation does not decide (loop-carried state, unmodelled calls): both sides
        then are built from the same modelled operations, and are not the same expression of them."""
        ks, kc = set(), set()
        for r in out:
            if r.verdict != UNK:
                continue
            if not ks:
                for t in s.terms():
                    subterms(t, ks)
                for t in c.terms():
                    subterms(t, kc)
            why = next((w for d in r.diffs for w in self.unsettled(K, d, ks, kc)), None)
            if why is None and r.diffs:
                r.verdict = DIFF

    def unsettled(self, K, d, ks, kc):
        """reasons why the difference may be one of form only"""
        if d.why in ("budget", "recursion", "not analysed", "comparison gave up"):
            return [d.why]
        if d.verdict != UNK:
            return []
        out = []
        for side, known in ((d.code, ks), (d.spec, kc)):
            for t in fresh(side, known):
                if t.op in WEAK:
                    out.append(t.op)
                elif t.op == "call" and not (t.args[0] in self.vocab or t.args[0] in MODELLED or t.args[0] in FREE
                                             if isinstance(t.args[0], str) else t.args[0].op in ("item", "param")):
                    out.append(str(t.args[0]))
        return out

    def cmp_fields(self, K, qual, c, s, file, line):
        out = []
        cf, sf = dict(c.fields), dict(s.fields)
        for k in list(cf):
            if k in sf:
                v, d = K.cmp(cf[k], sf[k], And(c.ret_guard, s.ret_guard))
                out.append(Result(qual, f"field:{k[1]}", v, d, file, line))
                del cf[k], sf[k]
        for k in list(cf):
            for q in list(sf):
                if q[1] == k[1] and K.cmp(k[0], q[0])[0] == EQ:
                    v, d = K.cmp(cf[k], sf[q], And(c.ret_guard, s.ret_guard))
                    out.append(Result(qual, f"field:{k[1]}", v, d, file, line))
                    del cf[k], sf[q]
                    break
        for q in sf:
            same = [k for k in cf if k[1] == q[1]]
            if same:
                out.append(Result(qual, f"field:{q[1]}", UNK, [Diff(UNK, same[0][0], q[0], "object")], file, line))
            else:
                out.append(Result(qual, f"field:{q[1]}", DIFF, [Diff(DIFF, NONE, sf[q], f"attribute {q[1]} not set")], file, line))
        return out

    def cmp_events(self, K, qual, c, s, file, line):
        out, pairs = [], []
        by = {}

        def report(kind, r, x):
            for k, v, d in r[2]:
                a = f"ev:{kind}#{k}" if k else f"ev:{kind}"
                o = by.get(a)
                if o is None:
                    o = by[a] = Result(qual, a, v, list(d), x.file, x.line)
                    out.append(o)
                elif v:
                    if v > o.verdict:
                        o.file, o.line = x.file, x.line
                    o.verdict = max(o.verdict, v)
                    o.diffs += d
        kinds = []
        for e in s.events + c.events:
            if e.kind not in kinds:
                kinds.append(e.kind)
        left_c, left_s = [], []
        for kind in kinds:
            ec = [e for e in c.events if e.kind == kind]
            es = [e for e in s.events if e.kind == kind]
            for x in list(ec):
                for y in es:
                    r = self.cmp_event(K, x, y)
                    if r[0] == EQ:
                        ec.remove(x)
                        es.remove(y)
                        pairs.append((x, y))
                        report(kind, r, x)
                        break
            if ec and es and self.apart(K, ec, es, pairs, kind, report):
                ec, es = [], []
            # pair the rest by similarity
            while ec and es:
                best = None
                for x in ec:
                    for y in es:
                        r = self.cmp_event(K, x, y)
                        sc = (r[1], -abs(ec.index(x) - es.index(y)))
                        if best is None or sc > best[0]:
                            best = (sc, x, y, r)
                _, x, y, r = best
                ec.remove(x)
                es.remove(y)
                pairs.append((x, y))
                report(kind, r, x)
            for x in ec:
                left_c.append(x)
            for y in es:
                left_s.append(y)
        for y in left_s:
            # is there an unmatched code event that may be the same thing?
            alt = [x for x in left_c if related(x.kind, y.kind)]
            new = unmodelled(c, s, self.vocab)
            v = DIFF if not alt and not new else UNK
            d = [Diff(v, alt[0].kind if alt else (new[0] if new else "nothing"), str(y), "missing operation")]
            out.append(Result(qual, f"ev:{y.kind}", v, d, file, line))
        for x in left_c:
            alt = [y for y in left_s if related(x.kind, y.kind)]
            v = UNK
            if not alt and x.kind in STRONG or x.kind in self.code.ip.boundary:
                v = DIFF if not alt and all(K.confident(a) for _, a in x.args) and K.confident(b(x.guard)) else UNK
            out.append(Result(qual, f"ev:{x.kind}", v, [Diff(v, str(x), "nothing", "additional operation")], x.file, x.line))
        return out, pairs

    def apart(self, K, ec, es, pairs, kind, report):
        """the rest pairs off when calls whose arguments are choices are taken alternative by alternative"""
        def alternatives(e):
            for i, (n, a) in enumerate(e.args):
                if a.op == "ite":
                    for g, v in leaves(a):
                        g = And(e.guard, g)
                        if g is not F:
                            z = copy(e)
                            z.guard, z.args = g, (*e.args[:i], (n, v), *e.args[i + 1:])
                            yield from alternatives(z)
                    return
            yield e
        if len(ec) > 8 or len(es) > 8:
            return False
        A = [(x, z) for x in ec for z in alternatives(x)]
        B = [(y, z) for y in es for z in alternatives(y)]
        if len(A) == len(ec) and len(B) == len(es) or len(A) != len(B) or len(A) > 16:
            return False
        got = []
        for x, p in A:
            for i, (y, q) in enumerate(B):
                if self.cmp_event(K, p, q)[0] == EQ:
                    got.append((x, y, self.cmp_event(K, p, q)))
                    del B[i]
                    break
            else:
                return False
        for x, y, r in got:
            if not any(p is x for p, _ in pairs):
                pairs.append((x, y))
            report(kind, r, x)
        return True

    def cmp_event(self, K, x, y):
        """-> verdict, score, parts [(label, verdict, diffs)]; label "" = whether and how often it happens, else an argument"""
        m, ds, w = K.unify_loops(x.loops, y.loops, T)
        if m is None:
            return UNK, 0, [("", UNK, [Diff(UNK, x.loops, y.loops, "loops of " + x.kind)])]
        g = K.sub(x.guard, m)
        parts = [("", *worst([(w, ds), K.cmpf(g, y.guard, T)]))]
        care = Or(g, y.guard)
        names_x, names_y = [k for k, _ in x.args], [k for k, _ in y.args]
        if names_x != names_y and x.kind not in self.code.ip.boundary:
            dx, dy = dict(x.args), dict(y.args)
            if set(names_x) != set(names_y):
                v = DIFF if all(K.confident(a) for _, a in x.args) else UNK
                parts.append(("", v, [Diff(v, str(x), str(y), f"arguments of {x.kind}")]))
            for k in names_x:
                if k in dy:
                    parts.append((k, *K.cmp(K.sub(dx[k], m), dy[k], care)))
        elif len(x.args) != len(y.args):
            parts.append(("", UNK, [Diff(UNK, str(x), str(y), "arguments")]))
        else:
            for (_, p), (k, q) in zip(x.args, y.args):
                parts.append((k, *K.cmp(K.sub(p, m), q, care)))
            if x.kind.startswith("new:"):
                parts = self.relative(K, x, y, m, care, parts)
        score = sum(1 for _, v, _ in parts if v == EQ) * 10 // max(1, len(parts))
        if y.fin and not x.fin and all(v == EQ for _, v, _ in parts):
            v = UNK if x.handler or any(z.handler and z.kind == x.kind for z in self.side.all_events) else DIFF
            parts.append(("", v, [Diff(v, f"{x.kind} only when nothing was raised", f"{y.kind} on every exit (finally)", "cleanup")]))
        extra = sorted(t for t in x.caught - y.caught if self.may_throw(x.kind, t))
        if extra and not any(t in y.caught for t in ("*", "BaseException", "Exception")):
            parts.append(("", DIFF, [Diff(DIFF, f"{', '.join(extra)} from {x.kind} is swallowed", "the exception ends the command", "error handling")]))
        if w == UNK:
            parts = [(k, UNK if v else EQ, d) for k, v, d in parts]
        return max(v for _, v, _ in parts), score, parts

    def may_throw(self, kind, t):
        if t in ("*", "BaseException", "Exception"):
            return not kind.startswith(("print", "new:")) and kind != "mut.append"
        base = t.rpartition(".")[2]
        if kind.startswith("fs."):
            return base in OSERR
        if kind.startswith("proc."):
            return base in OSERR or base in ("CalledProcessError", "SubprocessError", "TimeoutExpired")
        if kind in self.spec.ip.boundary:
            return base in OSERR or base in ("CalledProcessError", "SubprocessError") or base in self.throws(kind)
        return False

    def throws(self, qual, seen=None):
        """names of the exceptions a project function raises itself"""
        s = self.spec.summary(qual)
        if s is None:
            return set()
        out = {e.rpartition(".")[2] for e in s.raises}
        for e in list(out):
            out |= {"ValueError"} if e in ("UnicodeDecodeError",) else set()
        if any(e.endswith(("Error",)) for e in out):
            for c, b_ in (("InvalidLibcError", "AuditwheelError"), ("WheelToolsError", "AuditwheelError"), ("NonPlatformWheelError", "AuditwheelError")):
                if c in out:
                    out.add(b_)
        return out

    def relative(self, K, x, y, m, care, parts):
        """An argument that is the same function of the other arguments on both sides is not
        itself different when one of those is: the difference is reported there."""
        bad = {k for k, v, _ in parts if k and v}
        if not bad:
            return parts
        xs, ys = {k: K.sub(v, m) for k, v in x.args}, dict(y.args)
        out = []
        for k, v, d in parts:
            if k and v:
                mx, my = {}, {}
                for q in ys:
                    if q != k and q in xs and q in bad and len(subterms(xs[q])) > 3 and len(subterms(ys[q])) > 3 \
                            and contains(xs[k], xs[q]) and contains(ys[k], ys[q]) and xs[q] is not xs[k] and ys[q] is not ys[k]:
                        mx[xs[q]] = my[ys[q]] = mk("param", "arg " + q)
                if mx:
                    v2, d2 = K.cmp(rewrite(xs[k], mx.get, {}), rewrite(ys[k], my.get, {}), care)
                    if v2 == EQ:
                        v, d = v2, d2
            out.append((k, v, d))
        return out

    def pair_quiet(self, K, c, s):
        """pairs attribute stores and context exits of both sides one to one"""
        out = []
        rest = list(s.quiet)
        for x in c.quiet:
            m = [y for y in rest if y.kind == x.kind and self.cmp_event(K, x, y)[0] == EQ]
            if len(m) == 1 or m and x.kind == "with.exit":
                rest.remove(m[0])
                out.append((x, m[0]))
        return out

    def cmp_order(self, K, qual, c, s, pairs):
        out = []
        pairs = pairs + self.pair_quiet(K, c, s)
        pos = {id(x): y for x, y in pairs}
        items = sorted((x for x in c.events + c.quiet if id(x) in pos), key=lambda x: x.seq)
        for i, x in enumerate(items):
            for y in items[i + 1:]:
                sx, sy = pos[id(x)], pos[id(y)]
                if sx.seq > sy.seq and x.seq < y.seq and conflict(sx, sy):
                    if And(sx.guard, sy.guard) is F and sx.loops == sy.loops:
                        continue
                    shared = 0
                    while shared < min(len(sx.loops), len(sy.loops)) and sx.loops[shared] is sy.loops[shared]:
                        shared += 1
                    shc = 0
                    while shc < min(len(x.loops), len(y.loops)) and x.loops[shc] is y.loops[shc]:
                        shc += 1
                    v = DIFF if shared == shc else UNK
                    out.append(Result(qual, f"order:{sx.kind}|{sy.kind}", v,
                                      [Diff(v, f"{x} before {y}", f"{sy} before {sx}", "order of operations")], y.file, y.line))
        return out


def fresh(x, known, out=None):
    """subterms not among the known ones (nor below them)"""
    out = set() if out is None else out
    if isinstance(x, tuple):
        for y in x:
            fresh(y, known, out)
    elif isinstance(x, Node):
        for a in support(x):
            fresh(a, known, out)
    elif isinstance(x, Term) and x not in known and x not in out:
        out.add(x)
        for a in x.args:
            fresh(a, known, out)
    return out


WEAK = set(BADOPS) | {"witer"}
# library functions that are what they are: another one in its place is another value
FREE = {"os.access", "os.umask", "base64.b64encode", "base64.standard_b64encode", "base64.b16encode", "base64.b32encode", "base64.urlsafe_b64encode"}
OSERR = {"OSError", "FileNotFoundError", "PermissionError", "FileExistsError", "IsADirectoryError", "NotADirectoryError", "IOError"}
STRONG = {"fs.unlink", "fs.rmtree", "fs.open_write", "fs.write", "fs.rename", "fs.move", "fs.chmod", "fs.copy", "fs.copy2", "fs.copyfile",
          "fs.mkdir", "fs.chdir", "proc.check", "proc.nocheck", "proc.shell", "fs.symlink", "fs.rmdir", "csv.row", "fs.utime", "print", "exit",
          "parser.error", "env.set", "env.pop", "env.setdefault", "env.update", "fs.truncate", "fs.touch", "global.set", "global.setitem"}

GROUPS = [
    {"fs.copy", "fs.copy2", "fs.copyfile", "fs.copyobj", "fs.write", "fs.open_write", "fs.copytree"},
    {"fs.rename", "fs.move"}, {"fs.unlink", "fs.rmtree", "fs.rmdir"}, {"proc.check", "proc.nocheck", "proc.shell"},
    {"csv.row", "fs.write"},
]
# pairs that are certainly not interchangeable
DISTINCT = [{"proc.check", "proc.nocheck"}, {"fs.copy", "fs.copy2"}, {"fs.copyfile", "fs.copy2"}, {"fs.unlink", "fs.rmtree"}]


def related(k1, k2):
    if k1 == k2:
        return True
    if {k1, k2} in DISTINCT:
        return False
    if k1.startswith("mut.") or k2.startswith("mut.") or k1.startswith("new:") and k2.startswith("new:"):
        return True
    return any(k1 in g and k2 in g for g in GROUPS)


def unmodelled(c, s, vocab):
    """names of library calls in the code summary nobody told us about"""
    out = []
    for t in c.terms():
        for x in subterms(t):
            if x.op == "call" and isinstance(x.args[0], str) and x.args[0] not in vocab and x.args[0] not in MODELLED:
                out.append(x.args[0])
            elif x.op in ("unk",):
                out.append(str(x.args[0]))
    return out


def has_unk(d):
    return any(isinstance(t, Term) and has_op(t, "unk") for t in (d.code,))


PURE_KINDS = {"auditwheel.policy.get_replace_platforms", "auditwheel.hashfile.hashfile", "auditwheel.wheeltools._dist_info_dir"}


def conflict(a, z):
    """may the two operations not be swapped"""
    if a.kind == z.kind == "print" or {a.kind, z.kind} <= {"print", "exit"}:
        return True
    if "setattr" in (a.kind, z.kind):
        x, y = (a, z) if a.kind == "setattr" else (z, a)
        o = x.args[0][1]
        if y.kind == "with.exit":
            return contains(y.args[0][1], o)
        return y.kind in READS.get(x.args[1][1].args[0], ()) and any(contains(v, o) for _, v in y.args)
    if "with.exit" in (a.kind, z.kind):
        x, y = (a, z) if a.kind == "with.exit" else (z, a)
        return y.kind not in ("with.exit", "fs.require") and cls(y.kind) in ("big", "fs")
    fa, fz = FIELD.get(a.kind.rpartition(".")[2]), FIELD.get(z.kind.rpartition(".")[2])
    if fa and fz and fa != fz:
        return False
    ka, kz = cls(a.kind), cls(z.kind)
    if "pure" in (ka, kz) or "other" in (ka, kz):
        return False
    if "big" in (ka, kz):
        return True
    # same resource
    ra, rz = {v for _, v in a.args}, {v for _, v in z.args}
    ra = {x for x in ra if not is_const(x)}
    rz = {x for x in rz if not is_const(x)}
    for x in ra:
        for y in rz:
            if x is y or contains(x, y) or contains(y, x):
                return True
    return False


# attribute -> operations that look at it
READS = {"date_time": ("mut.writestr",), "compress_type": ("mut.writestr",), "out_wheel": ("auditwheel.wheeltools.rewrite_record",)}
BIG = {"repair_wheel", "strip_symbols", "apply_updates", "add_platforms", "rewrite_record", "zip2dir", "dir2zip", "tarbz2todir",
       "create_sbom_for_wheel", "copylib", "analyze_wheel_abi", "InWheelCtx", "_fixup_elf_trees"}
PATCH = {"replace_needed", "remove_needed", "set_soname", "set_rpath", "clear_rpath", "update_elf_path", "append_rpath_within_wheel", "get_rpath"}

# the part of the dynamic section an operation of the patcher is about
FIELD = {"replace_needed": "needed", "remove_needed": "needed", "set_soname": "soname", "set_rpath": "rpath", "clear_rpath": "rpath", "get_rpath": "rpath",
         "append_rpath_within_wheel": "rpath"}


def cls(kind):
    if kind in ("fs.chdir",):
        return "big"
    if kind.startswith(("fs.", "proc.", "csv.")):
        return "fs"
    last = kind.rpartition(".")[2]
    if kind.startswith("new:"):
        return "pure"
    if last in BIG:
        return "big"
    if last in PATCH:
        return "fs"
    return "other"
