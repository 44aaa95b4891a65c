"""Models of builtins and library functions used by the interpreter."""
from __future__ import annotations

import ast
import string

from . import simp
from .simp import agg, coll, concat, ent, eq, exists_all, getattr_, getitem, in_, isnone, join_path, le, lt, skey, truth, with_kind
from .terms import (
    F, FALSE, NONE, T, TRUE, _ATOM_IX, And, Node, Not, Or, Term, as_bool, atom, b, const, contains, is_const, ite, leaves, mk, restrict, support,
)
from .typing_ import strip_opt

IDENT = {"pathlib.PurePath", "pathlib.PurePosixPath", "os.fspath", "os.fsdecode", "os.path.expanduser_", "typing.cast_"}
PURE_PREDS = {"exists": "exists", "is_file": "isfile", "is_dir": "isdir", "is_symlink": "islink", "is_absolute": "isabs"}
OSPATH_PREDS = {"os.path.exists": "exists", "os.path.isfile": "isfile", "os.path.isdir": "isdir", "os.path.islink": "islink",
                "os.path.isabs": "isabs", "os.path.lexists": "lexists"}
HASHES = {"hashlib." + x for x in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s")}
FS_METHODS = {  # Path methods with effects -> (event, parameter names)
    "unlink": ("fs.unlink", ()), "rmdir": ("fs.rmdir", ()), "chmod": ("fs.chmod", ("mode",)),
    "touch": ("fs.touch", ()), "symlink_to": ("fs.symlink", ("target",)), "hardlink_to": ("fs.link", ("target",)),
    "lchmod": ("fs.chmod", ("mode",)),
}
FS_FUNCS = {
    "os.unlink": ("fs.unlink", ("path",)), "os.remove": ("fs.unlink", ("path",)), "os.rmdir": ("fs.rmdir", ("path",)),
    "os.chmod": ("fs.chmod", ("path", "mode")), "os.chdir": ("fs.chdir", ("path",)),
    "os.symlink": ("fs.symlink", ("target", "path")), "os.link": ("fs.link", ("target", "path")),
    "os.utime": ("fs.utime", ("path", "times")), "os.truncate": ("fs.truncate", ("path", "length")),
    "os.chown": ("fs.chown", ("path", "uid", "gid")), "os.mkfifo": ("fs.mkfifo", ("path",)), "os.mknod": ("fs.mknod", ("path",)),
    "shutil.rmtree": ("fs.rmtree", ("path",)), "os.removedirs": ("fs.rmtree", ("path",)),
    "shutil.copy": ("fs.copy", ("src", "dst")), "shutil.copyfile": ("fs.copyfile", ("src", "dst")),
    "shutil.copy2": ("fs.copy2", ("src", "dst")), "shutil.copytree": ("fs.copytree", ("src", "dst")),
    "shutil.copymode": ("fs.copymode", ("src", "dst")), "shutil.copystat": ("fs.copystat", ("src", "dst")),
    "os.rename": ("fs.rename", ("src", "dst")), "os.replace": ("fs.rename", ("src", "dst")), "shutil.move": ("fs.move", ("src", "dst")),
    "os.renames": ("fs.rename", ("src", "dst")), "shutil.unpack_archive": ("fs.unpack", ("src", "dst")),
    "shutil.make_archive": ("fs.makearchive", ("base", "format")), "os.umask": ("fs.umask", ("mask",)),
    "os.putenv": ("env.set", ("key", "value")),
}
PROC = {"check_call", "check_output", "run", "call", "Popen"}
SHELLS = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "os.execv", "os.execvp", "os.spawnv"}
FNERRS = {"FileNotFoundError"}


def posargs(args):
    return [(str(i), a) for i, a in enumerate(args)]


def kwt(ip, kwargs, st):
    return [mk("kw", k, ip.freeze(v, st)) for k, v in sorted(kwargs.items())]


def pure(ip, q, args, kwargs, st):
    return mk("call", q, *[ip.freeze(a, st) for a in args], *kwt(ip, kwargs, st))


def boolv(n):
    return b(n)


def pred(name, *xs):
    return b(atom(mk("fs", name, *xs)))


def named(params, args, kwargs, drop=()):
    out = {}
    for p, a in zip(params, args):
        out[p] = a
    for k, v in kwargs.items():
        out[k] = v
    return {k: v for k, v in out.items() if k not in drop}


def fsev(ip, kind, pairs, st, node):
    if kind == "fs.mkdir":
        d = dict(pairs)
        ok = truth(d["exist_ok"])
        if ok in (T, F):
            # mkdir(exist_ok=True) makes the directory unless it exists
            pairs = [(k, v) for k, v in pairs if k != "exist_ok"]
            if ok is T:
                there = as_bool(pred("exists", ip.freeze(d["path"], st)))
                skip = And(st.live, there)
                st.live = And(st.live, Not(there))
                ip.emit(kind, pairs, st, node, t := mk("call", kind, *[ip.freeze(v, st) for _, v in pairs]))
                ip.may_raise(t, st, node)
                st.live = Or(st.live, skip)
                return t
    t = mk("call", kind, *[ip.freeze(v, st) for _, v in pairs])
    ip.emit(kind, pairs, st, node, t)
    ip.may_raise(t, st, node)
    return t


# ------------------------------------------------------------------ open / files
def do_open(ip, path, args, kwargs, st, node):
    mode = args[0] if args else kwargs.get("mode", const("r"))
    kw = {k: v for k, v in kwargs.items() if k != "mode"}
    for n, v in zip(("buffering", "encoding", "errors", "newline"), args[1:]):
        kw[n] = v
    kw.pop("buffering", None)
    path = ip.freeze(path, st)
    m = mode.args[0] if is_const(mode) else "?"
    if isinstance(m, str):
        m2 = "".join(sorted(m.replace("t", "").replace("+", "") + ("+" if "+" in m and not set(m) & set("wax") else "")))
        mode = const(m2)
    else:
        m2 = "?"
    if isinstance(kw.get("encoding"), Term) and is_const(kw["encoding"]) and kw["encoding"].args[0] is None:
        kw.pop("encoding")
    t = mk("call", "file", path, mode, *kwt(ip, kw, st))
    if set(m2) & set("wax+?"):
        ip.emit("fs.open_write", [("path", path), ("mode", mode), *sorted(kw.items())], st, node, t)
    ip.may_raise(t, st, node)
    return t


def file_path(t):
    if t.op == "call" and t.args[0] == "file":
        return t.args[1]
    return None


def emit_write(ip, recv, data, st, node):
    p = file_path(recv)
    ip.emit("fs.write", [("file", p if p is not None else recv), ("data", data)], st, node)
    return NONE


# ------------------------------------------------------------------ iteration helpers
def mapped(ip, it, fn, st, node, kind="gen"):
    """[fn(v) for v in it] ; fn(v, state) -> (guard, value) or None"""
    o = ip.alloc(st, coll(kind, ()))
    live0 = st.live
    st.live = T
    box = []

    def bind(v, y):
        box.append(v)

    def body(y):
        v = box.pop()
        r = fn(v, y)
        if r is None:
            return
        g, x = r
        live = y.live
        y.live = And(live, g)
        if y.live is not F:
            ip.add_ent(o, ent((), y.live, x), y)
        y.live = live

    ip.comp_guard(st, live0, lambda: ip.loop_over(it, bind, body, st, node))
    return o


def first_of(ip, it, default, st):
    srcs = ip.sources(it, st)
    r = default
    for L, g, v in reversed(srcs):
        v = ip.freeze(v, st)
        g = ip.freezef(g, st)
        if not L:
            r = ite(g, v, r)
        else:
            L = tuple(ip.freeze(x, st) for x in L)
            r = simp.first(L, g, v, r)
    return r


def minmax(ip, op, args, kwargs, st, node):
    key = kwargs.get("key")
    default = kwargs.get("default")
    if len(args) == 1:
        srcs = ip.sources(args[0], st)
    else:
        srcs = [((), T, a) for a in args]
    ents = []
    for L, g, v in srcs:
        k = None
        if key is not None and key is not NONE:
            k = ip.freeze(ip.call(key, [v], {}, st, node), st)
            if k is v:
                k = None
        ents.append(ent(tuple(ip.freeze(x, st) for x in L), ip.freezef(g, st), ip.freeze(v, st), k))
    if not ents:
        return default if default is not None else mk("aggempty", op)
    t = agg(op, ents, ip.freeze(default, st) if default is not None else None)
    return t


def isinst(ip, x, c, st):
    x = ip.val(x, st)
    if c.op == "tup":
        r = F
        for y in c.args:
            r = Or(r, isinst(ip, x, y, st))
        return r
    if c.op == "arith" and c.args[0] == "BitOr":
        return Or(isinst(ip, x, c.args[1], st), isinst(ip, x, c.args[2], st))
    if c.op == "call" and c.args[0] == "type" and c.args[1] is NONE:
        return isnone(x)
    if x.op == "ite":
        from .terms import bite
        return bite(x.args[0], isinst(ip, x.args[1], c, st), isinst(ip, x.args[2], c, st))
    q = c.args[0] if c.op == "glob" else None
    if q is None:
        return atom(mk("isinst", ip.freeze(x, st), c))
    if q == "types.NoneType" or c is NONE:
        return isnone(x)
    if x.op == "excof":
        return atom(mk("raises", x.args[0], q))
    if x.op == "exc0":
        return T if ip.p.is_exc_subclass(x.args[0], q) else F
    if is_const(x):
        pt = {"str": str, "int": int, "bool": bool, "bytes": bytes, "float": float}.get(q)
        if pt:
            return T if isinstance(x.args[0], pt) else F
        return F
    if x.op in ("coll",):
        kinds = {"list": ("list", "uniq", "sorted", "sortdup"), "dict": ("dict", "defaultdict"), "set": ("set",), "tuple": ("tuple",), "frozenset": ("frozenset",)}
        if q in kinds:
            return T if x.args[0] in kinds[q] else F
    if x.op == "new":
        return T if x.args[0] == q else F
    ty_ = ip.ty(x)
    if ty_ and ty_[0] == "cls" and ty_[1] == q:
        return T
    return atom(mk("isinst", ip.freeze(x, st), const(q)))


def fmt(ip, s, args, kwargs, st):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(const(lit))
        if field is None:
            continue
        if spec or conv:
            return None
        if field == "":
            if auto >= len(args):
                return None
            v = args[auto]
            auto += 1
        elif field.isdigit():
            if int(field) >= len(args):
                return None
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            return None
        if v.op == "star":
            return None
        out.append(ip.strconv(v, st))
    return concat(out)


def joinstr(ip, sep, it, st):
    v = ip.val(it, st)
    v = ip.freeze(v, st)
    if v.op == "tup":
        out = []
        for i, x in enumerate(v.args):
            if i:
                out.append(sep)
            out.append(x)
        return concat(out)
    if v.op == "coll" and v.args[0] in ("list", "tuple", "gen", "uniq") and all(not e.args[0] and e.args[1] is T and e.op == "ent" for e in v.args[1]):
        out = []
        for i, e in enumerate(v.args[1]):
            if i:
                out.append(sep)
            out.append(e.args[2])
        return concat(out)
    if v.op == "as" and v.args[0] in ("list", "tuple", "iter", "gen"):
        v = v.args[1]
    elif v.op == "coll":
        v = norm_seq(v)
    return mk("joinstr", sep, v)


def norm_seq(v):
    if v.op == "coll" and v.args[0] in ("list", "tuple", "gen"):
        w = with_kind(v, "list")
        return w.args[1] if w.op == "as" and w.args[0] == "list" else w
    return v


# ------------------------------------------------------------------ functions
# names of the leading parameters of library functions: a keyword says the same as a position
SIGS = {
    "os.path.relpath": ("path", "start"), "os.path.commonpath": ("paths",), "os.path.realpath": ("filename",),
    "os.rename": ("src", "dst"), "os.replace": ("src", "dst"), "os.symlink": ("src", "dst"), "os.chmod": ("path", "mode"), "os.listdir": ("path",),
    "os.stat": ("path",), "os.makedirs": ("name", "mode", "exist_ok"), "os.walk": ("top", "topdown", "onerror", "followlinks"), "os.utime": ("path", "times"),
    "os.getenv": ("key", "default"), "os.unlink": ("path",), "os.remove": ("path",),
    "shutil.copy": ("src", "dst"), "shutil.copy2": ("src", "dst"), "shutil.copyfile": ("src", "dst"), "shutil.copymode": ("src", "dst"),
    "shutil.move": ("src", "dst"), "shutil.which": ("cmd", "mode", "path"), "shutil.rmtree": ("path", "ignore_errors"), "shutil.copyfileobj": ("fsrc", "fdst", "length"),
    "re.match": ("pattern", "string", "flags"), "re.search": ("pattern", "string", "flags"), "re.fullmatch": ("pattern", "string", "flags"),
    "re.compile": ("pattern", "flags"), "re.findall": ("pattern", "string", "flags"),
    "fnmatch.fnmatch": ("name", "pat"), "fnmatch.fnmatchcase": ("name", "pat"), "glob.glob": ("pathname",),
    "csv.reader": ("csvfile",), "csv.writer": ("csvfile",), "json.loads": ("s",), "json.load": ("fp",), "json.dumps": ("obj",), "json.dump": ("obj", "fp"),
    "datetime.datetime.fromtimestamp": ("timestamp", "tz"), "hashlib.sha256": ("string",), "base64.urlsafe_b64encode": ("s",),
    "zipfile.ZipInfo.from_file": ("filename", "arcname"), "zipfile.ZipFile": ("file", "mode", "compression"), "subprocess.check_call": ("args",),
    "subprocess.check_output": ("args",), "subprocess.run": ("args",), "subprocess.call": ("args",), "os.fspath": ("path",), "open": ("file", "mode"),
}
# of methods: only names no other class uses differently
MSIGS = {
    "with_name": ("name",), "with_suffix": ("suffix",), "removeprefix": ("prefix",), "removesuffix": ("suffix",), "writestr": ("zinfo_or_arcname", "data"),
    "symlink_to": ("target",), "samefile": ("other_path",), "write_text": ("data",), "write_bytes": ("data",), "chmod": ("mode",),
    "splitlines": ("keepends",), "total_seconds": (),
}


def positional(sig, args, kwargs):
    """leading parameters given by name, as positions"""
    args, kwargs = list(args), dict(kwargs)
    while len(args) < len(sig) and sig[len(args)] in kwargs:
        args.append(kwargs.pop(sig[len(args)]))
    return args, kwargs


def call_ext(ip, q, args, kwargs, st, node):
    if kwargs and q in SIGS and not any(isinstance(a, tuple) or a.op == "star" for a in args):
        args, kwargs = positional(SIGS[q], args, kwargs)
    A = args
    n = len(A)
    bare = q.rpartition(".")[2]

    def V(i):
        return ip.val(A[i], st)

    def Z(i):
        return ip.freeze(A[i], st)

    # ---- identity-like
    if q in ("pathlib.Path", "pathlib.PurePath", "pathlib.PurePosixPath"):
        if n == 0:
            return const(".")
        return join_path([Z(i) for i in range(n)]) if n > 1 else Z(0)
    if q in ("os.fspath", "os.fsdecode"):
        return A[0]
    if q == "typing.cast":
        return A[1]
    if q == "str":
        if n == 0:
            return const("")
        if n == 1 and not kwargs:
            x = ip.strconv(A[0], st)
            return x
    if q == "repr":
        return mk("call", "repr", Z(0))
    if q in ("int", "float"):
        if n == 1 and is_const(A[0]):
            try:
                return const((int if q == "int" else float)(A[0].args[0]))
            except (ValueError, TypeError):
                pass
        t = pure(ip, q, A, kwargs, st)
        ip.may_raise(t, st, node)
        return t
    if q == "bool":
        return b(ip.truth(A[0], st)) if n else FALSE
    if q == "type" and n == 1:
        return mk("call", "type", Z(0))
    if q == "print":
        ip.emit("print", [*posargs(A), *sorted(kwargs.items())], st, node)
        return NONE
    if q == "len":
        x = V(0)
        if is_const(x) and isinstance(x.args[0], (str, tuple, bytes)):
            return const(len(x.args[0]))
        if x.op == "tup":
            return const(len(x.args))
        if x.op == "coll" and x.args[0] in ("list", "tuple", "gen") and all(e.op == "ent" and not e.args[0] and e.args[1] is T for e in x.args[1]):
            return const(len(x.args[1]))
        y = ip.freeze(x, st)
        while y.op in ("as", "keys", "values", "items") and not (y.op == "as" and y.args[0] in simp.SETK):
            y = y.args[1] if y.op == "as" else y.args[0]
        return mk("len", y)
    if q in ("list", "tuple", "set", "frozenset", "iter", "dict", "sorted", "collections.OrderedDict", "collections.deque"):
        return container(ip, q, A, kwargs, st, node)
    if q == "collections.defaultdict":
        ents = ()
        if n > 1:
            ents = tuple(ip.dict_entries(A[1], st))
        return ip.alloc(st, coll("defaultdict", ents))
    if q in ("any", "all"):
        r = F
        for L, g, v in ip.sources(A[0], st):
            t = ip.truth(v, st)
            t = ip.freezef(t, st)
            L = tuple(ip.freeze(x, st) for x in L)
            g = ip.freezef(g, st)
            r = Or(r, exists_all(L, And(g, t if q == "any" else Not(t))))
        return b(r if q == "any" else Not(r))
    if q in ("min", "max"):
        return minmax(ip, q, A, kwargs, st, node)
    if q == "next":
        if n == 1:
            t = first_of(ip, A[0], mk("stopiter"), st)
            if ip.handlers and ip.handlers[-1] and ip.handlers[-1][0].frame is ip.stack[-1]:
                ip.may_raise(mk("call", "next", t), st, node)
            return t
        return first_of(ip, A[0], Z(1), st)
    if q == "enumerate":
        if n > 1 or kwargs:
            return mk("call", "enumerate", Z(0), *( [Z(1)] if n > 1 else list(kwargs.values())))
        return mk("enum", A[0])
    if q == "reversed":
        x = Z(0)
        return x.args[1] if x.op == "as" and x.args[0] == "rev" else mk("as", "rev", x)
    if q == "map" and n == 2:
        o = mapped(ip, A[1], lambda v, y: (T, ip.call(A[0], [v], {}, y, node)), st, node)
        return ip.val(o, st)
    if q in ("filter", "itertools.filterfalse") and n == 2:
        pos = q == "filter"

        def fil(v, y):
            t = ip.truth(v, y) if A[0] is NONE else ip.truth(ip.call(A[0], [v], {}, y, node), y)
            return (t if pos else Not(t), v)

        src = ip.val(A[1], st)
        once, before = src.op in ("as", "coll") and src.args[0] == "uniq", "uniq" in ip.approx
        o = mapped(ip, A[1], fil, st, node)
        c = st.vars[("c", o)]
        if once and c.op == "coll" and c.args[0] == "gen":
            # some of the elements of a sequence that has each once
            st.vars[("c", o)] = coll("uniq", c.args[1])
            if not before:
                ip.approx.discard("uniq")
        return ip.val(o, st)
    if q == "isinstance":
        return b(isinst(ip, A[0], A[1], st))
    if q == "issubclass":
        return b(atom(mk("issub", Z(0), Z(1))))
    if q == "callable":
        return b(atom(mk("callable", Z(0))))
    if q == "hasattr":
        return b(atom(mk("hasattr", Z(0), Z(1))))
    if q == "getattr" and is_const(A[1]) and isinstance(A[1].args[0], str):
        x = ip.attr(A[0], A[1].args[0], st, node)
        if n > 2:
            return ite(atom(mk("hasattr", Z(0), Z(1))), x, A[2])
        return x
    if q == "setattr" and n == 3:
        if is_const(A[1]):
            ip.set_attr(A[0], A[1].args[0], A[2], st, node)
        else:
            ip.emit("attr.store", [("obj", A[0]), ("attr", A[1]), ("value", A[2])], st, node)
        return NONE
    if q == "range":
        if all(is_const(a) and isinstance(a.args[0], int) for a in A) and n:
            r = range(*[a.args[0] for a in A])
            if len(r) <= 16:
                return const(tuple(r))
        return mk("call", "range", *[Z(i) for i in range(n)])
    if q == "zip":
        return mk("call", "zip", *[Z(i) for i in range(n)])
    if q == "id" or q == "hash":
        return mk("call", q, Z(0))
    if q == "open" or q == "io.open":
        return do_open(ip, A[0], A[1:], kwargs, st, node)
    if q in ("itertools.chain",):
        return ip.val(chain(ip, A, st), st)
    if q == "itertools.chain.from_iterable":
        ents = []
        x = V(0)
        for L, g, v in ip.sources(x, st):
            vv = ip.val(v, st)
            for L2, g2, v2 in ip.sources(vv, st):
                ents.append(ent(L + L2, And(g, g2), v2))
        return coll("gen", ents)
    if q == "itertools.product":
        if kwargs:
            return pure(ip, q, A, kwargs, st)
        ents = [((), T, ())]
        for a in A:
            nxt = []
            for L, g, vs in ents:
                for L2, g2, v in ip.sources(a, st):
                    nxt.append((L + L2, And(g, g2), (*vs, v)))
            ents = nxt
        return coll("gen", [ent(L, g, mk("tup", *vs)) for L, g, vs in ents])
    if q == "functools.partial":
        return mk("partial", A[0], tuple(A[1:]), tuple(sorted(kwargs.items())))
    if q == "functools.reduce":
        f, it = A[0], A[1]
        srcs = ip.sources(it, st)
        if all(not L and g is T for L, g, _ in srcs) and srcs:
            vals = [v for _, _, v in srcs]
            acc = A[2] if n > 2 else vals.pop(0)
            for v in vals:
                acc = ip.call(f, [acc, v], {}, st, node)
            return acc
        # accumulate through the loop summariser
        key = ("v", ip.stack[-1].id, f"<reduce{ip.fresh()}>")
        if n > 2:
            st.vars[key] = A[2]
            box = []

            def body(y):
                y.vars[key] = ip.call(f, [y.vars[key], box.pop()], {}, y, node)

            ip.loop_over(it, lambda v, y: box.append(v), body, st, node)
            return st.vars[key]
        return pure(ip, q, A, kwargs, st)
    if q in ("functools.cmp_to_key",):
        return A[0]
    if q in ("copy.deepcopy", "copy.copy"):
        return copyval(ip, A[0], st, deep=q.endswith("deepcopy"))
    if q in ("dataclasses.replace",):
        x = Z(0)
        if x.op == "new":
            d = dict(x.args[1])
            d.update({k: ip.freeze(v, st) for k, v in kwargs.items()})
            return mk("new", x.args[0], tuple(d.items()))
        t = mk("replace", x, tuple((k, ip.freeze(v, st)) for k, v in sorted(kwargs.items())))
        ty_ = ip.ty(x)
        if ty_:
            ip.set_type(t, ty_)
        return t
    if q == "dataclasses.asdict":
        return mk("call", q, Z(0))
    if q == "operator.attrgetter" and n == 1 and is_const(A[0]):
        return mk("pattr", A[0].args[0])
    if q == "operator.itemgetter" and n == 1:
        return mk("pitem", A[0])
    if q in ("operator.or_", "operator.and_", "operator.sub", "operator.add", "operator.lt", "operator.eq") and n == 2:
        if bare in ("lt", "eq"):
            return b({"lt": lt, "eq": eq}[bare](V(0), V(1)))
        op = {"or_": ast.BitOr, "and_": ast.BitAnd, "sub": ast.Sub, "add": ast.Add}[bare]()
        return ip.binop(op, A[0], A[1], st, node)
    # ---- os.path / paths
    if q == "os.path.join":
        return join_path([Z(i) for i in range(n)])
    if q == "os.path.basename":
        return ip.attr(Z(0), "name", st, node)
    if q == "os.path.dirname":
        return ip.attr(Z(0), "parent", st, node)
    if q == "os.path.split":
        return mk("tup", ip.attr(Z(0), "parent", st, node), ip.attr(Z(0), "name", st, node))
    if q == "os.path.splitext":
        return mk("tup", mk("call", "rootpart", Z(0)), getattr_(Z(0), "suffix"))
    if q == "os.path.abspath":
        return mk("call", "absolute", Z(0))
    if q == "os.path.realpath":
        return mk("call", "resolve", Z(0))
    if q in OSPATH_PREDS:
        return pred(OSPATH_PREDS[q], Z(0))
    if q == "os.path.samefile":
        x, y = sorted((Z(0), Z(1)), key=skey)
        return pred("samefile", x, y)
    if q == "os.path.relpath":
        return mk("call", "relpath", *[Z(i) for i in range(n)], *kwt(ip, kwargs, st))
    if q in ("dict.fromkeys", "collections.OrderedDict.fromkeys") and n in (1, 2):
        return ip.alloc(st, coll("dict", [ent(L, g, Z(1) if n == 2 else NONE, k) for L, g, k in ip.sources(A[0], st)]))
    if q in ("os.getcwd", "pathlib.Path.cwd"):
        moved = sum(e.kind == "fs.chdir" for e in ip.events)
        return mk("call", "pathlib.Path.cwd", *[const(moved)] * bool(moved))
    if q == "os.readlink":
        return mk("call", "method.readlink", Z(0))
    if q in ("os.stat", "os.lstat"):
        return mk("call", "method.stat" if q == "os.stat" else "method.lstat", Z(0))
    if q in ("os.listdir", "os.scandir"):
        return mk("call", "os.listdir", *[Z(i) for i in range(n)])
    if q == "glob.glob":
        x = Z(0)
        return mk("call", "glob.glob", x, *kwt(ip, kwargs, st))
    # ---- environment
    if q in ("os.environ.get", "os.getenv"):
        e = mk("call", "env", Z(0))
        ip.set_type(e, ("opt", ("prim", "str")))
        if n > 1:
            return ite(isnone(e), Z(1), e)
        return e
    if q.startswith("os.environ."):
        ip.emit("env." + bare, posargs(A), st, node)
        return mk("call", q, *[Z(i) for i in range(n)])
    # ---- effects
    if q in FS_FUNCS:
        kind, params = FS_FUNCS[q]
        d = named(params, A, kwargs)
        if d.get("follow_symlinks") is TRUE:
            del d["follow_symlinks"]
        fsev(ip, kind, list(d.items()), st, node)
        if q in ("shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.move"):
            return d.get("dst", NONE)
        return NONE
    if q in ("os.mkdir", "os.makedirs"):
        d = named(("path", "mode", "exist_ok"), A, kwargs)
        fsev(ip, "fs.mkdir", [("path", d["path"]), ("parents", b(T) if q == "os.makedirs" else FALSE),
                              ("exist_ok", d.get("exist_ok", FALSE)), *[(k, v) for k, v in d.items() if k == "mode"]], st, node)
        return NONE
    if q == "shutil.copyfileobj":
        fsev(ip, "fs.copyobj", posargs(A), st, node)
        return NONE
    if q == "shutil.which":
        return mk("call", "which", Z(0))
    if q.startswith("subprocess.") and bare in PROC:
        return proc(ip, bare, A, kwargs, st, node)
    if q in SHELLS:
        ip.emit("proc.shell", [("fn", const(q)), *posargs(A), *sorted(kwargs.items())], st, node)
        return mk("call", q, *[Z(i) for i in range(n)])
    if q in ("sys.exit", "exit", "quit", "os._exit"):
        ip.emit("exit", posargs(A), st, node)
        ip.do_raise("SystemExit", st, node, A[0] if A else NONE)
        return NONE
    if q == "contextlib.suppress":
        return mk("call", q, *A)
    # ---- re
    if q.startswith("re.") and bare in ("match", "search", "fullmatch", "sub", "findall", "split", "finditer"):
        pat = Z(0)
        rest = [Z(i) for i in range(1, n)]
        if pat.op == "call" and pat.args[0] == "re.compile":
            extra = list(pat.args[2:])
            pat = pat.args[1]
        else:
            extra = []
            npos = 2 if bare == "sub" else 1
            if len(rest) > npos:
                extra = rest[npos:]
                rest = rest[:npos]
        kws = kwt(ip, {k: v for k, v in kwargs.items() if k != "flags"}, st)
        if "flags" in kwargs:
            extra.append(ip.freeze(kwargs["flags"], st))
        t = mk("call", "re." + bare, pat, *rest, *extra, *kws)
        if bare in ("match", "search", "fullmatch"):
            ip.set_type(t, ("opt", ("ext", "re.Match")))
        if bare == "match" and False:
            pass
        return t
    if q == "re.compile":
        extra = [Z(i) for i in range(1, n)]
        if "flags" in kwargs:
            extra.append(ip.freeze(kwargs["flags"], st))
        return mk("call", q, Z(0), *extra)
    if q == "hashlib.new" and n and is_const(A[0]):
        return call_ext(ip, "hashlib." + str(A[0].args[0]), A[1:], kwargs, st, node)
    if q in HASHES and n <= 1:
        kwargs = {k: v for k, v in kwargs.items() if k != "usedforsecurity"}
        if not kwargs:
            return ip.alloc(st, coll("hash:" + q, [ent((), T, a) for a in A]))
    if q == "json.load":
        f = Z(0)
        p = file_path(f)
        return mk("call", "json.loads", mk("call", "method.read_text", p) if p is not None else mk("call", "method.read", f))
    if q == "json.dump":
        emit_write(ip, A[1], mk("call", "json.dumps", Z(0), *kwt(ip, kwargs, st)), st, node)
        return NONE
    if q in ("random.random", "time.time", "uuid.uuid4"):
        return mk("call", q, const(ip.fresh()))
    if q in ("tempfile.mkdtemp", "tempfile.mkstemp"):
        t = mk("call", q, *kwt(ip, kwargs, st))
        ip.emit("fs.mktemp", [*posargs(A), *kwargs.items()], st, node, t)
        return t
    if q == "object.__setattr__" and n == 3 and is_const(A[1]):
        ip.set_attr(A[0], A[1].args[0], A[2], st, node)
        return NONE
    if "." in q and not q.startswith("auditwheel."):
        # unbound methods of builtin types: str.startswith(x, y)
        head = q.rpartition(".")[0]
        if head in ("str", "list", "dict", "set", "frozenset", "tuple", "bytes", "pathlib.Path", "pathlib.PurePath") and A:
            return call_method(ip, A[0], bare, A[1:], kwargs, st, node)
    t = pure(ip, q, A, kwargs, st)
    if q.startswith("zipfile.") or q.startswith("tarfile.") or q.startswith("tempfile."):
        ip.emit("new:" + q, [*posargs(A), *sorted(kwargs.items())], st, node, t)
    elif q.startswith("logging."):
        return NONE
    if q.startswith("?"):
        ip.unknown.append(f"name {q}")
    ip.may_raise(t, st, node)
    return t


def chain(ip, A, st):
    ents = []
    for a in A:
        if a.op == "star":
            inner = a.args[0]
            for L, g, v in ip.sources(inner, st):
                for L2, g2, v2 in ip.sources(ip.val(v, st), st):
                    ents.append(ent(L + L2, And(g, g2), v2))
            continue
        x = ip.val(a, st)
        for L, g, v in ip.sources(x, st):
            ents.append(ent(L, g, v))
    return coll("gen", ents)


def copyval(ip, x, st, deep=False):
    v = ip.val(x, st)
    if v.op == "coll":
        if deep:
            v = ip.freeze(v, st)
            if v.op != "coll":
                v = expand(ip, v, st)
        return ip.alloc(st, v)
    if v.op == "ite":
        return v
    ty_ = strip_opt(ip.ty(v))
    if ty_ and ty_[0] == "dict":
        return ip.alloc(st, coll("dict", ip.dict_entries(v, st)))
    if ty_ and ty_[0] == "seq":
        return ip.alloc(st, coll("list", [ent(L, g, w) for L, g, w in ip.sources(v, st)]))
    return mk("copyof", v)


def expand(ip, v, st):
    if v.op == "as":
        return coll(v.args[0] if v.args[0] in ("list", "tuple", "set", "frozenset", "sorted", "sortdup", "uniq") else "list",
                    [ent(L, g, w) for L, g, w in ip.sources(v.args[1], st)])
    return v


def container(ip, q, A, kwargs, st, node):
    n = len(A)
    kind = {"iter": "iter", "collections.OrderedDict": "dict", "collections.deque": "list"}.get(q, q)
    if kind == "dict":
        ents = []
        if n:
            ents += ip.dict_entries(A[0], st)
        for k, v in kwargs.items():
            if k != "**":
                ents.append(ent((), T, v, const(k)))
        return ip.alloc(st, coll("dict", ents))
    if kind == "sorted":
        return do_sorted(ip, A[0], kwargs, st, node)
    if n == 0:
        return ip.alloc(st, coll(kind, ()))
    x = ip.val(A[0], st)
    if kind == "iter":
        return x
    if is_const(x) and isinstance(x.args[0], str) and kind in ("set", "frozenset"):
        return ip.alloc(st, coll(kind, [ent((), T, const(c)) for c in sorted(set(x.args[0]))]))
    if x.op == "glob":
        r = ip.p.resolve(x.args[0])
        if r and r[0] == "class" and r[1].is_enum and kind in ("list", "tuple"):
            return mk("as", "list", x)
    if x.op == "as" and x.args[0] in ("sorted", "sortset", "uniq", "rev") and kind in ("list", "tuple"):
        return x
    if x.op == "coll" and x.args[0] in ("sorted", "sortdup", "uniq") and kind in ("list", "tuple"):
        return ip.alloc(st, x)
    if x.op == "coll" and x.args[0] == "dict" and kind in ("list", "tuple") and any(e.op == "ent" and e.args[0] for e in x.args[1]):
        kind = "uniq"  # each key once
    if x.op == "coll" and any(e.op not in ("ent",) for e in x.args[1]):
        if kind in ("list", "tuple") or (kind in simp.SETK and x.args[0] in (*simp.SETK, "dict", "defaultdict")):
            if x.args[0] in ("dict", "defaultdict"):
                x = mk("as", kind, ip.freeze(x, st))
                return x
            return ip.alloc(st, coll(kind, x.args[1]))
    if x.op == "ite":
        # contents differ by branch: keep entries with guards
        return ip.alloc(st, coll(kind, [ent(L, g, v) for L, g, v in ip.sources(x, st)]))
    ents = [ent(L, g, v) for L, g, v in ip.sources(x, st)]
    return ip.alloc(st, coll(kind, ents))


def repeats(t):
    """a list that may hold an element twice because it is put together from several sources"""
    if t.op != "coll" or t.args[0] not in ("list", "tuple", "gen", "iter", "sorted"):
        return False
    es = [e for e in t.args[1] if e.op == "ent"]
    for i, x in enumerate(es):
        for y in es[:i]:
            if And(x.args[1], y.args[1]) is not F and not (is_const(x.args[2]) and is_const(y.args[2])):
                return True
    return False


def do_sorted(ip, x, kwargs, st, node):
    key = kwargs.get("key")
    rev = kwargs.get("reverse")
    v = ip.freeze(ip.val(x, st), st)
    ip.went(v, st, "sorted")
    if key is not None and key is not NONE:
        srcs = ip.sources(v, st)
        ok = False
        if len(srcs) == 1:
            L, g, w = srcs[0]
            k = ip.call(key, [w], {}, st, node)
            k = ip.freeze(k, st)
            if k is w:
                ok = True
            elif w.op == "tup" and w.args and k is w.args[0] and len(L) == 1 and w.args[0].op == "key":
                ok = True
            elif k.op == "attr" and k.args[1] == "priority" and k.args[0] is w:
                ok = True
            else:
                key = k
        if not ok:
            t = mk("as", "sortedby", v, key, ip.freeze(rev, st) if rev is not None else FALSE)
            return t
    t = with_kind(v, "sorted")
    if t.op == "as" and t.args[0] == "sorted" and t.args[1].op == "arith" and t.args[1].args[0] == "Add":
        t = coll("sorted", simp.flat_entries(t.args[1]))
    if t.op == "coll" and repeats(v if v.op == "coll" else t):
        t = coll("sortdup", t.args[1])
    if rev is not None and truth(rev) is T:
        return mk("as", "rev", t)
    if t.op == "coll":
        return ip.alloc(st, t)
    return t


def proc(ip, fn, A, kwargs, st, node):
    kw = dict(kwargs)
    argv = A[0] if A else kw.pop("args", NONE)
    fv = ip.val(argv, st)
    if fv.op == "tup":
        argv = coll("list", [ent((), T, x) for x in fv.args])
    check = fn in ("check_call", "check_output")
    if fn == "run":
        c = kw.pop("check", FALSE)
        check = truth(c) is T
        if kw.get("capture_output") is TRUE or kw.get("stdout") is not None:
            pass
    drop = {"stdout", "capture_output"} if check else set()
    outkw = {k: v for k, v in kw.items() if k not in drop}
    pairs = [("argv", argv), *sorted(outkw.items())]
    kind = "proc.check" if check else "proc.nocheck"
    av = ip.freeze(argv, st)
    t = mk("call", kind, av, *kwt(ip, outkw, st))
    ip.emit(kind, pairs, st, node, t)
    ip.may_raise(t, st, node)
    if fn == "check_output":
        return mk("attr", t, "stdout")
    return t


# ------------------------------------------------------------------ methods
def call_method(ip, recv, name, args, kwargs, st, node):
    if kwargs and name in MSIGS and not any(a.op == "star" for a in args):
        args, kwargs = positional(MSIGS[name], args, kwargs)
    if name == "writestr" and len(args) >= 2 and not any(a.op == "star" for a in args):
        # writestr(info, data, type, level): the type, if given, is set on the info
        kwargs = {**kwargs, **dict(zip(("compress_type", "compresslevel"), args[2:]))}
        args = args[:2]
        z = ip.freeze(args[0], st)
        if "compress_type" in kwargs and z.op == "call" and isinstance(z.args[0], str) and z.args[0].startswith("zipfile.ZipInfo"):
            ct = kwargs.pop("compress_type")
            if ip.val(ct, st) is not NONE:
                ip.set_attr(args[0], "compress_type", ct, st, node)
    A = args
    n = len(A)
    o = recv
    if o.op == "slot":
        return slot_method(ip, o, name, A, kwargs, st, node)
    v = ip.val(o, st)

    def Z(i):
        return ip.freeze(A[i], st)

    def fz():
        return ip.freeze(v, st)

    # ---- distribute over conditional receivers
    if v.op == "ite" and o.op != "obj":
        s1, s0 = st.copy(), st.copy()
        s1.live, s0.live = And(st.live, v.args[0]), And(st.live, Not(v.args[0]))
        x = ip.call_attr(o.args[1] if o.op == "ite" else v.args[1], name, A, kwargs, s1, node) if s1.live is not F else NONE
        y = ip.call_attr(o.args[2] if o.op == "ite" else v.args[2], name, A, kwargs, s0, node) if s0.live is not F else NONE
        r = ip.join(s1, s0)
        st.vars, st.live = r.vars, r.live
        return ite(v.args[0], x, y)
    if v.op == "coll" and v.args[0].startswith("hash:"):
        if name == "update" and len(A) == 1:
            ip.add_ent(o, ent((), st.live, A[0]), st)
            return NONE
        if name in ("digest", "hexdigest") and not A:
            c = fz()
            from .interp import regard
            es = tuple(regard(e, st.live) for e in c.args[1])
            data = [es[0].args[2]] if len(es) == 1 and es[0].op == "ent" and not es[0].args[0] and es[0].args[1] is T else [coll("list", es)] if es else []
            return mk("call", "method." + name, mk("call", c.args[0][5:], *data))
    # ---- local containers
    if o.op == "obj":
        r = local_method(ip, o, v, name, A, kwargs, st, node)
        if r is not None:
            return r
    if v.op == "coll":
        r = ro_method(ip, o, v, name, A, kwargs, st, node)
        if r is not None:
            return r
    ty_ = strip_opt(ip.ty(v))
    # ---- dict-ish / set-ish reads on anything
    if name in ("items", "keys", "values") and not A:
        if name == "items" and ty_ and ty_[0] == "seq":
            pass
        return mk(name, o if o.op == "obj" else v)
    if name == "get" and n in (1, 2) and not kwargs and not (ty_ and ty_[0] in ("ext", "cls")):
        d = A[1] if n == 2 else NONE
        w = fz()
        c = ip.contains_(Z(0), w, st)
        it = getitem(w, Z(0))
        ip.ty(it)
        return ite(c, it, ip.freeze(d, st) if d.op != "obj" else d)
    if name in ("issubset", "issuperset", "isdisjoint", "union", "intersection", "difference", "symmetric_difference", "copy"):
        r = set_method(ip, o, v, name, A, st, node)
        if r is not None:
            return r
    # ---- patterns
    if v.op == "pattr" or v.op == "pitem":
        pass
    if v.op == "call" and v.args[0] == "re.compile" and name in ("match", "search", "fullmatch", "sub", "findall", "split", "finditer"):
        t = mk("call", "re." + name, v.args[1], *[Z(i) for i in range(n)], *v.args[2:], *kwt(ip, kwargs, st))
        if name in ("match", "search", "fullmatch"):
            ip.set_type(t, ("opt", ("ext", "re.Match")))
        return t
    if name == "group" and not kwargs and (v.op == "call" or v.op == "ite"):
        if n == 0:
            return mk("item", fz(), const(0))
        if n == 1:
            return mk("item", fz(), Z(0))
        return mk("tup", *[mk("item", fz(), Z(i)) for i in range(n)])
    # ---- strings
    if name in ("startswith", "endswith") and n == 1:
        return b(affix(ip, name, fz(), ip.val(A[0], st), st))
    if name == "join" and n == 1 and (is_const(v) or ip.stringy(v)):
        return joinstr(ip, fz(), A[0], st)
    if name == "format" and is_const(v) and isinstance(v.args[0], str):
        r = fmt(ip, v.args[0], A, kwargs, st)
        if r is not None:
            return r
    if is_const(v) and isinstance(v.args[0], (str, bytes)) and all(is_const(a) for a in A) and not kwargs:
        try:
            r = getattr(v.args[0], name)(*[a.args[0] for a in A])
            if isinstance(r, (str, bytes, int, bool)):
                return const(r)
            if isinstance(r, (list, tuple)):
                return mk("tup", *[const(x) for x in r])
        except Exception:  # noqa: BLE001
            pass
    if name in ("encode", "decode"):
        A2 = [a for a in A if not (is_const(a) and str(a.args[0]).lower().replace("_", "-") in ("utf-8", "utf8"))]
        kw = {k: x for k, x in kwargs.items() if not (k == "encoding" and is_const(x) and str(x.args[0]).lower() in ("utf-8", "utf8"))}
        w = fz()
        if name == "decode":
            trims = []
            while w.op == "call" and w.args[0] in ("method.rstrip", "method.lstrip", "method.strip") and len(w.args) == 3 and is_const(w.args[2]) \
                    and isinstance(w.args[2].args[0], bytes) and w.args[2].args[0].isascii():
                # characters of one byte: before or after decoding is the same
                trims.append((w.args[0], const(w.args[2].args[0].decode())))
                w = w.args[1]
            if w.op == "call" and isinstance(w.args[0], str) and w.args[0].startswith("base64.") and w.args[0].endswith("encode") \
                    and len(A2) == 1 and is_const(A2[0]) and str(A2[0].args[0]).lower() in ("ascii", "latin-1", "latin1", "us-ascii"):
                A2 = []
            r = mk("call", "method.decode", w, *[ip.freeze(a, st) for a in A2], *kwt(ip, kw, st))
            for m, c in reversed(trims):
                r = mk("call", m, r, c)
            return r
        return mk("call", "method." + name, w, *[ip.freeze(a, st) for a in A2], *kwt(ip, kw, st))
    if name == "splitlines" and v.op == "call" and v.args[0] == "method.read_text":
        pass
    # ---- paths
    if name == "resolve":
        if kwargs.get("strict") is TRUE or (A and A[0] is TRUE):
            ip.emit("fs.require", [("path", o)], st, node)
            t = mk("call", "resolve", fz())
            ip.may_raise(t, st, node)
            return t
        return mk("call", "resolve", fz())
    if name == "absolute" and not A:
        w = fz()
        if w.op == "call" and w.args[0] in ("resolve", "absolute", "pathlib.Path.cwd"):
            return w
        return mk("call", "absolute", w)
    if name in ("as_posix", "__str__", "__fspath__") and not A:
        return fz()
    if name in PURE_PREDS and not A:
        return pred(PURE_PREDS[name], fz())
    if name == "samefile" and n == 1:
        x, y = sorted((fz(), Z(0)), key=skey)
        return pred("samefile", x, y)
    if name == "joinpath":
        return join_path([fz(), *[Z(i) for i in range(n)]])
    if name == "with_name" and n == 1:
        return join_path([getattr_(fz(), "parent"), Z(0)])
    if name == "relative_to":
        return mk("call", "method.relative_to", fz(), *[Z(i) for i in range(n)])
    if name == "is_relative_to" and n == 1:
        x, y = fz(), Z(0)
        return b(Or(eq(x, y), in_(y, getattr_(x, "parents"))))
    if name == "open":
        return do_open(ip, o, A, kwargs, st, node)
    if name in ("read_text", "read_bytes") :
        t = mk("call", "method." + name, fz(), *[Z(i) for i in range(n)], *kwt(ip, kwargs, st))
        ip.may_raise(t, st, node)
        return t
    if name == "read" and not A and not kwargs:
        p = file_path(v)
        if p is not None:
            mode = v.args[2].args[0] if is_const(v.args[2]) else "?"
            t = mk("call", "method.read_bytes" if "b" in str(mode) else "method.read_text", p, *v.args[3:])
            ip.may_raise(t, st, node)
            return t
    if name == "readlines" and file_path(v) is not None and not A:
        return v
    if name in ("write_text", "write_bytes"):
        d = named(("data", "encoding", "errors", "newline"), A, kwargs)
        data = d.pop("data", NONE)
        ip.emit("fs.open_write", [("path", o), ("mode", const("w" if name == "write_text" else "bw")), *sorted(d.items())], st, node)
        ip.emit("fs.write", [("file", o), ("data", data)], st, node)
        ip.may_raise(mk("call", "fs.write", fz()), st, node)
        return NONE
    if name == "write" and n == 1 and (file_path(v) is not None):
        emit_write(ip, v, A[0], st, node)
        return NONE
    if name == "writelines" and file_path(v) is not None:
        for L, g, x in ip.sources(A[0], st):
            live = st.live
            st.live = And(live, g)
            ip.loops.extend(L)
            emit_write(ip, v, x, st, node)
            if L:
                del ip.loops[-len(L):]
            st.live = live
        return NONE
    if name == "mkdir":
        d = named(("mode", "parents", "exist_ok"), A, kwargs)
        fsev(ip, "fs.mkdir", [("path", o), ("parents", d.get("parents", FALSE)), ("exist_ok", d.get("exist_ok", FALSE)), *[(k, v) for k, v in d.items() if k == "mode"]], st, node)
        return NONE
    if name in ("rename", "replace") and n == 1 and not kwargs and not ip.stringy(v):
        dst = Z(0)
        fsev(ip, "fs.rename", [("src", o), ("dst", A[0])], st, node)
        return dst
    if name in FS_METHODS and not (ty_ and ty_[0] == "cls"):
        kind, params = FS_METHODS[name]
        d = named(params, A, kwargs)
        if d.get("missing_ok") is FALSE:
            del d["missing_ok"]
        fsev(ip, kind, [("path", o), *d.items()], st, node)
        return NONE
    if name == "stat" and not A:
        t = mk("call", "method.stat", fz())
        ip.may_raise(t, st, node)
        return t
    if name in ("glob", "rglob", "iterdir"):
        return mk("call", "method." + name, fz(), *[Z(i) for i in range(n)], *kwt(ip, kwargs, st))
    # ---- csv
    if name == "writerow":
        return csvrow(ip, v, A[0], st, node)
    if name == "writerows":
        for L, g, x in ip.sources(A[0], st):
            live = st.live
            st.live = And(live, g)
            ip.loops.extend(L)
            csvrow(ip, v, x, st, node)
            if L:
                del ip.loops[-len(L):]
            st.live = live
        return NONE
    # ---- argparse
    if name in ("error", "exit") and (ty_ and ty_[0] == "ext" and ty_[1].endswith("ArgumentParser")
                                     or (v.op == "param" and v.args[0] in ("parser", "p"))):
        ip.emit("parser." + name, posargs(A), st, node)
        ip.do_raise("SystemExit", st, node, A[0] if A else NONE)
        return NONE
    from .interp import MUTATORS, NORAISE_METHODS
    # ---- effects on objects we do not own
    t = mk("call", "method." + name, fz(), *[Z(i) for i in range(n)], *kwt(ip, kwargs, st))
    if name == "get_section_by_name":
        # sections have neither __bool__ nor __len__
        ip.set_type(t, ("opt", ("ext", "elftools.elf.sections.Section")))
    if name in MUTATORS or name.startswith("set_") or name in ("__enter__", "__exit__", "close", "cleanup", "extract", "extractall", "flatten", "execute"):
        if name == "sort":
            return sort_inplace(ip, o, kwargs, st, node)
        if name == "setdefault" and n == 2 and not kwargs:
            # the value is put in unless there is one
            live = st.live
            st.live = And(live, Not(in_(Z(0), fz())))
            ip.set_item(o, A[0], A[1], st, node)
            st.live = live
            return ip.item(o, A[0], st)
        if name in ("append", "extend") and len(A) == 1 and ip.events and not kwargs:
            # continues an assignment of the whole contents
            p = ip.events[-1]
            if p.kind == "mut.sliceassign" and p.args[0][1] is fz() and p.guard is ip.freezef(st.live, st) and p.loops == tuple(ip.loops):
                more = [ent((), T, Z(0))] if name == "append" else simp.flat_entries(Z(0))
                p.args = (p.args[0], ("value", coll("list", [*simp.flat_entries(p.args[1][1]), *more])))
                return NONE
            k = len(p.loops)
            g = ip.freezef(st.live, st)
            if name == "append" and p.kind == "mut.sliceassign" and p.args[0][1] is fz() and And(g, Not(p.guard)) is F and p.loops == tuple(ip.loops[:k]):
                for a in support(p.guard):
                    for v_, lit in ((1, atom(a)), (0, Not(atom(a)))):
                        if And(p.guard, Not(lit)) is F:
                            g = restrict(g, _ATOM_IX[a], v_)
                more = [ent(tuple(ip.loops[k:]), g, Z(0))]
                p.args = (p.args[0], ("value", coll("list", [*simp.flat_entries(p.args[1][1]), *more])))
                return NONE
        if name == "pop" and n == 1 and Z(0).op == "call" and Z(0).args[0] == "method.index" and len(Z(0).args) == 3 and Z(0).args[1] is fz():
            # taking x out by its position
            x = Z(0).args[2]
            ip.emit("mut.remove", [("obj", o), ("0", x)], st, node)
            return x
        if name == "extend" and n == 1 and not kwargs:
            for L, g, x in [ip.rename_src(s) for s in ip.sources(A[0], st)]:
                live = st.live
                st.live = And(live, g)
                ip.loops.extend(L)
                ip.emit("mut.append", [("obj", o), ("0", x)], st, node)
                if L:
                    del ip.loops[-len(L):]
                st.live = live
            return NONE
        ip.emit("mut." + name, [("obj", o), *posargs(A), *sorted(kwargs.items())], st, node, t)
    if name not in NORAISE_METHODS:
        ip.may_raise(t, st, node)
    return t


def sort_inplace(ip, o, kwargs, st, node):
    """x.sort(...) of a list that is not ours: x[:] = sorted(x, ...)"""
    v = ip.freeze(ip.val(o, st), st)
    key, rev = kwargs.get("key"), kwargs.get("reverse")
    rv = truth(rev) if rev is not None else F
    if key is not None and key is not NONE and rv in (T, F):
        L = ip.loopvar(v)
        k = ip.freeze(ip.call(key, [L], {}, st, node), st)
        if k.op == "tup" and len(k.args) == 2 and k.args[1] is L and as_bool(k.args[0]) is not None and rv is F:
            # by a condition, then by value: sort, then those without the condition first
            ip.emit("mut.sliceassign", [("obj", o), ("value", do_sorted(ip, v, {}, st, node))], st, node)
            k = k.args[0]
        k = as_bool(k)
        if k is not None:
            new = coll("list", [ent((L,), g, L) for g in ((Not(k), k) if rv is F else (k, Not(k)))])
            ip.emit("mut.sliceassign", [("obj", o), ("value", new)], st, node)
            return NONE
    ip.emit("mut.sliceassign", [("obj", o), ("value", do_sorted(ip, v, kwargs, st, node))], st, node)
    return NONE


def csvrow(ip, w, row, st, node):
    tgt = w
    if w.op == "call" and w.args[0] == "csv.writer":
        p = file_path(w.args[1])
        tgt = mk("csv", p if p is not None else w.args[1], *w.args[2:])
    r = ip.freeze(row, st)
    if r.op == "coll" and r.args[0] in ("list", "tuple") and all(e.op == "ent" and not e.args[0] and e.args[1] is T for e in r.args[1]):
        r = mk("tup", *[e.args[2] for e in r.args[1]])
    ip.emit("csv.row", [("out", tgt), ("row", r)], st, node)
    return NONE


def affix(ip, name, x, a, st):
    if a.op == "tup":
        r = F
        for y in a.args:
            r = Or(r, affix(ip, name, x, y, st))
        return r
    if is_const(a) and isinstance(a.args[0], tuple):
        r = F
        for y in a.args[0]:
            r = Or(r, affix(ip, name, x, const(y), st))
        return r
    if a.op == "coll" and all(not e.args[0] for e in a.args[1]):
        r = F
        for e in a.args[1]:
            r = Or(r, And(e.args[1], affix(ip, name, x, e.args[2], st)))
        return r
    if x.op == "ite":
        from .terms import bite
        return bite(x.args[0], affix(ip, name, x.args[1], a, st), affix(ip, name, x.args[2], a, st))
    if a.op == "ite":
        from .terms import bite
        return bite(a.args[0], affix(ip, name, x, a.args[1], st), affix(ip, name, x, a.args[2], st))
    if a.op == "coll":
        return atom(mk(name + "*", x, ip.freeze(a, st)))
    if is_const(x) and is_const(a):
        try:
            return T if getattr(x.args[0], name)(a.args[0]) else F
        except TypeError:
            pass
    if x.op == "concat" and is_const(a):
        p = x.args[0][0 if name == "startswith" else -1]
        if is_const(p) and len(p.args[0]) >= len(a.args[0]):
            return T if getattr(p.args[0], name)(a.args[0]) else F
    if x is a:
        return T
    return atom(mk(name, x, a))


def slot_method(ip, s, name, A, kwargs, st, node):
    """method of a container stored in a local dict: d[k].add(x)"""
    o, k, cur = s.args
    n = len(A)
    if name in ("add", "append") and n == 1:
        acc_add(ip, o, k, ((), T, A[0]), st)
        return NONE
    if name in ("update", "extend"):
        for a in A:
            for src in ip.sources(ip.val(a, st), st):
                acc_add(ip, o, k, src, st)
        return NONE
    if o.op == "obj" and name in ("remove", "discard", "clear", "pop", "sort", "insert", "setdefault"):
        c = ip.val(o, st)
        st.vars[("c", o)] = mk("upd", ip.freeze(c, st), name, k, *[ip.freeze(a, st) for a in A])
        return cur
    return call_method(ip, cur, name, A, kwargs, st, node)


def acc_add(ip, o, k, src, st):
    L, g, v = src
    c = st.vars.get(("c", o)) if o.op == "obj" else None
    e = mk("acc", tuple(L), And(st.live, g), v, k)
    if c is not None and c.op == "coll":
        st.vars[("c", o)] = coll(c.args[0], c.args[1] + (e,))
    elif o.op == "obj":
        st.vars[("c", o)] = mk("upd", c if c is not None else NONE, e)


def filter_out(ip, o, c, test, st, *known):
    ents = []
    for e in c.args[1]:
        if e.op == "ent":
            e = simp.apart(e, b(st.live), *known)
            ents.append(ent(e.args[0], And(e.args[1], Not(And(st.live, test(e)))), e.args[2], e.args[3]))
        else:
            return False
    st.vars[("c", o)] = coll(c.args[0], ents)
    return True


def local_method(ip, o, c, name, A, kwargs, st, node):
    n = len(A)
    kind = c.args[0] if c.op == "coll" else None

    def upd(*xs):
        st.vars[("c", o)] = mk("upd", ip.freeze(c, st), name, *[ip.freeze(a, st) for a in xs])

    if c.op != "coll":
        if name in ("append", "add", "extend", "update", "insert", "sort", "remove", "discard", "clear", "reverse"):
            upd(*A)
            return NONE
        if name in ("pop", "popitem", "setdefault"):
            r = mk("call", "method." + name, ip.freeze(c, st), *[ip.freeze(a, st) for a in A])
            upd(*A)
            return r
        return None
    if name in ("append", "add") and n == 1:
        ip.add_ent(o, ent((), st.live, under(A[0], st.live)), st)
        return NONE
    if name in ("extend", "update", "union_update") :
        for a in A:
            ip.mutate_extend(o, a, st)
        for k, v in kwargs.items():
            if kind in ("dict", "defaultdict"):
                ip.set_item(o, const(k), v, st, node)
        return NONE
    if name == "insert" and n == 2:
        if is_const(A[0]) and A[0].args[0] == 0:
            st.vars[("c", o)] = coll(kind, (ent((), st.live, A[1]), *c.args[1]))
        else:
            upd(*A)
        return NONE
    if name == "sort":
        fr = ip.freeze(c, st)
        r = do_sorted(ip, fr, kwargs, st, node)
        r = ip.val(r, st)
        st.vars[("c", o)] = r
        return NONE
    if name == "reverse" and not A:
        st.vars[("c", o)] = mk("as", "rev", ip.freeze(c, st))
        return NONE
    if name == "clear":
        st.vars[("c", o)] = coll(kind, ())
        return NONE
    if name in ("remove", "discard") and n == 1:
        x = A[0]
        if kind in ("set", "frozenset", "uniq") and filter_out(ip, o, c, lambda e: eq(e.args[2], x), st, x):
            return NONE
        if kind == "list" and all(e.op == "ent" and not e.args[0] for e in c.args[1]):
            r = st.live
            ents = []
            for e in c.args[1]:
                m = And(e.args[1], eq(e.args[2], x))
                ents.append(ent((), And(e.args[1], Not(And(m, r))), e.args[2]))
                r = And(r, Not(m))
            st.vars[("c", o)] = coll(kind, [e for e in ents if e.args[1] is not F])
            return NONE
        upd(x)
        return NONE
    if name == "pop":
        if kind in ("dict", "defaultdict") and n:
            r = ip.item(o, A[0], st)
            if n > 1:
                r = ite(ip.contains_(A[0], c, st), r, A[1])
            k = A[0]
            if not filter_out(ip, o, c, lambda e: eq(e.args[3], k), st, k):
                upd(*A)
            return r.args[2] if r.op == "slot" else r
        if kind in ("list", "uniq") and c.args[1] and n == 0 and c.args[1][-1].op == "ent" and not c.args[1][-1].args[0] and c.args[1][-1].args[1] is T:
            st.vars[("c", o)] = coll(kind, c.args[1][:-1])
            return c.args[1][-1].args[2]
        if not A and kind in simp.SETK and c.args[1] and all(e.op == "ent" for e in c.args[1]):
            r = simp.first_ent(ip.freeze(c, st).args[1]) if ip.freeze(c, st).op == "coll" else first_of(ip, c, mk("stopiter"), st)
        else:
            r = mk("call", "method.pop", ip.freeze(c, st), *[ip.freeze(a, st) for a in A])
        upd(*A)
        return r
    if name == "setdefault":
        k = A[0]
        d = A[1] if n > 1 else NONE
        dv = ip.val(d, st)
        if dv.op == "coll" and not dv.args[1]:
            return mk("slot", o, k, ip.freeze(ip.item(o, k, st), st)) if False else _slot(ip, o, k, st)
        cin = ip.contains_(k, c, st)
        cur = ip.item(o, k, st)
        if cur.op == "slot":
            cur = cur.args[2]
        live = st.live
        st.live = And(live, Not(cin))
        if st.live is not F:
            ip.add_ent(o, ent((), st.live, d, k), st)
        st.live = live
        return under(ite(cin, cur, d), live)
    if name in ("difference_update", "intersection_update"):
        op = ast.Sub() if name == "difference_update" else ast.BitAnd()
        cur = c
        for a in A:
            cur = ip.setop(op, cur, ip.val(a, st), st)
        st.vars[("c", o)] = cur
        return NONE
    if name in ("popitem", "popleft"):
        r = mk("call", "method." + name, ip.freeze(c, st))
        upd(*A)
        return r
    if name == "appendleft":
        st.vars[("c", o)] = coll(kind, (ent((), st.live, A[0]), *c.args[1]))
        return NONE
    return None


def _slot(ip, o, k, st):
    r = ip.item(o, k, st)
    if r.op == "slot":
        return r
    return mk("slot", o, k, ip.freeze(r, st))


def under(v, g):
    """drop alternatives of v that cannot happen under g"""
    if v.op != "ite":
        return v
    if And(g, v.args[0]) is F:
        return under(v.args[2], g)
    if And(g, Not(v.args[0])) is F:
        return under(v.args[1], g)
    return v


def ro_method(ip, o, c, name, A, kwargs, st, node):
    """read-only methods of known containers"""
    n = len(A)
    kind = c.args[0]
    if name in ("items", "keys", "values") and not A:
        return mk(name, o if o.op == "obj" else c)
    if name == "get" and kind in ("dict", "defaultdict"):
        k = ip.freeze(A[0], st)
        cin = ip.contains_(k, c, st)
        d = A[1] if n > 1 else NONE
        ents = c.args[1]
        if ents and all(e.op == "ent" and not e.args[0] for e in ents):
            r = d
            for e in ents:
                r = ite(And(e.args[1], eq(k, e.args[3])), e.args[2], r)
            return r
        it = ip.item(o, k, st)
        if it.op == "slot":
            it = it.args[2]
        return ite(cin, it, d)
    if name == "copy" and not A:
        return ip.alloc(st, c)
    if name in ("issubset", "issuperset", "isdisjoint", "union", "intersection", "difference", "symmetric_difference"):
        return set_method(ip, o, c, name, A, st, node)
    if name == "__contains__":
        return b(ip.contains_(A[0], c, st))
    if name == "__getitem__":
        return ip.item(o, A[0], st)
    if name in ("index", "count"):
        return mk("call", "method." + name, ip.freeze(c, st), *[ip.freeze(a, st) for a in A])
    return None


def set_method(ip, o, v, name, A, st, node):
    n = len(A)
    if name == "copy" and not A:
        ty_ = strip_opt(ip.ty(v))
        if ty_ and ty_[0] == "dict":
            return ip.alloc(st, coll("dict", ip.dict_entries(v, st)))
        if ty_ and ty_[0] == "seq":
            return ip.alloc(st, coll("list", [ent(L, g, w) for L, g, w in ip.sources(v, st)]))
        return mk("copyof", ip.freeze(v, st))
    if name == "issubset" and n == 1:
        return b(ip.subset(v, A[0], st))
    if name == "issuperset" and n == 1:
        return b(ip.subset(A[0], v, st))
    if name == "isdisjoint" and n == 1:
        r = F
        for L, g, x in ip.sources(v, st):
            r = Or(r, exists_all(L, And(g, ip.contains_(x, A[0], st))))
        return b(Not(r))
    ops = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "symmetric_difference": ast.BitXor}
    if name in ops:
        cur = v
        if not A:
            return ip.alloc(st, coll("set", [ent(L, g, x) for L, g, x in ip.sources(v, st)]))
        for a in A:
            if a.op == "star":
                # set().union(*xs)
                ents = [ent(L, g, x) for L, g, x in ip.sources(cur, st)]
                if name != "union":
                    return None
                for L, g, x in ip.sources(a.args[0], st):
                    for L2, g2, y in ip.sources(ip.val(x, st), st):
                        ents.append(ent(L + L2, And(g, g2), y))
                cur = coll("set", ents)
            else:
                cur = ip.setop(ops[name](), cur, ip.val(a, st), st)
        return ip.alloc(st, cur) if cur.op == "coll" else cur
    return None
