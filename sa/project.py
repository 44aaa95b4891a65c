"""Loads the source tree: modules, classes, functions, imports, annotations."""
from __future__ import annotations

import ast
import hashlib
from pathlib import Path


class FuncInfo:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(ast.unparse(d))
        self.is_static = any(d == "staticmethod" for d in self.decorators)
        self.is_classmethod = any(d == "classmethod" for d in self.decorators)
        self.is_property = any(d in ("property", "cached_property", "functools.cached_property") for d in self.decorators)
        self.is_generator = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)
        )

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], (a.vararg.arg if a.vararg else None), [
            x.arg for x in a.kwonlyargs
        ], (a.kwarg.arg if a.kwarg else None)

    def annotation(self, name):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            if x.arg == name:
                return x.annotation
        return None


def walk_own(fn):
    """ast.walk not entering nested functions/classes"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods: dict[str, FuncInfo] = {}
        self.fields: dict[str, ast.AST] = {}  # annotated attributes
        self.field_defaults: dict[str, ast.AST] = {}
        self.bases = node.bases
        self.consts: dict[str, ast.AST] = {}
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_dataclass = any("dataclass" in d for d in self.decorators)
        self.is_enum = any(ast.unparse(x).split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for x in node.bases)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = FuncInfo(f"{qual}.{s.name}", s, module, self)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields[s.target.id] = s.annotation
                if s.value is not None:
                    self.field_defaults[s.target.id] = s.value
                    self.consts[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
        # annotations of instance attributes given where they are first assigned
        self.attr_types: dict[str, ast.AST] = {}
        init = self.methods.get("__init__")
        if init:
            a = init.node.args
            params = {x.arg: x.annotation for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]}
            for s in ast.walk(init.node):
                t, v = None, None
                if isinstance(s, ast.AnnAssign):
                    t, v = s.target, s.annotation
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Name):
                    t, v = s.targets[0], params.get(s.value.id)
                if v is not None and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                    self.attr_types.setdefault(t.attr, v)


class ModuleInfo:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.imports: dict[str, str] = {}
        self.funcs: dict[str, FuncInfo] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.globals: dict[str, ast.AST] = {}
        self.multi: set[str] = set()
        pkg = name if path.name == "__init__.py" else name.rpartition(".")[0]
        self._scan(tree.body, pkg)

    def _scan(self, body, pkg):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                self.imports.update(imports_from(s, pkg))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = FuncInfo(f"{self.name}.{s.name}", s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(f"{self.name}.{s.name}", s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.globals:
                            self.multi.add(t.id)
                        self.globals[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.globals[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for f in ("body", "orelse", "finalbody"):
                    self._scan(getattr(s, f, []), pkg)
                for h in getattr(s, "handlers", []):
                    self._scan(h.body, pkg)


def imports_from(s, pkg):
    out = {}
    mod = s.module or ""
    if s.level:
        base = pkg.split(".")
        base = base[: len(base) - (s.level - 1)]
        mod = ".".join(base + ([mod] if mod else []))
    for a in s.names:
        out[a.asname or a.name] = f"{mod}.{a.name}"
    return out


class Project:
    def __init__(self, root: Path, package="auditwheel"):
        self.root = Path(root)
        self.package = package
        self.modules: dict[str, ModuleInfo] = {}
        self.errors = []
        base = self.root / "src" / package
        for p in sorted(base.rglob("*.py")):
            rel = p.relative_to(base.parent).with_suffix("")
            parts = list(rel.parts)
            if parts[-1] == "__init__":
                parts.pop()
            src = p.read_text()
            self.add(".".join(parts), p, src)
        self._mro = {}

    def add(self, name, path, src):
        tree = ast.parse(src, str(path))
        self.modules[name] = ModuleInfo(name, path, tree, src)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].src.encode())
        return h.hexdigest()

    # -- lookup by qualified name
    def resolve(self, qual):
        """-> ('func',FuncInfo) | ('class',ClassInfo) | ('mod',ModuleInfo) | ('global',ModuleInfo,name) | None"""
        seen = set()
        while qual not in seen:
            seen.add(qual)
            if qual in self.modules:
                return ("mod", self.modules[qual])
            mod, _, name = qual.rpartition(".")
            m = self.modules.get(mod)
            if m is not None:
                if name in m.funcs:
                    return ("func", m.funcs[name])
                if name in m.classes:
                    return ("class", m.classes[name])
                if name in m.globals:
                    return ("global", m, name)
                if name in m.imports:
                    qual = m.imports[name]
                    continue
                return None
            # class member?
            r = self.resolve(mod) if mod else None
            if r and r[0] == "class":
                f = self.find_method(r[1], name)
                if f:
                    return ("func", f)
                if name in r[1].consts:
                    return ("cattr", r[1], name)
            elif r and r[0] == "mod" and r[1].name != mod:
                qual = f"{r[1].name}.{name}"
                continue
            return None
        return None

    def canonical(self, qual):
        """follow re-exports to the defining qualified name"""
        r = self.resolve(qual)
        if r is None:
            # follow import of module alias for external
            mod, _, name = qual.rpartition(".")
            m = self.modules.get(mod)
            if m is not None and name in m.imports:
                return m.imports[name]
            return qual
        if r[0] in ("func", "class"):
            return r[1].qual
        if r[0] == "mod":
            return r[1].name
        if r[0] == "global":
            return f"{r[1].name}.{r[2]}"
        if r[0] == "cattr":
            return f"{r[1].qual}.{r[2]}"
        return qual

    def base_classes(self, c):
        out = []
        for bnode in c.bases:
            q = self.name_to_qual(ast.unparse(bnode), c.module)
            r = self.resolve(q) if q else None
            out.append(r[1] if r and r[0] == "class" else None)
        return out

    def base_names(self, c):
        return [self.name_to_qual(ast.unparse(x), c.module) or ast.unparse(x) for x in c.bases]

    def name_to_qual(self, dotted, module):
        head, _, rest = dotted.partition(".")
        if head in module.classes or head in module.funcs or head in module.globals:
            q = f"{module.name}.{head}"
        elif head in module.imports:
            q = module.imports[head]
        else:
            return None
        return self.canonical(f"{q}.{rest}" if rest else q)

    def mro(self, c):
        out = [c]
        for x in self.base_classes(c):
            if x is not None:
                for y in self.mro(x):
                    if y not in out:
                        out.append(y)
        return out

    def find_method(self, c, name, after=None):
        order = self.mro(c)
        if after is not None and after in order:
            order = order[order.index(after) + 1:]
        for k in order:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_field(self, c, name):
        for k in self.mro(c):
            if name in k.fields:
                return k.fields[name], k
        return None

    def find_attr_type(self, c, name):
        for k in self.mro(c):
            for d in (k.fields, k.attr_types):
                if name in d:
                    return d[name], k
        return None

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    def all_functions(self):
        """every function incl. methods (not nested)"""
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def is_exc_subclass(self, name, of):
        """name, of: qualified or builtin exception names; None if unknown"""
        if name == of or of in ("BaseException",):
            return True
        r = self.resolve(name)
        if r and r[0] == "class":
            return any(self.is_exc_subclass(x, of) for x in self.base_names(r[1]))
        import builtins
        a, c = getattr(builtins, name, None), getattr(builtins, of, None)
        if isinstance(a, type) and isinstance(c, type):
            return issubclass(a, c)
        if isinstance(a, type):
            return False  # builtin vs repo/external class
        return None
