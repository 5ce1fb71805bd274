"""The program model: modules, namespaces, classes, functions, and resolution of names across modules."""

from __future__ import annotations

import ast
import builtins
from pathlib import Path

PKG = "portfolyo"
BUILTINS = frozenset(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__builtins__", "__debug__"}


class Ext:
    """Something outside of the package, by dotted name (or a builtin)."""

    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return f"Ext({self.dotted})"


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.ns = {}  # name -> list of bindings
        self.typing_only = set()
        self.imports = []  # (target module, node, at runtime, enclosing function or None)
        self.star = []

    @property
    def rel(self):
        return str(self.path)

    def __repr__(self):
        return f"Module({self.name})"


class Var:
    """A module-level or class-level variable."""

    def __init__(self, owner, name, node, value):
        self.owner, self.name, self.node, self.value = owner, name, node, value

    @property
    def dotted(self):
        return f"{self.owner.name}.{self.name}"

    def __repr__(self):
        return f"Var({self.dotted})"


class Class:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.outer = module, node, outer
        self.name = f"{module.name}.{node.name}"
        self.short = node.name
        self.ns = {}
        self.bases = []  # Class or Ext
        self.subs = []
        self.fields = []
        self.inst_attrs = set()  # self.x = ..., object.__setattr__(self, "x", ...)

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            if isinstance(c, Class):
                todo += c.bases
        return out

    def descendants(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            todo += c.subs
        return out

    def decorator_names(self):
        return [dotted_of(d.func if isinstance(d, ast.Call) else d) for d in self.node.decorator_list]

    @property
    def is_dataclass(self):
        return any(d and d.split(".")[-1] == "dataclass" for d in self.decorator_names())

    @property
    def is_enum(self):
        return any(isinstance(c, Ext) and c.dotted in ("enum.Enum", "enum.Flag", "enum.IntEnum", "enum.IntFlag", "enum.StrEnum") for c in self.mro())

    def members(self):
        """Names of the members of an enumeration."""
        return [t.id for s in self.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name) and not t.id.startswith("_")]

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.ns:
                return c.ns[name][-1], c
        return None, None

    def __repr__(self):
        return f"Class({self.name})"


class Func:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        prefix = parent.qual + ".<locals>" if parent else cls.name if cls else module.name
        self.qual = f"{prefix}.{self.name}"
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params = self.pos + self.kwonly + [x for x in (self.vararg, self.kwarg) if x]
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults) :], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.decorators = [] if isinstance(node, ast.Lambda) else node.decorator_list
        self.decs = [dotted_of(d.func if isinstance(d, ast.Call) else d) or "?" for d in self.decorators]
        self.nested = {}
        self.bound_to = []  # classes that bind this function as a method

    def has_dec(self, *names):
        return any(d.split(".")[-1] in names for d in self.decs)

    @property
    def is_static(self):
        return self.has_dec("staticmethod")

    @property
    def is_classmethod(self):
        return self.has_dec("classmethod") or (self.cls is not None and self.name == "__new__")

    @property
    def is_property(self):
        return self.has_dec("property", "cached_property", "abstractproperty", "setter")

    @property
    def is_abstract(self):
        return self.has_dec("abstractmethod", "abstractproperty")

    @property
    def is_overload(self):
        return self.has_dec("overload")

    @property
    def public(self):
        parts = self.qual[len(PKG) :].split(".")
        return not any(p.startswith("_") and not (p.startswith("__") and p.endswith("__")) for p in parts) and "<locals>" not in self.qual

    @property
    def body(self):
        return [ast.Return(self.node.body, lineno=self.node.lineno, col_offset=0)] if isinstance(self.node, ast.Lambda) else self.node.body

    def loc(self, node=None):
        return (self.module.rel, getattr(node or self.node, "lineno", self.node.lineno))

    def __repr__(self):
        return f"Func({self.qual})"


def dotted_of(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted_of(e.value)
        return b and f"{b}.{e.attr}"
    return None


def is_type_checking(test):
    return dotted_of(test) in ("TYPE_CHECKING", "typing.TYPE_CHECKING")


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from target_names(e)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


class Program:
    def __init__(self, root):
        self.root = Path(root)
        self.modules = {}
        self.classes = []
        self.funcs = []  # every function, also nested ones and lambdas are found by walking
        self.by_node = {}
        self.load()
        self.link()

    # -- loading

    def load(self):
        for p in sorted(self.root.rglob("*.py")):
            rel = p.relative_to(self.root)
            parts = [PKG, *rel.with_suffix("").parts]
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts.pop()
            name = ".".join(parts)
            src = p.read_text()
            try:
                tree = ast.parse(src)
            except SyntaxError:
                continue  # does not build
            self.modules[name] = Module(name, Path(PKG) / rel, tree, is_pkg)
        for m in self.modules.values():
            self.collect(m, m.tree.body, m.ns, None, None, True, m)
        for name, m in self.modules.items():  # submodules are attributes of their package once imported
            if "." in name:
                parent, child = name.rsplit(".", 1)
                if parent in self.modules:
                    self.modules[parent].ns.setdefault(child, []).insert(0, m)

    def absolute(self, m, node):
        """Dotted name of the module named in a from-import."""
        if not node.level:
            return node.module
        base = m.name.split(".")
        if not m.is_pkg:
            base = base[:-1]
        base = base[: len(base) - (node.level - 1)]
        return ".".join(base + ([node.module] if node.module else []))

    def collect(self, m, body, ns, cls, func, runtime, owner):
        for s in body:
            self.collect_stmt(m, s, ns, cls, func, runtime, owner)

    def collect_stmt(self, m, s, ns, cls, func, runtime, owner):
        def bind(name, b):
            ns.setdefault(name, []).append(b)
            if not runtime and owner is m:
                m.typing_only.add(name)

        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(m, s, cls if owner is cls else None, func)
            self.add_func(f)
            bind(s.name, f)
        elif isinstance(s, ast.ClassDef):
            c = Class(m, s)
            self.classes.append(c)
            self.by_node[s] = c
            bind(s.name, c)
            self.collect(m, s.body, c.ns, c, None, runtime, c)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            self.collect_import(m, s, bind, func, runtime)
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if isinstance(s, ast.AnnAssign) and s.value is None:
                if isinstance(owner, Class) and isinstance(s.target, ast.Name):
                    owner.fields.append(s.target.id)
                return
            if isinstance(owner, Class) and isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                owner.fields.append(s.target.id)
            for t in targets:
                for n in target_names(t):
                    if not isinstance(s, ast.AugAssign):
                        bind(n, Var(owner, n, s, s.value if isinstance(t, ast.Name) else None))
        elif isinstance(s, ast.If):
            tc = is_type_checking(s.test)
            self.collect(m, s.body, ns, cls, func, runtime and not tc, owner)
            self.collect(m, s.orelse, ns, cls, func, runtime, owner)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if not isinstance(s, ast.While):
                for n in target_names(s.target):
                    bind(n, Var(owner, n, s, None))
            self.collect(m, s.body + s.orelse, ns, cls, func, runtime, owner)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                if i.optional_vars is not None:
                    for n in target_names(i.optional_vars):
                        bind(n, Var(owner, n, s, None))
            self.collect(m, s.body, ns, cls, func, runtime, owner)
        elif isinstance(s, ast.Try):
            self.collect(m, s.body, ns, cls, func, runtime, owner)
            for h in s.handlers:
                self.collect(m, h.body, ns, cls, func, runtime, owner)
            self.collect(m, s.orelse + s.finalbody, ns, cls, func, runtime, owner)

    def collect_import(self, m, s, bind, func, runtime):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name.split(".")[0] == PKG:
                    m.imports.append((a.name, s, runtime, func))
                    bind(a.asname or PKG, ("module", a.name if a.asname else PKG))
                else:
                    bind(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))
            return
        src = self.absolute(m, s)
        if not src or src.split(".")[0] != PKG:
            for a in s.names:
                if src != "__future__":
                    bind(a.asname or a.name, Ext(f"{src}.{a.name}"))
            return
        for a in s.names:
            if a.name == "*":
                m.star.append(src)
                m.imports.append((src, s, runtime, func))
            else:
                sub = f"{src}.{a.name}"
                m.imports.append((sub if sub in self.modules else src, s, runtime, func))
                bind(a.asname or a.name, ("from", src, a.name))

    def add_func(self, f):
        self.funcs.append(f)
        self.by_node[f.node] = f
        for n in own_nodes(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = Func(f.module, n, None, f)
                f.nested[n.name] = g
                self.add_func(g)
            elif isinstance(n, ast.Lambda):
                self.add_func(Func(f.module, n, None, f))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.collect_import(f.module, n, lambda *a: None, f, True)

    # -- linking

    def link(self):
        for m in self.modules.values():
            for src in m.star:
                t = self.modules.get(src)
                if t:
                    for n, b in t.ns.items():
                        if not n.startswith("_"):
                            m.ns.setdefault(n, []).append(("from", src, n))
        for c in self.classes:
            for b in c.node.bases:
                v = self.resolve_expr(c.module, b)
                if isinstance(v, Class):
                    v.subs.append(c)
                    c.bases.append(v)
                elif isinstance(v, Ext):
                    c.bases.append(v)
                else:
                    c.bases.append(Ext(dotted_of(b) or "?"))
        for c in self.classes:
            for n, bs in list(c.ns.items()):
                for k, b in enumerate(bs):
                    if isinstance(b, Var) and b.value is not None:
                        v = self.resolve_expr(c.module, b.value)
                        if isinstance(v, Func):
                            bs[k] = v
                            v.bound_to.append(c)
        for f in self.funcs:
            owners = ([f.cls] if f.cls else []) + f.bound_to
            selfname = f.pos[0] if f.pos else None
            if not owners and f.parent is None and selfname != "self":
                continue
            for n in ast.walk(f.node):
                name = None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == selfname:
                    name = n.attr
                elif isinstance(n, ast.Call) and dotted_of(n.func) in ("object.__setattr__", "setattr") and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and isinstance(n.args[1], ast.Constant):
                    name = n.args[1].value
                if name:
                    for o in owners:
                        o.inst_attrs.add(name)
        # class decorators that set attributes of the class
        for c in self.classes:
            for d in c.node.decorator_list:
                f = self.resolve_expr(c.module, d.func if isinstance(d, ast.Call) else d)
                if isinstance(f, Func):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            c.inst_attrs.add(n.attr)
                        elif isinstance(n, ast.Call) and dotted_of(n.func) in ("object.__setattr__", "setattr") and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                            c.inst_attrs.add(n.args[1].value)

    def deref(self, b, depth=0):
        """Binding -> Module, Class, Func, Var, Ext or None."""
        if depth > 20:
            return None
        if isinstance(b, tuple):
            if b[0] == "module":
                return self.modules.get(b[1])
            _, src, name = b
            m = self.modules.get(src)
            if m is None:
                return None
            if name in m.ns and m.ns[name][-1] != b:
                return self.deref(m.ns[name][-1], depth + 1)
            return self.modules.get(f"{src}.{name}")
        return b

    def lookup(self, m, name):
        if name in m.ns:
            return self.deref(m.ns[name][-1])
        if name in BUILTINS:
            return Ext(f"builtins.{name}")
        return None

    def attr(self, v, name):
        if isinstance(v, Module):
            return self.lookup(v, name) if name in v.ns else None
        if isinstance(v, Ext):
            return Ext(f"{v.dotted}.{name}")
        if isinstance(v, Class):
            b, _ = v.lookup(name)
            return self.deref(b) if b is not None else None
        return None

    def resolve_expr(self, m, e, scope=None):
        """Resolve a chain of names to something static, ignoring locals (unless given in scope)."""
        if isinstance(e, ast.Name):
            if scope is not None and e.id in scope:
                return scope[e.id]
            v = self.lookup(m, e.id)
            if isinstance(v, Var) and isinstance(v.value, (ast.Name, ast.Attribute)):
                w = self.resolve_expr(v.owner if isinstance(v.owner, Module) else v.owner.module, v.value)
                return w if isinstance(w, (Func, Class, Ext)) else v
            return v
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, scope)
            if b is None:
                return None
            v = self.attr(b, e.attr)
            if isinstance(v, Var) and isinstance(v.value, (ast.Name, ast.Attribute)):
                w = self.resolve_expr(v.owner if isinstance(v.owner, Module) else v.owner.module, v.value)
                return w if isinstance(w, (Func, Class, Ext)) else v
            return v
        return None

    def loader(self, name):
        return self.modules.get(name)


def own_nodes(fn):
    """Nodes in the body of a function, not descending into nested functions and lambdas (which are yielded themselves)."""
    body = [fn.body] if isinstance(fn, ast.Lambda) else list(fn.body)
    todo = body[::-1]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += [*n.decorator_list, *n.args.defaults, *[d for d in n.args.kw_defaults if d]]
            continue
        if isinstance(n, ast.Lambda):
            todo += [*n.args.defaults, *[d for d in n.args.kw_defaults if d]]
            continue
        todo += list(ast.iter_child_nodes(n))[::-1]


def locals_of(f):
    """Names bound in the function itself (parameters included), without those declared global or nonlocal."""
    out, away = set(f.params), set()
    for n in own_nodes(f.node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split(".")[0]) for a in n.names}
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            away |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
    comp = set()
    for n in own_nodes(f.node):  # variables of comprehensions are their own
        if isinstance(n, ast.comprehension):
            comp |= set(target_names(n.target))
    if comp:
        stored = set(f.params)
        inside = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.comprehension):
                inside |= {id(x) for x in ast.walk(n.target)}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in inside:
                stored.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                stored.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                stored |= {(a.asname or a.name.split(".")[0]) for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                stored.add(n.name)
        out -= comp - stored
    return out - away
