"""G05: names are defined where they are used, attributes exist, calls match signatures, classes are complete."""

from __future__ import annotations

import ast
import sys

from .model import BUILTINS, Class, Ext, Func, Module, Var, dotted_of, locals_of, own_nodes
from .paths import State, Walker, text
from .rules_returns import Returns, scope_resolver
from .types import Types, ext_has


def G05(rep, P, tier):
    R = Returns(P)
    Ty = Types(P)
    strings = {n.value for m in P.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    for m in P.modules.values():
        module_names(rep, P, m)
        imports(rep, P, m)
    for f in P.funcs:
        rep.functions.add(f.qual)
        names(rep, P, R, f)
        attributes(rep, P, Ty, f, strings)
        calls(rep, P, Ty, f)
    for m in P.modules.values():
        static_attributes(rep, P, m)
    for c in P.classes:
        complete(rep, P, R, c)
    return len(P.funcs)


# -- names


def enclosing(f):
    g = f.parent
    while g is not None:
        yield g
        g = g.parent


def names(rep, P, R, f):
    loc = locals_of(f)
    outer = set()
    for g in enclosing(f):
        outer |= locals_of(g)
    bad = {}
    count = [0]

    def use(node, name, states):
        count[0] += 1
        if name in loc:
            if name in f.params and all(name in s.bound for s in states):
                return
            miss = [s for s in states if name not in s.bound]
            if miss:
                bad.setdefault(("unbound", name), (node, miss[0]))
        elif name in outer or name in P.modules[f.module.name].ns or name in BUILTINS:
            if name in f.module.typing_only and name not in outer and len(f.module.ns[name]) == 1:
                bad.setdefault(("typing", name), (node, None))
        elif f.cls and False:
            pass
        else:
            bad.setdefault(("undefined", name), (node, None))

    w = Walker(scope_resolver(P, f), lambda c: False, loc, use)
    # functions that never return end a path too
    w.noreturn = lambda call: isinstance(w.resolve(call.func), Func) and w.resolve(call.func) in R.noreturn
    w.block(f.body, [State(frozenset(), frozenset(f.params))])
    rep.ok("names", max(1, count[0] - len(bad)))
    for (kind, name), (node, st) in bad.items():
        if kind == "unbound":
            if not w.precise:
                rep.undecide("names", f"{f.qual}: {name}", "too many paths")
                continue
            from .rules_returns import describe

            rep.violate("names", f"{f.qual}: {name}", f"local variable {name} is used, but is not assigned on every path", f.loc(node), cond=describe(st))
        elif kind == "typing":
            rep.violate("names", f"{f.qual}: {name}", f"{name} is only imported for type checking, but used at runtime", f.loc(node))
        else:
            rep.violate("names", f"{f.qual}: {name}", f"name {name} is not defined", f.loc(node))
    # defaults, decorators and (without postponed evaluation) annotations are evaluated where the function is defined
    if f.parent is None:
        scope = f.cls.ns if f.cls else {}
        a = f.node.args
        es = list(a.defaults) + [d for d in a.kw_defaults if d] + ([] if isinstance(f.node, ast.Lambda) else list(f.node.decorator_list))
        if not postponed(f.module) and not isinstance(f.node, ast.Lambda):
            es += [x for x in list(f.ann.values()) + [f.node.returns] if x is not None]
        for e in es:
            for n in free_names(e):
                if n.id not in scope and n.id not in f.module.ns and n.id not in BUILTINS:
                    rep.violate("names", f"{f.qual}: {n.id}", f"name {n.id} is not defined", f.loc(n))
                elif n.id in f.module.typing_only and n.id not in scope and len(f.module.ns[n.id]) == 1:
                    rep.violate("names", f"{f.qual}: {n.id}", f"{n.id} is only imported for type checking, but used at runtime", f.loc(n))


def free_names(e):
    bound = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Lambda):
            bound |= {x.arg for x in n.args.args + n.args.kwonlyargs}
        elif isinstance(n, ast.comprehension):
            bound |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    return [n for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound]


def postponed(m):
    return any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)


def module_names(rep, P, m):
    """Statements of the module itself, in order."""
    bad = {}
    n = [0]
    stars = set()
    for src in m.star:
        t = P.modules.get(src)
        if t:
            stars |= {x for x in t.ns if not x.startswith("_")}

    def use(node, name, states):
        n[0] += 1
        if name in BUILTINS or name in stars:
            return
        if name not in m.ns:
            bad.setdefault(name, (node, f"name {name} is not defined"))
        elif any(name not in s.bound for s in states):
            bad.setdefault(name, (node, f"name {name} is used before it is defined"))
        elif name in m.typing_only and len(m.ns[name]) == 1:
            bad.setdefault(name, (node, f"{name} is only imported for type checking, but used at runtime"))

    w = Walker(lambda e: P.resolve_expr(m, e), on_use=use, annotations=not postponed(m))
    w.block(m.tree.body, [State(frozenset(), frozenset(x for x in m.ns if isinstance(m.ns[x][0], Module)))])
    rep.ok("names", max(1, n[0]))
    for name, (node, msg) in bad.items():
        rep.violate("names", f"{m.name}: {name}", msg, (m.rel, node.lineno))
    for c in P.classes:
        if c.module is m:
            for s in c.node.body:
                for e in ([s.value] if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None else []) + ([s.annotation] if isinstance(s, ast.AnnAssign) and not postponed(m) else []):
                    for x in free_names(e):
                        if x.id not in c.ns and x.id not in m.ns and x.id not in BUILTINS:
                            rep.violate("names", f"{c.name}: {x.id}", f"name {x.id} is not defined", (m.rel, x.lineno))
                        else:
                            rep.ok("names")


def imports(rep, P, m):
    """Everything that is imported from the package exists."""
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            src = P.absolute(m, n)
            if not src or src.split(".")[0] != "portfolyo":
                if src and src.split(".")[0] != "__future__":
                    for a in n.names:
                        if a.name != "*" and ext_has(src, a.name) is False and ext_module(f"{src}.{a.name}") is False:
                            rep.violate("imports", f"{m.name}: {src}.{a.name}", f"{src} has no {a.name}", (m.rel, n.lineno))
                        else:
                            rep.ok("imports")
                continue
            t = P.modules.get(src)
            for a in n.names:
                if t is None or (a.name != "*" and a.name not in t.ns and f"{src}.{a.name}" not in P.modules):
                    rep.violate("imports", f"{m.name}: {src}.{a.name}", f"{src} has no {a.name}", (m.rel, n.lineno))
                else:
                    rep.ok("imports")
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == "portfolyo" and a.name not in P.modules:
                    rep.violate("imports", f"{m.name}: {a.name}", f"module {a.name} does not exist", (m.rel, n.lineno))


def ext_module(dotted):
    top = dotted.split(".")[0]
    if top in sys.stdlib_module_names:
        import importlib.util

        try:
            return importlib.util.find_spec(dotted) is not None
        except Exception:
            return False
    from sa.apinames import NAMES

    return dotted in NAMES or None


# -- attributes


def static_attributes(rep, P, m):
    """Attributes of modules, classes and libraries, everywhere in the module."""
    seen = set()

    def visit(node, f):
        for n in ast.iter_child_nodes(node):
            g = P.by_node.get(n) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) else None
            if g is not None and isinstance(g, Func):
                visit(n, g)
                continue
            if postponed(m) and (isinstance(node, ast.arg) or (isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is node.returns)):
                continue
            if isinstance(n, ast.AnnAssign) and postponed(m):
                visit_annotation(n.annotation)
                if n.value is not None:
                    check(n.value, f)
                    visit(n.value, f)
                visit(n.target, f)
                continue
            check(n, f)
            visit(n, f)

    def visit_annotation(a):
        pass

    def check(n, f):
        if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
            return
        res = scope_resolver(P, f) if f else (lambda e: P.resolve_expr(m, e))
        b = res(n.value)
        if b is None:
            return
        ok = None
        if isinstance(b, Module):
            ok = n.attr in b.ns or n.attr in ("__name__", "__file__", "__doc__", "__path__", "__version__", "__dict__")
            if ok and n.attr in b.typing_only and len(b.ns[n.attr]) == 1:
                ok = False
            what = b.name
        elif isinstance(b, Ext):
            ok = ext_has(b.dotted, n.attr)
            what = b.dotted
        elif isinstance(b, Class):
            names, complete_ = Types(P).class_names(b)
            if b.is_enum:
                names = names | {"__members__"}
            ok = True if n.attr in names else (False if complete_ else None)
            what = b.name
        else:
            return
        if ok is None:
            return
        key = f"{(f.qual if f else m.name)}: {text(n)}"
        if ok:
            rep.ok("attributes")
        elif key not in seen:
            seen.add(key)
            if f is not None and guarded(f, n.value, n.attr):
                return
            rep.violate("attributes", key, f"{what} has no attribute {n.attr}", (m.rel, n.lineno))

    visit(m.tree, None)


def guarded(f, base, attr):
    """A hasattr test or a handler for AttributeError in the function."""
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1:
            if text(n.args[0]) == text(base):
                return True
        if isinstance(n, ast.ExceptHandler) and n.type is not None and "AttributeError" in text(n.type):
            return True
    return False


def attributes(rep, P, Ty, f, strings):
    done = set()
    for n in own_nodes(f.node):
        if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
            continue
        ts = Ty.infer(f, n.value)
        if not ts:
            continue
        for t in ts:
            ok = Ty.has_attr(t, n.attr)
            if ok is None:
                continue
            if not ok and t.kind == "ext" and n.attr in strings:
                continue  # may be the name of a column
            if not ok and (guarded(f, n.value, n.attr) or narrowed(f, n)):
                continue
            key = f"{f.qual}: {text(n)[-80:]}"
            if ok:
                rep.ok("attributes")
            elif key not in done:
                done.add(key)
                rep.violate("attributes", key, f"an object of type {t.name} has no attribute {n.attr}", f.loc(n))
    # self, in each of the concrete classes
    own_self(rep, P, Ty, f)


def narrowed(f, n):
    return False


def concrete(c):
    return [d for d in c.descendants() if not d.subs]


def own_self(rep, P, Ty, f):
    owners = f.bound_to or ([f.cls] if f.cls else [])
    if not owners or f.is_static or not f.pos or f.parent is not None or f.pos[0] != "self":
        return
    me = f.pos[0]
    if me in Ty.fctx(f)[2]:
        return  # the class is tested in the function
    if f.name == "__new__" or any(isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store) for n in own_nodes(f.node)):
        return
    seen = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
            if n.attr in seen:
                continue
            seen.add(n.attr)
            for o in owners:
                for d in concrete(o):
                    if not inherits(P, d, f):
                        continue
                    names, complete_ = Ty.class_names(d)
                    if n.attr in names:
                        rep.ok("attributes of self")
                    elif complete_ and not guarded(f, n.value, n.attr):
                        rep.violate("attributes of self", f"{f.qual}: {text(n)}", f"{d.name} has no attribute {n.attr}", f.loc(n))


def inherits(P, d, f):
    """The class uses this very function under its name (not an overriding one)."""
    for name, bs in [(nm, b) for c in d.mro() if isinstance(c, Class) for nm, b in c.ns.items()]:
        if f in bs:
            b, _ = d.lookup(name)
            if b is f:
                return True
            # called through super() or the name of the class
    return False


# -- calls


def calls(rep, P, Ty, f):
    res = scope_resolver(P, f)
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            for target, skip, label in targets(P, Ty, f, res, n):
                msg = mismatch(target, n, skip)
                if msg is None:
                    rep.ok("calls")
                elif msg:
                    rep.violate("calls", f"{f.qual}: {text(n.func)} -> {label}", msg, f.loc(n))


def targets(P, Ty, f, res, call):
    """Functions of the package that a call can end up in: (function, leading parameters already bound, label)."""
    v = res(call.func)
    if isinstance(v, Func):
        if not opaque_decorator(v):
            if isinstance(call.func, ast.Attribute) and isinstance(res(call.func.value), Class):
                bound = 1 if v.has_dec("classmethod") else 0
            else:
                bound = 0
            yield v, bound, v.qual
        return
    if isinstance(v, Class):
        yield from constructor(P, v)
        return
    if isinstance(call.func, ast.Attribute):
        ts = Ty.infer(f, call.func.value)
        for t in ts or ():
            if t.kind == "inst":
                seen = set()
                for d in concrete(t.what):
                    b, c = d.lookup(call.func.attr)
                    b = P.deref(b) if b is not None else None
                    if isinstance(b, Func) and b not in seen and not b.is_property and not opaque_decorator(b):
                        seen.add(b)
                        yield b, 0 if b.is_static else 1, f"{d.name}.{call.func.attr}"


def constructor(P, c):
    if c.is_enum:
        return
    init, owner = c.lookup("__init__")
    new, _ = c.lookup("__new__")
    if isinstance(init, Func) and isinstance(new, Func):
        return
    for d in c.node.decorator_list:
        nm = dotted_of(d.func if isinstance(d, ast.Call) else d) or ""
        if nm.split(".")[-1] != "dataclass":
            return
    if isinstance(new, Func):
        if not opaque_decorator(new):
            yield new, 1, f"{c.name}"
        return
    if isinstance(init, Func):
        if not opaque_decorator(init):
            yield init, 1, c.name
        return
    if c.is_dataclass:
        yield ("dataclass", c), 0, c.name


def opaque_decorator(v):
    return any(d.split(".")[-1] not in ("staticmethod", "classmethod", "append_to_doc", "abstractmethod", "overload") for d in v.decs if True) and not transparent(v)


def transparent(v):
    return False


def mismatch(target, call, bound):
    """None: fits; '' unknown; otherwise a complaint."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    kws = [k.arg for k in call.keywords if k.arg is not None]
    npos = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if isinstance(target, tuple):
        c = target[1]
        fields, required = [], []
        for x in reversed([x for x in c.mro() if isinstance(x, Class) and x.is_dataclass]):
            for s in x.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id not in fields:
                    if "ClassVar" in text(s.annotation):
                        continue
                    if isinstance(s.value, ast.Call) and any(k.arg == "init" for k in s.value.keywords):
                        continue
                    fields.append(s.target.id)
                    if s.value is None:
                        required.append(s.target.id)
        pos, kwonly, vararg, kwarg = fields, [], None, None
    else:
        pos, kwonly, vararg, kwarg = target.pos[bound:], target.kwonly, target.vararg, target.kwarg
        required = [p for p in pos + kwonly if p not in target.defaults]
    if npos > len(pos) and not vararg:
        return f"{npos} positional arguments for {len(pos)} parameters"
    for k in kws:
        if k not in pos and k not in kwonly and not kwarg:
            return f"unknown argument {k}"
        if k in pos and pos.index(k) < npos:
            return f"argument {k} given twice"
    if star:
        return None
    missing = [p for i, p in enumerate(pos) if i >= npos and p in required and p not in kws] + [p for p in kwonly if p in required and p not in kws]
    if missing:
        return f"argument {missing[0]} is missing"
    return None


# -- completeness of classes


def complete(rep, P, R, c):
    """A class without subclasses implements what it inherits as abstract."""
    if c.subs:
        return
    todo = set()
    for x in c.mro():
        if isinstance(x, Class):
            for n, bs in x.ns.items():
                if any(isinstance(P.deref(b), Func) and P.deref(b).is_abstract for b in bs):
                    todo.add(n)
    for n in sorted(todo):
        b, owner = c.lookup(n)
        b = P.deref(b)
        if isinstance(b, Func) and b.is_abstract:
            rep.violate("interface", f"{c.name}: {n}", f"{n} is declared in {owner.name} but not implemented", (c.module.rel, c.node.lineno))
        else:
            rep.ok("interface")
