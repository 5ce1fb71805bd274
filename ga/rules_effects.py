"""G01: functions leave their arguments alone. G03: functions leave global state alone."""

from __future__ import annotations

import ast

from .alias import INIT, Alias
from .model import Class, Ext, Func, Module, Var, dotted_of, own_nodes
from .paths import text
from .public import PUBLIC
from .rules_returns import scope_resolver

CANVAS = ("Axes", "Figure")


def canvas(f, p):
    """Parameters that are documented to be drawn on."""
    ann = f.ann.get(p)
    if ann is not None and any(c in text(ann) for c in CANVAS):
        return True
    return p in ("ax", "axes", "fig", "figure")


def called_in_package(P):
    out = set()
    for f in P.funcs:
        res = scope_resolver(P, f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                v = res(n.func)
                if isinstance(v, Func):
                    out.add(v.qual)
    return out


def G01(rep, P, tier):
    A = Alias(P)
    called = called_in_package(P)
    for f in P.funcs:
        rep.functions.add(f.qual)
        if not f.public or f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        if f.qual not in PUBLIC and (f.qual in called):
            continue  # a helper of the package itself
        if is_decorator(P, f):
            continue
        s = A.sum[f]
        per = {}
        for (root, lv, how), eff in s.mutates.items():
            if root[0] == "p":
                per.setdefault(root[1], {}).setdefault(how, (eff, s.via.get((root, lv, how), ())))
        for p in f.params:
            if canvas(f, p):
                continue
            if f.name in INIT and f.pos and p == f.pos[0]:
                continue
            if p in per:
                for how, (eff, via) in sorted(per[p].items()):
                    rep.violate("arguments stay as they are", f"{f.qual}({p}): {how}", f"argument {p} is changed by {eff.what} in {eff.func.qual}", eff.loc, via)
            else:
                rep.ok("arguments stay as they are")
    return A


def is_decorator(P, f):
    """Functions that are only used as decorators get functions or classes."""
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for d in n.decorator_list:
                    if P.resolve_expr(m, d.func if isinstance(d, ast.Call) else d) is f:
                        return True
    return False


# -- G03

SETTINGS = {
    "numpy.random.seed": "numpy's random state", "random.seed": "the random state", "numpy.seterr": "numpy's error handling", "numpy.seterrcall": "numpy's error handling", "numpy.set_printoptions": "numpy's print options",
    "numpy.random.set_state": "numpy's random state", "random.setstate": "the random state",
    "warnings.filterwarnings": "the warning filters", "warnings.simplefilter": "the warning filters", "warnings.resetwarnings": "the warning filters",
    "pandas.set_option": "pandas options", "pandas.reset_option": "pandas options", "locale.setlocale": "the locale", "os.chdir": "the working directory", "os.putenv": "the environment",
    "os.unsetenv": "the environment", "os.umask": "the umask", "time.tzset": "the time zone", "sys.setrecursionlimit": "the recursion limit", "logging.basicConfig": "logging", "logging.disable": "logging",
    "matplotlib.rc": "matplotlib's settings", "matplotlib.rcdefaults": "matplotlib's settings", "matplotlib.use": "matplotlib's settings", "matplotlib.style.use": "matplotlib's settings",
    "matplotlib.pyplot.rc": "matplotlib's settings", "matplotlib.pyplot.style.use": "matplotlib's settings", "matplotlib.pyplot.switch_backend": "matplotlib's settings", "matplotlib.pyplot.rcdefaults": "matplotlib's settings",
    "pint.set_application_registry": "pint's registry", "gc.disable": "garbage collection", "gc.enable": "garbage collection", "socket.setdefaulttimeout": "sockets", "signal.signal": "signal handlers", "atexit.register": "exit handlers", "colorama.init": "the output streams", "colorama.deinit": "the output streams",
    "decimal.setcontext": "the decimal context", "pandas.api.extensions.register_series_accessor": "pandas classes", "pandas.api.extensions.register_dataframe_accessor": "pandas classes",
}
REMEMBER = ("lru_cache", "cache", "memoize", "memoized", "cached")
REGISTRY = ("define", "load_definitions", "enable_contexts", "disable_contexts", "add_context", "set_fmt_locale")


def import_time_only(P):
    """Functions that are called while importing the package and by no other function of it."""
    at_import, inside = set(), set()
    for m in P.modules.values():
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for d in s.decorator_list:
                    v = P.resolve_expr(m, d.func if isinstance(d, ast.Call) else d)
                    if isinstance(v, Func):
                        at_import.add(v)
                if isinstance(s, ast.ClassDef):
                    for x in s.body:
                        if isinstance(x, ast.FunctionDef):
                            for d in x.decorator_list:
                                v = P.resolve_expr(m, d.func if isinstance(d, ast.Call) else d)
                                if isinstance(v, Func):
                                    at_import.add(v)
                        elif not isinstance(x, ast.ClassDef):
                            at_import |= called_by(P, m, x)
                continue
            at_import |= called_by(P, m, s)
    for f in P.funcs:
        res = scope_resolver(P, f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                v = res(n.func)
                if isinstance(v, Func):
                    inside.add((v, f))
    # helpers of functions that run at import are import-time functions too
    ok = {f for f in at_import if not any(v is f for v, g in inside)}
    changed = True
    while changed:
        changed = False
        for v in {v for v, g in inside} - ok:
            callers = {g for w, g in inside if w is v}
            if callers and all(g in ok for g in callers):
                ok.add(v)
                changed = True
    return ok


def called_by(P, m, s):
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Call):
            v = P.resolve_expr(m, n.func)
            if isinstance(v, Func):
                out.add(v)
    return out


def in_context(f, node, names):
    """The node lies in a with-block of one of these context managers."""
    for n in own_nodes(f.node):
        if isinstance(n, ast.With):
            for i in n.items:
                c = i.context_expr
                d = dotted_of(c.func if isinstance(c, ast.Call) else c) or ""
                if d.split(".")[-1] in names and any(x is node for s in n.body for x in ast.walk(s)):
                    return True
    return False


def example_data(f):
    return f.module.name.startswith("portfolyo.dev")


def G03(rep, P, tier):
    A = Alias(P)
    startup = import_time_only(P)
    for f in P.funcs:
        rep.functions.add(f.qual)
        s = A.sum[f]
        if f in startup or (f.parent is not None and f.parent in startup and not escapes(f)):
            rep.ok("import-time functions")
            continue
        found = False
        for (root, lv, how), eff in s.mutates.items():
            if eff.func is not f and root[0] in ("g", "x") and s.via.get((root, lv, how)) and eff.func.qual in A.P.__dict__:
                continue
            if root[0] == "g":
                found = True
                rep.violate("no state is kept", f"{f.qual}: {root[1]}", f"{root[1]} is changed by {eff.what} when the function is called", eff.loc, s.via.get((root, lv, how), ()))
            elif root[0] == "x":
                found = True
                rep.violate("settings of others", f"{f.qual}: {root[1]}", f"{root[1]}, which belongs to a library, is changed by {eff.what}", eff.loc, s.via.get((root, lv, how), ()))
            elif root[0] == "free" and eff.func is f and escapes(f):
                found = True
                rep.violate("no state is kept", f"{f.qual}: {root[2]}", f"{root[2]} of the enclosing {root[1]} is changed by {eff.what} and survives the call", eff.loc)
        if not found:
            rep.ok("no state is kept")
        globals_and_nonlocals(rep, P, f)
        defaults(rep, P, A, f)
        remembering(rep, P, f)
        settings(rep, P, f)
    return A


def escapes(f):
    """The nested function is returned or stored by the function that defines it."""
    g = f.parent
    if g is None:
        return False
    for n in own_nodes(g.node):
        if isinstance(n, ast.Return) and n.value is not None and any((isinstance(x, ast.Name) and x.id == f.name) or x is f.node for x in ast.walk(n.value)):
            return True
        if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) and any((isinstance(x, ast.Name) and x.id == f.name) for x in ast.walk(n.value)):
            return True
    return False


def globals_and_nonlocals(rep, P, f):
    for n in own_nodes(f.node):
        if isinstance(n, ast.Global):
            for name in n.names:
                if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) for x in own_nodes(f.node)):
                    rep.violate("no state is kept", f"{f.qual}: {f.module.name}.{name}", f"the module variable {name} is assigned when the function is called", f.loc(n))
        elif isinstance(n, ast.Nonlocal) and escapes(f):
            for name in n.names:
                rep.violate("no state is kept", f"{f.qual}: {name}", f"the variable {name} of the enclosing function is assigned and survives the call", f.loc(n))


def mutable_display(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        d = dotted_of(e.func) or ""
        return d.split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque", "DataFrame", "Series", "count", "cycle", "iter")
    return False


def defaults(rep, P, A, f):
    s = A.sum[f]
    for p, d in f.defaults.items():
        if not mutable_display(d):
            rep.ok("default values")
            continue
        hit = [eff for (root, lv, how), eff in s.mutates.items() if root == ("p", p) and lv in ("same", "elem", "data")]
        if hit:
            rep.violate("default values", f"{f.qual}({p})", f"the default value of {p} is changed by {hit[0].what}, and stays changed for later calls", hit[0].loc)
        elif any(r == ("p", p) and lv == "same" and depth == 0 for r, lv, depth in s.returns):
            rep.violate("default values", f"{f.qual}({p})", f"the (mutable) default value of {p} is handed to the caller", f.loc(d))
        else:
            rep.ok("default values")


def remembering(rep, P, f):
    for d, name in zip(f.decorators, f.decs):
        if name.split(".")[-1] in REMEMBER:
            if returns_immutable(P, f):
                rep.ok("remembered results")
            else:
                rep.violate("remembered results", f.qual, f"results are remembered between calls (@{name}); a caller that changes its result changes that of later calls", f.loc())


IMMUTABLE = ("str", "int", "float", "bool", "tuple", "frozenset", "Timestamp", "Timedelta", "BaseOffset", "DateOffset", "Unit", "Kind", "Structure", "time", "date")


def returns_immutable(P, f):
    ann = f.node.returns
    if ann is None:
        return False
    parts = []

    def walk(a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            a = ast.parse(a.value, mode="eval").body
        if isinstance(a, ast.BinOp):
            walk(a.left)
            walk(a.right)
        else:
            parts.append((dotted_of(a.value if isinstance(a, ast.Subscript) else a) or "?").split(".")[-1])

    walk(ann)
    return all(x in IMMUTABLE or x == "None" for x in parts)


def settings(rep, P, f):
    res = scope_resolver(P, f)
    for n in own_nodes(f.node):
        if not isinstance(n, ast.Call):
            continue
        v = res(n.func)
        if isinstance(v, Ext) and v.dotted in SETTINGS:
            if v.dotted.startswith("warnings.") and in_context(f, n, ("catch_warnings",)):
                rep.ok("settings of others")
                continue
            if example_data(f) and "random" in v.dotted:
                rep.ok("settings of others")
                continue
            rep.violate("settings of others", f"{f.qual}: {v.dotted}", f"changes {SETTINGS[v.dotted]} of the whole process", f.loc(n))
        elif isinstance(n.func, ast.Attribute) and n.func.attr in REGISTRY:
            b = res(n.func.value)
            if isinstance(b, (Var, Ext)):
                rep.violate("settings of others", f"{f.qual}: {text(n.func)}", "changes the unit registry of the whole process", f.loc(n))
        elif isinstance(v, Ext):
            rep.ok("settings of others")
