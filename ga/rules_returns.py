"""G06: a function that returns a value on one path does so on every path, and errors are not discarded."""

from __future__ import annotations

import ast

from .model import Class, Ext, Func, Var, dotted_of, locals_of, own_nodes
from .paths import State, Walker, text


def scope_resolver(P, f):
    """Resolve names in a function; local names only if they are never anything but one function-level import."""
    loc = set()
    g = f
    while g is not None:
        loc |= locals_of(g) - ({n for n in g.nested} if g is f else set())
        g = g.parent
    imports = local_imports(P, f)

    def resolve(e):
        b = e
        while isinstance(b, ast.Attribute):
            b = b.value
        if isinstance(b, ast.Name) and b.id in loc:
            if b.id in imports:
                return P.resolve_expr(f.module, e, imports)
            return None
        if isinstance(b, ast.Name):
            g = f
            while g is not None:
                if b.id in g.nested:
                    return g.nested[b.id] if e is b else None
                g = g.parent
        return P.resolve_expr(f.module, e)

    return resolve


def local_imports(P, f):
    out = {}
    g = f
    while g is not None:
        for n in own_nodes(g.node):
            if isinstance(n, ast.ImportFrom):
                src = P.absolute(f.module, n)
                for a in n.names:
                    if src and src.split(".")[0] == "portfolyo":
                        m = P.modules.get(f"{src}.{a.name}")
                        if m is None and src in P.modules:
                            m = P.lookup(P.modules[src], a.name)
                        out.setdefault(a.asname or a.name, m)
                    else:
                        out.setdefault(a.asname or a.name, Ext(f"{src}.{a.name}"))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == "portfolyo":
                        out.setdefault(a.asname or "portfolyo", P.modules.get(a.name if a.asname else "portfolyo"))
                    else:
                        out.setdefault(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))
        g = g.parent
    # a name that is also assigned in another way is not resolved
    for g in [f]:
        for n in own_nodes(g.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in out:
                out[n.id] = None
    return {k: v for k, v in out.items() if v is not None}


def is_generator(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node))


def is_stub(f):
    body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or all(isinstance(s, ast.Pass) for s in body)


def is_none(e):
    return e is None or (isinstance(e, ast.Constant) and e.value is None)


def may_be_none(ann):
    """The annotation allows None."""
    if ann is None:
        return False
    if isinstance(ann, ast.Constant):
        if ann.value is None:
            return True
        if isinstance(ann.value, str):
            try:
                return may_be_none(ast.parse(ann.value, mode="eval").body)
            except SyntaxError:
                return False
        return False
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        return may_be_none(ann.left) or may_be_none(ann.right)
    d = dotted_of(ann.value if isinstance(ann, ast.Subscript) else ann) or ""
    if d.split(".")[-1] == "Optional":
        return True
    if d.split(".")[-1] == "Union":
        s = ann.slice
        return any(may_be_none(x) for x in (s.elts if isinstance(s, ast.Tuple) else [s]))
    return d.split(".")[-1] in ("Any", "NoReturn", "Never")


class Returns:
    """What every function of the program can return."""

    def __init__(self, P):
        self.P = P
        self.noreturn = set()
        self.outs = {}
        for _ in range(4):
            before = len(self.noreturn)
            for f in P.funcs:
                self.outs[f] = o, w = self.walk(f)
                if not o.falls and not o.returns and not is_generator(f) and not f.is_abstract and not is_stub(f):
                    self.noreturn.add(f)
            if len(self.noreturn) == before:
                break

    def walk(self, f):
        res = scope_resolver(self.P, f)

        def noreturn(call):
            d = dotted_of(call.func)
            if d in ("sys.exit", "exit", "os._exit"):
                return True
            v = res(call.func)
            if v is None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and f.pos and call.func.value.id == f.pos[0] and f.cls:
                v, _ = f.cls.lookup(call.func.attr)
            return isinstance(v, Func) and v in self.noreturn and not any(isinstance(g, Func) and g.name == v.name and g is not v and g not in self.noreturn for g in overriding(v))

        w = Walker(res, noreturn, locals_of(f))
        o = w.block(f.body, [State(frozenset(), frozenset(f.params))])
        return o, w

    def value_returns(self, f):
        return [(s, v, x) for s, v, x in self.outs[f][0].returns if not is_none(v)]

    def kind(self, f):
        """'value', 'none' or 'never'"""
        if f in self.noreturn:
            return "never"
        if is_generator(f) or self.value_returns(f):
            return "value"
        return "none"


def overriding(f):
    for c in ([f.cls] if f.cls else []) + f.bound_to:
        for d in c.descendants():
            for b in d.ns.get(f.name, []):
                yield b


def wrapper_of(P, f):
    """Decorators that replace the function by another one are looked through: they are analysed themselves."""
    return f


SWALLOW_OK = ("ImportError", "ModuleNotFoundError", "StopIteration", "KeyboardInterrupt")


def G06(rep, P, tier):
    R = Returns(P)
    nfun = 0
    for f in P.funcs:
        if f.is_overload or f.is_abstract or isinstance(f.node, ast.Lambda):
            continue
        nfun += 1
        rep.functions.add(f.qual)
        o, w = R.outs[f]
        rep.paths += len(o.returns) + len(o.falls) + len(o.raises)
        ann = f.node.returns
        values = R.value_returns(f)
        what = f.qual
        if not w.precise:
            rep.undecide("every path returns", what, "too many paths")
        elif values and not is_generator(f):
            explicit = [(s, x) for s, v, x in o.returns if is_none(v) and not none_for_none(f, x)]
            if explicit and all(v is not None for s, v, x in o.returns if is_none(v)) and nullable_helper(P, f):
                explicit = []
            if (o.falls or explicit) and not may_be_none(ann) and f.name != "_missing_":
                where = explicit[0][0] if explicit else f.node
                st = (o.falls or [x for s, x in explicit])[0]
                rep.violate("every path returns", what, f"returns a value in line {values[0][0].lineno}, but can also end without returning one", f.loc(where), cond=describe(st))
            else:
                rep.ok("every path returns")
        elif ann is not None and not may_be_none(ann) and not is_generator(f) and not is_stub(f) and f not in R.noreturn and f.name not in ("__init__", "__post_init__"):
            rep.violate("every path returns", what, f"is declared to return {text(ann)} but never returns a value", f.loc())
        else:
            rep.ok("every path returns")
        optional(rep, P, R, f, values, ann)
        statements(rep, P, R, f)
        handlers(rep, P, R, f)
    for m in P.modules.values():
        for s in m.tree.body:
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    one_handler(rep, P, R, None, m, s, h)
    return nfun


def none_for_none(f, st):
    """None is returned because None was passed."""
    return any(k[0] == "eq" and k[2][1:] == ("NoneType", "None") and v and k[1] in f.params for k, v in st.facts)


def nullable_helper(P, f):
    """A helper that says explicitly that it found nothing; everyone who calls it tests for that."""
    if f.parent is None and (f.public or f.cls):
        return False
    sites = 0
    for g in P.funcs:
        if g.module is not f.module:
            continue
        tested = {x for n in own_nodes(g.node) for x in tests_none(n)}
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name:
                sites += 1
                if not any(c is n for t in tested_nodes(g) for c in ast.walk(t)):
                    names = [t.id for m in own_nodes(g.node) if isinstance(m, ast.Assign) and m.value is n for t in m.targets if isinstance(t, ast.Name)]
                    names += [m.target.id for m in own_nodes(g.node) if isinstance(m, ast.NamedExpr) and m.value is n]
                    if not names or not all(x in tested for x in names):
                        return False
    return sites > 0


def tested_nodes(g):
    for n in own_nodes(g.node):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.test
        elif isinstance(n, ast.comprehension):
            yield from n.ifs
        elif isinstance(n, ast.BoolOp):
            yield n
        elif isinstance(n, ast.Compare):
            yield n


def tests_none(n):
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        for x in ast.walk(n.test):
            if isinstance(x, ast.Name):
                yield x.id


def describe(st):
    parts = []
    for k, v in sorted(st.facts, key=str):
        n = {"eq": lambda: f"{k[1]} == {k[2][2]}", "same": lambda: f"{k[1]} is {k[2]}", "lt": lambda: f"{k[1]} < {k[2]}", "isa": lambda: f"isinstance({k[1]}, {k[2]})", "cond": lambda: k[1]}[k[0]]()
        parts.append(("" if v else "not ") + f"({n})")
    return "; ".join(parts)[:400]


def optional(rep, P, R, f, values, ann):
    """A lookup without default that is returned as it is."""
    if may_be_none(ann) or f.name == "_missing_":
        return
    helper = ann is None and (f.parent is not None or nullable_helper(P, f))
    res = scope_resolver(P, f)
    defs = single_assignments(f)
    for s, v, st in {id(v): (s, v, st) for s, v, st in values}.values():
        e = v
        if isinstance(e, ast.Name) and e.id in defs:
            e = defs[e.id]
        c = e
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "get" and len(c.args) == 1 and not c.keywords:
            if isinstance(v, ast.Name) and any((k == ("eq", v.id, ("lit", "NoneType", "None")) and not val) or (k == ("cond", v.id) and val) for k, val in st.facts):
                rep.ok("lookups")
                continue
            if helper:
                rep.ok("lookups")
                continue
            ok, why = exhaustive(P, R, f, c, defs, res)
            if ok:
                rep.ok("lookups")
            else:
                rep.violate("lookups", f"{f.qual}: {text(c)}", f"the result of a lookup that can be None is returned{why}", f.loc(s))
        elif isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "getattr" and len(c.args) == 3 and is_none(c.args[2]) and not helper:
            rep.violate("lookups", f"{f.qual}: {text(c)}", "an attribute that can be missing is returned as None", f.loc(s))
        elif isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "next" and len(c.args) == 2 and is_none(c.args[1]) and not helper:
            rep.violate("lookups", f"{f.qual}: {text(c)}", "a search that can fail is returned as None", f.loc(s))
        elif isinstance(c, ast.Call):
            g = res(c.func)
            if isinstance(g, Func) and not g.is_property and not g.decorators and R.kind(g) == "none" and not g.is_abstract and not is_stub(g):
                rep.violate("lookups", f"{f.qual}: {text(c)[:60]}", f"returns the result of {g.qual}, which never returns a value", f.loc(s))


def single_assignments(f):
    """Local variables with exactly one assignment, of the form name = value."""
    stores, out = {}, {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            out[n.targets[0].id] = n.value
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            out[n.target.id] = n.value
    return {k: v for k, v in out.items() if stores.get(k) == 1 and k not in f.params}


def exhaustive(P, R, f, call, defs, res):
    """The dictionary that is looked up has an entry for every combination of members of the enumerations in its keys."""
    d = call.func.value
    if isinstance(d, ast.Name) and d.id in defs:
        d = defs[d.id]
    elif isinstance(d, (ast.Name, ast.Attribute)):
        v = res(d)
        if isinstance(v, Var):
            d = v.value
    if not isinstance(d, ast.Dict) or any(k is None for k in d.keys):
        return False, ""
    w = Walker(res)
    w2 = None
    keys, enums = set(), None
    for k in d.keys:
        parts = k.elts if isinstance(k, ast.Tuple) else [k]
        cs = []
        for p in parts:
            c = w.const(p) or imported_member(P, f, p)
            cs.append(c)
        if not all(c and c[0] == "enum" for c in cs):
            return False, ""
        t = tuple((c[1], c[3]) for c in cs)
        if enums is None:
            enums = t
        elif enums != t:
            return False, ""
        keys.add(tuple(c[2] for c in cs))
    n = 1
    for _, members in enums or ():
        n *= len(members)
    if enums and len(keys) == n:
        return True, ""
    import itertools

    missing = [m for m in itertools.product(*[ms for _, ms in enums or ()]) if m not in keys]
    return False, f" (no entry for {', '.join('/'.join(m) for m in missing[:4])})"


def imported_member(P, f, p):
    return None


def statements(rep, P, R, f):
    res = scope_resolver(P, f)
    for n in own_nodes(f.node):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            v = res(n.value.func)
            if is_exception(v):
                rep.violate("errors are raised", f"{f.qual}: {text(n.value.func)}", "an error is created but not raised", f.loc(n))
            elif isinstance(v, Func) and not v.decorators and R.kind(v) == "value" and v.name not in ("__init__",) and not writes_arguments(v):
                rep.violate("results are used", f"{f.qual}: {text(n.value)[:60]}", f"the result of {v.qual} is discarded", f.loc(n))
            else:
                rep.ok("errors are raised")
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and is_exception(res(n.value.func)):
            rep.violate("errors are raised", f"{f.qual}: {text(n.value.func)}", "an error is returned instead of raised", f.loc(n))
        elif isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call):
            v = res(n.value.func)
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if is_exception(v) and isinstance(t, ast.Name) and not any(isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load) for x in ast.walk(f.node)):
                rep.violate("errors are raised", f"{f.qual}: {text(n.value.func)}", "an error is created but not raised", f.loc(n))
            elif isinstance(v, Func) and not v.decorators and R.kind(v) == "none" and not v.is_abstract and not is_stub(v):
                rep.violate("results are used", f"{f.qual}: {text(n.value)[:60]}", f"uses the result of {v.qual}, which never returns a value", f.loc(n))


def is_exception(v):
    if isinstance(v, Class):
        return any(is_exception(c) for c in v.mro() if isinstance(c, Ext))
    if isinstance(v, Ext) and v.dotted.startswith("builtins."):
        import builtins

        b = getattr(builtins, v.dotted[9:], None)
        return isinstance(b, type) and issubclass(b, BaseException) and not issubclass(b, Warning)
    if isinstance(v, Ext):
        return v.dotted.split(".")[-1].endswith("Error")
    return False


def writes_arguments(f):
    """The function visibly acts on its arguments (or on a figure), so calling it as a statement makes sense."""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in f.params:
            return True
    return False


def handlers(rep, P, R, f):
    for n in own_nodes(f.node):
        if isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
            for h in n.handlers:
                one_handler(rep, P, R, f, f.module, n, h)
            for s in n.finalbody:
                for x in ast.walk(s):
                    if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                        rep.violate("errors are not discarded", f"{f.qual}: finally", "leaving a finally-block discards the error that is being raised", f.loc(x))
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                e = i.context_expr
                if isinstance(e, ast.Call) and (dotted_of(e.func) or "").split(".")[-1] == "suppress":
                    names = [dotted_of(a) or "?" for a in e.args]
                    if any(x in ("Exception", "BaseException") for x in names) or raising_calls(P, R, f, n.body):
                        rep.violate("errors are not discarded", f"{f.qual}: {text(e)}", "errors of the calls in the block are discarded", f.loc(n))


def raising_calls(P, R, f, body):
    """Calls of own functions that do nothing but check (they can raise and never return a value)."""
    res = scope_resolver(P, f) if f else (lambda e: None)
    out = []
    for s in body:
        for c in ast.walk(s):
            if isinstance(c, ast.Call):
                v = res(c.func)
                if isinstance(v, Func) and R.kind(v) in ("none", "never") and any(isinstance(x, ast.Raise) for x in ast.walk(v.node)):
                    out.append(v)
    return out


def one_handler(rep, P, R, f, m, t, h):
    where = f.qual if f else m.name
    types = [dotted_of(x) or "?" for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["(all)"]
    short = [x.split(".")[-1] for x in types]
    what = f"{where}: except {', '.join(short)}"
    w = Walker((lambda e: None) if f is None else scope_resolver(P, f), lambda c: f is not None and isinstance(scope_resolver(P, f)(c.func), Func) and scope_resolver(P, f)(c.func) in R.noreturn)
    o = w.block(h.body, [State()])
    silent = bool(o.falls or o.returns or o.breaks or o.continues)
    uses = h.name and any(isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Load) for s in h.body for x in ast.walk(s))
    if not silent or uses or any(x in SWALLOW_OK for x in short):
        rep.ok("errors are not discarded")
        return
    loc = (m.rel, h.lineno)
    if "(all)" in short or "Exception" in short or "BaseException" in short:
        rep.violate("errors are not discarded", what, "every error is caught and discarded", loc)
        return
    bad = raising_calls(P, R, f, t.body)
    signal = all(not is_none(v) for s, v, x in o.returns) and not o.falls and not o.continues  # the outcome of the check is the result
    if bad and not signal:
        rep.violate("errors are not discarded", what, f"the error raised by the check {bad[0].qual} is discarded", loc)
        return
    if not signal and any(isinstance(x, ast.Raise) for s in t.body for x in ast.walk(s)):
        rep.violate("errors are not discarded", what, "an error raised in the block itself is discarded", loc)
        return
    rep.ok("errors are not discarded")
