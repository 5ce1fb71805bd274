"""G04: every parameter has influence, and options are passed on.

Influence is decided by strong liveness: a variable matters at a point if its value can reach a result, an effect on an object or
canvas, or a condition that decides between such things; arguments count only if the parameter that receives them has influence."""

from __future__ import annotations

import ast

from .model import Class, Ext, Func, dotted_of, locals_of, own_nodes
from .paths import text
from .public import PUBLIC
from .rules_names import targets
from .rules_returns import is_stub, scope_resolver
from .types import Types

VALIDATE = ("assert_", "_assert", "check_", "_check", "validate", "_validate")


class Influence:
    def __init__(self, P):
        self.P = P
        self.Ty = Types(P)
        self.live = {f: set() for f in P.funcs}
        self.calls = {}  # id(call) -> [(function, bound)]
        self.res = {f: scope_resolver(P, f) for f in P.funcs}
        for f in P.funcs:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    self.calls[id(n)] = [(t, b, l) for t, b, l in targets(P, self.Ty, f, self.res[f], n) if isinstance(t, Func)]
        self.impl = {}
        for f in P.funcs:
            self.impl.setdefault(f, {f})
        changed = True
        while changed:
            changed = False
            for f in P.funcs:
                got = Live(self, f).run()
                if got - self.live[f]:
                    self.live[f] |= got
                    changed = True

    def matters(self, t, p):
        return p in self.live[t]


class Live:
    def __init__(self, I, f):
        self.I, self.f = I, f
        body = [] if isinstance(f.node, ast.Lambda) else [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        self.validator = not any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None for n in own_nodes(f.node))
        self.raises = bool(body) and isinstance(body[-1], ast.Raise) and self.validator

    def run(self):
        f = self.f
        if isinstance(f.node, ast.Lambda):
            return self.uses(f.node.body)
        live, _ = self.block(f.node.body, frozenset(), Ctx())
        return set(live)

    # every function returns (live before, relevant)

    def block(self, body, out, ctx):
        live, rel = frozenset(out), False
        for s in reversed(body):
            live, r = self.stmt(s, live, ctx)
            rel |= r
        return live, rel

    def stmt(self, s, out, ctx):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if s.name in out:
                g = self.f.nested.get(s.name)
                free = names_loaded(s) if g is None else (self.I.live.get(g, set()) - set(g.params)) | names_in_head(s)
                own = set(g.params) if g is not None else set()
                return (out - {s.name}) | frozenset(free - own), True
            return out, False
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return out, False
        if isinstance(s, ast.ClassDef):
            return out | names_loaded(s), True
        if isinstance(s, ast.Return):
            return (frozenset(self.uses(s.value)) if s.value is not None else frozenset()), True
        if isinstance(s, ast.Raise):
            return (frozenset(self.uses(s.exc)) if self.raises and s.exc is not None else frozenset()), True
        if isinstance(s, ast.Break):
            return ctx.brk, True
        if isinstance(s, ast.Continue):
            return ctx.cont, True
        if isinstance(s, ast.Assert):
            if self.validator:
                return out | self.uses(s.test), True
            return out | walrus_uses(self, s.test, out), False
        if isinstance(s, ast.Expr):
            e = s.value
            if isinstance(e, ast.Constant):
                return out, False
            if isinstance(e, ast.Call) and not self.validator and self.only_validates(e):
                return out, False
            return out | self.uses(e), True
        if isinstance(s, ast.Assign):
            return self.assign(s.targets, s.value, out)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out, False
            return self.assign([s.target], s.value, out)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in out:
                    return out | self.uses(s.value), True
                return out, False
            return out | self.uses(s.value) | self.uses(s.target), True
        if isinstance(s, ast.Delete):
            return out, False
        if isinstance(s, ast.If):
            a, ra = self.block(s.body, out, ctx)
            b, rb = self.block(s.orelse, out, ctx)
            if ra or rb:
                return a | b | self.uses(s.test), True
            return a | b | walrus_uses(self, s.test, out), False
        if isinstance(s, (ast.For, ast.AsyncFor)):
            tn = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            after, re_ = self.block(s.orelse, out, ctx)
            live = after
            rel = False
            for _ in range(20):
                c = Ctx(brk=out, cont=live)
                b, rel = self.block(s.body, live, c)
                new = live | (b - tn if rel else b - tn)
                if new == live:
                    break
                live = new
            if rel or any(n in out for n in tn):
                live = live | self.uses(s.iter)
                rel = True
            return live, rel or re_
        if isinstance(s, ast.While):
            live = out
            rel = False
            for _ in range(20):
                c = Ctx(brk=out, cont=live)
                b, rel = self.block(s.body, live, c)
                new = live | b | self.uses(s.test)
                if new == live:
                    break
                live = new
            return live, True
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b, rel = self.block(s.body, out, ctx)
            for i in s.items:
                b = b | self.uses(i.context_expr)
            return b, True
        if isinstance(s, ast.Try):
            fin, rf = self.block(s.finalbody, out, ctx)
            after, ro = self.block(s.orelse, fin, ctx)
            hs, rel = frozenset(), rf or ro
            for h in s.handlers:
                l, r = self.block(h.body, fin, ctx)
                hs |= l - ({h.name} if h.name else set())
                rel |= r
            b, rb = self.block(s.body, after | hs, ctx)
            if rel and any(h.body and not all(isinstance(x, ast.Pass) for x in h.body) for h in s.handlers):
                # whether the body fails matters
                if not all(isinstance(h.body[-1], ast.Raise) for h in s.handlers):
                    for x in s.body:
                        if isinstance(x, ast.Expr):
                            b = b | self.uses(x.value)
                        elif isinstance(x, ast.Assign):
                            b = b | (self.uses(x.value))
            return b | hs, rel or rb
        if isinstance(s, ast.Match):
            live, rel = out, False
            for c in s.cases:
                l, r = self.block(c.body, out, ctx)
                if c.guard is not None:
                    l = l | self.uses(c.guard)
                live |= l
                rel |= r
            if rel:
                live = live | self.uses(s.subject)
            return live, rel
        return out | names_loaded(s), True

    def only_validates(self, e):
        ts = self.I.calls.get(id(e), [])
        name = (dotted_of(e.func) or "").split(".")[-1]
        return bool(ts) and name.startswith(VALIDATE)

    def assign(self, tgts, value, out):
        names = set()
        other = []
        for t in tgts:
            for x in flat(t):
                if isinstance(x, ast.Name):
                    names.add(x.id)
                else:
                    other.append(x)
        live = out
        if other:
            # storing in an object: in a local one that is not used afterwards, it does not matter
            roots = [root_name(x) for x in other]
            if all(r is not None and r not in out and r not in self.f.params and fresh_local(self.f, r) for r in roots) and not (names & out):
                return out, False
            live = live | self.uses(value)
            for x in other:
                live = live | self.uses(x)
            return frozenset(live - names) | (names & out if False else frozenset()), True
        if names & out:
            # element by element for (a, b) = (x, y)
            t = tgts[0]
            if len(tgts) == 1 and isinstance(t, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(t.elts) == len(value.elts):
                live = frozenset(out - names)
                for x, v in zip(t.elts, value.elts):
                    if {n.id for n in ast.walk(x) if isinstance(n, ast.Name)} & out:
                        live |= self.uses(v)
                return live, True
            return frozenset(out - names) | self.uses(value), True
        return frozenset(out) | walrus_uses(self, value, out) | canvas_uses(self, value), False

    # names whose value has influence on the value of the expression

    def uses(self, e):
        out = set()
        if e is None:
            return out
        if isinstance(e, ast.Name):
            return {e.id}
        if isinstance(e, ast.Lambda):
            inner = self.uses(e.body) - {a.arg for a in e.args.posonlyargs + e.args.args + e.args.kwonlyargs + [x for x in (e.args.vararg, e.args.kwarg) if x]}
            for d in [*e.args.defaults, *[d for d in e.args.kw_defaults if d]]:
                inner |= self.uses(d)
            return inner
        if isinstance(e, ast.Call):
            ts = self.I.calls.get(id(e), [])
            ts = [t for t in ts if not (is_stub(t[0]) and t[0].is_abstract)]
            if not ts:
                out |= self.uses(e.func)
                for a in e.args:
                    out |= self.uses(a)
                for k in e.keywords:
                    out |= self.uses(k.value)
                return out
            if isinstance(e.func, ast.Attribute):
                out |= self.uses(e.func.value)
            else:
                out |= self.uses(e.func)
            for t, bound, _ in ts:
                for p, a in matched(t, bound, e):
                    if p is None or p in self.I.live[t]:
                        out |= self.uses(a)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.uses(e.value) | {e.target.id}
        if isinstance(e, ast.IfExp):
            if ast.dump(e.body) == ast.dump(e.orelse):
                return self.uses(e.body)
            return self.uses(e.test) | self.uses(e.body) | self.uses(e.orelse)
        if isinstance(e, ast.Starred):
            return self.uses(e.value)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.uses(c)
            elif isinstance(c, ast.comprehension):
                out |= self.uses(c.iter)
                for i in c.ifs:
                    out |= self.uses(i)
            elif isinstance(c, ast.keyword):
                out |= self.uses(c.value)
        return out


class Ctx:
    def __init__(self, brk=frozenset(), cont=frozenset()):
        self.brk, self.cont = brk, cont


def flat(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from flat(x)
    elif isinstance(t, ast.Starred):
        yield from flat(t.value)
    else:
        yield t


def root_name(x):
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        x = x.value
    return x.id if isinstance(x, ast.Name) else None


def fresh_local(f, name):
    """Every value of the local variable is made in the function."""
    vals = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            vals.append(n.value)
        elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            vals.append(None)
    vals = [v for v in vals if v is not None]
    return bool(vals) and all(isinstance(v, (ast.Dict, ast.List, ast.ListComp, ast.DictComp)) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "copy") for v in vals)


def names_loaded(s):
    return {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def names_in_head(s):
    out = set()
    for d in [*s.decorator_list, *s.args.defaults, *[d for d in s.args.kw_defaults if d]]:
        out |= names_loaded(d)
    return out


def walrus_uses(L, e, out):
    got = frozenset()
    for n in ast.walk(e):
        if isinstance(n, ast.NamedExpr) and n.target.id in out:
            got |= L.uses(n.value)
    return got


def canvas_uses(L, value):
    """Calls that draw, although their result is not used."""
    got = frozenset()
    for n in ast.walk(value):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (root_name(n.func) or "").startswith(("ax", "fig")):
            got |= L.uses(n)
    return got


def matched(t, bound, call):
    """(parameter, argument) for a call of the function."""
    pos = t.pos[bound:]
    i = 0
    unsure = False
    for a in call.args:
        if isinstance(a, ast.Starred):
            unsure = True
            yield None, a.value
            continue
        if unsure:
            yield None, a
        elif i < len(pos):
            yield pos[i], a
            i += 1
        elif t.vararg:
            yield t.vararg, a
        else:
            yield None, a
    for k in call.keywords:
        if k.arg is None:
            yield t.kwarg if t.kwarg and not (set(t.pos) | set(t.kwonly)) - {"self"} else None, k.value
        elif k.arg in t.pos or k.arg in t.kwonly:
            yield k.arg, k.value
        elif t.kwarg:
            yield t.kwarg, k.value
        else:
            yield None, k.value


def interface_only(I, f, p):
    """The method implements one of a base class, and another implementation uses the parameter."""
    owners = f.bound_to or ([f.cls] if f.cls else [])
    for o in owners:
        for d in [*o.mro(), *[x for c in o.mro() if isinstance(c, Class) for x in c.descendants()]]:
            if not isinstance(d, Class):
                continue
            b, _ = d.lookup(f.name)
            b = I.P.deref(b) if b is not None else None
            if isinstance(b, Func) and b is not f and p in b.params and p in I.live[b]:
                return True
    return False


FLAT = ("unsourced", "unsourcedprice", "pnl_cost")  # parts of a portfolio state that never have children
REMOVED = {"portfolyo.tools.product.is_peak_hour"}  # raises a deprecation error
MIRRORED = {"portfolyo.tools.freq.assert_freq_sufficiently_long", "portfolyo.tools.freq.assert_freq_sufficiently_short"}  # are each other with the arguments swapped


def catch_all(f):
    """Methods that take any arguments in order to have the same signature as others of the same name."""
    return f.name in ("__new__", "__getitem__", "dataframe")


def checked(f):
    if f.parent is not None or isinstance(f.node, ast.Lambda) or not (f.public or f.name == "__init__"):
        return False
    if is_stub(f) or f.is_abstract or f.is_overload:
        return False
    return True


def G04(rep, P, tier):
    I = Influence(P)
    for f in P.funcs:
        rep.functions.add(f.qual)
        if checked(f):
            for i, p in enumerate(f.params):
                if i == 0 and (f.cls is not None or f.bound_to) and not f.is_static:
                    continue
                if p.startswith("_") and p not in ("_seed",):
                    continue
                if f.qual in REMOVED or (p in (f.vararg, f.kwarg) and catch_all(f)):
                    continue
                if p in I.live[f]:
                    rep.ok("influence")
                elif interface_only(I, f, p):
                    rep.ok("influence: interface")
                else:
                    rep.violate("influence", f"{f.qual}({p})", f"parameter {p} has no influence on the result", f.loc())
        forwarding(rep, I, f)
    return I


def namesakes(I, f, call):
    """A method that calls the method of the same name on something of unknown type, usually a child."""
    if f.cls is None and not f.bound_to or not isinstance(call.func, ast.Attribute) or call.func.attr != f.name:
        return []
    if I.res[f](call.func) is not None or I.Ty.infer(f, call.func.value):
        return []
    return [(f, 1, f.qual)]


def derived(f, names):
    """Local names that are computed from these, flow-insensitively."""
    got = set(names)
    changed = True
    while changed:
        changed = False
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                if {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & got:
                    new = {x.id for t in tg for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - got
                    if new:
                        got |= new
                        changed = True
            elif isinstance(n, (ast.For, ast.comprehension)):
                if {x.id for x in ast.walk(n.iter) if isinstance(x, ast.Name)} & got:
                    new = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} - got
                    if new:
                        got |= new
                        changed = True
    return got


def elsewhere(I, f, call, p, label):
    """The option is passed on in the call that turns this result into the final one."""
    if p in ("children", "childlevels") and isinstance(call.func, ast.Attribute) and text(call.func.value).split(".")[-1] in FLAT:
        return True
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and n is not call:
            for t, bound, l in I.calls.get(id(n), []):
                if call in list(ast.walk(n)) or feeds(f, call, n):
                    for q, a in matched(t, bound, n):
                        if q == p and p in {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}:
                            return True
    return False


def feeds(f, first, second):
    """The result of the first call is (through a variable) an argument of the second."""
    for s in own_nodes(f.node):
        if isinstance(s, ast.Assign) and first in list(ast.walk(s.value)):
            names = {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
            if names & {x.id for a in [*second.args, *[k.value for k in second.keywords]] for x in ast.walk(a) if isinstance(x, ast.Name)}:
                return True
    return False


def forwarding(rep, I, f):
    own = set(f.params)
    g = f.parent
    while g is not None:
        own |= set(g.params)
        g = g.parent
    if not own:
        return
    for n in own_nodes(f.node):
        if not isinstance(n, ast.Call):
            continue
        for t, bound, label in I.calls.get(id(n), []) or namesakes(I, f, n):
            ms = list(matched(t, bound, n))
            given = {p: a for p, a in ms if p is not None}
            if any(p is None for p, a in ms):
                continue
            params = t.pos[bound:] + t.kwonly
            # (1) options that both have are passed on
            for p in params:
                if p not in own or p not in t.defaults or p.startswith("_"):
                    continue
                if elsewhere(I, f, n, p, label):
                    rep.ok("passed on: elsewhere")
                    continue
                if p not in given:
                    others = set().union(*[{x.id for x in ast.walk(a) if isinstance(x, ast.Name)} for a in given.values()]) if given else set()
                    if isinstance(n.func, ast.Attribute):
                        others |= {x.id for x in ast.walk(n.func.value) if isinstance(x, ast.Name)}
                    if others & derived(f, {p}) - {"self"}:
                        rep.ok("passed on")  # has been used to prepare another argument
                    else:
                        rep.violate("passed on", f"{f.qual}: {p} -> {label}", f"{text(n.func)} is called without {p}, so that its default is used", f.loc(n))
                else:
                    a = given[p]
                    names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
                    if names & derived(f, {p}) or not isinstance(a, ast.Constant) or t is f:
                        rep.ok("passed on")
                    else:
                        rep.violate("passed on", f"{f.qual}: {p} -> {label}", f"{text(n.func)} is called with {p}={text(a)} instead of the option", f.loc(n))
            # (2) positional arguments do not end up under each other's name
            pairs = [(p, a.id) for p, a in given.items() if isinstance(a, ast.Name)]
            for p, a in pairs:
                for q, b in pairs:
                    if p < q and a == q and b == p and t.qual not in MIRRORED:
                        rep.violate("swapped", f"{f.qual}: {p}/{q} -> {label}", f"{text(n)} passes {a} as {p} and {b} as {q}", f.loc(n))
            for p, a in pairs:
                rep.ok("swapped")
