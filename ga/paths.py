"""Path-sensitive walk over the statements of one function.

A state is (facts, bound): the conditions known to hold on the path (in canonical form) and the local names that
have been assigned. Contradictory paths are dropped, so that correlated branches do not give false complaints."""

from __future__ import annotations

import ast
import copy

from .model import Class, dotted_of, target_names

LIMIT = 160


class NoWalrus(ast.NodeTransformer):
    def visit_NamedExpr(self, n):
        return ast.Name(n.target.id, ast.Load())


class State:
    __slots__ = ("facts", "bound")

    def __init__(self, facts=frozenset(), bound=frozenset()):
        self.facts, self.bound = facts, bound

    def key(self):
        return (self.facts, self.bound)


def text(e):
    return ast.unparse(e)


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Out:
    """What can happen at the end of a block."""

    def __init__(self):
        self.falls, self.returns, self.breaks, self.continues, self.raises = [], [], [], [], []

    def absorb(self, o, falls=False):
        self.returns += o.returns
        self.raises += o.raises
        self.breaks += o.breaks
        self.continues += o.continues
        if falls:
            self.falls += o.falls


def dedupe(states):
    seen = {}
    for s in states:
        seen.setdefault(s.key(), s)
    return list(seen.values())


class Walker:
    def __init__(self, resolve, noreturn=lambda call: False, locals_=frozenset(), on_use=None, annotations=False):
        self.resolve = resolve  # expression -> static entity
        self.noreturn = noreturn
        self.locals = locals_
        self.on_use = on_use  # (node, name, states) called for each read of a local name
        self.precise = True
        self.annotations = annotations
        self.infos = {}  # fact text -> (kind, ...)

    def limit(self, states):
        states = dedupe(states)
        if len(states) <= LIMIT:
            return states
        # forget facts first
        by = {}
        for s in states:
            by.setdefault(s.bound, []).append(s)
        out = []
        for b, ss in by.items():
            f = ss[0].facts
            for s in ss[1:]:
                f &= s.facts
            out.append(State(f, b))
        self.precise = False
        return out[:LIMIT]

    # -- facts

    def canonical(self, e):
        """(key, names, polarity) of an atomic condition."""
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, op, r = e.left, e.ops[0], e.comparators[0]
            pol = True
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                pol, op = False, (ast.Is() if isinstance(op, ast.IsNot) else ast.Eq())
            elif isinstance(op, ast.NotIn):
                pol, op = False, ast.In()
            elif isinstance(op, ast.GtE):
                pol, op = False, ast.Lt()
            elif isinstance(op, ast.LtE):
                pol, op = False, ast.Gt()
            if isinstance(op, (ast.Is, ast.Eq)):
                if self.const(l) is not None and self.const(r) is None:
                    l, r = r, l
                c = self.const(r)
                if c is not None:
                    return ("eq", text(l), c), names_in(l), pol
                a, b = sorted([text(l), text(r)])
                return ("same", a, b), names_in(e), pol
            if isinstance(op, ast.Lt):
                return ("lt", text(l), text(r)), names_in(e), pol
            if isinstance(op, ast.Gt):
                return ("lt", text(r), text(l)), names_in(e), pol
            return ("cond", f"{text(l)} in {text(r)}"), names_in(e), pol
        if isinstance(e, ast.Call) and dotted_of(e.func) == "isinstance" and len(e.args) == 2:
            return ("isa", text(e.args[0]), text(e.args[1])), names_in(e.args[0]), True
        return ("cond", text(e)), names_in(e), True

    def const(self, e):
        """Identity of a constant: a literal, or a member of an enumeration."""
        if isinstance(e, ast.Constant):
            return ("lit", type(e.value).__name__, repr(e.value))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return ("lit", type(e.operand.value).__name__, "-" + repr(e.operand.value))
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value)
            if isinstance(b, Class) and b.is_enum and e.attr in b.members():
                return ("enum", b.name, e.attr, tuple(b.members()))
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.resolve(e)
            val = getattr(v, "value", None)
            if type(v).__name__ == "Var" and isinstance(val, ast.Attribute):
                return self.const_of_var(v)
        return None

    def const_of_var(self, v):
        return None

    def assume(self, e, truth, states):
        """The states in which the condition has this truth value."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not truth, states)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And) == truth
            if conj:
                for v in e.values:
                    states = self.assume(v, truth, states)
                return states
            out, rest = [], states
            for v in e.values:
                out += self.assume(v, truth, rest)
                rest = self.assume(v, not truth, rest)
            return self.limit(out)
        if isinstance(e, ast.Constant):
            return states if bool(e.value) == truth else []
        walrus = [n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)]
        if walrus:
            return self.assume(NoWalrus().visit(copy.deepcopy(e)), truth, self.bind(states, walrus))
        if isinstance(e, ast.Call) and dotted_of(e.func) == "bool" and len(e.args) == 1 and not e.keywords:
            return self.assume(e.args[0], truth, states)
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            return states
        if isinstance(e, ast.Call) and dotted_of(e.func) == "isinstance" and len(e.args) == 2 and isinstance(e.args[1], ast.Tuple):
            alts = [ast.Call(e.func, [e.args[0], t], []) for t in e.args[1].elts]
            return self.assume(ast.BoolOp(ast.Or(), alts), truth, states) if alts else states
        if isinstance(e, ast.Call) and dotted_of(e.func) == "isinstance" and len(e.args) == 2 and isinstance(e.args[1], ast.BinOp) and isinstance(e.args[1].op, ast.BitOr):
            alts = [ast.Call(e.func, [e.args[0], t], []) for t in (e.args[1].left, e.args[1].right)]
            return self.assume(ast.BoolOp(ast.Or(), alts), truth, states)
        if isinstance(e, ast.Compare) and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.comparators[0], (ast.Tuple, ast.List, ast.Set)):
            elts = e.comparators[0].elts
            t = truth == isinstance(e.ops[0], ast.In)
            if elts and not any(isinstance(x, ast.Starred) for x in elts):
                alts = [ast.Compare(e.left, [ast.Eq()], [x]) for x in elts]
                return self.assume(ast.BoolOp(ast.Or(), alts) if len(alts) > 1 else alts[0], t, states)
        key, names, pol = self.canonical(e)
        want = truth == pol
        self.infos[key] = names
        out = []
        for s in states:
            d = dict(s.facts)
            if key in d:
                if d[key] == want:
                    out.append(s)
                continue
            if key[0] == "eq":
                if want and any(k[0] == "eq" and k[1] == key[1] and v and k[2] != key[2] and distinct(k[2], key[2]) for k, v in d.items()):
                    continue  # already equal to something else
                if not want and key[2][0] == "enum":
                    others = {k[2][2] for k, v in d.items() if k[0] == "eq" and k[1] == key[1] and not v and k[2][0] == "enum" and k[2][1] == key[2][1]}
                    if set(key[2][3]) <= others | {key[2][2]}:
                        continue  # all members excluded
                if not want and key[2][:2] == ("lit", "bool"):
                    pass
                none = ("lit", "NoneType", "None")
                if key[2] == none and want and d.get(("cond", key[1])) is True:
                    continue
            if key[0] == "cond":
                if want and d.get(("eq", key[1], ("lit", "NoneType", "None"))) is True:
                    continue
                for lit, val in (("True", True), ("False", False)):
                    if d.get(("eq", key[1], ("lit", "bool", lit))) is True and want != val:
                        break
                else:
                    lit = None
                if lit:
                    continue
            out.append(State(s.facts | {(key, want)}, s.bound))
        return out

    def forget(self, states, names):
        """Facts about these names no longer hold."""
        names = set(names)
        if not names:
            return states
        out = []
        for s in states:
            keep = frozenset((k, v) for k, v in s.facts if not (self.infos.get(k, set()) & names))
            out.append(State(keep, s.bound))
        return out

    def bind(self, states, names):
        names = set(names)
        return [State(s.facts, s.bound | names) for s in self.forget(states, names)]

    # -- expressions

    def expr(self, e, states, inner=frozenset()):
        if e is None or not states:
            return states
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in inner and self.on_use:
                self.on_use(e, e.id, states)
            return states
        if isinstance(e, ast.IfExp):
            states = self.expr(e.test, states, inner)
            self.expr(e.body, self.assume(e.test, True, states), inner)
            self.expr(e.orelse, self.assume(e.test, False, states), inner)
            return states
        if isinstance(e, ast.BoolOp):
            rest = self.expr(e.values[0], states, inner)
            prev = e.values[0]
            for v in e.values[1:]:
                rest = self.assume(prev, isinstance(e.op, ast.And), rest)
                rest = self.expr(v, rest, inner)
                prev = v
            return states
        if isinstance(e, ast.NamedExpr):
            states = self.expr(e.value, states, inner)
            return self.bind(states, [e.target.id])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inn = set(inner)
            sub = states
            for g in e.generators:
                sub = self.expr(g.iter, sub, frozenset(inn))
                inn |= set(target_names(g.target))
                for c in g.ifs:
                    sub = self.expr(c, sub, frozenset(inn))
                    sub = self.assume(c, True, sub)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, sub, frozenset(inn))
                self.expr(e.value, sub, frozenset(inn))
            else:
                self.expr(e.elt, sub, frozenset(inn))
            return states
        if isinstance(e, ast.Lambda):
            for d in [*e.args.defaults, *[x for x in e.args.kw_defaults if x]]:
                states = self.expr(d, states, inner)
            return states
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.expr(c, states, inner)
            elif isinstance(c, ast.keyword):
                states = self.expr(c.value, states, inner)
            elif isinstance(c, ast.comprehension):
                pass
        return states

    # -- statements

    def block(self, body, states):
        out = Out()
        for s in body:
            states = self.limit(states)
            if not states:
                break
            o = self.stmt(s, states)
            out.absorb(o)
            states = o.falls
        out.falls = states
        return out

    def stmt(self, s, states):
        out = Out()
        if isinstance(s, ast.Return):
            states = self.expr(s.value, states)
            if isinstance(s.value, ast.IfExp):
                for b, t in ((s.value.body, True), (s.value.orelse, False)):
                    out.returns += [(s, b, x) for x in self.assume(s.value.test, t, states)]
            else:
                out.returns += [(s, s.value, x) for x in states]
        elif isinstance(s, ast.Raise):
            states = self.expr(s.exc, states)
            states = self.expr(s.cause, states)
            out.raises += [(s, x) for x in states]
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and self.on_use:
                self.on_use(s.target, s.target.id, states)
            if isinstance(s, ast.AnnAssign) and self.annotations:
                states = self.expr(s.annotation, states)
            if s.value is None:
                out.falls = states
                return out
            states = self.expr(s.value, states)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in targets:
                states = self.assign(t, states)
            if len(targets) == 1 and isinstance(targets[0], ast.Name) and not isinstance(s, ast.AugAssign):
                t, v = targets[0], s.value
                c = self.const(v)
                if c is not None:
                    key = ("eq", t.id, c)
                    self.infos[key] = {t.id}
                    states = [State(x.facts | {(key, True)}, x.bound) for x in states]
                elif isinstance(v, (ast.Compare, ast.BoolOp)) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)) or (isinstance(v, ast.Call) and dotted_of(v.func) == "isinstance"):
                    if t.id not in names_in(v):
                        new = []
                        key = ("cond", t.id)
                        self.infos[key] = {t.id}
                        for truth in (True, False):
                            new += [State(x.facts | {(key, truth)}, x.bound) for x in self.assume(v, truth, states)]
                        states = new
            out.falls = states
        elif isinstance(s, ast.Expr):
            states = self.expr(s.value, states)
            for c in ast.walk(s.value):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
                    b = c.func.value
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        states = self.forget(states, [b.id])
            if isinstance(s.value, ast.Call) and self.noreturn(s.value):
                out.raises += [(s, x) for x in states]
            else:
                out.falls = states
        elif isinstance(s, ast.If):
            states = self.expr(s.test, states)
            a = self.block(s.body, self.assume(s.test, True, states))
            b = self.block(s.orelse, self.assume(s.test, False, states))
            out.absorb(a, True)
            out.absorb(b, True)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            states = self.expr(s.iter, states)
            changed = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
            states = self.forget(states, changed | mutated(s.body))
            inside = self.assign(s.target, states)
            counter = enumerated(s)
            if counter:  # the first time round differs
                zero = ast.Compare(ast.Name(counter, ast.Load()), [ast.Eq()], [ast.Constant(0)])
                first = self.block(s.body, self.assume(zero, True, inside))
                out.returns += first.returns
                out.raises += first.raises
                out.falls += first.breaks
                inside = self.assign(s.target, self.forget(self.limit(first.falls + first.continues), changed))
                inside = self.assume(zero, False, inside)
            o = self.block(s.body, inside)
            out.returns += o.returns
            out.raises += o.raises
            after = self.forget(o.falls + o.continues, changed)
            if counter:
                after += self.forget(first.falls + first.continues, changed)
            e = self.block(s.orelse, self.limit(after))
            out.absorb(e, True)
            out.falls += o.breaks
        elif isinstance(s, ast.While):
            changed = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
            states = self.forget(states, changed | mutated(s.body))
            states = self.expr(s.test, states)
            o = self.block(s.body, self.assume(s.test, True, states))
            out.returns += o.returns
            out.raises += o.raises
            after = self.forget(o.falls + o.continues, changed)
            zero = self.assume(s.test, False, states)
            e = self.block(s.orelse, self.limit(zero + self.assume(s.test, False, after)))
            out.absorb(e, True)
            out.falls += o.breaks
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            swallow = False
            for i in s.items:
                states = self.expr(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.assign(i.optional_vars, states)
                if isinstance(i.context_expr, ast.Call) and (dotted_of(i.context_expr.func) or "").split(".")[-1] == "suppress":
                    swallow = True
            o = self.block(s.body, states)
            out.absorb(o, True)
            if swallow:
                out.falls += states
                out.raises = []
        elif isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            changed = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
            body = self.block(s.body, states)
            other = self.block(s.orelse, body.falls)
            res = Out()
            res.returns = body.returns + other.returns
            res.breaks = body.breaks + other.breaks
            res.continues = body.continues + other.continues
            res.falls = other.falls
            res.raises = other.raises + body.raises
            for h in s.handlers:
                st = self.forget(states, changed)
                st = self.expr(h.type, st)
                if h.name:
                    st = self.bind(st, [h.name])
                ho = self.block(h.body, st)
                if h.name:
                    ho.falls = [State(x.facts, x.bound - {h.name}) for x in ho.falls]
                res.absorb(ho, True)
            if s.finalbody:
                f = self.block(s.finalbody, self.limit(res.falls)) if res.falls else self.block(s.finalbody, states)
                if not res.falls:
                    f.falls = []
                res.falls = f.falls
                res.returns += f.returns
                res.raises += f.raises
            out = res
        elif isinstance(s, ast.Match):
            states = self.expr(s.subject, states)
            rest = states
            for c in s.cases:
                cond = self.pattern(s.subject, c.pattern)
                inside = self.assume(cond, True, rest) if cond is not None else rest
                inside = self.bind(inside, pattern_names(c.pattern))
                if c.guard is not None:
                    inside = self.expr(c.guard, inside)
                    inside = self.assume(c.guard, True, inside)
                o = self.block(c.body, inside)
                out.absorb(o, True)
                if c.guard is None:
                    if cond is not None:
                        rest = self.assume(cond, False, rest)
                    elif irrefutable(c.pattern):
                        rest = []
            out.falls += rest
        elif isinstance(s, ast.Break):
            out.breaks = states
        elif isinstance(s, ast.Continue):
            out.continues = states
        elif isinstance(s, ast.Assert):
            states = self.expr(s.test, states)
            self.expr(s.msg, self.assume(s.test, False, states))
            out.falls = self.assume(s.test, True, states)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in [*s.decorator_list, *s.args.defaults, *[x for x in s.args.kw_defaults if x]]:
                states = self.expr(d, states)
            out.falls = self.bind(states, [s.name])
        elif isinstance(s, ast.ClassDef):
            for d in [*s.decorator_list, *s.bases]:
                states = self.expr(d, states)
            out.falls = self.bind(states, [s.name])
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            out.falls = self.bind(states, [(a.asname or a.name.split(".")[0]) for a in s.names])
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if self.on_use:
                        self.on_use(t, t.id, states)
                    states = [State(x.facts, x.bound - {t.id}) for x in self.forget(states, [t.id])]
                else:
                    states = self.expr(t, states)
            out.falls = states
        else:  # pass, global, nonlocal
            out.falls = states
        out.falls = self.limit(out.falls)
        return out

    def assign(self, t, states):
        if isinstance(t, ast.Name):
            return self.bind(states, [t.id])
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                states = self.assign(e, states)
            return states
        if isinstance(t, ast.Starred):
            return self.assign(t.value, states)
        states = self.expr(t.value, states)
        if isinstance(t, ast.Subscript):
            states = self.expr(t.slice, states)
        b = t
        while isinstance(b, (ast.Attribute, ast.Subscript)):
            b = b.value
        if isinstance(b, ast.Name):
            states = self.forget(states, [b.id])
        return states

    def pattern(self, subject, p):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subject, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subject, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            alts = [self.pattern(subject, x) for x in p.patterns]
            return ast.BoolOp(ast.Or(), alts) if all(a is not None for a in alts) else None
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ast.Call(ast.Name("isinstance", ast.Load()), [subject, p.cls], [])
        return None


def enumerated(s):
    """Name of the counter of a loop over enumerate(...)."""
    if isinstance(s.iter, ast.Call) and dotted_of(s.iter.func) == "enumerate" and len(s.iter.args) == 1 and not s.iter.keywords:
        if isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
            return s.target.elts[0].id
    return None


def irrefutable(p):
    return isinstance(p, ast.MatchAs) and (p.pattern is None or irrefutable(p.pattern))


def pattern_names(p):
    return [n.name for n in ast.walk(p) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name] + [n.rest for n in ast.walk(p) if isinstance(n, ast.MatchMapping) and n.rest]


def mutated(body):
    out = set()
    for x in body:
        for n in ast.walk(x):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
    return out


def distinct(a, b):
    if a[0] == "enum" and b[0] == "enum":
        return a[1] == b[1]
    if a[0] == "lit" and b[0] == "lit":
        return a[1] == b[1] or "NoneType" in (a[1], b[1])
    return a[0] != b[0]
