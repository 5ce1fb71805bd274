"""Who shares memory with whom, and who writes to what: flow-sensitive analysis of each function with summaries for its callers.

An atom (root, level, depth) says how a value relates to an object that lives longer than the call:
root   ('p', parameter) | ('g', module- or class-level variable) | ('x', library attribute) | ('free', variable of an enclosing function)
level  same: the object itself; elem: something inside of it; data: another object on the same memory; idx: its index (the same object);
       idxf: an index that shares its frequency; hold/holdf: a new object that has such an index
depth  n: the value is a new container which holds (new containers which hold ...) that, n deep"""

from __future__ import annotations

import ast

from .model import Class, Ext, Func, Module, Var, dotted_of, locals_of, own_nodes, target_names
from .paths import text
from .types import T, Types

EMPTY = frozenset()
DEEP = 3  # containers in containers are followed this far
INDEX = ("index", "columns")
DATA_ATTRS = frozenset("values array T loc iloc at iat pint dt str m magnitude flat real _data _values _mgr data".split())
FRESH_ATTRS = frozenset(
    "name names freq freqstr tz tzinfo dtype dtypes shape size ndim empty kind structure units dimensionality year month day hour minute second date time quarter weekday dayofyear day_of_year "
    "is_unique is_monotonic_increasing nlevels levels inferred_freq is_month_start is_quarter_start is_year_start right duration days_in_month days n startingMonth __name__ __doc__ __class__ lower upper".split()
)
STATEMENT_MUTATORS = frozenset("append extend insert remove clear update sort reverse add discard fill put resize itemset setflags partition isetitem ito ito_base_units ito_root_units ito_reduced_units difference_update intersection_update symmetric_difference_update appendleft extendleft rotate __setitem__ __delitem__ __iadd__ move_to_end".split())
VALUE_MUTATORS = frozenset("pop popitem setdefault popleft __setitem__ __delitem__ itemset isetitem".split())
VIEW_METHODS = frozenset("squeeze view ravel reshape transpose to_numpy xs swapaxes swaplevel get __getitem__ get_group infer_objects droplevel".split())
FIRST_ARG = frozenset("numpy.copyto numpy.put numpy.place numpy.putmask numpy.fill_diagonal numpy.random.shuffle random.shuffle heapq.heappush heapq.heappop heapq.heapify bisect.insort bisect.insort_left operator.setitem operator.delitem operator.iadd".split())
CONTAINERS = frozenset("list tuple sorted reversed set frozenset enumerate zip iter filter dict".split())
IMMUTABLE_ANN = frozenset("str int float bool bytes Timestamp Timedelta DatetimeIndex BaseOffset DateOffset Unit datetime date time Kind Structure PfLine FlatPfLine NestedPfLine PfState FrozenSet frozenset Tuple tuple".split())
NUMBERS = frozenset("nan NaN NAN inf Inf pi e newaxis NaT NA NINF PINF euler_gamma".split())
INIT = ("__init__", "__post_init__", "__new__", "__setattr__", "__setstate__", "__delattr__", "__init_subclass__")
ELEMENTWISE_FRESH = frozenset("keys groupby resample rolling expanding ewm items_ isna notna isnull notnull any all sum mean min max std var count nunique unique tolist to_list to_dict to_string hash head_ equals isin between index_ find format join split strip replace startswith endswith".split())


def tag(what):
    """What is written: the attribute, or elements in general."""
    what = what.split(" = ")[0].split("(")[0].strip()
    return what if "[" not in what and "." not in what else "[]" if what.endswith("]") else "." + what.split(".")[-1]


class Effect:
    def __init__(self, func, node, what):
        self.func, self.node, self.what = func, node, what

    @property
    def loc(self):
        return self.func.loc(self.node)


class Summary:
    def __init__(self):
        self.returns = EMPTY
        self.mutates = {}  # (root, level) -> Effect (innermost)
        self.via = {}

    def key(self):
        return (self.returns, frozenset(self.mutates))


def level_attr(lv, attr):
    """Levels of x.attr for an x of this level."""
    if attr in INDEX:
        return {"same": ["idx"], "elem": ["idx"], "data": ["idx"], "hold": ["idx"], "holdf": ["idxf"]}.get(lv, [])
    if attr in FRESH_ATTRS:
        return []
    if attr in DATA_ATTRS:
        if lv in ("hold", "holdf"):
            return [lv]  # .loc of a copy etc.
        return {"same": ["data"], "elem": ["data"], "data": ["data"]}.get(lv, [])
    return {"same": ["elem"], "elem": ["elem"], "data": ["data"]}.get(lv, [])


def compose(lv, inner):
    """Level, relative to the root, of something that has level ``inner`` relative to an object of level ``lv``."""
    if inner == "same":
        return [lv]
    if inner == "elem":
        return {"same": ["elem"], "elem": ["elem"], "data": ["data"]}.get(lv, [])
    if inner == "data":
        return ["data"] if lv in ("same", "elem", "data") else []
    if inner == "idx":
        return {"same": ["idx"], "elem": ["idx"], "data": ["idx"], "hold": ["idx"], "holdf": ["idxf"]}.get(lv, [])
    if inner == "idxf":
        return ["idxf"]
    if inner in ("hold", "holdf"):
        return {"same": [inner], "elem": [inner], "data": [inner], "hold": [inner], "holdf": ["holdf"], "idx": [inner], "idxf": ["holdf"]}.get(lv, [])
    return []


def hold(atoms):
    """A new object with (perhaps) the same index."""
    out = set()
    for r, lv, d in atoms:
        if d:
            continue
        for x in {"same": ["hold"], "elem": ["hold"], "data": ["hold"], "hold": ["hold"], "holdf": ["holdf"], "idx": ["hold"], "idxf": ["holdf"]}[lv]:
            out.add((r, x, 0))
    return frozenset(out)


def wrap(atoms):
    return frozenset((r, lv, min(d + 1, DEEP)) for r, lv, d in atoms)


def element(atoms):
    out = set()
    for r, lv, d in atoms:
        if d:
            out.add((r, lv, d - 1))
        else:
            for x in {"same": ["elem"], "elem": ["elem"], "data": ["data"]}.get(lv, []):
                out.add((r, x, 0))
    return frozenset(out)


class Alias:
    def __init__(self, P):
        self.P = P
        self.Ty = Types(P)
        self.sum = {f: Summary() for f in P.funcs}
        self.by_name = {}
        for c in P.classes:
            for n, bs in c.ns.items():
                for b in bs:
                    b = P.deref(b)
                    if isinstance(b, Func):
                        self.by_name.setdefault(n, set()).add(b)
        self.free_env = {}
        self.changed = True
        rounds = 0
        while self.changed and rounds < 12:
            self.changed = False
            rounds += 1
            for f in P.funcs:
                a = One(self, f)
                a.run()
                old = self.sum[f].key()
                self.sum[f] = a.s
                self.free_env[f] = a.final
                if a.s.key() != old:
                    self.changed = True


class One:
    """Analysis of one function."""

    def __init__(self, A, f):
        self.A, self.P, self.f = A, A.P, f
        self.s = Summary()
        self.res, self.singles, self.tested, self.stored = A.Ty.fctx(f)
        self.locals = locals_of(f)
        self.final = {}

    def run(self):
        f = self.f
        env = {}
        for p in f.params:
            root = ("p", p)
            if p in (f.vararg, f.kwarg):
                env[p] = frozenset([(root, "elem", 1)])
            elif f.cls and f.is_classmethod and p == f.pos[0] and f.name != "__new__":
                env[p] = frozenset([(("g", f.cls.name), "same", 0)])
            else:
                env[p] = frozenset([(root, "same", 0)])
        self.final = dict(env)
        self.block(f.body, env)

    # -- statements

    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
        return env

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, EMPTY) | v
        return out

    def bindv(self, env, name, v):
        env[name] = v
        self.final[name] = self.final.get(name, EMPTY) | v

    def stmt(self, s, env):
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.s.returns |= self.ev(s.value, env)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return env
            v = self.ev(s.value, env)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                self.assign(t, v, env, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.ev(ast.Name(t.id, ast.Load()), env)
                if not self.immutable(t, s.value, env):
                    self.write(cur, s, f"{text(t)} {op(s)}= ...", env)
                    self.bindv(env, t.id, cur | (wrap(element(v)) if isinstance(s.op, ast.Add) else EMPTY))
                else:
                    self.bindv(env, t.id, EMPTY)
            else:
                base = self.ev(t.value, env)
                if isinstance(t, ast.Attribute):
                    self.write_attr(base, t, s, env)
                    inner = self.attr(base, t.attr)
                    if not self.immutable(t, s.value, env):
                        self.write(inner, s, f"{text(t)} {op(s)}= ...", env)
                else:
                    self.write(base, s, f"{text(t)} {op(s)}= ...", env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env, statement=True)
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.narrow(s.test, True, a)
            a = self.block(s.body, a)
            b = self.block(s.orelse, b)
            if terminates(s.body):
                return b
            if s.orelse and terminates(s.orelse):
                return a
            return self.join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            for _ in range(2):
                e2 = dict(env)
                self.loop_target(s.target, it, e2, s.iter)
                e2 = self.block(s.body, e2)
                env = self.join(env, e2)
            env = self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test, env)
                env = self.join(env, self.block(s.body, dict(env)))
            env = self.block(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            env = self.block(s.body, env)
        elif isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            start = dict(env)
            a = self.block(s.body, env)
            mid = self.join(start, a)
            a = self.block(s.orelse, a)
            for h in s.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = EMPTY
                e = self.block(h.body, e)
                if not terminates(h.body):
                    a = self.join(a, e)
            env = self.block(s.finalbody, a)
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject, env)
            out = dict(env)
            for c in s.cases:
                e = dict(env)
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        self.bindv(e, n.name, v | element(v))
                if c.guard:
                    self.ev(c.guard, e)
                out = self.join(out, self.block(c.body, e))
            env = out
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ev(t.value, env), s, f"del {text(t)}", env)
                elif isinstance(t, ast.Attribute):
                    self.write_attr(self.ev(t.value, env), t, s, env)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.f.nested.get(s.name)
            self.bindv(env, s.name, EMPTY)
            for d in [*s.args.defaults, *[x for x in s.args.kw_defaults if x]]:
                self.ev(d, env)
            if g is not None:
                self.inner_effects(g, env)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                env[a.asname or a.name.split(".")[0]] = EMPTY
        return env

    def narrow(self, test, truth, env):
        """In the branch where a value is None, a str or a number it is not shared."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is) == truth and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
                env[test.left.id] = EMPTY
        if isinstance(test, ast.Call) and dotted_of(test.func) == "isinstance" and truth and isinstance(test.args[0], ast.Name):
            names = [dotted_of(x) or "?" for x in (test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]])]
            if all(n.split(".")[-1] in IMMUTABLE_ANN - {"PfLine", "PfState", "DatetimeIndex"} for n in names):
                env[test.args[0].id] = EMPTY

    def loop_target(self, t, it, env, iterexpr):
        el = element(it)
        if isinstance(t, ast.Name):
            self.bindv(env, t.id, el)
        else:
            for n in target_names(t):
                self.bindv(env, n, el)

    def assign(self, t, v, env, value):
        if isinstance(t, ast.Name):
            self.bindv(env, t.id, v)
            g = self.global_of(t.id)
            if g:
                self.effect((("g", g), "same"), t, f"global {t.id} = ...")
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in value.elts + t.elts) else None
            if vals:
                parts = [self.ev(x, env) for x in vals]
                for e, p, x in zip(t.elts, parts, vals):
                    self.assign(e, p, env, x)
            else:
                for e in t.elts:
                    self.assign(e, element(v) | frozenset(a for a in v if not a[2] and a[1] not in ("same",)), env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, wrap(v), env, None)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            self.ev(t.slice, env)
            key = t.slice.elts[0] if isinstance(t.slice, ast.Tuple) and t.slice.elts else t.slice
            kt = self.A.Ty.infer(self.f, key)
            if isinstance(t.value, ast.Attribute) and t.value.attr == "loc" and kt and all(x.what == "Timestamp" for x in kt):
                # one row: added if it is new, and then nothing is shared; a row of another object on the same memory is not claimed to be changed
                base = frozenset(a for a in base if a not in self.attr(self.ev(t.value.value, env), "loc") or any(b[:1] == a[:1] and b[1] in ("same", "elem") for b in self.ev(t.value.value, env)))
            self.write(base, t, f"{text(t)} = ...", env)
            self.into(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            self.write_attr(base, t, t, env)
            if t.attr in INDEX:
                self.into(t.value, hold(v), env, plain=True)
            else:
                self.into(t.value, v, env)

    def into(self, target, v, env, plain=False):
        """Something is put into the container that a name stands for."""
        b = target
        while isinstance(b, (ast.Attribute, ast.Subscript)):
            if isinstance(b, ast.Subscript):
                v = v | wrap(v)
            b = b.value
        if isinstance(b, ast.Name) and b.id in env and v:
            self.bindv(env, b.id, env[b.id] | (v if plain else wrap(v)))

    def global_of(self, name):
        for n in own_nodes(self.f.node):
            if isinstance(n, ast.Global) and name in n.names:
                return f"{self.f.module.name}.{name}"
            if isinstance(n, ast.Nonlocal) and name in n.names:
                return None
        return None

    # -- effects

    def effect(self, key, node, what, via=()):
        key = (*key, tag(what))
        if key not in self.s.mutates:
            self.s.mutates[key] = Effect(self.f, node, what)
            self.s.via[key] = via

    def write(self, atoms, node, what, env):
        for r, lv, d in atoms:
            if d == 0 and lv in ("same", "elem", "data"):
                self.effect((r, lv), node, what)

    def write_attr(self, atoms, t, node, env):
        v = self.res(t.value)
        if isinstance(v, (Ext, Module, Class, Func)) and not (isinstance(v, Ext) and v.dotted.startswith("builtins.")):
            name = v.dotted if isinstance(v, Ext) else getattr(v, "qual", None) or v.name
            self.effect((("x" if isinstance(v, Ext) else "g", name), "same"), node, f"{text(t)} = ...")
            return
        for r, lv, d in atoms:
            if d:
                continue
            if lv in ("same", "elem"):
                if t.attr in ("freq", "name", "names", "index", "columns") or True:
                    self.effect((r, lv), node, f"{text(t)} = ...")
            elif lv == "idx" and t.attr in ("freq", "name", "names"):
                self.effect((r, lv), node, f"{text(t)} = ...")
            elif lv == "idxf" and t.attr == "freq":
                self.effect((r, lv), node, f"{text(t)} = ...")

    def immutable(self, t, rhs, env):
        if isinstance(t, ast.Name):
            if isinstance(rhs, (ast.Constant, ast.JoinedStr)):
                if isinstance(rhs, ast.JoinedStr) or isinstance(rhs.value, str):
                    return True
                ann = self.f.ann.get(t.id)
                return ann is None or not mutable_ann(ann)
            if t.id in self.f.params:
                ann = self.f.ann.get(t.id)
                if ann is not None:
                    return not mutable_ann(ann)
                return False
            ts = None
            if t.id in self.singles:
                ts = self.A.Ty.infer(self.f, self.singles[t.id])
            return bool(ts) and all(x.kind == "inst" or x.what in ("str", "int", "float", "bool", "tuple", "DatetimeIndex", "Timestamp", "Timedelta") for x in ts)
        return isinstance(rhs, (ast.Constant, ast.JoinedStr))

    # -- expressions

    def ev(self, e, env, statement=False):
        if e is None:
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.locals:
                return EMPTY
            g = self.f.parent
            while g is not None:
                if e.id in locals_of(g):
                    up = self.A.free_env.get(g, {}).get(e.id, EMPTY)
                    return up | frozenset([(("free", g.qual, e.id), "same", 0)]) if e.id not in g.nested else EMPTY
                g = g.parent
            return self.static(self.res(e))
        if isinstance(e, ast.Attribute):
            v = self.res(e)
            if v is not None:
                return self.static(v)
            base = self.ev(e.value, env)
            out = set(self.attr(base, e.attr))
            # class-level variables and own properties
            ts = self.A.Ty.infer(self.f, e.value)
            insts = [t.what for t in ts or [] if t.kind == "inst"]
            known_ext = bool(ts) and not insts
            if not known_ext:
                for m in self.candidates(e.attr, insts):
                    if isinstance(m, Func) and m.has_dec("property"):
                        if not insts and e.attr in DATA_ATTRS | FRESH_ATTRS | set(INDEX):
                            continue
                        out |= self.apply(m, [base], {}, e, env)
                    elif isinstance(m, Var) and isinstance(e.value, ast.Name) and (insts or e.value.id in ("self", "cls")):
                        if m.owner.is_enum:
                            continue
                        if any(e.attr in c.inst_attrs or e.attr in c.fields for c in [m.owner, *m.owner.descendants()]):
                            continue
                        out |= {(("g", m.dotted), "same", 0)}
            return frozenset(out)
        if isinstance(e, ast.Subscript):
            base = self.ev(e.value, env)
            self.ev(e.slice, env)
            return self.subscript(e, base, env)
        if isinstance(e, ast.Call):
            return self.call(e, env, statement)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, ast.BitOr):
                return hold(a | b) | wrap(element(a | b))
            if isinstance(e.op, ast.Add):
                return hold(a | b) | frozenset(x for x in a | b if x[2])
            return hold(a | b)
        if isinstance(e, ast.UnaryOp):
            return hold(self.ev(e.operand, env))
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for v in e.values:
                out |= self.ev(v, env)
            return out
        if isinstance(e, ast.Compare):
            for x in [e.left, *e.comparators]:
                self.ev(x, env)
            return EMPTY
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            a = dict(env)
            self.narrow(e.test, True, a)
            return self.ev(e.body, a) | self.ev(e.orelse, env)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.bindv(env, e.target.id, v)
            return v
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = EMPTY
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out |= wrap(element(self.ev(x.value, env)))
                else:
                    out |= wrap(self.ev(x, env))
            return out
        if isinstance(e, ast.Dict):
            out = EMPTY
            for k, x in zip(e.keys, e.values):
                if k is None:
                    out |= wrap(element(self.ev(x, env)))
                else:
                    self.ev(k, env)
                    out |= wrap(self.ev(x, env))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = dict(env)
            for g in e.generators:
                it = self.ev(g.iter, inner)
                for n in target_names(g.target):
                    inner[n] = element(it)
                for c in g.ifs:
                    self.ev(c, inner)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, inner)
                return wrap(self.ev(e.value, inner))
            return wrap(self.ev(e.elt, inner, statement=True))
        if isinstance(e, ast.Starred):
            return wrap(element(self.ev(e.value, env)))
        if isinstance(e, ast.Lambda):
            g = self.P.by_node.get(e)
            if isinstance(g, Func):
                self.inner_effects(g, env)
            return EMPTY
        if isinstance(e, (ast.Await, ast.YieldFrom)):
            return self.ev(e.value, env)
        if isinstance(e, ast.Yield):
            if e.value is not None:
                self.s.returns |= wrap(self.ev(e.value, env))
            return EMPTY
        if isinstance(e, ast.JoinedStr):
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    self.ev(v.value, env)
            return EMPTY
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.ev(x, env)
        return EMPTY

    def static(self, v):
        if isinstance(v, Var):
            if isinstance(v.owner, Class) and v.owner.is_enum:
                return EMPTY
            return frozenset([(("g", v.dotted), "same", 0)])
        if isinstance(v, Ext) and not v.dotted.startswith("builtins.") and v.dotted.split(".")[-1] not in NUMBERS:
            return frozenset([(("x", v.dotted), "same", 0)])
        return EMPTY

    def attr(self, base, name):
        out = set()
        for r, lv, d in base:
            if d:
                if name in DATA_ATTRS or name in INDEX or name in FRESH_ATTRS:
                    continue
                out.add((r, lv, d - 1))
                continue
            out |= {(r, x, 0) for x in level_attr(lv, name)}
        return frozenset(out)

    def subscript(self, e, base, env):
        s = e.slice
        out = set()
        loc = isinstance(e.value, ast.Attribute) and e.value.attr in ("loc", "iloc", "at", "iat")
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        ts = None if loc else self.A.Ty.infer(self.f, e.value)
        series = bool(ts) and all(t.kind == "ext" and t.what == "Series" for t in ts)
        for r, lv, d in base:
            if d:
                out.add((r, lv, d if isinstance(s, ast.Slice) else d - 1))
                continue
            if lv in ("hold", "holdf"):
                if loc and not isinstance(parts[0], ast.Slice):
                    continue
                if not isinstance(s, ast.Slice):
                    out.add((r, lv, 0))
                continue
            if lv in ("idx", "idxf"):
                continue
            if loc:
                if not isinstance(parts[0], ast.Slice):
                    continue  # rows are picked: data and index are new
                view = isinstance(parts[0], ast.Slice) and all(isinstance(p, (ast.Slice, ast.Constant, ast.Name)) for p in parts[1:])
                out.add((r, "data" if view else "hold", 0))
                if view:
                    out.add((r, "hold", 0))
            elif isinstance(s, ast.Slice):
                out |= {(r, "data", 0), (r, "hold", 0)} if lv != "elem" or True else set()
            elif isinstance(s, (ast.Compare, ast.UnaryOp, ast.BoolOp)):
                continue
            elif isinstance(s, (ast.List, ast.Compare, ast.BinOp, ast.UnaryOp, ast.Call, ast.ListComp, ast.BoolOp)):
                out.add((r, "hold", 0))
            elif series:
                out.add((r, "hold", 0))
            else:
                out |= {(r, x, 0) for x in {"same": ["elem"], "elem": ["elem"], "data": ["data"]}[lv]}
        return frozenset(out)

    # -- calls

    def candidates(self, name, insts):
        out = []
        if insts:
            for c in insts:
                for m in self.A.Ty.members(c, name):
                    if m not in out:
                        out.append(m)
            return out
        return list(self.A.by_name.get(name, ()))

    def call(self, e, env, statement):
        args = []
        star = EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                star |= element(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star |= element(v)
            else:
                kws[k.arg] = v
        const = {k.arg: k.value.value for k in e.keywords if k.arg and isinstance(k.value, ast.Constant)}
        target = self.res(e.func)
        if isinstance(e.func, ast.Name) and e.func.id in env and target is None:
            pass
        if isinstance(target, Func):
            if isinstance(e.func, ast.Attribute) and isinstance(self.res(e.func.value), Class) and target.is_classmethod:
                return self.apply(target, [EMPTY, *args], kws, e, env, star)
            return self.apply(target, args, kws, e, env, star)
        if isinstance(e.func, ast.Name):
            g = self.f
            while g is not None:
                if e.func.id in g.nested:
                    return self.apply(g.nested[e.func.id], args, kws, e, env, star)
                g = g.parent
        if isinstance(target, Class):
            out = EMPTY
            for v in [*args, *kws.values(), star]:
                out |= wrap(v)
            for nm in ("__init__", "__post_init__"):
                b, _ = target.lookup(nm)
                if isinstance(b, Func):
                    self.apply(b, [EMPTY, *args], kws, e, env, star, effects_only=True)
            return out
        if isinstance(target, Ext):
            return self.external(target.dotted, e, args, kws, const, env, star, statement)
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Call) and dotted_of(e.func.value.func) == "super":
                return EMPTY
            base = self.ev(e.func.value, env)
            return self.method(e, base, args, kws, const, env, star, statement)
        fv = self.ev(e.func, env)
        return EMPTY

    def method(self, e, base, args, kws, const, env, star, statement):
        name = e.func.attr
        out = set()
        ts = self.A.Ty.infer(self.f, e.func.value)
        insts = [t.what for t in ts or [] if t.kind == "inst"]
        ext = [t for t in ts or [] if t.kind != "inst"]
        if not ext or insts:
            for m in self.candidates(name, insts):
                if isinstance(m, Func) and not m.is_property:
                    if m.is_static:
                        out |= self.apply(m, args, kws, e, env, star)
                    elif m.is_classmethod:
                        out |= self.apply(m, [EMPTY, *args], kws, e, env, star)
                    else:
                        out |= self.apply(m, [base, *args], kws, e, env, star)
        if insts and not ext:
            return frozenset(out)
        # library semantics
        pandasish = bool(ext) and all(t.kind == "ext" for t in ext)
        allargs = EMPTY
        for v in [*args, *kws.values(), star]:
            allargs |= v
        what = f"{text(e)[:60]}"
        if const.get("inplace") is True:
            self.write(base, e, what, env)
            for r, lv, d in base:
                if d == 0 and lv == "idx" and name in ("rename", "set_names"):
                    self.effect((r, lv), e, what)
        if "out" in kws:
            self.write(kws["out"], e, what, env)
        if (statement and name in STATEMENT_MUTATORS) or (name in VALUE_MUTATORS):
            self.write(base, e, what, env)
            if name in ("append", "add", "insert", "appendleft", "setdefault", "__setitem__"):
                self.into(e.func.value, allargs, env)
            elif name in ("extend", "update", "extendleft"):
                self.into(e.func.value, element(allargs), env)
            if name in VALUE_MUTATORS:
                out |= element(base)
            return frozenset(out)
        if statement and name in ("define", "load_definitions", "enable_contexts", "set_application_registry"):
            self.write(frozenset(a for a in base if a[0][0] in "gx"), e, what, env)
        if name == "copy":
            if const.get("deep") is True:
                for r, lv, d in base:
                    if not d and lv in ("same", "elem", "data", "hold", "holdf"):
                        out.add((r, "holdf", 0))
                if ext and all(t.what == "DatetimeIndex" for t in ext):
                    out = set()
                return frozenset(a for a in out if not (a[1] == "holdf" and False))
            for r, lv, d in base:
                if d:
                    out.add((r, lv, d))
                    continue
                if const.get("deep") is False:
                    out |= {(r, "data", 0), (r, "hold", 0)}
                if lv in ("same", "elem", "data", "hold", "holdf"):
                    out.add((r, "holdf", 0))
                if lv in ("same", "elem", "idx", "idxf"):
                    out.add((r, "idxf", 0))
                if lv in ("same", "elem") and not pandasish:
                    out.add((r, "elem", 1))
            return frozenset(out)
        if name in ("items", "values", "iteritems"):
            return frozenset(out) | wrap(element(base))
        if name in VIEW_METHODS:
            for r, lv, d in base:
                if d:
                    out.add((r, lv, d - 1))
                elif lv in ("same", "elem", "data"):
                    out.add((r, "elem" if name == "get" and lv != "data" else "data", 0))
                elif lv in ("hold", "holdf"):
                    out.add((r, lv, 0))
                elif name == "view":
                    out.add((r, "idxf", 0))
            if name == "get" and len(args) > 1:
                out |= args[1]
            return frozenset(out)
        if name in ELEMENTWISE_FRESH:
            return frozenset(out)
        if name in ("rename", "set_names", "_view"):
            out |= {(r, "idxf", 0) for r, lv, d in base if not d and lv in ("idx", "idxf", "same")}
            for r, lv, d in base:
                if not d and lv in ("same", "elem", "data"):
                    out.add((r, "hold", 0))
        if const.get("copy") is False:
            out |= {(r, "data", 0) for r, lv, d in base if not d and lv in ("same", "elem", "data")}
        if name in ("set_axis", "reindex", "set_index"):
            out |= hold(allargs)
            if name == "set_axis":
                return frozenset(out)
        if name in ("pipe", "apply", "map", "agg", "transform"):
            return frozenset(out)
        out |= {a for a in hold(base) if True}
        return frozenset(out)

    def external(self, d, e, args, kws, const, env, star, statement):
        what = text(e)[:60]
        short = d.split(".")[-1]
        if d in FIRST_ARG and args:
            self.write(args[0], e, what, env)
        if "out" in kws:
            self.write(kws["out"], e, what, env)
        if d in ("builtins.setattr", "builtins.delattr", "builtins.object.__setattr__", "builtins.object.__delattr__") and e.args:
            fake = ast.Attribute(e.args[0], e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str) else "?", ast.Store())
            ast.copy_location(fake, e)
            self.write_attr(args[0] if args else EMPTY, fake, e, env)
            if len(args) > 2:
                self.into(e.args[0], args[2], env)
            return EMPTY
        if d.startswith("builtins."):
            b = d[9:]
            if b in CONTAINERS:
                out = EMPTY
                for v in [*args, *kws.values()]:
                    out |= wrap(element(v))
                return out
            if b == "next" and args:
                self.write(frozenset(a for a in args[0] if a[0][0] in ("g", "free")), e, what, env)
                return element(args[0])
            if b == "getattr" and args:
                nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
                base = args[0]
                out = self.attr(base, nm) if nm else self.attr(base, "?") | self.attr(base, "index")
                return out | (args[2] if len(args) > 2 else EMPTY)
            if b == "vars" and args:
                return self.attr(args[0], "__dict__")
            if b in ("max", "min"):
                out = EMPTY
                for v in args:
                    out |= element(v)
                return out
            if b in ("list.append", "list.extend", "dict.update", "list.sort", "list.insert") and args:
                self.write(args[0], e, what, env)
            return EMPTY
        if d in ("copy.copy",) and args:
            return wrap(element(args[0])) | frozenset((r, "holdf", 0) for r, lv, dd in args[0] if not dd)
        if d == "copy.deepcopy":
            return EMPTY
        if d in ("pandas.DataFrame", "pandas.Series", "numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.ravel", "numpy.reshape", "pandas.DatetimeIndex", "pandas.Index"):
            first = args[0] if args else kws.get("data", EMPTY)
            out = set()
            for r, lv, dd in first:
                if dd:
                    out |= set(hold([(r, lv, 0)]))
                elif lv in ("same", "elem", "data"):
                    if short not in ("array", "DatetimeIndex", "Index") and const.get("copy") is not True:
                        out.add((r, "data", 0))
                    out.add((r, "hold", 0))
                elif lv in ("hold", "holdf"):
                    out.add((r, lv, 0))
            idx = args[1] if len(args) > 1 and short in ("DataFrame", "Series") else EMPTY
            out |= hold(idx | kws.get("index", EMPTY))
            return frozenset(out)
        if d in ("pandas.concat",):
            v = args[0] if args else kws.get("objs", EMPTY)
            return hold(frozenset((r, lv, 0) for r, lv, dd in v if dd) | element(v))
        if isinstance(e.func, ast.Attribute):  # method of a library object that is a global, e.g. np.random.default_rng
            base = self.ev(e.func.value, env)
            name = e.func.attr
            if (statement and name in STATEMENT_MUTATORS) or name in VALUE_MUTATORS:
                self.write(base, e, what, env)
        return EMPTY

    def apply(self, g, args, kws, e, env, star=EMPTY, effects_only=False):
        """Effects and result of calling an own function."""
        if g.decorators and not g.is_property and not g.is_static and not g.is_classmethod and any(d.split(".")[-1] in ("contextmanager",) for d in g.decs):
            pass
        s = self.A.sum[g]
        bound = {}
        for p, v in zip(g.pos, args):
            bound[p] = v
        if len(args) > len(g.pos) and g.vararg:
            for v in args[len(g.pos) :]:
                bound[g.vararg] = bound.get(g.vararg, EMPTY) | v
        for k, v in kws.items():
            if k in g.pos or k in g.kwonly:
                bound[k] = v
            elif g.kwarg:
                bound[g.kwarg] = bound.get(g.kwarg, EMPTY) | v
        if star:
            for p in g.pos + g.kwonly:
                bound.setdefault(p, star)
            for p in (g.vararg, g.kwarg):
                if p:
                    bound[p] = bound.get(p, EMPTY) | star
        for (root, lv, how), eff in s.mutates.items():
            if root[0] == "p":
                if g.name in INIT and root[1] == (g.pos[0] if g.pos else None):
                    continue
                v = bound.get(root[1], EMPTY)
                if root[1] in (g.vararg, g.kwarg):
                    targets = [(r, l2) for r, l2, d in v if d == 0]
                else:
                    targets = []
                    for r, l2, d in v:
                        if d:
                            if d == 1 and lv in ("elem", "data"):
                                targets.append((r, l2))
                        else:
                            targets += [(r, x) for x in compose(l2, lv)]
                for r, l2 in targets:
                    if l2 in ("same", "elem", "data") or (l2 in ("idx", "idxf") and lv in ("idx", "idxf", "same")):
                        if (r, l2, how) not in self.s.mutates:
                            self.s.mutates[(r, l2, how)] = eff
                            self.s.via[(r, l2, how)] = (self.f.qual, *s.via.get((root, lv, how), ()), g.qual)
            elif root[0] == "free":
                pass
            # effects on globals are reported where they are
        if effects_only:
            return EMPTY
        out = set()
        for root, lv, d in s.returns:
            if root[0] == "p":
                v = bound.get(root[1], EMPTY)
                for r, l2, dd in v:
                    if root[1] in (g.vararg, g.kwarg):
                        out.add((r, l2, min(d + dd, DEEP)))
                        continue
                    if dd:
                        if lv == "same":
                            out.add((r, l2, min(d + dd, DEEP)))
                        elif lv in ("elem", "data"):
                            out |= {(r, l2, min(d + k, DEEP)) for k in range(dd)}
                        continue
                    out |= {(r, x, d) for x in compose(l2, lv)}
            elif root[0] in "gx":
                out.add((root, lv, d))
        return frozenset(out)

    def inner_effects(self, g, env):
        """A nested function may be called; what it does to the variables of this one counts here."""
        s = self.A.sum[g]
        for (root, lv, how), eff in s.mutates.items():
            if root[0] == "p" and root[1] in g.params:
                continue
            if root[0] == "p" and root[1] in self.f.params or root[0] == "free":
                if (root, lv, how) not in self.s.mutates and not (root[0] == "free" and root[1] == self.f.qual):
                    self.s.mutates[(root, lv, how)] = eff
                    self.s.via[(root, lv, how)] = (self.f.qual, g.qual)


def op(s):
    return {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.BitOr: "|", ast.BitAnd: "&"}.get(type(s.op), "?")


def terminates(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def mutable_ann(ann):
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return True
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        return mutable_ann(ann.left) or mutable_ann(ann.right)
    if isinstance(ann, ast.Constant) and ann.value is None:
        return False
    if isinstance(ann, ast.Subscript):
        d = (dotted_of(ann.value) or "").split(".")[-1]
        if d in ("Union", "Optional"):
            s = ann.slice
            return any(mutable_ann(x) for x in (s.elts if isinstance(s, ast.Tuple) else [s]))
        ann = ann.value
    d = (dotted_of(ann) or "?").split(".")[-1]
    return d not in IMMUTABLE_ANN
