"""G02: results do not depend on the order of sets, on hashes and identities, on the clock or on random numbers.

Kinds of values:  SET (an unordered collection), SEQ (a sequence, in the order of a set), MAP (a dictionary whose keys are in the
order of a set), ELEM (one element that the order of a set decides on), BOX (a list or tuple with such a value in it). A flow-sensitive walk over each function follows them,
also through calls of the package's own functions, to the place where the order becomes visible."""

from __future__ import annotations

import ast

from .model import Class, Ext, Func, Var, dotted_of, own_nodes
from .paths import text
from .rules_returns import is_generator, scope_resolver

EMPTY = frozenset()
SET, SEQ, MAP, ELEM, BOX = (frozenset([k]) for k in ("SET", "SEQ", "MAP", "ELEM", "BOX"))
ORDERED = SEQ | MAP | ELEM | BOX

BUILTIN_OK = frozenset("len sorted min max any all set frozenset isinstance issubclass bool type sum callable hasattr print".split())
TO_SEQ = frozenset("list tuple iter enumerate zip map filter reversed".split())
METHOD_OK = frozenset(
    "isin issubset issuperset isdisjoint union intersection difference symmetric_difference update intersection_update difference_update symmetric_difference_update add discard remove "
    "drop sort clear count copy append extend insert warn warning debug info error".split()
)
SET_METHODS = frozenset("union intersection difference symmetric_difference copy".split())
EXT_OK = frozenset("warnings.warn numpy.isin pandas.isna functools.reduce".split())

CLOCK = {
    "pandas.Timestamp.now", "pandas.Timestamp.today", "pandas.Timestamp.utcnow", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today",
    "time.time", "time.time_ns", "time.localtime", "time.gmtime", "time.ctime", "time.perf_counter", "time.monotonic", "time.process_time", "time.strftime",
}
CHANCE = ("random.", "numpy.random.", "secrets.", "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getpid", "threading.get_ident", "tempfile.")
UNORDERED_EXT = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob", "concurrent.futures.as_completed"}
AMBIENT = {"os.getcwd", "os.environ", "os.getenv", "socket.gethostname", "locale.getlocale", "locale.getdefaultlocale", "time.tzname", "time.timezone", "dateutil.tz.tzlocal", "tzlocal.get_localzone"}
# documented to use the current time if nothing is specified
CLOCK_USERS = {"portfolyo.tools.leftandright.stamps"}


class Env:
    def __init__(self, kinds=None, single=EMPTY):
        self.kinds = dict(kinds or {})
        self.single = single  # texts of collections that are known to have at most one element

    def copy(self):
        return Env(self.kinds, self.single)

    def set(self, name, kind):
        self.single = frozenset(t for t in self.single if name not in names_of(t))
        if kind:
            self.kinds[name] = kind
        else:
            self.kinds.pop(name, None)


def names_of(t):
    return {n.id for n in ast.walk(ast.parse(t, mode="eval")) if isinstance(n, ast.Name)}


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = Env()
    for n in set(a.kinds) | set(b.kinds):
        out.kinds[n] = a.kinds.get(n, EMPTY) | b.kinds.get(n, EMPTY)
    out.single = a.single & b.single
    return out


def same(a, b):
    return a is b or (a is not None and b is not None and a.kinds == b.kinds and a.single == b.single)


class Order:
    def __init__(self, P):
        self.P = P
        self.returns = {f: EMPTY for f in P.funcs}
        self.params = {f: {} for f in P.funcs}
        self.found = {}
        self.nodes = 0
        for f in P.funcs:
            for p, a in f.ann.items():
                if a is not None and set_annotation(a):
                    self.params[f][p] = SET
        for _ in range(8):
            before = (dict(self.returns), {f: dict(k) for f, k in self.params.items()})
            self.found = {}
            self.nodes = 0
            for f in P.funcs:
                One(self, f).run()
            if before == (self.returns, self.params):
                break


def set_annotation(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return False
    b = a.value if isinstance(a, ast.Subscript) else a
    return (dotted_of(b) or "").split(".")[-1] in ("set", "Set", "frozenset", "FrozenSet", "AbstractSet", "MutableSet")


class One:
    def __init__(self, O, f):
        self.O, self.f = O, f
        self.res = scope_resolver(O.P, f)
        self.ret = EMPTY
        self.quiet = 0
        self.loops = []  # kinds of the collections that enclosing loops iterate over
        self.types = None

    def run(self):
        f = self.f
        env = Env(self.O.params[f])
        if isinstance(f.node, ast.Lambda):
            self.ret = self.ev(f.node.body, env)
        else:
            self.block(f.node.body, env)
        self.O.returns[f] = self.O.returns[f] | (self.ret & (SET | SEQ | MAP | BOX))

    def report(self, node, what, message):
        if self.quiet:
            return
        key = (self.f.qual, what)
        self.O.found.setdefault(key, (message, self.f.loc(node)))

    # -- statements

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        self.O.nodes += 1
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return env
        if isinstance(s, ast.Return):
            k = self.ev(s.value, env) if s.value is not None else EMPTY
            self.returned(s, k)
            if self.loops and s.value is not None and not constant(s.value):
                self.report(s, f"return {text(s.value)}", "which element is returned depends on the order of a set")
            return None
        if isinstance(s, ast.Raise):
            self.quiet += 1
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x, env)
            self.quiet -= 1
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None if not self.loops else env
        if isinstance(s, ast.Assert):
            self.ev(s.test, env)
            return self.assume(s.test, True, env)
        if isinstance(s, ast.Expr):
            self.effect(s.value, env)
            return env
        if isinstance(s, ast.Assign):
            if self.only_for_errors(s.targets):
                self.quiet += 1
                self.ev(s.value, env)
                self.quiet -= 1
                return env
            k = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, k, env, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                k = self.ev(s.value, env)
                self.assign(s.target, k | (SET if set_annotation(s.annotation) else EMPTY), env, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            k = self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                old = env.kinds.get(s.target.id, EMPTY)
                new = old | (SET & k if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and old & SET else EMPTY)
                if isinstance(s.op, ast.Add) and k & (SEQ | ELEM):
                    new |= SEQ
                if self.loops and isinstance(s.op, ast.Add) and not constant(s.value) and self.depends(s.value) and listlike(s.value):
                    new |= SEQ
                env.set(s.target.id, new)
            elif k & ORDERED:
                self.report(s, text(s.target), f"a value in the order of a set is stored in {text(s.target)}")
            return env
        if isinstance(s, ast.Delete):
            return env
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            a = self.block(s.body, self.assume(s.test, True, env.copy()))
            b = self.block(s.orelse, self.assume(s.test, False, env.copy()))
            return join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            k = self.ev(s.iter, env)
            unordered = bool(k & (SET | SEQ | MAP)) and not self.is_single(s.iter, env)
            if unordered:
                self.loops.append((s, {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}))
            before = env.copy()
            cur = env
            for _ in range(4):
                start = cur.copy()
                self.bind_elements(s.target, k, start)
                end = self.block(s.body, start)
                nxt = join(cur, end)
                if same(nxt, cur):
                    break
                cur = nxt
            if unordered:
                self.loops.pop()
                self.last_wins(s, cur)
            if s.orelse:
                cur = self.block(s.orelse, cur)
            return cur if cur is not None else before
        if isinstance(s, ast.While):
            cur = env
            for _ in range(4):
                self.ev(s.test, cur)
                end = self.block(s.body, self.assume(s.test, True, cur.copy()))
                nxt = join(cur, end)
                if same(nxt, cur):
                    break
                cur = nxt
            return self.assume(s.test, False, cur) if not (isinstance(s.test, ast.Constant) and s.test.value) else cur
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, EMPTY, env, i.context_expr)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            start = env.copy()
            a = self.block(s.body, env)
            out = self.block(s.orelse, a) if a is not None else None
            for h in s.handlers:
                out = join(out, self.block(h.body, join(start.copy(), a)))
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else start.copy()) if out is not None else (self.block(s.finalbody, start.copy()), None)[1]
            return out
        if isinstance(s, ast.Match):
            self.ev(s.subject, env)
            out = env.copy()
            for c in s.cases:
                out = join(out, self.block(c.body, env.copy()))
            return out
        return env

    def returned(self, s, k):
        self.ret |= k
        if k & ELEM:
            self.report(s, f"return {text(s.value)}", "which element is returned depends on the order of a set")
        elif k & (SEQ | MAP | BOX) and self.f.public and self.f.parent is None:
            self.report(s, f"return {text(s.value)}", "the returned elements are in the order of a set")

    def only_for_errors(self, targets):
        """The variable is read in error messages only."""
        names = {n.id for t in targets for n in ast.walk(t) if isinstance(n, ast.Name)}
        if not all(isinstance(t, ast.Name) for t in targets):
            return False
        inside = set()
        for n in own_nodes(self.f.node):
            if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and text(n.func).split(".")[-1] in ("warn", "warning", "debug", "info", "error")):
                inside |= {id(x) for x in ast.walk(n)}
            elif isinstance(n, ast.Assert) and n.msg is not None:
                inside |= {id(x) for x in ast.walk(n.msg)}
        reads = [n for n in own_nodes(self.f.node) if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load)]
        return bool(reads) and all(id(n) in inside for n in reads)

    def assign(self, t, k, env, value):
        if isinstance(t, ast.Name):
            env.set(t.id, k)
            if k and isinstance(value, ast.Name) and value.id in env.single:
                env.single |= {t.id}
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                ks = [self.ev(v, env) for v in value.elts]
                for x, kk, v in zip(t.elts, ks, value.elts):
                    self.assign(x, kk, env, v)
                return
            if len(t.elts) != 1 and k & (SET | SEQ | MAP) and not self.is_single(value, env):
                self.report(t, text(t), "elements of a set are told apart by their order")
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x, SEQ if k & BOX else EMPTY, env, None)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            if self.loops and isinstance(t.value, ast.Name) and not isinstance(t.slice, ast.Slice):
                if self.depends(t.slice) and not pandas_like(t):
                    env.kinds[t.value.id] = env.kinds.get(t.value.id, EMPTY) | MAP
            if k & ORDERED:
                self.report(t, text(t), f"a value in the order of a set is stored in {text(t)}")
        elif isinstance(t, ast.Attribute):
            if k & ORDERED:
                self.report(t, text(t), f"a value in the order of a set is stored in {text(t)}")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, k, env, value)

    def bind_elements(self, target, k, env):
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                env.set(n.id, SEQ if k & BOX else EMPTY)

    def depends(self, e):
        """The value depends on the element of an unordered loop (or on something computed from it)."""
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        for s, targets in self.loops:
            got = set(targets)
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & got:
                    got |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
                elif isinstance(n, (ast.For, ast.comprehension)) and {x.id for x in ast.walk(n.iter) if isinstance(x, ast.Name)} & got:
                    got |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.NamedExpr) and {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & got:
                    got.add(n.target.id)
            if names & got:
                return True
        return False

    def last_wins(self, loop, env):
        """Variables that are assigned in every round, and read after the loop."""
        targets = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        end = loop.end_lineno
        after = {n.id for n in own_nodes(self.f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > end}
        self.loops.append((loop, targets))
        for s in loop.body:
            if isinstance(s, ast.Assign) and self.depends(s.value):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id in after and t.id not in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}:
                        env.kinds[t.id] = env.kinds.get(t.id, EMPTY) | ELEM
        self.loops.pop()

    def effect(self, e, env):
        """An expression as a statement."""
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            k = self.ev(e.value, env) if e.value is not None else EMPTY
            if self.loops or (isinstance(e, ast.YieldFrom) and k & (SET | SEQ | MAP)):
                self.ret |= SEQ
                if self.f.public and self.f.parent is None:
                    self.report(e, text(e), "elements are generated in the order of a set")
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            name, m = e.func.value.id, e.func.attr
            ks = EMPTY
            for a in e.args:
                ks |= self.ev(a.value if isinstance(a, ast.Starred) else a, env)
            if m in ("append", "extend", "insert", "appendleft"):
                if self.loops and any(self.depends(a) for a in e.args) or (m == "extend" and ks & (SET | SEQ | MAP)) or ks & ELEM:
                    env.kinds[name] = env.kinds.get(name, EMPTY) | SEQ
                elif ks & ORDERED:
                    self.report(e, text(e.func), "a value in the order of a set is stored in a list")
                return
            if m == "sort":
                env.kinds.pop(name, None)
                return
            if m == "update" and not env.kinds.get(name, EMPTY) & SET and (ks & (SEQ | MAP) or (self.loops and any(self.depends(a) for a in e.args))):
                env.kinds[name] = env.kinds.get(name, EMPTY) | MAP
                return
            if m == "add":
                return
            if m in ("pop", "popitem") and env.kinds.get(name, EMPTY) & SET:
                return  # the element is not used
        self.ev(e, env)

    # -- conditions

    def assume(self, test, truth, env):
        if env is None:
            return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not truth, env)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    env = self.assume(v, truth, env)
            return env
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
                l, r, op = r, l, flip.get(type(op), type(op))()
            if isinstance(l, ast.NamedExpr):
                l = l.value if not isinstance(l.value, ast.Call) else l.value
            if isinstance(l, ast.Call) and dotted_of(l.func) == "len" and len(l.args) == 1 and isinstance(r, ast.Constant) and isinstance(r.value, int):
                n = r.value
                few = (
                    (isinstance(op, ast.Eq) and truth and n <= 1)
                    or (isinstance(op, ast.NotEq) and not truth and n <= 1)
                    or (isinstance(op, ast.Gt) and not truth and n <= 1)
                    or (isinstance(op, ast.GtE) and not truth and n <= 2)
                    or (isinstance(op, ast.Lt) and truth and n <= 2)
                    or (isinstance(op, ast.LtE) and truth and n <= 1)
                )
                if few:
                    a = l.args[0]
                    if isinstance(a, ast.NamedExpr):
                        a = a.target
                    env.single |= {text(a)}
        elif not truth and isinstance(test, ast.Name):
            env.single |= {test.id}
        return env

    def is_single(self, e, env):
        if e is None:
            return False
        if isinstance(e, ast.Call) and dotted_of(e.func) in TO_SEQ | {"set", "frozenset", "sorted"} and len(e.args) == 1:
            return text(e) in env.single or self.is_single(e.args[0], env)
        if isinstance(e, ast.Set) and len(e.elts) == 1 and not isinstance(e.elts[0], ast.Starred):
            return True
        return text(e) in env.single

    # -- expressions

    def ev(self, e, env):
        if e is None:
            return EMPTY
        if isinstance(e, ast.Name):
            return env.kinds.get(e.id, EMPTY) if e.id in env.kinds else self.static(self.res(e), e)
        if isinstance(e, ast.Constant):
            return EMPTY
        if isinstance(e, ast.NamedExpr):
            k = self.ev(e.value, env)
            env.set(e.target.id, k)
            return k
        if isinstance(e, ast.Set):
            for x in e.elts:
                self.ev(x, env)
            return SET
        if isinstance(e, (ast.SetComp, ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, env)
        if isinstance(e, (ast.List, ast.Tuple)):
            out = EMPTY
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    k = self.ev(x.value, env)
                    if k & (SET | SEQ | MAP) and not self.is_single(x.value, env):
                        out |= SEQ
                else:
                    k = self.ev(x, env)
                    out |= BOX if k & ORDERED else EMPTY
            return out
        if isinstance(e, ast.Dict):
            out = EMPTY
            for x, v in zip(e.keys, e.values):
                k = self.ev(v, env)
                if x is None:
                    out |= MAP if k & (SEQ | MAP) else EMPTY
                else:
                    self.ev(x, env)
                    out |= MAP if k & ORDERED else EMPTY
            return out
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
                return ((a | b) & SET) | ((a | b) & MAP)
            return (SEQ if (a | b) & (SEQ | ELEM) else EMPTY)
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            cur = env
            for v in e.values:
                out |= self.ev(v, cur)
                cur = self.assume(v, isinstance(e.op, ast.And), cur.copy())
            for n in ast.walk(e):
                if isinstance(n, ast.NamedExpr) and n.target.id in cur.kinds:
                    env.kinds[n.target.id] = cur.kinds[n.target.id]
            return out
        if isinstance(e, ast.UnaryOp):
            self.ev(e.operand, env)
            return EMPTY
        if isinstance(e, ast.Compare):
            ks = [self.ev(x, env) for x in [e.left, *e.comparators]]
            if any(k & SEQ for k in ks) and not all(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops):
                if not any(self.is_single(x, env) for x in [e.left, *e.comparators]):
                    self.report(e, text(e), "something in the order of a set is compared")
            return EMPTY
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, self.assume(e.test, True, env.copy())) | self.ev(e.orelse, self.assume(e.test, False, env.copy()))
        if isinstance(e, ast.Attribute):
            v = self.res(e)
            if v is not None:
                return self.static(v, e)
            self.ev(e.value, env)
            return EMPTY
        if isinstance(e, ast.Subscript):
            k = self.ev(e.value, env)
            ks = self.ev(e.slice, env)
            if k & SEQ and not self.is_single(e.value, env):
                if isinstance(e.slice, ast.Slice):
                    return SEQ if e.slice.lower is None and e.slice.upper is None else SEQ | ELEM
                if number(e.slice):
                    self.report(e, text(e), "which element this is depends on the order of a set")
                return EMPTY
            if k & BOX:
                return SEQ
            if ks & SEQ:
                return SEQ  # columns or rows in this order
            return EMPTY
        if isinstance(e, ast.JoinedStr):
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    k = self.ev(v.value, env)
                    if k & (SET | SEQ | MAP) and not self.is_single(v.value, env):
                        self.report(e, text(v.value), "the text depends on the order of a set")
            return EMPTY
        if isinstance(e, ast.Lambda):
            return EMPTY
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            return self.ev(e.value, env) if e.value is not None else EMPTY
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.ev(x, env)
            return EMPTY
        if isinstance(e, ast.Call):
            return self.call(e, env)
        return EMPTY

    def static(self, v, e):
        if isinstance(v, Var) and v.value is not None:
            if isinstance(v.value, (ast.Set, ast.SetComp)) or (isinstance(v.value, ast.Call) and dotted_of(v.value.func) in ("set", "frozenset")):
                return SET
        if isinstance(v, Func) and v.is_property:
            return self.O.returns.get(v, EMPTY)
        return EMPTY

    def comp(self, e, env):
        inner = env.copy()
        unordered = False
        pushed = 0
        for g in e.generators:
            k = self.ev(g.iter, inner)
            if k & (SET | SEQ | MAP) and not self.is_single(g.iter, inner):
                unordered = True
                self.loops.append((e, {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}))
                pushed += 1
            self.bind_elements(g.target, k, inner)
            for c in g.ifs:
                self.ev(c, inner)
        for _ in range(pushed):
            self.loops.pop()
        if isinstance(e, ast.DictComp):
            k = self.ev(e.key, inner) | self.ev(e.value, inner)
        else:
            k = self.ev(e.elt, inner)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                env.set(n.target.id, EMPTY)
        if isinstance(e, ast.SetComp):
            return SET
        bad = unordered or bool(k & ORDERED)
        if isinstance(e, ast.DictComp):
            return MAP if bad else EMPTY
        return SEQ if bad else EMPTY

    def call(self, e, env):
        v = self.res(e.func)
        args = []
        for a in e.args:
            star = isinstance(a, ast.Starred)
            x = a.value if star else a
            k = self.ev(x, env)
            if self.is_single(x, env):
                k &= SET
            args.append((x, SEQ if star and k & (SET | SEQ | MAP) and not self.is_single(x, env) else k, None))
        for a in e.keywords:
            k = self.ev(a.value, env)
            if self.is_single(a.value, env):
                k &= SET
            args.append((a.value, k, a.arg))
        name = dotted_of(e.func)
        every = frozenset().union(*[k for x, k, n in args]) if args else EMPTY
        builtin = name if isinstance(e.func, ast.Name) and not isinstance(v, (Func, Class, Var)) else None
        if isinstance(v, Ext) and v.dotted.startswith("builtins."):
            builtin = v.dotted.split(".")[1]
        if builtin in ("set", "frozenset"):
            return SET
        if builtin in BUILTIN_OK:
            return EMPTY
        if builtin == "next":
            if args and args[0][1] & SEQ:
                self.report(e, text(e), "which element this is depends on the order of a set")
            return EMPTY
        if builtin in TO_SEQ:
            hot = any(k & (SET | SEQ | MAP) and not self.is_single(x, env) for x, k, n in args)
            return SEQ if hot else EMPTY
        if builtin == "dict":
            return MAP if every & (SEQ | MAP) else EMPTY
        if isinstance(v, Ext) and v.dotted in UNORDERED_EXT:
            return SEQ
        if isinstance(e.func, ast.Attribute) and not isinstance(v, (Func, Class)):
            base = self.ev(e.func.value, env) if v is None else EMPTY
            m = e.func.attr
            if base & SET:
                if m in SET_METHODS:
                    return SET
                if m == "pop":
                    if not self.is_single(e.func.value, env):
                        self.report(e, text(e), "which element this is depends on the order of a set")
                    return EMPTY
            if m == "keys" and not e.args:
                return SEQ if base & MAP else EMPTY
            if m in ("items", "values") and base & MAP:
                return SEQ
            if m == "copy" and base:
                return base
            if m in ("intersection", "union", "difference", "symmetric_difference") and isinstance(v, Ext):
                return SET
            if m == "fromkeys":
                return MAP if every & (SET | SEQ | MAP) else EMPTY
            if m == "join" and every & (SET | SEQ | MAP):
                self.report(e, text(e), "the text depends on the order of a set")
                return EMPTY
            if m in METHOD_OK:
                return EMPTY
            if m == "reindex" or m == "loc":
                return SEQ if every & (SET | SEQ | MAP) else EMPTY
        if isinstance(v, Class) or isinstance(v, Func):
            self.pass_on(v, e, args)
            if isinstance(v, Func):
                return self.O.returns.get(v, EMPTY)
            hot = [x for x, k, n in args if k & ORDERED]
            if hot and not v.is_enum:
                self.report(e, text(e.func), f"{text(hot[0])}, in the order of a set, becomes part of an object")
            return EMPTY
        if isinstance(v, Ext) and v.dotted in EXT_OK:
            return EMPTY
        hot = [x for x, k, n in args if k & ORDERED]
        if hot:
            # the result has the order, e.g. of columns
            return SEQ
        if any(k & SET and not self.is_single(x, env) for x, k, n in args) and isinstance(v, Ext) and v.dotted.split(".")[0] in ("pandas", "numpy", "itertools"):
            return SEQ
        return EMPTY

    def pass_on(self, v, e, args):
        f = v
        if isinstance(v, Class):
            f = v.lookup("__init__") if hasattr(v, "lookup") else None
            f = self.O.P.deref(f[0]) if isinstance(f, list) and f else f
            if not isinstance(f, Func):
                return
        names = list(f.pos)
        if names and (isinstance(v, Class) or (f.cls is not None and not f.is_static and isinstance(e.func, ast.Attribute) and not isinstance(self.res(e.func.value), Class))):
            names = names[1:]
        i = 0
        for x, k, n in args:
            if n is None:
                p = names[i] if i < len(names) else None
                i += 1
            else:
                p = n
            if p is not None and k & (SET | SEQ | MAP) and f in self.O.params and p in f.params:
                self.O.params[f][p] = self.O.params[f].get(p, EMPTY) | (k & (SET | SEQ | MAP))


def constant(e):
    return isinstance(e, ast.Constant) or (isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant))


def number(e):
    e = e.operand if isinstance(e, ast.UnaryOp) else e
    return isinstance(e, ast.Constant) and isinstance(e.value, int)


def listlike(e):
    return isinstance(e, (ast.List, ast.Tuple, ast.ListComp, ast.JoinedStr)) or (isinstance(e, ast.Constant) and isinstance(e.value, str))


def pandas_like(t):
    return isinstance(t.value, ast.Attribute) and t.value.attr in ("loc", "iloc", "at", "iat")


def G02(rep, P, tier):
    O = Order(P)
    bad = set()
    for (qual, what), (message, loc) in O.found.items():
        bad.add(qual)
        rep.violate("order of sets", f"{qual}: {what}", message, loc)
    for f in P.funcs:
        rep.functions.add(f.qual)
        if f.qual not in bad:
            rep.ok("order of sets")
    rep.ok("order of sets: statements", O.nodes)
    for f in P.funcs:
        outside(rep, P, f, own_nodes(f.node), scope_resolver(P, f), f.qual, f)
    for m in P.modules.values():
        nodes = []
        for s in m.tree.body:
            nodes += top_level(s)
        outside(rep, P, m, nodes, lambda e, m=m: P.resolve_expr(m, e), m.name, None)


def top_level(s):
    """Nodes that are evaluated when the module is imported."""
    out = []
    todo = [s]
    while todo:
        n = todo.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += [*n.decorator_list, *n.args.defaults, *[d for d in n.args.kw_defaults if d is not None]]
        elif isinstance(n, ast.Lambda):
            todo += n.args.defaults
        else:
            todo += list(ast.iter_child_nodes(n))
    return out


def example_data(name):
    return name.startswith("portfolyo.dev")


def outside(rep, P, owner, nodes, res, qual, f):
    nodes = list(nodes)
    heads = {id(n.value) for n in nodes if isinstance(n, ast.Attribute)}
    for n in nodes:
        if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(n.ctx, ast.Load) or (id(n) in heads and isinstance(n, ast.Attribute)):
            continue
        v = res(n)
        if v is None and isinstance(n, ast.Name):
            continue
        d = v.dotted if isinstance(v, Ext) else None
        if d is None:
            continue
        if d.startswith("builtins."):
            d = d.split(".", 1)[1]
        loc = f.loc(n) if f is not None else (owner.rel, n.lineno)
        if d in CLOCK:
            if qual in CLOCK_USERS:
                rep.ok("clock")
            else:
                rep.violate("clock", f"{qual}: {d}", "the result depends on the moment of the call", loc)
        elif any(d.startswith(c) for c in CHANCE):
            if example_data(qual):
                rep.ok("chance")
            else:
                rep.violate("chance", f"{qual}: {d}", "the result depends on random numbers", loc)
        elif d in AMBIENT or any(d.startswith(a + ".") for a in AMBIENT):
            rep.violate("surroundings", f"{qual}: {d}", "the result depends on the machine or process", loc)
        elif d in ("hash", "id"):
            if f is not None and f.name in ("__hash__",):
                rep.ok("hashes")
            else:
                rep.violate("hashes", f"{qual}: {d}", f"the result depends on {d}()", loc)
        else:
            rep.ok("library calls")
