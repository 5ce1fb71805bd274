"""Abstract interpreter for the package source (path-partitioned, per context)."""

from __future__ import annotations

import itertools
import ast
import functools
import re
import builtins
from pathlib import Path

from . import expr as E
from .values import (
    ALLOWED_OFFSETS, AbsRaise, BoolV, BoundMethod, ClassM, ColsV, EnumMember, ExcInst, ExcType, Ext,
    FrameV, FreqV, Idx, Instance, LenV, ModuleVal, Native, Num, Offset, Property, PyClass, PyFunc,
    SeriesV, StampV, StaticM, StrV, TokV, Top, TSet, UnitV, builtin_exc,
)


class Abort(Exception):
    """Path is given up (unknown loop, budget, recursion, ...)."""


class Package:
    """All modules of the package, parsed."""

    def __init__(self, root):
        self.root = Path(root)
        self.name = self.root.name
        self.mods = {}
        for p in sorted(self.root.rglob("*.py")):
            rel = p.relative_to(self.root.parent).with_suffix("")
            parts = list(rel.parts)
            ispkg = parts[-1] == "__init__"
            if ispkg:
                parts = parts[:-1]
            src = p.read_text(encoding="utf-8")
            self.mods[".".join(parts)] = dict(path=p, src=src, tree=ast.parse(src), ispkg=ispkg)
        for name in list(self.mods):  # folders without __init__
            while "." in name:
                name = name.rpartition(".")[0]
                if name not in self.mods:
                    self.mods[name] = dict(path=self.root, src="", tree=ast.parse(""), ispkg=True)


class Env:
    __slots__ = ("vars", "parent", "module", "cls", "fn", "kind", "selfarg", "globals_", "nonlocals")

    def __init__(self, parent, module, kind="function", cls=None, fn=None):
        self.vars, self.parent, self.module, self.kind, self.cls, self.fn = {}, parent, module, kind, cls, fn
        self.selfarg = None
        self.globals_, self.nonlocals = set(), set()


class Trace:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []  # (key, choice, n)
        self.facts = {}
        self.imprecise = []
        self.events = []
        self.freqs = {}
        self.subsets = set()  # (frozenset A, frozenset B): A subset of B
        self.owned = {}
        self.steps = 0
        self.calls = {}
        self.ret_site = None


class Outcome:
    def __init__(self, kind, value, trace):
        self.kind, self.value, self.trace = kind, value, trace
        self.imprecise = trace.imprecise

    @property
    def facts(self):
        return self.trace.facts

    def path(self):
        return "; ".join(f"{k}={v}" for k, v in self.facts.items()) or "(no condition)"


MISSING = object()


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


BUILTIN_TYPES = {"int", "float", "str", "bool", "list", "dict", "set", "tuple", "frozenset", "object", "type", "bytes", "complex", "slice", "range"}


EMPTY = frozenset(["~empty"])


def some_rows(ts):
    """Are there rows of this sort: True, False, or None (unknown)."""
    from .lib import MASKS, mask_preds, mask_value

    masks = [MASKS[t] for t in ts if t in MASKS]
    if not masks or len(ts) != len(masks) + 1 or "(" in next(t for t in ts if t not in MASKS):
        return None
    names = sorted(set().union(*[mask_preds(m) for m in masks]))
    if len(names) > 6 or not all(n.startswith("$") for n in names):
        return None
    return any(all(mask_value(m, dict(zip(names, sides))) for m in masks) for sides in itertools.product((True, False), repeat=len(names)))


@functools.lru_cache(None)
def implied(a):
    """Sets of timestamps that the full periods of which were taken: full(X&Y -> MS) is part of X and of Y."""
    m = re.fullmatch(r"full\((.*) -> \S+\)((?:@\S+)?)", a)
    if not m or not balanced(m[1]):
        return frozenset()
    out = frozenset(x + m[2] for x in split_top(m[1]))
    return out.union(*(implied(x) for x in out))


def balanced(s):
    n = 0
    for ch in s:
        n += (ch == "(") - (ch == ")")
        if n < 0:
            return False
    return n == 0


def split_top(s):
    out, n, cur = [], 0, ""
    for ch in s:
        n += (ch in "([") - (ch in ")]")
        if ch == "&" and n == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


class Interp:
    MAXSTEPS = 60000
    MAXDEPTH = 90

    def __init__(self, pkg):
        from . import lib

        self.pkg = pkg
        self.lib = lib
        self.modules = {}
        self.trace = Trace()
        self.depth = 0
        self.site = ("?", 0)
        self.contracts = {}
        self.ext_attrs = {}  # (path, attr) -> value set by the package at import
        self.quiet_imprecision = 0
        self.trial = None
        self.stack = []
        self.sites = []
        self.funcs_seen = set()
        self.exploring = False
        self.cache = {}
        self.timeline = {}  # name of a set of timestamps -> its position on the time axis, if known
        self.freqmod = f"{pkg.name}.tools.freq"
        self.import_errors = []
        self.loaded = False

    # ------------------------------------------------------------------ traces

    def load(self):
        if not self.loaded:
            self.loaded = True
            self.import_module(self.pkg.name)
            self.trace = Trace()
        return self

    def explore(self, fn, max_traces=400, max_decisions=60):
        """All outcomes of ``fn(self)``."""
        out, work, self.truncated = [], [[]], False
        while work:
            if len(out) >= max_traces:
                self.truncated = True
                break
            prefix = work.pop()
            self.trace = tr = Trace(prefix)
            self.depth, self.quiet_imprecision, self.stack, self.sites = 0, 0, [], []
            try:
                self.exploring = True
                kind, val = "return", fn(self)
            except AbsRaise as e:
                kind, val = "raise", e.exc
            except Abort as e:
                kind, val = "abort", str(e)
                tr.imprecise.append(f"aborted: {e}")
                self.exploring = False
            except RecursionError:
                kind, val = "abort", "recursion"
                tr.imprecise.append("recursion")
            self.exploring = False
            out.append(Outcome(kind, val, tr))
            # alternatives for the new decisions
            for i in range(len(prefix), min(len(tr.taken), max_decisions)):
                key, choice, n = tr.taken[i]
                base = [c for _, c, _ in tr.taken[:i]]
                for alt in range(choice + 1, n):
                    work.append(base + [alt])
        return out

    def choose(self, key, n, imprecise=None):
        """Multi-way decision, remembered under ``key``."""
        tr = self.trace
        if key in tr.facts:
            return tr.facts[key]
        i = len(tr.taken)
        c = tr.prefix[i] if i < len(tr.prefix) else 0
        tr.taken.append((key, c, n))
        tr.facts[key] = c
        if imprecise:
            self.imprecise(imprecise)
        return c

    def decide(self, key, imprecise=None):
        """Boolean decision (True is tried first)."""
        if key in self.trace.facts:
            v = self.trace.facts[key]
            return v if isinstance(v, bool) else bool(1 - v)
        c = self.choose(key, 2, imprecise)
        self.trace.facts[key] = c == 0
        return c == 0

    def imprecise(self, why):
        if not self.quiet_imprecision:
            self.trace.imprecise.append(f"{why} @{self.site[0]}:{self.site[1]}")
            if self.exploring:  # no verdict is possible on this path any more
                raise Abort(str(why))

    def top(self, why):
        self.imprecise(why)
        return Top(why)

    def event(self, kind, **kw):
        self.trace.events.append(dict(kind=kind, site=self.site, **kw))

    def raise_(self, name, msg="", by_lib=True):
        t = ExcType._cache.get(name) or builtin_exc(name)
        raise AbsRaise(ExcInst(t, (msg,) if msg != "" else (), self.site, by_lib))

    def mutate(self, obj, what):
        while obj is not None:
            if id(obj) in self.trace.owned:
                self.event("mutate", label=self.trace.owned[id(obj)][1], what=what)
            obj = getattr(obj, "view_of", None)

    def own(self, obj, label):
        """Register an object (and what it consists of) as belonging to the caller."""
        ow = self.trace.owned
        if id(obj) in ow or isinstance(obj, (str, int, float, bool, type(None), Top, Ext, TokV, EnumMember, PyClass, PyFunc, FreqV, Offset, UnitV, Num, Native)):
            return obj
        ow[id(obj)] = (obj, label)
        if isinstance(obj, FrameV):
            self.own(obj.idx, label + ".index")
            for c, s in obj.cols.items():
                self.own(s, f"{label}[{c!r}]")
        elif isinstance(obj, SeriesV):
            self.own(obj.idx, label + ".index")
        elif isinstance(obj, dict):
            for k, v in obj.items():
                self.own(v, f"{label}[{k!r}]")
        elif isinstance(obj, (list, tuple)):
            for k, v in enumerate(obj):
                self.own(v, f"{label}[{k}]")
        elif isinstance(obj, Instance):
            for k, v in obj.attrs.items():
                self.own(v, f"{label}.{k}")
        return obj

    # ------------------------------------------------------------------ frequencies

    def freq_candidates(self, f):
        return self.trace.freqs.setdefault(f.name, list(ALLOWED_OFFSETS))

    def freq_split(self, f, fn, what):
        """Value of fn(concrete offset), splitting the candidates where it differs."""
        groups = {}
        for o in self.freq_candidates(f):
            groups.setdefault(fn(o), []).append(o)
        keys = list(groups)
        if len(keys) == 1:
            return keys[0]
        tr = self.trace
        i = len(tr.taken)
        c = tr.prefix[i] if i < len(tr.prefix) else 0
        key = f"freq({f.name}) {what} -> {keys[c]!r}"
        tr.taken.append((key, c, len(keys)))
        tr.facts[key] = True
        tr.freqs[f.name] = groups[keys[c]]
        return keys[c]

    def freq_concrete(self, f):
        if isinstance(f, FreqV):
            return self.freq_split(f, lambda o: o, "is")
        return f

    # ------------------------------------------------------------------ timestamp sets

    def ts_norm(self, ts):
        ts = frozenset(ts)
        changed = True
        while changed:
            changed = False
            for a, b in self.trace.subsets:
                extra = b - a
                if a <= ts and extra and extra <= ts:
                    ts, changed = ts - extra, True
        if "~empty" in ts:
            return EMPTY
        if len(ts) > 1:
            for a in ts:
                if a.startswith("full("):
                    extra = implied(a) & ts
                    if extra:
                        ts = ts - extra
        for k, v in self.trace.facts.items():
            if not v and isinstance(k, tuple) and k[0] == "nonempty" and k[1] <= ts:
                return EMPTY
        return ts

    def ts_inter(self, *tss):
        return self.ts_norm(frozenset().union(*tss))

    def ts_same(self, a, b):
        return self.ts_norm(a) == self.ts_norm(b)

    def ts_subset(self, a, b):
        """Is a certainly a subset of b."""
        return self.ts_norm(a | b) == self.ts_norm(a)

    def known_nonempty(self, ts):
        ts = self.ts_norm(ts)
        if ts == EMPTY:
            return False
        if len(ts) == 1 and "(" not in next(iter(ts)) or some_rows(ts):
            return True
        return any(v and isinstance(k, tuple) and k[0] == "nonempty" and self.ts_norm(k[1]) >= ts for k, v in self.trace.facts.items())

    def ts_empty(self, ts):
        """Decide whether the set is empty (base sets are not)."""
        ts = self.ts_norm(ts)
        if ts == EMPTY:
            return True
        if len(ts) == 1 and "(" not in next(iter(ts)).removeprefix("right("):
            return False
        if (some := some_rows(ts)) is not None:
            return not some
        for k, v in self.trace.facts.items():
            if isinstance(k, tuple) and k[0] == "nonempty":
                if v and self.ts_norm(k[1]) >= ts:
                    return False
        return not self.decide(("nonempty", ts))

    # ------------------------------------------------------------------ modules

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.pkg.mods:
            return None
        if "." in name:
            parent = self.import_module(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        info = self.pkg.mods[name]
        mod = ModuleVal(name, name if info["ispkg"] else name.rpartition(".")[0])
        self.modules[name] = mod
        mod.ns["__name__"] = name
        mod.ns["__file__"] = str(info["path"])
        env = Env(None, mod, "module")
        env.vars = mod.ns
        mod.state = 1
        saved = self.site
        for st in info["tree"].body:
            try:
                self.exec_stmt(st, env)
            except AbsRaise as e:
                self.import_errors.append((name, st.lineno, repr(e.exc)))
                self._bind_top(st, env)
            except (Abort, Ret, Brk, Cont) as e:
                self.import_errors.append((name, st.lineno, f"{e!r}"))
                self._bind_top(st, env)
        self.site = saved
        mod.state = 2
        if "." in name:
            parent.ns[name.rpartition(".")[2]] = mod
        return mod

    def _bind_top(self, st, env):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env.vars.setdefault(n.id, Top(f"module-level {n.id}"))
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is st:
                env.vars.setdefault(n.name, Top(f"module-level {n.name}"))

    def find(self, dotted):
        """Function/class by 'module:qual.name' or None."""
        modname, _, qual = dotted.partition(":")
        mod = self.import_module(f"{self.pkg.name}.{modname}" if modname else self.pkg.name)
        if mod is None:
            return None
        cur = mod.ns.get(qual.split(".")[0])
        for part in qual.split(".")[1:]:
            if isinstance(cur, PyClass):
                cur = cur.lookup(part)[0]
            else:
                return None
        return cur

    # ------------------------------------------------------------------ statements

    def exec_block(self, stmts, env):
        for st in stmts:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        self.trace.steps += 1
        if self.trace.steps > self.MAXSTEPS:
            raise Abort("step budget")
        self.site = (env.module.name, st.lineno)
        getattr(self, "st_" + type(st).__name__, self.st_unknown)(st, env)

    def st_unknown(self, st, env):
        raise Abort(f"statement {type(st).__name__}")

    def st_Pass(self, st, env):
        pass

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.ev(st.value, env)
            return
        self.ev(st.value, env)

    def st_Import(self, st, env):
        for a in st.names:
            if a.name.split(".")[0] == self.pkg.name:
                m = self.import_module(a.name)
                env.vars[a.asname or a.name.split(".")[0]] = m if a.asname else self.modules[self.pkg.name]
            else:
                env.vars[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, st, env):
        if st.level:
            base = env.module.package.split(".")
            base = base[: len(base) - (st.level - 1)]
            modname = ".".join(base + ([st.module] if st.module else []))
        else:
            modname = st.module
        if modname.split(".")[0] != self.pkg.name:
            if modname == "__future__":
                return
            for a in st.names:
                env.vars[a.asname or a.name] = self.lib.ext_attr(self, modname, a.name)
            return
        mod = self.import_module(modname)
        if mod is None:
            self.raise_("ImportError", modname)
        for a in st.names:
            if a.name == "*":
                env.vars.update({k: v for k, v in mod.ns.items() if not k.startswith("_")})
                continue
            if a.name in mod.ns:
                v = mod.ns[a.name]
            else:
                v = self.import_module(f"{modname}.{a.name}")
                if v is None:
                    self.raise_("ImportError", f"cannot import {a.name} from {modname}")
            env.vars[a.asname or a.name] = v

    def st_FunctionDef(self, st, env):
        qual = st.name
        if env.kind == "class":
            qual = f"{env.cls}.{st.name}"
        elif env.fn is not None:
            qual = f"{env.fn.qual}.<locals>.{st.name}"
        fn = PyFunc(st, env, env.module, qual)
        fn.defaults = [self.ev(d, env) for d in st.args.defaults]
        fn.kw_defaults = {
            a.arg: self.ev(d, env) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None
        }
        fn.is_gen = has_yield(st)
        v = fn
        for d in reversed(st.decorator_list):
            dec = self.ev(d, env)
            v = self.call(dec, [v], {})
        self.assign_name(st.name, v, env)

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        bases = [Ext("unknown.base") if isinstance(b, Top) else b for b in bases]
        bases = [b for b in bases if isinstance(b, (PyClass, Ext, ExcType))]
        cenv = Env(env, env.module, "class", cls=st.name)
        cenv.fn = None
        cls = PyClass(st.name, bases, cenv.vars, env.module, st)
        cls.annots = []
        cenv.selfarg = cls
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                cls.annots.append(s.target.id)
            self.exec_stmt(s, cenv)
        for v in cls.ns.values():
            mark_class(v, cls)
        if cls.is_enum:
            n = 0
            for k, v in list(cls.ns.items()):
                if k.startswith("_") or isinstance(v, (PyFunc, Property, ClassM, StaticM, Native)):
                    continue
                n += 1
                if isinstance(v, Top) and v.why == "enum.auto":
                    v = n
                m = EnumMember(cls, k, v)
                cls.ns[k] = m
                cls.members.append(m)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.assign_name(st.name, v, env)

    def st_Return(self, st, env):
        raise Ret(self.ev(st.value, env) if st.value else None)

    def st_Break(self, st, env):
        raise Brk

    def st_Continue(self, st, env):
        raise Cont

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                self.mutate(o, "del item")
                if isinstance(o, dict) and self.hashable(k):
                    o.pop(k, None)
                elif isinstance(o, FrameV) and k in o.cols:
                    del o.cols[k]
                else:
                    self.imprecise("del item")
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), t.attr)
            else:
                self.imprecise("del")

    def delattr(self, o, name):
        if not isinstance(o, Instance):
            self.mutate(o, f"del attribute {name}")
            self.imprecise("del attribute")
            return
        f, _ = o.cls.lookup("__delattr__")
        if f is not None:
            self.call(f, [o, name], {})
            return
        if name not in o.attrs:
            self.raise_("AttributeError", name)
        self.mutate(o, f"del attribute {name}")
        del o.attrs[name]

    def st_Global(self, st, env):
        env.globals_.update(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def st_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            if st.msg is not None:
                self.quiet_imprecision += 1
                try:
                    self.ev(st.msg, env)
                finally:
                    self.quiet_imprecision -= 1
            self.raise_("AssertionError", by_lib=False)

    def st_Raise(self, st, env):
        if st.exc is None:
            cur = self.lookup("%exc", env, MISSING)
            if cur is MISSING:
                self.raise_("RuntimeError", "no active exception")
            raise AbsRaise(cur)
        self.quiet_imprecision += 1
        try:
            v = self.ev(st.exc, env)
            if st.cause is not None:
                self.ev(st.cause, env)
        finally:
            self.quiet_imprecision -= 1
        self.site = (env.module.name, st.lineno)
        if isinstance(v, ExcType):
            v = ExcInst(v, (), self.site)
        if isinstance(v, PyClass) and v.is_exc:
            v = self.call(v, [], {})
        if isinstance(v, Ext) and v is Ext("NotImplemented"):
            self.raise_("TypeError", "exceptions must derive from BaseException")
        if isinstance(v, ExcInst):
            v.site = self.site
            v.by_lib = False
            raise AbsRaise(v)
        self.imprecise("raise of unknown")
        raise AbsRaise(ExcInst(builtin_exc("Exception"), (), self.site))

    def exc_match(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(exc, t) for t in typ)
        if isinstance(typ, Ext):
            typ = self.lib.ext_exc(typ.path) or typ
        if isinstance(typ, ExcType):
            t = exc.typ
            if isinstance(t, ExcType):
                return t.is_sub(typ)
            return any(isinstance(b, ExcType) and b.is_sub(typ) for b in t.mro)
        if isinstance(typ, PyClass):
            return isinstance(exc.typ, PyClass) and exc.typ.subclass_of(typ)
        return self.decide(f"exception {exc.typ} is a {typ!r}", imprecise="unknown exception type")

    def st_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except AbsRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, env)):
                        saved = env.vars.get("%exc", MISSING)
                        env.vars["%exc"] = e.exc
                        if h.name:
                            env.vars[h.name] = e.exc
                        self.event("caught", exc=e.exc, handler=(env.module.name, h.lineno))
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            if saved is MISSING:
                                env.vars.pop("%exc", None)
                            else:
                                env.vars["%exc"] = saved
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def st_If(self, st, env):
        # ``if TYPE_CHECKING``
        t = st.test
        name = t.id if isinstance(t, ast.Name) else (t.attr if isinstance(t, ast.Attribute) else None)
        if name == "TYPE_CHECKING":
            return self.exec_block(st.orelse, env)
        if self.truth(self.ev(t, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_For(self, st, env):
        items = self.iterate(self.ev(st.iter, env))
        broke = False
        for it in items:
            self.assign(st.target, it, env)
            try:
                self.exec_block(st.body, env)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.exec_block(st.orelse, env)

    def st_While(self, st, env):
        for _ in range(60):
            if not self.truth(self.ev(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except Brk:
                return
            except Cont:
                continue
        raise Abort("while loop")

    def st_With(self, st, env):
        for item in st.items:
            v = self.ev(item.context_expr, env)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, Top("context manager") if not isinstance(v, Instance) else v, env)
        self.exec_block(st.body, env)

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def st_AugAssign(self, st, env):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            new = self.lib.augop(self, op, cur, self.ev(st.value, env))
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            new = self.lib.augop(self, op, cur, self.ev(st.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            cur = self.lib.getitem(self, o, k)
            new = self.lib.augop(self, op, cur, self.ev(st.value, env))
            self.lib.setitem(self, o, k, new)
        else:
            raise Abort("augassign target")

    def assign_name(self, name, v, env):
        if name in env.globals_:
            self.event("global-write", name=name)
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Top):
                items = [Top("unpacked")] * n
                if star:
                    items = [Top("unpacked")] * n
            else:
                items = self.iterate(v)
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                if k < 0:
                    self.raise_("ValueError", "not enough values to unpack")
                if not isinstance(v, Top):
                    items = items[:i] + [list(items[i : i + k])] + items[i + k :]
            if len(items) != n:
                self.raise_("ValueError", "wrong number of values to unpack")
            for e, it in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, it, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self, self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Abort("assignment target")

    # ------------------------------------------------------------------ expressions

    def ev(self, n, env):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            return self.top(f"expression {type(n).__name__}")
        return m(n, env)

    def ev_Constant(self, n, env):
        return n.value

    def ev_Name(self, n, env):
        return self.lookup(n.id, env)

    def lookup(self, name, env, default=None):
        e, first = env, True
        while e is not None:
            if name in e.vars and (first or e.kind != "class"):
                return e.vars[name]
            first = False
            e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        if default is MISSING:
            return MISSING
        v = self.lib.builtin(name)
        if v is not None:
            return v
        if name in ("None", "True", "False"):
            return {"None": None, "True": True, "False": False}[name]
        self.site = (env.module.name, self.site[1])
        self.raise_("NameError", name, by_lib=False)

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.kind == "comp":
            e = e.parent
        self.assign_name(n.target.id, v, e)
        return v

    def ev_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def ev_Subscript(self, n, env):
        return self.lib.getitem(self, self.ev(n.value, env), self.ev(n.slice, env))

    def ev_Slice(self, n, env):
        f = lambda x: self.ev(x, env) if x is not None else None
        return slice(f(n.lower), f(n.upper), f(n.step))

    def ev_Tuple(self, n, env):
        return tuple(self.ev_elts(n.elts, env))

    def ev_List(self, n, env):
        return list(self.ev_elts(n.elts, env))

    def ev_Set(self, n, env):
        return self.mkset(self.ev_elts(n.elts, env))

    def ev_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def hashable(self, k):
        return not isinstance(k, (list, dict, set, SeriesV, FrameV, slice))

    def ev_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, env)
                for kk in self.mapping_keys(src):
                    d[kk] = self.lib.getitem(self, src, kk)
                continue
            kk, vv = self.ev(k, env), self.ev(v, env)
            if not self.hashable(kk):
                self.raise_("TypeError", "unhashable")
            if isinstance(kk, (Top, StrV)):
                self.imprecise("unknown dictionary key")
            d[kk] = vv
        return d

    def mapping_keys(self, src):
        if isinstance(src, dict):
            return list(src)
        if isinstance(src, Instance):
            keys = self.getattr(src, "keys", None)
            if keys is not None:
                return self.iterate(self.call(keys, [], {}))
        if isinstance(src, FrameV):
            return list(src.cols)
        raise Abort("unknown mapping")

    def ev_JoinedStr(self, n, env):
        parts, known, toks = [], True, []
        self.quiet_imprecision += 1
        try:
            for p in n.values:
                if isinstance(p, ast.Constant):
                    parts.append(p.value)
                    continue
                v = self.ev(p.value, env)
                spec = None
                if p.format_spec is not None:
                    s = self.ev_JoinedStr(p.format_spec, env)
                    spec = s if isinstance(s, str) else None
                t = self.lib.format_value(self, v, spec, p.conversion)
                if t is None:
                    known = False
                    parts.append(f"?{spec or ''}?")
                    toks.append(v)
                else:
                    parts.append(t)
        finally:
            self.quiet_imprecision -= 1
        s = "".join(parts)
        if known:
            return s
        if all(isinstance(t, TokV) for t in toks):
            return StrV(s, of=toks[0] if s == "??" else TokV("fmt", (s, *toks)))
        return StrV(s)

    def ev_FormattedValue(self, n, env):
        return self.ev_JoinedStr(ast.JoinedStr(values=[n]), env)

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for e in n.values:
            v = self.ev(e, env)
            if e is n.values[-1]:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, BoolV):
                return BoolV(v.term, not v.neg)
            return not self.truth(v)
        return self.lib.unop(self, type(n.op).__name__, v)

    def ev_BinOp(self, n, env):
        return self.lib.binop(self, type(n.op).__name__, self.ev(n.left, env), self.ev(n.right, env))

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, env)
            res = self.lib.compare(self, type(op).__name__, left, right)
            if i < len(n.ops) - 1 and not self.truth(res):
                return False
            left = right
        return res

    def ev_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def ev_Lambda(self, n, env):
        fn = PyFunc(n, env, env.module, (env.fn.qual + "." if env.fn else "") + "<lambda>")
        fn.defaults = [self.ev(d, env) for d in n.args.defaults]
        fn.kw_defaults = {
            a.arg: self.ev(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None
        }
        return fn

    def _comp(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for it in self.iterate(self.ev(g.iter, e)):
                e2 = e
                self.assign(g.target, it, e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                    rec(i + 1, e2)

        cenv = Env(env, env.module, "comp", fn=env.fn)
        cenv.selfarg = env.selfarg
        rec(0, cenv)

    def ev_ListComp(self, n, env):
        out = []
        self._comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    def ev_GeneratorExp(self, n, env):
        return self.ev_ListComp(n, env)

    def ev_SetComp(self, n, env):
        return self.mkset(self.ev_ListComp(n, env))

    def ev_DictComp(self, n, env):
        d = {}

        def emit(e):
            k = self.ev(n.key, e)
            if isinstance(k, (Top, StrV)):
                self.imprecise("unknown dictionary key")
            d[k] = self.ev(n.value, e)

        self._comp(n.generators, env, emit)
        return d

    def ev_Starred(self, n, env):
        return self.top("starred")

    def _yield(self, v, env):
        e = env
        while e is not None:
            if "%yield" in e.vars:
                e.vars["%yield"].append(v)
                return None
            e = e.parent
        raise Abort("yield")

    def ev_Yield(self, n, env):
        return self._yield(self.ev(n.value, env) if n.value else None, env)

    def ev_YieldFrom(self, n, env):
        for v in self.iterate(self.ev(n.value, env)):
            self._yield(v, env)

    def ev_Call(self, n, env):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and e.kind != "function":
                e = e.parent
            if e is not None and e.fn is not None and e.fn.cls is not None:
                return Super(e.fn.cls, e.selfarg)
            return self.top("super()")
        f = self.ev(n.func, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, Top):
                    self.imprecise("*args unknown")
                    continue
                args.extend(self.iterate(v))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, env)
                if isinstance(v, Top):
                    self.imprecise("**kwargs unknown")
                    continue
                for kk in self.mapping_keys(v):
                    if kk in kwargs:
                        self.raise_("TypeError", f"multiple values for {kk}")
                    kwargs[kk] = self.lib.getitem(self, v, kk)
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        self.site = (env.module.name, n.lineno)
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------------ calls

    def call(self, f, args, kwargs):
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self, *args], kwargs)
        if isinstance(f, PyFunc):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExcType):
            return ExcInst(f, args, self.site)
        if isinstance(f, (StaticM,)):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, Instance):
            c = self.getattr(f, "__call__", None)
            if c is not None:
                return self.call(c, args, kwargs)
            self.raise_("TypeError", f"{f} not callable")
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f, args, kwargs)
        if isinstance(f, Top):
            self.imprecise("call of unknown")
            return Top("result of unknown call")
        if f is None or isinstance(f, (int, float, str, list, tuple, dict, set, SeriesV, FrameV, Idx)):
            self.raise_("TypeError", f"{type(f).__name__} object is not callable")
        return self.lib.call_other(self, f, args, kwargs)

    def call_fn(self, f, args, kwargs):
        fid = f.id
        self.funcs_seen.add(fid)
        if fid in self.contracts:
            r = self.contracts[fid](self, f, args, kwargs)
            if r is not MISSING:
                return r
        if f.module.name == self.freqmod and not self.trial:
            r = self.freq_call(f, args, kwargs)
            if r is not MISSING:
                return r
        return self.call_body(f, args, kwargs)

    def call_body(self, f, args, kwargs):
        if self.depth > self.MAXDEPTH:
            raise Abort("recursion depth")
        node = f.node
        env = Env(f.env if f.env.kind != "module" else None, f.module, "function", fn=f)
        if f.env.kind == "class":
            # functions do not see the class scope
            env.parent = f.env.parent if f.env.parent is not None and f.env.parent.kind != "module" else None
        self.bind(f, args, kwargs, env)
        if not self.trial:
            self.trace.calls[f.id] = None
        if args:
            env.selfarg = args[0]
        site, self.depth = self.site, self.depth + 1
        self.stack.append(f)
        self.sites.append(site)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if f.is_gen:
                env.vars["%yield"] = []
            try:
                self.exec_block(node.body, env)
            except Ret as r:
                if not f.is_gen:
                    return r.v
            if f.is_gen:
                return env.vars["%yield"]
            return None
        finally:
            self.depth -= 1
            self.stack.pop()
            self.sites.pop()
            self.site = site

    def bind(self, f, args, kwargs, env):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        args = list(args)
        vals = {}
        for i, p in enumerate(params):
            if i < len(args):
                vals[p] = args[i]
                if p in kwargs and p not in [q.arg for q in a.posonlyargs]:
                    self.raise_("TypeError", f"{f.qual}() got multiple values for argument '{p}'")
            elif p in kwargs:
                vals[p] = kwargs.pop(p)
            else:
                j = i - (len(params) - len(f.defaults))
                if j < 0:
                    self.raise_("TypeError", f"{f.qual}() missing argument '{p}'")
                vals[p] = f.defaults[j]
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(params):])
        elif len(args) > len(params):
            self.raise_("TypeError", f"{f.qual}() takes {len(params)} positional arguments but {len(args)} were given")
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                vals[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kw_defaults:
                vals[p.arg] = f.kw_defaults[p.arg]
            else:
                self.raise_("TypeError", f"{f.qual}() missing keyword-only argument '{p.arg}'")
        if a.kwarg:
            vals[a.kwarg.arg] = kwargs
        elif kwargs:
            self.raise_("TypeError", f"{f.qual}() got an unexpected keyword argument '{next(iter(kwargs))}'")
        env.vars.update(vals)

    def freq_call(self, f, args, kwargs):
        """Calls into the frequency module with symbolic frequencies: split candidates by the outcome."""
        flat = list(args) + list(kwargs.values())
        syms = []
        for v in flat:
            if isinstance(v, FreqV):
                if v.name not in [s.name for s in syms]:
                    syms.append(v)
            elif not isinstance(v, (str, int, float, bool, type(None), Offset)):
                return MISSING
        if not syms:
            return MISSING
        # concretise all but the first symbol
        if len(syms) == 2 and len(args) == 2:
            return self._freq_call2(f, args, kwargs, syms)
        if len(syms) > 1:
            conc = {s.name: self.freq_concrete(s) for s in syms[1:]}
            args = [conc.get(a.name, a) if isinstance(a, FreqV) else a for a in args]
            kwargs = {k: conc.get(a.name, a) if isinstance(a, FreqV) else a for k, a in kwargs.items()}
        s = syms[0]
        sub = lambda v, o: o if isinstance(v, FreqV) else v

        def outcome(o):
            return self.const_outcome(f, [sub(a, o) for a in args], {k: sub(a, o) for k, a in kwargs.items()})

        outs = {}
        for o in self.freq_candidates(s):
            outs[o] = outcome(o)
            if outs[o] is MISSING:
                return MISSING
        res = self.freq_split(s, lambda o: outs[o], f"{f.qual}{args!r}")
        kind, val = res
        if kind == "raise":
            t = ExcType._cache[val]
            raise AbsRaise(ExcInst(t, (), self.site))
        # a returned frequency that is the argument itself stays symbolic
        if isinstance(val, Offset) and all(outs[o] == ("return", o) for o in self.freq_candidates(s)):
            return s
        return val

    def _freq_call2(self, f, args, kwargs, syms):
        a, b = syms
        groups = {}
        for x in self.freq_candidates(a):
            for y in self.freq_candidates(b):
                m = {a.name: x, b.name: y}
                r = self.const_outcome(f, [m[v.name] if isinstance(v, FreqV) else v for v in args], kwargs)
                if r is MISSING:
                    return MISSING
                groups.setdefault(r, []).append((x, y))
        keys = list(groups)
        tr = self.trace
        c = 0
        if len(keys) > 1:
            i = len(tr.taken)
            c = tr.prefix[i] if i < len(tr.prefix) else 0
            key = f"{f.qual}({a.name},{b.name}) -> {keys[c]!r}"
            tr.taken.append((key, c, len(keys)))
            tr.facts[key] = True
            # relational information is lost only between the two symbols
            tr.freqs[a.name] = [x for x in tr.freqs[a.name] if any(p[0] == x for p in groups[keys[c]])]
            tr.freqs[b.name] = [y for y in tr.freqs[b.name] if any(p[1] == y for p in groups[keys[c]])]
        kind, val = keys[c]
        if kind == "raise":
            raise AbsRaise(ExcInst(ExcType._cache[val], (), self.site))
        return val

    def const_outcome(self, f, args, kwargs):
        """Outcome of a call with constant arguments ('return', const) / ('raise', name) / MISSING."""
        key = (f.id, repr(args), repr(sorted(kwargs.items())))
        if key in self.cache:
            return self.cache[key]
        saved = (self.trace, self.depth, self.trial, self.site, self.quiet_imprecision, self.stack, self.sites)
        self.trace, self.trial, self.quiet_imprecision, self.stack, self.sites = Trace(), True, 0, [], []
        exploring, self.exploring = self.exploring, False
        try:
            v = self.call_body(f, args, kwargs)
            res = ("return", v)
            try:
                hash(res)
            except TypeError:
                res = MISSING
        except AbsRaise as e:
            res = ("raise", e.exc.typ.name)
        except Abort:
            res = MISSING
        finally:
            if self.trace.imprecise or self.trace.taken:
                res = MISSING
            self.trace, self.depth, self.trial, self.site, self.quiet_imprecision, self.stack, self.sites = saved
            self.exploring = exploring
        self.cache[key] = res
        return res

    # ------------------------------------------------------------------ classes

    def instantiate(self, cls, args, kwargs):
        if cls.is_enum:
            return self.enum_by_value(cls, args)
        if cls.is_exc:
            e = ExcInst(cls, args, self.site)
            return e
        new, owner = cls.lookup("__new__")
        if new is not None:
            fn = new.fn if isinstance(new, (StaticM, ClassM)) else new
            obj = self.call(fn, [cls, *args], kwargs)
        else:
            obj = self.new_instance(cls)
        if isinstance(obj, Instance) and obj.cls.subclass_of(cls):
            init, _ = obj.cls.lookup("__init__")
            if init is not None:
                self.call(init, [obj, *args], kwargs)
            elif new is None and (args or kwargs):
                if cls.has_ext("typing.NamedTuple"):
                    fields = [st.target.id for st in cls.node.body if isinstance(st, ast.AnnAssign)]
                    obj.attrs.update(zip(fields, args))
                    obj.attrs.update(kwargs)
                elif any(isinstance(b, Ext) and b.path not in ("abc.ABC", "builtins.object") for b in cls.mro):
                    return self.top(f"instance of {cls.name}")
                else:
                    self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return obj

    def new_instance(self, cls):
        ab = self.abstract_methods(cls)
        if ab:
            self.raise_("TypeError", f"Can't instantiate abstract class {cls.name} with abstract methods {', '.join(ab)}")
        o = Instance(cls)
        o.site, k = self.site, len(self.stack) - 1
        while k >= 0 and self.stack[k].node.__class__ is not ast.Lambda and self.stack[k].node.name in ("__new__", "wrapped_init", "__init__"):
            o.site, k = self.sites[k], k - 1
        return o

    def abstract_methods(self, cls):
        if not any(isinstance(b, Ext) and b.path in ("abc.ABC", "typing.Mapping", "collections.abc.Mapping") for b in cls.mro):
            return []
        names = set()
        for c in cls.mro:
            if isinstance(c, PyClass):
                names.update(k for k, v in c.ns.items() if is_abstract(v))
        return sorted(n for n in names if is_abstract(cls.lookup(n)[0]))

    def enum_by_value(self, cls, args):
        v = args[0] if args else None
        if isinstance(v, EnumMember) and v.cls is cls:
            return v
        for m in cls.members:
            if self.lib.is_const(m.value) and self.lib.is_const(v) and m.value == v:
                return m
        miss, _ = cls.lookup("_missing_")
        if miss is not None:
            fn = miss.fn if isinstance(miss, ClassM) else miss
            r = self.call(fn, [cls, v], {})
            if isinstance(r, EnumMember):
                return r
        self.raise_("ValueError", f"{v!r} is not a valid {cls.name}")

    # ------------------------------------------------------------------ attributes

    def getattr(self, o, name, default=MISSING):
        v = self._getattr(o, name)
        if v is MISSING:
            if default is not MISSING:
                return default
            self.raise_("AttributeError", f"{self.lib.describe(o)} has no attribute '{name}'")
        return v

    def bind_class_attr(self, v, o, cls):
        if isinstance(v, Property):
            if v.fget is None:
                self.raise_("AttributeError", "unreadable attribute")
            return self.call(v.fget, [o], {})
        if isinstance(v, (PyFunc, Native)):
            return BoundMethod(v, o)
        if isinstance(v, ClassM):
            return BoundMethod(v.fn, cls)
        if isinstance(v, StaticM):
            return v.fn
        return v

    def _getattr(self, o, name):
        if isinstance(o, EnumMember) and name in ("name", "value"):
            return o.name if name == "name" else o.value
        if isinstance(o, Instance):
            v, owner = o.cls.lookup(name)
            if isinstance(v, Property):
                return self.bind_class_attr(v, o, o.cls)
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if owner is not None:
                return self.bind_class_attr(v, o, o.cls)
            v = self.lib.ext_base_attr(self, o, name)
            if v is not MISSING:
                return v
            ga, _ = o.cls.lookup("__getattr__")
            if ga is not None and not (name.startswith("__") and name.endswith("__")):
                try:
                    return self.call(ga, [o, name], {})
                except AbsRaise as e:
                    if e.exc.typ is builtin_exc("AttributeError"):
                        return MISSING
                    raise
            return MISSING
        if isinstance(o, PyClass):
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, ClassM):
                    return BoundMethod(v.fn, o)
                if isinstance(v, StaticM):
                    return v.fn
                return v
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__init__":
                return Native("object.__init__", lambda I, a, k: None)
            if name == "__new__":
                return Native("object.__new__", lambda I, a, k: I.new_instance(a[0]))
            if name == "__members__" and o.is_enum:
                return {m.name: m for m in o.members}
            if name == "__setattr__":
                return Native("object.__setattr__", self.lib.object_setattr)
            if name in ("__module__", "__doc__"):
                return StrV(name)
            return MISSING
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return o.ns[name]
            sub = f"{o.name}.{name}"
            if sub in self.modules:
                return self.modules[sub]
            return MISSING
        if isinstance(o, Super):
            mro = o.obj.cls.mro if isinstance(o.obj, Instance) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1 :]:
                if isinstance(c, PyClass) and name in c.ns:
                    v = c.ns[name]
                    if name == "__new__":
                        return v.fn if isinstance(v, StaticM) else v
                    return self.bind_class_attr(v, o.obj, mro[0])
            if name == "__new__":
                return Native("object.__new__", lambda I, a, k: I.new_instance(a[0]))
            if name == "__init__":
                return Native("object.__init__", lambda I, a, k: None)
            if name == "__setattr__":
                return Native("object.__setattr__", lambda I, a, k: I.lib.object_setattr(I, [o.obj, *a], k))
            if name in ("__post_init__", "__init_subclass__"):
                return MISSING
            return self.top(f"super().{name}")
        if isinstance(o, (PyFunc, BoundMethod, Native)):
            f = o.func if isinstance(o, BoundMethod) else o
            if isinstance(f, PyFunc) and name in f.attrs:
                return f.attrs[name]
            if name in ("__name__", "__qualname__"):
                return f.node.name if isinstance(f, PyFunc) and hasattr(f.node, "name") else StrV("name")
            if name in ("__doc__", "__module__"):
                return StrV(name)
            if name == "__get__":
                return Native("__get__", lambda I, a, k: BoundMethod(f, a[0]))
            if name == "__wrapped__":
                return MISSING
            return self.top(f"function attribute {name}")
        if isinstance(o, ExcInst):
            if name == "args":
                return tuple(o.args) if o.args or not o.by_lib else (StrV("msg"),)
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.typ
            return Top(f"exception attribute {name}")
        if isinstance(o, ExcType):
            return o.name if name == "__name__" else self.top(name)
        return self.lib.getattr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Instance):
            sa, owner = o.cls.lookup("__setattr__")
            if sa is not None:
                self.call(sa, [o, name, v], {})
                return
            pv, _ = o.cls.lookup(name)
            if isinstance(pv, Property):
                if pv.fset is None:
                    self.raise_("AttributeError", f"can't set {name}")
                self.call(pv.fset, [o, v], {})
                return
            self.mutate(o, f"set attribute {name}")
            o.attrs[name] = v
        elif isinstance(o, PyClass):
            self.event("class-write", cls=o.name, name=name)
            o.ns[name] = v
            mark_class(v, o)
        elif isinstance(o, ModuleVal):
            self.event("module-write", name=name)
            o.ns[name] = v
        elif isinstance(o, PyFunc):
            o.attrs[name] = v
        elif isinstance(o, ExcInst):
            o.attrs[name] = v
        elif isinstance(o, Ext):
            self.ext_attrs[(o.path, name)] = v
        else:
            self.lib.setattr(self, o, name, v)

    # ------------------------------------------------------------------ truth, iteration, sets

    def truth(self, v):
        if isinstance(v, (bool, int, float, str, list, tuple, dict, set, frozenset, type(None))):
            return bool(v)
        if isinstance(v, BoolV):
            r = self.decide(v.term)
            return (not r) if v.neg else r
        if isinstance(v, LenV):
            return not self.ts_empty(v.ts)
        if isinstance(v, Instance):
            if isinstance(v, EnumMember) and v.cls.lookup("__bool__")[0] is None:
                return True
            b, _ = v.cls.lookup("__bool__")
            if b is not None:
                r = self.call(b, [v], {})
                if not isinstance(r, (bool, BoolV, Top)):
                    self.raise_("TypeError", "__bool__ should return bool")
                return self.truth(r)
            ln, _ = v.cls.lookup("__len__")
            if ln is not None:
                return self.truth(self.call(ln, [v], {}))
            return True
        if isinstance(v, Top):
            return self.decide(f"unknown {v.why} @{self.site}#{len(self.trace.taken)}", imprecise=f"branch on {v.why}")
        if isinstance(v, StrV):
            return self.decide(f"unknown string @{self.site}#{len(self.trace.taken)}", imprecise="branch on unknown string")
        if isinstance(v, (SeriesV, FrameV, Idx)):
            if isinstance(v, SeriesV) and v.arr and v.kind == "scalarbool":
                return self.truth(v.expr)
            self.raise_("ValueError", "The truth value is ambiguous")
        if isinstance(v, Num):
            c = v.expr.const() if isinstance(v.expr, E.Rat) else None
            if c is not None:
                return bool(c)
            return self.decide(f"nonzero {E.key(v.expr)}")
        if isinstance(v, TSet):
            return not self.ts_empty(v.idx.ts)
        if isinstance(v, ColsV):
            self.raise_("ValueError", "The truth value is ambiguous")
        return True

    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            if len(v) > 1:
                self.event("set-iteration", n=len(v))
            return sorted(v, key=lambda x: (type(x).__name__, repr(x)))
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Instance):
            it, _ = v.cls.lookup("__iter__")
            if it is not None:
                return self.iterate(self.call(it, [v], {}))
            gi, _ = v.cls.lookup("__getitem__")
            if gi is None:
                self.raise_("TypeError", f"{v.cls.name} object is not iterable")
            raise Abort("iteration by __getitem__")
        if isinstance(v, PyClass) and v.is_enum:
            return list(v.members)
        if type(v).__name__ == "IterV":
            items, v.items = v.items, []
            return items
        return self.lib.iterate(self, v)

    def mkset(self, values):
        out = []
        for v in values:
            if not self.hashable(v):
                self.raise_("TypeError", "unhashable type")
            if isinstance(v, Top) or isinstance(v, StrV) and v.of is None:
                self.imprecise("unknown element of set")
                out.append(v)
                continue
            if not any(self.truth(self.lib.compare(self, "Eq", v, w)) for w in out if not (isinstance(w, Top) or isinstance(w, StrV) and w.of is None)):
                out.append(v)
        return set(out)


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def mark_class(v, cls):
    if isinstance(v, PyFunc):
        if v.cls is None:
            v.cls = cls
    elif isinstance(v, Property):
        for f in (v.fget, v.fset):
            if isinstance(f, PyFunc) and f.cls is None:
                f.cls = cls
    elif isinstance(v, (ClassM, StaticM)):
        if isinstance(v.fn, PyFunc) and v.fn.cls is None:
            v.fn.cls = cls


def is_abstract(v):
    if isinstance(v, Property):
        return is_abstract(v.fget) or bool(getattr(v, "abstract", False))
    if isinstance(v, (ClassM, StaticM)):
        return is_abstract(v.fn)
    if isinstance(v, PyFunc):
        return bool(v.attrs.get("__isabstractmethod__"))
    return False


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False
