"""Types of expressions, as far as they are evident: from constructors, literals, annotations and declared attributes."""

from __future__ import annotations

import ast
import builtins
import importlib
import sys

from sa.apinames import NAMES

from .model import BUILTINS, Class, Ext, Func, Module, Var, dotted_of, locals_of, own_nodes
from .rules_returns import scope_resolver, single_assignments


class T:
    """kind: 'inst' (of an own class), 'ext' (of a library class), 'b' (of a builtin type)"""

    def __init__(self, kind, what, sure=True):
        self.kind, self.what, self.sure = kind, what, sure

    @property
    def name(self):
        return self.what.short if self.kind == "inst" else self.what

    def __eq__(self, o):
        return isinstance(o, T) and (self.kind, self.what) == (o.kind, o.what)

    def __hash__(self):
        return hash((self.kind, self.what))

    def __repr__(self):
        return f"{self.kind}:{self.name}"


EXT = {
    "pandas.Series": "Series", "pandas.DataFrame": "DataFrame", "pandas.DatetimeIndex": "DatetimeIndex", "pandas.Timestamp": "Timestamp",
    "pandas.Timedelta": "Timedelta", "pandas.MultiIndex": "MultiIndex", "pandas.Index": "Index", "pandas.date_range": "DatetimeIndex",
    "matplotlib.pyplot.Axes": "plt.Axes",
}
SAME = frozenset("copy rename sort_index fillna dropna astype reindex mask where set_axis tz_localize tz_convert abs round shift head tail".split())
BT = {"str": str, "int": int, "float": float, "bool": bool, "dict": dict, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "bytes": bytes}
CALLS = {"sorted": "list", "list": "list", "dict": "dict", "set": "set", "tuple": "tuple", "str": "str", "int": "int", "float": "float", "bool": "bool", "len": "int", "frozenset": "frozenset", "repr": "str"}
EXTENDED = {"Series": {"pint", "wavg"}, "DataFrame": {"pint", "wavg"}, "DatetimeIndex": {"duration", "right"}, "Timestamp": {"duration", "right"}}
STD_ATTRS = set(dir(object)) | {"__dict__", "__name__", "__qualname__", "__module__", "__doc__", "__annotations__", "__mro__", "__bases__", "__subclasses__", "mro", "__wrapped__", "__defaults__", "__code__"}


class Types:
    def __init__(self, P):
        self.P = P
        self.cache = {}
        self.busy = set()
        self.ctx = {}

    def fctx(self, f):
        if f not in self.ctx:
            tested = set()
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "type", "callable", "issubclass") and n.args:
                    b = n.args[0]
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        tested.add(b.id)
            stored = {n.id for n in own_nodes(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
            self.ctx[f] = (scope_resolver(self.P, f), single_assignments(f), tested, stored)
        return self.ctx[f]

    # -- annotations

    def of_annotation(self, m, ann):
        """Type or None (unknown)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            d = dotted_of(ann.value)
            if d in ("Dict", "dict"):
                return T("b", "dict", False)
            if d in ("List", "list"):
                return T("b", "list", False)
            return None
        if not isinstance(ann, (ast.Name, ast.Attribute)):
            return None
        v = self.P.resolve_expr(m, ann)
        if isinstance(v, Var) and v.value is not None:
            return None
        if isinstance(v, Class):
            return T("inst", v, False)
        if isinstance(v, Ext):
            if v.dotted in EXT:
                return T("ext", EXT[v.dotted], False)
            if v.dotted.startswith("builtins.") and v.dotted[9:] in BT:
                return T("b", v.dotted[9:], False)
        return None

    # -- expressions

    def infer(self, f, e):
        """List of types the expression can have (all of which are possible), or None."""
        key = (f, id(e))
        if key in self.cache:
            return self.cache[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            r = self._infer(f, e)
        finally:
            self.busy.discard(key)
        self.cache[key] = r
        return r

    def _infer(self, f, e):
        P = self.P
        if isinstance(e, ast.Constant):
            n = type(e.value).__name__
            return [T("b", n)] if n in BT else None
        if isinstance(e, ast.JoinedStr):
            return [T("b", "str")]
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return [T("b", "dict")]
        if isinstance(e, (ast.List, ast.ListComp)):
            return [T("b", "list")]
        if isinstance(e, (ast.Set, ast.SetComp)):
            return [T("b", "set")]
        if isinstance(e, ast.Tuple):
            return [T("b", "tuple")]
        if isinstance(e, ast.IfExp):
            a, b = self.infer(f, e.body), self.infer(f, e.orelse)
            out = [t for t in (a or []) + (b or [])]
            return out or None
        res, singles, tested, stored = self.fctx(f) if f else (lambda x: None, {}, set(), set())
        if isinstance(e, ast.Name):
            if f is None:
                return None
            if e.id in f.params:
                if e.id in stored or e.id in tested:
                    return None
                if e.id in (f.vararg, f.kwarg):
                    return [T("b", "tuple" if e.id == f.vararg else "dict")]
                if f.pos and e.id == f.pos[0] and e.id == "self" and not f.ann.get("self"):
                    if len(f.bound_to) == 1:
                        return [T("inst", f.bound_to[0])]
                    return [T("inst", f.cls)] if f.cls and not f.bound_to else None
                t = self.of_annotation(f.module, f.ann.get(e.id))
                d = f.defaults.get(e.id)
                if isinstance(d, ast.Constant) and d.value is None:
                    pass
                return [t] if t else None
            if e.id in singles and e.id not in tested:
                return self.infer(f, singles[e.id])
            v = res(e)
            if isinstance(v, Var) and isinstance(v.owner, Module) and len(v.owner.ns.get(v.name, [])) == 1:
                return self.infer_module(v.owner, v.value)
            return None
        if isinstance(e, ast.Attribute):
            v = res(e)
            if isinstance(v, Var):
                if isinstance(v.owner, Module):
                    return self.infer_module(v.owner, v.value) if len(v.owner.ns.get(v.name, [])) == 1 else None
                if isinstance(v.owner, Class) and v.owner.is_enum:
                    return [T("inst", v.owner)]
                return self.infer_module(v.owner.module, v.value)
            if e.attr == "value":  # the value of a member of an enumeration
                w = res(e.value)
                if isinstance(w, Var) and isinstance(w.owner, Class) and w.owner.is_enum:
                    return self.infer_module(w.owner.module, w.value)
            base = self.infer(f, e.value)
            if not base:
                return None
            out = []
            for t in base:
                r = self.attr_type(t, e.attr)
                if r is None:
                    return None
                out += r
            return out
        if isinstance(e, ast.Call):
            v = res(e.func)
            if isinstance(v, Class):
                return [T("inst", v)]
            if isinstance(v, Ext):
                if v.dotted in EXT:
                    return [T("ext", EXT[v.dotted])]
                if v.dotted.startswith("builtins.") and v.dotted[9:] in CALLS:
                    return [T("b", CALLS[v.dotted[9:]])]
                return None
            if isinstance(v, Func):
                if v.has_dec("property"):
                    return None
                t = self.of_annotation(v.module, v.node.returns) if not isinstance(v.node, ast.Lambda) else None
                return [t] if t else None
            if isinstance(e.func, ast.Attribute):
                base = self.infer(f, e.func.value)
                if not base:
                    return None
                out = []
                for t in base:
                    if t.kind == "b" and t.what == "dict" and e.func.attr == "get" and len(e.args) == 2:
                        r = self.infer(f, e.args[1])
                        out += r or []
                        continue
                    if t.kind == "b" and t.what == "str" and e.func.attr in ("join", "format", "replace", "strip", "lower", "upper", "title", "ljust", "rjust", "center"):
                        out.append(t)
                        continue
                    if t.kind == "b" and t.what == "str" and e.func.attr in ("split", "splitlines"):
                        out.append(T("b", "list"))
                        continue
                    if t.kind == "ext" and e.func.attr in SAME:
                        out.append(t)
                        continue
                    if t.kind == "inst":
                        m = self.members(t.what, e.func.attr)
                        fs = [b for b in m if isinstance(b, Func)]
                        if fs and len(fs) == len(m) and not any(x.is_property for x in fs):
                            ts = [self.of_annotation(x.module, x.node.returns) for x in fs]
                            if all(ts):
                                out += ts
                                continue
                    return None
                return out or None
        return None

    def infer_module(self, m, e):
        if e is None:
            return None
        if isinstance(e, ast.Call):
            v = self.P.resolve_expr(m, e.func)
            if isinstance(v, Class):
                return [T("inst", v)]
            if isinstance(v, Ext) and v.dotted in EXT:
                return [T("ext", EXT[v.dotted])]
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = self.P.resolve_expr(m, e)
            if isinstance(v, Var) and isinstance(v.owner, Class) and v.owner.is_enum:
                return [T("inst", v.owner)]
            return None
        if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.Tuple, ast.JoinedStr, ast.Constant, ast.DictComp, ast.ListComp)):
            return self._infer(None, e)
        return None

    # -- attributes of types

    def members(self, c, name):
        """What an attribute can be on an instance of the class or of one that is derived from it."""
        out = []
        for d in c.descendants():
            b, _ = d.lookup(name)
            if b is not None:
                b = self.P.deref(b)
                if b not in out:
                    out.append(b)
        return out

    def attr_type(self, t, name):
        if t.kind == "inst":
            out = []
            ms = self.members(t.what, name)
            if not ms:
                for d in t.what.descendants():
                    for c in d.mro():
                        if isinstance(c, Class) and name in c.fields:
                            for s in c.node.body:
                                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                                    r = self.of_annotation(c.module, s.annotation)
                                    if r is None:
                                        return None
                                    if r not in out:
                                        out.append(r)
                return out or None
            for b in ms:
                if isinstance(b, Func) and b.has_dec("property"):
                    if b.is_abstract and b.node.returns is None:
                        continue
                    r = self.of_annotation(b.module, b.node.returns)
                    if r is None:
                        return None
                    if r not in out:
                        out.append(r)
                else:
                    return None
            return out or None
        if t.kind == "ext":
            if t.what in ("Series", "DataFrame") and name == "T":
                return [T("ext", t.what, t.sure)]
        return None

    def class_names(self, c):
        """(all attribute names of instances of exactly this class, complete?)"""
        names, complete = set(STD_ATTRS), True
        for x in c.mro():
            if isinstance(x, Class):
                names |= set(x.ns) | set(x.fields) | x.inst_attrs
                if "__getattribute__" in x.ns or any(not by_key(b) for b in x.ns.get("__getattr__", ())):
                    complete = False
            else:
                extra = ext_base(x.dotted)
                if extra is None:
                    complete = False
                else:
                    names |= extra
        for d in c.node.decorator_list:
            names |= {"__dataclass_fields__", "__post_init__"}
        return names, complete

    def has_attr(self, t, name, every=False):
        """True, False or None (unknown)."""
        if t.kind == "b":
            return hasattr(BT[t.what], name)
        if t.kind == "ext":
            names = NAMES.get(t.what)
            if names is None:
                return None
            return name in names or name in EXTENDED.get(t.what, ()) or (name.startswith("__") and name.endswith("__")) or name.startswith("_") or None if t.what in ("plt.Axes",) else (name in names or name in EXTENDED.get(t.what, ()) or name.startswith("_"))
        rs = []
        for d in t.what.descendants():
            names, complete = self.class_names(d)
            rs.append(True if name in names else (False if complete else None))
        if any(r is True for r in rs):
            return True
        return None if None in rs else False


def by_key(g):
    """Does this __getattr__ only look the name up among keys that the user chose (and raise AttributeError otherwise)?"""
    node = getattr(g, "node", None)
    if not isinstance(node, ast.FunctionDef) or len(node.args.args) != 2:
        return False
    name = node.args.args[1].arg
    own = list(ast.walk(node))
    raises = any(isinstance(n, ast.Raise) and "AttributeError" in ast.dump(n) for n in own)
    returns = [n.value for n in own if isinstance(n, ast.Return)]
    return raises and bool(returns) and all(isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Name) and v.slice.id == name for v in returns)


def ext_base(dotted):
    if dotted == "abc.ABC":
        return set()
    if dotted in ("enum.Enum", "enum.IntEnum", "enum.Flag"):
        return {"name", "value", "_name_", "_value_", "__members__"}
    if dotted in ("typing.Mapping", "collections.abc.Mapping"):
        import collections.abc

        return set(dir(collections.abc.Mapping))
    if dotted.startswith("builtins."):
        b = getattr(builtins, dotted[9:], None)
        return set(dir(b)) if b is not None else None
    if dotted.split(".")[0] == "typing":
        return set()
    return None


def ext_has(dotted, name):
    """Does the library module or class have the attribute? True, False or None (unknown)."""
    if dotted.startswith("builtins."):
        b = getattr(builtins, dotted[9:], None)
        return hasattr(b, name) if isinstance(b, type) else None
    if dotted in EXT and EXT[dotted] in NAMES:
        t = EXT[dotted]
        return name in NAMES[t] or name in EXTENDED.get(t, ()) or name.startswith("_")
    if dotted in NAMES:
        return name in NAMES[dotted] or name.startswith("_") or None if dotted in ("pandas.tseries", "pandas.api") else (name in NAMES[dotted] or name.startswith("_"))
    top = dotted.split(".")[0]
    if top in sys.stdlib_module_names and top not in ("__future__", "antigravity", "this"):
        try:
            o = importlib.import_module(top)
            for p in dotted.split(".")[1:]:
                if not hasattr(o, p):
                    o = importlib.import_module(f"{o.__name__}.{p}")
                else:
                    o = getattr(o, p)
            if isinstance(o, type(sys)) or isinstance(o, type):
                return hasattr(o, name)
        except Exception:
            return None
    return None
