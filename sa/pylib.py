"""Models of Python builtins and the standard library."""

from __future__ import annotations

import itertools
import math

from . import expr as E
from . import labels
from . import lib as L
from .interp import MISSING, Abort, Super
from .lib import DefaultDict, compare, contains, describe, ext, getitem, is_const, is_numeric, method, to_expr, unit_of
from .values import (
    AbsRaise, BoolV, BoundMethod, ClassM, ColsV, EnumMember, ExcInst, ExcType, Ext, FrameV, FreqV, Idx, Instance, LenV,
    ModuleVal, Native, Num, Offset, Property, PyClass, PyFunc, SeriesV, StampV, StaticM, StrV, TokV, Top, TSet, UnitV,
    builtin_exc,
)


def arg(a, k, i, name, default=None):
    if i < len(a):
        return a[i]
    return k.get(name, default)


# ---------------------------------------------------------------- builtins

@ext("builtins.len")
def _len(I, a, k):
    v = a[0]
    if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
        return len(v)
    if labels.is_index(getattr(v, "idx", v)) and (n := labels.here(I, getattr(v, "idx", v))) is not None:
        return len(n)
    if isinstance(v, (SeriesV, FrameV, L.IdxArr)):
        return LenV(v.idx.ts)
    if isinstance(v, Idx):
        return LenV(v.ts)
    if isinstance(v, TSet):
        return LenV(v.idx.ts)
    if isinstance(v, ColsV):
        return len(v.names)
    if isinstance(v, Instance):
        f, _ = v.cls.lookup("__len__")
        if f is not None:
            return I.call(f, [v], {})
        I.raise_("TypeError", f"{describe(v)} has no len()")
    if isinstance(v, PyClass) and v.is_enum:
        return len(v.members)
    if v is None or isinstance(v, (int, float)):
        I.raise_("TypeError", "object has no len()")
    return I.top(f"len of {type(v).__name__}")


@ext("builtins.sum")
def _sum(I, a, k):
    acc = arg(a, k, 1, "start", 0)
    if isinstance(a[0], SeriesV):
        return series_sum(I, a[0])
    for x in I.iterate(a[0]):
        acc = L.binop(I, "Add", acc, x)
    return acc


def series_sum(I, s):
    if (t := labels.total(I, s)) is not None:
        return t
    if s.kind not in ("num", "int"):
        return I.top("sum of mask")
    ts = "&".join(sorted(I.ts_norm(s.idx.ts)))
    e = E.linear_op(s.expr, lambda key: E.atom(f"SUM({key} over {ts})"))
    return Num(e, s.unit)


@ext("builtins.any")
def _any(I, a, k):
    if isinstance(a[0], SeriesV):
        return reduce_mask(I, "any", a[0])
    for x in I.iterate(a[0]):
        if I.truth(x):
            return True
    return False


@ext("builtins.all")
def _all(I, a, k):
    if isinstance(a[0], SeriesV):
        return reduce_mask(I, "all", a[0])
    for x in I.iterate(a[0]):
        if not I.truth(x):
            return False
    return True


def special_preds(e):
    """Names of the predicates in a mask of which it is known that they hold in some, but not all, rows."""
    if isinstance(e, tuple):
        if e[0] == "p":
            return [e[1]] if e[1].startswith("$") else []
        return sorted({n for x in e[1:] for n in special_preds(x)})
    return []


def eval_mask(e, name, val):
    if isinstance(e, tuple):
        if e[0] == "p":
            return val if e[1] == name else e
        if e[0] == "not":
            return L.b_not(eval_mask(e[1], name, val))
        return L.b_bin(e[0], eval_mask(e[1], name, val), eval_mask(e[2], name, val))
    return e


def reduce_mask(I, what, s):
    e = s.expr
    if s.kind != "bool":
        return I.top(f"{what} of numbers")
    if (have := labels.elements(I, s)) is not None:
        return any(have.values()) if what == "any" else all(have.values())
    if e is True:
        return True if what == "all" else not I.ts_empty(s.idx.ts)
    if e is False:
        return False if what == "any" else I.ts_empty(s.idx.ts)
    names = special_preds(e)
    if names and not I.ts_empty(s.idx.ts):  # there are rows of each sort
        ts = I.ts_norm(s.idx.ts)
        vals = set()
        for sides in itertools.product((True, False), repeat=len(names)):
            if any((f"(not({n}))" if v else f"({n})") in ts for n, v in zip(names, sides)):
                continue
            x = e
            for n, v in zip(names, sides):
                x = eval_mask(x, n, v)
            vals.add(x if isinstance(x, bool) else None)
        if (what == "any") in vals:
            return what == "any"
        if None not in vals:
            return what != "any"
    if e is E.UNK:
        I.imprecise(f"{what} of unknown mask")
        return BoolV((what, "?", id(s)))
    return BoolV((what, L.mask_name(e), frozenset(I.ts_norm(s.idx.ts))))


def _minmax(I, a, k, name):
    items = a[0] if len(a) == 1 else list(a)
    if isinstance(items, (TSet, Idx)):
        idx = items.idx if isinstance(items, TSet) else items
        if I.ts_empty(idx.ts):
            if "default" in k:
                return k["default"]
            I.raise_("ValueError", f"{name}() arg is an empty sequence")
        return StampV(name, idx)
    items = I.iterate(items)
    if not items:
        if "default" in k:
            return k["default"]
        I.raise_("ValueError", f"{name}() arg is an empty sequence")
    key = k.get("key")
    keys = [I.call(key, [x], {}) for x in items] if key is not None else items
    if any(isinstance(x, (Top, StrV)) for x in keys):
        return I.top(f"{name} of unknown")
    best = 0
    for i in range(1, len(items)):
        op = "Lt" if name == "min" else "Gt"
        if I.truth(L.compare(I, op, keys[i], keys[best])):
            best = i
    return items[best]


ext("builtins.min")(lambda I, a, k: _minmax(I, a, k, "min"))
ext("builtins.max")(lambda I, a, k: _minmax(I, a, k, "max"))


@ext("builtins.sorted")
def _sorted(I, a, k):
    v = a[0]
    if isinstance(v, (TSet, Idx)):
        rev = k.get("reverse", False)
        return TSet(v.idx if isinstance(v, TSet) else v, "sorted" if rev is False else "list")
    quiet = isinstance(v, (set, frozenset))
    if quiet:
        items = sorted(v, key=lambda x: (type(x).__name__, repr(x)))
    else:
        items = I.iterate(v)
    key = k.get("key")
    keys = [I.call(key, [x], {}) for x in items] if key is not None else list(items)
    try:
        order = sorted(range(len(items)), key=lambda i: _const(keys[i]), reverse=bool(k.get("reverse", False)))
        return [items[i] for i in order]
    except (TypeError, ValueError):
        pass
    # insertion sort with comparisons
    out = []
    for x, kx in zip(items, keys):
        j = len(out)
        while j > 0 and I.truth(L.compare(I, "Lt", kx, out[j - 1][1])):
            j -= 1
        out.insert(j, (x, kx))
    out = [x for x, _ in out]
    return out[::-1] if k.get("reverse", False) else out


def _const(v):
    if is_const(v):
        return v
    raise ValueError


@ext("builtins.set")
def _set(I, a, k):
    if not a:
        return set()
    if isinstance(a[0], (Idx, TSet)):
        return TSet(a[0] if isinstance(a[0], Idx) else a[0].idx, "set")
    if isinstance(a[0], L.IdxArr):
        return I.mkset([TokV("sod", repr(a[0].idx.sod))] if a[0].what == "time" else [L.IdxArr(a[0].idx, a[0].what)])
    return I.mkset(list(a[0]) if isinstance(a[0], (set, frozenset)) else I.iterate(a[0]))


@ext("builtins.frozenset")
def _frozenset(I, a, k):
    return frozenset(_set(I, a, k)) if not (a and isinstance(a[0], (Idx, TSet))) else _set(I, a, k)


@ext("builtins.list")
def _list(I, a, k):
    if not a:
        return []
    if isinstance(a[0], (TSet, Idx)):
        v = a[0]
        if isinstance(v, Idx):
            return TSet(v, "sorted")
        return TSet(v.idx, "list" if v.kind == "set" else v.kind)
    return list(I.iterate(a[0]))


@ext("builtins.tuple")
def _tuple(I, a, k):
    if a and isinstance(a[0], TSet):
        return a[0]
    return tuple(I.iterate(a[0])) if a else ()


@ext("builtins.dict")
def _dict(I, a, k):
    d = {}
    if a:
        v = a[0]
        if isinstance(v, (dict, Instance, FrameV)):
            for kk in I.mapping_keys(v):
                d[kk] = getitem(I, v, kk)
        else:
            for pair in I.iterate(v):
                kk, vv = I.iterate(pair)
                d[kk] = vv
    d.update(k)
    return d


@ext("builtins.isinstance")
def _isinstance(I, a, k):
    return L.isinst(I, a[0], a[1])


@ext("builtins.issubclass")
def _issubclass(I, a, k):
    c, t = a
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, PyClass):
        return any(x in c.mro for x in ts)
    return I.top("issubclass")


@ext("builtins.hasattr")
def _hasattr(I, a, k):
    if isinstance(a[1], (StrV, Top)):
        return I.top("hasattr of unknown name")
    try:
        return I.getattr(a[0], a[1], None) is not None or I._getattr(a[0], a[1]) is not MISSING
    except AbsRaise as e:
        if isinstance(e.exc.typ, ExcType) and e.exc.typ.is_sub(builtin_exc("AttributeError")):
            return False
        raise


@ext("builtins.getattr")
def _getattr(I, a, k):
    if not isinstance(a[1], str):
        return I.top("getattr of unknown name")
    try:
        return I.getattr(a[0], a[1], *( [a[2]] if len(a) > 2 else []))
    except AbsRaise as e:
        if len(a) > 2 and isinstance(e.exc.typ, ExcType) and e.exc.typ.is_sub(builtin_exc("AttributeError")):
            return a[2]
        raise


@ext("builtins.setattr")
def _setattr(I, a, k):
    if not isinstance(a[1], str):
        I.imprecise("setattr of unknown name")
        return None
    I.setattr(a[0], a[1], a[2])


@ext("builtins.type")
def _type(I, a, k):
    if len(a) == 3:
        return I.top("dynamic class")
    return L.typeof(I, a[0])


@ext("builtins.id")
def _id(I, a, k):
    I.event("identity", what="id()")
    return I.top("id")


@ext("builtins.hash")
def _hash(I, a, k):
    I.event("identity", what="hash()")
    return I.top("hash")


@ext("builtins.print")
def _print(I, a, k):
    I.event("print")
    return None


@ext("builtins.zip")
def _zip(I, a, k):
    return [tuple(t) for t in zip(*[I.iterate(x) for x in a])]


@ext("builtins.map")
def _map(I, a, k):
    return [I.call(a[0], list(t), {}) for t in zip(*[I.iterate(x) for x in a[1:]])]


@ext("builtins.filter")
def _filter(I, a, k):
    return [x for x in I.iterate(a[1]) if I.truth(x if a[0] is None else I.call(a[0], [x], {}))]


@ext("builtins.enumerate")
def _enumerate(I, a, k):
    start = arg(a, k, 1, "start", 0)
    return [(i + start, x) for i, x in enumerate(I.iterate(a[0]))]


@ext("builtins.range")
def _range(I, a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    raise Abort("range of unknown length")


@ext("builtins.reversed")
def _reversed(I, a, k):
    return list(I.iterate(a[0]))[::-1]


class IterV:
    def __init__(self, items):
        self.items = list(items)


@ext("builtins.iter")
def _iter(I, a, k):
    if isinstance(a[0], (dict,)):
        return list(a[0])
    return IterV(I.iterate(a[0]))


@ext("builtins.next")
def _next(I, a, k):
    v = a[0]
    items = v.items if isinstance(v, IterV) else I.iterate(v)
    if not items:
        if len(a) > 1:
            return a[1]
        I.raise_("StopIteration")
    if isinstance(v, IterV):
        return v.items.pop(0)
    return items[0]


@ext("builtins.abs")
def _abs(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Num):
        return Num(E.atom(f"abs({E.key(v.expr)})") if isinstance(v.expr, E.Rat) else E.UNK, v.unit)
    if isinstance(v, SeriesV):
        return SeriesV(E.atom(f"abs({E.key(v.expr)})") if isinstance(v.expr, E.Rat) else E.UNK, v.idx, v.unit, v.name)
    return I.top("abs")


@ext("builtins.round")
def _round(I, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return round(*a)
    return I.top("round")


@ext("builtins.repr", "builtins.str", "builtins.format")
def _str(I, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, (str, int, float, bool, type(None))):
        return str(v)
    if isinstance(v, Offset):
        return f"<{v.str}>"
    if isinstance(v, UnitV):
        return repr(v)
    if isinstance(v, Instance):
        for n in ("__str__", "__repr__"):
            f, _ = v.cls.lookup(n)
            if f is not None:
                return I.call(f, [v], {})
    if isinstance(v, TokV) and v.kind in ("tz", "sod"):
        return StrV(f"str({v})", v)
    return StrV("str()")


@ext("builtins.float")
def _float(I, a, k):
    v = a[0] if a else 0.0
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            I.raise_("ValueError", "could not convert string to float")
    if isinstance(v, Num):
        if v.unit is not None and v.unit.dims:
            I.raise_("pint.DimensionalityError", "not dimensionless")
        return Num(v.expr if v.unit is None else E.mul(v.expr, E.num(v.unit.scale)), None)
    if v is None or isinstance(v, (list, dict)):
        I.raise_("TypeError", "float() argument")
    return I.top("float()")


@ext("builtins.int")
def _int(I, a, k):
    v = a[0] if a else 0
    if isinstance(v, (int, float)) and not (isinstance(v, float) and (math.isnan(v) or math.isinf(v))):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.raise_("ValueError", "invalid literal for int()")
    return I.top("int()")


@ext("builtins.bool")
def _bool(I, a, k):
    v = a[0] if a else False
    if isinstance(v, BoolV):
        return v
    return I.truth(v)


@ext("builtins.property")
def _property(I, a, k):
    return Property(arg(a, k, 0, "fget"), arg(a, k, 1, "fset"))


@method(Property, "setter")
def _setter(I, a, k):
    p, f = a
    return Property(p.fget, f, p.cached)


@method(Property, "getter")
def _getter(I, a, k):
    p, f = a
    return Property(f, p.fset, p.cached)


@ext("builtins.classmethod")
def _classmethod(I, a, k):
    return ClassM(a[0])


@ext("builtins.staticmethod")
def _staticmethod(I, a, k):
    return StaticM(a[0])


@ext("builtins.slice")
def _slice(I, a, k):
    return slice(*a)


@ext("builtins.callable")
def _callable(I, a, k):
    v = a[0]
    if isinstance(v, Top):
        return v
    if isinstance(v, Instance):
        return v.cls.lookup("__call__")[0] is not None
    return isinstance(v, (PyFunc, Native, BoundMethod, PyClass, Ext, ExcType))


@ext("builtins.super")
def _super(I, a, k):
    return Super(a[0], a[1])


@ext("builtins.object")
def _object(I, a, k):
    return TokV("object", f"{I.site}")


@ext("builtins.vars")
def _vars(I, a, k):
    if a and isinstance(a[0], (Instance,)):
        return a[0].attrs
    return I.top("vars")


@ext("builtins.dir", "builtins.input", "builtins.open", "builtins.globals", "builtins.locals", "builtins.eval", "builtins.exec")
def _opaque(I, a, k):
    return I.top("opaque builtin")


@ext("builtins.divmod")
def _divmod(I, a, k):
    if all(isinstance(x, (int, float)) for x in a) and a[1]:
        return divmod(*a)
    return I.top("divmod")


@ext("builtins.ord", "builtins.chr")
def _ordchr(I, a, k):
    return I.top("ord")


# ---------------------------------------------------------------- str

def _strmethod(name):
    def fn(I, a, k):
        s = a[0]
        if isinstance(s, str) and all(is_const(x) or isinstance(x, (list, tuple)) and all(isinstance(y, str) for y in x) for x in a[1:]) and all(is_const(x) for x in k.values()):
            try:
                r = getattr_py(s, name)(*a[1:], **k)
            except (TypeError, ValueError, IndexError, KeyError) as e:
                I.raise_(type(e).__name__, str(e))
            return r
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isupper", "islower"):
            return I.top(f"str.{name}")
        if name in ("split", "splitlines", "partition", "rpartition", "rsplit"):
            return I.top(f"str.{name}")
        if name == "join":
            if not isinstance(a[1], (Top, StrV)):
                try:
                    items = I.iterate(a[1])
                except Abort:
                    I.trace.imprecise and I.trace.imprecise.pop()
                    return StrV("join")
                if isinstance(s, str) and all(isinstance(x, str) for x in items):
                    return s.join(items)
                for x in items:
                    if not isinstance(x, (str, StrV, Top)):
                        I.raise_("TypeError", "sequence item: expected str instance")
            return StrV("join")
        return StrV(f"str.{name}")

    return fn


import builtins as _bi

getattr_py = _bi.getattr
for _n in dir(str):
    if not _n.startswith("_"):
        method(str, _n)(_strmethod(_n))
        method(StrV, _n)(_strmethod(_n))


# ---------------------------------------------------------------- list

@method(list, "append")
def _append(I, a, k):
    I.mutate(a[0], "append")
    a[0].append(a[1])


@method(list, "extend")
def _extend(I, a, k):
    I.mutate(a[0], "extend")
    a[0].extend(I.iterate(a[1]))


@method(list, "insert")
def _insert(I, a, k):
    I.mutate(a[0], "insert")
    if isinstance(a[1], int):
        a[0].insert(a[1], a[2])


@method(list, "pop")
def _lpop(I, a, k):
    I.mutate(a[0], "pop")
    try:
        return a[0].pop(*a[1:])
    except (IndexError, TypeError):
        I.raise_("IndexError", "pop")


@method(list, "remove")
def _lremove(I, a, k):
    I.mutate(a[0], "remove")
    for i, x in enumerate(a[0]):
        if I.truth(L.equal(I, x, a[1])):
            del a[0][i]
            return None
    I.raise_("ValueError", "x not in list")


@method(list, "clear")
def _lclear(I, a, k):
    I.mutate(a[0], "clear")
    a[0].clear()


@method(list, "sort")
def _lsort(I, a, k):
    I.mutate(a[0], "sort")
    a[0][:] = _sorted(I, [list(a[0])], k)


@method(list, "reverse")
def _lreverse(I, a, k):
    I.mutate(a[0], "reverse")
    a[0].reverse()


@method(list, "copy")
def _lcopy(I, a, k):
    return list(a[0])


@method(list, "index")
@method(tuple, "index")
def _lindex(I, a, k):
    for i, x in enumerate(a[0]):
        if I.truth(L.equal(I, x, a[1])):
            return i
    I.raise_("ValueError", "not in list")


@method(list, "count")
@method(tuple, "count")
def _lcount(I, a, k):
    return sum(1 for x in a[0] if I.truth(L.equal(I, x, a[1])))


# ---------------------------------------------------------------- dict

@method(dict, "items")
def _items(I, a, k):
    return [(x, y) for x, y in a[0].items()]


class KeysV(list):
    """dict.keys(): ordered, but equality and operators of a set."""


@method(dict, "keys")
def _keys(I, a, k):
    return KeysV(a[0].keys())


@method(dict, "values")
def _values(I, a, k):
    return list(a[0].values())


@method(dict, "get")
def _get(I, a, k):
    d, key = a[0], a[1]
    if isinstance(key, (Top, StrV)):
        return I.top("dict.get of unknown key")
    if not I.hashable(key):
        I.raise_("TypeError", "unhashable")
    for kk in d:
        if kk is key or (is_const(kk) and is_const(key) and kk == key) or (not is_const(key) and I.truth(L.equal(I, kk, key))):
            return d[kk]
    return arg(a, k, 2, "default")


@method(dict, "pop")
def _dpop(I, a, k):
    I.mutate(a[0], "pop")
    if a[1] in a[0]:
        return a[0].pop(a[1])
    if len(a) > 2:
        return a[2]
    I.raise_("KeyError", repr(a[1]))


@method(dict, "update")
def _dupdate(I, a, k):
    I.mutate(a[0], "update")
    if len(a) > 1:
        a[0].update(_dict(I, [a[1]], {}))
    a[0].update(k)


@method(dict, "setdefault")
def _dsetdefault(I, a, k):
    if a[1] in a[0]:
        return a[0][a[1]]
    I.mutate(a[0], "setdefault")
    a[0][a[1]] = a[2] if len(a) > 2 else None
    return a[0][a[1]]


@method(dict, "copy")
def _dcopy(I, a, k):
    return dict(a[0])


@method(dict, "clear")
def _dclear(I, a, k):
    I.mutate(a[0], "clear")
    a[0].clear()


# ---------------------------------------------------------------- set

@method(set, "add")
def _sadd(I, a, k):
    I.mutate(a[0], "add")
    new = I.mkset(list(a[0]) + [a[1]])
    a[0].clear()
    a[0].update(new)


@method(set, "discard", "remove")
def _sremove(I, a, k):
    I.mutate(a[0], "remove")
    for x in list(a[0]):
        if I.truth(L.equal(I, x, a[1])):
            a[0].remove(x)


@method(set, "update")
def _supdate(I, a, k):
    I.mutate(a[0], "update")
    for o in a[1:]:
        a[0].update(I.mkset(list(a[0]) + I.iterate(o)))


@method(set, "pop")
def _spop(I, a, k):
    I.mutate(a[0], "pop")
    if not a[0]:
        I.raise_("KeyError", "pop from an empty set")
    if len(a[0]) > 1:
        I.event("set-iteration", n=len(a[0]))
    x = sorted(a[0], key=lambda x: (type(x).__name__, repr(x)))[0]
    a[0].discard(x)
    return x


@method(set, "copy")
def _scopy(I, a, k):
    return set(a[0])


def _setmethod(name):
    def fn(I, a, k):
        s = a[0]
        for o in a[1:]:
            o = o if isinstance(o, (set, frozenset)) else I.mkset(I.iterate(o))
            s = L.set_op(I, name, s, o)
        return s

    return fn


for _n in ("union", "intersection", "difference", "symmetric_difference"):
    for _t in (set, frozenset):
        method(_t, _n)(_setmethod(_n))


@method(set, "issubset")
def _issubset(I, a, k):
    o = I.iterate(a[1]) if not isinstance(a[1], (set, frozenset)) else a[1]
    return all(I.truth(contains(I, list(o), x)) for x in a[0])


@method(set, "issuperset")
def _issuperset(I, a, k):
    o = I.iterate(a[1]) if not isinstance(a[1], (set, frozenset)) else a[1]
    return all(I.truth(contains(I, list(a[0]), x)) for x in o)


@method(set, "isdisjoint")
def _isdisjoint(I, a, k):
    o = I.iterate(a[1]) if not isinstance(a[1], (set, frozenset)) else a[1]
    return not any(I.truth(contains(I, list(a[0]), x)) for x in o)


@method(TSet, "intersection")
def _tint(I, a, k):
    s = a[0].idx
    ts = s.ts
    for o in a[1:]:
        oi = o if isinstance(o, Idx) else (o.idx if isinstance(o, TSet) else None)
        if oi is None:
            return I.top("intersection of timestamps with unknown")
        if (s.tz is None) != (oi.tz is None) or (isinstance(s.tz, TokV) and isinstance(oi.tz, TokV) and s.tz != oi.tz and False):
            # naive and aware timestamps are never equal
            ts = frozenset(["~empty"])
        else:
            ts = I.ts_inter(ts, oi.ts)
    return TSet(s.copy(ts=ts), "set")


@method(TSet, "union")
def _tuni(I, a, k):
    s = a[0].idx
    names = ["&".join(sorted(I.ts_norm(x.idx.ts))) for x in a if isinstance(x, TSet)]
    if len(set(names)) == 1:
        return a[0]
    return TSet(s.copy(ts={f"union({' | '.join(sorted(names))})"}), "set")


@method(TSet, "difference")
def _tdiff(I, a, k):
    s, o = a[0].idx, a[1]
    oi = o if isinstance(o, Idx) else o.idx
    if I.ts_subset(s.ts, oi.ts):
        return TSet(s.copy(ts={"~empty"}), "set")
    return TSet(s.copy(ts=s.ts | {f"(not in {'&'.join(sorted(oi.ts))})"}), "set")


# ---------------------------------------------------------------- stdlib

@ext("functools.partial")
def _partial(I, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return Native("partial", lambda I, a2, k2: I.call(f, pre + list(a2), {**kw, **k2}))


@ext("functools.reduce")
def _reduce(I, a, k):
    items = I.iterate(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            I.raise_("TypeError", "reduce() of empty sequence")
        acc, items = items[0], items[1:]
    for x in items:
        acc = I.call(a[0], [acc, x], {})
    return acc


@ext("itertools.chain")
def _chain(I, a, k):
    return [x for it in a for x in I.iterate(it)]


@ext("itertools.chain.from_iterable")
def _chainfi(I, a, k):
    return [x for it in I.iterate(a[0]) for x in I.iterate(it)]


@ext("itertools.product")
def _product(I, a, k):
    import itertools
    return [tuple(t) for t in itertools.product(*[I.iterate(x) for x in a])]


@ext("itertools.combinations")
def _combinations(I, a, k):
    import itertools
    return [tuple(t) for t in itertools.combinations(I.iterate(a[0]), a[1])]


@ext("itertools.pairwise")
def _pairwise(I, a, k):
    x = I.iterate(a[0])
    return list(zip(x, x[1:]))


for _o, _n in {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "or_": "BitOr", "and_": "BitAnd"}.items():
    ext(f"operator.{_o}")(lambda I, a, k, n=_n: L.binop(I, n, a[0], a[1]))
for _o, _n in {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}.items():
    ext(f"operator.{_o}")(lambda I, a, k, n=_n: L.compare(I, n, a[0], a[1]))
ext("operator.contains")(lambda I, a, k: contains(I, a[0], a[1]))
ext("operator.getitem")(lambda I, a, k: getitem(I, a[0], a[1]))
ext("operator.neg")(lambda I, a, k: L.unop(I, "USub", a[0]))
ext("operator.not_")(lambda I, a, k: not I.truth(a[0]))


@ext("operator.attrgetter")
def _attrgetter(I, a, k):
    names = list(a)

    def get(I, a2, k2):
        out = []
        for n in names:
            v = a2[0]
            for part in n.split("."):
                v = I.getattr(v, part)
            out.append(v)
        return out[0] if len(out) == 1 else tuple(out)

    return Native("attrgetter", get)


@ext("operator.itemgetter")
def _itemgetter(I, a, k):
    keys = list(a)
    return Native("itemgetter", lambda I, a2, k2: getitem(I, a2[0], keys[0]) if len(keys) == 1 else tuple(getitem(I, a2[0], x) for x in keys))


@ext("warnings.warn")
def _warn(I, a, k):
    I.event("warn")
    return None


@ext("warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings")
def _warnfilter(I, a, k):
    I.event("global-state", what="warnings filter")
    return None


@ext("enum.auto")
def _auto(I, a, k):
    return Top("enum.auto")


@ext("typing.TypeVar", "typing.NewType")
def _typevar(I, a, k):
    return Ext(f"typevar.{a[0]}")


@ext("typing.cast")
def _cast(I, a, k):
    return a[1]


@ext("copy.copy", "copy.deepcopy")
def _copy(I, a, k):
    v = a[0]
    if isinstance(v, (dict, list, set)):
        return type(v)(v)
    if isinstance(v, SeriesV):
        return L.copy_series(v)
    if isinstance(v, Instance):
        n = Instance(v.cls)
        n.attrs = dict(v.attrs)
        return n
    return v


@ext("pathlib.Path", "pathlib.Path.cwd")
def _path(I, a, k):
    return Top("path")


@ext("dataclasses.replace")
def _replace(I, a, k):
    o = a[0]
    kw = {n: o.attrs[n] for n, init, *_ in o.cls.dataclass["fields"] if init}
    kw.update(k)
    return I.call(o.cls, [], kw)


@ext("dataclasses.asdict")
def _asdict(I, a, k):
    return dict(a[0].attrs)


@ext("dataclasses.fields")
def _fields(I, a, k):
    return I.top("dataclass fields")


def delta_token(I, a, k):
    parts = [repr(x) for x in a] + [f"{n}={_d(v)}" for n, v in sorted(k.items()) if not (isinstance(v, (int, float)) and v == 0)]
    return TokV("delta", f"({', '.join(parts)})" if parts else "0")


def _d(v):
    return repr(v)


@ext("datetime.time")
def _time(I, a, k):
    vals = list(a) + list(k.values())
    if all(isinstance(v, int) for v in vals):
        names = ["hour", "minute", "second", "microsecond"]
        d = dict(zip(names, a))
        d.update(k)
        return TokV("sod", f"{d.get('hour', 0):02}:{d.get('minute', 0):02}:{d.get('second', 0):02}")
    return I.top("time")


@ext("datetime.date")
def _datetime(I, a, k):
    return I.top("datetime")


for _p in ("datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "time.time"):
    def _now(I, a, k, p=_p):
        I.event("clock", what=p)
        return Top("now")
    ext(_p)(_now)
