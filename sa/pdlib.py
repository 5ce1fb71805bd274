"""Models of pandas, numpy and pint (attributes, methods, functions)."""

from __future__ import annotations

import builtins
import re
from fractions import Fraction

from . import expr as E
from . import labels
from . import lib as L
from .apinames import NAMES
from .interp import EMPTY, MISSING, Abort
from .lib import (
    Acc, DimV, DtypeV, IdxArr, as_column, attr, binop, compare, copy_series, ext, frame_op, getitem, is_numeric,
    iloc_get, loc_get, merge_idx, method, num_op, select, select_idx, to_expr, unit_of,
)
from .pylib import arg, delta_token, reduce_mask, series_sum
from .values import (
    BoolV, BoundMethod, ColsV, EnumMember, ExcInst, Ext, FrameV, FreqV, Idx, Instance, LenV, Native, NODIM, Num, Offset,
    Property, PyFunc, SeriesV, StampV, StrV, TokV, Top, TSet, U, UnitV, b_bin, b_not, b_select, parse_freq, parse_unit,
)

bgetattr = builtins.getattr


def base(u):
    """Unit in the base system of the package (scale 1 for every dimension)."""
    return UnitV(u.dims) if u is not None else None


def rescale(s, unit):
    """Series/number, expressed in another unit of the same dimension."""
    f = (s.unit or NODIM).scale / unit.scale
    e = E.mul(s.expr, E.num(f)) if f != 1 else s.expr
    return e


def tsname(I, idx):
    return "&".join(sorted(I.ts_norm(idx.ts)))


# ---------------------------------------------------------------- setattr

def setattr_(I, o, name, v):
    if hasattr(o, "sa_setattr") and o.sa_setattr(I, name, v):
        return
    if isinstance(o, (SeriesV, FrameV, Idx)):
        I.mutate(o, f"set attribute {name}")
    if isinstance(o, Idx):
        if name == "freq":
            if isinstance(v, str):
                v = parse_freq(v)
            o.freq = v
            if v is not None:
                o.grain = v
            return
        if name == "name":
            o.name = v
            return
        I.raise_("AttributeError", f"can't set attribute {name}")
    if isinstance(o, (SeriesV, FrameV)) and name == "index":
        if isinstance(v, Idx):
            if isinstance(o, SeriesV) and o.idx.stat == "unordered" and isinstance(o.expr, E.Ite):
                o.expr = E.atom("(values in another order)")
            if isinstance(o, FrameV):
                o.cols = {c: SeriesV(s.expr, v, s.unit, s.name, s.kind) for c, s in o.cols.items()}
            o.idx = v
            return
        o.idx = Idx({f"(replaced {id(o)})"}, None, None, None)
        I.imprecise("index replaced")
        return
    if isinstance(o, SeriesV) and name == "name":
        o.name = v
        return
    if isinstance(o, FrameV) and name == "columns":
        names = v.names if isinstance(v, ColsV) else v
        if isinstance(names, (list, tuple)) and len(names) == len(o.cols):
            o.cols = {n: SeriesV(s.expr, s.idx, s.unit, n, s.kind) for n, s in zip(names, o.cols.values())}
            return
        I.imprecise("columns replaced")
        return
    if isinstance(o, FrameV) and name in o.cols:
        L.setitem(I, o, name, v)
        return
    if isinstance(o, Native):
        return
    if isinstance(o, (int, float, str, tuple, list, dict, set, type(None), Offset, FreqV, TokV, Num)):
        I.raise_("AttributeError", f"{type(o).__name__} has no attribute {name}")
    I.imprecise(f"attribute {name} set on {type(o).__name__}")


L.setattr = setattr_


# ---------------------------------------------------------------- series: attributes

def dtype_of(s):
    if s.unit is not None:
        return DtypeV("pint", s.unit)
    return DtypeV({"num": "float", "int": "int", "bool": "bool", "obj": "object"}.get(s.kind, "object"))


@attr(SeriesV)
def series_attr(I, s, name):
    if name in ("index",):
        return s.idx if not s.arr else MISSING
    if name == "name":
        return s.name
    if name in ("values", "array"):
        c = copy_series(s)
        c.arr = True
        c.view_of = s
        return c
    if name in ("loc", "at"):
        return Acc("loc", s)
    if name in ("iloc", "iat"):
        return Acc("iloc", s)
    if name in ("dtype", "dtypes"):
        return dtype_of(s)
    if name in ("pint", "units", "magnitude", "m", "u", "dimensionality") and s.arr and s.unit is not None and name != "pint":
        return pint_attr(I, Acc("pint", s), name)
    if name == "pint":
        if s.unit is None and s.kind != "obj" or s.arr:
            return MISSING
        if s.kind == "obj" and s.unit is None:
            return I.top("pint accessor of object series")
        return Acc("pint", s)
    if name == "empty":
        return I.ts_empty(s.idx.ts)
    if name in ("size",):
        return LenV(s.idx.ts)
    if name == "shape":
        return (LenV(s.idx.ts),)
    if name == "T":
        return s
    if name == "is_unique":
        return True
    r = L.pandas_ext_attr(I, s, "pandas.Series", name)
    if r is not MISSING:
        return r
    if name == "__class__":
        return L.typeof(I, s)
    if name == "hasnans":
        return E.has_nan(s.expr)
    if name in NAMES["Series" if not s.arr else "ndarray"] or name.startswith("__"):
        return I.top(f"Series.{name}")
    return MISSING


@attr(FrameV)
def frame_attr(I, f, name):
    if name in ("index",):
        return f.idx
    if name == "columns":
        return ColsV(f.cols)
    if name == "T" and (t := labels.transpose(I, f)) is not None:
        return t
    if name in ("loc", "at"):
        return Acc("loc", f)
    if name in ("iloc", "iat"):
        return Acc("iloc", f)
    if name == "pint":
        return Acc("pint", f)
    if name == "empty":
        return not f.cols or I.ts_empty(f.idx.ts)
    if name == "dtypes":
        return [dtype_of(s) for s in f.cols.values()]
    if name == "shape":
        return (LenV(f.idx.ts), len(f.cols))
    r = L.pandas_ext_attr(I, f, "pandas.DataFrame", name)
    if r is not MISSING:
        return r
    if name == "__class__":
        return L.typeof(I, f)
    if name in NAMES["DataFrame"] or name.startswith("__"):
        return I.top(f"DataFrame.{name}")
    if name in f.cols:
        return f.cols[name]
    return MISSING


@attr(ColsV)
def cols_attr(I, c, name):
    if name == "nlevels":
        ns = {len(n) if isinstance(n, tuple) else 1 for n in c.names}
        return max(ns) if ns else 1
    if name in ("values", "array"):
        return list(c.names)
    if name == "name":
        return None
    if name == "empty":
        return not c.names
    if name in NAMES["Index"] or name in NAMES["MultiIndex"]:
        return I.top(f"columns.{name}")
    return MISSING


@method(ColsV, "tolist", "to_list")
def _cols_tolist(I, a, k):
    return list(a[0].names)


@method(ColsV, "get_level_values")
def _cols_level(I, a, k):
    lv = arg(a, k, 1, "level", 0)
    if not isinstance(lv, int):
        return I.top("level by name")
    return ColsV([n[lv] if isinstance(n, tuple) else n for n in a[0].names])


@method(ColsV, "unique", "drop_duplicates")
def _cols_unique(I, a, k):
    return ColsV(list(dict.fromkeys(a[0].names)))


@method(ColsV, "isin")
def _cols_isin(I, a, k):
    vals = I.iterate(a[1])
    return [n in vals for n in a[0].names]


@method(ColsV, "equals")
def _cols_equals(I, a, k):
    return isinstance(a[1], ColsV) and a[0].names == a[1].names


@method(ColsV, "intersection", "union", "difference")
def _cols_setops(I, a, k):
    return I.top("column set operation")


# ---------------------------------------------------------------- pint accessor

@attr(Acc)
def acc_attr(I, o, name):
    if o.kind == "pint":
        return pint_attr(I, o, name)
    return I.top(f"accessor attribute {name}")


def pint_attr(I, o, name):
    x = o.o
    if isinstance(x, FrameV):
        if name in ("m", "magnitude"):
            return FrameV({c: magn(s) for c, s in x.cols.items()}, x.idx)
        if name == "to_base_units":
            return Native("to_base_units", lambda I, a, k: FrameV({c: to_base(s) for c, s in x.cols.items()}, x.idx))
        if name == "dequantify":
            return Native("dequantify", lambda I, a, k: dequantify(I, x))
        return I.top(f"DataFrame.pint.{name}")
    if name in ("m", "magnitude"):
        return magn(x)
    if name in ("u", "units"):
        return x.unit
    if name == "dimensionality":
        return DimV(x.unit.dims)
    if name == "to_base_units":
        return Native("to_base_units", lambda I, a, k: to_base(x))
    if name in ("to", "ito"):
        return Native("to", lambda I, a, k: to_unit(I, x, a[0] if a else k.get("units")))
    if name in ("dimensionless", "unitless"):
        return not x.unit.dims
    if name == "quantity":
        return I.top("pint.quantity")
    if name in ("check",):
        return I.top("pint.check")
    return I.top(f"Series.pint.{name}")


def magn(s):
    return SeriesV(s.expr, s.idx, None, s.name, "num" if s.kind != "bool" else "bool", s.arr)


def to_base(s):
    if s.unit is None:
        return s
    u = base(s.unit)
    return SeriesV(rescale(s, u), s.idx, u, s.name, s.kind, s.arr)


def to_unit(I, s, unit):
    u = as_unit(I, unit)
    if not isinstance(u, UnitV):
        return I.top("conversion to unknown unit")
    if (s.unit or NODIM).dims != u.dims:
        I.event("dimension-error", left=repr(s.unit), right=repr(u), op="to")
        I.raise_("pint.DimensionalityError", f"Cannot convert from {s.unit} to {u}")
    if isinstance(s, Num):
        return Num(rescale(s, u), u)
    return SeriesV(rescale(s, u), s.idx, u, s.name, "num", s.arr)


def as_unit(I, u):
    if isinstance(u, UnitV):
        return u
    if isinstance(u, str):
        r = parse_unit(u)
        if r is None:
            if u.replace("_", "").isalnum():
                I.raise_("pint.UndefinedUnitError", f"{u} not defined")
            return I.top("unit expression")
        return r
    if isinstance(u, Num) and u.unit is not None:
        return u.unit
    return I.top("unit")


def dequantify(I, f):
    return FrameV({(*(c if isinstance(c, tuple) else (c,)), repr(s.unit) if s.unit is not None else ""): SeriesV(s.expr, s.idx, None, None, s.kind) for c, s in f.cols.items()}, f.idx)


# ---------------------------------------------------------------- series/frame: methods

def both(*names):
    def deco(fn):
        for t in (SeriesV, FrameV):
            for n in names:
                L.METHODS[(t, n)] = fn
        return fn

    return deco


def mapcols(f, fn):
    return FrameV({c: fn(s) for c, s in f.cols.items()}, f.idx)


@both("copy")
def _copy(I, a, k):
    o = a[0]
    if isinstance(o, FrameV):
        return mapcols(o, copy_series)
    return copy_series(o)


@method(SeriesV, "astype")
def _astype(I, a, k):
    s, t = a[0], arg(a, k, 1, "dtype")
    if isinstance(t, StrV):
        return I.top("astype of unknown type")
    if isinstance(t, str) and t.startswith("pint["):
        u = parse_unit(t[5:-1])
        if u is None:
            I.raise_("pint.UndefinedUnitError", t)
        if s.unit is not None:
            return to_unit(I, s, u)
        return SeriesV(s.expr, s.idx, u, s.name, "num", s.arr)
    if isinstance(t, DtypeV):
        if t.kind == "pint":
            if s.unit is not None:
                return to_unit(I, s, t.unit)
            return SeriesV(s.expr, s.idx, t.unit, s.name, "num", s.arr)
        t = t.kind
    name = t.path.rpartition(".")[2] if isinstance(t, Ext) else t
    if name in ("float", "float64"):
        if s.kind == "bool":
            return SeriesV(b_select(s.expr, E.ONE, E.ZERO), s.idx, None, s.name, "num", s.arr)
        if s.unit is not None and s.unit.dims:
            # pint-pandas: magnitude in its own unit
            return magn(s)
        if s.unit is not None:
            return SeriesV(rescale(s, NODIM), s.idx, None, s.name, "num", s.arr)
        return SeriesV(s.expr, s.idx, None, s.name, "num", s.arr)
    if name in ("bool",) and s.kind == "bool":
        return copy_series(s)
    return I.top(f"astype {name}")


@method(FrameV, "astype")
def _fastype(I, a, k):
    t = arg(a, k, 1, "dtype")
    if isinstance(t, dict):
        out = {}
        for c, s in a[0].cols.items():
            r = _astype(I, [s, t[c]], {}) if c in t else s
            if not isinstance(r, SeriesV):
                return r
            out[c] = r
        return FrameV(out, a[0].idx)
    out = {c: _astype(I, [s, t], {}) for c, s in a[0].cols.items()}
    if not all(isinstance(v, SeriesV) for v in out.values()):
        return I.top("astype")
    return FrameV(out, a[0].idx)


@method(SeriesV, "rename")
def _srename(I, a, k):
    n = arg(a, k, 1, "index")
    c = copy_series(a[0])
    if callable(n) or isinstance(n, (dict, PyFunc)):
        return I.top("rename with mapper")
    c.name = n
    return c


@method(FrameV, "rename")
def _frename(I, a, k):
    m = k.get("columns")
    if m is None and k.get("axis") in (1, "columns"):
        m = a[1] if len(a) > 1 else k.get("mapper")
    if isinstance(m, dict):
        return FrameV({m.get(c, c): _named(s, m.get(c, c)) for c, s in a[0].cols.items()}, a[0].idx)
    if isinstance(m, (PyFunc, Native, BoundMethod)):
        out = {}
        for c, s in a[0].cols.items():
            n = I.call(m, [c], {})
            out[n] = _named(s, n)
        return FrameV(out, a[0].idx)
    return I.top("rename")


def _named(s, n):
    c = copy_series(s)
    c.name = n
    return c


@both("rename_axis")
def _rename_axis(I, a, k):
    n = k.get("index", a[1] if len(a) > 1 else None)
    if k.get("columns") is not None or k.get("axis") in (1, "columns"):
        return _copy(I, [a[0]], {})
    return with_index(a[0], a[0].idx.copy(name=n))


def with_index(o, idx):
    if isinstance(o, FrameV):
        return FrameV({c: with_index(s, idx) for c, s in o.cols.items()}, idx)
    return SeriesV(o.expr, idx, o.unit, o.name, o.kind, o.arr)


@both("set_axis")
def _set_axis(I, a, k):
    v = arg(a, k, 1, "labels")
    ax = k.get("axis", a[2] if len(a) > 2 else 0)
    if ax in (1, "columns") and isinstance(a[0], FrameV):
        names = v.names if isinstance(v, ColsV) else v
        if isinstance(names, (list, tuple)):
            return FrameV({n: _named(s, n) for n, s in zip(names, a[0].cols.values())}, a[0].idx)
        return I.top("set_axis")
    if isinstance(v, Idx):
        return with_index(a[0], v)
    return I.top("set_axis")


@both("reindex")
def _reindex(I, a, k):
    o = a[0]
    idx = arg(a, k, 1, "index", k.get("labels"))
    if not isinstance(idx, Idx):
        return I.top("reindex")
    fill = k.get("fill_value", MISSING)
    fv = E.NAN if fill is MISSING else to_expr(fill)
    if fill is None:
        fv = E.NAN
    if not I.ts_same(idx.ts, idx.ts) or k.get("method") is not None:
        return I.top("reindex with method")

    def one(s):
        if I.ts_subset(idx.ts, s.idx.ts):
            return SeriesV(s.expr, idx, s.unit, s.name, s.kind, s.arr)
        f = fv
        if isinstance(fill, Num) and fill.unit is not None and s.unit is not None:
            f = E.mul(fv, E.num(fill.unit.scale / s.unit.scale))
        return SeriesV(L.inside(I, s.idx, s.expr, f), idx, s.unit, s.name, s.kind, s.arr)

    if isinstance(o, FrameV):
        return FrameV({c: one(s) for c, s in o.cols.items()}, idx)
    return one(o)


@method(FrameV, "items", "iteritems")
def _fitems(I, a, k):
    return [(c, s) for c, s in a[0].cols.items()]


@method(FrameV, "keys")
def _fkeys(I, a, k):
    return ColsV(a[0].cols)


@method(FrameV, "get")
def _fget(I, a, k):
    return a[0].cols.get(a[1], a[2] if len(a) > 2 else None)


@method(FrameV, "drop")
def _fdrop(I, a, k):
    c = k.get("columns")
    if c is None and k.get("axis") in (1, "columns"):
        c = a[1] if len(a) > 1 else k.get("labels")
    if isinstance(c, str):
        c = [c]
    if isinstance(c, (list, tuple)) and all(isinstance(x, str) for x in c):
        for x in c:
            if x not in a[0].cols:
                I.raise_("KeyError", x)
        return FrameV({n: s for n, s in a[0].cols.items() if n not in c}, a[0].idx)
    return I.top("drop")


@method(FrameV, "pop")
def _fpop(I, a, k):
    if a[1] not in a[0].cols:
        I.raise_("KeyError", repr(a[1]))
    I.mutate(a[0], "pop column")
    return a[0].cols.pop(a[1])


@method(FrameV, "assign")
def _fassign(I, a, k):
    f = mapcols(a[0], copy_series)
    for n, v in k.items():
        if isinstance(v, PyFunc):
            v = I.call(v, [f], {})
        f.cols[n] = as_column(I, v, f.idx, n)
    return f


@method(FrameV, "insert")
def _finsert(I, a, k):
    I.mutate(a[0], "insert column")
    pos, n, v = arg(a, k, 1, "loc"), arg(a, k, 2, "column"), arg(a, k, 3, "value")
    col = as_column(I, v, a[0].idx, n)
    items = list(a[0].cols.items())
    if not isinstance(pos, int):
        I.imprecise("insert")
        pos = len(items)
    items.insert(pos, (n, col))
    a[0].cols = dict(items)
    return None


@method(FrameV, "apply")
def _fapply(I, a, k):
    fn, axis = arg(a, k, 1, "func"), k.get("axis", a[2] if len(a) > 2 else 0)
    if axis not in (0, "index"):
        return _fmean(I, [a[0], 1], {}) if isinstance(fn, Ext) and fn.path in ("numpy.mean", "numpy.nanmean") else I.top("row-wise apply")
    out = {c: I.call(fn, [s], {}) for c, s in a[0].cols.items()}
    if all(isinstance(v, SeriesV) for v in out.values()):
        return FrameV(out, a[0].idx)
    return I.top("apply")


@method(SeriesV, "apply", "map")
def _sapply(I, a, k):
    """Element-wise function: evaluated for one arbitrary element, if it does the same for all of them."""
    s, fn = a[0], arg(a, k, 1, "func", k.get("arg"))
    if isinstance(fn, (dict, SeriesV)) or len(a) > 2 or not isinstance(s.expr, E.Rat) or s.kind not in ("num", "td"):
        return I.top("element-wise function")
    n = len(I.trace.taken)
    r = I.call(fn, [L.TdS(s.expr) if s.kind == "td" else Num(s.expr, s.unit)], {})
    if len(I.trace.taken) != n:
        I.imprecise("element-wise function that differs between elements")
    if isinstance(r, (int, float)) and not isinstance(r, bool):
        r = Num(E.num(r))
    if isinstance(r, L.TdS):
        return SeriesV(r.expr, s.idx, None, s.name, "td", s.arr)
    if isinstance(r, Num) and isinstance(r.expr, E.Rat):
        return SeriesV(r.expr, s.idx, r.unit, s.name, "num", s.arr)
    return I.top("element-wise function")


@method(SeriesV, "items", "iteritems", "tolist", "to_list", "unique", "to_dict")
def _sitems(I, a, k):
    return I.top("elements of series")


@method(SeriesV, "to_numpy")
def _tonumpy(I, a, k):
    c = copy_series(a[0])
    c.arr = True
    return c


@method(SeriesV, "to_frame")
def _toframe(I, a, k):
    n = arg(a, k, 1, "name", a[0].name)
    return FrameV({n: _named(a[0], n)}, a[0].idx)


@method(SeriesV, "where", "mask")
def _where(I, a, k):
    raise Abort("unbound where")


def _mk_where(inv):
    def f(I, a, k):
        s, cond, other = a[0], arg(a, k, 1, "cond"), arg(a, k, 2, "other", MISSING)
        if isinstance(s, FrameV):
            if isinstance(cond, SeriesV) and labels.is_index(cond.idx):
                return I.top("frame where condition on columns")
            if isinstance(cond, SeriesV) or isinstance(cond, FrameV) and set(cond.cols) == set(s.cols):
                cols = {c: f(I, [v, cond if isinstance(cond, SeriesV) else cond.cols[c], other], {}) for c, v in s.cols.items()}
                if all(isinstance(v, SeriesV) for v in cols.values()):
                    return FrameV(cols, s.idx)
            return I.top("frame where")
        if not (isinstance(cond, SeriesV) and cond.kind == "bool"):
            return I.top("where with unknown condition")
        if not cond.arr and not I.ts_same(cond.idx.ts, s.idx.ts):
            I.imprecise("where with other index")
        ev = E.NAN if other is MISSING or other is None else (to_expr(other) if is_numeric(other) else E.UNK)
        if isinstance(other, SeriesV) and not other.arr and not I.ts_same(other.idx.ts, s.idx.ts):
            if not I.ts_subset(s.idx.ts, other.idx.ts):
                I.event("misaligned", what="where", left=repr(s.idx), right=repr(other.idx))
                ev = E.NAN
        uo = unit_of(other) if other is not MISSING else None
        if uo is not None and s.unit is not None and uo.scale != s.unit.scale:
            ev = E.mul(ev, E.num(uo.scale / s.unit.scale))
        e = cond.expr if not inv else b_not(cond.expr) if cond.expr is not E.UNK else E.UNK
        return SeriesV(b_select(e, s.expr, ev), s.idx, s.unit, s.name, s.kind, s.arr)

    return f


for _t in (SeriesV, FrameV):
    L.METHODS[(_t, "where")] = _mk_where(False)
    L.METHODS[(_t, "mask")] = _mk_where(True)


def b_isna(e):
    if isinstance(e, E.Ite):
        return L.b_ite(e.p, b_isna(e.a), b_isna(e.b))
    if e is E.UNK:
        return E.UNK
    return e is E.NAN


@both("isna", "isnull")
def _isna(I, a, k):
    o = a[0]
    if isinstance(o, FrameV):
        return mapcols(o, lambda s: _isna(I, [s], {}))
    return SeriesV(b_isna(o.expr) if o.kind != "bool" else False, o.idx, None, o.name, "bool", o.arr)


@both("notna", "notnull")
def _notna(I, a, k):
    r = _isna(I, a, k)
    if isinstance(r, FrameV):
        return mapcols(r, lambda s: SeriesV(b_not(s.expr), s.idx, None, s.name, "bool"))
    return SeriesV(b_not(r.expr), r.idx, None, r.name, "bool", r.arr)


@both("fillna")
def _fillna(I, a, k):
    o, v = a[0], arg(a, k, 1, "value")
    if isinstance(o, FrameV):
        return mapcols(o, lambda s: _fillna(I, [s, v], {}))
    if not is_numeric(v):
        return I.top("fillna")
    ev = to_expr(v)
    if isinstance(v, SeriesV) and not v.arr and not I.ts_same(v.idx.ts, o.idx.ts):
        m = L.part_mask(I, v.idx.ts, o.idx.ts)
        if m is None:
            I.imprecise("fillna with series with other index")
        ev = E.UNK if m is None else b_select(m, ev, E.NAN)
    if (u := unit_of(v)) is not None and o.unit is not None and u.scale != o.unit.scale:
        ev = E.mul(ev, E.num(u.scale / o.unit.scale))

    def walk(e):
        if isinstance(e, E.Ite):
            return E.ite(e.p, walk(e.a), walk(e.b))
        return ev if e is E.NAN else e

    return SeriesV(walk(o.expr), o.idx, o.unit, o.name, o.kind, o.arr)


@both("replace")
def _replace(I, a, k):
    # only replacement of infinities (not generic) or of a concrete number
    return _copy(I, [a[0]], {}) if isinstance(arg(a, k, 1, "to_replace"), list) else I.top("replace")


@both("dropna")
def _dropna(I, a, k):
    o = a[0]
    if isinstance(o, SeriesV):
        b = b_isna(o.expr)
        if b is False:
            return copy_series(o)
        if b is True:
            return select(I, o, o.idx.copy(ts={"~empty"}))
        if b is not E.UNK:
            m = b_not(b)
            return select(I, o, select_idx(I, o.idx, m), m)
    elif all(b_isna(s.expr) is False for s in o.cols.values() if s.kind != "bool"):
        return _copy(I, [o], {})
    return I.top("dropna")


@method(SeriesV, "any")
def _sany(I, a, k):
    return reduce_mask(I, "any", a[0])


@method(SeriesV, "all")
def _sall(I, a, k):
    return reduce_mask(I, "all", a[0])


def _rowreduce(I, f, op):
    v = op == "and"
    for s in f.cols.values():
        if s.kind != "bool":
            return I.top("reduction over columns")
        v = b_bin(op, v, s.expr)
    return SeriesV(v, f.idx, None, None, "bool")


@method(FrameV, "any", "all")
def _fanyall(I, a, k):
    raise Abort("unbound")


def _mk_anyall(op, name):
    def f(I, a, k):
        ax = arg(a, k, 1, "axis", 0)
        if ax in (1, "columns"):
            return _rowreduce(I, a[0], op)
        if ax is None:
            vals = [reduce_mask(I, name, s) for s in a[0].cols.values()]
            vals = [I.truth(v) for v in vals]
            return any(vals) if name == "any" else all(vals)
        return LabelledV({c: reduce_mask(I, name, s) for c, s in a[0].cols.items()})

    return f


class LabelledV:
    """Series of scalars, labelled by the columns of a frame."""

    def __init__(self, vals):
        self.vals = vals


@attr(LabelledV)
def lab_attr(I, o, name):
    if name == "index":
        return ColsV(o.vals)
    if name == "values":
        return list(o.vals.values())
    return I.top(f"labelled series .{name}")


@method(LabelledV, "any")
def _lany(I, a, k):
    return any(I.truth(v) for v in a[0].vals.values())


@method(LabelledV, "all")
def _lall(I, a, k):
    return all(I.truth(v) for v in a[0].vals.values())


L.METHODS[(FrameV, "any")] = _mk_anyall("or", "any")
L.METHODS[(FrameV, "all")] = _mk_anyall("and", "all")


@method(SeriesV, "sum")
def _ssum(I, a, k):
    if (t := labels.total(I, a[0])) is not None:
        return t
    if a[0].kind == "bool":
        return I.top("sum of mask")
    return series_sum(I, a[0])


@method(FrameV, "sum")
def _fsum(I, a, k):
    ax = arg(a, k, 1, "axis", 0)
    f = a[0]
    if ax in (1, "columns"):
        acc = 0
        for s in f.cols.values():
            acc = binop(I, "Add", acc, s)
        if isinstance(acc, SeriesV):
            acc = copy_series(acc)
            acc.name = None
        return acc
    return LabelledV({c: series_sum(I, s) for c, s in f.cols.items()})


def s_mean(I, s):
    if (m := labels.mean(I, s)) is not None:
        return m
    if s.kind == "bool":
        return I.top("mean of mask")
    ts = tsname(I, s.idx)
    e = E.linear_op(s.expr, lambda key: E.ONE if key == "1" else E.atom(f"MEAN({key} over {ts})"))
    return Num(e, s.unit)


@method(SeriesV, "mean")
def _smean(I, a, k):
    return s_mean(I, a[0])


@method(FrameV, "mean")
def _fmean(I, a, k):
    ax = arg(a, k, 1, "axis", 0)
    if ax in (1, "columns"):
        s = _fsum(I, [a[0], 1], {})
        return num_op(I, "Div", s, len(a[0].cols)) if isinstance(s, SeriesV) else I.top("mean")
    return LabelledV({c: s_mean(I, s) for c, s in a[0].cols.items()})


@method(FrameV, "transpose")
def _ftranspose(I, a, k):
    t = labels.transpose(I, a[0])
    return t if t is not None else I.top("transpose")


@method(FrameV, "nunique")
def _fnunique(I, a, k):
    return I.top("pandas method")


@method(SeriesV, "nunique")
def _nunique(I, a, k):
    n = labels.distinct(I, a[0])
    return n if n is not None else I.top("number of distinct values")


@both("max", "min", "median", "std", "var", "prod", "first", "last", "count", "quantile", "cumsum", "shift", "diff", "rolling", "rank", "ffill", "bfill", "interpolate", "sort_values", "head", "tail", "describe", "idxmax", "idxmin", "clip", "corr", "product", "groupby", "resample", "stack", "unstack", "explode", "melt", "pivot", "transform", "agg", "aggregate", "to_clipboard", "to_excel", "to_csv", "plot", "droplevel", "reset_index", "set_index", "xs", "truncate", "combine_first", "update", "merge", "join", "to_string", "compare", "asfreq", "transpose", "isin", "between", "duplicated", "drop_duplicates", "cumprod", "pct_change", "at_time", "between_time", "to_period", "nlargest", "nsmallest", "filter", "select_dtypes", "query", "eval", "sample", "infer_objects", "convert_dtypes")
def _opaque(I, a, k):
    return I.top("pandas method")


@both("swaplevel")
def _swaplevel(I, a, k):
    i, j, ax = arg(a, k, 1, "i", -2), arg(a, k, 2, "j", -1), arg(a, k, 3, "axis", 0)
    if not isinstance(a[0], FrameV) or ax not in (1, "columns") or not (isinstance(i, int) and isinstance(j, int)):
        return I.top("swaplevel")
    cols = {}
    for c, s in a[0].cols.items():
        if not isinstance(c, tuple) or not (-len(c) <= i < len(c) and -len(c) <= j < len(c)):
            return I.top("swaplevel")
        n = list(c)
        n[i], n[j] = n[j], n[i]
        cols[tuple(n)] = s
    if len(cols) != len(a[0].cols):
        return I.top("swaplevel")
    return FrameV({c: SeriesV(s.expr, s.idx, s.unit, c, s.kind) for c, s in cols.items()}, a[0].idx)


@both("squeeze")
def _squeeze(I, a, k):
    return I.top("squeeze")


@both("round")
def _sround(I, a, k):
    if isinstance(a[0], SeriesV):
        return SeriesV(E.UNK, a[0].idx, a[0].unit, a[0].name, a[0].kind, a[0].arr)
    return I.top("round")


@both("abs")
def _sabs(I, a, k):
    if isinstance(a[0], SeriesV):
        return SeriesV(E.atom(f"|{E.key(a[0].expr)}|") if isinstance(a[0].expr, E.Rat) else E.UNK, a[0].idx, a[0].unit, a[0].name, a[0].kind, a[0].arr)
    return I.top("abs")


@both("equals")
def _equals(I, a, k):
    x, y = a[0], a[1]
    if isinstance(x, SeriesV) and isinstance(y, SeriesV) and E.same(x.expr, y.expr) and I.ts_same(x.idx.ts, y.idx.ts):
        return True
    return I.top("equals")


@both("sort_index")
def _sortindex(I, a, k):
    if isinstance(a[0], FrameV) and arg(a, k, 1, "axis", 0) in (1, "columns"):
        try:
            names = sorted(a[0].cols)
        except TypeError:
            return I.top("sort of mixed names")
        return FrameV({c: copy_series(a[0].cols[c]) for c in names}, a[0].idx)
    return _copy(I, [a[0]], {})


@both("tz_localize", "tz_convert")
def _sertz(I, a, k):
    raise Abort("unbound")


def _mk_tz(conv):
    def f(I, a, k):
        tz = arg(a, k, 1, "tz")
        i = a[0] if isinstance(a[0], Idx) else a[0].idx
        j = idx_tz(I, i, tz, conv)
        return j if isinstance(a[0], Idx) else with_index(a[0], j)

    return f


def idx_tz(I, i, tz, conv):
    if conv and i.tz is None:
        I.raise_("TypeError", "Cannot convert tz-naive timestamps")
    if not conv and i.tz is not None and tz is not None:
        I.raise_("TypeError", "Already tz-aware")
    if I.truth(L.compare(I, "Eq", i.tz, tz)) if not (i.tz is None or tz is None) else i.tz is tz:
        return i.copy()
    nm = "&".join(sorted(I.ts_norm(i.ts)))
    return i.copy(ts={f"{'conv' if conv else 'wall'}:{tz!r}:{nm}"}, tz=tz, freq=None)


for _t in (SeriesV, FrameV, Idx):
    L.METHODS[(_t, "tz_localize")] = _mk_tz(False)
    L.METHODS[(_t, "tz_convert")] = _mk_tz(True)


def _arith(op, rev=False):
    def f(I, a, k):
        o, other = a[0], arg(a, k, 1, "other")
        axis = k.get("axis", a[2] if len(a) > 2 else ("columns" if isinstance(o, FrameV) else 0))
        fill = k.get("fill_value")
        if isinstance(o, FrameV) and isinstance(other, SeriesV) and axis in (0, "index", "rows"):
            cols = {}
            for c, s in o.cols.items():
                cols[c] = num_op(I, op, other, s) if rev else num_op(I, op, s, other)
                cols[c].name = c
            return FrameV(cols, o.idx)
        if fill is not None:
            if isinstance(other, (SeriesV, FrameV)) and I.ts_same(o.idx.ts, other.idx.ts):
                pass
            else:
                return I.top("arithmetic with fill_value")
        return binop(I, op, other, o) if rev else binop(I, op, o, other)

    return f


for _n, _o in {"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div", "divide": "Div", "truediv": "Div", "pow": "Pow"}.items():
    for _t in (SeriesV, FrameV):
        L.METHODS[(_t, _n)] = _arith(_o)
        L.METHODS[(_t, "r" + _n)] = _arith(_o, True)

for _n, _o in {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}.items():
    L.METHODS[(SeriesV, _n)] = lambda I, a, k, _o=_o: L.compare(I, _o, a[0], a[1])


# ---------------------------------------------------------------- index

@attr(Idx)
def idx_attr(I, i, name):
    if name == "freq":
        return i.freq
    if name in ("tz", "tzinfo"):
        return i.tz
    if name == "name":
        return i.name
    if name in ("names",):
        return [i.name]
    if name == "nlevels":
        return 1
    if name in ("year", "month", "day", "hour", "minute", "second", "time", "date", "weekday", "dayofweek", "quarter", "is_month_start", "is_quarter_start", "is_year_start", "dayofyear", "day_of_week", "day_of_year"):
        if name.startswith("is_"):
            return SeriesV(("p", f"{name}({tsname(I, i)})"), i, None, None, "bool", True)
        return IdxArr(i, name)
    if name == "empty":
        return I.ts_empty(i.ts)
    if name in ("values", "array"):
        return IdxArr(i, "values")
    if name == "size":
        return LenV(i.ts)
    if name == "dtype":
        return DtypeV("datetime")
    if name == "freqstr":
        if i.freq is None:
            return None
        f = i.freq
        return f.str if isinstance(f, Offset) else StrV(f"freqstr({f})")
    if name == "inferred_freq":
        return I.top("inferred_freq")
    if name in ("is_monotonic_increasing", "is_unique"):
        return True
    r = L.pandas_ext_attr(I, i, "pandas.DatetimeIndex", name)
    if r is not MISSING:
        return r
    if name == "__class__":
        return L.typeof(I, i)
    if name in NAMES["DatetimeIndex"] or name.startswith("__"):
        return I.top(f"DatetimeIndex.{name}")
    return MISSING


@method(Idx, "rename", "set_names")
def _irename(I, a, k):
    return a[0].copy(name=arg(a, k, 1, "name"))


@method(Idx, "copy", "sort_values", "unique", "drop_duplicates", "view")
def _icopy(I, a, k):
    return a[0].copy()


@method(Idx, "min")
def _imin(I, a, k):
    return None if I.ts_empty(a[0].ts) else StampV("min", a[0])


@method(Idx, "max")
def _imax(I, a, k):
    return None if I.ts_empty(a[0].ts) else StampV("max", a[0])


@method(Idx, "normalize")
def _inorm(I, a, k):
    i = a[0]
    if i.sod == TokV("sod", "00:00:00"):
        return i.copy()
    return i.copy(ts={f"norm:{tsname(I, i)}"}, sod=TokV("sod", "00:00:00"))


@method(Idx, "intersection")
def _iinter(I, a, k):
    i, j = a[0], a[1]
    if not isinstance(j, Idx):
        return I.top("intersection")
    # pandas intersection is unreliable for tz-aware indices
    return i.copy(ts=I.ts_inter(i.ts, j.ts))


@method(Idx, "union", "append", "difference", "symmetric_difference", "shift", "get_loc", "get_indexer", "to_period", "isin", "map", "slice_indexer", "to_series", "snap", "to_list", "tolist", "to_pydatetime", "delete", "insert", "where", "searchsorted", "groupby", "indexer_at_time", "to_frame", "take", "repeat", "argsort", "get_level_values", "droplevel", "strftime", "day_name", "month_name")
def _iopaque(I, a, k):
    return I.top("index method")


def _mk_snap(n):
    def f(I, a, k):
        i, fr = a[0], arg(a, k, 1, "freq")
        fr = getattr(fr, "str", fr)
        if not isinstance(fr, str) or n == "round" or i.stat is not None or set(k) - {"freq"}:
            return I.top(f"index {n}")
        return i.copy(ts={f"{n}({fr}; {tsname(I, i)})"}, stat=(f"{n} {fr} of ", i), freq=None)

    return f


for _n in ("floor", "ceil", "round"):
    L.METHODS[(Idx, _n)] = _mk_snap(_n)


@method(Idx, "equals", "identical")
def _iequals(I, a, k):
    i, j = a[0], a[1]
    if isinstance(j, Idx):
        if i is j:
            return True
        if I.ts_same(i.ts, j.ts):
            return True
        return BoolV(("idxeq", tuple(sorted([tsname(I, i), tsname(I, j)]))))
    return I.top("index equals")


@attr(IdxArr)
def idxarr_attr(I, o, name):
    if name == "shape":
        return (LenV(o.idx.ts),)
    return I.top(f"index array .{name}")


@method(IdxArr, "isin")
def _iaisin(I, a, k):
    return SeriesV(("p", f"{a[0].what} in {a[1]!r}"), a[0].idx, None, None, "bool", True)


@attr(TSet)
def tset_attr(I, o, name):
    return I.top(f"timestamps .{name}")


# ---------------------------------------------------------------- timestamps

def coordinate(I, s):
    """Position on the time axis, if the rule has specified the order of the (equally long, named) sets of timestamps."""
    if not I.timeline or s.idx is None or len(s.idx.ts) != 1:
        return None
    names = next(iter(s.idx.ts)).split("+")
    if any(n not in I.timeline for n in names) or s.which not in ("min", "max", "end"):
        return None
    return {"min": I.timeline[names[0]], "max": I.timeline[names[-1]] + 0.9, "end": I.timeline[names[-1]] + 1}[s.which]


@attr(StampV)
def stamp_attr(I, s, name):
    if name in ("tz", "tzinfo"):
        return s.tz
    if name in ("year", "month", "day", "hour", "minute", "second"):
        if s.which in ("min", "max", "end") and name in ("minute", "second", "hour") and s.idx is not None and isinstance(s.idx.sod, TokV) and s.idx.sod.name.count(":") == 2 and s.idx.freq is None:
            return int(s.idx.sod.name.split(":")[{"hour": 0, "minute": 1, "second": 2}[name]])
        if I.timeline and s.which in ("min", "max", "end"):
            n = Num(E.atom(f"{name}({s.which} of {tsname(I, s.idx)})"), None, True)
            n.stamp = (name, s)
            return n
        return I.top(f"Timestamp.{name}")
    if I.timeline and s.which in ("min", "max", "end") and name in ("dayofyear", "day_of_year", "quarter", "week", "weekofyear", "dayofweek", "day_of_week", "days_in_month"):
        return Num(E.atom(f"{name}({s.which} of {tsname(I, s.idx)})"))
    if name == "value" and coordinate(I, s) is not None:
        return s
    if name in NAMES["Timestamp"] or name.startswith("_"):
        r = L.pandas_ext_attr(I, s, "pandas.Timestamp", name)
        if r is not MISSING:
            return r
        return I.top(f"Timestamp.{name}")
    r = L.pandas_ext_attr(I, s, "pandas.Timestamp", name)
    return r


@method(StampV, "time")
def _stime(I, a, k):
    s = a[0]
    if s.which in ("min", "end") and s.idx is not None:
        return s.idx.sod
    if s.which == "max" and s.idx is not None and isinstance(s.idx.freq, Offset) and s.idx.freq.cls in ("Day", "MonthBegin", "QuarterBegin", "YearBegin"):
        return s.idx.sod
    if s.which == "max" and s.idx is not None and isinstance(s.idx.freq, (Offset, FreqV)):
        return TokV("sod", f"last({s.idx.sod})")
    return I.top("Timestamp.time")


def _stamp_rounding(how):
    def fn(I, a, k):
        s, freq = a[0], (a[1:] or [k.get("freq")])[0]
        if len(a) > 2 or set(k) - {"freq"} or not isinstance(freq, (str, Offset, FreqV)):
            return I.top("timestamp method")
        return StampV(f"{how}[{freq if isinstance(freq, str) else freq!r}] of {L.stamp_key(s)}", s.idx if s.which not in ("min", "max", "end") else None, s.tz)

    return fn


for _how in ("floor", "ceil", "round"):
    method(StampV, _how)(_stamp_rounding(_how))


@method(StampV, "normalize")
def _snormalize(I, a, k):
    s = a[0]
    return StampV(f"floor['D'] of {L.stamp_key(s)}", None, s.tz)


@method(StampV, "date", "tz_localize", "tz_convert", "isoformat", "strftime", "timestamp", "total_seconds", "to_pydatetime", "weekday", "to_period")
def _sopaque(I, a, k):
    return I.top("timestamp method")


# ---------------------------------------------------------------- frequencies, units, numbers

@attr(Offset)
def off_attr(I, o, name):
    if name in ("freqstr",):
        return o.str
    if name == "rule_code":
        return Offset(o.cls, 1, o.month).str
    if name == "n":
        return o.n
    if name == "name":
        return Offset(o.cls, 1, o.month).str
    if name == "month" or name == "startingMonth":
        if o.month is None:
            return MISSING
        return o.month
    if name == "_prefix":
        return Offset(o.cls).str
    if name == "__class__":
        return L.typeof(I, o)
    if name == "nanos":
        ns = {"Hour": 3600 * 10**9, "Minute": 60 * 10**9, "Day": 86400 * 10**9, "Second": 10**9}.get(o.cls)
        if ns is None:
            I.raise_("ValueError", f"{o.str} is a non-fixed frequency")
        return ns * o.n
    if name in NAMES["offset"] or name.startswith("_"):
        return I.top(f"offset.{name}")
    return MISSING


@attr(FreqV)
def freqv_attr(I, f, name):
    if name in ("__class__",):
        return L.typeof(I, f)
    if name == "freqstr" or name == "rule_code" or name == "name":
        cs = {off_attr(I, o, name) for o in I.freq_candidates(f)}
        return cs.pop() if len(cs) == 1 else StrV(f"{name}({f})")
    if name in ("n", "month", "startingMonth", "_prefix", "nanos"):
        def g(o):
            r = None
            try:
                r = off_attr(I, o, name)
            except Exception as e:  # AbsRaise
                return ("raise", e)
            return ("v", r)

        r = I.freq_split(f, lambda o: repr(o.month) if name in ("month", "startingMonth") else (o.cls, o.n), name)
        return off_attr(I, I.freq_candidates(f)[0], name)
    if name in NAMES["offset"] or name.startswith("_"):
        return I.top(f"offset.{name}")
    return MISSING


@attr(UnitV)
def unit_attr(I, u, name):
    if name == "dimensionality":
        return DimV(u.dims)
    if name == "dimensionless":
        return not u.dims
    if name in NAMES["Unit"]:
        return I.top(f"Unit.{name}")
    return MISSING


@attr(DimV)
def dim_attr(I, u, name):
    return I.top("dimensionality attribute")


@attr(DtypeV)
def dtype_attr(I, d, name):
    if name in ("units",) and d.kind == "pint":
        return d.unit
    if name == "name":
        return {"float": "float64", "int": "int64"}.get(d.kind, d.kind) if d.kind != "pint" else f"pint[{d.unit!r}]"
    if name == "kind":
        return {"float": "f", "int": "i", "bool": "b"}.get(d.kind, "O")
    return I.top(f"dtype.{name}")


@attr(Num)
def num_attr(I, n, name):
    if n.unit is None:
        if name in ("real",):
            return n
        if name == "__class__":
            return L.typeof(I, n)
        return MISSING
    if name in ("m", "magnitude"):
        return Num(n.expr, None)
    if name in ("u", "units"):
        return n.unit
    if name == "dimensionality":
        return DimV(n.unit.dims)
    if name in ("dimensionless", "unitless"):
        return not n.unit.dims
    if name == "__class__":
        return L.typeof(I, n)
    if name in NAMES["Quantity"]:
        return I.top(f"Quantity.{name}")
    return MISSING


@method(Num, "to_base_units", "to_root_units", "to_reduced_units")
def _qbase(I, a, k):
    n = a[0]
    if n.unit is None:
        I.raise_("AttributeError", "float has no attribute to_base_units")
    u = base(n.unit)
    return Num(rescale(n, u), u)


@method(Num, "to", "m_as")
def _qto(I, a, k):
    return to_unit(I, a[0], a[1])


def _ast(I, a, k):
    n = to_unit(I, a[0], a[1])
    return Num(n.expr, None) if isinstance(n, Num) else n


L.METHODS[(Num, "m_as")] = _ast


@attr(TokV)
def tok_attr(I, t, name):
    if t.kind == "sod" and name in ("hour", "minute", "second") and t.name.count(":") == 2 and t.name[0].isdigit():
        return int(t.name.split(":")[{"hour": 0, "minute": 1, "second": 2}[name]])
    if t.kind == "sod" and name in ("hour", "minute"):
        return TokV(name, t.name)
    if t.kind == "sod" and name in ("second", "microsecond"):
        return 0
    if t.kind == "tz" and name in ("zone", "key"):
        return StrV(f"tz {t.name}")
    if t.kind == "selector" and name in ("start", "stop", "step"):
        return I.top("selector")
    return I.top(f"{t.kind}.{name}")


@method(TokV, "time", "total_seconds", "date", "strftime", "isoformat")
def _tokopaque(I, a, k):
    return I.top("opaque method")


@method(TokV, "isoformat", "__str__")
def _tokiso(I, a, k):
    if a[0].kind == "sod" and not a[1:] and not k:
        return a[0].name if a[0].name[0].isdigit() else StrV(str(a[0]), of=a[0])
    return I.top("opaque method")


@attr(LenV)
def len_attr(I, t, name):
    return MISSING


@attr(StrV)
def str_attr(I, t, name):
    return I.top(f"string.{name}")


# ---------------------------------------------------------------- constructors

def quantity(I, a, k):
    v, u = arg(a, k, 0, "value"), arg(a, k, 1, "units")
    if isinstance(v, str) and u is None:
        I.imprecise("quantity from string")
        return Num(E.UNK, NODIM)
    if u is None:
        if isinstance(v, Num) and v.unit is not None:
            return v
        if is_numeric(v) and not isinstance(v, SeriesV):
            return Num(to_expr(v), NODIM)
        return I.top("quantity")
    u = as_unit(I, u)
    if not isinstance(u, UnitV):
        return I.top("quantity")
    if isinstance(v, Num) and v.unit is not None:
        return to_unit(I, v, u)
    if isinstance(v, SeriesV):
        return I.top("quantity of series")
    if is_numeric(v):
        return Num(to_expr(v), u)
    if v is None:
        I.raise_("TypeError", "quantity of None")
    return I.top("quantity")


for _p in ("ureg.Quantity", "pint.Quantity", "pint.UnitRegistry.Quantity"):
    ext(_p)(quantity)


@ext("ureg.Unit", "pint.Unit")
def _unit(I, a, k):
    return as_unit(I, a[0])


@ext("pint.UnitRegistry")
def _ureg(I, a, k):
    I.event("unit-registry", kwargs={n: v for n, v in k.items() if L.is_const(v)})
    return Ext("ureg")


@ext("ureg.setup_matplotlib", "ureg.define", "pint.set_application_registry")
def _none(I, a, k):
    return None


@ext("pandas.Series")
def _series(I, a, k):
    data, index, dtype, name = arg(a, k, 0, "data"), arg(a, k, 1, "index"), arg(a, k, 2, "dtype"), arg(a, k, 3, "name")
    if isinstance(data, SeriesV):
        s = copy_series(data)
        s.arr = False
        if isinstance(index, Idx):
            if data.arr:
                s.idx = index
            elif not I.ts_same(index.ts, data.idx.ts):
                if I.ts_subset(index.ts, data.idx.ts):
                    s.idx = index
                else:
                    s = SeriesV(L.inside(I, data.idx, s.expr), index, s.unit, s.name, s.kind)
            else:
                s.idx = index
        elif index is not None:
            return I.top("Series with other index")
        elif data.arr:
            s.idx = Idx({f"(range {tsname(I, data.idx)})"}, None, None, None)
    elif isinstance(data, dict) and index is None and data and all(is_numeric(v) and not isinstance(v, SeriesV) for v in data.values()):
        return labels.make(I, data) if getattr(I, "labelled", False) else LabelledV(data)
    elif (names := labels.names(I, index)) is not None and isinstance(data, (list, tuple)) or type(data).__name__ == "IterV" and names is not None:
        data = I.iterate(data)
        if len(data) != len(names):
            I.raise_("ValueError", "Length of values does not match length of index")
        if not all(is_numeric(v) and not isinstance(v, SeriesV) for v in data):
            return I.top("Series with labels")
        s = labels.make(I, dict(zip(names, data)))
        if not isinstance(s, SeriesV):
            return s
    elif isinstance(index, Idx):
        if isinstance(data, bool):
            s = SeriesV(data, index, None, None, "bool")
        elif is_numeric(data):
            s = SeriesV(to_expr(data), index, unit_of(data), None, "int" if isinstance(data, int) and dtype is None else "num")
            if isinstance(data, int):
                s.kind = "num"
        elif data is None:
            s = SeriesV(E.NAN, index, None, None, "obj")
        elif isinstance(data, IdxArr):
            s = SeriesV(E.atom(f"<{data.what}>"), index)
        elif isinstance(data, (list, tuple)) and not data and I.ts_norm(index.ts) == frozenset(["~empty"]):
            s = SeriesV(E.NAN, index, None, None, "num" if dtype is not None else "obj")
        elif isinstance(data, Top):
            s = SeriesV(E.UNK, index, None, None, "num")
            I.imprecise(f"series from unknown data")
        else:
            return I.top(f"Series of {type(data).__name__}")
    else:
        return I.top("Series without known index")
    if name is not None:
        s.name = name
    elif "name" in k:
        s.name = None
    if dtype is not None:
        r = _astype(I, [s, dtype], {})
        if isinstance(r, SeriesV):
            r.name = s.name
        return r
    return s


def mkframe(I, series, index=None):
    """Frame from dictionary of series; aligns on index (union of the indices)."""
    cols, idx = {}, index
    if idx is None:
        for s in series.values():
            if isinstance(s, (SeriesV,)) and not s.arr:
                if idx is None:
                    idx = s.idx
                elif not I.ts_same(idx.ts, s.idx.ts):
                    idx, _ = merge_idx(I, idx, s.idx, "columns of a dataframe")
    if idx is None:
        return None
    for c, s in series.items():
        if isinstance(s, SeriesV) and not s.arr and not I.ts_same(s.idx.ts, idx.ts):
            if I.ts_subset(idx.ts, s.idx.ts):
                cols[c] = SeriesV(s.expr, idx, s.unit, c, s.kind)
            else:
                cols[c] = SeriesV(L.inside(I, s.idx, s.expr), idx, s.unit, c, s.kind)
        elif isinstance(s, SeriesV):
            cols[c] = SeriesV(s.expr, idx, s.unit, c, s.kind)
        else:
            cols[c] = as_column(I, s, idx, c)
    return FrameV(cols, idx)


@ext("pandas.DataFrame")
def _dataframe(I, a, k):
    data, index, columns = arg(a, k, 0, "data"), arg(a, k, 1, "index"), arg(a, k, 2, "columns")
    if isinstance(data, FrameV) and index is None:
        f = mapcols(data, copy_series)
        if columns is not None:
            return getitem(I, f, columns if isinstance(columns, (list, ColsV)) else I.iterate(columns))
        return f
    if isinstance(data, SeriesV) and not data.arr and index is None:
        n = I.iterate(columns)[0] if columns is not None else (data.name if data.name is not None else 0)
        return FrameV({n: _named(data, n)}, data.idx)
    if data is None and isinstance(index, Idx):
        return FrameV({c: SeriesV(E.NAN, index, None, c, "obj") for c in (I.iterate(columns) if columns is not None else [])}, index)
    if isinstance(data, dict):
        if any(isinstance(v, (Top,)) for v in data.values()):
            return I.top("frame from unknown columns")
        if any(isinstance(v, (FrameV, LabelledV)) for v in data.values()):
            return I.top("frame from frames")
        own = next((v for v in data.values() if hasattr(v, "sa_dataframe")), None)
        if own is not None:
            return own.sa_dataframe(I, data) if index is None and columns is None else I.top("frame from own values")
        if columns is not None:
            cs = I.iterate(columns)
            data = {c: data[c] for c in cs if c in data}
        idx = index if isinstance(index, Idx) else None
        if index is not None and idx is None:
            return I.top("frame with unknown index")
        if not data and idx is None:
            return FrameV({}, Idx({"~empty"}, None, None, None))
        f = mkframe(I, data, idx)
        if f is not None:
            return f
    return I.top("DataFrame")


@ext("pandas.concat")
def _concat(I, a, k):
    objs, axis = arg(a, k, 0, "objs"), arg(a, k, 1, "axis", 0)
    keys = k.get("keys")
    if isinstance(objs, dict):
        keys = list(objs) if keys is None else keys
        objs = list(objs.values())
    objs = [o for o in I.iterate(objs) if o is not None]
    if not objs:
        I.raise_("ValueError", "No objects to concatenate")
    if not all(isinstance(o, (SeriesV, FrameV)) for o in objs):
        return I.top("concat")
    if axis in (1, "columns"):
        cols = {}
        for n, o in enumerate(objs):
            if isinstance(o, SeriesV):
                nm = keys[n] if isinstance(keys, list) else (o.name if o.name is not None else n)
                new = {nm: o}
            else:
                new = o.cols
                if isinstance(keys, list):
                    kk = keys[n] if isinstance(keys[n], tuple) else (keys[n],)
                    new = {(*kk, *(c if isinstance(c, tuple) else (c,))): s for c, s in new.items()}
            for c, s in new.items():
                if c in cols:
                    return I.top("concat with duplicate columns")
                cols[c] = s
        f = mkframe(I, cols)
        return f if f is not None else I.top("concat")
    if keys is not None or k.get("ignore_index"):
        return I.top("concat with keys")
    nothing = [o for o in objs if I.ts_norm(o.idx.ts) == EMPTY]
    if len(objs) == 1:
        return _copy(I, [objs[0]], {})
    if nothing and len(nothing) < len(objs) and all(isinstance(o, SeriesV) for o in objs):
        objs = [o for o in objs if I.ts_norm(o.idx.ts) != EMPTY]  # units: a float series without rows does matter
        if len(objs) == 1 and objs[0].kind == "num":
            r = copy_series(objs[0])
            r.idx = r.idx.copy(freq=None)
            if {o.unit for o in nothing} - {r.unit}:  # no longer one unit
                if r.expr is not E.NAN:
                    I.imprecise("concat of series with distinct units")
                r.unit = None
            return r
    first = objs[0].idx
    if (cut := L.partition(I, [o.idx.ts for o in objs])) and all(isinstance(o, SeriesV) for o in objs):
        full, masks = cut
        e = objs[-1].expr
        for m, o in list(zip(masks, objs))[-2::-1]:
            e = b_select(m, o.expr, e)
        if len({o.unit for o in objs}) > 1 and e is not E.NAN:
            I.imprecise("concat of series with distinct units")
        return SeriesV(e, first.copy(ts=full, freq=None, stat="unordered"), objs[0].unit, objs[0].name if all(o.name == objs[0].name for o in objs) else None, objs[0].kind)
    if any(o.idx.tz != first.tz for o in objs):
        return I.top("concat of distinct timezones")
    gen = "cat(" + ", ".join(tsname(I, o.idx) for o in objs) + ")"
    same = all(o.idx.freq is first.freq or o.idx.freq == first.freq for o in objs)
    freq = None
    objs = list(objs)
    when = [coordinate(I, StampV("min", o.idx)) for o in objs]
    if all(w is not None for w in when):
        # it is known which one is first
        if same and all(o.idx.sod == first.sod for o in objs) and all(b - a == 1 for a, b in zip(when, when[1:])):
            gen, freq = "+".join(tsname(I, o.idx) for o in objs), first.freq
        objs = [o for _, o in sorted(zip(when, objs), key=lambda x: x[0])]
    idx = Idx({gen}, freq, first.tz, first.sod, first.name if all(o.idx.name == first.name for o in objs) else None)

    def cat(ss):
        if all(E.same(s.expr, ss[0].expr) for s in ss):
            e = ss[0].expr
        else:
            e = ss[-1].expr
            for s in reversed(ss[:-1]):
                e = L.inside(I, s.idx, s.expr, e)
        return e

    if all(isinstance(o, SeriesV) for o in objs):
        if len({o.unit for o in objs}) > 1:
            I.imprecise("concat of series with distinct units")
        return SeriesV(cat(objs), idx, objs[0].unit, objs[0].name if all(o.name == objs[0].name for o in objs) else None, objs[0].kind)
    if all(isinstance(o, FrameV) for o in objs):
        names = list(dict.fromkeys(c for o in objs for c in o.cols))
        cols = {}
        for c in names:
            ss = [o.cols.get(c) or SeriesV(E.NAN, o.idx, None, c) for o in objs]
            cols[c] = SeriesV(cat(ss), idx, next((s.unit for s in ss if s.unit is not None), None), c, ss[0].kind)
        return FrameV(cols, idx)
    return I.top("concat of series and frames")


@ext("pandas.DatetimeIndex", "pandas.to_datetime")
def _dti(I, a, k):
    data = arg(a, k, 0, "data")
    freq, tz, name = k.get("freq", MISSING), k.get("tz", MISSING), k.get("name", MISSING)
    if isinstance(freq, str):
        freq = parse_freq(freq)
    if isinstance(data, (list, tuple)) and not data:
        return Idx({"~empty"}, None if freq is MISSING else freq, None if tz is MISSING else tz, TokV("sod", "none"), None if name is MISSING else name)
    if isinstance(data, (TSet, Idx)):
        i = data.idx if isinstance(data, TSet) else data
        if isinstance(data, TSet) and data.kind == "set":
            I.event("set-iteration", n=2)
        r = i.copy()
        if isinstance(data, TSet):
            r.freq, r.name = None, None
        if freq is not MISSING:
            if freq is not None and r.freq is not None and not I.truth(L.freq_eq(I, freq, r.freq)):
                I.raise_("ValueError", "freq does not conform")
            r.freq = freq
        if name is not MISSING:
            r.name = name
        if tz is not MISSING and not (tz is None):
            if r.tz is not None and not I.truth(L.compare(I, "Eq", r.tz, tz)):
                return I.top("DatetimeIndex with other timezone")
            r.tz = tz
        return r
    if isinstance(data, StampV):
        return data
    return I.top("DatetimeIndex")


@ext("pandas.date_range")
def _date_range(I, a, k):
    start, end, freq = arg(a, k, 0, "start"), arg(a, k, 1, "end"), k.get("freq", a[3] if len(a) > 3 else None)
    tz, name, incl = k.get("tz", MISSING), k.get("name"), k.get("inclusive", "both")
    if isinstance(freq, str):
        freq = parse_freq(freq)
    if isinstance(start, StampV) and isinstance(end, StampV) and start.which == "min" and start.idx is not None and end.idx is not None and I.ts_same(start.idx.ts, end.idx.ts):
        i = start.idx
        same_freq = i.freq is None or freq is i.freq or I.truth(L.freq_eq(I, freq, i.freq))
        ok = (end.which == "end" and incl == "left") or (end.which == "max" and incl == "both")
        if ok and same_freq and (tz is MISSING or tz is i.tz or I.truth(L.compare(I, "Eq", tz, i.tz))):
            return i.copy(freq=freq, name=name)
        if same_freq and (tz is MISSING or tz is i.tz):
            what = {("end", "both"): "with-end", ("max", "left"): "without-last", ("max", "right"): "without-first", ("end", "right"): "without-first-with-end"}.get((end.which, incl), f"{end.which}-{incl}")
            return i.copy(ts={f"({what} {tsname(I, i)})"}, freq=freq, name=name)
    return I.top("date_range")


@ext("pandas.Index")
def _index(I, a, k):
    d = a[0] if a else k.get("data")
    if isinstance(d, Repeated):
        return SeriesV(d.v, Idx(d.ts, None, None, None), None, None, "bool", True)
    if isinstance(d, (list, tuple, ColsV)):
        return ColsV(d.names if isinstance(d, ColsV) else d)
    if isinstance(d, Idx):
        return d
    return I.top("Index")


class Repeated:
    """[v] * number of timestamps."""

    def __init__(self, v, ts):
        self.v, self.ts = v, ts


_old_binop = L.binop


def _binop(I, op, a, b):
    if op == "Mult" and isinstance(a, list) and len(a) == 1 and isinstance(b, LenV):
        return Repeated(a[0], b.ts)
    return _old_binop(I, op, a, b)


L.binop = _binop
binop = _binop  # noqa: F811


@ext("pandas.MultiIndex.from_product", "pandas.MultiIndex.from_tuples", "pandas.MultiIndex.from_arrays")
def _mi(I, a, k):
    return I.top("MultiIndex")


@ext("pandas.to_offset")
def _to_offset(I, a, k):
    v = a[0]
    if isinstance(v, (Offset, FreqV)) or v is None:
        return v
    if isinstance(v, str):
        o = parse_freq(v)
        if o is None:
            I.raise_("ValueError", f"Invalid frequency: {v}")
        return o
    if isinstance(v, Instance):
        I.raise_("TypeError", "to_offset of object")
    return I.top("to_offset")


def _mk_offset(cls):
    def f(I, a, k):
        n = arg(a, k, 0, "n", 1)
        if cls == "QuarterBegin":
            # pandas default starting month is 3
            month = k.get("startingMonth", 3)
        elif cls == "YearBegin":
            month = k.get("month", 1)
        else:
            month = None
        if isinstance(n, int) and (month is None or isinstance(month, int)):
            return Offset(cls, n, month)
        return I.top("offset")

    return f


for _c in ("QuarterBegin", "YearBegin", "MonthBegin", "Day", "Hour", "Minute", "Week", "Second", "MonthEnd", "QuarterEnd", "YearEnd"):
    ext(f"pandas.tseries.offsets.{_c}")(_mk_offset(_c))


@ext("pandas.api.types.is_integer_dtype")
def _isint(I, a, k):
    v = a[0]
    d = v if isinstance(v, DtypeV) else dtype_of(v) if isinstance(v, SeriesV) else None
    return d.kind == "int" if d is not None else I.top("is_integer_dtype")


@ext("pandas.api.types.is_float_dtype")
def _isfloat(I, a, k):
    v = a[0]
    d = v if isinstance(v, DtypeV) else dtype_of(v) if isinstance(v, SeriesV) else None
    return d.kind == "float" if d is not None else I.top("is_float_dtype")


@ext("pandas.api.types.is_object_dtype")
def _isobj(I, a, k):
    v = a[0]
    d = v if isinstance(v, DtypeV) else dtype_of(v) if isinstance(v, SeriesV) else None
    return d.kind == "object" if d is not None else I.top("is_object_dtype")


@ext("pandas.api.types.is_numeric_dtype")
def _isnum(I, a, k):
    return I.top("is_numeric_dtype")


@ext("pandas.isna", "pandas.isnull", "numpy.isnan")
def _pisna(I, a, k):
    v = a[0]
    if isinstance(v, (SeriesV, FrameV)):
        return _isna(I, [v], {})
    if v is None:
        return True
    if isinstance(v, float):
        return v != v
    if isinstance(v, (int, str)):
        return False
    if isinstance(v, Num):
        return b_isna(v.expr) if isinstance(b_isna(v.expr), bool) else I.top("isna")
    if isinstance(v, (StampV, TokV)):
        return False
    return I.top("isna")


@ext("numpy.isinf")
def _isinf(I, a, k):
    v = a[0]
    if isinstance(v, SeriesV):
        e = False if not E.has_unk(v.expr) else E.UNK
        return SeriesV(e, v.idx, None, v.name, "bool", v.arr)
    if isinstance(v, (int, float)):
        return v in (float("inf"), float("-inf"))
    if isinstance(v, Num):
        return False
    return I.top("isinf")


@ext("numpy.isfinite")
def _isfin(I, a, k):
    r = _pisna(I, a, k)
    if isinstance(r, SeriesV):
        return SeriesV(b_not(r.expr) if r.expr is not E.UNK else E.UNK, r.idx, None, r.name, "bool", r.arr)
    return (not r) if isinstance(r, bool) else r


@ext("numpy.isclose")
def _isclose(I, a, k):
    x, y = a[0], a[1]
    tol = [v for v, most in ((arg(a, k, 2, "rtol", 0), 1e-4), (arg(a, k, 3, "atol", 0), 1e-6)) if not (isinstance(v, (int, float)) and abs(v) <= most)]
    if tol and is_numeric(x) and is_numeric(y):
        r = L.compare(I, "Lt", x, y)
        d = E.sub(to_expr(x), to_expr(y))
        if not (isinstance(d, E.Rat) and d.const() is not None) and isinstance(r, SeriesV):
            return SeriesV(("p", f"close{tol!r}({E.key(d)})"), r.idx, None, None, "bool", True)
    if isinstance(x, SeriesV) or isinstance(y, SeriesV):
        r = L.series_eq(I, x, y)
        if isinstance(r, SeriesV):
            r.arr = True
        return r
    return L.compare(I, "Eq", x, y) if is_numeric(x) and is_numeric(y) else I.top("isclose")


@ext("numpy.allclose")
def _allclose(I, a, k):
    x, y = a[0], a[1]
    if not (is_numeric(x) and is_numeric(y)):
        return I.top("allclose")
    if unit_of(x) is not None or unit_of(y) is not None:
        ux, uy = unit_of(x) or NODIM, unit_of(y) or NODIM
        if ux.dims != uy.dims:
            I.raise_("pint.DimensionalityError", "allclose")
    d = E.sub(to_expr(x), to_expr(y))
    if isinstance(d, E.Rat) and d.const() is not None:
        return d.const() == 0
    if d is E.NAN:
        return False
    s = x if isinstance(x, SeriesV) else y
    ts = frozenset(I.ts_norm(s.idx.ts)) if isinstance(s, SeriesV) else None
    if E.has_unk(d):
        I.imprecise("allclose of unknown")
    return BoolV(("allclose", repr(E.simplify(d)), ts, extra_tol(a, k)))


def extra_tol(a, k):
    return tuple(repr(v) for v in a[2:]) + tuple(f"{n}={v!r}" for n, v in sorted(k.items()))


@ext("numpy.max", "numpy.min")
def _npmax(I, a, k):
    return I.top("max/min")


def _npmm(name):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, (list, tuple)) and all(isinstance(x, (int, float)) for x in v):
            return (max if name == "max" else min)(v)
        return I.top(name)

    return f


ext("numpy.max")(_npmm("max"))
ext("numpy.min")(_npmm("min"))


@ext("numpy.mean")
def _npmean(I, a, k):
    if isinstance(a[0], SeriesV):
        return s_mean(I, a[0])
    return I.top("mean")


@ext("numpy.sum")
def _npsum(I, a, k):
    if isinstance(a[0], SeriesV) and a[0].kind != "bool":
        return series_sum(I, a[0])
    return I.top("sum")


@ext("numpy.where")
def _npwhere(I, a, k):
    c, x, y = (a + [None] * 3)[:3]
    if isinstance(c, SeriesV) and c.kind == "bool" and is_numeric(x) and is_numeric(y):
        u = unit_of(x) or unit_of(y)
        return SeriesV(b_select(c.expr, to_expr(x), to_expr(y)), c.idx, u, None, "num", True)
    return I.top("numpy.where")


@ext("numpy.any", "numpy.all")
def _npany(I, a, k):
    return I.top("numpy.any/all")


@ext("numpy.logical_and", "numpy.logical_or")
def _nplog(I, a, k):
    return I.top("logical")


def _np2(op):
    def f(I, a, k):
        return L.binop(I, op, a[0], a[1])

    return f


for _n, _o in {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div"}.items():
    ext(f"numpy.{_n}")(_np2(_o))


@ext("numpy.array", "numpy.asarray")
def _nparray(I, a, k):
    v = a[0]
    if isinstance(v, SeriesV):
        c = copy_series(v)
        c.arr = True
        return c
    return I.top("array")


@ext("numpy.zeros_like", "numpy.ones_like")
def _like(I, a, k):
    return I.top("zeros_like")


for _p in ("random.random", "random.choice", "random.randint", "random.shuffle", "random.sample", "numpy.random.rand", "numpy.random.random", "numpy.random.normal", "numpy.random.randint", "numpy.random.choice", "numpy.random.default_rng", "numpy.random.uniform", "numpy.random.seed", "random.seed", "os.urandom", "uuid.uuid4", "secrets.token_hex"):
    def _rng(I, a, k, p=_p):
        I.event("random", what=p)
        return I.top(f"random ({p})")
    ext(_p)(_rng)

from . import timelib  # noqa: E402,F401
from . import opaque  # noqa: E402,F401
from . import spans  # noqa: E402,F401
from . import resample  # noqa: E402,F401
from . import groups  # noqa: E402,F401

from . import elem  # noqa: E402,F401
