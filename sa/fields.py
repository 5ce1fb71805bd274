"""Timestamps of which the calendar fields are known, except for the year; and short lists of them."""

from __future__ import annotations

import datetime as _dt

from . import expr as E
from . import lib as L
from . import timelib as T
from .apinames import NAMES
from .interp import MISSING
from .lib import attr, ext, method
from .pylib import arg
from .timelib import CStamp, DeltaV
from .values import Ext, FreqV, Num, Offset, TokV, parse_freq


class Vec(list):
    """Array of known values."""

    def sa_op(self, I, op, a, b):
        return each(I, lambda x, y: I.lib.binop(I, op, x, y), a, b)

    def sa_setattr(self, I, name, v):
        if name == "freq" and isinstance(self, VecIdx):
            self.freq = parse_freq(v) if isinstance(v, str) else v
            return True
        if name == "name":
            return True
        return False


class VecIdx(Vec):
    """Index of known timestamps."""

    def __init__(self, vals, freq=None):
        super().__init__(vals)
        self.freq = freq


class VecS(Vec):
    """Series of known values."""

    def __init__(self, vals, idx):
        super().__init__(vals)
        self.idx = idx

    def sa_op(self, I, op, a, b):
        if op in ("BitAnd", "BitOr"):  # missing counts as False
            a, b = (VecS([not missing(x) and x for x in s], s.idx) if isinstance(s, VecS) else s for s in (a, b))
        return super().sa_op(I, op, a, b)


def scalar(x):
    return not isinstance(x, list)


def each(I, fn, *args):
    """Apply to each element."""
    n = {len(x) for x in args if isinstance(x, Vec)}
    if len(n) != 1 or any(not isinstance(x, Vec) and not scalar(x) and len(x) not in n for x in args):
        I.raise_("ValueError", "lengths differ")
    n = n.pop()
    vals = [fn(*(x if scalar(x) else x[i] for x in args)) for i in range(n)]
    for x in args:
        if isinstance(x, VecS):
            return VecS(vals, x.idx)
    if all(isinstance(v, CStamp) for v in vals) and any(isinstance(x, VecIdx) for x in args):
        return VecIdx(vals, next(x for x in args if isinstance(x, VecIdx)).freq)
    return Vec(vals)


def clock(t):
    return isinstance(t, TokV) and t.kind == "sod" and t.name[:1].isdigit()


_old = {"compare": L.compare, "equal": L.equal, "unop": L.unop, "getitem": L.getitem, "setitem": L.setitem}


def compare(I, op, a, b):
    if (isinstance(a, Vec) or isinstance(b, Vec)) and op not in ("Is", "IsNot", "In", "NotIn"):
        return each(I, lambda x, y: I.lib.compare(I, op, x, y), a, b)
    if clock(a) and clock(b) and op in ("Lt", "LtE", "Gt", "GtE"):
        return L.PYCMP[op](a.name, b.name)
    return _old["compare"](I, op, a, b)


def equal(I, a, b):
    if isinstance(a, Vec) or isinstance(b, Vec):
        return each(I, lambda x, y: I.lib.compare(I, "Eq", x, y), a, b)
    if clock(a) and clock(b):
        return a.name == b.name
    return _old["equal"](I, a, b)


def unop(I, op, v):
    if isinstance(v, Vec):
        if op == "Invert" and all(isinstance(x, bool) for x in v):
            return each(I, lambda x: not x, v)
        return each(I, lambda x: I.lib.unop(I, op, x), v)
    return _old["unop"](I, op, v)


def intslice(k):
    return isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step))


def item(I, o, k):
    if not -len(o) <= k < len(o):
        I.raise_("IndexError", "index out of bounds")
    return list.__getitem__(o, k)


def subset(o, ns):
    vals = [list.__getitem__(o, n) for n in ns]
    if isinstance(o, VecS):
        return VecS(vals, subset(o.idx, ns)) if isinstance(o.idx, Vec) and len(o.idx) == len(o) else Vec(vals)
    return VecIdx(vals) if isinstance(o, VecIdx) else Vec(vals)


def rows(o, k):
    """Positions of rows with these timestamps; None if not selected by timestamp."""
    if not isinstance(o.idx, VecIdx) or len(o.idx) != len(o):
        return None
    if isinstance(k, CStamp):
        return [n for n, t in enumerate(o.idx) if t == k]
    if isinstance(k, slice) and k.step is None and (k.start is not None or k.stop is not None) and all(x is None or isinstance(x, CStamp) for x in (k.start, k.stop)):
        return [n for n, t in enumerate(o.idx) if (k.start is None or t.dt >= k.start.dt) and (k.stop is None or t.dt <= k.stop.dt)]
    if isinstance(k, VecIdx) and all(t in o.idx for t in k):
        return [o.idx.index(t) for t in k]
    return None


def setitem(I, o, k, v):
    s = o.o if isinstance(o, L.Acc) else o
    if not isinstance(s, VecS):
        return _old["setitem"](I, o, k, v)
    I.mutate(s, "set item")
    if isinstance(k, Vec) and len(k) == len(s) and all(isinstance(x, bool) for x in k):
        ns = [n for n, y in enumerate(k) if y]
    elif isinstance(o, L.Acc) and o.kind == "iloc":
        ns = list(range(len(s)))[k] if intslice(k) else [k] if isinstance(k, int) else None
    else:
        ns = rows(s, k)
    if ns is None or not ns and isinstance(k, CStamp):
        I.imprecise("setting items of series")
        return None
    if isinstance(v, VecS):
        if not all(t in v.idx for t in (s.idx[n] for n in ns)):
            I.imprecise("setting items of series")
            return None
        v = Vec(list.__getitem__(v, v.idx.index(s.idx[n])) for n in ns)
    if isinstance(v, Vec) and len(v) != len(ns):
        I.raise_("ValueError", "cannot set using a list-like indexer with a different length than the value")
    for x, n in enumerate(ns):
        list.__setitem__(s, n, v[x] if isinstance(v, Vec) else v)
    return None


def missing(x):
    return isinstance(x, float) and x != x or isinstance(x, Num) and x.expr is E.NAN


def getitem(I, o, k):
    if isinstance(o, Vec):
        if isinstance(k, Vec) and all(isinstance(x, bool) for x in k):
            if len(k) != len(o):
                I.raise_("IndexError", "boolean index has wrong length")
            return subset(o, [n for n, y in enumerate(k) if y])
        if isinstance(o, VecS) and (r := rows(o, k)) is not None:
            if not r and isinstance(k, CStamp):
                I.raise_("KeyError", "no such timestamp")
            return list.__getitem__(o, r[0]) if isinstance(k, CStamp) else subset(o, r)
        if isinstance(k, int) and not isinstance(o, VecS):
            return item(I, o, k)
        if intslice(k):
            return VecIdx(list.__getitem__(o, k), o.freq) if isinstance(o, VecIdx) else subset(o, list(range(len(o)))[k])
        return I.top("items of array")
    if isinstance(o, L.Acc) and isinstance(o.o, VecS):
        if o.kind == "iloc":
            return item(I, o.o, k) if isinstance(k, int) else subset(o.o, list(range(len(o.o)))[k]) if intslice(k) else I.top("items of series")
        return getitem(I, o.o, k) if not isinstance(k, int) and not (intslice(k) and rows(o.o, k) is None) else I.top("items of series")
    return _old["getitem"](I, o, k)


L.compare, L.equal, L.unop, L.getitem, L.setitem = compare, equal, unop, getitem, setitem


@attr(Vec, VecIdx, VecS)
def vec_attr(I, o, name):
    if name in ("values", "array"):
        return Vec(o) if not isinstance(o, VecIdx) else o
    if isinstance(o, VecS) and name == "index":
        return o.idx
    if isinstance(o, VecS) and name in ("loc", "iloc"):
        return L.Acc(name, o)
    if name in ("size",):
        return len(o)
    if name == "empty":
        return not len(o)
    if name in ("dt", "index"):
        return I.top(f"array .{name}")
    if isinstance(o, VecIdx):
        if name in ("freq", "name"):
            return getattr(o, name, None)
        if name == "freqstr":
            return o.freq.str if o.freq is not None else None
        if name in ("tz", "tzinfo"):
            return None
        if name == "time":
            return each(I, lambda x: time(x), Vec(o))
        if name in FIELDS or name.startswith("is_"):
            return each(I, lambda x: stamp_attr(I, x, name), Vec(o))
    known = NAMES["DatetimeIndex" if isinstance(o, VecIdx) else "Series" if isinstance(o, VecS) else "ndarray"]
    return I.top(f"array .{name}") if name in known or name.startswith("__") else MISSING


FIELDS = {
    "month": lambda t: t.month,
    "day": lambda t: t.day,
    "hour": lambda t: t.hour,
    "minute": lambda t: t.minute,
    "second": lambda t: t.second,
    "microsecond": lambda t: t.microsecond,
    "nanosecond": lambda t: 0,
    "quarter": lambda t: (t.month - 1) // 3 + 1,
    "dayofweek": lambda t: t.weekday(),
    "day_of_week": lambda t: t.weekday(),
    "weekday": lambda t: t.weekday(),
    "days_in_month": lambda t: (T.add_months(t.replace(day=1), 1) - t.replace(day=1)).days,
}


def stamp_attr(I, s, name):
    if name in FIELDS:
        return FIELDS[name](s.dt)
    return _cattr(I, s, name)


_cattr = L.ATTR[CStamp]


@attr(CStamp)
def cstamp_attr(I, s, name):
    if name in FIELDS and name != "weekday":
        return FIELDS[name](s.dt)
    if getattr(I, "no_year", False) and name in ("year", "dayofyear", "day_of_year", "value"):
        return I.top("year of timestamp")
    r = _cattr(I, s, name)
    return I.top(f"Timestamp.{name}") if r is MISSING and (name in NAMES["Timestamp"] or name.startswith("__")) else r


def time(s):
    t = s.dt
    return TokV("sod", f"{t.hour:02}:{t.minute:02}:{t.second:02}")


@method(CStamp, "isoweekday")
def _iso(I, a, k):
    return a[0].dt.isoweekday()


@method(CStamp, "weekday")
def _wd(I, a, k):
    return a[0].dt.weekday()


def unit(I, f):
    f = I.freq_concrete(f) if isinstance(f, FreqV) else parse_freq(f) if isinstance(f, str) else f
    if isinstance(f, DeltaV) and f.absolute:
        return int(f.seconds)
    return f.n * {"Minute": 60, "Hour": 3600, "Day": 86400, "Second": 1}.get(f.cls, 0) if isinstance(f, Offset) else 0


def _round(up):
    def f(I, a, k):
        n = unit(I, arg(a, k, 1, "freq"))
        if not n or 86400 % n or set(k) - {"freq", "ambiguous", "nonexistent"}:
            return I.top("rounding of timestamp")
        t = a[0].dt
        day = t.replace(hour=0, minute=0, second=0, microsecond=0)
        s = (t - day).total_seconds()
        m = s // n * n
        if up and m != s:
            m += n
        return CStamp(day + _dt.timedelta(seconds=m))

    return f


method(CStamp, "floor")(_round(False))
method(CStamp, "ceil")(_round(True))


@method(CStamp, "tz_localize", "tz_convert")
def _tz(I, a, k):
    return a[0] if arg(a, k, 1, "tz") is None else I.top("timezone")


@method(CStamp, "strftime", "date", "day_name", "isoformat")
def _text(I, a, k):
    return I.top("text of timestamp")


@method(VecIdx, "map")
def _map(I, a, k):
    return Vec([I.call(a[1], [x], {}) for x in a[0]])


@method(VecIdx, "shift")
def _shift(I, a, k):
    n = arg(a, k, 1, "periods", 1)
    f = arg(a, k, 2, "freq", a[0].freq)
    f = parse_freq(f) if isinstance(f, str) else f
    if f is None or f is MISSING:
        I.raise_("ValueError", "cannot shift with no freq")
    if not isinstance(n, int) or not isinstance(f, Offset):
        return I.top("shift")
    vals = [I.lib.binop(I, "Add", t, Offset(f.cls, f.n * n, f.month)) for t in a[0]]
    return VecIdx(vals, a[0].freq) if all(isinstance(t, CStamp) for t in vals) else I.top("shift")


def _stat(name):
    def f(I, a, k):
        v = a[0]
        if len(a) > 1 or k or not v or not all(isinstance(d, DeltaV) and d.absolute for d in v):
            return I.top("statistic of array")
        s = sorted(d.seconds for d in v)
        return DeltaV(seconds=(s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2 if name == "median" else s[0] if name == "min" else s[-1])

    return f


for _n in ("median", "min", "max"):
    L.METHODS[(Vec, _n)] = _stat(_n)


def _isna(neg):
    def f(I, a, k):
        if any(isinstance(x, Num) and x.expr is not E.NAN and E.has_nan(x.expr) for x in a[0]):
            return I.top("missing values")
        return VecS([missing(x) != neg for x in a[0]], a[0].idx)

    return f


for _n in ("isna", "isnull", "notna", "notnull"):
    L.METHODS[(VecS, _n)] = _isna(_n.startswith("not"))


@method(VecS, "shift")
def _sshift(I, a, k):
    n, fill = arg(a, k, 1, "periods", 1), k.get("fill_value", float("nan"))
    if not isinstance(n, int) or set(k) - {"periods", "fill_value"}:
        return I.top("shift of series")
    m, size = [fill] * min(abs(n), len(a[0])), len(a[0])
    return VecS((m + list(a[0]))[:size] if n >= 0 else (list(a[0]) + m)[-size:], a[0].idx)


def _same(*names):
    for t in (Vec, VecIdx, VecS):
        for n in names:
            L.METHODS[(t, n)] = lambda I, a, k: a[0]


_same("copy", "to_numpy", "to_series", "rename", "sort_values")
for _n in ("copy", "rename"):
    L.METHODS[(VecS, _n)] = lambda I, a, k: VecS(a[0], a[0].idx)
del L.METHODS[(VecS, "sort_values")]


def _astype(I, a, k):
    if a[1] in (bool, "bool") or getattr(a[1], "path", None) in ("builtins.bool", "numpy.bool_"):
        return each(I, lambda x: I.truth(x), a[0])
    return a[0] if all(isinstance(x, int) for x in a[0]) else I.top("astype")


def _reduce(what):
    def f(I, a, k):
        vals = [I.truth(x) for x in a[0]]
        return any(vals) if what == "any" else all(vals)

    return f


def _isin(I, a, k):
    vals = I.iterate(a[1])
    return each(I, lambda x: any(I.truth(I.lib.compare(I, "Eq", x, v)) for v in vals), a[0] if not isinstance(a[0], VecIdx) else Vec(a[0]))


for _t in (Vec, VecIdx, VecS):
    L.METHODS[(_t, "astype")] = _astype
    L.METHODS[(_t, "any")] = _reduce("any")
    L.METHODS[(_t, "all")] = _reduce("all")
    L.METHODS[(_t, "isin")] = _isin
    L.METHODS[(_t, "tolist")] = L.METHODS[(_t, "to_list")] = lambda I, a, k: list(a[0])


def _wrap(path, fn):
    old = L.EXTS[path]
    L.EXTS[path] = lambda I, a, k: fn(I, a, k) if any(isinstance(x, Vec) for x in (*a, *k.values())) else old(I, a, k)


def _series(I, a, k):
    data, idx = arg(a, k, 0, "data"), arg(a, k, 1, "index")
    arg(a, k, 2, "dtype"), arg(a, k, 3, "name")
    if isinstance(data, Vec) and idx is None:
        idx = data.idx if isinstance(data, VecS) else None
    if not isinstance(idx, VecIdx):
        return I.top("series of known values")
    if isinstance(data, (list, tuple)):
        if len(data) != len(idx):
            I.raise_("ValueError", "lengths differ")
        return VecS(list(data), idx)
    return VecS([data] * len(idx), idx)


def _array(I, a, k):
    return Vec(a[0])


def _logical(op):
    return lambda I, a, k: I.lib.binop(I, op, a[0], a[1])


_wrap("pandas.Series", _series)
for _p in ("numpy.array", "numpy.asarray"):
    if _p in L.EXTS:
        _wrap(_p, _array)

        def _known(I, a, k, old=L.EXTS[_p]):  # list of known values
            v = a[0] if a else None
            if getattr(I, "no_year", False) and isinstance(v, (list, tuple)) and all(isinstance(x, (bool, int)) for x in v) and set(k) <= {"dtype"}:
                return Vec(bool(x) for x in v) if k.get("dtype") in (bool, "bool") else Vec(v)
            return old(I, a, k)

        L.EXTS[_p] = _known
for _p, _o in (("numpy.logical_and", "BitAnd"), ("numpy.logical_or", "BitOr")):
    if _p in L.EXTS:
        _wrap(_p, _logical(_o))
if "numpy.logical_not" in L.EXTS:
    _wrap("numpy.logical_not", lambda I, a, k: unop(I, "Invert", a[0]))
for _p, _w in (("numpy.any", "any"), ("numpy.all", "all")):
    if _p in L.EXTS:
        _wrap(_p, _reduce(_w))


def _mkidx(I, a, k):
    vals = a[0] if a else k.get("data")
    f = k.get("freq", getattr(vals, "freq", None))
    if set(k) - {"data", "freq", "tz", "name"} or k.get("tz") is not None:
        return I.top("DatetimeIndex")
    return VecIdx(list(vals), parse_freq(f) if isinstance(f, str) else f)


_oldidx = L.EXTS["pandas.DatetimeIndex"]


def _datetimeindex(I, a, k):
    v = a[0] if a else k.get("data")
    if getattr(I, "no_year", False) and not isinstance(v, Vec):
        v = I.iterate(v)
    if isinstance(v, list) and v and all(isinstance(x, CStamp) for x in v):
        return _mkidx(I, [v], {n: x for n, x in k.items() if n != "data"})
    return _oldidx(I, a, k)


L.EXTS["pandas.DatetimeIndex"] = _datetimeindex
_oldts = L.EXTS["pandas.Timestamp"]


def _timestamp(I, a, k):
    if len(a) == 1 and k.get("tz", 1) is None:
        k = {n: v for n, v in k.items() if n != "tz"}
    if len(a) == 1 and a[0] is None and not k:
        return NAT
    return _oldts(I, a, k)


L.EXTS["pandas.Timestamp"] = _timestamp
NAT = Ext("pandas.NaT")
L.TYPEPATH["pandas.DatetimeIndex"] = (lambda old: lambda v: isinstance(v, VecIdx) or old(v))(L.TYPEPATH["pandas.DatetimeIndex"])
