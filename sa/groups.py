"""Model of grouping timestamps into delivery periods, and of aggregating and broadcasting again.

A grouping is a name: the tuple of what it groups by, as a function of the timestamps. Values of a group are value numbers in which
``SUM(x over X&(group ...))`` stands for the sum over the timestamps of that group."""

from __future__ import annotations

import re

from . import expr as E
from . import lib as L
from .interp import MISSING
from .lib import IdxArr, attr, ext
from .pdlib import LabelledV, method, tsname
from .pylib import arg
from .spans import MIDNIGHT, moved, rank
from .timelib import DeltaV
from .values import FrameV, Idx, NODIM, Num, Offset, SeriesV, parse_unit


class KeysV:
    """For each timestamp of an index, the key of the group that it belongs to."""

    def __init__(self, idx, keys, contiguous, periods=None):
        self.idx, self.keys, self.contiguous, self.periods = idx, tuple(keys), contiguous, periods

    @property
    def name(self):
        return f"(group {', '.join(self.keys)})"

    def __repr__(self):
        return self.name


class SearchV:
    """Position in a sorted index, of each timestamp of another."""

    def __init__(self, periods, idx, side, off=0):
        self.periods, self.idx, self.side, self.off = periods, idx, side, off

    def sa_op(self, I, op, a, b):
        o = b if a is self else a
        if isinstance(o, int) and not isinstance(o, bool) and (op == "Add" or op == "Sub" and a is self):
            return SearchV(self.periods, self.idx, self.side, self.off + (o if op == "Add" else -o))
        return I.top("arithmetic on positions")

    def sa_index_into(self, I, o):
        if not isinstance(o, Idx) or not I.ts_same(o.ts, self.periods.ts):
            return I.top("positions of another index")
        if (self.side, self.off) == ("right", -1):
            return KeysV(self.idx, [f"period of {tsname(I, o)}"], True, o)
        return KeysV(self.idx, [f"period {self.off:+} ({self.side}) of {tsname(I, o)}"], True, o)


@method(Idx, "searchsorted")
def _searchsorted(I, a, k):
    i, v, side = a[0], arg(a, k, 1, "value"), arg(a, k, 2, "side", "left")
    if isinstance(v, Idx) and side in ("left", "right") and v.stat is None:
        return SearchV(i, v, side)
    return I.top("searchsorted")


def shift_back(I, i, d):
    """Index minus its start-of-day: timestamps whose calendar day is the delivery day."""
    from .resample import seconds

    if d.months or d.days or i.tz is not None or rank(i.grain) is None or seconds(i.sod) != d.seconds:
        return None
    ts = {moved(a, "sod", i.sod.name, MIDNIGHT.name) for a in i.ts}
    return i.copy(ts=ts, sod=MIDNIGHT, freq=None, grain=i.grain)


def rows(I, i):
    """Name of the rows, whatever the wall clock."""
    n = "&".join(sorted(re.sub(r"@(?:tz|conv|sod)\[[^\]]*\]", "", a) for a in I.ts_norm(i.ts)))
    while m := re.fullmatch(r"shift\([^;]*; (.*)\)", n):
        n = m[1]
    return n


def key_name(I, v):
    if isinstance(v, IdxArr):
        return f"{v.what} of {tsname(I, v.idx)}", v.idx
    if isinstance(v, SeriesV):
        return f"{E.key(v.expr) if v.kind != 'bool' else v.expr!r}", v.idx
    return None, None


@ext("pandas.MultiIndex.from_arrays")
def _from_arrays(I, a, k):
    arrs = arg(a, k, 0, "arrays")
    if not isinstance(arrs, (list, tuple)) or not arrs:
        return I.top("MultiIndex.from_arrays")
    return keys_of(I, arrs)


def keys_of(I, arrs):
    names, idx = [], None
    for v in arrs:
        if isinstance(v, KeysV):
            names.extend(v.keys)
            i = v.idx
        else:
            n, i = key_name(I, v)
            if n is None:
                return I.top("grouping by other values")
            names.append(n)
        idx = idx or i
    return KeysV(idx, names, all(not (isinstance(v, SeriesV) and v.kind == "bool") for v in arrs))


class GroupBy:
    def __init__(self, o, keys):
        self.o, self.keys = o, keys


def _groupby(I, a, k):
    o, by = a[0], arg(a, k, 1, "by")
    extra = {n: v for n, v in k.items() if n not in ("by", "group_keys", "sort", "axis") or n == "axis" and v != 0}
    if extra or len(a) > 2:
        return I.top("options of groupby")
    if isinstance(by, (list, tuple)) and by:
        by = keys_of(I, by)
    elif isinstance(by, (IdxArr, SeriesV)):
        by = keys_of(I, [by])
    if not isinstance(by, KeysV):
        return I.top("groupby")
    return GroupBy(o, by)


for _t in (SeriesV, FrameV):
    L.METHODS[(_t, "groupby")] = _groupby


def subset(I, o, keys):
    from .pdlib import with_index

    i = o.idx
    return with_index(o, i.copy(ts=i.ts | {keys.name}, freq=i.freq if keys.contiguous else None))


@method(GroupBy, "apply")
def _apply(I, a, k):
    g, fn = a[0], arg(a, k, 1, "func")
    if len(a) > 2 or {n: v for n, v in k.items() if n not in ("func", "include_groups")}:
        return I.top("groupby.apply")
    r = I.call(fn, [subset(I, g.o, g.keys)], {})
    if isinstance(r, LabelledV) and all(L.is_numeric(v) for v in r.vals.values()):
        return GroupedV(g.keys, r.vals, isinstance(g.o, SeriesV))
    return I.top("groupby.apply of other function")


def _agg(how):
    def f(I, a, k):
        g = a[0]
        if a[1:] or k:
            return I.top("options of aggregation")
        sub = subset(I, g.o, g.keys)
        if isinstance(sub, SeriesV):
            return GroupedV(g.keys, {None: L.call_method(I, sub, how)}, False)
        return GroupedV(g.keys, {c: L.call_method(I, s, how) for c, s in sub.cols.items()}, False)

    return f


class GroupedV:
    """One value per group (and label)."""

    def __init__(self, keys, vals, stacked):
        self.keys, self.vals, self.stacked = keys, dict(vals), stacked

    def sa_setattr(self, I, name, v):
        if name == "index" and isinstance(v, LabelsV) and v.keys.keys == self.keys.keys:
            return True
        return False

    def sa_loc(self, I, k):
        if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None):
            k = k[0]
        if isinstance(k, KeysV) and k.keys == self.keys.keys and not self.stacked:
            return SpreadV(k, self.vals)
        return I.top("rows of groups")


class LabelsV:
    def __init__(self, keys):
        self.keys = keys


@attr(GroupedV)
def _gattr(I, o, name):
    if name == "index":
        return LabelsV(o.keys)
    if name in ("loc", "iloc"):
        return L.Acc(name, o)
    return I.top(f"groups .{name}")


@ext("pandas.MultiIndex.from_tuples")
def _from_tuples(I, a, k):
    t = arg(a, k, 0, "tuples")
    return t if isinstance(t, LabelsV) else I.top("MultiIndex.from_tuples")


@method(GroupedV, "astype")
def _gastype(I, a, k):
    t = arg(a, k, 1, "dtype")
    u = None
    if isinstance(t, str) and t.startswith("pint["):
        u = parse_unit(t[5:-1])
    if u is None or any(getattr(v, "unit", None) is not None for v in a[0].vals.values()):
        return I.top("astype of groups")
    return GroupedV(a[0].keys, {c: Num(v.expr if isinstance(v, Num) else E.num(v), u) for c, v in a[0].vals.items()}, a[0].stacked)


@method(GroupedV, "unstack")
def _gunstack(I, a, k):
    if a[1:] or k or not a[0].stacked:
        return I.top("unstack")
    return GroupedV(a[0].keys, a[0].vals, False)


@method(GroupedV, "set_axis")
def _gset_axis(I, a, k):
    g, v = a[0], arg(a, k, 1, "labels")
    if k.get("axis", 0) not in (0, "index") or g.stacked or not isinstance(v, Idx):
        return I.top("set_axis")
    if g.keys.periods is not None and I.ts_same(g.keys.periods.ts, v.ts):
        return frame(I, g.vals, v)
    return I.top("set_axis of groups")


def frame(I, vals, idx):
    cols = {}
    for c, v in vals.items():
        e = v.expr if isinstance(v, Num) else E.num(v)
        cols[c] = SeriesV(e, idx, v.unit if isinstance(v, Num) else None, c)
    return FrameV(cols, idx)


class SpreadV:
    """Value of its group, for each timestamp; labelled with the groups."""

    def __init__(self, keys, vals):
        self.keys, self.vals = keys, vals


@method(SpreadV, "set_axis")
def _sset_axis(I, a, k):
    s, v = a[0], arg(a, k, 1, "labels")
    if k.get("axis", 0) in (0, "index") and isinstance(v, Idx) and rows(I, v) == rows(I, s.keys.idx):
        return frame(I, s.vals, v)
    return I.top("set_axis")


@attr(SpreadV)
def _sattr(I, o, name):
    return I.top(f"values of groups .{name}")


# ------------------------------------------------------------------ stacked frames

class StackedV:
    """Frame whose columns have become the innermost level of the index; several of these side by side if cols is a dictionary."""

    def __init__(self, cols, single=True):
        self.cols, self.single = cols, single

    def sa_dataframe(self, I, data):
        fr = {k: v.cols for k, v in data.items() if isinstance(v, StackedV) and v.single}
        if len(fr) != len(data) or not all(list(f.cols) == list(self.cols.cols) for f in fr.values()):
            return I.top("frame from stacked frames")
        return StackedV(fr, False)


@method(FrameV, "stack")
def _stack(I, a, k):
    if a[1:] or set(k) - {"future_stack", "dropna"} or len({repr(s.unit) for s in a[0].cols.values()}) > 1:
        return I.top("stack")
    return StackedV(a[0])


@method(StackedV, "unstack")
def _sunstack(I, a, k):
    return a[0].cols if a[0].single and not a[1:] and not k else I.top("unstack")


@attr(StackedV)
def _stattr(I, o, name):
    return I.top(f"stacked frame .{name}")
