"""Timestamps that are calculated from each timestamp of an index: terms, and their meaning around a clock change."""

from __future__ import annotations

from . import lib as L
from .lib import attr, method
from .pylib import arg
from .timelib import DeltaV
from .values import Idx, Offset, SeriesV, TokV, parse_freq


class ElemV:
    """A timestamp (term) for each timestamp of an index."""

    def __init__(self, idx, term):
        self.idx, self.term = idx, term

    def __repr__(self):
        return f"Elem({self.term})"

    def sa_op(self, I, op, a, b):
        if op in ("Add", "Sub") and isinstance(a, ElemV) and isinstance(b, DeltaV) and b.absolute:
            return ElemV(a.idx, ("+", a.term, int(b.seconds // 60) * (1 if op == "Add" else -1)))
        if op == "Add" and isinstance(b, ElemV) and isinstance(a, DeltaV) and a.absolute:
            return ElemV(b.idx, ("+", b.term, int(a.seconds // 60)))
        if op == "Sub":
            x, y = stamp(a), stamp(b)
            if x is not None and y is not None and I.ts_same(x.idx.ts, y.idx.ts):
                return ElemD(x.idx, ("diff", x.term, y.term))
        return I.top("calculation with timestamps")

    def sa_index_into(self, I, o):
        if isinstance(o, L.Acc) and o.kind == "loc":
            o = o.o
        if isinstance(o, SeriesV) and o.kind == "stamps":
            return ElemM(self.idx, o, self.term)
        return I.top("item at calculated timestamps")


class ElemD:
    """A duration for each timestamp of an index."""

    def __init__(self, idx, term):
        self.idx, self.term = idx, term

    def sa_op(self, I, op, a, b):
        if op == "Add":
            m, d = (a, b) if isinstance(a, ElemM) else (b, a)
            if isinstance(m, ElemM) and isinstance(d, ElemD):
                return ElemM(m.idx, m.of, m.day, m.add + (d.term,))
        if op in ("Add", "Sub") and isinstance(a, ElemV) and isinstance(b, ElemD):
            return ElemV(a.idx, ("++" if op == "Add" else "--", a.term, b.term))
        if op in ("Add", "Sub") and isinstance(a, Idx) and isinstance(b, ElemD):
            return ElemV(a, ("++" if op == "Add" else "--", ("T",), b.term))
        return I.top("calculation with durations")


class ElemM:
    """Mapped timestamp plus durations, for each timestamp of an index."""

    def __init__(self, idx, of, day, add=()):
        self.idx, self.of, self.day, self.add = idx, of, day, add

    def sa_op(self, I, op, a, b):
        if op == "Add" and isinstance(a, ElemM) != isinstance(b, ElemM):
            return ElemD.sa_op(None, I, op, a, b)
        return I.top("calculation with mapped timestamps")


def stamp(x):
    return x if isinstance(x, ElemV) else ElemV(x, ("T",)) if isinstance(x, Idx) else None


def _wrap(name, fn):
    old = L.METHODS[(Idx, name)]
    L.METHODS[(Idx, name)] = lambda I, a, k: fn(I, [stamp(a[0])] + list(a[1:]), k) if getattr(I, "elemwise", False) else old(I, a, k)
    method(ElemV, name)(fn)


def _localize(I, a, k):
    tz = arg(a, k, 1, "tz")
    if len(a) > 2 or set(k) - {"tz"}:
        return I.top("tz_localize with options")
    if tz is not None and tz != a[0].idx.tz:
        return I.top("other timezone")
    return ElemV(a[0].idx, ("naive" if tz is None else "local", a[0].term))


def _convert(I, a, k):
    tz = arg(a, k, 1, "tz")
    if tz is not None and tz != a[0].idx.tz:
        return I.top("other timezone")
    return ElemV(a[0].idx, ("utc", a[0].term)) if tz is None else a[0]


def _floor(I, a, k):
    f = arg(a, k, 1, "freq")
    f = parse_freq(f) if isinstance(f, str) else f
    m = {"Minute": 15, "Hour": 60, "Day": 1440}.get(f.cls) if isinstance(f, Offset) else None
    if m is None or len(a) > 2 or set(k) - {"freq"}:
        return I.top("floor of timestamps")
    return ElemV(a[0].idx, ("floor", a[0].term, m))


_wrap("tz_localize", _localize)
_wrap("tz_convert", _convert)
_wrap("floor", _floor)
_wrap("normalize", lambda I, a, k: ElemV(a[0].idx, ("floor", a[0].term, 1440)))


@attr(ElemV)
def _vattr(I, o, name):
    if name == "values":
        return I.top("values of timestamps")
    return I.top(f"timestamps .{name}")


@attr(ElemD)
def _dattr(I, o, name):
    return o if name in ("values", "array") else I.top(f"durations .{name}")


@attr(ElemM)
def _mattr(I, o, name):
    return o if name in ("values", "array") else I.top(f"mapped timestamps .{name}")


@method(ElemM, "set_axis")
def _mset(I, a, k):
    return series(I, a[0], arg(a, k, 1, "labels"))


def series(I, m, idx):
    return m if isinstance(idx, Idx) and I.ts_same(idx.ts, m.idx.ts) else I.top("series of mapped timestamps")


_old = L.EXTS["pandas.Series"]
L.EXTS["pandas.Series"] = lambda I, a, k: series(I, arg(a, k, 0, "data"), arg(a, k, 1, "index")) if isinstance(arg(a, k, 0, "data"), ElemM) else _old(I, a, k)


# ---- meaning of a term, in minutes

class Clock:
    """Clock that is changed on day 0; instants count from midnight of that day."""

    def __init__(self, at, step):
        self.at, self.step = at, step

    def wall(self, t):
        return t + (self.step if t >= self.at else 0)

    def instant(self, w):
        c = [t for t in (w, w - self.step) if self.wall(t) == w]
        if len(set(c)) != 1:
            raise ValueError("wall time that does not exist, or is ambiguous")
        return c[0]


CLOCKS = [Clock(120, 60), Clock(180, -60), Clock(0, 0)]  # earlier, later, unchanged


def value(term, t, clock):
    """Value of a term at instant t: ('a', instant), or ('n', wall time), or a number. clock None: index without timezone."""
    h = term[0]
    if h == "T":
        return ("n", t) if clock is None else ("a", t)
    if h == "diff":
        x, y = value(term[1], t, clock), value(term[2], t, clock)
        if x[0] != y[0]:
            raise TypeError("difference of timestamps with and without timezone")
        return x[1] - y[1]
    kind, v = value(term[1], t, clock)
    if h == "naive":
        return ("n", clock.wall(v)) if kind == "a" else (kind, v)
    if h == "utc":
        return ("n", v)
    if h == "local":
        if kind == "a":
            raise TypeError("already has a timezone")
        return ("a", clock.instant(v)) if clock is not None else (kind, v)
    if h == "+":
        return (kind, v + term[2])
    if h in ("++", "--"):
        d = value(term[2], t, clock)
        return (kind, v + d if h == "++" else v - d)
    if h == "floor":
        if kind == "a":
            return ("a", clock.instant(clock.wall(v) // term[2] * term[2]))
        return (kind, v // term[2] * term[2])
    raise ValueError(h)


def day_and_offset(m, sod, aware):
    """Complaint if the mapped timestamp is not that of the (delivery) day plus the time since the start of that day."""
    for clock in CLOCKS if aware else [None]:
        for t in range(-2 * 1440, 3 * 1440, 15):
            w = clock.wall(t) if aware else t
            start = (w - sod) // 1440 * 1440 + sod
            want = ("a", clock.instant(start)) if aware else ("n", start)
            when = f"for a timestamp at {w % 1440 // 60:02}:{w % 60:02}" + ("" if clock is None or not clock.step else " around a clock change")
            try:
                day, add = value(m.day, t, clock), sum(value(x, t, clock) for x in m.add)
            except (ValueError, TypeError) as e:
                return f"raises an error {when} ({e})"
            if day != want:
                return f"uses the day starting at {day[1] % 1440 // 60:02}:{day[1] % 60:02} {when}, should be {want[1] % 1440 // 60:02}:{want[1] % 60:02}" if day[1] % 1440 != want[1] % 1440 else f"uses another day {when}"
            if add != t - want[1]:
                return f"adds {add} minutes to the start of the day {when}, should be {t - want[1]}"
    return None
