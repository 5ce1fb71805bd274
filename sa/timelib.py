"""Constant timestamps and durations (constant folding of literals in the source)."""

from __future__ import annotations

import datetime as _dt
import re
from fractions import Fraction

from . import expr as E
from . import lib as L
from .apinames import NAMES
from .interp import MISSING
from .lib import attr, compare, ext, method
from .pylib import arg
from .values import FreqV, Idx, Num, Offset, SeriesV, StampV, TokV, parse_freq

_old = {"binop": L.binop, "compare": L.compare, "equal": L.equal}


class CStamp:
    """Constant timezone-agnostic timestamp."""

    def __init__(self, dt):
        self.dt = dt

    def __eq__(self, o):
        return isinstance(o, CStamp) and self.dt == o.dt

    def __hash__(self):
        return hash(self.dt)

    def __repr__(self):
        return f"Timestamp({self.dt})"


class DeltaV:
    """Duration: months and days on the calendar, and seconds on the clock."""

    def __init__(self, months=0, days=0, seconds=0):
        self.months, self.days, self.seconds = months, days, Fraction(seconds)

    def __eq__(self, o):
        return isinstance(o, DeltaV) and (self.months, self.days, self.seconds) == (o.months, o.days, o.seconds)

    def __hash__(self):
        return hash((self.months, self.days, self.seconds))

    @property
    def absolute(self):
        return not self.months and not self.days

    def __repr__(self):
        parts = [f"{n} {w}" for n, w in ((self.months, "calendar months"), (self.days, "calendar days"), (self.seconds, "seconds")) if n]
        return " + ".join(parts) or "0"

    kind, name = "delta", property(lambda self: repr(self))


SECS = {"weeks": 604800, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": Fraction(1, 1000), "microseconds": Fraction(1, 10**6), "nanoseconds": Fraction(1, 10**9)}
ABBR = {"W": 604800, "D": 86400, "d": 86400, "day": 86400, "days": 86400, "h": 3600, "H": 3600, "hour": 3600, "hours": 3600, "min": 60, "m": 60, "T": 60, "minute": 60, "minutes": 60, "s": 1, "S": 1, "sec": 1, "second": 1, "seconds": 1}


def parse_delta(s):
    m = re.fullmatch(r"\s*(-?\d+(?:\.\d+)?)?\s*([A-Za-z]+)\s*", s)
    if m and m.group(2) in ABBR:
        return DeltaV(seconds=Fraction(m.group(1) or 1) * ABBR[m.group(2)])
    m = re.fullmatch(r"(\d+):(\d+):(\d+)", s)
    if m:
        h, mi, se = map(int, m.groups())
        return DeltaV(seconds=h * 3600 + mi * 60 + se)
    return None


@ext("pandas.Timedelta", "datetime.timedelta")
def _tdelta(I, a, k):
    if a and isinstance(a[0], DeltaV) and a[0].absolute:
        return a[0]
    if a and isinstance(a[0], str) and not k:
        d = parse_delta(a[0])
        return d if d is not None else I.top("Timedelta")
    if a and isinstance(a[0], Offset):
        return offset_delta(I, a[0])
    k = dict(k)
    if a and isinstance(a[0], int) and len(a) == 2 and isinstance(a[1], str):
        d = parse_delta(f"{a[0]}{a[1]}")
        return d if d is not None else I.top("Timedelta")
    if "unit" in k and isinstance(k["unit"], str):
        v = k.get("value", a[0] if a else None)
        d = parse_delta(f"{v}{k['unit']}") if isinstance(v, int) else None
        return d if d is not None else I.top("Timedelta")
    for n, v in zip(("days", "seconds", "microseconds"), a):
        k[n] = v
    tot = Fraction(0)
    for n, v in k.items():
        if n not in SECS or not isinstance(v, (int, float)) or isinstance(v, bool):
            return L_token(I, "Timedelta", a, k)
        tot += SECS[n] * Fraction(v)
    return DeltaV(seconds=tot)


def L_token(I, what, a, k):
    from .pylib import delta_token

    return delta_token(I, a, k)


def offset_delta(I, o):
    if o.cls in ("Hour", "Minute", "Second", "Day"):
        return DeltaV(seconds=o.n * {"Hour": 3600, "Minute": 60, "Second": 1, "Day": 86400}[o.cls])
    I.raise_("ValueError", f"{o.str} is not a fixed duration")


@ext("pandas.DateOffset")
def _dateoffset(I, a, k):
    n = arg(a, k, 0, "n", 1)
    k = {x: v for x, v in k.items() if x not in ("n", "normalize")}
    if not isinstance(n, int):
        return L_token(I, "DateOffset", a, k)
    if not k:
        return DeltaV(days=n)
    mo = da = 0
    se = Fraction(0)
    for x, v in k.items():
        if not isinstance(v, int):
            return L_token(I, "DateOffset", a, k)
        if x == "years":
            mo += 12 * v
        elif x == "months":
            mo += v
        elif x == "weeks":
            da += 7 * v
        elif x == "days":
            da += v
        elif x in SECS:
            se += SECS[x] * v
        else:
            return L_token(I, "DateOffset", a, k)
    return DeltaV(mo * n, da * n, se * n)


def parse_stamp(s):
    for f in ("%Y-%m-%d", "%Y-%m-%d %H:%M", "%Y-%m-%d %H:%M:%S", "%Y-%m", "%Y", "%Y-%m-%dT%H:%M:%S"):
        try:
            return CStamp(_dt.datetime.strptime(s, f))
        except ValueError:
            pass
    return None


def other_year(d):
    """Timestamp made of the fields of another one, except for the year."""
    of, tz = None, d.pop("tz", d.pop("tzinfo", None))
    y = d.pop("year", None)
    if set(d) - {"month", "day", "hour", "minute", "second"} or y is None:
        return None
    y = E.num(y) if isinstance(y, int) else y.expr if isinstance(y, Num) else None
    if y is None:
        return None
    for n, v in d.items():
        s = getattr(v, "stamp", None)
        if isinstance(v, Num) and s is not None and s[0] == n:
            if of is not None and (of.which, of.idx) != (s[1].which, s[1].idx):
                return StampV(f"mix of {of.which} and {s[1].which}", of.idx, tz)
            of = s[1]
        elif not isinstance(v, int):
            return None
    if of is None:
        return None
    rest = [f"{n}={v}" for n, v in sorted(d.items()) if isinstance(v, int) and (n, v) != ("second", 0)]
    rest += [f"{n}=default" for n in ("month", "day", "hour", "minute") if n not in d]
    return StampV(f"{of.which} in year {E.key(E.simplify(y))}" + "".join(f" with {x}" for x in rest), of.idx, tz)


@method(StampV, "replace")
def _stamp_replace(I, a, k):
    s = a[0]
    if len(a) > 1 or not k or set(k) - {"year", "month", "day", "hour", "minute", "second", "microsecond", "nanosecond"}:
        return I.top("timestamp method")
    y = k.get("year")
    e = E.num(y) if isinstance(y, int) else y.expr if isinstance(y, Num) else None
    if "year" in k and e is None:
        return I.top("timestamp method")
    rest = [f" with {n}={v!r}" for n, v in sorted(k.items()) if n != "year" and not (n in ("second", "microsecond", "nanosecond") and v == 0)]
    return StampV(s.which + (f" in year {E.key(E.simplify(e))}" if e is not None else "") + "".join(rest), s.idx, s.tz)


@ext("pandas.Timestamp", "datetime.datetime")
def _timestamp(I, a, k):
    if len(a) == 1 and isinstance(a[0], (StampV, CStamp)) and not k:
        return a[0]
    if len(a) == 1 and isinstance(a[0], TokV) and a[0].kind == "stamp" and not set(k) - {"tz"}:
        return a[0]
    if len(a) == 1 and isinstance(a[0], StampV) and set(k) == {"tz"} and (a[0].idx is None or k["tz"] is a[0].idx.tz):
        return a[0]
    if len(a) == 1 and isinstance(a[0], str) and not k:
        s = parse_stamp(a[0])
        return s if s is not None else I.top("Timestamp")
    r = other_year(dict(zip(("year", "month", "day", "hour", "minute", "second"), a), **k))
    if r is not None:
        return r
    vals = list(a) + list(k.values())
    if vals and all(isinstance(v, int) for v in vals):
        d = dict(zip(("year", "month", "day", "hour", "minute", "second"), a))
        d.update(k)
        try:
            return CStamp(_dt.datetime(d["year"], d.get("month", 1), d.get("day", 1), d.get("hour", 0), d.get("minute", 0), d.get("second", 0)))
        except (ValueError, KeyError):
            I.raise_("ValueError", "timestamp")
    return I.top("Timestamp")


def add_months(dt, n):
    m = dt.year * 12 + dt.month - 1 + n
    y, mo = divmod(m, 12)
    for day in (dt.day, 30, 29, 28):
        try:
            return dt.replace(year=y, month=mo + 1, day=day)
        except ValueError:
            pass


def add_delta(dt, d, sign=1):
    if d.months:
        dt = add_months(dt, sign * d.months)
    return dt + _dt.timedelta(days=sign * d.days, seconds=float(sign * d.seconds))


def starts(o):
    """Is the start of a month an anchor of the offset?"""
    if o.cls == "MonthBegin":
        return lambda m: True
    if o.cls == "QuarterBegin":
        return lambda m: (m - o.month) % 3 == 0
    if o.cls == "YearBegin":
        return lambda m: m == o.month
    return None


def on_offset(dt, o):
    f = starts(o)
    return True if f is None else dt.day == 1 and f(dt.month)


def next_start(dt, o, direction):
    """Anchor strictly after (or before) the timestamp."""
    f = starts(o)
    d = dt.replace(day=1)
    if direction > 0:
        d = add_months(d, 1)
        while not f(d.month):
            d = add_months(d, 1)
        return d
    if d == dt:
        d = add_months(d, -1)
    while not f(d.month):
        d = add_months(d, -1)
    return d


def add_offset(dt, o, sign=1):
    n = sign * o.n
    step = {"Hour": 3600, "Minute": 60, "Second": 1, "Day": 86400}.get(o.cls)
    if step:
        return dt + _dt.timedelta(seconds=n * step)
    if starts(o) is None:
        return None
    for _ in range(abs(n)):
        dt = next_start(dt, o, 1 if n > 0 else -1)
    return dt


@attr(CStamp)
def cstamp_attr(I, s, name):
    if name in ("tz", "tzinfo"):
        return None
    if name in ("year", "month", "day", "hour", "minute", "second"):
        return getattr(s.dt, name)
    if name in ("is_month_start", "is_quarter_start", "is_year_start"):
        o = {"is_month_start": Offset("MonthBegin"), "is_quarter_start": Offset("QuarterBegin", 1, 1), "is_year_start": Offset("YearBegin", 1, 1)}[name]
        return on_offset(s.dt, o)
    return L.pandas_ext_attr(I, s, "pandas.Timestamp", name)


@method(CStamp, "time")
def _ctime(I, a, k):
    t = a[0].dt
    return TokV("sod", f"{t.hour:02}:{t.minute:02}:{t.second:02}")


@method(CStamp, "replace")
def _creplace(I, a, k):
    if all(isinstance(v, int) for v in k.values()):
        return CStamp(a[0].dt.replace(**{n: v for n, v in k.items() if n not in ("nanosecond", "fold")}))
    return I.top("replace")


@method(CStamp, "normalize")
def _cnorm(I, a, k):
    return CStamp(a[0].dt.replace(hour=0, minute=0, second=0))


@attr(DeltaV)
def delta_attr(I, d, name):
    if name in ("days", "seconds") and d.absolute:
        return int(d.seconds // 86400) if name == "days" else int(d.seconds % 86400)
    r = L.pandas_ext_attr(I, d, "pandas.Timedelta", name)
    return I.top(f"Timedelta.{name}") if r is MISSING and (name in NAMES["Timedelta" if d.absolute else "offset"] or name.startswith("__")) else r


@method(DeltaV, "total_seconds")
def _total(I, a, k):
    if not a[0].absolute:
        I.raise_("AttributeError", "total_seconds")
    return float(a[0].seconds)


def _roll(direction):
    def f(I, a, k):
        o, s = a[0], a[1] if len(a) > 1 else k.get("dt")
        if isinstance(o, FreqV):
            o = I.freq_concrete(o)
        if not isinstance(s, CStamp):
            return I.top("roll of timestamp")
        if on_offset(s.dt, o):
            return s
        return CStamp(next_start(s.dt, o, direction))

    return f


for _t in (Offset, FreqV):
    method(_t, "rollforward")(_roll(1))
    method(_t, "rollback")(_roll(-1))


@method(Offset, "is_on_offset")
def _onoff(I, a, k):
    return on_offset(a[1].dt, a[0]) if isinstance(a[1], CStamp) else I.top("is_on_offset")


def span_atom(d):
    """Seconds in a certain (calendar) period after a timestamp."""
    return E.num(d.seconds) if d.absolute else E.atom(f"span[{d!r}]")


PERIOD = {"Minute": DeltaV(seconds=900), "Hour": DeltaV(seconds=3600), "Day": DeltaV(days=1), "MonthBegin": DeltaV(months=1), "QuarterBegin": DeltaV(months=3), "YearBegin": DeltaV(months=12)}


def idx_span(i, d):
    """Seconds in a certain (calendar) period after each timestamp of an index."""
    if d.absolute:
        return E.num(d.seconds)
    f = i.freq
    if isinstance(f, Offset) and f.n == (15 if f.cls == "Minute" else 1) and PERIOD.get(f.cls) == d:
        return E.mul(E.atom(f"dur[{f.str}]"), E.num(3600))
    return E.atom(f"span[{d!r} after {'&'.join(sorted(i.ts))}]")


def time_ops(I, op, a, b):
    """Sums and differences of timestamps and periods; MISSING if it is none."""
    for x in (a, b):
        if hasattr(x, "sa_op"):
            return x.sa_op(I, op, a, b)
    if I.__dict__.get("elemwise", False) and op in ("Add", "Sub"):
        from .elem import ElemV, stamp

        if isinstance(a, Idx) and isinstance(b, DeltaV) and b.absolute:
            return ElemV.sa_op(None, I, op, stamp(a), b)
        if isinstance(b, Idx) and isinstance(a, DeltaV) and a.absolute and op == "Add":
            return ElemV.sa_op(None, I, op, a, stamp(b))
        if isinstance(a, Idx) and isinstance(b, Idx) and op == "Sub":
            return ElemV.sa_op(None, I, op, a, b)
    if isinstance(a, Idx) and isinstance(b, DeltaV) and op == "Sub" and a.stat is None:
        from .groups import shift_back

        r = shift_back(I, a, b)
        return r if r is not None else a.copy(ts={f"shift(-{b!r}; {'&'.join(sorted(a.ts))})"}, freq=None, stat=("-", b, a))
    if isinstance(a, DeltaV) and isinstance(b, (Idx, StampV)) and op == "Add":
        a, b = b, a
    if isinstance(a, Idx) and isinstance(b, DeltaV) and op == "Add" and a.stat is None:
        from .resample import shift_sod

        r = shift_sod(I, a, b)
        if r is not None:
            return r
        return a.copy(ts={f"shift(+{b!r}; {'&'.join(sorted(a.ts))})"}, freq=None if isinstance(a.freq, Offset) and not b.absolute else a.freq, stat=("+", b, a))
    if isinstance(a, Idx) and isinstance(b, Idx) and op == "Sub":
        if isinstance(a.stat, tuple) and a.stat[0] == "+" and a.stat[2].ts == b.ts:
            return SeriesV(idx_span(b, a.stat[1]), b, None, None, "td", True)
        if isinstance(b.stat, tuple) and b.stat[0] == "+" and b.stat[2].ts == a.ts:
            return SeriesV(E.neg(idx_span(a, b.stat[1])), a, None, None, "td", True)
    if isinstance(a, StampV) and isinstance(a.which, str) and a.idx is None and isinstance(b, DeltaV) and op == "Add":
        return StampV(("+", a.which, b), None)
    if isinstance(a, StampV) and isinstance(b, StampV) and op == "Sub":
        if isinstance(a.which, tuple) and a.which[0] == "+" and a.which[1] == b.which:
            return L.TdS(span_atom(a.which[2]))
        if isinstance(b.which, tuple) and b.which[0] == "+" and b.which[1] == a.which:
            return L.TdS(E.neg(span_atom(b.which[2])))
    if I.__dict__.get("stamp_terms") and isinstance(a, StampV) and isinstance(b, (L.TdS, StampV)):
        return L.stamp_op(I, op, a, b)
    td = lambda x: isinstance(x, L.TdS) or isinstance(x, SeriesV) and x.kind == "td"
    if td(a) or td(b):
        if op == "Div" and td(a) and (isinstance(b, DeltaV) and b.absolute or td(b)):
            e = E.div(a.expr, b.expr if td(b) else E.num(b.seconds))
            s = a if isinstance(a, SeriesV) else b
            return SeriesV(e, s.idx, None, s.name, "num", s.arr) if isinstance(s, SeriesV) else L.Num(e)
        n, t = (a, b) if td(b) else (b, a)
        if isinstance(n, (int, float)) and (op == "Mult" or op == "Div" and t is a):
            e = E.mul(t.expr, E.num(n)) if op == "Mult" else E.div(t.expr, E.num(n))
            return SeriesV(e, t.idx, None, t.name, "td", t.arr) if isinstance(t, SeriesV) else L.TdS(e)
        return I.top("calculation with time difference")
    return MISSING


@method(L.TdS, "total_seconds")
def _tds_total(I, a, k):
    return L.Num(a[0].expr)


@attr(L.TdS)
def tds_attr(I, o, name):
    return I.top(f"Timedelta.{name}")


OPS = {"Add": 1, "Sub": -1}


def binop(I, op, a, b):
    r = time_ops(I, op, a, b)
    if r is not MISSING:
        return r
    if isinstance(a, FreqV) and isinstance(b, (CStamp, int)):
        a = I.freq_concrete(a)
    if isinstance(b, FreqV) and isinstance(a, (CStamp, int)):
        b = I.freq_concrete(b)
    if isinstance(b, CStamp) and isinstance(a, (DeltaV, Offset)) and op == "Add":
        a, b = b, a
    if isinstance(a, CStamp):
        if isinstance(b, DeltaV) and op in OPS:
            return CStamp(add_delta(a.dt, b, OPS[op]))
        if isinstance(b, Offset) and op in OPS:
            r = add_offset(a.dt, b, OPS[op])
            return CStamp(r) if r is not None else I.top("offset")
        if isinstance(b, CStamp) and op == "Sub":
            return DeltaV(seconds=Fraction((a.dt - b.dt).total_seconds()))
    if isinstance(b, DeltaV) and isinstance(a, int) and op == "Mult":
        a, b = b, a
    if isinstance(a, DeltaV):
        if isinstance(b, DeltaV) and op in OPS:
            g = OPS[op]
            return DeltaV(a.months + g * b.months, a.days + g * b.days, a.seconds + g * b.seconds)
        if isinstance(b, (int, float)) and not isinstance(b, bool) and op == "Mult":
            if isinstance(b, int) or a.absolute:
                return DeltaV(a.months * b, a.days * b, a.seconds * Fraction(b))
        if isinstance(b, DeltaV) and op == "Div" and a.absolute and b.absolute and b.seconds:
            return Num(E.num(a.seconds / b.seconds)) if getattr(I, "exact", False) else float(a.seconds / b.seconds)
        if isinstance(b, DeltaV) and op == "Div" and a.absolute and b.absolute and getattr(I, "exact", False):
            return float("nan") if not a.seconds else I.top("infinite number")
        if isinstance(b, (int, float)) and op == "Div" and a.absolute and b:
            return DeltaV(seconds=a.seconds / Fraction(b))
    if isinstance(a, int) and isinstance(b, Offset) and op == "Mult":
        a, b = b, a
    if isinstance(a, Offset) and isinstance(b, int) and op == "Mult":
        return Offset(a.cls, a.n * b, a.month)
    return _old["binop"](I, op, a, b)


def compare_(I, op, a, b):
    if isinstance(a, (CStamp, DeltaV)) and type(a) is type(b) and op in ("Lt", "LtE", "Gt", "GtE"):
        if isinstance(a, CStamp):
            return L.PYCMP[op](a.dt, b.dt)
        if a.absolute and b.absolute:
            return L.PYCMP[op](a.seconds, b.seconds)
        I.raise_("TypeError", "unorderable DateOffset")
    return _old["compare"](I, op, a, b)


def equal(I, a, b):
    if isinstance(a, (CStamp, DeltaV)) and isinstance(b, (CStamp, DeltaV, str, int, float, type(None), Offset)):
        if isinstance(a, DeltaV) and isinstance(b, Offset) and b.cls in ("Hour", "Minute", "Second", "Day"):
            return a == offset_delta(I, b)
        return a == b
    if isinstance(b, (CStamp, DeltaV)) and isinstance(a, (str, int, float, type(None))):
        return False
    return _old["equal"](I, a, b)


L.binop, L.compare, L.equal = binop, compare_, equal

L.TYPEPATH["pandas.Timestamp"] = (lambda old: lambda v: isinstance(v, CStamp) or old(v))(L.TYPEPATH["pandas.Timestamp"])
L.TYPEPATH["datetime.datetime"] = (lambda old: lambda v: isinstance(v, CStamp) or old(v))(L.TYPEPATH["datetime.datetime"])
for _p in ("pandas.Timedelta", "datetime.timedelta"):
    L.TYPEPATH[_p] = (lambda old: lambda v: isinstance(v, DeltaV) and v.absolute or old(v))(L.TYPEPATH[_p])
L.TYPEPATH["pandas.DateOffset"] = (lambda old: lambda v: isinstance(v, DeltaV) and not v.absolute or old(v))(L.TYPEPATH["pandas.DateOffset"])


@ext("numpy.argmin", "numpy.argmax")
def _arg(I, a, k):
    return I.top("argmin/argmax")


def _argx(pick):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, (list, tuple)) and not v:
            I.raise_("ValueError", "argmin or argmax of an empty sequence")
        if isinstance(v, (list, tuple)):
            if all(isinstance(x, DeltaV) and x.absolute for x in v):
                v = [x.seconds for x in v]
            elif all(isinstance(x, CStamp) for x in v):
                v = [x.dt for x in v]
            if all(isinstance(x, (int, float, Fraction, _dt.datetime)) for x in v):
                return v.index(pick(v))
        return I.top("argmin/argmax")

    return f


ext("numpy.argmin")(_argx(min))
ext("numpy.argmax")(_argx(max))
