"""Timestamps on other wall clocks, and indices made from a start and an end.

The name of a set of timestamps carries how its wall clock differs from the original one, in a canonical form:
``X@tz[Z->None]@sod[T->00:00:00]``. Undoing a change gives the original name again."""

from __future__ import annotations

import re

from . import expr as E
from . import lib as L
from .interp import MISSING
from .lib import ext
from .pdlib import method, tsname, with_index
from .pylib import arg
from .values import FrameV, FreqV, Idx, Offset, SeriesV, StampV, TokV, TSet, parse_freq

RANK = {"Second": 0, "Minute": 1, "Hour": 2, "Day": 3, "MonthBegin": 4, "QuarterBegin": 5, "YearBegin": 6}
MIDNIGHT = TokV("sod", "00:00:00")


def rank(f):
    return RANK.get(f.cls) if isinstance(f, Offset) else None


def longest(*fs):
    fs = [f for f in fs if f is not None]
    if fs and all(rank(f) is not None for f in fs):
        return max(fs, key=rank)
    return fs[0] if fs and all(f is fs[0] for f in fs) else None


def moved(atom, what, frm, to):
    """Name of a set of timestamps after its timezone / start-of-day has been replaced."""
    if atom == "~empty":
        return atom
    frm, to = str(frm), str(to)
    base, *mods = re.split(r"@(?=(?:tz|conv|sod)\[[^\]]*\](?:@|$))", atom)
    d = {}
    for m in mods:
        w, f, t = re.fullmatch(r"(tz|conv|sod)\[(.*)->(.*)\]", m).groups()
        d[w] = (f, t)
    f0 = d[what][0] if what in d else frm
    d[what] = (f0, to)
    if f0 == to:
        del d[what]
    return base + "".join(f"@{w}[{f}->{t}]" for w, (f, t) in sorted(d.items()))


def move(I, ts, what, frm, to):
    return I.ts_norm(frozenset(moved(a, what, frm, to) for a in I.ts_norm(ts)))


def idx_tz(I, i, tz, conv):
    if conv and i.tz is None:
        I.raise_("TypeError", "Cannot convert tz-naive timestamps")
    if not conv and i.tz is not None and tz is not None:
        I.raise_("TypeError", "Already tz-aware")
    if I.truth(L.compare(I, "Eq", i.tz, tz)) if not (i.tz is None or tz is None) else i.tz is tz:
        return i.copy()
    return i.copy(ts=move(I, i.ts, "conv" if conv else "tz", i.tz, tz), tz=tz, freq=None)


def localized(I, o, tz):
    """Wall times of a place with clock changes; S01."""
    i = o if isinstance(o, Idx) else o.idx
    if I.localizable is not True:
        I.raise_(f"pytz.{I.localizable}TimeError", "cannot localize")
    j = i.copy(ts={f"local<{tsname(I, i)}, {tz!r}>"}, tz=tz, freq=None)
    return j if isinstance(o, Idx) else with_index(o, j)


def _mk_tz(conv):
    def f(I, a, k):
        if not conv and getattr(I, "localizes", False) and k.get("ambiguous") == "infer" and set(k) <= {"tz", "ambiguous"}:
            return localized(I, a[0], arg(a, k, 1, "tz"))
        if set(k) - {"tz", "copy"} or len(a) > 2:
            return I.top("tz options")
        tz = arg(a, k, 1, "tz")
        i = a[0] if isinstance(a[0], Idx) else a[0].idx
        j = idx_tz(I, i, tz, conv)
        return j if isinstance(a[0], Idx) else with_index(a[0], j)

    return f


for _t in (SeriesV, FrameV, Idx):
    L.METHODS[(_t, "tz_localize")] = _mk_tz(False)
    L.METHODS[(_t, "tz_convert")] = _mk_tz(True)


@method(Idx, "normalize")
def _inorm(I, a, k):
    i = a[0]
    if i.sod == MIDNIGHT:
        return i.copy()
    return i.copy(ts=move(I, i.ts, "sod", i.sod.name if isinstance(i.sod, TokV) else i.sod, MIDNIGHT.name), sod=MIDNIGHT)


class DateV:
    """Date of a timestamp."""

    def __init__(self, stamp):
        self.stamp = stamp

    def __repr__(self):
        return f"date of {self.stamp}"


@method(StampV, "date")
def _sdate(I, a, k):
    return DateV(a[0])


@ext("datetime.datetime.combine", "pandas.Timestamp.combine")
def _combine(I, a, k):
    if len(a) == 2 and isinstance(a[0], DateV) and isinstance(a[1], TokV) and a[1].kind == "sod" and not k:
        s = a[0].stamp
        if s.idx is not None and s.idx.sod == MIDNIGHT and s.which in ("min", "max", "end"):
            i = s.idx.copy(ts=move(I, s.idx.ts, "sod", MIDNIGHT.name, a[1].name), sod=a[1])
            if i.tz is not None:
                i = i.copy(ts=move(I, i.ts, "tz", i.tz, None), tz=None)
            return StampV(s.which, i)
    return I.top("combine")


@ext("pandas.date_range")
def _date_range(I, a, k):
    start, end, freq = arg(a, k, 0, "start"), arg(a, k, 1, "end"), arg(a, k, 3, "freq")
    tz, name, incl = arg(a, k, 4, "tz"), arg(a, k, 6, "name"), arg(a, k, 7, "inclusive", "both")
    if set(k) - {"start", "end", "freq", "tz", "name", "inclusive"} or len(a) > 4:
        return I.top("date_range")
    if isinstance(freq, str):
        freq = parse_freq(freq)
    if not (isinstance(start, StampV) and isinstance(end, StampV) and start.idx is not None and end.idx is not None and isinstance(freq, (Offset, FreqV))):
        return I.top("date_range")
    i, j = start.idx, end.idx
    if i.tz is None and j.tz is None and tz is not None:
        i = i.copy(ts=move(I, i.ts, "tz", None, tz), tz=tz)
        j = j.copy(ts=move(I, j.ts, "tz", None, tz), tz=tz)
    elif tz is not None and (i.tz is None or j.tz is None or not I.truth(L.compare(I, "Eq", i.tz, tz)) or not I.truth(L.compare(I, "Eq", j.tz, tz))):
        I.raise_("AssertionError", "Inferred time zone not equal to passed time zone")
    elif (i.tz is None) != (j.tz is None):
        I.raise_("TypeError", "Start and end cannot both be tz-aware with different timezones")
    elif i.tz is not None and not I.truth(L.compare(I, "Eq", i.tz, j.tz)):
        I.raise_("TypeError", "Start and end cannot both be tz-aware with different timezones")
    if i.grain is None:
        fits = True
    elif isinstance(freq, Offset) and isinstance(i.grain, Offset):
        fits = rank(freq) < rank(i.grain) or freq == i.grain
    else:
        fits = freq is i.grain or I.truth(L.freq_eq(I, freq, i.grain))
    ok = start.which == "min" and (end.which == "end" and incl == "left" or end.which == "max" and incl == "both" and (i.grain is None or freq is i.grain or freq == i.grain))
    if ok and fits and I.ts_same(i.ts, j.ts) and i.sod == j.sod:
        return i.copy(freq=freq, name=name)
    return i.copy(ts={f"(range {start.which} of {tsname(I, i)}, {end.which} of {tsname(I, j)}, {freq}, {incl})"}, freq=freq, name=name)


@method(TSet, "intersection")
def _tint(I, a, k):
    s = a[0].idx
    ts, freq = s.ts, s.grain
    for o in a[1:]:
        oi = o if isinstance(o, Idx) else (o.idx if isinstance(o, TSet) else None)
        if oi is None:
            return I.top("intersection of timestamps with unknown")
        if (s.tz is None) != (oi.tz is None):
            # naive and aware timestamps are never equal
            ts = frozenset(["~empty"])
        elif s.tz != oi.tz:
            ts = frozenset(ts) | {f"(same moment as {tsname(I, oi)})"}
        elif s.sod != oi.sod and not ("~empty" in ts or "~empty" in oi.ts):
            # periods that start at another time of day
            ts = frozenset(["~empty"]) if (rank(s.grain) or 0) >= 3 else frozenset(ts) | {f"(same moment as {tsname(I, oi)})"}
        else:
            ts = I.ts_inter(ts, oi.ts)
        freq = longest(freq, oi.grain)
    return TSet(s.copy(ts=ts, freq=None, grain=freq), "set")


# ---- only full periods

def trimmed(I, i, freq):
    f = parse_freq(freq) if isinstance(freq, str) else freq
    if not isinstance(f, (Offset, FreqV)):
        I.raise_("ValueError", f"frequency {freq!r}")
    if i.freq is None:
        I.raise_("ValueError", "no frequency")
    if rank(f) is not None and rank(i.freq) is not None and (rank(f) < rank(i.freq) or f == i.freq) or f is i.freq:
        return i.copy()
    ts = I.ts_norm(i.ts)
    if ts == frozenset(["~empty"]):
        I.raise_("IndexError", "empty index")
    nm = f"full({tsname(I, i)} -> {f.str if isinstance(f, Offset) else f.name})"
    if len(ts) == 1 and re.fullmatch(r"full\(.* -> (\S+)\)", next(iter(ts))):
        g = parse_freq(re.fullmatch(r"full\(.* -> (\S+)\)", next(iter(ts)))[1])
        if rank(g) is not None and rank(f) is not None and (g == f or rank(f) < rank(g)):
            return i.copy()
    return i.copy(ts={nm})
