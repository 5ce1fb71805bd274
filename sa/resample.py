"""Model of pandas' ``.resample()`` on gapless data with start-of-day.

What matters (and what the model knows):
- periods of an hour or shorter: bins are aligned with the data, whatever the start-of-day;
- days: bins start at midnight plus ``offset``;
- longer periods: bins start at midnight of the first day, ``offset`` is ignored; hence (a) shorter-than-daily values that
  do not start at midnight end up in the wrong bin, and (b) the labels of the others lose their start-of-day;
- upsampling fills up to the last timestamp only, so that the last period is incomplete unless a row is added after it."""

from __future__ import annotations

import re

from . import expr as E
from . import lib as L
from .lib import Native
from .pdlib import method, tsname
from .pylib import arg
from .spans import MIDNIGHT, moved, rank
from .timelib import DeltaV
from .values import FrameV, Idx, Offset, SeriesV, StampV, TokV, U, parse_freq


def seconds(sod):
    if isinstance(sod, TokV) and re.fullmatch(r"\d\d:\d\d:\d\d", sod.name):
        h, m, s = map(int, sod.name.split(":"))
        return h * 3600 + m * 60 + s
    return None


def shift_sod(I, i, d):
    """Index plus a duration less than a day, if it starts at midnight."""
    if d.months or d.days or not 0 <= d.seconds < 86400 or seconds(i.sod) != 0 or rank(i.grain) is None:
        return None
    if d.seconds == 0:
        return i.copy()
    if rank(i.grain) < 4:
        return None  # fails at clock changes
    h, m = divmod(int(d.seconds) // 60, 60)
    sod = TokV("sod", f"{h:02}:{m:02}:00")
    return i.copy(ts={moved(a, "sod", MIDNIGHT.name, sod.name) for a in i.ts}, sod=sod, freq=None, grain=i.grain)


class ResV:
    """Result of .resample()."""

    def __init__(self, o, freq, offset):
        self.o, self.freq, self.offset = o, freq, offset


def _resample(I, a, k):
    o = a[0]
    freq, offset = arg(a, k, 1, "rule"), k.get("offset")
    if isinstance(freq, str):
        freq = parse_freq(freq)
    extra = {n: v for n, v in k.items() if n not in ("rule", "offset")}
    for n, v in {"closed": "left", "label": "left", "axis": 0, "origin": "start_day", "level": None, "on": None, "group_keys": False, "kind": None}.items():
        if n in extra and (extra[n] is None or extra[n] == v):
            del extra[n]
    if len(a) > 2 or extra or not isinstance(freq, Offset) or rank(freq) is None or rank(o.idx.grain) is None or seconds(o.idx.sod) is None:
        return I.top("resample")
    if offset is not None and not (isinstance(offset, DeltaV) and not offset.months and not offset.days):
        return I.top("resample offset")
    return ResV(o, freq, offset)


for _t in (SeriesV, FrameV):
    L.METHODS[(_t, "resample")] = _resample


def bins(I, r):
    """(index of the result, is each bin exactly one period)."""
    i, f = r.o.idx, r.freq
    off = int(r.offset.seconds) if r.offset is not None else 0
    sod = seconds(i.sod)
    down = rank(f) >= rank(i.grain)
    base = frozenset(a for a in I.ts_norm(i.ts))
    if base == frozenset(["~empty"]):
        return i.copy(freq=f), True
    if down:
        full = rank(f) == rank(i.grain) or len(base) == 1 and (m := re.fullmatch(r"full\(.* -> (\S+)\)", next(iter(base)))) and _fits(m[1], f)
        ts = base if full else frozenset([f"any({tsname(I, i)} -> {f.str})"])
    else:
        # all periods within the (longer) periods that there are values for
        ts = base if len(base) == 1 and re.fullmatch(r"full\(.* -> (\S+)\)", next(iter(base))) else frozenset([f"full({tsname(I, i)} -> {i.grain.str})"])
        if ts != base and I.known_nonempty(base):
            I.trace.facts[("nonempty", ts)] = True
    if rank(f) < 3:
        return i.copy(ts=ts, freq=f), True
    if f.cls == "Day":
        if off == sod:
            return i.copy(ts=ts, freq=f), True
        lab = TokV("sod", f"{off // 3600:02}:{off % 3600 // 60:02}:00")
    else:
        lab = MIDNIGHT
    j = i.copy(ts={moved(a, "sod", i.sod.name, lab.name) if lab != i.sod else a for a in ts}, freq=f, sod=lab)
    exact = lab == i.sod or down and rank(i.grain) >= 3 and f.cls != "Day"
    return j, exact


def _fits(g, f):
    g = parse_freq(g)
    return isinstance(g, Offset) and (g == f or rank(g) is not None and rank(f) < rank(g))


def const_on(a, f):
    """Is the atom constant during a period of frequency f."""
    m = re.match(r"up<([^>]*)>\(", a)
    if not m:
        return False
    g = parse_freq(m[1])
    return g == f or isinstance(g, Offset) and rank(g) > rank(f)


def total(e, f, g):
    """Sum over all values (of frequency g) in a period of frequency f."""

    def one(x):
        out = E.ZERO
        for m, c in E.simplify(x).t.items():
            keep, rest = E.num(c), []
            for a, n in m:
                if const_on(a, f):
                    keep = E.mul(keep, power(E.atom(a), n))
                else:
                    rest.append((a, n))
            if rest == [(f"dur[{g.str}]", 1)]:
                s = E.atom(f"dur[{f.str}]")
            elif len(rest) == 1 and rest[0][1] == 1 and (mm := re.fullmatch(r"S\[([^\]]*)\]\((.*)\)", rest[0][0])) and mm[1] == g.str:
                s = E.atom(f"S[{f.str}]({mm[2]})")
            else:
                s = E.atom(f"S[{f.str}]({E.Rat({tuple(rest): E.Fraction(1)})!r})")
            out = E.add(out, E.mul(keep, s))
        return out

    if e is E.UNK or e is E.NAN:
        return e
    if isinstance(e, E.Ite):
        return E.UNK
    return one(e)


def power(x, n):
    r = E.ONE
    for _ in range(abs(n)):
        r = E.mul(r, x) if n > 0 else E.div(r, x)
    return r


def spread(e, g):
    """Value of the period (of frequency g) that contains the timestamp."""
    return E.rename(e, lambda a: a if re.match(r"up<", a) else f"up<{g.str}>({a})")


def _aggregate(how):
    def f(I, a, k):
        r = a[0]
        if a[1:] or {x: v for x, v in k.items() if v not in (0, None, False)}:
            return I.top("options of aggregation")
        j, exact = bins(I, r)
        g, F = r.o.idx.grain, r.freq
        up = rank(F) < rank(g)

        def one(s):
            if s.kind not in ("num", "int"):
                return I.top("aggregation of other data")
            if up:
                e = E.rename(s.expr, lambda x: f"first<{g.str}>({x})")
            elif not exact:
                e = E.rename(s.expr, lambda x: f"partial<{F.str}>({x})")
            elif g == F:
                e = s.expr
            elif how == "sum":
                e = total(s.expr, F, g)
            elif how == "mean":
                if rank(g) < 3:
                    e = E.div(total(E.mul(s.expr, E.atom(f"dur[{g.str}]")), F, g), E.atom(f"dur[{F.str}]"))  # periods of equal length
                else:
                    e = E.div(total(s.expr, F, g), E.atom(f"number of {g.str} per {F.str}"))
            else:
                e = E.rename(s.expr, lambda x: f"{how}<{F.str}>({x})")
            unit = s.unit if how != "count" else None
            return SeriesV(e, j2, unit, s.name, "num")

        j2 = j.copy(ts={f"short({x})" for x in j.ts}) if up else j
        if isinstance(r.o, FrameV):
            return FrameV({c: one(s) for c, s in r.o.cols.items()}, j2)
        return one(r.o)

    return f


for _n in ("sum", "mean", "first", "last", "min", "max", "median", "count"):
    L.METHODS[(ResV, _n)] = _aggregate(_n)


def _fill(how):
    def f(I, a, k):
        r = a[0]
        if a[1:] or k:
            return I.top("options of fill")
        i, g, F = r.o.idx, r.o.idx.grain, r.freq
        if rank(F) >= rank(g):
            return I.top("fill when downsampling")
        j, exact = bins(I, r)
        if i.stat is not None and i.stat[0] == "extra row":
            j = j.copy(stat=("extra row",))
        else:
            j = j.copy(ts={f"short({x})" for x in j.ts})
        if how != "ffill":
            exact = False

        def one(s):
            e = spread(s.expr, g) if exact else E.rename(s.expr, lambda x: f"{how}<{F.str}>({x})")
            return SeriesV(e, j, s.unit, s.name, s.kind)

        if isinstance(r.o, FrameV):
            return FrameV({c: one(s) for c, s in r.o.cols.items()}, j)
        return one(r.o)

    return f


for _n in ("ffill", "pad", "bfill", "backfill", "asfreq", "nearest", "interpolate"):
    L.METHODS[(ResV, _n)] = _fill("ffill" if _n == "pad" else "bfill" if _n == "backfill" else _n)


def add_row(I, o, k, v):
    """frame.loc[stamp, :] = None for the end of the last period: True if it is modelled."""
    if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None):
        k = k[0]
    if not (isinstance(k, StampV) and k.which == "end" and k.idx is not None and I.ts_same(k.idx.ts, o.idx.ts) and isinstance(v, (type(None), float)) and (v is None or v != v)):
        return False
    if o.idx.stat is not None:
        return False
    new = o.idx.copy(stat=("extra row",), freq=None)
    o.idx = new
    if isinstance(o, FrameV):
        o.cols = {c: SeriesV(s.expr, new, s.unit, s.name, s.kind) for c, s in o.cols.items()}
    return True


def drop_row(I, i, k):
    """Index after i[k] if k removes the row that was added at the end; else None."""
    if i.stat is not None and i.stat[0] == "extra row" and k == slice(None, -1):
        return i.copy(stat=None)
    return None
