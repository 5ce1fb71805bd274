"""P01, P02: what is decided by the calendar fields of a timestamp (period starts, rounding, peak hours)."""

from __future__ import annotations

import datetime as dt

from . import fields as F
from . import timelib as T
from .contexts import load
from .contracts import bound
from .interp import MISSING
from .pylib import IterV
from .report import Undecided
from .timelib import CStamp
from .values import Top, TokV, parse_freq

FREQS = ("15min", "h", "D", "MS", "QS", "YS")
MONTHS = {"MS": 1, "QS": 3, "YS": 12}
BODIES = ("tools.right.index", "tools.right.stamp", "tools.floor.stamp", "tools.ceil.stamp", "tools.isboundary.stamp", "tools.isboundary.index", "tools.startofday.get", "tools.startofday.set",
          "tools.trim.index", "tools.peakfn.peak_duration", "tools.round.stamp_general", "tools.round.stamp_current", "tools.leftandright.stamps", "tools.stamp.create")


def engine(I):
    J = load(str(I.pkg.root), BODIES)
    J.no_year = True
    return J


def sod(t):
    return None if t is None else TokV("sod", t.strftime("%H:%M:%S"))


SODS = (dt.time(0), dt.time(6))
ODD = (*SODS, dt.time(5, 45))  # not for an index with hourly (or longer) values


def dates(years=(2023, 2024), months=range(1, 13)):
    """First, second and last day of each month, in a common and in a leap year."""
    for y in years:
        for m in months:
            first = dt.datetime(y, m, 1)
            yield from (first, first + dt.timedelta(days=1), T.add_months(first, 1) - dt.timedelta(days=1))


def times(s):
    """Times of day before, at, and after the start of the day."""
    base = dt.datetime.combine(dt.date(2020, 1, 2), s)
    out = [base + dt.timedelta(minutes=m) for m in (-15, -1, 0, 1, 15, 420)] + [base + dt.timedelta(seconds=30)]
    return sorted({x.time() for x in out} | {dt.time(0), dt.time(23, 45)})


# ---- what should come out

def boundary(t, f, s):
    if f == "15min":
        return t.minute % 15 == 0 and t.second == 0
    if f == "h":
        return t.minute == 0 and t.second == 0
    if t.time() != s:
        return False
    return f == "D" or t.day == 1 and (t.month - 1) % MONTHS[f] == 0


def period_start(t, f, s):
    if f in ("15min", "h"):
        return t.replace(minute=t.minute // 15 * 15 if f == "15min" else 0, second=0)
    day = dt.datetime.combine(t.date(), s)
    if t.time() < s:
        day -= dt.timedelta(days=1)
    if f == "D":
        return day
    return day.replace(day=1, month=(day.month - 1) // MONTHS[f] * MONTHS[f] + 1)


def later(t, f, n):
    if f in MONTHS:
        return T.add_months(t, n * MONTHS[f])
    return t + n * {"15min": dt.timedelta(minutes=15), "h": dt.timedelta(hours=1), "D": dt.timedelta(days=1)}[f]


def rounded(fn, t, f, s, future=0):
    start = period_start(t, f, s)
    if fn == "ceil" and start != t:
        start = later(start, f, 1)
    return later(start, f, future)


# ---- comparing

def judge(want, text="is"):
    def j(o):
        v = o.value
        if o.kind == "raise":
            return f"raises {v.typ.name}"
        if isinstance(v, Top):
            return Undecided(repr(v))
        if isinstance(want, tuple):
            if not isinstance(v, (tuple, list)) or len(v) != len(want):
                return f"gives {v!r}"
            if any(isinstance(x, Top) for x in v):
                return Undecided("unknown timestamp")
            got = tuple(x.dt if isinstance(x, CStamp) else x for x in v)
        elif isinstance(want, dt.datetime):
            if not isinstance(v, CStamp):
                return f"gives {v!r}"
            got = v.dt
        else:
            got = v
        if got != want:
            show = lambda x: f"({', '.join(map(show, x))})" if isinstance(x, tuple) else f"{x:%d %b %H:%M:%S} (year {x.year - 2023:+})" if isinstance(x, dt.datetime) else repr(x)  # noqa: E731
            return f"{text} {show(got)}, should be {show(want)}"
        return None

    return j


def error(o):
    return None if o.kind == "raise" and o.value.typ.name == "ValueError" else Undecided(repr(o.value)) if isinstance(o.value, Top) else "no ValueError"


def judge_all(stamps, want):
    """One truth value for each timestamp."""

    def j(o):
        v = o.value
        if o.kind == "raise":
            return f"raises {v.typ.name}"
        if isinstance(v, Top):
            return Undecided(repr(v))
        if not isinstance(v, F.VecS) or len(v) != len(stamps):
            return f"gives {v!r}"[:200]
        if [x.dt for x in v.idx] != stamps:
            return "has another index"
        for t, x, y in zip(stamps, v, want):
            if not isinstance(x, bool):
                return Undecided(f"unknown value {x!r}")
            if x != y:
                return f"is {x} for {t:%a %d %b %H:%M:%S}, should be {y}"
        return None

    return j


# ---- P01

def boundaries(rep, I, tier):
    J = engine(I)
    one, index = J.find("tools.isboundary:stamp"), J.find("tools.isboundary:index")
    for f in FREQS:
        for s in (None, *ODD):
            t0 = s or dt.time(0)
            if f in ("15min", "h"):
                stamps = [dt.datetime(2023, 5, 17, h, m, sec) for h in (0, 7) for m in range(60) for sec in (0, 30)]
            else:
                stamps = [dt.datetime.combine(d, t) for d in dates((2024,)) for t in times(t0)]
            for t in stamps:
                rep.explore(J, "P01.boundary", f"is {t:%d %b %H:%M:%S} the start of a period? frequency {f}, start of day {s}", lambda J: J.call(one, [CStamp(t), f, sod(s)] if s else [CStamp(t), f], {}), judge(boundary(t, f, t0)))
    for fi in FREQS:
        for f in FREQS:
            for s in ODD if fi == "15min" else SODS:
                stamps = in_freq(fi, s)

                def go(J):
                    return J.call(index, [F.VecIdx([CStamp(t) for t in stamps], parse_freq(fi)), f], {})

                rep.explore(J, "P01.index", f"which timestamps of an index ({fi}, start of day {s}) are starts of a period? frequency {f}", go, judge_all(stamps, [boundary(t, f, s) for t in stamps]))


def in_freq(f, s, full=False):
    """Timestamps that an index of this frequency may have."""
    if f in MONTHS:
        return [dt.datetime.combine(d, s) for d in dates() if d.day == 1 and (d.month - 1) % MONTHS[f] == 0]
    ds = [dt.datetime.combine(d, s) for d in dates((2024,))]
    if f == "D":
        return ds
    step = dt.timedelta(minutes=15 if f == "15min" else 60)
    return [d + n * step for d in (ds[::4] if not full else ds) for n in range(int(dt.timedelta(days=1) / step))]


def rounding(rep, I, tier):
    J = engine(I)
    for fn in ("floor", "ceil"):
        fun = J.find(f"tools.{fn}:stamp")

        def one(t, f, s, future=MISSING):
            a, k = [CStamp(t), f], {}
            if future is not MISSING:
                k["future"] = future
            if s is not None:
                k["start_of_day"] = sod(s)
            want = rounded(fn, t, f, s or dt.time(0), 0 if future is MISSING else future)
            rep.explore(J, f"P01.{fn}", f"{fn} {t:%d %b %H:%M:%S} (year {t.year - 2023:+}): frequency {f}, start of day {s}, {future if future is not MISSING else 0} periods later",
                        lambda J: J.call(fun, list(a), dict(k)), judge(want))

        for f in ("15min", "h"):
            for t in [dt.datetime(2023, 12, 31, h, m, sec) for h in (0, 6, 23) for m in range(60) for sec in (0, 30)]:
                one(t, f, None)
            for t in (dt.datetime(2023, 12, 31, 23, 52), dt.datetime(2023, 5, 17, 6, 0), dt.datetime(2023, 5, 17, 6, 15)):
                for n in (-1, 0, 1, 3):
                    one(t, f, None, n)
                    one(t, f, dt.time(6), n)
        for f in ("D", "MS", "QS", "YS"):
            for d in dates():
                for s in ODD:
                    for t in times(s):
                        one(dt.datetime.combine(d, t), f, s)
            for d in dates((2023,)):
                for t in times(dt.time(0)):
                    one(dt.datetime.combine(d, t), f, None)
                for s in ODD:
                    for n in (-2, -1, 1, 2):
                        one(d + dt.timedelta(hours=5), f, s, n)
                        if d.day == 1:
                            one(dt.datetime.combine(d, s), f, s, n)


def delivery(rep, I, tier):
    J = engine(I)
    fun, both = J.find("tools.product:delivery_period"), J.find("tools.leftandright:stamps")
    for d in dates((2023,)):
        for hour in (0, 13):
            for s in (None, dt.time(6)):
                for typ, f in (("d", "D"), ("m", "MS"), ("q", "QS"), ("y", "YS"), ("s", None)):
                    for n in (MISSING, 2, 3):
                        k = {} if n is MISSING else {"front_count": n}
                        if s is not None:
                            k["start_of_day"] = sod(s)
                        m, t0 = 1 if n is MISSING else n, s or dt.time(0)
                        day = dt.datetime.combine(d, t0)
                        if f:
                            left = later(period_start(day, f, t0), f, m)
                            want = (left, later(left, f, 1))
                        else:
                            left = T.add_months(day.replace(day=1), 1)
                            while left.month not in (4, 10):
                                left = T.add_months(left, 1)
                            left = T.add_months(left, 6 * (m - 1))
                            want = (left, T.add_months(left, 6))
                        rep.explore(J, "P01.delivery", f"delivery period {typ}, number {m}, of trade on {d:%d %b} {hour}:00; start of day {s}",
                                    lambda J: J.call(fun, [CStamp(d + dt.timedelta(hours=hour)), typ], dict(k)), judge(want))
    for a in dates((2023,)):
        for s in SODS:
            t = dt.datetime.combine(a, s)
            nextyear = dt.datetime.combine(dt.date(2024, 1, 1), s)
            thisyear = dt.datetime.combine(dt.date(2023, 1, 1), s)
            start = thisyear if t != thisyear else thisyear.replace(year=2022)
            rep.explore(J, "P01.pair", f"delivery period with left side {t:%d %b %H:%M}", lambda J: J.call(both, [CStamp(t)], {}), judge((t, nextyear)))
            rep.explore(J, "P01.pair", f"delivery period with right side {t:%d %b %H:%M}", lambda J: J.call(both, [], {"right": CStamp(t)}), judge((start, t)))
            u = t + dt.timedelta(days=40)
            rep.explore(J, "P01.pair", f"delivery period with both sides, {t:%d %b %H:%M} first", lambda J: J.call(both, [CStamp(t), CStamp(u)], {}), judge((t, u)))
            rep.explore(J, "P01.pair", f"delivery period with both sides, {t:%d %b %H:%M} last", lambda J: J.call(both, [CStamp(u), CStamp(t)], {}), judge((t, u)))
            rep.explore(J, "P01.pair", f"delivery period with both sides at distinct times of day, {t:%d %b %H:%M}", lambda J: J.call(both, [CStamp(t), CStamp(u + dt.timedelta(hours=1))], {}), error)


def start_of_day(rep, I, tier):
    J = engine(I)
    get, fun = J.find("tools.startofday:get"), J.find("tools.startofday:set")
    texts = {"time": lambda s: sod(s), "str": lambda s: s.strftime("%H:%M:00"), "timedelta": lambda s: T.DeltaV(seconds=s.hour * 3600 + s.minute * 60), MISSING: lambda s: sod(s)}
    for f in FREQS:
        for s in (*SODS, dt.time(5, 45)):
            stamps = in_freq(f, s)
            i = lambda: F.VecIdx([CStamp(t) for t in stamps], parse_freq(f))  # noqa: E731
            for typ, want in texts.items():
                def j(o, want=want(s)):
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}"
                    if isinstance(o.value, Top):
                        return Undecided(repr(o.value))
                    same = o.value.name == want.name if isinstance(want, TokV) and isinstance(o.value, TokV) else o.value == want
                    return None if same else f"gives {o.value!r}, should be {want!r}"

                rep.explore(J, "P01.get", f"start of day of an index ({f}, {s}) as {'default' if typ is MISSING else typ}", lambda J: J.call(get, [i()] if typ is MISSING else [i(), typ], {}), j)
            for new in (*SODS, dt.time(5, 45)):
                if f in ("15min", "h"):
                    if f == "h" and new.minute != s.minute:
                        continue
                    step = dt.timedelta(minutes=15 if f == "15min" else 60)
                    n = int(dt.timedelta(days=1) / step)
                    stamps2 = [dt.datetime.combine(dt.date(2023, 12, 30), s) + m * step for m in range(3 * n)]
                    lo = next(x for x, t in enumerate(stamps2) if t.time() == new)
                    hi = max(x for x, t in enumerate(stamps2) if (t + step).time() == new)
                    want = stamps2[lo : hi + 1]
                else:
                    stamps2 = stamps
                    want = [dt.datetime.combine(t.date(), new) for t in stamps2]

                def go(J):
                    return J.call(fun, [F.VecIdx([CStamp(t) for t in stamps2], parse_freq(f)), sod(new)], {})

                def j(o):
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}"
                    if not isinstance(o.value, F.VecIdx):
                        return Undecided(repr(o.value)) if isinstance(o.value, Top) else f"gives {o.value!r}"[:150]
                    if o.value.freq != parse_freq(f):
                        return f"has frequency {o.value.freq}, should be {f}"
                    return None if [x.dt for x in o.value] == want else "has other timestamps than those from the (first) start to the (last) end of a day"

                rep.explore(J, "P01.set", f"index ({f}, start of day {s}) gets start of day {new}", go, j)


def left_bound(rep, I, tier):
    """Left-bound timestamps of right-bound ones, with and without gaps."""
    J = engine(I)
    p = J.pkg.name
    fun = J.find("tools.righttoleft:index")

    def guess(I, f, args, kwargs):
        i = next(iter(bound(I, f, args, kwargs).values()))
        if not isinstance(i, F.VecIdx):
            return MISSING
        return F.VecIdx(list(i), parse_freq(I.inferred)) if i.freq is None and I.inferred else i

    J.contracts[f"{p}.tools.freq.guess_to_index"] = guess
    J.contracts[f"{p}.tools.freq.assert_freq_valid"] = lambda *a: None
    start = {"15min": dt.datetime(2023, 3, 26), "h": dt.datetime(2023, 3, 26), "D": dt.datetime(2024, 2, 25)}
    for f in FREQS:
        for s in ODD if f == "15min" else SODS:
            for n in (3, 8):
                t0 = dt.datetime.combine(start.get(f, dt.datetime(2023, 1, 1)), s)
                left = [later(t0, f, x) for x in range(n)]
                right = [later(t0, f, x + 1) for x in range(n)]
                cases = [(h, e, None, right, left) for h in ("frequency", "guessable") for e in (MISSING, "A", "B")]
                if n == 8:
                    gap = right[:3] + right[4:]  # one is missing, where clocks go forward
                    cases += [("gap", e, "A", gap, left[:3] + left[4:]) for e in (MISSING, "A")]
                    cases += [("gap", "B", "B", gap, left[:1] + gap[:-1])]
                    if f in ("15min", "h"):
                        twice = right[:4] + right[3:]  # one is repeated, where clocks go back
                        cases += [("repeated", e, "A", twice, left[:4] + left[3:]) for e in (MISSING, "A")]
                        cases += [("repeated", "B", "B", twice, left[:1] + twice[:-1])]
                for has, how, _, given, want in cases:
                    def go(J):
                        J.inferred = f if has == "guessable" else None
                        i = F.VecIdx([CStamp(t) for t in given], parse_freq(f) if has == "frequency" else None)
                        return J.call(fun, [i], {} if how is MISSING else {"how": how})

                    def j(o):
                        v = o.value
                        if o.kind == "raise":
                            return f"raises {v.typ.name}{v.args[:1]}"
                        if isinstance(v, Top) or isinstance(v, list) and any(not isinstance(x, CStamp) for x in v):
                            return Undecided(repr(v))
                        if not isinstance(v, F.VecIdx):
                            return f"gives {v!r}"[:150]
                        got = [x.dt for x in v]
                        if got == want:
                            return None
                        x = next((x for x, (g, w) in enumerate(zip(got, want)) if g != w), None)
                        if x is None:
                            return f"has {len(got)} timestamps, should have {len(want)}"
                        return f"timestamp {x} is {got[x]:%d %b %H:%M}, should be {want[x]:%d %b %H:%M}"

                    rep.explore(J, "S01.left", f"left-bound timestamps from {n} right-bound ones ({f}, start of day {s}, {has}), how {'default' if how is MISSING else how}", go, j)


def P01(rep, I, tier):
    rep.group("boundary", boundaries, I, tier)
    rep.group("rounding", rounding, I, tier)
    rep.group("delivery", delivery, I, tier)
    rep.group("startofday", start_of_day, I, tier)


# ---- P02

DAYS = {"default": MISSING, "none given": None, "Mon-Fri": [1, 2, 3, 4, 5], "weekend": [6, 7], "Wed": [3], "Mon-Sat": [1, 2, 3, 4, 5, 6], "all": [1, 2, 3, 4, 5, 6, 7], "no day": [], "set": {1, 7}, "range": range(2, 5), "iterator": "iter"}


def week(f, s=dt.time(0)):
    step = {"15min": dt.timedelta(minutes=15), "h": dt.timedelta(hours=1), "D": dt.timedelta(days=1)}[f]
    first = dt.datetime.combine(dt.date(2023, 12, 28), s)
    return [first + n * step for n in range(int(dt.timedelta(days=8) / step))]


def P02(rep, I, tier):
    rep.group("peak", peaks, I, tier)


def peaks(rep, I, tier):
    J = engine(I)
    factory = J.find("tools.peakfn:factory")
    T0 = dt.time(0)
    lefts = (MISSING, None, T0, dt.time(8), dt.time(7, 30), dt.time(0, 15), dt.time(23))
    rights = (MISSING, None, T0, dt.time(20), dt.time(19, 45), dt.time(9), dt.time(0, 30))
    for lt in lefts:
        for rt in rights:
            left, right = lt if isinstance(lt, dt.time) else T0, rt if isinstance(rt, dt.time) else T0
            if right != T0 and left >= right:
                continue
            for dn, days in DAYS.items():
                if dn not in ("default", "Mon-Fri", "all", "no day") and (lt, rt) not in ((dt.time(8), dt.time(20)), (MISSING, MISSING), (dt.time(7, 30), dt.time(19, 45))):
                    continue
                use = {1, 2, 3, 4, 5} if days is MISSING or days is None else {2, 6} if days == "iter" else set(days)
                k = {n: sod(t) if isinstance(t, dt.time) else None for n, t in (("peak_left", lt), ("peak_right", rt)) if t is not MISSING}
                what = f"peak from {left:%H:%M} to {right:%H:%M}, days {dn}" + ("" if lt is not MISSING and rt is not MISSING else ", with defaults")

                def make(J):
                    kk = dict(k)
                    if days is not MISSING:
                        kk["isoweekdays"] = IterV([2, 6]) if days == "iter" else list(days) if isinstance(days, list) else days
                    return J.call(factory, [], kk)

                timed = not left == right == T0
                if not use or not timed and len(use) == 7:
                    rep.explore(J, "P02.pointless", what, make, error)
                    continue
                longest = "D" if not timed else "h" if left.minute == right.minute == 0 else "15min"
                for f in FREQS:
                    if FREQS.index(f) > FREQS.index(longest):
                        stamps = in_freq(f, T0) if f in MONTHS else week(f)
                        rep.explore(J, "P02.long", f"{what}: frequency {f}", lambda J: J.call(make(J), [F.VecIdx([CStamp(t) for t in stamps], parse_freq(f))], {}), error)
                        continue
                    for s in ODD if f == "15min" else SODS:
                        stamps = week(f, s)
                        want = [(t.time() >= left and (right == T0 or t.time() < right) or not timed) and t.isoweekday() in use for t in stamps]
                        rep.explore(J, "P02.peak", f"{what}: frequency {f}, start of day {s}", lambda J: J.call(make(J), [F.VecIdx([CStamp(t) for t in stamps], parse_freq(f))], {}), judge_all(stamps, want))
    for bad in (dt.time(8, 7), dt.time(0, 1), dt.time(19, 50)):
        rep.explore(J, "P02.odd", f"peak starts at {bad:%H:%M}", lambda J: J.call(factory, [sod(bad), sod(dt.time(20))], {}), error)
        rep.explore(J, "P02.odd", f"peak ends at {bad:%H:%M}", lambda J: J.call(factory, [None, sod(bad)], {}), error)
        rep.explore(J, "P02.odd", f"peak starts and ends at that many minutes: {bad:%M}", lambda J: J.call(factory, [sod(bad.replace(hour=8)), sod(bad.replace(hour=20))], {}), error)
    changed = [1, 2]

    def go(J):
        days = list(changed)
        fn = J.call(factory, [], {"isoweekdays": days})
        days.append(6)
        return J.call(fn, [F.VecIdx([CStamp(t) for t in stamps], parse_freq("D"))], {})

    stamps = week("D")
    rep.explore(J, "P02.own", "list of days is changed by the caller, after the peak function has been made", go, judge_all(stamps, [t.isoweekday() in changed for t in stamps]))


def periods(rep, I, tier):
    """What trimming and resampling build on."""
    rep.group("boundary", boundaries, I, tier)
    rep.group("rounding", rounding, I, tier)
    rep.group("startofday", start_of_day, I, tier)


# ---- which timestamps data may have

STANDARD = ("tools.standardize.assert_index_standardized", "tools.standardize.assert_frame_standardized")


def days(f, s, n=3):
    """Timestamps of n full days (or periods)."""
    if f in MONTHS:
        return in_freq(f, s)[: n if f != "MS" else 14]
    if f == "D":
        return [dt.datetime.combine(dt.date(2023, 12, 30), s) + dt.timedelta(days=x) for x in range(n)]
    step = dt.timedelta(minutes=15 if f == "15min" else 60)
    return [dt.datetime.combine(dt.date(2023, 12, 30), s) + x * step for x in range(int(n * dt.timedelta(days=1) / step))]


def standards(rep, I, tier):
    J = load(str(I.pkg.root), BODIES + STANDARD)
    J.no_year = True
    fun = J.find("tools.standardize:assert_index_standardized")

    def refused(o):
        if o.kind == "raise":
            return None if o.value.typ.name == "AssertionError" else f"raises {o.value.typ.name}"
        return Undecided(repr(o.value)) if isinstance(o.value, Top) else "is accepted"

    def accepted(o):
        return f"is refused ({o.value.typ.name})" if o.kind == "raise" else None

    def one(ok, what, stamps, f):
        rep.explore(J, "valid" if ok else "invalid", f"index: {what}", lambda J: J.call(fun, [F.VecIdx([CStamp(t) for t in stamps], f and parse_freq(f))], {}), accepted if ok else refused)

    H, Q = dt.timedelta(hours=1), dt.timedelta(minutes=15)
    for f in FREQS:
        for s in (dt.time(0), dt.time(6), dt.time(23)):
            for n in (1, 2, 5):
                i = days(f, s, n)
                at = f"{f}, start of day {s:%H:%M}, {n} days or periods"
                one(True, at, i, f)
                one(False, f"{at}; no frequency", i, None)
                wrong = [("all 30 minutes late", 2 * Q), ("all 5 minutes late", Q / 3), ("all 15 minutes late", Q), ("all 45 minutes late", 3 * Q), ("all 30 seconds late", dt.timedelta(seconds=30))]
                for text, d in wrong:
                    one(False, f"{at}; {text}", [t + d for t in i], f)
                if f in ("15min", "h"):
                    step = Q if f == "15min" else H
                    one(False, f"{at}; last value is missing", i[:-1], f)
                    one(False, f"{at}; first value is missing", i[1:], f)
                    one(False, f"{at}; one value more", [*i, i[-1] + step], f)
                    one(False, f"{at}; first hour is missing", i[int(H / step) :], f)
                    one(False, f"{at}; only half of the last day", i[: -int(12 * H / step)], f)
                elif n > 1:
                    for k in sorted({0, 1, len(i) - 1}):
                        one(False, f"{at}; value {k} is an hour late", [t + (x == k) * H for x, t in enumerate(i)], f)
        one(False, f"{f}; no values", [], f)
    refuse = lambda o: None if o.kind == "raise" else Undecided(repr(o.value)) if isinstance(o.value, Top) else "is accepted"  # noqa: E731
    day = dt.datetime(2024, 1, 1)
    for f, stamps in (("30min", [day + n * 2 * Q for n in range(48)]), ("2h", [day + 2 * n * H for n in range(12)]), ("5min", [day + n * Q / 3 for n in range(288)]), ("2D", [day + 2 * n * 24 * H for n in range(4)]),
                      ("W-MON", [day + 7 * n * 24 * H for n in range(4)]), ("2MS", [T.add_months(day, 2 * n) for n in range(6)]), ("ME", [T.add_months(day, n + 1) - 24 * H for n in range(6)])):
        if parse_freq(f) is not None:
            rep.explore(J, "invalid", f"index: frequency {f}", lambda J: J.call(fun, [F.VecIdx([CStamp(t) for t in stamps], parse_freq(f))], {}), refuse)
