"""F03: changing the frequency of timeseries, trimming, weighted averages."""

from __future__ import annotations

import re

from . import expr as E
from . import spec as SP
from .contexts import Ctx
from .interp import MISSING
from .lib import stamp_key
from .report import Undecided
from .resample import seconds, spread, total
from .rules_fields import periods
from .rules_freq import compare, raised
from .spans import rank
from .values import FrameV, Idx, Offset, SeriesV, StampV, TokV, Top, U, parse_freq

F = parse_freq
FREQS = ["15min", "h", "D", "MS", "QS-JAN", "QS-FEB", "QS-APR", "YS-JAN", "YS-APR"]
SODS = ["00:00:00", "06:00:00", "05:30:00"]


def dur(f):
    return E.atom(f"dur[{f.str}]")


def expected(summable, v, f, g):
    """Values at frequency g, for values v at frequency f."""
    c = compare(f, g)
    if c == 0:
        return v
    if c == -1:
        return total(v, g, f) if summable else E.div(total(E.mul(v, dur(f)), g, f), dur(g))
    if summable:
        return E.mul(E.div(spread(v, f), spread(dur(f), f)), dur(g))
    return spread(v, f)


def ts_of(f, g):
    return {0: "X", -1: f"full(X -> {g.str})", 1: f"full(X -> {f.str})"}[compare(f, g)]


def judge(I, o, summable, src, f, g):
    I.trace = o.trace
    if compare(f, g) is None:
        return None if raised(o, "ValueError") else "does not raise a ValueError"
    if o.kind == "raise":
        return f"raises {o.value.typ.name}{o.value.args[:1]}"
    got = o.value
    if isinstance(got, Top):
        return Undecided("unknown result")
    if isinstance(src, FrameV):
        if not isinstance(got, FrameV) or list(got.cols) != list(src.cols):
            return f"returns {SP.describe(got)}"
        for c in src.cols:
            m = one(I, got.cols[c], summable, src.cols[c], f, g)
            if m:
                return type(m)(f"column {c!r}: {m}")
        return None
    return one(I, got, summable, src, f, g)


def one(I, got, summable, src, f, g):
    if not isinstance(got, SeriesV):
        return f"returns {SP.describe(got)}, should be a series"
    want = frozenset([ts_of(f, g)])
    m = check_idx(I, got.idx, src.idx, want, f, g)
    if m:
        return m
    if got.name != src.name:
        return f"name is {got.name!r}, should be {src.name!r}"
    if got.unit != src.unit:
        return f"unit is {got.unit}, should be {src.unit}"
    if I.ts_norm(got.idx.ts) == frozenset(["~empty"]):
        return None
    e = expected(summable, src.expr, f, g)
    if E.has_unk(got.expr):
        return Undecided("unknown values")
    if not E.same(got.expr, e):
        return f"values are {got.expr}, should be {e}"
    if src.kind == "int" and got.kind == "int" and compare(f, g) != 0:
        return "values are integers"
    return None


def check_idx(I, got, src, want, f, g):
    if not isinstance(got, Idx):
        return f"index is {SP.describe(got)}"
    empty = any(isinstance(k, tuple) and k[0] == "nonempty" and not v for k, v in I.trace.facts.items())
    if I.ts_norm(got.ts) == frozenset(["~empty"]) or empty:
        if not empty:
            return "index is empty"
        if got.freq != g and not (isinstance(got.freq, Offset) and compare(got.freq, g) == 0):
            return f"frequency of empty series is {got.freq}, should be {g}"
        return None if got.tz == src.tz else f"timezone of empty series is {got.tz}"
    if not I.ts_same(got.ts, want):
        return f"timestamps are {SP.name_ts(I, got.ts)}, should be {SP.name_ts(I, want)}"
    if got.stat is not None:
        return f"index has an {got.stat[0]}"
    for a, w in (("freq", g), ("tz", src.tz), ("sod", src.sod)):
        if getattr(got, a) != w and not (a == "freq" and isinstance(got.freq, Offset) and compare(got.freq, g) == 0):
            return f"{a} of the index is {getattr(got, a)}, should be {w}"
    return None


def cases(c, tier):
    for f in FREQS:
        for g in FREQS:
            for sod in SODS:
                if sod == "05:30:00" and not (f == "15min" and g != "h"):
                    continue
                for tz in (c.tz, None):
                    if tz is None and (tier == "quick" and (sod != "06:00:00" or f in ("QS-APR", "YS-APR") or g in ("QS-FEB", "YS-APR"))):
                        continue
                    yield F(f), F(g), c.idx("X", freq=F(f), tz=tz, sod=TokV("sod", sod)), f"{f} to {g}, start-of-day {sod}{'' if tz else ', no timezone'}"


def change(rep, I, tier):
    c = Ctx(I)
    fs = {True: I.find("tools.changefreq:summable"), False: I.find("tools.changefreq:averagable")}
    for f, g, X, d in cases(c, tier):
        for summable in (True, False):
            n = "summable" if summable else "averagable"
            for name, unit, kind, how in (("w", U["w"], "num", "series"), ("x", None, "num", "series"), (None, None, "int", "series"), ("q", U["q"], "num", "frame")):
                def make():
                    s = SeriesV(E.atom("v"), X.copy(), unit, name, kind)
                    if how == "series":
                        return s
                    i = X.copy()
                    return FrameV({"a": SeriesV(E.atom("v"), i, unit, "a"), "b": SeriesV(E.atom("u"), i, None, "b")}, i)

                src = make()
                for form in (g.str,) if g.str != "MS" or how == "frame" else (g.str, None):
                    rep.explore(I, f"F03.{n}", f"{n} of {how} ({unit or 'no unit'}{', integers' if kind == 'int' else ''}), {d}{' (default)' if form is None else ''}",
                                lambda I: I.call(fs[summable], [make()] + ([form] if form else []), {}), lambda o: judge(I, o, summable, src, f, g))

        def jidx(o):
            I.trace = o.trace
            if compare(f, g) is None:
                return None if raised(o, "ValueError") else "does not raise a ValueError"
            if o.kind == "raise":
                return f"raises {o.value.typ.name}{o.value.args[:1]}"
            return check_idx(I, o.value, X, frozenset([ts_of(f, g)]), f, g)

        rep.explore(I, "F03.index", f"index, {d}", lambda I: I.call(I.find("tools.changefreq:index"), [X.copy(), g.str], {}), jidx)


# ------------------------------------------------------------------ trim

def rounded(I, f, args, kwargs):
    """Rounding of a timestamp (decided on its own, under F02), kept as a function of its arguments."""
    from .contracts import bound

    v = bound(I, f, args, kwargs)
    ts, freq, sod = v["ts"], v["freq"], v["start_of_day"]
    if isinstance(freq, str):
        freq = F(freq)
    if not isinstance(ts, StampV) or not isinstance(freq, Offset) or not isinstance(v["fn"], str) or not isinstance(v["future"], int):
        return MISSING
    return StampV(f"{v['fn']}[{freq.str},{v['future']:+},{'00:00:00' if sod is None else getattr(sod, 'name', '?')}] of {key(ts)}", None, ts.tz)


def key(ts):
    """Start or end of an index, however it is written."""
    i = ts.idx
    if i is not None and i.stat is not None and i.stat[0] == "right" and ts.which == "max":
        return f"end({'&'.join(sorted(i.stat[1].ts))})"
    return stamp_key(ts)


def canonical(atom, X):
    """With the timestamps aligned: left < end of period <=> right <= end of period."""
    a = atom.replace(f"right({X})", X)
    return re.sub(r"\(right\(ts\)<=", "(ts<", a)


def trimming(rep, I, tier):
    c = Ctx(I)
    for f in FREQS:
        for g in FREQS:
            for sod in ("00:00:00", "06:00:00"):
                f_, g_ = F(f), F(g)
                X = c.idx("X", freq=f_, sod=TokV("sod", sod))
                want = {"X", f"(not(ts<ceil[{g},+0,{sod}] of min(X)()))", f"(ts<floor[{g},+0,{sod}] of end(X)())"}

                def judge_idx(I, got):
                    if not isinstance(got, Idx):
                        return f"returns {SP.describe(got)}"
                    ts = {canonical(a, "X") for a in I.ts_norm(got.ts)}
                    if ts == {"X"} and compare(f_, g_) in (0, 1):
                        return None  # periods of at most the same length: all are full
                    if ts != want:
                        return f"timestamps are {sorted(ts)}, should be {sorted(want)}"
                    if got.tz != X.tz or got.sod != X.sod or got.stat is not None:
                        return f"index is {got}"
                    return None

                def judge(o, how):
                    I.trace = o.trace
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    got = o.value
                    if isinstance(got, Top):
                        return Undecided("unknown result")
                    if how == "index":
                        return judge_idx(I, got)
                    cls = SeriesV if how == "series" else FrameV
                    if not isinstance(got, cls):
                        return f"returns {SP.describe(got)}"
                    m = judge_idx(I, got.idx)
                    if m:
                        return m
                    s = got if how == "series" else got.cols.get("a")
                    if how == "frame" and list(got.cols) != ["a", "b"] or s is None:
                        return f"returns {SP.describe(got)}"
                    return None if E.same(s.expr, E.atom("v")) and s.unit == U["w"] and s.name == ("n" if how == "series" else s.name) else f"values are {s.expr} {s.unit}"

                d = f"{f} to full periods of {g}, start-of-day {sod}"
                for how in ("index", "series", "frame"):
                    def call(I):
                        i = X.copy()
                        if how == "index":
                            return I.call(I.find("tools.trim:index"), [i, g], {})
                        s = SeriesV(E.atom("v"), i, U["w"], "n")
                        o = s if how == "series" else FrameV({"a": SeriesV(E.atom("v"), i, U["w"], "a"), "b": SeriesV(E.atom("u"), i, None, "b")}, i)
                        return I.call(I.find("tools.trim:frame"), [o, g], {})

                    rep.explore(I, "F03.trim", f"{how}, {d}", call, lambda o: judge(o, how))


def without_trim(I):
    from .contexts import load

    J = load(I.pkg.root, ("tools.trim.index", "tools.trim.frame"))
    J.contracts[f"{J.pkg.name}.tools.round.stamp_general"] = rounded
    return J


def F03(rep, I, tier):
    rep.group("change", change, I, tier)
    rep.group("trim", trimming, without_trim(I), tier)
    if not Ctx.NAIVE:
        periods(rep, I, tier)
