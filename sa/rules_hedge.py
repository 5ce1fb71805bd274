"""H01: hedging. H02: base, peak and offpeak values."""

from __future__ import annotations

import re

from . import contracts
from . import expr as E
from . import spec as SP
from .contexts import Ctx, load
from .contracts import dur_atom
from .groups import KeysV, StackedV
from .lib import Native
from .pdlib import tsname
from .report import Undecided
from .rules_fields import peaks
from .rules_freq import raised
from .rules_wavg import used
from .spans import moved
from .values import FrameV, Idx, Num, Offset, SeriesV, TokV, Top, U, parse_freq

F = parse_freq
SODS = ["00:00:00", "06:00:00"]
ALLOWED = ["D", "MS", "QS", "YS"]
OTHER = ["QS-FEB", "YS-APR", "h", "15min", "W", "M", "Q", "Y", ""]
CAL = {"D": ["year", "dayofyear"], "MS": ["year", "month"], "QS": ["year", "quarter"], "YS": ["year"]}
GROUPINGS = {"D": [("year", "dayofyear"), ("year", "day_of_year"), ("year", "month", "day"), ("date",)], "MS": [("year", "month"), ("year", "quarter", "month")],
             "QS": [("year", "quarter")], "YS": [("year",)]}


def peak(I, a, k):
    """The peak function of the user: true or false for each timestamp."""
    return SeriesV(("p", f"peak({tsname(I, a[0])})"), a[0], None, None, "bool") if isinstance(a[0], Idx) else I.top("peak function of something else")


PEAK = Native("peak_fn", peak)


def load2(I):
    return load(I.pkg.root, ("tools.hedge.hedge", "tools.peakconvert.tseries2poframe"))


def total(e, t):
    return E.linear_op(e, lambda k: E.atom(f"SUM({k} over {t})"))


def si(s):
    return E.mul(s.expr, E.num(s.unit.scale)) if s.unit is not None else s.expr


def problem(o):
    if o.kind == "raise":
        return f"raises {o.value.typ.name}{o.value.args[:1]}"
    if isinstance(o.value, Top):
        return Undecided("unknown result")
    return None


# ------------------------------------------------------------------ hedging of timeseries

def group_name(I, X, freq, pk, i, names):
    """Name of the group that a timestamp of i belongs to."""
    sod = X.sod.name
    n = tsname(I, i)
    t = "&".join(sorted(moved(moved(a, "tz", str(X.tz), "None") if X.tz is not None else a, "sod", sod, "00:00:00") for a in I.ts_norm(i.ts)))
    keys = [f"{what} of {t}" for what in names]
    if pk:
        keys.append(repr(("p", f"peak({n})")))
    return KeysV(i, keys, False).name


def one_hedge(rep, I, tier):
    c = Ctx(I)
    fn = I.find("tools.hedge:one_hedge")
    for how in ("vol", "val"):
        for uw, up, ud in ((None, None, None), (None, None, U["duration"]), (U["w"], U["p"], U["duration"])):
            X = c.idx("X", freq=F("h"))

            def call(I):
                i = X.copy()
                d = dict(w=SeriesV(E.atom("w"), i, uw, "w"), p=SeriesV(E.atom("p"), i, up, "p"), duration=SeriesV(E.atom("d"), i, ud, "duration"))
                return I.call(fn, [FrameV(d, i), how], {})

            def judge(o):
                I.trace = o.trace
                m = problem(o)
                if m:
                    return m
                vals = getattr(o.value, "vals", None)
                if vals is None or set(vals) != {"w", "p"}:
                    return f"returns {SP.describe(o.value)}, should be a series with w and p"
                w, p, d = E.atom("w"), E.atom("p"), E.atom("d")
                wt = d if how == "vol" else E.mul(p, d)
                want = dict(w=E.div(total(E.mul(w, wt), "X"), total(wt, "X")), p=E.div(total(E.mul(p, d), "X"), total(d, "X")))
                for n in "wp":
                    g = vals[n]
                    if isinstance(g, Top) or not isinstance(g, Num):
                        return Undecided("unknown value")
                    if E.has_unk(g.expr):
                        return Undecided("unknown value")
                    if not E.same(g.expr, want[n]):
                        return f"{n} of the hedge is {g.expr}, should be {want[n]}"
                return None

            rep.explore(I, "H01.period", f"{'value' if how == 'val' else 'volume'} hedge of one period ({'with' if uw else 'without'} units)", call, judge)


def cases(tier):
    for f in ("15min", "h", "D"):
        for freq in ALLOWED:
            for pk in (False, True):
                for sod in SODS:
                    yield f, freq, pk, sod


def hedge(rep, I, tier):
    c = Ctx(I)
    fn = I.find("tools.hedge:hedge")
    for f, freq, pk, sod in cases(tier):
        for how in ("vol", "val"):
            for uw, up in ((U["w"], U["p"]), (None, None), (U["w"], None), (None, U["p"])):
                for same in (True, False):
                    if (uw is None or up is None) and (not same or tier == "quick" and sod != "06:00:00"):
                        continue
                    X = c.idx("X", freq=F(f), sod=TokV("sod", sod))
                    Y = X if same else c.idx("Y", freq=F(f), sod=TokV("sod", sod))
                    d = f"{'value' if how == 'val' else 'volume'} hedge of {f} values with {freq} {'peak and offpeak ' if pk else ''}products, start-of-day {sod}{'' if same else ', other timestamps for price'} ({uw or 'no unit'}, {up or 'no unit'})"
                    forms = [dict(how=how, peak_fn=PEAK if pk else None, freq=freq)]
                    if how == "val" and freq == "MS":
                        forms.append(dict(peak_fn=PEAK) if pk else {})  # defaults
                    for kw in forms:
                        def call(I):
                            w = SeriesV(E.atom("w"), X.copy(), uw, "w")
                            p = SeriesV(E.atom("p"), Y.copy(), up, "p")
                            return I.call(fn, [w, p], dict(kw))

                        rep.explore(I, "H01.hedge", d + ("" if kw and "how" in kw else " (default)"), call, lambda o: judge_hedge(I, o, X, Y, f, freq, pk, how, uw, up))


def judge_hedge(I, o, X, Y, f, freq, pk, how, uw, up):
    I.trace = o.trace
    if pk and (f == "D" or freq == "D"):
        return None if raised(o, "ValueError") else "peak products for daily values, or daily peak products: no ValueError"
    both = X.copy(ts=I.ts_inter(X.ts, Y.ts))
    if f != freq:
        both = both.copy(ts={f"full({tsname(I, both)} -> {F(freq).str})"})
    if I.ts_norm(X.ts | Y.ts) == frozenset(["~empty"]) and raised(o, "ValueError"):
        return None  # nothing in common
    m = problem(o)
    if m:
        return m
    if not isinstance(o.value, tuple) or len(o.value) != 2 or not all(isinstance(v, SeriesV) for v in o.value):
        return f"returns {SP.describe(o.value)}, should be two series"
    empty = any(isinstance(k, tuple) and k[0] == "nonempty" and not v for k, v in I.trace.facts.items())
    for n, s, u in (("w", o.value[0], uw), ("p", o.value[1], up)):
        if empty:
            if I.ts_norm(s.idx.ts) != frozenset(["~empty"]):
                return "is not empty"
            continue
        if not I.ts_same(s.idx.ts, both.ts):
            return f"timestamps of {n} are {SP.name_ts(I, s.idx.ts)}, should be {SP.name_ts(I, both.ts)}"
        for a in ("freq", "tz", "sod"):
            if getattr(s.idx, a) != getattr(X, a):
                return f"{a} of {n} is {getattr(s.idx, a)}, should be {getattr(X, a)}"
        if (s.unit is None) != (u is None) or u is not None and s.unit != u:
            return f"unit of {n} is {s.unit}, should be {u}"
        if E.has_unk(s.expr):
            return Undecided("unknown values")
        w, p, d = E.atom("w"), E.atom("p"), dur_atom(X.freq)
        wt = d if how == "vol" else E.mul(p, d)
        ok = []
        for names in GROUPINGS[freq]:
            t = both.copy(ts=I.ts_norm(both.ts) | {group_name(I, X, freq, pk, both, names)})
            t = tsname(I, t)
            e = E.div(total(E.mul(w if n == "w" else p, wt if n == "w" else d), t), total(wt if n == "w" else d, t))
            ok.append(e)
        if not any(E.same(s.expr, e) for e in ok):
            return f"{n} of the hedge is {s.expr}, should be {ok[0]}"
    return None


def rejected(rep, I, tier):
    c = Ctx(I)
    fn = I.find("tools.hedge:hedge")
    X = c.idx("X", freq=F("h"), sod=TokV("sod", "00:00:00"))

    def go(d, make, kw):
        def judge(o):
            I.trace = o.trace
            if o.kind == "return" and isinstance(o.value, Top):
                return Undecided("unknown result")
            return None if raised(o, "ValueError") else ("returns " + SP.describe(o.value) if o.kind != "raise" else f"raises {o.value.typ.name}") + ", should raise a ValueError"

        rep.explore(I, "H01.reject", d, lambda I: I.call(fn, make(), kw), judge)

    def ser(n, i, u="w"):
        return SeriesV(E.atom(n), i, U[u], n)

    for freq in OTHER:
        go(f"hedge with products of frequency {freq!r}", lambda: [ser("w", X.copy()), ser("p", X.copy(), "p")], dict(freq=freq))
    for how in ("", "volume", "value", "vol ", "both"):
        go(f"hedge with method {how!r}", lambda: [ser("w", X.copy()), ser("p", X.copy(), "p")], dict(how=how))
    for f in ("MS", "QS-JAN", "YS-JAN"):
        i = c.idx("X", freq=F(f), sod=TokV("sod", "00:00:00"))
        go(f"hedge of values with frequency {f}", lambda: [ser("w", i.copy()), ser("p", i.copy(), "p")], dict(freq="MS"))
    for f, g in (("h", "15min"), ("15min", "h"), ("h", "D"), ("D", "15min")):
        i, j = c.idx("X", freq=F(f), sod=TokV("sod", "00:00:00")), c.idx("Y", freq=F(g), sod=TokV("sod", "00:00:00"))
        go(f"hedge of {f} volume with {g} prices", lambda: [ser("w", i.copy()), ser("p", j.copy(), "p")], {})
    for w in (True, False):
        i = c.idx("X", freq=None)
        go(f"hedge with {'volume' if w else 'prices'} without frequency", lambda: [ser("w", i.copy() if w else X.copy()), ser("p", X.copy() if w else i.copy(), "p")], {})


# ------------------------------------------------------------------ hedging of lines and states

def lines(rep, I, tier):
    """The line-level functions pass on what they are asked for; volume and price of the hedge make a consistent line."""
    c = Ctx(I)
    for f in ("15min", "h", "D"):
        X = c.idx("X", freq=F(f), sod=TokV("sod", "06:00:00"))
        for kind in ("VOLUME", "COMPLETE", "PRICE", "REVENUE"):
            for st in ("flat", "nested"):
                for how, pk, freq in (("vol", True, "QS"), ("val", False, "YS"), ("vol", False, "MS"), ("val", True, "MS"), ("default",) * 3):
                    kw = {} if how == "default" else dict(how=how, peak_fn=PEAK if pk else None, freq=freq)

                    def make():
                        return c.flat(kind, "a", X.copy()) if st == "flat" else c.nested(kind, "a", X.copy(), ["c1", "c2"])

                    def call(I):
                        a = make()
                        p = c.flat("PRICE", "b", X.copy())
                        return (a, p, I.call(I.getattr(a, "hedge_with"), [p] + ([how, kw["peak_fn"], freq] if pos and kw else []), {} if pos else dict(kw)))

                    for pos in (False, True) if kw else (False,):
                        rep.explore(I, "H01.line", f"hedge_with of {st} {kind.lower()} line ({f}) {'value' if how != 'vol' else 'volume'}, {freq}, {'peak' if pk is True else 'base'}{', by position' if pos else ''}", call,
                                    lambda o: judge_line(I, o, kind, how, pk, freq))


def want_args(how, pk, freq):
    return ("val", None, "MS") if how == "default" else (how, PEAK if pk else None, freq)


def judge_line(I, o, kind, how, pk, freq, a=None):
    I.trace = o.trace
    if kind in ("PRICE", "REVENUE"):
        return None if raised(o, "ValueError") else "hedge of a line without volume: no ValueError"
    m = problem(o)
    if m:
        return m
    a, p, r = o.value
    if isinstance(r, Top):
        return Undecided("unknown result")
    how, pf, freq = want_args(how, pk, freq)
    from .contexts import val

    key = f"{E.key(val(a, 'w'))}; {E.key(val(p, 'p'))}; {how}; {pf}; {freq}"
    if not hasattr(r, "cls") or r.cls.name != "FlatCompletePfLine":
        return f"returns {SP.describe(r)}, should be a flat complete line"
    w, q, pp, rr = (val(r, x) for x in "wqpr")
    d = E.mul(dur_atom(r.attrs["df"].idx.freq), E.num(U["duration"].scale))
    if not E.same(q, E.mul(w, d)):
        return f"energy of the hedge is {q}, should be {E.mul(w, d)}"
    if not E.same(w, E.mul(E.atom(f"hedgew[{key}]"), E.num(U["w"].scale))):
        return f"power of the hedge is {w}, should be that of {key}"
    if not E.same(pp, E.mul(E.atom(f"hedgep[{key}]"), E.num(U["p"].scale))):
        return f"price of the hedge is {pp}, should be that of {key}"
    if not E.same(rr, E.mul(q, pp)):
        return f"revenue of the hedge is {rr}, should be {E.mul(q, pp)}"
    return None


def H01(rep, I, tier):
    J = load2(I)
    rep.group("period", one_hedge, J, tier)
    rep.group("hedge", hedge, J, tier)
    rep.group("reject", rejected, J, tier)
    rep.group("line", lines, I, tier)
    if not Ctx.NAIVE:
        rep.group("average", used, I, tier)
        rep.group("peak", peaks, I, tier)


# ------------------------------------------------------------------ H02

def peak_duration(I, f, args, kwargs):
    """Duration of the peak hours in each period: a function of the index (decided on its own)."""
    from .contracts import bound

    v = bound(I, f, args, kwargs)
    i = v["i"]
    if not isinstance(i, Idx) or v["peak_fn"] is not PEAK:
        return I.top("peak duration")
    return SeriesV(E.atom(f"peakdur[{getattr(i.freq, 'str', i.freq)}]"), i, U["duration"], "duration")


def load3(I):
    J = load(I.pkg.root, ("tools.peakconvert.tseries2poframe",))
    J.contracts[f"{J.pkg.name}.tools.peakfn.peak_duration"] = peak_duration
    return J


def load5(I):
    """Up to shorter periods and back again: the same timestamps."""
    J = load(I.pkg.root, ('tools.peakfn.peak_duration',))
    J.base_freq = None

    def wrap(fn):
        def g(I, f, args, kwargs):
            v = fn(I, f, args, kwargs)
            i = v if isinstance(v, Idx) else getattr(v, "idx", None)
            if isinstance(i, Idx) and len(i.ts) == 1:
                (t,) = i.ts
                while m := re.fullmatch(r"full\((full\(.* -> (15min|h|D)\)) -> ([^()]*)\)", t):
                    t = f"full({m[1][5:].rpartition(' -> ')[0]} -> {m[3]})"
                m = re.fullmatch(r"full\((\w+) -> ([^()]*)\)", t)
                if m and m[2] == J.base_freq:
                    t = m[1]
                if t not in i.ts:
                    new = i.copy(ts={t})
                    if v is i:
                        return new
                    if isinstance(v, SeriesV):
                        return SeriesV(v.expr, new, v.unit, v.name, v.kind, v.arr)
            return v

        return g

    for n in ("index", "summable", "averagable"):
        key = f"{J.pkg.name}.tools.changefreq.{n}"
        J.contracts[key] = wrap(J.contracts[key])
    return J


def load4(I):
    J = load(I.pkg.root, ('tools.peakfn.peak_duration', ''))
    J.contracts[f"{J.pkg.name}.tools.peakfn.peak_duration"] = peak_duration
    return J


BPO = ["base", "peak", "offpeak"]


def completing(rep, I, tier):
    c = Ctx(I)
    fn = I.find("tools.peakconvert:complete_bpoframe")
    v = {n: E.atom(n[0]) for n in BPO}
    for freq in ("MS", "QS-JAN", "YS-JAN", "YS-APR"):
        X = c.idx("X", freq=F(freq))
        d, pd_ = dur_atom(X.freq), E.atom(f"peakdur[{freq}]")
        for have in (["base", "peak"], ["base", "offpeak"], ["peak", "offpeak"], BPO, ["base"], ["peak"], ["offpeak"], []):
            for summ in (True, False):
                for unit in (None, U["p"] if not summ else U["r"]):
                    for order in (1, -1):
                        if order == -1 and len(have) < 2:
                            continue
                        for default in (False, True) if not summ else (False,):
                            def call(I):
                                i = X.copy()
                                cols = {n: SeriesV(v[n], i, unit, n) for n in (have + ["other"])[::order] if n != "other"}
                                cols["other"] = SeriesV(E.atom("x"), i, None, "other")
                                return I.call(fn, [FrameV(cols, i), PEAK] + ([] if default else [summ]), {})

                            def judge(o):
                                I.trace = o.trace
                                if len(have) < 2:
                                    return None if raised(o, "ValueError") else f"only {have}: no ValueError"
                                m = problem(o)
                                if m:
                                    return m
                                if not isinstance(o.value, FrameV) or list(o.value.cols) != BPO:
                                    return f"returns {SP.describe(o.value)}, should be a frame with base, peak and offpeak"
                                if not I.ts_same(o.value.idx.ts, X.ts) or o.value.idx.freq != X.freq:
                                    return f"index is {o.value.idx}"
                                got = {n: s.expr for n, s in o.value.cols.items()}
                                for n, s in o.value.cols.items():
                                    if E.has_unk(s.expr):
                                        return Undecided("unknown values")
                                    if n in have and not E.same(s.expr, v[n]):
                                        return f"{n} is {s.expr}, should be unchanged"
                                    if s.unit != unit:
                                        return f"unit of {n} is {s.unit}, should be {unit}"
                                if len(have) == 3:
                                    return None
                                left = got["base"] if summ else E.mul(got["base"], d)
                                right = E.add(got["peak"], got["offpeak"]) if summ else E.add(E.mul(got["peak"], pd_), E.mul(got["offpeak"], E.sub(d, pd_)))
                                if not E.same(E.simplify(E.sub(left, right)), E.ZERO):
                                    return f"base is {left}, peak and offpeak together {right}"
                                return None

                            rep.explore(I, "H02.complete", f"{'summable' if summ else 'averagable'} frame ({freq}, {unit or 'no unit'}) with {', '.join(have[::order]) or 'nothing'}{' (default)' if default else ''}", call, judge)


def in_group(I, X, freq):
    """Timestamps of X in one full period of frequency freq, as sets: (full, group)."""
    full = X.copy(ts=frozenset([f"full({tsname(I, X)} -> {freq.str})"]))
    return full


def splitting(rep, I, tier):
    c = Ctx(I)
    fn = I.find("tools.peakconvert:tseries2poframe")
    one = I.find("tools.peakconvert:_tseries2po")
    for f in ("15min", "h"):
        for summ in (True, False):
            for sod in SODS:
                X = c.idx("X", freq=F(f), sod=TokV("sod", sod))

                def parts(t, e):
                    """Spec: sums, or weighted averages, over the peak and the offpeak part of the timestamps."""
                    out = {}
                    for n, mask in (("peak", "(peak({0}))"), ("offpeak", "(not(peak({0})))")):
                        ts = "&".join(sorted(t.split("&") + [mask.format(t)]))
                        d = dur_atom(F(f))
                        out[n] = total(e, ts) if summ else E.div(total(E.mul(e, d), ts), total(d, ts))
                    return out

                def compare(I, got, want, unit):
                    for n in want:
                        g = got.get(n)
                        if not isinstance(g, (Num, Offset, SeriesV)):
                            return Undecided("unknown value")
                        if E.has_unk(g.expr):
                            return Undecided("unknown values")
                        if g.unit != unit:
                            return f"unit of {n} is {g.unit}, should be {unit}"
                        if not E.same(g.expr, want[n]):
                            return f"{n} is {g.expr}, should be {want[n]}"
                    return None if set(got) == set(want) else f"has {list(got)}"

                def j1(o):
                    I.trace = o.trace
                    m = problem(o)
                    if m:
                        return m
                    vals = getattr(o.value, "vals", None)
                    if vals is None:
                        return f"returns {SP.describe(o.value)}, should be a series with peak and offpeak"
                    return compare(I, vals, parts("X", E.atom("v")), None)

                m = "summable" if summ else "averagable"
                rep.explore(I, "H02.period", f"{m} {f} values in one period", lambda I: I.call(one, [SeriesV(E.atom("v"), X.copy(), None, "v"), PEAK, summ], {}), j1)
                for freq in ("MS", "QS-JAN", "QS-APR", "YS-JAN", "D", "h"):
                    for unit in (None, U["p"]):
                        kws = [dict(freq=freq, is_summable=summ)]
                        if not summ:
                            kws.append(dict(freq=freq))
                        if freq == "MS":
                            kws.append(dict(is_summable=summ))
                        for kw in kws:
                            def j2(o):
                                I.trace = o.trace
                                if freq in ("D", "h"):
                                    return None if raised(o, "ValueError") else f"frequency {freq}: no ValueError"
                                full = f"full(X -> {freq})"
                                m = problem(o)
                                if any(isinstance(k, tuple) and k[0] == "nonempty" and not v for k, v in I.trace.facts.items()):
                                    return None  # no full periods
                                if m:
                                    return m
                                if not isinstance(o.value, FrameV):
                                    return f"returns {SP.describe(o.value)}, should be a frame with peak and offpeak"
                                i = o.value.idx
                                if not I.ts_same(i.ts, frozenset([full])) or i.freq != F(freq) or i.tz != X.tz or i.sod != X.sod:
                                    return f"index of result is {i}"
                                t = "&".join(sorted([full, f"(group period of {full})"]))
                                return compare(I, o.value.cols, parts(t, E.atom("v")), unit)

                            rep.explore(I, "H02.split", f"{m} {f} values ({unit or 'no unit'}, start-of-day {sod}) to peak and offpeak values per {freq} {'' if len(kw) == 2 else '(default)'}",
                                        lambda I: I.call(fn, [SeriesV(E.atom("v"), X.copy(), unit, "v"), PEAK], dict(kw)), j2)


def expanded(summ, F0, f, v):
    """Spec: value of an expanded peak/offpeak frame at peak and at offpeak timestamps."""
    d, p = dur_atom(F0), E.atom(f"peakdur[{F0.str}]")
    out = []
    for n, part in (("peak", p), ("offpeak", E.sub(d, p))):
        e = v[n]
        if summ:
            out.append(E.linear_op(E.div(E.mul(e, d), part), lambda k: E.atom(f"S[{f.str}]({k})")))
        else:
            out.append(E.div(E.linear_op(E.mul(e, d), lambda k: E.atom(f"S[{f.str}]({k})")), dur_atom(f)))
    return out


def pofr(I, X, have, unit, extra=True):
    i = X.copy()
    cols = {n: SeriesV(E.atom(n[0]), i, unit, n) for n in have}
    if extra:
        cols["other"] = SeriesV(E.atom("x"), i, None, "other")
    return FrameV(cols, i)


def complete(F0, have, summ):
    v = {n: E.atom(n[0]) for n in have}
    d, p = dur_atom(F0), E.atom(f"peakdur[{F0.str}]")
    o = E.sub(d, p)
    if summ:
        d = p = o = E.ONE
    if "peak" not in v:
        v["peak"] = E.div(E.sub(E.mul(v["base"], d), E.mul(v["offpeak"], o)), p)
    if "offpeak" not in v:
        v["offpeak"] = E.div(E.sub(E.mul(v["base"], d), E.mul(v["peak"], p)), o)
    return v


def same_where(I, e, mask, want):
    """Is e the first value where mask, and the second elsewhere."""
    for given, w in ((True, want[0]), (False, want[1])):
        g = e
        while isinstance(g, E.Ite):
            if g.p != mask:
                return False
            g = g.a if given else g.b
        if not E.same(g, w) and not E.same(E.simplify(E.sub(g, w)), E.ZERO):
            return False
    return True


def expanding(rep, I, tier):
    c = Ctx(I)
    fn = I.find("tools.peakconvert:poframe2tseries")
    both = I.find("tools.peakconvert:poframe2poframe")
    for F0 in (F("MS"), F("QS-APR"), F("YS-JAN")):
        X = c.idx("X", freq=F0, sod=TokV("sod", "06:00:00"))
        for summ in (True, False):
            m = "summable" if summ else "averagable"
            for unit in (None, U["r"] if summ else U["p"]):
                for have in (["peak", "offpeak"], ["base", "peak"], ["offpeak", "base"], BPO):
                    def judge(o, f):
                        I.trace = o.trace
                        p = problem(o)
                        if p:
                            return p
                        s = o.value
                        if not isinstance(s, SeriesV):
                            return f"returns {SP.describe(s)}, should be a series"
                        full = frozenset([f"full(X -> {f})"])
                        if not I.ts_same(s.idx.ts, full) or s.idx.freq != F(f) or s.idx.tz != X.tz or s.idx.sod != X.sod:
                            return f"index of result is {s.idx}"
                        if s.unit != unit:
                            return f"unit is {s.unit}, should be {unit}"
                        if E.has_unk(s.expr):
                            return Undecided("unknown values")
                        want = expanded(summ, F0, F(f), complete(F0, have, summ))
                        if not same_where(I, s.expr, f"peak(full(X -> {f}))", want):
                            return f"value is {s.expr}, should be {want[0]} for peak and {want[1]} for offpeak timestamps"
                        return None

                    for f in ("h", "15min"):
                        kws = [dict(freq=f, is_summable=summ)]
                        if not summ:
                            kws.append(dict(freq=f))
                        if f == "h":
                            kws.append(dict(is_summable=summ))
                        for kw in kws:
                            rep.explore(I, "H02.expand", f"{m} frame ({F0.str}, {unit or 'no unit'}) with {', '.join(have)} to {f} timeseries{'' if len(kw) == 2 else ' (default)'}",
                                        lambda I: I.call(fn, [pofr(I, X, have, unit), PEAK], dict(kw)), lambda o: judge(o, f))

                    # from one frequency to another: expand and split
                    for f in ("MS", "QS-JAN", "QS-APR", "YS-JAN", "YS-APR", "D", "h"):
                        kws = [dict(freq=f, is_summable=summ)]
                        if not summ:
                            kws.append(dict(freq=f))
                        if f == "YS-JAN":
                            kws.append(dict(is_summable=summ))
                        for kw in kws:
                            def j2(o):
                                I.trace = o.trace
                                if f in ("D", "h"):
                                    return None if raised(o, "ValueError") else f"frequency {f}: no ValueError"
                                if F0.str == "YS-JAN" and f == "YS-APR" and raised(o, "ValueError"):
                                    return None  # neither fits in the other
                                p = problem(o)
                                if p:
                                    return p
                                asked = [e for e in o.trace.events if e["kind"] == "call" and e["fn"].endswith("tools.peakconvert.tseries2poframe")]
                                if len(asked) != 1:
                                    return Undecided("is not split once")
                                a = asked[0]["vals"]
                                if a["is_summable"] is not summ:
                                    return f"is split as {'summable' if a['is_summable'] else 'averagable'}"
                                if not isinstance(a["s"], SeriesV) or not isinstance(a["s"].idx.freq, Offset) or a["s"].idx.freq.str not in ("h", "15min"):
                                    return Undecided("unknown timeseries")
                                if F(a["freq"]) != F(f):
                                    return f"is split into {a['freq']}"
                                if a["peak_fn"] is not PEAK:
                                    return "is split with another peak function"
                                class R:
                                    kind, value, trace = "return", a["s"], o.trace
                                p = judge(R, a["s"].idx.freq.str)
                                if p:
                                    return p
                                ok = contracts.tseries2poframe(I, one, [a["s"], PEAK, f, summ], {})
                                if not isinstance(o.value, FrameV) or list(o.value.cols)[:2] != list(ok.cols):
                                    return f"returns {SP.describe(o.value)}, should be a frame with peak and offpeak"
                                for n, s in ok.cols.items():
                                    g = o.value.cols[n]
                                    if E.has_unk(g.expr):
                                        return Undecided("unknown values")
                                    if not E.same(g.expr, s.expr) or g.unit != s.unit:
                                        return f"{n} is {g.expr}, should be {s.expr}"
                                return None

                            one = J4(I).find("tools.peakconvert:tseries2poframe")
                            rep.explore(J4(I), "H02.convert", f"{m} frame ({F0.str}, {unit or 'no unit'}) with {', '.join(have)} to one with frequency {f}{'' if len(kw) == 2 else ' (default)'}",
                                        lambda I: I.call(both, [pofr(I, X, have, unit), PEAK], dict(kw)), j2)


def J4(I):
    """With splitting replaced by its specification."""
    return I.with_split


def durations(rep, I, tier):
    """Peak hours in each period: those of the shorter periods for which the peak function can be evaluated."""
    c = Ctx(I)
    pdur, odur = I.find("tools.peakfn:peak_duration"), I.find("tools.peakfn:offpeak_duration")
    steps = ["15min", "h", "D"]
    for f in ("15min", "h", "D", "MS", "QS-APR", "YS-JAN"):
        X = c.idx("X", freq=F(f), sod=TokV("sod", "06:00:00"))
        I.base_freq = f
        for longest in (None, "15min", "h", "D"):
            def fn(I, a, k):
                i = a[0]
                if not isinstance(i, Idx) or not isinstance(i.freq, Offset):
                    return I.top("peak function of something else")
                if longest is None or i.freq.str not in steps or steps.index(i.freq.str) > steps.index(longest):
                    I.raise_("ValueError", "frequency not short enough")
                return peak(I, a, k)

            user = Native("peak_fn", fn)

            def judge(o, off):
                I.trace = o.trace
                if longest is None:
                    return None if raised(o, "ValueError") else f"no ValueError if peak function can never be evaluated, but {SP.describe(o.value)}"
                m = problem(o)
                if m:
                    return m
                s = o.value
                if not isinstance(s, SeriesV):
                    return f"returns {SP.describe(s)}, should be a series"
                if not I.ts_same(s.idx.ts, X.ts):
                    return f"timestamps of the durations are {SP.name_ts(I, s.idx.ts)}, should be X"
                if s.idx.freq != X.freq or s.idx.tz != X.tz or s.idx.sod != X.sod:
                    return f"index of the durations is {s.idx}"
                if s.unit is None or s.unit.dims != U["duration"].dims:
                    return f"unit is {s.unit}"
                if E.has_unk(s.expr):
                    return Undecided("unknown values")
                ok = []
                for g in steps[: steps.index(longest) + 1]:
                    if F(g) != F(f) and (f not in steps or steps.index(g) < steps.index(f)):
                        e = E.linear_op(E.ite(f"peak(full(X -> {g}))", dur_atom(F(g)), E.ZERO), lambda k: E.atom(f"S[{f}]({k})"))
                    elif g == f:
                        e = E.ite("peak(X)", dur_atom(F(g)), E.ZERO)
                    else:
                        continue
                    e = E.sub(dur_atom(F(f)), e) if off else e
                    ok.append(e)
                got = E.mul(s.expr, E.num(s.unit.scale / U["duration"].scale))
                if not any(E.same(got, e) for e in ok):
                    return f"duration is {got}, should be {ok[-1]}"
                return None

            rep.explore(I, "H02.duration", f"duration of peak in {f} periods, if peak function accepts {longest or 'no'} values", lambda I: I.call(pdur, [X.copy(), user], {}), lambda o: judge(o, False))
            rep.explore(I, "H02.duration", f"duration of offpeak in {f} periods, if peak function accepts {longest or 'no'} values", lambda I: I.call(odur, [X.copy(), user], {}), lambda o: judge(o, True))


WHAT = {"VOLUME": ["duration", "q", "w"], "PRICE": ["duration", "p"], "REVENUE": ["duration", "r"], "COMPLETE": ["duration", "q", "w", "r", "p"]}


def lines2(rep, I, tier):
    """Peak and offpeak values of a portfolio line."""
    c = Ctx(I)
    from .contexts import val

    spl = I.find("tools.peakconvert:tseries2poframe")
    for f in ("15min", "h"):
        X = c.idx("X", freq=F(f), sod=TokV("sod", "06:00:00"))
        for kind in WHAT:
            for st in ("flat", "nested"):
                for freq in (None, "MS", "QS-APR", "YS-JAN"):
                    for pos in (True, False) if freq else (True,):
                        def call(I):
                            a = c.flat(kind, "a", X.copy()) if st == "flat" else c.nested(kind, "a", X.copy(), ["c1", "c2"])
                            return a, I.call(I.getattr(a, "po"), [PEAK] + ([freq] if freq and pos else []), {"freq": freq} if freq and not pos else {})

                        def judge(o):
                            I.trace = o.trace
                            m = problem(o)
                            if m:
                                return m
                            a, r = o.value
                            if isinstance(r, Top):
                                return Undecided("unknown result")
                            if not isinstance(r, StackedV) or r.single:
                                return f"returns {SP.describe(r)}, should be a frame with peak and offpeak values"
                            if set(r.cols) != set(WHAT[kind]):
                                return f"has {list(r.cols)}, should be {WHAT[kind]}"
                            idx = a.attrs["df"].idx if "df" in a.attrs else X

                            def split(e, summ):
                                return contracts.tseries2poframe(I, spl, [SeriesV(e, X.copy(), None, None), PEAK, freq or "MS", summ], {})

                            d = E.mul(dur_atom(X.freq), E.num(U["duration"].scale))
                            want = {"duration": split(d, True)}
                            for n, k in (("q", "q"), ("r", "r")):
                                if n in WHAT[kind]:
                                    want[n] = split(val(a, k), True)
                            if kind == "PRICE":
                                want["p"] = split(val(a, "p"), False)
                            for n, fr in r.cols.items():
                                for part in ("peak", "offpeak"):
                                    s = fr.cols.get(part)
                                    if s is None:
                                        return f"{n} has {list(fr.cols)}"
                                    if E.has_unk(s.expr):
                                        return Undecided("unknown values")
                                    if not I.ts_same(s.idx.ts, want["duration"].idx.ts):
                                        return f"timestamps are {SP.name_ts(I, s.idx.ts)}"
                                    if s.unit is None or s.unit.dims != U[n].dims:
                                        return f"unit of {n} is {s.unit}"
                                    if n == "w":
                                        e = E.div(want["q"].cols[part].expr, want["duration"].cols[part].expr)
                                    elif n == "p" and kind == "COMPLETE":
                                        e = E.div(want["r"].cols[part].expr, want["q"].cols[part].expr)
                                    else:
                                        e = want[n].cols[part].expr
                                    if not E.same(si(s), e):
                                        return f"{part} value of {n} is {si(s)}, should be {e}"
                            return None

                        rep.explore(I, "H02.line", f"peak and offpeak values of {st} {kind.lower()} line ({f}){f' per {freq}' if freq else ' (default)'}{'' if pos else ' (by name)'}", call, judge)


def H02(rep, I, tier):
    J = load3(I)
    J.with_split = load4(I)
    rep.group("complete", completing, J, tier)
    rep.group("split", splitting, J, tier)
    rep.group("expand", expanding, J, tier)
    rep.group("durations", durations, load5(I), tier)
    rep.group("lines", lines2, I, tier)
    if not Ctx.NAIVE:
        rep.group("average", used, I, tier)
        rep.group("peak", peaks, I, tier)
