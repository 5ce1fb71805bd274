"""Y01: mapping portfolio lines and timeseries onto another year."""

from __future__ import annotations

from . import contracts as C
from . import elem
from . import expr as E
from . import rules_line as RL
from . import rules_ops as RO
from . import spec as SP
from .contexts import KINDS, Ctx
from .contracts import bound, dur_atom
from .interp import MISSING
from .pdlib import tsname
from .report import Undecided
from .rules_freq import raised
from .rules_freq import ALLOWED
from .values import FrameV, FreqV, Idx, Num, Offset, SeriesV, StampV, StrV, TokV, Top, U, parse_freq

T2 = "tools2.changeyear:map_to_year"
T = "tools.changeyear:"


def at(e, to):
    return E.rename(e, lambda a: f"at({a} -> {to})")


# ---- portfolio lines (the mapping of a frame is a black box: value at another timestamp)

def lines(rep, I, tier):
    c = Ctx(I)
    fn = I.find(T2)
    for f in (FreqV("F"),) + tuple(parse_freq(x) for x in ("15min", "h", "D", "MS", "QS-APR", "YS-JAN")):
        X = c.idx("X", freq=f)
        d = dur_atom(X.freq)
        for st in ("flat", "nested", "deep"):
            if st == "deep" and tier == "quick" and not isinstance(f, FreqV):
                continue
            for k in KINDS:
                for yr, hol in ((Num(E.atom("year"), None, True), StrV("country")), (2030, "DE"), (2024, None)):
                    if not isinstance(yr, Num) and not isinstance(f, FreqV):
                        continue
                    to = f"{yr!r}, {hol!r}"
                    new = f"map[X -> {to}]".replace("(", "<").replace(")", ">")

                    def want(sp):
                        if sp.nested:
                            return SP.nest(sp.kind, {n: want(x) for n, x in sp.children.items()})
                        a = {"VOLUME": "w", "PRICE": "p", "COMPLETE": "wp", "REVENUE": "r"}[sp.kind]
                        vals = {x: at(sp.v[x], to) for x in a}
                        if sp.kind == "REVENUE":  # proportional to the duration
                            vals["r"] = E.mul(E.div(vals["r"], at(d, to)), d)
                        return SP.mk(sp.kind, {new}, sp.idx, **vals)

                    def spec(o):
                        I.trace = o.trace
                        if o.kind == "raise":
                            return f"raises {o.value.typ.name}{o.value.args[:1]}"
                        w = want(RO.spec_line(c, st, k, "a", X))
                        return SP.cmp_kind(I, o.value, w) or order(o.value, w) or SP.cmp_values(I, o.value, w) or SP.cmp_index(I, o.value, w)

                    rep.explore(I, "Y01.line", f"{st} {k.lower()} line with frequency {C.fname(f)} to {to}", lambda I: I.call(fn, [RL.make(c, st, k, "a", X), yr, hol], {}), spec)


def order(v, w):
    if w.nested and SP.is_line(v) and SP.children_of(v) is not None and list(SP.children_of(v)) != list(w.children):
        return f"children are {list(SP.children_of(v))}, should be {list(w.children)}"
    return None


# ---- frames (the mapping of the index is a black box: a timestamp in the source for each in the target)

def stamps(name, src, tgt):
    s = SeriesV(E.atom(f"mapping[{name}]"), tgt, None, None, "stamps")
    s.to, s.src = name, src
    return s


def index_to_index(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    a, b = v["idx_source"], v["idx_target"]
    if not isinstance(a, Idx) or not isinstance(b, Idx):
        return MISSING
    I.event("index-map", vals=dict(v))
    return stamps(f"{tsname(I, a)} -> {tsname(I, b)}, {v.get('holiday_country')!r}", a, b)


def with_year(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    i = v["idx_source"]
    if not isinstance(i, Idx):
        return MISSING
    return i.copy(ts={f"year[{tsname(I, i)} -> {v['target_year']!r}]".replace("(", "<").replace(")", ">")}, name=None)


def frames(rep, I, tier):
    c = Ctx(I)
    pre = I.pkg.name
    I.contracts[f"{pre}.tools.changeyear.map_index_to_index"] = index_to_index
    I.contracts[f"{pre}.tools.changeyear.index_with_year"] = with_year
    yr = Num(E.atom("year"), None, True)
    for f in (FreqV("F"), parse_freq("D"), parse_freq("h"), parse_freq("MS")):
        X = c.idx("X", freq=f)
        Y = c.idx("Y", freq=f)
        YY = X.copy(ts={f"year[X -> {yr!r}]".replace("(", "<").replace(")", ">")}, name=None)
        for form in ("series", "series with unit", "frame", "frame of one column", "frame with units"):
            def make():
                if form.startswith("series"):
                    return SeriesV(E.atom("v"), X, U["w"] if "unit" in form else None, "label")
                cols = {"p": "p"} if "one" in form else {"w": "w", "r": "r", "x": "w"}
                return FrameV({n: SeriesV(E.atom(f"{n}_v"), X, U[u] if "units" in form else None, n) for n, u in cols.items()}, X)

            for hol in (StrV("country"), None, "DE"):
                for name, tgt, args in (("map_frame_to_index", Y, [Y, hol]), ("map_frame_to_year", YY, [yr, hol])):
                    fn = I.find(T + name)
                    to = f"X -> {tsname(I, tgt)}, {hol!r}"

                    def spec(o):
                        I.trace = o.trace
                        if o.kind == "raise":
                            return f"raises {o.value.typ.name}{o.value.args[:1]}"
                        src, v = make(), o.value
                        if isinstance(v, Top):
                            return Undecided("unknown result")
                        if type(v) is not type(src):
                            return f"gives {SP.describe(v)}"
                        if isinstance(src, FrameV):
                            if list(v.cols) != list(src.cols):
                                return f"gives columns {list(v.cols)}, should be {list(src.cols)}"
                            pairs = [(n, v.cols[n], src.cols[n]) for n in src.cols]
                        else:
                            pairs = [("series", v, src)]
                        for n, got, s in pairs:
                            w = SeriesV(at(s.expr, to), tgt, s.unit, s.name)
                            m = RL.same_series(I, got, w, n)
                            if m:
                                return m
                        return SP.cmp_idx(I, v.idx, tgt.ts, tgt, "index")

                    rep.explore(I, "Y01.frame", f"{name} of {form} with frequency {C.fname(f)}, holidays {hol!r}", lambda I: I.call(fn, [make()] + args, {}), spec)


# ---- index

HELPERS = {"_map_index_to_index_monthlyandlonger": "month", "_map_index_to_index_daily": "day", "_map_index_to_index_hourlyandshorter": "hour"}


def helper(kind):
    def fn(I, f, args, kwargs):
        v = bound(I, f, args, kwargs)
        vals = list(v.values())
        if len(vals) < 2 or not all(isinstance(x, Idx) for x in vals[:2]):
            return MISSING
        hol = v.get("holiday_country", "ignored")
        return stamps(f"{kind}: {tsname(I, vals[0])} -> {tsname(I, vals[1])}, {hol!r}", vals[0], vals[1])

    return fn


def dispatch(rep, I, tier):
    """Which mapping is used for which frequency; objects that cannot be mapped onto each other."""
    c = Ctx(I)
    for n, kind in HELPERS.items():
        if I.find(T + n) is not None:
            I.contracts[f"{I.pkg.name}.tools.changeyear.{n}"] = helper(kind)
    fn = I.find(T + "map_index_to_index")
    for f in ALLOWED:
        off = parse_freq(f)
        for same in (True, False):
            X = c.idx("X", freq=off)
            Y = c.idx("Y", freq=off)
            kind = {"15min": "hour", "h": "hour", "D": "day"}.get(off.str, "hour" if off.cls in ("Minute", "Hour") else "month")
            for hol in ("DE", None):
                ok = [f"{kind}: X -> Y, {h!r}" for h in ((hol, "ignored") if kind == "month" else (hol,))]

                def spec(o):
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    if not isinstance(o.value, SeriesV) or not hasattr(o.value, "to"):
                        return Undecided("unknown result")
                    return None if o.value.to in ok else f"uses mapping {o.value.to!r}, should be {ok[0]!r}"

                if same:
                    rep.explore(I, "Y01.dispatch", f"index with frequency {f}, holidays {hol!r}", lambda I: I.call(fn, [X, Y, hol], {}), spec)
                    continue
                for what, Z in (("other timezone", c.idx("Y", freq=off, tz=TokV("tz", "Z2"))), ("without timezone", c.idx("Y", freq=off, tz=None)), ("other frequency", c.idx("Y", freq=parse_freq("MS" if off.str != "MS" else "D")))):
                    for a, b in ((X, Z), (Z, X)):
                        def err(o):
                            if o.kind != "raise":
                                return "does not raise a ValueError"
                            return None if raised(o, "ValueError") else f"raises {o.value.typ.name}"

                        rep.explore(I, "Y01.mismatch", f"{'from' if a is Z else 'to'} index {what} ({f}), holidays {hol!r}", lambda I: I.call(fn, [a, b, hol], {}), err)


def hours(rep, I, tier):
    """(Quarter)hourly values: those of the mapped day, at the same time since the start of that day."""
    c = Ctx(I)
    for n, kind in HELPERS.items():
        if kind != "hour" and I.find(T + n) is not None:
            I.contracts[f"{I.pkg.name}.tools.changeyear.{n}"] = helper(kind)
    fn = I.find(T + "map_index_to_index")
    for f in ("h", "15min"):
        for sod, mins in (("00:00:00", 0), ("06:00:00", 360), ("05:30:00", 330)):
            for tz in (TokV("tz", "Z"), None):
                X, Y = (c.idx(n, freq=parse_freq(f), sod=TokV("sod", sod), tz=tz) for n in "XY")
                for hol in ("DE", None):
                    def run(I):
                        I.elemwise = True
                        try:
                            return I.call(fn, [X, Y, hol], {})
                        finally:
                            I.elemwise = False

                    def spec(o):
                        if o.kind == "raise":
                            return f"raises {o.value.typ.name}{o.value.args[:1]}"
                        m = o.value
                        if not isinstance(m, elem.ElemM):
                            return Undecided("unknown result")
                        x, y = "full(X -> D)", "full(Y -> D)"
                        if m.of.to != f"day: {x} -> {y}, {hol!r}":
                            return f"uses mapping {m.of.to!r} of the days"
                        return elem.day_and_offset(m, mins, tz is not None)

                    rep.explore(I, "Y01.hours", f"index with frequency {f}, start of day {sod}, {'with' if tz else 'without'} timezone, holidays {hol!r}", run, spec)


def years(rep, I, tier):
    """Timestamps of the target: same period, starting in the other year."""
    c = Ctx(I)
    fn = I.find(T + "index_with_year")
    for f in ALLOWED:
        X = c.idx("X", freq=parse_freq(f))
        for yr in (Num(E.atom("year"), None, True), 2025):
            y = E.num(yr) if isinstance(yr, int) else yr.expr
            y0 = E.atom("year(min of X)")
            ok = []
            for w, n, incl in (("max", "right(X)", "left"), ("end", "X", "left"), ("max", "X", "both")):
                end = E.simplify(E.add(y, E.sub(E.atom(f"year({w} of {n})"), y0)))
                ok.append(f"(range min in year {E.key(E.simplify(y))} of X, {w} in year {E.key(end)} of {n}, {X.freq}, {incl})")

            def run(I):
                I.timeline = {"X": 0}
                try:
                    return I.call(fn, [X, yr], {})
                finally:
                    I.timeline = {}

            def spec(o):
                I.trace = o.trace
                if o.kind == "raise":
                    return f"raises {o.value.typ.name}{o.value.args[:1]}"
                v = o.value
                if not isinstance(v, Idx):
                    return Undecided("unknown result")
                name = tsname(I, v)
                if not name.startswith("(range min in year") and not name.startswith("(range max in year") and " in year " not in name:
                    return Undecided("unknown timestamps " + name)
                if name not in ok:
                    return f"has timestamps {name}, should be {ok[0]}"
                if v.tz is not X.tz:
                    return f"has timezone {v.tz}, should be {X.tz}"
                return None if isinstance(v.freq, Offset) and v.freq.str == X.freq.str else f"has frequency {v.freq}, should be {X.freq.str}"

            rep.explore(I, "Y01.index", f"index with frequency {f} to {yr!r}", run, spec)


def Y01(rep, root, tier):
    from .contexts import load

    rep.group("lines", lines, load(root), tier)
    W = "tools.changeyear.map_frame_to_year"
    rep.group("frames", frames, load(root, (W,)), tier)
    rep.group("dispatch", dispatch, load(root, (W, "")), tier)
    rep.group("hours", hours, load(root, (W, "", "", "")), tier)
    rep.group("years", years, load(root, (W, "", "")), tier)
