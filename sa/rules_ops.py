"""Resampling, selecting, comparing, and immutability of portfolio lines: A09, A11, A12, A13."""

from __future__ import annotations

from . import expr as E
from . import rules_create as RC
from . import rules_line as RL
from . import spec as SP
from .contexts import COLS, KINDS, Ctx
from .contracts import fname
from .report import Undecided
from .values import BoolV, FrameV, FreqV, Idx, Instance, Num, SeriesV, StampV, StrV, TokV, Top, U, parse_freq, parse_unit

NAMES = RL.NAMES


def spec_line(c, st, k, n, idx, names=NAMES):
    if st == "flat":
        return SP.flat(c, k, n, idx)
    return SP.nested(c, k, n, idx, names, 2 if st == "deep" else 1)


# ---- A09

def resampling(rep, I, tier):
    c = Ctx(I)
    for src in (FreqV("F"), parse_freq("h"), parse_freq("D"), parse_freq("MS")):
        X = c.idx("X", freq=src)
        for tgt in (FreqV("G"), "h", "D", "MS", "QS", "QS-FEB", "YS", "YS-APR", None):
            if isinstance(src, FreqV) != isinstance(tgt, FreqV) and tgt is not None:
                if tier == "quick" and tgt not in ("MS", "D"):
                    continue
            for st in ("flat", "nested", "deep"):
                if st == "deep" and tgt is not None and not isinstance(tgt, FreqV):
                    continue
                for k in KINDS:
                    for how in ("positional", "keyword") if isinstance(tgt, FreqV) else ("positional",):
                        args, kw = ([], {}) if tgt is None else ([tgt], {}) if how == "positional" else ([], {"freq": tgt})
                        f = "MS" if tgt is None else tgt

                        def fn(I):
                            return RL.method(I, RL.make(c, st, k, "a", X), "asfreq", *args, **kw)

                        def spec(o):
                            I.trace = o.trace
                            ff = parse_freq(f) if isinstance(f, str) else f
                            same = ff is src or o.facts.get(("freqeq", "F", "G")) is True or freq_same(I, o, ff, src)
                            s = spec_line(c, st, k, "a", X)
                            if same:
                                want = s
                            else:
                                want = SP.asfreq(s, ff)
                                want = retime(want, frozenset({f"full(X -> {fname(ff)})"}))
                            if o.kind == "raise":
                                if I.ts_norm(want.ts) == frozenset(["~empty"]):
                                    return None
                                return f"raises {o.value.typ.name}{o.value.args[:1]}"
                            if not same and not RC.known_nonempty(I, o, want.ts):
                                return "returns a value without having checked that there are full periods"
                            return SP.cmp_kind(I, o.value, want) or SP.cmp_values(I, o.value, want) or SP.cmp_index(I, o.value, want)

                        rep.explore(I, f"{rep.pid}.asfreq", f"{st} {k.lower()} line, {fname(src)} to {f!r} ({how})", fn, spec)


def freq_same(I, o, a, b):
    from .lib import freq_eq

    r = freq_eq(I, a, b)
    if isinstance(r, bool):
        return r
    if isinstance(r, BoolV):
        v = o.facts.get(r.term)
        if v is None:
            return False
        return (not v) if r.neg else v
    return False


def retime(s, ts):
    ch = {n: retime(x, ts) for n, x in s.children.items()} if s.nested else None
    return SP.SL(s.kind, ts, s.idx, s.v, ch)


def A09(rep, I, tier):
    rep.group("asfreq", resampling, I, tier)
    bodies(rep, I, tier)


def bodies(rep, I, tier):
    """The functions that do the resampling and trimming, also on their own."""
    from . import rules_resample as RR
    from .contexts import load

    J = load(str(I.pkg.root), ("tools.changefreq.summable", "tools.changefreq.averagable", "tools.changefreq.index"))
    rep.group("values", RR.change, J, tier)
    rep.group("trim", RR.trimming, RR.without_trim(J), tier)


# ---- A11

def selection(rep, I, tier):
    c = Ctx(I)
    X = c.idx("X")
    a, b = StampV("a", None), StampV("b", None)
    sel = TokV("selector", "rows")
    lo, hi = f"(not(ts<{key(a)}))", f"(ts<{key(b)})"
    cases = [
        ("slice", slice(a, b), {lo, hi}), ("slice", slice(a, None), {lo}), ("slice", slice(None, b), {hi}), ("slice", slice(None, None), set()),
        ("loc", slice(a, b), {lo, f"(ts<={key(b)})"}), ("loc", slice(a, None), {lo}), ("loc", slice(None, b), {f"(ts<={key(b)})"}), ("loc", slice(None, None), set()),
        ("loc", sel, {"(rows)"}),
    ]
    for st in ("flat", "nested", "deep"):
        for k in KINDS:
            for which, key_, gens in cases:
                def fn(I):
                    return RL.select(I, RL.make(c, st, k, "a", X), which, key_)

                def spec(o):
                    I.trace = o.trace
                    ts = frozenset({"X"} | gens)
                    want = retime(spec_line(c, st, k, "a", X), ts)
                    if o.kind == "raise":
                        return None if RL.excused(o) else f"raises {o.value.typ.name}{o.value.args[:1]}"
                    m = SP.cmp_kind(I, o.value, want) or SP.cmp_values(I, o.value, want) or SP.cmp_index(I, o.value, want)
                    if not m and SP.children_of(o.value) is not None and list(SP.children_of(o.value)) != NAMES:
                        m = f"children are {list(SP.children_of(o.value))}"
                    return m

                rep.explore(I, f"{rep.pid}.selection", f"{which}[{show(key_)}] of {st} {k.lower()} line", fn, spec)


def key(s):
    from .lib import stamp_key

    return stamp_key(s)


def show(k):
    if isinstance(k, slice):
        return f"{'a' if k.start is not None else ''}:{'b' if k.stop is not None else ''}"
    return "rows"


def A11(rep, I, tier):
    rep.group("selection", selection, I, tier)


# ---- A12

def equality(rep, I, tier):
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")

    def eq(I, x, y, op="Eq"):
        return I.lib.compare(I, op, x, y)

    # same data
    for st in ("flat", "nested", "deep"):
        for k in KINDS:
            def same(I):
                return I.truth(eq(I, RL.make(c, st, k, "a", X), RL.make(c, st, k, "a", X)))

            rep.explore(I, f"{rep.pid}.equal", f"{st} {k.lower()} lines with the same data", same, lambda o: verdict(o, True))
            # any difference in one column / child / timestamps / unit
            for what, make in different(c, st, k, X, Y):
                def diff(I):
                    return I.truth(eq(I, RL.make(c, st, k, "a", X), make()))

                rep.explore(I, f"{rep.pid}.different", f"{st} {k.lower()} lines, {what}", diff, lambda o: verdict_diff(I, o))

                def diff2(I):
                    return I.truth(eq(I, make(), RL.make(c, st, k, "a", X)))

                rep.explore(I, f"{rep.pid}.different", f"{st} {k.lower()} lines, {what} (swapped)", diff2, lambda o: verdict_diff(I, o))
            for st2 in ("flat", "nested", "deep"):
                for k2 in KINDS:
                    if (st2 == "flat") == (st == "flat") and k == k2:
                        continue
                    rep.explore(I, f"{rep.pid}.kind-or-structure", f"{st} {k.lower()} line == {st2} {k2.lower()} line",
                                lambda I: I.truth(eq(I, RL.make(c, st, k, "a", X), RL.make(c, st2, k2, "a", X))), lambda o: verdict(o, False))
            for what, other in (("number", lambda: 3.0), ("string", lambda: "x"), ("None", lambda: None), ("list", lambda: [1]), ("dict", lambda: {"a": 1}), ("tuple", lambda: ()), ("object", lambda: TokV("obj", "o"))):
                rep.explore(I, f"{rep.pid}.other-object", f"{st} {k.lower()} line == {what}", lambda I: I.truth(eq(I, RL.make(c, st, k, "a", X), other())), lambda o: verdict(o, False))
                rep.explore(I, f"{rep.pid}.other-object", f"{st} {k.lower()} line != {what}", lambda I: I.truth(eq(I, RL.make(c, st, k, "a", X), other(), "NotEq")), lambda o: verdict(o, True))


def verdict(o, want):
    if o.kind == "raise":
        return f"raises {o.value.typ.name}{o.value.args[:1]}, should be {want}"
    if isinstance(o.value, Top):
        return Undecided("unknown result")
    return None if o.value is want else f"is {SP.describe(o.value)}, should be {want}"


def verdict_diff(I, o):
    """True only on a path on which the data were found to be the same."""
    if o.kind == "raise":
        return f"raises {o.value.typ.name}{o.value.args[:1]}, should be False"
    if isinstance(o.value, Top):
        return Undecided("unknown result")
    found = [v for k, v in o.facts.items() if isinstance(k, tuple) and k[0] in ("serieseq", "idxeq", "freqeq", "eq", "tseq")]
    if o.value is True:
        if not found:
            return "is True without having compared the difference"
        if not all(found):
            return "is True although a difference was found"
        for e in o.trace.events:
            if e["kind"] == "series-equal":
                m = RC.tolerance(e["kwargs"], (("rtol", 1.1e-5), ("atol", 1.1e-8)))
                if m:
                    return m
        return None
    if o.value is False:
        return None if (not found or not all(found)) else "is False although no difference was found"
    return f"is {o.value}"


def different(c, st, k, X, Y):
    I = c.I
    if st == "flat":
        cols = {"VOLUME": ["w"], "PRICE": ["p"], "REVENUE": ["r"], "COMPLETE": ["w", "p"]}[k]
        for col in cols:
            def make(col=col):
                s = {x: E.atom(f"{x}_a") for x in "wpr"}
                s[col] = E.atom(f"other_{col}")
                return line(c, k, s, X)

            yield f"other {col}", make
        yield "other timestamps", lambda: RL.make(c, st, k, "a", Y)
    else:
        for n in NAMES:
            def make(n=n):
                x = RL.make(c, st, k, "a", X)
                ch = dict(x.attrs["children"])
                ch[n] = RL.make(c, "flat" if st == "nested" else "nested", k, "z", X, [n + "1", n + "2"])
                return I.call(c.cls("nested", k), [ch], {})

            yield f"other child {n}", make

            def fewer(n=n):
                x = RL.make(c, st, k, "a", X)
                return I.call(c.cls("nested", k), [{m: v for m, v in x.attrs["children"].items() if m != n}], {})

            yield f"child {n} missing", fewer

            def renamed(n=n):
                x = RL.make(c, st, k, "a", X)
                return I.call(c.cls("nested", k), [{(m + "_" if m == n else m): v for m, v in x.attrs["children"].items()}], {})

            yield f"child {n} has other name", renamed


def line(c, k, s, X):
    """Flat line with the given independent value numbers."""
    from .contracts import dur_atom
    from .values import FrameV

    w, p, r = s["w"], s["p"], s["r"]
    q = E.mul(w, dur_atom(X.freq))
    if k == "COMPLETE":
        r = E.mul(q, p)
    v = dict(w=w, q=q, p=p, r=r)
    return c.I.call(c.cls("flat", k), [FrameV({x: SeriesV(v[x], X, U[x], x) for x in COLS[k]}, X)], {})


def truth(rep, I, tier):
    c = Ctx(I)
    X = c.idx("X")
    for k in KINDS:
        zero = {x: E.ZERO for x in "wpr"}
        val = {x: E.atom(f"{x}_a") for x in "wpr"}
        cases = [("all zero", zero, False), ("nonzero", val, True)]
        if k == "COMPLETE":
            cases = [("all zero", zero, False), ("nonzero", val, True), ("price without volume", {**zero, "p": E.atom("p_a")}, False), ("volume without price", {**zero, "w": E.atom("w_a")}, True)]
        for what, s, want in cases:
            rep.explore(I, f"{rep.pid}.truth", f"flat {k.lower()} line, {what}", lambda I: I.truth(line(c, k, s, X)), lambda o: verdict_truth(I, o, want))
            for pos in range(3):
                names = ["c", "a", "b"]

                def nest(I):
                    return I.truth(I.call(c.cls("nested", k), [{n: line(c, k, s if i == pos else zero, X) for i, n in enumerate(names)}], {}))

                rep.explore(I, f"{rep.pid}.truth", f"nested {k.lower()} line, child {pos} is {what} and others are zero", nest, lambda o: verdict_truth(I, o, want))
        if k == "COMPLETE":
            # revenue without volume
            from .values import FrameV

            def rev(I):
                v = dict(w=E.ZERO, q=E.ZERO, p=E.NAN, r=E.atom("r_a"))
                return I.truth(I.call(c.cls("flat", k), [FrameV({x: SeriesV(v[x], X, U[x], x) for x in COLS[k]}, X)], {}))

            rep.explore(I, f"{rep.pid}.truth", "flat complete line, revenue without volume", rev, lambda o: verdict_truth(I, o, True))
        # cancelling children
        def cancel(I):
            s = {x: E.atom(f"{x}_a") for x in "wpr"}
            t = {x: E.neg(E.atom(f"{x}_a")) for x in "wpr"}
            if k == "COMPLETE":
                t["p"] = s["p"]
            return I.truth(I.call(c.cls("nested", k), [{"x": line(c, k, s, X), "y": line(c, k, t, X)}], {}))

        rep.explore(I, f"{rep.pid}.truth", f"nested {k.lower()} line with children that cancel", cancel, lambda o: verdict_truth(I, o, True))


def verdict_truth(I, o, want):
    if o.kind == "raise":
        return f"raises {o.value.typ.name}{o.value.args[:1]}"
    if isinstance(o.value, Top):
        return Undecided("unknown")
    # a path on which a nonzero value was assumed to be close to zero everywhere
    close = [v for k, v in o.facts.items() if isinstance(k, tuple) and "close" in str(k[0])]
    if want and o.value is False and close and all(close):
        return None
    return None if o.value is want else f"is {o.value}, should be {want}"


def comparing(rep, I, tier):
    """The functions that compare series and frames, on their own."""
    c = Ctx(I)
    X = c.idx("X")
    ser, fr = I.find("tools.testing:assert_series_equal"), I.find("tools.testing:assert_frame_equal")

    def s(x=1, unit="MWh", name="a", idx=X):
        return SeriesV(E.num(x) if isinstance(x, int) else E.atom(x), idx, unit and parse_unit(unit), name)

    def frame(**cols):
        return FrameV({n: s(x, unit, n) for n, (x, unit) in cols.items()}, X)

    def ok(o):
        return f"raises {o.value!r}" if o.kind == "raise" else None

    def bad(o):
        if o.kind == "raise":
            return None if o.value.typ.name == "AssertionError" else f"raises {o.value.typ.name}, should raise AssertionError"
        return "is accepted, should raise AssertionError"

    ns = {}
    cases = [
        (ok, "same values", s("v"), s("v"), ns), (ok, "same values, no unit", s("v", None), s("v", None), ns), (bad, "other values", s(1), s(2), ns), (bad, "other values, no unit", s(1, None), s(2, None), ns),
        (bad, "other unit, same numbers", s(1), s(1, "MW"), ns), (bad, "other unit of energy, same numbers", s(1), s(1, "GWh"), ns), (bad, "unit and no unit", s(1), s(1, None), ns),
        (bad, "other name", s(1), s(1, name="b"), ns), (ok, "other name, which is not compared", s(1), s(1, name="b"), {"check_names": False}), (bad, "other values, names are not compared", s(1), s(2, name="b"), {"check_names": False}),
        (bad, "values and none", s(1), SeriesV(E.NAN, X, parse_unit("MWh"), "a"), ns),
    ]
    for want, what, l, r, k in cases:
        for x, y, sw in ((l, r, ""), (r, l, " (swapped)")):
            rep.explore(I, "A12.series", f"compare series: {what}{sw}", lambda I: I.call(ser, [x, y], dict(k)), want)
    q, p, n = ("v", "MWh"), ("u", "Eur/MWh"), ("t", None)
    base = dict(a=q, b=p, c=n)
    frames = [
        (ok, "same data", frame(**base), frame(**base)), (ok, "same data, other order of columns", frame(**base), frame(c=n, a=q, b=p)), (bad, "a column more", frame(**base), frame(**base, d=n)),
        (bad, "a column more, at the front", frame(**base), frame(A=n, **base)), (bad, "none of the columns", frame(**base), FrameV({}, X)), (bad, "other name of a column", frame(a=q, b=p), frame(a=q, c=p)),
        (bad, "columns swapped", frame(a=(1, "MWh"), b=(2, "MWh")), frame(a=(2, "MWh"), b=(1, "MWh"))),
    ]
    for x, col in enumerate("abc"):
        one = {n: (1, u) for n, (_, u) in base.items()}
        frames.append((bad, f"other values in column {x}", frame(**one), frame(**{**one, col: (2, one[col][1])})))
        frames.append((bad, f"other unit in column {x}", frame(**one), frame(**{**one, col: (1, "h")})))
    for want, what, l, r in frames:
        for x, y, sw in ((l, r, ""), (r, l, " (swapped)")):
            rep.explore(I, "A12.frame", f"compare frames: {what}{sw}", lambda I: I.call(fr, [x, y], {}), want)


def A12(rep, I, tier):
    from .contexts import load

    J = load(str(I.pkg.root), ("tools.testing.assert_series_equal", "tools.testing.assert_frame_equal"))
    rep.group("equality", equality, J, tier)
    rep.group("comparing", comparing, J, tier)
    rep.group("truth", truth, I, tier)
