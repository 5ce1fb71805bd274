"""F01, F02: comparison and period length of frequencies; exhaustive constant propagation over the finite set of allowed frequencies."""

from __future__ import annotations

from fractions import Fraction

from . import expr as E
from .contexts import Ctx
from .contracts import dur_atom
from .report import Undecided
from .values import ALLOWED, ExcInst, Idx, LenV, Num, Offset, SeriesV, StampV, Top, UnitV, parse_freq, parse_unit
from .timelib import CStamp, DeltaV

RANK = {"Minute": 0, "Hour": 1, "Day": 2, "MonthBegin": 3, "QuarterBegin": 4, "YearBegin": 5}


def rank(o):
    return RANK[o.cls]


def compare(a, b):
    """1 if a is longer, -1 if b is longer, 0 if the periods coincide, None if neither divides the other."""
    if rank(a) >= 4 and rank(b) >= 4:
        if a.month % 3 != b.month % 3:
            return None
        if rank(a) == 5 == rank(b):
            return 0 if a.month == b.month else None
    return (rank(a) > rank(b)) - (rank(a) < rank(b))


def raised(o, *names):
    return o.kind == "raise" and isinstance(o.value, ExcInst) and any(o.value.typ.is_sub(t) for t in types(*names))


def types(*names):
    from .values import ExcType
    from .interp import builtin_exc

    return [ExcType._cache.get(n) or builtin_exc(n) for n in names]


def show(o):
    if o.kind == "raise":
        return f"raises {o.value.typ.name}"
    return f"gives {getattr(o.value, 'str', None) if isinstance(o.value, Offset) else repr(o.value)}"


def F01(rep, I, tier):
    uod = I.find("tools.freq:up_or_down")
    suff = I.find("tools.freq:assert_freq_sufficiently_long")
    short = I.find("tools.freq:assert_freq_sufficiently_short")
    equal = I.find("tools.freq:assert_freq_equally_long")
    longest, shortest = I.find("tools.freq:longest"), I.find("tools.freq:shortest")
    forms = {"strings": lambda s: s, "offsets": parse_freq}
    for fm, form in forms.items():
        for a in ALLOWED:
            for b in ALLOWED:
                A, B = parse_freq(a), parse_freq(b)
                x, y = form(a), form(b)
                want = compare(A, B)

                def cmp(o):
                    if want is None:
                        return None if raised(o, "ValueError") else f"{show(o)}, should raise ValueError, as neither is a multiple of the other"
                    return None if o.kind == "return" and isinstance(o.value, int) and o.value == want else f"{show(o)}, should be {want}"

                rep.explore(I, "F01.up_or_down", f"up_or_down({a}, {b}) with {fm}", lambda I: I.call(uod, [x, y], {}), cmp)
                if fm == "strings":
                    rep.explore(I, "F01.up_or_down", f"up_or_down({a}, {b}) with keywords", lambda I: I.call(uod, [], {"freq_target": y, "freq_source": x}), cmp)
                d = rank(A) - rank(B)
                for nm, f, cases in (("long", suff, ((None, d >= 0), (False, d >= 0), (True, d > 0))), ("short", short, ((None, d <= 0), (False, d <= 0), (True, d < 0))), ("equal", equal, ((None, d == 0),))):
                    for strict, ok in cases:
                        for kw in (False, True) if strict is not None else (False,):
                            args, k = [x, y], {}
                            if strict is not None:
                                (k.__setitem__("strict", strict) if kw else args.append(strict))

                            def judge(o):
                                if ok:
                                    return None if o.kind == "return" else f"{show(o)}, should not raise an error"
                                return None if raised(o, "AssertionError") else f"{show(o)}, should raise AssertionError"

                            if fm == "offsets" and kw:
                                continue
                            rep.explore(I, f"F01.{nm}", f"{nm}({a}, {b}{'' if strict is None else f', strict={strict}'}{' (keyword)' if kw else ''}) with {fm}", lambda I: I.call(f, list(args), dict(k)), judge)
                extreme(rep, I, longest, shortest, (a, b), form, fm)
        for three in TRIPLES:
            extreme(rep, I, longest, shortest, three, form, fm)
        for a in ALLOWED:
            extreme(rep, I, longest, shortest, (a,), form, fm)
    for f, nm in ((longest, "longest"), (shortest, "shortest")):
        rep.explore(I, "F01.extreme", f"{nm} of nothing", lambda I: I.call(f, [], {}), lambda o: None if o.kind == "raise" else f"{show(o)}, should raise an error")


FEWF = ["15min", "h", "D", "MS", "QS", "QS-FEB", "YS", "YS-APR"]
TRIPLES = [(a, b, c) for a in FEWF for b in FEWF for c in FEWF if len({a, b, c}) > 1]
TRIPLES += [(a, b, c, d) for a, b, c, d in zip(FEWF, FEWF[3:] + FEWF[:3], FEWF[5:] + FEWF[:5], FEWF[6:] + FEWF[:6])]


def extreme(rep, I, longest, shortest, fr, form, fm):
    for f, nm, pick in ((longest, "longest", max), (shortest, "shortest", min)):
        want = pick(rank(parse_freq(x)) for x in fr)

        def judge(o):
            v = parse_freq(o.value) if o.kind == "return" and isinstance(o.value, str) else o.value
            if o.kind == "raise" or not isinstance(v, Offset):
                return f"{show(o)}, should be one of the arguments"
            if v not in [parse_freq(x) for x in fr] or rank(v) != want:
                return f"{show(o)}, which is not the {nm}"
            return None

        rep.explore(I, f"F01.{nm}", f"{nm}({', '.join(fr)}) with {fm}", lambda I: I.call(f, [form(x) for x in fr], {}), judge)


# ---- F02

PERIOD = {"Minute": DeltaV(seconds=900), "Hour": DeltaV(seconds=3600), "Day": DeltaV(days=1), "MonthBegin": DeltaV(months=1), "QuarterBegin": DeltaV(months=3), "YearBegin": DeltaV(months=12)}
INVALID = ["30min", "5min", "min", "-15min", "60min", "1440min", "45min", "2h", "6h", "-1h", "24h", "s", "900s", "2D", "7D", "-1D", "W", "W-MON", "B", "SMS", "ME", "2MS", "3MS", "12MS", "-1MS", "QE", "2QS", "2QS-FEB", "4QS", "-1QS", "YE", "2YS", "10YS-APR", "foo", "", "month"]
# lengths in hours that a period can have
HOURS = {"15min": [Fraction(1, 4)], "h": [Fraction(1)], "D": [23, Fraction(47, 2), 24, Fraction(49, 2), 25],
         "MS": [24 * d + e for d in (28, 29, 30, 31) for e in (-1, 0, 1)], "QS": [24 * d + e for d in (90, 91, 92) for e in (-1, 0, 1)], "YS": [24 * d + e for d in (365, 366) for e in (-1, 0, 1)]}
NOHOURS = [0, Fraction(1, 12), Fraction(1, 2), 2, 3, 6, 12, 48, 72, 168, 24 * 14, 24 * 20, 24 * 40, 24 * 61, 24 * 120, 24 * 182, 24 * 300, 24 * 730]


def F02(rep, I, tier):
    to_off, valid = I.find("tools.freq:to_offset"), I.find("tools.freq:assert_freq_valid")
    tdelta = I.find("tools.freq:from_tdelta")
    forms = {"string": lambda s: s, "offset": parse_freq}
    for fm, form in forms.items():
        for f in ALLOWED:
            o_ = parse_freq(f)
            want = PERIOD[o_.cls]
            rep.explore(I, "F02.to_offset", f"to_offset({f}) with {fm}", lambda I: I.call(to_off, [form(f)], {}),
                        lambda o: None if o.kind == "return" and o.value == want else unknown(o) or f"{show(o)}, should be {want}")
            rep.explore(I, "F02.assert_freq_valid", f"assert_freq_valid({f}) with {fm}", lambda I: I.call(valid, [form(f)], {}), lambda o: None if o.kind == "return" else f"{show(o)}, should be allowed")
        for f in INVALID:
            if form(f) is None:
                continue
            for nm, fn in (("to_offset", to_off), ("assert_freq_valid", valid)):
                rep.explore(I, f"F02.{nm}", f"{nm}({f}) with {fm}", lambda I: I.call(fn, [form(f)], {}), lambda o: None if raised(o, "ValueError") else unknown(o) or f"{show(o)}, should raise ValueError")
    for f, hs in HOURS.items():
        for h in hs:
            rep.explore(I, "F02.from_tdelta", f"from_tdelta of {h} h", lambda I: I.call(tdelta, [DeltaV(seconds=Fraction(h) * 3600)], {}),
                        lambda o: None if o.kind == "return" and (o.value == f or o.value == parse_freq(f)) else f"{show(o)}, should be {f}")
    for h in NOHOURS:
        rep.explore(I, "F02.from_tdelta", f"from_tdelta of {h} h", lambda I: I.call(tdelta, [DeltaV(seconds=Fraction(h) * 3600)], {}), lambda o: None if raised(o, "ValueError") else f"{show(o)}, should raise ValueError")
    rep.group("durations", durations, I, tier)


def unknown(o):
    return Undecided("unknown value") if isinstance(o.value, Top) else None


def durations(rep, I, tier):
    c = Ctx(I)
    for f, tz in [(f, tz) for f in ALLOWED for tz in (True, False)]:
        o_ = parse_freq(f)
        X = c.idx("X", freq=o_) if tz else c.idx("X", freq=o_, tz=None)
        naive = "" if tz else ", no timezone"
        d = dur_atom(o_)
        hours = Fraction(1, 4) if o_.cls == "Minute" else Fraction(1) if o_.cls == "Hour" else None

        def ser(o):
            v = o.value
            if o.kind == "raise":
                return show(o)
            if not isinstance(v, SeriesV):
                return unknown(o) or f"gives {v!r}, should be a series"
            if v.unit != parse_unit("h"):
                return f"unit is {v.unit}, should be hours"
            if v.expr is E.UNK:
                return Undecided("unknown values")
            ok = [d] + ([E.num(hours)] if hours else [])
            if not any(E.same(v.expr, x) for x in ok):
                return f"value is {v.expr}, should be the time between left and right bound, in hours"
            return None if v.idx.ts == X.ts and v.idx.freq == o_ else f"index is {v.idx}, should be {X}"

        for nm, arg in (("index", lambda: X), ("frame", lambda: SeriesV(E.atom("s"), X))):
            fn = I.find(f"tools.duration:{nm}")
            rep.explore(I, f"F02.duration.{nm}", f"duration.{nm} with frequency {f}{naive}", lambda I: I.call(fn, [arg()], {}), ser)
        st = StampV("t", None) if tz else StampV("t", None, None)

        def stamp(o):
            v = o.value
            if o.kind == "raise":
                return show(o)
            if not isinstance(v, Num):
                return unknown(o) or f"gives {v!r}, should be a quantity"
            if v.unit != parse_unit("h"):
                return f"unit is {v.unit}, should be hours"
            want = E.num(hours) if hours else span(PERIOD[o_.cls])
            return None if E.same(v.expr, want) else f"value is {v.expr}, should be {want}"

        fn = I.find("tools.duration:stamp")
        forms = {"string": lambda s: s, "offset": parse_freq}
        for fm, form in forms.items():
            rep.explore(I, "F02.duration.stamp", f"duration.stamp with frequency {f} as {fm}{naive}", lambda I: I.call(fn, [st, form(f)], {}), stamp)
            fs = I.find("tools.right:stamp")
            rep.explore(I, "F02.right.stamp", f"right.stamp with frequency {f} as {fm}{naive}", lambda I: I.call(fs, [st, form(f)], {}), lambda o: right(o, PERIOD[o_.cls]))
        fi = I.find("tools.right:index")
        rep.explore(I, "F02.right.index", f"right.index with frequency {f}{naive}", lambda I: I.call(fi, [X], {}), lambda o: right_i(o, X, PERIOD[o_.cls]))
    fs = I.find("tools.right:stamp")
    fd = I.find("tools.duration:stamp")
    for f in INVALID:
        for nm, fn in (("right.stamp", fs), ("duration.stamp", fd)):
            rep.explore(I, f"F02.{nm}", f"{nm} with frequency {f!r}", lambda I: I.call(fn, [StampV("t", None), f], {}), lambda o: None if raised(o, "ValueError") else unknown(o) or f"{show(o)}, should raise ValueError")


def span(d):
    """Hours between a timestamp and the one that is a certain period later."""
    from .timelib import span_atom

    return E.div(span_atom(d), E.num(3600))


def right(o, d):
    if o.kind == "raise":
        return show(o)
    v = o.value
    if isinstance(v, Top):
        return Undecided("unknown")
    want = ("+", "t", d)
    got = ("+", v.which[1], v.which[2]) if isinstance(v, StampV) and isinstance(v.which, tuple) and v.which[0] == "+" else None
    return None if got == want else f"gives {v!r}, should be {d} after the timestamp"


def right_i(o, X, d):
    if o.kind == "raise":
        return show(o)
    v = o.value
    if isinstance(v, Top) or not isinstance(v, Idx):
        return Undecided("unknown")
    if not isinstance(v.stat, tuple) or v.stat[:2] != ("+", d) or v.stat[2].ts != X.ts:
        return f"gives {v!r} ({v.stat}), should be {d} after the timestamps of the index"
    if v.freq != X.freq or v.name != "right":
        return f"index has frequency {v.freq} and name {v.name!r}, should be {X.freq} and 'right'"
    return None
