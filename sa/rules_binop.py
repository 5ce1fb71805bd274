"""A01-A04: binary operations on portfolio lines."""

from __future__ import annotations

from . import expr as E
from . import spec as SP
from .contexts import KINDS, Ctx
from .contracts import dur_atom
from .report import Undecided
from .values import FrameV, Num, Offset, SeriesV, TokV, U, UnitV, parse_freq, parse_unit, NODIM

OPS = ["Add", "Sub", "Mult", "Div", "BitOr"]


def opname(op, a, b):
    return f"{a} {SP.SIGN[op]} {b}"


def anyerror(o):
    """Outcome is an error raised on purpose or by a guard."""
    return o.kind == "raise"


def judge(I, o, want, aspect):
    """Complaint about the outcome of an operation for which ``want`` is expected."""
    if want == "error":
        if o.kind == "raise":
            return None
        if aspect in ("A01", "A04"):
            return f"returns {SP.describe(o.value)}, should raise an error"
        return None
    if o.kind == "raise":
        if aspect == "A01":
            return f"raises {o.value.typ.name}{o.value.args[:1]}, should return a value"
        return None
    v = o.value
    if aspect == "A01":
        return SP.cmp_kind(I, v, want)
    if aspect == "A02":
        return SP.cmp_values(I, v, want)
    if aspect == "A03":
        return SP.cmp_index(I, v, want)
    return None


def empty_overlap(I, o, want):
    ts = want[1] if isinstance(want, tuple) else want.ts
    return I.ts_norm(ts) == frozenset(["~empty"])


def run_op(rep, I, aspect, what, fn, want):
    def judge_(o):
        I.trace = o.trace
        if want == "error" and any(isinstance(k, tuple) and k[0] == "allclose" and v for k, v in o.facts.items()):
            return None  # the other operand is zero: may be ignored
        if want != "error" and empty_overlap(I, o, want):
            if aspect == "A03" and o.kind != "raise":
                return f"operands have no timestamp in common; returns {SP.describe(o.value)}, should raise an error"
            return None
        return judge(I, o, want, aspect)

    rep.explore(I, f"{aspect}.binary-operation", what, fn, judge_)


def wanted(op, a, b):
    try:
        return SP.OPS[op](a, b)
    except SP.SpecError:
        return "error"


def flatten_unless(op, a, b):
    if op in ("Add", "Sub") and a.nested and b.nested:
        return a, b
    return a.flat, b.flat


def line_operands(I, c, tier):
    """(name, make(kind, tag, idx), spec(kind, tag, idx)) of the structures of a line."""
    yield "flat", lambda k, n, i: c.flat(k, n, i), lambda k, n, i: SP.flat(c, k, n, i)
    yield "nested", lambda k, n, i: c.nested(k, n, i, CH[n]), lambda k, n, i: SP.nested(c, k, n, i, CH[n])
    yield "deep", lambda k, n, i: c.nested(k, n, i, CH[n], 2), lambda k, n, i: SP.nested(c, k, n, i, CH[n], 2)


CH = {"a": ["l1", "b1", "l2", "b2"], "b": ["r1", "b2", "b1", "r2"]}


def binop(I, op, a, b):
    return I.lib.binop(I, op, a, b)


def lines_with_lines(rep, I, aspect, tier):
    c = Ctx(I)
    structs = list(line_operands(I, c, tier))
    for s1, m1, p1 in structs:
        for s2, m2, p2 in structs:
            if tier == "quick" and "deep" in (s1, s2) and (s1, s2) not in (("deep", "deep"), ("deep", "flat"), ("nested", "deep")):
                continue
            for same in (True, False):
                X = c.idx("X")
                Y = X if same else c.idx("Y")
                for k1 in KINDS:
                    for k2 in KINDS:
                        if k1 != k2 and "deep" in (s1, s2) and tier == "quick":
                            continue
                        for op in OPS:
                            a, b = p1(k1, "a", X), p2(k2, "b", Y)
                            want = wanted(op, *flatten_unless(op, a, b))
                            what = opname(op, f"{s1} {k1.lower()}", f"{s2} {k2.lower()} ({'same' if same else 'other'} timestamps)")
                            run_op(rep, I, aspect, what, lambda I: binop(I, op, m1(k1, "a", X), m2(k2, "b", Y)), want)


def empty_rows(rep, I, aspect, tier):
    """Operands of which some rows are zero (and, if they have volume and price, without price)."""
    c = Ctx(I)
    structs = [s for s in line_operands(I, c, tier) if s[0] != "deep"]
    X = c.idx("X")
    for s1, m1, p1 in structs:
        for s2, m2, p2 in structs:
            odds = [("a",) if s1 == "flat" else ("a.l1", "a.b1"), ("b",) if s2 == "flat" else ("b.r1", "b.b1")]
            for odd in (odds[0], odds[1], odds[0] + odds[1]):
                for k1 in KINDS:
                    for k2 in KINDS:
                        for op in OPS:
                            c.odd, c.priced = odd, ()
                            want = wanted(op, *flatten_unless(op, p1(k1, "a", X), p2(k2, "b", X)))
                            if want == "error":
                                continue
                            what = opname(op, f"{s1} {k1.lower()}", f"{s2} {k2.lower()}") + f", some rows of {' and '.join(odd)} are zero"

                            def fn(I):
                                c.odd = odd
                                return binop(I, op, m1(k1, "a", X), m2(k2, "b", X))

                            run_op(rep, I, aspect, what, fn, want)
        n = E.atom("n")
        for odd, priced in ((odds[0], ()), (odds[0], odds[0])):
            for k1 in KINDS if not priced else ("COMPLETE",):
                for name, make, refl in (("float", lambda: Num(n), False), ("float", lambda: Num(n), True), ("float series", lambda: SeriesV(n, X), False), ("-1", lambda: -1, True)):
                    for op in ("Mult", "Div"):
                        if refl and op == "Div":
                            continue
                        c.odd, c.priced = odd, priced
                        f = E.num(-1) if name == "-1" else n
                        want = SP.scale(p1(k1, "a", X), f if op == "Mult" else E.div(E.ONE, f))
                        nm = f"{s1} {k1.lower()}"

                        def fn(I):
                            c.odd, c.priced = odd, priced
                            x, y = m1(k1, "a", X), make()
                            return binop(I, op, y, x) if refl else binop(I, op, x, y)

                        run_op(rep, I, aspect, (opname(op, name, nm) if refl else opname(op, nm, name)) + f", some rows of {' and '.join(odd)} are zero{' but have a price' if priced else ''}", fn, want)


def other_operands(I, c, X, Y):
    """Things that are not a portfolio line: (name, make, spec line | ('factor', expr, ts) | None | 'zero' | 'error')."""
    n = E.atom("n")
    ser = lambda e, i, u=None: SeriesV(e, i, u, None)
    d = dur_atom(X.freq)
    out = []
    out.append(("float", lambda: Num(n), ("agn", n, X.ts)))
    out.append(("float series", lambda: ser(n, Y), ("agn", n, Y.ts)))
    z = E.Ite("$n", E.ZERO, n)
    out.append(("float series with some zeros", lambda: ser(z, Y), ("some", z, Y.ts)))
    out.append(("dimensionless series with some zeros", lambda: ser(z, Y, NODIM), ("some", z, Y.ts)))
    out.append(("None", lambda: None, None))
    out.append(("0.0", lambda: Num(E.ZERO), "zero"))
    out.append(("dimensionless quantity", lambda: Num(n, NODIM), ("agn", n, X.ts)))
    out.append(("dimensionless series", lambda: ser(n, Y, NODIM), ("agn", n, Y.ts)))
    for k, col, unit, f in [
        ("VOLUME", "w", "MW", 1), ("VOLUME", "w", "kW", 1000), ("VOLUME", "q", "MWh", 1), ("VOLUME", "q", "GWh", E.num(1) and 0.001),
        ("PRICE", "p", "euro_per_MWh", 1), ("PRICE", "p", "cent_per_kWh", 0.1), ("REVENUE", "r", "Eur", 1), ("REVENUE", "r", "ct", 100),
    ]:
        u = parse_unit(unit)
        e = E.mul(n, E.num(u.scale))
        out.append((f"quantity in {unit}", lambda u=u: Num(n, u), SP.mk(k, X.ts, X, **{col: e})))
        out.append((f"series in {unit}", lambda u=u: ser(n, Y, u), SP.mk(k, Y.ts, Y, **{col: e})))
        if f == 1:
            out.append((f"dict {{{col!r}: float}}", lambda col=col: {col: Num(n)}, SP.mk(k, X.ts, X, **{col: n})))
            out.append((f"dict {{{col!r}: series}}", lambda col=col: {col: ser(n, Y)}, SP.mk(k, Y.ts, Y, **{col: n})))
            out.append((f"dataframe with {col!r}", lambda col=col: FrameV({col: SeriesV(n, Y, None, col)}, Y), SP.mk(k, Y.ts, Y, **{col: n})))
    m = E.atom("m")
    out.append(("dict with 'w' and 'p'", lambda: {"w": ser(n, Y), "p": Num(m)}, SP.mk("COMPLETE", Y.ts, Y, w=n, p=m)))
    out.append(("dict with 'nodim' and 'w'", lambda: {"nodim": ser(m, Y), "w": ser(n, Y)}, "error"))
    for u in ("h", "degC"):
        out.append((f"quantity in {u}", lambda u=u: Num(n, parse_unit(u)), "error"))
    return out


def want_other(op, a, spec, reflected=False):
    if isinstance(spec, SP.SL):
        x, y = (spec, a.flat) if reflected else (a.flat, spec)
        return wanted(op, x, y)
    if spec == "error":
        return "error"
    if spec is None or spec == "zero":
        if op in ("Add", "Sub") or (op == "BitOr" and spec is None):
            return "same-neg" if (reflected and op == "Sub") else "same"
        if op == "BitOr":
            return None  # no statement about union with zero
        return "error" if spec is None else None  # (division by) zero: no statement
    some, f, ts = spec
    if some == "some" and (op == "Div" or reflected):
        return None  # division by zero: no statement
    if op == "Mult":
        return SP.scale(a, f, ts)
    if op == "Div" and not reflected:
        return SP.scale(a, E.div(E.ONE, f), ts)
    return "error"


def lines_with_others(rep, I, aspect, tier):
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")
    for s1, m1, p1 in line_operands(I, c, tier):
        if s1 == "deep" and tier == "quick":
            continue
        for k1 in KINDS:
            for name, make, spec in other_operands(I, c, X, Y):
                for op in OPS:
                    a = p1(k1, "a", X)
                    for refl in (False, True):
                        if refl and not (name in ("float", "None", "0.0") or name.startswith("dict")):
                            continue
                        if refl and op == "Div" and spec in (None, "zero"):
                            continue
                        want = want_other(op, a, spec, refl)
                        if want is None:
                            continue
                        if want in ("same", "same-neg"):
                            want = a if want == "same" else SP.scale(a, E.num(-1))
                        nm = f"{s1} {k1.lower()}"
                        what = opname(op, name, nm) if refl else opname(op, nm, name)
                        if refl:
                            fn = lambda I: binop(I, op, make(), m1(k1, "a", X))
                        else:
                            fn = lambda I: binop(I, op, m1(k1, "a", X), make())
                        run_op(rep, I, aspect, what, fn, want)


def incompatible(c):
    """Pairs of indices that may never be combined."""
    F = lambda s: parse_freq(s)
    d = [("freq", "D", "h"), ("freq", "h", "15min"), ("freq", "MS", "D"), ("freq", "QS-JAN", "QS-APR"), ("freq", "QS-JAN", "QS-FEB"), ("freq", "YS-JAN", "YS-APR"), ("freq", "QS-JAN", "MS"), ("freq", "YS-JAN", "QS-JAN")]
    for _, f, g in d:
        yield f"frequency {f} and {g}", c.idx("X", freq=F(f)), c.idx("Y", freq=F(g))
        yield f"frequency {g} and {f}", c.idx("X", freq=F(g)), c.idx("Y", freq=F(f))
    Z2 = TokV("tz", "Z2")
    for a, b in [(c.tz, Z2), (c.tz, None), (None, c.tz)]:
        for f in (c.freq, F("h"), F("MS")):
            yield f"timezone {a} and {b} (frequency {f})", c.idx("X", tz=a, freq=f), c.idx("Y", tz=b, freq=f)
    T2 = TokV("sod", "T2")
    for f in (c.freq, F("h"), F("D"), F("YS-JAN")):
        yield f"start-of-day {c.sod} and {T2} (frequency {f})", c.idx("X", freq=f), c.idx("Y", sod=T2, freq=f)


def incompatible_lines(rep, I, tier):
    c = Ctx(I)
    structs = [s for s in line_operands(I, c, tier) if s[0] != "deep"]
    for nm, X, Y in incompatible(c):
        for s1, m1, p1 in structs:
            for s2, m2, p2 in structs:
                for k1 in KINDS:
                    for k2 in KINDS:
                        for op in OPS:
                            a, b = flatten_unless(op, p1(k1, "a", X), p2(k2, "b", Y))
                            if wanted(op, a, b) == "error" and tier == "quick":
                                continue
                            what = opname(op, f"{s1} {k1.lower()}", f"{s2} {k2.lower()}") + f" with {nm}"
                            run_op(rep, I, "A04", what, lambda I: binop(I, op, m1(k1, "a", X), m2(k2, "b", Y)), "error")
        # other operands with an index
        m = E.atom("n")
        for k1 in KINDS:
            for name, make, sp in other_operands(I, c, X, Y):
                if not ("series" in name or "dataframe" in name):
                    continue
                for op in OPS:
                    w = want_other(op, SP.flat(c, k1, "a", X), sp)
                    if w == "error" or w is None:
                        continue
                    what = opname(op, f"flat {k1.lower()}", name) + f" with {nm}"
                    run_op(rep, I, "A04", what, lambda I: binop(I, op, c.flat(k1, "a", X), make()), "error")


def averages(rep, I, tier):
    from .rules_wavg import used

    used(rep, I, tier, frames=True)


def A(rep, I, aspect, tier):
    lines_with_lines(rep, I, aspect, tier)
    lines_with_others(rep, I, aspect, tier)
    if aspect == "A02":
        empty_rows(rep, I, aspect, tier)
        rep.group("average", averages, I, tier)
