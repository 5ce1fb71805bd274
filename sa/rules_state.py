"""Portfolio states: B01-B04, and the parts of A04, A11, A12 about states."""

from __future__ import annotations

from . import expr as E
from . import rules_binop as RB
from . import rules_line as RL
from . import rules_ops as RO
from . import spec as SP
from .contexts import COLS, KINDS, Ctx
from .contracts import S, _freqarg, dur_atom, fname
from .report import Undecided
from .values import BoolV, FrameV, FreqV, Idx, Instance, Num, SeriesV, StampV, StrV, TokV, Top, U, NODIM, parse_freq, parse_unit

CLS = "core.pfstate.pfstate:PfState"
COMBOS = [(o, s, u) for o in ("flat", "nested") for s in (None, "flat", "nested") for u in ("flat", "nested")]
FEW = [("flat", None, "flat"), ("flat", "flat", "flat"), ("nested", "nested", "flat"), ("flat", "nested", "nested"), ("nested", "flat", "flat")]


def combos(tier):
    return FEW if tier == "quick" else COMBOS + [("deep", "deep", "deep")]


class ST:
    """A portfolio state as a mathematical object: three spec lines."""

    def __init__(self, o, u, s):
        self.o, self.u, self.s = o, u, s

    @property
    def uns(self):
        w = E.neg(E.add(self.o.v["w"], self.s.v["w"]))
        return SP.mk("COMPLETE", self.o.ts | self.s.ts | self.u.ts, self.o.idx, w=w, p=self.u.v["p"])

    def at(self, ts):
        return ST(*(RO.retime(x, ts) for x in (self.o, self.u, self.s)))


def zero(idx, ts=None):
    return SP.SL("COMPLETE", ts or idx.ts, idx, dict(w=E.ZERO, q=E.ZERO, p=E.NAN, r=E.ZERO))


def make(c, combo, X, n=""):
    so, ss, su = combo
    args = [RL.make(c, so, "VOLUME", "o" + n, X), RL.make(c, su, "PRICE", "u" + n, X)]
    args += [None if ss is None else RL.make(c, ss, "COMPLETE", "s" + n, X)]
    return c.I.call(c.I.find(CLS), args, {})


def spec(c, combo, X, n=""):
    so, ss, su = combo
    return ST(RO.spec_line(c, so, "VOLUME", "o" + n, X), RO.spec_line(c, su, "PRICE", "u" + n, X), zero(X) if ss is None else RO.spec_line(c, ss, "COMPLETE", "s" + n, X))


def is_state(v):
    return isinstance(v, Instance) and v.cls.name == "PfState"


def cmp_line(I, v, want, what):
    m = SP.cmp_kind(I, v, want) or SP.cmp_values(I, v, want)
    if not m:
        # a part without volume has no price
        w = want
        if isinstance(want, SP.SL) and want.kind == "COMPLETE" and SP.frame(v) is not None:
            w = SP.SL(want.kind, want.ts, want.idx, {k: (E.NAN if E.has_nan(x) else x) for k, x in want.v.items()}, want.children)
        m = SP.cmp_index(I, v, w)
    if not m and isinstance(want, SP.SL) and want.nested:
        got = list(SP.children_of(v) or [])
        if got != list(want.children):
            m = f"children are in order {got}, should be {list(want.children)}"
    if m:
        return type(m)(f"{what}: {m}")
    return None


PARTS = [("offtakevolume", "o"), ("unsourcedprice", "u"), ("sourced", "s")]


def cmp_state(I, v, want):
    if isinstance(v, Top):
        return Undecided("unknown result")
    if not is_state(v):
        return f"result is {SP.describe(v)}, should be a portfolio state"
    for a, b in PARTS:
        if a not in v.attrs:
            return Undecided("unknown part")
        m = cmp_line(I, v.attrs[a], getattr(want, b), a)
        if m:
            return m
    return None


def same_state(I, x, y):
    if isinstance(x, Top) or isinstance(y, Top):
        return Undecided("unknown state")
    if not is_state(x):
        return f"result is {SP.describe(x)}, should be a portfolio state"
    for a, b in PARTS:
        m = RL.same_line(I, x.attrs[a], y.attrs[a], a)
        if m:
            return m
    return None


def expect(rep, I, rule, what, fn, want, excuse=None):
    """Outcome is the state / line / series ``want`` (or an error)."""

    def judge(o):
        I.trace = o.trace
        if want == "error":
            return None if o.kind == "raise" else f"returns {SP.describe(o.value)}, should raise an error"
        w = want(I, o) if callable(want) else want
        if w == "error":
            return None if o.kind == "raise" else f"returns {SP.describe(o.value)}, should raise an error"
        ts = w.o.ts if isinstance(w, ST) else w[1] if isinstance(w, tuple) else w.ts
        if o.kind == "raise":
            if RL.excused(o) or I.ts_norm(ts) == frozenset(["~empty"]) or uncovered(o):
                return None
            return f"raises {o.value.typ.name}{o.value.args[:1]}"
        if isinstance(w, ST):
            return cmp_state(I, o.value, w)
        return cmp_line(I, o.value, w, "result")

    rep.explore(I, rule, what, fn, judge)


def uncovered(o):
    return any(isinstance(k, tuple) and k[0] == "covers" and not v for k, v in o.facts.items())


def nm(combo):
    o, s, u = combo
    return f"state ({o} offtake, {s or 'nothing'} sourced, {u} prices)"


# ---- B01

def balance(rep, I, tier):
    c = Ctx(I)
    X = c.idx("X")
    for combo in COMBOS:
        s = spec(c, combo, X)
        u = s.uns
        flat_s = s.s
        if combo[1] is None:
            cost = SP.SL("COMPLETE", X.ts, X, dict(w=u.v["w"], q=u.v["q"], r=u.v["r"], p=u.v["p"]), {"sourced": s.s, "unsourced": u})
        else:
            cost = SP.nest("COMPLETE", {"sourced": s.s, "unsourced": u})
        net = SP.scale(u, E.num(-1))
        if combo[1] is None:
            frac, mtm = E.ZERO, SP.SL("REVENUE", X.ts, X, dict(r=E.NAN))
        else:
            frac = E.div(s.s.v["q"], E.neg(s.o.v["q"]))
            mtm = SP.mk("REVENUE", X.ts, X, r=E.mul(s.s.v["q"], E.sub(s.u.v["p"], s.s.v["p"])))
        want = {
            "offtakevolume": s.o, "offtake": s.o, "unsourcedprice": s.u, "sourced": s.s, "unsourced": u, "netposition": net, "pnl_cost": cost,
            "sourcedfraction": ("series", X.ts, frac, X), "unsourcedfraction": ("series", X.ts, E.sub(E.ONE, frac), X),
        }
        for a, w in want.items():
            expect(rep, I, "B01.part", f"{a} of {nm(combo)}", lambda I: I.getattr(make(c, combo, X), a), w)
            expect(rep, I, "B01.part", f"item {a!r} of {nm(combo)}", lambda I: I.lib.getitem(I, make(c, combo, X), a), w)
        if combo[1] is not None:
            expect(rep, I, "B01.part", f"mtm_of_sourced of {nm(combo)}", lambda I: RL.method(I, make(c, combo, X), "mtm_of_sourced"), mtm)

        def idx(o):
            if o.kind == "raise":
                return f"raises {o.value.typ.name}"
            return RL.same_idx(I, o.value, X, "index")

        rep.explore(I, "B01.part", f"index of {nm(combo)}", lambda I: I.getattr(make(c, combo, X), "index"), idx)
        for bad in ("nothing", "w", "offtakevolumes"):
            expect(rep, I, "B01.unknown-part", f"item {bad!r} of {nm(combo)}", lambda I: I.lib.getitem(I, make(c, combo, X), bad), "error")
        # exported dataframe
        for cols in (None, "wq", "q", ["w", "p", "r"]):
            for units in (True, False, None):
                def fn(I):
                    st = make(c, combo, X)
                    kw = {} if cols is None else {"cols": cols}
                    if units is not None:
                        kw["has_units"] = units
                    kw1 = {"has_units": True} if units is None else {k: v for k, v in kw.items() if k == "has_units"}
                    parts = {}
                    for p in ("offtakevolume", "pnl_cost", "sourced", "unsourced"):
                        pl = I.getattr(st, p)
                        parts[p] = (pl, RL.method(I, pl, "dataframe", *([] if cols is None else [cols]), **kw1, **({"childlevels": 0} if p == "pnl_cost" else {})))
                    return RL.method(I, st, "dataframe", **kw), parts

                rep.explore(I, "B01.dataframe", f"dataframe(cols={cols}, has_units={units}) of {nm(combo)}", fn, lambda o: export(I, o))


def pad(key, n):
    key = tuple(x for x in (key if isinstance(key, tuple) else (key,)))
    return key + ("",) * (n - len(key))


def export(I, o):
    """Each part of the state is exported under its own name."""
    if o.kind == "raise":
        return f"raises {o.value.typ.name}{o.value.args[:1]}"
    df, parts = o.value
    if not isinstance(df, FrameV) or any(not isinstance(p[1], FrameV) for p in parts.values()):
        return Undecided("unknown frame")
    want = {}
    n = max(len(k) if isinstance(k, tuple) else 1 for k in df.cols)
    for name, (pl, f) in parts.items():
        for k, s in f.cols.items():
            key = tuple(x for x in (k if isinstance(k, tuple) else (k,)) if x != "")
            want[pad((name, *key), n)] = s
    if set(df.cols) != set(want):
        return f"exported dataframe has columns {sorted(map(str, df.cols))}, should have {sorted(map(str, want))}"
    for k, s in want.items():
        m = RL.same_series(I, df.cols[k], s, f"exported column {k}")
        if m:
            return m
    return None


def B01(rep, I, tier):
    rep.group("balance", balance, I, tier)


# ---- B02

def add(a, b):
    ts = a.o.ts | b.o.ts
    o = SP.add(*RB.flatten_unless("Add", a.o, b.o))
    s = add_sourced(a.s, b.s, ts)
    qa, qb = a.uns.v["q"], b.uns.v["q"]
    p = E.div(E.add(E.mul(qa, a.u.v["p"]), E.mul(qb, b.u.v["p"])), E.add(qa, qb))
    return ST(o, SP.mk("PRICE", ts, a.o.idx, p=p), s)


def is_zero(s):
    return s.v["p"] is E.NAN and isinstance(s.v["w"], E.Rat) and s.v["w"].is_zero()


def add_sourced(a, b, ts):
    if is_zero(a) and is_zero(b):
        return zero(a.idx, ts)
    if is_zero(a) or is_zero(b):
        x = b if is_zero(a) else a
        return SP.SL(x.kind, ts, x.idx, x.v)  # flat
    return SP.add(*RB.flatten_unless("Add", a, b))


def scale_s(s, f, ts=frozenset()):
    return zero(s.idx, s.ts | ts) if is_zero(s) else SP.scale(s, f, ts)


def scale(a, f, ts=frozenset()):
    ts = frozenset(ts)
    return ST(SP.scale(a.o, f, ts), SP.restrict_ts(a.u, ts), scale_s(a.s, f, ts))


def neg(a):
    return scale(a, E.num(-1))


def ratio(a, b):
    """Columns of the quotient of two states."""
    ca, cb = cost(a), cost(b)
    return {
        ("offtake", "volume"): E.div(a.o.v["q"], b.o.v["q"]),
        ("sourced", "volume"): E.div(a.s.v["q"], b.s.v["q"]),
        ("sourced", "price"): E.div(a.s.v["p"], b.s.v["p"]),
        ("unsourced", "volume"): E.div(a.uns.v["q"], b.uns.v["q"]),
        ("unsourced", "price"): E.div(a.u.v["p"], b.u.v["p"]),
        ("pnl_cost", "price"): E.div(ca, cb),
    }


def cost(a):
    q = E.add(a.s.v["q"], a.uns.v["q"])
    return E.div(E.add(a.s.v["r"], a.uns.v["r"]), q)


def others(c, X, Y):
    """(name, make, factor | 'same' | 'error', timestamps)."""
    n = E.atom("n")
    yield "float", lambda: Num(n), n, X.ts
    yield "integer", lambda: Num(n, None, True), n, X.ts
    yield "float series", lambda: SeriesV(n, X), n, X.ts
    yield "dimensionless quantity", lambda: Num(n, NODIM), n, X.ts
    yield "dimensionless series", lambda: SeriesV(n, X, NODIM), n, X.ts
    yield "float series on other timestamps", lambda: SeriesV(n, Y), n, X.ts | Y.ts
    yield "None", lambda: None, "same", X.ts
    for u in ("MW", "GWh", "MWh", "euro_per_MWh", "cent_per_kWh", "Eur", "h", "degC"):
        yield f"quantity in {u}", lambda: Num(n, parse_unit(u)), "error", X.ts
        yield f"series in {u}", lambda: SeriesV(n, X, parse_unit(u)), "error", X.ts
    for k in KINDS:
        for st in ("flat", "nested"):
            yield f"{st} {k.lower()} line", lambda: RL.make(c, st, k, "z", X), "error", X.ts
    yield "string", lambda: "x", "error", X.ts
    yield "list", lambda: [], "error", X.ts
    yield "dict", lambda: {"w": Num(n)}, "error", X.ts


def arithmetic(rep, I, tier):
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")
    B = I.lib.binop
    for c1 in combos(tier):
        a = spec(c, c1, X)
        expect(rep, I, "B02.negation", f"-{nm(c1)}", lambda I: RL.method(I, make(c, c1, X), "__neg__"), neg(a))
        for c2 in combos(tier):
            for Z in (X, Y):
                b = spec(c, c2, Z, "2")
                w = nm(c1) + " and " + nm(c2) + (" (same timestamps)" if Z is X else " (other timestamps)")
                expect(rep, I, "B02.addition", f"+ of {w}", lambda I: B(I, "Add", make(c, c1, X), make(c, c2, Z, "2")), add(a, b))
                expect(rep, I, "B02.subtraction", f"- of {w}", lambda I: B(I, "Sub", make(c, c1, X), make(c, c2, Z, "2")), add(a, neg(b)))
                expect(rep, I, "B02.multiplication", f"* of {w}", lambda I: B(I, "Mult", make(c, c1, X), make(c, c2, Z, "2")), "error")

                def div(o):
                    I.trace = o.trace
                    ts = a.o.ts | b.o.ts
                    if o.kind == "raise":
                        if RL.excused(o) or I.ts_norm(ts) == frozenset(["~empty"]):
                            return None
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    want = ratio(a, b)
                    if not isinstance(o.value, FrameV):
                        return Undecided("unknown") if isinstance(o.value, Top) else f"is {SP.describe(o.value)}, should be a dataframe"
                    if set(o.value.cols) != set(want):
                        return f"quotient has columns {list(o.value.cols)}, should have {list(want)}"
                    for k, e in want.items():
                        s = o.value.cols[k]
                        if s.unit is None or s.unit.dims:
                            return f"column {k} has unit {s.unit}, should be dimensionless"
                        m = SP.cmp_expr(s.expr, e, f"column {k}") or SP.cmp_idx(I, s.idx, ts, X, f"column {k}")
                        if m:
                            return m
                    return None

                rep.explore(I, "B02.division", f"/ of {w}", lambda I: B(I, "Div", make(c, c1, X), make(c, c2, Z, "2")), div)
        for name, mk, f, ts in others(c, X, Y):
            for op in ("Add", "Sub", "Mult", "Div", "BitOr"):
                for refl in (False, True):
                    if refl and ("series" in name or "quantity" in name):
                        continue  # decided by pandas, pint
                    if f == "error" or op == "BitOr":
                        want = "error"
                    elif op in ("Add", "Sub"):
                        want = "error" if f != "same" else neg(a) if (op == "Sub" and refl) else a
                    elif f == "same":
                        want = "error"
                    elif op == "Mult":
                        want = scale(a, f, ts)
                    else:
                        want = "error" if refl else scale(a, E.div(E.ONE, f), ts)
                    what = f"{name} {SP.SIGN[op]} {nm(c1)}" if refl else f"{nm(c1)} {SP.SIGN[op]} {name}"
                    fn = (lambda I: B(I, op, mk(), make(c, c1, X))) if refl else (lambda I: B(I, op, make(c, c1, X), mk()))
                    expect(rep, I, "B02.other-operand", what, fn, want)


def averages(rep, I, tier):
    from .rules_wavg import used

    used(rep, I, tier, frames=True)


def B02(rep, I, tier):
    rep.group("arithmetic", arithmetic, I, tier)
    rep.group("average", averages, I, tier)


# ---- B03

def changing(rep, I, tier):
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")
    for combo in combos(tier):
        a = spec(c, combo, X)
        for st in ("flat", "nested"):
            for Z in (X, Y):
                sfx = f"({st}, {'same' if Z is X else 'other'} timestamps)"
                new = {k: (lambda k=k: RL.make(c, st, k, "z", Z)) for k in KINDS}
                sp = {k: RO.spec_line(c, st, k, "z", Z) for k in KINDS}
                for meth, part, ok in [("set_offtakevolume", "o", "VOLUME"), ("set_unsourcedprice", "u", "PRICE"), ("set_sourced", "s", "COMPLETE")]:
                    for k in KINDS:
                        if k == ok:
                            # the offtake determines the timestamps, and must be covered by the others
                            ts = Z.ts if part == "o" else X.ts
                            w = ST(a.o, a.u, a.s)
                            setattr(w, part, sp[k])
                            want = w.at(ts)
                        elif k == "COMPLETE":
                            continue  # see B04: part of the information is used
                        else:
                            want = "error"
                        for kw in (False, True):
                            args = dict(set_offtakevolume="offtakevolume", set_unsourcedprice="unsourcedprice", set_sourced="sourced")
                            fn = lambda I: RL.method(I, make(c, combo, X), meth, **({args[meth]: new[k]()} if kw else {})) if kw else RL.method(I, make(c, combo, X), meth, new[k]())
                            expect(rep, I, f"B03.{meth}", f"{meth} of {nm(combo)} to {k.lower()} line {sfx}{' (keyword)' if kw else ''}", fn, want)
                for k in KINDS:
                    if k == "COMPLETE":
                        want = ST(a.o, a.u, add_sourced(a.s, sp[k], X.ts)).at(X.ts)
                    else:
                        want = "error"
                    expect(rep, I, "B03.add_sourced", f"add_sourced to {nm(combo)} of {k.lower()} line {sfx}", lambda I: RL.method(I, make(c, combo, X), "add_sourced", new[k]()), want)
        expect(rep, I, "B03.set_sourced", f"set_sourced of {nm(combo)} to None", lambda I: RL.method(I, make(c, combo, X), "set_sourced", None), ST(a.o, a.u, zero(X)))
        expect(rep, I, "B03.set_offtakevolume", f"set_offtakevolume of {nm(combo)} to None", lambda I: RL.method(I, make(c, combo, X), "set_offtakevolume", None), "error")
        expect(rep, I, "B03.set_unsourcedprice", f"set_unsourcedprice of {nm(combo)} to None", lambda I: RL.method(I, make(c, combo, X), "set_unsourcedprice", None), "error")


def hedging(rep, I, tier):
    """Hedging the unsourced volume, and sourcing that hedge."""
    c = Ctx(I)
    pk = TokV("peak_fn", "peak")
    cases = [((), {}), (("vol",), {}), (("val", pk, "QS"), {}), ((), dict(how="vol", freq="YS")), ((), dict(peak_fn=pk)), ((), dict(freq="D", how="val"))]
    for f in (parse_freq("h"), parse_freq("15min"), parse_freq("D")):
        X = c.idx("X", freq=f)
        for combo in combos(tier):
            for args, kw in cases:
                def both(I):
                    p = make(c, combo, X)
                    v, q = I.getattr(I.getattr(p, "unsourced"), "volume"), I.getattr(p, "unsourcedprice")
                    full = dict(how="val", peak_fn=None, freq="MS")
                    full.update(dict(zip(("how", "peak_fn", "freq"), args)))
                    full.update(kw)
                    ref = RL.method(I, v, "hedge_with", q, full["how"], full["peak_fn"], full["freq"])
                    return p, ref

                def hedge(I):
                    p, ref = both(I)
                    return ref, RL.method(I, p, "hedge_of_unsourced", *args, **kw)

                def source(I):
                    p, ref = both(I)
                    s = I.lib.binop(I, "Add", I.getattr(p, "sourced"), ref)
                    want = I.call(I.find(CLS), [I.getattr(p, "offtakevolume"), I.getattr(p, "unsourcedprice"), s], {})
                    return want, RL.method(I, p, "source_unsourced", *args, **kw)

                def spec_h(o):
                    if o.kind == "raise":
                        return None
                    return RL.same_line(I, o.value[1], o.value[0], "hedge")

                def spec_s(o):
                    if o.kind == "raise":
                        return None
                    return same_state(I, o.value[1], o.value[0])

                sa = ", ".join([str(x) for x in args] + [f"{k}={v}" for k, v in kw.items()])
                rep.explore(I, "B03.hedge_of_unsourced", f"hedge_of_unsourced({sa}) of {nm(combo)} with frequency {f}", hedge, spec_h)
                rep.explore(I, "B03.source_unsourced", f"source_unsourced({sa}) of {nm(combo)} with frequency {f}", source, spec_s)


def works(rep, I, tier):
    """The operations do return something, on at least one path."""
    c = Ctx(I)
    X = c.idx("X", freq=parse_freq("h"))
    for combo in combos(tier):
        for m in ("hedge_of_unsourced", "source_unsourced"):
            outs = rep.explore(I, f"B03.{m}", f"{m}() of {nm(combo)} is possible", lambda I: RL.method(I, make(c, combo, X), m), lambda o: None)
            if outs and all(o.kind == "raise" for o in outs) and not any(o.imprecise for o in outs):
                rep.violate(f"B03.{m}", f"{m}() of {nm(combo)}", f"always raises {outs[0].value.typ.name}{outs[0].value.args[:1]}")


def selecting(rep, I, tier, rule="B03"):
    c = Ctx(I)
    X = c.idx("X")
    a_, b_ = StampV("a", None), StampV("b", None)
    lo, hi = f"(not(ts<{RO.key(a_)}))", f"(ts<{RO.key(b_)})"
    cases = [
        ("slice", slice(a_, b_), {lo, hi}), ("slice", slice(a_, None), {lo}), ("slice", slice(None, b_), {hi}), ("slice", slice(None, None), set()),
        ("loc", slice(a_, b_), {lo, f"(ts<={RO.key(b_)})"}), ("loc", slice(None, b_), {f"(ts<={RO.key(b_)})"}), ("loc", TokV("selector", "rows"), {"(rows)"}),
    ]
    for combo in combos(tier):
        a = spec(c, combo, X)
        for which, key, gens in cases:
            expect(rep, I, f"{rule}.{which}", f"{which}[{RO.show(key)}] of {nm(combo)}", lambda I: RL.select(I, make(c, combo, X), which, key), a.at(frozenset({"X"} | gens)))


def resampling(rep, I, tier):
    c = Ctx(I)
    for src, tgt in [(FreqV("F"), FreqV("G")), (parse_freq("h"), "MS"), (parse_freq("D"), None), (parse_freq("MS"), "YS-APR"), (parse_freq("D"), "QS-FEB")]:
        X = c.idx("X", freq=src)
        for combo in combos(tier):
            a = spec(c, combo, X)
            for kw in (False, True):
                if kw and tgt is None:
                    continue
                f = "MS" if tgt is None else tgt
                fn = lambda I: RL.method(I, make(c, combo, X), "asfreq", *([] if tgt is None or kw else [tgt]), **({"freq": tgt} if kw else {}))

                def want(I, o):
                    ff = parse_freq(f) if isinstance(f, str) else f
                    if o.facts.get(("freqeq", "F", "G")) is True or RO.freq_same(I, o, ff, src):
                        # prices are those of the unsourced part
                        return ST(a.o, SP.mk("PRICE", a.o.ts, X, p=a.u.v["p"]), a.s)
                    ts = frozenset({f"full(X -> {fname(ff)})"})
                    u = SP.asfreq(a.uns, ff)
                    nidx = u.idx
                    s = zero(nidx, ts) if is_zero(a.s) else SP.asfreq(a.s, ff)
                    return ST(SP.asfreq(a.o, ff), SP.mk("PRICE", ts, nidx, p=u.v["p"]), s).at(ts)

                expect(rep, I, "B03.asfreq", f"asfreq({f}{', keyword' if kw else ''}) of {nm(combo)} with frequency {fname(src)}", fn, want)


def B03(rep, I, tier):
    rep.group("setting parts", changing, I, tier)
    rep.group("hedging", hedging, I, tier)
    rep.group("possible", works, I, tier)
    rep.group("selecting", selecting, I, tier)
    rep.group("resampling", resampling, I, tier)


# ---- B04

def creation(rep, I, tier):
    c = Ctx(I)
    X, Y, Z = c.idx("X"), c.idx("Y"), c.idx("Z")
    cls = I.find(CLS)
    lines = [None] + [(st, k) for k in KINDS for st in ("flat", "nested")]

    def obj(x, n, i):
        return None if x is None else RL.make(c, x[0], x[1], n, i)

    def sp(x, n, i):
        return None if x is None else RO.spec_line(c, x[0], x[1], n, i)

    def part(s, kind):
        """Volume / price part of a spec line."""
        if s.kind == kind:
            return s
        if kind == "VOLUME" and s.nested:
            return SP.nest(kind, {n: part(x, kind) for n, x in s.children.items()}, s.ts, s.idx)
        v = {c_: s.v[c_] for c_ in COLS[kind]}
        return SP.SL(kind, s.ts, s.idx, v)

    for ox in lines:
        for ux in lines:
            for sx in lines:
                good_o = ox is not None and ox[1] in ("VOLUME", "COMPLETE")
                good_u = ux is not None and ux[1] in ("PRICE", "COMPLETE")
                good_s = sx is None or sx[1] == "COMPLETE"
                if not (good_o and good_u and good_s) and tier == "quick" and any(x is not None and x[0] == "nested" for x in (ox, ux, sx)) and (good_o + good_u + good_s) < 2:
                    continue
                for U_, S_ in ((X, X), (Y, X), (X, Z), (Y, Z)):
                    if (U_ is not X or S_ is not X) and not (good_o and good_u and good_s):
                        continue
                    if sx is None and S_ is not X:
                        continue
                    what = f"PfState({ln(ox)}, {ln(ux)}, {ln(sx)})" + {(X, X): "", (Y, X): " with other timestamps in prices", (X, Z): " with other timestamps in sourced", (Y, Z): " with three sets of timestamps"}[U_, S_]

                    def fn(I):
                        args = [obj(ox, "o", X), obj(ux, "u", U_)] + ([] if sx is None else [obj(sx, "s", S_)])
                        return I.call(cls, args, {})

                    if not (good_o and good_u and good_s):
                        expect(rep, I, "B04.incomplete", what, fn, "error")
                        continue
                    o, u = part(sp(ox, "o", X), "VOLUME"), part(sp(ux, "u", U_), "PRICE")
                    s = zero(X) if sx is None else sp(sx, "s", S_)
                    want = ST(o, u, s).at(X.ts)
                    expect(rep, I, "B04.creation", what, fn, want)

                    def warned(o):
                        if o.kind == "raise":
                            return None
                        n = sum(e["kind"] == "warn" for e in o.trace.events)
                        need = (ox[1] == "COMPLETE") + (ux[1] == "COMPLETE")
                        return None if n >= need else f"{need} parts of the information are discarded, with {n} warnings"

                    if U_ is X and S_ is X:
                        rep.explore(I, "B04.warning", what, fn, warned)

                    # with keywords
                    def fkw(I):
                        kw = dict(offtakevolume=obj(ox, "o", X), unsourcedprice=obj(ux, "u", U_))
                        if sx is not None:
                            kw["sourced"] = obj(sx, "s", S_)
                        return I.call(cls, [], kw)

                    expect(rep, I, "B04.creation", what + " (keywords)", fkw, want)


def ln(x):
    return "None" if x is None else f"{x[0]} {x[1].lower()}"


def from_data(rep, I, tier):
    """Creation from other data than lines."""
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")
    cls = I.find(CLS)
    w, q, p, ps, ws, rs = (E.atom(x) for x in ("w1", "q1", "p1", "p2", "w2", "r2"))
    ser = lambda e, u=None, i=X: SeriesV(e, i, u)
    O = SP.mk("VOLUME", X.ts, X, w=w)
    P_ = SP.mk("PRICE", X.ts, X, p=p)
    for nm_, o, wo in [("dict with 'w'", lambda: {"w": ser(w)}, O), ("dict with 'q'", lambda: {"q": ser(q)}, SP.mk("VOLUME", X.ts, X, q=q)), ("series in kW", lambda: ser(w, parse_unit("kW")), SP.mk("VOLUME", X.ts, X, w=E.mul(w, E.num(0.001))))]:
        expect(rep, I, "B04.creation", f"offtake as {nm_}", lambda I: I.call(cls, [o(), {"p": ser(p)}], {}), ST(wo, P_, zero(X)))
        expect(rep, I, "B04.creation", f"offtake as {nm_}, prices on other timestamps", lambda I: I.call(cls, [o(), {"p": ser(p, None, Y)}], {}), ST(wo, P_, zero(X)))
    expect(rep, I, "B04.creation", "sourced as dict with 'w' and 'p'", lambda I: I.call(cls, [{"w": ser(w)}, ser(p, U["p"]), {"w": ser(ws), "p": ser(ps)}], {}), ST(O, P_, SP.mk("COMPLETE", X.ts, X, w=ws, p=ps)))
    expect(rep, I, "B04.creation", "sourced as dict with 'w' and 'r'", lambda I: I.call(cls, [{"w": ser(w)}, ser(p, U["p"]), {"w": ser(ws), "r": ser(rs)}], {}), ST(O, P_, SP.mk("COMPLETE", X.ts, X, w=ws, r=rs)))
    for bad in (lambda: ser(w), lambda: 3.0, lambda: {"p": ser(p)}, lambda: {}):
        expect(rep, I, "B04.incomplete", f"offtake as {bad()!r}"[:60], lambda I: I.call(cls, [bad(), {"p": ser(p)}], {}), "error")
    for bad in (lambda: ser(w), lambda: 3.0, lambda: {"w": ser(p)}, lambda: {}):
        expect(rep, I, "B04.incomplete", f"prices as {bad()!r}"[:60], lambda I: I.call(cls, [{"w": ser(w)}, bad()], {}), "error")
    for bad in (lambda: ser(w), lambda: 3.0, lambda: {"w": ser(p)}, lambda: {"p": ser(p)}, lambda: {"r": ser(p)}):
        expect(rep, I, "B04.incomplete", f"sourced as {bad()!r}"[:60], lambda I: I.call(cls, [{"w": ser(w)}, {"p": ser(p)}, bad()], {}), "error")
    # from_series
    fs = I.getattr(cls, "from_series")
    so = {"wo": SP.mk("VOLUME", X.ts, X, w=w), "qo": SP.mk("VOLUME", X.ts, X, q=q)}
    e = dict(wo=w, qo=q, ws=ws, qs=E.atom("q2"), rs=rs, ps=ps, pu=p)
    import itertools

    for off in ("wo", "qo"):
        for n in range(0, 4):
            for src in itertools.combinations(("ws", "qs", "rs", "ps"), n):
                names = [off, "pu", *src]
                a = {x[0]: e[x] for x in src}
                if not src:
                    want = ST(so[off], P_, zero(X))
                elif set(a) in ({"w", "r"}, {"w", "p"}, {"q", "r"}, {"q", "p"}, {"p", "r"}):
                    want = ST(so[off], P_, SP.mk("COMPLETE", X.ts, X, **a))
                elif len(src) == 1 or set(a) == {"w", "q"}:
                    want = "error"
                else:
                    continue
                expect(rep, I, "B04.from_series", f"from_series({', '.join(names)})", lambda I: I.call(fs, [], {x: ser(e[x]) for x in names}), want)
    for names in (["pu"], ["wo"], ["qo"], ["wo", "ws", "ps"], ["pu", "ws", "ps"]):
        expect(rep, I, "B04.from_series", f"from_series({', '.join(names)})", lambda I: I.call(fs, [], {x: ser(e[x]) for x in names}), "error")


def B04(rep, I, tier):
    rep.group("creation", creation, I, tier)
    rep.group("other data", from_data, I, tier)


# ---- incompatible indices

def incompatible_states(rep, I, tier):
    c = Ctx(I)
    cls = I.find(CLS)
    for name, X, Y in RB.incompatible(c):
        for combo in FEW if tier == "thorough" else FEW[1:3]:
            so, ss, su = combo
            for op in ("Add", "Sub", "Div"):
                expect(rep, I, "A04.states", f"{SP.SIGN[op]} of {nm(combo)} with {name}", lambda I: I.lib.binop(I, op, make(c, combo, X), make(c, combo, Y, "2")), "error")
            for op in ("Mult", "Div"):
                expect(rep, I, "A04.states", f"{nm(combo)} {SP.SIGN[op]} series with {name}", lambda I: I.lib.binop(I, op, make(c, combo, X), SeriesV(E.atom("n"), Y)), "error")
            for which in range(3):
                i = [Y if k == which else X for k in range(3)]
                fn = lambda I: I.call(cls, [RL.make(c, so, "VOLUME", "o", i[0]), RL.make(c, su, "PRICE", "u", i[1]), RL.make(c, ss or "flat", "COMPLETE", "s", i[2])], {})
                expect(rep, I, "A04.state-creation", f"{nm(combo)} of which part {which} has {name}", fn, "error")
            for m, k in (("set_offtakevolume", "VOLUME"), ("set_unsourcedprice", "PRICE"), ("set_sourced", "COMPLETE"), ("add_sourced", "COMPLETE")):
                expect(rep, I, "A04.state-parts", f"{m} of {nm(combo)} with {name}", lambda I: RL.method(I, make(c, combo, X), m, RL.make(c, "flat", k, "z", Y)), "error")


def incompatible_other(rep, I, tier):
    """Reindexing, children, creation."""
    c = Ctx(I)
    pf = I.find("core.pfline.classes:PfLine")
    for name, X, Y in RB.incompatible(c):
        for st in ("flat", "nested", "deep"):
            for k in KINDS:
                expect(rep, I, "A04.reindex", f"reindex of {st} {k.lower()} line with {name}", lambda I: RL.method(I, RL.make(c, st, k, "a", X), "reindex", Y), "error")
                if st == "deep" and tier == "quick":
                    continue
                for cst in ("flat", "nested"):
                    if st != "flat":
                        for ch in ("a", "new"):
                            # the only child may be replaced by one with another index
                            expect(rep, I, "A04.set_child", f"set_child({ch!r}) of {st} {k.lower()} line to {cst} line with {name}",
                                   lambda I: RL.method(I, RL.make(c, st, k, "a", X), "set_child", ch, RL.make(c, cst, k, "z", Y, ["k", "l"])), "error")
                    for order in (("m", "n"), ("n", "m")):
                        expect(rep, I, "A04.children", f"PfLine from {st} and {cst} {k.lower()} line with {name}",
                               lambda I: I.call(pf, [{n: RL.make(c, st, k, "a", X) if n == "m" else RL.make(c, cst, k, "z", Y, ["k", "l"]) for n in order}], {}), "error")
        for combo in FEW[1:3]:
            expect(rep, I, "A04.reindex", f"reindex of {nm(combo)} with {name}", lambda I: RL.method(I, make(c, combo, X), "reindex", Y), "error")


# ---- equality

def different_part(c, st, k, n, X):
    """The same line, but with one difference (that might not show in its sum)."""
    I = c.I
    if st == "flat":
        for col in {"VOLUME": "w", "PRICE": "p", "COMPLETE": "wp"}[k]:
            def flat(col=col):
                s = {x: E.atom(f"{x}_{n}") for x in "wpr"}
                s[col] = E.atom(f"other_{col}")
                return RO.line(c, k, s, X)

            yield f"other {col}", flat
        return
    x = RL.make(c, st, k, n, X)
    for m in list(x.attrs["children"]):
        def renamed(m=m):
            x = RL.make(c, st, k, n, X)
            return I.call(c.cls("nested", k), [{(y + "_" if y == m else y): v for y, v in x.attrs["children"].items()}], {})

        yield f"child {m} having another name", renamed
    def flattened():
        return RL.method(I, RL.make(c, st, k, n, X), "flatten")

    yield "the children already summed", flattened


def equality(rep, I, tier):
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")
    cls = I.find(CLS)

    def eq(I, x, y, op="Eq"):
        return I.truth(I.lib.compare(I, op, x, y))

    for combo in COMBOS if tier == "thorough" else FEW:
        so, ss, su = combo
        rep.explore(I, "A12.equal", f"{nm(combo)} with the same data", lambda I: eq(I, make(c, combo, X), make(c, combo, X)), lambda o: RO.verdict(o, True))
        rep.explore(I, "A12.equal", f"{nm(combo)} with the same data (!=)", lambda I: eq(I, make(c, combo, X), make(c, combo, X), "NotEq"), lambda o: RO.verdict(o, False))
        rep.explore(I, "A12.truth", f"{nm(combo)}", lambda I: I.truth(make(c, combo, X)), lambda o: RO.verdict(o, True))
        for which in range(3):
            def other():
                t = ["", "", ""]
                t[which] = "2"
                return I.call(cls, [RL.make(c, so, "VOLUME", "o" + t[0], X), RL.make(c, su, "PRICE", "u" + t[1], X), RL.make(c, ss or "flat", "COMPLETE", "s" + t[2], X)], {})

            p = ["offtake", "unsourced prices", "sourced part"][which]
            rep.explore(I, "A12.different", f"{nm(combo)} with other {p}", lambda I: eq(I, make(c, (so, ss or "flat", su), X), other()), lambda o: RO.verdict_diff(I, o))
            rep.explore(I, "A12.different", f"{nm(combo)} with other {p} (swapped)", lambda I: eq(I, other(), make(c, (so, ss or "flat", su), X)), lambda o: RO.verdict_diff(I, o))
        rep.explore(I, "A12.different", f"{nm(combo)} with other timestamps", lambda I: eq(I, make(c, combo, X), make(c, combo, Y)), lambda o: RO.verdict_diff(I, o))
        for part, st, k, n in (("offtake", so, "VOLUME", "o"), ("sourced", ss, "COMPLETE", "s"), ("unsourcedprice", su, "PRICE", "u")):
            if st is None or (part == "unsourcedprice" and st != "flat"):  # unsourced prices are only compared as part of the unsourced line
                continue
            for what, mk in different_part(c, st, k, n, X):
                def built(mk=mk, part=part):
                    lines = dict(offtake=RL.make(c, so, "VOLUME", "o", X), unsourcedprice=RL.make(c, su, "PRICE", "u", X), sourced=RL.make(c, ss, "COMPLETE", "s", X) if ss else None)
                    lines[part] = mk()
                    return I.call(cls, [lines["offtake"], lines["unsourcedprice"]] + ([lines["sourced"]] if lines["sourced"] is not None else []), {})

                rep.explore(I, "A12.different", f"{nm(combo)}, {part} with {what}", lambda I: eq(I, make(c, combo, X), built()), lambda o: RO.verdict_diff(I, o))
                rep.explore(I, "A12.different", f"{nm(combo)}, {part} with {what} (swapped)", lambda I: eq(I, built(), make(c, combo, X)), lambda o: RO.verdict_diff(I, o))
        for what, mk in [("number", lambda: 3.0), ("None", lambda: None), ("string", lambda: "x"), ("dict", lambda: {})] + [(f"{k.lower()} line", lambda k=k: c.flat(k, "o", X)) for k in KINDS]:
            rep.explore(I, "A12.other-object", f"{nm(combo)} == {what}", lambda I: eq(I, make(c, combo, X), mk()), lambda o: RO.verdict(o, False))
            if "line" in what:
                rep.explore(I, "A12.other-object", f"{what} == {nm(combo)}", lambda I: eq(I, mk(), make(c, combo, X)), lambda o: RO.verdict(o, False))
