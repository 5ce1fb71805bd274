"""Creation of portfolio lines: A06, A07, A08, A10."""

from __future__ import annotations

import itertools

from . import expr as E
from . import rules_line as RL
from . import spec as SP
from .contexts import COLS, KINDS, Ctx
from .contracts import dur_atom
from .report import Undecided
from .values import FrameV, Idx, Num, SeriesV, StampV, TokV, Top, U, parse_unit

OTHER = {"w": "kW", "q": "GWh", "p": "cent_per_kWh", "r": "ct"}
WRONG = {"w": "MWh", "q": "MW", "p": "Eur", "r": "euro_per_MWh"}


def subsets():
    for n in range(1, 5):
        for s in itertools.combinations("wqpr", n):
            yield "".join(s)


def kind_from(s):
    vol, p, r = "w" in s or "q" in s, "p" in s, "r" in s
    if vol + p + r >= 2:
        return "COMPLETE"
    return "VOLUME" if vol else "PRICE" if p else "REVENUE"


class Want:
    """Expected result of creation from the given columns (value numbers in standard units)."""

    def __init__(self, v, freq):
        d = dur_atom(freq)
        self.given = dict(v)
        self.kind = kind_from(v)
        self.eqs = []  # equations that must have been checked
        self.sub = {}  # what follows from these
        w, q, p, r = (v.get(c) for c in "wqpr")
        if w is not None and q is not None:
            self.eqs.append(E.equation(w, E.div(q, d)))
        if q is None and w is not None:
            q = E.mul(w, d)
        if q is None and p is not None and r is not None:
            q = E.div(r, p)
        if w is None and q is not None:
            w = E.div(q, d)
        if self.kind == "COMPLETE":
            if p is None:
                p = E.div(r, q)
            elif r is None:
                r = E.mul(q, p)
            elif "w" in v or "q" in v:
                self.eqs.append(E.equation(r, E.mul(p, q)))
        self.v = {c: x for c, x in zip("wqpr", (w, q, p, r)) if c in COLS[self.kind]}

    def facts(self, atoms, freq):
        """Substitution that makes the over-determined input consistent."""
        g = self.given
        d = dur_atom(freq)
        sub = {}
        if "w" in g and "q" in g:
            sub["w0"] = E.div(E.mul(E.atom("q0"), E.num(atoms["q"])), E.mul(d, E.num(atoms["w"])))
        if "p" in g and "r" in g and ("w" in g or "q" in g):
            q = E.mul(E.atom("q0"), E.num(atoms["q"])) if "q" in g else E.mul(E.mul(E.atom("w0"), E.num(atoms["w"])), d)
            sub["r0"] = E.div(E.mul(q, E.mul(E.atom("p0"), E.num(atoms["p"]))), E.num(atoms["r"]))
        return sub


def forms(c, s, idxs):
    """(name, function giving the data, scale of each column, indices of the timeseries)."""
    I = c.I
    at = {k: E.atom(k + "0") for k in s}
    one = {k: 1 for k in "wqpr"}
    ser = lambda k, u=None: SeriesV(at[k], idxs[k], u, None)
    oth = {k: parse_unit(OTHER[k]) for k in s}
    osc = {**one, **{k: oth[k].scale for k in s}}
    yield "dict of float-series", lambda: {k: ser(k) for k in s}, one, list(s)
    yield "dict of pint-series", lambda: {k: ser(k, U[k]) for k in s}, one, list(s)
    yield "dict of pint-series in other units", lambda: {k: ser(k, oth[k]) for k in s}, osc, list(s)
    yield "list of pint-series", lambda: [ser(k, oth[k]) for k in s], osc, list(s)
    yield "dict with tuples as keys", lambda: {(k, "x") if i % 2 else ("x", k): ser(k) for i, k in enumerate(s)}, one, list(s)
    if len({id(idxs[k]) for k in s}) == 1:
        i = idxs[s[0]]
        yield "dataframe", lambda: FrameV({k: SeriesV(at[k], i, None, k) for k in s}, i), one, list(s)
        yield "dataframe in other units", lambda: FrameV({k: SeriesV(at[k], i, oth[k], k) for k in s}, i), osc, list(s)
    for k in s:
        if len(s) > 1:
            others = [x for x in s if x != k]
            yield f"dict with float for {k}", lambda k=k: {x: (Num(at[x]) if x == k else ser(x)) for x in s}, one, others
            yield f"dict with quantity for {k}", lambda k=k: {x: (Num(at[x], oth[x]) if x == k else ser(x, oth[x])) for x in s}, osc, others
    if len(s) == 1:
        yield "pint-series", lambda: ser(s, oth[s]), osc, list(s)


def creators(I):
    PfLine = I.find("core.pfline.classes:PfLine")
    yield "pfline", I.find("core.pfline.create:pfline")
    yield "flatpfline", I.find("core.pfline.create:flatpfline")
    yield "PfLine", PfLine


def creation(rep, I, tier, aspects):
    """Creation from every sufficient combination of the four timeseries, in every form."""
    c = Ctx(I)
    X, Y, Z = c.idx("X"), c.idx("Y"), c.idx("Z")
    for name, fn_ in creators(I):
        for s in subsets():
            for mode in ("same", "other"):
                if mode == "other" and len(s) == 1:
                    continue
                ix = {k: (X if mode == "same" else [X, Y, Z, X][i]) for i, k in enumerate(s)}
                for form, data, scale, on in forms(c, s, ix):
                    if name != "pfline" and tier == "quick" and form not in ("dict of pint-series in other units", "dataframe"):
                        continue
                    v = {k: E.mul(E.atom(k + "0"), E.num(scale[k])) for k in s}
                    want = Want(v, c.freq)
                    ts = frozenset().union(*(ix[k].ts for k in on))
                    what = f"{name}({form} {'/'.join(s)}{', different timestamps' if mode == 'other' else ''})"
                    rep.explore(I, f"{rep.pid}.creation", what, lambda I: I.call(fn_, [data()], {}),
                                lambda o: judge_creation(I, c, o, want, ts, X, scale, aspects))


def special_rows(rep, I, tier):
    """Creation from timeseries that, in some rows, are zero or missing."""
    c = Ctx(I)
    X = c.idx("X")
    row = "$row"
    for name, fn_ in creators(I):
        if name != "pfline" and tier == "quick":
            continue
        for s in ("qp", "wp", "qr", "wr", "pr", "qpr", "wqp", "wqr", "wqpr", "wpr", "q", "w", "p", "r", "wq"):
            for special in itertools.product(("", "0", "nan"), repeat=len(s)):
                if not any(special):
                    continue
                at = {k: E.atom(k + "0") for k in s}
                if "w" in s and "q" in s:
                    at["w"] = E.div(at["q"], dur_atom(c.freq))
                if "p" in s and "r" in s and ("w" in s or "q" in s):
                    at["r"] = E.mul(at["p"], at["q"] if "q" in s else E.mul(at["w"], dur_atom(c.freq)))
                odd = {k: (E.ZERO if x == "0" else E.NAN if x == "nan" else at[k]) for k, x in zip(s, special)}
                vals = {k: E.Ite(row, odd[k], at[k]) if odd[k] is not at[k] else at[k] for k in s}
                what = f"{name}({'/'.join(s)}), in some rows {', '.join(k + (' is 0' if x == '0' else ' is missing') for k, x in zip(s, special) if x)}"
                want = special_want(odd, c.freq)

                def judge(o):
                    if o.kind == "raise":
                        if RL.excused(o) or I.ts_norm(X.ts) == frozenset(["~empty"]):
                            return None
                        return None if want is None or want == "either" else f"raises {o.value.typ.name}{o.value.args[:1]}"
                    if isinstance(o.value, Top):
                        return Undecided("unknown result")
                    df = SP.frame(o.value)
                    if df is None:
                        return Undecided("unknown frame")
                    val = {k: E.mul(x.expr, E.num(x.unit.scale)) if x.unit is not None else x.expr for k, x in df.cols.items()}
                    if any(E.has_unk(x) for x in val.values()):
                        return Undecided("unknown values")
                    if want is None:
                        return f"accepts contradicting values; gives {', '.join(f'{k} = {E.restrict(x, row, True)}' for k, x in val.items())} in these rows"
                    for k in s:
                        m = SP.cmp_expr(E.restrict(val[k], row, False), at[k], k + " in other rows")
                        if m:
                            return m
                    m = None
                    for k, x in (want.items() if want != "either" else ()):
                        m = m or SP.cmp_expr(E.restrict(val[k], row, True), x, k + " in these rows")
                    return m

                rep.explore(I, "A06.special-rows", what, lambda I: I.call(fn_, [{k: SeriesV(x, X, None, None) for k, x in vals.items()}], {}), judge)


def special_want(v, freq):
    """Values that follow from ``v``; None if these contradict each other; 'either' if that is not specified."""
    d = dur_atom(freq)
    w, q, p, r = (v.get(k) for k in "wqpr")
    if w is not None and q is not None and not E.same(q, E.mul(w, d)):
        return None
    if q is None and w is not None:
        q = E.mul(w, d)
    if p is not None and r is not None:
        if q is None:
            q = E.div(r, p)
        elif p is E.NAN and q is not E.NAN and q.is_zero() or q is E.NAN and p is not E.NAN and p.is_zero():
            if r is E.NAN or not r.is_zero():
                return "either"
        elif not E.same(r, E.mul(q, p)):
            return None
    if q is not None and w is None:
        w = E.div(q, d)
    if q is not None and r is not None and p is None:
        p = E.div(r, q)
    elif q is not None and p is not None and r is None:
        r = E.ZERO if p is E.NAN and q is not E.NAN and q.is_zero() else E.mul(q, p)
    if all(x is not None for x in (q, p, r)) and not E.same(r, E.mul(q, p)) and not (q is not E.NAN and q.is_zero()):
        return "either"  # revenue is known, but not volume or price
    return {k: x for k, x in zip("wqpr", (w, q, p, r)) if x is not None}


def judge_creation(I, c, o, want, ts, idx, scale, aspects):
    I.trace = o.trace
    key = frozenset(I.ts_norm(ts))
    eqs = {k[1]: v for k, v in o.facts.items() if isinstance(k, tuple) and k[0] == "serieseq"}
    if o.kind == "raise":
        if RL.excused(o) or I.ts_norm(ts) == frozenset(["~empty"]):
            return None
        if any(not v and k in want.eqs for k, v in eqs.items()):
            return None
        return f"raises {o.value.typ.name}{o.value.args[:1]}" if "accept" in aspects else None
    if "reject" in aspects:
        if not known_nonempty(I, o, I.ts_norm(ts)):
            return "returns a value without having checked that the timeseries have common timestamps"
        for q in want.eqs:
            if eqs.get(q) is not True:
                return f"returns a value without having checked that {q}"
            if ("serieseq", q, key) not in o.facts:
                return f"checks {q} only on a part of the timestamps"
        for e in o.trace.events:
            if e["kind"] == "series-equal":
                m = tolerance(e["kwargs"])
                if m:
                    return m
    v = o.value
    if isinstance(v, Top):
        return Undecided("unknown result")
    line = SP.SL(want.kind, ts, idx, want.v)
    if "kind" in aspects:
        m = SP.cmp_kind(I, v, line)
        if m:
            return m
    if "values" in aspects:
        df = SP.frame(v)
        if df is None:
            return Undecided("unknown frame") if SP.is_line(v) else f"gives {SP.describe(v)}, should be a portfolio line"
        sub = want.facts(scale, c.freq)
        for col, e in want.v.items():
            if col not in df.cols:
                return f"column {col} is missing"
            x = df.cols[col]
            got = E.mul(x.expr, E.num(x.unit.scale)) if x.unit is not None else x.expr
            m = SP.cmp_expr(E.subst(got, sub), E.subst(e, sub), col)
            if m:
                return m
    if "index" in aspects:
        return SP.cmp_index(I, v, line)
    return None


def tolerance(kw, limits=(("rtol", 1e-3), ("atol", 1e-2))):
    for k, most in limits:
        t = kw.get(k) if hasattr(kw, "get") else None
        if isinstance(t, (int, float)) and not isinstance(t, bool) and t > most:
            return f"compares with a tolerance of {k}={t}"
    return None


# ---- what must be rejected

def rejected(c):
    """(description, data) that no portfolio line can be created from."""
    I = c.I
    X = c.idx("X")
    ser = lambda n, u=None, i=X: SeriesV(E.atom(n), i, parse_unit(u) if u else None, None)
    K = c.I.find("core.pfline.interop:InOp")
    for k in "wqpr":
        u, o = str(U[k]), OTHER[k]
        yield f"list with two timeseries in {u}", lambda k=k, u=u: [ser("a", u), ser("b", u)]
        yield f"list with timeseries in {u} and in {o}", lambda k=k, u=u, o=o: [ser("a", u), ser("b", o)]
        yield f"dict with {k!r} and ({k!r}, 'x')", lambda k=k: {k: ser("a"), (k, "x"): ser("b")}
        yield f"dict with {k!r} twice, of which one is zero", lambda k=k: {k: ser("a"), (k, "x"): 0.0}
        yield f"dict with {k!r} in {WRONG[k]}", lambda k=k: {k: ser("a", WRONG[k])}
        yield f"dict with {k!r} as quantity in {WRONG[k]}", lambda k=k: {"w": ser("b"), "p": ser("d"), k: Num(E.atom("a"), parse_unit(WRONG[k]))}
        yield f"dict with {k!r} without dimension", lambda k=k: {k: ser("a", "dimensionless")}
        yield f"dict with {k!r} as float only", lambda k=k: {k: Num(E.atom("a"))}
        yield f"dict with {k!r} as quantity only", lambda k=k: {k: Num(E.atom("a"), U[k])}
        yield f"quantity in {u}", lambda k=k: Num(E.atom("a"), U[k])
        yield f"dict with {k!r} and dimensionless factor", lambda k=k: {k: ser("a"), "nodim": ser("b")}
        yield f"dict with {k!r} and dimensionless float", lambda k=k: {k: ser("a"), "nodim": Num(E.atom("b"))}
        yield f"dict with {k!r} and dimension-agnostic series", lambda k=k: {k: ser("a"), "agn": ser("b")}
        yield f"dict with {k!r} and dimension-agnostic float", lambda k=k: {k: ser("a"), "agn": Num(E.atom("b"))}
        yield f"list with {k} and float", lambda k=k, u=u: [ser("a", u), Num(E.atom("b"))]
        yield f"list with {k} and dimensionless series", lambda k=k, u=u: [ser("a", u), ser("b", "dimensionless")]
        yield f"dict with {k!r} and unknown name", lambda k=k: {k: ser("a"), "x": ser("b")}
        yield f"dict with {k!r} and unknown name with correct unit", lambda k=k, u=u: {k: ser("a", u), "x": ser("b", u)}
        yield f"dataframe with {k!r} and unknown name", lambda k=k: FrameV({k: SeriesV(E.atom("a"), X, None, k), "x": SeriesV(E.atom("b"), X, None, "x")}, X)
        yield f"dict with {k!r} that is no timeseries", lambda k=k: {k: [1, 2]}
        yield f"children with name {k!r}", lambda k=k: {k: c.flat("VOLUME", "a", X), "x": c.flat("VOLUME", "b", X)}
        yield f"only child with name {k!r}", lambda k=k: {k: c.flat("PRICE", "a", X)}
    yield "float", lambda: Num(E.atom("a"))
    yield "int", lambda: 3
    yield "float-series", lambda: ser("a")
    yield "dimensionless series", lambda: ser("a", "dimensionless")
    yield "series in hours", lambda: ser("a", "h")
    yield "series in degrees", lambda: ser("a", "degC")
    yield "None", lambda: None
    yield "empty dict", lambda: {}
    yield "empty list", lambda: []
    yield "child with number as name", lambda: {1: c.flat("VOLUME", "a", X)}
    yield "child with tuple as name", lambda: {("a", "b"): c.flat("VOLUME", "a", X)}
    yield "child with None as name", lambda: {None: c.flat("VOLUME", "a", X), "x": c.flat("VOLUME", "b", X)}
    for k1, k2 in itertools.permutations(KINDS, 2):
        yield f"{k1.lower()} child and {k2.lower()} child", lambda k1=k1, k2=k2: {"x": c.flat(k1, "a", X), "y": c.flat(k2, "b", X)}
        yield f"{k1.lower()} children and nested {k2.lower()} child", lambda k1=k1, k2=k2: {"x": c.flat(k1, "a", X), "y": c.flat(k1, "b", X), "z": c.nested(k2, "b", X, ["k"])}
    for what, kw in (("frequency", dict(freq=None)), ("other timezone", dict(tz=TokV("tz", "Z2"))), ("other start-of-day", dict(sod=TokV("sod", "T2")))):
        i = c.idx("Y", **kw)
        if what == "frequency":
            yield "timeseries without frequency", lambda i=i: {"w": ser("a", None, i)}
            yield "pint-series without frequency", lambda i=i: ser("a", "MW", i)
            yield "dataframe without frequency", lambda i=i: FrameV({"p": SeriesV(E.atom("a"), i, None, "p")}, i)
            continue
        yield f"timeseries with {what}", lambda i=i: {"w": ser("a"), "p": ser("b", None, i)}
        yield f"children with {what}", lambda i=i: {"x": c.flat("VOLUME", "a", X), "y": c.flat("VOLUME", "b", i)}


def rejection(rep, I, tier):
    c = Ctx(I)
    for name, fn_ in creators(I):
        for what, data in rejected(c):
            if name == "flatpfline" and "child" in what:
                continue

            def spec(o):
                I.trace = o.trace
                if o.kind == "raise":
                    return None
                if isinstance(o.value, Top):
                    return Undecided("unknown result")
                return f"returns {SP.describe(o.value)}, should raise an error"

            rep.explore(I, f"{rep.pid}.rejection", f"{name}({what})", lambda I: I.call(fn_, [data()], {}), spec)
    # not standardized
    R = c.idx("raw1")
    for name, fn_ in creators(I):
        for what, data in (("timeseries", lambda: {"w": SeriesV(E.atom("a"), R, None, None)}), ("pint-series", lambda: SeriesV(E.atom("a"), R, U["p"], None)),
                           ("dataframe", lambda: FrameV({"r": SeriesV(E.atom("a"), R, None, "r")}, R)), ("second timeseries", lambda: [SeriesV(E.atom("a"), c.idx("X"), U["w"], None), SeriesV(E.atom("b"), R, U["p"], None)])):
            def spec(o):
                I.trace = o.trace
                std = [v for k, v in o.facts.items() if isinstance(k, tuple) and k[0] == "standardized"]
                if o.kind == "raise":
                    if RL.excused(o) or I.ts_norm(R.ts | {"X"}) == frozenset(["~empty"]):
                        return None
                    return f"raises {o.value.typ.name}{o.value.args[:1]} for standardized data"
                if not std:
                    return "returns a value without having checked that the timeseries is standardized"
                return None if all(std) else "returns a value for a timeseries that is not standardized"

            rep.explore(I, f"{rep.pid}.standardized", f"{name}({what} that may not be standardized)", lambda I: I.call(fn_, [data()], {}), spec)


# ---- nested creation

def nested_creation(rep, I, tier, aspects):
    c = Ctx(I)
    X, Y, Z = c.idx("X"), c.idx("Y"), c.idx("Z")
    fns = [("pfline", I.find("core.pfline.create:pfline")), ("nestedpfline", I.find("core.pfline.create:nestedpfline")), ("PfLine", I.find("core.pfline.classes:PfLine"))]
    for fname_, fn_ in fns:
        for k in KINDS:
            for mode in ("same", "other"):
                ix = [X, X, X] if mode == "same" else [X, Y, Z]
                names = ["c", "a", "b"]
                cases = {
                    "flat lines": (lambda: {n: c.flat(k, n, i) for n, i in zip(names, ix)}, lambda: {n: SP.flat(c, k, n, i) for n, i in zip(names, ix)}),
                    "nested and flat lines": (
                        lambda: {n: (c.flat(k, n, i) if j % 2 else c.nested(k, n, i, ["z", "y"])) for j, (n, i) in enumerate(zip(names, ix))},
                        lambda: {n: (SP.flat(c, k, n, i) if j % 2 else SP.nested(c, k, n, i, ["z", "y"])) for j, (n, i) in enumerate(zip(names, ix))}),
                    "only one line": (lambda: {"z": c.flat(k, "z", X)}, lambda: {"z": SP.flat(c, k, "z", X)}),
                    "dataframes": (lambda: {n: FrameV({x: SeriesV(s.expr, i, None, x) for x, s in c.df(k, n, i).cols.items()}, i) for n, i in zip(names, ix)},
                                   lambda: {n: SP.flat(c, k, n, i) for n, i in zip(names, ix)}),
                    "nested dicts": (lambda: {n: {m: c.flat(k, f"{n}.{m}", i) for m in ("q1", "a1")} for n, i in zip(names, ix)},
                                     lambda: {n: SP.nested(c, k, n, i, ["q1", "a1"]) for n, i in zip(names, ix)}),
                }
                for what, (data, kids) in cases.items():
                    ch = kids()
                    ts = frozenset().union(*(s.ts for s in ch.values()))
                    want = SP.nest(k, {n: SP.restrict_ts(s, ts) for n, s in ch.items()}, ts, X)

                    def spec(o):
                        I.trace = o.trace
                        if o.kind == "raise":
                            if RL.excused(o) or I.ts_norm(ts) == frozenset(["~empty"]):
                                return None
                            return f"raises {o.value.typ.name}{o.value.args[:1]}" if "accept" in aspects else None
                        if "reject" in aspects and not known_nonempty(I, o, I.ts_norm(ts)):
                            return "returns a value without having checked that the children have common timestamps"
                        m = None
                        if "kind" in aspects:
                            m = SP.cmp_kind(I, o.value, want)
                        if not m and "values" in aspects:
                            m = SP.cmp_values(I, o.value, want)
                        if not m and "index" in aspects:
                            m = SP.cmp_index(I, o.value, want)
                        if not m and "order" in aspects and list(SP.children_of(o.value) or []) != list(ch):
                            m = f"children are {list(SP.children_of(o.value) or [])}, should be {list(ch)}"
                        return m

                    rep.explore(I, f"{rep.pid}.nested-creation", f"{fname_}(dict of {what}, {k.lower()}{', different timestamps' if mode == 'other' else ''})", lambda I: I.call(fn_, [data()], {}), spec)


def A10(rep, I, tier):
    rep.group("creation", creation, I, tier, {"accept", "reject", "index", "values"})
    rep.group("rejection", rejection, I, tier)
    rep.group("nested creation", nested_creation, I, tier, {"accept", "reject", "index", "values", "order"})
    rep.group("operations", standardized_results, I, tier)
    if not Ctx.NAIVE:
        from .rules_fields import standards

        rep.group("valid timestamps", standards, I, tier)


def standardized_results(rep, I, tier):
    """Selecting, resampling, reindexing: non-empty standardized index, or an error."""
    c = Ctx(I)
    X, Y, G = c.idx("X"), c.idx("Y"), TokV("sel", "sel")
    from .values import FreqV, StampV, BoolV

    sel = TokV("selector", "rows")
    a, b = StampV("a", None), StampV("b", None)
    G = FreqV("G")
    raw = c.idx("rawY")
    ops = [
        ("loc[...]", lambda x: RL.select(I, x, "loc", sel)),
        ("loc[a:b]", lambda x: RL.select(I, x, "loc", slice(a, b))),
        ("slice[a:b]", lambda x: RL.select(I, x, "slice", slice(a, b))),
        ("slice[:b]", lambda x: RL.select(I, x, "slice", slice(None, b))),
        ("loc[index]", lambda x: RL.select(I, x, "loc", Y)),
        ("asfreq", lambda x: RL.method(I, x, "asfreq", G)),
        ("reindex", lambda x: RL.method(I, x, "reindex", Y)),
    ]
    for st in ("flat", "nested"):
        for k in KINDS:
            for name, op in ops:
                def spec(o):
                    I.trace = o.trace
                    if o.kind == "raise":
                        if RL.excused(o):
                            return None
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    v = o.value
                    if not SP.is_line(v):
                        return Undecided("unknown result") if isinstance(v, Top) else f"returns {SP.describe(v)}"
                    df = SP.frame(v)
                    if df is None:
                        return Undecided("unknown frame")
                    ts = I.ts_norm(df.idx.ts)
                    if df.idx.freq is None:
                        return "index of result has no frequency"
                    if not known_nonempty(I, o, ts):
                        return "returns a value without having checked that it contains timestamps"
                    if any(g.startswith("(") for g in ts) and o.facts.get(("standardized", frozenset(ts))) is not True:
                        return "returns a value without having checked that its index is standardized"
                    return None

                rep.explore(I, f"{rep.pid}.result-standardized", f"{name} of {st} {k.lower()} line", lambda I: op(RL.make(c, st, k, "a", X)), spec)


def known_nonempty(I, o, ts):
    ts = frozenset(ts)
    for k, v in o.facts.items():
        if isinstance(k, tuple) and k[0] in ("nonempty", "standardized") and v and I.ts_norm(k[1]) >= ts:
            return True
    return len(ts) == 1 and all(not g.startswith("(") and "full(" not in g for g in ts)


# ---- A06: consistency of every line, however it was made

def made(c, X, Y, G):
    """(how, structures, kinds, function making a line)."""
    I = c.I
    for name, op, kinds in RL.index_ops(c, X, Y, G):
        for st in ("flat", "nested"):
            for k in kinds:
                yield f"{name} of {st} {k.lower()} line", (lambda op=op, st=st, k=k: op(RL.make(c, st, k, "a", X)))
    for st in ("flat", "nested", "deep"):
        for k in KINDS:
            yield f"flatten of {st} {k.lower()} line", lambda st=st, k=k: RL.method(I, RL.make(c, st, k, "a", X), "flatten")
            if st != "flat":
                yield f"dropping a child of {st} {k.lower()} line", lambda st=st, k=k: RL.method(I, RL.make(c, st, k, "a", X), "drop_child", "a")
                yield f"setting a child of {st} {k.lower()} line", lambda st=st, k=k: RL.method(I, RL.make(c, st, k, "a", X), "set_child", "new", c.flat(k, "z", Y))
            if k in ("VOLUME", "COMPLETE"):
                for pi in (X, Y):
                    yield f"hedging of {st} {k.lower()} line", lambda st=st, k=k, pi=pi: RL.method(I, RL.make(c, st, k, "a", pi_freq(c, X)), "hedge_with", c.flat("PRICE", "z", pi_freq(c, pi)))
    ks = [("COMPLETE", "Add", "COMPLETE"), ("COMPLETE", "Sub", "COMPLETE"), ("VOLUME", "Add", "VOLUME"), ("VOLUME", "BitOr", "PRICE"), ("PRICE", "BitOr", "VOLUME"),
          ("REVENUE", "BitOr", "VOLUME"), ("VOLUME", "BitOr", "REVENUE"), ("PRICE", "BitOr", "REVENUE"), ("REVENUE", "BitOr", "PRICE"), ("REVENUE", "Div", "PRICE"), ("VOLUME", "Sub", "VOLUME")]
    for k1, op, k2 in ks:
        for s1 in ("flat", "nested"):
            for s2 in ("flat", "nested"):
                for j in (X, Y):
                    yield (f"{s1} {k1.lower()} {SP.SIGN[op]} {s2} {k2.lower()} line ({'same' if j is X else 'other'} timestamps)",
                           lambda k1=k1, k2=k2, s1=s1, s2=s2, j=j, op=op: I.lib.binop(I, op, RL.make(c, s1, k1, "a", X), RL.make(c, s2, k2, "b", j)))


def pi_freq(c, idx):
    from .values import parse_freq

    return idx.copy(freq=parse_freq("h"))


def consistency(rep, I, tier):
    from .values import FreqV

    c = Ctx(I)
    X, Y, G = c.idx("X"), c.idx("Y"), FreqV("G")
    for what, fn in made(c, X, Y, G):
        def spec(o):
            I.trace = o.trace
            if o.kind == "raise":
                if RL.excused(o):
                    return None
                return f"raises {o.value.typ.name}{o.value.args[:1]}"
            if not SP.is_line(o.value):
                return Undecided("unknown result") if isinstance(o.value, Top) else f"gives {SP.describe(o.value)}"
            m = RL.consistent(I, o.value)
            if m or SP.children_of(o.value) is None:
                return m
            return RL.sum_of_children(I, o.value)

        rep.explore(I, f"{rep.pid}.consistent", what, lambda I: fn(), spec)


def A06(rep, I, tier):
    rep.group("creation", creation, I, tier, {"values"})
    rep.group("creation with special rows", special_rows, I, tier)
    rep.group("nested creation", nested_creation, I, tier, {"values"})
    rep.group("operations", consistency, I, tier)
    if not Ctx.NAIVE:
        from .contexts import load
        from .rules_freq import durations

        rep.group("durations", durations, load(str(I.pkg.root), ("tools.duration.index", "tools.right.index", "tools.right.stamp")), tier)


# ---- A07: accessors, kind, structure

HAS = {"VOLUME": {"w", "q", "volume"}, "PRICE": {"p", "price"}, "REVENUE": {"r", "revenue"},
       "COMPLETE": {"w", "q", "p", "r", "volume", "price", "revenue"}}


def accessors(rep, I, tier):
    c = Ctx(I)
    X = c.idx("X")
    for st in ("flat", "nested", "deep"):
        for k in KINDS:
            for nm in ("w", "q", "p", "r", "volume", "price", "revenue"):
                what = f"{nm} of {st} {k.lower()} line"

                def fn(I):
                    x = RL.make(c, st, k, "a", X)
                    return x, I.getattr(x, nm)

                def spec(o):
                    I.trace = o.trace
                    if nm not in HAS[k]:
                        if o.kind != "raise":
                            return f"returns {SP.describe(o.value[1])}, should raise TypeError"
                        return None if o.value.typ.name == "TypeError" else f"raises {o.value.typ.name}, should raise TypeError"
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    x, y = o.value
                    df = SP.frame(x)
                    if nm in "wqpr":
                        return RL.same_series(I, y, df.cols[nm], nm)
                    kind = nm.upper()
                    if not SP.is_line(y):
                        return Undecided("unknown") if isinstance(y, Top) else f"gives {SP.describe(y)}"
                    m = SP.kind_of(I, y)
                    if m != kind:
                        return f"has kind {m}, should be {kind}"
                    f = SP.frame(y)
                    if f is None:
                        return Undecided("unknown frame")
                    if set(f.cols) != set(COLS[kind]):
                        return f"has columns {list(f.cols)}, should have {list(COLS[kind])}"
                    for col in COLS[kind]:
                        m = RL.same_series(I, f.cols[col], df.cols[col], col)
                        if m:
                            return m
                    stw = "FLAT" if st == "flat" or (nm == "price" and k == "COMPLETE") else "NESTED"
                    if SP.structure_of(I, y) != stw:
                        return f"is {SP.structure_of(I, y)}, should be {stw}"
                    if stw == "NESTED":
                        for n, ch in x.attrs["children"].items():
                            m = RL.same_line(I, SP.children_of(y).get(n), I.getattr(ch, nm), f"child {n}")
                            if m:
                                return m
                    return None

                rep.explore(I, f"{rep.pid}.accessor", what, fn, spec)
            for nm in ("kind", "structure", "index"):
                def fn(I):
                    x = RL.make(c, st, k, "a", X)
                    return x, I.getattr(x, nm)

                def spec(o):
                    I.trace = o.trace
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    x, y = o.value
                    if nm == "kind":
                        return None if getattr(y, "name", None) == k else f"is {y}, should be {k}"
                    if nm == "structure":
                        w = "FLAT" if st == "flat" else "NESTED"
                        return None if getattr(y, "name", None) == w else f"is {y}, should be {w}"
                    return RL.same_idx(I, y, X, "index")

                rep.explore(I, f"{rep.pid}.accessor", f"{nm} of {st} {k.lower()} line", fn, spec)


def constructors(rep, I, tier):
    c = Ctx(I)
    f = I.find("core.pfline.classes:constructor")
    for st in ("FLAT", "NESTED"):
        for k in KINDS:
            def spec(o):
                if o.kind == "raise":
                    return f"raises {o.value.typ.name}"
                cls = o.value
                got = (getattr(cls.lookup("structure")[0], "name", None), getattr(cls.lookup("kind")[0], "name", None)) if hasattr(cls, "lookup") else (None, None)
                return None if got == (st, k) else f"gives {getattr(cls, 'name', cls)}, with structure and kind {got}"

            rep.explore(I, f"{rep.pid}.constructor", f"constructor for {st}, {k}", lambda I: I.call(f, [c.structure(st), c.kind(k)], {}), spec)


TABLE = {"VOLUME": ("vol", "wq", "q"), "PRICE": ("pri", "p", "p"), "REVENUE": ("rev", "r", "r"), "COMPLETE": ("all", "wqpr", "qr")}


def kinds(rep, I, tier):
    c = Ctx(I)
    K = I.find("core.pfline.enums:Kind")
    for k, (abbr, av, su) in TABLE.items():
        for nm, want in (("available", av), ("summable", su)):
            def spec(o):
                if o.kind == "raise":
                    return f"raises {o.value.typ.name}"
                v = o.value
                if isinstance(v, Top):
                    return Undecided("unknown")
                return None if sorted(v) == sorted(want) else f"is {v}, should be {tuple(want)}"

            rep.explore(I, f"{rep.pid}.kind", f"{nm} of Kind.{k}", lambda I: I.getattr(c.kind(k), nm), spec)
        rep.explore(I, f"{rep.pid}.kind", f"Kind({abbr!r})", lambda I: I.call(K, [abbr], {}), lambda o: None if o.kind != "raise" and o.value is c.kind(k) else f"gives {o.value}")
        rep.explore(I, f"{rep.pid}.kind", f"str(Kind.{k})", lambda I: I.call(I.getattr(c.kind(k), "__str__"), [], {}), lambda o: None if o.value == abbr else f"gives {o.value}")
    rep.explore(I, f"{rep.pid}.kind", "Kind('unknown')", lambda I: I.call(K, ["unknown"], {}), lambda o: None if o.kind == "raise" else f"gives {o.value}")


def conversion(rep, I, tier):
    """Creation from an existing line."""
    c = Ctx(I)
    X = c.idx("X")
    for st in ("flat", "nested", "deep"):
        for k in KINDS:
            for name, path in (("pfline", "core.pfline.create:pfline"), ("PfLine", "core.pfline.classes:PfLine"), ("flatpfline", "core.pfline.create:flatpfline"), ("nestedpfline", "core.pfline.create:nestedpfline")):
                f = I.find(path)

                def fn(I):
                    x = RL.make(c, st, k, "a", X)
                    return x, I.call(f, [x], {})

                def spec(o):
                    I.trace = o.trace
                    if name == "nestedpfline" and st == "flat":
                        return None if o.kind == "raise" else "returns a value, should raise an error"
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    x, y = o.value
                    if name == "flatpfline" and st != "flat":
                        if not SP.is_line(y):
                            return Undecided("unknown") if isinstance(y, Top) else f"gives {SP.describe(y)}"
                        if SP.structure_of(I, y) != "FLAT" or SP.kind_of(I, y) != k:
                            return f"gives {SP.describe(y)}, should be flat {k.lower()} line"
                        return RL.same_frame(I, SP.frame(y), SP.frame(x))
                    return RL.same_line(I, y, x)

                rep.explore(I, f"{rep.pid}.conversion", f"{name}({st} {k.lower()} line)", fn, spec)
            def fn(I):
                x = RL.make(c, st, k, "a", X)
                return x, RL.method(I, x, "flatten")

            def spec(o):
                I.trace = o.trace
                if o.kind == "raise":
                    return f"raises {o.value.typ.name}{o.value.args[:1]}"
                x, y = o.value
                if not SP.is_line(y) or SP.structure_of(I, y) != "FLAT" or SP.kind_of(I, y) != k:
                    return f"gives {SP.describe(y)}, should be flat {k.lower()} line"
                return RL.same_frame(I, SP.frame(y), SP.frame(x))

            rep.explore(I, f"{rep.pid}.conversion", f"flatten of {st} {k.lower()} line", fn, spec)


def bounds(rep, I, tier):
    """start and end: left bound of the first, and right bound of the last delivery period; slicing from start to end selects everything."""
    c = Ctx(I)
    X = c.idx("X")
    for st in ("flat", "nested", "deep"):
        for k in KINDS:
            for nm in ("start", "end", "index"):
                def spec(o):
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}"
                    v = o.value
                    if nm == "index":
                        if not isinstance(v, Idx):
                            return Undecided(f"is {SP.describe(v)}")
                        return None if v.ts == X.ts and v.freq is X.freq and v.tz is X.tz else "is not the index of the data"
                    if not isinstance(v, StampV) or v.idx is None:
                        return Undecided(f"is {SP.describe(v)}")
                    ok = {"start": [("min", X.ts)], "end": [("max", {"right(X)"}), ("end", X.ts)]}[nm]
                    if (v.which, v.idx.ts) in ok:
                        return None if v.tz is X.tz else "has another timezone"
                    return f"is {v.which} of {sorted(v.idx.ts)}"

                def run(I):
                    I.stamp_terms = True
                    try:
                        return I.getattr(RL.make(c, st, k, "a", X), nm)
                    finally:
                        I.stamp_terms = False

                rep.explore(I, f"{rep.pid}.bounds", f"{nm} of {st} {k.lower()} line", run, spec)


def A07(rep, I, tier):
    rep.group("accessors", accessors, I, tier)
    rep.group("bounds", bounds, I, tier)
    rep.group("constructors", constructors, I, tier)
    rep.group("kinds", kinds, I, tier)
    rep.group("conversion", conversion, I, tier)
    rep.group("creation", creation, I, tier, {"kind"})
    rep.group("nested creation", nested_creation, I, tier, {"kind"})


# ---- A08: dimensions

def set_unit(rep, I, tier):
    """Values without unit get the standard one, values in another unit are converted, values of another dimension are rejected."""
    c = Ctx(I)
    X = c.idx("X")
    K = I.find("core.pfline.interop:InOp")
    e = E.atom("v")
    units = [None, "MW", "kW", "MWh", "GWh", "euro_per_MWh", "cent_per_kWh", "Eur", "ct", "dimensionless", "h", "degC"]
    for attr in ("w", "q", "p", "r", "nodim", "agn"):
        for u in units:
            uu = parse_unit(u) if u else None
            for form in ("number", "series", "int", "float") if u is None else ("number", "series"):
                if form == "number":
                    make = lambda: Num(e, uu)
                elif form == "series":
                    make = lambda: SeriesV(e, X, uu, None)
                elif form == "int":
                    make = lambda: 3
                else:
                    make = lambda: 3.0
                val = e if form in ("number", "series") else E.num(3)
                if attr == "agn":
                    ok = u is None
                    want_u, want_e = None, val
                else:
                    want_u = U[attr]
                    ok = u is None or uu.dims == want_u.dims
                    want_e = val if u is None else E.mul(val, E.num(uu.scale / want_u.scale))

                def spec(o):
                    I.trace = o.trace
                    if not ok:
                        if o.kind == "raise":
                            return None
                        return Undecided("unknown result") if isinstance(o.value, Top) else f"is accepted as {o.value}, should raise an error"
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    v = o.value
                    if isinstance(v, Top):
                        return Undecided("unknown result")
                    gu = getattr(v, "unit", None)
                    ge = getattr(v, "expr", None) if not isinstance(v, (int, float)) else E.num(v)
                    if gu != want_u:
                        return f"gets unit {gu}, should be {want_u}"
                    return SP.cmp_expr(ge, want_e, "value")

                rep.explore(I, f"{rep.pid}.set-unit", f"InOp({attr}={form} {'in ' + u if u else 'without unit'})", lambda I: I.getattr(I.call(K, [], {attr: make()}), attr), spec)


def unit_functions(rep, I, tier):
    c = Ctx(I)
    X = c.idx("X")
    e = E.atom("v")
    units = ["MW", "kW", "MWh", "GWh", "euro_per_MWh", "cent_per_kWh", "Eur", "ct", "h", "degC", "dimensionless"]
    to_name, from_name = I.find("tools.unit:to_name"), I.find("tools.unit:from_name")
    names = {}
    for n, u in U.items():
        names[u.dims] = n
    for u in units:
        uu = parse_unit(u)
        rep.explore(I, f"{rep.pid}.unit-table", f"to_name({u})", lambda I: I.call(to_name, [uu], {}),
                    lambda o: (None if o.value == names[uu.dims] else f"gives {o.value!r}, should be {names[uu.dims]!r}") if o.kind != "raise" else f"raises {o.value.typ.name}")
    for n, u in U.items():
        rep.explore(I, f"{rep.pid}.unit-table", f"from_name({n!r})", lambda I: I.call(from_name, [n], {}),
                    lambda o: (None if o.value == u else f"gives {o.value}, should be {u}") if o.kind != "raise" else f"raises {o.value.typ.name}")
    for n in ("x", "W", "", "wq"):
        rep.explore(I, f"{rep.pid}.unit-table", f"from_name({n!r})", lambda I: I.call(from_name, [n], {}), lambda o: None if o.kind == "raise" else f"gives {o.value}, should raise an error")
    rep.explore(I, f"{rep.pid}.unit-table", "to_name(tCO2 per day)", lambda I: I.call(to_name, [parse_unit("MW").mul(parse_unit("h"), -1)], {}), lambda o: None if o.kind == "raise" else f"gives {o.value}, should raise an error")
    du, sp, av = I.find("tools.unit:defaultunit"), I.find("tools.unit:split_magn_unit"), I.find("tools.unit:avoid_frame_of_objects")

    def base_value(o, u, val=None):
        """None | complaint if the value is not the same quantity in standard units."""
        v = o.value
        if o.kind == "raise":
            return f"raises {v.typ.name}{v.args[:1]}"
        if isinstance(v, Top):
            return Undecided("unknown result")
        gu = getattr(v, "unit", None)
        if u is None or not u.dims:
            if gu is not None:
                return f"has unit {gu}, should have none"
            return SP.cmp_expr(v.expr, E.mul(e, E.num(u.scale if u else 1)), "value")
        if gu is None or gu.dims != u.dims:
            return f"has unit {gu}, should be a unit of the same dimension as {u}"
        m = SP.cmp_expr(E.mul(v.expr, E.num(gu.scale)), E.mul(e, E.num(u.scale)), "value")
        return m

    for u in units + [None]:
        uu = parse_unit(u) if u else None
        for form, make in (("quantity" if u else "float", lambda: Num(e, uu)), ("series", lambda: SeriesV(e, X, uu, None))):
            rep.explore(I, f"{rep.pid}.defaultunit", f"defaultunit({form} {'in ' + u if u else ''})", lambda I: I.call(du, [make()], {}), lambda o: base_value(o, uu))
        rep.explore(I, f"{rep.pid}.defaultunit", f"defaultunit(dataframe with {u})", lambda I: I.getattr(I.call(du, [FrameV({"z": SeriesV(e, X, uu, "z")}, X)], {}), "cols") if False else I.lib.getitem(I, I.call(du, [FrameV({"z": SeriesV(e, X, uu, "z")}, X)], {}), "z"), lambda o: base_value(o, uu))

        def unchanged(o):
            if o.kind == "raise":
                return f"raises {o.value.typ.name}{o.value.args[:1]}"
            if isinstance(o.value, Top):
                return Undecided("unknown result")
            if o.value.unit != uu:
                return f"has unit {o.value.unit}, should be {uu}"
            return SP.cmp_expr(o.value.expr, e, "value")

        rep.explore(I, f"{rep.pid}.defaultunit", f"avoid_frame_of_objects(series {'in ' + u if u else 'without unit'})", lambda I: I.call(av, [SeriesV(e, X, uu, None)], {}), unchanged)
        for form, make in (("quantity" if u else "float", lambda: Num(e, uu)), ("series", lambda: SeriesV(e, X, uu, None))):
            def split(o):
                if o.kind == "raise":
                    return f"raises {o.value.typ.name}{o.value.args[:1]}"
                if not isinstance(o.value, tuple) or len(o.value) != 2:
                    return Undecided("unknown result") if isinstance(o.value, Top) else f"gives {o.value}, should be value and unit"
                m, un = o.value
                if isinstance(m, Top) or isinstance(un, Top):
                    return Undecided("unknown result")
                if getattr(m, "unit", None) is not None:
                    return f"magnitude has unit {m.unit}"
                if uu is None or not uu.dims:
                    return None if un is None else f"gives unit {un}, should be None"
                if un is None or un.dims != uu.dims:
                    return f"gives unit {un}, should be of the same dimension as {uu}"
                return SP.cmp_expr(E.mul(m.expr, E.num(un.scale)), E.mul(e, E.num(uu.scale)), "value")

            rep.explore(I, f"{rep.pid}.defaultunit", f"split_magn_unit({form} {'in ' + u if u else ''})", lambda I: I.call(sp, [make()], {}), split)


def unit_definitions(rep, I, tier):
    """The definition file agrees with the physical units."""
    import re
    from fractions import Fraction
    from .values import UNITS, UnitV

    path = I.pkg.root / "tools" / "unitdefinitions.txt"
    pre, defs = {}, {}
    for no, line in enumerate(path.read_text(encoding="utf-8").splitlines(), 1):
        line = line.split("#")[0].strip()
        if not line or line.startswith("@") or "=" not in line:
            continue
        parts = [p.strip() for p in line.split("=")]
        if parts[0].endswith("-"):
            for p in [parts[0], *parts[2:]]:
                pre[p.rstrip("-")] = Fraction(parts[1])
        elif parts[0].startswith("["):
            continue
        else:
            for n in [parts[0], *parts[2:]]:
                defs[n] = (parts[1], no)

    def lookup(n, seen=()):
        if n in seen:
            return None
        if n in defs:
            return ev(defs[n][0], seen + (n,))
        low = {k.lower(): k for k in defs}
        for p in sorted(pre, key=len, reverse=True):
            if n.startswith(p) and n[len(p):] in defs:
                r = lookup(n[len(p):], seen)
                return r and UnitV(r.dims, r.scale * pre[p])
        if n.lower() in low:
            return lookup(low[n.lower()], seen)
        return None

    BASE = {"[time]": "time", "[energy]": "energy", "[currency]": "currency", "[temperature]": "temperature"}

    def ev(expr, seen):
        expr = expr.strip()
        if expr == "[]":
            return UnitV({})
        if re.fullmatch(r"\[\w+\]", expr):
            return UnitV({expr: 1})
        toks = re.findall(r"[()*/]|[\w.€]+", expr)
        pos = 0

        def factor():
            nonlocal pos
            t = toks[pos]
            pos += 1
            if t == "(":
                r = term()
                pos += 1
                return r
            try:
                return UnitV({}, Fraction(t.replace("_", "")))
            except ValueError:
                r = lookup(t, seen)
                if r is None:
                    raise KeyError(t)
                return r

        def term():
            nonlocal pos
            r = factor()
            while pos < len(toks) and toks[pos] in "*/":
                s = 1 if toks[pos] == "*" else -1
                pos += 1
                r = r.mul(factor(), s)
            return r

        return term()

    loc = "portfolyo/tools/unitdefinitions.txt"
    # value of every unit in MWh, h, euro
    physical = {
        "Wh": ({"[energy]": 1}, Fraction(1)), "kWh": ({"[energy]": 1}, Fraction(1000)), "MWh": ({"[energy]": 1}, Fraction(10**6)), "GWh": ({"[energy]": 1}, Fraction(10**9)),
        "TWh": ({"[energy]": 1}, Fraction(10**12)), "h": ({"[time]": 1}, Fraction(1)), "min": ({"[time]": 1}, Fraction(1, 60)), "s": ({"[time]": 1}, Fraction(1, 3600)),
        "W": ({"[energy]": 1, "[time]": -1}, Fraction(1)), "kW": ({"[energy]": 1, "[time]": -1}, Fraction(1000)), "MW": ({"[energy]": 1, "[time]": -1}, Fraction(10**6)),
        "GW": ({"[energy]": 1, "[time]": -1}, Fraction(10**9)), "joule": ({"[energy]": 1}, Fraction(1, 3600)), "Eur": ({"[currency]": 1}, Fraction(1)), "euro": ({"[currency]": 1}, Fraction(1)),
        "ct": ({"[currency]": 1}, Fraction(1, 100)), "cent": ({"[currency]": 1}, Fraction(1, 100)), "kEur": ({"[currency]": 1}, Fraction(1000)),
        "euro_per_MWh": ({"[currency]": 1, "[energy]": -1}, Fraction(1, 10**6)), "cent_per_kWh": ({"[currency]": 1, "[energy]": -1}, Fraction(1, 10**5)),
        "toe": ({"[energy]": 1}, Fraction(11630000)), "tce": ({"[energy]": 1}, Fraction(6978000)), "degC": ({"[temperature]": 1}, Fraction(1)), "fraction": ({}, Fraction(1)),
    }
    for n, (d, sc) in physical.items():
        try:
            got = lookup(n)
        except Exception as e:
            rep.undecide(f"{rep.pid}.unit-definition", n, f"cannot read definition: {e}")
            continue
        if got is None:
            rep.violate(f"{rep.pid}.unit-definition", n, "unit is not defined", loc)
            continue
        rep.check(f"{rep.pid}.unit-definition", n, got == UnitV(d, sc), f"is {got.dims} * {got.scale}, should be {d} * {sc}", loc)


def unit_tables(rep, I, tier):
    """Every table in the source that gives a unit for w, q, p, r."""
    import ast

    for mod, m in sorted(I.pkg.mods.items()):
        for node in ast.walk(m["tree"]):
            if not isinstance(node, ast.Dict):
                continue
            keys = [k.value if isinstance(k, ast.Constant) else None for k in node.keys]
            if not keys or not set(keys) >= {"w", "q", "p", "r"}:
                continue
            for k, v in zip(keys, node.values):
                if k not in U:
                    continue
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    u = parse_unit(v.value)
                elif isinstance(v, ast.Attribute):
                    u = parse_unit(v.attr)
                else:
                    continue
                if u is None:
                    continue
                rep.check(f"{rep.pid}.unit-table", f"unit of {k!r} in table in {mod}", u == U[k], lambda: f"is {u}, should be {U[k]}", (str(m["path"])[str(m["path"]).rfind("/portfolyo/") + 1 :], v.lineno))


def duration(rep, I, tier):
    """Duration is in hours, for every frequency."""
    c = Ctx(I)


def result_units(rep, I, tier):
    from .values import FreqV

    c = Ctx(I)
    X, Y, G = c.idx("X"), c.idx("Y"), FreqV("G")

    def units(v, path="result"):
        df = SP.frame(v)
        if df is None:
            return Undecided("unknown frame")
        for col, s in df.cols.items():
            if s.unit != U.get(col):
                return f"{col} of {path} has unit {s.unit}, should be {U.get(col)}"
        for n, x in (SP.children_of(v) or {}).items():
            m = units(x, f"{path}/{n}")
            if m:
                return m
        return None

    for what, fn in made(c, X, Y, G):
        def spec(o):
            I.trace = o.trace
            if o.kind == "raise":
                return None if RL.excused(o) else f"raises {o.value.typ.name}{o.value.args[:1]}"
            if not SP.is_line(o.value):
                return Undecided("unknown result") if isinstance(o.value, Top) else f"gives {SP.describe(o.value)}"
            return units(o.value)

        rep.explore(I, f"{rep.pid}.units-of-result", what, lambda I: fn(), spec)


def A08(rep, I, tier):
    rep.group("set_unit", set_unit, I, tier)
    rep.group("unit functions", unit_functions, I, tier)
    rep.group("unit definitions", unit_definitions, I, tier)
    rep.group("unit tables", unit_tables, I, tier)
    rep.group("creation", creation, I, tier, {"kind", "values"})
    rep.group("results", result_units, I, tier)
