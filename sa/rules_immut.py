"""A13: nothing that is done with a portfolio line or state changes it."""

from __future__ import annotations

from . import expr as E
from . import rules_line as RL
from . import rules_state as RS
from .contexts import COLS, KINDS, Ctx
from .values import FrameV, FreqV, Instance, Num, SeriesV, StampV, TokV, U, parse_freq

OPS = ("Add", "Sub", "Mult", "Div", "BitOr")
CMP = ("Eq", "NotEq")


def unchanged(rep, I, rule, what, objs, op):
    """``op`` leaves the objects it is given, and everything they consist of, alone."""

    def fn(I):
        xs = objs(I)
        for n, x in enumerate(xs):
            I.own(x, f"operand {n + 1}" if len(xs) > 1 else "the object")
        return op(I, *xs)

    def judge(o):
        for e in o.trace.events:
            if e["kind"] == "mutate":
                return f"changes {e['label']}: {e['what']} at {where(e)}"
        return None

    rep.explore(I, rule, what, fn, judge)


def where(e):
    from .report import rel

    return f"{rel(e['site'][0])}:{e['site'][1]}" if e.get("site") else "?"


def line_ops(c, k, Y, G):
    I = c.I
    for name, op, kinds in RL.index_ops(c, None, Y, G):
        if k in kinds:
            yield name, lambda I, x, op=op: op(x)
    for m in ("flatten", "dataframe", "__bool__", "__len__", "__hash__"):
        yield m, lambda I, x, m=m: RL.method(I, x, m)
    yield "dataframe with arguments", lambda I, x: RL.method(I, x, "dataframe", **dict(has_units=False))
    for a in ("w", "q", "p", "r", "df", "kind", "structure", "index", "volume", "price", "revenue", "children"):
        yield a, lambda I, x, a=a: I.getattr(x, a)
    yield "truth", lambda I, x: I.truth(x)
    yield "comparison with itself", lambda I, x: I.truth(I.lib.compare(I, "Eq", x, x))
    yield "addition with itself", lambda I, x: I.lib.binop(I, "Add", x, x)
    yield "inverse", lambda I, x: I.lib.binop(I, "Div", 1, x)
    yield "addition of 0", lambda I, x: I.lib.binop(I, "Add", x, 0)
    yield "addition of number", lambda I, x: I.lib.binop(I, "Add", x, Num(E.atom("n")))
    yield "creation of another line", lambda I, x: I.call(I.find("core.pfline.classes:PfLine"), [x], {})


def lines(rep, I, tier):
    c = Ctx(I)
    X, Y, G = c.idx("X"), c.idx("Y"), FreqV("G")
    sts = ("flat", "nested", "deep")
    for st in sts:
        for k in KINDS:
            for name, op in line_ops(c, k, Y, G):
                unchanged(rep, I, "A13.line", f"{name} of {st} {k.lower()} line", lambda I: [RL.make(c, st, k, "a", X)], op)
            aug(rep, I, f"{st} {k.lower()} line", lambda I: RL.make(c, st, k, "a", X), c, X)
            if st == "flat":
                continue
            for nm in ("a", "new"):
                for cst in ("flat", "nested"):
                    for Z in (X, Y):
                        unchanged(rep, I, "A13.set_child", f"set_child({nm!r}) of {st} {k.lower()} line with {cst} line",
                                  lambda I: [RL.make(c, st, k, "a", X), RL.make(c, cst, k, "z", Z, ["k", "l"])], lambda I, x, y: RL.method(I, x, "set_child", nm, y))
            for nm in ("a", "unknown"):
                unchanged(rep, I, "A13.drop_child", f"drop_child({nm!r}) of {st} {k.lower()} line", lambda I: [RL.make(c, st, k, "a", X)], lambda I, x: RL.method(I, x, "drop_child", nm))
            for m in ("items", "keys", "values"):
                unchanged(rep, I, "A13.line", f"{m} of {st} {k.lower()} line", lambda I: [RL.make(c, st, k, "a", X)], lambda I, x: list(I.iterate(RL.method(I, x, m))))
    for op in OPS:
        for sl in sts:
            for sr in sts if tier == "thorough" else sts[:2]:
                for kl in KINDS:
                    for kr in KINDS:
                        for Z in (X, Y):
                            unchanged(rep, I, "A13.binary", f"{sl} {kl.lower()} line {op} {sr} {kr.lower()} line ({'same' if Z is X else 'other'} timestamps)",
                                      lambda I: [RL.make(c, sl, kl, "a", X), RL.make(c, sr, kr, "b", Z)], lambda I, x, y: I.lib.binop(I, op, x, y))
        for st in ("flat", "nested"):
            for k in KINDS:
                for u in (None, "MW", "Eur", "ctEur_per_kWh"):
                    unit = None if u is None else unit_(u)
                    unchanged(rep, I, "A13.series", f"{op} of {st} {k.lower()} line with series [{u}]",
                              lambda I: [RL.make(c, st, k, "a", X), SeriesV(E.atom("n"), Y.copy(), unit, "name")], lambda I, x, y: I.lib.binop(I, op, x, y))
                unchanged(rep, I, "A13.series", f"{op} of {st} {k.lower()} line with dictionary",
                          lambda I: [RL.make(c, st, k, "a", X), {"w": SeriesV(E.atom("n"), Y.copy(), None, "name"), "p": Num(E.atom("m"))}], lambda I, x, y: I.lib.binop(I, op, x, y))
    for op in CMP:
        for sl in sts:
            for sr in sts:
                for kl in KINDS:
                    unchanged(rep, I, "A13.comparison", f"{sl} {kl.lower()} line {op} {sr} line", lambda I: [RL.make(c, sl, kl, "a", X), RL.make(c, sr, kl, "b", X)],
                              lambda I, x, y: I.truth(I.lib.compare(I, op, x, y)))


def unit_(u):
    from .values import parse_unit

    return parse_unit(u.replace("ctEur", "ctEur"))


def aug(rep, I, desc, make, c, X):
    """a += b etc. must not change the object that a was."""
    for op in OPS[:4]:
        for nm, other in (("number", lambda: Num(E.atom("n"))), ("series", lambda: SeriesV(E.atom("n"), X.copy())), ("another one", make)):
            def f(I, x):
                y = other() if nm != "another one" else make(I)
                return I.lib.augop(I, op, x, y)

            unchanged(rep, I, "A13.augmented", f"augmented {op} of {desc} with {nm}", lambda I: [make(I)], f)


def edit(op):
    """The outcome of an operation is edited afterwards."""

    def fn(I, *xs):
        r = op(I, *xs)
        if isinstance(r, FrameV):
            for col in list(r.cols):
                I.lib.setitem(I, r, col, Num(E.atom("new")))
            I.lib.setitem(I, r, "new column", Num(E.atom("new")))
        return r

    return fn


def exports(rep, I, tier):
    """Editing a frame that was exported does not change the object."""
    c = Ctx(I)
    X = c.idx("X")
    for st in ("flat", "nested", "deep"):
        for k in KINDS:
            for d, kw in (("", {}), ("without units", dict(has_units=False)), ("with columns", dict(cols=list(COLS[k]))), ("without children", dict(childlevels=0))):
                unchanged(rep, I, "A13.export", f"editing of the exported dataframe {d} of {st} {k.lower()} line", lambda I: [RL.make(c, st, k, "a", X)], edit(lambda I, x: RL.method(I, x, "dataframe", **kw)))
    for combo in RS.combos(tier):
        unchanged(rep, I, "A13.export", f"editing of the exported dataframe of {RS.nm(combo)}", lambda I: [RS.make(c, combo, X)], edit(lambda I, x: RL.method(I, x, "dataframe")))


def hedges(rep, I, tier):
    c = Ctx(I)
    pk = TokV("peak_fn", "peak")
    for f in ("h", "15min", "D"):
        X = c.idx("X", freq=parse_freq(f))
        for st in ("flat", "nested"):
            for how, p, fr in (("val", None, "MS"), ("vol", pk, "QS")):
                unchanged(rep, I, "A13.hedge", f"hedge_with of {st} volume line", lambda I: [RL.make(c, st, "VOLUME", "a", X), RL.make(c, st, "PRICE", "b", X)],
                          lambda I, x, y: RL.method(I, x, "hedge_with", y, how, p, fr))
            for k in KINDS:
                unchanged(rep, I, "A13.hedge", f"po of {st} {k.lower()} line", lambda I: [RL.make(c, st, k, "a", X)], lambda I, x: RL.method(I, x, "po", pk, "MS"))


def states(rep, I, tier):
    c = Ctx(I)
    X, Y, G = c.idx("X"), c.idx("Y"), FreqV("G")
    a_, b_ = StampV("a", None), StampV("b", None)
    parts = ("offtakevolume", "unsourcedprice", "sourced", "unsourced", "netposition", "pnl_cost", "index", "sourcedprice", "sourcedfraction", "unsourcedfraction")
    for combo in RS.combos(tier):
        d = RS.nm(combo)
        mk = lambda I: [RS.make(c, combo, X)]
        for p in parts:
            unchanged(rep, I, "A13.state", f"{p} of {d}", mk, lambda I, x: I.getattr(x, p))
        for m in ("dataframe", "mtm_of_sourced", "__bool__", "hedge_of_unsourced", "source_unsourced", "asfreq", "__neg__", "__hash__"):
            unchanged(rep, I, "A13.state", f"{m} of {d}", mk, lambda I, x: RL.method(I, x, m))
        unchanged(rep, I, "A13.state", f"asfreq of {d}", mk, lambda I, x: RL.method(I, x, "asfreq", G))
        unchanged(rep, I, "A13.state", f"reindex of {d}", mk, lambda I, x: RL.method(I, x, "reindex", Y))
        for which, key in (("slice", slice(a_, b_)), ("loc", slice(a_, b_)), ("slice", slice(None, b_)), ("loc", TokV("selector", "rows"))):
            unchanged(rep, I, "A13.state", f"{which} of {d}", mk, lambda I, x: RL.select(I, x, which, key))
        unchanged(rep, I, "A13.state", f"map_to_year of {d}", mk, lambda I, x: I.call(I.find("tools2.changeyear:map_to_year"), [x, Num(E.atom("year"), None, True)], {}))
        for m, k in (("set_offtakevolume", "VOLUME"), ("set_unsourcedprice", "PRICE"), ("set_sourced", "COMPLETE"), ("add_sourced", "COMPLETE")):
            for st in ("flat", "nested"):
                for Z in (X, Y):
                    unchanged(rep, I, "A13.state-parts", f"{m} of {d} to {st} line", lambda I: [RS.make(c, combo, X), RL.make(c, st, k, "z", Z)], lambda I, x, y: RL.method(I, x, m, y))
        for combo2 in RS.FEW[:3]:
            for op in ("Add", "Sub", "Div"):
                for Z in (X, Y):
                    unchanged(rep, I, "A13.state-binary", f"{op} of {d} and {RS.nm(combo2)}", lambda I: [RS.make(c, combo, X), RS.make(c, combo2, Z, "2")], lambda I, x, y: I.lib.binop(I, op, x, y))
            if "nested" in combo2 and "nested" in combo:
                continue  # many paths, none of which leads anywhere else
            unchanged(rep, I, "A13.state-binary", f"comparison of {d} and {RS.nm(combo2)}", lambda I: [RS.make(c, combo, X), RS.make(c, combo2, X, "2")],
                      lambda I, x, y: I.truth(I.lib.compare(I, "Eq", x, y)))
        for op in ("Mult", "Div"):
            unchanged(rep, I, "A13.state-binary", f"{op} of {d} and series", lambda I: [RS.make(c, combo, X), SeriesV(E.atom("n"), Y.copy(), None, "name")], lambda I, x, y: I.lib.binop(I, op, x, y))
        aug(rep, I, d, lambda I: RS.make(c, combo, X), c, X)


def creation(rep, I, tier):
    """Whatever is used to create an object is not changed, and keeps nothing of what is done to it later."""
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")
    pf = I.find("core.pfline.classes:PfLine")
    flat = I.find("core.pfline.create:flatpfline")
    nested = I.find("core.pfline.create:nestedpfline")
    for cols in ("w", "q", "p", "r", "wp", "qp", "wr", "qr", "pr", "wq", "wqpr"):
        def series():
            return {k: SeriesV(E.atom(k), X.copy(), None, k) for k in cols}

        from .values import FrameV

        srcs = {"dictionary": lambda I: series(), "dataframe": lambda I: FrameV(series(), X.copy()), "dictionary with units": lambda I: {k: SeriesV(E.atom(k), X.copy(), U[k], k) for k in cols}}
        for nm, src in srcs.items():
            for n, f in (("PfLine", pf), ("create.flatpfline", flat)):
                unchanged(rep, I, "A13.creation", f"{n} from {nm} with {', '.join(cols)}", lambda I: [src(I)], lambda I, x: I.call(f, [x], {}))
    for k in KINDS:
        unchanged(rep, I, "A13.creation", f"PfLine from {k.lower()} lines", lambda I: [{"a": RL.make(c, "flat", k, "a", X), "b": RL.make(c, "nested", k, "b", Y, ["k", "l"])}], lambda I, x: I.call(pf, [x], {}))
        for n in (pf, nested):
            unchanged(rep, I, "A13.creation", f"line from dictionary of {k.lower()} dictionaries",
                      lambda I: [{"a": {c_: SeriesV(E.atom(c_), X.copy()) for c_ in COLS[k][:1]}, "b": {c_: SeriesV(E.atom(c_ + "2"), Y.copy()) for c_ in COLS[k][:1]}}], lambda I, x: I.call(n, [x], {}))
    # frozen
    names = {"line": ("df", "children", "w", "q", "p", "r", "kind", "structure", "index", "name", "new", "_initialized", "volume", "price", "revenue", "loc", "slice"),
             "state": ("offtakevolume", "unsourcedprice", "sourced", "unsourced", "netposition", "pnl_cost", "index", "new", "loc", "slice", "_initialized")}
    objs = [("line", f"{st} {k.lower()} line", lambda I, st=st, k=k: RL.make(c, st, k, "a", X)) for st in ("flat", "nested") for k in KINDS]
    objs += [("state", RS.nm(x), lambda I, x=x: RS.make(c, x, X)) for x in RS.FEW]
    for typ, d, mk in objs:
        for n in names[typ]:
            for what in ("set", "delete", "setitem"):
                def fn(I):
                    x = mk(I)
                    if what == "set":
                        I.setattr(x, n, TokV("new", "value"))
                    elif what == "delete":
                        I.delattr(x, n)
                    else:
                        I.lib.setitem(I, x, n, TokV("new", "value"))

                rep.explore(I, "A13.frozen", f"{what} attribute or item {n} of {d}", fn, lambda o: None if o.kind == "raise" else "does not raise an error")


def A13(rep, I, tier):
    rep.group("lines", lines, I, tier)
    rep.group("states", states, I, tier)
    rep.group("hedging", hedges, I, tier)
    rep.group("exports", exports, I, tier)
    rep.group("creation", creation, I, tier)
