"""W01: weighted averages; interpretation of the real bodies on rows of every listed kind."""

from __future__ import annotations

from . import expr as E
from . import labels
from .contexts import Ctx
from .interp import MISSING
from .pylib import IterV
from .report import Undecided
from .values import ExcInst, FrameV, Num, SeriesV, Top, U, UnitV


# weights x values of one row -> (expected); letters are unknown numbers (not 0, all different)
ROWS = {
    "plain": ("xyz", "abc"),
    "numbers": ((1, -1, 2), "abc"),
    "equal weights": ((2, 2, 2), "abc"),
    "equal weights, missing value": ((2, 2, 2), "abN"),
    "missing value with weight": ((1, -1, 2), "aNb"),
    "missing value without weight": ((1, 0, 2), "aNb"),
    "value without weight": ((1, 0, 2), "abc"),
    "sum 0, different values": ((1, 1, -2), "abc"),
    "sum 0, last value different": ((1, 1, -2), "aab"),
    "sum 0, first value different": ((1, 1, -2), "abb"),
    "sum 0, first value without weight": ((0, 1, -1), "abb"),
    "sum 0, same values": ((1, 1, -2), "aaa"),
    "sum 0, different value without weight": ((1, -1, 0), "aab"),
    "sum 0, missing value with weight": ((1, 1, -2), "aaN"),
    "sum 0, missing value without weight": ((1, -1, 0), "aaN"),
    "sum 0, all values missing": ((1, -1, 0), "NNN"),
    "no weight, different values": ((0, 0, 0), "abc"),
    "no weight, same values": ((0, 0, 0), "aaa"),
    "no weight, missing value": ((0, 0, 0), "aaN"),
}


def value(t):
    if t == "N":
        return E.NAN
    return E.num(t) if isinstance(t, int) else E.atom(t)


def expected(ws, vs):
    rel = [(w, v) for w, v in zip(ws, vs) if w != 0]
    total = E.ZERO
    for w, _ in rel:
        total = E.add(total, value(w))
    if not rel:
        return value(vs[0]) if len(set(vs)) == 1 and "N" not in vs else E.NAN
    if any(v == "N" for _, v in rel):
        return E.NAN
    if total.is_zero():
        return value(rel[0][1]) if len({v for _, v in rel}) == 1 else E.NAN
    out = E.ZERO
    for w, v in rel:
        out = E.add(out, E.div(E.mul(value(w), value(v)), total))
    return out


def special(o):
    """On this path, unknown numbers happen to be equal."""
    return any(isinstance(k, tuple) and k[0] == "numeq" and v for k, v in o.facts.items())


def judge_frame(I, want, i, unit):
    """The result of a calculation over all columns, for each row."""

    def judge(o):
        s = o.value
        if special(o):
            return None
        if o.kind == "raise":
            return f"raises {s.typ.name}"
        if not isinstance(s, SeriesV):
            return Undecided(repr(s)) if isinstance(s, Top) else f"gives {s!r}"
        if not E.same(s.expr, want):
            return Undecided("value is unknown") if E.has_unk(s.expr) else f"value is {s.expr}, should be {want}"
        if s.unit != unit and want is not E.NAN:
            return f"unit is {s.unit}, should be {unit}"
        if not I.ts_same(s.idx.ts, i.ts) or s.idx.stat == "unordered":
            return f"has timestamps {s.idx}, should have those of the values, in their order"
        if s.idx.freq is not i.freq and s.idx.freq != i.freq:
            return f"index has frequency {s.idx.freq}, should keep that of the values"
        return None

    return judge


def mix(kinds, pick):
    """Value of a cell, in rows of these kinds."""
    e = pick(kinds[-1])
    for n, k in list(enumerate(kinds))[-2::-1]:
        e = E.ite(f"${n}", pick(k), e)
    return e


BY_ROW = ((U["w"], U["p"]), (None, None), (U["q"], None), (None, U["p"]))


def by_row(rep, I, tier, units=BY_ROW):
    df = I.find("tools.wavg:dataframe")
    c = Ctx(I)
    i = c.idx("i")
    kinds = [(k,) for k in ROWS] + [(a, b) for a in ROWS for b in ROWS if a != b] + [tuple(ROWS)[n : n + 3] for n in range(len(ROWS) - 2)]
    for wu, vu in units:
        for ks in kinds:
            for order in ("abc", "cab"):
                if len(ks) > 1 and order != "cab":
                    continue
                want = mix(ks, lambda k: expected(*ROWS[k]))

                def go(I):
                    V = FrameV({n: SeriesV(mix(ks, lambda k: value(ROWS[k][1][x])), i, vu, n) for x, n in enumerate("abc")}, i)
                    W = FrameV({n: SeriesV(mix(ks, lambda k: value(ROWS[k][0]["abc".index(n)])), i, wu, n) for n in order}, i)
                    return I.call(df, [V, W, 1], {})

                rep.explore(I, "W01.frame", f"rows: {' / '.join(ks)}; weights {order} in {wu}, values in {vu}", go, judge_frame(I, want, i, vu))


def number(t, unit):
    """A single value, as passed by a user."""
    e = value(t)
    if unit is None:
        return float("nan") if e is E.NAN else t if isinstance(t, int) else Num(e)
    return Num(e, unit)


FORMS = ("dict", "series", "list", "generator")


def weights(I, form, ws, unit, order="abc"):
    vals = {n: number(ws["abc".index(n)], unit) for n in order}
    if form == "dict":
        return vals
    if form == "series":
        return labels.make(I, vals)
    if form == "list":
        return list(vals.values())
    return IterV(list(vals.values()))


def by_label(rep, I, tier):
    """The same weights for all rows."""
    df = I.find("tools.wavg:dataframe")
    c = Ctx(I)
    i = c.idx("i")
    for wu, vu in ((U["w"], U["p"]), (None, None), (None, U["p"])):
        for k, (ws, vs) in ROWS.items():
            for form in FORMS:
                order = "cab" if form in ("dict", "series") else "abc"
                want = expected(ws, vs)

                def go(I):
                    V = FrameV({n: SeriesV(value(vs[x]), i, vu, n) for x, n in enumerate("abc")}, i)
                    return I.call(df, [V, weights(I, form, ws, wu, order), 1], {})

                rep.explore(I, "W01.columns", f"weights per column ({form}): {k}; weights in {wu}, values in {vu}", go, judge_frame(I, want, i, vu))


def judge_number(want, unit):
    def judge(o):
        v = o.value
        if special(o):
            return None
        if o.kind == "raise":
            return f"raises {v.typ.name}"
        if isinstance(v, Top):
            return Undecided(repr(v))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = Num(E.NAN if v != v else E.num(v))
        if not isinstance(v, Num):
            return f"gives {v!r}"
        if not E.same(v.expr, want):
            return Undecided("value is unknown") if E.has_unk(v.expr) else f"value is {v.expr}, should be {want}"
        if v.unit != unit and want is not E.NAN:
            return f"unit is {v.unit}, should be {unit}"
        return None

    return judge


def of_series(rep, I, tier, units=BY_ROW):
    """Average of the elements of one series."""
    fn = I.find("tools.wavg:series")
    for wu, vu in units:
        for k, (ws, vs) in ROWS.items():
            for form in FORMS:
                for order in ("abc", "cab") if form in ("dict", "series") else ("abc",):
                    want = expected(ws, vs)
                    if all(w == 0 for w in ws):
                        want = E.NAN

                    def go(I):
                        s = labels.make(I, {n: number(vs[x], vu) for x, n in enumerate("abc")})
                        s.unit = vu
                        return I.call(fn, [s, weights(I, form, ws, wu, order)], {})

                    rep.explore(I, "W01.series", f"series with weights ({form}, {order}): {k}; weights in {wu}, values in {vu}", go, judge_number(want, vu))


OTHER = {"MW": UnitV(dict(energy=1, time=-1), 1000), "euro_per_MWh": UnitV(dict(currency=1, energy=-1), 10), "MWh": UnitV(dict(energy=1), 1000)}


def other(u):
    """Another unit of the same dimension."""
    return None if u is None else OTHER[repr(u)]


def cell(t, unit, std):
    """Number in this unit, of something that is known in the standard one."""
    e = value(t)
    return e if unit is None or e is E.NAN else E.mul(e, E.num(std.scale / unit.scale))


def more(rep, I, tier):
    """Other units, fewer or more weights than values, no weights, other orientation."""
    df, fn, general = I.find("tools.wavg:dataframe"), I.find("tools.wavg:series"), I.find("tools.wavg:general")
    c = Ctx(I)
    i = c.idx("i")

    def frame(vs, unit, mixed=False):
        us = [other(unit) if mixed and x == 1 else unit for x in range(3)]
        return FrameV({n: SeriesV(cell(vs[x], us[x], unit), i, us[x], n) for x, n in enumerate("abc")}, i)

    def wframe(ws, unit, order="abc", mixed=False):
        us = {n: other(unit) if mixed and n == "a" else unit for n in "abc"}
        return FrameV({n: SeriesV(cell(ws["abc".index(n)], us[n], unit), i, us[n], n) for n in order}, i)

    for f, nm in ((df, "dataframe"), (general, "general")):
        for wu, vu in ((U["w"], U["p"]), (U["q"], None), (None, U["p"])):
            for k, (ws, vs) in ROWS.items():
                want = expected(ws, vs)
                for mw, mv in ((True, False), (False, True), (True, True)):
                    rep.explore(I, "W01.units", f"{nm}: {k}; weights in {wu}{' and other' if mw else ''}, values in {vu}{' and other' if mv else ''}",
                                lambda I: I.call(f, [frame(vs, vu, mv), wframe(ws, wu, "abc", mw), 1], {}), judge_frame(I, want, i, vu))
        for k in ("plain", "sum 0, same values"):
            ws, vs = ROWS[k]
            for form in ("frame", "dict", "series"):

                def go(I, order):
                    w = wframe(ws, None, order) if form == "frame" else weights(I, form, ws, None, order)
                    return I.call(f, [frame(vs, U["p"]), w], {"axis": 1})

                want = expected([ws[0], ws[2]], [vs[0], vs[2]])
                rep.explore(I, "W01.fewer", f"{nm}: weights ({form}) for some of the columns: {k}", lambda I: go(I, "ca"), judge_frame(I, want, i, U["p"]))

            def extra(I, instead=False):
                V = frame(vs, U["p"])
                s = V.cols.pop("b")
                if instead:
                    V.cols["d"] = SeriesV(s.expr, i, s.unit, "d")
                return I.call(f, [V, wframe(ws, None)], {"axis": 1})

            rep.explore(I, "W01.extra", f"{nm}: weights (frame) for columns that do not exist, but as many: {k}", lambda I: extra(I, True),
                        lambda o: None if o.kind == "raise" and o.value.typ.name == "ValueError" else "no ValueError")

            rep.explore(I, "W01.extra", f"{nm}: weights (frame) for columns that do not exist: {k}", extra,
                        lambda o: None if o.kind == "raise" and o.value.typ.name == "ValueError" else "no ValueError")

            def extra(I, instead=False):
                V = frame(vs, U["p"])
                s = V.cols.pop("b")
                if instead:
                    V.cols["d"] = SeriesV(s.expr, i, s.unit, "d")
                return I.call(f, [V, weights(I, "dict", ws, None)], {"axis": 1})

            rep.explore(I, "W01.extra", f"{nm}: weights (dict) for columns that do not exist, but as many: {k}", lambda I: extra(I, True),
                        lambda o: None if o.kind == "raise" and o.value.typ.name == "ValueError" else "no ValueError")

            rep.explore(I, "W01.extra", f"{nm}: weights (dict) for columns that do not exist: {k}", extra,
                        lambda o: None if o.kind == "raise" and o.value.typ.name == "ValueError" else "no ValueError")

    # other orientation
    rows = ["sum 0, same values", "plain"]
    for vu in (U["p"], None):
        for k, (ws, vs) in ROWS.items():
            for form in (*FORMS, "frame"):
                for nm, f in (("dataframe", df), ("general", general)):
                    for axis in (0, MISSING):

                        def go(I):
                            idx = labels.index("abc")
                            V = FrameV({col: labels.make(I, {n: Num(cell(v[x], vu, vu), vu) for x, n in enumerate("abc")}) for col, v in (("y", vs), ("x", "uvw"))}, idx)
                            if form == "frame":
                                W = FrameV({col: labels.make(I, {n: number(ws[x], U["w"]) for x, n in enumerate("abc")}) for col in "yx"}, idx)
                            else:
                                W = weights(I, form, ws, U["w"])
                            return I.call(f, [V, W], {} if axis is MISSING else {"axis": axis})

                        def judge(o):
                            if special(o):
                                return None
                            if o.kind == "raise":
                                return f"raises {o.value.typ.name}"
                            if isinstance(o.value, Top):
                                return Undecided(repr(o.value))
                            got = labels.elements(I, o.value) if isinstance(o.value, SeriesV) else None
                            if got is None:
                                return f"gives {o.value!r}"
                            if list(got) != ["y", "x"]:
                                return f"has labels {list(got)}, should have y, x"
                            for col, v in (("y", vs), ("x", "uvw")):
                                want = expected(ws, v)
                                if not E.same(got[col].expr, want):
                                    return Undecided("value is unknown") if E.has_unk(got[col].expr) else f"value of column {col} is {got[col].expr}, should be {want}"
                                if got[col].unit != vu and want is not E.NAN and o.value.unit != vu:
                                    return f"unit is {got[col].unit}, should be {vu}"
                            return None

                        rep.explore(I, "W01.axis", f"{nm}: average over the rows of each column{' (default)' if axis is MISSING else ''}, weights ({form}): {k}; values in {vu}", go, judge)
    for k in ("plain", "missing value with weight"):
        ws, vs = ROWS[k]
        want = E.div(E.add(E.add(value("a"), value("b")), value("c")), E.num(3)) if "N" not in vs else None
        if want is not None:
            for nm, f in (("dataframe", df), ("general", general)):
                rep.explore(I, "W01.none", f"{nm}: no weights", lambda I: I.call(f, [frame(vs, U["p"])], {"axis": 1}), judge_frame(I, want, i, U["p"]))
            for nm, f in (("series", fn), ("general", general)):
                rep.explore(I, "W01.none", f"{nm}: no weights, series", lambda I: I.call(f, [labels.make(I, {n: number(v, U["p"]) for n, v in zip("abc", vs)})], {}), judge_number(want, U["p"]))
    for k in ("plain", "sum 0, same values"):
        ws, vs = ROWS[k]
        for nm, f in (("series", fn), ("general", general)):
            for order, nw in (("ca", "some"), ("abc", "other")):

                def go(I):
                    vals = {n: number(vs["abc".index(n)], U["p"]) for n in ("abc" if nw == "some" else "ab")}
                    return I.call(f, [labels.make(I, vals), weights(I, "dict", ws, U["w"], order)], {})

                if nw == "some":
                    rep.explore(I, "W01.fewer", f"{nm}: weights for some of the values: {k}", go, judge_number(expected([ws[0], ws[2]], [vs[0], vs[2]]), U["p"]))
                else:
                    def instead(I):
                        vals = {n: number(v, U["p"]) for n, v in zip("abd", vs)}
                        return I.call(f, [labels.make(I, vals), weights(I, "dict", ws, U["w"], order)], {})

                    wrong = lambda o: None if o.kind == "raise" and o.value.typ.name == "ValueError" else "no ValueError"  # noqa: E731
                    rep.explore(I, "W01.extra", f"{nm}: weights for values that do not exist, but as many: {k}", instead, wrong)
                    rep.explore(I, "W01.extra", f"{nm}: weights for values that do not exist: {k}", go, lambda o: None if o.kind == "raise" and o.value.typ.name == "ValueError" else "no ValueError")


def W01(rep, I, tier):
    I.labelled = True
    try:
        by_row(rep, I, tier)
        by_label(rep, I, tier)
        of_series(rep, I, tier)
        more(rep, I, tier)
    finally:
        I.labelled = False


BODIES = ("tools.wavg.dataframe", "tools.wavg.series")


def used(rep, I, tier, frames=False):
    """The averages that other properties build on: of frames (prices with volumes as weights), or of series."""
    from .contexts import load

    J = load(str(I.pkg.root), BODIES)
    J.labelled = True
    try:
        (by_row if frames else of_series)(rep, J, tier, ((U["q"], U["p"]),) if frames else ((U["duration"], U["p"]), (None, U["w"])))
    finally:
        J.labelled = False
