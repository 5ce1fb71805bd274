"""Operations on one portfolio line: A05, A06, A07, A09, A11, A12."""

from __future__ import annotations

from . import expr as E
from . import spec as SP
from .contexts import COLS, KINDS, Ctx
from .contracts import dur_atom
from .report import Undecided
from .values import BoolV, FrameV, FreqV, Idx, Instance, Num, Offset, SeriesV, StampV, StrV, TokV, Top, U, parse_freq

NAMES = ["b", "a", "ab", "c"]  # one name within another
SUMMED = {"VOLUME": "wq", "PRICE": "p", "REVENUE": "r", "COMPLETE": "wqr"}


def method(I, o, name, *a, **k):
    return I.call(I.getattr(o, name), list(a), k)


def select(I, o, which, key):
    from .lib import getitem

    return getitem(I, I.getattr(o, which), key)


def make(c, structure, kind, n, idx, names=NAMES):
    if structure == "flat":
        return c.flat(kind, n, idx)
    return c.nested(kind, n, idx, names, 2 if structure == "deep" else 1)


def excused(o):
    """The error is due to a fact about the data under which the operation is not possible."""
    for k, v in o.facts.items():
        if isinstance(k, tuple):
            if k[0] == "nonempty" and not v:
                return True
            if k[0] == "labels missing" and v:
                return True
            if k[0] == "standardized" and not v:
                return True
    return False


# ---- comparison of two abstract objects

def same_series(I, x, y, what):
    for s in (x, y):
        if not isinstance(s, SeriesV):
            return Undecided("no series") if isinstance(s, Top) else f"{what} is {SP.describe(s)}"
    if x.unit != y.unit:
        return f"{what} has unit {x.unit}, should be {y.unit}"
    m = SP.cmp_expr(x.expr, y.expr, what) if x.kind != "bool" else None
    return m or same_idx(I, x.idx, y.idx, what)


def same_idx(I, x, y, what):
    if not isinstance(x, Idx) or not isinstance(y, Idx):
        return Undecided("unknown index")
    return SP.cmp_idx(I, x, y.ts, y, what)


def same_frame(I, x, y, what="result", order=False):
    if not isinstance(x, FrameV) or not isinstance(y, FrameV):
        return Undecided("unknown frame")
    if set(x.cols) != set(y.cols) or order and list(x.cols) != list(y.cols):
        return f"columns of {what} are {list(x.cols)}, should be {list(y.cols)}"
    for k in x.cols:
        m = same_series(I, x.cols[k], y.cols[k], f"{k} of {what}")
        if m:
            return m
    return same_idx(I, x.idx, y.idx, what)


def same_line(I, x, y, what="result"):
    """Complaint if line x is not the same as line y."""
    if isinstance(x, Top) or isinstance(y, Top):
        return Undecided("unknown line")
    if not SP.is_line(x):
        return f"{what} is {SP.describe(x)}, should be a portfolio line"
    if x.cls is not y.cls:
        return f"{what} is {x.cls.name}, should be {y.cls.name}"
    fx, fy = SP.frame(x), SP.frame(y)
    if fx is None or fy is None:
        return Undecided("unknown frame")
    m = same_frame(I, fx, fy, what)
    if m:
        return m
    cx, cy = SP.children_of(x), SP.children_of(y)
    if (cx is None) != (cy is None):
        return Undecided("unknown children")
    if cx is not None:
        if list(cx) != list(cy):
            return f"children of {what} are {list(cx)}, should be {list(cy)}"
        for n in cx:
            m = same_line(I, cx[n], cy[n], f"{what}/{n}")
            if m:
                return m
    return None


def sum_of_children(I, v, what="result"):
    """Complaint if the columns of a nested line are not the sums over its children."""
    ch, df = SP.children_of(v), SP.frame(v)
    if ch is None or df is None:
        return Undecided("unknown children")
    kind = SP.kind_of(I, v)
    for c in SUMMED[kind]:
        if c not in df.cols:
            return Undecided("unknown columns")
        tot = E.ZERO
        for x in ch.values():
            f = SP.frame(x)
            if f is None or c not in f.cols:
                return Undecided("unknown child")
            tot = E.add(tot, f.cols[c].expr)
        m = SP.cmp_expr(df.cols[c].expr, tot, f"{c} of {what}")
        if m:
            return m
    for n, x in ch.items():
        m = same_idx(I, SP.frame(x).idx, df.idx, f"child {n} of {what}")
        if m:
            return m
        if SP.children_of(x) is not None:
            m = sum_of_children(I, x, f"{what}/{n}")
            if m:
                return m
    return None


def consistent(I, v, what="result"):
    """Complaint if q != w * duration, or r != p * q."""
    df = SP.frame(v)
    if df is None:
        return Undecided("unknown frame")
    val = {c: E.mul(s.expr, E.num(s.unit.scale)) if s.unit is not None else s.expr for c, s in df.cols.items()}
    if "w" in val and "q" in val:
        m = SP.cmp_expr(val["q"], E.mul(val["w"], dur_atom(df.idx.freq)), f"q of {what}")
        if m:
            return m
    if "q" in val and "p" in val and "r" in val:
        q, p, r = val["q"], val["p"], val["r"]
        if E.has_unk(q) or E.has_unk(p) or E.has_unk(r):
            return Undecided("unknown values")
        m = consistent_qpr(q, p, r, what)
        if m:
            return m
    ch = SP.children_of(v)
    for n, x in (ch or {}).items():
        m = consistent(I, x, f"{what}/{n}")
        if m:
            return m
    return None


def consistent_qpr(q, p, r, what):
    """r == q * p; where there is no volume and no revenue, the price is undefined."""
    for e in (q, p, r):
        if isinstance(e, E.Ite):
            for side in (True, False):
                m = consistent_qpr(*(E.restrict(x, e.p, side) for x in (q, p, r)), what)
                if m:
                    return m
            return None
    if p is E.NAN and isinstance(q, E.Rat) and q.is_zero() and isinstance(r, E.Rat) and r.is_zero():
        return None
    if E.same(r, E.mul(q, p)):
        return None
    return f"r of {what} is {r}, should be q * p = {E.mul(q, p)}"


# ---- operations that work child by child

def index_ops(c, X, Y, G):
    """(name, operation, kinds) which give the same for a child as for the whole."""
    I = c.I
    n = Num(E.atom("n"))
    a, b = StampV("a", None), StampV("b", None)
    yr, hol = Num(E.atom("year"), None, True), StrV("country")
    mty = I.find("tools2.changeyear:map_to_year")
    ser = lambda: SeriesV(E.atom("n"), Y, None, None)
    yield "negation", lambda x: method(I, x, "__neg__"), KINDS
    yield "multiplication with number", lambda x: I.lib.binop(I, "Mult", x, n), KINDS
    yield "multiplication from the left", lambda x: I.lib.binop(I, "Mult", n, x), KINDS
    yield "division by number", lambda x: I.lib.binop(I, "Div", x, n), KINDS
    yield "multiplication with series", lambda x: I.lib.binop(I, "Mult", x, ser()), KINDS
    yield "asfreq", lambda x: method(I, x, "asfreq", G), KINDS
    yield "asfreq (default)", lambda x: method(I, x, "asfreq"), KINDS
    yield "loc with index", lambda x: select(I, x, "loc", Y), KINDS
    yield "loc with bounds", lambda x: select(I, x, "loc", slice(a, b)), KINDS
    yield "slice with bounds", lambda x: select(I, x, "slice", slice(a, b)), KINDS
    yield "slice with left bound", lambda x: select(I, x, "slice", slice(a, None)), KINDS
    yield "slice with right bound", lambda x: select(I, x, "slice", slice(None, b)), KINDS
    yield "slice without bounds", lambda x: select(I, x, "slice", slice(None, None)), KINDS
    yield "reindex", lambda x: method(I, x, "reindex", Y), KINDS
    yield "volume", lambda x: I.getattr(x, "volume"), ["VOLUME", "COMPLETE"]
    yield "revenue", lambda x: I.getattr(x, "revenue"), ["REVENUE", "COMPLETE"]
    yield "price", lambda x: I.getattr(x, "price"), ["PRICE"]
    yield "map_to_year", lambda x: I.call(mty, [x, yr, hol], {}), KINDS


def childwise(rep, I, tier, aspects=("A05",)):
    c = Ctx(I)
    X, Y, G = c.idx("X"), c.idx("Y"), FreqV("G")
    for st in ("nested", "deep"):
        for name, op, kinds in index_ops(c, X, Y, G):
            for k in kinds:
                def fn(I):
                    x = make(c, st, k, "a", X)
                    y = op(x)
                    return x, y, {n: op(ch) for n, ch in x.attrs["children"].items()}

                def spec(o):
                    I.trace = o.trace
                    if o.kind == "raise":
                        if excused(o):
                            return None
                        return f"raises {o.value.typ.name}{o.value.args[:1]}"
                    x, y, ch = o.value
                    if not SP.is_line(y):
                        return Undecided("unknown") if isinstance(y, Top) else f"gives {SP.describe(y)}, should be a nested line"
                    if SP.structure_of(I, y) != "NESTED":
                        return f"gives {y.cls.name}, should be a nested line"
                    if SP.children_of(y) is None:
                        return Undecided("unknown children")
                    if list(SP.children_of(y)) != NAMES:
                        return f"gives children {list(SP.children_of(y))}, should be {NAMES}"
                    for n, z in ch.items():
                        m = same_line(I, SP.children_of(y)[n], z, f"child {n}")
                        if m:
                            return m
                    return sum_of_children(I, y)

                rep.explore(I, "A05.childwise", f"{name} of {st} {k.lower()} line", fn, spec)


def set_and_drop(rep, I, tier):
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")
    for st in ("nested", "deep"):
        for k in KINDS:
            for same in (True, False):
                for nm in ("a", "new", "b", "c"):
                    for cst in ("flat", "nested"):
                        i = X if same else Y

                        def fn(I):
                            return method(I, make(c, st, k, "a", X), "set_child", nm, make(c, cst, k, "z", i, ["k", "l"]))

                        ch = {n: (SP.flat(c, k, f"a.{n}", X) if st == "nested" else SP.nested(c, k, f"a.{n}", X, [n + "1", n + "2"])) for n in NAMES}
                        z = SP.flat(c, k, "z", i) if cst == "flat" else SP.nested(c, k, "z", i, ["k", "l"])
                        ch[nm] = z
                        ts = X.ts | i.ts
                        want = SP.nest(k, {n: SP.restrict_ts(s, ts) for n, s in ch.items()}, ts, X)
                        expect(rep, I, "A05.set_child", f"set_child({nm!r}) of {st} {k.lower()} line with {cst} line ({'same' if same else 'other'} timestamps)", fn, want, list(ch))
            for nm in NAMES:
                def fn(I):
                    return method(I, make(c, st, k, "a", X), "drop_child", nm)

                ch = {n: (SP.flat(c, k, f"a.{n}", X) if st == "nested" else SP.nested(c, k, f"a.{n}", X, [n + "1", n + "2"])) for n in NAMES if n != nm}
                expect(rep, I, "A05.drop_child", f"drop_child({nm!r}) of {st} {k.lower()} line", fn, SP.nest(k, ch), list(ch))
            expect(rep, I, "A05.drop_child", f"drop_child(unknown name) of {st} {k.lower()} line", lambda I: method(I, make(c, st, k, "a", X), "drop_child", "unknown"), "error")
            expect(rep, I, "A05.drop_child", f"drop_child of only child of {st} {k.lower()} line", lambda I: method(I, make(c, st, k, "a", X, ["a"]), "drop_child", "a"), "error")
            for k2 in KINDS:
                if k2 != k:
                    expect(rep, I, "A05.set_child", f"set_child of {st} {k.lower()} line with {k2.lower()} line", lambda I: method(I, make(c, st, k, "a", X), "set_child", "new", c.flat(k2, "z", X)), "error")
            for nm in "wqpr":
                expect(rep, I, "A05.set_child", f"set_child({nm!r}) of {st} {k.lower()} line", lambda I: method(I, make(c, st, k, "a", X), "set_child", nm, c.flat(k, "z", X)), "error")
            # access
            for nm in NAMES:
                for how in ("item", "attribute"):
                    def fn(I):
                        from .lib import getitem

                        x = make(c, st, k, "a", X)
                        return x, getitem(I, x, nm) if how == "item" else I.getattr(x, nm)

                    def spec(o):
                        if o.kind == "raise":
                            return f"raises {o.value.typ.name}"
                        x, y = o.value
                        return same_line(I, y, x.attrs["children"][nm], f"child {nm}")

                    rep.explore(I, "A05.access", f"child {nm!r} of {st} {k.lower()} line by {how}", fn, spec)
            for nm in ("keys", "items", "values"):
                def fn(I):
                    x = make(c, st, k, "a", X)
                    return x, list(I.iterate(method(I, x, nm)))

                def spec(o):
                    if o.kind == "raise":
                        return f"raises {o.value.typ.name}"
                    x, y = o.value
                    ch = x.attrs["children"]
                    want = {"keys": list(ch), "values": list(ch.values()), "items": [tuple(i) for i in ch.items()]}[nm]
                    got = [tuple(i) if isinstance(i, (list, tuple)) else i for i in y]
                    if len(got) != len(want) or not all(same_item(a, b) for a, b in zip(got, want)):
                        return f"gives {got}, should be {want}"
                    return None

                rep.explore(I, "A05.access", f"{nm}() of {st} {k.lower()} line", fn, spec)


def same_item(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_item(x, y) for x, y in zip(a, b))
    return a is b or (isinstance(a, str) and a == b)


def expect(rep, I, rule, what, fn, want, order=None, sum_=True):
    """The outcome is the spec line ``want`` (or an error)."""

    def spec(o):
        I.trace = o.trace
        if want == "error":
            return None if o.kind == "raise" else f"returns {SP.describe(o.value)}, should raise an error"
        if o.kind == "raise":
            if excused(o) or I.ts_norm(want.ts) == frozenset(["~empty"]):
                return None
            return f"raises {o.value.typ.name}{o.value.args[:1]}"
        m = SP.cmp_kind(I, o.value, want) or SP.cmp_values(I, o.value, want) or SP.cmp_index(I, o.value, want)
        if m:
            return m
        if order is not None:
            got = list(SP.children_of(o.value) or [])
            if got != order:
                return f"children are in order {got}, should be {order}"
        return None

    rep.explore(I, rule, what, fn, spec)


def child_addition(rep, I, tier):
    """Order and names when adding nested lines."""
    c = Ctx(I)
    X, Y = c.idx("X"), c.idx("Y")
    for k in KINDS:
        for op in ("Add", "Sub"):
            for l, r in [(["k", "l"], ["l", "m"]), (["m", "k", "l"], ["z", "l", "y", "x"]), (["k"], ["k"]), (["k"], ["l"])]:
                for i in (X, Y):
                    for d in (1, 2):
                        fn = lambda I: I.lib.binop(I, op, c.nested(k, "a", X, l, d), c.nested(k, "b", i, r, d))
                        want = SP.OPS[op](SP.nested(c, k, "a", X, l, d), SP.nested(c, k, "b", i, r, d))
                        expect(rep, I, "A05.addition", f"{SP.SIGN[op]} of nested {k.lower()} lines with children {l} and {r}, depth {d} ({'same' if i is X else 'other'} timestamps)", fn, want, list(want.children))


def A05(rep, I, tier):
    rep.group("childwise", childwise, I, tier)
    rep.group("set_child and drop_child", set_and_drop, I, tier)
    rep.group("addition", child_addition, I, tier)
