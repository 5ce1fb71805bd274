"""Operations that change values or rows in a way that is known to differ from leaving them alone.

They are kept as uninterpreted functions: an atom ``name[args](value over timestamps)``, or a subset
``name[args]`` of the timestamps.  Such a value is different from any value that does not contain the same
function, on generic input, so a specification that demands another value is violated by it."""

from __future__ import annotations

from . import expr as E
from . import lib as L
from .interp import MISSING
from .lib import ext
from .pdlib import mapcols, tsname
from .pylib import arg
from .values import FrameV, Idx, Num, SeriesV, StampV, TokV, b_bin, b_not

CONSTS = (bool, int, float, str, type(None))


def args_repr(a, k, skip=("inplace", "copy")):
    """Text of constant arguments; None if they are not constant."""
    out = []
    for v in list(a) + [v for n, v in sorted(k.items()) if n not in skip]:
        if isinstance(v, Num):
            if not isinstance(v.expr, E.Rat):
                return None
            out.append(repr(v))
        elif isinstance(v, CONSTS):
            out.append(repr(v))
        elif isinstance(v, (list, tuple)) and all(isinstance(x, CONSTS) for x in v):
            out.append(repr(list(v)))
        else:
            return None
    names = [n for n in sorted(k) if n not in skip]
    return ", ".join(out) + ("|" + ",".join(names) if names else "")


def wrap(name, e, tail=""):
    """The function applied to every case of a value number."""
    if e is E.UNK or e is E.NAN:
        return e
    if isinstance(e, E.Ite):
        return E.ite(e.p, wrap(name, e.a, tail), wrap(name, e.b, tail))
    return E.atom(f"{name}({E.key(e)}{tail})")


def elementwise(name, unit="keep"):
    def f(I, a, k):
        o = a[0]
        if isinstance(o, FrameV):
            return mapcols(o, lambda s: f(I, [s] + list(a[1:]), k))
        t = args_repr(a[1:], k)
        if t is None or not isinstance(o, (SeriesV, Num)) or isinstance(o, SeriesV) and o.kind != "num":
            return I.top(name)
        e = o.expr
        c = e.const() if isinstance(e, E.Rat) else None
        nm = name + (f"[{t}]" if t else "")
        e0, e = e, E.num(abs(c)) if name == "abs" and c is not None else wrap(nm, e)
        if name == "abs" and isinstance(e0, E.Rat):
            L.ABS[str(e)] = e0
            if str(e0) in L.ABS:
                e = e0
        u = o.unit if unit == "keep" else unit
        if isinstance(o, Num):
            return Num(e, u)
        return SeriesV(e, o.idx, u, o.name, o.kind, o.arr)

    return f


def sequential(name):
    """Value depends on the values at other timestamps."""

    def f(I, a, k):
        o = a[0]
        if isinstance(o, FrameV):
            return mapcols(o, lambda s: f(I, [s] + list(a[1:]), k))
        t = args_repr(a[1:], k)
        if t is None or not isinstance(o, SeriesV) or o.kind != "num" or o.expr is E.UNK:
            return I.top(name)
        if name in ("ffill", "bfill", "interpolate") and not E.has_nan(o.expr):
            return SeriesV(o.expr, o.idx, o.unit, o.name, o.kind, o.arr)
        if o.expr is E.NAN:
            return I.top(name)
        nm = name + (f"[{t}]" if t else "")
        return SeriesV(E.atom(f"{nm}({o.expr} over {tsname(I, o.idx)})"), o.idx, o.unit, o.name, o.kind, o.arr)

    return f


def reducing(name):
    def f(I, a, k):
        o = a[0]
        t = args_repr(a[1:], k)
        if isinstance(o, FrameV) or t is None or not isinstance(o, SeriesV) or o.kind != "num" or E.has_unk(o.expr) or E.has_nan(o.expr):
            return I.top(name)
        nm = name.upper() + (f"[{t}]" if t else "")
        if isinstance(o.expr, E.Rat) and o.expr.const() is not None and name in ("max", "min", "median", "quantile"):
            return Num(o.expr, o.unit)
        return Num(E.atom(f"{nm}({E.key(o.expr)} over {tsname(I, o.idx)})"), o.unit)

    return f


def subset(name):
    """Some of the rows; which ones depends on the arguments."""

    def f(I, a, k):
        o = a[0]
        t = args_repr(a[1:], k)
        i = o if isinstance(o, Idx) else o.idx if isinstance(o, (FrameV, SeriesV)) else None
        if t is None or i is None:
            return I.top(name)
        j = i.copy(ts=I.ts_norm(i.ts | {f"({name}[{t}] of {tsname(I, i)})"}))
        if isinstance(o, Idx):
            return j
        return L.select(I, o, j)

    return f


for _n in ("abs", "clip", "round", "sign"):
    for _t in (SeriesV, FrameV):
        L.METHODS[(_t, _n)] = elementwise(_n)
for _n in ("cumsum", "cumprod", "cummax", "cummin", "shift", "diff", "pct_change", "rank", "ffill", "bfill", "pad", "backfill", "interpolate"):
    for _t in (SeriesV, FrameV):
        L.METHODS[(_t, _n)] = sequential(_n)
for _n in ("max", "min", "median", "std", "var", "prod", "quantile", "sem", "skew"):
    L.METHODS[(SeriesV, _n)] = reducing(_n)
for _n in ("head", "tail", "between_time", "at_time", "sample", "first", "last", "drop_duplicates", "nlargest", "nsmallest"):
    for _t in (SeriesV, FrameV):
        L.METHODS[(_t, _n)] = subset(_n)
for _n in ("abs", "absolute", "fabs", "sign", "sqrt", "exp", "log", "square", "round", "around", "floor", "ceil", "trunc", "rint", "clip"):
    ext(f"numpy.{_n}")(lambda I, a, k, _f=elementwise({"absolute": "abs", "fabs": "abs", "around": "round"}.get(_n, _n)): _f(I, a, k) if isinstance(a[0], (SeriesV, FrameV, Num)) else I.top("numpy function"))


def _abs(I, a, k, old=L.EXTS.get("builtins.abs")):
    if isinstance(a[0], (SeriesV, FrameV, Num)):
        return elementwise("abs")(I, a, k)
    if isinstance(a[0], (int, float)):
        return abs(a[0])
    return old(I, a, k) if old else I.top("abs")


ext("builtins.abs")(_abs)


def _pair(name):
    def f(I, a, k):
        x, y = a[0], a[1]
        ss = [v for v in (x, y) if isinstance(v, SeriesV)]
        if not ss or not all(L.is_numeric(v) for v in (x, y)) or len(ss) == 2 and not I.ts_same(x.idx.ts, y.idx.ts):
            return I.top(name)
        ux, uy = L.unit_of(x), L.unit_of(y)
        if ux is not None and uy is not None and ux != uy:
            return I.top(name)
        ex, ey = L.to_expr(x), L.to_expr(y)
        if E.same(ex, ey):
            e = ex
        elif isinstance(ex, E.Rat) and isinstance(ey, E.Rat):
            e = E.atom(f"{name}({', '.join(sorted([E.key(ex), E.key(ey)]))})")
        else:
            return I.top(name)
        return SeriesV(e, ss[0].idx, ux or uy, None, "num", all(s.arr for s in ss))

    return f


for _n in ("maximum", "minimum", "fmax", "fmin"):
    ext(f"numpy.{_n}")(_pair(_n))


@ext("numpy.nan_to_num")
def _nan_to_num(I, a, k):
    if len(a) > 1 or set(k) - {"nan"} or not isinstance(a[0], SeriesV):
        return I.top("nan_to_num")
    return L.METHODS[(SeriesV, "fillna")](I, [a[0], k.get("nan", 0.0)], {})


def _logical(op):
    def f(I, a, k):
        return L.binop(I, "BitAnd" if op == "and" else "BitOr", a[0], a[1])

    return f


ext("numpy.logical_and")(_logical("and"))
ext("numpy.logical_or")(_logical("or"))
ext("numpy.logical_not")(lambda I, a, k: L.unop(I, "Invert", a[0]) if isinstance(a[0], SeriesV) else I.top("logical_not"))
ext("numpy.negative")(lambda I, a, k: L.unop(I, "USub", a[0]))


def _npanyall(name):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, (SeriesV, FrameV)):
            return L.METHODS[(type(v), name)](I, list(a), k)
        if isinstance(v, (list, tuple, set)) and len(a) == 1 and not k:
            vals = [I.truth(x) for x in v]
            return any(vals) if name == "any" else all(vals)
        return I.top("numpy." + name)

    return f


for _n in ("any", "all"):
    ext(f"numpy.{_n}")(_npanyall(_n))


def _between(I, a, k):
    s, lo, hi = a[0], arg(a, k, 1, "left"), arg(a, k, 2, "right")
    inc = arg(a, k, 3, "inclusive", "both")
    if inc not in ("both", "left", "right", "neither"):
        return I.top("between")
    x = L.compare(I, "GtE" if inc in ("both", "left") else "Gt", s, lo)
    y = L.compare(I, "LtE" if inc in ("both", "right") else "Lt", s, hi)
    return L.binop(I, "BitAnd", x, y) if isinstance(x, SeriesV) and isinstance(y, SeriesV) else I.top("between")


L.METHODS[(SeriesV, "between")] = _between


def _like(value):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, SeriesV):
            return SeriesV(E.num(value), v.idx, None, None, "num", True)
        return I.top("zeros_like")

    return f


ext("numpy.zeros_like")(_like(0))
ext("numpy.ones_like")(_like(1))


def _truncate(I, a, k):
    o, lo, hi = a[0], arg(a, k, 1, "before"), arg(a, k, 2, "after")
    if not isinstance(o, (SeriesV, FrameV)):
        return I.top("truncate")
    m = True
    if lo is not None:
        m = b_bin("and", m, L.idx_cmp(I, "GtE", o.idx, lo).expr)
    if hi is not None:
        m = b_bin("and", m, L.idx_cmp(I, "LtE", o.idx, hi).expr)
    return L.select(I, o, L.select_idx(I, o.idx, m), m)


for _t in (SeriesV, FrameV):
    L.METHODS[(_t, "truncate")] = _truncate


def _replace(I, a, k):
    o, old, new = a[0], arg(a, k, 1, "to_replace", MISSING), arg(a, k, 2, "value", MISSING)
    if isinstance(o, FrameV):
        return mapcols(o, lambda s: _replace(I, [s] + list(a[1:]), k))
    if old is MISSING or new is MISSING or not isinstance(o, SeriesV) or o.kind != "num" or E.has_unk(o.expr) or not isinstance(new, (int, float)):
        return I.top("replace")
    olds = list(old) if isinstance(old, (list, tuple)) else [old]
    if not all(isinstance(x, (int, float)) for x in olds):
        return I.top("replace")
    inf = float("inf")
    nan = any(x != x for x in olds)
    ev = E.NAN if new != new else E.num(new) if abs(new) != inf else None
    if ev is None:
        return I.top("replace")
    # a missing value may also be the result of dividing by zero: replacing only one of infinity and missing is not known
    if E.has_nan(o.expr) and ev is not E.NAN and (nan != any(abs(x) == inf for x in olds if x == x)) and not nan:
        return I.top("replace")
    consts = [E.num(x).const() for x in olds if x == x and abs(x) != inf]

    def walk(e):
        if isinstance(e, E.Ite):
            return E.ite(e.p, walk(e.a), walk(e.b))
        if e is E.NAN:
            return ev if nan else e
        if isinstance(e, E.Rat) and e.const() is not None and e.const() in consts:
            return ev
        return e

    return SeriesV(walk(o.expr), o.idx, o.unit, o.name, o.kind, o.arr)


for _t in (SeriesV, FrameV):
    L.METHODS[(_t, "replace")] = _replace
