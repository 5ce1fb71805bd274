"""Short series of scalars, each with its own label: a series over an index of which the rows are told apart by predicates.

The rows of the index are enumerated, so sums, counts and comparisons of elements are exact."""

from __future__ import annotations

from . import expr as E
from .values import ColsV, Idx, Num, SeriesV, UnitV, NODIM

ROWS = {}  # name of index -> its labels


def index(labels):
    name = "labels{" + ", ".join(sorted(map(repr, labels))) + "}"
    ROWS[name] = True
    return Idx({name}, None, None, None, None, stat=("labels", tuple(labels)))


def is_index(i):
    return isinstance(i, Idx) and isinstance(i.stat, tuple) and i.stat[0] == "labels"


def pred(x):
    return f"$label {x!r}"


def make(I, vals, name=None):
    """Series with these values (dictionary)."""
    from . import lib as L

    labels = list(vals)
    units = {}
    for x, v in vals.items():
        units[L.unit_of(v)] = True
    if len(units) > 1:
        if None in units or len({u.dims for u in units}) > 1:
            return I.top("labelled series with distinct dimensions")
    unit = next(iter(units), None)
    if all(isinstance(v, bool) for v in vals.values()):
        e = bools(vals)
        return SeriesV(e, index(labels), None, name, "bool")

    def conv(v):
        e, u = L.to_expr(v), L.unit_of(v)
        return E.mul(e, E.num(u.scale / unit.scale)) if u is not None and u != unit else e

    order = sorted(labels, key=repr)
    e = conv(vals[order[-1]]) if order else E.NAN
    for x in order[-2::-1]:
        e = E.ite(pred(x), conv(vals[x]), e)
    return SeriesV(e, index(labels), unit, name)


def bools(vals):
    from . import lib as L

    order = sorted(vals, key=repr)
    e = vals[order[-1]] if order else False
    for x in order[-2::-1]:
        e = L.b_ite(pred(x), vals[x], e)
    return e


def all_labels(i):
    return list(i.stat[1])


def sides(i, x):
    return {pred(y): x == y for y in all_labels(i)}


def here(I, i):
    """Labels that an index (or part of it) has, in order."""
    from . import lib as L

    out = []
    ts = I.ts_norm(i.ts)
    if "~empty" in ts:
        return []
    for x in all_labels(i):
        ok = True
        for t in ts:
            if t in ROWS:
                continue
            m = L.MASKS.get(t)
            v = None if m is None or m is E.UNK else row_mask(m, i, x)
            if v is None:
                return None
            ok &= v
        if ok:
            out.append(x)
    return out


def row_mask(m, i, x):
    """Truth of a mask in the row with this label; None if unknown."""
    from . import lib as L

    s = sides(i, x)
    if not all(n in s for n in L.mask_preds(m)):
        return None
    return bool(L.mask_value(m, s))


def row(I, s, x):
    """The element with this label."""
    i = s.idx
    if s.kind == "bool":
        return row_mask(s.expr, i, x)
    e = s.expr
    for y in all_labels(i):
        e = E.restrict(e, pred(y), x == y)
    return Num(e, s.unit)


def elements(I, s):
    """{label: value} or None."""
    if not is_index(s.idx):
        return None
    xs = here(I, s.idx)
    if xs is None or s.kind == "bool" and s.expr is E.UNK:
        return None
    out = {x: row(I, s, x) for x in xs}
    return None if any(v is None for v in out.values()) else out


def pick(I, s, labels):
    """The elements with these labels, in this order."""
    have = elements(I, s)
    if have is None:
        return I.top("labels of part")
    for x in labels:
        if x not in have:
            I.raise_("KeyError", repr(x))
    r = make(I, {x: have[x] for x in labels}, s.name)
    if isinstance(r, SeriesV):
        r.unit = s.unit
    return r


def total(I, s):
    have = elements(I, s)
    if have is None:
        return None
    if s.kind == "bool":
        return sum(have.values())
    t = E.ZERO
    for v in have.values():
        if v.expr is not E.NAN:  # skipped
            t = E.add(t, v.expr)
    return Num(t, s.unit)


def mean(I, s):
    have = elements(I, s)
    if have is None or s.kind == "bool":
        return None
    t, n = E.ZERO, 0
    for v in have.values():
        if v.expr is not E.NAN:
            t, n = E.add(t, v.expr), n + 1
    return Num(E.div(t, E.num(n)) if n else E.NAN, s.unit)


def distinct(I, s):
    have = elements(I, s)
    if have is None or s.kind == "bool":
        return None
    out = []
    for v in have.values():
        if v.expr is E.NAN:
            continue
        if not any(E.same(v.expr, w) for w in out):
            out.append(v.expr)
    return len(out)


def names(I, k):
    """Labels of an index of columns or a labelled one."""
    if isinstance(k, ColsV):
        return list(k.names)
    if is_index(k):
        return here(I, k)
    return None


def transpose(I, f):
    """Rows become columns."""
    from .values import FrameV

    if not is_index(f.idx) or not f.cols:
        return None
    rows = here(I, f.idx)
    have = {c: elements(I, s) for c, s in f.cols.items()}
    if rows is None or any(h is None for h in have.values()) or any(s.kind == "bool" for s in f.cols.values()):
        return None
    cols = {x: make(I, {c: have[c][x] for c in f.cols}) for x in rows}
    if not all(isinstance(s, SeriesV) for s in cols.values()):
        return None
    return FrameV(cols, index(list(f.cols)))
