"""What the operations should do, written down independently of the code: spec lines.

A spec line ``SL`` is a portfolio line as a mathematical object: kind, set of timestamps, value
numbers of its columns, and (if nested) children.
"""

from __future__ import annotations

from . import expr as E
from .contexts import COLS
from .contracts import S, dur_atom, fname
from .report import Undecided
from .values import FrameV, Idx, Instance, SeriesV, Top, U, NODIM


class SpecError(Exception):
    """The operation must raise."""


class SL:
    def __init__(self, kind, ts, idx, v, children=None):
        self.kind, self.ts, self.idx, self.v, self.children = kind, frozenset(ts), idx, v, children

    @property
    def flat(self):
        return SL(self.kind, self.ts, self.idx, self.v)

    @property
    def nested(self):
        return self.children is not None


def mk(kind, ts, idx, w=None, q=None, p=None, r=None):
    """Complete the columns from the independent information."""
    d = dur_atom(idx.freq)
    if w is None and q is not None:
        w = E.div(q, d)
    if q is None and w is not None:
        q = E.mul(w, d)
    if kind == "COMPLETE":
        if q is None:
            q = E.div(r, p)
            w = E.div(q, d)
        if r is None:
            r = worth(q, p)
        if p is None:
            p = E.div(r, q)
    v = dict(w=w, q=q, p=p, r=r)
    return SL(kind, ts, idx, {c: v[c] for c in COLS[kind]})


def worth(q, p):
    """Revenue; zero if there is no volume, even if there is no price either."""
    for e in (q, p):
        if isinstance(e, E.Ite):
            return E.ite(e.p, *(worth(E.restrict(q, e.p, s), E.restrict(p, e.p, s)) for s in (True, False)))
    if p is E.NAN and isinstance(q, E.Rat) and q.is_zero():
        return E.ZERO
    return E.mul(q, p)


def flat(c, kind, n, idx):
    v = c.values(kind, n, idx)
    a = {x: v[x] for x in {"VOLUME": "w", "PRICE": "p", "REVENUE": "r", "COMPLETE": "wp"}[kind]}
    return mk(kind, idx.ts, idx, **a)


def nest(kind, ch, ts=None, idx=None):
    """Nested line from children."""
    first = next(iter(ch.values()))
    cols = {"VOLUME": "w", "PRICE": "p", "REVENUE": "r", "COMPLETE": "wr"}[kind]
    tot = {}
    for c in cols:
        t = E.ZERO
        for k in ch.values():
            t = E.add(t, k.v[c])
        tot[c] = t
    s = mk(kind, ts or first.ts, idx or first.idx, **tot)
    s.children = ch
    return s


def nested(c, kind, n, idx, names, depth=1):
    ch = {}
    for m in names:
        if depth > 1:
            ch[m] = nested(c, kind, f"{n}.{m}", idx, [m + "1", m + "2"], depth - 1)
        else:
            ch[m] = flat(c, kind, f"{n}.{m}", idx)
    return nest(kind, ch)


def parallel(kind, lines):
    tot = {}
    for c in {"VOLUME": "w", "PRICE": "p", "REVENUE": "r", "COMPLETE": "wr"}[kind]:
        t = E.ZERO
        for k in lines:
            t = E.add(t, k.v[c])
        tot[c] = t
    return tot


def restrict_ts(s, ts):
    ch = None
    if s.nested:
        ch = {k: restrict_ts(x, ts) for k, x in s.children.items()}
    return SL(s.kind, s.ts | frozenset(ts), s.idx, s.v, ch)


def scale(s, f, ts=frozenset()):
    """Multiplication with a factor (value number)."""
    ts = s.ts | frozenset(ts)
    if s.nested:
        return nest(s.kind, {k: scale(x, f, ts) for k, x in s.children.items()}, ts, s.idx)
    if s.kind == "COMPLETE":
        return mk(s.kind, ts, s.idx, w=E.mul(s.v["w"], f), p=s.v["p"])
    a = {c: E.mul(s.v[c], f) for c in {"VOLUME": "w", "PRICE": "p", "REVENUE": "r"}[s.kind]}
    return mk(s.kind, ts, s.idx, **a)


def add(a, b):
    if a.kind != b.kind:
        raise SpecError
    ts = a.ts | b.ts
    if a.nested and b.nested:
        ch = {}
        for n in list(a.children) + [n for n in b.children if n not in a.children]:
            if n in a.children and n in b.children:
                ch[n] = add(a.children[n], b.children[n])
            else:
                ch[n] = restrict_ts(a.children.get(n) or b.children.get(n), ts)
        return nest(a.kind, ch, ts, a.idx)
    return mk(a.kind, ts, a.idx, **parallel(a.kind, [a, b]))


def sub(a, b):
    return add(a, scale(b, E.num(-1)))


def mul(a, b):
    if {a.kind, b.kind} != {"VOLUME", "PRICE"}:
        raise SpecError
    v, p = (a, b) if a.kind == "VOLUME" else (b, a)
    return mk("REVENUE", a.ts | b.ts, a.idx, r=E.mul(v.v["q"], p.v["p"]))


def div(a, b):
    ts = a.ts | b.ts
    if a.kind == b.kind and a.kind != "COMPLETE":
        c = {"VOLUME": "q", "PRICE": "p", "REVENUE": "r"}[a.kind]
        return ("series", ts, E.div(a.v[c], b.v[c]), a.idx)
    if (a.kind, b.kind) == ("REVENUE", "PRICE"):
        return mk("VOLUME", ts, a.idx, q=E.div(a.v["r"], b.v["p"]))
    if (a.kind, b.kind) == ("REVENUE", "VOLUME"):
        return mk("PRICE", ts, a.idx, p=E.div(a.v["r"], b.v["q"]))
    raise SpecError


def union(a, b):
    if a.kind == b.kind or "COMPLETE" in (a.kind, b.kind):
        raise SpecError
    v = {}
    for s in (a, b):
        v.update({c: s.v[c] for c in {"VOLUME": "w", "PRICE": "p", "REVENUE": "r"}[s.kind]})
    return mk("COMPLETE", a.ts | b.ts, a.idx, **v)


OPS = {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "BitOr": union}
SIGN = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "BitOr": "|"}


def asfreq(s, f):
    """Resampling (to the given frequency value)."""
    f0 = s.idx.freq
    from .contracts import _freqarg

    nidx = s.idx.copy(freq=_freqarg(f))
    if s.nested:
        return nest(s.kind, {k: asfreq(x, f) for k, x in s.children.items()}, None, None)
    agg = lambda e: S(e, f)
    if s.kind == "PRICE":
        a = dict(p=E.div(agg(E.mul(s.v["p"], dur_atom(f0))), dur_atom(f)))
    else:
        a = {c: agg(s.v[c]) for c in {"VOLUME": "q", "REVENUE": "r", "COMPLETE": "qr"}[s.kind]}
    return mk(s.kind, s.ts, nidx, **a)


# ---- comparison of an abstract object with a spec line

def frame(pfl):
    df = pfl.attrs.get("df") if isinstance(pfl, Instance) else None
    return df if isinstance(df, FrameV) else None


def children_of(pfl):
    ch = pfl.attrs.get("children")
    return ch if isinstance(ch, dict) else None


def clsname(v):
    return v.cls.name if isinstance(v, Instance) else type(v).__name__


def is_line(v):
    return isinstance(v, Instance) and any(getattr(b, "name", "") == "PfLine" for b in v.cls.mro)


def kind_of(I, v):
    k, _ = v.cls.lookup("kind")
    return getattr(k, "name", None)


def structure_of(I, v):
    k, _ = v.cls.lookup("structure")
    return getattr(k, "name", None)


def cmp_kind(I, v, s, path=""):
    """Kind, structure, columns, children."""
    if isinstance(s, tuple):
        if not isinstance(v, SeriesV):
            return f"result is {clsname(v)}, should be a dimensionless series"
        if v.unit is None or v.unit.dims:
            return f"result has unit {v.unit}, should be dimensionless"
        return None
    at = f" of child {path}" if path else ""
    if not is_line(v):
        if isinstance(v, Top):
            return Undecided("unknown result")
        return f"result{at} is {describe(v)}, should be a portfolio line"
    k, st = kind_of(I, v), structure_of(I, v)
    if k != s.kind:
        return f"kind{at} is {k}, should be {s.kind}"
    want = "NESTED" if s.nested else "FLAT"
    if st != want:
        return f"structure{at} is {st}, should be {want}"
    df = frame(v)
    if df is None:
        return Undecided("unknown dataframe")
    if set(df.cols) != set(COLS[s.kind]):
        return f"columns{at} are {sorted(map(str, df.cols))}, should be {sorted(COLS[s.kind])}"
    for c, x in df.cols.items():
        if x.unit is None or x.unit.dims != U[c].dims:
            return f"column {c}{at} has unit {x.unit}, should be {U[c]}"
        if x.unit.scale != 1:
            return f"column {c}{at} has unit {x.unit}, should be {U[c]}"
    if s.nested:
        ch = children_of(v)
        if ch is None:
            return Undecided("unknown children")
        if set(ch) != set(s.children):
            return f"children{at} are {list(ch)}, should be {list(s.children)}"
        for n in s.children:
            m = cmp_kind(I, ch[n], s.children[n], f"{path}/{n}")
            if m:
                return m
    return None


def cmp_values(I, v, s, path=""):
    if isinstance(s, tuple):
        if not isinstance(v, SeriesV):
            return Undecided("no series")
        return cmp_expr(v.expr, s[2], "result")
    at = f" of child {path}" if path else ""
    if not is_line(v):
        return Undecided("no line")
    df = frame(v)
    if df is None:
        return Undecided("unknown dataframe")
    for c, want in s.v.items():
        if c not in df.cols:
            return Undecided("other columns")
        x = df.cols[c]
        got = E.mul(x.expr, E.num(x.unit.scale)) if x.unit is not None else x.expr
        m = cmp_expr(got, want, f"{c}{at}")
        if m:
            return m
    if s.nested:
        ch = children_of(v)
        if ch is None or set(ch) != set(s.children):
            return Undecided("other children")
        for n in s.children:
            m = cmp_values(I, ch[n], s.children[n], f"{path}/{n}")
            if m:
                return m
    return None


def cmp_expr(got, want, what):
    if E.has_unk(got):
        return Undecided(f"unknown value of {what}")
    if E.same(got, want):
        return None
    return f"{what} is {got}, should be {want}"


def cmp_index(I, v, s, path=""):
    at = f" of child {path}" if path else ""
    if isinstance(s, tuple):
        if not isinstance(v, SeriesV):
            return Undecided("no series")
        return cmp_idx(I, v.idx, s[1], s[3], "result")
    if not is_line(v):
        return Undecided("no line")
    df = frame(v)
    if df is None:
        return Undecided("unknown dataframe")
    m = cmp_idx(I, df.idx, s.ts, s.idx, f"result{at}")
    if m:
        return m
    for c, x in df.cols.items():
        if E.has_nan(x.expr) and not E.has_nan(s.v.get(c, E.ZERO)):
            return f"column {c}{at} has missing values"
        m = cmp_idx(I, x.idx, s.ts, s.idx, f"column {c}{at}")
        if m:
            return m
    if s.nested:
        ch = children_of(v)
        if ch is None or set(ch) != set(s.children):
            return Undecided("other children")
        for n in s.children:
            m = cmp_index(I, ch[n], s.children[n], f"{path}/{n}")
            if m:
                return m
    return None


def cmp_idx(I, got, ts, idx, what):
    if not isinstance(got, Idx):
        return Undecided("unknown index")
    if not I.ts_same(got.ts, ts):
        return f"{what} covers the timestamps {name_ts(I, got.ts)}, should cover {name_ts(I, ts)}"
    for a in ("freq", "tz", "sod"):
        x, y = getattr(got, a), getattr(idx, a)
        if x is not y and x != y:
            if a == "freq" and x is not None and y is not None and fname(x) == fname(y):
                continue
            return f"{what} has {a} {x}, should have {y}"
    return None


def name_ts(I, ts):
    return " & ".join(sorted(I.ts_norm(ts)))


def describe(v):
    if v is None:
        return "None"
    if isinstance(v, Instance):
        df = frame(v)
        if df is not None:
            return f"{v.cls.name} on {'&'.join(sorted(df.idx.ts))}"
        return f"a {v.cls.name}"
    r = repr(v)
    return r if len(r) < 200 else r[:200] + "…"
