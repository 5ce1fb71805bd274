"""Specifications of functions that the interpreter does not look into.

The body of each of these functions is checked on its own (see ``rules_*``); callers are checked
against the specification.
"""

from __future__ import annotations

import re

from . import expr as E
from . import lib as L
from . import pdlib as P
from .interp import MISSING, Env
from .values import (
    BoolV, FrameV, FreqV, Idx, Native, NODIM, Num, Offset, SeriesV, StampV, TokV, Top, U, UnitV, parse_freq,
)


def bound(I, f, args, kwargs):
    env = Env(None, f.module, "function", fn=f)
    I.bind(f, args, kwargs, env)
    return env.vars


def fname(f):
    if isinstance(f, FreqV):
        return f.name
    if isinstance(f, Offset):
        return f.str
    return repr(f)


def dur_atom(freq):
    return E.atom(f"dur[{fname(freq)}]")


# ---- duration / right

def duration_index(I, f, args, kwargs):
    i = bound(I, f, args, kwargs)["i"]
    if not isinstance(i, Idx):
        return MISSING
    if i.freq is None:
        I.imprecise("duration of index without frequency")
    return SeriesV(dur_atom(i.freq), i, U["duration"], "duration")


def right_index(I, f, args, kwargs):
    i = bound(I, f, args, kwargs)["i"]
    if not isinstance(i, Idx):
        return MISSING
    return i.copy(ts={f"right({P.tsname(I, i)})"}, name="right", stat=("right", i))


def right_stamp(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    ts, freq = v["ts"], v["freq"]
    if isinstance(ts, StampV) and ts.which == "max" and ts.idx is not None:
        if isinstance(freq, str):
            freq = parse_freq(freq)
        same = freq is ts.idx.freq or ts.idx.freq is None or (freq is not None and I.truth(L.freq_eq(I, freq, ts.idx.freq)))
        if same:
            return StampV("end", ts.idx)
        if isinstance(freq, (FreqV, Offset)):
            return StampV(f"max+{fname(freq)}", ts.idx)
    return I.top("right-bound of timestamp")


# ---- trim

def trim_index(I, f, args, kwargs):
    from .spans import trimmed

    v = bound(I, f, args, kwargs)
    i = v["i"]
    if not isinstance(i, Idx) or not isinstance(v["freq"], (str, FreqV, Offset)):
        return MISSING
    return trimmed(I, i, v["freq"])


def trim_frame(I, f, args, kwargs):
    from .spans import trimmed

    v = bound(I, f, args, kwargs)
    fr = v["fr"]
    if not isinstance(fr, (FrameV, SeriesV)) or not isinstance(v["freq"], (str, FreqV, Offset)):
        return MISSING
    return L.loc_get(I, fr, trimmed(I, fr.idx, v["freq"]))


# ---- changefreq

def _freqarg(freq):
    if isinstance(freq, str):
        return parse_freq(freq)
    return freq


def _changed(I, fr, freq, op):
    f = _freqarg(freq)
    if not isinstance(f, (FreqV, Offset)):
        I.raise_("ValueError", f"frequency {freq!r}")
    idx = fr.idx
    if not isinstance(idx.freq, (FreqV, Offset)):
        I.imprecise("resampling of index without frequency")
    elif I.truth(L.freq_eq(I, f, idx.freq)):
        return P._copy(I, [fr], {})
    new = idx.copy(ts={f"full({P.tsname(I, idx)} -> {fname(f)})"}, freq=f)
    I.event("resample", freq=f)

    def one(s):
        return SeriesV(op(s.expr, idx.freq, f), new, s.unit, s.name, s.kind)

    if isinstance(fr, FrameV):
        return FrameV({c: one(s) for c, s in fr.cols.items()}, new)
    return one(fr)


def S(e, f):
    return E.linear_op(e, lambda k: E.atom(f"S[{fname(f)}]({k})"))


def summable(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    if not isinstance(v["fr"], (FrameV, SeriesV)):
        return MISSING
    return _changed(I, v["fr"], v["freq"], lambda e, f0, f1: S(e, f1))


def averagable(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    if not isinstance(v["fr"], (FrameV, SeriesV)):
        return MISSING
    return _changed(I, v["fr"], v["freq"], lambda e, f0, f1: E.div(S(E.mul(e, dur_atom(f0)), f1), dur_atom(f1)))


def changefreq_index(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    i, fr = v["i"], _freqarg(v["freq"])
    if not isinstance(i, Idx) or not isinstance(fr, (FreqV, Offset)):
        return MISSING
    if isinstance(i.freq, (FreqV, Offset)) and I.truth(L.freq_eq(I, fr, i.freq)):
        return i
    ts = I.ts_norm(i.ts)
    if len(ts) == 1 and (m := re.fullmatch(r"full\(.* -> (\S+)\)", next(iter(ts)))) and m[1] == fname(fr):
        return i.copy(ts=ts, freq=fr)  # already consists of full periods
    return i.copy(ts={f"full({P.tsname(I, i)} -> {fname(fr)})"}, freq=fr)


# ---- weighted average

def wavg_dataframe(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    df, w, axis = v["df"], v["weights"], v["axis"]
    if axis not in (1, "columns") or not isinstance(df, FrameV) or not (w is None or isinstance(w, (FrameV, list, tuple, dict))):
        return I.top("weighted average")
    if not df.cols:
        return I.top("weighted average of nothing")
    if isinstance(w, FrameV):
        if not I.ts_same(w.idx.ts, df.idx.ts):
            I.event("misaligned", what="values and weights", left=repr(df.idx), right=repr(w.idx))
            return SeriesV(E.NAN, df.idx)
        missing = [c for c in w.cols if c not in df.cols]
        if missing:
            I.raise_("ValueError", "No values found for one or more weights.")
        unit = next(iter(df.cols.values())).unit
        e = wavg_rows(I, df.cols, w.cols, unit, df.idx)
        if e is None:
            return I.top("weighted average")
        I.event("wavg")
        return SeriesV(e, df.idx, unit, None)
    return I.top("weighted average with weights of other type")


def wavg_rows(I, values, weights, unit, idx):
    """Weighted average, over the columns, of each row."""
    # Rows that are different from the others: one by one.
    for s in [*weights.values(), *(values[c] for c in weights)]:
        if (p := E.first_pred(s.expr)) is not None:
            def part(cols, side):
                return {c: SeriesV(E.restrict(x.expr, p, side), idx, x.unit, x.name) for c, x in cols.items()}
            a = wavg_rows(I, part(values, True), part(weights, True), unit, idx)
            b = wavg_rows(I, part(values, False), part(weights, False), unit, idx)
            return None if a is None or b is None else E.ite(p, a, b)
    num = den = None
    rel = {c: ws for c, ws in weights.items() if not (isinstance(ws.expr, E.Rat) and ws.expr.is_zero())}
    if not rel or (isinstance(ws_sum(rel), E.Rat) and ws_sum(rel).is_zero()):
        # all weights (or their sum) zero: defined only if all (relevant) values are the same
        vals = [values[c] for c in (rel or weights)]
        u = vals[0].unit
        return vals[0].expr if all(E.same(x.expr, vals[0].expr) and x.unit == u for x in vals) else E.NAN
    for c, ws in rel.items():
        num = L.num_op(I, "Mult", values[c], ws) if num is None else L.num_op(I, "Add", num, L.num_op(I, "Mult", values[c], ws))
        den = ws if den is None else L.num_op(I, "Add", den, ws)
    r = L.num_op(I, "Div", num, den)
    if not isinstance(r, SeriesV):
        return None
    return P.rescale(r, unit) if unit is not None else r.expr


def ws_sum(cols):
    t = E.ZERO
    for s in cols.values():
        t = E.add(t, s.expr)
    return t


def wavg_series(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    s, w = v["s"], v["weights"]
    if isinstance(s, SeriesV) and isinstance(w, SeriesV) and I.ts_same(s.idx.ts, w.idx.ts):
        t = P.tsname(I, s.idx)
        a = E.linear_op(E.mul(s.expr, w.expr), lambda k: E.atom(f"SUM({k} over {t})"))
        b = E.linear_op(w.expr, lambda k: E.atom(f"SUM({k} over {t})"))
        return Num(E.div(a, b), s.unit)
    if isinstance(s, SeriesV) and w is None:
        return P.s_mean(I, s)
    if isinstance(s, SeriesV) and isinstance(w, SeriesV) and not s.arr and not w.arr:
        if I.ts_subset(w.idx.ts, s.idx.ts):
            return wavg_series(I, f, [L.loc_get(I, s, w.idx), w], {})
        I.raise_("ValueError", "No values found for one or more weights.")
    return I.top("weighted average")


# ---- comparison

def assert_series_equal(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    l, r = v["left"], v["right"]
    rest = dict(v.get("kwargs", {}))
    if not (isinstance(l, SeriesV) and isinstance(r, SeriesV)):
        if isinstance(l, Top) or isinstance(r, Top):
            return MISSING
        I.raise_("AssertionError", "not series")
    series_equal(I, l, r, rest, v.get("args", ()))
    return None


def series_equal(I, l, r, rest=(), extra=()):
    rest = dict(rest)
    if (l.unit or NODIM).dims != (r.unit or NODIM).dims or (l.unit is None) != (r.unit is None):
        I.raise_("AssertionError", "unequal units")
    if rest.get("check_names", True) is not False and l.name != r.name:
        I.raise_("AssertionError", "unequal names")
    if not I.ts_same(l.idx.ts, r.idx.ts):
        if not I.truth(BoolV(("idxeq", tuple(sorted([P.tsname(I, l.idx), P.tsname(I, r.idx)]))))):
            I.raise_("AssertionError", "unequal indices")
    if rest.get("check_freq", True) is not False and l.idx.freq is not r.idx.freq:
        if not I.truth(L.freq_eq(I, l.idx.freq, r.idx.freq)):
            I.raise_("AssertionError", "unequal frequencies")
    for what in ("tz",):
        a, b = getattr(l.idx, what), getattr(r.idx, what)
        if a is not b and a != b:
            I.raise_("AssertionError", f"unequal {what}")
    le = P.rescale(l, P.base(l.unit)) if l.unit is not None else l.expr
    re_ = P.rescale(r, P.base(r.unit)) if r.unit is not None else r.expr
    I.event("series-equal", left=le, right=re_, kwargs=rest)
    if l.kind == "bool" or r.kind == "bool":
        I.imprecise("equality of masks")
        return
    if E.has_unk(le) or E.has_unk(re_):
        I.imprecise("equality of unknown series")
    if E.same(le, re_):
        return
    if I.ts_norm(l.idx.ts) == frozenset(["~empty"]):
        return
    p = next((x.p for x in (le, re_) if isinstance(x, E.Ite) and x.p.startswith("$")), None)
    if p is not None:  # rows that are different from the others, and exist
        for side in (True, False):
            if (f"(not({p}))" if side else f"({p})") in I.ts_norm(l.idx.ts):  # these have been left out
                continue
            a, b = SeriesV(E.restrict(le, p, side), l.idx), SeriesV(E.restrict(re_, p, side), r.idx)
            d = E.sub(a.expr, b.expr)
            if isinstance(d, E.Rat) and len(d.t) == 1:
                I.raise_("AssertionError", "unequal values")
            series_equal(I, a, b, rest)
        return
    d = E.sub(le, re_)
    if isinstance(d, E.Rat) and d.const() is not None:
        I.raise_("AssertionError", "unequal values")
    if (le is E.NAN) != (re_ is E.NAN):
        I.raise_("AssertionError", "unequal values")
    if not I.truth(BoolV(("serieseq", E.equation(le, re_), frozenset(I.ts_norm(l.idx.ts))))):
        I.raise_("AssertionError", "unequal values")


def _pd_series_equal(I, a, k):
    l, r = (a[i] if len(a) > i else k.get(n) for i, n in enumerate(("left", "right")))
    rest = {n: v for n, v in k.items() if n not in ("left", "right")}
    names = ("check_dtype", "check_index_type", "check_series_type", "check_names", "check_exact")
    rest.update(zip(names, a[2:]))
    if isinstance(l, L.Top) or isinstance(r, L.Top) or len(a) > 2 + len(names):
        return I.top("assert_series_equal")
    if not (isinstance(l, SeriesV) and isinstance(r, SeriesV)):
        I.raise_("AssertionError", "not series")
    if l.unit != r.unit and rest.get("check_dtype", True) is not False:
        I.raise_("AssertionError", "unequal dtypes")
    series_equal(I, l, r, rest)
    return None


L.EXTS["pandas.testing.assert_series_equal"] = _pd_series_equal


def assert_frame_equal(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    l, r = v["left"], v["right"]
    rest = dict(v.get("kwargs", {}))
    if not (isinstance(l, FrameV) and isinstance(r, FrameV)):
        return MISSING
    if set(l.cols) != set(r.cols):
        I.raise_("AssertionError", "unequal columns")
    for c in sorted(l.cols, key=repr):
        series_equal(I, l.cols[c], r.cols[c], rest)
    return None


# ---- standardized

def _std(I, idx):
    if not isinstance(idx, Idx):
        I.raise_("AssertionError", "no DatetimeIndex")
    if idx.freq is None:
        I.raise_("AssertionError", "no frequency")
    if isinstance(idx.freq, Offset):
        from .values import ALLOWED_OFFSETS

        if idx.freq not in ALLOWED_OFFSETS:
            I.raise_("ValueError", "not an allowed frequency")
    if I.ts_empty(idx.ts):
        I.raise_("AssertionError", "empty index")
    ts = I.ts_norm(idx.ts)
    if any(g.startswith("(") or g.startswith("raw") or g.startswith("cat") for g in ts):
        if not I.truth(BoolV(("standardized", frozenset(ts)))):
            I.raise_("AssertionError", "not standardized")
    return None


def assert_frame_standardized(I, f, args, kwargs):
    fr = bound(I, f, args, kwargs)["fr"]
    if isinstance(fr, (SeriesV, FrameV)):
        return _std(I, fr.idx)
    return MISSING


def assert_index_standardized(I, f, args, kwargs):
    i = next(iter(bound(I, f, args, kwargs).values()))
    if isinstance(i, Idx):
        return _std(I, i)
    return MISSING


# ---- peak, hedge

def tseries2poframe(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    I.event("call", fn=f.id, vals=v)
    s, pk, freq, summ = v["s"], v["peak_fn"], v["freq"], v["is_summable"]
    if not isinstance(s, SeriesV) or not isinstance(summ, bool):
        return I.top("tseries2poframe")
    fr = _freqarg(freq)
    new = s.idx.copy(ts={f"po({P.tsname(I, s.idx)} -> {fname(fr)})"}, freq=fr)

    def part(pred):
        g = lambda e: E.linear_op(e, lambda k: E.atom(f"S[{fname(fr)}|{pred}]({k})"))
        if summ:
            return g(s.expr)
        d = dur_atom(s.idx.freq)
        return E.div(g(E.mul(s.expr, d)), g(d))

    return FrameV({c: SeriesV(part(c), new, s.unit, c) for c in ("peak", "offpeak")}, new)


def hedge(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    I.event("hedge", vals=dict(v))
    w, p, fr = v["w"], v["p"], _freqarg(v["freq"])
    if not (isinstance(w, SeriesV) and isinstance(p, SeriesV)):
        return MISSING
    both = w.idx.copy(ts=I.ts_inter(w.idx.ts, p.idx.ts))
    key = f"{E.key(P.rescale(w, P.base(w.unit)) if w.unit else w.expr)}; {E.key(P.rescale(p, P.base(p.unit)) if p.unit else p.expr)}; {v['how']}; {v['peak_fn']}; {v['freq']}"
    new = both.copy(ts={f"full({P.tsname(I, both)} -> {v['freq']})"})
    return (SeriesV(E.atom(f"hedgew[{key}]"), new, w.unit, "w"), SeriesV(E.atom(f"hedgep[{key}]"), new, p.unit, "p"))


# ---- mapping onto other timestamps

def _mapped(I, fr, to, vals):
    I.event("map", vals=vals)
    if not isinstance(fr, (FrameV, SeriesV)) or not isinstance(fr.idx, Idx):
        return MISSING
    name = f"map[{P.tsname(I, fr.idx)} -> {to}]".replace("(", "<").replace(")", ">")
    new = fr.idx.copy(ts={name}, name=None)

    def one(s):
        return SeriesV(E.rename(s.expr, lambda a: f"at({a} -> {to})"), new, s.unit, s.name, s.kind)

    if isinstance(fr, FrameV):
        return FrameV({c: one(s) for c, s in fr.cols.items()}, new)
    return one(fr)


def map_to_year(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    return _mapped(I, v["source"], f"{v['target_year']!r}, {v['holiday_country']!r}", v)


CONTRACTS = {
    "tools.hedge.hedge": hedge,
    "tools.changeyear.map_frame_to_year": map_to_year,
    "tools.duration.index": duration_index,
    "tools.right.index": right_index,
    "tools.right.stamp": right_stamp,
    "tools.trim.index": trim_index,
    "tools.trim.frame": trim_frame,
    "tools.changefreq.summable": summable,
    "tools.changefreq.averagable": averagable,
    "tools.changefreq.index": changefreq_index,
    "tools.wavg.dataframe": wavg_dataframe,
    "tools.wavg.series": wavg_series,
    "tools.testing.assert_series_equal": assert_series_equal,
    "tools.testing.assert_frame_equal": assert_frame_equal,
    "tools.standardize.assert_frame_standardized": assert_frame_standardized,
    "tools.standardize.assert_index_standardized": assert_index_standardized,
    "tools.peakconvert.tseries2poframe": tseries2poframe,
}


def install(I, without=()):
    for k, h in CONTRACTS.items():
        if k not in without:
            I.contracts[f"{I.pkg.name}.{k}"] = h
    return I
