"""I01: intersection of indices, frames and portfolio objects."""

from __future__ import annotations

import itertools

from . import expr as E
from . import rules_line as RL
from . import rules_ops as RO
from . import rules_state as RS
from . import spec as SP
from .contexts import KINDS, Ctx
from .report import Undecided
from .rules_freq import compare, raised
from .spans import MIDNIGHT, longest, moved, rank, trimmed
from .values import ExcInst, FrameV, Idx, SeriesV, TokV, Top, U, parse_freq

F = parse_freq
NAMES = "XYZ"
FLAGS = ("ignore_freq", "ignore_tz", "ignore_start_of_day")


def scenarios(c, tier):
    """(description, indices, attributes that differ)."""
    Z1, Z2 = c.tz, TokV("tz", "Z2")
    T1, T2 = c.sod, TokV("sod", "T2")
    same = ["15min", "h", "D", "MS", "QS-APR", "YS-JAN"]
    freqs = [("15min", "h"), ("h", "D"), ("D", "MS"), ("h", "MS"), ("MS", "QS-FEB"), ("QS-JAN", "YS-APR"), ("D", "YS-JAN"), ("QS-JAN", "QS-FEB"), ("QS-JAN", "YS-FEB"), ("YS-JAN", "YS-APR")]
    freqs = [p for f in freqs for p in (f, f[::-1])]
    tzs = [(Z1, Z2), (Z1, None), (None, Z1)]
    sods = [(T1, T2), (T2, T1)]

    def mk(fs, zs, ts):
        fs, zs, ts = list(fs), list(zs), list(ts)
        idxs = [c.idx(NAMES[n], freq=F(f), tz=z, sod=t).copy(name=f"name{n}") for n, (f, z, t) in enumerate(zip(fs, zs, ts))]
        diff = {"ignore_freq": len(set(fs)) > 1, "ignore_tz": len(set(zs)) > 1, "ignore_start_of_day": len(set(ts)) > 1}
        d = "; ".join(f"{f}, timezone {z}, start-of-day {t}" for f, z, t in zip(fs, zs, ts))
        return d, idxs, diff

    for f in same:
        for n in (1, 2, 3):
            for z in (Z1, None):
                yield mk([f] * n, [z] * n, [T1] * n)
        for zs in tzs:
            yield mk([f] * 2, zs, [T1] * 2)
            for ts in sods[:1]:
                yield mk([f] * 2, zs, ts)
        for ts in sods:
            yield mk([f] * 2, [Z1] * 2, ts)
        for k in range(3):
            yield mk([f] * 3, [Z1 if n != k else Z2 for n in range(3)], [T1] * 3)
            yield mk([f] * 3, [Z1] * 3, [T1 if n != k else T2 for n in range(3)])
            yield mk([f] * 3, [Z1 if n != k else None for n in range(3)], [T1 if n != k else T2 for n in range(3)])
    for fs in freqs:
        for z in (Z1, None):
            yield mk(fs, [z] * 2, [T1] * 2)
        for zs in tzs:
            yield mk(fs, zs, [T1] * 2)
            yield mk(fs, zs, sods[0])
        for ts in sods:
            yield mk(fs, [Z1] * 2, ts)
    for fs in itertools.permutations(("h", "D", "MS")):
        yield mk(fs, [Z1] * 3, [T1] * 3)
        yield mk(fs, [Z1, Z2, Z1], [T1] * 3)
    for fs in itertools.permutations(("D", "MS", "QS-APR")):
        yield mk(fs, [Z1] * 3, [T1] * 3)
        yield mk(fs, [Z1, Z2, None], [T1, T2, T1])


def expected(I, idxs, diff, flags):
    """Index for each of the inputs, or "error"."""
    if len(idxs) > 1 and any(diff[f] and not flags[f] for f in FLAGS):
        return "error"
    fs = [i.freq for i in idxs]
    if len(idxs) > 1:
        if any(compare(a, b) is None for a in fs for b in fs):
            return None  # e.g. quarters that start in January and in February: nothing is promised
        if diff["ignore_start_of_day"] and any(rank(f) < 3 for f in fs):
            return "error"
    long = longest(*fs)
    parts = []
    for i in idxs:
        ts = trimmed(I, i, long).ts if i.freq != long else i.ts
        parts.append([(a, i.tz, i.sod.name) for a in ts])
    out = []
    for i in idxs:
        ts = set()
        for p in parts:
            for a, z, t in p:
                a = moved(a, "tz", z, i.tz) if z != i.tz else a
                ts.add(moved(a, "sod", t, i.sod.name) if t != i.sod.name else a)
        out.append(i.copy(ts=ts))
    return out


def is_empty(I, ts):
    return I.ts_norm(ts) == frozenset(["~empty"])


def judge_index(I, got, want, name="index"):
    if isinstance(got, Top):
        return Undecided("unknown index")
    if not isinstance(got, Idx):
        return f"{name} is {SP.describe(got)}"
    if is_empty(I, got.ts):
        return None if empty_fact(I) else f"{name} is empty"
    if not I.ts_same(got.ts, want.ts):
        return f"{name} has timestamps {SP.name_ts(I, got.ts)}, should be {SP.name_ts(I, want.ts)}"
    for a in ("freq", "tz", "sod", "name"):
        if getattr(got, a) != getattr(want, a):
            return f"{name} has {a} {getattr(got, a)}, should be {getattr(want, a)}"
    return None


def empty_fact(I):
    return any(isinstance(k, tuple) and k[0] == "nonempty" and not v for k, v in I.trace.facts.items())


def judge_many(I, o, want, one, n):
    I.trace = o.trace
    if want == "error":
        return None if raised(o, "ValueError") else ("returns " + SP.describe(o.value) if o.kind != "raise" else f"raises {o.value.typ.name}") + ", should raise a ValueError"
    if o.kind == "raise":
        if empty_fact(I) and one is not judge_index and one is not judge_frame:
            return None
        return f"raises {o.value.typ.name}{o.value.args[:1]}"
    v = o.value
    if isinstance(v, Top):
        return Undecided("unknown result")
    if not isinstance(v, (list, tuple)) or len(v) != n:
        return f"returns {SP.describe(v)}, should be {n} objects"
    for k, (x, w) in enumerate(zip(v, want)):
        m = one(I, x, w, f"object {k + 1}")
        if m:
            return m
    return None


def judge_frame(I, got, want, name):
    src, idx = want
    if isinstance(got, Top):
        return Undecided("unknown frame")
    if type(got) is not type(src):
        return f"{name} is {SP.describe(got)}"
    if is_empty(I, got.idx.ts):
        return None if empty_fact(I) else f"{name} is empty"
    m = judge_index(I, got.idx, idx.copy(name=got.idx.name), name)
    if m:
        return m
    cols = {None: (got, src)} if isinstance(src, SeriesV) else {c: (got.cols.get(c), src.cols[c]) for c in src.cols}
    if isinstance(src, FrameV) and list(got.cols) != list(src.cols):
        return f"{name} has columns {list(got.cols)}, should be {list(src.cols)}"
    for c, (g, s) in cols.items():
        if E.has_unk(g.expr):
            return Undecided("unknown values")
        if not E.same(g.expr, s.expr):
            return f"{name} has values {g.expr}, should be unchanged"
        if g.unit != s.unit or g.name != s.name:
            return f"{name} has unit or name changed"
    return None


def combos(n):
    for v in itertools.product((False, True), repeat=3):
        yield dict(zip(FLAGS, v))


def I01(rep, I, tier):
    c = Ctx(I)
    rep.group("indices", indices, I, c, tier)
    rep.group("frames", frames, I, c, tier)
    rep.group("objects", objects, I, c, tier)


def indices(rep, I, c, tier):
    plain = I.find("tools.intersect:indices")
    flex = I.find("tools.intersect:indices_flex")
    for n, f in (("indices", plain), ("indices_flex", flex)):
        rep.explore(I, "I01.none", f"{n}() without objects", lambda I: I.call(f, [], {}), lambda o: None if o.kind == "raise" else "does not raise an error")
    for d, idxs, diff in scenarios(c, tier):
        w = expected(I, idxs, diff, dict.fromkeys(FLAGS, False))

        def j(o, w=w):
            I.trace = o.trace
            if w == "error":
                return judge_many(I, o, w, judge_index, len(idxs))
            if o.kind == "raise":
                return f"raises {o.value.typ.name}{o.value.args[:1]}"
            return judge_index(I, o.value, w[0])

        rep.explore(I, "I01.indices", f"indices({d})", lambda I: I.call(plain, [i.copy() for i in idxs], {}), j)
        for flags in combos(3):
            w = expected(I, idxs, diff, flags)
            if w is None:
                continue
            given = {k: v for k, v in flags.items() if v}
            rep.explore(I, "I01.indices_flex", f"indices_flex({d}; {', '.join(given) or 'nothing ignored'})", lambda I: I.call(flex, [i.copy() for i in idxs], dict(given)),
                        lambda o, w=w: judge_many(I, o, w, judge_index, len(idxs)))
        if len(idxs) == 2:
            for k in (0, 1):
                if any(diff.values()):
                    continue

                def empty(I):
                    xs = [i.copy() for i in idxs]
                    xs[k] = xs[k].copy(ts={"~empty"})
                    return I.call(flex, xs, {})

                rep.explore(I, "I01.empty", f"indices_flex({d}), of which one is empty", empty,
                            lambda o: f"raises {o.value.typ.name}" if o.kind == "raise" else None if isinstance(o.value, (tuple, list)) and len(o.value) == 2 and all(isinstance(x, Idx) and x.ts == frozenset(["~empty"]) for x in o.value) else f"returns {SP.describe(o.value)}, should be empty indices")


def few(c):
    """Scenarios in which frames and portfolio objects are intersected."""
    Z1, Z2, T1, T2 = c.tz, TokV("tz", "Z2"), c.sod, TokV("sod", "T2")
    for fs, zs, ts in ((("D", "D"), (Z1, Z1), (T1, T1)), (("h", "h"), (Z1, Z1), (T1, T1)), (("D", "MS"), (Z1, Z1), (T1, T1)), (("MS", "D"), (Z1, Z1), (T1, T1)), (("D", "D"), (Z1, Z2), (T1, T1)), (("D", "D"), (Z1, None), (T1, T1)),
                       (("D", "D"), (Z1, Z1), (T1, T2)), (("D", "MS"), (Z1, Z2), (T1, T2)), (("D", "D"), (Z1, Z2), (T1, T2))):
        idxs = [c.idx(NAMES[n], freq=F(f), tz=z, sod=t) for n, (f, z, t) in enumerate(zip(fs, zs, ts))]
        diff = {"ignore_freq": len(set(fs)) > 1, "ignore_tz": len(set(zs)) > 1, "ignore_start_of_day": len(set(ts)) > 1}
        yield "; ".join(f"{f}, timezone {z}, start-of-day {t}" for f, z, t in zip(fs, zs, ts)), idxs, diff
    X = c.idx("X", freq=F("D"))
    yield "a single one", [X], dict.fromkeys(FLAGS, False)
    yield "three", [c.idx(n, freq=F("D")) for n in NAMES], dict.fromkeys(FLAGS, False)


def frames(rep, I, c, tier):
    targets = [("tools.intersect.frames", I.find("tools.intersect:frames")), ("tools2.intersect.indexable", I.find("tools2.intersect:indexable"))]

    def make(n, i, kind):
        s = lambda col: SeriesV(E.atom(f"{col}{n}"), i, U["w"] if col == "a" else None, col)
        return s("a") if kind == "series" else FrameV({"a": s("a"), "b": s("b")}, i)

    for tn, f in targets:
        for d, idxs, diff in few(c):
            for flags in combos(3):
                given = {k: v for k, v in flags.items() if v}
                w = expected(I, idxs, diff, flags)
                for kinds in (("series", "frame", "series"), ("frame", "series", "frame")):
                    srcs = [make(n, i, k) for n, (i, k) in enumerate(zip(idxs, kinds))]
                    want = w if w == "error" else list(zip(srcs, w))
                    rep.explore(I, "I01.frames", f"{tn}({', '.join(kinds[: len(idxs)])}: {d}; {', '.join(given) or 'nothing ignored'})",
                                lambda I: I.call(f, [make(n, i, k) for n, (i, k) in enumerate(zip(idxs, kinds))], dict(given)), lambda o: judge_many(I, o, want, judge_frame, len(idxs)))


def objects(rep, I, c, tier):
    f = I.find("tools2.intersect:indexable")

    sts = [("flat", k) for k in KINDS] + [("nested", "VOLUME"), ("nested", "COMPLETE"), ("deep", "PRICE"), ("state", RS.FEW[1]), ("frame", None)]
    for d, idxs, diff in few(c):
        if tier == "quick" and len(idxs) == 3:
            continue
        for flags in combos(3):
            given = {k: v for k, v in flags.items() if v}
            w = expected(I, idxs, diff, flags)
            for st, k in sts:
                def make(n, i, st=st, k=k):
                    if st == "state":
                        return RS.make(c, k, i, str(n))
                    if st == "frame":
                        return SeriesV(E.atom(f"s{n}"), i, None, "s")
                    return RL.make(c, st, k, f"abc"[n], i)

                def check(o):
                    m = judge_many(I, o, w, lambda I, g, x, n: judge_one(I, c, st, k, g, x, n, idxs), len(idxs))
                    return m

                if tier == "quick" and any(v and not diff[x] for x, v in flags.items()) and st in ("nested", "deep", "state"):
                    continue
                rep.explore(I, "I01.objects", f"indexable({st} {'' if st in ('state', 'frame') else k.lower()}: {d}; {', '.join(given) or 'nothing ignored'})",
                            lambda I: I.call(f, [make(n, i) for n, i in enumerate(idxs)], dict(given)), check)


def judge_one(I, c, st, k, got, idx, name, idxs):
    n = int(name.split()[-1]) - 1
    if isinstance(got, Top):
        return Undecided("unknown object")
    if empty_fact(I):
        return None
    if st == "frame":
        return judge_frame(I, got, (SeriesV(E.atom(f"s{n}"), idxs[n], None, "s"), idx), name)
    if st == "state":
        spec = RS.spec(c, k, idxs[n], str(n))
        return RS.cmp_state(I, got, RS.ST(*(SP_at(x, idx) for x in (spec.o, spec.u, spec.s))))
    return RS.cmp_line(I, got, SP_at(RO.spec_line(c, st, k, "abc"[n], idxs[n]), idx), name)


def SP_at(s, idx):
    """The same values on other timestamps."""
    ch = None if s.children is None else {k: SP_at(x, idx) for k, x in s.children.items()}
    return SP.SL(s.kind, frozenset(idx.ts), idx, s.v, ch)
