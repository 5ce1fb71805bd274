"""K01: concatenation of lines and states."""

from __future__ import annotations

import itertools

from . import expr as E
from . import lib as L
from . import rules_line as RL
from . import rules_ops as RO
from . import rules_state as RS
from . import spec as SP
from .contexts import KINDS, Ctx
from .report import Undecided
from .values import TokV, Top, parse_freq

F = parse_freq
TIME = {"X": 0, "Y": 1, "Z": 2, "G": 4, "V": 0.5}  # positions on the time axis: X, Y, Z are consecutive; G is after a gap; V overlaps with X and Y


def cat(I, parts):
    """Spec lines one after the other."""
    first = parts[0]
    ch = None
    if first.nested:
        ch = {k: cat(I, [p.children[k] for p in parts]) for k in first.children}
    v = {}
    for c in first.v:
        e = parts[-1].v[c]
        if not all(E.same(p.v[c], e) for p in parts):
            for p in reversed(parts[:-1]):
                e = L.inside(I, p.idx.copy(ts=p.ts), p.v[c], e)
        v[c] = e
    ts = frozenset(["+".join(next(iter(p.ts)) for p in parts)])
    return SP.SL(first.kind, ts, first.idx.copy(ts=ts), v, ch)


def order_children(spec, names):
    return SP.SL(spec.kind, spec.ts, spec.idx, spec.v, {k: spec.children[k] for k in names})


def targets(I, what):
    yield "concat", I.find("tools2.concat:general")
    yield f"concat_{what}", I.find(f"tools2.concat:concat_{what}")


def judge(I, want):
    def f(o):
        I.trace = o.trace
        if want == "error":
            return None if o.kind == "raise" else f"returns {SP.describe(o.value)}, should raise an error"
        if o.kind == "raise":
            return f"raises {o.value.typ.name}{o.value.args[:1]}"
        if isinstance(o.value, Top):
            return Undecided("unknown result")
        if o.value is None:
            return "returns nothing"
        if isinstance(want, RS.ST):
            return RS.cmp_state(I, o.value, want)
        return RS.cmp_line(I, o.value, want, "result")

    return f


def lines(rep, I, c, tier):
    for st in ("flat", "nested", "deep"):
        for k in KINDS:
            for n in (2, 3):
                if n == 3 and tier == "quick" and not (st == "flat" or k == "COMPLETE" and st == "nested"):
                    continue
                idxs = [c.idx(x) for x in "XYZ"[:n]]
                want = cat(I, [RO.spec_line(c, st, k, f"l{i}", x) for i, x in enumerate(idxs)])
                for perm in itertools.permutations(range(n)):
                    for name, f in targets(I, "pflines"):
                        if name != "concat" and (st == "deep" or perm != tuple(range(n))) and tier == "quick":
                            continue

                        def run(I):
                            ls = [RL.make(c, st, k, f"l{i}", x) for i, x in enumerate(idxs)]
                            return I.call(f, [[ls[i] for i in perm]], {})

                        rep.explore(I, "K01.lines", f"{name} of {n} {st} {k.lower()} lines in order {' '.join('XYZ'[i] for i in perm)}", run, judge(I, want))
    # children in another order
    X, Y = c.idx("X"), c.idx("Y")
    for k in KINDS:
        for perm in ((0, 1), (1, 0)):
            def run(I):
                a, b = c.nested(k, "l0", X, ["A", "B"]), c.nested(k, "l1", Y, ["B", "A"])
                return I.call(I.find("tools2.concat:general"), [[(a, b)[i] for i in perm]], {})

            want = cat(I, [SP.nested(c, k, "l0", X, ["A", "B"]), SP.nested(c, k, "l1", Y, ["A", "B"])])
            rep.explore(I, "K01.children", f"concat of {k.lower()} lines with children A, B and B, A; order {' '.join('XY'[i] for i in perm)}", run, judge(I, want))


def wrong(c):
    """(description, changed index of the second line)."""
    yield "timezones Z and Z2", dict(tz=TokV("tz", "Z2")), {}
    Z = TokV("tz", "Z")
    yield "timezones Z and None", dict(tz=None), dict(tz=Z)
    yield "timezones None and Z", dict(tz=Z), dict(tz=None)
    yield "start-of-days", dict(sod=TokV("sod", "T2")), {}
    for f, g in (("D", "h"), ("MS", "D"), ("QS-JAN", "QS-APR"), ("QS-JAN", "QS-FEB"), ("YS-JAN", "YS-APR"), ("h", "15min"), ("QS-JAN", "MS")):
        yield f"frequencies {f} and {g}", dict(freq=F(g)), dict(freq=F(f))
        yield f"frequencies {g} and {f}", dict(freq=F(f)), dict(freq=F(g))
    for f in ("h", "D", "YS-JAN"):
        yield f"start-of-days (frequency {f})", dict(sod=TokV("sod", "T2"), freq=F(f)), dict(freq=F(f))
        yield f"timezones (frequency {f})", dict(tz=TokV("tz", "Z2"), freq=F(f)), dict(freq=F(f))


def mismatches(rep, I, c, tier):
    general = I.find("tools2.concat:general")

    def must(what, mk, rule="K01.mismatch"):
        for rev in (False, True):
            def run(I):
                xs = mk()
                return I.call(general, [xs[::-1] if rev else xs], {})

            rep.explore(I, rule, f"concat of {what}{' (reversed)' if rev else ''}", run, judge(I, "error"))

    X, Y, Z, G, V = (c.idx(n) for n in "XYZGV")
    for d, b, a in wrong(c):
        for st in ("flat", "nested"):
            for k in KINDS:
                must(f"{st} {k.lower()} lines with distinct {d}", lambda: [RL.make(c, st, k, "a", c.idx("X", **a)), RL.make(c, st, k, "b", c.idx("Y", **b))])
                if st == "flat":
                    must(f"three {k.lower()} lines, one with distinct {d}", lambda: [RL.make(c, st, k, "a", c.idx("X", **a)), RL.make(c, st, k, "b", c.idx("Y", **a)), RL.make(c, st, k, "b", c.idx("Z", **b))])
        must(f"states with distinct {d}", lambda: [RS.make(c, RS.FEW[0], c.idx("X", **a), "a"), RS.make(c, RS.FEW[0], c.idx("Y", **b), "b")])
    for k1 in KINDS:
        for k2 in KINDS:
            for s1, s2 in itertools.product(("flat", "nested", "deep"), repeat=2):
                if s1 == s2 and k1 == k2 or tier == "quick" and "deep" in (s1, s2) and k1 != k2:
                    continue
                must(f"{s1} {k1.lower()} and {s2} {k2.lower()} line", lambda: [RL.make(c, s1, k1, "a", X), RL.make(c, s2, k2, "b", Y)])
                if (s1, s2) == ("flat", "flat"):
                    must(f"two {k1.lower()} and one {k2.lower()} line", lambda: [RL.make(c, s1, k1, "a", X), RL.make(c, s2, k1, "b", Y), RL.make(c, s2, k2, "b", Z)])
    for k in KINDS:
        for n1, n2 in ((["A", "B"], ["A"]), (["A", "B"], ["A", "C"]), (["A", "B"], ["A", "B", "C"]), (["A", "B"], ["C", "D"])):
            must(f"{k.lower()} lines with children {n1} and {n2}", lambda: [c.nested(k, "a", X, n1), c.nested(k, "b", Y, n2)])
            must(f"{k.lower()} lines with children {n1}, {n1} and {n2}", lambda: [c.nested(k, "a", X, n1), c.nested(k, "b", Y, n1), c.nested(k, "d", Z, n2)])
        for st in ("flat", "nested"):
            m = lambda n, i: RL.make(c, st, k, n, i)
            must(f"single {st} {k.lower()} line", lambda: [m("a", X)], "K01.number")
            must(f"{st} {k.lower()} lines with gap", lambda: [m("a", X), m("b", Z)], "K01.gapless")
            must(f"{st} {k.lower()} lines with gap at the end", lambda: [m("a", X), m("b", Y), m("d", G)], "K01.gapless")
            must(f"{st} {k.lower()} line and itself", lambda: [m("a", X), m("a", X)], "K01.gapless")
            must(f"overlapping {st} {k.lower()} lines", lambda: [m("a", X), m("b", V)], "K01.gapless")
            must(f"overlapping {st} {k.lower()} lines, of three", lambda: [m("a", X), m("b", V), m("d", Y)], "K01.gapless")
            must(f"{st} {k.lower()} line and state", lambda: [m("a", X), RS.make(c, RS.FEW[0], Y)], "K01.mixed")
        must("nothing", lambda: [], "K01.number")
    for co in RS.FEW:
        must(RS.nm(co), lambda: [RS.make(c, co, X)], "K01.number")
        must(f"{RS.nm(co)}, with gap", lambda: [RS.make(c, co, X, "a"), RS.make(c, co, Z, "b")], "K01.gapless")
        must(f"{RS.nm(co)}, with overlap", lambda: [RS.make(c, co, X, "a"), RS.make(c, co, V, "b")], "K01.gapless")
    for other in (1.0, None, "text"):
        must(f"line and {other!r}", lambda: [RL.make(c, "flat", "PRICE", "a", X), other], "K01.mixed")
        must(f"state and {other!r}", lambda: [RS.make(c, RS.FEW[0], X), other], "K01.mixed")


def states(rep, I, c, tier):
    for co in RS.combos(tier):
        for n in (2, 3):
            if n == 3 and co != RS.FEW[1] and tier == "quick":
                continue
            idxs = [c.idx(x) for x in "XYZ"[:n]]
            sp = [RS.spec(c, co, x, str(i)) for i, x in enumerate(idxs)]
            want = RS.ST(*(cat(I, [getattr(s, p) for s in sp]) for p in "ous"))
            for perm in itertools.permutations(range(n)):
                for name, f in targets(I, "pfstates"):
                    def run(I):
                        xs = [RS.make(c, co, x, str(i)) for i, x in enumerate(idxs)]
                        return I.call(f, [[xs[i] for i in perm]], {})

                    rep.explore(I, "K01.states", f"{name} of {n} {RS.nm(co)} in order {' '.join('XYZ'[i] for i in perm)}", run, judge(I, want))


def K01(rep, I, tier):
    c = Ctx(I)

    def timed(fn):
        def run(rep):
            I.timeline = TIME
            try:
                fn(rep, I, c, tier)
            finally:
                I.timeline = {}

        return run

    rep.group("lines", timed(lines))
    rep.group("states", timed(states))
    rep.group("mismatch", timed(mismatches))
