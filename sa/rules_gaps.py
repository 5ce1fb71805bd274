"""X01: filling gaps, for each pattern of missing values in short series (values are symbols, the timestamps are known)."""

from __future__ import annotations

import datetime as dt
import itertools
from fractions import Fraction

from . import expr as E
from . import fields as F
from . import lib as L
from . import timelib as T
from .contexts import load
from .interp import MISSING
from .report import Undecided
from .timelib import CStamp
from .values import Num, Top

NAN = float("nan")


def known_array(path, fn):
    old = L.EXTS.get(path)

    def f(I, a, k):
        if getattr(I, "exact", False) and not k and all(isinstance(x, int) for x in a):
            return F.Vec(Num(E.num(x)) for x in fn(*a))
        return old(I, a, k) if old else I.top(path)

    L.EXTS[path] = f


known_array("numpy.linspace", lambda a, b, n=50: [a + Fraction(b - a, max(n - 1, 1)) * x for x in range(n)])
known_array("numpy.arange", lambda *a: [Fraction(x) for x in range(*a)])


def filled(vals, ts, maxgap):
    """Expected values (None: missing)."""
    out = list(vals)
    known = [n for n, v in enumerate(vals) if v is not None]
    for a, b in zip(known, known[1:]):
        if 1 < b - a <= maxgap + 1:
            for n in range(a + 1, b):
                part = Fraction((ts[n] - ts[a]).total_seconds()) / Fraction((ts[b] - ts[a]).total_seconds())
                out[n] = E.add(vals[a], E.mul(E.num(part), E.sub(vals[b], vals[a])))
    return out


def gaps(rep, I, tier):
    J = load(str(I.pkg.root), ("tools.frame.fill_gaps",) + ("",) * 5)
    J.no_year = J.exact = True
    fn = J.find("tools.frame:fill_gaps")
    size = 8 if tier == "quick" else 10
    stamps = {"D": [dt.datetime(2023, 2, 27) + dt.timedelta(days=n) for n in range(size)], "MS": [T.add_months(dt.datetime(2023, 1, 1), n) for n in range(size)]}
    for n in range(1, size + 1):
        for pattern in itertools.product((True, False), repeat=n):
            for freq, all_ in stamps.items():
                if freq == "MS" and n > 5:
                    continue
                for m in (MISSING, 1, 2, 3) if freq == "D" else (MISSING,):
                    one(rep, J, fn, pattern, freq, all_[:n], m)


def one(rep, J, fn, pattern, freq, ts, m):
    vals = [E.atom(f"v{n}") if known else None for n, known in enumerate(pattern)]
    want = filled(vals, ts, 2 if m is MISSING else m)

    def go(J):
        s = F.VecS([NAN if v is None else Num(v) for v in vals], F.VecIdx([CStamp(t) for t in ts], T.parse_freq(freq)))
        return s, J.call(fn, [s], {} if m is MISSING else {"maxgap": m})

    def compare(got, want, what):
        for n, (g, w) in enumerate(zip(got, want)):
            if isinstance(g, Top):
                return Undecided(repr(g))
            if isinstance(g, (int, float)) and g == g:
                g = Num(E.num(Fraction(g)))
            if F.missing(g) or w is None:
                if F.missing(g) != (w is None):
                    return f"value {n} {what} {'missing' if w is not None else 'no longer missing'}"
                continue
            if not isinstance(g, Num) or E.has_unk(g.expr) or E.has_nan(g.expr):
                return Undecided(repr(g))
            if not E.same(g.expr, w):
                return f"value {n} {what} {g.expr}, should be {w}"
        return None

    def j(o):
        if o.kind == "raise":
            return f"raises {o.value.typ.name}{o.value.args[:1]}"
        if isinstance(o.value, Top):
            return Undecided(repr(o.value))
        s, r = o.value
        if isinstance(r, Top):
            return Undecided(repr(r))
        if not isinstance(r, F.VecS) or not isinstance(r.idx, F.VecIdx):
            return f"gives {r!r}"[:150]
        if [x.dt if isinstance(x, CStamp) else x for x in r.idx] != ts or len(r) != len(ts):
            return "has other timestamps"
        return compare(r, want, "of the result is") or compare(s, vals, "of the input is changed:")

    rep.explore(J, "X01.gaps", f"fill gaps of {'default' if m is MISSING else m} rows in {''.join('v' if p else '-' for p in pattern)} (v: known, -: missing; {freq})", go, j)


def X01(rep, I, tier):
    rep.group("gaps", gaps, I, tier)
