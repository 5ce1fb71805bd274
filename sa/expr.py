"""Value numbers: the per-timestamp value of a series, in a normal form.

A value number is one of
* ``Rat``  - a Laurent polynomial with rational coefficients over *atoms* (strings);
* ``Ite``  - a case distinction over an opaque per-timestamp predicate (e.g. "is peak");
* ``NAN``  - undefined (missing) value;
* ``UNK``  - unknown (the analysis lost track; never compared, never reported).

All atoms stand for arbitrary finite, non-zero numbers ("generic timestamp").
"""

from __future__ import annotations

from fractions import Fraction


class Special:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NAN = Special("NaN")
UNK = Special("?")

_POLY: dict[str, "Rat"] = {}  # name of polynomial-atom -> polynomial


class Rat:
    __slots__ = ("t", "_s")

    def __init__(self, terms):
        self.t = {m: c for m, c in terms.items() if c != 0}
        self._s = None

    def __repr__(self):
        if self._s is None:
            parts = []
            for m in sorted(self.t):
                c = self.t[m]
                f = "*".join(a if e == 1 else f"{a}^{e}" for a, e in m)
                if not f:
                    parts.append(str(c))
                elif c == 1:
                    parts.append(f)
                else:
                    parts.append(f"{c}*{f}")
            self._s = " + ".join(parts) or "0"
        return self._s

    def is_zero(self):
        return not self.t

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None


class Ite:
    __slots__ = ("p", "a", "b")

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a, b

    def __repr__(self):
        return f"[{self.p} ? {self.a} : {self.b}]"


def ite(p, a, b):
    a, b = restrict(a, p, True), restrict(b, p, False)
    if same(a, b):
        return a
    return Ite(p, a, b)


def restrict(e, p, val):
    if isinstance(e, Ite):
        if e.p == p:
            return restrict(e.a if val else e.b, p, val)
        a, b = restrict(e.a, p, val), restrict(e.b, p, val)
        return a if same(a, b) else Ite(e.p, a, b)
    return e


def first_pred(e):
    """A predicate on which the expression depends, if any."""
    return e.p if isinstance(e, Ite) else None


def num(c) -> Rat:
    return Rat({(): Fraction(c).limit_denominator(10**12) if isinstance(c, float) else Fraction(c)})


def atom(name: str) -> Rat:
    return Rat({((name, 1),): Fraction(1)})


ZERO, ONE = num(0), num(1)


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def _lift2(f, x, y):
    if x is UNK or y is UNK:
        return UNK
    if isinstance(x, Ite):
        return ite(x.p, _lift2(f, x.a, restrict(y, x.p, True)), _lift2(f, x.b, restrict(y, x.p, False)))
    if isinstance(y, Ite):
        return ite(y.p, _lift2(f, x, y.a), _lift2(f, x, y.b))
    if x is NAN or y is NAN:
        return NAN
    return f(x, y)


def _add(x, y):
    t = dict(x.t)
    for m, c in y.t.items():
        t[m] = t.get(m, 0) + c
    return Rat(t)


def _mul(x, y):
    t = {}
    for m1, c1 in x.t.items():
        for m2, c2 in y.t.items():
            m = _mulmono(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    return Rat(t)


def _div(x, y):
    y = simplify(y)
    if y.is_zero():
        return NAN
    if x.is_zero():
        return ZERO
    if len(y.t) == 1:
        ((m, c),) = y.t.items()
        inv = Rat({tuple((a, -e) for a, e in m): 1 / c})
        return _mul(x, inv)
    # multi-term denominator: scalar multiple?
    if set(x.t) == set(y.t):
        ratios = {x.t[m] / y.t[m] for m in x.t}
        if len(ratios) == 1:
            return num(ratios.pop())
    # factor out monomial content and make monic
    monos = list(y.t)
    common = {}
    for a, _ in set(ae for m in monos for ae in m):
        es = [dict(m).get(a, 0) for m in monos]
        e = min(es)
        if e and all(es):
            common[a] = e
        elif e < 0:
            common[a] = e
    cm = tuple(sorted(common.items()))
    inv_cm = tuple((a, -e) for a, e in cm)
    y2 = Rat({_mulmono(m, inv_cm): c for m, c in y.t.items()})
    lead = y2.t[min(y2.t)]
    y2 = Rat({m: c / lead for m, c in y2.t.items()})
    name = "P{" + repr(y2) + "}"
    _POLY[name] = y2
    inv = Rat({_mulmono(inv_cm, ((name, -1),)): 1 / lead})
    return _mul(x, inv)


def simplify(x):
    """Try to resolve polynomial atoms (positive powers)."""
    if isinstance(x, Rat):
        for m in x.t:
            for a, e in m:
                if a in _POLY and e > 0:
                    break
            else:
                continue
            break
        else:
            return x
        out = ZERO
        for m, c in x.t.items():
            term = Rat({(): c})
            for a, e in m:
                if a in _POLY and e > 0:
                    for _ in range(e):
                        term = _mul(term, _POLY[a])
                else:
                    term = _mul(term, Rat({((a, e),): Fraction(1)}))
            out = _add(out, term)
        return simplify(out)
    return x


def add(x, y):
    return _lift2(_add, x, y)


def mul(x, y):
    return _lift2(_mul, x, y)


def div(x, y):
    return _lift2(_div, x, y)


def neg(x):
    return mul(num(-1), x)


def sub(x, y):
    return add(x, neg(y))


def _is_zero_clear(x: Rat) -> bool:
    for _ in range(50):
        x = simplify(x)
        if x.is_zero():
            return True
        worst = {}
        for m in x.t:
            for a, e in m:
                if a in _POLY and e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            return False
        fac = Rat({tuple(sorted((a, -e) for a, e in worst.items())): Fraction(1)})
        x = _mul(x, fac)
    return False


def same(x, y) -> bool:
    """Definitely the same value number."""
    if x is y:
        return x is not UNK
    if x is UNK or y is UNK:
        return False
    if isinstance(x, Ite):
        return same(x.a, restrict(y, x.p, True)) and same(x.b, restrict(y, x.p, False))
    if isinstance(y, Ite):
        return same(x, y.a) and same(x, y.b)
    if isinstance(x, Special) or isinstance(y, Special):
        return x is y
    return _is_zero_clear(_add(x, _mul(num(-1), y)))


def has_unk(x) -> bool:
    if x is UNK:
        return True
    if isinstance(x, Ite):
        return has_unk(x.a) or has_unk(x.b)
    return False


def has_nan(x) -> bool:
    if x is NAN:
        return True
    if isinstance(x, Ite):
        return has_nan(x.a) or has_nan(x.b)
    return False


def key(x) -> str:
    """Canonical string for use inside of atoms."""
    return repr(simplify(x))


def atoms(x) -> set:
    if isinstance(x, Ite):
        return atoms(x.a) | atoms(x.b)
    if isinstance(x, Rat):
        out = set()
        for m in x.t:
            for a, _ in m:
                out.add(a)
                if a in _POLY:
                    out |= atoms(_POLY[a])
        return out
    return set()


def linear_op(x, make):
    """Apply a linear operator (given on a monomial as atom name -> Rat)."""
    if x is UNK or x is NAN:
        return x
    if isinstance(x, Ite):
        return make_ite(x, make)
    out = ZERO
    for m, c in simplify(x).t.items():
        out = _add(out, _mul(Rat({(): c}), make(repr(Rat({m: Fraction(1)})))))
    return out


def make_ite(x, make):
    """Linear operator on a case distinction: sum over the part with and without P."""

    def walk(e, guards):
        if isinstance(e, Ite):
            return add(walk(e.a, guards + (e.p,)), walk(e.b, guards + ("~" + e.p,)))
        if e is UNK or e is NAN:
            return e
        g = "&".join(sorted(guards))
        return linear_op(e, lambda k: make(f"{k} | {g}"))

    return walk(x, ())


def rename(x, f):
    """Replace every atom ``a`` by the atom ``f(a)`` (predicates too)."""
    if x is UNK or x is NAN:
        return x
    if isinstance(x, Ite):
        return ite(f(x.p), rename(x.a, f), rename(x.b, f))
    out = ZERO
    for m, c in simplify(x).t.items():
        t = num(c)
        for a, e in m:
            b = rename(_POLY[a], f) if a in _POLY else atom(f(a))
            for _ in range(abs(e)):
                t = mul(t, b) if e > 0 else div(t, b)
        out = add(out, t)
    return out


def equation(x, y) -> str:
    """Canonical string of the equation x = y (both without missing values, and nothing is zero)."""
    if isinstance(x, (Ite, Special)) or isinstance(y, (Ite, Special)):
        return " = ".join(sorted([repr(x), repr(y)]))
    d = _add(x, _mul(num(-1), y))
    for _ in range(50):
        d = simplify(d)
        if d.is_zero():
            return "0"
        monos = [dict(m) for m in d.t]
        low = {}
        for a in {a for m in monos for a in m}:
            e = min(m.get(a, 0) for m in monos)
            if e:
                low[a] = e
        if not low:
            break
        d = _mul(d, Rat({tuple(sorted((a, -e) for a, e in low.items())): Fraction(1)}))
    lead = d.t[min(d.t)]
    return repr(Rat({m: c / lead for m, c in d.t.items()})) + " = 0"


def subst(x, d):
    """Replace atoms by value numbers."""
    if x is UNK or x is NAN or not d:
        return x
    if isinstance(x, Ite):
        return ite(x.p, subst(x.a, d), subst(x.b, d))
    out = ZERO
    for m, c in simplify(x).t.items():
        t = num(c)
        for a, e in m:
            b = subst(_POLY[a], d) if a in _POLY else d.get(a, Rat({((a, 1),): Fraction(1)}))
            for _ in range(abs(e)):
                t = mul(t, b) if e > 0 else div(t, b)
        out = add(out, t)
    return out
