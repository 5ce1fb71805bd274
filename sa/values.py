"""Abstract values of the interpreter."""

from __future__ import annotations

import re
from fractions import Fraction

from . import expr as E


class Top:
    """Unknown value."""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"Top({self.why})"


class Ext:
    """Something from outside of the package, identified by its dotted path."""

    _cache: dict = {}

    def __new__(cls, path):
        if path not in cls._cache:
            o = object.__new__(cls)
            o.path = path
            cls._cache[path] = o
        return cls._cache[path]

    def __repr__(self):
        return f"Ext({self.path})"


class ModuleVal:
    def __init__(self, name, package):
        self.name, self.ns, self.package = name, {}, package
        self.state = 0  # 0 new, 1 running, 2 done

    def __repr__(self):
        return f"<module {self.name}>"


class PyFunc:
    def __init__(self, node, env, module, qual, cls=None):
        self.node, self.env, self.module, self.qual, self.cls = node, env, module, qual, cls
        self.defaults, self.kw_defaults = [], {}
        self.attrs = {}
        self.is_gen = False

    def __repr__(self):
        return f"<fn {self.module.name}.{self.qual}>"

    @property
    def id(self):
        return f"{self.module.name}.{self.qual}"


class Native:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f"<bound {self.func} of {type(self.self).__name__}>"


class Property:
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class PyClass:
    def __init__(self, name, bases, ns, module, node):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.mro = c3(self)
        self.is_enum = any(isinstance(b, Ext) and b.path.startswith("enum.") for b in self.mro)
        self.members = []
        self.dataclass = None  # dict(frozen=..)
        self.is_exc = any(isinstance(b, ExcType) for b in self.mro)

    def __repr__(self):
        return f"<class {self.module.name}.{self.name}>"

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, PyClass) and name in c.ns:
                return c.ns[name], c
        return None, None

    def has_ext(self, path):
        return any(isinstance(b, Ext) and b.path == path for b in self.mro)

    def subclass_of(self, other):
        return other in self.mro


def c3(cls):
    def mro_of(b):
        return list(b.mro) if isinstance(b, PyClass) else [b]

    seqs = [mro_of(b) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            cand = seqs[0][0]  # inconsistent: fall back
        out.append(cand)
        for s in seqs:
            while cand in s:
                s.remove(cand)


class Instance:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return f"<{self.cls.name} instance>"


class EnumMember(Instance):
    def __init__(self, cls, name, value):
        super().__init__(cls)
        self.name, self.value = name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


# ---- exceptions

import builtins as _b


class ExcType:
    _cache: dict = {}

    def __new__(cls, name, bases=()):
        if name not in cls._cache:
            o = object.__new__(cls)
            o.name, o.bases = name, tuple(bases)
            cls._cache[name] = o
        return cls._cache[name]

    def __repr__(self):
        return f"<exc {self.name}>"

    def is_sub(self, other):
        if self is other:
            return True
        return any(b.is_sub(other) for b in self.bases)


def builtin_exc(name):
    t = getattr(_b, name, None)
    if isinstance(t, type) and issubclass(t, BaseException):
        if name in ExcType._cache:
            return ExcType._cache[name]
        bases = [builtin_exc(b.__name__) for b in t.__bases__ if issubclass(b, BaseException)]
        return ExcType(name, bases)
    return None


for _n in dir(_b):
    builtin_exc(_n)
ExcType("pint.errors.PintError", [builtin_exc("Exception")])
ExcType("pint.UndefinedUnitError", [builtin_exc("AttributeError"), ExcType("pint.errors.PintError")])
ExcType("pint.DimensionalityError", [ExcType("pint.errors.PintError"), builtin_exc("TypeError")])
ExcType("pytz.AmbiguousTimeError", [builtin_exc("Exception")])
ExcType("pytz.NonExistentTimeError", [builtin_exc("Exception")])
ExcType("FrozenInstanceError", [builtin_exc("AttributeError")])


class ExcInst:
    def __init__(self, typ, args=(), site=None, by_lib=False):
        self.typ, self.args, self.site, self.by_lib = typ, tuple(args), site, by_lib
        self.attrs = {}

    def __repr__(self):
        return f"{self.typ.name}{self.args!r}"


class AbsRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


# ---- units

BASEDIMS = {
    "h": {"time": 1},
    "MWh": {"energy": 1},
    "Eur": {"currency": 1},
    "degC": {"temperature": 1},
    "tCO2": {"emissions": 1},
}
UNITS = {  # name -> (dims, scale in standard units)
    "MW": ({"energy": 1, "time": -1}, Fraction(1)),
    "megawatt": ({"energy": 1, "time": -1}, Fraction(1)),
    "kW": ({"energy": 1, "time": -1}, Fraction(1, 1000)),
    "GW": ({"energy": 1, "time": -1}, Fraction(1000)),
    "W": ({"energy": 1, "time": -1}, Fraction(1, 10**6)),
    "MWh": ({"energy": 1}, Fraction(1)),
    "megawatthour": ({"energy": 1}, Fraction(1)),
    "kWh": ({"energy": 1}, Fraction(1, 1000)),
    "GWh": ({"energy": 1}, Fraction(1000)),
    "Wh": ({"energy": 1}, Fraction(1, 10**6)),
    "h": ({"time": 1}, Fraction(1)),
    "hr": ({"time": 1}, Fraction(1)),
    "hour": ({"time": 1}, Fraction(1)),
    "min": ({"time": 1}, Fraction(1, 60)),
    "minute": ({"time": 1}, Fraction(1, 60)),
    "s": ({"time": 1}, Fraction(1, 3600)),
    "sec": ({"time": 1}, Fraction(1, 3600)),
    "second": ({"time": 1}, Fraction(1, 3600)),
    "Eur": ({"currency": 1}, Fraction(1)),
    "€": ({"currency": 1}, Fraction(1)),
    "euro": ({"currency": 1}, Fraction(1)),
    "eurocent": ({"currency": 1}, Fraction(1, 100)),
    "ct": ({"currency": 1}, Fraction(1, 100)),
    "euro_per_MWh": ({"currency": 1, "energy": -1}, Fraction(1)),
    "cent_per_kWh": ({"currency": 1, "energy": -1}, Fraction(10)),
    "degC": ({"temperature": 1}, Fraction(1)),
    "dimensionless": ({}, Fraction(1)),
    "fraction": ({}, Fraction(1)),
    "": ({}, Fraction(1)),
}


class UnitV:
    __slots__ = ("dims", "scale")

    def __init__(self, dims, scale=Fraction(1)):
        self.dims = tuple(sorted((d, e) for d, e in dict(dims).items() if e))
        self.scale = Fraction(scale)

    def __repr__(self):
        for n, (d, s) in UNITS.items():
            if tuple(sorted(d.items())) == self.dims and s == self.scale and n:
                return n
        return "unit[" + "*".join(f"{d}^{e}" for d, e in self.dims) + f"@{self.scale}]"

    def __eq__(self, o):
        return isinstance(o, UnitV) and self.dims == o.dims and self.scale == o.scale

    def __hash__(self):
        return hash((self.dims, self.scale))

    def mul(self, o, sign=1):
        d = dict(self.dims)
        for k, e in o.dims:
            d[k] = d.get(k, 0) + sign * e
        return UnitV(d, self.scale * (o.scale if sign > 0 else 1 / o.scale))


NODIM = UnitV({})
U = {
    "w": UnitV(UNITS["MW"][0]),
    "q": UnitV(UNITS["MWh"][0]),
    "p": UnitV(UNITS["euro_per_MWh"][0]),
    "r": UnitV(UNITS["Eur"][0]),
    "duration": UnitV(UNITS["h"][0]),
    "nodim": NODIM,
    "t": UnitV(UNITS["degC"][0]),
}


def parse_unit(s):
    """UnitV for a unit expression; None if unknown."""
    s = s.strip()
    m = re.fullmatch(r"unit\[(.*)@(.*)\]", s)
    if m:
        dims = {}
        for part in filter(None, m.group(1).split("*")):
            d, e = part.split("^")
            dims[d] = int(e)
        return UnitV(dims, Fraction(m.group(2)))
    out = NODIM
    for i, tok in enumerate(re.split(r"\s*([*/])\s*", s)):
        if i % 2 == 1:
            op = tok
            continue
        mm = re.fullmatch(r"([^\^*]*?)(?:(?:\^|\*\*)(-?\d+))?", tok)
        if not mm or mm.group(1) not in UNITS:
            return None
        d, sc = UNITS[mm.group(1)]
        u = UnitV(d, sc)
        for _ in range(abs(int(mm.group(2) or 1))):
            sign = 1 if int(mm.group(2) or 1) > 0 else -1
            if i and op == "/":
                sign = -sign
            out = out.mul(u, sign)
    return out


# ---- frequencies

ANCH = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]


class Offset:
    """Concrete pandas frequency."""

    __slots__ = ("cls", "n", "month")

    def __init__(self, cls, n=1, month=None):
        self.cls, self.n, self.month = cls, n, month

    def __eq__(self, o):
        return isinstance(o, Offset) and (self.cls, self.n, self.month) == (o.cls, o.n, o.month)

    def __hash__(self):
        return hash((self.cls, self.n, self.month))

    @property
    def str(self):
        base = {"QuarterBegin": "QS", "YearBegin": "YS", "MonthBegin": "MS", "Day": "D", "Hour": "h", "Minute": "min", "Week": "W", "Second": "s", "MonthEnd": "ME", "BusinessDay": "B", "QuarterEnd": "QE", "YearEnd": "YE", "SemiMonthBegin": "SMS"}[self.cls]
        anchor = f"-{ANCH[self.month - 1]}" if self.month else ""
        return (str(self.n) if self.n != 1 else "") + base + anchor

    def __repr__(self):
        return f"<{self.str}>"


def parse_freq(s):
    """Offset for a frequency string; None if it is not a valid one."""
    m = re.fullmatch(r"(-?\d*)([A-Za-z]+)(?:-([A-Z]{3}))?", s)
    if not m:
        return None
    n = int(m.group(1)) if m.group(1) else 1
    base = m.group(2)
    table = {"h": "Hour", "H": "Hour", "D": "Day", "MS": "MonthBegin", "min": "Minute", "T": "Minute", "W": "Week", "s": "Second", "S": "Second", "ME": "MonthEnd", "M": "MonthEnd", "B": "BusinessDay", "SMS": "SemiMonthBegin"}
    if base in table:
        if m.group(3) and base != "W":
            return None
        return Offset(table[base], n)
    if base in ("QS", "YS", "AS"):
        month = ANCH.index(m.group(3)) + 1 if m.group(3) in ANCH else (1 if not m.group(3) else None)
        if month is None:
            return None
        return Offset("QuarterBegin" if base == "QS" else "YearBegin", n, month)
    if base in ("QE", "Q", "YE", "Y", "A"):
        return Offset("QuarterEnd" if base[0] == "Q" else "YearEnd", n, 12)
    return None


ALLOWED = (
    ["15min", "h", "D", "MS"]
    + [f"QS-{a}" for a in ANCH]
    + [f"YS-{a}" for a in ANCH]
)
ALLOWED_OFFSETS = [parse_freq(s) for s in ALLOWED]


class FreqV:
    """Symbolic allowed frequency; candidates are kept by the interpreter (per trace)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"freq:{self.name}"


class TokV:
    """Opaque value, distinct from every other token (timezone, time-of-day, label, ...)."""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __eq__(self, o):
        return isinstance(o, TokV) and (self.kind, self.name) == (o.kind, o.name)

    def __hash__(self):
        return hash((self.kind, self.name))

    def __repr__(self):
        return f"{self.kind}:{self.name}"


# ---- pandas-like values

class Idx:
    """DatetimeIndex: set of delivery periods (intersection of generators) + attributes."""

    def __init__(self, ts, freq, tz, sod, name=None, stat=None, grain=None):
        self.ts = frozenset(ts) if not isinstance(ts, str) else frozenset([ts])
        self.freq, self.tz, self.sod, self.name = freq, tz, sod, name
        self.stat = stat  # None or note, e.g. "right"
        self.grain = freq if freq is not None else grain  # length of the periods, also if attribute freq is lost

    def copy(self, **kw):
        d = dict(ts=self.ts, freq=self.freq, tz=self.tz, sod=self.sod, name=self.name, stat=self.stat, grain=self.grain)
        d.update(kw)
        return Idx(**d)

    def __repr__(self):
        return f"Idx({'&'.join(sorted(self.ts))}; {self.freq}, {self.tz}, {self.sod})"


class TSet:
    """set / sorted list / ... of the timestamps of an index."""

    def __init__(self, idx, kind="set"):
        self.idx, self.kind = idx, kind

    def __repr__(self):
        return f"TSet({self.idx})"


class StampV:
    """A single timestamp: first/last/… of an index."""

    def __init__(self, which, idx, tz="same"):
        self.which, self.idx = which, idx
        self.tz = idx.tz if tz == "same" and idx is not None else tz

    def __repr__(self):
        return f"Stamp({self.which} of {self.idx})"


class LenV:
    """Number of timestamps of an index."""

    def __init__(self, ts):
        self.ts = ts

    def __repr__(self):
        return f"len({'&'.join(sorted(self.ts))})"


class BoolV:
    """Scalar truth value that depends on the data."""

    def __init__(self, term, neg=False):
        self.term, self.neg = term, neg

    def __repr__(self):
        return f"Bool({'not ' if self.neg else ''}{self.term})"


class Num:
    """Scalar number (unit None: float) or quantity."""

    def __init__(self, expr, unit=None, isint=False):
        self.expr, self.unit, self.isint = expr, unit, isint

    def __repr__(self):
        return f"Num({self.expr} {self.unit or ''})"


class StrV:
    """Unknown string."""

    def __init__(self, desc="", of=None):
        self.desc = desc
        self.of = of  # the timezone or start-of-day that this is the text of

    def __repr__(self):
        return f"StrV({self.desc})"


class SeriesV:
    """Timeseries. kind: 'num' (unit None -> float), 'bool', 'obj'."""

    def __init__(self, expr, idx, unit=None, name=None, kind="num", arr=False):
        self.expr, self.idx, self.unit, self.name, self.kind, self.arr = expr, idx, unit, name, kind, arr

    def __repr__(self):
        return f"Series({self.name}: {self.expr} [{self.unit}] on {self.idx})"


class FrameV:
    """DataFrame with known columns."""

    def __init__(self, cols, idx, gen=None):
        self.cols, self.idx = dict(cols), idx

    def __repr__(self):
        return f"Frame({ {k: v.expr for k, v in self.cols.items()} } on {self.idx})"


class ColsV:
    """Column index (of a frame)."""

    def __init__(self, names):
        self.names = list(names)

    def __repr__(self):
        return f"Cols({self.names})"


# Boolean series expressions: True / False / ("p", name) / ("not", b) / ("and"|"or", a, b) / UNK

def b_not(a):
    if a is True or a is False:
        return not a
    if a is E.UNK:
        return a
    if a[0] == "not":
        return a[1]
    return ("not", a)


def b_bin(op, a, b):
    if op == "and":
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
    else:
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
    if a is E.UNK or b is E.UNK:
        return E.UNK
    if a == b:
        return a
    if a == b_not(b):
        return op == "or"
    return (op, *sorted([a, b], key=repr))


def b_select(b, x, y):
    """Value number: x where b else y."""
    if b is True:
        return x
    if b is False:
        return y
    if b is E.UNK:
        return E.UNK if not E.same(x, y) else x
    if b[0] == "p":
        return E.ite(b[1], x, y)
    if b[0] == "not":
        return b_select(b[1], y, x)
    if b[0] == "and":
        return b_select(b[1], b_select(b[2], x, y), y)
    return b_select(b[1], x, b_select(b[2], x, y))
