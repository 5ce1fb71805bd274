"""Models of the Python builtins and of the outside libraries (numpy, pandas, pint, ...)."""

from __future__ import annotations

import itertools
import math
import operator
from fractions import Fraction

from . import expr as E
from .values import (
    ALLOWED_OFFSETS, AbsRaise, BoolV, BoundMethod, ClassM, ColsV, EnumMember, ExcInst, ExcType, Ext,
    FrameV, FreqV, Idx, Instance, LenV, ModuleVal, Native, NODIM, Num, Offset, Property, PyClass,
    PyFunc, SeriesV, StampV, StaticM, StrV, TokV, Top, TSet, U, UNITS, UnitV, b_bin, b_not, b_select,
    builtin_exc, parse_freq, parse_unit,
)
from .interp import MISSING, Abort, Super

CONST = (bool, int, float, str, bytes, type(None))


class DtypeV:
    def __init__(self, kind, unit=None):
        self.kind, self.unit = kind, unit

    def __repr__(self):
        return f"dtype:{self.kind}" + (f"[{self.unit}]" if self.unit is not None else "")

    def __eq__(self, o):
        return isinstance(o, DtypeV) and (self.kind, self.unit) == (o.kind, o.unit)

    def __hash__(self):
        return hash((self.kind, self.unit))


class DimV:
    def __init__(self, dims):
        self.dims = dims

    def __eq__(self, o):
        return isinstance(o, DimV) and self.dims == o.dims

    def __hash__(self):
        return hash(self.dims)


class Acc:
    """Accessor (loc, iloc, pint) of a series or frame."""

    def __init__(self, kind, o):
        self.kind, self.o = kind, o


class TdS:
    """Time difference (number of seconds)."""

    def __init__(self, expr):
        self.expr = expr

    def __repr__(self):
        return f"Timedelta({self.expr} s)"


class IdxArr:
    """Per-timestamp property of an index (year, month, time, ...)."""

    def __init__(self, idx, what):
        self.idx, self.what = idx, what

    def __repr__(self):
        return f"{self.what}({self.idx})"


class SlotsV:
    """``operator.itemgetter`` etc."""


METHODS = {}
EXTS = {}


def method(typ, *names):
    def deco(fn):
        for n in names:
            METHODS[(typ, n)] = fn
        return fn

    return deco


def ext(*paths):
    def deco(fn):
        for p in paths:
            EXTS[p] = fn
        return fn

    return deco


def is_const(v):
    return isinstance(v, CONST) or (isinstance(v, tuple) and all(is_const(x) for x in v))


def describe(o):
    if isinstance(o, Instance):
        return f"'{o.cls.name}' object"
    if isinstance(o, PyClass):
        return f"class '{o.name}'"
    if isinstance(o, ModuleVal):
        return f"module '{o.name}'"
    return repr(type(o).__name__)


# ---------------------------------------------------------------- names

CANON = {
    "pandas._libs.tslibs.offsets.": "pandas.tseries.offsets.",
    "pandas.offsets.": "pandas.tseries.offsets.",
    "collections.abc.": "typing.",
    "pint_pandas.pint_array.": "pint_pandas.",
    "pandas.core.frame.DataFrame": "pandas.DataFrame",
    "pandas.core.series.Series": "pandas.Series",
    "pandas.tseries.frequencies.to_offset": "pandas.to_offset",
    "pandas.tseries.offsets.DateOffset": "pandas.DateOffset",
}
EXC_ALIASES = {
    "pint.UndefinedUnitError": "pint.UndefinedUnitError",
    "pint.errors.UndefinedUnitError": "pint.UndefinedUnitError",
    "pint.DimensionalityError": "pint.DimensionalityError",
    "pint.errors.DimensionalityError": "pint.DimensionalityError",
    "pint.PintError": "pint.errors.PintError",
    "pytz.AmbiguousTimeError": "pytz.AmbiguousTimeError",
    "pytz.NonExistentTimeError": "pytz.NonExistentTimeError",
    "pytz.exceptions.AmbiguousTimeError": "pytz.AmbiguousTimeError",
    "pytz.exceptions.NonExistentTimeError": "pytz.NonExistentTimeError",
    "dataclasses.FrozenInstanceError": "FrozenInstanceError",
}
VALUES = {
    "numpy.nan": float("nan"),
    "numpy.inf": float("inf"),
    "math.nan": float("nan"),
    "math.inf": float("inf"),
    "numpy.NaN": float("nan"),
    "pandas.NaT": None,
    "math.pi": math.pi,
}


def ext_exc(path):
    if path in EXC_ALIASES:
        return ExcType._cache[EXC_ALIASES[path]]
    return None


def canon(path):
    for k, v in CANON.items():
        if path.startswith(k):
            return v + path[len(k):]
    return path


def ext_attr(I, modname, name):
    path = canon(f"{modname}.{name}")
    if (modname, name) in I.ext_attrs:
        return I.ext_attrs[(modname, name)]
    e = ext_exc(path)
    if e is not None:
        return e
    if path in VALUES and path != "pandas.NaT":
        return VALUES[path]
    if modname == "ureg":
        if name in ("Quantity", "Unit", "formatter", "setup_matplotlib", "define", "default_format"):
            return Ext(path)
        u = parse_unit(name)
        if u is not None:
            return u
        return I.top(f"unit {name}")
    if path == "abc.abstractmethod":
        return Native("abstractmethod", _abstractmethod)
    if path == "dataclasses.dataclass":
        return Native("dataclass", _dataclass)
    if path in ("functools.wraps", "functools.update_wrapper"):
        return Native("wraps", lambda I, a, k: Native("wraps()", _wraps(a[0])))
    if path in ("functools.lru_cache", "functools.cache"):
        return Native("cache", _cachedec)
    if path in ("functools.cached_property",):
        return Native("cached_property", lambda I, a, k: Property(a[0], cached=True))
    if path == "typing.overload":
        return Native("overload", lambda I, a, k: a[0])
    if path == "typing.TYPE_CHECKING":
        return False
    if path == "enum.unique":
        return Native("unique", lambda I, a, k: a[0])
    return Ext(path)


def _abstractmethod(I, a, k):
    f = a[0]
    if isinstance(f, Property):
        f.abstract = True
    elif isinstance(f, PyFunc):
        f.attrs["__isabstractmethod__"] = True
    return f


def _wraps(orig):
    def deco(I, a, k):
        f = a[0]
        if isinstance(f, PyFunc):
            f.attrs.setdefault("__wrapped__", orig)
        return f

    return deco


def _cachedec(I, a, k):
    if a and isinstance(a[0], PyFunc):
        return a[0]
    return Native("cache()", lambda I, a, k: a[0])


class FieldSpec:
    def __init__(self, kw):
        self.kw = kw


@ext("dataclasses.field")
def _field(I, a, k):
    return FieldSpec(k)


def _dataclass(I, a, k):
    if a and isinstance(a[0], PyClass):
        return make_dataclass(I, a[0], k)
    return Native("dataclass()", lambda I, a2, k2: make_dataclass(I, a2[0], k))


def make_dataclass(I, cls, opts):
    fields = []
    for c in reversed(cls.mro):
        if isinstance(c, PyClass) and (c is cls or c.dataclass):
            names = c.annots if c is cls else [n for n, *_ in c.dataclass["fields"]]
            for n in names:
                init, default, factory = True, MISSING, None
                if c is cls:
                    if n in c.ns:
                        default = c.ns[n]
                        if isinstance(default, FieldSpec):
                            init = default.kw.get("init", True)
                            factory = default.kw.get("default_factory")
                            default = default.kw.get("default", MISSING)
                            if default is MISSING:
                                c.ns.pop(n)
                            else:
                                c.ns[n] = default
                    spec = (n, init, default, factory)
                else:
                    spec = next(f for f in c.dataclass["fields"] if f[0] == n)
                fields = [f for f in fields if f[0] != n] + [spec] if not any(f[0] == n for f in fields) else [spec if f[0] == n else f for f in fields]
    frozen = opts.get("frozen", False) is True
    cls.dataclass = dict(fields=fields, frozen=frozen, opts=opts)

    def init(I, args, kwargs):
        self_, args, kwargs = args[0], list(args[1:]), dict(kwargs)
        initf = [f for f in fields if f[1]]
        if len(args) > len(initf):
            I.raise_("TypeError", f"{cls.name}.__init__() takes {len(initf)} arguments")
        for (n, *_), v in zip(initf, args):
            if n in kwargs:
                I.raise_("TypeError", f"multiple values for {n}")
            kwargs[n] = v
        for n, ini, default, factory in fields:
            if not ini:
                if default is not MISSING:
                    self_.attrs[n] = default
                continue
            if n in kwargs:
                self_.attrs[n] = kwargs.pop(n)
            elif default is not MISSING:
                self_.attrs[n] = default
            elif factory is not None:
                self_.attrs[n] = I.call(factory, [], {})
            else:
                I.raise_("TypeError", f"{cls.name}.__init__() missing argument '{n}'")
        if kwargs:
            I.raise_("TypeError", f"{cls.name}.__init__() got unexpected argument '{next(iter(kwargs))}'")
        pi, owner = self_.cls.lookup("__post_init__")
        if pi is not None:
            I.call(pi, [self_], {})
        return None

    if opts.get("init", True) is not False and "__init__" not in cls.ns:
        cls.ns["__init__"] = Native(f"{cls.name}.__init__", init)

    if frozen:
        names = {n for n, *_ in fields}

        def frozen_attr(what):
            def fn(I, args, kwargs):
                o, name = args[0], args[1]
                if o.cls is cls or name in names:  # a subclass that is no frozen dataclass itself only protects the fields
                    I.raise_("FrozenInstanceError", f"cannot assign to or delete {name!r}")
                mro = o.cls.mro
                for c in mro[mro.index(cls) + 1 :]:
                    if isinstance(c, PyClass) and what in c.ns:
                        return I.call(c.ns[what], list(args), {})
                if what == "__setattr__":
                    return object_setattr(I, args, {})
                I.mutate(o, f"del attribute {name}")
                if name not in o.attrs:
                    I.raise_("AttributeError", name)
                del o.attrs[name]
                return None

            return Native(f"{cls.name}.{what}", fn)

        for what in ("__setattr__", "__delattr__"):
            cls.ns.setdefault(what, frozen_attr(what))

    if opts.get("eq", True) is not False and "__eq__" not in cls.ns:
        def eq(I, args, kwargs):
            a, b = args
            if not (isinstance(b, Instance) and b.cls is a.cls):
                return Ext("NotImplemented")
            for n, *_ in fields:
                if not I.truth(compare(I, "Eq", a.attrs.get(n), b.attrs.get(n))):
                    return False
            return True

        cls.ns["__eq__"] = Native(f"{cls.name}.__eq__", eq)
    return cls


def object_setattr(I, a, k):
    o, name, v = a
    if isinstance(o, Instance):
        I.mutate(o, f"object.__setattr__ {name}")
        o.attrs[name] = v
    else:
        I.imprecise("object.__setattr__")
    return None


def ext_base_attr(I, o, name):
    """Attribute of instance that comes from an outside base class."""
    if isinstance(o, EnumMember):
        return MISSING
    if o.cls.has_ext("typing.Mapping"):
        def keys():
            return I.iterate(o)

        if name == "keys":
            return Native("keys", lambda I, a, k: keys())
        if name == "values":
            return Native("values", lambda I, a, k: [getitem(I, o, x) for x in keys()])
        if name == "items":
            return Native("items", lambda I, a, k: [(x, getitem(I, o, x)) for x in keys()])
        if name == "get":
            def get(I, a, k):
                try:
                    return getitem(I, o, a[0])
                except AbsRaise as e:
                    if isinstance(e.exc.typ, ExcType) and e.exc.typ.is_sub(builtin_exc("KeyError")):
                        return a[1] if len(a) > 1 else k.get("default")
                    raise
            return Native("get", get)
        if name == "__contains__":
            return Native("__contains__", lambda I, a, k: mapping_contains(I, o, a[0]))
    if o.cls.has_ext("typing.NamedTuple"):
        return I.top("namedtuple")
    return MISSING


def mapping_contains(I, o, key):
    try:
        getitem(I, o, key)
        return True
    except AbsRaise as e:
        if isinstance(e.exc.typ, ExcType) and e.exc.typ.is_sub(builtin_exc("KeyError")):
            return False
        raise


# ---------------------------------------------------------------- builtins

BUILTINS = {
    "None": None,
}
for _n in (
    "int float str bool list dict set tuple frozenset object type bytes complex slice range len sum any all min max sorted "
    "reversed enumerate zip map filter print isinstance issubclass hasattr getattr setattr repr abs round iter next "
    "property classmethod staticmethod callable id hash vars dir super divmod pow open input chr ord format "
    "memoryview bytearray globals locals exec eval delattr ascii bin hex oct"
).split():
    BUILTINS[_n] = Ext(f"builtins.{_n}")
BUILTINS["NotImplemented"] = Ext("NotImplemented")
BUILTINS["Ellipsis"] = Ext("Ellipsis")
BUILTINS["__name__"] = "__name__"


def builtin(name):
    if name in BUILTINS:
        return BUILTINS[name]
    return builtin_exc(name)


# ---------------------------------------------------------------- formatting

def format_value(I, v, spec, conv):
    if isinstance(v, (str, int, float, bool)) and conv in (-1, None):
        try:
            return format(v, spec or "")
        except (ValueError, TypeError):
            return None
    if conv == ord("r") and isinstance(v, (str, int)):
        return repr(v)
    if v is None:
        return "None"
    if isinstance(v, UnitV):
        return repr(v)
    if isinstance(v, Offset):
        return v.str
    if isinstance(v, ColsV) or isinstance(v, (list, tuple, set)):
        return None
    return None


# ---------------------------------------------------------------- numbers

def to_expr(v):
    """Value number of scalar / series (in its own unit)."""
    if isinstance(v, (SeriesV, Num)):
        return v.expr
    if isinstance(v, bool):
        return E.num(int(v))
    if isinstance(v, (int, float)):
        if v != v or v in (float("inf"), float("-inf")):
            return E.NAN
        return E.num(v)
    return E.UNK


def unit_of(v):
    return v.unit if isinstance(v, (SeriesV, Num)) else None


def is_numeric(v):
    return isinstance(v, (int, float, Num)) or (isinstance(v, SeriesV) and v.kind in ("num", "int"))


NUMOPS = {"Add", "Sub", "Mult", "Div", "Pow", "FloorDiv", "Mod"}
PYOPS = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "Mod": operator.mod,
    "Pow": operator.pow, "FloorDiv": operator.floordiv, "BitOr": operator.or_, "BitAnd": operator.and_,
    "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift,
}
DUNDER = {
    "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Mod": "mod", "Pow": "pow", "FloorDiv": "floordiv",
    "BitOr": "or", "BitAnd": "and", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift",
}


def merge_idx(I, a, b, what):
    """Index of the (aligned) result of an operation on two series."""
    if I.ts_same(a.ts, b.ts):
        return a, True
    # pandas aligns on the union of both indices
    I.event("misaligned", what=what, left=repr(a), right=repr(b))
    key = f"union({'&'.join(sorted(I.ts_norm(a.ts)))} | {'&'.join(sorted(I.ts_norm(b.ts)))})"
    return Idx({key}, a.freq if a.freq is b.freq else None, a.tz, a.sod, a.name), False


_IN = {}


def inside(I, idx, e, other=E.NAN):
    """Value number that is only defined at the timestamps of an index."""
    name = f"in:{'&'.join(sorted(I.ts_norm(idx.ts)))}"
    _IN[name] = frozenset(idx.ts)
    return E.ite(name, e, other)


def known_inside(I, e, ts):
    """Resolve what is known about the value at the given timestamps."""
    preds = set()

    def walk(x):
        if isinstance(x, E.Ite):
            if x.p in _IN:
                preds.add(x.p)
            walk(x.a)
            walk(x.b)

    walk(e)
    for p in sorted(preds):
        if I.ts_subset(frozenset(ts), _IN[p]):
            e = E.restrict(e, p, True)
    return e


def num_op(I, op, a, b):
    """Arithmetic on numbers, quantities and series."""
    ua, ub = unit_of(a), unit_of(b)
    ea, eb = to_expr(a), to_expr(b)
    unit = None
    if op in ("Add", "Sub"):
        if ua is not None or ub is not None:
            xa, xb = ua or NODIM, ub or NODIM
            if xa.dims != xb.dims:
                if isinstance(ea, E.Rat) and ea.is_zero() and ua is None:
                    xa = xb
                elif isinstance(eb, E.Rat) and eb.is_zero() and ub is None:
                    xb = xa
                else:
                    I.event("dimension-error", left=repr(ua), right=repr(ub), op=op)
                    I.raise_("pint.DimensionalityError", f"Cannot convert from {ub} to {ua}")
            unit = xa
            if xa.scale != xb.scale:
                eb = E.mul(eb, E.num(xb.scale / xa.scale))
        e = E.add(ea, eb) if op == "Add" else E.sub(ea, eb)
    elif op in ("Mult", "Div"):
        if ua is not None or ub is not None:
            unit = (ua or NODIM).mul(ub or NODIM, 1 if op == "Mult" else -1)
        e = E.mul(ea, eb) if op == "Mult" else E.div(ea, eb)
    elif op == "Pow" and isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
        e = E.ONE
        unit = ua
        if ua is not None:
            unit = NODIM
            for _ in range(b):
                unit = unit.mul(ua)
        for _ in range(b):
            e = E.mul(e, ea)
    else:
        I.imprecise(f"numeric operation {op}")
        e = E.UNK
        unit = ua
    series = [x for x in (a, b) if isinstance(x, SeriesV)]
    if not series:
        isint = isinstance(a, int) and isinstance(b, int) and op != "Div"
        return Num(e, unit, isint)
    if len(series) == 2:
        if a.arr and not b.arr:
            idx, ok = b.idx, True
        elif b.arr and not a.arr:
            idx, ok = a.idx, True
        elif a.arr and b.arr:
            idx, ok = a.idx, True
        else:
            idx, ok = merge_idx(I, a.idx, b.idx, f"{op} of two series")
        if a.arr != b.arr and not I.ts_same(a.idx.ts, b.idx.ts):
            I.imprecise("array of other length")
        if not ok:
            e = inside(I, a.idx, inside(I, b.idx, e)) if e is not E.UNK else e
        name = a.name if a.name == b.name else None
        return SeriesV(e, idx, unit, name, "num", a.arr and b.arr)
    s = series[0]
    return SeriesV(e, s.idx, unit, s.name, "num", s.arr)


def frame_op(I, op, a, b):
    if isinstance(a, FrameV) and isinstance(b, FrameV):
        cols = {}
        idx, ok = merge_idx(I, a.idx, b.idx, f"{op} of two frames")
        for c in list(a.cols) + [c for c in b.cols if c not in a.cols]:
            if c in a.cols and c in b.cols:
                cols[c] = num_op(I, op, a.cols[c], b.cols[c])
                if not ok:
                    cols[c] = SeriesV(cols[c].expr, idx, cols[c].unit, c)
            else:
                s = a.cols.get(c) or b.cols.get(c)
                cols[c] = SeriesV(E.NAN, idx, s.unit, c)
        return FrameV(cols, idx)
    fr, o = (a, b) if isinstance(a, FrameV) else (b, a)
    if isinstance(o, SeriesV) and not o.arr and (have := labels.elements(I, o)) is not None:
        cols = {}
        for c in [*fr.cols, *[c for c in have if c not in fr.cols]]:
            if c in fr.cols and c in have:
                cols[c] = num_op(I, op, fr.cols[c], have[c]) if isinstance(a, FrameV) else num_op(I, op, have[c], fr.cols[c])
                cols[c].name = c
            else:
                cols[c] = SeriesV(E.NAN, fr.idx, None, c)
        return FrameV(cols, fr.idx)
    if isinstance(o, SeriesV) and not o.arr:
        # pandas aligns the index of the series with the *columns* of the frame
        I.event("misaligned", what="frame with series (columns against timestamps)", left=repr(fr.idx), right=repr(o.idx))
        cols = {c: SeriesV(E.NAN, s.idx, s.unit, c) for c, s in fr.cols.items()}
        return FrameV(cols, fr.idx)
    cols = {c: num_op(I, op, s, o) if isinstance(a, FrameV) else num_op(I, op, o, s) for c, s in fr.cols.items()}
    for c, s in cols.items():
        s.name = c
    return FrameV(cols, fr.idx)


def binop(I, op, a, b):
    if isinstance(a, CONST) and isinstance(b, CONST) and op in PYOPS:
        try:
            return PYOPS[op](a, b)
        except ZeroDivisionError:
            I.raise_("ZeroDivisionError")
        except TypeError:
            I.raise_("TypeError", f"unsupported operand {op}")
        except Exception:
            return I.top(f"constant {op}")
    if isinstance(a, Instance) or isinstance(b, Instance):
        return inst_op(I, op, a, b)
    if isinstance(a, Top) or isinstance(b, Top):
        return I.top(f"{op} of unknown ({a.why if isinstance(a, Top) else b.why})")
    if isinstance(a, (StrV, str)) and op in ("Add", "Mod") or isinstance(b, StrV) and op == "Add" and isinstance(a, str):
        return StrV("string")
    if isinstance(a, (list, tuple)) and type(a) is type(b) and op == "Add":
        return a + b
    if isinstance(a, (list, tuple)) and isinstance(b, int) and op == "Mult":
        return a * b
    if isinstance(b, (list, tuple)) and isinstance(a, int) and op == "Mult":
        return a * b
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return set_op(I, {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}.get(op), a, b)
    if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
        return {**a, **b}
    if isinstance(a, TSet) and isinstance(b, TSet) and op == "BitAnd":
        return TSet(a.idx.copy(ts=I.ts_inter(a.idx.ts, b.idx.ts)), "set")
    if op in ("Mult", "Div"):
        # true and false as 1 and 0
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SeriesV) and x.kind == "bool" and x.expr is not E.UNK and (isinstance(y, SeriesV) and y.kind == "num" or isinstance(y, Num)) and (op == "Mult" or x is a):
                n = SeriesV(b_select(x.expr, E.ONE, E.ZERO), x.idx, None, x.name, "num", x.arr)
                return binop(I, op, n, b) if x is a else binop(I, op, a, n)
    if isinstance(a, FrameV) or isinstance(b, FrameV):
        if op in ("BitAnd", "BitOr"):
            r = frame_bool(I, op, a, b)
            return r if r is not None else I.top("boolean frame operation")
        return frame_op(I, op, a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        return bool_op(I, op, a, b)
    if isinstance(a, UnitV) and isinstance(b, UnitV) and op in ("Mult", "Div"):
        return a.mul(b, 1 if op == "Mult" else -1)
    if isinstance(b, UnitV) and is_numeric(a) and op in ("Mult", "Div"):
        n = Num(E.ONE, b)
        return num_op(I, op, a, n)
    if isinstance(a, IdxArr) or isinstance(b, IdxArr):
        idx = a.idx if isinstance(a, IdxArr) else b.idx
        return SeriesV(E.atom(f"<{op} {a!r} {b!r}>"), idx, None, None, "num", True)
    if is_numeric(a) and is_numeric(b):
        return num_op(I, op, a, b)
    if isinstance(a, LenV) or isinstance(b, LenV):
        return I.top(f"{op} on length")
    if isinstance(a, Idx):
        return idx_op(I, op, a, b)
    if isinstance(a, StampV):
        return stamp_op(I, op, a, b)
    if isinstance(a, Ext) and op == "BitOr":
        return (a, b)  # union of types
    if isinstance(a, BoolV) and isinstance(b, (bool, BoolV)) or isinstance(b, BoolV) and isinstance(a, bool):
        return I.top("arithmetic on bool")
    if a is None or b is None:
        I.raise_("TypeError", f"unsupported operand type(s) for {op}: {a!r} and {b!r}")
    return I.top(f"{op} on {type(a).__name__}, {type(b).__name__}")


def inst_op(I, op, a, b):
    d = DUNDER.get(op)
    if d is None:
        return I.top(op)
    lf = a.cls.lookup(f"__{d}__")[0] if isinstance(a, Instance) else None
    rf = b.cls.lookup(f"__r{d}__")[0] if isinstance(b, Instance) else None
    NI = Ext("NotImplemented")
    if lf is not None:
        r = I.call(lf, [a, b], {})
        if r is not NI:
            return r
    if isinstance(a, (SeriesV, FrameV, Idx)):
        # pandas tries to broadcast, calling the operation for every element
        return I.top(f"pandas object {op} instance")
    if rf is not None:
        r = I.call(rf, [b, a], {})
        if r is not NI:
            return r
    if isinstance(a, Top) or isinstance(b, Top):
        return I.top(f"{op} of unknown")
    I.raise_("TypeError", f"unsupported operand type(s) for {op}: {describe(a)} and {describe(b)}")


def bool_op(I, op, a, b):
    def conv(x):
        if isinstance(x, bool):
            return x, None
        if isinstance(x, SeriesV) and x.kind == "bool":
            return x.expr, x
        return None, None

    ea, sa = conv(a)
    eb, sb = conv(b)
    if isinstance(a, BoolV) or isinstance(b, BoolV):
        x = I.truth(a) if not isinstance(a, SeriesV) else None
        y = I.truth(b) if not isinstance(b, SeriesV) else None
        if x is not None and y is not None:
            return (x and y) if op == "BitAnd" else ((x or y) if op == "BitOr" else x != y)
    if sa is None and sb is None or ea is None or eb is None:
        return I.top(f"{op} on {type(a).__name__}, {type(b).__name__}")
    if op == "BitXor":
        e = E.UNK
        I.imprecise("xor of masks")
    else:
        e = b_bin("and" if op == "BitAnd" else "or", ea, eb)
    if sa is not None and sb is not None and not sa.arr and not sb.arr:
        for x, y in ((sa, sb), (sb, sa)):
            m = part_mask(I, y.idx.ts, x.idx.ts)
            if m is not None and m is not True and x.expr is not E.UNK and y.expr is not E.UNK:  # missing rows count as False
                return SeriesV(b_bin("and" if op == "BitAnd" else "or", x.expr, b_bin("and", m, y.expr)), x.idx, None, None, "bool")
        idx, ok = merge_idx(I, sa.idx, sb.idx, "combination of masks")
        if not ok:
            e = E.UNK
            I.imprecise("misaligned masks")
    else:
        # array combined with series: result has the index of the series
        idx = (sb if sa is None or (sa.arr and sb is not None) else sa).idx
        if sa is not None and sb is not None and not I.ts_same(sa.idx.ts, sb.idx.ts):
            I.imprecise("mask of other length")
    arr = all(s is None or s.arr for s in (sa, sb))
    return SeriesV(e, idx, None, None, "bool", arr)


def frame_bool(I, op, a, b):
    """Combination of frames of booleans, or of a frame with one boolean per column."""
    f, o = (a, b) if isinstance(a, FrameV) else (b, a)
    other = o.cols if isinstance(o, FrameV) else o.__dict__.get("vals") if hasattr(o, "__dict__") else None
    if isinstance(o, SeriesV):
        other = labels.elements(I, o)
    if isinstance(o, FrameV) and not I.ts_same(f.idx.ts, o.idx.ts) or other is None or set(other) != set(f.cols):
        return None
    out = {}
    for c, s in f.cols.items():
        x = other[c]
        if isinstance(x, BoolV):
            x = I.truth(x)
        if s.kind != "bool" or not (isinstance(x, bool) or isinstance(x, SeriesV) and x.kind == "bool"):
            return None
        out[c] = bool_op(I, op, s, x)
    return FrameV(out, f.idx)


def set_op(I, name, a, b):
    def has(s, x):
        return any(I.truth(compare(I, "Eq", x, y)) for y in s)

    if name == "union":
        return I.mkset(list(a) + list(b))
    if name == "intersection":
        return {x for x in a if has(b, x)}
    if name == "difference":
        return {x for x in a if not has(b, x)}
    if name == "symmetric_difference":
        return {x for x in a if not has(b, x)} | {x for x in b if not has(a, x)}
    return I.top(f"set {name}")


def idx_op(I, op, i, o):
    if op == "Add" and (isinstance(o, (Offset, FreqV)) or getattr(o, "kind", None) == "delta"):
        return i.copy(ts={f"shift(+{o!r}; {'&'.join(sorted(i.ts))})"}, stat=("shift", i, o))
    if op == "Sub" and (isinstance(o, (Offset, FreqV)) or getattr(o, "kind", None) == "delta"):
        return i.copy(ts={f"shift(-{o!r}; {'&'.join(sorted(i.ts))})"}, stat=None)
    if op == "Sub" and isinstance(o, Idx):
        return SeriesV(E.atom(f"<delta {i!r} - {o!r}>"), i, None, None, "num", True)
    return I.top(f"index {op}")


def stamp_op(I, op, a, b):
    if I.__dict__.get("stamp_terms") and isinstance(a, StampV) and a.idx is not None:
        if op == "Sub" and isinstance(b, StampV) and b.idx is not None:
            return TdS(E.atom(f"time from {b.which} of {'&'.join(sorted(b.idx.ts))} to {a.which} of {'&'.join(sorted(a.idx.ts))}"))
        if op == "Add" and isinstance(b, TdS) and "time from" in str(b.expr):
            return StampV(f"{a.which}, plus the {b.expr},", a.idx)
        if op == "Add" and isinstance(b, FreqV):
            return StampV(f"{a.which}, plus the frequency as a fixed length of time in case of days,", a.idx)
    if op == "Add" and a.which in ("max", "last") and (isinstance(b, (Offset, FreqV)) or isinstance(b, TokV)):
        return I.top("timestamp + offset")
    return I.top(f"timestamp {op}")


def augop(I, op, cur, val):
    if isinstance(cur, Instance):
        d = DUNDER.get(op)
        f, _ = cur.cls.lookup(f"__i{d}__")
        if f is not None:
            return I.call(f, [cur, val], {})
        return binop(I, op, cur, val)
    if isinstance(cur, list) and op == "Add":
        I.mutate(cur, "+=")
        cur.extend(I.iterate(val))
        return cur
    if isinstance(cur, set) and op in ("BitOr", "BitAnd", "Sub"):
        I.mutate(cur, op)
    if isinstance(cur, dict) and op == "BitOr":
        I.mutate(cur, "|=")
        cur.update(val)
        return cur
    if isinstance(cur, SeriesV):
        new = binop(I, op, cur, val)
        if isinstance(new, SeriesV):
            I.mutate(cur, f"augmented assignment ({op})")
            cur.__dict__.update(new.__dict__)
            return cur
        return new
    if isinstance(cur, FrameV):
        new = binop(I, op, cur, val)
        if isinstance(new, FrameV):
            I.mutate(cur, f"augmented assignment ({op})")
            cur.cols, cur.idx = new.cols, new.idx
            return cur
        return new
    return binop(I, op, cur, val)


def unop(I, op, v):
    if isinstance(v, Instance):
        d = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
        f, _ = v.cls.lookup(d)
        if f is None:
            I.raise_("TypeError", f"bad operand type for unary {op}")
        return I.call(f, [v], {})
    if isinstance(v, (bool, int, float)):
        return {"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert}[op](v)
    if op == "USub" and is_numeric(v):
        return num_op(I, "Mult", v, -1)
    if op == "USub" and isinstance(v, FrameV):
        return frame_op(I, "Mult", v, -1)
    if op == "Invert" and isinstance(v, FrameV) and all(s.kind == "bool" for s in v.cols.values()):
        return FrameV({c: SeriesV(b_not(s.expr), v.idx, None, s.name, "bool") for c, s in v.cols.items()}, v.idx)
    if op == "Invert" and type(v).__name__ == "LabelledV" and all(isinstance(x, (bool, BoolV)) for x in v.vals.values()):
        return type(v)({c: BoolV(x.term, not x.neg) if isinstance(x, BoolV) else not x for c, x in v.vals.items()})
    if op == "Invert" and isinstance(v, SeriesV) and v.kind == "bool":
        return SeriesV(b_not(v.expr), v.idx, None, v.name, "bool", v.arr)
    if op == "UAdd":
        return v
    if op == "Invert" and isinstance(v, BoolV):
        return BoolV(v.term, not v.neg)
    if v is None or isinstance(v, (str, list, tuple, dict, set, StrV)):
        I.raise_("TypeError", f"bad operand type for unary {op}")
    return I.top(f"{op} of {type(v).__name__}")


# ---------------------------------------------------------------- comparison

PYCMP = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}
SWAP = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}


def compare(I, op, a, b):
    if op == "Is":
        return identical(I, a, b)
    if op == "IsNot":
        r = identical(I, a, b)
        return not r if isinstance(r, bool) else BoolV(r.term, not r.neg)
    if op in ("In", "NotIn"):
        r = contains(I, b, a)
        if op == "In":
            return r
        return (not r) if isinstance(r, bool) else BoolV(r.term, not r.neg)
    if op == "NotEq":
        if isinstance(a, Instance):
            f, _ = a.cls.lookup("__ne__")
            if f is not None:
                return I.call(f, [a, b], {})
        r = compare(I, "Eq", a, b)
        if isinstance(r, bool):
            return not r
        if isinstance(r, BoolV):
            return BoolV(r.term, not r.neg)
        if isinstance(r, SeriesV):
            return SeriesV(b_not(r.expr), r.idx, None, r.name, "bool", r.arr)
        return r
    if op == "Eq":
        return equal(I, a, b)
    # ordering
    if isinstance(a, CONST) and isinstance(b, CONST):
        try:
            return PYCMP[op](a, b)
        except TypeError:
            I.raise_("TypeError", f"unorderable {a!r} {b!r}")
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        for x, y in zip(a, b):
            if x is y or I.truth(compare(I, "Eq", x, y)):
                continue
            return compare(I, op, x, y)
        return PYCMP[op](len(a), len(b))
    if isinstance(a, LenV) or isinstance(b, LenV):
        return len_cmp(I, op, a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return PYCMP[op](a, b)
    if isinstance(a, Idx) and isinstance(b, (StampV, TokV, Top)):
        return idx_cmp(I, op, a, b)
    if isinstance(b, Idx) and isinstance(a, (StampV, TokV, Top)):
        return idx_cmp(I, SWAP[op], b, a)
    if isinstance(a, Instance):
        d = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        f, _ = a.cls.lookup(d)
        if f is not None:
            return I.call(f, [a, b], {})
    if is_numeric(a) and is_numeric(b):
        v = order(op, to_expr(a), to_expr(b))
        series = [x for x in (a, b) if isinstance(x, SeriesV)]
        if series:
            return SeriesV(v, series[0].idx, None, None, "bool", all(x.arr for x in series))
        if isinstance(v, bool):
            return v
        if v[0] == "p":
            return BoolV(v[1])
        return BoolV(v[1][1], True) if v[0] == "not" and v[1][0] == "p" else BoolV(v)
    if isinstance(a, StampV) and isinstance(b, StampV):
        from .pdlib import coordinate

        if a.which == b.which and a.idx is b.idx:
            return op in ("LtE", "GtE")
        ca, cb = coordinate(I, a), coordinate(I, b)
        if ca is not None and cb is not None:
            return {"Lt": ca < cb, "LtE": ca <= cb, "Gt": ca > cb, "GtE": ca >= cb}[op]
        return BoolV(("stampcmp", op, repr(a), repr(b)))
    if a is None or b is None:
        I.raise_("TypeError", "unorderable types")
    I.imprecise(f"comparison {op}")
    return BoolV(("cmp", op, repr(a), repr(b)))


ABS = {}  # name of the atom -> expression of which it is the absolute value


def order(op, ea, eb):
    """Boolean (per generic timestamp) of a comparison."""
    if isinstance(ea, E.Ite):
        return b_ite(ea.p, order(op, ea.a, E.restrict(eb, ea.p, True)), order(op, ea.b, E.restrict(eb, ea.p, False)))
    if isinstance(eb, E.Ite):
        return b_ite(eb.p, order(op, ea, eb.a), order(op, ea, eb.b))
    if op in ("Gt", "GtE") and isinstance(eb, E.Rat) and eb.const() is None and isinstance(ea, E.Rat) and ea.const() is not None:
        return order(SWAP[op], eb, ea)
    if isinstance(eb, E.Rat) and eb.const() is not None and 0 < eb.const() <= 1e-4 and str(ea) in ABS:
        # |x| < 1e-8: is x (almost) zero
        z = expr_eq(ABS[str(ea)], E.num(0))
        return z if op in ("Lt", "LtE") else b_not(z)
    d = E.sub(ea, eb)
    c = d.const() if isinstance(d, E.Rat) else None
    if c is not None:
        return PYCMP[op](c, 0)
    if d is E.NAN:
        return False
    neg = op in ("GtE", "Gt")
    k = f"{E.key(d)} < 0" if op in ("Lt", "GtE") else f"{E.key(d)} <= 0"
    v = ("p", k)
    return b_not(v) if neg else v


def stamp_key(v):
    if isinstance(v, StampV):
        return f"{v.which}({'&'.join(sorted(v.idx.ts)) if v.idx is not None else ''})"
    return repr(v)


def idx_cmp(I, op, i, s):
    """Mask of an index: compare every timestamp with a timestamp."""
    if isinstance(s, Top):
        I.imprecise("comparison with unknown timestamp")
    k = stamp_key(s)
    t = "ts" if i.stat is None else f"{i.stat[0]}{i.stat[1]!r}(ts)" if i.stat[0] in ("+", "-") else f"{i.stat[0]}(ts)"
    tab = {"Lt": ("p", f"{t}<{k}"), "GtE": ("not", ("p", f"{t}<{k}")), "LtE": ("p", f"{t}<={k}"), "Gt": ("not", ("p", f"{t}<={k}"))}
    if i.stat is not None and i.stat[0].startswith(("floor ", "ceil ")):
        i = i.stat[1]
    elif i.stat is not None and i.stat[0] in ("right", "+", "shift"):
        i = i.stat[-1] if i.stat[0] != "shift" else i.stat[1]  # the outcome is an array, one value for each timestamp
    return SeriesV(tab[op], i, None, None, "bool", True)


def len_cmp(I, op, a, b):
    if isinstance(b, LenV) and not isinstance(a, LenV):
        a, b, op = b, a, SWAP[op]
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, int):
        # a: number of timestamps
        tab = {
            ("Eq", 0): "empty", ("LtE", 0): "empty", ("Lt", 1): "empty",
            ("Gt", 0): "nonempty", ("GtE", 1): "nonempty",
        }
        k = tab.get((op, b))
        if k == "empty":
            return I.ts_empty(a.ts)
        if k == "nonempty":
            return not I.ts_empty(a.ts)
        if (op, b) == ("Lt", 0):
            return False
        if (op, b) == ("GtE", 0):
            return True
        if I.ts_empty(a.ts):
            return PYCMP[op](0, b)
        neg = op in ("GtE", "Gt")
        base = {"Eq": f"=={b}", "Lt": f"<{b}", "GtE": f"<{b}", "LtE": f"<={b}", "Gt": f"<={b}"}[op]
        return BoolV(("len", frozenset(I.ts_norm(a.ts)), base), neg)
    if isinstance(b, LenV):
        ta, tb = I.ts_norm(a.ts), I.ts_norm(b.ts)
        if ta == tb:
            return op in ("Eq", "LtE", "GtE")
        sub_ab, sub_ba = I.ts_subset(ta, tb), I.ts_subset(tb, ta)
        if sub_ab:  # a is smaller or equal
            r = {"LtE": True, "Gt": False}.get(op)
            if r is not None:
                return r
            strict = not _same_extent(I, ta, tb)
            return {"Lt": strict, "Eq": not strict, "GtE": not strict}[op]
        if sub_ba:
            r = {"GtE": True, "Lt": False}.get(op)
            if r is not None:
                return r
            strict = not _same_extent(I, tb, ta)
            return {"Gt": strict, "Eq": not strict, "LtE": not strict}[op]
        return BoolV(("lens", op, ta, tb))
    return I.top("length comparison")


def _same_extent(I, small, large):
    """Decide whether the (sub)set is in fact everything; if so, remember it."""
    r = I.decide(("covers", frozenset(small), frozenset(large)))
    if r:
        I.trace.subsets.add((frozenset(large), frozenset(small)))
    return r


def identical(I, a, b):
    if isinstance(a, Top) or isinstance(b, Top):
        if a is b:
            return True
        if isinstance(a, Top) and b is None or isinstance(b, Top) and a is None:
            t = a if isinstance(a, Top) else b
            I.imprecise(f"is-None test of {t.why}")
            return BoolV(("is None", t.why))
        I.imprecise("identity of unknown")
        return BoolV(("is", repr(a), repr(b)))
    if isinstance(a, CONST) and isinstance(b, CONST):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return type(a) is type(b) and a == b
    if isinstance(a, (Offset, FreqV, TokV, UnitV, DtypeV)) and type(a) is type(b):
        return a is b or (isinstance(a, FreqV) and a.name == b.name) or (not isinstance(a, FreqV) and a == b)
    if isinstance(a, (BoolV,)) and isinstance(b, bool):
        return BoolV(a.term, a.neg if b else not a.neg)
    return a is b


def freq_eq(I, a, b):
    """Equality of frequencies (offset, symbolic frequency, string, None)."""
    if a is None or b is None:
        return a is b
    if isinstance(a, str):
        a = parse_freq(a)
        if a is None:
            return False
    if isinstance(b, str):
        b = parse_freq(b)
        if b is None:
            return False
    if isinstance(a, Offset) and isinstance(b, Offset):
        return a == b
    if isinstance(a, FreqV) and isinstance(b, FreqV):
        if a.name == b.name:
            return True
        ca, cb = I.freq_candidates(a), I.freq_candidates(b)
        if not set(ca) & set(cb):
            return False
        if len(ca) == len(cb) == 1:
            return ca[0] == cb[0]
        k = ("freqeq", *sorted([a.name, b.name]))
        r = I.decide(k)
        return r
    f, o = (a, b) if isinstance(a, FreqV) else (b, a)
    return I.freq_split(f, lambda x: x == o, f"== {o.str}")


def equal(I, a, b):
    if a is b and not isinstance(a, (float, SeriesV, FrameV, Idx, Top)):
        return True
    if isinstance(a, Top) or isinstance(b, Top):
        I.imprecise("equality of unknown")
        return BoolV(("eq", repr(a), repr(b)))
    if isinstance(a, CONST) and isinstance(b, CONST):
        return a == b
    if isinstance(a, (FreqV, Offset)) or isinstance(b, (FreqV, Offset)):
        x, y = (a, b) if isinstance(a, (FreqV, Offset)) else (b, a)
        if isinstance(y, (str, FreqV, Offset, type(None))):
            return freq_eq(I, x, y)
        return False
    if isinstance(a, Instance) or isinstance(b, Instance):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Instance):
                if isinstance(x, EnumMember) and x.cls.lookup("__eq__")[0] is None:
                    return x is y
                f, _ = x.cls.lookup("__eq__")
                if f is not None:
                    r = I.call(f, [x, y], {})
                    if r is not Ext("NotImplemented"):
                        return r
        if isinstance(a, Instance) and isinstance(b, Instance) and a.cls.has_ext("typing.Mapping") and b.cls.has_ext("typing.Mapping"):
            return equal(I, mapping_dict(I, a), mapping_dict(I, b))
        return a is b
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is y:
                continue
            if not I.truth(equal(I, x, y)):
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if set(map(hkey, a)) != set(map(hkey, b)):
            return False
        for k in a:
            if a[k] is b[k]:
                continue
            if not I.truth(equal(I, a[k], b[k])):
                return False
        return True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if any(isinstance(x, (Top, StrV)) for x in [*a, *b]):
            I.imprecise("set of unknown")
            return BoolV(("seteq", repr(a), repr(b)))
        return a == b
    if isinstance(a, LenV) or isinstance(b, LenV):
        return len_cmp(I, "Eq", a, b)
    if isinstance(a, DtypeV) or isinstance(b, DtypeV):
        d, o = (a, b) if isinstance(a, DtypeV) else (b, a)
        return dtype_eq(I, d, o)
    if isinstance(a, SeriesV) or isinstance(b, SeriesV):
        return series_eq(I, a, b)
    if isinstance(a, FrameV) or isinstance(b, FrameV):
        fr, o = (a, b) if isinstance(a, FrameV) else (b, a)
        if isinstance(o, FrameV):
            return I.top("frame == frame")
        return FrameV({c: series_eq(I, s, o) for c, s in fr.cols.items()}, fr.idx)
    if isinstance(a, Idx) and isinstance(b, Idx):
        return I.top("index == index")
    if isinstance(a, IdxArr) or isinstance(b, IdxArr):
        x, o = (a, b) if isinstance(a, IdxArr) else (b, a)
        return SeriesV(("p", f"{x.what}=={o!r}"), x.idx, None, None, "bool", True)
    if isinstance(a, ColsV) or isinstance(b, ColsV):
        return I.top("columns ==")
    if is_numeric(a) and is_numeric(b):
        ua, ub = unit_of(a), unit_of(b)
        ea, eb = to_expr(a), to_expr(b)
        if ea is E.NAN or eb is E.NAN:
            return False
        zero = any(u is None and isinstance(e, E.Rat) and e.is_zero() for u, e in ((ua, ea), (ub, eb)))  # zero has any unit
        if (ua or NODIM).dims != (ub or NODIM).dims and not zero:
            return False
        if ua is not None and ub is not None and ua.scale != ub.scale:
            eb = E.mul(eb, E.num(ub.scale / ua.scale))
        d = E.sub(ea, eb)
        if E.has_unk(d):
            I.imprecise("comparison of unknown numbers")
            return BoolV(("eq?", repr(a), repr(b)))
        if isinstance(d, E.Rat) and d.const() is not None:
            return d.const() == 0
        if E.same(ea, eb):
            return True
        return BoolV(("numeq", E.key(ea), E.key(eb)))
    if isinstance(a, StrV) or isinstance(b, StrV):
        oa, ob = (x.of if isinstance(x, StrV) else None for x in (a, b))
        if oa is not None and ob is not None and oa.kind == ob.kind:
            return tok_eq(oa, ob)
        if oa is not None and b == "None" or ob is not None and a == "None":
            return False
        I.imprecise("comparison of unknown string")
        return BoolV(("streq", repr(a), repr(b)))
    if isinstance(a, TokV) and isinstance(b, TokV):
        return tok_eq(a, b)
    if isinstance(a, (UnitV, DimV)) and type(a) is type(b):
        return a == b
    if isinstance(a, TokV) and a.kind in ("hour", "minute") and isinstance(b, int) or isinstance(b, TokV) and b.kind in ("hour", "minute") and isinstance(a, int):
        return BoolV(("tokeq", *sorted([repr(a), repr(b)])))
    if isinstance(a, UnitV) and isinstance(b, str):
        return a == parse_unit(b)
    if isinstance(a, StampV) and isinstance(b, StampV):
        from .pdlib import coordinate

        if a.which == b.which and I.ts_same(a.idx.ts, b.idx.ts):
            return True
        ca, cb = coordinate(I, a), coordinate(I, b)
        if ca is not None and cb is not None:
            return ca == cb
        return BoolV(("stampeq", *sorted([stamp_key(a), stamp_key(b)])))
    if isinstance(a, BoolV) and isinstance(b, bool):
        return BoolV(a.term, a.neg if b else not a.neg)
    if isinstance(b, BoolV) and isinstance(a, bool):
        return BoolV(b.term, b.neg if a else not b.neg)
    return False


def tok_eq(a, b):
    """Equality of two opaque values; distinct tokens are distinct values."""
    if a == b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind in ("hour", "minute", "offset"):
        return BoolV(("tokeq", *sorted([repr(a), repr(b)])))  # distinct start-of-days might have the same hour
    if a.kind == "fmt":
        (ta, *xs), (tb, *ys) = a.name, b.name
        if ta == tb and [x.kind for x in xs] == [y.kind for y in ys]:
            diff = {(x.kind, x.name, y.name) for x, y in zip(xs, ys) if x != y}
            for k, x, y in diff:
                if k in ("tz", "sod") or k == "hour" and ("minute", x, y) in diff:
                    return False
        return BoolV(("tokeq", *sorted([repr(a), repr(b)])))
    return False


def hkey(k):
    return k


def mapping_dict(I, o):
    return {k: getitem(I, o, k) for k in I.iterate(o)}


def series_eq(I, a, b):
    s, o = (a, b) if isinstance(a, SeriesV) else (b, a)
    if s.kind == "bool" or isinstance(o, SeriesV) and o.kind == "bool":
        return I.top("bool series ==")
    if not is_numeric(o):
        return I.top("series == unknown")
    eo = to_expr(o)
    if isinstance(o, (SeriesV, Num)) and o.unit is not None and s.unit is not None:
        if o.unit.dims != s.unit.dims:
            return SeriesV(False, s.idx, None, s.name, "bool", s.arr)
        if o.unit.scale != s.unit.scale:
            eo = E.mul(eo, E.num(o.unit.scale / s.unit.scale))
    if isinstance(o, SeriesV) and not I.ts_same(s.idx.ts, o.idx.ts):
        I.raise_("ValueError", "Can only compare identically-labeled Series objects")
    v = expr_eq(s.expr, eo)
    return SeriesV(v, s.idx, None, s.name, "bool", s.arr)


def expr_eq(x, y):
    """Boolean (per generic timestamp): are the values the same."""
    if isinstance(x, E.Ite):
        return b_ite(x.p, expr_eq(x.a, E.restrict(y, x.p, True)), expr_eq(x.b, E.restrict(y, x.p, False)))
    if isinstance(y, E.Ite):
        return b_ite(y.p, expr_eq(x, y.a), expr_eq(x, y.b))
    if x is E.UNK or y is E.UNK:
        return E.UNK
    if x is E.NAN or y is E.NAN:
        return False
    return E.same(x, y)


def b_ite(p, a, b):
    if a == b:
        return a
    return b_bin("or", b_bin("and", ("p", p), a), b_bin("and", b_not(("p", p)), b))


def dtype_eq(I, d, o):
    if isinstance(o, DtypeV):
        return d == o
    if isinstance(o, Ext):
        k = {"builtins.float": "float", "builtins.int": "int", "builtins.bool": "bool", "builtins.object": "object",
             "numpy.float64": "float", "numpy.int64": "int"}.get(o.path)
        return d.kind == k
    if isinstance(o, str):
        if o.startswith("pint["):
            u = parse_unit(o[5:-1])
            return d.kind == "pint" and d.unit == u
        return {"float": "float", "float64": "float", "int": "int", "int64": "int", "bool": "bool", "object": "object"}.get(o) == d.kind
    if isinstance(o, StrV):
        I.imprecise("dtype comparison")
        return BoolV(("dtype", repr(d), repr(o)))
    return False


def contains(I, cont, x):
    if isinstance(cont, Top) or isinstance(x, (Top,)):
        I.imprecise("membership of unknown")
        return BoolV(("in", repr(x), repr(cont)))
    if isinstance(cont, (dict, set, frozenset, list, tuple)):
        if isinstance(x, (str, int, EnumMember, Ext, PyClass, Offset, UnitV, TokV)) and not isinstance(x, bool):
            for y in cont:
                if y is x:
                    return True
        for y in cont:
            if I.truth(equal(I, x, y)):
                return True
        return False
    if isinstance(cont, str):
        if isinstance(x, str):
            return x in cont
        if isinstance(x, StrV):
            I.imprecise("substring of unknown")
            return BoolV(("in", repr(x), cont))
        I.raise_("TypeError", "'in <string>' requires string")
    if isinstance(cont, Instance):
        f = I.getattr(cont, "__contains__", None)
        if f is not None:
            return I.truth(I.call(f, [x], {}))
        return contains(I, I.iterate(cont), x)
    if isinstance(cont, FrameV):
        return x in cont.cols if I.hashable(x) else False
    if isinstance(cont, ColsV):
        return x in cont.names
    if isinstance(cont, PyClass) and cont.is_enum:
        return x in cont.members
    if isinstance(cont, range):
        return x in cont if isinstance(x, int) else False
    if isinstance(cont, StrV):
        I.imprecise("substring of unknown")
        return BoolV(("in", repr(x), repr(cont)))
    if cont is None or isinstance(cont, (int, float)):
        I.raise_("TypeError", "argument is not iterable")
    if isinstance(cont, ModuleVal):
        I.raise_("TypeError", "module is not iterable")
    I.imprecise(f"membership in {type(cont).__name__}")
    return BoolV(("in", repr(x), repr(cont)))


# ---------------------------------------------------------------- items

def mask_name(e):
    if isinstance(e, tuple):
        if e[0] == "p":
            return e[1]
        if e[0] == "not":
            return f"not({mask_name(e[1])})"
        return f"{e[0]}({mask_name(e[1])}, {mask_name(e[2])})"
    return repr(e)


def select_idx(I, idx, mask):
    if mask is True:
        return idx
    if mask is False:
        return idx.copy(ts={"~empty"})
    if mask is E.UNK:
        return idx.copy(ts={f"(?{id(mask)})"} | idx.ts)
    if isinstance(mask, tuple) and mask[0] == "and":
        return select_idx(I, select_idx(I, idx, mask[1]), mask[2])
    MASKS[f"({mask_name(mask)})"] = mask
    return idx.copy(ts=I.ts_norm(idx.ts | {f"({mask_name(mask)})"}))


MASKS = {}  # name of a selection of rows -> mask


def part_mask(I, part, full):
    """Mask that selects this part of the rows of an index; None if unknown."""
    part, full = I.ts_norm(part), I.ts_norm(full)
    if part == full:
        return True
    if part == frozenset(["~empty"]):
        return False
    if not full <= part or any(x not in MASKS for x in part - full):
        return None
    m = True
    for x in sorted(part - full):
        m = b_bin("and", m, MASKS[x])
    return m


def mask_preds(m):
    if not isinstance(m, tuple):
        return set()
    return {m[1]} if m[0] == "p" else set().union(*[mask_preds(x) for x in m[1:]])


def mask_value(m, sides):
    if not isinstance(m, tuple):
        return m
    if m[0] == "p":
        return sides[m[1]]
    if m[0] == "not":
        return not mask_value(m[1], sides)
    a, b = mask_value(m[1], sides), mask_value(m[2], sides)
    return (a and b) if m[0] == "and" else (a or b)


def partition(I, parts):
    """(all rows, masks) if the sets of timestamps are a partition of a common one; else None."""
    parts = [I.ts_norm(p) for p in parts]
    full = frozenset.intersection(*parts)
    if not full:
        return None
    masks = [part_mask(I, p, full) for p in parts]
    if None in masks or any(m is E.UNK for m in masks):
        return None
    names = sorted(set().union(*[mask_preds(m) for m in masks]))
    if len(names) > 8:
        return None
    for sides in itertools.product((True, False), repeat=len(names)):
        if sum(bool(mask_value(m, dict(zip(names, sides)))) for m in masks) != 1:
            return None
    return full, masks


def restrict_mask(e, mask, val=True):
    """Value number, knowing that the mask holds."""
    if isinstance(mask, tuple):
        if mask[0] == "p":
            return E.restrict(e, mask[1], val)
        if mask[0] == "not":
            return restrict_mask(e, mask[1], not val)
        if mask[0] == "and" and val or mask[0] == "or" and not val:
            return restrict_mask(restrict_mask(e, mask[1], val), mask[2], val)
    return e


def select(I, o, idx, mask=True):
    if isinstance(o, SeriesV):
        e = o.expr
        if o.kind == "num":
            e = known_inside(I, restrict_mask(e, mask), idx.ts)
        return SeriesV(e, idx, o.unit, o.name, o.kind, o.arr)
    return FrameV({c: select(I, s, idx, mask) for c, s in o.cols.items()}, idx)


def at_stamps(o, k):
    idx = Idx({f"values[{k.to}]"}, None, o.idx.tz, None, o.idx.name)

    def one(s):
        return SeriesV(E.rename(s.expr, lambda a: f"at({a} -> {k.to})"), idx, s.unit, s.name, s.kind)

    return one(o) if isinstance(o, SeriesV) else FrameV({n: one(s) for n, s in o.cols.items()}, idx)


def loc_get(I, o, k):
    if isinstance(k, tuple) and isinstance(o, FrameV) and len(k) == 2:
        rows, cols = k
        fr = o if isinstance(rows, slice) and rows == slice(None) else loc_get(I, o, rows)
        if isinstance(cols, slice) and cols == slice(None):
            return fr
        if (c := labels.names(I, cols)) is not None:
            cols = c
        if isinstance(cols, SeriesV) and (c := labels.elements(I, cols)) is not None and cols.kind == "bool":
            cols = [n for n in fr.cols if c.get(n)]
        if isinstance(cols, (list, str)):
            return getitem(I, fr, cols)
        return I.top("loc with columns")
    if isinstance(o, (SeriesV, FrameV)) and labels.is_index(o.idx) and (c := k if isinstance(k, list) else labels.names(I, k)) is not None:
        if isinstance(o, SeriesV):
            return labels.pick(I, o, c)
        cols = {n: labels.pick(I, s, c) for n, s in o.cols.items()}
        if cols and all(isinstance(s, SeriesV) for s in cols.values()):
            return FrameV(cols, next(iter(cols.values())).idx)
        return I.top("rows of frame with labels")
    if isinstance(k, Idx):
        if I.ts_same(k.ts, o.idx.ts):
            return select(I, o, k)
        if I.ts_subset(k.ts, o.idx.ts):
            return select(I, o, k)
        if I.decide(("labels missing", frozenset(I.ts_norm(k.ts)), frozenset(I.ts_norm(o.idx.ts)))):
            I.raise_("KeyError", "timestamps not in index")
        I.trace.subsets.add((frozenset(k.ts), frozenset(o.idx.ts)))
        return select(I, o, k)
    if isinstance(k, SeriesV) and k.kind == "stamps":  # values at other timestamps
        if not I.ts_same(k.src.ts, o.idx.ts):
            I.imprecise("mapping from other index")
        return at_stamps(o, k)
    if isinstance(k, SeriesV) and k.kind == "bool":
        if not I.ts_same(k.idx.ts, o.idx.ts):
            I.imprecise("mask with other index")
        return select(I, o, select_idx(I, o.idx, k.expr), k.expr)
    if isinstance(k, slice):
        if k == slice(None):
            return select(I, o, o.idx)
        idx = o.idx
        m = True
        if k.step is not None:
            return I.top("loc with step")
        if k.start is not None:
            m = b_bin("and", m, idx_cmp(I, "GtE", idx, k.start).expr)
        if k.stop is not None:
            m = b_bin("and", m, idx_cmp(I, "LtE", idx, k.stop).expr)
        return select(I, o, select_idx(I, idx, m), m)
    if isinstance(k, TokV) and k.kind == "selector":
        return select(I, o, o.idx.copy(ts=I.ts_norm(o.idx.ts | {f"({k.name})"})))
    if isinstance(k, TSet):
        return loc_get(I, o, k.idx)
    if isinstance(k, StampV):
        return Num(E.atom(f"@{stamp_key(k)}({E.key(o.expr)})"), o.unit) if isinstance(o, SeriesV) else I.top("row of frame")
    if isinstance(o, SeriesV) and isinstance(k, str):
        return I.top("label")
    return I.top(f"loc[{type(k).__name__}]")


def getitem(I, o, k):
    if isinstance(o, Top):
        return I.top(f"item of {o.why}")
    if hasattr(k, "sa_index_into"):
        return k.sa_index_into(I, o)
    if isinstance(o, Acc) and hasattr(o.o, "sa_loc"):
        return o.o.sa_loc(I, k) if o.kind == "loc" else I.top("position of group")
    if isinstance(o, dict):
        if not I.hashable(k):
            I.raise_("TypeError", "unhashable")
        if isinstance(k, (Top, StrV)):
            return I.top("item with unknown key")
        if k in o:
            return o[k]
        for kk in o:
            if type(kk) is not type(k) and isinstance(k, (FreqV, Offset)) and I.truth(equal(I, kk, k)):
                return o[kk]
        if isinstance(o, DefaultDict):
            o[k] = I.call(o.factory, [], {})
            return o[k]
        I.raise_("KeyError", repr(k))
    if isinstance(o, (list, tuple, str)):
        if isinstance(k, slice):
            if all(isinstance(x, (int, type(None))) for x in (k.start, k.stop, k.step)):
                return o[k]
            return I.top("slice")
        if isinstance(k, int):
            try:
                return o[int(k)]
            except IndexError:
                I.raise_("IndexError", "index out of range")
        if isinstance(k, (Top, Num, LenV)):
            return I.top("item with unknown position")
        I.raise_("TypeError", "indices must be integers")
    if isinstance(o, Instance):
        f, _ = o.cls.lookup("__getitem__")
        if f is None:
            I.raise_("TypeError", f"{describe(o)} is not subscriptable")
        return I.call(f, [o, k], {})
    if isinstance(o, PyClass):
        if o.is_enum:
            for m in o.members:
                if m.name == k:
                    return m
            I.raise_("KeyError", repr(k))
        return o
    if isinstance(o, Ext):
        return o
    if isinstance(o, FrameV):
        if isinstance(k, ColsV):
            k = list(k.names)
        if isinstance(k, list):
            missing = [c for c in k if c not in o.cols]
            if missing:
                I.raise_("KeyError", f"{missing} not in columns {list(o.cols)}")
            return FrameV({c: copy_series(o.cols[c]) for c in k}, o.idx)
        if isinstance(k, SeriesV) and k.kind == "bool":
            return loc_get(I, o, k)
        if isinstance(k, slice):
            return iloc_get(I, o, k)
        if isinstance(k, (Top, StrV)):
            return I.top("column with unknown name")
        if isinstance(k, FrameV):
            return I.top("frame mask")
        if not I.hashable(k):
            return I.top("column key")
        if k in o.cols:
            return o.cols[k]
        I.raise_("KeyError", repr(k))
    if isinstance(o, SeriesV):
        if isinstance(k, SeriesV) and k.kind in ("bool", "stamps") or isinstance(k, (Idx, StampV)):
            return loc_get(I, o, k)
        if isinstance(k, slice):
            return loc_get(I, o, k)
        if isinstance(k, int) and not isinstance(k, bool):
            return iloc_get(I, o, k)  # no integer labels: position
        return I.top("item of series")
    if isinstance(o, Acc):
        if o.kind == "loc":
            return loc_get(I, o.o, k)
        return iloc_get(I, o.o, k)
    if isinstance(o, Idx):
        if isinstance(k, int) and not isinstance(k, bool):
            if I.ts_empty(o.ts):
                I.raise_("IndexError", "index is empty")
            return StampV({0: "min", -1: "max"}.get(k, f"[{k}]"), o)
        if isinstance(k, SeriesV) and k.kind == "bool":
            r = select_idx(I, o, k.expr)
            return r
        if isinstance(k, slice):
            if k == slice(None):
                return o
            if k.stop == 0 and isinstance(k.stop, int) and k.start in (None, 0) and k.step is None:
                return o.copy(ts={"~empty"})
            return o.copy(ts=o.ts | {f"(slice {k.start!r}:{k.stop!r}:{k.step!r})"})
        return I.top("item of index")
    if isinstance(o, TSet):
        if isinstance(k, int) and o.kind == "sorted":
            return StampV({0: "min", -1: "max"}.get(k, f"[{k}]"), o.idx)
        return I.top("item of timestamps")
    if isinstance(o, ColsV):
        if isinstance(k, int):
            return o.names[k]
        return I.top("item of columns")
    if o is None or isinstance(o, (int, float, PyFunc, ModuleVal)):
        I.raise_("TypeError", f"{type(o).__name__} object is not subscriptable")
    return I.top(f"item of {type(o).__name__}")


def iloc_get(I, o, k):
    if isinstance(k, int) and isinstance(o, SeriesV) and (have := labels.elements(I, o)) is not None:
        if not -len(have) <= k < len(have):
            I.raise_("IndexError", "single positional indexer is out-of-bounds")
        return list(have.values())[k]
    if isinstance(k, int) and isinstance(o, SeriesV):
        if I.ts_empty(o.idx.ts):
            I.raise_("IndexError", "single positional indexer is out-of-bounds")
        w = {0: "min", -1: "max"}.get(k, f"[{k}]")
        ec = o.expr.const() if isinstance(o.expr, E.Rat) else None
        if ec is not None:
            return Num(o.expr, o.unit)
        return Num(E.atom(f"@{w}({E.key(o.expr)})"), o.unit)
    if isinstance(k, tuple) and len(k) == 2 and isinstance(o, FrameV):
        if isinstance(k[1], int):
            cols = list(o.cols.values())
            if not -len(cols) <= k[1] < len(cols):
                I.raise_("IndexError", "single positional indexer is out-of-bounds")
            return iloc_get(I, cols[k[1]], k[0])
        if k[1] == slice(None):
            return iloc_get(I, o, k[0])
        return I.top("iloc with columns")
    if isinstance(k, slice):
        from .resample import drop_row

        if k == slice(None):
            return select(I, o, o.idx)
        d = drop_row(I, o.idx, k)
        if d is not None:
            return with_index_(o, d)
        if k.stop == 0 and isinstance(k.stop, int) and k.start in (None, 0) and k.step is None:
            return select(I, o, o.idx.copy(ts={"~empty"}))
        return select(I, o, o.idx.copy(ts=o.idx.ts | {f"(slice {k.start!r}:{k.stop!r}:{k.step!r})"}))
    return I.top("iloc")


def with_index_(o, idx):
    if isinstance(o, FrameV):
        return FrameV({c: SeriesV(s.expr, idx, s.unit, s.name, s.kind, s.arr) for c, s in o.cols.items()}, idx)
    return SeriesV(o.expr, idx, o.unit, o.name, o.kind, o.arr)


def copy_series(s):
    return SeriesV(s.expr, s.idx, s.unit, s.name, s.kind, s.arr)


def setitem(I, o, k, v):
    I.mutate(o, f"set item {k!r}" if isinstance(k, (str, int)) else "set item")
    if isinstance(o, dict):
        if isinstance(k, (Top, StrV)):
            I.imprecise("unknown dictionary key")
        if not I.hashable(k):
            I.raise_("TypeError", "unhashable")
        o[k] = v
        return
    if isinstance(o, list):
        if isinstance(k, int):
            try:
                o[k] = v
            except IndexError:
                I.raise_("IndexError", "assignment out of range")
            return
        I.imprecise("list item assignment")
        return
    if isinstance(o, tuple) or isinstance(o, str):
        I.raise_("TypeError", "object does not support item assignment")
    if isinstance(o, FrameV):
        if isinstance(k, SeriesV) and k.kind == "bool" and not isinstance(v, (SeriesV, FrameV)):
            for c in o.cols:
                set_masked(I, o.cols, c, k.expr, v, o.idx)
            return
        if isinstance(k, (list, ColsV, SeriesV, FrameV, Top, StrV)):
            I.imprecise("frame item assignment")
            return
        o.cols[k] = as_column(I, v, o.idx, k)
        return
    if isinstance(o, SeriesV):
        if isinstance(k, SeriesV) and k.kind == "bool":
            d = {0: o}
            set_masked(I, d, 0, k.expr, v, o.idx)
            o.expr = d[0].expr
            return
        o.expr = E.UNK
        I.imprecise("series item assignment")
        return
    if isinstance(o, Acc):
        I.mutate(o.o, "set item through accessor")
        if isinstance(o.o, (SeriesV, FrameV)) and o.kind == "loc":
            from .resample import add_row

            if add_row(I, o.o, k, v):
                return
        if isinstance(k, SeriesV) and k.kind == "bool" and isinstance(o.o, (SeriesV, FrameV)):
            setitem(I, o.o, k, v)
            return
        if isinstance(k, tuple) and len(k) == 2 and isinstance(o.o, FrameV) and isinstance(k[0], SeriesV) and k[0].kind == "bool" and isinstance(k[1], str):
            if k[1] in o.o.cols:
                set_masked(I, o.o.cols, k[1], k[0].expr, v, o.o.idx)
                return
        if isinstance(o.o, FrameV):
            for c, s in list(o.o.cols.items()):
                o.o.cols[c] = SeriesV(E.UNK, s.idx, s.unit, c, s.kind)
        else:
            o.o.expr = E.UNK
        I.imprecise("accessor item assignment")
        return
    if isinstance(o, Instance):
        f, _ = o.cls.lookup("__setitem__")
        if f is not None:
            I.call(f, [o, k, v], {})
            return
        I.raise_("TypeError", f"{describe(o)} does not support item assignment")
    if isinstance(o, Idx):
        I.raise_("TypeError", "Index does not support mutable operations")
    I.imprecise(f"item assignment on {type(o).__name__}")


def set_masked(I, d, c, mask, v, idx):
    s = d[c]
    ev = to_expr(v) if is_numeric(v) else (E.NAN if v is None else E.UNK)
    if isinstance(v, SeriesV) and not I.ts_same(v.idx.ts, idx.ts):
        I.imprecise("assignment of series with other index")
    if isinstance(v, Num) and v.unit is not None and s.unit is not None and v.unit.scale != s.unit.scale:
        ev = E.mul(ev, E.num(v.unit.scale / s.unit.scale))
    d[c] = SeriesV(b_select(mask, ev, s.expr), idx, s.unit, s.name, s.kind)


def as_column(I, v, idx, name):
    """Column of a frame with index ``idx``, from value ``v``."""
    if isinstance(v, SeriesV):
        if not v.arr and not I.ts_same(v.idx.ts, idx.ts):
            if I.ts_subset(idx.ts, v.idx.ts):  # all rows found
                return SeriesV(v.expr, idx, v.unit, name, v.kind)
            I.event("misaligned", what=f"column {name!r} assigned to frame with other index", left=repr(idx), right=repr(v.idx))
            return SeriesV(E.NAN, idx, v.unit, name, v.kind)
        return SeriesV(v.expr, idx, v.unit, name, v.kind)
    if isinstance(v, bool):
        return SeriesV(v, idx, None, name, "bool")
    if isinstance(v, Num) or isinstance(v, (int, float)):
        return SeriesV(to_expr(v), idx, unit_of(v), name, "int" if isinstance(v, int) else "num")
    if v is None:
        return SeriesV(E.NAN, idx, None, name, "obj")
    if isinstance(v, IdxArr):
        return SeriesV(E.atom(repr(v.what)), idx, None, name)
    I.imprecise(f"column from {type(v).__name__}")
    return SeriesV(E.UNK, idx, None, name, "obj")


class DefaultDict(dict):
    pass


@ext("collections.defaultdict")
def _defaultdict(I, a, k):
    d = DefaultDict()
    d.factory = a[0]
    return d


@ext("collections.OrderedDict")
def _odict(I, a, k):
    return call_ext(I, Ext("builtins.dict"), a, k)


# ---------------------------------------------------------------- attributes

NAT = object()


def getattr(I, o, name):  # noqa: A001
    if isinstance(o, Top):
        return I.top(f"attribute {name} of {o.why}")
    if isinstance(o, Ext):
        return ext_getattr(I, o, name)
    m = METHODS.get((type(o), name))
    if m is None:
        for t in type(o).__mro__:
            if t is list and hasattr(o, "sa_op"):  # an array is no list
                break
            m = METHODS.get((t, name))
            if m is not None:
                break
    if m is not None:
        return BoundMethod(Native(f"{type(o).__name__}.{name}", checked(m, name)), o)
    f = ATTR.get(type(o))
    if f is not None:
        return f(I, o, name)
    for t in type(o).__mro__:
        if t in ATTR:
            return ATTR[t](I, o, name)
    if o is None:
        if name in ("__class__", "__doc__"):
            return Ext("builtins.NoneType")
        return MISSING
    if name == "__class__":
        return typeof(I, o)
    return I.top(f"attribute {name} of {type(o).__name__}")


class Kw(dict):
    """Keyword arguments that know which of them have been looked at."""

    def __init__(self, d):
        super().__init__(d)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)

    def get(self, k, d=None):
        self.seen.add(k)
        return super().get(k, d)

    def pop(self, k, *d):
        self.seen.add(k)
        return super().pop(k, *d)

    def __contains__(self, k):
        self.seen.add(k)
        return super().__contains__(k)

    def __iter__(self):
        self.seen.update(super().keys())
        return super().__iter__()

    def items(self):
        self.seen.update(super().keys())
        return super().items()

    def keys(self):
        self.seen.update(super().keys())
        return super().keys()


HARMLESS = {"copy", "check_names", "stacklevel"}


def checked(m, name):
    """The model of a library function; without verdict if it does not know one of the keyword arguments."""

    def run(I, a, k):
        if not k:
            return m(I, a, k)
        if "inplace" in k:
            k = dict(k)
            if I.truth(k.pop("inplace")):
                o, r = a[0], checked(m, name)(I, a, k)
                if type(r) is not type(o):
                    return I.top(f"{name} in place")
                I.mutate(o, f"{name} in place")
                o.__dict__.update(r.__dict__)
                return None
        kw = Kw(k)
        r = m(I, a, kw)
        rest = [n for n in dict.keys(kw) if n not in kw.seen and n not in HARMLESS]
        if rest:
            I.imprecise(f"argument {rest[0]} of {name}")
        return r

    return run


ATTR = {}


def attr(*typs):
    def deco(fn):
        for t in typs:
            ATTR[t] = fn
        return fn

    return deco


def ext_getattr(I, o, name):
    if o.path == "builtins.object":
        if name == "__setattr__":
            return Native("object.__setattr__", object_setattr)
        if name == "__new__":
            return Native("object.__new__", lambda I, a, k: I.new_instance(a[0]))
        if name == "__init__":
            return Native("object.__init__", lambda I, a, k: None)
        if name == "__getattribute__":
            return Native("object.__getattribute__", lambda I, a, k: I.getattr(a[0], a[1]))
    if name == "__mro__":
        return (o, BUILTINS["object"])
    if name == "__name__":
        return o.path.rpartition(".")[2]
    if o.path == "builtins.dict" and name == "fromkeys":
        return Native("fromkeys", lambda I, a, k: {x: (a[1] if len(a) > 1 else None) for x in I.iterate(a[0])})
    if o.path == "builtins.set" and name in ("intersection", "union", "difference", "symmetric_difference"):
        return Native(f"set.{name}", lambda I, a, k: I.call(I.getattr(a[0], name), list(a[1:]), k))
    if o.path == "builtins.str":
        return Native(f"str.{name}", lambda I, a, k: I.call(I.getattr(a[0], name), list(a[1:]), k))
    if (o.path, name) in I.ext_attrs:
        return I.ext_attrs[(o.path, name)]
    return ext_attr(I, o.path, name)


def pandas_ext_attr(I, o, clsname, name):
    v = I.ext_attrs.get((clsname, name))
    if v is None:
        return MISSING
    if isinstance(v, Property):
        return I.call(v.fget, [o], {})
    if isinstance(v, (PyFunc, Native)):
        return BoundMethod(v, o)
    return v


# ---------------------------------------------------------------- types

TYPEPATH = {
    "builtins.int": lambda v: isinstance(v, int) or isinstance(v, Num) and v.unit is None and v.isint or isinstance(v, LenV),
    "builtins.float": lambda v: isinstance(v, float) or isinstance(v, Num) and v.unit is None and not v.isint,
    "builtins.str": lambda v: isinstance(v, (str, StrV)),
    "builtins.bool": lambda v: isinstance(v, (bool, BoolV)),
    "builtins.list": lambda v: isinstance(v, list) or isinstance(v, TSet) and v.kind != "set",
    "builtins.dict": lambda v: isinstance(v, dict),
    "builtins.tuple": lambda v: isinstance(v, tuple),
    "builtins.set": lambda v: isinstance(v, set) or isinstance(v, TSet) and v.kind == "set",
    "builtins.slice": lambda v: isinstance(v, slice),
    "builtins.object": lambda v: True,
    "builtins.type": lambda v: isinstance(v, PyClass),
    "builtins.bytes": lambda v: isinstance(v, bytes),
    "builtins.frozenset": lambda v: isinstance(v, frozenset),
    "builtins.range": lambda v: isinstance(v, range),
    "pandas.Series": lambda v: isinstance(v, SeriesV) and not v.arr,
    "pandas.DataFrame": lambda v: isinstance(v, FrameV),
    "pandas.DatetimeIndex": lambda v: isinstance(v, Idx),
    "pandas.Index": lambda v: isinstance(v, (Idx, ColsV)),
    "pandas.MultiIndex": lambda v: False,
    "pandas.Timestamp": lambda v: isinstance(v, StampV) or isinstance(v, TokV) and v.kind == "stamp",
    "pandas.Timedelta": lambda v: isinstance(v, TokV) and v.kind == "delta",
    "pandas.Period": lambda v: False,
    "pandas.PeriodIndex": lambda v: False,
    "datetime.datetime": lambda v: isinstance(v, StampV) or isinstance(v, TokV) and v.kind == "stamp",
    "datetime.date": lambda v: isinstance(v, StampV) or isinstance(v, TokV) and v.kind == "stamp",
    "datetime.time": lambda v: isinstance(v, TokV) and v.kind == "sod",
    "datetime.timedelta": lambda v: isinstance(v, TokV) and v.kind == "delta",
    "numpy.ndarray": lambda v: isinstance(v, (SeriesV, IdxArr)) and getattr_arr(v),
    "numpy.integer": lambda v: False,
    "numpy.floating": lambda v: False,
    "numpy.bool_": lambda v: False,
    "ureg.Quantity": lambda v: isinstance(v, Num) and v.unit is not None,
    "pint.Quantity": lambda v: isinstance(v, Num) and v.unit is not None,
    "pint.Unit": lambda v: isinstance(v, UnitV),
    "ureg.Unit": lambda v: isinstance(v, UnitV),
    "pint_pandas.PintType": lambda v: isinstance(v, DtypeV) and v.kind == "pint",
    "typing.Mapping": lambda v: isinstance(v, dict) or isinstance(v, Instance) and v.cls.has_ext("typing.Mapping"),
    "typing.MutableMapping": lambda v: isinstance(v, dict),
    "typing.Callable": lambda v: isinstance(v, (PyFunc, Native, BoundMethod, PyClass)),
    "typing.Hashable": lambda v: not isinstance(v, (list, dict, set, SeriesV, FrameV)),
    "typing.Sequence": lambda v: isinstance(v, (list, tuple, str)),
    "numbers.Number": lambda v: isinstance(v, (int, float)) or isinstance(v, Num) and v.unit is None,
    "numbers.Real": lambda v: isinstance(v, (int, float)) or isinstance(v, Num) and v.unit is None,
    "pandas.DateOffset": lambda v: isinstance(v, Offset),
    "pandas.tseries.offsets.BaseOffset": lambda v: isinstance(v, (Offset, FreqV)),
}


def getattr_arr(v):
    return isinstance(v, IdxArr) or v.arr


def _iterable(v):
    return isinstance(v, (list, tuple, set, frozenset, dict, str, StrV, SeriesV, FrameV, Idx, ColsV, TSet, range)) or type(v).__name__ == "IterV" or (
        isinstance(v, Instance) and v.cls.lookup("__iter__")[0] is not None
    )


TYPEPATH["typing.Iterable"] = _iterable
TYPEPATH["typing.Collection"] = lambda v: _iterable(v) and type(v).__name__ != "IterV"
TYPEPATH["typing.Sized"] = TYPEPATH["typing.Collection"]


def isinst(I, v, t):
    if isinstance(t, tuple):
        r = False
        for x in t:
            q = isinst(I, v, x)
            if q is True:
                return True
            if q is not False:
                r = q
        return r
    if isinstance(v, Top):
        I.imprecise(f"isinstance of {v.why}")
        return BoolV(("isinstance", v.why, repr(t)))
    if isinstance(t, PyClass):
        return isinstance(v, Instance) and v.cls.subclass_of(t)
    if isinstance(t, ExcType):
        return isinstance(v, ExcInst) and I.exc_match(v, t)
    if isinstance(t, Ext):
        if t.path in TYPEPATH:
            return bool(TYPEPATH[t.path](v))
        if t.path.startswith("pandas.tseries.offsets."):
            c = t.path.rpartition(".")[2]
            if isinstance(v, FreqV):
                return I.freq_split(v, lambda o: o.cls == c, f"is a {c}")
            return isinstance(v, Offset) and v.cls == c
        if isinstance(v, Instance):
            return v.cls.has_ext(t.path)
        I.imprecise(f"isinstance with {t.path}")
        return BoolV(("isinstance", repr(v), t.path))
    I.imprecise("isinstance with unknown")
    return BoolV(("isinstance", repr(v), repr(t)))


def typeof(I, v):
    if isinstance(v, Instance):
        return v.cls
    if v is None:
        return Ext("builtins.NoneType")
    for t, p in (
        (bool, "bool"), (BoolV, "bool"), (int, "int"), (LenV, "int"), (float, "float"), (str, "str"), (StrV, "str"), (list, "list"),
        (dict, "dict"), (set, "set"), (tuple, "tuple"), (slice, "slice"), (PyClass, "type"),
    ):
        if isinstance(v, t):
            return Ext(f"builtins.{p}")
    if isinstance(v, Num):
        if v.unit is not None:
            return Ext("ureg.Quantity")
        return Ext("builtins.int" if v.isint else "builtins.float")
    if isinstance(v, SeriesV):
        return Ext("numpy.ndarray") if v.arr else Ext("pandas.Series")
    if isinstance(v, FrameV):
        return Ext("pandas.DataFrame")
    if isinstance(v, Idx):
        return Ext("pandas.DatetimeIndex")
    if isinstance(v, StampV):
        return Ext("pandas.Timestamp")
    if isinstance(v, FreqV):
        c = I.freq_split(v, lambda o: o.cls, "type")
        return Ext(f"pandas.tseries.offsets.{c}")
    if isinstance(v, Offset):
        return Ext(f"pandas.tseries.offsets.{v.cls}")
    if isinstance(v, UnitV):
        return Ext("pint.Unit")
    if isinstance(v, ExcInst):
        return v.typ
    return Ext(f"type of {type(v).__name__}")


# ---------------------------------------------------------------- iteration

def iterate(I, v):
    if isinstance(v, Top):
        I.imprecise(f"iteration over {v.why}")
        raise Abort(f"iteration over {v.why}")
    if isinstance(v, FrameV):
        return list(v.cols)
    if isinstance(v, ColsV):
        return list(v.names)
    if isinstance(v, SeriesV) and (have := labels.elements(I, v)) is not None:
        return list(have.values())
    if isinstance(v, Idx) and (have := labels.names(I, v)) is not None:
        return have
    if isinstance(v, (StrV, SeriesV, Idx, TSet, IdxArr)):
        raise Abort(f"iteration over {type(v).__name__}")
    if v is None or isinstance(v, (int, float, Num, BoolV, PyFunc, ModuleVal)):
        I.raise_("TypeError", f"{type(v).__name__} object is not iterable")
    raise Abort(f"iteration over {type(v).__name__}")


# ---------------------------------------------------------------- calls

def call_ext(I, f, args, kwargs):
    fn = EXTS.get(f.path)
    if fn is not None:
        return checked(fn, f.path)(I, args, kwargs)
    e = ext_exc(f.path)
    if e is not None:
        return ExcInst(e, args, I.site)
    return I.top(f"call of {f.path}")


def call_other(I, f, args, kwargs):
    return I.top(f"call of {type(f).__name__}")


from . import labels, pylib, pdlib  # noqa: E402,F401  (register the models)


@attr(slice)
def slice_attr(I, o, name):
    if name in ("start", "stop", "step"):
        return {"start": o.start, "stop": o.stop, "step": o.step}[name]
    return I.top(f"attribute {name} of slice")
