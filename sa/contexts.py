"""Symbolic inputs: portfolio lines, states, series, scalars."""

from __future__ import annotations

from . import expr as E
from .contracts import dur_atom, install
from .interp import Interp, Package
from .values import FrameV, FreqV, Idx, Num, SeriesV, TokV, U

KINDS = ["VOLUME", "PRICE", "REVENUE", "COMPLETE"]
COLS = {"VOLUME": "wq", "PRICE": "p", "REVENUE": "r", "COMPLETE": "wqpr"}


_LOADED = {}


def load(root="/repo/portfolyo", without=()):
    key = (root, tuple(without))
    if key not in _LOADED:
        _LOADED[key] = _load(root, without)
    return _LOADED[key]


def _load(root, without):
    from .report import PATHS

    I = install(Interp(Package(root)).load(), without)
    for name, m in I.pkg.mods.items():
        p = str(m["path"])
        PATHS[name] = p[p.rfind("/portfolyo/") + 1 :]
    return I


class Ctx:
    """Builder of symbolic objects; everything with the same name denotes the same thing."""

    NAIVE = False  # timestamps without timezone

    def __init__(self, I):
        self.I = I
        self.freq = FreqV("F")
        self.tz = None if Ctx.NAIVE else TokV("tz", "Z")
        self.sod = TokV("sod", "T")
        self.odd = ()  # names of the lines that, in some rows, are zero
        self.priced = ()  # those that have a price in these rows

    def cls(self, structure, kind):
        return self.I.find(f"core.pfline.classes:{structure.capitalize()}{kind.capitalize()}PfLine")

    def idx(self, name, **kw):
        d = dict(freq=self.freq, tz=self.tz, sod=self.sod, name="ts_left")
        d.update(kw)
        return Idx({name}, **d)

    def df(self, kind, n, idx):
        """Dataframe of a line: independent values w/q, p, r; consistent."""
        v = self.values(kind, n, idx)
        return FrameV({c: SeriesV(v[c], idx, U[c], c) for c in COLS[kind]}, idx)

    def values(self, kind, n, idx):
        d = dur_atom(idx.freq)
        w, p, r = E.atom(f"w_{n}"), E.atom(f"p_{n}"), E.atom(f"r_{n}")
        if kind == "COMPLETE":
            r = E.mul(E.mul(w, d), p)
        if n in self.odd:
            row = f"${n}"
            w, r = E.Ite(row, E.ZERO, w), E.Ite(row, E.ZERO, r)
            if n not in self.priced:
                p = E.Ite(row, E.NAN if kind == "COMPLETE" else E.ZERO, p)
        return dict(w=w, q=E.mul(w, d), p=p, r=r)

    def flat(self, kind, n, idx):
        return self.I.call(self.cls("flat", kind), [self.df(kind, n, idx)], {})

    def nested(self, kind, n, idx, names, depth=1):
        ch = {}
        for c in names:
            if depth > 1:
                ch[c] = self.nested(kind, f"{n}.{c}", idx, [c + "1", c + "2"], depth - 1)
            else:
                ch[c] = self.flat(kind, f"{n}.{c}", idx)
        return self.I.call(self.cls("nested", kind), [ch], {})

    def series(self, name, idx, unit=None, label=None):
        return SeriesV(E.atom(name), idx, unit, label)

    def kind(self, k):
        return self.I.find(f"core.pfline.enums:Kind.{k}")

    def structure(self, k):
        return self.I.find(f"core.pfline.enums:Structure.{k}")


def val(pfl, col):
    """Value number of a column in standard units."""
    df = pfl.attrs["df"]
    s = df.cols[col]
    return E.mul(s.expr, E.num(s.unit.scale)) if s.unit is not None else s.expr
