"""S01: standardizing timeseries follows its options (what the steps themselves do, is decided elsewhere or not at all)."""

from __future__ import annotations

from . import expr as E
from . import lib as L
from .contexts import load
from .contracts import bound
from .interp import MISSING
from .lib import ext
from .pdlib import tsname, with_index
from .pylib import arg
from .report import Undecided
from .spans import idx_tz
from .values import FrameV, FreqV, Idx, SeriesV, StampV, TokV, Top, U

# Timestamps are named after the steps that lead to them: "X" (as received), "left<X, A>", "local<X, T>", ...


MISS = E.ite("present", E.atom("v"), E.NAN)


def _fr(v):
    return isinstance(v, (SeriesV, FrameV))


def guess(I, f, args, kwargs):
    fr = bound(I, f, args, kwargs)["fr"]
    if not _fr(fr):
        return MISSING
    i = fr.idx
    if i.freq is not None or not I.guessable(tsname(I, i)):
        return fr
    return with_index(fr, i.copy(freq=FreqV("F")))


def set_freq(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    fr = v["fr"]
    return with_index(fr, fr.idx.copy(freq=v["wanted"])) if _fr(fr) else MISSING


def converted(name, frm, to, floating):
    """Name of timestamps after conversion of timezone (or: to no timezone)."""
    if frm == to:
        return name
    if to is None:
        return f"wall<{name}>"
    if frm is None:
        return f"in<{to!r}, {name}>"
    return f"in<{to!r}, wall<{name}>>" if floating else f"at<{to!r}, {name}>"


def aware(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    fr, tz, floating = v["fr"], zone(v["tz"]), v["floating"]
    if not _fr(fr) or not isinstance(floating, (bool, type(None))) or not isinstance(tz, (TokV, type(None))):
        return MISSING
    if tz is None or fr.idx.freq is None:
        I.raise_("ValueError", "no timezone" if tz is None else "no frequency")
    return with_index(fr, fr.idx.copy(ts={converted(tsname(I, fr.idx), fr.idx.tz, tz, floating)}, tz=tz, freq=fr.idx.freq))


def agnostic(I, f, args, kwargs):
    fr = bound(I, f, args, kwargs)["fr"]
    if not _fr(fr):
        return MISSING
    if fr.idx.freq is None:
        I.raise_("ValueError", "no frequency")
    return with_index(fr, fr.idx.copy(ts={converted(tsname(I, fr.idx), fr.idx.tz, None, None)}, tz=None, freq=fr.idx.freq))


def left(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    i = v["i"]
    if not isinstance(i, Idx):
        return MISSING
    return i.copy(ts={f"left<{tsname(I, i)}, {v.get('how', 'A')}>"})


def check(I, f, args, kwargs):
    fr = next(iter(bound(I, f, args, kwargs).values()))
    if not _fr(fr) and not isinstance(fr, Idx):
        return MISSING
    i = fr if isinstance(fr, Idx) else fr.idx
    n = tsname(I, i)
    if i.freq is None or any(b in n for b in I.badnames):
        I.raise_("AssertionError", "not standardized")
    return None


def engine(I):
    J = load(str(I.pkg.root), ("tools.standardize.assert_frame_standardized",) + ("",) * 7)
    p = J.pkg.name
    J.contracts.update({f"{p}.tools.freq.guess_to_frame": guess, f"{p}.tools.freq.set_to_frame": set_freq, f"{p}.tools.freq.assert_freq_valid": lambda *a: None,
                        f"{p}.tools.tzone.force_aware": aware, f"{p}.tools.tzone.force_agnostic": agnostic,
                        f"{p}.tools.righttoleft.index": left, f"{p}.tools.standardize.assert_frame_standardized": check, f"{p}.tools.standardize.assert_index_standardized": check})
    J.localizes = True
    return J


def make(form, i):
    if form == "frame":
        return FrameV({"b": SeriesV(E.atom("v"), i, U["w"], "b"), "a": SeriesV(MISS, i, None, "a"), "c": SeriesV(E.atom("u"), i, None, "c")}, i)
    return SeriesV(MISS if form == "series, missing" else E.atom("v"), i, U["w"] if form == "series with unit" else None, "n")


def show(x):
    return "default" if x is MISSING else x.name if isinstance(x, TokV) else repr(x)


def unchanged(v, src):
    """What is wrong with values, units and names."""
    if type(v) is not type(src):
        return f"gives {v!r}"[:150]
    if isinstance(v, FrameV) and list(v.cols) != list(src.cols):
        return f"has columns {list(v.cols)}"
    for a, b in [(v.cols[n], s) for n, s in src.cols.items()] if isinstance(v, FrameV) else [(v, src)]:
        if E.has_unk(a.expr):
            return Undecided("unknown values")
        if not E.same(a.expr, b.expr) or a.unit != b.unit or a.name != b.name:
            return "has other values, unit, or name"
    return None


def options(rep, I, tier):
    J = engine(I)
    fn = J.find("tools.standardize:frame")
    Z = TokV("tz", "Z")
    T = TokV("tz", "T")
    none = MISSING

    def fix(name, tz, force, to, floating):
        """Timestamps after the requested conversion."""
        if force is none or force is None:
            return name, tz
        if force == "aware":
            return None if to is None else (converted(name, tz, to, floating), to)
        return converted(name, tz, None, None), None

    for form in ("series", "series with unit", "series, missing", "frame"):
        for has in ("frequency", "guessable", "gaps"):
            for tz in (Z, None):
                for boundside in (none, "left", "right"):
                    for force in (none, None, "aware", "agnostic", "naive", "foo"):
                        for to in (none, T, Z):
                            for floating in (none, True, False):
                                if (tier == "quick" or form != "series") and floating is True and force != "aware":
                                    continue
                                if form != "series" and (boundside == "left" or force == "naive"):
                                    continue
                                for good in ("first", "second", "never"):
                                    if good == "second" and boundside != "right":
                                        continue
                                    k = {n: v for n, v in (("bound", boundside), ("force", force), ("tz", to), ("floating", floating)) if v is not none}
                                    for local in (True, "Ambiguous", "NonExistent"):
                                        if local is not True and not (has == "gaps" and tz is None and to is not none):
                                            continue
                                        case(rep, J, fn, form, has, tz, boundside, force, to, floating, good, local, k, fix)


def case(rep, J, fn, form, has, tz, side, force, to, floating, good, local, k, fix):
    freq = FreqV("F") if has == "frequency" else None
    i = Idx({"X"}, freq, tz, TokV("sod", "S"), "name")
    fl = True if floating is MISSING else floating
    tzarg = None if to is MISSING else to

    def attempt(name, f, zone, force):
        """Expected result (name, tz) or None for ValueError, from left-bound data."""
        if not f and J_guess(name):
            f = True
        if not f and zone is None and tzarg is not None and local is True:
            return attempt(f"local<{name}, {tzarg!r}>", False, tzarg, "agnostic" if force in (MISSING, None) else force)
        if not f or force == "foo":
            return None
        r = fix(name, zone, force, tzarg, fl)
        return None if r is None or any(b in r[0] for b in bad) else r

    def J_guess(name):
        return has == "guessable" or has == "gaps" and name.startswith("local<")

    bad = {"first": (), "second": (", A>",), "never": ("X",)}[good]
    names = [f"left<X, {h}>" for h in "AB"] if side == "right" else ["X"]
    want = next((w for w in (attempt(n, has == "frequency" or has == "guessable", tz, force) for n in names) if w), None)

    def run(J):
        J.guessable, J.badnames, J.localizable = J_guess, bad, local
        return J.call(fn, [make(form, i)], dict(k))

    def judge(o):
        J.trace = o.trace
        v = o.value
        if o.kind == "raise":
            n = v.typ.name
            return None if want is None and n == "ValueError" else f"raises {n}{v.args[:1]}" + ("" if want is None else f", should have timestamps {want[0]}")
        if isinstance(v, Top):
            return Undecided(repr(v))
        if not _fr(v) or type(v) is not type(make(form, i)):
            return f"gives {v!r}"[:150]
        n = tsname(J, v.idx)
        if want is None:
            return f"does not raise a ValueError; gives timestamps {n}"
        if n != want[0]:
            return f"has timestamps {n}, should have {want[0]}"
        if v.idx.tz != want[1]:
            return f"has timezone {v.idx.tz}, should have {want[1]}"
        if v.idx.name != "ts_left":
            return f"index has name {v.idx.name!r}, should be 'ts_left'"
        if not isinstance(v.idx.freq, FreqV):
            return f"has frequency {v.idx.freq}"
        return unchanged(v, make(form, i))

    rep.explore(J, "S01.options", f"standardize {form} ({has}, {'timezone' if tz else 'no timezone'}, acceptable: {good}{'' if local is True else f', cannot be localized: {local}'}): "
                f"bound {show(side)}, force {show(force)}, tz {show(to)}, floating {show(floating)}", run, judge)


def zone(tz):
    return TokV("tz", tz) if isinstance(tz, str) else tz


@ext("pytz.timezone", "zoneinfo.ZoneInfo")
def _timezone(I, a, k):
    return zone(a[0]) if len(a) == 1 and not k and isinstance(zone(a[0]), TokV) else I.top("timezone")


STAMPS = {n: L.METHODS.get((StampV, n)) for n in ("tz_convert", "utcoffset", "dst", "tzname")}


def stamp_method(name):
    def fn(I, a, k):
        s = a[0]
        if not getattr(I, "zones", False) or s.idx is None or s.which not in ("min", "max", "end") or s.idx.tz is None:
            return STAMPS[name](I, a, k) if STAMPS[name] else I.top(f"Timestamp.{name}")
        if name != "tz_convert":
            return TokV("offset", f"{name} of {L.stamp_key(s)} ({s.idx.tz!r})")
        tz = zone(arg(a, k, 1, "tz"))
        if not isinstance(tz, TokV):
            return I.top("tz_convert")
        i = idx_tz(I, s.idx, tz, True)
        return StampV(s.which, i)

    return fn


for _n in STAMPS:
    L.METHODS[(StampV, _n)] = stamp_method(_n)


def to_agnostic(I, f, args, kwargs):
    fr = bound(I, f, args, kwargs)["fr"]
    if not _fr(fr):
        return MISSING
    if fr.idx.tz is None:
        I.raise_("ValueError", "must be tz-aware")
    return with_index(fr, fr.idx.copy(ts={f"wall<{tsname(I, fr.idx)}>"}, tz=None))


def to_aware(I, f, args, kwargs):
    v = bound(I, f, args, kwargs)
    fr, tz = v["fr"], zone(v["tz"])
    if not _fr(fr) or not isinstance(tz, TokV):
        return MISSING
    if fr.idx.tz is not None:
        I.raise_("ValueError", "must be tz-agnostic")
    return with_index(fr, fr.idx.copy(ts={f"in<{tz!r}, {tsname(I, fr.idx)}>"}, tz=tz))


def zones(rep, I, tier):
    """Which conversion is done, and that the frequency is kept."""
    J = engine(I)
    p = J.pkg.name
    for n in ("force_aware", "force_agnostic"):
        del J.contracts[f"{p}.tools.tzone.{n}"]
    J.contracts.update({f"{p}.tools.tzone._aware_to_agnostic": to_agnostic, f"{p}.tools.tzone._agnostic_to_aware": to_aware})
    J.localizes = False
    J.zones = True
    J.badnames = ()
    Z, T = TokV("tz", "Z"), TokV("tz", "T")
    for form in ("series", "series with unit", "series, missing", "frame"):
        for has in ("frequency", "guessable", "gaps"):
            for tz in (Z, None):
                for to in (Z, T, "Z", "T", None, "", "agnostic"):
                    for floating in (MISSING, True, False):
                        if to == "agnostic" and floating is not MISSING:
                            continue
                        zcase(rep, J, form, has, tz, to, floating)


def zcase(rep, J, form, has, tz, to, floating):
    i = Idx({"X"}, FreqV("F") if has == "frequency" else None, tz, TokV("sod", "S"), "name")
    agnostic = to == "agnostic"
    fn = J.find("tools.tzone:force_agnostic" if agnostic else "tools.tzone:force_aware")
    args = [] if agnostic else [to]
    k = {} if floating is MISSING else {"floating": floating}

    def spec(J):
        if has == "gaps" or not agnostic and not to:
            return None
        if agnostic:
            return ("X" if tz is None else "wall<X>", None)
        z = zone(to)
        if tz is None:
            return f"in<{z!r}, X>", z
        if tz == z:
            return "X", z
        if floating is False:
            return tsname(J, idx_tz(J, i, z, True)), z
        return f"in<{z!r}, wall<X>>", z

    def run(J):
        J.guessable = lambda n: has == "guessable"
        return J.call(fn, [make(form, i), *args], dict(k)), spec(J)

    def judge(o):
        J.trace = o.trace
        if o.kind == "raise":
            n = o.value.typ.name
            want = has == "gaps" or not agnostic and not to
            return None if want and n == "ValueError" else f"raises {n}{o.value.args[:1]}"
        if isinstance(o.value, Top):
            return Undecided(repr(o.value))
        v, want = o.value
        if isinstance(v, Top):
            return Undecided(repr(v))
        if want is None:
            return "does not raise a ValueError"
        if not _fr(v):
            return f"gives {v!r}"[:150]
        n = tsname(J, v.idx)
        if n.replace("'", "") != want[0]:
            return f"has timestamps {n}, should have {want[0]}"
        if zone(v.idx.tz) != want[1]:
            return f"has timezone {v.idx.tz}, should have {want[1]}"
        if getattr(v.idx.freq, "name", None) != "F":
            return f"has frequency {v.idx.freq}"
        return unchanged(v, make(form, i))

    what = "without timezone" if agnostic else f"with timezone {to!r} (floating: {show(floating)})"
    rep.explore(J, "S01.zones", f"data {what} from {form} ({has}, {'timezone Z' if tz else 'no timezone'})", run, judge)


def S01(rep, I, tier):
    rep.group("options", options, I, tier)
    rep.group("zones", zones, I, tier)
    from . import rules_fields

    rep.group("left", rules_fields.left_bound, I, tier)
