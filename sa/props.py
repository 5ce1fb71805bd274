"""Which rules decide which property."""

from __future__ import annotations

from .contexts import load

AI = (
    "Path-partitioned abstract interpretation of the current source (syntax trees of all modules of the package; nothing is executed): "
    "each listed function is interpreted on abstract portfolio objects, whose columns are value numbers (normal forms of rational expressions), "
    "units are dimension vectors, and indices are sets of index-atoms; the abstract result of every path is compared with an independently written specification. "
    "A path on which the analysis lost precision is counted as without verdict and never reported. "
)


def binop(aspect):
    def run(rep, root, tier):
        from . import rules_binop as R

        I = load(root)
        if aspect == "A04":
            from . import rules_state as RS

            rep.group("A04", lambda rep: R.incompatible_lines(rep, I, tier))
            rep.group("A04.states", lambda rep: RS.incompatible_states(rep, I, tier))
            rep.group("A04.other", lambda rep: RS.incompatible_other(rep, I, tier))
        else:
            rep.group(aspect, lambda rep: R.A(rep, I, aspect, tier))
        return AI + "Obligations: operator x kinds x structures of both operands (and other operand types).", {}

    run.parallel = True
    return run


PROPS = {a: binop(a) for a in ("A01", "A02", "A03", "A04")}


def twice(rep, fn):
    """Once more, with timestamps that have no timezone."""
    from .contexts import Ctx

    Ctx.NAIVE, rep.suffix = True, ", no timezone"
    try:
        fn()
    finally:
        Ctx.NAIVE, rep.suffix = False, ""


def rules(text, *fns, without=(), naive=False):
    """Property decided by abstract interpretation with the given groups of rules."""

    def run(rep, root, tier):
        I = load(root, without)
        for f in fns:
            f(rep, I, tier)
        if naive or tier == "thorough":
            twice(rep, lambda: [f(rep, I, tier) for f in fns])
        return AI + text, {}

    run.parallel = True
    return run


from . import rules_line as RL  # noqa: E402

PROPS["A05"] = rules("Obligations: every child-wise operation x kind x depth of nesting, and setting/dropping/accessing children.", RL.A05, naive=True)

from . import rules_create as RC  # noqa: E402

PROPS["A10"] = rules("Obligations: creation from every combination of timeseries in every form, every listed kind of contradictory or ambiguous input, and the index of every result.", RC.A10, naive=True)
PROPS["A06"] = rules("Obligations: consistency of the columns of every line made by creation, from children, or by every operation.", RC.A06, naive=True)
PROPS["A07"] = rules("Obligations: every accessor x kind x structure, the constructor table, the enumeration of kinds, and kind and structure of everything that is created.", RC.A07, naive=True)
PROPS["A08"] = rules("Obligations: unit handling of every attribute x unit x type of value, unit tables and definitions, and the units of everything that is created or calculated.", RC.A08)

from . import rules_ops as RO  # noqa: E402

from . import rules_state as RS  # noqa: E402

PROPS["A09"] = rules("Obligations: asfreq of every kind x structure x source and target frequency.", RO.A09, naive=True)
PROPS["A11"] = rules("Obligations: every way of selecting x kind x structure, for lines and states.", RO.A11, lambda rep, I, tier: RS.selecting(rep, I, tier, "A11"), naive=True)
PROPS["A12"] = rules("Obligations: comparison with same and different data (every column, every child, every name), with other objects, and truth value of every kind x structure; likewise for states.", RO.A12, RS.equality)

PROPS["B01"] = rules("Obligations: every part and export of a state x structure of its three lines.", RS.B01)
PROPS["B02"] = rules("Obligations: operator x structures of both states, and operator x every other type of operand.", RS.B02)
PROPS["B03"] = rules("Obligations: every method that returns a state x structure x new part.", RS.B03)
PROPS["B04"] = rules("Obligations: creation of a state from every combination of kinds, structures and timestamps of its three lines, and from other data.", RS.B04, naive=True)

from . import rules_immut as RI  # noqa: E402

PROPS["A13"] = rules("Obligations: every operation x kind x structure of the operands; an obligation is violated if any object reachable from an operand is written on any path.", RI.A13)

from . import rules_freq as RF  # noqa: E402

BODIES = ("tools.duration.index", "tools.right.index", "tools.right.stamp")
FIN = "The set of allowed frequencies is finite, so these obligations are exhaustive: constant propagation of every allowed frequency (and pair) through the code. "
PROPS["F01"] = rules(FIN + "Obligations: function x ordered pair of the 28 allowed frequencies x form (string, offset) x strictness; longest and shortest of singles, pairs and triples.", RF.F01, without=BODIES)
PROPS["F02"] = rules(FIN + "Obligations: right-bound, duration and validity of every allowed frequency x form, rejection of every listed other frequency, and frequency of every length a period can have.", RF.F02, without=BODIES)

from . import rules_inter as RN  # noqa: E402

PROPS["I01"] = rules("Obligations: function x number of objects x attributes that differ x ignored attributes, for indices, timeseries, frames, lines and states.", RN.I01, naive=True)

from . import rules_concat as RK  # noqa: E402

PROPS["K01"] = rules("Obligations: concatenation of two or three lines (kind x structure) or states, in every order; and of every listed mismatch, gap and overlap, in both orders. "
                     "The order of the inputs on the time axis is part of each case.", RK.K01, naive=True)

from . import rules_resample as RR  # noqa: E402

PROPS["F03"] = rules("Obligations: resampling of summable and averagable data x source frequency x target frequency x start-of-day x unit and form; trimming; weighted averages.", RR.F03,
                     without=("tools.changefreq.summable", "tools.changefreq.averagable", "tools.changefreq.index"), naive=True)

from . import rules_hedge as RH  # noqa: E402

PROPS["H01"] = rules("Obligations: hedge of one period; hedge of timeseries x method x frequency of the data x frequency and kind of the products x start-of-day x units x timestamps of the prices; every other method or frequency; hedging of lines.", RH.H01, naive=True)
PROPS["H02"] = rules("Obligations: completing base/peak/offpeak frames x what is missing x mode x frequency x unit; splitting, expanding and converting x mode x frequencies x start-of-day x unit.", RH.H02, naive=True)

from . import rules_wavg as RW  # noqa: E402

WAVG = ("tools.wavg.dataframe", "tools.wavg.series")
PROPS["W01"] = rules("Obligations: function x weights (number of them, zeros, sum zero, missing labels, order of labels, form) x missing values x axis x unit; decided by interpretation of the "
                     "bodies, with rows as exact linear combinations.", RW.W01, without=WAVG)


from . import rules_standard as RSt  # noqa: E402

PROPS["S01"] = rules("Obligations: form of the data x whether a frequency is set or can be found x timezone x value of each option (including left out) x whether the steps succeed.", RSt.S01)

from . import rules_gaps as RG  # noqa: E402

PROPS["X01"] = rules("Obligations: pattern of missing values in series of up to 8 (thorough: 10) rows x maximum gap (including left out) x frequency. Values are symbols.", RG.X01)

FIELDS = "Timestamps are abstracted to their calendar fields (the year, other than common or leap, is unknown to the analysis). "


def fields(which):
    def run(rep, I, tier):
        from . import rules_fields as RFi

        getattr(RFi, which)(rep, I, tier)

    return run


PROPS["P01"] = rules(FIELDS + "Obligations: boundary, floor and ceil, delivery period and pair of timestamps for first, second and last day of each month x times around the start of the day x frequency; "
                     "every minute of the hour for (quarter)hours; boundaries of an index x its frequency; reading and setting the start of day.", fields("P01"))
PROPS["P02"] = rules(FIELDS + "Obligations: start x end x weekdays of the peak hours x frequency x start of day, every (quarter)hour of a week; rejected specifications and frequencies.", fields("P02"))


def y01(rep, root, tier):
    from . import rules_year as RY

    RY.Y01(rep, root, tier)
    return AI + "Obligations: mapping of every kind x structure of line x frequency; of timeseries and dataframes onto an index or year; timestamps of the target for every allowed frequency; choice of the mapping, and rejection of an index that does not match, for every allowed frequency.", {}


y01.parallel = True
PROPS["Y01"] = y01


def whole(module, text):
    """Property of all functions of the package, decided by a classical analysis of the whole program."""

    def run(rep, root, tier):
        import importlib

        from ga.model import Program

        pid = rep.pid

        def analyse(rep):
            P = Program(root)
            getattr(importlib.import_module(f"ga.{module}"), pid)(rep, P, tier)

        rep.group(pid, analyse)
        return text, {}

    return run


GA = "Whole-program analysis of the current source (syntax trees of all modules, resolved names, class hierarchy, call graph; nothing is executed). "
PROPS["G01"] = whole("rules_effects", GA + "Flow-sensitive alias analysis with interprocedural summaries: every write (assignment to an attribute or element, in-place operator, mutating method) is traced to the parameters whose objects it can reach. Obligations: every parameter of every public function.")
PROPS["G02"] = whole("rules_order", GA + "Flow-sensitive interprocedural taint analysis from the order of sets to places where the order shows; and reachability of clock, random, hash and environment sources. Obligations: every function and every library call.")
PROPS["G03"] = whole("rules_effects", GA + "The same alias analysis with module variables, class attributes, default values, closures and library settings as roots. Obligations: every function, default value and library call.")
PROPS["G04"] = whole("rules_options", GA + "Interprocedural strong-liveness analysis of parameters, and matching of options with those of the functions called. Obligations: every parameter of every public function, and every argument of every call of a package function.")
PROPS["G05"] = whole("rules_names", GA + "Path-sensitive definite-assignment analysis, resolution of every name, attribute and import, matching of every call with the signature, completeness of classes. Obligations: every name, attribute, import, call, interface.")
PROPS["G06"] = whole("rules_returns", GA + "Path-sensitive analysis of the exits of every function, of discarded results and swallowed errors. Obligations: every function, statement and handler.")
