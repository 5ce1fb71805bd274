"""Writes /verif/properties.jsonl (one property per line).  Run by hand after editing."""
import json, pathlib
C = "portfolyo/core/"
PL, PS, T, T2 = C + "pfline/", C + "pfstate/", "portfolyo/tools/", "portfolyo/tools2/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe))))

# ---- portfolio line arithmetic -------------------------------------------------------------
p("A01", "Arithmetic on portfolio lines follows the documented kind table",
  "For every pair of portfolio lines and every operator, the kind of the result is the documented one: + and - and scaling keep the kind, volume*price gives revenue, revenue/price gives volume, revenue/volume gives price, dividing two lines of the same non-complete kind gives a dimensionless series, and the union | of two different non-complete kinds gives a complete line. "
  "Every combination outside that table raises an error and never returns a value. "
  "+ and - of two nested lines and scaling of a nested line give a nested line; every other operation involving a nested line gives the result of the flattened operands.",
  ["inputs", "programs"], "all operators (incl. reflected and unary), all kinds x structures of both operands, all other-operand types (line, factor, None)",
  "tests sample a few kind/structure pairs and mostly one structure; the table must hold on every path through the decorator stacks for every pair",
  [PL + "arithmatic.py", PL + "classes.py", PL + "enums.py", PL + "interop.py", PL + "create.py"],
  [("decorator stacks (Prep) and dispatch classes Add/Multiply/Divide/Unite", PL + "arithmatic.py")],
  ["PfLine.__add__", "PfLine.__sub__", "PfLine.__mul__", "PfLine.__truediv__", "PfLine.__or__"])
p("A02", "Arithmetic on portfolio lines computes the documented values",
  "On every common timestamp, a+b and a-b add and subtract power, energy and revenue (and, for price-only lines, the price), the price of a summed complete line being total revenue over total energy; a-b equals a+(-b), b-a is its negation, and a/b divides a by b (and never b by a). "
  "A product of volume and price is energy times price, and a quotient is revenue over energy, revenue over price, or like over like. "
  "Scaling by a factor multiplies power, energy and revenue, multiplies the price of a price-only line, and leaves the price of a complete line unchanged.",
  ["inputs"], "all values, all operand kinds and structures, both operand orders",
  "tests compare a handful of numbers for a handful of pairs; the formula has to be right for every operand order, kind, structure and number",
  [PL + "arithmatic.py", PL + "interop.py", T + "wavg.py"],
  [("Add / Multiply / Divide / Unite and the reflected dunder methods", PL + "arithmatic.py")])
p("A03", "Binary results cover exactly the common timestamps of both operands",
  "When two portfolio lines (flat or nested, and whatever children they have) are combined with an operator, the result, and each child of it, covers exactly the timestamps that both operands have. "
  "Values of different timestamps are never combined, and no timestamp that is missing in one operand appears in the result as missing or as zero. "
  "If the operands have no timestamp in common, an error is raised and no empty portfolio line is returned.",
  ["inputs"], "all pairs of delivery periods (equal, nested, partly overlapping, disjoint)",
  "the tests' operands nearly always share one index; partial overlap with distinct children or with a product is not exercised",
  [PL + "arithmatic.py", T + "intersect.py", PL + "nested_helper.py"],
  [("intersection before combining", T + "intersect.py")])
p("A04", "Objects with incompatible indices are never combined",
  "Combining two objects whose indices differ in frequency, in timezone, or in start-of-day always raises an error: in every arithmetic operation on portfolio lines and portfolio states, when adding a child, when creating a portfolio state from three lines, when concatenating, and when reindexing. "
  "No combination is made quietly by converting, trimming or ignoring one of these attributes. "
  "It holds whichever operand has which attribute value, including when one has no timezone at all.",
  ["inputs", "configurations"], "all pairs of frequency, timezone (incl. none), start-of-day, and all operations that take two objects",
  "the tests check some operations with some mismatches; the guard must be on every path of every combining operation",
  [PL + "arithmatic.py", PS + "arithmatic.py", PL + "children.py", PS + "pfstate_helper.py", T2 + "concat.py", T + "testing.py", T + "intersect.py", PL + "flat_methods.py", PL + "classes.py"],
  [("assert_indices_compatible and the guards that call it", T + "testing.py")])
p("A05", "Operations on a nested line act on every child and keep the names",
  "Scaling, negating, resampling, selecting, reindexing, taking volume or revenue, and mapping to another year of a nested portfolio line gives a nested line with exactly the same child names in the same order, in which each child is the result of that operation on the child with that name. "
  "Adding two nested lines keeps the children of both: same-named children are added and the others are kept. "
  "Setting a child adds or replaces only the child with that name, dropping one removes only that child, and the power, energy and revenue (or price) of a nested line are always the sums of those of all its children.",
  ["inputs", "histories"], "all child names, numbers of children and nesting depths",
  "tests use two or three children of equal shape; that no child is lost, duplicated, mixed up or reordered must hold for every set of names",
  [PL + "nested_methods.py", PL + "classes.py", PL + "children.py", PL + "arithmatic.py", T2 + "changeyear.py"],
  [("child-wise comprehensions and NestedPfLine.__post_init__", PL + "classes.py")])
p("A06", "Power, energy, price and revenue of a line are always mutually consistent",
  "In every portfolio line that has volumes, energy equals power times the duration of the delivery period, and in every complete line revenue equals energy times price. "
  "This holds no matter how the line was made: created from any sufficient combination of the four, by arithmetic, resampling, reindexing, hedging, selecting, flattening, from its children, or by mapping to another year. "
  "Whenever a timeseries is derived at creation it is derived from the provided ones with these two relations only.",
  ["inputs", "histories"], "all ways of creating or transforming a line, all numbers",
  "the invariant must hold at every construction site for every input combination; tests check numbers for some of them",
  [PL + "interop.py", PL + "classes.py", PL + "arithmatic.py", PL + "flat_methods.py", T2 + "changeyear.py"],
  [("InOp.make_consistent and every call of a leaf class", PL + "interop.py")])
p("A07", "Accessors, kind and structure of a portfolio line always agree",
  "A portfolio line gives access to power, energy, price and revenue, and to its volume, price and revenue part, exactly if its kind contains that information; any other access raises a TypeError and never returns data of another kind. "
  "The part that is returned has the kind that was asked for and carries the unchanged data. "
  "The reported kind and structure are those of the data the line was created with, and start and end are the left bound of its first and the right bound of its last delivery period.",
  ["inputs", "programs"], "all kinds, structures and accessors",
  "finite but large matrix of accessor x kind x structure, partly built by mixins; tests reach a part of it",
  [PL + "classes.py", PL + "enums.py", PL + "flat_helper.py", PL + "nested_helper.py", PL + "create.py"],
  [("kind mixins and constructor matrix", PL + "classes.py")])
p("A08", "Each quantity always has its own physical dimension",
  "In every portfolio line power is in MW, energy in MWh, price in Eur/MWh and revenue in Eur: values that are supplied without unit get that unit, values in another unit of the same dimension are converted, and values of another dimension are rejected, never relabelled. "
  "No calculation adds or compares quantities of different dimension or drops a unit in between. "
  "The unit tables used for naming, parsing and displaying these quantities agree with each other.",
  ["inputs"], "all units and all calculations that produce a column",
  "dimension errors only appear on the path and unit that a test happens to use",
  [T + "unit.py", T + "unitdefinitions.txt", PL + "interop.py", PL + "arithmatic.py", PL + "classes.py", PL + "text.py", T + "duration.py"],
  [("NAMES_AND_UNITS, InOp._set_unit", T + "unit.py")])
p("A09", "Resampling sums what is summable and averages what is averagable",
  "Changing the frequency of a portfolio line aggregates energy and revenue by summing and the price of a price-only line by duration-weighted averaging; power is the aggregated energy over the new duration and the price of a complete line is the aggregated revenue over the aggregated energy. "
  "Power and complete-line prices are never summed or averaged themselves. "
  "The requested frequency is the one used, and if no full period is available an error is raised.",
  ["inputs"], "all kinds, source and target frequencies",
  "summing vs averaging differ only for unequal durations or volumes, which sampled tests may not contain",
  [PL + "classes.py", T + "changefreq.py"],
  [("asfreq methods", PL + "classes.py"), ("summable / averagable", T + "changefreq.py")])
p("A10", "Creating a portfolio line rejects ambiguous or contradictory input",
  "Creation raises an error, and never drops or overwrites a value, if a quantity is given twice, if power and energy or price, energy and revenue contradict each other, if a value has no or an explicit zero dimension, if a name is unknown, if children differ in kind or have a reserved or non-string name, or if there are no children. "
  "Every line that is created, resampled, selected or reindexed has a non-empty index that is standardized (frequency set, full days); otherwise an error is raised. "
  "The delivery period of the result is the overlap of the timeseries that were supplied.",
  ["inputs"], "all input shapes and combinations of supplied quantities",
  "the acceptance test has to be on each path; tests supply a few bad inputs",
  [PL + "interop.py", PL + "flat_helper.py", PL + "nested_helper.py", PL + "create.py", T + "standardize.py", PL + "flat_methods.py", PL + "children.py"],
  [("InOp, _children, _kind, assert_frame_standardized", PL + "interop.py")])
p("A11", "slice is right-open, slices at a point are complementary, loc selects rows",
  "For a flat or nested portfolio line (and a portfolio state), slice[a:b] contains exactly the timestamps t with a <= t < b, where an omitted bound does not restrict, so that slice[:x] and slice[x:] never overlap and together contain everything. "
  "loc[...] contains the rows that pandas selects for it. "
  "Both keep kind, structure and all columns and do not change any value.",
  ["inputs"], "all bounds, all kinds and structures",
  "boundary cases depend on bounds that coincide with a timestamp; tests take a few",
  [PL + "flat_methods.py", PL + "nested_methods.py", PS + "pfstate.py"],
  [("SliceIndexer / LocIndexer", PL + "flat_methods.py")])
p("A12", "Equality and truth of portfolio objects depend on all of their data",
  "Two portfolio lines are equal exactly if they have the same kind and structure and the same values (units and timestamps included) in every column, for nested lines in every child with the same names; two portfolio states are equal exactly if their offtake, sourced and unsourced parts are. "
  "Comparing with any other object gives False and never raises. "
  "A line is true exactly if it, or for a nested line one of its children, contains a nonzero value.",
  ["inputs"], "all pairs of objects",
  "tests compare objects that are equal or differ in an obvious place; ignoring one column, child or part is not noticed",
  [PL + "flat_methods.py", PL + "nested_methods.py", PL + "classes.py", PS + "pfstate.py", T + "testing.py"],
  [("__eq__ / __bool__", PL + "flat_methods.py")])
p("A13", "Portfolio lines and states never change after creation",
  "Attributes of a portfolio line or portfolio state cannot be set, and no operation on it (arithmetic, setting or dropping a child, resampling, selecting, exporting, printing, hedging, comparing) changes it, its children, its dataframe or the other operand. "
  "Every such operation returns a new object or the unchanged object itself.",
  ["inputs", "histories"], "all sequences of operations on an object",
  "an unwanted write only shows when an object is used again after the operation",
  [PL + "classes.py", PL + "children.py", PL + "arithmatic.py", PS + "pfstate.py", PL + "text.py", T2 + "concat.py", T2 + "changeyear.py"],
  [("frozen dataclasses; operations build new frames", PL + "classes.py")])
# ---- portfolio states ------------------------------------------------------------------------
p("B01", "The parts of a portfolio state always balance",
  "In every portfolio state the unsourced volume is minus the sum of offtake and sourced volume and is valued at the unsourced prices, the net position is its negation, the procurement cost consists of exactly the sourced and the unsourced part, and the sourced fraction is the sourced volume over minus the offtake volume while the unsourced fraction is one minus that. "
  "The mark-to-market value is the sourced volume times the difference of unsourced price minus sourced price. "
  "The exported dataframe shows each part under its own name.",
  ["inputs", "histories"], "all portfolio states, however obtained",
  "identities between derived attributes for all values; tests check one or two states",
  [PS + "pfstate.py", PS + "pfstate_helper.py"], [("derived properties", PS + "pfstate.py")])
p("B02", "Arithmetic on portfolio states is the documented arithmetic on their parts",
  "Adding two portfolio states adds their offtake volumes and sourced parts and takes the unsourced-volume-weighted average of their unsourced prices; subtracting is adding the negation; negating and scaling change offtake volume and sourced part and leave the unsourced prices alone. "
  "a-b is never b-a. "
  "Every other combination (adding a line or number, multiplying states, dividing by something else than a factor or a state) raises an error instead of returning a value.",
  ["inputs"], "all pairs of states, all factors",
  "tests use two fixed states",
  [PS + "arithmatic.py"], [("PfStateArithmatic, Add, Multiply, Divide", PS + "arithmatic.py")])
p("B03", "Changing one part of a portfolio state leaves the other parts alone",
  "Setting the offtake volume, unsourced prices or sourced part replaces only that part, adding to the sourced part adds only to it, and sourcing the unsourced volume only adds the hedge of the unsourced volume to the sourced part. "
  "Selecting (loc, slice) and resampling apply the same selection or frequency to all three parts, where resampling weighs the unsourced price with the unsourced volume. "
  "All of these return a new portfolio state.",
  ["inputs"], "all states and all part-changing methods",
  "mixing up or forgetting a part shows only if the test compares that part afterwards",
  [PS + "pfstate.py"], [("set_*, add_sourced, source_unsourced, asfreq, loc, slice", PS + "pfstate.py")])
p("B04", "A portfolio state is only created from complete and covering information",
  "Creating a portfolio state requires an offtake line with volume and an unsourced line with prices; a sourced line, if given, must contain both volume and price, and if omitted is zero over the whole offtake period. "
  "Unsourced prices and sourced part must cover the whole delivery period of the offtake, otherwise an error is raised; anything they have in excess of that is cut off. "
  "Information that is discarded (prices of the offtake, volumes of the unsourced prices) is discarded with a warning.",
  ["inputs"], "all kinds and delivery periods of the three lines",
  "tests use lines with one common index and the right kinds",
  [PS + "pfstate_helper.py"], [("make_pflines", PS + "pfstate_helper.py")])
# ---- tools ------------------------------------------------------------------------------------
p("F01", "Comparing two frequencies is exact and antisymmetric",
  "For every pair of allowed frequencies (quarterhour, hour, day, month, quarter and year, the latter two starting in any month), the comparison says 'down' exactly if each target period consists of more than one whole source period, 'up' exactly in the reversed case, 'equal' if the periods coincide, and raises a ValueError if neither frequency divides the other. "
  "Swapping the arguments swaps the answer. "
  "The longest and shortest of several frequencies, and the assertions on sufficient length, agree with it.",
  ["inputs", "configurations"], "all pairs of allowed frequencies",
  "the 30 x 30 table of pairs is only sampled by tests",
  [T + "freq.py"], [("up_or_down, longest, shortest, assert_freq_sufficiently_long", T + "freq.py")])
p("F02", "Each allowed frequency has one period length and others are rejected",
  "For each allowed frequency the right-bound of a period is its left-bound plus exactly one quarterhour, hour, calendar day, calendar month, three calendar months or calendar year, and the duration is the time between the two (also across clock changes). "
  "A frequency outside the allowed set, including multiples such as two hours or two months, is rejected with a ValueError. "
  "Functions that take a frequency either handle an allowed frequency or raise a ValueError or AssertionError; they never fail with an internal error or return nothing.",
  ["inputs", "configurations"], "all frequencies and functions with a frequency parameter",
  "tests use the six basic frequencies",
  [T + "freq.py", T + "right.py", T + "duration.py", T + "round.py", T + "isboundary.py", T + "standardize.py"],
  [("to_offset, assert_freq_valid, duration.index", T + "freq.py")])
p("F03", "Aggregation of timeseries weighs averages with duration and sums sums",
  "Downsampling summable values sums them and downsampling averagable values multiplies with the duration, sums, and divides by the new duration; upsampling averagable values repeats them and upsampling summable values distributes them in proportion to the duration. "
  "Only full target periods are kept, start-of-day is respected, and equal frequencies leave values untouched. "
  "Trimming an index, series or frame keeps exactly the timestamps that lie in full target periods.",
  ["inputs"], "all series, source and target frequencies",
  "tests check some frequency pairs on sampled values",
  [T + "changefreq.py", T + "trim.py"], [("_general and the four resampling functions", T + "changefreq.py")])
p("W01", "A weighted average is the sum of weight times value over the sum of the weights",
  "The weighted average of a series, or of the columns or rows of a frame, is the sum of weight times value divided by the sum of the weights. Weights are matched to values by label. "
  "A missing value only matters if its weight is not 0; if the weights sum to 0 the average is only defined if all values that have a weight are the same, and is then that value. Units are kept.",
  ["inputs"], "all values, weights and units",
  "tests check some sampled values and weights",
  [T + "wavg.py"], [("series, dataframe", T + "wavg.py")])
p("S01", "Standardizing timeseries does what its options say",
  "Standardizing a series or frame changes neither values, units, names nor the order of columns. The result has a timezone, or has none, as asked for (or as received, if nothing is asked for): the conversion to the given timezone keeps wall time or, if asked for, universal time. "
  "Right-bound timestamps become left-bound (second interpretation only if the first does not give acceptable timestamps). Only data without frequency and timezone is first localized; if that is not possible it is used as is. "
  "The result has left-bound timestamps named 'ts_left' and the frequency of the data; if there is none, the timestamps are not acceptable, or the option does not exist, a ValueError is raised.",
  ["inputs", "configurations"], "all series and frames, all combinations of options",
  "tests check some combinations on sampled timestamps",
  [T + "standardize.py", T + "tzone.py", T + "righttoleft.py"], [("index", T + "righttoleft.py"), ("frame, _fix_rightbound, _fix_timezone", T + "standardize.py"), ("force_aware, force_agnostic, _A_to_A", T + "tzone.py")])
p("X01", "Filling gaps interpolates short gaps and changes nothing else",
  "Filling the gaps of a series replaces the missing values between two known values, if there are at most the given number (default: 2) of them, by linear interpolation in time. "
  "All other values, missing or known, stay as they are, also if the series starts or ends with missing values; the passed series is not changed.",
  ["inputs"], "all patterns of missing values, all values, all maximum gaps", "tests check a few patterns, none of which has missing values at the end",
  [T + "frame.py"], [("fill_gaps", T + "frame.py")])
p("P01", "Period starts, rounding and start-of-day follow from the calendar fields",
  "A timestamp is the start of a period exactly if its minutes (and seconds), or its time of day (equal to the start-of-day), day and month say so; floor and ceil give the last period start on or before it and the first on or after it "
  "(plus the wanted number of periods), so period starts are left unchanged. Daily and longer periods start at the start-of-day, and the hours before it belong to the previous day. "
  "The start-of-day of an index is the time of its first timestamp; setting it replaces the time of daily-or-longer timestamps and trims shorter ones to full days. "
  "Delivery periods and pairs of timestamps consist of such period starts, in order, with missing sides completed to the year. (Stated without clock changes.)",
  ["inputs"], "all timestamps, frequencies, start-of-days", "tests check sampled timestamps",
  [T + "round.py", T + "isboundary.py", T + "startofday.py", T + "product.py", T + "leftandright.py", T + "floor.py", T + "ceil.py"], [("stamp_current", T + "round.py"), ("stamp, index", T + "isboundary.py")])
p("P02", "A timestamp is peak exactly if in the given hours on the given weekdays",
  "A peak function returns, for each timestamp of an index, whether it lies between the given start (inclusive) and end (exclusive) on one of the given weekdays; left-out hours are midnight, left-out weekdays are Monday through Friday. "
  "Indices whose periods could be partly peak are rejected with a ValueError, as are specifications that include or exclude everything, or are not on full quarter-hours. Later changes to the passed weekdays have no influence.",
  ["inputs", "configurations"], "all start and end times, weekdays, timestamps", "tests check some functions on sampled timestamps",
  [T + "peakfn.py"], [("factory", T + "peakfn.py")])
p("H01", "A hedge keeps the volume or the value, and prices are time averages",
  "In every hedging period (and separately in its peak and offpeak part) a volume hedge has the duration-weighted average power and a value hedge the average power weighted with price times duration, and the hedge price is always the duration-weighted average price. "
  "The requested method, product frequency and peak definition are the ones used, only full hedging periods that both volume and price have are included, and each timestamp gets the values of the period it lies in. "
  "Any method or frequency outside the documented ones, and peak hedging with daily products or daily data, is rejected with a ValueError.",
  ["inputs", "configurations"], "all volume and price series, methods, frequencies, peak functions",
  "tests that compare with Excel do not run here; others sample few combinations",
  [T + "hedge.py", T + "peakconvert.py", PL + "flat_methods.py", PL + "nested_methods.py", PS + "pfstate.py"],
  [("hedge, one_hedge, group_index", T + "hedge.py")])
p("H02", "Base, peak and offpeak values are always arbitrage-free",
  "Whenever one of base, peak and offpeak is calculated from the other two, then for averagable values base times total duration equals peak times peak duration plus offpeak times offpeak duration, and for summable values base equals peak plus offpeak. "
  "Splitting a timeseries puts peak timestamps in the peak value and the others in the offpeak value (summed or duration-weighted as asked for), and expanding puts the peak value at peak timestamps and the offpeak value at the others (for summable values: spread over those timestamps only, so that totals are kept). "
  "The chosen summable-or-averagable mode is applied throughout a conversion.",
  ["inputs"], "all values, peak functions, frequencies, both modes",
  "algebraic identity over all numbers; no test expands a peak/offpeak frame",
  [T + "peakconvert.py", T + "peakfn.py", PL + "flat_methods.py"],
  [("complete_bpoframe, _tseries2po, poframe2tseries", T + "peakconvert.py")])
p("I01", "Intersecting returns one trimmed object per input, or raises",
  "Intersecting any number (one or more) of indices, frames, portfolio lines or states returns, in input order, one object for each input, restricted to the common delivery period and otherwise unchanged; if there is no overlap, every index or frame is empty (a portfolio line or state, which cannot be empty, raises an error). "
  "Different frequency, timezone or start-of-day raises a ValueError unless ignoring exactly that attribute was asked for. "
  "Each of the three ignore options influences only its own attribute.",
  ["inputs", "configurations"], "any number of inputs, any overlap, all option combinations",
  "tests intersect two non-empty inputs",
  [T + "intersect.py", T2 + "intersect.py"], [("indices, indices_flex, frames", T + "intersect.py")])
p("K01", "Concatenation demands matching inputs and ignores their order",
  "Concatenating portfolio lines or states of different kind, structure, child names, frequency, timezone or start-of-day, or mixing lines and states, raises an error. "
  "The result does not depend on the order of the inputs, contains all rows of all inputs, for nested lines child by child under the same name, and for states part by part. "
  "Gaps and overlaps, and fewer than two inputs, raise an error and never return nothing.",
  ["inputs"], "all collections of lines or states",
  "the tests' inputs violate one condition at a time for flat lines",
  [T2 + "concat.py"], [("general, concat_pflines, concat_pfstates", T2 + "concat.py")])
p("Y01", "Mapping to another year only reshuffles the values, consistently",
  "Mapping a portfolio line to another year gives, at each timestamp of that year, the values (volume, price, and revenue in proportion to the duration) that the original has at one timestamp, the same one for all its columns and children; kind, children and their order, units, column names, frequency, timezone and start-of-day are kept, and the result covers exactly the requested year. "
  "For quarterhourly and hourly data that timestamp is the source day chosen for the delivery day the target timestamp lies in, plus the time elapsed since the start of that delivery day, whatever the start-of-day and also on days with a clock change; months and longer periods are chosen without regard to holidays. "
  "The holiday country, the target year and the target index that are passed are the ones that are used. Source and target index that differ in frequency, timezone or start-of-day raise a ValueError.",
  ["inputs", "configurations"], "all lines, years, frequencies, timezones, start-of-days",
  "the tests map full years with start-of-day midnight and mostly compare the index",
  [T + "changeyear.py", T2 + "changeyear.py"], [("map_frame_to_index, map_index_to_index, index_with_year", T + "changeyear.py"), ("map_to_year", T2 + "changeyear.py")])
# ---- whole-code-base properties ----------------------------------------------------------------
p("G01", "No function changes the objects that are passed to it",
  "No public function or method modifies a dataframe, series, index, list, dictionary, set or portfolio object that it receives as argument, directly or through functions it calls. "
  "This includes changing values in place, renaming, setting index or frequency, and in-place operators.",
  ["inputs", "histories"], "all functions of the package and all call chains",
  "tests hardly ever look at the arguments after the call",
  ["portfolyo"], [("copy-before-write", "portfolyo")])
p("G02", "Results do not depend on hash seed, clock or random state",
  "The outcome of a calculation (values, order of children and columns, choice between alternatives) is the same in every run: it does not depend on iteration order of a set, on hashes or identities of objects, on the current time, or on random numbers, except in the functions that are documented to use the current time or to generate example data.",
  ["schedules", "configurations", "histories"], "all runs, i.e. all hash seeds and moments",
  "one test process has one hash seed; order differences appear in another process",
  ["portfolyo"], [("ordered collections; sorted() on sets", "portfolyo")])
p("G03", "No call influences later calls through hidden global state",
  "No function of the package writes module-level state, class attributes, default-argument values, attributes of the third-party modules it uses, or process-wide settings such as the random state, warning filters or pandas options, when it is called, except for the functions in dev that make example data, which use and may seed numpy's random generator; only importing the package registers its units and index extensions.",
  ["histories"], "all sequences of calls",
  "influence needs a specific call history",
  ["portfolyo"], [("stateless functions", "portfolyo")])
p("G04", "Every documented option is honoured and passed on",
  "Every parameter of a public function or method influences its result, and a function that delegates to another one passes on the options that both have. "
  "In particular frequency, hedge method, peak function, summable-or-averagable mode, ignore options, columns, units, child levels, colour and number of timestamps, and any extra arguments for the pandas function that is wrapped, reach the place where they take effect.",
  ["inputs", "configurations"], "all parameters of all functions",
  "tests mostly use default values",
  ["portfolyo"], [("delegating calls", "portfolyo")])
p("G05", "No execution path fails on an undefined name or attribute",
  "On no path does the package use a name that is not defined at that point, an attribute that its own module, class or object does not have, or call one of its own functions with arguments that the function does not accept. "
  "Every class that can be instantiated implements the whole interface it declares.",
  ["inputs", "programs"], "all paths of all functions",
  "errors on untested paths",
  ["portfolyo"], [("names, attributes, signatures", "portfolyo")])
p("G06", "Functions that promise a value never return nothing",
  "A function or method that returns a value on one path returns a value or raises an error on every path; an unknown name, unsupported type or unsupported option leads to an error and never to a silent None. "
  "An error that is detected while validating or combining is raised to the caller and not discarded.",
  ["inputs"], "all paths of all functions",
  "fall-through paths are the untested ones",
  ["portfolyo"], [("explicit raise at the end of dispatches", "portfolyo")])
# ---- not claimed -------------------------------------------------------------------------------
p("N01", "Resampling conserves energy and revenue numerically",
  "The total energy and revenue over full periods is the same before and after changing the frequency, up to rounding, across clock changes and start-of-day.",
  ["inputs"], "all numeric series", "floating point and calendar values", [T + "changefreq.py"], [("resample", T + "changefreq.py")])
p("N03", "Timezone conversion keeps values at the right local or universal time",
  "Converting a frame between timezone-aware and timezone-agnostic keeps each value at its wall time (or universal time if asked for) with the documented treatment of clock-change hours.",
  ["inputs"], "all frames and timezones", "timezone database and calendar values", [T + "tzone.py"], [("force_aware, force_agnostic", T + "tzone.py")])
p("N04", "Mapping to another year aligns weekdays, holidays and clock changes",
  "Each target day gets the values of a source day of the same month and of the same weekday or holiday type, where possible.",
  ["inputs"], "all years and countries", "calendar and holiday data", [T + "changeyear.py"], [("characterize_index", T + "changeyear.py")])
p("N05", "Frequency guessing recovers the true frequency of an index",
  "For gapless data of an allowed frequency, standardizing finds that frequency, and data with gaps is rejected.",
  ["inputs"], "all indices", "value-dependent inference in pandas", [T + "freq.py", T + "standardize.py"], [("guess_to_index", T + "freq.py")])
p("N07", "Printed and plotted output shows the correct values",
  "Every number that is printed or drawn is the value of the portfolio object at the timestamp it is shown for.",
  ["inputs"], "all objects", "rendering by third-party code", [PL + "text.py", PL + "plot.py", T + "visualize/plot.py"], [("text and plot mixins", PL + "text.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
