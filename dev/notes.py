"""Technique and assurance notes per property, for the manifest."""
_AI = "abstract interpretation of the Python source (global value numbering, unit and index-set domains) against a specification table"
_AIN = ("Sound up to the models of the pandas/pint functions used (sa/lib.py, sa/pdlib.py), which are trusted; "
        "holds for all values and lengths within the enumerated operand kinds and structures (children up to two levels). "
        "Paths the analysis cannot follow precisely get no verdict; none on the pinned tree. ")
TECH = {p: _AI for p in [f"A{n:02d}" for n in range(1, 14)] + [f"B{n:02d}" for n in range(1, 5)] + ["F03", "H01", "H02", "I01", "K01", "P01", "P02", "S01", "W01", "X01", "Y01"]}
TECH.update({p: "exhaustive constant propagation of the frequency functions over the finite domain of frequency names (AST interpreter), against an independent table" for p in ("F01", "F02")})
NOTE = {i: _AIN for i in TECH}
_GA = {
    "G01": "flow-sensitive interprocedural alias and mutation analysis over the whole package",
    "G02": "interprocedural taint analysis (set order, clock, chance, hash) over the whole package",
    "G03": "interprocedural effect analysis with global roots over the whole package",
    "G04": "interprocedural strong-liveness analysis of parameters, and argument-forwarding rules on the call graph",
    "G05": "path-sensitive definite-assignment analysis, name/attribute resolution and signature matching over the whole package",
    "G06": "path-sensitive exit analysis of every function, with rules for discarded results and swallowed errors",
}
TECH.update(_GA)
NOTE.update({i: "All functions and paths of the current source. Relies on a table of which library methods alias, mutate or exist; calls on receivers of unknown type get no verdict. " for i in _GA})
NA = {
    "N01": "a numerical identity up to rounding over pandas resampling; the formulas used are decided under F03 and A09, the rounding and pandas behaviour across clock changes is outside any static argument in reach",
    "N03": "quantifies over timezone database transitions and pandas localisation behaviour, which the source does not contain",
    "N04": "which source day is chosen for a target day is the outcome of a search over calendars and holiday tables at runtime, which nothing in the source bounds; what happens with the chosen days is decided under Y01",
    "N05": "the outcome is decided inside pandas.infer_freq, from the data at runtime",
    "N07": "quantifies over rendered text and pictures; static analysis can follow the data no further than the formatting or matplotlib call",
}
