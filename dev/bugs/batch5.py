import importlib.util as _u, pathlib as _p
_s = _u.spec_from_file_location("batch1", _p.Path(__file__).with_name("batch1.py")); _m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD, BUGS = _m.HEAD, {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(property=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)
FR = "portfolyo/tools/frame.py"
bug("gaps_break", "X01", [(FR, "            continue\n        x0", "            break\n        x0")], '''
n = float("nan")
s = pd.Series([1, n, n, n, 5, n, 7.0], pd.date_range("2024-01-01", periods=7, freq="D"))
need(tools.frame.fill_gaps(s, 2).isna().sum() == 3, "short gap after a long one")
''', "a short gap after a gap that is too long", "later gaps are not filled")
bug("gaps_uneven", "X01", [(FR, "(section.index - x0) / dx * dy", "np.linspace(0, 1, len(section)) * dy")], '''
n = float("nan")
s = pd.Series([31, n, 91.0], pd.date_range("2023-01-01", periods=3, freq="MS"))
need(abs(tools.frame.fill_gaps(s).iloc[1] - (31 + 60 * 31 / 59)) < 1e-6, "linear in time")
''', "timestamps that are not equally far apart, like months", "values are interpolated by position instead of time")
