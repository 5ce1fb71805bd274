import importlib.util as _u, pathlib as _p
_s = _u.spec_from_file_location("batch1", _p.Path(__file__).with_name("batch1.py")); _m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD, BUGS = _m.HEAD, {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(property=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)

AR = "portfolyo/core/pfline/arithmatic.py"
PS = "portfolyo/core/pfstate/pfstate.py"
CL = "portfolyo/core/pfline/classes.py"

bug("add_zero_rows", "A01", [(AR, "np.allclose(other.values, 0.0):\n                    return pfl", "np.isclose(other.values, 0.0).any():\n                    return pfl")], '''
i = idx(freq="MS", end="2024-07-01")
a = vol(i)
s = pd.Series([0.0, 5, 5, 5, 5, 5], i)
try:
    (a | pri(i)) + s
    bad = True
except Exception:
    bad = False
need(not bad, "adding numbers other than zero raises an error")
s2 = pd.Series([0.0, 5, 5, 5, 5, 5], i).astype("pint[dimensionless]")
try:
    a - s2
    bad = True
except Exception:
    bad = False
need(not bad, "subtracting numbers other than zero raises an error")
''', "a series of plain numbers, of which only some are zero, as the other operand", "adding or subtracting dimensionless numbers returns the line instead of raising an error")

bug("add_price_abs", "A02", [(AR, 'weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})', 'weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q}).abs()')], '''
i = idx(freq="MS", end="2024-07-01")
a, b = full(i, 10.0, 30.0), -full(i, 2.0, 80.0)
c = a + b
need(np.allclose(c.p.pint.m, (c.r / c.q).pint.m), "price is revenue over energy")
''', "complete lines with volumes of opposite sign", "the price of the sum is not total revenue over total energy")

bug("set_pu_offtake", "B03", [(PS, "        return PfState(self.offtake.volume, unsourcedprice, self.sourced)", "        sourced = self.sourced.flatten()  # only the totals are needed to value the portfolio\n        return PfState(self.offtake.volume, unsourcedprice, sourced)")], '''
i = idx(freq="MS", end="2024-07-01")
s = pf.PfState(-vol(i, 10.0), pri(i), pf.PfLine({"fwd": full(i), "spot": full(i, 2.0)}))
t = s.set_unsourcedprice(pri(i, 99.0))
need(t.sourced == s.sourced, "sourced part left alone")
''', "a state whose sourced part has children", "setting the unsourced prices drops the children of the sourced part")

bug("end_regular", "A07", [(CL, "        return tools.right.index(self.df.index)[-1]", "        # the last period is as long as the one before it\n        i = self.df.index\n        return i[-1] + (i[-1] - i[-2]) if len(i) > 1 else tools.right.index(i)[-1]")], '''
i = idx("2024-01-01", "2024-03-01", "MS")
need(vol(i).end == pd.Timestamp("2024-03-01", tz="Europe/Berlin"), "end of line in months")
i = idx("2024-03-28", "2024-04-01", "D")
need(vol(i).end == pd.Timestamp("2024-04-01", tz="Europe/Berlin"), "end of line in days")
''', "periods of unequal length at the end of the line", "end is not the right bound of the last period")

bug("revenue_children_freq", "A09", [(CL, "        newchildren = {name: child.asfreq(freq) for name, child in self.items()}\n        return NestedRevenuePfLine(newchildren)", "        newchildren = {name: child.asfreq() for name, child in self.items()}\n        return NestedRevenuePfLine(newchildren)")], '''
i = idx("2024-01-01", "2025-01-01", "D")
l = pf.PfLine({"a": full(i).revenue, "b": full(i, 2.0).revenue})
need(l.asfreq("QS").index.freq == "QS", "revenues per quarter")
need(len(l.asfreq("YS").index) == 1, "revenues per year")
''', "nested revenue lines and a frequency other than months", "the requested frequency is ignored for children with revenues")


bug("year_no_tz", "Y01", [("portfolyo/tools/changeyear.py", "    if (tz1 := idx_source.tz) != (tz2 := idx_target.tz):", "    if (tz1 := idx_source.tz) != (tz2 := idx_target.tz) and None not in (tz1, tz2):")], '''
from portfolyo.tools import changeyear
a = idx("2024-01-01", "2025-01-01", "MS"); b = idx("2025-01-01", "2026-01-01", "MS", tz=None)
for x, y in ((a, b), (b, a)):
    try:
        changeyear.map_frame_to_index(pd.Series(1.0, x), y)
        bad = True
    except ValueError:
        bad = False
    need(not bad, "different timezones raise an error")
''', "one index with and one without timezone", "source and target that differ in timezone are mapped onto each other")

bug("year_partial", "Y01", [("portfolyo/tools/changeyear.py", "delta_years = end.year - start.year", "delta_years = idx_source[-1].year - start.year")], '''
from portfolyo.tools import changeyear
i = idx("2024-01-01", "2025-01-01", "MS")
j = changeyear.index_with_year(i, 2026)
need(len(j) == 12 and (j.year == 2026).all(), "a full year")
''', "data that ends at the end of a year", "the target index is empty or a year too short") 

bug("child_holidays", "Y01", [("portfolyo/tools2/changeyear.py", "name: map_to_year(child, year, holiday_country)", "name: map_to_year(child, year)")], '''
i = idx("2024-01-01", "2025-01-01", "D")
v = pf.PfLine(pd.DataFrame({"q": ser(i, "MWh")}))
v = pf.PfLine({"q": pd.Series(np.arange(len(i)) * 1.0, i).astype("pint[MWh]")})
n = pf.PfLine({"a": v})
need(np.allclose(pf.map_to_year(n, 2025, "DE")["a"].q.pint.m, pf.map_to_year(v, 2025, "DE").q.pint.m), "children use the holidays")
''', "a nested line and a holiday country", "children are mapped without the holidays")

bug("order_of_children", "G02", [(AR, "        for name in {**pfl1, **pfl2}:  # keep order", "        for name in set(pfl1) | set(pfl2):")], '''
import subprocess, os
if len(sys.argv) > 1:
    i = idx(freq="MS", end="2024-07-01")
    a = pf.PfLine({n: vol(i) for n in "abcdef"}); b = pf.PfLine({n: vol(i) for n in "efghij"})
    print("NAMES", list(a + b)); sys.exit(0)
outs = set()
for seed in "1234":
    o = subprocess.run([sys.executable, "-W", "ignore", __file__, "x"], env={**os.environ, "PYTHONHASHSEED": seed}, capture_output=True, text=True).stdout
    outs.add(o)
need(len(outs) == 1 and "NAMES" in o, "same order of children in every run")
''', "several runs with different hash seeds", "the order of the children of a sum differs between runs")

bug("sort_in_place", "G01", [("portfolyo/tools2/concat.py", "    sorted_pfls = sorted(pfls, key=lambda pfl: pfl.index[0])", "    sorted_pfls = list(pfls) if not isinstance(pfls, list) else pfls\n    sorted_pfls.sort(key=lambda pfl: pfl.index[0])")], '''
i, j = idx("2024-01-01", "2024-04-01", "MS"), idx("2024-04-01", "2024-07-01", "MS")
a, b = vol(i), vol(j)
l = [b, a]
pf.concat(l) if hasattr(pf, "concat") else pf.concat_pflines(l)
need(l[0] is b and l[1] is a, "list of the caller is left alone")
''', "a list of lines that is not in chronological order", "the list of the caller is sorted")


bug("source_peak", "G04", [(PS, "        tosource = self.hedge_of_unsourced(how, peak_fn, freq)", "        tosource = self.hedge_of_unsourced(how, freq=freq)")], '''
i = idx("2024-01-01", "2024-03-01", "h")
s = pf.PfState(-vol(i, 10.0), pri(i), None)
p = pf.germanpower_peakfn
t = s.source_unsourced("vol", p, "MS"); h = s.hedge_of_unsourced("vol", p, "MS")
need(np.allclose(t.sourced.q.pint.m, h.q.pint.m), "sourced with peak and offpeak products")
''', "sourcing with peak products", "the peak function is ignored")

bug("stamp_fallthrough", "F02", [("portfolyo/tools/duration.py", '    if i.freq in ["15min", "h"]:\n        # Speed', '    if i.freq in ["15min", "h"] or i.tz is None and i.freq == "D":\n        # Speed'), ("portfolyo/tools/duration.py", '        h = 1.0 if i.freq == "h" else 0.25\n    else:\n        # Individual', '        h = {"15min": 0.25, "h": 1.0}.get(i.freq.freqstr, 1.0)\n    else:\n        # Individual')], '''
i = idx("2024-01-01", "2024-01-10", "D", tz=None)
need((tools.duration.index(i).pint.m == 24).all(), "days without timezone have 24 hours")
''', "daily values without timezone", "days have the duration of an hour")

bug("po_mode", "H02", [("portfolyo/tools/peakconvert.py", "        df = complete_bpoframe(df, peak_fn, is_summable)", "        df = complete_bpoframe(df, peak_fn)")], '''
i = idx("2024-01-01", "2024-07-01", "MS")
df = pd.DataFrame({"base": 100.0, "peak": 40.0}, i)
s = tools.peakconvert.poframe2tseries(df, pf.germanpower_peakfn, "h", True)
need(np.allclose(s.resample("MS").sum(), 100.0), "monthly totals are kept")
''', "summable values of which only base and peak are given", "missing offpeak values are calculated as if they were averages")

bug("unknown_name", "G05", [("portfolyo/core/pfline/children.py", """f"Portfolio line does not have child with name '{name}'."\n                f" Names""", """f"{self.name} does not have child with name '{name}'."\n                f" Names""")], '''
i = idx(freq="MS", end="2024-07-01")
n = pf.PfLine({"a": vol(i)})
try:
    n["b"]
    ok = False
except KeyError:
    ok = True
except AttributeError:
    ok = False
need(ok, "unknown child raises KeyError")
''', "asking for a child that does not exist", "the error path fails on a missing attribute")

bug("startofday_none", "G06", [("portfolyo/tools/startofday.py", """    raise ValueError(
        f"Unknown value for parameter 'returntype'. Expected one of {'time', 'str', 'timedelta'}, got {returntype}."
    )
""", "")], '''
try:
    x = tools.startofday.get(idx(), "delta")
    bad = True
except ValueError:
    bad = False
need(not bad, "unknown return type raises an error")
''', "an unknown return type", "None is returned for an unknown option")

bug("flex_name", "I01", [("portfolyo/tools/intersect.py", "                name=name[i],", "                name=name[0],")], '''
a, b = idx("2024-01-01", "2024-01-05", "D").rename("left"), idx("2024-01-03", "2024-01-09", "D").rename("right")
x, y = tools.intersect.indices_flex(a, b)
need(x.name == "left" and y.name == "right" and len(x) == len(y) == 2, "otherwise unchanged")
''', "indices with different names", "the second index gets the name of the first one")


WA = "portfolyo/tools/wavg.py"

bug("wavg_must_compare", "W01", [(WA, "if must_compare.any():", "if must_compare.all():")], '''
from portfolyo.tools import wavg
df = pd.DataFrame({"a": [1.0, 1.0], "b": [1.0, 1.0], "c": [2.0, 3.0]})
w = pd.DataFrame({"a": [1.0, 1.0], "b": [1.0, -1.0], "c": [-2.0, 0.0]})
r = wavg.dataframe(df, w, axis=1)
need(np.isnan(r.iloc[0]) and r.iloc[1] == 1.0, f"weighted average of rows with weights that sum to 0: {list(r)}")
''', "several rows whose weights sum to 0, with weights that are 0 in only some of the rows", "an average is given for a row whose values differ, though its weights sum to 0")

bug("wavg_sorted", "W01", [(WA, "    result = result.loc[refindex]\n", "    result = result.sort_index()\n")], '''
from portfolyo.tools import wavg
df = pd.DataFrame({"b": [1.0, 3.0], "a": [10.0, 20.0]})
r = wavg.dataframe(df, [1.0, 3.0], axis=0)
need(list(r.index) == ["b", "a"] and list(r) == [2.5, 17.5], f"average of each column, in the order of the columns: {list(r.items())}")
''', "columns (or rows) whose labels are not sorted", "the averages of the columns come back in another order")
