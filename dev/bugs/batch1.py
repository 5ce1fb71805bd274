HEAD = '''
import sys
import numpy as np, pandas as pd
import portfolyo as pf
from portfolyo import tools
def idx(start="2024-01-01", end="2024-03-01", freq="h", tz="Europe/Berlin"):
    return pd.date_range(start, end, freq=freq, tz=tz, inclusive="left")
def ser(i, unit, lo=1.0):
    return pd.Series(lo + np.arange(len(i)) % 7, i).astype(f"pint[{unit}]")
def vol(i, lo=1.0): return pf.PfLine({"q": ser(i, "MWh", lo)})
def pri(i, lo=30.0): return pf.PfLine({"p": ser(i, "Eur/MWh", lo)})
def full(i, lo=1.0, plo=30.0): return pf.PfLine({"q": ser(i, "MWh", lo), "p": ser(i, "Eur/MWh", plo)})
def need(ok, what):
    if not ok:
        print("WRONG:", what); sys.exit(1)
'''
BUGS = {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(property=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)

bug("slice_sod", "A11", [("portfolyo/core/pfline/flat_methods.py", "            mask &= self.pfl.index < arg.stop",
 '            mask &= self.pfl.index.floor("D") < arg.stop')], '''
i = pd.date_range("2024-01-01 06:00", "2024-01-11 06:00", freq="D", inclusive="left", tz="Europe/Berlin")
l = vol(i)
x = i[4]
need((l.slice[:x].index == i[:4]).all() if len(l.slice[:x].index) == 4 else False, "right-open")
need((l.slice[x:].index == i[4:]).all(), "from x")
''', "start-of-day that is not midnight, or hourly values and a slice end within a day", "the period that starts at x is in slice[:x] as well as in slice[x:]")

bug("eq_rtol", "A12", [("portfolyo/core/pfline/flat_methods.py", "tools.testing.assert_frame_equal(self.df, other.df, rtol=1e-7)",
 "tools.testing.assert_frame_equal(self.df, other.df, check_freq=False, check_index_type=False, rtol=1e-3)")], '''
i = idx()
a = pri(i); b = a * 1.0005
need(a == a * 1.0, "equal to itself"); need(not (a == b), "different values are not equal")
''', "values that differ by less than a tenth of a percent", "lines with different values compare as equal")

bug("state_add_abs", "B02", [("portfolyo/core/pfstate/arithmatic.py",
 '        weights = pd.DataFrame({"s": pfs1.unsourced.q, "o": pfs2.unsourced.q})',
 '        # only the size of the open volume matters, not its direction\n        weights = pd.DataFrame({"s": pfs1.unsourced.q, "o": pfs2.unsourced.q}).abs()')], '''
i = idx(freq="MS", end="2024-07-01")
p1, p2 = pri(i), pri(i, 80.0)
a = pf.PfState(-vol(i, 10.0), p1, full(i)); b = pf.PfState(-vol(i, 1.0), p2, full(i, 50.0))
c = a + b
u = a.unsourced + b.unsourced
need(np.allclose(c.unsourcedprice.p.pint.m, (u.r / u.q).pint.m), "price of summed state")
''', "one state is short and the other one is oversourced", "the unsourced price of the sum is not weighted with the signed unsourced volumes")

bug("inop_nan_price", "A06", [("portfolyo/core/pfline/interop.py",
 '''            mask = np.isclose(q.pint.m, 0) & (p.isna() | np.isinf(p.pint.m))
            if mask.any():''',
 '''            mask = p.isna() | np.isinf(p.pint.m)
            if mask.any():'''),
 ("portfolyo/core/pfline/interop.py", "            ign1 = np.isclose(q.pint.m, 0) & (p.isna() | np.isinf(p.pint.m))\n            ign2",
  "            ign1 = p.isna() | np.isinf(p.pint.m)\n            ign2")], '''
i = idx(freq="MS", end="2024-07-01")
q = ser(i, "MWh"); p = ser(i, "Eur/MWh")
p.iloc[2] = np.nan
try:
    l = pf.PfLine({"q": q, "p": p})
except ValueError:
    sys.exit(0)
need(np.isnan(l.r.pint.m.iloc[2]), "revenue at missing price")
''', "a missing price at a timestamp with volume", "a missing price gives revenue 0 instead of missing revenue")

bug("quarter_months", "F01", [("portfolyo/tools/freq.py",
 "        group_by_month_beginn = (\n            freq_source_as_offset.startingMonth", "        group_by_month_beginn = abs(\n            freq_source_as_offset.startingMonth"),
 ("portfolyo/tools/freq.py", "            else freq_source_as_offset.month\n        ) % 3 == (\n            freq_target_as_offset.startingMonth", "            else freq_source_as_offset.month\n        ) + (-1) * (\n            freq_target_as_offset.startingMonth"),
 ("portfolyo/tools/freq.py", "            else freq_target_as_offset.month\n        ) % 3\n", "            else freq_target_as_offset.month\n        ) in (-6, -3, 0, 3, 6)\n")], '''
for a, b, w in (("QS", "QS-APR", 0), ("QS", "YS-OCT", -1), ("YS-OCT", "QS", 1), ("QS", "QS-OCT", 0)):
    need(tools.freq.up_or_down(a, b) == w, f"{a} {b}")
''', "frequencies whose first months are three quarters apart, like QS-JAN and YS-OCT", "frequencies that can be converted are said to be incompatible")

bug("cover_len", "B04", [("portfolyo/core/pfstate/pfstate_helper.py",
 "    if len(tools.intersect.indices(ref_idx, sourced.index)) < len(ref_idx):",
 "    if len(sourced.index) < len(ref_idx) or not len(tools.intersect.indices(ref_idx, sourced.index)):"),
 ("portfolyo/core/pfstate/pfstate_helper.py", "    return sourced.loc[ref_idx]", "    return sourced.slice[ref_idx[0] : ref_idx[-1] + ref_idx.freq]")], '''
i = idx(freq="MS", end="2024-07-01"); j = idx("2024-03-01", "2024-11-01", "MS")
try:
    s = pf.PfState(-vol(i), pri(i), full(j))
except ValueError:
    sys.exit(0)
need(False, "sourced part does not cover the offtake")
''', "sourced part at least as long as the offtake but starting later", "a state is created although the sourced part does not cover the offtake period")

bug("export_alias", "A13", [("portfolyo/core/pfline/dataframeexport.py",
 '        cols = cols or "wqpr"  # in case nothing was specified.\n        cols = [col',
 '        if cols is None and has_units:  # nothing was specified; no need to assemble\n            return self.df\n        cols = cols or "wqpr"\n        cols = [col')], '''
i = idx(freq="MS", end="2024-07-01")
l = full(i); d = l.dataframe(); d["q"] = d["q"] * 0
need(l == full(i), "line changed by editing the exported frame")
''', "exporting all columns of a flat line, followed by editing of the exported frame", "editing the frame that was exported changes the line")

bug("hedge_negative", "H01", [("portfolyo/tools/hedge.py", '        weights = df["p"] * df["duration"]', '        weights = df["p"].abs() * df["duration"]')], '''
i = idx("2024-03-01", "2024-04-01", "D")
w = pd.Series(np.linspace(1, 20, len(i)), i); p = pd.Series(np.linspace(90, -20, len(i)), i)
wo, po = tools.hedge.hedge(w, p, "val", None, "MS")
d = tools.duration.index(i).pint.m
need(np.isclose(wo.iloc[0], (w * p * d).sum() / (p * d).sum(), rtol=1e-9), "value hedge")
''', "value hedge in a period with negative and positive prices", "delivery periods with negative prices are weighted as if the price were positive, so the value is not kept")

bug("setchild_tz", "A04", [("portfolyo/tools/testing.py", "    if (lz := left.tz) != (rz := right.tz):", "    if str(lz := left.tz) != str(rz := right.tz) and lz is not None:")], '''
i = idx(tz=None, freq="D"); j = idx(freq="D")
try:
    x = vol(i).reindex(j)
except Exception as e:
    sys.exit(0)
need(False, "reindexing a timezone-agnostic line with a timezone-aware index must raise")
''', "left operand timezone-agnostic, right operand timezone-aware", "objects with and without timezone are considered compatible")

bug("downsample_minutes", "F03", [("portfolyo/tools/changefreq.py", '    offset = tools_startofday.get(s.index, "timedelta")\n    source_vs_daily = tools_freq.up_or_down(s.index.freq, "D")\n    target_vs_daily = tools_freq.up_or_down(freq, "D")\n\n    # We cannot',
  '    offset = pd.Timedelta(hours=tools_startofday.get(s.index).hour)\n    source_vs_daily = tools_freq.up_or_down(s.index.freq, "D")\n    target_vs_daily = tools_freq.up_or_down(freq, "D")\n\n    # We cannot')], '''
i = pd.date_range("2024-01-01 05:30", "2024-04-01 05:30", freq="15min", inclusive="left")
s = pd.Series(1.0, i)
r = tools.changefreq.summable(s, "MS")
need(list(r.values) == [31 * 96, 29 * 96, 31 * 96], "values"); need(r.index[0] == i[0], "start of day kept")
''', "quarterhourly timeseries with a start-of-day that is not at a full hour", "minutes of the start-of-day are lost when downsampling")

bug("concat_extra_child", "K01", [("portfolyo/tools2/concat.py", "        diffs = set(child_names) ^ set(", "        diffs = set(child_names) - set(")], '''
i, j = idx("2024-01-01", "2024-03-01", "MS"), idx("2024-03-01", "2024-05-01", "MS")
a = pf.PfLine({"x": vol(i), "y": vol(i)})
b = pf.PfLine({"x": vol(j), "y": vol(j), "z": vol(j)})
try:
    pf.concat([a, b])
except Exception as e:
    sys.exit(0)
need(False, "child z silently dropped")
''', "later lines have more children than the first one", "children that are missing in the first line are silently dropped")

bug("child_price", "A05", [("portfolyo/core/pfline/nested_methods.py", "        newchildren = {name: child.slice[arg] for name, child in self.pfl.items()}\n",
  "        newchildren = {name: child.slice[arg] for name, child in self.pfl.items() if child}\n        newchildren = newchildren or {name: child.slice[arg] for name, child in self.pfl.items()}\n")], '''
i = idx(freq="D")
l = pf.PfLine({"a": vol(i), "b": vol(i) * 0})
need(list(l.slice["2024-01-05":]) == ["a", "b"], "children kept")
''', "a child that only contains zeroes", "children that are zero disappear when slicing")
