import importlib.util as _u, pathlib as _p
_s = _u.spec_from_file_location("batch1", _p.Path(__file__).with_name("batch1.py")); _m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD, BUGS = _m.HEAD, {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(property=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)

RO = "portfolyo/tools/round.py"
PK = "portfolyo/tools/peakfn.py"
ST = "portfolyo/tools/standardize.py"

bug("floor_halfhour", "P01", [(RO, '''.floor(
            "15min"
        )''', '''.floor(
            "h"
        )''')], '''
import datetime as dt
t = pd.Timestamp("2024-03-12 14:20", tz="Europe/Berlin")
need(tools.floor.stamp(t, "D", 0, dt.time(5, 30)) == pd.Timestamp("2024-03-12 05:30", tz="Europe/Berlin"), "floor")
need(tools.ceil.stamp(t, "MS", 0, dt.time(5, 45)) == pd.Timestamp("2024-04-01 05:45", tz="Europe/Berlin"), "ceil")
''', "a start of day that is not at a full hour", "rounding to days or longer periods gives a timestamp that is not at the start of a day")

bug("peak_delivery_day", "P02", [(PK, "lambda ts: ts.isoweekday() in isoweekdays", "lambda ts: (ts - (i[0] - i[0].floor('D'))).isoweekday() in isoweekdays")], '''
import datetime as dt
f = pf.create_peakfn(dt.time(0), dt.time(12), [1, 2, 3, 4, 5])
i = pd.date_range("2024-01-05 06:00", "2024-01-10 06:00", freq="h", inclusive="left")
got = f(i)
want = [t.isoweekday() < 6 and t.hour < 12 for t in i]
need(list(got.values) == want, "peak hours of index that starts at 06:00")
''', "an index whose days do not start at midnight, and peak hours before that time of day", "the wrong hours are peak hours")

bug("full_days_hour", "A10", [(ST, "if start.time() != end.time():", "if start.hour != end.hour:")], '''
i = pd.date_range("2024-01-01", "2024-01-03 00:45", freq="15min", tz="Europe/Berlin", inclusive="left")
try:
    pf.PfLine({"w": pd.Series(1.0, i)})
    bad = True
except ValueError:
    bad = False
need(not bad, "line with part of a day")
need(len(pf.PfLine({"w": pd.Series(1.0, i[:-3])}).index) == 192, "line with full days")
''', "quarterhourly data whose last value is 15, 30 or 45 minutes after the start of the day", "data with a partial day is accepted")

bug("concat_names_set", "G02", [("portfolyo/tools2/concat.py", "    child_names = sorted_pfls[0].children.keys()", "    child_names = set(sorted_pfls[0].children)")], '''
import os, subprocess
i, j = idx("2024-01-01", "2024-04-01", "MS"), idx("2024-04-01", "2024-08-01", "MS")
names = ["spot", "forward", "own", "swap", "option"]
a, b = (pf.PfLine({n: vol(x, float(k)) for k, n in enumerate(names)}) for x in (i, j))
got = list(pf.concat([a, b]).children)
if len(sys.argv) > 1:
    print("|".join(got))
    sys.exit()
outs = {subprocess.run([sys.executable, "-W", "ignore", __file__, "x"], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in (1, 2, 3)}
need(len(outs) == 1 and outs == {"|".join(names) + "\\n"}, f"children are in the same order on every run: {outs}")
''', "lines with several children, and another run of the interpreter (other hash seed)", "the order of the children of concatenated lines differs from run to run")

bug("duration_regular", "F02", [("portfolyo/tools/duration.py", "        h = (tools_right.index(i) - i).map(lambda td: td.total_seconds() / 3600)", '''        # All periods are equally long if the wall clock is not changed.
        h = (tools_right.index(i) - i).map(lambda td: td.total_seconds() / 3600)
        if i.tz is None and i.freq == "QS":
            h = h.max()''')], '''
i = pd.date_range("2024-01-01", periods=4, freq="QS")
need(list(tools.duration.index(i).pint.m) == [91 * 24, 91 * 24, 92 * 24, 92 * 24], "hours per quarter, no timezone")
''', "quarterly periods without a timezone", "the duration of short quarters is wrong")
