import importlib.util as _u, pathlib as _p
_s = _u.spec_from_file_location("batch1", _p.Path(__file__).with_name("batch1.py")); _m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD, BUGS = _m.HEAD, {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(property=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)

ST = "portfolyo/tools/standardize.py"
TZ = "portfolyo/tools/tzone.py"

bug("standard_right_floating", "S01", [(ST, 'return frame(fr_left, force, "left", tz=tz, floating=floating)', 'return frame(fr_left, force, tz=tz)')], '''
i = pd.date_range("2024-03-01 01:00", periods=48, freq="h", tz="Asia/Tokyo")
s = pd.Series(range(48), i)
got = tools.standardize.frame(s, "aware", "right", tz="Europe/Berlin", floating=False)
want = (i - pd.Timedelta(hours=1)).tz_convert("Europe/Berlin")
need(list(got.index) == list(want), "right-bound, keep universal time")
''', "right-bound data that is converted to another timezone while keeping universal time", "wall time is kept instead of universal time")

bug("tzone_same_offset", "S01", [(TZ, 'if fr.index.tz == tz:', 'if fr.index.tz == tz or floating and fr.index[0].utcoffset() == fr.index[0].tz_convert(tz).utcoffset():')], '''
i = pd.date_range("2024-01-01", periods=5, freq="MS", tz="Europe/Berlin")
s = pd.Series(range(5), i)
got = pf.force_aware(s, "Africa/Lagos")
need(str(got.index.tz) == "Africa/Lagos", "timezone of result")
''', "conversion between timezones that have the same offset at the first timestamp", "the data stays in the wrong timezone")

bug("standard_naive_tz", "S01", [(ST, 'if not freq_input and not tz_input and tz:', 'if not freq_input and not tz_input and tz and force:')], '''
i = pd.date_range("2024-10-26", "2024-10-29", freq="h", inclusive="left", tz="Europe/Berlin").tz_localize(None)
s = pd.Series(range(len(i)), i)
got = tools.standardize.frame(s, tz="Europe/Berlin")
need(got.index.freq == "h" and got.index.tz is None and len(got) == 72, "localize, standardize")
''', "data without timezone that has a clock change, no 'force' but a timezone to interpret it in", "data is rejected")

bug("standard_frame_fill", "S01", [(ST, '    # Fix timezone.\n', '    if bound != "left" or tz:\n        fr = fr.ffill()\n')], '''
i = pd.date_range("2024-03-01", periods=4, freq="D")
s = pd.Series([1.0, None, 3.0, 4.0], i)
got = tools.standardize.frame(s, "aware", tz="Europe/Berlin")
need(got.isna().tolist() == [False, True, False, False], "missing value stays missing")
''', "missing values in data that is localized", "missing values are invented")
