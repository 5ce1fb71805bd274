R = {}
T = "portfolyo/tools/testing.py"
S = "portfolyo/tools/standardize.py"
P = "portfolyo/tools/peakfn.py"
O = "portfolyo/tools/round.py"
B = "portfolyo/tools/isboundary.py"
D = "portfolyo/tools/duration.py"
PR = "portfolyo/tools/product.py"
SD = "portfolyo/tools/startofday.py"
LR = "portfolyo/tools/leftandright.py"

R["testing_bodies"] = [
    (T, '''    left = left.sort_index(axis=1)
    right = right.sort_index(axis=1)
    assert set(left.columns) == set(right.columns)

    for (coll, sl), (colr, sr) in zip(left.items(), right.items()):
        # Names must match.
        assert coll == colr
        # Series must match.
        assert_series_equal(sl, sr, *args, **kwargs)
''', '''    columns = sorted(left.columns)
    if columns != sorted(right.columns):
        raise AssertionError("Frames have distinct columns.")

    for col in columns:
        assert_series_equal(left[col], right[col], *args, **kwargs)
'''),
    (T, '''    leftm = leftm.replace([np.inf, -np.inf], np.nan)
    rightm = rightm.replace([np.inf, -np.inf], np.nan)
    pd.testing.assert_series_equal(leftm, rightm, *args, **kwargs)

    # Units must be the same.
    if leftu is None:
        assert leftu is rightu
    elif isinstance(leftu, pint.Unit):  # all values share the same unit, leftu is Unit
        assert leftu == rightu
    else:  # each value has its own unit; leftu is Series
        pd.testing.assert_series_equal(leftu, rightu)
''', '''    magnitudes = [m.replace([np.inf, -np.inf], np.nan) for m in (leftm, rightm)]
    pd.testing.assert_series_equal(*magnitudes, *args, **kwargs)

    # Units must be the same.
    if leftu is None or isinstance(leftu, pint.Unit):
        if not (leftu is rightu or leftu == rightu):
            raise AssertionError(f"Units are distinct; {leftu} and {rightu}.")
        return
    # each value has its own unit; leftu is Series
    pd.testing.assert_series_equal(leftu, rightu)
'''),
]

R["standard_bodies"] = [
    (S, '''        if any(
            not_ok := [ts.minute not in (0, 15, 30, 45) or ts.second != 0 for ts in i]
        ):
''', '''        not_ok = [ts.minute % 15 != 0 or ts.second != 0 for ts in i]
        if any(not_ok):
'''),
    (S, '''        if not __right:
            start = i[0]
            end = tools_right.stamp(i[-1], i.freq)
        else:
            start = tools_righttoleft.index(i)[0]
            end = i[-1]
        if start.time() != end.time():
''', '''        if __right:
            start, end = tools_righttoleft.index(i)[0], i[-1]
        else:
            start, end = i[0], tools_right.index(i)[-1]
        if not start.time() == end.time():
'''),
    (S, '''        if not len(times := set(i.time)) == 1:
''', '''        times = {ts.time() for ts in i}
        if len(times) > 1:
'''),
    (S, '''    if not len(i):
''', '''    if len(i) == 0:
'''),
]

R["peak_bodies"] = [
    (P, '''    weekday_count = sum(wd in isoweekdays for wd in (1, 2, 3, 4, 5, 6, 7))
    must_check_date = 0 < weekday_count < 7
''', '''    weekday_count = len([wd for wd in range(1, 8) if wd in isoweekdays])
    must_check_date = weekday_count not in (0, 7)
'''),
    (P, '''    if not must_check_time:
        longest_freq = "D"
    elif peak_left.minute == 0 and peak_right.minute == 0:
        longest_freq = "h"
    elif peak_left.minute % 15 == 0 and peak_right.minute % 15 == 0:
        longest_freq = "15min"
    else:
        raise ValueError(
            f"Input specifies times that are not 'round' quarter-hours; got {peak_left} and {peak_right}."
        )

    def filter_date(i: pd.DatetimeIndex) -> np.ndarray:
        return i.map(lambda ts: ts.isoweekday() in isoweekdays).values.astype(bool)
''', '''    minutes = [t.minute for t in (peak_left, peak_right)]
    if any(m % 15 for m in minutes):
        raise ValueError(
            f"Input specifies times that are not 'round' quarter-hours; got {peak_left} and {peak_right}."
        )
    longest_freq = "15min" if any(minutes) else "h"
    if not must_check_time:
        longest_freq = "D"

    def filter_date(i: pd.DatetimeIndex) -> np.ndarray:
        return np.array([ts.isoweekday() in isoweekdays for ts in i])
'''),
    (P, '''        mask = True
        if must_check_time:
            mask &= filter_time(i)
        if must_check_date:
            mask &= filter_date(i)
        return pd.Series(mask, i)
''', '''        filters = []
        if must_check_time:
            filters.append(filter_time)
        if must_check_date:
            filters.append(filter_date)
        mask = filters[0](i)
        for fn in filters[1:]:
            mask = mask & fn(i)
        return pd.Series(mask, index=i)
'''),
]

R["round_bodies"] = [
    (O, '''    if start_of_day is None:
        start_of_day = dt.time(0, 0)

    if tools_isboundary''', '''    start_of_day = start_of_day or dt.time()

    if tools_isboundary'''),
    (O, '''        rounded = ts.replace(hour=start_of_day.hour, minute=start_of_day.minute).floor(
            "15min"
        )
        if part_of_prevday and fn == "floor":
            rounded -= tools_freq.to_offset("D")
        elif not part_of_prevday and fn == "ceil":
            rounded += tools_freq.to_offset("D")
''', '''        rounded = ts.replace(
            hour=start_of_day.hour, minute=start_of_day.minute, second=0, microsecond=0
        )
        if fn == "floor":
            days = -1 if part_of_prevday else 0
        else:
            days = 0 if part_of_prevday else 1
        if days != 0:
            rounded = rounded + days * tools_freq.to_offset("D")
'''),
    (O, '''    elif fn == "floor":
        return rounded + _offset(freq, -1)
    else:
        return rounded + _offset(freq, 1)
''', '''    return rounded + _offset(freq, -1 if fn == "floor" else 1)
'''),
    (B, '''    return (i.day == 1) & ((i.month - 1) % 3 == 0)
''', '''    return (i.day == 1) & (i.month % 3 == 1)
'''),
    (B, '''    elif freq == "MS":
        return (ts.time() == start_of_day) & is_month_start(ts)
    elif freq == "QS":
        return (ts.time() == start_of_day) & is_quarter_start(ts)
    elif freq == "YS":
        return (ts.time() == start_of_day) & is_year_start(ts)
''', '''    elif freq in ("MS", "QS", "YS"):
        if ts.time() != start_of_day:
            return False
        return is_X_start(ts, freq)
'''),
]

R["product_bodies"] = [
    (PR, '''        if ts_left.month % 2 == 1:  # season must start on even month
            ts_left = tools_right.stamp(ts_left, "QS")
            ts_right = tools_right.stamp(ts_right, "QS")
''', '''        if ts_left.month not in (4, 10):  # season must start in april or october
            ts_left, ts_right = (
                tools_right.stamp(ts, "QS") for ts in (ts_left, ts_right)
            )
'''),
    (SD, '''    for _ in range(0, 100):  # max 100 quarterhours in a day (@ end of DST)
        if i[0].time() == start_of_day:
            break
        i = i[1:]
    else:
        raise ValueError("Did not find any timestamp with correct time at index start.")
''', '''    for n in range(100):  # max 100 quarterhours in a day (@ end of DST)
        if i[n].time() == start_of_day:
            i = i[n:]
            break
    else:
        raise ValueError("Did not find any timestamp with correct time at index start.")
'''),
    (LR, '''        if tools_isboundary.stamp(right, "YS", start_of_day):
            back = -1
        else:
            back = 0
        left = tools_floor''', '''        back = -1 if tools_isboundary.stamp(right, "YS", start_of_day) else 0
        left = tools_floor'''),
    (LR, '''    if left > right:
        left, right = right, left

    return left, right
''', '''    return min(left, right), max(left, right)
'''),
    (D, '''    if freq in ["15min", "h"]:
        h = 1.0 if freq == "h" else 0.25
''', '''    fixed = {"15min": 0.25, "h": 1.0}
    if freq in fixed:
        h = fixed[freq]
'''),
]
