"""More behaviour-preserving edits (see specs.py)."""
T = "portfolyo/tools/"
CL = "portfolyo/core/pfline/classes.py"
FM = "portfolyo/core/pfline/flat_methods.py"
NM = "portfolyo/core/pfline/nested_methods.py"
CH = "portfolyo/core/pfline/children.py"
DX = "portfolyo/core/pfline/dataframeexport.py"
CR = "portfolyo/core/pfline/create.py"
PS = "portfolyo/core/pfstate/pfstate.py"
PA = "portfolyo/core/pfstate/arithmatic.py"
PH = "portfolyo/core/pfstate/pfstate_helper.py"
R = {}
R["freq_tables"] = [
    (T + "freq.py", '''    # Custom handling for specific simple frequencies
    if isinstance(offset, pd.tseries.offsets.Minute) and offset.n == 15:
        return pd.Timedelta(minutes=15)
    elif isinstance(offset, pd.tseries.offsets.Hour) and offset.n == 1:
        return pd.Timedelta(hours=1)
    elif isinstance(offset, pd.tseries.offsets.Day) and offset.n == 1:
        return pd.DateOffset(days=1)
    elif isinstance(offset, pd.tseries.offsets.MonthBegin) and offset.n == 1:
        return pd.DateOffset(months=1)
    elif isinstance(offset, pd.tseries.offsets.QuarterBegin) and offset.n == 1:
        return pd.DateOffset(months=3)
    elif isinstance(offset, pd.tseries.offsets.YearBegin) and offset.n == 1:
        return pd.DateOffset(years=1)
    else:
        raise ValueError(
            f"Parameter ``freq`` must be one of {ALLOWED_FREQUENCIES_DOCS}; got '{freq}'."
        )
''', '''    # Custom handling for specific simple frequencies
    known = [
        (pd.tseries.offsets.Minute, 15, pd.Timedelta(minutes=15)),
        (pd.tseries.offsets.Hour, 1, pd.Timedelta(hours=1)),
        (pd.tseries.offsets.Day, 1, pd.DateOffset(days=1)),
        (pd.tseries.offsets.MonthBegin, 1, pd.DateOffset(months=1)),
        (pd.tseries.offsets.QuarterBegin, 1, pd.DateOffset(months=3)),
        (pd.tseries.offsets.YearBegin, 1, pd.DateOffset(years=1)),
    ]
    for offset_class, number, result in known:
        if isinstance(offset, offset_class) and offset.n == number:
            return result
    raise ValueError(
        f"Parameter ``freq`` must be one of {ALLOWED_FREQUENCIES_DOCS}; got '{freq}'."
    )
'''),
    (T + "freq.py", '''    if strict is True:
        if not (index_freq > index_ref):
            raise AssertionError(
                f"The passed frequency is not sufficiently long; passed {freq}, but should be {freq_ref} or longer."
            )
    else:
        if not (index_freq >= index_ref):
            raise AssertionError(
                f"The passed frequency is not sufficiently long; passed {freq}, but should be {freq_ref} or longer."
            )
''', '''    long_enough = index_freq > index_ref or (strict is not True and index_freq == index_ref)
    if not long_enough:
        raise AssertionError(
            f"The passed frequency is not sufficiently long; passed {freq}, but should be {freq_ref} or longer."
        )
'''),
    (T + "freq.py", '''        group_by_month_beginn = (
            freq_source_as_offset.startingMonth
            if source_index == 0
            else freq_source_as_offset.month
        ) % 3 == (
            freq_target_as_offset.startingMonth
            if target_index == 0
            else freq_target_as_offset.month
        ) % 3

        if group_by_month_beginn:
            if source_index > target_index:
                # we are in case AS and QS
                return 1
            elif source_index < target_index:
                # we are in the case QS and AS
                return -1
            elif source_index == 0:
                # we are in the case QS and QS
                return 0
''', '''        def first_month(offset, position):
            return offset.startingMonth if position == 0 else offset.month

        month_source = first_month(freq_source_as_offset, source_index)
        month_target = first_month(freq_target_as_offset, target_index)
        if month_source % 3 == month_target % 3:
            if source_index != target_index:
                # one is a quarter, the other a year
                return 1 if source_index > target_index else -1
            if source_index == 0:
                # we are in the case QS and QS
                return 0
'''),
    (T + "freq.py", '''    restricted_classes = {
        pd.tseries.offsets.YearBegin: 1,
        pd.tseries.offsets.QuarterBegin: 1,
        pd.tseries.offsets.MonthBegin: 1,
        pd.tseries.offsets.Day: 1,
        pd.tseries.offsets.Hour: 1,
        pd.tseries.offsets.Minute: 15,
    }
    allowed_n = restricted_classes.get(type(freq_offset))
    if allowed_n is not None:  # case where freq is not in restricted class
        # Check if freq_offset.n is not None and if it doesn't match allowed_n
        if freq_offset.n is None or freq_offset.n != allowed_n:
            raise ValueError(f"The passed frequency {freq} is not allowed.")
''', '''    allowed_n = 15 if isinstance(freq_offset, pd.tseries.offsets.Minute) else 1
    if freq_offset.n != allowed_n:
        raise ValueError(f"The passed frequency {freq} is not allowed.")
'''),
]
R["boundary_round"] = [
    (T + "isboundary.py", '''    if freq == "MS":
        return is_month_start(i)
    elif freq == "QS":
        return is_quarter_start(i)
    elif freq == "YS":
        return is_year_start(i)
    else:
        raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")


# TODO''', '''    checks = {"MS": is_month_start, "QS": is_quarter_start, "YS": is_year_start}
    for name, check in checks.items():
        if freq == name:
            return check(i)
    raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")


# TODO'''),
    (T + "isboundary.py", '''    return (i.day == 1) & ((i.month - 1) % 3 == 0)
''', '''    quarter_starts = (i.month % 3) == 1
    return quarter_starts & (i.day == 1)
'''),
    (T + "isboundary.py", '''    elif freq == "D":
        return ts.time() == start_of_day
    elif freq == "MS":
        return (ts.time() == start_of_day) & is_month_start(ts)
    elif freq == "QS":
        return (ts.time() == start_of_day) & is_quarter_start(ts)
    elif freq == "YS":
        return (ts.time() == start_of_day) & is_year_start(ts)
    else:
        raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
''', '''    correct_time = ts.time() == start_of_day
    if freq == "D":
        return correct_time
    if freq == "MS":
        return correct_time & is_month_start(ts)
    if freq == "QS":
        return correct_time & is_quarter_start(ts)
    if freq == "YS":
        return correct_time & is_year_start(ts)
    raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
'''),
    (T + "isboundary.py", '''        values = i.time == tools_startofday.get(i)
        # . Check day of X.
        if tools_freq.up_or_down(freq, "D") > 0:
            values &= is_X_start(i, freq)
''', '''        sod = tools_startofday.get(i)
        values = i.time == sod
        # . Check day of X.
        if tools_freq.up_or_down(freq, "D") == 1:
            values = values & is_X_start(i, freq)
'''),
    (T + "round.py", '''    if ts.time() == start_of_day:
        rounded = ts
    else:
        part_of_prevday = ts.time() < start_of_day
        rounded = ts.replace(hour=start_of_day.hour, minute=start_of_day.minute).floor(
            "15min"
        )
        if part_of_prevday and fn == "floor":
            rounded -= tools_freq.to_offset("D")
        elif not part_of_prevday and fn == "ceil":
            rounded += tools_freq.to_offset("D")
''', '''    rounded = _round_time(fn, ts, start_of_day)
'''),
    (T + "round.py", '''def _offset(freq: str, future: int):
''', '''def _round_time(fn: str, ts: pd.Timestamp, start_of_day: dt.time) -> pd.Timestamp:
    time_of_day = ts.time()
    if time_of_day == start_of_day:
        return ts
    rounded = ts.replace(hour=start_of_day.hour, minute=start_of_day.minute)
    rounded = rounded.floor("15min")
    if time_of_day < start_of_day:
        return rounded - tools_freq.to_offset("D") if fn == "floor" else rounded
    return rounded + tools_freq.to_offset("D") if fn == "ceil" else rounded


def _offset(freq: str, future: int):
'''),
    (T + "round.py", '''    elif fn == "floor":
        return rounded + _offset(freq, -1)
    else:
        return rounded + _offset(freq, 1)
''', '''    step = -1 if fn == "floor" else 1
    return rounded + _offset(freq, step)
'''),
    (T + "trim.py", '''    mask_start = i >= tools_ceil.stamp(i[0], freq, 0, start_of_day)
    i_right = tools_right.index(i)
    mask_end = i_right <= tools_floor.stamp(i_right[-1], freq, 0, start_of_day)
    return i[mask_start & mask_end]
''', '''    i_right = tools_right.index(i)
    first = tools_ceil.stamp(i[0], freq, start_of_day=start_of_day)
    last = tools_floor.stamp(i_right[-1], freq, start_of_day=start_of_day)
    mask = (i_right <= last) & (i >= first)
    return i[mask]
'''),
    (T + "trim.py", '''    i = index(fr.index, freq)
    return fr.loc[i]
''', '''    return fr.loc[index(fr.index, freq)]
'''),
    (T + "duration.py", '''    if i.freq in ["15min", "h"]:
        # Speed-up things for fixed-duration frequencies.
        h = 1.0 if i.freq == "h" else 0.25
    else:
        # Individual calculations for non-fixed-duration frequencies.
        h = (tools_right.index(i) - i).map(lambda td: td.total_seconds() / 3600)

    return pd.Series(h, i, dtype="pint[h]").rename("duration")
''', '''    if i.freq == "h":
        hours = 1.0
    elif i.freq == "15min":
        hours = 0.25
    else:
        # Individual calculations for non-fixed-duration frequencies.
        hours = [(r - l).total_seconds() / 3600 for l, r in zip(i, tools_right.index(i))]

    return pd.Series(hours, i, dtype="pint[h]", name="duration")
'''),
    (T + "right.py", '''    i2 = (i + tools_freq.to_offset(i.freq)).rename("right")
    i2.freq = i.freq
    return i2
''', '''    offset = tools_freq.to_offset(i.freq)
    right = i + offset
    right = right.rename("right")
    right.freq = i.freq
    return right
'''),
]
R["hedge_frame"] = [
    (T + "hedge.py", '''    if how == "val":  # value hedge
        # solve for w_hedge: sum(w * duration * p) == w_hedge * sum(duration * p)
        # so: w_hedge = sum(w * duration * p) / sum(duration * p)
        weights = df["p"] * df["duration"]
    else:  # how == "vol":  # volume hedge
        # solve for w_hedge: sum(w * duration) == w_hedge * sum(duration)
        # so: w_hedge = sum(w * duration) / sum(duration)
        weights = df["duration"]

    p_hedge = tools_wavg.series(df["p"], df["duration"])
    w_hedge = tools_wavg.series(df["w"], weights)
    return pd.Series({"w": w_hedge, "p": p_hedge})
''', '''    duration, prices = df["duration"], df["p"]
    weights = duration if how == "vol" else duration * prices
    w_hedge = tools_wavg.series(df["w"], weights)
    p_hedge = tools_wavg.series(prices, duration)
    return pd.Series([w_hedge, p_hedge], index=["w", "p"])
'''),
    (T + "hedge.py", '''    if w.index.freq is None or p.index.freq is None:
        raise ValueError(
            "Parameters ``w`` and ``p`` must have a DatetimeIndex with a set frequency attribute."
        )
    if w.index.freq != p.index.freq:
        raise ValueError(
            f"Parameters ``w`` and ``p`` must have same frequency; got {w.index.freq} and {p.index.freq}."
        )
    if w.index.freq not in ["15min", "h", "D"]:
        raise ValueError("Can only hedge a timeseries with daily (or shorter) values.")
''', '''    freq_w, freq_p = w.index.freq, p.index.freq
    for fr in (freq_w, freq_p):
        if fr is None:
            raise ValueError(
                "Parameters ``w`` and ``p`` must have a DatetimeIndex with a set frequency attribute."
            )
    if freq_w != freq_p:
        raise ValueError(
            f"Parameters ``w`` and ``p`` must have same frequency; got {freq_w} and {freq_p}."
        )
    if freq_w not in ["15min", "h", "D"]:
        raise ValueError("Can only hedge a timeseries with daily (or shorter) values.")
'''),
    (T + "hedge.py", '''    win, wunits = (w.pint.magnitude, w.pint.units) if hasattr(w, "pint") else (w, None)
    pin, punits = (p.pint.magnitude, p.pint.units) if hasattr(p, "pint") else (p, None)
''', '''    def strip_units(s):
        if hasattr(s, "pint"):
            return s.pint.magnitude, s.pint.units
        return s, None

    win, wunits = strip_units(w)
    pin, punits = strip_units(p)
'''),
    (T + "hedge.py", '''    vals = dfin.groupby(grouping).apply(lambda subdf: one_hedge(subdf, how))
''', '''    def hedge_group(group):
        return one_hedge(group, how)

    vals = dfin.groupby(grouping).apply(hedge_group)
'''),
    (T + "hedge.py", '''    wout, pout = dfout["w"], dfout["p"]

    # Handle possible units.
    if wunits is not None:
        wout = wout.astype(f"pint[{wunits}]")
    if punits is not None:
        pout = pout.astype(f"pint[{punits}]")

    return wout, pout
''', '''
    # Handle possible units.
    def with_units(s, units):
        return s if units is None else s.astype(f"pint[{units}]")

    return with_units(dfout["w"], wunits), with_units(dfout["p"], punits)
'''),
    (T + "frame.py", '''        need = want - index(df).nlevels
        if need > 0:
            df = pd.concat([df], keys=[("",) * need], axis=axis)  # prepend empty levels
            for i in range(want - need):  # move empty levels to bottom
                df = df.swaplevel(i, i + need, axis=axis)
        return df
''', '''        have = index(df).nlevels
        need = want - have
        if need <= 0:
            return df
        df = pd.concat([df], keys=[("",) * need], axis=axis)  # prepend empty levels
        for i in range(have):  # move empty levels to bottom
            df = df.swaplevel(i, i + need, axis=axis)
        return df
'''),
    (T + "frame.py", '''    without_units = [not (hasattr(s, "pint")) for s in [s1, s2]]
    if all(without_units):
        return np.allclose(s1, s2, *args, **kwargs)
    elif any(without_units):
        return False
    elif s1.pint.dimensionality != s2.pint.dimensionality:
        return False
''', '''    has_unit1, has_unit2 = hasattr(s1, "pint"), hasattr(s2, "pint")
    if not has_unit1 and not has_unit2:
        return np.allclose(s1, s2, *args, **kwargs)
    if has_unit1 is not has_unit2:
        return False
    if s1.pint.dimensionality != s2.pint.dimensionality:
        return False
'''),
    (T + "intersect.py", '''    values = set(idxs[0])
    for i in idxs[1:]:
        values = values.intersection(set(i))

    return pd.DatetimeIndex(sorted(list(values)), freq=freq, name=name, tz=tz)
''', '''    sets = [set(i) for i in idxs]
    common = sets[0]
    while len(sets) > 1:
        common &= sets.pop()

    return pd.DatetimeIndex(sorted(common), freq=freq, name=name, tz=tz)
'''),
    (T + "intersect.py", '''    freq, name, tz = [], [], []
    for i in range(len(idxs)):
        freq.append(idxs[i].freq)
        name.append(idxs[i].name)
        tz.append(idxs[i].tz)
''', '''    freq = [i.freq for i in idxs]
    name = [i.name for i in idxs]
    tz = [i.tz for i in idxs]
'''),
    (T + "intersect.py", '''    return [fr.loc[i] for i, fr in zip(new_idxs, frames)]
''', '''    out = []
    for fr, new_idx in zip(frames, new_idxs):
        out.append(fr.loc[new_idx])
    return out
'''),
]
R["classes_body"] = [
    (CL, '''    return classmatrix.get((structure, kind))
''', '''    key = (structure, kind)
    return classmatrix.get(key)
'''),
    (CL, '''        newdf = tools.changefreq.summable(self.df[["q"]], freq)
        if not len(newdf):
            raise ValueError(
                f"There are no full periods available when changing to the frequency {freq}."
            )
        newdf["w"] = newdf["q"] / tools.duration.index(newdf.index)  # TODO: check unit
        return FlatVolumePfLine(newdf)
''', '''        newdf = _resample(tools.changefreq.summable, self.df[["q"]], freq)
        hours = tools.duration.index(newdf.index)
        newdf = newdf.assign(w=newdf["q"] / hours)
        return FlatVolumePfLine(newdf)
'''),
    (CL, '''        newdf = tools.changefreq.averagable(self.df[["p"]], freq)
        if not len(newdf):
            raise ValueError(
                f"There are no full periods available when changing to the frequency {freq}."
            )
        return FlatPricePfLine(newdf)
''', '''        return FlatPricePfLine(
            _resample(tools.changefreq.averagable, self.df[["p"]], freq)
        )
'''),
    (CL, '''# When creating a PfLine (or''', '''def _resample(fn: Callable, df: pd.DataFrame, freq: str) -> pd.DataFrame:
    newdf = fn(df, freq)
    if len(newdf) == 0:
        raise ValueError(
            f"There are no full periods available when changing to the frequency {freq}."
        )
    return newdf


# When creating a PfLine (or'''),
    (CL, '''        newdf = tools.changefreq.summable(self.df[["q", "r"]], freq)
        if not len(newdf):
            raise ValueError(
                f"There are no full periods available when changing to the frequency {freq}."
            )
        newdf["w"] = newdf["q"] / tools.duration.index(newdf.index)
        newdf["p"] = newdf["r"] / newdf["q"]
        return FlatCompletePfLine(newdf)

''', '''        newdf = _resample(tools.changefreq.summable, self.df[["r", "q"]], freq)
        q, r = newdf["q"], newdf["r"]
        w = q / tools.duration.index(newdf.index)
        return FlatCompletePfLine(pd.DataFrame({"w": w, "q": q, "p": r / q, "r": r}))

'''),
    (CL, '''        newdf = self.df[["w", "q", "r"]].reindex(index, fill_value=0)
        newdf["p"] = newdf["r"] / newdf["q"]
''', '''        newdf = self.df.drop(columns="p").reindex(index, fill_value=0)
        newdf["p"] = newdf.r / newdf.q
'''),
    (CL, '''        return not (
            np.allclose(self.df["w"].pint.magnitude, 0.0)
            and np.allclose(self.df["r"].pint.magnitude, 0.0)
        )
''', '''        return not all(
            np.allclose(self.df[col].pint.magnitude, 0.0) for col in ("w", "r")
        )
'''),
    (CL, '''        df = sum(child.df[["w", "q", "r"]] for child in self.children.values())
        df["p"] = df["r"] / df["q"]
        object.__setattr__(self, "df", df)
''', '''        parts = [child.df[["w", "q", "r"]] for child in self.children.values()]
        df = parts[0].copy()
        for part in parts[1:]:
            df = df + part
        df["p"] = df["r"] / df["q"]
        object.__setattr__(self, "df", df)
'''),
    (CL, '''        newchildren = {name: child.volume for name, child in self.items()}
        return NestedVolumePfLine(newchildren)
''', '''        newchildren = {}
        for name, child in self.items():
            newchildren[name] = child.volume
        return NestedVolumePfLine(newchildren)
'''),
    (CL, '''        newdf = self.df[["p"]]
        return FlatPricePfLine(newdf)
''', '''        return self.flatten().price
'''),
]
R["flat_nested"] = [
    (FM, '''    # Add volume.
    if self.kind in [Kind.VOLUME, Kind.COMPLETE]:
        df_dict["q"] = tseries2poframe(self.q, peak_fn, freq, True)
        df_dict["w"] = df_dict["q"] / df_dict["duration"]

    # Add revenue.
    if self.kind in [Kind.REVENUE, Kind.COMPLETE]:
        df_dict["r"] = tseries2poframe(self.r, peak_fn, freq, True)

    # Add price.
    if self.kind is Kind.PRICE:
        df_dict["p"] = tseries2poframe(self.p, peak_fn, freq, False)
    elif self.kind is Kind.COMPLETE:
        df_dict["p"] = df_dict["r"] / df_dict["q"]

    # Turn into dataframe.
    return pd.DataFrame({k: df.stack() for k, df in df_dict.items()})
''', '''    has_volume = self.kind in (Kind.VOLUME, Kind.COMPLETE)
    has_revenue = self.kind in (Kind.REVENUE, Kind.COMPLETE)

    if has_volume:
        q = tseries2poframe(self.q, peak_fn, freq, True)
        df_dict["q"] = q
        df_dict["w"] = q / df_dict["duration"]
    if has_revenue:
        df_dict["r"] = tseries2poframe(self.r, peak_fn, freq, True)
    if has_volume and has_revenue:
        df_dict["p"] = df_dict["r"] / df_dict["q"]
    elif self.kind is Kind.PRICE:
        df_dict["p"] = tseries2poframe(self.p, peak_fn, freq, False)

    # Turn into dataframe.
    stacked = {}
    for name, df in df_dict.items():
        stacked[name] = df.stack()
    return pd.DataFrame(stacked)
'''),
    (FM, '''    df = pd.DataFrame({"w": wout, "p": pout})
    df["q"] = df["w"] * tools.duration.index(df.index)
    df["r"] = df["p"] * df["q"]
    return classes.FlatCompletePfLine(df)
''', '''    qout = wout * tools.duration.index(wout.index)
    df = pd.DataFrame({"w": wout, "q": qout, "p": pout, "r": pout * qout})
    return classes.FlatCompletePfLine(df)
'''),
    (FM, '''        mask = pd.Index([True] * len(self.pfl.df))
        if arg.start is not None:
            mask &= self.pfl.index >= arg.start
        if arg.stop is not None:
            mask &= self.pfl.index < arg.stop

        newdf = self.pfl.df.loc[mask]
        try:
            tools.standardize.assert_frame_standardized(newdf)
        except AssertionError as e:
            raise ValueError(
                "Timeseries not in expected form. See ``portfolyo.standardize()`` for more information."
            ) from e
        return self.pfl.__class__(newdf)  # use same (leaf) class
''', '''        newdf = self.pfl.df
        if arg.stop is not None:
            newdf = newdf.loc[newdf.index < arg.stop]
        if arg.start is not None:
            newdf = newdf.loc[newdf.index >= arg.start]
        return _same_class(self.pfl, newdf)
'''),
    (FM, '''        newdf = self.pfl.df.loc[arg]
        try:
            tools.standardize.assert_frame_standardized(newdf)
        except AssertionError as e:
            raise ValueError(
                "Timeseries not in expected form. See ``portfolyo.standardize()`` for more information."
            ) from e

        return self.pfl.__class__(newdf)  # use same (leaf) class
''', '''        return _same_class(self.pfl, self.pfl.df.loc[arg])
'''),
    (FM, '''class LocIndexer:
''', '''def _same_class(pfl: FlatPfLine, newdf: pd.DataFrame) -> FlatPfLine:
    """New instance of same (leaf) class."""
    try:
        tools.standardize.assert_frame_standardized(newdf)
    except AssertionError as e:
        raise ValueError(
            "Timeseries not in expected form. See ``portfolyo.standardize()`` for more information."
        ) from e
    return type(pfl)(newdf)


class LocIndexer:
'''),
    (FM, '''    if not isinstance(other, self.__class__):
        return False
    try:
        tools.testing.assert_frame_equal(self.df, other.df, rtol=1e-7)
        return True
    except AssertionError:
        return False
''', '''    if isinstance(other, type(self)):
        try:
            tools.testing.assert_frame_equal(self.df, other.df, rtol=1e-7)
        except AssertionError:
            pass
        else:
            return True
    return False
'''),
    (NM, '''    return any(self.children.values())
''', '''    for child in self.children.values():
        if child:
            return True
    return False
'''),
    (NM, '''    if not isinstance(other, self.__class__):
        return False
    return self.children == other.children
''', '''    return isinstance(other, self.__class__) and self.children == other.children
'''),
    (NM, '''    newchildren = {name: child.reindex(index) for name, child in self.items()}
    return self.__class__(newchildren)
''', '''    return self.__class__(
        dict((name, child.reindex(index)) for name, child in self.children.items())
    )
'''),
    (NM, '''        newchildren = {name: child.slice[arg] for name, child in self.pfl.items()}
        return self.pfl.__class__(newchildren)
''', '''        pfl = self.pfl
        return pfl.__class__({name: pfl[name].slice[arg] for name in pfl})
'''),
    (CH, '''        newchildren = {**self, name: child}
        newchildren = {name: child.loc[idx] for name, child in newchildren.items()}
        return self.__class__(newchildren)

    def drop_child''', '''        newchildren = dict(self.items())
        newchildren[name] = child
        for key in list(newchildren):
            newchildren[key] = newchildren[key].loc[idx]
        return self.__class__(newchildren)

    def drop_child'''),
    (CH, '''        newchildren = {n: child for n, child in self.items() if n != name}
''', '''        newchildren = {**self.children}
        newchildren.pop(name)
'''),
    (DX, '''        cols = cols or "wqpr"  # in case nothing was specified.
        cols = [col for col in cols if col in "wqpr" and col in self.kind.available]
        return pd.DataFrame(
            {col: self.df[col] if has_units else self.df[col].pint.m for col in cols}
        )
''', '''        data = {}
        for col in cols or "wqpr":  # in case nothing was specified.
            if col not in "wqpr" or col not in self.kind.available:
                continue
            s = self.df[col]
            if not has_units:
                s = s.pint.m
            data[col] = s
        return pd.DataFrame(data)
'''),
    (DX, '''        if childlevels == 0:
            return flatdf

        # One big dataframe.
        dfs = [flatdf]
        for name, child in self.items():
            childdf = child.dataframe(cols, has_units, childlevels=childlevels - 1)
            dfs.append(tools.frame.add_header(childdf, name))
        return tools.frame.concat(dfs, 1)
''', '''        if childlevels != 0:
            # One big dataframe.
            childdfs = [
                tools.frame.add_header(
                    child.dataframe(cols, has_units, childlevels=childlevels - 1), name
                )
                for name, child in self.items()
            ]
            return tools.frame.concat([flatdf, *childdfs], 1)
        return flatdf
'''),
    (CR, '''    if isinstance(data, classes.FlatPfLine):
        # Data already correct instance. Quick-return.
        return data
    elif isinstance(data, classes.PfLine):
        # The data is a PfLine, but not a flat one.
        return data.flatten()
''', '''    if isinstance(data, classes.PfLine):
        return data if isinstance(data, classes.FlatPfLine) else data.flatten()
'''),
    (CR, '''    errors = {}
    for name, fn in {"flat": flatpfline, "nested": nestedpfline}.items():
        # Try passing data to other creation functions.
        try:
            return fn(data)
        except (ValueError, TypeError, KeyError) as e:
            errors[name] = e
            pass
''', '''    errors = {}
    try:
        return flatpfline(data)
    except (ValueError, TypeError, KeyError) as e:
        errors["flat"] = e
    try:
        return nestedpfline(data)
    except (ValueError, TypeError, KeyError) as e:
        errors["nested"] = e
'''),
]
R["state"] = [
    (PS, '''        if not (ws is qs is rs is ps is None):
            sourced = create.flatpfline({"w": ws, "q": qs, "r": rs, "p": ps})
        else:
            sourced = None
        return cls(offtakevolume, unsourcedprice, sourced)
''', '''        sourced = None
        if any(s is not None for s in (ws, qs, rs, ps)):
            sourced = create.flatpfline({"w": ws, "q": qs, "r": rs, "p": ps})
        return cls(offtakevolume, unsourcedprice, sourced)
'''),
    (PS, '''        offtakevolume, unsourcedprice, sourced = pfstate_helper.make_pflines(
            self.offtakevolume, self.unsourcedprice, self.sourced
        )
        object.__setattr__(self, "offtakevolume", offtakevolume)
        object.__setattr__(self, "unsourcedprice", unsourcedprice)
        object.__setattr__(self, "sourced", sourced)
''', '''        names = ("offtakevolume", "unsourcedprice", "sourced")
        pflines = pfstate_helper.make_pflines(*[getattr(self, name) for name in names])
        for name, pfl in zip(names, pflines):
            object.__setattr__(self, name, pfl)
'''),
    (PS, '''        return -(self.offtake.volume + self.sourced.volume) | self.unsourcedprice
''', '''        missing_volume = -self.sourced.volume - self.offtake.volume
        return missing_volume | self.unsourcedprice
'''),
    (PS, '''        offtakevolume = self.offtakevolume.asfreq(freq)
        unsourcedprice = self.unsourced.asfreq(freq).price  # ensures weighted avg
        sourced = self.sourced.asfreq(freq)
        return PfState(offtakevolume, unsourcedprice, sourced)
''', '''        resampled = {
            name: self[name].asfreq(freq)
            for name in ("offtakevolume", "unsourced", "sourced")
        }
        unsourcedprice = resampled["unsourced"].price  # ensures weighted avg
        return PfState(resampled["offtakevolume"], unsourcedprice, resampled["sourced"])
'''),
    (PS, '''        tosource = self.hedge_of_unsourced(how, peak_fn, freq)
        return self.__class__(
            self.offtakevolume, self.unsourcedprice, self.sourced + tosource
        )
''', '''        sourced = self.sourced + self.hedge_of_unsourced(how, peak_fn, freq)
        return dataclasses.replace(self, sourced=sourced)
'''),
    (PS, '''        return all(
            [self[part] == other[part] for part in ["offtake", "unsourced", "sourced"]]
        )
''', '''        for part in ("sourced", "offtake", "unsourced"):
            if not self[part] == other[part]:
                return False
        return True
'''),
    (PS, '''        dfs = []
        for part in ("offtakevolume", "pnl_cost", "sourced", "unsourced"):
            childlevels = 0 if part == "pnl_cost" else -1  # always flatten pnl_cost
            dfin = self[part].dataframe(
                cols, has_units=has_units, childlevels=childlevels
            )
            dfs.append(tools.frame.add_header(dfin, part))
        return tools.frame.concat(dfs, axis=1)
''', '''        def part_df(part, childlevels=-1):
            df = self[part].dataframe(
                cols, has_units=has_units, childlevels=childlevels
            )
            return tools.frame.add_header(df, part)

        dfs = [
            part_df("offtakevolume"),
            part_df("pnl_cost", 0),  # always flatten pnl_cost
            part_df("sourced"),
            part_df("unsourced"),
        ]
        return tools.frame.concat(dfs, axis=1)
'''),
    (PS, '''    def __getitem__(self, arg) -> PfState:
        offtakevolume = self.pfs.offtake.volume.slice[arg]
        unsourcedprice = self.pfs.unsourcedprice.slice[arg]
        sourced = self.pfs.sourced.slice[arg]
        return PfState(offtakevolume, unsourcedprice, sourced)
''', '''    def __getitem__(self, arg) -> PfState:
        pfs = self.pfs
        return PfState(
            sourced=pfs.sourced.slice[arg],
            unsourcedprice=pfs.unsourcedprice.slice[arg],
            offtakevolume=pfs.offtakevolume.slice[arg],
        )
'''),
    (PS, '''        if hasattr(self, name):
            return getattr(self, name)
        raise KeyError(f"Portfolio state has no part with name '{name}'.")
''', '''        try:
            return getattr(self, name)
        except AttributeError as e:
            raise KeyError(f"Portfolio state has no part with name '{name}'.") from e
'''),
    (PA, '''        values = pd.DataFrame({"s": pfs1.unsourcedprice.p, "o": pfs2.unsourcedprice.p})
        weights = pd.DataFrame({"s": pfs1.unsourced.q, "o": pfs2.unsourced.q})
        unsourcedprice = create.flatpfline(
            {"p": tools.wavg.dataframe(values, weights, axis=1)}
        )
''', '''        values, weights = {}, {}
        for name, pfs in {"s": pfs1, "o": pfs2}.items():
            values[name] = pfs.unsourcedprice.p
            weights[name] = pfs.unsourced.q
        p = tools.wavg.dataframe(pd.DataFrame(values), pd.DataFrame(weights), axis=1)
        unsourcedprice = create.flatpfline({"p": p})
'''),
    (PA, '''        # Scale up volumes (and revenues), leave prices unchanged.
        return pfstate.PfState(
            pfs.offtakevolume * s, pfs.unsourcedprice, pfs.sourced * s
        )
''', '''        # Scale up volumes (and revenues), leave prices unchanged.
        sourced = pfs.sourced * s
        offtakevolume = pfs.offtakevolume * s
        return pfstate.PfState(offtakevolume, pfs.unsourcedprice, sourced)
'''),
    (PH, '''    if sourced is None:
        return create.flatpfline(pd.DataFrame({"q": 0, "r": 0}, ref_idx))

    sourced = create.pfline(sourced)
    if sourced.kind is not Kind.COMPLETE:
        raise ValueError("Parameter ``sourced`` does not contain price and volume.")
    try:
        tools.testing.assert_indices_compatible(ref_idx, sourced.index)
    except AssertionError as e:
        raise ValueError from e
    # HACK: Workaround for error in pandas intersection (#46702):
    if len(tools.intersect.indices(ref_idx, sourced.index)) < len(ref_idx):
        raise ValueError(
            "Parameter ``sourced``: does not cover entire delivery period of"
            " ``offtakevolume``."
        )
    return sourced.loc[ref_idx]
''', '''    if sourced is None:
        zero = pd.Series(0, ref_idx)
        return create.flatpfline({"q": zero, "r": zero})

    sourced = create.pfline(sourced)
    if sourced.kind is not Kind.COMPLETE:
        raise ValueError("Parameter ``sourced`` does not contain price and volume.")
    return _cut_to(sourced, ref_idx, "sourced")


def _cut_to(pfl: PfLine, ref_idx: pd.DatetimeIndex, name: str) -> PfLine:
    try:
        tools.testing.assert_indices_compatible(ref_idx, pfl.index)
    except AssertionError as e:
        raise ValueError from e
    # HACK: Workaround for error in pandas intersection (#46702):
    overlap = tools.intersect.indices(ref_idx, pfl.index)
    if len(overlap) < len(ref_idx):
        raise ValueError(
            f"Parameter ``{name}``: does not cover entire delivery period of"
            " ``offtakevolume``."
        )
    return pfl.loc[ref_idx]
'''),
]
