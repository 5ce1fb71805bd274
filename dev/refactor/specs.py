"""Edits that keep the behaviour; every check has to stay quiet on them (dev/refactor/run.py)."""
A = "portfolyo/core/pfline/arithmatic.py"
IO = "portfolyo/core/pfline/interop.py"
NH = "portfolyo/core/pfline/nested_helper.py"
FM = "portfolyo/core/pfline/flat_methods.py"
CF = "portfolyo/tools/changefreq.py"
PC = "portfolyo/tools/peakconvert.py"
CC = "portfolyo/tools2/concat.py"
TI = "portfolyo/tools2/intersect.py"
PH = "portfolyo/core/pfstate/pfstate_helper.py"

R = {}
R["add_helper"] = [
    (A, '''        newdfs = tools.intersect.frames(pfl1.df, pfl2.df)  # keep only common rows
        newdf = sum(newdfs)
        if len(newdf.index) == 0:
            raise NotImplementedError(
                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
            )
        if pfl1.kind is Kind.COMPLETE:
            # Calculate price from wavg instead of r/q, to handle edge case p1==p2, q==0.
            values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
            weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
            newdf["p"] = tools.wavg.dataframe(values, weights, axis=1)
        return pfl1.__class__(newdf)
''', '''        left, right = tools.intersect.frames(pfl1.df, pfl2.df)
        newdf = left + right
        _check_overlap(newdf.index)
        if pfl1.kind is Kind.COMPLETE:
            newdf["p"] = _weighted_price(left, right)
        return type(pfl1)(newdf)
'''),
    (A, '''class Multiply:
''', '''def _check_overlap(idx: pd.DatetimeIndex) -> None:
    if not len(idx):
        msg = "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
        raise NotImplementedError(msg)


def _weighted_price(*dfs: pd.DataFrame) -> pd.Series:
    """Price from wavg instead of r/q, to handle edge case p1==p2, q==0."""
    values = pd.DataFrame({str(n): df["p"] for n, df in enumerate(dfs, 1)})
    weights = pd.DataFrame({str(n): df["q"] for n, df in enumerate(dfs, 1)})
    return tools.wavg.dataframe(values, weights, axis=1)


class Multiply:
'''),
    (A, '''        for name in {**pfl1, **pfl2}:  # keep order
            if name in pfl1 and name in pfl2:
                newchildren[name] = pfl1[name] + pfl2[name]
            elif name in pfl1:
                newchildren[name] = pfl1[name].loc[idx]
            else:
                newchildren[name] = pfl2[name].loc[idx]
        return pfl1.__class__(newchildren)
''', '''        for name, child in pfl1.items():
            if name in pfl2:
                newchildren[name] = child + pfl2[name]
            else:
                newchildren[name] = child.loc[idx]
        for name, child in pfl2.items():
            if name not in newchildren:
                newchildren[name] = child.loc[idx]
        return pfl1.__class__(newchildren)
'''),
]
R["multiply_dispatch"] = [
    (A, '''        if set([pfl1.kind, pfl2.kind]) != {Kind.PRICE, Kind.VOLUME}:
            raise NotImplementedError(
                "Can only multiply volume with price information."
            )
        q, p = (pfl2.q, pfl1.p) if pfl1.kind is Kind.PRICE else (pfl1.q, pfl2.p)
        q, p = tools.intersect.frames(q, p)
''', '''        if pfl1.kind is Kind.PRICE and pfl2.kind is Kind.VOLUME:
            pfl1, pfl2 = pfl2, pfl1
        elif not (pfl1.kind is Kind.VOLUME and pfl2.kind is Kind.PRICE):
            raise NotImplementedError(
                "Can only multiply volume with price information."
            )
        q, p = tools.intersect.frames(pfl1.q, pfl2.p)
'''),
    (A, '''        newdf = pd.DataFrame({col: series * s for col, series in df.items()})
        if pfl.kind is Kind.COMPLETE:  # correction: in this case, keep original prices
            newdf["p"] = df["p"]
        return pfl.__class__(newdf)
''', '''        keep_price = pfl.kind is Kind.COMPLETE  # in this case, keep original prices
        data = {}
        for col in df.columns:
            data[col] = df[col] if keep_price and col == "p" else df[col] * s
        return pfl.__class__(pd.DataFrame(data))
'''),
    (A, '''            if pfl1.kind is Kind.PRICE:
                series = pfl1.p, pfl2.p
            elif pfl1.kind is Kind.VOLUME:
                series = pfl1.q, pfl2.q
            elif pfl1.kind is Kind.REVENUE:
                series = pfl1.r, pfl2.r
            series = tools.intersect.frames(*series)
            s = series[0] / series[1]
''', '''            attr = {Kind.PRICE: "p", Kind.VOLUME: "q", Kind.REVENUE: "r"}[pfl1.kind]
            numerator, denominator = tools.intersect.frames(
                getattr(pfl1, attr), getattr(pfl2, attr)
            )
            s = numerator / denominator
'''),
    (A, '''        if (pfl1.kind, pfl2.kind) == (Kind.REVENUE, Kind.PRICE):
            r, p = tools.intersect.frames(pfl1.r, pfl2.p)
            data = {"q": r / p}
        elif (pfl1.kind, pfl2.kind) == (Kind.REVENUE, Kind.VOLUME):
            r, q = tools.intersect.frames(pfl1.r, pfl2.q)
            data = {"p": r / q}
        else:
            raise NotImplementedError(
                "To divide PfLines of unequal kind, the numerator must have revenues,"
                " and denominator must have volumes or prices."
            )
        return create.flatpfline(data)
''', '''        if pfl1.kind is not Kind.REVENUE or pfl2.kind is Kind.COMPLETE:
            raise NotImplementedError(
                "To divide PfLines of unequal kind, the numerator must have revenues,"
                " and denominator must have volumes or prices."
            )
        if pfl2.kind is Kind.PRICE:
            r, p = tools.intersect.frames(pfl1.r, pfl2.p)
            return create.flatpfline({"q": r / p})
        r, q = tools.intersect.frames(pfl1.r, pfl2.q)
        return create.flatpfline({"p": r / q})
'''),
    (A, '''        if isinstance(other, pd.Series):
            return Multiply.pfline_and_series(self, other)
        else:
            return Multiply.two_pflines(self, other)
''', '''        fn = Multiply.pfline_and_series if isinstance(other, pd.Series) else Multiply.two_pflines
        return fn(self, other)
'''),
]
R["prep_generic"] = [
    (A, '''        def wrapper(pfl: PfLine, other: Any):
            if isinstance(other, pd.Series):
                if other.dtype == "pint[dimensionless]":
                    other = other.pint.m
                if other.dtype in [int, float] and np.allclose(other.values, 0.0):
                    return pfl

            return fn(pfl, other)
''', '''        def is_zero(s: pd.Series) -> bool:
            return s.dtype in [int, float] and np.allclose(s.values, 0.0)

        def wrapper(pfl: PfLine, other: Any):
            if not isinstance(other, pd.Series):
                return fn(pfl, other)
            if other.dtype == "pint[dimensionless]":
                other = other.pint.m
            return pfl if is_zero(other) else fn(pfl, other)
'''),
    (A, '''                pfl1, pfl2 = pfl1.flatten(), pfl2.flatten()  # flatten both
''', '''                pfl1 = pfl1.flatten()
                pfl2 = pfl2.flatten()
'''),
    (A, '''    def assert_pflines_distinctkind(fn):
        """Both must be of distinct kind; if not, raise Error."""

        def wrapper(pfl1: PfLine, pfl2: PfLine):
            if pfl1.kind is pfl2.kind:
                raise NotImplementedError(
                    "Cannot do this operation on portfolio lines of equal kind."
                )
            return fn(pfl1, pfl2)
''', '''    def assert_pflines_distinctkind(fn):
        """Both must be of distinct kind; if not, raise Error."""

        def wrapper(pfl1: PfLine, pfl2: PfLine):
            if pfl1.kind is not pfl2.kind:
                return fn(pfl1, pfl2)
            raise NotImplementedError(
                "Cannot do this operation on portfolio lines of equal kind."
            )
'''),
    (A, '''        # Collect the complete dataframe.
        data = pd.concat(tools.intersect.frames(pfl1.df, pfl2.df), axis=1)
        return create.flatpfline(data)''', '''        # Collect the complete dataframe.
        df1, df2 = tools.intersect.frames(pfl1.df, pfl2.df)
        frames = [df1, df2]
        return create.flatpfline(pd.concat(frames, axis=1))'''),
    (A, '''        return self + -other  # defer to __add__ and __neg__''', '''        negated = -other
        return self.__add__(negated)  # defer to __add__ and __neg__'''),
]
R["interop_loops"] = [
    (IO, '''        object.__setattr__(self, "w", _set_unit(self.w, "w"))
        object.__setattr__(self, "q", _set_unit(self.q, "q"))
        object.__setattr__(self, "p", _set_unit(self.p, "p"))
        object.__setattr__(self, "r", _set_unit(self.r, "r"))
        object.__setattr__(self, "nodim", _set_unit(self.nodim, "nodim"))
        object.__setattr__(self, "agn", _set_unit(self.agn, None))
''', '''        for attr in ("w", "q", "p", "r", "nodim", "agn"):
            unitname = None if attr == "agn" else attr
            object.__setattr__(self, attr, _set_unit(getattr(self, attr), unitname))
'''),
    (IO, '''        indices = [] if ref_index is None else [ref_index]
        for attr in _ATTRIBUTES:
            if isinstance(val := getattr(self, attr), pd.Series):
                indices.append(val.index)
        index = tools.intersect.indices(*indices)  # raises error if none passed
''', '''        values = [getattr(self, attr) for attr in _ATTRIBUTES]
        indices = [val.index for val in values if isinstance(val, pd.Series)]
        if ref_index is not None:
            indices = [ref_index, *indices]
        index = tools.intersect.indices(*indices)  # raises error if none passed
'''),
    (IO, '''        series = {}
        for attr in _ATTRIBUTES:
            val = getattr(self, attr)
            if val is None:
                continue
            series[attr] = val

        return pd.DataFrame(series)
''', '''        return pd.DataFrame(
            {
                attr: val
                for attr in _ATTRIBUTES
                if (val := getattr(self, attr)) is not None
            }
        )
'''),
    (IO, '''        errors = {}
        for attr in _ATTRIBUTES:
            val = getattr(self, attr)
            if val is None:
                continue
            if isinstance(val, pd.Series):
                continue
            errors[attr] = type(val)
        if errors:
            raise ValueError(
''', '''        values = (getattr(self, attr) for attr in _ATTRIBUTES)
        if any(not (v is None or isinstance(v, pd.Series)) for v in values):
            raise ValueError(
'''),
    (IO, '''    inop_result = None
    for inop in inops:
        inop_result |= inop
    if inop_result is None:
        return InOp()  # raises Error
    return inop_result
''', '''    inops = list(inops)
    if not inops:
        return InOp()  # raises Error
    inop_result, *others = inops
    for other in others:
        inop_result = _union(inop_result, other)
    return inop_result
'''),
    (IO, '''        return not all(getattr(self, attr) is None for attr in _ATTRIBUTES)
''', '''        return any(getattr(self, attr) is not None for attr in _ATTRIBUTES)
'''),
    (IO, '''        val1, val2 = getattr(inop1, attr), getattr(inop2, attr)
        if val1 is not None and val2 is not None:
            raise ValueError(f"Got two values for attribute '{attr}'.")
        elif val1 is not None:
            kwargs[attr] = val1
        else:
            kwargs[attr] = val2
    return InOp(**kwargs)
''', '''        candidates = [
            val
            for val in (getattr(inop1, attr), getattr(inop2, attr))
            if val is not None
        ]
        if len(candidates) > 1:
            raise ValueError(f"Got two values for attribute '{attr}'.")
        kwargs[attr] = candidates[0] if candidates else None
    return InOp(**kwargs)
'''),
]
R["interop_consistent"] = [
    (IO, '''        # Volumes.
        if w is not None and q is not None:
            try:
                tools.testing.assert_series_equal(
                    w, q / q.index.duration, check_names=False
                )
            except AssertionError as e:
                raise ValueError("Values for w and q are not consistent.") from e
        elif w is not None and q is None:
            q = w * w.index.duration
        elif w is None and q is not None:
            w = q / q.index.duration
        elif w is None and q is None and p is not None and r is not None:
            q = r / p
            w = q / q.index.duration
''', '''        # Volumes.
        if w is None and q is None and p is not None and r is not None:
            q = r / p
        if w is None and q is not None:
            w = q / q.index.duration
        elif q is None and w is not None:
            q = w.index.duration * w
        elif w is not None:
            self._assert_consistent(w, q / q.index.duration, "w and q")
'''),
    (IO, '''            try:
                tools.testing.assert_series_equal(
                    r[~ignore], p[~ignore] * q[~ignore], check_names=False
                )
            except AssertionError as e:
                raise ValueError("Values for r, p, and q are not consistent.") from e

        return InOp(w=w, q=q, p=p, r=r, nodim=nodim)
''', '''            self._assert_consistent(
                r[~ignore], p[~ignore] * q[~ignore], "r, p, and q"
            )

        return InOp(w=w, q=q, p=p, r=r, nodim=nodim)

    @staticmethod
    def _assert_consistent(found: pd.Series, wanted: pd.Series, names: str) -> None:
        try:
            tools.testing.assert_series_equal(found, wanted, check_names=False)
        except AssertionError as e:
            raise ValueError(f"Values for {names} are not consistent.") from e
'''),
    (IO, '''        if isinstance(v, float):
            return tools.unit.Q_(v, unit)  # add unit
        if isinstance(v, int):
            return tools.unit.Q_(float(v), unit)  # add unit
        if isinstance(v, tools.unit.Q_):
            return tools.unit.Q_(v, unit)  # convert to unit
''', '''        if isinstance(v, int):
            v = float(v)
        if isinstance(v, (float, tools.unit.Q_)):
            return tools.unit.Q_(v, unit)  # add unit or convert to unit
'''),
    (IO, '''    if data is None:
        return InOp()

    elif isinstance(data, int):
        return InOp(agn=float(data))

    elif isinstance(data, float):
        return InOp(agn=data)
''', '''    if data is None:
        return InOp()

    elif isinstance(data, (int, float)):
        return InOp(agn=float(data))
'''),
    (IO, '''    # Can be turned into a PfLine.
    try:
        return create.pfline(data)
    except ValueError:
        pass

    # Turn into''', '''    # Can be turned into a PfLine.
    try:
        pfl = create.pfline(data)
    except ValueError:
        pfl = None
    if pfl is not None:
        return pfl

    # Turn into'''),
]
R["nested_helper"] = [
    (NH, '''        children = {}
        # Get all sub-dataframes (or series) and turn into dictionary.
        for col in data.columns.get_level_values(0).unique():
            children[col] = data[col]
        return children
''', '''        # Get all sub-dataframes (or series) and turn into dictionary.
        names = data.columns.get_level_values(0).unique()
        return {name: data[name] for name in names}
'''),
    (NH, '''    # Keep only overlapping part of indices.
    idx = tools.intersect.indices(*[child.index for child in children.values()])
    if len(idx) == 0:
        raise ValueError("PfLine indices have no overlap.")
''', '''    # Keep only overlapping part of indices.
    indices = []
    for child in children.values():
        indices.append(child.index)
    idx = tools.intersect.indices(*indices)
    if idx.empty:
        raise ValueError("PfLine indices have no overlap.")
'''),
    (NH, '''    kindset = set([child.kind for child in children.values()])
    if len(kindset) != 1:
''', '''    kindset = {child.kind for child in children.values()}
    if len(kindset) > 1:
'''),
    (FM, '''    if self.kind in [Kind.VOLUME, Kind.COMPLETE]:
        df_dict["q"] = tseries2poframe(self.q, peak_fn, freq, True)
        df_dict["w"] = df_dict["q"] / df_dict["duration"]
''', '''    if "q" in self.kind.available:
        q = tseries2poframe(self.q, peak_fn, freq, True)
        df_dict["q"], df_dict["w"] = q, q / df_dict["duration"]
'''),
    (FM, '''    df = pd.DataFrame({"w": wout, "p": pout})
    df["q"] = df["w"] * tools.duration.index(df.index)
    df["r"] = df["p"] * df["q"]
    return classes.FlatCompletePfLine(df)
''', '''    df = pd.DataFrame({"w": wout, "p": pout})
    df = df.assign(q=df["w"] * tools.duration.index(df.index))
    df = df.assign(r=df["p"] * df["q"])
    return classes.FlatCompletePfLine(df)
'''),
    (FM, '''        newdf = self.pfl.df.loc[arg]
        try:
            tools.standardize.assert_frame_standardized(newdf)
        except AssertionError as e:
            raise ValueError(
                "Timeseries not in expected form. See ``portfolyo.standardize()`` for more information."
            ) from e

        return self.pfl.__class__(newdf)  # use same (leaf) class
''', '''        return _checked(self.pfl, self.pfl.df.loc[arg])
'''),
    (FM, '''        mask = pd.Index([True] * len(self.pfl.df))
        if arg.start is not None:
            mask &= self.pfl.index >= arg.start
        if arg.stop is not None:
            mask &= self.pfl.index < arg.stop

        newdf = self.pfl.df.loc[mask]
        try:
            tools.standardize.assert_frame_standardized(newdf)
        except AssertionError as e:
            raise ValueError(
                "Timeseries not in expected form. See ``portfolyo.standardize()`` for more information."
            ) from e
        return self.pfl.__class__(newdf)  # use same (leaf) class''', '''        index = self.pfl.index
        mask = pd.Index([True] * len(index))
        if (start := arg.start) is not None:
            mask = mask & (index >= start)
        if (stop := arg.stop) is not None:
            mask = mask & (index < stop)
        return _checked(self.pfl, self.pfl.df.loc[mask])


def _checked(pfl: FlatPfLine, newdf: pd.DataFrame) -> FlatPfLine:
    """Portfolio line of the same (leaf) class with other data."""
    try:
        tools.standardize.assert_frame_standardized(newdf)
    except AssertionError as e:
        raise ValueError(
            "Timeseries not in expected form. See ``portfolyo.standardize()`` for more information."
        ) from e
    return pfl.__class__(newdf)'''),
]
R["changefreq"] = [
    (CF, '''    offset = tools_startofday.get(s.index, "timedelta")
    source_vs_daily = tools_freq.up_or_down(s.index.freq, "D")
    target_vs_daily = tools_freq.up_or_down(freq, "D")

    # We cannot simply `.resample()`, e.g. from hourly to monthly, because in that
    # case the start-of-day is lost. We need to do it in two steps.

    # Downsample to days.
    s2 = s
    if source_vs_daily < 0:
        if target_vs_daily < 0:
            return s2.resample(freq).sum()
        s2 = s2.resample("D", offset=offset).sum()
    # Downsample to longer-than-days.
    if target_vs_daily > 0:
        # workaround: (a) first downsample to days...
        s2 = s2.resample(freq).sum()
        s2.index += offset  # ...(b) add the offset manually...
        s2.index.freq = freq  # ...(c) and set the frequency manually as well.
    return s2.rename(s.name)
''', '''    source_is_short = tools_freq.up_or_down(s.index.freq, "D") < 0
    target_vs_daily = tools_freq.up_or_down(freq, "D")

    if source_is_short and target_vs_daily < 0:
        return s.resample(freq).sum()

    # We cannot simply `.resample()`, e.g. from hourly to monthly, because in that
    # case the start-of-day is lost. We need to do it in two steps.
    offset = tools_startofday.get(s.index, "timedelta")
    daily = s.resample("D", offset=offset).sum() if source_is_short else s
    if target_vs_daily <= 0:
        return daily.rename(s.name)
    return _from_days(daily, freq, offset).rename(s.name)


def _from_days(daily: pd.Series, freq: str, offset) -> pd.Series:
    """Downsample to longer-than-days; add offset and frequency manually."""
    longer = daily.resample(freq).sum()
    longer.index += offset
    longer.index.freq = freq
    return longer
'''),
    (CF, '''    # Must downsample.
    elif up_or_down == -1:
        if is_summable:
            return _downsample_summable(s, freq)
        else:
            return _downsample_avgable(s, freq)

    # Must upsample.
    else:
        if is_summable:
            return _upsample_summable(s, freq)
        else:
            return _upsample_avgable(s, freq)
''', '''    if up_or_down == -1:  # Must downsample.
        fn = _downsample_summable if is_summable else _downsample_avgable
    else:  # Must upsample.
        fn = _upsample_summable if is_summable else _upsample_avgable
    return fn(s, freq)
'''),
    (CF, '''    duration = tools_duration.frame(s)
    summable = s.mul(duration, axis=0)  # now has a pint dtype
    summable2 = _downsample_summable(summable, freq)
    duration2 = tools_duration.frame(summable2)
    s2 = summable2.div(duration2, axis=0)
    s2 = _astype(s2, s.dtype)
    return s2.rename(s.name)
''', '''    summable = s * tools_duration.frame(s)  # now has a pint dtype
    summable2 = _downsample_summable(summable, freq)
    s2 = summable2 / tools_duration.frame(summable2)
    return _astype(s2, s.dtype).rename(s.name)
'''),
]
R["peak_concat_state"] = [
    (PC, '''        b = tools_duration.index(df.index).pint.m  # as float
        p = tools_peakfn.peak_duration(df.index, peak_fn).pint.m  # as float
        if "peak" not in df:
            # df["peak"] = (df["base"] * b - df["offpeak"] * (b - p)) / p
            df["peak"] = (df["base"] - df["offpeak"]) * b / p + df["offpeak"]
        elif "offpeak" not in df:
            df["offpeak"] = (df["base"] * b - df["peak"] * p) / (b - p)
        else:  # 'base' not in df
            # df["base"] = (df["peak"] * p + df["offpeak"] * (b - p)) / b
            df["base"] = (df["peak"] - df["offpeak"]) * p / b + df["offpeak"]
''', '''        total = tools_duration.index(df.index).pint.m  # as float
        peak = tools_peakfn.peak_duration(df.index, peak_fn).pint.m  # as float
        if "base" not in df:
            df["base"] = (df["peak"] * peak + df["offpeak"] * (total - peak)) / total
        elif "peak" not in df:
            df["peak"] = (df["base"] * total - df["offpeak"] * (total - peak)) / peak
        else:
            offpeak = total - peak
            df["offpeak"] = (df["base"] * total - df["peak"] * peak) / offpeak
'''),
    (CC, '''    if all(isinstance(item, PfLine) for item in pfl_or_pfs):
        return concat_pflines(pfl_or_pfs)
    elif all(isinstance(item, PfState) for item in pfl_or_pfs):
        return concat_pfstates(pfl_or_pfs)
    else:
        raise NotImplementedError(
            "Concatenation is implemented only for PfState or PfLine."
        )
''', '''    for cls, fn in ((PfLine, concat_pflines), (PfState, concat_pfstates)):
        if all(isinstance(item, cls) for item in pfl_or_pfs):
            return fn(pfl_or_pfs)
    raise NotImplementedError(
        "Concatenation is implemented only for PfState or PfLine."
    )
'''),
    (CC, '''    child_data = {}
    child_names = sorted_pfls[0].children.keys()
    for cname in child_names:
        # for every name in children need to concatenate elements
        child_values = [pfl.children[cname] for pfl in sorted_pfls]
        child_data[cname] = concat_pflines(child_values)
''', '''    child_data = {
        cname: concat_pflines([pfl[cname] for pfl in sorted_pfls])
        for cname in sorted_pfls[0]
    }
'''),
    (CC, '''    offtakevolume = concat_pflines([pfs.offtakevolume for pfs in pfss])
    sourced = concat_pflines([pfs.sourced for pfs in pfss])
    unsourcedprice = concat_pflines([pfs.unsourcedprice for pfs in pfss])
    return pfstate.PfState(offtakevolume, unsourcedprice, sourced)
''', '''    parts = [
        concat_pflines([getattr(pfs, attr) for pfs in pfss])
        for attr in ("offtakevolume", "unsourcedprice", "sourced")
    ]
    return pfstate.PfState(*parts)
'''),
    (TI, '''    return [o.loc[i] for i, o in zip(new_idxs, objs)]
''', '''    result = []
    for obj, idx in zip(objs, new_idxs):
        result.append(obj.loc[idx])
    return result
'''),
    (PH, '''    try:
        tools.testing.assert_indices_compatible(ref_idx, unsourcedprice.index)
    except AssertionError as e:
        raise ValueError from e
    if len(tools.intersect.indices(ref_idx, unsourcedprice.index)) < len(ref_idx):
        raise ValueError(
            "Parameter ``unsourcedprice`` does not cover entire delivery period of"
            " ``offtakevolume``."
        )
    return unsourcedprice.loc[ref_idx]
''', '''    return _restrict(unsourcedprice, ref_idx, "unsourcedprice")


def _restrict(pfl: PfLine, ref_idx: pd.DatetimeIndex, name: str) -> PfLine:
    try:
        tools.testing.assert_indices_compatible(ref_idx, pfl.index)
    except AssertionError as e:
        raise ValueError from e
    if len(ref_idx) > len(tools.intersect.indices(ref_idx, pfl.index)):
        raise ValueError(
            f"Parameter ``{name}`` does not cover entire delivery period of"
            " ``offtakevolume``."
        )
    return pfl.loc[ref_idx]
'''),
    (PH, '''    try:
        tools.testing.assert_indices_compatible(ref_idx, sourced.index)
    except AssertionError as e:
        raise ValueError from e
    # HACK: Workaround for error in pandas intersection (#46702):
    if len(tools.intersect.indices(ref_idx, sourced.index)) < len(ref_idx):
        raise ValueError(
            "Parameter ``sourced``: does not cover entire delivery period of"
            " ``offtakevolume``."
        )
    return sourced.loc[ref_idx]''', '''    return _restrict(sourced, ref_idx, "sourced")'''),
]
