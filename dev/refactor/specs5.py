R={}
F="portfolyo/tools/righttoleft.py"
R["left1"]=[(F,'''    if i.freq is not None:
        i2 = i.shift(-1)
        # HACK: pandas does not give correct result if first timestamp is after DST-transition
        if i.freq == "D" and tools_startofday.get(i2) != tools_startofday.get(i):
            i2 = i - tools_freq.to_offset(i.freq)
        return i2
''','''    if i.freq is not None:
        earlier = i.shift(periods=-1)
        if i.freq != "D" or earlier[0].time() == i[0].time():
            return earlier
        return i - tools_freq.to_offset(i.freq)
'''),(F,'''    offst = tools_freq.to_offset(tools_freq.from_tdelta((i[1:] - i[:-1]).median()))
    if i.tz or how == "A":  # if tz-aware, only one way to make leftbound.
        return i - offst
    else:  # how == "B"
        return pd.DatetimeIndex([i[0] - offst, *i[:-1]])''','''    deltas = i[1:] - i[:-1]
    offst = tools_freq.to_offset(tools_freq.from_tdelta(deltas.median()))
    if i.tz is None and how != "A":
        first = i[0] - offst
        return pd.DatetimeIndex([first] + list(i[:-1]))
    return i - offst''')]
R["left2"]=[(F,'''(i[1:] - i[:-1]).median()''','''i.to_series().diff().median()'''),(F,'''pd.DatetimeIndex([i[0] - offst, *i[:-1]])''','''i[:-1].insert(0, i[0] - offst)''')]
