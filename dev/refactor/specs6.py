R = {}
F = "portfolyo/tools/frame.py"
BODY = '''    is_gap = fr.isna()
    next_gap = is_gap.shift(-1)
    prev_gap = is_gap.shift(1)
    index_beforegap = fr[~is_gap & next_gap].index
    index_aftergap = fr[~is_gap & prev_gap].index
'''
R["gaps"] = [
    (F, BODY, '''    known = fr.notna()
    index_beforegap = fr.loc[known & ~known.shift(-1, fill_value=True)].index
    index_aftergap = fr.loc[known & ~known.shift(1, fill_value=True)].index
'''),
    (F, '''    fr = fr.copy()
    for i_before, i_after in zip(index_beforegap, index_aftergap):
        section = fr.loc[i_before:i_after]
        if len(section) > maxgap + 2:
            continue
        x0, y0, x1, y1 = i_before, fr[i_before], i_after, fr[i_after]
        dx, dy = x1 - x0, y1 - y0
        fr.loc[i_before:i_after] = y0 + (section.index - x0) / dx * dy
    return fr
''', '''    filled = fr.copy()
    for start, end in zip(index_beforegap, index_aftergap):
        index = fr.loc[start:end].index
        if len(index) - 2 <= maxgap:
            slope = (fr.loc[end] - fr.loc[start]) / (end - start).total_seconds()
            for ts in index[1:-1]:
                filled.loc[ts] = fr.loc[start] + slope * (ts - start).total_seconds()
    return filled
'''),
]
R["gaps_orphans"] = [
    (F, '''    if index_beforegap.empty or index_aftergap.empty:
        return fr
    elif index_beforegap[-1] >= index_aftergap[-1]:
        index_beforegap = index_beforegap[:-1]
    if index_beforegap.empty:
        return fr
    elif index_aftergap[0] <= index_beforegap[0]:
        index_aftergap = index_aftergap[1:]
''', '''    if not len(index_beforegap) or not len(index_aftergap):
        return fr.copy()
    first, last = index_beforegap[0], index_aftergap[-1]
    index_beforegap = index_beforegap[index_beforegap < last]
    index_aftergap = [i for i in index_aftergap if i > first]
'''),
]
