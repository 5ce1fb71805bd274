R = {}
S = "portfolyo/tools/standardize.py"
Z = "portfolyo/tools/tzone.py"

R["standardize_frame"] = [
    (S, '''    fr = tools_freq.guess_to_frame(fr)
    freq_input, tz_input = fr.index.freq, fr.index.tz

    # The data may be right-bound.

    if bound == "right":  # right -> left
        return _fix_rightbound(fr, force, tz, floating)
''', '''    fr = tools_freq.guess_to_frame(fr)
    if bound == "right":
        kwargs = {"force": force, "bound": "left", "tz": tz, "floating": floating}
        return _fix_rightbound(fr, **kwargs)
    freq_input = fr.index.freq
'''),
    (S, '''    if not freq_input and not tz_input and tz:  # left -> tz-aware (try)
        # fr is tz-agnostic.
        try:
            fr_aware = fr.tz_localize(tz, ambiguous="infer")
        except (AmbiguousTimeError, NonExistentTimeError):
            pass  # fr did not need / cound not be localized. Continue with fr as-is.
        else:
            # Could be localized. Again remove localization if force == 'agnostic' or None.
            force_to = force or "agnostic"
            return frame(fr_aware, force_to, "left", tz=tz, floating=floating)
''', '''    if freq_input is None and fr.index.tz is None and tz is not None:
        fr_aware = _try_localize(fr, tz)
        if fr_aware is not None:
            return frame(fr_aware, "agnostic" if force is None else force, tz=tz)
'''),
    (S, '''def _fix_rightbound(fr, force, tz, floating):
    for how in ["A", "B"]:
        try:
            i_left = tools_righttoleft.index(fr.index, how)
            fr_left = fr.set_axis(i_left)
            return frame(fr_left, force, "left", tz=tz, floating=floating)
        except ValueError:
            pass
    raise ValueError("Cannot make this frame left-bound.")
''', '''def _try_localize(fr, tz):
    try:
        return fr.tz_localize(tz, ambiguous="infer")
    except (AmbiguousTimeError, NonExistentTimeError):
        return None


def _fix_rightbound(fr, **kwargs):
    def attempt(how):
        return frame(fr.set_axis(tools_righttoleft.index(fr.index, how)), **kwargs)

    try:
        return attempt("A")
    except ValueError:
        try:
            return attempt("B")
        except ValueError as e:
            raise ValueError("Cannot make this frame left-bound.") from e
'''),
    (S, '''    if force is None:
        return fr
    elif force == "aware":
        return tools_tzone.force_aware(fr, tz, floating=floating)
    elif force == "agnostic" or force == "naive":
        return tools_tzone.force_agnostic(fr)
    raise ValueError(''', '''    if force in ("agnostic", "naive"):
        return tools_tzone.force_agnostic(fr)
    if force == "aware":
        return tools_tzone.force_aware(fr, tz=tz, floating=floating)
    if force is None:
        return fr
    raise ValueError('''),
    (S, '''    # Fix timezone.
    fr = _fix_timezone(fr, force, tz, floating)

    # Check if index is OK; otherwise raise error.
    try:
        assert_frame_standardized(fr)
    except AssertionError as e:
        raise ValueError("Could not standardize this frame") from e

    # Standardize index name.
    fr = _standardize_index_name(fr)
    # After standardizing timezone, the frequency should have been set.
    fr = tools_freq.set_to_frame(fr, freq_input)
''', '''    # Fix timezone and index name.
    fr = _fix_timezone(fr, force, tz, floating).rename_axis("ts_left")

    # After standardizing timezone, the frequency should have been set.
    fr = tools_freq.set_to_frame(fr, freq_input)

    # Check if index is OK; otherwise raise error.
    try:
        assert_index_standardized(fr.index)
    except AssertionError as e:
        raise ValueError("Could not standardize this frame") from e
'''),
]
R["standardize_small"] = [
    (S, '''    return fr.rename_axis(index="ts_left")''', '''    i = fr.index.rename("ts_left")
    return fr.set_axis(i)'''),
    (S, '''            i_left = tools_righttoleft.index(fr.index, how)
            fr_left = fr.set_axis(i_left)
''', '''            fr_left = fr.copy()
            fr_left.index = tools_righttoleft.index(fr_left.index, how=how)
'''),
    (S, '''            fr_aware = fr.tz_localize(tz, ambiguous="infer")
''', '''            fr_aware = fr.set_axis(fr.index.tz_localize(tz=tz, ambiguous="infer"))
'''),
]
R["tzone_dispatch"] = [
    (Z, '''    if fr.index.tz == tz:
        # input already has wanted tz; no conversion necessary
        return fr

    elif not floating:
        # convertion using universal time
        return fr.tz_convert(tz)

    else:
        # conversion by keeping local time
        # Defer to A -> B -> A
        return _B_to_A(_A_to_B(fr), tz=tz)
''', '''    if fr.index.tz != tz:
        if floating:
            agnostic = _aware_to_agnostic(fr)
            return _agnostic_to_aware(agnostic, tz)
        fr = fr.set_axis(fr.index.tz_convert(tz))
    return fr
'''),
    (Z, '''    # Do conversion.
    if tz_input:  # input is tz-aware but maybe not in the correct timezone
        fr_out = _A_to_A(fr, tz=tz, floating=floating)

    else:  # input is standardized tz-agnostic
        fr_out = _B_to_A(fr, tz=tz)
''', '''    # Do conversion.
    fr_out = _B_to_A(fr, tz=tz) if tz_input is None else _A_to_A(fr, tz=tz, floating=floating)
'''),
    (Z, '''    # Do conversion.
    if tz_input:  # input is tz-aware
        fr_out = _A_to_B(fr)

    else:  # input is already standardized tz-agnostic
        fr_out = fr

    # Return: set frequency.
    fr_out = tools_freq.set_to_frame(fr_out, freq_input)
    return fr_out


def _A_to_A''', '''    if tz_input is None:
        return fr
    return tools_freq.set_to_frame(_A_to_B(fr), freq_input)


def _A_to_A'''),
]
