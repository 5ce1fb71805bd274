"""Public attribute names of the outside libraries (tables, taken from the installed versions)."""

NAMES = {
    'Series': frozenset(
        'T abs add add_prefix add_suffix agg aggregate align all any apply argmax argmin argsort array asfreq asof astype at at_time attrs autocorr axes backfill between between_time bfill bool case_when cat clip combine combine_first compare convert_dtypes copy corr count cov cummax cummin cumprod cumsum describe diff div divide divmod dot drop drop_duplicates droplevel dropna dt dtype dtypes duplicated empty eq equals ewm expanding explode factorize ffill fillna filter first first_valid_index flags floordiv ge get groupby gt hasnans head hist iat idxmax idxmin iloc index infer_objects info interpolate is_monotonic_decreasing is_monotonic_increasing is_unique isin isna isnull item items keys kurt kurtosis last last_valid_index le list loc lt map mask max mean median memory_usage min mod mode mul multiply name nbytes ndim ne nlargest notna notnull nsmallest nunique pad pct_change pint pipe plot pop pow prod product quantile radd rank ravel rdiv rdivmod reindex reindex_like rename rename_axis reorder_levels repeat replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample searchsorted sem set_axis set_flags shape shift size skew sort_index sort_values sparse squeeze std str struct sub subtract sum swapaxes swaplevel tail take to_clipboard to_csv to_dict to_excel to_frame to_hdf to_json to_latex to_list to_markdown to_numpy to_period to_pickle to_sql to_string to_timestamp to_xarray tolist transform transpose truediv truncate tz_convert tz_localize unique unstack update value_counts values var view where xs'.split()
    ),
    'DataFrame': frozenset(
        'T abs add add_prefix add_suffix agg aggregate align all any apply applymap asfreq asof assign astype at at_time attrs axes backfill between_time bfill bool boxplot clip columns combine combine_first compare convert_dtypes copy corr corrwith count cov cummax cummin cumprod cumsum describe diff div divide dot drop drop_duplicates droplevel dropna dtypes duplicated empty eq equals eval ewm expanding explode ffill fillna filter first first_valid_index flags floordiv from_dict from_records ge get groupby gt head hist iat idxmax idxmin iloc index infer_objects info insert interpolate isetitem isin isna isnull items iterrows itertuples join keys kurt kurtosis last last_valid_index le loc lt map mask max mean median melt memory_usage merge min mod mode mul multiply ndim ne nlargest notna notnull nsmallest nunique pad pct_change pint pipe pivot pivot_table plot pop pow prod product quantile query radd rank rdiv reindex reindex_like rename rename_axis reorder_levels replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample select_dtypes sem set_axis set_flags set_index shape shift size skew sort_index sort_values sparse squeeze stack std style sub subtract sum swapaxes swaplevel tail take to_clipboard to_csv to_dict to_excel to_feather to_gbq to_hdf to_html to_json to_latex to_markdown to_numpy to_orc to_parquet to_period to_pickle to_records to_sql to_stata to_string to_timestamp to_xarray to_xml transform transpose truediv truncate tz_convert tz_localize unstack update value_counts values var where xs'.split()
    ),
    'DatetimeIndex': frozenset(
        'T all any append argmax argmin argsort array as_unit asi8 asof asof_locs astype ceil copy date day day_name day_of_week day_of_year dayofweek dayofyear days_in_month daysinmonth delete diff difference drop drop_duplicates droplevel dropna dtype duplicated empty equals factorize fillna floor format freq freqstr get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc get_slice_bound groupby has_duplicates hasnans holds_integer hour identical indexer_at_time indexer_between_time infer_objects inferred_freq inferred_type insert intersection is_ is_boolean is_categorical is_floating is_integer is_interval is_leap_year is_monotonic_decreasing is_monotonic_increasing is_month_end is_month_start is_normalized is_numeric is_object is_quarter_end is_quarter_start is_unique is_year_end is_year_start isin isna isnull isocalendar item join map max mean memory_usage microsecond min minute month month_name name names nanosecond nbytes ndim nlevels normalize notna notnull nunique putmask quarter ravel reindex rename repeat resolution round searchsorted second set_names shape shift size slice_indexer slice_locs snap sort sort_values sortlevel std str strftime symmetric_difference take time timetz to_flat_index to_frame to_julian_date to_list to_numpy to_period to_pydatetime to_series tolist transpose tz tz_convert tz_localize tzinfo union unique unit value_counts values view weekday where year'.split()
    ),
    'Timestamp': frozenset(
        'as_unit asm8 astimezone ceil combine ctime date day day_name day_of_week day_of_year dayofweek dayofyear days_in_month daysinmonth dst floor fold fromisocalendar fromisoformat fromordinal fromtimestamp hour is_leap_year is_month_end is_month_start is_quarter_end is_quarter_start is_year_end is_year_start isocalendar isoformat isoweekday max microsecond min minute month month_name nanosecond normalize now quarter replace resolution round second strftime strptime time timestamp timetuple timetz to_datetime64 to_julian_date to_numpy to_period to_pydatetime today toordinal tz tz_convert tz_localize tzinfo tzname unit utcfromtimestamp utcnow utcoffset utctimetuple value week weekday weekofyear year'.split()
    ),
    'Index': frozenset(
        'T all any append argmax argmin argsort array asof asof_locs astype copy delete diff difference drop drop_duplicates droplevel dropna dtype duplicated empty equals factorize fillna format get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc get_slice_bound groupby has_duplicates hasnans holds_integer identical infer_objects inferred_type insert intersection is_ is_boolean is_categorical is_floating is_integer is_interval is_monotonic_decreasing is_monotonic_increasing is_numeric is_object is_unique isin isna isnull item join map max memory_usage min name names nbytes ndim nlevels notna notnull nunique putmask ravel reindex rename repeat round searchsorted set_names shape shift size slice_indexer slice_locs sort sort_values sortlevel str symmetric_difference take to_flat_index to_frame to_list to_numpy to_series tolist transpose union unique value_counts values view where'.split()
    ),
    'MultiIndex': frozenset(
        'T all any append argmax argmin argsort array asof asof_locs astype codes copy delete diff difference drop drop_duplicates droplevel dropna dtype dtypes duplicated empty equal_levels equals factorize fillna format from_arrays from_frame from_product from_tuples get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc get_loc_level get_locs get_slice_bound groupby has_duplicates hasnans holds_integer identical infer_objects inferred_type insert intersection is_ is_boolean is_categorical is_floating is_integer is_interval is_monotonic_decreasing is_monotonic_increasing is_numeric is_object is_unique isin isna isnull item join levels levshape map max memory_usage min name names nbytes ndim nlevels notna notnull nunique putmask ravel reindex remove_unused_levels rename reorder_levels repeat round searchsorted set_codes set_levels set_names shape shift size slice_indexer slice_locs sort sort_values sortlevel str swaplevel symmetric_difference take to_flat_index to_frame to_list to_numpy to_series tolist transpose truncate union unique value_counts values view where'.split()
    ),
    'pandas': frozenset(
        'ArrowDtype BooleanDtype Categorical CategoricalDtype CategoricalIndex DataFrame DateOffset DatetimeIndex DatetimeTZDtype ExcelFile ExcelWriter Flags Float32Dtype Float64Dtype Grouper HDFStore Index IndexSlice Int16Dtype Int32Dtype Int64Dtype Int8Dtype Interval IntervalDtype IntervalIndex MultiIndex NA NaT NamedAgg Period PeriodDtype PeriodIndex RangeIndex Series SparseDtype StringDtype Timedelta TimedeltaIndex Timestamp UInt16Dtype UInt32Dtype UInt64Dtype UInt8Dtype annotations api array arrays bdate_range compat concat core crosstab cut date_range describe_option errors eval factorize from_dummies get_dummies get_option infer_freq interval_range io isna isnull json_normalize lreshape melt merge merge_asof merge_ordered notna notnull offsets option_context options pandas period_range pivot pivot_table plotting qcut read_clipboard read_csv read_excel read_feather read_fwf read_gbq read_hdf read_html read_json read_orc read_parquet read_pickle read_sas read_spss read_sql read_sql_query read_sql_table read_stata read_table read_xml reset_option set_eng_float_format set_option show_versions test testing timedelta_range to_datetime to_numeric to_pickle to_timedelta tseries unique util value_counts wide_to_long'.split()
    ),
    'numpy': frozenset(
        'ALLOW_THREADS BUFSIZE CLIP DataSource ERR_CALL ERR_DEFAULT ERR_IGNORE ERR_LOG ERR_PRINT ERR_RAISE ERR_WARN FLOATING_POINT_SUPPORT FPE_DIVIDEBYZERO FPE_INVALID FPE_OVERFLOW FPE_UNDERFLOW False_ Inf Infinity MAXDIMS MAY_SHARE_BOUNDS MAY_SHARE_EXACT NAN NINF NZERO NaN PINF PZERO RAISE RankWarning SHIFT_DIVIDEBYZERO SHIFT_INVALID SHIFT_OVERFLOW SHIFT_UNDERFLOW ScalarType True_ UFUNC_BUFSIZE_DEFAULT UFUNC_PYVALS_NAME WRAP abs absolute add add_docstring add_newdoc add_newdoc_ufunc all allclose alltrue amax amin angle any append apply_along_axis apply_over_axes arange arccos arccosh arcsin arcsinh arctan arctan2 arctanh argmax argmin argpartition argsort argwhere around array array2string array_equal array_equiv array_repr array_split array_str asanyarray asarray asarray_chkfinite ascontiguousarray asfarray asfortranarray asmatrix atleast_1d atleast_2d atleast_3d average bartlett base_repr binary_repr bincount bitwise_and bitwise_not bitwise_or bitwise_xor blackman block bmat bool_ broadcast broadcast_arrays broadcast_shapes broadcast_to busday_count busday_offset busdaycalendar byte byte_bounds bytes_ c_ can_cast cast cbrt cdouble ceil cfloat char character chararray choose clip clongdouble clongfloat column_stack common_type compare_chararrays compat complex128 complex256 complex64 complex_ complexfloating compress concatenate conj conjugate convolve copy copysign copyto corrcoef correlate cos cosh count_nonzero cov cross csingle ctypeslib cumprod cumproduct cumsum datetime64 datetime_as_string datetime_data deg2rad degrees delete deprecate deprecate_with_doc diag diag_indices diag_indices_from diagflat diagonal diff digitize disp divide divmod dot double dsplit dstack dtype dtypes e ediff1d einsum einsum_path emath empty empty_like equal errstate euler_gamma exceptions exp exp2 expand_dims expm1 extract eye fabs fastCopyAndTranspose fft fill_diagonal find_common_type finfo fix flatiter flatnonzero flexible flip fliplr flipud float128 float16 float32 float64 float_ float_power floating floor floor_divide fmax fmin fmod format_float_positional format_float_scientific format_parser frexp from_dlpack frombuffer fromfile fromfunction fromiter frompyfunc fromregex fromstring full full_like gcd generic genfromtxt geomspace get_array_wrap get_include get_printoptions getbufsize geterr geterrcall geterrobj gradient greater greater_equal half hamming hanning heaviside histogram histogram2d histogram_bin_edges histogramdd hsplit hstack hypot i0 identity iinfo imag in1d index_exp indices inexact inf info infty inner insert int16 int32 int64 int8 int_ intc integer interp intersect1d intp invert is_busday isclose iscomplex iscomplexobj isfinite isfortran isin isinf isnan isnat isneginf isposinf isreal isrealobj isscalar issctype issubclass_ issubdtype issubsctype iterable ix_ kaiser kernel_version kron lcm ldexp left_shift less less_equal lexsort lib linalg linspace little_endian load loadtxt log log10 log1p log2 logaddexp logaddexp2 logical_and logical_not logical_or logical_xor logspace longcomplex longdouble longfloat longlong lookfor ma mask_indices mat matmul matrix max maximum maximum_sctype may_share_memory mean median memmap meshgrid mgrid min min_scalar_type minimum mintypecode mod modf moveaxis msort multiply nan nan_to_num nanargmax nanargmin nancumprod nancumsum nanmax nanmean nanmedian nanmin nanpercentile nanprod nanquantile nanstd nansum nanvar nbytes ndarray ndenumerate ndim ndindex nditer negative nested_iters newaxis nextafter nonzero not_equal numarray number obj2sctype object_ ogrid oldnumeric ones ones_like outer packbits pad partition percentile pi piecewise place poly poly1d polyadd polyder polydiv polyfit polyint polymul polynomial polysub polyval positive power printoptions prod product promote_types ptp put put_along_axis putmask quantile r_ rad2deg radians random ravel ravel_multi_index real real_if_close rec recarray recfromcsv recfromtxt reciprocal record remainder repeat require reshape resize result_type right_shift rint roll rollaxis roots rot90 round round_ row_stack s_ safe_eval save savetxt savez savez_compressed sctype2char sctypeDict sctypes searchsorted select set_numeric_ops set_printoptions set_string_function setbufsize setdiff1d seterr seterrcall seterrobj setxor1d shape shares_memory short show_config show_runtime sign signbit signedinteger sin sinc single singlecomplex sinh size sometrue sort sort_complex source spacing split sqrt square squeeze stack std str_ string_ subtract sum swapaxes take take_along_axis tan tanh tensordot test testing tile timedelta64 trace tracemalloc_domain transpose trapz tri tril tril_indices tril_indices_from trim_zeros triu triu_indices triu_indices_from true_divide trunc typecodes typename ubyte ufunc uint uint16 uint32 uint64 uint8 uintc uintp ulonglong unicode_ union1d unique unpackbits unravel_index unsignedinteger unwrap ushort vander var vdot vectorize version void vsplit vstack where who zeros zeros_like'.split()
    ),
    'Timedelta': frozenset(
        'as_unit asm8 ceil components days floor isoformat max microseconds min nanoseconds resolution resolution_string round seconds to_numpy to_pytimedelta to_timedelta64 total_seconds unit value view'.split()
    ),
    'offset': frozenset(
        'base copy freqstr is_anchored is_month_end is_month_start is_on_offset is_quarter_end is_quarter_start is_year_end is_year_start kwds n name nanos normalize rollback rollforward rule_code'.split()
    ),
    'Unit': frozenset(
        'compare compatible_units dimensionality dimensionless format_babel from_ is_compatible_with m_from systems'.split()
    ),
    'Quantity': frozenset(
        'T UnitsContainer check clip compare compatible_units compute dimensionality dimensionless dot dtype fill flat force_ndarray force_ndarray_like format_babel from_list from_sequence from_tuple imag is_compatible_with ito ito_base_units ito_preferred ito_reduced_units ito_root_units m m_as magnitude ndim persist plus_minus prod put real searchsorted shape to to_base_units to_compact to_preferred to_reduced_units to_root_units to_timedelta to_tuple tolist u unit_items unitless units visualize'.split()
    ),
    'pint': frozenset(
        'ApplicationRegistry Context DefinitionSyntaxError DimensionalityError Group LazyRegistry LogarithmicUnitCalculusError Measurement OffsetUnitCalculusError PintError Quantity RedefinitionError UndefinedUnitError Unit UnitRegistry UnitStrippedWarning annotations application_registry babel_names compat converters delegates errors facets formatter formatting get_application_registry logger pi_theorem pint_eval register_unit_format registry registry_helpers set_application_registry util version'.split()
    ),
    'ndarray': frozenset(
        'T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split()
    ),
    'resampler': frozenset(
        'agg aggregate apply asfreq bfill count exclusions ffill fillna first get_group grouper groups indices interpolate keys last level max mean median min ndim nearest ngroups nunique ohlc pipe prod quantile sem size std sum transform var'.split()
    ),
    'groupby': frozenset(
        'agg aggregate all any apply bfill corr count cov cumcount cummax cummin cumprod cumsum describe diff dtype ewm expanding ffill fillna filter first get_group grouper groups head hist idxmax idxmin indices is_monotonic_decreasing is_monotonic_increasing keys last level max mean median min ndim ngroup ngroups nlargest nsmallest nth nunique ohlc pct_change pipe plot prod quantile rank resample rolling sample sem shift size skew std sum tail take transform unique value_counts var'.split()
    ),
    'groupbyf': frozenset(
        'agg aggregate all any apply bfill boxplot corr corrwith count cov cumcount cummax cummin cumprod cumsum describe diff dtypes ewm expanding ffill fillna filter first get_group grouper groups head hist idxmax idxmin indices keys last level max mean median min ndim ngroup ngroups nth nunique ohlc pct_change pipe plot prod quantile rank resample rolling sample sem shift size skew std sum tail take transform value_counts var'.split()
    ),
    'matplotlib.pyplot': frozenset(
        'AbstractContextManager Annotation Arrow Artist AutoLocator AxLine Axes BackendFilter Button Circle Colormap Enum ExitStack Figure FigureBase FigureCanvasBase FigureManagerBase FixedFormatter FixedLocator FormatStrFormatter Formatter FuncFormatter GridSpec IndexLocator Line2D LinearLocator Locator LogFormatter LogFormatterExponent LogFormatterMathtext LogLocator MaxNLocator MouseButton MultipleLocator Normalize NullFormatter NullLocator PolarAxes Polygon Rectangle ScalarFormatter Slider Subplot SubplotSpec TYPE_CHECKING Text TickHelper Widget acorr angle_spectrum annotate annotations arrow autoscale autumn axes axhline axhspan axis axline axvline axvspan backend_registry bar bar_label barbs barh bone box boxplot broken_barh cast cbook cla clabel clf clim close cm cohere color_sequences colorbar colormaps connect contour contourf cool copper csd cycler delaxes disconnect draw draw_all draw_if_interactive ecdf errorbar eventplot figaspect figimage figlegend fignum_exists figtext figure fill fill_between fill_betweenx findobj flag functools gca gcf gci get get_backend get_cmap get_current_fig_manager get_figlabels get_fignums get_plot_commands get_scale_names getp ginput gray grid hexbin hist hist2d hlines hot hsv importlib imread imsave imshow inferno inspect install_repl_displayhook interactive ioff ion isinteractive jet legend locator_params logging loglog magma magnitude_spectrum margins matplotlib matshow minorticks_off minorticks_on mlab new_figure_manager nipy_spectral np overload pause pcolor pcolormesh phase_spectrum pie pink plasma plot plot_date polar prism psd quiver quiverkey rc rcParams rcParamsDefault rcParamsOrig rc_context rcdefaults rcsetup rgrids savefig sca scatter sci semilogx semilogy set_cmap set_loglevel setp show specgram spring spy stackplot stairs stem step streamplot style subplot subplot2grid subplot_mosaic subplot_tool subplots subplots_adjust summer suptitle switch_backend sys table text thetagrids threading tick_params ticklabel_format tight_layout time title tricontour tricontourf tripcolor triplot twinx twiny uninstall_repl_displayhook violinplot viridis vlines waitforbuttonpress winter xcorr xkcd xlabel xlim xscale xticks ylabel ylim yscale yticks'.split()
    ),
    'plt.Axes': frozenset(
        'ArtistList acorr add_artist add_callback add_child_axes add_collection add_container add_image add_line add_patch add_table angle_spectrum annotate apply_aspect arrow artists autoscale autoscale_view axes axhline axhspan axis axline axvline axvspan bar bar_label barbs barh boxplot broken_barh bxp can_pan can_zoom cla clabel clear cohere collections contains contains_point contour contourf convert_xunits convert_yunits csd drag_pan draw draw_artist ecdf end_pan errorbar eventplot fill fill_between fill_betweenx findobj format_coord format_cursor_data format_xdata format_ydata get_adjustable get_agg_filter get_alpha get_anchor get_animated get_aspect get_autoscale_on get_autoscalex_on get_autoscaley_on get_axes_locator get_axisbelow get_box_aspect get_children get_clip_box get_clip_on get_clip_path get_cursor_data get_data_ratio get_default_bbox_extra_artists get_facecolor get_fc get_figure get_forward_navigation_events get_frame_on get_gid get_gridspec get_images get_in_layout get_label get_legend get_legend_handles_labels get_lines get_mouseover get_navigate get_navigate_mode get_path_effects get_picker get_position get_rasterization_zorder get_rasterized get_shared_x_axes get_shared_y_axes get_sketch_params get_snap get_subplotspec get_tightbbox get_title get_transform get_transformed_clip_path_and_affine get_url get_visible get_window_extent get_xaxis get_xaxis_text1_transform get_xaxis_text2_transform get_xaxis_transform get_xbound get_xgridlines get_xlabel get_xlim get_xmajorticklabels get_xmargin get_xminorticklabels get_xscale get_xticklabels get_xticklines get_xticks get_yaxis get_yaxis_text1_transform get_yaxis_text2_transform get_yaxis_transform get_ybound get_ygridlines get_ylabel get_ylim get_ymajorticklabels get_ymargin get_yminorticklabels get_yscale get_yticklabels get_yticklines get_yticks get_zorder grid has_data have_units hexbin hist hist2d hlines images imshow in_axes indicate_inset indicate_inset_zoom inset_axes invert_xaxis invert_yaxis is_transform_set label_outer legend lines locator_params loglog magnitude_spectrum margins matshow minorticks_off minorticks_on mouseover name patches pchanged pcolor pcolorfast pcolormesh phase_spectrum pick pickable pie plot plot_date properties psd quiver quiverkey redraw_in_frame relim remove remove_callback reset_position scatter secondary_xaxis secondary_yaxis semilogx semilogy set set_adjustable set_agg_filter set_alpha set_anchor set_animated set_aspect set_autoscale_on set_autoscalex_on set_autoscaley_on set_axes_locator set_axis_off set_axis_on set_axisbelow set_box_aspect set_clip_box set_clip_on set_clip_path set_facecolor set_fc set_figure set_forward_navigation_events set_frame_on set_gid set_in_layout set_label set_mouseover set_navigate set_navigate_mode set_path_effects set_picker set_position set_prop_cycle set_rasterization_zorder set_rasterized set_sketch_params set_snap set_subplotspec set_title set_transform set_url set_visible set_xbound set_xlabel set_xlim set_xmargin set_xscale set_xticklabels set_xticks set_ybound set_ylabel set_ylim set_ymargin set_yscale set_yticklabels set_yticks set_zorder sharex sharey specgram spy stackplot stairs stale start_pan stem step sticky_edges streamplot table tables text texts tick_params ticklabel_format tricontour tricontourf tripcolor triplot twinx twiny update update_datalim update_from use_sticky_edges viewLim violin violinplot vlines xaxis_date xaxis_inverted xcorr yaxis_date yaxis_inverted zorder'.split()
    ),
    'datetime': frozenset(
        'MAXYEAR MINYEAR UTC date datetime datetime_CAPI time timedelta timezone tzinfo'.split()
    ),
    'functools': frozenset(
        'GenericAlias RLock WRAPPER_ASSIGNMENTS WRAPPER_UPDATES cache cached_property cmp_to_key get_cache_token lru_cache namedtuple partial partialmethod recursive_repr reduce singledispatch singledispatchmethod total_ordering update_wrapper wraps'.split()
    ),
    'pandas.api.types': frozenset(
        'CategoricalDtype DatetimeTZDtype IntervalDtype PeriodDtype infer_dtype is_any_real_numeric_dtype is_array_like is_bool is_bool_dtype is_categorical_dtype is_complex is_complex_dtype is_datetime64_any_dtype is_datetime64_dtype is_datetime64_ns_dtype is_datetime64tz_dtype is_dict_like is_dtype_equal is_extension_array_dtype is_file_like is_float is_float_dtype is_hashable is_int64_dtype is_integer is_integer_dtype is_interval is_interval_dtype is_iterator is_list_like is_named_tuple is_number is_numeric_dtype is_object_dtype is_period_dtype is_re is_re_compilable is_scalar is_signed_integer_dtype is_sparse is_string_dtype is_timedelta64_dtype is_timedelta64_ns_dtype is_unsigned_integer_dtype pandas_dtype union_categoricals'.split()
    ),
    'pandas.testing': frozenset(
        'assert_extension_array_equal assert_frame_equal assert_index_equal assert_series_equal'.split()
    ),
    'pandas.tseries.frequencies': frozenset(
        'ABCIndex ABCSeries DAYS DateOffset DatetimeTZDtype Day MONTHS MONTH_ALIASES MONTH_NUMBERS OFFSET_TO_PERIOD_FREQSTR PeriodDtype TYPE_CHECKING Timestamp annotations build_field_sarray cache_readonly freq_to_period_freqstr get_period_alias get_rule_month get_unit_from_dtype infer_freq int_to_weekday is_numeric_dtype is_subperiod is_superperiod key lib month_position_check np periods_per_day to_offset tz_convert_from_utc unique unique_deltas'.split()
    ),
    'pandas.tseries.offsets': frozenset(
        'BDay BMonthBegin BMonthEnd BQuarterBegin BQuarterEnd BYearBegin BYearEnd BaseOffset BusinessDay BusinessHour BusinessMonthBegin BusinessMonthEnd CBMonthBegin CBMonthEnd CDay CustomBusinessDay CustomBusinessHour CustomBusinessMonthBegin CustomBusinessMonthEnd DateOffset Day Easter FY5253 FY5253Quarter Hour LastWeekOfMonth Micro Milli Minute MonthBegin MonthEnd Nano QuarterBegin QuarterEnd Second SemiMonthBegin SemiMonthEnd Tick Week WeekOfMonth YearBegin YearEnd annotations'.split()
    ),
}
