"""The public functions and methods of the package (as of the pinned version)."""

PUBLIC = frozenset(
    """
    portfolyo.core.commodity.commodity.Commodity.__post_init__
    portfolyo.core.extendpandas.apply
    portfolyo.core.pfline.arithmatic.Add.two_flatpflines
    portfolyo.core.pfline.arithmatic.Add.two_nestedpflines
    portfolyo.core.pfline.arithmatic.Add.two_pflines
    portfolyo.core.pfline.arithmatic.Divide.two_flatpflines
    portfolyo.core.pfline.arithmatic.Divide.two_pflines
    portfolyo.core.pfline.arithmatic.Multiply.flatpfline_and_series
    portfolyo.core.pfline.arithmatic.Multiply.nestedpfline_and_series
    portfolyo.core.pfline.arithmatic.Multiply.pfline_and_series
    portfolyo.core.pfline.arithmatic.Multiply.two_flatpflines
    portfolyo.core.pfline.arithmatic.Multiply.two_pflines
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__add__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__mul__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__neg__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__or__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__radd__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__rmul__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__ror__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__rsub__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__rtruediv__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__sub__
    portfolyo.core.pfline.arithmatic.PfLineArithmatic.__truediv__
    portfolyo.core.pfline.arithmatic.Prep.assert_objects_indexcompatibility
    portfolyo.core.pfline.arithmatic.Prep.assert_pflines_distinctkind
    portfolyo.core.pfline.arithmatic.Prep.assert_pflines_samekind
    portfolyo.core.pfline.arithmatic.Prep.ensure_otherpfline_flat
    portfolyo.core.pfline.arithmatic.Prep.ensure_pflines_flat
    portfolyo.core.pfline.arithmatic.Prep.ensure_pflines_samestructure
    portfolyo.core.pfline.arithmatic.Prep.raiseerror_if_otherNone
    portfolyo.core.pfline.arithmatic.Prep.raiseerror_if_otherdimlessseries
    portfolyo.core.pfline.arithmatic.Prep.returnself_if_otherNone
    portfolyo.core.pfline.arithmatic.Prep.returnself_if_otherzerofloatseries
    portfolyo.core.pfline.arithmatic.Prep.standardize_other
    portfolyo.core.pfline.arithmatic.Unite.two_flatpflines
    portfolyo.core.pfline.arithmatic.Unite.two_pflines
    portfolyo.core.pfline.children.ChildFunctionality.__getattr__
    portfolyo.core.pfline.children.ChildFunctionality.__getitem__
    portfolyo.core.pfline.children.ChildFunctionality.__iter__
    portfolyo.core.pfline.children.ChildFunctionality.__len__
    portfolyo.core.pfline.children.ChildFunctionality.drop_child
    portfolyo.core.pfline.children.ChildFunctionality.items
    portfolyo.core.pfline.children.ChildFunctionality.set_child
    portfolyo.core.pfline.classes.FlatCompletePfLine.__bool__
    portfolyo.core.pfline.classes.FlatCompletePfLine.asfreq
    portfolyo.core.pfline.classes.FlatCompletePfLine.price
    portfolyo.core.pfline.classes.FlatCompletePfLine.reindex
    portfolyo.core.pfline.classes.FlatCompletePfLine.revenue
    portfolyo.core.pfline.classes.FlatCompletePfLine.volume
    portfolyo.core.pfline.classes.FlatPricePfLine.__bool__
    portfolyo.core.pfline.classes.FlatPricePfLine.asfreq
    portfolyo.core.pfline.classes.FlatRevenuePfLine.__bool__
    portfolyo.core.pfline.classes.FlatRevenuePfLine.asfreq
    portfolyo.core.pfline.classes.FlatVolumePfLine.__bool__
    portfolyo.core.pfline.classes.FlatVolumePfLine.asfreq
    portfolyo.core.pfline.classes.NestedCompletePfLine.__post_init__
    portfolyo.core.pfline.classes.NestedCompletePfLine.asfreq
    portfolyo.core.pfline.classes.NestedCompletePfLine.price
    portfolyo.core.pfline.classes.NestedCompletePfLine.revenue
    portfolyo.core.pfline.classes.NestedCompletePfLine.volume
    portfolyo.core.pfline.classes.NestedPricePfLine.__post_init__
    portfolyo.core.pfline.classes.NestedPricePfLine.asfreq
    portfolyo.core.pfline.classes.NestedRevenuePfLine.__post_init__
    portfolyo.core.pfline.classes.NestedRevenuePfLine.asfreq
    portfolyo.core.pfline.classes.NestedVolumePfLine.__post_init__
    portfolyo.core.pfline.classes.NestedVolumePfLine.asfreq
    portfolyo.core.pfline.classes.PfLine.__bool__
    portfolyo.core.pfline.classes.PfLine.__eq__
    portfolyo.core.pfline.classes.PfLine.__new__
    portfolyo.core.pfline.classes.PfLine.__post_init__
    portfolyo.core.pfline.classes.PfLine.end
    portfolyo.core.pfline.classes.PfLine.flatten
    portfolyo.core.pfline.classes.PfLine.hedge_with
    portfolyo.core.pfline.classes.PfLine.index
    portfolyo.core.pfline.classes.PfLine.kind
    portfolyo.core.pfline.classes.PfLine.p
    portfolyo.core.pfline.classes.PfLine.po
    portfolyo.core.pfline.classes.PfLine.price
    portfolyo.core.pfline.classes.PfLine.q
    portfolyo.core.pfline.classes.PfLine.r
    portfolyo.core.pfline.classes.PfLine.reindex
    portfolyo.core.pfline.classes.PfLine.revenue
    portfolyo.core.pfline.classes.PfLine.start
    portfolyo.core.pfline.classes.PfLine.structure
    portfolyo.core.pfline.classes.PfLine.volume
    portfolyo.core.pfline.classes.PfLine.w
    portfolyo.core.pfline.classes.constructor
    portfolyo.core.pfline.classes.dont_init_twice
    portfolyo.core.pfline.classes.series_property_raising_typeerror
    portfolyo.core.pfline.create.flatpfline
    portfolyo.core.pfline.create.nestedpfline
    portfolyo.core.pfline.create.pfline
    portfolyo.core.pfline.dataframeexport.Flat.dataframe
    portfolyo.core.pfline.dataframeexport.Nested.dataframe
    portfolyo.core.pfline.decorators.assert_longest_allowed_freq
    portfolyo.core.pfline.decorators.assert_shortest_allowed_freq
    portfolyo.core.pfline.enums.Kind.__repr__
    portfolyo.core.pfline.enums.Kind.__str__
    portfolyo.core.pfline.enums.Kind.available
    portfolyo.core.pfline.enums.Kind.summable
    portfolyo.core.pfline.flat_helper.dataframe_and_kind
    portfolyo.core.pfline.flat_methods.LocIndexer.__getitem__
    portfolyo.core.pfline.flat_methods.LocIndexer.__init__
    portfolyo.core.pfline.flat_methods.SliceIndexer.__getitem__
    portfolyo.core.pfline.flat_methods.SliceIndexer.__init__
    portfolyo.core.pfline.flat_methods.__eq__
    portfolyo.core.pfline.flat_methods.__getitem__
    portfolyo.core.pfline.flat_methods.flatten
    portfolyo.core.pfline.flat_methods.hedge_with
    portfolyo.core.pfline.flat_methods.loc
    portfolyo.core.pfline.flat_methods.po
    portfolyo.core.pfline.flat_methods.reindex
    portfolyo.core.pfline.flat_methods.slice
    portfolyo.core.pfline.interop.InOp.__bool__
    portfolyo.core.pfline.interop.InOp.__eq__
    portfolyo.core.pfline.interop.InOp.__or__
    portfolyo.core.pfline.interop.InOp.__post_init__
    portfolyo.core.pfline.interop.InOp.assign_agn
    portfolyo.core.pfline.interop.InOp.drop
    portfolyo.core.pfline.interop.InOp.from_data
    portfolyo.core.pfline.interop.InOp.make_consistent
    portfolyo.core.pfline.interop.InOp.to_df
    portfolyo.core.pfline.interop.InOp.to_timeseries
    portfolyo.core.pfline.interop.pfline_or_nodimseries
    portfolyo.core.pfline.nested_helper.children_and_kind
    portfolyo.core.pfline.nested_methods.LocIndexer.__getitem__
    portfolyo.core.pfline.nested_methods.LocIndexer.__init__
    portfolyo.core.pfline.nested_methods.SliceIndexer.__getitem__
    portfolyo.core.pfline.nested_methods.SliceIndexer.__init__
    portfolyo.core.pfline.nested_methods.__bool__
    portfolyo.core.pfline.nested_methods.__eq__
    portfolyo.core.pfline.nested_methods.flatten
    portfolyo.core.pfline.nested_methods.hedge_with
    portfolyo.core.pfline.nested_methods.loc
    portfolyo.core.pfline.nested_methods.po
    portfolyo.core.pfline.nested_methods.reindex
    portfolyo.core.pfline.nested_methods.slice
    portfolyo.core.pfline.plot.PfLinePlot.plot
    portfolyo.core.pfline.plot.PfLinePlot.plot_to_ax
    portfolyo.core.pfline.plot.defaultkwargs
    portfolyo.core.pfline.plot.plotfn_and_kwargs
    portfolyo.core.pfline.text.PfLineText.__repr__
    portfolyo.core.pfline.text.PfLineText.print
    portfolyo.core.pfline.text.nestedtree
    portfolyo.core.pfline.text.pfl_as_string
    portfolyo.core.pfstate.arithmatic.Add.two_pfstates
    portfolyo.core.pfstate.arithmatic.Divide.two_pfstates
    portfolyo.core.pfstate.arithmatic.Multiply.pfstate_and_series
    portfolyo.core.pfstate.arithmatic.PfStateArithmatic.__add__
    portfolyo.core.pfstate.arithmatic.PfStateArithmatic.__mul__
    portfolyo.core.pfstate.arithmatic.PfStateArithmatic.__neg__
    portfolyo.core.pfstate.arithmatic.PfStateArithmatic.__radd__
    portfolyo.core.pfstate.arithmatic.PfStateArithmatic.__rmul__
    portfolyo.core.pfstate.arithmatic.PfStateArithmatic.__rsub__
    portfolyo.core.pfstate.arithmatic.PfStateArithmatic.__sub__
    portfolyo.core.pfstate.arithmatic.PfStateArithmatic.__truediv__
    portfolyo.core.pfstate.arithmatic.Prep.assert_objects_indexcompatibility
    portfolyo.core.pfstate.arithmatic.Prep.raiseerror_if_otherNone
    portfolyo.core.pfstate.arithmatic.Prep.returnself_if_otherNone
    portfolyo.core.pfstate.arithmatic.Prep.standardize_other
    portfolyo.core.pfstate.pfstate.PfState.__bool__
    portfolyo.core.pfstate.pfstate.PfState.__eq__
    portfolyo.core.pfstate.pfstate.PfState.__getitem__
    portfolyo.core.pfstate.pfstate.PfState.__post_init__
    portfolyo.core.pfstate.pfstate.PfState.add_sourced
    portfolyo.core.pfstate.pfstate.PfState.asfreq
    portfolyo.core.pfstate.pfstate.PfState.dataframe
    portfolyo.core.pfstate.pfstate.PfState.from_series
    portfolyo.core.pfstate.pfstate.PfState.hedge_of_unsourced
    portfolyo.core.pfstate.pfstate.PfState.index
    portfolyo.core.pfstate.pfstate.PfState.loc
    portfolyo.core.pfstate.pfstate.PfState.mtm_of_sourced
    portfolyo.core.pfstate.pfstate.PfState.netposition
    portfolyo.core.pfstate.pfstate.PfState.offtake
    portfolyo.core.pfstate.pfstate.PfState.pnl_cost
    portfolyo.core.pfstate.pfstate.PfState.set_offtakevolume
    portfolyo.core.pfstate.pfstate.PfState.set_sourced
    portfolyo.core.pfstate.pfstate.PfState.set_unsourcedprice
    portfolyo.core.pfstate.pfstate.PfState.slice
    portfolyo.core.pfstate.pfstate.PfState.source_unsourced
    portfolyo.core.pfstate.pfstate.PfState.sourcedfraction
    portfolyo.core.pfstate.pfstate.PfState.unsourced
    portfolyo.core.pfstate.pfstate.PfState.unsourcedfraction
    portfolyo.core.pfstate.pfstate_helper.make_pflines
    portfolyo.core.pfstate.pfstate_helper.prepare_offtakevolume
    portfolyo.core.pfstate.pfstate_helper.prepare_sourced
    portfolyo.core.pfstate.pfstate_helper.prepare_unsourcedprice
    portfolyo.core.pfstate.plot.PfStatePlot.plot
    portfolyo.core.pfstate.plot.PfStatePlot.set_max_min_limits
    portfolyo.core.pfstate.text.PfStateText.__repr__
    portfolyo.core.pfstate.text.PfStateText.print
    portfolyo.core.pfstate.text.pfs_as_string
    portfolyo.core.shared.excelclipboard.ExcelClipboardOutput.to_clipboard
    portfolyo.core.shared.excelclipboard.ExcelClipboardOutput.to_excel
    portfolyo.core.shared.excelclipboard.prepare_df
    portfolyo.core.shared.ndframelike.NDFrameLike.asfreq
    portfolyo.core.shared.ndframelike.NDFrameLike.dataframe
    portfolyo.core.shared.ndframelike.NDFrameLike.index
    portfolyo.core.shared.ndframelike.NDFrameLike.loc
    portfolyo.core.shared.ndframelike.NDFrameLike.slice
    portfolyo.core.shared.text.dataheader
    portfolyo.core.shared.text.df_with_strindex
    portfolyo.core.shared.text.df_with_strvalues
    portfolyo.core.shared.text.index_info
    portfolyo.core.shared.text.remove_color
    portfolyo.core.shared.text.treedict
    portfolyo.core.suppresswarnings.apply
    portfolyo.dev.develop.get_dataframe
    portfolyo.dev.develop.get_flatpfline
    portfolyo.dev.develop.get_index
    portfolyo.dev.develop.get_nestedpfline
    portfolyo.dev.develop.get_pfline
    portfolyo.dev.develop.get_pfstate
    portfolyo.dev.develop.get_pfstates
    portfolyo.dev.develop.get_randompfline
    portfolyo.dev.develop.get_series
    portfolyo.dev.develop.get_value
    portfolyo.dev.mockup.p_marketprices
    portfolyo.dev.mockup.w_offtake
    portfolyo.dev.mockup.wp_sourced
    portfolyo.get_version
    portfolyo.tools.ceil.stamp
    portfolyo.tools.changefreq.averagable
    portfolyo.tools.changefreq.index
    portfolyo.tools.changefreq.summable
    portfolyo.tools.changeyear.additional_notes
    portfolyo.tools.changeyear.characterize_index
    portfolyo.tools.changeyear.index_with_year
    portfolyo.tools.changeyear.map_frame_to_index
    portfolyo.tools.changeyear.map_frame_to_year
    portfolyo.tools.changeyear.map_index_to_index
    portfolyo.tools.changeyear.map_index_to_year
    portfolyo.tools.duration.frame
    portfolyo.tools.duration.index
    portfolyo.tools.duration.stamp
    portfolyo.tools.floor.stamp
    portfolyo.tools.frame.add_header
    portfolyo.tools.frame.concat
    portfolyo.tools.frame.fill_gaps
    portfolyo.tools.frame.series_allclose
    portfolyo.tools.freq.assert_freq_equally_long
    portfolyo.tools.freq.assert_freq_sufficiently_long
    portfolyo.tools.freq.assert_freq_sufficiently_short
    portfolyo.tools.freq.assert_freq_valid
    portfolyo.tools.freq.from_tdelta
    portfolyo.tools.freq.guess_to_frame
    portfolyo.tools.freq.guess_to_index
    portfolyo.tools.freq.longest
    portfolyo.tools.freq.set_to_frame
    portfolyo.tools.freq.shortest
    portfolyo.tools.freq.to_offset
    portfolyo.tools.freq.up_or_down
    portfolyo.tools.hedge.hedge
    portfolyo.tools.hedge.one_hedge
    portfolyo.tools.intersect.frames
    portfolyo.tools.intersect.indices
    portfolyo.tools.intersect.indices_flex
    portfolyo.tools.isboundary.index
    portfolyo.tools.isboundary.is_X_start
    portfolyo.tools.isboundary.is_month_start
    portfolyo.tools.isboundary.is_quarter_start
    portfolyo.tools.isboundary.is_year_start
    portfolyo.tools.isboundary.stamp
    portfolyo.tools.leftandright.stamps
    portfolyo.tools.peakconvert.complete_bpoframe
    portfolyo.tools.peakconvert.group_index
    portfolyo.tools.peakconvert.poframe2poframe
    portfolyo.tools.peakconvert.poframe2tseries
    portfolyo.tools.peakconvert.tseries2poframe
    portfolyo.tools.peakfn.factory
    portfolyo.tools.peakfn.offpeak_duration
    portfolyo.tools.peakfn.peak_duration
    portfolyo.tools.product.delivery_period
    portfolyo.tools.product.is_peak_hour
    portfolyo.tools.right.index
    portfolyo.tools.right.stamp
    portfolyo.tools.righttoleft.index
    portfolyo.tools.round.stamp_current
    portfolyo.tools.round.stamp_general
    portfolyo.tools.stamp.create
    portfolyo.tools.standardize.assert_frame_standardized
    portfolyo.tools.standardize.assert_index_standardized
    portfolyo.tools.standardize.frame
    portfolyo.tools.startofday.get
    portfolyo.tools.startofday.set
    portfolyo.tools.testing.assert_frame_equal
    portfolyo.tools.testing.assert_indices_compatible
    portfolyo.tools.testing.assert_p_q_r_compatible
    portfolyo.tools.testing.assert_series_equal
    portfolyo.tools.testing.assert_value_equal
    portfolyo.tools.testing.assert_w_q_compatible
    portfolyo.tools.trim.frame
    portfolyo.tools.trim.index
    portfolyo.tools.tzone.force_agnostic
    portfolyo.tools.tzone.force_aware
    portfolyo.tools.unit.avoid_frame_of_objects
    portfolyo.tools.unit.defaultunit
    portfolyo.tools.unit.from_name
    portfolyo.tools.unit.split_magn_unit
    portfolyo.tools.unit.to_name
    portfolyo.tools.visualize.categories.Categories.__init__
    portfolyo.tools.visualize.categories.Categories.categories
    portfolyo.tools.visualize.categories.Categories.labels
    portfolyo.tools.visualize.categories.Categories.short_labels
    portfolyo.tools.visualize.categories.Categories.ts
    portfolyo.tools.visualize.categories.Categories.x
    portfolyo.tools.visualize.categories.Categories.y
    portfolyo.tools.visualize.categories.create_categories
    portfolyo.tools.visualize.categories.priolist
    portfolyo.tools.visualize.colors.Color.darken
    portfolyo.tools.visualize.colors.Color.lighten
    portfolyo.tools.visualize.plot.append_to_doc
    portfolyo.tools.visualize.plot.check_ax_s_compatible
    portfolyo.tools.visualize.plot.get_portfolyo_attr
    portfolyo.tools.visualize.plot.is_categorical
    portfolyo.tools.visualize.plot.plot_timeseries_as_area
    portfolyo.tools.visualize.plot.plot_timeseries_as_bar
    portfolyo.tools.visualize.plot.plot_timeseries_as_hline
    portfolyo.tools.visualize.plot.plot_timeseries_as_step
    portfolyo.tools.visualize.plot.prepare_ax_and_s
    portfolyo.tools.visualize.plot.set_data_labels
    portfolyo.tools.visualize.plot.set_portfolyo_attr
    portfolyo.tools.wavg.concatseries
    portfolyo.tools.wavg.dataframe
    portfolyo.tools.wavg.dataframe_columnwavg_with_weightsdataframe
    portfolyo.tools.wavg.dataframe_columnwavg_with_weightsseries
    portfolyo.tools.wavg.general
    portfolyo.tools.wavg.rowvalue_uniformity
    portfolyo.tools.wavg.series
    portfolyo.tools.wavg.values_areuniform
    portfolyo.tools.wavg.weights_as_series
    portfolyo.tools2.changeyear.map_to_year
    portfolyo.tools2.concat.concat_pflines
    portfolyo.tools2.concat.concat_pfstates
    portfolyo.tools2.concat.general
    portfolyo.tools2.intersect.indexable
    portfolyo.tools2.plot.draw_horizontal_lines
    portfolyo.tools2.plot.plot_pfstates
    """.split()
)
