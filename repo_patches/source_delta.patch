From 52bc5dc4f535238987c9e2a04e488cf8a781affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:41 +0000
Subject: [PATCH 01/38] fix: reindexing a nested portfolio line failed on a
 nonexistent attribute

---
 portfolyo/core/pfline/nested_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index ee30c05..10e4da4 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -55,8 +55,8 @@ def slice(self: NestedPfLine) -> SliceIndexer:
 
 
 def reindex(self: NestedPfLine, index: pd.DatetimeIndex) -> NestedPfLine:
-    newchildren = {name: child.reindex(index) for name, child in self.pfl.items()}
-    return self.pfl.__class__(newchildren)
+    newchildren = {name: child.reindex(index) for name, child in self.items()}
+    return self.__class__(newchildren)
 
 
 class LocIndexer:
-- 
2.43.0


From d6d2dc1a4393a4909e1d50810cac7a082e6ba065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:41 +0000
Subject: [PATCH 02/38] fix: truth of a nested portfolio line looked at the
 names instead of the children

---
 portfolyo/core/pfline/nested_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index 10e4da4..8e81236 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -35,7 +35,7 @@ def hedge_with(
 
 def __bool__(self: NestedPfLine) -> bool:
     # True if a) has children of which b) any are true
-    return any(self.children.keys())
+    return any(self.children.values())
 
 
 def __eq__(self: NestedPfLine, other: Any) -> bool:
-- 
2.43.0


From 36c7711d770094f9ccdd3dd5bce093ba32996d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:41 +0000
Subject: [PATCH 03/38] fix: adding nested portfolio lines gave random child
 order and missing values outside the overlap

---
 portfolyo/core/pfline/arithmatic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 7acea4f..3bc6ca2 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -237,14 +237,19 @@ class Add:
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
     def two_nestedpflines(pfl1: NestedPfLine, pfl2: NestedPfLine) -> NestedPfLine:
+        idx = tools.intersect.indices(pfl1.index, pfl2.index)  # keep only common rows
+        if len(idx) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
         newchildren = {}  # collect children and add those with same name
-        for name in set([*pfl1, *pfl2]):
+        for name in {**pfl1, **pfl2}:  # keep order
             if name in pfl1 and name in pfl2:
                 newchildren[name] = pfl1[name] + pfl2[name]
             elif name in pfl1:
-                newchildren[name] = pfl1[name]
+                newchildren[name] = pfl1[name].loc[idx]
             else:
-                newchildren[name] = pfl2[name]
+                newchildren[name] = pfl2[name].loc[idx]
         return pfl1.__class__(newchildren)
 
 
-- 
2.43.0


From 204a2f4f0f059ec838f2b009b3f029b3815ee357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:41 +0000
Subject: [PATCH 04/38] fix: multiplying portfolio lines without overlap
 returned an empty portfolio line

---
 portfolyo/core/pfline/arithmatic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 3bc6ca2..a9d12bd 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -266,6 +266,10 @@ class Multiply:
             )
         q, p = (pfl2.q, pfl1.p) if pfl1.kind is Kind.PRICE else (pfl1.q, pfl2.p)
         q, p = tools.intersect.frames(q, p)
+        if len(q) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
         r = (q * p).pint.to_base_units()
         constructor = classes.constructor(Structure.FLAT, Kind.REVENUE)
         return constructor(pd.DataFrame({"r": r}))
-- 
2.43.0


From 6989f55b530239ab6436c79d871c6662359691ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 05/38] fix: to_excel passed keyword names as positional
 arguments

---
 portfolyo/core/shared/excelclipboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/excelclipboard.py b/portfolyo/core/shared/excelclipboard.py
index 80d77ad..d72068d 100644
--- a/portfolyo/core/shared/excelclipboard.py
+++ b/portfolyo/core/shared/excelclipboard.py
@@ -23,4 +23,4 @@ class ExcelClipboardOutput:  # for both PfLine and PfState
 
     @functools.wraps(pd.DataFrame.to_excel)
     def to_excel(self: NDFrameLike, *args, **kwargs) -> None:
-        prepare_df(self).to_excel(*args, *kwargs)
+        prepare_df(self).to_excel(*args, **kwargs)
-- 
2.43.0


From 423ff720a1422cabc015cf430f58b91daf6c994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 06/38] fix: mapping revenue to another year always failed

---
 portfolyo/tools2/changeyear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools2/changeyear.py b/portfolyo/tools2/changeyear.py
index b3274ab..57771ac 100644
--- a/portfolyo/tools2/changeyear.py
+++ b/portfolyo/tools2/changeyear.py
@@ -69,9 +69,9 @@ def map_to_year(pfl: PfLine, year: int, holiday_country: str) -> PfLine:
         # Assume that revenue is scales proportionately with duration of period.
         # E.g. 290 Eur in leapyear Feb --> 280 Eur in non-leapyear Feb.
         df = pfl.dataframe("r")
-        df *= tools.duration.index(df.index)  # Make averageble
+        df = df.div(tools.duration.index(df.index), axis=0)  # Make averageble
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-        df2 /= tools.duration.index(df2.index)  # Make summable again
+        df2 = df2.mul(tools.duration.index(df2.index), axis=0)  # Make summable again
     else:  # CompletePfLine
         df = pfl.dataframe(["w", "p"])  # Averagable
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-- 
2.43.0


From a02a057c9af8580bdf6d4d8a1a7b9452e1c05d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 07/38] fix: poframe2tseries swapped peak and offpeak values
 and ignored is_summable

---
 portfolyo/tools/peakconvert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 67f32fa..f6d46d6 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -281,7 +281,7 @@ def poframe2tseries(
     """
     # Prep.
     if "peak" not in df or "offpeak" not in df:  # ensure peak and offpeak available
-        df = complete_bpoframe(df, peak_fn)
+        df = complete_bpoframe(df, peak_fn, is_summable)
     df = df[["peak", "offpeak"]]
 
     # Stretch the dataframe to higher frequency
@@ -291,7 +291,7 @@ def poframe2tseries(
         df2 = tools_changefreq.averagable(df, freq)
     df2["ispeak"] = peak_fn(df2.index)  # will raise error if frequency not short enough
 
-    return df2["offpeak"].where(df2["ispeak"], df2["peak"])
+    return df2["peak"].where(df2["ispeak"], df2["offpeak"])
 
 
 # def tseries2tseries(
-- 
2.43.0


From 28577d8cf07d992c948fafde163be219eb5ab9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 08/38] fix: conversion to timezone-agnostic frame lost the
 name and unit of a series

---
 portfolyo/tools/tzone.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 32c2df5..8103634 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -274,10 +274,8 @@ def _aware_to_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
     partly = fr.tz_localize(None)
     partly = partly[~partly.index.duplicated()]  # remove duplicates
 
-    def value(ts):  # Take value of prev hour if current time not found in the input.
-        try:
-            return partly.loc[ts]
-        except KeyError:
-            return partly.loc[ts - pd.Timedelta(hours=1)]
-
-    return fr.__class__([value(ts) for ts in idx_out], index=idx_out)
+    # Take value of prev hour if current time not found in the input.
+    idx_in = idx_out.where(
+        idx_out.isin(partly.index), idx_out - pd.Timedelta(hours=1)
+    )
+    return partly.loc[idx_in].set_axis(idx_out)
-- 
2.43.0


From 6ed0edeb56942fdd541a4fc9dd6a2233450c4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 09/38] fix: getting an unknown part of a portfolio state
 silently returned None

---
 portfolyo/core/pfstate/pfstate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/portfolyo/core/pfstate/pfstate.py b/portfolyo/core/pfstate/pfstate.py
index 2652e63..9645122 100644
--- a/portfolyo/core/pfstate/pfstate.py
+++ b/portfolyo/core/pfstate/pfstate.py
@@ -297,6 +297,7 @@ class PfState(
     def __getitem__(self, name):
         if hasattr(self, name):
             return getattr(self, name)
+        raise KeyError(f"Portfolio state has no part with name '{name}'.")
 
     def __eq__(self, other):  # from ABC
         if not isinstance(other, PfState):
-- 
2.43.0


From b3e792da63a0818cacab07bb1ec597ccdb8d1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 10/38] fix: concatenating fewer than 2 portfolio states
 silently returned None

---
 portfolyo/tools2/concat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index ff13e1b..fb860e2 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -142,8 +142,9 @@ def concat_pfstates(pfss: Iterable[PfState]) -> PfState:
 
     """
     if len(pfss) < 2:
-        print("Concatenate needs at least two elements.")
-        return
+        raise NotImplementedError(
+            "Cannot perform operation with less than 2 portfolio states."
+        )
     offtakevolume = concat_pflines([pfs.offtakevolume for pfs in pfss])
     sourced = concat_pflines([pfs.sourced for pfs in pfss])
     unsourcedprice = concat_pflines([pfs.unsourcedprice for pfs in pfss])
-- 
2.43.0


From 081068e04daa5a71ef3711c8441058973c6be63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 11/38] fix: hedge_with of flat portfolio line did not accept
 its documented parameter name

---
 portfolyo/core/pfline/flat_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/flat_methods.py b/portfolyo/core/pfline/flat_methods.py
index f74eb35..a67433c 100644
--- a/portfolyo/core/pfline/flat_methods.py
+++ b/portfolyo/core/pfline/flat_methods.py
@@ -47,7 +47,7 @@ def po(
 
 def hedge_with(
     self: PfLine,
-    prices: PricePfLine,
+    p: PricePfLine,
     how: str = "val",
     peak_fn: tools.peakfn.PeakFunction = None,
     freq: str = "MS",
@@ -61,7 +61,7 @@ def hedge_with(
             "Can only hedge a PfLine with daily or (quarter)hourly information."
         )
 
-    wout, pout = tools.hedge.hedge(self.w, prices.p, how, peak_fn, freq)
+    wout, pout = tools.hedge.hedge(self.w, p.p, how, peak_fn, freq)
     df = pd.DataFrame({"w": wout, "p": pout})
     df["q"] = df["w"] * tools.duration.index(df.index)
     df["r"] = df["p"] * df["q"]
-- 
2.43.0


From d37b3c1d825784a9ef0fd00026a4122f8063f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 12/38] fix: operations with values of unknown unit raised the
 wrong error

---
 portfolyo/core/pfstate/arithmatic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfstate/arithmatic.py b/portfolyo/core/pfstate/arithmatic.py
index dec9526..9897890 100644
--- a/portfolyo/core/pfstate/arithmatic.py
+++ b/portfolyo/core/pfstate/arithmatic.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING, Any
 
 import pandas as pd
+import pint
 
 from ... import tools
 from ..pfline import PfLine, create
@@ -58,7 +59,7 @@ class Prep:
 
             try:
                 name = tools.unit.to_name(value.pint.units)
-            except ValueError:
+            except pint.UndefinedUnitError:
                 return value  # has unit, but unknown
 
             if name not in ["p", "q", "w"]:
-- 
2.43.0


From 50eb309917dbe1d2563b5ecfbaf91c1c3c4cf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 13/38] fix: preparing a flat operand referred to a nonexistent
 module attribute

---
 portfolyo/core/pfline/arithmatic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index a9d12bd..614ec82 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -89,7 +89,7 @@ class Prep:
 
     def ensure_otherpfline_flat(fn):
         def wrapper(pfl: PfLine, other: PfLine):
-            if not isinstance(other, classes.classes.FlatPfLine):
+            if not isinstance(other, classes.FlatPfLine):
                 if STRICT:
                     raise NotImplementedError(
                         "Cannot do this operation if other operand is flat porfolio line;"
-- 
2.43.0


From 7e53e48889fa7755c555ebc4372c68355fec49b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 14/38] fix: commodities referred to a nonexistent module

---
 portfolyo/core/commodity/commodity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/commodity/commodity.py b/portfolyo/core/commodity/commodity.py
index fafa035..8f8a4aa 100644
--- a/portfolyo/core/commodity/commodity.py
+++ b/portfolyo/core/commodity/commodity.py
@@ -9,7 +9,7 @@ class Commodity:
     """Class to describe the particulars of a commodity."""
 
     freq: str
-    is_peak_hour: tools.peakperiod.PeakFunction = None
+    is_peak_hour: tools.peakfn.PeakFunction = None
     offset_hours: int = 0
 
     def __post_init__(self):
@@ -22,7 +22,7 @@ class Commodity:
 
 power = Commodity(
     "15min",
-    tools.peakperiod.factory(dt.time(hour=8), dt.time(hour=20), [1, 2, 3, 4, 5]),
+    tools.peakfn.factory(dt.time(hour=8), dt.time(hour=20), [1, 2, 3, 4, 5]),
     0,
 )
 gas = Commodity("D", None, 6)
-- 
2.43.0


From 495139ff15f9c6532c4942841d0e0f23bddc50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 15/38] fix: comparison of frequency lengths depended on the
 anchor of the frequency

---
 portfolyo/tools/freq.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 5dd1f66..5dae65a 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -212,8 +212,12 @@ def assert_freq_sufficiently_short(freq, freq_ref, strict: bool = False) -> None
 def _longestshortest(shortest: bool, *freqs: str):
     """Determine which frequency denotes the shortest or longest time period."""
     common_ts = pd.Timestamp("2020-01-01")
-    ts = [common_ts + pd.tseries.frequencies.to_offset(fr) for fr in freqs]
-    i = (np.argmin if shortest else np.argmax)(ts)
+    durations = []
+    for fr in freqs:
+        offset = pd.tseries.frequencies.to_offset(fr)
+        ts_left = offset.rollforward(common_ts)  # ensure we consider a full period
+        durations.append(ts_left + offset - ts_left)
+    i = (np.argmin if shortest else np.argmax)(durations)
     return freqs[i]
 
 
-- 
2.43.0


From d09344d3e2a240f065e5370bb0f8859b8508fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 16/38] fix: intersection failed for a single object, for empty
 objects, and for ignored but equal start-of-day

---
 portfolyo/tools/intersect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index c953d38..ed9bb37 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -99,7 +99,7 @@ def indices_flex(
         raise ValueError("Must specify at least one index.")
 
     if len(idxs) == 1:
-        return idxs[0]
+        return (idxs[0],)
     # convert tuple object into a list
     idxs = list(idxs)
 
@@ -114,7 +114,7 @@ def indices_flex(
 
     empty_idx = [len(i) == 0 for i in idxs]
     if any(empty_idx):
-        return pd.DatetimeIndex([])
+        return tuple(i[:0] for i in idxs)
 
     # If we land here, we have at least 2 indices, all are not empty.
 
@@ -171,7 +171,7 @@ def indices_flex(
         end = max(values)
         end = tools_right.stamp(end, longest_freq)
 
-        if ignore_start_of_day is True:
+        if ignore_start_of_day is True and len(distinct_sod) != 1:
             start = datetime.combine(pd.to_datetime(start).date(), start_of_day[i])
             end = datetime.combine(pd.to_datetime(end).date(), start_of_day[i])
             # inclusive = "left"
-- 
2.43.0


From cc1f53944a95cac8c17355b5d007e0e217ca740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:01 +0000
Subject: [PATCH 17/38] fix: hedging with daily products failed and
 start-of-day was ignored when grouping into products

---
 portfolyo/tools/peakconvert.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index f6d46d6..d89b295 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -8,6 +8,7 @@ from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
 from . import peakfn as tools_peakfn
+from . import startofday as tools_startofday
 from . import trim as tools_trim
 from . import wavg as tools_wavg
 
@@ -18,17 +19,20 @@ def group_index(
     i: pd.DatetimeIndex, peak_fn: tools_peakfn.PeakFunction, freq: str
 ) -> pd.MultiIndex:
     """Multiindex, that is the same for all rows that belong to same delivery period."""
-    # Grouping due to delivery period.
-    groups = [i.year]
-    if freq == "MS":
-        groups.append(i.month)
+    # Grouping due to delivery period. (Which starts at the start-of-day of the index.)
+    days = i.tz_localize(None) - tools_startofday.get(i, "timedelta")
+    groups = [days.year]
+    if freq == "D":
+        groups.append(days.dayofyear)
+    elif freq == "MS":
+        groups.append(days.month)
     elif freq == "QS":
-        groups.append(i.quarter)
+        groups.append(days.quarter)
     elif freq == "YS":
         pass
     else:
         raise ValueError(
-            f"Parameter ``freq`` must be one of 'MS', 'QS', 'YS'; got '{freq}'."
+            f"Parameter ``freq`` must be one of 'D', 'MS', 'QS', 'YS'; got '{freq}'."
         )
 
     # Add grouping due to peak.
-- 
2.43.0


From b2cee78d7eab859b4fcfab2e7cfac30e8783a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:52 +0000
Subject: [PATCH 18/38] fix: upsampling replaced missing values with the value
 of the preceding period

---
 portfolyo/tools/changefreq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index ad26b94..23e71fc 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -113,7 +113,7 @@ def _upsample_avgable(s: pd.Series, freq: str) -> pd.Series:
     additional_stamp = tools_right.stamp(s.index[-1], s.index.freq)
     df.loc[additional_stamp, :] = None
     # ... then do upsampling ...
-    df2 = df.resample(freq, offset=offset).asfreq().ffill()  # duplicate value
+    df2 = df.resample(freq, offset=offset).ffill()  # duplicate value
     # ... and then remove final row (and turn back into series).
     return df2.iloc[:-1, 0].rename(s.name)
 
-- 
2.43.0


From 49fd9f75af505a148ae1356628d4d38dd8a2cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 19/38] fix: conversion to peak and offpeak values ignored the
 start-of-day

---
 portfolyo/tools/peakconvert.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index d89b295..2fadcbb 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -224,14 +224,15 @@ def tseries2poframe(
     sin, units = (s.pint.magnitude, s.pint.units) if hasattr(s, "pint") else (s, None)
 
     # Do calculations.
-    sout = sin.resample(freq, group_keys=True).apply(
-        lambda s: _tseries2po(s, peak_fn, is_summable)
-    )
+    # . delivery periods begin at the start-of-day of the index
+    periods = tools_changefreq.index(sin.index, freq)
+    grouping = periods[periods.searchsorted(sin.index, side="right") - 1]
+    sout = sin.groupby(grouping).apply(lambda s: _tseries2po(s, peak_fn, is_summable))
 
     # Handle possible units.
     if units is not None:
         sout = sout.astype(f"pint[{units}]")
-    return sout.unstack()  # peak, offpeak as columns
+    return sout.unstack().set_axis(periods)  # peak, offpeak as columns
 
 
 def poframe2tseries(
-- 
2.43.0


From 7af737e46a034fffd03fc43c7553090d7b0e1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 20/38] fix: too many rows were shown if number of timestamps
 is 1 or 2

---
 portfolyo/core/shared/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/text.py b/portfolyo/core/shared/text.py
index 91332f8..9bb94c7 100644
--- a/portfolyo/core/shared/text.py
+++ b/portfolyo/core/shared/text.py
@@ -44,7 +44,7 @@ def df_with_strindex(df: pd.DataFrame, num_of_ts: int):
     if len(df.index) > num_of_ts:
         i1, i2 = num_of_ts // 2, (num_of_ts - 1) // 2
         inter = pd.DataFrame([[".."] * len(df.columns)], [".."], df.columns)
-        df = pd.concat([df.iloc[:i1], inter, df.iloc[-i2:]])
+        df = pd.concat([df.iloc[:i1], inter, df.iloc[len(df.index) - i2 :]])
     return df
 
 
-- 
2.43.0


From 1d1ddfc1bfb0e8f51805933167988f07bf0a33dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 21/38] fix: weighted average of a series ignored missing
 values if weights are equal, and did not ignore values with weight 0 if
 weights sum to 0

---
 portfolyo/tools/wavg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 2f8bf2a..4f705b1 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -136,7 +136,7 @@ def series(
 
     # Unweighted average if all weights the same but not all 0.
     if weights.nunique() == 1 and not np.isclose(weights.iloc[0], 0):
-        return s.mean()
+        return np.nan if s.isna().any() else s.mean()
 
     # Replace NaN with 0 in locations where it doesn't change the result.
     replaceable = s.isna() & (weights == 0.0)
@@ -162,8 +162,9 @@ def series(
     # In that case, the result is NaN in case of non-uniform values.
     weightsum = weights.sum()  # a float or quantity
     if np.isclose(weightsum, 0):  # edge case (more common)
-        is_uniform = values_areuniform(s)
-        return s.iloc[0] if is_uniform else np.nan
+        relevant = s[weights != 0]  # values with weight 0 must be ignored
+        is_uniform = values_areuniform(relevant)
+        return relevant.iloc[0] if is_uniform else np.nan
 
     # If we arrive here, the sum of the weights is not zero.
 
-- 
2.43.0


From 3f4d5e2c2e261b99931bd3b8ba54d9821c993c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 22/38] fix: hedging failed if only one of the timeseries has a
 unit

---
 portfolyo/tools/hedge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/hedge.py b/portfolyo/tools/hedge.py
index c49dbf0..e298cb9 100644
--- a/portfolyo/tools/hedge.py
+++ b/portfolyo/tools/hedge.py
@@ -108,7 +108,9 @@ def hedge(
     wout, pout = dfout["w"], dfout["p"]
 
     # Handle possible units.
-    if wunits or punits:
-        wout, pout = wout.astype(f"pint[{wunits}]"), pout.astype(f"pint[{punits}]")
+    if wunits is not None:
+        wout = wout.astype(f"pint[{wunits}]")
+    if punits is not None:
+        pout = pout.astype(f"pint[{punits}]")
 
     return wout, pout
-- 
2.43.0


From 9e9d8ddd28c8db9c362984ab4836e61cfec7790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:27 +0000
Subject: [PATCH 23/38] fix: multiples of quarters and years were accepted as
 valid frequency

---
 portfolyo/tools/freq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 5dae65a..febd659 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -51,6 +51,8 @@ def assert_freq_valid(freq: str) -> None:
 
     # Define restricted classes that should have n == 1
     restricted_classes = {
+        pd.tseries.offsets.YearBegin: 1,
+        pd.tseries.offsets.QuarterBegin: 1,
         pd.tseries.offsets.MonthBegin: 1,
         pd.tseries.offsets.Day: 1,
         pd.tseries.offsets.Hour: 1,
-- 
2.43.0


From 14b318bc74e5ca006e3d25089bd4e56daf9f1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:53 +0000
Subject: [PATCH 24/38] fix: dataframe without units always failed

---
 portfolyo/core/pfline/dataframeexport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index bd6ee9a..fe95c3e 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -36,8 +36,9 @@ class Flat:
         """
         cols = cols or "wqpr"  # in case nothing was specified.
         cols = [col for col in cols if col in "wqpr" and col in self.kind.available]
-        df = pd.DataFrame({col: self.df[col] for col in cols})
-        return df if has_units else df.pint.m
+        return pd.DataFrame(
+            {col: self.df[col] if has_units else self.df[col].pint.m for col in cols}
+        )
 
 
 class Nested:
-- 
2.43.0


From 3f5019a5239556c52fb511aefe390bcb129d6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:04 +0000
Subject: [PATCH 25/38] fix: intersection ignoring frequency and start-of-day
 failed if an index became empty

---
 portfolyo/tools/intersect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index ed9bb37..1411889 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -118,7 +118,9 @@ def indices_flex(
 
     # If we land here, we have at least 2 indices, all are not empty.
 
-    distinct_sod = set([i[0].time() for i in idxs])
+    # Keep the original start-of-days; index might be empty after trimming.
+    start_of_day = [i[0].time() for i in idxs]
+    distinct_sod = set(start_of_day)
     if len(distinct_sod) != 1 and ignore_start_of_day is False:
         raise ValueError(f"Indices must have equal start-of-day; got {distinct_sod}.")
     for i in range(len(idxs)):
@@ -149,8 +151,6 @@ def indices_flex(
             idxs[i] = idxs[i].tz_localize(None)
 
     if ignore_start_of_day is True and len(distinct_sod) != 1:
-        # Save a copy of the original hours and minutes
-        start_of_day = [x[0].time() for x in idxs]
         # Set the time components to midnight for each index in the list
         idxs = [index.normalize() for index in idxs]
 
-- 
2.43.0


From d1a1630121b636ab6c670ad730d4390baf5e0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:37 +0000
Subject: [PATCH 26/38] fix: order of children after concatenation depended on
 order of inputs

---
 portfolyo/tools2/concat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index fb860e2..da106a0 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -115,7 +115,7 @@ def concat_pflines(pfls: Iterable[PfLine]) -> PfLine:
                 "Error by creating PfLine. PfLine is either not gapless or has overlaps"
             ) from e
     child_data = {}
-    child_names = pfls[0].children.keys()
+    child_names = sorted_pfls[0].children.keys()
     for cname in child_names:
         # for every name in children need to concatenate elements
         child_values = [pfl.children[cname] for pfl in sorted_pfls]
-- 
2.43.0


From f61ac489e7d9e4bbaf20923d665181e980f235ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:32 +0000
Subject: [PATCH 27/38] fix: spread summable peak and offpeak values over the
 peak and offpeak hours only

---
 portfolyo/tools/peakconvert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 2fadcbb..662bbca 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -291,6 +291,12 @@ def poframe2tseries(
 
     # Stretch the dataframe to higher frequency
     if is_summable:
+        # . peak (offpeak) values must be spread over the peak (offpeak) hours only
+        b = tools_duration.index(df.index).pint.m  # as float
+        p = tools_peakfn.peak_duration(df.index, peak_fn).pint.m  # as float
+        df = pd.DataFrame(
+            {"peak": df["peak"] * b / p, "offpeak": df["offpeak"] * b / (b - p)}
+        )
         df2 = tools_changefreq.summable(df, freq)
     else:
         df2 = tools_changefreq.averagable(df, freq)
-- 
2.43.0


From eb3dca037540d38403e17400d3a8695587124382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:26 +0000
Subject: [PATCH 28/38] fix: plotting series with unit that has no standard
 color raised AttributeError

---
 portfolyo/tools/visualize/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 1ca427b..c1df267 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -271,7 +271,7 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
         "p": Colors.Wqpr.p,
     }
     # Set default color if name_unit not found
-    default_color = "white"
+    default_color = Colors.General.WHITE.value
     # Get background color based on name_unit
     background_color = unit_colors.get(name_unit, default_color)
     ax.set_ylabel(f"{unit:~P}", backgroundcolor=background_color.lighten(0.3))
-- 
2.43.0


From 7ae63283780dddd8862df168f6453735b895e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:27 +0000
Subject: [PATCH 29/38] fix: df_with_strindex changed the index of the
 dataframe passed to it

---
 portfolyo/core/shared/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/shared/text.py b/portfolyo/core/shared/text.py
index 9bb94c7..165069f 100644
--- a/portfolyo/core/shared/text.py
+++ b/portfolyo/core/shared/text.py
@@ -38,8 +38,8 @@ def df_with_strvalues(df: pd.DataFrame, units: Dict = _UNITS):
 
 def df_with_strindex(df: pd.DataFrame, num_of_ts: int):
     """Turn datetime index of dataframe into text, and reduce number of rows."""
-    df.index = df.index.map(
-        lambda ts: ts.strftime(DATETIMEFORMAT).ljust(COLWIDTHS["ts"])
+    df = df.set_axis(
+        df.index.map(lambda ts: ts.strftime(DATETIMEFORMAT).ljust(COLWIDTHS["ts"]))
     )
     if len(df.index) > num_of_ts:
         i1, i2 = num_of_ts // 2, (num_of_ts - 1) // 2
-- 
2.43.0


From 30eb3de166b7466e366946852f521e1a1ef0b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:17 +0000
Subject: [PATCH 30/38] fix: plot_pfstates returns the figure, as documented

---
 portfolyo/tools2/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools2/plot.py b/portfolyo/tools2/plot.py
index 9117b36..577c2c3 100644
--- a/portfolyo/tools2/plot.py
+++ b/portfolyo/tools2/plot.py
@@ -98,7 +98,7 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
             axes[1].set_title("Offtake Volume &\nprocurement price", y=1.27)
             axes[2].set_title("Sourced fraction", y=1.27)
 
-    return
+    return fig
     draw_horizontal_lines(fig, axes)  # draw horizontal lines between portfolios
 
 
-- 
2.43.0


From 7ad87f26cd4dda9e43463f2f2106b008315362f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:59 +0000
Subject: [PATCH 31/38] fix: plot_pfstates called a plot function that does not
 exist (anymore)

---
 portfolyo/tools2/plot.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/portfolyo/tools2/plot.py b/portfolyo/tools2/plot.py
index 577c2c3..2904906 100644
--- a/portfolyo/tools2/plot.py
+++ b/portfolyo/tools2/plot.py
@@ -7,9 +7,8 @@ import numpy as np
 from matplotlib import pyplot as plt
 
 from .. import tools
-from ..core.pfline.plot import defaultkwargs
+from ..core.pfline.plot import plotfn_and_kwargs
 from ..core.pfstate import PfState
-from ..tools import visualize as vis
 
 
 def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
@@ -60,22 +59,20 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
         axes[0].axis("off")
 
         # Volumes.
-        if is_category:
-            s, kwargs = -1 * pfs.offtakevolume.q, defaultkwargs("q", is_category)
-        else:
-            s, kwargs = -1 * pfs.offtakevolume.w, defaultkwargs("w", is_category)
-        vis.plot_timeseries(axes[1], s, **kwargs)
+        col = "q" if is_category else "w"
+        fn, kwargs = plotfn_and_kwargs(col, pfs.index.freq, None)
+        fn(axes[1], -1 * getattr(pfs.offtakevolume, col), **kwargs)
 
         # Sourced fraction.
-        vis.plot_timeseries(
-            axes[2], pfs.sourcedfraction, **defaultkwargs("f", is_category)
-        )
+        fn, kwargs = plotfn_and_kwargs("f", pfs.index.freq, None)
+        fn(axes[2], pfs.sourcedfraction, **kwargs)
 
         # Empty.
         axes[3].axis("off")
 
         # Procurement Price.
-        vis.plot_timeseries(axes[4], pfs.pnl_cost.p, **defaultkwargs("p", is_category))
+        fn, kwargs = plotfn_and_kwargs("p", pfs.index.freq, None)
+        fn(axes[4], pfs.pnl_cost.p, **kwargs)
 
         # Empty.
         axes[5].axis("off")
-- 
2.43.0


From ac7ec02cb50098c21f99ea1ca61bd8c0dd9f8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:40 +0000
Subject: [PATCH 32/38] fix: get_pfline ignored 'positive' for lines with
 children

---
 portfolyo/dev/develop.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/portfolyo/dev/develop.py b/portfolyo/dev/develop.py
index efe7af0..79b8e60 100644
--- a/portfolyo/dev/develop.py
+++ b/portfolyo/dev/develop.py
@@ -246,7 +246,13 @@ def get_pfline(
         names = (*_ancestornames, namefn(c))
         name = "-".join(names)
         children[name] = get_pfline(
-            i, kind, nlevels - 1, childcount, _ancestornames=names, _seed=_seed
+            i,
+            kind,
+            nlevels - 1,
+            childcount,
+            positive=positive,
+            _ancestornames=names,
+            _seed=_seed,
         )
     return create.nestedpfline(children)
 
-- 
2.43.0


From 9063de5c922c85effc0f601d64d2f4e4dd2f289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:13 +0000
Subject: [PATCH 33/38] fix: map (quarter)hourly data with start-of-day other
 than midnight to another year

---
 portfolyo/tools/changeyear.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changeyear.py b/portfolyo/tools/changeyear.py
index 00f7617..f330385 100644
--- a/portfolyo/tools/changeyear.py
+++ b/portfolyo/tools/changeyear.py
@@ -15,6 +15,7 @@ import pandas as pd
 from . import changefreq as tools_changefreq
 from . import freq as tools_freq
 from . import right as tools_right
+from . import startofday as tools_startofday
 from . import unit as tools_unit
 from .types import Series_or_DataFrame
 
@@ -286,7 +287,10 @@ def _map_index_to_index_hourlyandshorter(
     mapp_d = _map_index_to_index_daily(idx_source_d, idx_target_d, holiday_country)
 
     # Split timestamps in 'day' and 'offset'.
-    idx_target_part1 = idx_target.floor("D")
+    # . days begin at the start-of-day of the index
+    start_of_day = tools_startofday.get(idx_target, "timedelta")
+    days = (idx_target.tz_localize(None) - start_of_day).floor("D") + start_of_day
+    idx_target_part1 = days.tz_localize(idx_target.tz)
     idx_target_part2 = idx_target - idx_target_part1
 
     return pd.Series(mapp_d[idx_target_part1].values + idx_target_part2, idx_target)
-- 
2.43.0


From 9b7eed2e499e51b86471f143d56a9796ec3cccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 34/38] fix: timestamps with seconds are no boundary of a
 quarter-hour or hour

---
 portfolyo/tools/isboundary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index a84525e..2a51933 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -99,7 +99,9 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     bool
     """
     start_of_day = start_of_day or dt.time(0, 0)
-    if freq == "15min":
+    if freq in ("15min", "h") and (ts.second or ts.microsecond or ts.nanosecond):
+        return False
+    elif freq == "15min":
         return ts.minute % 15 == 0
     elif freq == "h":
         return ts.minute == 0
-- 
2.43.0


From c0474aaaeb5f97c0abcb17fbd4d7a690d7ee344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:29 +0000
Subject: [PATCH 35/38] fix: peak function keeps its own copy of the weekdays

---
 portfolyo/tools/peakfn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 802874b..325150b 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -57,6 +57,7 @@ def factory(
         peak_right = MIDNIGHT
     if isoweekdays is None:
         isoweekdays = [1, 2, 3, 4, 5]
+    isoweekdays = tuple(isoweekdays)  # own copy; also if it can only be iterated once
 
     # Characterize the input.
     must_check_time = not (peak_left == MIDNIGHT and peak_right == MIDNIGHT)
-- 
2.43.0


From 3fb738ad41235190f127169ad22bd952d44c0756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:29 +0000
Subject: [PATCH 36/38] fix: peak function without any weekday made every day a
 peak day

---
 portfolyo/tools/peakfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 325150b..66cd49a 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -63,7 +63,7 @@ def factory(
     must_check_time = not (peak_left == MIDNIGHT and peak_right == MIDNIGHT)
     weekday_count = sum(wd in isoweekdays for wd in (1, 2, 3, 4, 5, 6, 7))
     must_check_date = 0 < weekday_count < 7
-    if not must_check_time and not must_check_date:
+    if weekday_count == 0 or (not must_check_time and not must_check_date):
         raise ValueError(
             "Input specifies no special cases; all time periods included or all time periods "
             f"excluded; got {peak_left}-{peak_right} on {weekday_count} days of the week."
-- 
2.43.0


From ca9290a5b12d730017ad247ab4bf1d486b262cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:51 +0000
Subject: [PATCH 37/38] fix: refuse timestamps that are not at a full minute

The check that timestamps start at a full (quarter)hour looked at the minutes
only, so that data starting at, e.g., 00:00:30 was accepted.
---
 portfolyo/tools/standardize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/standardize.py b/portfolyo/tools/standardize.py
index 487fcc8..031745b 100644
--- a/portfolyo/tools/standardize.py
+++ b/portfolyo/tools/standardize.py
@@ -190,13 +190,15 @@ def assert_index_standardized(i: pd.DatetimeIndex, __right: bool = False):
                 f"The first element in an index with {err[0]} quarterhourly values must be {err[1]} hour; found {i[0]}."
             )
 
-        if any(not_ok := [ts.minute not in (0, 15, 30, 45) for ts in i]):
+        if any(
+            not_ok := [ts.minute not in (0, 15, 30, 45) or ts.second != 0 for ts in i]
+        ):
             raise AssertionError(
                 "In an index with quarterhourly values, all timestamps (all periods) should"
                 f" start at a full quarter-hour; found {i[not_ok]}."
             )
     else:  # longer than quarterhour
-        if any(not_ok := i.minute != 0):
+        if any(not_ok := (i.minute != 0) | (i.second != 0)):
             raise AssertionError(
                 "In an index with hourly-or-longer values, all timestamps (all periods) should"
                 f" start at a full hour; found {i[not_ok]}."
-- 
2.43.0


From 6427deff010a4bd3709ffdbfef2f5418925ddc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:14 +0000
Subject: [PATCH 38/38] fix: fill_gaps: series that end (or start and end) with
 missing values

---
 portfolyo/tools/frame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index 512b085..a63929a 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -34,13 +34,13 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
     index_beforegap = fr[~is_gap & next_gap].index
     index_aftergap = fr[~is_gap & prev_gap].index
     # remove orphans at beginning and end
-    if index_beforegap.empty:
+    if index_beforegap.empty or index_aftergap.empty:
         return fr
-    elif index_beforegap[-1] > index_aftergap[-1]:
+    elif index_beforegap[-1] >= index_aftergap[-1]:
         index_beforegap = index_beforegap[:-1]
-    if index_aftergap.empty:
+    if index_beforegap.empty:
         return fr
-    elif index_aftergap[0] < index_beforegap[0]:
+    elif index_aftergap[0] <= index_beforegap[0]:
         index_aftergap = index_aftergap[1:]
     fr = fr.copy()
     for i_before, i_after in zip(index_beforegap, index_aftergap):
-- 
2.43.0

