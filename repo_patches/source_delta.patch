From 3a4966b20ad1370fb93ea0e3aa05c859e0d66c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 01/77] fix: flip coords attached to several flipped dimensions
 along all of them

---
 dascore/core/coordmanager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 87dabbf..69bcd5b 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -1173,10 +1173,11 @@ class CoordManager(DascoreBaseModel):
                 # Don't flip dimensional coords twice!
                 if associated == name:
                     continue
-                associated_coord = self.get_coord(associated)
-                dims = dim_map[associated]
-                axis = dims.index(name)
-                out[associated] = (dims, _flip_coord(associated_coord, axis))
+                # Use the already flipped coord if several of its dims are flipped.
+                default = (dim_map[associated], self.get_coord(associated))
+                coord_dims, associated_coord = out.get(associated, default)
+                axis = coord_dims.index(name)
+                out[associated] = (coord_dims, _flip_coord(associated_coord, axis))
 
         return self.update(**out)
 
-- 
2.43.0


From 32af391162461bed7d769dd34be46dcd57bf2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 02/77] fix: support negative sample indices in order

---
 dascore/core/coords.py | 2 +-
 dascore/utils/misc.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 5e494e6..f0383ab 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -343,7 +343,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             )
             raise CoordError(msg)
         # Filter out bad indices
-        array = array[np.abs(array) < len(self)]
+        array = array[(array >= -len(self)) & (array < len(self))]
         return self[array], array
 
     def _select_by_value_array(self, array):
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index f5f0b36..bd9534b 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -716,6 +716,9 @@ def _maybe_array_to_slice(int_array, data_len):
     """
     if len(int_array) < 2:
         return int_array
+    # Negative indices wrap around so they can't be expressed as a simple slice.
+    if np.any(int_array < 0):
+        return int_array
     diff = int_array[-1] - int_array[0]
     int_array_len = len(int_array)
     if diff == len(int_array) - 1:
-- 
2.43.0


From 07dd1e1de32682a1d80269d989a16f2b1323994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 03/77] fix: re-infer coordinate type after indexing array
 coordinates

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index f0383ab..22d8dc7 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1538,7 +1538,8 @@ class CoordArray(BaseCoord):
         out = self.values[item]
         if not np.ndim(out):
             return out
-        return self.__class__(values=out, units=self.units)
+        # Indexing can change the sort order so the coord type must be re-inferred.
+        return get_coord(data=out, units=self.units)
 
     def _min(self):
         """Return min value."""
-- 
2.43.0


From 0652ac15a2f45aef32194bed5b51e30d83200923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 04/77] fix: set time units on coordinates starting at time
 zero

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 22d8dc7..fe466d8 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -279,7 +279,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if isinstance(data, dict):
             # This handles the coord range case.
             is_timey = False
-            if start := data.get("start"):
+            if (start := data.get("start")) is not None:
                 is_timey = is_timedelta64(start) or is_datetime64(start)
             elif (values := data.get("values")) is not None:
                 is_timey = dtype_time_like(values)
-- 
2.43.0


From 5892b41b4994aced108f787428ba534c90d61b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 05/77] fix: pad reverse sorted coordinates

---
 dascore/proc/basic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index d41888d..5ec5978 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -626,8 +626,9 @@ def pad(
     def _get_new_coord(coord, pad_tuple, expand_coords):
         """Get the new coordinate along the expanded axis."""
         if expand_coords and coord.evenly_sampled:
-            new_start = coord.min() - pad_tuple[0] * coord.step
-            new_end = coord.max() + (pad_tuple[1] + 1) * coord.step
+            # Use first/last values, rather than min/max, for reverse sorted coords.
+            new_start = coord[0] - pad_tuple[0] * coord.step
+            new_end = coord[-1] + (pad_tuple[1] + 1) * coord.step
             assert coord.evenly_sampled, "expand_coords requires evenly sampled."
             new_coord = get_coord(
                 start=new_start, stop=new_end, step=coord.step, units=coord.units
-- 
2.43.0


From 28584b6d7b43278ad480356400fcf6a529211215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:00 +0000
Subject: [PATCH 06/77] fix: keep timedelta labels when padding without
 expanding coordinates

---
 dascore/proc/basic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 5ec5978..260eb2b 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -635,8 +635,9 @@ def pad(
             )
         else:
             old_values = coord.values
-            # Need to convert ints to float so NaN can be used.
-            if np.issubdtype(old_values.dtype, np.integer):
+            # Need to convert ints to float so NaN can be used. Note: timedelta64
+            # is a sub-dtype of integer but has its own null value (NaT).
+            if old_values.dtype.kind in "iu":
                 old_values = old_values.astype(np.float64)
             null_value = _get_nullish(old_values.dtype)
             added_nan_values = np.pad(
-- 
2.43.0


From af691545c127ffbf47e0d56c86e799adf03b8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:58 +0000
Subject: [PATCH 07/77] fix: keep length and units of coordinates reduced by
 aggregations

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index fe466d8..a53b193 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1015,7 +1015,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 result = _reduce_time_like(func, coord_data)
             else:
                 result = func(self.data)
-            new_coord = self.update(data=result)
+            # The result must be an array; get_coord uses bare integers as lengths.
+            new_coord = get_coord(data=np.atleast_1d(result), units=self.units)
         else:
             msg = "dim_reduce must be 'empty', 'squeeze' or valid aggregator."
             raise ParameterError(msg)
-- 
2.43.0


From cd9b36852dcea7733b905c8d054118347a199e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:58 +0000
Subject: [PATCH 08/77] fix: keep units of empty and partial coordinates in
 summaries

---
 dascore/core/coords.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index a53b193..859fe40 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -763,7 +763,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             for ind in iterate(axes):
                 new_shape[ind] = 0
         data = np.empty(tuple(new_shape), dtype=self.dtype)
-        return get_coord(data=data)
+        return get_coord(data=data, units=self.units)
 
     def index(self, indexer, axis: int | None = None) -> Self:
         """
@@ -1136,7 +1136,7 @@ class CoordPartial(BaseCoord):
             max=np.nan,
             step=np.nan,
             dtype=self.dtype,
-            units=None,
+            units=self.units,
         )
 
 
-- 
2.43.0


From fe64d88cffebe37ea4bedfb0b498a2d0c2eb14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:41 +0000
Subject: [PATCH 09/77] fix: keep attributes and history in kurtosis

---
 dascore/transform/kurtosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/transform/kurtosis.py b/dascore/transform/kurtosis.py
index 8ee822b..94ddabf 100644
--- a/dascore/transform/kurtosis.py
+++ b/dascore/transform/kurtosis.py
@@ -240,5 +240,5 @@ def kurtosis(
     return (
         patch_t.new(data=out)
         .transpose(*orig_dims)
-        .update(attrs={"data_type": "kurtosis", "data_units": ""})
+        .update_attrs(data_type="kurtosis", data_units="")
     )
-- 
2.43.0


From 97c4b57fca11507a163ef3cc43feffbfe6401277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:45 +0000
Subject: [PATCH 10/77] fix: do not turn coordinate summaries into attributes
 when updating from attrs

---
 dascore/core/coordmanager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 69bcd5b..1fcd62f 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -347,9 +347,12 @@ class CoordManager(DascoreBaseModel):
         coords = self.new(coord_map=out)
         # anything not used in coord_info should be put back.
         # for example, data_units might get put in its own coord called data.
+        # Summaries of nested coords are not attributes, so they aren't restored.
+        flat_names = set(attrs.model_dump() if hasattr(attrs, "model_dump") else attrs)
         for unused_dim in set(coord_info) - set(coords.dims):
             for key, val in coord_info[unused_dim].items():
-                attr_info[f"{unused_dim}_{key}"] = val
+                if (name := f"{unused_dim}_{key}") in flat_names:
+                    attr_info[name] = val
         attr_info["coords"] = coords.to_summary_dict()
         attr_info["dims"] = coords.dims
         attrs = dc.PatchAttrs.from_dict(attr_info)
-- 
2.43.0


From 4259b2ebbe5ea00239d8e8ac20fe8732d6ed4918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:10 +0000
Subject: [PATCH 11/77] fix: search reverse sorted times with nanosecond
 precision

---
 dascore/core/coords.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 859fe40..a0b8db0 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -51,7 +51,13 @@ from dascore.utils.models import (
     DascoreBaseModel,
     UnitQuantity,
 )
-from dascore.utils.time import dtype_time_like, is_datetime64, is_timedelta64, to_float
+from dascore.utils.time import (
+    dtype_time_like,
+    is_datetime64,
+    is_timedelta64,
+    to_float,
+    to_int,
+)
 
 # Valid values for min/max
 min_max_type = TypeVar("min_max_type")
@@ -129,6 +135,12 @@ def _reduce_time_like(func, data):
     return np.atleast_1d(out)
 
 
+def _get_negative(array) -> np.ndarray:
+    """Negate an array; times become (exact) integers since they have no negative."""
+    array = np.asarray(array)
+    return -to_int(array) if dtype_time_like(array.dtype) else -to_float(array)
+
+
 def _validate_new_length(length) -> int:
     """Ensure a requested coordinate length is a non-negative integer."""
     # bool is an int subclass; True/False are never a sensible length.
@@ -321,9 +333,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             inds = self._get_value_index(coord_array, values_to_find)
             return self[inds], inds
         if self.reverse_sorted:
-            # Need to_float here because datetime can't be multiplied by -1.
             inds = self._get_value_index(
-                -to_float(coord_array), -to_float(values_to_find)
+                _get_negative(coord_array), _get_negative(values_to_find)
             )
             return self[inds], inds
         # Sort the array, then find insertion points, and map
@@ -1597,8 +1608,8 @@ class CoordMonotonicArray(CoordArray):
         # since search sorted only works on ascending monotonic arrays we
         # negative descending arrays to get the same effect.
         if self.reverse_sorted:
-            values = to_float(values) * -1
-            new_value = to_float(new_value) * -1
+            values = _get_negative(values)
+            new_value = _get_negative(np.atleast_1d(new_value))
         # side = "right" if forward else "left"
         # out = np.atleast_1d(np.searchsorted(values, new_value, side=side))
         # Search values. Ensure the returned index is in bounds (eg values GT
-- 
2.43.0


From 6a288b85a7e5e5ca70119ffb893b9ecea0a0da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 12/77] fix: drop patches covered by earlier ones when merging
 overlaps

---
 dascore/utils/pd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 07238f4..d8cd2a2 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -487,7 +487,8 @@ def _remove_overlaps(df, name):
 
     def _get_correct_starts(start, stop, df, step_name):
         step = _get_step_values(df, step_name)
-        stop_roll = np.roll(stop, 1)
+        # Use the largest stop so far; an earlier row can extend past later ones.
+        stop_roll = np.roll(np.maximum.accumulate(stop), 1)
         start_lt_stop = start <= stop_roll
         start_lt_stop[0] = False  # remove roll artifact; [0] should be start[0]
         adjusted = stop_roll + step
@@ -503,7 +504,11 @@ def _remove_overlaps(df, name):
     corrected_starts[0] = start[0]
     old_modified = _column_or_value(df, "_modified", False)
     _modified = old_modified | (corrected_starts != start)
-    return df.assign(**{min_name: corrected_starts, "_modified": _modified})
+    out = df.assign(**{min_name: corrected_starts, "_modified": _modified})
+    # Rows which are entirely covered by previous rows have nothing left.
+    stop_max = np.maximum.accumulate(stop)
+    keep = np.append(True, stop[1:] > stop_max[:-1])
+    return out[keep]
 
 
 def _column_or_value(df, col, value):
-- 
2.43.0


From 70ef9506b723dda181084a649dc16fa2025bf9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 13/77] fix: merge values of coordinates associated with the
 merged dimension

---
 dascore/utils/coordmanager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index 4e6ef04..a168a7a 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -112,7 +112,7 @@ def merge_coord_managers(
         """Get the merged coordinates."""
         out = {}
         for coord_name in coords_to_merge:
-            merge_coords = [x.coord_map[dim] for x in managers]
+            merge_coords = [x.coord_map[coord_name] for x in managers]
             axis = managers[0].dim_map[coord_name].index(dim)
             if len(units := {x.units for x in merge_coords}) != 1:
                 # TODO: we might try to convert all the units to a common
@@ -122,9 +122,11 @@ def merge_coord_managers(
                     f"share the same units. Units found are: {set(units)}"
                 )
                 raise CoordMergeError(msg)
-            snap_coords = _snap_coords(merge_coords)
-            data = [x.data for x in snap_coords]
-            dims = managers[0].dim_map[dim]
+            # Only the merged dimension can be snapped together.
+            if coord_name == dim:
+                merge_coords = _snap_coords(merge_coords)
+            data = [x.data for x in merge_coords]
+            dims = managers[0].dim_map[coord_name]
             new_data = np.concatenate(data, axis=axis)
             out[coord_name] = (dims, new_data)
         return out
-- 
2.43.0


From 60c23350d2a7f973391f3874ecac891e83ac74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 14/77] fix: keep sub-spools from duplicating or resurrecting
 patches when chunked

---
 dascore/core/spool.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 406c426..f1d480e 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -445,8 +445,10 @@ class DataFrameSpool(BaseSpool):
         else:
             msg = "Only bool or int dtypes are supported for spool array selection."
             raise ValueError(msg)
-        source = self._source_df
-        inst = self._instruction_df
+        # Drop rows that are no longer needed.
+        source, inst = self._source_df, self._instruction_df
+        inst = inst[inst["current_index"].isin(df.index)]
+        source = source[source.index.isin(inst.index)]
         select_kwargs, merge_kwargs = self._select_kwargs, self._merge_kwargs
         new = self.new_from_df(
             df,
@@ -462,7 +464,7 @@ class DataFrameSpool(BaseSpool):
             new_df = self._df.iloc[item]
             inst, source = self._instruction_df, self._source_df
             new_inst = inst[inst["current_index"].isin(new_df.index)]
-            new_source = source.loc[new_inst.index]
+            new_source = source[source.index.isin(new_inst.index)]
             out = self.new_from_df(
                 df=new_df,
                 instruction_df=new_inst,
@@ -747,8 +749,11 @@ class DataFrameSpool(BaseSpool):
             ignore_bad_kwargs=True,
             **kwargs,
         ).loc[lambda x: x["current_index"].isin(filtered_df.index)]
+        source_df = self._source_df
         source = adjust_segments(
-            self._source_df.loc[inst.index], ignore_bad_kwargs=True, **kwargs
+            source_df[source_df.index.isin(inst.index)],
+            ignore_bad_kwargs=True,
+            **kwargs,
         )
         out = self.new_from_df(
             filtered_df,
-- 
2.43.0


From 9b71598e1acfac383857a3ec829ae0b8eaa00b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 15/77] fix: find gaps separately for each merge group

---
 dascore/utils/chunk.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 25ad36f..bcd8296 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -226,6 +226,16 @@ class ChunkManager:
         group_num = has_gap.astype(np.int64).cumsum()
         return group_num[start.index]
 
+    def _get_grouped_continuity(self, base_group, start, stop, step, tolerance=None):
+        """Return a series of continuity groups, determined in each base group."""
+        out = pd.Series(0, index=start.index)
+        for inds in base_group.groupby(base_group).indices.values():
+            sub = self._get_continuity_group_number(
+                start.iloc[inds], stop.iloc[inds], step.iloc[inds], tolerance
+            )
+            out.iloc[inds] = sub.values
+        return out
+
     def _get_sampling_group_num(self, step, tolerance=0.05) -> pd.Series:
         """
         Because sampling can be off a little, this adds some tolerance for
@@ -425,11 +435,11 @@ class ChunkManager:
         df = pd.concat(out, axis=0).reset_index(drop=True).set_index("source_index")
         return df
 
-    def _get_col_group(self, df, cont_g):
+    def _get_col_group(self, df, samp_g):
         """Get group columns based on common columns."""
         cols = list(self._group_columns or [])
         columns = [x for x in cols if x in df.columns]
-        col_g = cont_g * 0 if not columns else df.groupby(columns).ngroup()
+        col_g = samp_g * 0 if not columns else df.groupby(columns).ngroup()
         return col_g
 
     def _get_final_group(self, samp_g, col_g, cont_g):
@@ -455,16 +465,19 @@ class ChunkManager:
         Get the group designation for df. This accounts for both time intervals
         being consistent and group columns matching.
         """
-        cont_g = self._get_continuity_group_number(start, stop, step)
         samp_g = self._get_sampling_group_num(step)
-        col_g = self._get_col_group(df, cont_g)
+        col_g = self._get_col_group(df, samp_g)
+        # Only data which could be merged can bridge a gap, so continuity
+        # has to be found in each sampling/column group separately.
+        base_g = samp_g.astype(str) + "_" + col_g.astype(str)
+        cont_g = self._get_grouped_continuity(base_g, start, stop, step)
         group = self._get_final_group(samp_g, col_g, cont_g)
 
         # Check for final merges that only occur because of a non-default
         # tolerance. See #662.
         if self._tolerance > _DEFAULT_TOLERANCE:
-            default_cont_g = self._get_continuity_group_number(
-                start, stop, step, tolerance=_DEFAULT_TOLERANCE
+            default_cont_g = self._get_grouped_continuity(
+                base_g, start, stop, step, tolerance=_DEFAULT_TOLERANCE
             )
             if self._groups_merge_default_groups(group, default_cont_g):
                 msg = (
-- 
2.43.0


From 8504e5ecd50de9b5f788be25233946b848b171f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 16/77] fix: keep all samples at the edges of chunks

---
 dascore/core/spool.py  |  3 +++
 dascore/utils/chunk.py | 32 +++++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index f1d480e..e460818 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -707,6 +707,9 @@ class DataFrameSpool(BaseSpool):
             instructions = None
         else:
             instructions = chunker.get_instruction_df(in_df, out_df)
+            # Some chunks may fall into (tolerated) gaps and have no data.
+            if not out_df.empty:
+                out_df = out_df[out_df.index.isin(instructions["current_index"])]
         return self.new_from_df(
             out_df,
             source_df=self._source_df,
diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index bcd8296..cf86bb3 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -33,6 +33,18 @@ from dascore.utils.time import (
 _DEFAULT_TOLERANCE = 1.5
 
 
+def _get_last_sample(values, start, step):
+    """Get the last sample, on the grid defined by start/step, before values."""
+    if not step:  # the step isn't known.
+        return values
+    samples = np.asarray((values - start) / step, dtype=np.float64)
+    nearest = np.round(samples)
+    on_sample = np.isclose(samples, nearest, rtol=0, atol=1e-6)
+    number = np.where(on_sample, nearest, np.ceil(samples)).astype(np.int64) - 1
+    # Going from the values keeps precision when they line up with samples.
+    return np.where(on_sample, values - step, start + number * step)
+
+
 def get_intervals(
     start,
     stop,
@@ -84,7 +96,8 @@ def get_intervals(
         length = to_timedelta64(length)
     # get variable and perform checks
     overlap = length * 0 if not overlap else overlap
-    step = length * 0 if pd.isnull(step) else step
+    # the step is negative for reverse sorted coordinates.
+    step = length * 0 if pd.isnull(step) else abs(step)
     # Check for errors
     if overlap > length:
         msg = "Cant chunk when overlap is greater than chunk size"
@@ -99,13 +112,13 @@ def get_intervals(
     # reference with no overlap
     new_step = length - overlap
     reference = np.arange(start, stop + new_step, step=new_step)
-    # Since we just add to get stop values we need to remove anything
-    # that is within a sample of stopping value (otherwise that segment
-    # will have no data).
-    reference = reference[(reference + step) <= stop]
-    # we subtract step to avoid overlaps in segments. This can mean segments
-    # are ~ one sample shorter than those requested.
-    ends = reference + length - step
+    # Ends are inclusive, so they need to be the last sample before the start
+    # of the next segment (if there is no overlap) to avoid sharing a sample.
+    ends = _get_last_sample(reference + length, start, step)
+    # Remove partial segments which start within a sample of the stopping
+    # value and segments (shorter than step) which don't contain a sample.
+    keep = ((reference + step <= stop) | (ends <= stop)) & (reference <= ends)
+    reference, ends = reference[keep], ends[keep]
     starts = reference
     # trim end to not surpass stop
     bad_ends = ends > stop
@@ -400,7 +413,8 @@ class ChunkManager:
             if col in out.columns:
                 continue
             out[col] = sub_source[col].values[source_inds]
-        out = out.sort_index()
+        # Chunk limits inside of a (tolerated) gap don't use the adjacent source.
+        out = out[out[min_name] <= out[max_name]].sort_index()
         out["_modified"] = _instructions_modified(out, sub_source)
         return out
 
-- 
2.43.0


From 8d82116de86bda3f69566b93f53ce97e9fe7d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:40 +0000
Subject: [PATCH 17/77] fix: keep attributes without conflicts in contents of
 chunked spools

---
 dascore/utils/chunk.py | 15 ++++++++++++---
 dascore/utils/pd.py    |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index cf86bb3..163b0e9 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -33,6 +33,14 @@ from dascore.utils.time import (
 _DEFAULT_TOLERANCE = 1.5
 
 
+def _all_same(ser):
+    """Return True if all values in series are known to be the same."""
+    try:
+        return ser.nunique(dropna=False) <= 1
+    except TypeError:  # unhashable values.
+        return False
+
+
 def _get_last_sample(values, start, step):
     """Get the last sample, on the grid defined by start/step, before values."""
     if not step:  # the step isn't known.
@@ -317,10 +325,11 @@ class ChunkManager:
         # We exclude private columns for considering if merge can happen.
         for col in set(x for x in merger.columns if not x.startswith("_")):
             prefix = col.split("_")[0]
-            # If we have specified to ignore or remove conflicting attrs
-            # we don't need to check them here, but we do still check dims.
+            # If we have specified to ignore or remove conflicting attrs we don't
+            # know the values of those here, but we do still check dims.
             if self._attr_conflict != "raise" and prefix not in dims:
-                continue
+                if not _all_same(merger[col]):
+                    continue
             vals = merger[col].unique()
             if len(vals) > 1:
                 msg = (
diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index d8cd2a2..6922d59 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -126,7 +126,7 @@ def _filter_equality(query_dict, df, bool_index):
     for key, val in query_dict.items():
         if isinstance(val, str):
             regex = get_regex(val)
-            new = df[key].str.match(regex).values
+            new = df[key].str.match(regex, na=False).values
             bool_index = np.logical_and(bool_index, new)
         else:
             new = (df[key] == val).values
-- 
2.43.0


From 52ebea9ca5bd336a17e83ce0fd6d00692f24dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 18/77] fix: group sampling of reverse coordinates and keep
 chunk indices of empty spools

---
 dascore/utils/chunk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 163b0e9..dcd8f5c 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -269,7 +269,8 @@ class ChunkManager:
         sort_args = np.argsort(col)
         sorted_col = col[sort_args]
         roll_forward = np.roll(sorted_col, shift=1)
-        diff = (sorted_col - roll_forward) / sorted_col
+        # steps of reverse sorted coordinates are negative.
+        diff = (sorted_col - roll_forward) / np.abs(sorted_col)
         out_of_threshold = diff > tolerance
         group_number = numpy.cumsum(out_of_threshold)
         # undo sorting
@@ -446,7 +447,8 @@ class ChunkManager:
         assert "_group" in source_df.columns and "_group" in chunked_df.columns
         chunked_groups = set(chunked_df["_group"])
         if not chunked_groups:
-            return pd.DataFrame(columns=[*list(source_df.columns), "_modified"])
+            columns = [*list(source_df.columns), "current_index", "_modified"]
+            return pd.DataFrame(columns=columns)
         # chunk groups should be a subset of source groups
         assert chunked_groups.issubset(set(source_df["_group"]))
         # iterate each group and create instruction df
-- 
2.43.0


From f54fee96fc2f38f4f382ab1d4512b94a091d1c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 19/77] fix: merge patches which do not have a step

---
 dascore/utils/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index b1abfd7..5ea625c 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -411,7 +411,8 @@ def _get_merge_dim(df) -> str | None:
 def _maybe_expected_step(df, dim):
     """Get the expected step if all steps are close, else None."""
     col = df[f"{dim}_step"].values
-    if all_diffs_close_enough(col):
+    # Patches with a single sample may not have a step.
+    if not pd.isnull(col).any() and all_diffs_close_enough(col):
         return get_middle_value(col)
     return None
 
-- 
2.43.0


From 83b5196965277946089bee3eabac04219b1025f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:12 +0000
Subject: [PATCH 20/77] fix: keep samples which don't line up with the chunks
 they are in

---
 dascore/utils/chunk.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index dcd8f5c..8a65ceb 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -349,14 +349,31 @@ class ChunkManager:
         out["_group"] = gnum
         return out
 
-    def _get_chunk_overlap_inds(self, src1, src2, chu1, chu2):
+    def _get_chunk_overlap_inds(self, src1, chu1, chu2):
         """Get an index mapping from source to chunk."""
         chunk_starts = np.searchsorted(src1, chu1, side="right") - 1
-        chunk_ends = np.searchsorted(src2, chu2, side="left")
-        # Ensure no chunks run off the end of the source.
-        assert np.all(chunk_ends < len(src1)), "Invalid chunk range found"
-        # add 1 to end so it is an exclusive end range
-        return np.stack([chunk_starts, chunk_ends + 1], axis=1)
+        chunk_ends = np.searchsorted(src1, chu2, side="right")
+        return np.stack([np.maximum(chunk_starts, 0), chunk_ends], axis=1)
+
+    def _get_chunk_limits(self, chu1, chu2, src_step):
+        """
+        Get the limits (inclusive) of samples in each chunk.
+
+        The chunk ends are one step before the next chunk starts. Samples
+        which don't line up with the chunk starts can occur after this.
+        """
+        duration, step = self._value, abs(src_step).min()
+        if pd.isnull(duration) or pd.isnull(src_step).any() or not step:
+            return chu1, chu2  # merging, or the sampling isn't known.
+        if is_datetime64(chu1) or is_timedelta64(chu1):
+            duration, one = to_timedelta64(duration), np.timedelta64(1, "ns")
+            tol = step * 1e-6  # small enough to only account for rounding.
+        else:
+            one, tol = 1, (0 if chu1.dtype.kind in "iu" else step * 1e-6)
+        start, stop = chu1 - tol, chu1 + duration - tol
+        is_float = stop.dtype.kind == "f"
+        stop = np.nextafter(stop, -np.inf) if is_float else stop - one
+        return start, np.maximum(stop, chu2)
 
     def _get_source_and_chunk_inds(self, chunk2src_inds, s_index, c_index):
         """Get ndarrays of chunk index, source index."""
@@ -391,14 +408,15 @@ class ChunkManager:
         # need to make sure we don't have overlaps in source df. This implicitly
         # handles merging.
         sub_source = _remove_overlaps(sub_source, self._name)
-        src1, src2, _src_step = get_interval_columns(
+        src1, src2, src_step = get_interval_columns(
             sub_source, self._name, arrays=True
         )
         chu1, chu2, _chu_step = get_interval_columns(sub_chunk, self._name, arrays=True)
         dims = get_dim_names_from_columns(sub_source)
         cols2keep = get_column_names_from_dim(dims)
         # next get index range for which chunk times belong to.
-        chunk2src_inds = self._get_chunk_overlap_inds(src1, src2, chu1, chu2)
+        chu1, chu2 = self._get_chunk_limits(chu1, chu2, src_step)
+        chunk2src_inds = self._get_chunk_overlap_inds(src1, chu1, chu2)
         # total length of source to chunk mapping
         inds = self._get_source_and_chunk_inds(
             chunk2src_inds,
-- 
2.43.0


From 4a1a0b095afaa419af6b3d653a5674bbad68c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:47 +0000
Subject: [PATCH 21/77] fix: raise when negative spool indices are out of
 bounds

---
 dascore/core/spool.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index e460818..1699748 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -498,8 +498,7 @@ class DataFrameSpool(BaseSpool):
         """Given an index (from current df), return the corresponding patch."""
         source = self._source_df
         instruction = self._instruction_df
-        # handle negative index.
-        df_ind = df_ind if df_ind >= 0 else len(self._df) + df_ind
+        # Negative indices count from the end but can't go past the start.
         try:
             inds = self._df.index[df_ind]
         except IndexError:
-- 
2.43.0


From 2db88fa9379f38c55d5445a84b3fb9989cc6681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:46 +0000
Subject: [PATCH 22/77] fix: get the right patch from files with overlapping
 patches

---
 dascore/clients/dirspool.py  | 11 +++++----
 dascore/clients/filespool.py |  5 +++--
 dascore/core/spool.py        | 43 ++++++++++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index a4ba73e..2e67faa 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -78,10 +78,8 @@ class DirectorySpool(DataFrameSpool):
 
     def _get_df(self):
         """Get the dataframe of current contents."""
-        out = adjust_segments(
-            self._source_df, ignore_bad_kwargs=True, **self._select_kwargs
-        )
-        return out
+        df = self._source_df.drop(columns="_source_limits", errors="ignore")
+        return adjust_segments(df, ignore_bad_kwargs=True, **self._select_kwargs)
 
     def _get_instruction_df(self):
         """Return instruction df on how to get from source_df to df."""
@@ -90,7 +88,8 @@ class DirectorySpool(DataFrameSpool):
 
     def _get_source_df(self):
         """Return a dataframe of sources in spool."""
-        return self.indexer(**self._select_kwargs).reset_index(drop=True)
+        df = self.indexer(**self._select_kwargs).reset_index(drop=True)
+        return self._add_source_limits(df)
 
     @property
     def spool_path(self):
@@ -137,7 +136,7 @@ class DirectorySpool(DataFrameSpool):
                 f"requested range; it may have been trimmed to nothing."
             )
             raise MissingPatchError(msg)
-        return patches[0]
+        return self._get_file_patch(final_kwargs, patches)
 
     def _read_patches(self, kwargs) -> list[dc.Patch] | None:
         """
diff --git a/dascore/clients/filespool.py b/dascore/clients/filespool.py
index 3cc4d38..5f72492 100644
--- a/dascore/clients/filespool.py
+++ b/dascore/clients/filespool.py
@@ -54,7 +54,8 @@ class FileSpool(DataFrameSpool):
         _format, _version = dc.get_format(path, file_format, file_version)
         source_df = dc.scan_to_df(path, file_format=_format, file_version=_version)
         dfs = self._get_dummy_dataframes(source_df)
-        self._df, self._source_df, self._instruction_df = dfs
+        self._df, source_df, self._instruction_df = dfs
+        self._source_df = self._add_source_limits(source_df)
         self._file_format = _format
         self._file_version = _version
 
@@ -74,7 +75,7 @@ class FileSpool(DataFrameSpool):
                 f"it may have been trimmed to nothing."
             )
             raise MissingPatchError(msg)
-        return patches[0]
+        return self._get_file_patch(kwargs, patches)
 
     @compose_docstring(doc=BaseSpool.update.__doc__)
     def update(self: SpoolType, progress: PROGRESS_LEVELS = "standard") -> Self:
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 1699748..cb8e990 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -523,6 +523,49 @@ class DataFrameSpool(BaseSpool):
             joined = joined.drop_duplicates(subset=list(cols), keep="first")
         return self._patch_from_instruction_df(joined)
 
+    @staticmethod
+    def _add_source_limits(df):
+        """
+        Add a (private) column with the limits of each source patch.
+
+        The limits in the dataframes can be trimmed, these are never changed
+        so that a patch can be found among the others in the same file.
+        """
+        dims = get_dim_names_from_columns(df)
+        names = [f"{x}_{y}" for x in dims for y in ("min", "max")]
+        values = zip(*[df[x] for x in names]) if names else [()] * len(df)
+        limits = [tuple(zip(names, x)) for x in values]
+        ser = pd.Series(limits, index=df.index, dtype=object)
+        return df.assign(_source_limits=ser)
+
+    def _get_file_patch(self, kwargs, patches):
+        """
+        Get the patch described by kwargs from those read from the same file.
+
+        Patches in the same file can overlap, in which case more than one of
+        them can have data in the requested range.
+        """
+        limits = kwargs.get("_source_limits", ())
+        if len(patches) < 2 or not len(limits):
+            return patches[0]
+        keys = ("path", "file_format", "file_version")
+        attr_names = ("instrument_id", "experiment_id", "data_category")
+        attrs = {
+            i: kwargs[i]
+            for i in set(self._group_columns + attr_names) - {"dims"}
+            if i in kwargs and not pd.isnull(kwargs[i])
+        }
+        sub_kwargs = {i: kwargs[i] for i in keys if i in kwargs}
+        for patch in dc.read(**sub_kwargs):
+            summary = patch.coords._get_dim_summary()
+            same_limits = all(
+                pd.isnull(value) or summary.get(name) == value
+                for name, value in limits
+            )
+            if same_limits and all(patch.attrs.get(i) == v for i, v in attrs.items()):
+                return patch
+        return patches[0]
+
     def _patch_from_instruction_df(self, joined):
         """Get the patches joined columns of instruction df."""
         df_dict_list = self._df_to_dict_list(joined)
-- 
2.43.0


From f733bb008c97b2577c527c87f3fb0817256cf60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:25 +0000
Subject: [PATCH 23/77] fix: keep different patches with the same name in
 DASDAE files

---
 dascore/io/dasdae/core.py  | 12 ++++++++----
 dascore/io/dasdae/utils.py | 31 +++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 475da97..5c74d74 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -22,6 +22,7 @@ from dascore.utils.patch import get_patch_names
 from .utils import (
     _get_attrs,
     _get_contents_from_patch_groups,
+    _get_group_name,
     _kwargs_empty,
     _matches_attr_filters,
     _read_patch,
@@ -88,19 +89,22 @@ class DASDAEV1(FiberIO):
         waveforms = resource.get_node("/waveforms")
         # write new patches to file
         patch_names = get_patch_names(patches).values
-        for patch, name in zip(patches, patch_names):
+        names = []
+        for patch, patch_name in zip(patches, patch_names):
+            name = _get_group_name(patch, waveforms, patch_name, names)
             _save_patch(patch, waveforms, resource, name)
+            names.append(name)
         indexer = HDFPatchIndexManager(resource)
         if index or indexer.has_index:
-            df = self._get_patch_summary(patches)
+            df = self._get_patch_summary(patches, names)
             indexer.write_update(df)
 
-    def _get_patch_summary(self, patches) -> pd.DataFrame:
+    def _get_patch_summary(self, patches, names) -> pd.DataFrame:
         """Get a patch summary to put into index."""
         df = (
             dc.scan_to_df(patches)
             .assign(
-                path=lambda x: get_patch_names(x),
+                path=names,
                 file_format=self.name,
                 file_version=self.version,
             )
diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 1cde1e1..1fefe25 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -85,8 +85,39 @@ def _save_coords(patch, patch_group, h5):
         patch_group._v_attrs[save_name] = ",".join(dims)
 
 
+def _is_saved_patch(patch, patch_group):
+    """Return True if the group holds the same patch, which can be overwritten."""
+
+    def get_id(attrs):
+        """Get a dict of strings which identifies the patch."""
+        out = attrs.flat_dump(exclude=["history"])
+        return {i: str(v) for i, v in out.items() if not np.all(pd.isnull(v))}
+
+    if _get_dims(patch_group) != patch.dims:
+        return False
+    return get_id(_get_attrs(patch_group)) == get_id(patch.attrs)
+
+
+def _get_group_name(patch, wave_group, name, used_names):
+    """
+    Get the name of the group to save the patch in.
+
+    Different patches can have the same name, for example if their start times
+    differ by less than a second; these need their own group.
+    """
+    out, count = name, 0
+    while out in used_names or (
+        out in wave_group and not _is_saved_patch(patch, wave_group[out])
+    ):
+        count += 1
+        out = f"{name}__{count}"
+    return out
+
+
 def _save_patch(patch, wave_group, h5, name):
     """Save the patch to disk."""
+    if name in wave_group:  # don't keep anything from the old patch.
+        h5.remove_node(wave_group, name, recursive=True)
     patch_group = _create_or_get_group(h5, wave_group, name)
     _save_attrs_and_dims(patch, patch_group)
     _save_coords(patch, patch_group, h5)
-- 
2.43.0


From 310219d787679b7293633258113bbc98fde28624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:03 +0000
Subject: [PATCH 24/77] fix: write and scan DASDAE files which have an index

---
 dascore/io/dasdae/core.py | 11 ++++++++---
 dascore/utils/hdf5.py     |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 5c74d74..7f3c19f 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -95,7 +95,11 @@ class DASDAEV1(FiberIO):
             _save_patch(patch, waveforms, resource, name)
             names.append(name)
         indexer = HDFPatchIndexManager(resource)
-        if index or indexer.has_index:
+        has_index = indexer.has_index
+        if index or has_index:
+            if not has_index:  # the file can already have other patches.
+                patches = list(self.read(resource))
+                names = [x._v_name for x in waveforms]
             df = self._get_patch_summary(patches, names)
             indexer.write_update(df)
 
@@ -108,7 +112,7 @@ class DASDAEV1(FiberIO):
                 file_format=self.name,
                 file_version=self.version,
             )
-            .dropna(subset=["time_min", "time_max", "distance_min", "distance_max"])
+            .dropna(subset=["time_min", "time_max"])
         )
         return df
 
@@ -156,7 +160,8 @@ class DASDAEV1(FiberIO):
         if indexer.has_index:
             # We need to change the path back to the file rather than internal
             # HDF5 path so it works with FileSpool and such.
-            records = indexer.get_index().assign(path=str(resource)).to_dict("records")
+            df = indexer.get_index().assign(path=resource.filename)
+            records = df.to_dict("records")
             return [dc.PatchAttrs(**x) for x in records]
         else:
             file_format = self.name
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 5c6930f..944b093 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -21,6 +21,7 @@ import tables
 from h5py import File as H5pyFile
 from packaging.version import parse as get_version
 from pandas.io.common import stringify_path
+from pandas.io.pytables import _tables
 from tables import ClosedNodeError
 from tables import File as PyTablesFile
 
@@ -77,6 +78,7 @@ class _HDF5Store(pd.HDFStore):
         self._fletcher32 = fletcher32
         self._filters = None
         if isinstance(path, tables.File):
+            _tables()  # pandas only sets its reference to pytables in open.
             self._handle = path
         else:
             self.open(mode)
-- 
2.43.0


From a89e15393fc402d0e0da8dd65306db403dbebe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:31 +0000
Subject: [PATCH 25/77] fix: replace contents of updated files in indices

---
 dascore/utils/hdf5.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 944b093..d006a14 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -294,6 +294,7 @@ class HDFPatchIndexManager:
         df = self.encode_table(update_df.copy(), path=base_path)
         with _HDF5Store(self.path) as store:
             try:
+                self._drop_paths(store, df["path"])
                 nrows = store.get_storer(self._index_node).nrows
             except (AttributeError, KeyError):
                 store.append(
@@ -307,6 +308,13 @@ class HDFPatchIndexManager:
                 store.append(self._index_node, df, append=True, **self.hdf_kwargs)
             self._update_metadata(store, update_time)
 
+    def _drop_paths(self, store, paths):
+        """Drop old contents of paths which are about to be updated."""
+        old_paths = store.select(self._index_node, columns=["path"])["path"]
+        rows = np.flatnonzero(old_paths.isin(paths))
+        if len(rows):
+            store.remove(self._index_node, where=rows)
+
     def _update_metadata(self, store, update_time):
         # update timestamp
         update_time = time.time() if update_time is None else update_time
-- 
2.43.0


From a095789f184488650baab28c59898bcd221c84e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:55 +0000
Subject: [PATCH 26/77] fix: select from coordinates which are empty

---
 dascore/core/coords.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index a0b8db0..08f3d8e 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1110,6 +1110,8 @@ class CoordPartial(BaseCoord):
         try:
             self._check_order_and_select(relative, samples)
         except CoordError as e:
+            if 0 in self.shape:  # there is nothing to select from.
+                return self, slice(None)
             if not is_array(args):
                 args = self.get_slice_tuple(args, relative=False)
                 # Check if the select has no effect and return self or raise.
-- 
2.43.0


From 23c35c92796df8213b40a92a0179fa965482cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:55 +0000
Subject: [PATCH 27/77] fix: match empty attributes when getting patches from
 files

---
 dascore/core/spool.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index cb8e990..3f3a480 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -550,10 +550,11 @@ class DataFrameSpool(BaseSpool):
             return patches[0]
         keys = ("path", "file_format", "file_version")
         attr_names = ("instrument_id", "experiment_id", "data_category")
+        # Missing values of these attributes are empty strings.
         attrs = {
-            i: kwargs[i]
+            i: "" if pd.isnull(kwargs[i]) else kwargs[i]
             for i in set(self._group_columns + attr_names) - {"dims"}
-            if i in kwargs and not pd.isnull(kwargs[i])
+            if i in kwargs
         }
         sub_kwargs = {i: kwargs[i] for i in keys if i in kwargs}
         for patch in dc.read(**sub_kwargs):
@@ -562,7 +563,9 @@ class DataFrameSpool(BaseSpool):
                 pd.isnull(value) or summary.get(name) == value
                 for name, value in limits
             )
-            if same_limits and all(patch.attrs.get(i) == v for i, v in attrs.items()):
+            if same_limits and all(
+                patch.attrs.get(i, "") == v for i, v in attrs.items()
+            ):
                 return patch
         return patches[0]
 
-- 
2.43.0


From 1882b292228df6792a72dfb02cb62dcd37afb287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:09 +0000
Subject: [PATCH 28/77] fix: don't trim patches by limits of coordinates which
 were not selected

---
 dascore/core/spool.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 3f3a480..4048634 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -514,6 +514,7 @@ class DataFrameSpool(BaseSpool):
         assert positions is not None and len(positions), "no instructions found"
         df1 = instruction.iloc[positions]
         joined = df1.join(source.drop(columns=df1.columns, errors="ignore"))
+        joined = self._drop_untrimmed_coords(joined, source)
         # Occasionally, duplicates can creep into the source_df,
         # but it costs a bit to check for duplicates, so only check and drop
         # duplicates on large joined dataframes where performance might be
@@ -523,6 +524,22 @@ class DataFrameSpool(BaseSpool):
             joined = joined.drop_duplicates(subset=list(cols), keep="first")
         return self._patch_from_instruction_df(joined)
 
+    @staticmethod
+    def _drop_untrimmed_coords(joined, source):
+        """
+        Drop the limits of non-dimensional coordinates which are not trimmed.
+
+        These shouldn't be selected because their limits don't have to hold
+        after the dimensions they are associated with have been trimmed.
+        """
+        dims = {x for row in joined["dims"].unique() for x in str(row).split(",")}
+        drop = []
+        for name in set(get_dim_names_from_columns(joined)) - dims:
+            cols = [f"{name}_min", f"{name}_max"]
+            if joined[cols].equals(source.loc[joined.index, cols]):
+                drop.extend(cols)
+        return joined.drop(columns=drop)
+
     @staticmethod
     def _add_source_limits(df):
         """
-- 
2.43.0


From 9507f4500dfdf7161fa5347575cb526530765bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 29/77] fix: get patches with associated coordinates from files

---
 dascore/core/spool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 4048634..aca7c3a 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -577,7 +577,7 @@ class DataFrameSpool(BaseSpool):
         for patch in dc.read(**sub_kwargs):
             summary = patch.coords._get_dim_summary()
             same_limits = all(
-                pd.isnull(value) or summary.get(name) == value
+                pd.isnull(value) or summary.get(name, value) == value
                 for name, value in limits
             )
             if same_limits and all(
-- 
2.43.0


From e0907f8561d8fb66b9f9bd6514024f428d0674ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:16 +0000
Subject: [PATCH 30/77] fix: keep patches without times in indices and refresh
 cached contents when updating

---
 dascore/io/indexer.py | 16 ++++++++++------
 dascore/utils/hdf5.py | 14 ++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index c4157dc..868b049 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -179,7 +179,10 @@ class DirectoryIndexer(AbstractIndexer):
         # empty df.
         if not self.index_path.exists():
             return pd.DataFrame(columns=self._index_table.index_columns)
-        time_min, time_max = get_max_min_times(kwargs.pop("time", None))
+        time = kwargs.pop("time", None)
+        # Patches without times are only excluded if times are requested.
+        has_time = time is not None and not all(pd.isnull(x) for x in time)
+        time_min, time_max = get_max_min_times(time)
         hdf5_kwargs, kwargs = self._separate_hdf5_kwargs(kwargs)
         buffer = to_timedelta64(buffer)
         # find out if the query falls within one cached times
@@ -189,8 +192,8 @@ class DirectoryIndexer(AbstractIndexer):
         cached_index = self.cache[con1 & con2 & con3]
         if not len(cached_index):  # query is not cached get it from hdf5 file
             index = self._index_table.get_index(
-                time_min=time_min,
-                time_max=time_max,
+                time_min=time_min if has_time else None,
+                time_max=time_max if has_time else None,
                 **hdf5_kwargs,
             )
             self._set_cache(index, time_min, time_max, hdf5_kwargs)
@@ -200,10 +203,11 @@ class DirectoryIndexer(AbstractIndexer):
         con1 = index["time_min"] >= (time_max + buffer)
         con2 = index["time_max"] <= (time_min - buffer)
         pre_filter_df = index[~(con1 | con2)]
+        if has_time:
+            kwargs["time"] = (time_min, time_max)
         out = pre_filter_df[
             filter_df(
                 pre_filter_df,
-                time=(time_min, time_max),
                 ignore_bad_kwargs=True,
                 **kwargs,
             )
@@ -341,6 +345,6 @@ class DirectoryIndexer(AbstractIndexer):
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
             self._index_table.write_update(df, update_time, base_path=self.path)
-            # clear cache out when new traces are added
-            self.clear_cache()
+        # clear cache in case this, or another, indexer updated the index file.
+        self.clear_cache()
         return self
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index d006a14..d64c331 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -273,12 +273,14 @@ class HDFPatchIndexManager:
             else:
                 return df
 
-        time_min, time_max = get_max_min_times((time_min, time_max))
-        where = _get_kernel_query(
-            time_min.view(np.int64),
-            time_max.view(np.int64),
-            self.buffer.view(np.int64),
-        )
+        where = None  # get everything, including patches without times.
+        if not (time_min is None and time_max is None):
+            time_min, time_max = get_max_min_times((time_min, time_max))
+            where = _get_kernel_query(
+                time_min.view(np.int64),
+                time_max.view(np.int64),
+                self.buffer.view(np.int64),
+            )
         df = _get_index(where, **kwargs)
         return self.decode_table(df)
 
-- 
2.43.0


From 71d57a228e6bb274a0f27409c847b164c922a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:36 +0000
Subject: [PATCH 31/77] fix: index patches without times or versions

---
 dascore/utils/hdf5.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index d64c331..3c63488 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -224,15 +224,19 @@ class HDFPatchIndexManager:
         """Encode the table for writing to hdf5."""
         # apply column encoders, make paths relative to reference path
         # and drop any non-index columns.
+        df = fill_defaults_from_pydantic(df, self._base_model)
+        # Not all the formats provide all the strings (e.g., file_version).
+        fields = self._base_model.model_fields
+        df = df.fillna(
+            {i: v.default for i, v in fields.items() if isinstance(v.default, str)}
+        )
         cols = set(df.columns)
         for col, func in self._column_encoders.items():
             if col not in cols:
                 continue
             df[col] = func(df[col])
-        out = (
-            df.pipe(fill_defaults_from_pydantic, self._base_model)
-            .loc[:, list(self.index_columns)]
-            .assign(path=lambda x: _remove_base_path(x["path"], path))
+        out = df.loc[:, list(self.index_columns)].assign(
+            path=lambda x: _remove_base_path(x["path"], path)
         )
         # there shouldn't be any null values in index now
         assert not out.isnull().any().any(), "null values found in index"
-- 
2.43.0


From 6ed757a3bc314740898b37a0f7a120afba518947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:58 +0000
Subject: [PATCH 32/77] fix: load patches from directories of files without a
 format version

---
 dascore/clients/dirspool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index 2e67faa..e7bd7f3 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -117,7 +117,10 @@ class DirectorySpool(DataFrameSpool):
 
         This is significantly faster than iterating rows.
         """
-        df = df.copy(deep=False).replace("", None)
+        df = df.copy(deep=False)
+        # string columns need to be objects; otherwise None is converted to NaN.
+        str_cols = [i for i in df.columns if pd.api.types.is_string_dtype(df[i])]
+        df = df.astype({i: object for i in str_cols}).replace("", None)
         # note: need to add extra / here since we no longer store it in db.
         df["path"] = (str(self.spool_path) + "/") + df["path"]
         return super()._df_to_dict_list(df)
-- 
2.43.0


From 26d1bf84c913628d0a7c068cfc5d7e4f71282716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 33/77] fix: close files opened for methods which raise

---
 dascore/io/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index c80b96d..2760cf4 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -421,6 +421,7 @@ def _type_caster(func, sig, required_type, arg_name):
         bound = sig.bind(*args, **kwargs)
         new_kw = bound.arguments
         resource = new_kw.pop(arg_name)
+        new_resource = resource
         try:
             new_resource = get_handle_from_resource(resource, required_type)
             new_kw[arg_name] = new_resource
@@ -432,7 +433,7 @@ def _type_caster(func, sig, required_type, arg_name):
                 out = False
             else:
                 raise e
-        else:
+        finally:
             # if a new file handle was created we need to close it now. But it
             # shouldn't close any passed in, that should happen up the stack.
             if new_resource is not resource and hasattr(new_resource, "close"):
-- 
2.43.0


From d063214d5ec48963ea3b99bf7c2f27d21f654aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 34/77] fix: tell coordinate attributes apart from names which
 start alike

---
 dascore/utils/attrs.py | 7 +++++--
 dascore/utils/chunk.py | 2 +-
 dascore/utils/misc.py  | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/dascore/utils/attrs.py b/dascore/utils/attrs.py
index dfc1fb9..32cae56 100644
--- a/dascore/utils/attrs.py
+++ b/dascore/utils/attrs.py
@@ -247,14 +247,17 @@ def separate_coord_info(
         for key in obj:
             if not is_valid_coord_str(key):
                 continue
-            potential_keys[key.split("_")[0]].add(key.split("_")[1])
+            name, suffix = key.rsplit("_", 1)
+            potential_keys[name].add(suffix)
         return tuple(i for i, v in potential_keys.items() if _meets_required(v))
 
     def _get_coords_from_top_level(obj, out, dims):
         """First get coord info from top level."""
         for dim in iterate(dims):
             potential_coord = {
-                i.split("_")[1]: v for i, v in obj.items() if is_valid_coord_str(i, dim)
+                i.rsplit("_", 1)[1]: v
+                for i, v in obj.items()
+                if is_valid_coord_str(i, dim)
             }
             # nasty hack for handling d_{dim} for backward compatibility.
             if (bad_name := f"d_{dim}") in obj:
diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 8a65ceb..e5e2331 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -325,7 +325,7 @@ class ChunkManager:
         dims = set(df.iloc[0].get("dims", "").split(","))
         # We exclude private columns for considering if merge can happen.
         for col in set(x for x in merger.columns if not x.startswith("_")):
-            prefix = col.split("_")[0]
+            prefix = col.rsplit("_", 1)[0]
             # If we have specified to ignore or remove conflicting attrs we don't
             # know the values of those here, but we do still check dims.
             if self._attr_conflict != "raise" and prefix not in dims:
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index bd9534b..cb62587 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -443,9 +443,11 @@ def _get_compiled_suffix_prefix_regex(
 ):
     """Get a compiled regex which matches the form prefixes_suffixes."""
     suffixes = iterate(suffixes)
-    pattern = rf".*_({'|'.join(iterate(suffixes))})"
+    suffix = "|".join(re.escape(x) for x in iterate(suffixes))
+    prefix = ".*"
     if prefixes is not None:
-        pattern = rf"({'|'.join(iterate(prefixes))})" + pattern
+        prefix = "|".join(re.escape(x) for x in iterate(prefixes))
+    pattern = rf"({prefix})_({suffix})$"
     return re.compile(pattern)
 
 
-- 
2.43.0


From dc364f3a7c34761e2f38708443844fdbc1163cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 35/77] fix: swap names of coordinates and update coordinates
 with underscores

---
 dascore/core/attrs.py        | 14 +++++++-------
 dascore/core/coordmanager.py | 36 ++++++++++++------------------------
 2 files changed, 19 insertions(+), 31 deletions(-)

diff --git a/dascore/core/attrs.py b/dascore/core/attrs.py
index 815fdc4..26e65be 100644
--- a/dascore/core/attrs.py
+++ b/dascore/core/attrs.py
@@ -157,7 +157,7 @@ class PatchAttrs(DascoreBaseModel):
 
     def __getattr__(self, item):
         """Enables dynamic attributes such as time_min, time_max, etc."""
-        split = item.split("_")
+        split = item.rsplit("_", 1)
         # this only works on names like time_max, distance_step, etc.
         if not len(split) == 2:
             return super().__getattr__(item)
@@ -220,15 +220,15 @@ class PatchAttrs(DascoreBaseModel):
 
     def rename_dimension(self, **kwargs):
         """Rename one or more dimensions if in kwargs. Return new PatchAttrs."""
-        if not (dims := set(kwargs) & set(self.dim_tuple)):
+        # All names are changed at once so that names can be swapped.
+        new_names = {i: v for i, v in kwargs.items() if i in self.dim_tuple}
+        if not new_names:
             return self
         new = self.model_dump(exclude_defaults=True)
         coords = new.get("coords", {})
-        new_dims = list(self.dim_tuple)
-        for old_name, new_name in {x: kwargs[x] for x in dims}.items():
-            new_dims[new_dims.index(old_name)] = new_name
-            coords[new_name] = coords.pop(old_name, None)
-        new["dims"] = tuple(new_dims)
+        old_coords = {i: coords.pop(i, None) for i in new_names}
+        coords.update({v: old_coords[i] for i, v in new_names.items()})
+        new["dims"] = tuple(new_names.get(x, x) for x in self.dim_tuple)
         return self.__class__(**new)
 
     def update(self, **kwargs) -> Self:
diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 1fcd62f..c549d96 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -308,7 +308,7 @@ class CoordManager(DascoreBaseModel):
         out.update({i: v for i, v in kwargs.items() if i not in coord_to_drop})
         # update based on keywords
         for item, value in coord_updates.items():
-            coord_name, attr = item.split("_")
+            coord_name, attr = item.rsplit("_", 1)
             new = list(out[coord_name])
             new[1] = new[1].update(**{attr: value})
             out[coord_name] = tuple(new)
@@ -931,29 +931,17 @@ class CoordManager(DascoreBaseModel):
             Used to rename coord {old_coord_name: new_coord_name}
         """
 
-        def _adjust_dim_map_to_new_dim(dim_map, old_name, new_name):
-            """Get the updated dim map."""
-            out = dim_map
-            # replace all mentions of
-            for key, value in out.items():
-                if old_name not in value:
-                    continue
-                new_value = tuple(x if x != old_name else new_name for x in value)
-                out[key] = new_value
-
-            return out
-
-        dims, coord_map = list(self.dims), dict(self.coord_map)
-        dim_map = dict(self.dim_map)
-        for old_name, new_name in kwargs.items():
-            if old_name == new_name:
-                continue
-            if old_name in dims:  # only
-                dims[dims.index(old_name)] = new_name
-                dim_map = _adjust_dim_map_to_new_dim(dim_map, old_name, new_name)
-            coord_map[new_name] = coord_map.pop(old_name)
-            dim_map[new_name] = dim_map.pop(old_name)
-
+        # All names are changed at once so that names can be swapped.
+        new_names = {i: v for i, v in kwargs.items() if i != v}
+        coord_map = {i: v for i, v in self.coord_map.items() if i not in new_names}
+        coord_map.update({v: self.coord_map[i] for i, v in new_names.items()})
+        dim_map = {i: v for i, v in self.dim_map.items() if i not in new_names}
+        dim_map.update({v: self.dim_map[i] for i, v in new_names.items()})
+        # then replace all mentions of the dimensions.
+        dims = tuple(new_names.get(x, x) for x in self.dims)
+        dim_map = {
+            i: tuple(new_names.get(x, x) for x in v) for i, v in dim_map.items()
+        }
         out = dict(dims=dims, coord_map=coord_map, dim_map=dim_map)
         return self.__class__(**out)
 
-- 
2.43.0


From 96fc5ace93b3383f4bc5c70935342a13930ca5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:00 +0000
Subject: [PATCH 36/77] fix: set limits of reverse sorted coordinates and of
 uneven times from strings

---
 dascore/core/coords.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 08f3d8e..0dfd8df 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1357,15 +1357,22 @@ class CoordRange(BaseCoord):
             out = out.new(stop=new_stop, step=step)
         if min is not None:
             min = get_compatible_values(min, self.dtype)
-            diff = min - out.start
-            new_stop = out.stop + diff
-            out = out.new(start=min, stop=new_stop)
+            diff = min - out.min()
+            # the minimum of a reverse sorted coord is its last value.
+            if out.reverse_sorted:
+                out = out.new(start=out.start + diff, stop=min + out.step)
+            else:
+                out = out.new(start=min, stop=out.stop + diff)
         if max is not None:
             max = get_compatible_values(max, self.dtype)
-            translation = (max + out.step) - out.stop
-            new_start = self.start + translation
-            # we add step so the new range is inclusive of stop.
-            out = out.new(start=new_start, stop=max + out.step)
+            if out.reverse_sorted:
+                diff = max - out.max()
+                out = out.new(start=max, stop=out.stop + diff)
+            else:
+                translation = (max + out.step) - out.stop
+                new_start = self.start + translation
+                # we add step so the new range is inclusive of stop.
+                out = out.new(start=new_start, stop=max + out.step)
         return out.new(**kwargs)
 
     @property
@@ -1539,11 +1546,11 @@ class CoordArray(BaseCoord):
         if not pd.isnull(step) and len(self):
             out = self.snap().update_limits(step=step)
         elif min is not None:
-            diff = min - self.min()
+            diff = get_compatible_values(min, self.dtype) - self.min()
             vals = self.values + diff
             out = get_coord(data=vals, units=self.units)
         elif max is not None:
-            diff = max - self.max()
+            diff = get_compatible_values(max, self.dtype) - self.max()
             vals = self.values + diff
             out = get_coord(data=vals, units=self.units)
         return out.new(**kwargs)
-- 
2.43.0


From 83869ab7ff3a88c152ac6d595a440f21a010472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:00 +0000
Subject: [PATCH 37/77] fix: swap names of coordinates which are not dimensions

---
 dascore/core/attrs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/core/attrs.py b/dascore/core/attrs.py
index 26e65be..cfe5c73 100644
--- a/dascore/core/attrs.py
+++ b/dascore/core/attrs.py
@@ -219,9 +219,10 @@ class PatchAttrs(DascoreBaseModel):
         return tuple(self.dims.split(","))
 
     def rename_dimension(self, **kwargs):
-        """Rename one or more dimensions if in kwargs. Return new PatchAttrs."""
+        """Rename dimensions or coordinates if in kwargs. Return new PatchAttrs."""
         # All names are changed at once so that names can be swapped.
-        new_names = {i: v for i, v in kwargs.items() if i in self.dim_tuple}
+        known = set(self.dim_tuple) | set(self.coords)
+        new_names = {i: v for i, v in kwargs.items() if i in known}
         if not new_names:
             return self
         new = self.model_dump(exclude_defaults=True)
-- 
2.43.0


From ef2d01b93b3c40691bbda01a01e3021fb02eab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:00 +0000
Subject: [PATCH 38/77] fix: don't update coordinates from null values which
 did not change

---
 dascore/core/coordmanager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index c549d96..c899145 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -71,6 +71,7 @@ from dascore.utils.attrs import separate_coord_info
 from dascore.utils.docs import compose_docstring
 from dascore.utils.mapping import FrozenDict
 from dascore.utils.misc import (
+    _all_null,
     _apply_union_indexers,
     _matches_prefix_suffix,
     broadcast_for_index,
@@ -339,9 +340,12 @@ class CoordManager(DascoreBaseModel):
             coord = self.coord_map[name]
             # convert values to dict to determine which should be updated.
             model_contents = coord.to_summary().model_dump(exclude_defaults=True)
-            # see what has changed.
+            # see what has changed; null values don't equal themselves.
             diff = {
-                i: v for i, v in maybe_updates.items() if v != model_contents.get(i)
+                i: v
+                for i, v in maybe_updates.items()
+                if v != (old := model_contents.get(i))
+                and not (_all_null(v) and _all_null(old))
             }
             out[name] = coord.update(**diff)
         coords = self.new(coord_map=out)
-- 
2.43.0


From a1929b6a7922c6f158018c305255fb4f5fc7dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 39/77] fix: write arrays without positive strides to dasdae
 files correctly

---
 dascore/io/dasdae/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 1fefe25..56573f2 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -32,6 +32,9 @@ def _create_or_get_group(h5, group, name):
 
 def _create_or_squash_array(h5, group, name, data):
     """Create a new array, if it exists delete and re-create."""
+    # Pytables writes zeros for some arrays whose strides aren't positive.
+    if any(x <= 0 for x in getattr(data, "strides", ())):
+        data = np.array(data, order="C", copy=True)
     try:
         array = h5.create_array(group, name, data)
     except NodeError:
-- 
2.43.0


From 38dfdbbec3827faa0893f7a453d3beda578972d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 40/77] fix: clear cached formats when a new fiberio is
 registered

---
 dascore/io/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 2760cf4..c63bd0d 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -212,6 +212,10 @@ class _FiberIOManager:
         self._format_version[forma][ver] = fiberio
         self._fiber_io_by_input_type[fiberio.input_type].add(fiberio)
         self._fiber_io_name_ver.add(id_tuple)
+        # anything cached before this fiberio was registered is now stale.
+        self.__dict__.pop("known_formats", None)
+        getattr(self, "_cache", {}).clear()
+        type(self)._get_prioritized_list.cache_clear()
 
     @cached_method
     def get_fiberio(
-- 
2.43.0


From c595a4986e2cabbaf1e84bc63746ff11e2df7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 41/77] fix: overwrite pickle files and pickle the patches of
 spools

---
 dascore/io/pickle/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index 80f62b5..069a2c5 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -54,4 +54,10 @@ class PickleIO(FiberIO):
 
     def write(self, patch, resource: BinaryWriter, **kwargs):
         """Write a Patch/Spool to disk."""
+        # Pickle the patches of spools, not references to their files.
+        if isinstance(patch, dascore.BaseSpool):
+            patch = dascore.spool(list(patch))
+        # A pickle can't be appended to; only its first object is ever read.
+        if "a" in str(getattr(resource, "mode", "")):
+            resource.truncate(0)
         pickle.dump(patch, resource)
-- 
2.43.0


From 9f743648895fd4305b44c61c444674d84ce09226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 42/77] fix: read patches with slashes, wildcards, or
 collections in their attributes from dasdae files

---
 dascore/io/dasdae/utils.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 56573f2..f2922bb 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+from numbers import Number
+
 import numpy as np
 import pandas as pd
 from tables import NodeError
@@ -108,6 +110,7 @@ def _get_group_name(patch, wave_group, name, used_names):
     Different patches can have the same name, for example if their start times
     differ by less than a second; these need their own group.
     """
+    name = name.replace("/", "_")  # slashes separate groups in hdf5.
     out, count = name, 0
     while out in used_names or (
         out in wave_group and not _is_saved_patch(patch, wave_group[out])
@@ -200,14 +203,30 @@ def _matches_attr_filters(attrs, kwargs):
         is_null = pd.isnull(value)
         return bool(is_null) if not hasattr(is_null, "__len__") else False
 
+    def is_same(name, value):
+        """Return True if the value is exactly the attribute's value."""
+        attr = attr_dict.get(name)
+        same_type = type(attr) is type(value) and isinstance(attr, str | tuple)
+        return same_type and attr == value
+
+    def is_not_str(name, value):
+        """Return True if value is a string but the attribute is a number/bool."""
+        attr = attr_dict.get(name)
+        return isinstance(value, str) and isinstance(attr, Number | np.bool_)
+
+    attr_dict = attrs.model_dump(exclude={"coords"})
     query = {
         x: y
         for x, y in kwargs.items()
         if x not in _KWARG_NON_KEYS and not x.startswith("_") and not is_nullish(y)
     }
+    # Collections and strings with wildcards also match themselves.
+    query = {x: y for x, y in query.items() if not is_same(x, y)}
     if not query:
         return True
-    attr_df = pd.DataFrame([attrs.model_dump(exclude={"coords"})])
+    if any(is_not_str(x, y) for x, y in query.items()):
+        return False
+    attr_df = pd.DataFrame([attr_dict])
     return bool(filter_df(attr_df, ignore_bad_kwargs=True, **query)[0])
 
 
-- 
2.43.0


From 886fa9dd6e8a13281a13842d028d446237347bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:11 +0000
Subject: [PATCH 43/77] fix: a failed write leaves dasdae and pickle files as
 they were

---
 dascore/io/dasdae/utils.py | 21 +++++++++++++--------
 dascore/io/pickle/core.py  |  3 ++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index f2922bb..b037317 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -122,14 +122,19 @@ def _get_group_name(patch, wave_group, name, used_names):
 
 def _save_patch(patch, wave_group, h5, name):
     """Save the patch to disk."""
-    if name in wave_group:  # don't keep anything from the old patch.
-        h5.remove_node(wave_group, name, recursive=True)
-    patch_group = _create_or_get_group(h5, wave_group, name)
-    _save_attrs_and_dims(patch, patch_group)
-    _save_coords(patch, patch_group, h5)
-    # add data
-    if patch.data.shape:
-        _create_or_squash_array(h5, patch_group, "data", patch.data)
+    # First save to a temporary group so a patch which can't be written neither
+    # leaves an unreadable group in the file nor destroys the old one.
+    patch_group = _create_or_get_group(h5, wave_group, f"{name}__temp")
+    try:
+        _save_attrs_and_dims(patch, patch_group)
+        _save_coords(patch, patch_group, h5)
+        # add data
+        if patch.data.shape:
+            _create_or_squash_array(h5, patch_group, "data", patch.data)
+    except BaseException:
+        h5.remove_node(patch_group, recursive=True)
+        raise
+    h5.rename_node(patch_group, name, overwrite=True)
 
 
 # --- Functions for reading
diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index 069a2c5..b3b11c7 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -57,7 +57,8 @@ class PickleIO(FiberIO):
         # Pickle the patches of spools, not references to their files.
         if isinstance(patch, dascore.BaseSpool):
             patch = dascore.spool(list(patch))
+        data = pickle.dumps(patch)  # this can raise, so do it first.
         # A pickle can't be appended to; only its first object is ever read.
         if "a" in str(getattr(resource, "mode", "")):
             resource.truncate(0)
-        pickle.dump(patch, resource)
+        resource.write(data)
-- 
2.43.0


From 724ddd043016a8e97bc128c94999f9f900f04e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 44/77] fix: slices and length changes of partial coordinates
 keep units and dtype

---
 dascore/core/coords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 0dfd8df..5e94566 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1057,7 +1057,7 @@ class CoordPartial(BaseCoord):
         # We init a temporary array just to get numpy to do the
         # indexing. There is probably a faster way but this is robust.
         dummy = np.empty(self.shape)[item]
-        return self.__class__(shape=dummy.shape)
+        return self.__class__(shape=dummy.shape, units=self.units, dtype=self.dtype)
 
     def _max(self):
         """Dummy funct to do nothing but raise."""
@@ -1140,7 +1140,8 @@ class CoordPartial(BaseCoord):
         if self.ndim != 1:
             msg = "change_length only works on 1D coords."
             raise CoordError(msg)
-        return get_coord(shape=(_validate_new_length(length),))
+        shape = (_validate_new_length(length),)
+        return get_coord(shape=shape, units=self.units, dtype=self.dtype)
 
     def to_summary(self, dims=()) -> CoordSummary:
         """Get the summary info about the coord."""
-- 
2.43.0


From 02c6d42c1a6cdd1086135622b77c932bd9985917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 45/77] fix: sample counts of durations on reverse sorted and
 float coordinates

---
 dascore/core/coords.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 5e94566..661699d 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -862,13 +862,17 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         else:
             compat_val = self._get_compatible_value(value, relative=True)
             duration = compat_val - self.min()
-            ratio = duration / self.step
+            # The step of a reverse sorted coord is negative.
+            step = np.abs(self.step)
+            ratio = duration / step
             if np.issubdtype(self.dtype, np.floating):
                 nearest = np.round(ratio)
                 # Adding a relative float value to coord.min() and subtracting
                 # it back can introduce a small cancellation error. Snap only
                 # those float-coordinate ratios that fall within that drift.
-                tol = 10 * abs(np.spacing(self.min()) / self.step)
+                tol = 10 * abs(np.spacing(self.min()) / step)
+                # The division itself is also only good to the float spacing.
+                tol = tol + 4 * np.spacing(abs(ratio))
                 if abs(ratio - nearest) <= tol:
                     ratio = nearest
             samples = int(np.ceil(ratio))
-- 
2.43.0


From df0c0f51401d3373427d3588052932d69fc992f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 46/77] fix: index of the first label of unevenly sampled
 coordinates

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 661699d..dd6fcc5 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1632,7 +1632,7 @@ class CoordMonotonicArray(CoordArray):
         right = np.searchsorted(values, new_value, side="right")
         # right_ok = (right < len(self)) & (right < 0)
         left = np.searchsorted(values, new_value, side="left")
-        left_ok = (left < len(self)) & (left > 0)
+        left_ok = left < len(self)
         eq = left_ok & (values.take(left, mode="clip") == new_value)
         out = right if forward else left
         # where equal it should also be left values. This makes the function
-- 
2.43.0


From 58dae2e49801ec56faff77ad87ad5ab22862598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 47/77] fix: unevenly sampled coordinates with small steps are
 not snapped to even sampling

---
 dascore/utils/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index cb62587..e7ecca2 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -331,7 +331,9 @@ def all_diffs_close_enough(diffs):
     med = np.median(diffs)
     # Note: The rtol parameter here is a bit arbitrary; it was set
     # based on experience but there is probably a better way to do this.
-    return np.allclose(diffs, med, rtol=0.001)
+    # The tolerance must scale with the step or steps smaller than the default
+    # absolute tolerance would always be considered close.
+    return np.allclose(diffs, med, rtol=0.001, atol=0)
 
 
 def unbyte(byte_or_str: bytes | str) -> str:
-- 
2.43.0


From 14627faaa69a184743250eb4d9f017903e549e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 48/77] fix: coordinate updates with small changes are not
 ignored

---
 dascore/core/coords.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index dd6fcc5..06b0908 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -153,6 +153,13 @@ def _validate_new_length(length) -> int:
     return int(length)
 
 
+def _is_same_or_null(new, old) -> bool:
+    """Return True if new is null or equal to old."""
+    if not is_array(new) and pd.isnull(new):
+        return True
+    return np.array_equal(np.asarray(new), np.asarray(old))
+
+
 def _get_dtype(value, dtype):
     """Get the data type based on the first argument."""
     if dtype is not None and dtype != "":
@@ -820,8 +827,10 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         """Update parts of the coordinate."""
         out = self
         info = self.model_dump()
+        # Small changes matter so only values which are exactly the same are
+        # skipped; null values have nothing to update.
         update_fields = {
-            i: v for i, v in kwargs.items() if not all_close(v, info.get(i))
+            i: v for i, v in kwargs.items() if not _is_same_or_null(v, info.get(i))
         }
         units = update_fields.pop("units", None)
         _ = update_fields.pop("dtype", None)
-- 
2.43.0


From d10229b2ad38ef7915c8d3dc250e9557b2f3942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 49/77] fix: selecting exact labels of evenly sampled floats
 far from zero

---
 dascore/core/coords.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 06b0908..b14e1be 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1343,8 +1343,15 @@ class CoordRange(BaseCoord):
         func = np.ceil if forward else np.floor
         start, step = self.start, self.step
         # Due to float weirdness we need a little bit of a fudge factor here.
-        fraction = func(np.round((array - start) / step, decimals=10))
-        out = fraction.astype(np.int64)
+        ratio = np.round((array - start) / step, decimals=10)
+        if np.issubdtype(self.dtype, np.floating):
+            # Values far from zero (relative to the step) are only known to within
+            # the float spacing, so ratios that close to an integer are snapped.
+            spacing = np.spacing(np.maximum(np.abs(start), np.abs(self.stop)))
+            nearest = np.round(ratio)
+            close = np.abs(ratio - nearest) <= np.abs(4 * spacing / step)
+            ratio = np.where(close, nearest, ratio)
+        out = func(ratio).astype(np.int64)
         lt_forward = (out < 0) & forward
         gt_back = (out >= len(self)) & (not forward)
         bad_values = lt_forward | gt_back
-- 
2.43.0


From b11b540f94c9f27a0f8648b68255e1bd3a8c5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 50/77] fix: get_next_index with values in and out of bounds
 rounds consistently

---
 dascore/core/coords.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index b14e1be..27b587d 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -956,8 +956,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 return array if input_array_like else array[0]
             # For absolute mode with evenly sampled coords, compute index from value
             if hasattr(self, "step") and self.step is not None:
-                # Calculate index: (value - min) / step
-                indices = ((array - min_val) / self.step).astype(np.int64)
+                # This also gives the next index for values in bounds.
+                indices = self._get_index(array, forward=True)
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
-- 
2.43.0


From 0c6751083a14d97ba8452ce71b8aea62956dac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 51/77] fix: centered rolling windows with a step are labelled
 by their center

---
 dascore/proc/rolling.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 30b9af6..4ca5ed9 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -104,25 +104,32 @@ class _NumpyPatchRoller(_PatchRollerInfo):
 
         This only applies for numpy engine.
         """
+        return self._get_num_nans() * self.step - self._get_lead()
+
+    def _get_lead(self):
+        """Get the number of samples in each window before its label."""
         wsize = self.window - 1
-        out = np.ceil(wsize / self.step) * self.step - wsize
-        return int(out)
+        return wsize - wsize // 2 if self.center else wsize
+
+    def _get_num_nans(self):
+        """Get the number of leading labels whose windows are incomplete."""
+        return int(np.ceil(self._get_lead() / self.step))
 
     def _pad_roll_array(self, data):
         """
         Pad the reduced array with NaNs and align it to the output coordinate.
 
-        The NaNs go at the start of the axis, except when centering, which
-        moves `num_nans // 2` of them to the end. This is done with a single
-        allocation rather than a pad followed by a roll.
+        The NaNs go at the start of the axis and, when centering, also at the
+        end. This is done with a single allocation rather than a pad followed
+        by a roll.
         """
-        num_nans = 1 + (self.window - 2) // self.step
-        if not num_nans:  # window of one sample; nothing to pad.
-            return data
         shape = list(data.shape)
-        shape[self.axis] += num_nans
+        # The output has a label for every step samples of the input.
+        shape[self.axis] = -(-self.patch.data.shape[self.axis] // self.step)
+        if shape[self.axis] == data.shape[self.axis]:  # nothing to pad.
+            return data
         out = np.full(shape, np.nan, dtype=data.dtype)
-        start = num_nans - num_nans // 2 if self.center else num_nans
+        start = self._get_num_nans()
         slicer = [slice(None, None)] * len(shape)
         slicer[self.axis] = slice(start, start + data.shape[self.axis])
         out[tuple(slicer)] = data
-- 
2.43.0


From 601cf98cb12348dfd5ccd11da8be6db4c1599a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 52/77] fix: pandas rolling of single windows and of patches
 with more dimensions

---
 dascore/proc/rolling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 4ca5ed9..a40a041 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -218,7 +218,7 @@ class _PandasPatchRoller(_PatchRollerInfo):
         data = df.values if not self.axis else df.T.values
         # get rid of extra dims if original data doesn't have them.
         if len(data.shape) != len(self.patch.data.shape):
-            data = np.squeeze(data)
+            data = np.squeeze(data, axis=-1)
         return self._new_patch(data, func_or_str)
 
     def _call_rolling_func(self, name, *args, **kwargs):
@@ -401,7 +401,8 @@ def rolling(
         engines = {"numpy": _NumpyPatchRoller, "pandas": _PandasPatchRoller}
         if cls := engines.get(engine):
             return cls
-        if step < 10 and len(patch.squeeze().dims) < 2:
+        small = len(patch.dims) <= 2 and len(patch.squeeze().dims) < 2
+        if step < 10 and small:
             return _PandasPatchRoller
         return _NumpyPatchRoller
 
-- 
2.43.0


From 69259bfb60350ae21881bc3e99520a673af77790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 53/77] fix: reduce several dimensions with ufuncs

---
 dascore/utils/array.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/utils/array.py b/dascore/utils/array.py
index c7fd41c..a6da166 100644
--- a/dascore/utils/array.py
+++ b/dascore/utils/array.py
@@ -426,6 +426,9 @@ def apply_array_func(func, *args, **kwargs):
 
     # Convert dim to axis for numpy functions
     converted_kwargs = swap_kwargs_dim_to_axis(first_patch, kwargs)
+    # Numpy functions don't accept lists of axes.
+    if isinstance(converted_kwargs.get("axis"), list):
+        converted_kwargs = {**converted_kwargs, "axis": tuple(converted_kwargs["axis"])}
     converted_args = args
 
     _args = tuple(_strip_data_from_patch(a) for a in converted_args)
-- 
2.43.0


From f89deca0a54156559fe93a91ef7261deb855208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 54/77] fix: keep associated coordinates and dimension order
 when aligning patches

---
 dascore/utils/patch.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 5ea625c..86facee 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -39,7 +39,6 @@ from dascore.utils.deprecate import deprecate
 from dascore.utils.docs import compose_docstring
 from dascore.utils.mapping import FrozenDict
 from dascore.utils.misc import (
-    _apply_union_indexers,
     _merge_tuples,
     all_diffs_close_enough,
     get_middle_value,
@@ -952,7 +951,7 @@ def align_patch_coords(
         The second patch.
     """
     # Fast path for no alignment needed
-    if patch1.coords == patch2.coords:
+    if patch1.dims == patch2.dims and patch1.coords == patch2.coords:
         return patch1, patch2
     shared_dims = set(patch1.dims) & set(patch2.dims)
     if not shared_dims:
@@ -963,29 +962,22 @@ def align_patch_coords(
         raise PatchCoordinateError(msg)
     # First ensure the patches have the same dims
     dims = _merge_tuples(patch1.dims, patch2.dims)
-    dim_dict = {x: num for num, x in enumerate(dims)}
     patch1 = patch1.append_dims(*dims).transpose(*dims)
     patch2 = patch2.append_dims(*dims).transpose(*dims)
     # Next, find the common coordinates and align.
-    align_1, align_2 = [slice(None)] * len(dims), [slice(None)] * len(dims)
-    new_coords_1, new_coords_2 = {}, {}
+    order_1, order_2 = {}, {}
     for dim in shared_dims:
         coord1, coord2 = patch1.get_coord(dim), patch2.get_coord(dim)
-        if coord1 == coord2:
-            continue
-        dim_ind = dim_dict[dim]
-        # We actually need to do some alignment here.
-        ncoord1, ncoord2, sli1, sli2 = coord1.align_to(coord2)
-        new_coords_1[dim], new_coords_2[dim] = ncoord1, ncoord2
-        align_1[dim_ind], align_2[dim_ind] = sli1, sli2
+        # Partial coords have no values to align, but their lengths are checked.
+        ncoord1, ncoord2, _, _ = coord1.align_to(coord2)
+        if ncoord1 is not coord1 or ncoord2 is not coord2:
+            order_1[dim], order_2[dim] = ncoord1.values, ncoord2.values
     # No alignment needed, just skip.
-    if not (new_coords_1 or new_coords_2):
+    if not (order_1 or order_2):
         return patch1, patch2
-    # Update coordinate managers and reshape arrays, return new patches.
-    coord1 = patch1.coords.update(**new_coords_1)
-    coord2 = patch2.coords.update(**new_coords_2)
-    array1 = _apply_union_indexers(tuple(align_1), patch1.data)
-    array2 = _apply_union_indexers(tuple(align_2), patch2.data)
+    # Reorder the data along with all coordinates related to the dimensions.
+    coord1, array1 = patch1.coords.order(array=patch1.data, **order_1)
+    coord2, array2 = patch2.coords.order(array=patch2.data, **order_2)
     out1 = patch1.new(data=array1, coords=coord1)
     out2 = patch2.new(data=array2, coords=coord2)
     return out1, out2
-- 
2.43.0


From 73761972e03cd213c191c6b93b5e18455a1cd1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 55/77] fix: patches with other dimensions are not compatible
 for stacking

---
 dascore/utils/patch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 86facee..5f4d2b6 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -1007,18 +1007,17 @@ def check_dims(
         to be equal.
     """
     dims1, dims2 = patch1.dims, patch2.dims
-    dims_ok = True
     if not intersection and patch1.dims == patch2.dims:
         return True
     dset1, dset2 = set(dims1), set(dims2)
-    if intersection and (dset1 | dset2):
+    if intersection and (dset1 & dset2):
         return True
     msg = (
         "Patch dimensions are not compatible for merging."
         f" Patch1 dims: {dims1}, Patch2 dims: {dims2}"
     )
     warn_or_raise(msg, exception=IncompatiblePatchError, behavior=check_behavior)
-    return dims_ok
+    return False
 
 
 def check_coords(
-- 
2.43.0


From fec767677c53cd7f7aad79198c343e39d07562ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 56/77] fix: simplify data units which have an offset

---
 dascore/proc/units.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index a254ffa..5ed5964 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -137,8 +137,11 @@ def simplify_units(
     """
     # get data and data units
     attrs = patch.attrs
-    d_factor, d_units = get_factor_and_unit(attrs.get("data_units"), simplify=True)
-    data = patch.data * d_factor if d_factor != 1 else patch.data
+    old_units = attrs.get("data_units")
+    d_factor, d_units = get_factor_and_unit(old_units, simplify=True)
+    data = patch.data
+    if d_factor != 1:  # the factor alone is not enough for units with an offset
+        data = u_covert_units(data, d_units, old_units)
     # update coords and coord units in attrs
     coords = patch.coords.simplify_units()
     new_attrs = attrs.update(data_units=d_units, coords=coords.to_summary_dict())
-- 
2.43.0


From dffa347bfd0d166c1d973944ed800c62a440a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 57/77] fix: setting units of coordinates keeps the units of
 the data

---
 dascore/proc/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index 5ed5964..2222c4e 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -22,7 +22,7 @@ def _update_attrs_coord_units(patch: dc.Patch, data_units, coords):
 
 @patch_function()
 def set_units(
-    patch: PatchType, data_units: str | Quantity | Unit | None = None, **kwargs
+    patch: PatchType, data_units: str | Quantity | Unit | None = ..., **kwargs
 ) -> PatchType:
     """
     Set the units of a patch's data or coordinates.
@@ -33,6 +33,7 @@ def set_units(
         The input patch.
     data_units
         New units for the patch data. Accepts both unit and quantity strings.
+        Use None to remove the data units; they don't change if not specified.
     **kwargs
         Used to specify new units for any of the patch's coordinates.
 
@@ -55,6 +56,8 @@ def set_units(
     >>> # remove data units
     >>> patch_removed_units = patch_with_units.set_units(None)
     """
+    if data_units is ...:
+        data_units = patch.attrs.data_units
     new_coords = patch.coords.set_units(**kwargs)
     new_attrs = _update_attrs_coord_units(patch, data_units, new_coords)
     return patch.new(attrs=new_attrs, coords=new_coords)
-- 
2.43.0


From b51384e04947b2e7c8eb762e6460096e34af7a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 58/77] fix: refuse to align labels with different units

---
 dascore/utils/patch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 5f4d2b6..87a0ea7 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -950,10 +950,16 @@ def align_patch_coords(
     patch2
         The second patch.
     """
+    shared_dims = set(patch1.dims) & set(patch2.dims)
+    # Labels can only be compared if they have the same units.
+    for dim in shared_dims:
+        units1, units2 = patch1.get_coord(dim).units, patch2.get_coord(dim).units
+        if units1 != units2 and units1 is not None and units2 is not None:
+            msg = f"Cannot align dimension {dim} with units of {units1} and {units2}."
+            raise IncompatiblePatchError(msg)
     # Fast path for no alignment needed
     if patch1.dims == patch2.dims and patch1.coords == patch2.coords:
         return patch1, patch2
-    shared_dims = set(patch1.dims) & set(patch2.dims)
     if not shared_dims:
         msg = (
             "Cannot align patches with no shared dimensions. Dimensions are "
-- 
2.43.0


From baa2cddf03758c7ecab707d1b17bcc47875f58c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 59/77] fix: simplify units which reduce to dimensionless

---
 dascore/core/coords.py | 4 +++-
 dascore/proc/units.py  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 27b587d..2de8f55 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -586,8 +586,10 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
 
     def simplify_units(self) -> Self:
         """Simplify the coordinate units."""
+        if self.units is None:
+            return self
         _, unit = get_factor_and_unit(self.units, simplify=True)
-        return self.convert_units(unit)
+        return self.convert_units(unit or "dimensionless")
 
     def coord_range(self, extend: bool = True):
         """
diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index 2222c4e..552031b 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -144,7 +144,7 @@ def simplify_units(
     d_factor, d_units = get_factor_and_unit(old_units, simplify=True)
     data = patch.data
     if d_factor != 1:  # the factor alone is not enough for units with an offset
-        data = u_covert_units(data, d_units, old_units)
+        data = u_covert_units(data, d_units or "dimensionless", old_units)
     # update coords and coord units in attrs
     coords = patch.coords.simplify_units()
     new_attrs = attrs.update(data_units=d_units, coords=coords.to_summary_dict())
-- 
2.43.0


From 050e10599fbd80bbe6b7e70da60b3944309b789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 60/77] fix: operations of patches which have units with an
 offset

---
 dascore/utils/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/array.py b/dascore/utils/array.py
index a6da166..2eafb40 100644
--- a/dascore/utils/array.py
+++ b/dascore/utils/array.py
@@ -127,7 +127,8 @@ def _apply_binary_ufunc(
             attrs_to_ignore=attrs_to_ignore,
         )
         other = other_patch.data
-        if other_units := get_quantity(other_patch.attrs.data_units):
+        other_units = get_quantity(other_patch.attrs.data_units)
+        if other_units is not None:  # truth of units with offsets is ambiguous
             other = other * other_units
         return patch, other, coords, attrs
 
-- 
2.43.0


From 88d5a054a127476fc31aa7333b19658562b0c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:18 +0000
Subject: [PATCH 61/77] fix: invert fourier transforms of reversed coordinates

---
 dascore/transform/fourier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 164d891..48bcc9b 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -336,7 +336,9 @@ def _get_idft_dims_steps_axis(patch, dim):
     dims = [x if x in current_dims else ft.rename_dims(x)[0] for x in iterate(dim)]
     patch.check_coords(dims=dims)
     coords = [patch.get_coord(x, require_evenly_sampled=True) for x in dims]
-    is_real = [1 if to_float(x.min()) == 0 else 0 for x in coords]
+    # Only the coordinates of real transforms start at 0. The minimum can also be 0
+    # if the (negative) step of the transformed coordinate was reversed.
+    is_real = [1 if to_float(x.values[0]) == 0 else 0 for x in coords]
     real_sum = sum(is_real)
     assert real_sum <= 1, "only one real axis allowed."
     has_real = bool(real_sum)
-- 
2.43.0


From b494bfb98e13aab304e251e1f3dfe36eeaf4cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 62/77] fix: convert integers of small types to timedeltas
 without overflow

---
 dascore/utils/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 13abc71..de2d062 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -23,6 +23,9 @@ _NAT_TIMEDELTA64 = np.timedelta64("NaT", "ns")
 
 def _float_array_to_ns(array):
     """Convert seconds as floats to signed integer nanoseconds."""
+    # Multiplying small number types (e.g., int32) can overflow.
+    is_int = np.issubdtype(array.dtype, np.integer)
+    array = array.astype(np.int64 if is_int else np.float64)
     return np.rint(array * 1_000_000_000).astype(np.int64)
 
 
-- 
2.43.0


From 5b5d377e9f1abd73ce44e7c4fa104a2939c49c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 63/77] fix: convert datetimes of any precision to timedeltas

---
 dascore/utils/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index de2d062..78c60b6 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -217,7 +217,7 @@ def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
             return array.astype("timedelta64[ns]")
     # Need to just get the ns form datetime64
     elif np.issubdtype(array.dtype, np.datetime64):
-        int_array = array.view(np.int64)
+        int_array = array.astype("datetime64[ns]").view(np.int64)
         return np.array(int_array).astype("timedelta64[ns]")
 
     assert np.isreal(array[0])
-- 
2.43.0


From 7b1c9b37c55b2ee96e72a4b8dfd3eb4bc50818f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:09 +0000
Subject: [PATCH 64/77] fix: convert arrays of any shape and long timedeltas
 exactly to times

---
 dascore/utils/time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 78c60b6..7d28171 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -104,7 +104,9 @@ def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
         else:
             out = array.astype("datetime64[ns]")
     # dealing with numerical data
-    elif np.issubdtype(array.dtype, np.timedelta64) or np.isreal(array[0]):
+    elif np.issubdtype(array.dtype, np.timedelta64):  # same count of ns since 1970
+        out = array.astype("timedelta64[ns]").astype("datetime64[ns]")
+    elif np.all(np.isreal(array)):
         with np.errstate(divide="ignore", invalid="ignore"):
             array = to_float(np.array(array))  # need to make copy to write
             nans = nans | ~np.isfinite(array)
@@ -220,7 +222,7 @@ def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
         int_array = array.astype("datetime64[ns]").view(np.int64)
         return np.array(int_array).astype("timedelta64[ns]")
 
-    assert np.isreal(array[0])
+    assert np.all(np.isreal(array))
     invalid = pd.isnull(array) | ~np.isfinite(array)
     # Need to make copy to 1) not change original array and 2) handle
     # immutable arrays. See #575.
-- 
2.43.0


From 47d8f4a736558526da2275d522c50a9c2e776359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:09 +0000
Subject: [PATCH 65/77] fix: time ranges can end or start at 1970-01-01

---
 dascore/utils/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 7d28171..f22388d 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -454,10 +454,10 @@ def get_max_min_times(kwarg_time=None):
     assert kwarg_time is None or len(kwarg_time) == 2
     time_min, time_max = (None, None) if kwarg_time is None else kwarg_time
     # get defaults if starttime or endtime is none
-    time_min = None if pd.isnull(time_min) else time_min
-    time_max = None if pd.isnull(time_max) else time_max
-    time_min = to_datetime64(time_min or SMALLDT64)
-    time_max = to_datetime64(time_max or LARGEDT64)
+    # Note: the truth value of times can't be used since 1970-01-01 is False.
+    time_min, time_max = to_datetime64(time_min), to_datetime64(time_max)
+    time_min = to_datetime64(SMALLDT64) if pd.isnull(time_min) else time_min
+    time_max = to_datetime64(LARGEDT64) if pd.isnull(time_max) else time_max
     if time_min is not None and time_max is not None:
         if time_min > time_max:
             msg = "time_min cannot be greater than time_max."
-- 
2.43.0


From d4d9283beb4026c228bef33a1d8edbfbd93f8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 66/77] fix: series of times are converted to integers in ns

---
 dascore/utils/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index f22388d..aa40059 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -339,6 +339,8 @@ def _time_delta_to_number(time_delta: np.timedelta64):
 
 @to_int.register(pd.Series)
 def _pandas_timestamp_to_num(ser: pd.Series):
+    if ser.dtype.kind in "mM":  # times which may not have ns precision
+        return pd.Series(to_int(ser.values), index=ser.index)
     return ser.astype(np.int64)
 
 
-- 
2.43.0


From b086b3528c443f601e4397295d42c221c7a0c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 67/77] fix: rolling with update_coord also rolls associated
 coordinates

---
 dascore/proc/basic.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 260eb2b..6a78c34 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -700,15 +700,12 @@ def roll(patch, samples=False, update_coord=False, **kwargs):
     coord = patch.get_coord(dim)
     value = coord.get_sample_count(input_value, samples=samples)
 
-    roll_arr = np.roll(arr, value, axis=axis)
-
-    # update coords if True
+    # Rolling with the coord moves the samples with everything along the dimension.
     if update_coord:
-        roll_coord_arr = np.roll(coord.values, value)
-        new_coord = coord.update(values=roll_coord_arr)
-        patch = patch.update_coords(**{dim: new_coord})
+        index = np.roll(np.arange(len(coord)), value)
+        return patch.order.func(patch, **{dim: index}, samples=True)
 
-    return patch.new(data=roll_arr)
+    return patch.new(data=np.roll(arr, value, axis=axis))
 
 
 @patch_function()
-- 
2.43.0


From 137d35c1f273ab5bd540f981862a5f9b039bcb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 68/77] fix: finding the index of values doesn't change the
 values

---
 dascore/core/coords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 2de8f55..e8be3c5 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -963,6 +963,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
+        array = array.copy()  # the values may belong to the caller.
         array[is_gt] = max_val
         array[is_lt] = min_val
         # samples should already have the answer, just return
-- 
2.43.0


From 85071e40554e564dbf27dd6ef3aea724353e3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 69/77] fix: strided derivatives of integers aren't truncated

---
 dascore/transform/differentiate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/differentiate.py b/dascore/transform/differentiate.py
index c758e6a..018ed46 100644
--- a/dascore/transform/differentiate.py
+++ b/dascore/transform/differentiate.py
@@ -54,7 +54,9 @@ def _strided_diff(order, patch, axes, dx_or_spacing, step):
     if len(axes) > 1:
         msg = "Step in patch.differentiate can only be used along one axis."
         raise ParameterError(msg)
-    new_data = np.empty_like(patch.data)
+    # The derivative of integers isn't (generally) an integer.
+    integral = np.issubdtype(patch.data.dtype, np.integer)
+    new_data = np.empty_like(patch.data, dtype=np.float64 if integral else None)
     dx_or_space = dx_or_spacing[0]
     for step_ in range(step):
         current_slice = slice(step_, None, step)
-- 
2.43.0


From a6dec6ba374171fa5f4d0d0d065c2b67adf2798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 70/77] fix: indefinite integrals of integers aren't truncated

---
 dascore/transform/integrate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index 30cab68..4fd2589 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -64,6 +64,9 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
     samples for the integration dimension.
     """
     array = patch.data
+    # The integral of integers isn't (generally) an integer.
+    if np.issubdtype(array.dtype, np.integer):
+        array = array.astype(np.float64)
     for dx_or_val, ax in zip(dxs_or_vals, axes):
         out = np.zeros_like(array)
         # if coordinate values are provided need to get diffs.
-- 
2.43.0


From 1bcf968598acd2edc9e855c807fff2c810b77da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 71/77] fix: roll by negative amounts of a coordinate

---
 dascore/proc/basic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 6a78c34..18973b7 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -698,7 +698,11 @@ def roll(patch, samples=False, update_coord=False, **kwargs):
     dim, axis, input_value = get_dim_axis_value(patch, kwargs=kwargs)[0]
     arr = patch.data
     coord = patch.get_coord(dim)
-    value = coord.get_sample_count(input_value, samples=samples)
+    if not samples and np.abs(input_value) != input_value:
+        # Negative values roll backwards; they aren't relative to the end.
+        value = -coord.get_sample_count(np.abs(input_value))
+    else:
+        value = coord.get_sample_count(input_value, samples=samples)
 
     # Rolling with the coord moves the samples with everything along the dimension.
     if update_coord:
-- 
2.43.0


From a983dedbc9d48431b91dd1015564f8ba7ac80ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:07 +0000
Subject: [PATCH 72/77] fix: indefinite integrals along unevenly sampled
 dimensions

---
 dascore/transform/integrate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index 4fd2589..ac5e512 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -72,6 +72,10 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
         # if coordinate values are provided need to get diffs.
         if is_array(dx_or_val):
             dx_or_val = dx_or_val[1:] - dx_or_val[:-1]
+            # the diffs belong to the integration dimension.
+            dx_or_val = dx_or_val[
+                broadcast_for_index(array.ndim, ax, slice(None), fill=None)
+            ]
         ndim = len(out.shape)
         # get diffs along dimension
         stop_indexer = broadcast_for_index(ndim, ax, slice(1, None), fill=slice(None))
-- 
2.43.0


From b7840764d5a09e6057975411d55ce5f981f8ff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 73/77] fix: mute along dimensions named in another order than
 the patch's

---
 dascore/proc/mute.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dascore/proc/mute.py b/dascore/proc/mute.py
index 6aaf8fa..e0c89fc 100644
--- a/dascore/proc/mute.py
+++ b/dascore/proc/mute.py
@@ -248,7 +248,6 @@ class _MuteGeometry2D(_MuteGeometry):
         ifill_index = -1
 
         for ind, (coord, row) in enumerate(zip(coords, value_list, strict=True)):
-            coord = patch.get_coord(patch.dims[ind])
             # We iterate each pair because it might be an implicit value.
             for pair_ind, pair in enumerate(row):
                 is_sized = isinstance(pair, Sized)
-- 
2.43.0


From 30fc2612528093d3a62c7fb7a9bb64bd2b2c8c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 74/77] fix: aligning doesn't cast the data to the type of the
 fill value

---
 dascore/proc/align.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/align.py b/dascore/proc/align.py
index 59e1a8b..6fcb56e 100644
--- a/dascore/proc/align.py
+++ b/dascore/proc/align.py
@@ -125,7 +125,9 @@ def _apply_shifts_to_data(data, meta, dim_axis, coord_axes, fill_value):
     """
     Apply different shifts to data along specified axis.
     """
-    out = np.full(meta.new_shape, fill_value)
+    # The type must hold both the data and the fill value.
+    dtype = np.result_type(data.dtype, np.asarray(fill_value).dtype)
+    out = np.full(meta.new_shape, fill_value, dtype=dtype)
     coord_axes = tuple(iterate(coord_axes))
     in_start, in_stop = meta.source_slice
     out_start, out_stop = meta.dest_slice
-- 
2.43.0


From 4c15d414336b60a1608c463de157ee37466f4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 75/77] fix: inverted range tapers don't affect samples outside
 of the range

---
 dascore/proc/taper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/taper.py b/dascore/proc/taper.py
index 7edf936..20f1070 100644
--- a/dascore/proc/taper.py
+++ b/dascore/proc/taper.py
@@ -192,7 +192,8 @@ def _get_range_envelope(coord, inds, window_type, invert):
         out[i3:i4] += right_taper
         out[i2:i3] += 1
     if invert:
-        out = np.abs(out - np.max(out))
+        # Samples outside of the range are not affected.
+        out = 1 - np.minimum(out, 1)
 
     return out
 
-- 
2.43.0


From a115f48a2c64e307a88c3c92ced6e5d2c84e1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 76/77] fix: range tapers of unevenly sampled coordinates
 follow the labels

---
 dascore/proc/taper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/taper.py b/dascore/proc/taper.py
index 20f1070..c616c8e 100644
--- a/dascore/proc/taper.py
+++ b/dascore/proc/taper.py
@@ -176,7 +176,7 @@ def _get_taper_curve(coord, ind_1, ind_2, window_type, reverse=False):
         new_coord = old_coord.snap().change_length(len(old_coord))
         old_x, new_x = to_float(old_coord.values), to_float(new_coord.values)
         assert len(old_x) == len(new_x) == len(taper)
-        taper = np.interp(new_x, old_x, taper)
+        taper = np.interp(old_x, new_x, taper)
     return taper
 
 
-- 
2.43.0


From ee728314b7a4e39e508da2277f8ad8f8d982ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 77/77] fix: mute by slopes along reversed dimensions

---
 dascore/proc/mute.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dascore/proc/mute.py b/dascore/proc/mute.py
index e0c89fc..f049e69 100644
--- a/dascore/proc/mute.py
+++ b/dascore/proc/mute.py
@@ -614,6 +614,8 @@ def slope_mute(
     # Here we take the full range as to allow it to be negative if the
     # coord is reversed sorted.
     range_x = dc.to_float(coord_x[-1] - coord_x[0])
+    # The lines have to point along the (maybe reversed) dimensions.
+    sign_x, sign_y = (-1 if x.reverse_sorted else 1 for x in (coord_x, coord_y))
     # Calculate endpoints for lines defined by each slope
     dim0_vals = [[origin[0], origin[0] + range_x], [origin[0], origin[0] + range_x]]
     dim1_vals = [[origin[1], None], [origin[1], None]]
@@ -621,13 +623,13 @@ def slope_mute(
         # Special case for 0 and inf velocities
         if np.isclose(slope, 0):
             dim0_vals[num][1] = origin[0]
-            dim1_vals[num][1] = origin[1] + 1
+            dim1_vals[num][1] = origin[1] + sign_y
         elif np.isinf(slope):
-            dim0_vals[num][1] = origin[0] + 1
+            dim0_vals[num][1] = origin[0] + sign_x
             dim1_vals[num][1] = origin[1]
         else:
             # Slope is rise over run (e.g., distance/time for velocity)
-            dim1_vals[num][1] = origin[1] + range_x / slope
+            dim1_vals[num][1] = origin[1] + sign_y * abs(range_x) / slope
     mute_kwargs = {
         dims[0]: dim0_vals,
         dims[1]: dim1_vals,
-- 
2.43.0

