From bbcc7fd1d26d944ec03726470e1e1ef28b3242d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:34 +0000
Subject: [PATCH 01/41] fix: division by a zero-valued step function's scalar
 dividend must be undefined, not -inf

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 5c1ebb3..fd95343 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -117,7 +117,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
             else:
                 data = pd.DataFrame({"value": series_op(self._get_values(), other)})
                 if series_op in (pd.Series.divide, pd.Series.rdiv):
-                    data = data.replace(np.inf, np.nan)
+                    data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
             return sc.Stairs._new(
-- 
2.43.0


From efd606ab1ac0b82113efacc66e69b307d78d37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 02/41] fix: layering that cancels every step must leave a
 step-free function

---
 staircase/core/layering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 82c0505..179501c 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -129,6 +129,9 @@ def _layer_scalar(self, start, end, value):
     if len(deltas) > 0:
         self._data = deltas.sort_index().to_frame()
         self._valid_deltas = True
+    else:
+        self._data = None
+        self._valid_deltas = False
     self._valid_values = False
     return self
 
-- 
2.43.0


From 80b9a8ef528c9884d935537b8365f2b09edd8501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 03/41] fix: layering onto a partly undefined function keeps
 its undefined regions

---
 staircase/core/layering.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 179501c..92a8b1a 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -14,6 +14,7 @@ from pandas.api.types import (
     is_timedelta64_dtype,
 )
 
+import staircase as sc
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
 from staircase.util._decorators import Appender
@@ -136,6 +137,16 @@ def _layer_scalar(self, start, end, value):
     return self
 
 
+def _layer_masked(self, start, end, value, frame):
+    # step changes cannot express layering across undefined regions, so add instead
+    result = self + sc.Stairs(closed=self.closed).layer(start, end, value, frame)
+    self.initial_value = result.initial_value
+    self._data = result._data
+    self._valid_deltas = result._valid_deltas
+    self._valid_values = result._valid_values
+    return self
+
+
 @Appender(examples.layer_example, join="\n", indents=1)
 def layer(self, start=None, end=None, value=None, frame=None):
     """
@@ -171,6 +182,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     if self._data is None and np.isnan(self.initial_value):
         return self
     self._clear_cache()
+    if self._data is not None and self._has_na():
+        return _layer_masked(self, start, end, value, frame)
     start, end, value = _preprocess_layer_args(frame, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
-- 
2.43.0


From 408b8368677497bad5a7df7dbd930d55072407b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 04/41] fix: adding a constant to a partly undefined function
 must not reuse its step changes

---
 staircase/core/ops/arithmetic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index fd95343..b4a94e9 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -53,6 +53,10 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
         elif other._data is None:  # means self._data is not None
             if np.isnan(other.initial_value):
                 data = None
+            elif self._has_na():
+                data = pd.DataFrame(
+                    {"value": series_op(self._get_values(), other.initial_value)}
+                )
             else:
                 data = self._data.copy()
                 if self._valid_values:
@@ -65,6 +69,10 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
         elif self._data is None:  # means other._data is not None
             if np.isnan(self.initial_value):
                 data = None
+            elif other._has_na():
+                data = pd.DataFrame(
+                    {"value": series_rop(other._get_values(), self.initial_value)}
+                )
             else:
                 data = other._data.copy()
                 if other._valid_values:
-- 
2.43.0


From 92e90be805382dee38122975d00db549292591ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:38 +0000
Subject: [PATCH 05/41] fix: vector layering with a missing start must derive
 existing step changes first

---
 staircase/core/layering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 92a8b1a..c426d8d 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -194,7 +194,6 @@ def layer(self, start=None, end=None, value=None, frame=None):
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
     start_series = pd.Series(value, index=df.iloc[:, 0])
-    self.initial_value += start_series[start_series.index.isna()].sum()
     if self._data is None:
         to_concat = [
             start_series,
@@ -207,6 +206,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
             self._get_deltas(),
         ]
     deltas = pd.concat(to_concat)
+    # only now, since existing step changes may be derived from the initial value
+    self.initial_value += start_series[start_series.index.isna()].sum()
 
     self._data = deltas.groupby(deltas.index).sum().rename("delta").to_frame()
     self._valid_deltas = True
-- 
2.43.0


From ce703e1f40d04861064a8c2673e06d561d36e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:51 +0000
Subject: [PATCH 06/41] fix: a scalar NaN or NaT start or end means an
 unbounded interval when layering

---
 staircase/core/layering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index c426d8d..a5090dd 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -75,9 +75,9 @@ def _convert_to_series(vec: Any) -> pd.Series:
 
 
 def _preprocess_layer_args(frame, start, end, value):
-    if isinstance(start, NegInf):
+    if isinstance(start, NegInf) or (not is_list_like(start) and pd.isna(start)):
         start = None
-    if isinstance(end, Inf):
+    if isinstance(end, Inf) or (not is_list_like(end) and pd.isna(end)):
         end = None
     if frame is not None:
         start, end, value = _extract_from_frame(frame, start, end, value)
-- 
2.43.0


From 2b7e9149288ff386b92cfb3cbe93ec39d8ea8a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 07/41] fix: limit honours include_index for step-free
 functions and scalar points

---
 staircase/core/sampling.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index e0eaa3b..1ab05d3 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -80,18 +80,23 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     passed_x = x
     if self._data is None:
         if pd.api.types.is_list_like(x):
-            return self.initial_value * np.ones_like(x, dtype=float)
+            values = self.initial_value * np.ones_like(x, dtype=float)
         else:
-            return self.initial_value
-    amended_values = np.append(
-        self._get_values().values, [self.initial_value]
-    )  # hack for -1 index value
-    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
-        x = pd.Series(x).values  # faster, but also bug free in numpy
-    elif _is_datetime_like(x):
-        x = pd.Series([x]).values[0]
-    values = amended_values[np.searchsorted(self._data.index.values, x, side=side) - 1]
+            values = self.initial_value
+    else:
+        amended_values = np.append(
+            self._get_values().values, [self.initial_value]
+        )  # hack for -1 index value
+        if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
+            x = pd.Series(x).values  # faster, but also bug free in numpy
+        elif _is_datetime_like(x):
+            x = pd.Series([x]).values[0]
+        values = amended_values[
+            np.searchsorted(self._data.index.values, x, side=side) - 1
+        ]
     if include_index:
+        if not is_list_like(passed_x):
+            passed_x = [passed_x]
         values = pd.Series(values, index=passed_x)
     return values
 
-- 
2.43.0


From 3d27b56e4e85d5dc8255738bc4a329516ac239a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 08/41] fix: comparing a partly undefined function with a
 constant must give float values

---
 staircase/core/ops/relational.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 7e37928..4952c62 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -39,12 +39,12 @@ def _make_relational_func(
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
                 values = self._get_values()
-                new_values = numpy_relational(values, other.initial_value)
+                new_values = numpy_relational(values, other.initial_value).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = self._data.index
             else:  # other._data exists
                 values = other._get_values()
-                new_values = numpy_relational(self.initial_value, values)
+                new_values = numpy_relational(self.initial_value, values).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = other._data.index
 
-- 
2.43.0


From f1b8dac6461861a0e3dd0b86ed483e07f2f6a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 09/41] fix: multiplying or dividing by a constant must not
 leave redundant step points

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index b4a94e9..a587859 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -132,7 +132,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
                 initial_value=initial_value,
                 data=data,
                 closed=self.closed,
-            )
+            )._remove_redundant_step_points()
 
         self, other = _sanitize_binary_operands(self, other)
         if other._data is None:
-- 
2.43.0


From f951edc7c25710b5ee9b0478154af1fa563f509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 10/41] fix: f & 0 and f | 1 must stay undefined where f is

---
 staircase/core/ops/logical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/logical.py b/staircase/core/ops/logical.py
index 1271d40..197d7a0 100644
--- a/staircase/core/ops/logical.py
+++ b/staircase/core/ops/logical.py
@@ -48,7 +48,7 @@ def _make_logical_func(docstring, array_op, float_op):
         if np.isnan(other):
             return sc.Stairs._new(np.nan, None, closed=self.closed)
         elif other == 0:
-            return sc.Stairs._new(0, None, closed=self.closed)
+            return self.make_boolean() * 0
         else:
             return self.make_boolean()
 
@@ -58,7 +58,7 @@ def _make_logical_func(docstring, array_op, float_op):
         elif other == 0:
             return self.make_boolean()
         else:
-            return sc.Stairs._new(1, None, closed=self.closed)
+            return self.make_boolean() * 0 + 1
 
     def _op_with_scalar_xor(self, other):
         if np.isnan(other):
-- 
2.43.0


From 879cd08a67dfe003995567eaa43eb434dc493d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 11/41] fix: where must not keep points at which the masker is
 undefined towards -infinity

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9c9186f..1e88e0b 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -83,7 +83,9 @@ def _maskify(self, inverse=False):
         )
 
     return sc.Stairs._new(
-        initial_value=np.nan if op(self.initial_value, 0) else 0,
+        initial_value=np.nan
+        if np.isnan(self.initial_value) or op(self.initial_value, 0)
+        else 0,
         data=data,
         closed=self.closed,
     )
-- 
2.43.0


From fee865f237a651cdfadd853b5f8a795b8eabb601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 12/41] fix: mask with a tuple must work on right-closed
 functions

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 1e88e0b..4601ede 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -108,7 +108,9 @@ def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
         return _mask_stairs(
-            self, sc.Stairs().layer(start=left, end=right), inverse=False
+            self,
+            sc.Stairs(closed=self.closed).layer(start=left, end=right),
+            inverse=False,
         )
 
     @convert_string_args_to_timestamp
-- 
2.43.0


From a860f6771c1eeed8692a512e0f7631cd872c1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 13/41] fix: masking everything keeps the closed side

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 4601ede..6f4b55d 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -98,7 +98,7 @@ def _mask_stairs(self, other, inverse):
     full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
     if other._data is None:
         if full_mask_comparator(other.initial_value):
-            return sc.Stairs(initial_value=np.nan)
+            return sc.Stairs(initial_value=np.nan, closed=self.closed)
         else:
             return self.copy()
     return _maskify(other, inverse=inverse) + self
-- 
2.43.0


From 385648a016ee73efeed2ad20f39436dd7b11bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 14/41] fix: masking a step-free function must not leave
 redundant step points

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 6f4b55d..a15034c 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -88,9 +88,10 @@ def _maskify(self, inverse=False):
         else 0,
         data=data,
         closed=self.closed,
-    )
+    )._remove_redundant_step_points()
 
 
+@requires_closed_match
 def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
-- 
2.43.0


From c2e2f7cf1db9e90851b08fe70e71d5fcbb01e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 15/41] fix: filling from a partly undefined function must only
 change undefined points

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index a15034c..a44164d 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -210,7 +210,9 @@ def _make_data_fillna_scalar(self, value):
 @requires_closed_match
 def _fillna_with_stairs(self, value):
     # value is Stairs
-    return self.fillna(0) + value * self.isna()
+    isna = self.isna()
+    filled = self.fillna(0) + value.fillna(0) * isna
+    return filled.mask(isna & value.isna())
 
 
 # TODO: test
-- 
2.43.0


From fc2aedb0f5e291a2ec5260432182f05e6c39c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 16/41] fix: from_values must not keep redundant step points

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 934ae06..a01dbcc 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -146,7 +146,7 @@ class Stairs:
         new_instance._data = values.to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-        return new_instance
+        return new_instance._remove_redundant_step_points()
 
     def _has_na(self) -> bool | np.array:
         return np.isnan(self._data.values).any() or np.isnan(self.initial_value)
-- 
2.43.0


From 352f99a7736a0336fe9f5943834307fdfb2ed6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 17/41] fix: aggregating step-free functions, and logical
 aggregation, must give ordinary step functions

---
 staircase/core/arrays/extension.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d1d7bcb..0afa3f7 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -163,6 +163,12 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
+        initial_value = float(func([s.initial_value for s in self.data], axis=0))
+        if not any(s.number_of_steps for s in self.data):
+            return Stairs._new(
+                initial_value=initial_value, data=None, closed=self.data[0].closed
+            )
+
         index = pd.Index(
             np.unique(
                 np.concatenate(
@@ -178,7 +184,7 @@ class StairsArray(ExtensionArray):
             new_values = new_values.astype(int)
 
         return Stairs._new(
-            initial_value=func([s.initial_value for s in self.data]),
+            initial_value=initial_value,
             data=pd.Series(
                 new_values,
                 index=index,
-- 
2.43.0


From d5163a73a3b4bd4cbe95d2ebb835b73f1b32c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 18/41] fix: aggregation takes the closed side of the members
 with steps and rejects mixed sides

---
 staircase/core/arrays/extension.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 0afa3f7..e17e1e9 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -16,6 +16,7 @@ from pandas.core.dtypes.inference import is_dict_like, is_list_like
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.stairs import Stairs
 from staircase.core.stats.statistic import corr as _corr
 from staircase.core.stats.statistic import cov as _cov
@@ -169,12 +170,16 @@ class StairsArray(ExtensionArray):
                 initial_value=initial_value, data=None, closed=self.data[0].closed
             )
 
+        with_steps = [s for s in self.data if s.number_of_steps]
+        for s in with_steps[1:]:
+            _assert_closeds_equal(with_steps[0], s)
+
         index = pd.Index(
             np.unique(
                 np.concatenate(
                     [
                         s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
-                        for s in (sf for sf in self.data if sf.number_of_steps)
+                        for s in with_steps
                     ]
                 )
             )
@@ -190,7 +195,7 @@ class StairsArray(ExtensionArray):
                 index=index,
                 name="value",
             ).to_frame(),
-            closed=self.data[0].closed,
+            closed=with_steps[0].closed,
         )._remove_redundant_step_points()
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
-- 
2.43.0


From 2ee8ad8cf488889f9af1d32825bec8960ec4e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 19/41] fix: clipping to an unbounded interval must not return
 the operand itself

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index a44164d..32b98ab 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -38,7 +38,7 @@ def clip(self, lower=-inf, upper=inf):
     if not lower < upper:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
-        return self
+        return self.copy()
     left_index, right_index = _get_slice_index(
         self, lower, upper, lower_how="right", upper_how="left"
     )
-- 
2.43.0


From d0c261564143769e47501b7bd1fda279267a513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 20/41] fix: float infinities as window bounds mean an
 unbounded window

---
 staircase/core/ops/masking.py | 1 +
 staircase/util/__init__.py    | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 32b98ab..273b5ea 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -108,6 +108,7 @@ def _mask_stairs(self, other, inverse):
 def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
+        left, right = _replace_none_with_infs((left, right))
         return _mask_stairs(
             self,
             sc.Stairs(closed=self.closed).layer(start=left, end=right),
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 45982a3..58121c8 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -58,8 +58,8 @@ def _replace_none_with_infs(tuple_):
     if tuple_ == (-inf, inf):
         return tuple_
     left, right = tuple_
-    if left is None:
+    if left is None or (isinstance(left, float) and left == -np.inf):
         left = -inf
-    if right is None:
+    if right is None or (isinstance(right, float) and right == np.inf):
         right = inf
     return (left, right)
-- 
2.43.0


From aa2a90fadf6807ec7b6dd27e9445a08cfd9e8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 21/41] fix: shifting a step-free function keeps its closed
 side

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index a01dbcc..f3ecaa5 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -637,7 +637,7 @@ class Stairs:
         Stairs.diff
         """
         if self._data is None:
-            return Stairs(initial_value=self.initial_value)
+            return self.copy()
         return Stairs._new(
             initial_value=self.initial_value,
             data=self._data.set_index(self._data.index + delta),
-- 
2.43.0


From 4c06b19b726ec6a4741fb0772a526be387e0dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 22/41] fix: comparing a step-free function keeps the closed
 side of the operand with steps

---
 staircase/core/ops/relational.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 4952c62..06cd009 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -19,6 +19,7 @@ def _make_relational_func(
         self, other = _sanitize_binary_operands(
             self, other
         )  # converts other to Stairs if not already
+        closed = self.closed if other._data is None or self._data is not None else other.closed
         if np.isnan(self.initial_value) or np.isnan(other.initial_value):
             initial_value = np.nan
         else:
@@ -34,7 +35,7 @@ def _make_relational_func(
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=None,
-                closed=other.closed if np.isnan(self.initial_value) else self.closed,
+                closed=closed,
             )
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
@@ -54,7 +55,7 @@ def _make_relational_func(
                     {"value": new_values * 1},
                     index=new_index,
                 ),
-                closed=self.closed,
+                closed=closed,
             )
             new_instance._remove_redundant_step_points()
             return new_instance
-- 
2.43.0


From 0959bf7341b2eded807a01a7f8e16109b6c9b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 23/41] fix: describe reports statistics, not bound methods

---
 staircase/core/stairs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index f3ecaa5..0baf0d6 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -605,12 +605,12 @@ class Stairs:
             {
                 **{
                     "unique": stairs.percentile.clip(0, 100).number_of_steps - 1,
-                    "mean": stairs.mean,
-                    "std": stairs.std,
-                    "min": stairs.min,
+                    "mean": stairs.mean(),
+                    "std": stairs.std(),
+                    "min": stairs.min(),
                 },
                 **{f"{perc}%": stairs.percentile(perc) for perc in percentiles},
-                **{"max": stairs.max},
+                **{"max": stairs.max()},
             }
         )
 
-- 
2.43.0


From d20526a321adc9d6ad1812b986fc98200b24f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 24/41] fix: density histograms must work with datetime-like
 domains and fractional bins

---
 staircase/core/stats/distribution.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index eb3e05f..d1b8843 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -83,14 +83,14 @@ class ECDF(sc.core.stairs.Stairs):
         )
 
         # inspired by seaborn.histplot
-        if stat != "probability":
+        if stat == "density":
+            widths = bins.map(lambda i: i.right - i.left)
+            values = values / np.dot(values, widths)
+        elif stat != "probability":
             values = values * self._denormalize_probability_factor
-            if stat in ("frequency", "density"):
+            if stat == "frequency":
                 widths = bins.map(lambda i: i.right - i.left)
-                if stat == "frequency":
-                    values = values / widths
-                elif stat == "density":
-                    values = values / np.dot(values, widths)
+                values = values / widths
 
         return pd.Series(
             data=values,
-- 
2.43.0


From 64492caf8cdfae0e8b330de401f4d6e1cff8775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 25/41] fix: slicer min and max ignore an undefined endpoint

---
 staircase/core/slicing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index f2eee8a..1b12309 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -51,12 +51,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.right))
+            result = np.fmax(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.left))
+            result = np.fmax(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings._docstrings["min"], join="\n", indents=1)
@@ -66,12 +66,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.right))
+            result = np.fmin(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.left))
+            result = np.fmin(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
-- 
2.43.0


From d0d869674184e575231f079491a7d45387926af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 26/41] fix: slicer hist accepts positional arguments and
 step-free functions

---
 staircase/core/slicing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 1b12309..4f33733 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -77,10 +77,9 @@ class StairsSlicer:
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
         self._ensure_slices()
-        zero = (
-            self._stairs._data.index[0] - self._stairs._data.index[0]
-        )  # hack to get 0 or pd.Timedelta(0)
-        return self._slices.apply(sc.Stairs.hist, *args, **kwargs).fillna(zero)
+        left = self._interval_index.left
+        zero = left[0] - left[0]  # hack to get 0 or pd.Timedelta(0)
+        return self._slices.apply(sc.Stairs.hist, args=args, **kwargs).fillna(zero)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
     def resample(self, func: str):
-- 
2.43.0


From 07f6c8cd89eefaab24e81229a1735db13700c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 27/41] fix: resample leaves slices on which the statistic is
 undefined undefined

---
 staircase/core/slicing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 4f33733..c49994d 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -92,12 +92,20 @@ class StairsSlicer:
         left_bound = self._slices.index.left.min()
         right_bound = self._slices.index.right.max()
         stairs_na = self._stairs.isna().mask((left_bound, right_bound)).fillna(0)
-        return (
+        defined = new_values.notnull().values
+        result = (
             self._stairs.mask((left_bound, right_bound))
             .fillna(0)
             .mask(stairs_na)
-            .layer(new_values.index.left, new_values.index.right, new_values.values)
+            .layer(
+                new_values.index.left[defined],
+                new_values.index.right[defined],
+                new_values.values[defined],
+            )
         )
+        for interval in new_values.index[~defined]:
+            result = result.mask((interval.left, interval.right))
+        return result
 
 
 def make_slice_method(method_name: str) -> Callable:
-- 
2.43.0


From b9f28b518684baf72c5725096bc1d0afec7b9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 28/41] fix: values_in_range excludes undefined values, min and
 max of none is undefined

---
 staircase/core/stats/statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0efc100..89813a2 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -119,7 +119,8 @@ def values_in_range(self, where=(-inf, inf), closed=None):
     lower_how, upper_how = _get_lims(self, closed)
     left_index, right_index = _get_slice_index(self, lower, upper, lower_how, upper_how)
     if right_index == -1:
-        return np.array([self.initial_value])
+        values = np.array([self.initial_value])
+        return values[~np.isnan(values)]
     values = self._get_values().iloc[max(0, left_index) : right_index]
     if left_index < 0 and not np.isnan(self.initial_value):
         values = np.append([self.initial_value], values)
@@ -135,7 +136,7 @@ def _min(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return min(self.values_in_range(where, closed))
+    return min(self.values_in_range(where, closed), default=np.nan)
 
 
 def _max(
@@ -146,7 +147,7 @@ def _max(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return max(self.values_in_range(where, closed))
+    return max(self.values_in_range(where, closed), default=np.nan)
 
 
 @Appender(docstrings.agg_docstring, join="\n", indents=1)
-- 
2.43.0


From 27da06182910fc7fb6f604c868c187a649e901cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 29/41] fix: sampling at no points, and quantiles(1), must not
 raise

---
 staircase/core/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index 1ab05d3..7008ec7 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -87,7 +87,7 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
         amended_values = np.append(
             self._get_values().values, [self.initial_value]
         )  # hack for -1 index value
-        if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
+        if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x), None)):
             x = pd.Series(x).values  # faster, but also bug free in numpy
         elif _is_datetime_like(x):
             x = pd.Series([x]).values[0]
-- 
2.43.0


From 974e6a03e8c7ae7d70a1636f3f3f50c834dec96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 30/41] fix: slicer hist must not fill normalised histograms
 with Timedelta zeros

---
 staircase/core/slicing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index c49994d..bfe4b59 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -77,8 +77,12 @@ class StairsSlicer:
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
         self._ensure_slices()
-        left = self._interval_index.left
-        zero = left[0] - left[0]  # hack to get 0 or pd.Timedelta(0)
+        stat = dict(zip(("bins", "closed", "stat"), args), **kwargs).get("stat", "sum")
+        if stat in ("sum", "frequency"):
+            left = self._interval_index.left
+            zero = left[0] - left[0]  # hack to get 0 or pd.Timedelta(0)
+        else:
+            zero = 0
         return self._slices.apply(sc.Stairs.hist, args=args, **kwargs).fillna(zero)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
-- 
2.43.0


From 52353fd03085f06b3dca23a57c26b9d8b58e9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 31/41] fix: hand out memoised distribution functions as
 independent copies

---
 staircase/core/stats/distribution.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index d1b8843..0a9f9d8 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -105,6 +105,20 @@ class ECDF(sc.core.stairs.Stairs):
         return Fractiles.from_ecdf(self)
 
 
+def _detached(func):
+    # memoised functions are handed out as copies, which callers are free to layer onto
+    new_instance = func._new(
+        initial_value=func.initial_value,
+        data=func._data.copy(),
+        closed=func.closed,
+    )
+    if isinstance(func, ECDF):
+        new_instance._denormalize_probability_factor = (
+            func._denormalize_probability_factor
+        )
+    return new_instance
+
+
 class Dist:
     def __init__(self, stairs):
         self._reset()
@@ -119,7 +133,7 @@ class Dist:
     def ecdf(self):
         if self._ecdf is None:
             self._ecdf = ECDF.from_stairs(self._stairs)
-        return self._ecdf
+        return _detached(self._ecdf)
 
     def hist(self, bins="unit", closed="left", stat="sum"):
         return self.ecdf.hist(bins, closed, stat)
@@ -128,13 +142,13 @@ class Dist:
     def fractile(self):
         if self._fractiles is None:
             self._fractiles = Fractiles.from_ecdf(self.ecdf)
-        return self._fractiles
+        return _detached(self._fractiles)
 
     @property
     def percentile(self):
         if self._percentiles is None:
             self._percentiles = Percentiles.from_ecdf(self.ecdf)
-        return self._percentiles
+        return _detached(self._percentiles)
 
     def quantiles(self, n):
         assert n > 0 and isinstance(n, int)
-- 
2.43.0


From 8a3f3e475e902cd5914c23e1467ae3f07227e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 32/41] fix: fillna of a step-free function takes the closed
 side of the filler with steps

---
 staircase/core/ops/masking.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 273b5ea..515d848 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -213,7 +213,11 @@ def _fillna_with_stairs(self, value):
     # value is Stairs
     isna = self.isna()
     filled = self.fillna(0) + value.fillna(0) * isna
-    return filled.mask(isna & value.isna())
+    result = filled.mask(isna & value.isna())
+    if self.number_of_steps == 0 and value.number_of_steps != 0:
+        # the steps of value may all have been filtered out above, and its side with them
+        result._closed = value._closed
+    return result
 
 
 # TODO: test
-- 
2.43.0


From 64d86cc0eb699f803a65c58472df068b8fd95452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 33/41] fix: corr of opposite-sided functions must raise even
 when a deviation is zero

---
 staircase/core/stats/statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 89813a2..1b6fee2 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -6,6 +6,7 @@ from pandas.api.types import is_list_like
 
 import staircase as sc
 from staircase.constants import inf
+from staircase.core.ops.common import requires_closed_match
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
@@ -219,6 +220,7 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
 
 
 @Appender(examples.corr_example, join="\n", indents=1)
+@requires_closed_match
 def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     """
     Calculates either correlation, autocorrelation or cross-correlation.
-- 
2.43.0


From f633c2b259cdf977c919b788b692225e58418569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 34/41] fix: comparisons with a numpy scalar on the left must
 give a step function

---
 staircase/core/stairs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 0baf0d6..d273e5f 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -57,6 +57,10 @@ class Stairs:
 
     class_name = "Stairs"
 
+    # above numpy scalars, which otherwise reduce comparisons with a Stairs on their right
+    # to booleans, and below numpy arrays, which operate element-wise
+    __array_priority__ = -1
+
     @Appender(docstrings.Stairs_docstring, join="\n", indents=2)
     def __init__(
         self,
-- 
2.43.0


From 1c51e01cb62a314fafcb55bbc47d8618c24950c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 35/41] fix: collections given as a Series with repeated labels

---
 staircase/core/arrays/extension.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index e17e1e9..5b9e192 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -71,6 +71,9 @@ class StairsArray(ExtensionArray):
                     "'data' should be a 1-dimensional array of Stairs objects."
                 )
             self.data = data
+        elif isinstance(data, pd.Series):
+            # not looked up by label, labels may be repeated
+            self.data = np.array(list(data))
         elif is_dict_like(data):
             self.data = np.array([data[k] for k in data.keys()])
         elif isinstance(data, Stairs) or is_list_like(data):
-- 
2.43.0


From b0842b0224afc9fc6924dafece9eabd214904e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 36/41] fix: array operators with numpy scalars

---
 staircase/core/arrays/extension.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 5b9e192..a4cf8d6 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -258,7 +258,9 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
-        if isinstance(other, (int, float, Stairs)):
+        if isinstance(other, np.ndarray) and other.ndim == 0:
+            other = other.item()  # numpy scalar on the left of a comparison
+        if isinstance(other, (numbers.Number, Stairs)):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-- 
2.43.0


From 3da11bdaaac3a092cf6fedd5d098c2d74dbe7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 37/41] fix: array operators with lists, tuples and numpy
 arrays of step functions

---
 staircase/core/arrays/extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index a4cf8d6..d4d041b 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -265,8 +265,9 @@ def _make_binary_func(func_str: str) -> Callable:
         elif is_list_like(other):
             if len(other) != len(self):
                 return ValueError("Arrays have different lengths.")
+            others = StairsArray(other).data
             result = StairsArray(
-                [stairs_func(s1, s2) for s1, s2 in zip(self.data, other.data)]
+                [stairs_func(s1, s2) for s1, s2 in zip(self.data, others)]
             )
         else:
             return NotImplemented
-- 
2.43.0


From c1091201978cccdb2a414a4f4f36b237f4f576b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 38/41] fix: diagonal of the corr matrix for members without
 deviation

---
 staircase/core/arrays/extension.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d4d041b..1d20ece 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -316,6 +316,10 @@ def _make_corr_cov_func(
             for j in range(i + assume_ones_diagonal, size):
                 vals[i, j] = stairs_method(self.data[i], self.data[j], where=where)
                 vals[j, i] = vals[i, j]
+        if assume_ones_diagonal:
+            for i in range(size):
+                if np.isnan(stairs_method(self.data[i], self.data[i], where=where)):
+                    vals[i, i] = np.nan
         return vals
 
     return func
-- 
2.43.0


From 9c82dab0dbf36cbbf12c6d2efb9ce0a32c48d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 39/41] fix: corr of functions which are nowhere both defined
 must be NaN, not an error

---
 staircase/core/stats/statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 1b6fee2..eb19a00 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -263,10 +263,13 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     mask = self.isna() | other.isna()
     self = self.mask(mask)
     other = other.mask(mask)
+    covariance = self.cov(other, where)
+    if np.isnan(covariance):  # nowhere both defined, neither are the deviations
+        return np.nan
     denominator = self.clip(*where).std() * other.clip(*where).std()
     if denominator == 0:
         return np.nan
-    return self.cov(other, where) / denominator
+    return covariance / denominator
 
 
 def _get_stairs_method(name):
-- 
2.43.0


From cdfe35b3e523cc6ce623582a2fda7c804ca23a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 40/41] fix: mask by a step free function whose value is a
 numpy scalar

---
 staircase/core/ops/masking.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 515d848..3d142a3 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -96,7 +96,11 @@ def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
 
-    full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
+    def is_full_mask(initial_value):
+        # float(0).__ne__ does not know numpy scalars
+        return initial_value != 0
+
+    full_mask_comparator = is_full_inverse_mask if inverse else is_full_mask
     if other._data is None:
         if full_mask_comparator(other.initial_value):
             return sc.Stairs(initial_value=np.nan, closed=self.closed)
-- 
2.43.0


From 5d2228b92162df172ea4a10bc24f0eadd797ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 41/41] fix: integral and mean of a function nowhere defined
 between its step points, in datetime domains

---
 staircase/core/stats/statistic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index eb19a00..15ffbf3 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -20,6 +20,10 @@ def _cache_integral_and_mean(self):
     else:
         value_sums = self.value_sums(group=False)
         value_sums = value_sums[value_sums.index.notnull()]
+        if value_sums.empty:
+            # nowhere defined between its step points
+            self._integral_and_mean = value_sums.sum(), np.nan
+            return
         try:
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0

