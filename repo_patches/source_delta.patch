From 56d9741a689fb6612210461fb5d11a072a03cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 01/86] fix: keep the probability levels intact when sampling
 multinomial variables

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 22e743f..e5e6030 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2469,6 +2469,9 @@ class MultinomialRandomVariable(RandomVariable):
         """
         p_cum = np.cumsum(self.theta)[:-1]
 
+        # the values can be shared with other random variables
+        values = values.copy()
+
         for i, p_i in enumerate(p_cum):
             values[values < p_i] = 10 + i
         values[values <= 1.0] = 10 + len(p_cum)
-- 
2.43.0


From 3c0bce7a5e56789e8894563f673fb77e2b2892fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 02/86] fix: handle non-positive truncation limits in lognormal
 variables

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index e5e6030..078c6c2 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1750,7 +1750,9 @@ class LogNormalRandomVariable(RandomVariable):
 
             # Replace NaN values
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
+            a[a <= 0] = FIRST_POSITIVE_NUMBER
             b = np.nan_to_num(b, nan=np.inf)
+            b[b <= 0] = FIRST_POSITIVE_NUMBER
 
             p_a, p_b = (
                 norm.cdf((np.log(lim) - np.log(theta)) / beta) for lim in (a, b)
@@ -1803,6 +1805,7 @@ class LogNormalRandomVariable(RandomVariable):
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
             a[a <= 0] = FIRST_POSITIVE_NUMBER
             b = np.nan_to_num(b, nan=np.inf)
+            b[b <= 0] = FIRST_POSITIVE_NUMBER
 
             p_a, p_b = (
                 norm.cdf((np.log(lim) - np.log(theta)) / beta) for lim in (a, b)
-- 
2.43.0


From b66e2e1039185281980c79f57726b70931f2b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 03/86] fix: apply one-sided truncation limits to uniform
 variables

---
 pelicun/uq.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 078c6c2..7759224 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1885,7 +1885,10 @@ class UniformRandomVariable(RandomVariable):
             b = np.inf
 
         if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+            # A missing limit does not constrain the variable
+            a = np.fmax(a, self.truncation_limits[0])
+            b = np.fmin(b, self.truncation_limits[1])
+            self._ensure_positive_probability_difference(b, a)
 
         return uniform.cdf(values, loc=a, scale=(b - a))
 
@@ -1915,7 +1918,10 @@ class UniformRandomVariable(RandomVariable):
             b = np.inf
 
         if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+            # A missing limit does not constrain the variable
+            a = np.fmax(a, self.truncation_limits[0])
+            b = np.fmin(b, self.truncation_limits[1])
+            self._ensure_positive_probability_difference(b, a)
 
         return uniform.ppf(values, loc=a, scale=(b - a))
 
-- 
2.43.0


From 6c5e683897edf0ecb1e1861cc3556fe166a65215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 04/86] fix: use a positive standard deviation for Normal_COV
 with a negative mean

---
 pelicun/uq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 7759224..b626273 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1695,7 +1695,7 @@ class Normal_COV(NormalRandomVariable):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
-        std = mean * cov
+        std = np.abs(mean) * cov
         theta = np.array([mean, std])
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
-- 
2.43.0


From 12b56c87410cf18709b34622f1263443853a16d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 05/86] fix: scale integer distribution parameters and
 truncation limits without truncation

---
 pelicun/uq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index b626273..eec93c1 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -108,14 +108,14 @@ def scale_distribution(
 
     """
     if truncation_limits is not None:
-        truncation_limits = truncation_limits.copy()
-        truncation_limits *= scale_factor
+        truncation_limits = truncation_limits * scale_factor
 
     # undefined family is considered deterministic
     if pd.isna(family):
         family = 'deterministic'
 
-    theta_new = np.full_like(theta, np.nan)
+    # integer parameters need to be able to take non-integer values
+    theta_new = np.full_like(theta, np.nan, dtype=np.result_type(theta, float))
     if family == 'normal_std':
         theta_new[0] = theta[0] * scale_factor  # mean
         theta_new[1] = theta[1] * scale_factor  # STD
-- 
2.43.0


From d0b5b9e04f8f5a637092f4943fd98a905dee87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 06/86] fix: do not convert between length and area units

---
 pelicun/settings/default_units.json | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/settings/default_units.json b/pelicun/settings/default_units.json
index 3931968..0f8ca17 100644
--- a/pelicun/settings/default_units.json
+++ b/pelicun/settings/default_units.json
@@ -13,7 +13,9 @@
     "in": 0.0254,
     "inch": 0.0254,
     "ft": 0.3048,
-    "mile": 1609.344,
+    "mile": 1609.344
+  },
+  "area": {
     "m2": 1.0,
     "mm2": 1e-06,
     "cm2": 0.0001,
-- 
2.43.0


From 0c3312582e48c52d8fb1587be0010b5a307312a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 07/86] fix: do not share default output settings between DL
 calculations

---
 pelicun/tools/DL_calculation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 463c3c6..eea2ee9 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -42,6 +42,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import os
 import sys
@@ -791,9 +792,11 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
         # if detailed results are not requested, add a lean output config
         if detailed_results is False:
-            update(config_ap, 'DL/Outputs', regional_out_config)
+            update(
+                config_ap, 'DL/Outputs', copy.deepcopy(regional_out_config)
+            )
         else:
-            update(config_ap, 'DL/Outputs', full_out_config)
+            update(config_ap, 'DL/Outputs', copy.deepcopy(full_out_config))
             # add output settings from regional output config
             if is_unspecified(config_ap, 'DL/Outputs/Settings'):
                 update(config_ap, 'DL/Outputs/Settings', {})
@@ -833,7 +836,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
-        update(config, 'DL/Outputs', full_out_config)
+        update(config, 'DL/Outputs', copy.deepcopy(full_out_config))
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -853,7 +856,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # add empty Settings to output config to simplify code below
     if is_unspecified(config, 'DL/Outputs/Settings'):
-        update(config, 'DL/Outputs/Settings', pbe_settings)
+        update(config, 'DL/Outputs/Settings', copy.deepcopy(pbe_settings))
 
     if is_unspecified(config, 'DL/Demands'):
         msg = 'Demand configuration missing.'
-- 
2.43.0


From 2faab78abdbd86ae0e6ab84622b5738c9f0d0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 08/86] fix: accept lists when checking if a configuration
 value is specified

---
 pelicun/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 7a00ec0..e5ef2a9 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -1846,11 +1846,10 @@ def is_unspecified(d: dict[str, Any], path: str) -> bool:
     value = get(d, path, default=None)
     if value is None:
         return True
-    if pd.isna(value):
+    # `pd.isna` works element-wise on containers
+    if pd.api.types.is_scalar(value) and pd.isna(value):
         return True
-    if value == {}:
-        return True
-    return value == []
+    return isinstance(value, (dict, list)) and len(value) == 0
 
 
 def is_specified(d: dict[str, Any], path: str) -> bool:
-- 
2.43.0


From 301619d0849e9c1249161e78c49b07c92603088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 09/86] fix: accept empty tables when converting headers to a
 MultiIndex

---
 pelicun/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/base.py b/pelicun/base.py
index e5ef2a9..405422e 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -844,6 +844,10 @@ def convert_to_MultiIndex(  # noqa: N802
         msg = f'Invalid axis parameter: {axis}'
         raise ValueError(msg)
 
+    if len(index_labels) == 0:
+        # there are no labels to convert
+        return data
+
     max_lbl_len = np.max([len(labels) for labels in index_labels])
 
     for l_i, labels in enumerate(index_labels):
-- 
2.43.0


From 5a615d1fafdee59b8ecc540f46384908632e329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 10/86] fix: convert units of tables saved with a unit for
 every row

---
 pelicun/file_io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 518758a..ee2ad61 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -187,7 +187,11 @@ def save_to_csv(  # noqa: C901
 
         # if the orientation is 1, we might not need to scale all columns
         if orientation == 1:
-            cols_to_scale_bool = [dt in {float, int} for dt in data.dtypes]
+            cols_to_scale_bool = [
+                pd.api.types.is_numeric_dtype(dt)
+                and not pd.api.types.is_bool_dtype(dt)
+                for dt in data.dtypes
+            ]
             cols_to_scale = data.columns[cols_to_scale_bool]
 
         labels_to_keep = []
@@ -213,9 +217,7 @@ def save_to_csv(  # noqa: C901
                         active_labels.append(label)  # noqa: PERF401
 
                 if len(active_labels) > 0:
-                    data.loc[np.array(active_labels), np.array(cols_to_scale)] *= (
-                        unit_factor
-                    )
+                    data.loc[active_labels, list(cols_to_scale)] *= unit_factor
 
             labels_to_keep += active_labels
 
-- 
2.43.0


From 503f02db965a9e81e9f8b025948c7897b012cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 11/86] fix: save tables that have columns without units

---
 pelicun/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index ee2ad61..330c6bf 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -196,7 +196,7 @@ def save_to_csv(  # noqa: C901
 
         labels_to_keep = []
 
-        for unit_name in units.unique():
+        for unit_name in units.dropna().unique():
             labels = units.loc[units == unit_name].index.to_numpy()
 
             unit_factor = 1.0 / unit_conversion_factors[unit_name]
-- 
2.43.0


From 253bc5d810f759cf9f030bf7d35481dea02a47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 12/86] fix: refuse location strings that mix lists and ranges

---
 pelicun/model/pelicun_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 767a8e1..05916ad 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -325,15 +325,15 @@ class PelicunModel:
         except ValueError as exc:
             stories = self._asmnt.stories
 
+            if ',' in loc_str:
+                return np.array(loc_str.split(','), dtype=int).astype(str)
+
             if '--' in loc_str:
                 s_low, s_high = loc_str.split('--')
                 s_low = self._get_locations(s_low)[0]
                 s_high = self._get_locations(s_high)[0]
                 return np.arange(int(s_low), int(s_high) + 1).astype(str)
 
-            if ',' in loc_str:
-                return np.array(loc_str.split(','), dtype=int).astype(str)
-
             if loc_str == 'all':
                 assert stories is not None
                 return np.arange(1, stories + 1).astype(str)
-- 
2.43.0


From c137bb444f3cd31aa6087ddb85c892dadc8223bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 13/86] fix: convert each row of a component model with its own
 unit

---
 pelicun/model/asset_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 7fafa8c..71663a0 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -333,7 +333,7 @@ class AssetModel(PelicunModel):
         # group units by cmp id to avoid redundant entries
         self.cmp_units = units.copy().groupby(level=0).first()
 
-        marginal_params = pd.concat([marginal_params, units], axis=1)
+        marginal_params = pd.concat([marginal_params, units.rename('Units')], axis=1)
 
         cmp_marginal_param_dct: dict[str, list[Any]] = {
             'Family': [],
@@ -362,7 +362,11 @@ class AssetModel(PelicunModel):
                         * num_vals
                     )
                 elif col == 'Units':
-                    cmp_marginal_param.extend([self.cmp_units[row.Index]] * num_vals)
+                    # rows of the same component can use different units
+                    unit = getattr(row, 'Units', np.nan)
+                    if pd.isna(unit):
+                        unit = self.cmp_units[row.Index]
+                    cmp_marginal_param.extend([unit] * num_vals)
                 elif col == 'Family':
                     cmp_marginal_param.extend([getattr(row, col, np.nan)] * num_vals)
                 else:
-- 
2.43.0


From 7c6d64c7a88246b72d54193b1a30fa3d290de3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 14/86] fix: evaluate limit states in numeric order

---
 pelicun/model/damage_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 73ccac9..6ab7f39 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1123,7 +1123,8 @@ class DamageModel_DS(DamageModel_Base):
         )
 
         # get a list of limit state ids among all components in the damage model
-        ls_list = dmg_eval.columns.get_level_values(5).unique()
+        # (in numeric order, so that higher limit states overwrite lower ones)
+        ls_list = sorted(dmg_eval.columns.get_level_values(5).unique(), key=int)
 
         # for each consecutive limit state...
         for ls_id in ls_list:
@@ -1442,6 +1443,7 @@ class DamageModel_DS(DamageModel_Base):
                 for val in frg_params.index.get_level_values(0).unique():
                     if 'LS' in val:
                         limit_states.append(val[2:])  # noqa: PERF401
+                limit_states = sorted(limit_states, key=int)
 
                 ds_id = 0
 
-- 
2.43.0


From a1ee5ed39c97c0e89303b7ee97bf653bfa680291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 15/86] fix: support components that skip the first limit state

---
 pelicun/model/damage_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 6ab7f39..1dece8f 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1537,7 +1537,8 @@ class DamageModel_DS(DamageModel_Base):
                         # Anchor all other limit state random variables to
                         # the first one to consider the perfect correlation
                         # between capacities in each LS
-                        if ls_id == limit_states[0]:
+                        # (the first limit state that is defined)
+                        if block_i >= len(anchor_rvs):
                             anchor = None
                         else:
                             anchor = anchor_rvs[block_i]
@@ -1569,7 +1570,7 @@ class DamageModel_DS(DamageModel_Base):
                         # add the RV to the set of correlated variables
                         frg_rv_set_tags[block_i].append(frg_rv_tag)
 
-                        if ls_id == limit_states[0]:
+                        if anchor is None:
                             anchor_rvs.append(rv)
 
                         # Now add the LS->DS assignments
-- 
2.43.0


From da62f684fffdea1ca8d9649b77f3670c92395dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 16/86] fix: support multilinear_CDF capacities with several
 blocks

---
 pelicun/model/damage_model.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 1dece8f..6883207 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1513,6 +1513,21 @@ class DamageModel_DS(DamageModel_Base):
                         ]
                     )
 
+                    # parse theta values for multilinear_CDF
+                    if family == 'multilinear_CDF':
+                        theta = np.column_stack(  # type: ignore
+                            (
+                                np.array(
+                                    theta[0].split('|')[0].split(','),
+                                    dtype=float,
+                                ),
+                                np.array(
+                                    theta[0].split('|')[1].split(','),
+                                    dtype=float,
+                                ),
+                            )
+                        )
+
                     for block_i, _ in enumerate(blocks):
                         frg_rv_tag = (
                             'FRG-'
@@ -1543,21 +1558,6 @@ class DamageModel_DS(DamageModel_Base):
                         else:
                             anchor = anchor_rvs[block_i]
 
-                        # parse theta values for multilinear_CDF
-                        if family == 'multilinear_CDF':
-                            theta = np.column_stack(  # type: ignore
-                                (
-                                    np.array(
-                                        theta[0].split('|')[0].split(','),
-                                        dtype=float,
-                                    ),
-                                    np.array(
-                                        theta[0].split('|')[1].split(','),
-                                        dtype=float,
-                                    ),
-                                )
-                            )
-
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
                             theta=theta,
-- 
2.43.0


From 0e41ccdbe06676e32ee4de5c1e134d43ba0bc733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 17/86] fix: apply damage process tasks in numeric order

---
 pelicun/model/damage_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 6883207..5ed37d4 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -308,8 +308,16 @@ class DamageModel(PelicunModel):
         if dmg_process is not None:
             self.log.msg('Applying damage processes.')
 
-            # Sort the damage processes tasks
-            dmg_process = {key: dmg_process[key] for key in sorted(dmg_process)}
+            # Sort the damage processes tasks (numbered tasks come in
+            # numeric order)
+            def task_order(key: str) -> tuple[bool, int, str]:
+                task_id = key.split('_')[0]
+                is_number = task_id.isdecimal()
+                return (not is_number, int(task_id) if is_number else 0, key)
+
+            dmg_process = {
+                key: dmg_process[key] for key in sorted(dmg_process, key=task_order)
+            }
 
             # Perform damage tasks in the sorted order
             for task in dmg_process.items():
-- 
2.43.0


From fcabd4ab404d692cc25f6028c6ffcdb0d20b3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 18/86] fix: allow components with and without demand
 expressions

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f100010..74b264b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1290,6 +1290,9 @@ def _get_required_demand_type(
         # Utility Demand: if there is an `Expression`, then load the
         # rest of the demand types.
         expression = model_parameters.loc[cmp, :].get(('Demand', 'Expression'))
+        if pd.isna(expression):
+            # other components can still have an expression
+            expression = None
         if expression is not None:
             # get the number of variables in the expression using
             # the numexpr library
-- 
2.43.0


From 406bfd90850105a507f400f65bb39b92e4704227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 19/86] fix: evaluate demand expressions that use a demand
 twice

---
 pelicun/model/demand_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 74b264b..f3491dd 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1481,8 +1481,8 @@ def _assemble_required_demand_data(
         if expression is not None:
             # build a dict of values
             value_dict = {}
-            for i, edp_value in enumerate(edp_values.values()):
-                value_dict[f'X{i + 1}'] = edp_value
+            for i, edp in enumerate(edps):
+                value_dict[f'X{i + 1}'] = edp_values[edp]
             demand = ne.evaluate(
                 _clean_up_expression(expression), local_dict=value_dict
             )
-- 
2.43.0


From 64a180c1f064181dc5145dde109a5868dcfb5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 20/86] fix: report demands missing in the requested direction

---
 pelicun/model/demand_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f3491dd..c8e84fb 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1576,12 +1576,14 @@ def _verify_edps_available(available_edps: dict, required: set) -> None:
             # if non-directional demand is requested, ensure there
             # are entries (all directions accepted)
             num_entries = len(available_edps[edp_type, location])
-            if edp[2] == '0' and num_entries == 0:
+            if direction == '0' and num_entries == 0:
                 msg = (
                     f'Unable to locate any `{edp_type}` '
                     f'at location {location} and direction {direction}.'
                 )
                 raise ValueError(msg)
-            if edp[2] != '0' and num_entries == 0:
+            if direction != '0' and direction not in available_edps[
+                edp_type, location
+            ]:
                 msg = f'Unable to locate `{edp_type}-{location}-{direction}`.'
                 raise ValueError(msg)
-- 
2.43.0


From 53b93088347e0899b208f18f439490aa5c2d0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 21/86] fix: list all damage states without damage state
 weights

---
 pelicun/model/damage_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 5ed37d4..e18505c 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1991,14 +1991,13 @@ class DamageModel_DS(DamageModel_Base):
                 # check if the given limit state is defined
                 if not pd.isna(cmp_data[ls, 'Theta_0']):
                     # check if there is only one damage state
-                    if pd.isna(cmp_data[ls, 'DamageStateWeights']):
+                    ds_weights = cmp_data.get((ls, 'DamageStateWeights'), np.nan)
+                    if pd.isna(ds_weights):
                         ds_count += 1
 
                     else:
                         # or if there are more than one, how many
-                        ds_count += len(
-                            cmp_data[ls, 'DamageStateWeights'].split('|')
-                        )
+                        ds_count += len(ds_weights.split('|'))
 
             # get the list of valid cmp-loc-dir-uid sets
             if cmp_id not in damaged_components:
-- 
2.43.0


From ddbe1fc34363863fc74fb850b625ab9d8d4bfb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 22/86] fix: support component ids with underscores in damage
 processes

---
 pelicun/model/damage_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index e18505c..8389b99 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1759,7 +1759,7 @@ class DamageModel_DS(DamageModel_Base):
             self.log.msg(f'Applying task {task}...', prepend_timestamp=True)
 
         # parse task
-        source_cmp = task[0].split('_')[1]  # source component
+        source_cmp = task[0].split('_', 1)[1]  # source component
         events = task[1]  # prescribed events
 
         # check for the `-LOC` suffix. If this is the case, we need to
@@ -1801,7 +1801,7 @@ class DamageModel_DS(DamageModel_Base):
 
             for target_info in target_infos:
                 # get the target component and event type
-                target_cmp, target_event = target_info.split('_')
+                target_cmp, target_event = target_info.rsplit('_', 1)
 
                 if (target_cmp != 'ALL') and (
                     target_cmp not in self.ds_sample.columns.get_level_values('cmp')
-- 
2.43.0


From e462bb768b89312fac1dc5aeb0c0e1816f23db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 23/86] fix: support component ids that contain -LOC in damage
 processes

---
 pelicun/model/damage_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 8389b99..8d2f9cd 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1765,7 +1765,7 @@ class DamageModel_DS(DamageModel_Base):
         # check for the `-LOC` suffix. If this is the case, we need to
         # match locations.
         if source_cmp.endswith('-LOC'):
-            source_cmp = source_cmp.replace('-LOC', '')
+            source_cmp = source_cmp[: -len('-LOC')]
             match_locations = True
         else:
             match_locations = False
-- 
2.43.0


From 06cdaa063caf43264d5954ca36d450bf9ffa37d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 24/86] fix: support capacity adjustments for each realization
 in all families

---
 pelicun/uq.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index eec93c1..ffba736 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1655,8 +1655,9 @@ class Normal_STD(NormalRandomVariable):
         anchor: BaseRandomVariable | None = None,
     ) -> None:
         """Instantiate a Normal_STD random variable."""
-        mean, std = theta[:2]
-        theta = np.array([mean, std])
+        # theta can have one row for each realization
+        mean, std = np.asarray(theta).T[:2]
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -1688,15 +1689,16 @@ class Normal_COV(NormalRandomVariable):
           If the specified mean is zero.
 
         """
-        mean, cov = theta[:2]
+        # theta can have one row for each realization
+        mean, cov = np.asarray(theta).T[:2]
 
         almost_zero = 1e-40
-        if np.abs(mean) < almost_zero:
+        if np.any(np.abs(mean) < almost_zero):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
         std = np.abs(mean) * cov
-        theta = np.array([mean, std])
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -2406,7 +2408,8 @@ class DeterministicRandomVariable(UtilityRandomVariable):
           Sample array containing the deterministic value.
 
         """
-        return np.full(sample_size, self.theta[0])
+        # theta can have one row for each realization
+        return np.full(sample_size, self.theta[..., 0])
 
 
 class MultinomialRandomVariable(RandomVariable):
-- 
2.43.0


From e9cf9ef574623181c74b77aae2e0e37e50f170db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 25/86] fix: refuse unknown units when loading tables

---
 pelicun/file_io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 330c6bf..08a0b50 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -497,11 +497,17 @@ def load_data(  # noqa: C901
             if log:
                 log.msg('Converting units...', prepend_timestamp=False)
 
+            unknown_units = {
+                unit
+                for unit in units
+                if not pd.isna(unit) and unit not in unit_conversion_factors
+            }
+            if unknown_units:
+                msg = f'Unknown units: {sorted(map(str, unknown_units))}'
+                raise ValueError(msg)
             conversion_factors = units.map(
                 lambda unit: (
-                    1.00
-                    if pd.isna(unit)
-                    else unit_conversion_factors.get(unit, 1.00)
+                    1.00 if pd.isna(unit) else unit_conversion_factors[unit]
                 )
             )
 
-- 
2.43.0


From ece1d9fdfc0d088de18e8ca61ac5d306728a2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 26/86] fix: use empirical demand data given as a table

---
 pelicun/model/demand_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index c8e84fb..7564954 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -893,8 +893,8 @@ class DemandModel(PelicunModel):
 
         if empirical_data_source is not None:
             if (
-                isinstance(empirical_data_source, str)
-                and Path(empirical_data_source).exists()
+                isinstance(empirical_data_source, pd.DataFrame)
+                or Path(empirical_data_source).exists()
             ):
                 empirical_data = file_io.load_data(
                     empirical_data_source,
-- 
2.43.0


From a784fe4a079221a166cd63a3f920c2fc9cf76ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 27/86] fix: load demand models without correlations

---
 pelicun/model/demand_model.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 7564954..1c9796b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -915,13 +915,17 @@ class DemandModel(PelicunModel):
                 log=self._asmnt.log,
             )
             assert isinstance(correlation, pd.DataFrame)
-            self.correlation = correlation
-            self.correlation.index = self.correlation.index.set_names(
-                ['type', 'loc', 'dir']
-            )
-            self.correlation.columns = self.correlation.columns.set_names(
-                ['type', 'loc', 'dir']
-            )
+            if correlation.empty:
+                # models without parametric demands have no correlations
+                self.correlation = None
+            else:
+                self.correlation = correlation
+                self.correlation.index = self.correlation.index.set_names(
+                    ['type', 'loc', 'dir']
+                )
+                self.correlation.columns = self.correlation.columns.set_names(
+                    ['type', 'loc', 'dir']
+                )
         else:
             self.correlation = None
 
-- 
2.43.0


From 75665b6e80eb4d12fab8a3d355d9e3ff717733d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 28/86] fix: keep the units of cloned demands next to demands
 without units

---
 pelicun/model/demand_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 1c9796b..aed336f 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1122,13 +1122,15 @@ class DemandModel(PelicunModel):
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
         # copy the columns
+        source_columns = self.sample.columns[column_index]
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
         self.sample.columns = pd.MultiIndex.from_tuples(column_values)
-        # update units
-        self.user_units = self.user_units.iloc[column_index]  # type: ignore
+        # update units (columns without units are not listed)
         assert self.user_units is not None
+        self.user_units = self.user_units.reindex(source_columns)
         self.user_units.index = self.sample.columns
+        self.user_units = self.user_units.dropna()
 
     def generate_sample(self, config: dict) -> None:
         """
-- 
2.43.0


From 51f823c25c576d2893895102f60a0bc72f8fd25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 29/86] fix: support economies of scale across damage states
 but not floors

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 062fcab..330a816 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2486,7 +2486,7 @@ class RepairModel_DS(RepairModel_Base):
                     result.columns = result.columns.droplevel('del')
 
                 # name the remaining column header levels
-                if eco_qnt.columns.names == ['cmp', 'ds', 'loc']:
+                if 'loc' in eco_qnt.columns.names:
                     result.columns.names = ['cmp', 'ds', 'loc']
                 else:
                     result.columns.names = ['cmp', 'ds']
-- 
2.43.0


From 139a60634e52e0150d7f111301f50ec9fe11416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 30/86] fix: support consequences that are random in some
 damage states only

---
 pelicun/model/loss_model.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 330a816..0cf785a 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2009,18 +2009,13 @@ class RepairModel_DS(RepairModel_Base):
         )
         dmg_quantities = dmg_quantities.sort_index(axis=1)
 
+        # consequences (dv, cmp, ds) with a random deviation
         if std_sample is not None:
-            std_dvs = std_sample.columns.unique(level=0)
+            prob_cases = set(std_sample.columns.droplevel(['loc', 'dir', 'uid']))
         else:
-            std_dvs = []
+            prob_cases = set()
 
         for decision_variable in self.decision_variables:  # noqa: PLR1702
-            if decision_variable in std_dvs:
-                assert isinstance(std_sample, pd.DataFrame)
-                prob_cmp_list = std_sample[decision_variable].columns.unique(level=0)
-            else:
-                prob_cmp_list = []
-
             cmp_list: list[tuple[Any, ...]] = []
 
             if decision_variable not in medians:
@@ -2059,7 +2054,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (decision_variable, component, ds) in prob_cases:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
@@ -2080,7 +2075,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds, loc)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (decision_variable, component, ds) in prob_cases:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
-- 
2.43.0


From 12e1b97b2b8e36f97bc49c292bf932a86d751f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 31/86] fix: skip damage states without quantities in the loss
 calculation

---
 pelicun/model/loss_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 0cf785a..8cd4d23 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2009,6 +2009,9 @@ class RepairModel_DS(RepairModel_Base):
         )
         dmg_quantities = dmg_quantities.sort_index(axis=1)
 
+        # damage states (cmp, ds) that have quantities
+        damaged_cases = set(dmg_quantities.columns.droplevel(['loc', 'dir', 'uid']))
+
         # consequences (dv, cmp, ds) with a random deviation
         if std_sample is not None:
             prob_cases = set(std_sample.columns.droplevel(['loc', 'dir', 'uid']))
@@ -2034,6 +2037,10 @@ class RepairModel_DS(RepairModel_Base):
                     .loc[:, component]
                     .columns.unique(level=0)
                 ):
+                    # skip damage states that do not occur in this component
+                    if (component, ds) not in damaged_cases:
+                        continue
+
                     loc_list = []
 
                     for loc_id, loc in enumerate(
-- 
2.43.0


From 1949bea06dd57ebd9fe1beccae48108ef2069396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 32/86] fix: support economies of scale at each floor and
 damage state

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8cd4d23..92cfc23 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1942,8 +1942,8 @@ class RepairModel_DS(RepairModel_Base):
             eco_columns = ['cmp', 'loc']
 
         else:
-            eco_levels = [0, 1, 4]
-            eco_columns = ['cmp', 'loc', 'ds']
+            eco_levels = [0, 4, 1]
+            eco_columns = ['cmp', 'ds', 'loc']
 
         eco_group = dmg_quantities.T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
-- 
2.43.0


From f79392babea59414508878ebde062ba5e452c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 33/86] fix: keep the precision of multilinear parameters when
 converting units

---
 pelicun/model/pelicun_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 05916ad..9897d99 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -242,7 +242,7 @@ class PelicunModel:
                     if len(arg) > 0:
                         theta[a_i] = '|'.join(
                             [
-                                ','.join([f'{val:g}' for val in vals])
+                                ','.join([f'{val:.15g}' for val in vals])
                                 for vals in (theta[a_i], arg)
                             ]
                         )
-- 
2.43.0


From 3277a0803a4d5228b2360d1c45fab62b43b37406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:32 +0000
Subject: [PATCH 34/86] fix: support damage without consequences in the loss
 calculation

---
 pelicun/model/loss_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 92cfc23..00c5880 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2128,6 +2128,14 @@ class RepairModel_DS(RepairModel_Base):
                     for loss_cmp_i, dmg_cmp_i, ds, loc in cmp_list
                 ]
 
+        if not res_list:
+            self.sample = None
+            self.log.msg(
+                'There are no consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
-- 
2.43.0


From c3563ce96761a7f9bd37561f08002cb184ef9fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 35/86] fix: leave undamaged quantities out of the economies of
 scale

---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 00c5880..c02240a 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1945,7 +1945,9 @@ class RepairModel_DS(RepairModel_Base):
             eco_levels = [0, 4, 1]
             eco_columns = ['cmp', 'ds', 'loc']
 
-        eco_group = dmg_quantities.T.groupby(level=eco_levels)
+        # (undamaged quantities are not repaired)
+        is_damaged = dmg_quantities.columns.get_level_values('ds') != '0'
+        eco_group = dmg_quantities.loc[:, is_damaged].T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
 
-- 
2.43.0


From edacb407e83e39b626b8b063060a88cb9de84295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 36/86] fix: use the consequences of the loss map in loss
 functions

---
 pelicun/model/loss_model.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index c02240a..89e4bfc 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2569,7 +2569,10 @@ class RepairModel_LF(RepairModel_Base):
         performance_group_dict = {}
         for (component, location, direction, uid), num_blocks in blocks.items():
             for decision_variable in self.decision_variables:
-                if (component, decision_variable) in self.missing:
+                if (
+                    loss_map[component],
+                    decision_variable,
+                ) not in self.loss_params.index:
                     continue
                 performance_group_dict[
                     (component, decision_variable), location, direction, uid
@@ -2589,10 +2592,15 @@ class RepairModel_LF(RepairModel_Base):
         )
         performance_group.index.names = ['cmp', 'loc', 'dir', 'uid']
 
+        # use the parameters of the consequence assigned to each component
+        cases = performance_group.index.get_level_values('cmp').unique()
+        cmp_params = self.loss_params.loc[
+            [(loss_map[component], dv) for component, dv in cases], :
+        ]
+        cmp_params.index = pd.MultiIndex.from_tuples(cases)
+
         required_edps = base.invert_mapping(
-            _get_required_demand_type(
-                self.loss_params, performance_group, demand_offset
-            )
+            _get_required_demand_type(cmp_params, performance_group, demand_offset)
         )
 
         available_edps = (
@@ -2763,12 +2771,12 @@ class RepairModel_LF(RepairModel_Base):
         ), blocks in performance_group['Blocks'].items():
             consequence = loss_map[component]
             edp = required_edps[
-                (consequence, decision_variable), location, direction, uid
+                (component, decision_variable), location, direction, uid
             ]
             edp_values = demand_dict[edp]
             assert self.loss_params is not None
             loss_function_str = self.loss_params.loc[
-                (component, decision_variable), ('LossFunction', 'Theta_0')
+                (consequence, decision_variable), ('LossFunction', 'Theta_0')
             ]
             assert isinstance(loss_function_str, str)
             try:
-- 
2.43.0


From 9fd6380aef8a6083c44b2b0fb28428e2b124e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 37/86] fix: support components with damage consequences and
 loss functions

---
 pelicun/model/loss_model.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 89e4bfc..d71e801 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2262,8 +2262,11 @@ class RepairModel_DS(RepairModel_Base):
                 # If loss parameters are missing for that consequence,
                 # for this particular loss model, they will exist in
                 # the other(s).
-                assert self.loss_params is not None
-                if (consequence, decision_variable) not in self.loss_params.index:
+                if (
+                    self.loss_params is None
+                    or (consequence, decision_variable)
+                    not in self.loss_params.index
+                ):
                     continue
 
                 # load the corresponding parameters
@@ -2393,6 +2396,14 @@ class RepairModel_DS(RepairModel_Base):
                 if loss_cmp_id not in eco_qnt.columns.get_level_values(0).unique():
                     continue
 
+                # consequences can also be available as loss functions
+                if (
+                    self.loss_params is None
+                    or (loss_cmp_name, decision_variable)
+                    not in self.loss_params.index
+                ):
+                    continue
+
                 ds_list = []
                 sub_medians = []
 
-- 
2.43.0


From 713a377c125ddbc13a407c776d1676e42379814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 38/86] fix: leave the columns of loss function results as they
 are when combining losses

---
 pelicun/model/loss_model.py | 47 ++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index d71e801..8708d9a 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -121,29 +121,44 @@ class LossModel(PelicunModel):
         """
         # Handle `None` cases
 
-        if self.ds_model.sample is None and self.lf_model.sample is None:
-            return None
+        return self._combine_samples(self.ds_model.sample, self.lf_model.sample)
 
-        if self.ds_model.sample is None:
-            return self.lf_model.sample
+    @staticmethod
+    def _combine_samples(
+        ds_sample: pd.DataFrame | None, lf_sample: pd.DataFrame | None
+    ) -> pd.DataFrame | None:
+        """
+        Combine loss samples of the damage state- and loss function-driven models.
 
-        if self.lf_model.sample is None:
-            return self.ds_model.sample
+        Parameters
+        ----------
+        ds_sample: pd.DataFrame | None
+            Loss sample of the damage state-driven components.
+        lf_sample: pd.DataFrame | None
+            Loss sample of the loss function-driven components.
 
-        # If both are not None, combine
+        Returns
+        -------
+        pd.DataFrame | None
+            The combined loss sample. The given samples are not
+            modified.
+
+        """
+        if ds_sample is None:
+            return lf_sample
 
-        ds_model_levels = self.ds_model.sample.columns.names
+        if lf_sample is None:
+            return ds_sample
 
-        # add a `ds` level to the lf_model sample
-        new_index = self.lf_model.sample.columns.to_frame(index=False)
-        # add
+        # prepare the missing levels of the loss function sample
+        new_index = lf_sample.columns.to_frame(index=False)
+        # add a dummy `ds` level
         new_index['ds'] = 'N/A'
-        # reorder
-        new_index = new_index[ds_model_levels]
-        new_multiindex = pd.MultiIndex.from_frame(new_index)
-        self.lf_model.sample.columns = new_multiindex
+        # order the levels the same way
+        new_index = new_index[ds_sample.columns.names]
+        lf_sample = lf_sample.set_axis(pd.MultiIndex.from_frame(new_index), axis=1)
 
-        return pd.concat((self.ds_model.sample, self.lf_model.sample), axis=1)
+        return pd.concat((ds_sample, lf_sample), axis=1)
 
     @property
     def loss_params(self) -> pd.DataFrame | None:
-- 
2.43.0


From 9bc4e46e6a70a2aa6913840bb61d2d8fa16ac05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 39/86] fix: count only the replacement consequence where
 replacement is triggered

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8708d9a..65d413f 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -933,7 +933,8 @@ class LossModel(PelicunModel):
 
         # levels to preserve (this aggregates `ds` for the ds_model)
         column_levels = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
-        combined_sample = self.sample
+        combined_sample = self._combine_samples(ds_sample, lf_sample)
+        assert combined_sample is not None
         sample = (
             combined_sample.T.groupby(level=column_levels).sum().T.sort_index(axis=1)
         )
-- 
2.43.0


From b76fdec03109e8a09aa727b684d836c449b4f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 40/86] fix: return both results of the loss aggregation when
 there are no losses

---
 pelicun/model/loss_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 65d413f..ba40f17 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -916,7 +916,12 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            no_loss_df = pd.DataFrame(
+                0.00, index=[0], columns=_construct_columns()
+            )
+            if not future:
+                return no_loss_df
+            return no_loss_df, pd.DataFrame(index=no_loss_df.index, dtype=bool)
 
         #
         #  handle `replacement`, regardless of whether
-- 
2.43.0


From 472e59849b1f8dc424ea00b971895ef3420d2d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 41/86] fix: aggregate decision variables with any name

---
 pelicun/model/loss_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ba40f17..5f0324b 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1371,13 +1371,12 @@ class LossModel(PelicunModel):
 
         # Convert units ..
         column_measures = [
-            x.replace('repair_', '')
-            .replace('-sequential', '')
-            .replace('-parallel', '')
+            x.replace('-sequential', '').replace('-parallel', '')
             for x in df_agg.columns.get_level_values(0)
         ]
         assert self.dv_units is not None
-        column_units = [self.dv_units[x.title()] for x in column_measures]
+        units = {f'repair_{dv.lower()}': unit for dv, unit in self.dv_units.items()}
+        column_units = [units[x] for x in column_measures]
         dv_units = pd.Series(column_units, index=df_agg.columns, name='Units')
         res = file_io.save_to_csv(
             df_agg,
-- 
2.43.0


From af9f84195589d8df53993d5a3f541bef35930702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 42/86] fix: support replacement thresholds for some of the
 decision variables

---
 pelicun/model/loss_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5f0324b..34c3e1d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1427,6 +1427,13 @@ class LossModel(PelicunModel):
 
         sample_dvs = replacement_consequence_rv_reg.RV.keys()
         for sample_dv in sample_dvs:
+            if (
+                sample_dv not in replacement_ratios
+                or sample_dv not in sample.columns.get_level_values('dv')
+            ):
+                # no threshold, or no losses that could exceed it
+                continue
+
             sub_sample = sample.loc[:, sample_dv]
             if 'replacement' in sub_sample.columns.get_level_values('loss'):
                 # If `replacement` already exists as a consequence,
-- 
2.43.0


From 69df4cf23b8aac7f24263caf6598ff62239ce1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 43/86] fix: combine losses with the table of their own
 decision variable at every location

---
 pelicun/model/loss_model.py | 61 ++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 34c3e1d..e67b02f 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1164,11 +1164,6 @@ class LossModel(PelicunModel):
         # decision variable.
         potential_groups = self._identify_potential_groups(dsample)
 
-        # cache already defined interpolation functions. This obviates
-        # the need to define all of them and we can just define them
-        # on the spot when needed, and reuse them if available.
-        interpolation_function_cache: dict = {}
-
         for (
             decision_variable,
             combination_data,
@@ -1177,37 +1172,30 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_parameters,
             ) in combination_data.items():
-                # determine if the components to combine are part of
-                # an available group
-                target_group: dict | None = None
-                for available_group in potential_groups[decision_variable]:
-                    # check if `components_to_combine` is a subset of
-                    # that available group
-                    if frozenset(components_to_combine) <= available_group:
-                        target_group = available_group
-                        break
-                assert target_group is not None
+                # determine which available groups contain the
+                # components to combine
+                target_groups = [
+                    available_group
+                    for available_group in potential_groups[decision_variable]
+                    if frozenset(components_to_combine) <= available_group
+                ]
+                assert target_groups
+                # define the interpolation function
+                domains, reference_values = combination_parameters
+                interp_func = RegularGridInterpolator(domains, reference_values)
                 # construct relevant loss sample columns
-                for loc_dir_uid in potential_groups[decision_variable][target_group]:
+                for loc_dir_uid in [
+                    loc_dir_uid
+                    for target_group in target_groups
+                    for loc_dir_uid in potential_groups[decision_variable][
+                        target_group
+                    ]
+                ]:
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
-                        for x in target_group
+                        for x in components_to_combine
                     ]
                     values = np.column_stack([dsample[col] for col in cols])
-                    # define/get interpolation function
-                    if (
-                        interpolation_function_cache.get(components_to_combine)
-                        is not None
-                    ):
-                        interp_func = interpolation_function_cache.get(
-                            components_to_combine
-                        )
-                    else:
-                        domains, reference_values = combination_parameters
-                        interp_func = RegularGridInterpolator(
-                            domains, reference_values
-                        )
-                    assert interp_func is not None
                     combined_loss = interp_func(values)
                     combined_loss_col = (
                         decision_variable,
@@ -1319,9 +1307,14 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_array,
             ) in combination_data.items():
-                combination_index = (
-                    combination_array[:, 0],
-                    combination_array[0, :],
+                combination_index = tuple(
+                    combination_array[
+                        tuple(
+                            slice(None) if i == axis else 0
+                            for i in range(combination_array.ndim)
+                        )
+                    ]
+                    for axis in range(combination_array.ndim)
                 )
                 loss_combination_converted[decision_variable][
                     components_to_combine
-- 
2.43.0


From 468ed68c6655df99c2049caa2f4660be16058265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 44/86] fix: use loss parameters of one definition only

---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index e67b02f..14d0911 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1675,7 +1675,9 @@ class RepairModel_Base(PelicunModel):
 
         # drop redefinitions of components
         data = (
-            data.groupby(level=[0, 1]).first().transform(lambda x: x.fillna(np.nan))
+            data.groupby(level=[0, 1])
+            .first(skipna=False)
+            .transform(lambda x: x.fillna(np.nan))
         )
         # note: .groupby introduces None entries. We replace them with
         # NaN for consistency.
-- 
2.43.0


From 79d44e551f7964474e0b0d434856d9fda72ad21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 45/86] fix: use the first of damage consequences and loss
 functions for the same loss

---
 pelicun/model/loss_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 14d0911..dc2ac8c 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -458,6 +458,14 @@ class LossModel(PelicunModel):
 
         # determine if the loss model parameters are for damage
         # states or loss functions
+        # definitions in earlier data paths take precedence
+        if _is_for_ds_model(data):
+            data = data.loc[~data.index.isin(self.lf_model.get_available())]
+        elif _is_for_lf_model(data):
+            data = data.loc[~data.index.isin(self.ds_model.get_available())]
+        if data.empty:
+            return
+
         if _is_for_ds_model(data):
             self.ds_model.load_model_parameters(data)
         elif _is_for_lf_model(data):
-- 
2.43.0


From 8ea18b1878aca5c612d0d888e0414b4673578c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 46/86] fix: convert loss parameters once when they are loaded
 in several calls

---
 pelicun/model/loss_model.py | 54 ++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index dc2ac8c..23f6514 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -360,6 +360,11 @@ class LossModel(PelicunModel):
         self.log.div()
         self.log.msg('Loading loss parameters...')
 
+        # parameters from previous calls are already in base units
+        converted = {
+            loss_model: loss_model.get_available() for loss_model in self._loss_models
+        }
+
         # replace `PelicunDefault/` flag with default data path
         data_paths = file_io.substitute_default_path(data_paths, log=self.log)
 
@@ -420,7 +425,7 @@ class LossModel(PelicunModel):
             'Converting loss model parameter units.', prepend_timestamp=False
         )
         for loss_model in self._loss_models:
-            loss_model.convert_loss_parameter_units()
+            loss_model.convert_loss_parameter_units(converted[loss_model])
 
         #
         # verify loss parameter availability
@@ -1773,8 +1778,19 @@ class RepairModel_Base(PelicunModel):
         return set()
 
     @abstractmethod
-    def convert_loss_parameter_units(self) -> None:
-        """Convert previously loaded loss parameters to base units."""
+    def convert_loss_parameter_units(
+        self, converted: set[tuple[str, str]] | None = None
+    ) -> None:
+        """
+        Convert previously loaded loss parameters to base units.
+
+        Parameters
+        ----------
+        converted: set of tuple, optional
+            Loss drivers and decision variables of parameters that
+            are already in base units.
+
+        """
 
 
 class RepairModel_DS(RepairModel_Base):
@@ -2176,11 +2192,23 @@ class RepairModel_DS(RepairModel_Base):
         self.log.msg('Successfully obtained DV sample.', prepend_timestamp=False)
         self.sample = dv_sample
 
-    def convert_loss_parameter_units(self) -> None:
-        """Convert previously loaded loss parameters to base units."""
+    def convert_loss_parameter_units(
+        self, converted: set[tuple[str, str]] | None = None
+    ) -> None:
+        """
+        Convert previously loaded loss parameters to base units.
+
+        Parameters
+        ----------
+        converted: set of tuple, optional
+            Loss drivers and decision variables of parameters that
+            are already in base units.
+
+        """
         if self.loss_params is None:
             return
         units = self.loss_params['DV', 'Unit']
+        units = units.mask(units.index.isin(list(converted or ())))
         arg_units = self.loss_params['Quantity', 'Unit']
         for column in self.loss_params.columns.unique(level=0):
             if not column.startswith('DS'):
@@ -2728,11 +2756,23 @@ class RepairModel_LF(RepairModel_Base):
 
         return
 
-    def convert_loss_parameter_units(self) -> None:
-        """Convert previously loaded loss parameters to base units."""
+    def convert_loss_parameter_units(
+        self, converted: set[tuple[str, str]] | None = None
+    ) -> None:
+        """
+        Convert previously loaded loss parameters to base units.
+
+        Parameters
+        ----------
+        converted: set of tuple, optional
+            Loss drivers and decision variables of parameters that
+            are already in base units.
+
+        """
         if self.loss_params is None:
             return
         units = self.loss_params['DV', 'Unit']
+        units = units.mask(units.index.isin(list(converted or ())))
         arg_units = self.loss_params['Demand', 'Unit']
         column = 'LossFunction'
         params = self.loss_params[column].copy()
-- 
2.43.0


From 767772dc000dda6edc8e5b5e320d70fdb306ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 47/86] fix: fit integer samples and keep the limits intact in
 distribution fitting

---
 pelicun/uq.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index ffba736..afed8b8 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -775,8 +775,12 @@ def fit_distribution_to_sample(  # noqa: C901
 
     """
     samples = np.atleast_2d(raw_sample)
-    tr_limits = np.atleast_2d(truncation_limits)
-    det_limits = np.atleast_2d(detection_limits)
+    if not np.issubdtype(samples.dtype, np.floating):
+        # avoid truncating the values when they are converted to log space
+        samples = samples.astype(float)
+    # copy the limits because they might be converted to log space below
+    tr_limits = np.array(truncation_limits, dtype=float, ndmin=2)
+    det_limits = np.array(detection_limits, dtype=float, ndmin=2)
     dist_list = np.atleast_1d(distribution)
     n_dims, n_samples = samples.shape
 
-- 
2.43.0


From cbb37737847561bc3d594d3cd544ff6b34f64ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 48/86] fix: scale calibration limits only with the unit they
 are given in

---
 pelicun/model/demand_model.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index aed336f..fb77408 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -582,7 +582,9 @@ class DemandModel(PelicunModel):
             # load the distribution family
             cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
-            # load limits
+            # load limits and scale them, if needed
+            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
+
             for lim in (
                 'CensorLower',
                 'CensorUpper',
@@ -592,18 +594,7 @@ class DemandModel(PelicunModel):
                 if lim in settings:
                     val = parse_str_to_float(settings[lim], lim)
                     if not pd.isna(val):
-                        cal_df.loc[list(cols), lim] = val
-
-            # scale the censor and truncation limits, if needed
-            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-
-            rows_to_scale = [
-                'CensorLower',
-                'CensorUpper',
-                'TruncateLower',
-                'TruncateUpper',
-            ]
-            cal_df.loc[idx[cols, :, :], rows_to_scale] *= scale_factor  # type: ignore
+                        cal_df.loc[list(cols), lim] = val * scale_factor
 
             # load the prescribed additional uncertainty
             if 'AddUncertainty' in settings:
-- 
2.43.0


From bf80c2041f9a264d71b23ce03548377a682c5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 49/86] fix: add demand uncertainty to the standard deviation
 of normal demands

---
 pelicun/model/demand_model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index fb77408..31e1aa5 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -603,7 +603,11 @@ class DemandModel(PelicunModel):
                 )
 
                 # scale the sig value if the target distribution family is normal
-                if settings['DistributionFamily'] == 'normal':
+                if settings['DistributionFamily'] in {
+                    'normal',
+                    'normal_cov',
+                    'normal_std',
+                }:
                     sig_increase *= scale_factor
 
                 cal_df.loc[list(cols), 'SigIncrease'] = sig_increase
@@ -776,6 +780,13 @@ class DemandModel(PelicunModel):
             )
             sig_0 = model_params.loc[:, 'Theta_1'].to_numpy()
 
+            # the increase is a standard deviation, but normal demands have a
+            # coefficient of variation
+            is_cov = model_params['Family'].isin(['normal', 'normal_cov'])
+            to_scale = is_cov.to_numpy() & (sig_inc > 0.0)
+            means = np.abs(model_params.loc[:, 'Theta_0'].to_numpy())
+            sig_inc[to_scale] /= means[to_scale]
+
             model_params.loc[:, 'Theta_1'] = np.sqrt(
                 sig_0**2.0 + sig_inc**2.0,  # type: ignore
             )
-- 
2.43.0


From 276cbe736b3aad224d76715314d1e8443971611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 50/86] fix: use demand correlations given with columns in a
 different order

---
 pelicun/model/demand_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 31e1aa5..42168f7 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1018,12 +1018,18 @@ class DemandModel(PelicunModel):
                 f'EDP-{edp[0]}-{edp[1]}-{edp[2]}'
                 for edp in self.correlation.index.to_numpy()
             ]
+            # the columns might be in a different order
+            columns = [
+                f'EDP-{edp[0]}-{edp[1]}-{edp[2]}'
+                for edp in self.correlation.columns.to_numpy()
+            ]
+            column_order = [columns.index(tag) for tag in rv_set_tags]
 
             rv_reg.add_RV_set(
                 uq.RandomVariableSet(
                     'EDP_set',
                     list(rv_reg.RVs(rv_set_tags).values()),
-                    self.correlation.values,
+                    self.correlation.iloc[:, column_order].to_numpy(),
                 )
             )
 
-- 
2.43.0


From 0dc6a59eb38f9e0a2871410f417d4508565e6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 51/86] fix: correlate costs and times of components with any
 name

---
 pelicun/model/loss_model.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 23f6514..69869d2 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2375,18 +2375,14 @@ class RepairModel_DS(RepairModel_Base):
         rho = self._asmnt.options.rho_cost_time
         if rho != 0.0:
             for rv_tag in rv_reg.RV:
-                if not rv_tag.startswith('Cost'):
+                if not rv_tag.startswith('Cost-'):
                     continue
-                component = rv_tag.split('-')[1]
-                ds = rv_tag.split('-')[2]
-                loc = rv_tag.split('-')[3]
-                direction = rv_tag.split('-')[4]
-                uid = rv_tag.split('-')[5]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                tag = rv_tag.removeprefix('Cost-')
+                time_rv_tag = f'Time-{tag}'
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-                            f'DV-{component}-{ds}-{loc}-{direction}-{uid}_set',
+                            f'DV-{tag}_set',
                             list(rv_reg.RVs([rv_tag, time_rv_tag]).values()),
                             np.array([[1.0, rho], [rho, 1.0]]),
                         )
@@ -2969,23 +2965,14 @@ class RepairModel_LF(RepairModel_Base):
         rho = self._asmnt.options.rho_cost_time
         if rho != 0.0:
             for rv_tag in rv_reg.RV:
-                if not rv_tag.startswith('Cost'):
+                if not rv_tag.startswith('Cost-'):
                     continue
-                split = rv_tag.split('-')
-                consequence = split[1]
-                component = split[2]
-                location = split[3]
-                direction = split[4]
-                uid = split[5]
-                block = split[6]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                tag = rv_tag.removeprefix('Cost-')
+                time_rv_tag = f'Time-{tag}'
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-                            (
-                                f'DV-{consequence}-{component}-'
-                                f'{location}-{direction}-{uid}-{block}_set'
-                            ),
+                            f'DV-{tag}_set',
                             list(rv_reg.RVs([rv_tag, time_rv_tag]).values()),
                             np.array([[1.0, rho], [rho, 1.0]]),
                         )
-- 
2.43.0


From 1a5b9e8df2e9d2830ac2c4082a5eb727b0befd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 52/86] fix: extend the loss map in a reproducible order

---
 pelicun/model/loss_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 69869d2..bab9a1d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -256,7 +256,8 @@ class LossModel(PelicunModel):
             raise ValueError(msg)
 
         # get a list of unique component IDs
-        cmp_set = set(self._asmnt.asset.list_unique_component_ids())
+        # (in a reproducible order)
+        cmp_ids = self._asmnt.asset.list_unique_component_ids()
 
         if loss_map_path is not None:
             self.log.msg('Loss map is provided.', prepend_timestamp=False)
@@ -287,7 +288,7 @@ class LossModel(PelicunModel):
 
         if loss_map_policy in {'fill', 'fill_all'}:
             # Populate missing rows with cmp_id -> cmp_id
-            for component in cmp_set:
+            for component in cmp_ids:
                 if component not in loss_map.index:
                     if loss_map_policy == 'fill' and component == 'excessiveRID':
                         continue
-- 
2.43.0


From 87de0e071ce48daec4aed112cf28419447c93cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 53/86] fix: treat malformed version records as damaged

---
 pelicun/tools/dlml.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 013b228..5f72df7 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -232,10 +232,12 @@ def load_cache(cache_file: Union[str, Path]) -> Dict[str, Any]:  # noqa: UP007,
     if path.exists():
         try:
             with path.open('r') as f:
-                return json.load(f)
-        except (OSError, json.JSONDecodeError):
+                cache_data = json.load(f)
+        except (OSError, ValueError, RecursionError):
             # If the cache file is corrupted, return an empty cache
             return {}
+        if isinstance(cache_data, dict):
+            return cache_data
     return {}
 
 
@@ -312,6 +314,8 @@ def check_dlml_version() -> Dict[str, Union[bool, str, None]]:  # noqa: UP007, U
     try:
         # Get current local version from cache
         current_version_str = cache_data.get('version')
+        if not isinstance(current_version_str, str):
+            current_version_str = None
         if current_version_str:
             # Handle commit-based versions by extracting the last version before that commit
             if current_version_str.startswith('commit-'):
@@ -596,6 +600,12 @@ def download_data_files(  # noqa: C901
     if use_cache:
         old_commit_sha = cache_data.get('commit_sha')
 
+        # A damaged record says nothing about the local files
+        if not isinstance(old_commit_sha, str) or not isinstance(
+            cache_data.get('files'), dict
+        ):
+            old_commit_sha = None
+
         # Check if we already have the latest data
         if old_commit_sha == commit_sha:
             logger.info(f'Already have the latest data for commit {commit_sha[:7]}.')
-- 
2.43.0


From 018af29fda55265833327bc51f7fbc8908347dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 54/86] fix: drop the version record before the library files
 change

---
 pelicun/tools/dlml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 5f72df7..ef3f5c5 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -618,6 +618,10 @@ def download_data_files(  # noqa: C901
             )
             changed_files = _get_changed_files(old_commit_sha, commit_sha, headers)
 
+    # The record of the installed version is only valid until the files change. It
+    # is written again when all files of the new version are available.
+    cache_file.unlink(missing_ok=True)
+
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
-- 
2.43.0


From 2af7415ffcc18395303ee3ee9e4f470dd854bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 55/86] fix: restore missing files of the installed library
 version

---
 pelicun/tools/dlml.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index ef3f5c5..8461f9b 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -608,11 +608,24 @@ def download_data_files(  # noqa: C901
 
         # Check if we already have the latest data
         if old_commit_sha == commit_sha:
-            logger.info(f'Already have the latest data for commit {commit_sha[:7]}.')
-            return
+            if all(
+                checksum
+                and get_file_hash(str(target_data_abs_dir / file_path)) is not None
+                for file_path, checksum in {
+                    'model_files.txt': True,
+                    **cache_data['files'],
+                }.items()
+            ):
+                logger.info(
+                    f'Already have the latest data for commit {commit_sha[:7]}.'
+                )
+                return
+
+            logger.info('Restoring missing files.')
+            changed_files = set()
 
         # Determine which files have changed if we are updating
-        if old_commit_sha:
+        elif old_commit_sha:
             logger.info(
                 f'Updating from commit {old_commit_sha[:7]} to {commit_sha[:7]}.'
             )
-- 
2.43.0


From bf86665659551df3798dc10dbe3bce2b84ace433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 56/86] fix: download all files when the list of changes is
 incomplete

---
 pelicun/tools/dlml.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 8461f9b..3d15d88 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -65,6 +65,9 @@ logger = logging.getLogger('pelicun.dlml')
 # --- Module-level path constants ---
 PELICUN_ROOT_DIR = Path(__file__).resolve().parent.parent
 
+# Number of changed files the GitHub API lists when it compares commits
+MAX_COMPARED_FILES = 300
+
 
 def get_api_repo_url() -> str:
     """
@@ -183,7 +186,8 @@ def _get_changed_files(
     Returns
     -------
     set[str] | None
-        A set of changed filenames, or None if the API call fails.
+        A set of changed filenames, or None if the API call fails or does not list
+        every changed file.
     """
     compare_url = f'{get_api_repo_url()}/compare/{base_commit}...{head_commit}'
 
@@ -206,7 +210,19 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        return {file_info['filename'] for file_info in compare_data.get('files', [])}
+        # The comparison starts at the common ancestor of the commits, hence it does
+        # not show all differences if neither commit precedes the other one. Also,
+        # the API limits the number of files it lists.
+        changed_files = compare_data.get('files')
+        if (
+            compare_data.get('status') == 'diverged'
+            or changed_files is None
+            or len(changed_files) >= MAX_COMPARED_FILES
+        ):
+            logger.info('The list of changed files is not complete.')
+            return None
+
+        return {file_info['filename'] for file_info in changed_files}
 
     except requests.exceptions.RequestException as e:
         logger.warning(f'Could not get commit comparison from GitHub API: {e}')
-- 
2.43.0


From 209eac6a4b99bf8298fb4bd4b6e6ac3b525f5911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 57/86] fix: use the library when its version record cannot be
 written

---
 pelicun/tools/dlml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 3d15d88..0740088 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -848,6 +848,7 @@ def check_dlml_data() -> None:
 
         except (
             requests.exceptions.RequestException,
+            OSError,
             ValueError,
             TypeError,
             KeyError,
-- 
2.43.0


From 9eb02dba182a10eed4211c7d3e1a71790d98f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 58/86] fix: assign intensity measures to buildings by their
 name

---
 pelicun/tools/regional_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 7c85eef..78bf04f 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -485,11 +485,14 @@ def process_buildings_chunk(
 
     grid_point_locations = grid_points[['Longitude', 'Latitude']].to_numpy()
 
-    grid_data_sorted = grid_data.sort_index(axis=1)
+    # make sure the data follow the order of the grid points and the IM list
+    grid_data_sorted = grid_data[
+        [(grid_point, im_type) for grid_point in grid_points.index for im_type in im_list]
+    ]
 
     n_realizations = grid_data_sorted.shape[0]
-    n_sources = grid_data_sorted.columns.unique(level=0).size
-    n_features = grid_data_sorted.columns.unique(level=1).size
+    n_sources = len(grid_points)
+    n_features = len(im_list)
 
     grid_point_intensity_measures = grid_data_sorted.to_numpy().T.reshape(
         n_sources, n_features, n_realizations
-- 
2.43.0


From cb9d03ef907ef170fdf86433a08deadfdf64b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 59/86] fix: include buildings without damage in the losses of
 a regional simulation

---
 pelicun/tools/regional_sim.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 78bf04f..ea360d2 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -383,6 +383,15 @@ def _calculate_losses_general(
 
     assessment.loss.calculate()
 
+    # every location is included in the results; those without any damage have
+    # no losses
+    damage_sample = assessment.damage.save_sample()
+    locations = damage_sample.columns.get_level_values('loc').unique().astype(int)
+
+    if assessment.loss.sample is None:
+        no_losses = pd.DataFrame(0.0, index=locations, columns=damage_sample.index)
+        return no_losses, no_losses if 'Time' in decision_variables else None
+
     repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
     # aggregate across uid
@@ -414,12 +423,12 @@ def _calculate_losses_general(
     # prepare the output
     repair_costs = grp_repair['Cost']
     repair_costs.columns = repair_costs.columns.astype(int)
-    repair_costs = repair_costs.T
+    repair_costs = repair_costs.reindex(columns=locations, fill_value=0.0).T
 
     if 'Time' in decision_variables:
         repair_times = grp_repair['Time']
         repair_times.columns = repair_times.columns.astype(int)
-        repair_times = repair_times.T
+        repair_times = repair_times.reindex(columns=locations, fill_value=0.0).T
     else:
         repair_times = None
 
-- 
2.43.0


From 771337f7b5bdfa69c3239ffbcfc75483961422cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 60/86] fix: restore files that are recorded with a malformed
 checksum

---
 pelicun/tools/dlml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 0740088..9fe37c7 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -626,9 +626,10 @@ def download_data_files(  # noqa: C901
         if old_commit_sha == commit_sha:
             if all(
                 checksum
+                and isinstance(checksum, str)
                 and get_file_hash(str(target_data_abs_dir / file_path)) is not None
                 for file_path, checksum in {
-                    'model_files.txt': True,
+                    'model_files.txt': 'any',
                     **cache_data['files'],
                 }.items()
             ):
-- 
2.43.0


From 9824f1488de6c1d896b808522421b4340f197870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 61/86] Revert "fix: use demand correlations given with columns
 in a different order"

The decomposition already gives the requested correlations for such tables.
---
 pelicun/model/demand_model.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 42168f7..31e1aa5 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1018,18 +1018,12 @@ class DemandModel(PelicunModel):
                 f'EDP-{edp[0]}-{edp[1]}-{edp[2]}'
                 for edp in self.correlation.index.to_numpy()
             ]
-            # the columns might be in a different order
-            columns = [
-                f'EDP-{edp[0]}-{edp[1]}-{edp[2]}'
-                for edp in self.correlation.columns.to_numpy()
-            ]
-            column_order = [columns.index(tag) for tag in rv_set_tags]
 
             rv_reg.add_RV_set(
                 uq.RandomVariableSet(
                     'EDP_set',
                     list(rv_reg.RVs(rv_set_tags).values()),
-                    self.correlation.iloc[:, column_order].to_numpy(),
+                    self.correlation.values,
                 )
             )
 
-- 
2.43.0


From 248a2cc45c9850e3f79946cad591776f7c8aad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 62/86] fix: keep the level names of demand samples when
 cloning demands

---
 pelicun/model/demand_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 31e1aa5..e419f32 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1127,7 +1127,9 @@ class DemandModel(PelicunModel):
         source_columns = self.sample.columns[column_index]
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
-        self.sample.columns = pd.MultiIndex.from_tuples(column_values)
+        self.sample.columns = pd.MultiIndex.from_tuples(
+            column_values, names=source_columns.names
+        )
         # update units (columns without units are not listed)
         assert self.user_units is not None
         self.user_units = self.user_units.reindex(source_columns)
-- 
2.43.0


From ec0eb651ea1cf7eee62500a28091ca80bc44fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 63/86] fix: refuse cloned demands that take the name of
 another demand

---
 pelicun/model/demand_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index e419f32..541cc50 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1123,6 +1123,13 @@ class DemandModel(PelicunModel):
                 new_column_values = demand_cloning[column]
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
+        # clones cannot take the name of another demand in the sample
+        if len(set(column_values)) != len(column_values):
+            msg = (
+                'The demand cloning configuration lists columns that are '
+                'already present in the demand sample.'
+            )
+            raise ValueError(msg)
         # copy the columns
         source_columns = self.sample.columns[column_index]
         self.sample = self.sample.iloc[:, column_index]
-- 
2.43.0


From 6f12e9d99e2d04b268598cd22121fac88ed4407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 64/86] fix: ignore undefined third parameters of lognormal
 variables

---
 pelicun/uq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index afed8b8..97c0250 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1724,7 +1724,8 @@ class LogNormalRandomVariable(RandomVariable):
             truncation_limits = np.array((np.nan, np.nan))
         super().__init__(
             name=name,
-            theta=theta,
+            # a third parameter is not used (it can be listed, but undefined)
+            theta=np.asarray(theta)[..., :2],
             truncation_limits=truncation_limits,
             f_map=f_map,
             anchor=anchor,
-- 
2.43.0


From a544dffc10384de594e8253cd8fc8ca9917ee388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 65/86] fix: give damage state probabilities when no
 realization is applicable

---
 pelicun/model/damage_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 8d2f9cd..0637e84 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -752,7 +752,7 @@ class DamageModel_DS(DamageModel_Base):
             values = values[values != -1]
             if len(values) == 0:
                 # can't determine without a sample
-                probabilities[col] = np.nan
+                probabilities[col] = pd.Series(dtype=float)
             else:
                 vcounts = values.value_counts() / len(values)
                 probabilities[col] = vcounts  # type: ignore
-- 
2.43.0


From 9ea0476e02757b7e4e84aa38cc267307a645f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 66/86] fix: estimate residual drifts from peak drifts in base
 units

---
 pelicun/assessment.py         | 7 ++++---
 pelicun/model/demand_model.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 8de1988..e679a7a 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -735,9 +735,10 @@ class DLCalculationAssessment(AssessmentBase):
 
             if rid_inference_method == 'FEMA P-58':
                 rid_list: list[pd.DataFrame] = []
-                pid = demand_sample['PID'].copy()
-                pid = pid.drop('Units')
-                pid = pid.astype(float)
+                # use peak drifts in base units, because the yield drifts
+                # and the estimated residual drifts are unitless
+                assert self.demand.sample is not None
+                pid = self.demand.sample['PID'].astype(float)
 
                 for direction, delta_yield in residual_drift_inference.items():
                     pids = pid.loc[:, idx[:, direction]]  # type: ignore
diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 541cc50..141a87a 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -464,8 +464,9 @@ class DemandModel(PelicunModel):
         demand_sample, demand_units = sample_tuple
         assert isinstance(demand_sample, pd.DataFrame)
         assert isinstance(demand_units, pd.Series)
-        pid = demand_sample['PID']
-        rid = self.estimate_RID(pid, params, method)
+        # estimate residual drifts from peak drifts in base units, because
+        # the yield drift and the estimates are unitless
+        rid = self.estimate_RID(self.sample['PID'], params, method)
         rid_units = pd.Series('unitless', index=rid.columns)
         demand_sample_ext = pd.concat([demand_sample, rid], axis=1)
         units_ext = pd.concat([demand_units, rid_units])
-- 
2.43.0


From b067b0e191cb6a1b8588ff50ca33147c5351f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 67/86] fix: accept integer collapse limits

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index e679a7a..4b648a2 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -659,7 +659,7 @@ class DLCalculationAssessment(AssessmentBase):
 
             for dem_type, limit in collapse_limits.items():
                 assert isinstance(dem_type, str)
-                assert isinstance(limit, (str, float))
+                assert isinstance(limit, (str, int, float))
                 nlevels_with_event_id = 4
                 if raw_demands.columns.nlevels == nlevels_with_event_id:
                     dem_to_drop += raw_demands.loc[
-- 
2.43.0


From 55248d9b4be06c961a59f93639406fb850221272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 68/86] fix: keep the residual drift configuration when demands
 are calculated

---
 pelicun/assessment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 4b648a2..9021cf8 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -731,6 +731,7 @@ class DLCalculationAssessment(AssessmentBase):
         if residual_drift_inference:
             # `method` is guaranteed to exist because it is confirmed when
             # parsing the configuration file.
+            residual_drift_inference = residual_drift_inference.copy()
             rid_inference_method = residual_drift_inference.pop('method')
 
             if rid_inference_method == 'FEMA P-58':
-- 
2.43.0


From 7525116db4a6f9c1a83d2e1b41fe4cbed8dfa293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 69/86] fix: keep the loss models assigned to collapse and
 irreparable damage

---
 pelicun/assessment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 9021cf8..ced1179 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1418,8 +1418,10 @@ class DLCalculationAssessment(AssessmentBase):
 
         # prepare additional loss map entries, if needed
         if 'DMG-collapse' not in loss_map.index:
-            loss_map.loc['collapse', 'Repair'] = 'replacement'
-            loss_map.loc['irreparable', 'Repair'] = 'replacement'
+            for component in ('collapse', 'irreparable'):
+                # keep the loss models that are assigned by the user
+                if component not in loss_map.index:
+                    loss_map.loc[component, 'Repair'] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From 00f2d1dc0fb39bcffa2501a60c72d24a66f0eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 70/86] fix: apply default damage processes to components with
 underscores in their names

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index ced1179..adbd35a 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1236,7 +1236,7 @@ class DLCalculationAssessment(AssessmentBase):
                 asset_components = set(self.asset.list_unique_component_ids())
                 filtered_dmg_process = {}
                 for key in dmg_process:
-                    component = key.split('_')[1]
+                    component = key.split('_', 1)[1]
                     if component in asset_components:
                         filtered_dmg_process[key] = dmg_process[key]
                 dmg_process = filtered_dmg_process
-- 
2.43.0


From ae1d28864651e1bdee842d581478b3fd4b176935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 71/86] fix: allow component samples instead of component
 assignments in configurations

---
 pelicun/settings/input_schema.json | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pelicun/settings/input_schema.json b/pelicun/settings/input_schema.json
index 346a9b0..8dac0cb 100644
--- a/pelicun/settings/input_schema.json
+++ b/pelicun/settings/input_schema.json
@@ -168,10 +168,7 @@
             "ComponentDatabasePath": {
               "type": "string"
             }
-          },
-          "required": [
-            "ComponentAssignmentFile"
-          ]
+          }
         },
         "Damage": {
           "type": "object",
-- 
2.43.0


From 0cbef248c2f6ce2bccb4c55a3f7c7c536bbbf64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 72/86] fix: accept correlations of costs and times given as
 text

---
 pelicun/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 405422e..f08b4b2 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -204,7 +204,9 @@ class Options:
 
         self.demand_offset = merged_config_options['DemandOffset']
         self.nondir_multi_dict = merged_config_options['NonDirectionalMultipliers']
-        self.rho_cost_time = merged_config_options['RepairCostAndTimeCorrelation']
+        self.rho_cost_time = float(
+            merged_config_options['RepairCostAndTimeCorrelation']
+        )
         self.eco_scale = merged_config_options['EconomiesOfScale']
 
         self.error_setup = merged_config_options['ErrorSetup']
-- 
2.43.0


From edd9a72bba3def880053e7845210899229111a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 73/86] fix: refer to the existing water and power models with
 legacy names

---
 pelicun/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 08a0b50..0c3fe7d 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -86,8 +86,8 @@ legacy_names = {
     'damage_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
     'damage_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories',
     'damage_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
-    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Water',
-    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Power',
+    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Potable Water',
+    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Electric Power',
     'damage_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind',
     'loss_repair_DB_FEMA_P58_2nd': 'FEMA P-58',
     'loss_repair_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
-- 
2.43.0


From 496ff9cfa04dce90eae33845981424e41b0c74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 74/86] fix: resolve the oldest legacy names of default
 libraries

---
 pelicun/file_io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 0c3fe7d..b0baa93 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -365,7 +365,13 @@ def substitute_default_path(
                             'documentation for more details.'
                         )
 
-                    method_name = legacy_names[file_name.split('.')[0]]
+                    # the oldest names are aliases of the newer ones
+                    legacy_name = (
+                        file_name.split('.')[0]
+                        .replace('fragility_DB', 'damage_DB')
+                        .replace('bldg_repair_DB', 'loss_repair_DB')
+                    )
+                    method_name = legacy_names[legacy_name]
                     if file_name.startswith(('fragility', 'damage')):
                         data_type = 'fragility'
                     else:
-- 
2.43.0


From 0d89fb5857d6c56578aaf3cb272f34b6220293b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 75/86] fix: load consequences of default libraries given by
 their legacy file names

---
 pelicun/assessment.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index adbd35a..78a2eb1 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1527,12 +1527,17 @@ class DLCalculationAssessment(AssessmentBase):
                 if Path(consequence_db_path).is_file():
                     consequence_db.append(consequence_db_path)
 
-                    conseq_df = pd.concat(
-                        [
-                            conseq_df,
-                            self.get_default_data(method_name, 'consequence_repair'),
-                        ]
-                    )
+                    # <backwards compatibility>
+                    if method_name.endswith(('csv', 'CSV')):
+                        default_data = self.get_default_data(
+                            Path(method_name).stem
+                        )
+                    else:
+                        default_data = self.get_default_data(
+                            method_name, 'consequence_repair'
+                        )
+
+                    conseq_df = pd.concat([conseq_df, default_data])
                     assert isinstance(conseq_df, pd.DataFrame)
 
                 else:
-- 
2.43.0


From de355f0f910886483d4965407c75461a4597d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 76/86] Revert "fix: accept correlations of costs and times
 given as text"

This reverts commit 0cbef248c2f6ce2bccb4c55a3f7c7c536bbbf64c.
---
 pelicun/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index f08b4b2..405422e 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -204,9 +204,7 @@ class Options:
 
         self.demand_offset = merged_config_options['DemandOffset']
         self.nondir_multi_dict = merged_config_options['NonDirectionalMultipliers']
-        self.rho_cost_time = float(
-            merged_config_options['RepairCostAndTimeCorrelation']
-        )
+        self.rho_cost_time = merged_config_options['RepairCostAndTimeCorrelation']
         self.eco_scale = merged_config_options['EconomiesOfScale']
 
         self.error_setup = merged_config_options['ErrorSetup']
-- 
2.43.0


From 8ac5d1ce294a9b3604b771cd65ab1c474aae6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 77/86] fix: accept options of auto-populated calculations when
 the script has none

---
 pelicun/tools/DL_calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index eea2ee9..24972ec 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -759,6 +759,8 @@ def _parse_config_file(  # noqa: C901, PLR0912
             # extend options defined via the auto-population script to
             # include those in the original `config`
             config_ap['Applications']['DL']['ApplicationData'].pop('Options')
+            if is_unspecified(config_ap, 'DL/Options'):
+                update(config_ap, 'DL/Options', {})
             update_vals(
                 config_ap['DL']['Options'],
                 assessment_options,
-- 
2.43.0


From 9dad2ae4da16d507adddb3bd523d9f828ee4624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 78/86] fix: fit marginals without detection limits when
 nothing is censored

---
 pelicun/uq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 97c0250..5e1c306 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -867,7 +867,10 @@ def fit_distribution_to_sample(  # noqa: C901
             # make it easier to fit the censored distribution later.
             tr_limits_i = [np.nan, np.nan]
             for lim in range(2):
-                if (np.isnan(tr_limits[dim][lim])) and (
+                if censored_count == 0:
+                    # the detection limits did not remove any data
+                    tr_limits_i[lim] = tr_limits[dim][lim]
+                elif (np.isnan(tr_limits[dim][lim])) and (
                     not np.isnan(det_limits[dim][lim])
                 ):
                     tr_limits_i[lim] = det_limits[dim][lim]
-- 
2.43.0


From bddd09bd995671c04a37d173d806561bed67246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 79/86] fix: treat a singular correlation matrix as an invalid
 fit

---
 pelicun/uq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 5e1c306..b07c85f 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -671,7 +671,11 @@ def _neg_log_likelihood(  # noqa: C901
         cen_likelihood = 1.0
 
     # take the product of likelihoods calculated in each dimension
-    scale = _mvn_scale(std_samples.T, rho_hat)
+    try:
+        scale = _mvn_scale(std_samples.T, rho_hat)
+    except np.linalg.LinAlgError:
+        # the correlation matrix is singular with these parameters
+        return 1e10
     # TODO(AZ): We can almost surely replace the product of likelihoods
     # with a call to mvn()
     likelihoods = np.prod(likelihoods, axis=0) * scale
-- 
2.43.0


From 16d9aee159dd44032680756a6060c78e24af3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 80/86] fix: treat parameters that cannot be standardized as an
 invalid fit

---
 pelicun/uq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index b07c85f..d94bf12 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -624,6 +624,10 @@ def _neg_log_likelihood(  # noqa: C901
 
     # if the problem is more than one dimensional, get the correlation matrix
     if n_dims > 1:
+        # invalid parameters cannot be standardized
+        if not np.all(np.isfinite(std_samples)):
+            return 1e10
+
         rho_hat = _get_std_corr_matrix(std_samples)
         if rho_hat is None:
             return 1e10
-- 
2.43.0


From cfbe3b07a9523b67eda9cbd48ab85dfcfc1be6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 81/86] fix: include undamaged buildings in the losses of Hazus
 regional simulations

---
 pelicun/tools/regional_sim.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index ea360d2..010cfc5 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -305,6 +305,16 @@ def _calculate_losses_hazus_eq(
 
         assessment.loss.calculate()
 
+        # no building of this occupancy type is damaged
+        if assessment.loss.sample is None:
+            for losses in loss_results.values():
+                losses.append(
+                    pd.DataFrame(
+                        0.0, index=full_dmg_sample.index, columns=building_ids
+                    )
+                )
+            continue
+
         repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
         # aggregate across uid
@@ -337,7 +347,10 @@ def _calculate_losses_hazus_eq(
             grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
 
             # we did not preserve the units for now; we can add them here if needed
-            loss_results[DV_type].append(grp_repair_dv.loc[:, building_ids])
+            # buildings that are never damaged have no losses
+            loss_results[DV_type].append(
+                grp_repair_dv.reindex(columns=building_ids, fill_value=0.0)
+            )
 
     repair_costs = pd.concat(loss_results['Cost'], axis=1).sort_index(axis=1).T
     repair_times = pd.concat(loss_results['Time'], axis=1).sort_index(axis=1).T
-- 
2.43.0


From 04f10cd9bc76644b89e8348fd2dc4deee07e9ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:48 +0000
Subject: [PATCH 82/86] fix: discard the losses of earlier calculations

---
 pelicun/model/loss_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index bab9a1d..81dca4a 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -499,6 +499,10 @@ class LossModel(PelicunModel):
         self.log.div()
         self.log.msg('Calculating losses...')
 
+        # discard the results of earlier calculations
+        for loss_model in self._loss_models:
+            loss_model.sample = None
+
         # Get the damaged quantities in each damage state for each
         # component of interest.
         demand = self._asmnt.demand.sample
-- 
2.43.0


From 85a084f9c8fd781db5a1ec17a61f5a4614040859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:57 +0000
Subject: [PATCH 83/86] fix: discard the empirical data of earlier calibrations

---
 pelicun/model/demand_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 141a87a..0b7ed4d 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -728,6 +728,8 @@ class DemandModel(PelicunModel):
                 empirical_edps.append(edp)  # noqa: PERF401
 
         assert isinstance(demand_sample, pd.DataFrame)
+        # (discard the data of earlier calibrations)
+        self.empirical_data = None
         if empirical_edps:
             self.empirical_data = demand_sample.loc[:, empirical_edps].copy()
 
-- 
2.43.0


From 9ff85cef44352121cc59c42fadbc0b606dc203e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 84/86] fix: accept the target of a library update after the
 options

---
 pelicun/cli.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pelicun/cli.py b/pelicun/cli.py
index 8323520..99a57b6 100644
--- a/pelicun/cli.py
+++ b/pelicun/cli.py
@@ -163,7 +163,6 @@ Examples:
     parser_dlml.add_argument(
         'target',
         nargs='?',
-        default='latest',
         help='Version tag (e.g., v1.2.0) or "latest" for the latest release. '
         'Use "commit <sha>" to specify a commit SHA.',
     )
@@ -184,7 +183,22 @@ Examples:
     parser_dlml.set_defaults(func=dlml_update)
 
     # Parse the arguments from the command line
-    args = parser.parse_args()
+    args, other_args = parser.parse_known_args()
+
+    # `argparse` only looks for the optional target right after the
+    # action, but it can also follow the options
+    if args.subcommand == 'dlml':
+        if (
+            args.target is None
+            and other_args
+            and not other_args[0].startswith('-')
+        ):
+            args.target = other_args.pop(0)
+        if args.target is None:
+            args.target = 'latest'
+
+    if other_args:
+        parser.error(f'unrecognized arguments: {" ".join(other_args)}')
 
     # Call the function associated with the chosen subcommand
     if args.subcommand == 'regional_sim':
-- 
2.43.0


From 60ad75ed0321c3f695c6c86b745b65b8749b881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:40 +0000
Subject: [PATCH 85/86] fix: remove the JSON results of earlier runs

---
 pelicun/tools/DL_calculation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 24972ec..37d6df5 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1562,10 +1562,13 @@ def _remove_existing_files(output_path: Path, known_output_files: list[str]) ->
 
     """
     # Initialize the output folder - i.e., remove existing output files from
-    # there
+    # there, including the JSON files that were created from them
+    known_files = set(known_output_files)
+    known_files.update(f'{Path(name).stem}.json' for name in known_output_files)
+
     files = os.listdir(output_path)
     for filename in files:
-        if filename in known_output_files:
+        if filename in known_files:
             try:
                 (output_path / filename).unlink()
             except OSError as exc:
-- 
2.43.0


From cf2de75a8695326ea765853aa25da31561a57811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:52 +0000
Subject: [PATCH 86/86] fix: use the last definition of the replacement time

---
 pelicun/assessment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 78a2eb1..71d33cb 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1346,8 +1346,9 @@ class DLCalculationAssessment(AssessmentBase):
             custom_model_dir,
         )
 
-        # remove duplicates from conseq_df
-        conseq_df = conseq_df.loc[conseq_df.index.unique(), :]
+        # remove duplicates from conseq_df; the last database that
+        # defines a consequence has the highest priority
+        conseq_df = conseq_df.loc[~conseq_df.index.duplicated(keep='last'), :]
 
         # add the replacement consequence to the data
         adf = pd.DataFrame(
-- 
2.43.0

