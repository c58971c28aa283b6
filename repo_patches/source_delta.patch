From 0fa5a2505d9c9925410ee6284ebe0f066676320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:17 +0000
Subject: [PATCH 01/76] fix: round_half_up passes a missing value through
 instead of raising

The *_total statistics call it on a column sum that is None when the
column is absent or has no usable values.
---
 metcalcpy/util/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8b9961..7c345d6 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -252,9 +252,11 @@ def round_half_up(num, decimals=0):
             n:  number
             decimals: decimal place
         Returns:
-            rounded number
+            rounded number or None if the number is missing
 
     """
+    if num is None:
+        return None
     multiplier = 10 ** decimals
     return math.floor(num * multiplier + 0.5) / multiplier
 
-- 
2.43.0


From b8218719c151ace583c341ebfb1558b70f4c55a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:17 +0000
Subject: [PATCH 02/76] fix: base rate is missing, not an IndexError, when a
 count column is absent

It also ignores missing cells like the other contingency-table scores.
---
 metcalcpy/util/ctc_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 007cec4..9fa1b5a 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -41,9 +41,9 @@ def calculate_baser(input_data, columns_names):
     warnings.filterwarnings('error')
 
     try:
-        result = (sum(input_data[:, np.where(columns_names == 'fy_oy')[0][0]])
-                  + sum(input_data[:, np.where(columns_names == 'fn_oy')[0][0]])) \
-                 / sum(input_data[:, np.where(columns_names == 'total')[0][0]])
+        result = (sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+                  + sum_column_data_by_name(input_data, columns_names, 'fn_oy')) \
+                 / sum_column_data_by_name(input_data, columns_names, 'total')
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
-- 
2.43.0


From e83827d376e1f05e89cc1fa8607e550b0ce4245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:17 +0000
Subject: [PATCH 03/76] fix: marginal contingency counts are missing when a
 cell count is missing

---
 metcalcpy/util/ctc_statistics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 9fa1b5a..e678327 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -708,6 +708,8 @@ def calculate_ctc_oy(input_data, columns_names):
     """
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fy_oy is None or fn_oy is None:
+        return None
     return round_half_up(fy_oy + fn_oy, PRECISION)
 
 
@@ -727,6 +729,8 @@ def calculate_ctc_on(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
+    if fy_on is None or fn_on is None:
+        return None
     return round_half_up(fy_on + fn_on, PRECISION)
 
 
@@ -746,6 +750,8 @@ def calculate_ctc_fy(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+    if fy_on is None or fy_oy is None:
+        return None
     return round_half_up(fy_on + fy_oy, PRECISION)
 
 
@@ -765,6 +771,8 @@ def calculate_ctc_fn(input_data, columns_names):
     """
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fn_on is None or fn_oy is None:
+        return None
     return round_half_up(fn_on + fn_oy, PRECISION)
 
 
-- 
2.43.0


From 70d9dc175dfdb65bb1d3b6da208886d80597c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:18 +0000
Subject: [PATCH 04/76] fix: RMSE and BCRMSE of a negative mean square are
 missing instead of raising ValueError

---
 metcalcpy/util/sl1l2_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 9324a0d..e88c713 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -449,7 +449,7 @@ def calculate_rmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_mse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -552,7 +552,7 @@ def calculate_bcrmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_bcmse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 43f7e1018f9b1903f59dd76db34e10349183158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:18 +0000
Subject: [PATCH 05/76] fix: scatter index is missing instead of raising when
 the observation mean is zero

---
 metcalcpy/util/sl1l2_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index e88c713..06ecc1f 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -475,7 +475,7 @@ def calculate_si(input_data, columns_names, aggregation=False):
         obar = calculate_obar(input_data, columns_names, aggregation)
         result = rmse / obar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 5f33c0968c2591179aa48167ba10e5b596445ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:18 +0000
Subject: [PATCH 06/76] fix: error standard deviation honours aggregation and
 is missing for a single pair

---
 metcalcpy/util/sl1l2_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 06ecc1f..2bd3919 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -498,11 +498,11 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
     warnings.filterwarnings('error')
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
-        me = calculate_me(input_data, columns_names)
-        mse = calculate_mse(input_data, columns_names)
+        me = calculate_me(input_data, columns_names, aggregation)
+        mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, Warning, ValueError, OverflowError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 7696b1422b41b588b43a8f60e7d722b06d687bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:18 +0000
Subject: [PATCH 07/76] fix: direction error normalises the observed vector
 with the aggregated speed

---
 metcalcpy/util/vcnt_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/vcnt_statistics.py b/metcalcpy/util/vcnt_statistics.py
index c24cc02..4287e44 100644
--- a/metcalcpy/util/vcnt_statistics.py
+++ b/metcalcpy/util/vcnt_statistics.py
@@ -468,7 +468,7 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         uf = ufbar / f_len
         vf = vfbar / f_len
 
-        o_len = calculate_vcnt_obar_speed(input_data, columns_names)
+        o_len = calculate_vcnt_obar_speed(input_data, columns_names, aggregation)
         uobar = sum_column_data_by_name(input_data, columns_names, 'uobar') / total
         vobar = sum_column_data_by_name(input_data, columns_names, 'vobar') / total
         uo = uobar / o_len
-- 
2.43.0


From ec812d1bde9d0066687ec8aeb59adfcfc15f93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:18 +0000
Subject: [PATCH 08/76] fix: wind direction is returned in degrees

---
 metcalcpy/util/met_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/met_stats.py b/metcalcpy/util/met_stats.py
index 33770dc..bc28f38 100644
--- a/metcalcpy/util/met_stats.py
+++ b/metcalcpy/util/met_stats.py
@@ -48,7 +48,7 @@ def calc_direction(u_comp, v_comp):
     if abs(u_comp) < tolerance and abs(v_comp) < tolerance:
         return None
 
-    direction = np.arctan2(u_comp, v_comp)
+    direction = np.degrees(np.arctan2(u_comp, v_comp))
     # convert to [0,360]
     direction = direction - 360 * math.floor(direction / 360)
     return direction
-- 
2.43.0


From 549a0b97423c2001dfcf79f893d73cd758b7c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:00 +0000
Subject: [PATCH 09/76] fix: use float instead of the removed np.float in the
 economic value for probability counts

---
 metcalcpy/util/eclv_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index bd113e7..e74eccf 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -68,10 +68,10 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
             thresh_i_more = input_data[:, index_thresh_i] > thresh
             thresh_i_less = input_data[:, index_thresh_i] <= thresh
 
-            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(np.float))
-            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(np.float))
-            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(np.float))
-            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(np.float))
+            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(float))
+            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(float))
+            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(float))
+            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(float))
         else:
             n11 = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
             n10 = sum_column_data_by_name(input_data, columns_names, 'fy_on')
-- 
2.43.0


From a31e643c2b8c1a493caa7ecfe4a53487fc011295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:52 +0000
Subject: [PATCH 10/76] fix: Brier score, its skill score and resolution reset
 the index of a scalar

---
 metcalcpy/util/pstd_statistics.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8d9f96d..2ee7a01 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -42,8 +42,6 @@ def calculate_pstd_brier(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
-
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -76,7 +74,6 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -161,7 +158,6 @@ def calculate_pstd_resolution(input_data, columns_names):
         df_pct_perm = _calc_common_stats(columns_names, input_data)
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
         t_table = df_pct_perm['n_i'].sum()
-        t_table.reset_index(inplace=True, drop=True)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From c09f38ad288213118bd9ac2d74a05f0480b7068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:02 +0000
Subject: [PATCH 11/76] fix: ROC area raised and left warnings escalated when
 there were no events or no non-events

---
 metcalcpy/util/pstd_statistics.py | 46 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 2ee7a01..3ae93de 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -260,28 +260,30 @@ def calculate_pstd_roc_auc(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-
-    df_pct_perm = _calc_common_stats(columns_names, input_data)
-    roc = _calc_pct_roc(df_pct_perm)
-    # add 1st and last rows
-    final_roc = pd.DataFrame(
-        {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
-        index=[0])
-    final_roc = pd.concat([final_roc, roc])
-    final_roc = pd.concat([final_roc,
-        pd.DataFrame(
-            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
-            index=[0]) ])
-
-    final_roc.reset_index(inplace=True, drop=True)
-    roc_auc = 0
-    for index, row in final_roc.iterrows():
-        if index != 0:
-            roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
-                      * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
-
-    result = round_half_up(roc_auc, PRECISION)
-
+    try:
+        df_pct_perm = _calc_common_stats(columns_names, input_data)
+        roc = _calc_pct_roc(df_pct_perm)
+        # add 1st and last rows
+        final_roc = pd.DataFrame(
+            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
+            index=[0])
+        final_roc = pd.concat([final_roc, roc])
+        final_roc = pd.concat([final_roc,
+            pd.DataFrame(
+                {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
+                index=[0]) ])
+
+        final_roc.reset_index(inplace=True, drop=True)
+        roc_auc = 0
+        for index, row in final_roc.iterrows():
+            if index != 0:
+                roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
+                          * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
+
+        result = round_half_up(roc_auc, PRECISION)
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
+        result = None
+    warnings.filterwarnings('ignore')
     return result
 
 
-- 
2.43.0


From ac174ff8eb8a04d127edcbdd4cf786713e29a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 12/76] fix: matched share of simple forecast objects no longer
 counts cluster objects

---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 39b7571..098c4e5 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -136,7 +136,7 @@ def calculate_ratio_fsm_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From cfd2d7506031a6baa373ec5de4e4b8dfba329006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 13/76] fix: unmatched share of simple forecast objects counted
 the matched ones

---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 098c4e5..a0c4c2e 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -162,7 +162,7 @@ def calculate_ratio_fsu_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 1466c503604e8e978778f94e09646b3833b78d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 14/76] fix: forecast share of matched simple objects counted
 unmatched forecasts

---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index a0c4c2e..e7e6ecb 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -240,7 +240,7 @@ def calculate_ratio_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 1bed048c464bd3a8ddbffaa3756c1d15f261b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 15/76] fix: observation share of matched simple objects
 counted unmatched observations

---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index e7e6ecb..d7ea142 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -266,7 +266,7 @@ def calculate_ratio_osm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From bf0c1a0e5c88956d1e9ab33a76abdac936352e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 16/76] fix: object critical success index has the hits in its
 numerator

---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index d7ea142..8c98aa2 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -838,7 +838,7 @@ def calculate_objcsi(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_2 = {'simple_flag': 1, 'matched_flag': 0}
 
-- 
2.43.0


From eb2fb3697177439867a015e75d0f566cbdecba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 17/76] fix: object probability of detection divides by hits
 plus misses, not false alarms

---
 metcalcpy/util/mode_ratio_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 8c98aa2..37373ea 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -871,7 +871,7 @@ def calculate_objpody(input_data, columns_names):
     warnings.filterwarnings('error')
     nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
-    denominator_filter_2 = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    denominator_filter_2 = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
 
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 48f19ecbb2db7d2fc9d6a8f25a3bb6109f7dc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 18/76] fix: forecast share of matched area used unmatched
 forecasts over all forecasts

---
 metcalcpy/util/mode_arearat_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 2ca56f8..294d2e3 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -266,8 +266,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
-    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    denominator_filter = {'simple_flag': 1, 'matched_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 6015c89cb54b63f35f830733785dbdc083a4dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 19/76] fix: observation to forecast area ratio divided by the
 observation area

---
 metcalcpy/util/mode_arearat_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 294d2e3..e8ce45d 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -613,7 +613,7 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     nominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
-    denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
+    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From ae5c43de85891c4d811edc84195300e467d662f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 20/76] fix: area false alarm ratio weights hits by a half as
 the count version does

---
 metcalcpy/util/mode_arearat_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index e8ce45d..347bbd5 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -983,7 +983,7 @@ def calculate_objafar(input_data, columns_names):
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
         denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
-        result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
+        result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
-- 
2.43.0


From f26d08cb9cf9a76826748bfe1a7699abd1ef5f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:50 +0000
Subject: [PATCH 21/76] fix: volume ratios were always missing because renamed
 columns were a plain list

---
 metcalcpy/util/mode_3d_volrat_statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_3d_volrat_statistics.py b/metcalcpy/util/mode_3d_volrat_statistics.py
index 1f66035..ff8dbdb 100644
--- a/metcalcpy/util/mode_3d_volrat_statistics.py
+++ b/metcalcpy/util/mode_3d_volrat_statistics.py
@@ -11,6 +11,8 @@
 """
 Program Name: mode_3d_volrat_statistics.py
 """
+import numpy as np
+
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.utils import column_data_by_name_value, THREE_D_DATA_FILTER
 
@@ -639,4 +641,4 @@ def rename_column(columns_names):
             columns_names_new.insert(index, 'area')
         else:
             columns_names_new.insert(index, name)
-    return columns_names_new
+    return np.array(columns_names_new)
-- 
2.43.0


From 2bebffd5dc39b7671efc3df763b237653f513f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:38 +0000
Subject: [PATCH 22/76] fix: restore the warning policy on early returns of
 contingency table scores

FBIAS, FMEAN, GSS, HSS, LODDS and BAGSS returned None for a missing or empty
table while warnings were still turned into errors, so later harmless warnings
in the same process were raised as exceptions.
---
 metcalcpy/util/ctc_statistics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index e678327..fb79983 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -94,6 +94,7 @@ def calculate_fbias(input_data, columns_names):
         oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
              + sum_column_data_by_name(input_data, columns_names, 'fn_oy')
         if oy == 0:
+            warnings.filterwarnings('ignore')
             return None
         oyn = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
               + sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -122,6 +123,7 @@ def calculate_fmean(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         oyn = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
               + sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -327,6 +329,7 @@ def calculate_gss(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -385,6 +388,7 @@ def calculate_hss(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -449,6 +453,7 @@ def calculate_lodds(input_data, columns_names):
         fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
         fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
         if fy_oy is None or fy_on is None or fn_oy is None or fn_on is None:
+            warnings.filterwarnings('ignore')
             return None
         v = np.log(fy_oy) + np.log(fn_on) - np.log(fy_on) - np.log(fn_oy)
         v = round_half_up(v, PRECISION)
@@ -478,8 +483,10 @@ def calculate_bagss(input_data, columns_names):
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
         if fy_oy is None or fn_oy is None or fy_on is None or total is None:
+            warnings.filterwarnings('ignore')
             return None
         if fy_oy == 0 or fn_oy == 0 or total == 0:
+            warnings.filterwarnings('ignore')
             return None
         dbl_o = fy_oy + fn_oy
         dbl_lf = np.log(dbl_o / fn_oy)
-- 
2.43.0


From e9829231ddf199c0cdfb009e7bd2630a8ca74087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:38 +0000
Subject: [PATCH 23/76] fix: restore the warning policy on early returns of
 anomaly correlations

---
 metcalcpy/util/sal1l2_statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/util/sal1l2_statistics.py b/metcalcpy/util/sal1l2_statistics.py
index 6a7913d..4227eeb 100644
--- a/metcalcpy/util/sal1l2_statistics.py
+++ b/metcalcpy/util/sal1l2_statistics.py
@@ -45,6 +45,7 @@ def calculate_anom_corr(input_data, columns_names, aggregation=False):
         v = (total ** 2 * ffbar - total ** 2 * fbar ** 2) \
             * (total ** 2 * oobar - total ** 2 * obar ** 2)
         if v <= 0:
+            warnings.filterwarnings('ignore')
             return None
         anom_corr = (total ** 2 * fobar - total ** 2 * fbar * obar) / np.sqrt(v)
         if anom_corr > 1:
@@ -80,6 +81,7 @@ def calculate_anom_corr_raw(input_data, columns_names, aggregation=False):
         fobar = sum_column_data_by_name(input_data, columns_names, 'foabar') / total
         v = ffbar * oobar
         if v < 0:
+            warnings.filterwarnings('ignore')
             return None
         anom_corr_raw = fobar / np.sqrt(v)
         if anom_corr_raw > 1:
-- 
2.43.0


From 39d06f33e3655c0f5c85d14aac5bfbe2cdd365f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:38 +0000
Subject: [PATCH 24/76] fix: restore the warning policy when the economic value
 input is rejected

---
 metcalcpy/util/eclv_statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index e74eccf..d6b2a31 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -55,9 +55,11 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
     # some validation
     if line_type != 'ctc' and line_type != 'pct':
         print(f'ERROR: incorrect line type {line_type} for calculating ECLV  ')
+        warnings.filterwarnings('ignore')
         return None
     if line_type == 'pct' and thresh is None:
         print(f'ERROR: provide thresh for calculating ECLV  ')
+        warnings.filterwarnings('ignore')
         return None
 
     try:
-- 
2.43.0


From cbde134176b0efacdb0b97c60d2a224f9ad99e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:38 +0000
Subject: [PATCH 25/76] fix: give no multi-category HSS_EC when a table column
 is missing

The lookup of an absent column raised IndexError, which was not handled and
also left warnings turned into errors.
---
 metcalcpy/util/mcts_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/mcts_statistics.py b/metcalcpy/util/mcts_statistics.py
index 1919b1c..6dce159 100644
--- a/metcalcpy/util/mcts_statistics.py
+++ b/metcalcpy/util/mcts_statistics.py
@@ -60,7 +60,7 @@ def calculate_mcts_hss_ec(input_data, columns_names):
         sum_all = sum(sum(cont_table, []))
         result = (diag_count - (ec_value * sum_all)) / (sum_all - (ec_value * sum_all))
         result = round_half_up(result, PRECISION)
-    except (TypeError, ZeroDivisionError, Warning, ValueError):
+    except (TypeError, ZeroDivisionError, Warning, ValueError, IndexError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 1a68ba6531c46fec4eac44185ac9fee1a7cd763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:38 +0000
Subject: [PATCH 26/76] fix: do not add helper columns to the caller's data
 when sorting by threshold

---
 metcalcpy/util/ctc_statistics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index fb79983..84c443b 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1026,6 +1026,7 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
     operators = []
     values = []
     text_strings = []
+    input_dataframe = input_dataframe.copy()
     requested_thresh = input_dataframe[sort_column_name]
 
     for thresh in requested_thresh:
-- 
2.43.0


From 9ebb1075a194e19781ff12ebcc31d418bd607c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:29 +0000
Subject: [PATCH 27/76] fix: fall back to the requested statistic when a
 derived pair has no stat_name column

---
 metcalcpy/agg_stat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 1bcfd7f..94fe162 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -310,7 +310,7 @@ class AggStat:
                 stat_2 = values_2[0, stat_column_index].lower()
                 func_name_1 = f'calculate_{stat_1}'
                 func_name_2 = f'calculate_{stat_2}'
-            except ValueError:
+            except (ValueError, IndexError):
                 func_name_1 = f'calculate_{self.statistic}'
                 func_name_2 = f'calculate_{self.statistic}'
 
@@ -361,7 +361,7 @@ class AggStat:
                     stat_2 = values_2[0, stat_column_index].lower()
                     func_name_1 = f'calculate_{stat_1}'
                     func_name_2 = f'calculate_{stat_2}'
-                except ValueError:
+                except (ValueError, IndexError):
                     func_name_1 = f'calculate_{self.statistic}'
                     func_name_2 = f'calculate_{self.statistic}'
 
-- 
2.43.0


From 1706e6238fd242f73d90307fb9fdac0d9b9b98d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:14 +0000
Subject: [PATCH 28/76] fix: ignore missing replicates in pivotal bootstrap
 bounds

---
 metcalcpy/bootstrap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index f105165..ddb26ad 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -326,9 +326,10 @@ def _get_confidence_interval_and_value(bootstrap_dist, stat_val, alpha, ci_metho
         ci_method = "None"
 
     if ci_method == 'pivotal':
-        low = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (1 - alpha / 2.))
+        bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
+        low = 2 * stat_val - _np.percentile(bd, 100 * (1 - alpha / 2.))
         val = stat_val
-        high = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (alpha / 2.))
+        high = 2 * stat_val - _np.percentile(bd, 100 * (alpha / 2.))
     elif ci_method == 'perc':
         # check if All values of bootstrap_dist are equal and if YES -
         # display a warning and do not calculate CIs - like boot.ci in R
-- 
2.43.0


From 1ec874d0a6c1bde4b55986e5672a9becf65a90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:14 +0000
Subject: [PATCH 29/76] fix: no bootstrap bounds when every replicate is
 missing

---
 metcalcpy/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index ddb26ad..dd6f987 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -520,7 +520,7 @@ def _all_the_same(elements):
     if elements.size == 0:
         return True
     try:
-        result = len(_np.unique(elements[elements != _np.array([None])])) == 1
+        result = len(_np.unique(elements[elements != _np.array([None])])) <= 1
     except TypeError:
         result = False
     return result
-- 
2.43.0


From 26435445df177711aa2dc73dfb2276675dbffac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:14 +0000
Subject: [PATCH 30/76] fix: pivotal bounds of the economic value use the value
 at each ratio

---
 metcalcpy/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index dd6f987..307d3d9 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -388,8 +388,8 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
             high = None
             column = all_values_np[:, ind]
             if ci_method == 'pivotal':
-                low = 2 * stat_val - _np.percentile(column, 100 * (1 - alpha / 2.))
-                high = 2 * stat_val - _np.percentile(column, 100 * (alpha / 2.))
+                low = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (1 - alpha / 2.))
+                high = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (alpha / 2.))
 
             elif ci_method == 'perc':
                 if _all_the_same(column):
-- 
2.43.0


From d0611f7b4793af636f56359f71e1291525183f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:14 +0000
Subject: [PATCH 31/76] fix: economic value bounds do not depend on a shadowed
 sum and a removed argument

---
 metcalcpy/bootstrap.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index 307d3d9..6bcddb0 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -379,7 +379,6 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
 
         all_values_np = _np.array(all_values)
         steps_len = len(stat_val['cl'])
-        none_in_values = len(stat_val['V']) != sum(x is not None for x in stat_val['V'])
         stat_btcl = [None] * steps_len
         stat_btcu = [None] * steps_len
 
@@ -397,9 +396,8 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
                     low = None
                     high = None
                 else:
-                    if none_in_values:
-                        low = _np.percentile(column, 100 * (alpha / 2.), interpolation='linear')
-                        high = _np.percentile(column, 100 * (1 - alpha / 2.), interpolation='linear')
+                    low = _np.percentile(column, 100 * (alpha / 2.), method='linear')
+                    high = _np.percentile(column, 100 * (1 - alpha / 2.), method='linear')
             stat_btcl[ind] = low
             stat_btcu[ind] = high
 
-- 
2.43.0


From 3d7cbb8e21e602440a130b04bc065f224b06a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:06 +0000
Subject: [PATCH 32/76] fix: weight the fractional error columns when
 aggregating

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 94fe162..cc006e3 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -138,6 +138,7 @@ class AggStat:
         'rmsoa': ['ooabar'],
         'me': ['fbar', 'obar'],
         'me2': ['fbar', 'obar'],
+        'fe': ['fbar', 'obar'],
         'mse': ['ffbar', 'oobar', 'fobar'],
         'msess': ['ffbar', 'oobar', 'fobar', 'obar'],
         'rmse': ['ffbar', 'oobar', 'fobar'],
-- 
2.43.0


From f65f00e9f5491c188a2e5f89b147566fe2949785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:06 +0000
Subject: [PATCH 33/76] fix: weight the mean wind columns of the mean vector
 speeds when aggregating

---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index cc006e3..ce282bc 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -180,6 +180,8 @@ class AggStat:
         'vl1l2_bias': ['uvffbar', 'uvoobar'],
         'vl1l2_fvar': ['uvffbar', 'f_speed_bar'],
         'vl1l2_ovar': ['uvoobar', 'o_speed_bar'],
+        'vl1l2_fspd': ['ufbar', 'vfbar'],
+        'vl1l2_ospd': ['uobar', 'vobar'],
         'vl1l2_speed_err': ['ufbar', 'vfbar', 'uobar', 'vobar'],
         'vl1l2_rmsve': ['uvffbar', 'uvfobar', 'uvoobar'],
         'vl1l2_msve': ['uvffbar', 'uvfobar', 'uvoobar'],
-- 
2.43.0


From 274ae89a0d5d038b5fec1ce8b9bd6c1f83ac8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:06 +0000
Subject: [PATCH 34/76] fix: spread/skill total can be aggregated

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index ce282bc..6516aff 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -204,6 +204,7 @@ class AggStat:
         'ssvar_me2': ['fbar', 'obar'],
         'ssvar_msess': ['obar', 'oobar', 'ffbar', 'fobar'],
         'ssvar_spread': ['var_mean'],
+        'ssvar_total': [],
 
         'ecnt_crps': ['crps'],
         'ecnt_crpss': ['crps', 'crpscl'],
-- 
2.43.0


From 5f407f3a7aeb75792aac0faed0f8d88235bbcc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:06 +0000
Subject: [PATCH 35/76] fix: aggregate the total spread from its own column

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 6516aff..d29f747 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -492,7 +492,7 @@ class AggStat:
 
         variance = data_for_prepare['spread'].values * data_for_prepare['spread'].values
         variance_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
-        variance_plus_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
+        variance_plus_oerr = data_for_prepare['spread_plus_oerr'].values * data_for_prepare['spread_plus_oerr'].values
 
         data_for_prepare['mse'] = mse * data_for_prepare['total'].values
         data_for_prepare['mse_oerr'] = mse_oerr * data_for_prepare['total'].values
-- 
2.43.0


From c904854c6047167f8a9ea879fdf513efb153f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:06 +0000
Subject: [PATCH 36/76] fix: weight the observed event rate when aggregating
 neighbourhood rows

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index d29f747..64e012c 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -556,6 +556,7 @@ class AggStat:
         data_for_prepare['fbs'] = fbs
         data_for_prepare['fss'] = fss_den
         data_for_prepare['f_rate'] = f_rate
+        data_for_prepare['o_rate'] = total * data_for_prepare['o_rate'].values
 
     def _prepare_pct_data(self, data_for_prepare):
         """Prepares pct data.
-- 
2.43.0


From efbf86057b9adf1a4e4ce4531b5ac18fcae4cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:55 +0000
Subject: [PATCH 37/76] fix: sum each contingency count of grouped rows from
 its own column

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 7c345d6..7b7ef8a 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -589,7 +589,7 @@ def calc_series_sums(input_df, line_type):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
-                                                               column_names, column_names)]
+                                                               input_df.columns, column)]
 
     elif line_type == 'sl1l2':
         column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
-- 
2.43.0


From 21caa82e79114dc2cc3b4871fc29114fba18fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:55 +0000
Subject: [PATCH 38/76] fix: grouped anomaly partial sums keep the column names
 of their rows

---
 metcalcpy/util/utils.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 7b7ef8a..260515d 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -598,16 +598,13 @@ def calc_series_sums(input_df, line_type):
                                        / total]
 
     elif line_type == 'sal1l2':
-        sums_data_frame['fbar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['obar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['fobar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['ffbar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['oobar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
-                                    / total]
+        # the anomaly columns may have been renamed to reuse sl1l2 statistics
+        column_names = ['fabar', 'oabar', 'foabar', 'ffabar', 'ooabar']
+        if 'fabar' not in input_df.columns:
+            column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
+        for column in column_names:
+            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                       / total]
 
     elif line_type == 'vl1l2':
         column_names = ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar',
-- 
2.43.0


From ccbba489480220701f6b5a20d0d9c3ee03051213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:55 +0000
Subject: [PATCH 39/76] fix: grouped ensemble rows average squares before
 taking roots and keep the skill score consistent

---
 metcalcpy/util/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 260515d..225c16c 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -652,10 +652,16 @@ def calc_series_sums(input_df, line_type):
         sums_data_frame['mse'] = [np.nansum(input_df['total'] * mse) / total]
         sums_data_frame['mse_oerr'] = [np.nansum(input_df['total'] * mse_oerr) / total]
         sums_data_frame['crps_climo'] = [np.nansum(input_df['total'] * crps_climo) / total]
-        column_names = ['me', 'crps', 'ign', 'spread', 'me_oerr', 'spread_oerr', 'spread_plus_oerr']
+        column_names = ['me', 'crps', 'ign', 'me_oerr']
         for column in column_names:
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
+        # roots and skill scores are not additive - use their additive form
+        column_names = ['rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr']
+        for column in column_names:
+            sums_data_frame[column] = [np.sqrt(np.nansum(input_df[column] * input_df[column]
+                                                         * input_df.total.astype(float)) / total)]
+        sums_data_frame['crpss'] = 1 - sums_data_frame['crps'] / sums_data_frame['crps_climo']
     elif line_type == 'rps':
         d_rps_climo = input_df['rps'] / (1 - input_df['rpss'])
         sums_data_frame['rps'] = [np.nansum(input_df["rps"] * input_df.total.astype(float))
-- 
2.43.0


From b13f5e6fc61bbd3581aba6cc405096b32d037f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:55 +0000
Subject: [PATCH 40/76] fix: grouped ranked probability rows keep the skill
 score consistent

---
 metcalcpy/util/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 225c16c..e0dce51 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -670,6 +670,7 @@ def calc_series_sums(input_df, line_type):
                                        / total]
         sums_data_frame['rps_climo'] = [np.nansum(d_rps_climo * input_df.total.astype(float))
                                         / total]
+        sums_data_frame['rpss'] = 1 - sums_data_frame['rps'] / sums_data_frame['rps_climo']
 
     return sums_data_frame
 
-- 
2.43.0


From b86f7f12e64be216e4892ecaf2b23fc1d5be6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:33 +0000
Subject: [PATCH 41/76] fix: equivalence test reports p-values that underflow
 to zero

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index e0dce51..f5003cd 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1229,7 +1229,7 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest and ptost:
+    if pttest is not None and ptost is not None:
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-- 
2.43.0


From ba5ae3eb918bd0e9975d45bdf1f8db9caea22ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:33 +0000
Subject: [PATCH 42/76] fix: equivalence test has an outcome when the p-value
 equals alpha

---
 metcalcpy/util/tost_paired.py | 2 +-
 metcalcpy/util/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index 5de53e2..707afb0 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -146,7 +146,7 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     if pttest <= alpha and ptost <= alpha:
         combined_outcome = 'diff_eqv'
 
-    if pttest < alpha and ptost > alpha:
+    if pttest <= alpha and ptost > alpha:
         combined_outcome = 'diff_no_eqv'
 
     if pttest > alpha and ptost <= alpha:
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f5003cd..cabad57 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1233,7 +1233,7 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-        if pttest < alpha and ptost > alpha:
+        if pttest <= alpha and ptost > alpha:
             combined_outcome = 'diff_no_eqv'
 
         if pttest > alpha and ptost <= alpha:
-- 
2.43.0


From 97ca72d3e23580f185721561a308f5bb5d7080cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:00 +0000
Subject: [PATCH 43/76] fix: lag-1 autocorrelation coefficient is the
 least-squares slope

---
 metcalcpy/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index cabad57..e8214bb 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1388,4 +1388,4 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
-    return sx * sy / (sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
+    return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From e0447cc3b630cceae3a00e2880bcd1d88bfa14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:02 +0000
Subject: [PATCH 44/76] fix: standard errors of means and sums ignore missing
 members

---
 metcalcpy/util/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index e8214bb..af58767 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -868,10 +868,10 @@ def compute_std_err_from_mean(data):
     Returns: Standard Error, variance inflation factor flag, AR1 coefficient, the length of data
     """
     ratio_flag = 0
-    variance = st.variance(data)
+    data_without_non = [x for x in data if x is not None and not np.isnan(x)]
+    variance = st.variance(data_without_non) if len(data_without_non) > 2 else 0.0
 
-    number_of_none = sum(x is None for x in data)
-    if variance > 0.0 and (len(data) - number_of_none) > 2:
+    if variance > 0.0:
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
 
@@ -892,7 +892,7 @@ def compute_std_err_from_mean(data):
             variance_inflation_factor = 1.0
 
         # Compute the Standard Error using the variance inflation factor.
-        std_err = variance_inflation_factor * math.sqrt(variance) / math.sqrt(len(data))
+        std_err = variance_inflation_factor * math.sqrt(variance) / math.sqrt(len(data_without_non))
 
     else:
         std_err = 0.0
@@ -985,8 +985,9 @@ def compute_std_err_from_sum(data):
     """
     std_err = compute_std_err_from_mean(data)
 
-    # multiply Standard Error by data size
-    return std_err[0] * len(data), std_err[1], std_err[2], std_err[3]
+    # multiply Standard Error by the number of usable values
+    size = sum(x is not None and not np.isnan(x) for x in data)
+    return std_err[0] * size, std_err[1], std_err[2], std_err[3]
 
 
 def convert_lon_360_to_180(longitude):
-- 
2.43.0


From 6c3e1b0d053c7e18db683bf27550f72bd7869109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:02 +0000
Subject: [PATCH 45/76] fix: inflated standard error of the median ignores
 missing members

---
 metcalcpy/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index af58767..6ff38ae 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -965,8 +965,8 @@ def compute_std_err_from_median_variance_inflation_factor(data):
             variance_inflation_factor = 1.0
 
         # Compute the Standard Error using the variance inflation factor.
-        iqr = stats.iqr(data, interpolation='linear')
-        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(len(data)))
+        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) \
+                  / (1.349 * math.sqrt(len(data) - number_of_none))
 
     else:
         std_err = 0.0
-- 
2.43.0


From a345df6427abc0b145179e4b1cbac63f461e9b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:02 +0000
Subject: [PATCH 46/76] fix: autocorrelation of constant and trending series
 does not fail

---
 metcalcpy/util/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 6ff38ae..7b6b01c 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -877,7 +877,7 @@ def compute_std_err_from_mean(data):
 
         # Compute a variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else 1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         # If necessary, try a different arima method, or just set RATIO to one.
@@ -951,7 +951,7 @@ def compute_std_err_from_median_variance_inflation_factor(data):
 
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
+        ratio = (1 + ar_1) / (1 - ar_1) if ar_1 != 1 else 1.0
 
         # Check for a zero RATIO, that will then be operated on by SQRT.
         if ratio < 0.0:
@@ -1389,4 +1389,7 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
+    # the series is too short or constant
+    if sx * sx == (n - 1) * sxx:
+        return None
     return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From 9d40a832ab57a6a101c4274c7b48c96c4b653f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:02 +0000
Subject: [PATCH 47/76] fix: autocorrelation function of empty and constant
 series is missing

---
 metcalcpy/util/correlation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 5f002b7..5f5703e 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -311,7 +311,10 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     size = np.size(x)
 
     # calculate mean of the array excluding None
-    mean_val = mean(remove_none(x))
+    usable = remove_none(x)
+    if len(usable) == 0:
+        return None
+    mean_val = mean(usable)
 
     # calculate lag if not provided
     if lag_max is None:
@@ -319,6 +322,8 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     lag_max = int(min(lag_max, size - 1))
 
     cov_0 = autocovariance(x, size, 0, mean_val)
+    if acf_type == 'correlation' and cov_0 == 0:
+        return None
     for i in range(lag_max+1):
         cov = autocovariance(x, size, i, mean_val)
         if acf_type == 'covariance':
-- 
2.43.0


From ad70da9fe15836a5c3ec13dad90282fc79a7775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:02 +0000
Subject: [PATCH 48/76] fix: revision statistics of missing values are missing

---
 metcalcpy/util/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 7b6b01c..07c5c3d 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1313,6 +1313,10 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
 
     data_for_stats.pop()
 
+    # no usable values
+    if len(remove_none(data_for_stats)) == 0:
+        return result
+
     # subtract mean from each value
     mean_val = st.mean(remove_none(data_for_stats))
 
-- 
2.43.0


From 4b88cf2055285526813836a9b940d6aecd512c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:19 +0000
Subject: [PATCH 49/76] fix: standard errors of series whose lag-1 coefficient
 is undefined

---
 metcalcpy/util/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 07c5c3d..e7cc794 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -874,6 +874,8 @@ def compute_std_err_from_mean(data):
     if variance > 0.0:
         # Compute the first order auto-correlation coefficient.
         ar_1 = autocor_coef(data)
+        if ar_1 is None:
+            ar_1 = 0.0
 
         # Compute a variance inflation factor
         # (having removed that portion of the time series that was correlated).
@@ -948,6 +950,8 @@ def compute_std_err_from_median_variance_inflation_factor(data):
         # represents excusions from the median of the data.
 
         ar_1 = autocor_coef(data)
+        if ar_1 is None:
+            ar_1 = 0.0
 
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
-- 
2.43.0


From 2bd00377b1ce623e44a5934bf58573f56e0da8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:19 +0000
Subject: [PATCH 50/76] fix: scorecard significance has no gap at -100

---
 metcalcpy/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f128f55..b9b9de7 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -413,7 +413,7 @@ class Scorecard:
                 derived_stat = -0.99
             elif ds999 <= -1 and ds999 > -100.0:
                 derived_stat = -1
-            elif ds999 < -100.0:
+            elif ds999 <= -100.0:
                 derived_stat = -1
         return derived_stat
 
-- 
2.43.0


From f3cf74c65a09b3268fc461d97636f04fdb592597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:30 +0000
Subject: [PATCH 51/76] fix: revision statistics of constant series have no
 runs test

---
 metcalcpy/util/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index e7cc794..f46a6cf 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1338,7 +1338,11 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
     # qnorm((1 + 0.05)/2) = 0.06270678
     result['auto_cor_p'] = round(0.06270678 / math.sqrt(np.size(data_for_stats)), 2)
 
-    p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    try:
+        p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+    except ZeroDivisionError:
+        # the series is too short or constant
+        p_value = None
     if p_value is not None:
         result['ww_run'] = round(p_value, 2)
 
-- 
2.43.0


From 9da22476695f87e0fda48f4471acbd5686f7b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:27 +0000
Subject: [PATCH 52/76] fix: reject unsorted knots of a piecewise linear
 function

---
 metcalcpy/piecewise_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/piecewise_linear.py b/metcalcpy/piecewise_linear.py
index 5fd31be..c068533 100644
--- a/metcalcpy/piecewise_linear.py
+++ b/metcalcpy/piecewise_linear.py
@@ -40,7 +40,7 @@ class PiecewiseLinear():
         len_x = len(x_domain)
         if len_x < 2:
             raise IncompatibleLengths('Length of xdomain must be at least 2.')
-        if np.any(np.diff(x_domain)) < 0:
+        if np.any(np.diff(x_domain) < 0):
             print("X_domain (in {}) is {}".format(xunits, x_domain))
             raise UnsortedArray('Xdomain must be sorted in ascending order.')
         len_y = len(y_range)
-- 
2.43.0


From e1ab409d88b627743f6594d0b57f215172128d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:27 +0000
Subject: [PATCH 53/76] fix: average over the requested latitude band

---
 metcalcpy/pre_processing/directional_means.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/directional_means.py b/metcalcpy/pre_processing/directional_means.py
index 1db3c88..579e03e 100644
--- a/metcalcpy/pre_processing/directional_means.py
+++ b/metcalcpy/pre_processing/directional_means.py
@@ -57,6 +57,6 @@ def meridional_mean(dat, lat1, lat2, dimvar='latitude'):
     elif lat1 == lat2:
         raise ValueError('lat1 is equal to lat2, but it must be less than lat2')
 
-    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True)))
+    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True)))
 
-    return dat.where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True).weighted(wgts).mean(dimvar)
+    return dat.where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True).weighted(wgts).mean(dimvar)
-- 
2.43.0


From 567b3f0ba567e8efab31bb8e7446754b1ded6c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:27 +0000
Subject: [PATCH 54/76] fix: use the dimension of the first field in the zonal
 wave covariance

---
 metcalcpy/pre_processing/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index d75cc3f..346a59a 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -251,7 +251,7 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     * Check for consistency between dat1 and dat2 and throw errors
     """
 
-    nlons = dat1[dimvar].size
+    nlons = dat1[dimvar1].size
 
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
-- 
2.43.0


From 25fd591664b44162540191b2d6a97c6fca0df0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:46 +0000
Subject: [PATCH 55/76] fix: place selected wave numbers before the inverse
 transform of zonal wave contributions

---
 metcalcpy/pre_processing/waves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index 346a59a..17ba7a2 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -183,7 +183,7 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
     --------
     zonal_wave_coeffs
     """
-    fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
+    fc = zonal_wave_coeffs(dat, dimvar, fftpkg=fftpkg)
 
     if (waves is None):
         waves = fc.lon_wavenum.values
@@ -198,7 +198,7 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
         for k in waves:
             mask = np.isnan(fc.where(fc.lon_wavenum != k))
 
-            kcont = scipy.fft.irfft((fc*mask).values, axis=fc.get_axis_num('lon_wavenum'))
+            kcont = scipy.fft.irfft((fc*mask).values, n=dat[dimvar].size, axis=fc.get_axis_num('lon_wavenum'))
             recons.append(kcont[..., np.newaxis])
 
         recons = np.concatenate(recons, axis=-1)
-- 
2.43.0


From cc17f29c0720434c60cb9e8471cc9a85a6de6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:01 +0000
Subject: [PATCH 56/76] fix: saving or showing a second comparison image failed
 on the truth of an array

---
 metcalcpy/compare_images.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/compare_images.py b/metcalcpy/compare_images.py
index 2316630..acb200f 100644
--- a/metcalcpy/compare_images.py
+++ b/metcalcpy/compare_images.py
@@ -117,7 +117,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imwrite(path_to_file, self.thresh)
 
@@ -126,7 +126,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imshow("Threshold", self.thresh)
         if wait_for_key_event:
@@ -195,7 +195,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imwrite(path_to_file, self.diff_in_image_2)
 
@@ -204,7 +204,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imshow('Difference in image 2', self.diff_in_image_2)
         if wait_for_key_event:
-- 
2.43.0


From 29e8e2175942dc701b35c6c8e0200328241c82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:01 +0000
Subject: [PATCH 57/76] fix: a gap in the series overwrote the first value of
 the 1-2-1 smoother

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8e82c25..8379c06 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -329,7 +329,7 @@ def smooth121_1D(array_in):
 
     for i in np.arange(0, len(temp), 1):
         if np.isnan(temp[i]):
-            array_out[0] = np.nan
+            array_out[i] = np.nan
         elif i == 0 or np.isnan(temp[i-1]):
             array_out[i] = (3*temp[i]+temp[i+1])/4
         elif i == (len(temp)-1) or np.isnan(temp[i+1]):
-- 
2.43.0


From cfbd423cdf701c96d1445d3df43a0aadd17d9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:43 +0000
Subject: [PATCH 58/76] fix: the upper Nyquist row of a full spectrum was left
 zero for all but the first entry

---
 metcalcpy/contributed/spacetime/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8379c06..c11eb4d 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -121,7 +121,7 @@ def mjo_cross_segment(XX, YY, opt=False):
             STC[1, :NT, 1:NL + 1] = PY
             STC[2, :NT, 1:NL + 1] = CXY
             STC[3, :NT, 1:NL + 1] = QXY
-            STC[0, NT, :] = STC[0, 0, :]
+            STC[:, NT, :] = STC[:, 0, :]
             STC[:, :, 0] = STC[:, :, NL]
 
     return STC
-- 
2.43.0


From 69afccfc32314336d99c174c74b81c56a7fdb104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:20 +0000
Subject: [PATCH 59/76] fix: use the given equivalent depth when only one bound
 of the wave filter is set

---
 metcalcpy/contributed/spacetime/spacetime.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index c11eb4d..0ca38d3 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -513,16 +513,11 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         # Set things inside the wavenumber range to zero, this should be somewhat unusual
         fftData[:, iMax + 1:iMin] = 0
 
-    c = np.empty([2])
-    if hMin == -9999:
-        c[0] = np.nan
-        if hMax == -9999:
-            c[1] = np.nan
-    else:
-        if hMax == -9999:
-            c[1] = np.nan
-        else:
-            c = np.sqrt(g * np.array([hMin, hMax]))
+    c = np.full(2, np.nan)
+    if hMin != -9999:
+        c[0] = np.sqrt(g * hMin)
+    if hMax != -9999:
+        c[1] = np.sqrt(g * hMax)
 
     spc = 24 * 3600. / (2 * pi * obsPerDay)  # seconds per cycle
 
-- 
2.43.0


From 4c3deaf2bfabe45296b08db6aec7ff4409c12430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:28 +0000
Subject: [PATCH 60/76] fix: keep the lead and line axes of the activity skill
 when one has a single member

---
 metcalcpy/contributed/tropical_diagnostics/ccew_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index 8b0c50f..babcf8d 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -212,7 +212,7 @@ def wave_skill(act):
     :rtype:
     """
     nfchr, nlines, ntim = act.shape
-    skill = act[:, 1::, 0].squeeze()
+    skill = act[:, 1::, 0].copy()
 
     for ff in np.arange(nfchr):
         for ll in np.arange(nlines-1):
-- 
2.43.0


From 2dfd5607e6bd2aa31e508a5b2e06c5b8e0069c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:59:54 +0000
Subject: [PATCH 61/76] fix: convert coordinate surfaces to the units of the
 levels, not the reverse

---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 8cbba86..dd98cdd 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -146,8 +146,8 @@ def vertical_interp(fieldname, config,
     try:
         logging.debug(coordinate_surfaces.attrs['units'])
         logging.debug(config['vertical_level_units'])
-        length_convert = float((ureg.Quantity(1, config['vertical_level_units'])
-                       / ureg.Quantity(1, coordinate_surfaces.attrs['units'])).to_base_units())
+        length_convert = float((ureg.Quantity(1, coordinate_surfaces.attrs['units'])
+                       / ureg.Quantity(1, config['vertical_level_units'])).to_base_units())
     except pint.errors.UndefinedUnitError:
         logging.warning('Unknown unit:' + coordinate_surfaces.attrs['units'])
         length_convert = 1
-- 
2.43.0


From cecc3e8c1f4975996edc3e6009a8b413e64f83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:59:54 +0000
Subject: [PATCH 62/76] fix: interpolate to a level that coincides with a
 coordinate surface

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index dd98cdd..56ffc63 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -167,7 +167,7 @@ def vertical_interp(fieldname, config,
 
         distances = eta - length_convert * coordinate_surfaces
         above = distances < 0
-        below = distances > 0
+        below = distances >= 0
 
         """
         Compute weights for linear interpolation
-- 
2.43.0


From fdf43a1f8fba9d4fb9780031c46cbdc1d9d4ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:59:54 +0000
Subject: [PATCH 63/76] fix: keep the weight of the top level for targets just
 below it

---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 56ffc63..fa17fc2 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -201,7 +201,8 @@ def vertical_interp(fieldname, config,
         # where top most layer is below eta
         layer_below = below.loc[{lev_dim: vertical_coord[nlev - 1]}]
         weights.loc[{lev_dim: vertical_coord[nlev - 1]}] \
-            = xr.where(layer_below, 1, 0)
+            = xr.where(layer_below, 1,
+                       weights.loc[{lev_dim: vertical_coord[nlev - 1]}])
 
         """
         Compute weighted sum
-- 
2.43.0


From 2615387e7831527c2a2e6e613c87c07a55042300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:04:19 +0000
Subject: [PATCH 64/76] fix: find the layer above a surface that lies exactly
 on a pressure level

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index fa17fc2..709b3e1 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -400,7 +400,7 @@ def height_from_pressure(config,
         surface_mask.loc[{lev_dim: pressure_coord[k]}] \
             = np.logical_and(
             pressure.loc[{lev_dim: pressure_coord[k - 1]}]
-            > pressure_convert * surface_pressure,
+            >= pressure_convert * surface_pressure,
             pressure.loc[{lev_dim: pressure_coord[k]}]
             < pressure_convert * surface_pressure)
 
-- 
2.43.0


From 8345a9f9c3b7761e0d381d01c96eb572f810b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:04:38 +0000
Subject: [PATCH 65/76] fix: start the lowest layer at the surface instead of
 the pressure level below it

---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 709b3e1..cef5aa6 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -376,7 +376,8 @@ def height_from_pressure(config,
         layer_thickness.loc[{lev_dim:pressure_coord[k]}] \
             = gas_constant_gravity_ratio \
             * virtual_temperature.loc[{lev_dim: pressure_coord[k]}] \
-            * np.log(pressure.loc[{lev_dim: pressure_coord[k - 1]}] \
+            * np.log(np.minimum(pressure.loc[{lev_dim: pressure_coord[k - 1]}],
+                                pressure_convert * surface_pressure) \
             / pressure.loc[{lev_dim: pressure_coord[k]}])
 
     layer_thickness = layer_thickness.fillna(0)
-- 
2.43.0


From 72c13fc71cd6850f6630ce6445454caf6b0665db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:17 +0000
Subject: [PATCH 66/76] fix: use the configured significance level for the
 bounds of plain curves

---
 metcalcpy/agg_eclv.py           | 1 +
 metcalcpy/agg_stat.py           | 1 +
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index eed39eb..91c81bb 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -177,6 +177,7 @@ class AggEclv:
                         num_iterations=self.params['num_iterations'],
                         num_threads=self.params['num_threads'],
                         ci_method=self.params['method'],
+                        alpha=self.params.get('alpha', 0.05),
                         save_data=False,
                         block_length=block_length,
                         eclv=True
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 64e012c..239b535 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -834,6 +834,7 @@ class AggStat:
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05),
                     save_data=has_derived_series,
                     block_length=block_length)
 
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 7514461..5547e9d 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -234,7 +234,8 @@ class AggStatBootstrap:
                     stat_func=self._calc_stats,
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
-                    ci_method=self.params['method'])
+                    ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05))
 
             except KeyError as err:
                 results = BootstrapResults(None, None, None)
-- 
2.43.0


From 8d74f94d0465e04cc00646b308c73eb31a6cb977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:17 +0000
Subject: [PATCH 67/76] fix: add the base rate to the economic value curve when
 requested

---
 metcalcpy/agg_eclv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 91c81bb..085b7e3 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -85,7 +85,7 @@ class AggEclv:
             self.add_base_rate = self.params['add_base_rate']
         else:
             self.add_base_rate = 0
-        if self.add_base_rate != 0 or self.add_base_rate != 1:
+        if self.add_base_rate != 0 and self.add_base_rate != 1:
             self.add_base_rate = 0
 
         try:
@@ -125,7 +125,8 @@ class AggEclv:
             stat_values = []
             for row in values:
                 stat_value = [
-                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'], self.steps)]
+                    calculate_eclv(row, self.column_names, self.current_thresh, self.params['line_type'], self.steps,
+                                   self.add_base_rate)]
                 stat_values.append(stat_value)
 
         else:
@@ -236,7 +237,7 @@ class AggEclv:
             for field_ind, field in enumerate(series_val.keys()):
                 filter_value = point[field_ind]
                 filter_list = [filter_value]
-                out_frame_local[field] = [filter_value] * (len(self.steps))
+                out_frame_local[field] = [filter_value] * (len(self.steps) + self.add_base_rate)
                 for i, filter_val in enumerate(filter_list):
                     if is_string_integer(filter_val):
                         filter_list[i] = int(filter_val)
-- 
2.43.0


From 6a69041ec54689649e4db6c8431e5b3da6c9440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:17 +0000
Subject: [PATCH 68/76] fix: write each bootstrapped statistic into its own
 row, also for groups and numbers

---
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 5547e9d..3109df1 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -192,7 +192,8 @@ class AggStatBootstrap:
                                     filter_list[i] = float(filter_val)
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
-                            out_frame_filter.append((out_frame[field].isin(filter_list)))
+                            out_frame_filter.append((out_frame[field] == filter_value))
+                        out_frame_filter.append((out_frame['stat_name'] == stat_upper))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 27e4f847ef84167da3feae02961ac1056480e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:17 +0000
Subject: [PATCH 69/76] fix: draw cases of the current independent value only

---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 3109df1..a20b2d4 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -118,12 +118,12 @@ class AggStatBootstrap:
             if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in self.input_data.columns:
                 fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
 
-            cases = []
             out_frame = self._init_out_frame(all_fields_values.keys(), all_points)
             point_to_distrib = {}
 
             # run the bootstrap flow for each independent variable value
             for indy_val in indy_vals:
+                cases = []
                 # extract the records for the current indy value
                 if is_string_integer(indy_val):
                     filtered_by_indy_data = \
-- 
2.43.0


From b36572e61219e4b6707a2d04a093a7c8176afafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:17 +0000
Subject: [PATCH 70/76] fix: estimate only from rows of the requested forecast
 variable

---
 metcalcpy/agg_stat_bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index a20b2d4..120339a 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -194,6 +194,9 @@ class AggStatBootstrap:
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == filter_value))
                         out_frame_filter.append((out_frame['stat_name'] == stat_upper))
+                        # add fcst var
+                        if fcst_var is not None:
+                            all_filters.append((filtered_by_indy_data['fcst_var'].isin([fcst_var])))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 8b7a505188d4f76252506850a7fc7cdf8ec64da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:29 +0000
Subject: [PATCH 71/76] fix: joined values without rows for a valid time and
 lead are skipped

Aggregating joined series values failed with a TypeError when one
combination of valid time and lead time had no rows.
---
 metcalcpy/util/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f46a6cf..f833864 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -494,6 +494,9 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                                 & (input_data_frame.fcst_lead == lead)
                                 & (input_data_frame[series_var].isin(single_values))
                                 ]
+                            # nothing to aggregate for this valid and lead
+                            if rows_for_agg.empty:
+                                continue
                             rows_indexes = rows_for_agg.index.values
                             # reset indexes
                             rows_for_agg.reset_index(inplace=True, drop=True)
@@ -530,6 +533,9 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             (input_data_frame.fcst_valid_beg == valid)
                             & (input_data_frame[series_var].isin(single_values_int))
                             ]
+                        # nothing to aggregate for this valid
+                        if rows_for_agg.empty:
+                            continue
 
                         rows_indexes = rows_for_agg.index.values
 
-- 
2.43.0


From 9344c7f7ca21e54171b43b8e4b01f885bb22ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:30 +0000
Subject: [PATCH 72/76] fix: aggregated rows of joined values are kept

Rows were dropped by labels that were not unique after appending an
aggregated row, so rows aggregated earlier were dropped as well.
---
 metcalcpy/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f833864..e1448bd 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -515,7 +515,7 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             rows_for_agg.at[0, series_var] = series_val
 
                             # add it to the result
-                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]])
+                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]], ignore_index=True)
 
                     else:
                         # if the aggregated field is 'fcst_lead'
@@ -567,7 +567,7 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             rows_for_agg.loc[0, series_var] = sep_val[0]
 
                         # add it to the result
-                        input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
+                        input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]], ignore_index=True)
 
     return input_data_frame
 
-- 
2.43.0


From 1e24903be98f7b2d5013ecb266d88a4d9830ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:30 +0000
Subject: [PATCH 73/76] fix: the name of joined lead times can be stored

A text was written into an integer column, which is an error when
warnings are errors.
---
 metcalcpy/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index e1448bd..7eb07dd 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -562,9 +562,9 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                         # different versions of pandas may generate a SettingWithCopy Warning
                         # For pandas 1.2, 1.3, and 1.5, use the df.at, but for pandas 1.4, use the df.loc.
                         try:
-                            rows_for_agg.at[0, series_var] = sep_val[0]
+                            rows_for_agg.at[0, series_var] = single_values_int[0]
                         except:
-                            rows_for_agg.loc[0, series_var] = sep_val[0]
+                            rows_for_agg.loc[0, series_var] = single_values_int[0]
 
                         # add it to the result
                         input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]], ignore_index=True)
-- 
2.43.0


From bdb45dc3f70dcf40382f2c383d31520becce77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:30 +0000
Subject: [PATCH 74/76] fix: aggregation and equalization steps restore the
 warning policy

Warnings stayed escalated to errors after joined values were aggregated
and after an axis was equalized.
---
 metcalcpy/agg_stat_eqz.py | 3 ---
 metcalcpy/sum_stat.py     | 3 ---
 metcalcpy/util/utils.py   | 2 --
 3 files changed, 8 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0102389..b780bd5 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -36,7 +36,6 @@ import sys
 import logging
 import pandas as pd
 import yaml
-import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
@@ -105,8 +104,6 @@ class AggStatEventEqz:
             Returns:
                 A data frame that contains equalized records
         """
-        warnings.filterwarnings('error')
-
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
             for series_var, series_var_vals in self.params['series_val_' + axis].items():
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1b7030d..81aabac 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -38,7 +38,6 @@ import time
 import logging
 import yaml
 import pandas as pd
-import warnings
 from inspect import signature
 
 from metcalcpy import GROUP_SEPARATOR
@@ -184,8 +183,6 @@ class SumStat:
         Args:
             axis - y1 or y1 axis
         """
-        warnings.filterwarnings('error')
-
         # check if indy_vals have a field that need to be aggregated - the field with ';'
         has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
 
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 7eb07dd..07576c6 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -472,8 +472,6 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 Pandas DataFrame with aggregates statistics
             """
 
-    warnings.filterwarnings('error')
-
     # get unique values for valid date/time and lead time
     unique_valid = input_data_frame.fcst_valid_beg.unique()
     unique_lead = input_data_frame.fcst_lead.unique()
-- 
2.43.0


From cf084042e80c2c1597bb408e775a0cd5bbaf87ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:30 +0000
Subject: [PATCH 75/76] fix: the configured series are not changed by the
 aggregation

The independent values were added to the series of the configuration
when a joined independent value was aggregated.
---
 metcalcpy/agg_stat.py | 2 +-
 metcalcpy/sum_stat.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 239b535..a695d16 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1088,7 +1088,7 @@ class AggStat:
                         point_data = aggregate_field_values(series_var_val, point_data, self.params['line_type'])
                     elif indy_val and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val, point_data,
                                                             self.params['line_type'])
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 81aabac..5df2639 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -229,7 +229,7 @@ class SumStat:
                                                             self.params['line_type'])
                     elif ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val,
                                                             point_data,
-- 
2.43.0


From 94edee23126c89021397eb57169786a7ee30e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:30 +0000
Subject: [PATCH 76/76] fix: joined series values are aggregated

The characters of the names of the series variables were searched for
the separator instead of their values.
---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index a695d16..d8b0572 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1084,7 +1084,7 @@ class AggStat:
 
                     # aggregate point data
                     series_var_val = self.params['series_val_' + axis]
-                    if any(';' in series_val for series_val in series_var_val):
+                    if any(';' in value for values in series_var_val.values() for value in values):
                         point_data = aggregate_field_values(series_var_val, point_data, self.params['line_type'])
                     elif indy_val and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-- 
2.43.0

