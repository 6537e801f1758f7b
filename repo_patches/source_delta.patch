From c8fb1a63d4ac73a0874a2020f806159e497a5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/15] fix: late_index_bimod transforms alpha parameters with
 their own bounds

The alpha (early) values were overwritten by the beta (late) values, so the
late_index alpha parameters were silently replaced by the beta parameters.
---
 diffmah/diffmahpop_kernels/late_index_bimod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/late_index_bimod.py b/diffmah/diffmahpop_kernels/late_index_bimod.py
index cce4680..79856f4 100644
--- a/diffmah/diffmahpop_kernels/late_index_bimod.py
+++ b/diffmah/diffmahpop_kernels/late_index_bimod.py
@@ -35,12 +35,12 @@ def _pred_late_index_late(params, lgm_obs):
 
 @jjit
 def get_bounded_late_index_params(u_params):
-    late_u_params = [
+    early_u_params = [
         getattr(u_params, key)
         for key in late_index_alpha.DEFAULT_LATE_INDEX_U_PARAMS._fields
     ]
-    late_u_params = late_index_alpha.LateIndex_UParams(*late_u_params)
-    late_params = late_index_alpha.get_bounded_late_index_params(late_u_params)
+    early_u_params = late_index_alpha.LateIndex_UParams(*early_u_params)
+    early_params = late_index_alpha.get_bounded_late_index_params(early_u_params)
 
     late_u_params = [
         getattr(u_params, key)
@@ -49,24 +49,24 @@ def get_bounded_late_index_params(u_params):
     late_u_params = late_index_beta.LateIndex_UParams(*late_u_params)
     late_params = late_index_beta.get_bounded_late_index_params(late_u_params)
 
-    params = LateIndex_Params(*late_params, *late_params)
+    params = LateIndex_Params(*early_params, *late_params)
     return params
 
 
 @jjit
 def get_unbounded_late_index_params(params):
-    late_pnames = late_index_alpha.LateIndex_Params._fields
+    early_pnames = late_index_alpha.LateIndex_Params._fields
     late_pnames = late_index_beta.LateIndex_Params._fields
 
-    late_params = [getattr(params, key) for key in late_pnames]
-    late_params = late_index_alpha.LateIndex_Params(*late_params)
-    late_u_params = late_index_alpha.get_unbounded_late_index_params(late_params)
+    early_params = [getattr(params, key) for key in early_pnames]
+    early_params = late_index_alpha.LateIndex_Params(*early_params)
+    early_u_params = late_index_alpha.get_unbounded_late_index_params(early_params)
 
     late_params = [getattr(params, key) for key in late_pnames]
     late_params = late_index_beta.LateIndex_Params(*late_params)
     late_u_params = late_index_beta.get_unbounded_late_index_params(late_params)
 
-    u_params = LateIndex_UParams(*late_u_params, *late_u_params)
+    u_params = LateIndex_UParams(*early_u_params, *late_u_params)
     return u_params
 
 
-- 
2.43.0


From 0d35744d5737bb3ca18ffd555c53c1b4581975c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 02/15] fix: draw t_peak independently of the scatter in the
 MAH parameters

mc_diffmah_params_singlecen/singlesat passed the same key to the t_peak draw
and to the split producing the key of the early-type scatter, so the rank of
t_peak fully determined the logm0 residual of every early-forming halo.
---
 diffmah/diffmahpop_kernels/mc_bimod_cens.py | 7 ++++---
 diffmah/diffmahpop_kernels/mc_bimod_sats.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/mc_bimod_cens.py b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
index eae8bc4..d421450 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_cens.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
@@ -185,11 +185,13 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlecen(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    early_key, late_key, mean_key = jran.split(ran_key, 3)
+
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, mean_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, mean_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +201,6 @@ def mc_diffmah_params_singlecen(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
diff --git a/diffmah/diffmahpop_kernels/mc_bimod_sats.py b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
index d785a60..ad988c8 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_sats.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
@@ -185,11 +185,13 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlesat(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    early_key, late_key, mean_key = jran.split(ran_key, 3)
+
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, mean_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, mean_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +201,6 @@ def mc_diffmah_params_singlesat(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
-- 
2.43.0


From 2f05b3e295a164dcae920bb7c4e47fdbb3946b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 03/15] fix: points below lgm_min are never used as
 diffmah_fitter targets

Masses below the threshold were clipped to 10**lgm_min + EPSILON, which
exceeds the threshold (visibly so in float64 for lgm_min <~ 7.3), so they
passed the log_mah > lgm_min cut and were fit as if they were data.
---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 8134b52..0820693 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -241,6 +241,9 @@ def _get_clipped_log_mah(mah, lgm_min):
     msk = mah <= 10**lgm_min
     clip = EPSILON + 10**lgm_min
     clipped_log_mah = np.log10(np.where(msk, clip, mah))
+    if np.isfinite(lgm_min):
+        # EPSILON must not lift clipped points above the mass threshold
+        clipped_log_mah = np.where(msk, lgm_min, clipped_log_mah)
     return clipped_log_mah
 
 
-- 
2.43.0


From 4c08a92b2a9bae4faa0537827e01287f6caa025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 04/15] fix: Adam fits that stop early at the loss tolerance
 are not flagged as failed

fit_terminates is documented to be 0 only when NaN or inf is encountered, but
it was also 0 when the fit stopped early because the tolerance was reached,
in which case params_arr was padded with rows of zeros never visited.
---
 diffmah/fitting_helpers/fit_utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/diffmah/fitting_helpers/fit_utils.py b/diffmah/fitting_helpers/fit_utils.py
index 3715794..5b34387 100644
--- a/diffmah/fitting_helpers/fit_utils.py
+++ b/diffmah/fitting_helpers/fit_utils.py
@@ -93,15 +93,16 @@ def jax_adam_wrapper(
     else:
         p0 = params_init
 
+    fit_terminates = 1
     if loss_init > tol:
         fit_results = _jax_adam_wrapper(
             loss_and_grad_func, p0, loss_data, n_step, step_size=step_size, tol=tol
         )
+        loss_arr = fit_results[2]
+        reached_tol = len(loss_arr) > 0 and loss_arr[-1] < tol
+        if len(loss_arr) < n_step and not reached_tol:
+            fit_terminates = 0
 
-    if len(fit_results[2]) < n_step:
-        fit_terminates = 0
-    else:
-        fit_terminates = 1
     return (*fit_results, fit_terminates)
 
 
@@ -185,7 +186,7 @@ def _jax_adam_wrapper(
             if loss < tol:
                 best_fit_params = p
                 loss_arr = np.array(loss_collector)
-                return best_fit_params, loss, loss_arr, params_arr
+                return best_fit_params, loss, loss_arr, params_arr[: istep + 1, :]
 
     loss_arr = np.array(loss_collector)
     indx_best = np.nanargmin(loss_arr)
-- 
2.43.0


From c3c6cd773cb3124bee0bb799957186d148e0fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 05/15] fix: load_flat_hdf5 keeps every column of a nested
 dataset

Column names were taken to be the second component of the hdf5 path, so all
columns of a dataset such as group/subgroup were stored under one key.
---
 diffmah/data_loaders/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index 154a34d..2beb09b 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -58,7 +58,7 @@ def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
             if dataset is None:
                 key_out = key_in
             else:
-                key_out = key_in.split("/")[1]
+                key_out = key_in[len(dataset) + 1 :]
 
             if iend is None:
                 data[key_out] = hdf[key_in][istart:]
-- 
2.43.0


From 0c62c885bbc27a3d7a40e9216c62e2c7ee31695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:56 +0000
Subject: [PATCH 06/15] fix: trimmed_mean keeps points lying exactly at the
 trimming percentiles

With strict inequalities p_trim=0 dropped the extrema and samples with ties
at the percentiles gave NaN, unlike scipy.stats.mstats.trimmed_mean.
---
 diffmah/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 3b48e94..7d3a452 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -157,7 +157,7 @@ def trimmed_mean(x, p_trim):
     """
     xlo = jnp.percentile(x, p_trim * 100.0)
     xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
     trimmed_mean = jnp.sum(x * weights)
@@ -185,7 +185,7 @@ def trimmed_mean_and_variance(x, p_trim):
     """
     xlo = jnp.percentile(x, p_trim * 100.0)
     xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
 
-- 
2.43.0


From 008f00715cb91143510070eeff5e29ecce47ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 07/15] fix: load_diffmahpop_targets counts samples in the
 directory it was given

The number of samples was always read from a hard-coded path.
---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 3f9677d..36bcebd 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -30,7 +30,7 @@ def load_diffmahpop_targets(
 ):
     """Load target mean and variance along with subset of underlying MAH samples"""
     cendata, satdata = _load_diffmahpop_mu_var_targets(drn=drn)
-    cendata, satdata = _add_n_sample_column(cendata, satdata)
+    cendata, satdata = _add_n_sample_column(drn, cendata, satdata)
     cendata, satdata = _attach_samples(
         drn,
         cendata,
@@ -70,7 +70,7 @@ def _load_diffmahpop_mu_var_targets(drn):
     return cendata, satdata
 
 
-def _add_n_sample_column(cendata, satdata):
+def _add_n_sample_column(drn, cendata, satdata):
 
     n_cens = len(cendata["lgm_obs"])
     n_sats = len(satdata["lgm_obs"])
@@ -80,14 +80,14 @@ def _add_n_sample_column(cendata, satdata):
 
     for ih in range(n_cens):
         fn = os.path.join(
-            TASSO_DRN, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
+            drn, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
         )
         all_samples_cens = np.load(fn)
         cendata["n_samples"][ih] = all_samples_cens.shape[0]
 
     for ih in range(n_sats):
         fn = os.path.join(
-            TASSO_DRN, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
+            drn, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
         )
         all_samples_sats = np.load(fn)
         satdata["n_samples"][ih] = all_samples_sats.shape[0]
-- 
2.43.0


From 1fe5c716bedd429a3e075a43043d3c5f9954686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 08/15] fix: load_diffmahpop_targets evaluates sampled halos
 with the current mah_halopop

mah_halopop takes t_peak as one of the diffmah parameters; the loader still
passed it separately and raised a TypeError for any input.
---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 36bcebd..8694f01 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -170,6 +170,7 @@ def _attach_samples(
         "logtc_samples",
         "early_index_samples",
         "late_index_samples",
+        "t_peak_samples",
     )
 
     n_times = cendata["t_table"].shape[1]
@@ -180,9 +181,8 @@ def _attach_samples(
             [cendata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = cendata["t_table"][ih, :]
-        t_peak_cens = cendata["t_peak_samples"][ih]
         __, log_mah_cens = mah_halopop(
-            mah_params_cens, t_table_sample, t_peak_cens, np.log10(13.79)
+            mah_params_cens, t_table_sample, np.log10(13.79)
         )
         log_mah_cens_rescaled = rescale_target_log_mahs(
             log_mah_cens, cendata["lgm_obs"][ih]
@@ -197,9 +197,8 @@ def _attach_samples(
             [satdata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = satdata["t_table"][ih, :]
-        t_peak_sats = satdata["t_peak_samples"][ih]
         __, log_mah_sats = mah_halopop(
-            mah_params_sats, t_table_sample, t_peak_sats, np.log10(13.79)
+            mah_params_sats, t_table_sample, np.log10(13.79)
         )
         log_mah_sats_rescaled = rescale_target_log_mahs(
             log_mah_sats, satdata["lgm_obs"][ih]
-- 
2.43.0


From 1c486f557ab5857ddb8f1837aa23114f923c4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:34 +0000
Subject: [PATCH 09/15] fix: CDF of central t_peak runs from 0 to 1, it is not
 a density per unit time

---
 diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
index ef4dcb8..e1d7b09 100644
--- a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
+++ b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
@@ -125,8 +125,8 @@ def _t_peak_cens_pdf_kern(params, t_peak, t_0):
 @jjit
 def _t_peak_cens_cdf_kern(params, t_peak, t_0):
     loc, scale = params
-    pdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale)) / t_0
-    return pdf_pred
+    cdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale))
+    return cdf_pred
 
 
 @jjit
-- 
2.43.0


From 6e421969a69921736d5bbe69f29398e86f524de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:13 +0000
Subject: [PATCH 10/15] fix: fit_global_c0/c1_model: rebuild the parameter
 namedtuple from the fitter's array in the loss

---
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py     | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py     | 1 +
 8 files changed, 8 insertions(+)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
index a991c32..ab9c909 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
@@ -61,6 +61,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C0_Params(*params)
     t_obs, t_peak, target_c0 = loss_data
     pred_c0 = _pred_c0_kern(params, t_obs, t_peak)
     return _mse(target_c0, pred_c0)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
index d7404f5..f97597d 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
@@ -61,6 +61,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C0_Params(*params)
     t_obs, t_peak, target_c0 = loss_data
     pred_c0 = _pred_c0_kern(params, t_obs, t_peak)
     return _mse(target_c0, pred_c0)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
index 25dfdc0..577647a 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
@@ -72,6 +72,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C1_Params(*params)
     t_obs, t_peak, target_c1 = loss_data
     pred_c1 = _pred_c1_kern(params, t_obs, t_peak)
     return _mse(target_c1, pred_c1)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
index 255bdeb..557f859 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
@@ -72,6 +72,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C1_Params(*params)
     t_obs, t_peak, target_c1 = loss_data
     pred_c1 = _pred_c1_kern(params, t_obs, t_peak)
     return _mse(target_c1, pred_c1)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
index 05585e5..d5762c4 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
@@ -64,6 +64,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C0_Params(*params)
     t_obs, t_peak, target_c0 = loss_data
     pred_c0 = _pred_c0_kern(params, t_obs, t_peak)
     return _mse(target_c0, pred_c0)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
index e097053..e563812 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
@@ -64,6 +64,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C0_Params(*params)
     t_obs, t_peak, target_c0 = loss_data
     pred_c0 = _pred_c0_kern(params, t_obs, t_peak)
     return _mse(target_c0, pred_c0)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
index 42891bd..ca1e3dd 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
@@ -72,6 +72,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C1_Params(*params)
     t_obs, t_peak, target_c1 = loss_data
     pred_c1 = _pred_c1_kern(params, t_obs, t_peak)
     return _mse(target_c1, pred_c1)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
index 17f8936..b8cfe23 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
@@ -72,6 +72,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C1_Params(*params)
     t_obs, t_peak, target_c1 = loss_data
     pred_c1 = _pred_c1_kern(params, t_obs, t_peak)
     return _mse(target_c1, pred_c1)
-- 
2.43.0


From e5fd8aba293322dfeb668540dd7700b3e7a043f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:54 +0000
Subject: [PATCH 11/15] fix: batch fitting scripts collate ranks that fit a
 single halo or none

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py         | 1 +
 scripts/fitting_scripts/galacticus_diffmah_fitter_script.py      | 1 +
 .../fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py | 1 +
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py    | 1 +
 scripts/fitting_scripts/tng_diffmah_fitter_script.py             | 1 +
 5 files changed, 5 insertions(+)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 3aa0734..fc5db64 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -115,6 +115,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(cfh.HEADER_HALO_ID[1:].split())))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 2d6d380..8d3ad38 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -120,6 +120,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 58d75a5..fa4c3f2 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -132,6 +132,7 @@ if __name__ == "__main__":
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 2f40e83..8827ba8 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -130,6 +130,7 @@ if __name__ == "__main__":
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index d92a231..8aaed95 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -96,6 +96,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 0d9a6a6e2760f1cb2ceb78b49a5d8e7f75265889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:54 +0000
Subject: [PATCH 12/15] fix: galacticus fitting script runs with more ranks
 than halos

---
 scripts/fitting_scripts/galacticus_diffmah_fitter_script.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 8d3ad38..c6a3162 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -59,8 +59,8 @@ if __name__ == "__main__":
     nhalos_tot = egsd.get_nhalos_tot(fn)
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    istart = indx_for_rank[0] if len(indx_for_rank) > 0 else 0
+    iend = istart + len(indx_for_rank)
 
     _res = egsd.extract_galacticus_mah_tables(fn, istart, iend)
     mahs_for_rank, times_for_rank, is_cen_for_rank, t_infall_for_rank = _res
@@ -73,7 +73,7 @@ if __name__ == "__main__":
 
     comm.Barrier()
 
-    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max()
+    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max(initial=0.0)
     T0 = comm.allreduce(t_max_for_rank, op=MPI.MAX)
     comm.Barrier()
 
-- 
2.43.0


From 256e5fdbe5272a28d5b6e3a435a4f235ce9976b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:54 +0000
Subject: [PATCH 13/15] fix: discovery sims fitting script imports the fitter
 helpers it uses

---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index fa4c3f2..12c3cc7 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -9,8 +9,8 @@ from time import time
 import numpy as np
 from mpi4py import MPI
 
-from diffmah import fitting_helpers as cfh
 from diffmah.data_loaders.load_hacc_mahs import load_mahs_per_rank
+from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh
 
 TMP_OUTPAT = "tmp_mah_fits_rank_{0}.dat"
 
-- 
2.43.0


From bbfea48d2cccb19982061a084e2a0f2c67a8efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:54 +0000
Subject: [PATCH 14/15] fix: Last Journey fitting script covers the last
 subvolume by default

---
 .../hacc_lastjourney_diffmah_fitter_script.py              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 8827ba8..53b4ee0 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -34,7 +34,12 @@ if __name__ == "__main__":
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
     parser.add_argument("-test", help="Short test run?", type=bool, default=False)
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
-    parser.add_argument("-iend", help="Last subvolume in loop", type=int, default=-1)
+    parser.add_argument(
+        "-iend",
+        help="Last subvolume in loop",
+        type=int,
+        default=NUM_SUBVOLS_LASTJOURNEY,
+    )
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
     parser.add_argument("-nchunks", help="Number of chunks", type=int, default=NCHUNKS)
     parser.add_argument(
-- 
2.43.0


From 71d3b95df1463f6eee57c6100917e4c1564e48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:04 +0000
Subject: [PATCH 15/15] fix: SMDPL tabulation evaluates halos with the current
 mah_halopop

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index b2a04de..603408a 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -193,7 +193,7 @@ def load_diffmah_subvolume(
 def get_log_mah_tables_for_t_obs(mah_params, t_peak, t_obs, t0):
     t_table = get_t_table_for_t_obs(t_obs, 2)
     lgt0 = np.log10(t0)
-    log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+    log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
     return t_table, log_mah_table
 
 
@@ -299,7 +299,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
@@ -328,7 +328,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
-- 
2.43.0

