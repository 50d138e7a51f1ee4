From f7fd77bbae5b2853c2c0714795021ff1091380c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 01/14] fix: Thompson sampling returned the first candidate
 instead of the minimizer of the sampled function

---
 bayeso/thompson_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 7ce05b9..2711aba 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -98,7 +98,7 @@ def thompson_sampling_gp_iteration(range_X: np.ndarray,
     if Y_sampled is None: # pragma: no cover
         raise ValueError('jitter_cov is not large enough.')
 
-    ind_min = np.argmin(Y_sampled[:, 0])
+    ind_min = np.argmin(Y_sampled[0])
     next_point = X_test[ind_min]
 
     return next_point
-- 
2.43.0


From 7f0630a1c5a04f697904ebb3dfae17f6dac4e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 02/14] fix: get_logger attached another handler on every call,
 so records were emitted repeatedly

---
 bayeso/utils/utils_logger.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index b12773b..be707f0 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -30,14 +30,15 @@ def get_logger(str_name: str) -> logging.Logger:
     logger = logging.getLogger(str_name)
     logger.setLevel(logging.DEBUG)
 
-    ch = logging.StreamHandler()
-    ch.setLevel(logging.DEBUG)
+    if not logger.handlers:
+        ch = logging.StreamHandler()
+        ch.setLevel(logging.DEBUG)
 
-    formatter = logging.Formatter('[%(levelname)s-%(name)s-%(asctime)s] %(message)s',
-        datefmt='%m/%d/%Y-%H:%M:%S')
-    ch.setFormatter(formatter)
+        formatter = logging.Formatter('[%(levelname)s-%(name)s-%(asctime)s] %(message)s',
+            datefmt='%m/%d/%Y-%H:%M:%S')
+        ch.setFormatter(formatter)
 
-    logger.addHandler(ch)
+        logger.addHandler(ch)
     return logger
 
 @utils_common.validate_types
-- 
2.43.0


From ef71dcd60cfb071ed3ddd659a42c180359270c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 03/14] fix: loocv model selection ignored use_ard and failed
 with use_ard=False in several dimensions

---
 bayeso/gp/gp_kernel.py     | 4 ++--
 bayeso/gp/gp_likelihood.py | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bayeso/gp/gp_kernel.py b/bayeso/gp/gp_kernel.py
index a738bf0..44528e0 100644
--- a/bayeso/gp/gp_kernel.py
+++ b/bayeso/gp/gp_kernel.py
@@ -93,9 +93,9 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
             use_ard=use_ard, fix_noise=fix_noise,
             use_gradient=use_gradient, debug=debug)
     elif str_modelselection_method == 'loocv':
-        # TODO: add use_ard.
         neg_log_ml_ = lambda hyps: gp_likelihood.neg_log_pseudo_l_loocv(X_train, Y_train,
-            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug)
+            hyps, str_cov, prior_mu_train,
+            use_ard=use_ard, fix_noise=fix_noise, debug=debug)
         use_gradient = False
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_modelselection_method.')
diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 7e89fda..3ef9665 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -118,7 +118,8 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
     str_cov: str, prior_mu_train: np.ndarray,
     fix_noise: bool=constants.FIX_GP_NOISE,
-    debug: bool=False
+    debug: bool=False,
+    use_ard: bool=constants.USE_ARD
 ) -> float:
     """
     It computes a negative log pseudo-likelihood using leave-one-out cross-validation.
@@ -137,6 +138,8 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     :type fix_noise: bool., optional
     :param debug: flag for printing log messages.
     :type debug: bool., optional
+    :param use_ard: flag for using automatic relevance determination.
+    :type use_ard: bool., optional
 
     :returns: negative log pseudo-likelihood.
     :rtype: float
@@ -145,17 +148,17 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 
     """
 
-    # TODO: add use_ard.
     utils_gp.validate_common_args(X_train, Y_train, str_cov, None, debug)
     assert isinstance(hyps, np.ndarray)
     assert isinstance(prior_mu_train, np.ndarray)
+    assert isinstance(use_ard, bool)
     assert isinstance(fix_noise, bool)
     assert len(prior_mu_train.shape) == 2
     assert X_train.shape[0] == Y_train.shape[0] == prior_mu_train.shape[0]
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
-    hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
+    hyps = utils_covariance.restore_hyps(str_cov, hyps, use_ard=use_ard, fix_noise=fix_noise)
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
         str_cov, fix_noise=fix_noise, debug=debug)
-- 
2.43.0


From faef09be17ec1b4b9a30e2f1433e5d9f11726af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 04/14] fix: saving a legend failed because loc was passed
 positionally

---
 bayeso/utils/utils_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/utils/utils_plotting.py b/bayeso/utils/utils_plotting.py
index a03b966..fadbf92 100644
--- a/bayeso/utils/utils_plotting.py
+++ b/bayeso/utils/utils_plotting.py
@@ -494,7 +494,7 @@ def plot_minimum_vs_iter(minima: np.ndarray, list_str_label: constants.TYPING_LI
         _save_figure(path_save, str_figure)
 
         fig_legend = pylab.figure(figsize=(3, 2))
-        fig_legend.legend(lines, list_str_label, 'center', fancybox=False,
+        fig_legend.legend(lines, list_str_label, loc='center', fancybox=False,
             edgecolor='black', fontsize=32)
         fig_legend.savefig(os.path.join(path_save, f'legend_{str_postfix}.pdf'),
             format='pdf', transparent=True, bbox_inches='tight')
@@ -650,7 +650,7 @@ def plot_minimum_vs_time(times: np.ndarray, minima: np.ndarray,
         _save_figure(path_save, str_figure)
 
         fig_legend = pylab.figure(figsize=(3, 2))
-        fig_legend.legend(lines, list_str_label, 'center', fancybox=False,
+        fig_legend.legend(lines, list_str_label, loc='center', fancybox=False,
             edgecolor='black', fontsize=32)
         fig_legend.savefig(os.path.join(path_save, f'legend_{str_postfix}.pdf'),
             format='pdf', transparent=True, bbox_inches='tight')
-- 
2.43.0


From beddaca1956814749c6f662f8228d42f02c6b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 05/14] fix: the recorded history aliased the objective's
 argument and return buffers

---
 bayeso/thompson_sampling.py             | 2 +-
 bayeso/wrappers/wrappers_bo_class.py    | 4 ++--
 bayeso/wrappers/wrappers_bo_function.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 2711aba..79a74ee 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -156,7 +156,7 @@ def thompson_sampling_gp(range_X: np.ndarray,
     Y = []
 
     for bx in X:
-        Y.append(fun_target(bx))
+        Y.append(np.copy(fun_target(np.copy(bx))))
     Y = np.reshape(Y, (X.shape[0], 1))
 
     for ind_iter in range(0, num_iter):
diff --git a/bayeso/wrappers/wrappers_bo_class.py b/bayeso/wrappers/wrappers_bo_class.py
index 03206b9..78e0e35 100644
--- a/bayeso/wrappers/wrappers_bo_class.py
+++ b/bayeso/wrappers/wrappers_bo_class.py
@@ -375,7 +375,7 @@ class BayesianOptimization:
             X_ = np.vstack((X_, next_sample))
 
             time_to_evaluate_start = time.time()
-            Y_ = np.vstack((Y_, self.fun_target(next_sample)))
+            Y_ = np.vstack((Y_, self.fun_target(np.copy(next_sample))))
             time_to_evaluate_end = time.time()
 
             if self.debug:
@@ -430,7 +430,7 @@ class BayesianOptimization:
         time_initials = []
         for elem in X:
             time_initial_start = time.time()
-            Y.append(self.fun_target(elem))
+            Y.append(np.copy(self.fun_target(np.copy(elem))))
             time_initial_end = time.time()
             time_initials.append(time_initial_end - time_initial_start)
         time_initials = np.array(time_initials)
diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index d94a6a8..b264b61 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -107,7 +107,7 @@ def run_single_round_with_all_initial_information(model_bo: bo.BO,
         X_final = np.vstack((X_final, next_point))
 
         time_to_evaluate_start = time.time()
-        Y_final = np.vstack((Y_final, fun_target(next_point)))
+        Y_final = np.vstack((Y_final, fun_target(np.copy(next_point))))
         time_to_evaluate_end = time.time()
         if model_bo.debug:
             model_bo.logger.debug('time consumed to evaluate: %.4f sec.',
@@ -187,7 +187,7 @@ def run_single_round_with_initial_inputs(model_bo: bo.BO,
     time_initials = []
     for elem in X_train:
         time_initial_start = time.time()
-        Y_train.append(fun_target(elem))
+        Y_train.append(np.copy(fun_target(np.copy(elem))))
         time_initial_end = time.time()
         time_initials.append(time_initial_end - time_initial_start)
     time_initials = np.array(time_initials)
-- 
2.43.0


From 8e88be1fdf61e439f403604d07875ca63a8ae3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:48 +0000
Subject: [PATCH 06/14] fix: use_tex=True of one plotting call stayed in effect
 for every later call

---
 bayeso/utils/utils_plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayeso/utils/utils_plotting.py b/bayeso/utils/utils_plotting.py
index fadbf92..fcf077d 100644
--- a/bayeso/utils/utils_plotting.py
+++ b/bayeso/utils/utils_plotting.py
@@ -35,9 +35,9 @@ def _set_font_config(use_tex: bool) -> constants.TYPE_NONE: # pragma: no cover
 
     """
 
-    if use_tex:
-        plt.rc('text', usetex=True)
-    else:
+    plt.rc('text', usetex=use_tex)
+
+    if not use_tex:
         plt.rc('pdf', fonttype=42)
 
 @utils_common.validate_types
-- 
2.43.0


From 4a00a2abbbcc0e6a5d12670a1478993a85b32676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:37 +0000
Subject: [PATCH 07/14] fix: loocv model selection ignored the prior mean
 function

---
 bayeso/gp/gp_likelihood.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 3ef9665..1022679 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -160,6 +160,8 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     num_data = X_train.shape[0]
     hyps = utils_covariance.restore_hyps(str_cov, hyps, use_ard=use_ard, fix_noise=fix_noise)
 
+    new_Y_train = Y_train - prior_mu_train
+
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
         str_cov, fix_noise=fix_noise, debug=debug)
 
@@ -170,10 +172,10 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 #        cur_Y_train = np.vstack((Y_train[:ind_data], Y_train[ind_data+1:]))
 
 #        cur_X_test = np.expand_dims(X_train[ind_data], axis=0)
-        cur_Y_test = Y_train[ind_data]
+        cur_Y_test = new_Y_train[ind_data]
 
         cur_mu = np.squeeze(cur_Y_test) \
-            - np.dot(inv_cov_X_X, Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
+            - np.dot(inv_cov_X_X, new_Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
         cur_sigma = np.sqrt(1.0 / (inv_cov_X_X[ind_data, ind_data] + constants.JITTER_COV))
 
         first_term = -0.5 * np.log(cur_sigma**2)
-- 
2.43.0


From c09b3a2632a25264e7e1b825947224c7e79da540 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 08/14] fix: Student-t likelihood with many observations

gamma((nu + n) / 2) overflows once nu + n exceeds about 340, which made the
criterion infinite or NaN; use gammaln.
---
 bayeso/tp/tp_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/tp/tp_likelihood.py b/bayeso/tp/tp_likelihood.py
index 0c6aadc..9d2f038 100644
--- a/bayeso/tp/tp_likelihood.py
+++ b/bayeso/tp/tp_likelihood.py
@@ -87,7 +87,7 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 
     second_term = -0.5 * second_term
 
-    third_term = np.log(scipy.special.gamma((nu + num_X) / 2.0) / scipy.special.gamma(nu / 2.0))
+    third_term = scipy.special.gammaln((nu + num_X) / 2.0) - scipy.special.gammaln(nu / 2.0)
     fourth_term = -0.5 * (nu + num_X) * np.log(1.0 + beta / (nu - 2.0))
 
     log_ml_ = np.squeeze(first_term + second_term + third_term + fourth_term)
-- 
2.43.0


From 071acc6d150161bb9b74cfeb3f92678413f2695b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 09/14] fix: refuse malformed requests before evaluating the
 initial points

Inputs of the wrong dimension, a non-positive number of acquisition samples
and an unknown sampling method were only refused after every initial point
had been evaluated.
---
 bayeso/wrappers/wrappers_bo_class.py    | 1 +
 bayeso/wrappers/wrappers_bo_function.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/bayeso/wrappers/wrappers_bo_class.py b/bayeso/wrappers/wrappers_bo_class.py
index 78e0e35..2d49a42 100644
--- a/bayeso/wrappers/wrappers_bo_class.py
+++ b/bayeso/wrappers/wrappers_bo_class.py
@@ -425,6 +425,7 @@ class BayesianOptimization:
 
         assert isinstance(X, np.ndarray)
         assert len(X.shape) == 2
+        assert X.shape[1] == self.num_dim
 
         Y = []
         time_initials = []
diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index b264b61..226d6df 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -181,6 +181,9 @@ def run_single_round_with_initial_inputs(model_bo: bo.BO,
     assert isinstance(num_samples_ao, int)
     assert isinstance(str_mlm_method, str)
     assert len(X_train.shape) == 2
+    assert X_train.shape[1] == model_bo.num_dim
+    assert num_samples_ao > 0
+    assert str_sampling_method_ao in constants.ALLOWED_SAMPLING_METHOD
     assert str_mlm_method in constants.ALLOWED_MLM_METHOD
 
     Y_train = []
-- 
2.43.0


From 3d8c86c0fa85b3e71f206da1619abc152a92f363 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 10/14] fix: CMA-ES honours the seed and leaves numpy's global
 generator alone

---
 bayeso/bo/bo_w_gp.py | 3 ++-
 bayeso/bo/bo_w_tp.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayeso/bo/bo_w_gp.py b/bayeso/bo/bo_w_gp.py
index 3b2b880..8bbe869 100644
--- a/bayeso/bo/bo_w_gp.py
+++ b/bayeso/bo/bo_w_gp.py
@@ -181,7 +181,8 @@ class BOwGP(base_bo.BaseBO):
                 initials[0], cur_sigma0,
                 options={
                     'bounds': [list_bounds[:, 0], list_bounds[:, 1]],
-                    'verbose': -1, 'maxfevals': 1e5
+                    'verbose': -1, 'maxfevals': 1e5,
+                    'seed': np.nan, 'randn': self._get_random_state(seed).randn
                 })[0]
             list_next_point.append(next_point_x)
 
diff --git a/bayeso/bo/bo_w_tp.py b/bayeso/bo/bo_w_tp.py
index a6eacc2..8137fe8 100644
--- a/bayeso/bo/bo_w_tp.py
+++ b/bayeso/bo/bo_w_tp.py
@@ -172,7 +172,8 @@ class BOwTP(base_bo.BaseBO):
                 initials[0], cur_sigma0,
                 options={
                     'bounds': [list_bounds[:, 0], list_bounds[:, 1]],
-                    'verbose': -1, 'maxfevals': 1e5
+                    'verbose': -1, 'maxfevals': 1e5,
+                    'seed': np.nan, 'randn': self._get_random_state(seed).randn
                 })[0]
             list_next_point.append(next_point_x)
 
-- 
2.43.0


From 334a4b048ba6f3c6c96a2f311bb4d2d3e7863623 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 11/14] fix: fall back to the default acquisition optimizer
 when CMA-ES meets a zero-width dimension

---
 bayeso/bo/base_bo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayeso/bo/base_bo.py b/bayeso/bo/base_bo.py
index cb3f9cd..8b942e1 100644
--- a/bayeso/bo/base_bo.py
+++ b/bayeso/bo/base_bo.py
@@ -81,6 +81,10 @@ class BaseBO(abc.ABC):
         else:
             self.logger = utils_logger.get_logger(f'bo_w_{str_surrogate}')
 
+        if self.str_optimizer_method_bo == 'CMA-ES' and (range_X[:, 0] == range_X[:, 1]).any():
+            self.logger.warning('CMA-ES is selected, but the search space has a zero-width dimension.')
+            self.str_optimizer_method_bo = 'L-BFGS-B'
+
     def _get_random_state(self, seed: constants.TYPING_UNION_INT_NONE):
         """
         It returns a random state, defined by `seed`.
-- 
2.43.0


From f405247c2cd80dd42632b572953247b49d128de2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 12/14] fix: functions sampled at a single point have the
 documented shape

---
 bayeso/gp/gp.py | 2 +-
 bayeso/tp/tp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp.py b/bayeso/gp/gp.py
index b6db27d..f924a6a 100644
--- a/bayeso/gp/gp.py
+++ b/bayeso/gp/gp.py
@@ -48,7 +48,7 @@ def sample_functions(mu: np.ndarray, Sigma: np.ndarray,
     assert mu.shape[0] == Sigma.shape[0] == Sigma.shape[1]
 
     rv = scipy.stats.multivariate_normal(mean=mu, cov=Sigma)
-    list_rvs = [rv.rvs() for _ in range(0, num_samples)]
+    list_rvs = [np.atleast_1d(rv.rvs()) for _ in range(0, num_samples)]
     return np.array(list_rvs)
 
 @utils_common.validate_types
diff --git a/bayeso/tp/tp.py b/bayeso/tp/tp.py
index d31c37b..5b7dff9 100644
--- a/bayeso/tp/tp.py
+++ b/bayeso/tp/tp.py
@@ -54,7 +54,7 @@ def sample_functions(nu: float, mu: np.ndarray, Sigma: np.ndarray,
         x = np.random.chisquare(nu, num_samples) / nu
 
     rv = scipy.stats.multivariate_normal(mean=np.zeros(mu.shape[0]), cov=Sigma)
-    list_samples = [rv.rvs() for _ in range(0, num_samples)]
+    list_samples = [np.atleast_1d(rv.rvs()) for _ in range(0, num_samples)]
 
     samples = np.array(list_samples)
     samples = mu[np.newaxis, ...] + samples / np.sqrt(x)[..., np.newaxis]
-- 
2.43.0


From 3e202ba4964f0f646ead3b606ce317263c2d1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:03 +0000
Subject: [PATCH 13/14] fix: a round without iterations returns its own arrays

---
 bayeso/wrappers/wrappers_bo_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index 226d6df..9727d6b 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -76,8 +76,8 @@ def run_single_round_with_all_initial_information(model_bo: bo.BO,
 
     time_start = time.time()
 
-    X_final = X_train
-    Y_final = Y_train
+    X_final = np.copy(X_train)
+    Y_final = np.copy(Y_train)
     time_all_final = []
     time_surrogate_final = []
     time_acq_final = []
-- 
2.43.0


From 81e1e4a607fcd8b88f09ebe280e788d78f75d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:03 +0000
Subject: [PATCH 14/14] fix: retry the inverse of a singular kernel matrix with
 jitter, as the Cholesky path does

---
 bayeso/covariance.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bayeso/covariance.py b/bayeso/covariance.py
index beb410e..3c4b2c3 100644
--- a/bayeso/covariance.py
+++ b/bayeso/covariance.py
@@ -115,7 +115,21 @@ def get_kernel_inverse(X_train: np.ndarray, hyps: dict, str_cov: str,
     cov_X_X = cov_main(str_cov, X_train, X_train, hyps, True) \
         + hyps['noise']**2 * np.eye(X_train.shape[0])
     cov_X_X = (cov_X_X + cov_X_X.T) / 2.0
-    inv_cov_X_X = np.linalg.inv(cov_X_X)
+
+    inv_cov_X_X = None
+
+    for jitter_cov in [0.0, 1e-4, 1e-2, 1e-1, 1e0, 1e1, 1e2]:
+        try:
+            cov_X_X_ = cov_X_X + jitter_cov * np.eye(X_train.shape[0])
+            inv_cov_X_X = np.linalg.inv(cov_X_X_)
+            cov_X_X = cov_X_X_
+
+            break
+        except np.linalg.LinAlgError: # pragma: no cover
+            pass
+
+    if inv_cov_X_X is None: # pragma: no cover
+        raise ValueError('jitter_cov is not large enough.')
 
     if use_gradient:
         grad_cov_X_X = grad_cov_main(str_cov, X_train, X_train,
-- 
2.43.0

