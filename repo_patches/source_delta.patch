From c24d260b5c59ef7af173a2d4f388d29d2fc7c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 01/40] fix: setup of RBF, RMTB and RMTC leaves the options as
 the user set them

---
 smt/surrogate_models/rbf.py  |  9 +++++----
 smt/surrogate_models/rmtb.py | 14 +++++++++-----
 smt/surrogate_models/rmtc.py | 12 ++++++++----
 smt/surrogate_models/rmts.py |  2 +-
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index dc0f3da..6dd023b 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -60,9 +60,10 @@ class RBF(SurrogateModel):
         options = self.options
 
         nx = self.training_points[None][0][0].shape[1]
-        if isinstance(options["d0"], (int, float)):
-            options["d0"] = [options["d0"]] * nx
-        options["d0"] = np.array(np.atleast_1d(options["d0"]), dtype=float)
+        d0 = options["d0"]
+        if isinstance(d0, (int, float)):
+            d0 = [d0] * nx
+        d0 = np.array(np.atleast_1d(d0), dtype=float)
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -92,7 +93,7 @@ class RBF(SurrogateModel):
             nt,
             num["dof"],
             options["poly_degree"],
-            options["d0"],
+            d0,
             xt.flatten(),
         )
 
diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index f0b6b19..f115752 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -59,10 +59,12 @@ class RMTB(RMTS):
         options = self.options
         nx = self.training_points[None][0][0].shape[1]
 
+        lists = {}
         for name in ["smoothness", "num_ctrl_pts", "order"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
+            value = options[name]
+            if isinstance(value, (int, float)):
+                value = [value] * nx
+            lists[name] = np.atleast_1d(value)
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -70,9 +72,11 @@ class RMTB(RMTS):
         # number of inputs and outputs
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
-        num["order_list"] = np.array(options["order"], int)
+        # smoothness in each dimension
+        num["smoothness_list"] = lists["smoothness"]
+        num["order_list"] = np.array(lists["order"], int)
         num["order"] = np.prod(num["order_list"])
-        num["ctrl_list"] = np.array(options["num_ctrl_pts"], int)
+        num["ctrl_list"] = np.array(lists["num_ctrl_pts"], int)
         num["ctrl"] = np.prod(num["ctrl_list"])
         num["elem_list"] = np.array(num["ctrl_list"] - num["order_list"] + 1, int)
         num["elem"] = np.prod(num["elem_list"])
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 7a43602..93544eb 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -52,10 +52,12 @@ class RMTC(RMTS):
         options = self.options
         nx = self.training_points[None][0][0].shape[1]
 
+        lists = {}
         for name in ["smoothness", "num_elements"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
+            value = options[name]
+            if isinstance(value, (int, float)):
+                value = [value] * nx
+            lists[name] = np.atleast_1d(value)
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -63,8 +65,10 @@ class RMTC(RMTS):
         # number of inputs and outputs
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
+        # smoothness in each dimension
+        num["smoothness_list"] = lists["smoothness"]
         # number of elements
-        num["elem_list"] = np.array(options["num_elements"], int)
+        num["elem_list"] = np.array(lists["num_elements"], int)
         num["elem"] = np.prod(num["elem_list"])
         # number of terms/coefficients per element
         num["term_list"] = 4 * np.ones(num["x"], int)
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index de7c46c..e44e8d7 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -219,7 +219,7 @@ class RMTS(SurrogateModel):
             full_hess += sq_mtx[kx] * (
                 elem_vol
                 / total_vol
-                * self.options["smoothness"][kx]
+                * num["smoothness_list"][kx]
                 / (xlimits[kx, 1] - xlimits[kx, 0]) ** 4
             )
 
-- 
2.43.0


From 16d8e092da20cf6f82c41615adf88c3f3de330e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 02/40] fix: RMTS gives its solver options back when the
 startup problem fails

---
 smt/surrogate_models/rmts.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index e44e8d7..0363747 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -373,10 +373,11 @@ class RMTS(SurrogateModel):
             options["approx_order"] = 2
             options["nonlinear_maxiter"] = 1
 
-            self._run_newton_solver(sol)
-
-            options["approx_order"] = approx_order
-            options["nonlinear_maxiter"] = nonlinear_maxiter
+            try:
+                self._run_newton_solver(sol)
+            finally:
+                options["approx_order"] = approx_order
+                options["nonlinear_maxiter"] = nonlinear_maxiter
 
         with self.printer._timed_context(
             "Solving nonlinear problem (n=%i)" % total_size
-- 
2.43.0


From e0881c395a8049e00053efa48d5604cc4aaf687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 03/40] fix: RMTS assembles the Hessian when no Newton
 iteration is needed

---
 smt/surrogate_models/rmts.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 0363747..df8b228 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -316,6 +316,7 @@ class RMTS(SurrogateModel):
                     % (0, ind_y, norm, fval)
                 )
 
+                mtx = None
                 iter_count = 0
                 while (
                     iter_count < options["nonlinear_maxiter"]
@@ -348,10 +349,13 @@ class RMTS(SurrogateModel):
                         % (iter_count, ind_y, norm, fval)
                     )
 
-                    self.mtx = mtx
-
                     iter_count += 1
 
+                if mtx is None:
+                    # already converged: the Hessian has not been assembled
+                    mtx = self._opt_hess(sol[:, ind_y], p, yt_dict)
+                self.mtx = mtx
+
     def _solve(self):
         num = self.num
         options = self.options
-- 
2.43.0


From bcfd700f7d06c99c2bec67c3148e421e98d2fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 04/40] fix: training a multi-fidelity Kriging keeps the
 training data of the user

---
 smt/applications/mfk.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3cb50d9..951fcb6 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -9,6 +9,7 @@ Adapted on January 2021 by Andres Lopez-Lopera to the new SMT version
 """
 
 from copy import deepcopy
+from collections import defaultdict
 
 import numpy as np
 from scipy.linalg import solve_triangular
@@ -339,15 +340,24 @@ class MFK(KrgBased):
     def _new_train_finalize(self, lvl):
         if self.options["eval_noise"] and self.options["optim_var"]:
             X = self.X
-            for lvl in range(self.nlvl - 1):
+            # the second training uses the smoothed outputs: the data of the user
+            # are set aside meanwhile
+            training_points = self.training_points
+            self.training_points = defaultdict(dict)
+            try:
+                for lvl in range(self.nlvl - 1):
+                    self.set_training_values(
+                        X[lvl],
+                        self._predict_intermediate_values(X[lvl], lvl + 1),
+                        name=lvl,
+                    )
                 self.set_training_values(
-                    X[lvl], self._predict_intermediate_values(X[lvl], lvl + 1), name=lvl
+                    X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
                 )
-            self.set_training_values(
-                X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
-            )
-            self.options["eval_noise"] = False
-            self._new_train()
+                self.options["eval_noise"] = False
+                self._new_train()
+            finally:
+                self.training_points = training_points
 
     def _componentwise_distance(self, dx, opt=0):
         d = componentwise_distance(dx, self.options["corr"], self.nx)
-- 
2.43.0


From 32c8cbe7cc363dcd97901c3f612e7bb566efc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 05/40] fix: multi-fidelity Kriging variances are never
 negative

---
 smt/applications/mfk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 951fcb6..b23e743 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -564,6 +564,8 @@ class MFK(KrgBased):
 
         # scaled predictor
         MSE *= self.y_std ** 2
+        # machine precision: force to zero the small negative variances
+        MSE[MSE < 0.0] = 0.0
 
         return MSE, sigma2_rhos
 
-- 
2.43.0


From 97293a8aa7ebb77e3640c11b139c33c84728ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 06/40] fix: predicting variances does not write to the
 multi-fidelity model

---
 smt/applications/mfk.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index b23e743..cb98d80 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -500,7 +500,6 @@ class MFK(KrgBased):
         # Scaled predictor
         mu[:, 0] = (np.dot(f, beta) + np.dot(r_, gamma)).ravel()
 
-        self.sigma2_rho = nlevel * [None]
         MSE = np.zeros((n_eval, nlevel))
         r_t = solve_triangular(C, r_.T, lower=True)
         G = self.optimal_par[0]["G"]
-- 
2.43.0


From b8eebaefa4318748a02faa5f5e140002b19556a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 07/40] fix: training a Kriging model leaves its options as the
 user set them

---
 smt/applications/mfk.py           | 14 ++++++++++----
 smt/surrogate_models/krg_based.py | 17 ++++++++++++++---
 smt/surrogate_models/krg_mgp.py   |  2 +-
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index cb98d80..0be243f 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -696,19 +696,23 @@ class MFK(KrgBased):
         else:
             if len(self.options["theta0"]) != d:
                 if len(self.options["theta0"]) == 1:
-                    self.options["theta0"] *= np.ones((self.nlvl, d))
+                    self.options["theta0"] = self.options["theta0"] * np.ones(
+                        (self.nlvl, d)
+                    )
                 elif len(self.options["theta0"]) == self.nlvl:
                     self.options["theta0"] = np.array(self.options["theta0"]).reshape(
                         -1, 1
                     )
-                    self.options["theta0"] *= np.ones((1, d))
+                    self.options["theta0"] = self.options["theta0"] * np.ones((1, d))
                 else:
                     raise ValueError(
                         "the length of theta0 (%s) should be equal to the number of dim (%s) or levels of fidelity (%s)."
                         % (len(self.options["theta0"]), d, self.nlvl)
                     )
             else:
-                self.options["theta0"] *= np.ones((self.nlvl, 1))
+                self.options["theta0"] = self.options["theta0"] * np.ones(
+                    (self.nlvl, 1)
+                )
 
         if len(self.options["noise0"]) != self.nlvl:
             if len(self.options["noise0"]) == 1:
@@ -724,7 +728,9 @@ class MFK(KrgBased):
                 if len(self.X[i]) == len(np.unique(self.X[i])):
                     if len(self.options["noise0"][i]) != self.nt_all[i]:
                         if len(self.options["noise0"][i]) == 1:
-                            self.options["noise0"][i] *= np.ones(self.nt_all[i])
+                            self.options["noise0"][i] = self.options["noise0"][
+                                i
+                            ] * np.ones(self.nt_all[i])
                         else:
                             raise ValueError(
                                 "for the level of fidelity %s, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 38f750a..fe7f7e8 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -195,7 +195,18 @@ class KrgBased(SurrogateModel):
         """
         # outputs['sol'] = self.sol
 
-        self._new_train()
+        # The training adapts the initial hyperparameters to the size of the
+        # problem: it works on copies and gives the options back to the user.
+        user_options = {}
+        for name in ["theta0", "noise0", "n_comp", "eval_noise"]:
+            if self.options.is_declared(name):
+                user_options[name] = self.options[name]
+                self.options[name] = deepcopy(self.options[name])
+        try:
+            self._new_train()
+        finally:
+            for name in user_options:
+                self.options[name] = user_options[name]
 
     def _reduced_likelihood_function(self, theta):
         """
@@ -1153,7 +1164,7 @@ class KrgBased(SurrogateModel):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the length of theta0 (%s) should be equal to the number of dim (%s)."
@@ -1163,7 +1174,7 @@ class KrgBased(SurrogateModel):
         if self.options["use_het_noise"] and not self.options["eval_noise"]:
             if len(self.options["noise0"]) != self.nt:
                 if len(self.options["noise0"]) == 1:
-                    self.options["noise0"] *= np.ones(self.nt)
+                    self.options["noise0"] = self.options["noise0"] * np.ones(self.nt)
                 else:
                     raise ValueError(
                         "for the heteroscedastic case, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8040e98..4f6fb76 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -510,7 +510,7 @@ class MGP(KrgBased):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the number of dim %s should be equal to the length of theta0 %s."
-- 
2.43.0


From 7a0bc76918b8eed5c6935bb7fbfe9c06bfffdade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 08/40] fix: number of training points of GEKPLS does not grow
 at each training

---
 smt/surrogate_models/gekpls.py    | 1 -
 smt/surrogate_models/krg_based.py | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/gekpls.py b/smt/surrogate_models/gekpls.py
index 392dedb..73a60cf 100644
--- a/smt/surrogate_models/gekpls.py
+++ b/smt/surrogate_models/gekpls.py
@@ -49,7 +49,6 @@ class GEKPLS(KPLS):
                 self.options["extra_points"],
             )
             if self.options["extra_points"] != 0:
-                self.nt *= self.options["extra_points"] + 1
                 X = np.vstack((X, XX))
                 y = np.vstack((y, yy))
 
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index fe7f7e8..4cb18bd 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -121,6 +121,7 @@ class KrgBased(SurrogateModel):
         # Compute PLS-coefficients (attr of self) and modified X and y (if GEKPLS is used)
         if self.name not in ["Kriging", "MGP"]:
             X, y = self._compute_pls(X.copy(), y.copy())
+        self.nt = X.shape[0]
 
         self._check_param()
 
-- 
2.43.0


From cc8174958134c19ad667243a663278e2032ac80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 09/40] fix: each training has its own count of ill-conditioned
 matrices

---
 smt/surrogate_models/krg_based.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 4cb18bd..2921576 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -875,6 +875,7 @@ class KrgBased(SurrogateModel):
         # reinitialize optimization best values
         self.best_iteration_fail = None
         self._thetaMemory = None
+        self.nb_ill_matrix = 5
         # Initialize the hyperparameter-optimization
         if self.name in ["MGP"]:
 
-- 
2.43.0


From 9dec457153760bfcc449748d8d840afe38f1fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 10/40] fix: update_training_derivatives checks the derivative
 it updates

---
 smt/surrogate_models/surrogate_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 32e4e08..208f1f8 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -225,13 +225,13 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx not in self.training_points[name]:
+        if kx + 1 not in self.training_points[name]:
             raise ValueError(
-                "The training points must be set first with set_training_values "
-                + "before calling update_training_values."
+                "The training points must be set first with set_training_derivatives "
+                + "before calling update_training_derivatives."
             )
 
-        xt = self.training_points[name][kx][0]
+        xt = self.training_points[name][kx + 1][0]
         if xt.shape[0] != dyt_dxt.shape[0]:
             raise ValueError(
                 "The number of training points does not agree with the earlier call of "
-- 
2.43.0


From affafb23e33ec1a9bef0eb28f2275ac9560efd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 11/40] fix: FullFactorial does not normalise the weights of
 the caller in place

---
 smt/sampling_methods/full_factorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/sampling_methods/full_factorial.py b/smt/sampling_methods/full_factorial.py
index b6a3856..0fc63bb 100644
--- a/smt/sampling_methods/full_factorial.py
+++ b/smt/sampling_methods/full_factorial.py
@@ -48,7 +48,7 @@ class FullFactorial(ScaledSamplingMethod):
             weights = np.ones(nx) / nx
         else:
             weights = np.atleast_1d(self.options["weights"])
-            weights /= np.sum(weights)
+            weights = weights / np.sum(weights)
 
         num_list = np.ones(nx, int)
         while np.prod(num_list) < nt:
-- 
2.43.0


From 902bebf2f7f4258fab947e50b7691071a8f55d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 12/40] fix: VFM does not modify the option dictionaries of the
 caller

---
 smt/applications/vfm.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 610e2af..7af1459 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -157,10 +157,14 @@ class VFM(SurrogateBasedApplication):
         # Check parameters
         self._check_param()
 
+        # The key "deriv" is not an option of the surrogates
+        options_LF = dict(self.options["options_LF"])
+        self.LF_deriv = options_LF.pop("deriv", False)
+        options_bridge = dict(self.options["options_bridge"])
+        self.B_deriv = options_bridge.pop("deriv", False)
+
         # Train the low fidelity model
-        self.LF_deriv = self.options["options_LF"]["deriv"]
-        del self.options["options_LF"]["deriv"]
-        sm_LF = self.options["name_model_LF"](**self.options["options_LF"])
+        sm_LF = self.options["name_model_LF"](**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -172,8 +176,6 @@ class VFM(SurrogateBasedApplication):
         # compute the bridge data
         if self.options["type_bridge"] == "Multiplicative":
             y_bridge = y_HF / sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -189,8 +191,6 @@ class VFM(SurrogateBasedApplication):
                     ).reshape(y_HF.shape[0])
         elif self.options["type_bridge"] == "Additive":
             y_bridge = y_HF - sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -202,7 +202,7 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**self.options["options_bridge"])
+        sm_bridge = self.options["name_model_bridge"](**options_bridge)
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv and self.options["dy_HF"] is not None:
             for i in range(sm_bridge.nx):
@@ -268,9 +268,3 @@ class VFM(SurrogateBasedApplication):
                     "%s was given."
                     % (self._surrogate_type.keys(), self.options["name_model_bridge"])
                 )
-
-        # Initialize the parameter deriv
-        if "deriv" not in self.options["options_LF"].keys():
-            self.options["options_LF"]["deriv"] = False
-        if "deriv" not in self.options["options_bridge"].keys():
-            self.options["options_bridge"]["deriv"] = False
-- 
2.43.0


From 5b7ce1f0b8c7a53a5023c6028a5884669180de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 13/40] fix: GENN keeps the option gamma of the user

---
 smt/surrogate_models/genn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ac20253..335fbc2 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -166,10 +166,6 @@ class GENN(SurrogateModel):
         # Convert training data to format expected by neural net module
         X, Y, J = smt_to_genn(self.training_points)
 
-        # If there are no training derivatives, turn off gradient-enhancement
-        if type(J) == np.ndarray and J.size == 0:
-            self.options["gamma"] = 0.0
-
         # Get hyperparameters from SMT API
         alpha = self.options["alpha"]
         beta1 = self.options["beta1"]
@@ -184,6 +180,10 @@ class GENN(SurrogateModel):
         seed = self.options["seed"]
         is_print = self.options["is_print"]
 
+        # If there are no training derivatives, turn off gradient-enhancement
+        if type(J) == np.ndarray and J.size == 0:
+            gamma = 0.0
+
         # number of inputs and outputs
         n_x = X.shape[0]
         n_y = Y.shape[0]
-- 
2.43.0


From dda4940db81c15245207135e61a1bc1fe0b8eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 14/40] fix: VFM leaves its model name options as the user set
 them

---
 smt/applications/vfm.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 7af1459..92e8212 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -155,7 +155,7 @@ class VFM(SurrogateBasedApplication):
             dy_HF = self.options["dy_HF"]
 
         # Check parameters
-        self._check_param()
+        class_LF, class_bridge = self._check_param()
 
         # The key "deriv" is not an option of the surrogates
         options_LF = dict(self.options["options_LF"])
@@ -164,7 +164,7 @@ class VFM(SurrogateBasedApplication):
         self.B_deriv = options_bridge.pop("deriv", False)
 
         # Train the low fidelity model
-        sm_LF = self.options["name_model_LF"](**options_LF)
+        sm_LF = class_LF(**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -202,7 +202,7 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**options_bridge)
+        sm_bridge = class_bridge(**options_bridge)
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv and self.options["dy_HF"] is not None:
             for i in range(sm_bridge.nx):
@@ -242,14 +242,15 @@ class VFM(SurrogateBasedApplication):
     def _check_param(self):
 
         """
-        This function check some parameters of the model.
+        This function check some parameters of the model and
+        returns the classes of the low-fidelity and bridge models.
         """
         # Check surrogates
+        class_LF = self.options["name_model_LF"]
+        class_bridge = self.options["name_model_bridge"]
         if not callable(self.options["name_model_LF"]):
             if self.options["name_model_LF"] in self._surrogate_type:
-                self.options["name_model_LF"] = self._surrogate_type[
-                    self.options["name_model_LF"]
-                ]
+                class_LF = self._surrogate_type[self.options["name_model_LF"]]
             else:
                 raise ValueError(
                     "The LF surrogate should be one of %s, "
@@ -259,12 +260,12 @@ class VFM(SurrogateBasedApplication):
 
         if not callable(self.options["name_model_bridge"]):
             if self.options["name_model_bridge"] in self._surrogate_type:
-                self.options["name_model_bridge"] = self._surrogate_type[
-                    self.options["name_model_bridge"]
-                ]
+                class_bridge = self._surrogate_type[self.options["name_model_bridge"]]
             else:
                 raise ValueError(
                     "The bridge surrogate should be one of %s, "
                     "%s was given."
                     % (self._surrogate_type.keys(), self.options["name_model_bridge"])
                 )
+
+        return class_LF, class_bridge
-- 
2.43.0


From ac3055b6e50073f228bcd4321f16c5e9b288aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 15/40] fix: MOE keeps copies of the training data of the user

---
 smt/applications/moe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ff373ef..bc37b24 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -190,8 +190,8 @@ class MOE(SurrogateBasedApplication):
             An optional label for the group of training points being set.
             This is only used in special situations (e.g., multi-fidelity applications).
         """
-        self.xt = xt
-        self.yt = yt
+        self.xt = np.array(xt)
+        self.yt = np.array(yt)
 
     def train(self):
         """
-- 
2.43.0


From f425c786111f39315e295d13cde509a0cb697fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 16/40] fix: EGO does not write to the initial outputs of the
 user

---
 smt/applications/ego.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bfecfad..5f813ee 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -290,7 +290,7 @@ class EGO(SurrogateBasedApplication):
         if ydoe is None:
             y_doe = self._evaluator.run(fun, x_doe)
         else:  # to save time if y_doe is already given to EGO
-            y_doe = ydoe
+            y_doe = ydoe.copy()
 
         return x_doe, y_doe
 
-- 
2.43.0


From 5788aeea6067061f6b4e00edf30b4effe396dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 17/40] fix: a rejected update of training data leaves no empty
 entry behind

---
 smt/surrogate_models/surrogate_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 208f1f8..ab88257 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -151,7 +151,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         kx = 0
 
-        if kx not in self.training_points[name]:
+        if kx not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_values "
                 + "before calling update_training_values."
@@ -225,7 +225,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx + 1 not in self.training_points[name]:
+        if kx + 1 not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_derivatives "
                 + "before calling update_training_derivatives."
-- 
2.43.0


From ce972c2e2d8244c64c4d5a2e5d95d87b775686c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 18/40] fix: models do not advertise derivatives they cannot
 compute

---
 smt/applications/mfk.py         | 2 ++
 smt/surrogate_models/krg_mgp.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 0be243f..b268b3f 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -123,6 +123,8 @@ class MFK(KrgBased):
             values=(True, False),
             desc="If True, the variance at HF samples is forced to zero",
         )
+        # not available for the multi-fidelity predictor
+        self.supports["variance_derivatives"] = False
         self.name = "MFK"
 
     def _differences(self, X, Y):
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 4f6fb76..c595b8b 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -36,6 +36,9 @@ class MGP(KrgBased):
         )
         self.options["hyper_opt"] = "TNC"
         self.options["corr"] = "act_exp"
+        # not available for the active subspace kernel
+        self.supports["derivatives"] = False
+        self.supports["variance_derivatives"] = False
 
     def _componentwise_distance(self, dx, small=False, opt=0):
         """
-- 
2.43.0


From 24beff8afbb58cb0a3a9e19528ea7b56848ac82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 19/40] fix: EGO evaluates the initial design in the space of
 the user

---
 smt/applications/ego.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 5f813ee..56c81fb 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -288,7 +288,10 @@ class EGO(SurrogateBasedApplication):
 
         ydoe = self.options["ydoe"]
         if ydoe is None:
-            y_doe = self._evaluator.run(fun, x_doe)
+            x_to_compute = x_doe
+            if self.mixint:
+                x_to_compute = self.mixint.fold_with_enum_index(x_doe)
+            y_doe = self._evaluator.run(fun, x_to_compute)
         else:  # to save time if y_doe is already given to EGO
             y_doe = ydoe.copy()
 
-- 
2.43.0


From 1f8d70449a273636c558e7edbe669f116fc90f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 20/40] fix: the seed of GENN controls its training, and leaves
 the global generator alone

---
 smt/surrogate_models/genn.py  |  2 +-
 smt/utils/neural_net/data.py  |  5 +++--
 smt/utils/neural_net/model.py | 10 ++++++----
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 335fbc2..7b26efb 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -189,7 +189,7 @@ class GENN(SurrogateModel):
         n_y = Y.shape[0]
 
         # Train neural net
-        self.model = Model.initialize(n_x, n_y, deep, wide)
+        self.model = Model.initialize(n_x, n_y, deep, wide, seed=seed)
         self.model.train(
             X=X,
             Y=Y,
diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 91f058c..e4245a9 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -93,14 +93,15 @@ def random_mini_batches(X, Y, J, mini_batch_size=64, seed=None):
                                                     n_y = number of outputs
                                                     n_x = number of inputs
     :param: mini_batch_size: size of the mini-batches, integer
+    :param: seed: random seed (the global numpy generator is used, and left unseeded, if None)
     :return: mini_batches: list of synchronous (mini_batch_X, mini_batch_Y, mini_batch_J)
     """
-    np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
     m = X.shape[1]
     mini_batches = []
 
     # Step 1: Shuffle (X, Y, J)
-    permutations = list(np.random.permutation(m))
+    permutations = list(rng.permutation(m))
     shuffled_X = X[:, permutations].reshape(X.shape)
     shuffled_Y = Y[:, permutations].reshape(Y.shape)
     if J is not None:
diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 3afba81..e4a3a00 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -23,7 +23,7 @@ from smt.utils.neural_net.data import normalize_data, load_csv
 # ------------------------------------ S U P P O R T   F U N C T I O N S -----------------------------------------------
 
 
-def initialize_parameters(layer_dims=None):
+def initialize_parameters(layer_dims=None, seed=None):
     """
     Initialize neural network given topology using "He" initialization
 
@@ -31,6 +31,7 @@ def initialize_parameters(layer_dims=None):
     :param: activation: the activation function to use: tanh, sigmoid, or relu (choice dependens on problem type)
     :param: regression: True = regression problem (last layer will be linear)
                         False = classification problem (last layer will be sigmoid)
+    :param: seed: random seed (the global numpy generator is used if None)
 
     :return: parameters: dictionary containing the neural net parameters:
 
@@ -48,9 +49,10 @@ def initialize_parameters(layer_dims=None):
     number_layers = len(layer_dims) - 1  # input layer doesn't count
 
     # Parameters
+    rng = np.random if seed is None else np.random.RandomState(seed)
     parameters = {}
     for l in range(1, number_layers + 1):
-        parameters["W" + str(l)] = np.random.randn(
+        parameters["W" + str(l)] = rng.randn(
             layer_dims[l], layer_dims[l - 1]
         ) * np.sqrt(1.0 / layer_dims[l - 1])
         parameters["b" + str(l)] = np.zeros((layer_dims[l], 1))
@@ -120,9 +122,9 @@ class Model(object):
             setattr(self, name, value)
 
     @classmethod
-    def initialize(cls, n_x=None, n_y=None, deep=2, wide=12):
+    def initialize(cls, n_x=None, n_y=None, deep=2, wide=12, seed=None):
         layer_dims = [n_x] + [wide] * deep + [n_y]
-        parameters = initialize_parameters(layer_dims)
+        parameters = initialize_parameters(layer_dims, seed)
         activations = [Tanh()] * deep + [Linear()]
         attributes = {
             "_parameters": parameters,
-- 
2.43.0


From a355f633623896e80653d9e8c4ba7c33899fd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 21/40] fix: random_state controls the virtual points of EGO

---
 smt/applications/ego.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 56c81fb..7d399db 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -273,6 +273,13 @@ class EGO(SurrogateBasedApplication):
                 random_state=self.options["random_state"],
             )
 
+        # Generator of the virtual points
+        random_state = self.options["random_state"]
+        if isinstance(random_state, np.random.RandomState):
+            self._random_state = random_state
+        else:
+            self._random_state = np.random.RandomState(random_state)
+
         # Build DOE
         self._evaluator = self.options["evaluator"]
         xdoe = self.options["xdoe"]
@@ -407,7 +414,7 @@ class EGO(SurrogateBasedApplication):
             conf = -3.0
 
         if qEI == "KBRand":
-            conf = np.random.randn()
+            conf = self._random_state.randn()
         pred = self.gpr.predict_values(x)
         var = self.gpr.predict_variances(x)
 
-- 
2.43.0


From 5a03fdeffea4b23f9678f266dc47edc591e0038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 22/40] fix: bracketed line search returned None when no
 bracket was found in 20 steps

---
 smt/utils/line_search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3981415..4b840f3 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -167,6 +167,9 @@ class BracketedLineSearch(LineSearch):
                 p2 = self._phi(a2)
                 dp2 = self._dphi(a2)
 
+        # The function still decreases: take the largest step that was accepted.
+        return self.x + a1 * self.dx
+
     def _zoom(self, a1, p1, dp1, a2, p2, dp2):
         """
         Find a solution in the interval, [a1, a2], assuming that phi(a1) < phi(a2).
-- 
2.43.0


From 8aceeb4252738c6d17b0f15a744179877ad43b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 23/40] fix: cubic line search used an undefined slope when no
 root was acceptable

---
 smt/utils/line_search.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 4b840f3..dd80c37 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -260,4 +260,8 @@ class CubicLineSearch(BracketedLineSearch):
                 p = px
                 dp = self._dphi(r2)
 
+        if a is None:
+            # No root improves on the end points: fall back on the midpoint.
+            return super()._compute_minimum(a1, p1, dp1, a2, p2, dp2)
+
         return a, p, dp
-- 
2.43.0


From b2ce4e341febf8138e9f3cea60aa433e649f0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 24/40] fix: compute_rms_error of training derivatives used kx2
 before it was set

---
 smt/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index 7ae6257..e2842c1 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -37,7 +37,7 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         if kx is None:
             kx2 = 0
         else:
-            kx2 += 1
+            kx2 = kx + 1
         if kx2 not in sm.training_points[None]:
             raise ValueError(
                 "There is no training point data available for kx %s" % kx2
-- 
2.43.0


From 590a792ddd592ca4cdd8242493e691b547a84c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 25/40] fix: compute_rms_error returned None when only one of
 xe and ye was given

---
 smt/utils/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index e2842c1..9671dca 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -50,3 +50,5 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         num = np.linalg.norm(yt2 - yt)
         den = np.linalg.norm(yt)
         return num / den
+    else:
+        raise ValueError("xe and ye must be given together")
-- 
2.43.0


From 8d177f985c3b0a8491603305b6808c33272f3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 26/40] fix: RMTS ignored the option grad_weight

---
 smt/surrogate_models/rmts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index df8b228..7db194d 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -167,7 +167,7 @@ class RMTS(SurrogateModel):
             if kx == 0:
                 c = 1.0
             else:
-                self.options["grad_weight"] / xlimits.shape[0]
+                c = self.options["grad_weight"] / xlimits.shape[0]
 
             full_jac = self._compute_jac(kx, 0, xt)
             full_jac_dict[kx] = (full_jac, full_jac.T.tocsc(), c)
-- 
2.43.0


From 8b165a265c7e8c4e34d0da17518130a5a60ca56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 27/40] fix: matern52 second derivatives used theta_r before it
 was set

---
 smt/utils/kriging_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index bbd53f6..0cd1407 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -317,8 +317,9 @@ def matern52(theta, d, grad_ind=None, hess_ind=None, derivative_params=None):
 
     M52 = r.copy()
 
+    theta_r = theta.reshape(1, n_components)
+
     if grad_ind is not None:
-        theta_r = theta.reshape(1, n_components)
         while i * nb_limit <= d.shape[0]:
             fact_1 = (
                 np.sqrt(5) * d[i * nb_limit : (i + 1) * nb_limit, grad_ind]
-- 
2.43.0


From a08cdbac4cfa50a3135f1ae2300c7207f4cce9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 28/40] fix: _caching_checksum left a model without its printer
 when pickling failed

---
 smt/utils/caching.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index dd7a02c..4c9bea4 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -62,18 +62,16 @@ def _caching_checksum(obj):
     str
         Hexadecimal string checksum that was computed.
     """
-    try:
-        tmp = obj["self"].printer
-        obj["self"].printer = None
-    except:
-        pass
-
-    self_pkl = pickle.dumps(obj)
-    checksum = hashlib.md5(self_pkl).hexdigest()
+    model = obj.get("self") if isinstance(obj, dict) else None
+    has_printer = hasattr(model, "printer")
+    if has_printer:
+        printer = model.printer
+        model.printer = None
 
     try:
-        obj["self"].printer = tmp
-    except:
-        pass
+        self_pkl = pickle.dumps(obj)
+    finally:
+        if has_printer:
+            model.printer = printer
 
-    return checksum
+    return hashlib.md5(self_pkl).hexdigest()
-- 
2.43.0


From 5ea5f3234917f7b97727d6ab9457f763698c18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 29/40] fix: VFM used undefined derivatives when deriv was
 asked for without them

---
 smt/applications/vfm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 92e8212..202cdfd 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -149,10 +149,8 @@ class VFM(SurrogateBasedApplication):
         self.nx = X_LF.shape[1]
         self.ny = y_LF.shape[1]
 
-        if self.options["dy_LF"] is not None:
-            dy_LF = self.options["dy_LF"]
-        if self.options["dy_HF"] is not None:
-            dy_HF = self.options["dy_HF"]
+        dy_LF = self.options["dy_LF"]
+        dy_HF = self.options["dy_HF"]
 
         # Check parameters
         class_LF, class_bridge = self._check_param()
@@ -162,6 +160,8 @@ class VFM(SurrogateBasedApplication):
         self.LF_deriv = options_LF.pop("deriv", False)
         options_bridge = dict(self.options["options_bridge"])
         self.B_deriv = options_bridge.pop("deriv", False)
+        if (self.LF_deriv and dy_LF is None) or (self.B_deriv and dy_HF is None):
+            raise ValueError("Check dy_LF and dy_HF")
 
         # Train the low fidelity model
         sm_LF = class_LF(**options_LF)
-- 
2.43.0


From a8fea4d7f0b12de7ccb0da9e57b1149d22893252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 30/40] fix: the solver dense-lu rejected the sparse matrices
 of RMTB and RMTC

---
 smt/utils/linear_solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 75939e6..d6fdb59 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -167,6 +167,8 @@ class DenseLUSolver(LinearSolver):
     def _setup(self, mtx, printer, mg_matrices=[]):
         self.printer = printer
         with self._active(self.options["print_init"]) as printer:
+            if scipy.sparse.issparse(mtx):
+                mtx = mtx.toarray()
             self.mtx = mtx
             assert isinstance(mtx, np.ndarray), "mtx is of type %s" % type(mtx)
 
-- 
2.43.0


From 9e13bd165b99fa28a6364454fdb774f5e51e3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 31/40] fix: the preconditioner dense of the Krylov solver was
 ignored

---
 smt/utils/linear_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index d6fdb59..5623779 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -28,7 +28,7 @@ VALID_SOLVERS = (
 
 
 def get_solver(solver):
-    if solver == "dense-lu":
+    if solver == "dense-lu" or solver == "dense":
         return DenseLUSolver()
     elif solver == "dense-chol":
         return DenseCholeskySolver()
-- 
2.43.0


From d34e2eb24dcf473d58e8e5037341d0f0cbd4d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 32/40] fix: the dense Cholesky solver dropped its result
 unless the arrays were contiguous

---
 smt/utils/linear_solvers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 5623779..d018d10 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -154,11 +154,8 @@ class DenseCholeskySolver(LinearSolver):
                 sol = np.array(rhs)
 
             with printer._timed_context("Back solving (%i x %i mtx)" % self.mtx.shape):
-                sol[:] = rhs
-                scipy.linalg.solve_triangular(
-                    self.upper, sol, overwrite_b=True, trans="T"
-                )
-                scipy.linalg.solve_triangular(self.upper, sol, overwrite_b=True)
+                tmp = scipy.linalg.solve_triangular(self.upper, rhs, trans="T")
+                sol[:] = scipy.linalg.solve_triangular(self.upper, tmp)
 
         return sol
 
-- 
2.43.0


From 7483f4a033bc597215bc349caa23411dbbaddbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 33/40] fix: a LineSearch given as option line_search was
 ignored

---
 smt/utils/line_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index dd80c37..5841dd2 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -21,6 +21,8 @@ def get_line_search_class(line_search):
         return CubicLineSearch
     elif line_search == "null":
         return NullLineSearch
+    elif isinstance(line_search, LineSearch):
+        return line_search.__class__
 
 
 class LineSearch(object):
-- 
2.43.0


From a74975145e740ecc2b039506658f7b1ec119c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:36 +0000
Subject: [PATCH 34/40] fix: LS and QP never stored what data_dir should keep,
 and a restored RBF had no output derivatives

---
 smt/surrogate_models/ls.py  | 4 ++--
 smt/surrogate_models/qp.py  | 4 ++--
 smt/surrogate_models/rbf.py | 2 ++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/ls.py b/smt/surrogate_models/ls.py
index 8b3fc86..9f44d96 100644
--- a/smt/surrogate_models/ls.py
+++ b/smt/surrogate_models/ls.py
@@ -62,10 +62,10 @@ class LS(SurrogateModel):
         inputs = {"self": self}
         with cached_operation(inputs, self.options["data_dir"]) as outputs:
             if outputs:
-                self.sol = outputs["sol"]
+                self.mod = outputs["mod"]
             else:
                 self._new_train()
-                # outputs['sol'] = self.sol
+                outputs["mod"] = self.mod
 
     def _predict_values(self, x):
         """
diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index d8492e4..ec48d30 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -64,10 +64,10 @@ class QP(SurrogateModel):
         inputs = {"self": self}
         with cached_operation(inputs, self.options["data_dir"]) as outputs:
             if outputs:
-                self.sol = outputs["sol"]
+                self.coef = outputs["coef"]
             else:
                 self._new_train()
-                # outputs['sol'] = self.sol
+                outputs["coef"] = self.coef
 
     def _response_surface(self, x):
         """
diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index 6dd023b..742e21d 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -142,9 +142,11 @@ class RBF(SurrogateModel):
 
             if outputs:
                 self.sol = outputs["sol"]
+                self.mtx = outputs["mtx"]
             else:
                 self._new_train()
                 outputs["sol"] = self.sol
+                outputs["mtx"] = self.mtx
 
     def _predict_values(self, x):
         """
-- 
2.43.0


From 997ff49e7242bba9363c07a9b4f5b4265799e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 35/40] fix: Silence2 redirected nothing, the results of map
 were never consumed

---
 smt/utils/silence.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/smt/utils/silence.py b/smt/utils/silence.py
index 75a5149..7cdedec 100644
--- a/smt/utils/silence.py
+++ b/smt/utils/silence.py
@@ -96,7 +96,7 @@ class Silence2:
         # save previous stdout/stderr
         self.saved_streams = saved_streams = sys.__stdout__, sys.__stderr__
         self.fds = fds = [s.fileno() for s in saved_streams]
-        self.saved_fds = map(os.dup, fds)
+        self.saved_fds = [os.dup(fd) for fd in fds]
         # flush any pending output
         for s in saved_streams:
             s.flush()
@@ -106,14 +106,17 @@ class Silence2:
             null_streams = [open(self.outfiles[0], self.mode, 0)] * 2
             if self.outfiles[0] != os.devnull:
                 # disable buffering so output is merged immediately
-                sys.stdout, sys.stderr = map(os.fdopen, fds, ["w"] * 2, [0] * 2)
+                sys.stdout, sys.stderr = [
+                    open(fd, "w", 1, closefd=False) for fd in fds
+                ]
         else:
             null_streams = [open(f, self.mode, 0) for f in self.outfiles]
         self.null_fds = null_fds = [s.fileno() for s in null_streams]
         self.null_streams = null_streams
 
         # overwrite file objects and low-level file descriptors
-        map(os.dup2, null_fds, fds)
+        for null_fd, fd in zip(null_fds, fds):
+            os.dup2(null_fd, fd)
 
     def __exit__(self, *args):
         sys = self.sys
@@ -121,7 +124,9 @@ class Silence2:
         for s in self.saved_streams:
             s.flush()
         # restore original streams and file descriptors
-        map(os.dup2, self.saved_fds, self.fds)
+        for saved_fd, fd in zip(self.saved_fds, self.fds):
+            os.dup2(saved_fd, fd)
+            os.close(saved_fd)
         sys.stdout, sys.stderr = self.saved_streams
         # clean up
         for s in self.null_streams:
-- 
2.43.0


From d35b83bd65a9043a2039c51ce70f623af9f97774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 36/40] fix: MOE did not raise its error for an empty list of
 experts

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index bc37b24..74321cd 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -367,7 +367,7 @@ class MOE(SurrogateBasedApplication):
                 if name not in self.options["deny"]
             }
         if not prototypes:
-            ValueError(
+            raise ValueError(
                 "List of possible experts is empty: check support, allow and deny options wrt"
             )
         return {name: self._surrogate_type[name] for name in prototypes}
-- 
2.43.0


From 5f6e702ff7198b26cf6fe49e4b2f5d84683f8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 37/40] fix: the Kriging models printed warnings with
 print_global=False

---
 smt/surrogate_models/krg_based.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 2921576..dc11840 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -162,9 +162,10 @@ class KrgBased(SurrogateModel):
         # Calculate matrix of distances D between samples
         D, self.ij = cross_distances(self.X_norma)
         if np.min(np.sum(np.abs(D), axis=1)) == 0.0:
-            print(
-                "Warning: multiple x input features have the same value (at least same row twice)."
-            )
+            if self.options["print_global"]:
+                print(
+                    "Warning: multiple x input features have the same value (at least same row twice)."
+                )
         ####
         # Regression matrix and parameters
         self.F = self._regression_types[self.options["poly"]](self.X_norma)
@@ -272,7 +273,8 @@ class KrgBased(SurrogateModel):
         try:
             C = linalg.cholesky(R, lower=True)
         except (linalg.LinAlgError, ValueError) as e:
-            print("exception : ", e)
+            if self.options["print_global"]:
+                print("exception : ", e)
             # raise e
             return reduced_likelihood_function_value, par
 
@@ -937,9 +939,10 @@ class KrgBased(SurrogateModel):
                         self.theta0[i] * (theta_bounds[1] - theta_bounds[0])
                         + theta_bounds[0]
                     )
-                    print(
-                        "Warning: theta0 is out the feasible bounds. A random initialisation is used instead."
-                    )
+                    if self.options["print_global"]:
+                        print(
+                            "Warning: theta0 is out the feasible bounds. A random initialisation is used instead."
+                        )
 
                 if self.name in ["MGP"]:  # to be discussed with R. Priem
                     constraints.append(lambda theta, i=i: theta[i] + theta_bounds[1])
@@ -982,9 +985,10 @@ class KrgBased(SurrogateModel):
                             or self.noise0[i] > noise_bounds[1]
                         ):
                             self.noise0[i] = noise_bounds[0]
-                            print(
-                                "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
-                            )
+                            if self.options["print_global"]:
+                                print(
+                                    "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
+                                )
 
                     theta0 = np.concatenate(
                         [theta0, np.log10(np.array([self.noise0]).flatten())]
@@ -1109,12 +1113,14 @@ class KrgBased(SurrogateModel):
                                 )
                     # Optimization fail
                     elif best_optimal_par == []:
-                        print("Optimization failed. Try increasing the ``nugget``")
+                        if self.options["print_global"]:
+                            print("Optimization failed. Try increasing the ``nugget``")
                         raise ve
                     # Break the while loop
                     else:
                         k = stop + 1
-                        print("fmin_cobyla failed but the best value is retained")
+                        if self.options["print_global"]:
+                            print("fmin_cobyla failed but the best value is retained")
 
             if "KPLSK" in self.name:
                 if self.options["eval_noise"]:
-- 
2.43.0


From 119a17202b9b690b6471493d384e3a9c18d6cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 38/40] fix: GENN printed its progress with print_global=False

---
 smt/surrogate_models/genn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 7b26efb..c641194 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -178,7 +178,7 @@ class GENN(SurrogateModel):
         num_iterations = self.options["num_iterations"]
         num_epochs = self.options["num_epochs"]
         seed = self.options["seed"]
-        is_print = self.options["is_print"]
+        is_print = self.options["is_print"] and self.options["print_global"]
 
         # If there are no training derivatives, turn off gradient-enhancement
         if type(J) == np.ndarray and J.size == 0:
-- 
2.43.0


From 10b861ce8be1a9bc58d94ad87137a7bb65273111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 39/40] fix: predict_output_derivatives ignored print_global
 and print_prediction

---
 smt/surrogate_models/surrogate_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index ab88257..f761586 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -370,6 +370,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "output_derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        self.printer.active = (
+            self.options["print_global"] and self.options["print_prediction"]
+        )
 
         dy_dyt = self._predict_output_derivatives(x)
         return dy_dyt
-- 
2.43.0


From dd4bc23d23df716cd440a339171c03b825c67607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 40/40] fix: derivatives of MGP predictions in the
 hyperparameters were in units of the standardised outputs

---
 smt/surrogate_models/krg_mgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index c595b8b..4943d8d 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -293,7 +293,8 @@ class MGP(KrgBased):
                 - r.dot(Rinv_dR_gamma[omega] + Rinv_dmu[omega])
             )
 
-            dy[omega, :] = dy_omega[:, 0]
+            # Back to the units of the training outputs
+            dy[omega, :] = self.y_std * dy_omega[:, 0]
 
         return dy
 
-- 
2.43.0

