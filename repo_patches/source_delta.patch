From eb2854e9ac913f02afcab545f5dec1655261064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 01/28] fix: compare the likelihood variance with the squared
 maximum uncertainty

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 7451ef8..8ba8cc0 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self.maximum_uncertainty < variance), nan=0)
+        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From fd1631a494fb60cfd2dd035452cad23f22cb1935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 02/28] fix: use the determinant of the covariance matrix in
 the 2d Gaussian

---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index b8a909a..790dfd4 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -217,7 +217,7 @@ def unnormalized_2d_gaussian(xx, yy, mu_x, mu_y, sigma_x, sigma_y, covariance):
     prob: array-like
         The unnormalized probability distribution (:math:`p(x)`)
     """
-    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance)
+    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance**2)
     residual_x = (mu_x - xx) * sigma_y
     residual_y = (mu_y - yy) * sigma_x
     prob = xp.exp(
-- 
2.43.0


From e1c89ca1b2bd53f26491ff1b3f868745befee9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 03/28] fix: the gamma distribution in numpyro takes a rate,
 not a scale

---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 9c55d93..267777c 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -75,7 +75,7 @@ def gwpopulation_likelihood_model(
 
         total_hypervolume = selector.surveyed_hypervolume(parameters)
         vt = total_hypervolume * efficiency
-        _ = sample("rate", Gamma(likelihood.n_posteriors, 1 / vt))
+        _ = sample("rate", Gamma(likelihood.n_posteriors, vt))
         if predictive_resample:
             posterior_predictive_resample(
                 selector.data,
-- 
2.43.0


From dd6d12f418f232d0c68bb61a0cee6051369e18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 04/28] fix: select the event row of the weights in the numpyro
 resampling

---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 267777c..ebce2ec 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -128,7 +128,7 @@ def posterior_predictive_resample(
         The keys to fit. Default is :code:`None`, which fits all keys in :code:data.
     """
     if event is not None:
-        weights = weights[:, event]
+        weights = weights[event]
     weights /= jnp.sum(weights)
     n_points = int(weights.shape[0])
     idx = jax.random.choice(
-- 
2.43.0


From 6de74be317a2356ea164140da4f725383b8bc9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 05/28] fix: detector to source frame conversion does not
 depend on the key order

---
 gwpopulation/experimental/cosmo_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 14b346a..8eb08c9 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -105,6 +105,7 @@ class CosmoMixin:
                 "Either luminosity_distance or redshift must be provided in data for detector frame to source frame samples conversion"
             )
         else:
+            samples["redshift"] = data["redshift"]
             jacobian = xp.ones(data["redshift"].shape)
 
         for key in list(data.keys()):
-- 
2.43.0


From 8497487adc8cd0b3c1226b247914b0b77436528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 06/28] fix: do not modify the input mean and variance in place

---
 gwpopulation/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/conversions.py b/gwpopulation/conversions.py
index f2afbcf..f4ecf25 100644
--- a/gwpopulation/conversions.py
+++ b/gwpopulation/conversions.py
@@ -128,8 +128,8 @@ def mu_var_max_to_alpha_beta_max(mu, var, amax):
     amax: float
         The maximum spin (:math:`a_\max`)
     """
-    mu /= amax
-    var /= amax**2
+    mu = mu / amax
+    var = var / amax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta, amax
-- 
2.43.0


From db9324ed7bc3444e8859b78cf9629cfe0f7d9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 07/28] fix: GridVT does not remove the sensitivity from the
 caller's dictionary

---
 gwpopulation/vt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 1e17d80..9d611e6 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -85,8 +85,10 @@ class GridVT(_BaseVT):
     """
 
     def __init__(self, model, data):
-        self.vts = xp.asarray(data.pop("vt"))
-        super(GridVT, self).__init__(model=model, data=data)
+        self.vts = xp.asarray(data["vt"])
+        super(GridVT, self).__init__(
+            model=model, data={key: data[key] for key in data if key != "vt"}
+        )
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
         shape = np.array(list(self.data.values())[0].shape)
         lens = {key: len(self.values[key]) for key in self.data}
-- 
2.43.0


From 98e8ed9e546e793130836625168fb78f8848991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 08/28] fix: GridVT finds the axis of each parameter when axes
 have equal lengths

---
 gwpopulation/vt.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 9d611e6..925528d 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -92,7 +92,17 @@ class GridVT(_BaseVT):
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
         shape = np.array(list(self.data.values())[0].shape)
         lens = {key: len(self.values[key]) for key in self.data}
-        self.axes = {int(np.where(shape == lens[key])[0][0]): key for key in self.data}
+        self.axes = dict()
+        for key, value in self.data.items():
+            axes = [
+                int(ii) for ii in np.where(shape == lens[key])[0] if ii not in self.axes
+            ]
+            varying = [
+                ii
+                for ii in axes
+                if not xp.all(xp.take(value, 0, axis=ii) == xp.take(value, -1, axis=ii))
+            ]
+            self.axes[(varying + axes)[0]] = key
         self.ndim = len(self.axes)
 
     def __call__(self, parameters):
-- 
2.43.0


From 37207054a7ac0cc0f147fc854d87da2b860d0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 09/28] fix: a failed backend switch leaves the previous
 backend in place

---
 gwpopulation/backend.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 3dd127a..0ea72ad 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -142,15 +142,13 @@ def set_backend(backend="numpy"):
 
     xp, scs = _load_numpy_and_scipy(backend)
 
-    __backend__ = backend
     all_with_xp, all_with_scs, others = modules_to_update()
-    for module in all_with_xp:
-        setattr(import_module(module), "xp", xp)
-    for module in all_with_scs:
-        setattr(import_module(module), "scs", scs)
-    for module, func in others.items():
-        setattr(
-            import_module(module),
-            func.split(".")[-1],
-            _load_arbitrary(func, backend),
-        )
+    updates = [(import_module(module), "xp", xp) for module in all_with_xp]
+    updates += [(import_module(module), "scs", scs) for module in all_with_scs]
+    updates += [
+        (import_module(module), func.split(".")[-1], _load_arbitrary(func, backend))
+        for module, func in others.items()
+    ]
+    for module, name, value in updates:
+        setattr(module, name, value)
+    __backend__ = backend
-- 
2.43.0


From 5fb7f7a3008ad9ea88c7f7179b2384bcf65769fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 10/28] fix: accept a power-law index of one

---
 gwpopulation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 790dfd4..8297e66 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -3,7 +3,7 @@ Helper functions for probability distributions and backend switching.
 """
 
 from numbers import Number
-from operator import ge, gt, ne
+from operator import ge, gt
 
 import numpy as np
 from scipy import special as scs
@@ -94,7 +94,7 @@ def beta_dist(xx, alpha, beta, scale=1):
     return prob
 
 
-@apply_conditions(dict(low=(ge, 0), alpha=(ne, 1)))
+@apply_conditions(dict(low=(ge, 0)))
 def powerlaw(xx, alpha, high, low):
     r"""
     Power-law probability
-- 
2.43.0


From 8d55955587be54eff321e49698bc63ee8ddae28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 11/28] fix: keep the spline configuration when the number of
 nodes is inferred

---
 gwpopulation/models/interped.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 9a93929..8bd7cbb 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -255,4 +255,13 @@ class InterpolatedNoBaseModelIdentical:
             print(
                 f"Different number of nodes! Using {nodes} nodes instead of {self.nodes}"
             )
-            self.__init__(nodes=nodes)
+            InterpolatedNoBaseModelIdentical.__init__(
+                self,
+                parameters=self.parameters,
+                minimum=self.min,
+                maximum=self.max,
+                nodes=nodes,
+                kind=self.kind,
+                log_nodes=self.log_nodes,
+                regularize=self.regularize,
+            )
-- 
2.43.0


From 6e824a1a708828bebf185590ba4e88540a5c18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 12/28] fix: normalise the interpolated power law over the
 range of its nodes

---
 gwpopulation/models/mass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 826d827..cb61ca2 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -936,10 +936,12 @@ class InterpolatedPowerlaw(
         )
         p_m *= self.p_x_unnormed(dataset, "mass_1", m_splines, f_splines, **kwargs)
 
-        norm = self.norm_p_m1(delta_m=delta_m, f_splines=f_splines, **kwargs)
+        norm = self.norm_p_m1(
+            delta_m=delta_m, f_splines=f_splines, x_splines=m_splines, **kwargs
+        )
         return p_m / norm
 
-    def norm_p_m1(self, delta_m, f_splines=None, **kwargs):
+    def norm_p_m1(self, delta_m, f_splines=None, x_splines=None, **kwargs):
         mmin = kwargs.get("mmin", self.mmin)
         p_m = self.__class__.primary_model(
             self.m1s, **{key: kwargs[key] for key in ["alpha", "mmin", "mmax"]}
@@ -948,5 +950,7 @@ class InterpolatedPowerlaw(
             delta_m > 0
         )
         p_m *= xp.exp(self._norm_spline(y=f_splines))
+        if x_splines is not None:
+            p_m *= (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From 5fe28537e62e94af0dc49cd2bd74f5f4a79ba3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 13/28] fix: reject unconverged marginalized selection with no
 effective samples

---
 gwpopulation/vt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 925528d..af6c2e0 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -238,11 +238,10 @@ class ResamplingVT(_BaseVT):
             The uncertainty-marginalized vt_factor
         """
         mu, var = self.detection_efficiency(parameters)
-        _, correction = self.check_convergence(mu, var)
-        n_effective = mu**2 / var
+        converged, _ = self.check_convergence(mu, var)
+        n_effective = xp.divide(mu**2, var)
         vt_factor = mu / xp.exp((3 + self.n_events) / 2 / n_effective)
-        vt_factor += correction
-        return vt_factor
+        return to_number(xp.where(converged, vt_factor, xp.inf), float)
 
     def detection_efficiency(self, parameters):
         r"""
-- 
2.43.0


From d12a6bdb5b58b4716c0fb11128c68448ab0c5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 14/28] fix: no ZeroDivisionError when the selection function
 vanishes

---
 gwpopulation/hyperpe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 8ba8cc0..d5f10c1 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -266,7 +266,7 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance /= selection**2
+        variance = xp.divide(variance, selection**2)
         selection_variance = variance * self.n_posteriors**2
         sample["selection"] = selection
         sample["selection_variance"] = variance
@@ -467,7 +467,7 @@ class RateLikelihood(HyperparameterLikelihood):
         n_expected = selection * parameters["rate"]
         total_selection = -n_expected + self.n_posteriors * xp.log(parameters["rate"])
         if return_uncertainty:
-            total_variance = n_expected * variance / selection**2
+            total_variance = n_expected * xp.divide(variance, selection**2)
             return total_selection, total_variance
         else:
             return total_selection
-- 
2.43.0


From 10b249d626498fa425596d098bbec0c97ee304cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 15/28] fix: rate samples with a selection function that
 returns its variance

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index d5f10c1..c8da283 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -307,7 +307,7 @@ class HyperparameterLikelihood(Likelihood):
             efficiency, _ = self.selection_function.detection_efficiency(parameters)
             vt = efficiency * self.selection_function.surveyed_hypervolume(parameters)
         else:
-            vt = self.selection_function(parameters)
+            vt, _ = self._selection_function_with_uncertainty(parameters)
         rate = gamma(a=self.n_posteriors).rvs() / vt
         return rate
 
-- 
2.43.0


From 08b79d6912c0be608f0e81d2e4258c65688e1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:06 +0000
Subject: [PATCH 16/28] fix: zero density outside the spline nodes where the
 extrapolation overflows

---
 gwpopulation/models/interped.py | 9 ++++-----
 gwpopulation/models/mass.py     | 6 ++++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 8bd7cbb..ef3cd8e 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -152,11 +152,10 @@ class InterpolatedNoBaseModelIdentical:
 
         perturbation = self._data_spline[parameter](y=f_splines)
 
-        p_x = xp.exp(perturbation)
-        p_x *= (dataset[f"{parameter}"] >= x_splines[0]) & (
+        in_range = (dataset[f"{parameter}"] >= x_splines[0]) & (
             dataset[f"{parameter}"] <= x_splines[-1]
         )
-        return p_x
+        return xp.where(in_range, xp.exp(perturbation), 0.0)
 
     def norm_p_x(self, f_splines=None, x_splines=None, **kwargs):
         """
@@ -176,8 +175,8 @@ class InterpolatedNoBaseModelIdentical:
             The normalization of the spline
         """
         perturbation = self._norm_spline(y=f_splines)
-        p_x = xp.exp(perturbation)
-        p_x *= (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        in_range = (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        p_x = xp.where(in_range, xp.exp(perturbation), 0.0)
         norm = trapezoid(p_x, self._xs)
         return norm
 
diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index cb61ca2..86b75dd 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -949,8 +949,10 @@ class InterpolatedPowerlaw(
         p_m *= self.smoothing(self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m) ** (
             delta_m > 0
         )
-        p_m *= xp.exp(self._norm_spline(y=f_splines))
+        spline = xp.exp(self._norm_spline(y=f_splines))
         if x_splines is not None:
-            p_m *= (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
+            in_range = (self.m1s >= x_splines[0]) & (self.m1s <= x_splines[-1])
+            spline = xp.where(in_range, spline, 0.0)
+        p_m *= spline
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From 1a50f1302361bf6ebe70c60e7599c9c4b1c780a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 17/28] fix: numpyro resampling of injections with scalar
 metadata

---
 gwpopulation/experimental/numpyro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index ebce2ec..4a5acb0 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -139,7 +139,8 @@ def posterior_predictive_resample(
         replace=False,
     )
     if fit_keys is None:
-        fit_keys = data.keys()
+        # scalar entries are metadata of the data set, e.g., the number of injections
+        fit_keys = [key for key, value in data.items() if jnp.ndim(value) > 0]
     for key in fit_keys:
         if event is None:
             deterministic(f"{key}_{label}", data[key][idx])
-- 
2.43.0


From d21f2278a9cd69d274351402429c1fa97bb775a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:26 +0000
Subject: [PATCH 18/28] fix: options of the jitted likelihood function are
 static

---
 gwpopulation/experimental/jax.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 0bf670d..d8d5104 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -56,7 +56,13 @@ class JittedLikelihood(Likelihood):
             kwargs = dict()
         self.kwargs = kwargs
         self._likelihood = likelihood
-        self.likelihood_func = jit(partial(likelihood_func, likelihood))
+        # options such as use_ratio determine the control flow and cannot be traced
+        options = [
+            key for key, value in kwargs.items() if isinstance(value, (bool, str))
+        ]
+        self.likelihood_func = jit(
+            partial(likelihood_func, likelihood), static_argnames=options
+        )
         super().__init__()
 
     def __getattr__(self, name):
-- 
2.43.0


From 2da73a5ca161a3eb38741fa7b08776acea595678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:26 +0000
Subject: [PATCH 19/28] fix: the jitted likelihood has the noise evidence of
 the wrapped likelihood

---
 gwpopulation/experimental/jax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index d8d5104..00279be 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -70,3 +70,6 @@ class JittedLikelihood(Likelihood):
 
     def log_likelihood_ratio(self, parameters):
         return float(np.nan_to_num(self.likelihood_func(parameters, **self.kwargs)))
+
+    def noise_log_likelihood(self):
+        return self._likelihood.noise_log_likelihood()
-- 
2.43.0


From 068a2010105cd862e3eed42d57a401d61d9f54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:05 +0000
Subject: [PATCH 20/28] fix: reject a negative minimum mass in the independent
 power laws

The limits were passed by position, for which powerlaw does not check its
conditions: a negative minimum mass gave undefined densities.
---
 gwpopulation/models/mass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 86b75dd..f484048 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -241,8 +241,8 @@ def power_law_primary_secondary_independent(dataset, alpha, beta, mmin, mmax):
     mmax: float
         Maximum black hole mass (:math:`m_\max`).
     """
-    p_m1 = powerlaw(dataset["mass_1"], -alpha, mmax, mmin)
-    p_m2 = powerlaw(dataset["mass_2"], -beta, mmax, mmin)
+    p_m1 = powerlaw(dataset["mass_1"], alpha=-alpha, high=mmax, low=mmin)
+    p_m2 = powerlaw(dataset["mass_2"], alpha=-beta, high=mmax, low=mmin)
     prob = _primary_secondary_general(dataset, p_m1, p_m2)
     return prob
 
-- 
2.43.0


From 539eac4c5909d13c46eafed3f5ef9866173f4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:25 +0000
Subject: [PATCH 21/28] fix: zero beta density for non-positive shape
 parameters

Only negative integers gave zero (through an infinite beta function); other
negative values gave a finite, non-zero density that is not normalisable.
---
 gwpopulation/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 8297e66..a8bea91 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -91,6 +91,7 @@ def beta_dist(xx, alpha, beta, scale=1):
     prob = xp.exp(ln_beta)
     prob = xp.nan_to_num(prob)
     prob *= (xx >= 0) * (xx <= scale)
+    prob *= (alpha > 0) * (beta > 0)
     return prob
 
 
-- 
2.43.0


From 419ab0bbc65eca91185c6c87959db76a3c44320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:51 +0000
Subject: [PATCH 22/28] fix: do not extend the parameter names declared by a
 primary mass model

---
 gwpopulation/models/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index f484048..70e1892 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -551,7 +551,7 @@ class BaseSmoothedMassDistribution:
             "variable_names",
             inspect.getfullargspec(self.primary_model).args[1:],
         )
-        vars += ["beta", "delta_m"]
+        vars = list(vars) + ["beta", "delta_m"]
         vars = set(vars).difference(self.kwargs.keys())
         return vars
 
-- 
2.43.0


From 8169fdf0c5da43204ab538e17589fa5442d60a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:30 +0000
Subject: [PATCH 23/28] fix: evaluate the conversion on a copy of the
 parameters as elsewhere

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index c8da283..a1714ea 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -164,7 +164,7 @@ class HyperparameterLikelihood(Likelihood):
         """
         Compute the ln likelihood estimator and its variance.
         """
-        parameters, added_keys = self.conversion_function(parameters)
+        parameters, added_keys = self.conversion_function(parameters.copy())
         ln_bayes_factors, variances = self._compute_per_event_ln_bayes_factors(
             parameters
         )
-- 
2.43.0


From 950b503f50a39edd1a9deb73abfdeacb4dba9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:56 +0000
Subject: [PATCH 24/28] fix: power law down to a lower limit of zero

---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index a8bea91..4c1b15e 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -122,7 +122,7 @@ def powerlaw(xx, alpha, high, low):
     """
     norm = xp.where(
         xp.array(alpha) == -1,
-        1 / xp.log(high / low),
+        1 / xp.log(xp.array(high) / low),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob = xp.power(xx, alpha)
-- 
2.43.0


From 77a83afd6e905befde1f23aa86cf61ef36e4cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:56 +0000
Subject: [PATCH 25/28] fix: power law vanishes for samples at or below zero
 outside its limits

---
 gwpopulation/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 4c1b15e..c6ad7af 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -125,9 +125,10 @@ def powerlaw(xx, alpha, high, low):
         1 / xp.log(xp.array(high) / low),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
-    prob = xp.power(xx, alpha)
+    in_bounds = (xx <= high) & (xx >= low)
+    prob = xp.power(xp.where(in_bounds, xx, high), alpha)
     prob *= norm
-    prob *= (xx <= high) & (xx >= low)
+    prob *= in_bounds
     return prob
 
 
-- 
2.43.0


From 38cfd0a6c5076e7cc1736960d6205fd7de9f4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:56 +0000
Subject: [PATCH 26/28] fix: beta distribution at the ends of its support

---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index c6ad7af..663d2a0 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -85,7 +85,7 @@ def beta_dist(xx, alpha, beta, scale=1):
         The distribution evaluated at `xx`
 
     """
-    ln_beta = (alpha - 1) * xp.log(xx) + (beta - 1) * xp.log(scale - xx)
+    ln_beta = scs.xlogy(alpha - 1, xx) + scs.xlogy(beta - 1, scale - xx)
     ln_beta -= scs.betaln(alpha, beta)
     ln_beta -= (alpha + beta - 1) * xp.log(scale)
     prob = xp.exp(ln_beta)
-- 
2.43.0


From d88da12491a21a7528bdcfd06b177e99e4caeecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:06 +0000
Subject: [PATCH 27/28] fix: GridVT integrates over decreasing grid axes

---
 gwpopulation/vt.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index af6c2e0..947daec 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -102,15 +102,20 @@ class GridVT(_BaseVT):
                 for ii in axes
                 if not xp.all(xp.take(value, 0, axis=ii) == xp.take(value, -1, axis=ii))
             ]
-            self.axes[(varying + axes)[0]] = key
+            axis = (varying + axes)[0]
+            self.axes[axis] = key
+            # the values in their order along the axis, which may be decreasing
+            index = [0] * value.ndim
+            index[axis] = slice(None)
+            self.values[key] = value[tuple(index)]
         self.ndim = len(self.axes)
 
     def __call__(self, parameters):
         vt_fac = self.model.prob(self.data, **parameters) * self.vts
         for ii in range(self.ndim):
-            vt_fac = trapezoid(
-                vt_fac, self.values[self.axes[self.ndim - ii - 1]], axis=-1
-            )
+            values = self.values[self.axes[self.ndim - ii - 1]]
+            vt_fac = trapezoid(vt_fac, values, axis=-1)
+            vt_fac *= xp.sign(values[-1] - values[0])
         return vt_fac
 
 
-- 
2.43.0


From 92bc60c7562ebd880e979d3d2972fa869baa4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:52 +0000
Subject: [PATCH 28/28] fix: the extra statistics report the variance of the
 rate likelihood

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index a1714ea..7ef76c4 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -267,7 +267,7 @@ class HyperparameterLikelihood(Likelihood):
             parameters=parameters
         )
         variance = xp.divide(variance, selection**2)
-        selection_variance = variance * self.n_posteriors**2
+        _, selection_variance = self._get_selection_factor(parameters=parameters)
         sample["selection"] = selection
         sample["selection_variance"] = variance
         total_variance += selection_variance
-- 
2.43.0

