From f9f25107c7d362f17e7af4acff7ee3b698cf3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:33 +0000
Subject: [PATCH 01/36] fix: alpha_beta_from_mu_var must not modify the
 caller's arrays

---
 gwinferno/preprocess/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/conversions.py b/gwinferno/preprocess/conversions.py
index ca97a57..d86ecb5 100644
--- a/gwinferno/preprocess/conversions.py
+++ b/gwinferno/preprocess/conversions.py
@@ -103,8 +103,8 @@ def alpha_beta_from_mu_var(mu, var, xmax=1):
         Tuple of arrays with shape matching inputs that represent the
         α, β shape parameters corresponding to the desired means and variances.
     """
-    mu /= xmax
-    var /= xmax**2
+    mu = mu / xmax
+    var = var / xmax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta
-- 
2.43.0


From d509596657f725cd95d100bcb15204a902818afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 02/36] fix: smooth() must be 0 below xmin and 1 above xmin +
 dx

---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 40db691..f89782b 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -17,7 +17,7 @@ def smooth(dx, x, xmin):
 
     func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
     s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) | jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
+    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
     return s2
 
 
-- 
2.43.0


From 5154d9be603acaee16ec973496b16b942cbd9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 03/36] fix: betadist is NaN at the edges of its support for
 unit shape parameters

---
 gwinferno/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index f89782b..86558c3 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -5,6 +5,7 @@ a module for basic distribution pdf calculations with jax
 import jax.numpy as jnp
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
+from jax.scipy.special import xlogy
 
 """
 =============================================
@@ -157,6 +158,6 @@ def betadist(xx, alpha, beta, scale=1.0, floor=0.0):
     Returns:
         array_like: pdf evaluated at xx
     """
-    ln_beta = (alpha - 1) * jnp.log(xx) + (beta - 1) * jnp.log(scale - xx) - (alpha + beta - 1) * jnp.log(scale)
+    ln_beta = xlogy(alpha - 1, xx) + xlogy(beta - 1, scale - xx) - (alpha + beta - 1) * jnp.log(scale)
     ln_beta = ln_beta - betaln(alpha, beta)
     return jnp.where(jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0), jnp.exp(ln_beta), floor)
-- 
2.43.0


From 5efc4cfdd9b306c4b8f9aafb28c0e443b6b2a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:02 +0000
Subject: [PATCH 04/36] fix: cumtrapz integrated the wrong panels, shifting
 tabulated CDFs by one grid cell

---
 gwinferno/numpyro_distributions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 7b8a99a..8572041 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -20,8 +20,7 @@ from .models.bsplines.smoothing import apply_difference_prior
 def cumtrapz(y, x):
     difs = jnp.diff(x)
     idxs = jnp.array([i for i in range(1, len(y))])
-    res = jnp.cumsum(vmap(lambda i, d: d * (y[i] + y[i + 1]) / 2.0)(idxs, difs))
-    return jnp.concatenate([jnp.array([0]), res])
+    return jnp.cumsum(vmap(lambda i, d: d * (y[i - 1] + y[i]) / 2.0)(idxs, difs))
 
 
 class Sine(Distribution):
@@ -173,7 +172,7 @@ class PowerlawRedshift(Distribution):
         self.pdfs = self.dVdc_ * (1 + self.zs) ** (lamb - 1)
         self.norm = trapezoid(self.pdfs, self.zs)
         self.pdfs /= self.norm
-        self.cdfgrid = cumtrapz(self.pdfs, self.zs)
+        self.cdfgrid = jnp.concatenate([jnp.array([0]), cumtrapz(self.pdfs, self.zs)])
         self.cdfgrid = self.cdfgrid.at[-1].set(1)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
@@ -274,7 +273,7 @@ class BSplineDistribution(Distribution):
         self.pdfs = jnp.exp(self.lpdfs)
         self.norm = trapezoid(self.pdfs, self.grid)
         self.pdfs /= self.norm
-        self.cdfgrid = cumtrapz(self.pdfs, self.grid)
+        self.cdfgrid = jnp.concatenate([jnp.array([0]), cumtrapz(self.pdfs, self.grid)])
         self.cdfgrid = self.cdfgrid.at[-1].set(1)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
-- 
2.43.0


From b3d36c43116151ee8fc8d6000b44d75622e9cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:02 +0000
Subject: [PATCH 05/36] fix: Sine and Cosine densities ignored their bounds

---
 gwinferno/numpyro_distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 8572041..0a25ac4 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -46,8 +46,8 @@ class Sine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.sin(value) / 2.0)
-        return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
+        lp = jnp.log(jnp.sin(value) / (jnp.cos(self.minimum) - jnp.cos(self.maximum)))
+        return jnp.where(jnp.isnan(lp) | jnp.less(value, self.minimum) | jnp.greater(value, self.maximum), -jnp.inf, lp)
 
     def cdf(self, value):
         cdf = jnp.atleast_1d((jnp.cos(value) - jnp.cos(self.minimum)) / (jnp.cos(self.maximum) - jnp.cos(self.minimum)))
@@ -83,8 +83,8 @@ class Cosine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.cos(value) / 2.0)
-        return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
+        lp = jnp.log(jnp.cos(value) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
+        return jnp.where(jnp.isnan(lp) | jnp.less(value, self.minimum) | jnp.greater(value, self.maximum), -jnp.inf, lp)
 
     def cdf(self, value):
         cdf = jnp.atleast_1d((jnp.sin(value) - jnp.sin(self.minimum)) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
-- 
2.43.0


From 998569475b6cf0efaec2399242df8136a5e2913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:02 +0000
Subject: [PATCH 06/36] fix: sign of the normalisation of
 PowerlawSmoothedPowerlaw

---
 gwinferno/numpyro_distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 0a25ac4..3b5d50c 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -218,13 +218,13 @@ class PowerlawSmoothedPowerlaw(Distribution):
         batch_shape = broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(alpha), jnp.shape(alpha_max), jnp.shape(alpha_min))
         super(PowerlawSmoothedPowerlaw, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         gamma = (self.alpha_min + 1) / (self.minimum ** (self.alpha_min + 1) - self.low ** (self.alpha_min + 1))
-        self.k1 = -gamma / (
+        self.k1 = gamma / (
             1
-            + gamma
+            - gamma
             / (self.alpha + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
             * (self.minimum ** (self.alpha + 1) - self.maximum ** (self.alpha + 1))
-            + gamma
+            - gamma
             / (self.alpha_max + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
             * self.maximum ** (self.alpha - self.alpha_max)
-- 
2.43.0


From 5288bb9a447573d465356eccccf8331ef6a6fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 07/36] fix: natural boundary condition at the last knot of the
 cubic spline

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index aab3c38..055cf53 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -28,7 +28,7 @@ class NaturalCubicUnivariateSpline(object):
             assert n_data > 3, "Not enough input points for cubic spline."
             zero = jnp.array([0.0])
             one = jnp.array([1.0])
-            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, (-one), zero
+            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, zero, zero
             A = jnp.diag(jnp.concatenate((A00, 2 * (h[:-1] + h[1:]), ANN)))
             upper_diag1 = jnp.diag(jnp.concatenate((A01, h[1:])), k=1)
             upper_diag2 = jnp.diag(jnp.concatenate((A02, jnp.zeros(n_data - 3))), k=2)
-- 
2.43.0


From 276f62b624c55a699c105f004a58b8f47ca7ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 08/36] fix: pytree protocol of NaturalCubicUnivariateSpline

---
 gwinferno/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 055cf53..c108e66 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -43,10 +43,10 @@ class NaturalCubicUnivariateSpline(object):
 
     def tree_flatten(self):
         children = (self._x, self._y, self._coefficients)
-        return children
+        return children, None
 
     @classmethod
-    def tree_unflatten(cls, children):
+    def tree_unflatten(cls, aux_data, children):
         x, y, coefs = children
         return cls(x, y, coefs)
 
-- 
2.43.0


From d3cd3897a5fb0605e7cc25aa9a14e93886f872a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 09/36] fix: BasisSpline ignored the placement of non-uniform
 interior knots

---
 gwinferno/interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index c108e66..6182e9d 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -98,8 +98,10 @@ class BasisSpline(object):
         if knots is None:
             if interior_knots is None:
                 interior_knots = np.linspace(xrange[0], xrange[1], n_df - k + 2)
-            dx = interior_knots[1] - interior_knots[0]
-            knots = jnp.linspace(xrange[0] - dx * (k - 1), xrange[1] + dx * (k - 1), len(interior_knots) + (k - 1) * 2)
+            interior_knots = np.asarray(interior_knots)
+            dx_low, dx_high = interior_knots[1] - interior_knots[0], interior_knots[-1] - interior_knots[-2]
+            pad = np.arange(1, k)
+            knots = jnp.concatenate([xrange[0] - dx_low * pad[::-1], interior_knots, xrange[1] + dx_high * pad])
 
         self.knots = knots
         self.interior_knots = interior_knots
-- 
2.43.0


From d7849834a5f1533e1fb027123df8f01f5b15eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 10/36] fix: BasisSpline.project must not modify the caller's
 coefficients

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 6182e9d..3a11971 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -205,7 +205,7 @@ class BasisSpline(object):
         Returns:
             array_like: The linear combination of the basis components given the coefficients
         """
-        coefs /= jnp.sum(coefs)
+        coefs = coefs / jnp.sum(coefs)
         return jnp.einsum("i...,i->...", bases, coefs) * self.norm(coefs)
 
     def eval(self, xs, coefs):
-- 
2.43.0


From 3c4ba1cd37a48d4d250fe5d68e1533b355acd2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 11/36] fix: RectBivariateBasisSpline could not be built and
 mixed up its axes

---
 gwinferno/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 3a11971..a3cd686 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -501,7 +501,7 @@ class RectBivariateBasisSpline(object):
         Returns:
             float: the normalization factor given the coefficients
         """
-        n = 1.0 / trapezoid(trapezoid(self._project(self.grid_bases, coefs), self.gridy), self.gridx) if self.normalize else 1.0
+        n = 1.0 / trapezoid(trapezoid(self._project(self.grid_bases, coefs), self.gridx), self.gridy) if self.normalize else 1.0
         return n
 
     def _reset_bases(self):
@@ -521,10 +521,10 @@ class RectBivariateBasisSpline(object):
         """
         self.x_bases = self.x_interpolator.bases(xs)
         self.y_bases = self.y_interpolator.bases(ys)
-        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for i in range(self.xdf)] for j in range(self.ydf)]).reshape(
+        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for j in range(self.ydf)] for i in range(self.xdf)]).reshape(
             self.xdf, self.ydf, *xs.shape
         )
-        self.reset_bases()
+        self._reset_bases()
         return out
 
     def _project(self, bases, coefs):
-- 
2.43.0


From 9d8e6083332757883f936864d12c3cf6afec00f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 12/36] fix: Cosmology.DL2z beyond the table

---
 gwinferno/cosmology.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index b6c9eba..d230186 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -125,7 +125,10 @@ class Cosmology(object):
         """
         max_DL = jnp.max(DL)
         if max_DL > jnp.max(self.DL):  # need to extend the integration
-            self.extend(max_DL=max_DL, dz=dz)
+            max_z = self.z[-1]
+            while max_DL > jnp.max(self.DL):
+                max_z = 2 * max_z
+                self.extend(max_z, dz=dz)
         return jnp.interp(DL, self.DL, self.z)
 
     def z2DL(self, z, dz=DEFAULT_DZ):
-- 
2.43.0


From ea29e5f7fe7bd55d7dbe472c903f8a21a38c6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 13/36] fix: extended cosmology tables stopped short of the
 requested redshift

---
 gwinferno/cosmology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index d230186..fa15f0c 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -67,7 +67,7 @@ class Cosmology(object):
         integrate to solve for distance measures.
         """
 
-        self.z = jnp.arange(0, max_z, dz)
+        self.z = jnp.arange(0, max_z + dz, dz)
         Dc = jnp.zeros_like(self.z)
         Vc = jnp.zeros_like(self.z)
 
-- 
2.43.0


From aeb6534ab5ae2a445c1d5f9a4425ef1d421973e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:16 +0000
Subject: [PATCH 14/36] fix: normalisation of Powerlaw.log_prob for index -1

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 3b5d50c..e0dfec0 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -127,7 +127,7 @@ class Powerlaw(Distribution):
     def log_prob(self, value):
         logp = self.alpha * jnp.log(value)
         logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
-        logp_neg1 = -jnp.log(value) - jnp.log(self.maximum / self.minimum)
+        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
             jnp.nan_to_num(-jnp.inf),
-- 
2.43.0


From 1a7575bcc9f084839cda16b7347b592a16ef08ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:06 +0000
Subject: [PATCH 15/36] fix: effective-spin prior was NaN exactly at chi_eff =
 q a_max/(1+q)

Case D included its lower boundary, where its formula is inf - inf. Leave the
boundary to the average of the neighbouring values, as for all other cases.
---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index b53d987..611dc58 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -103,7 +103,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     caseA = (chi_eff > 0) * (chi_eff < a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < q * a_max / (1.0 + q))
     caseB = (chi_eff < a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > q * a_max / (1.0 + q))
     caseC = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < q * a_max / (1.0 + q))
-    caseD = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < a_max / (1.0 + q)) * (chi_eff >= q * a_max / (1.0 + q))
+    caseD = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < a_max / (1.0 + q)) * (chi_eff > q * a_max / (1.0 + q))
     caseE = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > a_max / (1.0 + q)) * (chi_eff < a_max)
     caseF = chi_eff >= a_max
 
-- 
2.43.0


From b59f5d6337c7a8bf809f85e57b799d0022616f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:06 +0000
Subject: [PATCH 16/36] fix: effective-spin prior failed for array mass ratios
 when a value lies on a case boundary

The boundary average evaluated a subset of chi_eff against all of q.
---
 gwinferno/preprocess/priors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 611dc58..5b694fb 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -96,6 +96,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     """
     # Ensure that `chi_eff` is an array and take absolute value
     chi_eff = np.abs(np.atleast_1d(chi_eff))
+    chi_eff, q = np.broadcast_arrays(chi_eff, q)
 
     # Set up various piecewise cases
     # pdfs = np.ones(chi_eff.size, dtype=complex) * (-1.0)
@@ -183,8 +184,8 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
     if np.any(boundaries):
         fallback[boundaries] = 0.5 * (
-            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q, a_max=a_max)
-            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q, a_max=a_max)
+            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q[boundaries], a_max=a_max)
+            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q[boundaries], a_max=a_max)
         )
 
     pdfs = np.select(
-- 
2.43.0


From 5e7625aafb0ccbf4235775caae7583414c41db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 17/36] fix: spline redshift normalization did not integrate
 the normalised spline that the density uses

---
 gwinferno/models/bsplines/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/bsplines/single.py b/gwinferno/models/bsplines/single.py
index 0a58119..bea31c5 100644
--- a/gwinferno/models/bsplines/single.py
+++ b/gwinferno/models/bsplines/single.py
@@ -464,7 +464,7 @@ class BSplineRedshift(Base1DBSplineModel):
             The redshift normalization constant.
         """
         return trapezoid(
-            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(jnp.einsum("i...,i->...", self.grid_bases, cs)),
+            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(self.eval_spline(self.grid_bases, cs)),
             self.zgrid,
         )
 
-- 
2.43.0


From 813327278d63c13c1c282d1d8f44365adcf38e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 18/36] fix: spline-perturbed redshift model log_prob raised a
 TypeError

---
 gwinferno/models/spline_perturbation.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 7c804e3..333b2bb 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -351,6 +351,29 @@ class PowerlawSplineRedshiftModel(PowerlawRedshiftModel):
         ndim = len(z.shape)
         return dVdz * jnp.power(1.0 + z, lamb - 1.0) * jnp.exp(self.interpolator.project(self.dmats[ndim - 1], cs))
 
+    def log_prob(self, z: jnp.ndarray, lamb: float, cs: jnp.ndarray):
+        """
+        log_prob Returns log probability
+
+        Args:
+            z (jnp.ndarray): Redshift
+            lamb (float): Power-law exponent for redshift model
+            cs (jnp.ndarray): B-Spline coefficients
+
+        Returns:
+            _type_:
+        """
+        ndim = len(z.shape)
+        dVdz = self.dVdzs[ndim - 1]
+        return jnp.where(
+            jnp.less_equal(z, self.zmax),
+            jnp.log(dVdz)
+            + (lamb - 1.0) * jnp.log(1.0 + z)
+            + self.interpolator.project(self.dmats[ndim - 1], cs)
+            - jnp.log(self.normalization(lamb, cs)),
+            jnp.nan_to_num(-jnp.inf),
+        )
+
     def __call__(self, z: jnp.ndarray, lamb: float, cs: jnp.ndarray) -> jnp.ndarray:
         """
         __call__
-- 
2.43.0


From 6d5d8efca8492270e73896acc9e8d8759347d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 19/36] fix: primary/ratio spline perturbation model could not
 be constructed (undefined attribute)

---
 gwinferno/models/spline_perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 333b2bb..c6a7ca0 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -217,7 +217,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
         self.qdmats = [self.qinj_design_matrix, self.qpe_design_matrix]
-        self.qshapes = [(self.qknots, 1), (self.qknots, 1, 1)]
+        self.qshapes = [(n_splines_q, 1), (n_splines_q, 1, 1)]
         self.norm_design_matrix = jnp.array(self.interpolator.bases(np.log(self.mm)))
         self.qnorm_design_matrix = jnp.array(self.qinterpolator.bases(self.qq))
 
-- 
2.43.0


From c01183bfce00067d204f685285bd7cd958ab254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 20/36] fix: spline perturbation mass models ignored the
 requested order and failed for any but 4

---
 gwinferno/models/spline_perturbation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index c6a7ca0..b99664e 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -54,7 +54,7 @@ class PowerlawBasisSplinePrimaryPowerlawRatio(object):
             ]
         )
         self.knots = knots
-        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=4, **kwargs)
+        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=k, **kwargs)
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
         self.dmats = [self.inj_design_matrix, self.pe_design_matrix]
@@ -202,7 +202,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsm,
             interior_knots=interior_mknots,
             xrange=(np.log(mmin), np.log(mmax)),
-            k=4,
+            k=k,
         )
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
@@ -212,7 +212,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsq,
             interior_knots=interior_qknots,
             xrange=(0, 1),
-            k=4,
+            k=k,
         )
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
-- 
2.43.0


From 04dc07ccd904635d44f5ea4cebd8484694eae653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 21/36] fix: primary/ratio spline perturbation density was NaN
 because the grid node at mmin has an empty mass-ratio range

---
 gwinferno/models/spline_perturbation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index b99664e..078608f 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -257,7 +257,10 @@ class PowerlawBasisSplinePrimaryRatio(object):
         """
         p_m = powerlaw_pdf(self.mm, alpha=-alpha, low=mmin, high=mmax)
         perturbation = jnp.exp(self.interpolator.project(self.norm_design_matrix, cs))
-        p_q = powerlaw_pdf(self.qq, alpha=beta, low=mmin / self.mm, high=1)
+        # no mass ratio is allowed where the primary mass does not exceed mmin
+        allowed = jnp.greater(self.mm, mmin)
+        qmin = mmin / jnp.where(allowed, self.mm, 2.0 * mmin)
+        p_q = jnp.where(allowed, powerlaw_pdf(self.qq, alpha=beta, low=qmin, high=1), 0.0)
         qperturbation = jnp.exp(self.qinterpolator.project(self.qnorm_design_matrix, vs))
         p_mq = p_m * perturbation * p_q * qperturbation
         return trapezoid(trapezoid(p_mq, self.qs, axis=0), self.ms)
-- 
2.43.0


From 6a8de0721143d8f3872dd19e4c55e996c5c10e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 22/36] fix: truncated power law with index -1 raised
 ZeroDivisionError for plain Python parameters

---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 86558c3..dbb3e09 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -113,7 +113,7 @@ def powerlaw_pdf(xx, alpha, low, high, floor=0.0):
     norm = jnp.where(
         alpha == -1,
         1 / jnp.log(high / low),
-        (1 + alpha) / (high ** (1 + alpha) - low ** (1 + alpha)),
+        jnp.divide(1 + alpha, high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob *= norm
 
-- 
2.43.0


From bfc0e4e864eb3541eb9bb0f1127e0960de05bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:17 +0000
Subject: [PATCH 23/36] fix: shared-distribution entries replaced the named
 model by nothing instead of sharing it

---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 54f1a11..2e749e5 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -392,7 +392,7 @@ def construct_hierarchical_model(
                     hps["grid"] = z_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
-                iid_mapping[v] = k
+                iid_mapping[k] = v
             else:
                 raise ValueError(f"Unknown model type: {type(v)}:{v}")
         for shared_param, param in iid_mapping.items():
-- 
2.43.0


From 9f4aae1641e25d1fd57a50011528b82a9e29ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:17 +0000
Subject: [PATCH 24/36] fix: shared-distribution entry of a mixture model was
 looked up in its last component and ignored

---
 gwinferno/pipeline/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 62520af..d543a6f 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -114,8 +114,8 @@ class ConfigReader(object):
             for hp in subd[name]["hyper_params"]:
                 self.add_prior(f"{param}_component_{i + 1}_{hp}", subd[name]["hyper_params"][hp])
         self.models[param] = PopMixtureModel(model, mix_dist, mix_params, components, component_params)
-        if "iid" in subd[name]:
-            self.add_iid_model(param, subd[name]["iid"]["shared_parameter"])
+        if "iid" in subd:
+            self.add_iid_model(param, subd["iid"]["shared_parameter"])
 
 
 def load_base_parser():
-- 
2.43.0


From 9558935c2869e828b990f51ef0b2b2c2ca6867d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:17 +0000
Subject: [PATCH 25/36] fix: a configured redshift model could not be built
 (grid and volume element were not passed)

---
 gwinferno/pipeline/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 2e749e5..f9097f5 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -15,6 +15,7 @@ from numpyro.infer import Trace_ELBO
 from numpyro.infer import autoguide
 from numpyro.optim import Adam
 
+from ..cosmology import PLANCK_2015_LVK_Cosmology
 from .parser import PopMixtureModel
 from .parser import PopModel
 
@@ -370,6 +371,7 @@ def construct_hierarchical_model(
 
     if "redshift" in pop_models.keys():
         z_grid = jnp.linspace(1e-9, prior_dict["redshift_maximum"], 1000)
+        dVcdz_grid = PLANCK_2015_LVK_Cosmology.dVcdz(z_grid)
 
     def model(samps, injs, Ninj, Nobs, Tobs):
         for k, v in prior_dict.items():
@@ -389,7 +391,8 @@ def construct_hierarchical_model(
             elif isinstance(v, PopModel):
                 hps = {p: hyper_params[f"{k}_{p}"] for p in v.params}
                 if k == "redshift":
-                    hps["grid"] = z_grid
+                    hps["zgrid"] = z_grid
+                    hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
                 iid_mapping[k] = v
-- 
2.43.0


From 95cae19514e3da9c8f99717a4f84a1b29b580ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:33 +0000
Subject: [PATCH 26/36] fix: O3 injection files without in-plane spin
 components could not be loaded

---
 gwinferno/preprocess/selection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index d2f30ec..319565e 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -96,7 +96,6 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if additional_cuts is not None:
             for k in additional_cuts.keys():
                 found = found | (data[k][()] >= additional_cuts[k])
-        n_found = sum(found)
         injs = dict(
             mass_1=data["mass1_source"][()][found],
             mass_2=data["mass2_source"][()][found],
@@ -118,8 +117,8 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if ("a_1" in param_names) | ("chi_eff" in param_names):
             for ii in [1, 2]:
                 injs[f"a_{ii}"] = (
-                    data.get(f"spin{ii}x", np.zeros(n_found))[()][found] ** 2
-                    + data.get(f"spin{ii}y", np.zeros(n_found))[()][found] ** 2
+                    data.get(f"spin{ii}x", np.zeros(len(found)))[()][found] ** 2
+                    + data.get(f"spin{ii}y", np.zeros(len(found)))[()][found] ** 2
                     + data[f"spin{ii}z"][()][found] ** 2
                 ) ** 0.5
                 injs[f"cos_tilt_{ii}"] = data[f"spin{ii}z"][()][found] / injs[f"a_{ii}"]
-- 
2.43.0


From bde27d6f9685f8bae1eeb8c93e882a2991592530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:04 +0000
Subject: [PATCH 27/36] fix: samples exactly at the maximum mass were dropped,
 but only when another sample exceeded it

---
 gwinferno/preprocess/data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 588d3b2..3e854a7 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -70,7 +70,7 @@ def processed_catalog_dataset_from_dict(catalog_dict, mmax=100.0):
             if np.sum(catalog_dict[ev]["posterior"][param_mapping["mass_1"]] > mmax) > 0:
                 print(np.sum(catalog_dict[ev]["posterior"][param_mapping["mass_1"]] > mmax))
                 print(f"removing samples from {ev} with mass_1 > {mmax}")
-                sel = catalog_dict[ev]["posterior"][param_mapping["mass_1"]] < mmax
+                sel = catalog_dict[ev]["posterior"][param_mapping["mass_1"]] <= mmax
 
             data = np.array([catalog_dict[ev]["posterior"][param_mapping[param]][sel] for param in list(param_mapping.keys())])
 
-- 
2.43.0


From 11e6c1349d23c0b7c19f322ca0bb964c72f48240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:04 +0000
Subject: [PATCH 28/36] fix: the maximum mass was not applied to GWTC-1 events

---
 gwinferno/preprocess/data_collection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 3e854a7..906e0c6 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -64,6 +64,7 @@ def processed_catalog_dataset_from_dict(catalog_dict, mmax=100.0):
                 tilt.append(catalog_dict[ev]["posterior"][f"costilt{ii}"])
             mass_ratio = mass[1] / mass[0]
             data = np.array([mass[0], mass[1], mass_ratio, redshift, spin[0], spin[1], tilt[0], tilt[1]])
+            data = data[:, data[0] <= mmax]
 
         else:
             sel = np.ones_like(catalog_dict[ev]["posterior"][param_mapping["mass_1"]], dtype=bool)
-- 
2.43.0


From 7c8b544c6745ef4455cd50e67361aebeee971eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 29/36] fix: effective precession of posterior samples had the
 wrong shape and could not be added

---
 gwinferno/preprocess/data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 906e0c6..1858c04 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -340,7 +340,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
         if chip:
             chip_array = xr.DataArray(
-                chi_p.reshape(1, chi_p.shape[0]),
+                chi_p.reshape(chi_p.shape[0], 1, chi_p.shape[1]),
                 dims=["event", "param", "samples"],
                 coords={"event": dat_array.event, "param": ["chi_p"], "samples": dat_array.samples},
             )
-- 
2.43.0


From 0d0ed7dee88aa949680d1634633ff5ebc5fbb947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 30/36] fix: effective-spin conversion divided the prior by the
 spherical Jacobian instead of the component-spin density

---
 gwinferno/preprocess/data_collection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 1858c04..73455c1 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -235,6 +235,10 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
             tilt_2,
         )
 
+    # density of (a_1, a_2, cos_tilt_1, cos_tilt_2) contained in the old prior: uniform magnitudes and isotropic tilts.
+    # the prior of posterior samples contains it only if the component spins were requested
+    component_spin_prior = 1 / 4 if injections or "a_1" in param_names else 1
+
     if injections:
 
         new_prior = np.zeros_like(prior)
@@ -242,7 +246,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
             if chip:
                 new_prior[ii] = (
                     prior[ii]
-                    / ((2 * jnp.pi * a_1[ii] ** 2) * (2 * jnp.pi * a_2[ii] ** 2))
+                    / component_spin_prior
                     * jnp.asarray(
                         joint_prior_from_isotropic_spins(
                             np.array(chi_p[ii]),
@@ -256,7 +260,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
                 new_prior[ii] = (
                     prior[ii]
-                    / ((2 * jnp.pi * a_1[ii] ** 2) * (2 * jnp.pi * a_2[ii] ** 2))
+                    / component_spin_prior
                     * jnp.asarray(
                         chi_effective_prior_from_isotropic_spins(
                             np.asarray(chi_eff[ii]),
@@ -273,7 +277,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                 if chip:
                     new_prior[ii][jj] = (
                         prior[ii][jj]
-                        / ((2 * jnp.pi * a_1[ii][jj] ** 2) * (2 * jnp.pi * a_2[ii][jj] ** 2))
+                        / component_spin_prior
                         * jnp.asarray(
                             joint_prior_from_isotropic_spins(
                                 np.array(chi_p[ii][jj]),
@@ -286,7 +290,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                 else:
                     new_prior[ii][jj] = (
                         prior[ii][jj]
-                        / ((2 * jnp.pi * a_1[ii][jj] ** 2) * (2 * jnp.pi * a_2[ii][jj] ** 2))
+                        / component_spin_prior
                         * jnp.asarray(
                             chi_effective_prior_from_isotropic_spins(
                                 chi_eff[ii][jj],
-- 
2.43.0


From 9b42ddd5d92a6cc351816d79ad4eb1192a173c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 31/36] fix: conversion to effective spin and precession raised
 when storing the joint prior

---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 73455c1..9a8c351 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -254,7 +254,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                             np.array(q[ii]),
                             a_max=1.0,
                         )
-                    )
+                    )[0]
                 )
             else:
 
@@ -285,7 +285,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                                 np.array(q[ii][jj]),
                                 a_max=1.0,
                             )
-                        )
+                        )[0]
                     )
                 else:
                     new_prior[ii][jj] = (
-- 
2.43.0


From 59e520df41e42b76708e4d2d5181ec08755027dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 32/36] fix: number of observations still counted the ignored
 events

---
 gwinferno/pipeline/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index d0bc56f..a44f05c 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -89,7 +89,7 @@ def load_pe_and_injections_as_dict(file, ignore=None):
 
     total_inj = data.inj_data.attrs["total_generated"]
     obs_time = data.inj_data.attrs["analysis_time"]
-    nObs = data.pe_data.posteriors.shape[0]
+    nObs = next(iter(pedict.values())).shape[0]
 
     constants = {"total_inj": total_inj, "obs_time": obs_time, "nObs": nObs}
 
-- 
2.43.0


From 1f079d018bc4b69eb3df33568f36730bef2af552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 33/36] fix: redshift curves were dropped, and removed from the
 caller's dictionary, when exporting subpopulations

---
 gwinferno/pipeline/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index a44f05c..550b958 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -235,11 +235,9 @@ def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
         pdfs = {f"{key}_pdfs": (["draw", key], item) for key, item in pdf_dict.items()}
         xr_dict = xr_dict | pdfs
     else:
-        z = {"redshift_pdfs": (["draw", "redshift"], pdf_dict["redshift"])}
-        xr_dict | z
-        del pdf_dict["redshift"]
+        xr_dict = {"redshift_pdfs": (["draw", "redshift"], pdf_dict["redshift"])}
         for i, nm in enumerate(subpop_names):
-            single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items()}
+            single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items() if key != "redshift"}
             xr_dict = xr_dict | single
 
     coords = {key: ([key], item) for key, item in param_dict.items()}
-- 
2.43.0


From 829178531ea90a9d882f22948180acf7214bc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 34/36] fix: converting posteriors to a dataset overwrote the
 caller's dictionary

---
 gwinferno/pipeline/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 550b958..0976693 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -218,15 +218,16 @@ def bspline_redshift_prior(z_nsplines=None, z_tau=None, name=None, z_cs_sig=1, z
 
 def posterior_dict_to_xarray(posteriors):
 
+    variables = {}
     for key in posteriors.keys():
         n_samples = posteriors[key].shape[0]
-        posteriors[key] = {"dims": "draw", "data": posteriors[key]}
+        variables[key] = {"dims": "draw", "data": posteriors[key]}
 
-        if posteriors[key]["data"].shape != (n_samples,):
-            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key]["data"].shape) - 1)]
-            posteriors[key]["dims"] = new_dims
+        if variables[key]["data"].shape != (n_samples,):
+            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(variables[key]["data"].shape) - 1)]
+            variables[key]["dims"] = new_dims
 
-    return xr.Dataset.from_dict(posteriors)
+    return xr.Dataset.from_dict(variables)
 
 
 def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
-- 
2.43.0


From 5d7d733be0578f475a9b1d83731c770abfe9fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:32 +0000
Subject: [PATCH 35/36] fix: events assigned to a third or later subpopulation
 used the second one's weights

---
 gwinferno/pipeline/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index f9097f5..fdff3f0 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -251,7 +251,9 @@ def hierarchical_likelihood(
                 dist.Categorical(probs=jnp.array(pop_frac)),
                 rng_key=rngkey,
             ).reshape((-1, 1))
-            mix_pe_weights = jnp.where(Qs[i] == 0, pe_weights[0][i], pe_weights[1][i])
+            mix_pe_weights = pe_weights[0][i]
+            for k in range(1, len(pe_weights)):
+                mix_pe_weights = jnp.where(Qs[i] == k, pe_weights[k][i], mix_pe_weights)
             logBFs, logn_effs, variances = per_event_log_bayes_factors(mix_pe_weights, log=log)
     else:
 
-- 
2.43.0


From 422a3a91fc26e8bcdbd91bc1643f92cb9a4cac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:01 +0000
Subject: [PATCH 36/36] fix: support of the conditional precession prior
 ignored the maximum spin magnitude

---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 5b694fb..8f7cea6 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -318,7 +318,7 @@ def chi_p_prior_given_chi_eff_q(chi_p, chi_eff, q, a_max=1.0, ndraws=10000, bw_m
     if (1.0 + q) * np.abs(chi_eff) / q < a_max:
         max_chi_p = a_max
     else:
-        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q) ** 2.0)
+        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q * a_max) ** 2.0)
 
     # Set up a grid slightly inside (0,max chi_p) and evaluate KDE
     reference_grid = np.linspace(0.05 * max_chi_p, 0.95 * max_chi_p, 50)
-- 
2.43.0

