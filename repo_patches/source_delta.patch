From dcdfb011dbc8449898cdf7d352d0977dffc28c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 01/21] fix: keep inducing points on one side of the origin
 within their bounds

---
 gpcm/gpcm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5d21f03..5a37b3e 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -279,8 +279,9 @@ class GPCM(AbstractGPCM):
         # Bound the inducing points so they don't move away too far.
         self.t_u = self.ps.bounded(
             self.t_u,
-            lower=min(self.t_u) * 1.5,
-            upper=max(self.t_u) * 1.5,
+            # The bounds must be strict, also if all points are on one side of zero.
+            lower=min(min(self.t_u) * 1.5, -1e-4),
+            upper=max(max(self.t_u) * 1.5, 1e-4),
             name="t_u",
         )
         self.t_z = self.ps.unbounded(self.t_z, name="t_z")
-- 
2.43.0


From 7f9b3298f0dfa55883a7dd743e9df36da4c1c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 02/21] fix: let gradient-based mean-field fits include the
 current posterior

---
 gpcm/approx.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c622902..20cbc14 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -89,15 +89,15 @@ class Approximation:
         self.model.ps.q_z[self._q_i].lam.assign(B.dense(dist.lam))
         self.model.ps.q_z[self._q_i].prec.assign(B.dense(dist.prec))
 
-    def ignore_qs(self, previous, current):
+    def ignore_qs(self, previous, current=False):
         """Get a list of regexes that ignore variables corresponding to approximate
         posteriors.
 
         Args:
             previous (bool): Ignore all previous approximate posteriors.
-            current (bool or str): Current approximate posteriors to ignore. Set to
-                `True` or `False` to ignore all or none or to `z` or `u` to ignore
-                a specific approximate posterior.
+            current (bool or str, optional): Current approximate posteriors to ignore.
+                Set to `True` or `False` to ignore all or none or to `z` or `u` to
+                ignore a specific approximate posterior. Defaults to `False`.
 
         Returns:
             list[str]: Appropriate list of regexes.
@@ -114,7 +114,7 @@ class Approximation:
             names.append("-" + self.model.ps.q_u[self._q_i].all())
         elif current == "z":
             names.append("-" + self.model.ps.q_z[self._q_i].all())
-        else:
+        elif current is not False:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
-- 
2.43.0


From 5b8c70ceabb54a7dfb72c33e912609079330b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 03/21] fix: fit the scheme mean-field-ca-gradient

---
 gpcm/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 20cbc14..6579e06 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -800,7 +800,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
 
     if approximation.fit == "ca":
         _fit_mean_field_ca(model(), t, y, iters)
-    elif approximation.fit == "bfgs":
+    elif approximation.fit in {"ca-bfgs", "bfgs"}:
         # Pre-fit a CA solution, if applicable.
         if approximation.fit == "ca-bfgs":
             _fit_mean_field_ca(model(), t, y, iters)
-- 
2.43.0


From 0fa9ecb3a10db957d6f27635e275f0c78061ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 04/21] fix: predict Fourier features for mean-field schemes

---
 gpcm/approx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 6579e06..3d13b51 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -675,9 +675,13 @@ class MeanField(Approximation):
         return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
 
     @_dispatch
-    def predict_z(self):
+    def predict_z(self, num_samples: B.Int = 1000):
         """Predict Fourier features under the mean-field approximation.
 
+        Args:
+            num_samples (int, optional): Does nothing: the marginals are available in
+                closed form. Defaults to `1000`.
+
         Returns:
             tuple[vector, vector]: Marginals of the predictions.
         """
-- 
2.43.0


From b70e1040852bfce3397531abf7c52de41a498f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 05/21] fix: normalise the filter transform of the RGPCM for
 the clipped decay

---
 gpcm/rgpcm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 0bf9b38..ee03851 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -170,11 +170,13 @@ class RGPCM(AbstractGPCM):
         if gamma is None:
             gamma = 1 / (2 * (self.t_u[1] - self.t_u[0]))
 
+        # Must ensure that `gamma < alpha`.
+        gamma = min(gamma, self.alpha / 1.5)
+
         if gamma_t is None:
             gamma_t = B.sqrt(2 * gamma)
 
-        # Must ensure that `gamma < alpha`.
-        self.gamma = min(gamma, self.alpha / 1.5)
+        self.gamma = gamma
         self.gamma_t = gamma_t
 
     def k_h(self):
-- 
2.43.0


From 865cfb26c70a20e6fb9e587e561051d636ba7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 06/21] fix: integrate from a finite lower limit to infinity

---
 gpcm/exppoly.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1e67949..ef459f3 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -593,7 +593,11 @@ class ExpPoly:
                     parts_new.append(part.translate_var(name, upper))
                 if not is_inf(lower):
                     lower = _as_poly(lower)  # Ensure that it is a polynomial.
-                    parts_new.append(-part.translate_var(name, lower))
+                    if is_inf(upper):
+                        # Reflect the variable around the lower limit.
+                        parts_new.append(part.substitute(name, lower - var(name)))
+                    else:
+                        parts_new.append(-part.translate_var(name, lower))
             parts = parts_new
 
         # Perform integration.
-- 
2.43.0


From 9de9005518fa8b33254273e6c03633a66ac935ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 07/21] fix: project onto PSD matrices with opposite
 eigenvalues

---
 gpcm/util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 02384d6..c91f1b2 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -148,12 +148,15 @@ def closest_psd(a, inv=False):
     """
     a = B.dense(a)
     a = (a + B.transpose(a)) / 2
-    u, s, v = B.svd(a)
-    signs = B.matmul(u, v, tr_a=True)
-    s = B.maximum(B.diag(signs) * s, 0)
+    # Shift the eigenvalues to be non-negative, because then the singular vectors are
+    # the eigenvectors. For `a` itself, the singular vectors mix the eigenvectors of
+    # eigenvalues of equal magnitude but opposite sign.
+    shift = B.max(B.sum(B.abs(a), axis=1))
+    u, s, _ = B.svd(a + shift * B.eye(a))
+    s = B.maximum(s - shift, 0)
     if inv:
         s = B.where(s == 0, 0, 1 / s)
-    return B.mm(u * B.expand_dims(s, axis=-2), v, tr_b=True)
+    return B.mm(u * B.expand_dims(s, axis=-2), u, tr_b=True)
 
 
 def collect(name="Quantities", **kw_args):
-- 
2.43.0


From 4613236b0901f3e37fd0ede7bd7fdf91f12c035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 08/21] fix: scale the PSD estimate to the right total power

---
 gpcm/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index c91f1b2..9cadffc 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -109,7 +109,8 @@ def estimate_psd(t, k, n_zero=2_000, db=False):
     psd = np.abs(np.real(psd))
 
     # Now scale appropriately: the total power should equal `k[0]`.
-    total_power = np.trapz(y=psd, x=freqs)
+    # Note that `freqs` is not sorted, so we cannot use the trapezoidal rule.
+    total_power = np.sum(psd) * (freqs[1] - freqs[0])
     psd /= total_power / k[0]
 
     # Convert to dB.
-- 
2.43.0


From dc8167fcace932b19c67cdf752333f562484cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 09/21] fix: report the central 68% interval of samples

---
 gpcm/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 9cadffc..0aa85d2 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -67,8 +67,8 @@ def summarise_samples(x, samples, db=False):
         x=B.to_numpy(x),
         mean=transform(B.mean(samples, axis=0)),
         var=transform(B.std(samples, axis=0)) ** 2,
-        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
-        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
+        err_68_lower=transform(B.quantile(samples, 0.16, axis=0)),
+        err_68_upper=transform(B.quantile(samples, 1 - 0.16, axis=0)),
         err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),
         err_95_upper=transform(B.quantile(samples, 1 - 0.025, axis=0)),
         err_99_lower=transform(B.quantile(samples, 0.0015, axis=0)),
-- 
2.43.0


From ec49cff269a997caa21d1c1f61a9679ebc9aa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 10/21] fix: scale the kernel of the filter by the scale of the
 window

---
 gpcm/gpcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5a37b3e..64c1cfe 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -246,7 +246,8 @@ class GPCM(AbstractGPCM):
         """
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
-        k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
+        # Kernel of filter before window
+        k_h = self.alpha_t**2 * EQ().stretch(gamma_scale)
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
         if self.causal:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
-- 
2.43.0


From 75bd4f3dd36836c618129a5b2ba391b9ca4f37fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 11/21] fix: predict filters from the samples of the structured
 posterior

---
 gpcm/approx.py | 29 ++++++++++++++++++++++++-----
 gpcm/model.py  |  8 ++++----
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 3d13b51..103c2ef 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -502,7 +502,15 @@ class Structured(Approximation):
         recs = [rec(u) for u in _columns(us)]
         return state, sum(recs) / len(recs) - q_u.kl(self.p_u)
 
-    def _sample_p_u(self, num_samples):
+    def sample_u(self, num_samples):
+        """Sample :math:`u`.
+
+        Args:
+            num_samples (int): Number of samples.
+
+        Returns:
+            list[matrix]: Samples.
+        """
         if self._q_i == 0:
             return _columns(self.p_u.sample(num_samples))
         else:
@@ -527,7 +535,7 @@ class Structured(Approximation):
             q_z = self.q_z_optimal(self.ts, u)
             return self._predict_moments(ts, u, B.outer(u), q_z.mean, q_z.m2)
 
-        m1s, m2s = zip(*[predict_moments(u) for u in self._sample_p_u(num_samples)])
+        m1s, m2s = zip(*[predict_moments(u) for u in self.sample_u(num_samples)])
         m1 = B.mean(B.stack(*m1s, axis=0), axis=0)
         m2 = B.mean(B.stack(*m2s, axis=0), axis=0)
         # Don't forget to add in the observation noise!
@@ -544,7 +552,7 @@ class Structured(Approximation):
         Returns:
             tensor: Samples.
         """
-        us = self._sample_p_u(num_samples)
+        us = self.sample_u(num_samples)
         sample_kernel = B.jit(self._sample_kernel)
         return B.stack(*[sample_kernel(t_k, u) for u in us], axis=0)
 
@@ -670,9 +678,20 @@ class MeanField(Approximation):
         Returns:
             tensor: Samples.
         """
-        us = self.p_u.sample(num_samples)
+        us = self.sample_u(num_samples)
         sample_kernel = B.jit(self._sample_kernel)
-        return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
+        return B.stack(*[sample_kernel(t_k, u) for u in us], axis=0)
+
+    def sample_u(self, num_samples):
+        """Sample :math:`u` under the mean-field approximation.
+
+        Args:
+            num_samples (int): Number of samples.
+
+        Returns:
+            list[matrix]: Samples.
+        """
+        return _columns(self.p_u.sample(num_samples))
 
     @_dispatch
     def predict_z(self, num_samples: B.Int = 1000):
diff --git a/gpcm/model.py b/gpcm/model.py
index f04a130..5370593 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -172,8 +172,7 @@ class AbstractGPCM(Model):
             t_h = B.linspace(self.dtype, -self.extent, self.extent, 601)
 
         @B.jit
-        def sample_h(state):
-            state, u = self.approximation.p_u.sample(state)
+        def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
             h = GP(self.k_h())
             h = h | (h(self.t_u), u)  # Condition on sample.
@@ -181,10 +180,11 @@ class AbstractGPCM(Model):
             return state, B.flatten(h)
 
         # Perform sampling.
+        us = self.approximation.sample_u(num_samples)
         state = B.global_random_state(self.dtype)
         samples = []
-        for _ in range(num_samples):
-            state, h = sample_h(state)
+        for u in us:
+            state, h = sample_h(state, u)
 
             # Transform sample according to specification.
             if min_phase:
-- 
2.43.0


From d30e6975f76fa78b221401096060de5ae8d765a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 12/21] fix: condition predicted causal filters on all inducing
 points

---
 gpcm/gpcm.py  |  8 ++++++--
 gpcm/model.py |  9 +++++++--
 gpcm/rgpcm.py | 12 ++++++++++--
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 64c1cfe..13ed43b 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -238,9 +238,13 @@ class GPCM(AbstractGPCM):
         )
 
     @_dispatch
-    def k_h(self):
+    def k_h(self, *, constrain=True):
         """Get the kernel function of the filter.
 
+        Args:
+            constrain (bool, optional): For the causal model, apply the causality
+                constraint. Defaults to `True`.
+
         Returns:
             :class:`mlkernels.Kernel`: Kernel for :math:`h`.
         """
@@ -249,7 +253,7 @@ class GPCM(AbstractGPCM):
         # Kernel of filter before window
         k_h = self.alpha_t**2 * EQ().stretch(gamma_scale)
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
-        if self.causal:
+        if self.causal and constrain:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
 
diff --git a/gpcm/model.py b/gpcm/model.py
index 5370593..b9ff035 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -174,10 +174,15 @@ class AbstractGPCM(Model):
         @B.jit
         def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
-            h = GP(self.k_h())
+            # Condition before applying the causality constraint, because inducing points
+            # can lie before the origin.
+            h = GP(self.k_h(constrain=False))
             h = h | (h(self.t_u), u)  # Condition on sample.
             state, h = h(t_h).sample(state)  # Sample at desired points.
-            return state, B.flatten(h)
+            h = B.flatten(h)
+            if self.causal:
+                h = h * B.cast(self.dtype, t_h >= 0)
+            return state, h
 
         # Perform sampling.
         us = self.approximation.sample_u(num_samples)
diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index ee03851..bedae4f 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -56,6 +56,9 @@ class RGPCM(AbstractGPCM):
     name = "RGPCM"
     """str: Formatted name."""
 
+    causal = True
+    """bool: The filter is causal."""
+
     def __init__(
         self,
         scheme="structured",
@@ -179,15 +182,20 @@ class RGPCM(AbstractGPCM):
         self.gamma = gamma
         self.gamma_t = gamma_t
 
-    def k_h(self):
+    def k_h(self, *, constrain=True):
         """Get the kernel function of the filter.
 
+        Args:
+            constrain (bool, optional): Apply the causality constraint. Defaults to
+                `True`.
+
         Returns:
             :class:`mlkernels.Kernel`: Kernel for :math:`h`.
         """
         k_h = Exp().stretch(1 / self.lam)  # Kernel of filter before window
         k_h *= lambda t: B.exp(-self.alpha * B.abs(t))  # Window
-        k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
+        if constrain:
+            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
 
     def __prior__(self):
-- 
2.43.0


From adcd0ed59fecfd6cc8155884076576855de4e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 13/21] fix: account for earlier posteriors in mean-field
 coordinate ascent

---
 gpcm/approx.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 103c2ef..9a1b410 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -186,7 +186,7 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            NaturalNormal(0, self.model.K_u),
             z,
         )
 
@@ -205,7 +205,7 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            self.p_u,
             q_z.mean,
             q_z.m2,
         )
@@ -225,7 +225,7 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            NaturalNormal(0, self.model.K_z),
             u,
         )
 
@@ -244,12 +244,12 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            self.p_z,
             q_u.mean,
             q_u.m2,
         )
 
-    def _q_optimal(self, A, I, I_sum, K, x, x2=None):
+    def _q_optimal(self, A, I, I_sum, prior, x, x2=None):
         if x2 is not None:
             inner = B.mm(I, x2, I, tr_c=True)
         else:
@@ -257,8 +257,8 @@ class Approximation:
             part = B.mm(I, x)
             inner = B.mm(part, part, tr_b=True)
         return NaturalNormal(
-            B.mm(I_sum, x) / self.model.noise,
-            K + (A + B.sum(inner, axis=0)) / self.model.noise,
+            prior.lam + B.mm(I_sum, x) / self.model.noise,
+            prior.prec + (A + B.sum(inner, axis=0)) / self.model.noise,
         )
 
     def _predict_moments(self, ts, u, u2, z, z2):
-- 
2.43.0


From 8e639d816cb4e5b5f90cda917665a05e51d82c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 14/21] fix: discard terms that cancel in symbolic polynomials

---
 gpcm/exppoly.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index ef459f3..b4419a4 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -304,7 +304,12 @@ def _merge_common_terms(*terms):
     for factors in set(frozenset(x.factors) for x in terms):
         associated_terms = filter(lambda x: x.factors == factors, terms)
         merged_terms.append(reduce(operator.add, associated_terms, 0))
-    return merged_terms
+    # Discard terms which are identically zero, because otherwise equality depends on
+    # how the polynomial was constructed. Retain one if there is nothing else.
+    nonzero_terms = [
+        x for x in merged_terms if not (isinstance(x.const, B.Number) and x.const == 0)
+    ]
+    return nonzero_terms or merged_terms[:1]
 
 
 class Poly:
-- 
2.43.0


From f95883c56c5eee4b31de0dddb444baf465e67f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 15/21] fix: integrate the filter of the RGPCM at times far
 from zero

---
 gpcm/rgpcm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index bedae4f..26f49d7 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -330,6 +330,11 @@ def compute_I_ux(model, t1=None, t2=None):
     t2 = t2[None, :, None, None]
     t_u_1 = model.t_u[None, None, :, None]
     t_u_2 = model.t_u[None, None, None, :]
+    # Only the time difference matters. Remove the common part, because the exponentials
+    # below otherwise overflow or cancel for times far away from zero.
+    t_min = B.minimum(t1, t2)
+    t1 = t1 - t_min
+    t2 = t2 - t_min
     ga = model.gamma - model.alpha
     result = (
         model.alpha_t**2
-- 
2.43.0


From bed48117fd4e1628af53ad98eae51eee723ca4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 16/21] fix: convert diagonal-minus-low-rank variances to
 natural parameters

---
 gpcm/normal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpcm/normal.py b/gpcm/normal.py
index ed5b638..b97d1d7 100644
--- a/gpcm/normal.py
+++ b/gpcm/normal.py
@@ -1,5 +1,5 @@
 import lab as B
-from matrix import AbstractMatrix, structured
+from matrix import AbstractMatrix, Dense, Woodbury, structured
 from plum import Dispatcher, convert
 from stheno import Normal
 
@@ -36,7 +36,12 @@ class NaturalNormal:
             :class:`.NaturalNormal`: Normal distribution parametrised by the natural
                 parameters of `dist`.
         """
-        return cls(B.cholsolve(B.chol(dist.var), dist.mean), B.pd_inv(dist.var))
+        var = dist.var
+        if isinstance(var, Woodbury):
+            # `B.pd_inv` requires the low-rank part to be positive, which it is not if
+            # `var` is itself the inverse of a diagonal plus a positive low-rank matrix.
+            var = Dense(B.dense(var))
+        return cls(B.cholsolve(B.chol(var), dist.mean), B.pd_inv(var))
 
     def to_normal(self):
         """Convert to normal distribution parametrised by a mean and variance.
-- 
2.43.0


From 53924a77cd2f4c9b8a25f5ffe2db077d664745e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:23 +0000
Subject: [PATCH 17/21] fix: predicted filters were NaN if time is measured in
 large units

The variance of the filter scales with alpha_t^2, which is tiny for
large time units. The absolute regularisation then dominates or the
conditioning breaks down. Condition the normalised filter instead.
---
 gpcm/model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpcm/model.py b/gpcm/model.py
index b9ff035..07254df 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -176,10 +176,15 @@ class AbstractGPCM(Model):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
             # Condition before applying the causality constraint, because inducing points
             # can lie before the origin.
-            h = GP(self.k_h(constrain=False))
-            h = h | (h(self.t_u), u)  # Condition on sample.
+            k_h = self.k_h(constrain=False)
+            # Normalise the filter, because otherwise the regularisation of the variance
+            # is too small if time is measured in large units.
+            zero = B.zeros(self.dtype, 1)
+            scale = B.sqrt(k_h.elwise(zero, zero)[0, 0])
+            h = GP(k_h * (1 / scale**2))
+            h = h | (h(self.t_u), u / scale)  # Condition on sample.
             state, h = h(t_h).sample(state)  # Sample at desired points.
-            h = B.flatten(h)
+            h = scale * B.flatten(h)
             if self.causal:
                 h = h * B.cast(self.dtype, t_h >= 0)
             return state, h
-- 
2.43.0


From fbc0cce055f6d7f8aacd67d741d0f5a793cf6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 18/21] fix: number of attempts reported by ESS was one too
 many

---
 gpcm/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/sample.py b/gpcm/sample.py
index d9a840a..88410a9 100644
--- a/gpcm/sample.py
+++ b/gpcm/sample.py
@@ -94,7 +94,7 @@ class ESS:
         self._draw_proposal(lower, upper)
         if self.log_lik_x_proposed > u:
             # Proposal is accepted.
-            return self.x_proposed, self.log_lik_x_proposed, attempts + 1
+            return self.x_proposed, self.log_lik_x_proposed, attempts
         else:
             # Proposal rejected. Shrink bracket and try again.
             if self.theta > 0:
-- 
2.43.0


From 74b5aec36f874b3b15f1831f7cbc00732494b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 19/21] fix: effective sample size reported by ESS counted the
 correlation at lag zero

---
 gpcm/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/sample.py b/gpcm/sample.py
index 88410a9..ad31389 100644
--- a/gpcm/sample.py
+++ b/gpcm/sample.py
@@ -128,7 +128,8 @@ class ESS:
                         ess = []
                         chain = B.stack(*[B.flatten(x)[0] for x in samples[m:]], axis=0)
                         corrs = autocorr(chain, window=True, lags=5)
-                        ess.append(len(samples) / (1 + 2 * np.sum(corrs)))
+                        # The correlation at lag zero does not count.
+                        ess.append(len(samples) / (1 + 2 * np.sum(corrs[1:])))
                         ess = np.mean(ess)
                     else:
                         ess = np.nan
-- 
2.43.0


From 1056cc6a3505dd0acb77bee36493f9b9631671c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 20/21] fix: count observation noise once in plotted prediction
 errors

---
 experiments/experiment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/experiment.py b/experiments/experiment.py
index 4859c0d..76f762f 100644
--- a/experiments/experiment.py
+++ b/experiments/experiment.py
@@ -397,7 +397,8 @@ def analyse_plots(
     for i, model in enumerate(models):
         # Construct model and make predictions.
         mu, var = model.predict(t_plot)
-        std = B.sqrt(var)
+        # The predicted variance includes the noise.
+        std = B.sqrt(B.maximum(var - model.noise, 0))
 
         plt.subplot(3, 1, 1 + i)
         plt.title(f"Function ({model.name})")
@@ -415,7 +416,7 @@ def analyse_plots(
         plt.fill_between(
             t_plot, mu - 2 * std, mu + 2 * std, facecolor="tab:green", alpha=0.2
         )
-        error = 2 * B.sqrt(model.ps.noise() + std**2)  # Model and noise error
+        error = 2 * B.sqrt(var)  # Model and noise error
         plt.plot(t_plot, mu + error, c="tab:green", ls="--")
         plt.plot(t_plot, mu - error, c="tab:green", ls="--")
 
-- 
2.43.0


From e733c226da0430ebbd1ea1b4401d5d68713186f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 21/21] fix: compute the true PSD from lags rather than from
 frequencies

---
 experiments/experiment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/experiment.py b/experiments/experiment.py
index 76f762f..a899617 100644
--- a/experiments/experiment.py
+++ b/experiments/experiment.py
@@ -510,9 +510,10 @@ def analyse_plots(
 
         # Compute true PSD.
         if true_kernel:
-            # TODO: Is `pred.x` okay, or should it be longer?
+            # `pred.x` are frequencies, so construct lags at which to compute the kernel.
+            t_true = B.linspace(model.dtype, 0, 2 * model.extent, 1000)
             freqs_true, psd_true = estimate_psd(
-                pred.x, true_kernel(pred.x).mat[0, :], db=True
+                t_true, true_kernel(t_true).mat[0, :], db=True
             )
 
         # Estimate PSD.
-- 
2.43.0

