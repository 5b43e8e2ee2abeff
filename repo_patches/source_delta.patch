From d5424f3ef0aacedf9c399cf9516a0dc34844362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 01/31] fix: keep the parallax when light_delay=True

Positions with both a parallax and light travel time were returned in
R_sun instead of arcseconds.
---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index a303a81..c94b788 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -394,7 +394,9 @@ class KeplerianOrbit:
 
         """
         if light_delay:
-            return self._get_retarded_position(a, t, parallax=None, _pad=_pad)
+            return self._get_retarded_position(
+                a, t, parallax=parallax, _pad=_pad
+            )
 
         sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
         if self.ecc is None:
-- 
2.43.0


From 2b1d46c87821a30dcedabf9fcd57c17d847c0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 02/31] fix: support light_delay in TTVOrbit

The retarded times have a trailing planet axis; looking all of them up in
every planet's transit table gave the wrong shape or failed to broadcast.
---
 src/exoplanet/orbits/ttv.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 4194a08..8021a08 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -172,10 +172,14 @@ class TTVOrbit(KeplerianOrbit):
             for i, tts in enumerate(self.all_transit_times)
         ]
 
-    def _get_model_dt(self, t):
+    def _get_model_dt(self, t, _pad=True):
+        # If the times are already padded, the last axis runs over planets and
+        # each planet must only be compared to its own transits
         vals = []
         for i in range(len(self.ttvs)):
-            inds = pt.extra_ops.searchsorted(self._bin_edges[i], t)
+            inds = pt.extra_ops.searchsorted(
+                self._bin_edges[i], t if _pad else t[..., i]
+            )
             vals.append(self._bin_values[i][inds])
         return pt.stack(vals, -1)
 
@@ -184,4 +188,4 @@ class TTVOrbit(KeplerianOrbit):
         # stretching the time axis around each transit
         if _pad:
             return pt.shape_padright(t) - self._get_model_dt(t)
-        return t - self._get_model_dt(t)
+        return t - self._get_model_dt(t, _pad=False)
-- 
2.43.0


From a43203e0cd06b3c235579f7be713f1408b3ce6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 03/31] fix: place unobserved transits with ttv_period in
 TTVOrbit

The linear ephemeris of the transit times is t0 + n * ttv_period; the
`period` that sets the transit shape can differ from it.
---
 src/exoplanet/orbits/ttv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 8021a08..79b8add 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -151,7 +151,9 @@ class TTVOrbit(KeplerianOrbit):
         # Compute the full set of transit times
         self.all_transit_times = []
         for i, inds in enumerate(self.transit_inds):
-            expect = self.t0[i] + self.period[i] * pt.arange(inds.max() + 1)
+            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
+                inds.max() + 1
+            )
             self.all_transit_times.append(
                 pt.set_subtensor(expect[inds], self.transit_times[i])
             )
-- 
2.43.0


From fa4eb6b2740cb6f832e0ed645ee6cf8423bd3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 04/31] fix: include a transit that falls exactly on max_time

The window of compute_expected_transit_times is closed at both ends.
---
 src/exoplanet/orbits/ttv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 79b8add..12536bb 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -26,7 +26,7 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
     for period, t0 in zip(periods, t0s):
         min_ind = np.floor((min_time - t0) / period)
         max_ind = np.ceil((max_time - t0) / period)
-        times = t0 + period * np.arange(min_ind, max_ind, 1)
+        times = t0 + period * np.arange(min_ind, max_ind + 1, 1)
         times = times[(min_time <= times) & (times <= max_time)]
         transit_times.append(times)
     return transit_times
-- 
2.43.0


From 8181fb6ee4166e59cf4543ab55a0da0fdf69853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 05/31] fix: the lower edge of an interpolation grid is in
 bounds

---
 src/exoplanet/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index e0c0bd6..33b5d40 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -39,7 +39,7 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
     for n, grid in enumerate(points):
         x = coords[..., n]
         i = pt.extra_ops.searchsorted(grid, x) - 1
-        out_of_bounds |= (i < 0) | (i >= grid.shape[0] - 1)
+        out_of_bounds |= ~((x >= grid[0]) & (x <= grid[-1]))
         i = pt.clip(i, 0, grid.shape[0] - 2)
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
-- 
2.43.0


From 8897b6560238d4803155c42cb5c3f35bee5be159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 06/31] fix: interpolate grids with more than one output per
 point

The weights were broadcast against the output axis instead of the test
points.
---
 src/exoplanet/interp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index 33b5d40..c34c53d 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -49,9 +49,11 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
         weight = pt.ones(coords.shape[:-1])
         for ei, i, yi in zip(edge_indices, indices, norm_distances):
             weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
+        weight = pt.shape_padright(weight, values.ndim - ndim)
         result += values[edge_indices] * weight
 
     if fill_value is not None:
+        out_of_bounds = pt.shape_padright(out_of_bounds, values.ndim - ndim)
         result = pt.switch(out_of_bounds, fill_value, result)
 
     return result
-- 
2.43.0


From e4989a674e295f8dfb45b223c6432e9853817c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 07/31] fix: report the index of the peak itself in find_peaks

The index pointed at the sample after the peak, and so did the peak_info
of bls_estimator.
---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 39d07fe..1be82b2 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -146,7 +146,7 @@ def find_peaks(freq, power, max_peaks=0):
         freq0 = w[1] * sigma2
         peaks.append(
             dict(
-                index=i + 1,
+                index=i,
                 log_power=w[2] + 0.5 * freq0**2 / sigma2,
                 period=1.0 / freq0,
                 period_uncert=np.sqrt(sigma2 / freq0**4),
-- 
2.43.0


From 08e4c6f77ae19b40792408d512cd28aad5d31d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 08/31] fix: typo that discarded minimum_period in
 bls_estimator

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 1be82b2..9cd6f43 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -357,7 +357,7 @@ def bls_estimator(
         the key ``peaks``.
 
     """
-    kwargs["minimum_period"] = kwargs.get("minimim_period", min_period)
+    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
     kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)
 
     x_ref = 0.5 * (np.min(x) + np.max(x))
-- 
2.43.0


From 38b763c5e0c59a09edf2e31159d4b94402e4fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 09/31] fix: accept a Quantity y without yerr in
 estimate_semi_amplitude

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 9cd6f43..0d7ba2d 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -64,7 +64,7 @@ def estimate_semi_amplitude(periods, x, y, yerr=None, t0s=None):
 
     """
     if yerr is None:
-        ivar = np.ones_like(y)
+        ivar = np.ones(np.shape(y))
     else:
         ivar = 1.0 / yerr**2
 
-- 
2.43.0


From a7e1cb604ec900e8812c75986ce57d59f7480120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 10/31] fix: start unit_disk at the requested initval

The second coordinate is x2 * sqrt(1 - x1**2), so its initial value must be
divided, not multiplied, by the norm.
---
 src/exoplanet/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index 9c3d8cc..c04f599 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -67,7 +67,7 @@ def unit_disk(name_x, name_y, **kwargs):
     x2 = pm.Uniform(
         f"__{name_y}_unit_disk",
         **_with_initval(
-            initval=initval[1] * np.sqrt(1 - initval[0] ** 2), **kwargs
+            initval=initval[1] / np.sqrt(1 - initval[0] ** 2), **kwargs
         ),
     )
     norm = pt.sqrt(1 - x1**2)
-- 
2.43.0


From fdd26289490879526c1d1e33d64eecf9e7674258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 11/31] fix: don't silently ignore light_delay in
 SimpleTransitOrbit

---
 src/exoplanet/orbits/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index afbb087..f09a9bb 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -40,7 +40,7 @@ class SimpleTransitOrbit:
         return nothing, nothing, nothing
 
     def get_planet_position(self, t, light_delay=False):
-        return self.get_relative_position(t, light_delay=False)
+        return self.get_relative_position(t, light_delay=light_delay)
 
     def get_relative_position(self, t, light_delay=False):
         """The planets' positions relative to the star
-- 
2.43.0


From dd2938c514b164717951bb34039f1afb9bacc48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 12/31] fix: honor units in the circular duration
 parameterization

---
 src/exoplanet/orbits/keplerian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c94b788..db23c63 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -125,9 +125,9 @@ class KeplerianOrbit:
                     UserWarning,
                 )
             aor, daordtau = get_aor_from_transit_duration(
-                duration, period, b, ror=ror
+                to_unit(duration, u.day), to_unit(period, u.day), b, ror=ror
             )
-            a = r_star * aor
+            a = to_unit(r_star, u.R_sun) * aor
             duration = None
 
         inputs = _get_consistent_inputs(
-- 
2.43.0


From c973e8d2f4e9e491511fa2768add0eed9cde5fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 13/31] fix: eccentric transit durations were off by sqrt(1 -
 ecc**2)

The sky velocity at transit is (1 + e sin(w)) / sqrt(1 - e**2) times the
circular one (Winn 2010, eqs. 14-16), and the duration depends on the
planet-star separation instead of the planet's barycentric distance.
---
 src/exoplanet/orbits/keplerian.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index db23c63..ed82206 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -240,9 +240,15 @@ class KeplerianOrbit:
             assert self.ecc is not None
 
             self.duration = as_tensor_variable(to_unit(duration, u.day))
-            c = pt.sin(np.pi * self.duration * incl_factor / self.period)
+            c = pt.sin(
+                np.pi
+                * self.duration
+                * incl_factor
+                * pt.sqrt(ome2)
+                / self.period
+            )
             c2 = c * c
-            aor = self.a_planet / self.r_star
+            aor = self.a / self.r_star
             esinw = self.ecc * self.sin_omega
             self.b = pt.sqrt(
                 (aor**2 * c2 - 1)
-- 
2.43.0


From 9b96835e9e236cc58ea782649902604796cc934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 14/31] fix: use ror in the eccentric duration parameterization

As for circular orbits, the duration is the time between first and last
contact.
---
 src/exoplanet/orbits/keplerian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index ed82206..e4b8012 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -249,9 +249,10 @@ class KeplerianOrbit:
             )
             c2 = c * c
             aor = self.a / self.r_star
+            opk2 = (1 + (0.0 if ror is None else ror)) ** 2
             esinw = self.ecc * self.sin_omega
             self.b = pt.sqrt(
-                (aor**2 * c2 - 1)
+                (aor**2 * c2 - opk2)
                 / (
                     c2 * esinw**2
                     + 2 * c2 * esinw
-- 
2.43.0


From c79c62e70e32a5e574dbe2b67cfefa6163ef58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 15/31] fix: light delayed star position with a massless planet

The distance ratio a / r was computed as 0 / 0 for the star's orbit when the
planet has no mass, so that its delayed position was NaN instead of zero.
---
 src/exoplanet/orbits/keplerian.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index e4b8012..9979623 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -452,7 +452,12 @@ class KeplerianOrbit:
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
         # Component of the acceleration in the z direction
-        az = -(angvel**2) * (a / r) ** 3 * z
+        # (written in terms of 'r / a' so that it is finite when 'a' is zero)
+        if self.ecc is None:
+            inv_roa = 1.0
+        else:
+            inv_roa = (1 + self.ecc * cosf) / (1.0 - self.ecc**2)
+        az = -(angvel**2) * inv_roa**3 * z
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From 189aa77581257f070edfe5fcfbae1b1cc3fcb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 16/31] fix: star acceleration with a massless planet

K**2 / a was computed as 0 / 0 for the star when the planet has no mass, so
that the acceleration of the star was NaN instead of zero.
---
 src/exoplanet/orbits/keplerian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 9979623..43671a3 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -692,12 +692,15 @@ class KeplerianOrbit:
 
     def _get_acceleration(self, a, m, t):
         sinf, cosf = self._get_true_anomaly(t)
-        K = self.K0 * m
+        # This is K**2 / a, written so that it is finite when 'm' is zero
+        K2_over_a = self.K0**2 * self.m_total * m / self.a
         if self.ecc is None:
-            factor = -(K**2) / a
+            factor = -K2_over_a
         else:
             factor = (
-                K**2 * (self.ecc * cosf + 1) ** 2 / (a * (self.ecc**2 - 1))
+                K2_over_a
+                * (self.ecc * cosf + 1) ** 2
+                / (self.ecc**2 - 1)
             )
         return self._rotate_vector(factor * cosf, factor * sinf)
 
-- 
2.43.0


From 912d8aa10fe4e700805310da2d15cda67068c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 17/31] fix: per-observation exposure times in in_transit

A vector texp was broadcast along the planets instead of the times, so that
it failed with several planets, and used the longest exposure time for all
the timestamps with a single planet.
---
 src/exoplanet/orbits/keplerian.py | 7 ++++++-
 src/exoplanet/orbits/simple.py    | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 43671a3..9892ab2 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -728,7 +728,8 @@ class KeplerianOrbit:
         Args:
             t (vector): A vector of timestamps to be evaluated.
             r (Optional): The radii of the planets.
-            texp (Optional[float]): The exposure time.
+            texp (Optional[float]): The exposure time. This can be a scalar
+                or a vector with the same shape as ``t``.
 
         Returns:
             The indices of the timestamps that are in transit.
@@ -780,6 +781,10 @@ class KeplerianOrbit:
             t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
 
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                # One exposure time per timestamp, for every planet
+                texp = pt.shape_padright(texp)
             t_start -= 0.5 * texp
             t_end += 0.5 * texp
 
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index f09a9bb..260daf2 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -98,6 +98,10 @@ class SimpleTransitOrbit:
             x = (r + self.r_star) ** 2 - self._b_norm**2
             tol = pt.sqrt(x) / self.speed
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                # One exposure time per timestamp, for every planet
+                texp = pt.shape_padright(texp)
             tol += 0.5 * texp
         mask = pt.any(pt.abs(dt) < tol, axis=-1)
         return pt.arange(t.size)[mask]
-- 
2.43.0


From ee90049964e95f8d84a92b51aa84e9d3fd231e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 18/31] fix: duration Jacobians of a_star and a_planet with
 massive planets

The stellar mass is implied by the duration, but it was held fixed when
computing the Jacobians of the two barycentric semi-major axes.
---
 src/exoplanet/orbits/keplerian.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 9892ab2..c160720 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -151,12 +151,13 @@ class KeplerianOrbit:
         if daordtau is not None:
             dadtau = self.r_star * daordtau
             self.jacobians["duration"]["a"] = dadtau
-            self.jacobians["duration"]["a_star"] = (
-                dadtau * self.m_planet / self.m_total
-            )
-            self.jacobians["duration"]["a_planet"] = (
-                -dadtau * self.m_star / self.m_total
-            )
+
+            # The total mass is implied by 'a' and 'period': m_total ~ a**3
+            # -> a_star = a * m_planet / m_total ~ a**-2
+            # -> a_planet = a_star - a
+            dastardtau = -2 * dadtau * self.m_planet / self.m_total
+            self.jacobians["duration"]["a_star"] = dastardtau
+            self.jacobians["duration"]["a_planet"] = dastardtau - dadtau
 
             # rho = 3 * pi * (a/R)**3 / (G * P**2)
             # -> drho / d(a/R) = 9 * pi * (a/R)**2 / (G * P**2)
-- 
2.43.0


From b1b238e8c2b65b0d53a7a1fd01ad3f56884fbb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 19/31] fix: sign of the acceleration term of the light delay

The line of sight velocity is positive away from the observer, while the
acceleration was positive towards the observer, so that the second order term
of the delay had the wrong sign.
---
 src/exoplanet/orbits/keplerian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c160720..9306d60 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -452,13 +452,14 @@ class KeplerianOrbit:
         # True position of the body
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
-        # Component of the acceleration in the z direction
+        # Component of the acceleration in the z direction (just like for 'vz',
+        # this is positive *away* from the observer)
         # (written in terms of 'r / a' so that it is finite when 'a' is zero)
         if self.ecc is None:
             inv_roa = 1.0
         else:
             inv_roa = (1 + self.ecc * cosf) / (1.0 - self.ecc**2)
-        az = -(angvel**2) * inv_roa**3 * z
+        az = angvel**2 * inv_roa**3 * z
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From 632fccc16b9eb4a8405804367c0d3b574bcbf6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 20/31] fix: NaN gradients of the light delay when a body has
 no acceleration

The delay divided by the acceleration in a branch that is discarded when the
acceleration vanishes (the star with a massless planet, face-on orbits), which
made all the gradients NaN. Solve the quadratic in the stable form instead.
---
 src/exoplanet/orbits/keplerian.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 9306d60..9348415 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -464,17 +464,14 @@ class KeplerianOrbit:
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
         # See the derivation at https://github.com/rodluger/starry/issues/66
-        delay = pt.switch(
-            pt.lt(pt.abs(az), 1.0e-10),
-            (z0 - z) / (c_light + vz),
-            (c_light / az)
-            * (
-                (1 + vz / c_light)
-                - pt.sqrt(
-                    (1 + vz / c_light) * (1 + vz / c_light)
-                    - 2 * az * (z0 - z) / c_light**2
-                )
-            ),
+        # The equivalent (c / az) * (A - sqrt(A**2 - 2 * az * (z0 - z) / c**2))
+        # would lose all precision when the acceleration is small.
+        A = 1 + vz / c_light
+        delay = (
+            2
+            * (z0 - z)
+            / c_light
+            / (A + pt.sqrt(A * A - 2 * az * (z0 - z) / c_light**2))
         )
 
         if _pad:
-- 
2.43.0


From c6a7d7a0f20797108b6ca47e92bf3bfe32764348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 21/31] fix: accept lists and single precision parameters in
 SimpleTransitOrbit

---
 src/exoplanet/orbits/simple.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 260daf2..460e5ab 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -1,7 +1,5 @@
 __all__ = ["SimpleTransitOrbit"]
 
-import numpy as np
-
 from exoplanet.compat import tensor as pt
 from exoplanet.utils import as_tensor_variable
 
@@ -29,8 +27,9 @@ class SimpleTransitOrbit:
         self.r_star = as_tensor_variable(r_star)
 
         self._b_norm = self.b * self.r_star
-        x2 = r_star**2 * ((1 + ror) ** 2 - b**2)
-        self.speed = 2 * np.sqrt(x2) / duration
+        opk2 = (1 + as_tensor_variable(ror)) ** 2
+        x2 = self.r_star**2 * (opk2 - self.b**2)
+        self.speed = 2 * pt.sqrt(x2) / self.duration
 
         self._half_period = 0.5 * self.period
         self._ref_time = self.t0 - self._half_period
-- 
2.43.0


From 477b1de0beae9a6d487dfb9e13c348e62fc7ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 22/31] fix: accept lists and single precision parameters with
 a duration

---
 src/exoplanet/orbits/keplerian.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 9348415..4fa5e9f 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -250,7 +250,7 @@ class KeplerianOrbit:
             )
             c2 = c * c
             aor = self.a / self.r_star
-            opk2 = (1 + (0.0 if ror is None else ror)) ** 2
+            opk2 = (1 + as_tensor_variable(0.0 if ror is None else ror)) ** 2
             esinw = self.ecc * self.sin_omega
             self.b = pt.sqrt(
                 (aor**2 * c2 - opk2)
@@ -854,8 +854,10 @@ def get_aor_from_transit_duration(duration, period, b, ror=None):
         ``d a / d duration``
 
     """
-    if ror is None:
-        ror = as_tensor_variable(0.0)
+    duration = as_tensor_variable(duration)
+    period = as_tensor_variable(period)
+    b = as_tensor_variable(b)
+    ror = as_tensor_variable(0.0 if ror is None else ror)
     b2 = b**2
     opk2 = (1 + ror) ** 2
     phi = np.pi * duration / period
-- 
2.43.0


From 3fe10ea82232b6ca3758401581b6bf6c995d8cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 23/31] fix: spurious flux drop when b is just below r

---
 src/exoplanet/light_curves/limb_dark.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exoplanet/light_curves/limb_dark.py b/src/exoplanet/light_curves/limb_dark.py
index efc6e55..bc15222 100644
--- a/src/exoplanet/light_curves/limb_dark.py
+++ b/src/exoplanet/light_curves/limb_dark.py
@@ -21,6 +21,10 @@ def get_cl(u1, u2):
 def quad_limbdark_light_curve(c, b, r):
     b = as_tensor_variable(b)
     r = as_tensor_variable(r)
+    # exoplanet-core hides the whole star when 'b' is smaller than 'r' by less
+    # than the machine precision; step over that point
+    eps = np.finfo("float64").eps
+    b = b + 2 * eps * pt.and_(pt.lt(b, r), pt.le(r - b, eps))
     return pt.dot(ops.quad_solution_vector(b, r), c) - 1.0
 
 
-- 
2.43.0


From a68f28c4016df67d1fbf54b98705bcee9c26321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:32 +0000
Subject: [PATCH 24/31] fix: default starting point of quad_limb_dark with a
 shape

---
 src/exoplanet/distributions/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index c04f599..62c0072 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -84,7 +84,9 @@ def quad_limb_dark(name, **kwargs):
     """
     add_citations_to_model(("kipping13",), kwargs.get("model", None))
 
-    u = kwargs.pop("initval", kwargs.pop("testval", [np.sqrt(0.5), 0.0]))
+    shape = kwargs.get("shape", ())
+    default = [np.full(shape, np.sqrt(0.5)), np.zeros(shape)]
+    u = kwargs.pop("initval", kwargs.pop("testval", default))
     u1 = u[0]
     u2 = u[1]
     kwargs["lower"] = 0.0
-- 
2.43.0


From d5c1da664ed77a1f1b650afed85966729c00e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:52 +0000
Subject: [PATCH 25/31] fix: default starting point of bounded kipping13 with a
 shape

---
 src/exoplanet/distributions/eccentricity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index 0ef5e01..d793408 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -85,8 +85,11 @@ def kipping13(
             lower = 0.0 if lower is None else lower
             upper = 1.0 if upper is None else upper
             if ecc is None:
+                default = 0.5 * (lower + upper) + np.zeros(
+                    kwargs.get("shape", ())
+                )
                 kwargs["initval"] = kwargs.pop(
-                    "initval", kwargs.pop("testval", 0.5 * (lower + upper))
+                    "initval", kwargs.pop("testval", default)
                 )
                 return _truncate(
                     name,
-- 
2.43.0


From 83c63b9ac9dce1f3c10f91aa2bd5a73dd5e7e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 26/31] fix: don't split citation keys at narrow widths

---
 src/exoplanet/citations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/citations.py b/src/exoplanet/citations.py
index df8fea7..dfe6aa1 100644
--- a/src/exoplanet/citations.py
+++ b/src/exoplanet/citations.py
@@ -49,7 +49,9 @@ def get_citations_for_model(model=None, width=79):
         r"\citep{{{0}}}."
     )
     txt = txt.format(", ".join(sorted(cite)))
-    txt = textwrap.wrap(txt, width=width)
+    txt = textwrap.wrap(
+        txt, width=width, break_long_words=False, break_on_hyphens=False
+    )
 
     return "\n".join(txt), "\n".join(bib)
 
-- 
2.43.0


From 35cc7a35a178941976764d59da01b2ab125300db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 27/31] fix: gradient with respect to omega at omega = -pi/2

The half angle formula for the eccentric anomaly at transit is a 0/0
limit there, and its gradient was off by a factor of two.
---
 src/exoplanet/orbits/keplerian.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 4fa5e9f..9a84829 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -203,14 +203,12 @@ class KeplerianOrbit:
             else:
                 raise ValueError("both e and omega must be provided")
 
-            opsw = 1 + self.sin_omega
-            E0 = 2 * pt.arctan2(
-                pt.sqrt(1 - self.ecc) * self.cos_omega,
-                pt.sqrt(1 + self.ecc) * opsw,
+            ome2 = 1 - self.ecc**2
+            E0 = pt.arctan2(
+                pt.sqrt(ome2) * self.cos_omega, self.ecc + self.sin_omega
             )
             self.M0 = E0 - self.ecc * pt.sin(E0)
 
-            ome2 = 1 - self.ecc**2
             self.K0 /= pt.sqrt(ome2)
             incl_factor = (1 + self.ecc * self.sin_omega) / ome2
 
-- 
2.43.0


From c8e27faaa9fba131d9a5a9a802c535e43838fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 28/31] fix: NaN gradient of the light curve when a planet is
 exactly centered

---
 src/exoplanet/light_curves/limb_dark.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/limb_dark.py b/src/exoplanet/light_curves/limb_dark.py
index bc15222..1d06143 100644
--- a/src/exoplanet/light_curves/limb_dark.py
+++ b/src/exoplanet/light_curves/limb_dark.py
@@ -217,7 +217,10 @@ class LimbDarkLightCurve:
         # Evalute the coordinates of the transiting body in the plane of the
         # sky
         coords = orbit.get_relative_position(tgrid, light_delay=light_delay)
-        b = pt.sqrt(coords[0] ** 2 + coords[1] ** 2)
+        b2 = coords[0] ** 2 + coords[1] ** 2
+        # The gradient of the square root isn't finite at the exact center
+        center = pt.eq(b2, 0)
+        b = pt.switch(center, 0.0, pt.sqrt(pt.switch(center, 1.0, b2)))
         b = pt.reshape(b, rgrid.shape)
         los = pt.reshape(coords[2], rgrid.shape)
 
-- 
2.43.0


From c0d7a0532e53b07aed523a6c59b891b8514894bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 29/31] fix: finite gradients of the bounded kipping13 prior
 with hyperparameters

The gradient of the Beta CDF with respect to alpha is NaN at a lower bound of
exactly zero, so kipping13(fixed=False, upper=...) could not be sampled with NUTS.
---
 src/exoplanet/distributions/eccentricity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index d793408..8e2ff5b 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -84,10 +84,10 @@ def kipping13(
         if lower is not None or upper is not None:
             lower = 0.0 if lower is None else lower
             upper = 1.0 if upper is None else upper
+            default = 0.5 * (lower + upper) + np.zeros(kwargs.get("shape", ()))
+            # The gradient of the Beta CDF is not finite at exactly zero
+            lower = pt.maximum(lower, 1e-50)
             if ecc is None:
-                default = 0.5 * (lower + upper) + np.zeros(
-                    kwargs.get("shape", ())
-                )
                 kwargs["initval"] = kwargs.pop(
                     "initval", kwargs.pop("testval", default)
                 )
-- 
2.43.0


From 41b354d0825b1821f1e32997df0c9dc0e966bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 30/31] fix: accept a list of times in in_transit

---
 src/exoplanet/orbits/keplerian.py | 1 +
 src/exoplanet/orbits/simple.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 9a84829..6b1140d 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -737,6 +737,7 @@ class KeplerianOrbit:
                 "Light travel time delay not yet implemented for `in_transit`"
             )
 
+        t = as_tensor_variable(t)
         z = pt.zeros_like(self.a)
         r = as_tensor_variable(r) + z
         R = self.r_star + z
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 460e5ab..c7ab970 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -89,6 +89,7 @@ class SimpleTransitOrbit:
             raise NotImplementedError(
                 "Light travel time delay is not implemented for simple orbits"
             )
+        t = as_tensor_variable(t)
         dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
         dt -= self._half_period
         if r is None:
-- 
2.43.0


From 9174a06e2b6e79003cf7634a3647f2e9b5564989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 31/31] fix: refuse a TTVOrbit given both ttvs and
 transit_times

---
 src/exoplanet/orbits/ttv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 12536bb..1b78c0b 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -72,9 +72,9 @@ class TTVOrbit(KeplerianOrbit):
         ttvs = kwargs.pop("ttvs", None)
         transit_times = kwargs.pop("transit_times", None)
         transit_inds = kwargs.pop("transit_inds", None)
-        if ttvs is None and transit_times is None:
+        if (ttvs is None) == (transit_times is None):
             raise ValueError(
-                "one of 'ttvs' or 'transit_times' must be " "defined"
+                "exactly one of 'ttvs' or 'transit_times' must be defined"
             )
         if ttvs is not None:
             self.ttvs = [as_tensor_variable(ttv, ndim=1) for ttv in ttvs]
-- 
2.43.0

