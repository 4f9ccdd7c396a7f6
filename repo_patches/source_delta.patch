From 8a7f2a58d390d103f5bcf8e11537ec2327abb746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 01/72] fix: pass params through kalepy.density, so that
 kalepy.pdf no longer raises TypeError

---
 kalepy/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/__init__.py b/kalepy/__init__.py
index bbee33d..de567b6 100644
--- a/kalepy/__init__.py
+++ b/kalepy/__init__.py
@@ -68,7 +68,7 @@ del _path
 # High Level API Functions
 # -----------------------------------
 
-def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, **kwargs):
+def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, params=None, **kwargs):
     """Use a KDE to calculate the density of the given data.
 
     This function (1) constructs a kernel-density estimate of the distribution function from which
@@ -136,7 +136,7 @@ def density(data, points=None, weights=None, reflect=None, probability=False, gr
 
     """
     kde = KDE(data, weights=weights, reflect=reflect, **kwargs)
-    points, vals = kde.density(points, probability=probability, grid=grid)
+    points, vals = kde.density(points, params=params, probability=probability, grid=grid)
     return points, vals
 
 
-- 
2.43.0


From a11c94b8e3b2f4370e419d562f08d04b0c4e01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 02/72] fix: KDE.cdf extrapolated outside of its grid, to
 values below zero and above unity

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 690c87a..4629dfb 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -525,6 +525,9 @@ class KDE:
 
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
+        # The CDF is constant outside of the grid (do not extrapolate)
+        grid = self._cdf_grid[0]
+        pnts = np.clip(pnts, [gg[0] for gg in grid], [gg[-1] for gg in grid])
         cdf = self._cdf_func(pnts)
         return cdf
 
-- 
2.43.0


From 6a85057bea8cfaaa1172a1bcd0071408d5d783ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 03/72] fix: KDE.density(reflect=True) and (reflect=False)
 raised TypeError

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 4629dfb..a955daa 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -350,7 +350,7 @@ class KDE:
             reflect = self.reflect
 
         # Make sure `reflect` shape matches the data
-        if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
+        if (reflect is not None) and not isinstance(reflect, bool) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
                 reflect = np.atleast_2d(reflect)
-- 
2.43.0


From 1107680e1833dc4c22e21c9490065c1b46416d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 04/72] fix: _parse_extrema shared one list between dimensions,
 rejected tuples, and left None values when selecting params

---
 kalepy/utils.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc07528..8f2feec 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1228,14 +1228,18 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
 
     if extrema is None:
         extrema = data_extrema
-    elif (params is not None) and (len(extrema) != npars):
-        extrema = [extrema[pp] for pp in params]
-
-    # Check components of given `extrema` to make sure they are valid
-    #   fill in any `None` values with extrema from the data
     else:
-        # Convert from (2,) ==> (D, 2)
-        if really1d(extrema) and (np.shape(extrema) == (2,)):
+        # Select extrema for the target parameters
+        if (params is not None) and (len(extrema) != npars):
+            extrema = [extrema[pp] for pp in params]
+
+        # Check components of given `extrema` to make sure they are valid
+        #   fill in any `None` values with extrema from the data
+
+        # If (D,) list of only `None` then there are no constraints; otherwise convert from (2,) ==> (D, 2)
+        if really1d(extrema) and (len(extrema) == npars) and np.all([ee is None for ee in extrema]):
+            pass
+        elif really1d(extrema) and (np.shape(extrema) == (2,)):
             extrema = [extrema for ii in range(npars)]
         # If already (D, 2) we're good, keep going
         elif np.shape(np.array(extrema, dtype=object)) == (npars, 2):
@@ -1252,6 +1256,8 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
             raise ValueError(err)
 
         # Fill in `None` values and check if given `extrema` is out of bounds for data
+        # (use a separate, mutable list for each dimension)
+        extrema = [ee if (ee is None) else list(ee) for ee in extrema]
         for dd in range(npars):
             if extrema[dd] is None:
                 extrema[dd] = [None, None]
-- 
2.43.0


From 13fdc1d76e7c50d63b05ffeecae53d7ed5a17301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 05/72] fix: resampling with keep and reflect (in different
 dimensions) raised LinAlgError

---
 kalepy/kernels.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 695bf76..dc7f30a 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -213,8 +213,8 @@ class Kernel(object):
         """Resample the given data using reflection.
         """
         matrix = self.matrix
-        # Modify covariance-matrix for any `keep` dimensions
-        matrix = utils.cov_keep_vars(matrix, keep, reflect=reflect)
+        # Make sure that `keep` dimensions are not also being reflected
+        utils.cov_keep_vars(matrix, keep, reflect=reflect)
 
         ndim, nvals = np.shape(data)
 
@@ -245,8 +245,7 @@ class Kernel(object):
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-            #    set `keep` to None, `matrix` is already modified to account for it
-            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=keep)
             # Find the (boolean) indices of values within target boundaries
             idx = utils.bound_indices(trial, bounds)
 
-- 
2.43.0


From 3de6202a51dd3b0c497ba61cdceb02bb79882565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 06/72] fix: multidimensional samples of the box, parabola and
 triweight kernels did not follow those kernels

---
 kalepy/kernels.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index dc7f30a..fb7af16 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -542,7 +542,7 @@ class Box(_Distribution):
         else:
             samps = np.random.normal(0.0, 1.0, (ndim, size))
             rads = np.sum(samps**2, axis=0) ** 0.5
-            norm = np.random.random((ndim, size)) ** (1.0 / ndim)
+            norm = np.random.random(size) ** (1.0 / ndim)
             samps = norm * samps / rads[np.newaxis, :]
         return samps
 
@@ -575,6 +575,9 @@ class Parabola(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
+        if ndim > 1:
+            return _sample_beta_kernel(1, size, ndim)
+
         # Use the median trick to draw from the Epanechnikov distribution
         samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
         samp = np.median(samp, axis=-1)
@@ -606,6 +609,9 @@ class Triweight(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
+        if ndim > 1:
+            return _sample_beta_kernel(3, size, ndim)
+
         samps = np.random.normal(0.0, 1.0, (ndim, size))
         rads = np.linalg.norm(samps, axis=0)
         norm = _triweight_inverse_func(np.random.random((ndim, size)))
@@ -680,6 +686,16 @@ def _nball_vol(ndim, rad=1.0):
     return vol
 
 
+def _sample_beta_kernel(order, size, ndim):
+    """Draw samples from the spherically symmetric kernel proportional to `(1 - r^2)^order`, for `r <= 1`.
+    """
+    # random directions, with one radius for each sample
+    samps = np.random.normal(0.0, 1.0, (ndim, size))
+    rads = np.linalg.norm(samps, axis=0)
+    norm = np.sqrt(np.random.beta(ndim / 2.0, order + 1.0, size))
+    return norm * samps / rads[np.newaxis, :]
+
+
 def _beta_kernel_norm(order, ndim):
     """Note: this is the inverse normalization (i.e. divide by this).
 
-- 
2.43.0


From fddd7a3ec9fe588d04bb7a149a939f296b2cd955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 07/72] fix: Distribution.inside raised for Gaussian kernels
 and for 1D points

---
 kalepy/kernels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index fb7af16..4cb3a2c 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -89,7 +89,7 @@ class Kernel(object):
             weights = np.ones(num_data)
         elif (np.shape(weights) != (num_data,)):
             err = "Shape of `weights` ({}) does not match number of data points ({})!".format(
-                np.shpae(weights), num_data)
+                np.shape(weights), num_data)
             raise ValueError(err)
 
         # -----------------    Calculate Density
@@ -504,9 +504,9 @@ class Gaussian(_Distribution):
         return samps
 
     @staticmethod
-    def inside(cls, points):
+    def inside(points):
         if np.ndim(points) == 1:
-            shape = points.size
+            shape = np.size(points)
         else:
             ndim, *shape = np.shape(points)
         return np.ones(shape, dtype=bool)
@@ -673,7 +673,7 @@ def get_distribution_class(arg=None):
 
 def _inside_unit_nball(points):
     if np.ndim(points) == 1:
-        idx = (-1.0 < points < 1.0)
+        idx = (np.fabs(points) < 1.0)
     else:
         points = np.linalg.norm(points, axis=0)
         idx = (points < 1.0)
-- 
2.43.0


From 160b23c3d8a3973ad4e9162eac196e24757366f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 08/72] fix: _check_reflect replaced True values in the
 caller's own reflect argument

---
 kalepy/kernels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 4cb3a2c..06b4124 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -743,6 +743,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         err = "each row of `reflect` must be `None` or have shape (2,)!  '{}'".format(reflect)
         raise ValueError(err)
 
+    # Copy, so that the caller's `reflect` is not modified when `True` values are replaced (below)
+    reflect = [ref if (ref is None) or (ref is True) else list(ref) for ref in reflect]
+
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-- 
2.43.0


From 1381d137962c358eb351a814d1e07180cc0a5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 09/72] fix: automatic reflection boundaries were inside of the
 data extrema for negative minima and maxima

---
 kalepy/kernels.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 06b4124..c092a9e 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -708,6 +708,12 @@ def _beta_kernel_norm(order, ndim):
     return norm
 
 
+def _pad_outside(val, sign):
+    """Pad the given extremum away from the data: towards -inf (`sign=-1`) or +inf (`sign=+1`).
+    """
+    return val + sign * _NUM_PAD * np.fabs(val)
+
+
 def _check_reflect(reflect, data, weights=None, helper=False):
     """Make sure the given `reflect` argument is valid given the data shape
     """
@@ -749,12 +755,12 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-            reflect[ii] = [np.min(data[ii])*(1 - _NUM_PAD), np.max(data[ii])*(1 + _NUM_PAD)]
+            reflect[ii] = [_pad_outside(np.min(data[ii]), -1), _pad_outside(np.max(data[ii]), +1)]
         elif (reflect[ii] is not None) and (True in reflect[ii]):
             if reflect[ii][0] is True:
-                reflect[ii][0] = np.min(data[ii])*(1 - _NUM_PAD)
+                reflect[ii][0] = _pad_outside(np.min(data[ii]), -1)
             if reflect[ii][1] is True:
-                reflect[ii][1] = np.max(data[ii])*(1 + _NUM_PAD)
+                reflect[ii][1] = _pad_outside(np.max(data[ii]), +1)
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From a478df0eb3290aeb71e0d311bf969f387270692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 10/72] fix: effective extrema were inside of the data (or
 infinite) for a small effective number of data points

---
 kalepy/kde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index a955daa..c304982 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -244,7 +244,8 @@ class KDE:
             out = (1.0 + _NUM_PAD)
         # If infinite kernel, how many standard-deviations can we expect values to lie at
         else:
-            out = sp.stats.norm.ppf(1.0 - 1.0/neff)
+            # (for a small `neff` the quantile is negative or infinite, so use at least three data-points)
+            out = sp.stats.norm.ppf(1.0 - 1.0/max(neff, 3.0))
             # Extra to be double sure...
             out *= 1.2
 
-- 
2.43.0


From 8b7cbe07c9171ff6d71ce7570048123d93d9a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 11/72] fix: reflected resampling discarded all of the
 reflected data, so samples did not follow the reflected density

---
 kalepy/kernels.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index c092a9e..a620e15 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -240,7 +240,8 @@ class Kernel(object):
         samps = np.zeros((size, ndim))
         num_good = 0
         cnt = 0
-        MAX = 10
+        # each draw can be accepted rarely, as there are images in every direction outside of `bounds`
+        MAX = 100
         draw = chunk_size
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
@@ -326,8 +327,8 @@ class Kernel(object):
 
     def _truncate_reflections(self, data, bounds, weights=None):
         # Determine the bounds outside of which we should truncate
-        # trunc = self._get_truncation_bounds(bounds)
-        trunc = bounds
+        #   Images outside of the reflection bounds still contribute to the density inside of them
+        trunc = self._get_truncation_bounds(bounds)
         # Find the data-points outside of those bounds
         idx = utils.bound_indices(data, trunc)
         # Select only points within truncation bounds
@@ -339,18 +340,16 @@ class Kernel(object):
         return data, weights
 
     def _get_truncation_bounds(self, bounds):
-        trunc = np.zeros_like(bounds)
-
-        bw = self.bandwidth.diagonal()
+        # Extent of the kernel in each dimension
+        bw = np.sqrt(self.matrix.diagonal())
         # If this kernel has finite-support, we only need to go out to 'bandwidth' on each side
         if self.FINITE:
             bw = bw * (1 + _NUM_PAD)
-            qnts = np.array([-bw, bw]).T
         # If kernel has infinite-support, go to the quantile reaching the desired precision
         else:
-            tol = _TRUNCATE_INFINITE_KERNELS
-            qnts = self.distribution.ppf([tol, 1-tol])
-            qnts = qnts[np.newaxis, :] * bw[:, np.newaxis]
+            bw = bw * sp.stats.norm.isf(_TRUNCATE_INFINITE_KERNELS / 2.0)
+
+        qnts = np.array([-bw, bw]).T
 
         # Expand the reflection bounds based on the bandwidth interval
         trunc = bounds + qnts
-- 
2.43.0


From 09e8ebc0b6207d7b6a59ec594edfe56168b9a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 12/72] fix: KDE.from_hist mis-placed points of irregular bins
 and raised for lists, arrays of bandwidth, and fewer than two bins

---
 kalepy/kde.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index c304982..dd915ce 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -428,13 +428,15 @@ class KDE:
         if utils.really1d(bins):
 
             # Convert bins into points
-            dx = bins[2] - bins[1]
-            points = bins[:-1] + 0.5 * dx
+            bins = np.asarray(bins)
+            dx = bins[1] - bins[0]
+            points = utils.midpoints(bins)
 
             # Normalize into a pdf
+            hist = np.asarray(hist)
             hist = hist / (hist.sum() * dx)
 
-            if bandwidth == 'bin width':
+            if isinstance(bandwidth, str) and (bandwidth == 'bin width'):
                 bandwidth = dx
 
             return KDE(
@@ -455,21 +457,22 @@ class KDE:
 
             for bins_i in bins:
                 # Convert bins into points
-                dx = bins_i[2] - bins_i[1]
-                centers_i = bins_i[:-1] + 0.5 * dx
+                dx = bins_i[1] - bins_i[0]
+                centers_i = utils.midpoints(bins_i)
                 centers.append(centers_i)
 
                 dx_mult *= dx
                 dxs.append(dx)
 
             # Normalize into a pdf
+            hist = np.asarray(hist)
             hist = hist / (hist.sum() * dx_mult)
 
             # Transform into points
             points = np.meshgrid(*centers, indexing='ij')
             points = [_.flatten() for _ in points]
 
-            if bandwidth == 'bin width':
+            if isinstance(bandwidth, str) and (bandwidth == 'bin width'):
                 bandwidth = dxs
 
             return KDE(
-- 
2.43.0


From a966bc8193809efe76dd3795b4fc780ab3827ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 13/72] fix: sample_grid raised for 1D scalars and for lists,
 dropped the axis of a single sample; sample_grid_proportional ignored mass

---
 kalepy/sample.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index a9366c9..7575984 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -77,9 +77,15 @@ class Sample_Grid:
         #     else:
         #         err = "Shape of `scalar` ({}) does not match `data` ({})!".format(scalar.shape, dens.shape)
         #         raise ValueError(err)
-        if (mass is not None) and np.any(np.shape(mass) != np.array(shape_bins)):
+        if (mass is not None) and (np.shape(mass) != tuple(shape_bins)):
             err = "Shape of `mass` ({}) inconsistent with shape of edges ({})!".format(np.shape(mass), shape_edges)
             raise ValueError(err)
+        if mass is not None:
+            mass = np.asarray(mass)
+        if scalar_dens is not None:
+            scalar_dens = np.asarray(scalar_dens)
+        if scalar_mass is not None:
+            scalar_mass = np.asarray(scalar_mass)
 
         self._edges = edges
         self._dens = dens
@@ -434,15 +440,20 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
     sampler = Sample_Grid(edges, dens, mass=mass, scalar_dens=scalar_dens, scalar_mass=scalar_mass)
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
     if squeeze:
-        samples = samples.squeeze()
+        # if scalars are being returned also, squeeze only the sample points
+        if isinstance(samples, tuple):
+            samples = (samples[0].squeeze(axis=0),) + samples[1:]
+        else:
+            samples = samples.squeeze(axis=0)
     return samples
 
 
 def sample_grid_proportional(edges, dens, portion, nsamp, mass=None, **sample_kwargs):
-    scalar_dens = dens / portion
+    portion = np.asarray(portion)
+    scalar_dens = np.asarray(dens) / portion
     # Avoid NaN values
     scalar_dens[portion == 0.0] = 0.0
-    sampler = Sample_Grid(edges, portion, scalar_dens=scalar_dens)
+    sampler = Sample_Grid(edges, portion, mass=mass, scalar_dens=scalar_dens)
     vals, weight = sampler.sample(nsamp, **sample_kwargs)
     return vals, weight
 
@@ -482,7 +493,7 @@ def sample_outliers(edges, data, threshold, nsamp=None, mass=None, **sample_kwar
         raise ValueError("`nsamp` is currently deprecated!")
     nsamp, vals, weights = outliers.sample(**sample_kwargs)
     if squeeze:
-        vals = vals.squeeze()
+        vals = vals.squeeze(axis=0)
     return vals, weights
 
 
-- 
2.43.0


From df250e579e4b3b5e69275dece02258633eea9be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 14/72] fix: sample positions within bins were based on the
 density gradient relative to the grid average, instead of that bin

---
 kalepy/sample.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 7575984..eb1ac85 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -138,9 +138,9 @@ class Sample_Grid:
 
         # ensure PDF `dens` is properly normalized for interpolation
         #     this normalization is based on each bin having a domain of [0.0, 1.0] during intrabin linear
-        #     interpolation sampling (`_intrabin_linear_interp()`)
+        #     interpolation sampling (`_intrabin_linear_interp()`), so it is the mean density of each bin
         if interpolate:
-            dens = dens / (dens.sum() / dens.size)
+            dens_mean = utils.midpoints(dens, axis=None)
 
         # If no number of samples are given, assume that the units of `self._mass` are number of samples, and choose
         # the total numbe of samples to be the total of this
@@ -190,7 +190,7 @@ class Sample_Grid:
                 # Find the gradient along this dimension (using center-values in other dimensions)
                 _grad = _grad_along(dens, dim)
                 # get the gradient for each sample
-                grad = _grad.flat[bin_numbers_flat]
+                grad = _unit_grad(_grad, dens_mean).flat[bin_numbers_flat]
                 # interpolate edge values in this dimension
                 vals[dim, :] = _intrabin_linear_interp(edge, wid, loc, bidx, grad)
 
@@ -505,6 +505,16 @@ def _grad_along(data_edge, dim):
     return grad
 
 
+def _unit_grad(grad, mean):
+    """Normalize the gradients (i.e. changes across each bin) to the mean value of each bin.
+
+    The result is zero for bins in which the mean is zero.  Otherwise, for non-negative values, it's within [-2, 2].
+    """
+    good = (mean != 0.0)
+    unit = np.divide(grad, mean, out=np.zeros(np.shape(grad)), where=good)
+    return np.clip(unit, -2.0, 2.0)
+
+
 def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     """Perform linear interpolation within each bin, based on gradient information, for a particular dimension.
 
-- 
2.43.0


From ce0536f06e05dca72e238831c91ef68f355662d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 15/72] fix: interpolated scalars mixed gradients of scalar
 density with values of scalar mass

---
 kalepy/sample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index eb1ac85..bd9ff11 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -85,7 +85,7 @@ class Sample_Grid:
         if scalar_dens is not None:
             scalar_dens = np.asarray(scalar_dens)
         if scalar_mass is not None:
-            scalar_mass = np.asarray(scalar_mass)
+            scalar_mass = np.asarray(scalar_mass, dtype=float)
 
         self._edges = edges
         self._dens = dens
@@ -196,7 +196,10 @@ class Sample_Grid:
 
             # interpolate scalar values also
             if return_scalar and interpolate:
+                # convert to units of `scalar_mass`
+                mean = utils.midpoints(scalar_dens, axis=None)
                 grad = _grad_along(scalar_dens, dim)
+                grad = grad * np.divide(scalar_mass, mean, out=np.zeros(np.shape(mean)), where=(mean != 0.0))
                 grad = grad.flat[bin_numbers_flat]
                 # shift `loc` (location within bin) to center point
                 scalar_values += grad * (loc - 0.5)
-- 
2.43.0


From f7ed3e4613620bca66d57fe2a35b3cd0048ec460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 16/72] fix: utils.quantiles broke for a given axis, due to the
 shape of the weights' normalization

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 8f2feec..ad3d28a 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -520,7 +520,7 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
         weights = np.take_along_axis(weights, sorter, axis=axis)
 
     weighted_quantiles = np.cumsum(weights, axis=axis) - 0.5 * weights
-    weighted_quantiles /= np.sum(weights, axis=axis)[..., np.newaxis]
+    weighted_quantiles /= np.sum(weights, axis=axis, keepdims=True)
     if axis is None:
         percs = np.interp(percs, weighted_quantiles, values)
     else:
-- 
2.43.0


From 605e82c5bad89de2cd839d87664cb50d94e1e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 17/72] fix: bound_indices(outside=True) required values to be
 outside in every dimension, and mishandled None bounds

---
 kalepy/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index ad3d28a..1fe4225 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -70,18 +70,20 @@ def bound_indices(data, bounds, outside=False):
     If `outside` is True, then indices for values *outside* of the bounds are returned.
     """
     data = np.atleast_2d(data)
-    bounds = np.atleast_2d(bounds)
+    # `bounds` for multiple dimensions can be jagged, if some are `None`
+    if (not np.iterable(bounds)) or really1d(bounds):
+        bounds = np.atleast_2d(bounds)
     ndim, nvals = np.shape(data)
-    idx = np.ones(nvals, dtype=bool)
+    # values are inside if they're inside in every dimension, and outside if they're outside in any dimension
+    idx = np.full(nvals, not outside, dtype=bool)
     for ii, bnd in enumerate(bounds):
         if bnd is None or ((len(bnd) == 1) and (bnd[0] is None)):
-            idx = idx & ~outside
             continue
 
         if outside:
             lo = (data[ii, :] < bnd[0]) if (bnd[0] is not None) else False
             hi = (bnd[1] < data[ii, :]) if (bnd[1] is not None) else False
-            idx = idx & (lo | hi)
+            idx = idx | (lo | hi)
         else:
             lo = True if (bnd[0] is None) else (bnd[0] < data[ii, :])
             hi = True if (bnd[1] is None) else (data[ii, :] < bnd[1])
-- 
2.43.0


From 3df03822a23c4f9888c3dbe0a340a3c8cc75e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 18/72] fix: utils.minmax truncated values for integer data,
 and raised for lists and for data without positive values

---
 kalepy/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 1fe4225..09a7f6f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -384,8 +384,16 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
         return prev
 
     # Find extrema
-    idx = (data > 0.0) if positive else slice(None)
+    data = np.asarray(data)
+    idx = (data > 0.0) if positive else np.ones(np.shape(data), dtype=bool)
+    # If there are no positive elements, also return `prev`
+    if not np.any(idx):
+        return prev
+
     minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    # Stretching, or comparing to other values, should not be truncated to integers
+    if np.issubdtype(minmax.dtype, np.integer) and not all(vv is None for vv in [prev, stretch, log_stretch, limit]):
+        minmax = minmax.astype(float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From eab4a549f38ef3b774d122c99fc52ccdadd41d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 19/72] fix: utils.isjagged raised ValueError for jagged lists

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 09a7f6f..86125da 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -599,7 +599,8 @@ def isjagged(arr):
     """Test if the given array is jagged.
     """
     # if np.isscalar(arr) or (np.size(arr) == len(flatten(arr))):
-    if np.isscalar(arr) or (np.size(arr) == flatlen(arr)):
+    # NOTE: jagged lists can only be converted to arrays of `object`
+    if np.isscalar(arr) or (np.asarray(arr, dtype=object).size == flatlen(arr)):
         return False
     return True
 
-- 
2.43.0


From ad69e7c6278d5ddea42a68d6820d714d9d526654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 20/72] fix: utils.histogram (and so hist1d and dist1d) raised
 TypeError for weighted data without given bins

---
 kalepy/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 86125da..aee7696 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -300,8 +300,12 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
 
 
 def histogram(data, bins=None, weights=None, density=False, probability=False):
+    data = np.asarray(data)
     if bins is None:
         bins = 'auto'
+    # numpy's automatic binning methods don't support weights, so choose bins based on the data alone
+    if isinstance(bins, str) and (weights is not None):
+        bins = np.histogram_bin_edges(data, bins=bins)
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
         hist = hist.astype(float) / np.diff(edges)
-- 
2.43.0


From d90b28f2b8a498eaa1d074f46f1c1abe93fe6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 21/72] fix: a single evaluation point or sample lost its axis,
 and params=[0] was rejected for 1D data

---
 kalepy/kde.py     | 3 +--
 kalepy/kernels.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index dd915ce..4bfcf4a 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -331,7 +331,7 @@ class KDE:
         squeeze = False
         if params is not None:
             if (ndim == 1):
-                if params == 0:
+                if np.all(np.atleast_1d(params) == 0) and (np.size(params) == 1):
                     params = None
                 else:
                     err = "Cannot specify `params` ('{}') > 0 for 1D data!".format(params)
@@ -395,7 +395,6 @@ class KDE:
 
         if squeeze:
             points = points[0]
-            values = values.squeeze()
 
         return points, values
 
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index a620e15..931b654 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -164,7 +164,7 @@ class Kernel(object):
             samples = self._resample_reflect(data, size, reflect, weights=weights, keep=keep)
 
         if (ndim == 1) and squeeze:
-            samples = samples.squeeze()
+            samples = samples.squeeze(axis=0)
 
         return samples
 
-- 
2.43.0


From 55c52288f421f13a0e37e72dccd6c59649674369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 22/72] fix: Corner methods stored settings in their default
 (and the caller's) dictionaries, changing subsequent plots

---
 kalepy/plot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index fc84b59..783269f 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -296,7 +296,8 @@ class Corner:
         # If data is given, convert to KDE as needed
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
-        # Set default 1D parameters
+        # Set default 1D parameters (in copies, to not change the caller's, or the default, dictionaries)
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', False)
         dist1d.setdefault('carpet', False)
@@ -344,7 +345,8 @@ class Corner:
         # If KDE is given, retrieve the dataset from it
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
-        # Set default 1D parameters
+        # Set default 1D parameters (in copies, to not change the caller's, or the default, dictionaries)
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('density', False)
         dist1d.setdefault('confidence', False)
         dist1d.setdefault('carpet', False)
@@ -427,7 +429,8 @@ class Corner:
         # If data is given, construct KDE
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
-        # Set default 1D parameters
+        # Set default 1D parameters (in copies, to not change the caller's, or the default, dictionaries)
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', True)
         dist1d.setdefault('carpet', True)
@@ -529,6 +532,8 @@ class Corner:
 
         edges = utils.parse_edges(kde.dataset, edges=edges)
         # quantiles, _ = _default_quantiles(quantiles=quantiles)
+        # Set defaults in copies, to not change the caller's, or the default, dictionaries
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('quantiles', quantiles)
         dist2d.setdefault('quantiles', quantiles)
         dist1d.setdefault('ls', ls)
-- 
2.43.0


From 4ce6bf8272bd81e114ebf26eb6a784c55438313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 23/72] fix: weights were ignored by Corner.hist,
 Corner.plot_data and confidence bands; lists raised in carpet and scatter

---
 kalepy/plot.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 783269f..9cfc086 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -360,7 +360,7 @@ class Corner:
         dist2d.setdefault('mask_below', False)
 
         # Plot
-        rv = self.plot_data(data, dist1d=dist1d, dist2d=dist2d, **kwargs)
+        rv = self.plot_data(data, weights=weights, dist1d=dist1d, dist2d=dist2d, **kwargs)
         return rv
 
     def plot(self, kde_data=None, edges=None, weights=None, quantiles=None,
@@ -640,6 +640,8 @@ class Corner:
             if data is None:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
+            if weights is None:
+                weights = self._weights
 
         # If a KDE is given, extract the dataset
         kde, data, weights = _parse_kde_data(data, weights=weights)
@@ -980,6 +982,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     """
 
     xx = np.asarray(xx)
+    weights = weights if (weights is None) else np.asarray(weights)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting carpet points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
@@ -1100,10 +1103,12 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
     kwargs.setdefault('alpha', 0.1)
 
     # Calculate Cumulative Distribution Function
+    data = np.asarray(data)
     if weights is None:
         data = np.sort(data)
         cdf = np.arange(data.size) / (data.size - 1)
     else:
+        weights = np.asarray(weights)
         idx = np.argsort(data)
         data = data[idx]
         weights = weights[idx]
@@ -1360,7 +1365,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Contours and Median Line
     if confidence:
-        hh = _confidence(data, ax=ax, color=color, quantiles=quantiles, rotate=rotate)
+        hh = _confidence(data, ax=ax, weights=weights, color=color, quantiles=quantiles, rotate=rotate)
         if handle is None:
             handle = hh
 
@@ -1894,6 +1899,8 @@ def draw_scatter(ax, xx, yy, alpha=None, s=4, limit=None, **kwargs):
     #     fc = ax._get_lines.get_next_color()
     # kwargs.setdefault('facecolor', color)
     # kwargs.setdefault('edgecolor', 'none')
+    xx = np.asarray(xx)
+    yy = np.asarray(yy)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting scatter points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
-- 
2.43.0


From 427f7fa611f47461791d38d801bc7fb01d76df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 24/72] fix: lower limits were shaded in the wrong direction in
 2D panels by Corner.target

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 9cfc086..c7f3075 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -855,7 +855,7 @@ class Corner:
                 if upper_limits[kk] is not None:
                     func_lim(extr[kk][0], upper_limits[kk], **span_kw)
                 if lower_limits[kk] is not None:
-                    func_lim(lower_limits[kk], extr[kk][0], **span_kw)
+                    func_lim(lower_limits[kk], extr[kk][1], **span_kw)
 
         return
 
-- 
2.43.0


From 7f63f6311437af8c6a4636b9de9e6305dd312bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 25/72] fix: dist2d ignored the order of params for 2D data,
 and mismatched reflect boundaries with params

---
 kalepy/plot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index c7f3075..e13c1a9 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1489,16 +1489,16 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             raise ValueError("`weights` of given `KDE` instance cannot be overridden!")
         kde = kde_data
         data = kde.dataset
-        ndim = np.shape(data)[0]
-        if ndim > 2:
-            if len(params) != 2:
-                raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
-            data = np.vstack([data[ii] for ii in params])
+        if len(params) != 2:
+            raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
+        data = np.vstack([data[ii] for ii in params])
+        extrema = None if (kde.reflect is None) else [kde.reflect[ii] for ii in params]
         weights = None if kde._weights_uniform else kde.weights
     else:
         try:
             data = kde_data
             kde = kale.KDE(data, weights=weights)
+            extrema = None
         except:
             err = "Failed to construct KDE from given data!"
             logging.error(err)
@@ -1519,7 +1519,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         mask_dense = (scatter is not None) and (hist or contour)
 
     # Calculate histogram
-    edges = utils.parse_edges(data, edges=edges, extrema=kde.reflect, params=params)
+    edges = utils.parse_edges(data, edges=edges, extrema=extrema, params=params)
     hh, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
 
     _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles, sigmas=sigmas)
-- 
2.43.0


From c2a1f84e7951fa4bc87e55fe8e29cdb412b7b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 26/72] fix: hist2d(mask_below=True) compared densities to a
 fraction of data points, masking depended on the scale of the data

---
 kalepy/plot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index e13c1a9..0eaba85 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1764,12 +1764,15 @@ def hist2d(data, edges=None, ax=None, weights=None, mask_below=False, **kwargs):
     if ax is None:
         ax = plt.gca()
 
-    if mask_below is True:
-        mask_below = 0.9 / len(data[0])
-
     # Calculate histogram
     edges = utils.parse_edges(data, edges=edges)
     hist, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
+    if mask_below is True:
+        # `hist` is a density, so compare the weight in each bin to that of an average data point
+        mass, *_ = np.histogram2d(*data, bins=edges, weights=weights)
+        ave = 1.0 if (weights is None) else np.mean(weights)
+        hist = np.ma.masked_where(mass < 0.9*ave, hist)
+        mask_below = False
     # Draw
     rv = draw_hist2d(ax, edges, hist, mask_below=mask_below, **kwargs)
     return rv
-- 
2.43.0


From dd06e39e646655f2922de597a519aed67e29d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 27/72] fix: single element arrays and nested lists of
 bandwidths were rejected

---
 kalepy/kde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 4bfcf4a..c7bdc68 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -699,8 +699,8 @@ class KDE:
         ndim = self.ndim
         bandwidth = np.zeros((ndim, ndim))
 
-        if len(np.atleast_1d(bw_input)) == 1:
-            _bw, method = self._compute_bandwidth(bw_input)
+        if np.size(bw_input) == 1:
+            _bw, method = self._compute_bandwidth(np.ravel(bw_input)[0])
             if not self._diagonal:
                 bandwidth[...] = _bw
             else:
@@ -716,7 +716,7 @@ class KDE:
             elif np.shape(bw_input) == (ndim, ndim):
                 for ii, jj in np.ndindex(ndim, ndim):
                     bandwidth[ii, jj], *_ = self._compute_bandwidth(
-                        bw_input[ii, jj], param=(ii, jj))
+                        bw_input[ii][jj], param=(ii, jj))
                 method = 'matrix'
             else:
                 err = "`bandwidth` must have shape (1,), (N,) or (N,N,) for `N` dimensions!"
-- 
2.43.0


From aeade2f25825e672c3386f194f97691e334a8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 28/72] fix: reflect given as (2,) for 1D data converted True
 into a boundary at one

---
 kalepy/kde.py     | 2 +-
 kalepy/kernels.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index c7bdc68..f7b3bcf 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -354,7 +354,7 @@ class KDE:
         if (reflect is not None) and not isinstance(reflect, bool) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
-                reflect = np.atleast_2d(reflect)
+                reflect = [reflect]
             else:
                 err = (
                     "length of `reflect` ({}) ".format(reflect),
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 931b654..b7a0824 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -731,7 +731,8 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         reflect = [True for ii in range(ndim)]
 
     if (len(reflect) == 2) and (ndim == 1):
-        reflect = np.atleast_2d(reflect)
+        # (do not convert to an array, which may convert `True` into a number)
+        reflect = [reflect]
 
     if (len(reflect) != ndim):  # and not ((len(reflect) == 2) and (ndim == 1)):
         err = "`reflect` ({},) must match the data with shape ({}) parameters!".format(
-- 
2.43.0


From 8a8881a7fe842598ea63ffda85ca60ff1ae8a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 29/72] fix: density was not zero outside of the reflecting
 boundaries of all but the last dimension

---
 kalepy/kernels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index b7a0824..0209f17 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -114,6 +114,7 @@ class Kernel(object):
                 np.shape(reflect), np.shape(data))
             raise ValueError(err)
 
+        outside = np.zeros(num_points, dtype=bool)
         for ii, reflect_dim in enumerate(reflect):
             if reflect_dim is None:
                 continue
@@ -129,9 +130,10 @@ class Kernel(object):
 
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
-            idx = (points[ii, :] < lo) | (hi < points[ii, :])
-            result[idx] = 0.0
+            outside |= (points[ii, :] < lo) | (hi < points[ii, :])
 
+        # Images in each dimension also contribute outside of the boundaries in other dimensions, so zero those last
+        result[outside] = 0.0
         result = result / norm
         return result
 
-- 
2.43.0


From de86e2b4a40575f062d62cdaf1ac378046846144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 30/72] fix: positions within bins of nearly constant density
 were not uniform (numerical cancellation)

---
 kalepy/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index bd9ff11..7b16578 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -560,8 +560,9 @@ def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     # calculate `y1` to ensure the CDF is unitary
     y1 = 1.0 - grad[sel] / 2.0
     # invert the CDF (``F(x) = y1*x + grad * x^2 / 2``) to sample from PDF (still on [0.0, to 1.0])
-    vals[sel] = 2 * loc[sel] * grad[sel] + y1 ** 2
-    vals[sel] = (np.sqrt(vals[sel]) - y1) / grad[sel]
+    #    (in the form that does not subtract nearly equal numbers, when the gradient is small)
+    vals[sel] = np.sqrt(np.maximum(2 * loc[sel] * grad[sel] + y1 ** 2, 0.0)) + y1
+    vals[sel] = np.divide(2 * loc[sel], vals[sel], out=np.zeros_like(y1), where=(vals[sel] > 0.0))
     # convert [0.0, 1.0] domain to the location and width of each bin
     vals = edge[bidx] + bw * vals
 
-- 
2.43.0


From 617752abb1b87d6745038bbf0e36b0ec1a7bddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 31/72] fix: rem_cov without a given covariance raised except
 for two dimensions

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index aee7696..ad73099 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -657,7 +657,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 
 def rem_cov(data, cov=None):
     if cov is None:
-        cov = np.cov(*data)
+        cov = np.atleast_2d(np.cov(data))
     color_mat = sp.linalg.cholesky(cov)
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
-- 
2.43.0


From d8b5b3022e410305ce8810d490552309c6491a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 32/72] fix: cumtrapz along one axis prepended zeros to every
 axis

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index ad73099..3eb8f96 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -290,7 +290,7 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
     if prepend:
         ndim = _ndim(cdf)
         temp = [1, 0] if axis is None else [0, 0]
-        padding = [temp for ii in range(ndim)]
+        padding = [list(temp) for ii in range(ndim)]
         if axis is not None:
             padding[axis][0] = 1
         # cdf = _pre_pad_zero(cdf, axis=axis)
-- 
2.43.0


From fc6ba2642051b40697d5c4ab299db074b6a7b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:34 +0000
Subject: [PATCH 33/72] fix: really1d, isjagged and jshape raised ValueError
 for nested jagged sequences

---
 kalepy/utils.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 3eb8f96..852ca81 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -572,7 +572,8 @@ def really1d(arr):
     if len(arr) == 0:
         return True
     # Each element must be a scalar
-    if np.any([np.shape(tt) != () for tt in arr]):
+    # (elements can be jagged themselves, in which case `np.shape` would raise an error)
+    if np.any([(not np.isscalar(tt)) and (_ndim(tt) != 0) for tt in arr]):
         return False
 
     return True
@@ -604,7 +605,7 @@ def isjagged(arr):
     """
     # if np.isscalar(arr) or (np.size(arr) == len(flatten(arr))):
     # NOTE: jagged lists can only be converted to arrays of `object`
-    if np.isscalar(arr) or (np.asarray(arr, dtype=object).size == flatlen(arr)):
+    if np.isscalar(arr) or (_object_array(arr).size == flatlen(arr)):
         return False
     return True
 
@@ -639,7 +640,7 @@ def isinteger(val, iterable=True):
 def jshape(arr, level=0, printout=False, prepend="", indent="  "):
     """Print the complete shape (even if jagged) of the given array.
     """
-    arr = np.asarray(arr, dtype=object)
+    arr = _object_array(arr)
     if printout:
         print(prepend + indent*level + str(np.shape(arr)))
 
@@ -1212,7 +1213,20 @@ def _ndim(vals):
         try:
             return np.ndim(vals)
         except:
-            return np.ndim(np.asarray(vals, dtype=object))
+            return np.ndim(_object_array(vals))
+
+
+def _object_array(vals):
+    """Convert to an array of `object`, which can be jagged.
+    """
+    try:
+        return np.asarray(vals, dtype=object)
+    # numpy cannot combine arrays that differ only in their later dimensions
+    except ValueError:
+        arr = np.empty(len(vals), dtype=object)
+        for ii, vv in enumerate(vals):
+            arr[ii] = vv
+        return arr
 
 
 def _parse_extrema(data, extrema=None, params=None, warn=True):
-- 
2.43.0


From da987947810e64fb156a584313bb1bbde2e97876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 34/72] fix: sizes of carpet points decreased with weight, for
 weights below unity spanning more than a decade

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 0eaba85..32aaaee 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1009,7 +1009,8 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
         ww = 1.0
     else:
         if utils.iqrange(weights, log=True) > 1:
-            weights = np.log10(weights)
+            # relative to the smallest weight, so that sizes always increase with weight
+            weights = 1.0 + np.log10(weights / np.min(weights[weights > 0.0]))
         ww = weights / np.median(weights)
 
     # General random y-values for the fuzz
-- 
2.43.0


From 3a44abea3199e0ab2502146bd51530689c93c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 35/72] fix: histograms of integer counts could not be drawn
 without joints

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 32aaaee..b7eade4 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1796,7 +1796,7 @@ def draw_hist1d(ax, edges, hist, renormalize=False, nonzero=False, positive=Fals
 
         outs = []
         for zz in [xval, yval]:
-            zz = np.atleast_2d(zz).T
+            zz = np.atleast_2d(zz).T.astype(float)    # integers cannot be padded with `nan`
             zz = np.reshape(zz, [half, 2], order='C')
             zz = np.pad(zz, [[0, 0], [0, 1]], constant_values=np.nan)
             zz = zz.reshape(size + half)
-- 
2.43.0


From 11d25eefb3fd9f172e2ddb2feb51f1ea248bc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 36/72] fix: KDE raised TypeError for weights given as a list

---
 kalepy/kde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index f7b3bcf..311235a 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -201,6 +201,7 @@ class KDE:
                 err = "`weights` input (shape={}) should be shaped as (N,)=({},)!".format(np.shape(weights), ndata)
                 raise ValueError(err)
 
+            weights = np.asarray(weights)
             if np.count_nonzero(weights) == 0 or np.any(~np.isfinite(weights) | (weights < 0)):
                 raise ValueError("Invalid `weights` entries, all must be finite and > 0!")
 
-- 
2.43.0


From d273322236db7c653c4661615e8901c0fafec557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 37/72] fix: contours raised ValueError when numerous quantiles
 fall on the same level

---
 kalepy/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index b7eade4..b4a4784 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1615,8 +1615,9 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles)
             span = [levels.min(), hh.max()]
             mask_cmap = mpl.colors.ListedColormap('white')
-            # Draw
-            ax.contourf(*ee, hh, span, cmap=mask_cmap, antialiased=True, zorder=9, alpha=mask_alpha)
+            # Draw, unless there is nothing within the outermost contour
+            if span[0] < span[1]:
+                ax.contourf(*ee, hh, span, cmap=mask_cmap, antialiased=True, zorder=9, alpha=mask_alpha)
 
     return handle
 
@@ -1855,6 +1856,8 @@ def draw_contour2d(ax, edges, hist, quantiles=None, levels=None,
     # ---- Setup parameters
     if levels is None:
         _, levels, quantiles = _dfm_levels(hist, quantiles=quantiles)
+        # Numerous quantiles can be at the same level, while contour levels must be increasing
+        levels = np.unique(levels)
 
     alpha = kwargs.setdefault('alpha', 0.8)
     lw = kwargs.pop('linewidths', kwargs.pop('lw', LW))
-- 
2.43.0


From 0a180a36f6c49f6bdce8ae3566278122e2fad540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 38/72] fix: dist2d with a contour of one quantile only raised
 IndexError

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index b4a4784..ce1ca29 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1579,7 +1579,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             cmap=contour_cmap, zorder=20, ls=ls, outline=outline,
         )
         if handle is None:
-            hi = 1 if len(_handle.collections) > 0 else 0
+            hi = 1 if len(_handle.collections) > 1 else 0
             handle = _handle.collections[hi]
             # for some reason the above handle is not showing up on legends... create a dummy line
             # to get a better handle
-- 
2.43.0


From faebdc5ee87df1ad8fc951563e02e6c43b2dc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 39/72] fix: utils.quantiles accepted weights of another length
 than the values

---
 kalepy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 852ca81..c1bbc5a 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -526,6 +526,8 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if weights is None:
         weights = np.ones_like(values)
     weights = np.array(weights)
+    if (axis is None) and (weights.size != values.size):
+        raise ValueError("Shape of `weights` ({}) does not match `values` ({})!".format(weights.shape, values.shape))
     assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
 
     if not values_sorted:
-- 
2.43.0


From 458431fabb6d1f9cc515613f5f0cc643b1baa883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 40/72] fix: Sample_Grid accepted scalar_mass of a shape
 inconsistent with the grid

---
 kalepy/sample.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 7b16578..24d22fd 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -86,6 +86,10 @@ class Sample_Grid:
             scalar_dens = np.asarray(scalar_dens)
         if scalar_mass is not None:
             scalar_mass = np.asarray(scalar_mass, dtype=float)
+            if scalar_mass.shape != tuple(shape_bins):
+                err = "Shape of `scalar_mass` ({}) inconsistent with shape of edges ({})!".format(
+                    scalar_mass.shape, shape_edges)
+                raise ValueError(err)
 
         self._edges = edges
         self._dens = dens
-- 
2.43.0


From b0dfc6bd49c54ca38adebab3d3f7450f3b783e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 41/72] fix: KDE.from_hist accepted histograms transposed
 relative to their bins

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 311235a..5776490 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -466,6 +466,9 @@ class KDE:
 
             # Normalize into a pdf
             hist = np.asarray(hist)
+            shape = tuple(len(cc) for cc in centers)
+            if hist.shape != shape:
+                raise ValueError("Shape of `hist` ({}) does not match `bins` ({})!".format(hist.shape, shape))
             hist = hist / (hist.sum() * dx_mult)
 
             # Transform into points
-- 
2.43.0


From 82168a5132441b8dd811f80f5db08d69a181d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 42/72] fix: images of integer data were truncated to integers,
 for boundaries at non-integer values

---
 kalepy/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 0209f17..73a01ed 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -124,7 +124,7 @@ class Kernel(object):
                     continue
 
                 # shape (D,N) i.e. (dimensions, data-points)
-                refl_data = np.array(data)
+                refl_data = np.array(data, dtype=float)
                 refl_data[ii, :] = 2*loc - refl_data[ii, :]
                 result += _evaluate_numba(whitening, refl_data, points, weights, kfunc)
 
@@ -314,7 +314,7 @@ class Kernel(object):
                     continue
 
                 bounds[ii, jj] = loc
-                new_data = np.array(old_data)
+                new_data = np.array(old_data, dtype=float)
                 new_data[ii, :] = loc - (new_data[ii, :] - loc)
                 # NOTE: this returns a copy, so original `data` is *not* changed in-place
                 data = np.append(data, new_data, axis=-1)
-- 
2.43.0


From 5a5e438f59d20f39e17c655bb9c5d49550f9ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:32 +0000
Subject: [PATCH 43/72] fix: utils.parse_edges and histogram raised TypeError
 for weights given as a list

---
 kalepy/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index c1bbc5a..2635449 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1102,6 +1102,7 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
                 np.shape(weights), np.shape(data))
             raise ValueError(err)
 
+        weights = np.asarray(weights, dtype=float)
         num_eff = np.sum(weights)**2 / np.sum(weights**2)
 
     if (ndim is not None) and (num_eff > 100):
-- 
2.43.0


From 25dcd9e32b0ffaa3eb005f6c59f677429f09abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 44/72] fix: gradients of densities given as unsigned integers
 wrapped around, so grid samples followed another distribution

---
 kalepy/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 24d22fd..feffd04 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -49,7 +49,8 @@ class Sample_Grid:
             using the trapezoid rule.  See: `_init_data()`.
 
         """
-        dens = np.asarray(dens)
+        # convert to `float` because differences of unsigned integers cannot be negative
+        dens = np.asarray(dens, dtype=float)
         shape = dens.shape
         ndim = dens.ndim
         # for 1D data, allow `edges` to be a 1D array;  convert manually to list of array
@@ -83,7 +84,7 @@ class Sample_Grid:
         if mass is not None:
             mass = np.asarray(mass)
         if scalar_dens is not None:
-            scalar_dens = np.asarray(scalar_dens)
+            scalar_dens = np.asarray(scalar_dens, dtype=float)
         if scalar_mass is not None:
             scalar_mass = np.asarray(scalar_mass, dtype=float)
             if scalar_mass.shape != tuple(shape_bins):
-- 
2.43.0


From 8ce4acc7b80d2504f2eaa7eee7b809f8b0f8e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 45/72] fix: Corner updated the `limits` given by the caller in
 place, and failed for limits given as a tuple

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index ce1ca29..d874c5d 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -258,7 +258,8 @@ class Corner:
         self._kde = kde
         self._data = data
         self._weights = weights
-        self._limits = limits
+        # Copy, so that updating the limits does not change the given object
+        self._limits = list(limits)
         self._limit_flag = limit_flag
         self._rotate = rotate
         self._labels = labels
-- 
2.43.0


From bc52ffc5669df705085b3e58adaf618c5b551232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 46/72] fix: dist1d with a number of bins drew the density at a
 single point, the number itself

---
 kalepy/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d874c5d..ade4ba0 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1339,7 +1339,9 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
             _alpha = alpha
 
         # Calculate KDE density distribution for the given parameter
-        xx, yy = kde.density(probability=probability, params=param, points=edges)
+        # If only a number of bins is given, then use the default points
+        points = None if (np.ndim(edges) == 0) else edges
+        xx, yy = kde.density(probability=probability, params=param, points=points)
         # rescale by value of density
         yy = yy * density
         # Plot
-- 
2.43.0


From 4e5d03079f83c1e0201fc832c239241f97109357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 47/72] fix: carpet raised ValueError on axes with a negative
 upper limit

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index ade4ba0..7c8cc8f 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -997,7 +997,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     if ystd is None:
         if yave is None:
             get_lim_func = ax.get_xlim if rotate else ax.get_ylim
-            ystd = get_lim_func()[1] * 0.02
+            ystd = np.fabs(get_lim_func()[1]) * 0.02
         else:
             ystd = np.fabs(yave) / 5.0
 
-- 
2.43.0


From a6a387fe0012971f7eb4a64d4425ab7e2542b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 48/72] fix: Corner.legend ignored the given bounding box

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 7c8cc8f..b56d1a2 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -785,9 +785,10 @@ class Corner:
 
             bbox = self.axes[index].get_position()
             bbox = (bbox.x0, bbox.y0)
-            kwargs['bbox_to_anchor'] = bbox
             kwargs.setdefault('bbox_transform', fig.transFigure)
 
+        kwargs['bbox_to_anchor'] = bbox
+
         # Set other defaults
         leg = fig.legend(handles, labels, fancybox=fancybox,
                          borderaxespad=borderaxespad, loc=loc, **kwargs)
-- 
2.43.0


From 369a499a5788ec212f4203342ac394bb76927917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 49/72] fix: contours were not smoothed if upsampling was
 disabled with False

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index b56d1a2..9c13340 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1651,7 +1651,7 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
     # perform smoothing
     if (smooth not in [None, False]):
         import scipy as sp
-        if upsample is not None:
+        if upsample not in [None, False]:
             smooth *= upsample
         hist = sp.ndimage.gaussian_filter(hist, smooth)
 
-- 
2.43.0


From 48d98b557f6a34859904651241b5a4326f6de185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 50/72] fix: utils.subdivide returned an empty array for zero
 subdivisions

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 2635449..0f0c825 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -835,7 +835,8 @@ def subdivide(xx, num=1, log=False):
     dd = np.diff(np.concatenate([div, [0.0]]))[:, np.newaxis]
     dd = dd * np.linspace(0.0, 1.0, num+1, endpoint=False)[np.newaxis, :]
     div = div[:, np.newaxis] + dd
-    div = div.flatten()[:-num]
+    div = div.flatten()
+    div = div[:div.size - num]
     if log:
         div = 10.0 ** div
 
-- 
2.43.0


From 3d8ddeea57f40c9119af1a7ee381d40ea98392f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 51/72] fix: utils.stats_str truncated the percentiles of
 integers to whole numbers, even if printed with decimals

---
 kalepy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 0f0c825..77e7128 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -797,7 +797,10 @@ def stats_str(data, percs=[0.0, 0.16, 0.50, 0.84, 1.00], ave=False, std=False, w
 
     # Add percentiles
     if percs_flag:
-        tiles = quantiles(data, percs, weights=weights).astype(data.dtype)
+        tiles = quantiles(data, percs, weights=weights)
+        # only convert back to integers if they are printed as such
+        if format.endswith('d'):
+            tiles = tiles.astype(data.dtype)
         out += "(" + ", ".join(form.format(tt) for tt in tiles) + ")"
         out += ", for (" + ", ".join("{:.0f}%".format(100*pp) for pp in percs) + ")"
 
-- 
2.43.0


From 41939da8e61ae9886e654960f10b4e715ceb15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 52/72] fix: utils.array_str printed all values, instead of
 none, for num=0

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 77e7128..82bb1d0 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -42,7 +42,7 @@ def array_str(data, num=3, format=':.2e'):
     if (num is None) or (len(data) <= 2*num):
         rv = _astr(data)
     else:
-        rv = _astr(data[:num]) + " ... " + _astr(data[-num:])
+        rv = _astr(data[:num]) + " ... " + _astr(data[len(data)-num:])
 
     rv = '[' + rv + ']'
     return rv
-- 
2.43.0


From a7d3f7d6dc42145ed18a9adaf1ca860320a3be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 53/72] fix: Corner.legend replaced the given location with the
 default

---
 kalepy/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 9c13340..87b442a 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -770,19 +770,21 @@ class Corner:
                 size = self.size
                 if size in [2, 3, 4]:
                     index = (0, -1)
-                    loc = 'lower left'
+                    _loc = 'lower left'
                 elif size == 1:
                     index = (0, 0)
-                    loc = 'upper right'
+                    _loc = 'upper right'
                 elif size % 2 == 0:
                     index = size // 2
                     index = (1, index)
-                    loc = 'lower left'
+                    _loc = 'lower left'
                 else:
                     index = (size // 2) + 1
-                    loc = 'lower left'
+                    _loc = 'lower left'
                     index = (size-index-1, index)
 
+                loc = _loc if (loc is None) else loc
+
             bbox = self.axes[index].get_position()
             bbox = (bbox.x0, bbox.y0)
             kwargs.setdefault('bbox_transform', fig.transFigure)
-- 
2.43.0


From 7c688254903851c7e1936eabd72f1ba5ad16e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 54/72] fix: utils.midpoints overflowed for small integer types

---
 kalepy/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 82bb1d0..fa6e030 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -361,9 +361,9 @@ def midpoints(arr, log=False, axis=-1, squeeze=False):
 
     # Convert to log-space
     if log:
-        mids = np.log10(arr)
+        mids = np.log10(_to_float(arr))
     else:
-        mids = np.array(arr)
+        mids = np.array(_to_float(arr))
 
     # Take the midpoints along each of the desired axes
     for ax in axis:
@@ -1185,6 +1185,13 @@ def _guess_str_format_from_range(arr, prec=2, log_limit=2, allow_int=True):
     return form
 
 
+def _to_float(arr):
+    """Convert integers to floats: small integer types can overflow, and their logarithms have a low precision.
+    """
+    arr = np.asarray(arr)
+    return arr.astype(float) if np.issubdtype(arr.dtype, np.integer) else arr
+
+
 def _prep_msg(msg=None):
     if (msg is None) or (msg is True):
         msg_fail = "FAILURE:: arrays do not match!"
-- 
2.43.0


From 1cfaac60176c311de04f5f23832e985e87c8cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 55/72] fix: utils.parse_edges overflowed for small integer
 types

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index fa6e030..aa6c756 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1122,7 +1122,7 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
             logging.error(err)
         idx = np.isfinite(data)
         extrema = [data[idx].min(), data[idx].max()]
-    span_width = np.diff(extrema)[0]
+    span_width = np.diff(_to_float(extrema))[0]
 
     # Sturges histogram bin estimator.
     w1 = span_width / (np.log2(num_eff) + 1.0)
-- 
2.43.0


From e2c814d7aa9225dff5bdb4356f78a8dc3d87dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 56/72] fix: logarithms of small integer types had half
 precision in utils.spacing, subdivide, iqrange and stats_str

---
 kalepy/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index aa6c756..b347fac 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -483,7 +483,7 @@ def parse_edges(data, edges=None, extrema=None, weights=None, params=None,
 def iqrange(data, log=False, weights=None):
     """Calculate inter-quartile range of the given data."""
     if log:
-        data = np.log10(data)
+        data = np.log10(_to_float(data))
     iqr = np.subtract(*quantiles(data, percs=[0.75, 0.25], weights=weights))
     return iqr
 
@@ -698,7 +698,7 @@ def spacing(data, scale='log', num=None, dex=10, **kwargs):
         raise RuntimeError("``scale`` '%s' unrecognized!" % (scale))
 
     # Find extrema of values
-    span = minmax(data, **kwargs)
+    span = _to_float(minmax(data, **kwargs))
 
     if (num is None):
         if log_flag:
@@ -764,7 +764,7 @@ def stats_str(data, percs=[0.0, 0.16, 0.50, 0.84, 1.00], ave=False, std=False, w
     data = np.array(data)
 
     if log:
-        data = np.log10(data)
+        data = np.log10(_to_float(data))
 
     percs = np.atleast_1d(percs)
 
@@ -833,7 +833,7 @@ def subdivide(xx, num=1, log=False):
     """
     div = np.asarray(xx)
     if log:
-        div = np.log10(div)
+        div = np.log10(_to_float(div))
 
     dd = np.diff(np.concatenate([div, [0.0]]))[:, np.newaxis]
     dd = dd * np.linspace(0.0, 1.0, num+1, endpoint=False)[np.newaxis, :]
-- 
2.43.0


From b21f760b31e4db4f04e64c3090b44dc42de067d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 57/72] fix: utils.stats_str truncated percentiles of integers,
 instead of rounding them

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index b347fac..ebef4fc 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -800,7 +800,7 @@ def stats_str(data, percs=[0.0, 0.16, 0.50, 0.84, 1.00], ave=False, std=False, w
         tiles = quantiles(data, percs, weights=weights)
         # only convert back to integers if they are printed as such
         if format.endswith('d'):
-            tiles = tiles.astype(data.dtype)
+            tiles = np.rint(tiles).astype(data.dtype)
         out += "(" + ", ".join(form.format(tt) for tt in tiles) + ")"
         out += ", for (" + ", ".join("{:.0f}%".format(100*pp) for pp in percs) + ")"
 
-- 
2.43.0


From 31c9c85711f0594bc41053602c92399083701c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 58/72] fix: integrals in utils.trapz_nd and trapz_dens_to_mass
 overflowed for small integer types

---
 kalepy/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index ebef4fc..49ca2e3 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -862,9 +862,9 @@ def trapz_nd(data, edges, axis=None):
         axis = np.atleast_1d(axis)
 
     axis = sorted(axis)[::-1]
-    tot = np.array(data)
+    tot = np.array(_to_float(data))
     for ii in axis:
-        xx = edges[ii]
+        xx = _to_float(edges[ii])
         tot = np.trapz(tot, x=xx, axis=ii)
 
     return tot
@@ -898,7 +898,7 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
     import functools
 
     # ---- Sanitize / Process arguments
-    pdf = np.asarray(pdf)
+    pdf = _to_float(pdf)
 
     # Make sure `edges` is a list/array of list/arrays
     if np.isscalar(edges[0]):
@@ -934,7 +934,7 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
         dim_len_inn = shp_inn[ii]
         if ii in axis:
             shp_out[ii] = dim_len_inn - 1
-            wid = np.diff(edges[ii])
+            wid = np.diff(_to_float(edges[ii]))
         else:
             shp_out[ii] = dim_len_inn
             wid = np.ones(dim_len_inn)
-- 
2.43.0


From 4810451e1fd4fd29b53966214327ac5c7fcc4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 59/72] fix: utils.histogram overflowed for small integer types
 of weights or bins

---
 kalepy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 49ca2e3..0cd8e65 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -306,9 +306,12 @@ def histogram(data, bins=None, weights=None, density=False, probability=False):
     # numpy's automatic binning methods don't support weights, so choose bins based on the data alone
     if isinstance(bins, str) and (weights is not None):
         bins = np.histogram_bin_edges(data, bins=bins)
+    # sum of the weights can be larger than the (small) integer type of the weights
+    if (weights is not None) and np.issubdtype(np.asarray(weights).dtype, np.integer):
+        weights = np.asarray(weights, dtype=int)
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
-        hist = hist.astype(float) / np.diff(edges)
+        hist = hist.astype(float) / np.diff(_to_float(edges))
     if probability:
         tot = data.size if (weights is None) else np.sum(weights)
         hist = hist.astype(float) / tot
-- 
2.43.0


From 497a54831eb9690057bb172a548a7857f601aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 60/72] fix: bin widths in utils.centroids and grid sampling
 overflowed for small integer types of edges

---
 kalepy/sample.py | 2 +-
 kalepy/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index feffd04..1db8a71 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -56,7 +56,7 @@ class Sample_Grid:
         # for 1D data, allow `edges` to be a 1D array;  convert manually to list of array
         if ndim == 1 and utils.really1d(edges):
             edges = [edges]
-        edges = [np.asarray(ee) for ee in edges]
+        edges = [np.asarray(ee, dtype=float) for ee in edges]
         if len(edges) != ndim:
             err = "`edges` (len(edges)={}) must be a 1D array for each dimension of `dens` (dens.shape={})!".format(
                 len(edges), dens.shape)
diff --git a/kalepy/utils.py b/kalepy/utils.py
index 0cd8e65..6b4decb 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -148,7 +148,7 @@ def centroids(edges, data):
         y1, y2 = np.sum(zz, axis=tuple(jj))
 
         # bin width in this dimension, for each bin
-        dx = np.diff(edges[ii])
+        dx = np.diff(_to_float(edges[ii]))
         # make `dx` broadcastable to the same shape as bins (i.e. `shp_bins`)
         cut = [np.newaxis for dd in range(ndim-1)]
         cut.insert(ii, slice(None))
-- 
2.43.0


From 5741caebafd052401860924575f465cc0a7c28c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 61/72] fix: padding of contours overflowed for small integer
 types of edges

---
 kalepy/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 87b442a..30c7776 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2146,6 +2146,7 @@ def _pad_hist(edges, hist, pad):
     hh = np.pad(hist, pad, mode='constant', constant_values=hist.min())
     tf = np.arange(1, pad+1)  # [+1, +2]
     tr = - tf[::-1]    # [-2, -1]
+    edges = [utils._to_float(ee) for ee in edges]
     edges = [
         [ee[0] + tr * np.diff(ee[:2]), ee, ee[-1] + tf * np.diff(ee[-2:])]
         for ee in edges
-- 
2.43.0


From aff7c4f0f9d9ae64b42764ebdb890c8f82e10c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 62/72] fix: utils.add_cov and rem_cov used single precision
 for small integer types

---
 kalepy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 6b4decb..544ea1a 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -15,7 +15,7 @@ import scipy.linalg  # noqa
 
 def add_cov(data, cov):
     try:
-        color_mat = sp.linalg.cholesky(cov)
+        color_mat = sp.linalg.cholesky(_to_float(cov))
     except Exception:
         logging.error("Cholesky decomposition failed!")
         logging.error("cov matrix: {}".format(cov))
@@ -664,7 +664,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 def rem_cov(data, cov=None):
     if cov is None:
         cov = np.atleast_2d(np.cov(data))
-    color_mat = sp.linalg.cholesky(cov)
+    color_mat = sp.linalg.cholesky(_to_float(cov))
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
     return white_data
-- 
2.43.0


From e875b41c1c1b21329c8a3c2cba2a02a7ca2e3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 63/72] fix: sizes of carpet points were NaN if (more than half
 of) the weights of the drawn points are zero

---
 kalepy/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 30c7776..3dc5c6e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1015,7 +1015,9 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
         if utils.iqrange(weights, log=True) > 1:
             # relative to the smallest weight, so that sizes always increase with weight
             weights = 1.0 + np.log10(weights / np.min(weights[weights > 0.0]))
-        ww = weights / np.median(weights)
+        # (more than half of the weights, at least of the chosen points, could be zero)
+        pos = weights[weights > 0.0]
+        ww = weights / np.median(pos) if (pos.size > 0) else np.zeros(weights.size)
 
     # General random y-values for the fuzz
     if random.lower() == 'normal':
-- 
2.43.0


From 3d5b3805f72b8cbd8eba4dbbb4f38f4ff4ea412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 64/72] fix: utils.flatten raised for scalars besides sequences

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 544ea1a..daca1f3 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -592,7 +592,7 @@ def flatten(arr):
         return arr
 
     # Flatten each component and combine recursively
-    return np.concatenate([flatten(aa) for aa in arr])
+    return np.concatenate([np.atleast_1d(flatten(aa)) for aa in arr])
 
 
 def flatlen(arr):
-- 
2.43.0


From 86a74bbca5f5add8b84ca4be8c12f25807abd6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 65/72] fix: utils.isjagged did not recognize jagged sequences
 with as many values as elements

---
 kalepy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index daca1f3..d7e8fbc 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -610,9 +610,9 @@ def isjagged(arr):
     """
     # if np.isscalar(arr) or (np.size(arr) == len(flatten(arr))):
     # NOTE: jagged lists can only be converted to arrays of `object`
-    if np.isscalar(arr) or (_object_array(arr).size == flatlen(arr)):
+    if not np.iterable(arr):
         return False
-    return True
+    return any(np.iterable(aa) and not np.isscalar(aa) for aa in _object_array(arr).flat)
 
 
 def isinteger(val, iterable=True):
-- 
2.43.0


From 757cea6b0a3cd1258186029ac0b5aeea98795d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 66/72] fix: parse_edges raised for a single pair of limits
 with selected params

---
 kalepy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index d7e8fbc..f0b3741 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1275,8 +1275,9 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
     if extrema is None:
         extrema = data_extrema
     else:
-        # Select extrema for the target parameters
-        if (params is not None) and (len(extrema) != npars):
+        # Select extrema for the target parameters (a single pair applies to all of them)
+        single = really1d(extrema) and (np.shape(extrema) == (2,))
+        if (params is not None) and (len(extrema) != npars) and (not single):
             extrema = [extrema[pp] for pp in params]
 
         # Check components of given `extrema` to make sure they are valid
-- 
2.43.0


From bf554a19da1887d6fc0bb3bf1a87ca40d91adb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 67/72] fix: a given colormap is used even if a color is also
 given (e.g. in all panels of corner plots)

---
 kalepy/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 3dc5c6e..429c7af 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2188,16 +2188,18 @@ def _parse_color_cmap(ax=None, color=None, cmap=None):
         if ax is None:
             ax = plt.gca()
         color = _get_next_color(ax)
+
+    # Only construct a colormap (based on the color) if none is given
+    if cmap is None:
         cmap = _color_to_cmap(color)
-    elif (color is None):
+    else:
         try:
             cmap = plt.get_cmap(cmap)
         except ValueError:
             cmap = mpl.colors.ListedColormap(cmap)
 
-        color = cmap(0.5)
-    else:
-        cmap = _color_to_cmap(color)
+        if color is None:
+            color = cmap(0.5)
 
     return color, cmap
 
-- 
2.43.0


From edcad17630434c9d1789b88144db3323b5f9a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 68/72] fix: evaluate densities of data with types not
 supported by numba (e.g. non-native byte order)

---
 kalepy/kernels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 73a01ed..afb05aa 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -92,6 +92,9 @@ class Kernel(object):
                 np.shape(weights), num_data)
             raise ValueError(err)
 
+        # `numba` does not support all types (e.g. non-native byte orders, as in FITS files)
+        points, data, weights = [np.asarray(xx, dtype=float) for xx in (points, data, weights)]
+
         # -----------------    Calculate Density
 
         norm *= self.distribution.norm(npar_pnts)
-- 
2.43.0


From ade4f3c0f26ee0fa61bc8b1560016759b62bf849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 69/72] fix: draw more samples at once, if few of them are
 within the reflecting boundaries

---
 kalepy/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index afb05aa..175208d 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -268,9 +268,9 @@ class Kernel(object):
             # Increment counters
             num_good += ngd
             cnt += 1
-            # Next time, draw twice as many as we need
-            draw = np.minimum(size - num_good, chunk_size)
-            draw = (2**ndim) * draw
+            # Next time, draw more than we need; increasingly more, if only few of them are accepted
+            need = np.minimum(size - num_good, chunk_size)
+            draw = np.maximum((2**ndim) * need, 2 * draw)
             draw = np.minimum(draw, int(self._chunk))
 
         if num_good < size:
-- 
2.43.0


From d0c8c29551508ba9dbf7561c2eef3d59134c72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:08 +0000
Subject: [PATCH 70/72] fix: adjust the layout of the figure given to Corner,
 instead of that of the current figure

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 429c7af..5b0f0ed 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2014,7 +2014,7 @@ def _figax(size, fig=None, grid=True, left=None, bottom=None, right=None, top=No
 
     axes = fig.subplots(squeeze=False, ncols=size, nrows=size, **kwargs)
 
-    plt.subplots_adjust(
+    fig.subplots_adjust(
         left=left, bottom=bottom, right=right, top=top, hspace=hspace, wspace=wspace
     )
     if grid is True:
-- 
2.43.0


From 2d19f343fd208fdd43c9b19f3cac656985d827cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 71/72] fix: include the last points of upsampled
 distributions, instead of setting them to zero by rounding errors

---
 kalepy/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 5b0f0ed..3330ebe 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1648,9 +1648,10 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
         import scipy as sp
         if upsample is True:
             upsample = 2
-        xx = sp.ndimage.zoom(xx, upsample)
-        yy = sp.ndimage.zoom(yy, upsample)
-        hist = sp.ndimage.zoom(hist, upsample)
+        # With the default `mode`, the last points can be outside of the grid (by rounding errors), and set to zero
+        xx = sp.ndimage.zoom(xx, upsample, mode='mirror')
+        yy = sp.ndimage.zoom(yy, upsample, mode='mirror')
+        hist = sp.ndimage.zoom(hist, upsample, mode='mirror')
 
     # perform smoothing
     if (smooth not in [None, False]):
-- 
2.43.0


From 353185382d6b013668d2a41e47bb9c15d683036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:03 +0000
Subject: [PATCH 72/72] fix: interpolate scalars at the positions of the
 samples within their bins

---
 kalepy/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 1db8a71..cc738d3 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -206,8 +206,10 @@ class Sample_Grid:
                 grad = _grad_along(scalar_dens, dim)
                 grad = grad * np.divide(scalar_mass, mean, out=np.zeros(np.shape(mean)), where=(mean != 0.0))
                 grad = grad.flat[bin_numbers_flat]
-                # shift `loc` (location within bin) to center point
-                scalar_values += grad * (loc - 0.5)
+                # location of each sample within its bin (not the same as `loc`, if the density has a gradient)
+                pos = (vals[dim, :] - np.asarray(edge)[bidx]) / wid[bidx]
+                # shift to center point
+                scalar_values += grad * (pos - 0.5)
 
         if return_scalar:
             return vals, scalar_values
-- 
2.43.0

