From 08cb79abe1387537083f91ab2d239d2a7f1ffff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 01/29] fix: density is zero outside of every reflecting
 boundary, not only the last

---
 kalepy/kernels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 695bf76..2e891d8 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -114,6 +114,8 @@ class Kernel(object):
                 np.shape(reflect), np.shape(data))
             raise ValueError(err)
 
+        # Points outside of the boundaries, in *any* dimension
+        outside = np.zeros(num_points, dtype=bool)
         for ii, reflect_dim in enumerate(reflect):
             if reflect_dim is None:
                 continue
@@ -129,9 +131,9 @@ class Kernel(object):
 
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
-            idx = (points[ii, :] < lo) | (hi < points[ii, :])
-            result[idx] = 0.0
+            outside |= (points[ii, :] < lo) | (hi < points[ii, :])
 
+        result[outside] = 0.0
         result = result / norm
         return result
 
-- 
2.43.0


From c64e5041452ce5e8b221dfee265a8516182ca437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 02/29] fix: typo hiding the error message for mismatched
 weights in Kernel.density

---
 kalepy/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 2e891d8..e752419 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -89,7 +89,7 @@ class Kernel(object):
             weights = np.ones(num_data)
         elif (np.shape(weights) != (num_data,)):
             err = "Shape of `weights` ({}) does not match number of data points ({})!".format(
-                np.shpae(weights), num_data)
+                np.shape(weights), num_data)
             raise ValueError(err)
 
         # -----------------    Calculate Density
-- 
2.43.0


From 5fc38d9bb55e83916f012eeb496328084731e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 03/29] fix: automatic reflection boundaries enclose data of
 any sign

---
 kalepy/kernels.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index e752419..c47d0a4 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -733,12 +733,16 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-            reflect[ii] = [np.min(data[ii])*(1 - _NUM_PAD), np.max(data[ii])*(1 + _NUM_PAD)]
-        elif (reflect[ii] is not None) and (True in reflect[ii]):
+            reflect[ii] = [True, True]
+
+        if (reflect[ii] is not None) and (True in reflect[ii]):
+            extr = np.array([np.min(data[ii]), np.max(data[ii])])
+            # pad outwards, regardless of the sign of the extrema
+            lo, hi = extr + [-_NUM_PAD, _NUM_PAD] * np.fabs(extr)
             if reflect[ii][0] is True:
-                reflect[ii][0] = np.min(data[ii])*(1 - _NUM_PAD)
+                reflect[ii][0] = lo
             if reflect[ii][1] is True:
-                reflect[ii][1] = np.max(data[ii])*(1 + _NUM_PAD)
+                reflect[ii][1] = hi
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From aae6efe0ee1b7ce9fd2e9064a1a869db785290ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 04/29] fix: do not modify the given `reflect`, accept tuples
 and `True` for one side

---
 kalepy/kde.py     | 2 +-
 kalepy/kernels.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 690c87a..e33a40f 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -353,7 +353,7 @@ class KDE:
         if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
-                reflect = np.atleast_2d(reflect)
+                reflect = [reflect]
             else:
                 err = (
                     "length of `reflect` ({}) ".format(reflect),
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index c47d0a4..3a6d4e7 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -712,8 +712,8 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     if reflect is True:
         reflect = [True for ii in range(ndim)]
 
-    if (len(reflect) == 2) and (ndim == 1):
-        reflect = np.atleast_2d(reflect)
+    if (len(reflect) == 2) and (ndim == 1) and utils.really1d(reflect):
+        reflect = [reflect]
 
     if (len(reflect) != ndim):  # and not ((len(reflect) == 2) and (ndim == 1)):
         err = "`reflect` ({},) must match the data with shape ({}) parameters!".format(
@@ -730,6 +730,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         err = "each row of `reflect` must be `None` or have shape (2,)!  '{}'".format(reflect)
         raise ValueError(err)
 
+    # Copy, so that the caller's `reflect` is not modified
+    reflect = [ref if (ref is None) or (ref is True) else list(ref) for ref in reflect]
+
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-- 
2.43.0


From 81c852b9c91b0c363c44fff7eb133f0446443a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 05/29] fix: unspecified extrema are filled per dimension, for
 tuples and all-None rows too

---
 kalepy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc07528..abfac34 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1236,13 +1236,13 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
     else:
         # Convert from (2,) ==> (D, 2)
         if really1d(extrema) and (np.shape(extrema) == (2,)):
-            extrema = [extrema for ii in range(npars)]
+            extrema = [extrema] * npars
         # If already (D, 2) we're good, keep going
         elif np.shape(np.array(extrema, dtype=object)) == (npars, 2):
             pass
         # If jagged (D,) array
         elif len(extrema) == npars:
-            if really1d(extrema) or not np.all([(ee is None) or (len(ee) == 2) for ee in extrema]):
+            if not np.all([(ee is None) or (np.shape(ee) == (2,)) for ee in extrema]):
                 err = "Each element of jagged `extrema` must be `None` or have length 2!"
                 raise ValueError(err)
         # Otherwise bad
@@ -1251,6 +1251,9 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
                 jshape(extrema), npars)
             raise ValueError(err)
 
+        # Use a separate list for each dimension, the elements may be modified below
+        extrema = [ee if ee is None else list(ee) for ee in extrema]
+
         # Fill in `None` values and check if given `extrema` is out of bounds for data
         for dd in range(npars):
             if extrema[dd] is None:
-- 
2.43.0


From cc9588c3980af52e4bd56cabc8eb695db43e1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 06/29] fix: resampling with `keep` in one dimension and
 `reflect` in another

---
 kalepy/kernels.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 3a6d4e7..1ff3673 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -215,8 +215,8 @@ class Kernel(object):
         """Resample the given data using reflection.
         """
         matrix = self.matrix
-        # Modify covariance-matrix for any `keep` dimensions
-        matrix = utils.cov_keep_vars(matrix, keep, reflect=reflect)
+        # Make sure that `keep` dimensions are not also reflected
+        utils.cov_keep_vars(matrix, keep, reflect=reflect)
 
         ndim, nvals = np.shape(data)
 
@@ -247,8 +247,7 @@ class Kernel(object):
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-            #    set `keep` to None, `matrix` is already modified to account for it
-            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=keep)
             # Find the (boolean) indices of values within target boundaries
             idx = utils.bound_indices(trial, bounds)
 
-- 
2.43.0


From 777504e09d846d35460b4a796d7399db9f5f7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 07/29] fix: resampling with `reflect` keeps the mirrored data
 that reaches within the boundaries

---
 kalepy/kernels.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 1ff3673..e5e2097 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -242,8 +242,9 @@ class Kernel(object):
         samps = np.zeros((size, ndim))
         num_good = 0
         cnt = 0
-        MAX = 10
-        draw = chunk_size
+        MAX = 100
+        # some of the draws fall outside of the boundaries, so draw more than are needed
+        draw = int(np.minimum((2**ndim) * chunk_size, self._chunk))
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
@@ -328,8 +329,7 @@ class Kernel(object):
 
     def _truncate_reflections(self, data, bounds, weights=None):
         # Determine the bounds outside of which we should truncate
-        # trunc = self._get_truncation_bounds(bounds)
-        trunc = bounds
+        trunc = self._get_truncation_bounds(bounds)
         # Find the data-points outside of those bounds
         idx = utils.bound_indices(data, trunc)
         # Select only points within truncation bounds
@@ -341,18 +341,17 @@ class Kernel(object):
         return data, weights
 
     def _get_truncation_bounds(self, bounds):
-        trunc = np.zeros_like(bounds)
-
-        bw = self.bandwidth.diagonal()
+        # Width of the kernel in each dimension
+        bw = np.sqrt(self.matrix.diagonal())
         # If this kernel has finite-support, we only need to go out to 'bandwidth' on each side
         if self.FINITE:
             bw = bw * (1 + _NUM_PAD)
-            qnts = np.array([-bw, bw]).T
         # If kernel has infinite-support, go to the quantile reaching the desired precision
         else:
             tol = _TRUNCATE_INFINITE_KERNELS
-            qnts = self.distribution.ppf([tol, 1-tol])
-            qnts = qnts[np.newaxis, :] * bw[:, np.newaxis]
+            bw = bw * sp.stats.norm.ppf(1 - tol)
+
+        qnts = np.array([-bw, bw]).T
 
         # Expand the reflection bounds based on the bandwidth interval
         trunc = bounds + qnts
-- 
2.43.0


From 1cf9d0bcdd9b6e1303dd8bc729a1648f3702b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 08/29] fix: multidimensional draws from the finite kernels
 follow the kernel

---
 kalepy/kernels.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index e5e2097..57767b5 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -543,7 +543,8 @@ class Box(_Distribution):
         else:
             samps = np.random.normal(0.0, 1.0, (ndim, size))
             rads = np.sum(samps**2, axis=0) ** 0.5
-            norm = np.random.random((ndim, size)) ** (1.0 / ndim)
+            # a single radius for each sample (i.e. the same for all dimensions)
+            norm = np.random.random(size) ** (1.0 / ndim)
             samps = norm * samps / rads[np.newaxis, :]
         return samps
 
@@ -576,7 +577,10 @@ class Parabola(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
-        # Use the median trick to draw from the Epanechnikov distribution
+        if ndim > 1:
+            return _sample_beta_kernel(1, size, ndim)
+
+        # Use the median trick to draw from the (1D) Epanechnikov distribution
         samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
         samp = np.median(samp, axis=-1)
         return samp
@@ -607,6 +611,10 @@ class Triweight(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
+        if ndim > 1:
+            return _sample_beta_kernel(3, size, ndim)
+
+        # The tabulated CDF is that of the 1D kernel
         samps = np.random.normal(0.0, 1.0, (ndim, size))
         rads = np.linalg.norm(samps, axis=0)
         norm = _triweight_inverse_func(np.random.random((ndim, size)))
@@ -693,6 +701,17 @@ def _beta_kernel_norm(order, ndim):
     return norm
 
 
+def _sample_beta_kernel(order, size, ndim):
+    """Sample from the spherically symmetric kernel `(1 - r^2)^order`, within the unit ndim-ball.
+    """
+    samps = np.random.normal(0.0, 1.0, (ndim, size))
+    rads = np.linalg.norm(samps, axis=0)
+    # the squared-radius is beta distributed
+    norm = np.sqrt(np.random.beta(ndim / 2.0, order + 1.0, size))
+    samps = norm * samps / rads[np.newaxis, :]
+    return samps
+
+
 def _check_reflect(reflect, data, weights=None, helper=False):
     """Make sure the given `reflect` argument is valid given the data shape
     """
-- 
2.43.0


From b8f3978fb2845bff47f3031b0cbafb1b29d25176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 09/29] fix: squeeze only the dimension of the data, not single
 points/samples or scalars

---
 kalepy/kde.py     | 1 -
 kalepy/kernels.py | 4 ++--
 kalepy/sample.py  | 7 +++++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index e33a40f..7dd9fe0 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -394,7 +394,6 @@ class KDE:
 
         if squeeze:
             points = points[0]
-            values = values.squeeze()
 
         return points, values
 
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 57767b5..c72af7c 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -166,7 +166,7 @@ class Kernel(object):
             samples = self._resample_reflect(data, size, reflect, weights=weights, keep=keep)
 
         if (ndim == 1) and squeeze:
-            samples = samples.squeeze()
+            samples = samples[0]
 
         return samples
 
@@ -429,7 +429,7 @@ class _Distribution(abc.ABC):
 
         samps = cls._sample(size, ndim)
         if squeeze:
-            samps = samps.squeeze()
+            samps = samps[0] if (ndim == 1) else samps.squeeze()
 
         return samps
 
diff --git a/kalepy/sample.py b/kalepy/sample.py
index a9366c9..c8b4830 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -434,7 +434,10 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
     sampler = Sample_Grid(edges, dens, mass=mass, scalar_dens=scalar_dens, scalar_mass=scalar_mass)
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
     if squeeze:
-        samples = samples.squeeze()
+        # if scalar values are also sampled, then `samples` is `(vals, scalars)`
+        vals, *scalars = samples if isinstance(samples, tuple) else (samples,)
+        vals = vals[0] if (len(vals) == 1) else vals.squeeze()
+        samples = (vals, *scalars) if scalars else vals
     return samples
 
 
@@ -482,7 +485,7 @@ def sample_outliers(edges, data, threshold, nsamp=None, mass=None, **sample_kwar
         raise ValueError("`nsamp` is currently deprecated!")
     nsamp, vals, weights = outliers.sample(**sample_kwargs)
     if squeeze:
-        vals = vals.squeeze()
+        vals = vals[0]
     return vals, weights
 
 
-- 
2.43.0


From 21d7e0659ea503e2fa34583dac73023a8f7385bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 10/29] fix: do not extrapolate the CDF outside of its grid

---
 kalepy/kde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 7dd9fe0..93ce508 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -524,7 +524,9 @@ class KDE:
 
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
-        cdf = self._cdf_func(pnts)
+        # Outside of the grid the CDF is constant, do not extrapolate
+        lo, hi = np.transpose([[gg[0], gg[-1]] for gg in self._cdf_grid[0]])
+        cdf = self._cdf_func(np.clip(pnts, lo, hi))
         return cdf
 
     def resample(self, size=None, keep=None, reflect=None, squeeze=True):
-- 
2.43.0


From 145257575f985b9a9ebb6bba324da2019a05f791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 11/29] fix: normalize the density in each bin for interpolated
 grid sampling

---
 kalepy/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index c8b4830..6d673dd 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -132,9 +132,9 @@ class Sample_Grid:
 
         # ensure PDF `dens` is properly normalized for interpolation
         #     this normalization is based on each bin having a domain of [0.0, 1.0] during intrabin linear
-        #     interpolation sampling (`_intrabin_linear_interp()`)
+        #     interpolation sampling (`_intrabin_linear_interp()`), so use the average in each bin
         if interpolate:
-            dens = dens / (dens.sum() / dens.size)
+            dens_ave = utils.midpoints(dens, log=False, axis=None)
 
         # If no number of samples are given, assume that the units of `self._mass` are number of samples, and choose
         # the total numbe of samples to be the total of this
@@ -185,6 +185,8 @@ class Sample_Grid:
                 _grad = _grad_along(dens, dim)
                 # get the gradient for each sample
                 grad = _grad.flat[bin_numbers_flat]
+                ave = dens_ave.flat[bin_numbers_flat]
+                grad = np.divide(grad, ave, out=np.zeros(nsamp), where=(ave > 0.0))
                 # interpolate edge values in this dimension
                 vals[dim, :] = _intrabin_linear_interp(edge, wid, loc, bidx, grad)
 
-- 
2.43.0


From 68b8b60e1c41c2b44ab47463a00b0e8ce2058517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 12/29] fix: avoid catastrophic cancellation when sampling
 nearly flat bins

---
 kalepy/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 6d673dd..6514c74 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -532,7 +532,7 @@ def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     vals = np.zeros_like(grad)
 
     # sel = np.fabs(grad) > 1.0e-12
-    sel = np.fabs(grad) > 1.0e-16
+    sel = np.fabs(grad) > 1.0e-8
     # When the gradient is roughly flat, values maintain uniform random distribution
     vals[~sel] = loc[~sel]
 
-- 
2.43.0


From ceca45e660be6ca55b9f5ba70611133017e45cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 13/29] fix: scalars at grid edges are averaged, not
 integrated, over each bin

---
 kalepy/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 6514c74..f1f1131 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -100,7 +100,7 @@ class Sample_Grid:
         if self._mass is None:
             self._mass = utils.trapz_dens_to_mass(self._dens, self._edges, axis=None)
         if (self._scalar_mass is None) and (self._scalar_dens is not None):
-            self._scalar_mass = utils.trapz_dens_to_mass(self._scalar_dens, self._edges, axis=None)
+            self._scalar_mass = utils.midpoints(self._scalar_dens, log=False, axis=None)
 
         idx, csum = _data_to_cumulative(self._mass)
         self._idx = idx
@@ -316,7 +316,7 @@ class Sample_Outliers(Sample_Grid):
         if self._mass is None:
             self._mass = utils.trapz_dens_to_mass(self._dens, self._edges, axis=None)
         if (self._scalar_mass is None) and (self._scalar_dens is not None):
-            self._scalar_mass = utils.trapz_dens_to_mass(self._scalar_dens, self._edges, axis=None)
+            self._scalar_mass = utils.midpoints(self._scalar_dens, log=False, axis=None)
         return
 
     def sample(
-- 
2.43.0


From 08025904350463ce8a0eb8ea01fe9be44b4d798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 14/29] fix: accept weights given as a list

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 93ce508..423a4d6 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -201,10 +201,10 @@ class KDE:
                 err = "`weights` input (shape={}) should be shaped as (N,)=({},)!".format(np.shape(weights), ndata)
                 raise ValueError(err)
 
+            weights = np.asarray(weights).astype(float)
             if np.count_nonzero(weights) == 0 or np.any(~np.isfinite(weights) | (weights < 0)):
                 raise ValueError("Invalid `weights` entries, all must be finite and > 0!")
 
-            weights = np.asarray(weights).astype(float)
             weights_uniform = False
 
         if neff is None:
-- 
2.43.0


From b271a7a99209cc0b892f92f612fd033203e48f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 15/29] fix: accept a bandwidth of shape (1,), or given as
 nested lists

---
 kalepy/kde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 423a4d6..8295ea3 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -694,8 +694,8 @@ class KDE:
         ndim = self.ndim
         bandwidth = np.zeros((ndim, ndim))
 
-        if len(np.atleast_1d(bw_input)) == 1:
-            _bw, method = self._compute_bandwidth(bw_input)
+        if np.size(bw_input) == 1:
+            _bw, method = self._compute_bandwidth(np.ravel(bw_input)[0])
             if not self._diagonal:
                 bandwidth[...] = _bw
             else:
@@ -711,7 +711,7 @@ class KDE:
             elif np.shape(bw_input) == (ndim, ndim):
                 for ii, jj in np.ndindex(ndim, ndim):
                     bandwidth[ii, jj], *_ = self._compute_bandwidth(
-                        bw_input[ii, jj], param=(ii, jj))
+                        bw_input[ii][jj], param=(ii, jj))
                 method = 'matrix'
             else:
                 err = "`bandwidth` must have shape (1,), (N,) or (N,N,) for `N` dimensions!"
-- 
2.43.0


From adfb5fe9a9bd0dc76695c902165fce381d42f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 16/29] fix: quantiles along an axis other than the last

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index abfac34..65fda8b 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -520,7 +520,7 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
         weights = np.take_along_axis(weights, sorter, axis=axis)
 
     weighted_quantiles = np.cumsum(weights, axis=axis) - 0.5 * weights
-    weighted_quantiles /= np.sum(weights, axis=axis)[..., np.newaxis]
+    weighted_quantiles /= np.sum(weights, axis=axis, keepdims=True)
     if axis is None:
         percs = np.interp(percs, weighted_quantiles, values)
     else:
-- 
2.43.0


From 1d8a4cc537b7935e9f0eca05b2ba3e309e939857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 17/29] fix: bound_indices outside selection in multiple
 dimensions and with missing bounds

---
 kalepy/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 65fda8b..98da0f7 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -70,18 +70,20 @@ def bound_indices(data, bounds, outside=False):
     If `outside` is True, then indices for values *outside* of the bounds are returned.
     """
     data = np.atleast_2d(data)
-    bounds = np.atleast_2d(bounds)
+    # Convert from bounds in a single dimension, without requiring the same shape in all dimensions
+    if (bounds is None) or really1d(bounds):
+        bounds = [bounds]
     ndim, nvals = np.shape(data)
-    idx = np.ones(nvals, dtype=bool)
+    # a point is outside if it is beyond the bounds in *any* dimension, and inside if it is within in all
+    idx = np.zeros(nvals, dtype=bool) if outside else np.ones(nvals, dtype=bool)
     for ii, bnd in enumerate(bounds):
         if bnd is None or ((len(bnd) == 1) and (bnd[0] is None)):
-            idx = idx & ~outside
             continue
 
         if outside:
             lo = (data[ii, :] < bnd[0]) if (bnd[0] is not None) else False
             hi = (bnd[1] < data[ii, :]) if (bnd[1] is not None) else False
-            idx = idx & (lo | hi)
+            idx = idx | (lo | hi)
         else:
             lo = True if (bnd[0] is None) else (bnd[0] < data[ii, :])
             hi = True if (bnd[1] is None) else (data[ii, :] < bnd[1])
-- 
2.43.0


From bec79aec4612431dd90ed2744be34e8b2465ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 18/29] fix: default covariance of rem_cov for any number of
 dimensions

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 98da0f7..da0b396 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -644,7 +644,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 
 def rem_cov(data, cov=None):
     if cov is None:
-        cov = np.cov(*data)
+        cov = np.cov(data)
     color_mat = sp.linalg.cholesky(cov)
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
-- 
2.43.0


From 9ebaf910dcf4b9cabbb9d7f1f843ec3c4370e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 19/29] fix: minmax of integer data is not truncated, and of
 data without positive values is `prev`

---
 kalepy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index da0b396..c465c52 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -379,13 +379,16 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
     if limit is not None:
         assert len(limit) == 2, "`limit` must have length 2."
 
+    data = np.asarray(data)
+    if positive:
+        data = data[data > 0.0]
+
     # If there are no elements (left), return `prev` (`None` if not provided)
     if np.size(data) == 0:
         return prev
 
     # Find extrema
-    idx = (data > 0.0) if positive else slice(None)
-    minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    minmax = np.array([np.min(data), np.max(data)], dtype=float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From be6d190e2f9cd2181e8818a2e90e3c8ce5d7bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 20/29] fix: from_hist with non-uniform bins, few bins, lists,
 and bandwidth arrays

---
 kalepy/kde.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 8295ea3..ddeaf32 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -422,17 +422,19 @@ class KDE:
 
         """
 
+        hist = np.asarray(hist)
+
         # For one dimension
         if utils.really1d(bins):
 
             # Convert bins into points
-            dx = bins[2] - bins[1]
-            points = bins[:-1] + 0.5 * dx
+            points = utils.midpoints(bins)
+            dx = np.diff(bins).mean()
 
             # Normalize into a pdf
             hist = hist / (hist.sum() * dx)
 
-            if bandwidth == 'bin width':
+            if np.ndim(bandwidth) == 0 and bandwidth == 'bin width':
                 bandwidth = dx
 
             return KDE(
@@ -453,8 +455,8 @@ class KDE:
 
             for bins_i in bins:
                 # Convert bins into points
-                dx = bins_i[2] - bins_i[1]
-                centers_i = bins_i[:-1] + 0.5 * dx
+                centers_i = utils.midpoints(bins_i)
+                dx = np.diff(bins_i).mean()
                 centers.append(centers_i)
 
                 dx_mult *= dx
@@ -467,7 +469,7 @@ class KDE:
             points = np.meshgrid(*centers, indexing='ij')
             points = [_.flatten() for _ in points]
 
-            if bandwidth == 'bin width':
+            if np.ndim(bandwidth) == 0 and bandwidth == 'bin width':
                 bandwidth = dxs
 
             return KDE(
-- 
2.43.0


From a25936c50bf88e941869d1b7b22527e970d3713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 21/29] fix: subdividing zero times returns the original array

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index c465c52..a6392d6 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -822,7 +822,7 @@ def subdivide(xx, num=1, log=False):
     dd = np.diff(np.concatenate([div, [0.0]]))[:, np.newaxis]
     dd = dd * np.linspace(0.0, 1.0, num+1, endpoint=False)[np.newaxis, :]
     div = div[:, np.newaxis] + dd
-    div = div.flatten()[:-num]
+    div = div.flatten()[:div.size - num]
     if log:
         div = 10.0 ** div
 
-- 
2.43.0


From 89e3ca34a827801cb5cd772730f7263ac6501fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 22/29] fix: accept masses and scalars of any array_like form
 and type

---
 kalepy/sample.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index f1f1131..e829063 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -81,6 +81,11 @@ class Sample_Grid:
             err = "Shape of `mass` ({}) inconsistent with shape of edges ({})!".format(np.shape(mass), shape_edges)
             raise ValueError(err)
 
+        # allow for general array_like inputs
+        mass, scalar_dens, scalar_mass = [
+            None if vv is None else np.asarray(vv, dtype=float) for vv in (mass, scalar_dens, scalar_mass)
+        ]
+
         self._edges = edges
         self._dens = dens
         self._mass = mass
-- 
2.43.0


From 566ceacf9d73f7ebe752e09aedf5145731ade4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 23/29] fix: sample_grid_proportional uses the given mass

---
 kalepy/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index e829063..2b7fb66 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -452,7 +452,7 @@ def sample_grid_proportional(edges, dens, portion, nsamp, mass=None, **sample_kw
     scalar_dens = dens / portion
     # Avoid NaN values
     scalar_dens[portion == 0.0] = 0.0
-    sampler = Sample_Grid(edges, portion, scalar_dens=scalar_dens)
+    sampler = Sample_Grid(edges, portion, mass=mass, scalar_dens=scalar_dens)
     vals, weight = sampler.sample(nsamp, **sample_kwargs)
     return vals, weight
 
-- 
2.43.0


From f3648c6c0a873defdbc266b7e89df009ed505e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 24/29] fix: accept `params=[0]` for one-dimensional data

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index ddeaf32..098fd7d 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -330,7 +330,7 @@ class KDE:
         squeeze = False
         if params is not None:
             if (ndim == 1):
-                if params == 0:
+                if np.size(params) == 1 and np.ravel(params)[0] == 0:
                     params = None
                 else:
                     err = "Cannot specify `params` ('{}') > 0 for 1D data!".format(params)
-- 
2.43.0


From b4bafb3fef8dc5e6caa77326bd0c72d469a91864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 25/29] fix: module-level pdf and density accept `params`

---
 kalepy/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/__init__.py b/kalepy/__init__.py
index bbee33d..de567b6 100644
--- a/kalepy/__init__.py
+++ b/kalepy/__init__.py
@@ -68,7 +68,7 @@ del _path
 # High Level API Functions
 # -----------------------------------
 
-def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, **kwargs):
+def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, params=None, **kwargs):
     """Use a KDE to calculate the density of the given data.
 
     This function (1) constructs a kernel-density estimate of the distribution function from which
@@ -136,7 +136,7 @@ def density(data, points=None, weights=None, reflect=None, probability=False, gr
 
     """
     kde = KDE(data, weights=weights, reflect=reflect, **kwargs)
-    points, vals = kde.density(points, probability=probability, grid=grid)
+    points, vals = kde.density(points, params=params, probability=probability, grid=grid)
     return points, vals
 
 
-- 
2.43.0


From 18c7bfa63d5acd50667d533841c0bc46deac2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 26/29] fix: scalars of grid samples use the sampled position
 within the bin

---
 kalepy/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 2b7fb66..54cbcfc 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -199,7 +199,8 @@ class Sample_Grid:
             if return_scalar and interpolate:
                 grad = _grad_along(scalar_dens, dim)
                 grad = grad.flat[bin_numbers_flat]
-                # shift `loc` (location within bin) to center point
+                # relative position of each sample within its bin (after interpolation), from the bin center
+                loc = (vals[dim, :] - edge[bidx]) / wid[bidx]
                 scalar_values += grad * (loc - 0.5)
 
         if return_scalar:
-- 
2.43.0


From ce474f484dbdd610ebd6f11f607e229bbbe7c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 27/29] fix: cumtrapz along one axis prepends zeros along that
 axis only

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index a6392d6..7bb86e0 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -290,7 +290,7 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
     if prepend:
         ndim = _ndim(cdf)
         temp = [1, 0] if axis is None else [0, 0]
-        padding = [temp for ii in range(ndim)]
+        padding = [list(temp) for ii in range(ndim)]
         if axis is not None:
             padding[axis][0] = 1
         # cdf = _pre_pad_zero(cdf, axis=axis)
-- 
2.43.0


From f73a0a0dfea9729a784a124b69918ccada820532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 28/29] fix: the diagonal option also applies to a bandwidth
 matrix

---
 kalepy/kde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 098fd7d..9cfaf0b 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -714,6 +714,8 @@ class KDE:
                 for ii, jj in np.ndindex(ndim, ndim):
                     bandwidth[ii, jj], *_ = self._compute_bandwidth(
                         bw_input[ii][jj], param=(ii, jj))
+                if self._diagonal:
+                    bandwidth = np.diag(bandwidth.diagonal())
                 method = 'matrix'
             else:
                 err = "`bandwidth` must have shape (1,), (N,) or (N,N,) for `N` dimensions!"
-- 
2.43.0


From d724f87f40d7c74fd5d87ab33b39603b5b12588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 29/29] fix: quantiles refuse weights that do not match the
 values

---
 kalepy/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 7bb86e0..ee3caf2 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -517,6 +517,11 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if weights is None:
         weights = np.ones_like(values)
     weights = np.array(weights)
+    num_vals = values.size if (axis is None) else values.shape[axis]
+    num_wgts = weights.size if (axis is None) else weights.shape[axis]
+    if num_wgts != num_vals:
+        err = "Shape of `weights` ({}) does not match `values` ({})!".format(weights.shape, values.shape)
+        raise ValueError(err)
     assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
 
     if not values_sorted:
-- 
2.43.0

