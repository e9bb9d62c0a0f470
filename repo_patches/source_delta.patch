From d5e6cb54550af214e4bacf6ca7dcb876451f52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 01/25] fix: keep zero-variance rows of iternorm inverse at
 zero

The rows belonging to variates with zero standard deviation must not
contribute to later scaling vectors; otherwise valid positive
semi-definite covariances are rejected.
---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index 677a84a..7b14df1 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -156,7 +156,7 @@ def iternorm(cov: Iterable[FloatArray]) -> Iterator[FloatArray]:
                 xp.zeros(n, dtype=atm.dtype),
             )
             # assemble the new row
-            r = xp.concat([-atm, u[..., None, None]], axis=-1)
+            r = xp.concat([-atm * u[..., None, None], u[..., None, None]], axis=-1)
             # set zero standard deviation to unity to prevent division by zero
             # this should be fine as corresponding entries in r are zero
             s = xp.where(s > 0, s, xp.ones(n, dtype=s.dtype))
-- 
2.43.0


From 402b7c1684e012b69dc513b8bd4564cbaf969409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 02/25] fix: step towards the feasible solution in nnls

The interpolation between the current and the unconstrained solution had
the wrong sign, so entries were dropped from the active set too early and
the result was not the non-negative least-squares solution.
---
 glass/algorithm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 114881f..db2fc1a 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,8 +100,13 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = -xp.min(xq[t] / (xq[t] - sq[t]))
-            x = xpx.at(x)[q].add(alpha * (sq - xq))
+            # largest step that keeps all entries non-negative
+            r = xq[t] / (xq[t] - sq[t])
+            alpha = xp.min(r)
+            xq = xq + alpha * (sq - xq)
+            # limiting entries become exactly zero and leave the active set
+            xq = xpx.at(xq)[t].set(xp.where(r <= alpha, 0.0, xq[t]))
+            x = xpx.at(x)[q].set(xq)
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
         x = xpx.at(x)[~q].set(0)
-- 
2.43.0


From 324ca445c4f6b4c43aebe340686862ffaa756b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 03/25] fix: nearcorr for stacks with more than one leading
 axis

The initial correction kept the input shape instead of the flattened one,
which does not broadcast for two or more leading axes.
---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index db2fc1a..4985213 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -200,7 +200,7 @@ def nearcorr(
     y = xp.reshape(a, (-1, n, n))
 
     # initial correction is zero
-    ds = xp.zeros_like(a)
+    ds = xp.zeros_like(y)
 
     # store identity matrix
     diag = xp.eye(n)
-- 
2.43.0


From 5bcf4783110aa7279386676fb0cd30afa2de8bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 04/25] fix: cov_clip of matrices without positive eigenvalues

The lower bound for eigenvalues was negative if the largest eigenvalue
was negative, which returned NaN.
---
 glass/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 4985213..84ab375 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -146,7 +146,8 @@ def cov_clip(
         rtol = max(v.shape[-2], v.shape[-1]) * xp.finfo(w.dtype).eps
 
     # clip negative diagonal values
-    w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)
+    wmax = xp.clip(xp.max(w, axis=-1, keepdims=True), 0.0, None)
+    w = xp.clip(w, rtol * wmax, None)
 
     # put matrix back together
     # enforce symmetry
-- 
2.43.0


From f90f4064bee8a25686ba8ccaafb19d91da16b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 05/25] fix: uniform grids overshooting evenly divided
 intervals

Rounding in arange() could add one extra step after the end point, e.g.
redshift_grid(1.0, 1.3, dz=0.1) ended at 1.4.
---
 glass/shells.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index cea16ac..49c10a4 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -877,7 +877,10 @@ def _uniform_grid(
     xp = _utils.default_xp() if xp is None else xp
 
     if step is not None and num is None:
-        return xp.arange(start, stop + step, step)
+        # do not add a step if the interval is divided evenly up to rounding
+        steps = float((stop - start) / step)
+        n = round(steps) if math.isclose(steps, round(steps)) else math.ceil(steps)
+        return xp.arange(start, start + (n + 0.5) * step, step)
     if step is None and num is not None:
         return xp.linspace(start, stop, num + 1, dtype=xp.float64)
     msg = "exactly one of grid step size or number of steps must be given"
-- 
2.43.0


From 1e71e371f232f9836f8f467e649f5e521c398e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 06/25] fix: number of fixed_zbins for evenly divided intervals

Rounding could add an extra bin after zmax or drop the last one.
---
 glass/observations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/glass/observations.py b/glass/observations.py
index 5a3171a..5101585 100644
--- a/glass/observations.py
+++ b/glass/observations.py
@@ -257,11 +257,10 @@ def fixed_zbins(
     if nbins is not None and dz is None:
         zbinedges = xp.linspace(zmin, zmax, nbins + 1)
     elif nbins is None and dz is not None:
-        zbinedges = xp.arange(
-            zmin,
-            xp.nextafter(xp.asarray(zmax + dz), xp.asarray(zmax)),
-            dz,
-        )
+        # do not add a bin if the interval is divided evenly up to rounding
+        steps = (zmax - zmin) / dz
+        n = round(steps) if math.isclose(steps, round(steps)) else math.ceil(steps)
+        zbinedges = xp.arange(zmin, zmin + (n + 0.5) * dz, dz)
     else:
         msg = "exactly one of nbins and dz must be given"
         raise ValueError(msg)
-- 
2.43.0


From 864e5a6c9a391317bbe9d0224dd3d45bd0091e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 07/25] fix: resample_shapes with varg=0

The closed form divided zero by zero, which returned NaN instead of
unchanged ellipticities.
---
 glass/shapes.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index bab7dcb..21402cc 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -411,12 +411,10 @@ def resample_shapes(
         if varg > vare:
             raise ValueError("varg too large for epsilon")
         eve4 = xp.mean(r**4)
+        # root of quadratic equation in a form that remains valid for varg = 0
+        b = (1 - 2 * varg) * vare
         r *= xp.sqrt(
-            (
-                xp.sqrt(((1 - 2 * varg) * vare) ** 2 + 4 * varg * eve4 * (vare - varg))
-                - (1 - 2 * varg) * vare
-            )
-            / (2 * varg * eve4),
+            2 * (vare - varg) / (b + xp.sqrt(b**2 + 4 * varg * eve4 * (vare - varg))),
         )
 
     # assign random orientations to shapes
-- 
2.43.0


From f52d0376566192998706644fb822a90f5141d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 08/25] fix: endless loop in solve() for infeasible spectra

When the residual is not finite, no step size can improve the solution
and the search for one never ended.
---
 glass/grf/_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/grf/_solver.py b/glass/grf/_solver.py
index 3f58d0f..5452a7e 100644
--- a/glass/grf/_solver.py
+++ b/glass/grf/_solver.py
@@ -126,6 +126,10 @@ def solve(  # noqa: PLR0912, PLR0913
         if monopole is not None:
             xl[0] = 0
 
+        # no improvement is possible if the step is not finite
+        if not np.all(np.isfinite(xl)):
+            break
+
         # we know the "direction" of the step xl at this point
         # make xl smaller (by half) until we get an improved solution
         while True:
-- 
2.43.0


From 5ab3970f2db3936ace3d65ae6fa8b513748cb205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 09/25] fix: redshifts_from_bins for multi-dimensional bin
 labels

The inverse indices have the shape of the labels, and were sorted along
the last axis only, so that redshifts came from the wrong bins.
---
 glass/galaxies.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 612810c..9984e4c 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -164,6 +164,9 @@ def redshifts_from_bins(
     # tally the bins
     bin_label, _, bin_index, bin_count = xp.unique_all(bins)
 
+    # redshifts are sampled as a flat list
+    bin_index = xp.reshape(bin_index, (-1,))
+
     # sample the redshifts from each nz
     # concatenate into runs of redshifts for each bin
     redshifts = xp.concat([
-- 
2.43.0


From 4d0c5f59bf8d1cc36a00866d720114454c0e3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 10/25] fix: random positions inside pixels ignoring the
 generator

positions_from_delta() used a newly seeded default generator for the
positions inside of pixels in every batch, so that these repeated for each
batch and population, and did not depend on the rng argument.
---
 glass/healpix.py |  7 +++++--
 glass/points.py  | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/glass/healpix.py b/glass/healpix.py
index 69c2439..8baeeb8 100644
--- a/glass/healpix.py
+++ b/glass/healpix.py
@@ -401,11 +401,12 @@ def randang(
     ipix: IntArray,
     *,
     lonlat: bool = False,
+    rng: np.random.Generator | None = None,
 ) -> tuple[FloatArray, FloatArray]:
     """
     Sample random spherical coordinates from the given HEALPix pixels.
 
-    ``rng`` is no longer a parameter as we must use the NumPy backend otherwise
+    ``rng`` must be a NumPy generator, whatever the array backend, otherwise
     we run into a ``operand array with iterator write flag set is read-only``
     error coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
 
@@ -417,6 +418,8 @@ def randang(
         HEALPix pixel number.
     lonlat
         If True, automatically adjust latitudes to be within [-90, 90] range.
+    rng
+        NumPy random number generator. If not given, a default RNG is used.
 
     Returns
     -------
@@ -427,7 +430,7 @@ def randang(
         nside,
         ipix,
         lonlat=lonlat,
-        rng=glass.rng.default_rng(xp=np),
+        rng=glass.rng.default_rng(xp=np) if rng is None else rng,
     )
     return theta, phi
 
diff --git a/glass/points.py b/glass/points.py
index 593c023..6805bd3 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -41,12 +41,15 @@ from __future__ import annotations
 __lazy_modules__ = [
     "array_api_compat",
     "array_api_extra",
+    "numpy",
 ]
 
 import itertools
 import math
 from typing import TYPE_CHECKING
 
+import numpy as np
+
 import array_api_compat
 import array_api_extra as xpx
 
@@ -353,6 +356,8 @@ def _sample_galaxies_per_pixel(
     dims: tuple[int, ...],
     k: tuple[int, ...],
     n: FloatArray,
+    *,
+    rng: UnifiedGenerator | None = None,
 ) -> Generator[
     tuple[
         FloatArray,
@@ -374,6 +379,8 @@ def _sample_galaxies_per_pixel(
         Indices for the extra dimensions.
     n
         Number density.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Yields
     ------
@@ -405,6 +412,10 @@ def _sample_galaxies_per_pixel(
     else:
         cmask = 1
 
+    # HEALPix needs a NumPy generator for the positions inside of pixels
+    xrng = glass.rng.Generator(rng=rng, xp=xp)
+    subpix_rng = np.random.default_rng(int(xrng.random() * 2**53))
+
     # sample the map in batches
     step = 1_000
     start, stop, size = 0, 0, 0
@@ -428,6 +439,7 @@ def _sample_galaxies_per_pixel(
                 nside,
                 ipix,
                 lonlat=True,
+                rng=subpix_rng,
             )
             # next batch
             start, size = stop, 0
@@ -537,7 +549,7 @@ def positions_from_delta(  # noqa: PLR0913
 
         n = _sample_number_galaxies(n, rng=xrng)
 
-        yield from _sample_galaxies_per_pixel(batch, dims, k, n)
+        yield from _sample_galaxies_per_pixel(batch, dims, k, n, rng=xrng)
 
 
 def uniform_positions(
-- 
2.43.0


From 248b8cb9bdef2221182edd40dd5ae91d14742a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 11/25] fix: data type of cov_from_spectra

The covariance matrix took the type of the first spectrum alone, so that
values of other spectra could be truncated to integers.
---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index 7b14df1..fe8a144 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -1017,7 +1017,7 @@ def cov_from_spectra(
     # this is the covariance matrix of the spectra
     # the leading dimension is k, then it is a n-by-n covariance matrix
     # missing entries are zero, which is the default value
-    cov = xp.zeros((k, n, n), dtype=spectra[0].dtype)
+    cov = xp.zeros((k, n, n), dtype=xp.result_type(*spectra))
 
     # fill the matrix up by going through the spectra in order
     # skip over entries that are None
-- 
2.43.0


From f331adcb23e033833fe14fd08933b5cf869b71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 12/25] fix: cov_from_spectra with missing spectra

Missing spectra are documented to be given as None, but raised an
AttributeError.
---
 glass/fields.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/glass/fields.py b/glass/fields.py
index fe8a144..38babab 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -1011,19 +1011,24 @@ def cov_from_spectra(
     # recover the number of fields from the number of spectra
     n = nfields_from_nspectra(len(spectra))
 
+    # missing spectra can be None
+    given = [cl for cl in spectra if cl is not None]
+
     # first case: maximum length in input spectra
-    k = max((cl.shape[0] for cl in spectra), default=0) if lmax is None else lmax + 1
+    k = max((cl.shape[0] for cl in given), default=0) if lmax is None else lmax + 1
 
     # this is the covariance matrix of the spectra
     # the leading dimension is k, then it is a n-by-n covariance matrix
     # missing entries are zero, which is the default value
-    cov = xp.zeros((k, n, n), dtype=xp.result_type(*spectra))
+    cov = xp.zeros((k, n, n), dtype=xp.result_type(*given))
 
     # fill the matrix up by going through the spectra in order
     # skip over entries that are None
     # if the spectra are ragged, some entries at high ell may remain zero
     # only fill the lower triangular part, everything is symmetric
     for i, j, cl in enumerate_spectra(spectra):
+        if cl is None:
+            continue
         size = min(k, cl.shape[0])
         cl_flat = xp.reshape(cl, (-1,))
         cov = xpx.at(cov)[:size, i, j].set(cl_flat[:size])
-- 
2.43.0


From 0764c97aed4bd0aae393d1c475742eedb839c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 13/25] fix: discretized_cls with lmax beyond the end of a
 spectrum

Slices beyond the end of an array are not specified in the Array API, and
array-api-strict refuses them.
---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index 38babab..f4e5cf1 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -292,7 +292,7 @@ def discretized_cls(
     for cl in cls:
         if cl.shape[0] > 0:
             if lmax is not None:
-                cl = cl[: lmax + 1]  # noqa: PLW2901
+                cl = cl[: min(lmax + 1, cl.shape[0])]  # noqa: PLW2901
             if nside is not None:
                 n = min(cl.shape[0], pw.shape[0])  # ty: ignore[unresolved-attribute]
                 cl = cl[:n] * pw[:n] ** 2  # noqa: PLW2901
-- 
2.43.0


From 49d8689c678881bc6aeead654d5440843f88ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 14/25] fix: convergence in the last iteration of solve()

The status was reported as not converged when the tolerance was met in
the last iteration.
---
 glass/grf/_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/grf/_solver.py b/glass/grf/_solver.py
index 5452a7e..326e3a7 100644
--- a/glass/grf/_solver.py
+++ b/glass/grf/_solver.py
@@ -149,4 +149,8 @@ def solve(  # noqa: PLR0912, PLR0913
 
         gl, gt, rl, fl, clerr = gl_, gt_, rl_, fl_, clerr_
 
+    # the last iteration may have converged
+    if clerr <= cltol:
+        info |= 1
+
     return gl, rl, info
-- 
2.43.0


From 728d25aef77a6b549d4e04d3539374c6373f1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 15/25] fix: two-component displacements for backends without
 array iteration

Iterating over arrays is not part of the Array API, and array-api-strict
refuses it.
---
 glass/lensing.py | 2 +-
 glass/points.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index e7004ec..096330c 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -742,7 +742,7 @@ def deflect(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = (alpha[i, ...] for i in range(alpha.shape[0]))
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
diff --git a/glass/points.py b/glass/points.py
index 6805bd3..c2a184a 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -705,7 +705,7 @@ def displace(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = (alpha[i, ...] for i in range(alpha.shape[0]))
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
-- 
2.43.0


From 0a844d62ac62b9a4d12e054ece51fc377aa46e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 16/25] fix: gaussian_phz with only one bound of the wrong
 shape

A scalar bound together with an array bound of another shape than z was
accepted, and the shape of the result depended on chance.
---
 glass/galaxies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 9984e4c..5426c9f 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -436,8 +436,9 @@ def gaussian_phz(  # noqa: PLR0913
     zphot = xp.asarray(xrng.normal(z_arr, sigma))
 
     # Check for valid user input
-    if (lower_arr.ndim == upper_arr.ndim != 0) and not (
-        lower_arr.shape == upper_arr.shape == zphot.shape
+    if any(
+        bound.ndim != 0 and bound.shape != zphot.shape
+        for bound in (lower_arr, upper_arr)
     ):
         msg = "lower and upper must best scalars or have the same shape as z"
         raise ValueError(msg)
-- 
2.43.0


From 7ebff773e45002eb7c1153937006b93554797521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 17/25] fix: combine() for backends without array iteration

Weights with more than one axis could not be combined with backends such
as array-api-strict, which refuse iterating over arrays.
---
 glass/shells.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index 49c10a4..f3458fc 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -1008,7 +1008,11 @@ def combine(
                     left=0.0,
                     right=0.0,
                 )
-                for shell, weight in zip(shells, weights, strict=False)
+                for shell, weight in zip(
+                    shells,
+                    xp.unstack(weights),
+                    strict=False,
+                )
             ],
         ),
         axis=0,
-- 
2.43.0


From 3258b1e342c401fbe2316fde9d58ff02787b1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 18/25] fix: nnls with linearly dependent columns

Rounding in the gradient lets a column enter the active set that is
linearly dependent on those already in it. The normal equations are then
singular, and the solver raised an error or did not terminate.
---
 glass/algorithm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 84ab375..6986ac9 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -79,6 +79,7 @@ def nnls(
     index = xp.arange(n)
     q = xp.full(n, fill_value=False)
     x = xp.zeros(n)
+    rtol = max(a.shape) * float(xp.finfo(x.dtype).eps)
     for _ in range(maxiter):
         if xp.all(q):
             break
@@ -96,12 +97,13 @@ def nnls(
             # i.e. `[[a11],[a12],...]` rather than `[a11,a12,...]`
             aq = xp.take(a, xp.nonzero(q)[0], axis=1)
             xq = x[q]
-            sq = xp.linalg.solve(aq.T @ aq, b @ aq)
+            # minimum-norm solution, columns can be linearly dependent to rounding
+            sq = xp.linalg.pinv(aq, rtol=rtol) @ b
             t = sq <= 0
             if not xp.any(t):
                 break
             # largest step that keeps all entries non-negative
-            r = xq[t] / (xq[t] - sq[t])
+            r = xp.where(xq[t] > 0, xq[t] / (xq[t] - sq[t]), 0.0)
             alpha = xp.min(r)
             xq = xq + alpha * (sq - xq)
             # limiting entries become exactly zero and leave the active set
-- 
2.43.0


From 43683c3c7a4ca4076fb44fc24ae68a7c1aab0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 19/25] fix: distribute() of no redshifts for strict backends

The built-in int type is not a data type of the Array API.
---
 glass/shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index f3458fc..e27c4ba 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -1107,7 +1107,7 @@ def distribute(
 
     # return empty array if nothing was sampled
     if not out:
-        return xp.empty(shape, dtype=int)
+        return xp.empty(shape, dtype=xp.int64)
 
     # return output in input shape
     return xp.reshape(xp.concat(out), shape)
-- 
2.43.0


From c7612488bbb751b11d5ed2527d073b424451b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 20/25] fix: trapezoid_product of three or more functions
 without common range

---
 glass/arraytools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glass/arraytools.py b/glass/arraytools.py
index 5340640..ae9de00 100644
--- a/glass/arraytools.py
+++ b/glass/arraytools.py
@@ -181,6 +181,9 @@ def trapezoid_product(
     x: FloatArray
     x, _ = f
     for x_, _ in ff:
+        if x.size == 0:
+            # the functions so far have no common range
+            break
         x = typing.cast(
             "FloatArray",
             xpx.union1d(
-- 
2.43.0


From fd57486dc6c239c3fbbb0549ad8d938602c95790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 21/25] fix: trapezoid() without sample points for other
 backends

---
 glass/_array_api_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/_array_api_utils.py b/glass/_array_api_utils.py
index fa2b7eb..2009eb4 100644
--- a/glass/_array_api_utils.py
+++ b/glass/_array_api_utils.py
@@ -143,7 +143,7 @@ class xp_additions:  # noqa: N801
         # If any other backend use default
         dxp = default_xp(xp.__name__)
         y_dxp = dxp.asarray(y, copy=True)
-        x_dxp = dxp.asarray(x, copy=True)
+        x_dxp = None if x is None else dxp.asarray(x, copy=True)
         result_dxp = dxp.trapezoid(y_dxp, x_dxp, dx=dx, axis=axis)
         return xp.asarray(result_dxp, copy=True)
 
-- 
2.43.0


From e24f617bb745f78ed9c4d3f5e80fb93bfb8a50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 22/25] fix: resample_shapes with varg up to the variance of
 large ellipticities

The form of the root introduced for varg = 0 divides zero by zero when
varg equals the variance of the sample and exceeds one half.
---
 glass/shapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index 21402cc..fbd0be0 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -411,10 +411,11 @@ def resample_shapes(
         if varg > vare:
             raise ValueError("varg too large for epsilon")
         eve4 = xp.mean(r**4)
-        # root of quadratic equation in a form that remains valid for varg = 0
+        # root of quadratic equation, without cancellation for either sign of b
         b = (1 - 2 * varg) * vare
+        d = xp.sqrt(b**2 + 4 * varg * eve4 * (vare - varg))
         r *= xp.sqrt(
-            2 * (vare - varg) / (b + xp.sqrt(b**2 + 4 * varg * eve4 * (vare - varg))),
+            2 * (vare - varg) / (b + d) if b > 0 else (d - b) / (2 * varg * eve4),
         )
 
     # assign random orientations to shapes
-- 
2.43.0


From 50427d4310e829b352f94a3b53c3c1808aaf0a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 23/25] fix: multi_plane_weights with weights of three or more
 dimensions

np.matmul broadcasts over the leading axes of stacks of matrices, so the
matrix was applied to the wrong axis (or refused) for weights with more
than one trailing axis.  Contract with the first axis of the weights.
---
 glass/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index 096330c..c5f2779 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -681,7 +681,7 @@ def multi_plane_weights(
     weights = weights / xp.sum(weights, axis=0)
     # combine weights and the matrix of lensing contributions
     mat = multi_plane_matrix(shells, cosmo)
-    return xp.matmul(mat.T, weights)
+    return xp.tensordot(mat.T, weights, axes=1)
 
 
 def deflect(
-- 
2.43.0


From f2842aba7b453d9fac458a2fdc34c1c1c3f60a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:12 +0000
Subject: [PATCH 24/25] fix: position_weights with an integer bias

The bias parameter may be a number, but only float was turned into an
array, so that position_weights(densities, 2) raised AttributeError.
---
 glass/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/points.py b/glass/points.py
index c2a184a..55760db 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -649,7 +649,7 @@ def position_weights(
     """
     xp = array_api_compat.array_namespace(densities, bias, use_compat=False)
 
-    bias = bias if bias is None or not isinstance(bias, float) else xp.asarray(bias)
+    bias = xp.asarray(float(bias)) if isinstance(bias, (int, float)) else bias
 
     # bring densities and bias into the same shape
     if bias is not None:
-- 
2.43.0


From 5890a7c441d8fed56741844d83442413f8f46eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:40 +0000
Subject: [PATCH 25/25] fix: triaxial_axis_ratio of very elongated ellipsoids

The difference in the numerator of the axis ratio cancels for small axis
ratios, so that they were zero below 1e-8 and NaN below 1e-9.
---
 glass/shapes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index fbd0be0..df05520 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -120,10 +120,10 @@ def triaxial_axis_ratio(
     b2 = 4 * z2m1**2 * cos2_theta * sin2_phi * cos2_phi
     c = 1 + z2m1 * cos2_phi
 
-    # eq. (12)
-    return xp.sqrt(
-        (a + c - xp.sqrt((a - c) ** 2 + b2)) / (a + c + xp.sqrt((a - c) ** 2 + b2)),
-    )
+    # eq. (12) with the difference in the numerator rationalised, since it cancels
+    # for small axis ratios: a c - b^2/4 = zeta^2 cos^2(theta) + xi^2 sin^2(theta) c
+    det = xp.square(zeta) * cos2_theta + x2 * sin2_theta * c
+    return 2 * xp.sqrt(det) / (a + c + xp.sqrt((a - c) ** 2 + b2))
 
 
 def ellipticity_ryden04(  # noqa: PLR0913
-- 
2.43.0

