From ed55596f300c6ec628533bf6a0aacbd7ca12b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:07 +0000
Subject: [PATCH 01/51] fix: allow times with more dimensions than the
 coordinates

reshape_times_and_coordinates() indexed coords.ndim instead of
coords.strides and raised TypeError whenever the times array had more
dimensions than the coordinates (e.g., an array of times and one point).
---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 2c93a9b..27467e0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -80,7 +80,7 @@ def reshape_times_and_coordinates(time, coords):
             strides=(
                 *coords.strides[:-1],
                 *((0,) * (ndim_result - ndim_common)),
-                coords.ndim[-1]
+                coords.strides[-1]
             )
         )
 
-- 
2.43.0


From 3a3750d4e02aca19926cdd363ee2617d1e591027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:07 +0000
Subject: [PATCH 02/51] fix: resolve overlaps between the composed coefficient
 sets

ComposedSHCoefficients.decompose() removed overlaps only within each
single set, leaving overlapping components if the validity intervals
of the composed sets overlapped. The array evaluation of the model then
used the last matching set while the scalar one used the first matching.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index be96cda..0f11c1c 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -112,10 +112,10 @@ class ComposedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
-        result = []
+        intervals = []
         for item in self:
-            result.extend(get_nonoverlapping_intervals(item.decompose()))
-        return result
+            intervals.extend(item.decompose())
+        return get_nonoverlapping_intervals(intervals)
 
     @property
     def time_scales(self):
-- 
2.43.0


From b21eac9a73eb96b124e3443b14ccdfe032f38f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 03/51] fix: evaluate the first matching component in the array
 evaluation

The validity intervals of the model components are closed and two
subsequent components share their boundary. There, the array evaluation
used the last matching component while the scalar evaluation used
the first one.
---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index ac40063..b937e07 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -149,11 +149,13 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
 
         # time is an array
         result = _get_nans()
+        not_evaluated = full(time.shape, True)
         for (start, end), method, coefficients in self._components:
-            mask = _is_valid(start, end)
+            mask = not_evaluated & _is_valid(start, end)
             result[mask, :] = _call_eval(
                 method, coefficients, time[mask], location[mask, :]
             )
+            not_evaluated &= ~mask
         return result
 
     def _eval(self, method, coefficients, time, location,
-- 
2.43.0


From ff688bf3ec9b4cf68851f0846bc7e0749650c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 04/51] fix: respect the order of the composed sets at their
 shared boundary

The first matching set of the composed coefficients is evaluated,
but the decomposed components were sorted by time and the model evaluated
at a time shared by two sets used the earlier rather than the first one.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 0f11c1c..bd8781a 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -115,7 +115,13 @@ class ComposedSHCoefficients(SHCoefficients):
         intervals = []
         for item in self:
             intervals.extend(item.decompose())
-        return get_nonoverlapping_intervals(intervals)
+        # keep the order of the composed sets - the first matching set applies
+        # also at the boundary shared by two sets
+        order = {id(item): idx for idx, (_, item) in enumerate(intervals)}
+        return sorted(
+            get_nonoverlapping_intervals(intervals),
+            key=lambda component: order[id(component[1])]
+        )
 
     @property
     def time_scales(self):
@@ -238,7 +244,8 @@ class CombinedSHCoefficients(SHCoefficients):
         aggergates = None
         for item in self:
             aggergates = aggregate_intersected_intervals(
-                item.decompose(), aggergates
+                sorted(item.decompose(), key=lambda component: component[0]),
+                aggergates
             )
         result = []
         for validity, items in aggergates:
-- 
2.43.0


From 1c7e9d072d031c2b28d7ceec2dba45bb985dea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 05/51] fix: do not report a time-gap in case of nested
 validity intervals

A set of coefficients valid within the validity of another composed set
was remembered as the end of the covered time and a false gap was reported.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index bd8781a..0dbbcb8 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -162,11 +162,11 @@ class ComposedSHCoefficients(SHCoefficients):
                     "the sets of coefficients!"
                 )
 
-            last_item_validity_end = item_validity_end
-
             validity_start = min(validity_start, item_validity_start)
             validity_end = max(validity_end, item_validity_end)
 
+            last_item_validity_end = validity_end
+
             degree = max(degree, item.degree)
             min_degree = min(min_degree, item.min_degree)
 
-- 
2.43.0


From 0507786fa41d52703e5ccf8232d6d73656cef2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 06/51] fix: detect combinations of coefficients with mixed
 time-scales

The coefficients interpolated in decimal years declared the MJD2000
time-scale and the mix of the time-scales was not detected. The optimized
evaluation then interpolated all combined sets in decimal years, including
those with times in MJD2000.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 0dbbcb8..bd6c69a 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -488,7 +488,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
 
 class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
     """ Time invariant sparse spherical harmonic coefficients. """
-    time_scale = ()
+    time_scales = ()
 
     def __init__(self, indices, coefficients, **kwargs):
         indices = asarray(indices)
@@ -522,7 +522,7 @@ class SparseSHCoefficientsTimeDependentDecimalYear(SparseSHCoefficientsTimeDepen
     by spine interpolation of a time series of coefficients snapshots.
     with time in decimal year interpolated in the decimal years time domain.
     """
-    time_scales = ("MJD2000",)
+    time_scales = ("DecimalYear",)
 
     def __init__(self, indices, coefficients, times,
                  to_mjd2000=decimal_year_to_mjd2000,
-- 
2.43.0


From e2c0d62813f23c5fe7f05103b43083043a400be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 07/51] fix: apply the spline order of the SHC file

The spline order of the SHC file header was set to a mistyped option
which was never passed to the coefficients.
---
 eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
index 53a7f1c..04fabaf 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
@@ -113,13 +113,13 @@ def load_coeff_shc(path, interpolate_in_decimal_years=False, **kwargs):
 
     times = data["t"]
 
-    kwargs["spline_oder"] = kwargs.get("spline_oder", min(data["spline_order"], 2))
-
     if len(times) == 1:
         return SparseSHCoefficientsConstant(
             data["nm"], data["gh"][:, 0], **options
         )
 
+    options.setdefault("spline_order", min(data["spline_order"], 2))
+
     if interpolate_in_decimal_years:
         coeff_class = SparseSHCoefficientsTimeDependentDecimalYear
     else:
-- 
2.43.0


From d5e6ed38f1bc37bfcdefdad6adc922f121269c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 08/51] fix: sum overlapping terms of the combined coefficient
 sets

The combined coefficients are defined as the sum of the combined sets.
The optimized evaluation overwrites the terms which are present in more
than one set and, if any of the sets is piecewise constant, the result
depends also on the previously evaluated times.
---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index b937e07..9e0f101 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -45,6 +45,17 @@ __all__ = [
 ]
 
 
+def _have_common_terms(coeff_sets):
+    """ Return True if any two coefficient sets share a common term. """
+    terms = set()
+    for _, _, nm_, _ in coeff_sets:
+        new_terms = set(map(tuple, nm_.tolist()))
+        if not terms.isdisjoint(new_terms):
+            return True
+        terms |= new_terms
+    return False
+
+
 class GeomagneticModel:
     """ Abstract base class of the Earth magnetic field model. """
     # list of the required model parameters
@@ -94,11 +105,16 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
                 return self._eval_default
 
             try:
-                coefficients.get_coefficient_sets()
+                coeff_sets = coefficients.get_coefficient_sets()
             except AttributeError:
                 # coefficient cannot be extracted - falling back to the default
                 return self._eval_default
 
+            if _have_common_terms(coeff_sets):
+                # The coefficients of the common terms are not summed by
+                # the optimized evaluation - falling back to the default
+                return self._eval_default
+
             return self._eval_interpolated
 
         # default evaluation method
-- 
2.43.0


From 6ababab5039594f21883537792f37f6aa0b79a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 09/51] fix: heap buffer overflow in the 2D Fourier series
 evaluation

The buffer size ignored the minimum degree of the second dimension and
the buffer was too small whenever this degree was the largest in magnitude.
---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index a8b7a6d..b0b1e9b 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -347,7 +347,7 @@ static int _fourier2d_init(
     max_abs_degree = 1;
     max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
+    max_abs_degree = MAX(max_abs_degree, abs(min_degree2));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree2));
     f2d->max_abs_degree = max_abs_degree;
 
-- 
2.43.0


From f7ab3eb2e2d4bfe391e6b25a8190246a6c6ae020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 10/51] fix: read non-contiguous coordinates in the spherical
 harmonics evaluation

The coordinates array is not required to be contiguous but its last
dimension was read as if it was. E.g., transposed arrays of coordinates
led to wrong results and reading out of bounds.
---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 545a245..5dba42e 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -379,6 +379,14 @@ static SHEVAL_MODE _check_sheval_mode(int mode, const char *label)
 }
 
 
+/* get values of the 3D vector respecting the stride of the array's last dimension */
+
+#define _GET_ARRD_3D_VECTOR(arrd) {\
+    *((double*)((char*)(arrd).data)),\
+    *((double*)((char*)(arrd).data + (arrd).stride[0])),\
+    *((double*)((char*)(arrd).data + 2*(arrd).stride[0])),\
+}
+
 /* high-level nD-array recursive batch model_evaluation */
 
 static void _model_eval(
@@ -413,7 +421,7 @@ static void _sheval_pot(
     {
         double *pot = ((double*)arrd_pot.data);
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
-        const double *x = ((double*)arrd_x.data);
+        const double x[3] = _GET_ARRD_3D_VECTOR(arrd_x);
 
         _model_eval(
             pot, NULL, NULL, NULL, x[0], x[1], x[2],
@@ -447,7 +455,7 @@ static void _sheval_grd(
     else
     {
         double *grd = ((double*)arrd_grd.data);
-        const double *x = ((double*)arrd_x.data);
+        const double x[3] = _GET_ARRD_3D_VECTOR(arrd_x);
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
 
         _model_eval(
@@ -485,7 +493,7 @@ static void _sheval_pot_and_grd(
     {
         double *pot = ((double*)arrd_pot.data);
         double *grd = ((double*)arrd_grd.data);
-        const double *x = ((double*)arrd_x.data);
+        const double x[3] = _GET_ARRD_3D_VECTOR(arrd_x);
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
 
         _model_eval(
-- 
2.43.0


From 72a5290894331d548a01c055a943f73cd0f28cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 11/51] fix: raise the exception in case of incompatible EMM
 coefficients

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index a8c26d3..fed22d6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -55,7 +55,7 @@ def combine_emm_variable(data_static, data_secvar):
     size = nm_secvar.shape[0]
 
     if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
-        ValueError("Incompatible sets of the static and variation coefficients!")
+        raise ValueError("Incompatible sets of the static and variation coefficients!")
 
     return {
         "epoch": epoch_secvar,
-- 
2.43.0


From a8e6ba18f0491cd57dc35146a17f9d0d396fb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:01 +0000
Subject: [PATCH 12/51] fix: correct day of year for times before 2000-01-01

The fractional MJD2000 time was truncated towards zero and the negative
times yielded the following day of the year. The evaluated sub-solar point
and the magnetic local time were those of the next day.
---
 qdipole/eval_mlt.f90    | 2 +-
 qdipole/eval_subsol.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e3924c7..e684cf9 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -64,7 +64,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index e8a8e2b..16b88f7 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -56,7 +56,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From 1ba7d20d4fc1cab50fbe9aa35fcfa7619994df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:55 +0000
Subject: [PATCH 13/51] fix: do not kill the process evaluating sub-solar point
 and MLT

The low-level Fortran subroutines stop the whole program for years out of
their bounds (1601-2100, MLT since 1900). A single NaN or out-of-bounds time
killed the Python interpreter. The result of such times is NaN now.
---
 qdipole/eval_mlt.f90    | 11 +++++++++++
 qdipole/eval_subsol.f90 | 12 ++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e684cf9..fcea420 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -29,11 +29,13 @@
 !
 !  OUTPUT ARGUMENTS
 !    t_mlt     array of Magnetic Local Time values.
+!              NaN for epochs before 1900, after 2100 and NaN times.
 !
 !***********************************************************************
 
       subroutine eval_mlt(t_mlt, qdlon, t_mjd2k, n_data)
 
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
@@ -44,11 +46,20 @@
       real*4  epoch, epoch_limit, epoch_old
       integer  n_data, i
       integer  iyr, imon, iday, idoy, ihour, imin
+      real*8   t_min, t_max
       parameter(epoch_limit = 1./365.25)
+!     COFRM is not applicable to epochs before 1900, SUBSOL is not applicable
+!     to years after 2100 and both stop the whole program otherwise
+      parameter(t_min = -36525d0, t_max = 36890d0)
 
       epoch_old = -9999.9
 
       do i = 1, n_data
+!        Set NaN if the time is not applicable (out of bounds or NaN)
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            t_mlt(i) = ieee_value(0d0, ieee_quiet_nan)
+            cycle
+         endif
 !        The epoch is approximated by neglecting the leap years
          epoch = t_mjd2k(i) / 365.25 + 2000
 !        Reload coefficients and evaluate the dipole pole location.
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index 16b88f7..f207a1e 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -38,10 +38,12 @@
 !  OUTPUT ARGUMENTS
 !    sbsllat    array of sub-solar latitudes
 !    sbsllon    array of sub-solar longitudes
+!    Both are set to NaN for times before 1601, after 2100 and NaN times.
 !
 !***********************************************************************
 
       subroutine eval_subsol(sbsllat, sbsllon, t_mjd2k, n_data)
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
@@ -49,8 +51,18 @@
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
+      real*8        t_min, t_max
+!     SUBSOL is applicable to years from 1601 to 2100 and stops the whole
+!     program otherwise
+      parameter(t_min = -145731d0, t_max = 36890d0)
 
       do i = 1, n_data
+!        0. Set NaN if the time is not applicable (out of bounds or NaN)
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            sbsllat(i) = ieee_value(0d0, ieee_quiet_nan)
+            sbsllon(i) = ieee_value(0d0, ieee_quiet_nan)
+            cycle
+         endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
-- 
2.43.0


From 69c365da9cd35f4d68ea0c2f3e799f3a3c4d3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 14/51] fix: return NaN quasi-dipole coordinates for NaN times

The coefficients are not loaded for a NaN epoch. The coordinates were then
evaluated from the coefficients left by the previously evaluated time, or,
in case of no previous time, uninitialised values were returned.
---
 qdipole/eval_qdlatlon.f90 | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 0a6dbef..49c2485 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -65,6 +65,7 @@
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
                                n_data, coeff_file)
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8  qdlon(*), qdlat(*)
@@ -80,6 +81,12 @@
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
+!        Set NaN if the time is NaN, no epoch can be loaded
+         if (ieee_is_nan(epoch)) then
+            qdlat(i) = ieee_value(0d0, ieee_quiet_nan)
+            qdlon(i) = ieee_value(0d0, ieee_quiet_nan)
+            cycle
+         endif
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
@@ -101,6 +108,7 @@
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
         t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8  qdlon(*), qdlat(*), f11(*), f12(*), f21(*), f22(*), f(*)
@@ -116,6 +124,17 @@
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
+!        Set NaN if the time is NaN, no epoch can be loaded
+         if (ieee_is_nan(epoch)) then
+            qdlat(i) = ieee_value(0d0, ieee_quiet_nan)
+            qdlon(i) = ieee_value(0d0, ieee_quiet_nan)
+            f11(i) = ieee_value(0d0, ieee_quiet_nan)
+            f12(i) = ieee_value(0d0, ieee_quiet_nan)
+            f21(i) = ieee_value(0d0, ieee_quiet_nan)
+            f22(i) = ieee_value(0d0, ieee_quiet_nan)
+            f(i) = ieee_value(0d0, ieee_quiet_nan)
+            cycle
+         endif
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
-- 
2.43.0


From bd57c815418af0a648caacd2dbf34322e659c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 15/51] fix: check the number of the coefficients' time-series
 nodes

The interpolation of a time-series with less nodes than the spline order
read the nodes and coefficients out of their bounds.
---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3c16fdd..c737a51 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -443,6 +443,15 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
     if (_check_array_dim_eq(arr_cv, 1, PyArray_DIMS(arr_ct)[0], buffer))
         goto error;
 
+    if (PyArray_DIMS(arr_ct)[0] < spline_order)
+    {
+        PyErr_Format(
+            PyExc_ValueError, "%s[%ld].%s must have at least %d element%s!",
+            label, idx, keywords[0], spline_order, spline_order > 1 ? "s" : ""
+        );
+        goto error;
+    }
+
     snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[2]);
 
     if (_check_array_dim_eq(arr_cm, 1, 2, buffer))
-- 
2.43.0


From 3cdfd803f7693bd565269296ccb675813216c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 16/51] fix: composed model evaluation with more times than
 locations

The vectors evaluated for an array of times and a single location could not
be rotated to the geodetic or Cartesian frame as their shape did not match
the shape of the coordinates. Likewise, the empty composed model failed to
set NaN for times with less dimensions than the locations.
---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 479e6a8..8630c37 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -33,6 +33,7 @@ from .._pymm import (
     convert, vrot_sph2geod, vrot_sph2cart,
 )
 from .model import GeomagneticModel
+from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
@@ -81,8 +82,10 @@ class ComposedGeomagneticModel(GeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
-        time = asarray(time)
-        location = asarray(location)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
 
         # convert input coordinates to spherical coordinates
         coord_sph = convert(
@@ -102,10 +105,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
                 args.update(params)
                 result += model.eval(time, coord_sph, scale=scale, **args)
         else:
-            result = zeros(
-                (*time.shape, 3) if time.ndim > (location.ndim - 1) else
-                location.shape
-            )
+            result = zeros(location.shape)
             result[isnan(time), :] = nan
 
         # rotate result to the desired coordinate frame
-- 
2.43.0


From f5d9d6fc6d20c8e219d94081128c89f29ae0766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 17/51] fix: sheval2dfs coefficient set parsing errors and
 memory leak

The failed parsing of the coefficient set was ignored and the evaluation
continued with an empty one. The array of coefficient offsets was never
released.
---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fb330da..58d23b4 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -244,7 +244,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // parse coefficient set
-    _f2d_coefset_parse(&coefset, keywords[3], obj_coef_set);
+    if (_f2d_coefset_parse(&coefset, keywords[3], obj_coef_set))
+        goto exit;
 
     degree = coefset.degree;
 
@@ -590,6 +591,9 @@ static void _f2d_coefset_reset(FOURIER_2D_COEF_SET *coefset)
 
 static void _f2d_coefset_destroy(FOURIER_2D_COEF_SET *coefset)
 {
+    if (NULL != coefset->offset)
+        free(coefset->offset);
+
     if (coefset->arr_ab) Py_DECREF(coefset->arr_ab);
     if (coefset->arr_cm) Py_DECREF(coefset->arr_cm);
 
-- 
2.43.0


From e0a74a606692c92fbc8dc038eff1960801e2c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 18/51] fix: out of bounds write of the degree 0 Legendre
 functions

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2a79476..4b190a2 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -104,10 +104,14 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     // with respect to the elevation (latitude) instead of the
     // inclination (co-latitude).
     lp[0] = 1.0;
+    ldp[0] = 0.0 ;
+
+    if (degree < 1)
+        return;
+
     lp[1] = sin_elv ;
     lp[2] = cos_elv;
 
-    ldp[0] = 0.0 ;
     ldp[1] = cos_elv;
     ldp[2] = -sin_elv;
 
-- 
2.43.0


From 314d30f678e9f8a70414313ee70a6af0c8504b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 19/51] fix: minimum degree of the MIO primary field model

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index d7d22ee..7c1ab50 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -58,7 +58,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
     @property
     def min_degree(self):
         """ Get minimum degree of the model. """
-        return max(
+        return min(
             self.model_below_ionosphere.min_degree,
             self.model_above_ionosphere.min_degree
         )
-- 
2.43.0


From 5d4be4ebeebdf47d8759edb78a0607bd0637d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:26 +0000
Subject: [PATCH 20/51] fix: MIO model evaluation with times not matching the
 locations

The MIO models failed if the times and locations, or the time and F10.7
index values, had a different number of dimensions.
---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 7c1ab50..34e19cb 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -74,7 +74,11 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
-        time = asarray(time)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
+
         location = convert(
             location, input_coordinate_system, GEOCENTRIC_SPHERICAL
         )
@@ -177,6 +181,9 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
 
         start, end = self.validity
         mask = (time >= start) & (time <= end) & mask
+        if mask.ndim > time.ndim:
+            # single time, multiple F10.7 index values
+            time = full(mask.shape, time)
         result = full(location.shape, nan)
         result[mask, :] = self._eval(
             self._eval_fourier2d, self.coefficients,
-- 
2.43.0


From 549004dce7f89d8e910e0fa036c9d29d643f8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:39 +0000
Subject: [PATCH 21/51] fix: MIO options with less dimensions than the
 locations

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 34e19cb..b38ea9c 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 # pylint: disable=too-many-arguments
 
-from numpy import nan, asarray, empty, isnan, full
+from numpy import nan, asarray, empty, isnan, full, newaxis
 from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, convert, sheval2dfs
 from ..magnetic_time import mjd2000_to_magnetic_universal_time
 from .coefficients_mio import SparseSHCoefficientsMIO
@@ -94,7 +94,10 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
             def _mask_option(key):
                 data = options.get(key)
                 if data is not None:
-                    options[key] = mask_array(asarray(data), mask)
+                    data = asarray(data)
+                    if 0 < data.ndim < mask.ndim:
+                        data = reshape_array(mask.shape, data)
+                    options[key] = mask_array(data, mask)
 
             _mask_option('f107')
             _mask_option('lat_sol')
@@ -164,6 +167,8 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
                 return None
             data = asarray(data)
             if data.ndim > 0:
+                if data.ndim < mask.ndim:
+                    data = reshape_array(mask.shape, data)
                 return data[mask]
             return data
 
@@ -177,6 +182,8 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
         mio_scale = options.pop('f107', None)
         if mio_scale is not None:
             mio_scale = 1.0 + self.wolf_ratio * asarray(mio_scale)
+            if mio_scale.ndim > 0:
+                mio_scale = reshape_array(location.shape[:-1], mio_scale)
             mask = ~isnan(mio_scale)
 
         start, end = self.validity
@@ -195,9 +202,7 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
         )
 
         if mio_scale is not None:
-            if mio_scale.ndim > 0:
-                mio_scale = reshape_array(location.shape, mio_scale)
-            result *= mio_scale
+            result *= mio_scale[..., newaxis]
 
         return result
 
-- 
2.43.0


From 6d7a8952a7ec300c115e23ad4675489689f52245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 22/51] fix: first matching sets at the boundaries shared in
 combined coefficients

---
 .../eoxmagmod/magnetic_model/coefficients.py  | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index bd6c69a..176dad9 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -27,14 +27,14 @@
 #-------------------------------------------------------------------------------
 # pylint: disable=too-few-public-methods,abstract-method
 
+from itertools import product
 from numpy import (
     inf, asarray, zeros, ones, argsort, abs as aabs, stack,
 )
 from ..time_util import decimal_year_to_mjd2000, mjd2000_to_decimal_year
 from .._pymm import interp, INTERP_C0, INTERP_C1
 from .util import (
-    get_nonoverlapping_intervals, aggregate_intersected_intervals,
-    coeff_size, convert_value,
+    get_nonoverlapping_intervals, coeff_size, convert_value,
 )
 
 __all__ = [
@@ -117,9 +117,16 @@ class ComposedSHCoefficients(SHCoefficients):
             intervals.extend(item.decompose())
         # keep the order of the composed sets - the first matching set applies
         # also at the boundary shared by two sets
-        order = {id(item): idx for idx, (_, item) in enumerate(intervals)}
+        order = {}
+        for idx, (_, item) in enumerate(intervals):
+            order.setdefault(id(item), idx)
+        # sets valid in a single time instant
+        instants = [
+            ((start, end), item) for (start, end), item in intervals
+            if start == end
+        ]
         return sorted(
-            get_nonoverlapping_intervals(intervals),
+            [*get_nonoverlapping_intervals(intervals), *instants],
             key=lambda component: order[id(component[1])]
         )
 
@@ -241,15 +248,17 @@ class CombinedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
-        aggergates = None
-        for item in self:
-            aggergates = aggregate_intersected_intervals(
-                sorted(item.decompose(), key=lambda component: component[0]),
-                aggergates
-            )
+        # keep the order of the composed sets - the first matching sets apply
+        # also at the boundaries shared by multiple sets
         result = []
-        for validity, items in aggergates:
-            result.append((validity, CombinedSHCoefficients(*items)))
+        for components in product(*(item.decompose() for item in self)):
+            start = max(start for (start, _), _ in components)
+            end = min(end for (_, end), _ in components)
+            if start <= end:
+                result.append((
+                    (start, end),
+                    CombinedSHCoefficients(*(item for _, item in components))
+                ))
         return result
 
     @property
-- 
2.43.0


From 1a075af7e2c28eb263b6337f0660273faa8849f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 23/51] fix: evaluation of combinations of more than 16
 coefficient sets

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index 9e0f101..bb892ba 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -44,6 +44,9 @@ __all__ = [
     "DipoleSphericalHarmomicGeomagneticModel",
 ]
 
+# maximum number of the coefficients sets accepted by shevaltemp
+MAX_INTERPOLATED_SETS = 16
+
 
 def _have_common_terms(coeff_sets):
     """ Return True if any two coefficient sets share a common term. """
@@ -110,6 +113,11 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
                 # coefficient cannot be extracted - falling back to the default
                 return self._eval_default
 
+            if len(coeff_sets) > MAX_INTERPOLATED_SETS:
+                # too many sets for the optimized evaluation - falling back
+                # to the default
+                return self._eval_default
+
             if _have_common_terms(coeff_sets):
                 # The coefficients of the common terms are not summed by
                 # the optimized evaluation - falling back to the default
-- 
2.43.0


From c957bd1a4ecdf6f36c41cb99cad1d490a0f17ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 24/51] fix: refuse sheval coordinates not being 3D vectors

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 5dba42e..59834f6 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -195,6 +195,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
+    // check the last dimension of the coordinates array
+    if (_check_array_dim_eq(arr_x, -1, 3, keywords[0]))
+        goto exit;
+
     // extract degree from the array dimensions
     { 
         const int ndegrees = 1;
-- 
2.43.0


From 8f2d6e0691464b27e7fa38429d3b2cc65c948aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:39 +0000
Subject: [PATCH 25/51] fix: do not crash when refusing sheval gradient scale
 of a wrong shape

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 59834f6..5ae520b 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -299,10 +299,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     // handle the gradient scale factors
     if (NULL != obj_scale)
     {
-        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[9])))
+        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[8])))
             goto exit;
 
-        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[9]))
+        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[8]))
             goto exit;
     }
 
-- 
2.43.0


From 6c27e51e82469566879bf10b88f166434050312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 26/51] fix: broadcasting of sub-solar latitudes and longitudes

---
 eoxmagmod/eoxmagmod/magnetic_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_time.py b/eoxmagmod/eoxmagmod/magnetic_time.py
index 967297f..d36fada 100644
--- a/eoxmagmod/eoxmagmod/magnetic_time.py
+++ b/eoxmagmod/eoxmagmod/magnetic_time.py
@@ -70,6 +70,6 @@ def _mjd2000_to_magnetic_universal_time(mjd2000, lat_ngp, lon_ngp,
 
     tmp_y = cos(latr_sol)
     tmp_x = sin(latr_ngp)*tmp_y*cos(dif_lonr) - cos(latr_ngp)*sin(latr_sol)
-    tmp_y *= sin(dif_lonr)
+    tmp_y = tmp_y*sin(dif_lonr)
 
     return RAD2HOUR * (pi - arctan2(tmp_y, tmp_x))
-- 
2.43.0


From 71b7ef646bd8ef5bdee42d949d96ae8851cdb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:09 +0000
Subject: [PATCH 27/51] fix: broadcasting of the sub-solar point and F10.7
 options of the MIO models

---
 .../eoxmagmod/magnetic_model/model_mio.py     | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index b38ea9c..8329cd5 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -95,7 +95,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
                 data = options.get(key)
                 if data is not None:
                     data = asarray(data)
-                    if 0 < data.ndim < mask.ndim:
+                    if data.ndim > 0:
                         data = reshape_array(mask.shape, data)
                     options[key] = mask_array(data, mask)
 
@@ -162,16 +162,17 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
-        def _subset(data, mask):
+        def _reshape(data):
             if data is None:
                 return None
             data = asarray(data)
             if data.ndim > 0:
-                if data.ndim < mask.ndim:
-                    data = reshape_array(mask.shape, data)
-                return data[mask]
+                data = reshape_array(location.shape[:-1], data)
             return data
 
+        def _subset(data):
+            return None if data is None else mask_array(data, mask)
+
         # reshape time and location to a compatible shape
         time, location = reshape_times_and_coordinates(
             asarray(time), asarray(location)
@@ -186,18 +187,25 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
                 mio_scale = reshape_array(location.shape[:-1], mio_scale)
             mask = ~isnan(mio_scale)
 
+        lat_sol = _reshape(options.pop('lat_sol', None))
+        lon_sol = _reshape(options.pop('lon_sol', None))
+
         start, end = self.validity
         mask = (time >= start) & (time <= end) & mask
-        if mask.ndim > time.ndim:
-            # single time, multiple F10.7 index values
-            time = full(mask.shape, time)
+        if time.ndim == 0 and any(
+            data is not None and data.ndim > 0
+            for data in (mask, lat_sol, lon_sol)
+        ):
+            # single time, multiple F10.7 index values or sub-solar points
+            time = full(location.shape[:-1], time)
+            mask = full(location.shape[:-1], mask)
         result = full(location.shape, nan)
         result[mask, :] = self._eval(
             self._eval_fourier2d, self.coefficients,
             time[mask], location[mask, :],
             input_coordinate_system, output_coordinate_system,
-            lat_sol=_subset(options.pop('lat_sol', None), mask),
-            lon_sol=_subset(options.pop('lon_sol', None), mask),
+            lat_sol=_subset(lat_sol),
+            lon_sol=_subset(lon_sol),
             **options,
         )
 
-- 
2.43.0


From 2143b5b5728167eefa33898e05600c3f9476cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 28/51] fix: load the requested epoch for the first time being
 -9999.9

---
 qdipole/eval_qdlatlon.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 49c2485..0cae879 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -76,7 +76,7 @@
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 0)
 
-      epoch_old = -9999.9
+      epoch_old = ieee_value(epoch_old, ieee_quiet_nan)
 
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
@@ -87,7 +87,7 @@
             qdlon(i) = ieee_value(0d0, ieee_quiet_nan)
             cycle
          endif
-         if (abs(epoch - epoch_old) .gt. epoch_limit) then
+         if (.not. (abs(epoch - epoch_old) .le. epoch_limit)) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
          endif
@@ -119,7 +119,7 @@
       character*256 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
-      epoch_old = -9999.9
+      epoch_old = ieee_value(epoch_old, ieee_quiet_nan)
 
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
@@ -135,7 +135,7 @@
             f(i) = ieee_value(0d0, ieee_quiet_nan)
             cycle
          endif
-         if (abs(epoch - epoch_old) .gt. epoch_limit) then
+         if (.not. (abs(epoch - epoch_old) .le. epoch_limit)) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
          endif
-- 
2.43.0


From 35cb84fee3f822af625240e37d897f4918966724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:16 +0000
Subject: [PATCH 29/51] fix: quasi-dipole coordinates at the altitude of -999
 km

---
 qdipole/apexsh.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 09099df..91b5d2a 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -160,6 +160,7 @@
 
      subroutine loadapxsh(datafilenew,epochnew)
 
+    use, intrinsic :: ieee_arithmetic
     use apxshmodule
 
     implicit none
@@ -204,8 +205,8 @@
         gcoeff0(iterm,icoord)= we0*coeff0(iterm,iepoch0,icoord+3)+we1*coeff0(iterm,iepoch1,icoord+3)
       enddo
       enddo
-      altlastq = -999.0
-      altlastg = -999.0
+      altlastq = ieee_value(altlastq, ieee_quiet_nan)
+      altlastg = ieee_value(altlastg, ieee_quiet_nan)
     endif
 
     !UPDATE LOAD VARIABLES
-- 
2.43.0


From 0828293e7e7305b3e3f0408e515adeb2b4eca277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 30/51] fix: raise exception for corrupted quasi-dipole
 coefficient files

---
 qdipole/apexsh.f90        | 28 ++++++++++++++++++++++------
 qdipole/cqdipole.c        | 14 ++++++++------
 qdipole/eval_qdlatlon.f90 | 18 ++++++++++++------
 3 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 91b5d2a..6624563 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -18,12 +18,16 @@
 !  Loads spherical harmonic coefficients (created by MAKEAPXSH) for coordinate conversions. Must be
 !  run before calling the conversion routines.
 !
-!  CALL LOADAPXSH (DATAFILE, EPOCH)
+!  CALL LOADAPXSH (DATAFILE, EPOCH, IERR)
 !
 !  INPUT ARGUMENTS
 !    DATAFILE  Name of data file, generated by MAKEAPXSH, containing the conversion coefficients
 !    EPOCH     Date for which coordinates are desired (decimal years, yyyy.y, single precision)
 !
+!  OUTPUT ARGUMENTS
+!    IERR      Zero if the coefficients have been loaded, nonzero if the file cannot be read or is
+!              corrupted (4-byte integer)
+!
 !***************************************************************************************************
 !
 !  APXG2Q
@@ -158,7 +162,7 @@
 
 !***************************************************************************************************
 
-     subroutine loadapxsh(datafilenew,epochnew)
+     subroutine loadapxsh(datafilenew,epochnew,ierr)
 
     use, intrinsic :: ieee_arithmetic
     use apxshmodule
@@ -169,16 +173,28 @@
     real(4)                     :: epochnew, epochlast=-999.0
     real(8)                     :: we0, we1
     integer(4)                  :: iepoch0, iepoch1, iterm, icoord
+    integer(4)                  :: ierr
 
     !CHECK FILE, GET DIMENSIONS, AND ALLOCATE ARRAYS
     if ((datafilenew .ne. datafilelast) .or. (loadflag)) then
       datafile = datafilenew
-      open(unit=23,file=trim(datafile),status='old',form='formatted')
-      read(23,*) nepoch, nmax, mmax, lmax, nterm
-      call allocatearrays
-      read(23,*) epochgrid, coeff0
+      loadflag = .true.
+      open(unit=23,file=trim(datafile),status='old',form='formatted',iostat=ierr)
+      if (ierr .ne. 0) return
+      read(23,*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
+      if (ierr .eq. 0) then
+        !INVALID DIMENSIONS
+        if ((nepoch .lt. 1) .or. (mmax .lt. 1) .or. (nmax .lt. mmax) .or. (lmax .lt. 0) .or. &
+            (nterm .ne. (lmax+1)*(mmax*(2*nmax-mmax+1)+nmax+1))) ierr = -1
+      endif
+      if (ierr .eq. 0) then
+        call allocatearrays
+        read(23,*,iostat=ierr) epochgrid, coeff0
+      endif
       close(23)
+      if (ierr .ne. 0) return
     endif
+    ierr = 0
     
     !LOAD COEFFICIENTS AND INTEPOLATE TO SELECTED EPOCH
     if ((epochnew .ne. epochlast) .or. (datafilenew .ne. datafilelast) .or.(loadflag)) then
diff --git a/qdipole/cqdipole.c b/qdipole/cqdipole.c
index b723669..f0204ad 100644
--- a/qdipole/cqdipole.c
+++ b/qdipole/cqdipole.c
@@ -91,7 +91,7 @@ int c_eval_subsol(double *sbsllat, double *sbsllon, const double *time_mjd2k,
 
 
 void eval_qdlatlon_(double*, double*, const double*, const double*,
-                    const double*, const double*, const int*, const char*);
+                    const double*, const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlon(
      double *qdlat, double *qdlon, const double *time_dy, const double *gcrad,
@@ -100,19 +100,20 @@ int c_eval_qdlatlon(
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
     char filename[MAX_PATH_LENGTH + 1];
+    int status = 0;
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
-    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename);
+    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename, &status);
 
-    return 0;
+    return status;
 }
 
 
 void eval_qdlatlonvb_(double*, double*, double*, double*, double*, double*,
                       double*, const double*, const double*, const double*,
-                      const double*, const int*, const char*);
+                      const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlonvb(
      double *qdlat, double *qdlon, double *f11, double *f12, double *f21,
@@ -122,12 +123,13 @@ int c_eval_qdlatlonvb(
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
     char filename[MAX_PATH_LENGTH + 1];
+    int status = 0;
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
     eval_qdlatlonvb_(qdlat, qdlon, f11, f12, f21, f22, f,
-                     time_dy, gcrad, gclat, gclon, &n_data, filename);
+                     time_dy, gcrad, gclat, gclon, &n_data, filename, &status);
 
-    return 0;
+    return status;
 }
diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 0cae879..490a127 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -34,6 +34,7 @@
 !  OUTPUT ARGUMENTS
 !    qdlat     array of Quasi-Dipole latitudes
 !    qdlon     array of Quasi-Dipole longitudes
+!    ierr      0 or error code if the coefficients cannot be loaded
 !
 !***********************************************************************
 !
@@ -60,11 +61,12 @@
 !    f21,f22   arrays of components of the Quasi-Dipole coordinate
 !               base vectors F2 (northward).
 !    f         array of F = |F1 x F2| (see apexsh.f90)
+!    ierr      0 or error code if the coefficients cannot be loaded
 !
 !***********************************************************************
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
-                               n_data, coeff_file)
+                               n_data, coeff_file, ierr)
       use, intrinsic :: ieee_arithmetic
       implicit none
 
@@ -72,10 +74,11 @@
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, i, ierr
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 0)
 
+      ierr = 0
       epoch_old = ieee_value(epoch_old, ieee_quiet_nan)
 
       do i = 1, n_data
@@ -88,7 +91,8 @@
             cycle
          endif
          if (.not. (abs(epoch - epoch_old) .le. epoch_limit)) then
-            call loadapxsh(coeff_file, epoch)
+            call loadapxsh(coeff_file, epoch, ierr)
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
@@ -107,7 +111,7 @@
 !***********************************************************************
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
-        t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+        t_dy, gcrad, gclat, gclon, n_data, coeff_file, ierr)
       use, intrinsic :: ieee_arithmetic
       implicit none
 
@@ -115,10 +119,11 @@
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, i, ierr
       character*256 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
+      ierr = 0
       epoch_old = ieee_value(epoch_old, ieee_quiet_nan)
 
       do i = 1, n_data
@@ -136,7 +141,8 @@
             cycle
          endif
          if (.not. (abs(epoch - epoch_old) .le. epoch_limit)) then
-            call loadapxsh(coeff_file, epoch)
+            call loadapxsh(coeff_file, epoch, ierr)
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
-- 
2.43.0


From ccb4d36ae5b5b5e4087ea98dc633c245c7d69ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 31/51] fix: wrap magnetic local times of quasi-dipole
 longitudes out of the -180 to 180 degrees range

---
 qdipole/eval_mlt.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index fcea420..4ed06b0 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -82,7 +82,8 @@
 !        5. Evaluate magnetic local time
          qdlon4 = qdlon(i)
          call magloctm(qdlon4, sbsllat, sbsllon, dp_colat, dp_elon, t_mlt4)
-         t_mlt(i) = t_mlt4
+!        6. Wrap the magnetic local time to the 0-24 hours range
+         t_mlt(i) = modulo(dble(t_mlt4), 24d0)
       enddo
 
       return
-- 
2.43.0


From 228d9efe53ecbb2d435522d0bbe0f9e2f6e40124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:12 +0000
Subject: [PATCH 32/51] fix: sub-solar point and magnetic local time just
 before midnight

---
 qdipole/eval_mlt.f90    | 9 ++++++---
 qdipole/eval_subsol.f90 | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index 4ed06b0..d89d344 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -39,7 +39,7 @@
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
-      real*8  t_0, sec
+      real*8  t_0, t_day, sec
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
@@ -72,10 +72,13 @@
 
 !        1. Ccalculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
-!        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
+!        2. Calculate mjd = nint(t_day) of the civil date (the next day for times
+!           rounded up to midnight) and mjd = nint(t_0) of first day of year 'iyr'
+         call tmjd(iyr, imon, iday, 0, 0, 0.d0, t_day, 1)
+         iyr = min(iyr, 2100)
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = nint(t_day) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index f207a1e..d9df886 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -47,7 +47,7 @@
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
-      real*8        t_0, sec
+      real*8        t_0, t_day, sec
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
@@ -65,10 +65,13 @@
          endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
-!        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
+!        2. Calculate mjd = nint(t_day) of the civil date (the next day for times
+!           rounded up to midnight) and mjd = nint(t_0) of first day of year 'iyr'
+         call tmjd(iyr, imon, iday, 0, 0, 0.d0, t_day, 1)
+         iyr = min(iyr, 2100)
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = nint(t_day) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From c750bb7436c3ceeaa217cecd698856617d23c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 33/51] fix: refuse SHC files with missing times or values,
 skip comments and blank lines

---
 .../eoxmagmod/magnetic_model/parser_shc.py    | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
index dc89fd8..d7d2b07 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
@@ -36,7 +36,7 @@ def parse_shc_file(file_in):
     """
     lines = _strip_shc_comments(file_in)
     data = _parse_shc_header(lines)
-    data["nm"], data["gh"] = _parse_shc_coefficients(lines)
+    data["nm"], data["gh"] = _parse_shc_coefficients(lines, data["ntime"])
     return data
 
 
@@ -49,8 +49,16 @@ def parse_shc_header(file_in):
 
 
 def _parse_shc_header(lines):
-    data = _parse_shc_header_line(next(lines))
-    data["t"] = times = _parse_shc_times(next(lines))
+    try:
+        data = _parse_shc_header_line(next(lines))
+        data["t"] = times = _parse_shc_times(next(lines))
+    except StopIteration:
+        raise ValueError("Incomplete file header!") from None
+    if times.size != data["ntime"]:
+        raise ValueError(
+            "The number of times does not match the file header "
+            f"({times.size} vs. {data['ntime']})!"
+        )
     if "validity_start" not in data:
         data["validity_start"] = times.min() if times.size > 1 else -inf
     if "validity_end" not in data:
@@ -58,12 +66,14 @@ def _parse_shc_header(lines):
     return data
 
 
-def _parse_shc_coefficients(lines):
+def _parse_shc_coefficients(lines, ntime):
     """ Parse SHC coefficients. """
     nm_index = []
     coefficients = []
     for line in lines:
         fields = line.split()
+        if len(fields) != ntime + 2:
+            raise ValueError(f"Invalid number of coefficients! {line!r}")
         nm_index.append([int(v) for v in fields[:2]])
         coefficients.append([float(v) for v in fields[2:]])
     return array(nm_index), array(coefficients)
@@ -91,12 +101,8 @@ def _parse_shc_header_line(line):
 
 
 def _strip_shc_comments(file_in):
-    """ Strip initial comments and empty lines from a text file stream. """
+    """ Strip comments and empty lines from a text file stream. """
     for line in file_in:
         line = line.partition("#")[0].strip()
         if line:
             yield line
-            break
-    for line in file_in:
-        line = line.strip()
-        yield line
-- 
2.43.0


From 60bc63eb4f7023082fdde7e1d9a5e2cc11b73f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 34/51] fix: refuse coefficients of impossible degree and order

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 176dad9..083a55d 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -365,6 +365,8 @@ class SparseSHCoefficients(SHCoefficients):
     def __init__(self, indices, coefficients, **kwargs):
         SHCoefficients.__init__(self, **kwargs)
         n_idx, m_idx = indices[..., 0], indices[..., 1]
+        if (aabs(m_idx) > n_idx).any():
+            raise ValueError("Invalid degree or order of the coefficients!")
         self._degree = n_idx.max()
         self._min_degree = n_idx.min()
         self._nm = indices.astype('int32')
-- 
2.43.0


From e788bcab944e396e45c5d527628d6b63521e614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 35/51] fix: refuse IGRF coefficients of unknown label and
 files without header

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py | 15 ++++++++-------
 eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py  |  5 ++++-
 eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py  |  5 ++++-
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
index f71bbd4..9557e5a 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
@@ -40,8 +40,11 @@ def parse_igrf_file(file_in):
     """
     lines = strip_igrf_comments(file_in)
     data = {}
-    data["labels"] = parse_igrf_header(next(lines))
-    data["t"] = parse_igrf_times(next(lines))
+    try:
+        data["labels"] = parse_igrf_header(next(lines))
+        data["t"] = parse_igrf_times(next(lines))
+    except StopIteration:
+        raise ValueError("Incomplete file header!") from None
     data["nm"], data["gh"] = parse_igrf_coefficients(lines)
     data["degree_min"] = data["nm"][:, 0].min()
     data["degree_max"] = data["nm"][:, 0].max()
@@ -57,6 +60,8 @@ def parse_igrf_coefficients(lines):
         label, n_idx, m_idx = fields[0], int(fields[1]), int(fields[2])
         if label == "h":
             m_idx = -m_idx
+        elif label != "g":
+            raise ValueError(f"Invalid coefficient label! {line!r}")
         nm_idx.append((n_idx, m_idx))
         coeff.append([float(v) for v in fields[3:]])
     coeff = array(coeff)
@@ -77,12 +82,8 @@ def parse_igrf_header(line):
 
 
 def strip_igrf_comments(file_in):
-    """ Strip initial comments and empty lines from a text file stream. """
+    """ Strip comments and empty lines from a text file stream. """
     for line in file_in:
         line = line.partition("#")[0].strip()
         if line:
             yield line
-            break
-    for line in file_in:
-        line = line.strip()
-        yield line
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
index ce3b310..080f390 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
@@ -37,7 +37,10 @@ def parse_swarm_mio_file(file_in):
     containing the parsed model data.
     """
     lines = _strip_shc_comments(file_in)
-    data = parse_swarm_mio_header(next(lines))
+    try:
+        data = parse_swarm_mio_header(next(lines))
+    except StopIteration:
+        raise ValueError("Missing file header!") from None
     data["nm"], data["qs"], data["gh"] = parse_swarm_mio_coefficients(lines, data)
     data["degree_min"] = data["nm"][:, 0].min()
     data["degree_max"] = data["nm"][:, 0].max()
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py
index b800e15..9895cc0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py
@@ -40,7 +40,10 @@ def parse_wmm_file(file_in):
     containing the parsed model data.
     """
     lines = file_in
-    data = parse_wmm_header(next(lines))
+    try:
+        data = parse_wmm_header(next(lines))
+    except StopIteration:
+        raise ValueError("Missing file header!") from None
     data["nm"], data["gh"], data["t"] = parse_wmm_coefficients(lines, data)
     data["degree_min"] = data["nm"][:, 0].min()
     data["degree_max"] = data["nm"][:, 0].max()
-- 
2.43.0


From e50f4ac13bcbb0920d9dbe54c3f7074a6d138f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:09 +0000
Subject: [PATCH 36/51] fix: refuse MIO files with an odd number of coefficient
 lines

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
index 080f390..6e8402e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
@@ -67,7 +67,7 @@ def parse_swarm_mio_coefficients(lines, data):
 
     # split internal and external coefficients
     size = nm_idx.shape[0] >> 1
-    if (nm_idx[:size] != nm_idx[size:]).any():
+    if nm_idx.shape[0] != 2*size or (nm_idx[:size] != nm_idx[size:]).any():
         raise ValueError("Mismatch between the QS and HG coefficients!")
 
     return nm_idx[:size], coeff[:size], coeff[size:]
-- 
2.43.0


From f65b682db03c33756551287365530fd04f8b6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:00 +0000
Subject: [PATCH 37/51] fix: interpolation of repeated nodes at the end of a
 time-series

---
 eoxmagmod/eoxmagmod/include/interpolation.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/include/interpolation.h b/eoxmagmod/eoxmagmod/include/interpolation.h
index b904dec..72e34ee 100644
--- a/eoxmagmod/eoxmagmod/include/interpolation.h
+++ b/eoxmagmod/eoxmagmod/include/interpolation.h
@@ -93,6 +93,7 @@ static INTERP_BASIS get_interp1_basis (const double x, const double *v, const si
 {
     ptrdiff_t idx0 = bisect_right(x, v, n);
     ptrdiff_t idx = CLIP(idx0, 0, n-2);
+    while (idx > 0 && v[idx] == v[idx+1]) --idx; // avoid zero-length interval
     double alpha = (x - v[idx]) / (v[idx+1] - v[idx]);
 
     INTERP_BASIS basis = {idx0, idx, 2, {1.0 - alpha, alpha}};
@@ -116,6 +117,7 @@ static INTERP_BASIS get_interp1d1_basis (const double x, const double *v, const
 {
     ptrdiff_t idx0 = bisect_right(x, v, n);
     ptrdiff_t idx = CLIP(idx0, 0, n-2);
+    while (idx > 0 && v[idx] == v[idx+1]) --idx; // avoid zero-length interval
     double alpha = 1.0 / (v[idx+1] - v[idx]);
 
     INTERP_BASIS basis = {idx0, idx, 2, {-alpha, alpha}};
-- 
2.43.0


From 84429476e81b8d811d65ac1eca2665edce8ee37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:30 +0000
Subject: [PATCH 38/51] fix: vector norm of integer and single precision
 vectors

---
 eoxmagmod/eoxmagmod/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index aee6e8f..29ea2ff 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -85,7 +85,7 @@ def vnorm(arr):
     """ Calculate norm for each vector form an input array of vectors:
         |v| = sqrt(dot(v, v))
     """
-    arr = asarray(arr)
+    arr = asarray(arr).astype("float64", casting="safe", copy=False)
     return sqrt((arr*arr).sum(axis=arr.ndim-1))
 
 
-- 
2.43.0


From 1fd45f854b140c4dc3fbaf93d7c2f37735da3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:30 +0000
Subject: [PATCH 39/51] fix: integer and single precision scales and F10.7
 indices of the models

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py     | 4 ++--
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index bb892ba..5ec8491 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -204,7 +204,7 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             coord_type_out=output_coordinate_system,
             mode=GRADIENT,
             is_internal=coefficients.is_internal,
-            scale_gradient=-asarray(options.get("scale", 1.0)),
+            scale_gradient=-asarray(options.get("scale", 1.0)).astype("float64", casting="safe"),
         )
 
     def _eval_default(self, coefficients, time, location,
@@ -255,7 +255,7 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             mode=GRADIENT, degree=degree, is_internal=coefficients.is_internal,
             coord_type_in=input_coordinate_system,
             coord_type_out=output_coordinate_system,
-            scale_gradient=-asarray(options.get("scale", 1.0))
+            scale_gradient=-asarray(options.get("scale", 1.0)).astype("float64", casting="safe")
         )
 
 
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 8329cd5..211e0ec 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -182,7 +182,7 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
         mask = True
         mio_scale = options.pop('f107', None)
         if mio_scale is not None:
-            mio_scale = 1.0 + self.wolf_ratio * asarray(mio_scale)
+            mio_scale = 1.0 + self.wolf_ratio * asarray(mio_scale).astype("float64", casting="safe")
             if mio_scale.ndim > 0:
                 mio_scale = reshape_array(location.shape[:-1], mio_scale)
             mask = ~isnan(mio_scale)
@@ -234,5 +234,5 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
             coord_type_out=output_coordinate_system,
             mode=GRADIENT,
             is_internal=coefficients.is_internal,
-            scale_gradient=-asarray(options.get("scale", 1.0)),
+            scale_gradient=-asarray(options.get("scale", 1.0)).astype("float64", casting="safe"),
         )
-- 
2.43.0


From 7a5acf607119f2e7954c5421db2788a1e2a0b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:30 +0000
Subject: [PATCH 40/51] fix: lists and single precision values of the sub-solar
 point and the dipole pole

---
 eoxmagmod/eoxmagmod/dipole_coords.py | 4 +++-
 eoxmagmod/eoxmagmod/magnetic_time.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/dipole_coords.py b/eoxmagmod/eoxmagmod/dipole_coords.py
index ad22b73..f580e29 100644
--- a/eoxmagmod/eoxmagmod/dipole_coords.py
+++ b/eoxmagmod/eoxmagmod/dipole_coords.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 
 from math import pi, sin, cos
-from numpy import array, dot
+from numpy import array, asarray, dot
 from eoxmagmod._pymm import (
     convert, vrot_sph2cart, vrot_cart2sph,
     GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
@@ -45,6 +45,8 @@ DEG2RAD = pi / 180.0
 def get_dipole_rotation_matrix(latitude, longitude):
     """ Get rotation matrix for given north pole coordinates.
     """
+    latitude = asarray(latitude).astype("float64", casting="safe")
+    longitude = asarray(longitude).astype("float64", casting="safe")
     sin_lat, cos_lat = sin(DEG2RAD*latitude), cos(DEG2RAD*latitude)
     sin_lon, cos_lon = sin(DEG2RAD*longitude), cos(DEG2RAD*longitude)
     return array([
diff --git a/eoxmagmod/eoxmagmod/magnetic_time.py b/eoxmagmod/eoxmagmod/magnetic_time.py
index d36fada..79f45af 100644
--- a/eoxmagmod/eoxmagmod/magnetic_time.py
+++ b/eoxmagmod/eoxmagmod/magnetic_time.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 
 from math import pi
-from numpy import sin, cos, arctan2
+from numpy import asarray, sin, cos, arctan2
 from .solar_position import sunpos
 
 __all__ = ["mjd2000_to_magnetic_universal_time"]
@@ -64,8 +64,10 @@ def get_subsol(mjd2000):
 
 def _mjd2000_to_magnetic_universal_time(mjd2000, lat_ngp, lon_ngp,
                                         lat_sol, lon_sol):
+    lat_sol = asarray(lat_sol).astype("float64", casting="safe")
+    lon_sol = asarray(lon_sol).astype("float64", casting="safe")
     latr_sol = DEG2RAD * lat_sol
-    latr_ngp = DEG2RAD * lat_ngp
+    latr_ngp = DEG2RAD * asarray(lat_ngp).astype("float64", casting="safe")
     dif_lonr = DEG2RAD * (lon_sol - lon_ngp)
 
     tmp_y = cos(latr_sol)
-- 
2.43.0


From b6d4ec02f625e0fdc191a87a34e15c5011bd80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:49 +0000
Subject: [PATCH 41/51] fix: single precision times and small integer
 coordinates of simple conversions and vector rotations

---
 eoxmagmod/eoxmagmod/time_util.py |  6 +++---
 eoxmagmod/eoxmagmod/util.py      | 10 ++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/time_util.py b/eoxmagmod/eoxmagmod/time_util.py
index 721d01b..935e2f3 100644
--- a/eoxmagmod/eoxmagmod/time_util.py
+++ b/eoxmagmod/eoxmagmod/time_util.py
@@ -52,7 +52,7 @@ def mjd2000_to_decimal_year_simple(mjd2000):
     using the simplified conversion method:
         decimal_year = 2000.0 + mjd2000/365.25
     """
-    return 2000.0 + asarray(mjd2000) / 365.25
+    return 2000.0 + asarray(mjd2000).astype("float64", casting="safe") / 365.25
 
 
 def mjd2000_to_year_fraction_simple(mjd2000):
@@ -60,7 +60,7 @@ def mjd2000_to_year_fraction_simple(mjd2000):
     using the simplified conversion method:
         year_fraction = mjd2000/365.25 - floor(mjd2000/365.25)
     """
-    mjy2000 = asarray(mjd2000) / 365.25
+    mjy2000 = asarray(mjd2000).astype("float64", casting="safe") / 365.25
     return mjy2000 - floor(mjy2000)
 
 
@@ -69,7 +69,7 @@ def decimal_year_to_mjd2000_simple(decimal_year):
     using the simplified conversion method:
         mjd2000 = (decimal_year - 2000.0) * 365.25
     """
-    return (asarray(decimal_year) - 2000.0) * 365.25
+    return (asarray(decimal_year).astype("float64", casting="safe") - 2000.0) * 365.25
 
 
 def datetime_to_decimal_year(time):
diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index 29ea2ff..1eccd2a 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -57,8 +57,14 @@ def vrotate(arr, coord_in, coord_out, coord_type_in, coord_type_out):
     if coord_type_in == coord_type_out:
         return arr
 
-    coord_out = None if coord_out is None else asarray(coord_out)
-    coord_in = None if coord_in is None else asarray(coord_in)
+    if coord_out is not None:
+        coord_out = asarray(coord_out).astype(
+            "float64", casting="safe", copy=False
+        )
+    if coord_in is not None:
+        coord_in = asarray(coord_in).astype(
+            "float64", casting="safe", copy=False
+        )
 
     if coord_type_in == GEODETIC_ABOVE_WGS84:
         if coord_type_out == GEODETIC_ABOVE_WGS84:
-- 
2.43.0


From 19f128b29882d640b000f0137cbefbc6cd4897fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 42/51] fix: zenith angle of the places exactly below the Sun

---
 eoxmagmod/eoxmagmod/include/sun_ephemeris.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/sun_ephemeris.h b/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
index 4c4d6b4..e02c231 100644
--- a/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
+++ b/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
@@ -57,6 +57,11 @@
 #define FMOD_FLOOR(a,b) ((a)-(b)*floor((a)/(b)))
 #endif
 
+// clip rounding errors of sine or cosine values
+#ifndef CLIP_UNIT
+#define CLIP_UNIT(a) ((a) > 1.0 ? 1.0 : ((a) < -1.0 ? -1.0 : (a)))
+#endif
+
 
 /**
  * @brief Convert year, month, day and number of decimal hours to MJD2000
@@ -171,7 +176,7 @@ void sunpos5original(
     const double cd = sqrt(1-sd*sd);
     const double sh = sin(*hang);
     const double ch = cos(*hang);
-    const double se0 = sp*sd + cp*cd*ch;
+    const double se0 = CLIP_UNIT(sp*sd + cp*cd*ch);
 
     // elevation including parallax correction with radius in km
     const double ep = asin(se0) - sqrt(1.0-se0*se0)*rad*(1.0/149597871.0);
@@ -298,7 +303,7 @@ void sunpos5eq2hor(
     const double cd = sqrt(1-sd*sd);
     const double sh = sin(hang);
     const double ch = cos(hang);
-    const double se0 = sp*sd + cp*cd*ch;
+    const double se0 = CLIP_UNIT(sp*sd + cp*cd*ch);
 
     // elevation including parallax correction with radius in km
     const double ep = asin(se0) - sqrt(1.0-se0*se0)*rad*(1.0/149597871.0);
-- 
2.43.0


From 422fe07d7d5ce28b30940d64d54d3754ecb95ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 43/51] fix: Legendre functions in the vicinity of the poles

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 4b190a2..5b886b8 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -274,8 +274,7 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
 static void shc_legendre(double *lp, double *ldp, int degree, double elv, const double *psqrt, const double *prsqrt)
 {
     const double sin_elv = sin(elv);
-    //const double cos_elv = cos(elv);
-    const double cos_elv = sqrt((1.0-sin_elv)*(1.0+sin_elv));
+    const double cos_elv = cos(elv);
 
     if ((degree <= 16)||(fabs(cos_elv) < 1e-10))
         // low degree model + poles
-- 
2.43.0


From 81e49cfbefc9bb09c115458f2fe9f4cfc2c3d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 44/51] fix: refuse boolean flags whose truth value cannot be
 evaluated

---
 eoxmagmod/eoxmagmod/pymm_interp.h        | 2 ++
 eoxmagmod/eoxmagmod/pymm_relradpow.h     | 4 +++-
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 4 +++-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 4 +++-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 4 +++-
 eoxmagmod/eoxmagmod/pymm_sphargrd.h      | 4 +++-
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 4 +++-
 7 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_interp.h b/eoxmagmod/eoxmagmod/pymm_interp.h
index 624cf86..60775f6 100644
--- a/eoxmagmod/eoxmagmod/pymm_interp.h
+++ b/eoxmagmod/eoxmagmod/pymm_interp.h
@@ -100,6 +100,8 @@ static PyObject* interp(PyObject *self, PyObject *args, PyObject *kwdict)
 
     if (obj_extrapolate != NULL) {
         extrapolate = PyObject_IsTrue(obj_extrapolate);
+        if (extrapolate < 0)
+            goto exit;
     }
 
     switch (kind) {
diff --git a/eoxmagmod/eoxmagmod/pymm_relradpow.h b/eoxmagmod/eoxmagmod/pymm_relradpow.h
index 2e12bdb..4a34097 100644
--- a/eoxmagmod/eoxmagmod/pymm_relradpow.h
+++ b/eoxmagmod/eoxmagmod/pymm_relradpow.h
@@ -88,7 +88,9 @@ static PyObject* relradpow(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     if (degree < 0)
     {
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 5ae520b..4f02781 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -175,7 +175,9 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[2]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 58d23b4..0040424 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -184,7 +184,9 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[4]))
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index c737a51..98a78a8 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -199,7 +199,9 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[3]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sphargrd.h b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
index 7cdba3d..b2f6609 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphargrd.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
@@ -100,7 +100,9 @@ static PyObject* sphargrd(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     // cast the objects to arrays
     if (NULL == (arr_lat = _get_as_double_array(obj_lat, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index d7470a3..6b7ec0f 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -101,7 +101,9 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
-    eval_base = obj_flag ? (1 == PyObject_IsTrue(obj_flag)) : 0;
+    eval_base = obj_flag ? PyObject_IsTrue(obj_flag) : 0;
+    if (eval_base < 0)
+        goto exit;
 
     #define NPY_REQ (NPY_ARRAY_ALIGNED|NPY_ARRAY_C_CONTIGUOUS)
 
-- 
2.43.0


From e3ae27205dadd5fca0b1b9cae0e5cdbd415638d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:45 +0000
Subject: [PATCH 45/51] fix: refuse invalid degree and order of the sparse
 coefficients

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h   |  4 ++++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h   |  4 ++++
 eoxmagmod/eoxmagmod/pymm_sphar_common.h | 19 +++++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 0040424..88deae9 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -639,6 +639,10 @@ static int _f2d_coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if (_check_degree_and_order(degree, order))
+                goto error;
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 98a78a8..0689487 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -707,6 +707,10 @@ static int _coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if (_check_degree_and_order(degree, order))
+                goto error;
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sphar_common.h b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
index 4f59be7..dfac958 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphar_common.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
@@ -128,4 +128,23 @@ npy_intp _size_to_degree(npy_intp size)
     return degree;
 }
 
+/*
+ * Check degree and order of a spherical harmonic coefficient. Sets the Python
+ * exception and returns non-zero value in case of an invalid term.
+ */
+
+static int _check_degree_and_order(int degree, int order)
+{
+    if ((degree < 0)||(order < -degree)||(order > degree))
+    {
+        PyErr_Format(
+            PyExc_ValueError,
+            "Invalid degree and order (%d, %d) of a coefficient!",
+            degree, order
+        );
+        return 1;
+    }
+    return 0;
+}
+
 #endif /*PYMM_SPHAR_COMMON_H*/
-- 
2.43.0


From 32f54022f8776d775f3dadc95745c3c6aae877ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:04 +0000
Subject: [PATCH 46/51] fix: do not overflow sizes of arrays of the models of
 high degrees

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 4f02781..46c2003 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -32,6 +32,7 @@
 
 #include <math.h>
 #include <string.h>
+#include <stdint.h>
 #include <stdlib.h>
 
 #include "math_aux.h"
@@ -72,7 +73,7 @@ static SHEVAL_MODE _check_sheval_mode(int mode, const char *label);
 typedef struct {
     int is_internal;
     int degree;
-    int nterm;
+    size_t nterm;
     int coord_in;
     int coord_out;
     double elps_a;
@@ -640,10 +641,17 @@ static int _model_init(
     MODEL *model, int is_internal, int degree, int coord_in, int coord_out,
     const double scale_potential, const double *scale_gradient)
 {
-    const int nterm = ((degree+1)*(degree+2))/2;
+    const size_t size = (size_t)degree + 1;
+    const size_t nterm = (size*(size + 1))/2;
 
     _model_reset(model);
 
+    if (nterm > PTRDIFF_MAX/sizeof(double[2]))
+    {
+        PyErr_Format(PyExc_MemoryError, "Too large model degree %d!", degree);
+        return 1;
+    }
+
     model->is_internal = is_internal;
     model->degree = degree;
     model->nterm = nterm;
@@ -672,13 +680,13 @@ static int _model_init(
         goto error;
     }
 
-    if (NULL == (model->lcs = (double(*)[2])malloc((degree+1)*sizeof(double[2]))))
+    if (NULL == (model->lcs = (double(*)[2])malloc(size*sizeof(double[2]))))
     {
         PyErr_Format(PyExc_MemoryError, "_model_ts_init: lcs");
         goto error;
     }
 
-    if (NULL == (model->rrp = (double*)malloc((degree+1)*sizeof(double))))
+    if (NULL == (model->rrp = (double*)malloc(size*sizeof(double))))
     {
         PyErr_Format(PyExc_MemoryError, "_model_ts_init: rrp");
         goto error;
-- 
2.43.0


From 65c1aebb5797cc0c60a5455076f0508057ccc623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 47/51] fix: refuse unsupported output coordinate systems

---
 eoxmagmod/eoxmagmod/dipole_coords.py                 | 4 +++-
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 2 ++
 eoxmagmod/eoxmagmod/util.py                          | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/dipole_coords.py b/eoxmagmod/eoxmagmod/dipole_coords.py
index f580e29..3c793a4 100644
--- a/eoxmagmod/eoxmagmod/dipole_coords.py
+++ b/eoxmagmod/eoxmagmod/dipole_coords.py
@@ -30,7 +30,7 @@ from math import pi, sin, cos
 from numpy import array, asarray, dot
 from eoxmagmod._pymm import (
     convert, vrot_sph2cart, vrot_cart2sph,
-    GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
+    GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
 )
 
 __all__ = [
@@ -86,4 +86,6 @@ def vrot_from_dipole(vectors, lat_ngp, lon_ngp, lat_dipole, lon_dipole,
     if coord_type_out == GEOCENTRIC_CARTESIAN:
         # coordinates are already in the Cartesian coordinates
         return vectors
+    if coord_type_out not in (GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL):
+        raise ValueError("Unsupported coordinate system type!")
     return vrot_cart2sph(vectors, lat_out, lon_out)
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 8630c37..952bb9d 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -119,6 +119,8 @@ class ComposedGeomagneticModel(GeomagneticModel):
             result = vrot_sph2geod(result, coord_out[..., 0] - coord_sph[..., 0])
         elif output_coordinate_system == GEOCENTRIC_CARTESIAN:
             result = vrot_sph2cart(result, coord_sph[..., 0], coord_sph[..., 1])
+        elif output_coordinate_system != GEOCENTRIC_SPHERICAL:
+            raise ValueError("Unsupported coordinate system type!")
 
         # apply the final scale
         if final_scale is not None:
diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index 1eccd2a..2e9dc97 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -34,6 +34,7 @@ from ._pymm import (
 )
 
 SPHERICAL_COORD_TYPES = (GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL)
+COORD_TYPES = (*SPHERICAL_COORD_TYPES, GEOCENTRIC_CARTESIAN)
 
 __all__ = [
     "vrotate",
@@ -54,7 +55,7 @@ def vrotate(arr, coord_in, coord_out, coord_type_in, coord_type_out):
             arr_out - array of the rotated vectors
     """
     # pylint: disable=too-many-return-statements
-    if coord_type_in == coord_type_out:
+    if coord_type_in == coord_type_out and coord_type_in in COORD_TYPES:
         return arr
 
     if coord_out is not None:
-- 
2.43.0


From b9b27d13147a0008bd385a1e717473067b11727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 48/51] fix: refuse field line start points being not a single
 point

---
 eoxmagmod/eoxmagmod/magnetic_model/field_lines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/field_lines.py b/eoxmagmod/eoxmagmod/magnetic_model/field_lines.py
index 9aac5e2..35b4cb8 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/field_lines.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/field_lines.py
@@ -61,6 +61,8 @@ def trace_field_line(model, time, point,
 
     # convert the input point coordinate
     point = convert(point, input_coordinate_system, GEOCENTRIC_CARTESIAN)
+    if point.shape != (3,):
+        raise ValueError(f"Invalid shape {point.shape} of the start point!")
 
     # trace the 'downstream' and 'upstream' segments
     coords_down, field_down = _trace_field_line(
-- 
2.43.0


From 5dd3a4d22d6ec1c0c00b9b3a87ae05416268e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 49/51] fix: refuse indices of coefficients not having two
 columns

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 083a55d..54b7bf3 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -439,7 +439,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
         if coefficients.ndim != 2:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
@@ -509,7 +509,7 @@ class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
         if coefficients.ndim != 1:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
-- 
2.43.0


From 22aa85ad5ca2a89c2186616b1a1fcd2a0eacace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 50/51] fix: refuse locations not being 3D vectors also outside
 of the validity

---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 27467e0..f826f30 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -65,6 +65,9 @@ def parse_file(parser, file_, *args, **kwargs):
 
 def reshape_times_and_coordinates(time, coords):
     """ Reshape coordinates to match the times. """
+    if coords.ndim < 1 or coords.shape[-1] != 3:
+        raise ValueError("Incorrect last dimension of the coordinates array.")
+
     ndim_common = min(time.ndim, coords.ndim-1)
     ndim_result = max(time.ndim, coords.ndim-1)
 
-- 
2.43.0


From c4724f362afd2aa9cbbaf0daefe07850251bc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:25 +0000
Subject: [PATCH 51/51] fix: check shape of the coefficients of the MIO models

---
 .../magnetic_model/coefficients_mio.py          | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
index b32ed65..2b44c40 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
@@ -69,10 +69,25 @@ class SparseSHCoefficientsMIO(SparseSHCoefficients):
     def __init__(self, indices, coefficients, ps_extent,
                  mjd2000_to_year_fraction=mjd2000_to_year_fraction_default,
                  **kwargs):
-        SparseSHCoefficients.__init__(self, indices, coefficients, **kwargs)
+        indices = asarray(indices)
+        coefficients = asarray(coefficients)
+
         pmin, pmax, smin, smax = ps_extent
         if pmin > pmax or smin > smax:
             raise Exception(f"Invalid ps_extent {ps_extent}!")
+
+        # check array dimensions
+        if indices.ndim != 2 or indices.shape[1] != 2:
+            raise ValueError(f"Invalid indices array dimension {indices.shape}!")
+
+        if coefficients.shape != (
+            indices.shape[0], smax - smin + 1, pmax - pmin + 1, 2
+        ):
+            raise ValueError(
+                f"Invalid coefficients array dimension {coefficients.shape}!"
+            )
+
+        SparseSHCoefficients.__init__(self, indices, coefficients, **kwargs)
         self.ps_extent = DegreeRanges(pmin, pmax, smin, smax)
         self.mjd2000_to_year_fraction = mjd2000_to_year_fraction
 
-- 
2.43.0

