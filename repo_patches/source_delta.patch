From 3efc18c17a80e34c0940f74fbf7b961631d7d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 01/87] fix: keep fix_range output below the maximum, bounded
 and non-mutating

fix_range returned the excluded maximum for values a rounding error below the
minimum, never returned for infinite or very large values, altered the
caller's array, and raised for integer arrays with a floating point range.
---
 ocbpy/ocb_time.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index db915b2..2ba8930 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -417,8 +417,8 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     """
 
-    # Cast output as array-like
-    fixed_vals = np.asarray(values)
+    # Cast output as array-like, ensuring the input is not altered
+    fixed_vals = np.array(values)
 
     # Test input to ensure the maximum is greater than the minimum
     if min_val >= max_val:
@@ -432,21 +432,25 @@ def fix_range(values, min_val, max_val, val_range=None):
     if val_range <= 0.0:
         raise ValueError('Value range must be greater than zero')
 
+    # Ensure integer input may be adjusted by a floating point range
+    if np.issubdtype(fixed_vals.dtype, np.integer):
+        fixed_vals = fixed_vals.astype(np.result_type(fixed_vals, min_val,
+                                                      max_val, val_range))
+
     # Fix the values, allowing for deviations that are multiples of the
     # value range.  Also propagate NaNs
-    ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
-            & ~np.isnan(fixed_vals))
-    while np.any(ibad):
-        fixed_vals[ibad] -= val_range
-        ibad = (np.greater_equal(fixed_vals, max_val,
-                                 where=~np.isnan(fixed_vals))
-                & ~np.isnan(fixed_vals))
-
-    ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
-            & ~np.isnan(fixed_vals))
-    while np.any(ibad):
-        fixed_vals[ibad] += val_range
-        ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
-                & ~np.isnan(fixed_vals))
+    ibad = np.greater_equal(fixed_vals, max_val)
+    if np.any(ibad):
+        fixed_vals[ibad] = (max_val - val_range) + np.mod(
+            fixed_vals[ibad] - max_val, val_range)
+
+    ibad = np.less(fixed_vals, min_val)
+    if np.any(ibad):
+        fixed_vals[ibad] = min_val + np.mod(fixed_vals[ibad] - min_val,
+                                            val_range)
+
+        # Values within the machine precision of the minimum may be rounded
+        # up to the maximum, which lies outside of the allowed range
+        fixed_vals[ibad & np.greater_equal(fixed_vals, max_val)] = min_val
 
     return fixed_vals
-- 
2.43.0


From 0f1bf3d3690ec9f5e619be19c53bc03d698b4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 02/87] fix: do not alter the caller's latitudes in
 OCBoundary.normal_coord

Latitudes from the other hemisphere were overwritten by NaN in the input
array, and integer arrays with mixed hemispheres raised an error.  VectorData
relied on this side effect, so mark its undefined pole angles there.
---
 ocbpy/_boundary.py   | 6 +++++-
 ocbpy/ocb_scaling.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c72db3b..82ca739 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -600,7 +600,8 @@ class OCBoundary(object):
             aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
                 lat, lon, height, self.dtime[self.rec_ind], method)
         else:
-            aacgm_lat = lat
+            # Copy the latitude, so that the input will not be altered
+            aacgm_lat = np.array(lat, dtype=float)
             aacgm_mlt = lt
 
         # Ensure the correct hemisphere is loaded for this data
@@ -1435,6 +1436,9 @@ class DualBoundary(object):
             else:
                 return bound_lat, bound_mlt, ocb_lat, r_corr
 
+        # Ensure data from the wrong hemisphere are not assigned to a region
+        aacgm_lat = np.where(np.isnan(ocb_lat), np.nan, aacgm_lat)
+
         # Get the boundary locations in AACGM coordinates
         if not overwrite:
             orig_bound = self._get_current_aacgm_boundary()
diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0378157..9a8115a 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -700,8 +700,11 @@ class VectorData(object):
             self.ocb_aacgm_mlt, self.ocb_aacgm_lat = vectors.get_pole_loc(
                 ocb.phi_cent[self.ocb_ind], ocb.r_cent[self.ocb_ind])
 
-        # Get the angle at the data vector appended by the AACGM and OCB poles
+        # Get the angle at the data vector appended by the AACGM and OCB poles,
+        # which is not defined for vectors in the other hemisphere
         self.calc_vec_pole_angle()
+        self.pole_angle = np.where(np.sign(self.lat) == ocb.hemisphere,
+                                   self.pole_angle, np.nan)
 
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
-- 
2.43.0


From d95a76f37744f0b47e0bf59605e55d0e2c2f29b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 03/87] fix: accept integer MLT and keep input in
 get_aacgm_boundary_lat

Integer MLT (allowed by the documentation) raised a casting error, the
caller's MLT array was altered, and only one wrap of 24 h was handled.
---
 ocbpy/_boundary.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 82ca739..2d29b8a 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -783,10 +783,10 @@ class OCBoundary(object):
 
         """
 
-        # Ensure the boundary longitudes span from 0-360 degrees
-        aacgm_mlt = np.asarray(aacgm_mlt)
-        aacgm_mlt[aacgm_mlt < 0.0] += 24.0
-        aacgm_mlt[aacgm_mlt >= 24.0] -= 24.0
+        # Ensure the boundary local times span from 0-24 h, without altering
+        # the input and allowing integer values
+        aacgm_mlt = ocb_time.fix_range(np.asarray(aacgm_mlt, dtype=float),
+                                       0.0, 24.0)
 
         if not hasattr(self, 'aacgm_boundary_mlt'):
             self.aacgm_boundary_mlt = [None for i in range(self.records)]
@@ -1606,7 +1606,8 @@ class DualBoundary(object):
                     ''.join(['cannot revert dual-boundary coordinates without',
                              ' the AACGM MLT']))
 
-            aacgm_mlt = np.asarray(aacgm_mlt)
+            aacgm_mlt = ocb_time.fix_range(np.asarray(aacgm_mlt, dtype=float),
+                                           0.0, 24.0)
 
             if aacgm_mlt.shape == ():
                 if out_shape == ():
-- 
2.43.0


From dbb0c90ef893f7f501031d29f1edc1ea8bdd0d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 04/87] fix: carry rounded seconds over in year_soy_to_datetime

A fractional second of year that rounds up to a full minute raised a
ValueError, e.g. year_soy_to_datetime(2001, 59.6).
---
 ocbpy/ocb_time.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index 2ba8930..500c831 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -66,24 +66,10 @@ def year_soy_to_datetime(yyyy, soy):
 
     """
 
-    # Calcuate doy, hour, min, seconds of day
-    ss = soy / 86400.0
-    ddd = np.floor(ss)
-
-    ss = (soy - ddd * 86400.0) / 3600.0
-    hh = np.floor(ss)
-
-    ss = (soy - ddd * 86400.0 - hh * 3600.0) / 60.0
-    mm = np.floor(ss)
-
-    ss = soy - ddd * 86400.0 - hh * 3600.0 - mm * 60.0
-
-    # Define format
-    stime = "{:d}-{:.0f}-{:.0f}-{:.0f}-{:.0f}".format(yyyy, ddd + 1, hh, mm,
-                                                      ss)
-
-    # Convert to datetime
-    dtime = dt.datetime.strptime(stime, "%Y-%j-%H-%M-%S")
+    # Round to the nearest second before splitting the time into its parts, so
+    # that the seconds, minutes, hours, and days are carried over correctly
+    dtime = dt.datetime(int(yyyy), 1, 1) + dt.timedelta(
+        seconds=int(np.round(soy)))
 
     return dtime
 
-- 
2.43.0


From 4f00870160c9a054f7db3a49de5619533be97bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 05/87] fix: load boundary files with a single record

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 2d29b8a..53ed30c 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -369,8 +369,8 @@ class OCBoundary(object):
             return
 
         # Read the OCB data
-        odata = np.rec.array(np.genfromtxt(self.filename, skip_header=hlines,
-                                           dtype=ldtype))
+        odata = np.rec.array(np.atleast_1d(np.genfromtxt(
+            self.filename, skip_header=hlines, dtype=ldtype)))
         oname = list(odata.dtype.names)
 
         # Load the data into the OCBoundary object
-- 
2.43.0


From 1a8905a5509551d3080afa9119b1744b6a1ea855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 06/87] fix: allow a boundary_lat of None to select the default

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 53ed30c..d5b0090 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -179,7 +179,7 @@ class OCBoundary(object):
         self.boundary_lat = 74.0 if boundary_lat is None else boundary_lat
 
         # Ensure that the boundary is in the correct hemisphere
-        if np.sign(boundary_lat) != np.sign(hemisphere):
+        if np.sign(self.boundary_lat) != np.sign(hemisphere):
             self.boundary_lat *= -1.0
 
         # If possible, load the data.  Any boundary correction is applied here.
-- 
2.43.0


From dc1604460d79798434fa4211271a4275932b127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 07/87] fix: allow repr of boundary objects without records in
 the time window

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index d5b0090..2426ad9 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -197,8 +197,8 @@ class OCBoundary(object):
         class_name = repr(self.__class__).split("'")[1]
 
         # Get the start and end times
-        stime = None if self.dtime is None else self.dtime[0]
-        etime = None if self.dtime is None else self.dtime[-1]
+        stime = None if self.records == 0 else self.dtime[0]
+        etime = None if self.records == 0 else self.dtime[-1]
 
         # Format the function representations
         if self.rfunc is None:
-- 
2.43.0


From 2e5d16f02ade6b3c052638e993b83026f16439f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 08/87] fix: keep DualBoundary record indices consistent when
 out of range

Setting rec_ind past the last pair moved the EAB and OCB indices backwards,
onto valid records, and objects without loaded data had no rec_ind at all.
---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 2426ad9..cb6c9bd 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1200,7 +1200,7 @@ class DualBoundary(object):
             self.ocb.rec_ind = rec_ind
             self.eab.rec_ind = rec_ind
         elif rec_ind >= self.records:
-            del_ind = self.records - rec_ind
+            del_ind = rec_ind - self.records
             self.ocb.rec_ind = self.ocb.records + del_ind
             self.eab.rec_ind = self.eab.records + del_ind
         else:
@@ -1249,6 +1249,7 @@ class DualBoundary(object):
             self.dtime = None
             self.ocb_ind = None
             self.eab_ind = None
+            self._rec_ind = 0
             return
 
         self.dtime = list()
-- 
2.43.0


From 6184ceedf991ed25a1efeb50e1179780396feb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 09/87] fix: return fill values from DualBoundary.revert_coord
 for a bad index

---
 ocbpy/_boundary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index cb6c9bd..9a72901 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1599,6 +1599,11 @@ class DualBoundary(object):
             if len(ocb_lat) == len(iocb):
                 is_ocb = True
 
+            # There are no boundaries for a bad record index, so the OCB
+            # reversion already contains the appropriate fill values
+            if self.rec_ind < 0 or self.rec_ind >= self.records:
+                is_ocb = True
+
         # Continue calculating the output for the other regions, if needed
         if not is_ocb:
             # Ensure the AACGM MLT was provided on input
-- 
2.43.0


From 7aba73b00a3f2220e2b533064da9f05995ed4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 10/87] fix: select heights when reverting dual-boundary to
 geographic coordinates

Reverting data from more than one region raised a ValueError, as the heights
were not restricted to the points outside of the OCB.
---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 9a72901..3819a00 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1689,7 +1689,8 @@ class DualBoundary(object):
 
                 # Convert from magnetic coordinates to geo coordinates
                 lat[imag], lon, _ = aacgmv2.convert_latlon_arr(
-                    lat[imag], lon, height, self.dtime[self.rec_ind], method)
+                    lat[imag], lon, height[imag], self.dtime[self.rec_ind],
+                    method)
 
                 # Convert from longitude to solar local time
                 lt[imag] = ocb_time.glon2slt(lon, self.dtime[self.rec_ind])
-- 
2.43.0


From 6a93760fce20a61fc71d52c46a9edc2cfbd135b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 11/87] fix: pair each boundary only once in DualBoundary

The OCB that had just been paired was matched again with the next EAB, so that
the same OCB was used in several pairs and later OCBs were paired with EABs
that were not the closest in time.
---
 ocbpy/_boundary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 3819a00..7701e2a 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1288,6 +1288,9 @@ class DualBoundary(object):
                 self.dtime.append(self.ocb.dtime[good_ocb[iocb]])
                 self.ocb_ind.append(good_ocb[iocb])
                 self.eab_ind.append(self.eab.rec_ind)
+
+                # Each boundary may only be used by one pair
+                iocb += 1
             else:
                 iocb = None
 
-- 
2.43.0


From 2faa8cc0047f86522b226a9123ac27b99867a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 12/87] fix: do not alter the caller's criteria in
 DualBoundary.set_good_ind

---
 ocbpy/_boundary.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 7701e2a..10a9db2 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1261,16 +1261,14 @@ class DualBoundary(object):
         self.eab.rec_ind = -1
 
         # Get the good OCB indices
-        if ocb_kwargs is None:
-            ocb_kwargs = {}
+        ocb_kwargs = {} if ocb_kwargs is None else dict(ocb_kwargs)
         ocb_kwargs['min_merit'] = ocb_min_merit
         ocb_kwargs['max_merit'] = ocb_max_merit
         good_ocb = cycle_boundary.retrieve_all_good_indices(self.ocb,
                                                             **ocb_kwargs)
 
         # Initialize the EAB good index selection options
-        if eab_kwargs is None:
-            eab_kwargs = {}
+        eab_kwargs = {} if eab_kwargs is None else dict(eab_kwargs)
         eab_kwargs['min_merit'] = eab_min_merit
         eab_kwargs['max_merit'] = eab_max_merit
 
-- 
2.43.0


From ff2081ea3318d97fe844476cfe0402d55eb1f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 13/87] fix: reject records with an undefined value for a
 selection criterion

---
 ocbpy/_boundary.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 10a9db2..94c7b05 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -505,19 +505,23 @@ class OCBoundary(object):
 
             for ckey in kwargs.keys():
                 test_val = getattr(self, ckey)[self.rec_ind]
-                if kwargs[ckey][0] == "min" and test_val <= kwargs[ckey][1]:
+                if kwargs[ckey][0] == "min" and not (
+                        test_val > kwargs[ckey][1]):
                     good = False
                     break
-                elif kwargs[ckey][0] == "mineq" and test_val < kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "mineq" and not (
+                        test_val >= kwargs[ckey][1]):
                     good = False
                     break
                 elif kwargs[ckey][0] == "equal" and test_val != kwargs[ckey][1]:
                     good = False
                     break
-                elif kwargs[ckey][0] == "maxeq" and test_val > kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "maxeq" and not (
+                        test_val <= kwargs[ckey][1]):
                     good = False
                     break
-                elif kwargs[ckey][0] == "max" and test_val >= kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "max" and not (
+                        test_val < kwargs[ckey][1]):
                     good = False
                     break
 
-- 
2.43.0


From b0132b4076e940e2c6c4feccd965efdbd5c0ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 14/87] fix: keep the vertical component of vectors without a
 horizontal part

---
 ocbpy/vectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d176eb7..cca13eb 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -582,16 +582,17 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
     norm_mask = ~(zero_mask + ns_mask)
 
-    # There's nothing to adjust if there is no magnitude
+    # There's nothing to adjust if there is no horizontal magnitude
     if np.any(zero_mask):
         if len(out_shape) == 0:
             dest_n = 0.0
             dest_e = 0.0
-            dest_z = 0.0
+            dest_z = float(vect_z)
         else:
+            zero_mask = np.broadcast_to(zero_mask, out_shape)
             dest_n[zero_mask] = 0.0
             dest_e[zero_mask] = 0.0
-            dest_z[zero_mask] = 0.0
+            dest_z[zero_mask] = np.broadcast_to(vect_z, out_shape)[zero_mask]
 
     # The measurement is aligned with the base and destination poles
     if np.any(ns_mask):
-- 
2.43.0


From e72b0277594f2c902599d86bc2650f7e15a4e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 15/87] fix: bound rounding errors in calc_vec_pole_angle

---
 ocbpy/vectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index cca13eb..2b22ed6 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -128,10 +128,12 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
         + np.cos(np.radians(data_lat)) * np.cos(np.radians(pole_lat))
         * np.cos(del_long))
 
-    # Use the half-angle formula to get the pole angle
+    # Use the half-angle formula to get the pole angle. Rounding may push the
+    # squared cosine of nearly aligned locations out of its range.
     sum_sides = 0.5 * (del_vect + del_dest + del_pole)
-    half_angle = np.sqrt(np.sin(sum_sides) * np.sin(sum_sides - del_pole)
-                         / (np.sin(del_vect) * np.sin(del_dest)))
+    half_angle = np.sqrt(np.clip(np.sin(sum_sides) * np.sin(
+        sum_sides - del_pole) / (np.sin(del_vect) * np.sin(del_dest)), 0.0,
+                                 1.0))
 
     if pole_angle.shape == ():
         pole_angle = np.degrees(2.0 * np.arccos(half_angle))
-- 
2.43.0


From 3b464a7c347358fea46467bb8d8bea853f8e46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 16/87] fix: keep every element when adjusting one vector to
 several poles

---
 ocbpy/vectors.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 2b22ed6..5522684 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -696,13 +696,11 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                     vsigns['east'] * vmag * np.sin(dest_naz_angle)))
                 dest_z = np.full(shape=out_shape, fill_value=vz)
             else:
-                nval = vsigns['north'][norm_mask] * vmag * np.cos(
+                dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                     dest_naz_angle)[norm_mask]
-                dest_n = np.full(shape=nval.shape, fill_value=nval)
-                dest_e = np.full(shape=nval.shape, fill_value=(
-                    vsigns['east'][norm_mask] * vmag * np.sin(
-                        dest_naz_angle)[norm_mask]))
-                dest_z = np.full(shape=nval.shape, fill_value=vz)
+                dest_e[norm_mask] = vsigns['east'][norm_mask] * vmag * np.sin(
+                    dest_naz_angle)[norm_mask]
+                dest_z[norm_mask] = vz
         else:
             dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                 dest_naz_angle)[norm_mask]
-- 
2.43.0


From 22f1baa8c4355da4981a4f190a3ead7b347755f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 17/87] fix: scale the re-oriented components of a single
 vector

---
 ocbpy/ocb_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 9a8115a..990cb4b 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -803,13 +803,13 @@ class VectorData(object):
             if len(self.ocb_n.shape) == 0:
                 self.ocb_n = np.full(
                     shape=self.ocb_n.shape, fill_value=self.scale_func(
-                        self.vect_n, self.unscaled_r, self.scaled_r))
+                        self.ocb_n, self.unscaled_r, self.scaled_r))
                 self.ocb_e = np.full(
                     shape=self.ocb_e.shape, fill_value=self.scale_func(
-                        self.vect_e, self.unscaled_r, self.scaled_r))
+                        self.ocb_e, self.unscaled_r, self.scaled_r))
                 self.ocb_z = np.full(
                     shape=self.ocb_z.shape, fill_value=self.scale_func(
-                        self.vect_z, self.unscaled_r, self.scaled_r))
+                        self.ocb_z, self.unscaled_r, self.scaled_r))
             else:
                 self.ocb_n = self.scale_func(self.ocb_n, self.unscaled_r,
                                              self.scaled_r)
-- 
2.43.0


From cfb00aa5d3d0551b8820196265a304d041cd3567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 18/87] fix: use the boundary index time in VectorData.set_ocb

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 990cb4b..8728309 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -643,7 +643,7 @@ class VectorData(object):
 
         """
         # Update the data values to be in magnetic coordinates
-        dtime = ocb.dtime[ocb.rec_ind] if self.ocb_ind.shape == () else [
+        dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
 
-- 
2.43.0


From 7baa4767ff83c3650f60a43e70c9d8e4aa7eefe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 19/87] fix: use the requested tracing method throughout
 VectorData.set_ocb

---
 ocbpy/ocb_scaling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 8728309..7f1f486 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -645,7 +645,8 @@ class VectorData(object):
         # Update the data values to be in magnetic coordinates
         dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
-        self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
+        self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
+                                       trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
@@ -671,7 +672,8 @@ class VectorData(object):
                     if self.ocb_ind.shape == self.dat_ind.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
-                                                     height=self.height[i])
+                                                     height=self.height[i],
+                                                     method=trace_method)
                     else:
                         out_coord = ocb.normal_coord(self.lat, self.lt,
                                                      coords=self.loc_coord,
-- 
2.43.0


From 419e1813a9f3e75073fc9bf5d7f82cb43e40a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 20/87] fix: convert geographic vectors at several heights for
 one time

---
 ocbpy/ocb_scaling.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 7f1f486..b16dfeb 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1077,9 +1077,16 @@ class VectorData(object):
                     mag_pole_slt.append(ocb_time.glon2slt(out[1], val))
                     mag_pole_glat.append(out[0])
             else:
-                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon(
-                    hemisphere * 90.0, 0.0, self.height, dtime,
-                    method_code='|'.join(methods))
+                if self.height.shape == ():
+                    mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon(
+                        hemisphere * 90.0, 0.0, self.height, dtime,
+                        method_code='|'.join(methods))
+                else:
+                    mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon_arr(
+                        np.full(shape=self.height.shape,
+                                fill_value=hemisphere * 90.0),
+                        np.zeros(shape=self.height.shape), self.height, dtime,
+                        method_code='|'.join(methods))
                 mag_pole_slt = ocb_time.glon2slt(mag_pole_lon, dtime)
 
             mag_pole_glat = np.asarray(mag_pole_glat)
-- 
2.43.0


From 1a9347c6ee13fcbdf66e8aefc14364fc4809bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 21/87] fix: convert geographic locations of magnetic vectors
 in VectorData.set_ocb

---
 ocbpy/ocb_scaling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index b16dfeb..6523106 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -647,6 +647,7 @@ class VectorData(object):
             ocb.dtime[ind] for ind in self.ocb_ind]
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
                                        trace_method=trace_method)
+        self.update_loc_coords(dtime, trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
-- 
2.43.0


From c790b1c9188dfc53e9c554f6d35faf44052afe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 22/87] fix: select one location per boundary in
 VectorData.set_ocb

---
 ocbpy/ocb_scaling.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 6523106..34e90b7 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -668,18 +668,15 @@ class VectorData(object):
             else:
                 # Cycle through the boundary indices
                 for i, ocb.rec_ind in enumerate(self.ocb_ind):
-                    # Handle time different, depending on the OCB and
-                    # data shapes. Calcualte the coordinates and save the output
-                    if self.ocb_ind.shape == self.dat_ind.shape:
-                        out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
-                                                     coords=self.loc_coord,
-                                                     height=self.height[i],
-                                                     method=trace_method)
-                    else:
-                        out_coord = ocb.normal_coord(self.lat, self.lt,
-                                                     coords=self.loc_coord,
-                                                     height=self.height,
-                                                     method=trace_method)
+                    # Handle the locations differently, depending on whether or
+                    # not they change with time. Calculate the coordinates and
+                    # save the output
+                    lat, lt, height = [
+                        val if val.shape == () else val[i]
+                        for val in (self.lat, self.lt, self.height)]
+                    out_coord = ocb.normal_coord(lat, lt, coords=self.loc_coord,
+                                                 height=height,
+                                                 method=trace_method)
                     self._assign_normal_coord_output(out_coord, i)
 
         # Exit if the OCB coordinates can't be calculated at this location
-- 
2.43.0


From 5ad9d77b8385cf1ca47bc06edc3566289e377333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 23/87] fix: use geographic locations when adjusting geographic
 vectors

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 34e90b7..4bda5cf 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1104,7 +1104,7 @@ class VectorData(object):
 
             # Adjust the geographic vector to AACGM coordinates
             mag_n, mag_e, mag_z = vectors.adjust_vector(
-                mag_lt, mag_lat, self.vect_n, self.vect_e, self.vect_z,
+                geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
                 vect_quad, mag_pole_slt, mag_pole_glat, pole_angle, pole_quad)
 
             # Assign the new vector data and coordinate specification
-- 
2.43.0


From 6fe7aa8542d400196ac0e5319bfe68b99ee8cba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 24/87] fix: drop the boundary coordinates of a prior index in
 VectorData

---
 ocbpy/ocb_scaling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 4bda5cf..6cd21c9 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -539,6 +539,11 @@ class VectorData(object):
                     # Can't figure out how to get here, but keeping for now
                     raise ValueError(verr)
 
+            # The boundary coordinates belong to the prior boundary index(es)
+            self.ocb_lat = np.nan
+            self.ocb_mlt = np.nan
+            self.r_corr = np.nan
+
             # Clear the rest of the data
             self.clear_data()
         return
-- 
2.43.0


From dc48b617d9d3c75db03a7ece71fa169412141899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 25/87] fix: match the closest boundary when records share a
 time

---
 ocbpy/cycle_boundary.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 34eb1df..0cd9679 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -191,17 +191,19 @@ def match_data_ocb(ocb, dat_dtime, idat=0, max_tol=60, min_merit=None,
             last_iocb = ocb.rec_ind
             cycle_method(**cycle_kwargs)
 
-            if ocb.rec_ind < ocb.records:
+            # Several records may have the same time, keep the first of these
+            while ocb.rec_ind < ocb.records:
                 sdiff = (ocb.dtime[ocb.rec_ind]
                          - dat_dtime[idat]).total_seconds()
 
-                while abs(sdiff) < abs(last_sdiff):
+                if abs(sdiff) > abs(last_sdiff):
+                    break
+
+                if abs(sdiff) < abs(last_sdiff):
                     last_sdiff = sdiff
                     last_iocb = ocb.rec_ind
-                    cycle_method(**cycle_kwargs)
-                    if ocb.rec_ind < ocb.records:
-                        sdiff = (ocb.dtime[ocb.rec_ind]
-                                 - dat_dtime[idat]).total_seconds()
+
+                cycle_method(**cycle_kwargs)
 
             sdiff = last_sdiff
 
-- 
2.43.0


From fe20247f58d38548942d20604c60be12c65da13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 26/87] fix: process files without data near the first boundary

---
 ocbpy/instruments/supermag.py | 4 ++++
 ocbpy/instruments/vort.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 19beee6..753bdd5 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -154,6 +154,10 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
                                         max_tol=max_sdiff, min_merit=min_merit,
                                         max_merit=max_merit, **kwargs)
 
+            if imag is None:
+                # There is no data close enough to the boundaries
+                break
+
             if imag < nmag and ocb.rec_ind < ocb.records:
                 # Get all of the points for this time pairing
                 itime = np.where(mdata['DATETIME'] == mdata['DATETIME'][imag])
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 3ce7cf7..746c71b 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -178,6 +178,10 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
                                          max_tol=max_sdiff, min_merit=min_merit,
                                          max_merit=max_merit, **kwargs)
 
+            if ivort is None:
+                # There is no data close enough to the boundaries
+                break
+
             if ivort < num_vort and ocb.rec_ind < ocb.records:
                 # Use the indexed OCB to convert the AACGM grid coordinate to
                 # one related to the OCB
-- 
2.43.0


From 8318225e62d161f61b57295cbfef180c566c6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 27/87] fix: accept a single height in add_ocb_to_data

---
 ocbpy/instruments/pysat_instruments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1c139f8..9de2277 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -392,6 +392,9 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ocb_coords = [pysat_inst.index.name]
 
+        if len(height.shape) == 0:
+            height = np.full(shape=lat.shape, fill_value=height)
+
     # See if the data has more dimensions than the OCB coordinates
     if len(dat_coords) > len(ocb_coords):
         combo_shape = list(lat.shape)
-- 
2.43.0


From ad2f513e83e9cee48c1e6cb2c7aeddfc5ad7b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 28/87] fix: do not alter the caller's variable names in
 add_ocb_to_data

---
 ocbpy/instruments/pysat_instruments.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 9de2277..9551f2e 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -128,15 +128,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                               'scale_func': local_scale_func}}
 
     """
-    # Test the input
-    if evar_names is None:
-        evar_names = []
-
-    if curl_evar_names is None:
-        curl_evar_names = []
-
-    if vector_names is None:
-        vector_names = {}
+    # Test the input, copying the variable names because these are updated here
+    evar_names = [] if evar_names is None else list(evar_names)
+    curl_evar_names = [] if curl_evar_names is None else list(curl_evar_names)
+    vector_names = {} if vector_names is None else {
+        vkey: dict(vector_names[vkey]) for vkey in vector_names.keys()}
 
     if not isinstance(pysat_inst, pysat.Instrument):
         raise ValueError('unknown class, expected pysat.Instrument')
-- 
2.43.0


From f50f1c2bf4315de35ed3a3aaeff906226b409044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 29/87] fix: initialise each vector separately in
 add_ocb_to_data

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 9551f2e..7eca6a9 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -483,10 +483,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                   "loc_coord": loc_coord,
                                   "vect_coord": vect_coord,
                                   "height": height[iout]}
-                vector_init = dict(vector_default)
                 vshape = list()
 
                 for eattr in vector_names.keys():
+                    vector_init = dict(vector_default)
                     oattr = "{:s}_{:s}".format(eattr, bname)
                     for ikey in vector_names[eattr].keys():
                         # Not all vector names are DataFrame names
-- 
2.43.0


From 6f3209fc30cbbcd94e50d7451d519447d22128c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 30/87] fix: exclude the other hemisphere from
 multi-dimensional pysat data

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 7eca6a9..31e0475 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -322,7 +322,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         combo_shape = [pysat_inst.index.shape[0]]
     else:
         nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
-                                         >= hemisphere)
+                                         == hemisphere)
         finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
             'variable'))
         dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-- 
2.43.0


From 916dc52e301c1b6e26a8d94ffe79a19cdf713ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 31/87] fix: finish add_ocb_to_data without data near the first
 boundary

---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 31e0475..eb6a144 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -437,6 +437,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                     min_merit=min_merit, max_merit=max_merit,
                                     **kwargs)
 
+        if idat is None:
+            # There is no data close enough to the boundaries
+            break
+
         if idat < ndat and ocb.rec_ind < ocb.records:
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
-- 
2.43.0


From 602c285c1c0c8614ea48787c597982c8c7b6a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 32/87] fix: rank several default boundary files consistently

---
 ocbpy/boundaries/files.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index cbb3ce6..69587a3 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -194,9 +194,11 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
     else:
         # Rate files by instrument
         default_inst = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
-        ordered_files = {default_inst.index(boundary_files[bb]['instrument']):
-                         bb for bb in good_files}
-        bfile = ordered_files[min(ordered_files.keys())]
+        ordered_files = [
+            (default_inst.index(boundary_files[bb]['instrument'])
+             if boundary_files[bb]['instrument'] in default_inst
+             else len(default_inst), bb) for bb in good_files]
+        bfile = min(ordered_files)[1]
         default_file = os.path.join(boundary_dir, bfile)
         if boundary_files[bfile]['instrument'] in short_to_long.keys():
             instrument = short_to_long[boundary_files[bfile]['instrument']]
-- 
2.43.0


From 348ad6a398454d05776a321146957e125cf34dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 33/87] fix: ignore boundary files without a hemisphere or time
 range

---
 ocbpy/boundaries/files.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index 69587a3..5ed5bae 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -87,6 +87,12 @@ def get_boundary_files(bound='ocb'):
            and bfile.find(".py") < 0 and bfile.find("README") < 0
            and bfile[-3:].lower() == bound.lower()):
             file_info = bfile.lower()[:-4].split("_")
+
+            if len(file_info) < 2 or file_info[1] not in hemi.keys():
+                ocbpy.logger.warning(
+                    'Unknown boundary file present: [{:s}]'.format(bfile))
+                continue
+
             boundary_files[bfile] = {"instrument": file_info[0],
                                      "hemisphere": hemi[file_info[1]]}
 
@@ -99,7 +105,7 @@ def get_boundary_files(bound='ocb'):
                         file_info[2], '%Y%m%d')
                     boundary_files[bfile]["etime"] = dt.datetime.strptime(
                         file_info[3], '%Y%m%d')
-                except ValueError as verr:
+                except (IndexError, ValueError) as verr:
                     err = 'Unknown boundary file present: [{:s}]\n{:}'.format(
                         bfile, verr)
                     ocbpy.logger.warning(err)
@@ -169,9 +175,11 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
         if bdict['hemisphere'] == hemisphere:
             # Select by instrument
             if bdict['instrument'] in inst:
-                # Select by time
+                # Select by time, which may not be known
                 if(stime is None or etime is None
-                   or (stime <= bdict['etime'] and etime >= bdict['stime'])):
+                   or ('stime' in bdict.keys() and 'etime' in bdict.keys()
+                       and stime <= bdict['etime']
+                       and etime >= bdict['stime'])):
                     good_files.append(bfile)
 
     # Get the default file and instrument (returning at most one)
-- 
2.43.0


From 22753a4736288413223264c6a45fc7fb4fb29ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 34/87] fix: restore the output streams if the DMSP SSJ
 download fails

---
 ocbpy/boundaries/dmsp_ssj_files.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 1f58bc4..d260c3f 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -24,11 +24,12 @@ References
 
 """
 
+from contextlib import redirect_stderr
+from contextlib import redirect_stdout
 import datetime as dt
 from io import StringIO
 import numpy as np
 import os
-import sys
 import zipfile
 
 import aacgmv2
@@ -110,15 +111,12 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
 
     # Download the zenodo archive, capturing the output
     zenodo_io = StringIO()
-    sys.stdout = zenodo_io
-    sys.stderr = zenodo_io
-
     zenodo_checksum = os.path.join(out_dir, 'md5sums.txt')
-    zenodo_get.zenodo_get([doi, '-o', out_dir])
+
+    with redirect_stdout(zenodo_io), redirect_stderr(zenodo_io):
+        zenodo_get.zenodo_get([doi, '-o', out_dir])
 
     # Parse the output and retrieve files from the zip archive
-    sys.stdout = sys.__stdout__
-    sys.stderr = sys.__stderr__
     zen_msg = zenodo_io.getvalue()
     zen_split = zen_msg.split()
 
-- 
2.43.0


From 30bb55c629ce301acc5456961d5a40a15414d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 35/87] fix: write DMSP SSJ boundaries beside files with -f in
 their path

---
 ocbpy/boundaries/dmsp_ssj_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index d260c3f..b8bf3f5 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -304,7 +304,8 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     out_head = "#sc date time r x y fom x_1 y_1 x_2 y_2\n"
 
     # Specify the output file information
-    outfile_prefix = os.path.commonprefix(list(csv_files)).split('-f')[0]
+    outfile_prefix = os.path.commonprefix(list(csv_files)).rsplit(
+        '-f', 1)[0]
     filename_sec = os.path.split(
         csv_files[0])[-1].split('dmsp-f')[-1].split('_')
     sdate = filename_sec[3]
-- 
2.43.0


From 3afe7b449be17d3459d4c59a7f40eea83e5678bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 36/87] fix: format DMSP SSJ files with a single boundary
 crossing

---
 ocbpy/boundaries/dmsp_ssj_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index b8bf3f5..af4634e 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -351,8 +351,9 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
             header_list = head_line.split("\n")[0].split(",")
 
             # Load the file data
-            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',')
-            if len(data.shape) != 2 or data.shape[1] != len(header_list):
+            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',',
+                              ndmin=2)
+            if data.size == 0 or data.shape[1] != len(header_list):
                 bad_files.append(infile)
             else:
                 # Establish the desired data indices
-- 
2.43.0


From f3035d33e6d4f5fe8cb3062145806019af4832ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 37/87] fix: sort the formatted DMSP SSJ boundaries by time

---
 ocbpy/boundaries/dmsp_ssj_files.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index af4634e..8c6834d 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -330,7 +330,12 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
             for bb in bound_prefix.keys():
                 fpout[hh][bb].write(out_head)
 
-        # Cycle through all the SSJ CSV files, outputing appropriate data into
+        # Initialize the output lines, which must be sorted by time even if the
+        # input files are not
+        out_lines = {hh: {bb: list() for bb in bound_prefix.keys()}
+                     for hh in hemi_suffix.keys()}
+
+        # Cycle through all the SSJ CSV files, formatting appropriate data into
         # the desired boundary and hemisphere file
         for infile in csv_files:
             # Get spacecraft number and date from filename
@@ -416,8 +421,15 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
                                                    fom[iline], x[0], y[0],
                                                    x[1], y[1]]]), "\n"])
 
-                        # Write the output line to the file
-                        fpout[hh][bb].write(out_line)
+                        # Save the output line for this boundary
+                        out_lines[hh][bb].append((mid_time, out_line))
+
+        # Write the output lines to the files
+        for hh in hemi_suffix.keys():
+            for bb in bound_prefix.keys():
+                for _, out_line in sorted(out_lines[hh][bb],
+                                          key=lambda out: out[0]):
+                    fpout[hh][bb].write(out_line)
 
     # If some input files were not processed, inform the user
     if len(bad_files) > 0:
-- 
2.43.0


From 87da58ac8512fdd1533f382870fa161fa9fedc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 38/87] fix: do not alter the caller's lists in load_ascii_data

---
 ocbpy/instruments/general.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 5afe141..c6fbdf3 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -102,18 +102,16 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     Data is assumed to be float unless otherwise stated.
 
     """
-    # Initialize the empty lists
+    # Initialize the lists, copying those that are extended locally
     if datetime_cols is None:
         datetime_cols = list()
 
-    if int_cols is None:
-        int_cols = list()
+    int_cols = list() if int_cols is None else list(int_cols)
 
     if str_cols is None:
         str_cols = list()
 
-    if header is None:
-        header = list()
+    header = list() if header is None else list(header)
 
     # Test to ensure the file is small enough to read in.  Python can only
     # allocate 2GB of data.  If you load something larger, python will crash
-- 
2.43.0


From 171315057d082127579c741acc4d4ebab0abc563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 39/87] fix: load ASCII files with a single row

---
 ocbpy/instruments/general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index c6fbdf3..2dc503d 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -193,6 +193,10 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     # Open the datafile and read the data rows
     temp = np.genfromtxt(filename, skip_header=hlines, dtype=str, **gft_kwargs)
 
+    # A single row of several columns, or a single value, loses a dimension
+    if temp.size > 0 and (temp.ndim == 0 or (temp.ndim == 1 and nhead > 1)):
+        temp = temp.reshape((1, -1))
+
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
         #
-- 
2.43.0


From f3be69c9c281068dcad08e097a702781c55f0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 40/87] fix: load ASCII files without data rows

---
 ocbpy/instruments/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 2dc503d..34ee383 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -253,7 +253,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     for k in out.keys():
         try:
             out[k] = np.array(out[k], dtype=type(out[k][0]))
-        except TypeError:
+        except (TypeError, IndexError):
             # Leave as a list if array casting doesn't work.  This was an
             # issue before, but may have been an old numpy bug that is fixed.
             pass
-- 
2.43.0


From 3be9929a3b799e078fbc4262fa2cec5880318493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 41/87] fix: do not trace from the magnetic pole when adjusting
 vectors

---
 ocbpy/ocb_scaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 6cd21c9..fde19e8 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1061,8 +1061,9 @@ class VectorData(object):
             if hasattr(dtimes, 'year'):
                 dtime = dtimes
 
-            # Set the AACGM coordinates of the geographic pole
-            methods = [trace_method]
+            # Set the AACGM coordinates of the geographic pole. Tracing does not
+            # end at the magnetic pole, so only allow it here
+            methods = ['ALLOWTRACE']
             if self.vect_coord == "geocentric":
                 methods.append(self.vect_coord.upper())
             methods.append("A2G")
-- 
2.43.0


From 2cb0c10dd3015b4323d472c84e214a6aec9b32af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 42/87] fix: accept upper case instrument names in EABoundary

---
 ocbpy/_boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 94c7b05..e0ae1a0 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -929,6 +929,10 @@ class EABoundary(OCBoundary):
                  boundary_lat=64.0, stime=None, etime=None, rfunc=None,
                  rfunc_kwargs=None):
 
+        # The instrument names are not case sensitive
+        if hasattr(instrument, "lower"):
+            instrument = instrument.lower()
+
         # Process the defaults that differ for the EAB
         if rfunc is None:
             # Set to a function that will not alter the data
-- 
2.43.0


From e46b116ecc931bc08383b4ac6c70afdc21001d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 43/87] fix: keep the seconds of day when trailing date
 characters are dropped

---
 ocbpy/ocb_time.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index 500c831..8fc5988 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -166,16 +166,6 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
 
             dtime = dt.datetime.strptime(str_time, datetime_fmt)
 
-            if sod is not None:
-                # Add the seconds of day to dtime
-                microsec, sec = np.modf(sod)
-                dtime += dt.timedelta(seconds=int(sec))
-
-                if microsec > 0.0:
-                    # Add the microseconds to dtime
-                    microsec = np.ceil(microsec * 1.0e6)
-                    dtime += dt.timedelta(microseconds=int(microsec))
-
     except ValueError as verr:
         if(len(verr.args) > 0
            and verr.args[0].startswith('unconverted data remains: ')):
@@ -185,6 +175,16 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
         else:
             raise ValueError(verr)
 
+    if sod is not None and (year is None or soy is None):
+        # Add the seconds of day to dtime
+        microsec, sec = np.modf(sod)
+        dtime += dt.timedelta(seconds=int(sec))
+
+        if microsec > 0.0:
+            # Add the microseconds to dtime
+            microsec = np.ceil(microsec * 1.0e6)
+            dtime += dt.timedelta(microseconds=int(microsec))
+
     return dtime
 
 
-- 
2.43.0


From ee35a740896c4f4280bdcef8c9f78043c4c0c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 44/87] fix: rotate vectors relative to a southern pole in the
 right direction

---
 ocbpy/vectors.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 5522684..b77564f 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -572,6 +572,17 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     pole_angle = np.asarray(pole_angle)
     pole_quad = np.asarray(pole_quad)
 
+    # The angle and quadrant of a southern pole are relative to the southern
+    # base pole, mirror these vectors about the equator
+    south_mask = pole_lat < 0.0
+    if np.any(south_mask):
+        mirror = np.where(south_mask, -1.0, 1.0)
+        vect_n = vect_n * mirror
+        vect_lat = vect_lat * mirror
+        pole_lat = pole_lat * mirror
+        vect_quad = np.where(south_mask & (vect_quad > 0), 5 - vect_quad,
+                             vect_quad)
+
     # Initialize the output, ensuring it is the same shape
     out_shape = (vect_lt + vect_lat + vect_n + vect_e + vect_z + vect_quad
                  + pole_lt + pole_lat + pole_angle + pole_quad).shape
@@ -708,4 +719,8 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                 dest_naz_angle)[norm_mask]
             dest_z[norm_mask] = vz
 
+    # Return the north component of the mirrored vectors
+    if np.any(south_mask):
+        dest_n = dest_n * mirror
+
     return dest_n, dest_e, dest_z
-- 
2.43.0


From a2f0f11e7b05ea73beaf38412bcc16f208e47316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 45/87] fix: keep the boundary index apart from the index of
 the vector data

---
 ocbpy/ocb_scaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index fde19e8..c10615f 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -661,8 +661,9 @@ class VectorData(object):
             # Because the boundary locations and magnetic field are both time
             # dependent, we can't call this function with multiple OCB/EABs
             if self.ocb_ind.shape == ():
-                # Initialise the boundary index
-                ocb.rec_ind = self.ocb_ind
+                # Initialise the boundary index, which is altered in place when
+                # cycling through the boundaries
+                ocb.rec_ind = int(self.ocb_ind)
 
                 # Calculate the coordinates and save the output
                 out_coord = ocb.normal_coord(self.lat, self.lt,
-- 
2.43.0


From c56e342259ad82444ee43bc8e9a10659a9f42287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 46/87] fix: replace the fill value of SuperMAG magnetic
 latitudes

---
 ocbpy/instruments/supermag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 753bdd5..4127b26 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -306,7 +306,7 @@ def load_supermag_ascii_data(filename):
         else:
             out[k] = np.array(out[k])
 
-            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'BZ']:
+            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'MLAT', 'BZ']:
                 out[k][out[k] == fill_val] = np.nan
 
     return header, out
-- 
2.43.0


From 4baf0d4e960195fb6549b1500f3d05ef7c61fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 47/87] fix: keep exact seconds when loading vorticity times

---
 ocbpy/instruments/vort.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 746c71b..3c87056 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -294,10 +294,12 @@ def load_vorticity_ascii_data(vortfile, save_all=False):
                 dd = int(vsplit[2])
                 hh = float(vsplit.pop())
 
-                # Calculate and save the datetime
+                # Calculate and save the datetime, without letting rounding
+                # errors drop a second
                 stime = " ".join(vsplit)
                 dtime = (dt.datetime.strptime(stime, "%Y %m %d")
-                         + dt.timedelta(seconds=np.floor(hh * 3600.0)))
+                         + dt.timedelta(seconds=np.floor(
+                             np.round(hh * 3600.0, 6))))
                 vinc += 1
 
                 # Move to next line
-- 
2.43.0


From 7078472f63bc36b84719074c0287d6c579f1250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 48/87] fix: cast the year and seconds of year columns wherever
 they are

---
 ocbpy/instruments/general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 34ee383..9f61aff 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -124,7 +124,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
 
     # Make sure the max_str_length is long enough to read datetime and that
     # the time data will be cast in the correct format
-    if datetime_fmt is not None:
+    if datetime_fmt is not None and len(datetime_cols) > 0:
         dt_str_len = ocbt.get_datetime_fmt_len(datetime_fmt)
         if max_str_length < dt_str_len:
             max_str_length = dt_str_len
@@ -132,11 +132,11 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         if datetime_fmt.upper().find("YEAR") >= 0:
             ipart = datetime_fmt.upper().find("YEAR")
             case_part = datetime_fmt[ipart:ipart + 4]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
         if datetime_fmt.upper().find("SOY") >= 0:
             ipart = datetime_fmt.upper().find("SOY")
             case_part = datetime_fmt[ipart:ipart + 3]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
 
     # Open the data file and read the header rows
     with open(filename, "r") as fin:
-- 
2.43.0


From 20fd2ff00b22b5996a7a3789a3a4f08080028a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 49/87] fix: load files in which every name of the time is
 taken

---
 ocbpy/instruments/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 9f61aff..3083bb2 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -174,7 +174,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     dt_keys = ['datetime', 'DATETIME', 'DT', 'dt']
     if len(datetime_cols) > 0 and datetime_fmt is not None:
         idt = 0
-        while dt_keys[idt] in out.keys():
+        while idt < len(dt_keys) and dt_keys[idt] in out.keys():
             idt += 1
 
         if idt < len(dt_keys):
-- 
2.43.0


From 9ab1c13ef77d04dc1d918a3673786861e0017b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 50/87] fix: load times from files with a single column

---
 ocbpy/instruments/general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 3083bb2..c59037d 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -193,9 +193,9 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     # Open the datafile and read the data rows
     temp = np.genfromtxt(filename, skip_header=hlines, dtype=str, **gft_kwargs)
 
-    # A single row of several columns, or a single value, loses a dimension
-    if temp.size > 0 and (temp.ndim == 0 or (temp.ndim == 1 and nhead > 1)):
-        temp = temp.reshape((1, -1))
+    # A single row or a single column loses a dimension
+    if temp.size > 0 and temp.ndim < 2:
+        temp = temp.reshape((1, -1) if nhead > 1 else (-1, 1))
 
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
-- 
2.43.0


From 3d0891207f60cc0056d3ce68509d946e3e01ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 51/87] fix: accept every documented instrument for the default
 EAB file

---
 ocbpy/_boundary.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index e0ae1a0..179bdc4 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -933,17 +933,20 @@ class EABoundary(OCBoundary):
         if hasattr(instrument, "lower"):
             instrument = instrument.lower()
 
-        # Process the defaults that differ for the EAB
-        if rfunc is None:
-            # Set to a function that will not alter the data
-            self._set_default_rfunc(instrument)
-            rfunc = self.rfunc
-            self.rfunc = None
-
+        # Process the defaults that differ for the EAB, starting with the file
+        # because it determines the instrument
+        rfunc_inst = instrument
         if(hasattr(filename, "lower") and hasattr(instrument, "lower")
            and filename.lower() == "default"):
             filename, instrument = get_default_file(stime, etime, hemisphere,
                                                     instrument, bound='eab')
+            rfunc_inst = "default" if filename is None else instrument
+
+        if rfunc is None:
+            # Set to a function that will not alter the data
+            self._set_default_rfunc(rfunc_inst)
+            rfunc = self.rfunc
+            self.rfunc = None
 
         # Initialize the class
         OCBoundary.__init__(self, filename=filename, instrument=instrument,
-- 
2.43.0


From 35322fc9f713b95d27591e3ef7ce9b9693a3d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 52/87] fix: stop looking for the name of a missing DMSP SSJ
 zip archive

---
 ocbpy/boundaries/dmsp_ssj_files.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 8c6834d..ff83bf2 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -135,7 +135,11 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
         # If the archive is already available, message may differ
         zip_name = os.path.split(zen_split[link_ind])
         while zip_name[-1].find(".zip") <= 0:
-            zip_name = os.path.split(zip_name[0])
+            link = zip_name[0]
+            zip_name = os.path.split(link)
+
+            if zip_name[0] == link:
+                raise ValueError('no zip archive in the link')
 
         # Set the archive name
         archive_name = os.path.join(out_dir, zip_name[-1])
-- 
2.43.0


From cc4e2e7c0eb8fca2cd45e426d958565bcd35ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 53/87] fix: raise IOError if zenodo_get exits after a failed
 download

---
 ocbpy/boundaries/dmsp_ssj_files.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index ff83bf2..eb0f075 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -114,7 +114,12 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
     zenodo_checksum = os.path.join(out_dir, 'md5sums.txt')
 
     with redirect_stdout(zenodo_io), redirect_stderr(zenodo_io):
-        zenodo_get.zenodo_get([doi, '-o', out_dir])
+        try:
+            zenodo_get.zenodo_get([doi, '-o', out_dir])
+        except SystemExit:
+            # zenodo_get ends the program after a failed download or checksum
+            raise IOError('unable to download archive: {:s}'.format(
+                zenodo_io.getvalue()))
 
     # Parse the output and retrieve files from the zip archive
     zen_msg = zenodo_io.getvalue()
-- 
2.43.0


From aebf24e9d47317a9870f3daa42000ce4fd67a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 54/87] fix: name formatted DMSP SSJ files after the range of
 all input files

---
 ocbpy/boundaries/dmsp_ssj_files.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index eb0f075..07b0be3 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -315,12 +315,12 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     # Specify the output file information
     outfile_prefix = os.path.commonprefix(list(csv_files)).rsplit(
         '-f', 1)[0]
-    filename_sec = os.path.split(
-        csv_files[0])[-1].split('dmsp-f')[-1].split('_')
-    sdate = filename_sec[3]
+    file_dates = [os.path.split(infile)[-1].split('dmsp-f')[-1].split('_')[3]
+                  for infile in csv_files]
+    sdate = min(file_dates)
+    edate = max(file_dates)
     filename_sec = os.path.split(
         csv_files[-1])[-1].split('dmsp-f')[-1].split('_')
-    edate = filename_sec[3]
 
     bound_files = {hh: {bb: "".join([outfile_prefix, "-", filename_sec[1], "_",
                                      hemi_suffix[hh], "_", sdate, "_", edate,
-- 
2.43.0


From 01969227e7301ff8f0c6936e19236e455c827fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 55/87] fix: determine the boundary type of file names that
 start with it

---
 ocbpy/instruments/pysat_instruments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index eb6a144..4a0c982 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -191,11 +191,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             if ocbfile.lower() in ['eab', 'ocb', 'dual']:
                 ocbfile = "default"
 
-        if fileroot.find("ocb") > 0 and fileroot.find("eab") < 0:
+        if fileroot.find("ocb") >= 0 and fileroot.find("eab") < 0:
             # Initialize the OCBoundary object
             ocb = ocbpy.OCBoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-        elif fileroot.find("ocb") < 0 and fileroot.find("eab") > 0:
+        elif fileroot.find("ocb") < 0 and fileroot.find("eab") >= 0:
             # Initialize the EABoundary object
             ocb = ocbpy.EABoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-- 
2.43.0


From 226f016db5965be2f4bf2ab9a1cfa4510b8ae9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 56/87] fix: keep processing pysat data with undefined vectors

---
 ocbpy/instruments/pysat_instruments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 4a0c982..b447129 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -507,6 +507,12 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                         else:
                             vector_init[ikey] = vname
 
+                    # Vectors without any complete data remain undefined
+                    if not np.any(np.isfinite(np.asarray(
+                            vector_init["vect_n"] + vector_init["vect_e"]
+                            + vector_init["vect_z"], dtype=float))):
+                        continue
+
                     # Perform the vector scaling
                     vout = ocbscal.VectorData(vind, ocb.rec_ind, lat[iout],
                                               lt[iout], **vector_init)
-- 
2.43.0


From eb82975f97a4d5e3756413f0463227db0059fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 57/87] fix: keep locations, heights, and data of pysat grids
 together

---
 ocbpy/instruments/pysat_instruments.py | 154 +++++++++++--------------
 1 file changed, 67 insertions(+), 87 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index b447129..8f6422f 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -294,13 +294,6 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                         vector_attrs[oattr].append(vector_names[eattr][vinit])
                     vdim += 1
 
-    # Determine how many of the pysat names are variables
-    pysat_var_names = len(pysat_names)
-    if not pysat_inst.pandas_format:
-        for pyname in pysat_names:
-            if pyname in pysat_inst.data.coords:
-                pysat_var_names -= 1
-
     # Append the remaining OCB output names
     for eattr in evar_names:
         ocb_names.append("{:s}_{:s}".format(eattr, bname))
@@ -318,15 +311,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     if pysat_inst.pandas_format:
         finite_mask = ((np.sign(lat) == hemisphere)
                        & np.isfinite(pysat_inst[:, pysat_names].max(axis=1)))
-        dat_coords = [pysat_inst.index.name]
-        combo_shape = [pysat_inst.index.shape[0]]
     else:
         nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
                                          == hemisphere)
         finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
             'variable'))
-        dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-    dat_ind = np.where(finite_mask)
 
     # Test the OCB data
     if ocb.records == 0:
@@ -334,79 +323,73 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         return
 
     # Ensure the LT, Lat, and Height data are the same shape
-    if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
-            0] or (height.shape != lat.shape and len(height.shape) > 0):
-        if pysat_inst.pandas_format:
+    ocb_coords = [pysat_inst.index.name]
+    if pysat_inst.pandas_format:
+        if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
+                0] or (height.shape != lat.shape and len(height.shape) > 0):
             raise ValueError('unexpected height shape or bad lat/lt data')
 
-        # Use local time to set the initial coordinates, since it will have
-        # UT dependence and latitude may not
-        ocb_coords = [lt_coord for lt_coord
-                      in pysat_inst[mlt_name].coords.keys()]
-        combo_shape = list(lt.shape)
-
-        # Expand the coordinates if the lat coordinates are not the
-        # same as the LT coordinates or height coordinatess
-        for lat_coord in pysat_inst[mlat_name].coords:
-            if lat_coord not in pysat_inst[mlt_name].coords:
-                combo_shape.append(pysat_inst[lat_coord].shape[0])
-                ocb_coords.append(lat_coord)
-
-        # Reshape the latitude and local time data if necessary
-        if lat.shape != tuple(combo_shape) or lt.shape != tuple(combo_shape):
-            out_lat, out_lt = np.meshgrid(lat, lt)
-            lat = out_lat.reshape(combo_shape)
-            lt = out_lt.reshape(combo_shape)
-
-        # Determine if reshaping for altitude is necessary
         if len(height.shape) == 0:
             height = np.full(shape=lat.shape, fill_value=height)
-        elif height.shape != lat.shape:
-            if height_name in pysat_inst.variables:
-                new_coords = False
-                for alt_coord in pysat_inst[height_name].coords:
-                    if alt_coord not in ocb_coords:
-                        combo_shape.append(pysat_inst[alt_coord].shape[0])
-                        ocb_coords.append(alt_coord)
-                        new_coords = True
-
-                # Reshape the data
-                if new_coords:
-                    out_lat, out_height = np.meshgrid(lat, height)
-                    out_lt, _ = np.meshgrid(lt, height)
-                    lat = out_lat.reshape(combo_shape)
-                    height = out_height.reshape(combo_shape)
-                    lt = out_lt.reshape(combo_shape)
-                else:
-                    height = height.reshape(combo_shape)
-            elif len(height.shape) == len(lat.shape):
-                # Try and reshape the height
-                height = height.reshape(combo_shape)
-            else:
-                # Can't reshape the height
-                raise ValueError('unexpected height shape')
     else:
-        ocb_coords = [pysat_inst.index.name]
+        # Use time and local time to set the initial coordinates, then add the
+        # coordinates of the latitude, height, and the remaining data
+        coord_names = [mlt_name, mlat_name]
+        if height_name in pysat_inst.variables:
+            coord_names.append(height_name)
+
+        for pyname in coord_names + pysat_names:
+            for dcoord in pysat_inst[pyname].dims:
+                if dcoord not in ocb_coords:
+                    ocb_coords.append(dcoord)
+
+        combo_shape = [pysat_inst.data.sizes[dcoord] for dcoord in ocb_coords]
+
+        def set_shape(values, dims):
+            """Reshape the values to use all of the OCB coordinates.
+
+            Parameters
+            ----------
+            values : np.array
+                Values with some of the coordinates
+            dims : tuple
+                Coordinate names for the dimensions of the values
+
+            Returns
+            -------
+            np.array
+                Values with the dimensions of the OCB coordinates
+
+            """
+            order = [dims.index(dcoord) for dcoord in ocb_coords
+                     if dcoord in dims]
+            shape = [nc if dcoord in dims else 1
+                     for nc, dcoord in zip(combo_shape, ocb_coords)]
+            return np.broadcast_to(values.transpose(order).reshape(shape),
+                                   combo_shape)
+
+        # Get the coordinates of the height
+        if height_name in pysat_inst.variables:
+            height = set_shape(height, pysat_inst[height_name].dims)
+        elif len(height.shape) > 0:
+            height_dims = [pysat_inst[pyname].dims for pyname in pysat_names
+                           if pysat_inst[pyname].shape == height.shape]
+
+            if len(height_dims) == 0:
+                raise ValueError('unexpected height shape')
+
+            height = set_shape(height, height_dims[0])
+
+        lat = set_shape(lat, pysat_inst[mlat_name].dims)
+        lt = set_shape(lt, pysat_inst[mlt_name].dims)
+        finite_mask = finite_mask.expand_dims(
+            {dcoord: nc for nc, dcoord in zip(combo_shape, ocb_coords)
+             if dcoord not in finite_mask.dims}).transpose(*ocb_coords)
 
         if len(height.shape) == 0:
             height = np.full(shape=lat.shape, fill_value=height)
 
-    # See if the data has more dimensions than the OCB coordinates
-    if len(dat_coords) > len(ocb_coords):
-        combo_shape = list(lat.shape)
-        for dcoord in dat_coords:
-            if dcoord not in ocb_coords:
-                ocb_coords.append(dcoord)
-                combo_shape.append(pysat_inst[dcoord].shape[0])
-
-        # Reverse and transpose the arrays
-        combo_shape.reverse()
-        out_lat = np.full(shape=combo_shape, fill_value=lat.transpose())
-        out_lt = np.full(shape=combo_shape, fill_value=lt.transpose())
-        out_height = np.full(shape=combo_shape, fill_value=height.transpose())
-        lat = out_lat.transpose()
-        lt = out_lt.transpose()
-        height = out_height.transpose()
+    dat_ind = np.where(finite_mask)
 
     # Initialise the OCB output
     ocb_output = dict()
@@ -444,18 +427,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         if idat < ndat and ocb.rec_ind < ocb.records:
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
-            if len(dat_coords) > 1:
+            if len(ocb_coords) > 1:
                 iout = tuple(dind[time_ind] for dind in dat_ind)
-                if pysat_var_names > 1:
-                    # If there is more than one variable, need to downselect
-                    time_sel = pysat_inst[pysat_names].to_array().max(
-                        'variable')
-                else:
-                    time_sel = pysat_inst[pysat_names]
-
-                time_mask = np.isfinite(time_sel.where(
-                    finite_mask & (pysat_inst[pysat_inst.index.name]
-                                   == pysat_inst.index[uind][idat])))
+                time_mask = finite_mask.copy(
+                    data=np.zeros(shape=finite_mask.shape, dtype=bool))
+                time_mask.values[iout] = True
                 vind = iout[0]
             else:
                 iout = dat_ind[0][time_ind]
@@ -612,7 +588,7 @@ def reshape_pad_mask_flatten(data, mask):
     """
     if np.all(mask.dims == data.dims):
         if mask.shape == data.shape:
-            flat = data.where(mask, drop=True).values.flatten()
+            flat = data.values[mask.values]
         else:
             raise ValueError('different shapes for the same dimesions')
     else:
@@ -623,6 +599,10 @@ def reshape_pad_mask_flatten(data, mask):
         # Pad by adding the additional dimensions if needed
         if len(data_dims) < len(mask.dims):
             try:
+                # Only additional trailing dimensions may be padded
+                if data_dims != list(mask.dims[:len(data.dims)]):
+                    raise ValueError('mismatched dimensions for VectorData')
+
                 flat = np.full(shape=tuple(reversed(list(mask.shape))),
                                fill_value=flat.transpose()).transpose()
             except Exception as xerr:
-- 
2.43.0


From 00eaffcbb79b3c6dc69a05072c557df266832625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 58/87] fix: exclude the other hemisphere from satellite tracks

---
 ocbpy/cycle_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 0cd9679..ba94031 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -312,12 +312,12 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
         # Evaluate the closest lower boundary limit
         if len(lat[ione]) > 0:
             lat_bound = 90.0 - np.sqrt(x1**2 + y1**2) - past_bound
-            ipast = np.where(abs(lat[ione]) < lat_bound)
+            ipast = np.where(hemisphere * lat[ione] < lat_bound)
             good[ione[0][ipast]] = False
 
         if len(lat[itwo]) > 0:
             lat_bound = 90.0 - np.sqrt(x2**2 + y2**2) - past_bound
-            ipast = np.where(abs(lat[itwo]) < lat_bound)
+            ipast = np.where(hemisphere * lat[itwo] < lat_bound)
             good[itwo[0][ipast]] = False
 
     # Return the boolean mask
-- 
2.43.0


From 99bf0141acd50aa38e651d4ce9b9f40cf59035fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 59/87] fix: select locations along tracks parallel to the
 y-axis

---
 ocbpy/cycle_boundary.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index ba94031..4627681 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -284,21 +284,25 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
     lat = np.asarray(lat)
     mlt = np.asarray(mlt)
 
-    # Get the equation of the line defining the upper and lower bounds
-    slope = (y1 - y2) / (x1 - x2)
-    high_int = y1 + del_y - slope * (x1 + del_x)
-    low_int = y1 - del_y - slope * (x1 - del_x)
-
     # Determine the Cartesian coordinates of the input point
     rad_in = ocb_time.hr2rad(mlt - 6.0)
     x_in = (90.0 - hemisphere * lat) * np.cos(rad_in)
     y_in = (90.0 - hemisphere * lat) * np.sin(rad_in)
 
-    # Calculate the upper and lower limits for each of the x-inputs
-    y_low = slope * x_in + low_int
-    y_high = slope * x_in + high_int
+    if x1 == x2:
+        # The track is parallel to the y-axis
+        good = (x_in >= x1 - del_x) & (x_in <= x1 + del_x)
+    else:
+        # Get the equation of the line defining the upper and lower bounds
+        slope = (y1 - y2) / (x1 - x2)
+        high_int = y1 + del_y - slope * (x1 + del_x)
+        low_int = y1 - del_y - slope * (x1 - del_x)
+
+        # Calculate the upper and lower limits for each of the x-inputs
+        y_low = slope * x_in + low_int
+        y_high = slope * x_in + high_int
 
-    good = (y_in >= y_low) & (y_in <= y_high)
+        good = (y_in >= y_low) & (y_in <= y_high)
 
     # Ensure the latitude is not too low
     if np.any(good):
-- 
2.43.0


From 91e6055405da8e6b970dc43846955c310fc04554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 60/87] fix: judge every location of multi-dimensional
 satellite track data

---
 ocbpy/cycle_boundary.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 4627681..2557e45 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -304,25 +304,14 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
 
         good = (y_in >= y_low) & (y_in <= y_high)
 
-    # Ensure the latitude is not too low
-    if np.any(good):
-        r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
-        r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
-
-        # Find which boundary is closest to the good points
-        ione = np.where(good & (r1 <= r2))
-        itwo = np.where(good & (r2 < r1))
-
-        # Evaluate the closest lower boundary limit
-        if len(lat[ione]) > 0:
-            lat_bound = 90.0 - np.sqrt(x1**2 + y1**2) - past_bound
-            ipast = np.where(hemisphere * lat[ione] < lat_bound)
-            good[ione[0][ipast]] = False
-
-        if len(lat[itwo]) > 0:
-            lat_bound = 90.0 - np.sqrt(x2**2 + y2**2) - past_bound
-            ipast = np.where(hemisphere * lat[itwo] < lat_bound)
-            good[itwo[0][ipast]] = False
+    # Find which boundary is closest to the points
+    r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
+    r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
+
+    # Ensure the latitude is not too low, using the closest boundary
+    lat_bound = 90.0 - past_bound - np.where(
+        r1 <= r2, np.sqrt(x1**2 + y1**2), np.sqrt(x2**2 + y2**2))
+    good &= hemisphere * lat >= lat_bound
 
     # Return the boolean mask
     return good
-- 
2.43.0


From 5bbbfabbf236e86ed1591a30d7b871b2a4f780d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 61/87] fix: print each vector of several boundaries once

---
 ocbpy/ocb_scaling.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index c10615f..5fd8b92 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -243,24 +243,25 @@ class VectorData(object):
             out = '\n'.join([out, "   Value: Mag. [N, E, Z] Index"])
             for i, mag in enumerate(self.ocb_mag):
                 if self.vect_mag.shape == () and i == 0:
-                    vec_line = ''.join([
-                        self.vect_coord, ": {:.3g}".format(self.vect_mag),
+                    out = ''.join([
+                        out, "\n", self.vect_coord,
+                        ": {:.3g}".format(self.vect_mag),
                         " [{:.3g}, {:.3g}, ".format(self.vect_n, self.vect_e),
                         "{:.3g}] {:d}".format(self.vect_z, self.dat_ind)])
                 elif self.vect_mag.shape != ():
-                    vec_line = ''.join([
-                        self.vect_coord, ": {:.3g} [".format(self.vect_mag[i]),
+                    out = ''.join([
+                        out, "\n", self.vect_coord,
+                        ": {:.3g} [".format(self.vect_mag[i]),
                         "{:.3g}, {:.3g}".format(self.vect_n[i], self.vect_e[i]),
                         ", {:.3g}] {:d}".format(self.vect_z[i],
                                                 self.dat_ind[i])])
                 if not np.isnan(mag):
-                    vec_line = "".join([
-                        vec_line, "\n     OCB: {:.3g} [".format(mag),
+                    out = "".join([
+                        out, "\n     OCB: {:.3g} [".format(mag),
                         "{:.3g}, {:.3g}, ".format(self.ocb_n[i], self.ocb_e[i]),
                         "{:.3g}] {:d}".format(
                             self.ocb_z[i], self.ocb_ind
                             if self.ocb_ind.shape == () else self.ocb_ind[i])])
-                out = '\n'.join([out, vec_line])
 
         # Print the scaling information
         out = "\n".join([out, "-------------------------------------------",
-- 
2.43.0


From 305c3bd6b207285c92912c6ddd580c408626abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 62/87] fix: represent long arrays and names of VectorData
 completely

---
 ocbpy/ocb_scaling.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 5fd8b92..f4ad736 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -18,6 +18,7 @@ References
 
 import aacgmv2
 import numpy as np
+import sys
 
 import ocbpy
 from ocbpy import ocb_time
@@ -159,22 +160,24 @@ class VectorData(object):
             repr_func = ".".join([self.scale_func.__module__,
                                   self.scale_func.__name__])
 
-        # Format the base output
-        out = "".join(["ocbpy.ocb_scaling.VectorData(", repr(self.dat_ind),
-                       ", ", repr(self.ocb_ind), ", ", repr(self.lat),
-                       ", ", repr(self.lt), ", height=", repr(self.height),
-                       ", loc_coord=", repr(self.loc_coord), ", ocb_lat=",
-                       repr(self.ocb_lat), ", ocb_mlt=", repr(self.ocb_mlt),
-                       ", r_corr=", repr(self.r_corr), ", vect_n=",
-                       repr(self.vect_n), ", vect_e=", repr(self.vect_e),
-                       ", vect_z=", repr(self.vect_z), ", vect_mag=",
-                       repr(self.vect_mag), ", vect_coord=",
-                       repr(self.vect_coord), ", dat_name=",
-                       repr(self.dat_name), ", dat_units=",
-                       repr(self.dat_units), ", scale_func=", repr_func, ")"])
-
-        # Reformat the numpy representations
+        # Format the base output, including all of the values of long arrays
+        with np.printoptions(threshold=sys.maxsize):
+            out = "".join(["ocbpy.ocb_scaling.VectorData(", repr(self.dat_ind),
+                           ", ", repr(self.ocb_ind), ", ", repr(self.lat),
+                           ", ", repr(self.lt), ", height=", repr(self.height),
+                           ", loc_coord=", repr(self.loc_coord), ", ocb_lat=",
+                           repr(self.ocb_lat), ", ocb_mlt=", repr(self.ocb_mlt),
+                           ", r_corr=", repr(self.r_corr), ", vect_n=",
+                           repr(self.vect_n), ", vect_e=", repr(self.vect_e),
+                           ", vect_z=", repr(self.vect_z), ", vect_mag=",
+                           repr(self.vect_mag), ", vect_coord=",
+                           repr(self.vect_coord)])
+
+        # Reformat the numpy representations, before adding the data name
         out = out.replace('array', 'numpy.array')
+        out = "".join([out, ", dat_name=", repr(self.dat_name),
+                       ", dat_units=", repr(self.dat_units), ", scale_func=",
+                       repr_func, ")"])
 
         return out
 
-- 
2.43.0


From 4aec40d14907abe6875745182342814ea2926b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 63/87] fix: represent boundary objects without data

---
 ocbpy/_boundary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 179bdc4..026c186 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -205,7 +205,7 @@ class OCBoundary(object):
             repr_rfunc = repr(self.rfunc)
         else:
             rfuncs = [".".join([ff.__module__, ff.__name__])
-                      for ff in self.rfunc]
+                      for ff in np.atleast_1d(self.rfunc)]
 
             if len(set(rfuncs)) == 1:
                 repr_rfunc = rfuncs[0]
@@ -217,7 +217,8 @@ class OCBoundary(object):
         if self.rfunc_kwargs is None:
             repr_rfunc_kwargs = repr(self.rfunc_kwargs)
         else:
-            rfuncs_kwargs = [repr(rkwarg) for rkwarg in self.rfunc_kwargs]
+            rfuncs_kwargs = [repr(rkwarg)
+                             for rkwarg in np.atleast_1d(self.rfunc_kwargs)]
 
             if len(set(rfuncs_kwargs)) == 1:
                 repr_rfunc_kwargs = rfuncs_kwargs[0]
-- 
2.43.0


From 63f20762fdff26fae5857fa4c0e3c95a3dc37552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 64/87] fix: keep lower-case location coordinates

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index f4ad736..6a0cd52 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -996,7 +996,7 @@ class VectorData(object):
             # Update the location attributes
             self.lat = np.asarray(new_lat)
             self.lt = np.asarray(new_lt)
-            self.loc_coord = coord
+            self.loc_coord = coord.lower()
 
         return
 
-- 
2.43.0


From d623310eca5d11c14a0abb6024bfe989b7d810ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 65/87] fix: convert locations between geographic systems

---
 ocbpy/ocb_scaling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 6a0cd52..ff01ce7 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -906,6 +906,12 @@ class VectorData(object):
         """
         dtime = None
 
+        if 'magnetic' not in [coord.lower(), self.loc_coord] and (
+                coord.lower() != self.loc_coord):
+            # The different geographic coordinate systems are both converted
+            # to and from magnetic coordinates
+            self.update_loc_coords(dtimes, trace_method=trace_method)
+
         if coord.lower() != self.loc_coord:
             # Ensure the data is shaped correctly
             if len(self.lt.shape) == 0 and len(self.lat.shape) == 0:
-- 
2.43.0


From 07daa6f8aca9e37f781857647bb4aee6a67b8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 66/87] fix: revert paired coordinates of the loaded hemisphere
 only

---
 ocbpy/_boundary.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 026c186..ee3523c 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1607,6 +1607,11 @@ class DualBoundary(object):
 
         # If not already flagged, see if all OCB by location
         if not is_ocb:
+            # Dual-boundary latitudes only exist in the loaded hemisphere
+            ibad = np.where(np.sign(ocb_lat) == -self.hemisphere)[0]
+            lat[ibad] = np.nan
+            lt[ibad] = np.nan
+
             iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
 
             if len(ocb_lat) == len(iocb):
@@ -1659,6 +1664,8 @@ class DualBoundary(object):
             imid = np.where((abs(ocb_lat) < abs(self.ocb.boundary_lat))
                             & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))[0]
             iout = np.where(abs(ocb_lat) < abs(self.eab.boundary_lat))[0]
+            imid = imid[~np.isin(imid, ibad)]
+            iout = iout[~np.isin(iout, ibad)]
 
             if len(imid) > 0:
                 lat[imid] = ocb_aacgm_boundary[imid] - (
-- 
2.43.0


From 934e89d32c28f108849499b73fce371bd1ab0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 67/87] fix: leave locations of no dual-boundary region
 undefined in any batch

---
 ocbpy/_boundary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index ee3523c..8177ae4 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1473,15 +1473,15 @@ class DualBoundary(object):
 
         # Test to ensure that all points fall into a region
         iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-        if len(iocb) + len(imid) + len(iout) < len(aacgm_lat):
+        igood = np.unique(np.concatenate([iocb, imid, iout]))
+        if len(igood) < len(aacgm_lat):
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
                     eab_aacgm_boundary).any():
                 msg += ", boundaries are poorly defined"
             logger.warning(msg)
 
-            ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
-                    and i not in imid and i not in iout]
+            ibad = [i for i in range(len(aacgm_lat)) if i not in igood]
             bound_lat[ibad] = np.nan
 
         if len(imid) > 0:
-- 
2.43.0


From c15c738419cb630becc8b4faf407faa4f42cc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 68/87] fix: give the vector magnitude the shape of shared
 components

---
 ocbpy/ocb_scaling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index ff01ce7..ab1cb67 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -127,7 +127,6 @@ class VectorData(object):
         self.height = height
         self.loc_coord = loc_coord.lower()
         self.vect_coord = vect_coord.lower()
-        self.vect_mag = vect_mag
 
         # Test the coordinate systems for valid options
         self._test_coords()
@@ -135,6 +134,9 @@ class VectorData(object):
         # Test the initalization shape and update the vector shapes if needed
         self._test_update_vector_shape()
 
+        # Assign the magnitude, which has the shape of the vector components
+        self.vect_mag = vect_mag
+
         # Assign the OCB vector default values
         self.ocb_lat = ocb_lat
         self.ocb_mlt = ocb_mlt
@@ -481,7 +483,7 @@ class VectorData(object):
                 ocbpy.logger.warning("".join([
                     "inconsistent vector components with a maximum difference ",
                     "of {:} > 1.0e-3".format(abs(vect_mag - vect_sqrt).max())]))
-            self._vect_mag = vect_mag
+            self._dat_attr_setter('_vect_mag', vect_mag)
         return
 
     @property
-- 
2.43.0


From 1b047fdd0b814e417512f4e5dce5d651183c5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 69/87] fix: let vectors without a defined location have
 undefined scaling radii

---
 ocbpy/ocb_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index ab1cb67..e2526f8 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -628,6 +628,10 @@ class VectorData(object):
         self.ocb_z = np.full(shape=self.vshape, fill_value=np.nan)
         self.ocb_mag = np.full(shape=self.vshape, fill_value=np.nan)
 
+        # Assign the default radii used to scale the vectors
+        self.unscaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+        self.scaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+
         # Assign the default pole locations, relative angles, and quadrants
         self.ocb_quad = np.zeros(shape=self.vshape)
         self.vec_quad = np.zeros(shape=self.vshape)
-- 
2.43.0


From 6ca192eba4f4349d670115981bd98cdb915f148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 70/87] fix: keep values just below a shifted maximum in range
 in fix_range

---
 ocbpy/ocb_time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index 8fc5988..d0dcc34 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -430,6 +430,10 @@ def fix_range(values, min_val, max_val, val_range=None):
         fixed_vals[ibad] = (max_val - val_range) + np.mod(
             fixed_vals[ibad] - max_val, val_range)
 
+        # Values within the machine precision of the maximum may be rounded up
+        fixed_vals[ibad & np.greater_equal(fixed_vals, max_val)] = (
+            max_val - val_range)
+
     ibad = np.less(fixed_vals, min_val)
     if np.any(ibad):
         fixed_vals[ibad] = min_val + np.mod(fixed_vals[ibad] - min_val,
-- 
2.43.0


From 9985c0570f73e187714fd1f4e1f57923c6a83de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 71/87] fix: leave vectors without a boundary location
 undefined in any batch

---
 ocbpy/ocb_scaling.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index e2526f8..ea1825a 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -716,11 +716,17 @@ class VectorData(object):
             self.ocb_aacgm_mlt, self.ocb_aacgm_lat = vectors.get_pole_loc(
                 ocb.phi_cent[self.ocb_ind], ocb.r_cent[self.ocb_ind])
 
+        # The radii are not defined for vectors without a boundary location
+        has_loc = ~np.isnan(self.ocb_lat)
+        self.unscaled_r = np.where(has_loc, self.unscaled_r, np.nan)[()]
+        self.scaled_r = np.where(has_loc, self.scaled_r, np.nan)[()]
+
         # Get the angle at the data vector appended by the AACGM and OCB poles,
-        # which is not defined for vectors in the other hemisphere
+        # which is not defined for vectors in the other hemisphere or without
+        # a boundary location
         self.calc_vec_pole_angle()
-        self.pole_angle = np.where(np.sign(self.lat) == ocb.hemisphere,
-                                   self.pole_angle, np.nan)
+        self.pole_angle = np.where((np.sign(self.lat) == ocb.hemisphere)
+                                   & has_loc, self.pole_angle, np.nan)
 
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
-- 
2.43.0


From 6545ce4e72f83df04c6881f3b853b80aac8b3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 72/87] fix: only compare defined vector magnitudes with the
 components

---
 ocbpy/ocb_scaling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index ea1825a..ce1680a 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -478,11 +478,13 @@ class VectorData(object):
         if np.all(np.isnan(vect_mag)):
             self._vect_mag = vect_sqrt
         else:
-            if np.any(np.greater(abs(vect_mag - vect_sqrt), 1.0e-3,
-                                 where=~np.isnan(vect_mag))):
+            # Only compare the magnitudes that are defined
+            vect_diff = np.where(np.isnan(vect_mag - vect_sqrt), 0.0,
+                                 abs(vect_mag - vect_sqrt))
+            if np.any(vect_diff > 1.0e-3):
                 ocbpy.logger.warning("".join([
                     "inconsistent vector components with a maximum difference ",
-                    "of {:} > 1.0e-3".format(abs(vect_mag - vect_sqrt).max())]))
+                    "of {:} > 1.0e-3".format(vect_diff.max())]))
             self._dat_attr_setter('_vect_mag', vect_mag)
         return
 
-- 
2.43.0


From e1f5c565cca0822b72cc9bb767888a7e645a13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 73/87] fix: keep undefined angles out of supplied vector
 quadrants

---
 ocbpy/vectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index b77564f..06c969c 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -455,6 +455,10 @@ def calc_dest_vec_sign(pole_quad, vect_quad, base_naz_angle, pole_angle,
     if quads is None or not np.all([kk in quads.keys() for kk in quad_range]):
         quads = {o: {v: (pole_quad == o) & (vect_quad == v)
                      & nan_mask for v in quad_range} for o in quad_range}
+    else:
+        # Ensure the undefined angles are not assigned to a quadrant
+        quads = {o: {v: quads[o][v] & nan_mask for v in quad_range}
+                 for o in quad_range}
 
     # Initialise output
     vsigns = {"north": np.zeros(shape=quads[1][1].shape),
-- 
2.43.0


From e077c4e1fa9f888bbc252bae2060e87f6813082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 74/87] fix: locate points on the OCB in a dual-boundary region

---
 ocbpy/_boundary.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 8177ae4..d45cd6c 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1471,8 +1471,11 @@ class DualBoundary(object):
                         & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))[0]
         iout = np.where(abs(aacgm_lat) < abs(eab_aacgm_boundary))[0]
 
-        # Test to ensure that all points fall into a region
-        iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
+        # Test to ensure that all points fall into a region, rounding errors
+        # may place points on the OCB just outside of it
+        iocb = np.where((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
+                        | np.isclose(ocb_lat, self.ocb.boundary_lat, rtol=0.0,
+                                     atol=1.0e-9))[0]
         igood = np.unique(np.concatenate([iocb, imid, iout]))
         if len(igood) < len(aacgm_lat):
             msg = "not all points fall into a boundary region"
-- 
2.43.0


From 814d3610a51e41adacdde75742f9be54546dd608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 75/87] fix: do not keep the vertical part of undefined vectors

---
 ocbpy/vectors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 06c969c..a2a247f 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -685,13 +685,14 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                                     pole_angle, north=True, east=True)
 
         # Scale the vector along the OCB north
+        nan_mask = np.isnan(vmag) | (
+            np.isnan(dest_naz_angle) if len(dest_naz_angle.shape) == 0
+            else np.isnan(dest_naz_angle[norm_mask]))
+
         if len(vect_z.shape) == 0:
-            vz = vect_z
+            vz = np.where(nan_mask, np.nan, vect_z)
         else:
             vz = vect_z[norm_mask]
-            nan_mask = np.isnan(vmag) | (
-                np.isnan(dest_naz_angle) if len(dest_naz_angle.shape) == 0
-                else np.isnan(dest_naz_angle[norm_mask]))
             vz[nan_mask] = np.nan
 
         # Restrict the OCB angle to result in positive sines and cosines
-- 
2.43.0


From 01ee9e3f5dd8f5d8395e8fb0aee2177a2349bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 76/87] fix: load all of the paired boundaries in
 add_ocb_to_data

---
 ocbpy/instruments/pysat_instruments.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 8f6422f..744c00c 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -201,9 +201,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                    instrument=instrument, hemisphere=hemisphere)
         elif fileroot == 'dual':
             # This works by assigning default to both, or allowing additional
-            # inputs through `kwargs`
-            init_keys = {'hemisphere': hemisphere, 'stime': dstart,
-                         'etime': dend}
+            # inputs through `kwargs`. The paired boundaries may be separated
+            # by the maximum time difference.
+            max_delta = dt.timedelta(seconds=float(kwargs.get('max_delta', 60)))
+            init_keys = {'hemisphere': hemisphere, 'stime': dstart - max_delta,
+                         'etime': dend + max_delta}
             if len(kwargs.keys()) > 0:
                 sig = inspect.getfullargspec(ocbpy.DualBoundary.__init__)
                 for key in kwargs.keys():
-- 
2.43.0


From 41bf50629cdf8a1b90d09ee41e1c7aba3e20d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 77/87] fix: leave vectors without a location or horizontal
 part undefined

Vectors with a vertical part only kept it in a batch when they have no
boundary location, but not alone.
---
 ocbpy/ocb_scaling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index ce1680a..1b3f457 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -727,8 +727,8 @@ class VectorData(object):
         # which is not defined for vectors in the other hemisphere or without
         # a boundary location
         self.calc_vec_pole_angle()
-        self.pole_angle = np.where((np.sign(self.lat) == ocb.hemisphere)
-                                   & has_loc, self.pole_angle, np.nan)
+        has_loc = has_loc & (np.sign(self.lat) == ocb.hemisphere)
+        self.pole_angle = np.where(has_loc, self.pole_angle, np.nan)
 
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
@@ -747,6 +747,12 @@ class VectorData(object):
             # update the AACGM north azimuth of the vector.
             self.scale_vector()
 
+            # Vectors without a horizontal part don't depend on the angle, but
+            # are not defined without a boundary location either
+            for attr in ['ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag']:
+                setattr(self, attr, np.where(has_loc, getattr(self, attr),
+                                             np.nan)[()])
+
         return
 
     def define_quadrants(self):
-- 
2.43.0


From 4f9a0331b41703f8bc8ddb53cbf84b8372e42bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:39 +0000
Subject: [PATCH 78/87] fix: name the added vectors and find their metadata by
 variable

The name of the boundary was replaced anywhere in the names of vector
outputs. Vectors with a name that contains 'ocb' could not be added using
other boundaries (KeyError), different vectors could have the same output,
and the metadata of variables with the name of a boundary in their own name
was lost. The radii of vectors no longer lose the boundary from their name.
---
 ocbpy/instruments/pysat_instruments.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 744c00c..86bc79a 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -395,17 +395,17 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
 
     # Initialise the OCB output
     ocb_output = dict()
+    ocb_source = dict()
     for oattr in ocb_names:
         eattr = oattr[:-1 * len(bname) - 1]
         if eattr in vector_names.keys():
             for vattr in ocb_vect_attrs:
-                ovattr = '_'.join([oattr, vattr])
-                ovattr = ovattr.replace('_ocb_', '_')
-                if bname != "ocb":
-                    ovattr = ovattr.replace("ocb", bname)
+                ovattr = '_'.join([oattr, vattr.replace('ocb_', '')])
                 ocb_output[ovattr] = np.full(lat.shape, np.nan, dtype=float)
+                ocb_source[ovattr] = eattr
         else:
             ocb_output[oattr] = np.full(lat.shape, np.nan, dtype=float)
+            ocb_source[oattr] = eattr
 
     # Cycle through the data, matching data and OCB records
     idat = 0
@@ -498,8 +498,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
 
                     # Assign the vector attributes to the output
                     for vattr in ocb_vect_attrs:
-                        ovattr = '_'.join([oattr, vattr])
-                        ovattr = ovattr.replace('_ocb_', '_')
+                        ovattr = '_'.join([oattr, vattr.replace('ocb_', '')])
                         ocb_output[ovattr][iout] = getattr(vout, vattr)
 
             if hasattr(ocb, "ocb"):
@@ -539,7 +538,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             pysat_inst.data = pysat_inst.data.assign(set_data)
 
         # Update the pysat Metadata
-        eattr = oattr.split('_{:s}'.format(bname))[0]
+        eattr = ocb_source[oattr]
         if hasattr(ocb, "instrument"):
             notes = "".join(["Boundary obtained from ", ocb.instrument,
                              " data in file ", ocb.filename,
-- 
2.43.0


From ee9f09ca1493a20bb62a08fd8577aadf232a6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:39 +0000
Subject: [PATCH 79/87] fix: use the last boundary type in the name of boundary
 metadata

The first part of the name that matched a type of boundary was used, so
variables with the name of a boundary in their own name (e.g., x_eab_y_ocb)
were described as data for another type of boundary.
---
 ocbpy/instruments/pysat_instruments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 86bc79a..29b50ed 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -647,12 +647,14 @@ def add_ocb_to_metadata(pysat_inst, ocb_name, pysat_name, overwrite=False,
                   "dualb": "Dual Boundary", "": ""}
 
     bname = ""
-    for bkey in ocb_name.split("_"):
+    for bkey in reversed(ocb_name.split("_")):
         if len(bkey) > 0 and bkey in bound_desc.keys():
             bname = bkey
             break
 
     bextra = "" if len(bname) == 0 else "{:s}_".format(bname.upper())
+    base_name = ocb_name.rsplit("_{:s}".format(bname), 1)[0] if len(
+        bname) > 0 else ocb_name.split("_")[0]
 
     # Test the input
     if not isinstance(pysat_inst, pysat.Instrument):
@@ -663,8 +665,7 @@ def add_ocb_to_metadata(pysat_inst, ocb_name, pysat_name, overwrite=False,
 
     else:
         if pysat_name not in pysat_inst.meta.data.index:
-            name = (bextra + ocb_name.split("_{:s}".format(bname))[0]).replace(
-                "_", " ")
+            name = (bextra + base_name).replace("_", " ")
             new_meta = {pysat_inst.meta.labels.fill_val: np.nan,
                         pysat_inst.meta.labels.name: name,
                         pysat_inst.meta.labels.desc: name.replace(
@@ -672,8 +673,7 @@ def add_ocb_to_metadata(pysat_inst, ocb_name, pysat_name, overwrite=False,
                         pysat_inst.meta.labels.min_val: -np.inf,
                         pysat_inst.meta.labels.max_val: np.inf}
         elif isvector:
-            name = (bextra + ocb_name.split("_{:s}".format(bname))[0]).replace(
-                "_", " ")
+            name = (bextra + base_name).replace("_", " ")
             new_meta = {pysat_inst.meta.labels.fill_val: np.nan,
                         pysat_inst.meta.labels.name: name,
                         pysat_inst.meta.labels.desc: "".join([
-- 
2.43.0


From eb734b29e022df76709cf00fe4a78c76c6b43837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:57 +0000
Subject: [PATCH 80/87] fix: update the longitudes when paired boundaries are
 replaced

---
 ocbpy/_boundary.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index d45cd6c..a88e2e9 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1198,6 +1198,19 @@ class DualBoundary(object):
 
         return eab_blat, eab_bmlt, ocb_blat, ocb_bmlt
 
+    def _has_aacgm_boundary_lon(self):
+        """Determine whether or not AACGM boundary longitudes are stored.
+
+        Returns
+        -------
+        bool
+            True if the EAB or OCB class stores boundary longitudes
+
+        """
+
+        return any([hasattr(bound, "aacgm_boundary_lon")
+                    for bound in [self.eab, self.ocb]])
+
     @property
     def rec_ind(self):
         """Record index that identifies the current good EAB/OCB pair."""
@@ -1462,7 +1475,8 @@ class DualBoundary(object):
                 overwrite = True
 
         self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
-                                     overwrite=True, set_lon=False)
+                                     overwrite=True, set_lon=overwrite
+                                     and self._has_aacgm_boundary_lon())
         ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
@@ -1652,7 +1666,8 @@ class DualBoundary(object):
                     overwrite = True
 
             self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
-                                         overwrite=True, set_lon=False)
+                                         overwrite=True, set_lon=overwrite
+                                         and self._has_aacgm_boundary_lon())
             ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
             eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
@@ -1834,7 +1849,8 @@ class DualBoundary(object):
                 overwrite = True
 
         self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
-                                     overwrite=True, set_lon=False)
+                                     overwrite=True, set_lon=overwrite
+                                     and self._has_aacgm_boundary_lon())
         ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
-- 
2.43.0


From 24a202cd484b28f478bd19b872d9962bcc540843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 81/87] fix: accept whole numbers and data series in vector
 functions

---
 ocbpy/vectors.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index a2a247f..872164d 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -171,8 +171,11 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
     downwards. Quadrants: 1 [N, E]; 2 [N, W]; 3 [S, W]; 4 [S, E]; 0 [undefined]
 
     """
+    # Ensure the angle is array-like
+    pole_angle = np.asarray(pole_angle)
+
     # Determine where the destination pole is relative to the data vector
-    del_lt = np.asarray(pole_lt) - np.asarray(data_lt)
+    del_lt = np.asarray(pole_lt, dtype=float) - np.asarray(data_lt, dtype=float)
 
     # Initalize the output
     pole_quad = np.zeros(shape=np.asarray(del_lt).shape)
@@ -254,6 +257,10 @@ def define_vect_quadrants(vect_n, vect_e):
     Quadrants: 1 [N, E]; 2 [N, W]; 3 [S, W]; 4 [S, E]; 0 [undefined]
 
     """
+    # Ensure the vector components are array-like
+    vect_n = np.asarray(vect_n)
+    vect_e = np.asarray(vect_e)
+
     # Get the masks for non-fill values in each quadrant
     nan_mask = ~np.isnan(vect_n) & ~np.isnan(vect_e)
     quad1_mask = np.greater_equal(
@@ -326,6 +333,8 @@ def calc_dest_polar_angle(pole_quad, vect_quad, base_naz_angle, pole_angle):
         raise ValueError("data vector quadrant is undefined")
 
     # Cast the necessary variables
+    pole_quad = np.asarray(pole_quad)
+    vect_quad = np.asarray(vect_quad)
     base_naz_angle = np.asarray(base_naz_angle)
     pole_angle = np.asarray(pole_angle)
 
@@ -440,6 +449,8 @@ def calc_dest_vec_sign(pole_quad, vect_quad, base_naz_angle, pole_angle,
     quad_range = np.arange(1, 5)
 
     # Cast the input
+    pole_quad = np.asarray(pole_quad)
+    vect_quad = np.asarray(vect_quad)
     base_naz_angle = np.asarray(base_naz_angle)
     pole_angle = np.asarray(pole_angle)
 
@@ -692,7 +703,7 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         if len(vect_z.shape) == 0:
             vz = np.where(nan_mask, np.nan, vect_z)
         else:
-            vz = vect_z[norm_mask]
+            vz = vect_z[norm_mask].astype(float)
             vz[nan_mask] = np.nan
 
         # Restrict the OCB angle to result in positive sines and cosines
-- 
2.43.0


From a2623759838f5313f01d198d27fa26692bf7faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 82/87] fix: load SuperMAG files with times without stations

---
 ocbpy/instruments/supermag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 4127b26..d04786a 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -250,9 +250,11 @@ def load_supermag_ascii_data(filename):
                     hflag = False
             else:
                 # Fill the output dictionary
-                if n < 0:
-                    # This is a date line
+                if n < 0 or (n == snum and len(line.split()) > 2):
+                    # This is a date line, which follows directly upon the
+                    # indices of a time without any stations
                     n = 0
+                    ind = {"SMU": fill_val, "SML": fill_val}
                     lsplit = np.array(line.split(), dtype=int)
                     dtime = dt.datetime(lsplit[0], lsplit[1], lsplit[2],
                                         lsplit[3], lsplit[4], lsplit[5])
-- 
2.43.0


From 4f731a3c230f74bf74af836a8e773acd17ca8a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 83/87] fix: convert every location of multi-dimensional input
 for paired boundaries

---
 ocbpy/_boundary.py | 55 +++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index a88e2e9..f8024a0 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1481,33 +1481,32 @@ class DualBoundary(object):
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
         # Normalize each of the points using the correct scaling factor
-        imid = np.where((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
-                        & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))[0]
-        iout = np.where(abs(aacgm_lat) < abs(eab_aacgm_boundary))[0]
+        imid = ((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
+                & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))
+        iout = abs(aacgm_lat) < abs(eab_aacgm_boundary)
 
         # Test to ensure that all points fall into a region, rounding errors
         # may place points on the OCB just outside of it
-        iocb = np.where((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
-                        | np.isclose(ocb_lat, self.ocb.boundary_lat, rtol=0.0,
-                                     atol=1.0e-9))[0]
-        igood = np.unique(np.concatenate([iocb, imid, iout]))
-        if len(igood) < len(aacgm_lat):
+        iocb = ((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
+                | np.isclose(ocb_lat, self.ocb.boundary_lat, rtol=0.0,
+                             atol=1.0e-9))
+        igood = iocb | imid | iout
+        if not igood.all():
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
                     eab_aacgm_boundary).any():
                 msg += ", boundaries are poorly defined"
             logger.warning(msg)
 
-            ibad = [i for i in range(len(aacgm_lat)) if i not in igood]
-            bound_lat[ibad] = np.nan
+            bound_lat[~igood] = np.nan
 
-        if len(imid) > 0:
+        if imid.any():
             bound_lat[imid] = self.ocb.boundary_lat - (
                 ocb_aacgm_boundary[imid] - aacgm_lat[imid]) * (
                     self.ocb.boundary_lat - self.eab.boundary_lat) / (
                         ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid])
 
-        if len(iout) > 0:
+        if iout.any():
             bound_lat[iout] = self.eab.boundary_lat - (
                 eab_aacgm_boundary[iout] - aacgm_lat[iout]) * (
                     self.eab.boundary_lat / eab_aacgm_boundary[iout])
@@ -1625,13 +1624,13 @@ class DualBoundary(object):
         # If not already flagged, see if all OCB by location
         if not is_ocb:
             # Dual-boundary latitudes only exist in the loaded hemisphere
-            ibad = np.where(np.sign(ocb_lat) == -self.hemisphere)[0]
+            ibad = np.sign(ocb_lat) == -self.hemisphere
             lat[ibad] = np.nan
             lt[ibad] = np.nan
 
-            iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
+            iocb = abs(ocb_lat) >= abs(self.ocb.boundary_lat)
 
-            if len(ocb_lat) == len(iocb):
+            if iocb.all():
                 is_ocb = True
 
             # There are no boundaries for a bad record index, so the OCB
@@ -1679,20 +1678,20 @@ class DualBoundary(object):
                 logger.warning(msg)
 
             # Revert each of the points using the correct scaling factor
-            imid = np.where((abs(ocb_lat) < abs(self.ocb.boundary_lat))
-                            & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))[0]
-            iout = np.where(abs(ocb_lat) < abs(self.eab.boundary_lat))[0]
-            imid = imid[~np.isin(imid, ibad)]
-            iout = iout[~np.isin(iout, ibad)]
+            imid = ((abs(ocb_lat) < abs(self.ocb.boundary_lat))
+                    & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))
+            iout = abs(ocb_lat) < abs(self.eab.boundary_lat)
+            imid &= ~ibad
+            iout &= ~ibad
 
-            if len(imid) > 0:
+            if imid.any():
                 lat[imid] = ocb_aacgm_boundary[imid] - (
                     self.ocb.boundary_lat - ocb_lat[imid]) * (
                         ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid]) / (
                             self.ocb.boundary_lat - self.eab.boundary_lat)
                 lt[imid] = aacgm_mlt[imid]
 
-            if len(iout) > 0:
+            if iout.any():
                 lat[iout] = eab_aacgm_boundary[iout] - (
                     self.eab.boundary_lat - ocb_lat[iout]) * (
                     eab_aacgm_boundary[iout] / self.eab.boundary_lat)
@@ -1713,7 +1712,7 @@ class DualBoundary(object):
 
             # If needed, convert from magnetic to geographic coordinates
             if coords.lower().find('mag') < 0:
-                imag = list(imid) + list(iout)
+                imag = imid | iout
 
                 # Convert from mlt to longitude
                 lon = aacgmv2.convert_mlt(aacgm_mlt[imag],
@@ -1836,9 +1835,9 @@ class DualBoundary(object):
                 self.ocb_ind[self.rec_ind]] + r_corr)
 
         # Identify points in the other regions
-        imid = np.where((abs(bound_lat) < abs(self.ocb.boundary_lat))
-                        & (abs(bound_lat) >= abs(self.eab.boundary_lat)))[0]
-        iout = np.where(abs(bound_lat) < abs(self.eab.boundary_lat))[0]
+        imid = ((abs(bound_lat) < abs(self.ocb.boundary_lat))
+                & (abs(bound_lat) >= abs(self.eab.boundary_lat)))
+        iout = abs(bound_lat) < abs(self.eab.boundary_lat)
 
         # Get the boundary locations in AACGM coordinates
         if not overwrite:
@@ -1855,12 +1854,12 @@ class DualBoundary(object):
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
         # Calculate the radii in the auroral region
-        if len(imid) > 0:
+        if imid.any():
             scaled_r[imid] = abs(self.ocb.boundary_lat - self.eab.boundary_lat)
             unscaled_r[imid] = abs(ocb_aacgm_boundary[imid]
                                    - eab_aacgm_boundary[imid])
 
-        if len(iout) > 0:
+        if iout.any():
             scaled_r[iout] = abs(self.eab.boundary_lat)
             unscaled_r[iout] = abs(eab_aacgm_boundary[iout])
 
-- 
2.43.0


From 2b7b25e8cf056af0edd85a04d1edf2d4cfe840a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 84/87] fix: calculate boundary longitudes of multi-dimensional
 local times

---
 ocbpy/_boundary.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index f8024a0..ef50ac8 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -844,9 +844,10 @@ class OCBoundary(object):
 
                 # Set the longitude at this time
                 if set_lon:
-                    self.aacgm_boundary_lon[i] = np.asarray(
-                        aacgmv2.convert_mlt(aacgm_mlt, self.dtime[i],
-                                            m2a=True))
+                    self.aacgm_boundary_lon[i] = np.reshape(
+                        aacgmv2.convert_mlt(aacgm_mlt.flatten(),
+                                            self.dtime[i], m2a=True),
+                        aacgm_mlt.shape)
             else:
                 logger.warning("".join(["unable to update AACGM boundary ",
                                         "latitude at {:}".format(self.dtime[i]),
-- 
2.43.0


From 49fe4cc3d32fba6abe6c029c79b043405870e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:18 +0000
Subject: [PATCH 85/87] fix: copy the boundary locations of vector data

---
 ocbpy/ocb_scaling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 1b3f457..32c43c5 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -310,8 +310,11 @@ class VectorData(object):
             Value to be assigned to attribute specified by name
 
         """
+        # Copy the values, as their elements may be replaced later on
+        ocb_val = np.array(ocb_val, dtype=float)
+
         # Ensure the shape is correct
-        if np.asarray(ocb_val).shape == () and self.ocb_ind.shape != ():
+        if ocb_val.shape == () and self.ocb_ind.shape != ():
             ocb_val = np.full(shape=self.ocb_ind.shape, fill_value=ocb_val)
 
         self.__setattr__(ocb_name, ocb_val)
-- 
2.43.0


From 29214fb36aa7654cffb574595ead2c018155a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:54 +0000
Subject: [PATCH 86/87] fix: note boundaries without a file in pysat metadata

---
 ocbpy/instruments/pysat_instruments.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 29b50ed..370f2e6 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -540,18 +540,18 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         # Update the pysat Metadata
         eattr = ocb_source[oattr]
         if hasattr(ocb, "instrument"):
-            notes = "".join(["Boundary obtained from ", ocb.instrument,
-                             " data in file ", ocb.filename,
+            notes = "".join(["Boundary obtained from ", str(ocb.instrument),
+                             " data in file ", str(ocb.filename),
                              "using a boundary latitude of ",
                              "{:.2f}".format(ocb.boundary_lat)])
         else:
-            notes = "".join(["OCB obtained from ", ocb.ocb.instrument, " data",
-                             " in file ", ocb.ocb.filename, " using a ",
-                             "boundary latitude of ",
+            notes = "".join(["OCB obtained from ", str(ocb.ocb.instrument),
+                             " data in file ", str(ocb.ocb.filename),
+                             " using a boundary latitude of ",
                              "{:.2f}".format(ocb.ocb.boundary_lat), " and EAB",
-                             "EAB obtained from ", ocb.eab.instrument,
-                             " data in file ", ocb.eab.filename, "using a ",
-                             "boundary latitude of ",
+                             "EAB obtained from ", str(ocb.eab.instrument),
+                             " data in file ", str(ocb.eab.filename),
+                             "using a boundary latitude of ",
                              "{:.2f}".format(ocb.eab.boundary_lat)])
 
         if eattr in vector_names.keys():
-- 
2.43.0


From 845dbd025ad8581a3ac94cc9a54b5025cb3bebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:31 +0000
Subject: [PATCH 87/87] fix: drop the longitudes of replaced boundary locations

---
 ocbpy/_boundary.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index ef50ac8..f47a824 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -761,9 +761,10 @@ class OCBoundary(object):
             Overwrite previous boundary locations if this time already has
             calculated boundary latitudes for a different set of input
             longitudes (default=False).
-        set_lon : bool
-            Calculate the AACGM longitude of the OCB alongside the MLT
-            (default=True).
+        set_lon : bool or NoneType
+            Calculate the AACGM longitude of the OCB alongside the MLT, if
+            False no longitude is kept for a boundary that is calculated, and
+            if None the longitudes are not changed (default=True).
 
         Notes
         -----
@@ -848,6 +849,10 @@ class OCBoundary(object):
                         aacgmv2.convert_mlt(aacgm_mlt.flatten(),
                                             self.dtime[i], m2a=True),
                         aacgm_mlt.shape)
+                elif set_lon is not None and hasattr(
+                        self, 'aacgm_boundary_lon'):
+                    # Longitudes of earlier local times no longer apply
+                    self.aacgm_boundary_lon[i] = None
             else:
                 logger.warning("".join(["unable to update AACGM boundary ",
                                         "latitude at {:}".format(self.dtime[i]),
@@ -1477,7 +1482,7 @@ class DualBoundary(object):
 
         self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
                                      overwrite=True, set_lon=overwrite
-                                     and self._has_aacgm_boundary_lon())
+                                     and self._has_aacgm_boundary_lon() or None)
         ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
@@ -1667,7 +1672,8 @@ class DualBoundary(object):
 
             self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
                                          overwrite=True, set_lon=overwrite
-                                         and self._has_aacgm_boundary_lon())
+                                         and self._has_aacgm_boundary_lon()
+                                         or None)
             ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
             eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
@@ -1754,9 +1760,10 @@ class DualBoundary(object):
             Overwrite previous boundary locations if this time already has
             calculated boundary latitudes for a different set of input
             longitudes (default=False).
-        set_lon : bool
-            Calculate the AACGM longitude of the OCB alongside the MLT
-            (default=True).
+        set_lon : bool or NoneType
+            Calculate the AACGM longitude of the OCB alongside the MLT, if
+            False no longitude is kept for a boundary that is calculated, and
+            if None the longitudes are not changed (default=True).
 
         See Also
         --------
@@ -1850,7 +1857,7 @@ class DualBoundary(object):
 
         self.get_aacgm_boundary_lats(aacgm_mlt, rec_ind=self.rec_ind,
                                      overwrite=True, set_lon=overwrite
-                                     and self._has_aacgm_boundary_lon())
+                                     and self._has_aacgm_boundary_lon() or None)
         ocb_aacgm_boundary = self.ocb.aacgm_boundary_lat[self.ocb.rec_ind]
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
-- 
2.43.0

