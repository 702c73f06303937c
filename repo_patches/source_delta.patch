From 2558fc5c41e77564614be3a915ef8896882337aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 01/37] fix: discard contours that do not define an ellipse
 instead of failing

fit_ellipse solves a 5x5 system, which is singular for contours with less
than five distinct points (e.g. a single grid point above the level), and
the LinAlgError aborted the detection of the whole snapshot.
---
 trackeddy/trackeddy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7d1c455..9d1222b 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -304,9 +304,14 @@ class TrackEddy:
                 continue
 
             # TODO clean the fit_ellipse function and input only eddy.contour
-            eddy.ellipse, eddy.ellipse_params = fit_ellipse(
-                eddy.contour[:, 0], eddy.contour[:, 1]
-            )
+            try:
+                eddy.ellipse, eddy.ellipse_params = fit_ellipse(
+                    eddy.contour[:, 0], eddy.contour[:, 1]
+                )
+            except np.linalg.LinAlgError:
+                # The contour has too few distinct points to define an ellipse.
+                discarded = eddy.discarded("ellipse_fit_failed")
+                continue
 
             # Check if area is similar between fitted ellipse and contour
             # Discarding by area first improves the time.
-- 
2.43.0


From b0ded74417699db29f1a5ac13342aca5acf77d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 02/37] fix: start each level with empty eddy and discarded
 tables

The tables live on the Eddy class and were only cleared after a level that
stored an eddy, so discarded (and, after an exception, stored) eddies leaked
into the results of later levels, snapshots and datasets.
---
 trackeddy/trackeddy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 9d1222b..0ebc47f 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -279,6 +279,9 @@ class TrackEddy:
         discarded = None
         eddy = None
 
+        # Clear what a previous level, dataset, or failed call left in the tables.
+        Eddy(None, level).exit()
+
         contours, _ = extract_contours(self.X, self.Y, self.data2track.values, level)
 
         for contour in contours:
-- 
2.43.0


From 43366ca71991aed580df6a6551a23a73c951043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 03/37] fix: apply the nan treatment before the space or time
 filter

The filtered field was computed from the raw snapshot, so nan_treatment=True
had no effect with the default filter.
---
 trackeddy/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index b5953c9..6f7c67f 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -61,7 +61,7 @@ def filter_data(func):
             filtered = func(self, filtered, "space")
             self.data2track = func(self, filtered, "time")
         elif kwargs.get("filter") == "space" or kwargs.get("filter") == "time":
-            self.data2track = func(self, *args, kwargs.get("filter"))
+            self.data2track = func(self, filtered, kwargs.get("filter"))
         else:
             self.data2track = filtered
 
-- 
2.43.0


From ea5b4ae0c5075730237ef1853ac5180c99f30934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 04/37] fix: area of polygons that contain 180E, 0N

area_latlon_polygon integrates the colatitude measured from (0, 0); when the
polygon contains the antipode it returned the area of the rest of the sphere.
---
 trackeddy/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 70eb80b..3240b4d 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -464,6 +464,9 @@ def area_latlon_polygon(lonlat):
 
     # Integrate
     area = abs(sum(integrands)) / (4 * np.pi)
+    # The integral gives the complement if the polygon contains the point
+    # opposite to the origin (180E, 0N).
+    area = min(area, 1 - area)
 
     radius = 6378137
     area_km = (area * 4 * np.pi * radius**2) * 1e-6  # km^2
-- 
2.43.0


From 2d63d0a2adbf5b5834932873d5ae27d8159fd27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 05/37] fix: discrete Frechet distance of long contours

The recursion goes len(P) + len(Q) deep, so comparing a contour of more than
about 700 points with one of up to 300 raised RecursionError.
---
 trackeddy/geometry.py | 45 +++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 3240b4d..898408e 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -304,28 +304,23 @@ def compute_similarity(curve1, curve2):
     return np.array(round(result, 4))
 
 
-def _c(ca, i, j, p, q):
-    if ca[i, j] > -1:
-        return ca[i, j]
-    elif i == 0 and j == 0:
-        ca[i, j] = np.linalg.norm(p[i] - q[j])
-    elif i > 0 and j == 0:
-        ca[i, j] = max(_c(ca, i - 1, 0, p, q), np.linalg.norm(p[i] - q[j]))
-    elif i == 0 and j > 0:
-        ca[i, j] = max(_c(ca, 0, j - 1, p, q), np.linalg.norm(p[i] - q[j]))
-    elif i > 0 and j > 0:
-        ca[i, j] = max(
-            min(
-                _c(ca, i - 1, j, p, q),
-                _c(ca, i - 1, j - 1, p, q),
-                _c(ca, i, j - 1, p, q),
-            ),
-            np.linalg.norm(p[i] - q[j]),
-        )
-    else:
-        ca[i, j] = float("inf")
-
-    return ca[i, j]
+def _c(ca, p, q):
+    # Fill the coupling table row by row, recursing over it exceeds the
+    # recursion limit when the curves have more than a few hundred points.
+    for i in range(len(p)):
+        dist = np.linalg.norm(q - p[i], axis=1)
+        for j in range(len(q)):
+            if i == 0 and j == 0:
+                reach = dist[j]
+            elif i == 0:
+                reach = ca[i, j - 1]
+            elif j == 0:
+                reach = ca[i - 1, j]
+            else:
+                reach = min(ca[i - 1, j], ca[i - 1, j - 1], ca[i, j - 1])
+            ca[i, j] = max(reach, dist[j])
+
+    return ca[-1, -1]
 
 
 def frdist(P, Q):
@@ -397,8 +392,8 @@ def frdist(P, Q):
     len_p = len(p)
     len_q = len(q)
 
-    # Force comparison between curves smaller than 300 points to avoid
-    # RecursionError in _c
+    # Force comparison between curves smaller than 300 points to limit
+    # the size of the coupling table.
     c = 2
     while len_p > 300 and len_q > 300:
         p = p[0::c]
@@ -409,7 +404,7 @@ def frdist(P, Q):
 
     ca = np.ones((len_p, len_q), dtype=np.float64) * -1
 
-    dist = _c(ca, len_p - 1, len_q - 1, p, q)
+    dist = _c(ca, p, q)
 
     return dist
 
-- 
2.43.0


From fcf0b1d7f8c9fbbf053cdd0ecec2270e39e24d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 06/37] fix: time_tracking without tf

tf=None ignored t0 and failed with a TypeError when printing the progress of
the second snapshot.
---
 trackeddy/trackeddy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 0ebc47f..264f237 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -183,9 +183,8 @@ class TrackEddy:
     ):
         # TODO Move to decorator?
         if not tf:
-            times = range(0, len(self.Dataset[self.coords["time"]]))
-        else:
-            times = range(t0, tf)
+            tf = len(self.Dataset[self.coords["time"]])
+        times = range(t0, tf)
 
         track_in_time = pd.DataFrame({"": []})
 
-- 
2.43.0


From af3dbaf014e35a17852290a4640625f47f2c8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 07/37] fix: store the first snapshot when online_track=False

The first snapshot with eddies was kept in memory and never written.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 264f237..6e3e2eb 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -202,6 +202,10 @@ class TrackEddy:
                     .set_index(["identifier", "time", "index"])
                     .sort_index(level=["identifier", "time", "index"])
                 )
+                if not online_track:
+                    store_snapshot(
+                        track_in_time, self.out_path, time, format=self.out_format
+                    )
                 continue
 
             # Reindex to avoid loosing indexes, it's important for the
-- 
2.43.0


From c2377d8bae166e581110c8ce991fdeca9dd708c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 08/37] fix: do not report open contours as eddies

The method only considers closed contours, but a contour cut by the edge of
the domain was reported when the area of its (open) path was close enough to
the area of the fitted ellipse.
---
 trackeddy/trackeddy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 6e3e2eb..29e9aff 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -301,6 +301,11 @@ class TrackEddy:
 
             eddy.contour_center = np.nanmean(eddy.contour, 0)
 
+            # Only closed contours can be eddies.
+            if not np.array_equal(eddy.contour[0], eddy.contour[-1], equal_nan=True):
+                discarded = eddy.discarded("open_contour")
+                continue
+
             # Continue to next contour if eddy size is larger than the user
             # defined value multiplied by the Rossby deformation radius.
             Rd = approx_RD_lat(eddy.contour_center[1])
-- 
2.43.0


From e235a2979084e6ef0766eb7fb0ba383ec379821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 09/37] fix: link eddies in time only within the last ntimes
 snapshots

The levels of a sliced MultiIndex keep all the identifiers of the table, so
ntimes had no effect and eddies were linked over gaps of any length; and
looking up a snapshot that is not in the table raised KeyError, so tracking
failed after a snapshot without eddies and for any t0 > 1.
---
 trackeddy/utils.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index f26a7f5..f77fe27 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -6,12 +6,13 @@ from scipy import ndimage
 from sklearn.neighbors import BallTree
 
 
-def _rename_eddies_in_time(current_time, index, nearest, prev_count):
+def _rename_eddies_in_time(current_time, index, nearest, prev_count, identifiers):
     for near in nearest:
         shifted_counter = near + prev_count + 1
 
+        # The index is the position in the table of previous eddies.
         current_time = current_time.rename(
-            index={shifted_counter: index[near][0]}, level=0
+            index={shifted_counter: identifiers[index[near][0]]}, level=0
         )
 
         # TODO add conditions to better estimate a track, i.e.
@@ -166,12 +167,19 @@ def _get_non_duplicated_identifiers(merged_identifiers):
     return values
 
 
+def _identifiers_at_time(table, time):
+    # The levels of the index contain the identifiers of the whole table, and
+    # there may be no eddies at that time.
+    at_time = table.index[table.index.get_level_values("time") == time]
+    return at_time.get_level_values("identifier").unique().values
+
+
 def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
     # Move to decorator
     if time < ntimes:
         ntimes = time
     # Extract identifier of eddies identified as the last imput in the table.
-    last_identified_eddies = previous_time.xs(time, level="time").index.levels[0]
+    last_identified_eddies = _identifiers_at_time(previous_time, time)
 
     # Loop and arrays to contain extracted identifier of eddies identified
     # in the last ntimes in the table.
@@ -181,9 +189,7 @@ def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
     for prev_time in np.arange(time - ntimes, time):
         # Extracted identifier of eddies identified in the last time-ntimes
         # in the table.
-        previous_identified_eddies = previous_time.xs(
-            prev_time, level="time"
-        ).index.levels[0]
+        previous_identified_eddies = _identifiers_at_time(previous_time, prev_time)
 
         merged_identifiers = np.hstack(
             (last_identified_eddies, previous_identified_eddies)
@@ -203,7 +209,6 @@ def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
         .reset_index()
         .groupby("identifier")
         .max("time")["time"]
-        .values
     )
 
     eddies_to_track = (
@@ -218,10 +223,6 @@ def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
         ["identifier", "time", "index"]
     )
 
-    previous_time = eddies_to_track.reindex(
-        previous_time.index.levels[0], level=0, fill_value=0
-    )
-
     return eddies_to_track
 
 
@@ -233,15 +234,21 @@ def track_online(track_in_time, current_time, time, ntimes):
     )
 
     # Detect nearest eddies.
-    index, nearest = _detect_nearest(previous_time, current_time)
+    identifiers = previous_time.index.get_level_values("identifier").unique()
+    if previous_time.empty:
+        index, nearest = [], []
+    else:
+        index, nearest = _detect_nearest(previous_time, current_time)
 
-    # Update counter of current time to avoid overlap with the
+    # Update counter of current time to avoid overlap with any
     # previous time
-    current_time, prev_count = _update_counter(previous_time, current_time)
+    current_time, prev_count = _update_counter(track_in_time, current_time)
 
     # Rename identifier of  nearest eddies to match the previous
     # table identifier
-    current_time = _rename_eddies_in_time(current_time, index, nearest, prev_count)
+    current_time = _rename_eddies_in_time(
+        current_time, index, nearest, prev_count, identifiers
+    )
 
     # Merge dictionaries.
     track_in_time = _merge_reindex_eddies(track_in_time, current_time)
-- 
2.43.0


From a71bcd0868920e9cbde54dfc4f36a6721d15d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 10/37] fix: do not give two eddies of a snapshot the same
 identifier

When two eddies were within their radius of the same previous eddy (in time,
or in the previous level) both took its identifier, so their records were
mixed under the same index. The closest one continues the track.
---
 trackeddy/utils.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index f77fe27..cf7cf3b 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -7,13 +7,20 @@ from sklearn.neighbors import BallTree
 
 
 def _rename_eddies_in_time(current_time, index, nearest, prev_count, identifiers):
+    linked = []
     for near in nearest:
         shifted_counter = near + prev_count + 1
 
         # The index is the position in the table of previous eddies.
+        identifier = identifiers[index[near][0]]
+        # A track can only continue as one eddy, the others start a new track.
+        if identifier in linked:
+            continue
+
         current_time = current_time.rename(
-            index={shifted_counter: identifiers[index[near][0]]}, level=0
+            index={shifted_counter: identifier}, level=0
         )
+        linked.append(identifier)
 
         # TODO add conditions to better estimate a track, i.e.
         # compute propagation speed and check distance.
@@ -57,10 +64,12 @@ def _update_better_eddy(p_eddy, n_eddy, index, nearest):
 
         # TODO check if this is the best condition.
         if p_ellipse_error > c_ellipse_error and p_gauss_error > c_gauss_error:
-            n_eddy = n_eddy.rename(
-                index={shifted_counter: index[duplicated][0]}, level=0
-            )
-            replaced_eddies.append(index[duplicated][0])
+            # Only one eddy can take the identifier of the previous eddy.
+            if index[duplicated][0] not in replaced_eddies:
+                n_eddy = n_eddy.rename(
+                    index={shifted_counter: index[duplicated][0]}, level=0
+                )
+                replaced_eddies.append(index[duplicated][0])
         else:
             # Delete the input that does a worst job compared to
             # the previous level
@@ -113,6 +122,9 @@ def _detect_nearest(p_eddy, n_eddy):
     # If the distance is negative, then the current eddy is within
     # the previous eddy.
     nearest, _ = np.where(distance_between_nearest < 0)
+    # Closest first, as more than one current eddy can be within the same
+    # previous eddy.
+    nearest = nearest[np.argsort(distance[nearest, 0], kind="stable")]
     return index, nearest
 
 
-- 
2.43.0


From 74f1d52130e59536de33d791109cb1079cae6754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 11/37] fix: replace an eddy between levels only if its
 Gaussian fit is better

contour_gaussian_error is a similarity, 1 for an exact fit, so the better fit
is the larger value; the eddy was replaced when the fit was worse.
---
 trackeddy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index cf7cf3b..0d5902a 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -63,7 +63,7 @@ def _update_better_eddy(p_eddy, n_eddy, index, nearest):
         c_gauss_error = current_eddy.contour_gaussian_error.values
 
         # TODO check if this is the best condition.
-        if p_ellipse_error > c_ellipse_error and p_gauss_error > c_gauss_error:
+        if p_ellipse_error > c_ellipse_error and p_gauss_error < c_gauss_error:
             # Only one eddy can take the identifier of the previous eddy.
             if index[duplicated][0] not in replaced_eddies:
                 n_eddy = n_eddy.rename(
-- 
2.43.0


From c5d08eb3ab8276b939cc30038bac021a35fdb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 12/37] fix: locate contours on curvilinear (2D coordinate)
 grids

The grid points near a contour were assumed to be a box of the grid, which is
only the case if the coordinates do not vary along the other axis; otherwise
the wrong grid points were used or an IndexError was raised.
---
 trackeddy/trackeddy.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 29e9aff..b24c59e 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -421,16 +421,9 @@ class TrackEddy:
         Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=3)
         Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=3)
 
-        # This step finds some rough coordinates to crop the domain so
-        # the BallTree search is quicker.
-        sum_x = np.sum(Xmask * Ymask, 0)
-        sim_y = np.sum(Xmask * Ymask, 1)
-        # Corners of the box
-        shift_x = np.argmax(sum_x)
-        shift_y = np.argmax(sim_y)
-
-        # Extract last item, since it will always be different than 0.
-        mask_shape = np.unique(sum_x)[-1], np.unique(sim_y)[-1]
+        # This step crops the domain so the BallTree search is quicker. The
+        # grid points near the contour are not always a box of the grid.
+        mask_ind = np.argwhere(Xmask * Ymask)
 
         x = self.X[Xmask * Ymask]
         y = self.Y[Xmask * Ymask]
@@ -449,11 +442,8 @@ class TrackEddy:
         ball_tree = BallTree(coords)
         dist, ind = ball_tree.query(eddy.contour, k=1)
 
-        # Extract coordinates from the mask shape
-        coord_slice = np.hstack(np.unravel_index(ind, mask_shape)).squeeze()
-
-        # Shift back to the original coordinates
-        coord_ind = coord_slice + [shift_y, shift_x]
+        # Original indexes of the nearest grid points
+        coord_ind = mask_ind[ind[:, 0]]
 
         (
             eddy.data_near_contour,
-- 
2.43.0


From 29299fb1e90d443230e18aa9f8bfd199993aef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 13/37] fix: search the grid points of a contour around the
 whole contour

Contours wider than 3 degrees and 5% of their position were cropped, so the
same eddy was identified at 32E, 0N but discarded at 0E, 0N.
---
 trackeddy/trackeddy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index b24c59e..c13aa9b 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -417,9 +417,11 @@ class TrackEddy:
         # To speed up the process of finding the nearest point,
         # we mask values near the point that are close by 5% of its value,
         # with a largest cap of 3 degrees if coordinates are geographical.
-        # The atol fixes the issue in x or y coordinates close to 0.
-        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=3)
-        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=3)
+        # The atol fixes the issue in x or y coordinates close to 0, and it
+        # should never be smaller than the contour.
+        x_atol, y_atol = np.maximum(3, np.ptp(eddy.contour, axis=0))
+        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=x_atol)
+        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=y_atol)
 
         # This step crops the domain so the BallTree search is quicker. The
         # grid points near the contour are not always a box of the grid.
-- 
2.43.0


From c0d4c03ee3af3782471ee976438e55c8399511df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 14/37] fix: accept a list of levels

The documentation defines the levels as a list, which raised TypeError.
---
 trackeddy/trackeddy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index c13aa9b..b176f19 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -228,6 +228,7 @@ class TrackEddy:
 
     def _detect_snapshot(self, time, levels):
         # Ignore level == 0 since it can cause issues.
+        levels = np.asarray(levels)
         levels = levels[levels != 0]
         if isinstance(time, int) and self.coords["time"]:
             data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
-- 
2.43.0


From af6896ae239996b632a68079f72bf00882826019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 15/37] fix: reconstruct_field on the grid of the field

The default margin gave each eddy a larger grid than the field, so it always
raised ValueError.
---
 trackeddy/generator/field_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 9e6acb2..19e46c5 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -197,7 +197,7 @@ class Generate_field:
         data = np.zeros((self.xlen, self.ylen))
         for keys, item in self.eddies.items():
             gauss = self.twoD_Gaussian(
-                self.pass_args(keys),
+                self.pass_args(keys, margin=0),
                 item["radius"][0],
                 item["radius"][1],
                 item["angle"],
-- 
2.43.0


From 0a710a3061a9fa31172c901c910b09cbaf2bd43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 16/37] fix: generated fields when x and y have different
 lengths

The eddies are computed on a (y, x) grid and were reshaped to (x, y).
---
 trackeddy/generator/field_generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 19e46c5..829d199 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -9,7 +9,6 @@ def dist(loc1, loc2):
 
 class Generate_field:
     def __init__(self, a, b, n, x, y, opt=""):
-        # BUG WHEN LEN(x) != LEN(y) ?
         self.xlen = len(x)
         self.ylen = len(y)
         self.a = a * rnd.uniform(0.9, 1.1)
@@ -176,7 +175,7 @@ class Generate_field:
         return indexs[0] + movcood[0], indexs[1] + movcood[1]
 
     def assemble_field(self, N, margin=50):
-        data = np.zeros((N, self.xlen + 2 * margin, self.ylen + 2 * margin))
+        data = np.zeros((N, self.ylen + 2 * margin, self.xlen + 2 * margin))
         for t in range(N):
             # pdb.set_trace()
             if self.opt == "no_interaction" or self.opt == "Nint":
@@ -194,7 +193,7 @@ class Generate_field:
         return data
 
     def reconstruct_field(self):
-        data = np.zeros((self.xlen, self.ylen))
+        data = np.zeros((self.ylen, self.xlen))
         for keys, item in self.eddies.items():
             gauss = self.twoD_Gaussian(
                 self.pass_args(keys, margin=0),
-- 
2.43.0


From c0653ee118693fbcd4fe53a717b661f150054220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 17/37] fix: do not place two non interacting eddies at the
 same location

---
 trackeddy/generator/field_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 829d199..fb98ff9 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -145,10 +145,10 @@ class Generate_field:
                     ]
                 )
                 numzeros = [ii for ii in distance if ii == 0]
+                # Ignore the distance to itself, any other eddy at the same
+                # location is too close.
                 if len(numzeros) <= 1:
                     distance[distance == 0] = np.inf
-                else:
-                    distance[distance == 0] = away_val * self.a
                 checker = (distance < away_val * self.a).any() or (
                     distance < away_val * self.b
                 ).any()
-- 
2.43.0


From 64996dcbbcd90e702b6c213e754f2d92157767c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 18/37] fix: raise ValueError for properties that do not exist
 in the eddy

As documented in Eddy.to_dict, it raised AttributeError.
---
 trackeddy/eddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/eddy.py b/trackeddy/eddy.py
index ee23659..6138c86 100644
--- a/trackeddy/eddy.py
+++ b/trackeddy/eddy.py
@@ -89,6 +89,10 @@ class Eddy:
 
         eddy_dict = {}
         for property in out_properties:
+            if not hasattr(self, property):
+                raise ValueError(
+                    "{0} doesn't exist within the eddy object.".format(property)
+                )
             attr = getattr(self, property)
 
             if not isinstance(attr, np.ndarray):
-- 
2.43.0


From e44679f757b8542f3e31e979a2b9c166dceddd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 19/37] fix: Gaussian fit independent of the units of the data

The tolerances of the optimisation are absolute and the residual scales with
the square of the amplitude: for amplitudes of 0.1 (SSH in m) the fit stopped
early, with deviations up to 50% off, and eddies were discarded.
---
 trackeddy/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 898408e..c055d11 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -163,6 +163,9 @@ def gaussian_residual(popt, coords, data2fit):
     # residual = np.nanmean(abs(data2fit - gauss))
     # This seems to outperform the exp()
     residual = np.nanstd(abs(data2fit - gauss)) * np.nanmean(abs(data2fit - gauss))
+    # The tolerances of the fit are absolute, without this the fit depends on
+    # the units of the data.
+    residual = residual / coords[2] ** 2
 
     # residual = np.exp(np.float64(np.nanmean(abs(data2fit - gauss)))) - 1
     return residual
-- 
2.43.0


From 8bec9c4e8b51706455e4a16cad6514e3e91cac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 20/37] fix: reject grids with less than 2x2 points in the
 contour tracer

A grid with one row or column divided by zero with nchunk, and an empty
grid wrote outside the memory of the tracer.
---
 trackeddy/src/cntr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index a607454..d66fd1b 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1843,6 +1843,13 @@ Cntr_init(Cntr *self, PyObject *args, PyObject *kwds)
              " must have the same dimensions.");
         goto error;
     }
+    if (iMax < 2 || jMax < 2)
+    {
+        PyErr_SetString(PyExc_ValueError,
+            "Arguments x, y, z, mask (if present)"
+             " must have at least 2 points in each dimension.");
+        goto error;
+    }
     if (mpa)
     {
 	mask = (char *) PyArray_DATA(mpa);
-- 
2.43.0


From 27cf41123b7945f5ff89585296bf7adc9eee69a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 21/37] fix: compare the contour of the Gaussian from the same
 starting point

The Frechet distance follows both curves from their first vertex. The
contour of an excellent Gaussian fit was discarded (gaussian_check) if
its tracing started in a different vertex than the contour of the eddy.
---
 trackeddy/geometry.py  | 23 +++++++++++++++++++++++
 trackeddy/trackeddy.py |  5 +++++
 2 files changed, 28 insertions(+)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index c055d11..21718d4 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -42,6 +42,29 @@ def extract_contours(X, Y, data, level) -> set:
     return segments, codes
 
 
+def start_contour_near(contour, point):
+    """
+    start_contour_near Change the first vertex of a closed contour to the one
+    nearest to a point.
+
+    Parameters
+    ----------
+    contour : array
+        Vertices of the contour, open contours are not changed.
+    point : array
+        Coordinates of the point
+
+    Returns
+    -------
+    array
+        Vertices of the same contour
+    """
+    if not np.array_equal(contour[0], contour[-1]):
+        return contour
+    start = np.argmin(np.sum((contour[:-1] - point) ** 2, axis=1))
+    return np.vstack((contour[start:-1], contour[: start + 1]))
+
+
 class Fit_Surface:
     def __init__(self, eddy, eddy_data, X, Y, mode="gaussian") -> None:
         self.X = X
diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index b176f19..db46bee 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -16,6 +16,7 @@ from trackeddy.geometry import (
     eccentricity,
     extract_contours,
     fit_ellipse,
+    start_contour_near,
 )
 from trackeddy.physics import approx_RD_lat
 from trackeddy.printfunc import Printer
@@ -392,6 +393,10 @@ class TrackEddy:
             else:
                 gauss_contour = gauss_contour[0]
 
+            # The tracing of a closed contour can start at any vertex, but the
+            # similarity follows both contours from their first vertex.
+            gauss_contour = start_contour_near(gauss_contour, eddy.contour[0])
+
             # Compute similarity between the eddy contour and the gaussian
             # contour at the same level.
             eddy.contour_gaussian_error = compute_similarity(
-- 
2.43.0


From d1c44d48d8550c7ac5272ceea3075af5cc466fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 22/37] fix: do not take the bounds of the coordinates for the
 coordinates

Variables such as lon_bnds and lat_bnds have names like those of the
coordinates, but other dimensions than the data.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index db46bee..ffa09ba 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -118,6 +118,10 @@ class TrackEddy:
             self.coords["y"] = dim_name
 
     def _get_vars(self, var_name):
+        # Variables on other dimensions, e.g. the bounds of the cells, are not
+        # the coordinates of the data.
+        if not set(self.Dataset[var_name].dims) <= set(self.rawdata.dims):
+            return
         if "lon" in var_name or var_name == "x":
             self.coords["x_var"] = var_name
         elif "lat" in var_name or var_name == "y":
-- 
2.43.0


From 8038fbd75e696a5284a8290de6f1ded3ca081d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 23/37] fix: detect eddies whatever the order of the dimensions
 of the data

The coordinates were always arranged as (y, x), and the data as stored.
---
 trackeddy/trackeddy.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index ffa09ba..ce4b8eb 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -89,8 +89,8 @@ class TrackEddy:
             len(self.Dataset[x_coord_name].shape) == 2
             and len(self.Dataset[y_coord_name].shape) == 2
         ):
-            self.X = self.Dataset[x_coord_name].values
-            self.Y = self.Dataset[y_coord_name].values
+            self.X = self.order_dims(self.Dataset[x_coord_name]).values
+            self.Y = self.order_dims(self.Dataset[y_coord_name]).values
 
         else:
             raise ValueError(
@@ -100,6 +100,13 @@ class TrackEddy:
                 )
             )
 
+    def order_dims(self, data):
+        # The data may be stored in any order of its dimensions, (y, x) is the
+        # order of the grid.
+        if self.coords["x"] in data.dims and self.coords["y"] in data.dims:
+            return data.transpose(..., self.coords["y"], self.coords["x"])
+        return data
+
     # TODO add a wrapper to check if the coords where properly identified,
     # if not rise error.
     def identify_coords(self) -> None:
@@ -279,7 +286,7 @@ class TrackEddy:
             data2track = data_snapshot.fillna(nan_value).copy()
         else:
             raise ValueError("The nan_treatment can only be True or False")
-        return data2track
+        return self.order_dims(data2track)
 
     @check_return_eddies
     def _detect_one_level(self, level):
-- 
2.43.0


From 685b7e80b16cb11f61e246acbdcfc7efdf0aa8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 24/37] fix: orientation of exact circles was not a number

---
 trackeddy/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 21718d4..7a8aa99 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -252,7 +252,7 @@ def fit_ellipse(x, y):
 
     a, b, c, d, e = x2
 
-    if b == 0 and a < c:
+    if b == 0 and a <= c:
         anglexaxis_rad = 0
     elif b == 0 and c < a:
         anglexaxis_rad = np.pi / 2
-- 
2.43.0


From e21e2d7dacaceaf1d60f6172f8bef7f86d67a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 25/37] fix: two dimensional coordinates of the data were not
 recognised

---
 trackeddy/trackeddy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index ce4b8eb..3295cd5 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -115,6 +115,11 @@ class TrackEddy:
             self._get_dims(dim_name)
         for var_name in self.Dataset.keys():
             self._get_vars(var_name)
+        # Two dimensional coordinates that the file declares as such are not
+        # variables of the dataset.
+        for coord_name, coord in self.rawdata.coords.items():
+            if coord.ndim == 2:
+                self._get_vars(coord_name)
 
     def _get_dims(self, dim_name):
         if "time" in dim_name or dim_name == "t":
-- 
2.43.0


From 06bdd010bd3387906e839cb3169bf42d9778f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 26/37] fix: data variable with lat or lon in its name taken
 for a coordinate

---
 trackeddy/trackeddy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 3295cd5..a945d5c 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -131,7 +131,10 @@ class TrackEddy:
 
     def _get_vars(self, var_name):
         # Variables on other dimensions, e.g. the bounds of the cells, are not
-        # the coordinates of the data.
+        # the coordinates of the data, and the data can be named e.g.
+        # relative_vorticity.
+        if var_name == self.rawdata.name:
+            return
         if not set(self.Dataset[var_name].dims) <= set(self.rawdata.dims):
             return
         if "lon" in var_name or var_name == "x":
-- 
2.43.0


From e08fa59a3915fd29a5534916d81a2ad49634f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 27/37] fix: snapshot chosen by a numpy integer or a date

---
 trackeddy/trackeddy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index a945d5c..3fbfc99 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -250,10 +250,10 @@ class TrackEddy:
         # Ignore level == 0 since it can cause issues.
         levels = np.asarray(levels)
         levels = levels[levels != 0]
-        if isinstance(time, int) and self.coords["time"]:
+        if isinstance(time, (int, np.integer)) and self.coords["time"]:
             data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
         elif isinstance(time, str) and self.coords["time"]:
-            data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
+            data_snapshot = self.rawdata.sel({self.coords["time"]: time}).squeeze()
         else:
             data_snapshot = self.rawdata.squeeze()
 
-- 
2.43.0


From a78398d9b58fda2a807ad86490fda718e1838855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 28/37] fix: end the placement of generated eddies without
 enough room

---
 trackeddy/generator/field_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index fb98ff9..d8701bf 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -130,7 +130,7 @@ class Generate_field:
                 or (distance < away_val * self.b).any()
             ) or loc
             count = 0
-            while checker or count >= 10000:
+            while checker and count < 10000:
                 newx = rnd.randint(0, self.xlen - 1)
                 newy = rnd.randint(0, self.ylen - 1)
                 self.eddies[key1]["loc"] = [[newx, newy]]
-- 
2.43.0


From 37320dcadedd8f9becc76d0ccfb0eff614ec3ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 29/37] fix: plots of tables without eddies or with a selection
 of them

---
 trackeddy/trackeddy.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 3fbfc99..2142041 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -554,7 +554,11 @@ class TrackEddy:
 
         n_colors = list(mcolors.XKCD_COLORS.keys())
 
-        levels = df_eddy_multilevel_store.level.unique()
+        # The table has no columns if no eddies were identified.
+        if df_eddy_multilevel_store.empty:
+            levels = []
+        else:
+            levels = df_eddy_multilevel_store.level.unique()
         color_index = np.linspace(0, len(n_colors) - 1, len(levels), dtype=int)
 
         plt.figure(figsize=(10, 6), dpi=300)
@@ -562,7 +566,7 @@ class TrackEddy:
             self.X, self.Y, self.data2track, cmap=cm.cm.balance, vmin=-0.5, vmax=0.5
         )
 
-        for eddy in df_eddy_multilevel_store.index.get_level_values(level=0):
+        for eddy in df_eddy_multilevel_store.index.unique(level=0):
             c_path_x = df_eddy_multilevel_store.loc[eddy].contour_path_x
             c_path_y = df_eddy_multilevel_store.loc[eddy].contour_path_y
 
@@ -570,7 +574,7 @@ class TrackEddy:
 
             plt.plot(c_path_x, c_path_y, color=n_colors[color_index[inx]])
 
-        if len(levels) < 5:
+        if 0 < len(levels) < 5:
             for level in range(len(levels)):
                 plt.plot(
                     c_path_x[0], c_path_y[0], color=n_colors[level], label=levels[level]
@@ -595,7 +599,7 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in eddies.index.levels[0]:
+        for idx in eddies.index.unique(level=0):
             Xcontour = eddies.loc[idx]["contour_path_x"]
             Ycontour = eddies.loc[idx]["contour_path_y"]
 
@@ -614,7 +618,8 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in discarded.index:
+        # The list is empty if no contours were discarded.
+        for idx in discarded.index if len(discarded) > 0 else []:
             x_cont = discarded.loc[idx]["contour_x"]
             y_cont = discarded.loc[idx]["contour_y"]
 
-- 
2.43.0


From 076fb9b15b0384615b2e20d12aa11fc7aa65fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 30/37] fix: colours of the levels in the legend of the plot

---
 trackeddy/trackeddy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 2142041..43a19f6 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -577,7 +577,10 @@ class TrackEddy:
         if 0 < len(levels) < 5:
             for level in range(len(levels)):
                 plt.plot(
-                    c_path_x[0], c_path_y[0], color=n_colors[level], label=levels[level]
+                    c_path_x[0],
+                    c_path_y[0],
+                    color=n_colors[color_index[level]],
+                    label=levels[level],
                 )
             plt.legend()
 
-- 
2.43.0


From 31617cfb3ad4f9be4bef3ff8f00bb0cf9b28aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 31/37] fix: mark open contours and failed ellipses in the plot
 of discarded contours

---
 trackeddy/trackeddy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 43a19f6..54d2f4a 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -639,6 +639,10 @@ class TrackEddy:
                     ax[1].plot(x_cont, y_cont, ".", color="orange", **plot_args)
                 case "gaussian_fit_failed":
                     ax[1].plot(x_cont, y_cont, ".", color="pink", **plot_args)
+                case "open_contour":
+                    ax[1].plot(x_cont, y_cont, ".", color="black", **plot_args)
+                case "ellipse_fit_failed":
+                    ax[1].plot(x_cont, y_cont, ".", color="green", **plot_args)
                 case _:
                     ax[1].plot(x_cont, y_cont, ".b", **plot_args)
 
@@ -650,9 +654,11 @@ class TrackEddy:
             "Eddy is island",
             "Gaussian fit failed",
             "Contour != Gaussian",
+            "Open contour",
+            "Ellipse fit failed",
         ]
 
-        colors = ["r", "gray", "c", "m", "orange", "pink", "b"]
+        colors = ["r", "gray", "c", "m", "orange", "pink", "b", "black", "green"]
         [
             ax[1].plot(
                 self.X[0, 0],
-- 
2.43.0


From ff822fec3b1893f91579ede099531b54da51b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 32/37] fix: an empty time window that ends at zero tracked all
 of the data

---
 trackeddy/trackeddy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 54d2f4a..0175f9a 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -202,7 +202,7 @@ class TrackEddy:
         self, t0=0, tf=None, lin_levels=None, ntimes=5, online_track=True
     ):
         # TODO Move to decorator?
-        if not tf:
+        if tf is None:
             tf = len(self.Dataset[self.coords["time"]])
         times = range(t0, tf)
 
-- 
2.43.0


From 79bc012998fa50d3d5ee559352076cff5d3ec25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 33/37] fix: bounds of the Gaussian fit were empty on grids
 along the meridians

---
 trackeddy/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 7a8aa99..ce91c97 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -93,8 +93,10 @@ class Fit_Surface:
         return fitted_data, fitdict
 
     def construct_bounds(self):
-        xdelta = np.mean(np.diff(self.X, axis=1))
-        ydelta = np.mean(np.diff(self.Y, axis=0))
+        # The axes of the grid are not always those of the coordinates, i.e. in
+        # a rotated grid the x coordinate may only change along its first axis.
+        xdelta = max(abs(np.mean(np.diff(self.X, axis=axis))) for axis in (0, 1))
+        ydelta = max(abs(np.mean(np.diff(self.Y, axis=axis))) for axis in (0, 1))
 
         LCoordbounds = np.array(
             [[self.initial_guess[0] - xdelta], [self.initial_guess[1] - ydelta]]
-- 
2.43.0


From ff71a56b0fba2854d17cd5ee79d8854da39c50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:53 +0000
Subject: [PATCH 34/37] fix: crash of a tracer that was not initialised

---
 trackeddy/src/cntr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index d66fd1b..84ff32e 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1893,6 +1893,11 @@ Cntr_trace(Cntr *self, PyObject *args, PyObject *kwds)
     {
         return NULL;
     }
+    if (self->site->data == NULL)
+    {
+        PyErr_SetString(PyExc_ValueError, "The tracer has no grid.");
+        return NULL;
+    }
     if (levels[1] == -1e100 || levels[1] <= levels[0])
         nlevels = 1;
     return cntr_trace(self->site, levels, nlevels, nchunk);
@@ -1910,6 +1915,11 @@ Cntr_get_cdata(Cntr *self)
     int ni, nj;
     char *data;
 
+    if (self->site->data == NULL)
+    {
+        PyErr_SetString(PyExc_ValueError, "The tracer has no grid.");
+        return NULL;
+    }
     dims[0] = ni = self->site->imax;
     dims[1] = nj = self->site->jmax;
 
-- 
2.43.0


From aa5fc457a20dcb7ab46359840e2d8358ce71f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:53 +0000
Subject: [PATCH 35/37] fix: initialising a tracer again leaked its memory

---
 trackeddy/src/cntr.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index 84ff32e..e4abffa 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1308,6 +1308,13 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
     long ijmax = iMax * jMax;
     long nreg = iMax * jMax + iMax + 1;
 
+    /* Free the arrays of a previous grid. */
+    PyMem_Free(site->data);
+    PyMem_Free(site->saddle);
+    PyMem_Free(site->reg);
+    site->saddle = NULL;
+    site->reg = NULL;
+
     site->imax = iMax;
     site->jmax = jMax;
     site->data = (Cdata *) PyMem_Malloc(sizeof(Cdata) * nreg);
@@ -1866,6 +1873,10 @@ Cntr_init(Cntr *self, PyObject *args, PyObject *kwds)
             "Memory allocation failure in cntr_init");
         goto error;
     }
+    Py_XDECREF(self->xpa);
+    Py_XDECREF(self->ypa);
+    Py_XDECREF(self->zpa);
+    Py_XDECREF(self->mpa);
     self->xpa = xpa;
     self->ypa = ypa;
     self->zpa = zpa;
-- 
2.43.0


From ae2ba0365722142ac6a2d3e63dee443e7f43ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:53 +0000
Subject: [PATCH 36/37] fix: codes of the tracer were read from memory never
 written

---
 trackeddy/src/cntr.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index e4abffa..9c10825 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1317,7 +1317,7 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
 
     site->imax = iMax;
     site->jmax = jMax;
-    site->data = (Cdata *) PyMem_Malloc(sizeof(Cdata) * nreg);
+    site->data = (Cdata *) PyMem_Calloc(nreg, sizeof(Cdata));
     if (site->data == NULL)
     {
         PyMem_Free(site);
@@ -1343,7 +1343,6 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
         }
         mask_zones(iMax, jMax, mask, site->reg);
     }
-    /* I don't think we need to initialize site->data. */
     site->x = x;
     site->y = y;
     site->z = z;
@@ -1924,7 +1923,7 @@ Cntr_get_cdata(Cntr *self)
     npy_intp dims[2];
     int i, j;
     int ni, nj;
-    char *data;
+    short *data;
 
     if (self->site->data == NULL)
     {
@@ -1935,7 +1934,7 @@ Cntr_get_cdata(Cntr *self)
     dims[1] = nj = self->site->jmax;
 
     Cdata = (PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_SHORT);
-    data = (char *) PyArray_DATA(Cdata);
+    data = (short *) PyArray_DATA(Cdata);
     for (j=0; j<nj; j++)
         for (i=0; i<ni; i++)
             data[j + i*nj] = self->site->data[i + j*ni];
-- 
2.43.0


From e12c5d839d5c0ffb453d865bf599f63b3a1b01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:53 +0000
Subject: [PATCH 37/37] fix: tracer crashed when memory ran out

---
 trackeddy/src/cntr.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index 9c10825..f20824b 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1320,14 +1320,13 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
     site->data = (Cdata *) PyMem_Calloc(nreg, sizeof(Cdata));
     if (site->data == NULL)
     {
-        PyMem_Free(site);
         return -1;
     }
     site->saddle = (Saddle*) PyMem_Malloc(sizeof(Saddle) * ijmax);
     if (site->saddle == NULL)
     {
         PyMem_Free(site->data);
-        PyMem_Free(site);
+        site->data = NULL;
         return -1;
     }
     site->reg = NULL;
@@ -1338,7 +1337,8 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
         {
             PyMem_Free(site->saddle);
             PyMem_Free(site->data);
-            PyMem_Free(site);
+            site->saddle = NULL;
+            site->data = NULL;
             return -1;
         }
         mask_zones(iMax, jMax, mask, site->reg);
@@ -1354,6 +1354,7 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
 
 void cntr_del(Csite *site)
 {
+    if (site == NULL) return;
     PyMem_Free(site->saddle);
     PyMem_Free(site->reg);
     PyMem_Free(site->data);
@@ -1381,6 +1382,11 @@ int reorder(double *xpp, double *ypp, short *kpp,
     /* allocate maximum possible size--gross overkill */
     i0 = (int *)malloc(maxnsegs * sizeof(int));
     i1 = (int *)malloc(maxnsegs * sizeof(int));
+    if (i0 == NULL || i1 == NULL)
+    {
+        k = -1;
+        goto ending;
+    }
 
     /* Find the segments. */
     iseg = 0;
@@ -1418,6 +1424,11 @@ int reorder(double *xpp, double *ypp, short *kpp,
     } else {
         subp = NULL;
     }
+    if (nsegs && subp == NULL)
+    {
+        k = -1;
+        goto ending;
+    }
     for (i=0; i<nsegs; i++) subp[i] = -1;
 
     nsp = 0;
@@ -1508,6 +1519,7 @@ build_cntr_list_v2(long *np, double *xp, double *yp, short *kp,
     PyArray_Dims newshape;
 
     all_contours = PyList_New(nparts*2);
+    if (all_contours == NULL) goto error;
 
     for (i=0, k=0; i < nparts; k+= np[i], i++)
     {
@@ -1529,7 +1541,12 @@ build_cntr_list_v2(long *np, double *xp, double *yp, short *kp,
                         (double *) PyArray_DATA(xyv),
                         (unsigned char *) PyArray_DATA(kv),
                         np[i]);
-        if (n == -1) goto error;
+        if (n == -1)
+        {
+            PyErr_SetString(PyExc_MemoryError,
+                "Memory allocation failure in reorder");
+            goto error;
+        }
         newshape.len = 2;
         dims[0] = n;
         newshape.ptr = dims;
@@ -1539,9 +1556,11 @@ build_cntr_list_v2(long *np, double *xp, double *yp, short *kp,
         if (PyArray_Resize(kv, &newshape, 1, NPY_CORDER) == NULL) goto error;
 
 
-        if (PyList_SetItem(all_contours, i, (PyObject *)xyv)) goto error;
-        if (PyList_SetItem(all_contours, nparts+i,
-                                (PyObject *)kv)) goto error;
+        /* The list owns the arrays now. */
+        PyList_SET_ITEM(all_contours, i, (PyObject *)xyv);
+        PyList_SET_ITEM(all_contours, nparts+i, (PyObject *)kv);
+        xyv = NULL;
+        kv = NULL;
     }
     return all_contours;
 
@@ -1660,7 +1679,11 @@ cntr_trace(Csite *site, double levels[], int nlevels, long nchunk)
     yp0 = (double *) PyMem_Malloc(ntotal * sizeof(double));
     kp0 = (short *) PyMem_Malloc(ntotal * sizeof(short));
     nseg0 = (long *) PyMem_Malloc(nparts * sizeof(long));
-    if (xp0 == NULL || yp0 == NULL || kp0 == NULL || nseg0 == NULL) goto error;
+    if (xp0 == NULL || yp0 == NULL || kp0 == NULL || nseg0 == NULL)
+    {
+        PyErr_NoMemory();
+        goto error;
+    }
 
     /* second pass */
     site->xcp = xp0;
@@ -1934,6 +1957,7 @@ Cntr_get_cdata(Cntr *self)
     dims[1] = nj = self->site->jmax;
 
     Cdata = (PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_SHORT);
+    if (Cdata == NULL) return NULL;
     data = (short *) PyArray_DATA(Cdata);
     for (j=0; j<nj; j++)
         for (i=0; i<ni; i++)
-- 
2.43.0

