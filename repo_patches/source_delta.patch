From f3c6947ecf82ca1d6d3856d5a5150d31f5c21459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 01/22] fix: number/Coulomb terms with left_bases look up the
 left space

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 6f7d194..eacc52a 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -218,6 +218,10 @@ def matrix_function(
         shape = (right_dim, right_dim)
     else:
         shape = (left_bases.shape[0], right_dim)
+        # The specialized core functions for these diagonal terms do not look
+        # up the generated kets in `left_bases`.
+        if special_tag in ("number", "Coulomb"):
+            special_tag = "general"
 
     if special_tag == "hopping":
         core_func = _core_hopping
-- 
2.43.0


From 20fbd94467bbcc3498a938bf9502aa78785b263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 02/22] fix: remove float-point noise before truncating site
 coordinates

---
 HamiltonianPy/quantumoperator/quantumstate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/quantumoperator/quantumstate.py b/HamiltonianPy/quantumoperator/quantumstate.py
index 489039c..1dac020 100644
--- a/HamiltonianPy/quantumoperator/quantumstate.py
+++ b/HamiltonianPy/quantumoperator/quantumstate.py
@@ -104,7 +104,11 @@ class SiteID:
         # This internal attribute is useful for calculating the hash value of
         # the instance as well as defining compare logic between instances of
         # this class
-        self._tuple_form = tuple(int(_ZOOM * coord) for coord in site)
+        # Rounding before truncating removes the float-point noise, without it
+        # 10000 * 0.0003 would be truncated to 2.
+        self._tuple_form = tuple(
+            int(round(_ZOOM * coord, 6)) for coord in site
+        )
 
     @property
     def coordinate(self):
-- 
2.43.0


From 5d4b6023e49a4cd3af0a123791f35f56d9890554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 03/22] fix: remove float-point noise before truncating bond
 endpoints

---
 HamiltonianPy/bond.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/bond.py b/HamiltonianPy/bond.py
index 7d38784..84d42b1 100644
--- a/HamiltonianPy/bond.py
+++ b/HamiltonianPy/bond.py
@@ -112,7 +112,11 @@ class Bond:
         # Combine the original information of this bond into a tuple.
         # The tuple is then used to calculate the hash code and define the
         # compare logic between different instances.
-        identity = [tuple(int(_ZOOM * coord) for coord in p) for p in [p0, p1]]
+        # Rounding before truncating removes the float-point noise, without it
+        # 10000 * 0.0003 would be truncated to 2.
+        identity = [
+            tuple(int(round(_ZOOM * coord, 6)) for coord in p) for p in [p0, p1]
+        ]
         if not directional:
             identity.sort()
         identity.append(directional)
-- 
2.43.0


From ca281779f18db9b2fd27839861e8ed50fea4701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 04/22] fix: reject repeated single-particle states in a
 subspace specifier

---
 HamiltonianPy/hilbertspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/hilbertspace.py b/HamiltonianPy/hilbertspace.py
index ba75773..9dd3668 100644
--- a/HamiltonianPy/hilbertspace.py
+++ b/HamiltonianPy/hilbertspace.py
@@ -65,7 +65,8 @@ def is_valid_states_collection(states):
     single-particle-state collection.
 
     1. `states` must be non-empty tuple, list or set;
-    2. All elements of `states` must be non-negative integer.
+    2. All elements of `states` must be non-negative integer;
+    3. All elements of `states` must be different.
 
     Returns
     -------
@@ -74,7 +75,8 @@ def is_valid_states_collection(states):
 
     if (
         isinstance(states, (tuple, list, set)) and len(states) > 0 and
-        all(isinstance(state, int) and state >= 0 for state in states)
+        all(isinstance(state, int) and state >= 0 for state in states) and
+        len(set(states)) == len(states)
     ):
         return True
     else:
-- 
2.43.0


From 38b3a65429527c525d9e511007e4cac421304604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 05/22] fix: search every translation that can reach a site of
 a skewed lattice

---
 HamiltonianPy/lattice/lattice.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a25b7d8..215169b 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -266,23 +266,14 @@ class Lattice:
         return np.array(self._points[index], copy=True)
 
     def _guess_scope(self, ref_distance):
-        repeat = self._trans_dim
-        scope = -1
-        while True:
-            inner_mesh = product(range(-scope, scope+1), repeat=repeat)
-            outer_mesh = product(range(-scope-1, scope+2), repeat=repeat)
-            edge_dRs = np.matmul(
-                list(set(outer_mesh).difference(set(inner_mesh))), self._vectors
-            )
-            edge_points = np.reshape(
-                edge_dRs[:, np.newaxis, :] + self._points,
-                newshape=(-1, self._space_dim)
-            )
-            if np.min(cdist(edge_points, self._points)) > ref_distance:
-                break
-            else:
-                scope += 1
-        return scope
+        # Every translation with coefficients (n_1, ..., n_k) is not shorter
+        # than 2 * pi * abs(n_i) / norm(b_i), so the clusters which contain
+        # points no further than `ref_distance` are all in the returned scope.
+        diameter = np.max(cdist(self._points, self._points))
+        reach = ref_distance + diameter + _VIEW_AS_ZERO
+        return int(
+            reach * np.max(np.linalg.norm(self._bs, axis=-1)) / (2 * np.pi)
+        )
 
     def _searching(self, database, displaces):
         matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]
-- 
2.43.0


From 1aee887112494ea7a6c2b98ec73fdf787797bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 06/22] fix: neighbor distances are those of the infinite
 lattice

---
 HamiltonianPy/lattice/lattice.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 215169b..13a959e 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -119,16 +119,13 @@ class Lattice:
             )
 
         # Check is there duplicate points in the given `points`
-        tmp = pdist(points)
-        if np.any(tmp < _VIEW_AS_ZERO):
+        if np.any(pdist(points) < _VIEW_AS_ZERO):
             raise ValueError(
                 "There are duplicate points in the given `points`!"
             )
-        else:
-            dists = np.insert(np.unique(np.rint(tmp * _ZOOM)) / _ZOOM, 0, 0.0)
 
-        # Cache dists as `_all_distances attribute` for later use
-        self._all_distances = dists
+        # Neighbor distances that have been calculated, in ascending order
+        self._all_distances = np.array([0.0])
 
         self.name = name
         self._point_num = point_num
@@ -428,14 +425,16 @@ class Lattice:
 
         assert isinstance(nth, int) and nth >= 0
 
-        try:
-            return self._all_distances[nth]
-        except IndexError:
-            sites = self._sites_factory(scope=nth, no_inversion=False)
-            self._all_distances = np.insert(
-                np.unique(np.rint(pdist(sites) * _ZOOM)) / _ZOOM, 0, 0.0
+        # All the distances no longer than `radius` are found in every step
+        radius = np.min(np.linalg.norm(self._vectors, axis=-1))
+        while nth >= len(self._all_distances):
+            sites = self._sites_factory(
+                scope=self._guess_scope(radius), no_inversion=False
             )
-            return self._all_distances[nth]
+            dists = np.rint(cdist(self._points, sites) * _ZOOM) / _ZOOM
+            self._all_distances = np.unique(dists[dists <= radius])
+            radius *= 2
+        return self._all_distances[nth]
 
     def bonds(self, nth, *, only=True, fold=False):
         """
-- 
2.43.0


From 59942830b14e0412f680a3ff5f7aad9ff94c81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 07/22] fix: float-point noise does not remove k-points from a
 segment

---
 HamiltonianPy/lattice/lattice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 13a959e..5fc6064 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -572,7 +572,10 @@ def KPath(points, min_num=100, loop=True, return_indices=True):
     if min_length < 1e-4:
         raise ValueError("Identical adjacent points!")
 
-    sampling_nums = [int(min_num * length / min_length) for length in lengths]
+    # Float-point noise should not remove a sampling point
+    sampling_nums = [
+        int(min_num * length / min_length + 1e-8) for length in lengths
+    ]
     kpoints = [
         np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start
         for num, dR, start in zip(sampling_nums, dRs, points)
-- 
2.43.0


From 10d2d2ff2dd366824ae3e4b0fad57ad21b5d43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 08/22] fix: import line2d from the package so that polygon can
 be imported

---
 HamiltonianPy/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 519d6d9..655ee14 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -11,11 +11,12 @@ __all__ = [
 
 from enum import Enum, auto
 
-import line2d
 import matplotlib.pyplot as plt
 import numpy as np
 from scipy.spatial.distance import pdist
 
+from HamiltonianPy import line2d
+
 
 class Location(Enum):
     """
-- 
2.43.0


From 83894f39e8fae6afc34e033d850f503b63d18563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 09/22] fix: a point on the extension of an edge is located by
 the other edges

---
 HamiltonianPy/polygon.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 655ee14..1824b44 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -145,13 +145,13 @@ class Polygon:
             location0 = line.LocationRelation(point, tol=tol)
             location1 = line.LocationRelation(ref_point, tol=tol)
             if location0 is line2d.Location.ON:
-                tmp = [p0[0], p1[0]]
-                x, y = point
-                if np.min(tmp) <= x <= np.max(tmp):
+                # The x-coordinate alone can't tell whether the point is
+                # between the two vertices, e.g. for a vertical edge. If the
+                # point is not on this edge, it's up to the other edges.
+                dr = p1 - p0
+                if 0 <= np.dot(np.array(point) - p0, dr) <= np.dot(dr, dr):
                     return Location.BOUNDARY
-                else:
-                    return Location.OUTSIDE
-            if not (location0 is location1):
+            elif not (location0 is location1):
                 return Location.OUTSIDE
         return Location.INSIDE
 
-- 
2.43.0


From 263d070e922c26e986347e9022d8a02f3be348ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 10/22] fix: count permutations and combinations with exact
 integer arithmetic

---
 HamiltonianPy/tools/PandC.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/PandC.py b/HamiltonianPy/tools/PandC.py
index 34dda1d..871ab60 100644
--- a/HamiltonianPy/tools/PandC.py
+++ b/HamiltonianPy/tools/PandC.py
@@ -40,7 +40,7 @@ def Permutation(n, k, repeat=False):
     if repeat:
         return n ** k
     else:
-        return int(factorial(n) / factorial(n - k))
+        return factorial(n) // factorial(n - k)
 
 
 def Combination(n, k, repeat=False):
@@ -69,6 +69,9 @@ def Combination(n, k, repeat=False):
     assert isinstance(k, int) and 0 <= k <= n
 
     if repeat:
-        return int(factorial(n + k - 1) / factorial(k) / factorial(n - 1))
+        # There is exactly one way to choose nothing, even from no items
+        if k == 0:
+            return 1
+        return factorial(n + k - 1) // (factorial(k) * factorial(n - 1))
     else:
-        return int(factorial(n) / factorial(k) / factorial(n - k))
+        return factorial(n) // (factorial(k) * factorial(n - k))
-- 
2.43.0


From 742d639bcd806b254ac7ba341d60d5dbd4bd414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 11/22] fix: leaving a run time environment restores the number
 of mkl threads

---
 HamiltonianPy/tools/runtimeenv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 52dbef8..cf399c0 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -63,6 +63,7 @@ class RunTimeEnv:
         Construct the run time environment
         """
 
+        self._threads_num_saved = mkl.get_max_threads()
         mkl.set_num_threads(self._threads_num)
 
         if self._rd:
@@ -84,7 +85,7 @@ class RunTimeEnv:
         Close the opened file and restore sys.stdout before exit
         """
 
-        mkl.set_num_threads(mkl.get_max_threads())
+        mkl.set_num_threads(self._threads_num_saved)
 
         if self._rd:
             print("=" * 80)
-- 
2.43.0


From d5641abb18dc496208a5f31b97bc5d3ad9eee167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 12/22] fix: environments entered within one second don't
 overwrite each other's log

---
 HamiltonianPy/tools/runtimeenv.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index cf399c0..bf6507a 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -3,6 +3,7 @@ Temporary run time environment for python program
 """
 
 
+from itertools import chain, count
 from time import strftime
 from traceback import print_tb
 from pathlib import Path
@@ -58,6 +59,19 @@ class RunTimeEnv:
         self._rd = rd
         self._path = path
 
+    def _open_log(self):
+        """
+        Open a log file that does not exist yet
+        """
+
+        stem = "Log {0}".format(strftime("%Y-%m-%d %H-%M-%S"))
+        for suffix in chain([""], (" ({0})".format(i) for i in count(1))):
+            file_name = "{0}{1}.txt".format(stem, suffix)
+            try:
+                return open(self._path / file_name, 'x', buffering=1)
+            except FileExistsError:
+                pass
+
     def __enter__(self):
         """
         Construct the run time environment
@@ -67,8 +81,7 @@ class RunTimeEnv:
         mkl.set_num_threads(self._threads_num)
 
         if self._rd:
-            file_name = "Log {0}.txt".format(strftime("%Y-%m-%d %H-%M-%S"))
-            fp = open(self._path / file_name, 'w', buffering=1)
+            fp = self._open_log()
             self._stdout = sys.stdout
             sys.stdout = self._fp = fp
 
-- 
2.43.0


From 2b1966ca1925f1f13a2989bf4c8ecff013f07167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 13/22] fix: a run time environment can be entered again while
 it is active

---
 HamiltonianPy/tools/runtimeenv.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index bf6507a..6fa6018 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -58,6 +58,8 @@ class RunTimeEnv:
         path.mkdir(parents=True, exist_ok=True)
         self._rd = rd
         self._path = path
+        # (log file, stdout, threads_num) to restore, one for each active entry
+        self._saved = []
 
     def _open_log(self):
         """
@@ -77,13 +79,12 @@ class RunTimeEnv:
         Construct the run time environment
         """
 
-        self._threads_num_saved = mkl.get_max_threads()
+        fp = self._open_log() if self._rd else None
+        self._saved.append((fp, sys.stdout, mkl.get_max_threads()))
         mkl.set_num_threads(self._threads_num)
 
         if self._rd:
-            fp = self._open_log()
-            self._stdout = sys.stdout
-            sys.stdout = self._fp = fp
+            sys.stdout = fp
 
             print(
                 "Entering run time environment at {0}".format(
@@ -98,7 +99,8 @@ class RunTimeEnv:
         Close the opened file and restore sys.stdout before exit
         """
 
-        mkl.set_num_threads(self._threads_num_saved)
+        fp, stdout, threads_num = self._saved.pop()
+        mkl.set_num_threads(threads_num)
 
         if self._rd:
             print("=" * 80)
@@ -108,15 +110,15 @@ class RunTimeEnv:
                 print("Exc_type: {0}".format(exc_type))
                 print("Exc_value: {0}".format(exc_value))
                 print("Traceback:")
-                print_tb(traceback, file=self._fp)
+                print_tb(traceback, file=fp)
             print("=" * 80)
             print(
                 "Exit run time environment at: {0}".format(
                     strftime(TIME_FORMAT)
                 ), flush=True
             )
-            sys.stdout = self._stdout
-            self._fp.close()
+            sys.stdout = stdout
+            fp.close()
         return False
 
 
-- 
2.43.0


From 5396b7ed2343cf57409b641674cac5a80895f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 14/22] fix: restore stdout even if the exception can't be
 written to the log

---
 HamiltonianPy/tools/runtimeenv.py | 37 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 6fa6018..6e8aa22 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -103,22 +103,27 @@ class RunTimeEnv:
         mkl.set_num_threads(threads_num)
 
         if self._rd:
-            print("=" * 80)
-            if exc_type is None:
-                print("Non exception has occurred!")
-            else:
-                print("Exc_type: {0}".format(exc_type))
-                print("Exc_value: {0}".format(exc_value))
-                print("Traceback:")
-                print_tb(traceback, file=fp)
-            print("=" * 80)
-            print(
-                "Exit run time environment at: {0}".format(
-                    strftime(TIME_FORMAT)
-                ), flush=True
-            )
-            sys.stdout = stdout
-            fp.close()
+            try:
+                print("=" * 80, file=fp)
+                if exc_type is None:
+                    print("Non exception has occurred!", file=fp)
+                else:
+                    print("Exc_type: {0}".format(exc_type), file=fp)
+                    try:
+                        print("Exc_value: {0}".format(exc_value), file=fp)
+                    except Exception:
+                        print("Exc_value: <unprintable>", file=fp)
+                    print("Traceback:", file=fp)
+                    print_tb(traceback, file=fp)
+                print("=" * 80, file=fp)
+                print(
+                    "Exit run time environment at: {0}".format(
+                        strftime(TIME_FORMAT)
+                    ), file=fp, flush=True
+                )
+            finally:
+                sys.stdout = stdout
+                fp.close()
         return False
 
 
-- 
2.43.0


From 4711809d2937040a652723fa096b2aca1c199f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 15/22] fix: a hex color takes hex digits only, not signs or
 spaces

---
 HamiltonianPy/tools/colorprint.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/HamiltonianPy/tools/colorprint.py b/HamiltonianPy/tools/colorprint.py
index 52f7ccb..00ec65f 100644
--- a/HamiltonianPy/tools/colorprint.py
+++ b/HamiltonianPy/tools/colorprint.py
@@ -11,6 +11,10 @@ __all__ = [
     "color_demo",
 ]
 
+
+from string import hexdigits
+
+
 COLOR_NAMES_STD_LONG = (
     "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"
 )
@@ -109,6 +113,8 @@ def _color_ctrl_seq_24bits(color=None, fg=True):
             )
     elif isinstance(color, str):
         if color.startswith('#') and len(color) == 7:
+            if not all(digit in hexdigits for digit in color[1:]):
+                raise ValueError("Unrecognized hex digit.")
             r = int(color[1:3], base=16)
             g = int(color[3:5], base=16)
             b = int(color[5:7], base=16)
-- 
2.43.0


From 2066015e87d41da2e853f66d73ecc7edb5c0be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 16/22] fix: import Path so that Lattice.show can save the
 figure

---
 HamiltonianPy/lattice/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 5fc6064..a1143a2 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -12,6 +12,7 @@ __all__ = [
 
 
 from itertools import product
+from pathlib import Path
 
 import matplotlib.pyplot as plt
 import numpy as np
-- 
2.43.0


From b602db2307709bc4b6825352deacfe3e19697cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 17/22] fix: save the drawn lattice inside the requested
 directory

---
 HamiltonianPy/tools/Draw2DLattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/Draw2DLattice.py b/HamiltonianPy/tools/Draw2DLattice.py
index 69f1c03..226dd9e 100644
--- a/HamiltonianPy/tools/Draw2DLattice.py
+++ b/HamiltonianPy/tools/Draw2DLattice.py
@@ -176,7 +176,7 @@ def show(
                 name = "kagome.pdf"
             else:
                 name = which + ".pdf"
-        fig.savefig(path + name, dpi=200)
+        fig.savefig(Path(path) / name, dpi=200)
     plt.close("all")
 
 
-- 
2.43.0


From 8010dca050dee39320c0f68644dbea04ad39bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 18/22] fix: a matrix onto an empty left space has no stored
 entries

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index eacc52a..e8405f2 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -237,6 +237,9 @@ def matrix_function(
         args = (term, right_bases, left_bases)
 
     data = core_func(*args)
+    # Columns without nonzero element were recorded at (0, 0), which does not
+    # exist if `left_bases` is empty.
+    data = data[:, data[2] != 0]
     if to_csr:
         res = csr_matrix((coeff * data[2], (data[0], data[1])), shape=shape)
         res.eliminate_zeros()
-- 
2.43.0


From a1ca6a1f1dec7f1e66df001851c592c103eacadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 19/22] fix: averages for kets of integers did not fit into the
 integer type

---
 HamiltonianPy/averages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/averages.py b/HamiltonianPy/averages.py
index 7af2d72..708c4e7 100644
--- a/HamiltonianPy/averages.py
+++ b/HamiltonianPy/averages.py
@@ -45,7 +45,9 @@ def QuantumAverages(ket, operator):
         The corresponding quantum-mechanical average.
     """
 
-    return np.vdot(ket, operator.dot(ket)) / np.vdot(ket, ket)
+    # Normalize the given `ket`, integers might overflow without it
+    ket = ket / np.linalg.norm(ket)
+    return np.vdot(ket, operator.dot(ket))
 
 
 def TotalSpinMatrices(spin_num):
-- 
2.43.0


From ecf5a3a7e4ff126cc75e78b07b262357b613b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 20/22] fix: refuse subspace specifiers whose particle number
 is not an integer

---
 HamiltonianPy/hilbertspace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/hilbertspace.py b/HamiltonianPy/hilbertspace.py
index 9dd3668..da1a4bd 100644
--- a/HamiltonianPy/hilbertspace.py
+++ b/HamiltonianPy/hilbertspace.py
@@ -99,7 +99,9 @@ def is_valid_subspace_specifier(specifier):
         return True
     elif isinstance(specifier, (list, tuple)) and len(specifier) == 2:
         states, p_num = specifier
-        if isinstance(states, int) and states > 0 and states >= p_num:
+        if not isinstance(p_num, (int, np.integer)):
+            return False
+        elif isinstance(states, int) and states > 0 and states >= p_num:
             return True
         elif is_valid_states_collection(states) and len(states) >= p_num:
             return True
@@ -136,7 +138,9 @@ def subspace_specifier_preprocess(specifier):
         res = (tuple(range(specifier)), -1)
     elif isinstance(specifier, (tuple, list)) and len(specifier) == 2:
         states, p_num = specifier
-        if isinstance(states, int) and states > 0 and states >= p_num:
+        if not isinstance(p_num, (int, np.integer)):
+            raise ValueError(error_msg.format(specifier))
+        elif isinstance(states, int) and states > 0 and states >= p_num:
             res = (tuple(range(states)), p_num)
         elif is_valid_states_collection(states) and len(states) >= p_num:
             res = (tuple(states), p_num)
-- 
2.43.0


From 3caa70daa043d64d9b85d5b52daad69c2760f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 21/22] fix: rotation about a short axis close to the
 z-direction used another axis

---
 HamiltonianPy/rotation3d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/rotation3d.py b/HamiltonianPy/rotation3d.py
index 5e7f6b2..00f0b18 100644
--- a/HamiltonianPy/rotation3d.py
+++ b/HamiltonianPy/rotation3d.py
@@ -367,14 +367,15 @@ def RotationGeneral(axis, theta, *, deg=False, inversion=False):
         cos_alpha, cos_beta, cos_theta = np.cos(angles)
     elif len(axis) == 3:
         x, y, z = axis
-        dxy = np.sqrt(x ** 2 + y ** 2)
+        dxy = np.hypot(x, y)
         dr = np.sqrt(x ** 2 + y ** 2 + z ** 2)
         if dr < _VIEW_AS_ZERO:
             raise ValueError(
                 "The given `axis` is a zero vector: {0}".format(axis)
             )
 
-        if dxy < _VIEW_AS_ZERO:
+        # A short axis off the z-direction still has an azimuth
+        if dxy == 0.0:
             sin_alpha = 0.0
             cos_alpha = 1.0
         else:
-- 
2.43.0


From 6f527439ba47ea7d50479ab8bc36d84f12e706f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:19 +0000
Subject: [PATCH 22/22] fix: float-point noise split a neighbor shell at the
 boundary of the rounding

Distances were rounded before duplicates were removed, so that equal distances
such as 1.23455 became both 1.2345 and 1.2346: two neighbor shells, one of
them without any bond.
---
 HamiltonianPy/lattice/lattice.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a1143a2..e934ce1 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -432,8 +432,12 @@ class Lattice:
             sites = self._sites_factory(
                 scope=self._guess_scope(radius), no_inversion=False
             )
-            dists = np.rint(cdist(self._points, sites) * _ZOOM) / _ZOOM
-            self._all_distances = np.unique(dists[dists <= radius])
+            dists = np.sort(cdist(self._points, sites), axis=None)
+            dists = dists[dists <= radius]
+            # Float-point noise should not split a neighbor shell whose
+            # distance is just at the boundary of the rounding
+            dists = dists[np.diff(dists, prepend=-1) > _VIEW_AS_ZERO * 1E-4]
+            self._all_distances = np.unique(np.rint(dists * _ZOOM) / _ZOOM)
             radius *= 2
         return self._all_distances[nth]
 
-- 
2.43.0

