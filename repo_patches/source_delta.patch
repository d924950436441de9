From 88b5ceac95a53828e3e54f001f732a99c82bf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 01/15] fix: great_circle_distance returned n*n distances for n
 positions

---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 9e14c76..b35ca95 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -698,7 +698,7 @@ def great_circle_distance(n_EA_E, n_EB_E, radius=6371009.0):
 
     """
     sin_theta = norm(np.cross(n_EA_E, n_EB_E, axis=0), axis=0)
-    cos_theta = dot(n_EA_E.T, n_EB_E)
+    cos_theta = np.sum(n_EA_E * n_EB_E, axis=0)
     theta = np.arctan2(sin_theta, cos_theta).ravel()
     s_AB = theta * radius
 
-- 
2.43.0


From cce3b434096d2b4315d361a1ae6c1f15e796f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 02/15] fix: cross_track_distance returned n*n distances for n
 paths and n positions

---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index b35ca95..4fcd9dd 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -557,7 +557,7 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
 
     """
     c_E = great_circle_normal(path[0], path[1])
-    sin_theta = -np.dot(c_E.T, n_EB_E).ravel()
+    sin_theta = -np.sum(c_E * n_EB_E, axis=0)
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
     return _great_circle_cross_track_distance(sin_theta, radius)
-- 
2.43.0


From 200a829130918a40270dcd67705faaee0a0c156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 03/15] fix: intersect failed for n path pairs and for
 intersections 90 degrees from A1

---
 src/nvector/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 4fcd9dd..3f1c4af 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -496,7 +496,9 @@ def intersect(path_a, path_b):
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
     # the one that is closet to n_EA1_E, by selecting sign from the dot
     # product between n_EC_E_tmp and n_EA1_E:
-    n_EC_E = np.sign(dot(n_EC_E_tmp.T, n_EA1_E)) * n_EC_E_tmp
+    # Select the intersection on the same hemisphere as A1 (ties included)
+    sign = np.where(np.sum(n_EC_E_tmp * n_EA1_E, axis=0) < 0, -1, 1)
+    n_EC_E = sign * n_EC_E_tmp
     if np.any(np.isnan(n_EC_E)):
         warnings.warn('Paths are Equal. Intersection point undefined. '
                       'NaN returned.')
-- 
2.43.0


From 20df9007a97b2494f5618082d9e3e78dbca6e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 04/15] fix: closest_point_on_great_circle failed for n
 positions

---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 3f1c4af..7e79abe 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -673,7 +673,7 @@ def closest_point_on_great_circle(path, n_EB_E):
 
     c2 = cross(n_EB_E, c_E, axis=0)
     n_EC_E = unit(cross(c_E, c2, axis=0))
-    return n_EC_E * np.sign(dot(n_EC_E.T, n_EB_E))
+    return n_EC_E * np.where(np.sum(n_EC_E * n_EB_E, axis=0) < 0, -1, 1)
 
 
 @use_docstring(_examples.get_examples_no_header([5], OO=False))
-- 
2.43.0


From ea641f067439660f43fecb10dfb54500ade83bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 05/15] fix: cross_track_distance returned NaN for positions at
 the pole of the great circle

---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 7e79abe..fcec4cf 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -523,7 +523,7 @@ def _euclidean_cross_track_distance(sin_theta, radius=1):
 
 
 def _great_circle_cross_track_distance(sin_theta, radius=1):
-    return np.arcsin(sin_theta) * radius
+    return np.arcsin(np.clip(sin_theta, -1, 1)) * radius
     # ill conditioned for small angles:
     # return (np.arccos(-sin_theta) - np.pi / 2) * radius
 
-- 
2.43.0


From ba6a68139899cd16a2b2344a185ba4f5eaf2ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 06/15] fix: on_great_circle_path accepted positions on the far
 side of long paths

---
 src/nvector/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index fcec4cf..afb2d31 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -643,7 +643,10 @@ def on_great_circle_path(path, n_EB_E, radius=6371009.0, atol=1e-8):
     scale = norm(n_EA2_E - n_EA1_E, axis=0)
     ti1 = norm(n_EB_E - n_EA1_E, axis=0) / scale
     ti2 = norm(n_EB_E - n_EA2_E, axis=0) / scale
-    return (ti1 <= 1) & (ti2 <= 1) & on_great_circle(path, n_EB_E, radius, atol=atol)
+    # The chords alone do not rule out the far side of the earth for paths > 120 degrees:
+    near_side = np.sum(n_EB_E * (n_EA1_E + n_EA2_E), axis=0) >= 0
+    return ((ti1 <= 1) & (ti2 <= 1) & near_side
+            & on_great_circle(path, n_EB_E, radius, atol=atol))
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
-- 
2.43.0


From b34d906f049f3eb954c00bfcfdb2213e2e35a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 07/15] fix: n_EA_E_distance_and_azimuth2n_EB_E gave wrong
 direction from the poles

---
 src/nvector/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index afb2d31..37039a6 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -813,7 +813,11 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    k_east_E = unit(cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0))
+    k_east_E_direction = cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0)
+    on_poles = np.flatnonzero(norm(k_east_E_direction, axis=0) == 0)
+    k_east_E = unit(k_east_E_direction)
+    # East is undefined on the poles. Select the same direction as n_E2R_EN:
+    k_east_E[:, on_poles] = dot(R_Ee.T, [[0], [1], [0]])
     k_north_E = cross(n_EA_E, k_east_E, axis=0)
 
     # Step2: Find the initial direction vector d_E:
-- 
2.43.0


From 8044ffdec610e329068b63ddaeadc16b44aace9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 08/15] fix: GeoPoint.displace(method='greatcircle') ignored
 the axes of the frame

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index b32072f..8b1f30a 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -293,7 +293,8 @@ class GeoPoint(_Common):
         radius = e_a.length
         distance_rad = distance / radius
         azimuth_rad = azimuth if not degrees else rad(azimuth)
-        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad)
+        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
+                                                      R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
         azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
         if degrees:
-- 
2.43.0


From b0f1c8c7c478fe4ef032748e7c17e25dd5fa4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 09/15] fix: ETRS89 ellipsoid had inverse flattening and was
 not selectable by name

---
 src/nvector/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index f3417b5..0f39476 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -38,7 +38,7 @@ ELLIPSOID = {
     16: Ellipsoid(a=6378135., f=1.0 / 298.26, name='WGS 72'),
     17: Ellipsoid(a=6378206.4, f=1.0 / 294.9786982138, name='Clarke 1866    (NAD27)'),
     18: Ellipsoid(a=6378137.0, f=1.0 / 298.257223563, name='GRS80 / WGS84  (NAD83)'),
-    19: Ellipsoid(a=6378137, f=298.257222101, name='ETRS89')
+    19: Ellipsoid(a=6378137, f=1.0 / 298.257222101, name='ETRS89')
 }
 ELLIPSOID_IX = {'airy1858': 1,
                 'airymodified': 2,
@@ -68,6 +68,7 @@ ELLIPSOID_IX = {'airy1858': 1,
                 'grs80': 18,
                 'wgs84': 18,
                 'nad83': 18,
+                'etrs89': 19,
                 }
 
 
-- 
2.43.0


From 327337fc253a7db50433833ed2964c915e6b3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 10/15] fix: Nvector.interpolate failed for n positions with a
 common depth

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8b1f30a..e2075e5 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -527,7 +527,8 @@ class Nvector(_Common):
         >>> h = plt.plot(lon, lat, 'o', loni, lati, '-')
         >>> plt.show()
         """
-        vectors = np.vstack((self.normal, self.z))
+        z = np.broadcast_to(self.z, (1, np.shape(self.normal)[1]))
+        vectors = np.vstack((self.normal, z))
         vectors_i = _interp_vectors(t_i, t, vectors, kind, window_length, polyorder, mode, cval)
         normal = unit(vectors_i[:3], norm_zero_vector=np.nan)
         return Nvector(normal, z=vectors_i[3], frame=self.frame)
-- 
2.43.0


From 368b358ed34364a75d2c381e57da7068e9ee890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 11/15] fix: GeoPath.on_path(method='ellipsoid') failed for
 paths heading due south

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index e2075e5..1dbbccb 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -977,10 +977,11 @@ class GeoPath(object):
         z = (point_a.z + point_b.z) * 0.5
         distance_ab, azimuth_ab, _azi_ba = point_a.distance_and_azimuth(point_b)
         distance_ac, azimuth_ac, _azi_ca = point_a.distance_and_azimuth(point_c)
+        delta = _base_angle(azimuth_ac - azimuth_ab)  # azimuths are equal modulo 2 pi
         return (isclose(z, point_c.z, rtol=rtol, atol=atol)
                 & (isclose(distance_ac, 0, atol=atol)
                    | ((distance_ab >= distance_ac)
-                      & isclose(azimuth_ac, azimuth_ab, rtol=rtol, atol=atol))))
+                      & isclose(azimuth_ab + delta, azimuth_ab, rtol=rtol, atol=atol))))
 
     def on_great_circle(self, point, atol=1e-8):
         """Returns True if point is on the great circle within a tolerance."""
-- 
2.43.0


From 58c56920df45dd93c90bf2dcefd6ebe5eeba3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 12/15] fix: FrameE ignored a or f when only one of them was
 given

---
 src/nvector/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 1dbbccb..2b43b75 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1209,7 +1209,9 @@ class FrameE(_Common):
 
     def __init__(self, a=None, f=None, name='WGS84', axes='e'):
         if a is None or f is None:
-            a, f, _full_name = get_ellipsoid(name)
+            ellipsoid = get_ellipsoid(name)
+            a = ellipsoid.a if a is None else a
+            f = ellipsoid.f if f is None else f
         self.a = a
         self.f = f
         self.name = name
-- 
2.43.0


From f2b7a8e68f27017d30839904798d66a5d25d95c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 13/15] fix: FrameN compared equal to FrameB while FrameB
 compared unequal to FrameN

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 2b43b75..78d72c6 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1434,7 +1434,8 @@ class FrameN(_LocalFrame):
         return n_E2R_EN(nvector.normal, nvector.frame.R_Ee)
 
     def _is_equal_to(self, other, rtol=1e-12, atol=1e-14):
-        return (allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
+        return (isinstance(other, FrameN)
+                and allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
                 and self.nvector == other.nvector)
 
 
-- 
2.43.0


From 430c39187db438b2fbab95e71f451e9a32efcfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 14/15] fix: nthroot(0.0, n) raised ZeroDivisionError

---
 src/nvector/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 0f39476..2c06e4b 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -409,6 +409,7 @@ def nthroot(x, n):
     True
 
     """
+    x = np.asarray(x)
     y = x**(1. / n)
     return np.where((x != 0) & (_EPS * np.abs(x) < 1),
                     y - (y**n - x) / (n * y**(n - 1)), y)
-- 
2.43.0


From c5832c361d4728dbecf81f730f9eb3c078111487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 15/15] fix: lat_lon2n_E accepts a single latitude with many
 longitudes

A vector of latitudes could be combined with a single longitude, but not
the other way around: np.vstack got rows of different lengths and raised
ValueError.  Broadcast the two angles first.
---
 src/nvector/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 37039a6..20cc46a 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -65,6 +65,7 @@ def lat_lon2n_E(latitude, longitude, R_Ee=None):
     if R_Ee is None:
         R_Ee = E_rotation()
     # Equation (3) from Gade (2010):
+    latitude, longitude = np.broadcast_arrays(latitude, longitude)
     nvec = np.vstack((sin(latitude),
                       sin(longitude) * cos(latitude),
                       -cos(longitude) * cos(latitude)))
-- 
2.43.0

