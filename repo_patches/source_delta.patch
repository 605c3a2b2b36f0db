From cc50c1cdc60e69938e00601bd42a03d888647062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 001/117] fix: abscissa of a projected point is consistent with
 Line2D.interpolate

---
 Patro/GeometryEngine/Line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index c499003..0a6e6fa 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -206,7 +206,8 @@ class Line2D(Primitive2DMixin, Primitive):
 
         """
         delta = point - self.p
-        s = delta.projection_on(self.v)
+        # interpolate takes an abscissa in unit of the vector magnitude
+        s = delta.projection_on(self.v) / self.v.magnitude
         return s
 
     def projected_point(self, point: Vector2D) -> Vector2D:
-- 
2.43.0


From 2843b1cec2d0e4b322c936e7cf7185477d1941e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 002/117] fix: distance between line abscissae

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 0a6e6fa..31c225e 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -101,7 +101,7 @@ class Line2D(Primitive2DMixin, Primitive):
 
     def compute_distance_between_abscissae(self, s0: float, s1: float) -> float:
         """Compute distance between two abscissae"""
-        return abs(s1 - s0) * self.v.magnitude()
+        return abs(s1 - s0) * self.v.magnitude
 
     ##############################################
 
-- 
2.43.0


From 1ef9f15d131648036f4af89d8e12b984b5dd9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 003/117] fix: Line2D.point_at_distance without point starts at
 the line point

---
 Patro/GeometryEngine/Line.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 31c225e..1a38726 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -95,6 +95,8 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def point_at_distance(self, distance: float, point: Vector2D=None) -> Vector2D:
+        if point is None:
+            point = self.p
         return point + self.vn * distance
 
     ##############################################
-- 
2.43.0


From 804e5f88cd957cf1f811aa55b8a26e70dbb977d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 004/117] fix: a line does not share its point and vector with
 its clones

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 1a38726..dd828ca 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -60,7 +60,7 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def clone(self) -> 'Line2D':
-        return self.__class__(self.p, self.v)
+        return self.__class__(self.p.clone(), self.v.clone())
 
     ##############################################
 
-- 
2.43.0


From 91a57aa658744893bf66f44397e9168840655bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 005/117] fix: Segment2D.contain_point checks the distance to
 the segment

---
 Patro/GeometryEngine/Segment.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index cd2c455..bcb5505 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -212,9 +212,4 @@ class Segment2D(Primitive2DMixin, Primitive2P):
 
         # Fixme: purpose ???
 
-        line = self.to_line()
-        d, s = line.distance_and_abscissa_to_line(point)
-        # Fixme: check d / is collinear
-        # Fixme: p2 <- p1
-        #! print('>'*10, line, point, d, s)
-        return 0 <= s <= 1
+        return round(self.distance_to_point(point), 7) == 0
-- 
2.43.0


From 484cb8d57ca83404189cfe21b85684c2c50cc809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 006/117] fix: triangle lengths and angles

---
 Patro/GeometryEngine/Triangle.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f27acdf..a63d09e 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -151,19 +151,20 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_length(self):
 
-        if not hasattr(self._p10):
-            self._p10 = (self._p1 - self._p0).magnitude
-            self._p21 = (self._p2 - self._p1).magnitude
-            self._p02 = (self._p0 - self._p2).magnitude
+        # Note: points could have been changed since the last call
+        self._p10 = (self._p1 - self._p0).magnitude
+        self._p21 = (self._p2 - self._p1).magnitude
+        self._p02 = (self._p0 - self._p2).magnitude
 
     ##############################################
 
     def _cache_angle(self):
 
-        if not hasattr(self._a10):
-            self._a10 = (self._p1 - self._p0).orientation
-            self._a21 = (self._p2 - self._p1).orientation
-            self._a02 = (self._p0 - self._p2).orientation
+        # interior angles
+        # Note: points could have been changed since the last call
+        self._a10 = abs((self._p1 - self._p0).angle_with(self._p2 - self._p0))
+        self._a21 = abs((self._p2 - self._p1).angle_with(self._p0 - self._p1))
+        self._a02 = abs((self._p0 - self._p2).angle_with(self._p1 - self._p2))
 
     ##############################################
 
-- 
2.43.0


From 400cfefe1154898acac5bb075f143c78daf04e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 007/117] fix: rectangle class method constructors

---
 Patro/GeometryEngine/Rectangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 7f8cbe8..198bbe3 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -52,11 +52,11 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     ##############################################
 
     @classmethod
-    def from_point_and_offset(self, p0, v):
+    def from_point_and_offset(cls, p0, v):
         return cls(p0, p0+v)
 
     @classmethod
-    def from_point_and_radius(self, p0, v):
+    def from_point_and_radius(cls, p0, v):
         return cls(p0-v, p0+v)
 
     ##############################################
-- 
2.43.0


From a5bd54ccb00ceebcfefd030d33ac92e10e3dc1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 008/117] fix: iteration from the second point for 3 and 4
 points primitives

---
 Patro/GeometryEngine/Primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 0ee1117..25d2241 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -536,7 +536,7 @@ class Primitive3P(Primitive2P):
 
     def iter_from_second_point(self):
         # Fixme: share code ???
-        return iter(self._p1, self._p2)
+        return iter((self._p1, self._p2))
 
     ##############################################
 
@@ -588,7 +588,7 @@ class Primitive4P(Primitive3P):
         return iter((self._p3, self._p2, self._p1, self._p0))
 
     def iter_from_second_point(self):
-        return iter(self._p1, self._p2, self._p3)
+        return iter((self._p1, self._p2, self._p3))
 
     ##############################################
 
-- 
2.43.0


From de70f809aa1780e6578380528516c9164ca6b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 009/117] fix: ReversiblePrimitiveMixin.is_reversible returns
 its answer

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 25d2241..076b869 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -360,7 +360,7 @@ class ReversiblePrimitiveMixin:
 
     @property
     def is_reversible(self):
-        True
+        return True
 
     ##############################################
 
-- 
2.43.0


From e6488438bec0396745e603db5c85cbe08b434610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:51 +0000
Subject: [PATCH 010/117] fix: reverse of point primitives reverses the points

---
 Patro/GeometryEngine/Primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 076b869..5f08115 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -432,7 +432,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
 
 ####################################################################################################
 
-class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
+class Primitive2P(ReversiblePrimitiveMixin, Primitive1P):
 
     """Base class for 2-points primitives."""
 
@@ -597,7 +597,7 @@ class Primitive4P(Primitive3P):
 
 ####################################################################################################
 
-class PrimitiveNP(PointPrimitive, ReversiblePrimitiveMixin):
+class PrimitiveNP(ReversiblePrimitiveMixin, PointPrimitive):
 
     """Base class for N-points primitives."""
 
-- 
2.43.0


From 644dee5697b993a5ea377c256a3523371920cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 011/117] fix: a transformed polygon forgets the answers
 computed before

---
 Patro/GeometryEngine/Polygon.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5bcdfab..0762028 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -97,12 +97,20 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
         PrimitiveNP.__init__(self, points)
 
+        self._reset_cache()
+        self._is_convex = is_convex
+        self._is_clockwise = is_clockwise
+
+    ##############################################
+
+    def _reset_cache(self):
+
         self._edges = None
         self._is_simple = None
-        self._is_convex = is_convex
+        self._is_convex = None
 
         self._area = None
-        self._is_clockwise = is_clockwise
+        self._is_clockwise = None
         # self._cross = None
         # self._barycenter = None
 
@@ -113,6 +121,12 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._reset_cache()
+
+    ##############################################
+
     @property
     def is_triangle(self):
         return self.number_of_points == 3
-- 
2.43.0


From d8546ed590da5d2723d8a6cb91154f7981d82d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 012/117] fix: winding number test of a polygon

---
 Patro/GeometryEngine/Polygon.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 0762028..2540902 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -491,14 +491,15 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if edge.p0.y <= y:
                 if edge.p1.y > y: # upward crossing
-                    if edge.is_left(point):
+                    if edge.left_of(point):
                         winding_number += 1
             else:
                 if edge.p1.y <= y: #  downward crossing
-                    if edge.is_right(point):
+                    if edge.right_of(point):
                         winding_number -= 1
 
-        return winding_number > 0
+        # negative for a clockwise polygon
+        return winding_number != 0
 
     ##############################################
 
-- 
2.43.0


From 7b694315e9aba9df2f5e3c94579450d52b0c253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 013/117] fix: adjacent edges do not make a polygon
 self-intersecting due to rounding

---
 Patro/GeometryEngine/Polygon.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 2540902..415d53b 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -167,11 +167,9 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
                     if intersect:
                         common_vertex = edge1.share_vertex_with(edge2)
                         if common_vertex is not None:
-                            if common_vertex == intersection:
-                                continue
-                            else:
-                                # degenerated case where a vertex lie on an edge
-                                return False
+                            # two secant lines only meet at this vertex
+                            # Note: the computed intersection is subject to rounding
+                            continue
                         else:
                             # two edge intersect
                             # intersections.append(intersection)
-- 
2.43.0


From 062492ae0968aeea37a5d3a9520ba6b4fb781e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 014/117] fix: orientation of a polygon of null area

---
 Patro/GeometryEngine/Polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 415d53b..7fc35f8 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -274,6 +274,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         if area == 0:
             # print('Null area')
             self._area = 0
+            self._area_sign = 0
             self._barycenter = self.start_point
         else:
             factor = 1 / (6*area)
-- 
2.43.0


From fb3cc86a7f254565b90a23cbbb2accad378ebca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 015/117] fix: recenter computes the barycenter and forgets the
 answers computed before

---
 Patro/GeometryEngine/Polygon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 7fc35f8..d9cb4f0 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -419,9 +419,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         """Recenter the polygon to the barycenter."""
         # if self._centred:
         #     return
-        barycenter = self._barycenter
-        for point in self._points:
-            point -= barycenter
+        barycenter = self.barycenter
+        self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
     ##############################################
-- 
2.43.0


From 501a3d273956f006a902678bbc8d2829d374bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 016/117] fix: name of a regular polygon

---
 Patro/GeometryEngine/Polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index d9cb4f0..30de062 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -657,9 +657,9 @@ class RegularPolygon(Polygon2D):
     @classmethod
     def ngon_name(cls, number_of_edges):
         try:
-            return self.NGON_NAMES[number_of_edges]
+            return cls.NGON_NAMES[number_of_edges -1]
         except IndexError:
-            return self.LARGE_NGON_NAMES.get(number_of_edges, None)
+            return cls.LARGE_NGON_NAMES.get(number_of_edges, None)
 
     @property
     def str_name(self):
-- 
2.43.0


From 631d82c1b1bb0dd59bbe9ea8d4223d6ba2bbc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 017/117] fix: convex hull of repeated points and points
 aligned with the first one

---
 Patro/GeometryEngine/Polygon.py | 45 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 30de062..50c6e84 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -34,7 +34,6 @@ __all__ = [
 ####################################################################################################
 
 from functools import cmp_to_key
-from operator import itemgetter # , attrgetter
 import math
 
 import numpy as np
@@ -704,36 +703,30 @@ def sort_point_for_graham_scan(points):
     x0 = p0.x
     y0 = p0.y
 
-    # sort by polar angle with respect to p0
-    # Fixme: fastest orientation
+    # sort by polar angle in [0, 180[ with respect to p0, then by distance
+    def sort_by_angle(item0, item1):
+        cross = item0[1].cross(item1[1])
+        if cross != 0:
+            return -cross
+        else:
+            return item0[1].magnitude_square - item1[1].magnitude_square
+
     data = []
     for point in sorted_points[1:]:
-        direction = Vector2D(point - p0)
-        data.append((point, direction, direction.orientation, None))
-    data.sort(key=itemgetter(2))
+        # skip points equal to p0
+        if point.x != x0 or point.y != y0:
+            data.append((point, Vector2D(point - p0)))
+    data.sort(key=cmp_to_key(sort_by_angle))
 
     # if several points have the same angle then only keep the farther
-    i = 1
-    while i < len(data):
-        prev = data[i-1]
-        current = data[i]
-        # same polar angle ?
-        if prev[2] == current[2]:
-            # cache magnitude_square
-            if prev[3] is None:
-                prev[3] = prev[1].magnitude_square
-            if current[3] is None:
-                current[3] = current[1].magnitude_square
-            # remove the nearest
-            if prev[3] < current[3]:
-                del data[i-1]
-            else:
-                del data[i]
-            # don't increment i
-            continue
-        i += 1
+    farthers = []
+    for item in data:
+        if farthers and farthers[-1][1].cross(item[1]) == 0:
+            farthers[-1] = item
+        else:
+            farthers.append(item)
 
-    return [p0] + [x[0] for x in data]
+    return [p0] + [x[0] for x in farthers]
 
 ####################################################################################################
 
-- 
2.43.0


From 590f23839cec351f03a663d50c03a8df0cd0b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 018/117] fix: convex hull only keeps extreme points

---
 Patro/GeometryEngine/Polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 50c6e84..71aeb78 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -768,8 +768,8 @@ def convex_hull(points, as_polygon=True):
     _convex_hull = []
     sorted_points = sort_point_for_graham_scan(points)
     for point in sorted_points:
-        # pop the last point from the stack if we turn clockwise to reach this point
-        while len(_convex_hull) > 1 and is_three_point_cw(_convex_hull[-2], _convex_hull[-1], point):
+        # pop the last point from the stack if we don't turn counter-clockwise to reach this point
+        while len(_convex_hull) > 1 and not is_three_point_ccw(_convex_hull[-2], _convex_hull[-1], point):
             _convex_hull.pop()
         _convex_hull.append(point)
 
-- 
2.43.0


From 443256aeff374ba6819d9a2c8f8e00d9fedd5229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 019/117] fix: length of a polyline

---
 Patro/GeometryEngine/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d7f110..2e480c3 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -63,7 +63,7 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     @property
     def length(self):
-        return sum([edge.magnitude for edge in self.edges])
+        return sum([edge.length for edge in self.edges])
 
     ##############################################
 
-- 
2.43.0


From 35039e8648d771485713aaf0168e89fc95e645a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 020/117] fix: a transformed polyline forgets its former edges

---
 Patro/GeometryEngine/Polyline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2e480c3..fa32e72 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -50,6 +50,12 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._edges = None
+
+    ##############################################
+
     @property
     def edges(self):
 
-- 
2.43.0


From a3d3cca403d7375738d4aff96e1f5446192e7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 021/117] fix: to_polygon passes the points

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 5f08115..834cef6 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -685,7 +685,7 @@ class PolygonMixin:
 
     def to_polygon(self):
         from .Polygon import Polygon2D
-        return Polygon2D(self.points)
+        return Polygon2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From cd01cb2d0dec8c62ed39cbe58c12777bf171583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 022/117] fix: point_array when points is an iterator

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 834cef6..a18c75d 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -212,7 +212,7 @@ class PointPrimitive(Primitive):
         # if self._point_array is None:
         #     self._point_array = np.array(list(self.points)).transpose()
         # return self._point_array
-        return np.array(self.points).transpose()
+        return np.array(tuple(self.points)).transpose()
 
     ##############################################
 
-- 
2.43.0


From d12e1bd9516f877738e8d8719c60cdf7d5077107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 023/117] fix: composition of 2D transformations of different
 types

---
 Patro/GeometryEngine/Transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 83e4cdb..f2ae4b5 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -278,7 +278,7 @@ class Transformation2D(Transformation):
     ##############################################
 
     def _check_type(self):
-        return self._check_matrix_type(self.to_list())
+        return self.check_matrix_type(self.to_list())
 
     ##############################################
 
-- 
2.43.0


From 8af7c85aac4509193e69c5f79cfc0e086c5791bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 024/117] fix: type of a composition of affine transformations

---
 Patro/GeometryEngine/Transformation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index f2ae4b5..462f6fe 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -370,7 +370,12 @@ class AffineTransformation2D(AffineTransformation):
 
     def _check_type(self):
         matrix_type = Transformation2D.check_matrix_type(self.matrix_part.flat)
-        # Fixme: translation etc. !!!
+        if not self.translation_part.any():
+            return matrix_type
+        elif matrix_type == TransformationType.Identity:
+            return TransformationType.Translation
+        else:
+            return TransformationType.Generic
 
     ##############################################
 
-- 
2.43.0


From 561bbe2825b26bbd03b47ad0597ec1d2d61ff886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 025/117] fix: size of a transformation

---
 Patro/GeometryEngine/Transformation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 462f6fe..6d028b5 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -118,7 +118,7 @@ class Transformation:
 
     @property
     def size(self):
-        return self._size
+        return self.__size__
 
     @property
     def array(self):
@@ -145,7 +145,7 @@ class Transformation:
     ##############################################
 
     def same_dimension(self, other):
-        return self.__size__ == other.dimension
+        return self.__size__ == other.size
 
     ##############################################
 
-- 
2.43.0


From e25bac0be7afeba4067ac31feb514bfaef4291a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 026/117] fix: perimeter and eccentricity of a circle

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e237080..c9eb29e 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -168,11 +168,11 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def eccentricity(self):
-        return 1
+        return 0
 
     @property
     def perimeter(self):
-        if self._domain is not None:
+        if self._domain is None:
             return 2*pi * self._radius
         else:
             return self._radius * self._domain.length
-- 
2.43.0


From feea1d65b6c3355816befbba9e8494cec145821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 027/117] fix: length of a domain that goes through the angle
 zero

---
 Patro/GeometryEngine/Mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index c7abe2d..a19ff7f 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -134,7 +134,7 @@ class AngularDomain:
             if self.is_counterclockwise:
                 return length
             else:
-                return 2*pi - length
+                return 2*pi + length # length is negative
 
     ##############################################
 
-- 
2.43.0


From 93f1198d63be0bf07cbbb70c9d9c606e2937d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 028/117] fix: intersection of two circles

---
 Patro/GeometryEngine/Conic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index c9eb29e..06f550e 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -314,7 +314,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: check domain !!!
 
         v = circle.center - self.center
-        d = sign(v.x) * v.magnitude
+        d = v.magnitude
+        if d == 0: # concentric circles
+            return None
 
         x = (d**2 - circle.radius**2 + self.radius**2) / (2*d)
         y2 = self.radius**2 - x**2
@@ -322,12 +324,13 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if y2 < 0:
             return None
         else:
-            p = self.center + v.normalise() * x
+            v = v / d
+            p = self.center + v * x
             if y2 == 0:
                 return p
             else:
-                n = v.normal() * sqrt(y2)
-                return p - n, p - n
+                n = v.normal * sqrt(y2)
+                return p - n, p + n
 
     ##############################################
 
-- 
2.43.0


From 42d7b5ef54abedaa3e3fba72233f26df80ce69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 029/117] fix: SVG arc with too small radii

---
 Patro/GeometryEngine/Conic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 06f550e..d4a5a0c 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -395,7 +395,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Ensure radii are large enough
         radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2
         if radii_scale > 1:
-            self._logger.warning('SVG Arc: radii must be scale')
+            cls._logger.warning('SVG Arc: radii must be scale')
             radii_scale = math.sqrt(radii_scale)
             radius_x = radii_scale * radius_x
             radius_y = radii_scale * radius_y
@@ -415,7 +415,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # print(ratio)
         # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
         sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
-        center_prime = sign * math.sqrt(num / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
+        # num is null, up to rounding errors, when the radii were scaled
+        center_prime = sign * math.sqrt(max(num, 0) / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
         center = Transformation2D.Rotation(angle) * center_prime + origin_prime
 
-- 
2.43.0


From ea35c421e9fb506d4fbb93b075c5bcf4fe4de5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 030/117] fix: SVG arc passes through its end points

---
 Patro/GeometryEngine/Conic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index d4a5a0c..98d4497 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -414,7 +414,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # print(point1_prime.anti_normal)
         # print(ratio)
         # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
-        sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
         # num is null, up to rounding errors, when the radii were scaled
         center_prime = sign * math.sqrt(max(num, 0) / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
@@ -422,8 +421,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         vector1 =   (point1_prime - center_prime).divide(radius_x, radius_y)
         vector2 = - (point1_prime + center_prime).divide(radius_x, radius_y)
-        theta = cls.__vector_cls__(1, 0).angle_with(vector1)
-        delta_theta = vector1.angle_with(vector2)
+        theta = vector1.orientation
+        delta_theta = vector2.angle_with(vector1)
         # if theta < 0:
         #     theta = 180 + theta
         # if delta_theta < 0:
-- 
2.43.0


From 96dbe8f2d4f4cc6416e55b81a568cfed9c720a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 031/117] fix: major and minor vectors of an ellipse

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 98d4497..cca3d29 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -502,12 +502,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def major_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle, self._radius_x)
+        return self.__vector_cls__.from_polar(self._radius_x, self._angle)
 
     @property
     def minor_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle + 90, self._radius_y)
+        return self.__vector_cls__.from_polar(self._radius_y, self._angle + 90)
 
     ##############################################
 
-- 
2.43.0


From 282cc59a2084ec21d5bcdeea1a5ce0c38def89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 032/117] fix: eccentricity of an ellipse whose second radius
 is the larger one

---
 Patro/GeometryEngine/Conic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index cca3d29..a411db3 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -516,7 +516,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # focal distance
         # c = sqrt(self._radius_x**2 - self._radius_y**2)
         # e = c / a
-        return sqrt(1 - (self._radius_y/self._radius_x)**2)
+        a = max(self._radius_x, self._radius_y)
+        b = min(self._radius_x, self._radius_y)
+        return sqrt(1 - (b/a)**2)
 
     ##############################################
 
-- 
2.43.0


From 0caea690ca365690d2cc0fd39f1d16344529bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 033/117] fix: matrix of an ellipse

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index a411db3..94f7514 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -542,9 +542,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         xc2 = xc**2
         yc2 = yc**2
 
-        A = a2*s + b2*c2
+        A = a2*s2 + b2*c2
         B = 2*(b2 - a2)*c*s
-        C = a2*c2 * b2*s2
+        C = a2*c2 + b2*s2
         D = -2*A*xc - B*yc
         E = -B*xc - 2*C*yc
         F = A*xc2 + B*xc*yc + C*yc2 - a2*b2
-- 
2.43.0


From e63fe7eb774ceaf52e84e589b0fdd4e5dcbae0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 034/117] fix: bounding box of an ellipse

---
 Patro/GeometryEngine/Conic.py | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 94f7514..d46bfe2 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from Patro.Common.Math.Functions import sign # , epsilon_float
 from .Bezier import CubicBezier2D
-from .BoundingBox import bounding_box_from_points
 from .Line import Line2D
 from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
@@ -448,8 +447,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self.angle = angle
         self.domain = domain
 
-        self._bounding_box = None
-
     ##############################################
 
     def clone(self):
@@ -466,7 +463,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
-        self._bounding_box = None
 
     ##############################################
 
@@ -578,26 +574,13 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def bounding_box(self):
 
-        if self._bounding_box is None:
-            radius_x, radius_y = self._radius_x, self._radius_y
-            if self._angle == 0:
-                bounding_box = self._center.bounding_box
-                bounding_box.x.enlarge(radius_x)
-                bounding_box.y.enlarge(radius_y)
-                self._bounding_box = bounding_box
-            else:
-                angle_x = self._angle
-                angle_y = angle_x + 90
-                Vector2D = self.__vector_cls__
-                points = [self._center + offset for offset in (
-                    Vector2D.from_polar(angle_x,  radius_x),
-                    Vector2D.from_polar(angle_x, -radius_x),
-                    Vector2D.from_polar(angle_y,  radius_y),
-                    Vector2D.from_polar(angle_y, -radius_y),
-                )]
-                self._bounding_box = bounding_box_from_points(points)
-
-        return self._bounding_box
+        # Fixme: wrong for arc
+        # Don't cache: the caller can change the box and the radii have setters
+        major, minor = self.major_vector, self.minor_vector
+        bounding_box = self._center.bounding_box
+        bounding_box.x.enlarge(math.hypot(major.x, minor.x))
+        bounding_box.y.enlarge(math.hypot(major.y, minor.y))
+        return bounding_box
 
     ##############################################
 
-- 
2.43.0


From b4cca230951c695b085fee022e39837882891e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 035/117] fix: inside test of an ellipse

---
 Patro/GeometryEngine/Conic.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index d46bfe2..1c6bb48 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -684,17 +684,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: can be transform the problem to a circle using transformation ???
 
         point_in_frame = self.point_in_ellipse_frame(point)
+        if is_inside:
+            return (point_in_frame.x/self._radius_x)**2 + (point_in_frame.y/self._radius_y)**2 <= 1
         point_in_frame_abs = self.__vector_cls__(abs(point_in_frame.x), abs(point_in_frame.y))
         distance, point_in_ellipse = self._eberly_distance(point_in_frame_abs)
 
-        if is_inside:
-            # Fixme: right ???
-            return (
-                (point_in_frame_abs - self._center).magnitude_square
-                <=
-                (point_in_ellipse - self._center).magnitude_square
-            )
-        elif return_point:
+        if return_point:
             point_in_ellipse = self.__vector_cls__(
                 sign(point_in_frame.x)*(point_in_ellipse.x),
                 sign(point_in_frame.y)*(point_in_ellipse.y),
-- 
2.43.0


From cacb01e32db88fd6e6684b6549377912c8c07a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 036/117] fix: intersection of an ellipse with a tangent line
 or a line that misses it

---
 Patro/GeometryEngine/Conic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 1c6bb48..e504323 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -718,6 +718,10 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         circle = Circle2D(self.__vector_cls__(0, 0), self._radius_x)
 
         points = circle.intersect_segment(segment_in_frame)
+        if points is None:
+            return None
+        if not isinstance(points, tuple): # tangent line
+            points = (points,)
         points = [self.__vector_cls__(point.x, point.y / y_scale) for point in points]
         points = [self.point_from_ellipse_frame(point) for point in points]
 
-- 
2.43.0


From ef4367fd2a5ee84bf74fff8f1adec4659c2623d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 037/117] fix: conversion to Bezier curves of an arc which goes
 clockwise

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e504323..64559cb 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -753,7 +753,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if self._domain is not None:
             # Fixme: is_over_closer
             start_angle = self._domain.start
-            angle_span = self._domain.span
+            angle_span = self._domain.stop - self._domain.start # signed
         else:
             start_angle = 0
             angle_span = 360
-- 
2.43.0


From 7c96a7197be1cff375d84370ba1c4c8e3736554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:03 +0000
Subject: [PATCH 038/117] fix: the clone of an arc has its own angular domain

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 Patro/GeometryEngine/Mixin.py | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 64559cb..3fbe47c 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -134,7 +134,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._domain)
+        return self.__class__(self._center, self._radius, self._clone_domain())
 
     ##############################################
 
@@ -454,7 +454,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             self._center,
             self._radius_x, self._radius_y,
             self._angle,
-            self._domain,
+            self._clone_domain(),
         )
 
     ##############################################
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index a19ff7f..4e23809 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -57,7 +57,7 @@ class AngularDomain:
 
     ##############################################
 
-    def __clone__(self):
+    def clone(self):
         return self.__class__(self._start, self._stop)
 
     ##############################################
@@ -164,6 +164,11 @@ class AngularDomainMixin:
 
     ##############################################
 
+    def _clone_domain(self):
+        return self._domain.clone() if self._domain is not None else None
+
+    ##############################################
+
     @property
     def is_closed(self):
         return self._domain is None
-- 
2.43.0


From 241801e959c83137e21b3a459de575ea004b3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 039/117] fix: tangent and normals at the ends of a quadratic
 Bezier curve

---
 Patro/GeometryEngine/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10c636f..c042e0e 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -299,13 +299,13 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
     @property
     def normal0(self):
-        return self.tangent0.normal()
+        return self.tangent0.normal
 
     ##############################################
 
     @property
-    def tangent1(self):
-        return self.tangent1.normal()
+    def normal1(self):
+        return self.tangent1.normal
 
     ##############################################
 
-- 
2.43.0


From 65de039eece2aabae5c85bdf32ef0eff2918722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 040/117] fix: inverse basis of the quadratic Bezier curve

---
 Patro/GeometryEngine/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index c042e0e..8e238ca 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -214,9 +214,9 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ))
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-1, -3,  1),
-        (-1, -1, -2),
+        (1,   1, 1),
+        (0, 1/2, 1),
+        (0,   0, 1),
     ))
 
     _logger = _module_logger.getChild('QuadraticBezier2D')
-- 
2.43.0


From 3e1de53556a20fd3287915f8b413969b43677a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 041/117] fix: fat line of a quadratic Bezier curve

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 8e238ca..9e6e0f7 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -357,7 +357,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ##############################################
 
     def fat_line(self):
-        line = Line2D.from_two_points(self._p0, self._p3)
+        line = Line2D.from_two_points(self._p0, self._p2)
         d1 = line.distance_to_line(self._p1)
         d_min = min(0, d1 / 2)
         d_max = max(0, d1 / 2)
-- 
2.43.0


From 44b1b6183aa901aa674c8b7be1d81a484bb0b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 042/117] fix: closest point of a quadratic Bezier curve

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 9e6e0f7..f98ca72 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -390,7 +390,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
             return None
         else:
-            return self.point_at_t(t)
+            return self.point_at_t(t[0])
 
     ##############################################
 
-- 
2.43.0


From fae9dc5ace9f3e5e4591f1f08a5a099d3c908d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 043/117] fix: length of a Bezier curve up to a parameter

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index f98ca72..68b639b 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -109,7 +109,7 @@ class BezierMixin2D(Primitive2DMixin):
             if length is not None:
                 return length
 
-        length = self.split_at_t(t).length
+        length = self.split_at_t(t)[0].length if t > 0 else 0
 
         if cache: # save
             self._length_cache[t] = length
-- 
2.43.0


From bdbfc87481e7e854628de049b6f719a40dd6337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:20 +0000
Subject: [PATCH 044/117] fix: basis and evaluation of the quadratic uniform
 spline

---
 Patro/GeometryEngine/Spline.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c7aff79..e9088d1 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -53,12 +53,12 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
         (1, -2,  1),
         (1,  2, -2),
         (0,  0,  1),
-    ))
+    )) / 2
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-2, -3,  1),
-        (-1, -1, -2),
+        (   1,   1, 1),
+        (-1/2, 1/2, 3/2),
+        (   0,   0, 2),
     ))
 
     #######################################
@@ -83,18 +83,14 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
     def point_at_t(self, t):
 
         # Q(t) = (
-        #          P0 *  (1-t)**3                      +
-        #          P1 * (  3*t**3 - 6*t**2       + 4 ) +
-        #          P2 * ( -3*t**3 + 3*t**2 + 3*t + 1 ) +
-        #          P3 *      t**3
-        #        ) / 6
-        #
-        #     = P0*(1-t)**3/6 + P1*(3*t**3 - 6*t**2 + 4)/6 + P2*(-3*t**3 + 3*t**2 + 3*t + 1)/6 + P3*t**3/6
-
-        return (self._p0/6 + self._p1*2/3 + self._p2/6 +
-                (-self._p0/2 + self._p2/2)*t +
-                (self._p0/2 - self._p1 + self._p2/2)*t**2 +
-                (-self._p0/6 + self._p1/2 - self._p2/2 + self._p3/6)*t**3)
+        #          P0 * (1-t)**2             +
+        #          P1 * (-2*t**2 + 2*t + 1 ) +
+        #          P2 * t**2
+        #        ) / 2
+
+        return (self._p0/2 + self._p1/2 +
+                (self._p1 - self._p0)*t +
+                (self._p0/2 - self._p1 + self._p2/2)*t**2)
 
 ####################################################################################################
 
-- 
2.43.0


From b7c87d6c44eb45525823ae08bb7043b2a1ecf8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:20 +0000
Subject: [PATCH 045/117] fix: conversion of a cubic uniform spline to a Bezier
 curve

---
 Patro/GeometryEngine/Spline.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index e9088d1..66de2c7 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -132,12 +132,6 @@ class CubicUniformSpline2D(Primitive2DMixin, Primitive4P):
     def to_bezier(self):
         basis = np.dot(self.BASIS, CubicBezier2D.INVERSE_BASIS)
         points = np.dot(self.point_array, basis).transpose()
-        if self._start:
-            # list(self.points)[:2]
-            points[:2] = self._p0, self._p1
-        elif self._stop:
-            # list(self.points)[-2:]
-            points[-2:] = self._p2, self._p3
         return CubicBezier2D(*points)
 
     ##############################################
-- 
2.43.0


From f1118820a024c2f16fc17b8a601cd9f08625f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:20 +0000
Subject: [PATCH 046/117] fix: evaluation of a B-spline at the end knot

---
 Patro/GeometryEngine/Spline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 66de2c7..7e8a402 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -260,11 +260,14 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         if not(self.start_knot <= t <= self.end_knot):
             raise ValueError('Invalid t {}'.format(t))
         if self._uniform:
-            return int(t) + self._degree # start padding
+            # the last span includes the end knot
+            return min(int(t), self.end_knot -1) + self._degree # start padding
         else:
             for i, t_span in enumerate(self._knots):
                 if t < t_span:
                     return i-1
+            # the last span includes the end knot
+            return self._knots.index(t) -1
 
     ##############################################
 
@@ -284,7 +287,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         """De Boor-Cox recursion formula"""
 
         if k == 0:
-            return 1 if self._knots[i] <= t < self._knots[i+1] else 0
+            return 1 if i == self.span(t) else 0
 
         ki = self._knots[i]
         kik = self._knots[i+k]
-- 
2.43.0


From 3604c7313414c73a76b7004d3977afdfb07fc952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:20 +0000
Subject: [PATCH 047/117] fix: naive evaluation of a B-spline

---
 Patro/GeometryEngine/Spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 7e8a402..a1e7134 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -346,7 +346,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         basis = np.array([self.basis_function(i, self._degree, t)
                           for i in range(self.number_of_points)])
         points = self.point_array
-        return self.__vector_cls__(np.dot(basis, points))
+        return self.__vector_cls__(np.dot(points, basis))
 
     ##############################################
 
-- 
2.43.0


From de69d87c13c718fa8312e057cebcc580d64eb71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 048/117] fix: conversion of a B-spline of unsupported degree
 to Bezier curves

---
 Patro/GeometryEngine/Spline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index a1e7134..6ff63ea 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -434,12 +434,11 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         if self._degree == 2:
             cls = Bezier.QuadraticBezier2D
-        elif self._degree >= 3:
+        elif self._degree == 3:
             cls = Bezier.CubicBezier2D
         else:
-            not NotImplementedError
+            raise NotImplementedError
 
-        # Fixme: degree > 3
         spline = self.to_bezier_form()
 
         bezier_curves = []
-- 
2.43.0


From 2a89fbbebd491feae0b9be5543f03372b58579d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 049/117] fix: the clone and the reverse of a B-spline keep its
 degree and knots

---
 Patro/GeometryEngine/Spline.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 6ff63ea..de1ce63 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -202,6 +202,23 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def clone(self):
+        return self._clone(self._points)
+
+    def reverse(self):
+        return self._clone(self._points[::-1], reverse=True)
+
+    def _clone(self, points, reverse=False):
+        if self._uniform:
+            knots = None
+        elif reverse:
+            knots = [self._knots[0] + self._knots[-1] - knot for knot in reversed(self._knots)]
+        else:
+            knots = self._knots
+        return self.__class__(points, self._degree, self._closed, knots)
+
+    ##############################################
+
     @property
     def degree(self):
         return self._degree
-- 
2.43.0


From 4b7a18f318792b26574abbbe9e59e6fe5ae60d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:33 +0000
Subject: [PATCH 050/117] fix: area between a Bezier curve and its chord

---
 Patro/GeometryEngine/Bezier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 68b639b..cf45e76 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -842,10 +842,11 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
         # Reference: http://objectmix.com/graphics/133553-area-closed-bezier-curve.html BUT DEAD LINK
         # Proof using divergence theorem ???
         # Fixme: any proof !
-        x0, y0 = list(self._p0)
-        x1, y1 = list(self._p1)
-        x2, y2 = list(self._p2)
-        x3, y3 = list(self._p3)
+        # the segment closes the area if the origin is the start point
+        x0, y0 = 0, 0
+        x1, y1 = list(self._p1 - self._p0)
+        x2, y2 = list(self._p2 - self._p0)
+        x3, y3 = list(self._p3 - self._p0)
         return (3 * ((y3 - y0) * (x1 + x2) - (x3 - x0) * (y1 + y2)
                      + y1 * (x0 - x2) - x1 * (y0 - y2)
                      + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20)
-- 
2.43.0


From b9209fc20bdbb41280cf6e054bbc7893b28ddb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 051/117] fix: radius of a negative bulge

---
 Patro/FileFormat/Dxf/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 0e6a928..7e1785f 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -130,7 +130,7 @@ class PolylineVertex:
         if self._bulge == 0:
             return 0
         else:
-            return self.demi_chord/2 * (self._bulge + 1/self._bulge)
+            return self.demi_chord/2 * abs(self._bulge + 1/self._bulge)
 
     ##############################################
 
-- 
2.43.0


From 8413b06a4ef94534366b1768348239707632fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 052/117] fix: included angle of a bulge

---
 Patro/FileFormat/Dxf/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 7e1785f..f1eafb0 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -148,7 +148,7 @@ class PolylineVertex:
         if self._bulge == 0:
             return 0
         else:
-            return math.degrees(2 * math.atan(self.bulge_radius/self.demi_chord - self._bulge))
+            return math.degrees(4 * math.atan(self._bulge))
 
 ####################################################################################################
 
-- 
2.43.0


From 972e886df67025d618833d4f83ed9513747b55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 053/117] fix: centre of a negative bulge

---
 Patro/FileFormat/Dxf/Polyline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index f1eafb0..64b0b0f 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -20,7 +20,6 @@
 
 ####################################################################################################
 
-from Patro.Common.Math.Functions import sign
 from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
@@ -211,8 +210,9 @@ class Polyline:
                 direction = vertex1.segment_vector.normalise()
                 normal = direction.normal
                 # offset = vertex1.bulge_radius - vertex1.sagitta
+                # Note: the offset is signed as the bulge
                 offset = vertex1.sagitta_dual
-                center = segment_center + normal * sign(vertex1.bulge) * offset
+                center = segment_center + normal * offset
                 arc = Circle2D(center, vertex1.bulge_radius)
                 start_angle, stop_angle = [arc.angle_for_point(vertex.point) for vertex in (vertex1, vertex2)]
                 if start_angle < 0:
-- 
2.43.0


From 50e0e6ad546a34dda152a6d6935a4200f9f77fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 054/117] fix: string conversion of a DXF polyline

---
 Patro/FileFormat/Dxf/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 64b0b0f..e1a180b 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -188,7 +188,7 @@ class Polyline:
     ##############################################
 
     def __str__(self):
-        return ' '.join(['{:5.2f}'.format(vertex) for vertex in self])
+        return ' '.join([str(vertex) for vertex in self])
 
     ##############################################
 
-- 
2.43.0


From 2c8ed205d25e37781b0d56fcdeeb722e4bdf6b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 055/117] fix: cubic_root_normalised was shadowed by an
 erroneous version

---
 Patro/Common/Math/Root.py | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 8aab8ec..0c8534c 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -32,14 +32,13 @@ __all__ = [
 
 ####################################################################################################
 
-from math import acos, cos, pi, sqrt
+from math import sqrt
 
 try:
     import sympy
 except ImportError:
     sympy = None
 
-from .Functions import sign
 
 ####################################################################################################
 
@@ -131,35 +130,6 @@ def fifth_root(*args):
 
 ####################################################################################################
 
-def cubic_root_normalised(a, b, c):
-
-    # Reference: ???
-    # converted from haskell http://hackage.haskell.org/package/cubicbezier-0.6.0.5
-
-    q = (a**2 - 3*b) / 9
-    q3 = q**3
-    m2sqrtQ = -2 * sqrt(q)
-    r = (2*a**3 - 9*a*b + 27*c) / 54
-    r2 = r**2
-    d = - sign(r)*((abs(r) + sqrt(r2-q3))**1/3) # Fixme: sqrt ??
-
-    if d == 0:
-        e = 0
-    else:
-        e = q/d
-
-    if r2 < q3:
-        t = acos(r/sqrt(q3))
-        return [
-            m2sqrtQ * cos(t/3)          - a/3,
-            m2sqrtQ * cos((t + 2*pi)/3) - a/3,
-            m2sqrtQ * cos((t - 2*pi)/3) - a/3,
-        ]
-    else:
-        return [d + e - a/3]
-
-####################################################################################################
-
 def _cubic_root(a, b, c, d):
 
     # https://en.wikipedia.org/wiki/Cubic_function
-- 
2.43.0


From 5cd10815834534e9c5f7991ce27a16818759c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 056/117] fix: sequence iterators accept any iterable, the
 empty one included

---
 Patro/Common/IterTools.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/Patro/Common/IterTools.py b/Patro/Common/IterTools.py
index 0992f6b..94eeb0f 100644
--- a/Patro/Common/IterTools.py
+++ b/Patro/Common/IterTools.py
@@ -42,9 +42,9 @@ def closed_iterator(iterable):
 
     """
 
-    number_of_items = len(iterable)
-    for i in range(number_of_items +1):
-        yield iterable[i%number_of_items]
+    items = tuple(iterable)
+    yield from items
+    yield from items[:1]
 
 ####################################################################################################
 
@@ -56,10 +56,11 @@ def pairwise(iterable):
 
     """
 
-    prev = iterable[0]
-    for x in iterable[1:]:
-        yield prev, x
-        prev = x
+    iterator = iter(iterable)
+    for prev in iterator:
+        for x in iterator:
+            yield prev, x
+            prev = x
 
 ####################################################################################################
 
@@ -71,9 +72,10 @@ def closed_pairwise(iterable):
 
     """
 
-    number_of_items = len(iterable)
+    items = tuple(iterable)
+    number_of_items = len(items)
     for i in range(number_of_items):
-        yield iterable[i], iterable[(i+1)%number_of_items]
+        yield items[i], items[(i+1)%number_of_items]
 
 ####################################################################################################
 
-- 
2.43.0


From 2d5f83c950f9604694bd1c95b4ff5330da970bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 057/117] fix: path segments can be cloned

---
 Patro/GeometryEngine/Path.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1e206db..b4851a2 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -420,13 +420,11 @@ class PathSegment(OnePointMixin, LinearSegment):
     def clone(self, path):
 
         # Fixme: check
-        if obj._start_bulge:
-            radius = None
-        else:
-            radius = self._radius
+        # the radius at the closure is set when all the parts are cloned
+        radius = None if self._start_bulge else self._radius
         obj = self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
-        if obj._start_bulge:
-            self.close(self._radius)
+        if self._start_bulge:
+            obj.close(self._radius)
 
         return obj
 
@@ -724,7 +722,7 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, self._point3, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._point3, self._absolute)
 
     ##############################################
 
-- 
2.43.0


From f262ce4d1ad2244e94d4d6afa5727163338fc39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 058/117] fix: a cloned path keeps its closing mark

---
 Patro/GeometryEngine/Path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index b4851a2..7a5ec12 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -897,6 +897,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         parts = obj._parts
         for part in self._parts:
             parts.append(part.clone(obj))
+        obj._is_closed = self._is_closed
 
         return obj
 
-- 
2.43.0


From ff6960d414ba648ffdfab3238712ba536ea5c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 059/117] fix: cloned directional segments keep the radius at
 the closure

---
 Patro/GeometryEngine/Path.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 7a5ec12..01afc62 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -509,7 +509,11 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._x, self._radius)
+        radius = None if self._start_bulge else self._radius
+        obj = self.__class__(path, self._index, self._x, radius)
+        if self._start_bulge:
+            obj.close(self._radius)
+        return obj
 
     ##############################################
 
@@ -547,7 +551,11 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._y, self._radius)
+        radius = None if self._start_bulge else self._radius
+        obj = self.__class__(path, self._index, self._y, radius)
+        if self._start_bulge:
+            obj.close(self._radius)
+        return obj
 
     ##############################################
 
@@ -585,7 +593,11 @@ class DirectionalSegment(DirectionalSegmentMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._length, self._radius)
+        radius = None if self._start_bulge else self._radius
+        obj = self.__class__(path, self._index, self._length, radius)
+        if self._start_bulge:
+            obj.close(self._radius)
+        return obj
 
     ##############################################
 
-- 
2.43.0


From 6123e57d1831876d331a120742373b5479d3cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 060/117] fix: a null fillet radius means no fillet

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 01afc62..c60865d 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -310,7 +310,7 @@ class LinearSegment(PathPart):
         if value is not None:
             value = abs(float(value))
             if value == 0:
-                radius = None
+                value = None
         self._radius = value
 
     ##############################################
-- 
2.43.0


From 1fb4a27b6aeedd73dff239a86693152fcb1436b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 061/117] fix: absolute horizontal and vertical path parts keep
 the other coordinate

---
 Patro/GeometryEngine/Path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index c60865d..39e1f97 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1014,8 +1014,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def horizontal_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(length, 0), radius,
-                                  absolute=True)
+            return self.absolute_horizontal_to(length, radius)
         else:
             return self._add_part(HorizontalSegment, length, radius)
 
@@ -1023,8 +1022,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def vertical_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(0, length), radius,
-                                  absolute=True)
+            return self.absolute_vertical_to(length, radius)
         else:
             return self._add_part(VerticalSegment, length, radius)
 
-- 
2.43.0


From 55754757f0ac9d35b1277cb432c15dc6f9e1c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 062/117] fix: fillets follow the current coordinates of the
 path

---
 Patro/GeometryEngine/Path.py | 69 +++++++++++-------------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 39e1f97..01a19f6 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -236,32 +236,18 @@ class LinearSegment(PathPart):
 
         super().__init__(path, index)
 
-        self._bissector = None
-        self._direction = None
-
         self._start_bulge = False
         self._closing = bool(closing)
         self.radius = radius
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-            self._reset_cache()
-
-    ##############################################
-
-    def _reset_cache(self):
-
-        self._bulge_angle = None
-        self._bulge_center = None
-        self._start_bulge_point = None
-        self._stop_bulge_point = None
 
     ##############################################
 
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
-        self._reset_cache()
         self._start_bulge = True
 
     ##############################################
@@ -317,33 +303,28 @@ class LinearSegment(PathPart):
 
     @property
     def direction(self):
-        if self._direction is None:
-            self._direction = (self.stop_point - self.start_point).normalise()
-        return self._direction
+        # Note: depends on the previous parts of the path, thus it cannot be cached
+        return (self.stop_point - self.start_point).normalise()
 
     @property
     def bissector(self):
         if self._radius is None:
             return None
         else:
-            if self._bissector is None:
-                # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-                self._bissector = (self.direction - self.prev_part.direction).normalise()
-            return self._bissector
+            # return (self.prev_part.direction + self.direction).normalise().normal
+            return (self.direction - self.prev_part.direction).normalise()
 
     ##############################################
 
     @property
     def bulge_angle_rad(self):
-        if self._bulge_angle is None:
-            # Fixme: rad vs degree
-            angle = self.direction.angle_with(self.prev_part.direction)
-            if angle >= 0:
-                angle = 180 - angle
-            else:
-                angle = -(180 + angle)
-            self._bulge_angle = math.radians(angle)
-        return self._bulge_angle
+        # Fixme: rad vs degree
+        angle = self.direction.angle_with(self.prev_part.direction)
+        if angle >= 0:
+            angle = 180 - angle
+        else:
+            angle = -(180 + angle)
+        return math.radians(angle)
 
     @property
     def bulge_angle(self):
@@ -357,30 +338,24 @@ class LinearSegment(PathPart):
 
     @property
     def bulge_center(self):
-        if self._bulge_center is None:
-            offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
-            self._bulge_center = self.start_point + offset
-            # Note: -offset create external loop
-        return self._bulge_center
+        offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
+        return self.start_point + offset
+        # Note: -offset create external loop
 
     ##############################################
 
     @property
     def bulge_start_point(self):
-        if self._start_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.prev_part.direction * self._radius / math.tan(angle)
-            self._start_bulge_point = self.start_point - sign(angle) *offset
-            # Note: -offset create internal loop
-        return self._start_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.prev_part.direction * self._radius / math.tan(angle)
+        return self.start_point - sign(angle) *offset
+        # Note: -offset create internal loop
 
     @property
     def bulge_stop_point(self):
-        if self._stop_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
-            self._stop_bulge_point = self.start_point + sign(angle) * offset
-        return self._stop_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
+        return self.start_point + sign(angle) * offset
 
     ##############################################
 
@@ -970,8 +945,6 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         for part in self._parts:
             # print(part)
-            if isinstance(part, PathSegment):
-                part._reset_cache()
             if isinstance(part, DirectionalSegmentMixin):
                 # Since a rotation will change the direction
                 # DirectionalSegment must be casted to PathSegment
-- 
2.43.0


From c51b71b083896409e22c1a5ad8499fd607401cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 063/117] fix: the geometry of a directional segment stops at
 its fillets

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 01a19f6..18f937c 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -439,7 +439,7 @@ class DirectionalSegmentMixin(LinearSegment):
     @property
     def geometry(self):
         # Fixme: cache ???
-        return Segment2D(self.start_point, self.stop_point)
+        return Segment2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From 9e400450d9764b19ab01a962d1960754196953ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 064/117] fix: stringed Bezier parts continue the previous
 curve

---
 Patro/GeometryEngine/Path.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 18f937c..915bda5 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1064,13 +1064,31 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def _stringed_points(self, part_cls, point_name):
+        # The first control point is the reflection of the last control point of the previous curve,
+        # if any
+        prev_part = self._parts[-1] if self._parts else None
+        start_point = prev_part.stop_point if prev_part is not None else self._p0
+        if isinstance(prev_part, part_cls):
+            return start_point, start_point * 2 - getattr(prev_part, point_name)
+        else:
+            return start_point, start_point
+
+    ##############################################
+
     def stringed_quadratic_to(self, point, absolute=False):
-        return self._add_part(StringedQuadraticBezierSegment, point, absolute=absolute)
+        start_point, point1 = self._stringed_points(QuadraticBezierSegment, 'point1')
+        if not absolute:
+            point1 = point1 - start_point
+        return self.quadratic_to(point1, point, absolute=absolute)
 
     ##############################################
 
     def stringed_cubic_to(self, point1, point2, absolute=False):
-        return self._add_part(StringedCubicBezierSegment, point1, point2, absolute=absolute)
+        start_point, point0 = self._stringed_points(CubicBezierSegment, 'point2')
+        if not absolute:
+            point0 = point0 - start_point
+        return self.cubic_to(point0, point1, point2, absolute=absolute)
 
     ##############################################
 
-- 
2.43.0


From e44745098fd091a30220a206913e769bc0dba030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 065/117] fix: arc parts of a path are transformed

---
 Patro/GeometryEngine/Path.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 915bda5..b736790 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -836,6 +836,32 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    def apply_transformation(self, transformation):
+
+        OnePointMixin.apply_transformation(self, transformation)
+
+        # image of the semi-axes: M M^T defines the transformed ellipse
+        origin = transformation * Vector2D(0, 0)
+        u = (transformation * Vector2D.from_polar(1, self._angle) - origin) * self._radius_x
+        v = (transformation * Vector2D.from_polar(1, self._angle + 90) - origin) * self._radius_y
+        a = u.x**2 + v.x**2
+        b = u.x * u.y + v.x * v.y
+        c = u.y**2 + v.y**2
+        determinant = u.cross(v)
+        if b == 0:
+            self._radius_x = math.sqrt(a)
+            self._radius_y = math.sqrt(c)
+            self._angle = 0
+        else:
+            delta = math.sqrt((a - c)**2 + 4*b**2)
+            self._radius_x = math.sqrt((a + c + delta) / 2)
+            self._radius_y = abs(determinant) / self._radius_x
+            self._angle = math.degrees(math.atan2(2*b, a - c + delta))
+        if determinant < 0:
+            self._sweep = not self._sweep
+
+    ##############################################
+
     @property
     def points(self):
         return self.start_point, self.stop_point
-- 
2.43.0


From 9bc3e95db790868b861e963c7130de4d49c5022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 066/117] fix: the path of a polyline has absolute coordinates

---
 Patro/GeometryEngine/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index fa32e72..20f58b1 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -88,6 +88,6 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
         path = Path2D(self.start_point)
         for point in self.iter_from_second_point():
-            path.line_to(point)
+            path.line_to(point, absolute=True)
 
         return path
-- 
2.43.0


From c450ae66f1f1f9a5e7b14472cba5114ff2e5f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 067/117] fix: a transformed single point primitive keeps a
 point

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index a18c75d..dc92290 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -428,7 +428,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
     ##############################################
 
     def _set_points(self, points):
-        self._p0 = points
+        self._p0, = points
 
 ####################################################################################################
 
-- 
2.43.0


From d42757c38c24c6977cc420d23aa0d25d007fd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 068/117] fix: a regular polygon can be cloned and keeps its
 centre and radius when it is transformed

---
 Patro/GeometryEngine/Polygon.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 71aeb78..c0a7397 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -631,6 +631,23 @@ class RegularPolygon(Polygon2D):
 
     ##############################################
 
+    def clone(self):
+        obj = self.__class__(self._center, self._radius, self._number_of_edges, self._angle)
+        # the orientation is inverted by a reflection
+        PrimitiveNP._set_points(obj, [self.__vector_cls__(point) for point in self._points])
+        return obj
+
+    ##############################################
+
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._center = self.point_barycenter
+        vector = self._points[0] - self._center
+        self._radius = vector.magnitude
+        self._angle = vector.orientation
+
+    ##############################################
+
     @property
     def center(self):
         return self._center
-- 
2.43.0


From 1999fe7a28c3b45e0e9f4a52cb9b130c187faf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 069/117] fix: ancestors of a graph node can be read

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index f0944b4..4819e5f 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -58,8 +58,8 @@ class DirectedAcyclicGraphNode:
         return self._data
 
     @property
-    def ancestor(self):
-        return self._ancestor
+    def ancestors(self):
+        return self._ancestors
 
     @property
     def descendants(self):
-- 
2.43.0


From 22bda9c92cd36fd7f75517b50248582d11e2c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 070/117] fix: graphs of any depth can be sorted

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 28 +++++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index 4819e5f..2e91716 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -162,15 +162,25 @@ class DirectedAcyclicGraph:
         temporary_marked_nodes = set()
 
         def visit(node):
-            if node in temporary_marked_nodes:
-                raise NameError('Not a DAG')
-            if node not in marked_nodes:
-                temporary_marked_nodes.add(node)
-                for descendant in node._descendants:
-                    visit(descendant)
-                marked_nodes.add(node)
-                temporary_marked_nodes.remove(node)
-                sorted_list.append(node)
+            # Note: use a stack since the depth of the graph is not limited
+            if node in marked_nodes:
+                return
+            temporary_marked_nodes.add(node)
+            stack = [(node, iter(node._descendants))]
+            while stack:
+                node, descendants = stack[-1]
+                for descendant in descendants:
+                    if descendant in temporary_marked_nodes:
+                        raise NameError('Not a DAG')
+                    if descendant not in marked_nodes:
+                        temporary_marked_nodes.add(descendant)
+                        stack.append((descendant, iter(descendant._descendants)))
+                        break
+                else:
+                    stack.pop()
+                    marked_nodes.add(node)
+                    temporary_marked_nodes.remove(node)
+                    sorted_list.append(node)
 
         while unmarked_nodes:
             node = unmarked_nodes.pop()
-- 
2.43.0


From a5faf1ea859fa409898da9170a1dbec6af356538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 071/117] fix: the value of the counter is read under the lock

---
 Patro/Common/AtomicCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 98afe7b..247e44d 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -52,7 +52,7 @@ class AtomicCounter:
         """
         with self._lock:
             self._value += value
-        return self._value
+            return self._value
 
     ##############################################
 
-- 
2.43.0


From eee635fe896117713823fbe68ebbecf6c03238b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 072/117] fix: conversions between mm, inch and point

---
 .../GraphicEngine/GraphicScene/TypographyUnit.py  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index 5219859..777bc60 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -37,14 +37,15 @@ __all__ = [
 class TypographyUnit:
 
     INCH_2_MM        = 25.4    # 1 inch = 25.4 mm
-    POINT_2_INCH     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
-    TEX_POINT_2_INCH = 72.27   # TeX pt
+    INCH_2_POINT     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
+    INCH_2_TEX_POINT = 72.27   # TeX pt
     PICA_2_POINT     = 12      # 1 pica = 12 point
 
-    POINT_2_MM    = INCH_2_MM / POINT_2_INCH
+    POINT_2_MM    = INCH_2_MM / INCH_2_POINT
 
-    MM_2_INCH     = 1 / INCH_2_MM
-    INCH_2_POINT  = 1 / POINT_2_INCH
+    MM_2_INCH        = 1 / INCH_2_MM
+    POINT_2_INCH     = 1 / INCH_2_POINT
+    TEX_POINT_2_INCH = 1 / INCH_2_TEX_POINT
     MM_2_POINT    = 1 / POINT_2_MM
 
     ##############################################
@@ -55,7 +56,7 @@ class TypographyUnit:
     ##############################################
 
     def __float__(self) -> float:
-        return self._value
+        return float(self._value)
 
 ####################################################################################################
 
@@ -65,7 +66,7 @@ class MmUnit(TypographyUnit):
         return self
 
     def to_inch(self) -> 'InchUnit':
-        return InchUnit(self._value * self.MM_2_POINT)
+        return InchUnit(self._value * self.MM_2_INCH)
 
     def to_point(self) -> 'PointUnit':
         return PointUnit(self._value * self.MM_2_POINT)
-- 
2.43.0


From 2da31a0e2c71808c7834e5b8b8562b11dbf88060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 073/117] fix: yarn count conversions are mutually inverse

---
 Patro/TextileTechnology/Yarn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index b77e202..2e32f37 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -30,13 +30,13 @@ def tex2den(x):
     return x*9
 
 def den2tex(x):
-    return x*10/9
+    return x/9
 
 def tex2nm(x):
     return 1000/x
 
 def nm2tex(x):
-    return 1000*x
+    return 1000/x
 
 ####################################################################################################
 
@@ -66,7 +66,7 @@ class Yarn:
         self._fiber = str(fiber) # composition ?
         self._color = color # Fixme: multicolor ? data type ?
         self._tex = float(tex) # g/km
-        self._twist_type = TwistType(twist_type)
+        self._twist_type = TwistType(twist_type) if twist_type is not None else None
 
     ##############################################
 
-- 
2.43.0


From 894075e32f538d7b7711e6383d23ce9eef48cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 074/117] fix: a colour built from a colour keeps its
 components

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 3f95601..68561d1 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -63,7 +63,7 @@ class Color:
         number_of_args = len(args)
         if number_of_args == 1:
             color = args[0]
-            if isinstance(str, Color):
+            if isinstance(color, Color):
                 self._red = color.red_float
                 self._green = color.green_float
                 self._blue = color.blue_float
-- 
2.43.0


From 3d5e467db1ab9a16bd8b4e9fb6567fa45196e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 075/117] fix: colour levels survive the conversion to float

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 68561d1..e74678d 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -116,7 +116,7 @@ class Color:
 
     @staticmethod
     def _to_int(x: float) -> int:
-        return int(x*255)
+        return round(x*255)
 
     @staticmethod
     def _to_float(x: int) -> float:
-- 
2.43.0


From a714c52a35864fa0b38afd5db247fc5bd1f07778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 076/117] fix: integer hue, light and saturation are unit
 components

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index e74678d..6e50c7e 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -89,7 +89,7 @@ class Color:
                 red, green, blue = colorsys.hsv_to_rgb(hue, saturation, value)
             else:
                 raise ValueError('Missing color parameter')
-            self._red, self._green, self._blue = [self._check_value(x) for x in (red, green, blue)]
+            self._red, self._green, self._blue = [self._check_value(float(x)) for x in (red, green, blue)]
 
         # self._name = kwargs.get('name', None)
         if 'name' in kwargs:
-- 
2.43.0


From 6f79076530f563219acda1231421686b1e831042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 077/117] fix: measurements are evaluated to floating point
 precision

---
 Patro/Measurement/Measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index c279842..52bd395 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -117,7 +117,7 @@ class Measurement:
     @property
     def value(self) -> float:
         if self._value is None:
-            self._value = float(self.evaluated_expression.evalf(3))   # ensure a float or raise
+            self._value = float(self.evaluated_expression.evalf())   # ensure a float or raise
         return self._value
 
     def __float__(self) -> float:
-- 
2.43.0


From b0e01a42cfa0faa95ea20be7b40d7b25242ed884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 078/117] fix: measurements can refer to each other in any
 order

---
 Patro/Measurement/Measurement.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 52bd395..2b23d90 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -145,6 +145,7 @@ class MeasurementSet:
         self._personal = PersonalData() if personal_data is None else personal_data
         self._measurements = {}   # name -> Measurement
         self._expressions = {}   # name -> expression  for sympy substitution
+        self._pending = set()   # measurements under evaluation
 
     ##############################################
 
@@ -207,7 +208,19 @@ class MeasurementSet:
     ##############################################
 
     def subs(self, measurement: Measurement) -> sympy.core.expr.Expr:
-        return measurement.expression.subs(self._expressions)
+        # Note: a single substitution pass depends on the order of the symbols
+        expression = measurement.expression
+        names = {symbol.name for symbol in expression.free_symbols}
+        if names:
+            if id(measurement) in self._pending:
+                raise ValueError(f'Measurement {measurement.name} refers to itself')
+            self._pending.add(id(measurement))
+            try:
+                values = {name: self._measurements[name].evaluated_expression for name in names}
+            finally:
+                self._pending.remove(id(measurement))
+            expression = expression.subs(values)
+        return expression
 
     ##############################################
 
-- 
2.43.0


From 7f17fd00838151434c026b6c99cac6e46d7ccfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 079/117] fix: measurements can be saved and loaded

---
 Patro/Measurement/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 2b23d90..c7db3d0 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -247,14 +247,14 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='uft8') as fh:
+        with open(yaml_path, 'w', encoding='utf8') as fh:
             yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
             fh.write(yaml_string)
 
     ##############################################
 
     def load_yaml(self, yaml_path: str | Path) -> None:
-        with open(yaml_path, 'r', encoding='uft8') as fh:
+        with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
             for name, data in measurements.items():
                 if len(data) > 1:
-- 
2.43.0


From de2a1595346c286de19b0dcfde1e08e3ede3088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 080/117] fix: lists of numbers accept any mix of comma and
 white space

---
 Patro/Common/Xml/Objectivity.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7b557c9..012808b 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -179,13 +179,8 @@ class FloatListAttribute(Attribute):
         elif isinstance(value, (tuple, list)): # Python value
             return value
         else:
-            if ' ' in value:
-                separator = ' '
-            elif ',' in value:
-                separator = ','
-            else:
-                return [float(value)]
-            return [float(x) for x in value.split(separator)]
+            # separators are comma and white space
+            return [float(x) for x in value.replace(',', ' ').split()]
 
     ##############################################
 
-- 
2.43.0


From 5d16b8da5fe27c2b6ae253696d9dc56f72f466e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 081/117] fix: boolean attributes can be set from Python

---
 Patro/Common/Xml/Objectivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 012808b..018bc78 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -132,7 +132,9 @@ class BoolAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if value == "true" or value == "1":
+        if isinstance(value, bool): # Python value
+            return value
+        elif value == "true" or value == "1":
             return True
         elif value == "false" or value == "0":
             return False
-- 
2.43.0


From 80c664e03573c7e50549d81eb891c0a51928fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 082/117] fix: attributes of an empty XML object are defined

---
 Patro/Common/Xml/Objectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 018bc78..d71b892 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -255,7 +255,7 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
 
         if args:
             self._init_from_xml(args[0])
-        elif kwargs:
+        else:
             self._init_from_kwargs(kwargs)
 
     ##############################################
-- 
2.43.0


From 7e9470a8537aaeacce8ae15ecdffb7140573386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 083/117] fix: the text of an XML element is read

---
 Patro/Common/Xml/Objectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index d71b892..2e65b77 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -348,15 +348,15 @@ class TextXmlObjectAdaptator(XmlObjectAdaptator):
 
     def __init__(self, *args, **kwargs):
 
-        super().__init__(*args, **kwargs)
         self.text = kwargs.get('text', '')
+        super().__init__(*args, **kwargs)
 
     ##############################################
 
     def _init_from_xml(self, xml_element):
 
         super()._init_from_xml(xml_element)
-        self.text = str(xml_element.text)
+        self.text = xml_element.text or ''
 
     ##############################################
 
-- 
2.43.0


From 152ba8dfb9bc0731ed84990c1d83018c98c72a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 084/117] fix: SVG transform lists are composed in the written
 order

---
 Patro/FileFormat/Svg/SvgFormat.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c8882bf..09c8556 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -67,6 +67,8 @@ __all__ = [
 ####################################################################################################
 
 import logging
+import math
+import re
 
 from Patro.Common.Xml.Objectivity import (
     # BoolAttribute,
@@ -444,13 +446,11 @@ class TransformAttribute(StringAttribute):
             return value
         else:
             transforms = []
-            for transform in split_space_list(value):
-                pos0 = value.find('(')
-                pos1 = value.find(')')
-                if pos0 == -1 or pos1 != len(value) -1:
-                    raise ValueError
-                transform_type = value[:pos0]
-                values = [float(x) for x in value[pos0+1:-1].split(',')]
+            # transforms and numbers are separated by white space and/or a comma
+            if not re.fullmatch(r'[\s,]*([a-zA-Z]+\s*\([^()]*\)[\s,]*)*', value):
+                raise ValueError('Invalid transform "{}"'.format(value))
+            for transform_type, values in re.findall(r'([a-zA-Z]+)\s*\(([^()]*)\)', value):
+                values = [float(x) for x in values.replace(',', ' ').split()]
                 transforms.append((transform_type, values))
                 # Fixme:
 
@@ -498,7 +498,8 @@ class TransformAttribute(StringAttribute):
             else:
                 raise NotImplementedError
             if concat:
-                global_transform = transform * global_transform
+                # the last transform is applied first
+                global_transform = global_transform * transform
             else:
                 py_transforms.append(transform)
 
-- 
2.43.0


From 61066ab22bae1c0758c6644aab43d858dc3ec81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 085/117] fix: SVG scale has an optional second factor

---
 Patro/FileFormat/Svg/SvgFormat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 09c8556..5bd2448 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -484,7 +484,8 @@ class TransformAttribute(StringAttribute):
                 vector = Vector2D(complete(values, 2))
                 transform = AffineTransformation2D.Translation(vector)
             elif name == 'scale':
-                transform = AffineTransformation2D.Scale(*values)
+                # y scale is equal to x scale if it is missing
+                transform = AffineTransformation2D.Scale(values[0], values[-1])
             elif name == 'rotate':
                 angle, *vector = complete(values, 3)
                 vector = Vector2D(vector)
-- 
2.43.0


From 85eed60c990955845c130b9eb7f249f23941ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 086/117] fix: SVG skew transforms

---
 Patro/FileFormat/Svg/SvgFormat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 5bd2448..d980d6e 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -491,11 +491,11 @@ class TransformAttribute(StringAttribute):
                 vector = Vector2D(vector)
                 transform = AffineTransformation2D.RotationAt(vector, angle)
             elif name == 'skewX':
-                angle = values[0]
-                raise NotImplementedError
+                slope = math.tan(math.radians(values[0]))
+                transform = AffineTransformation2D([1, slope, 0, 0, 1, 0, 0, 0, 1])
             elif name == 'skewY':
-                angle = values[0]
-                raise NotImplementedError
+                slope = math.tan(math.radians(values[0]))
+                transform = AffineTransformation2D([1, 0, 0, slope, 1, 0, 0, 0, 1])
             else:
                 raise NotImplementedError
             if concat:
-- 
2.43.0


From 66d6f9384b6dd16b536cf9c758796bc9e062d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 087/117] fix: written SVG transforms can be read back

---
 Patro/FileFormat/Svg/SvgFormat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index d980d6e..4cc02fc 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -461,9 +461,10 @@ class TransformAttribute(StringAttribute):
 
     @classmethod
     def to_xml(cls, value):
-        # Fixme: wrong if value is AffineTransformation2D !!!
         # Fixme: to func
-        return 'matrix({})'.format(' '.join([str(x) for x in value.to_list()]))
+        values = value.to_list()
+        # matrix(a b c d e f) is given by columns
+        return 'matrix({})'.format(' '.join([str(float(values[i])) for i in (0, 3, 1, 4, 2, 5)]))
 
     ##############################################
 
-- 
2.43.0


From 0f25aebe89a299857675b9241b9b1d77cebfdbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 088/117] fix: SVG smooth quadratic curves have one point

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 4cc02fc..6fe003d 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -947,7 +947,7 @@ class PathDataAttribute(StringAttribute):
         'c':6,
         's':4,
         'q':4,
-        't':3,
+        't':2,
         'a':7,
         'z':0,
         }
-- 
2.43.0


From aae6c85941cad4ccc04d1629e7f729856a4efa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 089/117] fix: SVG smooth cubic and quadratic commands are not
 swapped

---
 Patro/FileFormat/Svg/SvgFormat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 6fe003d..4bb1194 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1060,11 +1060,11 @@ class PathDataAttribute(StringAttribute):
                 elif command_lower == 'c':
                     path.cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 's':
-                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'q':
                     path.quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 't':
-                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'a':
                     radius_x, radius_y, angle, large_arc, sweep, x, y = args
                     point = Vector2D(x, y)
-- 
2.43.0


From 7207388518674ccf2b53bf5d3fc7d1824f30888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 090/117] fix: SVG path data do not require separators

---
 Patro/FileFormat/Svg/SvgFormat.py | 48 ++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 4bb1194..db146a7 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -954,6 +954,10 @@ class PathDataAttribute(StringAttribute):
 
     COMMANDS = ''.join(NUMBER_OF_ARGS.keys())
 
+    SEPARATOR = re.compile(r'[\s,]*')
+    NUMBER = re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?')
+    FLAG = re.compile(r'[01]')
+
     _logger = _module_logger.getChild('PathDataAttribute')
 
     ##############################################
@@ -963,20 +967,34 @@ class PathDataAttribute(StringAttribute):
 
         # cls._logger.info('SVG path:\n'+ svg_path)
 
-        # Replace comma separator by space
-        cleaned_svg_path = svg_path.replace(',', ' ')
-        # Add space after letter
-        data_path = ''
-        for c in cleaned_svg_path:
-            data_path += c
-            if c.isalpha:
-                data_path += ' '
-        # Convert float values
+        if isinstance(svg_path, Path2D):
+            # Python value
+            return svg_path
+
+        # Split commands and numbers, separators are optional
         parts = []
-        for part in split_space_list(cleaned_svg_path):
-            if not(len(part) == 1 and part.isalpha()):
-                part = float(part)
-            parts.append(part)
+        command = ''
+        number_of_numbers = 0 # since last command
+        position = 0
+        while True:
+            position = cls.SEPARATOR.match(svg_path, position).end()
+            if position == len(svg_path):
+                break
+            if command.lower() == 'a' and number_of_numbers % 7 in (3, 4):
+                match = cls.FLAG.match(svg_path, position)
+            else:
+                match = cls.NUMBER.match(svg_path, position)
+            if match and command:
+                parts.append(float(match.group()))
+                number_of_numbers += 1
+                position = match.end()
+            elif svg_path[position].isalpha():
+                command = svg_path[position]
+                parts.append(command)
+                number_of_numbers = 0
+                position += 1
+            else:
+                raise ValueError("Invalid path data:\n{}".format(svg_path))
 
         commands = []
         command = None # last command
@@ -994,6 +1012,10 @@ class PathDataAttribute(StringAttribute):
             # else repeated instruction
             next_i = i + number_of_args
             args = parts[i:next_i]
+            if len(args) != number_of_args or any(isinstance(x, str) for x in args):
+                raise ValueError("Missing number in path data:\n{}".format(svg_path))
+            if not number_of_args and next_i < len(parts) and not isinstance(parts[next_i], str):
+                raise ValueError("Unexpected number in path data:\n{}".format(svg_path))
             commands.append((command, args))
             i = next_i
             # for implicit line to
-- 
2.43.0


From 9b16a7f409fa247455765f43307118523cba3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 091/117] fix: SVG paths can be written

---
 Patro/FileFormat/Svg/SvgFormat.py | 32 ++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index db146a7..b39a838 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -80,7 +80,9 @@ from Patro.Common.Xml.Objectivity import (
 )
 
 # Fixme: should we mix SVG format and ... ???
-from Patro.GeometryEngine.Path import Path2D
+from Patro.GeometryEngine.Path import (
+    Path2D, QuadraticBezierSegment, CubicBezierSegment, ArcSegment,
+)
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from Patro.GeometryEngine.Vector import Vector2D
 
@@ -1033,6 +1035,9 @@ class PathDataAttribute(StringAttribute):
     @classmethod
     def to_xml(cls, value):
 
+        if isinstance(value, Path2D):
+            value = cls.from_geometry(value)
+
         path_data = ''
         for command in value:
             if path_data:
@@ -1053,6 +1058,31 @@ class PathDataAttribute(StringAttribute):
 
     ##############################################
 
+    @classmethod
+    def from_geometry(cls, path):
+
+        """Return the list of absolute commands"""
+
+        commands = [('M', tuple(path.p0))]
+        for part in path:
+            if isinstance(part, (QuadraticBezierSegment, CubicBezierSegment)):
+                letter = 'Q' if isinstance(part, QuadraticBezierSegment) else 'C'
+                args = [x for point in part.points[1:] for x in point]
+            elif isinstance(part, ArcSegment):
+                letter = 'A'
+                args = [part._radius_x, part._radius_y, part._angle, int(part._large_arc), int(part._sweep)]
+                args += part.stop_point
+            elif part.radius is not None:
+                raise NotImplementedError('path has a fillet')
+            elif path.is_closed and part is path.stop_segment:
+                letter, args = 'Z', ()
+            else:
+                letter, args = 'L', part.stop_point
+            commands.append((letter, tuple(args)))
+        return commands
+
+    ##############################################
+
     @classmethod
     def to_geometry(cls, commands):
 
-- 
2.43.0


From 160433d043ed81bbb708e8d0fa49c336890df4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 092/117] fix: SVG polygon tag

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index b39a838..8983ee7 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1176,7 +1176,7 @@ class Polygon(Polyline, XmlObjectAdaptator):
 
     """Defines any shape that consists of only straight lines"""
 
-    __tag__ = 'polyline'
+    __tag__ = 'polygon'
 
     # fill-rule="part of the FillStroke presentation attributes"
 
-- 
2.43.0


From eea738306098945d1a93816db6b20b0fa2b64d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 093/117] fix: SVG ellipses have an id and a transform

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 8983ee7..51f82c7 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -743,7 +743,7 @@ class Desc(XmlObjectAdaptator):
 
 ####################################################################################################
 
-class Ellipse(CenterMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
+class Ellipse(CenterMixin, PathMixin, SvgElementMixin, XmlObjectAdaptator):
 
     """Defines an ellipse"""
 
-- 
2.43.0


From d56664ce1ef6a185728c3adf1a9bdfa1a805e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 094/117] fix: SVG lengths keep their unit

---
 Patro/FileFormat/Svg/SvgFormat.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 51f82c7..cbaf6b3 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -267,9 +267,14 @@ class UnitValue:
 
     ##############################################
 
-    def __str__(self):
+    @property
+    def unit(self):
         return self._unit
 
+
+    def __str__(self):
+        return '{}{}'.format(self._value, self._unit)
+
 ####################################################################################################
 
 class PercentLengthAttribute(InheritAttribute):
@@ -278,22 +283,25 @@ class PercentLengthAttribute(InheritAttribute):
 
     @classmethod
     def _from_xml(cls, value):
+        if isinstance(value, (int, float, PercentValue, UnitValue)):
+            # Python value
+            return value
         # length ::= number ("em" | "ex" | "px" | "in" | "cm" | "mm" | "pt" | "pc" | "%")?
         if value.endswith('%'):
             return PercentValue(value[:-1])
         elif value[-1].isalpha():
-            return UnitValue(value[:-2], value[-2])
+            return UnitValue(value[:-2], value[-2:])
         else:
             return float(value)
 
     ##############################################
 
     @classmethod
-    def _to_xml(cls, value):
+    def to_xml(cls, value):
 
         # Fixme: ok ???
         if isinstance(value, PercentValue):
-            return '{}%'.format(float(value))
+            return '{}%'.format(float(value) * 100)
         elif isinstance(value, UnitValue):
             return '{}{}'.format(float(value), value.unit)
         else:
-- 
2.43.0


From 9df0b5b2f8983f3d797ac5bc3d6ed9fb24e7f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 095/117] fix: the state of a SVG group ends with the group

---
 Patro/FileFormat/Svg/SvgFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index bea1f95..68590f3 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -282,6 +282,7 @@ class SvgDispatcher:
         # self._logger.info('State:\n' + str(self.state))
 
         self.on_root(element)
+        self._state_stack.pop()
 
     ##############################################
 
-- 
2.43.0


From fecdc65ea0a6a469221ed1ba8a493b872be2785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 096/117] fix: SVG elements inherit the style of their group

---
 Patro/FileFormat/Svg/SvgFile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 68590f3..2ffd7a7 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -122,7 +122,8 @@ class RenderState:
                         self.transform = self.transform * value
                 elif state == 'style':
                     pass
-                else:
+                elif value is not None:
+                    # else inherit the value
                     setattr(self, state, self.to_python(value))
 
         # Merge style
-- 
2.43.0


From 5babae477ab7a24ccdb6b37a68ed9dd5f2644058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 097/117] fix: SVG style declarations

---
 Patro/FileFormat/Svg/SvgFile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 2ffd7a7..f13e7db 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -130,10 +130,12 @@ class RenderState:
         style = getattr(item, 'style', None)
         if style is not None:
             for pair in style.split(';'):
-                state, value = [x.strip() for x in pair.split(':')]
+                if not pair.strip():
+                    continue
+                state, value = [x.strip() for x in pair.split(':', 1)]
                 state = state.replace('-', '_')
                 if state == 'transform':
-                    self.transform = self.transform * value
+                    self.transform = self.transform * SvgFormat.TransformAttribute.from_xml(value)
                 else:
                     setattr(self, state, self.to_python(value))
 
-- 
2.43.0


From 6f5b5f6eba7f7c1dcde306e6c5f4d790516d3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 098/117] fix: SVG view box is given by its position and size

---
 Patro/FileFormat/Svg/SvgFile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index f13e7db..69ccca8 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -361,8 +361,8 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
     ##############################################
 
     def on_svg_root(self, svg_root):
-        x_inf, y_inf, x_sup, y_sup = svg_root.view_box
-        self._view_box = Interval2D((x_inf, x_sup), (y_inf, y_sup))
+        x_inf, y_inf, width, height = svg_root.view_box
+        self._view_box = Interval2D((x_inf, x_inf + width), (y_inf, y_inf + height))
         self._width = svg_root.width
         self._height = svg_root.height
 
-- 
2.43.0


From 1e1a1f69d1f2c2d5b995e8ffb8ecb9beda93c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 099/117] fix: SVG stroke attributes are merged in the state

---
 Patro/FileFormat/Svg/SvgFile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 69ccca8..24b9ea4 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -112,9 +112,13 @@ class RenderState:
 
     def merge(self, item):
 
+        # Note: the name of a state is the name of the XML attribute
+        values = {attribute.xml_attribute.replace('-', '_'): attribute.get_attribute(item)
+                  for attribute in item.__attributes__}
+
         for state in self.STATES:
-            if hasattr(item, state):
-                value = getattr(item, state)
+            if state in values:
+                value = values[state]
                 if state == 'transform':
                     if value is not None:
                         # Transform matrix is composed from top to item
-- 
2.43.0


From ee6be49f024dd1e4a1e8b3020778b3f9f79e9245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 100/117] fix: import of the vector class in the graphic items

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 8aa8053..afba57e 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -40,7 +40,7 @@ __all__ = [
 
 from typing import Any
 
-from Path.GeometryEngine.Vector import Vector2D
+from Patro.GeometryEngine.Vector import Vector2D
 from .GraphicStyle import GraphicPathStyle
 # from .Scene import GraphicScene
 
-- 
2.43.0


From 384c5a4226e07f26aac90e73c247c0ab685d32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 101/117] fix: tiles are laid out by column in x and by row in
 y

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 66b6d34..98caab0 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -66,7 +66,7 @@ class Tiler:
 
         for r in range(number_of_rows):
             for c in range(number_of_columns):
-                local_min_point = min_point + area_vector * Vector2D(r, c)
+                local_min_point = min_point + area_vector * Vector2D(c, r)
                 local_max_point = local_min_point + area_vector
                 interval = Interval2D((local_min_point.x, local_max_point.x), (local_min_point.y, local_max_point.y))
                 yield (interval, r, c)
-- 
2.43.0


From a2abed811e4f328b69d9bc3bddde90295d7b95ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 102/117] fix: tiling a drawing keeps the bounding box of the
 caller

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 98caab0..5f8acd2 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -42,7 +42,7 @@ class Tiler:
 
     def __init__(self, bounding_box, paper, margin=1):
         # print('Tiler', bounding_box)
-        self._bounding_box = bounding_box.enlarge(margin)
+        self._bounding_box = bounding_box.clone().enlarge(margin)
         self._paper = paper
 
     ##############################################
-- 
2.43.0


From bcda7c4620c121260627564e74f95b8ff3e9b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:25 +0000
Subject: [PATCH 103/117] fix: the graphic scene modules can be imported

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py      | 4 ++++
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 4 ++++
 Patro/GraphicEngine/GraphicScene/Scene.py            | 6 +++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c63fbdd..ab39f37 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -22,6 +22,10 @@
 
 """
 
+####################################################################################################
+
+from __future__ import annotations
+
 # Fixme: get_geometry / as argument
 #        position versus point
 
diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index afba57e..fe8dca3 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -22,6 +22,10 @@
 
 """
 
+####################################################################################################
+
+from __future__ import annotations
+
 # TODO: fix -> None type
 
 ####################################################################################################
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4e8416d..75525a9 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -24,6 +24,10 @@
 
 ####################################################################################################
 
+from __future__ import annotations
+
+####################################################################################################
+
 __all__ = [
     # sphinx
     'GraphicScene',
@@ -400,7 +404,7 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style: GraphicPathStyle, user_data)
+        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
 
         # cf. add_as_path_segments
         for segment in path:
-- 
2.43.0


From c4c753f8194f21984df7d9f36074ff5f41514a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:46 +0000
Subject: [PATCH 104/117] fix: Valentina measurements can be imported

---
 Patro/Measurement/ValentinaMeasurement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index acf406f..9d23570 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -22,7 +22,7 @@
 
 import logging
 
-from .Measurement import Measurement, Measurements
+from .Measurement import Measurement, MeasurementSet
 from .ValentinaStandardMeasurement import ValentinaStandardMeasurement
 
 ####################################################################################################
@@ -81,7 +81,7 @@ class ValentinaMeasurement(Measurement):
 
 ####################################################################################################
 
-class ValentinaMeasurements(Measurements):
+class ValentinaMeasurements(MeasurementSet):
 
     """Class to store a set of Valentina measurements"""
 
@@ -96,3 +96,4 @@ class ValentinaMeasurements(Measurements):
         measurement = super().add(*args, **kgwars)
         if measurement.is_custom():
             self._measurements[measurement.valentina_name] = measurement
+        return measurement
-- 
2.43.0


From 0d5a21c2d97d18e1fd8e55ae0bdaa671ee5a1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:29 +0000
Subject: [PATCH 105/117] fix: a transformed Bezier curve forgets its former
 lengths

---
 Patro/GeometryEngine/Bezier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index cf45e76..fe4b78c 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -98,6 +98,12 @@ class BezierMixin2D(Primitive2DMixin):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._length_cache = {}
+
+    ##############################################
+
     def length_at_t(self, t, cache=False):
 
         """Compute the length of the curve at *t*."""
-- 
2.43.0


From bfd225084681e126acfb651b2afa27eac25bf4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:59 +0000
Subject: [PATCH 106/117] fix: written Valentina stroke styles can be read back

---
 Patro/FileFormat/Valentina/VitFormat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 111c852..e47b5af 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -114,21 +114,21 @@ class StrokeStyleAttribute(Attribute):
         'none': StrokeStyle.NoPen,
     }
 
-    # Fixme: from_xml to_xml ???
     __TO_STROKE_STYLE__ = {value:name for name, value in __STROKE_STYLE__.items()}
-    __STROKE_STYLE__.update(__TO_STROKE_STYLE__)
 
     ##############################################
 
     @classmethod
     def from_xml(cls, value):
+        if isinstance(value, StrokeStyle): # Python value
+            return value
         return cls.__STROKE_STYLE__[value]
 
     ##############################################
 
-    # @classmethod
-    # def to_xml(cls, value):
-    #     return cls.__TO_STROKE_STYLE__[value]
+    @classmethod
+    def to_xml(cls, value):
+        return cls.__TO_STROKE_STYLE__[value]
 
 ####################################################################################################
 
-- 
2.43.0


From 731faf1bcafcddc3fb8d8923ccd5bc617e7729f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:37 +0000
Subject: [PATCH 107/117] fix: SVG numbers in scientific notation are not
 truncated in the state

---
 Patro/FileFormat/Svg/SvgFile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 24b9ea4..962c59a 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -67,11 +67,11 @@ class RenderState:
                 return None
             else:
                 try:
-                    float_value = float(value)
-                    if '.' in value:
-                        return float_value
-                    else:
-                        return int(float_value)
+                    return int(value)
+                except ValueError:
+                    pass
+                try:
+                    return float(value)
                 except ValueError:
                     pass
 
-- 
2.43.0


From b01da6dce9b9f0fda6833c3366e7fad3d193473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:37 +0000
Subject: [PATCH 108/117] fix: inherit is the value of the parent in the SVG
 state

---
 Patro/FileFormat/Svg/SvgFile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 962c59a..8c59e17 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -126,7 +126,7 @@ class RenderState:
                         self.transform = self.transform * value
                 elif state == 'style':
                     pass
-                elif value is not None:
+                elif value is not None and value != 'inherit':
                     # else inherit the value
                     setattr(self, state, self.to_python(value))
 
@@ -140,7 +140,7 @@ class RenderState:
                 state = state.replace('-', '_')
                 if state == 'transform':
                     self.transform = self.transform * SvgFormat.TransformAttribute.from_xml(value)
-                else:
+                elif value != 'inherit':
                     setattr(self, state, self.to_python(value))
 
         return self
-- 
2.43.0


From ba3edc377d38419a3fba63a72f2f5dfbe30ba8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:08 +0000
Subject: [PATCH 109/117] fix: comments of a SVG file are skipped

---
 Patro/FileFormat/Svg/SvgFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 8c59e17..b65e0bd 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -271,6 +271,9 @@ class SvgDispatcher:
     def on_root(self, root):
 
         for element in root:
+            if not isinstance(element.tag, str):
+                # comment or processing instruction
+                continue
             tag = self.element_tag(element)
             if tag == 'g':
                 self.on_group(element)
-- 
2.43.0


From d6ea363c5a4c08d1ebfa0ce30b9543ee28c980e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:04 +0000
Subject: [PATCH 110/117] fix: a Valentina measurement can be a number

---
 Patro/Measurement/ValentinaMeasurement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 9d23570..33f503d 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -65,7 +65,8 @@ class ValentinaMeasurement(Measurement):
         #     name = name[1:]
         #     if name in _valentina_standard_measurement:
         #         name = self.CUSTOM_PREFIX + name
-        value = self.replace_custom_prefix(value)
+        if isinstance(value, str):
+            value = self.replace_custom_prefix(value)
         super().__init__(measurements, name, value, full_name, description)
 
     ##############################################
-- 
2.43.0


From 32ccf78e867565fd89a3a8547cf84c68f61417f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:04 +0000
Subject: [PATCH 111/117] fix: expressions can refer to several custom
 measurements and lines

---
 Patro/Pattern/Calculator.py | 89 +++++++++++++------------------------
 1 file changed, 32 insertions(+), 57 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index c451853..74ce32d 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -22,6 +22,7 @@
 
 import ast
 import logging
+import re
 
 import astunparse
 # import astor
@@ -198,6 +199,19 @@ class Expression:
 
     _logger = _module_logger.getChild('Expression')
 
+    IDENTIFIER = re.compile(r'@\w+|\b[A-Za-z_]\w*')
+
+    SPECIAL_FUNCTIONS = (
+        'Angle1Spl',
+        'Angle2Spl',
+        'AngleLine',
+        'CurrentLength',
+        'C1LengthSpl',
+        'C2LengthSpl',
+        'Line',
+        'Spl',
+    )
+
     ##############################################
 
     def __init__(self, expression, calculator=None):
@@ -238,22 +252,24 @@ class Expression:
 
     ##############################################
 
-    def _find_identifier(self, prefix, start=0):
+    def _pythonise_identifier(self, match):
 
-        """Find an identifier in a Python expression"""
+        """Translate an identifier of an expression to Python"""
 
-        expression = self._expression
-        start = expression.find(prefix, start)
-        if start is -1:
-            return None, None
-        index = start + 1
-        while index < len(expression):
-            c = expression[index]
-            if 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '0' <= c <= '9' or c in '_':
-                index += 1
-            else:
-                break
-        return expression[start:index], index + 1
+        identifier = match.group()
+
+        # Python don't accept identifier starting with @
+        # Replace @foo by __custom__foo
+        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
+        if identifier.startswith('@'):
+            return self._calculator.measurements[identifier].name
+
+        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
+        function, *args = identifier.split('_')
+        if function in self.SPECIAL_FUNCTIONS and bool(args) != (function == 'CurrentLength'):
+            return '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
+
+        return identifier
 
     ##############################################
 
@@ -262,49 +278,8 @@ class Expression:
         expression = self._expression
         self._logger.debug("expression '{}'".format(expression))
 
-        # Python don't accept identifier starting with @
-        # Replace @foo by __custom__foo
-        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
-        if '@' in expression:
-            custom_measurements = []
-            start = 0
-            while True:
-                name, start = self._find_identifier('@', start)
-                if name is None:
-                    break
-                else:
-                    custom_measurements.append(name)
-            for measurement in custom_measurements:
-                py_name = self._calculator.measurements[measurement].name
-                expression = self.expression.replace(measurement, py_name)
-
-        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
-        functions = []
-        for function in (
-                'Angle1Spl_',
-                'Angle2Spl_',
-                'AngleLine_',
-                'CurrentLength',
-                'C1LengthSpl_',
-                'C2LengthSpl_',
-                'Line_',
-                'Spl_',
-        ):
-            start = 0
-            while True:
-                name, start = self._find_identifier(function, start)
-                if name is None:
-                    break
-                else:
-                    functions.append(name)
-        # self._logger.debug('Functions ' + str(functions))
-        for function_call in functions:
-            parts = function_call.split('_')
-            function = parts[0]
-            args = parts[1:]
-            pythonised_function = '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
-            # self._logger.debug('Function {} {} -> {}'.format(function, args, pythonised_function))
-            expression = expression.replace(function_call, pythonised_function)
+        # Note: an identifier can be a part of another one
+        expression = self.IDENTIFIER.sub(self._pythonise_identifier, expression)
 
         self._logger.debug("Pythonised expression '{}'".format(expression))
 
-- 
2.43.0


From 0cc50578db0c5ac0f02223e5b5b38c4cf06fff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:04 +0000
Subject: [PATCH 112/117] fix: an expression depends on all the points it
 refers to

---
 Patro/Pattern/Calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 74ce32d..1cab4a6 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -69,7 +69,7 @@ class NodeVisitor(ast.NodeVisitor):
         function = node.func
         if isinstance(function, ast.Attribute) and function.value.id == '__calculator__':
             dag = self._calculator.dag
-            if function.attr == '_function_Line': # catched _function_Line.__calculator__
+            if function.attr.startswith('_function_'): # catched _function_Line.__calculator__
                 for arg in node.args:
                     dependence = self._calculator._name_to_point(arg.s)
                     self._dependencies.append(dependence)
-- 
2.43.0


From b6c52682d08ac4bb156cf89af27c5e092b17d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 113/117] fix: a point of contact can be on a tangent line

---
 Patro/Pattern/SketchOperation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a13e051..b5c5165 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -639,6 +639,8 @@ class PointOfContact(Point, FirstSecondPointMixin, CenterRadiusMixin):
         segment = Segment2D(self._first_point.vector, self._second_point.vector)
         circle = Circle2D(self._center.vector, self._radius.value)
         points = circle.intersect_segment(segment)
+        if isinstance(points, Vector2D): # tangent line
+            points = (points,)
          # Fixme: multi-points ???
         if not points:
             self._logger.warning('line-circle intersection is null')
-- 
2.43.0


From 0f4e997f5dcdbe6c12079cfceeaa27ff869096ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:40 +0000
Subject: [PATCH 114/117] fix: a Valentina point can have no line style

---
 Patro/FileFormat/Valentina/VitFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index e47b5af..bf3c896 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -120,7 +120,7 @@ class StrokeStyleAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if isinstance(value, StrokeStyle): # Python value
+        if value is None or isinstance(value, StrokeStyle): # Python value
             return value
         return cls.__STROKE_STYLE__[value]
 
-- 
2.43.0


From c9844e8867d864ed02c95a586ef1404f8afe26ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:07 +0000
Subject: [PATCH 115/117] fix: the orientation of an ellipse and the domain of
 an arc follow the transformation

---
 Patro/GeometryEngine/Conic.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 3fbe47c..8d95b0c 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -48,6 +48,7 @@ from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
 from .Segment import Segment2D
 from .Transformation import Transformation2D
+from .Vector import Vector2D
 
 ####################################################################################################
 
@@ -60,6 +61,15 @@ class PointNotOnCircleError(ValueError):
 
 ####################################################################################################
 
+def _angular_part(transformation):
+    """Return the orientation of the image of the x axis and True if the rotation sense is kept."""
+    origin, x, y = [transformation * Vector2D(x, y) for x, y in ((0, 0), (1, 0), (0, 1))]
+    x -= origin
+    y -= origin
+    return x.orientation, x.cross(y) >= 0
+
+####################################################################################################
+
 class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     """Class to implements 2D Circle."""
@@ -143,6 +153,14 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: shear -> ellipse
         if self._radius is not None:
             self._radius = transformation * self._radius
+        if self._domain is not None:
+            angle, is_direct = _angular_part(transformation)
+            start, stop = self._domain.start, self._domain.stop
+            if is_direct:
+                self._domain = AngularDomain(angle + start, angle + stop)
+            else:
+                # same points, a reflection reverses the rotation sense
+                self._domain = AngularDomain(angle - stop, angle - start)
 
     ##############################################
 
@@ -463,6 +481,14 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
+        angle, is_direct = _angular_part(transformation)
+        if is_direct:
+            self._angle += angle
+        else:
+            # a reflection reverses the rotation sense
+            self._angle = angle - self._angle
+            if self._domain is not None:
+                self._domain = AngularDomain(-self._domain.stop, -self._domain.start)
 
     ##############################################
 
-- 
2.43.0


From bd03859d29c578c47eb01fa8ab6fc3598a7e9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:51 +0000
Subject: [PATCH 116/117] fix: the colour of a Valentina spline is a colour

---
 Patro/FileFormat/Valentina/VitFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index bf3c896..066d2d8 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -642,7 +642,7 @@ class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
         StringAttribute('length2'),
         StringAttribute('angle1'),
         StringAttribute('angle2'),
-        StringAttribute('line_color', 'color'),
+        ColorAttribute('line_color', 'color'),
     )
     __operation__ = SketchOperation.SimpleInteractiveSpline
 
-- 
2.43.0


From 0eeb40d0d257d53ed79265c4baabe4468a840969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:51 +0000
Subject: [PATCH 117/117] fix: the pieces of a Valentina file can be drawn in
 turns

---
 Patro/FileFormat/Valentina/Pattern.py | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 1cd2fef..1c102da 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -24,6 +24,7 @@
 
 ####################################################################################################
 
+import heapq
 import logging
 from pathlib import Path
 
@@ -259,8 +260,11 @@ class ValFileReaderInternal(XmlFileMixin):
 
         self.pattern = Pattern(self.measurements, self.attribute['unit'])
 
-        for piece in self.get_xpath_elements(self.root, 'draw'):
-            self.read_piece(piece)
+        pieces = [(piece, self.pattern.add_scope(piece.attrib['name']))
+                  for piece in self.get_xpath_elements(self.root, 'draw')]
+        self.read_calculations(pieces)
+        for piece, scope in pieces:
+            self.read_piece(piece, scope)
 
     ##############################################
 
@@ -299,21 +303,25 @@ class ValFileReaderInternal(XmlFileMixin):
 
     ##############################################
 
-    def read_piece(self, piece):
+    def read_calculations(self, pieces):
 
-        piece_name = piece.attrib['name']
-        self._logger.info('Create scope "{}"'.format(piece_name))
-        scope = self.pattern.add_scope(piece_name)
-
-        sketch = scope.sketch
-        for element in self.get_xpath_element(piece, 'calculation'):
+        # Identifiers are attributed in increasing order, whereas the pieces of a pattern can be drawn in turns
+        calculations = [[(scope.sketch, element) for element in self.get_xpath_element(piece, 'calculation')]
+                        for piece, scope in pieces]
+        for sketch, element in heapq.merge(*calculations, key=lambda x: int(x[1].get('id', 0))):
             try:
                 xml_calculation = _calculation_dispatcher.from_xml(element)
                 operation = xml_calculation.to_operation(sketch)
                 self._logger.info('Add operation {}'.format(operation))
             except NotImplementedError:
                 self._logger.warning('Not implemented calculation\n' +  str(etree.tostring(element)))
-        sketch.eval()
+
+    ##############################################
+
+    def read_piece(self, piece, scope):
+
+        self._logger.info('Read piece "{}"'.format(scope.name))
+        scope.sketch.eval()
 
         modeling = Modeling()
         for element in self.get_xpath_element(piece, 'modeling'):
-- 
2.43.0

