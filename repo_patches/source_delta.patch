From 340af312d391a892f98208927d94e29684817daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 001/183] fix: define the truth value of vectors with __bool__
 (null vector has no orientation)

---
 Patro/GeometryEngine/Vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index cfea826..4ae22e4 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -146,7 +146,7 @@ class Vector2DBase(Primitive, Primitive2DMixin):
 
     ##############################################
 
-    def __nonzero__(self) -> bool:
+    def __bool__(self) -> bool:
         return bool(self._v.any())
 
     ##############################################
-- 
2.43.0


From 485fa75a717ae4efd1b4b9a749bb461c2bb2f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 002/183] fix: Transformation2D products of different types
 called a method that does not exist

---
 Patro/GeometryEngine/Transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 83e4cdb..f2ae4b5 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -278,7 +278,7 @@ class Transformation2D(Transformation):
     ##############################################
 
     def _check_type(self):
-        return self._check_matrix_type(self.to_list())
+        return self.check_matrix_type(self.to_list())
 
     ##############################################
 
-- 
2.43.0


From 9175aec4288a05a7653e7a4c75ce73670807c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 003/183] fix: the type of an affine product was None and
 ignored the translation

---
 Patro/GeometryEngine/Transformation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index f2ae4b5..462f6fe 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -370,7 +370,12 @@ class AffineTransformation2D(AffineTransformation):
 
     def _check_type(self):
         matrix_type = Transformation2D.check_matrix_type(self.matrix_part.flat)
-        # Fixme: translation etc. !!!
+        if not self.translation_part.any():
+            return matrix_type
+        elif matrix_type == TransformationType.Identity:
+            return TransformationType.Translation
+        else:
+            return TransformationType.Generic
 
     ##############################################
 
-- 
2.43.0


From e71a8da2dc8fd2507718b93bb4c6c2b249f2cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 004/183] fix: scale a scalar by the factor of any similarity
 instead of abs(m00)

---
 Patro/GeometryEngine/Transformation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 462f6fe..fad035c 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -37,6 +37,7 @@ __all__ = [
 ####################################################################################################
 
 from enum import Enum, auto
+import math
 from math import sin, cos, radians, degrees
 
 import numpy as np
@@ -190,13 +191,15 @@ class Transformation:
             array = np.matmul(self._m, np.transpose(obj.v))
             return Vector2D(array)
         elif isinstance(obj, (int, float)):
-            # Scalar can only be scaled if the frame is not sheared
-            if self._type in (TransformationType.Identity, TransformationType.Rotation):
-                return obj
-            elif self._type not in (TransformationType.Shear, TransformationType.Generic):
-                return abs(self._m[0,0]) * obj
-            else:
+            # Scalar can only be scaled if the frame is not sheared,
+            #   i.e. the images of the x and y axes are orthogonal and have the same length
+            x_scale = Vector2D(self._m[:2,0])
+            y_scale = Vector2D(self._m[:2,1])
+            factor = x_scale.magnitude
+            if not (math.isclose(factor, y_scale.magnitude) and
+                    math.isclose(x_scale.dot(y_scale), 0, abs_tol=1e-9*factor**2)):
                 raise ValueError('Transformation is sheared')
+            return factor * obj
         else:
             raise ValueError
 
-- 
2.43.0


From c772169dd60adbb8e9788ed32886b1ba3e2bc0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 005/183] fix: AffineTransformation2D.Scale accepts an uniform
 scale factor as Transformation2D.Scale

---
 Patro/GeometryEngine/Transformation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index fad035c..9b73065 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -393,10 +393,13 @@ class AffineTransformation2D(AffineTransformation):
     ##############################################
 
     @classmethod
-    def Scale(cls, x_scale, y_scale):
+    def Scale(cls, x_scale, y_scale=None):
 
         # Fixme: others, use *= ? (comment means ???)
 
+        if y_scale is None:
+            y_scale = x_scale
+
         transformation = cls.Identity()
         transformation.matrix_part[...] = Transformation2D.Scale(x_scale, y_scale).array
         transformation._type = Transformation2D.type_for_scale(x_scale, y_scale)
-- 
2.43.0


From db1ce304178a367a9ed868842947dccc2c5e9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 006/183] fix: Transformation copy constructor compared the
 matrix size with the space dimension

---
 Patro/GeometryEngine/Transformation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 9b73065..95be464 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -119,7 +119,7 @@ class Transformation:
 
     @property
     def size(self):
-        return self._size
+        return self.__size__
 
     @property
     def array(self):
@@ -146,7 +146,7 @@ class Transformation:
     ##############################################
 
     def same_dimension(self, other):
-        return self.__size__ == other.dimension
+        return self.__size__ == other.size
 
     ##############################################
 
-- 
2.43.0


From b09cb512d88a3a01b30528ffbe834cba8fa29c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 007/183] fix: reverse() of reversible primitives returned self
 unchanged

---
 Patro/GeometryEngine/Primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 0ee1117..4ee4a49 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -360,7 +360,7 @@ class ReversiblePrimitiveMixin:
 
     @property
     def is_reversible(self):
-        True
+        return True
 
     ##############################################
 
@@ -432,7 +432,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
 
 ####################################################################################################
 
-class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
+class Primitive2P(ReversiblePrimitiveMixin, Primitive1P):
 
     """Base class for 2-points primitives."""
 
@@ -597,7 +597,7 @@ class Primitive4P(Primitive3P):
 
 ####################################################################################################
 
-class PrimitiveNP(PointPrimitive, ReversiblePrimitiveMixin):
+class PrimitiveNP(ReversiblePrimitiveMixin, PointPrimitive):
 
     """Base class for N-points primitives."""
 
-- 
2.43.0


From 542ad204d2dddf6ce039b7dcb007e7bbba5e0acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 008/183] fix: iter_from_second_point called iter() with
 several arguments, to_path of a triangle failed

---
 Patro/GeometryEngine/Primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 4ee4a49..5f08115 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -536,7 +536,7 @@ class Primitive3P(Primitive2P):
 
     def iter_from_second_point(self):
         # Fixme: share code ???
-        return iter(self._p1, self._p2)
+        return iter((self._p1, self._p2))
 
     ##############################################
 
@@ -588,7 +588,7 @@ class Primitive4P(Primitive3P):
         return iter((self._p3, self._p2, self._p1, self._p0))
 
     def iter_from_second_point(self):
-        return iter(self._p1, self._p2, self._p3)
+        return iter((self._p1, self._p2, self._p3))
 
     ##############################################
 
-- 
2.43.0


From 36031179698c3920fda45f38fce277ff096da88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 009/183] fix: to_polygon passed the list of points as a single
 vertex

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 5f08115..834cef6 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -685,7 +685,7 @@ class PolygonMixin:
 
     def to_polygon(self):
         from .Polygon import Polygon2D
-        return Polygon2D(self.points)
+        return Polygon2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From d6b920a325931be58011d80504c3e14494a0dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 010/183] fix: closed_points of a closed primitive which do not
 store a list of points

---
 Patro/GeometryEngine/Primitive.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 834cef6..2149301 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -323,15 +323,13 @@ class ClosedPrimitiveMixin:
     @property
     def closed_points(self):
         # Fixme: don't work for iterator
-        # return closed_iterator(self.points)
-        return closed_iterator(self._points)
+        return closed_iterator(tuple(self.points))
 
     ##############################################
 
     @property
     def closed_pairwise_points(self):
-        # return closed_pairwise(self.points)
-        return closed_pairwise(self._points)
+        return closed_pairwise(tuple(self.points))
 
     ##############################################
 
-- 
2.43.0


From 94dea8022577b45c89402efecfc7189fcf18deac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 011/183] fix: point_array of primitives whose points are an
 iterator

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 2149301..7009638 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -212,7 +212,7 @@ class PointPrimitive(Primitive):
         # if self._point_array is None:
         #     self._point_array = np.array(list(self.points)).transpose()
         # return self._point_array
-        return np.array(self.points).transpose()
+        return np.array(tuple(self.points)).transpose()
 
     ##############################################
 
-- 
2.43.0


From 7cb4cb4e15db928360bb25f850ed42c7e4530e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 012/183] fix: Rectangle2D alternate constructors used an
 undefined name

---
 Patro/GeometryEngine/Rectangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 7f8cbe8..198bbe3 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -52,11 +52,11 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     ##############################################
 
     @classmethod
-    def from_point_and_offset(self, p0, v):
+    def from_point_and_offset(cls, p0, v):
         return cls(p0, p0+v)
 
     @classmethod
-    def from_point_and_radius(self, p0, v):
+    def from_point_and_radius(cls, p0, v):
         return cls(p0-v, p0+v)
 
     ##############################################
-- 
2.43.0


From fd59d9fb1e4ea227a6f171d05b7ec55ab39ae9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 013/183] fix: convert a rectangle to a polygon or a path using
 its four corners

---
 Patro/GeometryEngine/Rectangle.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 198bbe3..e9a29ff 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -30,6 +30,7 @@ __all__ = ['Rectangle2D']
 
 import math
 
+from Patro.Common.IterTools import closed_iterator, closed_pairwise
 from .Path import Path2D
 from .Primitive import Primitive2P, ClosedPrimitiveMixin, PathMixin, PolygonMixin, Primitive2DMixin
 from .Segment import Segment2D
@@ -92,6 +93,27 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
 
     ##############################################
 
+    @property
+    def corners(self):
+        return (self._p0, self.p01, self._p1, self.p10)
+
+    @property
+    def closed_points(self):
+        return closed_iterator(self.corners)
+
+    @property
+    def closed_pairwise_points(self):
+        return closed_pairwise(self.corners)
+
+    def iter_from_second_point(self):
+        return iter(self.corners[1:])
+
+    def to_polygon(self):
+        from .Polygon import Polygon2D
+        return Polygon2D(*self.corners)
+
+    ##############################################
+
     @property
     def diagonal(self):
         return self._p1 - self._p0
-- 
2.43.0


From c9e1bb0304c3f9fe487c44e3517a62cf0c9adf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 014/183] fix: Polyline length summed an undefined attribute of
 segments

---
 Patro/GeometryEngine/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d7f110..2e480c3 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -63,7 +63,7 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     @property
     def length(self):
-        return sum([edge.magnitude for edge in self.edges])
+        return sum([edge.length for edge in self.edges])
 
     ##############################################
 
-- 
2.43.0


From 3a16d52fd25de7c12c4599088bfc135714cf9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 015/183] fix: Polyline to_path passed vertexes as relative
 displacements

---
 Patro/GeometryEngine/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2e480c3..2549bc8 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -82,6 +82,6 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
         path = Path2D(self.start_point)
         for point in self.iter_from_second_point():
-            path.line_to(point)
+            path.line_to(point, absolute=True)
 
         return path
-- 
2.43.0


From 24d304e24457211287d6f204d2009a097e8b963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 016/183] fix: reset cached edges and area of polylines and
 polygons when their points change

---
 Patro/GeometryEngine/Polygon.py  | 21 ++++++++++++++++++---
 Patro/GeometryEngine/Polyline.py |  6 ++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5bcdfab..6dca77f 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -97,14 +97,23 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
         PrimitiveNP.__init__(self, points)
 
+        self._reset_cache()
+        self._is_convex = is_convex
+        self._is_clockwise = is_clockwise
+
+    ##############################################
+
+    def _reset_cache(self):
+
         self._edges = None
         self._is_simple = None
-        self._is_convex = is_convex
+        self._is_convex = None
 
         self._area = None
-        self._is_clockwise = is_clockwise
+        self._area_sign = None
+        self._is_clockwise = None
         # self._cross = None
-        # self._barycenter = None
+        self._barycenter = None
 
         # self._major_axis_angle = None
         self._major_axis = None
@@ -113,6 +122,12 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._reset_cache()
+
+    ##############################################
+
     @property
     def is_triangle(self):
         return self.number_of_points == 3
diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2549bc8..20f58b1 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -50,6 +50,12 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._edges = None
+
+    ##############################################
+
     @property
     def edges(self):
 
-- 
2.43.0


From fe1b66d65ffaf42989a75e0bf3181f64a6b5058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 017/183] fix: recenter a polygon whose barycenter was not yet
 computed, and reset its cache

---
 Patro/GeometryEngine/Polygon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 6dca77f..7ba3354 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -421,9 +421,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         """Recenter the polygon to the barycenter."""
         # if self._centred:
         #     return
-        barycenter = self._barycenter
-        for point in self._points:
-            point -= barycenter
+        barycenter = self.barycenter
+        self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
     ##############################################
-- 
2.43.0


From 2923cab1efe7adb42eccf0e305bce45ea56b4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 018/183] fix: point in polygon tests called undefined methods
 and excluded clockwise polygons

---
 Patro/GeometryEngine/Polygon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 7ba3354..84fa6ec 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -469,7 +469,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if ((edge.p0.y <= y < edge.p1.y) or # upward crossing
                 (edge.p1.y <= y < edge.p0.y)):  # downward crossing
-                xi = edge.p0.x + (y - edge.p0.y) / edge.vector.slope
+                xi = edge.p0.x + (y - edge.p0.y) * edge.vector.inverse_tan
                 if x < xi:
                     crossing_number += 1
 
@@ -491,14 +491,14 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if edge.p0.y <= y:
                 if edge.p1.y > y: # upward crossing
-                    if edge.is_left(point):
+                    if edge.left_of(point):
                         winding_number += 1
             else:
                 if edge.p1.y <= y: #  downward crossing
-                    if edge.is_right(point):
+                    if edge.right_of(point):
                         winding_number -= 1
 
-        return winding_number > 0
+        return winding_number != 0
 
     ##############################################
 
-- 
2.43.0


From 0e84593922136c07b2222df664fd11f01848281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 019/183] fix: orientation of a flat polygon was undefined

---
 Patro/GeometryEngine/Polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 84fa6ec..f3abd37 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -277,6 +277,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         if area == 0:
             # print('Null area')
             self._area = 0
+            self._area_sign = 0
             self._barycenter = self.start_point
         else:
             factor = 1 / (6*area)
-- 
2.43.0


From bc3c029c54ebf99b61aa4010e066f3aa2ac07eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 020/183] fix: RegularPolygon.ngon_name was undefined and
 shifted by one

---
 Patro/GeometryEngine/Polygon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index f3abd37..d4f896e 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -658,10 +658,10 @@ class RegularPolygon(Polygon2D):
 
     @classmethod
     def ngon_name(cls, number_of_edges):
-        try:
-            return self.NGON_NAMES[number_of_edges]
-        except IndexError:
-            return self.LARGE_NGON_NAMES.get(number_of_edges, None)
+        if 1 <= number_of_edges <= len(cls.NGON_NAMES):
+            return cls.NGON_NAMES[number_of_edges -1]
+        else:
+            return cls.LARGE_NGON_NAMES.get(number_of_edges, None)
 
     @property
     def str_name(self):
-- 
2.43.0


From b707d4e06ba99d0d1392af81c84d2b802db7dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 021/183] fix: Graham scan failed for several points at the
 same angle or duplicates of the first point

---
 Patro/GeometryEngine/Polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index d4f896e..653a9bc 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -711,7 +711,10 @@ def sort_point_for_graham_scan(points):
     data = []
     for point in sorted_points[1:]:
         direction = Vector2D(point - p0)
-        data.append((point, direction, direction.orientation, None))
+        if not direction:
+            # same point than p0
+            continue
+        data.append([point, direction, direction.orientation, None])
     data.sort(key=itemgetter(2))
 
     # if several points have the same angle then only keep the farther
-- 
2.43.0


From d028eab0dcb20c822f17c978ccfeaef92cd06d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 022/183] fix: is_simple was false for simple polygons due to
 the rounding errors at the common vertexes

---
 Patro/GeometryEngine/Polygon.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 653a9bc..103be8d 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -158,25 +158,20 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
     def _test_is_simple(self):
 
         edges = self.edges # must be a list !!!
-        # intersections = []
+        number_of_edges = len(edges)
         # Test for edge intersection
-        for edge1 in edges:
-            for edge2 in edges:
-                if edge1 is not edge2:
-                    # Fixme: recompute line for edge
-                    intersection, intersect = edge1.intersection(edge2)
-                    if intersect:
-                        common_vertex = edge1.share_vertex_with(edge2)
-                        if common_vertex is not None:
-                            if common_vertex == intersection:
-                                continue
-                            else:
-                                # degenerated case where a vertex lie on an edge
-                                return False
-                        else:
-                            # two edge intersect
-                            # intersections.append(intersection)
-                            return False
+        for i in range(number_of_edges):
+            edge1 = edges[i]
+            for j in range(i+1, number_of_edges):
+                edge2 = edges[j]
+                # Two consecutive edges only intersect at their common vertex, excepted if they overlap.
+                # Note: intersection computed at the common vertex is subject to rounding errors
+                if j == i+1 or (i == 0 and j == number_of_edges -1):
+                    vector1, vector2 = edge1.vector, edge2.vector
+                    if vector1.cross(vector2) == 0 and vector1.dot(vector2) < 0:
+                        return False
+                elif edge1.intersect_with(edge2):
+                    return False
         return True
 
     ##############################################
-- 
2.43.0


From d6bea7b014f088314f6f5b9ce3e91f487d7a44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 023/183] fix: convexity test of clockwise polygons having
 collinear edges

---
 Patro/GeometryEngine/Polygon.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 103be8d..e07654d 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -188,10 +188,15 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         number_of_edges = len(edges)
         # a polygon is convex if all turns from one edge vector to the next have the same sense
         # sign = edges[-1].perp_dot(edges[0])
-        sign0 = sign(edges[-1].cross(edges[0]))
+        sign0 = None
         for i in range(number_of_edges):
             next_i = (i+1) % number_of_edges
-            if sign(edges[i].cross(edges[next_i])) != sign0:
+            cross = edges[i].cross(edges[next_i])
+            if cross == 0: # collinear edges
+                continue
+            if sign0 is None:
+                sign0 = sign(cross)
+            elif sign(cross) != sign0:
                 return False
         return True
 
-- 
2.43.0


From af59f0af337bfde45fdde510f5ad97dc52fcc153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 024/183] fix: Triangle perimeter and side classification
 raised on the cache test

---
 Patro/GeometryEngine/Triangle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f27acdf..d2c9ea7 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -151,10 +151,10 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_length(self):
 
-        if not hasattr(self._p10):
-            self._p10 = (self._p1 - self._p0).magnitude
-            self._p21 = (self._p2 - self._p1).magnitude
-            self._p02 = (self._p0 - self._p2).magnitude
+        # Note: points can be modified
+        self._p10 = (self._p1 - self._p0).magnitude
+        self._p21 = (self._p2 - self._p1).magnitude
+        self._p02 = (self._p0 - self._p2).magnitude
 
     ##############################################
 
-- 
2.43.0


From 95a572541efbd77a3c3a68bfaaf27a2038f35e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 025/183] fix: classify triangles by their interior angles

---
 Patro/GeometryEngine/Triangle.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index d2c9ea7..3d5cfef 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -158,12 +158,19 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     ##############################################
 
-    def _cache_angle(self):
+    def _max_angle_cosine(self):
 
-        if not hasattr(self._a10):
-            self._a10 = (self._p1 - self._p0).orientation
-            self._a21 = (self._p2 - self._p1).orientation
-            self._a02 = (self._p0 - self._p2).orientation
+        """Return the cosine of the largest angle, or zero if it is a right angle."""
+
+        v10 = self._p1 - self._p0
+        v21 = self._p2 - self._p1
+        v02 = self._p0 - self._p2
+        cosine = min(
+            v10.cos_with(-v02),
+            v21.cos_with(-v10),
+            v02.cos_with(-v21),
+        )
+        return 0 if math.isclose(cosine, 0, abs_tol=1e-9) else cosine
 
     ##############################################
 
@@ -223,31 +230,29 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     @property
     def is_right(self):
-        self._cache_angle()
         # one angle = 90
-        raise NotImplementedError
+        return self._max_angle_cosine() == 0
 
     ##############################################
 
     @property
     def is_obtuse(self):
-        self._cache_angle()
         # one angle > 90
-        return max(self._a10, self._a21, self._a02) > 90
+        return self._max_angle_cosine() < 0
 
     ##############################################
 
     @property
     def is_acute(self):
-        self._cache_angle()
         # all angle < 90
-        return max(self._a10, self._a21, self._a02) < 90
+        return self._max_angle_cosine() > 0
 
     ##############################################
 
     @property
     def is_oblique(self):
-        return not self.is_equilateral
+        # no right angle
+        return not self.is_right
 
     ##############################################
 
-- 
2.43.0


From f987a810f73f0f0539e51dfac530de80961e835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 026/183] fix: compare the edge lengths of a triangle up to
 rounding errors

---
 Patro/GeometryEngine/Triangle.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index 3d5cfef..f6ec763 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -204,8 +204,9 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
         self._cache_length()
         # all sides have the same length and angle = 60
-        return (self._p10 == self._p21 and
-                self._p21 == self._p02)
+        # Note: edge lengths are subject to rounding errors
+        return (math.isclose(self._p10, self._p21) and
+                math.isclose(self._p21, self._p02))
 
     ##############################################
 
@@ -214,9 +215,9 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
         self._cache_length()
         # all sides have different lengths
-        return (self._p10 != self._p21 and
-                self._p21 != self._p02 and
-                self._p02 != self._p10)
+        return not(math.isclose(self._p10, self._p21) or
+                   math.isclose(self._p21, self._p02) or
+                   math.isclose(self._p02, self._p10))
 
     ##############################################
 
-- 
2.43.0


From 0414280ee40cf70bb6e2c57d6872a4dee739795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 027/183] fix: Line distance between abscissae called a
 property

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index c499003..480b6d7 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -101,7 +101,7 @@ class Line2D(Primitive2DMixin, Primitive):
 
     def compute_distance_between_abscissae(self, s0: float, s1: float) -> float:
         """Compute distance between two abscissae"""
-        return abs(s1 - s0) * self.v.magnitude()
+        return abs(s1 - s0) * self.v.magnitude
 
     ##############################################
 
-- 
2.43.0


From 30d08d6765d634bb8d1240b5e50fdea2fa20c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 028/183] fix: projected point of a line whose vector is not
 normalised

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 480b6d7..a2b4698 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -210,7 +210,7 @@ class Line2D(Primitive2DMixin, Primitive):
         return s
 
     def projected_point(self, point: Vector2D) -> Vector2D:
-        return self.interpolate(self.projected_abscissa(point))
+        return self.point_at_distance(self.projected_abscissa(point), self.p)
 
     def triangle_projected_point(self, point: Vector2D, distance: float, reverse: bool=False) -> Vector2D:
         p = self.projected_point(point)
-- 
2.43.0


From 8f75c2bc2d5a25a6c235aaa39f32aa5f83521ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 029/183] fix: Line.point_at_distance failed for the default
 point

---
 Patro/GeometryEngine/Line.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index a2b4698..74e2d1d 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -95,6 +95,8 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def point_at_distance(self, distance: float, point: Vector2D=None) -> Vector2D:
+        if point is None:
+            point = self.p
         return point + self.vn * distance
 
     ##############################################
-- 
2.43.0


From 137c4567b8b61f41cacf654de58d5e2776a9ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 030/183] fix: clone of a line shared its point and vector

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 74e2d1d..c26cf75 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -60,7 +60,7 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def clone(self) -> 'Line2D':
-        return self.__class__(self.p, self.v)
+        return self.__class__(self.p.clone(), self.v.clone())
 
     ##############################################
 
-- 
2.43.0


From 7273a1412ad7238be36ccf0c52657530bb2b6bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 031/183] fix: Line.get_x_y_from_bounding_box called properties
 and failed for vertical lines

---
 Patro/GeometryEngine/Line.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index c26cf75..4166008 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -265,9 +265,10 @@ class Line2D(Primitive2DMixin, Primitive):
         """Return the bounding box build on the intersection of the input bounding box with the line
 
         """
-        left, bottom, right, top = interval.bounding_box()
-        vb = Vector2D(interval.size())
-        if abs(self.v.tan) > vb.tan:
+        left, bottom, right, top = interval.bounding_box
+        width, height = interval.size
+        # Compare slopes, line can be vertical
+        if abs(self.v.y) * width > height * abs(self.v.x):
             x_min, y_min = self.get_x_from_y(bottom), bottom
             x_max, y_max = self.get_x_from_y(top), top
         else:
-- 
2.43.0


From 2d121e9287f0c0ce63b3bc4d92618d0c1adc1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 032/183] fix: Segment.contain_point compared a distance to 1
 and ignored the deviation from the segment

---
 Patro/GeometryEngine/Segment.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index cd2c455..f2ef04a 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -28,6 +28,8 @@ __all__ = ['Segment2D']
 
 ####################################################################################################
 
+import math
+
 # from .Interpolation import interpolate_two_points
 from .Line import Line2D
 from .Primitive import Primitive2P, Primitive2DMixin
@@ -210,11 +212,6 @@ class Segment2D(Primitive2DMixin, Primitive2P):
 
     def contain_point(self, point):
 
-        # Fixme: purpose ???
+        """Test if the point lies on the segment up to rounding errors."""
 
-        line = self.to_line()
-        d, s = line.distance_and_abscissa_to_line(point)
-        # Fixme: check d / is collinear
-        # Fixme: p2 <- p1
-        #! print('>'*10, line, point, d, s)
-        return 0 <= s <= 1
+        return math.isclose(self.distance_to_point(point), 0, abs_tol=1e-6)
-- 
2.43.0


From 3b3f4936c0ed31802711669c46fe06054c6c68c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 033/183] fix: graphic scene modules could not be imported

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 8 +++++++-
 Patro/GraphicEngine/GraphicScene/Scene.py            | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 8aa8053..a75893a 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -26,6 +26,11 @@
 
 ####################################################################################################
 
+# GraphicScene is not imported (circular import)
+from __future__ import annotations
+
+####################################################################################################
+
 __all__ = [
     'FourPositionMixin',
     'GraphicItem',
@@ -33,6 +38,7 @@ __all__ = [
     'PathStyleItemMixin',
     'PositionMixin',
     'StartStopAngleMixin',
+    'ThreePositionMixin',
     'TwoPositionMixin',
 ]
 
@@ -40,7 +46,7 @@ __all__ = [
 
 from typing import Any
 
-from Path.GeometryEngine.Vector import Vector2D
+from Patro.GeometryEngine.Vector import Vector2D
 from .GraphicStyle import GraphicPathStyle
 # from .Scene import GraphicScene
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4e8416d..4426f29 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -400,7 +400,7 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style: GraphicPathStyle, user_data)
+        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
 
         # cf. add_as_path_segments
         for segment in path:
-- 
2.43.0


From dc59539a5277e1c3bc87a2959c346aa9afae7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 034/183] fix: a dirty graphic item must recompute its geometry
 and bounding box

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index a75893a..aa8d2d4 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -140,10 +140,8 @@ class GraphicItem:
 
     @dirty.setter
     def dirty(self, value: bool) -> None:
-        if bool(value):
-            self._dirty = True
-        else:
-            self._dirty = True
+        self._dirty = bool(value)
+        if self._dirty:
             self._geometry = None
             self._bounding_box = None
 
-- 
2.43.0


From 3dd7054eed9bddb6cd7e4f79bafb822cf76e76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 035/183] fix: positions of a graphic item defined by only one
 position is a tuple as for other items

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 4 ++--
 Patro/GraphicEngine/Painter/QtPainter.py             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index aa8d2d4..db2b645 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -216,8 +216,8 @@ class PositionMixin:
     #     self._position = value
 
     @property
-    def positions(self) -> str | Vector2D:
-        return self._position
+    def positions(self) -> tuple[str | Vector2D]:
+        return (self._position,)
 
     @property
     def casted_position(self) -> Vector2D:
diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 48d5e61..989c75f 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -447,7 +447,7 @@ class QtPainter(Painter):
                     method = path.cubicTo
                 else:
                     raise NotImplementedError
-                positions = self.cast_position(segment.positions)
+                positions = [self.cast_position(position) for position in segment.positions]
                 method(*positions)
 
         # if item.it_closed:
-- 
2.43.0


From 0710d63f283814802c0dde02b5e77f42c4f53bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 036/183] fix: elliptical arcs added to a scene became full
 ellipses

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 3 ++-
 Patro/GraphicEngine/GraphicScene/Scene.py       | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c63fbdd..1c61c34 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -200,7 +200,8 @@ class EllipseItem(PositionMixin, StartStopAngleMixin, PathStyleItemMixin):
 
     def get_geometry(self) -> Ellipse2D:
         position = self.casted_position
-        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle)
+        domain = None if self.is_closed else AngularDomain(self._start_angle, self._stop_angle)
+        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle, domain=domain)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4426f29..9908464 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -308,6 +308,9 @@ class GraphicSceneScope:
         elif isinstance(item, Conic.Ellipse2D):
             ctor = self.ellipse
             args = [item.radius_x, item.radius_y, item.angle]
+            if item.domain:
+                kwargs['start_angle'] = item.domain.start
+                kwargs['stop_angle'] = item.domain.stop
 
         # Line
         elif isinstance(item, Line.Line2D):
-- 
2.43.0


From 8744c8b16d8d44a061241f8c5da16ed6b568d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 037/183] fix: bezier_path of segments passed an incomplete set
 of points for the last segment

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 9908464..d33312c 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -542,7 +542,7 @@ class GraphicSceneScope:
             raise ValueError(f'Wrong number of points for Bezier {degree} curve: {number_of_points}')
 
         items = []
-        for i in range(number_of_points // degree):
+        for i in range(n // degree):
             j = degree * i
             k = j + degree
             item = method(*points[j:k+1], *args, **kwargs)
-- 
2.43.0


From bfecc37c9382075b0f5aed6725cfc6031c550dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 038/183] fix: GraphicScene.remove_item failed

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index d33312c..adec9d9 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -202,13 +202,13 @@ class GraphicSceneScope:
     ##############################################
 
     def remove_item(self, item: GraphicItem) -> None:
-        self.update_rtree(item, insert=False)
+        self.update_rtree_item(item, insert=False)
 
         items = self.item_for_user_data(item.user_data)
         if items:
             items.remove(item)
 
-        del self._items[item]
+        del self._items[id(item)]
 
     ##############################################
 
-- 
2.43.0


From 65eb22724b45a528273e66f706c2a4d28ff1754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 039/183] fix: return the items added for a path to a scene

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index adec9d9..78d53b5 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -319,7 +319,7 @@ class GraphicSceneScope:
 
         # Path
         elif isinstance(item, Path.Path2D):
-            self.add_path(item, path_style, as_segments=True)
+            return self.add_path(item, path_style, as_segments=True)
 
         # Polygon
         elif isinstance(item, Polygon.Polygon2D):
@@ -512,6 +512,8 @@ class GraphicSceneScope:
             elif isinstance(segment, Path.StringedCubicBezierSegment):
                 pass
 
+        return items
+
     ##############################################
 
     # def quadratic_bezier(self, p0, p1, p2, *args, **kwargs) -> None:
-- 
2.43.0


From 19ea699c1382c1aa01cc2b87cd2360b2965cacef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 040/183] fix: item_at failed for the primitives which do not
 implement distance_to_point

---
 Patro/GeometryEngine/Primitive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 7009638..0a4ced5 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -120,6 +120,12 @@ class Primitive:
 
     ##############################################
 
+    def distance_to_point(self, point):
+        """Distance of the primitive to a point."""
+        raise NotImplementedError
+
+    ##############################################
+
     # @property
     # def perimeter(self):
     #     raise NotImplementedError
-- 
2.43.0


From aaa326f5edb4e36492d18877f3aedcdfbfac2e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 041/183] fix: length of an angular domain which wraps over 360
 degrees was greater than a turn

---
 Patro/GeometryEngine/Mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index c7abe2d..dfce00d 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -134,7 +134,8 @@ class AngularDomain:
             if self.is_counterclockwise:
                 return length
             else:
-                return 2*pi - length
+                # domain wraps over 360
+                return 2*pi + length
 
     ##############################################
 
-- 
2.43.0


From fb9d45545c85b1b81d20935fd7bdb6784d4784b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 042/183] fix: AngularDomain.is_inside compared angles without
 modulo 360

---
 Patro/GeometryEngine/Mixin.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index dfce00d..973b617 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -140,11 +140,17 @@ class AngularDomain:
     ##############################################
 
     def is_inside(self, angle):
-        if self.is_counterclockwise:
-            return self._start <= angle <= self._stop
+        if self.is_closed:
+            return True
+        # angles are defined modulo 360
+        start = self._start % 360
+        stop = self._stop % 360
+        angle %= 360
+        if start <= stop:
+            return start <= angle <= stop
         else:
-            # Fixme: check !!!
-            return not(self._stop < angle < self._start)
+            # domain wraps over 360
+            return not(stop < angle < start)
 
 ####################################################################################################
 
-- 
2.43.0


From f410ca29f20241ebfbc4b781f78b3e6bc5b3dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 043/183] fix: perimeter of circles and arcs were swapped

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e237080..b48b071 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -173,9 +173,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def perimeter(self):
         if self._domain is not None:
-            return 2*pi * self._radius
-        else:
             return self._radius * self._domain.length
+        else:
+            return 2*pi * self._radius
 
     @property
     def area(self):
-- 
2.43.0


From 94893260dab6b950d13247075480cfb8649da892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 044/183] fix: eccentricity of a circle is zero

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index b48b071..5c6b085 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -168,7 +168,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def eccentricity(self):
-        return 1
+        return 0
 
     @property
     def perimeter(self):
-- 
2.43.0


From 5c5b99a0d9d23bce66c2525b7043f5c3d77ea4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 045/183] fix: intersection of two circles

---
 Patro/GeometryEngine/Conic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 5c6b085..019e4c8 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -314,7 +314,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: check domain !!!
 
         v = circle.center - self.center
-        d = sign(v.x) * v.magnitude
+        d = v.magnitude
+        if d == 0: # concentric circles
+            return None
 
         x = (d**2 - circle.radius**2 + self.radius**2) / (2*d)
         y2 = self.radius**2 - x**2
@@ -326,8 +328,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             if y2 == 0:
                 return p
             else:
-                n = v.normal() * sqrt(y2)
-                return p - n, p - n
+                n = v.normal * sqrt(y2)
+                return p - n, p + n
 
     ##############################################
 
-- 
2.43.0


From 562cf08736ef6bf09833ccf2d78aa4a1e8683cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 046/183] fix: distance of an arc to its center raised, e.g. to
 find the items at the center of a circle

---
 Patro/GeometryEngine/Conic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 019e4c8..759b39d 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -245,6 +245,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     def distance_to_point(self, point):
         if self._domain is not None:
             # Fixme: check !!!
+            if point == self._center:
+                return self._radius
             # try:
             angle = self.angle_for_point(point)
             # print('distance_to_circle', point, angle)
-- 
2.43.0


From 0a19e16896fd74eedb83dfb31261bf8cfd82aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 047/183] fix: axis vectors of an ellipse swapped the radius
 and the angle

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 759b39d..1a30148 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -503,12 +503,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def major_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle, self._radius_x)
+        return self.__vector_cls__.from_polar(self._radius_x, self._angle)
 
     @property
     def minor_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle + 90, self._radius_y)
+        return self.__vector_cls__.from_polar(self._radius_y, self._angle + 90)
 
     ##############################################
 
-- 
2.43.0


From 6a5399e73870fcac02b4b644d2ca3d57dfeb8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 048/183] fix: eccentricity of an ellipse having its major axis
 along y

---
 Patro/GeometryEngine/Conic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 1a30148..b8ed672 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -517,7 +517,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # focal distance
         # c = sqrt(self._radius_x**2 - self._radius_y**2)
         # e = c / a
-        return sqrt(1 - (self._radius_y/self._radius_x)**2)
+        b, a = sorted((self._radius_x, self._radius_y))
+        return sqrt(1 - (b/a)**2)
 
     ##############################################
 
-- 
2.43.0


From 0a0ee5c813fb4f7f1004954663598d06ba8d77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 049/183] fix: quadratic form of an ellipse

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index b8ed672..9bbb194 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -542,9 +542,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         xc2 = xc**2
         yc2 = yc**2
 
-        A = a2*s + b2*c2
+        A = a2*s2 + b2*c2
         B = 2*(b2 - a2)*c*s
-        C = a2*c2 * b2*s2
+        C = a2*c2 + b2*s2
         D = -2*A*xc - B*yc
         E = -B*xc - 2*C*yc
         F = A*xc2 + B*xc*yc + C*yc2 - a2*b2
-- 
2.43.0


From baba3eb57b0491a967b947d0b0e94ed4a0f48e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 050/183] fix: bounding box of a rotated ellipse

---
 Patro/GeometryEngine/Conic.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 9bbb194..5bd7073 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from Patro.Common.Math.Functions import sign # , epsilon_float
 from .Bezier import CubicBezier2D
-from .BoundingBox import bounding_box_from_points
 from .Line import Line2D
 from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
@@ -579,23 +578,13 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     def bounding_box(self):
 
         if self._bounding_box is None:
-            radius_x, radius_y = self._radius_x, self._radius_y
-            if self._angle == 0:
-                bounding_box = self._center.bounding_box
-                bounding_box.x.enlarge(radius_x)
-                bounding_box.y.enlarge(radius_y)
-                self._bounding_box = bounding_box
-            else:
-                angle_x = self._angle
-                angle_y = angle_x + 90
-                Vector2D = self.__vector_cls__
-                points = [self._center + offset for offset in (
-                    Vector2D.from_polar(angle_x,  radius_x),
-                    Vector2D.from_polar(angle_x, -radius_x),
-                    Vector2D.from_polar(angle_y,  radius_y),
-                    Vector2D.from_polar(angle_y, -radius_y),
-                )]
-                self._bounding_box = bounding_box_from_points(points)
+            # Fixme: larger for arc
+            angle = radians(self._angle)
+            c, s = cos(angle), sin(angle)
+            bounding_box = self._center.bounding_box
+            bounding_box.x.enlarge(sqrt((self._radius_x * c)**2 + (self._radius_y * s)**2))
+            bounding_box.y.enlarge(sqrt((self._radius_x * s)**2 + (self._radius_y * c)**2))
+            self._bounding_box = bounding_box
 
         return self._bounding_box
 
-- 
2.43.0


From 300a1e7ebbfbca67e786d020b5c8e646433ea5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 051/183] fix: point inside an ellipse mixed the ellipse and
 the scene frames

---
 Patro/GeometryEngine/Conic.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 5bd7073..5c42506 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -691,16 +691,13 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         point_in_frame = self.point_in_ellipse_frame(point)
         point_in_frame_abs = self.__vector_cls__(abs(point_in_frame.x), abs(point_in_frame.y))
-        distance, point_in_ellipse = self._eberly_distance(point_in_frame_abs)
 
         if is_inside:
-            # Fixme: right ???
-            return (
-                (point_in_frame_abs - self._center).magnitude_square
-                <=
-                (point_in_ellipse - self._center).magnitude_square
-            )
-        elif return_point:
+            return (point_in_frame.x / self._radius_x)**2 + (point_in_frame.y / self._radius_y)**2 <= 1
+
+        distance, point_in_ellipse = self._eberly_distance(point_in_frame_abs)
+
+        if return_point:
             point_in_ellipse = self.__vector_cls__(
                 sign(point_in_frame.x)*(point_in_ellipse.x),
                 sign(point_in_frame.y)*(point_in_ellipse.y),
-- 
2.43.0


From b0d235ff55eb44f3e4eea9b6042663c96a37382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 052/183] fix: distance to an ellipse having its major axis
 along y

---
 Patro/GeometryEngine/Conic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 5c42506..37997c4 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -647,6 +647,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         y0, y1 = point
         e0, e1 = self._radius_x, self._radius_y
 
+        # ensure e0 >= e1
+        swap = e0 < e1
+        if swap:
+            y0, y1 = y1, y0
+            e0, e1 = e1, e0
+
         if y1 > 0:
             if  y0 > 0:
                 z0 = y0 / e0
@@ -681,6 +687,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 x1 = 0
                 distance = abs(y0 - e0)
 
+        if swap:
+            x0, x1 = x1, x0
+
         return distance, self.__vector_cls__(x0, x1)
 
     ##############################################
-- 
2.43.0


From 043d2f587141201d12375b1008a88d2f353f5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 053/183] fix: intersection of an ellipse with a segment
 without or with only one intersection

---
 Patro/GeometryEngine/Conic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 37997c4..fa2700e 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -735,6 +735,10 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         circle = Circle2D(self.__vector_cls__(0, 0), self._radius_x)
 
         points = circle.intersect_segment(segment_in_frame)
+        if points is None:
+            return []
+        elif not isinstance(points, tuple): # tangent
+            points = (points,)
         points = [self.__vector_cls__(point.x, point.y / y_scale) for point in points]
         points = [self.point_from_ellipse_frame(point) for point in points]
 
-- 
2.43.0


From 52dd3e91654bad2aa3579cfdcfa7c7b56f1f99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:27 +0000
Subject: [PATCH 054/183] fix: cached bounding box of an ellipse was not
 updated when its center or radii are set

---
 Patro/GeometryEngine/Conic.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index fa2700e..29d6f32 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -448,8 +448,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self.angle = angle
         self.domain = domain
 
-        self._bounding_box = None
-
     ##############################################
 
     def clone(self):
@@ -466,7 +464,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
-        self._bounding_box = None
 
     ##############################################
 
@@ -577,16 +574,13 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def bounding_box(self):
 
-        if self._bounding_box is None:
-            # Fixme: larger for arc
-            angle = radians(self._angle)
-            c, s = cos(angle), sin(angle)
-            bounding_box = self._center.bounding_box
-            bounding_box.x.enlarge(sqrt((self._radius_x * c)**2 + (self._radius_y * s)**2))
-            bounding_box.y.enlarge(sqrt((self._radius_x * s)**2 + (self._radius_y * c)**2))
-            self._bounding_box = bounding_box
-
-        return self._bounding_box
+        # Fixme: larger for arc
+        angle = radians(self._angle)
+        c, s = cos(angle), sin(angle)
+        bounding_box = self._center.bounding_box
+        bounding_box.x.enlarge(sqrt((self._radius_x * c)**2 + (self._radius_y * s)**2))
+        bounding_box.y.enlarge(sqrt((self._radius_x * s)**2 + (self._radius_y * c)**2))
+        return bounding_box
 
     ##############################################
 
-- 
2.43.0


From 2bde9566edb8f6fc73698d6eee698ebed81baad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 055/183] fix: end points, center and sweep of SVG arcs

---
 Patro/GeometryEngine/Conic.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 29d6f32..fe53a80 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -395,7 +395,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Ensure radii are large enough
         radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2
         if radii_scale > 1:
-            self._logger.warning('SVG Arc: radii must be scale')
+            cls._logger.warning('SVG Arc: radii must be scale')
             radii_scale = math.sqrt(radii_scale)
             radius_x = radii_scale * radius_x
             radius_y = radii_scale * radius_y
@@ -410,19 +410,15 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         ratio = radius_x/radius_y
 
         sign = 1 if large_arc != sweep else -1
-        # print(point1_prime)
-        # print(point1_prime.anti_normal)
-        # print(ratio)
-        # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
-        sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
-        center_prime = sign * math.sqrt(num / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
+        # num can be slightly negative due to rounding errors
+        center_prime = sign * math.sqrt(max(num / den, 0)) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
         center = Transformation2D.Rotation(angle) * center_prime + origin_prime
 
         vector1 =   (point1_prime - center_prime).divide(radius_x, radius_y)
         vector2 = - (point1_prime + center_prime).divide(radius_x, radius_y)
-        theta = cls.__vector_cls__(1, 0).angle_with(vector1)
-        delta_theta = vector1.angle_with(vector2)
+        theta = vector1.orientation
+        delta_theta = vector2.angle_with(vector1)
         # if theta < 0:
         #     theta = 180 + theta
         # if delta_theta < 0:
@@ -434,7 +430,10 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         elif sweep and delta_theta < 0:
             delta_theta += 360
         # print('theta', theta, delta_theta, theta + delta_theta)
-        domain = domain = AngularDomain(theta, theta + delta_theta)
+        if sweep:
+            domain = AngularDomain(theta, theta + delta_theta)
+        else: # a domain goes counterclockwise from start to stop
+            domain = AngularDomain(theta + delta_theta, theta)
 
         return cls(center, radius_x, radius_y, angle, domain)
 
-- 
2.43.0


From 82f4b1363f80c44b4431593ae9479fa5baaa716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:40 +0000
Subject: [PATCH 056/183] =?UTF-8?q?fix:=20B=C3=A9zier=20curves=20of=20an?=
 =?UTF-8?q?=20elliptical=20arc=20whose=20domain=20wraps=20over=20360=20deg?=
 =?UTF-8?q?rees?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Conic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index fe53a80..c917243 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -764,6 +764,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             # Fixme: is_over_closer
             start_angle = self._domain.start
             angle_span = self._domain.span
+            if self._domain.is_clockwise and not self._domain.is_closed:
+                # domain wraps over 360
+                angle_span = 360 - angle_span
         else:
             start_angle = 0
             angle_span = 360
-- 
2.43.0


From 5947fc606f0f8db5d18d74dc4a4f07711d199b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 057/183] =?UTF-8?q?fix:=20intersection=20of=20a=20B=C3=A9z?=
 =?UTF-8?q?ier=20curve=20with=20a=20line?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10c636f..6f6feab 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -61,7 +61,7 @@ from Patro.Common.Math.Root import quadratic_root, cubic_root, fifth_root
 from .Interpolation import interpolate_two_points
 from .Line import Line2D
 from .Primitive import Primitive3P, Primitive4P, PrimitiveNP, Primitive2DMixin
-from .Transformation import AffineTransformation
+from .Transformation import AffineTransformation2D
 from .Vector import Vector2D
 
 ####################################################################################################
@@ -174,9 +174,10 @@ class BezierMixin2D(Primitive2DMixin):
     ##############################################
 
     def _map_to_line(self, line):
-        transformation = AffineTransformation.Rotation(-line.v.orientation)
+        # move the point of the line to the origin, then align the line with the x axis
+        transformation = AffineTransformation2D.Rotation(-line.v.orientation)
         # Fixme: use __vector_cls__
-        transformation *= AffineTransformation.Translation(Vector2D(0, -line.p.y))
+        transformation = transformation * AffineTransformation2D.Translation(-line.p)
         # Fixme: better API ?
         return self.clone().transform(transformation)
 
-- 
2.43.0


From ea1d82ca6d39667fbd9c540f4793748560286971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 058/183] fix: length_at_t called length on the tuple of split
 curves

---
 Patro/GeometryEngine/Bezier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 6f6feab..c63fc09 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -109,7 +109,12 @@ class BezierMixin2D(Primitive2DMixin):
             if length is not None:
                 return length
 
-        length = self.split_at_t(t).length
+        if t <= 0:
+            length = 0
+        elif t >= 1:
+            length = self.length
+        else:
+            length = self.split_at_t(t)[0].length # left
 
         if cache: # save
             self._length_cache[t] = length
-- 
2.43.0


From 86a1d0286b930ecb9b7011c7765963e2659254ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 059/183] fix: t_at_length didn't raise for a length greater
 than the curve length

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index c63fc09..88a29f5 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -132,7 +132,7 @@ class BezierMixin2D(Primitive2DMixin):
         if length == 0:
             return 0
         curve_length = self.length # Fixme: cache ?
-        if (curve_length - length) <= precision:
+        if abs(curve_length - length) <= precision:
             return 1
         if length > curve_length:
             raise ValueError('Out of length')
-- 
2.43.0


From 469e40d5e013b22063c84ec2d4739a3075a9c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 060/183] =?UTF-8?q?fix:=20tangent1=20of=20a=20quadratic=20?=
 =?UTF-8?q?B=C3=A9zier=20curve=20was=20redefined=20recursively=20by=20its?=
 =?UTF-8?q?=20normal?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 88a29f5..aca26a7 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -305,13 +305,13 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
     @property
     def normal0(self):
-        return self.tangent0.normal()
+        return self.tangent0.normal
 
     ##############################################
 
     @property
-    def tangent1(self):
-        return self.tangent1.normal()
+    def normal1(self):
+        return self.tangent1.normal
 
     ##############################################
 
-- 
2.43.0


From 26c786a16617b99423da7b9f9183f71991243b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 061/183] =?UTF-8?q?fix:=20fat=20line=20of=20a=20quadratic?=
 =?UTF-8?q?=20B=C3=A9zier=20curve?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index aca26a7..aa700ee 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -363,7 +363,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ##############################################
 
     def fat_line(self):
-        line = Line2D.from_two_points(self._p0, self._p3)
+        line = Line2D.from_two_points(self._p0, self._p2)
         d1 = line.distance_to_line(self._p1)
         d_min = min(0, d1 / 2)
         d_max = max(0, d1 / 2)
-- 
2.43.0


From 9f4d77363be4e27853324fe7634462bff8ddc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 062/183] =?UTF-8?q?fix:=20inverse=20of=20the=20quadratic?=
 =?UTF-8?q?=20B=C3=A9zier=20basis?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index aa700ee..86142ba 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -220,9 +220,9 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ))
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-1, -3,  1),
-        (-1, -1, -2),
+        (1,   1, 1),
+        (0, 1/2, 1),
+        (0,   0, 1),
     ))
 
     _logger = _module_logger.getChild('QuadraticBezier2D')
-- 
2.43.0


From 50ced7e29f7c6abf0d35ebe3f8759a60708aa24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:38 +0000
Subject: [PATCH 063/183] =?UTF-8?q?fix:=20length=20of=20a=20cubic=20B?=
 =?UTF-8?q?=C3=A9zier=20curve=20which=20is=20an=20elevated=20quadratic=20r?=
 =?UTF-8?q?aised=20a=20division=20by=20zero?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 86142ba..abc72a9 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -511,7 +511,10 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
 
     def _t_max(self):
         """Return the split point for adaptive quadratic approximation"""
-        return (_Div18Sqrt3 * self.InterpolationPrecision / self._d01())**_OneThird
+        d01 = self._d01()
+        if d01 == 0: # curve is quadratic
+            return 1
+        return (_Div18Sqrt3 * self.InterpolationPrecision / d01)**_OneThird
 
     ##############################################
 
-- 
2.43.0


From dd5f1c3295047325fc5880ce7712b2ff0e9c5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 064/183] fix: non parametric curve used an undefined name and
 missed the last point

---
 Patro/GeometryEngine/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index abc72a9..a819fed 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -193,9 +193,9 @@ class BezierMixin2D(Primitive2DMixin):
         the baseline of the fat-line, ti is equally spaced in [0, 1].
 
         """
-        ts = np.arange(0, 1, 1/(self.number_of_points-1))
+        ts = np.linspace(0, 1, self.number_of_points)
         distances = [line.distance_to_line(p) for p in self.points]
-        points = [Vector2D(t, d) for t, f in zip(ts, distances)]
+        points = [Vector2D(t, d) for t, d in zip(ts, distances)]
         return self.__class__(*points)
 
     ##############################################
-- 
2.43.0


From 9052faed38411297fc7496cc1dadd19785e3f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 065/183] =?UTF-8?q?fix:=20length=20of=20a=20quadratic=20B?=
 =?UTF-8?q?=C3=A9zier=20curve=20whose=20points=20are=20collinear=20or=20wh?=
 =?UTF-8?q?ose=20first=20points=20are=20equal?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index a819fed..65ae4f8 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -255,6 +255,14 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             b = 8 * A0.dot(A1)
             a = 4 * A0.dot(A0)
             q = 4 * a * c - b * b
+            if q <= 1e-12 * 4 * a * c:
+                # points are collinear, the log is not defined if the curve turns back
+                a0 = A0.dot(A1) / A1.magnitude
+                a1 = A1.magnitude
+                # primitive of the half speed
+                primitive = lambda t: a0*t + a1*t**2/2
+                t0 = min(max(-a0/a1, 0), 1)
+                return 2 * (abs(primitive(t0)) + abs(primitive(1) - primitive(t0)))
             two_cb = 2 * c + b
             sum_cba = c + b + a
             m0 = 0.25 / c
-- 
2.43.0


From 8fccab7f050034a540de3685c6c15daa1c7888bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 066/183] fix: cubic_root must return a list of roots for a
 degenerated equation

---
 Patro/Common/Math/Root.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 8aab8ec..9ddea63 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -72,7 +72,14 @@ def quadratic_root(a, b, c):
 def cubic_root(a, b, c, d):
 
     if a == 0:
-        return quadratic_root(b, c, d)
+        roots = quadratic_root(b, c, d)
+        # return a list
+        if roots is None:
+            return []
+        elif isinstance(roots, tuple):
+            return list(roots)
+        else:
+            return [roots]
     else:
         return cubic_root_sympy(a, b, c, d)
 
-- 
2.43.0


From c372a73a8e601db7260d762707ec3533987ae093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 067/183] =?UTF-8?q?fix:=20closest=20point=20of=20a=20B?=
 =?UTF-8?q?=C3=A9zier=20curve=20ignored=20the=20end=20points=20and=20faile?=
 =?UTF-8?q?d=20for=20several=20roots?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 43 ++++++++++++----------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 65ae4f8..13d6210 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -200,6 +200,19 @@ class BezierMixin2D(Primitive2DMixin):
 
     ##############################################
 
+    def _closest_point_at_roots(self, point, roots):
+
+        """Return the closest point among the curve's points where the distance is stationary, *roots*, and
+        the end points.
+
+        """
+
+        ts = [0, 1] + [float(root) for root in roots if 0 <= root <= 1]
+        points = [self.point_at_t(t) for t in ts]
+        return min(points, key=lambda p: (p - point).magnitude_square)
+
+    ##############################################
+
     def distance_to_point(self, point):
         p = self.closest_point(point)
         if p is not None:
@@ -397,14 +410,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             2*A.magnitude_square + M.dot(B),
             M.dot(A),
         )
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            return None
-        else:
-            return self.point_at_t(t)
+        return self._closest_point_at_roots(point, roots)
 
     ##############################################
 
@@ -890,23 +896,4 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
             2*point.dot(r) - 2*r.dot(v) - s.magnitude_square,
             point.dot(s) - s.dot(v),
         )
-        # Fixme: to func
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            # Fixme:
-            # Found more than one root [0, 0.516373783749732]
-            # for CubicBezier2D(
-            #   Vector2D[1394.4334 1672.0004], Vector2D[1394.4334 1672.0004],
-            #   Vector2D[1585.0004 1624.9634], Vector2D[1585.0004 1622.0004])
-            # and point Vector2D[1495.11502887 1649.7386517 ]
-            # raise NameError("Found more than one root: {}".format(t))
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            # self._logger.warning("is flat {}".format(self.is_flat_enough(.1)))
-            if len(t) == 2 and t[0] == 0:
-                return self.point_at_t(t[1])
-            else:
-                return None
-        else:
-            return self.point_at_t(t[0])
+        return self._closest_point_at_roots(point, roots)
-- 
2.43.0


From 56e64356cd77f94cfc1dd9ff253cb1e1b91f8117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 068/183] =?UTF-8?q?fix:=20length=20of=20a=20quadratic=20B?=
 =?UTF-8?q?=C3=A9zier=20curve=20whose=20second=20difference=20is=20null=20?=
 =?UTF-8?q?up=20to=20rounding=20errors?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 13d6210..c968d5b 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -263,7 +263,8 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
         A0 = self._p1 - self._p0
         A1 = self._p0 - self._p1 * 2 + self._p2
-        if A1.magnitude_square != 0:
+        # Note: A1 can be null up to rounding errors
+        if A1.magnitude_square > 1e-16 * A0.magnitude_square:
             c = 4 * A1.dot(A1)
             b = 8 * A0.dot(A1)
             a = 4 * A0.dot(A0)
@@ -283,7 +284,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             return (m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a)) +
                     m1 * (log(2 * sqrt(c * sum_cba) + two_cb) - log(2 * sqrt(c * a) + b)))
         else:
-            return 2 * A0.magnitude
+            return (self._p2 - self._p0).magnitude
 
     ##############################################
 
-- 
2.43.0


From 81dfadfdf591ecb10844b910144aa9e4fbd4611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 069/183] =?UTF-8?q?fix:=20conversion=20of=20an=20uniform?=
 =?UTF-8?q?=20cubic=20spline=20to=20a=20B=C3=A9zier=20curve=20used=20undef?=
 =?UTF-8?q?ined=20attributes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Spline.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c7aff79..90311df 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -136,12 +136,6 @@ class CubicUniformSpline2D(Primitive2DMixin, Primitive4P):
     def to_bezier(self):
         basis = np.dot(self.BASIS, CubicBezier2D.INVERSE_BASIS)
         points = np.dot(self.point_array, basis).transpose()
-        if self._start:
-            # list(self.points)[:2]
-            points[:2] = self._p0, self._p1
-        elif self._stop:
-            # list(self.points)[-2:]
-            points[-2:] = self._p2, self._p3
         return CubicBezier2D(*points)
 
     ##############################################
-- 
2.43.0


From 1bd1c68e027193bfca0c19a13e716e9e21497906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 070/183] fix: basis and evaluation of the quadratic uniform
 spline

---
 Patro/GeometryEngine/Spline.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 90311df..9ff3a96 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -53,12 +53,12 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
         (1, -2,  1),
         (1,  2, -2),
         (0,  0,  1),
-    ))
+    )) / 2
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-2, -3,  1),
-        (-1, -1, -2),
+        (   1,   1, 1),
+        (-1/2, 1/2, 3/2),
+        (   0,   0, 2),
     ))
 
     #######################################
@@ -83,18 +83,14 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
     def point_at_t(self, t):
 
         # Q(t) = (
-        #          P0 *  (1-t)**3                      +
-        #          P1 * (  3*t**3 - 6*t**2       + 4 ) +
-        #          P2 * ( -3*t**3 + 3*t**2 + 3*t + 1 ) +
-        #          P3 *      t**3
-        #        ) / 6
-        #
-        #     = P0*(1-t)**3/6 + P1*(3*t**3 - 6*t**2 + 4)/6 + P2*(-3*t**3 + 3*t**2 + 3*t + 1)/6 + P3*t**3/6
-
-        return (self._p0/6 + self._p1*2/3 + self._p2/6 +
-                (-self._p0/2 + self._p2/2)*t +
-                (self._p0/2 - self._p1 + self._p2/2)*t**2 +
-                (-self._p0/6 + self._p1/2 - self._p2/2 + self._p3/6)*t**3)
+        #          P0 * (1-t)**2                 +
+        #          P1 * ( -2*t**2 + 2*t + 1 )    +
+        #          P2 *      t**2
+        #        ) / 2
+
+        return ((self._p0 + self._p1)/2 +
+                (self._p1 - self._p0)*t +
+                (self._p0/2 - self._p1 + self._p2/2)*t**2)
 
 ####################################################################################################
 
-- 
2.43.0


From e17268ab8b05473f495ba1973da7dcb5d758e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 071/183] fix: naive evaluation of a B-spline used inconsistent
 matrix dimensions

---
 Patro/GeometryEngine/Spline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 9ff3a96..c064d87 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -342,8 +342,8 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         basis = np.array([self.basis_function(i, self._degree, t)
                           for i in range(self.number_of_points)])
-        points = self.point_array
-        return self.__vector_cls__(np.dot(basis, points))
+        points = self.point_array # dimension x number of points
+        return self.__vector_cls__(np.dot(points, basis))
 
     ##############################################
 
-- 
2.43.0


From ee755e73ae8082a485ee6a101a94ef75793ec258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 072/183] fix: evaluate a non-uniform B-spline at its end knot

---
 Patro/GeometryEngine/Spline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c064d87..d24d693 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -265,6 +265,8 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
             for i, t_span in enumerate(self._knots):
                 if t < t_span:
                     return i-1
+            # end knot, return the last span
+            return max(i for i, t_span in enumerate(self._knots) if t_span < t)
 
     ##############################################
 
-- 
2.43.0


From 0cc71372a94b5d7056042d0f58990f1a5719a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 073/183] fix: clone and reverse of a B-spline lost its degree

---
 Patro/GeometryEngine/Spline.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index d24d693..f455267 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -202,6 +202,22 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def clone(self):
+        knots = None if self._uniform else self._knots
+        return self.__class__(self._points, self._degree, closed=self._closed, knots=knots)
+
+    ##############################################
+
+    def reverse(self):
+        if self._uniform:
+            knots = None
+        else:
+            start, end = self._knots[0], self._knots[-1]
+            knots = [start + end - t for t in reversed(self._knots)]
+        return self.__class__(list(self.reversed_points), self._degree, closed=self._closed, knots=knots)
+
+    ##############################################
+
     @property
     def degree(self):
         return self._degree
-- 
2.43.0


From 0d2ab53289bf4baa0b4f6227038f783ee299befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 074/183] fix: to_bezier of a B-spline must raise for an
 unsupported degree

---
 Patro/GeometryEngine/Spline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index f455267..d4223cb 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -449,12 +449,12 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         if self._degree == 2:
             cls = Bezier.QuadraticBezier2D
-        elif self._degree >= 3:
+        elif self._degree == 3:
             cls = Bezier.CubicBezier2D
         else:
-            not NotImplementedError
+            # Fixme: degree > 3
+            raise NotImplementedError
 
-        # Fixme: degree > 3
         spline = self.to_bezier_form()
 
         bezier_curves = []
-- 
2.43.0


From ee4d441a15ea87cf32713c0eb04f58ab00dc7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 075/183] fix: a null bulge radius means no bulge

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1e206db..6686902 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -310,7 +310,7 @@ class LinearSegment(PathPart):
         if value is not None:
             value = abs(float(value))
             if value == 0:
-                radius = None
+                value = None
         self._radius = value
 
     ##############################################
-- 
2.43.0


From 8325f3c36f2f73b77d97698c11eb61194b36f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 076/183] fix: bulges of a transformed path used the direction
 of the segments before the transformation

---
 Patro/GeometryEngine/Path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 6686902..17aba71 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -236,21 +236,21 @@ class LinearSegment(PathPart):
 
         super().__init__(path, index)
 
-        self._bissector = None
-        self._direction = None
-
         self._start_bulge = False
         self._closing = bool(closing)
         self.radius = radius
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-            self._reset_cache()
+        self._reset_cache()
 
     ##############################################
 
     def _reset_cache(self):
 
+        self._bissector = None
+        self._direction = None
+
         self._bulge_angle = None
         self._bulge_center = None
         self._start_bulge_point = None
-- 
2.43.0


From ba4f5e3d365d7d81229785f229b1f4de92a2dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 077/183] fix: clone of a path failed and lost its closed state

---
 Patro/GeometryEngine/Path.py | 38 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 17aba71..a00f777 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -258,6 +258,18 @@ class LinearSegment(PathPart):
 
     ##############################################
 
+    @property
+    def _radius_ctor(self):
+        """Radius to pass to the constructor of a clone, the radius of a start bulge is set using :meth:`close`"""
+        return None if self._start_bulge else self._radius
+
+    def _clone_start_bulge(self, obj):
+        if self._start_bulge:
+            obj.close(self._radius)
+        return obj
+
+    ##############################################
+
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
@@ -419,16 +431,9 @@ class PathSegment(OnePointMixin, LinearSegment):
 
     def clone(self, path):
 
-        # Fixme: check
-        if obj._start_bulge:
-            radius = None
-        else:
-            radius = self._radius
-        obj = self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
-        if obj._start_bulge:
-            self.close(self._radius)
-
-        return obj
+        return self._clone_start_bulge(
+            self.__class__(path, self._index, self._point, self._radius_ctor, self._absolute, self._closing)
+        )
 
     ##############################################
 
@@ -511,7 +516,7 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._x, self._radius)
+        return self._clone_start_bulge(self.__class__(path, self._index, self._x, self._radius_ctor))
 
     ##############################################
 
@@ -549,7 +554,7 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._y, self._radius)
+        return self._clone_start_bulge(self.__class__(path, self._index, self._y, self._radius_ctor))
 
     ##############################################
 
@@ -587,7 +592,7 @@ class DirectionalSegment(DirectionalSegmentMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._length, self._radius)
+        return self._clone_start_bulge(self.__class__(path, self._index, self._length, self._radius_ctor))
 
     ##############################################
 
@@ -724,7 +729,7 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, self._point3, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._point3, self._absolute)
 
     ##############################################
 
@@ -767,7 +772,7 @@ class StringedQuadtraticBezierSegment(PathPart, TwoPointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, absolute)
+        return self.__class__(path, self._index, self._point1, self._absolute)
 
     ##############################################
 
@@ -794,7 +799,7 @@ class StringedCubicBezierSegment(PathPart, TwoPointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._absolute)
 
     ##############################################
 
@@ -899,6 +904,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         parts = obj._parts
         for part in self._parts:
             parts.append(part.clone(obj))
+        obj._is_closed = self._is_closed
 
         return obj
 
-- 
2.43.0


From 605ca21aa50aa03f1216965e94112c0f144c91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 078/183] fix: absolute horizontal_to and vertical_to must keep
 the other coordinate

---
 Patro/GeometryEngine/Path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index a00f777..9d1e07a 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1009,8 +1009,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def horizontal_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(length, 0), radius,
-                                  absolute=True)
+            return self._add_part(AbsoluteHorizontalSegment, length, radius)
         else:
             return self._add_part(HorizontalSegment, length, radius)
 
@@ -1018,8 +1017,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def vertical_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(0, length), radius,
-                                  absolute=True)
+            return self._add_part(AbsoluteVerticalSegment, length, radius)
         else:
             return self._add_part(VerticalSegment, length, radius)
 
-- 
2.43.0


From 58ac4a747a9197acb0e8daec940a8bc53bb56ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 079/183] fix: geometry of a directional segment must stop at
 the bulges like a path segment

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 9d1e07a..1eac4cd 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -471,7 +471,7 @@ class DirectionalSegmentMixin(LinearSegment):
     @property
     def geometry(self):
         # Fixme: cache ???
-        return Segment2D(self.start_point, self.stop_point)
+        return Segment2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From 4ec87206e5d460d8bf9d01301645d9b4bdcaa610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 080/183] fix: transform orientation and domain of circle and
 ellipse arcs

---
 Patro/GeometryEngine/Conic.py | 58 +++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index c917243..b93c4a1 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -55,6 +55,36 @@ _module_logger = logging.getLogger(__name__)
 
 ####################################################################################################
 
+def transform_ellipse(transformation, radius_x, radius_y, angle):
+
+    """Return the radii and the angle of the image of an ellipse by a transformation, and a Boolean set to
+    True if the transformation reverses the orientation.
+
+    """
+
+    # ellipse = matrix * unit circle
+    linear_part = transformation.array[:2,:2]
+    matrix = np.matmul(linear_part, Transformation2D.Rotation(angle).array)
+    matrix = np.matmul(matrix, np.array(((radius_x, 0), (0, radius_y))))
+
+    # squared radii and directions of the axes are the eigenvalues and the eigenvectors of matrix * transpose(matrix)
+    a, b, c = (
+        matrix[0,0]**2          + matrix[0,1]**2,
+        matrix[0,0]*matrix[1,0] + matrix[0,1]*matrix[1,1],
+        matrix[1,0]**2          + matrix[1,1]**2,
+    )
+    half_sum = (a + c) / 2
+    half_difference = sqrt(((a - c) / 2)**2 + b**2)
+
+    return (
+        sqrt(half_sum + half_difference),
+        sqrt(max(half_sum - half_difference, 0)),
+        math.degrees(math.atan2(2*b, a - c) / 2),
+        linear_part[0,0]*linear_part[1,1] < linear_part[0,1]*linear_part[1,0],
+    )
+
+####################################################################################################
+
 class PointNotOnCircleError(ValueError):
     pass
 
@@ -139,11 +169,23 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
+        # points must be transformed before the circle
+        if self._domain is not None:
+            points = [transformation * self.point_at_angle(angle)
+                      for angle in (self._domain.start, self._domain.stop)]
+
         self._center = transformation * self._center
         # Fixme: shear -> ellipse
         if self._radius is not None:
             self._radius = transformation * self._radius
 
+        if self._domain is not None and not self._domain.is_closed:
+            start, stop = [self.angle_for_point(point) for point in points]
+            m = transformation.array
+            if m[0,0]*m[1,1] < m[0,1]*m[1,0]: # a domain goes counterclockwise from start to stop
+                start, stop = stop, start
+            self._domain = AngularDomain(start, stop)
+
     ##############################################
 
     def __repr__(self):
@@ -460,9 +502,21 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
+        # points must be transformed before the ellipse
+        if self._domain is not None:
+            points = [transformation * self.point_at_angle(angle)
+                      for angle in (self._domain.start, self._domain.stop)]
+
         self._center = transformation * self._center
-        self._radius_x = transformation * self._radius_x
-        self._radius_y = transformation * self._radius_y
+        self._radius_x, self._radius_y, self._angle, is_reflected = transform_ellipse(
+            transformation, self._radius_x, self._radius_y, self._angle)
+
+        if self._domain is not None and not self._domain.is_closed:
+            start, stop = [self.point_in_ellipse_frame(point).divide(self._radius_x, self._radius_y).orientation
+                           for point in points]
+            if is_reflected: # a domain goes counterclockwise from start to stop
+                start, stop = stop, start
+            self._domain = AngularDomain(start, stop)
 
     ##############################################
 
-- 
2.43.0


From e7fa8bfa8a25b793801f69b7d5480088fe034bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 081/183] fix: transform radii, angle and sweep of the arcs of
 a path

---
 Patro/GeometryEngine/Path.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1eac4cd..4625959 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -41,7 +41,7 @@ import math
 from Patro.Common.Math.Functions import sign
 from .Primitive import Primitive, Primitive1PMixin, Primitive2DMixin, PointPrimitive
 from .Bezier import QuadraticBezier2D, CubicBezier2D
-from .Conic import AngularDomain, Circle2D, Ellipse2D
+from .Conic import AngularDomain, Circle2D, Ellipse2D, transform_ellipse
 from .Segment import Segment2D
 from .Vector import Vector2D
 
@@ -856,6 +856,16 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    def apply_transformation(self, transformation):
+        OnePointMixin.apply_transformation(self, transformation)
+        if self._radius_x and self._radius_y: # else it is a line
+            self._radius_x, self._radius_y, self._angle, is_reflected = transform_ellipse(
+                transformation, abs(self._radius_x), abs(self._radius_y), self._angle)
+            if is_reflected:
+                self._sweep = not self._sweep
+
+    ##############################################
+
     @property
     def points(self):
         return self.start_point, self.stop_point
-- 
2.43.0


From f6354b552b02a77919618b67238bbf0e64765d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 082/183] =?UTF-8?q?fix:=20implement=20the=20stringed=20B?=
 =?UTF-8?q?=C3=A9zier=20segments=20of=20a=20path?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Path.py              | 78 +++++++++++++++++++----
 Patro/GraphicEngine/GraphicScene/Scene.py | 20 ++----
 2 files changed, 72 insertions(+), 26 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 4625959..e864064 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -758,34 +758,72 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
 
 ####################################################################################################
 
-class StringedQuadtraticBezierSegment(PathPart, TwoPointMixin):
+class StringedMixin:
+
+    """Mixin for a Bézier curve where the first control point is the reflection of the last control point
+    of the previous curve relative to the start point.  If there is no previous curve of the same
+    degree, then it coincides with the start point.
+
+    """
+
+    __curve_segment_cls__ = None
+
+    ##############################################
+
+    @property
+    def control_point(self):
+        """Reflected control point"""
+        start_point = self.start_point
+        prev_part = self.prev_part
+        if isinstance(prev_part, (self.__class__, self.__curve_segment_cls__)):
+            return start_point * 2 - prev_part.points[-2]
+        else:
+            return start_point
+
+####################################################################################################
+
+class StringedQuadraticBezierSegment(StringedMixin, OnePointMixin, PathPart):
+
+    __curve_segment_cls__ = QuadraticBezierSegment
 
     ##############################################
 
-    def __init__(self, path, index, point1, absolute=False):
+    def __init__(self, path, index, point, absolute=False):
 
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        self.point1 = point1
+        self.point = point
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._absolute)
+        return self.__class__(path, self._index, self._point, self._absolute)
+
+    ##############################################
+
+    def to_absolute(self):
+        self._point = self.stop_point
+        self._absolute = True
+
+    ##############################################
+
+    @property
+    def points(self):
+        return (self.start_point, self.control_point, self.stop_point)
 
     ##############################################
 
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return QuadraticBezier2D(*self.points)
 
 ####################################################################################################
 
-class StringedCubicBezierSegment(PathPart, TwoPointMixin):
+class StringedCubicBezierSegment(StringedMixin, TwoPointMixin, PathPart):
+
+    __curve_segment_cls__ = CubicBezierSegment
 
     ##############################################
 
@@ -794,7 +832,8 @@ class StringedCubicBezierSegment(PathPart, TwoPointMixin):
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        # self.point1 = point1
+        self.point1 = point1
+        self.point2 = point2
 
     ##############################################
 
@@ -803,12 +842,27 @@ class StringedCubicBezierSegment(PathPart, TwoPointMixin):
 
     ##############################################
 
+    def to_absolute(self):
+        self._point1 = self.point1
+        self._point2 = self.point2
+        self._absolute = True
+
+    ##############################################
+
+    @property
+    def stop_point(self):
+        return self.point2
+
+    @property
+    def points(self):
+        return (self.start_point, self.control_point, self.point1, self.point2)
+
+    ##############################################
+
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return CubicBezier2D(*self.points)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 78d53b5..3146be9 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -411,16 +411,12 @@ class GraphicSceneScope:
                 # if segment.radius is not None:
                 #     add_bulge(segment)
                 item.line_to(segment.stop_point)
-            elif isinstance(segment, Path.QuadraticBezierSegment):
-                item.quadratic_to(segment.point1, segment.point2)
-            elif isinstance(segment, Path.CubicBezierSegment):
-                item.cubic_to(segment.point1, segment.point2, segment.point3)
+            elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadraticBezierSegment)):
+                item.quadratic_to(*segment.points[1:])
+            elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
+                item.cubic_to(*segment.points[1:])
             elif isinstance(segment, Path.ArcSegment):
                 pass
-            elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
-                pass
-            elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
 
         if path.is_closed:
             item.close()
@@ -501,16 +497,12 @@ class GraphicSceneScope:
                 #     add_bulge(start_segment)
                 #     add_segment(start_segment)
                 add_segment(segment)
-            elif isinstance(segment, Path.QuadraticBezierSegment):
+            elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadraticBezierSegment)):
                 add_quadratic(segment)
-            elif isinstance(segment, Path.CubicBezierSegment):
+            elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
                 add_cubic(segment)
             elif isinstance(segment, Path.ArcSegment):
                 add_ellipse(segment)
-            elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
-                pass
-            elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
 
         return items
 
-- 
2.43.0


From d4a8d17a874100fbd36bf3520a3d0f3922b3a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 083/183] fix: bisectors of a triangle were medians

---
 Patro/GeometryEngine/Triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f6ec763..35af9ae 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -123,15 +123,15 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     @property
     def bisector_vector0(self):
-        return (self._p1 - self._p0) + (self._p2 - self._p0)
+        return (self._p1 - self._p0).normalise() + (self._p2 - self._p0).normalise()
 
     @property
     def bisector_vector1(self):
-        return (self._p0 - self._p1) + (self._p2 - self._p1)
+        return (self._p0 - self._p1).normalise() + (self._p2 - self._p1).normalise()
 
     @property
     def bisector_vector2(self):
-        return (self._p1 - self._p2) + (self._p0 - self._p2)
+        return (self._p1 - self._p2).normalise() + (self._p0 - self._p2).normalise()
 
     ##############################################
 
-- 
2.43.0


From e6705f32a72c9966a74d364455c63a6270921078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 084/183] fix: cubic_root_normalised

---
 Patro/Common/Math/Root.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 9ddea63..44feabd 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -144,18 +144,12 @@ def cubic_root_normalised(a, b, c):
     # converted from haskell http://hackage.haskell.org/package/cubicbezier-0.6.0.5
 
     q = (a**2 - 3*b) / 9
-    q3 = q**3
-    m2sqrtQ = -2 * sqrt(q)
     r = (2*a**3 - 9*a*b + 27*c) / 54
+    q3 = q**3
     r2 = r**2
-    d = - sign(r)*((abs(r) + sqrt(r2-q3))**1/3) # Fixme: sqrt ??
 
-    if d == 0:
-        e = 0
-    else:
-        e = q/d
-
-    if r2 < q3:
+    if r2 < q3: # three real roots
+        m2sqrtQ = -2 * sqrt(q)
         t = acos(r/sqrt(q3))
         return [
             m2sqrtQ * cos(t/3)          - a/3,
@@ -163,6 +157,11 @@ def cubic_root_normalised(a, b, c):
             m2sqrtQ * cos((t - 2*pi)/3) - a/3,
         ]
     else:
+        d = - sign(r) * (abs(r) + sqrt(r2 - q3))**(1/3)
+        if d == 0:
+            e = 0
+        else:
+            e = q/d
         return [d + e - a/3]
 
 ####################################################################################################
-- 
2.43.0


From b215ee829d76736c720ca4ab8a6a0c71572df9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 085/183] fix: area of a cubic Bezier curve depends on the
 origin

---
 Patro/GeometryEngine/Bezier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index c968d5b..f33ab27 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -866,10 +866,11 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
         # Reference: http://objectmix.com/graphics/133553-area-closed-bezier-curve.html BUT DEAD LINK
         # Proof using divergence theorem ???
         # Fixme: any proof !
-        x0, y0 = list(self._p0)
-        x1, y1 = list(self._p1)
-        x2, y2 = list(self._p2)
-        x3, y3 = list(self._p3)
+        # Note: the formula gives the area from the origin, thus we take the start point as origin
+        x0, y0 = 0, 0
+        x1, y1 = list(self._p1 - self._p0)
+        x2, y2 = list(self._p2 - self._p0)
+        x3, y3 = list(self._p3 - self._p0)
         return (3 * ((y3 - y0) * (x1 + x2) - (x3 - x0) * (y1 + y2)
                      + y1 * (x0 - x2) - x1 * (y0 - y2)
                      + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20)
-- 
2.43.0


From c903a9dd4f8a66bbc084b70331a97b113ebe33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 086/183] fix: closest point of a cubic Bezier curve reduced to
 a point

---
 Patro/Common/Math/Root.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 44feabd..330f54e 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -131,7 +131,9 @@ def fifth_root_normalised(a, b, c, d, e):
 def fifth_root(*args):
     # Fixme: RuntimeWarning: divide by zero encountered in double_scalars
     a = args[0]
-    if a == 0:
+    if not any(args[:-1]): # constant polynomial
+        return []
+    elif a == 0:
         return fifth_root_sympy(*args)
     else:
         return fifth_root_normalised(*[x/a for x in args[1:]])
-- 
2.43.0


From 450e2fb1ea37cb10ae46635a48cfa25d142a0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 087/183] fix: SVG path data without separators, or on several
 lines, are not parsed

---
 Patro/FileFormat/Svg/SvgFormat.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c8882bf..015f27b 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -67,6 +67,7 @@ __all__ = [
 ####################################################################################################
 
 import logging
+import re
 
 from Patro.Common.Xml.Objectivity import (
     # BoolAttribute,
@@ -960,18 +961,11 @@ class PathDataAttribute(StringAttribute):
 
         # cls._logger.info('SVG path:\n'+ svg_path)
 
-        # Replace comma separator by space
-        cleaned_svg_path = svg_path.replace(',', ' ')
-        # Add space after letter
-        data_path = ''
-        for c in cleaned_svg_path:
-            data_path += c
-            if c.isalpha:
-                data_path += ' '
+        # Split to letters and numbers, separators (comma and white space) can be omitted
         # Convert float values
         parts = []
-        for part in split_space_list(cleaned_svg_path):
-            if not(len(part) == 1 and part.isalpha()):
+        for part in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[^\s,]', svg_path):
+            if not part.isalpha():
                 part = float(part)
             parts.append(part)
 
-- 
2.43.0


From c6baf1032d382a168bcf5afb322533a7d750de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:27 +0000
Subject: [PATCH 088/183] fix: SVG path commands S and T are swapped, T has two
 arguments

---
 Patro/FileFormat/Svg/SvgFormat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 015f27b..bf862d2 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -945,7 +945,7 @@ class PathDataAttribute(StringAttribute):
         'c':6,
         's':4,
         'q':4,
-        't':3,
+        't':2,
         'a':7,
         'z':0,
         }
@@ -1051,11 +1051,11 @@ class PathDataAttribute(StringAttribute):
                 elif command_lower == 'c':
                     path.cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 's':
-                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'q':
                     path.quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 't':
-                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'a':
                     radius_x, radius_y, angle, large_arc, sweep, x, y = args
                     point = Vector2D(x, y)
-- 
2.43.0


From a92945d1f25abd58eb7a495d95e3152a930ef259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:28 +0000
Subject: [PATCH 089/183] fix: SVG path data with a number after Z loop
 forever, a wrong number of arguments is not reported

---
 Patro/FileFormat/Svg/SvgFormat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index bf862d2..8676300 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -982,9 +982,13 @@ class PathDataAttribute(StringAttribute):
                     raise ValueError("Invalid path instruction: '{}' in\n{}".format(command, svg_path))
                 number_of_args = cls.NUMBER_OF_ARGS[command_lower]
                 i += 1 # move to first arg
+            elif not number_of_args:
+                raise ValueError("Path instruction is missing in\n{}".format(svg_path))
             # else repeated instruction
             next_i = i + number_of_args
             args = parts[i:next_i]
+            if len(args) != number_of_args or any(isinstance(arg, str) for arg in args):
+                raise ValueError("Wrong number of arguments for path instruction: '{}' in\n{}".format(command, svg_path))
             commands.append((command, args))
             i = next_i
             # for implicit line to
-- 
2.43.0


From d4d7df6b4b9fc2df62f97adbaaa1439be012f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 090/183] fix: SVG list of transforms, order of the transforms,
 white space as separator

---
 Patro/FileFormat/Svg/SvgFormat.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 8676300..eef1d29 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -445,15 +445,13 @@ class TransformAttribute(StringAttribute):
             return value
         else:
             transforms = []
-            for transform in split_space_list(value):
-                pos0 = value.find('(')
-                pos1 = value.find(')')
-                if pos0 == -1 or pos1 != len(value) -1:
-                    raise ValueError
-                transform_type = value[:pos0]
-                values = [float(x) for x in value[pos0+1:-1].split(',')]
-                transforms.append((transform_type, values))
-                # Fixme:
+            # the list of transforms and the list of values can be separated by commas and white spaces
+            for transform in value.replace(',', ' ').split(')')[:-1]:
+                transform_type, _, values = transform.partition('(')
+                values = [float(x) for x in values.split()]
+                transforms.append((transform_type.strip(), values))
+            if value.strip() and not value.strip().endswith(')'):
+                raise ValueError("Invalid transform: '{}'".format(value))
 
             # return transforms
             return cls.to_python(transforms, concat=True)
@@ -499,7 +497,8 @@ class TransformAttribute(StringAttribute):
             else:
                 raise NotImplementedError
             if concat:
-                global_transform = transform * global_transform
+                # the rightmost transform is applied first
+                global_transform = global_transform * transform
             else:
                 py_transforms.append(transform)
 
-- 
2.43.0


From 2a8e8375b2fb27ac02947f57b87a3371485eb6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 091/183] fix: SVG matrix transform is written with nine values
 in row order

---
 Patro/FileFormat/Svg/SvgFormat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index eef1d29..a3cf885 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -460,9 +460,9 @@ class TransformAttribute(StringAttribute):
 
     @classmethod
     def to_xml(cls, value):
-        # Fixme: wrong if value is AffineTransformation2D !!!
         # Fixme: to func
-        return 'matrix({})'.format(' '.join([str(x) for x in value.to_list()]))
+        array = value.to_list()
+        return 'matrix({})'.format(' '.join([str(array[i]) for i in (0, 3, 1, 4, 2, 5)]))
 
     ##############################################
 
-- 
2.43.0


From 7e795481985bc6d1e15551e97d5f77e5bd5e44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:31 +0000
Subject: [PATCH 092/183] fix: SVG length: unit is truncated, unit and percent
 are not written

---
 Patro/FileFormat/Svg/SvgFormat.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index a3cf885..b21af0b 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -259,6 +259,12 @@ class UnitValue:
 
     ##############################################
 
+    @property
+    def unit(self):
+        return self._unit
+
+    ##############################################
+
     def __float__(self):
         return self._value
 
@@ -279,18 +285,18 @@ class PercentLengthAttribute(InheritAttribute):
         if value.endswith('%'):
             return PercentValue(value[:-1])
         elif value[-1].isalpha():
-            return UnitValue(value[:-2], value[-2])
+            return UnitValue(value[:-2], value[-2:])
         else:
             return float(value)
 
     ##############################################
 
     @classmethod
-    def _to_xml(cls, value):
+    def to_xml(cls, value):
 
         # Fixme: ok ???
         if isinstance(value, PercentValue):
-            return '{}%'.format(float(value))
+            return '{}%'.format(float(value) * 100)
         elif isinstance(value, UnitValue):
             return '{}{}'.format(float(value), value.unit)
         else:
-- 
2.43.0


From 84774f40396597f283a8a9f4e91286417ea866f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 093/183] fix: SVG polygon tag

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index b21af0b..1978abe 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1124,7 +1124,7 @@ class Polygon(Polyline, XmlObjectAdaptator):
 
     """Defines any shape that consists of only straight lines"""
 
-    __tag__ = 'polyline'
+    __tag__ = 'polygon'
 
     # fill-rule="part of the FillStroke presentation attributes"
 
-- 
2.43.0


From 383ceac7472e0ebb4bc8588b720b2318a5c7ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 094/183] fix: SVG ellipse has no id and transform attribute

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 1978abe..44c48a0 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -744,7 +744,7 @@ class Desc(XmlObjectAdaptator):
 
 ####################################################################################################
 
-class Ellipse(CenterMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
+class Ellipse(CenterMixin, PathMixin, SvgElementMixin, XmlObjectAdaptator):
 
     """Defines an ellipse"""
 
-- 
2.43.0


From fed8853b28389209b18cc140b9cb1552900488fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:35 +0000
Subject: [PATCH 095/183] fix: SVG line cap, line join and miter limit
 attributes are not merged in the render state

---
 Patro/FileFormat/Svg/SvgFormat.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 44c48a0..38bd50c 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -316,9 +316,10 @@ class ColorMixin:
 class StrokeMixin:
 
     __attributes__ = (
-        StringAttribute('stroke_line_cap', 'stroke-linecap'),
-        StringAttribute('stroke_line_join', 'stroke-linejoin'),
-        NumberAttribute('stroke_miter_limit', 'stroke-miterlimit'),
+        # names must match PresentationAttributes
+        StringAttribute('stroke_linecap', 'stroke-linecap'),
+        StringAttribute('stroke_linejoin', 'stroke-linejoin'),
+        NumberAttribute('stroke_miterlimit', 'stroke-miterlimit'),
         PercentLengthAttribute('stroke_width', 'stroke-width'),
         FloatListAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
     )
-- 
2.43.0


From e00d9d15cd0a7e3e7ee9320fc0489c33321c0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:37 +0000
Subject: [PATCH 096/183] fix: SVG rectangle without x, y or ry attribute

---
 Patro/FileFormat/Svg/SvgFormat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 38bd50c..deb1888 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1170,12 +1170,14 @@ class Rect(PositionMixin, RadiusMixin, SizeMixin, PathMixin, SvgElementMixin, Xm
         # Fixme: which one ???
         radius_x = self.rx
         radius_y = self.ry
+        if radius_y is None:
+            radius_y = radius_x
         if radius_y == 0:
             radius = None
         else:
             radius = radius_y
 
-        point = Vector2D(self.x, self.y)
+        point = Vector2D(self.x or 0, self.y or 0)
         path = Path2D(point)
         path.horizontal_to(width)
         path.vertical_to(height, radius=radius)
-- 
2.43.0


From 22c9b48da7b83ac0328658bc023623adf3552ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:00 +0000
Subject: [PATCH 097/183] fix: SVG group state applies to the items after the
 group

---
 Patro/FileFormat/Svg/SvgFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index bea1f95..5af3477 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -283,6 +283,8 @@ class SvgDispatcher:
 
         self.on_root(element)
 
+        self._state_stack.pop()
+
     ##############################################
 
     def on_graphic_item(self, element):
-- 
2.43.0


From e05866289f133c8dd01304b79e30ae64af301dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:01 +0000
Subject: [PATCH 098/183] fix: SVG attributes are not inherited from the groups

---
 Patro/FileFormat/Svg/SvgFile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 5af3477..00c6ea4 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -122,7 +122,8 @@ class RenderState:
                         self.transform = self.transform * value
                 elif state == 'style':
                     pass
-                else:
+                elif value is not None:
+                    # else inherited
                     setattr(self, state, self.to_python(value))
 
         # Merge style
-- 
2.43.0


From 26fd2137593037f0d23ddfe6431a78f4a8f3db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 099/183] fix: SVG style with a trailing semicolon, an URL or a
 transform

---
 Patro/FileFormat/Svg/SvgFile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 00c6ea4..8bb0b3b 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -130,10 +130,12 @@ class RenderState:
         style = getattr(item, 'style', None)
         if style is not None:
             for pair in style.split(';'):
-                state, value = [x.strip() for x in pair.split(':')]
+                if not pair.strip():
+                    continue
+                state, value = [x.strip() for x in pair.split(':', 1)]
                 state = state.replace('-', '_')
                 if state == 'transform':
-                    self.transform = self.transform * value
+                    self.transform = self.transform * SvgFormat.TransformAttribute.from_xml(value)
                 else:
                     setattr(self, state, self.to_python(value))
 
-- 
2.43.0


From 96b5946e0dbe1e3377b3764e13de8bcc8324b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:04 +0000
Subject: [PATCH 100/183] fix: SVG render state value 1e-3 is truncated to zero

---
 Patro/FileFormat/Svg/SvgFile.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 8bb0b3b..9357b39 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -66,14 +66,11 @@ class RenderState:
             if value == 'none':
                 return None
             else:
-                try:
-                    float_value = float(value)
-                    if '.' in value:
-                        return float_value
-                    else:
-                        return int(float_value)
-                except ValueError:
-                    pass
+                for number_type in (int, float):
+                    try:
+                        return number_type(value)
+                    except ValueError:
+                        pass
 
         return value
 
-- 
2.43.0


From db5615c34b3eb369b91a654bf9bee14351e77803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 101/183] fix: SVG view box is given by a position and a size

---
 Patro/FileFormat/Svg/SvgFile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 9357b39..8d9eb28 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -359,8 +359,8 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
     ##############################################
 
     def on_svg_root(self, svg_root):
-        x_inf, y_inf, x_sup, y_sup = svg_root.view_box
-        self._view_box = Interval2D((x_inf, x_sup), (y_inf, y_sup))
+        x_inf, y_inf, width, height = svg_root.view_box
+        self._view_box = Interval2D((x_inf, x_inf + width), (y_inf, y_inf + height))
         self._width = svg_root.width
         self._height = svg_root.height
 
-- 
2.43.0


From 4a58f3560acf0a5b6d1107ff260b7c461c9c283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:07 +0000
Subject: [PATCH 102/183] fix: list of numbers separated by a comma and a space

---
 Patro/Common/Xml/Objectivity.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7b557c9..a09e060 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -179,13 +179,8 @@ class FloatListAttribute(Attribute):
         elif isinstance(value, (tuple, list)): # Python value
             return value
         else:
-            if ' ' in value:
-                separator = ' '
-            elif ',' in value:
-                separator = ','
-            else:
-                return [float(value)]
-            return [float(x) for x in value.split(separator)]
+            # separator can be a comma and / or white spaces
+            return [float(x) for x in value.replace(',', ' ').split()]
 
     ##############################################
 
-- 
2.43.0


From ec970a6ee354afe6a881b316f429fd8fab37debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:09 +0000
Subject: [PATCH 103/183] fix: boolean XML attribute given by keyword

---
 Patro/Common/Xml/Objectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index a09e060..d505a84 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -132,9 +132,9 @@ class BoolAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if value == "true" or value == "1":
+        if value is True or value == "true" or value == "1":
             return True
-        elif value == "false" or value == "0":
+        elif value is False or value == "false" or value == "0":
             return False
         else:
             raise ValueError("Incorrect boolean value {}".format(value))
-- 
2.43.0


From 0fe20fd52b11c8ef8bb113589eb92eb856784806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:11 +0000
Subject: [PATCH 104/183] fix: text of an XML element is lost when it is read

---
 Patro/Common/Xml/Objectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index d505a84..4ce4689 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -346,15 +346,15 @@ class TextXmlObjectAdaptator(XmlObjectAdaptator):
 
     def __init__(self, *args, **kwargs):
 
-        super().__init__(*args, **kwargs)
         self.text = kwargs.get('text', '')
+        super().__init__(*args, **kwargs)
 
     ##############################################
 
     def _init_from_xml(self, xml_element):
 
         super()._init_from_xml(xml_element)
-        self.text = str(xml_element.text)
+        self.text = xml_element.text or ''
 
     ##############################################
 
-- 
2.43.0


From a659e595c7995516c4d47e97827d1c8f0fbe519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 105/183] fix: SVG path cannot be written

---
 Patro/FileFormat/Svg/SvgFormat.py | 44 ++++++++++++++++++++++++++++++-
 Patro/GeometryEngine/Path.py      | 22 ++++++++++++++++
 2 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index deb1888..7ddfdd6 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -79,7 +79,7 @@ from Patro.Common.Xml.Objectivity import (
 )
 
 # Fixme: should we mix SVG format and ... ???
-from Patro.GeometryEngine.Path import Path2D
+from Patro.GeometryEngine.Path import ArcSegment, LinearSegment, Path2D
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from Patro.GeometryEngine.Vector import Vector2D
 
@@ -967,6 +967,9 @@ class PathDataAttribute(StringAttribute):
 
         # cls._logger.info('SVG path:\n'+ svg_path)
 
+        if isinstance(svg_path, Path2D): # Python value
+            return svg_path
+
         # Split to letters and numbers, separators (comma and white space) can be omitted
         # Convert float values
         parts = []
@@ -1012,6 +1015,9 @@ class PathDataAttribute(StringAttribute):
     @classmethod
     def to_xml(cls, value):
 
+        if isinstance(value, Path2D):
+            value = cls.to_commands(value)
+
         path_data = ''
         for command in value:
             if path_data:
@@ -1021,6 +1027,42 @@ class PathDataAttribute(StringAttribute):
 
     ##############################################
 
+    @classmethod
+    def to_commands(cls, path):
+
+        """Convert a path to a list of absolute commands, bulges are converted to circular arcs"""
+
+        def coordinates(points):
+            return [x for point in points for x in (point.x, point.y)]
+
+        def bulge(part):
+            radius = part.radius
+            sweep = int(part.prev_part.direction.cross(part.direction) > 0)
+            return ('A', [radius, radius, 0, 0, sweep] + coordinates([part.bulge_stop_point]))
+
+        parts = list(path)
+        start_point = parts[0].points[0] if parts else path.p0
+        commands = [('M', coordinates([start_point]))]
+        for part in parts:
+            if isinstance(part, ArcSegment):
+                flags = [part.radius_x, part.radius_y, part.angle, int(part.large_arc), int(part.sweep)]
+                commands.append(('A', flags + coordinates([part.stop_point])))
+                continue
+            points = part.points
+            if isinstance(part, LinearSegment) and part.radius and part is not parts[0]:
+                commands.append(bulge(part))
+            commands.append(({2: 'L', 3: 'Q', 4: 'C'}[len(points)], coordinates(points[1:])))
+        if path.is_closed:
+            if isinstance(parts[0], LinearSegment) and parts[0].radius:
+                commands.append(bulge(parts[0]))
+            else:
+                del commands[-1] # Z draws the closing line
+            commands.append(('Z', []))
+
+        return commands
+
+    ##############################################
+
     @classmethod
     def as_vector(cls, args):
 
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index e864064..29ab940 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -926,6 +926,28 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    @property
+    def radius_x(self):
+        return self._radius_x
+
+    @property
+    def radius_y(self):
+        return self._radius_y
+
+    @property
+    def angle(self):
+        return self._angle
+
+    @property
+    def large_arc(self):
+        return self._large_arc
+
+    @property
+    def sweep(self):
+        return self._sweep
+
+    ##############################################
+
     @property
     def geometry(self):
         return Ellipse2D.svg_arc(
-- 
2.43.0


From 7eebe8c8f276e516db5049a877fccb2a8da5a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 106/183] fix: Bezier curves are not written in SVG

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 8eeb761..83d3324 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -139,5 +139,5 @@ class SvgPainter(Painter):
             fill='none',
             **self._graphic_style(item),
         )
-        #!# self._append(path)
+        self._append(path)
 
-- 
2.43.0


From d408009d657b0ca5a7728ab2c9022c7e3de368a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:05 +0000
Subject: [PATCH 107/183] fix: circles are written as texts in SVG

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 83d3324..6166fb5 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -114,7 +114,7 @@ class SvgPainter(Painter):
 
     def paint_CircleItem(self, item):
         x, y = self.cast_position(item.position)
-        circle = SvgFormat.Text(cx=x, cy=y, r=2, fill='black', _class='normal')
+        circle = SvgFormat.Circle(cx=x, cy=y, r=2, fill='black')
         self._append(circle)
 
     ##############################################
-- 
2.43.0


From 3899cf2dba5d76171a79cd793e57b3b1f5b234f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:07 +0000
Subject: [PATCH 108/183] fix: position of the drawing on a SVG page

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 6166fb5..ad2dbfd 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -66,8 +66,9 @@ class SvgPainter(Painter):
         self._paper = paper
 
         bounding_box = scene.bounding_box
-        self._transformation = AffineTransformation2D.Scale(10, -10)
-        self._transformation *= AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        # move the top left corner to the origin, then convert from cm to mm
+        self._transformation = AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation *= AffineTransformation2D.Scale(10, -10)
 
         self._tree = []
         self._append(SvgFormat.Style(text='''
-- 
2.43.0


From 562470d94991f8d016ea8c1ea8cdbc8bd98d8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:08 +0000
Subject: [PATCH 109/183] fix: tile position

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 66b6d34..26b5158 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -66,7 +66,7 @@ class Tiler:
 
         for r in range(number_of_rows):
             for c in range(number_of_columns):
-                local_min_point = min_point + area_vector * Vector2D(r, c)
+                local_min_point = min_point + Vector2D(area_vector.x * c, area_vector.y * r)
                 local_max_point = local_min_point + area_vector
                 interval = Interval2D((local_min_point.x, local_max_point.x), (local_min_point.y, local_max_point.y))
                 yield (interval, r, c)
-- 
2.43.0


From 4fa9943cb9ac0e3367e1c0b05e971b3d6ba59de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 110/183] fix: tiler enlarges the bounding box of the scene

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 26b5158..db484f1 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -42,7 +42,7 @@ class Tiler:
 
     def __init__(self, bounding_box, paper, margin=1):
         # print('Tiler', bounding_box)
-        self._bounding_box = bounding_box.enlarge(margin)
+        self._bounding_box = bounding_box.clone().enlarge(margin)
         self._paper = paper
 
     ##############################################
-- 
2.43.0


From de3d54b3a082771fac36110fccb3a68494025edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:43 +0000
Subject: [PATCH 111/183] fix: center and radius of a DXF polyline bulge on the
 left side

---
 Patro/FileFormat/Dxf/Polyline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 0e6a928..4907c59 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -20,7 +20,6 @@
 
 ####################################################################################################
 
-from Patro.Common.Math.Functions import sign
 from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
@@ -130,7 +129,7 @@ class PolylineVertex:
         if self._bulge == 0:
             return 0
         else:
-            return self.demi_chord/2 * (self._bulge + 1/self._bulge)
+            return self.demi_chord/2 * abs(self._bulge + 1/self._bulge)
 
     ##############################################
 
@@ -212,7 +211,8 @@ class Polyline:
                 normal = direction.normal
                 # offset = vertex1.bulge_radius - vertex1.sagitta
                 offset = vertex1.sagitta_dual
-                center = segment_center + normal * sign(vertex1.bulge) * offset
+                # offset has the sign of the bulge for a minor arc
+                center = segment_center + normal * offset
                 arc = Circle2D(center, vertex1.bulge_radius)
                 start_angle, stop_angle = [arc.angle_for_point(vertex.point) for vertex in (vertex1, vertex2)]
                 if start_angle < 0:
-- 
2.43.0


From 3463d38df5462dace7175976a36c96539603829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:45 +0000
Subject: [PATCH 112/183] fix: DXF polyline cannot be printed

---
 Patro/FileFormat/Dxf/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 4907c59..722b4bd 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -188,7 +188,7 @@ class Polyline:
     ##############################################
 
     def __str__(self):
-        return ' '.join(['{:5.2f}'.format(vertex) for vertex in self])
+        return ' '.join([str(vertex) for vertex in self])
 
     ##############################################
 
-- 
2.43.0


From 4c6eaf3def0c2c1d1dd6aaab034a20fb3d74a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 113/183] fix: DXF importer does not work with ezdxf 1.x

---
 Patro/FileFormat/Dxf/Importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 53d192a..8b684bb 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -69,7 +69,8 @@ class DxfImporter:
 
     @staticmethod
     def _to_vector(point):
-        return Vector2D(point[:2])
+        x, y, *_ = point
+        return Vector2D(x, y)
 
     @classmethod
     def _to_vectors(cls, points):
@@ -156,8 +157,7 @@ class DxfImporter:
 
     def _on_spline(self, item):
 
-        with item.edit_data() as data:
-            points = self._to_vectors(data.control_points)
+        points = self._to_vectors(item.control_points)
         item_dxf = item.dxf
         spline = BSpline2D(points, item_dxf.degree, item.closed)
         self._add(spline)
-- 
2.43.0


From bf9a60bcb03c6c23de23db41b4f09ca1dce1090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 114/183] fix: angular domain of a DXF ellipse whose major axis
 is vertical

---
 Patro/FileFormat/Dxf/Importer.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 8b684bb..3db3e0f 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -131,10 +131,6 @@ class DxfImporter:
         domain = AngularDomain(item_dxf.start_param, item_dxf.end_param, degrees=False)
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
-        if angle == 90:
-            radius_x, radius_y = radius_y, radius_x
-            angle = 0
-        # Fixme: ...
         ellipse = Ellipse2D(
             center,
             radius_x, radius_y,
-- 
2.43.0


From bec1ba20e489497591cc3d5640fb366f28aef9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:19 +0000
Subject: [PATCH 115/183] fix: representation of an ellipse

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index b93c4a1..7c9b77f 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -521,7 +521,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def __repr__(self):
-        return '{0}({1._center}, {1._radius_x}, {1._radius_x}, {1._angle})'.format(self.__class__.__name__, self)
+        return '{0}({1._center}, {1._radius_x}, {1._radius_y}, {1._angle})'.format(self.__class__.__name__, self)
 
     ##############################################
 
-- 
2.43.0


From e64fa6736ece9d60633381574f72f2d1cbf40477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 116/183] fix: representation of a path

---
 Patro/GeometryEngine/Path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 29ab940..9510b46 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -996,6 +996,11 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def __repr__(self):
+        return '{0}({1._p0}, {1._parts})'.format(self.__class__.__name__, self)
+
+    ##############################################
+
     def __len__(self):
         return len(self._parts)
 
-- 
2.43.0


From 50988c264080bb33d89e5fa027e1309a476ac922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:06 +0000
Subject: [PATCH 117/183] fix: SVG arc between identical points

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 7c9b77f..c7e3cf5 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -415,8 +415,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         """
 
-        # Ensure radii are non-zero
-        if radius_x == 0 or radius_y == 0:
+        # Ensure radii are non-zero and points are distinct
+        if radius_x == 0 or radius_y == 0 or point1 == point2:
             return Segment2D(point1, point2)
 
         # Ensure radii are positive
-- 
2.43.0


From e1b49dec83bb1228e9aecff2e0096810836da4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:33 +0000
Subject: [PATCH 118/183] fix: return the double root of a normalised cubic

---
 Patro/Common/Math/Root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 330f54e..8f5c094 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -164,7 +164,10 @@ def cubic_root_normalised(a, b, c):
             e = 0
         else:
             e = q/d
-        return [d + e - a/3]
+        roots = [d + e - a/3]
+        if d != 0 and r2 == q3: # double root
+            roots.append(-d - a/3)
+        return roots
 
 ####################################################################################################
 
-- 
2.43.0


From 01adbd64ce3c4f41c746637b14ad62a7520c4376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 119/183] fix: import the Valentina measurements

---
 Patro/Measurement/ValentinaMeasurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index acf406f..4557f3c 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -22,7 +22,7 @@
 
 import logging
 
-from .Measurement import Measurement, Measurements
+from .Measurement import Measurement, MeasurementSet
 from .ValentinaStandardMeasurement import ValentinaStandardMeasurement
 
 ####################################################################################################
@@ -81,7 +81,7 @@ class ValentinaMeasurement(Measurement):
 
 ####################################################################################################
 
-class ValentinaMeasurements(Measurements):
+class ValentinaMeasurements(MeasurementSet):
 
     """Class to store a set of Valentina measurements"""
 
-- 
2.43.0


From eecd42dbfc36c680d17a535d884007ff8ff95fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 120/183] fix: read the Valentina measurement files with a
 family and a given name

---
 Patro/FileFormat/Valentina/Measurement.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 3a26a19..442a317 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -96,13 +96,15 @@ class VitFileInternal(XmlFileMixin):
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
-        # replace last_name first_name
-        personal.customer = self.get_xpath_element(personal_element, 'customer').text
-        # personal.last_name = self.get_xpath_element(personal_element, 'family-name').text
-        # personal.first_name = self.get_xpath_element(personal_element, 'given-name').text
+        # customer replaces family-name and given-name in the recent versions
+        personal.customer = self.get_text_element(personal_element, 'customer')
+        for attribute, tag in (('last_name', 'family-name'), ('first_name', 'given-name')):
+            text = self.get_text_element(personal_element, tag)
+            if text is not None:
+                setattr(personal, attribute, text)
         personal.birth_date = self.get_xpath_element(personal_element, 'birth-date').text
         personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]
-        personal.email = self.get_xpath_element(personal_element, 'email').text
+        personal.email = self.get_text_element(personal_element, 'email') or ''
 
         elements = self.get_xpath_element(tree, 'body-measurements')
         for element in elements:
-- 
2.43.0


From ce7d4ce02d7209eb025a9ad7e603fd474f8e0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:55 +0000
Subject: [PATCH 121/183] fix: evaluate the measurements with the full
 precision

---
 Patro/Measurement/Measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index c279842..52bd395 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -117,7 +117,7 @@ class Measurement:
     @property
     def value(self) -> float:
         if self._value is None:
-            self._value = float(self.evaluated_expression.evalf(3))   # ensure a float or raise
+            self._value = float(self.evaluated_expression.evalf())   # ensure a float or raise
         return self._value
 
     def __float__(self) -> float:
-- 
2.43.0


From 9966475243bde309bdbe0bf5d891158ca6768b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:56 +0000
Subject: [PATCH 122/183] fix: evaluate a measurement whatever the names and
 the order of the measurements it depends on

---
 Patro/Measurement/Measurement.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 52bd395..22f5ebc 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -111,7 +111,10 @@ class Measurement:
             # https://docs.sympy.org/latest/modules/core.html?highlight=subs#sympy.core.basic.Basic.subs
             # variable order doesn't matter, sympy do the job
             # self._evaluated_expression = self._expression.subs(self._measurements._expressions)
-            self._evaluated_expression = self._measurements.subs(self)
+            evaluated_expression = self._measurements.subs(self)
+            if evaluated_expression.free_symbols: # some measurements are not yet defined
+                return evaluated_expression
+            self._evaluated_expression = evaluated_expression
         return self._evaluated_expression
 
     @property
@@ -207,7 +210,13 @@ class MeasurementSet:
     ##############################################
 
     def subs(self, measurement: Measurement) -> sympy.core.expr.Expr:
-        return measurement.expression.subs(self._expressions)
+        # subs replaces the symbols one after the other, thus replace them by their final expression
+        expression = measurement.expression
+        return expression.subs({
+            symbol: self._measurements[symbol.name].evaluated_expression
+            for symbol in expression.free_symbols
+            if symbol.name in self._measurements
+        })
 
     ##############################################
 
-- 
2.43.0


From 87696e1ad11416b5019c60c259ecc7cdb24277ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 123/183] fix: encoding of the measurement files

---
 Patro/Measurement/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 22f5ebc..ce138e1 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -243,14 +243,14 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='uft8') as fh:
+        with open(yaml_path, 'w', encoding='utf8') as fh:
             yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
             fh.write(yaml_string)
 
     ##############################################
 
     def load_yaml(self, yaml_path: str | Path) -> None:
-        with open(yaml_path, 'r', encoding='uft8') as fh:
+        with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
             for name, data in measurements.items():
                 if len(data) > 1:
-- 
2.43.0


From 676264a96ec98571996343bdb02e77dad3ecff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:17 +0000
Subject: [PATCH 124/183] fix: replace all the custom measurements of an
 expression

---
 Patro/Pattern/Calculator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index c451853..7bc5351 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -274,9 +274,10 @@ class Expression:
                     break
                 else:
                     custom_measurements.append(name)
-            for measurement in custom_measurements:
+            # longest first, since a name can be the beginning of another one
+            for measurement in sorted(set(custom_measurements), key=len, reverse=True):
                 py_name = self._calculator.measurements[measurement].name
-                expression = self.expression.replace(measurement, py_name)
+                expression = expression.replace(measurement, py_name)
 
         # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
         functions = []
-- 
2.43.0


From a8300e4dbc194a231761dc20154d4fcbb991d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:19 +0000
Subject: [PATCH 125/183] fix: replace the calls of an expression whose names
 start or end in the same way

---
 Patro/Pattern/Calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 7bc5351..5e2f8d4 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -299,7 +299,8 @@ class Expression:
                 else:
                     functions.append(name)
         # self._logger.debug('Functions ' + str(functions))
-        for function_call in functions:
+        # longest first, since a call can be the beginning or the end of another one
+        for function_call in sorted(set(functions), key=len, reverse=True):
             parts = function_call.split('_')
             function = parts[0]
             args = parts[1:]
-- 
2.43.0


From e41651ce1e066d40447a6976d480a59e630af456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:20 +0000
Subject: [PATCH 126/183] fix: the dependencies of an expression include the
 points of all its calls

---
 Patro/Pattern/Calculator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 5e2f8d4..4197aac 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -67,8 +67,7 @@ class NodeVisitor(ast.NodeVisitor):
 
         function = node.func
         if isinstance(function, ast.Attribute) and function.value.id == '__calculator__':
-            dag = self._calculator.dag
-            if function.attr == '_function_Line': # catched _function_Line.__calculator__
+            if function.attr.startswith('_function_'): # catched _function_Line.__calculator__
                 for arg in node.args:
                     dependence = self._calculator._name_to_point(arg.s)
                     self._dependencies.append(dependence)
-- 
2.43.0


From a37455559bb369caa25f58d23fb1c2fc1966e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:56 +0000
Subject: [PATCH 127/183] fix: Python code of the operations with a line style

---
 Patro/Pattern/SketchOperation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a13e051..ef1884f 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -35,7 +35,7 @@ from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
-from Patro.GraphicStyle import StrokeStyle, Colors
+from Patro.GraphicStyle import StrokeStyle, Color, Colors
 from .Calculator import Expression
 
 # Rename id buitin
@@ -170,6 +170,10 @@ class SketchOperation(ObjectGlobalIdMixin):
                     value_str = quote(value)
             elif isinstance(value, Vector2D):
                 value_str = 'Vector2D({0.x}, {0.y})'.format(value)
+            elif isinstance(value, StrokeStyle):
+                value_str = str(value)
+            elif isinstance(value, Color):
+                value_str = quote(value)
             else:
                 value_str = ''
             values.append(value_str)
-- 
2.43.0


From bfc5e1e16e16f10610b19d0114a9dc9831d7005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:58 +0000
Subject: [PATCH 128/183] fix: set the unit and the system of the Valentina
 measurements

---
 Patro/FileFormat/Valentina/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 442a317..036e2a3 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -91,8 +91,8 @@ class VitFileInternal(XmlFileMixin):
         version = self.get_xpath_element(tree, 'version').text
         # self.read_only = self.get_xpath_element(tree, 'read-only').text
         # self.notes = self.get_xpath_element(tree, 'notes').text
-        self.unit = self.get_xpath_element(tree, 'unit').text
-        self.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
+        measurements.unit = self.get_xpath_element(tree, 'unit').text
+        measurements.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
-- 
2.43.0


From 97b229826d88a5f277592ba3d675016dfad98bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:19 +0000
Subject: [PATCH 129/183] fix: identify the operations by pattern so as to load
 several patterns

---
 Patro/Common/Object.py           | 10 ++++++----
 Patro/Pattern/Pattern.py         | 10 ++++++++++
 Patro/Pattern/SketchOperation.py |  2 +-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/Patro/Common/Object.py b/Patro/Common/Object.py
index 0502548..c75c56b 100644
--- a/Patro/Common/Object.py
+++ b/Patro/Common/Object.py
@@ -68,14 +68,16 @@ class ObjectGlobalIdMixin:
 
     ##############################################
 
-    def __init__(self, id=None):
+    def __init__(self, id=None, counter=None):
 
-        # Note: sub-classes share the same counter !
+        # Note: sub-classes share the same counter, except if one is given !
+        if counter is None:
+            counter = ObjectGlobalIdMixin.__object_counter__
         if id is not None:
-            ObjectGlobalIdMixin.__object_counter__.set(id)
+            counter.set(id)
             self._id = id
         else:
-            self._id = ObjectGlobalIdMixin.__object_counter__.increment()
+            self._id = counter.increment()
 
     ##############################################
 
diff --git a/Patro/Pattern/Pattern.py b/Patro/Pattern/Pattern.py
index fb7763d..e4edc41 100644
--- a/Patro/Pattern/Pattern.py
+++ b/Patro/Pattern/Pattern.py
@@ -25,6 +25,7 @@
 
 import logging
 
+from Patro.Common.AtomicCounter import AtomicCounter
 from Patro.Common.Object import ObjectNameMixin
 from .Sketch import Sketch
 
@@ -47,6 +48,7 @@ class Pattern:
         self._measurements = measurements
         self._unit = unit
 
+        self._operation_counter = AtomicCounter(-1) # the id of an operation is unique in its pattern
         self._scopes = [] # not a dict so as to don't manage renaming
 
     ##############################################
@@ -59,6 +61,10 @@ class Pattern:
     def unit(self):
         return self._unit
 
+    @property
+    def operation_counter(self):
+        return self._operation_counter
+
     ##############################################
 
     @property
@@ -124,6 +130,10 @@ class PatternScope(ObjectNameMixin):
     def unit(self):
         return self._pattern._unit
 
+    @property
+    def operation_counter(self):
+        return self._pattern.operation_counter
+
     @property
     def sketch(self):
         return self._sketch
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index ef1884f..db053c4 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -81,7 +81,7 @@ class SketchOperation(ObjectGlobalIdMixin):
         # id is used to identify operation, see _get_operation
         # A calculation which generate a point has also a name
         try:
-            super().__init__(id)
+            super().__init__(id, sketch.pattern.operation_counter)
         except ValueError:
             raise NameError("id {} is already attributed".format(id))
 
-- 
2.43.0


From 5f058996275eb0f0b979838b84df7df8948fa73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:41 +0000
Subject: [PATCH 130/183] fix: point of contact of a tangent line

---
 Patro/Pattern/SketchOperation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index db053c4..d3e8a61 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -643,6 +643,8 @@ class PointOfContact(Point, FirstSecondPointMixin, CenterRadiusMixin):
         segment = Segment2D(self._first_point.vector, self._second_point.vector)
         circle = Circle2D(self._center.vector, self._radius.value)
         points = circle.intersect_segment(segment)
+        if isinstance(points, Vector2D): # tangent
+            points = (points,)
          # Fixme: multi-points ???
         if not points:
             self._logger.warning('line-circle intersection is null')
-- 
2.43.0


From 3a7a67f9ac33040147af36b9c83fa2244ce7f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:13 +0000
Subject: [PATCH 131/183] fix: AtomicCounter.increment returns the value that
 it gave, not the one of a later thread

---
 Patro/Common/AtomicCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 98afe7b..247e44d 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -52,7 +52,7 @@ class AtomicCounter:
         """
         with self._lock:
             self._value += value
-        return self._value
+            return self._value
 
     ##############################################
 
-- 
2.43.0


From b805eba2e110fc7be1357e313db0fe1b81b9579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:14 +0000
Subject: [PATCH 132/183] fix: ancestor property of the nodes of a DAG

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index f0944b4..d9bb62e 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -59,7 +59,7 @@ class DirectedAcyclicGraphNode:
 
     @property
     def ancestor(self):
-        return self._ancestor
+        return self._ancestors
 
     @property
     def descendants(self):
-- 
2.43.0


From ae84b042f09ebf42ccf904a114f596743b10f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:15 +0000
Subject: [PATCH 133/183] fix: a monostate class can have a constructor with
 arguments

---
 Patro/Common/Singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Singleton.py b/Patro/Common/Singleton.py
index 9fa4ef1..c7cc10a 100644
--- a/Patro/Common/Singleton.py
+++ b/Patro/Common/Singleton.py
@@ -111,6 +111,6 @@ class monostate:
 
     def __new__(cls, *args, **kwargs):
         # print('monostate __new__:', cls, args, kwargs, sep='\n... ')
-        obj = super(monostate, cls).__new__(cls, *args, **kwargs)
+        obj = super(monostate, cls).__new__(cls)
         obj.__dict__ = cls._shared_state
         return obj
-- 
2.43.0


From 263ddde7d3076d9785f7f385dc8aba03df878a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:16 +0000
Subject: [PATCH 134/183] fix: the copy of a colour keeps its exact components

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 3f95601..68561d1 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -63,7 +63,7 @@ class Color:
         number_of_args = len(args)
         if number_of_args == 1:
             color = args[0]
-            if isinstance(str, Color):
+            if isinstance(color, Color):
                 self._red = color.red_float
                 self._green = color.green_float
                 self._blue = color.blue_float
-- 
2.43.0


From 449a673f7a9e6fad16b793e979a2091c47a4e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:17 +0000
Subject: [PATCH 135/183] fix: the integer components of a colour are the
 nearest integers

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 68561d1..e74678d 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -116,7 +116,7 @@ class Color:
 
     @staticmethod
     def _to_int(x: float) -> int:
-        return int(x*255)
+        return round(x*255)
 
     @staticmethod
     def _to_float(x: int) -> float:
-- 
2.43.0


From cd137421a1e9bfee4cde1266dd6edde17c365a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 136/183] fix: colours in the short form #rgb, and colours with
 a wrong number of digits

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index e74678d..a840b19 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -72,7 +72,13 @@ class Color:
                 if not rgb.startswith('#'):
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
-                red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
+                if len(rgb) == 3:
+                    # short form: each digit is repeated
+                    red, green, blue = [x*2 for x in rgb]
+                elif len(rgb) == 6:
+                    red, green, blue = rgb[:2], rgb[2:4], rgb[4:]
+                else:
+                    raise ValueError(f'Invalid color #{rgb}')
                 self._red, self._green, self._blue = [self._to_float(int(x, 16))
                                                       for x in (red, green, blue)]
         elif number_of_args == 3:
-- 
2.43.0


From f22ae90f9b7f579c2b2b0f93c0dc7103405bed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:19 +0000
Subject: [PATCH 137/183] fix: an unknown attribute of the colour database is
 an AttributeError

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index a840b19..be16f32 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -245,7 +245,10 @@ class ColorDataBase:
         return self._colors[str(name)]
 
     def __getattr__(self, name: str) -> Color:
-        return self._colors[name]
+        try:
+            return self.__dict__['_colors'][name]
+        except KeyError:
+            raise AttributeError(f'Unknown color {name}') from None
 
     ##############################################
 
-- 
2.43.0


From 24f2d6cb593a73e35175522490b2d61b87744716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:20 +0000
Subject: [PATCH 138/183] fix: GraphicPathStyle.clone keeps the transparency,
 cap and join styles

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index c06a0a8..4154239 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -86,7 +86,11 @@ class GraphicPathStyle:
             'stroke_style',
             'line_width',
             'stroke_color',
+            'stroke_alpha',
             'fill_color',
+            'fill_alpha',
+            'cap_style',
+            'join_style',
         )
 
     ##############################################
-- 
2.43.0


From 6f7fc397fedb79d00c604bfdddb70f655489e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 139/183] fix: GraphicBezierStyle.clone keeps the attributes of
 the path style

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index 4154239..de1d1d4 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -207,7 +207,7 @@ class GraphicBezierStyle(GraphicPathStyle):
     ##############################################
 
     def _dict_keys(self) -> list:
-        return (
+        return super()._dict_keys() + (
             'show_control',
             'control_color',
         )
-- 
2.43.0


From aa501110fc596e3f72cb6c2a5e97538480d9dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:23 +0000
Subject: [PATCH 140/183] fix: MmUnit.to_inch

---
 Patro/GraphicEngine/GraphicScene/TypographyUnit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index 5219859..a43cea9 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -65,7 +65,7 @@ class MmUnit(TypographyUnit):
         return self
 
     def to_inch(self) -> 'InchUnit':
-        return InchUnit(self._value * self.MM_2_POINT)
+        return InchUnit(self._value * self.MM_2_INCH)
 
     def to_point(self) -> 'PointUnit':
         return PointUnit(self._value * self.MM_2_POINT)
-- 
2.43.0


From 8e82ce1206a6b2e46158f2506dc353fee346c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 141/183] fix: conversion between inches and points

---
 Patro/GraphicEngine/GraphicScene/TypographyUnit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index a43cea9..ddde23f 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -37,14 +37,14 @@ __all__ = [
 class TypographyUnit:
 
     INCH_2_MM        = 25.4    # 1 inch = 25.4 mm
-    POINT_2_INCH     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
+    INCH_2_POINT     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
     TEX_POINT_2_INCH = 72.27   # TeX pt
     PICA_2_POINT     = 12      # 1 pica = 12 point
 
-    POINT_2_MM    = INCH_2_MM / POINT_2_INCH
+    POINT_2_MM    = INCH_2_MM / INCH_2_POINT
 
     MM_2_INCH     = 1 / INCH_2_MM
-    INCH_2_POINT  = 1 / POINT_2_INCH
+    POINT_2_INCH  = 1 / INCH_2_POINT
     MM_2_POINT    = 1 / POINT_2_MM
 
     ##############################################
-- 
2.43.0


From 2fc6b4e3310c49c4622a9a641555eee8a46c5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:25 +0000
Subject: [PATCH 142/183] fix: den2tex and nm2tex

---
 Patro/TextileTechnology/Yarn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index b77e202..ae17342 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -30,13 +30,13 @@ def tex2den(x):
     return x*9
 
 def den2tex(x):
-    return x*10/9
+    return x/9
 
 def tex2nm(x):
     return 1000/x
 
 def nm2tex(x):
-    return 1000*x
+    return 1000/x
 
 ####################################################################################################
 
-- 
2.43.0


From 804ae2d1a11e6d3ac72bda6a1b38c2f01f08a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:42 +0000
Subject: [PATCH 143/183] fix: a yarn without twist type

---
 Patro/TextileTechnology/Yarn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index ae17342..2e32f37 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -66,7 +66,7 @@ class Yarn:
         self._fiber = str(fiber) # composition ?
         self._color = color # Fixme: multicolor ? data type ?
         self._tex = float(tex) # g/km
-        self._twist_type = TwistType(twist_type)
+        self._twist_type = TwistType(twist_type) if twist_type is not None else None
 
     ##############################################
 
-- 
2.43.0


From dc7811800d229269f9809cae600b374b080fb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:44 +0000
Subject: [PATCH 144/183] fix: shrinkage of a fabric

---
 Patro/TextileTechnology/Fabric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Fabric.py b/Patro/TextileTechnology/Fabric.py
index 9f6926a..4fab543 100644
--- a/Patro/TextileTechnology/Fabric.py
+++ b/Patro/TextileTechnology/Fabric.py
@@ -100,7 +100,7 @@ class Fabric:
         self._shear = float(kwargs['shear'])
         self._fiction = float(kwargs['friction'])
         self._weight = float(kwargs['weight'])
-        self._shrinkage = FloatPair(kwargs.get('shrinkage', (0, 0)))
+        self._shrinkage = FloatPair(*kwargs.get('shrinkage', (0, 0)))
         self._pressure = float(kwargs['pressure'])
 
         # texture attributes
-- 
2.43.0


From 66162c596e89ea4522d5adb0f739421781bfba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:45 +0000
Subject: [PATCH 145/183] fix: name of a seam

---
 Patro/TextileTechnology/Seam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Seam.py b/Patro/TextileTechnology/Seam.py
index 76585aa..dbcdb62 100644
--- a/Patro/TextileTechnology/Seam.py
+++ b/Patro/TextileTechnology/Seam.py
@@ -52,4 +52,4 @@ class AstmSeam:
 
     @property
     def name(self):
-        return '{self._class}{self._type}-{self._number_of_rows}'.format(self)
+        return '{0._class}{0._type}-{0._number_of_rows}'.format(self)
-- 
2.43.0


From 3b11616bf17efc4964c3a347ec96d1dc0a4ef145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:46 +0000
Subject: [PATCH 146/183] fix: FiberDatabase.load uses the keys of its file

---
 Patro/TextileTechnology/Fiber.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index df32aec..c7231d2 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -80,12 +80,12 @@ class FiberDatabase(Database):
 
         data = super().load(yaml_path)
 
-        natural_fibers = data['Natural Fibers']
-        for name, item in natural_fibers['Plant Fibers'].items():
+        natural_fibers = data['Natural Fibres']
+        for name, item in natural_fibers['Plant Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Plant, item['source']))
-        for name, item in natural_fibers['Animal Fibers'].items():
+        for name, item in natural_fibers['Animal Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Animal, item['source']))
 
-        synthetic_fibers = data['Synthetic Fibers']
+        synthetic_fibers = data['Synthetic Fibres']
         for name, item in synthetic_fibers.items():
             self.add(Fiber(name, FiberType.Synthetic, None, None))
-- 
2.43.0


From 9f68be7e55563c929679edf84f47a8b66f430abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:47 +0000
Subject: [PATCH 147/183] fix: size of a needle

---
 Patro/TextileTechnology/SewingMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/SewingMachine.py b/Patro/TextileTechnology/SewingMachine.py
index 0f1ff8d..ea4d51b 100644
--- a/Patro/TextileTechnology/SewingMachine.py
+++ b/Patro/TextileTechnology/SewingMachine.py
@@ -138,7 +138,7 @@ class Needle:
 
     @property
     def size(self):
-        return self._size
+        return self._nm_size
 
     @property
     def multiplicity(self):
-- 
2.43.0


From 70716216be4c7cb279145f63fe2dd743e08d0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:59 +0000
Subject: [PATCH 148/183] fix: detail scene of an operation without line style

---
 Patro/Pattern/Sketch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Pattern/Sketch.py b/Patro/Pattern/Sketch.py
index c0a6d3d..b4ceac9 100644
--- a/Patro/Pattern/Sketch.py
+++ b/Patro/Pattern/Sketch.py
@@ -28,6 +28,7 @@ import logging
 from Patro.GeometryEngine.Vector import Vector2D
 from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
 from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
+from Patro.GraphicStyle import StrokeStyle
 from . import SketchOperation
 from .Calculator import Calculator
 from .SketchStyle import DetailSketchStyle
@@ -157,7 +158,8 @@ class Sketch:
         """Generate a :class:`GraphicPathStyle` instance for a operation"""
 
         return GraphicPathStyle(
-            stroke_style=operation.line_style,
+            # an operation has no line by default
+            stroke_style=operation.line_style or StrokeStyle.NoPen,
             stroke_color=operation.line_color,
             **kwargs
         )
-- 
2.43.0


From 60a75a363ebbad559e04c13767febcf7d6a12e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 149/183] fix: Python code of an operation with a colour or an
 apostrophe

---
 Patro/Pattern/SketchOperation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index d3e8a61..8141685 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -48,7 +48,7 @@ _module_logger = logging.getLogger(__name__)
 ####################################################################################################
 
 def quote(x):
-    return "'{}'".format(x)
+    return repr(str(x))
 
 ####################################################################################################
 
@@ -222,8 +222,8 @@ class LinePropertiesMixin:
     ##############################################
 
     def __init__(self, line_style, line_color):
-        self._line_color = line_color
-        self._line_style = line_style
+        self.line_color = line_color
+        self.line_style = line_style
 
     ##############################################
 
@@ -233,7 +233,7 @@ class LinePropertiesMixin:
 
     @line_color.setter
     def line_color(self, value):
-        self._line_color = value
+        self._line_color = Colors.ensure_color(value)
 
     @property
     def line_style(self):
-- 
2.43.0


From 175d0bf12e180d6945f008f5239651c7fd05896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:55 +0000
Subject: [PATCH 150/183] fix: geometry and bounding box of a path item

---
 Patro/GeometryEngine/Path.py                    |  2 ++
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 9510b46..222890c 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1082,6 +1082,8 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
     def bounding_box(self):
 
         # Fixme: cache
+        if not self._parts:
+            return self._p0.bounding_box
         bounding_box = None
         for item in self._parts:
             interval = item.geometry.bounding_box
diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 1c61c34..5ccff07 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -434,13 +434,25 @@ class PathItem(PositionMixin, PathStyleItemMixin):
     ##############################################
 
     def get_geometry(self) -> Path2D:
-        position = self.casted_position
-        return Path2D(position) # Fixme: !!!
+        cast = self._scene.cast_position
+        path = Path2D(self.casted_position)
+        for segment in self._segments:
+            positions = [cast(position) for position in segment.positions]
+            if isinstance(segment, LinearSegment):
+                path.line_to(*positions, absolute=True)
+            elif isinstance(segment, QuadraticSegment):
+                path.quadratic_to(*positions, absolute=True)
+            elif isinstance(segment, CubicSegment):
+                path.cubic_to(*positions, absolute=True)
+        if self._closed:
+            path.close()
+        return path
 
     ##############################################
 
     def _add_segment(self, segment) -> None:
         self._segments.append(segment)
+        self.dirty = True
 
     ##############################################
 
@@ -461,6 +473,7 @@ class PathItem(PositionMixin, PathStyleItemMixin):
 
     def close(self) -> None:
         self._closed = True
+        self.dirty = True
 
 ####################################################################################################
 
-- 
2.43.0


From 7e14419cec434e7c24476a4de2b99db4819bb7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 151/183] fix: spatial index when the geometry is computed
 before the update

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 3146be9..f9e1e57 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -220,7 +220,9 @@ class GraphicSceneScope:
 
     def update_rtree(self) -> None:
         for item in self._items.values():
-            if item.dirty:
+            # Note: the geometry of a dirty item can be computed before the update
+            bounding_box = self._item_bounding_box_cache.get(id(item), None)
+            if bounding_box is None or item.dirty or item.bounding_box.bounding_box != bounding_box:
                 self.update_rtree_item(item)
 
     ##############################################
-- 
2.43.0


From 144ee9eefd23c2dec77c34d6b520b11d043f638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:31 +0000
Subject: [PATCH 152/183] fix: SVG painter with invisible strokes and colours
 which are not SVG names

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index ad2dbfd..7c3bcad 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -93,7 +93,10 @@ class SvgPainter(Painter):
     def _graphic_style(self, item):
 
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        if path_syle.stroke_color is None or path_syle.stroke_style == StrokeStyle.NoPen:
+            # invisible item
+            return dict(stroke='none')
+        color = str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = str(path_syle.line_width_as_float)
 
-- 
2.43.0


From bfd2295ca56c13ca2ba57b1cac01d27bc1373e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:32 +0000
Subject: [PATCH 153/183] fix: Matplotlib painter with invisible strokes, dash
 styles and colours which are not Matplotlib names

---
 Patro/GraphicEngine/Painter/MplPainter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index 4b18830..6eada1c 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -39,12 +39,12 @@ _module_logger = logging.getLogger(__name__)
 class MplPainter(Painter):
 
     __STROKE_STYLE__ = {
-        StrokeStyle.NoPen: None,
+        StrokeStyle.NoPen: 'solid', # edge colour is none
         StrokeStyle.SolidLine: 'solid', # '-'
-        StrokeStyle.DashLine: '', # Fixme:
+        StrokeStyle.DashLine: 'dashed', # '--'
         StrokeStyle.DotLine: 'dotted', # ':'
-        StrokeStyle.DashDotLine: 'dashdot', # '--'
-        StrokeStyle.DashDotDotLine: '', # Fixme:
+        StrokeStyle.DashDotLine: 'dashdot', # '-.'
+        StrokeStyle.DashDotDotLine: 'dashdot', # Fixme: no such style
     }
 
     ##############################################
@@ -83,7 +83,10 @@ class MplPainter(Painter):
     def _add_path(self, item, vertices, codes):
         path = Path(vertices, codes)
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        if path_syle.stroke_color is None or path_syle.stroke_style == StrokeStyle.NoPen:
+            color = 'none' # invisible item
+        else:
+            color = str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = path_syle.line_width_as_float
         patch = patches.PathPatch(path, edgecolor=color, facecolor='none', linewidth=line_width, linestyle=line_style)
-- 
2.43.0


From 7bd9cfe18aea881041d899f08fe841adb973aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:33 +0000
Subject: [PATCH 154/183] fix: DXF line types which do not exist

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index d988ce8..02fa328 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -67,10 +67,10 @@ class EzdxfPainter(DxfPainterBase):
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: 'PHANTOM', # Fixme: ???
         StrokeStyle.SolidLine: 'CONTINUOUS',
-        StrokeStyle.DashLine: 'DASH', # Fixme:
-        StrokeStyle.DotLine: 'DOTTED',
+        StrokeStyle.DashLine: 'DASHED',
+        StrokeStyle.DotLine: 'DOT',
         StrokeStyle.DashDotLine: 'DASHDOT',
-        StrokeStyle.DashDotDotLine: 'DASHDOTDOT', # Fixme:
+        StrokeStyle.DashDotDotLine: 'DIVIDE', # dash dot dot
     }
 
     __COLOR__ = {
@@ -85,7 +85,7 @@ class EzdxfPainter(DxfPainterBase):
         super().__init__(path, scene, paper)
 
         self._dxf_version = dxf_version
-        self._drawing = ezdxf.new(dxf_version)
+        self._drawing = ezdxf.new(dxf_version, setup=['linetypes'])
         self._model_space= self._drawing.modelspace() # add new entities to the model space
         # self._model_space.page_setup(
         #     size=(self._paper.width, self._paper.height),
-- 
2.43.0


From 63aaafd5d892cae606a1394b0b6f15d51692ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:34 +0000
Subject: [PATCH 155/183] fix: DXF painter with a colour which is not black

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 02fa328..1f4ed30 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -74,7 +74,6 @@ class EzdxfPainter(DxfPainterBase):
     }
 
     __COLOR__ = {
-        None : None,
         'black': 0,
     }
 
@@ -112,11 +111,17 @@ class EzdxfPainter(DxfPainterBase):
         path_style = item.path_style
         if path_style.stroke_color is None:
             return {'linetype': 'PHANTOM', 'color': 2} # Fixme:
-        color = self.__COLOR__[path_style.stroke_color.name] # see also true_color color_name (AutoCAD R2004)
+        color = path_style.stroke_color
         line_type = self.__STROKE_STYLE__[path_style.stroke_style]
         # https://ezdxf.readthedocs.io/en/latest/graphic_base_class.html#GraphicEntity.dxf.lineweight
         # line_weight = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
-        return {'linetype': line_type, 'color': color} # 'lineweight':line_weight
+        style = {'linetype': line_type} # 'lineweight':line_weight
+        if color.name in self.__COLOR__:
+            style['color'] = self.__COLOR__[color.name]
+        else:
+            # AutoCAD R2004
+            style['true_color'] = ezdxf.colors.rgb2int((color.red, color.green, color.blue))
+        return style
 
     ##############################################
 
-- 
2.43.0


From 196ace4b72f02338f864403c6327be71c253b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:35 +0000
Subject: [PATCH 156/183] fix: DXF painter with a text

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 1f4ed30..16097f0 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -32,6 +32,7 @@ from .Painter import Painter
 
 try:
     import ezdxf
+    import ezdxf.enums
 except ImportError:
     ezdxf = None
 
@@ -129,7 +130,10 @@ class EzdxfPainter(DxfPainterBase):
         position = self.cast_position(item.position)
         # Fixme: anchor position
         # https://ezdxf.readthedocs.io/en/latest/tutorials/text.html
-        self._model_space.add_text(item.text).set_pos(list(position), align='CENTER')
+        self._model_space.add_text(item.text).set_placement(
+            list(position),
+            align=ezdxf.enums.TextEntityAlignment.CENTER,
+        )
 
     ##############################################
 
-- 
2.43.0


From 805ebfc2ad016b033e5226b15db2da15e7693ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:36 +0000
Subject: [PATCH 157/183] fix: PDF painter without driver

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 9c5ed7e..6b1687a 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -162,5 +162,6 @@ _driver_to_cls = {
 def PdfPainter(*args, **kwargs):
     """Wrapper to driver classes"""
     driver = kwargs.get('driver', 'reportlab')
-    del kwargs['driver']
+    if 'driver' in kwargs:
+        del kwargs['driver']
     return _driver_to_cls[driver](*args, **kwargs)
-- 
2.43.0


From 266e03b7f03c22acdc259d4532623975a930a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 158/183] fix: PDF drawing is shifted out of the page

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 6b1687a..71e30da 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -68,6 +68,8 @@ class PdfPainterBase(Painter):
 
 class ReportlabPainter(PdfPainterBase):
 
+    SCALE = .7 # Fixme:
+
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: (),
@@ -100,7 +102,7 @@ class ReportlabPainter(PdfPainterBase):
 
         bounding_box = scene.bounding_box
         # print(bounding_box, bounding_box.x.length, bounding_box.y.length)
-        self._canvas.translate(-bounding_box.x.inf*cm, -bounding_box.y.inf*cm)
+        self._canvas.translate(-bounding_box.x.inf*cm*self.SCALE, -bounding_box.y.inf*cm*self.SCALE)
         self._canvas.translate(1*cm, 1*cm) # Fixme: margin
 
         self._canvas.setFont('Times-Roman', 20)
@@ -112,7 +114,7 @@ class ReportlabPainter(PdfPainterBase):
     ##############################################
 
     def cast_position(self, position):
-        return super().cast_position(position) * cm * .7 # Fixme:
+        return super().cast_position(position) * cm * self.SCALE
 
     ##############################################
 
-- 
2.43.0


From 3cb050233138eca79e43971865430ad788f7ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:38 +0000
Subject: [PATCH 159/183] fix: TikZ style of invisible strokes, dash dot dot
 lines and colours which are not TeX names

---
 Patro/GraphicEngine/TeX/Tikz.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index af8a16a..5ef818a 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -32,6 +32,7 @@ class TikzFigure(Environment):
     __STROKE_STYLE__ = {
         StrokeStyle.DashLine: 'dash pattern=on 5mm off 5mm',
         StrokeStyle.DashDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm', # 'loosely dashdotted',
+        StrokeStyle.DashDotDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm on 2mm off 4mm',
         StrokeStyle.DotLine: 'dash pattern=on 2mm off 2mm', # 'dotted',
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: 'solid',
@@ -40,15 +41,18 @@ class TikzFigure(Environment):
     @staticmethod
     def format_path_style(path_syle):
 
+        if path_syle.stroke_color is None or path_syle.stroke_style == StrokeStyle.NoPen:
+            return 'draw=none' # invisible item
+
         stroke_style = TikzFigure.__STROKE_STYLE__[path_syle.stroke_style]
-        stroke_color = path_syle.stroke_color.name
+        color = path_syle.stroke_color
+        stroke_color = 'color={{rgb,255:red,{};green,{};blue,{}}}'.format(color.red, color.green, color.blue)
 
         styles = []
         styles.append('line width={}'.format(path_syle.line_width))
         if stroke_style is not None:
             styles.append(stroke_style)
-        if stroke_color is not None:
-            styles.append(stroke_color)
+        styles.append(stroke_color)
         return ', '.join(styles)
 
     ##############################################
-- 
2.43.0


From e2a62b434af28d05f3be7cd8c6229bdba0dd6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:39 +0000
Subject: [PATCH 160/183] fix: TeX document with a name of three characters and
 its output directory

---
 Patro/GraphicEngine/TeX/Document.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index acc8516..6b43902 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -42,7 +42,7 @@ class Document:
 
         # Fixme: Path, vs path
 
-        if (len(filename) - filename.rfind('.tex')) == 4:
+        if filename.endswith('.tex'):
             filename = filename[:-4]
 
         self._filename = filename
@@ -60,7 +60,7 @@ class Document:
 
     @property
     def output_directory(self):
-        return os.path.dirname(self._tex_filename())
+        return os.path.dirname(self.tex_filename)
 
     @property
     def pdf_filename(self):
-- 
2.43.0


From 4df0a0f33bb3d86de1ace9ce7c2d27621bd5d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:35 +0000
Subject: [PATCH 161/183] fix: TeX painter and the transformation of the scene

---
 Patro/GraphicEngine/Painter/TexPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/TexPainter.py b/Patro/GraphicEngine/Painter/TexPainter.py
index d6b4b84..ad7a422 100644
--- a/Patro/GraphicEngine/Painter/TexPainter.py
+++ b/Patro/GraphicEngine/Painter/TexPainter.py
@@ -100,7 +100,7 @@ class TexPainter(Painter):
         if isinstance(position, str):
             return '(' + position + ')'
         elif isinstance(position, Vector2D):
-            return '({0.x:.2f},{0.y:.2f})'.format(position)
+            return '({0.x:.2f},{0.y:.2f})'.format(self.cast_position(position))
 
     ##############################################
 
-- 
2.43.0


From 4a65221bcdf83032b152241b896fd245c1aab63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:34 +0000
Subject: [PATCH 162/183] fix: viewport area with a numpy without np.float

---
 Patro/GraphicEngine/Painter/QtPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 989c75f..7ea997d 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -504,7 +504,7 @@ class ViewportArea:
     def _to_np_array(cls, *args):
         if len(args) == 1:
             args = args[0]
-        return np.array(args, dtype=np.float)
+        return np.array(args, dtype=float)
 
     ##############################################
 
-- 
2.43.0


From 132d576e24c578b15c53eec9894ddf15e2cc7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:35 +0000
Subject: [PATCH 163/183] fix: Qt painter with a quadratic segment in a path
 item

---
 Patro/GraphicEngine/Painter/QtPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 7ea997d..2547e52 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -442,7 +442,7 @@ class QtPainter(Painter):
                 path.lineTo(position)
             else:
                 if isinstance(segment, QuadraticSegment):
-                    method = path.quadraticTo
+                    method = path.quadTo
                 elif isinstance(segment, CubicSegment):
                     method = path.cubicTo
                 else:
-- 
2.43.0


From 1f50482888365fb7424cd3fb9ab5479748015f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:36 +0000
Subject: [PATCH 164/183] fix: Qt painter with a closed path item

---
 Patro/GraphicEngine/Painter/QtPainter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 2547e52..e32f992 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -450,8 +450,8 @@ class QtPainter(Painter):
                 positions = [self.cast_position(position) for position in segment.positions]
                 method(*positions)
 
-        # if item.it_closed:
-        #     path.closeSubpath()
+        if item.is_closed:
+            path.closeSubpath()
 
         self._painter.drawPath(path)
 
-- 
2.43.0


From e9ad00af7bd508b35e9bcb31535e495e1b707871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:38 +0000
Subject: [PATCH 165/183] fix: Qt painter with the fill colour and invisible
 strokes

---
 Patro/GraphicEngine/Painter/QtPainter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index e32f992..04c3621 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -222,18 +222,19 @@ class QtPainter(Painter):
 
         fill_color = path_syle.fill_color
         if fill_color is not None:
-            color = QColor(str(fill_color))
-            color.setAlphaF(path_syle.fill_alpha)
-            self._painter.setBrush(color)
+            brush_color = QColor(str(fill_color))
+            brush_color.setAlphaF(path_syle.fill_alpha)
+            self._painter.setBrush(brush_color)
             # return None
         else:
             self._painter.setBrush(Qt.NoBrush)
 
         # print(item, color, line_style)
-        if color is None or line_style is StrokeStyle.NoPen:
+        if color is None or path_syle.stroke_style is StrokeStyle.NoPen:
             # invisible item
             pen = QPen(Qt.NoPen)
             # print('Warning Pen:', item, item.user_data, color, line_style)
+            self._painter.setPen(pen)
             return None
         else:
             pen = QPen(
-- 
2.43.0


From e7624cc20612528fa7e52df03b867931e6613270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:39 +0000
Subject: [PATCH 166/183] fix: Qt painter to SVG: float size and mirrored
 drawing

---
 Patro/GraphicEngine/Painter/QtPainter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 04c3621..779e9cf 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -142,8 +142,12 @@ class QtPainter(Painter):
         self._scale = scale
 
         bounding_box = self._scene.bounding_box
-        size = QSize(*[x*self._scale for x in bounding_box.size])
-        view_box = QRectF(*[x*self._scale for x in bounding_box.rect])
+        size = QSize(*[math.ceil(x*self._scale) for x in bounding_box.size])
+        # y axis points to the bottom
+        view_box = QRectF(
+            bounding_box.x.inf*self._scale, -bounding_box.y.sup*self._scale,
+            *[x*self._scale for x in bounding_box.size],
+        )
         generator.setSize(size)
         generator.setViewBox(view_box)
 
@@ -178,7 +182,7 @@ class QtPainter(Painter):
         return None
 
     def scene_to_viewport(self, position):
-        return QPointF(position.x * self._scale, position.y * self._scale)
+        return QPointF(position.x * self._scale, -position.y * self._scale)
 
         # Note: painter.scale apply to text as well
 
-- 
2.43.0


From 1caf167f0cec9f9d0af449a8a92c4a919b497d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 167/183] fix: Qt painter with a rotated ellipse

---
 Patro/GraphicEngine/Painter/QtPainter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 779e9cf..d27c2ed 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -346,8 +346,11 @@ class QtPainter(Painter):
 
         pen = self._set_pen(item)
 
-        # Fixme: angle !!!
-        self._paint_arc(item, center, radius_x, radius_y)
+        self._painter.save()
+        self._painter.translate(center)
+        self._painter.rotate(-item.angle) # y axis points to the bottom
+        self._paint_arc(item, QPointF(0, 0), radius_x, radius_y)
+        self._painter.restore()
 
     ##############################################
 
-- 
2.43.0


From 2e81164551fcb24829af2012b240c9bbd3e895f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:01 +0000
Subject: [PATCH 168/183] fix: write the Valentina points without line style

---
 Patro/FileFormat/Valentina/VitFormat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 111c852..6acd7e0 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -122,6 +122,8 @@ class StrokeStyleAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
+        if value is None: # an operation has no line by default
+            return None
         return cls.__STROKE_STYLE__[value]
 
     ##############################################
-- 
2.43.0


From 18ceaf9f8da00e9c95a2fc763174c397f734daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:02 +0000
Subject: [PATCH 169/183] fix: keep the line style of the splines in Valentina
 files

---
 Patro/FileFormat/Valentina/VitFormat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 6acd7e0..860414c 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -634,7 +634,7 @@ class SplineMixin(CalculationTypeMixin):
 class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
 
     # <spline id="53" angle2="138.403" length2="14.0301" angle1="329.987" length1="18.2062"
-    # point4="52" type="simpleInteractive" point1="51" color="blue"/>
+    # point4="52" type="simpleInteractive" point1="51" color="blue" penStyle="hair"/>
 
     __type__ = 'simpleInteractive'
     __attributes__ = (
@@ -645,6 +645,7 @@ class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
         StringAttribute('angle1'),
         StringAttribute('angle2'),
         StringAttribute('line_color', 'color'),
+        StrokeStyleAttribute('line_style', 'penStyle', StrokeStyle.SolidLine),
     )
     __operation__ = SketchOperation.SimpleInteractiveSpline
 
-- 
2.43.0


From 2dee442d0566ef4d13b0d190facf394873012d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:04 +0000
Subject: [PATCH 170/183] fix: skip the elliptical arcs of Valentina files

---
 Patro/FileFormat/Valentina/Pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 1cd2fef..2b6c88a 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -103,6 +103,7 @@ class CalculationDispatcher(Dispatcher):
 
     __TAGS__ = {
         'arc': None,
+        'elArc': None,
         'ellipse': None,
         'line': Line,
         'operation': None,
-- 
2.43.0


From 74931546cc3543f2cf0e133c62c0f8a053a9e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:05 +0000
Subject: [PATCH 171/183] fix: accept unique ids of operations in any order

---
 Patro/Pattern/Pattern.py         |  9 +++++++++
 Patro/Pattern/SketchOperation.py | 11 ++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/Patro/Pattern/Pattern.py b/Patro/Pattern/Pattern.py
index e4edc41..76df818 100644
--- a/Patro/Pattern/Pattern.py
+++ b/Patro/Pattern/Pattern.py
@@ -49,6 +49,7 @@ class Pattern:
         self._unit = unit
 
         self._operation_counter = AtomicCounter(-1) # the id of an operation is unique in its pattern
+        self._operation_ids = set() # the ids are not sorted when operations were inserted
         self._scopes = [] # not a dict so as to don't manage renaming
 
     ##############################################
@@ -65,6 +66,10 @@ class Pattern:
     def operation_counter(self):
         return self._operation_counter
 
+    @property
+    def operation_ids(self):
+        return self._operation_ids
+
     ##############################################
 
     @property
@@ -134,6 +139,10 @@ class PatternScope(ObjectNameMixin):
     def operation_counter(self):
         return self._pattern.operation_counter
 
+    @property
+    def operation_ids(self):
+        return self._pattern.operation_ids
+
     @property
     def sketch(self):
         return self._sketch
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index 8141685..ac50def 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -80,10 +80,15 @@ class SketchOperation(ObjectGlobalIdMixin):
         # Valentina set an incremental integer id for each calculation (entity)
         # id is used to identify operation, see _get_operation
         # A calculation which generate a point has also a name
-        try:
-            super().__init__(id, sketch.pattern.operation_counter)
-        except ValueError:
+        counter = sketch.pattern.operation_counter
+        operation_ids = sketch.pattern.operation_ids
+        if id in operation_ids:
             raise NameError("id {} is already attributed".format(id))
+        if id is not None and id <= int(counter):
+            self._id = id # a free id
+        else:
+            super().__init__(id, counter)
+        operation_ids.add(self._id)
 
         self._dag_node = self._dag.add_node(pyid(self), data=self)
         self._dependencies = set()
-- 
2.43.0


From 316011e18745866abd04d823d0315056f576b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:15 +0000
Subject: [PATCH 172/183] fix: arrow head with an axial offset

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 56b2783..811e9c2 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -160,7 +160,7 @@ class TriangularHeadMixin(ArrowHead):
 
     @property
     def offseted_back_tip_point(self):
-        return self.back_tip_point - self._direction * self._self._axial_offset
+        return self.back_tip_point - self._direction * self._axial_offset
 
     @property
     def left_point(self):
-- 
2.43.0


From e07889d8d9a6c470e5264e15f151dc8115b8781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:16 +0000
Subject: [PATCH 173/183] fix: arrow head with only one side

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 811e9c2..0c875f9 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -98,8 +98,8 @@ class TriangularHeadMixin(ArrowHead):
         self._right_side = bool(right_side)
 
         # Fixme: check length width ???
-        if not(self._left_side and self._right_side):
-            return ValueError('Any side')
+        if not(self._left_side or self._right_side):
+            raise ValueError('Any side')
 
         self._back_tip_point = None
 
-- 
2.43.0


From 92c04576f0d0da1cb545d2d220e51450363297ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:08 +0000
Subject: [PATCH 174/183] fix: sides of a curvy arrow head are symmetric

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 0c875f9..286f846 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -270,7 +270,7 @@ class TriangularCurvyHead(TriangularHeadMixin, Path2D):
     def right_curved_point(self):
         if self._right_side:
             direction = self.right_point - self.tip_point
-            return (self.right_point + self.tip_point) / 2 - direction.normal * self._curve_depth
+            return (self.right_point + self.tip_point) / 2 + direction.normal * self._curve_depth
         else:
             return None
 
-- 
2.43.0


From ba7a76f1863e25aaee138f033fa4e91316926711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:28 +0000
Subject: [PATCH 175/183] =?UTF-8?q?fix:=20compute=20the=20cubic=20points?=
 =?UTF-8?q?=20of=20a=20quadratic=20B=C3=A9zier=20item=20again=20when=20the?=
 =?UTF-8?q?=20item=20changed?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 5ccff07..249ba26 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -392,10 +392,8 @@ class QuadraticBezierItem(ThreePositionMixin, PathStyleItemMixin):
 
     @property
     def cubic_positions(self) -> None:
-        if not(hasattr(self, '_cubic_points')):
-            cubic = self.geometry.to_cubic()
-            self._cubic_points = list(cubic.points)
-        return self._cubic_points
+        # Note: must follow the geometry, don't cache
+        return list(self.geometry.to_cubic().points)
 
 ####################################################################################################
 
-- 
2.43.0


From f58395344e03a7cefde5538979c7cc331f56ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:30 +0000
Subject: [PATCH 176/183] =?UTF-8?q?fix:=20don't=20apply=20twice=20the=20sc?=
 =?UTF-8?q?ene=20transformation=20to=20quadratic=20B=C3=A9zier=20items=20i?=
 =?UTF-8?q?n=20the=20Qt=20painter?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index d27c2ed..d621087 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -387,7 +387,8 @@ class QtPainter(Painter):
 
     def paint_QuadraticBezierItem(self, item):
 
-        vertices = [self.cast_position(position) for position in item.cubic_positions]
+        # cubic positions are already casted
+        vertices = [self.scene_to_viewport(position) for position in item.cubic_positions]
         self._paint_cubic(item, vertices)
 
     ##############################################
-- 
2.43.0


From 5abaaf4011eb49c79fbb2d0ec9ec30a258f2e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:30 +0000
Subject: [PATCH 177/183] fix: don't apply the scene transformation to the grid
 of the Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index d621087..a226d9b 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -297,8 +297,8 @@ class QtPainter(Painter):
                 else:
                     p0 = Vector2D(yinf, x)
                     p1 = Vector2D(ysup, x)
-                p0 = self.cast_position(p0)
-                p1 = self.cast_position(p1)
+                p0 = self.scene_to_viewport(p0)
+                p1 = self.scene_to_viewport(p1)
                 self._painter.drawLine(p0, p1)
 
     ##############################################
-- 
2.43.0


From 114556814246857ad93a95e112ad18f65d63c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:17 +0000
Subject: [PATCH 178/183] =?UTF-8?q?fix:=20the=20cached=20lengths=20of=20a?=
 =?UTF-8?q?=20B=C3=A9zier=20curve=20are=20dropped=20when=20its=20control?=
 =?UTF-8?q?=20points=20change?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index f33ab27..3b4409c 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -103,7 +103,10 @@ class BezierMixin2D(Primitive2DMixin):
         """Compute the length of the curve at *t*."""
 
         if cache: # lookup cache
-            if not hasattr(self, '_length_cache'):
+            # lengths are only valid for the current control points
+            points = [(point.x, point.y) for point in self.points]
+            if getattr(self, '_length_cache_points', None) != points:
+                self._length_cache_points = points
                 self._length_cache = {}
             length = self._length_cache.get(t, None)
             if length is not None:
-- 
2.43.0


From eda11403b6f7054b2b4539356a5bccb434422945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:12 +0000
Subject: [PATCH 179/183] fix: the bulges of a path follow the points and the
 radii changed after their first use

---
 Patro/GeometryEngine/Path.py | 69 +++++++++++-------------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 222890c..9e73378 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -242,19 +242,6 @@ class LinearSegment(PathPart):
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-        self._reset_cache()
-
-    ##############################################
-
-    def _reset_cache(self):
-
-        self._bissector = None
-        self._direction = None
-
-        self._bulge_angle = None
-        self._bulge_center = None
-        self._start_bulge_point = None
-        self._stop_bulge_point = None
 
     ##############################################
 
@@ -273,7 +260,6 @@ class LinearSegment(PathPart):
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
-        self._reset_cache()
         self._start_bulge = True
 
     ##############################################
@@ -329,33 +315,28 @@ class LinearSegment(PathPart):
 
     @property
     def direction(self):
-        if self._direction is None:
-            self._direction = (self.stop_point - self.start_point).normalise()
-        return self._direction
+        # Note: the direction and the bulge depend on the points of this part and of the previous one
+        return (self.stop_point - self.start_point).normalise()
 
     @property
     def bissector(self):
         if self._radius is None:
             return None
         else:
-            if self._bissector is None:
-                # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-                self._bissector = (self.direction - self.prev_part.direction).normalise()
-            return self._bissector
+            # (self.prev_part.direction + self.direction).normalise().normal
+            return (self.direction - self.prev_part.direction).normalise()
 
     ##############################################
 
     @property
     def bulge_angle_rad(self):
-        if self._bulge_angle is None:
-            # Fixme: rad vs degree
-            angle = self.direction.angle_with(self.prev_part.direction)
-            if angle >= 0:
-                angle = 180 - angle
-            else:
-                angle = -(180 + angle)
-            self._bulge_angle = math.radians(angle)
-        return self._bulge_angle
+        # Fixme: rad vs degree
+        angle = self.direction.angle_with(self.prev_part.direction)
+        if angle >= 0:
+            angle = 180 - angle
+        else:
+            angle = -(180 + angle)
+        return math.radians(angle)
 
     @property
     def bulge_angle(self):
@@ -369,30 +350,24 @@ class LinearSegment(PathPart):
 
     @property
     def bulge_center(self):
-        if self._bulge_center is None:
-            offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
-            self._bulge_center = self.start_point + offset
-            # Note: -offset create external loop
-        return self._bulge_center
+        offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
+        # Note: -offset create external loop
+        return self.start_point + offset
 
     ##############################################
 
     @property
     def bulge_start_point(self):
-        if self._start_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.prev_part.direction * self._radius / math.tan(angle)
-            self._start_bulge_point = self.start_point - sign(angle) *offset
-            # Note: -offset create internal loop
-        return self._start_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.prev_part.direction * self._radius / math.tan(angle)
+        # Note: -offset create internal loop
+        return self.start_point - sign(angle) *offset
 
     @property
     def bulge_stop_point(self):
-        if self._stop_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
-            self._stop_bulge_point = self.start_point + sign(angle) * offset
-        return self._stop_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
+        return self.start_point + sign(angle) * offset
 
     ##############################################
 
@@ -1056,8 +1031,6 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         for part in self._parts:
             # print(part)
-            if isinstance(part, PathSegment):
-                part._reset_cache()
             if isinstance(part, DirectionalSegmentMixin):
                 # Since a rotation will change the direction
                 # DirectionalSegment must be casted to PathSegment
-- 
2.43.0


From a29df2b656125dcb1680beee541e588a2c23b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:39 +0000
Subject: [PATCH 180/183] fix: the bounding box of a path contains its bulges

---
 Patro/GeometryEngine/Path.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 9e73378..c14ccf6 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -385,6 +385,24 @@ class LinearSegment(PathPart):
 
     ##############################################
 
+    @property
+    def bulge_bounding_box(self):
+        """Bounding box of the bulge, None if there is no bulge"""
+        if self._radius is None:
+            return None
+        center = self.bulge_center
+        start, stop = self.bulge_start_point, self.bulge_stop_point
+        bounding_box = start.bounding_box | stop.bounding_box
+        # add the extrema of the circle which are on the arc
+        start, stop = start - center, stop - center
+        orientation = start.cross(stop)
+        for direction in (Vector2D(1, 0), Vector2D(0, 1), Vector2D(-1, 0), Vector2D(0, -1)):
+            if start.cross(direction) * orientation > 0 and direction.cross(stop) * orientation > 0:
+                bounding_box |= (center + direction * self._radius).bounding_box
+        return bounding_box
+
+    ##############################################
+
     def _dump_bulge(self, arc):
         self._logger.info(
             'Bulge @{}\n'.format(self._index) +
@@ -1064,6 +1082,8 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
                 bounding_box = interval
             else:
                 bounding_box |= interval
+            if isinstance(item, LinearSegment) and item.radius is not None:
+                bounding_box |= item.bulge_bounding_box
         return bounding_box
 
     ##############################################
-- 
2.43.0


From b5ddc272dfb5a44a9141715a32eecdc4b80e5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:56 +0000
Subject: [PATCH 181/183] fix: the clone, the reverse and the centre, radius
 and angle of a modified regular polygon

---
 Patro/GeometryEngine/Polygon.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index e07654d..5c4681e 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -634,6 +634,31 @@ class RegularPolygon(Polygon2D):
 
     ##############################################
 
+    def clone(self):
+        obj = self.__class__(self._center, self._radius, self._number_of_edges, self._angle)
+        obj._points = [Vector2D(point) for point in self._points]
+        return obj
+
+    ##############################################
+
+    def reverse(self):
+        obj = self.clone()
+        obj._set_points(list(reversed(obj._points)))
+        return obj
+
+    ##############################################
+
+    def _set_points(self, points):
+        # Note: the polygon is not anymore regular if it is sheared
+        super()._set_points(points)
+        self._center = self.point_barycenter
+        vertex = self.start_point - self._center
+        self._radius = vertex.magnitude
+        if self._radius:
+            self._angle = vertex.orientation
+
+    ##############################################
+
     @property
     def center(self):
         return self._center
-- 
2.43.0


From 134f112da8c046a5110d32e34932d02b4f029a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:57 +0000
Subject: [PATCH 182/183] fix: insert_knot keeps the closed flag of a B-spline

---
 Patro/GeometryEngine/Spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index d4223cb..ebd8aa0 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -421,7 +421,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         # l += degree
         knots = self._knots[:l+1] + [t] + self._knots[l+1:]
 
-        return self.__class__(new_points, self._degree, knots=knots)
+        return self.__class__(new_points, self._degree, closed=self._closed, knots=knots)
 
     ##############################################
 
-- 
2.43.0


From 6bb48a1711a607fbdce6eff8b0458ebc08241911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:41 +0000
Subject: [PATCH 183/183] fix: the clone of a circle or of an ellipse has its
 own domain

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 Patro/GeometryEngine/Mixin.py | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index c7e3cf5..fe35ea3 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -164,7 +164,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._domain)
+        return self.__class__(self._center, self._radius, self._clone_domain())
 
     ##############################################
 
@@ -496,7 +496,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             self._center,
             self._radius_x, self._radius_y,
             self._angle,
-            self._domain,
+            self._clone_domain(),
         )
 
     ##############################################
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index 973b617..4f0d87e 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -171,6 +171,11 @@ class AngularDomainMixin:
 
     ##############################################
 
+    def _clone_domain(self):
+        return None if self._domain is None else self._domain.__clone__()
+
+    ##############################################
+
     @property
     def is_closed(self):
         return self._domain is None
-- 
2.43.0

