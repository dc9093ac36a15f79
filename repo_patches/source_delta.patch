From 4303d464d1d02d7b0ba33caff12b6a64bbcad8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 1/5] fix: sort star contour vertices by exact direction

Sorting by floating point angles misordered vertices (or merged distinct
directions) for coordinates of big magnitude, which gave clockwise contours
or ZeroDivisionError.
---
 hypothesis_geometry/_core/factories.py | 31 ++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index faa937a..ba0b7f6 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -1,4 +1,3 @@
-import math
 from collections import deque
 from collections.abc import (
     Callable,
@@ -7,7 +6,7 @@ from collections.abc import (
     MutableSequence,
     Sequence,
 )
-from functools import partial
+from functools import cmp_to_key, partial
 from itertools import groupby
 from math import atan2
 from operator import itemgetter
@@ -222,8 +221,32 @@ def _reverse_vertices(
     return [*vertices[:1], *vertices[:0:-1]]
 
 
-def _to_segment_angle(start: Point[ScalarT], end: Point[ScalarT], /) -> float:
-    return math.atan2(end.y - start.y, end.x - start.x)
+def _to_segment_angle(start: Point[ScalarT], end: Point[ScalarT], /) -> Any:
+    return _vector_to_angle_key((end.x - start.x, end.y - start.y))
+
+
+def _compare_vectors_angles(
+    first: tuple[ScalarT, ScalarT], second: tuple[ScalarT, ScalarT], /
+) -> int:
+    first_sector, second_sector = (
+        _vector_to_sector(first),
+        _vector_to_sector(second),
+    )
+    if first_sector != second_sector:
+        return first_sector - second_sector
+    (first_x, first_y), (second_x, second_y) = first, second
+    minuend, subtrahend = second_x * first_y, first_x * second_y
+    return (minuend > subtrahend) - (minuend < subtrahend)
+
+
+def _vector_to_sector(vector: tuple[ScalarT, ScalarT], /) -> int:
+    # sectors follow each other in the order of ``atan2`` values increase
+    x, y = vector
+    return (3 if x < 0 else 1) if y == 0 else (0 if y < 0 else 2)
+
+
+# floating point angles are prone to rounding errors and overflows
+_vector_to_angle_key = cmp_to_key(_compare_vectors_angles)
 
 
 def to_star_contour_vertices(
-- 
2.43.0


From 2840dd9db041088177010cc79d1008ff19466732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 2/5] fix: sort convex contour vectors by exact direction

Conversion to floating point angles raised OverflowError for coordinates
outside of the floating point range.
---
 hypothesis_geometry/_core/factories.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index ba0b7f6..17802f4 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -8,7 +8,6 @@ from collections.abc import (
 )
 from functools import cmp_to_key, partial
 from itertools import groupby
-from math import atan2
 from operator import itemgetter
 from random import Random
 from typing import Any
@@ -332,12 +331,8 @@ def to_convex_vertex_sequence(
     vectors_ys = to_vectors_coordinates(ys, min_y, max_y)
     random.shuffle(vectors_ys)
 
-    def to_vector_angle(vector: tuple[ScalarT, ScalarT], /) -> float:
-        x, y = vector
-        return atan2(y, x)
-
     vectors = sorted(
-        zip(vectors_xs, vectors_ys, strict=True), key=to_vector_angle
+        zip(vectors_xs, vectors_ys, strict=True), key=_vector_to_angle_key
     )
     point_x = point_y = context.zero
     min_polygon_x = min_polygon_y = context.zero
-- 
2.43.0


From 314d41f7a4fd4cc0866de5f4d4cfe4a665a055fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 3/5] fix: clamp negative multipolygons holes size lower bound

Unlike polygons and mixes, negative bound without upper one was passed as is.
---
 hypothesis_geometry/planar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hypothesis_geometry/planar.py b/hypothesis_geometry/planar.py
index c110b71..c9535ba 100644
--- a/hypothesis_geometry/planar.py
+++ b/hypothesis_geometry/planar.py
@@ -1643,6 +1643,7 @@ def multipolygons(
     min_size = max(min_size, _MIN_MULTIPOLYGON_SIZE)
     min_border_size = max(min_border_size, _MIN_CONTOUR_SIZE)
     min_hole_size = max(min_hole_size, _MIN_CONTOUR_SIZE)
+    min_holes_size = max(min_holes_size, 0)
     return _to_multipolygons(
         x_coordinates,
         y_coordinates,
-- 
2.43.0


From 79872c3d4179a8cde1a9cb4b638a4aeb1fdc99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 4/5] fix: do not cut ears containing other points

---
 hypothesis_geometry/_core/factories.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index 17802f4..21a0a42 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -566,8 +566,15 @@ def _to_vertex_sequence(
         else:
             ears_increments = _to_ears_increments(ears_candidates)
             continue
-        while candidate.left_from_end is not candidate.right_from_end:
+        while (
+            candidate.left_from_end is not candidate.right_from_end
+            and _is_convex_quadrilateral_diagonal(candidate.left_from_end)
+        ):
             candidate.left_from_end.flip()
+        if candidate.left_from_end is not candidate.right_from_end:
+            # ear contains other points
+            ears_candidates.remove(candidate)
+            continue
         assert actual_increment == target_increment
         left_increment -= actual_increment
         ears_candidates.remove(candidate)
-- 
2.43.0


From 601012cb1e9faa23a79532e121d7c644dec7a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 5/5] fix: sort star contour vertices around inner point

---
 hypothesis_geometry/_core/factories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index 21a0a42..bbcbde2 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -251,7 +251,6 @@ _vector_to_angle_key = cmp_to_key(_compare_vectors_angles)
 def to_star_contour_vertices(
     points: Sequence[Point[ScalarT]], /, *, context: Context[ScalarT]
 ) -> Sequence[Point[ScalarT]]:
-    centroid = context.multipoint_centroid(context.multipoint_cls(points))
     contour_cls, region_centroid_constructor, orienteer = (
         context.contour_cls,
         context.region_centroid,
@@ -260,6 +259,9 @@ def to_star_contour_vertices(
     result, prev_size = points, len(points) + 1
     while 2 < len(result) < prev_size:
         prev_size = len(result)
+        # unlike centroid of a region left by the previous iteration
+        # always lies inside of convex hull of the points
+        centroid = context.multipoint_centroid(context.multipoint_cls(result))
         result = [
             deque(candidates, maxlen=1)[0][1]
             for _, candidates in groupby(
-- 
2.43.0

