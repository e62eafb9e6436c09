From bcabb8e40e930abbbf311a4a2407e9cfd7257113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 01/39] fix: keep touching regions connected where a point lies
 on another region's edge

When a corner of one region touches the edge of another but, through round-off
(e.g. after rotating a compound geometry), does not lie exactly on it, the facets
crossed or left slivers and the mesher ran out of precision or memory. Split the
compound's facets at the points lying along them.
---
 src/sectionproperties/pre/geometry.py | 44 +++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 1b62548..55b4e7e 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2434,6 +2434,11 @@ class CompoundGeometry(Geometry):
             for control_point in geom.control_points:
                 self.control_points.append(control_point)
 
+        # split the facets at the points that lie along them (within round-off), this
+        # ensures touching regions remain connected when a point of one region lies
+        # along an edge of another
+        self.facets = split_facets(points=self.points, facets=self.facets)
+
         # Determine if new holes have been created or if existing
         # holes have been destroyed (or "filled in").
         resultant_holes: list[tuple[float, float]] = []
@@ -2652,6 +2657,45 @@ def create_points_and_facets(
     return points, facets
 
 
+def split_facets(
+    points: list[tuple[float, float]],
+    facets: list[tuple[int, int]],
+    tol: float = 1e-12,
+) -> list[tuple[int, int]]:
+    """Splits facets at the points that lie along them.
+
+    Args:
+        points: List of points (``x``, ``y``)
+        facets: List of facets (``f1``, ``f2``)
+        tol: Points closer to a facet than this tolerance, multiplied by the largest
+            coordinate when it exceeds one, lie along the facet. Defaults to ``1e-12``.
+
+    Returns:
+        List of facets (``f1``, ``f2``)
+    """
+    pts = np.array(points, dtype=float)
+    max_dist = tol * max(1.0, float(np.abs(pts).max()))
+    new_facets: list[tuple[int, int]] = []
+
+    for i_idx, j_idx in facets:
+        vec = pts[j_idx] - pts[i_idx]
+        length = float(np.hypot(vec[0], vec[1]))
+        rel = pts - pts[i_idx]
+
+        # distance of all points along and from the facet
+        along = (rel[:, 0] * vec[0] + rel[:, 1] * vec[1]) / length
+        away = np.abs(rel[:, 1] * vec[0] - rel[:, 0] * vec[1]) / length
+        on_facet = (
+            (away <= max_dist) & (along > max_dist) & (along < length - max_dist)
+        )
+        idxs = np.flatnonzero(on_facet)
+        idxs = idxs[np.argsort(along[idxs])]
+        path = [i_idx, *idxs.tolist(), j_idx]
+        new_facets += list(zip(path[:-1], path[1:], strict=True))
+
+    return new_facets
+
+
 def buffer_polygon(
     polygon: Polygon,
     amount: float,
-- 
2.43.0


From 7c19b00d073171cc8cab4ea432adb7c1ce694eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 02/39] fix: recognise common boundaries of touching regions
 despite round-off

After e.g. a rotation, a corner of one region that touches the edge of another may
be off by one ulp: the union of the regions was then a MultiPolygon, so that the
perimeter of a connected compound geometry was reported as -1, holes were missed,
perimeter offsets failed and the regions were considered disjoint.
---
 src/sectionproperties/pre/geometry.py | 42 ++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 55b4e7e..0f335bc 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -15,13 +15,16 @@ from shapely import (
     LinearRing,
     LineString,
     MultiLineString,
+    MultiPoint,
     MultiPolygon,
     Point,
     Polygon,
     affinity,
     box,  # pyright: ignore [reportUnknownVariableType]
+    get_coordinates,  # pyright: ignore [reportUnknownVariableType]
     line_merge,  # pyright: ignore [reportUnknownVariableType]
     shared_paths,  # pyright: ignore [reportUnknownVariableType]
+    snap,  # pyright: ignore [reportUnknownVariableType]
 )
 from shapely.ops import split, unary_union
 
@@ -2353,7 +2356,9 @@ class CompoundGeometry(Geometry):
             ``.plot_mesh()`` prior to performing any analysis.
         """
         if amount < 0:  # Eroding condition
-            unionized_poly = unary_union([geom.geom for geom in self.geoms])
+            unionized_poly = unary_union(
+                snap_polygons([geom.geom for geom in self.geoms])
+            )
 
             if isinstance(unionized_poly, Polygon):
                 offset_geom = Geometry(geom=unionized_poly).offset_perimeter(
@@ -2442,7 +2447,7 @@ class CompoundGeometry(Geometry):
         # Determine if new holes have been created or if existing
         # holes have been destroyed (or "filled in").
         resultant_holes: list[tuple[float, float]] = []
-        unionized_poly = unary_union([geom.geom for geom in self.geoms])
+        unionized_poly = unary_union(snap_polygons([geom.geom for geom in self.geoms]))
         buffer_amount = unionized_poly.area * SCALE_CONSTANT
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
@@ -2470,7 +2475,7 @@ class CompoundGeometry(Geometry):
         Returns:
             CompoundGeometry perimeter
         """
-        unionized_poly = unary_union([geom.geom for geom in self.geoms])
+        unionized_poly = unary_union(snap_polygons([geom.geom for geom in self.geoms]))
 
         if isinstance(unionized_poly, Polygon):
             return float(unionized_poly.exterior.length)
@@ -2788,6 +2793,34 @@ def round_polygon_vertices(
     return Polygon(rounded_exterior, rounded_interiors)
 
 
+def snap_polygons(
+    lop: list[Polygon],
+    tol: float = 1e-12,
+) -> list[Polygon]:
+    """Snaps touching polygons to the vertices of each other.
+
+    Vertices of a polygon that, but for round-off (e.g. following a rotation), lie along
+    the edge of another polygon are added to this edge, such that the set operations on
+    the polygons recognise their common boundary.
+
+    Args:
+        lop: List of polygons
+        tol: Tolerance to snap with, multiplied by the largest coordinate when it
+            exceeds one. Defaults to ``1e-12``.
+
+    Returns:
+        List of snapped polygons
+    """
+    coords = get_coordinates(lop)
+
+    if len(lop) < 2 or len(coords) == 0:
+        return lop
+
+    max_dist = tol * max(1.0, float(np.abs(coords).max()))
+
+    return [snap(poly, MultiPoint(coords), max_dist) for poly in lop]
+
+
 def check_geometry_overlaps(
     lop: list[Polygon],
 ) -> bool:
@@ -2824,7 +2857,7 @@ def compound_dilation(
     Returns:
         The geometries dilated by ``offset``
     """
-    polys = [geom.geom for geom in geoms]
+    polys = snap_polygons([geom.geom for geom in geoms])
     geom_network = build_geometry_network(polys)
     acc: list[Geometry] = []
 
@@ -2913,6 +2946,7 @@ def build_geometry_network(
         A dictionary describing the connectivity graph of the polygons
     """
     network: dict[int, set[int]] = {}
+    lop = snap_polygons(lop)
 
     for idx_i, poly1 in enumerate(lop):
         for idx_j, poly2 in enumerate(lop):
-- 
2.43.0


From 11216cf7223ffe283b442697cb4b60aeae086931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 03/39] fix: place the hole marker of a void that surrounds
 other regions inside the void

The marker was the representative point of the filled void and could lie in the
surrounded region, which was then removed from the mesh.
---
 src/sectionproperties/pre/geometry.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 0f335bc..537d881 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2454,7 +2454,14 @@ class CompoundGeometry(Geometry):
         if isinstance(unionized_poly, MultiPolygon):
             for poly in unionized_poly.geoms:
                 for interior in poly.interiors:
-                    rp: Point = Polygon(interior).representative_point()
+                    void: Polygon | MultiPolygon = Polygon(interior)
+
+                    # the hole may surround other regions
+                    for other in unionized_poly.geoms:
+                        if other is not poly and void.contains(other):
+                            void = void - Polygon(other.exterior)
+
+                    rp: Point = void.representative_point()
                     coords = rp.coords[0]
                     resultant_holes.append(coords)  # pyright: ignore [reportArgumentType]
 
-- 
2.43.0


From 801e02a0309a1828dd11be2f526da3c2077a42bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 04/39] fix: mirror compound geometries and control points
 about the common bounding box centre

---
 src/sectionproperties/pre/geometry.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 537d881..5c51a52 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -802,13 +802,15 @@ class Geometry:
         """
         x_mirror = 1.0
         y_mirror = 1.0
-        m_pt: tuple[float, float] | str
+        m_pt: tuple[float, float]
 
         if mirror_point != "center" and not isinstance(mirror_point, str):
             x, y = mirror_point
             m_pt = (x, y)
         else:
-            m_pt = mirror_point
+            # centre of the geometry's bounding box
+            min_x, max_x, min_y, max_y = self.calculate_extents()
+            m_pt = ((min_x + max_x) / 2, (min_y + max_y) / 2)
 
         if axis == "x":
             x_mirror = -x_mirror
@@ -831,7 +833,7 @@ class Geometry:
                 xfact=y_mirror,
                 yfact=x_mirror,
                 zfact=1.0,
-                origin=mirror_point,  # pyright: ignore [reportArgumentType]
+                origin=m_pt,  # pyright: ignore [reportArgumentType]
             )
             new_ctrl_point = new_ctrl_point_geom.x, new_ctrl_point_geom.y
 
@@ -2149,8 +2151,18 @@ class CompoundGeometry(Geometry):
                 )
                 compound.mirror_section(axis="y", mirror_point=(0,0)).plot_geometry()
         """
+        m_pt: tuple[float, float]
+
+        if mirror_point != "center" and not isinstance(mirror_point, str):
+            x, y = mirror_point
+            m_pt = (x, y)
+        else:
+            # centre of the compound geometry's bounding box
+            min_x, max_x, min_y, max_y = self.calculate_extents()
+            m_pt = ((min_x + max_x) / 2, (min_y + max_y) / 2)
+
         geoms_acc = [
-            geom.mirror_section(axis=axis, mirror_point=mirror_point)
+            geom.mirror_section(axis=axis, mirror_point=m_pt)
             for geom in self.geoms
         ]
 
-- 
2.43.0


From f36f8ace8ab3542e304de15cbd563d41accb8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 05/39] fix: move points to absolute zero and keep tolerance
 and control points in shift_points

---
 src/sectionproperties/pre/geometry.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 5c51a52..b71486c 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1137,8 +1137,8 @@ class Geometry:
 
         for point_idx in point_idxs:
             current_x, current_y = current_points[point_idx]
-            new_x = abs_x if abs_x else current_x + dx
-            new_y = abs_y if abs_y else current_y + dy
+            new_x = current_x + dx if abs_x is None else abs_x
+            new_y = current_y + dy if abs_y is None else abs_y
             current_points[point_idx] = (new_x, new_y)
 
         new_geom = Geometry.from_points(
@@ -1148,17 +1148,21 @@ class Geometry:
             holes=current_holes,
             material=current_material,
         )
+
+        # keep the assigned control point only if it still lies within the geometry
         if self.assigned_control_point and new_geom.geom.contains(
             self.assigned_control_point
         ):
-            new_geom = Geometry.from_points(
-                points=current_points,
-                facets=current_facets,
-                control_points=current_control_points,
-                holes=current_holes,
-                material=current_material,
-            )
-        return new_geom
+            new_control_point = self.assigned_control_point
+        else:
+            new_control_point = None
+
+        return Geometry(
+            geom=new_geom.geom,
+            material=current_material,
+            control_points=new_control_point,
+            tol=self.tol,
+        )
 
     def plot_geometry(
         self,
-- 
2.43.0


From fabb0d44defca4843826b59393934005f781ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 06/39] fix: set operations on geometries that merely touch or
 swallow each other leave no empty or sliver regions

---
 src/sectionproperties/pre/geometry.py | 104 ++++++++++++++++++++------
 1 file changed, 83 insertions(+), 21 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index b71486c..00adceb 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1353,7 +1353,8 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            or_poly = self.geom | other.geom
+            lhs, rhs = set_operands(self, other)
+            or_poly = lhs | rhs
 
             if isinstance(
                 or_poly,
@@ -1413,7 +1414,8 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            xor_poly = self.geom ^ other.geom
+            lhs, rhs = set_operands(self, other)
+            xor_poly = lhs ^ rhs
 
             if isinstance(
                 xor_poly,
@@ -1486,7 +1488,8 @@ class Geometry:
             material = self.material or pre.DEFAULT_MATERIAL
 
             try:
-                sub_poly = self.geom - other.geom
+                lhs, rhs = set_operands(self, other)
+                sub_poly = lhs - rhs
 
                 if isinstance(
                     sub_poly,
@@ -1606,11 +1609,18 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            and_poly = self.geom & other.geom
+            lhs, rhs = set_operands(self, other)
+            and_poly = lhs & rhs
 
             if isinstance(
                 and_poly,
-                GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+                GeometryCollection
+                | LineString
+                | MultiLineString
+                | Point
+                | MultiPoint
+                | Polygon
+                | MultiPolygon,
             ):
                 new_polygon = filter_non_polygons(and_poly)  # pyright: ignore [reportUnknownArgumentType]
             else:
@@ -1673,6 +1683,11 @@ class CompoundGeometry(Geometry):
                 elif isinstance(item, Geometry):  # pyright: ignore [reportUnnecessaryIsInstance]
                     processed_geoms.append(item)
 
+            # disregard regions that have been removed by set operations
+            processed_geoms = [
+                geom for geom in processed_geoms if not geom.geom.is_empty
+            ]
+
             self.geoms = processed_geoms
             self.geom = MultiPolygon([geom.geom for geom in processed_geoms])
 
@@ -2701,6 +2716,9 @@ def split_facets(
     Returns:
         List of facets (``f1``, ``f2``)
     """
+    if not facets:
+        return []
+
     pts = np.array(points, dtype=float)
     max_dist = tol * max(1.0, float(np.abs(pts).max()))
     new_facets: list[tuple[int, int]] = []
@@ -2767,7 +2785,7 @@ def filter_non_polygons(
 
     Returns a Polygon or a MultiPolygon representing any such Polygon on MultiPolygon
     that may exist in the ``input_geom``. If ``input_geom`` is a LineString or Point, an
-    empty Polygon is returned.
+    empty Polygon is returned. Polygons without thickness are removed.
 
     Args:
         input_geom: Shapely geometry to filter
@@ -2775,23 +2793,43 @@ def filter_non_polygons(
     Returns:
         Filtered polygon
     """
-    if isinstance(input_geom, Polygon | MultiPolygon):
-        return input_geom
-    elif isinstance(input_geom, GeometryCollection):
-        acc = [
-            item
-            for item in input_geom.geoms
-            if isinstance(item, MultiPolygon | Polygon)
-        ]
-
-        if len(acc) == 0:
-            return Polygon()
-        elif len(acc) == 1:
-            return acc[0]
-        else:
-            return MultiPolygon(acc)  # pyright: ignore [reportArgumentType]
+    if isinstance(input_geom, Polygon):
+        acc = [input_geom]
+    elif isinstance(input_geom, MultiPolygon | GeometryCollection):
+        acc = [item for item in input_geom.geoms if isinstance(item, Polygon)]
     else:
+        acc = []
+
+    acc = [poly for poly in acc if not is_sliver(poly)]
+
+    if len(acc) == 0:
         return Polygon()
+    elif len(acc) == 1:
+        return acc[0]
+    else:
+        return MultiPolygon(acc)
+
+
+def is_sliver(
+    poly: Polygon,
+    tol: float = 1e-12,
+) -> bool:
+    """Determines whether a polygon is empty or has no thickness due to round-off.
+
+    Args:
+        poly: Polygon to check
+        tol: Polygons thinner than this tolerance, multiplied by the largest coordinate
+            when it exceeds one, are slivers. Defaults to ``1e-12``.
+
+    Returns:
+        True if the polygon is a sliver
+    """
+    if poly.is_empty:
+        return True
+
+    max_dist = tol * max(1.0, float(np.abs(poly.bounds).max()))
+
+    return poly.area <= max_dist * poly.length
 
 
 def round_polygon_vertices(
@@ -2844,6 +2882,30 @@ def snap_polygons(
     return [snap(poly, MultiPoint(coords), max_dist) for poly in lop]
 
 
+def set_operands(
+    lhs: Geometry | CompoundGeometry,
+    rhs: Geometry | CompoundGeometry,
+) -> tuple[Polygon | MultiPolygon, Polygon | MultiPolygon]:
+    """Returns the operands of a set operation with recognisable common boundaries.
+
+    Args:
+        lhs: Left operand
+        rhs: Right operand
+
+    Returns:
+        Polygons covered by the left and the right operand
+    """
+    lhs_geoms = lhs.geoms if isinstance(lhs, CompoundGeometry) else [lhs]
+    rhs_geoms = rhs.geoms if isinstance(rhs, CompoundGeometry) else [rhs]
+    polys = snap_polygons([geom.geom for geom in lhs_geoms + rhs_geoms])
+    lhs_polys, rhs_polys = polys[: len(lhs_geoms)], polys[len(lhs_geoms) :]
+
+    return (
+        lhs_polys[0] if len(lhs_polys) == 1 else unary_union(lhs_polys),
+        rhs_polys[0] if len(rhs_polys) == 1 else unary_union(rhs_polys),
+    )
+
+
 def check_geometry_overlaps(
     lop: list[Polygon],
 ) -> bool:
-- 
2.43.0


From 06faf46180def1ce672c401d9078a4bb92164253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 07/39] fix: intersections of compound geometries keep the
 regions and materials

---
 src/sectionproperties/pre/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 00adceb..7919a34 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1606,6 +1606,10 @@ class Geometry:
                 circle = circular_section(d=250, n=64)
                 (rect & circle).plot_geometry()
         """
+        if isinstance(self, CompoundGeometry):
+            # keep the regions and materials of the compound geometry
+            return CompoundGeometry(geoms=[geom & other for geom in self.geoms])
+
         material = self.material or other.material
 
         try:
-- 
2.43.0


From a01dabeca248aa5b15496aef63b86f7831b1d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 08/39] fix: split sections along lines through vertices
 without losing or adding pieces

---
 src/sectionproperties/pre/bisect_section.py |  2 +-
 src/sectionproperties/pre/geometry.py       | 39 +++++++++++++++++++--
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/bisect_section.py b/src/sectionproperties/pre/bisect_section.py
index 9bfa2ca..5255b24 100644
--- a/src/sectionproperties/pre/bisect_section.py
+++ b/src/sectionproperties/pre/bisect_section.py
@@ -85,7 +85,7 @@ def group_top_and_bottom_polys(
             raise RuntimeError(msg)
 
         m, b = line_mx_plus_b(line)
-        px, py = poly.representative_point().coords[0]
+        px, py = poly.centroid.coords[0]
 
         if b is not None:  # Not a vertical line (special case)
             y_test = m * px + b
diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 7919a34..9b28dce 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -26,7 +26,7 @@ from shapely import (
     shared_paths,  # pyright: ignore [reportUnknownVariableType]
     snap,  # pyright: ignore [reportUnknownVariableType]
 )
-from shapely.ops import split, unary_union
+from shapely.ops import polygonize, unary_union
 
 import sectionproperties.post.post as post
 import sectionproperties.pre.bisect_section as bisect
@@ -915,8 +915,9 @@ class Geometry:
             vector=vector,
             bounds=bounds,
         )
+
         top_right_polys, bottom_left_polys = bisect.group_top_and_bottom_polys(
-            polys=split(self.geom, line_segment),
+            polys=split_polygon(self.geom, line_segment, self.tol),
             line=line_segment,
         )
 
@@ -2782,6 +2783,40 @@ def buffer_polygon(
         return Polygon()
 
 
+def split_polygon(
+    poly: Polygon,
+    line: LineString,
+    tol: int,
+) -> GeometryCollection:
+    """Splits a polygon along a line.
+
+    The vertices of the polygon that, but for round-off, lie on the line are part of the
+    split, and no polygons without thickness are returned.
+
+    Args:
+        poly: Polygon to split
+        line: Line to split the polygon with
+        tol: Number of decimals to round vertices to
+
+    Returns:
+        Collection of the polygons on either side of the line
+    """
+    coords = get_coordinates(poly)
+    max_dist = 1e-12 * max(1.0, float(np.abs(coords).max()))
+    line = snap(line, MultiPoint(coords), max_dist)
+
+    # rounding ensures that the representative points are well inside the pieces
+    pieces = [
+        round_polygon_vertices(piece, tol)
+        for piece in polygonize(poly.boundary.union(line))
+        if not is_sliver(piece)
+    ]
+
+    return GeometryCollection(
+        [piece for piece in pieces if poly.contains(piece.representative_point())]
+    )
+
+
 def filter_non_polygons(
     input_geom: GeometryCollection | LineString | Point | Polygon | MultiPolygon,
 ) -> Polygon | MultiPolygon:
-- 
2.43.0


From 82aa21c3b073b258e114650e7b9362ac479123a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 09/39] fix: keep regions apart in from_points when the loop of
 a region starts at the last point of the previous loop

---
 src/sectionproperties/pre/geometry.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 9b28dce..11218de 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -228,6 +228,7 @@ class Geometry:
         interiors: list[list[tuple[float, float]]] = [[] for _ in holes]
         interior_counter = 0  # To keep track of interior regions
         active_list = exterior  # The active_list is the list being accumulated on
+        first_idx = 0  # To keep track of the start of the chain of edges
 
         for facet in facets:  # Loop through facets for graph connectivity
             i_idx, _ = facet
@@ -235,14 +236,15 @@ class Geometry:
             if not prev_facet:  # Add the first facet vertex to exterior and move on
                 vertex = points[i_idx]
                 active_list.append(vertex)
+                first_idx = i_idx
                 prev_facet = facet
                 continue
 
             # Look at the last j_idx to test for a break in the chain of edges
             prev_j_idx = prev_facet[1]
 
-            # If there is a break in the chain of edges...
-            if i_idx != prev_j_idx and holes:
+            # If there is a break in the chain of edges or the chain is closed...
+            if (i_idx != prev_j_idx or prev_j_idx == first_idx) and holes:
                 # ...and we are still accumulating on the exterior...
                 if active_list == exterior:
                     active_list = interiors[interior_counter]
@@ -253,6 +255,7 @@ class Geometry:
                     interior_counter += 1
                     active_list = interiors[interior_counter]
                 active_list.append(points[i_idx])
+                first_idx = i_idx
             else:
                 # Only need i_idx b/c shapely auto-closes polygons
                 active_list.append(points[i_idx])
@@ -1838,25 +1841,28 @@ class CompoundGeometry(Geometry):
         prev_facet = None
 
         # initialise indices
-        i_idx, j_idx = 0, 0
+        i_idx, j_idx, first_idx = 0, 0, 0
 
         for facet in facets:
             i_idx, j_idx = facet
 
             if not prev_facet:  # Add the first facet vertex to exterior and move on
                 current_polygon_points.append(points[i_idx])
+                first_idx = i_idx
                 prev_facet = facet
                 continue
 
             prev_j_idx = prev_facet[1]
 
-            if i_idx != prev_j_idx:  # If there is a break in the chain of edges...
+            # If there is a break in the chain of edges or the chain is closed...
+            if i_idx != prev_j_idx or prev_j_idx == first_idx:
                 # ... then add the last point, close off the polygon,
                 # and add the polygon to the all_polygons accumulator....
                 current_polygon_points.append(points[prev_j_idx])
                 all_polygons.append(Polygon(current_polygon_points))
                 # Then start collecting the points of the new polygon
                 current_polygon_points = [points[i_idx]]
+                first_idx = i_idx
             else:
                 current_polygon_points.append(
                     points[i_idx]
-- 
2.43.0


From 2c3b775e84c835020083b57bee90738de5434aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 10/39] fix: perimeter offsets return no pieces without
 thickness

---
 src/sectionproperties/pre/geometry.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 11218de..ddfb0a6 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -978,6 +978,8 @@ class Geometry:
                 )
                 exterior_polygon = exterior_polygon - buffered_interior
 
+            exterior_polygon = filter_non_polygons(exterior_polygon)
+
             if isinstance(exterior_polygon, MultiPolygon):
                 return CompoundGeometry(
                     geoms=[
@@ -1015,6 +1017,8 @@ class Geometry:
                 interior_poly = Polygon(interior)
                 buffered_exterior = buffered_exterior - interior_poly
 
+            buffered_exterior = filter_non_polygons(buffered_exterior)
+
             if isinstance(buffered_exterior, MultiPolygon):
                 return CompoundGeometry(
                     geoms=[
@@ -2771,22 +2775,7 @@ def buffer_polygon(
     """
     buffered_polygon = polygon.buffer(distance=amount, quad_segs=resolution)
 
-    if isinstance(buffered_polygon, GeometryCollection):
-        remaining_polygons = [
-            item
-            for item in buffered_polygon.geoms  # pyright: ignore [reportUnknownVariableType]
-            if isinstance(item, Polygon)
-        ]
-
-        if len(remaining_polygons) == 1:
-            return remaining_polygons[0]
-        else:
-            return MultiPolygon(remaining_polygons)
-
-    elif isinstance(buffered_polygon, MultiPolygon | Polygon):  # pyright: ignore [reportUnnecessaryIsInstance]
-        return buffered_polygon
-    else:
-        return Polygon()
+    return filter_non_polygons(buffered_polygon)
 
 
 def split_polygon(
-- 
2.43.0


From 12ad84e475975544b1f1510503e53696c45963e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 11/39] fix: erode compound geometries with disjoint parts

---
 src/sectionproperties/pre/geometry.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index ddfb0a6..5a3b1f3 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2406,15 +2406,21 @@ class CompoundGeometry(Geometry):
                 snap_polygons([geom.geom for geom in self.geoms])
             )
 
-            if isinstance(unionized_poly, Polygon):
-                offset_geom = Geometry(geom=unionized_poly).offset_perimeter(
-                    amount=amount,
-                    where=where,
-                    resolution=resolution,
-                )
-            else:
-                msg = "Geometry generation failed."
-                raise RuntimeError(msg)
+            # Offset each of the disjoint parts of the compound geometry
+            offset_geom = CompoundGeometry(
+                geoms=[
+                    Geometry(geom=poly).offset_perimeter(
+                        amount=amount,
+                        where=where,
+                        resolution=resolution,
+                    )
+                    for poly in (
+                        unionized_poly.geoms
+                        if isinstance(unionized_poly, MultiPolygon)
+                        else [unionized_poly]
+                    )
+                ]
+            )
 
             # Using the offset_geom as a "mask"
             geoms_acc: list[Geometry] = []
-- 
2.43.0


From 8d5a913599d8d3c3542398fa4b54bc016f91c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 12/39] fix: align a geometry to the inside of a point on the
 requested side

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 5a3b1f3..490af09 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -595,7 +595,7 @@ class Geometry:
         self_align_coord = self_extents[self_align_idx]
 
         if inner:
-            self_align_coord = self_extents[align_to_idx]
+            self_align_coord = self_extents[other_as_geom_map[on]]
 
         offset = align_to_coord - self_align_coord
         arg = "x_offset"
-- 
2.43.0


From b7f510b5675ac8ba1e8d9ae0b7b145913b605279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 13/39] fix: keep the full precision of split pieces for
 geometries with a coarse tolerance

---
 src/sectionproperties/pre/geometry.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 490af09..7f6c633 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -920,7 +920,7 @@ class Geometry:
         )
 
         top_right_polys, bottom_left_polys = bisect.group_top_and_bottom_polys(
-            polys=split_polygon(self.geom, line_segment, self.tol),
+            polys=split_polygon(self.geom, line_segment),
             line=line_segment,
         )
 
@@ -2787,7 +2787,6 @@ def buffer_polygon(
 def split_polygon(
     poly: Polygon,
     line: LineString,
-    tol: int,
 ) -> GeometryCollection:
     """Splits a polygon along a line.
 
@@ -2797,7 +2796,6 @@ def split_polygon(
     Args:
         poly: Polygon to split
         line: Line to split the polygon with
-        tol: Number of decimals to round vertices to
 
     Returns:
         Collection of the polygons on either side of the line
@@ -2808,7 +2806,7 @@ def split_polygon(
 
     # rounding ensures that the representative points are well inside the pieces
     pieces = [
-        round_polygon_vertices(piece, tol)
+        round_polygon_vertices(piece, 12)
         for piece in polygonize(poly.boundary.union(line))
         if not is_sliver(piece)
     ]
-- 
2.43.0


From 3c580f7aea0cfd81fba60693e7a8978533558dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 14/39] fix: find plastic centroids to the same relative
 accuracy at every scale

---
 src/sectionproperties/analysis/plastic_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/plastic_section.py b/src/sectionproperties/analysis/plastic_section.py
index 9a30473..a4aed33 100644
--- a/src/sectionproperties/analysis/plastic_section.py
+++ b/src/sectionproperties/analysis/plastic_section.py
@@ -363,7 +363,7 @@ class PlasticSection:
             args=(u, u_p, verbose),
             full_output=True,
             disp=False,
-            xtol=1e-6,
+            xtol=1e-9 * (dlim[1] - dlim[0]),
             rtol=1e-6,
         )
         return float(d), r
-- 
2.43.0


From e8f129938f7cdbb1d741e7564750ee0ac32d6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 15/39] fix: include regions with equal but distinct materials
 in yield moments and stresses

---
 src/sectionproperties/analysis/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index cee7965..1e32607 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -158,7 +158,7 @@ class Section:
 
             # add element to relevant MaterialGroup
             for group in self.material_groups:
-                if material is group.material:
+                if material == group.material:
                     group.add_element(element=new_element)
                     break
 
-- 
2.43.0


From 27c81ac1683baa07985e745efe5cec378ea83f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 16/39] fix: refuse warping and plastic analyses after a frame
 analysis only

---
 src/sectionproperties/analysis/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 1e32607..3787538 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -410,6 +410,7 @@ class Section:
             self.section_props.area,
             self.section_props.ixx_c,
             self.section_props.cx,
+            self.section_props.i11_c,
         ]:
             err = "Calculate geometric properties before performing a warping analysis."
             raise RuntimeError(err)
@@ -1201,7 +1202,7 @@ class Section:
           - Shape factors (centroidal and principal axes)
         """
         # check that a geometric analysis has been performed
-        if self.section_props.cx is None:
+        if self.section_props.cx is None or self.section_props.i11_c is None:
             err = "Calculate geometric properties before performing a plastic analysis."
             raise RuntimeError(err)
 
@@ -1292,6 +1293,7 @@ class Section:
             self.section_props.area,
             self.section_props.ixx_c,
             self.section_props.cx,
+            self.section_props.i11_c,
         ]:
             msg = "Perform a geometric analysis before carrying out a stress analysis."
             raise RuntimeError(msg)
-- 
2.43.0


From 3947eb1f709d54ba656cf7f960f3907a05f7d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 17/39] fix: keep the mesh of a section when its geometry is
 re-meshed

---
 src/sectionproperties/analysis/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 3787538..d852494 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -6,6 +6,7 @@ properties.
 
 from __future__ import annotations
 
+import copy
 import warnings
 from dataclasses import dataclass, field
 from typing import TYPE_CHECKING, Any, cast
@@ -86,7 +87,8 @@ class Section:
             msg += "Section object for analysis."
             raise ValueError(msg)
 
-        self.geometry = geometry
+        # keep the mesh of this section when the geometry is re-meshed later on
+        self.geometry = copy.copy(geometry)
         self.time_info = time_info
         self.mesh = geometry.mesh
         self.materials: list[pre.Material] = []
-- 
2.43.0


From 81006547a0ddaca0c0ff4078ee36b42601c07c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 18/39] fix: map material names of fibre sections exactly

---
 src/sectionproperties/post/fibre.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 9310bdd..8527f80 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -190,6 +190,11 @@ def to_fibre_section(
 
     cells = [cell_class(ele, omega) for ele in section.elements]
 
+    if material_mapping is not None:
+        tags = {"-".join(name.split()): tag for name, tag in material_mapping.items()}
+        for cell in cells:
+            cell.material = str(tags.get(cell.material, cell.material))
+
     commands = """# This is generated by sectionproperties library.
 # Please note the following:
 #   1. The warping function and its derivatives (if present) are computed in the
@@ -211,10 +216,6 @@ def to_fibre_section(
     commands += "\n".join(cell.export() for cell in cells)
     commands += "\n\n"
 
-    if material_mapping is not None:
-        for name, tag in material_mapping.items():
-            commands = commands.replace("-".join(name.split()), str(tag))
-
     if isinstance(save_to, str):
         with open(save_to, "w") as f:
             f.write(commands)
-- 
2.43.0


From a38f1d7cb1f2372fdfc6f05d99ab79edaff2c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 19/39] fix: put the walls of nastran_box1 on their documented
 sides

---
 src/sectionproperties/pre/library/nastran_sections.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index f4d3495..c657301 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -190,10 +190,10 @@ def nastran_box1(
         (0.0, dim_2),
     ]
     interior_points = [
-        (dim_6, dim_4),
-        (dim_1 - dim_5, dim_4),
-        (dim_1 - dim_5, dim_2 - dim_3),
-        (dim_6, dim_2 - dim_3),
+        (dim_5, dim_4),
+        (dim_1 - dim_6, dim_4),
+        (dim_1 - dim_6, dim_2 - dim_3),
+        (dim_5, dim_2 - dim_3),
     ]
     poly_sub = Polygon(exterior_points) - Polygon(interior_points)
 
-- 
2.43.0


From d57cb2c13e508a7ecf0daaee0560d555bea8136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 20/39] fix: put the recovery points of nastran_chan and
 nastran_i on the section

---
 .../pre/library/nastran_sections.py                  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index c657301..56cd9fd 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -266,10 +266,10 @@ def nastran_chan(
 
     geom = geometry.Geometry(geom=Polygon(points), material=material)
 
-    c = (0.5 * dim_1, 0.5 * dim_2)
-    d = (0.5 * dim_1, -0.5 * dim_2)
-    e = (-0.5 * dim_1, -0.5 * dim_2)
-    f = (-0.5 * dim_1, 0.5 * dim_2)
+    c = (dim_1 - 0.5 * dim_3, 0.5 * dim_2)
+    d = (dim_1 - 0.5 * dim_3, -0.5 * dim_2)
+    e = (-0.5 * dim_3, -0.5 * dim_2)
+    f = (-0.5 * dim_3, 0.5 * dim_2)
 
     geom.recovery_points = [c, d, e, f]
 
@@ -1099,8 +1099,8 @@ def nastran_i(
     geom = geometry.Geometry(geom=Polygon(points), material=material)
 
     c = (0.5 * dim_3, 0.5 * dim_1)
-    d = (0.5 * dim_3, -0.5 * dim_1)
-    e = (-0.5 * dim_3, -0.5 * dim_1)
+    d = (0.5 * dim_2, -0.5 * dim_1)
+    e = (-0.5 * dim_2, -0.5 * dim_1)
     f = (-0.5 * dim_3, 0.5 * dim_1)
     geom.recovery_points = [c, d, e, f]
 
-- 
2.43.0


From 85365a2df274390ac3c19238b924b03260cd677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 21/39] fix: reject dimensions of NASTRAN sections that give
 overlapping parts

---
 src/sectionproperties/pre/library/nastran_sections.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index 56cd9fd..f275f8a 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -524,6 +524,7 @@ def nastran_fcross(
         or not dim_5 < dim_2
         or not dim_8 < (0.5 * dim_2 - 0.5 * dim_3)
         or not dim_6 < (0.5 * dim_1 - 0.5 * dim_4)
+        or (dim_5 + 2.0 * dim_8 >= dim_2 and dim_7 + 2.0 * dim_6 >= dim_1)
     ):
         msg = "Invalid geometry specified."
         raise ValueError(msg)
@@ -628,6 +629,7 @@ def nastran_dbox(
     if (
         not (dim_4 + dim_5 + dim_6) < dim_1
         or not (dim_4 + 0.5 * dim_5) < dim_3
+        or not (dim_3 + 0.5 * dim_5 + dim_6) < dim_1
         or not (dim_7 + dim_8) < dim_2
         or not (dim_9 + dim_10) < dim_2
     ):
@@ -870,7 +872,7 @@ def nastran_hat(
             nastran_hat(dim_1=1.25, dim_2=0.25, dim_3=1.5, dim_4=0.5).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not 2.0 * dim_2 < dim_1:
+    if not 2.0 * dim_2 < dim_1 or not 2.0 * dim_2 < dim_3:
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
@@ -1009,7 +1011,7 @@ def nastran_hexa(
             nastran_hexa(dim_1=0.5, dim_2=2.0, dim_3=1.5).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not dim_2 > dim_1:
+    if not dim_2 >= 2.0 * dim_1:
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
-- 
2.43.0


From 9fccabdde4765c67247c271125820a5183a37f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 22/39] fix: give compound geometries an empty list of recovery
 points

---
 src/sectionproperties/pre/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 7f6c633..bf70fa9 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1711,6 +1711,7 @@ class CompoundGeometry(Geometry):
         self.compile_geometry()
         self.tol = 12
         self.mesh: dict[str, Any] | None = None
+        self._recovery_points: list[tuple[float, float]] | list[Point] = []
 
     def _repr_svg_(self) -> str:
         """Returns an svg representation of the CompoundGeometry.
-- 
2.43.0


From 8fba9ea4fe71af6b8ace1fb04294d7f61785a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 23/39] fix: reject columns with fewer than two bars per
 direction

---
 src/sectionproperties/pre/library/concrete_sections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 8debb86..6606421 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -301,6 +301,10 @@ def concrete_column_section(
             geom.create_mesh(mesh_sizes=[0])  # a size of zero creates a coarse mesh
             Section(geometry=geom).plot_mesh()
     """
+    if n_x < 2 or n_y < 2:
+        msg = "Please provide 2 or more bars in both the x and y directions."
+        raise ValueError(msg)
+
     concrete_geometry = primitive_sections.rectangular_section(
         d=d, b=b, material=conc_mat
     )
-- 
2.43.0


From 42781e176101fd358973f87582608119f444e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 24/39] fix: space the inner pier bars of double_lift_core_b up
 to the central wall

---
 src/sectionproperties/pre/library/concrete_sections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 6606421..e054f01 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -2109,15 +2109,15 @@ def double_lift_core_b(
             ys.append(y)
 
         # inner pier bars
-        y_pier = nib - 2 * cover - dia_bar
+        y_pier = nib
         n_pier = ceil(y_pier / spacing) + 1
         y_pier_b = np.linspace(
             start=0.5 * (d - a2) + cover + 0.5 * dia_bar,
-            stop=0.5 * d - cover - 0.5 * dia_bar,
+            stop=0.5 * (d - t3) + cover + 0.5 * dia_bar,
             num=n_pier,
         )
         y_pier_t = np.linspace(
-            start=0.5 * d + cover + 0.5 * dia_bar,
+            start=0.5 * (d + t3) - cover - 0.5 * dia_bar,
             stop=0.5 * (d + a2) - cover - 0.5 * dia_bar,
             num=n_pier,
         )
-- 
2.43.0


From 6e7534e25fadc87370d95a657cf8f12cd240ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 25/39] fix: number of outer right bars of stairwell

---
 src/sectionproperties/pre/library/concrete_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index e054f01..bbe8de2 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -2374,7 +2374,7 @@ def stairwell(
             ys.append(y)
 
         # right outer bars
-        y_length = d - t1 - a - cover - 0.5 * dia_bar
+        y_length = d - t1 - a - 2 * cover - dia_bar
         n_y = ceil(y_length / spacing) + 1
         y_i = np.linspace(
             start=cover + 0.5 * dia_bar,
-- 
2.43.0


From cb89afed80a82c15f3815aa06d8b14f0541aa960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 26/39] fix: number of nib bars of single-layer double lift
 cores

---
 src/sectionproperties/pre/library/concrete_sections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index bbe8de2..0d5b075 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -1616,7 +1616,7 @@ def double_lift_core_a(
         x_length = b - t2
         n_x = ceil(x_length / spacing) + 1
         y_length = d - t1
-        y_nib = nib + 0.5 * t1
+        y_nib = nib + 0.5 * t1 - cover - 0.5 * dia_bar
         y_pier = a2 - 2 * cover - dia_bar
         n_y = ceil(y_length / spacing) + 1
         n_nib = ceil(y_nib / spacing) + 1
@@ -1930,7 +1930,7 @@ def double_lift_core_b(
         x_length = b - t2
         n_x = ceil(x_length / spacing) + 1
         y_length = d - t1
-        y_nib = nib + 0.5 * t1
+        y_nib = nib + 0.5 * t1 - cover - 0.5 * dia_bar
         y_pier = a2 - 2 * cover - dia_bar
         n_y = ceil(y_length / spacing) + 1
         n_nib = ceil(y_nib / spacing) + 1
-- 
2.43.0


From 2f91e4b9359a9b2a1afc46647e7cea43f28fcf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 27/39] fix: stack CLT layers of unequal thickness without gaps
 and overlaps

---
 src/sectionproperties/pre/library/timber_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/library/timber_sections.py b/src/sectionproperties/pre/library/timber_sections.py
index e5d3922..90ede2f 100644
--- a/src/sectionproperties/pre/library/timber_sections.py
+++ b/src/sectionproperties/pre/library/timber_sections.py
@@ -71,7 +71,7 @@ def clt_rectangular_section(
 
         # create rectangular timber geometry
         layer = primitive_sections.rectangular_section(d=di, b=b, material=timb_mat)
-        offset = -d[idx] * (idx + 1)
+        offset = -float(sum(d[: idx + 1]))
         layer = layer.shift_section(y_offset=offset)
 
         layer_geom.append(layer)
-- 
2.43.0


From ee386abc1a9ca7c21678e0fcfc0decbddac04473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 28/39] fix: give the webs of super T girders the specified
 thickness and slope

---
 src/sectionproperties/pre/library/bridge_sections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/library/bridge_sections.py b/src/sectionproperties/pre/library/bridge_sections.py
index e84dfbf..8dd6dcd 100644
--- a/src/sectionproperties/pre/library/bridge_sections.py
+++ b/src/sectionproperties/pre/library/bridge_sections.py
@@ -85,8 +85,8 @@ def super_t_girder_section(
     # Origin is middle at level of bottom of top flange
     # Some geometrics of the slope
     web_hyp = np.sqrt(1 + web_slope**2)
-    web_horiz = t_w * web_slope / web_hyp
-    x_fillet = w_nom / 2 - d_fillet * 1 / web_hyp
+    web_horiz = t_w * web_hyp / web_slope
+    x_fillet = w_nom / 2 - d_fillet / web_slope
 
     # initialise points variable
     points: list[tuple[float, float]] = []
@@ -106,7 +106,7 @@ def super_t_girder_section(
     points.append((x_fillet, -d_fillet))
 
     # Bottom outer
-    btm_corner = x_fillet - d / web_slope
+    btm_corner = w_nom / 2 - d / web_slope
     points.append((btm_corner + d_chamfer / web_slope, -(d - d_chamfer)))
     points.append((btm_corner - b_chamfer, -d))
     points.append((-btm_corner + b_chamfer, -d))
-- 
2.43.0


From 029181411f967b4a9109bdab3b96524f9e233911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 29/39] fix: keep outlines of dxf drawings whose curves meet
 only up to round-off

---
 src/sectionproperties/pre/geometry.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index bf70fa9..40087e7 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2581,6 +2581,24 @@ def load_dxf(
 
     my_dxf = c2s.dxf.DxfImporter(str(dxf_filepath))
     my_dxf.process(spline_delta=spline_delta, degrees_per_segment=degrees_per_segment)
+
+    # join curves whose ends only coincide up to round-off, otherwise an outline that
+    # contains such curves is lost if any other polygon is found
+    ends: list[tuple[float, ...]] = []
+
+    def join_end(pt: tuple[float, ...]) -> tuple[float, ...]:
+        for end in ends:
+            if math.dist(end, pt) < 1e-6:
+                return end
+
+        ends.append(pt)
+
+        return pt
+
+    my_dxf.geometry = [
+        type(ls)([join_end(ls.coords[0]), *ls.coords[1:-1], join_end(ls.coords[-1])])
+        for ls in my_dxf.geometry
+    ]
     my_dxf.polygonize()
 
     polygons = my_dxf.polygons
-- 
2.43.0


From 4d8318bd9ac9d159e08e74b53240b56fa20d95d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 30/39] fix: raise the documented error for dxf drawings
 without supported curves

---
 src/sectionproperties/pre/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 40087e7..4fd21ff 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2599,7 +2599,10 @@ def load_dxf(
         type(ls)([join_end(ls.coords[0]), *ls.coords[1:-1], join_end(ls.coords[-1])])
         for ls in my_dxf.geometry
     ]
-    my_dxf.polygonize()
+
+    # there is nothing to polygonize in a drawing without any supported curves
+    if my_dxf.geometry:
+        my_dxf.polygonize()
 
     polygons = my_dxf.polygons
     new_polygons = c2s.utils.filter_polygons(polygons)
-- 
2.43.0


From e3facda4646374b81240e49ec71ffacbb03153e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 31/39] fix: keep the material colours of elements when a mesh
 plot is masked

---
 src/sectionproperties/analysis/section.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index d852494..a08f1e0 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -1645,11 +1645,14 @@ class Section:
 
                 cmap = ListedColormap(colors=color_array)  # custom colormap
 
-                # plot the mesh colors
+                # plot the mesh colors, the color limits span all elements such that
+                # masked elements do not change the colors of the remaining elements
                 ax.tripcolor(  # pyright: ignore
                     triang,
                     c,
                     cmap=cmap,
+                    vmin=-0.5,
+                    vmax=len(c) - 0.5,
                 )
 
                 # display the legend
-- 
2.43.0


From fde7be6b155a68680549f654ffcacaf57c694cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 32/39] fix: colour the stress vectors of all materials by one
 range

Each material's arrows were coloured by the range of that material, while the
single colour bar shows the range of the last material only.
---
 src/sectionproperties/post/stress_post.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/post/stress_post.py b/src/sectionproperties/post/stress_post.py
index 98adff0..69a163f 100644
--- a/src/sectionproperties/post/stress_post.py
+++ b/src/sectionproperties/post/stress_post.py
@@ -521,10 +521,15 @@ class StressPost:
                 c_min: float = min(c_min, min(c))
                 c_max: float = max(c_max, max(c))
 
-            # apply the scale
+            # apply the scale and the colour limits of all the materials
             for quiv_plot in quiv_list:
                 quiv_plot.scale = max_scale
 
+                if norm:
+                    norm.halfrange = c_max
+                else:
+                    quiv_plot.set_clim(vmin=c_min, vmax=c_max)
+
             # apply the colorbar
             v1 = np.linspace(
                 start=c_min - 1e-12, stop=c_max + 1e-12, num=15, endpoint=True
-- 
2.43.0


From edf0d1a1e2ec72ae7aeee600dcefa726654c6905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 33/39] fix: dilate compounds with filled interiors, several
 shared edges or one region

The dilation of a compound geometry only recognised the edges shared by the
exteriors of two regions, if these form one path. A region that fills the
interior of another was dilated into the surrounding region, regions that share
several paths raised an error and a compound of one region vanished.
---
 src/sectionproperties/pre/geometry.py | 48 ++++-----------------------
 1 file changed, 6 insertions(+), 42 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 4fd21ff..5f4fbf7 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -23,7 +23,6 @@ from shapely import (
     box,  # pyright: ignore [reportUnknownVariableType]
     get_coordinates,  # pyright: ignore [reportUnknownVariableType]
     line_merge,  # pyright: ignore [reportUnknownVariableType]
-    shared_paths,  # pyright: ignore [reportUnknownVariableType]
     snap,  # pyright: ignore [reportUnknownVariableType]
 )
 from shapely.ops import polygonize, unary_union
@@ -3003,18 +3002,15 @@ def compound_dilation(
         The geometries dilated by ``offset``
     """
     polys = snap_polygons([geom.geom for geom in geoms])
-    geom_network = build_geometry_network(polys)
     acc: list[Geometry] = []
 
-    for poly_idx, connectivity in geom_network.items():
-        poly_orig = polys[poly_idx]
-        poly_orig_exterior = poly_orig.exterior
-        connected_polys = [polys[idx].exterior for idx in connectivity]
-        mucky_shared_paths = shared_paths(poly_orig_exterior, connected_polys)
-        shared_path_geometries = MultiLineString(
-            extract_shared_paths(mucky_shared_paths)  # pyright: ignore [reportArgumentType]
+    for poly_idx, poly_orig in enumerate(polys):
+        # dilate only the edges that are not shared with another polygon (including
+        # the interiors of the polygons that surround this polygon)
+        other_edges = unary_union(
+            [poly.boundary for idx, poly in enumerate(polys) if idx != poly_idx]
         )
-        source = line_merge(poly_orig_exterior - shared_path_geometries)
+        source = line_merge(poly_orig.exterior - other_edges)
         buff = source.buffer(offset, cap_style="flat")
         union = poly_orig | buff
 
@@ -3104,35 +3100,3 @@ def build_geometry_network(
                 network[idx_i] = connectivity
 
     return network
-
-
-def extract_shared_paths(
-    arr_of_geom_coll: list[GeometryCollection],
-) -> list[LineString]:
-    """Extracts a list of LineStrings exported by the shapely ``shared_paths`` method.
-
-    Args:
-        arr_of_geom_coll: An array of geometry collections
-
-    Raises:
-        RuntimeError: If linestrings cannot be extracted
-
-    Returns:
-        List of LineStrings
-    """
-    acc: list[LineString] = []
-
-    for geom_coll in arr_of_geom_coll:
-        for mls in geom_coll.geoms:
-            if mls.is_empty:
-                continue
-
-            ls = line_merge(mls)
-
-            if isinstance(ls, LineString):
-                acc.append(ls)
-            else:
-                msg = "Extract shared paths failed."
-                raise RuntimeError(msg)
-
-    return acc
-- 
2.43.0


From 6b16002f1ffcb354d77d51b54f4f62edc01f66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 34/39] fix: offset the chosen boundary of compound geometries
 with the chosen resolution

Positive offsets of a compound geometry ignored the arguments where and
resolution: the exterior was dilated even if only the interiors were chosen, and
the voids between several regions were filled for the exterior. A negative offset
of the interiors left the voids as they were.
---
 src/sectionproperties/pre/geometry.py | 45 ++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 5f4fbf7..28754c6 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2401,7 +2401,10 @@ class CompoundGeometry(Geometry):
             materials, ensure that the materials propagate as desired by performing a
             ``.plot_mesh()`` prior to performing any analysis.
         """
-        if amount < 0:  # Eroding condition
+        # a positive offset of the interiors enlarges the voids
+        eroding = amount > 0 if where == "interior" else amount < 0
+
+        if eroding:
             unionized_poly = unary_union(
                 snap_polygons([geom.geom for geom in self.geoms])
             )
@@ -2434,7 +2437,7 @@ class CompoundGeometry(Geometry):
                     geoms_acc.append(intersection_geom)
 
             return CompoundGeometry(geoms=geoms_acc)
-        elif amount > 0:  # Ballooning condition
+        elif amount != 0:  # Ballooning condition
             # The algorithm used in the compound_dilation function cannot
             # currently handle re-entrant corners between different
             # geometries (a re-entrant corner in a single geometry is fine).
@@ -2446,7 +2449,12 @@ class CompoundGeometry(Geometry):
             # across it from the shared vertex to the opposite vertex)
             # connorferster 2024-07-18
 
-            return compound_dilation(self.geoms, offset=amount)
+            return compound_dilation(
+                self.geoms,
+                offset=abs(amount),
+                where=where,
+                resolution=resolution,
+            )
         else:
             return self
 
@@ -2988,15 +2996,22 @@ def check_geometry_overlaps(
 def compound_dilation(
     geoms: list[Geometry],
     offset: float,
+    where: str = "exterior",
+    resolution: int = 12,
 ) -> CompoundGeometry:
     """Returns a CompoundGeometry representing the input Geometries, dilated.
 
     Args:
         geoms: List of Geometry objects
         offset: A positive ``float`` or ``int``
+        where: One of either ``"exterior"``, ``"interior"``, or ``"all"`` to specify
+            which edges of the combined geometry to dilate. Defaults to ``"exterior"``.
+        resolution: Number of segments used to approximate a quarter circle around a
+            point. Defaults to ``12``.
 
     Raises:
         RuntimeError: If geometry generation fails
+        ValueError: If ``where`` is ``"interior"`` and there are no interiors
 
     Returns:
         The geometries dilated by ``offset``
@@ -3004,18 +3019,32 @@ def compound_dilation(
     polys = snap_polygons([geom.geom for geom in geoms])
     acc: list[Geometry] = []
 
+    # find the edges of the combined geometry that are not dilated
+    union = unary_union(polys)
+    parts = union.geoms if isinstance(union, MultiPolygon) else [union]
+    interiors = [interior for part in parts for interior in part.interiors]
+
+    if where == "interior":
+        if not interiors:
+            msg = "Cannot buffer interior of Geometry object if it has no holes."
+            raise ValueError(msg)
+
+        fixed_edges = unary_union([part.exterior for part in parts])
+    else:
+        fixed_edges = unary_union(interiors if where == "exterior" else [])
+
     for poly_idx, poly_orig in enumerate(polys):
         # dilate only the edges that are not shared with another polygon (including
         # the interiors of the polygons that surround this polygon)
         other_edges = unary_union(
             [poly.boundary for idx, poly in enumerate(polys) if idx != poly_idx]
         )
-        source = line_merge(poly_orig.exterior - other_edges)
-        buff = source.buffer(offset, cap_style="flat")
-        union = poly_orig | buff
+        source = line_merge(poly_orig.boundary - other_edges - fixed_edges)
+        buff = source.buffer(offset, quad_segs=resolution, cap_style="flat")
+        new_poly = poly_orig | buff
 
-        if isinstance(union, Polygon):
-            new = Geometry(union, material=geoms[poly_idx].material)
+        if isinstance(new_poly, Polygon):
+            new = Geometry(new_poly, material=geoms[poly_idx].material)
         else:
             msg = "Geometry generation failed."
             raise RuntimeError(msg)
-- 
2.43.0


From f787b9a88eb84a69ced51a0a75edb04368be3ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 35/39] fix: remove vertices that coincide once they are
 rounded

A vertex that repeats the previous vertex after rounding resulted in a facet of
zero length, for which the compilation of a compound geometry divides by zero.
---
 src/sectionproperties/pre/geometry.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 28754c6..e21cc09 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2912,8 +2912,24 @@ def round_polygon_vertices(
     Returns:
         Polygon with rounded vertices
     """
-    rounded_exterior = np.round(poly.exterior.coords, tol)
-    rounded_interiors = [np.round(interior.coords, tol) for interior in poly.interiors]
+
+    def round_ring(ring: LinearRing) -> npt.NDArray[np.float64]:
+        """Rounds a ring and removes the vertices that repeat the previous vertex.
+
+        Args:
+            ring: Ring to round
+
+        Returns:
+            Coordinates of the rounded ring
+        """
+        coords = np.round(ring.coords, tol)
+        distinct = np.append(True, np.any(coords[1:] != coords[:-1], axis=1))
+
+        # leave rings that collapse as is
+        return coords[distinct] if distinct.sum() >= 4 else coords
+
+    rounded_exterior = round_ring(poly.exterior)
+    rounded_interiors = [round_ring(interior) for interior in poly.interiors]
 
     if not rounded_exterior.any():
         return Polygon()
-- 
2.43.0


From 46df37532ee45fa6bae299780ea526ecc3e72fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 36/39] fix: do not warn of disjoint regions for compound
 geometries of one region

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index e21cc09..48d5589 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -3131,7 +3131,7 @@ def build_geometry_network(
     Returns:
         A dictionary describing the connectivity graph of the polygons
     """
-    network: dict[int, set[int]] = {}
+    network: dict[int, set[int]] = {idx: set() for idx in range(len(lop))}
     lop = snap_polygons(lop)
 
     for idx_i, poly1 in enumerate(lop):
-- 
2.43.0


From 9c11ad698ec9e25b62c47e8097650ebe4bf9ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 37/39] fix: do not report a zero torsion constant after a
 failed frame analysis

calculate_frame_properties() reset the torsion constant before solving for
the warping function, so a solver that did not converge (or an unknown solver
type) left get_j() and the results table showing zero.
---
 src/sectionproperties/analysis/section.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index a08f1e0..0c3aaee 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -927,7 +927,6 @@ class Section:
             self.section_props.ixx_c = 0.0
             self.section_props.iyy_c = 0.0
             self.section_props.ixy_c = 0.0
-            self.section_props.j = 0.0
             self.section_props.phi = 0.0
 
             if progress:
-- 
2.43.0


From 8e429d2cecc513b31aa220c16b613c17164724cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 38/39] fix: merge the corners of polygon_hollow_section
 without repeated points

---
 src/sectionproperties/pre/library/steel_sections.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/library/steel_sections.py b/src/sectionproperties/pre/library/steel_sections.py
index d2b9037..28b6fdc 100644
--- a/src/sectionproperties/pre/library/steel_sections.py
+++ b/src/sectionproperties/pre/library/steel_sections.py
@@ -317,14 +317,19 @@ def polygon_hollow_section(
     side_length_out = d * np.sin(alpha / 2)
     side_length_in = a_in / a_out * side_length_out
 
-    # check limit on internal radii, if exceeded then radii merge to circle
-    if r_in > a_in:
+    # number of points discretising each corner
+    n_pts = n_r
+
+    # check limit on internal radii, if exceeded then radii merge to circle, i.e. the
+    # last point of each corner is the first point of the next corner
+    if r_in >= a_in:
         r_in = a_in
+        n_pts = max(1, n_r - 1)
 
     # calculate external radius, if r_in is zero, r_out also is zero
     if r_in == 0:
         r_out = 0.0
-        n_r = 1
+        n_pts = 1
     else:
         r_out = r_in + t
 
@@ -345,7 +350,7 @@ def polygon_hollow_section(
     # perimeter
 
     # construct the first radius (bottom right)
-    for i in range(n_r):
+    for i in range(n_pts):
         # determine polar angle
         theta = 1 / 2 * np.pi + i * 1.0 / max(1, n_r - 1) * alpha
 
-- 
2.43.0


From d0549965f1c2b305000cba6ebbc05a969306c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 39/39] fix: keep the holes of small compound geometries far
 from the origin

---
 src/sectionproperties/pre/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 48d5589..35af9aa 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2508,7 +2508,9 @@ class CompoundGeometry(Geometry):
         # holes have been destroyed (or "filled in").
         resultant_holes: list[tuple[float, float]] = []
         unionized_poly = unary_union(snap_polygons([geom.geom for geom in self.geoms]))
-        buffer_amount = unionized_poly.area * SCALE_CONSTANT
+        # the buffer must not vanish in the round-off of the coordinates
+        max_dist = 1e-12 * max(1.0, float(np.abs(unionized_poly.bounds).max()))
+        buffer_amount = max(unionized_poly.area * SCALE_CONSTANT, max_dist)
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
         if isinstance(unionized_poly, MultiPolygon):
-- 
2.43.0

