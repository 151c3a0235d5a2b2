From c72b1b7589c669510445b3a3ff8536b2c649db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 01/38] fix: keep touching regions connected when rotating a
 CompoundGeometry

---
 src/sectionproperties/pre/geometry.py | 29 ++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 1b62548..c6168ad 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -23,7 +23,7 @@ from shapely import (
     line_merge,  # pyright: ignore [reportUnknownVariableType]
     shared_paths,  # pyright: ignore [reportUnknownVariableType]
 )
-from shapely.ops import split, unary_union
+from shapely.ops import snap, split, unary_union
 
 import sectionproperties.post.post as post
 import sectionproperties.pre.bisect_section as bisect
@@ -2104,10 +2104,29 @@ class CompoundGeometry(Geometry):
         else:
             rp = rot_point
 
-        geoms_acc = [
-            geom.rotate_section(angle=angle, rot_point=rp, use_radians=use_radians)
-            for geom in self.geoms
-        ]
+        geoms_acc: list[Geometry] = []
+
+        for geom in self.geoms:
+            # vertices of adjoining regions that lie on an edge of this region must be
+            # vertices of this region too, otherwise round-off in the rotated coordinates
+            # separates the regions (or makes them overlap) along the shared edge
+            poly = geom.geom
+
+            for other in self.geoms:
+                if other is not geom:
+                    poly = snap(poly, other.geom, 1e-12)
+
+            noded_geom = Geometry(
+                geom=poly,
+                material=geom.material,
+                control_points=geom.assigned_control_point,
+                tol=geom.tol,
+            )
+            geoms_acc.append(
+                noded_geom.rotate_section(
+                    angle=angle, rot_point=rp, use_radians=use_radians
+                )
+            )
 
         return CompoundGeometry(geoms=geoms_acc)
 
-- 
2.43.0


From b384d4c62ff3c0cd53855ec5b1bad72d02cf5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 02/38] fix: group elements by equal material rather than by
 object identity

---
 src/sectionproperties/analysis/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index cee7965..1e32607 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -158,7 +158,7 @@ class Section:
 
             # add element to relevant MaterialGroup
             for group in self.material_groups:
-                if material is group.material:
+                if material == group.material:
                     group.add_element(element=new_element)
                     break
 
-- 
2.43.0


From e9a3b91d3659c3f129afcfd633e7402c1828e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 03/38] fix: apply the fibre material mapping to material names
 only

---
 src/sectionproperties/post/fibre.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 9310bdd..edc99a9 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -190,6 +190,11 @@ def to_fibre_section(
 
     cells = [cell_class(ele, omega) for ele in section.elements]
 
+    if material_mapping is not None:
+        tags = {"-".join(k.split()): str(tag) for k, tag in material_mapping.items()}
+        for cell in cells:
+            cell.material = tags.get(cell.material, cell.material)
+
     commands = """# This is generated by sectionproperties library.
 # Please note the following:
 #   1. The warping function and its derivatives (if present) are computed in the
@@ -211,10 +216,6 @@ def to_fibre_section(
     commands += "\n".join(cell.export() for cell in cells)
     commands += "\n\n"
 
-    if material_mapping is not None:
-        for name, tag in material_mapping.items():
-            commands = commands.replace("-".join(name.split()), str(tag))
-
     if isinstance(save_to, str):
         with open(save_to, "w") as f:
             f.write(commands)
-- 
2.43.0


From 5012047bb0b868600adaf98286eabd9a9fb22a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 04/38] fix: report negative Lagrangian multiplier errors of
 the CGS solver

The multiplier error was compared without its magnitude, so a solution whose
multiplier is large and negative was returned instead of raising the documented
RuntimeError.
---
 src/sectionproperties/analysis/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/solver.py b/src/sectionproperties/analysis/solver.py
index 449c58f..9589951 100644
--- a/src/sectionproperties/analysis/solver.py
+++ b/src/sectionproperties/analysis/solver.py
@@ -88,7 +88,7 @@ def solve_cgs_lagrange(
         raise RuntimeError(msg)
 
     # compute error
-    err = u[-1] / max(np.absolute(u))
+    err = abs(u[-1]) / max(np.absolute(u))
 
     if err > tol:
         msg = "Lagrangian multiplier method error exceeds tolerance."
-- 
2.43.0


From 492dbce09dab1424965b5aa84c6fe7b98045d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 05/38] fix: mirror a CompoundGeometry about the centre of its
 own bounding box

---
 src/sectionproperties/pre/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index c6168ad..01f226f 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2165,9 +2165,14 @@ class CompoundGeometry(Geometry):
                 )
                 compound.mirror_section(axis="y", mirror_point=(0,0)).plot_geometry()
         """
+        if mirror_point == "center":
+            centre = box(*MultiPolygon(self.geom).bounds).centroid
+            m_pt = centre.x, centre.y
+        else:
+            m_pt = mirror_point
+
         geoms_acc = [
-            geom.mirror_section(axis=axis, mirror_point=mirror_point)
-            for geom in self.geoms
+            geom.mirror_section(axis=axis, mirror_point=m_pt) for geom in self.geoms
         ]
 
         return CompoundGeometry(geoms=geoms_acc)
-- 
2.43.0


From 80f5f8f6237350a9a32735db7eb55e0e1bc62c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 06/38] fix: accept zero as an absolute coordinate in
 Geometry.shift_points

---
 src/sectionproperties/pre/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 01f226f..83933c5 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1132,8 +1132,8 @@ class Geometry:
 
         for point_idx in point_idxs:
             current_x, current_y = current_points[point_idx]
-            new_x = abs_x if abs_x else current_x + dx
-            new_y = abs_y if abs_y else current_y + dy
+            new_x = abs_x if abs_x is not None else current_x + dx
+            new_y = abs_y if abs_y is not None else current_y + dy
             current_points[point_idx] = (new_x, new_y)
 
         new_geom = Geometry.from_points(
-- 
2.43.0


From a1ff4950407194b91b0643a5d9562bf3b635219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 07/38] fix: regenerate an invalid control point in
 Geometry.shift_points

---
 src/sectionproperties/pre/geometry.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 83933c5..285567c 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1143,17 +1143,22 @@ class Geometry:
             holes=current_holes,
             material=current_material,
         )
+        # Check to see if assigned_control_point is still valid
         if self.assigned_control_point and new_geom.geom.contains(
             self.assigned_control_point
         ):
-            new_geom = Geometry.from_points(
-                points=current_points,
-                facets=current_facets,
-                control_points=current_control_points,
-                holes=current_holes,
+            return Geometry(
+                geom=new_geom.geom,
                 material=current_material,
+                control_points=self.assigned_control_point,
+                tol=self.tol,
             )
-        return new_geom
+
+        return Geometry(
+            geom=new_geom.geom,
+            material=current_material,
+            tol=self.tol,
+        )
 
     def plot_geometry(
         self,
-- 
2.43.0


From dad96a064b073a8e242f92a6335989ae34b7f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 08/38] fix: align the inner edge of a geometry to a point on
 the requested side

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 285567c..8f23e10 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -589,7 +589,7 @@ class Geometry:
         self_align_coord = self_extents[self_align_idx]
 
         if inner:
-            self_align_coord = self_extents[align_to_idx]
+            self_align_coord = self_extents[other_as_geom_map[on]]
 
         offset = align_to_coord - self_align_coord
         arg = "x_offset"
-- 
2.43.0


From 4a7343a683389bcaf42d265f5e01df12616a1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 09/38] fix: include unconnected polygons in the geometry
 network

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 8f23e10..599d007 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2897,7 +2897,7 @@ def build_geometry_network(
     Returns:
         A dictionary describing the connectivity graph of the polygons
     """
-    network: dict[int, set[int]] = {}
+    network: dict[int, set[int]] = {idx: set() for idx in range(len(lop))}
 
     for idx_i, poly1 in enumerate(lop):
         for idx_j, poly2 in enumerate(lop):
-- 
2.43.0


From 533ecfa163bdb47d2fb6edc1a456eeed6e4c9b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 10/38] fix: drop the regions removed entirely by a compound
 difference

---
 src/sectionproperties/pre/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 599d007..549d5fe 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1475,7 +1475,10 @@ class Geometry:
 
             for geom in self.geoms:
                 new_geom = geom - other
-                subs_geom_acc.append(new_geom)
+
+                # regions that are entirely removed leave no geometry behind
+                if not new_geom.geom.is_empty:
+                    subs_geom_acc.append(new_geom)
 
             return CompoundGeometry(geoms=subs_geom_acc)
         else:
-- 
2.43.0


From ed52a939c0542aee29bfb37653c81ef88443709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 11/38] fix: keep the tolerance of a geometry that is divided
 into several regions

---
 src/sectionproperties/pre/geometry.py | 32 +++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 549d5fe..e3dbdbd 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -916,9 +916,11 @@ class Geometry:
         )
 
         # Create new Geometrys from polys, preserve original material assignments
-        top_right_geoms = [Geometry(poly, self.material) for poly in top_right_polys]
+        top_right_geoms = [
+            Geometry(poly, self.material, tol=self.tol) for poly in top_right_polys
+        ]
         bottom_left_geoms = [
-            Geometry(poly, self.material) for poly in bottom_left_polys
+            Geometry(poly, self.material, tol=self.tol) for poly in bottom_left_polys
         ]
 
         return top_right_geoms, bottom_left_geoms
@@ -972,7 +974,8 @@ class Geometry:
             if isinstance(exterior_polygon, MultiPolygon):
                 return CompoundGeometry(
                     geoms=[
-                        Geometry(poly, self.material) for poly in exterior_polygon.geoms
+                        Geometry(poly, self.material, tol=self.tol)
+                        for poly in exterior_polygon.geoms
                     ]
                 )
             elif not isinstance(exterior_polygon, Polygon):
@@ -1009,7 +1012,7 @@ class Geometry:
             if isinstance(buffered_exterior, MultiPolygon):
                 return CompoundGeometry(
                     geoms=[
-                        Geometry(poly, self.material)
+                        Geometry(poly, self.material, tol=self.tol)
                         for poly in buffered_exterior.geoms
                     ]
                 )
@@ -1039,7 +1042,8 @@ class Geometry:
             if isinstance(buffered_geom, MultiPolygon):
                 compound_geom = CompoundGeometry(
                     geoms=[
-                        Geometry(poly, self.material) for poly in buffered_geom.geoms
+                        Geometry(poly, self.material, tol=self.tol)
+                        for poly in buffered_geom.geoms
                     ]
                 )
                 return compound_geom
@@ -1362,7 +1366,10 @@ class Geometry:
 
             if isinstance(new_polygon, MultiPolygon):
                 return CompoundGeometry(
-                    geoms=[Geometry(polygon, material) for polygon in new_polygon.geoms]
+                    geoms=[
+                        Geometry(polygon, material, tol=self.tol)
+                        for polygon in new_polygon.geoms
+                    ]
                 )
             return Geometry(
                 geom=new_polygon,
@@ -1422,7 +1429,10 @@ class Geometry:
 
             if isinstance(new_polygon, MultiPolygon):
                 return CompoundGeometry(
-                    geoms=[Geometry(polygon, material) for polygon in new_polygon.geoms]
+                    geoms=[
+                        Geometry(polygon, material, tol=self.tol)
+                        for polygon in new_polygon.geoms
+                    ]
                 )
 
             if isinstance(new_polygon, GeometryCollection):
@@ -1503,7 +1513,8 @@ class Geometry:
                 elif isinstance(new_polygon, MultiPolygon):
                     return CompoundGeometry(
                         geoms=[
-                            Geometry(polygon, material) for polygon in new_polygon.geoms
+                            Geometry(polygon, material, tol=self.tol)
+                            for polygon in new_polygon.geoms
                         ]
                     )
                 elif isinstance(new_polygon, Polygon):  # pyright: ignore [reportUnnecessaryIsInstance]
@@ -1618,7 +1629,10 @@ class Geometry:
 
             if isinstance(new_polygon, MultiPolygon):
                 return CompoundGeometry(
-                    geoms=[Geometry(polygon, material) for polygon in new_polygon.geoms]
+                    geoms=[
+                        Geometry(polygon, material, tol=self.tol)
+                        for polygon in new_polygon.geoms
+                    ]
                 )
 
             return Geometry(
-- 
2.43.0


From d683b02752cc07ac2e4d6d0342658c91d1d39fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 12/38] fix: use the resolution given when dilating a
 CompoundGeometry

---
 src/sectionproperties/pre/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index e3dbdbd..feb073f 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2435,7 +2435,9 @@ class CompoundGeometry(Geometry):
             # across it from the shared vertex to the opposite vertex)
             # connorferster 2024-07-18
 
-            return compound_dilation(self.geoms, offset=amount)
+            return compound_dilation(
+                self.geoms, offset=amount, resolution=resolution
+            )
         else:
             return self
 
@@ -2813,12 +2815,15 @@ def check_geometry_overlaps(
 def compound_dilation(
     geoms: list[Geometry],
     offset: float,
+    resolution: int = 12,
 ) -> CompoundGeometry:
     """Returns a CompoundGeometry representing the input Geometries, dilated.
 
     Args:
         geoms: List of Geometry objects
         offset: A positive ``float`` or ``int``
+        resolution: Number of segments used to approximate a quarter circle around a
+            point. Defaults to ``12``.
 
     Raises:
         RuntimeError: If geometry generation fails
@@ -2839,7 +2844,7 @@ def compound_dilation(
             extract_shared_paths(mucky_shared_paths)  # pyright: ignore [reportArgumentType]
         )
         source = line_merge(poly_orig_exterior - shared_path_geometries)
-        buff = source.buffer(offset, cap_style="flat")
+        buff = source.buffer(offset, quad_segs=resolution, cap_style="flat")
         union = poly_orig | buff
 
         if isinstance(union, Polygon):
-- 
2.43.0


From df02188d3b562fab51cd68a3c322fc841620d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 13/38] fix: do not dilate the regions of a CompoundGeometry
 into each other

---
 src/sectionproperties/pre/geometry.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index feb073f..7090928 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2833,6 +2833,9 @@ def compound_dilation(
     """
     polys = [geom.geom for geom in geoms]
     geom_network = build_geometry_network(polys)
+    union_poly = unary_union(polys)
+    union_polys = getattr(union_poly, "geoms", [union_poly])
+    union_holes = [Polygon(lr) for poly in union_polys for lr in poly.interiors]
     acc: list[Geometry] = []
 
     for poly_idx, connectivity in geom_network.items():
@@ -2845,10 +2848,26 @@ def compound_dilation(
         )
         source = line_merge(poly_orig_exterior - shared_path_geometries)
         buff = source.buffer(offset, quad_segs=resolution, cap_style="flat")
-        union = poly_orig | buff
+
+        # a region only grows away from the section, i.e. neither into its neighbours nor
+        # into the holes of the section
+        occupied = [poly for idx, poly in enumerate(polys) if idx != poly_idx]
+        occupied += [hole for hole in union_holes if not hole.contains(poly_orig)]
+        growth = buff - unary_union(occupied)
+        growth_polys = getattr(growth, "geoms", [growth])
+        union = unary_union(
+            [poly_orig, *(poly for poly in growth_polys if poly.intersects(poly_orig))]
+        )
 
         if isinstance(union, Polygon):
-            new = Geometry(union, material=geoms[poly_idx].material)
+            geom = geoms[poly_idx]
+            control_point = geom.assigned_control_point
+            new = Geometry(
+                geom=union,
+                material=geom.material,
+                control_points=control_point,
+                tol=geom.tol,
+            )
         else:
             msg = "Geometry generation failed."
             raise RuntimeError(msg)
-- 
2.43.0


From 5126c92e3c39f39b077736212c7b2ea09358587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 14/38] fix: mirror an assigned control point about the centre
 of the geometry

---
 src/sectionproperties/pre/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 7090928..5041a69 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -823,12 +823,16 @@ class Geometry:
         new_ctrl_point: tuple[float, float] | None = None
 
         if self.assigned_control_point:
+            if m_pt == "center":
+                centre = box(*self.geom.bounds).centroid
+                m_pt = centre.x, centre.y
+
             new_ctrl_point_geom = affinity.scale(
                 self.assigned_control_point,
                 xfact=y_mirror,
                 yfact=x_mirror,
                 zfact=1.0,
-                origin=mirror_point,  # pyright: ignore [reportArgumentType]
+                origin=m_pt,  # pyright: ignore [reportArgumentType]
             )
             new_ctrl_point = new_ctrl_point_geom.x, new_ctrl_point_geom.y
 
-- 
2.43.0


From 6d11625f8eb5e14bba0adb0f1a577c232789c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 15/38] fix: keep valid control points when eroding a
 CompoundGeometry

---
 src/sectionproperties/pre/geometry.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 5041a69..43df268 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2423,6 +2423,18 @@ class CompoundGeometry(Geometry):
                 # that intersects with the eroded unionized shape
                 intersection_geom = geom & offset_geom
 
+                # Check to see if assigned_control_point is still valid
+                control_point = geom.assigned_control_point
+
+                if (
+                    control_point
+                    and isinstance(intersection_geom.geom, Polygon)
+                    and intersection_geom.geom.contains(control_point)
+                ):
+                    intersection_geom = intersection_geom.assign_control_point(
+                        control_point=(control_point.x, control_point.y)
+                    )
+
                 if not intersection_geom.geom.is_empty:
                     geoms_acc.append(intersection_geom)
 
-- 
2.43.0


From 9ac09c1aa8111e787fda9808b0c986ad170bcd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 16/38] fix: place hole points outside the disjoint regions
 located within a hole

---
 src/sectionproperties/pre/geometry.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 43df268..d1b5faa 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2508,9 +2508,13 @@ class CompoundGeometry(Geometry):
         if isinstance(unionized_poly, MultiPolygon):
             for poly in unionized_poly.geoms:
                 for interior in poly.interiors:
-                    rp: Point = Polygon(interior).representative_point()
-                    coords = rp.coords[0]
-                    resultant_holes.append(coords)  # pyright: ignore [reportArgumentType]
+                    # disjoint regions located within the interior are not a hole
+                    void = Polygon(interior) - unionized_poly
+
+                    for void_poly in getattr(void, "geoms", [void]):
+                        rp: Point = void_poly.representative_point()
+                        coords = rp.coords[0]
+                        resultant_holes.append(coords)  # pyright: ignore [reportArgumentType]
 
         elif isinstance(unionized_poly, Polygon):  # pyright: ignore [reportUnnecessaryIsInstance]
             if Geometry(unionized_poly).holes:
-- 
2.43.0


From 35dbdbb4811a96a42f714323dff2edb6a2035509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 17/38] fix: use valid operands in the boolean operations of a
 CompoundGeometry

---
 src/sectionproperties/pre/geometry.py | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index d1b5faa..21ac458 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1357,7 +1357,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            or_poly = self.geom | other.geom
+            or_poly = dissolve_geometry(self) | dissolve_geometry(other)
 
             if isinstance(
                 or_poly,
@@ -1420,7 +1420,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            xor_poly = self.geom ^ other.geom
+            xor_poly = dissolve_geometry(self) ^ dissolve_geometry(other)
 
             if isinstance(
                 xor_poly,
@@ -1499,7 +1499,7 @@ class Geometry:
             material = self.material or pre.DEFAULT_MATERIAL
 
             try:
-                sub_poly = self.geom - other.geom
+                sub_poly = self.geom - dissolve_geometry(other)
 
                 if isinstance(
                     sub_poly,
@@ -1620,7 +1620,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            and_poly = self.geom & other.geom
+            and_poly = dissolve_geometry(self) & dissolve_geometry(other)
 
             if isinstance(
                 and_poly,
@@ -2756,6 +2756,26 @@ def buffer_polygon(
         return Polygon()
 
 
+def dissolve_geometry(
+    geometry: Geometry | CompoundGeometry,
+) -> Polygon | MultiPolygon:
+    """Returns a valid shapely geometry covering all the regions of a geometry.
+
+    The ``MultiPolygon`` of a ``CompoundGeometry`` is invalid where its regions share an
+    edge, and must not be used as an operand of a boolean operation.
+
+    Args:
+        geometry: Geometry to dissolve
+
+    Returns:
+        Union of all the regions in the geometry
+    """
+    if isinstance(geometry, CompoundGeometry):
+        return unary_union([geom.geom for geom in geometry.geoms])
+
+    return geometry.geom
+
+
 def filter_non_polygons(
     input_geom: GeometryCollection | LineString | Point | Polygon | MultiPolygon,
 ) -> Polygon | MultiPolygon:
-- 
2.43.0


From b716d6c1f889cd883b333593ee153772103752bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 18/38] fix: start a new ring in from_points once the previous
 one is closed

---
 src/sectionproperties/pre/geometry.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 21ac458..071a7c3 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -225,6 +225,7 @@ class Geometry:
         interiors: list[list[tuple[float, float]]] = [[] for _ in holes]
         interior_counter = 0  # To keep track of interior regions
         active_list = exterior  # The active_list is the list being accumulated on
+        start_idx: int | None = None  # First vertex of the active_list
 
         for facet in facets:  # Loop through facets for graph connectivity
             i_idx, _ = facet
@@ -233,13 +234,15 @@ class Geometry:
                 vertex = points[i_idx]
                 active_list.append(vertex)
                 prev_facet = facet
+                start_idx = i_idx
                 continue
 
             # Look at the last j_idx to test for a break in the chain of edges
             prev_j_idx = prev_facet[1]
 
-            # If there is a break in the chain of edges...
-            if i_idx != prev_j_idx and holes:
+            # If there is a break in the chain of edges (a closed chain is complete, even
+            # if the next chain starts at the same vertex)...
+            if (i_idx != prev_j_idx or prev_j_idx == start_idx) and holes:
                 # ...and we are still accumulating on the exterior...
                 if active_list == exterior:
                     active_list = interiors[interior_counter]
@@ -250,6 +253,7 @@ class Geometry:
                     interior_counter += 1
                     active_list = interiors[interior_counter]
                 active_list.append(points[i_idx])
+                start_idx = i_idx
             else:
                 # Only need i_idx b/c shapely auto-closes polygons
                 active_list.append(points[i_idx])
@@ -1833,6 +1837,7 @@ class CompoundGeometry(Geometry):
         current_polygon_points = []
         all_polygons: list[Polygon] = []
         prev_facet = None
+        start_idx = None  # first vertex of the current polygon
 
         # initialise indices
         i_idx, j_idx = 0, 0
@@ -1843,17 +1848,21 @@ class CompoundGeometry(Geometry):
             if not prev_facet:  # Add the first facet vertex to exterior and move on
                 current_polygon_points.append(points[i_idx])
                 prev_facet = facet
+                start_idx = i_idx
                 continue
 
             prev_j_idx = prev_facet[1]
 
-            if i_idx != prev_j_idx:  # If there is a break in the chain of edges...
+            # If there is a break in the chain of edges (a closed chain is complete, even
+            # if the next polygon starts at the same vertex)...
+            if i_idx != prev_j_idx or prev_j_idx == start_idx:
                 # ... then add the last point, close off the polygon,
                 # and add the polygon to the all_polygons accumulator....
                 current_polygon_points.append(points[prev_j_idx])
                 all_polygons.append(Polygon(current_polygon_points))
                 # Then start collecting the points of the new polygon
                 current_polygon_points = [points[i_idx]]
+                start_idx = i_idx
             else:
                 current_polygon_points.append(
                     points[i_idx]
-- 
2.43.0


From 23f85dba406dede74a53094b3fd26f18dbeaa656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 19/38] fix: clt_rectangular_section stacks layers of unequal
 thickness without gaps or overlaps

---
 src/sectionproperties/pre/library/timber_sections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/library/timber_sections.py b/src/sectionproperties/pre/library/timber_sections.py
index e5d3922..ffe5b44 100644
--- a/src/sectionproperties/pre/library/timber_sections.py
+++ b/src/sectionproperties/pre/library/timber_sections.py
@@ -63,6 +63,7 @@ def clt_rectangular_section(
             Section(geometry=geom).plot_mesh()
     """
     layer_geom: list[geometry.Geometry] = []
+    offset = 0.0  # y-coordinate of the bottom of the current layer
     for idx in range(len(d)):
         di = float(d[idx])
         layer = layer_mat[idx]
@@ -71,7 +72,7 @@ def clt_rectangular_section(
 
         # create rectangular timber geometry
         layer = primitive_sections.rectangular_section(d=di, b=b, material=timb_mat)
-        offset = -d[idx] * (idx + 1)
+        offset -= di
         layer = layer.shift_section(y_offset=offset)
 
         layer_geom.append(layer)
-- 
2.43.0


From 752aeae4de52988aec0dd6731f61367774be2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 20/38] fix: polygon_hollow_section builds the circle when the
 inner radius reaches the inner apothem

---
 src/sectionproperties/pre/library/steel_sections.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sectionproperties/pre/library/steel_sections.py b/src/sectionproperties/pre/library/steel_sections.py
index d2b9037..21b7b9f 100644
--- a/src/sectionproperties/pre/library/steel_sections.py
+++ b/src/sectionproperties/pre/library/steel_sections.py
@@ -359,6 +359,12 @@ def polygon_hollow_section(
         outer_base_points.append((x_outer, y_outer))
         inner_base_points.append((x_inner, y_inner))
 
+    # if the radii merge to a circle, the last point of each radius coincides with the
+    # first point of the next
+    if n_r > 1 and np.isclose(r_in, a_in, rtol=1e-9, atol=0):
+        outer_base_points.pop()
+        inner_base_points.pop()
+
     for i in range(n_sides):
         for point in outer_base_points:
             point_new = sp_utils.rotate(point, alpha * i + rot)
-- 
2.43.0


From b7c1698d7db16795ba6e90ba9069f153d564dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 21/38] fix: nastran_box1 uses dim_5 for the left wall and
 dim_6 for the right wall

---
 src/sectionproperties/pre/library/nastran_sections.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index f4d3495..c657301 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -190,10 +190,10 @@ def nastran_box1(
         (0.0, dim_2),
     ]
     interior_points = [
-        (dim_6, dim_4),
-        (dim_1 - dim_5, dim_4),
-        (dim_1 - dim_5, dim_2 - dim_3),
-        (dim_6, dim_2 - dim_3),
+        (dim_5, dim_4),
+        (dim_1 - dim_6, dim_4),
+        (dim_1 - dim_6, dim_2 - dim_3),
+        (dim_5, dim_2 - dim_3),
     ]
     poly_sub = Polygon(exterior_points) - Polygon(interior_points)
 
-- 
2.43.0


From c89edbb95c2ca3197b6fcd10b9ccfaf2fc3895cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 22/38] fix: rectangular_hollow_section builds the section when
 adjacent radii meet

If r_out (or r_in) is half the width or depth, the end points of two adjacent
radii coincide up to rounding; when they cross the polygon is invalid and the
subtraction fails with 'Geometry generation failed.'.
---
 src/sectionproperties/pre/library/steel_sections.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/library/steel_sections.py b/src/sectionproperties/pre/library/steel_sections.py
index 21b7b9f..a9b7018 100644
--- a/src/sectionproperties/pre/library/steel_sections.py
+++ b/src/sectionproperties/pre/library/steel_sections.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 import numpy as np
-from shapely import Polygon
+from shapely import Polygon, remove_repeated_points
 
 import sectionproperties.pre.geometry as geometry
 import sectionproperties.pre.library.utils as sp_utils
@@ -233,8 +233,10 @@ def rectangular_hollow_section(
         n_r,
     )
 
-    outer_polygon = Polygon(points_outer)
-    inner_polygon = Polygon(points_inner)
+    # merge the end points of adjacent radii that meet (e.g. r_out = b / 2)
+    tol = 1e-9 * min(b, d)
+    outer_polygon = remove_repeated_points(Polygon(points_outer), tolerance=tol)
+    inner_polygon = remove_repeated_points(Polygon(points_inner), tolerance=tol)
     poly_sub = outer_polygon - inner_polygon
 
     if isinstance(poly_sub, Polygon):
-- 
2.43.0


From f463e33a8f92cc01ab35e136e3ef8db2d04492bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 23/38] fix: double_lift_core_b spaces the inner pier bars
 between the pier face and the central wall

The inner pier bars were spread to the middle of the central wall with a bar count
based on a shorter length: gaps next to the central wall exceeded the maximum
spacing, or bars clashed with the bars of the central wall.
---
 src/sectionproperties/pre/library/concrete_sections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 8debb86..7090b6d 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -2105,15 +2105,15 @@ def double_lift_core_b(
             ys.append(y)
 
         # inner pier bars
-        y_pier = nib - 2 * cover - dia_bar
+        y_pier = nib
         n_pier = ceil(y_pier / spacing) + 1
         y_pier_b = np.linspace(
             start=0.5 * (d - a2) + cover + 0.5 * dia_bar,
-            stop=0.5 * d - cover - 0.5 * dia_bar,
+            stop=0.5 * (d - t3) + cover + 0.5 * dia_bar,
             num=n_pier,
         )
         y_pier_t = np.linspace(
-            start=0.5 * d + cover + 0.5 * dia_bar,
+            start=0.5 * (d + t3) - cover - 0.5 * dia_bar,
             stop=0.5 * (d + a2) - cover - 0.5 * dia_bar,
             num=n_pier,
         )
-- 
2.43.0


From 8bc1c943bf0691c9a8c95a3bd2a5196271d5ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 24/38] fix: concrete_column_section raises the documented
 ValueError for fewer than 2 bars

---
 src/sectionproperties/pre/library/concrete_sections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 7090b6d..e054f01 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -301,6 +301,10 @@ def concrete_column_section(
             geom.create_mesh(mesh_sizes=[0])  # a size of zero creates a coarse mesh
             Section(geometry=geom).plot_mesh()
     """
+    if n_x < 2 or n_y < 2:
+        msg = "Please provide 2 or more bars in both the x and y directions."
+        raise ValueError(msg)
+
     concrete_geometry = primitive_sections.rectangular_section(
         d=d, b=b, material=conc_mat
     )
-- 
2.43.0


From bebfd067e3715596b21c66363f407f19db31e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 25/38] fix: lift core and stairwell outlines share exact
 coordinates between openings

Openings cut one after another were positioned with differently rounded
coordinates: shared edges missed by 1e-12, leaving needles of concrete between the
lift well and the door which cannot be meshed.
---
 .../pre/library/concrete_sections.py          | 44 +++++++------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index e054f01..c0f7219 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 from math import ceil
 
 import numpy as np
+from shapely import box
 
 import sectionproperties.pre.library.primitive_sections as primitive_sections
 import sectionproperties.pre.pre as pre
@@ -1314,13 +1315,9 @@ def single_lift_core(
     """
     # create lift core geometry
     geom_outer = primitive_sections.rectangular_section(d=d, b=b, material=conc_mat)
-    geom_inner = primitive_sections.rectangular_section(
-        d=d - 2 * t1, b=b - 2 * t2, material=conc_mat
-    ).align_center(align_to=geom_outer)
-    geom_door = (
-        primitive_sections.rectangular_section(d=a, b=t2, material=conc_mat)
-        .align_center(align_to=geom_outer)
-        .align_to(other=geom_outer, on="right", inner=True)
+    geom_inner = Geometry(box(t2, t1, b - t2, d - t1), material=conc_mat)
+    geom_door = Geometry(
+        box(b - t2, 0.5 * (d - a), b, 0.5 * (d + a)), material=conc_mat
     )
     geom = geom_outer - geom_inner - geom_door
 
@@ -1596,13 +1593,12 @@ def double_lift_core_a(
 
     # create lift core geometry
     geom_outer = primitive_sections.rectangular_section(d=d, b=b, material=conc_mat)
-    geom_inner = primitive_sections.rectangular_section(
-        d=d - 2 * t1, b=b - 2 * t2, material=conc_mat
-    ).align_center(align_to=geom_outer)
-    geom_door = primitive_sections.rectangular_section(d=a1, b=t2, material=conc_mat)
+    geom_inner = Geometry(box(t2, t1, b - t2, d - t1), material=conc_mat)
     nib = 0.5 * (d - 2 * a1 - a2 - 2 * t1)
-    geom_door_t = geom_door.shift_section(x_offset=b - t2, y_offset=d - t1 - nib - a1)
-    geom_door_b = geom_door.shift_section(x_offset=b - t2, y_offset=t1 + nib)
+    y_t = d - t1 - nib
+    y_b = t1 + nib
+    geom_door_t = Geometry(box(b - t2, y_t - a1, b, y_t), material=conc_mat)
+    geom_door_b = Geometry(box(b - t2, y_b, b, y_b + a1), material=conc_mat)
     geom = geom_outer - geom_inner - geom_door_t - geom_door_b
 
     # positions of bars to add
@@ -1907,16 +1903,14 @@ def double_lift_core_b(
 
     # create lift core geometry
     geom_outer = primitive_sections.rectangular_section(d=d, b=b, material=conc_mat)
-    geom_inner = primitive_sections.rectangular_section(
-        d=0.5 * (d - 2 * t1 - t3), b=b - 2 * t2, material=conc_mat
-    )
-    geom_door = primitive_sections.rectangular_section(d=a, b=t2, material=conc_mat)
+    y_t = d - t1 - nib
+    y_b = t1 + nib
     geom = (
         geom_outer
-        - geom_inner.shift_section(x_offset=t2, y_offset=t1)
-        - geom_inner.shift_section(x_offset=t2, y_offset=0.5 * (d + t3))
-        - geom_door.shift_section(x_offset=b - t2, y_offset=d - t1 - nib - a)
-        - geom_door.shift_section(x_offset=b - t2, y_offset=t1 + nib)
+        - Geometry(box(t2, t1, b - t2, 0.5 * (d - t3)), material=conc_mat)
+        - Geometry(box(t2, 0.5 * (d + t3), b - t2, d - t1), material=conc_mat)
+        - Geometry(box(b - t2, y_t - a, b, y_t), material=conc_mat)
+        - Geometry(box(b - t2, y_b, b, y_b + a), material=conc_mat)
     )
 
     # positions of bars to add
@@ -2240,12 +2234,8 @@ def stairwell(
     """
     # create stairwell geometry
     geom_outer = primitive_sections.rectangular_section(d=d, b=b, material=conc_mat)
-    geom_inner = primitive_sections.rectangular_section(
-        d=d - 2 * t1, b=b - 2 * t2, material=conc_mat
-    ).align_center(align_to=geom_outer)
-    geom_door = primitive_sections.rectangular_section(
-        d=a, b=t2, material=conc_mat
-    ).shift_section(x_offset=b - t2, y_offset=d - t1 - a)
+    geom_inner = Geometry(box(t2, t1, b - t2, d - t1), material=conc_mat)
+    geom_door = Geometry(box(b - t2, d - t1 - a, b, d - t1), material=conc_mat)
     geom = geom_outer - geom_inner - geom_door
 
     # positions of bars to add
-- 
2.43.0


From 9c080dda1973947962e1e52186a224393cda6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 26/38] fix: warping and frame analyses use the mesh of the
 section

A Section keeps the mesh its geometry had on creation, but the warping analysis was
run on the current mesh of the geometry: re-meshing the geometry (e.g. for another
Section in a convergence study) made it fail or store a warping function of another
mesh.
---
 src/sectionproperties/analysis/section.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 1e32607..93d4042 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -6,6 +6,7 @@ properties.
 
 from __future__ import annotations
 
+import copy
 import warnings
 from dataclasses import dataclass, field
 from typing import TYPE_CHECKING, Any, cast
@@ -429,7 +430,10 @@ class Section:
         # create a new Section with the origin shifted to the centroid for calculation
         # of the warping properties such that the Lagrangian multiplier approach can be
         # utilised
-        warping_section = Section(geometry=self.geometry)
+        # N.B. use the mesh of this section, the geometry may have been re-meshed
+        warping_geometry = copy.copy(self.geometry)
+        warping_geometry.mesh = self.mesh
+        warping_section = Section(geometry=warping_geometry)
 
         # shift the coordinates of each element
         # N.B. the mesh class attribute remains unshifted!
@@ -1013,7 +1017,10 @@ class Section:
         def warping_analysis(progress: Progress | None = None) -> None:
             # create a new Section with the origin shifted to the centroid for
             # calculation of the warping properties
-            warping_section = Section(geometry=self.geometry)
+            # N.B. use the mesh of this section, the geometry may have been re-meshed
+            warping_geometry = copy.copy(self.geometry)
+            warping_geometry.mesh = self.mesh
+            warping_section = Section(geometry=warping_geometry)
 
             # shift the coordinates of each element N.B. the mesh class attribute
             # remains unshifted
-- 
2.43.0


From 51e9587c022098e0d666bda66bc5486df964a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 27/38] fix: refuse warping, plastic and stress analyses that
 only a frame analysis precedes

---
 src/sectionproperties/analysis/section.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 93d4042..8a3a973 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -410,6 +410,7 @@ class Section:
         if None in [
             self.section_props.area,
             self.section_props.ixx_c,
+            self.section_props.i11_c,
             self.section_props.cx,
         ]:
             err = "Calculate geometric properties before performing a warping analysis."
@@ -1208,7 +1209,7 @@ class Section:
           - Shape factors (centroidal and principal axes)
         """
         # check that a geometric analysis has been performed
-        if self.section_props.cx is None:
+        if None in [self.section_props.cx, self.section_props.i11_c]:
             err = "Calculate geometric properties before performing a plastic analysis."
             raise RuntimeError(err)
 
@@ -1298,6 +1299,7 @@ class Section:
         if None in [
             self.section_props.area,
             self.section_props.ixx_c,
+            self.section_props.i11_c,
             self.section_props.cx,
         ]:
             msg = "Perform a geometric analysis before carrying out a stress analysis."
@@ -1307,7 +1309,7 @@ class Section:
         if vx != 0 or vy != 0 or mzz != 0:
             warping = True
 
-            if self.section_props.omega is None:
+            if self.section_props.psi_shear is None:
                 msg = "Perform a warping analysis before carrying out a stress "
                 msg += "analysis with non-zero shear forces or torsion moment."
                 raise RuntimeError(msg)
@@ -3325,7 +3327,7 @@ class Section:
         if vx != 0 or vy != 0 or mzz != 0:
             warping = True
 
-            if self.section_props.omega is None:
+            if self.section_props.psi_shear is None:
                 msg = "Perform a warping analysis before carrying out a stress "
                 msg += "analysis with non-zero shear forces or torsion moment."
                 raise RuntimeError(msg)
-- 
2.43.0


From a1539755fc5e0dacfa24c8ca3c2eabcdfafda25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 28/38] fix: calculate_frame_properties reports no torsion
 constant until it has been solved

---
 src/sectionproperties/analysis/section.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 8a3a973..626dd65 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -929,7 +929,6 @@ class Section:
             self.section_props.ixx_c = 0.0
             self.section_props.iyy_c = 0.0
             self.section_props.ixy_c = 0.0
-            self.section_props.j = 0.0
             self.section_props.phi = 0.0
 
             if progress:
-- 
2.43.0


From 32b041af0676f28587e1dd9a802bf73c1f0add42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 29/38] fix: to_fibre_section exports the mesh of the section
 it is given

---
 src/sectionproperties/post/fibre.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index edc99a9..8564878 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -156,11 +156,7 @@ def to_fibre_section(
     Returns:
         str: The exported commands
     """
-    if isinstance(obj, Geometry | CompoundGeometry):
-        geometry = obj
-    elif isinstance(obj, Section):  # pyright: ignore [reportUnnecessaryIsInstance]
-        geometry = obj.geometry
-    else:
+    if not isinstance(obj, Geometry | CompoundGeometry | Section):  # pyright: ignore [reportUnnecessaryIsInstance]
         msg = f"Expected a Geometry or Section, got {type(obj).__name__}"
         raise TypeError(msg)
 
@@ -180,7 +176,8 @@ def to_fibre_section(
         msg = "Invalid analysis type, expected 2D, 3D or 3DOS"
         raise ValueError(msg)
 
-    section = Section(geometry)
+    # export the mesh of the section, the geometry may have been re-meshed since
+    section = obj if isinstance(obj, Section) else Section(obj)
 
     if cell_class is Cell3DOS:
         stiffness, force = section.assemble_torsion()
-- 
2.43.0


From 9924db92280462f3c8aa1f05d66e6e8c04402774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 30/38] fix: to_fibre_section keeps the tag list within
 max_width

---
 src/sectionproperties/post/fibre.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 8564878..d793d31 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -204,10 +204,11 @@ def to_fibre_section(
     part = f"section {fibre_class} {main_section_tag} "
     for cell in cells:
         cell.tag += main_section_tag
-        part += f"{cell.tag} "
-        if len(part) > max_width:
+        # leave room for the line continuation character
+        if part and len(part) + len(f"{cell.tag} ") + 1 > max_width:
             commands += part + "\\\n"
             part = ""
+        part += f"{cell.tag} "
 
     commands += part + "\n\n"
     commands += "\n".join(cell.export() for cell in cells)
-- 
2.43.0


From a0cdd580ec15438933fc0b6736c842e435c688f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 31/38] fix: serialise calls to the shared pardiso solver

---
 src/sectionproperties/analysis/solver.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/solver.py b/src/sectionproperties/analysis/solver.py
index 9589951..6ed85fe 100644
--- a/src/sectionproperties/analysis/solver.py
+++ b/src/sectionproperties/analysis/solver.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import threading
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -26,7 +27,25 @@ if TYPE_CHECKING:
 try:
     import pypardiso
 
-    sp_solve = pypardiso.spsolve
+    # all calls share a single pardiso solver, which is not thread safe
+    pardiso_lock = threading.Lock()
+
+    def sp_solve(
+        A: csc_matrix,  # noqa: N803
+        b: npt.NDArray[np.float64],
+    ) -> npt.NDArray[np.float64]:
+        """Solves a linear system with pardiso, one thread at a time.
+
+        Args:
+            A: ``N x N`` matrix of the linear system
+            b: ``N x 1`` right hand side of the linear system
+
+        Returns:
+            The solution vector to the linear system of equations
+        """
+        with pardiso_lock:
+            return pypardiso.spsolve(A=A, b=b)
+
 except ImportError:
     sp_solve = spsolve
 
-- 
2.43.0


From 5afc1dec0014e8c393a88dcf7f334caa7f8c8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 32/38] fix: plot_mesh colours the elements by material when
 some are masked out

---
 src/sectionproperties/analysis/section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 626dd65..555ca26 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -1654,6 +1654,8 @@ class Section:
                     triang,
                     c,
                     cmap=cmap,
+                    vmin=0,
+                    vmax=len(c) - 1,
                 )
 
                 # display the legend
-- 
2.43.0


From 26d0a67e5d5137c3fbbe6885e91ef84b6d5d95fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 33/38] fix: plot_stress_vector uses one colour range for all
 materials

---
 src/sectionproperties/post/stress_post.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/post/stress_post.py b/src/sectionproperties/post/stress_post.py
index 98adff0..d9e34af 100644
--- a/src/sectionproperties/post/stress_post.py
+++ b/src/sectionproperties/post/stress_post.py
@@ -521,9 +521,10 @@ class StressPost:
                 c_min: float = min(c_min, min(c))
                 c_max: float = max(c_max, max(c))
 
-            # apply the scale
+            # apply the scale and the colour limits
             for quiv_plot in quiv_list:
                 quiv_plot.scale = max_scale
+                quiv_plot.set_clim(c_min, c_max)
 
             # apply the colorbar
             v1 = np.linspace(
-- 
2.43.0


From 962e6b3267c170036aff6292d17eaf72a06622fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 34/38] fix: refuse to combine a geometry with an object that
 is not a geometry

---
 src/sectionproperties/pre/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 071a7c3..54892fd 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1678,6 +1678,9 @@ class CompoundGeometry(Geometry):
         Args:
             geoms: Either a list of Geometry objects or a :class:`shapely.MultiPolygon`
                 instance.
+
+        Raises:
+            ValueError: If ``geoms`` contains an object that is not a Geometry
         """
         if isinstance(geoms, MultiPolygon):
             self.geoms = [
@@ -1693,6 +1696,9 @@ class CompoundGeometry(Geometry):
                     processed_geoms += item.geoms
                 elif isinstance(item, Geometry):  # pyright: ignore [reportUnnecessaryIsInstance]
                     processed_geoms.append(item)
+                else:
+                    msg = f"Argument is not a Geometry or CompoundGeometry: {item!r}"
+                    raise ValueError(msg)
 
             self.geoms = processed_geoms
             self.geom = MultiPolygon([geom.geom for geom in processed_geoms])
-- 
2.43.0


From 7c6c6f317832be891749d5a9e278727a7e6267e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 35/38] fix: detect the holes of a compound geometry
 independently of its units

The union of the regions was buffered by an amount proportional to its area,
which for sections in small units (areas above about 1e8) closes real voids,
so that they were meshed as part of the first region.
---
 src/sectionproperties/pre/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 54892fd..35ab4a5 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -33,7 +33,7 @@ if TYPE_CHECKING:
     import matplotlib.axes
 
 
-SCALE_CONSTANT = 1e-9
+SCALE_CONSTANT = 1e-8
 
 
 class Geometry:
@@ -2517,7 +2517,7 @@ class CompoundGeometry(Geometry):
         # holes have been destroyed (or "filled in").
         resultant_holes: list[tuple[float, float]] = []
         unionized_poly = unary_union([geom.geom for geom in self.geoms])
-        buffer_amount = unionized_poly.area * SCALE_CONSTANT
+        buffer_amount = unionized_poly.area**0.5 * SCALE_CONSTANT
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
         if isinstance(unionized_poly, MultiPolygon):
-- 
2.43.0


From 22858378eb98e8b16df28a3079837c2b5d00df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 36/38] fix: find disjoint regions without recursion (a chain
 of about 1000 regions exceeded the recursion limit)

---
 src/sectionproperties/pre/geometry.py | 37 +++++++--------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 35ab4a5..508e276 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2946,36 +2946,17 @@ def check_geometry_disjoint(
     # Build polygon connectivity network
     network = build_geometry_network(lop)
 
-    def walk_network(
-        node: int,
-        network: dict[int, set[int]],
-        nodes_visited: list[int],
-    ) -> list[int]:
-        """Walks the network modifying 'nodes_visited' as it walks.
-
-        Args:
-            node: Initial node index
-            network: Dictionary describing the node network
-            nodes_visited: Initial list of nodes visited
-
-        Returns:
-            Updated node indices of the nodes that have been visisted
-        """
-        connections = network.get(node, set())
-
-        for connection in connections:
-            if connection in nodes_visited:
-                continue
-            else:
-                nodes_visited.append(connection)
-                walk_network(connection, network, nodes_visited)
+    # Traverse polygon connectivity network
+    # (iteratively, as the network may be deeper than the recursion limit)
+    nodes_visited = {0}
+    nodes_to_walk = [0]
 
-        return nodes_visited
+    while nodes_to_walk:
+        for connection in network.get(nodes_to_walk.pop(), set()) - nodes_visited:
+            nodes_visited.add(connection)
+            nodes_to_walk.append(connection)
 
-    # Traverse polygon connectivity network
-    nodes_visited = [0]
-    walk_network(0, network, nodes_visited)
-    return set(nodes_visited) != set(network.keys())
+    return nodes_visited != set(network.keys())
 
 
 def build_geometry_network(
-- 
2.43.0


From 5072da31408b0920140f6324e80df15ff7426e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:19 +0000
Subject: [PATCH 37/38] fix: intersect geometries that only touch along several
 edges or points (gives an empty geometry)

---
 src/sectionproperties/pre/geometry.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 508e276..eb9f2e2 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -15,6 +15,7 @@ from shapely import (
     LinearRing,
     LineString,
     MultiLineString,
+    MultiPoint,
     MultiPolygon,
     Point,
     Polygon,
@@ -1628,7 +1629,13 @@ class Geometry:
 
             if isinstance(
                 and_poly,
-                GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+                GeometryCollection
+                | LineString
+                | MultiLineString
+                | Point
+                | MultiPoint
+                | Polygon
+                | MultiPolygon,
             ):
                 new_polygon = filter_non_polygons(and_poly)  # pyright: ignore [reportUnknownArgumentType]
             else:
@@ -2792,13 +2799,19 @@ def dissolve_geometry(
 
 
 def filter_non_polygons(
-    input_geom: GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+    input_geom: GeometryCollection
+    | LineString
+    | MultiLineString
+    | Point
+    | MultiPoint
+    | Polygon
+    | MultiPolygon,
 ) -> Polygon | MultiPolygon:
     """Filters shapely geometries to return only polygons.
 
     Returns a Polygon or a MultiPolygon representing any such Polygon on MultiPolygon
-    that may exist in the ``input_geom``. If ``input_geom`` is a LineString or Point, an
-    empty Polygon is returned.
+    that may exist in the ``input_geom``. If ``input_geom`` only consists of lines or
+    points, an empty Polygon is returned.
 
     Args:
         input_geom: Shapely geometry to filter
-- 
2.43.0


From 90822e304904c6a396711e2a0f679a99b77167aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 38/38] fix: bound steep splitting lines vertically (a plastic
 analysis lost the section to an almost vertical line)

---
 src/sectionproperties/pre/bisect_section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/bisect_section.py b/src/sectionproperties/pre/bisect_section.py
index 9bfa2ca..c5c387d 100644
--- a/src/sectionproperties/pre/bisect_section.py
+++ b/src/sectionproperties/pre/bisect_section.py
@@ -33,14 +33,14 @@ def create_line_segment(
     b_2 = max(bounds)
     b_1 = min(bounds)
 
-    if abs(vector[0]) > 1e-12:  # Not a vertical line
+    if abs(vector[0]) >= abs(vector[1]):  # Closer to horizontal than to vertical
         scale_factor_2 = (b_2 - p_x) / vector[0]
         y_2 = scale_factor_2 * vector[1] + p_y
         scale_factor_1 = (b_1 - p_x) / vector[0]
         y_1 = scale_factor_1 * vector[1] + p_y
 
         return LineString([(b_1, y_1), (b_2, y_2)])
-    else:  # Vertical line
+    else:  # Closer to vertical than to horizontal
         scale_factor_2 = (b_2 - p_y) / vector[1]
         x_2 = scale_factor_2 * vector[0] + p_x
         scale_factor_1 = (b_1 - p_y) / vector[1]
-- 
2.43.0

