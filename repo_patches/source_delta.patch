From 24dd4e8f9a74f94eb18e7dc92d67a946d5bddf27 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 01/23] fix: add elements to the group of an equal material,
 not only the identical one

---
 src/sectionproperties/analysis/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index cee7965..1e32607 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -158,7 +158,7 @@ class Section:
 
             # add element to relevant MaterialGroup
             for group in self.material_groups:
-                if material is group.material:
+                if material == group.material:
                     group.add_element(element=new_element)
                     break
 
-- 
2.43.0


From 44fd526b41f97d09e6ca8ae0b4da47111361f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 02/23] fix: detect a negative multiplier in solve_cgs_lagrange

The constraint multiplier was compared with the tolerance without taking its
absolute value, so a negative multiplier of any size was accepted.
---
 src/sectionproperties/analysis/solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/analysis/solver.py b/src/sectionproperties/analysis/solver.py
index 449c58f..4bb63cf 100644
--- a/src/sectionproperties/analysis/solver.py
+++ b/src/sectionproperties/analysis/solver.py
@@ -87,10 +87,12 @@ def solve_cgs_lagrange(
         msg = "CGS iterative method did not converge."
         raise RuntimeError(msg)
 
-    # compute error
-    err = u[-1] / max(np.absolute(u))
+    # compute error (the multiplier may have either sign)
+    multiplier = abs(u[-1])
+    err = multiplier / max(np.absolute(u))
 
-    if err > tol:
+    # ignore a multiplier at machine precision, when the whole solution vanishes
+    if err > tol and multiplier > 10.0 * np.finfo(float).eps:
         msg = "Lagrangian multiplier method error exceeds tolerance."
         raise RuntimeError(msg)
 
-- 
2.43.0


From c6294102a0f2a9a73b82cd3c47ca004d9ad9ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 03/23] fix: split about a line given by a short direction
 vector

---
 src/sectionproperties/pre/bisect_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/bisect_section.py b/src/sectionproperties/pre/bisect_section.py
index 9bfa2ca..8504d38 100644
--- a/src/sectionproperties/pre/bisect_section.py
+++ b/src/sectionproperties/pre/bisect_section.py
@@ -33,7 +33,7 @@ def create_line_segment(
     b_2 = max(bounds)
     b_1 = min(bounds)
 
-    if abs(vector[0]) > 1e-12:  # Not a vertical line
+    if abs(vector[0]) > 1e-12 * abs(vector[1]):  # Not a vertical line
         scale_factor_2 = (b_2 - p_x) / vector[0]
         y_2 = scale_factor_2 * vector[1] + p_y
         scale_factor_1 = (b_1 - p_x) / vector[0]
-- 
2.43.0


From b746a42192f5b5476044275e74dd1570de39aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 04/23] fix: mirror a compound geometry about the centre of its
 own bounding box

---
 src/sectionproperties/pre/geometry.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 1b62548..338328f 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2146,9 +2146,15 @@ class CompoundGeometry(Geometry):
                 )
                 compound.mirror_section(axis="y", mirror_point=(0,0)).plot_geometry()
         """
+        # mirror all regions about the same point, as in rotate_section()
+        if mirror_point == "center":
+            centre = box(*MultiPolygon(self.geom).bounds).centroid
+            mp = centre.x, centre.y
+        else:
+            mp = mirror_point
+
         geoms_acc = [
-            geom.mirror_section(axis=axis, mirror_point=mirror_point)
-            for geom in self.geoms
+            geom.mirror_section(axis=axis, mirror_point=mp) for geom in self.geoms
         ]
 
         return CompoundGeometry(geoms=geoms_acc)
-- 
2.43.0


From daf98526b798768fa22cfe365946674f9dd14667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 05/23] fix: mirror an assigned control point about the centre
 of the geometry

---
 src/sectionproperties/pre/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 338328f..75b14c5 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -804,6 +804,9 @@ class Geometry:
         if mirror_point != "center" and not isinstance(mirror_point, str):
             x, y = mirror_point
             m_pt = (x, y)
+        elif mirror_point == "center":
+            centre = box(*self.geom.bounds).centroid
+            m_pt = (centre.x, centre.y)
         else:
             m_pt = mirror_point
 
@@ -828,7 +831,7 @@ class Geometry:
                 xfact=y_mirror,
                 yfact=x_mirror,
                 zfact=1.0,
-                origin=mirror_point,  # pyright: ignore [reportArgumentType]
+                origin=m_pt,  # pyright: ignore [reportArgumentType]
             )
             new_ctrl_point = new_ctrl_point_geom.x, new_ctrl_point_geom.y
 
-- 
2.43.0


From a32fe0654eb87ea2e17b6c298990c6d5c2d96b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 06/23] fix: align to the inside of a point along the requested
 edge

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 75b14c5..5df6f12 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -589,7 +589,7 @@ class Geometry:
         self_align_coord = self_extents[self_align_idx]
 
         if inner:
-            self_align_coord = self_extents[align_to_idx]
+            self_align_coord = self_extents[other_as_geom_map[on]]
 
         offset = align_to_coord - self_align_coord
         arg = "x_offset"
-- 
2.43.0


From c6afa0170041a78c5905e892c8f22c46144380e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 07/23] fix: drop the regions a subtraction removes entirely
 from a compound geometry

---
 src/sectionproperties/pre/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 5df6f12..9950684 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1473,7 +1473,10 @@ class Geometry:
 
             for geom in self.geoms:
                 new_geom = geom - other
-                subs_geom_acc.append(new_geom)
+
+                # a region that is removed entirely does not remain as an empty region
+                if not new_geom.geom.is_empty:
+                    subs_geom_acc.append(new_geom)
 
             return CompoundGeometry(geoms=subs_geom_acc)
         else:
-- 
2.43.0


From b2cd88b75bf923e3ebab6a105020dd4ccba98371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 08/23] fix: place hole points in the void when a hole
 surrounds disconnected regions

---
 src/sectionproperties/pre/geometry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 9950684..becb651 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2454,9 +2454,16 @@ class CompoundGeometry(Geometry):
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
         if isinstance(unionized_poly, MultiPolygon):
-            for poly in unionized_poly.geoms:
-                for interior in poly.interiors:
-                    rp: Point = Polygon(interior).representative_point()
+            # a hole may surround other disconnected regions, so a point within its ring
+            # is not necessarily in the void
+            filled_poly = unary_union(
+                [Polygon(poly.exterior) for poly in unionized_poly.geoms]
+            )
+            voids = filled_poly - unionized_poly
+
+            for void in getattr(voids, "geoms", [voids]):
+                if isinstance(void, Polygon) and not void.is_empty:
+                    rp: Point = void.representative_point()
                     coords = rp.coords[0]
                     resultant_holes.append(coords)  # pyright: ignore [reportArgumentType]
 
-- 
2.43.0


From eed5b3d663ec262bd6523728e5b74bfb877dfeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 09/23] fix: include a single polygon in the geometry network

---
 src/sectionproperties/pre/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index becb651..776a291 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2890,6 +2890,9 @@ def build_geometry_network(
     network: dict[int, set[int]] = {}
 
     for idx_i, poly1 in enumerate(lop):
+        # a single polygon is a node of the network without connections
+        network[idx_i] = set()
+
         for idx_j, poly2 in enumerate(lop):
             if idx_i != idx_j:
                 connectivity = network.get(idx_i, set())
-- 
2.43.0


From 1eaaaa4ae794b6a2625e9b8103c9d87435ea5c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 10/23] fix: take the union of a compound geometry's regions
 before a set operation

---
 src/sectionproperties/pre/geometry.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 776a291..b19cb05 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1347,7 +1347,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            or_poly = self.geom | other.geom
+            or_poly = covered_region(self) | covered_region(other)
 
             if isinstance(
                 or_poly,
@@ -1407,7 +1407,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            xor_poly = self.geom ^ other.geom
+            xor_poly = covered_region(self) ^ covered_region(other)
 
             if isinstance(
                 xor_poly,
@@ -1483,7 +1483,7 @@ class Geometry:
             material = self.material or pre.DEFAULT_MATERIAL
 
             try:
-                sub_poly = self.geom - other.geom
+                sub_poly = self.geom - covered_region(other)
 
                 if isinstance(
                     sub_poly,
@@ -1603,7 +1603,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            and_poly = self.geom & other.geom
+            and_poly = covered_region(self) & covered_region(other)
 
             if isinstance(
                 and_poly,
@@ -2707,6 +2707,24 @@ def buffer_polygon(
         return Polygon()
 
 
+def covered_region(geometry: Geometry | CompoundGeometry) -> Polygon | MultiPolygon:
+    """Returns the region covered by a geometry as a valid ``shapely`` object.
+
+    The regions of a compound geometry may share edges or overlap, in which case its
+    ``MultiPolygon`` is not valid and ``shapely`` set operations on it are unreliable.
+
+    Args:
+        geometry: Geometry or CompoundGeometry object
+
+    Returns:
+        Polygon or MultiPolygon covering the same points as ``geometry``
+    """
+    if geometry.geom.is_valid:
+        return geometry.geom
+
+    return unary_union(geometry.geom)  # pyright: ignore
+
+
 def filter_non_polygons(
     input_geom: GeometryCollection | LineString | Point | Polygon | MultiPolygon,
 ) -> Polygon | MultiPolygon:
-- 
2.43.0


From 96b18fd025304a833b35cb375689a374a2b8fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 11/23] fix: separate facet loops that share their first point
 in from_points

---
 src/sectionproperties/pre/geometry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index b19cb05..7252d41 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -225,6 +225,7 @@ class Geometry:
         interiors: list[list[tuple[float, float]]] = [[] for _ in holes]
         interior_counter = 0  # To keep track of interior regions
         active_list = exterior  # The active_list is the list being accumulated on
+        start_idx = 0  # To keep track of the first vertex of the active_list
 
         for facet in facets:  # Loop through facets for graph connectivity
             i_idx, _ = facet
@@ -232,14 +233,15 @@ class Geometry:
             if not prev_facet:  # Add the first facet vertex to exterior and move on
                 vertex = points[i_idx]
                 active_list.append(vertex)
+                start_idx = i_idx
                 prev_facet = facet
                 continue
 
             # Look at the last j_idx to test for a break in the chain of edges
             prev_j_idx = prev_facet[1]
 
-            # If there is a break in the chain of edges...
-            if i_idx != prev_j_idx and holes:
+            # If there is a break in the chain of edges (or the chain has closed)...
+            if (i_idx != prev_j_idx or prev_j_idx == start_idx) and holes:
                 # ...and we are still accumulating on the exterior...
                 if active_list == exterior:
                     active_list = interiors[interior_counter]
@@ -250,6 +252,7 @@ class Geometry:
                     interior_counter += 1
                     active_list = interiors[interior_counter]
                 active_list.append(points[i_idx])
+                start_idx = i_idx
             else:
                 # Only need i_idx b/c shapely auto-closes polygons
                 active_list.append(points[i_idx])
@@ -1816,24 +1819,28 @@ class CompoundGeometry(Geometry):
 
         # initialise indices
         i_idx, j_idx = 0, 0
+        start_idx = 0  # index of the first point of the current polygon
 
         for facet in facets:
             i_idx, j_idx = facet
 
             if not prev_facet:  # Add the first facet vertex to exterior and move on
                 current_polygon_points.append(points[i_idx])
+                start_idx = i_idx
                 prev_facet = facet
                 continue
 
             prev_j_idx = prev_facet[1]
 
-            if i_idx != prev_j_idx:  # If there is a break in the chain of edges...
+            # If there is a break in the chain of edges (or the chain has closed)...
+            if i_idx != prev_j_idx or prev_j_idx == start_idx:
                 # ... then add the last point, close off the polygon,
                 # and add the polygon to the all_polygons accumulator....
                 current_polygon_points.append(points[prev_j_idx])
                 all_polygons.append(Polygon(current_polygon_points))
                 # Then start collecting the points of the new polygon
                 current_polygon_points = [points[i_idx]]
+                start_idx = i_idx
             else:
                 current_polygon_points.append(
                     points[i_idx]
-- 
2.43.0


From 6fb4dcbb82e7310513ddf3f63a87232e6e17c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 12/23] fix: put the bottom recovery points of nastran_i on the
 bottom flange

---
 src/sectionproperties/pre/library/nastran_sections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index f4d3495..96e83bd 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -1099,8 +1099,8 @@ def nastran_i(
     geom = geometry.Geometry(geom=Polygon(points), material=material)
 
     c = (0.5 * dim_3, 0.5 * dim_1)
-    d = (0.5 * dim_3, -0.5 * dim_1)
-    e = (-0.5 * dim_3, -0.5 * dim_1)
+    d = (0.5 * dim_2, -0.5 * dim_1)
+    e = (-0.5 * dim_2, -0.5 * dim_1)
     f = (-0.5 * dim_3, 0.5 * dim_1)
     geom.recovery_points = [c, d, e, f]
 
-- 
2.43.0


From df1ca77b96012bbf95908657fe64435873b7cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 13/23] fix: do not repeat points where the radii of a polygon
 hollow section merge to a circle

---
 src/sectionproperties/pre/library/steel_sections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/library/steel_sections.py b/src/sectionproperties/pre/library/steel_sections.py
index d2b9037..1258f38 100644
--- a/src/sectionproperties/pre/library/steel_sections.py
+++ b/src/sectionproperties/pre/library/steel_sections.py
@@ -344,8 +344,11 @@ def polygon_hollow_section(
     # rotation + alpha and repeat for n_side number of times to form full section
     # perimeter
 
+    # if the radii merge to a circle, each radius ends where the next one starts
+    n_points = n_r - 1 if r_in == a_in and n_r > 1 else n_r
+
     # construct the first radius (bottom right)
-    for i in range(n_r):
+    for i in range(n_points):
         # determine polar angle
         theta = 1 / 2 * np.pi + i * 1.0 / max(1, n_r - 1) * alpha
 
-- 
2.43.0


From d3f7ffdc067eb67fae618cbf3ac6bddfac93c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 14/23] fix: stack the layers of a CLT section by their own
 thicknesses

---
 src/sectionproperties/pre/library/timber_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/library/timber_sections.py b/src/sectionproperties/pre/library/timber_sections.py
index e5d3922..e0d5bab 100644
--- a/src/sectionproperties/pre/library/timber_sections.py
+++ b/src/sectionproperties/pre/library/timber_sections.py
@@ -71,7 +71,7 @@ def clt_rectangular_section(
 
         # create rectangular timber geometry
         layer = primitive_sections.rectangular_section(d=di, b=b, material=timb_mat)
-        offset = -d[idx] * (idx + 1)
+        offset = -sum(d[: idx + 1])
         layer = layer.shift_section(y_offset=offset)
 
         layer_geom.append(layer)
-- 
2.43.0


From d0687fee8e5894885484bda69f73693efdd35808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 15/23] fix: keep the inner pier bars of double_lift_core_b
 within the maximum spacing

---
 src/sectionproperties/pre/library/concrete_sections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 8debb86..7090b6d 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -2105,15 +2105,15 @@ def double_lift_core_b(
             ys.append(y)
 
         # inner pier bars
-        y_pier = nib - 2 * cover - dia_bar
+        y_pier = nib
         n_pier = ceil(y_pier / spacing) + 1
         y_pier_b = np.linspace(
             start=0.5 * (d - a2) + cover + 0.5 * dia_bar,
-            stop=0.5 * d - cover - 0.5 * dia_bar,
+            stop=0.5 * (d - t3) + cover + 0.5 * dia_bar,
             num=n_pier,
         )
         y_pier_t = np.linspace(
-            start=0.5 * d + cover + 0.5 * dia_bar,
+            start=0.5 * (d + t3) - cover - 0.5 * dia_bar,
             stop=0.5 * (d + a2) - cover - 0.5 * dia_bar,
             num=n_pier,
         )
-- 
2.43.0


From cdc21ba3602ad1a767b525b0cbd6fce5e4fb2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 16/23] fix: apply the material mapping of a fibre export to
 the materials only

The mapping was applied to the whole text of the export, so that it also changed
other materials whose names contain a mapped name ("stainless-steel" under a mapping
of "steel"), the sizes and coordinates, the command words and the comments.
---
 src/sectionproperties/post/fibre.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 9310bdd..505ec2e 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -190,6 +190,13 @@ def to_fibre_section(
 
     cells = [cell_class(ele, omega) for ele in section.elements]
 
+    if material_mapping is not None:
+        tags = {
+            "-".join(name.split()): str(tag) for name, tag in material_mapping.items()
+        }
+        for cell in cells:
+            cell.material = tags.get(cell.material, cell.material)
+
     commands = """# This is generated by sectionproperties library.
 # Please note the following:
 #   1. The warping function and its derivatives (if present) are computed in the
@@ -211,10 +218,6 @@ def to_fibre_section(
     commands += "\n".join(cell.export() for cell in cells)
     commands += "\n\n"
 
-    if material_mapping is not None:
-        for name, tag in material_mapping.items():
-            commands = commands.replace("-".join(name.split()), str(tag))
-
     if isinstance(save_to, str):
         with open(save_to, "w") as f:
             f.write(commands)
-- 
2.43.0


From b27f978e0802edb8be36995141d6bfc4e4bd728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 17/23] fix: keep no torsion constant of a frame analysis that
 failed

calculate_frame_properties set j to zero before it solved for the warping function, so
that after a failed solution (e.g. an unknown solver type, or an iterative solver that
does not converge) get_j returned 0.0, also where j had been computed before.
---
 src/sectionproperties/analysis/section.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 1e32607..7c7bc5e 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -924,7 +924,6 @@ class Section:
             self.section_props.ixx_c = 0.0
             self.section_props.iyy_c = 0.0
             self.section_props.ixy_c = 0.0
-            self.section_props.j = 0.0
             self.section_props.phi = 0.0
 
             if progress:
-- 
2.43.0


From 92e9c3a3e27fc47904e64615cc9da968f8ceeb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 18/23] fix: keep the holes of small compound geometries far
 from the origin

The buffer of compile_geometry is proportional to the area; for a small section
far from the origin it falls below the resolution of the coordinates, where
shapely's buffer can lose holes.
---
 src/sectionproperties/pre/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 7252d41..fc19107 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2458,6 +2458,10 @@ class CompoundGeometry(Geometry):
         resultant_holes: list[tuple[float, float]] = []
         unionized_poly = unary_union([geom.geom for geom in self.geoms])
         buffer_amount = unionized_poly.area * SCALE_CONSTANT
+        # a buffer below the resolution of the coordinates can lose holes
+        if not unionized_poly.is_empty:
+            resolution = 1e-12 * max(abs(bound) for bound in unionized_poly.bounds)
+            buffer_amount = max(buffer_amount, resolution)
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
         if isinstance(unionized_poly, MultiPolygon):
-- 
2.43.0


From a50eaccd6eb5024f344d39e09058f97f11aefbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 19/23] fix: move points to an absolute coordinate of zero and
 keep the tolerance in shift_points

---
 src/sectionproperties/pre/geometry.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index fc19107..50650ac 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1128,7 +1128,6 @@ class Geometry:
         current_points = copy.copy(self.points)
         current_facets = copy.copy(self.facets)
         current_holes = copy.copy(self.holes)
-        current_material = copy.copy(self.material)
         current_control_points = copy.copy(self.control_points)
 
         if isinstance(point_idxs, int):
@@ -1138,8 +1137,8 @@ class Geometry:
 
         for point_idx in point_idxs:
             current_x, current_y = current_points[point_idx]
-            new_x = abs_x if abs_x else current_x + dx
-            new_y = abs_y if abs_y else current_y + dy
+            new_x = current_x + dx if abs_x is None else abs_x
+            new_y = current_y + dy if abs_y is None else abs_y
             current_points[point_idx] = (new_x, new_y)
 
         new_geom = Geometry.from_points(
@@ -1147,19 +1146,25 @@ class Geometry:
             facets=current_facets,
             control_points=current_control_points,
             holes=current_holes,
-            material=current_material,
+            material=self.material,
         )
+
+        # Check to see if assigned_control_point is still valid
         if self.assigned_control_point and new_geom.geom.contains(
             self.assigned_control_point
         ):
-            new_geom = Geometry.from_points(
-                points=current_points,
-                facets=current_facets,
-                control_points=current_control_points,
-                holes=current_holes,
-                material=current_material,
+            return Geometry(
+                geom=new_geom.geom,
+                material=self.material,
+                control_points=self.control_points[0],
+                tol=self.tol,
             )
-        return new_geom
+
+        return Geometry(
+            geom=new_geom.geom,
+            material=self.material,
+            tol=self.tol,
+        )
 
     def plot_geometry(
         self,
-- 
2.43.0


From 9cfad65dda65c1ed023721b21ee65a56a0917839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 20/23] fix: let regions that touch along several lines or
 points have an empty intersection

---
 src/sectionproperties/pre/geometry.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 50650ac..1c8aed0 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -15,6 +15,7 @@ from shapely import (
     LinearRing,
     LineString,
     MultiLineString,
+    MultiPoint,
     MultiPolygon,
     Point,
     Polygon,
@@ -1615,7 +1616,13 @@ class Geometry:
 
             if isinstance(
                 and_poly,
-                GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+                GeometryCollection
+                | LineString
+                | MultiLineString
+                | MultiPoint
+                | Point
+                | Polygon
+                | MultiPolygon,
             ):
                 new_polygon = filter_non_polygons(and_poly)  # pyright: ignore [reportUnknownArgumentType]
             else:
@@ -2742,13 +2749,19 @@ def covered_region(geometry: Geometry | CompoundGeometry) -> Polygon | MultiPoly
 
 
 def filter_non_polygons(
-    input_geom: GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+    input_geom: GeometryCollection
+    | LineString
+    | MultiLineString
+    | MultiPoint
+    | Point
+    | Polygon
+    | MultiPolygon,
 ) -> Polygon | MultiPolygon:
     """Filters shapely geometries to return only polygons.
 
     Returns a Polygon or a MultiPolygon representing any such Polygon on MultiPolygon
-    that may exist in the ``input_geom``. If ``input_geom`` is a LineString or Point, an
-    empty Polygon is returned.
+    that may exist in the ``input_geom``. If ``input_geom`` has no area (lines or
+    points), an empty Polygon is returned.
 
     Args:
         input_geom: Shapely geometry to filter
-- 
2.43.0


From a9aa5d9b8573fb89568101ae285a22e021b9aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 21/23] fix: use the stated resolution when dilating a compound
 geometry

---
 src/sectionproperties/pre/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 1c8aed0..9398aad 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2420,7 +2420,9 @@ class CompoundGeometry(Geometry):
             # across it from the shared vertex to the opposite vertex)
             # connorferster 2024-07-18
 
-            return compound_dilation(self.geoms, offset=amount)
+            return compound_dilation(
+                self.geoms, offset=amount, resolution=resolution
+            )
         else:
             return self
 
@@ -2833,12 +2835,15 @@ def check_geometry_overlaps(
 def compound_dilation(
     geoms: list[Geometry],
     offset: float,
+    resolution: int = 12,
 ) -> CompoundGeometry:
     """Returns a CompoundGeometry representing the input Geometries, dilated.
 
     Args:
         geoms: List of Geometry objects
         offset: A positive ``float`` or ``int``
+        resolution: Number of segments used to approximate a quarter circle around a
+            point. Defaults to ``12``.
 
     Raises:
         RuntimeError: If geometry generation fails
@@ -2859,7 +2864,7 @@ def compound_dilation(
             extract_shared_paths(mucky_shared_paths)  # pyright: ignore [reportArgumentType]
         )
         source = line_merge(poly_orig_exterior - shared_path_geometries)
-        buff = source.buffer(offset, cap_style="flat")
+        buff = source.buffer(offset, quad_segs=resolution, cap_style="flat")
         union = poly_orig | buff
 
         if isinstance(union, Polygon):
-- 
2.43.0


From e6a1d2af17a8ae80f21828e2fd08f49166315ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 22/23] fix: dilate the regions of a compound geometry outwards
 only

---
 src/sectionproperties/pre/geometry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 9398aad..d3a19b6 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2853,6 +2853,7 @@ def compound_dilation(
     """
     polys = [geom.geom for geom in geoms]
     geom_network = build_geometry_network(polys)
+    outlines = unary_union([Polygon(poly.exterior) for poly in polys])
     acc: list[Geometry] = []
 
     for poly_idx, connectivity in geom_network.items():
@@ -2865,7 +2866,14 @@ def compound_dilation(
         )
         source = line_merge(poly_orig_exterior - shared_path_geometries)
         buff = source.buffer(offset, quad_segs=resolution, cap_style="flat")
-        union = poly_orig | buff
+
+        # the region grows outwards only, not into its own holes or the other regions
+        union = (poly_orig | buff) - (outlines - poly_orig)
+
+        # leave out parts of the buffer on the far side of another region
+        if isinstance(union, MultiPolygon):
+            overlaps = [(poly & poly_orig).area for poly in union.geoms]
+            union = union.geoms[overlaps.index(max(overlaps))]
 
         if isinstance(union, Polygon):
             new = Geometry(union, material=geoms[poly_idx].material)
-- 
2.43.0


From aa7daf2337ca4518e82704da48e1a993f8b98a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 23/23] fix: refuse Nastran dimensions whose plates overlap or
 leave the section

HAT and HAT1 with webs thicker than half the top flange, HEXA with a corner
longer than half the width, DBOX with the central web inside the right wall and
FCROSS with flanges that overlap at the corners gave self-intersecting outlines
(wrong areas, or a crash of the mesher) instead of a ValueError.
---
 .../pre/library/nastran_sections.py                  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index 96e83bd..de17789 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -524,6 +524,7 @@ def nastran_fcross(
         or not dim_5 < dim_2
         or not dim_8 < (0.5 * dim_2 - 0.5 * dim_3)
         or not dim_6 < (0.5 * dim_1 - 0.5 * dim_4)
+        or not (dim_5 + 2.0 * dim_8 < dim_2 or dim_7 + 2.0 * dim_6 < dim_1)
     ):
         msg = "Invalid geometry specified."
         raise ValueError(msg)
@@ -628,6 +629,7 @@ def nastran_dbox(
     if (
         not (dim_4 + dim_5 + dim_6) < dim_1
         or not (dim_4 + 0.5 * dim_5) < dim_3
+        or not (dim_3 + 0.5 * dim_5 + dim_6) < dim_1
         or not (dim_7 + dim_8) < dim_2
         or not (dim_9 + dim_10) < dim_2
     ):
@@ -870,7 +872,7 @@ def nastran_hat(
             nastran_hat(dim_1=1.25, dim_2=0.25, dim_3=1.5, dim_4=0.5).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not 2.0 * dim_2 < dim_1:
+    if not 2.0 * dim_2 < dim_1 or not 2.0 * dim_2 < dim_3:
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
@@ -941,7 +943,11 @@ def nastran_hat1(
             ).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not (2.0 * dim_4 + dim_5) < dim_2 or not dim_3 < dim_1:
+    if (
+        not (2.0 * dim_4 + dim_5) < dim_2
+        or not dim_3 < dim_1
+        or not 2.0 * dim_4 < dim_3
+    ):
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
@@ -1009,7 +1015,7 @@ def nastran_hexa(
             nastran_hexa(dim_1=0.5, dim_2=2.0, dim_3=1.5).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not dim_2 > dim_1:
+    if not dim_2 >= 2.0 * dim_1:
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
-- 
2.43.0

