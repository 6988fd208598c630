"""The planted bugs (see seeds.py)."""
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


FEA, SEC, SOL = "analysis/fea.py", "analysis/section.py", "analysis/solver.py"
PLA, GEO, SPO, POST = "analysis/plastic_section.py", "pre/geometry.py", "post/stress_post.py", "post/post.py"

seed("C02-edge", "C02", {FEA: [("return bool(alpha >= 0 and beta >= 0 and gamma >= 0)",
                               "return bool(alpha >= 0 and beta >= 0 and gamma > 0)")]}, '''
import numpy as np
from sectionproperties.analysis.fea import Tri6
from sectionproperties.pre.pre import DEFAULT_MATERIAL
c = np.array([[0, 4, 0, 2, 2, 0], [0, 0, 4, 0, 2, 2]], dtype=float)
e = Tri6(0, c, [0, 1, 2, 3, 4, 5], DEFAULT_MATERIAL)
for k in range(6):
    assert e.point_within_element((c[0, k], c[1, k])), k
assert not e.point_within_element((3.0, 3.0))
''', "a point exactly on the edge between the first two nodes of an element",
     "points on one edge of an element are reported as outside the element")

seed("C05-neg", "C05", {FEA: [("            if mzz != 0:\n", "            if mzz > 0:\n")]}, '''
from sectionproperties.pre.library import rectangular_section
from sectionproperties.analysis import Section
import numpy as np
g = rectangular_section(b=4, d=7); g.create_mesh(2)
s = Section(g); s.calculate_geometric_properties(); s.calculate_warping_properties()
a = s.calculate_stress(mzz=2.0).get_stress()[0]; b = s.calculate_stress(mzz=-2.0).get_stress()[0]
assert np.allclose(a["sig_zx_mzz"], -b["sig_zx_mzz"]) and np.abs(b["sig_zx_mzz"]).max() > 0
''', "a negative torsion moment", "the stresses of a negative torsion moment are reported as zero")

seed("C11-abs", "C11", {SEC: [('abs(sig_m11 / fy)', '(sig_m11 / fy)')]}, '''
from sectionproperties.pre.library import rectangular_section, triangular_section
from sectionproperties.pre import Material
from sectionproperties.analysis import Section
m = Material("a", 200.0, 0.3, 5.0, 1.0, "k")
for g in (triangular_section(b=1, h=4, material=m), triangular_section(b=1, h=4, material=m).rotate_section(180),
          triangular_section(b=1, h=4, material=m).rotate_section(90), triangular_section(b=1, h=4, material=m).rotate_section(270)):
    g.create_mesh(1)
    s = Section(g); s.calculate_geometric_properties()
    p = s.section_props
    z = min(p.z11_plus, p.z11_minus) / 200.0
    assert abs(p.my_11 - 5.0 * z) < 1e-6 * p.my_11, (p.my_11, 5 * z)
''', "a section whose extreme fibre on the negative side of the 11 axis is the furthest",
     "the yield moment about the 11 axis ignores yielding on the compression side")

seed("C14-phi", "C14", {SEC: [("if abs(ixx_c - i11_c) < 1e-12 * i11_c:", "if abs(ixx_c - i11_c) < 1e-4 * i11_c:")]}, '''
from sectionproperties.pre.library import rectangular_section
from sectionproperties.analysis import Section
g = rectangular_section(d=4, b=2).rotate_section(angle=0.4); g.create_mesh(1)
s = Section(g); f = s.calculate_frame_properties()
t = Section(g); t.calculate_geometric_properties()
assert abs(f[5] - t.get_phi()) < 1e-6, (f[5], t.get_phi())
''', "a section whose principal axes are within about half a degree of the x and y axes",
     "the frame analysis reports a principal angle of zero where the geometric analysis does not")

seed("C15-v", "C15", {SPO: [("self.sig_zxy_v = (self.sig_zx_v**2 + self.sig_zy_v**2) ** 0.5",
                            "self.sig_zxy_v = (self.sig_zxy_vx**2 + self.sig_zxy_vy**2) ** 0.5")]}, '''
from sectionproperties.pre.library import rectangular_section
from sectionproperties.analysis import Section
import numpy as np
g = rectangular_section(b=4, d=7); g.create_mesh(2)
s = Section(g); s.calculate_geometric_properties(); s.calculate_warping_properties()
a = s.calculate_stress(vx=2.0, vy=3.0).get_stress()[0]
assert np.allclose(a["sig_zxy_v"], np.hypot(a["sig_zx_v"], a["sig_zy_v"]))
''', "shear forces in both directions at once", "the resultant of the two shear forces' stresses is not that of their sum")

seed("C18-copy", "C18", {SPO: [("from copy import deepcopy", "from copy import copy"),
                              ("deepcopy(section.material_groups)", "copy(section.material_groups)")]}, '''
from sectionproperties.pre.library import rectangular_section
from sectionproperties.analysis import Section
import numpy as np
g = rectangular_section(b=4, d=7); g.create_mesh(2)
s = Section(g); s.calculate_geometric_properties(); s.calculate_warping_properties()
p = s.calculate_stress(n=2.0)
q = s.calculate_stress(n=4.0)
assert np.allclose(p.get_stress()[0]["sig_zz"], 2.0 / 28) and np.allclose(q.get_stress()[0]["sig_zz"], 4.0 / 28)
''', "two stress analyses of one section, the first result being read after the second was run",
     "the stress results of a section's analyses share their arrays")

seed("C19-floor", "C19", {SOL: [("rel_error > 1e-7 and multiplier > 10.0 * np.finfo(float).eps",
                               "rel_error > 1e-7 and multiplier > np.finfo(float).eps ** 0.5")]}, '''
import numpy as np
from scipy.sparse import csc_matrix
from sectionproperties.analysis import solver
k = np.array([[1, -1, 0, 1], [-1, 2, -1, 1], [0, -1, 1, 1], [1, 1, 1, 0]], float)
try:
    solver.solve_direct_lagrange(csc_matrix(k), np.array([1e-9, 2e-9, 1e-9]))
except RuntimeError:
    pass
else:
    raise AssertionError("an unsatisfied system was accepted")
''', "a section in small units, whose load vector is below 1e-8, with an inconsistent system",
     "the direct solver returns a field that does not satisfy the system")

seed("C22-rad", "C22", {GEO: [("""                rotate_point,  # pyright: ignore [reportArgumentType]
                use_radians,
""", """                rotate_point,  # pyright: ignore [reportArgumentType]
""")]}, '''
import math
from sectionproperties.pre.library import rectangular_section
g = rectangular_section(b=4, d=2).assign_control_point((3.5, 1.5))
a = g.rotate_section(angle=math.pi / 2, rot_point=(0, 0), use_radians=True)
x, y = a.control_points[0]
assert abs(x + 1.5) < 1e-9 and abs(y - 3.5) < 1e-9, (x, y)
''', "an assigned control point and an angle in radians", "the control point is not moved with its region")

seed("C24-xor", "C24", {GEO: [("""                new_polygon = filter_non_polygons(xor_poly)  # pyright: ignore [reportUnknownArgumentType]
            else:
                msg = "Geometry generation failed."
                raise RuntimeError(msg)

            if isinstance(new_polygon, MultiPolygon):
                return CompoundGeometry(
                    geoms=[Geometry(polygon, material) for polygon in new_polygon.geoms]
                )
""", """                new_polygon = filter_non_polygons(xor_poly)  # pyright: ignore [reportUnknownArgumentType]
            else:
                msg = "Geometry generation failed."
                raise RuntimeError(msg)

            if isinstance(new_polygon, MultiPolygon):
                return CompoundGeometry(geoms=new_polygon)
""")]}, '''
from sectionproperties.pre.library import rectangular_section
from sectionproperties.pre import Material
m = Material("a", 200.0, 0.3, 5.0, 1.0, "k")
a = rectangular_section(b=10, d=2, material=m)
b = rectangular_section(b=2, d=10, material=m).shift_section(4, -4)
c = a ^ b
assert len(c.geoms) == 4 and all(g.material == m for g in c.geoms), [g.material.name for g in c.geoms]
''', "operands that cross, so that the symmetric difference is several regions, and a material other than the default",
     "the regions of the symmetric difference lose their material")


seed("C25-hole", "C25", {GEO: [("self.holes += tuple(hole_polygon.representative_point().coords)",
                               "self.holes += tuple(hole_polygon.centroid.coords)")]}, '''
from shapely import Polygon, Point
from sectionproperties.pre import Geometry
hole = [(2, 2), (8, 2), (8, 3), (3, 3), (3, 8), (2, 8)]
g = Geometry(Polygon([(0, 0), (10, 0), (10, 10), (0, 10)], [hole]))
assert Polygon(hole).contains(Point(g.holes[0])), g.holes
g.create_mesh(2)
''', "a re-entrant hole (an L, U or C shaped void)", "the hole point lies outside its hole")

NAS, STEEL, CONC = "pre/library/nastran_sections.py", "pre/library/steel_sections.py", "pre/library/concrete_sections.py"

seed("C29-gbox", "C29", {NAS: [("""        (d + dim_5 + dim_6, dim_2 - dim_3),
        (d + dim_5, dim_2 - dim_3),
    ]
    poly_sub""", """        (d + dim_5 + dim_6, dim_2 - dim_4),
        (d + dim_5, dim_2 - dim_4),
    ]
    poly_sub""")]}, '''
from sectionproperties.pre.library import nastran_gbox
g = nastran_gbox(6, 2.5, 0.375, 0.25, 0.625, 1.0)
want = 6 * (0.375 + 0.25) + 2 * 0.625 * (2.5 - 0.375 - 0.25)
assert abs(g.calculate_area() - want) < 1e-9, (g.calculate_area(), want)
''', "flanges of different thickness", "the opening has the wrong height")

seed("C28-box", "C28", {STEEL: [("x_top = t_ft / np.tan(np.pi - phi_t)", "x_top = t_fb / np.tan(np.pi - phi_t)")]}, '''
import math
from sectionproperties.pre.library import box_girder_section
g = box_girder_section(d=1200, b_t=1200, b_b=400, t_ft=150, t_fb=50, t_w=50)
(x0, y0), (x1, y1), (x2, y2), (x3, y3) = list(g.geom.interiors[0].coords)[:4]
# every web is t_w thick: the inner and the outer face are parallel
pts = sorted(g.geom.interiors[0].coords[:-1], key=lambda p: (p[1], p[0]))
lo, hi = pts[0], [p for p in pts if p[1] > 600][0]
slope = (hi[0] - lo[0]) / (hi[1] - lo[1])
assert abs(slope + 400 / 1200) < 1e-9, slope
''', "flanges of different width and of different thickness", "the webs are not of constant thickness")

seed("C33-holes", "C33", {GEO: [("""                exterior_polygon = exterior_polygon - buffered_interior

            if isinstance(exterior_polygon, MultiPolygon):""", """                exterior_polygon = Polygon(self.geom.exterior) - buffered_interior

            if isinstance(exterior_polygon, MultiPolygon):""")]}, '''
from shapely import box
from sectionproperties.pre import Geometry
g = Geometry(box(0, 0, 10, 4) - box(1, 1, 3, 3) - box(6, 1, 8, 3))
r = g.offset_perimeter(amount=-0.5, where="interior")
assert len(r.geom.interiors) == 2, len(r.geom.interiors)
assert abs(r.calculate_area() - (40 - 2)) < 1e-9
''', "a region with more than one hole and where='interior'", "all holes but one are filled in")

seed("C35-zyy", "C35", {POST: [("""table.add_row("zyy-", f"{ezyy_minus / er:>{fmt}}")""", """table.add_row("zyy-", f"{ezyy_plus / er:>{fmt}}")""")]}, '''
import io
from contextlib import redirect_stdout
import rich.console
from sectionproperties.pre.library import channel_section
from sectionproperties.pre import Material
from sectionproperties.analysis import Section
m = Material("m", 200.0, 0.3, 250.0, 1.0, "grey")
g = channel_section(d=20, b=8, t_f=1, t_w=1, r=0, n_r=1, material=m); g.create_mesh(5)
s = Section(g); s.calculate_geometric_properties()
import os; os.environ["COLUMNS"] = "200"
f = io.StringIO()
with redirect_stdout(f):
    s.display_transformed_results(e_ref=100.0, fmt=".6e")
row = [l for l in f.getvalue().splitlines() if "zyy-" in l][0]
want = f"{s.get_ez()[3] / 100.0:.6e}"
assert want in row, (row, want)
''', "transformed results of a section that is not symmetric about its y axis", "one row shows the other side's section modulus")

seed("C36-mask", "C36", {SPO: [("for group, sig in zip(plotted_material_groups, sigs, strict=False):\n                # if we are limiting materials to plot, check material is in list\n                if material_list and group.material not in material_list:\n                    continue\n\n                # create and set the mask for the current material\n                mask_array = np.ones(shape=len(self.section.elements), dtype=bool)\n                mask_array[group.el_ids] = False\n                triang.set_mask(mask_array)\n\n                # plot the filled contour\n",
 "for group, sig in zip(self.material_groups, sigs, strict=False):\n                # if we are limiting materials to plot, check material is in list\n                if material_list and group.material not in material_list:\n                    continue\n\n                # create and set the mask for the current material\n                mask_array = np.ones(shape=len(self.section.elements), dtype=bool)\n                mask_array[group.el_ids] = False\n                triang.set_mask(mask_array)\n\n                # plot the filled contour\n")]}, '''
import matplotlib
matplotlib.use("agg")
from matplotlib.axes import Axes
from sectionproperties.pre.library import rectangular_section
from sectionproperties.pre import Material
from sectionproperties.analysis import Section
ms = [Material(n, e, 0.2, 10.0, 1.0, "grey") for n, e in (("a", 1.0), ("b", 2.0), ("c", 3.0))]
g = rectangular_section(b=2, d=1, material=ms[0])
for k in (1, 2):
    g = g + rectangular_section(b=2, d=1, material=ms[k]).shift_section(0, k)
g.create_mesh(0.5)
s = Section(g); s.calculate_geometric_properties(); s.calculate_warping_properties()
st = s.calculate_stress(n=1.0)
seen = []
orig = Axes.tricontourf
Axes.tricontourf = lambda self, t, z, *a, **k: seen.append((t.mask.copy(), list(z))) or orig(self, t, z, *a, **k)
st.plot_stress("n_zz", material_list=[ms[1], ms[2]], render=False)
groups = [q for q in st.material_groups if q.material in ms[1:]]
assert len(seen) == 2, len(seen)
for (mask, z), q in zip(seen, groups):
    assert z == list(q.stress_result.sig_zz_n)
''', "a material filter that leaves out a material before others", "a region is drawn with another region's stresses, or not at all")

seed("C30-nib", "C30", {CONC: [('geom = geom_outer - geom_inner - geom_door_t - geom_door_b\n\n    # positions of bars to add\n    xs: list[float] = []\n    ys: list[float] = []\n\n    # calculate reinforcement positions\n    # singly reinforced\n    if not double:\n        # calculate number of bars along length of wall\n        x_length = b - t2\n        n_x = ceil(x_length / spacing) + 1\n        y_length = d - t1\n        y_nib = nib + 0.5 * t1\n        y_pier = a2 - 2 * cover - dia_bar\n        n_y = ceil(y_length / spacing) + 1\n        n_nib = ceil(y_nib / spacing) + 1', 'geom = geom_outer - geom_inner - geom_door_t - geom_door_b\n\n    # positions of bars to add\n    xs: list[float] = []\n    ys: list[float] = []\n\n    # calculate reinforcement positions\n    # singly reinforced\n    if not double:\n        # calculate number of bars along length of wall\n        x_length = b - t2\n        n_x = ceil(x_length / spacing) + 1\n        y_length = d - t1\n        y_nib = nib\n        y_pier = a2 - 2 * cover - dia_bar\n        n_y = ceil(y_length / spacing) + 1\n        n_nib = ceil(y_nib / spacing) + 1')]}, '''
from sectionproperties.pre.library.concrete_sections import double_lift_core_a
g = double_lift_core_a(d=4000, b=1800, t1=300, t2=150, a1=900, a2=600, dia_bar=16, area_bar=200, spacing=200, cover=30,
                       double=False, n_circle=4)
bars = [q.geom.centroid for q in g.geoms if q.geom.area < 300]
ys = sorted(round(p.y, 6) for p in bars if abs(p.x - (1800 - 75)) < 1e-6)
gaps = [b - a for a, b in zip(ys, ys[1:]) if b - a < 500]
assert max(gaps) <= 200 + 1e-6, gaps
''', "a singly reinforced core whose nib is just too long for one bar less", "bars further apart than the maximum spacing")

seed("C27-small", "C27", {GEO: [("return not math.isclose(union_area, sum_polygons)", "return not math.isclose(union_area, sum_polygons, rel_tol=1e-3)")]}, '''
import warnings
from sectionproperties.pre.library import rectangular_section
from sectionproperties.pre import CompoundGeometry
from sectionproperties.analysis import Section
a = rectangular_section(b=100, d=100)
b = rectangular_section(b=3, d=3).shift_section(98, 40)
c = CompoundGeometry([a, b])
c.create_mesh(200)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    s = Section(c)
    s.calculate_geometric_properties(); s.calculate_plastic_properties()
assert any("overlap" in str(x.message) for x in w), [str(x.message) for x in w]
''', "an overlap that is small beside the section", "overlapping regions are counted twice without a warning")

seed("C24-tiny", "C24", {GEO: [("            if isinstance(item, MultiPolygon | Polygon)\n",
                               "            if isinstance(item, MultiPolygon | Polygon) and item.area > 1e-6\n")]}, '''
from shapely import Polygon
from sectionproperties.pre import Geometry
s = 1e-3  # a section a few millimetres wide, in metres
a = Geometry(Polygon([(0, 0), (4 * s, 0), (4 * s, 2 * s), (3 * s, 2 * s), (3 * s, 2.5 * s), (2 * s, 2.5 * s), (2 * s, 2 * s), (0, 2 * s)]))
b = Geometry(Polygon([(0, 2 * s), (4 * s, 2 * s), (4 * s, 4 * s), (0, 4 * s)]))
c = a & b  # the tooth and the shared edges beside it
assert abs(c.geom.area - 0.5 * s * s) < 1e-9 * s * s, c.geom.area
''', "an intersection of mixed dimension (a shared edge and an overlapping tooth) of a small section in metres",
     "the intersection of two small regions loses its area")

seed("C30-n1", "C30", {CONC: [("    if n_bot == 1:\n        x_i_bot = b / 2\n",
                             "    if n_bot == 1:\n        x_i_bot = c_side + dia_bot / 2 if c_side and n_top == 1 else b / 2\n")]}, '''
from sectionproperties.pre.library import concrete_rectangular_section
from sectionproperties.pre import Material
c = Material("c", 30.0, 0.2, 5.0, 1.0, "k"); s = Material("s", 200.0, 0.2, 5.0, 1.0, "r")
for cs in (0.0, 50.0):
    g = concrete_rectangular_section(d=500, b=300, dia_top=16, area_top=200, n_top=1, c_top=30, dia_bot=20, area_bot=310,
                                     n_bot=1, c_bot=30, dia_side=12, area_side=110, n_side=1, c_side=cs, n_circle=8, conc_mat=c, steel_mat=s)
    bars = [p for p in g.geoms if p.material == s]
    xs = sorted(p.calculate_centroid()[0] for p in bars)
    assert abs(sum(xs) - 150 * len(bars)) < 1e-6 * 300, xs  # the arrangement is symmetric about the middle
''', "one top bar and one bottom bar with a side cover given", "the single bottom bar is placed at the side")

seed("C06-agg4", "C06", {SEC: [("                for idx in tri_ids:\n", "                for idx in tri_ids[:4]:\n")]}, '''
import numpy as np
from sectionproperties.pre.library import rectangular_section
from sectionproperties.analysis import Section
g = rectangular_section(d=4, b=2); g.create_mesh(0.1)
s = Section(g); s.calculate_geometric_properties(); s.calculate_warping_properties()
post = s.calculate_stress(n=10, mxx=3, vy=5, mzz=2)
st = post.get_stress()[0]
bad = 0
for i, (x, y) in enumerate(s.mesh_nodes):
    n = sum(i in t for t in s.mesh_elements)
    if n <= 4 or i not in s.mesh_elements[:, :3]:
        continue
    for f in (max, min):
        got = s.get_stress_at_points(pts=[(x, y)], n=10, mxx=3, vy=5, mzz=2, agg_func=f)[0]
        tris = [t for t in s.elements if i in t.node_ids]
        want = []
        for t in tris:
            want.append(s.get_stress_at_points(pts=[(x, y)], n=10, mxx=3, vy=5, mzz=2, agg_func=lambda v: float(len(v)))[0][0])
        assert set(want) == {float(n)}, (set(want), n)
    bad += 1
assert bad > 3
''', "a point at a node that more than four elements share", "only some of the elements at the point are aggregated")

seed("C16-name", "C16", {SEC: [("                if material not in self.materials[:idx]:\n",
                               "                if material.name not in [m.name for m in self.materials[:idx]]:\n")]}, '''
from sectionproperties.pre.library import rectangular_section
from sectionproperties.pre import Material
from sectionproperties.analysis import Section
a = Material("steel", 200.0, 0.3, 5.0, 1.0, "k"); b = Material("steel", 100.0, 0.3, 5.0, 1.0, "r")
g = rectangular_section(d=4, b=2, material=a) + rectangular_section(d=4, b=2, material=b).shift_section(2, 0)
g.create_mesh(1)
s = Section(g)
s.calculate_geometric_properties()
assert len(s.material_groups) == 2, len(s.material_groups)
st = s.calculate_stress(n=30).get_stress()
assert len(st) == 2
assert abs(st[0]["sig_zz"].max() - 30 * 200 / (8 * 300)) < 1e-9 and abs(st[1]["sig_zz"].max() - 30 * 100 / (8 * 300)) < 1e-9
''', "two materials that share a name but differ in stiffness", "the regions of the second material belong to no material group")

seed("C26-sort", "C26", {"pre/pre.py": [("    for i, cp in enumerate(control_points):\n",
                                        "    for i, cp in enumerate(sorted(control_points) if len(control_points) > 5 else control_points):\n")]}, '''
from sectionproperties.pre.library import rectangular_section
from sectionproperties.pre import Material
from sectionproperties.analysis import Section
g = None
for i in range(7):
    m = Material(f"m{i}", 10.0 + i, 0.3, 5.0, 1.0 + i, "k")
    r = rectangular_section(d=2, b=1 + i, material=m).shift_section(0, -2 * i)
    r = r.shift_section(-i * 0.5, 0)
    g = r if g is None else g + r
g.create_mesh([0])
s = Section(g); s.calculate_geometric_properties()
want = sum(2 * (1 + i) * (1.0 + i) for i in range(7))
assert abs(s.get_mass() - want) < 1e-9 * want, (s.get_mass(), want)
''', "a geometry of more than five regions whose control points are not in ascending order",
     "the elements take the material of another region")

seed("C28-r", "C28", {"pre/library/utils.py": [("    if r == 0:\n", "    if r < 1e-2:\n")]}, '''
from sectionproperties.pre.library import rectangular_hollow_section
import math
g = rectangular_hollow_section(d=0.1, b=0.05, t=0.003, r_out=0.009, n_r=32)
want = 0.1 * 0.05 - (4 - math.pi) * 0.009 ** 2 - (0.094 * 0.044 - (4 - math.pi) * 0.006 ** 2)
assert abs(g.calculate_area() - want) < 1e-3 * want, (g.calculate_area(), want)
''', "dimensions in metres, so that the fillets are smaller than 0.01", "the fillets are left out")

seed("C22-mirror", "C22", {GEO: [("""            new_ctrl_point_geom = affinity.scale(
                self.assigned_control_point,
                xfact=y_mirror,
                yfact=x_mirror,
                zfact=1.0,
                origin=m_pt,  # pyright: ignore [reportArgumentType]
            )""", """            new_ctrl_point_geom = affinity.scale(
                self.assigned_control_point,
                xfact=y_mirror,
                yfact=x_mirror,
                zfact=1.0,
                origin=mirrored_geom.centroid,
            )""")]}, '''
from shapely import Polygon, Point
from sectionproperties.pre import Geometry
g = Geometry(Polygon([(0, 0), (10, 0), (10, 10), (0, 10)]), control_points=(1.5, 1.5))
for mp in ((0.0, 0.0), (3.0, -2.0), "center"):
    for ax, want in (("y", lambda p, m: (2 * m[0] - p[0], p[1])), ("x", lambda p, m: (p[0], 2 * m[1] - p[1]))):
        h = g.mirror_section(axis=ax, mirror_point=mp)
        m = (5.0, 5.0) if mp == "center" else mp
        w = want((1.5, 1.5), m)
        assert abs(h.control_points[0][0] - w[0]) < 1e-9 and abs(h.control_points[0][1] - w[1]) < 1e-9, (mp, ax, h.control_points, w)
''', "an assigned control point and a mirror axis that does not pass through the centroid",
     "the assigned control point is mirrored about another axis than the geometry")

