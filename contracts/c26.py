"""C26: meshing.

Contract assumed on Triangle: given segments, holes and regions it returns a conforming triangulation of the area inside
the segments without the holes, every triangle carrying the attribute of the region point of its area; `a` honours the
region's area limit; `o2` adds nodes 4, 5, 6 at the midpoints of the edges opposite corners 1, 2, 3."""
from __future__ import annotations

import re

from . import rtgeom
from .c21 import patched
from .c25 import need
from .seccommon import _fn


def pre():
    import sectionproperties.pre.pre as p

    return p


def geo():
    import sectionproperties.pre.geometry as g

    return g


class Sizes(list):
    """One size per control point, however many."""

    def __getitem__(self, i):
        return _fn("size", i)


def triangle_input(ctx):
    """Any number of control points and sizes; every flag combination at sample angles."""
    from pydv import seqs

    p = pre()
    for coarse in (False, True):
        for ang in (20, 20.7, 30.0, 0, 33.25):
            for holes in ([], ["h1", "h2"]):
                calls = []
                tri = type("T", (), {"triangulate": staticmethod(lambda d, f: calls.append((d, f)) or "mesh")})
                cps = seqs.SymSeq("cp", lambda k: (_fn("cpx", k), _fn("cpy", k)))
                with patched(p, triangle=tri):
                    r = p.create_mesh("points", "facets", holes, cps, Sizes(), ang, coarse)
                ctx.ensure("the triangulation is returned", r == "mesh" and len(calls) == 1)
                d, flags = calls[0]
                ctx.ensure("all points", d["vertices"] == "points")
                ctx.ensure("all facets", d["segments"] == "facets")
                ctx.ensure("all holes", list(d.get("holes", [])) == holes)
                ch = d["regions"].all_chunks() if hasattr(d["regions"], "all_chunks") else []
                need(len(ch) == 1 and ch[0][0] == "loop" and len(ch[0][2]) == 1 and ch[0][1] is cps, "regions")
                x, y, i, size = ch[0][2][0]
                k = cps.bound
                ctx.ensure_eq("region point x", x, _fn("cpx", k))
                ctx.ensure_eq("region point y", y, _fn("cpy", k))
                ctx.ensure_eq("region attribute is its number", i, k)
                ctx.ensure_eq("region size is its own", size, _fn("size", k))
                m = re.fullmatch(r"(?:p|A|a|o2|q[0-9.]+)+", flags)
                need(m, "flags")
                ctx.ensure("segments respected", "p" in flags)
                ctx.ensure("attributes assigned", "A" in flags)
                ctx.ensure("six nodes", "o2" in flags)
                ctx.ensure("area limits in force", ("a" in flags) == (not coarse))
                q = re.search(r"q([0-9.]+)", flags)
                ctx.ensure("minimum angle", (q is None) == coarse and (q is None or abs(float(q[1]) - ang) <= 0.0501))


def single_region_size(ctx):
    """A number instead of a list of sizes."""
    p = pre()
    calls = []
    tri = type("T", (), {"triangulate": staticmethod(lambda d, f: calls.append((d, f)) or "mesh")})
    s, x, y = ctx.pos("size"), ctx.real("x"), ctx.real("y")
    with patched(p, triangle=tri):
        p.create_mesh("points", "facets", [], [(x, y)], s, 30, False)
    (r,) = calls[0][0]["regions"]
    ctx.ensure_eq("size", r[3], s)
    ctx.ensure_eq("attribute", r[2], 0)


def mesh_arguments(ctx):
    """Geometry.create_mesh hands over exactly its own data, with one size per region."""
    from pydv import seqs

    g = geo()
    for kind in ("float", "int", "list", "one"):
        for compound in (False, True):
            for angle, coarse in ((30.0, False), (21.5, True)):
                x = object.__new__(g.CompoundGeometry if compound else g.Geometry)
                n = 3 if compound else 1
                x.points, x.facets, x.holes = ["pts"], ["fac"], ["hol"]
                x.control_points = [("cp", i) for i in range(n)]
                v = [ctx.pos(f"s{i}") for i in range(n)]
                arg = {"float": v[0], "int": 7, "one": [v[0]], "list": v}[kind]
                given = list(arg) if isinstance(arg, list) else arg
                want = {"float": [v[0]] * n, "int": [7] * n, "one": [v[0]] * n, "list": v}[kind]
                calls = []
                stub = type("P", (), {"create_mesh": staticmethod(lambda **k: calls.append(k) or {"the": "mesh"})})
                with patched(g, pre=stub):
                    r = x.create_mesh(arg, angle, coarse)
                ctx.ensure("returns itself with the mesh", r is x and x.mesh == {"the": "mesh"} and len(calls) == 1)
                k = calls[0]
                ctx.ensure("its own points, facets and holes", k["points"] == ["pts"] and k["facets"] == ["fac"] and k["holes"] == ["hol"])
                ctx.ensure("its own control points", k["control_points"] == [("cp", i) for i in range(n)])
                ctx.ensure("angle and coarseness", k["min_angle"] == angle and k["coarse"] is coarse)
                got = k["mesh_sizes"] if isinstance(k["mesh_sizes"], list) else [k["mesh_sizes"]]
                ctx.ensure("one size per region", len(got) == n)
                for a, b in zip(got, want):
                    ctx.ensure_eq("size of the region", a, b)
                ctx.ensure("given sizes kept", not isinstance(arg, list) or list(arg) == given)
            calls = []
            with patched(g, pre=stub):
                x.create_mesh(7)
            ctx.ensure("stated default quality", calls[0]["min_angle"] == 30 and calls[0]["coarse"] is False)


def section_elements(ctx):
    """Bounded: meshes of three elements over one to three regions, node coordinates arbitrary."""
    import itertools

    import numpy

    import sectionproperties.analysis.section as s
    import sectionproperties.pre.pre as p

    g = geo()
    # Triangle's numbering: corners, then the midpoints opposite corners 1, 2 and 3
    tri = numpy.array([[0, 1, 2, 6, 7, 5], [1, 3, 2, 9, 6, 8], [3, 4, 2, 11, 9, 10]])
    from pydv import npx

    for n in (1, 2, 3):
        for att in itertools.product(range(n), repeat=3):
            if max(att) != n - 1:
                continue
            for same in (False, True):
                mats = [p.Material(f"m{0 if same else i}", 1 if same else i + 1, 0, 1, 1, "w") for i in range(n)]
                X = [(ctx.real(f"x{i}"), ctx.real(f"y{i}")) for i in range(12)]
                V = npx.array([list(q) for q in X])
                mesh = {"vertices": V, "triangles": tri.copy(), "triangle_attributes": numpy.array([[float(a)] for a in att])}
                geom = object.__new__(g.CompoundGeometry if n > 1 else g.Geometry)
                geom.mesh = mesh
                if n > 1:
                    geom.geoms = [type("R", (), {"__pydv_obj__": True, "material": m})() for m in mats]
                else:
                    geom.material = mats[0]
                made = []
                tree = []

                class El:
                    __pydv_obj__ = True

                    def __init__(self, el_id, coords, node_ids, material):
                        self.el_id, self.coords, self.node_ids, self.material = el_id, coords, node_ids, material
                        made.append(self)

                fea = type("F", (), {"Tri6": El})
                with patched(s, fea=fea, STRtree=lambda ps: tree.extend(ps) or tree, Polygon=lambda pts: pts):
                    sec = s.Section(geom)
                ctx.ensure("one element per triangle", len(sec.elements) == 3 and len(sec.mesh_elements) == 3)
                for k, el in enumerate(sec.elements):
                    a, b, c, ma, mb, mc = (int(q) for q in tri[k])
                    want = [a, b, c, mc, ma, mb]  # corners, then the midpoints of sides 12, 23, 31
                    ctx.ensure("element number", el.el_id == k)
                    ctx.ensure("node numbers", [int(q) for q in el.node_ids] == want)
                    for j, q in enumerate(want):
                        ctx.ensure_eq("node x", el.coords[0, j], X[q][0])
                        ctx.ensure_eq("node y", el.coords[1, j], X[q][1])
                    ctx.ensure("material of its region", el.material is mats[att[k]])
                ctx.ensure("search tree in element order", len(tree) == 3)
                for k, t in enumerate(tree):
                    for j in range(3):
                        ctx.ensure_eq("search triangle", t[j][0], X[int(tri[k][j])][0])
                        ctx.ensure_eq("search triangle", t[j][1], X[int(tri[k][j])][1])
                ctx.ensure("the mesh is kept", (mesh["triangles"] == tri).all())
                # every element in exactly one group, of its material
                where = [[grp for grp in sec.material_groups if any(e is el for e in grp.elements)] for el in sec.elements]
                ctx.ensure("every element in one group of its material", all(len(w) == 1 and w[0].material == el.material
                                                                            for w, el in zip(where, sec.elements)))


def table(name, cells):
    """An integer table of any number of rows: row k is `cells(k)`."""
    import numpy

    from pydv import seqs

    class Table(seqs.SymSeq):
        __pydv_obj__ = True

        def __init__(self, cells):
            super().__init__(name, lambda k: None)
            self.cells = cells

        def generic(self):
            return self.row(self.bound)

        def row(self, k):
            out = numpy.empty(len(self.cells(k)), dtype=object)
            out[:] = self.cells(k)
            return out

        def __pydv_array__(self):
            return Table(self.cells)

        copy = __pydv_array__

        def __getitem__(self, i):
            if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None):
                old, j = self.cells, i[1]
                need(isinstance(j, (list, slice, numpy.ndarray)), "a column of the table")
                pick = list(range(100))[j] if isinstance(j, slice) else [int(q) for q in j]
                return Table(lambda k: [old(k)[q] for q in pick if q < len(old(k))])
            need(not isinstance(i, (tuple, slice, list)), "part of the table")
            return self.row(i)

        def __setitem__(self, i, v):
            need(isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and isinstance(v, Table), "assignment to the table")
            old, j, src = self.cells, i[1], v.cells
            pos = list(range(6))[j] if isinstance(j, slice) else [int(q) for q in j]
            need(len(src(self.bound)) == len(pos), "assignment of another shape")

            def cells(k):
                r = list(old(k))
                for q, x in zip(pos, src(k)):
                    r[q] = x
                return r

            self.cells = cells

    return Table(cells)


def abstract_section(mats, n):
    """Section(geometry) of a mesh of any number of triangles and nodes over n regions, each of which has triangles.

    Returns (section or None if refused, the triangles, node numbers of triangle k, the search triangles, number of nodes)."""
    import numpy

    import sectionproperties.analysis.section as s
    from pydv import seqs

    g = geo()
    now = []

    class Attr(seqs.AbsVec):
        """The region of each triangle, one of 0..n-1, each of them occurring."""

        def __init__(self, vec, n):
            super().__init__(vec.n, vec.term)
            self.regions = n

        def copy(self):
            return Attr(self, self.regions)

        def at(self, k):
            v = super().at(k)
            r = next((j for j in range(self.regions - 1) if v == j), self.regions - 1)
            now[:] = [r]
            return r

        def fold(self, kind):
            return self.regions - 1 if kind == "max" else super().fold(kind)

    class Verts:
        __pydv_obj__ = True

        def __pydv_array__(self):
            return Verts()

        def __pydv_len__(self):
            return nodes

        shape = property(lambda self: (nodes, 2))

        def __getitem__(self, i):
            if isinstance(i, tuple):
                need(len(i) == 2 and i[1] == slice(None), "part of the nodes")
                i = i[0]
            need(isinstance(i, (numpy.ndarray, list)), "part of the nodes")
            out = numpy.empty((len(i), 2), dtype=object)
            for r, q in enumerate(i):
                out[r] = [_fn("node.x", q), _fn("node.y", q)]
            return out

    class El:
        __pydv_obj__ = True

        def __init__(self, el_id, coords, node_ids, material):
            self.el_id, self.coords, self.node_ids, self.material = el_id, coords, node_ids, material
            self.region = now[0]

    nodes = _fn("any_elements.nodes", 0, positive=True, integer=True)
    cells = lambda k: [_fn("tri", k, j, integer=True) for j in range(6)]
    tri = table("mesh.triangles", cells)
    attr = Attr(seqs.AbsVec.unknown("region", tri.length), n)
    column = type("C", (), {"__pydv_obj__": True, "T": [attr]})()
    mesh = {"vertices": Verts(), "triangles": tri, "triangle_attributes": column}
    geom = object.__new__(g.CompoundGeometry if len(mats) > 1 else g.Geometry)
    geom.mesh = mesh
    if len(mats) > 1:
        geom.geoms = [type("R", (), {"__pydv_obj__": True, "material": m})() for m in mats]
    else:
        geom.material = mats[0]
    tree = []
    fea = type("F", (), {"Tri6": El})
    sec = None
    with patched(s, fea=fea, STRtree=lambda ps: tree.append(ps) or tree, Polygon=lambda pts: pts):
        try:
            sec = s.Section(geom)
        except ValueError:
            pass
    if sec is not None:
        sec._any_mesh = mesh
    return sec, tri, cells, tree, nodes


def appended(lst, tri):
    """The entries that one triangle adds to a list: [(condition, entries)]."""
    ch = lst.all_chunks()
    need(len(ch) <= 1 and all(c[0] in ("loop", "cases") and c[1].name == tri.name for c in ch), "elements kept another way")
    return [q if isinstance(q, tuple) and c[0] == "cases" else (True, c[2]) for c in ch
            for q in (c[2] if c[0] == "cases" else [None])]


def the_elements(ctx, sec, tri, cells, mats):
    """Element k of the section, one per region it may lie in: numbered, with the nodes and the region's material."""
    els = appended(sec.elements, tri)
    ctx.ensure("one element per triangle", all(len(q) == 1 for _, q in els))
    els = [q[0] for _, q in els]
    k = tri.bound
    for el in els:
        t = cells(k)
        want = [t[0], t[1], t[2], t[5], t[3], t[4]]
        ctx.ensure_eq("element number", el.el_id, k)
        ctx.ensure("six nodes", len(el.node_ids) == 6 and el.coords.shape == (2, 6))
        for j in range(6):
            ctx.ensure_eq("node number", el.node_ids[j], want[j])
            ctx.ensure_eq("node x", el.coords[0, j], _fn("node.x", want[j]))
            ctx.ensure_eq("node y", el.coords[1, j], _fn("node.y", want[j]))
        ctx.ensure("material of its region", el.material == mats[el.region])
    joined = [(grp, q) for grp in sec.material_groups for _, q in appended(grp.elements, tri)]
    ctx.ensure("added once", all(len(q) == 1 for _, q in joined))
    for el in els:
        mine = [grp for grp, q in joined if q[0] is el or (q[0].region == el.region and type(q[0]) is type(el))]
        ctx.ensure("one group", len(mine) == 1)
        if len(mine) != 1:
            continue
        ctx.ensure("the group of its material", mine[0].material == el.material)
        ids = [q for c, q in appended(mine[0].el_ids, tri)]
        ctx.ensure("numbers as elements", len(ids) == len(appended(mine[0].elements, tri)) and all(len(q) == 1 for q in ids))
        for q in ids:
            ctx.ensure_eq("number in the group", q[0], k)
    return els


def any_elements(ctx):
    """A mesh of any number of triangles and nodes, over one to three regions (equal or different materials).

    Each triangle becomes exactly one element, numbered in order, with its own nodes in the order of the shape functions,
    their coordinates, and the material of its region; it joins exactly one group, of that material. A wrong number of
    materials is refused."""
    import sectionproperties.pre.pre as p
    from pydv import seqs

    for n in (1, 2, 3):
        for same in (False, True):
            for extra in (0, 1):
                mats = [p.Material(f"m{0 if same else i}", 1 if same else i + 1, 0, 1, 1, "w") for i in range(n + extra)]
                sec, tri, cells, tree, nodes = abstract_section(mats, n)
                ctx.ensure("refused iff a region has no material or a material no region", (sec is None) == bool(extra))
                if sec is None:
                    continue
                els = the_elements(ctx, sec, tri, cells, mats)
                ctx.ensure("in every region", sorted(e.region for e in els) == list(range(n)))
                ctx.ensure("as many groups as different materials",
                           len(sec.material_groups) == len({m.name for m in mats}))
                ctx.ensure("the mesh is kept", tri.cells is cells and sec.mesh is sec._any_mesh)
                ctx.ensure("one search tree", len(tree) == 1)
                need(isinstance(tree[0], seqs.MapSeq) and tree[0].name == tri.name and len(tree[0].cases) == 1, "search triangles")
                pts = tree[0].cases[0][1]
                k = tri.bound
                ctx.ensure("search triangles of three corners", len(pts) == 3)
                for j in range(3):
                    ctx.ensure_eq("search triangle x", pts[j][0], _fn("node.x", cells(k)[j]))
                    ctx.ensure_eq("search triangle y", pts[j][1], _fn("node.y", cells(k)[j]))
                ctx.ensure_eq("number of nodes", sec.num_nodes, nodes)


SYMBOLIC = [triangle_input, single_region_size, mesh_arguments, any_elements, section_elements]
RUNTIME = [("meshing", rtgeom.meshing, 400, 3000)]
