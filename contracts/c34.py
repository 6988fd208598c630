"""C34: moving points, assigning control points, and the measures of a geometry.

Contracts assumed on shapely: `bounds` (x_min, y_min, x_max, y_max), `area`, `centroid`, the `length` of an outline,
`unary_union`, `contains`. Contract of `Geometry.from_points`: C25."""
from __future__ import annotations

import copy

from . import rtpoints
from .c24 import mat
from .c25 import geo, need
from .common import like
from .geomodel import GPoint, GShape, model
from .seccommon import _fn


class Built:
    """Stands for Geometry: what was built from which points, and what was returned."""

    __pydv_obj__ = True
    log = None

    def __init__(self, geom=None, material=None, control_points=None, tol=12):
        self.geom, self.material, self.cp, self.tol = geom, material, control_points, tol

    @staticmethod
    def from_points(points, facets, control_points, holes=None, material=None):
        Built.log.append(points)
        x = Built(Shape(points, facets, holes), material, control_points[0] if isinstance(control_points, list) else control_points, 12)
        return x


class Shape:
    __pydv_obj__ = True

    def __init__(self, points, facets, holes):
        self.points, self.facets, self.holes = points, facets, holes

    def contains(self, p):
        c = Shape.ctx
        c.ensure_eq("tested point x", p.x, c.cp[0])
        c.ensure_eq("tested point y", p.y, c.cp[1])
        return _fn("inside") > 0

    covers = contains


class AnyPoints:
    """A list of any number of points, of which the code reads and writes one, at the generic index."""

    __pydv_obj__ = True

    def __init__(self, idx, items=None):
        self.idx, self.new = idx, items

    def __copy__(self):
        return AnyPoints(self.idx, self.new)

    copy = __copy__

    def __getitem__(self, i):
        need(i is self.idx, "index of the points")
        return self.new or (_fn("X", i), _fn("Y", i))

    def __setitem__(self, i, v):
        need(i is self.idx, "index of the points")
        self.new = v


def geometry(ctx, points, control):
    x = like(type("G", (), {"__pydv_obj__": True})(), geo().Geometry)
    x.points, x.facets, x.holes = points, [("facet", 0), ("facet", 1)], [("hole", 0)]
    x.material, x.tol = mat("m"), 7
    ctx.cp = (ctx.real("cpx"), ctx.real("cpy"))
    x.control_points = [ctx.cp]
    x.assigned_control_point = GPoint(*ctx.cp) if control else None
    return x


def arguments(ctx):
    """Every combination of relative and absolute moves; the absolute position may be zero."""
    dx, dy, ax, ay = ctx.real("dx"), ctx.real("dy"), ctx.real("ax"), ctx.real("ay")
    yield {"dx": dx}, (dx, None), (0, None)
    yield {"dy": dy}, (0, None), (dy, None)
    yield {"dx": dx, "dy": dy}, (dx, None), (dy, None)
    yield {"abs_x": ax, "dy": dy}, (None, ax), (dy, None)
    yield {"dx": dx, "abs_x": ax, "abs_y": ay, "dy": dy}, (None, ax), (None, ay)
    yield {"abs_y": ay}, (0, None), (None, ay)
    yield {"abs_x": 0, "dy": dy}, (None, 0), (dy, None)
    yield {"abs_y": 0.0, "dx": dx}, (dx, None), (None, 0)


def moved(ctx, name, x, new, control, kept):
    """The result apart from its points."""
    ctx.ensure(name + ": facets", new.geom.facets == x.facets and new.geom.holes == x.holes)
    ctx.ensure(name + ": material", new.material is x.material)
    ctx.ensure(name + ": tolerance", new.tol == x.tol)
    if control and bool(_fn("inside") > 0):
        ctx.ensure(name + ": control point kept", new.cp is not None)
        p = new.cp if isinstance(new.cp, (tuple, list)) else (new.cp.x, new.cp.y)
        ctx.ensure_eq(name + ": control point x", p[0], ctx.cp[0])
        ctx.ensure_eq(name + ": control point y", p[1], ctx.cp[1])
    else:
        ctx.ensure(name + ": control point generated", new.cp is None)
    ctx.ensure(name + ": the geometry is kept", all(a is b for a, b in zip(kept, (x.points, x.facets, x.holes, x.material, x.control_points,
                                                                              x.assigned_control_point))))


def shift(ctx, control, which):
    g = geo()
    f = g.Geometry.shift_points
    Shape.ctx = ctx
    for kw, (mx, px), (my, py) in list(arguments(ctx))[which]:
        for idxs in (1, [0, 2], [3], 0, -1, []):
            Built.log = []
            pts = [(ctx.real(f"x{k}"), ctx.real(f"y{k}")) for k in range(4)]
            x = geometry(ctx, list(pts), control)
            kept = (x.points, x.facets, x.holes, x.material, x.control_points, x.assigned_control_point)
            with model(g, Geometry=Built):
                new = f(x, idxs, **kw)
            name = f"{sorted(kw)} {idxs}"
            moved(ctx, name, x, new, control, kept)
            ctx.ensure(name + ": list not edited", all(a is b for a, b in zip(x.points, pts)))
            ctx.ensure(name + ": as many points", len(new.geom.points) == 4)
            sel = [i % 4 for i in ([idxs] if isinstance(idxs, int) else idxs)]
            for k in range(4):
                X, Y = new.geom.points[k]
                if k in sel:
                    ctx.ensure_eq(f"{name}: x of {k}", X, px if mx is None else pts[k][0] + mx)
                    ctx.ensure_eq(f"{name}: y of {k}", Y, py if my is None else pts[k][1] + my)
                else:
                    ctx.ensure_eq(f"{name}: x of {k} kept", X, pts[k][0])
                    ctx.ensure_eq(f"{name}: y of {k} kept", Y, pts[k][1])


def shift_relative(ctx):
    shift(ctx, False, slice(0, 4))


def shift_absolute(ctx):
    shift(ctx, False, slice(4, 8))


def shift_control_point(ctx):
    shift(ctx, True, slice(3, 4))


def shift_any_points(ctx):
    """Any number of points, of which any number is moved (each once): the loop's body touches the point of its index only."""
    g = geo()
    f = g.Geometry.shift_points
    Shape.ctx = ctx
    for kw, (mx, px), (my, py) in arguments(ctx):
        Built.log = []
        i = ctx.index("i") if hasattr(ctx, "index") else ctx.real("i")

        class Idxs:
            __pydv_obj__ = True

            def __iter__(self):
                yield i

        x = geometry(ctx, AnyPoints(i), False)
        kept = (x.points, x.facets, x.holes, x.material, x.control_points, x.assigned_control_point)
        with model(g, Geometry=Built):
            new = f(x, Idxs(), **kw)
        name = f"{sorted(kw)}"
        moved(ctx, name, x, new, False, kept)
        ctx.ensure(name + ": list not edited", x.points.new is None)
        X, Y = new.geom.points.new
        ctx.ensure_eq(name + ": x", X, px if mx is None else _fn("X", i) + mx)
        ctx.ensure_eq(name + ": y", Y, py if my is None else _fn("Y", i) + my)


def assigned(ctx):
    """assign_control_point: the same region, material and tolerance, the stated control point; the geometry itself is kept."""
    g = geo()
    with model(g):
        for had in (False, True):
            m = mat("a")
            a = g.Geometry(GShape("a"), m, control_points=(ctx.real("ox"), ctx.real("oy")) if had else None, tol=5)
            snap = (a.geom, a.material, a.tol, a.assigned_control_point, list(a.control_points))
            p = (ctx.real("px"), ctx.real("py"))
            new = a.assign_control_point(p)
            ctx.ensure("new geometry", new is not a and isinstance(new, g.Geometry))
            ctx.ensure("same region", new.geom is a.geom and new.material is m and new.tol == 5)
            ctx.ensure_eq("assigned x", new.assigned_control_point.x, p[0])
            ctx.ensure_eq("assigned y", new.assigned_control_point.y, p[1])
            ctx.ensure("one control point", len(new.control_points) == 1)
            ctx.ensure_eq("control point x", new.control_points[0][0], p[0])
            ctx.ensure_eq("control point y", new.control_points[0][1], p[1])
            ctx.ensure("geometry kept", all(u is v for u, v in zip(snap, (a.geom, a.material, a.tol, a.assigned_control_point)))
                       and list(a.control_points) == snap[4])


def measures(ctx):
    g = geo()
    with model(g):
        s = GShape("a")
        s.exterior = type("R", (), {"__pydv_obj__": True})()
        s.exterior.length = ctx.pos("perimeter")
        s.length = ctx.pos("length of all outlines")
        a = g.Geometry(s, mat("a"))
        x0, y0, x1, y1 = s.bounds
        e = a.calculate_extents()
        for n, u, v in zip(("x_min", "x_max", "y_min", "y_max"), e, (x0, x1, y0, y1)):
            ctx.ensure_eq(n, u, v)
        ctx.ensure("four extents", len(e) == 4)
        ctx.ensure_eq("area", a.calculate_area(), s.area)
        c = a.calculate_centroid()
        ctx.ensure_eq("centroid x", c[0], s.centroid.x)
        ctx.ensure_eq("centroid y", c[1], s.centroid.y)
        ctx.ensure_eq("perimeter of the outline", a.calculate_perimeter(), s.exterior.length)


def of_all(got, parts):
    """The polygons of all regions, without exception."""
    from pydv import seqs

    if not isinstance(got, seqs.SymSeq):
        got = seqs.as_seq(got)
    if isinstance(got, seqs.MapSeq) and (got.seq is not parts or len(got.cases) != 1 or got.cases[0][0] is not True):
        return False
    return getattr(got.generic(), "k", None) is parts.bound


def compound_perimeter(ctx):
    """The outline of the union, or -1 of disjoint regions."""
    from pydv import seqs

    g = geo()
    f = g.CompoundGeometry.calculate_perimeter
    got = []

    class Poly(GShape):
        pass

    for whole in (True, False):
        u = Poly("u") if whole else type("Several", (), {"__pydv_obj__": True})()
        u.exterior = type("R", (), {"__pydv_obj__": True})()
        u.exterior.length = ctx.pos("perimeter")
        u.length = ctx.pos("length of all outlines")

        def union(x):
            got.append(x)
            return u

        def part(k):
            p = type("P", (), {"__pydv_obj__": True})()
            p.geom = type("Q", (), {"__pydv_obj__": True})()
            p.geom.k = k
            return p

        c = type("C", (), {"__pydv_obj__": True})()
        c.geoms = seqs.SymSeq("regions", part)
        with model(g, unary_union=union, Polygon=Poly):
            r = f(c)
        ctx.ensure("union of all regions", len(got) == 1 and of_all(got.pop(), c.geoms))
        ctx.ensure_eq("perimeter" if whole else "disjoint", r, u.exterior.length if whole else -1)


SYMBOLIC = [shift_relative, shift_absolute, shift_control_point, shift_any_points, assigned, measures, compound_perimeter]
RUNTIME = [("points", rtpoints.shifted, 250, 3000), ("control points", rtpoints.control, 250, 3000), ("measures", rtpoints.measures, 200, 2500)]
