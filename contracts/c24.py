"""C24: boolean operations and materials.

Contracts assumed on shapely: `| & ^ -` return a geometry (a polygon, a multi-polygon, a collection with lower
dimensional debris, a line, a point, or an empty polygon) whose polygons cover exactly the set combination."""
from __future__ import annotations

from . import rtgeom
from .geomodel import GMulti, GPoint, GShape, model
from .seccommon import _fn

OPS = {"or": lambda a, b: a or b, "and": lambda a, b: a and b, "xor": lambda a, b: a != b, "sub": lambda a, b: a and not b}
ASSIGN = [(a, b) for a in (False, True) for b in (False, True)]


def table(f):
    return frozenset(p for p in ASSIGN if f(*p))


A, B = table(lambda a, b: a), table(lambda a, b: b)


class SPoly(GShape):
    """A polygon covering the part `which` of the set `region` (a truth table over the operands)."""

    oracle = None

    def __init__(self, region=frozenset(), which=None, tag="s"):
        super().__init__(tag)
        self.region, self.which = region, which
        self.is_empty = not region
        self.is_valid = True  # a single polygon (assumed of the operands)
        self.interiors = ()

    def __or__(self, o):
        return SPoly.oracle("or", self, o)

    def __and__(self, o):
        return SPoly.oracle("and", self, o)

    def __xor__(self, o):
        return SPoly.oracle("xor", self, o)

    def __sub__(self, o):
        return SPoly.oracle("sub", self, o)

    def contains(self, p):  # noqa: D102
        return _fn("contains_" + str(self.which)) > 0


class SMultiP:
    """A multi-polygon: any number of pieces covering `region` together."""

    __pydv_obj__ = True

    def __init__(self, region, geoms=None):
        self.region = region
        self.is_valid = _fn("valid_multi") > 0
        if isinstance(region, list):
            self.geoms = region
            self.region = "unknown" if any(not isinstance(x, SPoly) for x in region) else region[0].region
            return
        self.geoms = geoms


class SColl:
    __pydv_obj__ = True

    def __init__(self, geoms):
        self.geoms = geoms


class SLine:
    __pydv_obj__ = True


class SLines:
    """A multi-line-string."""

    __pydv_obj__ = True


class SPoints:
    """A multi-point."""

    __pydv_obj__ = True


def result(kind, region):
    from pydv import seqs

    if kind == "polygon":
        return SPoly(region, "all")
    if kind == "multi":
        return SMultiP(region, seqs.SymSeq("pieces", lambda k: SPoly(region, ("piece", k), "p")))
    if kind == "collection":
        return SColl([SLine(), SPoly(region, "all"), GPoint(0, 0)])
    if kind == "collection of two":
        return SColl([SPoly(region, "first"), SLine(), SPoly(region, "second")])
    if kind == "collection of none":
        return SColl([SLine(), GPoint(0, 0)])
    if kind == "line":
        return SLine()
    if kind == "point":
        return GPoint(0, 0)
    if kind == "lines":
        return SLines()
    if kind == "points":
        return SPoints()
    return SPoly(frozenset(), "empty")


def unary_union(x):
    """Contract: the valid polygon or multi-polygon covering the same points."""
    return SPoly(x.region, "union")


class Made:
    """Stands for CompoundGeometry; its constructor's contract is in C25."""

    __pydv_obj__ = True

    def __init__(self, geoms):
        self.geoms = geoms


KINDS = ["polygon", "multi", "collection", "collection of two", "collection of none", "line", "point", "lines", "points", "empty"]
EMPTY_KINDS = ["collection of none", "line", "point", "lines", "points", "empty"]


def geo():
    import sectionproperties.pre.geometry as g

    return g


def patched_model(g):
    return model(g, unary_union=unary_union, Polygon=SPoly, MultiPolygon=SMultiP, GeometryCollection=SColl, LineString=SLine, Point=GPoint,
                 MultiLineString=SLines, MultiPoint=SPoints, CompoundGeometry=Made)


def mat(tag):
    from pydv import terms as T

    return type("M", (), {"__pydv_obj__": True, "elastic_modulus": T.symbol("E" + tag, positive=True), "name": tag})()


def regions_of(ctx, name, new, kind, want, material, control, self_tol):
    """The result's regions are exactly the polygons of the set, each with the left operand's material."""
    g = geo()
    if kind in ("multi", "collection of two"):
        ctx.ensure(name + " compound", isinstance(new, Made))
        if not isinstance(new, Made):
            return
        if kind == "multi":
            ctx.ensure(name + " every piece", new.geoms.seq.name == "pieces" and new.geoms.cases[0][0] is True
                       and len(new.geoms.cases) == 1)
            parts = [(new.geoms.generic(), None)]
        else:
            ctx.ensure(name + " every piece", [x.geom.which for x in new.geoms] == ["first", "second"])
            parts = [(x, None) for x in new.geoms]
    else:
        ctx.ensure(name + " simple", isinstance(new, g.Geometry) and not isinstance(new, Made))
        if not isinstance(new, g.Geometry):
            return
        parts = [(new, self_tol)]
    for x, tol in parts:
        ctx.ensure(name + " set", x.geom.region == (frozenset() if kind in EMPTY_KINDS else want))
        ctx.ensure(name + " material", x.material is material)
        if tol is not None:
            ctx.ensure(name + " tolerance", x.tol == tol)


def operation(ctx, op, control=False, other_kind="simple"):
    import operator

    g = geo()
    f = {"or": operator.or_, "and": operator.and_, "xor": operator.xor, "sub": operator.sub}[op]
    for kind in KINDS:
        if op == "or" and kind in EMPTY_KINDS:
            continue  # a union with a region is never empty
        if op != "and" and kind in ("lines", "points"):
            continue  # only an intersection of regions can consist of lines or points
        def oracle(name, a, b):
            for x in (a, b):
                # callee precondition: set operations need valid operands
                ctx.ensure("valid operand", x.is_valid)
            return result(kind, table(lambda x, y: OPS[name]((x, y) in a.region, (x, y) in b.region)))

        with patched_model(g):
            SPoly.oracle = staticmethod(oracle)
            m = mat("left")
            cp = (ctx.real("cpx"), ctx.real("cpy")) if control else None
            a = g.Geometry(SPoly(A, "A", "a"), m, control_points=cp, tol=7)
            if other_kind == "simple":
                b = g.Geometry(SPoly(B, "B", "b"), mat("right"))
            else:
                b = Made([])
                b.geom, b.material = SMultiP(B), None
            snap = (a.geom, a.material, a.tol, a.assigned_control_point, b.geom, b.material)
            new = f(a, b)
            want = table(OPS[op])
            regions_of(ctx, f"{op} {kind}", new, kind, want, m, control, 7)
            now = (a.geom, a.material, a.tol, a.assigned_control_point, b.geom, b.material)
            ctx.ensure(f"{op} {kind} operands kept", all(p is q for p, q in zip(snap, now)))
            if control and isinstance(new, g.Geometry) and new.assigned_control_point is not None:
                q = new.assigned_control_point
                if op == "or" and not kind.startswith("coll"):
                    continue
                ctx.ensure_eq("control point kept x", q.x, cp[0])
                ctx.ensure_eq("control point kept y", q.y, cp[1])


def union(ctx):
    operation(ctx, "or")
    operation(ctx, "or", True)
    operation(ctx, "or", other_kind="compound")


def intersection(ctx):
    operation(ctx, "and")
    operation(ctx, "and", other_kind="compound")


def symmetric_difference(ctx):
    operation(ctx, "xor")
    operation(ctx, "xor", other_kind="compound")


def difference(ctx):
    operation(ctx, "sub")
    operation(ctx, "sub", other_kind="compound")


def difference_control_point(ctx):
    operation(ctx, "sub", True)


def compound_difference(ctx):
    """Every region of a compound, of any number, is subtracted from on its own (callee contract: the simple difference)."""
    from pydv import seqs

    g = geo()
    with patched_model(g):
        class Left:
            __pydv_obj__ = True

            def __init__(self, k):
                self.k = k

            def __sub__(self, o):
                new = type("New", (), {"__pydv_obj__": True})()
                new.of, new.other = self, o
                new.geom = type("Geom", (), {"__pydv_obj__": True})()
                new.geom.is_empty = _fn("gone", self.k) > 0
                return new

        c = Made(seqs.SymSeq("regions", Left))
        other = type("Other", (), {"__pydv_obj__": True})()
        new = g.Geometry.__sub__(c, other)
        ctx.ensure("compound", isinstance(new, Made))
        chunks = new.geoms.all_chunks()
        ctx.ensure("one chunk of results", len(chunks) == 1)
        kind, seq, payload = chunks[0]
        ctx.ensure("over all regions", seq is c.geoms)
        if kind == "loop":
            ctx.ensure("one result per region", len(payload) == 1 and payload[0].of is seq.generic() and payload[0].other is other)
        else:
            ctx.ensure("one result per region", kind == "cases" and len(payload) == 1 and len(payload[0][1]) == 1)
            cond, items = payload[0]
            gone = _fn("gone", seq.bound) > 0
            ctx.ensure("regions that vanish, and only those, are left out",
                       (cond & gone.negate()) | (cond.negate() & gone) if not isinstance(cond, bool) else cond)
            ctx.ensure("of that region", items[0].of is seq.generic() and items[0].other is other)


def addition(ctx):
    """Adding keeps both operands, in order (callee contract of the constructor: C25)."""
    g = geo()
    with patched_model(g):
        a = g.Geometry(SPoly(A, "A"), mat("left"), tol=7)
        b = g.Geometry(SPoly(B, "B"), mat("right"), tol=5)
        snap = (a.geom, a.material, a.tol, b.geom, b.material, b.tol)
        new = a + b
        ctx.ensure("compound of both, in order", isinstance(new, Made) and len(new.geoms) == 2 and new.geoms[0] is a
                   and new.geoms[1] is b)
        ctx.ensure("operands kept", all(p is q for p, q in zip(snap, (a.geom, a.material, a.tol, b.geom, b.material, b.tol))))


SYMBOLIC = [union, intersection, symmetric_difference, difference, difference_control_point, compound_difference, addition]
RUNTIME = [("booleans", rtgeom.booleans, 400, 3000)]
