"""C25: points, facets, holes and control points.

Contracts assumed on shapely: `exterior`/`interiors` give the closed boundary rings; `representative_point` lies inside
its polygon; `unary_union`, `-` and `Polygon(ring)` are the set operations; `contains` decides membership."""
from __future__ import annotations

from . import rtgeom
from .c21 import patched
from .geomodel import GPoint
from .seccommon import _fn


def geo():
    import sectionproperties.pre.geometry as g

    return g


def need(c, why):
    from pydv.terms import Unsupported

    if not c:
        raise Unsupported("contract does not apply: " + why)


# ------------------------------------------------------------------ create_points_and_facets
class Ring:
    """A closed ring of any number of points (the last equals the first)."""

    __pydv_obj__ = True

    def __init__(self, tag):
        from pydv import seqs

        self.tag = tag
        self.seq = seqs.SymSeq("ring" + tag, lambda k: (_fn("x" + tag, k), _fn("y" + tag, k)))
        self.coords = self

    def __getitem__(self, s):
        need(isinstance(s, slice) and s.start is None and s.stop == -1 and s.step is None, "use of the ring's coordinates")
        return self.seq


def peekable(seq):
    """Contract of more_itertools.peekable over a list: while an item is handled, peek gives the next one."""
    from pydv import seqs
    from pydv.terms import Unsupported

    if not isinstance(seq, seqs.MapSeq) or len(seq.cases) != 1 or seq.cases[0][0] is not True:
        raise Unsupported("peekable")

    class Peek(seqs.MapSeq):
        def peek(self, *default):
            k = self.seq.bound
            if k + 1 < self.seq.length:
                # the item's index advances by one
                return _shift(self.cases[0][1], self.seq)
            if not default:
                raise StopIteration
            return default[0]

    return Peek(seq.seq, seq.cases)


def _shift(v, seq):
    from pydv import terms as T

    return T.subst(v, {seq.bound_idx: seq.bound + 1})


def points_and_facets(ctx):
    """Rings of any length, 0 to 3 holes (bounded in the number of holes only)."""
    from pydv import seqs
    from pydv import terms as T
    from pydv.extract import x_list

    g = geo()
    more = type("M", (), {"peekable": staticmethod(peekable)})
    for holes in range(4):
        shape = type("P", (), {"__pydv_obj__": True})()
        shape.exterior = Ring("e")
        shape.interiors = [Ring(f"h{i}") for i in range(holes)]
        rings = [shape.exterior, *shape.interiors]
        with patched(g, more_itertools=more, list=x_list):
            points, facets = g.create_points_and_facets(shape, 9)
        pc, fc = points.all_chunks(), facets.all_chunks()
        need(len(pc) == len(rings) and len(fc) == len(rings), "shape of the lists")
        off = 0
        for i, r in enumerate(rings):
            kind, seq, items = pc[i]
            need(kind == "loop" and len(items) == 1 and seq is r.seq, "shape of the points")
            ctx.ensure_eq(f"{holes} holes ring {i} point x", items[0][0], r.seq.generic()[0])
            ctx.ensure_eq(f"{holes} holes ring {i} point y", items[0][1], r.seq.generic()[1])
            kind, m = fc[i]
            need(kind == "seq" and isinstance(m, seqs.MapSeq) and m.seq is r.seq, "shape of the facets")
            k, n = r.seq.bound, r.seq.length
            start = sum((T.indicator(c) * f[0] for c, f in m.cases), T.Sym.const(0))
            end = sum((T.indicator(c) * f[1] for c, f in m.cases), T.Sym.const(0))
            inner = T.indicator(k + 1 < n)
            ctx.ensure_eq(f"{holes} holes ring {i} facet starts at its point", start, k + off)
            ctx.ensure_eq(f"{holes} holes ring {i} facet ends at the next point", end, inner * (k + 1 + off) + (1 - inner) * off)
            off = off + n


# ------------------------------------------------------------------ Geometry.create_facets_and_control_points
class Poly:
    __pydv_obj__ = True

    def __init__(self, ring=None, tag=None):
        self.ring = ring
        self.tag = tag
        self.interiors = []

    def representative_point(self):
        of = self

        class P(GPoint):
            pass

        p = P(_fn("rpx", str(id(of)) if False else 0), _fn("rpy", 0))
        p.of = of
        p.__class__.coords = property(lambda s: [("inside", s.of)])
        return p


def region_data(ctx):
    """Holes and control point of a region: for every interior ring, and with or without an assigned control point."""
    g = geo()
    for holes in range(4):
        for assigned in (None, GPoint(ctx.real("cx"), ctx.real("cy"))):
            shape = Poly(tag="region")
            shape.interiors = [("ring", i) for i in range(holes)]
            x = object.__new__(g.Geometry)
            x.geom, x.tol, x.assigned_control_point = shape, 7, assigned
            x.points = x.facets = x.holes = x.control_points = ["stale"]
            calls = []

            def cpf(shape, tol=12):
                calls.append((shape, tol))
                return ["points"], ["facets"]

            with patched(g, create_points_and_facets=cpf, Polygon=Poly):
                x.compile_geometry()
            ctx.ensure("points and facets of the region", len(calls) >= 1 and all(c == (shape, 7) for c in calls)
                       and list(x.points) == ["points"] and list(x.facets) == ["facets"])
            need(all(isinstance(h, tuple) and h[0] == "inside" for h in x.holes), "holes")
            ctx.ensure("one hole point inside each interior ring", [h[1].ring for h in x.holes] == shape.interiors)
            cp = list(x.control_points)
            if assigned is None:
                ctx.ensure("control point inside the region", len(cp) == 1 and cp[0] == ("inside", shape))
            else:
                ctx.ensure("one control point", len(cp) == 1)
                ctx.ensure_eq("assigned control point x", cp[0][0], assigned.x)
                ctx.ensure_eq("assigned control point y", cp[0][1], assigned.y)


# ------------------------------------------------------------------ CompoundGeometry.__init__ / compile_geometry
def compound_init(ctx):
    """Nested compounds are flattened in order; every region is kept as it is."""
    from itertools import product

    g = geo()

    class Multi:
        __pydv_obj__ = True

        def __init__(self, geoms):
            self.geoms = geoms

    def single(tag):
        x = object.__new__(g.Geometry)
        x.geom, x.tag = ("poly", tag), tag
        return x

    n = [0]

    def tree(shape):
        if shape == 0:
            n[0] += 1
            x = single(n[0])
            return x, [x]
        c = object.__new__(g.CompoundGeometry)
        parts = [tree(0) for _ in range(shape)]
        c.geoms = [p for p, _ in parts]
        return c, c.geoms

    compiled = []
    with patched(g, MultiPolygon=Multi):
        keep = g.CompoundGeometry.compile_geometry
        g.CompoundGeometry.compile_geometry = lambda self: compiled.append(self)
        try:
            for shapes in [s for k in (1, 2, 3) for s in product((0, 1, 2, 3), repeat=k)]:
                items, want = [], []
                for s in shapes:
                    x, w = tree(s)
                    items.append(x)
                    want += w
                given = list(items)
                c = g.CompoundGeometry(items)
                ctx.ensure("regions flattened in order", len(c.geoms) == len(want) and all(p is q for p, q in zip(c.geoms, want)))
                ctx.ensure("union of their polygons", [p for p in c.geom.geoms] == [w.geom for w in want])
                ctx.ensure("compiled", compiled and compiled[-1] is c)
                ctx.ensure("given list kept", items == given)
                for x in items:
                    if hasattr(x, "geoms"):
                        ctx.ensure("given compound kept", all(hasattr(y, "tag") for y in x.geoms))
        finally:
            g.CompoundGeometry.compile_geometry = keep


class Ghost(list):
    """A list with unknown prior contents satisfying the loop invariant: no value occurs twice.

    `in` is an arbitrary answer per value until the value has been added; `index(p)` is the position of p, which the
    list must contain (precondition)."""

    __hash__ = object.__hash__
    ctx = None

    def _member(self, p):
        return any(q is p or q == p for q in list.__iter__(self))

    def __contains__(self, p):
        if self._member(p):
            return True
        key = ("in", p.key)
        if key not in self.__dict__.setdefault("answers", {}):
            self.answers[key] = bool(_fn("in_" + "_".join(map(str, p.key))) > 0)
        return self.answers[key]

    def append(self, p):
        if isinstance(p, Pt):
            Ghost.ctx.ensure("a point is added only when it is new", p not in self)
        list.append(self, p)

    def index(self, p):
        Ghost.ctx.ensure("the point of a facet is in the list", self._member(p) or self.__dict__.get("answers", {}).get(("in", p.key), False))
        return ("index of", p)


class Pt:
    __pydv_obj__ = True

    def __init__(self, *key):
        self.key = key


class Generic:
    """A sequence of any length, visited at its generic element."""

    __pydv_obj__ = True

    def __init__(self, item, at=None):
        self.item, self.at = item, at

    def __iter__(self):
        return iter(self.item if isinstance(self.item, list) else [self.item])

    def __getitem__(self, i):
        return self.at(i)

    def __bool__(self):
        return True


class Region(frozenset):
    pass


def BOUNDS():
    return tuple(_fn(f"bound{i}", 0) for i in range(4))


def enough(ctx, region, d):
    """Precondition of the buffer: the coordinates resolve it."""
    from pydv import terms as T

    for i, b in enumerate(region.bounds):
        ctx.ensure(f"the coordinates resolve the buffer.{i}", T.coerce(d) >= T.absolute(b) * T.F(1, 10**14))


def compile_compound(ctx):
    """The loops of compile_geometry on a generic region, point and facet, from any state satisfying the invariant."""
    g = geo()
    Ghost.ctx = ctx
    for compiled in (True, False):
        reg = type("R", (), {"__pydv_obj__": True})()
        pts = {}

        def at(i):
            return pts.setdefault(i, Pt(i))

        made = []

        def fill():
            made.append(1)
            # the loop over the points has visited every point of the region, so both ends of the generic facet
            reg.points = Generic([at("i"), at("j"), at("k")], at)
            reg.facets = Generic(("i", "j"))
            reg.control_points = Generic(("control", "point"))

        fill()
        made.clear()
        if not compiled:
            reg.points = []
        reg.create_facets_and_control_points = fill
        reg.geom = "region"

        class U:
            __pydv_obj__ = True
            area = _fn("area", positive=True)
            is_empty = False
            bounds = BOUNDS()

            def buffer(self, d):
                enough(ctx, self, d)
                return self

        c = object.__new__(g.CompoundGeometry)
        c.geoms = [reg]
        with patched(g, unary_union=lambda gs: U(), pydv_list_=Ghost):
            c.compile_geometry()
        ctx.ensure("a region is compiled first", bool(made) == (not compiled))
        for p in ("i", "j", "k"):
            ctx.ensure("every point of the region is listed", pts[p] in c.points)
        ctx.ensure("a facet joins the same points", list(c.facets) == [(("index of", pts["i"]), ("index of", pts["j"]))])
        ctx.ensure("the control points of the region are listed", list(c.control_points) == [("control", "point")])


def compound_holes(ctx):
    """Hole points: one inside each void of the union, whichever form the union takes."""
    g = geo()

    class S:
        """A set, as a boolean function of the atoms of an arbitrary point."""

        __pydv_obj__ = True

        def __init__(self, region, geoms=None):
            self.region = region
            self.area = _fn("area", positive=True)
            self.is_empty = not region
            if geoms is not None:
                self.geoms = geoms
                self.interiors = None

            self.bounds = BOUNDS()

        def buffer(self, d):
            # contract: a buffer by a negligible amount, that the coordinates resolve, covers the same area
            enough(ctx, self, d)
            return self

        @property
        def exterior(self):
            return ("exterior of", self)

        def __sub__(self, o):
            r = self.region - o.region
            return S.result(r)

        def representative_point(self):
            p = type("RP", (), {"__pydv_obj__": True})()
            p.coords = [("inside", self)]
            return p

    class P(S):
        """Polygon."""

        def __init__(self, arg, interiors=()):
            self.filled = arg if isinstance(arg, frozenset) else None
            if isinstance(arg, tuple) and arg[0] == "exterior of":
                super().__init__(arg[1].filled)
            else:
                super().__init__(arg)
            self.interiors = list(interiors)

    class M(S):
        """MultiPolygon."""

    # atoms: 1, 2 the two solids; v, w their voids; v2 a further void of the first
    for n_void in range(4):
        a, b = P(frozenset({"1"})), P(frozenset({"2"}))
        voids = [f"v{i}" for i in range(n_void)]
        # the second solid may lie inside a hole of the first
        for inside in (False, True):
            a.filled = frozenset({"1", *voids, *({"2"} if inside else ())})
            b.filled = frozenset({"2"})
            union = M(frozenset({"1", "2"}), [a, b])
            pieces = [P(frozenset({v})) for v in voids]

            def result(r):
                ctx.ensure("what is left is void", r == frozenset(voids))
                if not pieces:
                    return P(frozenset())
                return pieces[0] if len(pieces) == 1 else M(r, list(pieces))

            S.result = staticmethod(result)

            def uu(gs):
                gs = list(gs)
                if gs:
                    return M(frozenset().union(*(x.region for x in gs)), gs)
                return union

            c = object.__new__(g.CompoundGeometry)
            c.geoms = []
            with patched(g, unary_union=uu, Polygon=P, MultiPolygon=M):
                c.compile_geometry()
            need(all(isinstance(h, tuple) and h[0] == "inside" for h in c.holes), "holes")
            ctx.ensure("one hole point in every void", len(c.holes) == n_void and all(h[1] is q for h, q in zip(c.holes, pieces)))

        # a connected union: its own interior rings (callee contract: region_data)
        one = P(frozenset({"1"}), interiors=voids)

        class G:
            __pydv_obj__ = True

            def __init__(self, geom, *a, **k):
                ctx.ensure("of the union", geom is one)
                self.holes = [("hole", v) for v in geom.interiors]

        c = object.__new__(g.CompoundGeometry)
        c.geoms = []
        with patched(g, unary_union=lambda gs: one, Polygon=P, MultiPolygon=M, Geometry=G):
            c.compile_geometry()
        ctx.ensure("hole points of the connected union", list(c.holes) == [("hole", v) for v in voids])


# ------------------------------------------------------------------ from_points (bounded)
def _facet_rings(sizes, share):
    """Rings of the given sizes over points 0, 1, ...; with `share`, ring i+1 starts at ring i's first point."""
    rings, n = [], 0
    for i, m in enumerate(sizes):
        r = list(range(n, n + m))
        n += m
        if i and share:
            r[0] = rings[-1][0]
        rings.append(r)
    facets = [(a, b) for r in rings for a, b in zip(r, r[1:] + r[:1])]
    return n, rings, facets


class Shape:
    __pydv_obj__ = True
    log = None

    def __init__(self, pts=None, holes=()):
        self.pts = list(pts)
        if self.pts[0] == self.pts[-1]:
            self.pts = self.pts[:-1]
        self.cut = list(holes)

    def __sub__(self, o):
        return Shape(self.pts, [*self.cut, *(o.geoms if hasattr(o, "geoms") else [o])])

    def contains(self, p):
        return p.of in Shape.inside(self)


def from_points_simple(ctx):
    """Bounded: rings of 3 to 5 points, up to 3 holes, rings sharing their first point or not; points arbitrary."""
    from itertools import product

    g = geo()

    class Multi:
        __pydv_obj__ = True

        def __init__(self, geoms):
            self.geoms = list(geoms)

    class Out:
        __pydv_obj__ = True

        def __init__(self, geom, material=None, control_points=None, tol=12):
            self.geom, self.material, self.cp = geom, material, control_points

    mat = object()
    for h in range(4):
        for sizes in product((3, 4, 5), repeat=h + 1):
            for share in (False, True):
                if share and h == 0:
                    continue
                n, rings, facets = _facet_rings(sizes, share)
                pts = [("p", i) for i in range(n)]
                holes = [("hole", i) for i in range(h)]
                with patched(g, Polygon=Shape, MultiPolygon=Multi, Geometry=Out):
                    F = geo_from_points(g)
                    r = F(pts, facets, [("cp", 0)], holes if h else None, mat)
                ctx.ensure("exterior ring", r.geom.pts == [pts[i] for i in rings[0]])
                ctx.ensure("each hole is cut out", [x.pts for x in r.geom.cut] == [[pts[i] for i in q] for q in rings[1:]])
                ctx.ensure("material given", r.material is mat)
                ctx.ensure("control point given", r.cp == ("cp", 0))


def geo_from_points(g):
    return _FP["simple"]


_FP = {}


def from_points_compound(ctx):
    """Bounded: up to 3 regions with up to 2 holes each, rings of 3 or 4 points."""
    from itertools import product

    g = geo()

    class Out:
        __pydv_obj__ = True

        def __init__(self, geom, material=None, control_points=None, tol=12):
            self.geom, self.material, self.cp = geom, material, control_points

    class P:
        __pydv_obj__ = True

        def __init__(self, of):
            self.of = of

    for regions in (1, 2, 3):
        for counts in product((0, 1, 2), repeat=regions):
            for size in (3, 4):
                for share in (False, True):
                    kinds = [(i, j) for i, c in enumerate(counts) for j in range(-1, c)]  # (region, -1 exterior / hole)
                    n, rings, facets = _facet_rings([size] * len(kinds), share)
                    pts = [("p", i) for i in range(n)]
                    holes = [("hole", i, j) for i, j in kinds if j >= 0]
                    cps = [("cp", i) for i in range(regions)]
                    mats = [object() for _ in range(regions)]
                    ringof = {tuple(pts[i] for i in r): k for r, k in zip(rings, kinds)}

                    def inside(shape):
                        i, j = ringof.get(tuple(shape.pts), (None, None))
                        if i is None:
                            return set()
                        if j >= 0:
                            return {("hole", i, j)}
                        cut = {ringof[tuple(s.pts)] for s in shape.cut if tuple(s.pts) in ringof}
                        return {("cp", i)} | {("hole", i, q) for q in range(counts[i]) if (i, q) not in cut}

                    Shape.inside = staticmethod(inside)
                    with patched(g, Polygon=Shape, Geometry=Out, CompoundGeometry=lambda geoms: geoms, Point=P):
                        r = _FP["compound"](pts, facets, cps, holes, mats)
                    ctx.ensure("one region per control point", len(r) == regions)
                    for i, x in enumerate(r):
                        ext = [q for q, k in zip(rings, kinds) if k == (i, -1)][0]
                        ctx.ensure("exterior of the region", x.geom.pts == [pts[q] for q in ext])
                        mine = {ringof[tuple(s.pts)] for s in x.geom.cut if tuple(s.pts) in ringof}
                        ctx.ensure("its holes are cut out", all((i, q) in mine for q in range(counts[i])))
                        ctx.ensure("only holes are cut out", all(k[1] >= 0 for k in mine) and len(x.geom.cut) == len(
                            [s for s in x.geom.cut if tuple(s.pts) in ringof]))
                        ctx.ensure("its material", x.material is mats[i])
                        ctx.ensure("its control point", x.cp == ("cp", i))


def _bind(f):
    def h(ctx):
        g = geo()
        _FP["simple"], _FP["compound"] = g.Geometry.from_points, g.CompoundGeometry.from_points
        f(ctx)

    h.__name__, h.__doc__ = f.__name__, f.__doc__
    return h


SYMBOLIC = [points_and_facets, region_data, compound_init, compile_compound, compound_holes, _bind(from_points_simple),
            _bind(from_points_compound)]
RUNTIME = [("points and facets", rtgeom.described, 1500, 8000), ("round trip", rtgeom.round_trip, 1500, 8000)]
