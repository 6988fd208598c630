"""C33: offsetting the perimeter.

Contracts assumed on shapely: `Polygon(ring)` is the region within a ring, `buffer(distance, quad_segs)` the region offset by
that distance with arcs of that resolution (a polygon, a multi-polygon, possibly empty), `- | &` and `unary_union` the set
operations, `contains` decides membership, `shared_paths` the paths two outlines have in common, `line_merge` joins paths."""
from __future__ import annotations

from . import rtoffset
from .c24 import Made, mat
from .c25 import geo, need
from .common import like
from .c34 import of_all
from .geomodel import GPoint, GShape, model
from .seccommon import _fn

# ------------------------------------------------------------------ regions as truth tables over named sets
ATOMS = ["E", "H0", "H1", "H2", "before", "E^", "H0^", "H1^", "H2^", "G^"]
FULL = (1 << (1 << len(ATOMS))) - 1


def atom(name):
    """The assignments (one bit each) that put a point in the named set."""
    i, n = ATOMS.index(name), 1 << len(ATOMS)
    return sum(1 << a for a in range(n) if a >> i & 1)


class Reg:
    """A set of points: the region a polygon or a multi-polygon covers."""

    ctx, amount, resolution, kind, last = None, None, None, "polygon", None

    def _made(self, region, kind=None):
        kind = kind or Reg.kind
        if kind == "multi":
            from pydv import seqs

            new = SMulti(region, seqs.SymSeq("pieces", lambda k: SPoly(("piece", region, k))))
        elif kind == "collection of one":
            new = SColl([SLine(), SPoly(region), GPoint(0, 0)])
        elif kind == "collection of two":
            new = SColl([SPoly((region, 0)), SLine(), SPoly((region, 1))])
        elif kind == "collection of none":
            new = SColl([SLine(), GPoint(0, 0)])
        elif kind == "line":
            new = SLine()
        else:
            new = SPoly(region if kind == "polygon" else 0)
        Reg.last = new
        return new

    def __sub__(self, o):
        need(isinstance(o, Reg), "operand of a difference")
        new = self._made(self.region & ~o.region & FULL)
        new.left = self
        return new

    def difference(self, o):
        return self - o

    def buffer(self, distance, quad_segs=16, cap_style="round", join_style="round", mitre_limit=5.0, single_sided=False):
        c = Reg.ctx
        c.ensure_eq("buffer by the amount", distance, Reg.amount)
        c.ensure_eq("buffer of the resolution", quad_segs, Reg.resolution)
        c.ensure("round joins", join_style in ("round", 1) and not single_sided)
        return self._made(OFFSET[self.region])

    def contains(self, p):
        c = Reg.ctx
        c.ensure_eq("tested point x", p.x, c.cp[0])
        c.ensure_eq("tested point y", p.y, c.cp[1])
        return _fn("inside") > 0

    def covers(self, p):
        return self.contains(p)


class SPoly(Reg, GShape):
    __pydv_obj__ = True

    def __init__(self, shell=0, holes=(), interiors=None):
        GShape.__init__(self, "s")
        if isinstance(shell, Ring):
            shell = shell.region
            for h in holes or ():
                shell &= ~h.region
        self.region = shell
        self.is_empty = self.region == 0
        self.is_valid = True
        self.exterior = Ring(atom("E"))
        self.interiors = () if interiors is None else interiors
        Reg.last = self


class SMulti(Reg):
    __pydv_obj__ = True

    def __init__(self, region, geoms=None):
        if isinstance(region, list):
            region, geoms = tuple(x.region for x in region), region
        self.region, self.geoms, self.is_empty = region, geoms, False


class SColl:
    __pydv_obj__ = True

    def __init__(self, geoms):
        self.geoms = geoms


class SLine:
    __pydv_obj__ = True
    is_empty = False


class Ring:
    """A closed outline, known by the region within."""

    __pydv_obj__ = True

    def __init__(self, region):
        self.region = region


E, E_ = atom("E"), atom("E^")
H = [atom(f"H{k}") for k in range(3)]
H_ = [atom(f"H{k}^") for k in range(3)]
OFFSET = {E: E_, **dict(zip(H, H_))}


def minus(a, *bs):
    for b in bs:
        a &= ~b
    return a & FULL


class AnyHoles:
    """Any number of holes: the loop over them is checked by induction. Before a hole the accumulated region lacks the holes
    `before`; one run of the body with the generic hole H0 must leave the region that lacks that hole, too."""

    __pydv_obj__ = True

    def __init__(self, ctx, start, taken):
        self.ctx, self.start, self.taken = ctx, start, taken
        self.checked = False  # the constructor's loop over the holes is under contract in C25

    def __bool__(self):
        return True

    def __len__(self):
        need(False, "number of holes")

    def __iter__(self):
        if not self.checked:
            yield Ring(H[0])
            return
        acc = Reg.last
        need(acc is not None and acc.region == self.start and isinstance(acc, SPoly), "the region before the loop over the holes")
        acc.region = minus(self.start, atom("before"))
        yield Ring(H[0])
        new = Reg.last
        need(getattr(new, "left", None) is acc, "a loop over the holes that does not take each out of what is left")
        self.ctx.ensure("a hole's outline is taken out of what is left", new.region == minus(self.start, atom("before"), self.taken))
        new.region = minus(self.start, atom("before"))  # here: all holes


def patched_model(g, **kw):
    return model(g, Polygon=SPoly, MultiPolygon=SMulti, GeometryCollection=SColl, LineString=SLine, Point=GPoint,
                 CompoundGeometry=Made, **kw)


def outcome(ctx, name, new, want, g, m, tol, kind, control):
    if kind == "multi":
        ctx.ensure(name + ": several regions", isinstance(new, Made))
        ctx.ensure(name + ": every piece", new.geoms.seq.name == "pieces" and len(new.geoms.cases) == 1 and new.geoms.cases[0][0] is True)
        x = new.geoms.generic()
        ctx.ensure(name + ": piece of the region", x.geom.region == ("piece", want, new.geoms.seq.bound)
                   or x.geom.region[:2] == ("piece", want))
        ctx.ensure(name + ": material of a piece", x.material is m)
        return
    ctx.ensure(name + ": one region", isinstance(new, g.Geometry) and not isinstance(new, Made))
    ctx.ensure(name + ": region", new.geom.region == (0 if kind == "empty" else want))
    ctx.ensure(name + ": material", new.material is m)
    ctx.ensure(name + ": tolerance", new.tol == tol)
    if control:
        if bool(_fn("inside") > 0):
            q = new.assigned_control_point
            ctx.ensure(name + ": control point kept", q is not None)
            ctx.ensure_eq(name + ": control point x", q.x, ctx.cp[0])
            ctx.ensure_eq(name + ": control point y", q.y, ctx.cp[1])
        else:
            ctx.ensure(name + ": a point outside is no control point", new.assigned_control_point is None)
    else:
        ctx.ensure(name + ": no control point assigned", new.assigned_control_point is None)


def run(ctx, where, holes, kind, control, inductive=False):
    g = geo()
    Reg.ctx, Reg.kind, Reg.last = ctx, kind, None
    Reg.amount, Reg.resolution = ctx.real("amount"), ctx.real("resolution")
    ctx.cp = (ctx.real("cpx"), ctx.real("cpy"))
    m = mat("of the geometry")
    with patched_model(g):
        hs = tuple(Ring(h) for h in H[:holes])
        whole = minus(E, atom("before")) if inductive else minus(E, *H[:holes])
        OFFSET[whole] = E_ if whole == E else atom("G^")
        if inductive:
            start, taken = (E, H_[0]) if where == "interior" else (E_, H[0])
            hs = AnyHoles(ctx, start, taken)
        poly = SPoly(whole, interiors=hs)
        a = g.Geometry(poly, m, control_points=ctx.cp if control else None, tol=7)
        if inductive:
            hs.checked = True
        snap = (a.geom, a.material, a.tol, a.assigned_control_point, poly.region, poly.interiors)
        new = a.offset_perimeter(amount=Reg.amount, where=where, resolution=Reg.resolution)
        now = (a.geom, a.material, a.tol, a.assigned_control_point, poly.region, poly.interiors)
        name = f"{where} {'any number of' if inductive else holes} holes {kind}"
        ctx.ensure(name + ": the geometry is kept", all(p is q for p, q in zip(snap, now)))
        if inductive:
            want = minus(E if where == "interior" else E_, atom("before"))
        elif where == "exterior":
            want = minus(E_, *H[:holes])
        elif where == "interior":
            want = minus(E, *H_[:holes])
        else:
            want = OFFSET[whole]
        outcome(ctx, name, new, want, g, m, 7, kind, control)


def exterior(ctx):
    for holes in range(3):
        run(ctx, "exterior", holes, "polygon", False)
    run(ctx, "exterior", 1, "multi", False)
    run(ctx, "exterior", 0, "multi", False)
    run(ctx, "exterior", 1, "empty", False)


def exterior_control_point(ctx):
    run(ctx, "exterior", 1, "polygon", True)


def interior(ctx):
    for holes in (1, 2, 3):
        run(ctx, "interior", holes, "polygon", False)
    run(ctx, "interior", 1, "multi", False)
    run(ctx, "interior", 2, "empty", False)


def interior_control_point(ctx):
    run(ctx, "interior", 1, "polygon", True)


def exterior_any_holes(ctx):
    run(ctx, "exterior", 1, "polygon", False, True)


def interior_any_holes(ctx):
    run(ctx, "interior", 1, "polygon", False, True)


def everywhere(ctx):
    for holes in range(3):
        run(ctx, "all", holes, "polygon", False)
    run(ctx, "all", 1, "multi", False)
    run(ctx, "all", 1, "empty", False)


def everywhere_control_point(ctx):
    run(ctx, "all", 1, "polygon", True)


def refused(ctx):
    g = geo()
    Reg.ctx, Reg.kind = ctx, "polygon"
    Reg.amount, Reg.resolution = ctx.real("amount"), ctx.real("resolution")
    with patched_model(g):
        for holes, where in ((0, "interior"), (0, "inside"), (1, "EXTERIOR"), (1, ""), (0, "both")):
            a = g.Geometry(SPoly(minus(E, *H[:holes]), interiors=tuple(Ring(h) for h in H[:holes])), mat("x"))
            try:
                a.offset_perimeter(amount=Reg.amount, where=where, resolution=Reg.resolution)
            except ValueError:
                ctx.ensure(f"'{where}' with {holes} holes is refused", True)
            else:
                ctx.ensure(f"'{where}' with {holes} holes is refused", False)


def defaults(ctx):
    """By default the outline is offset, with arcs of 12 segments per quarter."""
    g = geo()
    Reg.ctx, Reg.kind = ctx, "polygon"
    Reg.amount, Reg.resolution = ctx.real("amount"), 12
    with patched_model(g):
        a = g.Geometry(SPoly(minus(E, H[0]), interiors=(Ring(H[0]),)), mat("x"))
        ctx.ensure("default", a.offset_perimeter(Reg.amount).geom.region == minus(E_, H[0]))


def buffered(ctx):
    """buffer_polygon: every polygon of what shapely returns, nothing else."""
    g = geo()
    Reg.ctx = ctx
    Reg.amount, Reg.resolution = ctx.real("amount"), ctx.real("resolution")
    with patched_model(g):
        for kind in ("polygon", "multi", "collection of one", "collection of two", "collection of none", "line", "empty"):
            Reg.kind = kind
            r = g.buffer_polygon(SPoly(E), Reg.amount, Reg.resolution)
            if kind in ("polygon", "collection of one"):
                ctx.ensure(kind, isinstance(r, SPoly) and r.region == E_)
            elif kind == "multi":
                ctx.ensure(kind, r is Reg.last)
            elif kind == "collection of two":
                ctx.ensure(kind, isinstance(r, SMulti) and r.region == ((E_, 0), (E_, 1)))
            else:
                ctx.ensure(kind, r.region in (0, ()))


# ------------------------------------------------------------------ compound geometries
class Part:
    """A region of a compound geometry."""

    __pydv_obj__ = True

    def __init__(self, k):
        self.k, self.material = k, mat("part")
        self.geom = type("Geom", (), {"__pydv_obj__": True})()
        self.geom.k, self.geom.is_empty = k, False

    def __and__(self, o):
        """Contract of Geometry.__and__ (C24): the common region, with the left operand's material."""
        new = type("New", (), {"__pydv_obj__": True})()
        new.of, new.other, new.material = self, o, self.material
        new.geom = type("Geom", (), {"__pydv_obj__": True})()
        new.geom.is_empty = _fn("gone", self.k) > 0
        return new


def compound(ctx, amount):
    """A compound of any number of regions; returns it, the result, and the records of the callees' calls."""
    from pydv import seqs

    g = geo()
    cls = g.CompoundGeometry
    rec = type("Rec", (), {})()
    rec.union, rec.offsets, rec.dilated = None, [], []
    whole = SPoly(E)

    def unary_union(x):
        rec.union = x
        return whole

    class Whole:
        __pydv_obj__ = True

        def __init__(self, geom=None, material=None, **kw):
            self.geom = geom

        def offset_perimeter(self, amount=0.0, where="exterior", resolution=12):
            new = Whole()
            rec.offsets.append((self, amount, where, resolution, new))
            return new

    def dilation(geoms, offset, resolution=12):
        rec.dilated.append((geoms, offset, resolution))
        return "dilated"

    with patched_model(g, unary_union=unary_union, Geometry=Whole, compound_dilation=dilation):
        c = like(Made(seqs.SymSeq("regions", Part)), cls)
        rec.where, rec.resolution = "exterior", ctx.real("resolution")
        new = cls.offset_perimeter(c, amount=amount, where=rec.where, resolution=rec.resolution)
    return g, c, new, rec, whole


def erosion(ctx):
    amount = ctx.real("amount")
    ctx.assume(amount < 0)
    g, c, new, rec, whole = compound(ctx, amount)
    need(len(rec.offsets) == 1 and rec.union is not None, "one offset of the union")
    u = rec.union
    ctx.ensure("union of all regions", of_all(u, c.geoms))
    w, a, where, res, off = rec.offsets[0]
    ctx.ensure("the union is offset", w.geom is whole)
    ctx.ensure_eq("by the amount", a, amount)
    ctx.ensure("where stated", where == "exterior")
    ctx.ensure_eq("with the resolution", res, rec.resolution)
    ctx.ensure("compound", isinstance(new, Made))
    chunks = new.geoms.all_chunks()
    ctx.ensure("one chunk of results", len(chunks) == 1)
    kind, seq, payload = chunks[0]
    ctx.ensure("over all regions", seq is c.geoms)
    if kind == "loop":
        ctx.ensure("one result per region", len(payload) == 1 and payload[0].of is seq.generic() and payload[0].other is off)
    else:
        ctx.ensure("one result per region", kind == "cases" and len(payload) == 1 and len(payload[0][1]) == 1)
        cond, items = payload[0]
        gone = _fn("gone", seq.bound) > 0
        ctx.ensure("regions that vanish, and only those, are left out",
                   (cond & gone.negate()) | (cond.negate() & gone) if not isinstance(cond, bool) else cond)
        ctx.ensure("the common part of the region and the eroded whole", items[0].of is seq.generic() and items[0].other is off)


def dilation_call(ctx):
    amount = ctx.real("amount")
    ctx.assume(amount > 0)
    g, c, new, rec, whole = compound(ctx, amount)
    ctx.ensure("dilated", new == "dilated" and len(rec.dilated) == 1)
    ctx.ensure("all regions", rec.dilated[0][0] is c.geoms)
    ctx.ensure_eq("by the amount", rec.dilated[0][1], amount)
    ctx.ensure_eq("with the resolution", rec.dilated[0][2], rec.resolution)


def no_offset(ctx):
    g, c, new, rec, whole = compound(ctx, 0)
    ctx.ensure("no offset", new is c or (isinstance(new, Made) and new.geoms is c.geoms))


# ------------------------------------------------------------------ compound_dilation
class Set:
    """A set of points over the regions P_i, their filled outlines F_i and the bands B_i of a compound of n regions."""

    __pydv_obj__ = True
    n, ctx, kind = 1, None, "polygon"

    def __init__(self, bits, key=None):
        self.bits, self.key = bits, key
        self.is_empty = False

    @staticmethod
    def named(name, i):
        return Set(sum(1 << a for a in range(1 << 3 * Set.n) if a >> (3 * i + "PFB".index(name)) & 1), (name, i))

    @staticmethod
    def possible():
        """The assignments under which P_i is within F_i and no two regions overlap."""
        out = 0
        for a in range(1 << 3 * Set.n):
            ps = [a >> 3 * i & 1 for i in range(Set.n)]
            if sum(ps) <= 1 and all(a >> 3 * i + 1 & 1 for i in range(Set.n) if ps[i]):
                out |= 1 << a
        return out

    def __sub__(self, o):
        return Cut(self.bits & ~o.bits)

    def __or__(self, o):
        return Set(self.bits | o.bits)

    def __and__(self, o):
        return Set(self.bits & o.bits)

    difference, union, intersection = __sub__, __or__, __and__


def Cut(bits):
    if Set.kind == "polygon":
        return PSet(bits)
    return MSet(bits)


class PSet(Set):
    """A polygon."""

    def __init__(self, bits, key=None):
        if isinstance(bits, DRing):
            bits, key = Set.named("F", bits.i).bits, ("F", bits.i)
        super().__init__(bits, key)


class Piece(PSet):
    def __init__(self, of, j):
        super().__init__(of.bits)
        self.of, self.j = of, j

    def __and__(self, o):
        self.with_ = o
        x = Set(self.bits & o.bits)
        x.area = _fn(f"overlap{self.j}")
        return x

    intersection = __and__


class MSet(Set):
    """Several polygons."""

    def __init__(self, bits):
        super().__init__(bits)
        self.geoms = [Piece(self, j) for j in range(2)]


class DRing:
    """The outline of region i, without the paths taken out."""

    __pydv_obj__ = True

    def __init__(self, i, without=frozenset()):
        self.i, self.without = i, without

    def __sub__(self, o):
        return DRing(self.i, self.without | o.paths)

    def buffer(self, distance, quad_segs=16, cap_style="round", join_style="round", mitre_limit=5.0, single_sided=False):
        Set.ctx.ensure_eq("band as wide as the amount", distance, Set.offset)
        Set.ctx.ensure_eq("arcs of the resolution", quad_segs, Set.resolution)
        Set.ctx.ensure("band without caps", cap_style == "flat" and join_style == "round" and not single_sided)
        Set.ctx.ensure(f"region {self.i}: band along the outline without what it shares", self.without == {(self.i, j) for j in Set.net[self.i]})
        return Set.named("B", self.i)


class Paths:
    __pydv_obj__ = True

    def __init__(self, items):
        self.paths = frozenset(x.path for x in items)


class SharedLine(SLine):
    """The path shared by two outlines (a single line)."""

    def __init__(self, path):
        self.path, self.is_empty = path, False


class NoLine(SLine):
    is_empty = True


class Several:
    __pydv_obj__ = True
    is_empty = False


def dilation_body(ctx, n, net, kind):
    from pydv import terms as T

    g = geo()
    Set.ctx, Set.n, Set.net, Set.kind = ctx, n, net, kind
    Set.offset, Set.resolution = ctx.pos("offset"), ctx.real("resolution")

    def shared_paths(ring, rings):
        # the path shared with each outline, in either the same or the opposite direction
        return [SColl([SharedLine((ring.i, r.i)), NoLine()] if (ring.i + r.i) % 2 else [NoLine(), SharedLine((ring.i, r.i))]) for r in rings]

    made = []

    class New:
        __pydv_obj__ = True

        def __init__(self, geom=None, material=None, **kw):
            self.geom, self.material = geom, material
            made.append(self)

    def union(polys):
        b = 0
        for x in polys:
            b |= x.bits
        return PSet(b)

    with patched_model(g, Geometry=New, unary_union=union, build_geometry_network=lambda ps: net, shared_paths=shared_paths,
                       line_merge=lambda x: x, MultiLineString=Paths):
        g.Polygon, g.MultiPolygon = PSet, MSet
        parts = []
        for i in range(n):
            x = type("Part", (), {"__pydv_obj__": True})()
            x.geom, x.material = PSet(Set.named("P", i).bits, ("P", i)), mat(f"of {i}")
            x.geom.exterior = DRing(i)
            parts.append(x)
        new = g.compound_dilation(parts, Set.offset, Set.resolution)
    ok = Set.possible()
    name = f"{n} regions {kind}"
    ctx.ensure(name + ": a region for each region", isinstance(new, Made) and len(new.geoms) == n)
    F = [Set.named("F", i).bits for i in range(n)]
    hull = 0
    for f in F:
        hull |= f
    for i, x in enumerate(new.geoms):
        P, B, R = Set.named("P", i).bits, Set.named("B", i).bits, x.geom.bits
        ctx.ensure(f"{name}: material of {i}", x.material is parts[i].material)
        ctx.ensure(f"{name}: {i} is one polygon", isinstance(x.geom, PSet))
        ctx.ensure(f"{name}: {i} keeps its own area", P & ~R & ok == 0)
        ctx.ensure(f"{name}: {i} adds only to its band", R & ~(P | B) & ok == 0)
        ctx.ensure(f"{name}: {i} adds nothing within the outlines", R & ~P & hull & ok == 0)
        ctx.ensure(f"{name}: {i} adds its whole band outside the outlines", B & ~hull & ~R & ok == 0)
        if kind == "multi":
            q = x.geom
            ctx.ensure(f"{name}: a piece of it", isinstance(q, Piece))
            ctx.ensure(f"{name}: pieces compared by what they have of the region", q.with_.key == ("P", i))
            a, b = _fn("overlap0"), _fn("overlap1")
            ctx.ensure(f"{name}: the piece of the region", a >= b if q.j == 0 else b >= a)


def dilation_one(ctx):
    dilation_body(ctx, 1, {0: set()}, "polygon")


def dilation_two(ctx):
    dilation_body(ctx, 2, {0: {1}, 1: {0}}, "polygon")
    dilation_body(ctx, 2, {0: set(), 1: set()}, "polygon")


def dilation_three(ctx):
    dilation_body(ctx, 3, {0: {1}, 1: {0, 2}, 2: {1}}, "polygon")
    dilation_body(ctx, 3, {0: {1, 2}, 1: {0, 2}, 2: {0, 1}}, "polygon")


def dilation_four(ctx):
    dilation_body(ctx, 4, {0: {1, 2, 3}, 1: {0}, 2: {0}, 3: {0}}, "polygon")


def dilation_pieces(ctx):
    dilation_body(ctx, 1, {0: set()}, "multi")


def shared_lines(ctx):
    """extract_shared_paths: every shared line, and several separate lines are refused."""
    g = geo()
    merged = []

    def merge(x):
        merged.append(x)
        return x

    with patched_model(g, line_merge=merge):
        a, b, c = (SharedLine((0, k)) for k in range(3))
        got = g.extract_shared_paths([SColl([a, NoLine()]), SColl([NoLine(), b]), SColl([]), SColl([c, NoLine()])])
        ctx.ensure("all lines, in order", len(got) == 3 and got[0] is a and got[1] is b and got[2] is c)
        ctx.ensure("merged", len(merged) == 3)
        try:
            g.extract_shared_paths([SColl([a, Several()])])
        except RuntimeError:
            ctx.ensure("separate lines are refused", True)
        else:
            ctx.ensure("separate lines are refused", False)


class Family:
    """A set of points of one region among any number: atoms P (the region), F (its filled outline), B (its band), H (the filled
    outlines of all regions together)."""

    __pydv_obj__ = True
    ctx, kind = None, "polygon"
    ATOMS = "PFBH"
    is_empty = False

    def __init__(self, bits, k, name=None):
        self.bits, self.k, self.name = bits, k, name

    @staticmethod
    def atom(name, k):
        return FPoly(sum(1 << a for a in range(16) if a >> "PFBH".index(name) & 1), k, name)

    def __pydv_at__(self, i):
        return Family.atom(self.name, i) if self.name else None

    def _with(self, o, bits):
        need(o.k is None or self.k is None or same_index(self.k, o.k), "a set operation between two regions")
        return bits, self.k if self.k is not None else o.k

    def __sub__(self, o):
        bits, k = self._with(o, self.bits & ~o.bits)
        return FMany(bits, k) if Family.kind == "multi" and bits & Family.atom("P", k).bits else FPoly(bits, k)

    def __or__(self, o):
        return FPoly(*self._with(o, self.bits | o.bits))

    def __and__(self, o):
        return FPoly(*self._with(o, self.bits & o.bits))

    difference, union, intersection = __sub__, __or__, __and__


def same_index(a, b):
    from pydv import terms as T

    return T.equal(a, b)


class FPoly(Family):
    def __init__(self, bits, k=None, name=None):
        if isinstance(bits, FRing):
            x = Family.atom("F", bits.k)
            bits, k, name = x.bits, x.k, x.name
        super().__init__(bits, k, name)

    @property
    def exterior(self):
        need(self.name == "P", "the outline of something else than a region")
        return FRing(self.k)


class FPiece(FPoly):
    def __init__(self, of, j):
        super().__init__(of.bits, of.k)
        self.of, self.j = of, j

    def __and__(self, o):
        self.with_ = o
        x = FPoly(self.bits & o.bits, self.k)
        x.area = _fn(f"overlap{self.j}", self.k)
        return x

    intersection = __and__


class FMany(Family):
    def __init__(self, bits, k):
        super().__init__(bits, k)
        self.geoms = [FPiece(self, j) for j in range(3)]


class FRing:
    __pydv_obj__ = True

    def __init__(self, k, without=None):
        self.k, self.without = k, without

    def __pydv_at__(self, i):
        return FRing(i)

    def __sub__(self, o):
        need(self.without is None, "paths taken out twice")
        return FRing(self.k, o)

    def buffer(self, distance, quad_segs=16, cap_style="round", join_style="round", mitre_limit=5.0, single_sided=False):
        ctx = Family.ctx
        ctx.ensure_eq("band as wide as the amount", distance, Family.offset)
        ctx.ensure_eq("arcs of the resolution", quad_segs, Family.resolution)
        ctx.ensure("band without caps", cap_style == "flat" and join_style == "round" and not single_sided)
        need(isinstance(self.without, FPaths), "a band along the outline of unknown extent")
        ctx.ensure("the band leaves out what the outline shares with its neighbours", same_index(self.without.k, self.k))
        return Family.atom("B", self.k)


class FShared:
    """What the outline of region k shares with the outlines of all its neighbours."""

    __pydv_obj__ = True

    def __init__(self, k):
        self.k = k


class FLines(FShared):
    pass


class FPaths(FShared):
    def __init__(self, lines):
        need(isinstance(lines, FLines), "other paths")
        super().__init__(lines.k)


def any_regions(ctx, kind):
    """compound_dilation on any number of regions, each with any number of neighbours.

    Callee contracts: build_geometry_network (C27), extract_shared_paths (shared_lines_any)."""
    from pydv import seqs

    g = geo()
    Family.ctx, Family.kind = ctx, kind
    Family.offset, Family.resolution = ctx.pos("offset"), ctx.real("resolution")

    class Part:
        __pydv_obj__ = True

        def __init__(self, k):
            self.k, self.geom = k, Family.atom("P", k)
            self.material = ("material", k)

        def __pydv_at__(self, i):
            return Part(i)

    parts = seqs.SymSeq("regions", Part)

    class Network:
        __pydv_obj__ = True

        def __init__(self, polys):
            need(isinstance(polys, seqs.MapSeq) and polys.seq is parts and polys.generic().name == "P", "the network of something else")
            self.nodes = seqs.SymSeq("nodes")
            i = self.nodes.bound
            idx = next(iter(i.d))[0][0]
            self.near = seqs.SymSeq("near", lambda b: _fn("neighbour", i, b), outer_deps={idx}, outer=(i,))
            self.nodes._elem = (i, self.near)

        def items(self):
            return self.nodes

    made = []

    def network(polys):
        made.append(Network(polys))
        return made[-1]

    def shared_paths(ring, rings):
        near = made[-1].near
        need(isinstance(rings, seqs.MapSeq) and rings.seq is near, "paths shared with something else than the neighbours")
        x = rings.generic()
        ctx.ensure("every neighbour's outline", isinstance(x, FRing) and x.without is None and same_index(x.k, near.generic()))
        ctx.ensure("the region's outline", isinstance(ring, FRing) and same_index(ring.k, made[-1].nodes.bound))
        return FShared(ring.k)

    def extract(x):
        need(isinstance(x, FShared), "other paths")
        return FLines(x.k)

    def union(polys):
        need(isinstance(polys, seqs.MapSeq) and polys.seq is parts, "the union of something else")
        x = polys.generic()
        need(isinstance(x, Family) and x.name in ("F", "P"), "the union of other sets")
        ctx.ensure("the filled outlines of all regions", x.name == "F" and same_index(x.k, parts.bound))
        return FPoly(Family.atom("H", None).bits, None, None)

    class New:
        __pydv_obj__ = True

        def __init__(self, geom=None, material=None, **kw):
            self.geom, self.material, self.kw = geom, material, kw

    with patched_model(g, Geometry=New, unary_union=union, build_geometry_network=network, shared_paths=shared_paths,
                       line_merge=lambda x: x, MultiLineString=FPaths, extract_shared_paths=extract):
        g.Polygon, g.MultiPolygon = FPoly, FMany
        new = g.compound_dilation(parts, Family.offset, Family.resolution)
    need(isinstance(new, Made) and hasattr(new.geoms, "all_chunks"), "the result is no compound of a list")
    chunks = new.geoms.all_chunks()
    nodes = made[-1].nodes
    name = "any number of regions, " + kind
    ctx.ensure(name + ": a region for each", len(chunks) == 1 and chunks[0][1] is nodes)
    kind_, _, payload = chunks[0]
    cases = [(True, payload)] if kind_ == "loop" else payload
    need(kind_ in ("loop", "cases"), "the result has another form")
    ok = sum(1 << a for a in range(16) if (not a & 1 or a & 2) and (not a & 2 or a & 8))  # P within F within H
    P, B, H = (Family.atom(c, None).bits for c in "PBH")
    for cond, items in cases:
        ctx.ensure(name + ": one for each", len(items) == 1)
        x = items[0]
        R = x.geom.bits
        ctx.ensure(name + ": in order", x.geom.k is not None and same_index(x.geom.k, nodes.bound))
        ctx.ensure(name + ": material", x.material[0] == "material" and same_index(x.material[1], nodes.bound))
        ctx.ensure(name + ": one polygon", isinstance(x.geom, FPoly))
        ctx.ensure(name + ": keeps its own area", P & ~R & ok == 0)
        ctx.ensure(name + ": adds only to its band", R & ~(P | B) & ok == 0)
        ctx.ensure(name + ": adds nothing within the outlines", R & ~P & H & ok == 0)
        ctx.ensure(name + ": adds its whole band outside the outlines", B & ~H & ~R & ok == 0)


def dilation_any(ctx):
    any_regions(ctx, "polygon")


def shared_lines_any(ctx):
    """extract_shared_paths on any number of collections: every line that is not empty, once."""
    from pydv import seqs, terms as T

    g = geo()

    class Line(SLine):
        def __init__(self, k, j):
            self.k, self.j = k, j
            self.is_empty = _fn(f"empty{j}", k) > 0

    lines = {}
    coll = seqs.SymSeq("collections", lambda k: SColl([lines.setdefault(j, Line(k, j)) for j in (0, 1)]))
    with patched_model(g, line_merge=lambda x: x):
        got = g.extract_shared_paths(coll)
    need(hasattr(got, "all_chunks"), "no list")
    chunks = got.all_chunks()
    need(len(chunks) == 1 and chunks[0][0] in ("loop", "cases"), "another form")
    ctx.ensure("over every collection", chunks[0][1] is coll)
    for j in (0, 1):
        count = T.coerce(0)
        for cond, items in chunks[0][2] if chunks[0][0] == "cases" else [(True, chunks[0][2])]:
            n = sum(x is lines[j] for x in items)
            count = count + n * (T.coerce(1) if cond is True else T.indicator(cond))
        ctx.ensure_eq(f"line {j} once unless empty", count, T.indicator(T.coerce(_fn(f"empty{j}", coll.bound)) <= 0))


SYMBOLIC = [dilation_any, shared_lines_any, dilation_one, dilation_two, dilation_three, dilation_four, dilation_pieces, shared_lines, exterior, exterior_control_point, exterior_any_holes, interior, interior_control_point, interior_any_holes, everywhere,
            everywhere_control_point, refused, defaults, buffered, erosion, dilation_call, no_offset]
RUNTIME = [("offsets", rtoffset.simple, 250, 3000), ("compound offsets", rtoffset.compound, 200, 2500),
           ("compound options", rtoffset.options, 4, 8),
           ("row", rtoffset.row, 60, 600)]
