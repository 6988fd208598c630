"""C21: splitting."""
from . import rtgeom
from .seccommon import _fn


def bisect():
    import sectionproperties.pre.bisect_section as b

    return b


class Line:
    """A line string: its end points."""

    __pydv_obj__ = True

    def __init__(self, coords):
        self.coords = [tuple(c) for c in coords]


class Poly:
    """A polygon known by an interior point."""

    __pydv_obj__ = True

    def __init__(self, k):
        self.k = k
        self.r = (_fn("rx", k), _fn("ry", k))

    def representative_point(self):
        r = self.r

        class P:
            __pydv_obj__ = True
            coords = [r]
            x, y = r

        return P()


class patched:
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k, patched) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is patched:  # a builtin
                delattr(self.mod, k)
            else:
                setattr(self.mod, k, v)


def line_segment(ctx):
    """The segment lies on the line and spans the bounding box of the geometry."""
    b = bisect()
    p = (ctx.real("px"), ctx.real("py"))
    v = (ctx.real("vx"), ctx.real("vy"))
    ctx.assume(v[0] * v[0] + v[1] * v[1] > 0)
    x0, w, y0, h = ctx.real("x0"), ctx.pos("w"), ctx.real("y0"), ctx.pos("h")
    with patched(b, LineString=Line):
        seg = b.create_line_segment(point_on_line=p, vector=v, bounds=(x0, x0 + w, y0, y0 + h))
    (ax, ay), (bx, by) = seg.coords
    ctx.ensure_eq("start on the line", (ax - p[0]) * v[1], (ay - p[1]) * v[0])
    ctx.ensure_eq("end on the line", (bx - p[0]) * v[1], (by - p[1]) * v[0])
    t = ctx.real("t")  # any point of the line in the box is on the segment
    q = (p[0] + t * v[0], p[1] + t * v[1])
    for n, lo, hi, c in (("x", x0, x0 + w, q[0]), ("y", y0, y0 + h, q[1])):
        ctx.assume(lo <= c)
        ctx.assume(c <= hi)
    steep = not bool(abs(v[0]) > frac12() * abs(v[1]))
    a, e, m = (ay, by, q[1]) if steep else (ax, bx, q[0])
    ctx.ensure("spans the box from", a <= m)
    ctx.ensure("spans the box to", m <= e)
    ctx.ensure("from left to right, or upwards", a < e)


def frac12():
    from pydv import terms as T

    return T.coerce(T.F("1e-12"))


def slope(ctx):
    """line_mx_plus_b: both end points satisfy y = m x + b; vertical lines have none."""
    b = bisect()
    l = Line([(ctx.real("ax"), ctx.real("ay")), (ctx.real("bx"), ctx.real("by"))])
    (ax, ay), (bx, by) = l.coords
    m, c = b.line_mx_plus_b(l)
    if c is None:
        ctx.ensure_eq("vertical", ax, bx)
    else:
        ctx.ensure_eq("start", m * ax + c, ay)
        ctx.ensure_eq("end", m * bx + c, by)


def per_item(lst, seq):
    """What a generic item of `seq` adds to the list: [(condition, entries)]."""
    from pydv import seqs

    from .c25 import need

    if isinstance(lst, seqs.MapSeq):
        got = [(c, [v]) for c, v in lst.cases]
        base = lst.seq
    elif lst is seq:
        return [(True, [seq.generic()])]
    else:
        need(hasattr(lst, "all_chunks"), "list kept another way")
        ch = lst.all_chunks()
        need(len(ch) == 1 and ch[0][0] in ("loop", "cases"), "list not filled by one loop")
        got = ch[0][2] if ch[0][0] == "cases" else [(True, ch[0][2])]
        base = ch[0][1]
    need(base.name == seq.name, "list filled from another sequence")
    return got


def groups(ctx, vertical):
    """Any number of polygons: each goes to the side of its interior point."""
    from pydv import seqs
    from pydv import terms as T

    b = bisect()
    ax, ay = ctx.real("ax"), ctx.real("ay")
    dx, dy = (T.coerce(0), ctx.pos("dy")) if vertical else (ctx.pos("dx"), ctx.real("dy"))
    l = Line([(ax, ay), (ax + dx, ay + dy)])

    class C:
        __pydv_obj__ = True
        geoms = seqs.SymSeq("poly", Poly)

    with patched(b, Polygon=Poly):
        top, bot = b.group_top_and_bottom_polys(C, l)
    k = C.geoms.bound
    r = (_fn("rx", k), _fn("ry", k))
    # positive: above the line, or right of a vertical one
    s = (r[0] - ax) if vertical else dx * (r[1] - ay) - dy * (r[0] - ax)
    for name, lst, sg in (("top", top, 1), ("bottom", bot, -1)):
        inn = None
        for cond, items in per_item(lst, C.geoms):
            ctx.ensure(name + " gets the polygon itself, once", len(items) == 1 and items[0] is C.geoms.generic())
            inn = cond if inn is None else T.disj(inn, cond)
        if inn is None or inn is True:
            ctx.ensure(name + " takes its side only", False)
            continue
        ctx.ensure(name + " only from its side", T.disj(inn.negate(), sg * s > 0))
        ctx.ensure(name + " all of its side", T.disj((sg * s > 0).negate(), inn))


def groups_sloped(ctx):
    groups(ctx, False)


def groups_vertical(ctx):
    groups(ctx, True)


def not_polygons(ctx):
    """Anything but polygons is an error, not lost area."""
    b = bisect()

    class Other:
        pass

    class C:
        geoms = [Other()]

    with patched(b, Polygon=Poly):
        try:
            b.group_top_and_bottom_polys(C, Line([(0, 0), (1, 1)]))
        except RuntimeError:
            ctx.ensure("raises", True)
            return
    ctx.ensure("raises", False)


class Shape:
    """A region known by its bounds."""

    __pydv_obj__ = True

    def __init__(self, tag=""):
        x0, y0 = _fn("bx0" + tag), _fn("by0" + tag)
        self.bounds = (x0, y0, x0 + _fn("bw" + tag, positive=True), y0 + _fn("bh" + tag, positive=True))


class Piece:
    """Records the arguments of the constructor of a region."""

    __pydv_obj__ = True

    def __init__(self, geom, material="default", control_points=None, tol=12):
        self.geom, self.material = geom, material


def region(g, tag=""):
    x = object.__new__(g.Geometry)
    x.geom, x.material, x.tol = Shape(tag), f"material{tag}", 12
    x.assigned_control_point = None
    return x


def flow(ctx, form):
    """Geometry.split_section: the line asked for, the whole region, every piece with its material."""
    from pydv import seqs
    import sectionproperties.pre.geometry as g
    from pydv import terms as T

    x = region(g)
    log = {}
    p, v, q = (ctx.real("px"), ctx.real("py")), (ctx.real("vx"), ctx.real("vy")), (ctx.real("qx"), ctx.real("qy"))

    def create_line_segment(point_on_line, vector, bounds):
        log["line"] = (point_on_line, vector, bounds)
        return "segment"

    def split(geom, line):
        log["split"] = (geom, line)
        return "pieces"

    tops, bots = seqs.SymSeq("topp", Poly), seqs.SymSeq("botp", Poly)

    def group(polys, line):
        log["group"] = (polys, line)
        return tops, bots

    class B:
        __pydv_obj__ = True

    B.create_line_segment, B.group_top_and_bottom_polys = create_line_segment, group
    split_real = g.Geometry.split_section
    with patched(g, bisect=B, split=split, Geometry=Piece):
        kw = {"point_j": q} if form == "points" else {"vector": v} if form == "vector" else {"point_j": q, "vector": None}
        top, bot = split_real(x, point_i=p, **kw)
    pt, vec, bounds = log["line"]
    w = v if form == "vector" else (q[0] - p[0], q[1] - p[1])
    for i in range(2):
        ctx.ensure_eq(f"through {i}", pt[i], p[i])
        ctx.ensure_eq(f"direction {i}", vec[i], w[i])
    x0, y0, x1, y1 = x.geom.bounds
    for i, c in enumerate((x0, x1, y0, y1)):
        ctx.ensure("extents", any(T.equal(c, o) for o in bounds))
    ctx.ensure("whole region split", log["split"] == (x.geom, "segment") and log["group"] == ("pieces", "segment"))
    for name, got, src in (("first", top, tops), ("second", bot, bots)):
        each = per_item(got, src)
        ctx.ensure(name + " every piece", len(each) == 1 and each[0][0] is True and len(each[0][1]) == 1)
        e = each[0][1][0]
        ctx.ensure(name + " the piece itself", e.geom is src.generic())
        ctx.ensure(name + " material", e.material == x.material)


def flow_points(ctx):
    flow(ctx, "points")


def flow_vector(ctx):
    flow(ctx, "vector")


def flow_no_direction(ctx):
    import sectionproperties.pre.geometry as g

    try:
        region(g).split_section(point_i=(ctx.real("px"), ctx.real("py")))
    except ValueError:
        ctx.ensure("raises", True)
        return
    ctx.ensure("raises", False)


def compound(ctx):
    """CompoundGeometry.split_section: every region's pieces, about the same line, in order."""
    import sectionproperties.pre.geometry as g

    p, v, q = (ctx.real("px"), ctx.real("py")), (ctx.real("vx"), ctx.real("vy")), (ctx.real("qx"), ctx.real("qy"))
    for n in (1, 2, 4):
        for kw in ({"vector": v}, {"point_j": q}):
            calls = []

            class R:
                def __init__(self, k):
                    self.k = k

                def split_section(self, point_i, point_j=None, vector=None):
                    calls.append((self.k, point_i, point_j, vector))
                    return [(self.k, "t", i) for i in range(self.k % 3)], [(self.k, "b", i) for i in range((self.k + 1) % 3)]

            c = object.__new__(g.CompoundGeometry)
            c.geoms = [R(k) for k in range(n)]
            top, bot = c.split_section(point_i=p, **kw)
            ctx.ensure("every region, about the line", [a[0] for a in calls] == list(range(n)) and all(
                a[1] is p and a[2] is kw.get("point_j") and a[3] is kw.get("vector") for a in calls))
            ctx.ensure("first groups", list(top) == [(k, "t", i) for k in range(n) for i in range(k % 3)])
            ctx.ensure("second groups", list(bot) == [(k, "b", i) for k in range(n) for i in range((k + 1) % 3)])


SYMBOLIC = [line_segment, slope, groups_sloped, groups_vertical, not_polygons, flow_points, flow_vector, flow_no_direction,
            compound]
RUNTIME = [("split_known", rtgeom.split_known, 1, 1), ("split", rtgeom.split, 300, 3000), ("split_args", rtgeom.split_args, 4, 20)]
