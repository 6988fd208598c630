"""Run-time contracts of the geometry operations (bounded: random geometries)."""
from __future__ import annotations

import copy
import dataclasses
import math

import numpy as np
from shapely import LineString, MultiPolygon, Point, Polygon, affinity, make_valid
from shapely.ops import unary_union

from rt import gen


def geoms(g):
    return list(g.geoms) if hasattr(g, "geoms") else [g]


def library(rng):
    from sectionproperties.pre import library as lib

    m = gen.material(rng) if rng.random() < 0.5 else None
    kw = {"material": m} if m is not None else {}
    return rng.choice([
        lambda: lib.i_section(d=5, b=3, t_f=0.5, t_w=0.3, r=0.4, n_r=4, **kw),
        lambda: lib.channel_section(d=5, b=3, t_f=0.5, t_w=0.3, r=0.4, n_r=4, **kw),
        lambda: lib.rectangular_hollow_section(d=5, b=3, t=0.4, r_out=0.8, n_r=4, **kw),
        lambda: lib.circular_hollow_section(d=4, t=0.5, n=12, **kw),
        lambda: lib.zed_section(d=5, b_l=2, b_r=1.5, l=0.5, t=0.2, r_out=0.5, n_r=4, **kw),
        lambda: lib.concrete_rectangular_section(d=6, b=4, dia_top=0.5, area_top=0.2, n_top=2, c_top=0.5, dia_bot=0.5,
                                                 area_bot=0.2, n_bot=3, c_bot=0.5, n_circle=6),
    ])()


def any_geometry(rng, kind=None):
    """A random geometry, sometimes in other units (metres, millimetres)."""
    g = one_geometry(rng, kind)
    return resized(g, rng.choice([1e-3, 1e-2, 100.0])) if rng.random() < 0.12 else g


def resized(a, s):
    g, _ = gen.mods()
    if min(x.tol for x in geoms(a)) < 12:
        return a
    one = [g.Geometry(affinity.scale(x.geom, s, s, origin=(0, 0)), x.material, tol=x.tol) for x in geoms(a)]
    return g.CompoundGeometry(one) if hasattr(a, "geoms") else one[0]


def one_geometry(rng, kind=None):
    r = rng.random()
    if kind == "single" or (kind is None and r < 0.45):
        g, p = gen.mods()
        if rng.random() < 0.2:
            x = library(rng)
            if len(geoms(x)) == 1:
                return x
        return gen.single(rng, gen.material(rng) if rng.random() < 0.5 else None)
    if kind is None and r < 0.55:
        return library(rng)
    if kind is None and r < 0.65:
        return disjoint(rng)
    return gen.compound(rng, rng.choice(["random", "random", "default", "same"]))


def disjoint(rng):
    g, p = gen.mods()
    a = gen.rect(rng.uniform(1, 3), rng.uniform(1, 3))
    b = affinity.translate(gen.polygon(rng), rng.uniform(6, 9), rng.uniform(-2, 9))
    b = b if b.disjoint(a) else affinity.translate(b, 12, 0)
    return g.CompoundGeometry([g.Geometry(a, gen.material(rng, 0)), g.Geometry(b, gen.material(rng, 1))])


def freeze(g):
    """Everything observable of a geometry."""
    gs = geoms(g)
    return {
        "type": type(g).__name__, "geom": g.geom.wkb, "regions": [x.geom.wkb for x in gs],
        "materials": [dataclasses.astuple(x.material) for x in gs], "tol": [x.tol for x in gs],
        "assigned": [None if x.assigned_control_point is None else x.assigned_control_point.wkb for x in gs],
        "points": list(g.points), "facets": list(g.facets), "holes": list(g.holes), "control_points": list(g.control_points),
        "mesh": None if g.mesh is None else np.array(g.mesh["vertices"]).tobytes(), "n": len(gs),
    }


def unchanged(case, name, before, g):
    after = freeze(g)
    for k in before:
        case.ensure(f"{name} keeps its {k}", before[k] == after[k])


def size(g):
    x0, y0, x1, y1 = g.geom.bounds
    return max(x1 - x0, y1 - y0)


def far(g):
    return max(size(g), *(abs(v) for v in g.geom.bounds))


# ---------------------------------------------------------------------------- C21
def random_line(rng, g):
    """(point, direction) of a line: generic, through vertices, along edges, axis-parallel, missing, near-vertical."""
    x0, y0, x1, y1 = g.geom.bounds
    pts = g.points
    k = rng.randrange(8)
    p = (rng.uniform(x0, x1), rng.uniform(y0, y1))
    a = rng.uniform(0, 2 * math.pi)
    v = (math.cos(a), math.sin(a))
    if k == 1:
        p = rng.choice(pts)
    elif k == 2:
        p, q = rng.sample(pts, 2)
        v = (q[0] - p[0], q[1] - p[1])
    elif k == 3:
        f = rng.choice(g.facets)
        p, q = pts[f[0]], pts[f[1]]
        v = (q[0] - p[0], q[1] - p[1])
    elif k == 4:
        v = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (0.0, 2.5), (-3.0, 0.0)])
        if rng.random() < 0.5:
            p = rng.choice(pts)
    elif k == 5:
        d = 3 * max(x1 - x0, y1 - y0) + 1
        n = (-v[1], v[0])
        c = ((x0 + x1) / 2, (y0 + y1) / 2)
        p = (c[0] + d * n[0], c[1] + d * n[1])
    elif k == 6:
        v = (rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -3), rng.choice([1.0, -1.0]))
    else:
        s = 10.0 ** rng.uniform(-15, 6)
        v = (v[0] * s, v[1] * s)
    return p, v


def signed(coords, p, v):
    n = math.hypot(*v)
    c = np.asarray(coords, float)
    return (v[0] * (c[:, 1] - p[1]) - v[1] * (c[:, 0] - p[0])) / n


def rings(q):
    return np.concatenate([np.array(r.coords) for r in [q.exterior, *q.interiors]])


def along_edge(g, p, v, L):
    """Does the line run along an edge of a region, within rounding?"""
    for x in geoms(g):
        for r in [x.geom.exterior, *x.geom.interiors]:
            d = np.abs(signed(r.coords, p, v)) < 1e-9 * L
            if np.any(d[1:] & d[:-1]):
                return True
    return False


def shapely_splits(g, p, v, L):
    """Does shapely.ops.split itself partition every region by this line?"""
    from shapely.ops import split as ssplit

    n = math.hypot(*v)
    R = 100 * L + 10 * math.hypot(*p)
    seg = LineString([(p[0] - R * v[0] / n, p[1] - R * v[1] / n), (p[0] + R * v[0] / n, p[1] + R * v[1] / n)])
    import sectionproperties.pre.bisect_section as bs

    for x in geoms(g):
        for s in (seg, bs.create_line_segment(p, np.array(v), x.calculate_extents())):
            parts = list(ssplit(x.geom, s).geoms)
            if abs(sum(q.area for q in parts) - x.geom.area) > 1e-9 * L * L:
                return False
            for q in parts:
                d = signed(rings(q), p, v)
                if q.area > 1e-9 * L * L and min(d.max(), -d.min()) > 1e-8 * L:
                    return False
    return True


KNOWN_ZED = [(-17.878976298808, -18.392693708839), (-14.524943845659, -16.456242169143), (-14.907871605465, -15.79299183353),
             (-17.598653723001, -17.34651561342), (-19.897480775801, -13.364830360156), (-23.251513228949, -15.301281899852),
             (-22.868585469143, -15.964532235465), (-20.177803351608, -14.411008455576)]


def split_known(case):
    """The recorded finding: a rotated zed section cut along its web."""
    g, _ = gen.mods()
    x = g.Geometry(Polygon(KNOWN_ZED))
    p, v = KNOWN_ZED[3], (KNOWN_ZED[4][0] - KNOWN_ZED[3][0], KNOWN_ZED[4][1] - KNOWN_ZED[3][1])
    top, bot = x.split_section(point_i=p, vector=v)
    if abs(sum(q.geom.area for q in top + bot) - x.geom.area) > 1e-6:
        case.finding("C21-edge", "line along an edge", "area lost")


def split(case):
    rng = case.rng
    g = any_geometry(rng)
    case.info["geometry"] = gen.describe(g)
    p, v = random_line(rng, g)
    case.info["line"] = [p, v]
    before = freeze(g)
    form = rng.randrange(3)
    if form == 0:
        q = (p[0] + v[0], p[1] + v[1])
        v = (q[0] - p[0], q[1] - p[1])
        if not any(v):
            return
        top, bot = g.split_section(point_i=p, point_j=q)
    elif form == 1:
        top, bot = g.split_section(point_i=p, vector=v)
    else:
        top, bot = g.split_section(point_i=p, vector=np.array(v))
    unchanged(case, "original", before, g)
    L = far(g)
    tol = 1e-9 * L * L
    if along_edge(g, p, v, L) and not shapely_splits(g, p, v, L):
        case.finding("C21-edge", "line along an edge", "shapely.ops.split does not partition the region")
        return
    # side: above the line; right of a vertical one
    w = v if v[0] > 0 else (-v[0], -v[1])
    vertical = abs(v[0]) <= 1e-12 * abs(v[1])
    if vertical:
        w = (0.0, -1.0)
    for name, part, sgn in (("first", top, 1), ("second", bot, -1)):
        for x in part:
            d = signed(rings(x.geom), p, w) * sgn
            # slivers thinner than rounding have no side
            if x.geom.area < 1e-9 * L * L:
                continue
            case.ensure(f"{name} group on its side", d.min() > -1e-8 * L, f"{-d.min()} beyond the line")
    pieces = [x.geom for x in top + bot]
    case.ensure("regions", all(isinstance(q, Polygon) for q in pieces))
    # (a cut along an edge may leave self-contacts below the rounding of the vertices)
    pieces = [make_valid(q) for q in pieces]
    case.ensure_eq("area kept", sum(q.area for q in pieces), sum(x.geom.area for x in geoms(g)), scale=L * L)
    for i, a in enumerate(pieces):
        for b in pieces[:i]:
            case.ensure("no overlap", a.intersection(b).area <= tol, f"overlap of {a.intersection(b).area}")
    for x in geoms(g):
        mine = [q for q in top + bot if q.material == x.material]
        u = unary_union([make_valid(q.geom) for q in mine])
        same = unary_union([y.geom for y in geoms(g) if y.material == x.material])
        case.ensure("covers the regions of each material", u.symmetric_difference(same).area <= tol)
    # the parts of the region on each side, independently: clip with a half-plane
    R = 50 * L + 10 * math.hypot(*p)
    n = math.hypot(*w)
    e, m = (w[0] / n, w[1] / n), (-w[1] / n, w[0] / n)
    if all(abs(t) < 1e3 * L for t in p):
        half = Polygon([(p[0] + R * s * e[0] + R * t * m[0], p[1] + R * s * e[1] + R * t * m[1])
                        for s, t in ((-1, 0), (1, 0), (1, 1), (-1, 1))])
        want = sum(x.geom.intersection(half).area for x in geoms(g))
        case.ensure_eq("area of the first group", sum(x.geom.area for x in top), want, scale=L * L, rtol=1e-7)


def split_args(case):
    g = any_geometry(case.rng)
    try:
        g.split_section(point_i=(0.0, 0.0))
    except ValueError:
        case.checks += 1
        return
    case.fail("no direction", "no ValueError without a second point or a vector")


# ---------------------------------------------------------------------------- C22
def with_control_points(rng, g):
    """The same geometry with some control points assigned by hand, and some coarser tolerances."""
    from sectionproperties.pre.geometry import CompoundGeometry, Geometry

    out = []
    for x in geoms(g):
        cp = None
        if rng.random() < 0.5:
            for _ in range(50):
                x0, y0, x1, y1 = x.geom.bounds
                q = (rng.uniform(x0, x1), rng.uniform(y0, y1))
                if x.geom.contains(Point(q)):
                    cp = q
                    break
        tol = x.tol if rng.random() < 0.7 else rng.choice([4, 6, 10, 12])
        out.append(Geometry(x.geom, x.material, control_points=cp, tol=tol))
    if len(out) == 1 and not hasattr(g, "geoms"):
        return out[0]
    return CompoundGeometry(out)


def close_polys(case, name, got, want, eps, tol):
    case.ensure(name, got.geom_type == want.geom_type and got.hausdorff_distance(want) <= eps
                and abs(got.area - want.area) <= eps * (1 + want.length) * 4 and len(got.interiors) == len(want.interiors),
                f"{got.wkt[:200]} want {want.wkt[:200]}")


def moved_as(case, name, g, new, f, slack=0.0):
    """new is g with every point moved by the map f (of an (n, 2) array)."""
    case.ensure(name + " type", type(new) is type(g))
    a, b = geoms(g), geoms(new)
    case.ensure(name + " regions", len(a) == len(b))
    L = max(far(g), far(new), 1.0)
    for x, y in zip(a, b):
        eps = 3 * 10.0 ** (-x.tol) + 1e-11 * L + slack
        want = Polygon(f(np.array(x.geom.exterior.coords)), [f(np.array(r.coords)) for r in x.geom.interiors])
        close_polys(case, name + " region", y.geom, want, eps, x.tol)
        case.ensure(name + " material", y.material == x.material)
        case.ensure(name + " tolerance", y.tol == x.tol)
        if x.assigned_control_point is None:
            case.ensure(name + " control point not assigned", y.assigned_control_point is None)
        else:
            q = f(np.array(x.assigned_control_point.coords))[0]
            case.ensure_eq(name + " control point", np.array(y.control_points[0]), q, scale=L, rtol=1e-9 + slack / L)
        case.ensure(name + " control point inside", y.geom.buffer(eps).contains(Point(y.control_points[0])))
    if hasattr(new, "geoms"):
        case.ensure(name + " control points", list(new.control_points) == [c for y in b for c in y.control_points])


def rotation(deg, c):
    t = math.radians(deg)
    R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    return lambda v: (v - c) @ R.T + c


def bbox_centre(g):
    x0, y0, x1, y1 = unary_union([x.geom for x in geoms(g)]).bounds
    return np.array([(x0 + x1) / 2, (y0 + y1) / 2])


def transforms(case):
    rng = case.rng
    g = with_control_points(rng, any_geometry(rng))
    case.info["geometry"] = gen.describe(g)
    before = freeze(g)
    for _ in range(2):
        kind = rng.choice(["shift", "rotate", "mirror"])
        if kind == "shift":
            dx, dy = rng.choice([(rng.uniform(-30, 30), rng.uniform(-30, 30)), (rng.uniform(-3, 3), 0.0), (0.0, 1e3)])
            case.info["call"] = ["shift", dx, dy]
            new = g.shift_section(dx, dy) if rng.random() < 0.5 else g.shift_section(x_offset=dx, y_offset=dy)
            moved_as(case, "shift", g, new, lambda v: v + [dx, dy])
            moved_as(case, "shift back", g, new.shift_section(-dx, -dy), lambda v: v)
        elif kind == "rotate":
            a = rng.choice([90, -90, 180, 360, 30, rng.uniform(-400, 400)])
            c = None if rng.random() < 0.4 else (rng.uniform(-20, 20), rng.uniform(-20, 20))
            rad = rng.random() < 0.4
            case.info["call"] = ["rotate", a, c, rad]
            kw = {} if c is None else {"rot_point": c}
            if rad:
                kw["use_radians"] = True
            o = bbox_centre(g) if c is None else np.array(c)
            new = g.rotate_section(angle=math.radians(a) if rad else a, **kw)
            moved_as(case, "rotate", g, new, rotation(a, o))
            kw["rot_point"] = tuple(o)
            moved_as(case, "rotate back", g, new.rotate_section(angle=-math.radians(a) if rad else -a, **kw), lambda v: v)
        else:
            axis = rng.choice(["x", "y"])
            c = None if rng.random() < 0.4 else (rng.uniform(-20, 20), rng.uniform(-20, 20))
            case.info["call"] = ["mirror", axis, c]
            kw = {"axis": axis} if c is None else {"axis": axis, "mirror_point": c}
            o = bbox_centre(g) if c is None else np.array(c)
            s = np.array([1.0, -1.0]) if axis == "x" else np.array([-1.0, 1.0])
            new = g.mirror_section(**kw)
            moved_as(case, "mirror", g, new, lambda v: (v - o) * s + o)
            moved_as(case, "mirror twice", g, new.mirror_section(axis=axis, mirror_point=tuple(o)), lambda v: v)
        unchanged(case, "original", before, g)


# ---------------------------------------------------------------------------- C23
def translated(case, name, g, new):
    """new is g shifted; returns the offset."""
    a, b = geoms(g), geoms(new)
    case.ensure(name + " regions", len(a) == len(b))
    k = max(range(len(a)), key=lambda i: a[i].tol)
    # the offset, read off the region of the finest tolerance
    v = np.array(b[k].geom.exterior.coords[0]) - np.array(a[k].geom.exterior.coords[0])
    moved_as(case, name, g, new, lambda q: q + v, slack=2 * 10.0 ** -a[k].tol)
    return v


def align(case):
    rng = case.rng
    g = with_control_points(rng, any_geometry(rng))
    side = rng.choice(["left", "right", "bottom", "top"])
    inner = rng.random() < 0.5
    o = any_geometry(rng) if rng.random() < 0.6 else (rng.uniform(-30, 30), rng.uniform(-30, 30))
    if isinstance(o, tuple):
        box = (o[0], o[1], o[0], o[1])
    else:
        box = unary_union([x.geom for x in geoms(o)]).bounds
        ob = freeze(o)
    before = freeze(g)
    case.info["call"] = [side, inner, "point" if isinstance(o, tuple) else "geometry"]
    new = g.align_to(o, side, inner) if rng.random() < 0.5 else g.align_to(other=o, on=side, inner=inner)
    k = {"left": 0, "right": 2, "bottom": 1, "top": 3}
    opp = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}
    nb = unary_union([x.geom for x in geoms(new)]).bounds
    L = max(far(g), far(new))
    tol = 3 * 10.0 ** -min(x.tol for x in geoms(g)) + 1e-11 * L
    case.ensure_eq("edge on the target", nb[k[side if inner else opp[side]]], box[k[side]], scale=1.0, rtol=tol)
    v = translated(case, "aligned", g, new)
    case.ensure_eq("not moved across", v[1 if side in ("left", "right") else 0], 0.0, scale=1.0, rtol=tol)
    unchanged(case, "original", before, g)
    if not isinstance(o, tuple):
        unchanged(case, "target", ob, o)


def centroid_of(g):
    gs = geoms(g)
    if not hasattr(g, "geoms"):
        return np.array(g.geom.centroid.coords[0])
    w = np.array([x.geom.area * x.material.elastic_modulus for x in gs])
    return (w[:, None] * np.array([x.geom.centroid.coords[0] for x in gs])).sum(axis=0) / w.sum()


def center(case):
    rng = case.rng
    g = with_control_points(rng, any_geometry(rng))
    k = rng.randrange(3)
    before = freeze(g)
    if k == 0:
        t, new = np.zeros(2), g.align_center()
    elif k == 1:
        o = any_geometry(rng)
        u = unary_union([x.geom for x in geoms(o)])
        t, new = np.array(u.centroid.coords[0]), g.align_center(o)
    else:
        t = np.array([rng.uniform(-30, 30), rng.uniform(-30, 30)])
        new = g.align_center(align_to=tuple(t))
    tol = 4 * 10.0 ** -min(x.tol for x in geoms(g)) + 1e-10 * max(far(g), far(new))
    case.ensure_eq("centroid on the target", centroid_of(new), t, scale=1.0, rtol=tol)
    translated(case, "centred", g, new)
    unchanged(case, "original", before, g)
    try:
        g.align_center(align_to=rng.choice([3.0, (1.0, 2.0, 3.0), "x"]))
    except ValueError:
        case.checks += 1
    else:
        case.fail("invalid target", "no ValueError")


# ---------------------------------------------------------------------------- C24
def keyed(rng):
    """Two plates that share an edge and overlap in one or two teeth: their intersection is of mixed dimension."""
    g, _ = gen.mods()
    w, h, e = rng.uniform(1, 5), rng.uniform(3, 9), rng.uniform(1, 4)
    b = Polygon([(w, 0), (w + e, 0), (w + e, h), (w, h)])
    for i in range(rng.randrange(1, 3)):
        y, d = h * (0.1 + 0.45 * i), rng.choice([0.5, 0.1]) * w
        b = b | Polygon([(w - d, y), (w, y), (w, y + 0.3 * h), (w - d, y + 0.3 * h)])
    a = g.Geometry(Polygon([(0, 0), (w, 0), (w, h), (0, h)]), gen.material(rng))
    b = g.Geometry(b, gen.material(rng))
    if rng.random() < 0.5:
        a, b = b, a
    s = rng.choice([1.0, 1.0, 1e-3, 1e-4])
    return resized(a, s), resized(b, s)


def crossing(rng):
    """Two geometries that usually overlap."""
    if rng.random() < 0.1:
        return keyed(rng)
    a, b = any_geometry(rng), any_geometry(rng)
    k = rng.random()
    if k < 0.6:
        x0, y0, x1, y1 = unary_union([x.geom for x in geoms(a)]).bounds
        u0, v0, u1, v1 = unary_union([x.geom for x in geoms(b)]).bounds
        b = b.shift_section(rng.uniform(x0, x1) - (u0 + u1) / 2, rng.uniform(y0, y1) - (v0 + v1) / 2)
    elif k < 0.75:
        b = b.align_to(a, rng.choice(["left", "right", "top", "bottom"]), rng.random() < 0.5)
    elif k < 0.8:
        b = a.shift_section(0.0, 0.0)
    return a, b


def is_simple(g):
    return not hasattr(g, "geoms")


def booleans(case):
    import operator

    rng = case.rng
    a, b = crossing(rng)
    a = with_control_points(rng, a)
    case.info["a"], case.info["b"] = gen.describe(a), gen.describe(b)
    fa, fb = freeze(a), freeze(b)
    ga, gb = unary_union([x.geom for x in geoms(a)]), unary_union([x.geom for x in geoms(b)])
    L = max(far(a), far(b))
    eps = 1e-9 * L * L + 4 * L * max(10.0 ** -x.tol for x in geoms(a))
    S = max(ga.area, gb.area)
    op = rng.choice(["or", "and", "xor", "sub", "add", "sub"])
    if (ga & gb).geom_type == "GeometryCollection" and rng.random() < 0.6:
        op = "and"
    case.info["op"] = op
    want = {"or": ga | gb, "and": ga & gb, "xor": ga ^ gb, "sub": ga - gb, "add": ga | gb}[op]
    f = {"or": operator.or_, "and": operator.and_, "xor": operator.xor, "sub": operator.sub, "add": operator.add}[op]
    new = f(a, b)
    unchanged(case, op + " left", fa, a)
    unchanged(case, op + " right", fb, b)
    parts = geoms(new)
    if op == "add":
        case.ensure("all regions", len(parts) == len(geoms(a)) + len(geoms(b)))
        for x, y in zip(parts, geoms(a) + geoms(b)):
            case.ensure("added region", x.geom.equals(y.geom) and x.material is y.material and x.tol == y.tol)
    else:
        solid = [x for x in parts if not x.geom.is_empty]
        for x in solid:
            case.ensure(op + " one polygon", x.geom.geom_type == "Polygon")
        got = unary_union([x.geom for x in solid]) if solid else Polygon()
        case.ensure(op + " set", got.symmetric_difference(want).area <= eps, f"{got.symmetric_difference(want).area}")
        case.ensure_eq(op + " area conserved", sum(x.geom.area for x in solid), {
            "or": ga.area + gb.area - (ga & gb).area, "and": (ga & gb).area, "xor": ga.area + gb.area - 2 * (ga & gb).area,
            "sub": ga.area - (ga & gb).area}[op] if is_simple(a) or op != "sub" else sum((x.geom - gb).area for x in geoms(a)),
            scale=S, rtol=1e-9 + eps / S)
        if is_simple(a):
            for x in parts:
                case.ensure(op + " material", x.material is a.material)
        elif op == "sub":
            # each region keeps its own material
            for x in geoms(a):
                same = unary_union([y.geom for y in solid if y.material == x.material])
                w = unary_union([z.geom for z in geoms(a) if z.material == x.material]) - gb
                case.ensure("material of each region", same.symmetric_difference(w).area <= eps)
        if is_simple(a) and op == "sub" and is_simple(new) and a.assigned_control_point is not None and new.assigned_control_point is not None:
            case.ensure("control point", new.assigned_control_point.equals(a.assigned_control_point))
    meshes(case, new, rng)


def meshes(case, new, rng):
    """The result meshes, with every region covered once and no other area."""
    from sectionproperties.analysis.section import Section

    parts = [x for x in geoms(new) if not x.geom.is_empty]
    if not parts or rng.random() < 0.5:
        return
    if min(x.geom.buffer(-1e-4).area for x in parts) < 1e-3 or len(parts) != len(geoms(new)):
        return  # slivers
    u = unary_union([x.geom for x in parts])
    if sum(x.geom.area for x in parts) > u.area * (1 + 1e-9):
        return  # overlapping operands of an addition: C27
    from shapely.geometry import LineString  # noqa: F401

    pts = np.array(new.points)
    d = np.hypot(*(pts[:, None] - pts[None]).transpose(2, 0, 1)) + np.eye(len(pts)) * 9
    if d.min() < 1e-2:
        return  # needles
    for i, p in enumerate(pts):  # a vertex almost on another edge
        for f in new.facets:
            if i not in f and 0 < LineString([pts[f[0]], pts[f[1]]]).distance(Point(p)) < 1e-2:
                return
    new.create_mesh(mesh_sizes=u.area / 4)
    sec = Section(new)
    area = {}
    for e in sec.elements:
        a = e.geometric_properties()[0]
        k = id(e.material)
        area[k] = area.get(k, 0.0) + a
    for x in parts:
        case.ensure_eq("meshed area of the material", area.get(id(x.material), 0.0),
                       sum(y.geom.area for y in parts if y.material is x.material), scale=u.area, rtol=1e-6)


# ------------------------------------------------------------------ C25
def voids_of(polys, eps):
    u = unary_union(polys)
    parts = list(u.geoms) if hasattr(u, "geoms") else [u]
    filled = unary_union([Polygon(p.exterior) for p in parts])
    v = filled.difference(u)
    return [q for q in (v.geoms if hasattr(v, "geoms") else [v]) if q.geom_type == "Polygon" and not q.is_empty and q.area > eps]


def described(case):
    rng = case.rng
    g = nested(rng) if rng.random() < 0.25 else any_geometry(rng)
    g = with_control_points(rng, g)
    if min(x.tol for x in geoms(g)) == 12 and rng.random() < 0.3:
        g = elsewhere(rng, g)
    case.info["geometry"] = gen.describe(g)
    F = max(far(g), 1.0)
    L = max(np.ptp(np.array(g.points), axis=0))  # the size of the section, wherever it is
    for x in geoms(g):
        facets_are_boundary(case, "region", x.points, x.facets, x.geom, 2 * 10.0 ** -x.tol)
        case.ensure("one control point", len(x.control_points) == 1)
        case.ensure("control point inside its region", x.geom.contains(Point(x.control_points[0])) or (
            x.assigned_control_point is not None))
        if x.assigned_control_point is not None:
            case.ensure("assigned control point", Point(x.control_points[0]).equals(x.assigned_control_point))
        case.ensure("one hole per interior", len(x.holes) == len(x.geom.interiors))
        for h, r in zip(x.holes, x.geom.interiors):
            case.ensure("hole point inside its hole", Polygon(r).contains(Point(h)))
    if len(geoms(g)) > 1 or hasattr(g, "geoms"):
        segs = unary_union([LineString([g.points[i], g.points[j]]) for i, j in g.facets])
        want = unary_union([x.geom.boundary for x in geoms(g)])
        case.ensure("facets are the regions' boundaries", segs.hausdorff_distance(want) <= 1e-9 * L + 1e-11 * F)
        case.ensure("no point twice", len(set(g.points)) == len(g.points))
        case.ensure("number of facets", len(g.facets) == sum(len(x.facets) for x in geoms(g)))
        case.ensure("control points of the regions in order", [tuple(c) for c in g.control_points] == [
            tuple(x.control_points[0]) for x in geoms(g)])
        u = unary_union([x.geom for x in geoms(g)])
        big = voids_of([x.geom.buffer(max(3e-9 * u.area, 3e-12 * F)) for x in geoms(g)], 1e-6 * L * L)
        for v in big if min(x.tol for x in geoms(g)) == 12 else []:  # coarser rounding may open gaps
            case.ensure("a hole point in every void", sum(v.buffer(1e-6 * L).contains(Point(h)) for h in g.holes) == 1)
        for h in g.holes:
            case.ensure("hole points lie in no region", not u.contains(Point(h)))
            case.ensure("hole points lie in a void", any(v.buffer(1e-7 * L).contains(Point(h)) for v in voids_of([x.geom for x in geoms(g)], 0.0)))


def elsewhere(rng, g):
    """The same section in other units, possibly small and far from the origin."""
    gg, _ = gen.mods()
    k = rng.choice([1e-3, 1e-2, 1e-2, 100.0])
    dx, dy = rng.uniform(-40, 40), rng.uniform(-40, 40)
    at = lambda q: affinity.translate(affinity.scale(q, k, k, origin=(0, 0)), dx, dy)
    out = [gg.Geometry(at(x.geom), x.material) for x in geoms(g)]
    return gg.CompoundGeometry(out) if hasattr(g, "geoms") else out[0]


def facets_are_boundary(case, name, points, facets, poly, eps):
    n = len(poly.exterior.coords) - 1 + sum(len(r.coords) - 1 for r in poly.interiors)
    case.ensure(name + " number of points", len(points) == n and len(facets) == n)
    ends = [0] * n
    for i, j in facets:
        ends[i] += 1
        ends[j] += 1
        case.ensure(name + " facet has length", points[i] != points[j])
    case.ensure(name + " every point on two facets", all(e == 2 for e in ends))
    want = {frozenset((_r(p), _r(q))) for r in [poly.exterior, *poly.interiors] for p, q in zip(r.coords, r.coords[1:])}
    got = {frozenset((_r(points[i]), _r(points[j]))) for i, j in facets}
    case.ensure(name + " facets are the boundary edges", got == want)


def _r(p):
    return round(p[0], 9) + 0.0, round(p[1], 9) + 0.0


def nested(rng):
    """Regions within voids of other regions, voids shared by several regions."""
    g, p = gen.mods()
    ms = [gen.material(rng, k) for k in range(4)]
    x, y = rng.uniform(-5, 5), rng.uniform(-5, 5)
    outer = Polygon(gen.rect(8, 8).exterior, [gen.rect(6, 6, 1, 1).exterior])
    kind = rng.randrange(4)
    if kind == 0:
        parts = [outer, gen.rect(2, 2, 3, 3)]
    elif kind == 1:
        parts = [outer, Polygon(gen.rect(4, 4, 2, 2).exterior, [gen.rect(2, 1.5, 3, 3).exterior])]
    elif kind == 2:  # a bar across the void
        parts = [outer, gen.rect(6, 1, 1, 3.5)]
    else:
        parts = [outer, gen.rect(1, 1, 2, 2), gen.rect(1.5, 1, 5, 4.5), gen.rect(3, 2, 12, 1)]
    order = list(range(len(parts)))
    rng.shuffle(order)
    return g.CompoundGeometry([g.Geometry(affinity.translate(parts[i], x, y), ms[i]) for i in order])


def touching_voids(rng):
    """A polygon with up to three holes, a hole possibly touching the outline at a vertex."""
    w, h = rng.uniform(6, 9), rng.uniform(6, 9)
    ext = [(0, 0), (w, 0), (w, h), (0, h)]
    holes = []
    if rng.random() < 0.4:
        holes.append([(0, 0), (2, 1), (1, 2)])
    for k in range(rng.randrange(3)):
        x, y = rng.uniform(0.5, 1.0) + 2.4 * k, rng.uniform(2.6, 4.0)
        holes.append([(x, y), (x + 1.5, y), (x + 1.2, y + 1.1), (x + 0.2, y + 1.4)][: rng.randint(3, 4)])
    return Polygon(ext, holes)


def rotate_ring(rng, ring):
    k = rng.randrange(len(ring))
    ring = ring[k:] + ring[:k]
    return ring if rng.random() < 0.5 else ring[::-1]


def round_trip(case):
    g, p = gen.mods()
    rng = case.rng
    shuffled = rng.random() < 0.5
    if rng.random() < 0.5:
        poly = touching_voids(rng) if rng.random() < 0.5 else gen.polygon(rng)
        a = with_control_points(rng, g.Geometry(gen.place(rng, poly), gen.material(rng) if rng.random() < 0.5 else None))
        if not shuffled:
            pts, fac, holes, cps = a.points, a.facets, a.holes, a.control_points
        else:
            rs = [rotate_ring(rng, list(r.coords)[:-1]) for r in [a.geom.exterior]] + rng.sample(
                [rotate_ring(rng, list(r.coords)[:-1]) for r in a.geom.interiors], len(a.geom.interiors))
            pts, fac = listed(rng, rs)
            holes, cps = rng.sample(a.holes, len(a.holes)), a.control_points
        case.info["args"] = (pts, fac, cps, holes)
        if rng.random() < 0.5 and not holes:
            holes = None
        b = g.Geometry.from_points(pts, fac, cps, holes, a.material)
        same_region(case, a, b)
        return
    for _ in range(20):
        c = any_geometry(rng)
        if not hasattr(c, "geoms"):
            c = g.CompoundGeometry([c])
        polys = [x.geom for x in c.geoms]
        if all(not Polygon(r).buffer(-1e-9).intersects(q) for x in polys for r in x.interiors for q in polys if q is not x) and not any(
                q.intersection(s).area > 1e-12 for i, q in enumerate(polys) for s in polys[:i]) and all(
                x.geom.contains(Point(x.control_points[0])) for x in c.geoms):
            break
    else:
        return
    mats = [x.material for x in c.geoms]
    if not shuffled:
        order = list(c.geoms)
        pts, fac, holes = c.points, c.facets, c.holes
    else:
        order = rng.sample(c.geoms, len(c.geoms))
        rs = []
        for x in order:
            rs.append(rotate_ring(rng, [tuple(q) for q in list(x.geom.exterior.coords)[:-1]]))
            rs += [rotate_ring(rng, [tuple(q) for q in list(r.coords)[:-1]]) for r in x.geom.interiors]
        pts, fac = listed(rng, rs)
        holes = rng.sample(c.holes, len(c.holes))
        mats = [x.material for x in order]
    cps = [x.control_points[0] for x in order]
    case.info["args"] = (pts, fac, cps, holes)
    b = g.CompoundGeometry.from_points(pts, fac, cps, holes, mats)
    case.ensure("as many regions", len(b.geoms) == len(order))
    for x, y in zip(order, b.geoms):
        same_region(case, x, y)


def listed(rng, rs):
    """Rings as a point list without duplicates, in any order, and facets ring by ring."""
    pts = list(dict.fromkeys(q for r in rs for q in r))
    rng.shuffle(pts)
    ix = {q: i for i, q in enumerate(pts)}
    return pts, [(ix[s], ix[t]) for r in rs for s, t in zip(r, r[1:] + r[:1])]


def same_region(case, a, b):
    L = max(far(a), 1.0)
    case.ensure("same region", a.geom.symmetric_difference(b.geom).area <= 1e-9 * L * L and len(a.geom.interiors) == len(b.geom.interiors),
                f"{a.geom.wkt} became {b.geom.wkt}")
    case.ensure("same material", a.material == b.material)
    p, q = a.control_points[0], b.control_points[0]
    case.ensure_eq("same control point x", q[0], p[0], scale=L, rtol=1e-9)
    case.ensure_eq("same control point y", q[1], p[1], scale=L, rtol=1e-9)


# ------------------------------------------------------------------ C26
def separate(g, eps=1e-9):
    """No two regions overlap."""
    ps = [x.geom for x in geoms(g)]
    return not any(q.intersection(s).area > eps for i, q in enumerate(ps) for s in ps[:i])


def well_shaped(g):
    """No slivers or almost-touching vertices (Triangle then makes huge meshes)."""
    parts = geoms(g)
    if min((x.geom.buffer(-1e-4).area for x in parts), default=0) < 1e-3:
        return False
    pts = np.array(g.points)
    d = np.hypot(*(pts[:, None] - pts[None]).transpose(2, 0, 1)) + np.eye(len(pts)) * 9
    if d.min() < 1e-2:
        return False
    for i, p in enumerate(pts):
        for f in g.facets:
            if i not in f and 0 < LineString([pts[f[0]], pts[f[1]]]).distance(Point(p)) < 1e-2:
                return False
    return True


def meshing(case):
    from sectionproperties.analysis.section import Section

    rng = case.rng
    for _ in range(20):
        g = nested(rng) if rng.random() < 0.2 else any_geometry(rng)
        if rng.random() < 0.3:
            g = with_control_points(rng, g)
        if separate(g) and well_shaped(g) and all(
            x.geom.buffer(-1e-3).contains(Point(x.control_points[0])) or not x.assigned_control_point for x in geoms(g)):
            break
    else:
        return
    parts = geoms(g)
    if rng.random() < 0.3:  # equal materials that are not the same object
        import dataclasses

        few = [gen.material(rng, f"m{j}") for j in range(2)]
        for x in parts:
            x.material = dataclasses.replace(rng.choice(few))
    area = [x.geom.area for x in parts]
    tot = sum(area)
    k = rng.choice([8, 20, 50])
    form = rng.choice(["float", "one", "list", "int", "coarse"])
    if form == "list":
        sizes = [a / rng.choice([1, 3, 10, 30]) for a in area]
        limit = sizes
        if rng.random() < 0.2:
            sizes = tuple(sizes) if hasattr(g, "geoms") else sizes
    elif form == "int":
        sizes = max(1, int(tot / 10))
        limit = [sizes] * len(parts)
    else:
        s = tot / k
        sizes = [s] if form == "one" else s
        limit = [s] * len(parts)
    if isinstance(sizes, tuple):
        sizes = list(sizes)
    ang = rng.choice([30.0, 20.0, 25, 15.5])
    case.info["geometry"], case.info["sizes"], case.info["form"] = gen.describe(g), sizes, form
    before = freeze(g)
    r = g.create_mesh(sizes, ang, form == "coarse")
    case.ensure("returns itself", r is g)
    g.mesh, keep = None, g.mesh
    unchanged(case, "geometry", before, g)
    g.mesh = keep
    V = np.array(g.mesh["vertices"], float)
    T = np.array(g.mesh["triangles"], int)
    A = np.array(g.mesh["triangle_attributes"]).T[0].astype(int)
    case.ensure("six nodes", T.shape[1] == 6 and len(A) == len(T))
    L = far(g)
    sec = Section(g)
    case.ensure("one element per triangle", len(sec.elements) == len(T))
    mats = [x.material for x in parts]
    case.ensure("as many groups as materials", len(sec.material_groups) == sum(m not in mats[:i] for i, m in enumerate(mats)))
    case.ensure("every element in one group", sorted(e.el_id for q in sec.material_groups for e in q.elements) == list(range(len(T))))
    total = [0.0] * len(parts)
    inside = [x.geom.buffer(1e-9 * L) for x in parts]
    from shapely import points as spoints
    from shapely import prepare

    for p in inside:
        prepare(p)
    edges = {}
    for i, (t, el) in enumerate(zip(T, sec.elements)):
        P = np.array(el.coords, float).T
        a = 0.5 * ((P[1, 0] - P[0, 0]) * (P[2, 1] - P[0, 1]) - (P[2, 0] - P[0, 0]) * (P[1, 1] - P[0, 1]))
        case.ensure("positive area", a > 0)
        for m, (u, v) in zip((3, 4, 5), ((0, 1), (1, 2), (2, 0))):
            case.ensure("straight sides", abs(P[m] - (P[u] + P[v]) / 2).max() <= 1e-9 * max(L, 1))
        case.ensure("node coordinates", abs(V[list(el.node_ids)] - P).max() == 0.0 and set(el.node_ids) == set(t))
        reg = A[i]
        c = Point(P[:3].mean(axis=0))
        case.ensure("attribute of its region", 0 <= reg < len(parts) and parts[reg].geom.contains(c))
        case.ensure("inside its region", all(inside[reg].contains(q) for q in spoints(P[:3])))
        case.ensure("material of its region", el.material == parts[reg].material)
        total[reg] += a
        if form != "coarse":
            case.ensure("mesh size", a <= limit[reg] * (1 + 1e-6), f"{a} > {limit[reg]}")
        for m, (u, v) in zip((3, 4, 5), ((0, 1), (1, 2), (2, 0))):
            e = (el.node_ids[u], el.node_ids[v])
            case.ensure("edges used once in each direction", e not in edges)
            edges[e] = el.node_ids[m]
            if (e[1], e[0]) in edges:
                case.ensure("midside node shared", edges[(e[1], e[0])] == el.node_ids[m])
    for a, b in zip(total, area):
        case.ensure_eq("region covered once", a, b, scale=tot, rtol=1e-8)
    # neighbouring regions are joined: edges used once bound the union
    u = unary_union([x.geom for x in parts]).buffer(1e-7 * tot)
    rim = u.boundary
    for (s, t) in edges:
        if (t, s) not in edges:
            q = (V[s] + V[t]) / 2
            case.ensure("an open edge lies on the boundary", rim.distance(Point(q)) <= 3e-7 * tot + 1e-6)


# ------------------------------------------------------------------ C27
def fault_polys(rng):
    """Polygons on a grid, so that contact and overlap are exact."""
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    s = rng.choice([1.0, 1.0, 0.5, 1000.0, 0.001])
    out = []
    span = rng.choice([3, 5, 8])
    for _ in range(n):
        x, y = rng.randrange(span), rng.randrange(span)
        w, h = rng.randint(1, 3), rng.randint(1, 3)
        kind = rng.random()
        if kind < 0.6:
            p = gen.rect(w, h, x, y)
        elif kind < 0.75:
            p = Polygon([(x, y), (x + w, y), (x, y + h)])
        elif kind < 0.9:
            p = gen.rect(w + 2, h + 2, x - 1, y - 1).difference(gen.rect(w, h, x, y))
        else:
            p = gen.rect(w, h, x, y).union(gen.rect(w + 2, 1, x, y))
        out.append(affinity.scale(p, s, s, origin=(0, 0)))
    return out, s


def faults(case):
    g, p = gen.mods()
    rng = case.rng
    polys, s = fault_polys(rng)
    n = len(polys)
    chain = rng.random() < 0.3
    if chain:  # a chain in random order, possibly broken
        k = rng.randint(2, 7)
        gap = rng.randrange(-1, k - 1)
        polys, x = [], 0.0
        for i in range(k):
            polys.append(gen.rect(1, 1, x, i if rng.random() < 0.3 else 0))
            polys[-1] = gen.rect(1, 1, x, 0)
            x += 1 if i != gap else 1.5
        rng.shuffle(polys)
        s, n = 1.0, k
    least = 1e-6 * s * s
    if n > 1 and rng.random() < 0.2:  # a sliver of overlap
        k = rng.randrange(n)
        x0, y0, x1, y1 = polys[k].bounds
        t = 10 ** rng.uniform(-5, -1)
        polys.append(gen.rect((x1 - x0), t * (y1 - y0), x1 - t * (x1 - x0), rng.uniform(y0, y1)))
        n += 1
        least = 1e-7 * sum(q.area for q in polys)
        shared = sum(q.area for q in polys) - unary_union(polys).area
        case.assume(shared > 10 * least or shared < 1e-12 * s * s)
    case.info["polygons"] = [q.wkt for q in polys]
    over = any(a.intersection(b).area > least for i, a in enumerate(polys) for b in polys[:i])
    comp = list(range(n))
    for i in range(n):
        for j in range(i):
            if polys[i].intersects(polys[j]):
                comp = [comp[i] if c == comp[j] else c for c in comp]
    apart = len(set(comp)) > 1
    for _ in range(3):
        case.ensure("overlap reported iff area is shared", g.check_geometry_overlaps(list(polys)) == over, f"shared: {over}")
        case.ensure("disconnection reported iff not connected", g.check_geometry_disjoint(list(polys)) == apart, f"apart: {apart}")
        rng.shuffle(polys)


def fault_warnings(case):
    import warnings

    from sectionproperties.analysis.section import Section

    g, p = gen.mods()
    rng = case.rng
    kind = rng.choice(["sound", "sound", "apart", "overlap"])
    w = rng.uniform(1, 2)
    a, b = gen.rect(w, 2), gen.rect(1, 1, w, 0.5)
    if kind == "apart":
        b = gen.rect(1, 1, w + rng.uniform(0.3, 2), 0)
    if kind == "overlap":
        b = gen.rect(1, 1, w - rng.uniform(0.2, 0.8), 0.5)
    parts = [g.Geometry(a, gen.material(rng, 0)), g.Geometry(b, gen.material(rng, 1))]
    if kind == "sound" and rng.random() < 0.5:
        parts.append(g.Geometry(gen.rect(w, 1, 0, 2), gen.material(rng, 2)))
    rng.shuffle(parts)
    case.info["kind"], case.info["polygons"] = kind, [x.geom.wkt for x in parts]
    c = g.CompoundGeometry(parts)
    c.create_mesh([0.5])
    try:
        sec = Section(c)
    except ValueError:
        return  # overlapping regions may leave a region without elements
    sec.calculate_geometric_properties()

    def said(f):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                f()
            except Exception:  # noqa: BLE001  (invalid input of the analysis)
                if kind == "sound":
                    raise
        return " ".join(str(x.message) for x in ws)

    case.ensure("warping analysis warns of disjoint regions", ("disjoint" in said(sec.calculate_warping_properties)) == (kind == "apart"))
    case.ensure("plastic analysis warns of overlapping regions",
                ("overlapping" in said(sec.calculate_plastic_properties)) == (kind == "overlap"))
