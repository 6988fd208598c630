"""Run-time contracts of moved points, control points and measures (bounded: random geometries)."""
from __future__ import annotations

import math

from shapely import Point, Polygon
from shapely.ops import unary_union

from rt import gen

from . import rtgeom
from .rtgeom import freeze, geoms, size, unchanged


def shifted(case):
    g, _ = gen.mods()
    rng = case.rng
    a = rtgeom.with_control_points(rng, rtgeom.any_geometry(rng, "single"))
    L = size(a)
    n = len(a.points)
    idx = rng.sample(range(n), rng.choice([1, 1, 2, 3, n]) if n > 3 else 1)
    kw, pts = {}, list(a.points)
    if len(idx) == 1 and rng.random() < 0.4:
        # to an absolute position; zero is a position like any other
        if rng.random() < 0.5:
            kw["abs_x"] = rng.choice([0, 0.0, pts[idx[0]][0] + rng.uniform(-0.2, 0.2) * L])
        if rng.random() < 0.5 or not kw:
            kw["abs_y"] = rng.choice([0, 0.0, pts[idx[0]][1] + rng.uniform(-0.2, 0.2) * L])
    if rng.random() < 0.7 or not kw:
        kw["dx"] = rng.uniform(-0.2, 0.2) * L
    if rng.random() < 0.7:
        kw["dy"] = rng.uniform(-0.2, 0.2) * L
    if rng.random() < 0.2 and "abs_x" in kw:  # bring the origin to the geometry
        s = a.shift_section(-pts[idx[0]][0] + rng.uniform(-0.1, 0.1) * L, -pts[idx[0]][1] + rng.uniform(-0.1, 0.1) * L)
        if len(s.points) == n:
            a, pts = s, list(s.points)
    for i in idx:
        x, y = pts[i]
        x = kw["abs_x"] if "abs_x" in kw else x + kw.get("dx", 0.0)
        y = kw["abs_y"] if "abs_y" in kw else y + kw.get("dy", 0.0)
        pts[i] = (x, y)
    rings = []
    for k in a.facets:
        if rings and k[0] == rings[-1][-1] and k[1] != rings[-1][0]:
            rings[-1].append(k[1])
        elif rings and k[1] == rings[-1][0]:
            continue
        else:
            rings.append(list(k))
    ps = [Polygon([pts[i] for i in r]) for r in rings]
    if not all(p.is_valid and p.area > 1e-4 * L * L for p in ps):
        return
    shell, holes = ps[0], ps[1:]
    if not all(shell.buffer(-1e-5 * L).contains(h) for h in holes) or any(
            p.distance(q) < 1e-5 * L for i, p in enumerate(holes) for q in holes[:i]):
        return
    for r, p in zip(rings[1:], holes):  # the hole's own point must stay inside for the points to describe a region
        hp = [h for h in a.holes if Polygon([a.points[i] for i in r]).contains(Point(h))]
        if len(hp) != 1 or not p.contains(Point(hp[0])):
            return
    case.info.update(geometry=gen.describe(a), idx=idx, **kw)
    before = freeze(a)
    try:
        new = a.shift_points(idx[0] if len(idx) == 1 and rng.random() < 0.5 else idx, **kw)
    except (ValueError, RuntimeError) as e:
        case.fail("moved points", f"{type(e).__name__}: {e}")
        return
    unchanged(case, "the geometry", before, a)
    want = Polygon(shell.exterior, [h.exterior for h in holes])
    eps = 1e-9 * max(rtgeom.far(a), rtgeom.far(new), 1) + 3 * 10.0 ** -a.tol
    case.ensure("the region of the moved points", new.geom.symmetric_difference(want).area <= eps * 4 * (L + want.length))
    for i in range(n):
        case.ensure("every point", min(math.hypot(pts[i][0] - q[0], pts[i][1] - q[1]) for q in new.points) <= 2 * eps, f"{i}")
    case.ensure("material", new.material == a.material)
    case.ensure("tolerance", new.tol == a.tol)
    keeps(case, a, new, eps)
    case.ensure("control point in the region", all(new.geom.distance(Point(c)) <= eps for c in new.control_points))


def keeps(case, a, new, eps):
    """An assigned control point is kept while it is in the region, and only then."""
    cp = a.assigned_control_point
    if cp is None:
        case.ensure("no control point assigned", new.assigned_control_point is None)
    elif new.geom.boundary.distance(cp) > 2 * eps:
        keep = new.geom.contains(cp)
        case.ensure("control point", (new.assigned_control_point is not None) == keep)
        if keep and new.assigned_control_point is not None:
            case.ensure("the same control point", new.assigned_control_point.distance(cp) <= eps)


def inner(rng, p):
    for _ in range(200):
        x0, y0, x1, y1 = p.bounds
        q = Point(rng.uniform(x0, x1), rng.uniform(y0, y1))
        if p.contains(q) and p.boundary.distance(q) > 1e-3 * (x1 - x0):
            return q
    return p.representative_point()


def control(case):
    """A control point goes where the documentation of assign_control_point says."""
    g, _ = gen.mods()
    rng = case.rng
    a = rtgeom.any_geometry(rng, "single")
    L = size(a)
    if rng.random() < 0.3:
        t = rng.choice([7, 9, 10])
        a = g.Geometry(a.geom, a.material, tol=t) if L > 1e3 * 10.0**-t else a
    q = inner(rng, a.geom)
    eps = 1e-9 * max(rtgeom.far(a), 1) + 3 * 10.0 ** -a.tol
    case.info.update(geometry=gen.describe(a), point=(q.x, q.y))
    before = freeze(a)
    c = a.assign_control_point((q.x, q.y))
    unchanged(case, "the geometry", before, a)
    case.ensure("assigned", c.assigned_control_point is not None and c.assigned_control_point.distance(q) == 0)
    case.ensure("the control point", len(c.control_points) == 1 and Point(c.control_points[0]).distance(q) == 0)
    case.ensure("region, material, tolerance", c.geom.equals(a.geom) and c.material is a.material and c.tol == a.tol)
    other = g.Geometry(gen.place(rng, gen.polygon(rng)), gen.material(rng, 1))
    op = rng.choice(["shift", "rotate", "mirror", "align", "center", "offset", "minus", "or", "xor", "and", "split", "again"])
    case.info["op"] = op
    if op == "again":
        q2 = inner(rng, a.geom)
        d = c.assign_control_point((q2.x, q2.y))
        case.ensure("replaced", d.assigned_control_point.distance(q2) == 0 and c.assigned_control_point.distance(q) == 0)
        return
    if op in ("shift", "rotate", "mirror", "align", "center"):
        # the point moves with the region: compare with a copy of which it is a vertex of a hole
        t = 1e-3 * L
        mark = Polygon([(q.x, q.y), (q.x + t, q.y), (q.x, q.y + 2 * t)])
        f = {"shift": lambda z, k=(rng.uniform(-9, 9), rng.uniform(-9, 9)): z.shift_section(*k),
             "rotate": lambda z, k=rng.uniform(-180, 180): z.rotate_section(k, rot_point=(1.0, 2.0)),
             "mirror": lambda z, k=rng.choice("xy"): z.mirror_section(axis=k, mirror_point=(0.3, -0.7)),
             "align": lambda z, k=rng.choice(["left", "right", "top", "bottom"]): z.align_to(other, on=k),
             "center": lambda z: z.align_center((3.0, 1.0))}[op]
        new = f(c)
        case.ensure("carried", new.assigned_control_point is not None)
        p = new.assigned_control_point
        case.ensure("at its distances from the vertices", all(
            abs(math.hypot(p.x - u[0], p.y - u[1]) - math.hypot(q.x - v[0], q.y - v[1])) <= 20 * eps + 1e-9 * L
            for u, v in zip(new.geom.exterior.coords, c.geom.exterior.coords)) if op != "mirror" else True)
        case.ensure("in the region", new.geom.distance(p) <= eps)
        del mark
        return
    if op == "offset":
        new = c.offset_perimeter(-rng.choice([0.02, 0.1, 0.2]) * L)
    elif op == "minus":
        new = c - other
    elif op == "or":
        new = c | other
    elif op == "xor":
        new = c ^ other
    elif op == "and":
        new = c & other
    else:
        x, y = c.geom.centroid.x, c.geom.centroid.y
        top, bot = c.split_section((x, y), vector=(math.cos(rng.uniform(0, 3)), math.sin(rng.uniform(0, 3))))
        for z in top + bot:
            case.ensure("discarded", z.assigned_control_point is None)
            case.ensure("in the region", all(z.geom.distance(Point(k)) <= eps for k in z.control_points))
        return
    parts = [x for x in geoms(new) if not x.geom.is_empty]
    for x in parts:
        case.ensure("control point in its region", all(x.geom.distance(Point(k)) <= eps for k in x.control_points) or op == "or")
    if isinstance(new, g.CompoundGeometry) or not parts:
        return
    if op in ("offset", "minus"):
        keeps(case, c, new, eps)
    elif op == "or":
        case.ensure("kept", new.assigned_control_point is not None and new.assigned_control_point.distance(q) <= eps)
    else:
        case.ensure("discarded", new.assigned_control_point is None)


def ring_sums(ring):
    c = list(ring.coords)
    x0, y0 = c[0]
    A = mx = my = l = 0.0
    for (a, b), (d, e) in zip(c, c[1:]):
        l += math.hypot(d - a, e - b)
        a, b, d, e = a - x0, b - y0, d - x0, e - y0
        k = a * e - d * b
        A += k / 2
        mx += (a + d) * k / 6
        my += (b + e) * k / 6
    s = 1 if A > 0 else -1
    return s * A, s * mx + s * A * x0, s * my + s * A * y0, l


def measures(case):
    rng = case.rng
    a = rtgeom.any_geometry(rng)
    case.info["geometry"] = gen.describe(a)
    before = freeze(a)
    parts = geoms(a)
    A = mx = my = 0.0
    xs, ys = [], []
    for x in parts:
        for k, r in enumerate([x.geom.exterior, *x.geom.interiors]):
            u, v, w, _ = ring_sums(r)
            s = 1 if k == 0 else -1
            A, mx, my = A + s * u, mx + s * v, my + s * w
        xs += [p[0] for p in x.geom.exterior.coords]
        ys += [p[1] for p in x.geom.exterior.coords]
    L = max(max(xs) - min(xs), max(ys) - min(ys))
    F = max(rtgeom.far(a), L)
    case.ensure_eq("area", a.calculate_area(), A, scale=L * L, rtol=1e-9)
    c = a.calculate_centroid()
    case.ensure_eq("centroid x", c[0], mx / A, scale=F, rtol=1e-8)
    case.ensure_eq("centroid y", c[1], my / A, scale=F, rtol=1e-8)
    for n, u, v in zip(("x_min", "x_max", "y_min", "y_max"), a.calculate_extents(), (min(xs), max(xs), min(ys), max(ys))):
        case.ensure_eq(n, u, v, scale=F, rtol=1e-12)
    p = a.calculate_perimeter()
    if hasattr(a, "geoms"):
        U = unary_union([x.geom for x in parts])
        if isinstance(U, Polygon):
            case.ensure_eq("perimeter", p, ring_sums(U.exterior)[3], scale=L, rtol=1e-9)
        else:
            case.ensure("no perimeter of disjoint regions", p == -1.0)
    else:
        case.ensure_eq("perimeter", p, ring_sums(a.geom.exterior)[3], scale=L, rtol=1e-9)
    unchanged(case, "the geometry", before, a)
