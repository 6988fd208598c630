"""Run-time contracts of offsetting (bounded: random geometries). Membership is decided by distances from the outlines."""
from __future__ import annotations

import math

import numpy as np
from shapely import affinity, box, LineString, MultiPolygon, Point, Polygon
from shapely.ops import unary_union

from rt import gen

from . import rtgeom
from .rtgeom import freeze, geoms, size, unchanged


def within(p, ring, a, q, eps):
    """Whether the point lies in the region of the ring offset by a: True, False, or None in the band of the arcs."""
    P = Polygon(ring)
    d = ring.distance(p)
    s = d if P.contains(p) else -d  # positive inside
    # the arcs' chords (their number is rounded), and the 1 % by which the buffer operation simplifies its input
    lo, hi = abs(a) * (math.cos(1.5 * math.pi / (4 * q)) - 0.013), abs(a) * 1.013
    if a >= 0:
        if s > -lo + eps:
            return True
        return False if s < -hi - eps else None
    if s > hi + eps:
        return True
    return False if s < lo - eps else None


def both(*v):
    return False if False in v else (None if None in v else True)


def no(v):
    return None if v is None else not v


def sample(rng, region, a, n):
    """Points around the region, most of them near its outlines."""
    x0, y0, x1, y1 = region.bounds
    w = max(x1 - x0, y1 - y0) * 0.3 + abs(a)
    out = []
    for _ in range(n):
        if rng.random() < 0.3:
            out.append(Point(rng.uniform(x0 - w, x1 + w), rng.uniform(y0 - w, y1 + w)))
        else:
            r = rng.choice([region.exterior, *region.interiors])
            q = r.interpolate(rng.random(), normalized=True)
            t, d = rng.uniform(0, 2 * math.pi), abs(a) * rng.choice([0.3, 0.9, 0.97, 1.03, 1.1, 1.5])
            out.append(Point(q.x + d * math.cos(t), q.y + d * math.sin(t)))
    return out


def dumbbell(rng):
    """A region that an erosion cuts in pieces."""
    w, h, l, t = rng.uniform(2, 4), rng.uniform(2, 4), rng.uniform(1, 4), rng.uniform(0.2, 1)
    y = rng.uniform(0, h - t)
    p = unary_union([gen.rect(w, h), gen.rect(l, t, w, y), gen.rect(w, h, w + l, 0)])
    if rng.random() < 0.4:
        p = p - gen.rect(w * 0.5, h * 0.5, w * 0.25, h * 0.25)
    return gen.place(rng, p)


def simple(case):
    g, _ = gen.mods()
    rng = case.rng
    if rng.random() < 0.3:
        a = g.Geometry(dumbbell(rng), gen.material(rng)) if rng.random() < 0.7 else g.Geometry(dumbbell(rng))
    else:
        a = rtgeom.any_geometry(rng, "single")
    a = rtgeom.with_control_points(rng, a)
    P, L = a.geom, size(a)
    if rng.random() < 0.1:
        where = rng.choice(["outside", "", "Exterior", "interior" if not P.interiors else "both"])
        try:
            a.offset_perimeter(amount=0.01 * L, where=where)
        except ValueError:
            case.ensure("refused", True)
        else:
            case.ensure(f"where='{where}' is refused", False)
        return
    where = rng.choice(["exterior", "interior", "all"] if P.interiors else ["exterior", "exterior", "all"])
    amount = rng.choice([-1, 1]) * L * rng.choice([0.01, 0.03, 0.08, 0.15, 0.3]) * rng.uniform(0.7, 1.3)
    kw, q = {}, 12
    if rng.random() < 0.6:
        q = kw["resolution"] = rng.choice([1, 3, 8, 12, 20])
    if where != "exterior" or rng.random() < 0.5:
        kw["where"] = where
    case.info.update(geometry=gen.describe(a), amount=amount, **kw)
    before = freeze(a)
    new = a.offset_perimeter(amount, **kw) if rng.random() < 0.5 else a.offset_perimeter(amount=amount, **kw)
    unchanged(case, "the geometry", before, a)
    eps = 1e-9 * max(rtgeom.far(a), 1) + 3 * 10.0 ** -a.tol
    parts = [x for x in geoms(new) if not x.geom.is_empty]
    got = unary_union([x.geom for x in parts]) if parts else Polygon()
    # by the distances from the outlines
    for p in sample(rng, P, amount, 60):
        E = within(p, P.exterior, amount if where != "interior" else 0.0, q, eps)
        if where == "all":
            hs = [no(within(p, r, -amount, q, eps)) for r in P.interiors]
            # near two outlines at once the arcs of either may matter
        else:
            hs = [no(within(p, r, amount if where == "interior" else 0.0, q, eps)) for r in P.interiors]
        want = both(E, *hs)
        if want is None or got.boundary.distance(p) < 2 * eps:
            continue
        case.ensure("the offset region", got.contains(p) == want, f"{p} {want}")
    # as many pieces as result, with the arcs' resolution
    if where == "all":
        w = P.buffer(amount, quad_segs=q)
    elif where == "exterior":
        w = Polygon(P.exterior).buffer(amount, quad_segs=q) - unary_union([Polygon(r) for r in P.interiors])
    else:
        w = Polygon(P.exterior) - unary_union([Polygon(r).buffer(amount, quad_segs=q) for r in P.interiors])
    case.ensure("set", got.symmetric_difference(w).area <= eps * 8 * (L + w.length), f"{got.symmetric_difference(w).area}")
    case.ensure_eq("no overlap", sum(x.geom.area for x in parts), got.area, scale=L * L, rtol=1e-9 + eps / L)
    pieces = [x for x in (w.geoms if isinstance(w, MultiPolygon) else [w]) if x.area > eps * L * 10]
    solid = [x for x in parts if x.geom.area > eps * L * 10]
    case.ensure("pieces", len(solid) == len(pieces), f"{len(solid)} {len(pieces)}")
    for x in parts:
        case.ensure("one polygon each", x.geom.geom_type == "Polygon")
        case.ensure("material", x.material is a.material)
    cp = a.assigned_control_point
    if len(parts) == 1 and not isinstance(new, g.CompoundGeometry) and got.boundary.distance(cp or Point(0, 0)) > 2 * eps:
        keep = cp is not None and got.contains(cp)
        case.ensure("control point", (new.assigned_control_point is not None) == keep)
        if keep:
            case.ensure("the control point", new.assigned_control_point.distance(cp) <= eps)
    for x in solid:
        for c in x.control_points:
            case.ensure("control point inside", x.geom.distance(Point(c)) <= eps)


# ------------------------------------------------------------------ compound geometries
def walls(rng):
    """Regions within others' holes, thin layers, tubes."""
    g, _ = gen.mods()
    k = rng.randrange(5)
    w, h = rng.uniform(3, 8), rng.uniform(3, 8)
    t = rng.uniform(0.1, 0.9)
    outer = gen.rect(w, h)
    inner = gen.rect(w - 2 * t, h - 2 * t, t, t)
    if k == 0:  # filled tube
        ps = [outer - inner, inner]
    elif k == 1:  # half filled tube
        ps = [outer - inner, gen.rect(w - 2 * t, (h - 2 * t) * rng.uniform(0.2, 0.8), t, t)]
    elif k == 2:  # tube with a neighbour
        ps = [outer - inner, gen.rect(rng.uniform(0.2, 3), h * rng.uniform(0.3, 1), w, 0)]
    elif k == 3:  # layers
        ps, x = [], 0.0
        for _ in range(rng.randint(2, 4)):
            d = rng.choice([rng.uniform(0.1, 0.5), rng.uniform(1, 3)])
            ps.append(gen.rect(d, h, x, 0))
            x += d
    else:  # an edge at an angle
        c = rng.uniform(0.1, 0.9) * w
        e = rng.uniform(0.1, 0.9) * w
        ps = [Polygon([(0, 0), (c, 0), (e, h), (0, h)]), Polygon([(c, 0), (w, 0), (w, h), (e, h)])]
    if rng.random() < 0.5:
        ps = gen.noded([gen.affinity.rotate(p, 33, origin=(0, 0)) for p in ps]) if hasattr(gen, "affinity") and False else ps
    return g.CompoundGeometry([g.Geometry(p, gen.material(rng, i)) for i, p in enumerate(ps)])


def distinct(rng):
    g, _ = gen.mods()
    c = walls(rng) if rng.random() < 0.5 else gen.compound(rng, "random")
    return g.CompoundGeometry([g.Geometry(x.geom, gen.material(rng, i), tol=12) for i, x in enumerate(geoms(c))])


def compound(case):
    g, _ = gen.mods()
    rng = case.rng
    c = distinct(rng)
    U = unary_union([x.geom for x in c.geoms])
    L = size(c)
    amount = rng.choice([-1, 1]) * L * rng.choice([0.01, 0.03, 0.08, 0.2]) * rng.uniform(0.7, 1.3)
    eps = 1e-8 * max(rtgeom.far(c), 1)
    case.info.update(geometry=gen.describe(c), amount=amount)
    before = freeze(c)
    if rng.random() < 0.06:
        new = c.offset_perimeter(0.0)
        case.ensure("no offset", [x.geom.wkb for x in new.geoms] == before["regions"])
        return
    if amount < 0:
        eroded(case, g, c, U, L, amount, eps)
    else:
        dilated(case, g, c, U, L, amount, eps)
    unchanged(case, "the geometry", before, c)


def eroded(case, g, c, U, L, amount, eps):
    rng = case.rng
    where = rng.choice(["exterior", "exterior", "exterior", "all"])
    q = rng.choice([12, 12, 3, 20])
    kw = {} if where == "exterior" and rng.random() < 0.5 else {"where": where}
    if q != 12 or rng.random() < 0.5:
        kw["resolution"] = q
    case.info.update(kw)
    if not isinstance(U, Polygon):
        try:
            c.offset_perimeter(amount, **kw)
        except RuntimeError:
            case.ensure("disjoint regions are refused", True)
        return
    E = Polygon(U.exterior).buffer(amount, quad_segs=q) if where == "exterior" else U.buffer(amount, quad_segs=q)
    mask = E - unary_union([Polygon(r) for r in U.interiors])
    if mask.area < 1e-6 * L * L:
        return
    new = c.offset_perimeter(amount, **kw)
    for p in sample(rng, U, amount, 40):
        inside = within(p, U.exterior, amount, q, eps)
        if where == "all":
            inside = both(inside, *[no(within(p, r, -amount, q, eps)) for r in U.interiors])
        for x in c.geoms:
            want = both(inside, within(p, x.geom.exterior, 0.0, q, eps), *[no(within(p, r, 0.0, q, eps)) for r in x.geom.interiors])
            got = [y for y in new.geoms if y.material is x.material]
            if want is None or any(y.geom.boundary.distance(p) < 2 * eps for y in got):
                continue
            case.ensure("eroded region with its material", any(y.geom.contains(p) for y in got) == want, f"{p} {want}")
    for x in c.geoms:
        got = unary_union([y.geom for y in new.geoms if y.material is x.material])
        w = x.geom & mask
        case.ensure("each region's part of the eroded whole", got.symmetric_difference(w).area <= eps * 20 * (L + w.length),
                    f"{got.symmetric_difference(w).area}")
    case.ensure_eq("no overlap", sum(y.geom.area for y in new.geoms), unary_union([y.geom for y in new.geoms]).area, scale=L * L, rtol=1e-7)
    case.ensure("only the compound's materials", all(any(y.material is x.material for x in c.geoms) for y in new.geoms))


def dilated(case, g, c, U, L, amount, eps):
    rng = case.rng
    kw, q = {}, 12
    if rng.random() < 0.5:
        q = kw["resolution"] = rng.choice([1, 3, 8, 16])
    if rng.random() < 0.5:
        kw["where"] = "exterior"
    case.info.update(kw)
    try:
        new = c.offset_perimeter(amount, **kw)
    except RuntimeError as e:
        case.note(refused=str(e))
        return
    case.ensure("a region for each region", len(new.geoms) == len(c.geoms))
    full = [Polygon(x.geom.exterior) for x in c.geoms]
    small = eps * 20 * (L + sum(p.length for p in full))
    for i, (x, y) in enumerate(zip(c.geoms, new.geoms)):
        case.ensure("material", y.material is x.material)
        case.ensure("one polygon", y.geom.geom_type == "Polygon")
        case.ensure("keeps its own area", (x.geom - y.geom).area <= small)
        for j, z in enumerate(c.geoms):
            if j != i:
                case.ensure("takes no area of another region", (y.geom & z.geom).area <= small + 1.001 * (x.geom & z.geom).area,
                            f"{i} {j} {(y.geom & z.geom).area}")
        case.ensure("keeps its holes", all((y.geom & Polygon(r)).area <= small for r in x.geom.interiors))
        added = y.geom - x.geom
        far = added - x.geom.buffer(amount * (1 + 1e-9) + eps, quad_segs=64)
        case.ensure("adds only within the amount", far.area <= small + 1e-3 * amount * amount, f"{far.area}")
        case.ensure("arcs of the resolution", len(y.geom.exterior.coords) + sum(len(r.coords) for r in y.geom.interiors)
                    <= sum(len(r.coords) for z in c.geoms for r in [z.geom.exterior, *z.geom.interiors]) * (2 * q + 4) + 8)
        # the band along the free parts of the outline
        others = [z for j, z in enumerate(c.geoms) if j != i]
        ring = x.geom.exterior
        co = list(ring.coords)
        sgn = 1 if ring.is_ccw else -1
        for (x0, y0), (x1, y1) in zip(co, co[1:]):
            l = math.hypot(x1 - x0, y1 - y0)
            if l < 1e-6 * L:
                continue
            nx, ny = sgn * (y1 - y0) / l, -sgn * (x1 - x0) / l
            t = rng.uniform(0.02, 0.98)
            m = Point(x0 + t * (x1 - x0), y0 + t * (y1 - y0))
            if any(z.geom.distance(m) < 1e-6 * L for z in others):
                continue
            for d in (0.2, 0.9, 0.97):
                p = Point(m.x + d * amount * nx, m.y + d * amount * ny)
                if any(f.distance(p) < 4 * eps for f in full):
                    continue
                # not beyond another region
                if any(LineString([m, p]).intersects(z.geom) for z in others) or LineString(
                        [(m.x + 1e-6 * L * nx, m.y + 1e-6 * L * ny), p]).intersects(x.geom):
                    continue
                case.ensure("grows by the amount", y.geom.distance(p) <= eps, f"region {i} {p}")


def options(case):
    """Offsetting the holes of a compound geometry."""
    g, _ = gen.mods()
    outer = gen.rect(6, 5) - gen.rect(2, 2, 2, 1)
    c = g.CompoundGeometry([g.Geometry(outer, gen.material(case.rng, 0)), g.Geometry(gen.rect(2, 5, 6, 0), gen.material(case.rng, 1))])
    U = unary_union([x.geom for x in c.geoms])
    a = case.rng.choice([-0.3, 0.3])
    new = c.offset_perimeter(a, where="interior")
    got = unary_union([x.geom for x in new.geoms])
    want = Polygon(U.exterior) - Polygon(U.interiors[0]).buffer(a, quad_segs=12)
    if got.symmetric_difference(want).area > 1e-6:
        same = U if a < 0 else unary_union([x.geom for x in c.offset_perimeter(a).geoms])
        if got.symmetric_difference(same).area < 1e-6:
            case.finding("C33-where", "where of a compound", "where='interior' does not offset the holes")
        else:
            case.fail("where of a compound", "neither the holes nor the outline are offset")


def row(case):
    """Regions side by side whose outer edges continue each other: the bands of the regions end at the common edges."""
    rng = case.rng
    g, _ = gen.mods()
    n, h, x = rng.randint(2, 5), rng.uniform(0.5, 20), rng.uniform(-50, 50)
    y = rng.uniform(-50, 50)
    xs = [x]
    for _i in range(n):
        xs.append(xs[-1] + rng.uniform(0.5, 20))
    xs, y, h = [round(v, 6) for v in xs], round(y, 6), round(h, 6)
    a, q = round(rng.uniform(0.02, 0.4), 6), rng.choice([4, 8, 12, 20])
    ang = rng.choice([0, 0, 90])
    turn = lambda p: affinity.rotate(p, ang, origin=(0, 0))
    order = list(range(n))
    rng.shuffle(order)
    polys = {i: turn(box(xs[i], y, xs[i + 1], y + h)) for i in order}
    mats = {i: gen.material(rng, i) for i in order}
    c = g.CompoundGeometry([g.Geometry(polys[i], mats[i]) for i in order])
    case.info.update(xs=xs, y=y, h=h, amount=a, resolution=q, order=order, angle=ang)
    new = c.offset_perimeter(a, resolution=q)
    whole = turn(box(xs[0], y, xs[-1], y + h)).buffer(a, quad_segs=q)
    L = max(abs(v) for v in whole.bounds)
    eps = 1e-9 * L * L + 4 * L * 1e-11
    case.ensure("one region for each region", len(new.geoms) == n)
    for i, got in zip(order, new.geoms):
        left = xs[i] if i else xs[0] - 2 * a
        right = xs[i + 1] if i < n - 1 else xs[-1] + 2 * a
        want = whole & turn(box(left, y - 2 * a, right, y + h + 2 * a))
        case.ensure("the band ends at the common edges", got.geom.symmetric_difference(want).area <= eps,
                    f"region {i}: {got.geom.symmetric_difference(want).area}")
        case.ensure("material of the region", got.material == mats[i])
