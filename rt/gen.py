"""Random valid sections for the run-time contracts (every choice from the case's generator)."""
from __future__ import annotations

import math

import numpy as np
from shapely import Polygon, affinity


def mods():
    import sectionproperties.pre.geometry as g
    import sectionproperties.pre.pre as p

    return g, p


def material(rng, k=0, name=None):
    _, p = mods()
    return p.Material(
        name=name or f"mat{k}", elastic_modulus=rng.choice([1.0, 2.5, 30.0, 200.0]) * rng.uniform(0.7, 1.3),
        poissons_ratio=rng.uniform(0.0, 0.45), yield_strength=rng.uniform(0.5, 4.0), density=rng.uniform(0.3, 8.0),
        color=rng.choice(["r", "g", "b", "grey"]),
    )


def rect(w, h, x=0.0, y=0.0):
    return Polygon([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])


def convex(rng, n=None, r=3.0):
    n = n or rng.randint(3, 7)
    a = sorted(2 * math.pi * (k + rng.uniform(-0.3, 0.3)) / n for k in range(n))
    return Polygon([(r * rng.uniform(0.95, 1.05) * 1.3 * math.cos(t), r * math.sin(t)) for t in a]).convex_hull


def ell(rng):
    b, d, t, u = rng.uniform(3, 6), rng.uniform(3, 6), rng.uniform(0.6, 1.5), rng.uniform(0.6, 1.5)
    return Polygon([(0, 0), (b, 0), (b, t), (u, t), (u, d), (0, d)])


def tee(rng):
    b, d, t, u = rng.uniform(3, 6), rng.uniform(3, 6), rng.uniform(0.6, 1.5), rng.uniform(0.6, 1.2)
    o = rng.uniform(-0.4, 0.4) * (b - u) / 2
    c = b / 2 + o
    return Polygon([(c - u / 2, 0), (c + u / 2, 0), (c + u / 2, d), (b, d), (b, d + t), (0, d + t), (0, d), (c - u / 2, d)])


def zed(rng):
    b, d, t = rng.uniform(2, 4), rng.uniform(3, 6), rng.uniform(0.6, 1.0)
    return Polygon([(0, 0), (b, 0), (b, t), (t, t), (t, d + t), (t - b, d + t), (t - b, d), (0, d)])


def box_hole(rng):
    w, h = rng.uniform(4, 7), rng.uniform(4, 7)
    a, b = rng.uniform(0.3, 0.6) * w, rng.uniform(0.3, 0.6) * h
    x, y = rng.uniform(0.1, 0.9) * (w - a - 0.8) + 0.4, rng.uniform(0.1, 0.9) * (h - b - 0.8) + 0.4
    return rect(w, h).difference(rect(a, b, x, y))


def two_holes(rng):
    w, h = rng.uniform(7, 9), rng.uniform(4, 6)
    return rect(w, h).difference(rect(1.5, 1.2, 1.0, rng.uniform(0.8, 2.0))).difference(
        rect(1.2, 1.5, w - 3.0, rng.uniform(0.8, 2.0))
    )


def circle(rng):
    n = rng.randint(8, 14)
    r = rng.uniform(1.5, 3)
    p = rng.random()
    return Polygon([(r * math.cos(2 * math.pi * (k + p) / n), r * math.sin(2 * math.pi * (k + p) / n)) for k in range(n)])


def annulus(rng):
    n, r = 12, rng.uniform(2, 3)
    t = rng.uniform(0.5, 0.9)
    f = lambda q: [(q * math.cos(2 * math.pi * k / n), q * math.sin(2 * math.pi * k / n)) for k in range(n)]
    return Polygon(f(r), [f(r - t)])


POLYS = [
    lambda r: rect(r.uniform(2, 6), r.uniform(2, 6)), convex, ell, tee, zed, box_hole, two_holes, circle, annulus,
    lambda r: Polygon([(0, 0), (r.uniform(2, 5), 0), (r.uniform(0, 4), r.uniform(2, 5))]),
]


def polygon(rng, solid=False):
    while True:
        p = rng.choice(POLYS)(rng)
        if p.is_valid and p.geom_type == "Polygon" and p.area > 0.5 and not (solid and p.interiors):
            return p


def place(rng, p, move=True):
    """Random rotation and shift."""
    if not move:
        return p
    if rng.random() < 0.7:
        p = affinity.rotate(p, rng.choice([30, 45, 90, rng.uniform(-180, 180)]), origin=(0, 0))
    if rng.random() < 0.7:
        p = affinity.translate(p, rng.uniform(-20, 20), rng.uniform(-20, 20))
    return p


def single(rng, mat=None, move=True, solid=False):
    g, p = mods()
    return g.Geometry(place(rng, polygon(rng, solid), move), mat if mat is not None else p.DEFAULT_MATERIAL)


def compound_polys(rng):
    """Two to four connected, non-overlapping regions."""
    kind = rng.randrange(6)
    if kind == 0:  # core in an outer shape
        w, h = rng.uniform(4, 7), rng.uniform(4, 7)
        inner = rect(rng.uniform(1, 2.2), rng.uniform(1, 2.2), rng.uniform(0.6, 1.4), rng.uniform(0.6, 1.4))
        return [rect(w, h).difference(inner), inner]
    if kind == 1:  # side by side, sharing a full edge
        h = rng.uniform(2, 5)
        a, b = rng.uniform(1.5, 4), rng.uniform(1.5, 4)
        return [rect(a, h), rect(b, h, a, 0)]
    if kind == 2:  # stacked, sharing part of an edge, three layers
        out, y = [], 0.0
        for _ in range(3):
            w, h = rng.uniform(2, 5), rng.uniform(0.8, 2)
            out.append(rect(w, h, rng.uniform(-0.5, 0.5), y))
            y += h
        return out
    if kind == 3:  # two cores
        w = rng.uniform(7, 9)
        c1, c2 = rect(1.3, 1.1, 1.0, 1.0), rect(1.0, 1.6, w - 2.4, 0.8)
        return [rect(w, 4.0).difference(c1).difference(c2), c1, c2]
    if kind == 4:  # a tube with a filled interior, open gap left in one corner
        o, i, v = rect(6, 5), rect(4.4, 3.4, 0.8, 0.8), rect(1.2, 1.0, 1.6, 1.5)
        return [o.difference(i), i.difference(v)]
    a = rng.uniform(2, 4)  # wedge plus block
    return [Polygon([(0, 0), (a, 0), (a, 3)]), rect(2.0, 3.0, a, 0)]


def noded(polys):
    """Inserts into every ring the vertices of the other rings that lie on its edges."""
    pts = sorted({q for p in polys for r in [p.exterior, *p.interiors] for q in r.coords[:-1]})

    def ring(c):
        out = []
        c = list(c.coords)
        for (x0, y0), (x1, y1) in zip(c, c[1:]):
            out.append((x0, y0))
            dx, dy = x1 - x0, y1 - y0
            on = []
            for x, y in pts:
                t = ((x - x0) * dx + (y - y0) * dy) / (dx * dx + dy * dy)
                off = abs((x - x0) * dy - (y - y0) * dx) / math.hypot(dx, dy)
                if off < 1e-9 and 1e-9 < t < 1 - 1e-9:
                    on.append((t, (x, y)))
            out += [q for _, q in sorted(on)]
        return out

    return [Polygon(ring(p.exterior), [ring(i) for i in p.interiors]) for p in polys]


def compound(rng, mats="random", move=True):
    """mats: 'random', 'default', 'same', or 'equal' (equal but not identical materials)."""
    g, p = mods()
    polys = noded(compound_polys(rng))
    if move:
        ang = rng.choice([0, 0, 90, rng.uniform(-180, 180)])
        dx, dy = rng.uniform(-20, 20), rng.uniform(-20, 20)
        polys = [affinity.translate(affinity.rotate(q, ang, origin=(0, 0)), dx, dy) for q in polys]
        if any(not q.is_valid for q in polys):
            return compound(rng, mats, move)
    n = len(polys)
    if mats == "random":
        ms = [material(rng, k) for k in range(n)]
        r = rng.random()
        if r < 0.25 and n > 2:
            ms[-1] = ms[0]
        elif r < 0.4:
            ms[rng.randrange(n)] = p.DEFAULT_MATERIAL
    elif mats == "default":
        ms = [p.DEFAULT_MATERIAL] * n
    elif mats == "same":
        m = material(rng)
        ms = [m] * n
    else:
        import copy

        m = material(rng)
        ms = [copy.deepcopy(m) for _ in range(n)]
    # rotated polygons: snap shared vertices together by rounding (as the library does)
    gs = [g.Geometry(q, m, tol=9) for q, m in zip(polys, ms)]
    return g.CompoundGeometry(gs)


def mesh(rng, geom, target=None):
    """Meshes the geometry with roughly `target` elements per unit of its area."""
    target = target or rng.choice([10, 25, 45])
    area = sum(q.geom.area for q in (geom.geoms if hasattr(geom, "geoms") else [geom]))
    geom.create_mesh(mesh_sizes=[area / target])
    return geom


def resize(rng, geom):
    """Sometimes the same section in other units (metres, millimetres)."""
    if rng.random() < 0.75:
        return geom
    s = rng.choice([1e-3, 1e-2, 100.0, 1000.0])
    g, _ = mods()
    one = lambda q: g.Geometry(affinity.scale(q.geom, s, s, origin=(0, 0)), q.material)
    return g.CompoundGeometry([one(q) for q in geom.geoms]) if hasattr(geom, "geoms") else one(geom)


def geometry(rng, kind=None):
    return resize(rng, geometry_of_unit_size(rng, kind))


def geometry_of_unit_size(rng, kind=None):
    """kind: geometric (single, default), material (single, own material), composite, regions (default)."""
    kind = kind or rng.choice(["geometric", "geometric", "material", "composite", "composite", "regions"])
    if kind == "geometric":
        return single(rng)
    if kind == "material":
        return single(rng, material(rng))
    if kind == "composite":
        return compound(rng)
    if kind == "same":
        return compound(rng, "same")
    if kind == "equal":
        return compound(rng, "equal")
    if kind != "regions":
        raise KeyError(kind)
    return compound(rng, "default")


def section(rng, kind=None, target=None):
    from sectionproperties.analysis.section import Section

    geom = mesh(rng, geometry(rng, kind), target)
    return Section(geom, time_info=rng.random() < 0.1)


def oracle(sec):
    from .oracle import Model

    return Model(sec.geometry)


def describe(geom):
    gs = list(geom.geoms) if hasattr(geom, "geoms") else [geom]
    return [
        {"polygon": q.geom.wkt[:600], "material": (q.material.name, q.material.elastic_modulus, q.material.poissons_ratio,
                                                   q.material.yield_strength, q.material.density)}
        for q in gs
    ]


def mesh_point(sec, rng):
    """A point inside a random element."""
    e = rng.choice(sec.elements)
    a, b, c = (np.array(e.coords[:, i]) for i in range(3))
    u, v = sorted((rng.uniform(0.1, 0.9), rng.uniform(0.1, 0.9)))
    p = a * u + b * (v - u) + c * (1 - v)
    return float(p[0]), float(p[1])
