"""Run-time contracts of the section library (bounded: random dimensions)."""
from __future__ import annotations

import math

import numpy as np
from shapely import Polygon

from rt import gen

from . import libmodel as L
from . import libspec

CURVES = {
    "circular_section": (lambda r: dict(d=r.uniform(0.1, 9)), lambda d: [(d, d)], "primitive_sections"),
    "elliptical_section": (lambda r: dict(d_x=r.uniform(0.1, 9), d_y=r.uniform(0.1, 9)), lambda d_x, d_y: [(d_x, d_y)], "primitive_sections"),
    "circular_hollow_section": (lambda r: (lambda d: dict(d=d, t=d * r.uniform(0.01, 0.48)))(r.uniform(0.5, 9)),
                                lambda d, t: [(d, d), (d - 2 * t, d - 2 * t)], "steel_sections"),
    "elliptical_hollow_section": (lambda r: (lambda a, b: dict(d_x=a, d_y=b, t=min(a, b) * r.uniform(0.01, 0.1)))(r.uniform(2, 9), r.uniform(2, 9)),
                                  lambda d_x, d_y, t: [(d_x, d_y), (d_x - 2 * t, d_y - 2 * t)], "steel_sections"),
}


def pick(case, names):
    n = case.rng.choice(names)
    case.note(generator=n)
    return n


def ring_moments(pts):
    return {k: float(v) for k, v in L.moments(np, [tuple(p) for p in pts]).items()}


def region(case, g, mat):
    from sectionproperties.pre.geometry import Geometry

    case.ensure("one region", type(g) is Geometry and isinstance(g.geom, Polygon))
    case.ensure("a valid polygon", g.geom.is_valid and not g.geom.is_empty)
    case.ensure("the material given", g.material is mat)
    case.ensure("one control point inside", len(g.control_points) == 1)
    return [list(r.coords)[:-1] for r in (g.geom.exterior, *g.geom.interiors)]


def same(case, name, got, want, scale):
    power = {"area": 2, "qx": 3, "qy": 3}
    s = -1 if got["area"] * want["area"] < 0 else 1
    for k in L.POWERS:
        case.ensure_eq(f"{name} {k}", s * got[k], want[k], scale=scale ** power.get(k, 4), rtol=1e-9)


def dimensions(case):
    rng = case.rng
    mat = gen.material(rng)
    names = [*libspec.SPECS, *CURVES, "circular_section_by_area", "polygon_hollow_section"]
    name = pick(case, names)
    if name in CURVES:
        draw, axes, mod = CURVES[name]
        n = rng.choice([3, 4, 5, 8, 16, 33])
        if "hollow" in name:
            n = max(n, 16)
        d = draw(rng)
        case.note(dims=dict(d, n=n))
        rings = region(case, getattr(L.library(mod), name)(**d, n=n, material=mat), mat)
        want = axes(**d)
        case.ensure("openings", len(rings) == len(want))
        scale = max(d.values())
        for k, (r, (a, b)) in enumerate(zip(rings, want)):
            pts = [(a / 2 * math.cos(2 * math.pi * i / n), b / 2 * math.sin(2 * math.pi * i / n)) for i in range(n)]
            same(case, f"ring {k}", ring_moments(r), ring_moments(pts), scale)
        return
    if name == "circular_section_by_area":
        n, area = rng.choice([3, 4, 5, 7, 12, 40]), 10 ** rng.uniform(-2, 3)
        case.note(dims=dict(n=n, area=area))
        rings = region(case, L.library("primitive_sections").circular_section_by_area(area=area, n=n, material=mat), mat)
        case.ensure("solid", len(rings) == 1 and len(rings[0]) == n)
        m = ring_moments(rings[0])
        case.ensure_eq("area", abs(m["area"]), area, rtol=1e-9)
        case.ensure_eq("centred", [m["qx"], m["qy"]], [0, 0], scale=area ** 1.5, rtol=1e-9)
        return
    if name == "polygon_hollow_section":
        ns, n, rot = rng.randint(3, 10), rng.choice([2, 3, 8]), rng.choice([0, rng.uniform(-180, 180)])
        d = rng.uniform(2, 9)
        a = d / 2 * math.cos(math.pi / ns)
        t = a * rng.uniform(0.02, 0.6)
        r = rng.choice([0, rng.uniform(0.05, 0.9) * (a - t), 1.3 * (a - t)])
        case.note(dims=dict(d=d, t=t, n_sides=ns, r_in=r, n_r=n, rot=rot))
        rings = region(case, L.library("steel_sections").polygon_hollow_section(d=d, t=t, n_sides=ns, r_in=r, n_r=n, rot=rot, material=mat), mat)
        case.ensure("openings", len(rings) == 2)
        r = min(r, a - t)
        for k, (ap, rr) in enumerate(((a, r + t if r else 0), (a - t, r))):
            pts = []
            for i in range(ns):
                f = 2 * math.pi * i / ns + math.radians(rot)
                for j in range(n if rr else 1):
                    w = 2 * math.pi / ns * j / max(1, n - 1)
                    x, y = (ap - rr) * math.tan(math.pi / ns) + rr * math.sin(w), -(ap - rr) - rr * math.cos(w)
                    pts.append((x * math.cos(f) - y * math.sin(f), x * math.sin(f) + y * math.cos(f)))
            same(case, f"ring {k}", ring_moments(rings[k]), ring_moments(pts), d)
        return
    sp, dims, kw, n = draw_dims(case, name)
    g = getattr(L.library(sp.mod), name)(**kw, material=mat)
    rings = region(case, g, mat)
    want, bounds = sp.build(np, **dims)
    case.ensure("openings", len(rings) == len(want))
    scale = max(bounds[2] - bounds[0], bounds[3] - bounds[1])
    for k, (r, pieces) in enumerate(zip(rings, want)):
        w = L.total(np, [(s, L.chords(np, c, n)) for s, c in pieces])
        same(case, f"ring {k}", ring_moments(r), {q: float(v) for q, v in w.items()}, scale)
    case.ensure_eq("extents", list(g.geom.bounds), [float(b) for b in bounds], scale=scale, rtol=1e-9)
    # default material
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    g2 = getattr(L.library(sp.mod), name)(**kw)
    case.ensure("the default material", g2.material == DEFAULT_MATERIAL and g2.geom.equals(g.geom))


def draw_dims(case, name):
    rng = case.rng
    sp = libspec.SPECS[name]
    variant = rng.choice(sp.variants)
    dims = sp.sample(rng, variant) if len(sp.variants) > 1 else sp.sample(rng)
    n = rng.choice([2, 3, 4, 8, 16])
    kw = dict(dims, n_r=n) if "n_r" in sp.names else dict(dims)
    case.note(dims=kw)
    return sp, dims, kw, n


def refinement(case):
    """More points on the arcs: the area moves monotonically towards that of the true arcs."""
    rng = case.rng
    name = pick(case, [n for n, s in libspec.SPECS.items() if "n_r" in s.names])
    sp, dims, kw, _ = draw_dims(case, name)
    f = getattr(L.library(sp.mod), name)
    want, _ = sp.build(np, **dims)
    true = sum((1 if k == 0 else -1) * float(L.total(np, p)["area"]) for k, p in enumerate(want))
    ns = [8, 16, 32, 64]
    err = [abs(f(**dict(kw, n_r=n)).geom.area - true) for n in ns]
    floor = 1e-9 * true
    for a, b, p, q in zip(err, err[1:], ns, ns[1:]):
        case.ensure("refinement brings the arcs closer", b <= a * ((p - 1) / (q - 1)) ** 2 * 1.05 + floor)


# ------------------------------------------------------------------ Nastran
def simple(pieces):
    """A signed sum of polygons as a shapely region."""
    from shapely import union_all

    return union_all([Polygon(c) for _, c in pieces])


def spec_regions(spec, key="rings"):
    out = []
    for rings in spec["regions"] if "regions" in spec else [spec[key]]:
        p = simple(rings[0])
        for h in rings[1:]:
            p = p - simple(h)
        out.append(p)
    return out


def nastran(case):
    from shapely import Point, affinity
    from sectionproperties.pre.geometry import CompoundGeometry

    from . import nasspec

    rng = case.rng
    mod = L.library("nastran_sections")
    mat = gen.material(rng)
    rounds = ["nastran_rod", "nastran_tube", "nastran_tube2"]
    name = pick(case, [*nasspec.NASTRAN, *rounds])
    if name in rounds:
        R, n = rng.uniform(0.2, 4), rng.choice([3, 4, 5, 8, 17, 40])
        k = R * rng.uniform(0.05, 0.95)
        if n < 16:  # the inner circle stays inside the outer polygon
            k = {"nastran_rod": k, "nastran_tube": R * rng.uniform(0.05, 0.4), "nastran_tube2": R * rng.uniform(0.6, 0.95)}[name]
        d = dict(dim_1=R, n=n) if name == "nastran_rod" else dict(dim_1=R, dim_2=k, n=n)
        case.note(dims=d)
        g = getattr(mod, name)(**d, material=mat)
        rings = region(case, g, mat)
        radii = {"nastran_rod": [R], "nastran_tube": [R, k], "nastran_tube2": [R, R - k]}[name]
        case.ensure("openings", len(rings) == len(radii))
        for j, (r, a) in enumerate(zip(rings, radii)):
            pts = [(a * math.cos(2 * math.pi * i / n), a * math.sin(2 * math.pi * i / n)) for i in range(n)]
            same(case, f"ring {j}", ring_moments(r), ring_moments(pts), R)
        case.ensure_eq("recovery points", [list(p) for p in g.recovery_points], [[0, R], [R, 0], [0, -R], [-R, 0]], scale=R)
        return
    sp = nasspec.NASTRAN[name]
    dims = sp.sample(rng)
    case.note(dims=dims)
    case.assume(all(sp.conds(*dims)))  # (the flanges of FCROSS must not overlap)
    g = getattr(mod, name)(**dict(zip(sp.names, dims)), material=mat)
    spec = sp.build(*dims)
    (ox, oy), (rx, ry) = spec["origin"], spec["ref"]
    regions = list(g.geoms) if isinstance(g, CompoundGeometry) else [g]
    want = spec_regions(spec)
    size = max(max(p.bounds[2] - p.bounds[0], p.bounds[3] - p.bounds[1]) for p in want)
    case.ensure("number of regions", len(regions) == len(want))
    for r in regions:
        case.ensure("a valid region", isinstance(r.geom, Polygon) and r.geom.is_valid and not r.geom.is_empty)
        case.ensure("the material given", r.material is mat)

    def close(ws):
        return all(r.geom.symmetric_difference(w).area <= 1e-9 * size ** 2 for r, w in zip(regions, ws))

    at = lambda ws, dx, dy: [affinity.translate(w, dx, dy) for w in ws]
    built, documented = close(want), close(at(want, -ox, -oy))
    if "swapped" in spec:
        other = spec_regions(spec, "swapped")
        b2, d2 = close(other), close(at(other, -ox, -oy))
        if (b2 or d2) and not (built or documented):
            case.finding("C29-box1", "side walls swapped", "nastran_box1: dim_5 is documented as the left wall and is built as the right one (and dim_6 the other way round)")
            built, documented, want = b2, d2, other
    case.ensure("the documented plates", built or documented)
    if not documented:
        case.finding("C29-origin", "documented origin", "most nastran_* sections are not placed with the documented point at the origin")
    off = (rx, ry) if built else (rx - ox, ry - oy)
    rec = [(p[0] + off[0], p[1] + off[1]) for p in g.recovery_points]
    ref = spec["rec"] if built else [(p[0] - ox, p[1] - oy) for p in spec["rec"]]
    case.ensure_eq("recovery points", [list(p) for p in rec], [list(p) for p in ref], scale=size, rtol=1e-9)
    outline = simple([(1, list(w.exterior.coords)[:-1]) for w in (want if built else at(want, -ox, -oy))]).boundary
    for p in rec:
        case.ensure("recovery points on the outline", outline.distance(Point(p)) <= 1e-9 * size)


def nastran_refused(case):
    from . import nasspec

    rng = case.rng
    mod = L.library("nastran_sections")
    name = pick(case, [n for n in nasspec.NASTRAN if n != "nastran_bar"] + ["nastran_tube", "nastran_tube2"])
    if name.startswith("nastran_tube"):
        R = rng.uniform(0.2, 4)
        k = R * rng.choice([1, rng.uniform(0.3, 2)])
        d, bad = dict(dim_1=R, dim_2=k, n=16), not k < R
        case.assume(bad or 0.2 < k / R < 0.8)
    else:
        sp = nasspec.NASTRAN[name]
        whole = rng.random() < 0.6  # equalities among the conditions come up often
        dims = [rng.choice([0.25, 0.5, 0.75, 1, 1.5, 2, 4]) * (1 if whole else rng.choice([1, 1, rng.uniform(0.5, 2)])) for _ in sp.names]
        conds = sp.conds(*dims)
        bad = not all(conds)
        d = dict(zip(sp.names, dims))
    case.note(dims=d)
    try:
        getattr(mod, name)(**d)
        ok = True
    except ValueError:
        ok = False
    case.ensure("refused if and only if the section cannot have these dimensions", ok == (not bad))
