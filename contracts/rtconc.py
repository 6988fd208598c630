"""Run-time contracts of the concrete, bridge and timber generators (bounded: random dimensions)."""
from __future__ import annotations

import math

import numpy as np
from shapely import Polygon, affinity, union_all

from rt import gen

from . import concspec
from . import libmodel as L

# AS 5100.5 appendix D: top flange, bottom flange and web widths; heights from the top down
I_GIRDERS = {
    1: (200, 300, 120, 100, 40, 420, 90, 100),
    2: (350, 450, 150, 100, 100, 450, 150, 100),
    3: (450, 500, 150, 130, 150, 545, 175, 150),
    4: (500, 650, 150, 150, 175, 650, 250, 175),
}
# depth below the flange soffit, bottom flange thickness, web thickness
SUPER_T = {1: (675, 240, 100), 2: (925, 240, 100), 3: (1125, 260, 100), 4: (1425, 260, 100), 5: (1725, 325, 120)}


def i_girder(dims):
    """Half widths going down from y = 0, mirrored."""
    btf, bbf, bw, htf, hts, hw, hbs, hbf = dims
    right, y = [(btf, 0)], 0
    for h, w in ((htf, btf), (hts, bw), (hw, bw), (hbs, bbf), (hbf, bbf)):
        y -= h
        right.append((w, y))
    right = [(w / 2, y) for w, y in right]
    return right + [(-x, y) for x, y in reversed(right)]


def super_t_chain(np, k, sub, w, t_w, t_f):
    """An open girder; the origin is on the axis at the soffit of the flanges."""
    d, t_b, nom = SUPER_T[k]
    t_w = nom if t_w is None else t_w
    web, flange, width = 10.556, 5.347 if sub == 2 else 5.0, 1027 if sub == 2 else 920
    hyp = np.sqrt(1 + web ** 2)
    lip = width / 2 - t_w * web / hyp + (t_f - 25) / web  # inner face of the web at the recess
    x = width / 2 - 75 / hyp  # the outer face below the fillet
    foot = x - d / web
    # the inner faces run down to where the bottom flange's top starts to fall to the axis
    y = ((t_f - 25) / web + (d - t_b) * flange - lip) / (1 / web - flange)
    right = [(lip, t_f - 25), (lip + 25, t_f - 25), (lip + 25, t_f), (w / 2, t_f), (w / 2, 13), (w / 2 - 13, 0), (width / 2 + 100, 0), (x, -75),
             (foot + 13 / web, -(d - 13)), (foot - 13, -d)]
    inner = (-flange * (d - t_b + y), y)
    return [*right, *((-a, b) for a, b in reversed(right)), inner, (0, -(d - t_b)), (-inner[0], y)]


# ------------------------------------------------------------------ bars
def ngon(x, y, area, n):
    r = math.sqrt(2 * area / (n * math.sin(2 * math.pi / n)))
    return Polygon([(x + r * math.cos(2 * math.pi * i / n), y + r * math.sin(2 * math.pi * i / n)) for i in range(n)])


def numeric(rows):
    out = []
    for r in rows:
        out += [tuple(float(c) for c in r.at(j)) for j in range(int(r.count))]
    return out


def region(plates):
    g = Polygon(plates[0][1])
    for s, p in plates[1:]:
        g = g - Polygon(p) if s < 0 else g | Polygon(p)
    return g


def reinforced(case, g, gross, bars, n, conc, steel):
    """bars: (x, y, area, dia). The section is the gross outline with the bars in place of the concrete."""
    from sectionproperties.pre.geometry import CompoundGeometry

    case.ensure("a compound", isinstance(g, CompoundGeometry))
    for r in g.geoms:
        case.ensure("valid regions", isinstance(r.geom, Polygon) and r.geom.is_valid and not r.geom.is_empty)
        case.ensure("materials", r.material is conc or r.material is steel)
    rods = [r for r in g.geoms if r.material is steel]
    rest = union_all([r.geom for r in g.geoms if r.material is conc])
    size = max(gross.bounds[2] - gross.bounds[0], gross.bounds[3] - gross.bounds[1])
    case.ensure("exactly the bars asked for", len(rods) == len(bars))
    if len(rods) != len(bars):
        return
    left = list(rods)
    for x, y, area, dia in bars:
        hit = min(left, key=lambda r: math.hypot(r.geom.centroid.x - x, r.geom.centroid.y - y))
        left.remove(hit)
        want = ngon(x, y, area, n)
        case.ensure("a bar at every place", hit.geom.symmetric_difference(want).area <= 1e-6 * area)
        case.ensure_eq("the area of a bar", hit.geom.area, area, rtol=1e-8)
    steel_u = union_all([r.geom for r in rods])
    case.ensure("no area twice", abs(sum(r.geom.area for r in g.geoms) - union_all([r.geom for r in g.geoms]).area) <= 1e-9 * size ** 2)
    case.ensure("concrete where there is no bar", rest.symmetric_difference(gross - steel_u).area <= 1e-9 * size ** 2)


def spread_out(bars, dia):
    """No two bars of the specification touch."""
    pts = np.array([b[:2] for b in bars])
    if len(pts) < 2:
        return True
    d = np.hypot(*(pts[:, None, :] - pts[None, :, :]).transpose(2, 0, 1)) + np.eye(len(pts)) * 1e9
    return bool(d.min() > 1.05 * dia)


def walls(case):
    rng = case.rng
    name = rng.choice(list(concspec.WALLS))
    w = concspec.WALLS[name]
    e = rng.uniform(0.03, 0.06)
    n = rng.randint(4, 9)
    dia = e * rng.uniform(0.2, 1)
    v = w.sample(rng, e)
    spacing = rng.uniform(0.15, 0.6) if rng.random() < 0.7 else rng.uniform(0.6, 6)
    double = rng.random() < 0.5
    case.note(generator=name, double=double, dims=dict(zip(w.names, v)), e=e, dia=dia, spacing=spacing, n=n)
    case.assume(all(bool(c) for c in w.conds(*v, e)))
    area = 0.7 * dia * dia
    gross = region(w.plates(*v))
    pts = numeric(w.rows(math, spacing, e, double, *v))
    bars = [(x, y, area, dia) for x, y in pts]
    # neighbours that come within a bar of each other are left to the symbolic check
    case.assume(len(bars) <= 250 and spread_out(bars, dia * 1.3))
    conc, steel = gen.material(rng, name="conc"), gen.material(rng, name="steel")
    f = getattr(L.library("concrete_sections"), name)
    g = f(**dict(zip(w.names, v)), dia_bar=dia, area_bar=area, spacing=spacing, cover=e - dia / 2, double=double, n_circle=n, conc_mat=conc, steel_mat=steel)
    reinforced(case, g, gross, bars, n, conc, steel)
    b = gross.boundary
    from shapely import Point

    near = [b.distance(Point(p)) for p in pts]
    case.ensure("every bar has the stated cover", min(near) >= e * (1 - 1e-6))


def beams(case):
    rng = case.rng
    tee = rng.random() < 0.5
    cs = rng.choice([0, rng.uniform(0.03, 0.06)])
    dia = {k: rng.uniform(0.012, 0.03) for k in ("top", "bot", "side")}
    c = {k: rng.uniform(0.02, 0.06) for k in ("top", "bot")}
    nt, nb, ns = rng.randint(1, 5), rng.randint(1, 5), rng.choice([0, 0, 1, 2, 3])
    if ns and not cs:
        cs = 0.04
    d, b = rng.uniform(0.5, 1.5), rng.uniform(0.5, 1)
    df, bf = d * rng.uniform(0.15, 0.4), b * rng.uniform(1, 3)
    ar = {k: 0.7 * q * q for k, q in dia.items()}
    n = rng.randint(4, 10)
    conc, steel = gen.material(rng, name="conc"), gen.material(rng, name="steel")
    kw = dict(d=d, b=b, dia_top=dia["top"], area_top=ar["top"], n_top=nt, c_top=c["top"], dia_bot=dia["bot"], area_bot=ar["bot"], n_bot=nb, c_bot=c["bot"], n_circle=n, c_side=cs)
    if ns:
        kw.update(dia_side=dia["side"], area_side=ar["side"], n_side=ns)
    if tee:
        kw.update(d_f=df, b_f=bf)
    case.note(tee=tee, kw=kw)
    plates = [(1, L.rect(0, 0, b, d))] if not tee else [(1, L.rect(-b / 2, 0, b / 2, d - df)), (1, L.rect(-bf / 2, d - df, bf / 2, d))]
    rows = concspec.beam_rows(d, bf if tee else b, b, dia["top"], nt, c["top"], dia["bot"], nb, c["bot"], dia["side"], ns, cs, bool(cs), bool(ns), 0 if tee else b / 2)
    bars = []
    for k, r in enumerate(rows):
        q = ("top", "bot", "side", "side")[k]
        bars += [(x, y, ar[q], dia[q]) for x, y in numeric([r])]
    case.assume(spread_out(bars, 1.3 * max(dia.values())))
    g = getattr(L.library("concrete_sections"), "concrete_tee_section" if tee else "concrete_rectangular_section")(**kw, conc_mat=conc, steel_mat=steel)
    reinforced(case, g, region(plates), bars, n, conc, steel)


def columns(case):
    rng = case.rng
    m = L.library("concrete_sections")
    conc, steel = gen.material(rng, name="conc"), gen.material(rng, name="steel")
    n = rng.randint(4, 10)
    dia, cover = rng.uniform(0.01, 0.03), rng.uniform(0.02, 0.06)
    area, e = 0.7 * dia * dia, cover + dia / 2
    if rng.random() < 0.4:
        d, nc, nb = rng.uniform(0.4, 1), rng.choice([16, 32]), rng.randint(2, 9)
        case.note(circular=dict(d=d, n_conc=nc, n_bar=nb, dia=dia, cover=cover, n=n))
        ac = math.pi * d * d / 4
        g = m.concrete_circular_section(d=d, area_conc=ac, n_conc=nc, dia_bar=dia, area_bar=area, n_bar=nb, cover=cover, n_circle=n, conc_mat=conc, steel_mat=steel)
        r = d / 2 - e
        bars = [(r * math.cos(2 * math.pi * i / nb), r * math.sin(2 * math.pi * i / nb), area, dia) for i in range(nb)]
        reinforced(case, g, ngon(0, 0, ac, nc), bars, n, conc, steel)
        try:
            m.concrete_circular_section(d=d, area_conc=ac, n_conc=nc, dia_bar=dia, area_bar=area, n_bar=rng.choice([0, 1]), cover=cover)
        except ValueError:
            return
        case.fail("fewer than two bars are refused")
    d, b, nx, ny, filled = rng.uniform(0.4, 1), rng.uniform(0.4, 1), rng.randint(2, 6), rng.randint(2, 6), rng.random() < 0.5
    case.note(column=dict(d=d, b=b, n_x=nx, n_y=ny, filled=filled, dia=dia, cover=cover, n=n))
    xs, ys = np.linspace(e, b - e, nx), np.linspace(e, d - e, ny)
    bars = [(x, y, area, dia) for i, x in enumerate(xs) for j, y in enumerate(ys) if filled or i in (0, nx - 1) or j in (0, ny - 1)]
    g = m.concrete_column_section(d=d, b=b, dia_bar=dia, area_bar=area, n_x=nx, n_y=ny, cover=cover, n_circle=n, filled=filled, conc_mat=conc, steel_mat=steel)
    reinforced(case, g, region([(1, L.rect(0, 0, b, d))]), bars, n, conc, steel)


def timber(case):
    rng = case.rng
    k = rng.randint(1, 9)
    d = [rng.choice([20, 35, 45, rng.uniform(5, 60)]) for _ in range(k)]
    b = rng.uniform(50, 1500)
    if rng.random() < 0.5:
        d = [rng.choice([20, 40]) for _ in d]
    mats = [gen.material(rng, j) for j in range(rng.randint(1, 3))]
    lm = [rng.choice(mats) for _ in d]
    case.note(d=d, b=b)
    g = L.library("timber_sections").clt_rectangular_section(d=d, layer_mat=lm, b=b)
    case.ensure("one region per layer", len(g.geoms) == k)
    top = 0.0
    for j, (r, t) in enumerate(zip(g.geoms, d)):
        want = Polygon(L.rect(0, top - t, b, top))
        case.ensure(f"layer {j} lies below the previous one", r.geom.is_valid and r.geom.symmetric_difference(want).area <= 1e-9 * b * sum(d))
        case.ensure("its material", r.material is lm[j])
        top -= t


def bridges(case):
    rng = case.rng
    m = L.library("bridge_sections")
    mat = gen.material(rng)
    if rng.random() < 0.3:
        k = rng.randint(-1, 6)
        case.note(i_girder=k)
        try:
            g = m.i_girder_section(girder_type=k, material=mat)
        except ValueError:
            case.ensure("types 1 to 4", k not in I_GIRDERS)
            return
        case.ensure("types 1 to 4", k in I_GIRDERS)
        want = Polygon(i_girder(I_GIRDERS[k]))
    else:
        k, sub = rng.randint(0, 6), rng.choice([1, 2, 2, 3])
        w, tf, tw = rng.uniform(1400, 2600), rng.uniform(60, 200), rng.choice([None, rng.uniform(90, 130)])
        case.note(super_t=dict(girder_type=k, girder_subtype=sub, w=w, t_f=tf, t_w=tw))
        ok = k in SUPER_T and sub in (1, 2) and not (k == 5 and sub == 1)
        try:
            g = m.super_t_girder_section(girder_type=k, girder_subtype=sub, w=w, t_f=tf, t_w=tw, material=mat)
        except ValueError:
            case.ensure("girder types", not ok)
            return
        case.ensure("girder types", ok)
        want = Polygon(super_t_chain(np, k, sub, w, tw, tf))
        case.ensure("a simple outline in the specification", want.is_valid)
        case.ensure_eq("extents", list(g.geom.bounds), [-w / 2, -SUPER_T[k][0], w / 2, tf])
    case.ensure("one valid region", isinstance(g.geom, Polygon) and g.geom.is_valid)
    case.ensure("the material given", g.material is mat)
    case.ensure("the documented outline", g.geom.symmetric_difference(want).area <= 1e-9 * want.area)
    flip = affinity.scale(g.geom, -1, 1, origin=(0, 0))
    case.ensure("symmetric", g.geom.symmetric_difference(flip).area <= 1e-9 * want.area)


def adding(case):
    """add_bar / add_bars on any region."""
    from sectionproperties.pre.geometry import Geometry

    rng = case.rng
    m = L.library("concrete_sections")
    conc, steel = gen.material(rng, name="conc"), gen.material(rng, name="steel")
    w, h = rng.uniform(2, 5), rng.uniform(2, 5)
    base = Polygon(L.rect(0, 0, w, h))
    g = Geometry(base, conc)
    n, k, r = rng.randint(4, 9), rng.randint(1, 4), 0.1
    area = 2 * r * r
    pts = [(rng.uniform(0.3, w - 0.3), rng.uniform(0.3, h - 0.3)) for _ in range(k)]
    bars = [(x, y, area, r) for x, y in pts]
    case.assume(spread_out(bars, 0.3))
    case.note(w=w, h=h, pts=pts, n=n)
    if rng.random() < 0.5:
        out = m.add_bars(geometry=g, area=area, material=steel, x=[p[0] for p in pts], y=[p[1] for p in pts], n=n)
    else:
        out = g
        for x, y in pts:
            out = m.add_bar(geometry=out, area=area, material=steel, x=x, y=y, n=n)
    reinforced(case, out, base, bars, n, conc, steel)


def refusals(case):
    """Openings that do not fit between the outer walls are refused, the ones that fit are not."""
    rng = case.rng
    m = L.library("concrete_sections")
    t1, t2, t3 = (rng.uniform(0.25, 0.4) for _ in range(3))
    a, a2, b = rng.uniform(0.5, 1.5), rng.uniform(0.5, 1), rng.uniform(1.5, 3)
    over = rng.choice([1e-9, 1e-6, 1e-3, 0.1, -1.0])  # (with nibs a metre in all)
    double = rng.random() < 0.5
    if rng.random() < 0.5:
        name, kw = "double_lift_core_a", dict(d=2 * t1 + 2 * a + a2 - over, b=b, t1=t1, t2=t2, a1=a, a2=a2)
    else:
        name, kw = "double_lift_core_b", dict(d=2 * t1 + t3 + 2 * a - over, b=b, t1=t1, t2=t2, t3=t3, a=a)
    case.note(generator=name, kw=kw, over=over)
    try:
        getattr(m, name)(**kw, dia_bar=0.02, area_bar=3e-4, spacing=0.3, cover=0.04, double=double)
        ok = True
    except ValueError:
        ok = False
    case.ensure("openings that do not fit are refused, others are not", ok == (over < 0))


RUNTIME = [("walls and cores", walls, 160, 1600), ("beams", beams, 150, 1500), ("columns", columns, 150, 1500), ("layered timber", timber, 200, 2000),
           ("bridge girders", bridges, 300, 2000), ("adding bars", adding, 100, 1000), ("refusals", refusals, 60, 600)]
