"""Run-time contracts of the plastic analysis (bounded: random sections)."""
from __future__ import annotations

import copy

import numpy as np

from rt import gen

from .rtsec import new, scales


def special(rng):
    """Sections whose equal-area axis runs along an edge, through a gap, or through holes."""
    from sectionproperties.pre.geometry import CompoundGeometry, Geometry

    g, p = gen.mods()
    k = rng.randrange(6)
    w, h = rng.uniform(1, 4), rng.uniform(1, 4)
    a, b = (gen.material(rng, 0), gen.material(rng, 1)) if rng.random() < 0.6 else (p.DEFAULT_MATERIAL,) * 2
    if k == 0:  # equal halves, stacked
        polys = [gen.rect(w, h), gen.rect(w, h, 0, h)]
        geom = CompoundGeometry([Geometry(q, m) for q, m in zip(polys, (a, a))])
    elif k == 1:  # symmetric layers
        t = rng.uniform(0.2, 0.6)
        polys = [gen.rect(w, t), gen.rect(w, h, 0, t), gen.rect(w, t, 0, t + h)]
        geom = CompoundGeometry([Geometry(q, m) for q, m in zip(polys, (a, b, a))])
    elif k == 2:  # core of another material
        W, H = rng.uniform(3, 6), rng.uniform(3, 6)
        core = gen.rect(1.2, 1.4, rng.uniform(0.5, W - 2), rng.uniform(0.5, H - 2))
        geom = CompoundGeometry([Geometry(gen.rect(W, H).difference(core), a), Geometry(core, b)])
    elif k == 3:
        from sectionproperties.pre.library import i_section

        geom = i_section(d=rng.uniform(4, 8), b=rng.uniform(2, 4), t_f=0.5, t_w=0.3, r=0.4, n_r=4, material=a)
    elif k == 4:
        from sectionproperties.pre.library import rectangular_hollow_section

        geom = rectangular_hollow_section(d=rng.uniform(4, 8), b=rng.uniform(2, 4), t=0.4, r_out=0.8, n_r=3, material=a)
    else:
        from sectionproperties.pre.library import channel_section, angle_section

        geom = rng.choice([
            lambda: channel_section(d=rng.uniform(4, 8), b=rng.uniform(2, 4), t_f=0.5, t_w=0.3, r=0.4, n_r=3, material=a),
            lambda: angle_section(d=rng.uniform(4, 6), b=rng.uniform(3, 4), t=0.5, r_r=0.4, r_t=0.2, n_r=3, material=a)])()
    if rng.random() < 0.5:
        geom = geom.rotate_section(rng.choice([90, 180, 30, rng.uniform(-180, 180)]))
    if rng.random() < 0.5:
        geom = geom.shift_section(rng.uniform(-9, 9), rng.uniform(-9, 9))
    return geom


def rounded(geom):
    """Distance by which the internal shift to the centroid may be rounded."""
    return 10.0 ** (-min(x.tol for x in getattr(geom, "geoms", [geom]))) if hasattr(geom, "tol") else 1e-12


def check(case, sec, o, s):
    """The plastic results of sec against the definition, on the exact mesh of its regions."""
    p = sec.section_props
    c = np.array([o.cx, o.cy])
    total = (o.m.area * o.fy).sum()
    a = np.deg2rad(p.phi)
    dirs = {"x": (0.0, 1.0), "y": (1.0, 0.0), "11": (-np.sin(a), np.cos(a)), "22": (np.cos(a), np.sin(a))}
    pos = {"x": p.y_pc, "y": p.x_pc, "11": p.y22_pc, "22": p.x11_pc}
    mom = {"x": p.sxx, "y": p.syy, "11": p.s11, "22": p.s22}
    r0 = rounded(sec.geometry) + 1e-11 * s["far"]
    for k, n in dirs.items():
        t = pos[k] + float(np.dot(n, c))
        d = 4e-6 * (1 + abs(pos[k])) + r0
        eps = 1e-9 * total
        lo, hi = o.squash_below(*n, t - d), o.squash_below(*n, t + d)
        case.ensure(f"equal squash load about {k}", lo <= total / 2 + eps and hi >= total / 2 - eps,
                    f"squash load on the lower side {lo}..{hi} of {total}")
        _, m = o.plastic_axis(*n)
        case.ensure_eq(f"plastic moment about {k}", mom[k], m, rtol=1e-8 + 20 * d * d / s["len"] ** 2 + 5 * r0 / s["len"])
        _, below, tot = o.squash_below(*n, t, True)
    case.ensure_eq("get_pc", sec.get_pc(), (p.x_pc + o.cx, p.y_pc + o.cy), scale=s["far"], rtol=1e-9)
    px, py = sec.get_pc_p()
    case.ensure_eq("get_pc_p", ((px - o.cx) * np.cos(a) + (py - o.cy) * np.sin(a), (py - o.cy) * np.cos(a) - (px - o.cx) * np.sin(a)),
                   (p.x11_pc, p.y22_pc), scale=s["far"], rtol=1e-9)
    if o.composite:
        my = (p.my_xx, p.my_xx, p.my_yy, p.my_yy)
        myp = (p.my_11, p.my_11, p.my_22, p.my_22)
        case.ensure_eq("moments", sec.get_mp() + sec.get_mp_p(), (p.sxx, p.syy, p.s11, p.s22))
    else:
        my = (p.zxx_plus, p.zxx_minus, p.zyy_plus, p.zyy_minus)
        myp = (p.z11_plus, p.z11_minus, p.z22_plus, p.z22_minus)
        case.ensure_eq("moduli", sec.get_s() + sec.get_sp(), (p.sxx, p.syy, p.s11, p.s22))
    mp, mpp = (p.sxx, p.sxx, p.syy, p.syy), (p.s11, p.s11, p.s22, p.s22)
    case.ensure_eq("shape factors", sec.get_sf(), np.array(mp) / np.array(my))
    case.ensure_eq("principal shape factors", sec.get_sf_p(), np.array(mpp) / np.array(myp))


def plastic(case):
    from sectionproperties.analysis.section import Section

    if case.rng.random() < 0.45:
        geom = special(case.rng)
        gen.mesh(case.rng, geom, 30)
        sec = Section(geom)
        o = gen.oracle(sec)
        case.info["geometry"] = gen.describe(geom)
    else:
        sec, o = new(case)
    sec.calculate_geometric_properties()
    if case.rng.random() < 0.3:
        sec.calculate_plastic_properties()
    sec.calculate_plastic_properties()
    check(case, sec, o, scales(o))


def moved(case):
    """Plastic results do not depend on where the section is; moments about turned axes agree."""
    from sectionproperties.analysis.section import Section

    geom = gen.geometry(case.rng)
    gen.mesh(case.rng, geom, 12)
    case.info["geometry"] = gen.describe(geom)
    sec = Section(geom)
    sec.calculate_geometric_properties()
    sec.calculate_plastic_properties()
    dx, dy = case.rng.uniform(-40, 40), case.rng.uniform(-40, 40)
    g2 = geom.shift_section(dx, dy)
    gen.mesh(case.rng, g2, 12)
    s2 = Section(g2)
    s2.calculate_geometric_properties()
    s2.calculate_plastic_properties()
    p, q = sec.section_props, s2.section_props
    o = gen.oracle(sec)
    s = scales(o)
    for n in ("sxx", "syy"):
        case.ensure_eq(n, getattr(q, n), getattr(p, n), rtol=1e-7)
    m = gen.oracle(s2)
    check(case, s2, m, scales(m))
