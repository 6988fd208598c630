"""Run-time contracts of C32 (bounded: random sections)."""
from __future__ import annotations

import copy
import dataclasses

import numpy as np

from rt import gen

from . import rtstress
from .rtsec import new, scales, wtol

P1 = ("ea ga e_eff g_eff qx qy ixx_g iyy_g ixy_g ixx_c iyy_c ixy_c i11_c i22_c zxx_plus zxx_minus zyy_plus zyy_minus "
      "z11_plus z11_minus z22_plus z22_minus j gamma a_sx a_sy a_sxy a_s11 a_s22 psi_shear phi_shear").split()
LEN = {  # power of the size of the section in each result (times the axial stiffness where weighted)
    "ixx": 2, "iyy": 2, "ixy": 2, "i11": 2, "i22": 2, "j": 2, "gamma": 4, "qx": 1, "qy": 1, "zxx": 1, "zyy": 1, "z11": 1,
    "z22": 1, "psi": 5, "phi_shear": 5}


def magnitude(q, x, o):
    """A scale for comparing the result q (size-homogeneous, so that near-zero values are not compared alone)."""
    s = scales(o)
    L, far = s["len"], s["far"]
    if q in ("cx", "cy"):
        return far
    if q in ("ixx_g", "iyy_g", "ixy_g"):
        return o.ea * far * far
    if q in ("qx", "qy"):
        return o.ea * far
    if q in ("ixx_c", "iyy_c", "ixy_c", "i11_c", "i22_c", "j"):
        return o.ea * L * L
    if q == "gamma":
        return o.ea * L**4
    if q in ("x_se", "y_se", "x11_se", "y22_se", "x_st", "y_st") or q.startswith("beta") or q in (
            "x_pc", "y_pc", "x11_pc", "y22_pc"):
        return max(L, far)
    if q == "phi":
        return 180.0
    if q == "omega":
        return L * L
    if q in ("psi_shear", "phi_shear"):
        return max(np.abs(x).max(), 1e-300)
    if q == "a_sxy":
        return None
    return None


def values(sec):
    return {k: v for k, v in vars(sec.section_props).items() if v is not None}


def same_results(case, o, got, want, power=None, k=1.0, tol=1e-9, label=""):
    case.ensure(label + "same results computed", set(got) == set(want), str(set(got) ^ set(want)))
    for q in want:
        if q in ("a_sxy",):
            continue  # the reciprocal of a quantity that may vanish: compared as a reciprocal
        f = k ** (power or {}).get(q, 0)
        x = np.asarray(want[q], float) * f
        s = magnitude(q, x, o)
        if s is not None and q not in ("psi_shear", "phi_shear"):
            s *= f
        case.ensure_eq(label + q, np.asarray(got[q], float), x, scale=s, rtol=tol)
    if "a_sxy" in want:
        f = k ** (power or {}).get("a_sxy", 0)
        case.ensure_eq(label + "1/a_sxy", 1 / got["a_sxy"], 1 / (want["a_sxy"] * f), scale=1 / (want["a_sx"] * f), rtol=tol)


def run(sec, warp, plastic):
    sec.calculate_geometric_properties()
    if warp:
        sec.calculate_warping_properties()
    if plastic:
        sec.calculate_plastic_properties()


def factor(case):
    """Every modulus k times as large."""
    from sectionproperties.analysis.section import Section

    rng = case.rng
    kind = rng.choice(["composite", "composite", "material", "same"])
    sec, o = new(case, kind)
    k = case.note(k=rng.choice([rng.uniform(0.01, 0.5), rng.uniform(2, 50), 1e3, 1e-3, 2.0, 1e-9, 1e-6, 1e9])) or case.info["k"]
    g = copy.deepcopy(sec.geometry)
    for q in getattr(g, "geoms", [g]):
        q.material = dataclasses.replace(q.material, elastic_modulus=q.material.elastic_modulus * k)
    g.mesh = sec.geometry.mesh
    d = __import__("sectionproperties.pre.pre", fromlist=["x"]).DEFAULT_MATERIAL
    if hasattr(g, "geoms") and any(q.material == d for q in sec.geometry.geoms + g.geoms) or not hasattr(g, "geoms") and g.material == d:
        pass  # a composite of the default and another material: both stay composite
    sec2 = Section(g)
    case.assume(sec.is_composite() and sec2.is_composite())
    warp, plastic = rng.random() < 0.8, rng.random() < 0.2
    run(sec, warp, plastic)
    run(sec2, warp, plastic)
    far = (scales(o)["far"] / scales(o)["len"]) ** 2
    tol = 1e-9 * max(1, far) + (1000 * wtol(o) if warp else 0)
    power = dict.fromkeys(P1, 1)
    power["delta_s"] = 2
    a, b = values(sec), values(sec2)
    if plastic:
        tol = max(tol, 1e-4)
    d = abs(sec.section_props.i11_c - sec.section_props.i22_c)
    if rng.random() < 0.5:
        # the frame analysis alone, on fresh sections
        f1, f2 = Section(sec.geometry).calculate_frame_properties(), Section(g).calculate_frame_properties()
        L = scales(o)["len"]
        for q, x, y, w in zip(("area", "ixx_c", "iyy_c", "ixy_c", "j", "phi"), f1, f2, (0, 1, 1, 1, 1, 0)):
            if q != "phi" or d > 1e-6 * sec.section_props.i11_c:
                case.ensure_eq("frame " + q, y, x * k**w, scale={"area": None, "phi": 180.0}.get(q, o.ea * L * L * k),
                               rtol=1e-9 * max(1, far) + 1000 * wtol(o))
    # a principal angle is not defined by equal principal values
    if abs(sec.section_props.i11_c - sec.section_props.i22_c) < 1e-6 * sec.section_props.i11_c:
        case.assume(False)
    same_results(case, o, b, a, power, k, tol)
    act = rtstress.actions(rng, o)
    if not warp:
        act.update(mzz=0.0, vx=0.0, vy=0.0)
    stresses(case, o, sec, sec2, act, tol)
    points(case, sec, sec2, act, tol)


def stresses(case, o, sec, sec2, act, tol):
    s1, s2 = sec.calculate_stress(**act).get_stress(), sec2.calculate_stress(**act).get_stress()
    case.ensure("as many materials", len(s1) == len(s2))
    for x, y in zip(s1, s2):
        top = max(np.abs(x[q]).max() for q in x if q != "material") or 1.0
        for q in x:
            if q != "material":
                case.ensure_eq("stress " + q, y[q], x[q], scale=top, rtol=max(tol, 1e-9) * 10)


def points(case, sec, sec2, act, tol):
    pts = [gen.mesh_point(sec, case.rng) for _ in range(3)]
    r1, r2 = sec.get_stress_at_points(pts, **act), sec2.get_stress_at_points(pts, **act)
    top = max([abs(v) for r in r1 if r is not None for v in r] or [1.0]) or 1.0
    for x, y in zip(r1, r2):
        case.ensure("found in both", (x is None) == (y is None))
        if x is not None:
            case.ensure_eq("point stress", np.array(y), np.array(x), scale=top, rtol=max(tol, 1e-9) * 100)


def undivided(sec, material):
    """The section of one region with the same outline and mesh."""
    import shapely

    from sectionproperties.analysis.section import Section
    from sectionproperties.pre.geometry import Geometry

    u = shapely.union_all([q.geom for q in sec.geometry.geoms])
    if u.geom_type != "Polygon":
        return None
    g = Geometry(u, material)
    m = dict(sec.geometry.mesh)
    m["triangle_attributes"] = np.zeros_like(m["triangle_attributes"])
    g.mesh = m
    return Section(g)


def divided(case, kind):
    sec, o = new(case, kind)
    return sec, o


def check_division(case, sec, o):
    rng = case.rng
    m = sec.geometry.geoms[0].material
    one = undivided(sec, m)
    case.assume(one is not None)
    case.ensure("kind of analysis", sec.is_composite() == one.is_composite())
    case.ensure("one material", len(sec.material_groups) == 1)
    warp, plastic = rng.random() < 0.7, rng.random() < 0.3
    run(sec, warp, plastic)
    run(one, warp, plastic)
    a, b = values(one), values(sec)
    tol = 1e-10 * max(1.0, (scales(o)["far"] / scales(o)["len"]) ** 2)
    # the outline of a union may be simplified by a rounding of its vertices
    per = a.pop("perimeter"), b.pop("perimeter")
    case.ensure_eq("perimeter", per[1], per[0], rtol=1e-6)
    pl = [q for q in a if "_pc" in q or q.startswith("s") and q[1:3] in ("xx", "yy", "11", "22") or q.startswith("sf_")]
    pa, pb = ({q: x[q] for q in pl} for x in (a, b))
    for q in pl:
        a.pop(q), b.pop(q)
    same_results(case, o, b, a, tol=tol)
    if plastic:
        same_results(case, o, pb, pa, tol=1e-4, label="plastic ")
    act = rtstress.actions(rng, o)
    if not warp:
        act.update(mzz=0.0, vx=0.0, vy=0.0)
    stresses(case, o, one, sec, act, tol)
    points(case, one, sec, act, tol)


def regions(case):
    sec, o = divided(case, case.rng.choice(["same", "equal", "regions"]))
    check_division(case, sec, o)


def strips(case):
    """A polygon cut by random lines into regions of one material."""
    import shapely
    from sectionproperties.analysis.section import Section
    from sectionproperties.pre.geometry import CompoundGeometry, Geometry

    rng = case.rng
    _, p = gen.mods()
    m = gen.material(rng) if rng.random() < 0.7 else p.DEFAULT_MATERIAL
    poly = gen.polygon(rng)
    parts = [poly]
    for _ in range(rng.randrange(1, 4)):
        x0, y0, x1, y1 = poly.bounds
        c = (rng.uniform(x0, x1), rng.uniform(y0, y1))
        a = rng.choice([0.0, 90.0, rng.uniform(0, 180)])
        d = 1e3
        q = (np.cos(np.radians(a)) * d, np.sin(np.radians(a)) * d)
        line = shapely.LineString([(c[0] - q[0], c[1] - q[1]), (c[0] + q[0], c[1] + q[1])])
        parts = [g for r in parts for g in shapely.ops.split(r, line).geoms]
    case.assume(1 < len(parts) < 14 and min(q.area for q in parts) > 1e-3 * poly.area)
    geom = CompoundGeometry([Geometry(q, m if rng.random() < 0.5 else copy.deepcopy(m)) for q in gen.noded(parts)])
    gen.mesh(rng, geom, 30)
    sec = Section(geom)
    o = gen.oracle(sec)
    case.info["geometry"] = gen.describe(sec.geometry)
    check_division(case, sec, o)
