"""Run-time contracts of the stress analysis on random sections and loads."""
from __future__ import annotations

import copy

import numpy as np

from rt import gen

from .rtsec import new, rebuild, scales, wtol

COMP = ["zz_n", "zz_mxx", "zz_myy", "zz_m11", "zz_m22", "zx_mzz", "zy_mzz", "zx_vx", "zy_vx", "zx_vy", "zy_vy"]
ACTS = ["n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy"]
NAMED = ["sig_" + c for c in COMP] + [
    "sig_zz_m", "sig_zxy_mzz", "sig_zxy_vx", "sig_zxy_vy", "sig_zx_v", "sig_zy_v", "sig_zxy_v", "sig_zz", "sig_zx",
    "sig_zy", "sig_zxy", "sig_11", "sig_33", "sig_vm"]


def actions(rng, o, zero=0.2):
    """Random actions giving stresses of comparable size."""
    L, a = o.size, o.area
    k = {"n": a, "vx": a, "vy": a, "mzz": a * L, "mxx": a * L, "myy": a * L, "m11": a * L, "m22": a * L}
    act = {n: (0.0 if rng.random() < zero else rng.uniform(-2, 2) * k[n]) for n in ACTS}
    if rng.random() < 0.15:  # actions that cancel in a sum, or are equal
        v = rng.choice([1.0, -3.0, a])
        act.update(vx=v, vy=rng.choice([-v, v]), mzz=0.0)
    return act


def analysed(case, kind=None, warp=None):
    sec, o = new(case, kind)
    sec.calculate_geometric_properties()
    warp = case.rng.random() < 0.85 if warp is None else warp
    if warp:
        sec.calculate_warping_properties()
        o.warping()
    act = actions(case.rng, o)
    if not warp:
        act.update(mzz=0.0, vx=0.0, vy=0.0)
    case.info["actions"] = act
    return sec, o, act, warp


def groups_checked(case, sec, groups):
    """The groups are a partition of the elements by equality of material."""
    seen = {}
    for k, g in enumerate(groups):
        case.ensure("one id per element", len(g.elements) == len(g.el_ids))
        for e, i in zip(g.elements, g.el_ids):
            case.ensure("element in one group", i not in seen, f"element {i} in groups {seen.get(i)} and {k}")
            seen[i] = k
            case.ensure("element under its own id", e.el_id == i and sec.elements[i].el_id == i)
            case.ensure("element's own material", e.material == g.material and sec.elements[i].material == g.material)
        for h in groups[:k]:
            case.ensure("equal materials merged", h.material != g.material, str(g.material))
    case.ensure("every element in a group", len(seen) == len(sec.elements), f"{len(seen)} of {len(sec.elements)}")


def strips(case):
    """A stack of strips with materials drawn from a few equal classes (equal or identical objects)."""
    from shapely import Polygon

    from sectionproperties.analysis.section import Section

    g, p = gen.mods()
    rng = case.rng
    n = rng.randrange(2, 6)
    classes = [gen.material(rng, k) for k in range(rng.randrange(1, n + 1))]
    if len(classes) > 1 and rng.random() < 0.5:  # differ in one number only
        classes[1] = copy.copy(classes[0])
        f = rng.choice(["yield_strength", "density", "name", "color", "poissons_ratio", "elastic_modulus"])
        kw = {k: getattr(classes[0], k) for k in ("name", "elastic_modulus", "poissons_ratio", "yield_strength", "density", "color")}
        kw[f] = {"name": "other", "color": "red" if kw["color"] != "red" else "blue"}.get(f) or kw[f] * 0.5 + 0.01
        classes[1] = p.Material(**kw)
    if rng.random() < 0.25:
        classes[0] = p.DEFAULT_MATERIAL
    idx = [rng.randrange(len(classes)) for _ in range(n)]
    ms = [classes[i] if rng.random() < 0.5 else copy.deepcopy(classes[i]) for i in idx]
    y, gs = 0.0, []
    for m in ms:
        h = rng.uniform(0.5, 1.2)
        gs.append(g.Geometry(Polygon([(0, y), (2.5, y), (2.5, y + h), (0, y + h)]), m))
        y += h
    case.info["materials"] = idx
    comp = g.CompoundGeometry(gs)
    comp.create_mesh(mesh_sizes=[0.0] if rng.random() < 0.5 else [0.4])
    return Section(comp)


def partition(case):
    if case.rng.random() < 0.7:
        sec = strips(case)
        o = gen.oracle(sec)
    else:
        sec, o = new(case)
    groups_checked(case, sec, sec.material_groups)
    sec.calculate_geometric_properties()
    act = actions(case.rng, o)
    act.update(mzz=0.0, vx=0.0, vy=0.0)
    st = sec.calculate_stress(**act)
    groups_checked(case, sec, st.material_groups)
    compare(case, sec, o, st, act, False)


def compare(case, sec, o, st, act, warp, tol=1e-8):
    s = scales(o)
    t = tol * max(1.0, (s["far"] / s["len"]) ** 2)
    vals = o.element_nodal_stress(act, sec.section_props.phi, warp)
    classes = o.material_classes()
    present = [(m, k) for m, k in classes if k.any()]
    case.ensure("one result per material", len(st.material_groups) == len(present),
                f"{len(st.material_groups)} results for {len(present)} materials")
    out = st.get_stress()
    case.ensure("one entry per result", len(out) == len(st.material_groups))
    for g, d in zip(st.material_groups, out):
        mask = next((k for m, k in present if m == g.material), None)
        if mask is None:
            case.fail("material of the result", f"{g.material} is no material of the section")
            continue
        case.ensure("name of the material", d["material"] == g.material.name)
        case.ensure("names", set(d) == set(NAMED) | {"material"}, str(set(d) ^ (set(NAMED) | {"material"})))
        want = {}
        for c in COMP:
            want["sig_" + c] = o.nodal_average(vals[c], mask)
            sc = max(np.abs(vals[c]).max(), 1e-12)
            case.ensure_eq("sig_" + c, d["sig_" + c], want["sig_" + c], scale=sc, rtol=100 * t)
        combined(case, d, tol=1e-9)
        for k in NAMED:
            case.ensure("same array " + k, np.array_equal(d[k], getattr(g.stress_result, k)))


def combined(case, d, tol=1e-9):
    """The combined results from the components, at every node (independent formulas)."""
    g = lambda k: np.asarray(d["sig_" + k])
    sc = max(max(np.abs(g(c)).max() for c in COMP), 1e-12)
    e = lambda k, w: case.ensure_eq("combined " + k, g(k), w, scale=sc, rtol=tol)
    e("zz_m", g("zz_mxx") + g("zz_myy") + g("zz_m11") + g("zz_m22"))
    e("zz", g("zz_n") + g("zz_mxx") + g("zz_myy") + g("zz_m11") + g("zz_m22"))
    for c in "xy":
        e(f"z{c}_v", g(f"z{c}_vx") + g(f"z{c}_vy"))
        e(f"z{c}", g(f"z{c}_mzz") + g(f"z{c}_vx") + g(f"z{c}_vy"))
    for k in ("mzz", "vx", "vy", "v"):
        e("zxy_" + k, np.hypot(g("zx_" + k), g("zy_" + k)))
    e("zxy", np.hypot(g("zx"), g("zy")))
    n = len(g("zz"))
    T = np.zeros((n, 3, 3))
    T[:, 2, 2] = g("zz")
    T[:, 0, 2] = T[:, 2, 0] = g("zx")
    T[:, 1, 2] = T[:, 2, 1] = g("zy")
    w = np.linalg.eigvalsh(T)
    e("33", w[:, 0])
    e("11", w[:, 2])
    dev = T - np.trace(T, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
    case.ensure_eq("combined vm", g("vm"), np.sqrt(1.5 * (dev**2).sum((1, 2))), scale=sc, rtol=tol)


def averages(case):
    sec, o, act, warp = analysed(case)
    st = sec.calculate_stress(**act)
    compare(case, sec, o, st, act, warp, 10 * wtol(o))
    for g in sec.material_groups:
        for c in COMP:
            case.ensure("the section's own result is untouched", not np.any(getattr(g.stress_result, "sig_" + c)))


def superposition(case):
    sec, o, a, warp = analysed(case)
    b = actions(case.rng, o)
    if not warp:
        b.update(mzz=0.0, vx=0.0, vy=0.0)
    p, q = case.rng.uniform(-2, 2), case.rng.uniform(-2, 2)
    ra, rb = sec.calculate_stress(**a), sec.calculate_stress(**b)
    rc = sec.calculate_stress(**{k: p * a[k] + q * b[k] for k in ACTS})
    rs = {}
    for k in ACTS:
        rs[k] = sec.calculate_stress(**{k: a[k]})
    for i, (x, y, z) in enumerate(zip(ra.material_groups, rb.material_groups, rc.material_groups)):
        fx, fy, fz = x.stress_result, y.stress_result, z.stress_result
        for c in ["sig_" + c for c in COMP] + ["sig_zz_m", "sig_zz", "sig_zx_v", "sig_zy_v", "sig_zx", "sig_zy"]:
            u, v, w = getattr(fx, c), getattr(fy, c), getattr(fz, c)
            sc = max(np.abs(u).max(), np.abs(v).max(), 1e-12)
            case.ensure_eq("linear " + c, w, p * u + q * v, scale=sc, rtol=1e-9)
        for c in COMP:
            act = c.split("_")[1]
            for k in ACTS:
                got = getattr(rs[k].material_groups[i].stress_result, "sig_" + c)
                u = getattr(fx, "sig_" + c)
                want = u if k == act else np.zeros_like(u)
                case.ensure_eq(f"sig_{c} depends on {act} alone", got, want, scale=max(np.abs(u).max(), 1e-12), rtol=1e-10)
    # the same call again gives the same answer
    again = sec.calculate_stress(**a)
    for x, y in zip(ra.material_groups, again.material_groups):
        for c in NAMED:
            case.ensure("repeatable " + c, np.array_equal(getattr(x.stress_result, c), getattr(y.stress_result, c)))


# six-point rule of degree four (interior points)
_A, _B = 0.445948490915965, 0.091576213509771
_W = [0.223381589678011] * 3 + [0.109951743655322] * 3
RULE = ([(_A, _A, 1 - 2 * _A), (_A, 1 - 2 * _A, _A), (1 - 2 * _A, _A, _A),
         (_B, _B, 1 - 2 * _B), (_B, 1 - 2 * _B, _B), (1 - 2 * _B, _B, _B)], _W)


def resultants(case):
    """The stress field the section reports inside its elements integrates to the actions."""
    sec, o, act, warp = analysed(case)
    m = o.m
    L = np.array(RULE[0])
    pts = np.einsum("pk,ekd->epd", L, m.P)
    w = m.area[:, None] * np.array(RULE[1])
    sig = sec.get_stress_at_points([tuple(q) for q in pts.reshape(-1, 2)], **act)
    if any(s is None for s in sig):
        case.fail("point inside an element", "no stress at a point inside an element")
        return
    sig = np.array(sig, float).reshape(*pts.shape[:2], 3)
    x, y = pts[..., 0] - o.cx, pts[..., 1] - o.cy
    zz, zx, zy = sig[..., 0], sig[..., 1], sig[..., 2]
    I = lambda f: float((f * w).sum())
    from rt.oracle import rot

    phi = sec.get_phi()
    ex, ey = rot(-phi, 1.0, 0.0), rot(-phi, 0.0, 1.0)
    # moments about the axes: x-axis moment = int(s*y), y-axis moment = -int(s*x), as vectors
    vx, vy = ex  # direction of the 11-axis
    mx = act["mxx"] + act["m11"] * vx + act["m22"] * ey[0]
    my = act["myy"] + act["m11"] * vy + act["m22"] * ey[1]
    sN = np.abs(zz * w).sum() + 1e-9
    far = scales(o)["far"] / o.size
    t = 1e-8 * max(1.0, far**2)
    case.ensure_eq("axial force", I(zz), act["n"], scale=sN, rtol=t)
    case.ensure_eq("moment about x", I(zz * y), mx, scale=sN * o.size, rtol=t)
    case.ensure_eq("moment about y", -I(zz * x), my, scale=sN * o.size, rtol=t)
    if warp:
        sV = (np.abs(zx) * w).sum() + (np.abs(zy) * w).sum() + 1e-9
        t = 100 * wtol(o)
        case.ensure_eq("shear force x", I(zx), act["vx"], scale=sV, rtol=t)
        case.ensure_eq("shear force y", I(zy), act["vy"], scale=sV, rtol=t)
        T = act["mzz"] + act["vy"] * o.x_se - act["vx"] * o.y_se
        case.ensure_eq("torque", I(x * zy - y * zx), T, scale=sV * o.size, rtol=max(10 * t, 1e-4))
    else:
        case.ensure("no shear", not zx.any() and not zy.any())


def fields(case):
    """Element nodal fields of every material region against the analytical stress fields."""
    sec, o, act, warp = analysed(case, kind=case.rng.choice(["composite", "geometric", "material", "regions"]))
    st = sec.calculate_stress(**act)
    compare(case, sec, o, st, act, warp, 10 * wtol(o))


# ------------------------------------------------------------------------- points
def exact_inside(P, p):
    """Exact containment of a point (doubles) in the closed triangles P (e, 3, 2)."""
    from fractions import Fraction as F

    x, y = F(float(p[0])), F(float(p[1]))
    lo, hi = P.min(axis=1), P.max(axis=1)
    cand = np.where(((lo <= p) & (hi >= p)).all(axis=1))[0]
    out = []
    for k in cand:
        q = [(F(float(a)), F(float(b))) for a, b in P[k]]
        s = [(q[(i + 1) % 3][0] - q[i][0]) * (y - q[i][1]) - (q[(i + 1) % 3][1] - q[i][1]) * (x - q[i][0]) for i in range(3)]
        if all(v >= 0 for v in s) or all(v <= 0 for v in s):
            out.append(int(k))
    return out


def interpolate(o, vals, e, p):
    """Quadratic interpolation of the (e, 6) nodal values at the point p of element e."""
    from .c06 import shape

    P = o.m.P[e]
    A = np.array([P[0] - P[2], P[1] - P[2]]).T
    a, b = np.linalg.solve(A, np.asarray(p) - P[2])
    return float(np.dot(shape((a, b, 1 - a - b)), vals[e]))


def points(case):
    sec, o, act, warp = analysed(case)
    rng = case.rng
    nv = o.element_nodal_stress(act, sec.section_props.phi, warp)
    zz = sum(nv["zz_" + k] for k in ("n", "mxx", "myy", "m11", "m22"))
    zx = nv["zx_mzz"] + nv["zx_vx"] + nv["zx_vy"]
    zy = nv["zy_mzz"] + nv["zy_vx"] + nv["zy_vy"]
    P, pts = o.m.P, []
    for _ in range(12):
        e = rng.randrange(len(P))
        kind = rng.choice(["inside", "inside", "corner", "middle", "node"])
        if kind == "inside":
            w = np.array([rng.uniform(0.05, 1) for _ in range(3)])
            pts.append(tuple(w / w.sum() @ P[e]))
        elif kind == "corner":
            pts.append(tuple(P[e][rng.randrange(3)]))
        elif kind == "middle":
            i = rng.randrange(3)
            pts.append(tuple((P[e][i] + P[e][(i + 1) % 3]) / 2))
        else:
            pts.append(tuple(o.m.xy[o.m.tri[e][rng.randrange(6)]]))
    name, agg = rng.choice([("default", None), ("average", np.average), ("max", max), ("min", min), ("first", lambda x: x[0] * 1.0),
                            ("median", np.median)])
    pts = [tuple(float(v) for v in q) for q in pts]
    case.info.update(points=pts, aggregate=name)
    kw = {} if agg is None else {"agg_func": agg}
    r = sec.get_stress_at_points(pts, **act, **kw)
    case.ensure("one result per point", len(r) == len(pts))
    s = scales(o)
    t = 1e-6 * max(1.0, (s["far"] / s["len"]) ** 2)
    f = agg or np.mean
    sc = [max(np.abs(v).max(), 1e-12) for v in (zz, zx, zy)]
    for p, got in zip(pts, r):
        es = exact_inside(P, np.array(p))
        if not es:
            case.ensure("outside", got is None, f"stress {got} at a point outside the section {p}")
            continue
        case.ensure("inside", got is not None, f"no stress at a point inside the section {p}")
        if got is None:
            continue
        if name == "first":  # the three components are aggregated over the elements in the same order
            xs = [[interpolate(o, v, e, p) for v in (zz, zx, zy)] for e in es]
            case.ensure("components of one element", any(all(abs(g - x) <= t * k * 10 for g, x, k in zip(got, q, sc)) for q in xs),
                        f"{got} is not one of {xs}")
        for v, g, k in zip((zz, zx, zy), got, sc):
            xs = [interpolate(o, v, e, p) for e in es]
            if name == "first":
                case.ensure("first", any(abs(g - x) <= t * k * 10 for x in xs), f"{g} not among {xs}")
            else:
                case.ensure_eq(f"stress at {len(es) > 1 and 'shared point' or 'point'}", g, f(xs), scale=k, rtol=t)
        if not o.composite:  # the analytical linear field, for any load
            x, y = p[0] - o.cx, p[1] - o.cy
            one = sec.get_stress_at_points([p], n=act["n"], mxx=act["mxx"], myy=act["myy"])[0]
            det = o.ixx * o.iyy - o.ixy**2
            want = (act["n"] / o.ea + act["mxx"] * (o.iyy * y - o.ixy * x) / det + act["myy"] * (o.ixy * y - o.ixx * x) / det)
            case.ensure_eq("linear field", one[0], want, scale=sc[0] + abs(want), rtol=t)
            case.ensure("no shear", one[1] == 0 and one[2] == 0)
    if agg is None or name in ("average", "max", "min"):
        # one at a time, in any order
        order = list(range(len(pts)))
        rng.shuffle(order)
        r2 = sec.get_stress_at_points([pts[i] for i in order], **act, **kw)
        case.ensure("order", all((r2[k] is None) == (r[i] is None) and (r[i] is None or np.allclose(r2[k], r[i], rtol=1e-12, atol=0))
                                 for k, i in enumerate(order)), "results do not follow the order of the points")


def outside(case):
    from shapely import Point
    from shapely.ops import unary_union

    sec, o, act, warp = analysed(case, warp=False)
    u = unary_union([r.geom for r in o.regions])
    x0, y0, x1, y1 = u.bounds
    w, h = x1 - x0, y1 - y0
    pts = []
    for _ in range(60):
        p = (case.rng.uniform(x0 - w, x1 + w), case.rng.uniform(y0 - h, y1 + h))
        if u.boundary.distance(Point(p)) > 1e-3 * w:
            pts.append(p)
    case.info["points"] = pts
    r = sec.get_stress_at_points(pts, **act)
    case.ensure("one result per point", len(r) == len(pts))
    for p, g in zip(pts, r):
        case.ensure("result exactly inside", (g is not None) == u.contains(Point(p)), f"{g} at {p}")
