"""Run-time contracts of the section analyses: the real code on random sections, against the
independent reference rt.oracle.  Bounded: random sections of up to ~100 elements."""
from __future__ import annotations

import copy

import numpy as np

from rt import gen


def new(case, kind=None, target=None):
    sec = gen.section(case.rng, kind, target)
    case.info["geometry"] = gen.describe(sec.geometry)
    case.info["elements"] = len(sec.elements)
    return sec, gen.oracle(sec)


def scales(o):
    L = o.size
    far = max(L, abs(o.cx), abs(o.cy))
    return {
        "len": L, "far": far, "I": o.ea * L * L, "Ig": o.ea * far * far, "Q": o.ea * far,
    }


def eq(case, sec, attr, want, scale, rtol=1e-9):
    case.ensure_eq(attr, getattr(sec.section_props, attr), want, scale=scale, rtol=rtol)


# ------------------------------------------------------------------------- geometric
def totals(case, kind=None):
    sec, o = new(case, kind)
    sec.calculate_geometric_properties()
    if case.rng.random() < 0.4:
        sec.calculate_geometric_properties()
    s = scales(o)
    for a in ("area", "mass", "ea", "ga", "e_eff", "g_eff"):
        eq(case, sec, a, getattr(o, a), None)
    eq(case, sec, "nu_eff", o.nu_eff, 1.0)
    eq(case, sec, "qx", o.qx, s["Q"])
    eq(case, sec, "qy", o.qy, s["Q"])
    for a in ("ixx_g", "iyy_g", "ixy_g"):
        eq(case, sec, a, getattr(o, a), s["Ig"])
    from shapely.ops import unary_union

    u = unary_union([r.geom for r in o.regions])
    if u.geom_type == "Polygon":
        eq(case, sec, "perimeter", u.exterior.length, None, 1e-6)


def centroidal(case, kind=None):
    sec, o = new(case, kind)
    sec.calculate_geometric_properties()
    s = scales(o)
    tol = 1e-9 * (s["far"] / s["len"]) ** 2
    eq(case, sec, "cx", o.cx, s["far"])
    eq(case, sec, "cy", o.cy, s["far"])
    for a, b in (("ixx_c", "ixx"), ("iyy_c", "iyy"), ("ixy_c", "ixy"), ("i11_c", "i11"), ("i22_c", "i22")):
        eq(case, sec, a, getattr(o, b), s["I"], tol)
    for a, b in (("rx_c", "rx"), ("ry_c", "ry"), ("r11_c", "r11"), ("r22_c", "r22")):
        eq(case, sec, a, getattr(o, b), s["len"], 10 * tol)
    p = sec.section_props
    case.ensure_eq("get_c", sec.get_c(), (o.cx, o.cy), scale=s["far"])
    case.ensure_eq("get_rc", sec.get_rc(), (o.rx, o.ry), scale=s["len"], rtol=10 * tol)
    case.ensure_eq("get_rp", sec.get_rp(), (o.r11, o.r22), scale=s["len"], rtol=10 * tol)


def principal(case, kind=None):
    sec, o = new(case, kind)
    sec.calculate_geometric_properties()
    s = scales(o)
    p = sec.section_props
    tol = 1e-8 * (s["far"] / s["len"]) ** 2
    i11, i22, i12 = o.inertia_in(sec.get_phi())
    case.ensure_eq("i11 about the principal axis", i11, p.i11_c, scale=s["I"], rtol=tol)
    case.ensure_eq("i22 about the principal axis", i22, p.i22_c, scale=s["I"], rtol=tol)
    case.ensure_eq("product about the principal axes", i12, 0.0, scale=s["I"], rtol=max(tol, 2e-6))
    case.ensure("larger first", p.i11_c >= p.i22_c * (1 - 1e-12))


def slight(case, full):
    """A nearly upright rectangle in any units: its principal axis is its own axis of symmetry, by either analysis."""
    from sectionproperties.analysis.section import Section
    from shapely import affinity

    rng = case.rng
    g, p = gen.mods()
    size = 10.0 ** rng.choice([-4, -3, -2, 0, rng.uniform(-4, 4), 3])
    angle = rng.choice([0.0, 0.3, 1.5, 6.0, rng.uniform(-20, 20), 10 ** rng.uniform(-9, 0)])
    angle += rng.choice([0, 0, 90, 180])
    b, d = size * rng.uniform(0.2, 0.7), size
    mat = p.DEFAULT_MATERIAL if rng.random() < 0.5 else p.Material("m", 10 ** rng.uniform(-6, 11), 0.25, 1.0, 1.0, "grey")
    shape = affinity.rotate(gen.rect(b, d), angle, origin="center")
    case.note(size=size, angle=angle, b=b, modulus=mat.elastic_modulus)
    geom = g.Geometry(affinity.translate(shape, rng.choice([0, size * rng.uniform(-2, 2)]), 0), mat, tol=15)
    sec = Section(gen.mesh(rng, geom, rng.choice([2, 8])))
    for how in (["geometric"] if full else ["frame", "geometric"]):
        if how == "frame":
            sec = Section(geom)
            phi = sec.calculate_frame_properties()[5]
        else:
            sec = Section(geom)
            sec.calculate_geometric_properties()
            phi = sec.get_phi()
        case.ensure_eq(f"principal axis ({how})", np.sin(np.deg2rad(phi - angle)), 0.0, scale=1.0, rtol=3e-6)
        case.ensure("a direction in degrees", abs(phi) <= 180 + 1e-9)


def slight_full(case):
    slight(case, True)


def slight_frame(case):
    slight(case, False)


def rebuild(sec, f):
    """The same mesh moved by the map f (a re-mesh of the moved geometry would differ)."""
    from sectionproperties.analysis.section import Section

    g = copy.deepcopy(sec.geometry)
    g.mesh = dict(sec.geometry.mesh)
    g.mesh["vertices"] = f(np.array(sec.geometry.mesh["vertices"], float))
    return Section(g)


def rotated(case):
    sec, o = new(case)
    if o.anisotropy < 1e-3:
        return
    sec.calculate_geometric_properties()
    a = case.rng.uniform(-180, 180)
    case.info["angle"] = a
    c, s_ = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
    sec2 = rebuild(sec, lambda v: v @ np.array([[c, s_], [-s_, c]]))
    sec2.calculate_geometric_properties()
    s = scales(o)
    p, q = sec.section_props, sec2.section_props
    tol = 1e-8 * (s["far"] / s["len"]) ** 2
    case.ensure_eq("i11", q.i11_c, p.i11_c, scale=s["I"], rtol=tol)
    case.ensure_eq("i22", q.i22_c, p.i22_c, scale=s["I"], rtol=tol)
    d = np.deg2rad(q.phi - p.phi - a)
    case.ensure_eq("turned axis", np.sin(d), 0.0, scale=1.0, rtol=tol / o.anisotropy)


def shifted(case):
    sec, o = new(case)
    sec.calculate_geometric_properties()
    dx, dy = case.rng.uniform(-30, 30), case.rng.uniform(-30, 30)
    sec2 = rebuild(sec, lambda v: v + [dx, dy])
    sec2.calculate_geometric_properties()
    p, q, s = sec.section_props, sec2.section_props, scales(o)
    far = s["far"] + 45
    tol = 1e-9 * (far / s["len"]) ** 2
    case.ensure_eq("c", (q.cx, q.cy), (p.cx + dx, p.cy + dy), scale=far)
    for a in ("area", "mass", "ea", "ga"):
        case.ensure_eq(a, getattr(q, a), getattr(p, a))
    for a in ("ixx_c", "iyy_c", "ixy_c", "i11_c", "i22_c"):
        case.ensure_eq(a, getattr(q, a), getattr(p, a), scale=s["I"], rtol=tol)
    for a in ("rx_c", "ry_c", "r11_c", "r22_c"):
        case.ensure_eq(a, getattr(q, a), getattr(p, a), scale=s["len"], rtol=10 * tol)
    case.ensure_eq("ixx_g", q.ixx_g, p.ixx_g + 2 * dy * p.qx + dy * dy * p.ea, scale=p.ea * far**2)
    case.ensure_eq("iyy_g", q.iyy_g, p.iyy_g + 2 * dx * p.qy + dx * dx * p.ea, scale=p.ea * far**2)
    case.ensure_eq("ixy_g", q.ixy_g, p.ixy_g + dx * p.qx + dy * p.qy + dx * dy * p.ea, scale=p.ea * far**2)


def moduli(case):
    sec, o = new(case)
    sec.calculate_geometric_properties()
    s, p = scales(o), sec.section_props
    tol = 1e-8 * (s["far"] / s["len"]) ** 2
    z = o.section_moduli(p.phi)
    for a, w in zip(["zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus", "z11_plus", "z11_minus", "z22_plus", "z22_minus"], z):
        eq(case, sec, a, w, None, tol)
    g1, g2 = (sec.get_ez(), sec.get_ezp()) if o.composite else (sec.get_z(), sec.get_zp())
    case.ensure_eq("accessor z", g1, z[:4], rtol=tol)
    case.ensure_eq("accessor zp", g2, z[4:], rtol=tol)


def yields(case, kind=None):
    kind = kind or case.rng.choice(["composite", "composite", "equal", "same", "material"])
    sec, o = new(case, kind)
    sec.calculate_geometric_properties()
    s, p = scales(o), sec.section_props
    tol = 1e-8 * (s["far"] / s["len"]) ** 2
    w = o.yield_moments(p.phi)
    for a, b in zip(["my_xx", "my_yy", "my_11", "my_22"], w):
        eq(case, sec, a, b, None, tol)
    if o.composite:
        case.ensure_eq("get_my", sec.get_my(), w[:2], rtol=tol)
        case.ensure_eq("get_my_p", sec.get_my_p(), w[2:], rtol=tol)
    # the stress ratio at the yield moment, from the stress analysis
    for act, m in (("mxx", p.my_xx), ("m22", p.my_22)):
        st = sec.calculate_stress(**{act: m})
        r = 0.0
        for g in st.material_groups:
            r = max(r, np.abs(g.stress_result.sig_zz_m).max() / g.material.yield_strength)
        case.ensure_eq(f"stress ratio {act}", r, 1.0, rtol=max(tol, 1e-7))


# ------------------------------------------------------------------------- warping
WARP_KEYS = ("j", "delta_s", "gamma", "a_sx", "a_sy", "x_se", "y_se", "x_st", "y_st")


def run_warping(case, kind=None, target=None, solver=None):
    sec, o = new(case, kind, target)
    sec.calculate_geometric_properties()
    sec.calculate_warping_properties(solver_type=solver or "direct")
    o.warping()
    return sec, o


def wtol(o, base=1e-8):
    s = scales(o)
    return base * max(1.0, (s["far"] / s["len"]) ** 2 / 10)


def field_error(x, y):
    """Largest difference of two nodal fields up to nothing (both carry the same constraint)."""
    return np.abs(np.asarray(x) - y).max()


def torsion_warping(case, kind=None):
    sec, o = run_warping(case, kind)
    p, s, t = sec.section_props, scales(o), wtol(o)
    case.ensure_eq("omega", p.omega, o.omega, scale=max(np.abs(o.omega).max(), 1e-3 * s["len"] ** 2), rtol=100 * t)
    case.ensure_eq("psi", p.psi_shear, o.psi, scale=np.abs(o.psi).max(), rtol=100 * t)
    case.ensure_eq("phi_shear", p.phi_shear, o.phis, scale=np.abs(o.phis).max(), rtol=100 * t)
    case.ensure_eq("j", p.j, o.j, scale=s["I"], rtol=10 * t)
    L = s["len"]
    for a in ("x_se", "y_se", "x_st", "y_st"):
        case.ensure_eq(a, getattr(p, a), getattr(o, a), scale=L, rtol=100 * t)
    x11, y22 = _rot(p.phi, o.x_se, o.y_se)
    case.ensure_eq("x11_se", p.x11_se, x11, scale=L, rtol=100 * t)
    case.ensure_eq("y22_se", p.y22_se, y22, scale=L, rtol=100 * t)
    gs = max(abs(o.i_omega), abs(o.gamma), 1e-6 * o.ea * L**4)
    case.ensure_eq("gamma", p.gamma, o.gamma, scale=gs, rtol=1000 * t)
    case.ensure_eq("get_sc", sec.get_sc(), (o.x_se + o.cx, o.y_se + o.cy), scale=s["far"], rtol=100 * t)
    case.ensure_eq("get_sc_p", sec.get_sc_p(), (x11, y22), scale=L, rtol=100 * t)
    case.ensure_eq("get_sc_t", sec.get_sc_t(), (o.x_st + o.cx, o.y_st + o.cy), scale=s["far"], rtol=100 * t)
    if o.composite:
        case.ensure_eq("get_ej", sec.get_ej(), o.j, scale=s["I"], rtol=10 * t)
        case.ensure_eq("get_egamma", sec.get_egamma(), o.gamma, scale=gs, rtol=1000 * t)
    else:
        case.ensure_eq("get_j", sec.get_j(), o.j, scale=s["I"], rtol=10 * t)
        case.ensure_eq("get_gamma", sec.get_gamma(), o.gamma, scale=gs, rtol=1000 * t)


def _rot(phi, x, y):
    from rt.oracle import rot

    return rot(phi, x, y)


def shear_areas(case, kind=None):
    sec, o = run_warping(case, kind)
    p, s, t = sec.section_props, scales(o), wtol(o)
    case.ensure_eq("a_sx", p.a_sx, o.a_sx, rtol=100 * t)
    case.ensure_eq("a_sy", p.a_sy, o.a_sy, rtol=100 * t)
    w = o.principal_shear_areas(p.phi)
    # composite sections report the modulus-weighted shear rigidity for x and y; the principal ones
    # are the geometric area over the rotated dimensionless tensor, i.e. the same quantity
    case.ensure_eq("a_s11", p.a_s11, w[0], rtol=100 * t)
    case.ensure_eq("a_s22", p.a_s22, w[1], rtol=100 * t)
    b, bp = o.monosymmetry(p.phi)
    names = ["beta_x_plus", "beta_x_minus", "beta_y_plus", "beta_y_minus"]
    for n, v in zip(names, b):
        case.ensure_eq(n, getattr(p, n), v, scale=s["len"], rtol=100 * t)
    names = ["beta_11_plus", "beta_11_minus", "beta_22_plus", "beta_22_minus"]
    for n, v in zip(names, bp):
        case.ensure_eq(n, getattr(p, n), v, scale=s["len"], rtol=100 * t)
    case.ensure_eq("get_beta", sec.get_beta(), b, scale=s["len"], rtol=100 * t)
    case.ensure_eq("get_beta_p", sec.get_beta_p(), bp, scale=s["len"], rtol=100 * t)
    g = (sec.get_eas(), sec.get_eas_p()) if o.composite else (sec.get_as(), sec.get_as_p())
    case.ensure_eq("get_as", g[0], (o.a_sx, o.a_sy), rtol=100 * t)
    case.ensure_eq("get_as_p", g[1], w, rtol=100 * t)


def assembled_torsion(case):
    sec, o = new(case)
    sec.calculate_geometric_properties()
    # about the global origin, as assemble_torsion sees the section's own elements
    o2 = copy.copy(o)
    o2.cx = o2.cy = 0.0
    o2.warping(nu=0.0)
    k, f = sec.assemble_torsion()
    K = k.toarray()
    n = sec.num_nodes
    case.ensure_eq("shape", K.shape, (n + 1, n + 1))
    case.ensure_eq("stiffness", K[:n, :n], o2.K[:n, :n], rtol=1e-8)
    case.ensure_eq("border column", K[:n, n], o2.c, rtol=1e-8)
    case.ensure_eq("border row", K[n, :n], o2.c, rtol=1e-8)
    case.ensure_eq("corner", K[n, n], 0.0, scale=1.0)
    case.ensure_eq("symmetry", K, K.T, rtol=1e-12)
    case.ensure_eq("constant in the null space", K[:n, :n] @ np.ones(n), np.zeros(n), scale=np.abs(K[:n, :n]).max(), rtol=1e-9)
    case.ensure_eq("load", f, o2.f, rtol=1e-8)
    case.ensure_eq("load balance", f.sum(), 0.0, scale=np.abs(f).sum() + 1e-9, rtol=1e-8)


def renumbered(case, what="order"):
    """Results do not depend on node numbering or element order."""
    from sectionproperties.analysis.section import Section

    sec, o = new(case)
    g = copy.deepcopy(sec.geometry)
    m = {k: np.array(v) for k, v in sec.geometry.mesh.items() if k in ("vertices", "triangles", "triangle_attributes")}
    n, e = len(m["vertices"]), len(m["triangles"])
    pe, pn = np.arange(e), np.arange(n)
    if case.rng.random() < 0.8:
        r = np.random.RandomState(case.rng.randrange(10**6))
        pe = r.permutation(e)
        pn = r.permutation(n)
    inv = np.empty(n, int)
    inv[pn] = np.arange(n)
    g.mesh = dict(sec.geometry.mesh)
    g.mesh["vertices"] = m["vertices"][pn]
    g.mesh["triangles"] = inv[m["triangles"]][pe]
    g.mesh["triangle_attributes"] = m["triangle_attributes"][pe]
    sec2 = Section(g)
    for q in (sec, sec2):
        q.calculate_geometric_properties()
        q.calculate_warping_properties()
    a, b, s, t = sec.section_props, sec2.section_props, scales(o), 100 * wtol(o)
    # the principal axes of a section with (nearly) equal principal moments are arbitrary
    axes = a.i11_c - a.i22_c > 1e-6 * a.i11_c
    for k in ("x_se", "y_se", "x_st", "y_st", *(("x11_se", "y22_se") if axes else ())):
        case.ensure_eq(k, getattr(b, k), getattr(a, k), scale=s["len"], rtol=t)
    for k in ("a_sx", "a_sy", "my_xx", *(("my_22",) if axes else ())):
        case.ensure_eq(k, getattr(b, k), getattr(a, k), rtol=t)
    case.ensure_eq("j", b.j, a.j, scale=s["I"], rtol=t)
    case.ensure_eq("omega", b.omega, np.asarray(a.omega)[pn], scale=s["len"] ** 2, rtol=t)


def moved_warping(case):
    """Torsion constant, shear centre offset, shear areas: independent of position."""
    sec, o = new(case)
    dx, dy = case.rng.uniform(-30, 30), case.rng.uniform(-30, 30)
    sec2 = rebuild(sec, lambda v: v + [dx, dy])
    for q in (sec, sec2):
        q.calculate_geometric_properties()
        q.calculate_warping_properties()
    a, b, s = sec.section_props, sec2.section_props, scales(o)
    t = 1e-6 * max(1.0, ((s["far"] + 45) / s["len"]) ** 2 / 100)
    for k in ("x_se", "y_se", "x_st", "y_st"):
        case.ensure_eq(k, getattr(b, k), getattr(a, k), scale=s["len"], rtol=t)
    case.ensure_eq("j", b.j, a.j, scale=s["I"], rtol=t)
    for k in ("a_sx", "a_sy"):
        case.ensure_eq(k, getattr(b, k), getattr(a, k), rtol=t)
    case.ensure_eq("gamma", b.gamma, a.gamma, scale=max(abs(a.gamma), 1e-6 * o.ea * s["len"] ** 4), rtol=100 * t)


# ------------------------------------------------------------------------- frame
FRAME = ("area", "ixx_c", "iyy_c", "ixy_c", "j", "phi")


def frame(case):
    """Frame analysis against the full analyses and the reference, after any history."""
    sec, o = new(case)
    o.warping()
    solver = case.rng.choice(["direct", "cgs"])
    hist = [case.rng.choice(["geometric", "warping", "plastic", "stress", "frame_direct", "frame_cgs", "geometric"])
            for _ in range(case.rng.randrange(0, 4))]
    case.info.update(solver=solver, history=hist)
    for h in hist:
        step(sec, h)
    try:
        r = sec.calculate_frame_properties(solver_type=solver)
    except RuntimeError:
        if solver == "direct":
            raise
        # the iterative solver may give up, and then does so in the full analysis too
        try:
            sec.calculate_geometric_properties()
            sec.calculate_warping_properties(solver_type=solver)
        except RuntimeError:
            return
        case.fail("solver", "the frame analysis raises, the full analysis does not")
        return
    s, t = scales(o), 100 * wtol(o) if solver == "direct" else 1e-3 * max(1.0, (scales(o)["far"] / o.size) ** 2 / 10)
    full = copy.copy(sec)
    from sectionproperties.analysis.section import Section

    full = Section(sec.geometry)
    full.calculate_geometric_properties()
    try:
        full.calculate_warping_properties(solver_type=solver)
    except RuntimeError:
        if solver == "direct":
            raise
        # the iterative solver may give up on a shear function (C19)
        full.calculate_warping_properties()
    p = full.section_props
    case.ensure("six results", len(r) == 6)
    sc = dict(area=None, ixx_c=s["I"], iyy_c=s["I"], ixy_c=s["I"], j=s["I"])
    g = 1e-9 * max(1.0, (s["far"] / s["len"]) ** 2)
    for n, got in zip(FRAME, r):
        if n == "phi":
            if o.anisotropy > 1e-6:
                case.ensure_eq("phi", np.sin(np.deg2rad(got - p.phi)), 0.0, scale=1.0, rtol=g / o.anisotropy)
                case.ensure_eq("phi, same sense", np.cos(np.deg2rad(got - p.phi)), 1.0, scale=1.0, rtol=1e-6)
            continue
        case.ensure_eq(n, got, getattr(p, n), scale=sc[n], rtol=g if n != "j" else t)
    case.ensure_eq("area of the mesh", r[0], o.area)
    for n, v, w in (("ixx_c", r[1], o.ixx), ("iyy_c", r[2], o.iyy), ("ixy_c", r[3], o.ixy)):
        case.ensure_eq("reference " + n, v, w, scale=s["I"], rtol=g)
    case.ensure_eq("reference j", r[4], o.j, scale=s["I"], rtol=t)


def step(sec, h):
    """One analysis with its prerequisites."""
    p = sec.section_props
    if h == "geometric":
        sec.calculate_geometric_properties()
    elif h == "warping":
        if p.i11_c is None:
            sec.calculate_geometric_properties()
        sec.calculate_warping_properties()
    elif h == "plastic":
        if p.i11_c is None:
            sec.calculate_geometric_properties()
        sec.calculate_plastic_properties()
    elif h == "stress":
        if p.i11_c is None:
            sec.calculate_geometric_properties()
        if p.psi_shear is None:
            return sec.calculate_stress(n=1.0, mxx=2.0, m11=1.0)
        return sec.calculate_stress(n=1.0, mxx=2.0, vx=1.0, mzz=3.0)
    elif h == "frame_direct":
        sec.calculate_frame_properties("direct")
    else:
        try:
            sec.calculate_frame_properties("cgs")
        except RuntimeError:  # the iterative solver may give up (C19)
            pass


def frame_args(case):
    sec, o = new(case, target=10)
    before = None
    if case.rng.random() < 0.5:
        before = sec.calculate_frame_properties()[4]
    try:
        sec.calculate_frame_properties(solver_type=case.rng.choice(["lu", "", "CGS", "Direct", "qr"]))
    except ValueError:
        case.checks += 1
    else:
        case.fail("unknown solver", "no ValueError for an unknown solver type")
    j = sec.section_props.j
    if before is None:
        case.ensure("no torsion constant of an analysis that failed", j is None, f"{j!r}")
    else:
        case.ensure_eq("torsion constant of the analysis that succeeded", j, before)
