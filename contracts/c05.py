"""C05: element stress recovery at the nodes."""
from .common import Tri, dual, element, lib, material, dist_scale, frac, node_nat
from .c04 import dh

ARGS = ["n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy"]
OUT = ["zz_n", "zz_mxx", "zz_myy", "zz_m11", "zz_m22", "zx_mzz", "zy_mzz", "zx_vx", "zy_vx", "zx_vy", "zy_vy"]


def section_inputs(ctx):
    """Arbitrary values of the section quantities (non-zero divisors)."""
    np = lib(ctx)
    v = {k: ctx.pos(k) for k in ("ea", "i11", "i22", "j", "delta_s")}
    v["ixx"], v["iyy"] = ctx.pos("ixx", 2, 5), ctx.pos("iyy", 2, 5)
    v["ixy"] = ctx.real("ixy", -1.5, 1.5)
    ctx.assume(v["ixx"] * v["iyy"] - v["ixy"] * v["ixy"] > 0)
    v["cx"], v["cy"] = ctx.real("cx"), ctx.real("cy")
    v["phi"] = ctx.real("phi", -180, 180)
    v["nu"] = ctx.real("nue", 0, 0.5)
    v["omega"] = np.array([ctx.real(f"o{i}") for i in range(6)])
    v["psi_shear"] = np.array([ctx.real(f"p{i}") for i in range(6)])
    v["phi_shear"] = np.array([ctx.real(f"q{i}") for i in range(6)])
    return v


def fields(ctx, t, e, act, v):
    """Analytical stress fields of each action as natural polynomials (x, y centroidal)."""
    np = lib(ctx)
    from .common import Nat

    x, y = t.x - v["cx"], t.y - v["cy"]
    det = v["ixx"] * v["iyy"] - v["ixy"] * v["ixy"]
    rad = v["phi"] * np.pi / 180
    c, s = np.cos(rad), np.sin(rad)
    u, w = x * c + y * s, y * c - x * s
    d, h = dh(x, y, v["ixx"], v["iyy"], v["ixy"])
    go, gp, gq = (t.grad(t.field(list(v[k]))) for k in ("omega", "psi_shear", "phi_shear"))
    half = v["nu"] * frac(1, 2)
    return [
        Nat.c(e * act["n"] / v["ea"]),
        (y * v["iyy"] - x * v["ixy"]) * (e * act["mxx"] / det),
        (y * v["ixy"] - x * v["ixx"]) * (e * act["myy"] / det),
        w * (e * act["m11"] / v["i11"]),
        u * (-e * act["m22"] / v["i22"]),
        (go[0] - y) * (e * act["mzz"] / v["j"]),
        (go[1] + x) * (e * act["mzz"] / v["j"]),
        (gp[0] - d[0] * half) * (e * act["vx"] / v["delta_s"]),
        (gp[1] - d[1] * half) * (e * act["vx"] / v["delta_s"]),
        (gq[0] - h[0] * half) * (e * act["vy"] / v["delta_s"]),
        (gq[1] - h[1] * half) * (e * act["vy"] / v["delta_s"]),
    ]


def actions(ctx):
    a = {k: ctx.real(k) for k in ARGS}
    if ctx.mode != "symbolic" and ctx.rng.random() < 0.4:
        keep = ctx.rng.choice(ARGS)
        a = {k: (x if k == keep else 0.0) for k, x in a.items()}
    return a


@dual(samples=60)
def element_stress(ctx):
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    v = section_inputs(ctx)
    act = actions(ctx)
    r = el.element_stress(**act, **v)
    ctx.ensure_eq("results", len(r), 12)
    fs = fields(ctx, t, m.elastic_modulus, act, v)
    for n, got, f in zip(OUT, r, fs):
        want = [f.at(*node_nat(i)) for i in range(6)]
        sc = None
        if ctx.mode != "symbolic":
            s = max(1.0, dist_scale(ctx, t))
            sc = 1e-3 * max(abs(x) for x in want) + 1e-3 * s * s
            sc = max(sc, max(abs(x) for x in want))
        for i in range(6):
            ctx.ensure_eq(f"{n}[{i}]", got[i], want[i], scale=sc, rtol=1e-8)
    w = r[11]
    for i in range(6):
        ctx.ensure(f"weight{i}>0", w[i] > 0)
        if i % 3:
            ctx.ensure_eq(f"weight{i}", w[i], w[i - 1])
    ctx.ensure_eq("frame.coords", el.coords, t.coords)


@dual(samples=20)
def element_stress_no_warping(ctx):
    """Without warping actions the warping data are not used (they may be zero)."""
    np = lib(ctx)
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    v = section_inputs(ctx)
    z = 0 if ctx.mode == "symbolic" else 0.0
    v.update(j=z, delta_s=z, nu=z, omega=np.zeros(6), psi_shear=np.zeros(6), phi_shear=np.zeros(6))
    act = {k: ctx.real(k) for k in ARGS}
    act.update(mzz=z, vx=z, vy=z)
    r = el.element_stress(**act, **v)
    v2 = dict(v, j=1, delta_s=1)
    fs = fields(ctx, t, m.elastic_modulus, act, v2)
    s = dist_scale(ctx, t)
    for n, got, f in zip(OUT, r, fs):
        for i in range(6):
            ctx.ensure_eq(f"{n}[{i}]", got[i], f.at(*node_nat(i)), scale=None if s is None else 100 * max(1, s), rtol=1e-9)


SYMBOLIC = [element_stress, element_stress_no_warping]
RUNTIME = []
