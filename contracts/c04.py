"""C04: element shear, warping and monosymmetry integrals (Pilkey's integrands)."""
from .common import L1, Nat, SHAPE, Tri, dual, element, lib, material, dist_scale, frac


def dh(x, y, ixx, iyy, ixy):
    """Pilkey's d and h vectors: r = x^2 - y^2, q = 2xy."""
    r = x * x - y * y
    q = 2 * (x * y)
    d = (ixx * r - ixy * q, ixy * r + ixx * q)
    h = (iyy * q - ixy * r, (-iyy) * r - ixy * q)
    return d, h


def inputs(ctx):
    ixx, iyy, ixy = ctx.real("ixx"), ctx.real("iyy"), ctx.real("ixy")
    return ixx, iyy, ixy


def big(ctx, t, m, *vals):
    if ctx.mode == "symbolic":
        return None
    s = max(1.0, dist_scale(ctx, t))
    v = max([1.0] + [abs(x) for x in vals])
    return m.elastic_modulus * s**4 * v * 10


@dual(samples=40)
def shear_load_vectors(ctx):
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    ixx, iyy, ixy = inputs(ctx)
    nu = ctx.real("nue", 0, 0.5)
    e = m.elastic_modulus
    d, h = dh(t.x, t.y, ixx, iyy, ixy)
    psi, phi = [], []
    for n in SHAPE:
        g = t.grad(n)
        psi.append(e * t.integrate((g[0] * d[0] + g[1] * d[1]) * (nu * frac(1, 2)) + (n * (ixx * t.x - ixy * t.y)) * (2 * (1 + nu))))
        phi.append(e * t.integrate((g[0] * h[0] + g[1] * h[1]) * (nu * frac(1, 2)) + (n * (iyy * t.y - ixy * t.x)) * (2 * (1 + nu))))
    for label in ("first", "again"):
        a, b = el.shear_load_vectors(ixx=ixx, iyy=iyy, ixy=ixy, nu=nu)
        sc = big(ctx, t, m, ixx, iyy, ixy)
        ctx.ensure_eq(f"{label}.psi", a, psi, scale=sc)
        ctx.ensure_eq(f"{label}.phi", b, phi, scale=sc)


@dual(samples=40)
def shear_warping_integrals(ctx):
    np = lib(ctx)
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    ixx, iyy, ixy = inputs(ctx)
    w = np.array([ctx.real(f"w{i}") for i in range(6)])
    e = m.elastic_modulus
    om = t.field(list(w))
    r2 = t.x * t.x + t.y * t.y
    want = [
        e * t.integrate((t.x * iyy + t.y * ixy) * r2),
        e * t.integrate((t.y * ixx + t.x * ixy) * r2),
        e * t.integrate(om),
        e * (om * om).four_point(t.area),
        e * t.integrate(t.x * om),
        e * t.integrate(t.y * om),
    ]
    for label in ("first", "again"):
        r = el.shear_warping_integrals(ixx=ixx, iyy=iyy, ixy=ixy, omega=w)
        sc = big(ctx, t, m, ixx, iyy, ixy, *[0 if ctx.mode == "symbolic" else v for v in w])
        for n, a, b in zip(["sc_xint", "sc_yint", "q_omega", "i_omega", "i_xomega", "i_yomega"], r, want):
            ctx.ensure_eq(f"{label}.{n}", a, b, scale=sc)


@dual(samples=30)
def shear_coefficients(ctx):
    """Four-point value for every nu; for nu = 0 that is the exact integral (degree two)."""
    np = lib(ctx)
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    ixx, iyy, ixy = inputs(ctx)
    nu = ctx.real("nue", 0, 0.5)
    p = np.array([ctx.real(f"p{i}") for i in range(6)])
    q = np.array([ctx.real(f"q{i}") for i in range(6)])
    e = m.elastic_modulus
    d, h = dh(t.x, t.y, ixx, iyy, ixy)
    gp, gq = t.grad(t.field(list(p))), t.grad(t.field(list(q)))
    half = nu * frac(1, 2)
    a = [gp[i] - d[i] * half for i in (0, 1)]
    b = [gq[i] - h[i] * half for i in (0, 1)]
    want = [
        e * sum_fp(t, a, a), e * sum_fp(t, b, b), e * sum_fp(t, a, b),
    ]
    r = el.shear_coefficients(ixx=ixx, iyy=iyy, ixy=ixy, psi_shear=p, phi_shear=q, nu=nu)
    sc = None
    if ctx.mode != "symbolic":
        sc = max(abs(want[0]), abs(want[1])) * 10 + 1e-9
    for n, x, y in zip(["kappa_x", "kappa_y", "kappa_xy"], r, want):
        ctx.ensure_eq(n, x, y, scale=sc, rtol=1e-8)


def sum_fp(t, a, b):
    """Sum over the four points of (a . b), evaluated point by point."""
    tot = 0
    pts = [((1, 1, 1), 3, (-27, 48))] + [(p, 5, (25, 48)) for p in ((3, 1, 1), (1, 3, 1), (1, 1, 3))]
    for p, den, w in pts:
        l = [frac(x, den) for x in p]
        va = [f.at(*l) for f in a]
        vb = [f.at(*l) for f in b]
        tot = tot + (va[0] * vb[0] + va[1] * vb[1]) * frac(*w)
    return tot * t.area


@dual(samples=40)
def shear_coefficients_nu0(ctx):
    np = lib(ctx)
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    ixx, iyy, ixy = inputs(ctx)
    p = np.array([ctx.real(f"p{i}") for i in range(6)])
    q = np.array([ctx.real(f"q{i}") for i in range(6)])
    e = m.elastic_modulus
    gp, gq = t.grad(t.field(list(p))), t.grad(t.field(list(q)))
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    want = [e * t.integrate(dot(gp, gp)), e * t.integrate(dot(gq, gq)), e * t.integrate(dot(gp, gq))]
    r = el.shear_coefficients(ixx=ixx, iyy=iyy, ixy=ixy, psi_shear=p, phi_shear=q, nu=0 if ctx.mode == "symbolic" else 0.0)
    sc = None if ctx.mode == "symbolic" else max(abs(want[0]), abs(want[1])) * 10 + 1e-9
    for n, x, y in zip(["kappa_x", "kappa_y", "kappa_xy"], r, want):
        ctx.ensure_eq(n, x, y, scale=sc, rtol=1e-8)


@dual(samples=40)
def monosymmetry_integrals(ctx):
    np = lib(ctx)
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    phi = ctx.real("phi", -180, 180)
    e = m.elastic_modulus
    rad = phi * np.pi / 180
    c, s = np.cos(rad), np.sin(rad)
    x, y = t.x, t.y
    u, v = x * c + y * s, y * c - x * s
    r2 = x * x + y * y
    s2 = u * u + v * v
    want = [e * t.integrate(r2 * y), e * t.integrate(r2 * x), e * t.integrate(s2 * v), e * t.integrate(s2 * u)]
    for label in ("first", "again"):
        r = el.monosymmetry_integrals(phi=phi)
        sc = big(ctx, t, m)
        for n, a, b in zip(["int_x", "int_y", "int_11", "int_22"], r, want):
            ctx.ensure_eq(f"{label}.{n}", a, b, scale=sc)


SYMBOLIC = [shear_load_vectors, shear_warping_integrals, shear_coefficients, shear_coefficients_nu0, monosymmetry_integrals]
RUNTIME = []
