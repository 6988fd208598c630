"""C02: quadratic interpolation, coordinate map, containment."""
from .common import Tri, dual, element, lib, material, dist_scale, fea_module, frac


def nat_point(ctx, tag="", lo=-0.4, hi=1.3):
    l1 = ctx.real(f"l1{tag}", lo, hi)
    l2 = ctx.real(f"l2{tag}", lo, hi)
    return l1, l2, 1 - l1 - l2


def quad_values(x, y):
    return [1 + 0 * x, x, y, x * x, x * y, y * y]


def quad_grads(x, y):
    z = 0 * x
    o = 1 + z
    return [(z, z), (o, z), (z, o), (2 * x, z), (y, x), (z, 2 * y)]


def check_at(ctx, label, t, q):
    fea = fea_module()
    np = lib(ctx)
    n, b, j, nx, ny = fea.shape_function(coords=t.coords, gauss_point=(ctx.real("wgt"),) + q)
    x = t.x.at(*q)
    y = t.y.at(*q)
    s = dist_scale(ctx, t)
    ctx.ensure_eq(f"{label}.x", nx, x, scale=s)
    ctx.ensure_eq(f"{label}.y", ny, y, scale=s)
    ctx.ensure_eq(f"{label}.jacobian", j, t.area, scale=None if s is None else s * s)
    n2 = fea.shape_function_only(p=q)
    vals = quad_values(x, y)
    grads = quad_grads(x, y)
    for k in range(6):
        nodal = [quad_values(px, py)[k] for px, py in t.pts]
        v = sum(n[i] * nodal[i] for i in range(6))
        v2 = sum(n2[i] * nodal[i] for i in range(6))
        gx = sum(b[0, i] * nodal[i] for i in range(6))
        gy = sum(b[1, i] * nodal[i] for i in range(6))
        sc = None if s is None else max(1.0, s) ** 2
        ctx.ensure_eq(f"{label}.value.{k}", v, vals[k], scale=sc)
        ctx.ensure_eq(f"{label}.value_only.{k}", v2, vals[k], scale=sc)
        gs = None if s is None else max(1.0, s) ** 4
        ctx.ensure_eq(f"{label}.ddx.{k}", gx, grads[k][0], scale=gs)
        ctx.ensure_eq(f"{label}.ddy.{k}", gy, grads[k][1], scale=gs)


@dual(samples=40)
def interpolation(ctx):
    """N and B reproduce every quadratic field at every natural coordinate; j is the area."""
    t = Tri(ctx)
    check_at(ctx, "at", t, nat_point(ctx))


@dual(samples=15)
def interpolation_history(ctx):
    """Evaluating elsewhere, on another element, and using the results does not change later answers."""
    fea = fea_module()
    t = Tri(ctx)
    u = Tri(ctx, "u")
    q = nat_point(ctx)
    el = element(ctx, t, material(ctx))
    np = lib(ctx)
    vec = np.array([ctx.real(f"w{i}") for i in range(6)])
    fea.shape_function(coords=u.coords, gauss_point=(1,) + q)
    el.torsion_properties()
    el.shear_warping_integrals(ctx.real("i1"), ctx.real("i2"), ctx.real("i3"), vec)
    check_at(ctx, "later", t, q)


@dual(samples=40)
def local_coordinates(ctx):
    """local_coord inverts the map natural -> global on the whole plane."""
    np = lib(ctx)
    t = Tri(ctx)
    el = element(ctx, t, material(ctx))
    q = nat_point(ctx, lo=-2, hi=2)
    r = el.local_coord(p=(t.x.at(*q), t.y.at(*q)))
    s = dist_scale(ctx, t)
    sc = None if s is None else max(1.0, s) ** 2
    for i in range(3):
        ctx.ensure_eq(f"nat{i}", r[i], q[i], scale=sc)


@dual(samples=120)
def containment(ctx):
    """point_within_element is exactly: all three natural coordinates are >= 0."""
    t = Tri(ctx)
    el = element(ctx, t, material(ctx))
    q = nat_point(ctx, lo=-0.6, hi=1.2)
    if ctx.mode != "symbolic":
        if ctx.rng.random() < 0.5:
            # points close to a side, on either side of it
            e = ctx.rng.choice([-1, 1]) * 10 ** ctx.rng.uniform(-7.5, -3)
            w = ctx.rng.uniform(0.1, 0.9) * (1 - e)
            k = ctx.rng.randrange(3)
            q = [e, w, 1 - e - w]
            q = q[k:] + q[:k]
        ctx.assume(min(abs(v) for v in q) > 1e-8)
    r = el.point_within_element(pt=(t.x.at(*q), t.y.at(*q)))
    inside = q[0] >= 0
    if ctx.mode == "symbolic":
        from pydv.terms import conj, disj

        if r:
            for i in range(3):
                ctx.ensure(f"inside implies l{i+1}>=0", q[i] >= 0)
        else:
            ctx.ensure("outside implies some negative", disj(q[0] < 0, q[1] < 0, q[2] < 0))
    else:
        ctx.ensure("containment", bool(r) == (min(q) >= 0))


@dual(samples=20)
def containment_boundary(ctx):
    """Nodes and side points belong to the closed triangle (exact arithmetic)."""
    if ctx.mode != "symbolic":
        # a triangle with dyadic coordinates: the boundary test is exact in floating point
        import numpy as np

        fea = fea_module()
        r = ctx.rng
        ox, oy = r.randint(-8, 8), r.randint(-8, 8)
        c = 2 ** r.randint(-2, 3)
        p = [(ox + c, oy), (ox, oy + c), (ox, oy)]
        pts = p + [((p[i][0] + p[(i + 1) % 3][0]) / 2, (p[i][1] + p[(i + 1) % 3][1]) / 2) for i in range(3)]
        el = fea.Tri6(0, np.array(pts, dtype=float).T, list(range(6)), material(ctx))
        for k, q in enumerate(pts):
            ctx.ensure(f"node{k}", el.point_within_element(pt=q), f"node {q} of {pts} reported outside")
        return
    t = Tri(ctx)
    el = element(ctx, t, material(ctx))
    for i, q in enumerate([(1, 0, 0), (0, 1, 0), (0, 0, 1), (frac(1, 2), frac(1, 2), 0), (0, frac(1, 3), frac(2, 3)), (frac(1, 4), 0, frac(3, 4))]):
        ctx.ensure(f"b{i}", el.point_within_element(pt=(t.x.at(*q), t.y.at(*q))))


SYMBOLIC = [interpolation, interpolation_history, local_coordinates, containment, containment_boundary]
RUNTIME = []
