"""C01: element area integrals are exact."""
from .common import Tri, dual, element, lib, material, dist_scale, mag

NAMES = ["area", "qx", "qy", "ixx", "iyy", "ixy", "E", "G", "rho"]


def spec(t, m):
    x, y = t.x, t.y
    g = m.elastic_modulus / (2 * (1 + m.poissons_ratio))
    return [
        t.area, t.integrate(y), t.integrate(x), t.integrate(y * y), t.integrate(x * x), t.integrate(x * y),
        m.elastic_modulus, g, m.density,
    ]


def compare(ctx, label, r, want, t):
    s = dist_scale(ctx, t)
    for i, n in enumerate(NAMES):
        sc = None
        if s is not None and i < 6:
            sc = want[0] * (1.0 if i == 0 else s if i < 3 else s * s)
        ctx.ensure_eq(f"{label}.{n}", r[i], want[i], scale=sc)


@dual(samples=40)
def geometric_properties(ctx):
    """ensures: result == exact integrals; the element and its material are unchanged."""
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    want = spec(t, m)
    r = el.geometric_properties()
    ctx.ensure_eq("results", len(r), 9)
    compare(ctx, "first", r, want, t)
    ctx.ensure_eq("frame.coords", el.coords, t.coords)
    ctx.ensure("frame.material", el.material is m)


@dual(samples=25)
def repeated_calls(ctx):
    """The answer does not change after the other element calculations (no hidden state)."""
    np = lib(ctx)
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    other = element(ctx, Tri(ctx, "o"), material(ctx, "o"), 1)
    want = spec(t, m)
    v = [ctx.real(n) for n in ("ixx", "iyy", "ixy", "nu_", "phi")]
    vec = np.array([ctx.real(f"w{i}") for i in range(6)])
    other.geometric_properties()
    for e in (el, other):
        e.torsion_properties()
        e.shear_load_vectors(v[0], v[1], v[2], v[3])
        e.shear_warping_integrals(v[0], v[1], v[2], vec)
        e.shear_coefficients(v[0], v[1], v[2], vec, vec, v[3])
        e.monosymmetry_integrals(v[4])
        e.geometric_properties()
    compare(ctx, "again", el.geometric_properties(), want, t)
    compare(ctx, "again2", el.geometric_properties(), want, t)


SYMBOLIC = [geometric_properties, repeated_calls]
RUNTIME = []
