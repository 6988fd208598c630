"""C09: principal axes."""
from .common import dual, lib
from .seccommon import symbolic_section, El, groups
from . import rtsec


def rot_inertia(np, phi, ixx, iyy, ixy):
    """(I11, I22, I12) about axes turned by phi degrees."""
    r = phi * np.pi / 180
    c, s = np.cos(r), np.sin(r)
    i11 = ixx * c * c + iyy * s * s - 2 * ixy * c * s
    i22 = ixx * s * s + iyy * c * c + 2 * ixy * c * s
    i12 = (ixx - iyy) * c * s + ixy * (c * c - s * s)
    return i11, i22, i12


@dual(samples=60)
def principal_axes(ctx):
    """calculate_centroidal_properties for arbitrary totals."""
    import sectionproperties.post.post as post

    np = lib(ctx)
    p = post.SectionProperties()
    p.ea = ctx.pos("ea")
    p.qx, p.qy = ctx.real("qx"), ctx.real("qy")
    if ctx.mode == "symbolic":
        ctx.sampler(lambda rng: {"ea": rng.uniform(1, 5), "qx": rng.uniform(-1, 1), "qy": rng.uniform(-1, 1),
                                 "ixx": rng.uniform(3, 9), "iyy": rng.uniform(3, 9), "ixy": rng.choice([0, rng.uniform(-2, 2)])})
        p.ixx_g, p.iyy_g, p.ixy_g = ctx.real("ixx"), ctx.real("iyy"), ctx.real("ixy")
        from .seccommon import Nodes

        nodes = Nodes()
        i11_min = (p.ixx_g - p.qx**2 / p.ea) * (p.iyy_g - p.qy**2 / p.ea) - (p.ixy_g - p.qx * p.qy / p.ea) ** 2
        ctx.assume(p.ixx_g - p.qx**2 / p.ea > 0)
        ctx.assume(p.iyy_g - p.qy**2 / p.ea > 0)
        ctx.assume(i11_min > 0)
    else:
        a, b = ctx.pos("Ia"), ctx.pos("Ib")
        c = ctx.real("Ic", -0.9, 0.9) * (a * b) ** 0.5
        if ctx.rng.random() < 0.3:
            c = 0.0
        p.ixx_g, p.iyy_g, p.ixy_g = a + p.qx**2 / p.ea, b + p.qy**2 / p.ea, c + p.qx * p.qy / p.ea
        nodes = [[ctx.rng.uniform(-3, 3), ctx.rng.uniform(-3, 3)] for _ in range(6)]
    p.calculate_elastic_centroid()
    p.calculate_centroidal_properties(node_list=nodes)
    ixx, iyy, ixy = p.ixx_c, p.iyy_c, p.ixy_c
    i11, i22, i12 = rot_inertia(np, p.phi, ixx, iyy, ixy)
    sc = None if ctx.mode == "symbolic" else ixx + iyy
    ctx.ensure_eq("trace", p.i11_c + p.i22_c, ixx + iyy, scale=sc)
    ctx.ensure_eq("determinant", p.i11_c * p.i22_c, ixx * iyy - ixy**2, scale=None if sc is None else sc * sc)
    ctx.ensure("larger first", p.i11_c >= p.i22_c)
    if ctx.mode == "symbolic" and not hasattr(p.phi, "d") or (hasattr(p.phi, "d") and p.phi.is_const()):
        # nearly no product of inertia: the axes are kept, within the documented 1e-12 threshold
        ctx.ensure_eq("kept", p.phi, 0)
        # ixy^2 = (i11 - ixx) (i11 - iyy), and the first factor is below the threshold
        ctx.ensure_eq("product of inertia", (p.i11_c - ixx) * (p.i11_c - iyy), ixy * ixy)
        ctx.ensure("within threshold", abs(p.i11_c - ixx) <= p.i11_c * frac12())
        return
    ctx.ensure_eq("i12", i12, 0, scale=sc, rtol=2e-6)
    ctx.ensure_eq("i11", i11, p.i11_c, scale=sc, rtol=1e-8)
    ctx.ensure_eq("i22", i22, p.i22_c, scale=sc, rtol=1e-8)


def frac12():
    from pydv.terms import F, Sym

    return Sym.const(F(1, 10**12))


@dual(samples=40)
def coordinates(ctx):
    """Principal and global coordinates are mutually inverse rotations by phi."""
    import sectionproperties.analysis.fea as fea

    np = lib(ctx)
    phi, x, y = ctx.real("phi", -400, 400), ctx.real("x"), ctx.real("y")
    r = phi * np.pi / 180
    c, s = np.cos(r), np.sin(r)
    u, v = fea.principal_coordinate(phi=phi, x=x, y=y)
    ctx.ensure_eq("x11", u, x * c + y * s, scale=10)
    ctx.ensure_eq("y22", v, y * c - x * s, scale=10)
    x2, y2 = fea.global_coordinate(phi=phi, x11=u, y22=v)
    ctx.ensure_eq("x back", x2, x, scale=10)
    ctx.ensure_eq("y back", y2, y, scale=10)
    u2, v2 = fea.principal_coordinate(phi=phi, x=fea.global_coordinate(phi=phi, x11=x, y22=y)[0],
                                      y=fea.global_coordinate(phi=phi, x11=x, y22=y)[1])
    ctx.ensure_eq("x11 back", u2, x, scale=10)
    ctx.ensure_eq("y22 back", v2, y, scale=10)


def section_rotation(ctx):
    """Lemma: turning every element by theta keeps I11, I22 and turns the principal direction."""
    from pydv import seqs
    from pydv import npx as np

    th = ctx.real("theta")
    c, s = np.cos(th), np.sin(th)

    class Turned(El):
        def geometric_properties(self):
            a, qx, qy, ixx, iyy, ixy, e, g, rho = super().geometric_properties()
            # x' = c x - s y ; y' = s x + c y
            return (a, s * qy + c * qx, c * qy - s * qx, s * s * iyy + 2 * s * c * ixy + c * c * ixx,
                    c * c * iyy - 2 * s * c * ixy + s * s * ixx, s * c * (iyy - ixx) + (c * c - s * s) * ixy, e, g, rho)

    sec, turned = symbolic_section(ctx, True), symbolic_section(ctx, True)
    turned.elements = seqs.SymSeq("el", lambda b: Turned("", b))
    for q in (sec, turned):
        q.calculate_geometric_properties()
    p, q = sec.section_props, turned.section_props
    ctx.ensure_eq("trace", q.ixx_c + q.iyy_c, p.ixx_c + p.iyy_c)
    ctx.ensure_eq("i11", q.i11_c, p.i11_c)
    ctx.ensure_eq("i22", q.i22_c, p.i22_c)
    if p.phi.is_const() or q.phi.is_const():
        return
    a, b = p.phi * np.pi / 180, q.phi * np.pi / 180
    ca, sa = np.cos(a), np.sin(a)
    cb, sb = np.cos(b), np.sin(b)
    # direction of the turned axis: R(theta) (ca, sa)
    ux, uy = c * ca - s * sa, s * ca + c * sa
    ctx.ensure_eq("axis turned", cb * uy - sb * ux, 0)


SYMBOLIC = [principal_axes, coordinates, section_rotation]
RUNTIME = [("principal", rtsec.principal, 40, 400), ("rotated", rtsec.rotated, 20, 200), ("slight rotations", rtsec.slight_full, 60, 600)]
