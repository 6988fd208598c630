"""C13: shear areas and monosymmetry constants."""
from . import rtsec
from .secwarp import run_warping, moved


def shear(ctx, composite):
    from pydv import terms as T
    from pydv import npx as np

    sec, wel, K, f, s, st = run_warping(ctx, composite)
    p = sec.section_props
    cx, cy, phi = T.symbol("cx"), T.symbol("cy"), T.symbol("phi")
    ixx, iyy, ixy = (T._KEYS_sym(k) for k in ("ixx_c", "iyy_c", "ixy_c"))
    i11, i22 = T._KEYS_sym("i11_c"), T._KEYS_sym("i22_c")
    nu = T._KEYS_sym("nu_eff") if composite else 0
    e = moved(wel, cx, cy)
    psi, phs = s.calls[1][3], s.calls[2][3]
    kx, ky, kxy = [T.sum_over(wel, t) for t in
                   e.shear_coefficients(ixx, iyy, ixy, psi[e.node_ids], phs[e.node_ids], nu)]
    delta = p.delta_s
    ctx.ensure_eq("delta_s", delta, 2 * (1 + nu) * (ixx * iyy - ixy * ixy))
    ctx.ensure_eq("a_sx", p.a_sx * kx, delta**2)
    ctx.ensure_eq("a_sy", p.a_sy * ky, delta**2)
    ctx.ensure_eq("a_sxy", p.a_sxy * kxy, delta**2)
    r = phi * np.pi / 180
    c, sn = np.cos(r), np.sin(r)
    # the tensor in axes turned by phi
    k11 = c * c * kx + 2 * c * sn * kxy + sn * sn * ky
    k22 = sn * sn * kx - 2 * c * sn * kxy + c * c * ky
    ctx.ensure_eq("a_s11", p.a_s11 * k11, delta**2)
    ctx.ensure_eq("a_s22", p.a_s22 * k22, delta**2)
    mx, my, m11, m22 = [T.sum_over(wel, t) for t in e.monosymmetry_integrals(phi)]
    x, y = p.x_se, p.y_se
    u, v = x * c + y * sn, y * c - x * sn
    want = {
        "beta_x_minus": mx / ixx - 2 * y, "beta_y_minus": my / iyy - 2 * x,
        "beta_11_minus": m11 / i11 - 2 * v, "beta_22_minus": m22 / i22 - 2 * u,
    }
    for k, w in want.items():
        ctx.ensure_eq(k, getattr(p, k), w)
        ctx.ensure_eq(k.replace("minus", "plus"), getattr(p, k.replace("minus", "plus")), -w)
    ctx.ensure_eq("get_beta", sec.get_beta(), (p.beta_x_plus, p.beta_x_minus, p.beta_y_plus, p.beta_y_minus))
    ctx.ensure_eq("get_beta_p", sec.get_beta_p(), (p.beta_11_plus, p.beta_11_minus, p.beta_22_plus, p.beta_22_minus))
    if composite:
        ctx.ensure_eq("get_eas", sec.get_eas(), (p.a_sx, p.a_sy))
        ctx.ensure_eq("get_eas_p", sec.get_eas_p(), (p.a_s11, p.a_s22))
    else:
        ctx.ensure_eq("get_as", sec.get_as(), (p.a_sx, p.a_sy))
        ctx.ensure_eq("get_as_p", sec.get_as_p(), (p.a_s11, p.a_s22))


def shear_composite(ctx):
    shear(ctx, True)


def shear_geometric(ctx):
    shear(ctx, False)


SYMBOLIC = [shear_composite, shear_geometric]
RUNTIME = [("shear_areas", rtsec.shear_areas, 40, 400)]
