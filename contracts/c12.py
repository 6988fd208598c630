"""C12: torsion constant, shear centre and warping constant."""
from . import rtsec
from .secwarp import moved, run_warping, section_after_geometric


def warping(ctx, composite, solver="direct"):
    from pydv import seqs
    from pydv import terms as T

    sec = section_after_geometric(ctx, composite)
    before = dict(vars(sec.section_props))
    sec, wel, K, f, s, st = run_warping(ctx, composite, solver, sec=sec)
    p = sec.section_props
    cx, cy, phi = T.symbol("cx"), T.symbol("cy"), T.symbol("phi")
    ixx, iyy, ixy = p.ixx_c, p.iyy_c, p.ixy_c
    nu = p.nu_eff if composite else 0
    e = moved(wel, cx, cy)
    # the elements seen by every integral are those of the section moved to its centroid
    ctx.ensure_eq("shift seen by the torsion assembly", st["shift"], e._state())
    ctx.ensure("three solves", len(s.calls) == 3)
    (k0, f0, h0, omega), (k1, f1, h1, psi), (k2, f2, h2, phs) = s.calls
    ctx.ensure("same matrix", k0 is K and k1 is K and k2 is K)
    ctx.ensure("solver", h0 == h1 == h2 == solver)
    ctx.ensure_eq("torsion load", f0, f)
    # shear load vectors: scatter sums of the element vectors
    fpsi, fphi = e.shear_load_vectors(ixx, iyy, ixy, nu)
    ix = seqs.index_seq(sec.num_nodes)
    for name, got, vec in (("f_psi", f1, fpsi), ("f_phi", f2, fphi)):
        want = T.coerce(0)
        for i in range(6):
            want = want + T.sum_over(wel, T.indicator(T.compare0("==", e.node_ids[i] - ix.bound)) * vec[i])
        ctx.ensure_eq(name, got, want)
    ctx.ensure_eq("omega stored", p.omega, omega)
    ctx.ensure_eq("psi stored", p.psi_shear, psi)
    ctx.ensure_eq("phi stored", p.phi_shear, phs)
    ctx.ensure_eq("j", p.j, ixx + iyy - omega.dot(f))
    sums = [T.sum_over(wel, t) for t in e.shear_warping_integrals(ixx, iyy, ixy, omega[e.node_ids])]
    scx, scy, q, io, ixo, iyo = sums
    det = ixx * iyy - ixy * ixy
    delta = 2 * (1 + nu) * det
    ctx.ensure_eq("delta_s", p.delta_s, delta)
    x, y = (nu * scx / 2 - f.dot(phs)) / delta, (nu * scy / 2 + f.dot(psi)) / delta
    ctx.ensure_eq("x_se", p.x_se, x)
    ctx.ensure_eq("y_se", p.y_se, y)
    from pydv import npx as np

    r = phi * np.pi / 180
    c, sn = np.cos(r), np.sin(r)
    ctx.ensure_eq("x11_se", p.x11_se, x * c + y * sn)
    ctx.ensure_eq("y22_se", p.y22_se, y * c - x * sn)
    ctx.ensure_eq("x_st", p.x_st, (ixy * ixo - iyy * iyo) / det)
    ctx.ensure_eq("y_st", p.y_st, (ixx * ixo - ixy * iyo) / det)
    ea = p.ea if composite else p.area
    ctx.ensure_eq("gamma", p.gamma, io - q * q / ea - y * ixo + x * iyo)
    for k in ("area", "ea", "cx", "cy", "ixx_c", "iyy_c", "ixy_c", "phi", "i11_c", "i22_c", "nu_eff"):
        ctx.ensure_eq("geometric result kept " + k, getattr(p, k), before[k])
    ctx.ensure_eq("get_sc", sec.get_sc(), (x + cx, y + cy))
    ctx.ensure_eq("get_sc_p", sec.get_sc_p(), (p.x11_se, p.y22_se))
    ctx.ensure_eq("get_sc_t", sec.get_sc_t(), (p.x_st + cx, p.y_st + cy))
    if composite:
        ctx.ensure_eq("get_ej", sec.get_ej(), p.j)
        ctx.ensure_eq("get_egamma", sec.get_egamma(), p.gamma)
    else:
        ctx.ensure_eq("get_j", sec.get_j(), p.j)
        ctx.ensure_eq("get_gamma", sec.get_gamma(), p.gamma)


def warping_composite(ctx):
    warping(ctx, True)


def warping_geometric(ctx):
    warping(ctx, False)


def warping_cgs(ctx):
    warping(ctx, True, "cgs")


SYMBOLIC = [warping_composite, warping_geometric, warping_cgs]
RUNTIME = [("torsion_warping", rtsec.torsion_warping, 30, 300), ("renumbered", rtsec.renumbered, 8, 80),
           ("moved_warping", rtsec.moved_warping, 12, 100)]
