"""C08: centroid, parallel axes, radii of gyration, and rigid shifts."""
from .seccommon import symbolic_section, El, Nodes, _fn
from . import rtsec
from .c07 import SPEC, total


def centroidal(ctx):
    sec = symbolic_section(ctx, True)
    p = sec.section_props
    sec.calculate_geometric_properties()
    w = {k: total(sec, f) for k, f in SPEC.items()}
    ea = w["ea"]
    ctx.ensure_eq("cx", p.cx * ea, w["qy"])
    ctx.ensure_eq("cy", p.cy * ea, w["qx"])
    ctx.ensure_eq("ixx_c", p.ixx_c, w["ixx_g"] - w["qx"] * w["qx"] / ea)
    ctx.ensure_eq("iyy_c", p.iyy_c, w["iyy_g"] - w["qy"] * w["qy"] / ea)
    ctx.ensure_eq("ixy_c", p.ixy_c, w["ixy_g"] - w["qx"] * w["qy"] / ea)
    for r, i in (("rx_c", "ixx_c"), ("ry_c", "iyy_c"), ("r11_c", "i11_c"), ("r22_c", "i22_c")):
        ctx.ensure_eq(r, getattr(p, r) ** 2 * ea, getattr(p, i))
    ctx.ensure_eq("get_c", sec.get_c(), (p.cx, p.cy))
    ctx.ensure_eq("get_rc", sec.get_rc(), (p.rx_c, p.ry_c))
    ctx.ensure_eq("get_rp", sec.get_rp(), (p.r11_c, p.r22_c))


class Moved(El):
    """The same element after a rigid shift: its integrals by the binomial theorem."""

    def __init__(self, tag, idx, dx, dy):
        super().__init__(tag, idx)
        self.dx, self.dy = dx, dy

    def geometric_properties(self):
        a, qx, qy, ixx, iyy, ixy, e, g, rho = super().geometric_properties()
        u, v = self.dx, self.dy
        return (a, qx + v * a, qy + u * a, ixx + 2 * v * qx + v * v * a, iyy + 2 * u * qy + u * u * a,
                ixy + u * qx + v * qy + u * v * a, e, g, rho)


def shifted(ctx):
    """Lemma over the contracts: a rigid shift moves the centroid and leaves the rest."""
    from pydv import seqs

    sec = symbolic_section(ctx, True)
    sec.material_groups = []
    dx, dy = ctx.real("dx"), ctx.real("dy")
    moved = symbolic_section(ctx, True)
    moved.elements = seqs.SymSeq("el", lambda b: Moved("", b, dx, dy))
    for s in (sec, moved):
        # the yield moments are not used here (C11)
        s.material_groups = sec_groups()
        s.calculate_geometric_properties()
    p, q = sec.section_props, moved.section_props
    ctx.ensure_eq("cx", q.cx, p.cx + dx)
    ctx.ensure_eq("cy", q.cy, p.cy + dy)
    for k in ("area", "ea", "ga", "mass", "ixx_c", "iyy_c", "ixy_c", "i11_c", "i22_c"):
        ctx.ensure_eq(k, getattr(q, k), getattr(p, k))
    for k in ("rx_c", "ry_c", "r11_c", "r22_c"):
        ctx.ensure_eq(k, getattr(q, k) ** 2, getattr(p, k) ** 2)


def sec_groups():
    from .seccommon import groups

    return groups()


SYMBOLIC = [centroidal, shifted]
RUNTIME = [("centroidal", rtsec.centroidal, 40, 400), ("shifted", rtsec.shifted, 20, 200)]
