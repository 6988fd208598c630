"""C11: yield moments are first-yield moments."""
from .seccommon import symbolic_section
from . import rtsec


def yield_moments(ctx):
    from pydv import npx as np
    from pydv import terms as T

    sec = symbolic_section(ctx, True)
    p = sec.section_props
    sec.calculate_geometric_properties()
    grp = sec.material_groups
    gg = grp.generic()
    el = gg.elements.generic()
    em, fy = gg.material.elastic_modulus, gg.material.yield_strength
    det = p.ixx_c * p.iyy_c - p.ixy_c * p.ixy_c
    r = p.phi * np.pi / 180
    c, s = np.cos(r), np.sin(r)
    f = {
        "my_xx": lambda x, y: (p.iyy_c * y - p.ixy_c * x) / det,
        "my_yy": lambda x, y: (p.ixy_c * y - p.ixx_c * x) / det,
        "my_11": lambda x, y: (y * c - x * s) / p.i11_c,
        "my_22": lambda x, y: (x * c + y * s) / p.i22_c,
    }
    for k, h in f.items():
        ratios = [
            T.absolute(em * h(el.coords[0, i] - p.cx, el.coords[1, i] - p.cy) / fy) for i in range(6)
        ]
        worst = T.ext_over("max", grp, [T.ext_over("max", gg.elements, ratios)])
        # the largest stress ratio under the yield moment is exactly one
        ctx.ensure_eq(k, getattr(p, k) * worst, 1)


SYMBOLIC = [yield_moments]
RUNTIME = [("yields", rtsec.yields, 60, 500)]
