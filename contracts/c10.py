"""C10: elastic section moduli use the true extreme fibres."""
from .seccommon import symbolic_section
from . import rtsec


def elastic_moduli(ctx):
    from pydv import npx as np
    from pydv import terms as T

    sec = symbolic_section(ctx, True)
    p = sec.section_props
    sec.calculate_geometric_properties()
    nodes = sec._nodes
    r = p.phi * np.pi / 180
    c, s = np.cos(r), np.sin(r)
    fs = {
        "zxx": ("ixx_c", lambda q: q[1] - p.cy), "zyy": ("iyy_c", lambda q: q[0] - p.cx),
        "z11": ("i11_c", lambda q: (q[1] - p.cy) * c - (q[0] - p.cx) * s),
        "z22": ("i22_c", lambda q: (q[0] - p.cx) * c + (q[1] - p.cy) * s),
    }
    for k, (i, f) in fs.items():
        for side, kind in (("plus", "max"), ("minus", "min")):
            z = getattr(p, f"{k}_{side}")
            # distance of the extreme node of that side (the centroid lies between the extremes)
            if k in ("zxx", "zyy"):
                col = (lambda q: q[1]) if k == "zxx" else (lambda q: q[0])
                d = T.absolute(nodes.ext(kind, col) - (p.cy if k == "zxx" else p.cx))
            else:
                d = T.absolute(nodes.ext(kind, f))
            ctx.ensure_eq(f"{k}_{side}", z * d, getattr(p, i))


SYMBOLIC = [elastic_moduli]
RUNTIME = [("moduli", rtsec.moduli, 60, 500)]
