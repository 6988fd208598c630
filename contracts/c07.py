"""C07: section totals are material-weighted sums over the mesh."""
from .seccommon import symbolic_section, _fn, El, mods
from . import rtsec

KEYS = ["area", "qx", "qy", "ixx", "iyy", "ixy", "e", "g", "rho"]


def total(sec, f):
    from pydv import terms as T

    return T.sum_over(sec.elements, f(sec.elements.generic()))


def g(el, k):
    return el.geometric_properties()[KEYS.index(k)]


SPEC = {
    "area": lambda e: g(e, "area"),
    "mass": lambda e: g(e, "area") * e.material.density,
    "ea": lambda e: g(e, "area") * e.material.elastic_modulus,
    "ga": lambda e: g(e, "area") * e.material.shear_modulus,
    "qx": lambda e: g(e, "qx") * e.material.elastic_modulus,
    "qy": lambda e: g(e, "qy") * e.material.elastic_modulus,
    "ixx_g": lambda e: g(e, "ixx") * e.material.elastic_modulus,
    "iyy_g": lambda e: g(e, "iyy") * e.material.elastic_modulus,
    "ixy_g": lambda e: g(e, "ixy") * e.material.elastic_modulus,
}


def check_totals(ctx, sec, label=""):
    props = sec.section_props
    want = {k: total(sec, f) for k, f in SPEC.items()}
    for k, w in want.items():
        ctx.ensure_eq(label + k, getattr(props, k), w)
    return want


def geometric_analysis(ctx):
    sec = symbolic_section(ctx, True)
    props = sec.section_props
    sec.calculate_geometric_properties()
    want = check_totals(ctx, sec)
    ctx.ensure_eq("perimeter", props.perimeter, _fn("perimeter"))
    ctx.ensure_eq("e_eff", props.e_eff, want["ea"] / want["area"])
    ctx.ensure_eq("g_eff", props.g_eff, want["ga"] / want["area"])
    ctx.ensure_eq("nu_eff", props.nu_eff, want["ea"] / (2 * want["ga"]) - 1)


def geometric_analysis_again(ctx):
    """From any earlier state (fields hold arbitrary numbers) the totals are the same."""
    sec = symbolic_section(ctx, True)
    props = sec.section_props
    for k in list(vars(props)):
        if k not in ("omega", "psi_shear", "phi_shear"):
            setattr(props, k, ctx.real("old_" + k))
    sec.calculate_geometric_properties()
    check_totals(ctx, sec)


SYMBOLIC = [geometric_analysis, geometric_analysis_again]
RUNTIME = [("totals", rtsec.totals, 40, 400)]
