"""C14: frame analysis."""
from . import rtsec
from .seccommon import symbolic_section
from .secwarp import run_warping, warping_elements


def frame(ctx, composite, solver="direct", history=False):
    """Frame analysis against the geometric followed by the warping analysis of the same section."""
    from pydv import terms as T

    full, other = symbolic_section(ctx, composite), symbolic_section(ctx, composite)
    for s in (full, other):
        s.elements = warping_elements(unit=not composite)
    full.calculate_geometric_properties()
    run_warping(ctx, composite, solver, sec=full, unit=not composite)
    if history:
        # anything may have been computed before
        for k in list(vars(other.section_props)):
            if k not in ("omega", "psi_shear", "phi_shear"):
                setattr(other.section_props, k, ctx.real("old_" + k))
    sec, wel, K, f, s, st = run_warping(ctx, composite, solver, "calculate_frame_properties", sec=other, unit=not composite)
    r = st["result"]
    p = full.section_props
    ctx.ensure("six results", len(r) == 6)
    for n, got, want in zip(("area", "ixx_c", "iyy_c", "ixy_c", "j", "phi"), r,
                            (p.area, p.ixx_c, p.iyy_c, p.ixy_c, p.j, p.phi)):
        ctx.ensure_eq(n, got, want)
    q = other.section_props
    for n in ("area", "ea", "qx", "qy", "ixx_g", "iyy_g", "ixy_g", "cx", "cy", "ixx_c", "iyy_c", "ixy_c", "phi", "j"):
        ctx.ensure_eq("stored " + n, getattr(q, n), getattr(p, n))


def frame_composite(ctx):
    frame(ctx, True)


def frame_geometric(ctx):
    frame(ctx, False)


def frame_after_anything(ctx):
    frame(ctx, True, "cgs", history=True)


def frame_geometric_after_anything(ctx):
    frame(ctx, False, history=True)


SYMBOLIC = [frame_composite, frame_geometric, frame_after_anything, frame_geometric_after_anything]
RUNTIME = [("frame", rtsec.frame, 40, 400), ("frame_args", rtsec.frame_args, 5, 20), ("slight rotations", rtsec.slight_frame, 60, 400)]
