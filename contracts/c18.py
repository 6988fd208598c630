"""C18: prerequisites; no stale results."""
from . import rtsec2
from .accessors import PLASTIC, TABLE, WARPING
from .c17 import stored_section


def must_raise(ctx, name, f, *a, **k):
    try:
        f(*a, **k)
    except RuntimeError:
        ctx.ensure(name, True)
        return
    ctx.ensure(name + " raises", False)


LEVEL = {"geometric": 0, "warping": 1, "plastic": 2}


def accessors(ctx, composite):
    """An accessor raises whenever its analysis has not stored its results, whatever else is stored."""
    for upto in (None, "geometric", "warping"):
        have = -1 if upto is None else LEVEL[upto]
        sec, m = stored_section(ctx, composite, upto)
        for name, (kind, ref, fields, an) in TABLE.items():
            if LEVEL[an] > have:
                must_raise(ctx, f"{name} after {upto}", getattr(sec, name))
                if ref:
                    must_raise(ctx, f"{name} of m after {upto}", getattr(sec, name), e_ref=m)
    # warping not needed for plastic results: plastic stored, warping not
    sec, m = stored_section(ctx, composite, "plastic")
    for f in WARPING:
        setattr(sec.section_props, f, None)
    for name, (kind, ref, fields, an) in TABLE.items():
        if an == "warping":
            must_raise(ctx, f"{name} without warping", getattr(sec, name))
        elif kind == "any" or kind == ("composite" if composite else "geometric"):
            getattr(sec, name)()
            ctx.ensure(name + " available", True)


def accessors_composite(ctx):
    accessors(ctx, True)


def accessors_geometric(ctx):
    accessors(ctx, False)


def analyses(ctx):
    """No analysis runs before its prerequisite, and none of the refused ones stores anything."""
    for composite in (True, False):
        sec, _ = stored_section(ctx, composite, None)
        pts = [(ctx.real("px"), ctx.real("py"))]
        for solver in ("direct", "cgs"):
            must_raise(ctx, "warping", sec.calculate_warping_properties, solver_type=solver)
        must_raise(ctx, "plastic", sec.calculate_plastic_properties)
        must_raise(ctx, "stress", sec.calculate_stress, n=ctx.real("n"))
        must_raise(ctx, "points", sec.get_stress_at_points, pts=pts, n=ctx.real("n"))
        for k, v in vars(sec.section_props).items():
            ctx.ensure("nothing stored in " + k, v is None)


def stress_needs_warping(ctx):
    sec, _ = stored_section(ctx, True, "geometric")
    a = {k: ctx.real(k) for k in ("n", "mxx", "myy", "m11", "m22", "vx", "vy", "mzz")}
    ctx.assume(a["vx"] ** 2 + a["vy"] ** 2 + a["mzz"] ** 2 > 0)
    must_raise(ctx, "stress", sec.calculate_stress, **a)


def point_stress_needs_warping(ctx):
    sec, _ = stored_section(ctx, False, "geometric")
    a = {k: ctx.real(k) for k in ("n", "mxx", "myy", "m11", "m22", "vx", "vy", "mzz")}
    ctx.assume(a["vx"] ** 2 + a["vy"] ** 2 + a["mzz"] ** 2 > 0)
    must_raise(ctx, "points", sec.get_stress_at_points, pts=[(ctx.real("px"), ctx.real("py"))], **a)


def stress_results_kept(ctx, composite):
    """A later stress analysis does not change the result of an earlier one."""
    from .secwarp import COMP, WEl, run_stress

    sec, act, st, warp = run_stress(ctx, composite)
    old = st.material_groups.generic().stress_result
    WEl.warping_on = False
    try:
        later = sec.calculate_stress(n=ctx.real("n_later"), m11=ctx.real("m11_later"))
    finally:
        WEl.warping_on = True
    own = sec.material_groups.generic().stress_result
    sr = later.material_groups.generic().stress_result
    ctx.ensure("results of its own", later is not st and sr is not old and sr is not own)
    ctx.ensure("earlier result kept", st.material_groups.generic().stress_result is old)
    for k in COMP:
        # the later analysis writes to none of the earlier arrays (C16: nor to the section's own)
        ctx.ensure("array of its own " + k, getattr(sr, k) is not getattr(old, k) and getattr(sr, k) is not getattr(own, k))


def stress_kept_composite(ctx):
    stress_results_kept(ctx, True)


def stress_kept_geometric(ctx):
    stress_results_kept(ctx, False)


SYMBOLIC = [accessors_composite, accessors_geometric, analyses, stress_needs_warping, point_stress_needs_warping,
            stress_kept_composite, stress_kept_geometric]
RUNTIME = [("failed_analyses", rtsec2.failed_analyses, 25, 250), ("histories", rtsec2.histories, 60, 600), ("prerequisites", rtsec2.prerequisites, 8, 60),
           ("prerequisites_after_frame", rtsec2.prerequisites_after_frame, 6, 40)]
