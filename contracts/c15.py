"""C15: stress results superpose and combine correctly."""
from . import rtsec, rtstress
from .secwarp import COMP, run_stress, section_arguments


def check_combined(ctx, sr, label=""):
    from pydv import npx as np

    g = lambda k: getattr(sr, k)
    e = lambda k, w: ctx.ensure_eq(label + k, g(k), w)
    e("sig_zz_m", g("sig_zz_mxx") + g("sig_zz_myy") + g("sig_zz_m11") + g("sig_zz_m22"))
    e("sig_zz", g("sig_zz_n") + g("sig_zz_mxx") + g("sig_zz_myy") + g("sig_zz_m11") + g("sig_zz_m22"))
    e("sig_zx_v", g("sig_zx_vx") + g("sig_zx_vy"))
    e("sig_zy_v", g("sig_zy_vx") + g("sig_zy_vy"))
    e("sig_zx", g("sig_zx_mzz") + g("sig_zx_vx") + g("sig_zx_vy"))
    e("sig_zy", g("sig_zy_mzz") + g("sig_zy_vx") + g("sig_zy_vy"))
    for k in ("mzz", "vx", "vy", "v"):
        x, y = g("sig_zx_" + k), g("sig_zy_" + k)
        e("sig_zxy_" + k, np.sqrt(x * x + y * y))
    t2 = g("sig_zx") * g("sig_zx") + g("sig_zy") * g("sig_zy")
    e("sig_zxy", np.sqrt(t2))
    s = g("sig_zz")
    # principal stresses: the roots of r^2 - s r - t2 = 0, larger first
    ctx.ensure_eq(label + "sum of the principal stresses", g("sig_11") + g("sig_33"), s)
    ctx.ensure_eq(label + "product of the principal stresses", g("sig_11") * g("sig_33"), -t2)
    d, vm = g("sig_11") - g("sig_33"), g("sig_vm")
    ctx.ensure_eq(label + "difference of the principal stresses", d * d, s * s + 4 * t2)
    ctx.ensure_eq(label + "larger first", np.abs(d), d)
    ctx.ensure_eq(label + "sig_vm squared", vm * vm, s * s + 3 * t2)
    ctx.ensure_eq(label + "sig_vm non-negative", np.abs(vm), vm)


def combined(ctx):
    """calculate_combined_stresses for arbitrary components at any number of nodes."""
    from pydv import seqs
    from pydv import terms as T

    import sectionproperties.post.stress_post as sp

    n = T.symbol("n_nodes", positive=True, integer=True)
    sr = sp.StressResult(n)
    comp = {k: seqs.AbsVec.unknown("c_" + k, n) for k in COMP}
    for k, v in comp.items():
        setattr(sr, k, v.copy())
    sr.calculate_combined_stresses()
    for k, v in comp.items():
        ctx.ensure_eq("component kept " + k, getattr(sr, k), v)
    check_combined(ctx, sr)


def analysis(ctx, composite):
    """calculate_stress leaves consistent combined results in every group."""
    sec, act, st, warp = run_stress(ctx, composite)
    sr = st.material_groups.generic().stress_result
    g = lambda k: getattr(sr, k)
    ctx.ensure_eq("sig_zz", g("sig_zz"), g("sig_zz_n") + g("sig_zz_mxx") + g("sig_zz_myy") + g("sig_zz_m11") + g("sig_zz_m22"))
    ctx.ensure_eq("sig_zx", g("sig_zx"), g("sig_zx_mzz") + g("sig_zx_vx") + g("sig_zx_vy"))
    ctx.ensure_eq("sig_zy", g("sig_zy"), g("sig_zy_mzz") + g("sig_zy_vx") + g("sig_zy_vy"))


def analysis_composite(ctx):
    analysis(ctx, True)


def analysis_geometric(ctx):
    analysis(ctx, False)


SYMBOLIC = [combined, analysis_composite, analysis_geometric]
RUNTIME = [("superposition", rtstress.superposition, 20, 200), ("resultants", rtstress.resultants, 20, 200),
           ("fields", rtstress.fields, 20, 200)]
