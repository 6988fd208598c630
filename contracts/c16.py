"""C16: stresses are partitioned by material and averaged at nodes."""
from . import rtsec, rtstress
from .secwarp import COMP, WEl, run_stress, section_arguments


def nodal_averages(ctx, composite):
    from pydv import seqs
    from pydv import terms as T

    sec, act, st, warp = run_stress(ctx, composite)
    p = sec.section_props
    ctx.ensure("the section's own groups are not written", st.material_groups is not sec.material_groups)
    for grp, zero in ((sec.material_groups.generic(), True), (st.material_groups.generic(), False)):
        e = grp.elements.generic()
        ids = e.node_ids
        WEl.warping_on = warp
        try:
            r = e.element_stress(**act, **section_arguments(sec, composite), omega=p.omega[ids],
                                 psi_shear=p.psi_shear[ids], phi_shear=p.phi_shear[ids])
        finally:
            WEl.warping_on = True
        w = r[11]
        ix = seqs.index_seq(sec.num_nodes)
        hit = [T.indicator(T.compare0("==", ids[a] - ix.bound)) for a in range(6)]
        fold = lambda v: sum((T.sum_over(grp.elements, hit[a] * v[a]) for a in range(6)), T.coerce(0))
        W = fold(w)
        none = T.indicator(T.compare0("==", W))
        for c, name in enumerate(COMP):
            got = getattr(grp.stress_result, name)
            if zero:
                ctx.ensure_eq("section's own " + name, got, 0)
                continue
            N = fold([r[c][a] * w[a] for a in range(6)])
            # where no element of the material meets (no weight) the value is the empty sum N = 0
            ctx.ensure_eq(name, got, none * N + (1 - none) * N / W)


def averages_composite(ctx):
    nodal_averages(ctx, True)


def averages_geometric(ctx):
    nodal_averages(ctx, False)


ALL = COMP + ["sig_zz_m", "sig_zxy_mzz", "sig_zxy_vx", "sig_zxy_vy", "sig_zx_v", "sig_zy_v", "sig_zxy_v", "sig_zz",
              "sig_zx", "sig_zy", "sig_zxy", "sig_11", "sig_33", "sig_vm"]


def reported_under_own_name(ctx):
    """get_stress: one entry per material, each result under its own name."""
    from pydv import seqs
    from .secwarp import mods, section_after_geometric, stress_groups
    from .secwarp import section_after_geometric

    import sectionproperties.post.stress_post as sp

    sec = section_after_geometric(ctx, True)
    sec.material_groups = stress_groups(sec.num_nodes)
    st = sp.StressPost(sec)
    g = st.material_groups.generic()
    for k in ALL:
        setattr(g.stress_result, k, seqs.AbsVec.unknown("result_" + k, sec.num_nodes))
    g.material.name = "the material's name"
    out = st.get_stress()
    (chunk,) = out.all_chunks()
    kind, seq, items = chunk
    ctx.ensure("one entry per material", kind == "loop" and seq is st.material_groups and len(items) == 1)
    d = items[0]
    ctx.ensure("names", set(d) == set(ALL) | {"material"})
    ctx.ensure("material", d["material"] == "the material's name")
    for k in ALL:
        ctx.ensure_eq(k, d[k], getattr(g.stress_result, k))


SYMBOLIC = [averages_composite, averages_geometric, reported_under_own_name]
RUNTIME = [("partition", rtstress.partition, 30, 300), ("averages", rtstress.averages, 20, 200)]
