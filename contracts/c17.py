"""C17: result accessors."""
from . import rtsec2
from .accessors import TABLE, as_list, expected
from .seccommon import mods


def stored_section(ctx, composite, upto="plastic"):
    """A genuine section object with arbitrary stored results."""
    import dataclasses

    S, post = mods()
    import sectionproperties.pre.pre as pre
    from .accessors import PLASTIC, WARPING

    sec = object.__new__(S.Section)
    p = post.SectionProperties()
    late = {"geometric": WARPING + PLASTIC, "warping": PLASTIC, "plastic": []}.get(upto)
    for f in dataclasses.fields(p):
        if upto is None or f.name in late:
            continue
        setattr(p, f.name, ctx.pos(f.name) if f.name in ("area", "ea") else ctx.real(f.name))
    sec.section_props = p
    m = pre.Material(name="m", elastic_modulus=ctx.pos("E"), poissons_ratio=ctx.real("nu"), yield_strength=ctx.pos("fy"),
                     density=ctx.pos("rho"), color="w")
    sec.materials = [pre.DEFAULT_MATERIAL, m] if composite else [pre.DEFAULT_MATERIAL, pre.DEFAULT_MATERIAL]
    return sec, m


def rot(phi, x, y):
    from pydv import npx as np

    a = phi * np.pi / 180
    return x * np.cos(a) - y * np.sin(a), x * np.sin(a) + y * np.cos(a)


def accessors(ctx, composite):
    from pydv import terms as T

    sec, m = stored_section(ctx, composite)
    p = sec.section_props
    other = ctx.pos("e_ref")
    for name, (kind, ref, fields, _) in TABLE.items():
        f = getattr(sec, name)
        if kind != "any" and kind != ("composite" if composite else "geometric"):
            for kw in [{}] + ([{"e_ref": other}, {"e_ref": m}] if ref else []):
                try:
                    f(**kw)
                except RuntimeError:
                    continue
                ctx.ensure(name + " raises for the other kind of section", False)
            continue
        want = expected(p, name, rot)
        cases = [({}, 1)] + ([({"e_ref": other}, other), ({"e_ref": m}, m.elastic_modulus)] if ref else [])
        for kw, e in cases:
            got = as_list(f(**kw))
            ctx.ensure(name + " length", len(got) == len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                ctx.ensure_eq(f"{name}[{i}] {list(kw)}", g, T.coerce(w) / e)
    # asking is not changing
    for k, v in vars(p).items():
        ctx.ensure_eq("kept " + k, v, T._KEYS_sym(k))


def accessors_composite(ctx):
    accessors(ctx, True)


def accessors_geometric(ctx):
    accessors(ctx, False)


def kinds(ctx):
    """A section is geometric-only exactly when every material is the default one."""
    S, post = mods()
    import sectionproperties.pre.pre as pre
    from dataclasses import replace

    d = pre.DEFAULT_MATERIAL
    same = replace(d)
    sec = object.__new__(S.Section)
    ms = [pre.Material(name="default", elastic_modulus=1, poissons_ratio=0, yield_strength=1, density=2, color="w"),
          pre.Material(name="m", elastic_modulus=1, poissons_ratio=0, yield_strength=1, density=1, color="w"),
          pre.Material(name="default", elastic_modulus=2, poissons_ratio=0, yield_strength=1, density=1, color="w")]
    for k, (mats, comp) in enumerate([([d], False), ([d, d, d], False), ([d, same], False), ([same], False)]
                                     + [([m], True) for m in ms] + [([d, m], True) for m in ms] + [([m, d, d], True) for m in ms]
                                     + [([ms[0], ms[1]], True)]):
        sec.materials = mats
        ctx.ensure(f"kind {k}", bool(sec.is_composite()) == comp)
    e = ctx.pos("e_ref")
    ctx.ensure_eq("number", sec.get_e_ref(e), e)
    ctx.ensure_eq("material", sec.get_e_ref(ms[2]), 2)


SYMBOLIC = [accessors_composite, accessors_geometric, kinds]
RUNTIME = [("accessors", rtsec2.accessors, 20, 200)]
