"""C32: composite results scale with the moduli and reduce to the homogeneous ones."""
from . import rtcomp
from .c05 import ARGS, OUT, actions, section_inputs
from .common import Tri, element, lib
from .secwarp import WEl, run_warping
from .seccommon import El, Mat, _fn, groups, mods, symbolic_section

#: power of the factor each argument and each result of an element method carries
IN = {"ea": 1, "ixx": 1, "iyy": 1, "ixy": 1, "i11": 1, "i22": 1, "j": 1, "delta_s": 2, "psi_shear": 1, "phi_shear": 1}
RES = {"geometric_properties": [0] * 6 + [1, 1, 0], "torsion_properties": [1] * 3, "shear_load_vectors": [2] * 2,
       "shear_warping_integrals": [2, 2, 1, 1, 1, 1], "shear_coefficients": [3] * 3, "monosymmetry_integrals": [1] * 4,
       "element_stress": [0] * 12, "local_element_stress": [0] * 3}


# ----------------------------------------------------------------- the elements (real fea code)
def two_elements(ctx):
    import dataclasses

    import sectionproperties.pre.pre as pre

    t, k = Tri(ctx), ctx.pos("k")
    e, n = ctx.pos("E"), ctx.real("nu", 0.0, 0.45)
    ctx.assume(1 + n > 0)
    m = pre.Material("m", e, n, ctx.pos("fy"), ctx.pos("rho"), "w")
    return t, k, element(ctx, t, m), element(ctx, t, dataclasses.replace(m, elastic_modulus=k * e))


def method(name):
    def lemma(ctx):
        import inspect

        import numpy as onp

        t, k, a, b = two_elements(ctx)
        np = lib(ctx)
        v = section_inputs(ctx)
        v.update(actions(ctx), p=(ctx.real("px"), ctx.real("py")))
        need = [q for q in inspect.signature(getattr(type(a), name)).parameters if q != "self"]
        args = {q: v[q] for q in need}
        scaled = {q: (args[q] * k ** IN[q] if q in IN else args[q]) for q in need}
        if "p" in args:  # a point of the element (its own interpolation contract is C06)
            args["p"] = scaled["p"] = np.array(args["p"])
        ra, rb = getattr(a, name)(**args), getattr(b, name)(**scaled)
        ctx.ensure("results", len(ra) == len(rb) == len(RES[name]))
        for i, (x, y, p) in enumerate(zip(ra, rb, RES[name])):
            for j, (xx, yy) in enumerate(zip(onp.ravel(x), onp.ravel(y))):
                ctx.ensure_eq(f"{name}[{i}][{j}]", yy, xx * k**p)

    lemma.__name__ = f"element_{name}"
    return lemma


ELEMENT = [method(n) for n in RES]


# ----------------------------------------------------------------- sections (real section code)
class SEl(WEl):
    """An element of the same mesh whose modulus is k times as large: by the element lemmas above, its
    results are those of the original element for the unscaled arguments, times a power of k."""

    def __init__(self, base, k):
        super().__init__(base.tag, base.idx, scaled(base.material, k))
        self.k, self.base = k, base

    def _base(self, name, args, kw):
        import inspect

        import numpy as np
        import sectionproperties.analysis.fea as fea

        b = WEl(self.tag, self.idx, self.base.material)
        b.coords = self.coords
        b._c0 = self._c0
        d = inspect.signature(getattr(fea.Tri6, name)).bind(self, *args, **kw)
        d.apply_defaults()
        kw = {}
        for q, x in list(d.arguments.items())[1:]:
            p = IN.get(q, 0)
            if p:
                x = np.array([y / self.k**p for y in x], dtype=object) if isinstance(x, np.ndarray) else x / self.k**p
            kw[q] = x
        r = getattr(WEl, name)(b, **kw)
        return tuple(x if not p else x * self.k**p for x, p in zip(r, RES[name]))


def _delegate(name):
    def f(self, *a, **k):
        return self._base(name, a, k)

    return f


for _n in RES:
    if hasattr(WEl, _n):
        setattr(SEl, _n, _delegate(_n))


def scaled(m, k):
    d = dict(m.__dict__)
    d["elastic_modulus"] = m.elastic_modulus * k
    d["shear_modulus"] = m.shear_modulus * k
    return Mat(**d)


def scale_seq(s, k):
    from pydv import seqs

    new = seqs.SymSeq(s.name, lambda b: SEl(WEl("", b), k))
    return new


def scale_groups(k):
    """The same material groups with every modulus k times as large."""
    from pydv import seqs
    from .seccommon import _idx

    def group(g):
        mat = Mat(elastic_modulus=_fn("Eg", g, positive=True), yield_strength=_fn("fyg", g, positive=True),
                  shear_modulus=_fn("Gg", g, positive=True), density=_fn("rhog", g, positive=True), name="m")
        s = seqs.SymSeq("gel", lambda b: El("g", (g, b), scaled(mat, k)), outer_deps={_idx(g)}, outer=(g,))
        return Mat(material=scaled(mat, k), elements=s)

    return seqs.SymSeq("grp", group)


POWER = dict.fromkeys(
    "ea ga e_eff g_eff qx qy ixx_g iyy_g ixy_g ixx_c iyy_c ixy_c i11_c i22_c zxx_plus zxx_minus zyy_plus zyy_minus "
    "z11_plus z11_minus z22_plus z22_minus j gamma a_sx a_sy a_sxy a_s11 a_s22 psi_shear phi_shear".split(), 1)
POWER["delta_s"] = 2


def compare(ctx, a, b, k, names=None):
    """b's results are a's times the documented power of the factor."""
    n = 0
    for q in names or vars(a):
        x, y = getattr(a, q), getattr(b, q)
        if x is None or y is None:
            ctx.ensure(f"{q} computed for both", x is None and y is None)
            continue
        n += 1
        ctx.ensure_eq(q, y, x * k ** POWER.get(q, 0))
    ctx.ensure("results compared", n > 0)


def pair(ctx):
    """A composite section, and the same section with every modulus k times as large."""
    from .secwarp import warping_elements

    k = ctx.pos("k")
    a, b = symbolic_section(ctx, True), symbolic_section(ctx, True)
    a.elements = warping_elements()
    b.elements = scale_seq(a.elements, k)
    b.material_groups = scale_groups(k)
    return a, b, k


def geometric(ctx):
    a, b, k = pair(ctx)
    a.calculate_geometric_properties()
    b.calculate_geometric_properties()
    compare(ctx, a.section_props, b.section_props, k)


def warping(ctx, solver="direct", call="calculate_warping_properties"):
    a, b, k = pair(ctx)
    if call == "calculate_warping_properties":
        a.calculate_geometric_properties()
        b.calculate_geometric_properties()
        compare(ctx, a.section_props, b.section_props, k)
        # from here on with values known only through the relation just established (a weaker premise)
        for q, x in vars(a.section_props).items():
            if x is not None:
                y = ctx.pos(q) if q in ("area", "ea", "ga", "ixx_c", "iyy_c", "i11_c", "i22_c", "nu_eff", "e_eff",
                                        "g_eff", "mass") else ctx.real(q)
                setattr(a.section_props, q, y)
                setattr(b.section_props, q, y * k ** POWER.get(q, 0))
    ra = run_warping(ctx, True, solver, call, sec=a)
    rb = run_warping(ctx, True, solver, call, sec=b, scaling=(k, lambda s: scale_seq(s, k)))
    compare(ctx, a.section_props, b.section_props, k)
    if call == "calculate_frame_properties":
        for q, x, y in zip(("area", "ixx_c", "iyy_c", "ixy_c", "j", "phi"), ra[5]["result"], rb[5]["result"]):
            ctx.ensure_eq("returned " + q, y, x * k ** POWER.get(q, 0))


def warping_cgs(ctx):
    warping(ctx, "cgs")


def frame(ctx):
    warping(ctx, call="calculate_frame_properties")


def stresses(ctx):
    """Nodal stresses of the scaled section under the same actions are the same."""
    import numpy as np
    from pydv import seqs
    from .secwarp import ACTS, COMP, section_after_geometric, stress_groups
    from .seccommon import _idx

    S, post = mods()
    k = ctx.pos("k")
    a = section_after_geometric(ctx, True)
    b = section_after_geometric(ctx, True)
    for q, x in vars(a.section_props).items():
        if x is not None:
            setattr(b.section_props, q, x * k ** POWER.get(q, 0))
    for q in ("j", "delta_s"):
        x = ctx.pos(q)
        setattr(a.section_props, q, x)
        setattr(b.section_props, q, x * k ** POWER[q])
    for q in ("omega", "psi_shear", "phi_shear"):
        x = seqs.AbsVec.unknown(q, a.num_nodes)
        setattr(a.section_props, q, x)
        setattr(b.section_props, q, x * k ** POWER.get(q, 0))
    a.material_groups = stress_groups(a.num_nodes)

    def group(g):
        mat = Mat(elastic_modulus=_fn("Eg", g, positive=True), name="m", color="w",
                  yield_strength=_fn("fyg", g, positive=True), shear_modulus=_fn("Gg", g, positive=True))
        grp = S.MaterialGroup(num_nodes=a.num_nodes, material=scaled(mat, k))
        grp.elements = seqs.SymSeq("gel", lambda i: SEl(WEl("g", (g, i), mat), k), outer_deps={_idx(g)}, outer=(g,))
        grp.el_ids = seqs.SymSeq("gid", None, outer_deps={_idx(g)}, outer=(g,))
        return grp

    b.material_groups = seqs.SymSeq("grp", group)
    act = {q: ctx.real(q) for q in ACTS}
    warp = bool(act["vx"] != 0 or act["vy"] != 0 or act["mzz"] != 0)
    WEl.warping_on = warp
    try:
        sa, sb = a.calculate_stress(**act), b.calculate_stress(**act)
    finally:
        WEl.warping_on = True
    from .c16 import ALL

    ga, gb = sa.material_groups.generic(), sb.material_groups.generic()
    for q in COMP:
        ctx.ensure_eq(q, getattr(gb.stress_result, q), getattr(ga.stress_result, q))


# ----------------------------------------------------------------- plastic analysis: frame condition
def plastic_modulus_free(ctx):
    """The plastic forces are those of the yield strengths, whatever the moduli."""
    from . import c20

    geo = c20.split_geometry()
    k = ctx.pos("k")
    split = geo.split_section

    def with_modulus(*a, **kw):
        out = split(*a, **kw)
        for s in out:
            g = s.generic()
            g.material.elastic_modulus = _fn("Er", s.bound, positive=True) * k
            g.material.shear_modulus = _fn("Gr", s.bound, positive=True) * k
        return out

    geo.split_section = with_modulus
    s = c20.section(geo)
    top, bot = s.calculate_plastic_force(u=(ctx.real("u0"), ctx.real("u1")), p=(ctx.real("p0"), ctx.real("p1")))
    (_, _, (t, b)) = geo.log[-1]
    f = lambda r: r.material.yield_strength * r._a
    ctx.ensure_eq("top", top, c20.total([t], f))
    ctx.ensure_eq("bottom", bot, c20.total([b], f))


# ----------------------------------------------------------------- one material, however divided
class Stop(Exception):
    pass


def build(ctx, attributes, materials, n_geoms=None):
    """The real Section.__init__ on a mesh of len(attributes) elements at arbitrary places."""
    import numpy as np
    import sectionproperties.pre.geometry as G

    S, _ = mods()
    n = len(attributes)
    v = np.empty((3 * n + 3, 2), dtype=object)
    for i in range(3 * n + 3):
        for c, q in enumerate("xy"):
            v[i, c] = ctx.real(f"{q}{i}")
    tri = np.array([[3 * i + j for j in (0, 1, 2, 3, 4, 5)] for i in range(n)])
    for t in tri:
        p = [v[q] for q in t[:3]]
        ctx.assume((p[0][0] - p[2][0]) * (p[1][1] - p[2][1]) - (p[1][0] - p[2][0]) * (p[0][1] - p[2][1]) > 0)
    mesh = {"vertices": v, "triangles": tri, "triangle_attributes": np.array([[q] for q in attributes])}
    if len(materials) == 1:
        g = object.__new__(G.Geometry)
        g.material = materials[0]
    else:
        g = object.__new__(G.CompoundGeometry)
        g.geoms = []
        for m in materials:
            q = object.__new__(G.Geometry)
            q.material = m
            g.geoms.append(q)
    g.mesh = mesh
    saved = S.Polygon, S.STRtree
    S.Polygon, S.STRtree = (lambda c: ("triangle", c)), (lambda p: ("tree", list(p)))
    try:
        return S.Section(g)
    finally:
        S.Polygon, S.STRtree = saved


def divided(ctx):
    """Bounded: three elements, up to three regions.  With one material the elements, groups and the kind of
    analysis are those of the undivided section, whichever region each element belongs to."""
    import itertools

    import sectionproperties.pre.pre as pre

    e, nu = ctx.pos("E"), ctx.real("nu")
    ctx.assume(1 + nu > 0)
    common = [lambda: pre.Material("m", e, nu, ctx.pos("fy"), ctx.pos("rho"), "w"), lambda: pre.DEFAULT_MATERIAL,
              lambda: pre.Material("default", 1, 0, 1, 1, "w")]
    for make in common:
        base = build(ctx, [0, 0, 0], [make()])
        for n in (2, 3):
            for at in itertools.product(range(n), repeat=3):
                if max(at) != n - 1:
                    continue
                sec = build(ctx, at, [make() for _ in range(n)])
                ctx.ensure("kind of analysis", sec.is_composite() == base.is_composite())
                ctx.ensure("elements", len(sec.elements) == len(base.elements))
                ctx.ensure("one group", len(sec.material_groups) == len(base.material_groups) == 1)
                for p, q in ((sec.elements, base.elements),
                             (sec.material_groups[0].elements, base.material_groups[0].elements)):
                    ctx.ensure("same elements", [x.el_id for x in p] == [x.el_id for x in q])
                    for x, y in zip(p, q):
                        ctx.ensure("material", x.material == y.material)
                        ctx.ensure("nodes", list(x.node_ids) == list(y.node_ids))
                        ctx.ensure_eq("coordinates", x.coords.ravel(), y.coords.ravel())
                ctx.ensure("same ids", list(sec.material_groups[0].el_ids) == list(base.material_groups[0].el_ids))
                ctx.ensure_eq("nodes of the mesh", sec.mesh_nodes.ravel(), base.mesh_nodes.ravel())


def divided_any(ctx):
    """Any number of elements and nodes, one to three regions of one material: element k has the same number, nodes,
    coordinates and material as in the undivided section, whichever region it lies in; one group holds every element
    exactly once; the analysis is of the same kind."""
    import sectionproperties.pre.pre as pre

    from contracts.c26 import abstract_section, the_elements

    e, nu = ctx.pos("E.div"), ctx.real("nu.div")
    ctx.assume(1 + nu > 0)
    fy, rho = ctx.pos("fy.div"), ctx.pos("rho.div")
    common = [lambda: pre.Material("m", e, nu, fy, rho, "w"), lambda: pre.DEFAULT_MATERIAL,
              lambda: pre.Material("default", 1, 0, 1, 1, "w")]
    for make in common:
        base = abstract_section([make()], 1)[0]
        for n in (1, 2, 3):
            mats = [make() for _ in range(n)]
            sec, tri, cells, _, _ = abstract_section(mats, n)
            ctx.ensure("accepted", sec is not None and base is not None)
            if sec is None or base is None:
                continue
            ctx.ensure("kind of analysis", sec.is_composite() == base.is_composite())
            ctx.ensure("one group", len(sec.material_groups) == 1)
            for x in the_elements(ctx, sec, tri, cells, mats):
                ctx.ensure("the common material", x.material == make())


SYMBOLIC = [*ELEMENT, geometric, warping, warping_cgs, frame, stresses, plastic_modulus_free, divided_any, divided]
RUNTIME = [("factor", rtcomp.factor, 25, 250), ("regions", rtcomp.regions, 25, 250),
           ("thin regions", rtcomp.strips, 15, 150)]
