"""C06: stress at a point."""
from . import rtstress
from .common import Tri, dual, element, frac, lib, material
from .c05 import ARGS, actions, fields, section_inputs
from .secwarp import ACTS, WEl, section_after_geometric, section_arguments


def point(ctx):
    l1, l2 = ctx.real("l1", 0, 0.6), ctx.real("l2", 0, 0.4)
    return l1, l2, 1 - l1 - l2


def shape(q):
    a, b, c = q
    return [a * (2 * a - 1), b * (2 * b - 1), c * (2 * c - 1), 4 * a * b, 4 * b * c, 4 * a * c]


def interpolated(ctx):
    """local_element_stress: the quadratic interpolation of the element's nodal stresses (known only by
    their contract) of all actions together, for any nodal stresses."""
    import numpy as np

    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    v = section_inputs(ctx)
    act = {k: ctx.real(k) for k in ARGS}
    q = point(ctx)
    nodal = [[ctx.real(f"s{c}_{i}") for i in range(6)] for c in range(11)]
    weights = [ctx.pos(f"w{i}") for i in range(6)]
    seen = []

    def element_stress(**k):
        seen.append(k)
        return tuple(np.array(r, dtype=object) for r in nodal + [weights])

    el.element_stress = element_stress
    r = el.local_element_stress(p=(t.x.at(*q), t.y.at(*q)), **act, **v)
    ctx.ensure("one evaluation", len(seen) == 1)
    for k, x in {**act, **v}.items():
        ctx.ensure_eq("passed " + k, seen[0][k], x)
    n = shape(q)
    comp = [sum((n[i] * c[i] for i in range(6)), 0) for c in nodal]
    ctx.ensure("three stresses", len(r) == 3)
    ctx.ensure_eq("zz", r[0], comp[0] + comp[1] + comp[2] + comp[3] + comp[4])
    ctx.ensure_eq("zx", r[1], comp[5] + comp[7] + comp[9])
    ctx.ensure_eq("zy", r[2], comp[6] + comp[8] + comp[10])


@dual(samples=30)
def linear_field(ctx):
    """Axial and bending stresses at any point are the analytical linear field."""
    np = lib(ctx)
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    v = section_inputs(ctx)
    z = 0 if ctx.mode == "symbolic" else 0.0
    v.update(j=z, delta_s=z, nu=z, omega=np.zeros(6), psi_shear=np.zeros(6), phi_shear=np.zeros(6))
    act = actions(ctx)
    act.update(mzz=z, vx=z, vy=z)
    q = point(ctx)
    r = el.local_element_stress(p=(t.x.at(*q), t.y.at(*q)), **act, **v)
    fs = fields(ctx, t, m.elastic_modulus, act, dict(v, j=1, delta_s=1))
    want = [f.at(*q) for f in fs[:5]]
    sc = None
    if ctx.mode != "symbolic":
        from .common import dist_scale

        sc = max(1.0, dist_scale(ctx, t)) ** 2 * max(1.0, max(abs(x) for x in want))
    ctx.ensure_eq("zz", r[0], sum(want), scale=sc, rtol=1e-8)
    ctx.ensure_eq("zx", r[1], 0, scale=sc)
    ctx.ensure_eq("zy", r[2], 0, scale=sc)


class PEl(WEl):
    def local_element_stress(self, *a, **k):
        return tuple(self._call("local_element_stress", ["zz", "zx", "zy"], a, k))


def at_points(ctx, composite):
    """get_stress_at_points on any mesh, for points met by no, one, two or three elements.

    Callee contracts: the tree query returns the elements whose closed triangle holds the point (checked at run
    time), local_element_stress is a function of element and arguments (above)."""
    from pydv import seqs
    from pydv import terms as T

    import sectionproperties.analysis.section as S

    sec = section_after_geometric(ctx, composite)

    class Elements:
        def __getitem__(self, k):
            return PEl("", k)

    sec.elements = Elements()
    p = sec.section_props
    p.j, p.delta_s = ctx.pos("j"), ctx.pos("delta_s")
    for k in ("omega", "psi_shear", "phi_shear"):
        setattr(p, k, seqs.AbsVec.unknown(k, sec.num_nodes))
    ids = [T.symbol(f"id{i}", positive=True, integer=True) for i in range(3)]
    hits = [[ids[0]], [], [ids[1], ids[2]], [ids[2], ids[0], ids[1]], [ids[1]]]
    pts = [(ctx.real(f"px{i}"), ctx.real(f"py{i}")) for i in range(len(hits))]

    where = {(a.key(), b.key()): i for i, (a, b) in enumerate(pts)}

    class Hits(list):
        def tolist(self):
            return list(self)

    class Tree:
        def query(self, geom, predicate=None, **k):
            ctx.ensure("closed containment", predicate == "intersects")
            return Hits(hits[where[geom[0].key(), geom[1].key()]])

    sec.mesh_search_tree = Tree()
    act = {k: ctx.real(k) for k in ACTS}
    warp = bool(act["vx"] != 0 or act["vy"] != 0 or act["mzz"] != 0)
    aggs = []

    def agg(xs):
        aggs.append(list(xs))
        return T.func(f"agg{len(xs)}", *xs)

    old = S.Point
    S.Point = lambda *a: tuple(a[0]) if len(a) == 1 else a
    try:
        r = sec.get_stress_at_points(pts, **act, agg_func=agg)
    finally:
        S.Point = old
    ctx.ensure("one result per point", len(r) == len(pts))
    args = section_arguments(sec, composite)
    for i, (pt, h, got) in enumerate(zip(pts, hits, r)):
        if not h:
            ctx.ensure("no element, no result", got is None)
            continue
        each = []
        for k in h:
            e = sec.elements[k]
            d = dict(args)
            z = dict(omega=p.omega, psi_shear=p.psi_shear, phi_shear=p.phi_shear)
            z = {n: x[e.node_ids] for n, x in z.items()}
            if not warp:  # the warping data do not matter without warping actions
                d.update(j=0, delta_s=0, nu=0)
                import numpy as np

                z = {n: [0] * 6 for n in z}
            each.append(e.local_element_stress(p=pt, **act, **d, **z))
        for c in range(3):
            want = each[0][c] if len(h) == 1 else T.func(f"agg{len(h)}", *[x[c] for x in each])
            ctx.ensure_eq(f"point {i} component {c}", got[c], want)


def at_points_composite(ctx):
    at_points(ctx, True)


def at_points_geometric(ctx):
    at_points(ctx, False)


SYMBOLIC = [interpolated, linear_field, at_points_composite, at_points_geometric]
RUNTIME = [("points", rtstress.points, 40, 400), ("outside", rtstress.outside, 20, 200)]
