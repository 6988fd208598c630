"""C20: plastic analysis."""
from . import rtplastic
from .seccommon import Mat, Nodes, _fn


def module():
    import sectionproperties.analysis.plastic_section as ps

    return ps


class Region:
    """A region known by the contracts of its own methods."""

    __pydv_obj__ = True

    def __init__(self, tag, k, extra=()):
        f = lambda n, **kw: _fn(n + tag, k, *extra, **kw)
        self.material = Mat(yield_strength=f("fy", positive=True))
        self._a, self._cx, self._cy = f("A", positive=True), f("gx"), f("gy")

    def calculate_area(self):
        return self._a

    def calculate_centroid(self):
        return self._cx, self._cy


def split_geometry(nodes=None, empty=()):
    """A geometry known by the contract of split_section (C21): any number of regions on each side of the line."""
    from pydv import seqs
    from pydv import terms as T

    class Geo:
        __pydv_obj__ = True

        def __init__(self):
            self.log = []
            self.points = nodes

        def split_section(self, point_i=None, vector=None, point_j=None):
            p, u = [T.coerce(v) for v in point_i], [T.coerce(v) for v in vector]
            assert point_j is None
            n = len(self.log)
            out = []
            for side in ("top", "bot"):
                if side in empty:
                    out.append([])
                    continue
                tag = f"_{side}{n}"
                out.append(seqs.SymSeq(f"reg{tag}", lambda k, t=tag: Region(t, k)))
            self.log.append((p, u, out))
            return tuple(out)

    return Geo()


def total(parts, f):
    from pydv import seqs
    from pydv import terms as T

    t = T.coerce(0)
    for s in parts:
        if isinstance(s, list):
            continue
        t = t + seqs._fold("sum", s, [(True, f(s.generic()))])
    return t


def section(geo):
    ps = module()
    s = object.__new__(ps.PlasticSection)
    s.geometry = geo
    s._f_list, s._cx_list, s._cy_list = [], [], []
    return s


def plastic_force(ctx, empty=()):
    """Squash loads of the two sides, and one record per region."""
    geo = split_geometry(empty=empty)
    s = section(geo)
    u, p = (ctx.real("u0"), ctx.real("u1")), (ctx.real("p0"), ctx.real("p1"))
    for again in range(2):  # nothing is left over from an earlier split
        top, bot = s.calculate_plastic_force(u=u, p=p)
    (p1, u1, (t, b)) = geo.log[-1]
    for i in range(2):
        ctx.ensure_eq(f"p{i}", p1[i], p[i])
        ctx.ensure_eq(f"u{i}", u1[i], u[i])
    f = lambda r: r.material.yield_strength * r._a
    ctx.ensure_eq("top", top, total([t], f))
    ctx.ensure_eq("bottom", bot, total([b], f))
    g = ctx.real("g")
    acc = 0
    from pydv.extract import x_sum, x_zip

    for n, l, w in (("x", s._cx_list, lambda r: r._cx), ("y", s._cy_list, lambda r: r._cy)):
        got = x_zip(s._f_list, l)
        acc = 0
        for a, c in got:
            acc += a * (c - g) ** 2
        ctx.ensure_eq("records " + n, acc, total([t, b], lambda r: f(r) * (w(r) - g) ** 2))


def plastic_force_both(ctx):
    plastic_force(ctx)


def plastic_force_top_only(ctx):
    plastic_force(ctx, ("bot",))


def plastic_force_bottom_only(ctx):
    plastic_force(ctx, ("top",))


def force_equilibrium(ctx):
    """evaluate_force_eq vanishes exactly when the squash loads are equal; same sign as top less bottom."""
    geo = split_geometry()
    s = section(geo)
    d = ctx.real("d")
    u, n = (ctx.real("u0"), ctx.real("u1")), (ctx.real("n0"), ctx.real("n1"))
    import pydv.npx as np

    v = s.evaluate_force_eq(d, u, np.array(n), False)
    p1, u1, (t, b) = geo.log[-1]
    f = lambda r: r.material.yield_strength * r._a
    ctx.ensure_eq("point x", p1[0], d * n[0])
    ctx.ensure_eq("point y", p1[1], d * n[1])
    ctx.ensure_eq("direction x", u1[0], u[0])
    ctx.ensure_eq("direction y", u1[1], u[1])
    ctx.ensure_eq("residual", v * (total([t], f) + total([b], f)), total([t], f) - total([b], f))


class Root:
    __pydv_obj__ = True

    def __init__(self, converged=True):
        self.converged = converged
        self.iterations = 5
        self.flag = "flag"


def install_brentq(ps, ctx, log, fail_at=None):
    """Contract of scipy.optimize.brentq: some d, f evaluated last there, with the value v (zero, by its contract)."""
    def brentq(f, a, b, args=(), full_output=False, disp=True, xtol=None, rtol=None, maxiter=None):
        d = ctx.real(f"root{len(log)}")
        v = f(d, *args)
        log.append((a, b, d, v, full_output, xtol, rtol))
        return d, Root(fail_at != len(log) - 1)

    ps.brentq = brentq


def properties(ctx, composite):
    import pydv.npx as np
    import sectionproperties.post.post as post
    import sectionproperties.pre.pre as pre

    ps = module()
    old = ps.brentq
    nodes = Nodes()
    geo = split_geometry(nodes)
    s = section(geo)
    log = []
    install_brentq(ps, ctx, log)
    try:
        p = post.SectionProperties()
        p.phi = phi = ctx.real("phi")
        for n in ("zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus", "z11_plus", "z11_minus", "z22_plus", "z22_minus",
                  "my_xx", "my_yy", "my_11", "my_22"):
            setattr(p, n, ctx.pos(n))
        sec = Mat(section_props=p)
        m = pre.Material(name="m", elastic_modulus=1, poissons_ratio=0, yield_strength=1, density=1, color="w")
        sec.materials = [pre.DEFAULT_MATERIAL, m] if composite else [pre.DEFAULT_MATERIAL, pre.DEFAULT_MATERIAL]
        s.calculate_plastic_properties(section=sec, verbose=False)
    finally:
        ps.brentq = old
    c, q = np.cos(phi * np.pi / 180), np.sin(phi * np.pi / 180)
    f = lambda r: r.material.yield_strength * r._a
    from pydv import terms as T

    ctx.ensure("four lines", len(geo.log) == 4 and len(log) == 4)
    for k, (name, n, at, mom) in enumerate([
            ("x", (0, 1), p.y_pc, p.sxx), ("y", (1, 0), p.x_pc, p.syy), ("11", (-q, c), p.y22_pc, p.s11),
            ("22", (c, q), p.x11_pc, p.s22)]):
        pt, u, (t, b) = geo.log[k]
        lo, hi, d, v, full, xtol, rtol = log[k]
        ctx.ensure_eq(f"line of {name} through", pt[0] * n[0] + pt[1] * n[1], at)
        ctx.ensure_eq(f"line of {name} direction", u[0] * n[0] + u[1] * n[1], 0)
        ctx.ensure_eq(f"line of {name} defined", u[0] * u[0] + u[1] * u[1], 1)
        # v == 0 is the contract of the root finder
        ctx.ensure_eq(f"equal squash load about {name}", total([t], f) - total([b], f), v * (total([t], f) + total([b], f)))
        ctx.ensure_eq(f"plastic moment about {name}", mom,
                      total([t, b], lambda r: f(r) * T.absolute(r._cx * n[0] + r._cy * n[1] - at)))
        along = lambda xy: xy[0] * n[0] + xy[1] * n[1]
        ctx.ensure_eq(f"bracket of {name} from", lo, nodes.ext("min", along))
        ctx.ensure_eq(f"bracket of {name} to", hi, nodes.ext("max", along))
        ctx.ensure(f"tolerance {name}", full and xtol <= T.coerce(T.F(1, 100000)) and rtol <= T.coerce(T.F(1, 100000)))
    den = {"xx_plus": p.my_xx if composite else p.zxx_plus, "xx_minus": p.my_xx if composite else p.zxx_minus,
           "yy_plus": p.my_yy if composite else p.zyy_plus, "yy_minus": p.my_yy if composite else p.zyy_minus,
           "11_plus": p.my_11 if composite else p.z11_plus, "11_minus": p.my_11 if composite else p.z11_minus,
           "22_plus": p.my_22 if composite else p.z22_plus, "22_minus": p.my_22 if composite else p.z22_minus}
    num = {"xx": p.sxx, "yy": p.syy, "11": p.s11, "22": p.s22}
    for k, v in den.items():
        ctx.ensure_eq("shape factor " + k, getattr(p, "sf_" + k) * v, num[k[:2]])


def properties_composite(ctx):
    properties(ctx, True)


def properties_geometric(ctx):
    properties(ctx, False)


def not_converged(ctx):
    """A root search that did not converge is an error, for every axis."""
    import sectionproperties.post.post as post
    import sectionproperties.pre.pre as pre

    ps = module()
    old = ps.brentq
    for k in range(4):
        geo = split_geometry(Nodes())
        s = section(geo)
        log = []
        install_brentq(ps, ctx, log, fail_at=k)
        p = post.SectionProperties()
        p.phi = ctx.real("phi")
        sec = Mat(section_props=p, materials=[pre.DEFAULT_MATERIAL])
        try:
            s.calculate_plastic_properties(section=sec, verbose=False)
        except RuntimeError:
            ctx.ensure(f"axis {k}", True)
        else:
            ctx.ensure(f"axis {k} raises", False)
        finally:
            ps.brentq = old


def construction(ctx):
    """The analysis works on the geometry moved to its centroid, compiled."""
    ps = module()
    calls = []

    class G:
        __pydv_obj__ = True

        def align_center(self):
            g = G()
            g.parent = self
            calls.append(("align", self))
            return g

        def compile_geometry(self):
            calls.append(("compile", self))

    g = G()
    s = ps.PlasticSection(g)
    ctx.ensure("moved copy", s.geometry is not g and s.geometry.parent is g)
    ctx.ensure("compiled", ("compile", s.geometry) in calls and ("compile", g) not in calls)


SYMBOLIC = [plastic_force_both, plastic_force_top_only, plastic_force_bottom_only, force_equilibrium,
            properties_composite, properties_geometric, not_converged, construction]
RUNTIME = [("plastic", rtplastic.plastic, 120, 800), ("moved", rtplastic.moved, 25, 150)]
