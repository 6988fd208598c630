"""C28: steel and primitive sections."""
from __future__ import annotations

from . import libmodel as L
from . import libspec, rtlib
from .c25 import need
from .c21 import patched


def radius(ctx):
    """utils.draw_radius: any radius, start angle, sweep and number of points."""
    from pydv import npx as np

    u = L.library("utils")
    pt = (ctx.real("px"), ctx.real("py"))
    r, th, phi, n = ctx.real("r"), ctx.real("theta"), ctx.real("phi"), ctx.pos("n")
    ctx.assume(n >= 1)
    last = n - 1 if bool(n >= 2) else 1
    for ccw, given in ((True, True), (False, True), (True, False), (False, False)):
        kw = {"phi": phi} if given else {}
        out = u.draw_radius(pt=pt, r=r, theta=th, n=n, ccw=ccw, **kw)
        sweep = (phi if given else np.pi / 2) * (1 if ccw else -1)
        if hasattr(out, "all_chunks") and out.chunks:
            ctx.ensure("points are drawn for a radius only", (r == 0).negate() if not isinstance(r == 0, bool) else not (r == 0))
            ch = out.all_chunks()
            need(len(ch) == 1 and ch[0][0] == "loop" and len(ch[0][2]) == 1, "one loop")
            _, seq, ((x, y),) = ch[0]
            ctx.ensure_eq("n points", seq.length, n)
            i = seq.bound
            a = L.Arc(pt, r, th, sweep)
            ctx.ensure_eq("evenly spaced on the arc", [x, y], list(a.at(np, th + sweep * i / last)))
        else:
            ctx.ensure_eq("no radius", r, 0)
            ctx.ensure("the centre alone", len(out) == 1)
            ctx.ensure_eq("the centre", list(out[0]), list(pt))
    # positional use, counter-clockwise by default
    out = u.draw_radius(pt, r, th, n)
    if getattr(out, "chunks", None):
        _, seq, ((x, y),) = out.all_chunks()[0]
        ctx.ensure_eq("defaults", [x, y], list(L.Arc(pt, r, th, np.pi / 2).at(np, th + np.pi / 2 * seq.bound / last)))


def rotation(ctx):
    from pydv import npx as np

    u = L.library("utils")
    x, y, a = ctx.real("x"), ctx.real("y"), ctx.real("a")
    got = u.rotate((x, y), a)
    ctx.ensure_eq("rotated counter-clockwise", list(got), [x * np.cos(a) - y * np.sin(a), x * np.sin(a) + y * np.cos(a)])


def lemmas(ctx):
    """The moments used by the specifications: a plate and a quarter fillet in closed form."""
    from pydv import npx as np

    x, y, w, h, r = (ctx.real(k) for k in ("lx", "ly", "lw", "lh", "lr"))
    m = L.moments(np, L.rect(x, y, x + w, y + h))
    want = {"area": w * h, "qx": w * h * (y + h / 2), "qy": w * h * (x + w / 2), "ixx": w * h * (h * h / 12 + (y + h / 2) ** 2),
            "iyy": w * h * (w * w / 12 + (x + w / 2) ** 2), "ixy": w * h * (x + w / 2) * (y + h / 2)}
    for k in want:
        ctx.ensure_eq(f"plate {k}", m[k], want[k])
    pi = np.pi
    F = lambda a, b: L_F(a, b)
    for sx in (1, -1):
        for sy in (1, -1):
            s, c = L.fillet(np, 0, 0, sx, sy, r)
            m = L.moments(np, c)
            first, cross = F(5, 6) - pi / 4, F(19, 24) - pi / 4
            want = {"area": (1 - pi / 4) * r ** 2, "qx": sy * first * r ** 3, "qy": sx * first * r ** 3,
                    "ixx": (1 - pi * 5 / 16) * r ** 4, "iyy": (1 - pi * 5 / 16) * r ** 4, "ixy": sx * sy * cross * r ** 4}
            for k in want:
                ctx.ensure_eq(f"fillet {k}", s * m[k], want[k])


def L_F(a, b):
    from pydv import terms as T

    return T.Sym.const(T.F(a, b))


def generator(name, variant):
    sp = libspec.SPECS[name]

    def harness(ctx):
        from pydv import npx as np
        from pydv import terms as T

        dims = {}
        for n in variant:
            dims[n] = ctx.real(n) if n.startswith("r") else ctx.pos(n)
        d = {k: v for k, v in dims.items() if k != "n_r"}
        draw = (lambda rng: sp.sample(rng, variant)) if len(sp.variants) > 1 else sp.sample

        def sampler(rng):
            o = {k: v for k, v in draw(rng).items() if k in dims}
            if "n_r" in dims:
                o["n_r"] = rng.randint(2, 9)
            return o

        ctx.sampler(sampler)
        for c in sp.conds(**d):
            ctx.assume(c)
            if getattr(c, "op", "") == "or":  # one case per alternative
                bool(c.args[0])
        if "n_r" in dims:
            ctx.assume(dims["n_r"] >= 2)
        if "alpha" in dims:
            a = libspec.taper(np, dims["alpha"])
            ctx.assume(np.cos(a) > 0)
            ctx.assume(np.sin(a) > 0)
            ctx.assume(np.sin(a) < 1)
        g = L.run(ctx, sp.mod, sp.fn, dims)
        rings, bounds = sp.build(np, **d)
        got = g.geom.rings()
        ctx.ensure("number of openings", len(got) == len(rings))
        for k, (o, want) in enumerate(zip(got, rings)):
            arcs = [p for _, c in want for p in c if isinstance(p, L.Arc)]
            chain = L.chain_of(ctx, o, arcs)
            L.compare(ctx, "outline" if k == 0 else "opening", chain, want)
            if k == 0 and "alpha" not in dims and name not in ("box_girder_section", "bulb_section"):
                L.extents(ctx, "extents", chain, bounds)

    harness.__name__ = name + ("" if len(sp.variants) == 1 else ":" + ",".join(v for v in variant if v not in sp.variants[0]))
    return harness


GENERATORS = [generator(n, v) for n, sp in libspec.SPECS.items() for v in sp.variants]


def loop_point(o):
    pts = o.points
    need(hasattr(pts, "all_chunks"), "not a point list")
    ch = pts.all_chunks()
    need(len(ch) == 1 and ch[0][0] == "loop" and len(ch[0][2]) == 1, "one point per step")
    return ch[0][1], ch[0][2][0]


def circles(ctx):
    """Circles, ellipses and their hollow forms: n points at equal angles on the stated curve."""
    from pydv import npx as np

    d, dx, dy, t, n = (ctx.pos(k) for k in ("d", "d_x", "d_y", "t", "n"))
    ctx.assume(n >= 3)
    for mod, fn, kw, rings in (
        ("primitive_sections", "circular_section", dict(d=d, n=n), [(d, d)]),
        ("primitive_sections", "elliptical_section", dict(d_x=dx, d_y=dy, n=n), [(dx, dy)]),
        ("steel_sections", "circular_hollow_section", dict(d=d, t=t, n=n), [(d, d), (d - 2 * t, d - 2 * t)]),
        ("steel_sections", "elliptical_hollow_section", dict(d_x=dx, d_y=dy, t=t, n=n), [(dx, dy), (dx - 2 * t, dy - 2 * t)]),
    ):
        g = L.run(ctx, mod, fn, kw)
        got = g.geom.rings()
        ctx.ensure(f"{fn}: openings", len(got) == len(rings))
        for k, (o, (a, b)) in enumerate(zip(got, rings)):
            seq, (x, y) = loop_point(o)
            ctx.ensure_eq(f"{fn}: n points", seq.length, n)
            w = 2 * np.pi * seq.bound / n
            ctx.ensure_eq(f"{fn}: ring {k}", [x, y], [a / 2 * np.cos(w), b / 2 * np.sin(w)])


def by_area(ctx):
    """The polygon of n sides has the area asked for: n/2 R^2 sin(2 pi/n) = area."""
    from pydv import npx as np

    p = L.library("primitive_sections")
    area, n = ctx.pos("area"), ctx.pos("n")
    ctx.assume(n >= 3)
    ctx.sampler(lambda rng: {"area": rng.uniform(0.1, 9), "n": rng.randint(3, 20)})
    s, c = np.sin(np.pi / n), np.cos(np.pi / n)
    ctx.assume(s > 0)  # 0 < pi/n <= pi/3
    ctx.assume(c > 0)
    seen = []
    mat = object()
    with patched(p, circular_section=lambda d, n, material=None: seen.append((d, n, material)) or "circle"):
        r = p.circular_section_by_area(area=area, n=n, material=mat)
    ctx.ensure("a circle", r == "circle" and len(seen) == 1)
    d, m, got = seen[0]
    ctx.ensure("the material given", got is mat)
    ctx.ensure_eq("n sides", m, n)
    ctx.ensure_eq("the area", n * d * d / 4 * s * c, area)
    ctx.ensure("a positive diameter", d > 0)


def polygon(ctx):
    """Regular hollow polygons: any number of sides, corner radius, corner points and rotation.

    The rounded polygon is the set of points within r of the regular polygon whose sides are r further in; the generic
    point of corner i is that corner plus r in the direction turning from one side's normal to the next one's."""
    from pydv import npx as np

    d, t, ns, n, rin, rot = ctx.pos("d"), ctx.pos("t"), ctx.pos("n_sides"), ctx.pos("n_r"), ctx.real("r_in"), ctx.real("rot")
    ctx.sampler(lambda rng: {"d": rng.uniform(5, 9), "t": rng.uniform(0.1, 0.9), "n_sides": rng.randint(3, 9), "n_r": rng.randint(2, 6),
                             "r_in": rng.choice([0, rng.uniform(0, 1), 9.0]), "rot": rng.uniform(-90, 90)})
    ctx.assume(ns >= 3)
    ctx.assume(n >= 2)
    ctx.assume(rin >= 0)
    s, c = np.sin(np.pi / ns), np.cos(np.pi / ns)
    ctx.assume(s > 0)
    ctx.assume(c > 0)
    a_out = d / 2 * c
    ctx.assume(t < a_out)
    g = L.run(ctx, "steel_sections", "polygon_hollow_section", dict(d=d, t=t, n_sides=ns, r_in=rin, n_r=n, rot=rot))
    got = g.geom.rings()
    ctx.ensure("openings", len(got) == 2)
    a_in = a_out - t
    r = rin
    if bool(r > a_in):
        r = a_in
    sharp = bool(r == 0)
    merged = bool(r == a_in)  # a circle: each arc ends where the next one starts
    for name, o, a, rr in (("outer", got[0], a_out, 0 if sharp else r + t), ("inner", got[1], a_in, r)):
        need(hasattr(o.points, "all_chunks"), "a point list")
        ch = o.points.all_chunks()
        need(len(ch) == 1, "one loop over the sides")
        kind, seq, body = ch[0]
        ctx.ensure_eq(f"{name}: as many corners as sides", seq.length, ns)
        half = (a - rr) * s / c
        frame = 2 * np.pi * seq.bound / ns + rot * np.pi / 180
        if kind == "nest":
            need(len(body) == 1 and body[0][0] == "loop" and len(body[0][2]) == 1, "one loop over the corner points")
            _, inner, ((x, y),) = body[0]
            ctx.ensure_eq(f"{name}: points per corner", inner.length, n - 1 if merged else n)
            w = 2 * np.pi / ns * inner.bound / (n - 1)
        else:
            need(kind == "loop" and len(body) == 1, "one point per corner")
            ((x, y),) = body
            w = 0
            ctx.ensure(f"{name}: one point per sharp corner", sharp)
        px, py = half + rr * np.sin(w), -(a - rr) - rr * np.cos(w)
        cf, sf = np.cos(frame), np.sin(frame)
        ctx.ensure_eq(f"{name}: corner points", [x, y], [cf * px - sf * py, sf * px + cf * py])


def refused(ctx):
    """Fewer than three sides, and a toe radius above the thickness, are refused."""
    st = L.library("steel_sections")
    for n in (-1, 0, 1, 2):
        try:
            st.polygon_hollow_section(d=4, t=1, n_sides=n)
            ctx.ensure("refused", False)
        except ValueError:
            ctx.ensure("refused", True)
    t, over = ctx.pos("t"), ctx.pos("over")
    try:
        st.angle_section(d=9, b=9, t=t, r_r=0, r_t=t + over, n_r=2)
        ctx.ensure("refused", False)
    except ValueError:
        ctx.ensure("refused", True)


SYMBOLIC = [radius, rotation, lemmas, circles, by_area, polygon, refused, *GENERATORS]
RUNTIME = [("dimensions", rtlib.dimensions, 2500, 20000), ("refinement", rtlib.refinement, 300, 3000)]
