"""C30: concrete, bridge and timber sections."""
from __future__ import annotations

from . import concspec, rtconc
from . import libmodel as L
from .c21 import patched
from .c25 import need

MOD = "concrete_sections"


def outline(ctx, root, plates, conc):
    """The concrete before the bars: the plates of the specification."""
    from pydv import npx as np
    from pydv import terms as T

    got = L.total(np, [(s, p) for s, p, _ in root])
    want = L.total(np, plates)
    for k in L.POWERS:
        ctx.ensure_eq(f"gross {k}", got[k], want[k])
    for s, p, m in root:
        if s == 1:
            ctx.ensure("the material of the concrete", m is conc)
    # what is cut out lies within the gross rectangle
    x0, y0, x1, y1 = plates[0][1][0] + plates[0][1][2]
    for s, p, _ in root:
        if s == -1:
            for x, y in p:
                for c in (x0 <= x, x <= x1, y0 <= y, y <= y1):
                    if not (c is True):
                        ctx.ensure("openings lie in the gross section", c)


def dims_of(ctx, names):
    return {n: ctx.pos(n) for n in names}


COMMON = ("dia_bar", "area_bar", "spacing", "cover", "n_circle")


def wall_sampler(w):
    def f(rng):
        e = rng.uniform(0.03, 0.06)
        dia = e * rng.uniform(0.2, 1)
        v = w.sample(rng, e)
        return {**dict(zip(w.names, v)), "dia_bar": dia, "cover": e - dia / 2, "area_bar": 3 * dia * dia / 4, "spacing": rng.uniform(0.08, 0.5), "n_circle": rng.randint(4, 9)}

    return f


def wall(name, double):
    w = concspec.WALLS[name]

    def harness(ctx):
        from pydv import mathx

        from .concmodel import RC, Bar, Compound, Placed, Plates, match

        m = L.library(MOD)
        ctx.sampler(wall_sampler(w))
        d = dims_of(ctx, w.names)
        o = {k: ctx.pos(k) for k in COMMON}
        e = o["cover"] + o["dia_bar"] / 2
        v = list(d.values())
        for c in w.conds(*v, e):
            ctx.assume(c)
        conc, steel = object(), object()
        calls = []

        def add_bars(geometry, area, material, x, y, n):
            calls.append((geometry, area, material, x, y, n))
            return "result"

        with patched(m, primitive_sections=Plates, CompoundGeometry=Compound, add_bars=add_bars):
            g = getattr(m, name)(**d, **o, double=double, conc_mat=conc, steel_mat=steel)
        need(g == "result" and len(calls) == 1 and isinstance(calls[0][0], RC), "bars are added in another way")
        geometry, area, material, xs, ys, n = calls[0]
        outline(ctx, geometry.bare(), w.plates(*v), conc)
        got = []
        cx, cy = (q.all_chunks() if hasattr(q, "all_chunks") else [("items", list(q))] for q in (xs, ys))
        need(len(cx) == len(cy), "coordinates filled by different loops")
        for a, b in zip(cx, cy):
            need(a[0] == b[0] and a[0] in ("loop", "items") and len(a[-1]) == len(b[-1]), "coordinates filled by different loops")
            seq = None
            if a[0] == "loop":
                need(a[1].name == b[1].name, "coordinates filled by different loops")
                seq = a[1]
            got += [Placed(seq, Bar(area, n, material, x, y)) for x, y in zip(a[-1], b[-1])]
        rows = w.rows(mathx, o["spacing"], e, double, *v)
        match(ctx, got, rows, o["area_bar"], o["n_circle"], steel)

    harness.__name__ = f"{name} {'double' if double else 'single'}"
    return harness


def refusals(ctx):
    """Openings that do not fit are refused."""
    from .concmodel import Compound, Plates

    m = L.library(MOD)
    o = {k: ctx.pos(k) for k in COMMON}
    a = dims_of(ctx, ["d", "b", "t1", "t2", "a1", "a2"])
    ctx.sampler(lambda rng: {"a1": rng.uniform(0.5, 2), "a2": rng.uniform(0.5, 2), "t1": rng.uniform(0.2, 0.4), "t2": rng.uniform(0.2, 0.4),
                             "over": rng.choice([1e-6, 0.01, 0.1])})
    stop = lambda *k, **kw: "result"
    with patched(m, primitive_sections=Plates, CompoundGeometry=Compound, add_bars=stop):
        over = ctx.pos("over")
        for fn, kw in (("double_lift_core_a", dict(a, d=2 * a["t1"] + 2 * a["a1"] + a["a2"] - over)),
                       ("double_lift_core_b", dict(d=2 * a["t1"] + a["t2"] + 2 * a["a1"] - over, b=a["b"], t1=a["t1"], t2=a["t2"], t3=a["t2"], a=a["a1"]))):
            try:
                getattr(m, fn)(**kw, **o, double=False)
            except ValueError:
                ctx.ensure("refused", True)
                continue
            ctx.ensure("refused", False)


def beam(tee, sides, side_cover):
    def harness(ctx):
        from .concmodel import Compound, Plates, match, placed

        m = L.library(MOD)
        fn = "concrete_tee_section" if tee else "concrete_rectangular_section"
        names = ["d", "b", "dia_top", "area_top", "n_top", "c_top", "dia_bot", "area_bot", "n_bot", "c_bot", "n_circle"]
        if tee:
            names += ["d_f", "b_f"]
        if sides:
            names += ["dia_side", "area_side", "n_side"]
        if side_cover:
            names += ["c_side"]
        d = dims_of(ctx, names)
        ctx.sampler(lambda rng: {"n_top": rng.randint(1, 5), "n_bot": rng.randint(1, 5), "n_side": rng.randint(1, 4), "d_f": rng.uniform(0.1, 0.2), "d": rng.uniform(0.4, 1)})
        if tee:
            ctx.assume(d["d_f"] < d["d"])
        n_top, n_bot = d["n_top"], d["n_bot"]
        ctx.assume(n_top >= 1)
        ctx.assume(n_bot >= 1)
        one_top, one_bot = bool(n_top == 1), bool(n_bot == 1)
        conc, steel = object(), object()
        with patched(m, primitive_sections=Plates, CompoundGeometry=Compound):
            g = getattr(m, fn)(**d, conc_mat=conc, steel_mat=steel)
        b, bf = d["b"], d.get("b_f", d["b"])
        plates = [(1, L.rect(0, 0, b, d["d"]))]
        if tee:
            w = d["d"] - d["d_f"]
            plates = [(1, L.rect(-b / 2, 0, b / 2, w)), (1, L.rect(-bf / 2, w, bf / 2, d["d"]))]
        outline(ctx, g.root, plates, conc)
        rows = concspec.beam_rows(d["d"], bf, b, d["dia_top"], 1 if one_top else n_top, d["c_top"], d["dia_bot"], 1 if one_bot else n_bot, d["c_bot"],
                                  d.get("dia_side"), d.get("n_side"), d.get("c_side", 0), side_cover, sides, 0 if tee else b / 2)
        got = placed(ctx, g.steps)
        from pydv import terms as T

        # each layer has its own area of bars: a row is recognised by where it is
        layers = [("area_top", rows[0]), ("area_bot", rows[1])] + [("area_side", r) for r in rows[2:]]

        def area(p):
            j = 0 if p.seq is None else p.seq.bound
            for key, r in layers:
                if T.equal(p.bar.y, r.at(j)[1]) and T.equal(p.count, r.count):
                    return d[key]
            return p.bar.area

        for r in rows[:2]:  # one bar: written with the number given
            if type(r.count) is int:
                r.count = n_top if r is rows[0] else n_bot
        match(ctx, got, rows, area, d["n_circle"], steel)
        # the stated cover (to the layer the row belongs to)
        ctx.ensure_eq("cover of the top bars", d["d"] - rows[0].at(0)[1], d["c_top"] + d["dia_top"] / 2)
        ctx.ensure_eq("cover of the bottom bars", rows[1].at(0)[1], d["c_bot"] + d["dia_bot"] / 2)

    harness.__name__ = ("tee" if tee else "rectangular") + (" with side bars" if sides else "") + (" with a side cover" if side_cover else "")
    return harness


def circular(ctx):
    from pydv import npx as np

    from .concmodel import Compound, Plates, match, placed

    m = L.library(MOD)

    class P(Plates):
        calls = []

        @staticmethod
        def circular_section_by_area(area, n, material=None):
            if area is d["area_conc"]:
                P.calls.append((area, n, material))
                from .concmodel import RC

                return RC(((1, [], material),))
            return Plates.circular_section_by_area(area, n, material)

    d = dims_of(ctx, ["d", "area_conc", "n_conc", "dia_bar", "area_bar", "n_bar", "cover", "n_circle"])
    ctx.sampler(lambda rng: {"n_bar": rng.randint(2, 9)})
    conc, steel = object(), object()
    try:
        with patched(m, primitive_sections=P, CompoundGeometry=Compound):
            g = m.concrete_circular_section(**d, conc_mat=conc, steel_mat=steel)
    except ValueError:
        ctx.ensure("refused below two bars only", d["n_bar"] < 2)
        return
    ctx.ensure("at least two bars", d["n_bar"] >= 2)
    need(len(P.calls) == 1, "one circle of concrete")
    ctx.ensure_eq("sides of the concrete", P.calls[0][1], d["n_conc"])
    ctx.ensure("the material of the concrete", P.calls[0][2] is conc)
    r = d["d"] / 2 - d["cover"] - d["dia_bar"] / 2

    def at(j):
        w = 2 * np.pi * j / d["n_bar"]
        return r * np.cos(w), r * np.sin(w)

    match(ctx, placed(ctx, g.steps), [concspec.Row(d["n_bar"], at)], d["area_bar"], d["n_circle"], steel)


def column_setup(ctx, m, nx, ny, filled):
    from pydv import extract

    from .concmodel import Bar, Compound, Plates

    d = dims_of(ctx, ["d", "b", "dia_bar", "area_bar", "cover", "n_circle"])
    e = d["cover"] + d["dia_bar"] / 2
    ctx.sampler(lambda rng: {"d": rng.uniform(1, 2), "b": rng.uniform(1, 2), "cover": 0.05, "dia_bar": 0.04, "n_x": rng.randint(2, 5), "n_y": rng.randint(2, 5)})
    ctx.assume(2 * e < d["d"])
    ctx.assume(2 * e < d["b"])
    conc, steel = object(), object()

    def add_bar(geometry, area, material, x, y, n):
        bar = Bar(area, n, material, x, y)
        return geometry - bar + bar

    with patched(m, primitive_sections=Plates, CompoundGeometry=Compound, list=extract.x_list, add_bar=add_bar):
        g = m.concrete_column_section(**d, n_x=nx, n_y=ny, filled=filled, conc_mat=conc, steel_mat=steel)
    outline(ctx, g.root, [(1, L.rect(0, 0, d["b"], d["d"]))], conc)
    return d, e, g, steel


def column(ctx):
    """Bars along the four sides, any number of them; each corner bar is there once."""
    from pydv import seqs
    from pydv import terms as T

    from .concmodel import match, placed

    m = L.library(MOD)
    nx, ny = ctx.pos("n_x"), ctx.pos("n_y")
    ctx.assume(nx >= 2)
    ctx.assume(ny >= 2)
    seqs.DistinctSeq.made.clear()
    d, e, g, steel = column_setup(ctx, m, nx, ny, False)
    x0, x1, y0, y1 = e, d["b"] - e, e, d["d"] - e
    got = placed(ctx, g.steps)
    once = any(
        len(s.parts) == len(got) and all(T.equal(a.generic()[0], p.bar.x) and T.equal(a.generic()[1], p.bar.y) for a, p in zip(s.parts, got))
        for s in seqs.DistinctSeq.made
    )
    k = {} if once else dict(first=False, last=False)
    sp = concspec.spread
    rows = [sp((x0, y), (x1, y), nx) for y in (y0, y1)] + [sp((x, y0), (x, y1), ny, **k) for x in (x0, x1)]
    match(ctx, got, rows, d["area_bar"], d["n_circle"], steel)


def column_filled(ctx):
    """A grid of bars (bounded: up to 4 by 4 of them; all dimensions)."""
    from .concmodel import Placed, match, placed

    m = L.library(MOD)
    for nx in (2, 3, 4):
        for ny in (2, 3, 4):
            for filled in (True, False):
                d, e, g, steel = column_setup(ctx, m, nx, ny, filled)
                got = placed(ctx, g.steps)
                x0, x1, y0, y1 = e, d["b"] - e, e, d["d"] - e
                rows = []
                for i in range(nx):
                    for j in range(ny):
                        if filled or i in (0, nx - 1) or j in (0, ny - 1):
                            p = (x0 + (x1 - x0) * i / (nx - 1), y0 + (y1 - y0) * j / (ny - 1))
                            rows.append(concspec.Row(1, lambda q, p=p: p))
                match(ctx, got, rows, d["area_bar"], d["n_circle"], steel)


def adding(ctx):
    """add_bar and add_bars: bars of the given area at the given points, put in where the concrete was taken out."""
    from pydv.seqs import SymSeq

    from .concmodel import RC, Bar, Bars, Compound, Plates, match, placed

    m = L.library(MOD)
    area, n, x, y = ctx.pos("area"), ctx.pos("n"), ctx.real("x"), ctx.real("y")
    steel = object()
    base = RC(((1, L.rect(0, 0, 1, 1), None),))
    with patched(m, primitive_sections=Plates, CompoundGeometry=Compound):
        g = m.add_bar(geometry=base, area=area, material=steel, x=x, y=y, n=n)
        match(ctx, placed(ctx, g.steps), [concspec.Row(1, lambda j: (x, y))], area, n, steel)
        # any number of points
        from pydv.seqs import AbsVec

        k = ctx.pos("k")
        xs, ys = AbsVec.unknown("xs", k), AbsVec.unknown("ys", k)
        g = m.add_bars(geometry=base, area=area, material=steel, x=xs, y=ys, n=n)
    need(len(g.steps) == 2 and [s[0] for s in g.steps] == ["-", "+"], "bars taken out, then put in")
    (_, out), (_, into) = g.steps
    need(isinstance(out, Bars) and isinstance(into, Bars), "compounds of bars")
    for c in (out, into):
        ctx.ensure_eq("one bar per point", c.geoms.length, k)
        bar = c.geoms.generic()
        need(isinstance(bar, Bar), "bars")
        ctx.ensure_eq("at the point", [bar.x, bar.y], [xs.at(c.geoms.bound), ys.at(c.geoms.bound)])
        ctx.ensure_eq("area", bar.area, area)
        ctx.ensure_eq("sides", bar.n, n)
        ctx.ensure("material", bar.material is steel)


def layers(ctx):
    """Layered timber from top to bottom (bounded: up to six layers; all thicknesses)."""
    from .concmodel import Plates

    m = L.library("timber_sections")
    b = ctx.pos("b")

    class geometry:
        class CompoundGeometry:
            def __init__(self, geoms):
                self.geoms = list(geoms)

        Geometry = None

    for k in range(1, 7):
        ds = [ctx.pos(f"d{j}") for j in range(k)]
        mats = [object() for _ in ds]
        with patched(m, primitive_sections=Plates, geometry=geometry):
            g = m.clt_rectangular_section(d=ds, layer_mat=mats, b=b)
        need(isinstance(g, geometry.CompoundGeometry), "a compound of layers")
        ctx.ensure("one region per layer", len(g.geoms) == k)
        top = 0
        for j, (r, t) in enumerate(zip(g.geoms, ds)):
            x0, x1, y0, y1 = r.box()
            ctx.ensure_eq(f"layer {j} of {k}", [x0, x1, y0, y1], [0, b, top - t, top])
            ctx.ensure("its material", r.material is mats[j])
            top = top - t


def i_girders(ctx):
    from pydv import npx as np

    from .rtconc import I_GIRDERS, i_girder

    for k in (*range(-1, 7),):
        try:
            g = L.run(ctx, "bridge_sections", "i_girder_section", dict(girder_type=k))
        except ValueError:
            ctx.ensure("types 1 to 4", k not in I_GIRDERS)
            continue
        ctx.ensure("types 1 to 4", k in I_GIRDERS)
        chain = L.chain_of(ctx, g.geom)
        L.compare(ctx, f"type {k}", chain, [(1, i_girder(I_GIRDERS[k]))])


def super_t(given):
    def harness(ctx):
        from pydv import npx as np

        from .rtconc import SUPER_T, super_t_chain

        w, tf = ctx.pos("w"), ctx.pos("t_f")
        tw = ctx.pos("t_w") if given else None
        ctx.sampler(lambda rng: {"w": rng.uniform(1400, 2600), "t_f": rng.uniform(60, 200), "t_w": rng.uniform(90, 130)})
        for k in range(0, 7):
            for sub in (0, 1, 2, 3):
                kw = dict(girder_type=k, girder_subtype=sub, w=w, t_f=tf)
                if given:
                    kw["t_w"] = tw
                ok = k in SUPER_T and sub in (1, 2) and not (k == 5 and sub == 1)
                try:
                    g = L.run(ctx, "bridge_sections", "super_t_girder_section", kw)
                except ValueError:
                    ctx.ensure("girder types and subtypes", not ok)
                    continue
                ctx.ensure("girder types and subtypes", ok)
                chain = L.chain_of(ctx, g.geom)
                L.compare(ctx, f"type {k}.{sub}", chain, [(1, super_t_chain(np, k, sub, w, tw, tf))])
                # symmetric about the vertical axis
                m = L.moments(np, chain)
                ctx.ensure_eq("symmetric", [m["qy"], m["ixy"]], [0, 0])

    harness.__name__ = "super_t" + (" with a web thickness" if given else "")
    return harness


SYMBOLIC = [adding, layers, circular, column, column_filled, refusals, i_girders, super_t(False), super_t(True),
            *(beam(t, s, c) for t in (False, True) for s in (False, True) for c in (False, True)),
            *(wall(n, dbl) for n in concspec.WALLS for dbl in (True, False))]
RUNTIME = rtconc.RUNTIME
