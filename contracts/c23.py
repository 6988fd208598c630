"""C23: alignment."""
from . import rtgeom
from .geomodel import model, region, GShape, GMulti
from .seccommon import _fn

SIDES = ("left", "right", "bottom", "top")


def geo():
    import sectionproperties.pre.geometry as g

    return g


def edge(b, side):
    return b[{"left": 0, "right": 2, "bottom": 1, "top": 3}[side]]


OPP = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}


def align_to(ctx, other_kind, moved="simple"):
    g = geo()
    with model(g):
        x = region(g)
        if moved == "compound":
            c = object.__new__(g.CompoundGeometry)
            c.geom, c.geoms, c.tol, c.material = GMulti([x.geom]), [x], 12, None
            c.shift_section = lambda x_offset=0.0, y_offset=0.0: x.shift_section(x_offset, y_offset)
        else:
            c = x
        if other_kind == "simple":
            o = region(g, "o")
            ob = o.geom.bounds
        elif other_kind == "compound":
            o = object.__new__(g.CompoundGeometry)
            o.geom = GMulti([GShape("p"), GShape("q")])
            ob = o.geom.bounds
        else:
            o = (ctx.real("tx"), ctx.real("ty"))
            ob = (o[0], o[1], o[0], o[1])
        old = x.geom.bounds
        for side in SIDES:
            for inner in (False, True):
                new = c.align_to(o, on=side, inner=inner)
                b = new.geom.bounds
                ctx.ensure_eq(f"{side} {inner} on target", edge(b, side if inner else OPP[side]), edge(ob, side))
                k = (1, 3) if side in ("left", "right") else (0, 2)
                for i in k:
                    ctx.ensure_eq(f"{side} {inner} not moved across {i}", b[i], old[i])
                ctx.ensure(f"{side} {inner} original kept", all(p is q for p, q in zip(x.geom.bounds, old)))


def align_to_geometry(ctx):
    align_to(ctx, "simple")


def align_to_compound(ctx):
    align_to(ctx, "compound")


def align_to_point(ctx):
    align_to(ctx, "point")


def align_compound_to_geometry(ctx):
    align_to(ctx, "simple", "compound")


def align_compound_to_point(ctx):
    align_to(ctx, "point", "compound")


def rounding(ctx, tol):
    """round(): the alignment is exact up to the rounding to the geometry's tolerance (here: no rounding)."""
    def f(v, n=None):
        ctx.ensure("rounded to the tolerance", n == tol)
        return v

    return f


def targets(ctx, g):
    o = region(g, "o")
    oc = o.geom.centroid
    p = (ctx.real("tx"), ctx.real("ty"))
    return [("origin", None, (0, 0)), ("geometry", o, (oc.x, oc.y)), ("point", p, p)]


def align_center(ctx):
    g = geo()
    with model(g, round=rounding(ctx, 7)):
        x = region(g)
        for name, t, want in targets(ctx, g):
            new = x.align_center(t) if t is not None else x.align_center()
            c = new.geom.centroid
            ctx.ensure_eq(name + " x", c.x, want[0])
            ctx.ensure_eq(name + " y", c.y, want[1])
        try:
            x.align_center(align_to=3)
        except ValueError:
            ctx.ensure("other targets raise", True)
        else:
            ctx.ensure("other targets raise", False)


def align_center_compound(ctx):
    """Any number of regions: the modulus-weighted centroid lands on the target."""
    from pydv import seqs

    g = geo()
    with model(g, round=rounding(ctx, 12)):
        c = object.__new__(g.CompoundGeometry)
        c.geoms = seqs.SymSeq("regions", lambda k: region(g, "r", (k,)))
        c.tol, c.material = 12, None
        log = []

        def shift_section(x_offset=0.0, y_offset=0.0):
            log.append((x_offset, y_offset))
            return "moved"

        c.shift_section = shift_section
        x = c.geoms.generic()
        fold = lambda v: seqs._fold("sum", c.geoms, [(True, v)])
        ea = x.material.elastic_modulus * x.geom.area
        s, sx, sy = fold(ea), fold(ea * x.geom.centroid.x), fold(ea * x.geom.centroid.y)
        for name, t, want in targets(ctx, g):
            del log[:]
            ctx.ensure(name + " moved geometry returned", c.align_center(align_to=t) == "moved" and len(log) == 1)
            ctx.ensure_eq(name + " x", sx + log[0][0] * s, want[0] * s)
            ctx.ensure_eq(name + " y", sy + log[0][1] * s, want[1] * s)


SYMBOLIC = [align_to_geometry, align_to_compound, align_to_point, align_compound_to_geometry, align_compound_to_point,
            align_center, align_center_compound]
RUNTIME = [("align", rtgeom.align, 400, 3000), ("center", rtgeom.center, 200, 2000)]
