"""C22: rigid transforms."""
from . import rtgeom
from .geomodel import GMulti, GPoint, model, region


def geo():
    import sectionproperties.pre.geometry as g

    return g


def check(ctx, name, x, new, f):
    """new is the region x moved by f, with everything kept."""
    old = x.geom.at()
    ctx.ensure(name + " new object", new is not x and new.geom is not x.geom)
    for i, (a, b) in enumerate(zip(new.geom.at(), f(*old))):
        ctx.ensure_eq(f"{name} point {i}", a, b)
    ctx.ensure(name + " material", new.material is x.material)
    ctx.ensure(name + " tolerance", new.tol == x.tol)
    if x.assigned_control_point is None:
        ctx.ensure(name + " control point", new.assigned_control_point is None)
    else:
        for i, (a, b) in enumerate(zip(new.assigned_control_point.at(), f(*x.assigned_control_point.at()))):
            ctx.ensure_eq(f"{name} control point {i}", a, b)
        ctx.ensure(name + " control point used", len(new.control_points) == 1)
        for i in range(2):
            ctx.ensure_eq(f"{name} control point used {i}", new.control_points[0][i], new.assigned_control_point.at()[i])


def kept(ctx, name, x, snap):
    ctx.ensure(name + " original kept", (x.geom, x.material, x.tol, x.assigned_control_point) == snap)


def rot(angle, rad, c):
    from pydv import npx as np

    a = angle if rad else angle * np.pi / 180
    s, k = np.sin(a), np.cos(a)
    return lambda x, y: (c[0] + k * (x - c[0]) - s * (y - c[1]), c[1] + s * (x - c[0]) + k * (y - c[1]))


def mir(axis, c):
    return lambda x, y: (x, 2 * c[1] - y) if axis == "x" else (2 * c[0] - x, y)


def calls(ctx, x):
    """(name, call on a geometry, map about the given centre)."""
    dx, dy, a = ctx.real("dx"), ctx.real("dy"), ctx.real("angle")
    c = (ctx.real("ox"), ctx.real("oy"))
    mid = x.geom.center()
    out = [("shift", lambda o: o.shift_section(x_offset=dx, y_offset=dy), lambda p, q: (p + dx, q + dy)),
           ("shift x", lambda o: o.shift_section(dx), lambda p, q: (p + dx, q)),
           ("shift y", lambda o: o.shift_section(y_offset=dy), lambda p, q: (p, q + dy))]
    for rad in (False, True):
        out.append((f"rotate {rad}", lambda o, r=rad: o.rotate_section(a, c, r), rot(a, rad, c)))
        out.append((f"rotate about centre {rad}", lambda o, r=rad: o.rotate_section(angle=a, use_radians=r), rot(a, rad, mid)))
    for ax in ("x", "y"):
        out.append((f"mirror {ax}", lambda o, ax=ax: o.mirror_section(axis=ax, mirror_point=c), mir(ax, c)))
        out.append((f"mirror about centre {ax}", lambda o, ax=ax: o.mirror_section(axis=ax), mir(ax, mid)))
    return out


def simple(ctx, control):
    g = geo()
    with model(g):
        x = region(g, control=control)
        snap = (x.geom, x.material, x.tol, x.assigned_control_point)
        for name, f, m in calls(ctx, x):
            new = f(x)
            check(ctx, name, x, new, m)
            kept(ctx, name, x, snap)


def simple_plain(ctx):
    simple(ctx, False)


def simple_control_point(ctx):
    simple(ctx, True)


def compound(ctx, control):
    """A compound of any number of regions moves as one body."""
    from pydv import seqs
    from pydv import terms as T

    g = geo()
    C = g.CompoundGeometry

    class Made:
        __pydv_obj__ = True

        def __init__(self, geoms):
            self.geoms = geoms

    with model(g):
        c = object.__new__(C)
        c.geoms = seqs.SymSeq("regions", lambda k: region(g, "r", (k,), control=control))
        x0, y0 = ctx.real("Bx"), ctx.real("By")
        c.geom = GMulti("parts", (x0, y0, x0 + ctx.pos("Bw"), y0 + ctx.pos("Bh")))
        c.tol, c.material = 12, None
        x = c.geoms.generic()
        snap = (x.geom, x.material, x.tol, x.assigned_control_point)

        class One:
            geom = c.geom

        for name, f, m in calls(ctx, One):
            with model(g, CompoundGeometry=Made):
                new = f(c)
            ctx.ensure(name + " all regions, in order", isinstance(new, Made) and new.geoms.seq is c.geoms
                       and new.geoms.cases[0][0] is True)
            check(ctx, name, x, new.geoms.generic(), m)
            kept(ctx, name, x, snap)


def compound_plain(ctx):
    compound(ctx, False)


def compound_control_point(ctx):
    compound(ctx, True)


SYMBOLIC = [simple_plain, simple_control_point, compound_plain, compound_control_point]
RUNTIME = [("transforms", rtgeom.transforms, 500, 3000)]
