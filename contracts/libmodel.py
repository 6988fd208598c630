"""Outlines of straight edges and circular arcs: what the section generators build, and what they should build.

In symbolic runs `Outline` stands for shapely's Polygon; its exact area, first and second moments follow from
Green's theorem.  The specification of a section is a signed sum of outlines (plates, fillets, triangles) written
from its documented dimensions.  The same specifications are used by the run-time checks, with arcs replaced by the
chords of n evenly spaced points."""
from __future__ import annotations



class Arc:
    """A circular arc."""

    __pydv_obj__ = True

    def __init__(self, c, r, t0, sweep):
        self.c, self.r, self.t0, self.sweep = c, r, t0, sweep

    def at(self, np, t):
        return self.c[0] + self.r * np.cos(t), self.c[1] + self.r * np.sin(t)


class Outline:
    """A closed chain of vertices and arcs; holes are outlines."""

    __pydv_obj__ = True
    _case = None

    def __init__(self, points, holes=()):
        self.points, self.holes = points, list(holes)

    def __sub__(self, o):
        """Contract on shapely: taking a polygon inside another one away leaves a hole."""
        return Outline(self.points, [*self.holes, o])

    def rings(self):
        return [self, *self.holes]

    def shifted(self, dx, dy):
        return Outline([(p[0] + dx, p[1] + dy) for p in self.points], [h.shifted(dx, dy) for h in self.holes])


# ------------------------------------------------------------------ moments
POWERS = {"area": (0, 0), "qx": (0, 1), "qy": (1, 0), "ixx": (0, 2), "iyy": (2, 0), "ixy": (1, 1)}


def trig_integral(i, j, c0, s0, c1, s1, sweep):
    """Integral of cos^i sin^j over an angle with the given end values."""
    if i >= 2:
        f = lambda c, s: c ** (i - 1) * s ** (j + 1)
        return (f(c1, s1) - f(c0, s0)) / (i + j) + trig_integral(i - 2, j, c0, s0, c1, s1, sweep) * (i - 1) / (i + j)
    if i == 1:
        return (s1 ** (j + 1) - s0 ** (j + 1)) / (j + 1)
    if j >= 2:
        f = lambda c, s: s ** (j - 1) * c
        return -(f(c1, s1) - f(c0, s0)) / j + trig_integral(0, j - 2, c0, s0, c1, s1, sweep) * (j - 1) / j
    if j == 1:
        return c0 - c1
    return sweep


def binom(n, k):
    from math import comb

    return comb(n, k)


def segment_moment(p, q, a, b):
    """Integral of x^(a+1)/(a+1) y^b dy along a segment: exact with Simpson's rule up to cubics."""
    (x0, y0), (x1, y1) = p, q
    f = lambda x, y: x ** (a + 1) * (y ** b if b else 1)
    m = f((x0 + x1) / 2, (y0 + y1) / 2)
    return (f(x0, y0) + 4 * m + f(x1, y1)) / 6 * (y1 - y0) / (a + 1)


def arc_moment(np, arc, a, b):
    (cx, cy), r = arc.c, arc.r
    t1 = arc.t0 + arc.sweep
    e = np.cos(arc.t0), np.sin(arc.t0), np.cos(t1), np.sin(t1), arc.sweep
    tot = 0
    for i in range(a + 2):
        for j in range(b + 1):
            k = binom(a + 1, i) * binom(b, j)
            tot = tot + k * cx ** (a + 1 - i) * cy ** (b - j) * r ** (i + j + 1) * trig_integral(i + 1, j, *e)
    return tot / (a + 1)


def edges(np, points):
    """(segments, arcs) of a chain; the vertex after an arc has to be its end."""
    flat, segs, arcs = list(points), [], []
    ends = []
    for p in flat:
        ends.append((p.at(np, p.t0), p.at(np, p.t0 + p.sweep)) if isinstance(p, Arc) else (p, p))
        if isinstance(p, Arc):
            arcs.append(p)
    for k, (_, e) in enumerate(ends):
        s = ends[(k + 1) % len(ends)][0]
        segs.append((e, s))
    return segs, arcs


def moments(np, points):
    segs, arcs = edges(np, points)
    out = {}
    for n, (a, b) in POWERS.items():
        tot = 0
        for p, q in segs:
            tot = tot + segment_moment(p, q, a, b)
        for arc in arcs:
            tot = tot + arc_moment(np, arc, a, b)
        out[n] = tot
    return out


def total(np, pieces):
    """Moments of a signed sum of chains."""
    out = dict.fromkeys(POWERS, 0)
    for sign, points in pieces:
        m = moments(np, points)
        for k in out:
            out[k] = out[k] + sign * m[k]
    return out


def chords(np, points, n):
    """The chain with each arc replaced by n evenly spaced points."""
    out = []
    for p in points:
        if isinstance(p, Arc):
            if p.r == 0:
                out.append(p.c)
                continue
            out += [p.at(np, p.t0 + p.sweep * i / max(1, n - 1)) for i in range(n)]
        else:
            out.append(p)
    return out


# ------------------------------------------------------------------ pieces (counter-clockwise)
def rect(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def fillet(np, x, y, sx, sy, r):
    """Between a right-angled corner at (x, y), opening towards (sx, sy), and the arc tangent to its sides."""
    c = (x + sx * r, y + sy * r)
    # from the tangent point on the horizontal side to the one on the vertical side
    if sx > 0:
        arc = Arc(c, r, -np.pi / 2, -np.pi / 2) if sy > 0 else Arc(c, r, np.pi / 2, np.pi / 2)
    else:
        arc = Arc(c, r, -np.pi / 2, np.pi / 2) if sy > 0 else Arc(c, r, np.pi / 2, -np.pi / 2)
    chain = [(x, y), arc]
    return (1 if sx * sy > 0 else -1), chain


def corner_fillet(np, v, a1, a2, r):
    """Between the corner v, whose sides leave it at the angles a1 < a2 < a1 + pi, and the arc tangent to both."""
    w = a2 - a1
    k = r * (1 + np.cos(w)) / np.sin(w)  # tangent length
    c1, s1 = np.cos(a1), np.sin(a1)
    c = (v[0] + k * c1 - r * s1, v[1] + k * s1 + r * c1)
    return 1, [v, Arc(c, r, a1 - np.pi / 2, -(np.pi - w))]


def mirror_x(np, pieces, x):
    """The pieces reflected in the vertical line at x."""
    f = lambda p: Arc((2 * x - p.c[0], p.c[1]), p.r, np.pi - p.t0, -p.sweep) if isinstance(p, Arc) else (2 * x - p[0], p[1])
    return [(-s, [f(p) for p in pts]) for s, pts in pieces]


def mirror_y(np, pieces, y):
    f = lambda p: Arc((p.c[0], 2 * y - p.c[1]), p.r, -p.t0, -p.sweep) if isinstance(p, Arc) else (p[0], 2 * y - p[1])
    return [(-s, [f(p) for p in pts]) for s, pts in pieces]


# ------------------------------------------------------------------ running a generator on symbolic dimensions
class G:
    """Stands for Geometry: what it was built from."""

    __pydv_obj__ = True
    made: list = []

    def __init__(self, geom, material="default", control_points=None, tol=12):
        self.geom, self.material, self.control_points, self.tol = geom, material, control_points, tol
        self.parts = []
        G.made.append(self)

    # contracts of Geometry (proved in C21 to C24)
    def __sub__(self, o):
        return G(self.geom - o.geom, self.material)

    def __add__(self, o):
        out = G(None, self.material)
        out.parts = [*(self.parts or [self]), *(o.parts or [o])]
        return out

    def shift_section(self, x_offset=0.0, y_offset=0.0):
        out = G(self.geom.shifted(x_offset, y_offset) if self.geom is not None else None, self.material)
        out.parts = [p.shift_section(x_offset, y_offset) for p in self.parts]
        return out

    def centroid(self):
        from pydv import npx as np

        m = [moments(np, c.points) for c in self.geom.rings()]
        if len(m) != 1:
            from pydv.terms import Unsupported

            raise Unsupported("the centroid of a region with openings")
        return m[0]["qy"] / m[0]["area"], m[0]["qx"] / m[0]["area"]

    def align_center(self, align_to=None):
        cx, cy = self.centroid()
        tx, ty = align_to.centroid() if isinstance(align_to, G) else (align_to or (0, 0))
        return self.shift_section(tx - cx, ty - cy)

    def extent(self, axis, which):
        from pydv import terms as T

        cs = [p[axis] for q in (self.parts or [self]) for p in q.geom.points]
        best = cs[0]
        for c in cs[1:]:  # a case distinction wherever the order is not known
            if not T.equal(c, best) and bool((c > best) if which == "max" else (c < best)):
                best = c
        return best

    def align_to(self, other, on, inner=False):
        need_plain = isinstance(other, G) and not inner
        if not need_plain:
            from pydv.terms import Unsupported

            raise Unsupported("another use of align_to")
        a, b = {"top": ("min", "max"), "bottom": ("max", "min"), "right": ("min", "max"), "left": ("max", "min")}[on]
        axis = 1 if on in ("top", "bottom") else 0
        d = other.extent(axis, b) - self.extent(axis, a)
        return self.shift_section(0, d) if axis else self.shift_section(d, 0)


class geometry:
    Geometry = G
    CompoundGeometry = None


def draw_radius(pt, r, theta, n, ccw=True, phi=None):
    """The contract of utils.draw_radius (proved in C28): the centre alone for r = 0, else the arc from theta."""
    from pydv import npx as np
    from pydv.seqs import XList

    out = XList()
    if r == 0:
        out.append(pt)
        return out
    if phi is None:
        phi = np.pi / 2
    sweep = phi if ccw else -phi
    arc = Arc(pt, r, theta, sweep)
    out.append(arc)
    out.append(ArcEnd(arc))
    return out


class ArcEnd:
    """The last point of an arc (a vertex that draw_radius returned)."""

    __pydv_obj__ = True

    def __init__(self, arc):
        self.arc = arc


def rotate(point, angle):
    """The contract of utils.rotate (proved in C28)."""
    from pydv import npx as np

    (x, y), c, s = point, np.cos(angle), np.sin(angle)
    return c * x - s * y, s * x + c * y


class utils:
    draw_radius = staticmethod(draw_radius)
    rotate = staticmethod(rotate)


def chain_of(ctx, outline, arcs_spec=()):
    """The vertices and arcs of a symbolic outline.  Loops that fill the point list are recognised as arcs of the
    specification; otherwise the generic point of the loop fails to lie on the expected arc."""
    from pydv import npx as np
    from pydv import terms as T
    from .c25 import need

    pts = outline.points
    chunks = pts.all_chunks() if hasattr(pts, "all_chunks") else [("items", list(pts))]
    arcs_spec = list(arcs_spec)
    out, waiting = [], arcs_spec + [Arc(a.c, a.r, a.t0 + a.sweep, -a.sweep) for a in arcs_spec]
    k_loop = 0
    for ch in chunks:
        if ch[0] == "items":
            items = list(ch[1])
            k = 0
            while k < len(items):
                p = items[k]
                if isinstance(p, Arc):
                    out.append(p)
                    nxt = items[k + 1] if k + 1 < len(items) else None
                    if isinstance(nxt, ArcEnd):
                        need(nxt.arc is p, "the end of another arc")
                        k += 1
                    else:  # the last point of the arc was removed: the next one has to be the same point
                        need(nxt is not None, "an arc without its end")
                        q = nxt.at(np, nxt.t0) if isinstance(nxt, Arc) else nxt
                        e = p.at(np, p.t0 + p.sweep)
                        ctx.ensure_eq("the arc is complete", list(q), list(e))
                else:
                    need(not isinstance(p, ArcEnd), "an arc without its start")
                    out.append((p[0], p[1]))
                k += 1
        elif ch[0] == "loop":
            _, seq, items = ch
            need(len(items) == 1, "a loop that adds several points")
            x, y = items[0]
            i, n = seq.bound, seq.length
            hit = None
            for a in waiting:
                w = a.at(np, a.t0 + a.sweep * i / (n - 1))
                if T.equal(x, w[0]) and T.equal(y, w[1]):
                    hit = a
                    break
            if hit is None:
                need(k_loop < len(arcs_spec), "an arc that is not expected")
                hit = arcs_spec[k_loop]
                w = hit.at(np, hit.t0 + hit.sweep * i / (n - 1))
                ctx.ensure_eq(f"points of arc {k_loop}", [x, y], list(w))
            else:
                ctx.ensure(f"points of arc {k_loop} evenly spaced on the arc", True)
                waiting.remove(hit)
            k_loop += 1
            out.append(hit)
        else:
            need(False, f"a point list with {ch[0]}")
    return out


def library(name):
    import importlib

    return importlib.import_module(f"sectionproperties.pre.library.{name}")


def run(ctx, mod, fn, kwargs):
    """The outline a generator hands to Geometry, with the material."""
    from .c21 import patched
    from .c25 import need

    m = library(mod)
    mat = object()
    G.made = []
    kw = dict(Polygon=Outline)
    for name, stub in (("geometry", geometry), ("sp_utils", utils)):
        if hasattr(m, name):
            kw[name] = stub
    with patched(m, **kw):
        g = getattr(m, fn)(**kwargs, material=mat)
    need(isinstance(g, G), "not a geometry")
    ctx.ensure("the material given", g.material is mat)
    need(isinstance(g.geom, Outline) or g.parts, "not a polygon")
    return g


def compare(ctx, name, got, want):
    """got: a chain; want: signed chains. Equal moments, whichever way round the chain runs."""
    from pydv import npx as np
    from pydv import terms as T

    # a coordinate that equals one of the specification is written as it is there
    known = [p for _, c in want for p in c if not isinstance(p, Arc)]
    same = lambda p: next((q for q in known if T.equal(p[0], q[0]) and T.equal(p[1], q[1])), p)
    a, b = moments(np, [p if isinstance(p, Arc) else same(p) for p in got]), total(np, want)
    flip = T.equal(a["area"], -b["area"])
    for k in POWERS:
        ctx.ensure_eq(f"{name}: {k}", -a[k] if flip else a[k], b[k])


def extents(ctx, name, got, bounds):
    """The vertices and arc ends reach, and do not pass, the stated extents."""
    from pydv import npx as np
    from pydv import terms as T

    vs = []
    for p in got:
        vs += [p.at(np, p.t0), p.at(np, p.t0 + p.sweep)] if isinstance(p, Arc) else [p]
    for axis, lo, hi in ((0, bounds[0], bounds[2]), (1, bounds[1], bounds[3])):
        cs = []
        for v in vs:
            if not any(T.equal(v[axis], c) for c in cs):
                cs.append(T.coerce(v[axis]))
        for which, e in (("least", lo), ("greatest", hi)):
            tag = f"{name}: {which} {'xy'[axis]}"
            hit = any(T.equal(c, e) for c in cs)
            if not hit:
                o = None
                for c in cs:
                    q = T.coerce(c - e) == 0
                    o = q if o is None else o | q
                ctx.ensure(f"{tag} reached", o)
            else:
                ctx.ensure(f"{tag} reached", True)
            for k, c in enumerate(cs):
                if not T.equal(c, e):
                    ctx.ensure(f"{tag} not passed ({k})", (e <= c) if which == "least" else (c <= e))
