"""Symbolic regions: a region is the image of an arbitrary set of points under an affine map.

Contracts assumed on shapely: `affinity.translate/rotate/scale` map every point as documented, about the
given origin (the centre of the bounding box for "center"); `bounds` of a translated shape is translated."""
from __future__ import annotations

from .c21 import patched
from .seccommon import _fn


class GShape:
    """Stands for shapely's Polygon."""

    __pydv_obj__ = True

    def __init__(self, tag="", k=(), m=None, bounds=None):
        from pydv import terms as T

        self.tag, self.k = tag, k
        f = lambda n, **kw: _fn(n + tag, *k, **kw) if k else T.symbol(n + tag, **kw)
        self.m = m or (1, 0, 0, 1, 0, 0)
        self.base = f("X"), f("Y")
        if bounds is None:
            x0, y0 = f("bx"), f("by")
            bounds = (x0, y0, x0 + f("bw", positive=True), y0 + f("bh", positive=True))
        self.bounds = bounds
        self.interiors = ()
        self.is_empty = False

    def at(self):
        """The image of the generic point."""
        a, b, c, d, e, f = self.m
        x, y = self.base
        return a * x + b * y + e, c * x + d * y + f

    def then(self, m, bounds=None):
        a, b, c, d, e, f = self.m
        p, q, r, s, t, u = m
        n = (p * a + q * c, p * b + q * d, r * a + s * c, r * b + s * d, p * e + q * f + t, r * e + s * f + u)
        if bounds is None:
            g = GShape(self.tag + "'", self.k)
            bounds = g.bounds
        return GShape(self.tag, self.k, n, bounds)

    def center(self):
        x0, y0, x1, y1 = self.bounds
        return (x0 + x1) / 2, (y0 + y1) / 2

    @property
    def centroid(self):
        a, b, c, d, e, f = self.m
        x, y = (_fn("gcx" + self.tag, *self.k), _fn("gcy" + self.tag, *self.k))
        return GPoint(a * x + b * y + e, c * x + d * y + f)

    @property
    def area(self):
        a, b, c, d, _, _ = self.m
        return _fn("area" + self.tag, *self.k, positive=True)

    def representative_point(self):
        return GPoint(_fn("rpx", ), _fn("rpy", ))


class GPoint:
    """Stands for shapely's Point."""

    __pydv_obj__ = True

    def __init__(self, x, y=None):
        if isinstance(x, GPoint):
            x, y = x.x, x.y
        elif y is None:
            x, y = x
        self.x, self.y = x, y

    @property
    def coords(self):
        return [(self.x, self.y)]

    def then(self, m, bounds=None):
        p, q, r, s, t, u = m
        return GPoint(p * self.x + q * self.y + t, r * self.x + s * self.y + u)

    def center(self):
        return self.x, self.y

    def at(self):
        return self.x, self.y


class GMulti:
    """Stands for shapely's MultiPolygon."""

    __pydv_obj__ = True

    def __init__(self, geoms, bounds=None):
        if isinstance(geoms, GMulti):
            self.geoms, bounds = geoms.geoms, geoms.bounds
        else:
            self.geoms = geoms
        if bounds is None:
            from pydv import terms as T

            bs = [g.bounds for g in self.geoms]
            bounds = tuple(T.extremum("min" if i < 2 else "max", [b[i] for b in bs]) for i in range(4))
        self.bounds = bounds

    def center(self):
        x0, y0, x1, y1 = self.bounds
        return (x0 + x1) / 2, (y0 + y1) / 2


class GBox:
    """Stands for shapely.box: only its centroid is known."""

    __pydv_obj__ = True

    def __init__(self, x0, y0, x1, y1):
        self.centroid = GPoint((x0 + x1) / 2, (y0 + y1) / 2)
        self.bounds = (x0, y0, x1, y1)


def _origin(s, origin):
    if isinstance(origin, str):
        if origin != "center":
            raise ValueError(origin)
        return s.center()
    if isinstance(origin, GPoint):
        return origin.x, origin.y
    return origin[0], origin[1]


class affinity:
    """Contracts of shapely.affinity."""

    @staticmethod
    def translate(geom, xoff=0, yoff=0, zoff=0):
        b = None
        if isinstance(geom, GShape):
            x0, y0, x1, y1 = geom.bounds
            b = (x0 + xoff, y0 + yoff, x1 + xoff, y1 + yoff)
        return geom.then((1, 0, 0, 1, xoff, yoff), b)

    @staticmethod
    def rotate(geom, angle, origin="center", use_radians=False):
        from pydv import npx as np

        x, y = _origin(geom, origin)
        a = angle if use_radians else angle * np.pi / 180
        c, s = np.cos(a), np.sin(a)
        return geom.then((c, -s, s, c, x - c * x + s * y, y - s * x - c * y))

    @staticmethod
    def scale(geom, xfact=1, yfact=1, zfact=1, origin="center"):
        x, y = _origin(geom, origin)
        return geom.then((xfact, 0, 0, yfact, x - xfact * x, y - yfact * y))


def _round(poly, tol):
    return poly


def model(g, **kw):
    """Patches of the geometry module under which its code runs on symbolic regions."""
    d = dict(Polygon=GShape, MultiPolygon=GMulti, Point=GPoint, box=GBox, affinity=affinity, round_polygon_vertices=_round,
             create_points_and_facets=lambda shape, tol=12: ([("points", shape)], [("facets", shape)]))
    d.update(kw)
    return patched(g, **d)


def region(g, tag="", k=(), control=None):
    """A genuine Geometry on a symbolic region (inside model(g))."""
    from pydv import terms as T

    f = lambda n, **kw: _fn(n + tag, *k, **kw) if k else T.symbol(n + tag, **kw)
    mat = type("M", (), {"__pydv_obj__": True, "elastic_modulus": f("E", positive=True), "name": "m" + tag})()
    cp = (f("cpx"), f("cpy")) if control else None
    return g.Geometry(GShape(tag, k), mat, control_points=cp, tol=7)
