"""What each Nastran section is, from the documented meaning of its DIM values: plates, and the four recovery points.

Coordinates are those in which the section is built.  `ref` is the point the recovery points are relative to,
`origin` the point that the documentation puts at (0, 0)."""
from __future__ import annotations

from .libmodel import rect

NASTRAN: dict = {}


class Nas:
    def __init__(self, fn, n, conds, build, sample):
        self.fn, self.names, self.conds, self.build, self.sample = fn, [f"dim_{k + 1}" for k in range(n)], conds, build, sample


def nas(n, conds, sample):
    def deco(f):
        NASTRAN["nastran_" + f.__name__] = Nas("nastran_" + f.__name__, n, conds, f, sample)
        return f

    return deco


def P(*p):
    return [(1, rect(*p))]


def box_points(x0, y0, x1, y1):
    """Corners from the top right, clockwise."""
    return [(x1, y1), (x1, y0), (x0, y0), (x0, y1)]


def r(rng, n):
    return [rng.uniform(0.2, 4) for _ in range(n)]


def solid(rng, n):
    return r(rng, n)


def thick(rng):
    return rng.uniform(0.05, 0.6)


@nas(2, lambda a, b: [], lambda g: r(g, 2))
def bar(a, b):
    return dict(rings=[P(-a / 2, -b / 2, a / 2, b / 2)], rec=box_points(-a / 2, -b / 2, a / 2, b / 2), ref=(0, 0), origin=(0, 0))


@nas(4, lambda a, b, ty, tx: [2 * tx < a, 2 * ty < b], lambda g: (lambda ty, tx: [2 * tx + r(g, 1)[0], 2 * ty + r(g, 1)[0], ty, tx])(thick(g), thick(g)))
def box(a, b, ty, tx):
    o = (-a / 2, -b / 2, a / 2, b / 2)
    return dict(rings=[P(*o), P(-a / 2 + tx, -b / 2 + ty, a / 2 - tx, b / 2 - ty)], rec=box_points(*o), ref=(0, 0), origin=(0, 0))


@nas(6, lambda a, b, t, bt, l, rt: [l + rt < a, t + bt < b],
     lambda g: (lambda t, bt, l, rt: [l + rt + r(g, 1)[0], t + bt + r(g, 1)[0], t, bt, l, rt])(*(thick(g) for _ in range(4))))
def box1(a, b, top, bottom, left, right):
    return dict(rings=[P(0, 0, a, b), P(left, bottom, a - right, b - top)], rec=box_points(0, 0, a, b), ref=(a / 2, b / 2), origin=(a / 2, b / 2),
                swapped=[P(0, 0, a, b), P(right, bottom, a - left, b - top)])


@nas(4, lambda b, d, tw, tf: [2 * tf < d, tw < b], lambda g: (lambda tw, tf: [tw + r(g, 1)[0], 2 * tf + r(g, 1)[0], tw, tf])(thick(g), thick(g)))
def chan(b, d, tw, tf):
    return dict(rings=[P(0, 0, tw, d) + P(tw, 0, b, tf) + P(tw, d - tf, b, d)], rec=box_points(0, 0, b, d), ref=(b / 2, d / 2), origin=(tw / 2, d / 2))


@nas(4, lambda w, tw, h, d: [d > h], lambda g: (lambda h: [r(g, 1)[0], thick(g), h, h + r(g, 1)[0]])(r(g, 1)[0]))
def chan1(w, tw, h, d):
    t = (d - h) / 2
    return dict(rings=[P(0, 0, tw, d) + P(tw, 0, tw + w, t) + P(tw, d - t, tw + w, d)], rec=box_points(0, 0, tw + w, d), ref=(tw / 2, d / 2), origin=(tw / 2, d / 2))


@nas(4, lambda t, tw, d, w: [w > 2 * t, d > tw], lambda g: (lambda t, tw: [t, tw, tw + r(g, 1)[0], 2 * t + r(g, 1)[0]])(thick(g), thick(g)))
def chan2(t, tw, d, w):
    return dict(rings=[P(0, 0, w, tw) + P(0, tw, t, d) + P(w - t, tw, w, d)], rec=box_points(0, 0, w, d), ref=(w / 2, tw / 2), origin=(w / 2, tw / 2))


@nas(4, lambda a, tv, d, th: [th < d], lambda g: (lambda th: [r(g, 1)[0], thick(g), th + r(g, 1)[0], th])(thick(g)))
def cross(a, tv, d, th):
    y0, y1 = (d - th) / 2, (d + th) / 2
    return dict(rings=[P(a / 2, 0, a / 2 + tv, d) + P(0, y0, a / 2, y1) + P(a / 2 + tv, y0, a + tv, y1)],
                rec=[((a + tv) / 2, d), (a + tv, d / 2), ((a + tv) / 2, 0), (0, d / 2)], ref=((a + tv) / 2, d / 2), origin=((a + tv) / 2, d / 2))


def s_fcross(g):
    tv, th, lv, lh, fv, fh = thick(g), thick(g), r(g, 1)[0], r(g, 1)[0], thick(g), thick(g)
    lv, lh = tv + lv, th + lh
    return [max(lh, th + 2 * fv) + r(g, 1)[0], max(lv, tv + 2 * fh) + r(g, 1)[0], tv, th, lv, fv, lh, fh]


@nas(8, lambda d, w, tv, th, lv, fv, lh, fh: [lv > tv, lh > th, lh < d, lv < w, 2 * fh < w - tv, 2 * fv < d - th,
     (lv + 2 * fh < w) | (lh + 2 * fv < d)], s_fcross)
def fcross(d, w, tv, th, lv, fv, lh, fh):
    web = P(-tv / 2, -d / 2, tv / 2, d / 2) + P(tv / 2, -th / 2, w / 2, th / 2) + P(-w / 2, -th / 2, -tv / 2, th / 2)
    wing = lambda x0, x1, y0, y1: P(x0, y0, x1, y1)
    f = wing(tv / 2, lv / 2, d / 2 - fv, d / 2) + wing(-lv / 2, -tv / 2, d / 2 - fv, d / 2)
    f = f + wing(tv / 2, lv / 2, -d / 2, -d / 2 + fv) + wing(-lv / 2, -tv / 2, -d / 2, -d / 2 + fv)
    f = f + wing(w / 2 - fh, w / 2, th / 2, lh / 2) + wing(w / 2 - fh, w / 2, -lh / 2, -th / 2)
    f = f + wing(-w / 2, -w / 2 + fh, th / 2, lh / 2) + wing(-w / 2, -w / 2 + fh, -lh / 2, -th / 2)
    return dict(rings=[web + f], rec=[(0, d / 2), (w / 2, 0), (0, -d / 2), (-w / 2, 0)], ref=(0, 0), origin=(0, 0))


def s_dbox(g):
    l, c, rr, tl, bl, tr, br = (thick(g) for _ in range(7))
    x = l + c / 2 + r(g, 1)[0]
    return [x + c / 2 + rr + r(g, 1)[0], max(tl + bl, tr + br) + r(g, 1)[0], x, l, c, rr, tl, bl, tr, br]


@nas(10, lambda w, d, x, l, c, rr, tl, bl, tr, br: [l + c + rr < w, l + c / 2 < x, tl + bl < d, tr + br < d, x + c / 2 + rr < w], s_dbox)
def dbox(w, d, x, l, c, rr, tl, bl, tr, br):
    return dict(rings=[P(0, 0, w, d), P(l, bl, x - c / 2, d - tl), P(x + c / 2, br, w - rr, d - tr)], rec=box_points(0, 0, w, d),
                ref=(w / 2, d / 2), origin=(w / 2, d / 2))


@nas(6, lambda w, d, t, b, tw, s: [t + b < d, 2 * tw + s < w],
     lambda g: (lambda t, b, tw, s: [2 * tw + s + r(g, 1)[0], t + b + r(g, 1)[0], t, b, tw, s])(thick(g), thick(g), thick(g), r(g, 1)[0]))
def gbox(w, d, t, b, tw, s):
    x0, x1 = (w - s) / 2 - tw, (w + s) / 2 + tw
    return dict(rings=[P(0, 0, w, b) + P(x0, b, x1, d - t) + P(0, d - t, w, d), P(x0 + tw, b, x1 - tw, d - t)], rec=box_points(0, 0, w, d),
                ref=(w / 2, d / 2), origin=(w / 2, d / 2))


@nas(4, lambda s, t2, d, tw: [tw < d], lambda g: (lambda tw: [r(g, 1)[0], r(g, 1)[0], tw + r(g, 1)[0], tw])(thick(g)))
def h(s, t2, d, tw):
    t = t2 / 2
    w = s + t2
    return dict(rings=[P(0, 0, t, d) + P(w - t, 0, w, d) + P(t, (d - tw) / 2, w - t, (d + tw) / 2)], rec=box_points(0, 0, w, d), ref=(w / 2, d / 2), origin=(w / 2, d / 2))


def hat_plates(d, t, top, foot):
    x0, x1, w = foot, foot + top, 2 * foot + top
    return P(0, 0, foot + t, t) + P(x1 - t, 0, w, t) + P(x0, t, x0 + t, d) + P(x1 - t, t, x1, d) + P(x0 + t, d - t, x1 - t, d)


@nas(4, lambda d, t, top, foot: [2 * t < d, 2 * t < top], lambda g: (lambda t: [2 * t + r(g, 1)[0], t, 2 * t + r(g, 1)[0], r(g, 1)[0]])(thick(g)))
def hat(d, t, top, foot):
    w = 2 * foot + top
    y = d - t / 2  # the middle of the top plate
    return dict(rings=[hat_plates(d, t, top, foot)], rec=[(foot + top, d), (w, t / 2), (0, t / 2), (foot, d)], ref=(w / 2, y), origin=(w / 2, y))


def s_hat1(g):
    t, p = thick(g), thick(g)
    top = 2 * t + r(g, 1)[0]
    return [top + r(g, 1)[0], 2 * t + p + r(g, 1)[0], top, t, p]


@nas(5, lambda w, d, top, t, p: [2 * t + p < d, top < w, 2 * t < top], s_hat1)
def hat1(w, d, top, t, p):
    foot = (w - top) / 2
    up = [(s, [(x - w / 2, y + p) for x, y in c]) for s, c in hat_plates(d - p, t, top, foot)]
    return dict(regions=[[up], [P(-w / 2, 0, w / 2, p)]], rec=[(-w / 2, 0), (w / 2, 0), (-top / 2, d), (top / 2, d)], ref=(0, 0), origin=(0, 0))


@nas(3, lambda a, w, d: [w > a, 2 * a <= w], lambda g: (lambda a: [a, 2 * a + r(g, 1)[0], r(g, 1)[0]])(thick(g)))
def hexa(a, w, d):
    chain = [(a, 0), (w - a, 0), (w, d / 2), (w - a, d), (a, d), (0, d / 2)]
    return dict(rings=[[(1, chain)]], rec=[(w / 2, d), (w / 2, 0), (w, d / 2), (0, d / 2)], ref=(w / 2, d / 2), origin=(w / 2, d / 2))


@nas(6, lambda d, wb, wt, tw, tb, tt: [tb + tt < d, tw < wt, tw < wb],
     lambda g: (lambda tw, tb, tt: [tb + tt + r(g, 1)[0], tw + r(g, 1)[0], tw + r(g, 1)[0], tw, tb, tt])(thick(g), thick(g), thick(g)))
def i(d, wb, wt, tw, tb, tt):
    c = wb / 2
    return dict(rings=[P(0, 0, wb, tb) + P(c - wt / 2, d - tt, c + wt / 2, d) + P(c - tw / 2, tb, c + tw / 2, d - tt)],
                rec=[(c + wt / 2, d), (wb, 0), (0, 0), (c - wt / 2, d)], ref=(c, d / 2), origin=(c, tb / 2))


@nas(4, lambda a, tw, h_, d: [d > h_], lambda g: (lambda h_: [r(g, 1)[0], thick(g), h_, h_ + r(g, 1)[0]])(r(g, 1)[0]))
def i1(a, tw, h_, d):
    w, t = a + tw, (d - h_) / 2
    return dict(rings=[P(0, 0, w, t) + P(0, d - t, w, d) + P(a / 2, t, a / 2 + tw, d - t)], rec=box_points(0, 0, w, d), ref=(w / 2, d / 2), origin=(w / 2, d / 2))


@nas(4, lambda w, d, tf, tw: [tw < w, tf < d], lambda g: (lambda tf, tw: [tw + r(g, 1)[0], tf + r(g, 1)[0], tf, tw])(thick(g), thick(g)))
def l(w, d, tf, tw):
    return dict(rings=[P(0, 0, w, tf) + P(0, tf, tw, d)], rec=[(tw, d), (w, 0), (0, 0), (0, d)], ref=(tw / 2, tf / 2), origin=(tw / 2, tf / 2))


@nas(4, lambda w, d, tf, tw: [tw < w, tf < d], lambda g: (lambda tf, tw: [tw + r(g, 1)[0], tf + r(g, 1)[0], tf, tw])(thick(g), thick(g)))
def tee(w, d, tf, tw):
    return dict(rings=[P(0, d - tf, w, d) + P((w - tw) / 2, 0, (w + tw) / 2, d - tf)], rec=[(w / 2, d), (w, d), (w / 2, 0), (0, d)],
                ref=(w / 2, d - tf / 2), origin=(w / 2, d - tf / 2))


@nas(4, lambda d, w, tf, tw: [tw < d], lambda g: (lambda tf, tw: [tw + r(g, 1)[0], r(g, 1)[0], tf, tw])(thick(g), thick(g)))
def tee1(d, w, tf, tw):
    return dict(rings=[P(0, 0, tf, d) + P(-w, (d - tw) / 2, 0, (d + tw) / 2)], rec=[(tf, d / 2), (tf, 0), (-w, d / 2), (tf, d)],
                ref=(tf / 2, d / 2), origin=(tf / 2, d / 2))


@nas(4, lambda w, d, tf, tw: [tw < w, tf < d], lambda g: (lambda tf, tw: [tw + r(g, 1)[0], tf + r(g, 1)[0], tf, tw])(thick(g), thick(g)))
def tee2(w, d, tf, tw):
    x0, x1 = (w - tw) / 2, (w + tw) / 2
    return dict(rings=[P(0, 0, w, tf) + P(x0, tf, x1, d)], rec=[(x1, d), (w, 0), (0, 0), (x0, d)], ref=(w / 2, tf / 2), origin=(w / 2, tf / 2))


@nas(4, lambda a, tw, h_, d: [d > h_], lambda g: (lambda h_: [r(g, 1)[0], thick(g), h_, h_ + r(g, 1)[0]])(r(g, 1)[0]))
def zed(a, tw, h_, d):
    t = (d - h_) / 2
    return dict(rings=[P(a, 0, a + tw, d) + P(a + tw, 0, 2 * a + tw, t) + P(0, d - t, a, d)],
                rec=[(a + tw, d), (2 * a + tw, 0), (a, 0), (0, d)], ref=(a + tw / 2, d / 2), origin=(a + tw / 2, d / 2))


def extents(rings):
    """Extents of a numeric specification."""
    v = [p for _, c in rings for p in c]
    return min(p[0] for p in v), min(p[1] for p in v), max(p[0] for p in v), max(p[1] for p in v)
