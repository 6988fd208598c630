"""What each concrete section is: plates of concrete (and what is cut out of them) and rows of bars."""
from __future__ import annotations

from .libmodel import rect


class Row:
    """`count` bars; bar j of the row lies at `at(j)`."""

    def __init__(self, count, at):
        self.count, self.at = count, at


def line(m, p, q, spacing, extent=None, first=True, last=True):
    """Bars from p to q no further apart than the spacing; bars shared with another row are left out."""
    if extent is None:
        (x0, y0), (x1, y1) = p, q
        extent = (x1 - x0) + (y1 - y0)  # rows run along an axis, upwards or to the right
    n = m.ceil(extent / spacing) + 1
    return spread(p, q, n, first, last)


def spread(p, q, n, first=True, last=True):
    a = 0 if first else 1

    def at(j):
        if type(n) is int and n == 1:
            return p
        f = (j + a) / (n - 1)
        return p[0] + (q[0] - p[0]) * f, p[1] + (q[1] - p[1]) * f

    return Row(n - a - (0 if last else 1), at)


def mid(*r):
    """A row without its ends."""
    return dict(first=False, last=False)


WALLS: dict = {}


class Wall:
    def __init__(self, fn, names, conds, plates, rows, sample):
        self.fn, self.names, self.conds, self.plates, self.rows, self.sample = fn, names, conds, plates, rows, sample


def wall(names, conds, sample, plates):
    def deco(f):
        WALLS[f.__name__] = Wall(f.__name__, names.split(), conds, plates, f, sample)
        return f

    return deco


INNER = dict(first=False, last=False)


@wall("d t", lambda d, t, e: [2 * e < d, 4 * e < t], lambda g, e: [6 * e + g.uniform(0.1, 4), 4.5 * e + g.uniform(0.05, 0.3)],
      lambda d, t: [(1, rect(0, 0, t, d))])
def rectangular_wall(m, s, e, double, d, t):
    L = lambda p, q, **k: line(m, p, q, s, **k)
    if not double:
        return [L((t / 2, e), (t / 2, d - e))]
    return [L((x, e), (x, d - e)) for x in (e, t - e)]


@wall("d b t_f t_w", lambda d, b, tf, tw, e: [4 * e < tf, 4 * e < tw, 2 * tf < d, tw + e < b, 2 * e < b],
      lambda g, e: (lambda tf, tw: [2 * tf + 4 * e + g.uniform(0.1, 4), tw + 4 * e + g.uniform(0.1, 4), tf, tw])(4.5 * e + g.uniform(0, 0.2), 4.5 * e + g.uniform(0, 0.2)),
      lambda d, b, tf, tw: [(1, rect(0, 0, b, d)), (-1, rect(tw, tf, b, d - tf))])
def cee_wall(m, s, e, double, d, b, tf, tw):
    L = lambda p, q, **k: line(m, p, q, s, **k)
    if not double:
        x, y = tw / 2, tf / 2
        return [L((x, y), (b - e, y)), L((x, d - y), (b - e, d - y)), L((x, y), (x, d - y), **INNER)]
    x, y = tw - e, tf - e
    return [L((e, e), (b - e, e)), L((e, d - e), (b - e, d - e)), L((e, e), (e, d - e), **INNER),
            L((x, y), (b - e, y)), L((x, d - y), (b - e, d - y)), L((x, y), (x, d - y), **INNER)]


@wall("d b t_f t_w", lambda d, b, tf, tw, e: [4 * e < tf, 4 * e < tw, tf + e < d, tw < b],
      lambda g, e: (lambda tf, tw: [tf + 4 * e + g.uniform(0.1, 4), tw + 4 * e + g.uniform(0.1, 4), tf, tw])(4.5 * e + g.uniform(0, 0.2), 4.5 * e + g.uniform(0, 0.2)),
      lambda d, b, tf, tw: [(1, rect(0, 0, b, d)), (-1, rect(0, 0, (b - tw) / 2, d - tf)), (-1, rect((b + tw) / 2, 0, b, d - tf))])
def tee_wall(m, s, e, double, d, b, tf, tw):
    L = lambda p, q, **k: line(m, p, q, s, **k)
    if not double:
        return [L((e, d - tf / 2), (b - e, d - tf / 2)), L((b / 2, e), (b / 2, d - tf / 2), last=False)]
    y = d - tf + e
    x0, x1 = (b - tw) / 2 + e, (b + tw) / 2 - e
    return [L((e, d - e), (b - e, d - e)), L((e, y), (x0, y)), L((x1, y), (b - e, y)),
            L((x0, e), (x0, y), last=False), L((x1, e), (x1, y), last=False)]


def tube(d, b, t1, t2):
    return [(1, rect(0, 0, b, d)), (-1, rect(t2, t1, b - t2, d - t1))]


def tube_rows(L, e, double, d, b, t1, t2):
    """Top, bottom and left wall."""
    if not double:
        x, y = t2 / 2, t1 / 2
        return [L((x, y), (b - x, y)), L((x, d - y), (b - x, d - y)), L((x, y), (x, d - y), **INNER)]
    x, y = t2 - e, t1 - e
    return [L((e, e), (b - e, e)), L((e, d - e), (b - e, d - e)), L((e, e), (e, d - e), **INNER),
            L((x, y), (b - x, y)), L((x, d - y), (b - x, d - y)), L((x, y), (x, d - y), **INNER)]


def thin(e, *ts):
    return [4 * e < t for t in ts]


def wallt(g, e):
    return 4.5 * e + g.uniform(0, 0.2)


@wall("d b t1 t2 a", lambda d, b, t1, t2, a, e: [*thin(e, t1, t2), 2 * t2 < b, t1 + 2 * e < (d - a) / 2],
      lambda g, e: (lambda t1, t2, a: [2 * t1 + a + 4.5 * e + g.uniform(0.1, 4), 2 * t2 + g.uniform(0.1, 4), t1, t2, a])(wallt(g, e), wallt(g, e), g.uniform(0.2, 2)),
      lambda d, b, t1, t2, a: tube(d, b, t1, t2) + [(-1, rect(b - t2, (d - a) / 2, b, (d + a) / 2))])
def single_lift_core(m, s, e, double, d, b, t1, t2, a):
    L = lambda p, q, **k: line(m, p, q, s, **k)
    out = tube_rows(L, e, double, d, b, t1, t2)
    lo, hi = (d - a) / 2 - e, (d + a) / 2 + e  # the bars next to the door
    for x, y in ((b - t2 / 2, t1 / 2),) if not double else ((b - e, e), (b - t2 + e, t1 - e)):
        out += [L((x, y), (x, lo), first=False), L((x, hi), (x, d - y), last=False)]
    return out


def nibs(L, e, double, d, b, t1, t2, nib):
    out = []
    lo, hi = t1 + nib - e, d - t1 - nib + e
    for x, y in ((b - t2 / 2, t1 / 2),) if not double else ((b - e, e), (b - t2 + e, t1 - e)):
        k = dict(extent=nib + t1 / 2) if not double else {}  # (a little longer than the row)
        out += [L((x, y), (x, lo), first=False, **k), L((x, hi), (x, d - y), last=False, **k)]
    return out


@wall("d b t1 t2 a1 a2", lambda d, b, t1, t2, a1, a2, e: [*thin(e, t1, t2), 2 * t2 < b, 2 * a1 + a2 < d - 2 * t1, 2 * e < a2],
      lambda g, e: (lambda t1, t2, a1, a2: [2 * t1 + 2 * a1 + a2 + g.choice([4 * e, 4 * e + g.uniform(0, 2)]), 2 * t2 + g.uniform(0.1, 4), t1, t2, a1, a2])(wallt(g, e), wallt(g, e), g.uniform(0.2, 2), 4.5 * e + g.uniform(0, 1)),
      lambda d, b, t1, t2, a1, a2: tube(d, b, t1, t2) + (lambda n: [(-1, rect(b - t2, t1 + n, b, t1 + n + a1)), (-1, rect(b - t2, d - t1 - n - a1, b, d - t1 - n))])((d - 2 * t1 - 2 * a1 - a2) / 2))
def double_lift_core_a(m, s, e, double, d, b, t1, t2, a1, a2):
    L = lambda p, q, **k: line(m, p, q, s, **k)
    nib = (d - 2 * t1 - 2 * a1 - a2) / 2
    out = tube_rows(L, e, double, d, b, t1, t2) + nibs(L, e, double, d, b, t1, t2, nib)
    for x in (b - t2 / 2,) if not double else (b - t2 + e, b - e):
        out.append(L((x, (d - a2) / 2 + e), (x, (d + a2) / 2 - e)))
    return out


@wall("d b t1 t2 t3 a", lambda d, b, t1, t2, t3, a, e: [*thin(e, t1, t2, t3), 2 * t2 < b, 2 * a < d - 2 * t1 - t3],
      lambda g, e: (lambda t1, t2, t3, a: [2 * t1 + 2 * a + t3 + g.choice([8 * e, 10 * e + g.uniform(0, 4)]), 2 * t2 + g.uniform(0.1, 4), t1, t2, t3, a])(wallt(g, e), wallt(g, e), wallt(g, e), g.uniform(0.2, 2)),
      lambda d, b, t1, t2, t3, a: [(1, rect(0, 0, b, d)), (-1, rect(t2, t1, b - t2, (d - t3) / 2)), (-1, rect(t2, (d + t3) / 2, b - t2, d - t1))]
      + (lambda n: [(-1, rect(b - t2, t1 + n, b, t1 + n + a)), (-1, rect(b - t2, d - t1 - n - a, b, d - t1 - n))])((d - 2 * t1 - 2 * a - t3) / 4))
def double_lift_core_b(m, s, e, double, d, b, t1, t2, t3, a):
    L = lambda p, q, **k: line(m, p, q, s, **k)
    nib = (d - 2 * t1 - 2 * a - t3) / 4
    a2 = 2 * nib + t3
    p0, p1 = (d - a2) / 2 + e, (d + a2) / 2 - e  # the pier's own outer bars
    if not double:
        out = tube_rows(L, e, double, d, b, t1, t2) + nibs(L, e, double, d, b, t1, t2, nib)
        return [*out, L((t2 / 2, d / 2), (b - t2 / 2, d / 2), **INNER), L((b - t2 / 2, p0), (b - t2 / 2, p1))]
    x, y = t2 - e, t1 - e
    w0, w1 = (d - t3) / 2 + e, (d + t3) / 2 - e  # in the faces of the central wall
    out = [L((e, e), (b - e, e)), L((e, d - e), (b - e, d - e)), L((e, e), (e, d - e), **INNER)]
    out += [L((x, v), (b - x, v)) for v in (y, w0, w1, d - y)]
    out += [L((x, y), (x, w0), **INNER), L((x, w1), (x, d - y), **INNER)]
    out += nibs(L, e, double, d, b, t1, t2, nib)
    return [*out, L((b - e, p0), (b - e, p1)), L((b - x, p0), (b - x, w0), last=False), L((b - x, w1), (b - x, p1), first=False)]


@wall("d b t1 t2 a", lambda d, b, t1, t2, a, e: [*thin(e, t1, t2), 2 * t2 < b, 2 * t1 + a < d],
      lambda g, e: (lambda t1, t2, a: [2 * t1 + a + g.choice([4 * e, 4 * e + g.uniform(0, 3)]), 2 * t2 + g.uniform(0.1, 4), t1, t2, a])(wallt(g, e), wallt(g, e), g.uniform(0.2, 2)),
      lambda d, b, t1, t2, a: tube(d, b, t1, t2) + [(-1, rect(b - t2, d - t1 - a, b, d - t1))])
def stairwell(m, s, e, double, d, b, t1, t2, a):
    L = lambda p, q, **k: line(m, p, q, s, **k)
    top = d - t1 - a - e  # the last bar below the door
    if not double:
        x, y = t2 / 2, t1 / 2
        return tube_rows(L, e, double, d, b, t1, t2) + [L((b - x, y), (b - x, top), first=False)]
    x, y = t2 - e, t1 - e
    return [L((e, e), (b - e, e)), L((e, d - e), (b - e, d - e)), L((x, d - y), (b - e, d - y)), L((x, y), (b - x, y)),
            L((e, e), (e, d - e), **INNER), L((x, y), (x, d - y), **INNER),
            L((b - x, y), (b - x, top), first=False),
            L((b - e, e), (b - e, top), first=False, extent=d - t1 - a - e)]  # (a little longer than the row)


# ------------------------------------------------------------------ beams and columns
def beam_rows(d, b_top, b_bot, dia_top, n_top, c_top, dia_bot, n_bot, c_bot, dia_side, n_side, c_side, side_cover_given, sides, centre):
    """Rows of a beam whose faces lie symmetrically about x = centre."""

    def layer(b, dia, n, c, y):
        e = (c_side if side_cover_given else c) + dia / 2
        if type(n) is int and n == 1:
            return Row(1, lambda j: (centre, y))
        return spread((centre - b / 2 + e, y), (centre + b / 2 - e, y), n)

    y0, y1 = c_bot + dia_bot / 2, d - c_top - dia_top / 2
    out = [layer(b_top, dia_top, n_top, c_top, y1), layer(b_bot, dia_bot, n_bot, c_bot, y0)]
    if sides:
        e = c_side + dia_side / 2
        for x in (centre - b_bot / 2 + e, centre + b_bot / 2 - e):
            out.append(Row(n_side, lambda j, x=x: (x, y0 + (y1 - y0) * (j + 1) / (n_side + 1))))
    return out
