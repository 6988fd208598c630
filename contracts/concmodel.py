"""Stands for the geometries that the concrete generators put together: plates of concrete and bars.

The methods are the contracts of Geometry / CompoundGeometry proved in C21 to C25.  `a - b` and `a + b` are recorded in
order; a loop that keeps replacing its geometry becomes one step of the record."""
from __future__ import annotations

from pydv import seqs
from pydv import terms as T
from pydv.terms import Unsupported

from . import libmodel as L


class Bar:
    """n sides, the given area, centred at (x, y)  (primitive_sections.circular_section_by_area)."""

    def __init__(self, area, n, material, x=0, y=0):
        self.area, self.n, self.material, self.x, self.y = area, n, material, x, y

    def shift_section(self, x_offset=0, y_offset=0):
        return Bar(self.area, self.n, self.material, self.x + x_offset, self.y + y_offset)


class RC(seqs.Folding):
    """root: tuple of (sign, corner points, material); steps: what was done with bars."""

    def __init__(self, root, steps=()):
        self.root, self.steps = root, tuple(steps)

    def with_steps(self, steps):
        return RC(self.root, steps)

    def bare(self):
        if self.steps:
            raise Unsupported("moving a section with bars")
        return self.root

    def __sub__(self, o):
        if isinstance(o, RC) and not o.steps:
            return RC((*self.bare(), *((-s, p, None) for s, p, _ in o.root)))
        return RC(self.root, (*self.steps, ("-", o)))

    def __add__(self, o):
        if isinstance(o, RC) and not o.steps:
            return RC((*self.bare(), *o.root))
        return RC(self.root, (*self.steps, ("+", o)))

    @property
    def material(self):
        return self.root[0][2]

    def shift_section(self, x_offset=0, y_offset=0):
        return RC(tuple((s, [(x + x_offset, y + y_offset) for x, y in p], m) for s, p, m in self.bare()))

    def mirror_section(self, axis="x", mirror_point="center"):
        if mirror_point == "center":
            raise Unsupported("mirror about the centre")
        mx, my = mirror_point
        f = (lambda x, y: (2 * mx - x, y)) if axis == "y" else (lambda x, y: (x, 2 * my - y))
        return RC(tuple((s, [f(x, y) for x, y in reversed(p)], m) for s, p, m in self.bare()))

    def box(self):
        """Extents of a single plate."""
        (item,) = self.bare()
        ps = item[1]
        if len(ps) != 4 or not (T.equal(ps[0][1], ps[1][1]) and T.equal(ps[1][0], ps[2][0]) and T.equal(ps[2][1], ps[3][1]) and T.equal(ps[3][0], ps[0][0])):
            raise Unsupported("extents of something other than a plate")
        xs, ys = (ps[0][0], ps[1][0]), (ps[1][1], ps[2][1])
        return T.extremum("min", list(xs)), T.extremum("max", list(xs)), T.extremum("min", list(ys)), T.extremum("max", list(ys))

    def calculate_extents(self):
        return self.box()

    def align_center(self, align_to=None):
        a = self.box()
        if isinstance(align_to, RC):
            b = align_to.box()
            tx, ty = (b[0] + b[1]) / 2, (b[2] + b[3]) / 2
        else:
            tx, ty = align_to or (0, 0)
        return self.shift_section(tx - (a[0] + a[1]) / 2, ty - (a[2] + a[3]) / 2)

    def align_to(self, other, on, inner=False):
        a, b = self.box(), other.box()
        i = {"left": 0, "right": 1, "bottom": 2, "top": 3}[on]
        j = i if inner else i ^ 1  # the opposite side meets the other's side, or the same side from within
        d = b[i] - a[j]
        return self.shift_section(d, 0) if i < 2 else self.shift_section(0, d)

    def offset_perimeter(self, amount=0, where="exterior", resolution=12):
        a = self.box()
        if where != "exterior":
            raise Unsupported("another use of offset_perimeter")
        return RC(((1, L.rect(a[0] - amount, a[2] - amount, a[1] + amount, a[3] + amount), self.material),))


class Plates:
    """primitive_sections as the generators see it (contracts proved in C28)."""

    @staticmethod
    def rectangular_section(d, b, material=None):
        return RC(((1, L.rect(0, 0, b, d), material),))

    @staticmethod
    def circular_section_by_area(area, n, material=None):
        return Bar(area, n, material)


class _Compound(type):
    def __instancecheck__(cls, o):
        return isinstance(o, RC) and any(s[0] in ("+", "loop") for s in o.steps)

    def __call__(cls, geoms):
        return Bars(geoms)


class Compound(metaclass=_Compound):
    pass


class Bars:
    """CompoundGeometry(list of bars)."""

    def __init__(self, geoms):
        self.geoms = geoms


class Placed:
    """A row of bars in the result: sequence (None: one bar), and the generic bar."""

    def __init__(self, seq, bar):
        self.seq, self.bar = seq, bar

    @property
    def count(self):
        return 1 if self.seq is None else self.seq.length


def same_bar(a, b):
    return T.equal(a.x, b.x) and T.equal(a.y, b.y) and T.equal(a.area, b.area) and T.equal(a.n, b.n)


def placed(ctx, steps):
    """The bars of a record; each has been taken out of the concrete before it was put in, once."""
    from .c25 import need

    out = []

    def pairs(items, seq):
        waiting = []
        for kind, o in items:
            need(isinstance(o, Bar), "something other than bars")
            if kind == "-":
                waiting.append(o)
            else:
                hit = next((w for w in waiting if same_bar(w, o)), None)
                ctx.ensure("the concrete is displaced by the bar", hit is not None)
                if hit is not None:
                    waiting.remove(hit)
                out.append(Placed(seq, o))
        ctx.ensure("nothing else is taken out of the concrete", not waiting)

    run = []
    for s in steps:
        if s[0] == "loop":
            pairs(run, None)
            run = []
            for cond, items in s[2]:
                need(cond is True, "bars under a condition")
                need(all(i[0] in "+-" for i in items), "nested loops of bars")
                pairs(items, s[1])
        else:
            run.append(s)
    pairs(run, None)
    return out


def match(ctx, got, rows, area, n, steel):
    """got: Placed; rows: specification. Every row is there, and nothing else."""
    from pydv.seqs import SymSeq  # noqa: F401

    def fits(p, r, flip):
        if not T.equal(p.count, r.count):
            return False
        j = 0 if p.seq is None else p.seq.bound
        x, y = r.at((r.count - 1 - j) if flip else j)
        return T.equal(p.bar.x, x) and T.equal(p.bar.y, y)

    left, extra = list(rows), []
    for p in got:
        r = next((r for flip in (False, True) for r in left if fits(p, r, flip)), None)
        if r is None:
            extra.append(p)
        else:
            left.remove(r)
        ctx.ensure_eq("the area of a bar", p.bar.area, area(p) if callable(area) else area)
        ctx.ensure_eq("the sides of a bar", p.bar.n, n)
        ctx.ensure("the material of a bar", p.bar.material is steel)
    ctx.ensure("as many rows of bars", len(extra) == len(left))
    for k, (p, r) in enumerate(zip(extra, left)):
        ctx.ensure_eq(f"number of bars in row {k}", p.count, r.count)
        j = 0 if p.seq is None else p.seq.bound
        ctx.ensure_eq(f"row {k}", [p.bar.x, p.bar.y], list(r.at(j)))
    ctx.ensure("rows of bars", True)
