"""Shared specification vocabulary: exact integration over a triangle, written without any
reference to the code under verification (no quadrature, no shape-function code)."""
from __future__ import annotations

from math import factorial


def dual(h=None, *, samples=12):
    def deco(f):
        f.dual = True
        f.samples = samples
        return f

    return deco(h) if h is not None else deco


def lib(ctx):
    """The numerical library of the mode: exact (pydv.npx) or numpy."""
    if ctx.mode == "symbolic":
        from pydv import npx

        return npx
    import numpy

    return numpy


def like(x, cls):
    """Lets the stand-in x use the private helpers that cls defines (their real bodies)."""
    import inspect

    def helper(self, name):
        if not name.startswith("_") or name.startswith("__"):
            raise AttributeError(name)
        f = inspect.getattr_static(cls, name, None)
        if f is None or not hasattr(f, "__get__"):
            raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}")
        return f.__get__(self, type(self))

    type(x).__getattr__ = helper
    return x


def fea_module():
    import sectionproperties.analysis.fea as fea

    return fea


def material(ctx, tag="", nu=None):
    """A material; its elastic modulus, shear modulus (through nu) and density are arbitrary."""
    import sectionproperties.pre.pre as pre

    e = ctx.pos(f"E{tag}")
    n = ctx.real(f"nu{tag}", 0.0, 0.45)
    fy = ctx.pos(f"fy{tag}")
    rho = ctx.pos(f"rho{tag}")
    if ctx.mode == "symbolic":
        ctx.assume(1 + n > 0)
    return pre.Material(f"m{tag}", e, n, fy, rho, "w")


# ------------------------------------------------------------------ polynomials in L1, L2, L3
class Nat:
    """Polynomial in the natural coordinates of a triangle."""

    def __init__(self, d):
        self.d = d

    @staticmethod
    def c(v):
        return Nat({(0, 0, 0): v})

    def __add__(self, o):
        o = o if isinstance(o, Nat) else Nat.c(o)
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d[k] + v if k in d else v
        return Nat(d)

    __radd__ = __add__

    def __neg__(self):
        return Nat({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-(o if isinstance(o, Nat) else Nat.c(o)))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Nat):
            return Nat({k: v * o for k, v in self.d.items()})
        d = {}
        for (a, b, c), v in self.d.items():
            for (e, f, g), w in o.d.items():
                k = (a + e, b + f, c + g)
                d[k] = d[k] + v * w if k in d else v * w
        return Nat(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = Nat.c(1)
        for _ in range(n):
            r = r * self
        return r

    def integral(self, area):
        """Exact: integral of L1^a L2^b L3^c = 2 A a! b! c! / (a+b+c+2)!"""
        t = 0
        for (a, b, c), v in self.d.items():
            w = frac(2 * factorial(a) * factorial(b) * factorial(c), factorial(a + b + c + 2))
            t = t + v * w * area
        return t

    def at(self, l1, l2, l3):
        t = 0
        for (a, b, c), v in self.d.items():
            t = t + v * (l1**a) * (l2**b) * (l3**c)
        return t

    def four_point(self, area):
        """The documented degree-three, four-point rule (Strang-Fix)."""
        t = self.at(frac(1, 3), frac(1, 3), frac(1, 3)) * frac(-27, 48)
        for p in ((3, 1, 1), (1, 3, 1), (1, 1, 3)):
            t = t + self.at(*[frac(q, 5) for q in p]) * frac(25, 48)
        return t * area


MODE = {"symbolic": False}


def frac(a, b):
    if MODE["symbolic"]:
        from pydv.terms import F, Sym

        return Sym.const(F(a, b))
    return a / b


L1, L2, L3 = (Nat({(1, 0, 0): 1}), Nat({(0, 1, 0): 1}), Nat({(0, 0, 1): 1}))
SHAPE = [
    L1 * (2 * L1 - 1), L2 * (2 * L2 - 1), L3 * (2 * L3 - 1), 4 * L1 * L2, 4 * L2 * L3, 4 * L3 * L1,
]
NODES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1)]  # halves for midsides


def node_nat(i):
    p = NODES[i]
    s = sum(p)
    return tuple(frac(q, s) for q in p)


class Tri:
    """A straight-sided, counter-clockwise six-noded triangle and its spec functions."""

    def __init__(self, ctx, tag="", at_origin=False):
        MODE["symbolic"] = ctx.mode == "symbolic"
        np = lib(ctx)
        if at_origin:
            x3, y3 = 0, 0
        else:
            x3, y3 = ctx.real(f"x{tag}", -20, 20), ctx.real(f"y{tag}", -20, 20)
        a, b, c, d = [ctx.real(f"{n}{tag}", -4, 4) for n in "abcd"]
        if ctx.mode != "symbolic":
            if a * d - b * c < 0:
                a, b, c, d = b, a, d, c
            ctx.assume(a * d - b * c > 0.3)
        else:
            ctx.assume(a * d - b * c > 0)
        self.corners = [(x3 + a, y3 + c), (x3 + b, y3 + d), (x3, y3)]
        self.area = (a * d - b * c) * frac(1, 2)
        p = self.corners
        mid = lambda u, v: ((u[0] + v[0]) * frac(1, 2), (u[1] + v[1]) * frac(1, 2))
        self.pts = p + [mid(p[0], p[1]), mid(p[1], p[2]), mid(p[2], p[0])]
        self.coords = np.array([[q[0] for q in self.pts], [q[1] for q in self.pts]])
        if ctx.mode != "symbolic":
            import numpy

            self.coords = numpy.array(self.coords, dtype=float)
        self.x = L1 * p[0][0] + L2 * p[1][0] + L3 * p[2][0]
        self.y = L1 * p[0][1] + L2 * p[1][1] + L3 * p[2][1]
        # gradients of L1, L2, L3 (textbook: b_i = y_j - y_k, c_i = x_k - x_j, over 2A)
        two_a = a * d - b * c
        g = []
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            g.append(((p[j][1] - p[k][1]) / two_a, (p[k][0] - p[j][0]) / two_a))
        self.gl = g
        self.scale = None

    def grad(self, f: Nat):
        """Gradient of a natural polynomial, as natural polynomials."""
        out = [Nat({}), Nat({})]
        for k, v in f.d.items():
            for i in range(3):
                if k[i]:
                    kk = list(k)
                    kk[i] -= 1
                    t = Nat({tuple(kk): v * k[i]})
                    for ax in (0, 1):
                        out[ax] = out[ax] + t * self.gl[i][ax]
        return out

    def integrate(self, f: Nat):
        return f.integral(self.area)

    def field(self, nodal):
        """The quadratic field with the given nodal values."""
        t = Nat({})
        for n, v in zip(SHAPE, nodal):
            t = t + n * v
        return t


def element(ctx, tri, mat, el_id=0, node_ids=None):
    fea = fea_module()
    np = lib(ctx)
    return fea.Tri6(el_id, np.array(tri.coords) if ctx.mode == "symbolic" else tri.coords.copy(),
                    node_ids or [0, 1, 2, 3, 4, 5], mat)


def absmax(v):
    import numpy as np

    return float(np.max(np.abs(np.asarray(v, dtype=float))))


def mag(ctx, *terms):
    """A scale for relative comparison (concrete mode only)."""
    if ctx.mode == "symbolic":
        return None
    s = 0.0
    for t in terms:
        s = max(s, absmax(t))
    return s


def dist_scale(ctx, tri):
    """Largest coordinate magnitude of an element (for rounding-error scales)."""
    if ctx.mode == "symbolic":
        return None
    return max(1e-3, absmax(tri.coords))
