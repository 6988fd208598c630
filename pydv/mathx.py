"""The math module as seen by the extracted code."""
from __future__ import annotations

import math as _math

from . import npx
from . import terms as T
from .terms import Sym

pi = npx.pi


def _w(sym, py):
    def f(x):
        return sym(x) if isinstance(x, Sym) else sym(T.coerce(x))

    return f


sqrt = npx.sqrt
cos = npx.cos
sin = npx.sin
tan = npx.tan
atan2 = npx.arctan2
hypot = npx.hypot
radians = npx.radians
degrees = npx.degrees


def fabs(x):
    return T.absolute(T.coerce(x))


def ceil(x):
    """The least integer that is not below x."""
    if isinstance(x, Sym) and not x.is_const():
        import mpmath

        from .engine import ENGINE

        r = T.func("ceil", x, info={"model": lambda env, a: mpmath.ceil(a[0])})
        for f in (r >= x, r < x + 1):
            ENGINE.assume(f)
        # an integer above a positive number is at least one
        if ENGINE.decides(x > 0):
            ENGINE.assume(r >= 1)
        return r
    return _math.ceil(x.const_value()) if isinstance(x, Sym) else _math.ceil(x)


def floor(x):
    return _math.floor(x.const_value()) if isinstance(x, Sym) else _math.floor(x)


def isclose(a, b, *, rel_tol=None, abs_tol=0):
    """math.isclose: |a - b| <= max(rel_tol * max(|a|, |b|), abs_tol), rel_tol 1e-9 by default."""
    a, b = T.coerce(a), T.coerce(b)
    rel = T.coerce(rel_tol if rel_tol is not None else T.F("1e-9"))
    big = T.extremum("max", [rel * T.absolute(a), rel * T.absolute(b), T.coerce(abs_tol)])
    return T.absolute(a - b) <= big


def __getattr__(name):
    return getattr(_math, name)
