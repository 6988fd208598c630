"""Numpy as seen by the extracted code: float arrays hold exact symbolic terms.

Everything not overridden here is numpy's own function (which acts element-wise on object
arrays through the operators of `Sym`).  Trusted contracts on numpy: array indexing, reshaping,
matmul/dot on object arrays are numpy's own; `linalg.solve`, `linalg.det` are Cramer's rule.
"""

from __future__ import annotations

import itertools

import numpy as _np

from . import terms as T
from .terms import Sym, SymBool, Unsupported

pi = Sym.const(T.PI)
float64 = float
double = float


def _is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _float_dtype(d):
    return d in (None, float, _np.float64, _np.double, "float", "float64", "d")


def _dt(d):
    """dtype arguments as the extracted code passes them (its `int`/`float` are wrappers)."""
    n = getattr(d, "__name__", None)
    if n == "x_int":
        return int
    if n == "x_float":
        return float
    return d


def symarray(a):
    """Object array of Sym from any nested numeric structure."""
    arr = _np.array(a, dtype=object)
    out = _np.empty(arr.shape, dtype=object)
    for ix in _np.ndindex(arr.shape):
        v = arr[ix]
        c = T.coerce(v)
        out[ix] = v if c is NotImplemented else c
    return out


def _abstract_size(shape):
    if isinstance(shape, Sym) and not shape.is_const():
        return shape
    if isinstance(shape, tuple) and len(shape) == 1:
        return _abstract_size(shape[0])
    return None


def _conc(shape):
    if isinstance(shape, Sym):
        return int(shape)
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    return shape


def _filled(shape, v, dtype):
    dtype = _dt(dtype)
    n = _abstract_size(shape)
    if n is not None:
        from .seqs import AbsVec

        return AbsVec(n, T.coerce(v))
    shape = _conc(shape)
    if dtype in (int, bool, _np.int64, _np.int32, object):
        return _np.full(shape, v, dtype=dtype)
    out = _np.empty(shape, dtype=object)
    out.fill(Sym.const(v) if not isinstance(v, Sym) else v)
    return out


def zeros(shape, dtype=None, order=None):
    return _filled(shape, 0, dtype)


def ones(shape, dtype=None, order=None):
    return _filled(shape, 1, dtype)


def empty(shape, dtype=None, order=None):
    return _filled(shape, 0, dtype)


def full(shape, fill_value, dtype=None, order=None):
    return _filled(shape, fill_value, dtype)


def zeros_like(a, dtype=None, **k):
    from .seqs import AbsVec

    if isinstance(a, AbsVec):
        return AbsVec(a.n, Sym.const(0))
    return zeros(_np.shape(a), dtype)


def ones_like(a, dtype=None, **k):
    return ones(_np.shape(a), dtype)


def eye(n, m=None, **k):
    return symarray(_np.eye(n, m))


identity = eye


def _has_float(a):
    if isinstance(a, (list, tuple)):
        return any(_has_float(x) for x in a)
    if isinstance(a, _np.ndarray):
        return a.dtype.kind == "f"
    return isinstance(a, (float, _np.floating))


def array(a, dtype=None, copy=None, order=None, ndmin=0):
    from .seqs import MapSeq, SymSeq, AbsVec

    dtype = _dt(dtype)
    if hasattr(a, "__pydv_array__"):
        return a.__pydv_array__()
    if isinstance(a, (AbsVec,)):
        return a.copy()
    if isinstance(a, (MapSeq, SymSeq)):
        return a.as_vector()
    if dtype in (int, bool, object, _np.int64, _np.int32, "int", str):
        return _np.array(a, dtype=dtype)
    if dtype is None and not _has_float(a):
        r = _np.array(a)
        return r
    return symarray(a)


def asarray(a, dtype=None, **k):
    if isinstance(a, _np.ndarray) and dtype is None:
        return a
    return array(a, dtype=dtype)


def ascontiguousarray(a, dtype=None):
    return a


def _map(f):
    def g(x, *a, **k):
        if isinstance(x, _np.ndarray):
            out = _np.empty(x.shape, dtype=object)
            for ix in _np.ndindex(x.shape):
                out[ix] = f(x[ix])
            return out
        from .seqs import AbsVec

        if isinstance(x, AbsVec):
            return x.pointwise(f)
        if isinstance(x, (list, tuple)):
            return g(symarray(x))
        return f(x)

    return g


sqrt = _map(lambda x: T.sqrt(x))
cos = _map(lambda x: T.cos(x))
sin = _map(lambda x: T.sin(x))
tan = _map(lambda x: T.sin(x) / T.cos(x))
abs = absolute = fabs = _map(lambda x: T.absolute(T.coerce(x)))
deg2rad = radians = _map(lambda x: T.coerce(x) * pi / 180)
rad2deg = degrees = _map(lambda x: T.coerce(x) * 180 / pi)
square = _map(lambda x: x * x)
sign = _map(lambda x: T.func("sign", T.coerce(x)))


def arctan2(y, x):
    return T.arctan2(y, x)


def arctan(t):
    return T.arctan2(t, 1)


def hypot(a, b):
    return T.sqrt(T.coerce(a) ** 2 + T.coerce(b) ** 2)


def power(a, b):
    return a**b


def _vmm(kind):
    def f(a, *rest, axis=None, initial=None, **k):
        from .seqs import MapSeq, SymSeq, AbsVec

        if isinstance(a, (MapSeq, SymSeq, AbsVec)):
            return a.fold(kind)
        if axis is not None:
            arr = symarray(a)
            return _np.apply_along_axis(lambda v: f(list(v)), axis, arr)
        items = list(_np.ravel(_np.array(a, dtype=object)))
        return T.extremum(kind, items)

    return f


max = amax = _vmm("max")
min = amin = _vmm("min")


def maximum(a, b):
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        return _np.vectorize(lambda x, y: T.extremum("max", [x, y]), otypes=[object])(a, b)
    return T.extremum("max", [a, b])


def minimum(a, b):
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        return _np.vectorize(lambda x, y: T.extremum("min", [x, y]), otypes=[object])(a, b)
    return T.extremum("min", [a, b])


def sum(a, axis=None, **k):
    from .seqs import MapSeq, SymSeq, AbsVec

    if isinstance(a, (MapSeq, SymSeq, AbsVec)):
        return a.fold("sum")
    if axis is None:
        r = Sym.const(0)
        for v in _np.ravel(_np.array(a, dtype=object)):
            r = r + v
        return r
    return _np.sum(a, axis=axis)


def dot(a, b):
    from .seqs import AbsVec

    if isinstance(a, AbsVec):
        return a.dot(b)
    if isinstance(b, AbsVec):
        return b.dot(a)
    return _np.dot(a, b)


def inner(a, b):
    return _np.dot(a, b)


def matmul(a, b):
    return a @ b


def einsum(spec, *ops, **k):
    k.pop("optimize", None)
    return _np.einsum(spec, *ops, **k)


def cross(a, b, **k):
    a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
    if a.shape == (2,) and b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    return symarray(_np.cross(a, b))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if _is_sym(a) or _is_sym(b):
        d = T.coerce(a) - T.coerce(b)
        if d.is_const():
            return bool(d.const_value() == 0)
        return T.compare0("==", d)  # over the reals: closeness read as equality (assumption)
    return _np.isclose(a, b, rtol, atol)


def allclose(a, b, **k):
    return all(bool(isclose(x, y)) for x, y in zip(_np.ravel(a), _np.ravel(b)))


def linspace(start, stop, num=50, endpoint=True, **k):
    if isinstance(num, Sym) and not num.is_const():
        from .engine import ENGINE
        from .seqs import AbsVec, index_seq

        if k or not endpoint:
            raise T.Unsupported("linspace")
        if not ENGINE.decides(2 <= num):  # one value: the start
            raise T.Unsupported("linspace with an unknown number of values")
        i = index_seq(num).bound
        return AbsVec(num, start + (T.coerce(stop) - start) * i / (num - 1))
    num = int(num)
    if isinstance(start, (int, float)) and isinstance(stop, (int, float)):
        start, stop = T.coerce(start), T.coerce(stop)
    if num == 1:
        return symarray([start])
    div = num - 1 if endpoint else num
    return symarray([start + (stop - start) * Sym.const(T.F(i, div)) for i in range(num)])


def append(arr, values, axis=None):
    from .seqs import AbsVec, BorderedVec

    if isinstance(arr, AbsVec):
        if isinstance(values, (list, tuple, _np.ndarray)) and len(values) == 1:
            values = values[0]
        return BorderedVec(arr, T.coerce(values))
    return _np.append(_np.asarray(arr, dtype=object), _np.asarray(values, dtype=object), axis=axis)


def isnan(x):
    return False


def isfinite(x):
    return True


def float_(x):
    return T.coerce(x)


# --------------------------------------------------------------------------- linalg
class linalg:
    @staticmethod
    def det(m):
        m = _np.asarray(m, dtype=object)
        n = m.shape[0]
        if n == 1:
            return m[0, 0]
        if n == 2:
            return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
        if n > 4:
            raise Unsupported("determinant of a large symbolic matrix")
        r = T.coerce(0)
        for j in range(n):
            c = T.coerce(m[0, j])
            if not c.d:
                continue
            minor = _np.delete(_np.delete(m, 0, 0), j, 1)
            t = c * linalg.det(minor)
            r = r + (t if j % 2 == 0 else -t)
        return r

    @staticmethod
    def inv(m):
        m = symarray(m)
        n = m.shape[0]
        d = linalg.det(m)
        if T.coerce(d).is_const() and not T.coerce(d).d:
            raise _np.linalg.LinAlgError("Singular matrix")
        id_ = T.inverse(T.coerce(d))
        out = _np.empty((n, n), dtype=object)
        for i, j in itertools.product(range(n), range(n)):
            minor = _np.delete(_np.delete(m, i, 0), j, 1)
            c = linalg.det(minor) if n > 1 else Sym.const(1)
            out[j, i] = T.coerce(c if (i + j) % 2 == 0 else -c) * id_
        return out

    @staticmethod
    def solve(a, b):
        # adj(a) @ b / det: keeps the denominator factored
        m = symarray(a)
        n = m.shape[0]
        d = T.coerce(linalg.det(m))
        if not d.d:
            raise _np.linalg.LinAlgError("Singular matrix")
        adj = _np.empty((n, n), dtype=object)
        for i, j in itertools.product(range(n), range(n)):
            minor = _np.delete(_np.delete(m, i, 0), j, 1)
            c = linalg.det(minor) if n > 1 else Sym.const(1)
            adj[j, i] = T.coerce(c if (i + j) % 2 == 0 else -c)
        num = adj @ symarray(b)
        id_ = T.inverse(d)
        out = _np.empty(num.shape, dtype=object)
        for ix in _np.ndindex(num.shape):
            out[ix] = T.coerce(num[ix]) * id_
        return out

    @staticmethod
    def norm(v, *a, **k):
        s = Sym.const(0)
        for x in _np.ravel(_np.asarray(v, dtype=object)):
            s = s + T.coerce(x) ** 2
        return T.sqrt(s)

    LinAlgError = _np.linalg.LinAlgError


# --------------------------------------------------------------------------- decorators
def njit(*a, **k):
    """numba.njit: compiled code is taken to compute what its Python source says."""
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]

    def deco(f):
        return f

    return deco


jit = njit


def cache(f):
    """functools.cache: recomputed on every call, but results are returned read-only, so that
    code that would corrupt a cached array fails (an in-place write raises)."""

    import functools

    @functools.wraps(f)
    def g(*a, **k):
        return _freeze(f(*a, **k))

    g.cache_clear = lambda: None
    return g


def lru_cache(*a, **k):
    if len(a) == 1 and callable(a[0]):
        return cache(a[0])
    return cache


def _freeze(r):
    if isinstance(r, _np.ndarray):
        r.flags.writeable = False
    elif isinstance(r, tuple):
        for x in r:
            _freeze(x)
    return r


class finfo:
    def __init__(self, dtype=None):
        i = _np.finfo(float)
        self.eps, self.tiny, self.max, self.min = (Sym.const(T.F(float(v))) for v in (i.eps, i.tiny, i.max, i.min))


def __getattr__(name):
    return getattr(_np, name)
