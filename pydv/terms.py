"""Exact term algebra for the deductive engine.

A symbolic number is a Laurent polynomial with exact rational coefficients over
"atoms".  Atoms are: input symbols, square roots, sines/cosines of an angle term,
denominators (a non-monomial polynomial used with negative exponents only), function
applications left uninterpreted, guarded (Iverson) indicators, and summations / maxima
over an abstract finite sequence.  Normal forms are eager, so equality of two terms is
decided by clearing denominators and comparing coefficients (`equal`).

Irrational constants (pi, square roots of rationals, sines of constants) are enclosed by
rationals accurate to 1e-70; `equal` therefore compares coefficients up to a relative
tolerance (default 1e-11; that also absorbs decimal tables in the source code).
"""

from __future__ import annotations

import math
from fractions import Fraction as F

import mpmath

mpmath.mp.prec = 260
PREC_BITS = 240


def mpf_to_frac(v) -> F:
    v = mpmath.mpf(v)
    n = int(mpmath.nint(mpmath.ldexp(v, PREC_BITS)))
    r = F(n, 1 << PREC_BITS)
    return snap(r)


def snap(r: F) -> F:
    """Replaces a long rational by a short one when they agree to 1e-60."""
    if r.denominator.bit_length() > 130:
        s = r.limit_denominator(10**6)
        if abs(s - r) < F(1, 10**60):
            return s
    return r


def noise(n: F, c: F) -> bool:
    """n = old + c where irrational constants cancelled down to their last digits."""
    size = n.numerator.bit_length() - n.denominator.bit_length()
    return size + 190 < c.numerator.bit_length() - c.denominator.bit_length()


def frac_to_mpf(r: F):
    return mpmath.mpf(r.numerator) / mpmath.mpf(r.denominator)


PI = mpf_to_frac(mpmath.pi)


class Unsupported(Exception):
    """The construct is outside the reach of the engine."""


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("idx", "kind", "name", "args", "reducible", "info")

    def __init__(self, idx, kind, name, args, info=None):
        self.idx = idx
        self.kind = kind
        self.name = name
        self.args = args
        self.info = info
        self.reducible = kind in ("sqrt", "sin", "ind")

    def __repr__(self):
        return self.name


ATOMS: list[Atom] = []
_KEYS: dict = {}


def make_atom(kind, key, name=None, args=(), info=None) -> Atom:
    k = (kind, key)
    a = _KEYS.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, name or f"{kind}{len(ATOMS)}", args, info)
        ATOMS.append(a)
        _KEYS[k] = a
    return a


# --------------------------------------------------------------------------- monomials
ONE = ()
_MM: dict = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MM.get(k)
    if r is None:
        d = dict(a)
        for i, e in b:
            n = d.get(i, 0) + e
            if n:
                d[i] = n
            else:
                d.pop(i, None)
        r = tuple(sorted(d.items()))
        _MM[k] = r
    return r


# --------------------------------------------------------------------------- Sym
_EQ_HOOK = None  # set by engine


class Sym:
    """An exact symbolic (or constant) number."""

    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    # construction ---------------------------------------------------------
    @staticmethod
    def const(v) -> "Sym":
        v = v if isinstance(v, F) else to_frac(v)
        return Sym({ONE: v}) if v else Sym({})

    @staticmethod
    def atom(a: Atom) -> "Sym":
        return Sym({((a.idx, 1),): F(1)})

    # basic queries --------------------------------------------------------
    def is_const(self):
        return not self.d or (len(self.d) == 1 and ONE in self.d)

    def const_value(self) -> F:
        return self.d.get(ONE, F(0))

    def key(self):
        return frozenset(self.d.items())

    def __hash__(self):
        if self._h is None:
            if self.is_const():
                self._h = hash(self.const_value())
            else:
                self._h = hash(self.key())
        return self._h

    def atoms(self):
        s = set()
        for m in self.d:
            for i, _ in m:
                s.add(i)
        return s

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        if not b:
            return Sym(a)
        r = dict(a)
        for m, c in b.items():
            n = r.get(m)
            if n is None:
                r[m] = c
            else:
                n = n + c
                if n and not (n.denominator.bit_length() > 130 and noise(n, c)):
                    r[m] = n
                else:
                    del r[m]
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, list) and not self.is_const():
            return self.__rmul__(o)
        o = coerce(o)
        if o is NotImplemented:
            return o
        return Sym(pmul(self.d, o.d))

    def __rmul__(self, o):
        if isinstance(o, list) and not self.is_const():
            from .seqs import ConstSeq

            return ConstSeq(o, self)
        return self.__mul__(o)

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if len(o.d) > 1 and len(self.d) >= len(o.d) and len(self.d) <= 400:
            q = exact_div(self, o)
            if q is not None:
                return q
        return self * inverse(o)

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o * inverse(self)

    def __pow__(self, e):
        e = coerce(e)
        if e is NotImplemented:
            return e
        if not e.is_const():
            raise Unsupported("symbolic exponent")
        e = e.const_value()
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return inverse(self) ** (-n)
            r, b = Sym({ONE: F(1)}), self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if e.denominator == 2:
            s = sqrt(self)
            return s ** int(e.numerator)
        if self.is_const():
            return Sym.const(mpf_to_frac(frac_to_mpf(self.const_value()) ** frac_to_mpf(e)))
        raise Unsupported("non half-integer power")

    def __rpow__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o**self

    def __mod__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.is_const() and o.is_const():
            return Sym.const(self.const_value() % o.const_value())
        raise Unsupported("symbolic modulo")

    def __floordiv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.is_const() and o.is_const():
            return Sym.const(self.const_value() // o.const_value())
        raise Unsupported("symbolic floor division")

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.const_value()))
        return absolute(self)

    # numpy object-array ufunc hooks ----------------------------------------
    def sqrt(self):
        return sqrt(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tan(self):
        return sin(self) / cos(self)

    def conjugate(self):
        return self

    # comparisons ----------------------------------------------------------
    def _cmp(self, op, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return compare(op, self, o)

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else compare("<", o, self)

    def __ge__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else compare("<=", o, self)

    def __eq__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return False
        return compare("==", self, o)

    def __ne__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return True
        r = compare("==", self, o)
        return (not r) if isinstance(r, bool) else r.negate()

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise Unsupported("int() of a symbolic value")

    def __round__(self, n=None):
        if self.is_const():
            v = round(self.const_value(), n) if n is not None else round(self.const_value())
            return Sym.const(v) if n is not None else v
        return self  # rounding is dropped (reals); stated assumption

    def __ceil__(self):
        if self.is_const():
            return math.ceil(self.const_value())
        raise Unsupported("ceil of a symbolic value")

    def __index__(self):
        if self.is_const() and self.const_value().denominator == 1:
            return int(self.const_value())
        raise Unsupported("symbolic index")

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.const_value()), spec)
        FORMATTED.append((self, spec))
        return f"<<{len(FORMATTED) - 1}>>"

    def __repr__(self):
        return show(self)

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


FORMATTED: list = []  # values written into text: <<k>> stands for the k-th


def to_frac(v) -> F:
    if isinstance(v, F):
        return v
    if isinstance(v, bool):
        return F(int(v))
    if isinstance(v, int):
        return F(v)
    if isinstance(v, float):
        # the shortest decimal that denotes the double (how it was written)
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return F(repr(v))
    try:
        import numpy as np

        if isinstance(v, np.integer):
            return F(int(v))
        if isinstance(v, np.floating):
            return F(repr(float(v)))
    except ImportError:
        pass
    raise Unsupported(f"cannot make a number of {type(v).__name__}")


def coerce(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        return indicator(o)
    if isinstance(o, (int, float, F)):
        return Sym.const(o)
    try:
        import numpy as np

        if isinstance(o, (np.integer, np.floating, np.bool_)):
            return Sym.const(o.item())
    except ImportError:
        pass
    return NotImplemented


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and ONE in a:
        c = a[ONE]
        return dict(b) if c == 1 else {m: v * c for m, v in b.items()}
    if len(b) == 1 and ONE in b:
        c = b[ONE]
        return dict(a) if c == 1 else {m: v * c for m, v in a.items()}
    r: dict = {}
    red = []
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            n = r.get(m)
            if n is None:
                r[m] = c
            else:
                n = n + c
                if n and not (n.denominator.bit_length() > 130 and noise(n, c)):
                    r[m] = n
                else:
                    del r[m]
    for m in r:
        if mono_needs_reduce(m):
            red.append(m)
    if red:
        out = Sym({m: c for m, c in r.items() if m not in set(red)})
        for m in red:
            out = out + reduce_mono(m, r[m])
        return out.d
    return r


def reduce_mono(m, c) -> Sym:
    rest = []
    factors = []
    for i, e in m:
        a = ATOMS[i]
        if a.reducible and (e >= 2 or e < 0):
            if a.kind == "sqrt":
                rad = a.args[0]
                q, s = divmod(e, 2)  # e = 2q + s, s in {0,1}
                if s:
                    rest.append((i, 1))
                factors.append(rad**q if q >= 0 else inverse(rad) ** (-q))
            elif a.kind == "ind":
                rest.append((i, 1 if e > 0 else e))
            else:  # sin
                if e < 0:
                    rest.append((i, e))
                    continue
                q, s = divmod(e, 2)
                if s:
                    rest.append((i, 1))
                ca = make_atom("cos", a.args[0].key(), args=a.args)
                factors.append((1 - Sym.atom(ca) ** 2) ** q)
        else:
            rest.append((i, e))
    out = Sym({tuple(sorted(rest)): c})
    if not factors:
        return out
    for f in factors:
        d: dict = {}
        # plain products without re-reduction loops
        acc = Sym({})
        for m1, c1 in out.d.items():
            for m2, c2 in f.d.items():
                mm = mono_mul(m1, m2)
                t = Sym({mm: c1 * c2})
                if mono_needs_reduce_strict(mm):
                    t = reduce_mono(mm, c1 * c2)
                acc = acc + t
        out = acc
    return out


def mono_needs_reduce_strict(m):
    for i, e in m:
        a = ATOMS[i]
        if a.kind == "sqrt" and (e >= 2 or e < 0):
            return True
        if a.kind == "sin" and e >= 2:
            return True
        if a.kind == "ind" and e >= 2:
            return True
    return False


def mono_needs_reduce(m):
    return mono_needs_reduce_strict(m)


# --------------------------------------------------------------------------- inverse
DIVISORS: list = []


def inverse(p: Sym) -> Sym:
    if not p.d:
        raise ZeroDivisionError("division by an identically zero term")
    if p.is_const():
        return Sym.const(1 / p.const_value())
    DIVISORS.append(p)
    if len(p.d) == 1:
        ((m, c),) = p.d.items()
        inv = tuple((i, -e) for i, e in m)
        if mono_needs_reduce_strict(inv):
            return reduce_mono(inv, 1 / c)
        return Sym({inv: 1 / c})
    # factor the monomial content (minimum exponents) and the leading coefficient
    common: dict | None = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            for i in list(common):
                common[i] = min(common[i], dm.get(i, 0))
            for i, e in dm.items():
                if i not in common and e < 0:
                    common[i] = e
    common = {i: e for i, e in common.items() if e and ATOMS[i].kind not in ("sin", "sqrt")}
    content = tuple(sorted(common.items()))
    icontent = tuple((i, -e) for i, e in content)
    lead = min(p.d)  # deterministic choice
    q = {mono_mul(m, icontent): c for m, c in p.d.items()}
    lead = min(q)
    lc = q[lead]
    q = {m: c / lc for m, c in q.items()}
    qs = Sym(q)
    a = make_atom("poly", qs.key(), args=(qs,))
    r = {mono_mul(((a.idx, -1),), icontent): 1 / lc}
    return Sym(r)


def _lead(d):
    # lexicographic order on exponent vectors (a monomial order for non-negative exponents)
    return max(d, key=_LexKey)


class _LexKey:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = self.m, o.m
        i = j = 0
        while i < len(a) and j < len(b):
            if a[i][0] == b[j][0]:
                if a[i][1] != b[j][1]:
                    return a[i][1] < b[j][1]
                i += 1
                j += 1
            elif a[i][0] < b[j][0]:
                return a[i][1] < 0
            else:
                return b[j][1] > 0
        if i < len(a):
            return a[i][1] < 0
        if j < len(b):
            return b[j][1] > 0
        return False


def exact_div(p: Sym, q: Sym):
    """p / q when q divides p exactly (best effort); None otherwise."""
    if not p.d:
        return p
    ql = _lead(q.d)
    qc = q.d[ql]
    inv = tuple((i, -e) for i, e in ql)
    rest = dict(p.d)
    out: dict = {}
    for _ in range(3 * len(p.d) + 20):
        if not rest:
            return Sym(out)
        ml = _lead(rest)
        t = mono_mul(ml, inv)
        # the quotient may only use negative exponents already present in p
        for i, e in t:
            if e < 0 and not any(j == i and f < 0 for j, f in ml):
                return None
            if ATOMS[i].kind in ("sqrt", "sin", "ind"):
                if not (0 <= e <= 1):
                    return None
        c = rest[ml] / qc
        if t in out:
            return None
        out[t] = c
        prod = pmul({t: c}, q.d)
        for m, v in prod.items():
            n = rest.get(m, 0) - v
            if n:
                rest[m] = n
            else:
                rest.pop(m, None)
        if ml in rest:
            return None
    return None


# --------------------------------------------------------------------------- functions
def sqrt(p) -> Sym:
    p = coerce(p)
    if p.is_const():
        v = p.const_value()
        if v < 0:
            raise ValueError("square root of a negative constant")
        n, dn = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and dn * dn == v.denominator:
            return Sym.const(F(n, dn))
        return Sym.const(mpf_to_frac(mpmath.sqrt(frac_to_mpf(v))))
    # pull out a square rational content so that sqrt(4x) == 2 sqrt(x)
    lead = min(p.d)
    lc = abs(p.d[lead])
    out = sqrt(Sym.const(lc))
    p = p * Sym.const(1 / lc)
    # and even powers of positive symbols
    common = {i: e - e % 2 for i, e in positive_content(p).items() if e - e % 2}
    if common:
        p = divide_content(p, common)
        out = out * Sym({tuple(sorted((i, e // 2) for i, e in common.items())): F(1)})
    if len(p.d) == 1:
        ((m, c),) = p.d.items()
        if c == 1 and all(e % 2 == 0 for _, e in m):
            half = Sym({tuple((i, e // 2) for i, e in m): F(1)})
            return out * absolute(half)
    a = make_atom("sqrt", p.key(), args=(p,))
    return out * Sym.atom(a)


def _angle_split(p: Sym):
    c = p.const_value()
    rest = Sym({m: v for m, v in p.d.items() if m != ONE})
    # snap coefficients (pi/180*180/pi)
    rest = Sym({m: snap(v) for m, v in rest.d.items()})
    return c, rest


def _trig_atoms(rest: Sym):
    """(cos, sin) of a constant-free angle."""
    lead = min(rest.d)
    if rest.d[lead] < 0:
        c, s = _trig_atoms(-rest)
        return c, -s
    # angle given by an arctangent
    if len(rest.d) == 1:
        ((m, k),) = rest.d.items()
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "atan2" and k.denominator == 1 and abs(k) <= 4:
                y, x = at.args
                r = sqrt(x * x + y * y)
                c1, s1 = x / r, y / r
                c, s = c1, s1
                for _ in range(int(k) - 1):
                    c, s = c * c1 - s * s1, s * c1 + c * s1
                return c, s
    if len(rest.d) > 1:
        # sum of angles: expand
        items = sorted(rest.d.items())
        c, s = None, None
        for m, k in items:
            ci, si = _trig_atoms(Sym({m: k}))
            if c is None:
                c, s = ci, si
            else:
                c, s = c * ci - s * si, s * ci + c * si
        return c, s
    ((m, k),) = rest.d.items()
    base = rest
    if k.denominator == 1 and 1 < k <= 4:
        b = Sym({m: F(1)})
        c1, s1 = _trig_atoms(b)
        c, s = c1, s1
        for _ in range(int(k) - 1):
            c, s = c * c1 - s * s1, s * c1 + c * s1
        return c, s
    q = k / PI  # j*pi/n: from pi/n
    if q.denominator == 1 and 1 < q <= 4:
        c1, s1 = _trig_atoms(Sym({m: PI}))
        c, s = c1, s1
        for _ in range(int(q) - 1):
            c, s = c * c1 - s * s1, s * c1 + c * s1
        return c, s
    ca = make_atom("cos", base.key(), args=(base,))
    sa = make_atom("sin", base.key(), args=(base,))
    return Sym.atom(ca), Sym.atom(sa)


def _cs_const(c: F):
    v = frac_to_mpf(c)
    out = []
    for f in (mpmath.cos, mpmath.sin):
        w = f(v)
        r = mpf_to_frac(w)
        for cand in (F(0), F(1), F(-1), F(1, 2), F(-1, 2)):
            if abs(r - cand) < F(1, 10**55):
                r = cand
        out.append(Sym.const(r))
    return out


def cossin(p):
    p = coerce(p)
    c, rest = _angle_split(p)
    if not rest.d:
        return tuple(_cs_const(c))
    cr, sr = _trig_atoms(rest)
    if c == 0:
        return cr, sr
    cc, sc = _cs_const(c)
    return cr * cc - sr * sc, sr * cc + cr * sc


def cos(p):
    return cossin(p)[0]


def sin(p):
    return cossin(p)[1]


def arctan2(y, x):
    y, x = coerce(y), coerce(x)
    if y.is_const() and x.is_const():
        return Sym.const(
            mpf_to_frac(mpmath.atan2(frac_to_mpf(y.const_value()), frac_to_mpf(x.const_value())))
        )
    if y.d and x.d:
        common = positive_content(y, x)
        y, x = divide_content(y, common), divide_content(x, common)
    a = make_atom("atan2", (y.key(), x.key()), args=(y, x))
    return Sym.atom(a)


def absolute(p: Sym) -> Sym:
    p = coerce(p)
    if p.is_const():
        return Sym.const(abs(p.const_value()))
    content, q = split_content(p)
    lead = min(q.d)
    c = q.d[lead]
    q = q * Sym.const(1 / c)
    out = Sym.const(abs(c))
    for i, e in content:
        a = ATOMS[i]
        if e % 2 == 0 or a.kind in ("sqrt", "abs", "ind") or is_positive_atom(a):
            out = out * Sym({((i, e),): F(1)})
        else:
            b = make_atom("abs", Sym.atom(a).key(), args=(Sym.atom(a),))
            out = out * Sym({((b.idx, e),): F(1)})
    if q.is_const():
        return out * abs(q.const_value())
    if _EQ_HOOK is not None:
        s = _EQ_HOOK.sign_known(q)
        if s is not None:
            return out * (q if s else -q)
    a = make_atom("abs", q.key(), args=(q,))
    return out * Sym.atom(a)


def split_content(p: Sym):
    """p = content * q with content the common monomial factor."""
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            nc = {}
            for i in set(common) | set(dm):
                e = min(common.get(i, 0), dm.get(i, 0))
                if e:
                    nc[i] = e
            common = nc
    common = {i: e for i, e in common.items() if not (ATOMS[i].kind == "sin")}
    content = tuple(sorted(common.items()))
    ic = tuple((i, -e) for i, e in content)
    q = Sym({mono_mul(m, ic): c for m, c in p.d.items()})
    return content, q


def positive_content(*ps):
    """The common monomial factor of positive symbols of all the given terms, as exponents."""
    common = None
    for p in ps:
        for m in p.d:
            dm = {i: e for i, e in m if is_positive_atom(ATOMS[i])}
            if common is None:
                common = dm
            else:
                common = {i: e for i in common.keys() | dm.keys() if (e := min(common.get(i, 0), dm.get(i, 0)))}
            if not common:
                # (a factor absent from one term can only leave a negative exponent elsewhere)
                common = {}
    return common or {}


def divide_content(p: Sym, common):
    if not common:
        return p
    ic = tuple(sorted((i, -e) for i, e in common.items()))
    return Sym({mono_mul(m, ic): c for m, c in p.d.items()})


def is_positive_atom(a: Atom):
    return bool(a.info and a.info.get("positive"))


def func(name, *args, info=None) -> Sym:
    """An uninterpreted function application."""
    key = (name,) + tuple(a.key() if isinstance(a, Sym) else a for a in args)
    info = dict(info or {})
    info["fname"] = name
    a = make_atom("fn", key, name=f"{name}({', '.join(map(repr, args))})", args=args, info=info)
    return Sym.atom(a)


_FRESH = [0]


def symbol(name, positive=False, fresh=False, **info) -> Sym:
    if fresh:
        _FRESH[0] += 1
        name = f"{name}#{_FRESH[0]}"
    info = dict(info)
    info["positive"] = positive
    a = make_atom("sym", name, name=name, info=info)
    return Sym.atom(a)


def indicator(b) -> Sym:
    if isinstance(b, bool):
        return Sym.const(int(b))
    if b.op == "not":
        return 1 - indicator(b.args[0])
    if b.op == "and":
        r = Sym.const(1)
        for x in b.args:
            r = r * indicator(x)
        return r
    if b.op == "or":
        r = Sym.const(1)
        for x in b.args:
            r = r * (1 - indicator(x))
        return 1 - r
    p = b.args[0]
    if b.op == "<=":
        return 1 - indicator(compare0("<", -p))
    if b.op == "<" and p.d[min(p.d)] < 0:
        q = -p
        return 1 - indicator(SymBool("<", (q,))) - indicator(compare0("==", q))
    a = make_atom("ind", b.key(), name=f"[{b!r}]", args=(b,))
    return Sym.atom(a)


# --------------------------------------------------------------------------- extrema, sums
def known_nonneg(p: Sym):
    if p.is_const():
        return p.const_value() >= 0
    for m, c in p.d.items():
        if c < 0:
            return False
        for i, e in m:
            a = ATOMS[i]
            if e % 2 == 0 or a.kind in ("abs", "sqrt", "ind") or is_positive_atom(a):
                continue
            if a.kind in ("max", "min") and all(known_nonneg(x) for x in a.args):
                continue
            if a.kind in ("maxover", "minover") and all(known_nonneg(x) for x in a.args[1:]):
                continue
            return False
    return True


def extremum(kind, items) -> Sym:
    flat = []
    for x in items:
        x = coerce(x)
        if x is NotImplemented:
            raise Unsupported("extremum of non-numbers")
        if len(x.d) == 1:
            ((m, c),) = x.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == kind:
                flat.extend(ATOMS[m[0][0]].args)
                continue
        flat.append(x)
    consts = [x.const_value() for x in flat if x.is_const()]
    rest = {}
    for x in flat:
        if not x.is_const():
            rest[x.key()] = x
    out = list(rest.values())
    if consts:
        c = max(consts) if kind == "max" else min(consts)
        if not out:
            return Sym.const(c)
        if not (kind == "max" and c <= 0 and any(known_nonneg(x) for x in out)):
            out.append(Sym.const(c))
    # decide by known facts where possible
    if len(out) == 2 and _EQ_HOOK is not None:
        s = _EQ_HOOK.sign_known(out[0] - out[1])
        if s is not None:
            big, small = (out[0], out[1]) if s else (out[1], out[0])
            return big if kind == "max" else small
    if len(out) == 1:
        return out[0]
    out.sort(key=_sort_key)
    a = make_atom(kind, tuple(x.key() for x in out), args=tuple(out))
    return Sym.atom(a)


def _sort_key(x: Sym):
    return sorted((m, c) for m, c in x.d.items())


_DEPS: dict = {}


def atom_deps(i) -> frozenset:
    """Base symbols an atom depends on (bound variables of sums removed)."""
    r = _DEPS.get(i)
    if r is None:
        a = ATOMS[i]
        if a.kind == "sym":
            r = frozenset((i,))
        else:
            s = set()
            args = a.args
            if a.kind in ("sum", "maxover", "minover"):
                seq, args = a.args[0], a.args[1:]
                for x in args:
                    s |= deps(x)
                s.discard(seq.bound_idx)
                s |= seq.outer_deps
            else:
                for x in args:
                    s |= deps(x)
            r = frozenset(s)
        _DEPS[i] = r
    return r


def deps(p) -> set:
    if isinstance(p, Sym):
        s = set()
        for m in p.d:
            for i, _ in m:
                s |= atom_deps(i)
        return s
    if isinstance(p, SymBool):
        s = set()
        for x in p.args:
            s |= deps(x)
        return s
    return set()


def sum_over(seq, p) -> Sym:
    """Sum of p over the abstract sequence (linear, loop-independent factors pulled out)."""
    p = coerce(p)
    out = Sym({})
    b = seq.bound_idx
    for m, c in p.d.items():
        inner, outer = [], []
        for i, e in m:
            (inner if b in atom_deps(i) else outer).append((i, e))
        inner = tuple(inner)
        if not inner:
            s = seq.length
        else:
            a = make_atom("sum", (seq.name, inner), args=(seq, Sym({inner: F(1)})))
            a.name = f"sum_{seq.name}({Sym({inner: F(1)})!r})"
            s = Sym.atom(a)
        out = out + Sym({tuple(outer): c}) * s
    return out


def ext_over(kind, seq, terms) -> Sym:
    """Maximum / minimum of the given terms over the (non-empty) abstract sequence."""
    terms = {coerce(t).key(): coerce(t) for t in terms}
    ts = sorted(terms.values(), key=_sort_key)
    # pull out a common positive factor
    facs = None
    for t in ts:
        if len(t.d) != 1:
            facs = {}
            break
        ((m, c),) = t.d.items()
        d = {
            i: e
            for i, e in m
            if seq.bound_idx not in atom_deps(i)
            and (is_positive_atom(ATOMS[i]) or ATOMS[i].kind in ("abs", "sqrt"))
        }
        if facs is None:
            facs = d
        else:
            facs = {i: e for i, e in facs.items() if d.get(i) == e}
    out = Sym.const(1)
    if facs:
        fm = tuple(sorted(facs.items()))
        inv = tuple((i, -e) for i, e in fm)
        ts = [Sym({mono_mul(m, inv): c for m, c in t.d.items()}) for t in ts]
        ts.sort(key=_sort_key)
        out = Sym({fm: F(1)})
    indep = [t for t in ts if seq.bound_idx not in deps(t)]
    dep = [t for t in ts if seq.bound_idx in deps(t)]
    r = []
    if dep:
        a = make_atom(
            kind + "over", (seq.name,) + tuple(t.key() for t in dep), args=(seq, *dep)
        )
        r.append(Sym.atom(a))
    r += indep
    return out * extremum(kind, r)


def subst(p, mp):
    """Replaces atoms (by index) by terms, everywhere inside p."""
    return _subst(p, mp, set(mp), {})


def _subst(p, mp, keys, memo):
    if isinstance(p, SymBool):
        args = [_subst(a, mp, keys, memo) for a in p.args]
        if p.op in ("<", "<=", "=="):
            return compare0(p.op, args[0])
        if p.op == "not":
            a = args[0]
            return (not a) if isinstance(a, bool) else a.negate()
        return (conj if p.op == "and" else disj)(*args)
    if not isinstance(p, Sym):
        return p
    if not p.d:
        return p
    out = Sym({})
    for m, c in p.d.items():
        t = Sym.const(c)
        plain = []
        for i, e in m:
            r = _subst_atom(i, mp, keys, memo)
            if r is None:
                plain.append((i, e))
            else:
                t = t * (r**e)
        if plain:
            t = t * Sym({tuple(plain): F(1)})
        out = out + t
    return out


def _touches(i, keys):
    return i in keys or bool(atom_deps(i) & keys) or _mentions(i, keys)


_MENT: dict = {}


def all_atoms_of(i) -> frozenset:
    r = _MENT.get(i)
    if r is None:
        s = {i}
        for x in ATOMS[i].args:
            s |= atoms_in(x)
        r = frozenset(s)
        _MENT[i] = r
    return r


def atoms_in(x):
    s = set()
    if isinstance(x, Sym):
        for m in x.d:
            for i, _ in m:
                s |= all_atoms_of(i)
    elif isinstance(x, SymBool):
        for y in x.args:
            s |= atoms_in(y)
    return s


def _mentions(i, keys):
    return bool(all_atoms_of(i) & keys)


def _subst_atom(i, mp, keys, memo):
    if i in mp:
        return mp[i]
    if not _mentions(i, keys):
        return None
    if i in memo:
        return memo[i]
    a = ATOMS[i]
    args = [_subst(x, mp, keys, memo) for x in a.args]
    if a.kind == "sqrt":
        r = sqrt(args[0])
    elif a.kind == "poly":
        if not coerce(args[0]).d:
            raise Unsupported("substitution makes a denominator vanish")
        r = args[0]
    elif a.kind in ("cos", "sin"):
        r = cossin(args[0])[0 if a.kind == "cos" else 1]
    elif a.kind == "atan2":
        r = arctan2(*args)
    elif a.kind == "abs":
        r = absolute(args[0])
    elif a.kind == "ind":
        r = indicator(args[0])
    elif a.kind in ("max", "min"):
        r = extremum(a.kind, args)
    elif a.kind == "fn":
        r = func(a.info["fname"], *args, info=a.info)
    elif a.kind == "sum":
        r = sum_over(a.args[0].substituted(mp), args[1])
    elif a.kind in ("maxover", "minover"):
        r = ext_over(a.kind[:3], a.args[0].substituted(mp), args[1:])
    else:
        raise Unsupported(f"substitution into {a.kind}")
    memo[i] = r
    return r


# --------------------------------------------------------------------------- booleans
class SymBool:
    """A formula: ('cmp', op, Sym) meaning `Sym op 0`, or and/or/not of formulas."""

    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def key(self):
        return (self.op,) + tuple(
            a.key() if isinstance(a, (Sym, SymBool)) else a for a in self.args
        )

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, SymBool) and self.key() == o.key()

    def negate(self):
        if self.op == "not":
            return self.args[0]
        if self.op == "<":
            return compare0("<=", -self.args[0])
        if self.op == "<=":
            return compare0("<", -self.args[0])
        return SymBool("not", (self,))

    def __invert__(self):
        return self.negate()

    def __and__(self, o):
        return conj(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return disj(self, o)

    __ror__ = __or__

    def __bool__(self):
        if _EQ_HOOK is None:
            raise Unsupported("branch on a symbolic condition outside an exploration")
        return _EQ_HOOK.decide(self)

    # arithmetic on booleans counts them
    def __add__(self, o):
        return indicator(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return indicator(self) * o

    __rmul__ = __mul__

    def __repr__(self):
        if self.op in ("<", "<=", "=="):
            return f"{self.args[0]!r} {self.op} 0"
        if self.op == "not":
            return f"not({self.args[0]!r})"
        return f" {self.op} ".join(f"({a!r})" for a in self.args)


def conj(*bs):
    out = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def disj(*bs):
    out = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def compare(op, a: Sym, b: Sym):
    d = a - b
    return compare0(op, d)


def compare0(op, d: Sym):
    if d.is_const():
        v = d.const_value()
        return {"<": v < 0, "<=": v <= 0, "==": v == 0}[op]
    d = divide_content(d, positive_content(d))
    if d.is_const():
        return compare0(op, d)
    if op == "==":
        lead = min(d.d)
        d = d * Sym.const(1 / d.d[lead])
    else:
        lead = min(d.d)
        d = d * Sym.const(1 / abs(d.d[lead]))
    return SymBool(op, (d,))


# --------------------------------------------------------------------------- clearing
def clear(ps, limit=200000):
    """Multiplies all terms in `ps` by common denominators until no poly atom is left."""
    ps = [expand_poly_atoms(p if isinstance(p, Sym) else coerce(p)) for p in ps]
    mults = []
    for _ in range(200):
        worst = {}
        for p in ps:
            for m in p.d:
                for i, e in m:
                    if e < 0 and ATOMS[i].kind == "poly":
                        worst[i] = max(worst.get(i, 0), -e)
        if not worst:
            break
        i = max(worst)
        k = worst[i]
        base = ATOMS[i].args[0]
        powers = [Sym({ONE: F(1)})]
        for _ in range(k):
            powers.append(powers[-1] * base)
        new = []
        for p in ps:
            buckets: dict = {}
            for m, c in p.d.items():
                e = 0
                rest = []
                for j, ex in m:
                    if j == i:
                        e = ex
                    else:
                        rest.append((j, ex))
                buckets.setdefault(k + e, {})[tuple(rest)] = c
            acc = Sym({})
            for pw, d in buckets.items():
                if pw < len(powers):
                    acc = acc + Sym(d) * powers[pw]
                else:
                    acc = acc + Sym(d) * base**pw
            new.append(acc)
            if len(acc.d) > limit:
                raise Unsupported("normal form too large")
        ps = new
        mults.append((i, k))
    return ps, mults


def equal(a, b, tol=F(1, 10**11)):
    """True when a == b as functions (coefficient-wise within tol)."""
    a, b = coerce(a), coerce(b)
    if not (a - b).d:
        return True
    (d, a2, b2), _ = clear([a - b, a, b])
    if not d.d:
        return True
    scale = max([abs(c) for c in a2.d.values()] + [abs(c) for c in b2.d.values()] + [F(0)])
    return all(abs(c) <= tol * scale for c in d.d.values())


def expand_poly_atoms(p: Sym) -> Sym:
    """Multiplies out the positive powers of sums kept as one factor."""
    for _ in range(8):
        if not any(e > 0 and ATOMS[i].kind == "poly" for m in p.d for i, e in m):
            return p
        acc = Sym({})
        for m, c in p.d.items():
            t = Sym({tuple((i, e) for i, e in m if not (e > 0 and ATOMS[i].kind == "poly")): c})
            for i, e in m:
                if e > 0 and ATOMS[i].kind == "poly":
                    for _ in range(e):
                        t = t * ATOMS[i].args[0]
            acc = acc + t
        p = acc
    return p


# --------------------------------------------------------------------------- evaluation
MODEL_LEN = 3
MODEL_NODES = 9


class Env:
    """A finite model: values of the base symbols and a seed for the uninterpreted functions."""

    def __init__(self, values, seed=0):
        self.values = dict(values)
        self.seed = seed
        self.memo = {}

    def bind(self, idx, v):
        e = Env(self.values, self.seed)
        e.values[idx] = v
        return e

    def hashed(self, *key):
        import hashlib

        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:6], "big") / float(1 << 48)


def evaluate(p, env):
    """Value of a term or formula in a finite model (mpmath)."""
    if isinstance(env, dict):
        env = Env(env)
    if isinstance(p, (int, float)):
        return mpmath.mpf(p)
    if isinstance(p, F):
        return frac_to_mpf(p)
    if isinstance(p, SymBool):
        if p.op in ("<", "<=", "=="):
            v = evaluate(p.args[0], env)
            eps = mpmath.mpf(10) ** -40
            if p.op == "==":
                return abs(v) < eps
            return v < -eps if p.op == "<" else v <= eps
        if p.op == "not":
            return not evaluate(p.args[0], env)
        vs = (evaluate(a, env) for a in p.args)
        return all(vs) if p.op == "and" else any(vs)
    t = mpmath.mpf(0)
    for m, c in p.d.items():
        v = frac_to_mpf(c)
        for i, e in m:
            if ATOMS[i].kind == "ind":
                w = eval_atom(i, env)
                if w == 0:
                    v = mpmath.mpf(0)
                    break
                v = v * w
        if v == 0:
            continue
        for i, e in m:
            if ATOMS[i].kind != "ind":
                v = v * eval_atom(i, env) ** e
        t += v
    return t


def eval_atom(i, env):
    memo = env.memo
    if i in memo:
        return memo[i]
    a = ATOMS[i]
    if i in env.values:
        x = env.values[i]
        v = frac_to_mpf(x) if isinstance(x, F) else mpmath.mpf(x)
    elif a.kind == "poly":
        v = evaluate(a.args[0], env)
    elif a.kind == "sqrt":
        w = evaluate(a.args[0], env)
        if w < 0:
            if w > -mpmath.mpf(10) ** -40:
                w = mpmath.mpf(0)
            else:
                raise ValueError("negative radicand")
        v = mpmath.sqrt(w)
    elif a.kind == "cos":
        v = mpmath.cos(evaluate(a.args[0], env))
    elif a.kind == "sin":
        v = mpmath.sin(evaluate(a.args[0], env))
    elif a.kind == "atan2":
        v = mpmath.atan2(evaluate(a.args[0], env), evaluate(a.args[1], env))
    elif a.kind == "abs":
        v = abs(evaluate(a.args[0], env))
    elif a.kind == "ind":
        v = mpmath.mpf(int(evaluate(a.args[0], env)))
    elif a.kind in ("max", "min"):
        v = (max if a.kind == "max" else min)(evaluate(x, env) for x in a.args)
    elif a.kind == "sum":
        seq = a.args[0]
        v = mpmath.mpf(0)
        for j in range(seq.model_len(env)):
            v += evaluate(a.args[1], env.bind(seq.bound_idx, j))
    elif a.kind in ("maxover", "minover"):
        seq = a.args[0]
        vs = []
        for j in range(seq.model_len(env)):
            e2 = env.bind(seq.bound_idx, j)
            vs += [evaluate(x, e2) for x in a.args[1:]]
        v = (max if a.kind == "maxover" else min)(vs)
    elif a.kind == "fn":
        args = [
            mpmath.nstr(evaluate(x, env), 25) if isinstance(x, (Sym, F, int)) and not isinstance(x, bool) else repr(x)
            for x in a.args
        ]
        if a.info.get("model"):
            v = mpmath.mpf(a.info["model"](env, [evaluate(x, env) if isinstance(x, Sym) else x for x in a.args]))
        else:
            h = mpmath.mpf(env.hashed(a.info["fname"], args))
            v = h * 3 + mpmath.mpf(1) / 5 if a.info.get("positive") else (h * 6 - 3)
    elif a.kind == "sym":
        h = mpmath.mpf(env.hashed("sym", a.name))
        v = h * 3 + mpmath.mpf(1) / 5 if a.info.get("positive") else (h * 6 - 3)
    else:
        raise Unsupported(f"evaluation of {a.kind}")
    memo[i] = v
    return v


def base_atoms(p, acc=None):
    """Indices of the free (non-derived) atoms a term depends on."""
    if acc is None:
        acc = set()
    if isinstance(p, SymBool):
        for a in p.args:
            base_atoms(a, acc)
        return acc
    if not isinstance(p, Sym):
        return acc
    for i in p.atoms():
        a = ATOMS[i]
        if a.kind == "sym":
            acc.add(i)
        elif a.kind in ("sum", "maxover", "minover"):
            for x in a.args[1:]:
                base_atoms(x, acc)
            acc.discard(a.args[0].bound_idx)
        else:
            for x in a.args:
                base_atoms(x, acc)
    return acc


# --------------------------------------------------------------------------- printing
def show(p: Sym, limit=12) -> str:
    if not p.d:
        return "0"
    parts = []
    for n, (m, c) in enumerate(p.d.items()):
        if n >= limit:
            parts.append(f"... [{len(p.d)} terms]")
            break
        cs = str(c) if c.denominator < 10**9 else f"{float(c):.12g}"
        ms = "*".join(
            (ATOMS[i].name if ATOMS[i].kind != "poly" else f"({show(ATOMS[i].args[0], 4)})")
            + (f"^{e}" if e != 1 else "")
            for i, e in m
        )
        if not ms:
            parts.append(cs)
        elif c == 1:
            parts.append(ms)
        else:
            parts.append(f"{cs}*{ms}")
    return " + ".join(parts)


def _KEYS_sym(name):
    """The existing input symbol of that name."""
    return Sym.atom(_KEYS[("sym", name)])
