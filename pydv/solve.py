"""z3 back end: feasibility of path conditions and inequality obligations over the reals."""

from __future__ import annotations

import sys

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "seconds": 0.0}
_CACHE: dict = {}


def _z3():
    try:
        import z3
    except ImportError:
        sys.path.append(VT)
        import z3
    return z3


def infeasible(conds, timeout=400):
    """True only if the conjunction is proved unsatisfiable."""
    import time

    from . import terms as T

    cs = [c for c in conds if c is not True]
    if any(c is False for c in cs):
        return True
    key = frozenset(c.key() for c in cs)
    if key in _CACHE:
        return _CACHE[key]
    size = 0
    for c in cs:
        size += _size(c)
    if size > 3000:
        return False
    z3 = _z3()
    t0 = time.time()
    tr = Translator(z3)
    try:
        fs = [tr.formula(c) for c in cs]
    except T.Unsupported:
        return False
    s = z3.Solver()
    s.set("timeout", timeout)
    for f in fs + tr.side:
        s.add(f)
    r = s.check()
    STATS["queries"] += 1
    STATS["seconds"] += time.time() - t0
    STATS[str(r)] += 1
    _CACHE[key] = r == z3.unsat
    return _CACHE[key]


def assignment(conds, integers=(), timeout=4000):
    """Values of the free symbols (by atom) in a model of the conjunction, or None."""
    from fractions import Fraction

    from . import terms as T

    cs = [c for c in conds if c is not True]
    if any(c is False for c in cs) or sum(_size(c) for c in cs) > 3000:
        return None
    z3 = _z3()
    tr = Translator(z3)
    try:
        fs = [tr.formula(c) for c in cs]
    except T.Unsupported:
        return None
    s = z3.Solver()
    s.set("timeout", timeout)
    for f in fs + tr.side:
        s.add(f)
    for (i, inv), v in tr.vars.items():
        if not inv and (i in integers or (T.ATOMS[i].info or {}).get("integer")):
            s.add(z3.IsInt(v))
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}
    for (i, inv), v in tr.vars.items():
        if inv or T.ATOMS[i].kind != "sym":
            continue
        x = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(40)
        if not z3.is_rational_value(x):
            return None
        out[i] = Fraction(x.numerator_as_long(), x.denominator_as_long())
    return out


def _size(c):
    from . import terms as T

    if isinstance(c, T.Sym):
        return len(c.d)
    return sum(_size(a) for a in c.args)


class Translator:
    def __init__(self, z3):
        self.z3 = z3
        self.vars: dict = {}
        self.side: list = []

    def frac(self, f):
        return self.z3.RealVal(f"{f.numerator}/{f.denominator}")

    def term(self, p):
        z3 = self.z3
        if not p.d:
            return self.frac(0 * 1 if False else __import__("fractions").Fraction(0))
        out = []
        for m, c in p.d.items():
            fs = [] if (c == 1 and m) else [self.frac(c)]
            for i, e in m:
                v = self.atom(i, e < 0)
                fs += [v] * abs(e)
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            out.append(t)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def atom(self, i, inv=False):
        from . import terms as T

        z3 = self.z3
        k = (i, inv)
        v = self.vars.get(k)
        if v is not None:
            return v
        a = T.ATOMS[i]
        if a.kind == "poly" and not inv:
            v = self.term(a.args[0])
            self.vars[k] = v
            return v
        v = z3.Real(f"a{i}{'inv' if inv else ''}")
        self.vars[k] = v
        if inv:
            base = self.term(a.args[0]) if a.kind == "poly" else self.atom(i)
            self.side.append(v * base == 1)
            if T.is_positive_atom(a):
                self.side.append(v > 0)
            return v
        if T.is_positive_atom(a):
            self.side.append(v > 0)
        if a.kind == "sqrt":
            self.side.append(v >= 0)
            self.side.append(v * v == self.term(a.args[0]))
        elif a.kind == "abs":
            t = self.term(a.args[0])
            self.side.append(v == z3.If(t >= 0, t, -t))
        elif a.kind in ("max", "min"):
            ts = [self.term(x) for x in a.args]
            self.side.append(z3.Or(*[v == t for t in ts]))
            for t in ts:
                self.side.append(v >= t if a.kind == "max" else v <= t)
        elif a.kind == "ind":
            self.side.append(v == z3.If(self.formula(a.args[0]), z3.RealVal(1), z3.RealVal(0)))
        elif a.kind in ("cos", "sin"):
            ca = T.make_atom("cos", a.args[0].key(), args=a.args)
            sa = T.make_atom("sin", a.args[0].key(), args=a.args)
            c = v if a.kind == "cos" else self.vars.get((ca.idx, False))
            s = v if a.kind == "sin" else self.vars.get((sa.idx, False))
            if c is None:
                c = z3.Real(f"a{ca.idx}")
                self.vars[(ca.idx, False)] = c
            if s is None:
                s = z3.Real(f"a{sa.idx}")
                self.vars[(sa.idx, False)] = s
            self.side.append(c * c + s * s == 1)
        return v

    def formula(self, c):
        z3 = self.z3
        if c is True or c is False:
            return z3.BoolVal(c)
        if c.op == "not":
            return z3.Not(self.formula(c.args[0]))
        if c.op == "and":
            return z3.And(*[self.formula(a) for a in c.args])
        if c.op == "or":
            return z3.Or(*[self.formula(a) for a in c.args])
        t = self.term(c.args[0])
        return {"<": t < 0, "<=": t <= 0, "==": t == 0}[c.op]
