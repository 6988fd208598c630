"""Path exploration and proof obligations."""

from __future__ import annotations

import random
import time

import mpmath

from . import solve
from . import terms as T
from .terms import Sym, SymBool, Unsupported


class PathPoisoned(Unsupported):
    pass


class Ctx:
    def __init__(self, prefix, bound=None, havoc=()):
        self.prefix = prefix
        self.trail = []
        self.bound = bound
        self.havoc = set()
        for h in havoc:
            if h is not None:
                self.havoc |= {i for i in T.atoms_in(h) if T.ATOMS[i].kind in ("sym", "fn")}

    def condition(self):
        cs = [c if v else c.negate() for c, v in self.trail]
        return T.conj(*cs) if cs else True

    def alternatives(self):
        out = []
        vals = [v for _, v in self.trail]
        for i in range(len(self.prefix), len(self.trail)):
            out.append(vals[:i] + [not vals[i]])
        return out


class Engine:
    def __init__(self):
        self.stack: list[Ctx] = []
        self.facts: list[SymBool] = []
        self.poisoned = None

    # ---- facts
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Unsupported("assumption is false")
        if c.op == "and":
            for a in c.args:
                self.assume(a)
            return
        self.facts.append(c)

    def known_conds(self):
        out = list(self.facts)
        for ctx in self.stack:
            out += [c if v else c.negate() for c, v in ctx.trail]
        return out

    def sign_known(self, p):
        """True / False when p >= 0 / p <= 0 follows syntactically from facts, else None."""
        if T.known_nonneg(p):
            return True
        if T.known_nonneg(-p):
            return False
        for s, val in ((1, True), (-1, False)):
            q = p if s == 1 else -p
            for c in self.known_conds():
                if c.op in ("<", "<=") and T.compare0("<", -q) in (c, ) or (
                    c.op == "<=" and T.compare0("<=", -q) == c
                ):
                    return val
        return None

    def syntactic(self, c):
        for k in self.known_conds():
            r = implied(k, c)
            if r is not None:
                return r
        return None

    def decide(self, c: SymBool) -> bool:
        if c.op == "not":
            return not self.decide(c.args[0])
        if c.op == "and":
            return all(self.decide(a) for a in c.args)
        if c.op == "or":
            return any(self.decide(a) for a in c.args)
        r = self.syntactic(c)
        if r is not None:
            return r
        if not self.stack:
            raise Unsupported("branch on a symbolic condition outside an exploration")
        p = c.args[0]
        if c.op == "<" and T.known_nonneg(p):
            return False
        if c.op == "<=" and T.known_nonneg(-p):
            return True
        d = T.atoms_in(c)
        level = 0
        for n, ctx in enumerate(self.stack):
            if (ctx.bound is not None and ctx.bound in d) or (ctx.havoc & d):
                level = n
        ctx = self.stack[level]
        i = len(ctx.trail)
        if i < len(ctx.prefix):
            v = ctx.prefix[i]
        else:
            conds = self.known_conds()
            v = None
            if solve.infeasible(conds + [c]):
                return False
            if solve.infeasible(conds + [c.negate()]):
                return True
            v = True
        ctx.trail.append((c, v))
        return v

    # ---- nested exploration (loops, comprehensions)
    def decides(self, c):
        """Is c known to hold on this path?"""
        if not isinstance(c, SymBool):
            return bool(c)
        if self.syntactic(c) is True:
            return True
        return solve.infeasible(self.known_conds() + [c.negate()], timeout=4000)

    def push(self, prefix, bound, havoc):
        self.stack.append(Ctx(prefix, bound, havoc))

    def pop(self):
        return self.stack.pop()

    def poison(self, why):
        self.poisoned = why

    def explore_inner(self, seq, body):
        agenda = [[]]
        out = []
        while agenda:
            self.push(agenda.pop(), seq.bound_idx, ())
            try:
                r = body()
            finally:
                ctx = self.pop()
            out.append((ctx.condition(), r))
            agenda.extend(ctx.alternatives())
            if len(out) > 64:
                raise Unsupported("too many paths in a comprehension")
        return out


ENGINE = Engine()
T._EQ_HOOK = ENGINE


def implied(k: SymBool, c: SymBool):
    """Does k decide c (syntactically, up to scaling)?  True / False / None."""
    if k == c:
        return True
    if k.op == "not":
        if k.args[0] == c:
            return False
        return None
    if c.op == "not":
        r = implied(k, c.args[0])
        return None if r is None else not r
    if k.op not in ("<", "<=", "==") or c.op not in ("<", "<=", "=="):
        return None
    p = norm(k.args[0])
    q = norm(c.args[0])
    pk, qk = p.key(), q.key()
    neg = (-q).key()
    if pk == qk:  # k: p op 0 ; c: p op2 0
        if k.op == "<":
            return {"<": True, "<=": True, "==": False}[c.op]
        if k.op == "<=":
            return {"<": None, "<=": True, "==": None}[c.op]
        return {"<": False, "<=": True, "==": True}[c.op]
    if pk == neg:  # k: p op 0 ; c: -p op2 0
        if k.op == "<":
            return {"<": False, "<=": False, "==": False}[c.op]
        if k.op == "<=":
            return {"<": False, "<=": None, "==": None}[c.op]
        return {"<": False, "<=": True, "==": True}[c.op]
    return None


def norm(p: Sym):
    """Scales out known-positive factors and the leading coefficient's magnitude."""
    content, q = T.split_content(p)
    keep = tuple(
        (i, e) for i, e in content if not (e % 2 == 0 or T.is_positive_atom(T.ATOMS[i]) or T.ATOMS[i].kind == "sqrt")
    )
    keep = tuple((i, 1) for i, e in keep)
    r = q * Sym({keep: T.F(1)}) if keep else q
    lead = min(r.d)
    return r * Sym.const(1 / abs(r.d[lead]))


class Obligation:
    __slots__ = ("name", "status", "detail", "witness", "ms", "backend")

    def __init__(self, name, status, detail="", witness=None, ms=0.0, backend=""):
        self.name, self.status, self.detail = name, status, detail
        self.witness, self.ms, self.backend = witness, ms, backend

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Symbolic:
    """The verification context handed to a contract harness."""

    mode = "symbolic"

    def __init__(self, name, max_paths=400, deadline=None, seed=1):
        self.name = name
        self.obligations: list[Obligation] = []
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.rng = random.Random(seed)
        self.path_note = ""
        self.covered = 0
        self.samplers: list = []

    # inputs
    def real(self, name, lo=None, hi=None):
        s = T.symbol(name)
        return s

    def pos(self, name, lo=None, hi=None):
        return T.symbol(name, positive=True)

    def reals(self, name, n):
        import numpy as np

        return np.array([self.real(f"{name}{i}") for i in range(n)], dtype=object)

    def assume(self, c):
        ENGINE.assume(c if isinstance(c, (bool, SymBool)) else bool(c))

    def sampler(self, f):
        """f(rng) -> {symbol name: value}: draws base values satisfying the preconditions."""
        self.samplers.append(f)

    # obligations
    def ensure_eq(self, name, a, b, scale=None, rtol=None):
        import numpy as np

        from .seqs import AbsVec

        if isinstance(a, AbsVec) or isinstance(b, AbsVec):
            a = a.term if isinstance(a, AbsVec) else a
            b = b.term if isinstance(b, AbsVec) else b
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            aa, bb = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            if aa.shape != bb.shape:
                self._fail(name, f"shape {aa.shape} != {bb.shape}")
                return
            for ix in np.ndindex(aa.shape):
                self.ensure_eq(f"{name}[{','.join(map(str, ix))}]", aa[ix], bb[ix])
            return
        t0 = time.time()
        if T.coerce(a) is NotImplemented or T.coerce(b) is NotImplemented:
            if a is b or (type(a) is type(b) and a == b):
                self._add(name, "discharged", "identical", t0=t0, backend="syntactic")
            else:
                self._fail(name, f"{a!r} is not {b!r}")
            return
        st, detail, wit, be = prove_equal(T.coerce(a), T.coerce(b), ENGINE.known_conds(), self)
        self._add(name, st, detail, wit, t0, be)

    def ensure(self, name, c, message=""):
        t0 = time.time()
        if not isinstance(c, SymBool):
            if bool(c):
                self._add(name, "discharged", "", t0=t0, backend="syntactic")
            else:
                self._fail(name, "false on this path")
            return
        if c.op == "and":
            for i, a in enumerate(c.args):
                self.ensure(f"{name}.{i}", a)
            return
        r = ENGINE.syntactic(c) if c.op in ("<", "<=", "==", "not") else None
        if c.op == "<=" and T.known_nonneg(-c.args[0]):
            r = True
        if r is True:
            self._add(name, "discharged", "", t0=t0, backend="syntactic")
            return
        conds = ENGINE.known_conds()
        if solve.infeasible(conds + [c.negate()], timeout=4000):
            self._add(name, "discharged", "", t0=t0, backend="z3")
            return
        w = self.find_model(conds, lambda env: not T.evaluate(c, env), solved=c.negate())
        if w is not None:
            self._add(name, "refuted", f"{c!r} fails", w, t0, "evaluation")
        else:
            self._add(name, "unknown", f"{c!r}", None, t0, "z3")

    def _fail(self, name, detail):
        conds = ENGINE.known_conds()
        w = self.find_model(conds, lambda env: True, solved=True)
        self._add(name, "refuted" if w is not None else "unknown", detail, w, time.time(), "evaluation")

    def _add(self, name, status, detail="", witness=None, t0=None, backend=""):
        full = f"{self.name}.{name}"
        if self.path_note:
            full += f" @{self.path_note}"
        self.obligations.append(
            Obligation(full, status, str(detail)[:600], witness, round((time.time() - (t0 or time.time())) * 1000, 2), backend)
        )

    def counts(self):
        """The symbols whose samples are whole numbers by type."""
        out = {}
        for s in self.samplers:
            for _ in range(4):
                for k, v in s(self.rng).items():
                    a = T.ATOMS[k] if isinstance(k, int) else T._KEYS.get(("sym", k))
                    if a is not None:
                        out[a.idx] = out.get(a.idx, True) and isinstance(v, int)
        return {k for k, v in out.items() if v}

    def find_model(self, conds, pred, tries=60, solved=None):
        """A finite model of the conditions in which pred holds: sampled or, given a formula to add, from the solver."""
        bases = set()
        for c in conds:
            T.base_atoms(c, bases)
        for n in range(tries + (solved is not None)):
            vals = {}
            if n == tries:
                vals = solve.assignment(conds + ([solved] if solved is not True else []), self.counts())
                if vals is None:
                    return None
            elif self.samplers:
                for s in self.samplers:
                    for k, v in s(self.rng).items():
                        if isinstance(k, int):  # a free atom, by its index
                            vals[k] = v
                            continue
                        a = T._KEYS.get(("sym", k))
                        if a is not None:
                            vals[a.idx] = v
            env = T.Env(vals, seed=n)
            if n < tries:
                env = repair(env, conds)
            if env is None:
                continue
            try:
                if all(T.evaluate(c, env) for c in conds) and pred(env):
                    out = {}
                    for i, a in enumerate(T.ATOMS):
                        if a.kind == "sym" and (i in env.values or i in env.memo):
                            v = env.values.get(i, env.memo.get(i))
                            out[a.name] = float(T.frac_to_mpf(v) if isinstance(v, T.F) else v)
                    return out
            except (ValueError, ZeroDivisionError):
                continue
        return None

    # exploration
    def run(self, harness):
        agenda = [[]]
        while agenda:
            prefix = agenda.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                self._add("exploration", "unknown", "path limit reached")
                break
            if self.deadline and time.time() > self.deadline:
                self._add("exploration", "unknown", "time limit reached")
                break
            ENGINE.facts = []
            ENGINE.stack = [Ctx(prefix)]
            ENGINE.poisoned = None
            self.samplers = []
            n0 = len(self.obligations)
            ctx = ENGINE.stack[0]
            try:
                harness(self)
                if ENGINE.poisoned:
                    raise Unsupported(ENGINE.poisoned)
            except Unsupported as e:
                del self.obligations[n0:]
                ENGINE.stack = [ctx]
                self._add("extraction", "unsupported", f"{e}", backend="")
            except RecursionError as e:
                del self.obligations[n0:]
                ENGINE.stack = [ctx]
                self._add("extraction", "unsupported", f"{e}", backend="")
            except Exception as e:  # the real code raises on this path
                import traceback

                del self.obligations[n0:]
                ENGINE.stack = [ctx]
                tb = traceback.format_exc(limit=-3)
                conds = ENGINE.known_conds()
                w = self.find_model(conds, lambda env: True)
                self._add(
                    "no-exception", "raised", f"{type(e).__name__}: {e} | {tb}", w, backend="execution"
                )
            else:
                if self.find_model(ENGINE.known_conds(), lambda env: True, tries=40) is not None:
                    self.covered += 1
            agenda.extend(ctx.alternatives())
        ENGINE.stack = []
        ENGINE.facts = []
        return self


def repair(env, conds):
    """Chooses values so that linear equalities among the conditions hold."""
    from .seqs import solve_linear

    for c in conds:
        if c.op != "==":
            continue
        p = c.args[0]
        cand = [i for i in T.base_atoms(p)]
        done = False
        for i in cand:
            if T.ATOMS[i].kind != "sym":
                continue
            sol = solve_linear(p, i)
            if sol is not None:
                try:
                    v = T.evaluate(sol, env)
                except (ValueError, ZeroDivisionError):
                    return None
                env.values[i] = v
                env.memo.clear()
                done = True
                break
        if not done and not cand:
            continue
    return env


def prove_equal(a, b, conds, ctx):
    try:
        if T.equal(a, b):
            return "discharged", "", None, "normal-form"
    except Unsupported as e:
        return "unknown", str(e), None, "normal-form"
    # use equalities on the path
    from .seqs import solve_linear

    a2, b2 = a, b
    try:
        for _ in range(3):
            for c in conds:
                if c.op != "==":
                    continue
                p = T.coerce(c.args[0])
                for i in sorted(T.base_atoms(p)):
                    sol = solve_linear(p, i)
                    if sol is not None:
                        a2, b2 = T.subst(a2, {i: sol}), T.subst(b2, {i: sol})
                        break
        if (a2 is not a or b2 is not b) and T.equal(a2, b2):
            return "discharged", "with path equalities", None, "normal-form"
    except (Unsupported, ZeroDivisionError, ValueError):
        pass

    def differs(env):
        va, vb = T.evaluate(a, env), T.evaluate(b, env)
        return abs(va - vb) > mpmath.mpf(10) ** -9 * (abs(va) + abs(vb))

    w = ctx.find_model(conds, differs)
    if w is not None:
        d = (a - b)
        return "refuted", f"got {T.show(a, 6)}  want {T.show(b, 6)}  diff {T.show(d, 4)}", w, "evaluation"
    if solve.infeasible(conds + [T.SymBool("not", (T.compare0("==", a - b),))] if isinstance(T.compare0("==", a - b), SymBool) else conds, timeout=4000):
        return "discharged", "", None, "z3"
    return "unknown", f"got {T.show(a, 6)}  want {T.show(b, 6)}", None, "normal-form"
