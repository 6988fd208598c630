"""C19: solved fields satisfy the constrained system."""
from . import rtsolver


def bordered(ctx, name="u"):
    """Any field of any length followed by a multiplier, with its largest entry."""
    from pydv import seqs
    from pydv import terms as T

    n = T.symbol("n_nodes", positive=True, integer=True)
    f = seqs.AbsVec.unknown("f", n)
    u = seqs.BorderedVec(seqs.AbsVec.unknown(name, n), ctx.real("multiplier"))
    top = abs(u).max()
    ctx.assume(top > 0)

    def sample(rng):
        r = {"multiplier": rng.choice([0.0, 0.3, -0.3, 1e-12, -1e-12]), "tol": rng.choice([1e-5, 1e-2]),
             "info": rng.choice([0, 0, 1, -1]), "n_nodes": 3}
        if rng.random() < 0.7:  # solutions of any size
            t = 10.0 ** rng.uniform(-12, 6)
            r["multiplier"] = rng.choice([-1, 1]) * t * 10.0 ** rng.uniform(-9, 0)
            r[next(iter(top.d))[0][0]] = t
        return r

    ctx.sampler(sample)
    return n, f, u, top


def mod():
    import sectionproperties.analysis.solver as sol

    return sol


class Matrix:
    pass


def system_checked(ctx, A, b, K, f, lagrange):
    from pydv import seqs

    ctx.ensure("the given matrix", A is K)
    if not lagrange:
        ctx.ensure("the given right hand side", b is f)
        return
    ctx.ensure("bordered right hand side", isinstance(b, seqs.BorderedVec))
    ctx.ensure_eq("right hand side", b.field, f)
    ctx.ensure_eq("constraint value", b.last, 0)


def direct_lagrange(ctx):
    """Callee contract: the sparse solver returns u with K u = b."""
    from pydv import terms as T

    sol = mod()
    n, f, u, top = bordered(ctx)
    lam, K, calls = u.last, Matrix(), []
    old = sol.sp_solve

    def sp_solve(A, b, *a, **k):
        system_checked(ctx, A, b, K, f, True)
        calls.append(1)
        return u.copy()

    sol.sp_solve = sp_solve
    try:
        r = sol.solve_direct_lagrange(k_lg=K, f=f)
    except RuntimeError:
        r = None
    finally:
        sol.sp_solve = old
    ctx.ensure("solved once", len(calls) == 1)
    if r is None:
        ctx.ensure("raises only for a multiplier", lam * lam > 0)
        return
    ctx.ensure_eq("the field, multiplier removed", r, u.field)
    ctx.ensure_eq("length", r.n, n)
    small = (T.absolute(lam) <= top * T.F(1, 10**7)) | (T.absolute(lam) <= T.F(10 * 2**-52))
    ctx.ensure("multiplier negligible, whatever its sign", small)


def cgs_lagrange(ctx):
    """Callee contract: cgs returns (u, info) with info == 0 exactly when the tolerance was reached."""
    from pydv import terms as T

    sol = mod()
    n, f, u, top = bordered(ctx)
    lam, K, M, calls = u.last, Matrix(), Matrix(), []
    info = T.symbol("info", integer=True)
    tol = ctx.pos("tol")
    ctx.assume(tol < T.F(1, 10))
    old = sol.cgs

    def cgs(A, b, *a, rtol=None, M=None, **k):
        system_checked(ctx, A, b, K, f, True)
        ctx.ensure("tolerance", rtol is not None)
        if rtol is not None:
            ctx.ensure("tolerance as requested", rtol <= tol)
        calls.append(M)
        return u.copy(), info

    sol.cgs = cgs
    try:
        r = sol.solve_cgs_lagrange(k_lg=K, f=f, m=M, tol=tol)
    except RuntimeError:
        r = None
    finally:
        sol.cgs = old
    ctx.ensure("preconditioned once", len(calls) == 1 and calls[0] is M)
    if r is None:
        ctx.ensure("raises only without convergence or for a multiplier", (lam * lam > 0) | (info != 0))
        return
    ctx.ensure("converged", info == 0)
    ctx.ensure_eq("the field, multiplier removed", r, u.field)
    ctx.ensure_eq("length", r.n, n)
    small = (T.absolute(lam) <= top * tol) | (T.absolute(lam) <= T.F(10 * 2**-52))
    ctx.ensure("multiplier negligible, whatever its sign", small)


def unconstrained(ctx):
    """solve_direct and solve_cgs pass the system on and return its solution."""
    from pydv import seqs
    from pydv import terms as T

    sol = mod()
    n, f, u, top = bordered(ctx)
    x = u.field
    K, M = Matrix(), Matrix()
    info = T.symbol("info", integer=True)
    tol = ctx.pos("tol")
    old = sol.sp_solve, sol.cgs

    def sp_solve(A, b, *a, **k):
        system_checked(ctx, A, b, K, f, False)
        return x

    def cgs(A, b, *a, rtol=None, M=None, **k):
        system_checked(ctx, A, b, K, f, False)
        ctx.ensure("tolerance as requested", rtol <= tol)
        return x, info

    sol.sp_solve, sol.cgs = sp_solve, cgs
    try:
        ctx.ensure_eq("direct", sol.solve_direct(k=K, f=f), x)
        try:
            r = sol.solve_cgs(k=K, f=f, m=M, tol=tol)
        except RuntimeError:
            ctx.ensure("raises only without convergence", info != 0)
            return
        ctx.ensure("converged", info == 0)
        ctx.ensure_eq("cgs", r, x)
    finally:
        sol.sp_solve, sol.cgs = old


SYMBOLIC = [direct_lagrange, cgs_lagrange, unconstrained]
RUNTIME = [("lagrange", rtsolver.lagrange, 60, 600), ("plain", rtsolver.plain, 20, 200),
           ("both_solvers", rtsolver.both_solvers, 20, 200)]
