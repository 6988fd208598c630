"""Run-time contracts of the linear solvers."""
from __future__ import annotations

import numpy as np

from .rtsec import new, scales, wtol


def mod():
    import sectionproperties.analysis.solver as sol

    return sol


def ilu(K):
    from scipy.sparse.linalg import LinearOperator, spilu

    return LinearOperator(K.shape, spilu(K).solve)


def system(case):
    """A bordered system: of a section, or of a random network."""
    import scipy.sparse as sp

    rng = case.rng
    if rng.random() < 0.3:
        sec, o = new(case, target=25)
        K, f = sec.assemble_torsion()
        return K.tocsc(), np.asarray(f, float)
    n = rng.randrange(4, 40)
    r = np.random.RandomState(rng.randrange(10**6))
    A = sp.random(n, n, 0.3, random_state=r)
    A = abs(A + A.T) + sp.diags([np.ones(n - 1)] * 2, [1, -1])
    A.setdiag(0)
    L = sp.diags(np.asarray(A.sum(1)).ravel()) - A
    c = r.uniform(0.5, 1.5, n)
    K = sp.bmat([[L, c[:, None]], [c[None, :], None]]).tocsc()
    f = r.normal(size=n)
    f -= f.mean()
    return K, f


def lagrange(case):
    sol = mod()
    K, f = system(case)
    n = len(f)
    how = case.rng.choice(["direct", "cgs"])
    mode = case.rng.choice(["balanced", "positive", "negative", "balanced"])
    case.info.update(size=n, solver=how, load=mode)
    f0 = f.copy()
    if mode != "balanced":
        k = case.rng.choice([0.05, 1.0])  # relative size of the unbalanced part
        f = f + k * np.abs(f).max() * (1 if mode == "positive" else -1) * np.abs(K[:n, n].toarray().ravel()) / K[:n, n].max()
    if case.rng.random() < 0.4:
        # sections in small or large units
        f = f * 10.0 ** case.rng.uniform(-10, 4)
        f0 = f.copy()
    # the reference solution
    ref = np.linalg.solve(K.toarray(), np.append(f, 0))
    rel = abs(ref[-1]) / np.abs(ref).max()
    args = dict(k_lg=K, f=f.copy())
    if how == "cgs":
        args["m"] = ilu(K)
    Kc = K.copy()
    try:
        u = (sol.solve_direct_lagrange if how == "direct" else sol.solve_cgs_lagrange)(**args)
    except RuntimeError as e:
        bad = rel > (1e-9 if how == "direct" else 1e-6)
        if how == "cgs":
            bad = bad or "converge" in str(e) or ref[:n].size and np.abs(ref).max() < 1e-8
            # badly scaled (a small section): the iterative solution itself has a multiplier
            bad = bad or np.abs(K[n, :n].toarray()).max() < 1e-3 * np.abs(K[:n, :n].toarray()).max()
        case.ensure("raises only for an unsatisfied system", bad, f"raised with a relative multiplier of {rel:.2e}: {e}")
        return
    lim = 1e-6 if how == "direct" else 1e-4
    case.ensure("unsatisfied system detected", rel <= lim or abs(ref[-1]) < 1e-14,
                f"no error for a multiplier of {ref[-1]:.3e} in a solution of size {np.abs(ref).max():.3e}")
    case.ensure("multiplier removed", u.shape == (n,), f"shape {u.shape} for {n} nodes")
    if u.shape != (n,):
        return
    t = 1e-7 if how == "direct" else 1e-2
    case.ensure_eq("field", u, ref[:n], scale=np.abs(ref).max() + 1e-14, rtol=t)
    s = np.abs(K.toarray()).max() * np.abs(ref).max() + np.abs(f).max() + 1e-8
    case.ensure_eq("system", K[:n, :n] @ u, f, scale=s, rtol=10 * t)
    case.ensure_eq("constraint", K[n, :n] @ u, [0.0], scale=s, rtol=10 * t)
    case.ensure("matrix not modified", (K != Kc).nnz == 0)
    case.ensure("load not modified", np.array_equal(args["f"], f))


def plain(case):
    import scipy.sparse as sp

    sol = mod()
    n = case.rng.randrange(2, 40)
    r = np.random.RandomState(case.rng.randrange(10**6))
    A = sp.random(n, n, 0.3, random_state=r)
    K = (A @ A.T + sp.identity(n)).tocsc()
    f = r.normal(size=n)
    ref = np.linalg.solve(K.toarray(), f)
    case.ensure_eq("direct", sol.solve_direct(K, f), ref, scale=np.abs(ref).max(), rtol=1e-8)
    case.ensure_eq("cgs", sol.solve_cgs(K, f, ilu(K)), ref, scale=np.abs(ref).max(), rtol=1e-3)
    # a method that does not converge raises
    old = sol.cgs
    info = case.rng.choice([1, 10, -1, 1000])
    m = case.rng.choice(["plain", "lagrange"])
    sol.cgs = lambda *a, **k: (old(*a, **k)[0], info)
    try:
        if m == "plain":
            sol.solve_cgs(K, f, ilu(K))
        else:
            sol.solve_cgs_lagrange(K, f[:-1], ilu(K))
    except RuntimeError:
        case.checks += 1
    else:
        case.fail("no convergence", f"info={info} from the iterative method raises no error ({m})")
    finally:
        sol.cgs = old


def both_solvers(case):
    """The warping results of the direct and of the iterative solver agree."""
    from sectionproperties.analysis.section import Section

    sec, o = new(case)
    o.warping()
    other = Section(sec.geometry)
    for q in (sec, other):
        q.calculate_geometric_properties()
    sec.calculate_warping_properties()
    try:
        other.calculate_warping_properties(solver_type="cgs")
    except RuntimeError:
        return  # the iterative solver may give up, with an error
    a, b, s = sec.section_props, other.section_props, scales(o)
    t = 2e-3
    for k in ("omega", "psi_shear", "phi_shear"):
        x, y = getattr(a, k), getattr(b, k)
        case.ensure("length of " + k, len(x) == len(y) == sec.num_nodes)
        sc = max(np.abs(x).max(), 1e-3 * s["len"] ** 2 if k == "omega" else 1e-12)
        case.ensure_eq(k, y, x, scale=sc, rtol=t)
    case.ensure_eq("j", b.j, a.j, scale=s["I"], rtol=t)
    for k in ("x_se", "y_se", "x_st", "y_st"):
        case.ensure_eq(k, getattr(b, k), getattr(a, k), scale=s["len"], rtol=t)
    case.ensure_eq("a_sx", b.a_sx, a.a_sx, rtol=10 * t)
    case.ensure_eq("a_sy", b.a_sy, a.a_sy, rtol=10 * t)
