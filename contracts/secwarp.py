"""The warping analysis over callee contracts: elements, linear solver and torsion assembly are
known only by their contracts; the analysis code itself is executed."""
from __future__ import annotations

import inspect

from .seccommon import El, Mat, Nodes, _fn, mods, groups, report_progress

SOLUTIONS: dict = {}


class WEl(El):
    """An element whose results depend on its index, its coordinates' displacement and the arguments."""

    def __init__(self, tag, idx, material=None):
        super().__init__(tag, idx, material)
        self._c0 = self.coords.copy()
        self.coords = self.coords.copy()

    def _state(self):
        d = [a - b for a, b in zip(self.coords.ravel(), self._c0.ravel())]
        from pydv import terms as T

        return [T.coerce(x) for x in d]

    def _bind(self, name, args, kw):
        import sectionproperties.analysis.fea as fea

        f = getattr(fea.Tri6, name)
        b = inspect.signature(f).bind(self, *args, **kw)
        b.apply_defaults()
        return [v for k, v in list(b.arguments.items())[1:]]

    def _call(self, name, outs, args, kw):
        import numpy as np
        from pydv import terms as T

        flat = []
        for v in self._bind(name, args, kw):
            if isinstance(v, (np.ndarray, list, tuple)):
                flat += [T.coerce(x) for x in v]
            else:
                flat.append(T.coerce(v))
        return [self.f(f"{name}.{o}", *self._state(), *flat) for o in outs]

    def _vec(self, name, o, args, kw, n=6):
        import numpy as np

        r = np.empty(n, dtype=object)
        r[:] = self._call(name, [f"{o}{i}" for i in range(n)], args, kw)
        return r

    def geometric_properties(self):
        if all(not d.d for d in self._state()):
            return super().geometric_properties()
        g = [self.f("moved." + k, *self._state(), positive=(k == "area")) for k in
             ("area", "qx", "qy", "ixx", "iyy", "ixy")]
        m = self.material
        return (*g, m.elastic_modulus, m.shear_modulus, m.density)

    def torsion_properties(self, *a, **k):
        import numpy as np

        ke = np.empty((6, 6), dtype=object)
        for i in range(6):
            for j in range(6):
                (ke[i, j],) = self._call("torsion_properties", [f"k{min(i, j)}{max(i, j)}"], a, k)
        return ke, self._vec("torsion_properties", "f", a, k), self._vec("torsion_properties", "c", a, k)

    def shear_load_vectors(self, *a, **k):
        return self._vec("shear_load_vectors", "psi", a, k), self._vec("shear_load_vectors", "phi", a, k)

    def shear_warping_integrals(self, *a, **k):
        return tuple(self._call("shear_warping_integrals", ["x", "y", "q", "i", "ix", "iy"], a, k))

    def shear_coefficients(self, *a, **k):
        return tuple(self._call("shear_coefficients", ["x", "y", "xy"], a, k))

    warping_on = True  # set by the harness: does any of vx, vy, mzz act
    WARP_ONLY = ("j", "nu", "delta_s", "omega", "psi_shear", "phi_shear")

    def element_stress(self, *a, **k):
        import sectionproperties.analysis.fea as fea
        import numpy as np

        if not WEl.warping_on:
            # contract (C05): without warping actions the warping data do not matter
            b = inspect.signature(fea.Tri6.element_stress).bind(self, *a, **k).arguments
            k = {n: v for n, v in b.items() if n != "self"}
            k.update({n: 0 for n in self.WARP_ONLY})
            a = ()
        out = [self._vec("element_stress", f"s{c}_", a, k) for c in range(11)]
        w = np.empty(6, dtype=object)
        for i in range(6):
            w[i] = _fn(f"weight{i}_", positive=True)  # the same rule for every element
        return (*out, w)

    def monosymmetry_integrals(self, *a, **k):
        return tuple(self._call("monosymmetry_integrals", ["x", "y", "11", "22"], a, k))


class Solver:
    """Contract of solver.solve_*_lagrange: some field that satisfies the bordered system."""

    def __init__(self, ctx, scale=None):
        self.calls = []
        self.scale = scale

    def solution(self, k, f, how):
        from pydv import seqs
        from pydv import terms as T

        # a function of the system alone (the elements' displacement fixes the matrix)
        shift = tuple(x.key() for x in getattr(k, "shift", ()))
        if self.scale is not None:
            # uniqueness: the solution of (s K, s^p f) is s^(p-1) times that of (K, f)
            for p in (1, 2, 3):
                key = ((f.term / self.scale**p).key(), shift)
                if key in SOLUTIONS:
                    u = seqs.AbsVec.unknown(f"u{SOLUTIONS[key]}", f.n) * self.scale ** (p - 1)
                    self.calls.append((k, f.copy(), how, u))
                    return u
            raise T.Unsupported("right-hand side of the scaled system")
        key = (f.term.key(), shift)
        name = f"u{SOLUTIONS.setdefault(key, len(SOLUTIONS))}"
        u = seqs.AbsVec.unknown(name, f.n)
        self.calls.append((k, f.copy(), how, u))
        return u


def warping_elements(tag="", unit=False):
    """unit: the default material (modulus one), as in a geometric-only section."""
    from pydv import seqs
    from pydv import terms as T

    def make(b):
        if not unit:
            return WEl(tag, b)
        return WEl(tag, b, Mat(elastic_modulus=T.Sym.const(1), shear_modulus=T.Sym.const(T.F(1, 2)), density=T.Sym.const(1),
                               yield_strength=T.Sym.const(1), poissons_ratio=T.Sym.const(0), name="default", color="w"))

    return seqs.SymSeq(f"el{tag}", make)


def section_after_geometric(ctx, composite):
    """A section whose geometric analysis has been run (arbitrary results)."""
    from pydv import seqs
    S, post = mods()
    sec = object.__new__(S.Section)
    sec.time_info = report_progress(ctx)
    sec.elements = warping_elements()
    sec.material_groups = groups()
    p = post.SectionProperties()
    for k in ("area", "ea", "ga"):
        setattr(p, k, ctx.pos(k))
    for k in ("cx", "cy", "phi", "ixy_c"):
        setattr(p, k, ctx.real(k))
    for k in ("ixx_c", "iyy_c", "i11_c", "i22_c", "nu_eff", "e_eff", "g_eff", "mass"):
        setattr(p, k, ctx.pos(k))
    for k in ("qx", "qy", "ixx_g", "iyy_g", "ixy_g"):
        setattr(p, k, ctx.real(k))
    if not composite:
        # all elements are of the default material: E = 1, nu = 0 (C07)
        from pydv import terms as T

        p.ea, p.ga, p.nu_eff = p.area, p.area * T.Sym.const(T.F(1, 2)), T.Sym.const(0)
        p.e_eff, p.g_eff = T.Sym.const(1), T.Sym.const(T.F(1, 2))
    sec.section_props = p
    sec.num_nodes = ctx_int("n_nodes")
    sec.is_composite = lambda: composite

    class Geo:
        __pydv_obj__ = True

    sec.geometry = Geo()
    return sec


def ctx_int(name):
    from pydv import terms as T

    return T.symbol(name, positive=True, integer=True)


class Token:
    def __init__(self, name):
        self.name = name


def run_warping(ctx, composite, solver="direct", call="calculate_warping_properties", sec=None, unit=False, scaling=None):
    """Executes the analysis; returns (section, warping elements, K, f_torsion, solver).

    scaling: (k, elements -> elements), the same system with the matrix and the torsion load k times as large."""
    from pydv import seqs
    from pydv import terms as T

    S, post = mods()
    import sectionproperties.analysis.solver as sol

    if sec is None:
        sec = section_after_geometric(ctx, composite)
    wel = warping_elements(unit=unit)
    if scaling:
        wel = scaling[1](wel)
    made = []
    K = Token("K")
    f = seqs.AbsVec.unknown("f_torsion", sec.num_nodes)
    state = {}

    def make(geometry, time_info=False):
        ctx.ensure("warping section of the same geometry", geometry is sec.geometry)
        w = object.__new__(real)
        w.time_info = time_info
        w.elements = wel
        w.num_nodes = sec.num_nodes
        w.is_composite = sec.is_composite
        w.section_props = post.SectionProperties()
        w.geometry = geometry

        def assemble_torsion(progress=None, task=None):
            e = wel.generic()
            state["shift"] = K.shift = e._state()
            f.term = T.func("f_torsion", f.index_seq().bound, *K.shift)
            if scaling:
                f.term = f.term * scaling[0]
            return K, f

        w.assemble_torsion = assemble_torsion
        made.append(w)
        return w

    real = S.Section
    saved = {n: getattr(sol, n) for n in ("solve_direct_lagrange", "solve_cgs_lagrange", "solve_direct", "solve_cgs")}
    names = [n for n in ("spilu", "LinearOperator") if hasattr(S, n)]
    saved_s = {n: getattr(S, n) for n in names}
    s = Solver(ctx, scaling and scaling[0])

    class Ilu:
        def solve(self, *a):
            raise RuntimeError

    M = Token("M")
    try:
        S.Section = make
        for n in names:
            setattr(S, n, (lambda k, *a, **kw: Ilu()) if n == "spilu" else (lambda *a, **kw: M))
        sol.solve_direct_lagrange = lambda k_lg, f: s.solution(k_lg, f, "direct")
        sol.solve_cgs_lagrange = lambda k_lg, f, m, tol=1e-5: s.solution(k_lg, f, "cgs")
        r = getattr(sec, call)(solver_type=solver)
    finally:
        S.Section = real
        for n, v in saved.items():
            setattr(sol, n, v)
        for n, v in saved_s.items():
            setattr(S, n, v)
    state["result"] = r
    return sec, wel, K, f, s, state


def expected_sum(wel, method, out, *args):
    """Sum over the elements, moved to the centroid, of one result of one element method."""
    from pydv import terms as T

    e = moved(wel)
    return T.sum_over(wel, dict_of(e, method, args)[out])


def moved(wel, cx=None, cy=None):
    """A fresh copy of the generic element as the analysis must see it: centroid at the origin."""
    e = WEl("", wel.bound)
    if cx is not None:
        e.coords[0, :] = [x - cx for x in e.coords[0, :]]
        e.coords[1, :] = [y - cy for y in e.coords[1, :]]
    return e


def dict_of(e, method, args):
    return getattr(e, method)(*args)


COMP = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zx_mzz", "sig_zy_mzz", "sig_zx_vx",
        "sig_zy_vx", "sig_zx_vy", "sig_zy_vy"]
ACTS = ["n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy"]


def stress_groups(n):
    """Material groups (genuine MaterialGroup objects), any number, each with any number of elements."""
    from pydv import seqs
    from .seccommon import _idx

    S, post = mods()

    def group(g):
        mat = Mat(elastic_modulus=_fn("Eg", g, positive=True), name="m", color="w",
                  yield_strength=_fn("fyg", g, positive=True))
        grp = S.MaterialGroup(num_nodes=n, material=mat)
        grp.elements = seqs.SymSeq("gel", lambda b: WEl("g", (g, b), mat), outer_deps={_idx(g)}, outer=(g,))
        grp.el_ids = seqs.SymSeq("gid", None, outer_deps={_idx(g)}, outer=(g,))
        return grp

    return seqs.SymSeq("grp", group)


def run_stress(ctx, composite):
    """calculate_stress on an arbitrary analysed section; (section, actions, StressPost, warping?)"""
    from pydv import seqs

    sec = section_after_geometric(ctx, composite)
    p = sec.section_props
    p.j, p.delta_s = ctx.pos("j"), ctx.pos("delta_s")
    for k in ("omega", "psi_shear", "phi_shear"):
        setattr(p, k, seqs.AbsVec.unknown(k, sec.num_nodes))
    sec.material_groups = stress_groups(sec.num_nodes)
    act = {k: ctx.real(k) for k in ACTS}
    warp = bool(act["vx"] != 0 or act["vy"] != 0 or act["mzz"] != 0)
    WEl.warping_on = warp
    try:
        st = sec.calculate_stress(**act)
    finally:
        WEl.warping_on = True
    return sec, act, st, warp


def section_arguments(sec, composite):
    p = sec.section_props
    return dict(ea=p.ea if composite else p.area, cx=p.cx, cy=p.cy, ixx=p.ixx_c, iyy=p.iyy_c, ixy=p.ixy_c,
                i11=p.i11_c, i22=p.i22_c, phi=p.phi, j=p.j, nu=p.nu_eff if composite else 0, delta_s=p.delta_s)
