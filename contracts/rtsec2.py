"""Run-time contracts: accessors, prerequisites and histories."""
from __future__ import annotations

import copy
import dataclasses

import numpy as np

from rt import gen
from rt.oracle import rot

from .accessors import PLASTIC, TABLE, WARPING, as_list, expected
from .rtsec import new, scales, wtol


def analysed(case, kind=None):
    sec, o = new(case, kind)
    sec.calculate_geometric_properties()
    sec.calculate_warping_properties()
    sec.calculate_plastic_properties()
    return sec, o


def accessors(case):
    sec, o = analysed(case)
    p = sec.section_props
    case.ensure("kind", sec.is_composite() == o.composite)
    m = case.rng.choice(o.mats)
    e = case.rng.uniform(0.1, 50)
    back = lambda phi, x, y: rot(-phi, x, y)
    for name, (kind, ref, fields, _) in TABLE.items():
        f = getattr(sec, name)
        if kind != "any" and kind != ("composite" if o.composite else "geometric"):
            for kw in [{}] + ([{"e_ref": e}, {"e_ref": m}] if ref else []):
                try:
                    r = f(**kw)
                except RuntimeError:
                    case.checks += 1
                    continue
                case.fail(name, f"returns {r} for a {'composite' if o.composite else 'geometric'} section")
            continue
        want = np.array(expected(p, name, back), float)
        sc = max(np.abs(want).max(), 1e-9)
        for kw, d in [({}, 1.0)] + ([({"e_ref": e}, e), ({"e_ref": m}, m.elastic_modulus)] if ref else []):
            case.ensure_eq(name, np.array(as_list(f(**kw)), float), want / d, scale=sc / d, rtol=1e-10)
    # against the reference
    s, t = scales(o), 1e-8 * max(1.0, (scales(o)["far"] / o.size) ** 2)
    if o.composite:
        case.ensure_eq("reference ea", sec.get_ea(e_ref=m), o.ea / m.elastic_modulus)
        case.ensure_eq("reference eic", sec.get_eic(e_ref=m), np.array([o.ixx, o.iyy, o.ixy]) / m.elastic_modulus,
                       scale=s["I"] / m.elastic_modulus, rtol=t)
        case.ensure_eq("reference eip", sec.get_eip(e_ref=e), np.array([o.i11, o.i22]) / e, scale=s["I"] / e, rtol=t)
    else:
        case.ensure_eq("reference area", sec.get_area(), o.area)
        case.ensure_eq("reference ic", sec.get_ic(), (o.ixx, o.iyy, o.ixy), scale=s["I"], rtol=t)
        case.ensure_eq("reference ip", sec.get_ip(), (o.i11, o.i22), scale=s["I"], rtol=t)


# ---------------------------------------------------------------------------- C18
RANK = {"geometric": 1, "warping": 2, "plastic": 2}


def _raises(case, name, f, *a, **k):
    try:
        r = f(*a, **k)
    except RuntimeError:
        case.checks += 1
        return
    except Exception as e:
        case.fail(name, f"{type(e).__name__} instead of RuntimeError: {e}")
        return
    case.fail(name, f"no error; returns {str(r)[:80]}")


def _not_a_number(case, name, f):
    _raises(case, name + " before its analysis", f)


def prerequisites(case):
    """Every accessor and analysis, at every stage of a section's life."""
    sec, o = new(case, target=12)
    done = set()
    r = case.rng
    order = r.choice([["geometric", "warping", "plastic"], ["geometric", "plastic", "warping"]])
    for stage in [None] + order:
        if stage:
            getattr(sec, f"calculate_{stage}_properties")()
            done.add(stage)
        for name, (kind, ref, _, an) in TABLE.items():
            ok = kind == "any" or kind == ("composite" if o.composite else "geometric")
            if an in done and ok:
                case.ensure("number " + name, np.all(np.isfinite(np.array(as_list(getattr(sec, name)()), float))))
            elif an not in done:
                _not_a_number(case, name, getattr(sec, name))
        c = gen.mesh_point(sec, r)
        if "geometric" not in done:
            _raises(case, "warping", sec.calculate_warping_properties)
            _raises(case, "plastic", sec.calculate_plastic_properties)
            _raises(case, "stress", sec.calculate_stress, n=1.0)
            _raises(case, "stress at point", sec.get_stress_at_points, pts=[c], n=1.0)
            case.ensure("nothing stored", sec.section_props.j is None and sec.section_props.sxx is None)
        if "warping" not in done:
            for a in ("vx", "vy", "mzz"):
                for v in (r.uniform(0.1, 3), -r.uniform(0.1, 3), 1e-12):
                    _raises(case, f"stress {a}", sec.calculate_stress, **{a: v})
                    _raises(case, f"point {a}", sec.get_stress_at_points, pts=[c], **{a: v})
        if "warping" not in done:
            _raises(case, "plot of the warping function", sec.plot_warping_function, render=False)


def prerequisites_after_frame(case):
    """The frame analysis only stands in for the results it computes."""
    sec, o = new(case, target=12)
    if case.rng.random() < 0.5:
        sec.calculate_geometric_properties()
        p = sec.section_props
        c = gen.mesh_point(sec, case.rng)
        sec.calculate_frame_properties()
        for a in ("vx", "vy"):
            _raises(case, f"stress {a}", sec.calculate_stress, **{a: 1.0})
            _raises(case, f"point {a}", sec.get_stress_at_points, pts=[c], **{a: 1.0})
    else:
        sec.calculate_frame_properties()
    k = "composite" if o.composite else "geometric"
    for name, (kind, ref, fields, an) in TABLE.items():
        if an == "plastic" or (an == "warping" and name not in ("get_j", "get_ej")):
            _not_a_number(case, name, getattr(sec, name))


def snapshot(sec):
    g = sec.geometry
    geoms = getattr(g, "geoms", [g])
    return {
        "vertices": np.array(sec.mesh["vertices"], float), "triangles": np.array(sec.mesh["triangles"]),
        "attributes": np.array(sec.mesh["triangle_attributes"], float),
        "geometry mesh": np.array(g.mesh["vertices"], float), "points": np.array(g.points, float),
        "facets": np.array(g.facets), "holes": np.array(g.holes, float), "control points": np.array(g.control_points, float),
        "regions": [x.geom.wkb for x in geoms] + [g.geom.wkb], "materials": [dataclasses.astuple(x.material) for x in geoms],
        "tol": [x.tol for x in geoms], "types": [type(x).__name__ for x in geoms],
        "element nodes": np.array([e.node_ids for e in sec.elements]), "coords": np.array([e.coords for e in sec.elements]),
        "element material": [dataclasses.astuple(e.material) for e in sec.elements],
        "section materials": [dataclasses.astuple(m) for m in sec.materials],
    }


def same(case, name, a, b):
    for k in a:
        if isinstance(a[k], np.ndarray):
            case.ensure(name + " " + k, a[k].shape == b[k].shape and np.array_equal(a[k], b[k]), "changed")
        else:
            case.ensure(name + " " + k, a[k] == b[k], "changed")


def stress_values(st):
    return [np.array(v, float) for d in st.get_stress() for k, v in d.items() if k != "material"]


def histories(case):
    """Any sequence of analyses gives the results of a fresh section, and leaves the geometry alone."""
    from sectionproperties.analysis.section import Section

    from .rtsec import step

    sec, o = new(case)
    before = snapshot(sec)
    r = case.rng
    seq = [r.choice(["geometric", "warping", "plastic", "stress", "frame_direct", "frame_cgs", "points", "ask"])
           for _ in range(r.randint(2, 7))]
    case.info["history"] = seq
    twin = Section(sec.geometry) if r.random() < 0.3 else None
    cgs_last = False
    kept = []
    for h in seq:
        if h == "points":
            if sec.section_props.i11_c is not None:
                sec.get_stress_at_points(pts=[gen.mesh_point(sec, r)], n=1.0, mxx=2.0)
        elif h == "ask":
            for name in TABLE:
                try:
                    getattr(sec, name)()
                except (RuntimeError, AssertionError):
                    pass
        else:
            st = step(sec, h)
            if h == "stress":
                kept.append((st, stress_values(st)))
            cgs_last = {"frame_cgs": True, "warping": False, "frame_direct": False}.get(h, cgs_last)
    same(case, "input", before, snapshot(sec))
    if kept:
        sec.calculate_stress(n=-3.0, myy=1.0)
    for st, vals in kept:
        now = stress_values(st)
        case.ensure("earlier stress results", len(now) == len(vals) and all(np.array_equal(a, b) for a, b in zip(now, vals)),
                    "changed by a later analysis")
    p = sec.section_props
    ref = Section(copy.deepcopy(sec.geometry))
    ref.calculate_geometric_properties()
    full = p.i11_c is not None
    if p.psi_shear is not None:
        ref.calculate_warping_properties()
    elif p.j is not None:
        ref.calculate_frame_properties()
    if p.sxx is not None:
        ref.calculate_plastic_properties()
    q = ref.section_props
    if not full:
        got = [f.name for f in dataclasses.fields(q) if getattr(p, f.name) is not None]
    else:
        got = [f.name for f in dataclasses.fields(q)]
    t = 1e-9 * max(1.0, (scales(o)["far"] / o.size) ** 2)
    for n in got:
        a, b = getattr(p, n), getattr(q, n)
        if b is None or a is None:
            case.ensure("stored " + n, a is None and b is None, f"{a!r} against {b!r} of a fresh section")
            continue
        if n == "phi":
            if o.anisotropy > 1e-6:
                case.ensure_eq("phi", np.sin(np.deg2rad(a - b)), 0, scale=1.0, rtol=t / o.anisotropy)
            continue
        loose = cgs_last and n in ("j", "omega")
        sc = float(np.max(np.abs(b))) if np.size(b) else 1.0
        if n in ("ixy_c", "ixx_c", "iyy_c", "i11_c", "i22_c"):
            sc = scales(o)["I"]
        case.ensure_eq("fresh " + n, a, b, scale=max(sc, 1e-9 * o.size), rtol=1e-3 if loose else 1e-10 if n not in PLASTIC else 1e-9)
    if twin is not None:
        same(case, "twin", before, snapshot(twin))
        case.ensure("twin has no results", twin.section_props.area is None and twin.section_props.j is None)


class Fault(Exception):
    """A solver that fails (an injected fault)."""


def failed_analyses(case):
    """After an analysis that failed half way, every accessor raises or gives a fresh section's value."""
    import sectionproperties.analysis.plastic_section as ps
    import sectionproperties.analysis.solver as sol
    from sectionproperties.analysis.section import Section

    sec, o = new(case, target=12)
    fresh = Section(sec.geometry)
    fresh.calculate_geometric_properties()
    fresh.calculate_warping_properties()
    fresh.calculate_plastic_properties()
    r = case.rng
    before = r.sample(["geometric", "warping", "plastic", "frame"], r.randrange(0, 4))
    if before and before[0] in ("warping", "plastic"):
        before.insert(0, "geometric")
    failing = r.choice(["warping", "frame", "frame", "plastic"])
    nth = {"warping": r.randrange(3), "frame": 0, "plastic": r.randrange(4)}[failing]
    case.info.update(before=before, failing=failing, nth=nth)
    for b in before:
        if b in ("warping", "plastic") and sec.section_props.i11_c is None:
            sec.calculate_geometric_properties()
        getattr(sec, f"calculate_{b}_properties")()
    if failing != "frame" and sec.section_props.i11_c is None:
        sec.calculate_geometric_properties()
    count = [0]

    def failing_call(f):
        def g(*a, **k):
            count[0] += 1
            if count[0] > nth:
                raise Fault("injected")
            return f(*a, **k)

        return g

    saved = sol.solve_direct_lagrange, ps.brentq
    sol.solve_direct_lagrange, ps.brentq = failing_call(saved[0]), failing_call(saved[1])
    try:
        getattr(sec, f"calculate_{failing}_properties")()
        failed = False
    except Fault:
        failed = True
    finally:
        sol.solve_direct_lagrange, ps.brentq = saved
    case.assume(failed)
    s = scales(o)
    t = 1e-8 * max(1.0, (s["far"] / s["len"]) ** 2)
    for name, (kind, ref, fields, an) in TABLE.items():
        if kind != "any" and kind != ("composite" if o.composite else "geometric"):
            continue
        try:
            got = getattr(sec, name)()
        except (RuntimeError, AssertionError):
            case.checks += 1
            continue
        want = np.array(as_list(getattr(fresh, name)()), float)
        if name == "get_phi" and o.anisotropy < 1e-6:
            continue
        case.ensure(name + " is a number", got is not None and all(v is not None for v in as_list(got)), f"{got!r}")
        if name in ("get_as", "get_as_p", "get_eas", "get_eas_p") or "beta" in name:
            continue
        w = max(np.abs(want).max(), {"get_c": s["far"], "get_sc": s["far"], "get_sc_t": s["far"], "get_pc": s["far"],
                                     "get_ic": s["I"], "get_eic": s["I"], "get_q": s["Q"], "get_eq": s["Q"],
                                     "get_ig": s["Ig"], "get_eig": s["Ig"]}.get(name, 1e-3 * np.abs(want).max()))
        if np.all(np.isfinite(want)):
            case.ensure_eq("after the failure " + name, np.array(as_list(got), float), want, scale=w,
                           rtol=max(t, 100 * wtol(o)) if an == "warping" else t)
