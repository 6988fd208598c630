"""Run-time contracts of plots (bounded: random sections), with what is drawn recorded from matplotlib."""
from __future__ import annotations

import contextlib
import math

import numpy as np

from rt import gen


@contextlib.contextmanager
def recorded(*names):
    """Records calls of the axes' methods, with the triangulation's mask at the time of the call."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.axes
    import matplotlib.pyplot as plt

    log, old = [], {}
    for n in names:
        old[n] = getattr(matplotlib.axes.Axes, n)

        def wrap(n=n, f=old[n]):
            def g(self, *a, **k):
                mask = getattr(a[0], "mask", None) if a else None
                log.append((n, a, k, None if mask is None else np.array(mask)))
                return f(self, *a, **k)
            return g

        setattr(matplotlib.axes.Axes, n, wrap())
    try:
        yield log
    finally:
        for n, f in old.items():
            setattr(matplotlib.axes.Axes, n, f)
        plt.close("all")


def named(log, n):
    return [c for c in log if c[0] == n]


def stressed(case):
    rng = case.rng
    sec = gen.section(rng, rng.choice(["material", "composite", "composite", "regions"]), rng.choice([15, 30]))
    sec.calculate_geometric_properties()
    kw = {}
    for k in rng.sample(["n", "mxx", "myy", "m11", "m22"], rng.randint(1, 3)):
        kw[k] = rng.uniform(-5, 5)
    try:
        sec.calculate_warping_properties()
        for k in rng.sample(["vx", "vy", "mzz"], rng.randint(1, 3)):
            kw[k] = rng.uniform(-5, 5)
    except (RuntimeError, ValueError):
        pass
    case.info.update(loads=kw)
    return sec, sec.calculate_stress(**kw)


def plots(case):
    from .c36 import NAMES, POINTS, S, VECTORS

    rng = case.rng
    sec, st = stressed(case)
    corners = sec.mesh_elements[:, :3]
    kind = rng.choice(["contour", "contour", "vector", "centroids", "mesh", "warping", "geometry"])
    case.info["kind"] = kind
    if kind == "contour":
        mats = [g.material for g in st.material_groups]
        ref = {d["material"]: d for d in st.get_stress()}
        for name in rng.sample(list(NAMES), 3):
            only = rng.sample(mats, rng.randint(1, len(mats))) if rng.random() < 0.5 else None
            lim = None if rng.random() < 0.7 else (rng.uniform(-20, 0), rng.uniform(1, 20))
            case.info.update(name=name)
            with recorded("tricontourf") as log:
                ax = st.plot_stress(name, material_list=only, stress_limits=lim, render=False)
                case.ensure("title", ax.get_title() == "Stress Contour Plot - " + S + NAMES[name][1] + "}$", ax.get_title())
            gs = [g for g in st.material_groups if only is None or any(g.material is m for m in only)]
            cs = named(log, "tricontourf")
            case.ensure("one contour per material", len(cs) == len(gs))
            values = np.concatenate([getattr(g.stress_result, NAMES[name][0]) for g in gs])
            for g, (_, a, k, mask) in zip(gs, cs):
                case.ensure("elements of the material", all((el.material is g.material or el.material == g.material) == (not mask[i])
                                                          for i, el in enumerate(sec.elements)))
                if len(ref) == len(st.material_groups):
                    case.ensure("stress", np.array_equal(a[1], ref[g.material.name][NAMES[name][0]]))
                case.ensure("triangles", np.array_equal(a[0].triangles, corners) and np.array_equal(a[0].x, sec.mesh_nodes[:, 0])
                            and np.array_equal(a[0].y, sec.mesh_nodes[:, 1]))
                if np.ndim(a[2]) == 1:
                    lo, hi = (values.min(), values.max()) if lim is None else lim
                    tol = 1e-9 * max(abs(lo), abs(hi)) + 2e-12
                    case.ensure("levels", abs(a[2][0] - lo) <= tol and abs(a[2][-1] - hi) <= tol and np.all(np.diff(a[2]) > 0), f"{lo} {hi} {a[2][[0, -1]]}")
                else:
                    case.ensure("levels of a constant", lim is None and np.ptp(values) <= 1e-11 + 2e-5 * np.abs(values).max())
    elif kind == "vector":
        name = rng.choice(list(VECTORS))
        if not any(k in case.info["loads"] for k in ("vx", "vy", "mzz")):
            return
        with recorded("quiver") as log:
            st.plot_stress_vector(name, render=False)
        for g, (_, a, k, _) in zip(st.material_groups, named(log, "quiver")):
            case.ensure("arrows", np.array_equal(a[0], sec.mesh_nodes[:, 0]) and np.array_equal(a[1], sec.mesh_nodes[:, 1])
                        and np.array_equal(a[2], getattr(g.stress_result, VECTORS[name][0]))
                        and np.array_equal(a[3], getattr(g.stress_result, VECTORS[name][1])))
        case.ensure("arrows of every material", len(named(log, "quiver")) == len(st.material_groups))
    elif kind == "centroids":
        if rng.random() < 0.5:
            with contextlib.suppress(RuntimeError, ValueError):
                sec.calculate_plastic_properties()
        with recorded("scatter", "plot") as log:
            sec.plot_centroids(render=False)
        got = {k["label"]: (k.get("x", a[0] if a else None), k.get("y", a[1] if len(a) > 1 else None)) for _, a, k, _ in named(log, "scatter")}
        for label, g in POINTS.items():
            try:
                want = getattr(sec, g)()
            except RuntimeError:
                want = None
            case.ensure(f"{label} drawn exactly when computed", (label in got) == (want is not None))
            if want is not None and label in got:
                case.ensure(label, tuple(got[label]) == tuple(want))
        lines = {k.get("label"): a for _, a, k, _ in named(log, "plot") if k.get("label") in ("11-axis", "22-axis")}
        case.ensure("both axes", len(lines) == 2)
        c, phi = sec.get_c(), math.radians(sec.get_phi())
        for label, d in (("11-axis", (math.cos(phi), math.sin(phi))), ("22-axis", (-math.sin(phi), math.cos(phi)))):
            on_axis(case, label, lines[label][0], lines[label][1], c, d)
    elif kind == "mesh":
        with recorded("triplot", "tripcolor") as log:
            sec.plot_mesh(render=False)
        (_, a, k, _), = named(log, "triplot")
        case.ensure("all elements", np.array_equal(a[0].triangles, corners))
        (_, a, k, _), = named(log, "tripcolor")
        case.ensure("colours", [k["cmap"].colors[i] for i in a[1]] == [e.material.color for e in sec.elements])
    elif kind == "warping":
        if sec.section_props.omega is None:
            try:
                sec.plot_warping_function(render=False)
            except RuntimeError:
                case.ensure("refused", True)
            else:
                case.ensure("refused", False)
            return
        with recorded("tricontourf", "triplot") as log:
            sec.plot_warping_function(render=False)
        case.ensure("mesh over the warping function", [np.array_equal(t[0].triangles, corners) for _, t, _, _ in named(log, "triplot")] == [True])
        (_, a, k, _), = named(log, "tricontourf")
        case.ensure("warping function", np.array_equal(a[1], sec.section_props.omega) and np.array_equal(a[0].triangles, corners))
    else:
        g = sec.geometry
        with recorded("plot", "annotate") as log:
            g.plot_geometry(labels=["points", "holes"], render=False)
        ps = named(log, "plot")
        case.ensure("facets", [list(zip(*a[:2])) for _, a, k, _ in ps[: len(g.facets)]] == [[g.points[i], g.points[j]] for i, j in g.facets])
        case.ensure("holes and control points", [tuple(a[:2]) for _, a, k, _ in ps[len(g.facets):]]
                    == [tuple(p) for p in list(g.holes) + list(g.control_points)])
        case.ensure("numbers", [(a[0], tuple(k["xy"])) for _, a, k, _ in named(log, "annotate")]
                    == [(str(i), tuple(p)) for q in (g.points, g.holes) for i, p in enumerate(q)])


def on_axis(case, label, xs, ys, c, d):
    L = max(1e-12, max(abs(x - c[0]) for x in xs), max(abs(y - c[1]) for y in ys))
    for x, y in zip(xs, ys):
        case.ensure(f"{label} through the centroid at its angle", abs((x - c[0]) * d[1] - (y - c[1]) * d[0]) <= 1e-9 * (L + abs(c[0]) + abs(c[1])),
                    f"{x} {y}")
    case.ensure(f"{label} is a line", len(xs) == 2 and math.hypot(xs[1] - xs[0], ys[1] - ys[0]) > 0)


def axes(case):
    """The principal axes within any window that holds the centroid."""
    import matplotlib

    matplotlib.use("Agg")
    import sectionproperties.post.post as post

    rng = case.rng
    w, h = rng.uniform(0.1, 100), rng.uniform(0.1, 100)
    x0, y0 = rng.uniform(-100, 100), rng.uniform(-100, 100)
    c = (x0 + rng.uniform(0.05, 0.95) * w, y0 + rng.uniform(0.05, 0.95) * h)
    phi = math.radians(rng.choice([0, 90, -90, 180, -180, 45, -135, rng.uniform(-180, 180), rng.uniform(-1e-6, 1e-6)]))
    case.info.update(window=(x0, x0 + w, y0, y0 + h), c=c, phi=phi)
    drawn = []

    class Ax:
        def get_xlim(self):
            return x0, x0 + w

        def get_ylim(self):
            return y0, y0 + h

        def plot(self, xs, ys, *a, **k):
            drawn.append((k.get("label"), xs, ys))

    post.draw_principal_axis(ax=Ax(), phi=phi, cx=c[0], cy=c[1])
    case.ensure("both axes", [d[0] for d in drawn] == ["11-axis", "22-axis"])
    for (label, xs, ys), d in zip(drawn, ((math.cos(phi), math.sin(phi)), (-math.sin(phi), math.cos(phi)))):
        on_axis(case, label, xs, ys, c, d)
        for x, y in zip(xs, ys):
            case.ensure(f"{label} ends at the window", x0 - 1e-6 * w <= x <= x0 + w * (1 + 1e-6) and y0 - 1e-6 * h <= y <= y0 + h * (1 + 1e-6),
                        f"{x} {y}")


def mohr(case):
    """The circles and points of the stress at a point."""
    rng = case.rng
    sec, st = stressed(case)
    el = rng.choice(sec.elements)
    n = sec.mesh_nodes[sec.mesh_elements[el.el_id][:3]]
    u = sorted([rng.random(), rng.random()])
    w = np.array([u[0], u[1] - u[0], 1 - u[1]]) * 0.97 + 0.01
    x, y = (float(v) for v in w @ n)
    case.info.update(point=(x, y))
    gs = [g for g in st.material_groups if el.el_id in set(np.asarray(g.el_ids).tolist())]
    case.ensure("the element's material", len(gs) == 1)
    r = gs[0].stress_result
    ids = sec.mesh_elements[el.el_id][:3]
    szz, sx, sy = (float(w @ v[ids]) for v in (r.sig_zz, r.sig_zx, r.sig_zy))
    with recorded("add_patch", "plot") as log:
        st.plot_mohrs_circles(x, y, render=False)
        # outside
        x1, y1 = sec.mesh_nodes.max(axis=0)
        try:
            st.plot_mohrs_circles(float(x1 + 1), float(y1 + 1), render=False)
        except ValueError:
            case.ensure("refused outside", True)
        else:
            case.ensure("refused outside", False)
    t2 = sx * sx + sy * sy
    d = math.sqrt(szz * szz / 4 + t2)
    p = sorted([szz / 2 + d, 0.0, szz / 2 - d])
    L = max(abs(p[0]), abs(p[2]), 1e-300)
    cs = [(c[1][0].center, c[1][0].radius) for c in named(log, "add_patch") if type(c[1][0]).__name__ == "Circle"][:3]
    case.ensure("three circles", len(cs) == 3)
    for (a, b), ((cx, cy), rad) in zip(((0, 1), (0, 2), (1, 2)), cs):
        case.ensure_eq(f"centre {a}{b}", cx, (p[a] + p[b]) / 2, scale=L, rtol=1e-7)
        case.ensure_eq(f"on the axis {a}{b}", cy, 0.0, scale=L, rtol=1e-7)
        case.ensure_eq(f"radius {a}{b}", rad, (p[b] - p[a]) / 2, scale=L, rtol=1e-7)
    ps = {k["label"]: a for _, a, k, _ in named(log, "plot") if str(k.get("label", "")).endswith("-face")}
    for f, s, t in (("X", 0.0, abs(sx)), ("Y", 0.0, abs(sy)), ("Z", szz, math.sqrt(t2))):
        case.ensure_eq(f"direct stress {f}", float(ps[f + "-face"][0]), s, scale=L, rtol=1e-7)
        case.ensure_eq(f"shear stress {f}", float(ps[f + "-face"][1]), t, scale=L, rtol=1e-6)


def files(case):
    """A figure is saved to the file named, and drawn on the axes given."""
    import os
    import tempfile

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    rng = case.rng
    geom = gen.geometry(rng, rng.choice(["geometric", "composite"]))
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, rng.choice(["Plot.png", "a b.png", "X.PNG", "f.svg"]))
        geom.plot_geometry(filename=name)
        case.ensure("only that file", os.listdir(d) == [os.path.basename(name)] and os.path.getsize(name) > 0)
    fig, (a, b) = plt.subplots(1, 2)
    fig2, other = plt.subplots()
    title = rng.choice(["", "My title", "Cross-Section Geometry"])
    got = geom.plot_geometry(ax=a, title=title, render=False)
    case.ensure("the axes given", got is a and len(a.lines) > 0 and not b.lines and not other.lines)
    case.ensure("title of the axes", a.get_title() == title and b.get_title() == "" and other.get_title() == "")
    got = geom.plot_geometry(nrows=1, ncols=2, axis_index=1, render=False)
    case.ensure("the axes of the index", got is got.figure.axes[1])
    plt.close("all")
