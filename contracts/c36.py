"""C36: plots show the quantity, the points and the mesh they name.

Contracts assumed on matplotlib: `tricontourf(triangulation, values, levels)`, `quiver`, `scatter`, `plot`, `triplot`,
`tripcolor` and `add_patch` draw what they are given; `Triangulation(x, y, triangles, mask)`, `set_mask` (True leaves a
triangle out), `get_trifinder` (-1 outside), `LinearTriInterpolator`. On numpy.linalg: `eig` of a symmetric matrix S gives the
values s and vectors N with S = N diag(s) N^T, and `inv(N)` is N^T."""
from __future__ import annotations

import contextlib

from . import rtplots
from .c21 import patched
from .common import like
from .c24 import mat
from .c25 import need
from .c35 import Val  # noqa: F401
from .seccommon import _fn

S = r"$\sigma_{"
NAMES = {  # name: (attribute, subscript of the title)
    "n_zz": ("sig_zz_n", "zz,N"), "mxx_zz": ("sig_zz_mxx", "zz,Mxx"), "myy_zz": ("sig_zz_myy", "zz,Myy"),
    "m11_zz": ("sig_zz_m11", "zz,M11"), "m22_zz": ("sig_zz_m22", "zz,M22"), "m_zz": ("sig_zz_m", r"zz,\Sigma M"),
    "mzz_zx": ("sig_zx_mzz", "zx,Mzz"), "mzz_zy": ("sig_zy_mzz", "zy,Mzz"), "mzz_zxy": ("sig_zxy_mzz", "zxy,Mzz"),
    "vx_zx": ("sig_zx_vx", "zx,Vx"), "vx_zy": ("sig_zy_vx", "zy,Vx"), "vx_zxy": ("sig_zxy_vx", "zxy,Vx"),
    "vy_zx": ("sig_zx_vy", "zx,Vy"), "vy_zy": ("sig_zy_vy", "zy,Vy"), "vy_zxy": ("sig_zxy_vy", "zxy,Vy"),
    "v_zx": ("sig_zx_v", r"zx,\Sigma V"), "v_zy": ("sig_zy_v", r"zy,\Sigma V"), "v_zxy": ("sig_zxy_v", r"zxy,\Sigma V"),
    "zz": ("sig_zz", "zz"), "zx": ("sig_zx", "zx"), "zy": ("sig_zy", "zy"), "zxy": ("sig_zxy", "zxy"),
    "11": ("sig_11", "11"), "33": ("sig_33", "33"), "vm": ("sig_vm", "vM"),
}
VECTORS = {"mzz_zxy": ("sig_zx_mzz", "sig_zy_mzz"), "vx_zxy": ("sig_zx_vx", "sig_zy_vx"), "vy_zxy": ("sig_zx_vy", "sig_zy_vy"),
           "v_zxy": ("sig_zx_v", "sig_zy_v"), "zxy": ("sig_zx", "sig_zy")}


def obj(**kw):
    x = type("O", (), {"__pydv_obj__": True})()
    for k, v in kw.items():
        setattr(x, k, v)
    return x


class Vec(list):
    """An array of a few values, known by its name."""

    def __init__(self, name, items):
        super().__init__(items)
        self.name = name


class Rec:
    """Anything of matplotlib: every call is recorded."""

    __pydv_obj__ = True

    def __init__(self, log, name=""):
        self.__dict__["log"], self.__dict__["name"] = log, name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Rec(self.log, f"{self.name}.{n}" if self.name else n)

    def __setattr__(self, n, v):
        pass

    def __getitem__(self, n):
        return Rec(self.log, f"{self.name}[{n}]")

    def __iter__(self):
        raise TypeError("not iterable")

    def __call__(self, *a, **k):
        self.log.append((self.name, a, k))
        return Rec(self.log, self.name + "()")

    def __bool__(self):
        return True


class Column:
    __pydv_obj__ = True

    def __init__(self, of, k):
        self.of, self.k = of, k

    def __eq__(self, o):
        return isinstance(o, Column) and (self.of, self.k) == (o.of, o.k)

    __hash__ = None


class Table:
    """A two-dimensional array, whose columns are taken."""

    __pydv_obj__ = True

    def __init__(self, name):
        self.name = name

    def __getitem__(self, s):
        need(isinstance(s, tuple) and s[0] == slice(None), "use of the mesh's arrays")
        k = s[1]
        return Column(self.name, (k.start or 0, k.stop) if isinstance(k, slice) else k)


class Tri:
    """A triangulation with its current mask."""

    __pydv_obj__ = True
    ctx = None

    def __init__(self, x=None, y=None, triangles=None, mask=None, **k):
        c = Tri.ctx
        c.ensure("triangulation of the mesh's nodes", x == Column("nodes", 0) and y == Column("nodes", 1))
        c.ensure("triangulation by the corners", triangles == Column("elements", (0, 3)))
        self.mask = mask

    def set_mask(self, m):
        self.mask = m

    def get_trifinder(self):
        m = self.mask
        return lambda x, y: Tri.find(m, x, y)


class Mask:
    __pydv_obj__ = True

    def __init__(self):
        self.shown = []

    def __setitem__(self, ids, v):
        need(v is False or v == False, "mask")  # noqa: E712
        self.shown.append(ids)


class Levels:
    __pydv_obj__ = True

    def __init__(self, start, stop):
        self.ends = start, stop

    def __getitem__(self, i):
        need(i in (0, -1), "levels")
        return self.ends[i]


class NP:
    __pydv_obj__ = True
    float64 = float

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True):
        return Levels(start, stop)

    @staticmethod
    def isclose(a, b, atol=0, rtol=0):
        return _fn("levels_coincide") > 0

    @staticmethod
    def ones(shape, dtype=None):
        Tri.ctx.ensure("mask of all elements", shape == 17 or shape == (17,))
        return Mask()

    @staticmethod
    def hypot(a, b):
        return Vec(("hypot", a.name, b.name), [_fn(f"hyp{a.name}{b.name}{k}") for k in range(2)])


def module():
    import sectionproperties.post.stress_post as sp

    return sp


def setting(ctx, groups):
    sp = module()
    log = []
    sec = obj(mesh_nodes=Table("nodes"), mesh_elements=Table("elements"), elements=[0] * 17)
    sec.plot_mesh = Rec(log, "plot_mesh")
    gs = []
    for k in range(groups):
        r = obj(**{a: Vec((a, k), [_fn(f"{a}_{k}_{i}") for i in range(2)]) for a, _ in NAMES.values()})
        gs.append(obj(material=mat(f"m{k}"), el_ids=("elements of", k), stress_result=r))
    x = like(obj(section=sec, material_groups=gs), sp.StressPost)
    titles = []
    ax, fig = Rec(log, "ax"), Rec(log, "fig")

    @contextlib.contextmanager
    def plotting_context(title="", **kw):
        titles.append((title, kw))
        yield (fig, ax)

    Tri.ctx = ctx
    patches = dict(post=obj(plotting_context=plotting_context), mpl=Rec(log, "mpl"), np=NP, CenteredNorm=Rec(log, "CenteredNorm"),
                   make_axes_locatable=Rec(log, "divider"), tri=obj(Triangulation=Tri))
    return sp, x, gs, log, titles, ax, patches


def calls(log, name):
    return [c for c in log if c[0] == name]


def contour(ctx, names, groups, only=None, limits=None, title=None):
    for name in names:
        sp, x, gs, log, titles, ax, patches = setting(ctx, groups)
        masks = []
        draw = ax.tricontourf

        class Ax(Rec):
            def __getattr__(self, n):
                if n == "tricontourf":
                    def f(t, *a, **k):
                        masks.append(t.mask)
                        return draw(t, *a, **k)
                    return f
                return Rec.__getattr__(self, n)

        a = Ax(log, "ax")
        ctxm = patches["post"].plotting_context

        @contextlib.contextmanager
        def pc(**kw):
            with ctxm(**kw) as (fig, _):
                yield fig, a

        patches["post"] = obj(plotting_context=pc)
        kw = {}
        if only is not None:
            kw["material_list"] = [gs[k].material for k in only]
        if limits:
            kw["stress_limits"] = limits
        if title:
            kw["title"] = title
        with patched(sp, **patches):
            got = sp.StressPost.plot_stress(x, name, **kw)
        ctx.ensure("axes returned", got is a)
        attr, sub = NAMES[name]
        show = [k for k in range(groups) if not only or k in only]
        cs = calls(log, "ax.tricontourf")
        ctx.ensure(f"{name}: one contour per material", len(cs) == len(show) == len(masks))
        for k, (_, args, _), m in zip(show, cs, masks):
            ctx.ensure(f"{name}: stress of material {k}", args[1] is getattr(gs[k].stress_result, attr))
            ctx.ensure(f"{name}: on its elements", m.shown == [gs[k].el_ids])
            lv = args[2]
            if isinstance(lv, Levels):
                vals = [v for j in show for v in getattr(gs[j].stress_result, attr)]
                if limits:
                    ctx.ensure_eq(f"{name}: lowest level", lv.ends[0], limits[0])
                    ctx.ensure_eq(f"{name}: highest level", lv.ends[1], limits[1])
                else:
                    for v in vals:
                        ctx.ensure(f"{name}: levels reach down", lv.ends[0] <= v)
                        ctx.ensure(f"{name}: levels reach up", lv.ends[1] >= v)
            else:
                ctx.ensure(f"{name}: number of levels", lv == 15)
        want = title or "Stress Contour Plot - " + S + sub + "}$"
        ctx.ensure(f"{name}: title", titles[0][0] == want)
        ctx.ensure(f"{name}: mesh drawn", len(calls(log, "plot_mesh")) == 1 and calls(log, "plot_mesh")[0][2].get("ax") is a)


def contours(ctx):
    contour(ctx, NAMES, 2)


def contours_of_materials(ctx):
    contour(ctx, ["zz", "vm", "vy_zx"], 3, only=[1])
    contour(ctx, ["zz"], 3, only=[0, 2])
    contour(ctx, ["zx"], 2, only=[])


def contours_limited(ctx):
    contour(ctx, ["zz"], 2, limits=(ctx.real("lo"), ctx.real("hi")), title="My title")


def vectors(ctx):
    for name, (ax_, ay_) in VECTORS.items():
        sp, x, gs, log, titles, ax, patches = setting(ctx, 2)
        drawn = []

        class Quiver:
            __pydv_obj__ = True

            def __init__(self, k):
                self.scale = [1.0, 3.0][k]

            def _init(self):
                pass

        class Ax(Rec):
            def __getattr__(self, n):
                if n == "quiver":
                    def f(*a, **k):
                        q = Quiver(len(drawn))
                        drawn.append((a, q))
                        return q
                    return f
                return Rec.__getattr__(self, n)

        a = Ax(log, "ax")

        @contextlib.contextmanager
        def pc(title="", **kw):
            titles.append(title)
            yield Rec(log, "fig"), a

        patches["post"] = obj(plotting_context=pc)
        with patched(sp, **patches):
            got = sp.StressPost.plot_stress_vector(x, name)
        ctx.ensure("axes returned", got is a)
        ctx.ensure(f"{name}: arrows of every material", len(drawn) == 2)
        for k, (args, q) in enumerate(drawn):
            r = gs[k].stress_result
            ctx.ensure(f"{name}: at the nodes", args[0] == Column("nodes", 0) and args[1] == Column("nodes", 1))
            ctx.ensure(f"{name}: x", args[2] is getattr(r, ax_))
            ctx.ensure(f"{name}: y", args[3] is getattr(r, ay_))
            ctx.ensure(f"{name}: colour by the length", args[4].name == ("hypot", (ax_, k), (ay_, k)))
            ctx.ensure(f"{name}: one scale", q.scale == 3.0)
        ticks = [k["ticks"] for _, _, k in calls(log, "fig.colorbar") if isinstance(k.get("ticks"), Levels)]
        for t in ticks:
            for q in drawn:
                for v in q[0][4]:
                    ctx.ensure(f"{name}: colours reach down", t.ends[0] <= v)
                    ctx.ensure(f"{name}: colours reach up", t.ends[1] >= v)
        ctx.ensure(f"{name}: title", titles[0] == "Stress Vector Plot - " + S + NAMES[name][1] + "}$")


# ------------------------------------------------------------------ Mohr's circles
class Entry:
    __pydv_obj__ = True

    def __init__(self, v):
        self.v = v

    def item(self):
        return self.v


class Inv:
    """The inverse of the matrix of eigenvectors: its columns."""

    __pydv_obj__ = True

    def __getitem__(self, s):
        need(isinstance(s, tuple) and s[0] == slice(None), "use of the eigenvectors")
        return Col(s[1])


class Col:
    __pydv_obj__ = True

    def __init__(self, c, scaled=False, row=False):
        self.c, self.scaled, self.row = c, scaled, row

    @property
    def T(self):
        return Col(self.c, self.scaled, True)

    def __matmul__(self, o):
        if isinstance(o, Diag):
            need(not self.scaled, "product")
            return Col(self.c, True, True)
        need(isinstance(o, Col) and self.scaled != o.scaled, "product")
        return MohrNP.sigma[self.c][o.c]  # n_c^T diag(s) n_d, by S = N diag(s) N^T


class Diag:
    __pydv_obj__ = True

    def __matmul__(self, o):
        need(isinstance(o, Col) and not o.scaled, "product")
        return Col(o.c, True)


class Norm:
    """|diag(s) n_c|, the root of (S S)_cc."""

    __pydv_obj__ = True

    def __init__(self, c):
        self.c = c

    def __pow__(self, k):
        need(k == 2, "power of a norm")
        s = MohrNP.sigma
        return sum(s[self.c][j] * s[self.c][j] for j in range(3))

    def __mul__(self, o):
        need(isinstance(o, Norm) and o.c == self.c, "product of norms")
        return self ** 2


class linalg:
    __pydv_obj__ = True

    @staticmethod
    def eig(a):
        need(a is MohrNP.array_, "matrix")
        return "values", "vectors"

    eigh = eig

    @staticmethod
    def inv(n):
        need(n == "vectors", "inverse")
        return Inv()

    @staticmethod
    def norm(v):
        need(isinstance(v, Col) and v.scaled, "norm")
        return Norm(v.c)


class MohrNP(NP):
    linalg = linalg
    sigma, sorted_, array_ = None, None, None

    @staticmethod
    def array(rows, dtype=None):
        MohrNP.sigma = rows
        MohrNP.array_ = obj(rows=rows)
        return MohrNP.array_

    @staticmethod
    def sort(s):
        need(s == "values", "sorted values")
        return MohrNP.sorted_

    @staticmethod
    def diag(s):
        need(s == "values", "diagonal")
        return Diag()

    @staticmethod
    def sqrt(v):
        from pydv import npx

        return npx.sqrt(v)


def mohr(ctx):
    from pydv import seqs  # noqa: F401

    for where in (0, 1, None):  # the material that holds the point, or none
        sp, x, gs, log, titles, ax, patches = setting(ctx, 2)
        px, py = ctx.real("px"), ctx.real("py")
        vals = {}

        def find(mask, u, v, where=where):
            ctx.ensure_eq("looked up x", u, px)
            ctx.ensure_eq("looked up y", v, py)
            need(isinstance(mask, Mask) and len(mask.shown) == 1, "mask of the elements looked through")
            return 5 * where if mask.shown[0] == ("elements of", where) else -1  # element numbers start at 0

        Tri.find = staticmethod(find)

        def interpolator(t, sig):
            ctx.ensure("all elements interpolate", t.mask is None or t.mask.shown == [("elements of", where)])
            return lambda u, v: Entry(vals.setdefault(sig.name, _fn("at_" + "_".join(map(str, sig.name)))))

        patches["tri"] = obj(Triangulation=Tri, LinearTriInterpolator=interpolator)
        patches["np"] = MohrNP
        patches["Circle"] = Rec(log, "Circle")
        t = MohrNP.sorted_ = [ctx.real(f"principal{k}") for k in range(3)]
        with patched(sp, **patches):
            try:
                sp.StressPost.plot_mohrs_circles(x, px, py)
            except ValueError:
                ctx.ensure("refused outside the mesh", where is None)
                continue
        ctx.ensure("refused outside the mesh", where is not None)
        szz, sxz, syz = (_fn(f"at_{a}_{where}") for a in ("sig_zz", "sig_zx", "sig_zy"))
        m = MohrNP.sigma
        for i in range(3):
            for j in range(3):
                w = {(2, 2): szz, (0, 2): sxz, (2, 0): sxz, (1, 2): syz, (2, 1): syz}.get((i, j), 0)
                ctx.ensure_eq(f"stress tensor {i}{j}", m[i][j], w)
        cs = calls(log, "Circle")
        ctx.ensure("three circles", len(cs) == 3 and len(calls(log, "ax.add_patch")) == 3)
        for (a, b), (_, args, kw) in zip(((0, 1), (0, 2), (1, 2)), cs):
            ctx.ensure_eq(f"centre of circle {a}{b}", args[0][0], (t[a] + t[b]) / 2)
            ctx.ensure_eq(f"centre of circle {a}{b} on the axis", args[0][1], 0)
            ctx.ensure_eq(f"radius of circle {a}{b}", args[1], (t[b] - t[a]) / 2)
        ps = [c for c in calls(log, "ax.plot")]
        ctx.ensure("three faces", len(ps) == 3)
        for k, (face, (_, args, kw)) in enumerate(zip("XYZ", ps)):
            ctx.ensure(f"label of face {face}", kw.get("label") == f"{face}-face")
            direct, shear2 = [(0, sxz * sxz), (0, syz * syz), (szz, sxz * sxz + syz * syz)][k]
            ctx.ensure_eq(f"direct stress of face {face}", args[0], direct)
            ctx.ensure_eq(f"shear stress of face {face}", args[1] * args[1], shear2)


# ------------------------------------------------------------------ plots of the section
def section_setting(ctx):
    import sectionproperties.analysis.section as s

    log, titles = [], []
    ax = Rec(log, "ax")

    @contextlib.contextmanager
    def plotting_context(title="", **kw):
        titles.append(title)
        yield Rec(log, "fig"), ax

    Tri.ctx = ctx
    axes = []
    post = obj(plotting_context=plotting_context, draw_principal_axis=lambda ax, phi, cx, cy: axes.append((phi, cx, cy)))
    x = like(obj(mesh_nodes=Table("nodes"), mesh_elements=Table("elements")), s.Section)
    x.plot_mesh = Rec(log, "plot_mesh")
    return s, x, log, titles, ax, axes, dict(post=post, tri=obj(Triangulation=Tri), mpatches=Rec(log, "mpatches"), ListedColormap=Rec(log, "cmap"))


POINTS = {"Elastic centroid": "get_c", "Shear centre": "get_sc", "Global plastic centroid": "get_pc", "Principal plastic centroid": "get_pc_p"}


def centroids(ctx):
    getters = ["get_c", "get_sc", "get_pc", "get_pc_p", "get_phi"]
    for missing in [set()] + [{g} for g in getters] + [set(getters), {"get_sc", "get_pc", "get_pc_p"}]:
        s, x, log, titles, ax, axes, patches = section_setting(ctx)
        for g in getters:
            def get(g=g):
                if g in missing:
                    raise RuntimeError("not computed")
                return _fn(g) if g == "get_phi" else (_fn(g + "_x"), _fn(g + "_y"))

            setattr(x, g, get)
        with patched(s, **patches):
            got = s.Section.plot_centroids(x)
        ctx.ensure("axes returned", got is ax)
        sc = {c[2].get("label"): c for c in calls(log, "ax.scatter")}
        ctx.ensure("no other points", set(sc) <= set(POINTS) and len(sc) == len(calls(log, "ax.scatter")))
        for label, g in POINTS.items():
            ctx.ensure(f"'{label}' drawn exactly when computed", (label in sc) == (g not in missing))
            if label in sc and g not in missing:
                _, a, k = sc[label]
                p = (a[0] if a else k["x"], a[1] if len(a) > 1 else k["y"])
                ctx.ensure_eq(f"'{label}' x", p[0], _fn(g + "_x"))
                ctx.ensure_eq(f"'{label}' y", p[1], _fn(g + "_y"))
        ok = not missing & {"get_phi", "get_c"}
        ctx.ensure("principal axes drawn exactly when computed", (len(axes) == 1) == ok)
        if axes:
            from pydv import npx

            ctx.ensure_eq("angle of the principal axes", axes[0][0] * 180, _fn("get_phi") * npx.pi)
            ctx.ensure_eq("through the centroid x", axes[0][1], _fn("get_c_x"))
            ctx.ensure_eq("through the centroid y", axes[0][2], _fn("get_c_y"))
        ctx.ensure("mesh drawn", len(calls(log, "plot_mesh")) == 1)


def mesh(ctx):
    for materials in (True, False):
        s, x, log, titles, ax, axes, patches = section_setting(ctx)
        ms = [obj(color=f"c{k}", name=f"n{k}") for k in range(2)]
        x.materials = [ms[0], ms[1], ms[0]]
        x.elements = [obj(material=ms[k]) for k in (0, 1, 1, 0, 1)]
        mask = object()
        with patched(s, **patches):
            got = s.Section.plot_mesh(x, materials=materials, mask=mask)
        ctx.ensure("axes returned", got is ax)
        lines = calls(log, "ax.triplot")
        ctx.ensure("elements drawn", len(lines) == 1 and isinstance(lines[0][1][0], Tri) and lines[0][1][0].mask is mask)
        fill = calls(log, "ax.tripcolor")
        ctx.ensure("coloured as asked", len(fill) == (1 if materials else 0))
        if materials:
            col = calls(log, "cmap")[0]
            colours = col[1][0] if col[1] else col[2]["colors"]
            ctx.ensure("each element in its material's colour", [colours[i] for i in fill[0][1][1]] == ["c0", "c1", "c1", "c0", "c1"])
            legend = [(c[2].get("color"), c[2].get("label")) for c in calls(log, "mpatches.Patch")]
            ctx.ensure("every material in the legend", legend == [("c0", "n0"), ("c1", "n1")])


def warping(ctx):
    for lines in (True, False):
        s, x, log, titles, ax, axes, patches = section_setting(ctx)
        x.section_props = obj(omega=Vec("omega", [0, 1]))
        with patched(s, **patches):
            got = s.Section.plot_warping_function(x, with_lines=lines)
            ctx.ensure("axes returned", got is ax)
            f = calls(log, "ax.tricontourf")
            ctx.ensure("warping function", len(f) == 1 and f[0][1][1] is x.section_props.omega)
            c = calls(log, "ax.tricontour")
            ctx.ensure("contour lines", len(c) == (1 if lines else 0) and all(k[1][1] is x.section_props.omega for k in c))
            m = calls(log, "plot_mesh")
            ctx.ensure("mesh drawn on the same axes", len(m) == 1 and m[0][2].get("ax") is ax)
            x.section_props.omega = None
            try:
                s.Section.plot_warping_function(x)
            except RuntimeError:
                ctx.ensure("refused before a warping analysis", True)
            else:
                ctx.ensure("refused before a warping analysis", False)


def geometry(ctx):
    import sectionproperties.pre.geometry as g

    log = []
    ax = Rec(log, "ax")

    @contextlib.contextmanager
    def plotting_context(title="", **kw):
        yield Rec(log, "fig"), ax

    P = [(ctx.real(f"x{k}"), ctx.real(f"y{k}")) for k in range(4)]
    F = [(0, 1), (1, 2), (2, 0), (3, 0)]
    H = [(ctx.real("hx"), ctx.real("hy"))]
    C = [(ctx.real("cx"), ctx.real("cy")), (ctx.real("dx"), ctx.real("dy"))]
    for labels, cp in ((("control_points",), True), (("points", "facets", "holes"), True), ((), False)):
        log.clear()
        x = like(obj(points=P, facets=F, holes=H, control_points=C), g.Geometry)
        with patched(g, post=obj(plotting_context=plotting_context)):
            got = g.Geometry.plot_geometry(x, labels=labels, cp=cp)
        ctx.ensure("axes returned", got is ax)
        ps = calls(log, "ax.plot")
        ctx.ensure("as many lines and points", len(ps) == len(F) + len(H) + (len(C) if cp else 0))
        for k, (a, b) in enumerate(F):
            (xa, xb), (ya, yb) = ps[k][1][:2]
            for n, u, v in (("x1", xa, P[a][0]), ("x2", xb, P[b][0]), ("y1", ya, P[a][1]), ("y2", yb, P[b][1])):
                ctx.ensure_eq(f"facet {k} {n}", u, v)
        for k, p in enumerate(H + (C if cp else [])):
            ctx.ensure_eq(f"point {k} x", ps[len(F) + k][1][0], p[0])
            ctx.ensure_eq(f"point {k} y", ps[len(F) + k][1][1], p[1])
        an = calls(log, "ax.annotate")
        want = []
        for l in labels:
            want += [(str(i), p) for i, p in enumerate(
                {"control_points": C, "points": P, "holes": H}.get(l) or [((P[a][0] + P[b][0]) / 2, (P[a][1] + P[b][1]) / 2) for a, b in F])]
        ctx.ensure("as many labels", len(an) == len(want))
        for (_, a, k), (text, p) in zip(an, want):
            ctx.ensure("number", (a[0] if a else k["text"]) == text)
            q = a[1] if len(a) > 1 else k["xy"]
            ctx.ensure_eq("label x", q[0], p[0])
            ctx.ensure_eq("label y", q[1], p[1])


# ------------------------------------------------------------------ the figure, and the principal axes
class Grid:
    """An array of axes."""

    __pydv_obj__ = True
    ndim = 2

    def __init__(self, log):
        self.log = log

    def __getitem__(self, i):
        if not (isinstance(i, tuple) and len(i) == 2 and all(0 <= k < 2 for k in i)):
            raise IndexError(i)
        return Rec(self.log, f"ax{i[0]}{i[1]}")


def figure(ctx):
    """plotting_context: what is drawn, where, and what happens to the figure afterwards."""
    import sectionproperties.post.post as post

    for given, grid, kw in [
        (False, False, {}), (False, False, dict(render=False)), (False, False, dict(pause=False)), (False, False, dict(filename="F.png")),
        (False, False, dict(filename="F.png", render=True, pause=False)), (True, False, {}), (True, False, dict(render=False)),
        (True, False, dict(filename="F.png")), (False, True, {}), (False, True, dict(axis_index=(0, 1))), (False, True, dict(axis_index=(1, 0))),
        (False, True, dict(axis_index=(5, 0))), (False, False, dict(figsize=(3, 4)))]:
        log = []
        name = f"{'given axes' if given else 'axes of a grid' if grid else 'new axes'} {kw}"

        class Axes(Rec):
            @property
            def ndim(self):
                raise AttributeError("ndim")

            def __getitem__(self, i):
                raise TypeError("not subscriptable")

        fig = Rec(log, "fig")
        single = Axes(log, "ax")

        class Plt(Rec):
            def __getattr__(self, n):
                if n == "subplots":
                    def f(**k):
                        log.append(("plt.subplots", (), k))
                        return fig, Grid(log) if grid else single
                    return f
                return Rec.__getattr__(self, n)

        mine = Axes(log, "mine")
        with patched(post, plt=Plt(log, "plt")):
            try:
                with post.plotting_context(ax=mine if given else None, title="T", **kw) as (f, a):
                    at = len(log)
                    if given:
                        ctx.ensure(name + ": the axes given", a is mine and f.name == "mine.get_figure()")
                    else:
                        i = kw.get("axis_index", (0, 0))
                        right = f is fig and (getattr(a, "name", None) == f"ax{i[0]}{i[1]}" if grid else a is single)
                        ctx.ensure(name + ": the new axes", right)
                        if not right:
                            raise KeyError
                    log.append(("drawn", (), {}))
            except ValueError:
                ctx.ensure(name + ": refused", kw.get("axis_index") == (5, 0))
                continue
            except KeyError:
                continue
        ctx.ensure(name + ": refused", kw.get("axis_index") != (5, 0))
        before, after = log[:at], log[at + 1:]
        ctx.ensure(name + ": a figure when there are no axes", [k for n, _, k in before if n == "plt.subplots"]
                   == ([] if given else [{k: v for k, v in kw.items() if k == "figsize"}]))
        done = [n for n, _, _ in after]
        ctx.ensure(name + ": title", [a for n, a, _ in after if n.endswith(".set_title")] == [("T",)])
        ctx.ensure(name + ": equal scales", [c[:1] for n, c, _ in after if n.endswith(".set_aspect")] == [("equal",)])
        saved = [a[0] for n, a, _ in after if n == "fig.savefig"]
        ctx.ensure(name + ": saved to the file", saved == (["F.png"] if kw.get("filename") and not given else []))
        shown = "plt.show" in done or "plt.draw" in done
        ctx.ensure(name + ": shown unless told otherwise", shown == (not given and not kw.get("filename") and kw.get("render", True)))
        if shown:
            ctx.ensure(name + ": waits", ("plt.show" in done) == kw.get("pause", True))
        for end in ("fig.savefig", "plt.show", "plt.draw"):
            if end in done:
                ctx.ensure(name + ": title before the figure is finished", [n.endswith(".set_title") for n in done].index(True) < done.index(end))
        ctx.ensure(name + ": nothing finished before it is drawn", not any(n in ("fig.savefig", "plt.show", "plt.draw", "plt.close") for n, _, _ in before))


def principal_axes(ctx):
    """draw_principal_axis: two lines through the centroid at the angle, ending where they leave the window."""
    import sectionproperties.post.post as post

    x0, y0, w, h = ctx.real("x0"), ctx.real("y0"), ctx.pos("w"), ctx.pos("h")
    u, v = ctx.pos("u"), ctx.pos("v")
    ctx.assume(u < w)
    ctx.assume(v < h)
    phi = ctx.real("phi")
    cx, cy = x0 + u, y0 + v
    lines = []
    ax = obj(get_xlim=lambda: (x0, x0 + w), get_ylim=lambda: (y0, y0 + h), plot=lambda xs, ys, *a, **k: lines.append((k.get("label"), xs, ys)))
    post.draw_principal_axis(ax=ax, phi=phi, cx=cx, cy=cy)
    from pydv import npx

    c, s = npx.cos(phi), npx.sin(phi)
    ctx.ensure("both axes", [n for n, _, _ in lines] == ["11-axis", "22-axis"])
    for (name, xs, ys), (dx, dy) in zip(lines, ((c, s), (-s, c))):
        ctx.ensure(name + " is a line", len(xs) == 2 and len(ys) == 2)
        for k in (0, 1):
            ctx.ensure_eq(f"{name} through the centroid at its angle", (xs[k] - cx) * dy, (ys[k] - cy) * dx)
            ctx.ensure(f"{name} within the window", xs[k] >= x0)
            ctx.ensure(f"{name} within the window", xs[k] <= x0 + w)
            ctx.ensure(f"{name} within the window", ys[k] >= y0)
            ctx.ensure(f"{name} within the window", ys[k] <= y0 + h)


SYMBOLIC = [figure, principal_axes, contours, contours_of_materials, contours_limited, vectors, mohr, centroids, mesh, warping, geometry]
RUNTIME = [("plots", rtplots.plots, 48, 400), ("mohr", rtplots.mohr, 24, 250), ("files", rtplots.files, 12, 100), ("principal axes", rtplots.axes, 150, 2000)]
