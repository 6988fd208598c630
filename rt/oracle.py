"""Independent reference for section analyses, used by the run-time contracts.

Everything here is computed from the mesh (vertices and triangles) and the region polygons alone;
no code of sectionproperties.analysis is used.  Triangles are straight-sided; mid-side nodes are
associated by their coordinates.
"""
from __future__ import annotations

import numpy as np

PTS4 = np.array([[1 / 3, 1 / 3, 1 / 3], [0.6, 0.2, 0.2], [0.2, 0.6, 0.2], [0.2, 0.2, 0.6]])
W4 = np.array([-27 / 48, 25 / 48, 25 / 48, 25 / 48])


def gauss_triangle(n=5):
    """Conical product rule, exact to degree 2n-2 (an independent, high-order rule)."""
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    pts, wts = [], []
    for i in range(n):
        for j in range(n):
            u, v = x[i], x[j] * (1 - x[i])
            pts.append((1 - u - v, u, v))
            wts.append(w[i] * w[j] * (1 - x[i]) * 2)
    return np.array(pts), np.array(wts)


PTS, WTS = gauss_triangle(5)


def shape(L):
    a, b, c = L[:, 0], L[:, 1], L[:, 2]
    return np.array([a * (2 * a - 1), b * (2 * b - 1), c * (2 * c - 1), 4 * a * b, 4 * b * c, 4 * c * a]).T


def dshape(L):
    """d N_i / d L_k : (p, 6, 3)"""
    a, b, c = L[:, 0], L[:, 1], L[:, 2]
    z = 0 * a
    rows = [
        [4 * a - 1, z, z], [z, 4 * b - 1, z], [z, z, 4 * c - 1],
        [4 * b, 4 * a, z], [z, 4 * c, 4 * b], [4 * c, z, 4 * a],
    ]
    return np.array(rows).transpose(2, 0, 1)


def rot(phi, x, y):
    p = np.deg2rad(phi)
    return x * np.cos(p) + y * np.sin(p), y * np.cos(p) - x * np.sin(p)


class Mesh:
    """Nodes and six-noded triangles (corner, corner, corner, mid01, mid12, mid20)."""

    def __init__(self, mesh):
        self.xy = np.array(mesh["vertices"], dtype=float)
        raw = np.array(mesh["triangles"], dtype=int)
        tri = raw.copy()
        P = self.xy[raw[:, :3]]
        scale = np.abs(P - P.mean(axis=1, keepdims=True)).max(axis=(1, 2))
        for k, (i, j) in enumerate([(0, 1), (1, 2), (2, 0)]):
            mid = (P[:, i] + P[:, j]) / 2
            d = np.abs(self.xy[raw[:, 3:]] - mid[:, None, :]).max(axis=2)
            pick = d.argmin(axis=1)
            self.mid_error = max(getattr(self, "mid_error", 0.0), float((d.min(axis=1) / scale).max()))
            tri[:, 3 + k] = raw[np.arange(len(raw)), 3 + pick]
        self.tri = tri
        self.P = self.xy[tri[:, :3]]
        v1, v2 = self.P[:, 1] - self.P[:, 0], self.P[:, 2] - self.P[:, 0]
        self.area = 0.5 * (v1[:, 0] * v2[:, 1] - v1[:, 1] * v2[:, 0])
        self.tags = np.array(mesh["triangle_attributes"], dtype=float).reshape(len(raw), -1)[:, 0].astype(int)
        self.centroid = self.P.mean(axis=1)


def regions_of(geometry):
    from sectionproperties.pre.geometry import CompoundGeometry

    return list(geometry.geoms) if isinstance(geometry, CompoundGeometry) else [geometry]


def region_index(mesh, regions):
    """Region containing each element's centroid (independent of the mesh attributes)."""
    import shapely

    pts = shapely.points(mesh.centroid)
    out = np.full(len(pts), -1)
    for i, r in enumerate(regions):
        inside = shapely.intersects(r.geom, pts)
        out[inside & (out < 0)] = i
    return out


class Model:
    def __init__(self, geometry, mesh=None, by="polygon"):
        self.geometry = geometry
        self.regions = regions_of(geometry)
        self.m = Mesh(mesh if mesh is not None else geometry.mesh)
        self.reg = region_index(self.m, self.regions) if by == "polygon" else self.m.tags
        self.mats = [r.material for r in self.regions]
        mats = [self.mats[i] for i in self.reg]
        self.elmat = mats
        self.E = np.array([q.elastic_modulus for q in mats], float)
        self.nu = np.array([q.poissons_ratio for q in mats], float)
        self.G = self.E / (2 * (1 + self.nu))
        self.rho = np.array([q.density for q in mats], float)
        self.fy = np.array([q.yield_strength for q in mats], float)
        from sectionproperties.pre.pre import DEFAULT_MATERIAL

        self.composite = any(q != DEFAULT_MATERIAL for q in self.mats)
        self._geometric()

    # ------------------------------------------------------------------ geometric
    def integ(self, f, w=None):
        """Sum over elements of weight * integral of f(x, y), exact for polynomials to degree 8."""
        P = self.m.P
        x = np.einsum("pk,ek->ep", PTS, P[:, :, 0])
        y = np.einsum("pk,ek->ep", PTS, P[:, :, 1])
        v = np.einsum("ep,p->e", np.broadcast_to(f(x, y), x.shape), WTS) * self.m.area
        return float((v if w is None else v * w).sum())

    def _geometric(self):
        s, E = self, self.E
        # centred first, so that large offsets do not spoil the reference
        s.area = self.m.area.sum()
        s.mass = (self.m.area * self.rho).sum()
        s.ea = (self.m.area * E).sum()
        s.ga = (self.m.area * self.G).sum()
        s.qx = self.integ(lambda x, y: y, E)
        s.qy = self.integ(lambda x, y: x, E)
        s.ixx_g = self.integ(lambda x, y: y * y, E)
        s.iyy_g = self.integ(lambda x, y: x * x, E)
        s.ixy_g = self.integ(lambda x, y: x * y, E)
        s.cx, s.cy = s.qy / s.ea, s.qx / s.ea
        cx, cy = s.cx, s.cy
        s.ixx = self.integ(lambda x, y: (y - cy) ** 2, E)
        s.iyy = self.integ(lambda x, y: (x - cx) ** 2, E)
        s.ixy = self.integ(lambda x, y: (x - cx) * (y - cy), E)
        d = np.sqrt(((s.ixx - s.iyy) / 2) ** 2 + s.ixy**2)
        s.i11, s.i22 = (s.ixx + s.iyy) / 2 + d, (s.ixx + s.iyy) / 2 - d
        s.anisotropy = 2 * d / s.i11
        s.nu_eff = s.ea / (2 * s.ga) - 1
        s.e_eff, s.g_eff = s.ea / s.area, s.ga / s.area
        s.rx, s.ry = np.sqrt(s.ixx / s.ea), np.sqrt(s.iyy / s.ea)
        s.r11, s.r22 = np.sqrt(s.i11 / s.ea), np.sqrt(s.i22 / s.ea)
        s.size = np.abs(self.m.xy - [cx, cy]).max()

    def inertia_in(self, phi):
        """(I11, I22, I12) about centroidal axes turned by phi."""
        cx, cy = self.cx, self.cy

        def r(x, y):
            return rot(phi, x - cx, y - cy)

        return (
            self.integ(lambda x, y: r(x, y)[1] ** 2, self.E),
            self.integ(lambda x, y: r(x, y)[0] ** 2, self.E),
            self.integ(lambda x, y: r(x, y)[0] * r(x, y)[1], self.E),
        )

    def section_moduli(self, phi):
        x, y = self.m.xy[:, 0] - self.cx, self.m.xy[:, 1] - self.cy
        # only nodes that belong to an element
        used = np.unique(self.m.tri)
        x, y = x[used], y[used]
        u, v = rot(phi, x, y)
        return (
            self.ixx / abs(y.max()), self.ixx / abs(y.min()), self.iyy / abs(x.max()), self.iyy / abs(x.min()),
            self.i11 / abs(v.max()), self.i11 / abs(v.min()), self.i22 / abs(u.max()), self.i22 / abs(u.min()),
        )

    def bending_fields(self, phi):
        """Elastic bending stress per unit moment at the element nodes, (4, e, 6)."""
        xy = self.m.xy[self.m.tri]
        x, y = xy[..., 0] - self.cx, xy[..., 1] - self.cy
        u, v = rot(phi, x, y)
        det = self.ixx * self.iyy - self.ixy**2
        E = self.E[:, None]
        return np.array([
            E * (self.iyy * y - self.ixy * x) / det,
            E * (self.ixy * y - self.ixx * x) / det,
            E * v / self.i11,
            -E * u / self.i22,
        ])

    def yield_moments(self, phi):
        f = np.abs(self.bending_fields(phi)) / self.fy[None, :, None]
        return [1 / f[i].max() for i in range(4)]

    # ------------------------------------------------------------------ warping
    def _points(self, L):
        P = self.Pc
        return np.einsum("pk,ek->ep", L, P[:, :, 0]), np.einsum("pk,ek->ep", L, P[:, :, 1])

    def _bmat(self, L):
        """grad N_i at the points: (e, p, 2, 6)"""
        return np.einsum("pik,ekd->epdi", dshape(L), self.gradL)

    def warping(self, nu=None):
        s = self
        m = self.m
        s.Pc = m.P - np.array([s.cx, s.cy])
        P = s.Pc
        g = np.zeros((len(P), 3, 2))
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            g[:, i, 0] = (P[:, j, 1] - P[:, k, 1]) / (2 * m.area)
            g[:, i, 1] = (P[:, k, 0] - P[:, j, 0]) / (2 * m.area)
        s.gradL = g
        n = len(m.xy)
        B = s._bmat(PTS)
        x, y = s._points(PTS)
        N = shape(PTS)
        we = s.E[:, None] * m.area[:, None] * WTS[None, :]
        ke = np.einsum("ep,epdi,epdj->eij", we, B, B)
        fe = np.einsum("ep,epi->ei", we * y, B[:, :, 0]) - np.einsum("ep,epi->ei", we * x, B[:, :, 1])
        ce = np.einsum("ep,pi->ei", we, N)
        K = np.zeros((n + 1, n + 1))
        f = np.zeros(n)
        c = np.zeros(n)
        for e, t in enumerate(m.tri):
            K[np.ix_(t, t)] += ke[e]
        np.add.at(f, m.tri.ravel(), fe.ravel())
        np.add.at(c, m.tri.ravel(), ce.ravel())
        K[:n, n] = c
        K[n, :n] = c
        s.K, s.f, s.c = K, f, c
        # scale the border so that the dense solve is well conditioned
        sc = np.abs(K[:n, :n]).max() / np.abs(c).max()
        Ks = K.copy()
        Ks[:n, n] *= sc
        Ks[n, :n] *= sc

        def solve(rhs):
            return np.linalg.solve(Ks, np.append(rhs, 0.0))[:n]

        s.omega = solve(f)
        s.j = s.ixx + s.iyy - s.omega @ f
        if nu is None:
            nu = s.nu_eff if s.composite else 0.0
        s.nu_used = nu
        ixx, iyy, ixy = s.ixx, s.iyy, s.ixy
        r, q = x * x - y * y, 2 * x * y
        d1, d2 = ixx * r - ixy * q, ixy * r + ixx * q
        h1, h2 = -ixy * r + iyy * q, -iyy * r - ixy * q
        fpsi = np.einsum("ep,epi->ei", we * nu / 2 * d1, B[:, :, 0]) + np.einsum("ep,epi->ei", we * nu / 2 * d2, B[:, :, 1])
        fpsi += np.einsum("ep,pi->ei", we * 2 * (1 + nu) * (ixx * x - ixy * y), N)
        fphi = np.einsum("ep,epi->ei", we * nu / 2 * h1, B[:, :, 0]) + np.einsum("ep,epi->ei", we * nu / 2 * h2, B[:, :, 1])
        fphi += np.einsum("ep,pi->ei", we * 2 * (1 + nu) * (iyy * y - ixy * x), N)
        Fpsi, Fphi = np.zeros(n), np.zeros(n)
        np.add.at(Fpsi, m.tri.ravel(), fpsi.ravel())
        np.add.at(Fphi, m.tri.ravel(), fphi.ravel())
        s.psi, s.phis = solve(Fpsi), solve(Fphi)
        om = np.einsum("pi,ei->ep", N, s.omega[m.tri])
        scx = (we * (iyy * x + ixy * y) * (x * x + y * y)).sum()
        scy = (we * (ixx * y + ixy * x) * (x * x + y * y)).sum()
        qo, ixo, iyo = (we * om).sum(), (we * x * om).sum(), (we * y * om).sum()
        om4 = np.einsum("pi,ei->ep", shape(PTS4), s.omega[m.tri])
        w4 = s.E[:, None] * m.area[:, None] * W4[None, :]
        io = (w4 * om4**2).sum()
        s.i_omega, s.q_omega = io, qo
        det = ixx * iyy - ixy**2
        s.delta_s = 2 * (1 + nu) * det
        s.x_se = (nu / 2 * scx - f @ s.phis) / s.delta_s
        s.y_se = (nu / 2 * scy + f @ s.psi) / s.delta_s
        s.x_st = (ixy * ixo - iyy * iyo) / det
        s.y_st = (ixx * ixo - ixy * iyo) / det
        s.gamma = io - qo**2 / s.ea - s.y_se * ixo + s.x_se * iyo
        # shear deformation coefficients (documented four-point rule)
        B4 = s._bmat(PTS4)
        x4, y4 = s._points(PTS4)
        r, q = x4 * x4 - y4 * y4, 2 * x4 * y4
        d = np.stack([ixx * r - ixy * q, ixy * r + ixx * q], -1)
        h = np.stack([-ixy * r + iyy * q, -iyy * r - ixy * q], -1)
        a = np.einsum("epdi,ei->epd", B4, s.psi[m.tri]) - nu / 2 * d
        b = np.einsum("epdi,ei->epd", B4, s.phis[m.tri]) - nu / 2 * h
        s.kx, s.ky, s.kxy = ((w4 * (u * v).sum(-1)).sum() for u, v in ((a, a), (b, b), (a, b)))
        s.a_sx, s.a_sy = s.delta_s**2 / s.kx, s.delta_s**2 / s.ky
        return s

    def principal_shear_areas(self, phi):
        p = np.deg2rad(phi)
        c, s = np.cos(p), np.sin(p)
        k11 = c * c * self.kx + 2 * c * s * self.kxy + s * s * self.ky
        k22 = s * s * self.kx - 2 * c * s * self.kxy + c * c * self.ky
        return self.delta_s**2 / k11, self.delta_s**2 / k22

    def monosymmetry(self, phi):
        cx, cy = self.cx, self.cy

        def i3(f):
            def g(x, y):
                x, y = x - cx, y - cy
                u, v = rot(phi, x, y)
                return f(x, y, u, v)

            return self.integ(g, self.E)

        x11, y22 = rot(phi, self.x_se, self.y_se)
        bx = i3(lambda x, y, u, v: (x * x + y * y) * y) / self.ixx - 2 * self.y_se
        by = i3(lambda x, y, u, v: (x * x + y * y) * x) / self.iyy - 2 * self.x_se
        b1 = i3(lambda x, y, u, v: (u * u + v * v) * v) / self.i11 - 2 * y22
        b2 = i3(lambda x, y, u, v: (u * u + v * v) * u) / self.i22 - 2 * x11
        return [-bx, bx, -by, by], [-b1, b1, -b2, b2]

    # ------------------------------------------------------------------ stress
    def element_nodal_stress(self, act, phi, warp=True):
        """{component: (e, 6)} for the actions n, mxx, myy, m11, m22, mzz, vx, vy."""
        xy = self.m.xy[self.m.tri]
        x, y = xy[..., 0] - self.cx, xy[..., 1] - self.cy
        b = self.bending_fields(phi)
        E = self.E[:, None]
        z = np.zeros_like(x)
        out = {
            "zz_n": E * act["n"] / self.ea + z,
            "zz_mxx": b[0] * act["mxx"], "zz_myy": b[1] * act["myy"],
            "zz_m11": b[2] * act["m11"], "zz_m22": b[3] * act["m22"],
        }
        if not warp:
            for k in ("zx_mzz", "zy_mzz", "zx_vx", "zy_vx", "zx_vy", "zy_vy"):
                out[k] = z
            return out
        nat = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0.5, 0.5, 0], [0, 0.5, 0.5], [0.5, 0, 0.5]])
        B = self._bmat(nat)
        go = np.einsum("epdi,ei->epd", B, self.omega[self.m.tri])
        gp = np.einsum("epdi,ei->epd", B, self.psi[self.m.tri])
        gq = np.einsum("epdi,ei->epd", B, self.phis[self.m.tri])
        ixx, iyy, ixy, nu = self.ixx, self.iyy, self.ixy, self.nu_used
        r, q = x * x - y * y, 2 * x * y
        out["zx_mzz"] = E * act["mzz"] / self.j * (go[..., 0] - y)
        out["zy_mzz"] = E * act["mzz"] / self.j * (go[..., 1] + x)
        out["zx_vx"] = E * act["vx"] / self.delta_s * (gp[..., 0] - nu / 2 * (ixx * r - ixy * q))
        out["zy_vx"] = E * act["vx"] / self.delta_s * (gp[..., 1] - nu / 2 * (ixy * r + ixx * q))
        out["zx_vy"] = E * act["vy"] / self.delta_s * (gq[..., 0] - nu / 2 * (-ixy * r + iyy * q))
        out["zy_vy"] = E * act["vy"] / self.delta_s * (gq[..., 1] - nu / 2 * (-iyy * r - ixy * q))
        return out

    def material_classes(self):
        """[(material, element mask)] by equality of materials, in first-appearance order."""
        out = []
        for i, q in enumerate(self.mats):
            if q not in [o[0] for o in out]:
                out.append((q, None))
        return [(q, np.array([e == q for e in self.elmat])) for q, _ in out]

    def nodal_average(self, vals, mask):
        n = len(self.m.xy)
        # within one element the corner weight is w2 and the mid-side weight w1: node values are
        # averages with equal weights because a node is a corner in all its elements or in none
        s, c = np.zeros(n), np.zeros(n)
        t = self.m.tri[mask]
        np.add.at(s, t.ravel(), vals[mask].ravel())
        np.add.at(c, t.ravel(), 1.0)
        return np.where(c > 0, s / np.maximum(c, 1), 0.0)

    # ------------------------------------------------------------------ plastic
    def squash_below(self, nx, ny, t, moment=False):
        """Squash load (and its first moment of n.x - t) of the part with n.x < t.

        Linear clipping of each triangle against the line, in closed form."""
        d = self.m.P[..., 0] * nx + self.m.P[..., 1] * ny - t
        d = np.sort(d, axis=1)
        a, b, c = d[:, 0], d[:, 1], d[:, 2]
        A = self.m.area
        with np.errstate(divide="ignore", invalid="ignore"):
            f1 = np.where(a < 0, a * a / ((b - a) * (c - a)), 0.0)  # one vertex below
            f2 = np.where(c > 0, c * c / ((c - a) * (c - b)), 0.0)  # one vertex above
            frac = np.where(c <= 0, 1.0, np.where(a >= 0, 0.0, np.where(b >= 0, f1, 1 - f2)))
            mean = (a + b + c) / 3
            m1 = f1 * a / 3
            m2 = mean - f2 * c / 3
            mom = np.where(c <= 0, mean, np.where(a >= 0, 0.0, np.where(b >= 0, m1, m2)))
        w = A * self.fy
        if moment:
            return (w * frac).sum(), (w * mom).sum(), (w * mean).sum()
        return (w * frac).sum()

    def plastic_axis(self, nx, ny):
        """(t, Mp): an equal-squash line n.x = t and the plastic moment about it."""
        p = self.m.xy @ np.array([nx, ny])
        lo, hi = p.min(), p.max()
        half = (self.m.area * self.fy).sum() / 2
        for _ in range(200):
            mid = (lo + hi) / 2
            if self.squash_below(nx, ny, mid) < half:
                lo = mid
            else:
                hi = mid
        t = (lo + hi) / 2
        _, below, tot = self.squash_below(nx, ny, t, True)
        return t, (tot - below) - below
