"""C31: fibre export."""
from __future__ import annotations

from dataclasses import replace

from . import rtfibre
from .c21 import patched
from .c25 import need
from .common import L1, L2, L3, Tri, material
from .fibrespec import normal, parse


def module():
    import sectionproperties.post.fibre as f

    return f


def nodal(ctx, tag):
    """Nodal values of an arbitrary quadratic field, and what it is at a point: (values, at(x, y), gradient at (x, y))."""
    c = [ctx.real(f"{tag}{i}") for i in range(6)]
    at = lambda x, y: c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y
    grad = lambda x, y: (c[1] + 2 * c[3] * x + c[4] * y, c[2] + c[4] * x + 2 * c[5] * y)
    return at, grad


def tri6(ctx, tag, k, mat, base=0):
    from .common import fea_module, lib

    np = lib(ctx)
    t = Tri(ctx, tag)
    return t, fea_module().Tri6(k, np.array(t.coords), np.array([base + i for i in range(6)]), mat)


def centroid(t):
    p = t.corners
    return sum(q[0] for q in p) / 3, sum(q[1] for q in p) / 3


def cell(ctx):
    """A cell has the area, centroid and warping of its element (any straight element, any quadratic field)."""
    from pydv import npx as np

    f = module()
    m = replace(material(ctx), name=" mild  steel 1 ")
    t, el = tri6(ctx, "", 7, m)
    at, grad = nodal(ctx, "w")
    omega = np.array([at(*p) for p in t.pts])
    cx, cy = centroid(t)
    for cls in (f.Cell2D, f.Cell3D, f.Cell3DOS):
        for om in (None, omega):
            c = cls(el, om)
            ctx.ensure_eq("area", c.area, t.area)
            ctx.ensure_eq("centroid", [c.y, c.z], [cx, cy])
            ctx.ensure("material", c.material == "mild-steel-1")
            if om is None:
                ctx.ensure_eq("no warping", [c.omega, c.py, c.pz], [0, 0, 0])
            else:
                ctx.ensure_eq("warping", c.omega, at(cx, cy))
                ctx.ensure_eq("its derivatives", [c.py, c.pz], list(grad(cx, cy)))
    ctx.ensure_eq("the element is left alone", el.coords, t.coords)


def number(ctx, text):
    """A number of the text: precise enough to stand for its value."""
    from pydv import terms as T

    if text.startswith("<<"):
        v, spec = T.FORMATTED[int(text[2:-2])]
        need(spec == "" or (spec[0] == "." and spec[-1] in "eg" and int(spec[1:-1]) >= 7), f"a number written with format {spec!r}")
        return v
    return float(text)


class Geo:
    pass


class Comp:
    pass


def export(kind, k):
    """The commands for k elements (bounded: k up to 4; all coordinates and fields, several names, mappings and widths)."""

    def harness(ctx):
        from pydv import npx as np
        from pydv import terms as T

        f = module()
        ctx.sampler(lambda rng: {f"{n}_{i}": rng.uniform(0.5, 2) if n in "ad" else rng.uniform(-0.4, 0.4) for n in "abcd" for i in range(k)})
        mats = []
        for i, n in enumerate(("steel", "stainless steel", "1", "section")):
            mats.append(replace(material(ctx, str(i)), name=n))
        tris, els = [], []
        for i in range(k):
            t, el = tri6(ctx, f"_{i}", i, mats[(i + k) % 4], 6 * i)
            tris.append(t)
            els.append(el)
        fields = [nodal(ctx, f"w{i}_") for i in range(k)]
        omega = np.array([fields[i][0](*p) for i in range(k) for p in tris[i].pts])
        K, F = object(), object()
        seen = []

        class Section:
            def __init__(self, geometry):
                seen.append(geometry)
                self.geometry, self.elements = geometry, list(els)
                # analyses run before the export leave other fields behind (about the centroid)
                self.section_props = Props()

            def assemble_torsion(self, *a):
                return K, F

        class Props:
            omega = psi_shear = phi_shear = np.array([ctx.real(f"stale{i}") for i in range(6 * k)])
            cx, cy = ctx.real("stale_cx"), ctx.real("stale_cy")

        class solver:
            @staticmethod
            def solve_direct_lagrange(k_lg, f):
                ctx.ensure("the torsion problem", k_lg is K and f is F)
                return omega

        maps = [None, {"steel": 5}, {"steel": 1, "1": 20, "stainless  steel": 30}, {"section": 3, "Cell" + kind: 8, "2": 9}]
        with patched(f, Section=Section, solver=solver, Geometry=Geo, CompoundGeometry=Comp):
            for n, (width, mapping, main) in enumerate([(160, maps[0], 1), (0, maps[1], 1), (20, maps[2], 12), (35, maps[3], 3)]):
                obj = (Geo(), Comp(), Section("inner"))[n % 3]
                want_geo = obj if n % 3 < 2 else "inner"
                seen.clear()
                text = f.to_fibre_section(obj, main_section_tag=main, analysis_type=kind if n % 2 else kind.lower(), material_mapping=mapping, max_width=width)
                ctx.ensure("the section of this geometry", all(s is want_geo or s == want_geo for s in seen) and (seen != [] or isinstance(obj, Section)))
                got = parse(text, kind)
                ctx.ensure(f"readable commands {n}", got is not None)
                if got is None:
                    continue
                tag, tags, cells = got
                ctx.ensure("the tag asked for", tag == str(main))
                ctx.ensure("every cell once", sorted(tags) == sorted(cells) and len(cells) == k)
                ctx.ensure("no other section has the tag", tag not in cells)
                left = list(cells.values())
                for i in range(k):
                    c = next((c for c in left if T.equal(number(ctx, c["area"]), tris[i].area)), None)
                    ctx.ensure(f"a fibre for element {i}", c is not None)
                    if c is None:
                        continue
                    left.remove(c)
                    x, y = centroid(tris[i])
                    ctx.ensure_eq("y", number(ctx, c["y"]), x)
                    if kind != "2D":
                        ctx.ensure_eq("z", number(ctx, c["z"]), y)
                    if kind == "3DOS":
                        at, grad = fields[i]
                        ctx.ensure_eq("warping", number(ctx, c["omega"]), at(x, y))
                        ctx.ensure_eq("derivatives", [number(ctx, c["py"]), number(ctx, c["pz"])], list(grad(x, y)))
                    name = normal(els[i].material.name)
                    want = {normal(a): str(b) for a, b in (mapping or {}).items()}.get(name, name)
                    ctx.ensure("material", c["material"] == want)

    harness.__name__ = f"export {kind} of {k}"
    return harness


def refused(ctx):
    f = module()
    with patched(f, Geometry=Geo, CompoundGeometry=Comp):
        for bad, err in (((3, {}), TypeError), ((Geo(), dict(analysis_type="4D")), ValueError), ((Geo(), dict(analysis_type="")), ValueError)):
            try:
                f.to_fibre_section(bad[0], **bad[1])
            except err:
                ctx.ensure("refused", True)
                continue
            ctx.ensure("refused", False)


SYMBOLIC = [cell, refused, *(export(kind, k) for kind in ("2D", "3D", "3DOS") for k in (1, 2, 4))]
RUNTIME = rtfibre.RUNTIME
