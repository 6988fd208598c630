"""Run-time contracts of the fibre export (bounded: random sections)."""
from __future__ import annotations

import os
import tempfile

import numpy as np

from rt import gen

from .fibrespec import normal, parse
from .rtsec import new

NAMES = ["steel", "stainless steel", "steel 2", "concrete", "a", "b c", "1", "e", "section", "Cell3D", "x-y", "tie  bar"]


def export(case):
    from sectionproperties.post.fibre import to_fibre_section

    rng = case.rng
    sec, o = new(case)
    regions = list(getattr(sec.geometry, "geoms", [sec.geometry]))
    names = {}
    for r in regions:  # one name per material, all different
        if r.material not in names:
            names[r.material] = rng.choice([n for n in NAMES if normal(n) not in map(normal, names.values())])
    from dataclasses import replace

    for r in regions:
        r.material = replace(r.material, name=names[r.material])
    want_name = [normal(names[m]) for m in o.elmat]
    kind = rng.choice(["2D", "3D", "3DOS", "3DOS"])
    main = rng.choice([1, 1, 7, 120])
    width = rng.choice([160, 0, 30, 80, 100000])
    keys = rng.sample(NAMES, rng.randint(0, 5))
    mapping = rng.choice([None, {n: rng.choice([1, 2, 33]) for n in keys}])
    if rng.random() < 0.2:
        # a tag may be the name of another material
        mapping = {rng.choice(list(names.values())): 1, "1": 33}
    case.note(kind=kind, main=main, width=width, mapping=mapping, names=list(names.values()))
    from sectionproperties.analysis.section import Section

    obj = sec.geometry if rng.random() < 0.5 else Section(sec.geometry)
    if obj is not sec.geometry and rng.random() < 0.6:
        # the export does not depend on analyses run before it
        obj.calculate_geometric_properties()
        if rng.random() < 0.7:
            obj.calculate_warping_properties()
    kw = dict(main_section_tag=main, analysis_type=rng.choice([kind, kind.lower()]), material_mapping=mapping, max_width=width)
    if rng.random() < 0.3:
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "out.sp")
            text = to_fibre_section(obj, **kw, save_to=path)
            case.ensure("the file holds the commands", open(path).read() == text)
    else:
        text = to_fibre_section(obj, **kw)
    got = parse(text, kind)
    case.ensure("readable commands", got is not None)
    if got is None:
        return
    tag, tags, cells = got
    case.ensure("the tag asked for", tag == str(main))
    case.ensure("every cell once", sorted(tags) == sorted(cells) and len(cells) == len(o.m.area))
    case.ensure("no other section has the tag", tag not in cells)
    m = o.m
    rows = [[float(c[k]) for k in ("area", "y", *(("z",) if kind != "2D" else ()))] for c in cells.values()]
    want = np.column_stack([m.area, m.centroid[:, :2 if kind != "2D" else 1]])
    rows = np.array(rows)
    size = np.abs(m.xy).max()
    unit = np.array([m.area.max(), *[size] * (want.shape[1] - 1)])
    # the fibre of each element: the closest one
    full = np.array([[float(v) if k != "material" else 0 for k, v in c.items()] for c in cells.values()])
    keys = [k for k in next(iter(cells.values()))]
    mats = [c["material"] for c in cells.values()]
    mp = {normal(a): str(b) for a, b in (mapping or {}).items()}
    om = None
    if kind == "3DOS":
        o.warping()
        x, y = m.xy[:, 0] - o.cx, m.xy[:, 1] - o.cy
        om = o.omega + o.cy * x - o.cx * y  # about the origin
        from rt.oracle import shape

        L = np.array([[1 / 3, 1 / 3, 1 / 3]])
        vals = np.einsum("pi,ei->ep", shape(L), om[m.tri])[:, 0]
        g = np.einsum("epdi,ei->epd", o._bmat(L), om[m.tri])[:, 0]
    used = set()
    for e in range(len(m.area)):
        d = (np.abs(rows - want[e]) / unit).max(axis=1)
        if kind == "2D":
            for u in used:
                d[u] = 1e9
        k = int(d.argmin())
        used.add(k)
        case.ensure("a fibre for every element", d[k] <= 1e-7)
        name = want_name[e]
        if kind != "2D" or len(set(want_name)) == 1:
            case.ensure("material", mats[k] == mp.get(name, name))
        if om is not None:
            s = max(np.abs(om).max(), 1e-6 * size * size)
            row = dict(zip(keys, full[k]))
            case.ensure_eq("warping", row["omega"], vals[e], scale=s, rtol=1e-6)
            case.ensure_eq("derivatives", [row["py"], row["pz"]], g[e], scale=max(np.abs(g).max(), 1e-6 * size), rtol=1e-6)
    case.ensure("one fibre each", len(used) == len(m.area))
    case.ensure_eq("total area", rows[:, 0].sum(), o.area, rtol=1e-7)


RUNTIME = [("export", export, 80, 800)]
