"""C35: displayed results.

Contracts assumed on rich: `Table.add_row(label, value)` adds a row, `Console.print(table)` prints its rows. The getters'
contracts are in C06 to C18: here each is a token, so that a value shown is traced to the getter it came from."""
from __future__ import annotations

from . import rtdisplay
from .c21 import patched
from .common import like

# label -> (getter, index of its value or None); getters of a section without material properties
COMMON = {
    "cx": ("get_c", 0), "cy": ("get_c", 1), "rx": ("get_rc", 0), "ry": ("get_rc", 1), "phi": ("get_phi", None),
    "r11": ("get_rp", 0), "r22": ("get_rp", 1), "x_se": ("get_sc", 0), "y_se": ("get_sc", 1), "x1_se": ("get_sc_p", 0),
    "y2_se": ("get_sc_p", 1), "x_st": ("get_sc_t", 0), "y_st": ("get_sc_t", 1),
    "beta_x+": ("get_beta", 0), "beta_x-": ("get_beta", 1), "beta_y+": ("get_beta", 2), "beta_y-": ("get_beta", 3),
    "beta_11+": ("get_beta_p", 0), "beta_11-": ("get_beta_p", 1), "beta_22+": ("get_beta_p", 2), "beta_22-": ("get_beta_p", 3),
    "x_pc": ("get_pc", 0), "y_pc": ("get_pc", 1), "x11_pc": ("get_pc_p", 0), "y22_pc": ("get_pc_p", 1),
    "sf_xx+": ("get_sf", 0), "sf_xx-": ("get_sf", 1), "sf_yy+": ("get_sf", 2), "sf_yy-": ("get_sf", 3),
    "sf_11+": ("get_sf_p", 0), "sf_11-": ("get_sf_p", 1), "sf_22+": ("get_sf_p", 2), "sf_22-": ("get_sf_p", 3),
    "perimeter": ("get_perimeter", None),
}
COMPOSITE_ONLY = {
    "mass": ("get_mass", None), "my_xx": ("get_my", 0), "my_yy": ("get_my", 1), "my_11": ("get_my_p", 0), "my_22": ("get_my_p", 1),
    "e_eff": ("get_e_eff", None), "g_eff": ("get_g_eff", None), "nu_eff": ("get_nu_eff", None),
    "mp_xx": ("get_mp", 0), "mp_yy": ("get_mp", 1), "mp_11": ("get_mp_p", 0), "mp_22": ("get_mp_p", 1),
}
# quantities weighted by the elastic modulus: (label, getter without materials, getter with materials, index)
WEIGHTED = [("qx", "get_q", "get_eq", 0), ("qy", "get_q", "get_eq", 1)] + [
    (f"{n}_{s}", f"get_i{s}", f"get_ei{s}", k) for s in "gc" for k, n in enumerate(("ixx", "iyy", "ixy"))] + [
    (n, "get_z", "get_ez", k) for k, n in enumerate(("zxx+", "zxx-", "zyy+", "zyy-"))] + [
    (n, "get_zp", "get_ezp", k) for k, n in enumerate(("z11+", "z11-", "z22+", "z22-"))] + [
    ("i11_c", "get_ip", "get_eip", 0), ("i22_c", "get_ip", "get_eip", 1), ("j", "get_j", "get_ej", None),
    ("gamma", "get_gamma", "get_egamma", None), ("a_sx", "get_as", "get_eas", 0), ("a_sy", "get_as", "get_eas", 1),
    ("a_s11", "get_as_p", "get_eas_p", 0), ("a_s22", "get_as_p", "get_eas_p", 1)]
PLAIN = {
    **COMMON, "area": ("get_area", None), **{a: (b, k) for a, b, _, k in WEIGHTED},
    "sxx": ("get_s", 0), "syy": ("get_s", 1), "s11": ("get_sp", 0), "s22": ("get_sp", 1)}
COMPOSITE = {**COMMON, **COMPOSITE_ONLY, "area": ("get_area", None), "e.a": ("get_ea", None),
             **{"e." + a: (c, k) for a, _, c, k in WEIGHTED}}
TRANSFORMED = {**COMMON, **COMPOSITE_ONLY, "geom area": ("get_area", None)}
DIVIDED = {"a": ("get_ea", None), **{a: (c, k) for a, _, c, k in WEIGHTED}}
TOGETHER = {"get_e_eff", "get_g_eff", "get_nu_eff"}
COUNT = {}
for _t in (PLAIN, COMPOSITE, TRANSFORMED, DIVIDED):
    for _g, _k in _t.values():
        COUNT[_g] = None if _k is None else max(COUNT.get(_g) or 0, _k + 1)


class Val:
    """A value that says where it came from when it is formatted."""

    __pydv_obj__ = True

    def __init__(self, name):
        self.name = name

    def __truediv__(self, o):
        return Val(f"{self.name} over {getattr(o, 'name', o)}")

    def __format__(self, spec):
        return f"{self.name} as {spec}"


class Stub:
    """A section whose getters of `missing` have no results yet."""

    __pydv_obj__ = True

    def __init__(self, composite, missing=frozenset()):
        self.composite, self.missing = composite, missing

    def is_composite(self):
        return self.composite

    def __getattr__(self, n):
        if not n.startswith("get_"):
            import inspect

            import sectionproperties.analysis.section as s

            f = inspect.getattr_static(s.Section, n, None) if n.startswith("_") and not n.startswith("__") else None
            if not hasattr(f, "__get__"):
                raise AttributeError(n)
            return f.__get__(self, Stub)  # a private helper of Section: its real body

        def get(*a, **k):
            if n in self.missing or n not in COUNT:
                raise RuntimeError("not computed")
            if a or k:
                return Val(f"{n} with arguments")
            m = COUNT[n]
            return Val(n) if m is None else tuple(Val(f"{n}[{i}]") for i in range(m))

        return get


def shown(ctx, f, section, **kw):
    import sectionproperties.post.post as post

    tables, printed = [], []

    class Table:
        __pydv_obj__ = True

        def __init__(self, *a, **k):
            self.rows = []
            tables.append(self)

        def add_column(self, *a, **k):
            pass

        def add_row(self, *cells, **k):
            self.rows.append(cells)

    class Console:
        __pydv_obj__ = True

        def __init__(self, *a, **k):
            pass

        def print(self, *a, **k):
            printed.extend(a)

    with patched(post, Table=Table, Console=Console, print=lambda *a, **k: None):
        getattr(post, f)(section, **kw)
    ctx.ensure("the table is printed", len(tables) == 1 and any(p is tables[0] for p in printed))
    return tables[0].rows


def check(ctx, name, rows, want, spec):
    got = {}
    for r in rows:
        ctx.ensure(f"{name}: label and value", len(r) == 2)
        ctx.ensure(f"{name}: '{r[0]}' once", r[0] not in got)
        got[r[0]] = r[1]
    for label in sorted(set(want) | set(got)):
        ctx.ensure(f"{name}: '{label}' shown exactly when computed", (label in want) == (label in got))
        if label in want and label in got:
            ctx.ensure(f"{name}: value of '{label}'", got[label] == f"{want[label]} as {spec}")


def value(t, label, over=""):
    g, k = t[label]
    return (g if k is None else f"{g}[{k}]") + over


def without(t, missing):
    return [a for a in t if t[a][0] not in missing]


def cases(t):
    """No results missing, those of one getter missing, all missing."""
    yield frozenset()
    for g in sorted({g for g, _ in t.values()}):
        yield frozenset(TOGETHER if g in TOGETHER else {g})
    yield frozenset(g for g, _ in t.values())


def plain(ctx):
    for missing in cases(PLAIN):
        rows = shown(ctx, "print_results", Stub(False, missing), fmt="8.3f")
        check(ctx, "results", rows, {a: value(PLAIN, a) for a in without(PLAIN, missing)}, ">8.3f")


def composite(ctx):
    for missing in cases(COMPOSITE):
        rows = shown(ctx, "print_results", Stub(True, missing), fmt="8.6e")
        check(ctx, "composite results", rows, {a: value(COMPOSITE, a) for a in without(COMPOSITE, missing)}, ">8.6e")


def transformed(ctx):
    import sectionproperties.pre.pre as pre

    all_ = {**TRANSFORMED, **DIVIDED}
    m = pre.Material("m", Val("the modulus of m"), 0, 1, 1, "r")
    for k, missing in enumerate(cases(all_)):
        er = m if k % 2 else Val("e_ref")
        over = "the modulus of m" if k % 2 else "e_ref"
        rows = shown(ctx, "print_transformed_results", Stub(True, missing), e_ref=er, fmt="8.6e")
        want = {a: value(TRANSFORMED, a) for a in without(TRANSFORMED, missing)}
        want.update({a: value(DIVIDED, a, " over " + over) for a in without(DIVIDED, missing)})
        want["e_ref"] = over
        check(ctx, "transformed results", rows, want, ">8.6e")


def entry(ctx):
    """The section's own methods pass the section, the reference and the format on; only composite sections are transformed."""
    import sectionproperties.analysis.section as s

    calls = []
    Post = type("Post", (), {
        "print_results": staticmethod(lambda section, fmt: calls.append((section, fmt))),
        "print_transformed_results": staticmethod(lambda section, e_ref, fmt: calls.append((section, e_ref, fmt))), "__pydv_obj__": True})
    with patched(s, post=Post):
        x = Stub(True)
        s.Section.display_results(x, fmt=".2f")
        ctx.ensure("display_results", calls == [(x, ".2f")])
        calls.clear()
        s.Section.display_results(x)
        ctx.ensure("default format", calls == [(x, "8.6e")])
        calls.clear()
        s.Section.display_transformed_results(x, 5, fmt=".2f")
        ctx.ensure("display_transformed_results", calls == [(x, 5, ".2f")])
        calls.clear()
        s.Section.display_transformed_results(x, e_ref=7)
        ctx.ensure("default format of transformed results", calls == [(x, 7, "8.6e")])
        calls.clear()
        try:
            s.Section.display_transformed_results(Stub(False), 5)
        except RuntimeError:
            ctx.ensure("no transformed results without material properties", not calls)
        else:
            ctx.ensure("no transformed results without material properties", False)


def mesh_info(ctx):
    """Nodes, elements and regions of the mesh."""
    import sectionproperties.analysis.section as s

    for regions in (1, 2, 5):
        lines = []
        Console = type("Console", (), {"__pydv_obj__": True, "print": lambda self, *a, **k: lines.append(" ".join(str(x) for x in a))})
        with patched(s, Console=Console):
            x = like(type("S", (), {"__pydv_obj__": True})(), s.Section)
            x.num_nodes, x.elements, x._mesh_attributes = 41, [0] * 17, [regions - 1, 0, 0]
            s.Section.display_mesh_info(x)
        text = "\n".join(lines)
        ctx.ensure("nodes", "41 node" in text)
        ctx.ensure("elements", "17 element" in text)
        ctx.ensure("regions", (f"{regions} regions" in text) if regions > 1 else ("1 region" in text and "1 regions" not in text))


def as_dict(ctx):
    """asdict: every property under its own name."""
    import dataclasses

    import sectionproperties.post.post as post

    names = [f.name for f in dataclasses.fields(post.SectionProperties)]
    vals = {n: ctx.real("value_" + n) for n in names}
    d = post.SectionProperties(**vals).asdict()
    ctx.ensure("all properties", sorted(d) == sorted(names))
    for n in names:
        ctx.ensure_eq(n, d[n], vals[n])


SYMBOLIC = [plain, composite, transformed, entry, mesh_info, as_dict]
RUNTIME = [("displayed", rtdisplay.displayed, 40, 500)]
