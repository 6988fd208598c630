"""Symbolic sections: an arbitrary number of elements, nodes and material groups.

An element is known only by the contracts of its own methods (proved in C01-C05): its method
results are uninterpreted functions of the element index.  Section code runs on a genuine
`Section` object whose `elements` is an abstract sequence.
"""
from __future__ import annotations


def mods():
    import sectionproperties.analysis.section as S
    import sectionproperties.post.post as post

    return S, post


GEOM = ["area", "qx", "qy", "ixx", "iyy", "ixy"]


def _h(env, tag, args):
    import mpmath

    return mpmath.mpf(env.hashed(tag, [mpmath.nstr(a, 25) for a in args]))


def _fn(name, *args, positive=False, model=None, integer=False):
    from pydv import terms as T

    info = {"positive": positive}
    if model:
        info["model"] = model
    if integer:
        info["integer"] = True
    return T.func(name, *args, info=info)


def el_models(tag):
    """Finite-model values of an element's results: a small patch about a random centroid."""
    def base(env, a):
        ar = 0.2 + 2 * _h(env, "A" + tag, a)
        x, y = 4 * _h(env, "X" + tag, a) - 2, 4 * _h(env, "Y" + tag, a) - 2
        return ar, x, y

    def m(k):
        def f(env, a):
            ar, x, y = base(env, a)
            return {
                "area": ar, "qx": ar * y, "qy": ar * x, "ixx": ar * (y * y + 0.3), "iyy": ar * (x * x + 0.2),
                "ixy": ar * (x * y + 0.05),
            }[k]
        return f

    return {k: m(k) for k in GEOM}


class Mat:
    __pydv_obj__ = True

    def __init__(self, **k):
        self.__dict__.update(k)


class El:
    """An element known by its contracts."""

    __pydv_obj__ = True

    def __init__(self, tag, idx, material=None):
        import numpy as np

        self.tag = tag
        self.idx = idx
        self.el_id = idx[-1] if isinstance(idx, tuple) else idx
        a = idx if isinstance(idx, tuple) else (idx,)
        self._a = a
        f = lambda n, **k: _fn(f"{n}{tag}", *a, **k)
        self.material = material or Mat(
            elastic_modulus=f("E", positive=True), shear_modulus=f("G", positive=True), density=f("rho", positive=True),
            yield_strength=f("fy", positive=True), poissons_ratio=f("nu"), name="m", color="w",
        )
        c = np.empty((2, 6), dtype=object)
        for i in range(6):
            c[0, i], c[1, i] = f(f"x{i}_"), f(f"y{i}_")
        self.coords = c
        n = np.empty(6, dtype=object)
        for i in range(6):
            n[i] = f(f"node{i}_", integer=True, model=lambda env, a, i=i: int(env.hashed("nd" + tag, str(a), i) * 9))
        self.node_ids = n
        self.calls = []

    def f(self, n, *extra, **k):
        return _fn(f"{n}{self.tag}", *self._a, *extra, **k)

    def geometric_properties(self):
        m = el_models(self.tag)
        g = [self.f(k, positive=(k == "area"), model=m[k]) for k in GEOM]
        mt = self.material
        return (*g, mt.elastic_modulus, mt.shear_modulus, mt.density)


def elements(tag="", idx=None):
    from pydv import seqs

    if idx is None:
        return seqs.SymSeq(f"el{tag}", lambda b: El(tag, b))


def groups():
    """The material groups: any number, each with any number of elements of its material."""
    from pydv import seqs

    def group(g):
        mat = Mat(elastic_modulus=_fn("Eg", g, positive=True), yield_strength=_fn("fyg", g, positive=True),
                  shear_modulus=_fn("Gg", g, positive=True), density=_fn("rhog", g, positive=True), name="m")
        s = seqs.SymSeq("gel", lambda b: El("g", (g, b), mat), outer_deps={_idx(g)}, outer=(g,))
        return Mat(material=mat, elements=s)

    return seqs.SymSeq("grp", group)


def _idx(b):
    ((m, _),) = b.d.items()
    return m[0][0]


class Nodes:
    """The mesh nodes: at least one; node 0 plus an abstract tail."""

    def __init__(self, tag="n"):
        from pydv import seqs

        self.tag = tag
        self.tail = seqs.SymSeq(f"nodes{tag}", lambda b: self.xy(b))
        self.n = self.tail.length + 1

    def xy(self, k):
        import numpy as np
        from pydv import terms as T

        out = np.empty(2, dtype=object)
        out[0], out[1] = _fn(f"nx{self.tag}", T.coerce(k)), _fn(f"ny{self.tag}", T.coerce(k))
        return out

    def __pydv_array__(self):
        return self

    def __pydv_len__(self):
        return self.n

    shape = property(lambda s: (s.n, 2))

    def column(self, c):
        return Column(self, lambda q: q[c])

    def __getitem__(self, ix):
        from pydv.terms import Unsupported

        if isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None) and ix[1] in (0, 1):
            return self.column(ix[1])
        if isinstance(ix, int) and ix == 0:
            return self.xy(-1)
        if isinstance(ix, slice) and ix == slice(1, None, None):
            return self.tail
        if isinstance(ix, slice) and ix == slice(None):
            return self
        raise Unsupported("indexing the node array")

    def __iter__(self):
        import sys

        from pydv import seqs

        return seqs.ConcatSeq([[self.xy(-1)], self.tail]).walk(sys._getframe(1))

    def _axis0(self, kind, axis):
        import numpy as np
        from pydv.terms import Unsupported

        if axis != 0:
            raise Unsupported("extremum of all coordinates")
        out = np.empty(2, dtype=object)
        out[0], out[1] = (getattr(self.column(c), kind)() for c in (0, 1))
        return out

    def max(self, axis=None):
        return self._axis0("max", axis)

    def min(self, axis=None):
        return self._axis0("min", axis)

    def ext(self, kind, f):
        """Extremum of f over all nodes, in canonical form."""
        from pydv import terms as T

        return T.extremum(kind, [f(self.xy(-1)), T.ext_over(kind, self.tail, [f(self.tail.generic())])])


class Column:
    """One value per node."""

    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, nodes, f):
        self.nodes, self.f = nodes, f

    def _b(self, o, op):
        if isinstance(o, Column):
            return Column(self.nodes, lambda q: op(self.f(q), o.f(q)))
        return Column(self.nodes, lambda q: op(self.f(q), o))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __neg__(self):
        return Column(self.nodes, lambda q: -self.f(q))

    def __abs__(self):
        from pydv import terms as T

        return Column(self.nodes, lambda q: T.absolute(self.f(q)))

    def max(self):
        return self.nodes.ext("max", self.f)

    def min(self):
        return self.nodes.ext("min", self.f)

    def fold(self, kind):
        return self.nodes.ext(kind, self.f)


class Quiet:
    """The rich objects of the progress report: they only display (assumed)."""

    def __init__(self, *a, **k):
        pass

    def add_task(self, *a, **k):
        return 0

    def _nothing(self, *a, **k):
        return None

    update = add_row = refresh = advance = start = stop = _nothing

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @classmethod
    def fit(cls, *a, **k):
        return cls()

    @classmethod
    def grid(cls, *a, **k):
        return cls()


def report_progress(ctx):
    """Whether the section reports its progress: both ways, with the display left out."""
    S, _ = mods()
    import sectionproperties.analysis.solver as sol

    for n in ("Live", "Panel", "Table"):
        if hasattr(S, n):
            setattr(S, n, Quiet)
    S.print = Quiet()._nothing
    if hasattr(sol, "create_progress"):
        sol.create_progress = Quiet
    return bool(ctx.real("time_info") > 0)


def symbolic_section(ctx, composite):
    S, post = mods()
    sec = object.__new__(S.Section)
    sec.time_info = report_progress(ctx)
    sec.elements = elements()
    sec.material_groups = groups()
    sec.section_props = post.SectionProperties()
    nodes = Nodes()
    sec.mesh = {"vertices": nodes}
    sec._nodes = nodes
    sec.num_nodes = nodes.n

    class Geo:
        __pydv_obj__ = True

        def calculate_perimeter(self):
            return _fn("perimeter", positive=True)

    sec.geometry = Geo()
    sec.geometry.mesh = sec.mesh
    sec.is_composite = lambda: composite
    return sec
