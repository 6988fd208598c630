"""C27: overlapping and disconnected regions.

Contracts assumed on shapely: the area of `unary_union` of polygons is the sum of their areas less everything covered
more than once; `a.intersection(b)` is empty exactly when a and b share no point, and symmetric in a and b."""
from __future__ import annotations

import ast
import itertools

from . import rtgeom
from .c21 import patched
from .c25 import need
from .seccommon import _fn


def geo():
    import sectionproperties.pre.geometry as g

    return g


def overlaps(ctx):
    """Any number of polygons: reported iff the shared area exceeds rounding (1e-9 of the total)."""
    from pydv import seqs
    from pydv import terms as T

    g = geo()
    lop = seqs.SymSeq("lop", lambda k: type("P", (), {"__pydv_obj__": True, "area": _fn("area", k, positive=True)})())
    total = lop.fold if False else T.sum_over(lop, _fn("area", lop.bound, positive=True))
    shared = ctx.real("shared")
    ctx.sampler(lambda rng: {"shared": 10 ** rng.uniform(-12, 0)})
    ctx.assume(shared >= 0)
    ctx.assume(total > 0)
    ctx.assume(shared < total)
    asked = []
    union = type("U", (), {"__pydv_obj__": True, "area": total - shared})()
    with patched(g, unary_union=lambda x: asked.append(x) or union):
        r = g.check_geometry_overlaps(lop)
    ctx.ensure("the union of all polygons", len(asked) == 1 and asked[0] is lop)
    if isinstance(r, bool):
        ctx.ensure("reported iff they share area", (shared * T.F(10) ** 9 > total) if r else (shared * T.F(10) ** 9 <= total))
    else:
        want = shared * T.F(10) ** 9 > total
        ctx.ensure("reported iff they share area", (r & want) | (r.negate() & want.negate()))


class Node:
    __pydv_obj__ = True

    def __init__(self, k, edges):
        self.k, self.edges = k, edges

    def intersection(self, o):
        return frozenset({self.k, o.k}) in self.edges

    def intersects(self, o):
        return frozenset({self.k, o.k}) in self.edges

    touches = None


def graphs(n):
    pairs = [frozenset(p) for p in itertools.combinations(range(n), 2)]
    for bits in itertools.product((False, True), repeat=len(pairs)):
        yield {p for p, b in zip(pairs, bits) if b}


def connected(n, edges):
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for e in edges:
            if a in e:
                (b,) = e - {a}
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
    return len(seen) == n


def network(ctx):
    """Bounded: every contact relation on up to four polygons."""
    g = geo()
    for n in (1, 2, 3, 4):
        for edges in graphs(n):
            net = g.build_geometry_network([Node(k, edges) for k in range(n)])
            want = {k: {j for j in range(n) if frozenset({k, j}) in edges and j != k} for k in range(n)}
            ctx.ensure("every polygon with the polygons it meets", {k: set(v) for k, v in net.items()} == want)


def disjoint(ctx):
    """Bounded: every contact relation on up to five polygons (the walk itself is proved unbounded in `walk`)."""
    g = geo()
    for n in (1, 2, 3, 4, 5):
        for edges in graphs(n):
            r = g.check_geometry_disjoint([Node(k, edges) for k in range(n)])
            ctx.ensure("reported iff not connected", bool(r) == (not connected(n, edges)))


def walk(ctx):
    """The recursive walk, for networks of any size.

    Contract of walk(node, net, visited): visited grows; every connection of node is visited after it; every newly
    visited node has all its connections visited; newly visited nodes are connected to node.  The body is run on a
    generic connection from an arbitrary state; the recursive call is replaced by its contract."""
    import inspect

    g = geo()
    with open(g.__file__) as f:
        tree = ast.parse(f.read())
    outer = [x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == "check_geometry_disjoint"]
    need(len(outer) == 1, "the function is gone")
    # the walk: the module's only function of three arguments that calls itself by name
    inner = [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef) and len(x.args.args) == 3 and not x.args.defaults
             and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == x.name for c in ast.walk(x))]
    need(len(inner) == 1, "no recursive walk of three arguments")
    fn = inner[0]
    for a in fn.args.args:
        a.annotation = None
    fn.returns = None
    mod = ast.fix_missing_locations(ast.Module([fn], []))

    for already in (False, True):
        events = []

        class Visited(list):
            def __contains__(self, x):
                return already or any(e == ("add", x) for e in events)

            def append(self, x):
                events.append(("add", x))

        visited = Visited()

        class Net(dict):
            def get(self, k, default=None):
                events.append(("connections of", k))
                return ["c"]

            def __getitem__(self, k):
                return self.get(k)

        net = Net()

        def recursive(node, network, nodes_visited):
            events.append(("walk", node))
            need(network is net and nodes_visited is visited, "arguments of the recursive call")
            ctx.ensure("recursive precondition: the node is visited", already or ("add", node) in events)
            return nodes_visited

        env = {fn.name: None}
        exec(compile(mod, g.__file__, "exec"), env)
        body = env[fn.name]
        env[fn.name] = recursive
        body("n", net, visited)
        ctx.ensure("the connections of the node are visited", ("connections of", "n") in events)
        if already:
            ctx.ensure("a visited node is not visited again", ("walk", "c") not in events and ("add", "c") not in events)
        else:
            ctx.ensure("a new connection is added once", events.count(("add", "c")) == 1)
            ctx.ensure("and walked from", ("walk", "c") in events)
        ctx.ensure("nothing else is added", all(e[0] != "add" or e[1] == "c" for e in events))


class Stop(Exception):
    pass


def warnings_given(ctx):
    """A warping analysis of disconnected, and a plastic analysis of overlapping, regions warns; others do not."""
    import sectionproperties.analysis.section as s

    g = geo()
    for compound in (True, False):
        for bad in (True, False):
            for method in ("calculate_warping_properties", "calculate_plastic_properties"):
                said, asked = [], []
                geom = object.__new__(g.CompoundGeometry if compound else g.Geometry)
                polys = ["p0", "p1", "p2"]
                geom.geom = "all"
                if compound:
                    geom.geoms = [type("R", (), {"__pydv_obj__": True, "geom": p})() for p in polys]

                def check(lop):
                    asked.append(list(lop))
                    return bad

                def stop(*a, **k):
                    raise Stop

                sec = object.__new__(s.Section)
                sec.geometry, sec.time_info = geom, False
                props = type("Props", (), {"__pydv_obj__": True})()
                props.area = props.ixx_c = props.cx = 1
                sec.section_props = props
                w = type("W", (), {"warn": staticmethod(lambda m, *a, **k: said.append(m))})
                stub = type("G", (), {"CompoundGeometry": g.CompoundGeometry, "Geometry": g.Geometry})
                stub.check_geometry_disjoint = staticmethod(check if "warping" in method else lambda lop: False)
                stub.check_geometry_overlaps = staticmethod(check if "plastic" in method else lambda lop: False)
                f = getattr(s.Section, method)
                with patched(s, warnings=w, sp_geom=stub, Section=stop, sp_plastic=type("P", (), {"PlasticSection": stop})):
                    try:
                        f(sec)
                        ctx.ensure("analysed", False)
                    except Stop:
                        pass
                ctx.ensure(f"{method} warns iff the regions are at fault", bool(said) == (bad and compound))
                if compound:
                    ctx.ensure("all regions are checked", asked == [polys])
                if said:
                    ctx.ensure("the fault is named", ("disjoint" if "warping" in method else "overlapping") in str(said[0]))


SYMBOLIC = [overlaps, network, disjoint, walk, warnings_given]
RUNTIME = [("overlap and connection", rtgeom.faults, 1500, 10000), ("warnings", rtgeom.fault_warnings, 60, 400)]
