"""C29: Nastran sections."""
from __future__ import annotations

from . import libmodel as L
from . import nasspec, rtlib
from .c25 import need
from .c28 import loop_point

MOD = "nastran_sections"


def moved(rings, dx, dy):
    return [[(s, [(x + dx, y + dy) for x, y in c]) for s, c in r] for r in rings]


def expected(spec):
    """(holes?, regions): every region as a list of rings, each a signed sum of chains."""
    return spec["regions"] if "regions" in spec else [spec["rings"]]


def fits(got, want):
    """Do the outlines have exactly the moments of the specification?  (used to choose between admissible readings)"""
    from pydv import npx as np
    from pydv import terms as T

    if len(got) != len(want):
        return False
    for o, w in zip(got, want):
        a, b = L.moments(np, list(o)), L.total(np, w)
        flip = T.equal(a["area"], -b["area"])
        if not all(T.equal(-a[k] if flip else a[k], b[k]) for k in L.POWERS):
            return False
    return True


def flat(regions, dx=0, dy=0):
    return [r for rings in regions for r in moved(rings, dx, dy)]


def generator(name):
    sp = nasspec.NASTRAN[name]

    def harness(ctx):
        dims = {n: ctx.pos(n) for n in sp.names}
        ctx.sampler(lambda rng: dict(zip(sp.names, sp.sample(rng))))
        d = list(dims.values())
        for c in sp.conds(*d):
            ctx.assume(c)
            if getattr(c, "op", "") == "or":
                bool(c.args[0])
        spec = sp.build(*d)
        try:
            g = L.run(ctx, MOD, name, dims)
        except ValueError:
            ctx.ensure("possible dimensions are accepted", False)
            return
        parts = g.parts if g.parts else [g]
        regions = expected(spec)
        need(len(parts) == len(regions), "another number of regions")
        got = []
        for p, rings in zip(parts, regions):
            need(isinstance(p.geom, L.Outline), "not a polygon")
            ctx.ensure("the material of the region", p.material is g.material)
            rr = p.geom.rings()
            ctx.ensure("number of openings", len(rr) == len(rings))
            got += [L.chain_of(ctx, o) for o in rr]
        (ox, oy), (rx, ry) = spec["origin"], spec["ref"]
        # as built, or with the documented point at the origin; box1: the side walls in either order
        readings = [flat(regions), flat(regions, -ox, -oy)]
        if "swapped" in spec:
            readings += [flat([spec["swapped"]]), flat([spec["swapped"]], -ox, -oy)]
        want = next((r for r in readings if fits(got, r)), readings[0])
        for k, (o, w) in enumerate(zip(got, want)):
            L.compare(ctx, f"outline {k}", o, w)
        rec = g.recovery_points
        ctx.ensure("four recovery points", len(rec) == 4)
        for k, (p, q) in enumerate(zip(rec, spec["rec"])):
            ctx.ensure_eq(f"recovery point {'cdef'[k]}", [p[0] + rx, p[1] + ry], list(q))

    harness.__name__ = name
    return harness


def refusal(name):
    """Dimensions that the section cannot have are refused, and only these."""
    sp = nasspec.NASTRAN[name]

    def harness(ctx):
        dims = {n: ctx.pos(n) for n in sp.names}
        d = list(dims.values())
        conds = sp.conds(*d)
        ctx.sampler(lambda rng: {n: rng.choice([rng.uniform(0.1, 2), *(k / 4 for k in range(1, 9))]) for n in sp.names})
        bad = None
        for c in conds:
            bad = c.negate() if bad is None else bad | c.negate()
        if bad is None or not bool(bad):
            return
        try:
            L.run(ctx, MOD, name, dims)
        except ValueError:
            ctx.ensure("refused", True)
            return
        ctx.ensure("refused", False)

    harness.__name__ = name + " refused"
    return harness


def rounds(ctx):
    """ROD, TUBE and TUBE2: n points at equal angles on the stated radii."""
    from pydv import npx as np

    R, k, n = ctx.pos("dim_1"), ctx.pos("dim_2"), ctx.pos("n")
    ctx.assume(n >= 3)
    ctx.sampler(lambda rng: (lambda a: {"dim_1": a, "dim_2": a * rng.uniform(0.1, 0.9), "n": rng.randint(3, 12)})(rng.uniform(0.3, 4)))
    ctx.assume(k < R)
    for name, kw, radii in (("nastran_rod", dict(dim_1=R, n=n), [R]), ("nastran_tube", dict(dim_1=R, dim_2=k, n=n), [R, k]),
                            ("nastran_tube2", dict(dim_1=R, dim_2=k, n=n), [R, R - k])):
        g = L.run(ctx, MOD, name, kw)
        got = g.geom.rings()
        ctx.ensure(f"{name}: openings", len(got) == len(radii))
        for j, (o, r) in enumerate(zip(got, radii)):
            seq, (x, y) = loop_point(o)
            ctx.ensure_eq(f"{name}: n points", seq.length, n)
            w = 2 * np.pi * seq.bound / n
            ctx.ensure_eq(f"{name}: ring {j}", [x, y], [r * np.cos(w), r * np.sin(w)])
        ctx.ensure(f"{name}: four recovery points", len(g.recovery_points) == 4)
        for p, q in zip(g.recovery_points, [(0, R), (R, 0), (0, -R), (-R, 0)]):
            ctx.ensure_eq(f"{name}: recovery points", list(p), list(q))


def rounds_refused(ctx):
    R, k, n = ctx.pos("dim_1"), ctx.pos("dim_2"), ctx.pos("n")
    if bool(k < R):
        return
    for name in ("nastran_tube", "nastran_tube2"):
        try:
            L.run(ctx, MOD, name, dict(dim_1=R, dim_2=k, n=n))
        except ValueError:
            ctx.ensure("refused", True)
            continue
        ctx.ensure("refused", False)


SYMBOLIC = [rounds, rounds_refused, *(generator(n) for n in nasspec.NASTRAN), *(refusal(n) for n in nasspec.NASTRAN)]
RUNTIME = [("nastran dimensions", rtlib.nastran, 1200, 12000), ("nastran refusals", rtlib.nastran_refused, 400, 4000)]
