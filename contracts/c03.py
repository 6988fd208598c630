"""C03: torsion system, element and assembled."""
from . import rtsec
from .common import SHAPE, Tri, dual, element, lib, material, dist_scale


def spec_torsion(t, e):
    """E * integrals of grad Ni . grad Nj, of grad Ni . (y, -x), of Ni."""
    g = [t.grad(n) for n in SHAPE]
    k = [[e * t.integrate(g[i][0] * g[j][0] + g[i][1] * g[j][1]) for j in range(6)] for i in range(6)]
    f = [e * t.integrate(g[i][0] * t.y - g[i][1] * t.x) for i in range(6)]
    c = [e * t.integrate(SHAPE[i]) for i in range(6)]
    return k, f, c


@dual(samples=40)
def torsion_properties(ctx):
    t, m = Tri(ctx), material(ctx)
    el = element(ctx, t, m)
    k, f, c = spec_torsion(t, m.elastic_modulus)
    for label in ("first", "again"):
        kk, ff, cc = el.torsion_properties()
        s = dist_scale(ctx, t)
        ks = None
        if s is not None:
            import numpy as np

            ks = np.abs(np.array(k, float)).max()
        ctx.ensure_eq(f"{label}.stiffness", kk, k, scale=ks, rtol=1e-8)
        ctx.ensure_eq(f"{label}.load", ff, f, scale=None if s is None else m.elastic_modulus * s * 10)
        ctx.ensure_eq(f"{label}.constraint", cc, c, scale=None if s is None else m.elastic_modulus * t.area)
        for i in range(6):
            ctx.ensure_eq(f"{label}.constant_null.{i}", sum(kk[i][j] for j in range(6)), 0, scale=ks)


class Sparse:
    """Contract of scipy's coo/csc constructors: A[r, c] is the sum of the data with that row and column."""

    def __init__(self, row, col, data, shape):
        self.row, self.col, self.data, self.shape = row, col, data, shape


def triplets(ctx, m):
    """Chunks [(kind, sequence, [(row, column, value)...])] from the three lists."""
    from pydv import seqs
    from pydv.terms import Unsupported

    rows, cols, data = (x.all_chunks() for x in (m.row, m.col, m.data))
    if not len(rows) == len(cols) == len(data):
        raise Unsupported("the index and data lists have different shapes")
    out = []
    for r, c, d in zip(rows, cols, data):
        if r[0] == c[0] == d[0] == "loop":
            if not (r[1] is c[1] is d[1]):
                raise Unsupported("index and data lists filled by different loops")
            ctx.ensure("as many rows and columns as values", len(r[2]) == len(c[2]) == len(d[2]))
            out.append((r[1], list(zip(r[2], c[2], d[2]))))
            continue
        seq, n = None, None
        for k, v in (r[:2], c[:2], d[:2]):
            if k == "seq":
                seq = v
            elif k == "vec":
                seq = v.index_seq()
        if seq is None:
            raise Unsupported("triplet lists out of step")

        def item(q):
            k, v = q[:2]
            if k == "const":
                ctx.ensure_eq("repeated to the length of the range", v.n, seq.length)
                if len(v.items) != 1:
                    raise Unsupported("repeated list of several items")
                return v.items[0]
            if k == "vec":
                return v.at(seq.bound)
            if k == "seq" and v.generic() is not None and v.length.key() == seq.length.key():
                return v.generic()
            raise Unsupported("triplet lists out of step")

        out.append((seq, [(item(r), item(c), item(d))]))
    return out


def assembled(ctx):
    """assemble_torsion for any number of elements and nodes and any numbering."""
    from pydv import seqs
    from pydv import terms as T
    from .secwarp import section_after_geometric

    import sectionproperties.analysis.section as S

    sec = section_after_geometric(ctx, True)
    saved = S.coo_matrix, S.csc_matrix

    def coo(arg, shape=None, dtype=None, **k):
        if isinstance(arg, Sparse):
            return arg
        data, (row, col) = arg
        return Sparse(row, col, data, shape)

    try:
        S.coo_matrix = S.csc_matrix = coo
        k, f = sec.assemble_torsion()
    finally:
        S.coo_matrix, S.csc_matrix = saved
    n = sec.num_nodes
    wel = sec.elements
    e = wel.generic()
    ke, fe, ce = e.torsion_properties()
    ix = seqs.index_seq(n)
    hit = lambda a: T.indicator(T.compare0("==", e.node_ids[a] - ix.bound))
    ctx.ensure_eq("load", f, sum((T.sum_over(wel, hit(a) * fe[a]) for a in range(6)), T.coerce(0)))
    cvec = sum((T.sum_over(wel, hit(a) * ce[a]) for a in range(6)), T.coerce(0))
    ctx.ensure_eq("rows", k.shape[0], n + 1)
    ctx.ensure_eq("columns", k.shape[1], n + 1)
    # the matrix as the sum of its triplets, element part and border part
    want = {}
    for a in range(6):
        for b in range(6):
            key = (T.coerce(e.node_ids[a]).key(), T.coerce(e.node_ids[b]).key())
            want[key] = want.get(key, T.coerce(0)) + ke[a, b]
    got = {}
    border = {"column": T.coerce(0), "row": T.coerce(0)}
    for seq, items in triplets(ctx, k):
        for r, c, d in items:
            r, c = T.coerce(r), T.coerce(c)
            if seq is wel:
                key = (r.key(), c.key())
                got[key] = got.get(key, T.coerce(0)) + d
            elif r.key() == seq.bound.key() and c.key() == n.key():
                border["column"] = border["column"] + d
            elif c.key() == seq.bound.key() and r.key() == n.key():
                border["row"] = border["row"] + d
            else:
                ctx.ensure("every triplet belongs to an element or to the border", False, f"row {r!r} column {c!r}")
    ctx.ensure("element triplets are at the element's own nodes", set(got) == set(want))
    for key, w in want.items():
        if key in got:
            ctx.ensure_eq("element part", got[key], w)
    ctx.ensure_eq("border column", border["column"], cvec)
    ctx.ensure_eq("border row", border["row"], cvec)
    # lemma: with the element contract K_el 1 = 0 and symmetry, the assembled matrix is symmetric and K 1 = 0
    for (r, c), v in got.items():
        if (c, r) in got:
            ctx.ensure_eq("symmetric", v, got[(c, r)])
    for a in range(6):
        row = sum((v for (r, _), v in got.items() if r == T.coerce(e.node_ids[a]).key()), T.coerce(0))
        ctx.ensure_eq("row sums are the element row sums", row, sum((ke[a, b] for b in range(6)), T.coerce(0)))


SYMBOLIC = [torsion_properties, assembled]
RUNTIME = [("assembled_torsion", rtsec.assembled_torsion, 40, 300)]
