"""Abstract finite sequences and vectors of unknown length.

A loop over an abstract sequence is verified by induction: the body is executed once, on the
generic element, from a state in which every location the loop modifies is havocked; from the
result the per-iteration change is read off and the state after the loop is the fold of that
change over the whole sequence (sum, extremum, scatter-add, pointwise update).  Branches inside
the body are explored separately and merged with indicator functions.  A loop that does not fit
(early exit, carried dependencies) is reported as unsupported, never guessed.
"""

from __future__ import annotations

import ctypes
import sys

import numpy as _np

from . import engine as E
from . import terms as T
from .terms import Sym, Unsupported


class XList(list):
    """A list display `[]` of the extracted code; may grow abstract chunks.

    The contents are `chunks` (loops, sequences, vectors, repeated constants), then the items."""

    __hash__ = object.__hash__
    chunks = ()

    def _flush(self, chunk):
        items = list.__getitem__(self, slice(None))
        self.chunks = [*self.chunks, *([("items", items)] if items else []), chunk]
        list.__setitem__(self, slice(None), [])

    def extend(self, o):
        if isinstance(o, XList) and o.chunks:
            for c in o.all_chunks():
                self._flush(c)
        elif isinstance(o, AbsVec):
            self._flush(("vec", o.copy()))
        elif isinstance(o, ConstSeq):
            self._flush(("const", o))
        elif isinstance(o, SymSeq):
            self._flush(("seq", o))
        else:
            list.extend(self, o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def all_chunks(self):
        items = list.__getitem__(self, slice(None))
        return [*self.chunks, *([("items", items)] if items else [])]

    def _plain(self):
        if self.chunks:
            raise Unsupported("reading a list with abstract contents")

    def __add__(self, o):
        out = XList(list.__getitem__(self, slice(None)))
        out.chunks = list(self.chunks)
        out.extend(o)
        return out

    def __iter__(self):
        if self.chunks:
            p = parts_of(self)
            return _loop(p[0], sys._getframe(1)) if len(p) == 1 and isinstance(p[0], SymSeq) else ConcatSeq(p).walk(sys._getframe(1))
        return list.__iter__(self)

    def __len__(self):
        self._plain()
        return list.__len__(self)

    def __pydv_len__(self):
        if self.chunks:
            return as_seq(self).__pydv_len__()
        return list.__len__(self)

    def __getitem__(self, i):
        if self.chunks and isinstance(i, slice) and i.step in (None, 1):
            a, b = i.start or 0, i.stop or 0
            if type(a) is int and type(b) is int and a >= 0 and b <= 0:
                return sliced(self, a, -b)
        if self.chunks and isinstance(i, Sym):
            return as_seq(self)[i]
        self._plain()
        return list.__getitem__(self, i)

    def __bool__(self):
        return bool(self.chunks) or list.__len__(self) > 0


class Poison:
    def __init__(self, why):
        self.why = why

    def __getattr__(self, n):
        raise Unsupported(f"use of {object.__getattribute__(self, 'why')}")

    def _no(self, *a, **k):
        raise Unsupported(f"use of {self.why}")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _no
    __rtruediv__ = __pow__ = __neg__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = _no
    __iter__ = __len__ = __getitem__ = __setitem__ = __call__ = _no
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o


def freevec_name(vec_id, n=[0]):
    n[0] += 1
    return f"h{n[0]}"


# --------------------------------------------------------------------------- sequences
BY_LENGTH: dict = {}  # the sequence whose (own, unknown) length a term is


class SymSeq:
    """A sequence of unknown, non-zero length whose generic element is `elem(bound)`."""

    def __init__(self, name, elem=None, length=None, outer_deps=frozenset(), outer=(), model_len=None):
        self.name = name
        self.bound = T.symbol(f"{name}.i", integer=True)
        self.bound_idx = next(iter(self.bound.d))[0][0]
        self.length = length if length is not None else (
            T.func(f"len_{name}", *outer, info={"positive": True, "model": lambda env, a: T.MODEL_LEN})
        )
        self.outer_deps = frozenset(outer_deps)
        self._elem = elem(self.bound) if callable(elem) else (elem if elem is not None else self.bound)
        self._model_len = model_len
        if length is None:
            BY_LENGTH[self.length.key()] = self

    def model_len(self, env):
        return self._model_len(env) if self._model_len else T.MODEL_LEN

    def substituted(self, mp):
        if self.outer_deps & set(mp):
            raise Unsupported("substitution into a nested sequence")
        return self

    def __pydv_len__(self):
        return self.length

    def generic(self):
        return self._elem

    def __iter__(self):
        return _loop(self, sys._getframe(1))

    def __getitem__(self, i):
        if hasattr(self._elem, "__pydv_at__"):
            return self._elem.__pydv_at__(i)
        if isinstance(i, Sym) and i.key() == self.bound.key():
            return self.generic()  # the element at the loop's own index
        raise Unsupported("indexing an abstract sequence")

    def as_list(self):
        return self

    def as_vector(self):
        raise Unsupported("array of an abstract sequence")

    def fold(self, kind):
        return _fold(kind, self, [(True, self.generic())])

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        import copy

        r = copy.copy(self)
        memo[id(self)] = r
        r._elem = copy.deepcopy(self._elem, memo)
        return r


class MapSeq(SymSeq):
    """[f(x) for x in seq if cond(x)] : generic values with their conditions."""

    def __init__(self, seq, cases):
        self.seq = seq
        self.cases = cases

    name = property(lambda s: s.seq.name)
    bound = property(lambda s: s.seq.bound)
    bound_idx = property(lambda s: s.seq.bound_idx)
    outer_deps = property(lambda s: s.seq.outer_deps)

    def model_len(self, env):
        return self.seq.model_len(env)

    @property
    def length(self):
        if len(self.cases) == 1 and self.cases[0][0] is True:
            return self.seq.length
        return _fold("sum", self.seq, [(c, Sym.const(1)) for c, _ in self.cases])

    def __pydv_len__(self):
        return self.length

    def generic(self):
        if len(self.cases) == 1 and self.cases[0][0] is True:
            return self.cases[0][1]
        vals = [v for _, v in self.cases]
        if not all(c is True or True for c, _ in self.cases):
            raise Unsupported("filtered abstract sequence")
        # a total case split of numbers
        tot = Sym.const(0)
        cover = Sym.const(0)
        for c, v in self.cases:
            if T.coerce(v) is NotImplemented:
                raise Unsupported("case split of non-numbers")
            i = T.indicator(c)
            tot = tot + i * v
            cover = cover + i
        if not T.equal(cover, 1):
            raise Unsupported("filtered abstract sequence used as a sequence")
        return tot

    def fold(self, kind):
        return _fold(kind, self.seq, self.cases)

    def __getitem__(self, i):
        # a family of values that states its member at any index
        if len(self.cases) == 1 and self.cases[0][0] is True and hasattr(self.cases[0][1], "__pydv_at__"):
            return self.cases[0][1].__pydv_at__(i)
        if isinstance(i, Sym) and i.key() == self.bound.key() and len(self.cases) == 1 and self.cases[0][0] is True:
            return self.cases[0][1]
        raise Unsupported("indexing an abstract sequence")

    def __add__(self, o):
        return ConcatSeq([self]) + o

    def as_vector(self):
        raise Unsupported("array of an abstract sequence")


class EnumSeq(MapSeq):
    def __init__(self, seq, start=0):
        if isinstance(seq, AbsVec):
            base = seq.index_seq()
            super().__init__(base, [(True, (base.bound + start, seq.at(base.bound)))])
        else:
            base = seq.seq if isinstance(seq, MapSeq) else seq
            super().__init__(base, [(True, (base.bound + start, seq.generic()))])
            self.src = seq


class ZipSeq(MapSeq):
    def __init__(self, its):
        base = None
        vals = []
        its = [parts_of(i)[0] if isinstance(i, XList) and i.chunks and len(i.chunks) == 1 and not list.__len__(i) else i for i in its]
        for i in its:
            if isinstance(i, ConstSeq) and len(i.items) == 1:
                b = index_seq(i.n)
            elif isinstance(i, AbsVec):
                b = i.index_seq()
            elif isinstance(i, MapSeq):
                b = i.seq
            elif isinstance(i, SymSeq):
                b = i
            else:
                raise Unsupported("zip of abstract and concrete sequences")
            if base is None:
                base = b
            elif base.name != b.name:
                raise Unsupported("zip of different abstract sequences")
            vals.append(i.items[0] if isinstance(i, ConstSeq) else i.at(b.bound) if isinstance(i, AbsVec) else i.generic())
        super().__init__(base, [(True, tuple(vals))])


class ConcatSeq:
    """Sequences one after the other (a list filled by several loops)."""

    def __init__(self, parts):
        self.parts = parts

    def __iter__(self):
        return self.walk(sys._getframe(1))

    def walk(self, fr):
        for p in self.parts:
            if isinstance(p, AbsVec):
                p = vec_seq(p)
            if isinstance(p, SymSeq):
                yield from _loop(p, fr)
            else:
                yield from p

    def __add__(self, o):
        return ConcatSeq([*self.parts, *(o.parts if isinstance(o, ConcatSeq) else [o])])

    def as_list(self):
        return self

    def fold(self, kind):
        if kind != "sum":
            raise Unsupported("extremum of a list filled by several loops")
        return sum((p.fold("sum") if isinstance(p, SymSeq) else sum(p) for p in self.parts), Sym.const(0))


def zip_lists(its):
    """zip of lists filled in step by the same loops."""
    ch = [i.all_chunks() for i in its]
    if len({len(c) for c in ch}) != 1:
        raise Unsupported("zip of differently filled lists")
    parts = []
    for cs in zip(*ch):
        if all(c[0] == "loop" for c in cs) and len({c[1].name for c in cs}) == 1 and all(len(c[2]) == 1 for c in cs):
            parts.append(MapSeq(cs[0][1], [(True, tuple(c[2][0] for c in cs))]))
        elif all(c[0] == "items" for c in cs) and len({len(c[1]) for c in cs}) == 1:
            parts.append(list(zip(*(c[1] for c in cs))))
        else:
            raise Unsupported("zip of differently filled lists")
    return ConcatSeq(parts)


class DistinctSeq(ConcatSeq):
    """set(...) of the elements of several abstract sequences: each value once."""

    made: list = []

    def __init__(self, parts):
        super().__init__(parts)
        DistinctSeq.made.append(self)


def vec_seq(v):
    s = v.index_seq()
    return MapSeq(s, [(True, v.at(s.bound))])


def parts_of(lst):
    """A list with abstract contents as sequences one after the other."""
    out = []
    for ch in lst.all_chunks():
        if ch[0] == "loop" and len(ch[2]) == 1:
            out.append(MapSeq(ch[1], [(True, ch[2][0])]))
        elif ch[0] == "seq":
            out.append(ch[1])
        elif ch[0] == "vec":
            out.append(vec_seq(ch[1]))
        elif ch[0] == "items":
            out.append(list(ch[1]))
        else:
            raise Unsupported("a list with several abstract parts used as one sequence")
    return out


def sliced(lst, a, b):
    """lst[a:-b] where only the first and the last part are shortened."""
    ch = lst.all_chunks()

    def cut(c, a, b):
        if c[0] == "items":
            if a + b > len(c[1]):
                raise Unsupported("slice of a list with abstract contents")
            return ("items", list(c[1][a:len(c[1]) - b]))
        if c[0] == "vec":
            return ("vec", c[1][a:(-b or None)])
        raise Unsupported("slice of a list with abstract contents")

    out = XList()
    ch = list(ch)
    if a:
        ch[0] = cut(ch[0], a, 0)
    if b:
        ch[-1] = cut(ch[-1], 0, b)
    out.chunks = ch
    return out


def as_seq(lst):
    """The abstract sequence of a list filled by one loop (one item per iteration)."""
    ch = lst.all_chunks()
    if len(ch) == 1 and ch[0][0] == "loop" and len(ch[0][2]) == 1:
        return MapSeq(ch[0][1], [(True, ch[0][2][0])])
    if len(ch) == 1 and ch[0][0] == "seq":
        return ch[0][1]
    raise Unsupported("a list with several abstract parts used as one sequence")


_INDEX_SEQS: dict = {}


def index_seq(n: Sym) -> SymSeq:
    """The index range 0..n-1, one canonical sequence per length term."""
    k = n.key()
    s = _INDEX_SEQS.get(k)
    if s is None:
        s = SymSeq(f"range({n!r})", None, length=n, model_len=lambda env: T.MODEL_NODES)
        _INDEX_SEQS[k] = s
    return s


def RangeSeq(n):
    s = BY_LENGTH.get(n.key())
    if s is not None:  # range(len(s)): in step with s itself
        return MapSeq(s, [(True, s.bound)])
    return index_seq(n)


class ConstSeq:
    """[v] * n for symbolic n."""

    def __init__(self, items, n):
        self.items = items
        self.n = n


def map_seq(f, it, cond, star):
    if isinstance(it, AbsVec):
        base = it.index_seq()
        it = MapSeq(base, [(True, it.at(base.bound))])
    base = it.seq if isinstance(it, MapSeq) else it
    x = it.generic()
    cases = []

    def body():
        a = tuple(x) if star else (x,)
        if cond is not None and not cond(*a):
            return None
        return (f(*a),)

    for c, r in E.ENGINE.explore_inner(base, body):
        if r is not None:
            cases.append((c, r[0]))
    return MapSeq(base, cases)


def _fold(kind, seq, cases):
    if kind == "sum":
        t = Sym.const(0)
        for c, v in cases:
            t = t + (v if c is True else T.indicator(c) * v)
        return T.sum_over(seq, t)
    if any(c is not True for c, _ in cases):
        raise Unsupported("conditional extremum")
    return T.ext_over(kind, seq, [v for _, v in cases])


# --------------------------------------------------------------------------- vectors
class AbsVec:
    """A vector of unknown length n: value at index k is `term` with the canonical bound for k."""

    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, n, term, name=None):
        self.n = n
        self.term = T.coerce(term)
        self.name = name

    def index_seq(self):
        return index_seq(self.n)

    @staticmethod
    def unknown(name, n):
        s = index_seq(n)
        return AbsVec(n, T.func(name, s.bound), name)

    @property
    def shape(self):
        return (self.n,)

    def __pydv_len__(self):
        return self.n

    def copy(self):
        return AbsVec(self.n, self.term)

    def tolist(self):
        out = XList()
        out._flush(("vec", self.copy()))
        return out

    def at(self, k):
        k = T.coerce(k)
        s = self.index_seq()
        return T.subst(self.term, {s.bound_idx: k})

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            if ix == slice(None):
                return self
            a, b = ix.start or 0, ix.stop or 0
            if ix.step in (None, 1) and type(a) is int and type(b) is int and a >= 0 and b <= 0:
                n = self.n - a + b
                if not E.ENGINE.decides(T.coerce(0) <= n):
                    raise Unsupported("slice of a vector of unknown length")
                return AbsVec(n, self.at(index_seq(n).bound + a))
            raise Unsupported("slice of an abstract vector")
        if isinstance(ix, (Sym, int)):
            return self.at(ix)
        out = _np.empty(len(ix), dtype=object)
        for j, k in enumerate(ix):
            out[j] = self.at(k)
        return out

    def __setitem__(self, ix, val):
        s = self.index_seq()
        if isinstance(ix, slice):
            if ix == slice(None):
                self.term = val.term if isinstance(val, AbsVec) else T.coerce(val)
                return
            raise Unsupported("slice of an abstract vector")
        if isinstance(ix, (Sym, int)):
            ix, val = [ix], [val]
        old = self.term
        new = old
        ks = list(ix)
        if not isinstance(val, (list, tuple, _np.ndarray)):
            val = [val] * len(ks)
        for k, v in zip(ks, val):
            k = T.coerce(k)
            d = T.compare0("==", k - s.bound)
            new = new + T.indicator(d) * (T.coerce(v) - T.subst(old, {s.bound_idx: k}))
        self.term = new

    def _bin(self, o, f):
        if isinstance(o, AbsVec):
            if o.n.key() != self.n.key():
                raise Unsupported("vectors of different length")
            return AbsVec(self.n, f(self.term, o.term))
        if isinstance(o, (Sym, int, float, T.F)):
            return AbsVec(self.n, f(self.term, T.coerce(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __pow__(self, e):
        return AbsVec(self.n, self.term**e)

    def __neg__(self):
        return AbsVec(self.n, -self.term)

    def __iadd__(self, o):
        r = self + o
        self.term = r.term
        return self

    def __isub__(self, o):
        r = self - o
        self.term = r.term
        return self

    def __imul__(self, o):
        r = self * o
        self.term = r.term
        return self

    def __itruediv__(self, o):
        r = self / o
        self.term = r.term
        return self

    def pointwise(self, f):
        return AbsVec(self.n, f(self.term))

    def __abs__(self):
        return self.pointwise(T.absolute)

    def fold(self, kind):
        return _fold(kind, self.index_seq(), [(True, self.term)])

    def max(self):
        return self.fold("max")

    def min(self):
        return self.fold("min")

    def sum(self):
        return self.fold("sum")

    def __iter__(self):
        s = self.index_seq()
        return _loop(MapSeq(s, [(True, self.term)]), sys._getframe(1))

    def dot(self, o):
        """Sum over k of self(k) o(k); scatter-added vectors are summed over their elements."""
        if not isinstance(o, AbsVec):
            return NotImplemented
        s = self.index_seq()
        b = s.bound_idx
        prod = self.term * o.term
        out = Sym.const(0)
        for m, c in prod.d.items():
            sums = [
                (i, e)
                for i, e in m
                if T.ATOMS[i].kind == "sum" and b in T.atom_deps(i)
            ]
            if len(sums) == 1 and sums[0][1] == 1:
                i = sums[0][0]
                seq, body = T.ATOMS[i].args
                ((bm, bc),) = body.d.items()
                hit = None
                for j, e in bm:
                    a = T.ATOMS[j]
                    if a.kind == "ind" and e == 1 and a.args[0].op == "==":
                        p = a.args[0].args[0]
                        sol = solve_linear(p, b)
                        if sol is not None:
                            hit = (j, sol)
                            break
                if hit:
                    rest = Sym({tuple(x for x in bm if x[0] != hit[0]): bc})
                    others = Sym({tuple(x for x in m if x[0] != i): c})
                    inner = T.subst(rest * others, {b: hit[1]})
                    out = out + T.sum_over(seq, inner)
                    continue
            out = out + T.sum_over(s, Sym({m: c}))
        return out

    __matmul__ = dot
    __rmatmul__ = dot


class BorderedVec(AbsVec):
    """A vector of unknown length n followed by one more entry."""

    def __init__(self, field, last):
        super().__init__(field.n, field.term, field.name)
        self.field, self.last = field, T.coerce(last)

    @property
    def shape(self):
        return (self.n + 1,)

    def __pydv_len__(self):
        return self.n + 1

    def copy(self):
        return BorderedVec(self.field.copy(), self.last)

    def __getitem__(self, ix):
        if isinstance(ix, slice) and ix.step is None and ix.start in (None, 0):
            if ix.stop is None:
                return self.copy()
            if isinstance(ix.stop, int) and ix.stop == -1 or isinstance(ix.stop, Sym) and not (ix.stop - self.n).d:
                return self.field
        if isinstance(ix, int) and ix == -1 or isinstance(ix, Sym) and not (ix - self.n).d:
            return self.last
        raise Unsupported("index into a bordered vector")

    def __setitem__(self, ix, v):
        raise Unsupported("writing into a bordered vector")

    def _bin(self, o, f):
        if isinstance(o, BorderedVec):
            return BorderedVec(self.field._bin(o.field, f), f(self.last, o.last))
        if isinstance(o, AbsVec):
            raise Unsupported("vectors of different length")
        r = self.field._bin(o, f)
        return r if r is NotImplemented else BorderedVec(r, f(self.last, T.coerce(o)))

    def __pow__(self, e):
        return BorderedVec(self.field**e, self.last**e)

    def __neg__(self):
        return BorderedVec(-self.field, -self.last)

    def pointwise(self, f):
        return BorderedVec(self.field.pointwise(f), f(self.last))

    def fold(self, kind):
        if kind == "sum":
            return self.field.fold(kind) + self.last
        return T.extremum(kind, [self.field.fold(kind), self.last])

    def __iter__(self):
        raise Unsupported("loop over a bordered vector")

    def dot(self, o):
        raise Unsupported("dot of a bordered vector")


def solve_linear(p: Sym, idx):
    """x with p(x)=0 when p is linear in the symbol idx with constant coefficient."""
    coef = None
    rest = Sym.const(0)
    for m, c in p.d.items():
        if m == ((idx, 1),):
            coef = c
        elif any(i == idx or idx in T.atom_deps(i) for i, _ in m):
            return None
        else:
            rest = rest + Sym({m: c})
    if coef is None:
        return None
    return rest * Sym.const(-1 / coef)


# --------------------------------------------------------------------------- heap snapshots
def _walkable(o):
    mod = type(o).__module__
    return (
        mod.startswith("sectionproperties") or getattr(o, "__pydv_obj__", False)
    ) and hasattr(o, "__dict__")


def capture(fr):
    """[(container, kind, content)] for the frame locals and everything mutable they reach."""
    out = []
    seen = set()
    loc = dict(fr.f_locals)
    out.append((fr, "locals", loc))
    todo = [v for v in loc.values()]
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (Sym, int, float, str, bool, type, Poison)) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, tuple):
            todo.extend(o)
        elif isinstance(o, list):
            items = list.__getitem__(o, slice(None))
            out.append((o, "list", (items, list(getattr(o, "chunks", ())))))
            todo.extend(items)
        elif isinstance(o, dict):
            out.append((o, "dict", dict(o)))
            todo.extend(o.values())
        elif isinstance(o, set):
            out.append((o, "set", set(o)))
        elif isinstance(o, _np.ndarray):
            out.append((o, "arr", o.copy()))
            if o.dtype == object:
                todo.extend(x for x in o.ravel() if not isinstance(x, Sym))
        elif isinstance(o, AbsVec):
            out.append((o, "vec", o.term))
        elif isinstance(o, MapSeq):
            for _, v in o.cases:
                todo.append(v)
        elif isinstance(o, SymSeq):
            todo.append(o._elem)
        elif _walkable(o):
            out.append((o, "attrs", dict(o.__dict__)))
            todo.extend(o.__dict__.values())
        elif hasattr(o, "__closure__") and o.__closure__ and hasattr(o, "__code__"):
            for c in o.__closure__:
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif hasattr(o, "__self__") and hasattr(o, "__func__"):
            todo.append(o.__self__)
    return out


def restore(snap):
    for o, kind, c in snap:
        if kind == "locals":
            set_locals(o, c)
        elif kind == "list":
            list.__setitem__(o, slice(None), c[0])
            if isinstance(o, XList):
                o.chunks = list(c[1])
        elif kind == "dict":
            o.clear()
            o.update(c)
        elif kind == "set":
            o.clear()
            o |= c
        elif kind == "arr":
            if o.flags.writeable:
                o[...] = c
        elif kind == "vec":
            o.term = c
        elif kind == "attrs":
            o.__dict__.clear()
            o.__dict__.update(c)


def set_locals(fr, values):
    d = fr.f_locals
    for k in list(d):
        if k not in values:
            del d[k]
    d.update(values)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(fr), ctypes.c_int(1))


def flat(snap):
    """location -> value; location = (container position key, field)."""
    r = {}
    for o, kind, c in snap:
        if kind in ("locals", "attrs", "dict"):
            for k, v in c.items():
                r[(id(o), kind, k)] = v
        elif kind == "list":
            for k, v in enumerate(c[0]):
                r[(id(o), "list", k)] = v
            r[(id(o), "listlen", None)] = (len(c[0]), len(c[1]))
        elif kind == "arr":
            for ix in _np.ndindex(c.shape):
                r[(id(o), "arr", ix)] = c[ix]
        elif kind == "vec":
            r[(id(o), "vec", None)] = c
        elif kind == "set":
            r[(id(o), "set", None)] = frozenset(c)
    return r


def same(a, b):
    if a is b:
        return True
    ca, cb = _num(a), _num(b)
    if ca is not None and cb is not None:
        return ca.d == cb.d
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, bytes, bool, frozenset)):
        return a == b
    if isinstance(a, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, _np.ndarray):
        return a.shape == b.shape and all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
    return False


def _num(v):
    if isinstance(v, bool) or isinstance(v, (str, tuple, list)) or v is None:
        return None
    if isinstance(v, (Sym, int, float, T.F, _np.integer, _np.floating)):
        return T.coerce(v)
    return None


def _put(snap, loc, value):
    """Sets a location in a (fresh copy of a) snapshot."""
    for o, kind, c in snap:
        if id(o) != loc[0]:
            continue
        if kind in ("locals", "attrs", "dict") and loc[1] == kind:
            c[loc[2]] = value
            return
        if kind == "list" and loc[1] == "list":
            c[0][loc[2]] = value
            return
        if kind == "arr" and loc[1] == "arr":
            c[loc[2]] = value
            return
    raise KeyError(loc)


def copy_snap(snap):
    out = []
    for o, kind, c in snap:
        if kind in ("locals", "attrs", "dict"):
            out.append((o, kind, dict(c)))
        elif kind == "list":
            out.append((o, kind, (list(c[0]), list(c[1]))))
        elif kind == "arr":
            out.append((o, kind, c.copy()))
        else:
            out.append((o, kind, c))
    return out


def _set_vec(snap, oid, term):
    for n, (o, kind, c) in enumerate(snap):
        if id(o) == oid and kind == "vec":
            snap[n] = (o, kind, term)
            return
    raise KeyError(oid)


class Folding:
    """A value whose history is recorded: `x = x.op(...)` in a loop becomes one step of that history.

    Subclasses are immutable with a tuple `steps`, and `with_steps(steps)`."""

    def placeholder(self):
        return self.with_steps((("hole", object()),))

    def folded(self, base, hole, results):
        out = []
        for cond, v in results:
            if not isinstance(v, Folding) or v.steps[:1] != hole.steps:
                raise Unsupported("loop-carried value is replaced")
            if v.root is not self.root:
                raise Unsupported("loop-carried value is replaced")
            if v.steps[1:]:
                out.append((cond, v.steps[1:]))
        return self.with_steps((*self.steps, ("loop", base, out)))


# --------------------------------------------------------------------------- the loop rule
_HERE = __file__.rsplit("/", 1)[0]


def _loop(seq, fr):
    if fr.f_code.co_filename.startswith(_HERE):
        # an iteration by the engine's own code: its local state is not the loop's
        raise Unsupported("iteration over an abstract sequence outside the code under contract")
    eng = E.ENGINE
    base = seq.seq if isinstance(seq, MapSeq) else seq
    state0 = capture(fr)
    flat0 = flat(state0)
    vecs = {id(o): o for o, k, _ in state0 if k == "vec"}
    arrs = {id(o): o for o, k, _ in state0 if k == "arr"}
    havoc: dict = {}  # location -> fresh symbol / function term
    own = _reach(base)  # state of the generic element: each element is visited once, in its initial state
    finished = False
    try:
        for _round in range(6):
            # state with the known-modified locations havocked
            start = copy_snap(state0)
            for loc, h in havoc.items():
                if h is None:
                    continue
                if loc[1] == "vec":
                    _set_vec(start, loc[0], h)
                else:
                    _put(start, loc, h)
            fstart = flat(start)
            results = []
            agenda = [[]]
            while agenda:
                prefix = agenda.pop()
                restore(start)
                eng.push(prefix, base.bound_idx, [h for h in havoc.values() if not isinstance(h, Folding)])
                elem = seq.generic()
                yield elem
                ctx = eng.pop()
                st = capture(fr)
                results.append((ctx.condition(), flat(st), st))
                agenda.extend(ctx.alternatives())
                if len(results) > 64:
                    raise Unsupported("too many paths in a loop body")
            modified = {}
            for _, f, _ in results:
                for loc, v in f.items():
                    if loc in fstart:
                        if not same(fstart[loc], v):
                            modified[loc] = None
                    elif loc[1] in ("locals",):
                        modified[loc] = None
                for loc in fstart:
                    if loc not in f and loc[1] in ("locals", "dict", "attrs"):
                        modified[loc] = None
            new = [l for l in modified if l not in havoc]
            if not new:
                break
            for loc in new:
                if loc[0] in own and loc[1] in ("attrs", "arr", "list", "vec", "dict"):
                    havoc[loc] = None
                elif loc[1] == "vec":
                    v = vecs[loc[0]]
                    havoc[loc] = T.func(freevec_name(loc[0]), v.index_seq().bound)
                elif loc in flat0 and _num(flat0[loc]) is not None and loc[1] in (
                    "locals", "attrs", "dict", "list", "arr",
                ) and not _elem_loc(loc, seq):
                    havoc[loc] = T.symbol("havoc", fresh=True)
                elif loc in flat0 and isinstance(flat0[loc], Folding) and loc[1] == "locals":
                    havoc[loc] = flat0[loc].placeholder()
                else:
                    havoc[loc] = None  # temporaries: rebuilt every iteration
        else:
            raise Unsupported("loop state does not stabilise")
        final = copy_snap(state0)
        _conclude(base, state0, flat0, final, havoc, results, vecs)
        restore(final)
        finished = True
    except GeneratorExit:
        if not finished:
            eng.poison("early exit from a loop over an abstract sequence")
        raise


def _elem_loc(loc, seq):
    return False


def _conclude(base, state0, flat0, final, havoc, results, vecs):
    hs = {}
    for loc, h in havoc.items():
        if h is not None and not isinstance(h, Folding):
            for m in h.d:
                for i, _ in m:
                    hs[i] = loc
    hidx = set(hs)
    hnames = {T.ATOMS[i].info["fname"] for i in hidx if T.ATOMS[i].kind == "fn"}

    def touches_havoc(p):
        if p is True or p is None:
            return False
        for i in T.atoms_in(p):
            if i in hidx or (T.ATOMS[i].kind == "fn" and T.ATOMS[i].info["fname"] in hnames):
                return True
        return False

    conds = [c for c, _, _ in results]

    def merged(vals):
        """Case split over the body paths."""
        if all(same(v, vals[0]) for v in vals):
            return vals[0]
        t = Sym.const(0)
        for c, v in zip(conds, vals):
            t = t + (v if c is True else T.indicator(c) * v)
        return t

    elem_objs = _reach(base)
    for loc in havoc:
        kind = loc[1]
        h = havoc[loc]
        if kind == "locals" and h is None:
            _put_local(final, loc, Poison(f"a loop-local value after the loop ({loc[2]})"))
            continue
        if kind == "listlen":
            _append_fold(base, final, loc, results)
            continue
        if kind == "list" and loc not in flat0:
            continue
        if loc[0] in elem_objs and kind in ("attrs", "arr", "list", "vec", "dict"):
            # state of the generic element itself: each element is visited once
            vals = [f[loc] for _, f, _ in results]
            if kind == "vec" or all(_num(v) is not None for v in vals):
                vals = [_num(v) for v in vals]
                if any(touches_havoc(v) for v in vals):
                    raise Unsupported("element state depends on loop-carried state")
                v = merged(vals)
            elif all(same(v, vals[0]) for v in vals):
                v = vals[0]
            else:
                raise Unsupported("element state differs between paths")
            if kind == "vec":
                _set_vec(final, loc[0], v)
            else:
                _put(final, loc, v)
            continue
        if h is None:
            raise Unsupported(f"non-numeric loop-carried state ({kind} {loc[2]})")
        if isinstance(h, Folding):
            _put(final, loc, flat0[loc].folded(base, h, [(c, f.get(loc)) for c, f, _ in results]))
            continue
        init = _num(flat0[loc])
        news = []
        for _, f, _ in results:
            v = f.get(loc)
            nv = _num(v) if kind != "vec" else v
            if nv is None:
                raise Unsupported(f"loop-carried state becomes non-numeric ({loc[2]})")
            news.append(nv)
        value = _fold_numeric(base, conds, h, init, news, touches_havoc, merged, kind, hs, havoc, flat0, vecs, loc)
        if kind == "vec":
            _set_vec(final, loc[0], value)
        elif value is _LAST:
            if kind == "locals":
                _put_local(final, loc, Poison(f"the last value of {loc[2]} after a loop"))
            else:
                raise Unsupported(f"loop leaves the last iteration's value in {loc[2]}")
        else:
            _put(final, loc, value)


_LAST = object()


def _only(h):
    ((m, _),) = h.d.items()
    return m[0][0]


def _put_local(final, loc, v):
    for o, kind, c in final:
        if kind == "locals" and id(o) == loc[0]:
            c[loc[2]] = v


def _reach(base):
    """ids of the mutable parts of the generic element."""
    out = set()
    todo = [base.generic()]
    while todo:
        o = todo.pop()
        if id(o) in out or o is None or isinstance(o, (Sym, int, float, str, bool, type, Poison)):
            continue
        if isinstance(o, tuple):
            todo.extend(o)
            continue
        if getattr(o, "__pydv_shared__", False):
            continue
        if isinstance(o, list):
            out.add(id(o))
            todo.extend(list.__getitem__(o, slice(None)))
        elif isinstance(o, dict):
            out.add(id(o))
            todo.extend(o.values())
        elif isinstance(o, _np.ndarray):
            out.add(id(o))
        elif isinstance(o, SymSeq):
            todo.append(o.generic())
        elif isinstance(o, AbsVec):
            out.add(id(o))
        elif _walkable(o):
            out.add(id(o))
            todo.extend(o.__dict__.values())
    return out


def _fold_numeric(base, conds, h, init, news, touches, merged, kind, hs, havoc, flat0, vecs, loc):
    cond_ok = not any(touches(c) for c in conds)
    deltas = [n - h for n in news]
    if cond_ok and not any(touches(d) for d in deltas):
        return init + T.sum_over(base, merged_sum(conds, deltas))
    # pointwise update of vectors indexed by the loop variable
    if kind == "vec":
        r = _pointwise(base, conds, h, init, news, hs, havoc, flat0, vecs, loc)
        if r is not None:
            return r
        raise Unsupported("vector update does not fit a fold")
    # extremum
    for ek in ("max", "min"):
        r = _extremum(ek, base, conds, h, init, news, touches)
        if r is not None:
            return r
    if cond_ok and not any(touches(n) for n in news):
        if all(same(n, news[0]) for n in news) and base.bound_idx not in T.deps(news[0]):
            return news[0]
        return _LAST
    raise Unsupported("loop-carried dependency is not a recognised fold")


def merged_sum(conds, vals):
    t = Sym.const(0)
    for c, v in zip(conds, vals):
        t = t + (v if c is True else T.indicator(c) * v)
    return t


def _pointwise(base, conds, h, init, news, hs, havoc, flat0, vecs, loc):
    vec = vecs[loc[0]]
    s = vec.index_seq()
    if base.name != s.name:
        # a loop over another numbering of the same indices is out of reach
        return None
    # the loop bound and the vector index coincide as symbols (canonical index sequence);
    # the body updated index `bound`, so the term reads h + [bound==bound](...) already at k
    news2 = merged_sum(conds, news)
    mp = {}
    for i, l in hs.items():
        a = T.ATOMS[i]
        if a.kind == "fn":
            mp[i] = T.coerce(flat0[l])
        else:
            return None
    r = T.subst(news2, mp)
    return r


def _extremum(ek, base, conds, h, init, news, touches):
    hi = _only(h)
    terms = []
    for c, n in zip(conds, news):
        if n.d == h.d:
            # unchanged on this path; the guard must be "new value not better"
            if c is True:
                continue
            terms.append(("keep", c, None))
            continue
        if len(n.d) == 1:
            ((m, k),) = n.d.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and T.ATOMS[m[0][0]].kind == ek:
                args = T.ATOMS[m[0][0]].args
                if any(a.d == h.d for a in args):
                    rest = [a for a in args if a.d != h.d]
                    if any(touches(a) for a in rest) or touches(c):
                        return None
                    if c is not True:
                        return None
                    terms.append(("ext", c, rest))
                    continue
        if not touches(n):
            terms.append(("take", c, n))
            continue
        return None
    takes = [t for t in terms if t[0] == "take"]
    keeps = [t for t in terms if t[0] == "keep"]
    exts = [t for t in terms if t[0] == "ext"]
    if exts and not takes and not keeps:
        ts = [x for t in exts for x in t[2]]
        return T.extremum(ek, [init, T.ext_over(ek, base, ts)])
    if len(takes) == 1 and len(keeps) == 1 and not exts:
        _, c, n = takes[0]
        want = [
            T.compare0("<", h - n), T.compare0("<=", h - n)
        ] if ek == "max" else [T.compare0("<", n - h), T.compare0("<=", n - h)]
        if any(isinstance(w, T.SymBool) and c == w for w in want):
            return T.extremum(ek, [init, T.ext_over(ek, base, [n])])
    return None


class Nested(list):
    """Chunks appended by one iteration of an outer abstract loop."""


def _append_fold(base, final, loc, results):
    for n, (o, kind, c) in enumerate(final):
        if id(o) == loc[0] and kind == "list":
            if not isinstance(o, XList):
                raise Unsupported("append to a list of unknown origin")
            ln, lc = len(c[0]), len(c[1])
            parts = []
            for cond, f, st in results:
                for oo, kk, cc in st:
                    if oo is o and kk == "list":
                        if len(cc[1]) > lc:  # chunks appended in the iteration
                            old = [("items", list(c[0]))] if c[0] else []
                            extra = cc[1][lc:]
                            if [k for k, *_ in old] and extra[0] != old[0]:
                                raise Unsupported("nested abstract append")
                            extra = extra[len(old):]
                            if cond is not True or cc[0]:
                                raise Unsupported("nested abstract append")
                            parts.append((cond, Nested(extra)))
                            continue
                        items = cc[0][ln:]
                        parts.append((cond, items))
            chunks = list(c[1])
            if c[0]:
                chunks.append(("items", list(c[0])))
            if any(isinstance(i, Nested) for _, i in parts):
                if len(parts) != 1:
                    raise Unsupported("nested abstract append")
                chunks.append(("nest", base, list(parts[0][1])))
            elif len(parts) == 1 and parts[0][0] is True:
                chunks.append(("loop", base, parts[0][1]))
            else:  # appended on some paths only
                chunks.append(("cases", base, [(q, i) for q, i in parts if i]))
            final[n] = (o, kind, ([], chunks))
            return
