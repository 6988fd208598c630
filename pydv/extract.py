"""Mechanical extraction: loads /repo/src/sectionproperties under a source transformation.

What the transformation changes (and nothing else):
  * decimal literals become exact rationals; `/` of two numbers becomes exact division
    (so machine arithmetic is treated as real arithmetic);
  * `import numpy` / numba's njit / functools.cache resolve to `pydv.npx`;
  * list comprehensions and generator expressions with a single `for` go through a helper
    that maps over abstract sequences (identical to Python's for ordinary iterables);
  * the builtins max, min, abs, sum, float, int, round, enumerate, zip, range, len, isinstance,
    sorted, any, all see symbolic values.
Annotations and docstrings are ignored by Python at run time and therefore here too.
"""

from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

import numpy as _np

from . import npx, seqs
from . import terms as T
from .terms import Sym, SymBool, Unsupported

SRC = os.environ.get("PYDV_SRC", "/repo/src")


class Rewriter(ast.NodeTransformer):
    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(
                ast.Call(ast.Name("pydv_F_", ast.Load()), [ast.Constant(repr(node.value))], []), node
            )
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if not node.elts and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("pydv_list_", ast.Load()), [], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(
                ast.Call(ast.Name("pydv_div_", ast.Load()), [node.left, node.right], []), node
            )
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            return ast.copy_location(
                ast.Assign(
                    [node.target],
                    ast.Call(
                        ast.Name("pydv_div_", ast.Load()),
                        [ast.Name(node.target.id, ast.Load()), node.value],
                        [],
                    ),
                ),
                node,
            )
        return node

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        # lambda over the target: only simple targets
        names = []

        def flat(t):
            if isinstance(t, ast.Name):
                names.append(t.id)
                return True
            if isinstance(t, ast.Tuple):
                return all(flat(x) for x in t.elts)
            return False

        if not flat(g.target):
            return node
        for sub in ast.walk(node):
            if isinstance(sub, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                return node
        star = isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts)
        if isinstance(g.target, ast.Tuple) and not star:
            return node
        args = ast.arguments(
            posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]
        )
        body = ast.Lambda(args, node.elt)
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = ast.Lambda(args, test)
        else:
            cond = ast.Constant(None)
        call = ast.Call(
            ast.Name("pydv_comp_", ast.Load()),
            [ast.Constant(kind), body, g.iter, cond, ast.Constant(star)],
            [],
        )
        return ast.copy_location(call, node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == "numpy":
                out.append(ast.alias("pydv.npx", a.asname or "numpy"))
            elif a.name == "math":
                out.append(ast.alias("pydv.mathx", a.asname or "math"))
            else:
                out.append(a)
        r = []
        for a in out:
            r.append(ast.copy_location(ast.Import([a]), node))
        return r

    def visit_ImportFrom(self, node):
        if node.module == "numba" or (
            node.module == "functools" and all(a.name in ("cache", "lru_cache") for a in node.names)
        ):
            return ast.copy_location(ast.ImportFrom("pydv.npx", node.names, 0), node)
        if node.module == "math":
            return ast.copy_location(ast.ImportFrom("pydv.mathx", node.names, 0), node)
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def _F(s):
    return Sym({T.ONE: T.F(s)}) if T.F(s) else Sym({})


def _div(a, b):
    ta, tb = type(a), type(b)
    num = (int, Sym, T.F)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool):
        ca, cb = T.coerce(a), T.coerce(b)
        return ca / cb
    if isinstance(a, _np.ndarray) and a.dtype.kind in "iu" and isinstance(b, num):
        return npx.symarray(a) / T.coerce(b)
    return a / b


def _conc_or(f, fallback):
    return f, fallback


class _SymFloat:
    """float as the extracted code sees it."""


class _Type:
    """A builtin type of the extracted code: callable, and usable in `float | int`."""

    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __or__(self, o):
        return (self, *(o if isinstance(o, tuple) else (o,)))

    def __ror__(self, o):
        return (*(o if isinstance(o, tuple) else (o,)), self)


@_Type
def x_float(v=0.0):
    c = T.coerce(v) if not isinstance(v, str) else Sym.const(T.F(v))
    return v if c is NotImplemented else c


@_Type
def x_int(v=0, *a):
    if isinstance(v, Sym):
        return int(v)
    return int(v, *a)


def x_round(v, n=None):
    if isinstance(v, Sym):
        return v.__round__(n)
    return round(v, n) if n is not None else round(v)


def x_abs(v):
    if isinstance(v, Sym):
        return T.absolute(v)
    return abs(v)


def _ext(kind, py):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            it = a[0]
            if isinstance(it, (seqs.MapSeq, seqs.SymSeq, seqs.AbsVec)):
                if key is not None:
                    raise Unsupported("keyed extremum of an abstract sequence")
                return it.fold(kind)
            items = list(it)
        else:
            items = list(a)
        if key is None and any(isinstance(x, Sym) for x in items):
            return T.extremum(kind, items)
        kw = {}
        if key is not None:
            kw["key"] = key
        if default is not None and len(a) == 1:
            kw["default"] = default
        return py(items, **kw)

    return f


x_max = _ext("max", max)
x_min = _ext("min", min)


def x_sum(it, start=0):
    if isinstance(it, (seqs.MapSeq, seqs.SymSeq, seqs.AbsVec)) or type(it) is seqs.ConcatSeq:
        return it.fold("sum") + start
    r = start
    for v in it:
        r = r + v
    return r


def x_any(it):
    if isinstance(it, (seqs.MapSeq, seqs.SymSeq, seqs.AbsVec)):
        raise Unsupported("any() over an abstract sequence")
    return any(it)


def x_all(it):
    if isinstance(it, (seqs.MapSeq, seqs.SymSeq, seqs.AbsVec)):
        raise Unsupported("all() over an abstract sequence")
    return all(it)


def x_len(o):
    n = getattr(o, "__pydv_len__", None)
    if n is not None:
        return n()
    return len(o)


def x_range(*a):
    if any(isinstance(x, Sym) and not x.is_const() for x in a):
        if len(a) == 1:
            return seqs.RangeSeq(a[0])
        raise Unsupported("symbolic range")
    return range(*(int(x) for x in a))


def x_enumerate(it, start=0):
    if isinstance(it, seqs.XList) and it.chunks:
        it = seqs.as_seq(it)
    if isinstance(it, (seqs.MapSeq, seqs.SymSeq, seqs.AbsVec)):
        return seqs.EnumSeq(it, start)
    return enumerate(it, start)


def x_zip(*its, strict=False):
    if any(isinstance(i, seqs.ConstSeq) for i in its):
        return seqs.ZipSeq(its)
    if its and all(isinstance(i, seqs.XList) for i in its) and any(i.chunks for i in its):
        return seqs.zip_lists(its)
    if any(isinstance(i, (seqs.MapSeq, seqs.SymSeq, seqs.AbsVec, seqs.ConstSeq)) for i in its):
        return seqs.ZipSeq(its)
    return zip(*its)


def x_list(it=()):
    if isinstance(it, seqs.XList) and it.chunks:
        return seqs.as_seq(it)
    if isinstance(it, (seqs.MapSeq, seqs.SymSeq, seqs.AbsVec, seqs.ConcatSeq)):
        return it.as_list() if hasattr(it, "as_list") else it
    return list(it)


class _Set(set):
    """set() of the extracted code: of abstract sequences, the sequence of their distinct values."""

    def __new__(cls, it=()):
        if isinstance(it, (seqs.MapSeq, seqs.ConcatSeq)):
            return seqs.DistinctSeq(it.parts if isinstance(it, seqs.ConcatSeq) else [it])
        return set(it)


def x_isinstance(o, c):
    if isinstance(o, Sym):
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            if k in (float, x_float) or k is Sym:
                return True
            if k in (int, x_int):
                return False
        return False
    def fix(k):
        if k is x_float:
            return float
        if k is x_int:
            return int
        if k is x_list:
            return list
        if k is _Set:
            return set
        return k
    if isinstance(c, tuple):
        return isinstance(o, tuple(fix(k) for k in c))
    return isinstance(o, fix(c))


def x_comp(kind, f, it, cond, star):
    if isinstance(it, seqs.XList) and it.chunks:
        it = seqs.as_seq(it)
    if isinstance(it, (seqs.MapSeq, seqs.SymSeq, seqs.AbsVec)):
        return seqs.map_seq(f, it, cond, star)
    if isinstance(it, seqs.ConcatSeq) and type(it) is seqs.ConcatSeq:
        def part(p):
            if isinstance(p, seqs.AbsVec):
                p = seqs.vec_seq(p)
            return seqs.map_seq(f, p, cond, star) if isinstance(p, seqs.SymSeq) else list(x_comp("list", f, p, cond, star))

        return seqs.ConcatSeq([part(p) for p in it.parts])

    def gen():
        for x in it:
            if star:
                x = tuple(x)
                if cond is None or cond(*x):
                    yield f(*x)
            elif cond is None or cond(x):
                yield f(x)

    return list(gen()) if kind == "list" else gen()


ENV = {
    "pydv_F_": _F,
    "pydv_list_": seqs.XList,
    "pydv_div_": _div,
    "pydv_comp_": x_comp,
    "max": x_max,
    "min": x_min,
    "abs": x_abs,
    "sum": x_sum,
    "any": x_any,
    "all": x_all,
    "len": x_len,
    "range": x_range,
    "enumerate": x_enumerate,
    "zip": x_zip,
    "round": x_round,
    "float": x_float,
    "int": x_int,
    "isinstance": x_isinstance,
    "set": _Set,
}


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        module.__dict__.update(ENV)
        LOADED.append(self.path)
        exec(code, module.__dict__)


LOADED: list = []


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "sectionproperties" and not name.startswith("sectionproperties."):
            return None
        rel = name.replace(".", "/")
        pkg = os.path.join(SRC, rel, "__init__.py")
        mod = os.path.join(SRC, rel + ".py")
        if os.path.exists(pkg):
            return importlib.util.spec_from_file_location(
                name, pkg, loader=Loader(pkg), submodule_search_locations=[os.path.dirname(pkg)]
            )
        if os.path.exists(mod):
            return importlib.util.spec_from_file_location(name, mod, loader=Loader(mod))
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        for m in list(sys.modules):
            if m == "sectionproperties" or m.startswith("sectionproperties."):
                del sys.modules[m]
        sys.meta_path.insert(0, Finder())
