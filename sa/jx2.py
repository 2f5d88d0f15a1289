"""Further abstract transformers of the jax / numpy interface: less common names that equivalent code may use."""
import functools
from fractions import Fraction

import numpy as np

from . import core as C
from . import jx
from .arr import Arr, asarr, binop, getitem, matmul, promote, toint, unop, wrap
from .core import CTX, ProgramError, Unsupported
from .jx import REG, both, ints, npcall, reg, shape_of, tree_flatten, tree_leaves, tree_map, tree_unflatten

J = "jax.numpy."


def concrete(a, what):
    """numpy array of the numbers of an array that is known to the analysis"""
    a = asarr(a)

    def f(e):
        if isinstance(e, (bool, np.bool_)):
            return bool(e)
        if isinstance(e, C.Bo):
            raise Unsupported(f"{what} of abstract truth values")
        c = C.prim(C.num(e)).const
        if c is None:
            raise Unsupported(f"{what} of abstract numbers")
        return c if c.denominator != 1 else int(c)
    if a.ndim == 0:
        r = np.empty((), dtype=object)
        r[()] = f(a.data[()])
        return r
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = f(a.data[i])
    return r


def from_np(x, kind="jnp"):
    x = np.asarray(x)
    dt = "bool" if x.dtype == bool else "int" if x.dtype.kind in "iu" else "float"
    if x.dtype == object and x.size and all(isinstance(e, (int, np.integer)) for e in x.reshape(-1)):
        dt = "int"
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        v = x[i]
        o[i] = bool(v) if dt == "bool" else C.const(int(v) if dt == "int" else Fraction(v))
    return Arr(o, dt, kind)


def shapely(name, fn, *pos):
    """model of a function that only moves entries: numpy on the object array"""
    def f(a, *args, **k):
        a = asarr(a)
        return Arr(npcall(fn, a.data, *[ints(v) if not callable(v) else v for v in args], **{q: ints(v) for q, v in k.items()}), a.dt)
    both(name)(f)


shapely("rollaxis", np.rollaxis)
shapely("resize", np.resize)
both("atleast_3d")(lambda *a: [Arr(np.atleast_3d(asarr(x).data), asarr(x).dt) for x in a] if len(a) > 1 else
                   Arr(np.atleast_3d(asarr(a[0]).data), asarr(a[0]).dt))
both("dsplit")(lambda a, s: jx.split(a, s, 2))
both("astype")(lambda x, dtype, **k: jx.astype(x, dtype))
both("isrealobj")(lambda a: True)
both("iterable")(lambda a: isinstance(a, (list, tuple, dict)) or (isinstance(a, Arr) and a.ndim > 0))
both("broadcast_shapes")(lambda *s: tuple(int(v) for v in npcall(np.broadcast_shapes, *[shape_of(x) if not isinstance(x, int) else (x,) for x in s])))
REG["jax.lax.broadcast_shapes"] = REG[J + "broadcast_shapes"]


def _result_type(*a):
    return jx.DType(promote(*[x.dt if isinstance(x, (Arr, jx.DType)) else asarr(x).dt for x in a]))


both("result_type")(_result_type)
both("promote_types")(_result_type)
REG["jax.dtypes.canonicalize_dtype"] = lambda d, **k: d
REG["jax.lax.dtype"] = lambda x: jx.DType(asarr(x).dt)


# index helpers (concrete by construction)
both("diag_indices")(lambda n, ndim=2: tuple(from_np(x) for x in np.diag_indices(toint(n), toint(ndim))))
both("diag_indices_from")(lambda a: tuple(from_np(x) for x in np.diag_indices(asarr(a).shape[0], asarr(a).ndim)))
both("tril_indices")(lambda n, k=0, m=None: tuple(from_np(x) for x in np.tril_indices(toint(n), toint(k), ints(m))))
both("triu_indices")(lambda n, k=0, m=None: tuple(from_np(x) for x in np.triu_indices(toint(n), toint(k), ints(m))))
both("tril_indices_from")(lambda a, k=0: tuple(from_np(x) for x in np.tril_indices(asarr(a).shape[-2], toint(k), asarr(a).shape[-1])))
both("triu_indices_from")(lambda a, k=0: tuple(from_np(x) for x in np.triu_indices(asarr(a).shape[-2], toint(k), asarr(a).shape[-1])))
both("indices")(lambda dimensions, dtype=None, sparse=False: from_np(np.indices(shape_of(dimensions))) if not sparse else
                tuple(from_np(x) for x in np.indices(shape_of(dimensions), sparse=True)))
both("ix_")(lambda *a: tuple(Arr(x.reshape([-1 if i == k else 1 for i in range(len(a))]), asarr(a[k]).dt)
                             for k, x in enumerate([asarr(v).data for v in a])))
both("unravel_index")(lambda indices, shape: tuple(from_np(x) for x in np.unravel_index(
    concrete(indices, "unravel_index").astype(int), shape_of(shape))))
both("ravel_multi_index")(lambda mi, dims, **k: from_np(np.ravel_multi_index(
    tuple(concrete(m, "ravel_multi_index").astype(int) for m in mi), shape_of(dims))))


@both("fromfunction")
def fromfunction(function, shape, *, dtype=float, **k):
    idx = [from_np(x) for x in np.indices(shape_of(shape))]
    dt = jx.dtype_of(dtype) or "float"
    return asarr(function(*[Arr(x.data, dt) for x in idx], **k))


class _R:
    """jnp.r_ / jnp.c_"""

    def __init__(self, column):
        self.column = column

    def __getitem__(self, key):
        parts = key if isinstance(key, tuple) else (key,)
        out = []
        for p in parts:
            if isinstance(p, str):
                raise Unsupported("r_ with a directive")
            if isinstance(p, slice):
                st = p.step
                if isinstance(st, complex):
                    p = jx.linspace(p.start, p.stop, int(abs(st)))
                else:
                    p = jx.arange(0 if p.start is None else p.start, p.stop, 1 if st is None else st)
            p = asarr(p)
            if p.ndim == 0:
                p = Arr(p.data.reshape(1), p.dt)
            if self.column and p.ndim == 1:
                p = Arr(p.data[:, None], p.dt)
            out.append(p)
        return REG[J + "concatenate"](out, -1 if self.column else 0)


class _S:
    def __init__(self, maketuple):
        self.maketuple = maketuple

    def __getitem__(self, key):
        return key if not self.maketuple or isinstance(key, tuple) else (key,)


class _MGrid:
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        one = not isinstance(key, tuple)
        axes = []
        for p in ((key,) if one else key):
            if isinstance(p.step, complex):
                axes.append(jx.linspace(0 if p.start is None else p.start, p.stop, int(abs(p.step))))
            else:
                axes.append(jx.arange(0 if p.start is None else p.start, p.stop, 1 if p.step is None else p.step))
        if one:
            return axes[0]
        g = np.meshgrid(*[a.data for a in axes], indexing="ij", sparse=self.sparse)
        if self.sparse:
            return [Arr(np.array(x), a.dt) for x, a in zip(g, axes)]
        return Arr(np.stack(g), promote(*[a.dt for a in axes]))


NAMESPACE_OBJECTS = {}
for _m in ("jax.numpy.", "numpy."):
    NAMESPACE_OBJECTS[_m + "r_"] = _R(False)
    NAMESPACE_OBJECTS[_m + "c_"] = _R(True)
    NAMESPACE_OBJECTS[_m + "s_"] = _S(False)
    NAMESPACE_OBJECTS[_m + "index_exp"] = _S(True)
    NAMESPACE_OBJECTS[_m + "mgrid"] = _MGrid(False)
    NAMESPACE_OBJECTS[_m + "ogrid"] = _MGrid(True)


def _const_atom(n):
    return lambda: wrap(C.atom("constant", n), "float", "py")


CONSTANTS = {"jax.numpy.euler_gamma": _const_atom("euler_gamma"), "numpy.euler_gamma": _const_atom("euler_gamma")}
for _n in ("inf", "nan"):
    for _m in ("jax.numpy.", "numpy."):
        CONSTANTS[_m + _n] = _const_atom(_n)

# elementwise
jx._reg_un(["rad2deg", "degrees"], lambda x: C.div(C.mul(x, C.const(180)), C.prim(C.num(jx.pi_const().scalar()))))
jx._reg_un(["deg2rad", "radians"], lambda x: C.div(C.mul(x, C.prim(C.num(jx.pi_const().scalar()))), C.const(180)))
jx._reg_un(["log10"], lambda x: C.div(C.log(x), C.log(C.const(10))))
jx._reg_un(["isneginf", "isposinf"], lambda x: False, "bool")
jx._reg_un(["iscomplex"], lambda x: False, "bool")
for _n in ("arccosh", "trunc", "fix", "sinc", "i0"):
    jx._reg_un([_n], functools.partial(C.unary, _n))
both("around")(lambda a, decimals=0, out=None: REG[J + "round"](a))
both("round_")(lambda a, decimals=0, out=None: REG[J + "round"](a))
both("divmod")(lambda a, b: (binop("floordiv", asarr(a), asarr(b)), binop("mod", asarr(a), asarr(b))))
both("bitwise_xor")(lambda a, b: binop("xor", asarr(a), asarr(b)))
both("bitwise_not")(lambda a: REG[J + "logical_not"](a))
both("invert")(lambda a: REG[J + "logical_not"](a))
both("nansum")(REG[J + "sum"])
both("nanmean")(REG[J + "mean"])
both("nanprod")(REG[J + "prod"])
both("nancumsum")(REG[J + "cumsum"])
both("nanmax")(REG[J + "max"])
both("nanmin")(REG[J + "min"])
both("nanstd")(REG[J + "std"])
both("nanvar")(REG[J + "var"])
for _n in ("tan", "sinh", "cosh", "cbrt", "imag", "conj", "round"):
    REG["jax.lax." + _n] = REG[J + _n]
for _n in ("asin", "acos", "atan", "asinh", "acosh", "atanh"):
    REG["jax.lax." + _n] = REG[J + "arc" + _n[1:]]
REG["jax.lax.exp2"] = REG[J + "exp2"]
REG["jax.lax.is_finite"] = REG[J + "isfinite"]
REG["jax.lax.logistic"] = REG["jax.nn.sigmoid"]
REG["jax.lax.erf"] = REG["jax.scipy.special.erf"]
REG["jax.scipy.special.expit"] = REG["jax.nn.sigmoid"]
REG["jax.lax.bitwise_and"] = REG[J + "bitwise_and"]
REG["jax.lax.bitwise_or"] = REG[J + "bitwise_or"]
REG["jax.lax.bitwise_not"] = REG[J + "logical_not"]
REG["jax.lax.select_n"] = lambda which, *cases: _select_n(which, cases)
REG["jax.lax.clamp"] = lambda lo, x, hi: binop("min", binop("max", asarr(x), asarr(lo)), asarr(hi))
REG["jax.lax.full_like"] = REG[J + "full_like"]
REG["jax.lax.squeeze"] = lambda a, dimensions: REG[J + "squeeze"](a, tuple(ints(d) for d in dimensions))
REG["jax.lax.broadcast"] = lambda a, sizes: REG[J + "broadcast_to"](a, tuple(shape_of(sizes)) + asarr(a).shape)
REG["jax.lax.argmax"] = lambda a, axis, index_dtype=None: REG[J + "argmax"](a, axis)
REG["jax.lax.argmin"] = lambda a, axis, index_dtype=None: REG[J + "argmin"](a, axis)
REG["jax.lax.batch_matmul"] = lambda a, b, precision=None: matmul(asarr(a), asarr(b))
REG["jax.lax.cumprod"] = lambda operand, axis=0, reverse=False: (
    REG[J + "cumprod"](operand, axis) if not reverse else
    REG[J + "flip"](REG[J + "cumprod"](REG[J + "flip"](operand, axis), axis), axis))
REG["jax.lax.sort"] = lambda operand, dimension=-1, **k: REG[J + "sort"](operand, dimension)


def _select_n(which, cases):
    w = asarr(which)
    if w.dt == "bool" and len(cases) == 2:
        return REG[J + "where"](w, cases[1], cases[0])
    r = asarr(cases[-1])
    for i in range(len(cases) - 2, -1, -1):
        r = REG[J + "where"](binop("eq", w, i), cases[i], r)
    return r


@reg("jax.lax.broadcast_in_dim")
def broadcast_in_dim(operand, shape, broadcast_dimensions):
    a = asarr(operand)
    shp = shape_of(shape)
    new = [1] * len(shp)
    for d, k in zip(a.shape, broadcast_dimensions):
        new[toint(k)] = d
    return Arr(npcall(np.broadcast_to, a.data.reshape(new), shp), a.dt)


@reg("jax.lax.slice")
def lax_slice(operand, start_indices, limit_indices, strides=None):
    a = asarr(operand)
    st = [1] * a.ndim if strides is None else [toint(s) for s in strides]
    sl = []
    for lo, hi, s, n in zip(start_indices, limit_indices, st, a.shape):
        lo, hi = toint(lo), toint(hi)
        if not 0 <= lo <= hi <= n:
            raise ProgramError("shape", f"lax.slice [{lo}, {hi}) of an axis of size {n}")
        sl.append(slice(lo, hi, s))
    return Arr(a.data[tuple(sl)], a.dt)


@reg("jax.lax.pad")
def lax_pad(operand, padding_value, padding_config):
    a, v = asarr(operand), asarr(padding_value)
    if any(toint(x) for _, _, x in padding_config):
        raise Unsupported("lax.pad with interior padding")
    if any(toint(x) < 0 for lo, hi, _ in padding_config for x in (lo, hi)):
        raise Unsupported("lax.pad with negative padding")
    out = np.empty([n + toint(lo) + toint(hi) for n, (lo, hi, _) in zip(a.shape, padding_config)], dtype=object)
    out[...] = v.scalar()
    out[tuple(slice(toint(lo), toint(lo) + n) for n, (lo, hi, _) in zip(a.shape, padding_config))] = a.data
    return Arr(out, promote(a.dt, v.dt))


@reg("jax.lax.dot_general")
@jx.preferred
def dot_general(lhs, rhs, dimension_numbers, precision=None):
    a, b = asarr(lhs), asarr(rhs)
    (lc, rc), (lb, rb) = dimension_numbers
    lc, rc, lb, rb = [[toint(v) for v in x] for x in (lc, rc, lb, rb)]
    la = [chr(97 + i) for i in range(a.ndim)]
    lr = [chr(65 + i) for i in range(b.ndim)]
    for i, j in zip(lc, rc):
        lr[j] = la[i]
    for i, j in zip(lb, rb):
        lr[j] = la[i]
    out = [la[i] for i in lb] + [c for i, c in enumerate(la) if i not in lb + lc] + \
          [c for j, c in enumerate(lr) if j not in rb + rc]
    return jx.einsum("".join(la) + "," + "".join(lr) + "->" + "".join(out), a, b)


@reg("jax.lax.broadcasted_iota")
def broadcasted_iota(dtype, shape, dimension):
    return from_np(np.indices(shape_of(shape))[toint(dimension)])


@reg("jax.lax.collapse")
def collapse(operand, start_dimension, stop_dimension=None):
    a = asarr(operand)
    lo = toint(start_dimension) % a.ndim
    hi = a.ndim if stop_dimension is None else toint(stop_dimension) % (a.ndim + 1)
    return Arr(a.data.reshape(a.shape[:lo] + (-1,) + a.shape[hi:]), a.dt)


# selection
@both("select")
def select(condlist, choicelist, default=0):
    r = asarr(default)
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = REG[J + "where"](c, v, r)
    return r


@both("piecewise")
def piecewise(x, condlist, funclist, *args, **kw):
    x = asarr(x)
    conds = [asarr(c) for c in (condlist if isinstance(condlist, (list, tuple)) else [condlist])]
    fl = list(funclist)
    r = asarr(0)
    if len(fl) == len(conds) + 1:
        d = fl.pop()
        r = d(x, *args, **kw) if callable(d) else asarr(d)
    for c, f in list(zip(conds, fl))[::-1]:
        r = REG[J + "where"](c, f(x, *args, **kw) if callable(f) else f, r)
    return r


both("choose")(lambda a, choices, out=None, mode="raise": _select_n(a, list(choices)))
both("compress")(lambda condition, a, axis=None, out=None: Arr(npcall(
    np.compress, concrete(condition, "compress").astype(bool), asarr(a).data, ints(axis)), asarr(a).dt))
both("flatnonzero")(lambda a, **k: from_np(np.flatnonzero(concrete(a, "flatnonzero").astype(bool))))
both("nonzero")(lambda a, **k: tuple(from_np(x) for x in np.nonzero(concrete(a, "nonzero").astype(bool))))
both("argwhere")(lambda a, **k: from_np(np.argwhere(concrete(a, "argwhere").astype(bool))))
both("count_nonzero")(lambda a, axis=None, keepdims=False: REG[J + "sum"](
    jx.astype(binop("ne", asarr(a), 0) if asarr(a).dt != "bool" else asarr(a), int), axis, keepdims=keepdims))
both("argsort")(lambda a, axis=-1, **k: from_np(np.argsort(concrete(a, "argsort"), ints(axis), kind="stable")))
both("searchsorted")(lambda a, v, side="left", sorter=None, **k: from_np(np.searchsorted(
    concrete(a, "searchsorted"), concrete(v, "searchsorted"), side)))
both("ptp")(lambda a, axis=None, out=None, keepdims=False: binop("sub", REG[J + "max"](a, axis), REG[J + "min"](a, axis)))
both("array_equiv")(lambda a, b: REG[J + "array_equal"](a, b))


# polynomials and sequences
def _trim(d):
    return d


@both("vander")
def vander(x, N=None, increasing=False):
    x = asarr(x)
    n = x.shape[0] if N is None else toint(N)
    out = np.empty((x.shape[0], n), dtype=object)
    for i in range(x.shape[0]):
        p = C.ONE
        for j in range(n):
            out[i, j if increasing else n - 1 - j] = p
            p = C.mul(p, C.num(x.data[i]))
    return Arr(out, x.dt)


@both("convolve")
def convolve(a, v, mode="full", precision=None, **k):
    a, v = asarr(a), asarr(v)
    n, m = a.shape[0], v.shape[0]
    out = np.empty((n + m - 1,), dtype=object)
    out[...] = C.ZERO
    for i in range(n):
        for j in range(m):
            out[i + j] = C.add(out[i + j], C.mul(C.num(a.data[i]), C.num(v.data[j])))
    if mode == "same":
        s = (min(n, m) - 1) // 2
        out = out[s:s + max(n, m)]
    elif mode == "valid":
        out = out[min(n, m) - 1:max(n, m)]
    return Arr(out, promote(a.dt, v.dt))


both("polymul")(lambda a1, a2, **k: convolve(REG[J + "atleast_1d"](a1), REG[J + "atleast_1d"](a2)))


def _polyadd(sign):
    def f(a1, a2):
        a, b = REG[J + "atleast_1d"](asarr(a1)), REG[J + "atleast_1d"](asarr(a2))
        n = max(a.shape[0], b.shape[0])

        def padl(x):
            z = np.empty((n - x.shape[0],), dtype=object)
            z[...] = C.ZERO
            return Arr(np.concatenate([z, x.data]), x.dt)
        return binop("add" if sign > 0 else "sub", padl(a), padl(b))
    return f


both("polyadd")(_polyadd(1))
both("polysub")(_polyadd(-1))


@both("polyder")
def polyder(p, m=1):
    p = asarr(p)
    for _ in range(toint(m)):
        n = p.shape[0]
        p = binop("mul", Arr(p.data[:-1], p.dt), from_np(np.arange(n - 1, 0, -1)))
    return p


@both("polyint")
def polyint(p, m=1, k=None):
    p = asarr(p)
    if k is not None:
        raise Unsupported("polyint with constants")
    for _ in range(toint(m)):
        n = p.shape[0]
        q = binop("div", p, from_np(np.arange(n, 0, -1)))
        z = np.empty((1,), dtype=object)
        z[0] = C.ZERO
        p = Arr(np.concatenate([q.data, z]), "float")
    return p


@both("ediff1d")
def ediff1d(ary, to_end=None, to_begin=None):
    a = asarr(ary)
    r = REG[J + "diff"](Arr(a.data.reshape(-1), a.dt))
    parts = ([asarr(to_begin)] if to_begin is not None else []) + [r] + ([asarr(to_end)] if to_end is not None else [])
    parts = [Arr(p.data.reshape(-1), p.dt) for p in parts]
    return REG[J + "concatenate"](parts)


@both("cross")
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarr(a), asarr(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("batched cross product")
    x, y = [C.num(v) for v in a.data], [C.num(v) for v in b.data]

    def m(i, j):
        return C.sub(C.mul(x[i], y[j]), C.mul(x[j], y[i]))
    if len(x) == 2 and len(y) == 2:
        return wrap(m(0, 1))
    out = np.empty((3,), dtype=object)
    out[0], out[1], out[2] = m(1, 2), m(2, 0), m(0, 1)
    return Arr(out)


for _n in ("logspace", "geomspace"):
    def _ls(n):
        def f(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
            g = jx.linspace(start, stop, num, endpoint) if n == "logspace" else \
                jx.linspace(REG[J + "log"](start), REG[J + "log"](stop), num, endpoint)
            return binop("pow", asarr(base), g) if n == "logspace" else REG[J + "exp"](g)
        return f
    both(_n)(_ls(_n))

REG["jax.numpy.linalg.outer"] = REG[J + "outer"]
REG["jax.numpy.linalg.cross"] = REG[J + "cross"]
REG["numpy.linalg.outer"] = REG["numpy.outer"]


@reg("jax.scipy.linalg.toeplitz", "scipy.linalg.toeplitz")
def toeplitz(c, r=None):
    c = REG[J + "ravel"](asarr(c))
    r = c if r is None else REG[J + "ravel"](asarr(r))
    n, m = c.shape[0], r.shape[0]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = c.data[i - j] if i >= j else r.data[j - i]
    return Arr(out, promote(c.dt, r.dt))


class _LU:
    def __init__(self, a):
        self.a = a


@reg("jax.scipy.linalg.lu_factor", "scipy.linalg.lu_factor")
def lu_factor(a, overwrite_a=False, check_finite=True):
    # the factorisation is only modelled through lu_solve
    return (_LU(asarr(a)), None)


@reg("jax.scipy.linalg.lu_solve", "scipy.linalg.lu_solve")
def lu_solve(lu_and_piv, b, trans=0, overwrite_b=False, check_finite=True):
    f = lu_and_piv[0]
    if not isinstance(f, _LU):
        raise Unsupported("lu_solve of a factorisation that is not known")
    a = f.a if toint(trans) == 0 else REG[J + "matrix_transpose"](f.a)
    return jx.np_solve(a, b) if asarr(b).ndim != 1 else jx.sp_solve(a, b)


# trees
for _p in ("jax.tree_util.", "jax."):
    REG[_p + "tree_structure"] = lambda x, is_leaf=None: tree_flatten(x)[1]
REG["jax.tree_util.tree_all"] = lambda t: all(bool(x) for x in tree_leaves(t))
REG["jax.tree_util.all_leaves"] = lambda it, is_leaf=None: all(tree_flatten(x)[1] == ("leaf",) for x in it)


@reg("jax.tree_util.tree_reduce")
def tree_reduce(function, tree, *init, is_leaf=None):
    return functools.reduce(function, tree_leaves(tree), *init)


@reg("jax.tree_util.tree_transpose")
def tree_transpose(outer, inner, tree):
    n_o = _nleaves(outer)
    leaves = tree_leaves(tree)
    n_i = _nleaves(inner)
    if len(leaves) != n_o * n_i:
        raise ProgramError("type", "tree_transpose: mismatching structures")
    return tree_unflatten(inner, [tree_unflatten(outer, [leaves[o * n_i + i] for o in range(n_o)]) for i in range(n_i)])


def _nleaves(spec):
    if spec[0] == "leaf":
        return 1
    if spec[0] == "none":
        return 0
    return sum(_nleaves(s) for s in spec[-1])


REG["jax.tree_util.Partial"] = functools.partial
REG["jax.tree_util.keystr"] = lambda k: str(k)
REG["jax.scipy.linalg.tril"] = REG[J + "tril"]
REG["jax.scipy.linalg.triu"] = REG[J + "triu"]
for _n in ("factorial",):
    def _fact(n, exact=False):
        c = C.prim(C.num(asarr(n).scalar())).const
        if c is None or c.denominator != 1 or c < 0:
            raise Unsupported("factorial of an abstract number")
        import math
        return wrap(C.const(math.factorial(int(c))))
    REG["jax.scipy.special." + _n] = REG["scipy.special." + _n] = _fact


@reg("jax.nn.one_hot")
def one_hot(x, num_classes, *, dtype=None, axis=-1):
    x = asarr(x)
    n = toint(num_classes)
    cls = from_np(np.arange(n))
    if ints(axis) not in (-1, x.ndim):
        raise Unsupported("one_hot with an axis")
    return jx.astype(binop("eq", Arr(x.data[..., None], x.dt), cls), float)


@reg("jax.flatten_util.ravel_pytree")
def ravel_pytree(tree):
    leaves, spec = tree_flatten(tree)
    arrs = [asarr(x) for x in leaves]
    shapes = [a.shape for a in arrs]
    flat = REG[J + "concatenate"]([REG[J + "ravel"](a) for a in arrs]) if arrs else asarr([])

    def unravel(v):
        v = asarr(v)
        out, k = [], 0
        for s in shapes:
            n = int(np.prod(s, dtype=int)) if s else 1
            out.append(Arr(v.data[k:k + n].reshape(s), v.dt))
            k += n
        if k != v.size:
            raise ProgramError("shape", "unravel: wrong number of elements")
        return tree_unflatten(spec, out)
    return flat, unravel


@reg("jax.ops.segment_sum")
def segment_sum(data, segment_ids, num_segments=None, **k):
    a, ids = asarr(data), concrete(segment_ids, "segment_sum").astype(int)
    n = toint(num_segments) if num_segments is not None else int(ids.max()) + 1
    out = np.empty((n,) + a.shape[1:], dtype=object)
    out[...] = C.ZERO
    for r, i in enumerate(ids):
        if 0 <= i < n:
            out[i] = (Arr(np.asarray(out[i], dtype=object)) + Arr(np.asarray(a.data[r], dtype=object))).data if a.ndim > 1 \
                else C.add(out[i], C.num(a.data[r]))
    return Arr(out, a.dt)


@both("interp")
def interp(x, xp, fp, left=None, right=None, period=None):
    xs = concrete(x, "interp")
    ps, fs = concrete(xp, "interp"), asarr(fp)

    def one(v):
        n = len(ps)
        if v <= ps[0]:
            return fs.data[0] if left is None or v == ps[0] else asarr(left).scalar()
        if v >= ps[-1]:
            return fs.data[-1] if right is None or v == ps[-1] else asarr(right).scalar()
        i = max(k for k in range(n) if ps[k] <= v)
        t = Fraction(v - ps[i]) / Fraction(ps[i + 1] - ps[i])
        return C.add(C.mul(C.const(1 - t), C.num(fs.data[i])), C.mul(C.const(t), C.num(fs.data[i + 1])))
    if xs.ndim == 0:
        return wrap(one(xs[()]))
    out = np.empty(xs.shape, dtype=object)
    for i in np.ndindex(*xs.shape):
        out[i] = one(xs[i])
    return Arr(out)


@both("gradient")
def gradient(f, *varargs, axis=None, edge_order=None):
    a = asarr(f)
    if a.ndim != 1 or len(varargs) > 1:
        raise Unsupported("gradient of an array with several axes")
    h = asarr(varargs[0]) if varargs else asarr(1)
    if h.ndim:
        raise Unsupported("gradient on a non uniform grid")
    n = a.shape[0]
    parts = [a[1] - a[0]] + [binop("div", a[i + 1] - a[i - 1], 2) for i in range(1, n - 1)] + [a[n - 1] - a[n - 2]]
    return binop("div", asarr(parts), h)


# ---------------------------------------------------------------- element types asked for in reductions and draws

def _with_type(f):
    @functools.wraps(f)
    def g(*a, dtype=None, **k):
        r = f(*a, **k) if dtype is None else f(*a, dtype=dtype, **k)
        if dtype is not None:
            jx.dtype_of(dtype)
            if jx.narrow_of(dtype) and isinstance(r, Arr):
                r = jx.astype(r, dtype)
        return r
    return g


for _n in ("concatenate", "stack", "vstack", "hstack", "sum", "prod", "nansum", "mean", "nanmean", "var", "std", "cumsum", "cumprod"):
    for _m in ("jax.numpy.", "numpy."):
        if _m + _n in REG:
            REG[_m + _n] = _with_type(REG[_m + _n])
for _n in ("normal", "multivariate_normal", "uniform", "rademacher", "truncated_normal", "exponential"):
    if "jax.random." + _n in REG:
        REG["jax.random." + _n] = _with_type(REG["jax.random." + _n])
