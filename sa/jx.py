"""Abstract semantics of the JAX / NumPy interface used by the analysed program."""
import functools
import itertools
import math
from fractions import Fraction

import numpy as np

from . import core as C
from . import field as F
from .arr import (Arr, _BIN, _UF, asarr, bdata, binop, dotvec, elt, ew, getitem, kind_of, matmul, mm, norm_index,
                  numdata, odata, operand, promote, scalar_dt, toint, unop, wrap)
from .core import CTX, Bo, Dual, KeyW, Num, ProgramError, Sc, Unsupported

REG = {}  # dotted name -> model


def reg(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


def both(name):
    """register under jax.numpy and numpy"""
    def deco(f):
        REG["jax.numpy." + name] = f

        @functools.wraps(f)
        def host(*a, **k):
            for x in tree_leaves((a, k)):
                if isinstance(x, Arr) and x.kind == "jnp":
                    CTX.event("host-np", f"numpy.{name} applied to a JAX array (fails under jit, vmap, scan)")
            return tree_map(lambda x: Arr(np.array(x.data), x.dt, "np", x.sym) if isinstance(x, Arr) else x,
                            f(*a, **k))
        REG["numpy." + name] = host
        return f
    return deco


def npcall(fn, *a, **k):
    try:
        return fn(*a, **k)
    except (ValueError, IndexError, np.exceptions.AxisError if hasattr(np, "exceptions") else ValueError) as e:
        raise ProgramError("shape", f"{getattr(fn, '__name__', fn)}: {e}")


def A(data, dt="float", kind="jnp"):
    if not isinstance(data, np.ndarray):
        return wrap(data, dt, kind)
    return Arr(data, dt, kind)


def norm(data):
    """normalise the elements of an object array produced by numpy"""
    return odata(data)


def dtype_of(d):
    """kind of an element type asked for by the program"""
    if float_name(d) in NARROW:
        CTX.event("precision", f"fixed element type {float_name(d)}")
    return kind_of(d)


NARROW = {"float32", "single", "float16", "half", "bfloat16"}


def plain_name(d):
    """the name of an element type given as a string ('f4', '<f4', 'e', 'single' ...)"""
    if isinstance(d, str):
        try:
            return np.dtype(d).name
        except TypeError:
            pass
    return d


def float_name(d):
    return getattr(d, "fixed", None) or (plain_name(d) if isinstance(d, str) else None)


def kind_of(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.name
    if d is bool:
        return "bool"
    if d is int:
        return "int"
    if isinstance(d, type) and d.__name__ == "FloatModel":
        return "float"
    s = getattr(d, "__name__", None) or str(plain_name(d))
    for k in ("bool", "uint", "int", "float", "complex"):
        if k in s:
            return {"uint": "int", "complex": "float"}.get(k, k)
    raise Unsupported(f"dtype {d}")


class DType:
    def __init__(self, name, narrow=None, fixed=None):
        self.name, self.narrow, self.fixed = name, narrow, fixed

    def __eq__(self, o):
        try:
            return kind_of(o) == self.name
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.name)

    def __call__(self, x):
        return astype(x, self)

    def __repr__(self):
        return f"dtype({self.name})"


for _m in ("jax.numpy.", "numpy."):
    for _n in ("float32", "float64", "float16", "bfloat16", "half", "float_", "double", "single"):
        REG[_m + _n] = DType("float", _n if "16" in _n or _n == "half" else None, _n)
    for _n in ("int32", "int64", "int8", "int16", "uint32", "uint8", "uint64", "int_", "uint16", "uint"):
        REG[_m + _n] = DType("int", _n if _n in ("int8", "int16", "uint8", "uint16") else None)
    REG[_m + "bool_"] = DType("bool")
    for _n in ("floating", "inexact", "integer", "number"):
        REG[_m + _n] = DType("float" if _n != "integer" else "int")
    REG[_m + "newaxis"] = None
    REG[_m + "dtype"] = lambda d: d if isinstance(d, DType) else DType(kind_of(d), narrow_of(d), float_name(d))
    REG[_m + "issubdtype"] = lambda a, b: kind_of(a) == kind_of(b)


class FInfo:
    """limits of a floating-point type; the default type depends on whether double precision is enabled"""
    def __init__(self, d):
        if isinstance(d, Arr):
            n = None
        elif isinstance(d, DType):
            n = d.fixed or d.narrow
        else:
            n = float_name(d) or ("float64" if d is float or getattr(d, "__name__", "") == "FloatModel" else None)
        if n in ("half", "float16"):
            m, lo, hi = 10, -14, 15
        elif n == "bfloat16":
            m, lo, hi = 7, -126, 127
        elif n in ("float64", "double", "float_") or n is None and C.ask("x64"):
            m, lo, hi = 52, -1022, 1023
        else:
            m, lo, hi = 23, -126, 127
        two = Fraction(2)
        self.bits = {15: 16, 127: 32 if m == 23 else 16, 1023: 64}[hi]
        v = {"eps": two ** -m, "epsneg": two ** -(m + 1), "tiny": two ** lo, "smallest_normal": two ** lo,
             "smallest_subnormal": two ** (lo - m), "max": (2 - two ** -m) * two ** hi}
        v["min"] = -v["max"]
        v["resolution"] = Fraction(1, 10 ** {7: 2, 10: 3, 23: 6, 52: 15}[m])
        for k, x in v.items():
            setattr(self, k, wrap(x, "float", "np"))


class IInfo:
    def __init__(self, d):
        n = plain_name(d) if isinstance(d, str) else getattr(d, "narrow", None) or getattr(d, "__name__", None)
        n = n if n in ("int8", "int16", "uint8", "uint16", "int32", "int64") else "int64" if d is int or C.ask("x64") else "int32"
        i = np.iinfo(n)
        self.min, self.max, self.bits = int(i.min), int(i.max), int(i.bits)


for _m in ("jax.numpy.", "numpy."):
    REG[_m + "finfo"] = lambda d, **k: FInfo(d)
    REG[_m + "iinfo"] = lambda d, **k: IInfo(d)


class _PI(Num):
    pass


def pi_const():
    return wrap(C.opaque("pi"), "float", "py")


# ---------------------------------------------------------------- pytrees

def is_namedtuple(x):
    return isinstance(x, tuple) and hasattr(x, "_fields")


PYTREE_CLASSES = {}


def tree_flatten(x):
    if x is None:
        return [], ("none",)
    if is_namedtuple(x):
        parts = [tree_flatten(v) for v in x]
        return [l for p, _ in parts for l in p], ("nt", type(x), tuple(s for _, s in parts))
    if type(x) is tuple or type(x) is list:
        parts = [tree_flatten(v) for v in x]
        return [l for p, _ in parts for l in p], (type(x).__name__, tuple(s for _, s in parts))
    if isinstance(x, dict):
        ks = sorted(x)
        parts = [tree_flatten(x[k]) for k in ks]
        return [l for p, _ in parts for l in p], ("dict", tuple(ks), tuple(s for _, s in parts))
    if type(x) in PYTREE_CLASSES:
        fl, un = PYTREE_CLASSES[type(x)]
        ch, aux = fl(x)
        parts = [tree_flatten(v) for v in ch]
        return [l for p, _ in parts for l in p], ("cls", type(x), aux, tuple(s for _, s in parts))
    return [x], ("leaf",)


def tree_unflatten(spec, leaves):
    it = iter(leaves)

    def go(s):
        k = s[0]
        if k == "none":
            return None
        if k == "leaf":
            return next(it)
        if k == "nt":
            return s[1](*[go(q) for q in s[2]])
        if k == "tuple":
            return tuple(go(q) for q in s[1])
        if k == "list":
            return [go(q) for q in s[1]]
        if k == "dict":
            return {kk: go(q) for kk, q in zip(s[1], s[2])}
        if k == "cls":
            return PYTREE_CLASSES[s[1]][1](s[2], [go(q) for q in s[3]])
        raise AssertionError(k)
    return go(spec)


def tree_leaves(x):
    return tree_flatten(x)[0]


def tree_map(f, x, *rest, is_leaf=None):
    leaves, spec = tree_flatten(x)
    others = []
    for r in rest:
        l2, s2 = tree_flatten(r)
        if s2 != spec:
            raise ProgramError("type", "tree_map: mismatching tree structures")
        others.append(l2)
    return tree_unflatten(spec, [f(*v) for v in zip(leaves, *others)])


for _p in ("jax.tree_util.", "jax."):
    REG[_p + "tree_map"] = tree_map
    REG[_p + "tree_leaves"] = tree_leaves
    REG[_p + "tree_flatten"] = tree_flatten
    REG[_p + "tree_unflatten"] = tree_unflatten
REG["jax.tree_util.tree_structure"] = lambda x: tree_flatten(x)[1]


@reg("jax.tree_util.register_pytree_node")
def _register(cls, fl, un):
    PYTREE_CLASSES[cls] = (fl, un)


@reg("jax.tree_util.register_pytree_node_class")
def _register_cls(cls):
    PYTREE_CLASSES[cls] = (lambda x: x.tree_flatten(), lambda aux, ch: cls.tree_unflatten(aux, ch))
    return cls


# ---------------------------------------------------------------- creation

def shape_of(s):
    if isinstance(s, (tuple, list)):
        return tuple(toint(v) for v in s)
    if isinstance(s, Arr) and s.ndim == 1:
        return tuple(toint(v) for v in s)
    return (toint(s),)


def full_(shape, v, dt="float"):
    a = np.empty(shape, dtype=object)
    a[...] = v
    return Arr(a, dt)


@both("zeros")
def zeros(shape, dtype=None, device=None):
    return full_(shape_of(shape), C.ZERO, dtype_of(dtype) or "float")


@both("ones")
def ones(shape, dtype=None, device=None):
    return full_(shape_of(shape), C.ONE, dtype_of(dtype) or "float")


@both("empty")
def empty(shape, dtype=None, device=None):
    return zeros(shape, dtype)


@both("full")
def full(shape, fill_value, dtype=None, device=None):
    v = asarr(fill_value)
    a = np.empty(shape_of(shape), dtype=object)
    a[...] = bdata(v, a)
    return typed(Arr(a, v.dt), dtype)


@both("zeros_like")
def zeros_like(a, dtype=None, shape=None, device=None):
    a = asarr(a)
    return full_(a.shape if shape is None else shape_of(shape), C.ZERO, dtype_of(dtype) or a.dt)


@both("ones_like")
def ones_like(a, dtype=None, shape=None, device=None):
    a = asarr(a)
    return full_(a.shape if shape is None else shape_of(shape), C.ONE, dtype_of(dtype) or a.dt)


@both("full_like")
def full_like(a, fill_value, dtype=None, shape=None, device=None):
    a = asarr(a)
    return full(a.shape if shape is None else shape, fill_value, DType(a.dt) if dtype is None else dtype)


@both("empty_like")
def empty_like(a, dtype=None, shape=None):
    return zeros_like(a, dtype, shape)


@both("eye")
def eye(N, M=None, k=0, dtype=None):
    n = toint(N)
    m = n if M is None else toint(M)
    a = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            a[i, j] = C.ONE if j - i == toint(k) else C.ZERO
    return Arr(a, dtype_of(dtype) or "float")


@both("identity")
def identity(n, dtype=None):
    return eye(n, dtype=dtype)


@both("array")
def array(object, dtype=None, copy=True, order="K", ndmin=0):
    a = asarr(object)
    d = a.data
    while d.ndim < ndmin:
        d = d[None]
    return typed(Arr(d.copy(), a.dt, "jnp", a.sym), dtype)


def typed(a, dtype):
    """an array created with a type asked for (or none)"""
    return a if dtype is None else astype(a, dtype)


@both("asarray")
def asarray(a, dtype=None, order=None, copy=None):
    return array(a, dtype)


@both("atleast_1d")
def atleast_1d(*a):
    r = [Arr(np.atleast_1d(asarr(x).data), asarr(x).dt) for x in a]
    return r[0] if len(r) == 1 else r


@both("atleast_2d")
def atleast_2d(*a):
    r = [Arr(np.atleast_2d(asarr(x).data), asarr(x).dt) for x in a]
    return r[0] if len(r) == 1 else r


_INT = {"int8": (-128, 256), "int16": (-32768, 65536), "uint8": (0, 256), "uint16": (0, 65536)}


def narrow_of(d):
    n = getattr(d, "narrow", None) or (plain_name(d) if isinstance(d, str) else None) or getattr(d, "__name__", None)
    return n if isinstance(n, str) and (n in _INT or "16" in n or n == "half") else None


def astype(x, dtype):
    r = astype_(x, dtype)
    w = narrow_of(dtype)
    if w is None or not r.size:
        return r

    def f(e):
        c = C.prim(C.num(e)).const
        if w in _INT:
            lo, n = _INT[w]
            return C.opaque(w, C.prim(e)) if c is None else C.const((c - lo) % n + lo)
        if c is not None and w != "bfloat16" and abs(c) < 60000 and Fraction(float(np.float16(float(c)))) == c:
            return e
        # half precision is not a representation of the reals up to float32 rounding
        return C.opaque(w, C.prim(e))
    d = np.empty(r.shape, dtype=object)
    for k in np.ndindex(*r.shape):
        d[k] = f(r.data[k])
    return Arr(d, r.dt, r.kind)


def astype_(x, dtype):
    x = asarr(x)
    dt = dtype_of(dtype)
    if dt == x.dt:
        return x
    if dt == "int" and x.dt == "float":
        def f(e):
            c = C.prim(C.num(e)).const
            return C.const(int(c)) if c is not None else C.opaque("trunc", C.prim(e))
        return Arr(np.frompyfunc(f, 1, 1)(x.data) if x.ndim else wrap(f(x.data[()])).data, "int", x.kind)
    if dt == "bool":
        return binop("ne", x, 0)
    if x.dt == "bool":
        return Arr(norm(np.frompyfunc(C.num, 1, 1)(x.data)), dt, x.kind)
    return Arr(x.data, dt, x.kind, x.sym)


@both("copy")
def copy(a, order=None):
    a = asarr(a)
    return Arr(a.data.copy(), a.dt, "jnp", a.sym)


def grid_frac(i, n):
    return Fraction(i, n)


@both("linspace")
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = toint(num) if not isinstance(num, Arr) or num.dt == "float" else int(num)
    if isinstance(num, Fraction) and num.denominator != 1:
        raise ProgramError("type", "linspace: non integer number of points")
    if n < 0:
        raise ProgramError("value", "linspace: negative number of points")
    a, b = asarr(start), asarr(stop)
    den = (n - 1) if endpoint else n
    shp = np.broadcast_shapes(a.shape, b.shape)
    step = binop("sub", b, a)
    if CTX.fine_grid and n >= CTX.fine_grid:
        u = C.atom("u_grid" if endpoint else "u_open", n)
        d = ew(_UF["add"], a.data, ew(_UF["mul"], step.data, wrap(u).data))
        out = np.broadcast_to(d, (n,) + shp)
    else:
        out = np.empty((n,) + shp, dtype=object)
        for i in range(n):
            if den <= 0 or i == 0:
                d = np.broadcast_to(a.data, shp)
            elif endpoint and i == n - 1:
                d = np.broadcast_to(b.data, shp)
            else:
                d = ew(_UF["add"], a.data, ew(_UF["mul"], step.data, wrap(C.const(Fraction(i, den))).data))
            out[i] = d if shp else d[()]
    out = np.moveaxis(out, 0, toint(axis)) if toint(axis) not in (0,) else out
    r = typed(Arr(out, "float"), dtype)
    if retstep:
        return r, binop("div", step, den) if den > 0 else wrap(C.nan("linspace step"))
    return r


@both("arange")
def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    vals = [asarr(v) for v in (start, stop, step)]
    dt = dtype_of(dtype) or promote(*[v.dt for v in vals])
    if dt == "bool":
        dt = "int"
    a, b, s = [C.prim(C.num(v.scalar())) for v in vals]
    for v in (start, stop, step):
        if isinstance(v, Arr) and v.kind == "jnp":
            CTX.event("host-int", "arange with a JAX array bound (fails under jit)")
    if all(v.const is not None for v in (a, b, s)):
        n = max(0, math.ceil((b.const - a.const) / s.const))
        if dt == "float" and (b.const - a.const) / s.const == n and any(v.const.denominator != 1 for v in (a, b, s)):
            CTX.event("float-arange", "number of points of arange depends on rounding")
    else:
        q = F.mul(F.add(b.fp, F.neg(a.fp)), F.inv(s.fp)) if s.fp != 0 else None
        if type(q) is not int or q > 1_000_000:
            raise Unsupported("arange of abstract length")
        n = q
        CTX.event("float-arange", "number of points of arange depends on rounding")
    out = np.empty((n,), dtype=object)
    for i in range(n):
        out[i] = C.add(a, C.mul(C.const(i), s))
    return typed(Arr(out, dt), dtype if narrow_of(dtype) else None)


@both("meshgrid")
def meshgrid(*xi, indexing="xy", **k):
    xi = [asarr(x) for x in xi]
    return [Arr(d, x.dt) for x, d in zip(xi, np.meshgrid(*[x.data for x in xi], indexing=indexing))]


# ---------------------------------------------------------------- elementwise functions

def _reg_bin(name, op):
    @both(name)
    def f(x1, x2, /, out=None, where=None, _op=op):
        return binop(_op, asarr(x1), asarr(x2))
    return f


for _n, _o in {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div",
               "floor_divide": "floordiv", "mod": "mod", "remainder": "mod", "power": "pow", "float_power": "pow",
               "maximum": "max", "minimum": "min", "fmax": "max", "fmin": "min", "hypot": "hypot",
               "less": "lt", "less_equal": "le", "equal": "eq", "not_equal": "ne",
               "logical_and": "and", "logical_or": "or", "logical_xor": "xor", "bitwise_and": "and",
               "bitwise_or": "or"}.items():
    _reg_bin(_n, _o)
both("greater")(lambda a, b: binop("lt", asarr(b), asarr(a)))
both("greater_equal")(lambda a, b: binop("le", asarr(b), asarr(a)))
for _n, _o in {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "max": "max", "min": "min", "pow": "pow",
               "rem": "mod", "lt": "lt", "le": "le", "eq": "eq", "ne": "ne"}.items():
    REG["jax.lax." + _n] = (lambda _op: lambda x, y: binop(_op, asarr(x), asarr(y)))(_o)
REG["jax.lax.integer_pow"] = lambda x, y: binop("pow", asarr(x), y)
REG["jax.lax.gt"] = lambda x, y: binop("lt", asarr(y), asarr(x))
REG["jax.lax.ge"] = lambda x, y: binop("le", asarr(y), asarr(x))


def _reg_un(names, fn, dt="float"):
    def f(x, /, out=None, where=None):
        return unop(fn, asarr(x), dt=dt)
    for n in names:
        both(n)(f)
    return f


_reg_un(["sqrt"], C.sqrt)
_reg_un(["cbrt"], lambda x: C.power(x, C.const(Fraction(1, 3))))
_reg_un(["exp"], C.exp)
_reg_un(["exp2"], lambda x: C.power(C.TWO, x))
_reg_un(["expm1"], lambda x: C.sub(C.exp(x), C.ONE))
_reg_un(["log"], C.log)
_reg_un(["log1p"], lambda x: C.log(C.add(C.ONE, x)))
_reg_un(["log2"], lambda x: C.div(C.log(x), C.log(C.TWO)))
_reg_un(["reciprocal"], lambda x: C.div(C.ONE, x))
for _n in ("sin", "cos", "tan", "tanh", "sinh", "cosh", "arctan", "arcsin", "arccos", "floor", "ceil", "round", "rint",
           "arcsinh", "arctanh"):
    _reg_un([_n], functools.partial(C.unary, _n))
_reg_un(["square"], lambda x: C.mul(x, x), None)
_reg_un(["negative"], C.neg, None)
_reg_un(["positive"], lambda x: x, None)
_reg_un(["abs", "absolute", "fabs"], C.absolute, None)
_reg_un(["sign"], C.sign, None)
_PLAIN = {"const", "atom", "uf", "add", "sub", "mul", "div", "neg", "powi", "exp", "abs", "sign", "ind", "sel"}


def finite(x):
    """the inputs are finite numbers; what a function of the caller returns need not be"""
    x = C.prim(x)
    if x.const is not None:
        return True
    below = C.reachable([x])
    if not any(n.op == "uf" for n in below):
        return True
    for n in below:
        # roots and factors of what the caller's functions return: the idioms that replace a failed factorisation
        if isinstance(n, Sc) and n.op not in _PLAIN and (n.op != "sqrt" or any(m.op == "uf" for m in C.reachable([n]))):
            return True
    return Bo(F.hash_elt(CTX.seed, "finite", repr(x.fp)), f"{C.show(x, 3)} is finite", "finite", (x,))


_reg_un(["isnan", "isinf"], lambda x: C.bnot(finite(x)), "bool")
_reg_un(["isfinite"], finite, "bool")
_reg_un(["isreal"], lambda x: True, "bool")
_reg_un(["conj", "conjugate"], lambda x: x, None)
_reg_un(["imag"], lambda x: C.ZERO, None)


@both("real")
def real(x):
    return asarr(x)


@both("nan_to_num")
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarr(x)
    return x if x.dt != "float" else REG["jax.numpy.where"](REG["jax.numpy.isfinite"](x), x, nan)


both("logical_not")(lambda x: unop(C.bnot, binop("ne", asarr(x), 0) if asarr(x).dt != "bool" else asarr(x), dt="bool"))
for _n in ("sqrt", "exp", "log", "sin", "cos", "tanh", "abs", "sign", "floor", "ceil", "expm1", "log1p", "real"):
    REG["jax.lax." + _n] = REG["jax.numpy." + _n]
REG["jax.lax.square"] = REG["jax.numpy.square"]
REG["jax.lax.neg"] = REG["jax.numpy.negative"]
REG["jax.lax.rsqrt"] = lambda x: unop(lambda e: C.div(C.ONE, C.sqrt(e)), asarr(x), "float")
REG["jax.lax.reciprocal"] = REG["jax.numpy.reciprocal"]
REG["jax.nn.sigmoid"] = lambda x: unop(functools.partial(C.unary, "sigmoid"), asarr(x), "float")
REG["jax.nn.softplus"] = lambda x: unop(functools.partial(C.unary, "softplus"), asarr(x), "float")
REG["jax.nn.relu"] = lambda x: binop("max", asarr(x), 0)
REG["jax.scipy.special.erf"] = lambda x: unop(functools.partial(C.unary, "erf"), asarr(x), "float")
REG["jax.numpy.pi"] = REG["numpy.pi"] = "PI"
REG["jax.numpy.e"] = REG["numpy.e"] = "E"


@both("where")
def where(condition, x=None, y=None, size=None, fill_value=None):
    if x is None:
        raise Unsupported("where with one argument")
    c, a, b = asarr(condition), asarr(x), asarr(y)
    if c.dt != "bool":
        c = binop("ne", c, 0)
    return Arr(ew(np.frompyfunc(C.select, 3, 1), c.data, a.data, b.data), promote(a.dt, b.dt))


REG["jax.lax.select"] = where


@both("clip")
def clip(a, a_min=None, a_max=None, **k):
    r = asarr(a)
    if a_min is not None:
        r = binop("max", r, a_min)
    if a_max is not None:
        r = binop("min", r, a_max)
    return r


# ---------------------------------------------------------------- shape manipulation

def _sh(f):
    """shape function on a single array through numpy"""
    @functools.wraps(f)
    def g(a, *args, **k):
        a = asarr(a)
        return Arr(npcall(f, a.data, *args, **k), a.dt)
    return g


def ints(x):
    if x is None:
        return None
    if isinstance(x, (tuple, list)):
        return tuple(ints(v) for v in x)
    if isinstance(x, Fraction):
        raise ProgramError("type", "an integer is required")
    return toint(x)


@both("reshape")
def reshape(a, newshape=None, order="C", shape=None):
    a = asarr(a)
    s = ints(newshape if shape is None else shape)
    if any(v < -1 for v in (s if isinstance(s, tuple) else (s,))):
        raise ProgramError("shape", f"reshape to {s}: negative size")
    return Arr(npcall(np.reshape, a.data, s, order=order), a.dt)


@both("ravel")
def ravel(a, order="C"):
    a = asarr(a)
    return Arr(np.ravel(a.data, order=order), a.dt)


@both("transpose")
def transpose(a, axes=None):
    a = asarr(a)
    if a.sym and a.ndim == 2:
        return a
    return Arr(npcall(np.transpose, a.data, ints(axes)), a.dt)


both("permute_dims")(transpose)


@both("swapaxes")
def swapaxes(a, axis1, axis2):
    a = asarr(a)
    if a.sym and a.ndim == 2:
        return a
    return Arr(npcall(np.swapaxes, a.data, ints(axis1), ints(axis2)), a.dt)


both("matrix_transpose")(lambda a: swapaxes(a, -1, -2))
both("moveaxis")(lambda a, s, d: Arr(npcall(np.moveaxis, asarr(a).data, ints(s), ints(d)), asarr(a).dt))
both("squeeze")(lambda a, axis=None: Arr(npcall(np.squeeze, asarr(a).data, ints(axis)), asarr(a).dt))
both("expand_dims")(lambda a, axis: Arr(npcall(np.expand_dims, asarr(a).data, ints(axis)), asarr(a).dt))
both("broadcast_to")(lambda a, shape: Arr(npcall(np.broadcast_to, asarr(a).data, shape_of(shape)), asarr(a).dt))
both("tile")(lambda a, reps: Arr(npcall(np.tile, asarr(a).data, ints(reps)), asarr(a).dt))
both("flip")(lambda m, axis=None: Arr(npcall(np.flip, asarr(m).data, ints(axis)), asarr(m).dt))
both("flipud")(lambda m: Arr(npcall(np.flipud, asarr(m).data), asarr(m).dt))
both("fliplr")(lambda m: Arr(npcall(np.fliplr, asarr(m).data), asarr(m).dt))
both("roll")(lambda a, shift, axis=None: Arr(npcall(np.roll, asarr(a).data, ints(shift), ints(axis)), asarr(a).dt))
both("rot90")(lambda a, k=1, axes=(0, 1): Arr(npcall(np.rot90, asarr(a).data, ints(k), ints(axes)), asarr(a).dt))
both("repeat")(lambda a, repeats, axis=None, total_repeat_length=None:
               Arr(npcall(np.repeat, asarr(a).data, ints(repeats) if not isinstance(repeats, Arr)
                          else [toint(v) for v in repeats.data.reshape(-1)], ints(axis)), asarr(a).dt))
both("delete")(lambda a, obj, axis=None: Arr(npcall(np.delete, asarr(a).data, ints(obj), ints(axis)), asarr(a).dt))
both("shape")(lambda a: asarr(a).shape)
both("ndim")(lambda a: asarr(a).ndim)
both("size")(lambda a, axis=None: asarr(a).size if axis is None else asarr(a).shape[axis])
both("isscalar")(lambda a: not isinstance(a, (list, tuple)) and asarr(a).ndim == 0)
both("iscomplexobj")(lambda a: False)


@both("broadcast_arrays")
def broadcast_arrays(*arrays):
    xs = [asarr(a) for a in arrays]
    shp = npcall(np.broadcast_shapes, *[x.shape for x in xs])
    return [Arr(np.broadcast_to(x.data, shp), x.dt) for x in xs]


def _seq(arrays):
    if isinstance(arrays, Arr):
        return [a for a in arrays]
    return [asarr(a) for a in arrays]


def _cat(fn):
    def f(arrays, axis=0, dtype=None):
        xs = _seq(arrays)
        if not xs:
            raise ProgramError("value", "need at least one array")
        return Arr(npcall(fn, [x.data for x in xs], axis=ints(axis)), promote(*[x.dt for x in xs]))
    return f


both("concatenate")(_cat(np.concatenate))
both("concat")(_cat(np.concatenate))
both("stack")(_cat(np.stack))
REG["jax.lax.concatenate"] = lambda operands, dimension: REG["jax.numpy.concatenate"](operands, dimension)
for _n in ("vstack", "hstack", "column_stack", "dstack"):
    def _mk(fn):
        def f(tup, dtype=None):
            xs = _seq(tup)
            return Arr(npcall(fn, [x.data for x in xs]), promote(*[x.dt for x in xs]))
        return f
    both(_n)(_mk(getattr(np, _n)))
both("row_stack")(REG["jax.numpy.vstack"])


@both("append")
def append(arr, values, axis=None):
    a, v = asarr(arr), asarr(values)
    return Arr(npcall(np.append, a.data, v.data, ints(axis)), promote(a.dt, v.dt))


@both("insert")
def insert(arr, obj, values, axis=None):
    a, v = asarr(arr), asarr(values)
    o = obj
    if isinstance(o, slice):
        raise Unsupported("insert with a slice")
    o = ints(o) if not isinstance(o, Arr) or o.ndim == 0 else [toint(x) for x in o.data]
    vd = v.data if v.ndim else v.data[()]
    if v.ndim == 0:
        tmp = np.empty((1,), dtype=object)
        tmp[0] = vd
        vd = tmp if axis is None or a.ndim == 1 else tmp.reshape((1,) * a.ndim)
    return Arr(npcall(np.insert, a.data, o, vd, ints(axis)), promote(a.dt, v.dt) if v.dt != "key" else a.dt)


@both("split")
def split(ary, indices_or_sections, axis=0):
    a = asarr(ary)
    s = indices_or_sections
    s = ints(s) if not isinstance(s, Arr) or s.ndim == 0 else [toint(x) for x in s.data]
    return [Arr(d, a.dt) for d in npcall(np.split, a.data, list(s) if isinstance(s, tuple) else s, ints(axis))]


both("array_split")(lambda a, s, axis=0: [Arr(d, asarr(a).dt) for d in npcall(np.array_split, asarr(a).data, ints(s), ints(axis))])
both("vsplit")(lambda a, s: split(a, s, 0))
both("hsplit")(lambda a, s: split(a, s, 1 if asarr(a).ndim > 1 else 0))


@both("block")
def block(arrays):
    def go(x):
        if isinstance(x, list):
            return [go(v) for v in x]
        if isinstance(x, tuple):
            raise ProgramError("type", "block: tuples are not allowed")
        return asarr(x).data
    dts = []

    def dts_(x):
        if isinstance(x, list):
            for v in x:
                dts_(v)
        else:
            dts.append(asarr(x).dt)
    dts_(arrays)
    r = npcall(np.block, go(arrays))
    return Arr(r if isinstance(r, np.ndarray) else wrap(r).data, promote(*dts))


@both("diag")
def diag(v, k=0):
    a = asarr(v)
    k = toint(k)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        out = np.empty((n, n), dtype=object)
        out[...] = C.ZERO
        for i in range(a.shape[0]):
            out[(i, i + k) if k >= 0 else (i - k, i)] = a.data[i]
        return Arr(out, a.dt)
    if a.ndim != 2:
        raise ProgramError("shape", "diag input must be 1d or 2d")
    return Arr(np.array(np.diagonal(a.data, k)), a.dt)


@both("diagflat")
def diagflat(v, k=0):
    return diag(ravel(v), k)


@both("diagonal")
def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    return Arr(np.array(npcall(np.diagonal, a.data, toint(offset), axis1, axis2)), a.dt)


REG["jax.numpy.fill_diagonal"] = lambda a, val, wrap=False, inplace=True: _fill_diag(a, val)


def _fill_diag(a, val):
    a = asarr(a)
    d = a.data.copy()
    v = asarr(val)
    for i in range(min(a.shape)):
        d[i, i] = v.data[()] if v.ndim == 0 else v.data[i]
    return Arr(d, a.dt)


def _tri(keep):
    def f(m, k=0):
        a = asarr(m)
        k_ = toint(k)
        n, p = a.shape[-2:]
        mask = np.array([[keep(i, j, k_) for j in range(p)] for i in range(n)], dtype=bool).reshape(n, p)
        z = np.empty((), dtype=object)
        z[()] = C.ZERO
        return Arr(np.where(mask, a.data, z), a.dt)
    return f


both("tril")(_tri(lambda i, j, k: j - i <= k))
both("triu")(_tri(lambda i, j, k: j - i >= k))
both("tri")(lambda N, M=None, k=0, dtype=None: _tri(lambda i, j, kk: j - i <= kk)(ones((N, M or N)), k))


@both("pad")
def pad(array, pad_width, mode="constant", **kw):
    a = asarr(array)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        cv = C.num(asarr(cv).scalar())
        pw = pad_width
        if isinstance(pw, Arr):
            pw = np.array([toint(v) for v in pw.data.reshape(-1)]).reshape(pw.shape).tolist()
        pw = ints(pw)
        d = npcall(np.pad, a.data, pw, mode="constant", constant_values=0)
        d = np.frompyfunc(lambda e: e if isinstance(e, (Num, Bo, KeyW)) else cv, 1, 1)(d)
        return Arr(d, a.dt)
    if mode in ("edge", "reflect", "wrap", "symmetric"):
        return Arr(npcall(np.pad, a.data, ints(pad_width), mode=mode), a.dt)
    raise Unsupported(f"pad mode {mode}")


@both("take")
def take(a, indices, axis=None, **k):
    a = asarr(a)
    if axis is None:
        return getitem(ravel(a), indices)
    ax = toint(axis) % a.ndim
    return getitem(a, (slice(None),) * ax + (indices,))


@both("take_along_axis")
def take_along_axis(arr, indices, axis, **k):
    a, i = asarr(arr), asarr(indices)
    ii = np.array([toint(v) for v in i.data.reshape(-1)], dtype=int).reshape(i.shape)
    return Arr(npcall(np.take_along_axis, a.data, ii, toint(axis)), a.dt)


@both("apply_along_axis")
def apply_along_axis(func1d, axis, arr, *args, **kw):
    a = asarr(arr)
    ax = toint(axis) % a.ndim
    mv = np.moveaxis(a.data, ax, -1)
    outs = {}
    for i in np.ndindex(*mv.shape[:-1]):
        outs[i] = asarr(func1d(Arr(mv[i], a.dt), *args, **kw))
    shp = next(iter(outs.values())).shape
    r = np.empty(mv.shape[:-1] + shp, dtype=object)
    for i, v in outs.items():
        r[i] = v.data if v.ndim else v.data[()]
    if len(shp) == 1:
        r = np.moveaxis(r, -1, ax)
    return Arr(r, "float")


# ---------------------------------------------------------------- reductions

def is_generic(d, ax):
    if not CTX.fine_grid or d.shape[ax] < max(2, CTX.fine_grid):
        return False
    if d.strides[ax] == 0:
        return True
    t = np.moveaxis(d, ax, 0)
    first = list(t[0].reshape(-1)) if t.ndim > 1 else [t[0]]
    return d.size > 0 and all(x is y or isinstance(x, Sc) and isinstance(y, Sc) and x.fp == y.fp
                              for k in range(1, t.shape[0])
                              for x, y in zip(t[k].reshape(-1) if t.ndim > 1 else [t[k]], first))


def reduce_(d, axis, fn, keepdims, init):
    """fold the elements along the axes"""
    nd = d.ndim
    if axis is None:
        axes = tuple(range(nd))
    else:
        axes = ints(axis)
        axes = (axes,) if isinstance(axes, int) else axes
        for ax in axes:
            if not -nd <= ax < nd:
                raise ProgramError("index", f"axis {ax} is out of bounds for an array of dimension {nd}")
        axes = tuple(ax % nd for ax in axes)
    rest = [i for i in range(nd) if i not in axes]
    out = np.empty([d.shape[i] for i in rest], dtype=object)
    t = np.transpose(d, rest + list(axes))
    for i in np.ndindex(*out.shape):
        sub = t[i] if rest else t
        it = list(sub.reshape(-1)) if isinstance(sub, np.ndarray) else [sub]
        acc = init
        for e in it:
            acc = e if acc is None else fn(acc, e)
        if acc is None:
            raise ProgramError("value", "reduction of an empty array without identity")
        out[i] = acc
    if keepdims:
        out = out.reshape([1 if i in axes else d.shape[i] for i in range(nd)])
    return out


def _redu(name, fn, init, dt=None):
    @both(name)
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        a = asarr(a)
        if name == "sum" and a.ndim and any(is_generic(a.data, x) for x in (
                range(a.ndim) if axis is None else (ints(axis) if isinstance(ints(axis), tuple) else (ints(axis),)))):
            if isinstance(axis, tuple) or axis is None and a.ndim > 1:
                raise Unsupported("sum over several axes including an abstract grid")
            ax = (ints(axis) or 0) % a.ndim
            r = integral_u(np.take(a.data, 0, axis=ax), a.data.shape[ax])
            return binop("mul", A(r), a.data.shape[ax])
        d = a.data if name in ("all", "any") and a.dt == "bool" else numdata(a.data)
        if where is not None:
            if name not in ("sum", "prod"):
                raise Unsupported(f"{name} with where")
            d = numdata(REG["jax.numpy.where"](where, a, 0 if name == "sum" else 1).data)
        if name in ("all", "any") and a.dt != "bool":
            d = binop("ne", a, 0).data
        r = reduce_(d, axis, fn, keepdims, init)
        return A(r, dt or ("int" if a.dt == "bool" else a.dt))
    return f


_redu("sum", C.add, C.ZERO)
_redu("prod", C.mul, C.ONE)
_redu("max", C.maximum, None)
_redu("min", C.minimum, None)
_redu("all", C.band, True, "bool")
_redu("any", lambda a, b: C.bnot(C.band(C.bnot(a), C.bnot(b))), False, "bool")
both("amax")(REG["jax.numpy.max"])
both("amin")(REG["jax.numpy.min"])
both("nansum")(REG["jax.numpy.sum"])


def _count(a, axis):
    if axis is None:
        return a.size
    ax = ints(axis)
    ax = (ax,) if isinstance(ax, int) else ax
    n = 1
    for i in ax:
        n *= a.shape[i]
    return n


@both("mean")
def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    a = asarr(a)
    return binop("div", REG["jax.numpy.sum"](a, axis, keepdims=keepdims), _count(a, axis))


@both("average")
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return mean(a, axis)
    w = asarr(weights)
    a = asarr(a)
    if w.ndim == 1 and a.ndim > 1 and axis is not None:
        shp = [1] * a.ndim
        shp[ints(axis)] = w.shape[0]
        w = Arr(w.data.reshape(shp), w.dt)
    S = REG["jax.numpy.sum"]
    return binop("div", S(binop("mul", a, w), axis), S(w if w.ndim == a.ndim else w))


@both("var")
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = asarr(a)
    d = binop("sub", a, mean(a, axis, keepdims=True))
    return binop("div", REG["jax.numpy.sum"](binop("mul", d, d), axis, keepdims=keepdims), _count(a, axis) - ddof)


@both("std")
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return unop(C.sqrt, var(a, axis, ddof=ddof, keepdims=keepdims))


@both("cov")
def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = asarr(m)
    d = m.data if m.ndim > 1 else m.data[None]
    if not rowvar:
        d = d.T
    a = Arr(d)
    c = binop("sub", a, mean(a, 1, keepdims=True))
    return binop("div", matmul(c, transpose(c)), d.shape[1] - (0 if bias else 1))


def _cum(name, fn):
    @both(name)
    def f(a, axis=None, dtype=None, out=None):
        a = asarr(a)
        d = numdata(a.data)
        if axis is None:
            d, ax = d.reshape(-1), 0
        else:
            ax = toint(axis)
            if not -d.ndim <= ax < d.ndim:
                raise ProgramError("index", "axis out of range")
        t = np.moveaxis(d, ax, 0)
        out = np.empty(t.shape, dtype=object)
        acc = None
        g = np.frompyfunc(fn, 2, 1)
        for i in range(t.shape[0]):
            acc = t[i] if acc is None else g(acc, t[i])
            out[i] = acc
        return Arr(np.moveaxis(out, 0, ax), a.dt if a.dt != "bool" else "int")
    return f


_cum("cumsum", C.add)
_cum("cumprod", C.mul)
REG["jax.lax.cumsum"] = lambda operand, axis=0, reverse=False: (
    REG["jax.numpy.cumsum"](operand, axis) if not reverse else
    REG["jax.numpy.flip"](REG["jax.numpy.cumsum"](REG["jax.numpy.flip"](operand, axis), axis), axis))


@both("diff")
def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    parts = []
    ax = toint(axis)
    for p, first in ((prepend, True), (append, False)):
        if p is not None:
            p = asarr(p)
            if p.ndim == 0:
                shp = list(a.shape)
                shp[ax] = 1
                p = Arr(np.broadcast_to(p.data, shp), p.dt)
            parts.append((p, first))
    for p, first in parts:
        a = REG["jax.numpy.concatenate"]([p, a] if first else [a, p], axis=ax)
    for _ in range(toint(n)):
        t = np.moveaxis(a.data, ax, 0)
        a = Arr(np.moveaxis(ew(_UF["sub"], t[1:], t[:-1]), 0, ax), a.dt)
    return a


class GridAt:
    """value of the generic grid point; the last point of a grid without its end point is at `end`"""

    def __init__(self, n, end=Fraction(1)):
        self.n, self.end = n, end

    def __call__(self, k):
        return {("u_grid", (self.n,)): C.const(k), ("u_open", (self.n,)): C.const(k * self.end)}


def integral_u(d, n, end=Fraction(1)):
    """integral over u in [0, 1] of the generic element of a fine grid (quadrature error abstracted away)"""
    name = GridAt(n, end)
    shape = d.shape if isinstance(d, np.ndarray) else ()
    items = list(d.reshape(-1)) if isinstance(d, np.ndarray) else [d]
    if any(isinstance(e, Dual) for e in items):
        raise Unsupported("derivative of a quadrature")
    deg = 12
    pts = list(range(deg + 3))
    vals = [C.reeval(items, name(p)) for p in pts]
    out = []
    for k, e in enumerate(items):
        ys = [v[k] for v in vals]
        coef = newton_fit(pts[:deg + 1], ys[:deg + 1])
        ok = all(horner(coef, pts[:deg + 1], p) == ys[p] for p in pts[deg + 1:])
        if ok:
            fp = integrate_newton(coef, pts[:deg + 1])
            out.append(Sc("integral", (e,), fp, None, "poly"))
        elif (fp := exp_integral(e, name, pts, ys, deg)) is not None:
            out.append(Sc("integral", (e,), fp, None, "exp-poly"))
        else:
            out.append(Sc("integral", (e,), F.hash_elt(CTX.seed, "integral", repr(C.reeval([e], name(7))[0]),
                                                       repr(C.reeval([e], name(11))[0])), None, "opaque"))
    if not shape:
        return out[0]
    r = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        r[i] = v
    return r.reshape(shape)


def exp_integral(e, name, pts, ys, deg):
    """exact integral over [0, 1] of p(u) exp(c u), p a polynomial; None when the integrand is not of this form"""
    slopes = {}
    for n in C.reachable([e]):
        if n.op == "exp":
            a, b, c = (C.reeval([n.args[0]], name(k))[0] for k in (0, 1, 2))
            s = F.add(b, F.neg(a))
            if s != 0 and F.add(c, F.neg(b)) == s:
                ea, eb = (C.reeval([n], name(k))[0] for k in (0, 1))
                if ea != 0:
                    slopes[s] = F.mul(eb, F.inv(ea))
    cand = dict(slopes)
    for s, r in slopes.items():
        for s2, r2 in slopes.items():
            cand.setdefault(F.add(s, s2), F.mul(r, r2))
    for s, r in cand.items():
        if s == 0 or r == 0:
            continue
        ri, w, zs = F.inv(r), 1, []
        for y in ys:
            zs.append(F.mul(y, w))
            w = F.mul(w, ri)
        coef = newton_fit(pts[:deg + 1], zs[:deg + 1])
        if any(horner(coef, pts[:deg + 1], p) != zs[p] for p in pts[deg + 1:]):
            continue
        mono = monomials(coef, pts[:deg + 1])
        si = F.inv(s)
        I = F.mul(F.add(r, F.neg(1)), si)
        tot = F.mul(mono[0], I)
        for j in range(1, len(mono)):
            I = F.mul(F.add(r, F.neg(F.mul(j, I))), si)
            tot = F.add(tot, F.mul(mono[j], I))
        return tot
    return None


def newton_fit(xs, ys):
    c = list(ys)
    n = len(xs)
    for j in range(1, n):
        for i in range(n - 1, j - 1, -1):
            c[i] = F.mul(F.add(c[i], F.neg(c[i - 1])), F.inv((xs[i] - xs[i - j]) % F.P))
    return c


def horner(c, xs, x):
    r = 0
    for k in range(len(c) - 1, -1, -1):
        r = F.add(F.mul(r, (x - xs[k]) % F.P), c[k])
    return r


def monomials(c, xs):
    poly = [0]
    for k in range(len(c) - 1, -1, -1):
        new = [0] * (len(poly) + 1)
        for i, v in enumerate(poly):
            new[i + 1] = F.add(new[i + 1], v)
            new[i] = F.add(new[i], F.mul(v, -xs[k] % F.P))
        new[0] = F.add(new[0], c[k])
        poly = new
    return poly


def integrate_newton(c, xs):
    poly = monomials(c, xs)
    r = 0
    for i, v in enumerate(poly):
        r = F.add(r, F.mul(v, F.inv(i + 1)))
    return r


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if y.ndim == 0:
        raise ProgramError("index", "trapezoid of a scalar")
    ax = ints(axis) % y.ndim
    if is_generic(y.data, ax):
        n = y.data.shape[ax]
        at = GridAt(n, Fraction(n - 1, n))
        g = integral_u(np.take(y.data, 0, axis=ax), n, at.end)
        if x is not None:
            xs = asarr(x).data
            e = xs.reshape(-1)[0]
            b, a = C.reeval([e], at(1))[0], C.reeval([e], at(0))[0]
            length = Sc("integral", (e,), F.add(b, F.neg(a)), None, "length")
        else:
            length = C.mul(C.num(asarr(dx).scalar()), C.const(n - 1))
        return binop("mul", A(g), wrap(length))
    t = np.moveaxis(numdata(y.data), ax, 0)
    if x is not None:
        xx = asarr(x)
        xd = numdata(xx.data)
        if xd.ndim == 1:
            if xd.shape[0] != t.shape[0]:
                raise ProgramError("shape", "trapezoid: x and y have different lengths")
            h = xd[1:] - xd[:-1]
            h = h.reshape((-1,) + (1,) * (t.ndim - 1))
        else:
            xd = np.moveaxis(xd, ax, 0)
            h = xd[1:] - xd[:-1]
    else:
        h = numdata(asarr(dx).data)
    s = ew(_UF["mul"], ew(_UF["mul"], np.asarray(h, dtype=object), ew(_UF["add"], t[1:], t[:-1])), wrap(C.HALF).data)
    return A(reduce_(s, 0, C.add, False, C.ZERO))


both("trapz")(trapezoid)
REG["numpy.trapezoid"] = REG["numpy.trapz"]
REG["jax.scipy.integrate.trapezoid"] = trapezoid


# ---------------------------------------------------------------- products

def preferred(f):
    """the element type in which a product is accumulated and given back"""
    @functools.wraps(f)
    def g(*a, preferred_element_type=None, **k):
        r = f(*a, **k)
        return r if preferred_element_type is None else astype(r, preferred_element_type)
    return g


@both("dot")
@preferred
def dot(a, b, precision=None):
    x, y = asarr(a), asarr(b)
    if x.ndim == 0 or y.ndim == 0:
        return binop("mul", x, y)
    if y.ndim <= 2:
        return matmul(x, y)
    return tensordot(x, y, axes=((x.ndim - 1,), (y.ndim - 2,)))


@both("matmul")
@preferred
def matmul_(a, b, precision=None):
    return matmul(asarr(a), asarr(b))


@both("vdot")
@preferred
def vdot(a, b, precision=None):
    return matmul(ravel(a), ravel(b))


@both("inner")
@preferred
def inner(a, b, precision=None):
    x, y = asarr(a), asarr(b)
    return tensordot(x, y, axes=((x.ndim - 1,), (y.ndim - 1,))) if x.ndim and y.ndim else binop("mul", x, y)


REG["jax.lax.dot"] = dot


@both("outer")
def outer(a, b, out=None):
    x, y = ravel(a), ravel(b)
    return Arr(ew(_UF["mul"], x.data[:, None], y.data[None, :]), promote(x.dt, y.dt))


@both("tensordot")
@preferred
def tensordot(a, b, axes=2, precision=None):
    x, y = asarr(a), asarr(b)
    if not isinstance(axes, (tuple, list)):
        n = toint(axes)
        axes = (tuple(range(x.ndim - n, x.ndim)), tuple(range(n)))
    ax, ay = [(v,) if isinstance(v, int) else tuple(ints(v)) for v in axes]
    ax = tuple(v % x.ndim for v in ax)
    ay = tuple(v % y.ndim for v in ay)
    fx = [i for i in range(x.ndim) if i not in ax]
    fy = [i for i in range(y.ndim) if i not in ay]
    if [x.shape[i] for i in ax] != [y.shape[i] for i in ay]:
        raise ProgramError("shape", "tensordot: mismatching axes")
    k = int(np.prod([x.shape[i] for i in ax], dtype=int))
    m1 = np.transpose(numdata(x.data), fx + list(ax)).reshape(-1, k)
    m2 = np.transpose(numdata(y.data), list(ay) + fy).reshape(k, -1)
    r = mm(m1, m2).reshape([x.shape[i] for i in fx] + [y.shape[i] for i in fy])
    return A(r, promote(x.dt, y.dt))


@both("einsum")
@preferred
def einsum(subscripts, *operands, optimize=None, precision=None):
    if not isinstance(subscripts, str):
        raise Unsupported("einsum without a subscript string")
    xs = [asarr(o) for o in operands]
    s = subscripts.replace(" ", "")
    ins, out = s.split("->") if "->" in s else (s, None)
    terms = ins.split(",")
    if len(terms) != len(xs):
        raise ProgramError("shape", "einsum: wrong number of operands")
    if "." in s:
        nb = max((x.ndim - len(t.replace("...", "")) for t, x in zip(terms, xs) if "..." in t), default=0)
        letters = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in s][:nb]
        nt = []
        for t, x in zip(terms, xs):
            if "..." in t:
                n = x.ndim - len(t.replace("...", ""))
                t = t.replace("...", "".join(letters[nb - n:]))
            nt.append(t)
        terms = nt
        if out is None:
            cnt = "".join(terms)
            out = "".join(letters) + "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1 and c not in letters))
        else:
            out = out.replace("...", "".join(letters))
    if out is None:
        cnt = "".join(terms)
        out = "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
    dims = {}
    for t, x in zip(terms, xs):
        if len(t) != x.ndim:
            raise ProgramError("shape", f"einsum: term {t} for an array of {x.ndim} dimensions")
        for c, n in zip(t, x.shape):
            if dims.setdefault(c, n) != n and 1 not in (dims[c], n):
                raise ProgramError("shape", f"einsum: index {c} has sizes {dims[c]} and {n}")
            dims[c] = max(dims[c], n)
    if any(c not in dims for c in out):
        raise ProgramError("shape", "einsum: unknown output index")
    datas = [numdata(x.data) for x in xs]
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = C.ZERO
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            v = C.ONE
            for t, d in zip(terms, datas):
                e = d[tuple(env[c] if d.shape[q] > 1 else 0 for q, c in enumerate(t))]
                v = C.mul(v, e)
                if C.is0(v):
                    break
            acc = C.add(acc, v)
        res[oi] = acc
    return A(res, promote(*[x.dt for x in xs]))


@both("kron")
def kron(a, b):
    x, y = asarr(a), asarr(b)
    nd = max(x.ndim, y.ndim)
    xd = numdata(x.data).reshape((1,) * (nd - x.ndim) + x.shape)
    yd = numdata(y.data).reshape((1,) * (nd - y.ndim) + y.shape)
    out = np.empty([p * q for p, q in zip(xd.shape, yd.shape)], dtype=object)
    for i in np.ndindex(*xd.shape):
        for j in np.ndindex(*yd.shape):
            out[tuple(p * n + q for p, q, n in zip(i, j, yd.shape))] = C.mul(xd[i], yd[j])
    return A(out, promote(x.dt, y.dt))


@both("trace")
def trace(a, offset=0, axis1=0, axis2=1):
    return REG["jax.numpy.sum"](diagonal(a, offset, axis1, axis2), -1)


@both("cross")
def cross(a, b, **k):
    raise Unsupported("cross")


@both("polyval")
def polyval(p, x, **k):
    r = wrap(C.ZERO)
    for c in asarr(p):
        r = binop("add", binop("mul", r, asarr(x)), c)
    return r


@both("interp")
def interp(x, xp, fp, **k):
    raise Unsupported("interp")


def _cmp_all(name):
    @both(name)
    def f(a, b, *args, **k):
        x, y = asarr(a), asarr(b)
        if name == "array_equal" and x.shape != y.shape:
            return wrap(False, "bool")
        return REG["jax.numpy.all"](binop("eq", x, y))
    return f


_cmp_all("allclose")
_cmp_all("array_equal")
both("isclose")(lambda a, b, *r, **k: binop("eq", asarr(a), asarr(b)))


def _argm(name, cmp):
    @both(name)
    def f(a, axis=None, **k):
        a = asarr(a)
        d = [C.prim(e).const for e in a.data.reshape(-1)]
        if axis is not None and a.ndim > 1 or any(v is None for v in d):
            raise Unsupported(name)
        return wrap(cmp(range(len(d)), key=lambda i: d[i]), "int")
    return f


_argm("argmax", max)
_argm("argmin", min)
def _sort_list(v):
    """in increasing order: by value when known, by a network of minima and maxima otherwise"""
    d = [C.prim(e).const for e in v]
    if all(c is not None for c in d):
        return [v[i] for i in sorted(range(len(v)), key=lambda i: d[i])]
    if len(v) > 12:
        raise Unsupported("sort of many numbers")
    v = list(v)
    for n in range(len(v) - 1, 0, -1):
        for i in range(n):
            v[i], v[i + 1] = C.minimum(v[i], v[i + 1]), C.maximum(v[i], v[i + 1])
    return v


@both("sort")
def _sort(a, axis=-1, kind=None, order=None, stable=None, descending=None):
    a = asarr(a)
    d = numdata(a.data)
    if axis is None:
        d, ax = d.reshape(-1), 0
    else:
        ax = ints(axis)
        if not -d.ndim <= ax < d.ndim:
            raise ProgramError("index", "axis out of range")
    t = np.moveaxis(d, ax, -1)
    out = np.empty(t.shape, dtype=object)
    for i in np.ndindex(*t.shape[:-1]):
        row = _sort_list(list(t[i]))
        for k, e in enumerate(reversed(row) if descending else row):
            out[i + (k,)] = e
    return Arr(np.moveaxis(out, -1, ax), a.dt, kind_of(a))


@both("median")
def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = asarr(a)
    if keepdims:
        raise Unsupported("median with keepdims")
    s = _sort(a, axis)
    ax = 0 if axis is None else ints(axis)
    n = s.shape[ax]
    lo, hi = (np.take(s.data, k, axis=ax) for k in ((n - 1) // 2, n // 2))
    return binop("div", binop("add", A(lo), A(hi)), 2)


# ---------------------------------------------------------------- linear algebra

def _mat(a):
    a = asarr(a)
    if a.ndim < 2:
        raise ProgramError("shape", f"expected a matrix, got shape {a.shape}")
    return numdata(a.data)


def _batched(f, nargs=1):
    def g(*ds):
        b = ds[0].shape[:-2]
        if not b:
            return f(*ds)
        outs = {i: f(*[d[i] for d in ds]) for i in np.ndindex(*b)}
        shp = next(iter(outs.values())).shape
        r = np.empty(b + shp, dtype=object)
        for i, v in outs.items():
            r[i] = v
        return r
    return g


def fpz(x):
    return C.prim(x).fp == 0 if not isinstance(x, Dual) else False


def zero_(x):
    if isinstance(x, Dual):
        return C.prim(x).fp == 0 and zero_(x.t) and zero_(x.p)
    return x.fp == 0


def chol_data(d, what):
    """Lower factor L, L L^T = d, with non negative pivots; zero pivots are recorded."""
    n, m = d.shape
    if n != m:
        raise ProgramError("shape", f"{what} of a non square matrix {d.shape}")
    L = np.empty((n, n), dtype=object)
    L[...] = C.ZERO
    singular = []
    for j in range(n):
        s = C.sub(d[j, j], dotvec(L[j, :j], L[j, :j]))
        if zero_(s):
            singular.append(j)
            if what == "cholesky" and zero_(d[j, j]):
                # a zero pivot without any cancellation: the factorisation fails for certain
                CTX.event("nan", f"cholesky of a {n}x{n} matrix with a zero on its diagonal", what)
            for i in range(j + 1, n):
                r = C.sub(d[i, j], dotvec(L[i, :j], L[j, :j]))
                if not zero_(r):
                    CTX.event("indefinite", f"{what} of a matrix that is not positive semi-definite")
            continue
        p = C.sqrt(s)
        L[j, j] = p
        for i in range(j + 1, n):
            L[i, j] = C.div(C.sub(d[i, j], dotvec(L[i, :j], L[j, :j])), p)
    if singular and what not in ("qr", "svd"):
        CTX.event("singular-root", f"{what} of a structurally singular {n}x{n} matrix", what)
    return L


def symmetrize(d, what):
    n = d.shape[0]
    if d.shape[0] != d.shape[1]:
        raise ProgramError("shape", f"{what} of a non square matrix {d.shape}")
    asym = [(i, j) for i in range(n) for j in range(i) if C.prim(d[i, j]).fp != C.prim(d[j, i]).fp]
    if asym:
        CTX.event("asymmetric", f"{what} of a non symmetric matrix", asym)
        out = d.copy()
        for i in range(n):
            for j in range(n):
                out[i, j] = C.mul(C.HALF, C.add(d[i, j], d[j, i]))
        return out
    return d


@reg("jax.numpy.linalg.cholesky", "numpy.linalg.cholesky")
def np_cholesky(a, upper=False, symmetrize_input=True):
    L = _batched(lambda d: chol_data(symmetrize(d, "cholesky"), "cholesky"))(_mat(a))
    return Arr(np.swapaxes(L, -1, -2) if upper else L)


@reg("jax.lax.linalg.cholesky")
def lax_cholesky(a, symmetrize_input=True):
    return np_cholesky(a)


@reg("jax.scipy.linalg.cholesky", "scipy.linalg.cholesky")
def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    L = np_cholesky(a).data
    return Arr(L if lower else np.swapaxes(L, -1, -2))


@reg("jax.scipy.linalg.cho_factor", "scipy.linalg.cho_factor")
def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    return sp_cholesky(a, lower=lower), lower


def solve_tri(L, B, lower, trans=0, unit=False):
    n = L.shape[0]
    if L.shape[0] != L.shape[1] or B.shape[0] != n:
        raise ProgramError("shape", f"solve_triangular: shapes {L.shape} and {B.shape}")
    T = np.empty((n, n), dtype=object)
    T[...] = C.ZERO
    for i in range(n):
        for j in range(n):
            if (j <= i if lower else j >= i):
                T[i, j] = L[i, j]
    if unit:
        for i in range(n):
            T[i, i] = C.ONE
    if trans in (1, 2, "T", "C"):
        T = T.T
        lower = not lower
    one = B.ndim == 1
    X = B.reshape(n, 1) if one else B
    out = np.empty(X.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for c in range(X.shape[1]):
        for i in order:
            js = range(i) if lower else range(i + 1, n)
            s = X[i, c]
            for j in js:
                s = C.sub(s, C.mul(T[i, j], out[j, c]))
            if zero_(T[i, i]):
                CTX.event("singular-solve", "triangular solve with a structurally singular matrix")
                out[i, c] = C.nan("singular triangular solve")
            else:
                out[i, c] = C.div(s, T[i, i])
    return out[:, 0] if one else out


@reg("jax.scipy.linalg.solve_triangular", "scipy.linalg.solve_triangular")
def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, debug=None,
                     check_finite=True):
    a, b = asarr(a), asarr(b)
    if b.ndim == 0:
        raise ProgramError("shape", "solve_triangular: scalar right hand side")
    return Arr(solve_tri(_mat(a), numdata(b.data), bool(lower), trans, unit_diagonal))


@reg("jax.lax.linalg.triangular_solve")
def triangular_solve(a, b, *, left_side=False, lower=False, transpose_a=False, conjugate_a=False,
                     unit_diagonal=False):
    A_, B = _mat(a), numdata(asarr(b).data)
    if left_side:
        return Arr(solve_tri(A_, B, lower, 1 if transpose_a else 0, unit_diagonal))
    return Arr(solve_tri(A_, B.T, lower, 0 if transpose_a else 1, unit_diagonal).T)


@reg("jax.scipy.linalg.cho_solve", "scipy.linalg.cho_solve")
def cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    cd, bd = _mat(c), numdata(asarr(b).data)
    y = solve_tri(cd, bd, bool(lower), 0 if lower else 1)
    return Arr(solve_tri(cd, y, bool(lower), 1 if lower else 0))


def gauss(Ad, Bd):
    n = Ad.shape[0]
    if Ad.shape[0] != Ad.shape[1] or Bd.shape[0] != n:
        raise ProgramError("shape", f"solve: shapes {Ad.shape} and {Bd.shape}")
    M = Ad.copy()
    X = Bd.copy()
    for j in range(n):
        piv = next((i for i in range(j, n) if C.prim(M[i, j]).fp != 0), None)
        if piv is None:
            CTX.event("singular-solve", "linear solve with a structurally singular matrix")
            X = X.copy()
            for q in np.ndindex(*X.shape):
                X[q] = C.nan("singular solve")
            return X
        if piv != j:
            M[[j, piv]] = M[[piv, j]]
            X[[j, piv]] = X[[piv, j]]
        for i in range(n):
            if i != j and not C.is0(M[i, j]):
                f = C.div(M[i, j], M[j, j])
                for k in range(j + 1, n):
                    M[i, k] = C.sub(M[i, k], C.mul(f, M[j, k]))
                M[i, j] = C.ZERO
                for k in range(X.shape[1]):
                    X[i, k] = C.sub(X[i, k], C.mul(f, X[j, k]))
    for i in range(n):
        for k in range(X.shape[1]):
            X[i, k] = C.div(X[i, k], M[i, i])
    return X


def solve_data(a, b):
    one = b.ndim == a.ndim - 1
    B = b[..., None] if one else b
    r = gauss(a, B)
    return r[..., 0] if one else r


@reg("jax.numpy.linalg.solve", "numpy.linalg.solve")
def np_solve(a, b):
    ad, bd = _mat(a), numdata(asarr(b).data)
    if ad.ndim > 2:
        outs = [np_solve(Arr(x), Arr(y)).data for x, y in zip(ad, bd)]
        return Arr(np.stack(outs))
    return Arr(solve_data(ad, bd))


@reg("jax.scipy.linalg.solve", "scipy.linalg.solve")
def sp_solve(a, b, lower=False, overwrite_a=False, overwrite_b=False, debug=False, check_finite=True,
             assume_a="gen", sym_pos=None):
    if assume_a not in ("gen", "sym", "her", "pos"):
        raise ProgramError("value", f"solve: unknown assume_a {assume_a}")
    ad = _mat(a)
    if assume_a == "pos" and any(C.prim(ad[i, j]).fp != C.prim(ad[j, i]).fp
                                 for i in range(ad.shape[0]) for j in range(i)):
        CTX.event("asymmetric", "solve(assume_a='pos') of a non symmetric matrix")
        # only one triangle is read
        d = ad.copy()
        for i in range(d.shape[0]):
            for j in range(i):
                if lower:
                    d[j, i] = d[i, j]
                else:
                    d[i, j] = d[j, i]
        ad = d
    return Arr(solve_data(ad, numdata(asarr(b).data)))


@reg("jax.numpy.linalg.inv", "numpy.linalg.inv", "jax.scipy.linalg.inv")
def inv(a, overwrite_a=False, check_finite=True):
    d = _mat(a)
    return Arr(_batched(lambda m: gauss(m, eye(m.shape[0]).data))(d))


@reg("jax.numpy.linalg.pinv", "numpy.linalg.pinv")
def pinv(a, *r, **k):
    d = _mat(a)
    if d.shape[0] != d.shape[1]:
        raise Unsupported("pinv of a non square matrix")
    return inv(a)


@reg("jax.numpy.linalg.det", "numpy.linalg.det", "jax.scipy.linalg.det")
def det(a):
    d = _mat(a)
    n = d.shape[0]
    M = d.copy()
    r = C.ONE
    for j in range(n):
        piv = next((i for i in range(j, n) if C.prim(M[i, j]).fp != 0), None)
        if piv is None:
            return wrap(C.ZERO)
        if piv != j:
            M[[j, piv]] = M[[piv, j]]
            r = C.neg(r)
        r = C.mul(r, M[j, j])
        for i in range(j + 1, n):
            f = C.div(M[i, j], M[j, j])
            for k in range(j + 1, n):
                M[i, k] = C.sub(M[i, k], C.mul(f, M[j, k]))
    return wrap(r)


@reg("jax.numpy.linalg.slogdet", "numpy.linalg.slogdet")
def slogdet(a):
    d = det(a)
    return wrap(C.ONE), unop(C.log, d)


@reg("jax.numpy.linalg.norm", "numpy.linalg.norm")
def linalg_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise Unsupported(f"norm of order {ord}")
    x = asarr(x)
    if ord == 2 and x.ndim == 2 and axis is None:
        raise Unsupported("spectral norm")
    return unop(C.sqrt, REG["jax.numpy.sum"](binop("mul", x, x), axis, keepdims=keepdims))


@reg("jax.numpy.linalg.matrix_power", "numpy.linalg.matrix_power")
def matrix_power(a, n):
    a = asarr(a)
    r = eye(a.shape[0])
    for _ in range(abs(toint(n))):
        r = matmul(r, a)
    return r if toint(n) >= 0 else inv(r)


@reg("jax.numpy.linalg.multi_dot", "numpy.linalg.multi_dot")
def multi_dot(arrays, **k):
    r = asarr(arrays[0])
    for b in arrays[1:]:
        r = matmul(r, asarr(b))
    return r


for _n in ("eigh", "eig", "svd", "lstsq", "eigvalsh", "eigvals", "matrix_rank", "qr_full"):
    def _mku(n):
        def f(*a, **k):
            raise Unsupported(f"linalg.{n}")
        return f
    REG["jax.numpy.linalg." + _n] = REG["numpy.linalg." + _n] = REG["jax.scipy.linalg." + _n] = _mku(_n)


def qr_r(d):
    """R factor (rows K = min(m, n)).

    It is unique only up to the signs of its rows, and below full rank up to rotations of the rows without pivot: one representative
    with pivots of both signs and rows without pivot that do not vanish is chosen."""
    G = mm(d.T, d)
    L = chol_data(G, "qr")
    R = L.T.copy()
    k = min(d.shape)
    for i in range(0, R.shape[0], 2):
        R[i] = [C.neg(e) for e in R[i]]
    if d.shape[0] >= d.shape[1]:
        for j in range(R.shape[0]):
            if not zero_(R[j, j]):
                continue
            i = next((i for i in range(j + 1, R.shape[0]) if not zero_(R[i, i])), None)
            if i is not None:
                a, b = C.const(Fraction(3, 5)), C.const(Fraction(4, 5))
                R[j], R[i] = [C.mul(a, e) for e in R[i]], [C.mul(b, e) for e in R[i]]
    nz = [i for i in range(R.shape[0]) if not all(zero_(e) for e in R[i])]
    if len(nz) > k:
        raise Unsupported("rank of a QR factor")
    if d.shape[0] < d.shape[1] and any(i >= k for i in nz):
        rows = [R[i] for i in nz]
        out = np.empty((k, R.shape[1]), dtype=object)
        out[...] = C.ZERO
        for q, r in enumerate(rows):
            out[q] = r
        return out
    return R[:k]


def _qr(a, mode, full_r):
    d = _mat(a)
    if d.ndim > 2:
        if mode != "r":
            raise Unsupported("batched qr")
        return Arr(np.stack([_qr(Arr(x), mode, full_r).data for x in d]))
    R = qr_r(d)
    if full_r and mode == "r" and d.shape[0] > R.shape[0]:
        z = np.empty((d.shape[0] - R.shape[0], d.shape[1]), dtype=object)
        z[...] = C.ZERO
        Rf = np.concatenate([R, z])
    else:
        Rf = R
    if mode == "r":
        return Arr(Rf)
    if d.shape[0] < d.shape[1] or any(zero_(R[i, i]) for i in range(R.shape[0])):
        raise Unsupported("orthogonal factor of a rank deficient matrix")
    Q = solve_tri(R, d.T, False, 1).T
    return Arr(Q), Arr(R)


@reg("jax.scipy.linalg.qr", "scipy.linalg.qr")
def sp_qr(a, overwrite_a=False, lwork=None, mode="full", pivoting=False, check_finite=True):
    if pivoting:
        raise Unsupported("pivoted qr")
    if mode == "r":
        return (_qr(a, "r", True),)
    if mode == "economic":
        return _qr(a, "economic", False)
    if mode == "full" and asarr(a).shape[0] <= asarr(a).shape[1]:
        return _qr(a, "full", False)
    raise Unsupported(f"qr mode {mode}")


@reg("jax.numpy.linalg.qr", "numpy.linalg.qr")
def np_qr(a, mode="reduced"):
    if mode == "r":
        return _qr(a, "r", False)
    if mode == "reduced":
        return _qr(a, "economic", False)
    raise Unsupported(f"qr mode {mode}")


@reg("jax.scipy.linalg.sqrtm", "scipy.linalg.sqrtm")
def sqrtm(A_, blocksize=1, disp=True):
    d = symmetrize(_mat(A_), "sqrtm")
    n = d.shape[0]
    out = np.empty((n, n), dtype=object)
    out[...] = C.ZERO
    # connected components of the pattern of non-zeros
    comp = list(range(n))
    for i in range(n):
        for j in range(i):
            if not zero_(d[i, j]):
                a, b = comp[i], comp[j]
                comp = [min(a, b) if c in (a, b) else c for c in comp]
    for c in sorted(set(comp)):
        idx = [i for i in range(n) if comp[i] == c]
        sub = d[np.ix_(idx, idx)]
        if len(idx) == 1:
            if not zero_(sub[0, 0]):
                out[idx[0], idx[0]] = C.sqrt(sub[0, 0])
            else:
                CTX.event("singular-root", f"sqrtm of a structurally singular {n}x{n} matrix", "sqrtm")
        elif len(idx) == 2:
            det2 = C.sub(C.mul(sub[0, 0], sub[1, 1]), C.mul(sub[0, 1], sub[1, 0]))
            if zero_(det2):
                CTX.event("singular-root", f"sqrtm of a structurally singular {n}x{n} matrix", "sqrtm")
            s = C.sqrt(det2)
            t = C.sqrt(C.add(C.add(sub[0, 0], sub[1, 1]), C.mul(C.TWO, s)))
            for a in range(2):
                for b in range(2):
                    out[idx[a], idx[b]] = C.div(C.add(sub[a, b], s) if a == b else sub[a, b], t)
        else:
            # only S S^T = A is used of larger blocks
            L = chol_data(sub, "sqrtm")
            for a in range(len(idx)):
                for b in range(len(idx)):
                    out[idx[a], idx[b]] = L[a, b]
    return Arr(out, "float", "jnp")


@reg("jax.scipy.linalg.block_diag", "scipy.linalg.block_diag")
def block_diag(*arrs):
    ms = [asarr(a) for a in arrs]
    ds = [np.atleast_2d(m.data) for m in ms]
    n, p = sum(d.shape[0] for d in ds), sum(d.shape[1] for d in ds)
    out = np.empty((n, p), dtype=object)
    out[...] = C.ZERO
    i = j = 0
    for d in ds:
        out[i:i + d.shape[0], j:j + d.shape[1]] = d
        i += d.shape[0]
        j += d.shape[1]
    return Arr(out, promote("float", *[m.dt for m in ms]))


def expm_data(d):
    n = d.shape[0]
    if d.shape[0] != d.shape[1]:
        raise ProgramError("shape", "expm of a non square matrix")
    # connected components of the sparsity pattern
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and not C.is0(d[i, j]) and not zero_(d[i, j]):
                comp[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    out = np.empty((n, n), dtype=object)
    out[...] = C.ZERO
    for g in groups.values():
        sub = d[np.ix_(g, g)]
        e = expm_block(sub)
        out[np.ix_(g, g)] = e
    return out


def expm_block(d):
    n = d.shape[0]
    if n == 1:
        r = np.empty((1, 1), dtype=object)
        r[0, 0] = C.exp(d[0, 0])
        return r
    tr = C.ZERO
    for i in range(n):
        tr = C.add(tr, d[i, i])
    mu = C.div(tr, C.const(n))
    M = d.copy()
    for i in range(n):
        M[i, i] = C.sub(d[i, i], mu)
    # expm(d) = exp(mu) expm(M), exact when M is nilpotent
    powers = [eye(n).data]
    nil = False
    for k in range(n):
        powers.append(mm(powers[-1], M))
        if all(C.prim(e).fp == 0 for e in powers[-1].reshape(-1)):
            nil = True
            break
    if nil:
        out = np.empty((n, n), dtype=object)
        out[...] = C.ZERO
        fact = 1
        for k, p in enumerate(powers[:-1] if not any(isinstance(e, Dual) for e in M.reshape(-1)) else powers):
            fact = fact * k if k else 1
            out = ew(_UF["add"], out, ew(_UF["mul"], p, wrap(C.const(Fraction(1, fact))).data))
        if C.prim(mu).fp != 0 or isinstance(mu, Dual):
            out = ew(_UF["mul"], out, wrap(C.exp(mu)).data)
        return out
    if any(isinstance(e, Dual) for e in d.reshape(-1)):
        raise Unsupported("derivative of a general matrix exponential")
    if all(C.prim(d[i, j]).fp == 0 for i in range(n) for j in range(i)) or \
            all(C.prim(d[j, i]).fp == 0 for i in range(n) for j in range(i)):
        return expm_triangular(d)
    out = np.empty((n, n), dtype=object)
    args = tuple(d.reshape(-1))
    for i in range(n):
        for j in range(n):
            out[i, j] = C.opaque("expm", *args, extra=(i, j))
    return out


def expm_triangular(d):
    """Newton interpolation of exp at the (grouped) eigenvalues: exact"""
    n = d.shape[0]
    groups = {}
    for i in range(n):
        groups.setdefault(C.prim(d[i, i]).fp, []).append(d[i, i])
    lam = [g[0] for g in groups.values() for _ in g]
    ids = [k for k, g in enumerate(groups.values()) for _ in g]
    dd = {}

    def f(i, j):  # divided difference over lam[i..j]
        if (i, j) not in dd:
            if ids[i] == ids[j]:
                fact = 1
                for k in range(2, j - i + 1):
                    fact *= k
                dd[i, j] = C.mul(C.exp(lam[i]), C.const(Fraction(1, fact)))
            else:
                dd[i, j] = C.div(C.sub(f(i + 1, j), f(i, j - 1)), C.sub(lam[j], lam[i]))
        return dd[i, j]
    out = np.empty((n, n), dtype=object)
    out[...] = C.ZERO
    pw = eye(n).data
    for k in range(n):
        out = ew(_UF["add"], out, ew(_UF["mul"], pw, wrap(f(0, k)).data))
        M = d.copy()
        for i in range(n):
            M[i, i] = C.sub(d[i, i], lam[k])
        pw = mm(pw, M)
    return out


@reg("jax.scipy.linalg.expm", "scipy.linalg.expm")
def expm(A_, upper_triangular=False, max_squarings=16):
    return Arr(_batched(expm_data)(_mat(A_)))


# ---------------------------------------------------------------- autodiff

def new_tag():
    CTX.tag += 1
    return CTX.tag


def seed_dual(a, tag, j=None, tang=None):
    d = np.empty(a.shape, dtype=object)
    flat = d.reshape(-1)
    for k, e in enumerate(a.data.reshape(-1)):
        if tang is not None:
            flat[k] = C.mkdual(tag, C.num(e), C.num(tang[k]))
        else:
            flat[k] = Dual(tag, C.num(e), C.ONE) if k == j else C.num(e)
    return Arr(flat.reshape(a.shape), a.dt, "jnp")


def tangent(a, tag):
    a = asarr(a)
    f = np.frompyfunc(lambda e: C.split2(C.num(e), tag)[1] if not isinstance(e, KeyW) else C.ZERO, 1, 1)
    r = f(a.data) if a.ndim else wrap(C.split2(C.num(a.data[()]), tag)[1]).data
    return r


def primal(a, tag):
    if not isinstance(a, Arr):
        return a
    if a.dt in ("bool", "key"):
        return a
    f = np.frompyfunc(lambda e: C.split2(e, tag)[0] if isinstance(e, Num) else e, 1, 1)
    return Arr(f(a.data) if a.ndim else wrap(C.split2(a.data[()], tag)[0]).data, a.dt, a.kind)


def check_diff(a, what):
    a = asarr(a)
    if a.dt != "float":
        raise ProgramError("type", f"{what} requires real-valued (float) inputs, got {a.dt}")
    return a


def _jacobian(fun, argnums=0, has_aux=False, what="jacfwd"):
    if not callable(fun):
        raise ProgramError("type", f"{what} of a non callable")

    def jac(*args, **kw):
        nums = argnums if isinstance(argnums, (tuple, list)) else (argnums,)
        res, aux = [], None
        for n in nums:
            n = toint(n)
            if n >= len(args):
                raise ProgramError("type", f"{what}: argnums={n} but only {len(args)} positional arguments")
            leaves, spec = tree_flatten(args[n])
            per_leaf = []
            for li, leaf in enumerate(leaves):
                a = check_diff(leaf, what)
                tag = new_tag()
                cols, ospec, oshapes, odts = [], None, None, None
                for j in range(a.size):
                    s = seed_dual(a, tag, j)
                    nl = list(leaves)
                    nl[li] = s
                    na = list(args)
                    na[n] = tree_unflatten(spec, nl)
                    with C.transformed():
                        out = fun(*na, **kw)
                    if has_aux:
                        out, aux = out
                        aux = tree_map(lambda v: primal(v, tag), aux)
                    ol, ospec = tree_flatten(out)
                    ol = [asarr(o) for o in ol]
                    if what == "grad" and (len(ol) != 1 or ol[0].ndim):
                        raise ProgramError("type", "grad requires a scalar-output function")
                    cols.append([tangent(o, tag) for o in ol])
                    oshapes = [o.shape for o in ol]
                outs = []
                for k in range(len(oshapes)):
                    J = np.empty(oshapes[k] + (a.size,), dtype=object)
                    for j in range(a.size):
                        c = cols[j][k]
                        J[..., j] = c if isinstance(c, np.ndarray) and c.ndim else c[()]
                    outs.append(Arr(J.reshape(oshapes[k] + a.shape)))
                per_leaf.append(tree_unflatten(ospec, outs))
            res.append(tree_unflatten(spec, per_leaf) if spec[0] != "leaf" else per_leaf[0])
        r = tuple(res) if isinstance(argnums, (tuple, list)) else res[0]
        return (r, aux) if has_aux else r
    return jac


@reg("jax.jacfwd")
def jacfwd(fun, argnums=0, has_aux=False, holomorphic=False):
    return _jacobian(fun, argnums, has_aux, "jacfwd")


@reg("jax.jacrev", "jax.jacobian")
def jacrev(fun, argnums=0, has_aux=False, holomorphic=False, allow_int=False):
    return _jacobian(fun, argnums, has_aux, "jacrev")


@reg("jax.grad")
def grad(fun, argnums=0, has_aux=False, holomorphic=False, allow_int=False, reduce_axes=()):
    return _jacobian(fun, argnums, has_aux, "grad")


@reg("jax.value_and_grad")
def value_and_grad(fun, argnums=0, has_aux=False, **k):
    return lambda *a, **kw: (fun(*a, **kw), _jacobian(fun, argnums, has_aux, "grad")(*a, **kw))


@reg("jax.hessian")
def hessian(fun, argnums=0, has_aux=False, holomorphic=False):
    return _jacobian(_jacobian(fun, argnums, False, "jacrev"), argnums, False, "jacfwd")


@reg("jax.jvp")
def jvp(fun, primals, tangents, has_aux=False):
    tag = new_tag()
    args = []
    for p, t in zip(primals, tangents):
        lp, spec = tree_flatten(p)
        lt, _ = tree_flatten(t)
        args.append(tree_unflatten(spec, [seed_dual(check_diff(a, "jvp"), tag,
                                                    tang=list(np.broadcast_to(asarr(b).data, asarr(a).shape).reshape(-1)))
                                          for a, b in zip(lp, lt)]))
    if len(primals) != len(tangents):
        raise ProgramError("type", "jvp: primals and tangents differ in length")
    out = fun(*args)
    aux = None
    if has_aux:
        out, aux = out
    r = (tree_map(lambda v: primal(asarr(v), tag), out), tree_map(lambda v: Arr(tangent(v, tag)), out))
    return r + (aux,) if has_aux else r


@reg("jax.linearize")
def linearize(fun, *primals):
    return fun(*primals), lambda *t: jvp(fun, primals, t)[1]


@reg("jax.vjp")
def vjp(fun, *primals, has_aux=False):
    out = fun(*primals)

    def back(ct):
        res = []
        for n in range(len(primals)):
            J = _jacobian(fun, n)(*primals)
            leaves = tree_leaves(J)
            cts = tree_leaves(ct)
            acc = None
            for j, c in zip(leaves, cts):
                c = asarr(c)
                v = tensordot(c, j, axes=(tuple(range(c.ndim)), tuple(range(c.ndim)))) if c.ndim else binop("mul", c, j)
                acc = v if acc is None else binop("add", acc, v)
            res.append(acc)
        return tuple(res)
    return out, back


@reg("jax.lax.stop_gradient")
def stop_gradient(x):
    if CTX.keep_tangents:
        return x

    def f(a):
        if not isinstance(a, Arr):
            a = asarr(a)
        if a.dt in ("bool", "key"):
            return a
        if any(isinstance(e, C.Dual) for e in a.data.reshape(-1)):
            CTX.event("detached", "stop_gradient")
        return Arr(np.frompyfunc(C.strip, 1, 1)(a.data) if a.ndim else wrap(C.strip(a.data[()])).data, a.dt, "jnp")
    return tree_map(f, x)


@reg("jax.custom_vjp")
def custom_vjp_(f, *a, **k):
    raise Unsupported("custom reverse derivative rules")


class CustomJvp:
    """a function with a derivative rule of its own (jax.custom_jvp)"""

    def __init__(self, f, nondiff_argnums=()):
        self.f, self.rule = f, None
        self.nondiff = tuple(toint(n) for n in nondiff_argnums)

    def defjvp(self, rule, symbolic_zeros=False):
        self.rule = rule
        return rule

    def defjvps(self, *rules):
        def rule(primals, tangents):
            out = self.f(*primals)
            t = None
            for r, dt in zip(rules, tangents):
                if r is None:
                    continue
                v = r(dt, out, *primals)
                t = v if t is None else tree_map(lambda a, b: binop("add", a, b), t, v)
            return out, tree_map(lambda v: binop("mul", v, 0.0), out) if t is None else t
        self.rule = rule

    def __call__(self, *args):
        tags = {x.tag for n, a in enumerate(args) if n not in self.nondiff for v in tree_leaves(a) if isinstance(v, Arr)
                for x in v.data.reshape(-1) if isinstance(x, C.Dual)}
        if self.rule is None or CTX.keep_tangents or not tags:
            return self.f(*args)
        tag = max(tags)
        CTX.event("detached", "derivative rule of its own")
        diff = [a for n, a in enumerate(args) if n not in self.nondiff]
        fixed = [args[n] for n in self.nondiff]
        out, dout = self.rule(*fixed, tuple(tree_map(lambda v: primal(asarr(v), tag), a) for a in diff),
                              tuple(tree_map(lambda v: Arr(tangent(v, tag)), a) for a in diff))

        def join(p, t):
            p, t = asarr(p), asarr(t)
            r = np.empty(p.shape, dtype=object)
            for k in np.ndindex(*p.shape):
                r[k] = C.mkdual(tag, C.num(p.data[k]), C.num(t.data[k]))
            return Arr(r, p.dt)
        return tree_map(join, out, dout)


@reg("jax.custom_jvp")
def custom_jvp_(f, nondiff_argnums=()):
    return CustomJvp(f, nondiff_argnums)


# ---------------------------------------------------------------- transformations

def traced_argument(x):
    if isinstance(x, Arr):
        return x if x.kind == "jnp" else Arr(x.data, x.dt, "jnp", x.sym)
    if isinstance(x, (bool, int, float, Fraction)):
        return Arr(asarr(x).data, asarr(x).dt, "jnp")
    if isinstance(x, str) or callable(x) and not isinstance(x, type):
        raise ProgramError("type", f"a {type(x).__name__} is not a valid JAX type for an argument that is not static")
    return x


class Jitted:
    """the arguments are traced, apart from the static ones, which have to be hashable"""

    def __init__(self, f, kind="jit", static_argnums=None, static_argnames=None, **kw):
        self.f, self.kind = f, kind
        self.__name__ = getattr(f, "__name__", kind)
        self.__wrapped__ = f
        one = lambda v, t: () if v is None else (v,) if isinstance(v, t) else tuple(v)  # noqa: E731
        self.nums, self.names = one(static_argnums, (int, Arr)), one(static_argnames, str)
        node = getattr(f, "_node", None)
        self.params = [p.arg for p in node.args.posonlyargs + node.args.args] if hasattr(node, "args") else []
        self.nums = tuple(toint(n) for n in self.nums)

    def __call__(self, *a, **k):
        if self.kind == "jit":
            n = len(a)
            still = {i % n if n else i for i in self.nums if -n <= i < n} | {i for i, p in enumerate(self.params) if p in self.names}
            named = set(self.names) | {self.params[i] for i in self.nums if -len(self.params) <= i < len(self.params)}
            for v in [x for i, x in enumerate(a) if i in still] + [x for p, x in k.items() if p in named]:
                hash(v)
            a = tuple(x if i in still else tree_map(traced_argument, x) for i, x in enumerate(a))
            k = {p: x if p in named else tree_map(traced_argument, x) for p, x in k.items()}
        with C.transformed():
            return self.f(*a, **k)

    def __get__(self, obj, cls=None):
        return self if obj is None else functools.partial(self, obj)

    def lower(self, *a, **k):
        raise Unsupported("jit lowering")


def _jitlike(fun=None, kind="jit", **kw):
    if fun is None:
        return lambda f: Jitted(f, kind, **kw)
    if not callable(fun):
        raise ProgramError("type", "jit of a non callable")
    return Jitted(fun, kind, **kw)


for _n in ("jit", "checkpoint", "remat", "named_call"):
    REG["jax." + _n] = (lambda kind: lambda fun=None, *a, **kw: _jitlike(fun, kind, **kw))(_n)
REG["jax.ad_checkpoint.checkpoint"] = REG["jax.checkpoint"]
REG["jax.block_until_ready"] = lambda x: x
REG["jax.device_put"] = lambda x, *a, **k: tree_map(lambda v: asarr(v), x)
REG["jax.device_get"] = lambda x: tree_map(lambda v: Arr(v.data, v.dt, "np"), x)
REG["jax.eval_shape"] = lambda f, *a, **k: f(*a, **k)
REG["jax.default_backend"] = lambda *a: C.ask("backend")
for _n in ("device_count", "local_device_count"):
    REG["jax." + _n] = lambda *a, **k: C.ask("devices")
REG["jax.process_index"] = REG["jax.host_id"] = lambda *a: C.ask("process")
REG["jax.process_count"] = REG["jax.host_count"] = lambda *a: 2 if C.ask("process") else 1


class _NullCtx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Eager(_NullCtx):
    def __enter__(self):
        CTX.eager += 1
        return self

    def __exit__(self, *a):
        CTX.eager -= 1
        return False


REG["jax.ensure_compile_time_eval"] = _Eager
REG["jax.disable_jit"] = REG["jax.named_scope"] = REG["jax.default_device"] = _NullCtx
REG["jax.default_matmul_precision"] = REG["jax.checking_leaks"] = REG["jax.debug_nans"] = _NullCtx


def stack_leaves(outs):
    """list of pytrees -> pytree of arrays stacked along a new leading axis"""
    leaves0, spec = tree_flatten(outs[0])
    cols = [[asarr(l)] for l in leaves0]
    for o in outs[1:]:
        l, s = tree_flatten(o)
        if s != spec:
            raise ProgramError("type", "mismatching output structures")
        for c, v in zip(cols, l):
            c.append(asarr(v))
    res = []
    for c in cols:
        shp = c[0].shape
        if any(v.shape != shp for v in c):
            raise ProgramError("shape", "mismatching output shapes")
        d = np.empty((len(c),) + shp, dtype=object)
        for i, v in enumerate(c):
            d[i] = v.data if shp else v.data[()]
        res.append(Arr(d, promote(*[v.dt for v in c])))
    return tree_unflatten(spec, res)


@reg("jax.vmap", "jax.pmap")
def vmap(fun=None, in_axes=0, out_axes=0, axis_name=None, axis_size=None, spmd_axis_name=None):
    if fun is None:
        return lambda f: vmap(f, in_axes, out_axes)
    if not callable(fun):
        raise ProgramError("type", "vmap of a non callable")

    def axes_for(arg, ax):
        """axis per leaf"""
        leaves, spec = tree_flatten(arg)
        if ax is None or isinstance(ax, (int, Fraction)) or isinstance(ax, np.integer):
            return [None if ax is None else toint(ax)] * len(leaves)
        out = []
        if isinstance(ax, (tuple, list)) and isinstance(arg, (tuple, list)) and len(ax) == len(arg):
            for a, x in zip(arg, ax):
                out += axes_for(a, x)
            return out
        if isinstance(ax, dict) and isinstance(arg, dict):
            for k in sorted(arg):
                out += axes_for(arg[k], ax[k])
            return out
        raise ProgramError("type", "vmap: in_axes does not match the arguments")

    def mapped(*args, **kw):
        if isinstance(in_axes, (tuple, list)):
            if len(in_axes) != len(args):
                raise ProgramError("type", f"vmap: in_axes of length {len(in_axes)} for {len(args)} arguments")
            axs = [axes_for(a, x) for a, x in zip(args, in_axes)]
        else:
            axs = [axes_for(a, in_axes) for a in args]
        kspec = {k: tree_flatten(v) for k, v in kw.items()}
        n = axis_size
        generic = True
        flat = []
        for a, ax in zip(args, axs):
            leaves, spec = tree_flatten(a)
            leaves = [asarr(l) if x is not None else l for l, x in zip(leaves, ax)]
            for l, x in zip(leaves, ax):
                if x is None:
                    continue
                if l.ndim == 0 or not -l.ndim <= x < l.ndim:
                    raise ProgramError("shape", f"vmap: axis {x} of an array of shape {l.shape}")
                m = l.shape[x]
                if n is None:
                    n = m
                elif n != m:
                    raise ProgramError("shape", f"vmap: inconsistent sizes {n} and {m} of the mapped axes")
                if not is_generic(l.data, x % l.ndim):
                    generic = False
            flat.append((leaves, spec, ax))
        kflat = {}
        for k, (leaves, spec) in kspec.items():
            leaves = [asarr(l) for l in leaves]
            for l in leaves:
                if n is None:
                    n = l.shape[0]
                elif l.ndim == 0 or l.shape[0] != n:
                    raise ProgramError("shape", "vmap: inconsistent sizes of the mapped axes (keyword argument)")
            generic = generic and not leaves
            kflat[k] = (leaves, spec)
        if n is None:
            raise ProgramError("value", "vmap: no mapped axis")

        def at(i):
            na = [tree_unflatten(spec, [l if x is None else wrap_take(l, x, i) for l, x in zip(leaves, ax)])
                  for leaves, spec, ax in flat]
            nk = {k: tree_unflatten(spec, [wrap_take(l, 0, i) for l in leaves]) for k, (leaves, spec) in kflat.items()}
            with C.transformed():
                return fun(*na, **nk)
        if generic and n > 1:
            out = at(0)
            res = tree_map(lambda v: Arr(np.broadcast_to(asarr(v).data, (n,) + asarr(v).shape), asarr(v).dt), out)
        else:
            if n == 0:
                raise Unsupported("vmap over an empty axis")
            res = stack_leaves([at(i) for i in range(n)])
        if out_axes == 0:
            return res
        if isinstance(out_axes, (int,)):
            return tree_map(lambda v: Arr(np.moveaxis(v.data, 0, out_axes), v.dt), res)
        if isinstance(out_axes, (tuple, list)):
            return tuple(tree_map(lambda v: Arr(np.moveaxis(v.data, 0, ax), v.dt) if ax is not None
                                  else Arr(v.data[0] if isinstance(v.data[0], np.ndarray) else wrap(v.data[0]).data, v.dt), r)
                         for r, ax in zip(res, out_axes))
        raise Unsupported("vmap out_axes")
    mapped.__name__ = getattr(fun, "__name__", "vmapped")
    return mapped


def wrap_take(l, ax, i):
    d = np.moveaxis(l.data, ax, 0)[i]
    return Arr(d, l.dt) if isinstance(d, np.ndarray) else wrap(d, l.dt)


@reg("jax.numpy.vectorize", "numpy.vectorize")
def vectorize(pyfunc=None, *, excluded=frozenset(), signature=None, otypes=None, cache=None, doc=None):
    if pyfunc is None:
        return lambda f: vectorize(f, excluded=excluded, signature=signature)
    if signature is None:
        ins = outs = None
    else:
        a, b = signature.replace(" ", "").split("->")

        def parse(s):
            r, cur, depth = [], "", 0
            for ch in s:
                if ch == "(":
                    depth, cur = 1, ""
                elif ch == ")":
                    r.append(tuple(x for x in cur.split(",") if x))
                    depth = 0
                elif depth:
                    cur += ch
            return r
        ins, outs = parse(a), parse(b)
    exc = set(excluded) if excluded else set()

    def f(*args, **kw):
        idx = [i for i in range(len(args)) if i not in exc]
        if ins is not None and len(idx) != len(ins):
            raise ProgramError("type", f"vectorize: {len(idx)} arguments for the signature {signature}")
        core_in = ins if ins is not None else [()] * len(idx)
        dims = {}
        vals, batch = {}, []
        for i, cd in zip(idx, core_in):
            x = asarr(args[i])
            if x.ndim < len(cd):
                raise ProgramError("shape", f"vectorize: input with {x.ndim} dimensions for core dimensions {cd}")
            core = x.shape[x.ndim - len(cd):]
            for n, s in zip(cd, core):
                if dims.setdefault(n, s) != s:
                    raise ProgramError("shape", f"vectorize: inconsistent size of core dimension {n}")
            vals[i] = (x, len(cd))
            batch.append(x.shape[:x.ndim - len(cd)])
        try:
            bs = np.broadcast_shapes(*batch) if batch else ()
        except ValueError:
            raise ProgramError("shape", f"vectorize: incompatible batch shapes {batch}")
        bcast = {i: np.broadcast_to(x.data, bs + x.shape[x.ndim - k:]) for i, (x, k) in vals.items()}
        res = {}
        multi = None
        for b in np.ndindex(*bs):
            na = list(args)
            for i, (x, k) in vals.items():
                d = bcast[i][b] if bs else x.data
                na[i] = Arr(d, x.dt) if isinstance(d, np.ndarray) else wrap(d, x.dt)
            o = pyfunc(*na, **kw)
            multi = isinstance(o, (tuple, list))
            ol = list(o) if multi else [o]
            ol = [asarr(v) for v in ol]
            if outs is not None:
                if len(ol) != len(outs):
                    raise ProgramError("type", f"vectorize: {len(ol)} outputs for the signature {signature}")
                loc = dict(dims)
                for v, cd in zip(ol, outs):
                    if v.ndim != len(cd):
                        raise ProgramError("shape", f"vectorize: output of shape {v.shape} for core dimensions {cd}")
                    for n, s in zip(cd, v.shape):
                        if loc.setdefault(n, s) != s:
                            raise ProgramError("shape", f"vectorize: core dimension {n} has sizes {loc[n]} and {s} "
                                                        f"in the signature {signature}")
            res[b] = ol
        first = next(iter(res.values()))
        out = []
        for k, v in enumerate(first):
            d = np.empty(bs + v.shape, dtype=object)
            for b, ol in res.items():
                e = ol[k].data
                d[b] = e if e.ndim else e[()]
            out.append(Arr(d, v.dt))
        return tuple(out) if multi else out[0]
    f.__name__ = getattr(pyfunc, "__name__", "vectorized")
    return f


def same_structure(a, b, what):
    la, sa = tree_flatten(a)
    lb, sb = tree_flatten(b)
    if sa != sb:
        raise ProgramError("type", f"{what}: carry input and output have different structures")
    for x, y in zip(la, lb):
        if asarr(x).shape != asarr(y).shape:
            raise ProgramError("type", f"{what}: carry input has shape {asarr(x).shape} and output {asarr(y).shape}")


def as_traced(t):
    return tree_map(lambda v: Arr(asarr(v).data, asarr(v).dt, "jnp", asarr(v).sym), t)


@reg("jax.lax.scan")
def scan(f, init, xs=None, length=None, reverse=False, unroll=1):
    leaves, spec = tree_flatten(xs)
    leaves = [asarr(l) for l in leaves]
    n = None if length is None else toint(length)
    for l in leaves:
        if l.ndim == 0:
            raise ProgramError("value", "scan: xs must have a leading axis")
        if n is None:
            n = l.shape[0]
        elif l.shape[0] != n:
            raise ProgramError("value", f"scan: leading axis sizes {n} and {l.shape[0]} differ")
    if n is None:
        raise ProgramError("value", "scan: xs is empty and no length is given")
    carry = as_traced(init)
    ys = []
    order = range(n - 1, -1, -1) if reverse else range(n)
    for i in order:
        x = tree_unflatten(spec, [wrap_take(l, 0, i) for l in leaves])
        out = f(carry, x)
        if not isinstance(out, tuple) or len(out) != 2:
            raise ProgramError("type", "scan body must return a pair (carry, y)")
        new, y = out
        same_structure(carry, new, "scan")
        carry = as_traced(new)
        ys.append(y)
    if reverse:
        ys = ys[::-1]
    if n == 0:
        raise Unsupported("scan of length zero")
    return carry, stack_leaves(ys)


@reg("jax.lax.fori_loop")
def fori_loop(lower, upper, body_fun, init_val, unroll=None):
    v = as_traced(init_val)
    for i in range(toint(lower), toint(upper)):
        n = body_fun(wrap(i, "int"), v)
        same_structure(v, n, "fori_loop")
        v = as_traced(n)
    return v


@reg("jax.lax.while_loop")
def while_loop(cond_fun, body_fun, init_val):
    v = as_traced(init_val)
    for _ in range(100000):
        c = asarr(cond_fun(v)).scalar()
        if isinstance(c, Bo):
            raise Unsupported("while_loop with an abstract condition")
        if isinstance(c, Num):
            c = C.prim(c).const
            if c is None:
                raise Unsupported("while_loop with an abstract condition")
        if not c:
            return v
        n = body_fun(v)
        same_structure(v, n, "while_loop")
        v = as_traced(n)
    raise Unsupported("while_loop bound")


def branch_structure(a, b, what):
    la, sa = tree_flatten(a)
    lb, sb = tree_flatten(b)
    if sa != sb:
        raise ProgramError("type", f"{what}: branches return different structures")
    for x, y in zip(la, lb):
        if asarr(x).shape != asarr(y).shape:
            raise ProgramError("type", f"{what}: branches return shapes {asarr(x).shape} and {asarr(y).shape}")


def merge(c, a, b, what):
    la, sa = tree_flatten(a)
    lb, sb = tree_flatten(b)
    if sa != sb:
        raise ProgramError("type", f"{what}: branches return different structures")
    out = []
    for x, y in zip(la, lb):
        x, y = asarr(x), asarr(y)
        if x.shape != y.shape:
            raise ProgramError("type", f"{what}: branches return shapes {x.shape} and {y.shape}")
        d = ew(np.frompyfunc(lambda p, q: C.select(c, p, q), 2, 1), x.data, y.data)
        out.append(Arr(d, promote(x.dt, y.dt)))
    return tree_unflatten(sa, out)


_MISSING = object()


@reg("jax.lax.cond")
def cond(pred, true_fun, false_fun, *operands, operand=_MISSING, linear=None):
    if operand is not _MISSING:
        operands = (operand,)
    p = asarr(pred)
    if p.ndim:
        raise ProgramError("type", "cond: the predicate must be a scalar")
    c = p.scalar()
    if isinstance(c, Num):
        k = C.prim(c).const
        c = (k != 0) if k is not None else C.bnot(C.equal(c, C.ZERO))
    ops = [as_traced(o) for o in operands]
    if not isinstance(c, Bo):
        # both branches are traced by JAX and must have the same structure; effects of the branch not taken are not those of the run
        r = as_traced((true_fun if c else false_fun)(*ops))
        with CTX.silent():
            branch_structure(r, (false_fun if c else true_fun)(*ops), "cond")
        return r
    CTX.event("join", f"both branches of a cond on {c.desc} are joined")
    return merge(c, true_fun(*ops), false_fun(*ops), "cond")


@reg("jax.lax.switch")
def switch(index, branches, *operands, operand=_MISSING):
    if operand is not _MISSING:
        operands = (operand,)
    i = toint(index)
    i = min(max(i, 0), len(branches) - 1)
    return as_traced(branches[i](*operands))


@reg("jax.lax.map")
def lax_map(f, xs):
    return vmap(f)(xs)


@reg("jax.lax.associative_scan")
def associative_scan(fn, elems, reverse=False, axis=0):
    leaves, spec = tree_flatten(elems)
    n = asarr(leaves[0]).shape[0]
    if toint(axis) != 0:
        raise Unsupported("associative_scan axis")
    idx = list(range(n))[::-1] if reverse else list(range(n))
    acc, outs = None, {}
    for i in idx:
        # the combination is applied on batches of one element
        e = tree_unflatten(spec, [Arr(asarr(l).data[i:i + 1], asarr(l).dt) for l in leaves])
        acc = e if acc is None else fn(acc, e)
        outs[i] = acc
    return tree_map(lambda *v: REG["jax.numpy.concatenate"](list(v), 0), *[outs[i] for i in range(n)])


def _starts(v):
    return [toint(x) for x in v]


@reg("jax.lax.dynamic_slice")
def dynamic_slice(operand, start_indices, slice_sizes):
    a = asarr(operand)
    st = _starts(start_indices)
    sl = []
    for s, k, n in zip(st, ints(tuple(slice_sizes)), a.shape):
        if s < 0:
            s += n
        if s < 0 or s + k > n:
            CTX.event("oob", f"dynamic_slice [{s}, {s + k}) of an axis of size {n}")
            s = max(0, min(s, n - k))
        sl.append(slice(s, s + k))
    return Arr(a.data[tuple(sl)], a.dt)


@reg("jax.lax.dynamic_slice_in_dim")
def dynamic_slice_in_dim(operand, start_index, slice_size, axis=0):
    a = asarr(operand)
    st, sz = [0] * a.ndim, list(a.shape)
    st[toint(axis)], sz[toint(axis)] = start_index, slice_size
    return dynamic_slice(a, st, sz)


@reg("jax.lax.slice_in_dim")
def slice_in_dim(operand, start_index, limit_index, stride=1, axis=0):
    a = asarr(operand)
    ix = [slice(None)] * a.ndim
    ix[toint(axis)] = slice(start_index, limit_index, stride)
    return getitem(a, tuple(ix))


@reg("jax.lax.dynamic_index_in_dim", "jax.lax.index_in_dim")
def dynamic_index_in_dim(operand, index, axis=0, keepdims=True):
    a = asarr(operand)
    r = dynamic_slice_in_dim(a, index, 1, axis)
    return r if keepdims else Arr(np.squeeze(r.data, toint(axis)), a.dt)


@reg("jax.lax.dynamic_update_slice")
def dynamic_update_slice(operand, update, start_indices):
    a, u = asarr(operand), asarr(update)
    st = _starts(start_indices)
    d = a.data.copy()
    sl = []
    for s, k, n in zip(st, u.shape, a.shape):
        if s < 0 or s + k > n:
            CTX.event("oob", f"dynamic_update_slice [{s}, {s + k}) of an axis of size {n}")
            s = max(0, min(s, n - k))
        sl.append(slice(s, s + k))
    d[tuple(sl)] = u.data
    return Arr(d, promote(a.dt, u.dt))


@reg("jax.lax.dynamic_update_slice_in_dim", "jax.lax.dynamic_update_index_in_dim")
def dynamic_update_slice_in_dim(operand, update, start_index, axis):
    a, u = asarr(operand), asarr(update)
    if u.ndim < a.ndim:
        u = Arr(np.expand_dims(u.data, toint(axis)), u.dt)
    st = [0] * a.ndim
    st[toint(axis)] = start_index
    return dynamic_update_slice(a, u, st)


REG["jax.lax.expand_dims"] = lambda a, d: REG["jax.numpy.expand_dims"](a, tuple(d))
REG["jax.lax.reshape"] = lambda a, s, dimensions=None: reshape(a, s)
REG["jax.lax.transpose"] = transpose
REG["jax.lax.convert_element_type"] = astype
REG["jax.lax.iota"] = lambda dtype, size: arange(size)
REG["jax.lax.full"] = full
REG["jax.lax.zeros_like_array"] = zeros_like
REG["jax.lax.axis_index"] = lambda *a: _uns("axis_index")
REG["jax.lax.rev"] = lambda a, d: REG["jax.numpy.flip"](a, tuple(d))


def _uns(n):
    raise Unsupported(n)


# ---------------------------------------------------------------- random numbers

def key_arr(path):
    d = np.empty((2,), dtype=object)
    d[0], d[1] = KeyW(path, 0), KeyW(path, 1)
    return Arr(d, "key")


def key_path(key, what):
    k = key if isinstance(key, Arr) else asarr(key)
    d = list(k.data.reshape(-1))
    if len(d) != 2:
        raise ProgramError("type", f"{what} accepts a single key, got an array of shape {k.shape}")
    if not all(isinstance(e, KeyW) for e in d):
        if k.dt == "int":
            # raw integers: a key that does not come from the caller
            return ("const", tuple(str(C.prim(C.num(e)).const) for e in d))
        raise ProgramError("type", f"{what}: not a PRNG key")
    if d[0].path == d[1].path and (d[0].j, d[1].j) == (0, 1):
        return d[0].path
    return ("words", d[0].path, d[0].j, d[1].path, d[1].j)


@reg("jax.random.PRNGKey", "jax.random.key")
def PRNGKey(seed, impl=None):
    s = asarr(seed)
    c = C.prim(C.num(s.scalar())).const
    return key_arr(("seed", str(c) if c is not None else repr(C.prim(s.scalar()).fp)))


REG["jax.random.key_data"] = lambda k: asarr(k)
REG["jax.random.wrap_key_data"] = lambda k, impl=None: asarr(k)
REG["jax.random.clone"] = lambda k: k


@reg("jax.random.split")
def random_split(key, num=2):
    path = key_path(key, "split")
    shp = shape_of(num)
    if CTX.key_cap and len(shp) == 1 and shp[0] >= CTX.key_cap[0]:
        shp = CTX.key_cap[1:]  # samples that the program treats alike
    n = int(np.prod(shp, dtype=int))
    CTX.event("key-split", f"split into {n}", path)
    d = np.empty((n, 2), dtype=object)
    for i in range(n):
        p = path + ("s", n, i)
        d[i, 0], d[i, 1] = KeyW(p, 0), KeyW(p, 1)
    return Arr(d.reshape(shp + (2,)), "key")


@reg("jax.random.fold_in")
def fold_in(key, data):
    path = key_path(key, "fold_in")
    x = asarr(data)
    if x.dt == "float":
        x = astype_(x, "int")  # the data is converted to uint32: 0.25 and 0.5 give the same key
    c = C.prim(C.num(x.scalar()))
    CTX.event("key-split", "fold_in", path)
    if c.const is not None:
        return key_arr(path + ("f", str(int(c.const) % 2 ** 32)))
    CTX.folds[repr(c.fp)] = c
    return key_arr(path + ("f", repr(c.fp)))


def draw(dist, key, shape, extra=()):
    path = key_path(key, dist)
    n = int(np.prod(shape, dtype=int)) if shape else 1
    CTX.event("draw", f"{dist} of shape {shape}", (path, dist, n))
    d = np.empty((n,), dtype=object)
    for i in range(n):
        d[i] = C.atom("draw", dist, path, n, i, *extra)
    return Arr(d.reshape(shape))


@reg("jax.random.normal")
def normal(key, shape=(), dtype=None):
    return draw("normal", key, shape_of(shape))


@reg("jax.random.multivariate_normal")
def multivariate_normal(key, mean, cov, shape=None, dtype=None, method="cholesky"):
    mean, cov = asarr(mean), asarr(cov)
    if mean.ndim < 1 or cov.ndim < 2:
        raise ProgramError("shape", "multivariate_normal: mean must be a vector and cov a matrix")
    n = mean.shape[-1]
    if cov.shape[-2:] != (n, n):
        raise ProgramError("shape", f"multivariate_normal: cov of shape {cov.shape} for a mean of shape {mean.shape}")
    if method not in ("cholesky", "svd", "eigh"):
        raise ProgramError("value", "multivariate_normal: unknown method")
    if cov.ndim > 2 or mean.ndim > 1:
        raise Unsupported("batched multivariate_normal")
    shp = shape_of(shape) if shape is not None else ()
    z = draw("normal", key, shp + (n,))
    what = "cholesky" if method == "cholesky" else method
    L = chol_data(symmetrize(numdata(cov.data), what), what)
    out = np.empty(shp + (n,), dtype=object)
    for i in np.ndindex(*shp):
        for r in range(n):
            zi = z.data[i] if shp else z.data
            out[i + (r,)] = C.add(C.num(mean.data[r]), dotvec(L[r], zi))
    return Arr(out)


def _dist(name):
    def f(key, *args, shape=(), **k):
        vals = [asarr(a) for a in args if not isinstance(a, (tuple,))]
        sh = next((a for a in args if isinstance(a, tuple)), shape)
        return draw(name, key, shape_of(sh if sh is not None else ()),
                    tuple(repr(C.prim(C.num(v.data.reshape(-1)[0])).fp) for v in vals if v.size == 1))
    return f


for _n in ("uniform", "bernoulli", "rademacher", "exponential", "laplace", "gumbel", "cauchy", "truncated_normal",
           "t", "bits", "logistic", "chisquare", "gamma", "beta"):
    REG["jax.random." + _n] = _dist(_n)
for _n in ("choice", "permutation", "randint", "categorical", "shuffle", "dirichlet", "poisson"):
    REG["jax.random." + _n] = (lambda n: lambda *a, **k: _uns(f"random.{n}"))(_n)


# ---------------------------------------------------------------- host effects

class Bar:
    """model of a tqdm progress bar"""

    def __init__(self, iterable=None, total=None, desc=None, **k):
        self.iterable = iterable
        self.total = total if total is not None else (len(iterable) if iterable is not None else None)
        self.n, self.closed, self.updates = 0, 0, []
        CTX.bars.append(self)

    def update(self, n=1):
        if self.closed:
            CTX.event("bar", "update of a closed progress bar")
        v = C.prim(C.num(asarr(n).scalar())).const
        self.n += v
        self.updates.append(v)

    def set_description(self, *a, **k):
        pass

    set_postfix = set_description_str = set_postfix_str = refresh = clear = display = set_description

    def reset(self, total=None):
        self.n = 0

    def close(self):
        self.closed += 1

    def __iter__(self):
        for x in self.iterable:
            yield x
            self.n += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


for _m in ("tqdm", "tqdm.auto", "tqdm.std", "tqdm.notebook", "tqdm.autonotebook"):
    REG[_m + ".tqdm"] = Bar
    REG[_m + ".trange"] = lambda n, **k: Bar(range(n), **k)


def _host(t):
    return tree_map(lambda v: Arr(v.data, v.dt, "np") if isinstance(v, Arr) else v, t)


@reg("jax.experimental.host_callback.id_tap")
def id_tap(tap_func, arg, *, result=_MISSING, tap_with_device=False, device_index=0, callback_flavor=None, **k):
    CTX.event("callback", "host callback")
    if not CTX.muted:
        CTX.callbacks.append(tap_func)
        tap_func(_host(arg), ())
    return arg if result is _MISSING else result


@reg("jax.debug.callback")
def debug_callback(callback, *args, ordered=False, **kw):
    CTX.event("callback", "host callback")
    if not CTX.muted:
        callback(*_host(args), **_host(kw))


@reg("jax.experimental.io_callback")
def io_callback(callback, result_shape_dtypes, *args, sharding=None, ordered=False, **kw):
    CTX.event("callback", "host callback")
    if CTX.muted:
        raise Unsupported("io_callback in a branch that is not taken")
    return callback(*_host(args), **_host(kw))


REG["jax.pure_callback"] = lambda cb, sh, *a, **k: _uns("pure_callback")
REG["jax.experimental.host_callback.call"] = lambda *a, **k: _uns("host_callback.call")
REG["jax.debug.print"] = lambda *a, **k: CTX.event("callback", "debug print")
REG["jax.debug.breakpoint"] = lambda *a, **k: None
@both("save")
def _save(file, arr=None, *a, **k):
    if CTX.saves is not None:
        CTX.saves.append((file, arr))
    else:
        CTX.event("io", "numpy.save")


@both("savez")
def _savez(file, *arrs, **named):
    for name, arr in [(f"arr_{i}", x) for i, x in enumerate(arrs)] + list(named.items()):
        _save(f"{file}:{name}", arr)


for _n in ("savez_compressed", "savetxt"):
    REG["numpy." + _n] = REG["jax.numpy.savez"] if _n != "savetxt" else _save


REG["jax.numpy.load"] = REG["numpy.load"] = lambda *a, **k: _uns("load")
for _n in ("numpy.random.seed", "numpy.random.normal", "numpy.random.randn", "numpy.random.rand",
           "numpy.random.uniform", "numpy.random.standard_normal", "numpy.random.default_rng"):
    def _hr(n):
        def f(*a, **k):
            CTX.event("host-random", f"{n}: randomness that does not come from a key")
            shp = k.get("size", a if n.endswith(("randn", "rand")) else (a[-1] if a and isinstance(a[-1], tuple) else ()))
            shp = shape_of(shp) if shp not in ((), None) else ()
            d = np.empty(shp, dtype=object)
            for i in np.ndindex(*shp):
                d[i] = C.atom("host-random", n, CTX.nid, *i)
            return Arr(d, "float", "np")
        return f
    REG[_n] = _hr(_n)


# ---------------------------------------------------------------- array methods

class AtIndexer:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, idx):
        return AtRef(self.a, idx)


class AtRef:
    def __init__(self, a, idx):
        self.a, self.idx = a, idx

    def _apply(self, v, fn, mode=None, **k):
        a = self.a
        i = norm_index(a, self.idx, mode="update")
        d = np.array(a.data)
        sel = d[i]
        nv = bdata(v, sel if isinstance(sel, np.ndarray) else None) if isinstance(sel, np.ndarray) else \
            bdata(v, np.empty(()))
        if fn is None:
            d[i] = nv
        elif isinstance(sel, np.ndarray):
            d[i] = ew(fn, sel, nv)
        else:
            d[i] = fn(sel, nv)
        x = asarr(v)
        if a.dt == "key" or x.dt == "key" or promote(a.dt, x.dt) == a.dt:
            return Arr(d, a.dt)
        return astype(Arr(d, promote(a.dt, x.dt)), a.dt)        # the result has the type of the array that is updated

    def set(self, v, indices_are_sorted=False, unique_indices=False, mode=None):
        return self._apply(v, None, mode)

    def add(self, v, **k):
        return self._apply(v, _UF["add"])

    def subtract(self, v, **k):
        return self._apply(v, _UF["sub"])

    def multiply(self, v, **k):
        return self._apply(v, _UF["mul"])

    mul = multiply

    def divide(self, v, **k):
        return self._apply(v, _UF["div"])

    def power(self, v, **k):
        return self._apply(v, _UF["pow"])

    def max(self, v, **k):
        return self._apply(v, _UF["max"])

    def min(self, v, **k):
        return self._apply(v, _UF["min"])

    def apply(self, f, **k):
        sub = getitem(self.a, self.idx)
        return self.set(f(sub))

    def get(self, indices_are_sorted=False, unique_indices=False, mode=None, fill_value=None):
        return getitem(self.a, self.idx)


J = "jax.numpy."
_METHODS = {
    "sum": J + "sum", "mean": J + "mean", "prod": J + "prod", "max": J + "max", "min": J + "min", "std": J + "std",
    "var": J + "var", "cumsum": J + "cumsum", "cumprod": J + "cumprod", "all": J + "all", "any": J + "any",
    "ravel": J + "ravel", "flatten": J + "ravel", "squeeze": J + "squeeze", "swapaxes": J + "swapaxes",
    "repeat": J + "repeat", "take": J + "take", "diagonal": J + "diagonal", "trace": J + "trace", "dot": J + "dot",
    "clip": J + "clip", "conj": J + "conj", "conjugate": J + "conj", "argmax": J + "argmax", "argmin": J + "argmin",
    "copy": J + "copy", "round": J + "round", "sort": J + "sort",
}


def array_attr(a, name):
    if a.kind == "py" and name not in ("real", "imag", "conjugate", "is_integer", "as_integer_ratio", "hex", "__class__"):
        raise ProgramError("attribute", f"Python floats have no attribute `{name}`")
    if name in ("shape", "ndim", "size"):
        return getattr(a, name)
    if name == "T":
        return _k(a, transpose(a))
    if name == "mT":
        return _k(a, swapaxes(a, -1, -2))
    if name == "at":
        if a.kind == "np":
            raise ProgramError("attribute", "numpy arrays have no attribute `at`")
        return AtIndexer(a)
    if name == "dtype":
        return DType(a.dt)
    if name == "astype":
        return lambda dtype, copy=True: astype(a, dtype)
    if name == "reshape":
        return lambda *s, order="C", **k: _k(a, reshape(a, s[0] if len(s) == 1 else s, order))
    if name == "transpose":
        return lambda *s: _k(a, transpose(a, None if not s else (s[0] if len(s) == 1 else s)))
    if name == "real":
        return a
    if name == "imag":
        return zeros_like(a)
    if name == "item":
        def item(*i):
            if a.kind == "jnp":
                CTX.event("host-bool", "item() of a JAX array")
            return a.scalar()
        return item
    if name == "tolist":
        def tolist():
            if a.kind == "jnp":
                CTX.event("host-bool", "tolist() of a JAX array")
            return a.data.tolist()
        return tolist
    if name in ("block_until_ready", "copy_to_host_async"):
        return lambda: a
    if name == "fill" and a.kind == "np":
        def fill(v):
            a[(slice(None),) * a.ndim] = v
        return fill
    if name == "nbytes":
        return a.size * 4
    if name in _METHODS:
        f = REG[_METHODS[name]]

        def meth(*args, **k):
            return tree_map(lambda v: _k(a, v), f(a, *args, **k))
        return meth
    if name == "weak_type" and a.kind == "jnp":
        return C.ask("weak")
    if name == "aval" and a.kind == "jnp":
        return a
    if name in ("weak_type", "aval"):
        raise ProgramError("attribute", f"numpy arrays have no attribute `{name}`")
    if name in ("devices", "device", "sharding", "weak_type", "aval", "addressable_data", "unsafe_buffer_pointer"):
        raise Unsupported(f"array attribute {name}")
    known = set(dir(np.ndarray)) | {"at", "mT"}
    if name in known:
        raise Unsupported(f"array attribute {name}")
    raise ProgramError("attribute", f"arrays have no attribute `{name}`")


def _k(a, r):
    if isinstance(r, Arr) and a.kind == "np":
        return Arr(r.data, r.dt, "np", r.sym)
    return r


def _np_asarray(x, dtype=None, order=None, copy=None, **k):
    if isinstance(x, Arr) and x.kind == "np" and dtype is None:
        return x  # no copy: writes reach the original
    return _np_asarray_copy(x, dtype) if dtype is not None else _np_asarray_copy(x)


_np_asarray_copy = REG["numpy.array"]
for _n in ("asarray", "asanyarray", "ascontiguousarray"):
    REG["numpy." + _n] = _np_asarray


def _inside(fn):
    @functools.wraps(fn)
    def g(*a, **k):
        with C.transformed():
            return fn(*a, **k)
    return g


for _n in ("jax.lax.scan", "jax.lax.fori_loop", "jax.lax.while_loop", "jax.lax.cond", "jax.lax.switch", "jax.lax.map",
           "jax.lax.associative_scan", "jax.jvp", "jax.linearize", "jax.eval_shape"):
    if _n in REG:
        REG[_n] = _inside(REG[_n])
