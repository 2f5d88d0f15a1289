"""Abstract arrays: numpy object arrays (shape bookkeeping only) of value-graph scalars."""
from fractions import Fraction

import numpy as np

from . import core as C
from .core import CTX, Bo, Dual, KeyW, Num, ProgramError, Sc, Unsupported


class Arr:
    """kind: 'jnp' (immutable, possibly traced), 'np' (host array, mutable), 'py' (a Python float)."""
    __slots__ = ("data", "dt", "kind", "sym", "owner", "eager", "__weakref__")
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, data, dt="float", kind="jnp", sym=False, owner=None):
        if not isinstance(data, np.ndarray):
            d = np.empty((), dtype=object)
            d[()] = data
            data = d
        self.data, self.dt, self.kind, self.sym, self.owner, self.eager = data, dt, kind, sym, owner, CTX.eager

    # -- shape
    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)

    def __len__(self):
        if self.data.ndim == 0:
            raise ProgramError("type", "len() of a 0-d array")
        return self.data.shape[0]

    def __iter__(self):
        if self.data.ndim == 0:
            raise ProgramError("type", "iteration over a 0-d array")
        return iter([wrap(self.data[i], self.dt, self.kind) for i in range(self.data.shape[0])])

    def __repr__(self):
        return f"Arr{self.shape}<{self.dt}>"

    def __hash__(self):
        # a Python float is hashed by value, as are the scalars of numpy
        if self.kind != "jnp" and self.data.ndim == 0:
            if isinstance(self.data[()], (Sc, Dual)):
                return hash(("py", C.prim(self.data[()]).fp if not isinstance(self.data[()], Dual) else 0))
            return object.__hash__(self)
        raise ProgramError("type", "a JAX array is not hashable" if self.kind == "jnp" else "a numpy array is not hashable")

    # -- operators
    def __add__(self, o): return binop("add", self, o)
    def __radd__(self, o): return binop("add", o, self)
    def __sub__(self, o): return binop("sub", self, o)
    def __rsub__(self, o): return binop("sub", o, self)
    def __mul__(self, o): return binop("mul", self, o)
    def __rmul__(self, o): return binop("mul", o, self)
    def __truediv__(self, o): return binop("div", self, o)
    def __rtruediv__(self, o): return binop("div", o, self)
    def __floordiv__(self, o): return binop("floordiv", self, o)
    def __rfloordiv__(self, o): return binop("floordiv", o, self)
    def __mod__(self, o): return binop("mod", self, o)
    def __rmod__(self, o): return binop("mod", o, self)
    def __pow__(self, o): return binop("pow", self, o)
    def __rpow__(self, o): return binop("pow", o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __neg__(self): return unop(C.neg, self)
    def __pos__(self): return self
    def __abs__(self): return unop(C.absolute, self)
    def __lt__(self, o): return binop("lt", self, o)
    def __gt__(self, o): return binop("lt", o, self)
    def __le__(self, o): return binop("le", self, o)
    def __ge__(self, o): return binop("le", o, self)
    def __eq__(self, o): return binop("eq", self, o) if operand(o) else False
    def __ne__(self, o): return binop("ne", self, o) if operand(o) else True
    def __and__(self, o): return binop("and", self, o)
    __rand__ = __and__
    def __or__(self, o): return binop("or", self, o)
    __ror__ = __or__
    def __xor__(self, o): return binop("xor", self, o)
    __rxor__ = __xor__
    def __invert__(self): return unop(C.bnot, self, dt="bool")

    def scalar(self):
        if self.data.size != 1:
            raise ProgramError("type", "only arrays of size 1 can be converted to Python scalars")
        return self.data.reshape(-1)[0]

    def __bool__(self):
        if self.data.size != 1:
            raise ProgramError("value", "the truth value of an array with more than one element is ambiguous")
        v = self.scalar()
        if self.kind == "jnp":
            CTX.event("host-bool", "Python branch on the value of a JAX array (fails under jit, vmap, scan)")
        if isinstance(v, Bo):
            return bool(v)
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, KeyW):
            return True
        c = C.prim(v).const
        if c is None:
            return CTX.decide(f"{C.show(v, 3)} != 0")
        return c != 0

    def __float__(self):
        raise Unsupported("float() through the host protocol")

    def __int__(self):
        if self.kind == "jnp":
            CTX.event("host-int", "conversion of a JAX array to a Python int (fails under jit, vmap, scan)")
        return toint(self, convert=True)

    def __index__(self):
        if self.dt != "int" or self.data.size != 1:
            raise ProgramError("type", "only integer scalar arrays can be converted to a scalar index")
        if self.kind == "jnp":
            CTX.event("host-int", "conversion of a JAX array to a Python int (fails under jit, vmap, scan)")
        return toint(self)

    def __contains__(self, x):
        raise Unsupported("`in` on an array")

    # -- indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, v):
        if self.kind != "np":
            raise ProgramError("type", "JAX arrays are immutable: item assignment")
        if self.owner:
            CTX.event("mutation", f"in-place assignment to the caller's array `{self.owner}`", self.owner)
        idx = norm_index(self, idx)
        if self.dt in ("int", "bool"):
            from .jx import astype
            v = asarr(v)
            v = astype(v, self.dt) if v.dt != self.dt and v.dt != "key" else v
        self.data[idx] = bdata(v, self.data[idx])

    def inplace(self, op, o):
        """x op= o"""
        r = matmul(self, o) if op == "matmul" else binop(op, self, o)
        if self.kind != "np":
            return r
        if self.owner:
            CTX.event("mutation", f"in-place update of the caller's array `{self.owner}`", self.owner)
        if r.shape != self.shape:
            raise ProgramError("shape", "in-place operation changes the shape")
        self.data[...] = r.data
        return self


def operand(o):
    return isinstance(o, (Arr, Num, Bo, int, float, Fraction, bool, np.generic, np.ndarray, list, tuple))


def scalar_dt(x):
    if isinstance(x, (bool, np.bool_, Bo)):
        return "bool"
    if isinstance(x, KeyW):
        return "key"
    if isinstance(x, (int, np.integer)):
        return "int"
    return "float"


def elt(x):
    """normalise an element"""
    if isinstance(x, (Num, Bo, KeyW, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    return C.const(x)


_norm = np.frompyfunc(elt, 1, 1)


def odata(x):
    """object ndarray with normalised elements"""
    a = np.asarray(x, dtype=object)
    if a.ndim == 0:
        r = np.empty((), dtype=object)
        r[()] = elt(a[()])
        return r
    return _norm(a) if a.size else a


def wrap(x, dt="float", kind="jnp"):
    if isinstance(x, np.ndarray):
        return Arr(x, dt, kind)
    r = np.empty((), dtype=object)
    r[()] = elt(x)
    return Arr(r, dt, kind)


_DT_ORDER = {"bool": 0, "int": 1, "key": 1, "float": 2}


def promote(*dts):
    if "key" in dts and all(d in ("key", "bool") for d in dts):
        return "key"
    return max((d if d != "key" else "int" for d in dts), key=lambda d: _DT_ORDER[d])


def asarr(x, kind="jnp"):
    """Any array-like -> Arr."""
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        if type(x) is tuple and hasattr(x, "_fields"):
            x = list(x)
        if len(x) == 0:
            return Arr(np.empty((0,), dtype=object), "float", kind)
        parts = [asarr(v, kind) for v in x]
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ProgramError("shape", f"inhomogeneous nested sequence: {[p.shape for p in parts]}")
        out = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p.data if shp else p.data[()]
        return Arr(out, promote(*[p.dt for p in parts]), kind)
    if isinstance(x, np.ndarray):
        dt = {"b": "bool", "i": "int", "u": "int", "f": "float", "O": "float"}.get(x.dtype.kind)
        if dt is None:
            raise Unsupported(f"array of dtype {x.dtype}")
        return Arr(odata(x), dt, kind)
    if isinstance(x, range):
        return asarr(list(x), kind)
    if isinstance(x, (Num, Bo, KeyW, int, float, Fraction, bool, np.generic)):
        return wrap(x, scalar_dt(x), kind)
    if hasattr(x, "__jax_array__"):
        return asarr(x.__jax_array__())
    if x is None:
        raise ProgramError("type", "None is not a valid array")
    if callable(x):
        raise ProgramError("type", "a function is not a valid array")
    raise Unsupported(f"cannot convert {type(x).__name__} to an array")


def kind_of(*xs):
    ks = [x.kind for x in xs if isinstance(x, Arr)]
    if "jnp" in ks:
        return "jnp"
    if "np" in ks:
        return "np"
    return "py" if ks else "jnp"


# ---------------------------------------------------------------- elementwise

def _compress(d):
    """Drop the repetition along zero-stride axes (arrays abstracted by their generic element)."""
    if d.ndim and d.size > 256 and any(s == 0 and n > 1 for s, n in zip(d.strides, d.shape)):
        return d[tuple(slice(0, 1) if s == 0 else slice(None) for s in d.strides)]
    return d


def broadcast_shapes(*shapes):
    try:
        return np.broadcast_shapes(*shapes)
    except ValueError:
        raise ProgramError("shape", f"incompatible shapes for broadcasting: {shapes}")


def ew(fn, *datas):
    shp = broadcast_shapes(*[d.shape for d in datas])
    comp = [_compress(d) for d in datas]
    r = fn(*comp)
    if not isinstance(r, np.ndarray):
        t = np.empty((), dtype=object)
        t[()] = r
        r = t
    if r.shape != shp:
        r = np.broadcast_to(r, shp)
    return r


def _le(a, b):
    return C.bnot(C.less(C.num(b), C.num(a)))


def _add(a, b):
    if isinstance(a, KeyW) or isinstance(b, KeyW):
        return a + b
    return C.add(C.num(a), C.num(b))


_BIN = {
    "add": _add,
    "sub": lambda a, b: C.sub(C.num(a), C.num(b)) if not isinstance(a, KeyW) else a - b,
    "mul": lambda a, b: C.mul(C.num(a), C.num(b)) if not isinstance(a, KeyW) else a * b,
    "div": lambda a, b: C.div(C.num(a), C.num(b)),
    "floordiv": lambda a, b: C.floordiv(C.num(a), C.num(b)),
    "mod": lambda a, b: C.mod(C.num(a), C.num(b)),
    "pow": lambda a, b: C.power(C.num(a), C.num(b)),
    "lt": lambda a, b: C.less(C.num(a), C.num(b)),
    "le": _le,
    "eq": lambda a, b: (a == b) if isinstance(a, KeyW) else C.equal(C.num(a), C.num(b)),
    "ne": lambda a, b: (not a == b) if isinstance(a, KeyW) else C.bnot(C.equal(C.num(a), C.num(b))),
    "and": lambda a, b: _boolop("and", a, b),
    "or": lambda a, b: _boolop("or", a, b),
    "xor": lambda a, b: _boolop("xor", a, b),
    "max": lambda a, b: C.maximum(C.num(a), C.num(b)),
    "min": lambda a, b: C.minimum(C.num(a), C.num(b)),
    "hypot": lambda a, b: C.sqrt(C.add(C.mul(C.num(a), C.num(a)), C.mul(C.num(b), C.num(b)))),
}


def _boolop(op, a, b):
    if isinstance(a, Num) or isinstance(b, Num):  # integers
        if not (isinstance(a, Num) and isinstance(b, Num)):
            a, b = C.num(a), C.num(b)
        x, y = int(a), int(b)
        return C.const({"and": x & y, "or": x | y, "xor": x ^ y}[op])
    if op == "and":
        return C.band(a, b)
    if op == "or":
        return C.bnot(C.band(C.bnot(a), C.bnot(b)))
    return C.band(C.bnot(C.band(a, b)), C.bnot(C.band(C.bnot(a), C.bnot(b))))


_UF = {k: np.frompyfunc(v, 2, 1) for k, v in _BIN.items()}
_BOOLRES = {"lt", "le", "eq", "ne"}


def binop(op, a, b):
    for v in (a, b):
        if not operand(v):
            raise ProgramError("type", f"unsupported operand of type {type(v).__name__} for {op}")
        if isinstance(v, (list, tuple)) and not (isinstance(a, Arr) and a.kind == "np" or
                                                 isinstance(b, Arr) and b.kind == "np"):
            raise ProgramError("type", f"{op}: JAX arrays do not combine with Python sequences")
    x, y = asarr(a), asarr(b)
    kind = kind_of(a, b)
    r = ew(_UF[op], x.data, y.data)
    if op in _BOOLRES:
        dt = "bool"
    elif op == "div":
        dt = "float"
    elif op in ("and", "or", "xor"):
        dt = promote(x.dt, y.dt)
    else:
        dt = promote(x.dt, y.dt)
        if dt == "bool":
            dt = "int"
        if op == "pow" and x.dt == "int" and y.dt == "int" and any(
                isinstance(e, Sc) and e.const is not None and e.const < 0 for e in y.data.reshape(-1)):
            dt = "float"
    return Arr(r, dt, kind)


def unop(fn, a, dt=None):
    x = asarr(a)
    f = np.frompyfunc(lambda e: fn(e if isinstance(e, (KeyW,)) or fn is C.bnot else C.num(e)), 1, 1)
    return Arr(ew(f, x.data), dt or (x.dt if x.dt != "bool" else "float"), kind_of(x))


# ---------------------------------------------------------------- contraction

def dotvec(xs, ys):
    r = C.ZERO
    for x, y in zip(xs, ys):
        if type(x) is Sc and x.const == 0 or type(y) is Sc and y.const == 0:
            continue
        r = C.add(r, C.mul(x, y))
    return r


def numdata(d):
    """elements as numbers"""
    if not d.size:
        return d
    r = np.frompyfunc(lambda e: e if isinstance(e, Num) else C.num(e), 1, 1)(d)
    if not d.ndim:
        out = np.empty((), dtype=object)
        out[()] = r
        return out
    return r


def mm(a, b):
    """2-d product of object data"""
    n, k = a.shape
    k2, m = b.shape
    out = np.empty((n, m), dtype=object)
    rows = [list(a[i]) for i in range(n)]
    cols = [list(b[:, j]) for j in range(m)]
    for i in range(n):
        for j in range(m):
            out[i, j] = dotvec(rows[i], cols[j])
    return out


def matmul(a, b):
    if not operand(a) or not operand(b):
        raise ProgramError("type", "matmul of a non array")
    x, y = asarr(a), asarr(b)
    if x.ndim == 0 or y.ndim == 0:
        raise ProgramError("shape", "matmul of a scalar")
    xd, yd = numdata(x.data), numdata(y.data)
    sx, sy = xd.shape, yd.shape
    k = sx[-1]
    k2 = sy[0] if len(sy) == 1 else sy[-2]
    if k != k2:
        raise ProgramError("shape", f"matmul of shapes {sx} and {sy}")
    if xd.ndim == 1:
        xd = xd[None, :]
    if yd.ndim == 1:
        yd = yd[:, None]
    batch = broadcast_shapes(xd.shape[:-2], yd.shape[:-2])
    xb = np.broadcast_to(xd, batch + xd.shape[-2:])
    yb = np.broadcast_to(yd, batch + yd.shape[-2:])
    # repeated batch entries (a broadcast axis) are computed once
    lead = tuple(slice(0, 1) if n > 1 and xb.strides[k] == 0 and yb.strides[k] == 0 else slice(None)
                 for k, n in enumerate(batch))
    xb, yb = xb[lead], yb[lead]
    out = np.empty(xb.shape[:-2] + (xd.shape[-2], yd.shape[-1]), dtype=object)
    for i in np.ndindex(*xb.shape[:-2]):
        out[i] = mm(xb[i], yb[i])
    if out.shape[:-2] != batch:
        out = np.broadcast_to(out, batch + out.shape[-2:])
    if len(sx) == 1:
        out = out[..., 0, :]
    if len(sy) == 1:
        out = out[..., 0]
    if not isinstance(out, np.ndarray):
        return wrap(out, promote(x.dt, y.dt), kind_of(x, y))
    return Arr(out, promote(x.dt, y.dt), kind_of(x, y))


# ---------------------------------------------------------------- indexing

def toint(x, convert=False):
    fl = isinstance(x, Arr) and x.dt == "float"
    if isinstance(x, Arr):
        x = x.scalar()
    if isinstance(x, (Sc, Dual)):
        c = C.prim(x).const
        if c is None:
            if fl and not convert:
                raise ProgramError("type", "a floating-point value is used where an integer (index, size, count) is required")
            raise Unsupported("index / integer conversion of an abstract number")
        return int(c)
    if isinstance(x, Bo):
        raise Unsupported("abstract boolean as an integer")
    return int(x)


def _int_array(x):
    return np.array([toint(e) for e in x.data.reshape(-1)], dtype=int).reshape(x.shape)


def norm_index(a, idx, clamp=True, mode=None):
    """numpy index; out of range integers are recorded and clamped as in JAX."""
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    n_consumed = 0
    for i in idx:
        if i is Ellipsis or i is None:
            continue
        if isinstance(i, Arr) and i.dt == "bool":
            n_consumed += i.ndim
        else:
            n_consumed += 1
    if n_consumed > a.ndim:
        raise ProgramError("index", f"too many indices for an array of {a.ndim} dimensions")
    ax = 0
    for i in idx:
        if i is Ellipsis:
            ax = a.ndim - (n_consumed - sum(1 for q in out if q is not None))
            out.append(i)
            continue
        if i is None:
            out.append(i)
            continue
        if isinstance(i, slice):
            out.append(slice(*[None if v is None else toint(v) for v in (i.start, i.stop, i.step)]))
            ax += 1
            continue
        if isinstance(i, (list, tuple)):
            i = asarr(list(i))
        if isinstance(i, (np.ndarray, np.generic)):
            i = asarr(i)
        if isinstance(i, (Sc, Dual)):
            i = toint(i)
        if isinstance(i, Fraction) or isinstance(i, float):
            raise ProgramError("type", "indices must be integers")
        if isinstance(i, Arr):
            if i.dt == "bool":
                b = np.array([bool(e) for e in i.data.reshape(-1)]).reshape(i.shape)
                if i.kind == "jnp" and a.kind == "jnp":
                    CTX.event("host-bool", "boolean mask indexing (fails under jit)")
                out.append(b)
                ax += i.ndim
                continue
            if i.dt not in ("int",):
                raise ProgramError("type", "indices must be integers")
            v = _int_array(i)
            n = a.shape[ax]
            bad = (v >= n) | (v < -n)
            if bad.any():
                CTX.event("oob", f"index {list(v.reshape(-1)[bad.reshape(-1)])[:3]} out of range for an axis of "
                                 f"size {n}", mode)
                v = np.clip(np.where(v < 0, v + n, v), 0, max(n - 1, 0))
            out.append(int(v) if v.ndim == 0 else v)
            ax += 1
            continue
        if isinstance(i, (bool, np.bool_)):
            raise Unsupported("boolean scalar index")
        if isinstance(i, int):
            n = a.shape[ax]
            if i >= n or i < -n:
                if a.kind == "np":
                    raise ProgramError("index", f"index {i} out of range for an axis of size {n}")
                CTX.event("oob", f"index {i} out of range for an axis of size {n}", mode)
                i = n - 1 if i >= n else 0
            out.append(i)
            ax += 1
            continue
        raise Unsupported(f"index of type {type(i).__name__}")
    return tuple(out)


def getitem(a, idx):
    i = norm_index(a, idx)
    r = a.data[i]
    return wrap(r, a.dt, a.kind) if not isinstance(r, np.ndarray) else Arr(r, a.dt, a.kind)


def bdata(v, target):
    """data of v broadcast against `target` (the selected part)"""
    x = asarr(v)
    shp = target.shape if isinstance(target, np.ndarray) else ()
    try:
        r = np.broadcast_to(x.data, shp)
    except ValueError:
        # leading dimensions of size one are allowed
        if x.data.size and int(np.prod(x.shape)) == int(np.prod(shp)) and \
                tuple(s for s in x.shape if s != 1) == tuple(s for s in shp if s != 1) and x.ndim > len(shp):
            r = x.data.reshape(shp)
        else:
            raise ProgramError("shape", f"cannot assign shape {x.shape} to a selection of shape {shp}")
    return r[()] if shp == () else r
