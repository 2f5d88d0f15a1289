"""Value graph: scalar nodes, forward tangents, abstract booleans, PRNG key words."""
from fractions import Fraction

from . import field as F


class Unsupported(Exception):
    """The analysis does not model a construct: no verdict (exit 2), never a violation."""


class ProgramError(Exception):
    """The analysed program raises at this point (shape mismatch, missing API, binding error, ...)."""

    def __init__(self, kind, msg, site=None):
        self.kind, self.msg, self.site = kind, msg, site or CTX.site
        super().__init__(f"{kind}: {msg} at {fmt_site(self.site)}")


class Event:
    __slots__ = ("kind", "msg", "site", "data")

    def __init__(self, kind, msg, site, data=None):
        self.kind, self.msg, self.site, self.data = kind, msg, site, data

    def __repr__(self):
        return f"{self.kind}: {self.msg} [{fmt_site(self.site)}]"


def fmt_site(site):
    if site is None:
        return "<spec>"
    return f"{site[0]}:{site[1]} in {site[2]}"


class Ctx:
    def __init__(self, seed=0):
        self.seed = seed
        self.site = None
        self.events = []
        self.nid = 0
        self.exp_registry = []
        self.tag = 0
        self.decisions = []  # prescribed outcomes of undecided Python branches
        self.ndec = 0
        self.taken = []
        self.keep_tangents = False  # derivative of the value: what the program does to derivatives alone is ignored
        self.fine_grid = None  # number of points from which a grid is abstracted by its generic element
        self.shrink = None  # integer literals of 1000 and more (numbers of quadrature points) are read as this one
        self.stats = {"nodes": 0, "calls": 0, "functions": set(), "sites": set()}
        self.callbacks = []
        self.traced = 0  # depth of transformations (scan, vmap, jit, ...) around the current point
        self.eager = 0  # inside ensure_compile_time_eval: arrays are made at once, also under a trace
        self.positive_atoms = set()
        self.key_cap = None  # (n, m): a split into n or more keys is read as a split into m
        self.folds = {}  # values folded into keys that are not constants
        self.saves = None  # files written, when they are collected
        self.signs_used = False  # |x| or sign(x) of a number of unknown sign was taken
        self.signs = {}
        self.bars = []
        self.host_files = []
        self.muted = 0  # inside the branch of a cond that is not taken: structure only, no effects
        self.roots = 0  # 0: every root taken behaves as that of a positive real, 1: some branch is arbitrary, 2: some root does not exist

    def silent(self):
        return _Silent()

    def event(self, kind, msg, data=None):
        if self.muted:
            return
        self.events.append(Event(kind, msg, self.site, data))

    def decide(self, what):
        """Outcome of a branch on an abstract condition: every combination is explored by `explore`."""
        i = self.ndec
        self.ndec += 1
        if i < len(self.decisions):
            d = self.decisions[i]
        else:
            d = True
        self.taken.append((d, what, self.site))
        if self.ndec > 40:
            raise Unsupported("too many undecided branches")
        return d


class _Silent:
    """structure of a computation without its effects; what cannot be analysed in it is ignored"""

    def __enter__(self):
        CTX.muted += 1
        self.saved = (CTX.decisions, CTX.ndec, list(CTX.taken))

    def __exit__(self, t, e, tb):
        CTX.muted -= 1
        CTX.decisions, CTX.ndec, CTX.taken = self.saved
        return t is not None and (issubclass(t, Unsupported) or
                                  issubclass(t, ProgramError) and e.kind not in ("type", "shape", "binding", "attribute", "name"))


CTX = Ctx()

# How the caller represents its arguments and how JAX is set up: results must not depend on it.  The first value of each is the default;
# an obligation is analysed again under the others when the program asks which of them it is.
SURROUNDINGS = {
    "arguments": ("traced", "jax", "numpy"),
    "x64": (True, False),
    "weak": (False, True),
    "backend": ("cpu", "gpu", "tpu"),
    "devices": (1, 8),
    "process": (0, 1),
}
SURR = {k: v[0] for k, v in SURROUNDINGS.items()}
ASKED = {}


def ask(what):
    ASKED.setdefault(what, CTX.site)
    return SURR[what]


class transformed:
    """inside of a JAX transformation: every array is a tracer"""

    def __enter__(self):
        CTX.traced += 1

    def __exit__(self, *a):
        CTX.traced -= 1


def reset(seed=0):
    c = Ctx(seed)
    CTX.__dict__.clear()
    CTX.__dict__.update(c.__dict__)
    return CTX


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non finite literal")
        return Fraction(str(x))
    import numpy as np
    if isinstance(x, np.bool_):
        return Fraction(int(x))
    if isinstance(x, np.integer):
        return Fraction(int(x))
    if isinstance(x, np.floating):
        return Fraction(str(float(x)))
    raise Unsupported(f"cannot convert {type(x).__name__} to a number")


class Num:
    __slots__ = ()
    __array_priority__ = 1000

    def __add__(self, o):
        o = num(o)
        return NotImplemented if o is None else add(self, o)

    def __radd__(self, o):
        o = num(o)
        return NotImplemented if o is None else add(o, self)

    def __sub__(self, o):
        o = num(o)
        return NotImplemented if o is None else sub(self, o)

    def __rsub__(self, o):
        o = num(o)
        return NotImplemented if o is None else sub(o, self)

    def __mul__(self, o):
        o = num(o)
        return NotImplemented if o is None else mul(self, o)

    def __rmul__(self, o):
        o = num(o)
        return NotImplemented if o is None else mul(o, self)

    def __truediv__(self, o):
        o = num(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = num(o)
        return NotImplemented if o is None else div(o, self)

    def __floordiv__(self, o):
        o = num(o)
        return NotImplemented if o is None else floordiv(self, o)

    def __rfloordiv__(self, o):
        o = num(o)
        return NotImplemented if o is None else floordiv(o, self)

    def __mod__(self, o):
        o = num(o)
        return NotImplemented if o is None else mod(self, o)

    def __rmod__(self, o):
        o = num(o)
        return NotImplemented if o is None else mod(o, self)

    def __pow__(self, o):
        o = num(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        o = num(o)
        return NotImplemented if o is None else power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __lt__(self, o):
        return less(self, num(o))

    def __gt__(self, o):
        return less(num(o), self)

    def __le__(self, o):
        return bnot(less(num(o), self))

    def __ge__(self, o):
        return bnot(less(self, num(o)))

    def __eq__(self, o):
        o = num(o)
        return False if o is None else equal(self, o)

    def __ne__(self, o):
        o = num(o)
        return True if o is None else bnot(equal(self, o))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        c = prim(self).const
        if c is not None:
            return c != 0
        raise Unsupported("truth value of an abstract scalar")

    def __int__(self):
        c = prim(self).const
        if c is None:
            raise Unsupported("int() of an abstract scalar")
        return int(c)

    __index__ = __int__

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self


class Sc(Num):
    __slots__ = ("op", "args", "extra", "fp", "const", "site", "id")

    def __init__(self, op, args, fp, const=None, extra=None):
        self.op, self.args, self.fp, self.const, self.extra = op, args, fp, const, extra
        self.site = CTX.site
        CTX.nid += 1
        self.id = CTX.nid

    def __repr__(self):
        return show(self)


class Dual(Num):
    __slots__ = ("tag", "p", "t")

    def __init__(self, tag, p, t):
        self.tag, self.p, self.t = tag, p, t

    def __repr__(self):
        return f"Dual({self.p!r}, {self.t!r})"


class Bo:
    """Abstract boolean; its fingerprint is an element c of the field, `not` is 1 - c, `and` is the product."""
    __slots__ = ("fp", "desc", "args", "op", "extra", "id")
    __array_priority__ = 1000

    def __init__(self, fp, desc, op=None, args=(), extra=None):
        if len(desc) > 200:
            desc = desc[:197] + "..."
        self.fp, self.desc, self.op, self.args, self.extra = fp, desc, op, args, extra
        CTX.nid += 1
        self.id = CTX.nid

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bnot(band(bnot(self), bnot(o)))

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bnot(band(bnot(band(self, bnot(o))), bnot(band(bnot(self), o))))

    def __bool__(self):
        return CTX.decide(self.desc)

    def __repr__(self):
        return f"<{self.desc}>"

    # arithmetic on booleans: 0/1 indicator
    def _num(self):
        return Sc("ind", (self,), self.fp)

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, Bo) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, Bo) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, Bo) else o)

    def __rsub__(self, o):
        return (o._num() if isinstance(o, Bo) else num(o)) - self._num()


def band(a, b):
    if isinstance(a, Bo) and isinstance(b, Bo):
        if a is b:
            return a
        return Bo(F.mul(a.fp, b.fp), f"({a.desc} and {b.desc})", "and", (a, b))
    if isinstance(a, Bo):
        return a if b else False
    if isinstance(b, Bo):
        return b if a else False
    return bool(a) and bool(b)


def bnot(a):
    if isinstance(a, Bo):
        return Bo(F.add(1, F.neg(a.fp)), f"not {a.desc}", "not", (a,))
    return not a


class KeyW:
    """Word j of the PRNG key with the given provenance."""
    __slots__ = ("path", "j")

    def __init__(self, path, j):
        self.path, self.j = path, j

    def _mix(self, o, op):
        if isinstance(o, KeyW):
            return KeyW(("mix", op, self.path, self.j, o.path, o.j), self.j)
        o = num(o)
        return KeyW(("mix", op, self.path, str(prim(o).fp)), self.j)

    def __add__(self, o):
        return self._mix(o, "+")

    __radd__ = __add__

    def __xor__(self, o):
        return self._mix(o, "^")

    def __mul__(self, o):
        return self._mix(o, "*")

    def __sub__(self, o):
        return self._mix(o, "-")

    def __eq__(self, o):
        return isinstance(o, KeyW) and self.path == o.path and self.j == o.j

    def __hash__(self):
        return hash((self.path, self.j))

    def __repr__(self):
        return f"key{self.path}[{self.j}]"


_consts = {}


def const(x):
    fr = to_frac(x)
    c = _consts.get(fr)
    if c is None:
        c = Sc("const", (), F.frac(fr), fr)
        c.site = None
        c.id = 0
        _consts[fr] = c
    return c


ZERO, ONE = const(0), const(1)
TWO, HALF = const(2), const(Fraction(1, 2))


def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, Bo):
        return x._num()
    if isinstance(x, KeyW) or isinstance(x, str) or x is None:
        return None
    try:
        return const(x)
    except Unsupported:
        return None


def prim(x):
    while isinstance(x, Dual):
        x = x.p
    return x


def strip(x):
    """stop_gradient"""
    return prim(x) if isinstance(x, Dual) else x


def atom(name, *index):
    h = F.hash_elt if name in POSITIVE or (name, index) in CTX.positive_atoms else F.hash_signed
    return Sc("atom", (), h(CTX.seed, "atom", name, index), None, (name, index))


def _tag(x):
    return x.tag if type(x) is Dual else -1


def split2(x, tag):
    if type(x) is Dual and x.tag == tag:
        return x.p, x.t
    return x, ZERO


def mkdual(tag, p, t):
    if type(t) is Sc and t.const == 0:
        return p
    return Dual(tag, p, t)


def is0(x):
    return type(x) is Sc and x.const == 0


def add(x, y):
    if type(x) is Sc and type(y) is Sc:
        cx, cy = x.const, y.const
        if cx is not None:
            if cy is not None:
                return const(cx + cy)
            if cx == 0:
                return y
        elif cy is not None and cy == 0:
            return x
        return Sc("add", (x, y), F.add(x.fp, y.fp))
    tag = max(_tag(x), _tag(y))
    (p, t), (q, s) = split2(x, tag), split2(y, tag)
    return mkdual(tag, add(p, q), add(t, s))


def neg(x):
    if type(x) is Sc:
        if x.const is not None:
            return const(-x.const)
        return Sc("neg", (x,), F.neg(x.fp))
    return mkdual(x.tag, neg(x.p), neg(x.t))


def sub(x, y):
    if type(x) is Sc and type(y) is Sc:
        cx, cy = x.const, y.const
        if cy is not None:
            if cx is not None:
                return const(cx - cy)
            if cy == 0:
                return x
        if x is y:
            return ZERO
        return Sc("sub", (x, y), F.add(x.fp, F.neg(y.fp)))
    tag = max(_tag(x), _tag(y))
    (p, t), (q, s) = split2(x, tag), split2(y, tag)
    return mkdual(tag, sub(p, q), sub(t, s))


def mul(x, y):
    if type(x) is Sc and type(y) is Sc:
        cx, cy = x.const, y.const
        if cx is not None:
            if cy is not None:
                return const(cx * cy)
            if cx == 0:
                return ZERO
            if cx == 1:
                return y
        elif cy is not None:
            if cy == 0:
                return ZERO
            if cy == 1:
                return x
        return Sc("mul", (x, y), F.mul(x.fp, y.fp))
    if is0(x) or is0(y):
        return ZERO
    tag = max(_tag(x), _tag(y))
    (p, t), (q, s) = split2(x, tag), split2(y, tag)
    return mkdual(tag, mul(p, q), add(mul(t, q), mul(p, s)))


def nan(why):
    n = Sc("nan", (), F.hash_elt(CTX.seed, "nan", CTX.nid), None, why)
    CTX.event("nan", why)
    return n


def div(x, y):
    if type(x) is Sc and type(y) is Sc:
        cx, cy = x.const, y.const
        if cy is not None:
            if cy == 0:
                return nan("division by zero")
            if cx is not None:
                return const(cx / cy)
            if cy == 1:
                return x
        if y.fp == 0:
            return nan("division by a structurally zero quantity")
        if cx == 0:
            return ZERO
        return Sc("div", (x, y), F.mul(x.fp, F.inv(y.fp)))
    tag = max(_tag(x), _tag(y))
    (p, t), (q, s) = split2(x, tag), split2(y, tag)
    v = div(p, q)
    if is0(s):
        return mkdual(tag, v, div(t, q))
    return mkdual(tag, v, div(sub(t, mul(v, s)), q))


def powi(x, n):
    if type(x) is Sc:
        if n == 0:
            return ONE
        if n == 1:
            return x
        if x.const is not None:
            if x.const == 0 and n < 0:
                return nan("division by zero")
            return const(x.const ** n)
        if x.fp == 0 and n < 0:
            return nan("division by a structurally zero quantity")
        return Sc("powi", (x,), F.powi(x.fp, n), None, n)
    return mkdual(x.tag, powi(x.p, n), mul(mul(const(n), powi(x.p, n - 1)), x.t))


def power(x, y):
    c = prim(y).const
    if c is None or isinstance(y, Dual):
        if prim(x).const == 1 and not isinstance(x, Dual):
            return ONE
        return exp(mul(y, log(x)))
    if c.denominator == 1:
        return powi(x, int(c))
    if c.denominator == 2:
        return powi(sqrt(x), c.numerator)
    if c.denominator in (4, 8):
        r = x
        d = c.denominator
        while d > 1:
            r = sqrt(r)
            d //= 2
        return powi(r, c.numerator)
    if isinstance(x, Dual):
        return mkdual(x.tag, power(x.p, y), mul(mul(y, power(x.p, sub(y, ONE))), x.t))
    return opaque("pow", x, y)


def opaque(name, *args, extra=()):
    return Sc("op", args, F.hash_elt(CTX.seed, "op", name, extra, tuple(repr(a.fp) for a in args)), None,
              (name, extra))


def isqrt_exact(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(x):
    if type(x) is Sc:
        if x.const is not None:
            if x.const < 0:
                return nan("square root of a negative number")
            a, b = isqrt_exact(x.const.numerator), isqrt_exact(x.const.denominator)
            if a is not None and b is not None:
                return const(Fraction(a, b))
        if x.fp == 0:
            return ZERO
        r = F.sqrt(x.fp)
        if r is None:
            CTX.roots = 2
            return opaque("sqrt", x)
        if type(r) is not int and CTX.roots == 0:
            CTX.roots = 1
        return Sc("sqrt", (x,), r)
    r = sqrt(x.p)
    if prim(x.p).fp == 0:
        return mkdual(x.tag, r, nan("derivative of the square root at zero"))
    return mkdual(x.tag, r, div(x.t, mul(TWO, r)))


_RATIOS = None


def _ratios():
    global _RATIOS
    if _RATIOS is None:
        _RATIOS = {}
        for d in (1, 2, 3, 4, 5, 6, 7, 8):
            for n in range(-40, 41):
                if n:
                    fr = Fraction(n, d)
                    _RATIOS.setdefault(F.frac(fr), fr)
    return _RATIOS


def exp_fp(fp):
    if fp == 0:
        return 1
    reg = CTX.exp_registry
    tab = _ratios()

    def find(v):
        for base, g in reg:
            r = F.mul(v, F.inv(base))
            if type(r) is int and r in tab:
                return g, tab[r]
        return None

    r = find(fp)
    if r is not None:
        return F.powi(r[0], int(840 * r[1]))
    # a sum or a difference of registered arguments
    for base, g in reg:
        for k in (1, -1, 2, -2):
            rest = F.add(fp, F.neg(F.mul(k % F.P, base)))
            r = find(rest)
            if r is not None:
                g2, fr = r
                if fr.denominator == 1:
                    # its multiples are needed too
                    reg.append((fp, F.mul(F.powi(g, k), F.powi(g2, int(fr)))))
                return F.mul(F.powi(g2, int(840 * fr)), F.powi(g, 840 * k))
    g = F.hash_elt(CTX.seed, "exp", repr(fp))
    reg.append((fp, g))
    return F.powi(g, 840)


def exp(x):
    if type(x) is Sc:
        if x.const == 0 or x.fp == 0:
            return ONE
        if x.op == "op" and x.extra[0] == "log":
            return x.args[0]
        return Sc("exp", (x,), exp_fp(x.fp))
    r = exp(x.p)
    return mkdual(x.tag, r, mul(r, x.t))


def log(x):
    if type(x) is Sc:
        if x.const == 1:
            return ZERO
        if x.op == "exp":
            return x.args[0]
        return opaque("log", x)
    return mkdual(x.tag, log(x.p), div(x.t, x.p))


_UN_D = {
    "sin": lambda x, r: unary("cos", x),
    "cos": lambda x, r: neg(unary("sin", x)),
    "tan": lambda x, r: add(ONE, mul(r, r)),
    "tanh": lambda x, r: sub(ONE, mul(r, r)),
    "sinh": lambda x, r: unary("cosh", x),
    "cosh": lambda x, r: unary("sinh", x),
    "arctan": lambda x, r: div(ONE, add(ONE, mul(x, x))),
    "sigmoid": lambda x, r: mul(r, sub(ONE, r)),
    "erf": lambda x, r: mul(opaque("2/sqrtpi"), exp(neg(mul(x, x)))),
}
_AT0 = {"sin": 0, "cos": 1, "tan": 0, "tanh": 0, "sinh": 0, "cosh": 1, "arctan": 0, "sigmoid": Fraction(1, 2),
        "erf": 0, "arcsin": 0, "arcsinh": 0}


def _trunc(c):
    import math
    return math.trunc(c)


_ROUND = {"floor": lambda c: c.__floor__(), "ceil": lambda c: c.__ceil__(), "round": round, "rint": round,
          "trunc": _trunc, "fix": _trunc}


def unary(name, x):
    if name == "exp":
        return exp(x)
    if name == "log":
        return log(x)
    if type(x) is Sc:
        if x.const is not None and name in _ROUND:
            return const(_ROUND[name](x.const))
        if x.fp == 0 and name in _AT0:
            return const(_AT0[name])
        return opaque(name, x)
    r = unary(name, x.p)
    if name in ("floor", "ceil", "round", "sign", "isnan", "isfinite"):
        return r
    if name not in _UN_D:
        raise Unsupported(f"derivative of {name}")
    return mkdual(x.tag, r, mul(_UN_D[name](x.p, r), x.t))


def absolute(x):
    if type(x) is Sc:
        if x.const is not None:
            return const(abs(x.const))
        CTX.signs_used = True
        return Sc("abs", (x,), F.mul(x.fp, F.legendre(x.fp)))
    s = sign(x.p)
    return mkdual(x.tag, absolute(x.p), mul(s, x.t))


def sign(x):
    x = prim(x)
    if x.const is not None:
        return const((x.const > 0) - (x.const < 0))
    CTX.signs_used = True
    return Sc("sign", (x,), F.legendre(x.fp))


def floordiv(x, y):
    a, b = prim(x).const, prim(y).const
    if a is not None and b is not None:
        if b == 0:
            return nan("division by zero")
        return const(a // b)
    return opaque("floordiv", prim(x), prim(y))


def mod(x, y):
    a, b = prim(x).const, prim(y).const
    if a is not None and b is not None:
        if b == 0:
            return nan("modulo zero")
        return const(a % b)
    if isinstance(x, Dual) or isinstance(y, Dual):
        raise Unsupported("derivative of mod")
    return opaque("mod", x, y)


def less(x, y):
    if y is None:
        raise ProgramError("type", "comparison with a non number")
    x, y = prim(x), prim(y)
    if x.const is not None and y.const is not None:
        return x.const < y.const
    d = F.add(x.fp, F.neg(y.fp))
    if d == 0:
        return False
    if x.const == 0 and positive(y) or y.const is not None and y.const <= 0 and sgn(x) >= (2 if y.const == 0 else 1):
        return x.const == 0
    if y.const == 0 and sgn(x) == 1:
        return False
    return Bo(F.hash_elt(CTX.seed, "lt", repr(d)), f"{show(x, 3)} < {show(y, 3)}", "lt", (x, y))


POSITIVE = {"h", "delta", "dt", "T", "length", "magnitude"}


def positive(x):
    """step sizes, durations, scales and diagonals of Cholesky factors are positive inputs"""
    return sgn(x) == 2


def sgn(x):
    """sign domain: 2 positive, 1 non-negative, 0 unknown"""
    x = prim(x)
    if x.const is not None:
        return 2 if x.const > 0 else 1 if x.const == 0 else 0
    memo = CTX.signs
    r = memo.get(x.id)
    if r is None:
        r = memo[x.id] = _sgn(x)
    return r


def _sgn(x):
    if x.op == "atom":
        return 2 if x.extra[0] in POSITIVE or x.extra in CTX.positive_atoms else 0
    if x.op == "add":
        s = [sgn(a) for a in x.args]
        return 0 if 0 in s else max(s)
    if x.op == "mul" and len(x.args) == 2 and prim(x.args[0]).fp == prim(x.args[1]).fp:
        return max(1, sgn(x.args[0]))
    if x.op in ("mul", "div"):
        return min([sgn(a) for a in x.args])
    if x.op == "powi":
        s = sgn(x.args[0])
        k = x.extra if isinstance(x.extra, int) else None
        return max(s, 1) if k is not None and k % 2 == 0 and k > 0 else s
    if x.op == "sqrt":
        return 2 if sgn(x.args[0]) == 2 else 1
    if x.op == "abs":
        return max(1, sgn(x.args[0]))
    return 2 if x.op == "exp" else 0


def equal(x, y):
    x, y = prim(x), prim(y)
    if x.const is not None and y.const is not None:
        return x.const == y.const
    d = F.add(x.fp, F.neg(y.fp))
    if d == 0:
        return True
    if x.const == 0 and positive(y) or y.const == 0 and positive(x):
        return False
    k = tuple(sorted((repr(d), repr(F.neg(d)))))
    return Bo(F.hash_elt(CTX.seed, "eq", k), f"{show(x, 3)} == {show(y, 3)}", "eq", (x, y))


def select(c, a, b):
    if isinstance(c, Num):
        c = c if prim(c).const is None else (prim(c).const != 0)
        if isinstance(c, Num):
            raise Unsupported("select on an abstract number")
    if not isinstance(c, Bo):
        return a if c else b
    if isinstance(a, KeyW) or isinstance(b, KeyW):
        if a == b:
            return a
        raise Unsupported("select of keys on an abstract condition")
    if isinstance(a, (Bo, bool)) or isinstance(b, (Bo, bool)):
        if isinstance(a, (Bo, bool)) and isinstance(b, (Bo, bool)):
            return bnot(band(bnot(band(c, a)), bnot(band(bnot(c), b))))
        a, b = num(a), num(b)
    tag = max(_tag(a), _tag(b))
    if tag >= 0:
        (p, t), (q, s) = split2(a, tag), split2(b, tag)
        return mkdual(tag, select(c, p, q), select(c, t, s))
    if a is b or a.fp == b.fp:
        return a
    return Sc("sel", (c, a, b), F.add(b.fp, F.mul(c.fp, F.add(a.fp, F.neg(b.fp)))))


def maximum(a, b):
    return select(less(a, b), b, a)


def minimum(a, b):
    return select(less(b, a), b, a)


def uf_node(name, i, deriv, args, mask):
    if any(not mask[j] for j in deriv):
        return ZERO
    used = tuple(a for a, m in zip(args, mask) if m)
    fp = F.hash_signed(CTX.seed, "uf", name, i, deriv, tuple(repr(a.fp) for a in used))
    return Sc("uf", used, fp, None, (name, i, deriv))


def uf(name, i, args, mask=None, deriv=()):
    """Uninterpreted smooth function: component i of `name` (its partial derivative along `deriv`) at `args`."""
    if mask is None:
        mask = (True,) * len(args)
    tag = max([_tag(a) for a in args], default=-1)
    if tag < 0:
        return uf_node(name, i, deriv, args, mask)
    pr, tg = zip(*(split2(a, tag) for a in args))
    p = uf(name, i, pr, mask, deriv)
    t = ZERO
    for j, s in enumerate(tg):
        if mask[j] and not is0(s):
            t = add(t, mul(s, uf(name, i, pr, mask, tuple(sorted(deriv + (j,))))))
    return mkdual(tag, p, t)


# ---------------------------------------------------------------- printing, traversal, re-evaluation

def show(x, depth=6):
    if isinstance(x, Dual):
        return f"D<{show(x.p, depth)};{show(x.t, depth)}>"
    if isinstance(x, Bo):
        return x.desc
    if isinstance(x, KeyW):
        return repr(x)
    if not isinstance(x, Sc):
        return repr(x)
    if x.const is not None:
        return str(x.const)
    if x.op == "atom":
        n, idx = x.extra
        return f"{n}{list(idx) if idx else ''}"
    if depth <= 0:
        return "…"
    a = [show(y, depth - 1) for y in x.args]
    if x.op in ("add", "sub", "mul", "div"):
        return "(" + {"add": " + ", "sub": " - ", "mul": "*", "div": "/"}[x.op].join(a) + ")"
    if x.op == "neg":
        return f"-{a[0]}"
    if x.op == "powi":
        return f"{a[0]}**{x.extra}"
    if x.op == "uf":
        n, i, d = x.extra
        return f"{n}_{i}" + (f"^({','.join(map(str, d))})" if d else "") + "(" + ", ".join(a) + ")"
    if x.op == "op":
        return f"{x.extra[0]}({', '.join(a)})"
    if x.op == "nan":
        return f"NaN[{x.extra}]"
    return f"{x.op}({', '.join(a)})"


def reachable(roots, seen=None):
    """nodes below the roots; with `seen` only those not below the roots of earlier calls with the same `seen`"""
    seen, order, stack = {} if seen is None else seen, [], list(roots)
    while stack:
        n = stack.pop()
        if isinstance(n, Dual):
            stack += [n.p, n.t]
            continue
        if isinstance(n, KeyW) or not isinstance(n, (Sc, Bo)):
            continue
        if id(n) in seen:
            continue
        seen[id(n)] = n
        order.append(n)
        stack.extend(n.args)
    return order


def atoms_of(roots, name=None, seen=None):
    out = []
    for n in reachable(roots, seen):
        if isinstance(n, Sc) and n.op == "atom" and (name is None or n.extra[0] == name):
            out.append(n)
    return out


def reeval(roots, mapping):
    """Fingerprints of `roots` after replacing the atoms (by (name, index)) with the given Sc / numbers."""
    return reeval_in(sorted(reachable(roots), key=lambda n: n.id), roots, mapping, None)


def reeval_in(order, roots, mapping, rep, mask=None):
    """the same for nodes in the given order; rep maps the id of a node to the equal node evaluated in its place, a node with
    an empty mask contains nothing that is replaced"""
    val = {}
    if rep is not None:
        at = lambda x: val[id(rep[id(x)])] if isinstance(x, (Sc, Bo)) else (1 if x is True else 0)
    else:
        at = lambda x: val[id(x)] if id(x) in val else (1 if x is True else 0)
    for n in order:
        if mask is not None and not mask[id(n)]:
            val[id(n)] = n.fp
            continue
        if isinstance(n, Bo):
            a = [at(x) for x in n.args]
            if n.op == "not":
                v = F.add(1, F.neg(a[0]))
            elif n.op == "and":
                v = F.mul(a[0], a[1])
            elif n.op == "lt":
                d = F.add(a[0], F.neg(a[1]))
                v = F.hash_elt(CTX.seed, "lt", repr(d))
            elif n.op == "eq":
                d = F.add(a[0], F.neg(a[1]))
                v = 1 if d == 0 else F.hash_elt(CTX.seed, "eq", tuple(sorted((repr(d), repr(F.neg(d))))))
            else:
                v = n.fp
            val[id(n)] = v
            continue
        op = n.op
        if n.const is not None:
            v = n.fp
        elif op == "atom":
            m = mapping.get(n.extra)
            v = n.fp if m is None else num(m).fp
        else:
            a = [at(x) for x in n.args]
            if op == "add":
                v = F.add(a[0], a[1])
            elif op == "sub":
                v = F.add(a[0], F.neg(a[1]))
            elif op == "mul":
                v = F.mul(a[0], a[1])
            elif op == "div":
                v = n.fp if a[1] == 0 else F.mul(a[0], F.inv(a[1]))
                if a[1] == 0:
                    v = F.hash_elt(CTX.seed, "nan", n.id)
            elif op == "neg":
                v = F.neg(a[0])
            elif op == "powi":
                v = F.hash_elt(CTX.seed, "nan", n.id) if (a[0] == 0 and n.extra < 0) else F.powi(a[0], n.extra)
            elif op == "sqrt":
                v = F.sqrt(a[0])
                if v is None:
                    v = F.hash_elt(CTX.seed, "op", "sqrt", (), (repr(a[0]),))
            elif op == "exp":
                v = exp_fp(a[0])
            elif op == "abs":
                v = F.mul(a[0], F.legendre(a[0]))
            elif op == "sign":
                v = F.legendre(a[0])
            elif op == "sel":
                v = F.add(a[2], F.mul(a[0], F.add(a[1], F.neg(a[2]))))
            elif op == "ind":
                v = a[0]
            elif op == "uf":
                name, i, deriv = n.extra
                v = F.hash_signed(CTX.seed, "uf", name, i, deriv, tuple(repr(x) for x in a))
            elif op == "op":
                name, extra = n.extra
                v = F.hash_elt(CTX.seed, "op", name, extra, tuple(repr(x) for x in a))
            elif op == "nan":
                v = n.fp
            elif op == "integral":
                v = None
            else:
                raise Unsupported(f"re-evaluation of {op}")
            if v is None:
                raise Unsupported(f"re-evaluation of {op}")
        val[id(n)] = v
    return [val[id(r if rep is None else rep[id(r)])] for r in roots]
