"""Abstract interpreter for the Python subset of the analysed package.

The sources under the repository root are parsed; functions are evaluated on abstract arrays.  Nothing of the
repository, of jax or of numpy's numerics is imported or executed.
"""
import ast
import builtins
import collections.abc
import functools
import importlib
import operator
import os
import sys
import types
import typing
from fractions import Fraction

from . import core as C
from . import jaxapi
from . import jx
from . import jx2
from .arr import Arr, asarr, wrap
from .core import CTX, Bo, Num, ProgramError, Unsupported
from .gen import Gen
from .state import FUNCTOOLS, ITERTOOLS
from .host import Argparse, OsPath, PathLib, fill, percent, text


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Fraction)) or (isinstance(x, Arr) and x.kind == "py" and x.ndim == 0)


class FloatModel(metaclass=FloatMeta):
    __name__ = "float"

    def __new__(cls, x=0):
        if isinstance(x, Arr):
            if x.kind == "jnp":
                CTX.event("host-bool", "float() of a JAX array (fails under jit, vmap, scan)")
            return wrap(x.scalar(), "float", "py")
        if isinstance(x, str):
            if x.strip().lower() in ("inf", "nan", "-inf", "+inf", "infinity"):
                raise Unsupported("non finite float")
            return Fraction(x)
        return C.to_frac(x)


class Namespace:
    """An external module or attribute thereof."""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, attr):
        if attr.startswith("__") and attr not in ("__version__",):
            raise AttributeError(attr)
        return external(self._name + "." + attr)

    def __setattr__(self, k, v):
        raise Unsupported(f"assignment to {self._name}.{k}")

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._name}")

    def __repr__(self):
        return f"<external {self._name}>"

    def __mro_entries__(self, bases):
        return (object,)

    def __getitem__(self, i):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__


class Unmodelled:
    def __init__(self, name):
        self.name = name
        self.__name__ = name.split(".")[-1]

    def __call__(self, *a, **k):
        raise Unsupported(f"{self.name} is not modelled")

    def __getattr__(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        return Unmodelled(self.name + "." + attr)

    def __getitem__(self, i):
        return self

    def __mro_entries__(self, bases):
        return (object,)

    def __or__(self, o):
        return self

    __ror__ = __or__


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr) and x.kind in cls.kinds


class JaxArrayClass(metaclass=_NdMeta):
    kinds = ("jnp",)


class NpArrayClass(metaclass=_NdMeta):
    kinds = ("np",)


class _TracerMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr) and x.kind == "jnp" and (C.SURR["arguments"] == "traced" or CTX.traced > 0)


class TracerClass(metaclass=_TracerMeta):
    pass


def _representation(c):
    if isinstance(c, tuple):
        return any(_representation(v) for v in c)
    return c in (FloatModel, JaxArrayClass, NpArrayClass, TracerClass, NumberClass, NpScalarClass, int, complex)


class _NumberMeta(type):
    def __instancecheck__(cls, x):
        return (isinstance(x, (int, Fraction)) and not isinstance(x, bool)) or isinstance(x, Arr) and x.ndim == 0 and (
            x.kind == "py" or x.kind == "np" and cls.np)


class NumberClass(metaclass=_NumberMeta):
    np = False


class NpScalarMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr) and x.ndim == 0 and x.kind == "np"


class NpScalarClass(metaclass=NpScalarMeta):
    pass


class _NoCall:
    """accepts anything, does nothing (configuration, logging)"""

    def __getattr__(self, a):
        return self

    def __call__(self, *a, **k):
        return None


class _Config(_NoCall):
    """the global configuration of JAX"""

    def __getattr__(self, a):
        if "x64" in a:
            return C.ask("x64")
        return self

    def read(self, name):
        return C.ask("x64") if "x64" in str(name) else self

    def update(self, name, value):
        if any(w in str(name) for w in ("x64", "precision", "dtype_bits")):
            CTX.event("precision", f"the global setting {name} is changed")


SPECIAL = {
    "jax.numpy.ndarray": JaxArrayClass, "jax.Array": JaxArrayClass, "numpy.ndarray": NpArrayClass,
    "jax.core.Tracer": TracerClass, "numbers.Number": NumberClass, "numbers.Real": NumberClass,
    "numpy.generic": NpScalarClass, "numpy.number": NpScalarClass,
    "jax.config": _Config(), "numpy.typing.ArrayLike": typing.Any, "numpy.typing.NDArray": typing.Any,
    "jax.typing.ArrayLike": typing.Any, "jax.typing.DTypeLike": typing.Any,
    "jax.__version__": "0.4.23", "numpy.__version__": "1.26.4",
}
_PREFIXES = None


def _is_prefix(name):
    global _PREFIXES
    if _PREFIXES is None:
        _PREFIXES = set()
        for k in list(jx.REG) + list(SPECIAL) + list(jx2.NAMESPACE_OBJECTS):
            p = k.split(".")
            for i in range(1, len(p)):
                _PREFIXES.add(".".join(p[:i]))
    return name in _PREFIXES


API_USED = {}


def external(name):
    root = name.split(".")[0]
    if root in ("jax", "numpy", "scipy"):
        ex = API_USED.get(name)
        if ex is None:
            ex = jaxapi.exists(name)
            API_USED[name] = ex
        if ex is False and name not in SPECIAL:
            raise ProgramError("api", f"{name} does not exist in the installed version")
    if name in SPECIAL:
        return SPECIAL[name]
    if name in jx2.NAMESPACE_OBJECTS:
        return jx2.NAMESPACE_OBJECTS[name]
    if name in jx2.CONSTANTS:
        return jx2.CONSTANTS[name]()
    if name in jx.REG:
        v = jx.REG[name]
        if isinstance(v, str) and v in ("PI", "E"):
            return jx.pi_const() if v == "PI" else wrap(C.exp(C.ONE), "float", "py")
        return modelled(name, v)
    if _is_prefix(name) or jaxapi.is_module(name):
        return Namespace(name)
    return Unmodelled(name)


_MODELLED = {}


def modelled(name, f):
    if isinstance(f, type) or not callable(f) or isinstance(f, jx.DType):
        return f
    m = _MODELLED.get(name)
    if m is None:
        m = Model(name, f)
        _MODELLED[name] = m
    return m


class Model:
    def __init__(self, name, f):
        self.name, self.f = name, f
        self.__name__ = name.split(".")[-1]
        self.__doc__ = None

    def __call__(self, *a, **k):
        CTX.stats["calls"] += 1
        try:
            return self.f(*a, **k)
        except TypeError as e:
            tb = e.__traceback__.tb_next
            if tb is None or tb.tb_next is None and "argument" in str(e):
                raise Unsupported(f"call of {self.name}: {e}") from e
            raise Unsupported(f"in the model of {self.name}: {e}") from e
        except RecursionError:
            raise
        except (AttributeError, KeyError, ZeroDivisionError, AssertionError) as e:
            if getattr(e, "_from_program", False):
                raise
            raise Unsupported(f"in the model of {self.name}: {type(e).__name__} {e}") from e
        except ValueError as e:
            if any(w in str(e) for w in ("negative dimensions", "could not be broadcast", "cannot reshape",
                                         "could not broadcast", "must match exactly", "axes don't match")):
                raise ProgramError("shape", f"{self.name}: {e}")
            raise

    def __repr__(self):
        return f"<model {self.name}>"


_EXC = {"shape": (TypeError, ValueError), "index": (IndexError, TypeError), "type": (TypeError,),
        "value": (ValueError,), "attribute": (AttributeError,), "api": (AttributeError, ImportError),
        "binding": (TypeError,), "import": (ImportError, ModuleNotFoundError), "name": (NameError,),
        "key": (KeyError,), "zerodiv": (ZeroDivisionError,)}


class ProgramRaise(Exception):
    """an exception raised by the analysed program itself"""

    def __init__(self, exc, site=None):
        self.exc, self.site = exc, site or CTX.site
        site = self.site
        super().__init__(f"{type(exc).__name__}: {exc} raised at {C.fmt_site(site)}")


class Scope:
    __slots__ = ("vars", "parent", "globals", "globalnames", "nonlocals", "module", "qual")

    def __init__(self, parent, globals_, module, qual):
        self.vars, self.parent, self.globals = {}, parent, globals_
        self.globalnames, self.nonlocals = set(), set()
        self.module, self.qual = module, qual


_BRK, _CNT, _RET = 1, 2, 3


class Func:
    def __init__(self, interp, node, scope, defaults, kwdefaults, name):
        self._interp, self._node, self._scope = interp, node, scope
        self._defaults, self._kwdefaults = defaults, kwdefaults
        self.__name__ = name
        self.__qualname__ = (scope.qual + "." if scope.qual else "") + name
        self.__module__ = scope.module.name
        body = node.body
        self.__doc__ = ast.get_docstring(node) if not isinstance(node, ast.Lambda) else None
        self._isgen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self._class = None

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kwargs):
        return self._interp.call(self, args, kwargs)

    def __repr__(self):
        return f"<function {self.__qualname__}>"

    @property
    def where(self):
        return f"{self._scope.module.path}:{self._node.lineno} {self.__qualname__}"


@functools.lru_cache(None)
def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Module:
    def __init__(self, name, path, file):
        self.name, self.path, self.file = name, path, file
        self.globals = {}
        self.tree = None
        self.done = False

    def __getattr__(self, attr):
        raise AttributeError(attr)

    def __repr__(self):
        return f"<module {self.name}>"


_STD_REAL = {"functools", "itertools", "operator", "collections", "collections.abc", "typing", "typing_extensions",
             "dataclasses", "abc", "copy", "enum", "types", "numbers", "string", "re", "contextlib", "inspect",
             "__future__", "textwrap", "fractions", "keyword"}


class MathModule:
    def __getattr__(self, n):
        fns = {"factorial", "comb", "perm", "gcd", "lcm", "prod", "isqrt"}
        import math
        if n in fns:
            def f(*a):
                a = [jx.toint(v) if isinstance(v, Arr) else (int(v) if isinstance(v, Fraction) and v.denominator == 1
                                                             else v) for v in a]
                try:
                    return getattr(math, n)(*a)
                except (TypeError, ValueError) as e:
                    raise ProgramError("value", f"math.{n}: {e}")
            return f
        if n == "pi":
            return jx.pi_const()
        if n == "e":
            return wrap(C.exp(C.ONE), "float", "py")
        if n == "inf" or n == "nan":
            raise Unsupported("non finite float")
        if n in ("floor", "ceil", "trunc"):
            def f(x):
                c = C.prim(C.num(asarr(x).scalar())).const
                if c is None:
                    raise Unsupported(f"math.{n} of an abstract number")
                return getattr(math, n)(c)
            return f
        if n in ("isclose",):
            return lambda a, b, **k: asarr(a) == asarr(b)
        if n in ("isnan", "isinf"):
            return lambda x: False
        if n == "isfinite":
            return lambda x: True
        if n in ("fsum",):
            return sum
        if n in ("pow",):
            return lambda a, b: py_binop("pow", a, b)
        if n == "hypot":
            return lambda *a: wrap(C.sqrt(sum((C.num(asarr(x).scalar()) ** 2 for x in a), C.ZERO)), "float", "py")
        un = {"fabs": C.absolute, "sqrt": C.sqrt, "exp": C.exp, "log": C.log,
              "expm1": lambda x: C.sub(C.exp(x), C.ONE), "log1p": lambda x: C.log(C.add(C.ONE, x))}
        if n in un or n in ("sin", "cos", "tan", "tanh", "sinh", "cosh", "erf", "gamma", "lgamma", "log2", "log10",
                            "atan", "asin", "acos"):
            g = un.get(n) or functools.partial(C.unary, {"atan": "arctan"}.get(n, n))

            def f(x, *base):
                if isinstance(x, Arr) and x.kind == "jnp":
                    CTX.event("host-bool", f"math.{n} of a JAX array (fails under jit, vmap, scan)")
                r = g(C.num(asarr(x).scalar()))
                if base:
                    r = C.div(r, g(C.num(asarr(base[0]).scalar())))
                if isinstance(r, C.Sc) and r.const is not None:
                    return r.const
                return wrap(r, "float", "py")
            return f
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"math.{n}")


class EffectModule:
    """clock, host randomness, file system, ...: every use is an effect event"""

    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if (self._name, n) == ("os", "path"):
            return OsPath(Effect)
        if (self._name, n) == ("sys", "argv"):
            CTX.event("host-effect", "sys.argv", "sys.argv")
            return ["script"]
        return Effect(f"{self._name}.{n}")


class Effect:
    """a host facility; its use is recorded, its value unknown"""

    def __init__(self, name):
        self.__dict__["_name"] = name
        self.__dict__["__name__"] = name.rpartition(".")[2]

    def __call__(self, *a, **k):
        CTX.event("host-effect", f"{self._name}()", self._name)
        return wrap(C.atom("host-effect", self._name, CTX.nid), "float", "py")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Effect(self._name + "." + n)

    def __getitem__(self, i):
        return self()

    def __setitem__(self, i, v):
        CTX.event("host-effect", f"write to {self._name}", self._name)

    def __setattr__(self, i, v):
        CTX.event("host-effect", f"write to {self._name}", self._name)


@functools.lru_cache(None)
def _parse(src, f):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(src, filename=f)


class Quiet:
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Quiet()

    def __call__(self, *a, **k):
        return Quiet()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def py_binop(op, a, b):
    """Python numbers: floats are exact rationals (or exact radicals)."""
    if op == "div":
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if b == 0:
                raise ProgramError("zerodiv", "division by zero")
            return Fraction(a) / Fraction(b)
    elif op == "pow":
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if isinstance(b, int) or b.denominator == 1:
                if isinstance(a, int) and isinstance(b, int) and b >= 0:
                    return a ** b
                if a == 0 and b < 0:
                    raise ProgramError("zerodiv", "zero to a negative power")
                r = Fraction(a) ** int(b)
                return r
            s = C.power(C.const(a), C.const(b))
            return s.const if s.const is not None else wrap(s, "float", "py")
    raise NotImplementedError


def _pow(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return py_binop("pow", a, b)
    return a ** b


def _div(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return py_binop("div", a, b)
    return a / b


def fl(x):
    """keep the int / float distinction of Python: Fraction stays Fraction"""
    return x


_BINOPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: _div,
    ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.Pow: _pow, ast.MatMult: lambda a, b: a @ b,
    ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
    ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
}
_ARR_OP = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
           ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor"}
_CMPS = {
    ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b,
    ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
    ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b,
}


def simple_key(x):
    return x


class Interp:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.ext = {}
        self.builtins = self._builtins()

    # ------------------------------------------------------------ builtins
    def _builtins(self):
        b = {}
        for n in ("abs", "all", "any", "bool", "bytes", "callable", "chr", "classmethod", "complex", "dict",
                  "divmod", "enumerate", "filter", "format", "frozenset", "hash", "id", "int", "issubclass", "iter",
                  "len", "list", "map", "max", "min", "next", "object", "ord", "pow", "property", "range", "repr",
                  "reversed", "round", "set", "slice", "sorted", "staticmethod", "str", "sum", "tuple", "zip",
                  "NotImplemented", "Ellipsis", "delattr", "ascii", "bin", "hex", "bytearray", "memoryview", "vars",
                  "__debug__"):
            b[n] = getattr(builtins, n)
        for n in dir(builtins):
            o = getattr(builtins, n)
            if isinstance(o, type) and issubclass(o, BaseException):
                b[n] = o
        b["float"] = FloatModel
        b["print"] = lambda *a, **k: CTX.event("print", "print")
        b["isinstance"] = self._isinstance
        b["getattr"] = self._getattr
        b["hasattr"] = self._hasattr
        b["setattr"] = lambda o, n, v: self.setattr_(o, n, v)
        b["type"] = self._type
        b["pow"] = lambda a, b_, *m: _pow(a, b_) if not m else pow(a, b_, *m)
        b["super"] = lambda *a: (_ for _ in ()).throw(Unsupported("super() outside of a method"))
        b["open"] = self._open
        b["input"] = self._open
        b["exec"] = b["eval"] = b["compile"] = b["__import__"] = b["globals"] = b["locals"] = self._dyn
        b["dir"] = dir
        b["exit"] = b["quit"] = self._dyn
        b["__name__"] = "__analysed__"
        return b

    def _dyn(self, *a, **k):
        raise Unsupported("dynamic code")

    def _open(self, *a, **k):
        CTX.event("host-effect", "file access", "open")
        raise Unsupported("file access")

    def _isinstance(self, x, cls):
        def fix(c):
            if isinstance(c, tuple):
                return tuple(fix(v) for v in c)
            if isinstance(c, (Namespace, Unmodelled)):
                raise Unsupported(f"isinstance with {c!r}")
            return c
        if isinstance(x, Arr) and _representation(cls):
            C.ask("arguments")
        try:
            return isinstance(x, fix(cls))
        except TypeError as e:
            raise ProgramError("type", str(e))

    def _type(self, *a):
        if len(a) != 1:
            return type(*a)
        if isinstance(a[0], Arr):
            C.ask("arguments")
            return JaxArrayClass if a[0].kind == "jnp" else FloatModel if a[0].kind == "py" else NpArrayClass
        if isinstance(a[0], Fraction):
            return FloatModel
        if isinstance(a[0], Func):
            return types.FunctionType
        return type(a[0])

    def _getattr(self, o, n, *d):
        if d and isinstance(o, Arr):
            C.ask("arguments")
        try:
            return self.getattr_(o, n)
        except ProgramError as e:
            if d and e.kind in ("attribute", "api"):
                return d[0]
            raise

    def _hasattr(self, o, n):
        if isinstance(o, Arr):
            C.ask("arguments")
        try:
            self.getattr_(o, n)
            return True
        except ProgramError as e:
            if e.kind in ("attribute", "api"):
                return False
            raise

    # ------------------------------------------------------------ modules
    def find(self, name):
        rel = name.replace(".", "/")
        for base in (self.root,):
            for cand in (f"{base}/{rel}/__init__.py", f"{base}/{rel}.py"):
                if os.path.isfile(cand):
                    return cand
            if os.path.isdir(f"{base}/{rel}") and name.split(".")[0] == "bayesian_sde_solver":
                return f"{base}/{rel}/"
        return None

    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        f = self.find(name)
        if f is None:
            raise ProgramError("import", f"no module named {name}")
        if "." in name:
            self.module(name.rpartition(".")[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        path = os.path.relpath(f, self.root)
        m = Module(name, path, f)
        self.modules[name] = m
        m.globals["__name__"] = name
        m.globals["__file__"] = f
        m.globals["__doc__"] = None
        if f.endswith("/"):
            m.done = True
            return m
        src = open(f, encoding="utf-8").read()
        try:
            m.tree = _parse(src, f)
        except SyntaxError as e:
            raise ProgramError("syntax", f"{path}: {e}")
        scope = Scope(None, m.globals, m, "")
        scope.vars = m.globals
        saved = CTX.site
        self.block(m.tree.body, scope)
        CTX.site = saved
        m.done = True
        if "." in name:
            parent = self.modules[name.rpartition(".")[0]]
            parent.globals.setdefault(name.rpartition(".")[2], m)
        return m

    def import_(self, name):
        root = name.split(".")[0]
        if self.find(root) and root not in ("scripts_",):
            return self.module(name)
        if root == "math":
            return MathModule()
        if name == "itertools":
            return ITERTOOLS
        if name == "functools":
            return FUNCTOOLS
        if name == "operator":
            ns = {n: getattr(operator, n) for n in dir(operator) if not n.startswith("_")}
            ns["methodcaller"] = lambda n, *a, **k: lambda o: self.getattr_(o, n)(*a, **k)
            one = lambda n: lambda o: functools.reduce(self.getattr_, n.split("."), o)  # noqa: E731
            ns["attrgetter"] = lambda *n: one(n[0]) if len(n) == 1 else lambda o: tuple(one(x)(o) for x in n)
            return types.SimpleNamespace(**ns)
        if name in _STD_REAL:
            return importlib.import_module(name)
        if root in ("warnings", "logging"):
            return Quiet()
        if root in ("jax", "numpy", "scipy", "tqdm"):
            if name in ("jax", "numpy", "scipy", "tqdm") or jaxapi.is_module(name) or _is_prefix(name):
                return Namespace(name)
            ex = jaxapi.exists(name)
            if ex is False:
                raise ProgramError("import", f"no module named {name}")
            return Namespace(name)
        if name == "os.path":
            return OsPath(Effect)
        if name == "pathlib":
            return PathLib()
        if name == "argparse":
            return Argparse()
        if root in ("time", "random", "os", "sys", "datetime", "pathlib", "secrets", "uuid", "json", "pickle",
                    "subprocess", "socket", "threading", "gc", "platform", "shutil", "tempfile", "io", "signal",
                    "resource", "getpass", "glob", "timeit", "atexit", "multiprocessing", "concurrent", "asyncio"):
            return EffectModule(name)
        if jaxapi.is_module(name) or root in sys.stdlib_module_names:
            return Unmodelled(name)
        raise ProgramError("import", f"no module named {name}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        node = f._node
        a = node.args
        scope = Scope(f._scope, f._scope.globals, f._scope.module, f.__qualname__)
        v = scope.vars
        pos = a.posonlyargs + a.args
        n = len(pos)
        if len(args) > n and a.vararg is None:
            raise ProgramError("binding", f"{f.__name__}() takes {n} positional arguments but {len(args)} were given")
        for p, x in zip(pos, args):
            v[p.arg] = x
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(args[n:])
        extra = {}
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        for k, x in kwargs.items():
            if k in names:
                if k in v:
                    raise ProgramError("binding", f"{f.__name__}() got multiple values for argument '{k}'")
                v[k] = x
            elif a.kwarg is not None:
                extra[k] = x
            else:
                raise ProgramError("binding", f"{f.__name__}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            v[a.kwarg.arg] = extra
        nd = len(f._defaults)
        for i, p in enumerate(pos):
            if p.arg not in v:
                if i >= n - nd:
                    v[p.arg] = f._defaults[i - (n - nd)]
                else:
                    raise ProgramError("binding", f"{f.__name__}() missing required argument '{p.arg}'")
        for p in a.kwonlyargs:
            if p.arg not in v:
                if p.arg in f._kwdefaults:
                    v[p.arg] = f._kwdefaults[p.arg]
                else:
                    raise ProgramError("binding", f"{f.__name__}() missing required keyword argument '{p.arg}'")
        CTX.stats["functions"].add((f._scope.module.path, f.__qualname__))
        CTX.stats["calls"] += 1
        site = CTX.site
        if isinstance(node, ast.Lambda):
            r = self.eval(node.body, scope)
            CTX.site = site
            return r
        if f._class is not None:
            scope.vars.setdefault("__class__", f._class)
        if f._isgen:
            def body(chan):
                scope.vars[" yield"] = chan
                chan.wrap = ProgramRaise
                r = self.block(node.body, scope)
                return r[1] if r is not None and r[0] == _RET else None
            return Gen(body)
        r = self.block(node.body, scope)
        CTX.site = site
        if r is not None and r[0] == _RET:
            return r[1]
        return None

    # ------------------------------------------------------------ statements
    def block(self, body, scope):
        for s in body:
            r = self.stmt(s, scope)
            if r is not None:
                return r
        return None

    def mark(self, node, scope):
        CTX.site = (scope.module.path, node.lineno, scope.qual or "<module>")

    def stmt(self, s, scope):
        return getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, scope)

    def s_unknown(self, s, scope):
        raise Unsupported(f"statement {type(s).__name__} at {scope.module.path}:{s.lineno}")

    def s_Expr(self, s, scope):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, scope)

    def s_Pass(self, s, scope):
        return None

    def s_Assign(self, s, scope):
        v = self.eval(s.value, scope)
        for t in s.targets:
            self.assign(t, v, scope)

    def s_AnnAssign(self, s, scope):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, scope), scope)
        if scope.vars.get(" isclass") and isinstance(s.target, ast.Name):
            scope.vars.setdefault("__annotations__", {})[s.target.id] = typing.Any

    def s_AugAssign(self, s, scope):
        self.mark(s, scope)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, scope)
            self.assign(t, self.aug(s.op, cur, self.eval(s.value, scope), s, scope), scope)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, scope)
            self.setattr_(o, t.attr, self.aug(s.op, self.getattr_(o, t.attr), self.eval(s.value, scope), s, scope))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, scope)
            i = self.eval(t.slice, scope)
            cur = self.getitem_(o, i)
            self.setitem_(o, i, self.aug(s.op, cur, self.eval(s.value, scope), s, scope))
        else:
            raise Unsupported("augmented assignment target")

    def aug(self, op, cur, v, node, scope):
        self.mark(node, scope)
        if isinstance(cur, Arr):
            nm = _ARR_OP.get(type(op))
            if nm is None:
                raise Unsupported("in-place operator")
            return cur.inplace(nm, v)
        if isinstance(cur, list) and isinstance(op, ast.Add):
            cur.extend(v)
            return cur
        if isinstance(cur, set) or isinstance(cur, dict):
            if isinstance(op, ast.BitOr):
                cur |= v
                return cur
        return self.binop(op, cur, v)

    def s_Return(self, s, scope):
        return (_RET, None if s.value is None else self.eval(s.value, scope))

    def s_If(self, s, scope):
        t = self.eval(s.test, scope)
        self.mark(s, scope)
        return self.block(s.body if self.truth(t) else s.orelse, scope)

    def truth(self, t):
        if isinstance(t, (Bo, Arr)):
            return bool(t)
        if isinstance(t, Num):
            c = C.prim(t).const
            return CTX.decide(C.show(t, 3)) if c is None else c != 0
        return bool(t)

    def s_While(self, s, scope):
        n = 0
        while True:
            t = self.eval(s.test, scope)
            self.mark(s, scope)
            if not self.truth(t):
                return self.block(s.orelse, scope)
            n += 1
            if n > 20000:
                raise Unsupported("loop bound")
            r = self.block(s.body, scope)
            if r is not None:
                if r[0] == _BRK:
                    return None
                if r[0] == _RET:
                    return r

    def s_For(self, s, scope):
        it = self.eval(s.iter, scope)
        self.mark(s, scope)
        for x in self.iterate(it):
            self.assign(s.target, x, scope)
            r = self.block(s.body, scope)
            if r is not None:
                if r[0] == _BRK:
                    return None
                if r[0] == _RET:
                    return r
        return self.block(s.orelse, scope)

    def iterate(self, it):
        if isinstance(it, (Namespace, Unmodelled)):
            raise Unsupported("iteration over an external object")
        try:
            return iter(it)
        except TypeError as e:
            raise ProgramError("type", str(e))

    def s_Break(self, s, scope):
        return (_BRK, None)

    def s_Continue(self, s, scope):
        return (_CNT, None)

    def s_FunctionDef(self, s, scope):
        f = self.function(s, scope, s.name)
        for d in reversed(s.decorator_list):
            dec = self.eval(d, scope)
            self.mark(s, scope)
            f = self.apply(dec, (f,), {}, s, scope)
        self.setname(s.name, f, scope)

    def function(self, node, scope, name):
        d = [self.eval(x, scope) for x in node.args.defaults]
        kd = {a.arg: self.eval(x, scope) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        sc = scope
        if scope.vars.get(" isclass"):
            sc = Scope(scope.parent, scope.globals, scope.module, scope.qual)
            sc.vars = {}
        return Func(self, node, sc, d, kd, name)

    def s_ClassDef(self, s, scope):
        bases = [self.eval(b, scope) for b in s.bases]
        kws = {k.arg: self.eval(k.value, scope) for k in s.keywords}
        cs = Scope(scope, scope.globals, scope.module, (scope.qual + "." if scope.qual else "") + s.name)
        cs.vars[" isclass"] = True
        cs.vars["__module__"] = scope.module.name
        cs.vars["__qualname__"] = s.name
        self.block(s.body, cs)
        ns = {k: v for k, v in cs.vars.items() if k != " isclass"}
        for k in ("__init_subclass__", "__class_getitem__"):
            if isinstance(ns.get(k), Func):
                ns[k] = classmethod(ns[k])

        def fill(d):
            d.update(ns)
        try:
            cls = types.new_class(s.name, tuple(bases), kws, fill)
        except TypeError as e:
            raise Unsupported(f"class {s.name}: {e}")
        for v in ns.values():
            g = v
            if isinstance(g, (staticmethod, classmethod)):
                g = g.__func__
            if isinstance(g, property):
                for q in (g.fget, g.fset):
                    if isinstance(q, Func):
                        q._class = cls
            if isinstance(g, Func):
                g._class = cls
        for d in reversed(s.decorator_list):
            cls = self.apply(self.eval(d, scope), (cls,), {}, s, scope)
        self.setname(s.name, cls, scope)

    def s_Global(self, s, scope):
        scope.globalnames.update(s.names)

    def s_Nonlocal(self, s, scope):
        scope.nonlocals.update(s.names)

    def s_Import(self, s, scope):
        self.mark(s, scope)
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.setname(a.asname, m, scope)
            else:
                self.setname(a.name.split(".")[0], self.import_(a.name.split(".")[0]), scope)

    def s_ImportFrom(self, s, scope):
        self.mark(s, scope)
        base = s.module or ""
        if s.level:
            pk = scope.module.name if scope.module.file.endswith("__init__.py") else \
                scope.module.name.rpartition(".")[0]
            parts = pk.split(".")
            if s.level > len(parts):
                raise ProgramError("import", "relative import beyond the top level package")
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        if base == "__future__":
            return
        m = self.import_(base)
        for a in s.names:
            if a.name == "*":
                if not isinstance(m, Module):
                    raise Unsupported("star import of an external module")
                names = m.globals.get("__all__") or [k for k in m.globals if not k.startswith("_")]
                for k in names:
                    self.setname(k, m.globals[k], scope)
                continue
            if isinstance(m, Module):
                if a.name in m.globals:
                    v = m.globals[a.name]
                elif self.find(base + "." + a.name):
                    v = self.module(base + "." + a.name)
                else:
                    raise ProgramError("import", f"cannot import name '{a.name}' from '{base}'")
            else:
                try:
                    v = getattr(m, a.name)
                except AttributeError:
                    raise ProgramError("import", f"cannot import name '{a.name}' from '{base}'")
            self.setname(a.asname or a.name, v, scope)

    def s_Assert(self, s, scope):
        t = self.eval(s.test, scope)
        self.mark(s, scope)
        if isinstance(t, (Bo, Arr, Num)) and not self._known(t):
            # an assertion on an abstract value: assumed (it is a host side check)
            if isinstance(t, Arr) and t.kind == "jnp":
                CTX.event("host-bool", "assert on the value of a JAX array (fails under jit, vmap, scan)")
            return
        if not self.truth(t):
            raise ProgramRaise(AssertionError(ast.unparse(s.test)), CTX.site)

    @staticmethod
    def _known(t):
        if isinstance(t, Arr):
            if t.size != 1:
                return True
            t = t.scalar()
        if isinstance(t, Bo):
            return False
        if isinstance(t, Num):
            return C.prim(t).const is not None
        return True

    def s_Raise(self, s, scope):
        self.mark(s, scope)
        if s.exc is None:
            raise Unsupported("bare raise")
        e = self.eval(s.exc, scope)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise ProgramError("type", "exceptions must derive from BaseException")
        raise ProgramRaise(e, CTX.site)

    def s_Try(self, s, scope):
        try:
            try:
                r = self.block(s.body, scope)
                if r is not None:
                    return r
            except (ProgramError, ProgramRaise) as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ty = self.eval(h.type, scope)
                        tys = ty if isinstance(ty, tuple) else (ty,)
                        if isinstance(e, ProgramRaise):
                            match = isinstance(e.exc, tys)
                        else:
                            match = any(issubclass(k, tys) for k in _EXC.get(e.kind, (Exception,)))
                    if match:
                        if h.name:
                            self.setname(h.name, e.exc if isinstance(e, ProgramRaise) else Exception(e.msg), scope)
                        return self.block(h.body, scope)
                raise
            return self.block(s.orelse, scope)
        finally:
            if s.finalbody:
                self.block(s.finalbody, scope)

    def s_With(self, s, scope):
        mgrs = []
        for it in s.items:
            m = self.eval(it.context_expr, scope)
            if isinstance(m, (Namespace, Unmodelled)):
                raise Unsupported("with on an external object")
            try:
                v = m.__enter__()
            except AttributeError:
                raise Unsupported("context manager")
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, scope)
        try:
            r = self.block(s.body, scope)
        except (ProgramRaise, ProgramError) as e:
            x = e.exc if isinstance(e, ProgramRaise) else _EXC.get(e.kind, (Exception,))[0](e.msg)
            for m in reversed(mgrs):
                try:
                    if self.truth(m.__exit__(type(x), x, None)):
                        return None
                except type(x) as again:
                    if again is not x:
                        raise
            raise
        for m in reversed(mgrs):
            m.__exit__(None, None, None)
        return r

    def s_Delete(self, s, scope):
        for t in s.targets:
            if isinstance(t, ast.Name):
                scope.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, scope)
                del o[self.eval(t.slice, scope)]
            else:
                raise Unsupported("del target")

    def s_Match(self, s, scope):
        v = self.eval(s.subject, scope)
        for c in s.cases:
            b = {}
            if self.match(c.pattern, v, b, scope):
                for k, x in b.items():
                    self.setname(k, x, scope)
                if c.guard is None or self.truth(self.eval(c.guard, scope)):
                    return self.block(c.body, scope)
        return None

    def match(self, p, v, b, scope):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eval(p.value, scope) == v)
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, b, scope):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, b, scope) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple, range)):
                return False
            k = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            if k is None:
                return len(v) == len(p.patterns) and all(self.match(q, x, b, scope) for q, x in zip(p.patterns, v))
            tail = len(p.patterns) - k - 1
            if len(v) < k + tail:
                return False
            if p.patterns[k].name:
                b[p.patterns[k].name] = list(v[k:len(v) - tail])
            return all(self.match(q, x, b, scope) for q, x in zip(p.patterns[:k] + p.patterns[k + 1:],
                                                                  list(v[:k]) + list(v[len(v) - tail:] if tail else [])))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, collections.abc.Mapping):
                return False
            keys = [self.eval(k, scope) for k in p.keys]
            if not all(k in v and self.match(q, v[k], b, scope) for k, q in zip(keys, p.patterns)):
                return False
            if p.rest:
                b[p.rest] = {k: x for k, x in v.items() if k not in keys}
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, scope)
            if not self._isinstance(v, cls):
                return False
            if p.patterns and cls in (self.builtins.get(n) for n in ("int", "float", "str", "tuple", "list", "dict", "bool")):
                return len(p.patterns) == 1 and not p.kwd_attrs and self.match(p.patterns[0], v, b, scope)
            names = list(getattr(cls, "__match_args__", ()))[:len(p.patterns)] + list(p.kwd_attrs)
            if len(names) < len(p.patterns) + len(p.kwd_attrs):
                raise ProgramError("type", "class pattern with too many positional patterns")
            for n, q in zip(names, p.patterns + p.kwd_patterns):
                try:
                    x = self.getattr_(v, n)
                except ProgramError:
                    return False
                if not self.match(q, x, b, scope):
                    return False
            return True
        raise Unsupported("match pattern")

    # ------------------------------------------------------------ names
    def setname(self, n, v, scope):
        if n in scope.globalnames:
            scope.globals[n] = v
            CTX.event("global-write", f"assignment to the module variable `{n}`", n)
            return
        if n in scope.nonlocals:
            s = scope.parent
            while s is not None:
                if n in s.vars:
                    s.vars[n] = v
                    return
                s = s.parent
            raise ProgramError("name", f"no binding for nonlocal '{n}'")
        scope.vars[n] = v

    def name(self, n, scope):
        s = scope
        while s is not None:
            if n in s.vars and not (s is not scope and " isclass" in s.vars):
                if n in scope.globalnames:
                    break
                return s.vars[n]
            s = s.parent
        if n in scope.globals:
            return scope.globals[n]
        if n in self.builtins:
            return self.builtins[n]
        raise ProgramError("name", f"name '{n}' is not defined")

    def assign(self, t, v, scope):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, scope)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ProgramError("value", "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, scope)
                self.assign(t.elts[i].value, vals[i:len(vals) - k], scope)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - k:]):
                    self.assign(e, x, scope)
            else:
                if len(vals) != len(t.elts):
                    self.mark(t, scope)
                    raise ProgramError("value", f"cannot unpack {len(vals)} values into {len(t.elts)} targets")
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, scope)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, scope), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, scope)
            self.mark(t, scope)
            self.setitem_(o, self.eval(t.slice, scope), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(v), scope)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    # ------------------------------------------------------------ attributes, items
    def getattr_(self, o, n):
        if isinstance(o, Arr):
            if n in o.__class__.__dict__.get("__slots__", ()) and n not in ("data",):
                raise ProgramError("attribute", f"arrays have no attribute `{n}`")
            return jx.array_attr(o, n)
        if isinstance(o, Module):
            if n in o.globals:
                return o.globals[n]
            if self.find(o.name + "." + n):
                m = self.modules.get(o.name + "." + n)
                if m is not None:
                    return m
            raise ProgramError("attribute", f"module {o.name} has no attribute '{n}'")
        if isinstance(o, (Namespace, Unmodelled, Quiet, EffectModule, MathModule)):
            try:
                return getattr(o, n)
            except AttributeError:
                raise Unsupported(f"attribute {n} of {o!r}")
        if isinstance(o, Fraction):
            if n in ("numerator", "denominator", "as_integer_ratio", "is_integer", "real", "imag", "conjugate"):
                if n == "is_integer":
                    return lambda: o.denominator == 1
                return getattr(o, n)
            raise ProgramError("attribute", f"'float' object has no attribute '{n}'")
        if isinstance(o, jx.DType):
            if n in ("name",):
                return o.name
            if n in ("kind",):
                return {"float": "f", "int": "i", "bool": "b"}[o.name]
            raise Unsupported(f"dtype attribute {n}")
        try:
            return getattr(o, n)
        except AttributeError as e:
            if isinstance(o, (Model_, jx.Jitted)):
                raise Unsupported(f"attribute {n} of {o!r}")
            raise ProgramError("attribute", f"'{type(o).__name__}' object has no attribute '{n}'")

    def setattr_(self, o, n, v):
        if isinstance(o, Arr):
            raise Unsupported("attribute assignment on an array")
        if isinstance(o, Module):
            CTX.event("global-write", f"assignment to {o.name}.{n}", n)
            o.globals[n] = v
            return
        if isinstance(o, (Quiet, _NoCall)):
            return
        try:
            setattr(o, n, v)
        except AttributeError as e:
            raise ProgramError("attribute", str(e))

    def getitem_(self, o, i):
        if isinstance(i, (list, range)) and (isinstance(o, jx.AtIndexer) or isinstance(o, Arr) and o.kind == "jnp"):
            raise ProgramError("type", "a list as index of a JAX array")
        if isinstance(o, Arr):
            return jx.getitem(o, i)
        if isinstance(i, Arr) and isinstance(o, (list, tuple, str, range)):
            i = i.__index__()
        if isinstance(o, (Namespace, Unmodelled)):
            return o
        if isinstance(i, slice):
            i = slice(*[v.__index__() if isinstance(v, Arr) else v for v in (i.start, i.stop, i.step)])
        try:
            return o[i]
        except IndexError as e:
            raise ProgramError("index", str(e))
        except KeyError as e:
            raise ProgramError("key", str(e))
        except TypeError as e:
            raise ProgramError("type", str(e))

    def setitem_(self, o, i, v):
        if isinstance(o, Arr):
            o[i] = v
            return
        if isinstance(i, Arr):
            i = i.__index__()
        if getattr(o, "_caller_owned", False):
            CTX.event("mutation", "assignment to an item of the caller's container", "container")
        try:
            o[i] = v
        except (TypeError, IndexError) as e:
            raise ProgramError("type", str(e))

    # ------------------------------------------------------------ expressions
    def eval(self, e, scope):
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e, scope)

    def e_unknown(self, e, scope):
        raise Unsupported(f"expression {type(e).__name__} at {scope.module.path}:{e.lineno}")

    def e_Constant(self, e, scope):
        v = e.value
        if isinstance(v, float):
            return C.to_frac(v)
        if isinstance(v, complex):
            raise Unsupported("complex literal")
        if CTX.shrink and type(v) is int and v >= 1000:
            return CTX.shrink
        return v

    def e_Name(self, e, scope):
        try:
            return self.name(e.id, scope)
        except ProgramError:
            self.mark(e, scope)
            raise ProgramError("name", f"name '{e.id}' is not defined")

    def e_Attribute(self, e, scope):
        o = self.eval(e.value, scope)
        self.mark(e, scope)
        return self.getattr_(o, e.attr)

    def e_Subscript(self, e, scope):
        o = self.eval(e.value, scope)
        i = self.eval(e.slice, scope)
        self.mark(e, scope)
        return self.getitem_(o, i)

    def e_Slice(self, e, scope):
        return slice(*[None if x is None else self.eval(x, scope) for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, scope):
        return tuple(self.elts(e.elts, scope))

    def e_List(self, e, scope):
        return self.elts(e.elts, scope)

    def e_Set(self, e, scope):
        return set(self.elts(e.elts, scope))

    def elts(self, es, scope):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, scope)))
            else:
                out.append(self.eval(x, scope))
        return out

    def e_Dict(self, e, scope):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, scope))
            else:
                d[self.eval(k, scope)] = self.eval(v, scope)
        return d

    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, str):
            try:
                return percent(a, b)
            except (TypeError, KeyError, ValueError) as ex:
                raise ProgramError("type", str(ex))
        for x in (a, b):
            if isinstance(x, (Namespace, Unmodelled)):
                raise Unsupported(f"operation on {x!r}")
        try:
            return _BINOPS[type(op)](a, b)
        except TypeError as ex:
            raise ProgramError("type", str(ex))
        except ZeroDivisionError as ex:
            raise ProgramError("zerodiv", str(ex))

    def e_BinOp(self, e, scope):
        a = self.eval(e.left, scope)
        b = self.eval(e.right, scope)
        self.mark(e, scope)
        return self.binop(e.op, a, b)

    def e_UnaryOp(self, e, scope):
        v = self.eval(e.operand, scope)
        self.mark(e, scope)
        try:
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            if isinstance(e.op, ast.Invert):
                return ~v
        except TypeError as ex:
            raise ProgramError("type", str(ex))
        if isinstance(v, Bo):
            return C.bnot(v)
        return not self.truth(v)

    def e_BoolOp(self, e, scope):
        v = None
        for x in e.values:
            v = self.eval(x, scope)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_Compare(self, e, scope):
        left = self.eval(e.left, scope)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, scope)
            self.mark(e, scope)
            try:
                if isinstance(op, (ast.In, ast.NotIn)):
                    if isinstance(right, (list, tuple)):
                        c = any(x is left or (not isinstance(x, Arr) and not isinstance(left, Arr) and x == left)
                                or ((isinstance(x, Arr) or isinstance(left, Arr)) and self.truth(x == left))
                                for x in right)
                    else:
                        c = left in right
                    if isinstance(op, ast.NotIn):
                        c = not c
                else:
                    c = _CMPS[type(op)](left, right)
            except TypeError as ex:
                raise ProgramError("type", str(ex))
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return c
            res = c
            left = right
        return res

    def e_IfExp(self, e, scope):
        t = self.eval(e.test, scope)
        self.mark(e, scope)
        return self.eval(e.body if self.truth(t) else e.orelse, scope)

    def e_Lambda(self, e, scope):
        return self.function(e, scope, "<lambda>")

    def e_NamedExpr(self, e, scope):
        v = self.eval(e.value, scope)
        s = scope
        while s.vars.get(" comp"):
            s = s.parent
        self.setname(e.target.id, v, s)
        return v

    def e_JoinedStr(self, e, scope):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                out.append(self.e_FormattedValue(v, scope))
        return "".join(out)

    def e_FormattedValue(self, e, scope):
        x = self.eval(e.value, scope)
        spec = "" if e.format_spec is None else self.eval(e.format_spec, scope)
        try:
            return text(x, spec, e.conversion)
        except (TypeError, ValueError) as ex:
            raise ProgramError("type", str(ex))

    def comp(self, gens, scope, emit, first=None):
        cs = Scope(scope, scope.globals, scope.module, scope.qual)
        cs.vars[" comp"] = True

        def go(i):
            if i == len(gens):
                emit(cs)
                return
            g = gens[i]
            for x in self.iterate(first if i == 0 and first is not None else self.eval(g.iter, scope if i == 0 else cs)):
                self.assign(g.target, x, cs)
                if all(self.truth(self.eval(c, cs)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, scope):
        out = []
        self.comp(e.generators, scope, lambda cs: out.append(self.eval(e.elt, cs)))
        return out

    def e_SetComp(self, e, scope):
        return set(self.e_ListComp(e, scope))

    def e_GeneratorExp(self, e, scope):
        first = self.eval(e.generators[0].iter, scope)
        if not isinstance(first, collections.abc.Iterator):
            out = []
            self.comp(e.generators, scope, lambda cs: out.append(self.eval(e.elt, cs)), first)
            return iter(out)
        # the first iterable may not end
        return Gen(lambda chan: self.comp(e.generators, scope, lambda cs: chan.put(self.eval(e.elt, cs)), first))

    def e_DictComp(self, e, scope):
        out = {}

        def emit(cs):
            out[self.eval(e.key, cs)] = self.eval(e.value, cs)
        self.comp(e.generators, scope, emit)
        return out

    def e_Yield(self, e, scope):
        s = scope
        while " yield" not in s.vars:
            s = s.parent
        return s.vars[" yield"].put(None if e.value is None else self.eval(e.value, scope))

    def e_YieldFrom(self, e, scope):
        s = scope
        while " yield" not in s.vars:
            s = s.parent
        it, v = self.iterate(self.eval(e.value, scope)), None
        while True:
            try:
                x = next(it) if v is None else it.send(v)
            except StopIteration as end:
                return end.value
            v = s.vars[" yield"].put(x)

    def e_Starred(self, e, scope):
        raise Unsupported("starred expression")

    def e_Call(self, e, scope):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = scope
            while s is not None and "__class__" not in s.vars:
                s = s.parent
            if s is None:
                raise Unsupported("super()")
            node_self = next(iter(s.vars.values()))
            return super(s.vars["__class__"], node_self)
        f = self.eval(e.func, scope)
        args = self.elts(e.args, scope)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, scope)
                for kk in d:
                    if kk in kw:
                        raise ProgramError("binding", f"multiple values for keyword argument '{kk}'")
                kw.update(d)
            else:
                kw[k.arg] = self.eval(k.value, scope)
        self.mark(e, scope)
        return self.apply(f, args, kw, e, scope)

    def apply(self, f, args, kw, node, scope):
        self.mark(node, scope)
        if isinstance(f, (Func, Model)):
            CTX.stats["sites"].add(CTX.site)
            return f(*args, **kw)
        if not callable(f):
            raise ProgramError("type", f"'{type(f).__name__}' object is not callable")
        CTX.stats["sites"].add(CTX.site)
        if f is self.builtins["int"] and args and isinstance(args[0], Fraction):
            return int(args[0])
        if f is str and len(args) == 1 and not kw or f is format and 0 < len(args) <= 2:
            return text(*args)
        if isinstance(f, types.BuiltinMethodType) and f.__name__ == "format" and isinstance(f.__self__, str):
            return fill(f.__self__, args, kw)
        try:
            return f(*args, **kw)
        except (ProgramError, ProgramRaise, Unsupported):
            raise
        except StopIteration as ex:
            raise ProgramRaise(ex, CTX.site)
        except RecursionError:
            raise Unsupported("recursion")
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError) as ex:
            mod = getattr(f, "__module__", "") or ""
            if _has_in(f, self.builtins.values()) or mod in ("builtins", "functools", "itertools", "operator", "math",
                                                      "collections") or isinstance(f, (type, types.BuiltinMethodType)):
                k = {TypeError: "type", ValueError: "value", IndexError: "index", KeyError: "key",
                     AttributeError: "attribute", ZeroDivisionError: "zerodiv"}[type(ex)]
                raise ProgramError(k, str(ex))
            raise Unsupported(f"{type(ex).__name__} in {f!r}: {ex}") from ex


Model_ = Model


def _has_in(f, d):
    return any(f is x for x in d)
