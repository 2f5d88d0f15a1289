"""models of the host facilities experiment scripts use around the computation: paths, command lines"""
import pathlib
import posixpath
import re
from fractions import Fraction

from . import core as C
from .arr import Arr
from .core import CTX

_PURE = ("join", "basename", "dirname", "split", "splitext", "normpath", "isabs", "commonpath", "relpath", "sep")


class OsPath:
    """os.path: functions of strings are computed, everything that asks the file system is an effect"""

    def __init__(self, effect):
        self.__dict__["_effect"] = effect

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in _PURE:
            fn = getattr(posixpath, n)
            return (lambda *a: fn(*[str(x) if isinstance(x, pathlib.PurePath) else x for x in a])) if callable(fn) else fn
        return self._effect("os.path." + n)


class Path(pathlib.PurePosixPath):
    """pathlib.Path: pure operations are computed, the others are effects"""

    def __getattr__(self, n):
        if n.startswith("_") or not hasattr(pathlib.Path, n):
            raise AttributeError(n)
        from .interp import Effect
        if n in ("resolve", "absolute", "expanduser"):
            def same(*a, **k):
                CTX.event("host-effect", f"pathlib.Path.{n}()", "pathlib.Path." + n)
                return self
            return same
        return Effect("pathlib.Path." + n)

    @classmethod
    def cwd(cls):
        CTX.event("host-effect", "pathlib.Path.cwd()", "pathlib.Path.cwd")
        return cls(".")


class PathLib:
    Path = PosixPath = PurePath = PurePosixPath = Path


class _Namespace:
    pass


class ArgumentParser:
    """the program is analysed as started without arguments"""

    def __init__(self, *a, **k):
        self._args = []

    def add_argument(self, *names, default=None, action=None, dest=None, required=False, type=None, **k):
        long = [n for n in names if n.startswith("--")] or list(names)
        dest = dest or long[0].lstrip("-").replace("-", "_")
        if action == "store_true":
            default = bool(default)
        elif action == "store_false":
            default = True if default is None else default
        elif action == "count" and default is None:
            default = None
        if isinstance(default, str) and type is not None:
            default = type(default)
        self._args.append((dest, default))
        return None

    def add_argument_group(self, *a, **k):
        return self

    add_mutually_exclusive_group = add_argument_group

    def set_defaults(self, **k):
        self._args += list(k.items())

    def parse_args(self, *a, **k):
        CTX.event("host-effect", "argparse.parse_args()", "argparse.parse_args")
        out = _Namespace()
        for n, v in self._args:
            setattr(out, n, v)
        return out

    def parse_known_args(self, *a, **k):
        return self.parse_args(), []


class Argparse:
    ArgumentParser = ArgumentParser
    Namespace = _Namespace

    class ArgumentDefaultsHelpFormatter:
        pass
    RawDescriptionHelpFormatter = HelpFormatter = ArgumentDefaultsHelpFormatter


def known(x):
    """the Python value of a number whose value is known, else None"""
    if isinstance(x, Arr):
        if x.ndim or x.dt == "key" or not isinstance(x.data[()], C.Num):
            return None
        c, real = C.prim(x.data[()]).const, x.dt == "float"
    elif isinstance(x, Fraction):
        c, real = x, True
    elif isinstance(x, C.Num):
        c, real = C.prim(x).const, True
    else:
        return None
    if c is None:
        return None
    return float(c) if real else int(c)


def text(x, spec="", conversion=-1):
    """what format(x, spec) gives; unknown values get distinct texts for distinct values"""
    if isinstance(x, (str, int)) or x is None or isinstance(x, pathlib.PurePath):
        x = repr(x) if conversion == 114 else str(x) if conversion == 115 else x
        return format(x, spec)
    v = known(x)
    if v is not None:
        return format(v if conversion == -1 else repr(v), spec)
    if isinstance(x, Arr) and all(isinstance(e, C.Num) for e in x.data.reshape(-1)):
        return "<" + ",".join(f"{C.prim(e).fp}" for e in x.data.reshape(-1))[:200] + ">"
    if isinstance(x, C.Num):
        return f"<{C.prim(x).fp}>"
    if isinstance(x, (list, tuple)):
        return "(" + ", ".join(text(y) for y in x) + ")"
    return "<v>"


class _Formatted:
    def __init__(self, x):
        self.x = x

    def __format__(self, spec):
        return text(self.x, spec)

    def __str__(self):
        return text(self.x)

    __repr__ = __str__

    def __getattr__(self, n):
        return _Formatted(getattr(self.x, n))

    def __getitem__(self, n):
        return _Formatted(self.x[n])


def fill(form, args, kw):
    """str.format"""
    return form.format(*[_Formatted(a) for a in args], **{k: _Formatted(v) for k, v in kw.items()})


_DIRECTIVE = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])")


def percent(form, args):
    """str % args"""
    rest = list(args) if isinstance(args, tuple) else [args]

    def one(m):
        name, flags, width, prec, kind = m.groups()
        if kind == "%":
            return "%"
        if name:
            x = args[name]
        elif rest:
            x = rest.pop(0)
        else:
            raise TypeError("not enough arguments for format string")
        if kind in "sra":
            t = text(x)
        else:
            v = x if isinstance(x, (int, float)) else known(x)
            if v is None:
                if isinstance(x, str) or x is None:
                    raise TypeError(f"%{kind} format: a real number is required, not {type(x).__name__}")
                return text(x)
            t = v
        return ("%" + flags + width + ("." + prec if prec else "") + kind) % (t,)
    out = _DIRECTIVE.sub(one, form)
    if rest and isinstance(args, tuple):
        raise TypeError("not all arguments converted during string formatting")
    return out
