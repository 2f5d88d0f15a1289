"""Numbers of steps and dimensions of the configurations.

A check that unrolls loops looks at finitely many sizes.  A program can treat a size specially only by comparing it with, taking it
modulo, or slicing at some number, and such numbers appear as integer literals (or constant expressions of them) in its source.
The configurations therefore contain, besides a fixed list, every integer constant of the current sources and its neighbours, up
to a cap set by the cost of the obligation.
"""
import ast
import functools
import glob
import os
import warnings

_OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.FloorDiv: lambda a, b: a // b if b else None, ast.Pow: lambda a, b: a ** b if 0 <= b < 40 and abs(a) < 1000 else None,
        ast.LShift: lambda a, b: a << b if 0 <= b < 40 else None, ast.BitOr: lambda a, b: a | b}


def _fold(n, out):
    """integer value of a constant expression, all values found below are added to out"""
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float("inf"), float("-inf")) or int(v) != v:
            return None
        out.add(int(v))
        return int(v)
    vals = [_fold(c, out) for c in ast.iter_child_nodes(n) if not isinstance(c, (ast.operator, ast.unaryop, ast.expr_context))]
    if isinstance(n, ast.BinOp) and type(n.op) in _OPS and len(vals) == 2 and None not in vals:
        v = _OPS[type(n.op)](*vals)
        if v is not None:
            out.add(v)
        return v
    return None


_RANGE = {"uint8": 256, "int8": 128}


@functools.lru_cache(maxsize=None)
def literals():
    from . import lib as L
    out = set()
    for f in sorted(glob.glob(os.path.join(L.REPO, L.PKG, "**", "*.py"), recursive=True)):
        if f.endswith("ivp.py"):
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        _fold(tree, out)
        for n in ast.walk(tree):
            w = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.value if isinstance(n, ast.Constant) else None
            if isinstance(w, str) and w in _RANGE:
                out.add(_RANGE[w])
    return frozenset(abs(v) for v in out)


def near(lo, cap):
    return sorted({w for v in literals() for w in (v - 1, v, v + 1) if lo <= w <= cap})


def steps(fixed, cap, big=2050):
    """numbers of steps: the fixed ones, those suggested by the sources up to cap, and one just beyond each larger constant"""
    return sorted(set(fixed) | set(near(min(fixed), cap)) | set(sorted(v + 2 for v in literals() if cap < v <= big)[:5]))


def dims(fixed, cap, big=0):
    return sorted(set(fixed) | set(near(min(fixed), cap)) | set(sorted(v + 1 for v in literals() if cap < v <= big)[:4]))
