"""numbers a program keeps between calls: where they are, which of them move, and replacing those by unknown ones"""
import functools
import itertools
import types
from fractions import Fraction

from . import core as C
from .arr import Arr, wrap
from .core import ProgramError


class Count:
    """itertools.count with its state in the open"""

    def __init__(self, start=0, step=1):
        self.n, self.step = start, step

    def __iter__(self):
        return self

    def __next__(self):
        v = self.n
        self.n = v + self.step
        return v


ITERTOOLS = types.SimpleNamespace(**{n: getattr(itertools, n) for n in dir(itertools) if not n.startswith("_")})
ITERTOOLS.count = Count


def singledispatch(func):
    """functools.singledispatch over functions of the program"""
    table = {}

    def pick(x):
        for c in type(x).__mro__:
            if c in table:
                return table[c]
        return next((f for c, f in table.items() if isinstance(x, c)), func)

    def wrapper(*a, **k):
        return pick(a[0])(*a, **k)

    def register(cls, f=None):
        if f is not None:
            table[cls] = f
            return f
        node = getattr(cls, "_node", None)
        if node is None:
            return lambda g: register(cls, g)
        ann = (node.args.posonlyargs + node.args.args)[0].annotation
        if ann is None:
            raise ProgramError("type", "singledispatch: register without a type")
        t = cls._interp.eval(ann, cls._scope)
        for u in getattr(t, "__args__", None) or (t,):
            table[u] = cls
        return cls
    wrapper.register = register
    wrapper.dispatch = lambda cls: next((table[c] for c in cls.__mro__ if c in table), func)
    wrapper.__name__, wrapper.__wrapped__ = func.__name__, func
    return wrapper


def lru_cache(maxsize=128, typed=False):
    """functools.lru_cache with its entries in the open"""
    if callable(maxsize):
        return lru_cache()(maxsize)

    def deco(func):
        kept, count = {}, {"hits": 0, "misses": 0}

        def wrapper(*a, **k):
            key = functools._make_key(a, k, typed)
            hash(key)
            if key in kept:
                count["hits"] += 1
                kept[key] = r = kept.pop(key)
                return r
            count["misses"] += 1
            r = func(*a, **k)
            if maxsize is None or maxsize > 0:
                kept[key] = r
                if maxsize is not None and len(kept) > maxsize:
                    del kept[next(iter(kept))]
            return r

        def cache_clear():
            kept.clear()
            count.update(hits=0, misses=0)
        wrapper.cache_clear = cache_clear
        wrapper.cache_info = lambda: functools._CacheInfo(count["hits"], count["misses"], maxsize, len(kept))
        wrapper.cache_parameters = lambda: {"maxsize": maxsize, "typed": typed}
        wrapper.kept_, wrapper.count_ = kept, count
        wrapper.__wrapped__ = func
        for n in ("__name__", "__doc__", "__qualname__", "__module__"):
            try:
                setattr(wrapper, n, getattr(func, n))
            except (AttributeError, TypeError):
                pass
        return wrapper
    return deco


FUNCTOOLS = types.SimpleNamespace(**{n: getattr(functools, n) for n in dir(functools) if not n.startswith("_")})
FUNCTOOLS.singledispatch = singledispatch
FUNCTOOLS.lru_cache = lru_cache
FUNCTOOLS.cache = lambda f: lru_cache(None)(f)


def number(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def slots(interp, leaf=number, modules=None):
    """(place, value, setter) of every number reachable from the modules of the program, other than through arrays"""
    from .interp import Func, Scope
    out, seen = [], set()

    def items(o):
        if isinstance(o, dict):
            return [(repr(k)[:40], v, lambda n, o=o, k=k: o.__setitem__(k, n)) for k, v in o.items()]
        if isinstance(o, list):
            return [(str(k), v, lambda n, o=o, k=k: o.__setitem__(k, n)) for k, v in enumerate(o)]
        return [(k, v, lambda n, o=o, k=k: setattr(o, k, n)) for k, v in list(vars(o).items())]

    def walk(place, v, put):
        if leaf(v):
            out.append((place, v, put))
            return
        if v is None or isinstance(v, (str, bool, Arr, C.Num, types.ModuleType)) or id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, tuple):
            for k, x in enumerate(v):
                walk(f"{place}[{k}]", x, None)
        elif isinstance(v, (dict, list)):
            for k, x, s in items(v):
                walk(f"{place}[{k}]", x, s)
        elif isinstance(v, Func):
            for k, x in enumerate(v._defaults or ()):
                walk(f"{place} default {k}", x, None)
            for k, x in (v._kwdefaults or {}).items():
                walk(f"{place} default {k}", x, None)
            for k, x, s in items(v):
                if not k.startswith("_"):
                    walk(f"{place}.{k}", x, s)
            s = v._scope
            while isinstance(s, Scope) and s.vars is not s.globals:
                walk(f"variables around {place}", s.vars, None)
                s = s.parent
        elif isinstance(v, types.MethodType):
            walk(place, v.__self__, None)
            walk(place, v.__func__, None)
        elif isinstance(v, type):
            if getattr(v, "__module__", "").startswith(("bayesian_sde_solver", "script")):
                for k, x, s in items(v):
                    if not (k.startswith("__") and k.endswith("__")):
                        walk(f"{place}.{k}", x, s)
        elif hasattr(v, "__wrapped__") or type(v).__module__.startswith("bayesian_sde_solver") or isinstance(v, (Count, types.SimpleNamespace)) \
                and v is not ITERTOOLS and v is not FUNCTOOLS:
            if hasattr(v, "__wrapped__"):
                walk(place, v.__wrapped__, None)
            if hasattr(v, "__dict__"):
                for k, x, s in items(v):
                    if k != "__wrapped__":
                        walk(f"{place}.{k}", x, s)
    for name, m in list(interp.modules.items()):
        if modules is not None and name not in modules:
            continue
        for k, v in list(m.globals.items()):
            if not (k.startswith("__") and k.endswith("__")):
                walk(f"{name}.{k}", v, lambda n, m=m, k=k: m.globals.__setitem__(k, n))
    return out


def arrays(interp, modules=None):
    """the JAX arrays reachable from the modules of the program"""
    return [(p, v) for p, v, _ in slots(interp, lambda v: isinstance(v, Arr) and v.kind == "jnp", modules)]


def snapshot(interp):
    return {p: v for p, v, _ in slots(interp)}


def forget(interp, before, after):
    """numbers that differ between the snapshots become unknown; -> their places"""
    moved = []
    for p, v, put in slots(interp):
        if put is not None and p in before and p in after and before[p] != after[p]:
            put(wrap(C.atom("state", p), "int" if isinstance(v, int) else "float", "py"))
            moved.append(p)
    return moved
