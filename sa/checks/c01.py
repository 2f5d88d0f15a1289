"""Purity: outputs are functions of the arguments, arguments are left alone, no state survives a call."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import state
from ..arr import Arr
from ..core import CTX
from ..engine import Ob
from ..interp import ProgramRaise
from .catalogue import In, catalogue
from .common import SEM, TRUST

EXPLAIN = SEM + (" Effect analysis over every public routine: the routine is interpreted with arrays owned by the "
                 "caller (numpy and JAX), twice with the same arguments and once in between with others; every write "
                 "to a caller's array or container, every write to a module variable, every use of host randomness, "
                 "clock, environment or files on any path is recorded with its site. The results for numpy arrays and Python scalars are "
                 "compared with those for JAX arrays; where the program asks how its arguments are represented, or for the precision, "
                 "backend or devices of JAX, the obligations of every property are analysed under each answer.")
RULE = ("no mutation of an argument; no write to module state that reaches a result; no host randomness, clock or "
        "environment in a result; the second call with equal arguments returns the same expressions, "
        "also when they are represented otherwise.")
ASSUME = TRUST
FLOOR = 70


def snapshot(t):
    return [x for x in jx.tree_leaves(t)]


def same(ob, what, a, b):
    la, lb = snapshot(a), snapshot(b)
    if not ob.require(len(la) == len(lb), f"{what}: the number of outputs changes between calls", "repeat"):
        return
    for k, (x, y) in enumerate(zip(la, lb)):
        if callable(x):
            continue
        ob.eq(f"{what}: output {k}", x, y, "repeat")


def pure(mk, kind, skind):
    def run(ob):
        i = In(kind, skind)
        f, args, kw = mk(ob, i)
        before = [x for x in jx.tree_leaves((args, kw))]
        lens = [len(a) for a in args if isinstance(a, (list, dict))]
        r1 = f(*args, **kw)
        changed = i.changed()
        ob.require(not changed, f"the caller's arrays are changed by the call: {changed}", "mutation",
                   next((e.site for e in CTX.events if e.kind == "mutation"), None))
        ob.require(lens == [len(a) for a in args if isinstance(a, (list, dict))], "a container of the caller is resized",
                   "mutation")
        other = rename(args), rename(kw)
        s1 = state.snapshot(ob.interp)
        f(*other[0], **other[1])
        r2 = f(*args, **kw)
        same(ob, "second call with the same arguments", r2, r1)
        moved = state.forget(ob.interp, s1, state.snapshot(ob.interp))
        if moved:
            # whatever number of calls came before
            same(ob, f"call with {', '.join(moved[:3])} as after any number of calls", f(*args, **kw), r1)
        ob.no_event("mutation", "host-random", what="")
        roots = [e for x in jx.tree_leaves((r1,)) if isinstance(x, Arr) for e in x.data.reshape(-1)]
        for n in C.atoms_of(roots):
            ob.require(n.extra[0] not in ("host-effect", "host-random"),
                       f"a result depends on {n.extra}", "host-effect", n.site)
    return run


def rename(t):
    """the same call with other values"""
    def f(x):
        if isinstance(x, Arr) and x.dt == "float":
            d = np.empty(x.shape, dtype=object)
            for k in np.ndindex(*x.shape):
                e = x.data[k]
                d[k] = e if C.prim(e).const is not None else C.mul(C.const(3), e)
            return Arr(d, x.dt, x.kind)
        return x
    return jx.tree_map(f, t)


def fresh(mk, kind, skind):
    """the routine of a newly loaded program, in which nothing has been called"""
    return mk(Ob("fresh", "quick"), In(kind, skind))[0]


def representation(mk):
    """numpy arrays and Python floats against JAX arrays of the same values"""
    def run(ob):
        f, args, kw = mk(ob, In("jnp", "jnp"))
        want = f(*args, **kw)
        for kind, sk in (("np", "py"), ("np", "np"), ("jnp", "py")):
            f, args, kw = mk(ob, In(kind, sk))
            same(ob, f"arguments given as {kind} arrays and {sk} scalars", f(*args, **kw), want)
    return run


def leaves(t):
    """positions of the arguments that can take another value"""
    return [k for k, x in enumerate(jx.tree_leaves(t)) if isinstance(x, Arr) and x.dt in ("float", "key") or callable(x)
            or isinstance(x, int) and not isinstance(x, bool)]


def replace(t, pos):
    """the same arguments but for one"""
    n = [-1]

    def f(x):
        n[0] += 1
        if n[0] != pos:
            return x
        if isinstance(x, int):
            return x + 1
        if callable(x):
            return lambda *a, **k: jx.tree_map(lambda y: y * 3 if isinstance(y, Arr) and y.dt == "float" else y, x(*a, **k))
        if x.dt == "key":
            return L.key("other")
        return rename(x)
    return jx.tree_map(f, t)


def history(mk, kind, skind):
    """a call after calls that differ in one argument gives what it gives in a program where nothing was called before"""
    def run(ob):
        f, args, kw = mk(ob, In(kind, skind))
        base = f(*args, **kw)
        for pos in leaves((args, kw)):
            a, k = replace((args, kw), pos)
            try:
                want = fresh(mk, kind, skind)(*a, **k)
            except (C.ProgramError, ProgramRaise):
                continue
            same(ob, f"call after one that differs in argument {pos} only", f(*a, **k), want)
        same(ob, "the first call repeated after all of these", f(*args, **kw), base)
    return run


def interleaved(mks, kind, skind):
    """all the configurations of one routine one after the other, then all of them again"""
    def run(ob):
        calls = []
        for mk in mks:
            f, args, kw = mk(ob, In(kind, skind))
            calls.append((mk, f, args, kw))
        first = [f(*a, **k) for _, f, a, k in calls]
        for n, (mk, f, a, k) in enumerate(calls):
            same(ob, f"configuration {n} called after the others", first[n], fresh(mk, kind, skind)(*a, **k))
            same(ob, f"configuration {n} called again after the others", f(*a, **k), first[n])
    return run


def obligations(tier):
    kinds = [("np", "py"), ("jnp", "jnp")]
    for name, (mk, _) in catalogue().items():
        for kind, sk in kinds:
            yield f"{name} [{kind}]", pure(mk, kind, sk)
            yield f"{name} after other calls [{kind}]", history(mk, kind, sk)
    for name, (mk, _) in catalogue().items():
        yield f"{name} representation of the arguments", representation(mk)
    groups = {}
    for name, (mk, _) in catalogue().items():
        groups.setdefault(name.split(" ")[0], []).append(mk)
    for g, mks in groups.items():
        if len(mks) > 1:
            yield f"all configurations of {g} interleaved", interleaved(mks, "np", "py")
