"""The routines can be traced: jit, vmap, scan."""
from .. import core as C
from .. import jx
from .. import lib as L
from .. import spec as S
from .. import state
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .catalogue import In, bm_model, catalogue
from .common import SEM, TRUST, prior_sym, spd

EXPLAIN = SEM + (" Staging analysis: every public routine is interpreted with all its array, step and key arguments as traced "
                 "JAX values; every point where the value of a traced array would have to be known on the host (Python branch, "
                 "int, float, assert, numpy call, shape or range bound, boolean mask) is reported with its site. For the "
                 "randomised routines, a batch of keys under vmap is compared with the single calls.")
RULE = ("no Python control flow, host conversion, numpy call, shape or iteration count depends on a traced value; vmap over keys "
        "(and states) returns the stacked results of the single calls.")
ASSUME = TRUST
FIXED = ("arguments",)  # traced
FLOOR = 100


def traced(mk):
    def run(ob):
        i = In("jnp", "jnp")
        f, args, kw = mk(ob, i)
        modules = set(ob.interp.modules)
        before = [v for _, v in state.arrays(ob.interp, modules)]
        f(*args, **kw)
        ob.no_event("host-bool", "host-int", "host-np")
        known = set(map(id, before))
        left = [p for p, v in state.arrays(ob.interp, modules) if id(v) not in known and not v.eager]
        ob.require(not left, f"an array made during the call stays in {', '.join(left[:3])}: a leaked tracer when the call is traced",
                   "arrays kept between calls")
    return run


def batched(mk):
    def run(ob):
        i = In("jnp", "jnp")
        f, args, kw = mk(ob, i)
        keys = jx.REG["jax.random.split"](L.key(), 2)
        arg0 = "key" not in kw

        def call(k):
            return f(k, *args[1:], **kw) if arg0 else f(*args, **{**kw, "key": k})
        whole = jx.REG["jax.vmap"](call)(keys)
        ob.no_event("host-bool", "host-int", "host-np")
        singles = [call(keys[0]), call(keys[1])]
        wl = jx.tree_leaves(whole)
        for j in range(2):
            sl = jx.tree_leaves(singles[j])
            if not ob.require(len(sl) == len(wl), "structure changes under vmap", "structure"):
                return
            for k, (a, b) in enumerate(zip(wl, sl)):
                if isinstance(b, Arr):
                    ob.eq(f"batch member {j}, output {k}", a[j], b)
    return run


def jit_all(mk):
    """under jit, with the arrays as arguments"""
    def run(ob):
        i = In("jnp", "jnp")
        f, args, kw = mk(ob, i)
        idx = [k for k, a in enumerate(args) if isinstance(a, Arr)]

        def g(*arrs):
            full = list(args)
            for k, a in zip(idx, arrs):
                full[k] = a
            return f(*full, **kw)
        a = jx.REG["jax.jit"](g)(*[args[k] for k in idx])
        b = f(*args, **kw)
        ob.no_event("host-bool", "host-int", "host-np")
        for k, (x, y) in enumerate(zip(jx.tree_leaves(a), jx.tree_leaves(b))):
            if isinstance(y, Arr):
                ob.eq(f"output {k} under jit", x, y)
    return run


def obligations(tier):
    for name, (mk, rnd) in catalogue().items():
        yield f"{name} traced", traced(mk)
        if rnd:
            yield f"{name} vmap over keys", batched(mk)
        if tier == "thorough":
            yield f"{name} jit", jit_all(mk)
