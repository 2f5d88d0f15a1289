"""Precision: no routine fixes a narrow floating-point type or truncates."""
import math

from .. import core as C
from .. import jx
from ..arr import Arr, wrap
from ..core import CTX
from .catalogue import In, catalogue
from .common import SEM, TRUST

EXPLAIN = SEM + (" Type-flow analysis over every public routine: every array creation, conversion, reduction, draw or callback in which "
                 "the program asks for a fixed floating-point type narrower than double is recorded with its site, as is every "
                 "change of the global precision setting; the element kind of every output is inferred.")
RULE = ("no element type narrower than double is asked for on any path of a public routine, the precision configuration of JAX is not "
        "touched, every output is of floating-point kind (keys and structures apart) when the inputs are.")
ASSUME = TRUST
FIXED = ("x64",)  # double precision
FLOOR = 60


def precise(mk, kind, skind):
    def run(ob):
        i = In(kind, skind)
        f, args, kw = mk(ob, i)
        r = f(*args, **kw)
        ob.no_event("precision", what="double-precision arguments lose precision: ")
        for k, x in enumerate(jx.tree_leaves((r,))):
            if callable(x):
                continue
            if isinstance(x, Arr):
                ob.require(x.dt == "float", f"output {k} has elements of kind {x.dt}", "element-kind")
    return run


def obligations(tier):
    for name, (mk, _) in catalogue().items():
        yield f"{name} [jnp]", precise(mk, "jnp", "jnp")
        yield f"{name} [np]", precise(mk, "np", "py")
