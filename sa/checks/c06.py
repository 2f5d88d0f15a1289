"""Ito / Stratonovich conversion."""
from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST

EXPLAIN = SEM + " Obligations: every (d, m) of the configuration list, generic time dependent diffusion."
RULE = ("correction_i = sum_{j,k} s_jk(x,t) d s_ik / d x_j (x,t); Stratonovich drift = Ito drift - correction / 2 and "
        "back; the diffusion is unchanged; the two conversions are inverse of each other.")
ASSUME = TRUST
FLOOR = 15


def corr(s, x, t, d, m):
    J = S.jac(lambda z: s(z, t), x)
    sv = s(x, t)
    out = []
    for i in range(d):
        a = wrap(C.ZERO)
        for j in range(d):
            for k in range(m):
                a = a + sv[j, k] * J[i, k, j]
        out.append(a)
    return S.stack(out)


def run_one(d, m, what):
    def run(ob):
        x, t = L.vec("x", d), L.scal("t")
        f, s = L.fun("f", (d,)), L.fun("s", (d, m))
        c = corr(s, x, t, d, m)
        half = wrap(C.HALF)
        if what == "correction":
            ob.eq("drift_correction", ob.get("ito_stratonovich.drift_correction")(s, t, x), c)
            return
        tos, toi = ob.get("ito_stratonovich.to_stratonovich"), ob.get("ito_stratonovich.to_ito")
        if what == "to_stratonovich":
            g, s2 = tos(f, s)
            ob.eq("Stratonovich drift", g(x, t), f(x, t) - half * c)
            ob.eq("diffusion", s2(x, t), s(x, t))
        elif what == "to_ito":
            g, s2 = toi(f, s)
            ob.eq("Ito drift", g(x, t), f(x, t) + half * c)
            ob.eq("diffusion", s2(x, t), s(x, t))
        else:
            g, s2 = toi(*tos(f, s))
            ob.eq("round trip drift", g(x, t), f(x, t))
            ob.eq("round trip diffusion", s2(x, t), s(x, t))
            g, s2 = tos(*toi(f, s))
            ob.eq("round trip drift", g(x, t), f(x, t))
            ob.eq("round trip diffusion", s2(x, t), s(x, t))
    return run


def traced(d, m):
    """the converted drift is differentiable and can be used inside the filters (jacobian of the new drift)"""
    def run(ob):
        x, t = L.vec("x", d), L.scal("t")
        f, s = L.fun("f", (d,)), L.fun("s", (d, m))
        g, _ = ob.get("ito_stratonovich.to_stratonovich")(f, s)
        ob.eq("jacobian of the Stratonovich drift", S.jac(lambda z: g(z, t), x),
              S.jac(lambda z: f(z, t) - wrap(C.HALF) * corr(s, z, t, d, m), x))
    return run


def obligations(tier):
    for d, m in [(1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (1, 4), (5, 5)] + [(d, d) for d in sizes.dims((4, 9), 9, 20)]:
        for w in ("correction", "to_stratonovich", "to_ito", "round trip"):
            yield f"{w} d={d} m={m}", run_one(d, m, w)
    yield "differentiable d=2 m=2", traced(2, 2)
