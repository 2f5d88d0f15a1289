"""Posterior samples of the ODE filters."""
from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST, ekf_spec, prior_sym, spd

EXPLAIN = SEM + (" Obligations: the value returned for a key is read as an affine function of independent standard normal "
                 "draws; its mean and covariance are compared with the marginal posterior of the specification filter; "
                 "key=None is compared with the mean.")
RULE = ("with a key, ekf0 and ekf1 return x ~ N(m_0, P_00), m_0 and P_00 the solution coordinates of the posterior mean and "
        "covariance after N steps (joint over dimensions); with key=None they return m_0.")
ASSUME = TRUST
FLOOR = 24


def one(name, d, N, ns, prior, noise, sqrt):
    def run(ob):
        f, x, h = L.fun("f", (d,)), L.vec("x", d), L.scal("h")
        kw = {} if sqrt is None else {"sqrt": sqrt}
        if prior:
            kw["prior"] = prior_sym(ns * d)
        if noise:
            kw["noise"] = spd("R", d)
        g = ob.get("ode_solvers." + name)
        m, P, _, _ = ekf_spec(f, x, h, N, name == "ekf0", kw.get("prior"), kw.get("noise"), ns)
        s = g(L.key(), x, f, h, N, **kw)
        ob.require(s.shape == (d,), f"sample of shape {s.shape}, required {(d,)}", "shape")
        S.check_law(ob, "sample", [s], m[::ns], P[::ns, ::ns])
        ob.eq("key=None", g(None, x, f, h, N, **kw), m[::ns])
    return run


def independent(name, sqrt):
    """samples for different keys are conditionally independent"""
    def run(ob):
        import numpy as np
        from .. import jx
        d = 1
        f, x, h = L.fun("f", (d,)), L.vec("x", d), L.scal("h")
        keys = jx.REG["jax.random.split"](L.key(), 2)
        g = ob.get("ode_solvers." + name)
        a, b = g(keys[0], x, f, h, 1, sqrt=sqrt), g(keys[1], x, f, h, 1, sqrt=sqrt)
        m, P, _, _ = ekf_spec(f, x, h, 1, name == "ekf0")
        S.check_law(ob, "two samples", [a, b], S.concat([m[::2], m[::2]]), S.kron(S.eye(2), P[::2, ::2]))
    return run


def obligations(tier):
    for name in ("ekf0", "ekf1"):
        for sqrt in (None, False, True):
            for d, N in [(1, 1), (2, 1), (2, 2)] + [(1, N) for N in sizes.steps((2, 3, 12, 40), 101)] + \
                    [(d, 1) for d in sizes.dims((3, 4, 9), 9, 20)]:
                for noise in (False, True):
                    yield f"{name} d={d} N={N} noise={noise} sqrt={sqrt}", one(name, d, N, 2, False, noise, sqrt)
            for ns in sizes.dims((2, 3, 4, 6), 9, 20):
                yield f"{name} prior n_states={ns} sqrt={sqrt}", one(name, 1, 1, ns, True, True, sqrt)
            yield f"{name} prior n_states=2 d=2 sqrt={sqrt}", one(name, 2, 1, 2, True, True, sqrt)
        for sqrt in (False, True):
            yield f"{name} two keys sqrt={sqrt}", independent(name, sqrt)
