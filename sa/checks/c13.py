"""Initial state of the ODE filters."""
import numpy as np

from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST, ode_spec_init, prior_sym, sg, spd

EXPLAIN = SEM + (" Obligations: the filters are interpreted with a vector field that is uninterpreted at time 0 and zero at "
                 "later times, so that the posterior is an explicit function of the initial mean and covariance only; "
                 "generic transitions with 2 to 5 states, one and two dimensions, both forms.")
RULE = ("initial mean: x, f(x, 0), J_f f + df/dt at (x, 0), then zeros, in the interlaced layout; initial covariance: zero for "
        "these three states, one for each further state.")
ASSUME = TRUST
FLOOR = 16


def at_zero(d):
    f = L.fun("f", (d,))

    def vf(x, t):
        if C.prim(asarr(t).scalar()).fp == 0:
            return f(x, t)
        return S.zeros(d)
    return vf


def one(name, d, ns, sqrt, N=1):
    def run(ob):
        vf, x, h = at_zero(d), L.vec("x", d), L.scal("h")
        prior, R = prior_sym(ns * d), spd("R", d)
        got = ob.get("ode_solvers." + name)(None, x, vf, h, N, sqrt=sqrt, prior=prior, noise=R)
        m, P = ode_spec_init(vf, x, ns, d)
        xi, Q, A = prior
        for _ in range(N):
            m, P = S.predict(m, P, A, Q, xi)
            H = np.empty((d, ns * d), dtype=object)
            H[...] = C.ZERO
            for i in range(d):
                H[i, i * ns + 1] = C.ONE
            m, P, _ = S.update(m, P, m[1::ns], Arr(H), R)
        ob.eq(f"posterior mean from the initial state of {ns} states", got, m[::ns])
    return run


def two(name, d, sqrt):
    """Algorithm 3: derivative initialised at f(m, 0), covariance (I, H) P (I, H)^T"""
    def run(ob):
        vf, m0, h = at_zero(d), L.vec("m", d), L.scal("h")
        P0 = spd("P0", d)
        prior, R = prior_sym(2 * d), spd("R", d)
        s, gm, gP = ob.get("ode_solvers." + name)(None, (L.vec("s", d), m0, P0), vf, h, 1, sqrt=sqrt, prior=prior, noise=R)
        z = wrap(C.ZERO)
        H0 = S.jac(lambda q: vf(q, z), m0) if name == "ekf1_2" else S.zeros(d, d)
        m = S.interlace([m0, vf(m0, z)])
        P = S.block4(P0, P0 @ S.T(H0), H0 @ P0, H0 @ P0 @ S.T(H0))
        xi, Q, A = prior
        m, P = S.predict(m, P, A, Q, xi)
        H = np.empty((d, 2 * d), dtype=object)
        H[...] = C.ZERO
        for i in range(d):
            H[i, 2 * i + 1] = C.ONE
        m, P, _ = S.update(m, P, m[1::2], Arr(H), R)
        ob.eq("posterior mean", gm, m[::2])
        ob.eq("posterior covariance", gP, P[::2, ::2])
    return run


def obligations(tier):
    for name in ("ekf0", "ekf1"):
        for sqrt in (False, True):
            for d, ns in [(2, 2), (2, 3), (2, 4), (2, 5), (3, 2), (3, 3), (4, 2), (6, 4), (9, 2)] + [(1, n) for n in sizes.dims((2, 3, 4, 5), 9, 20)]:
                yield f"{name} d={d} n_states={ns} sqrt={sqrt}", one(name, d, ns, sqrt)
            for d in sizes.dims((1, 2, 3, 5, 9), 9, 20):
                yield f"{name}_2 d={d} sqrt={sqrt}", two(name + "_2", d, sqrt)
