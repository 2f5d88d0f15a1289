"""EKF0 / EKF1: observation model, prior, noise and times of the ODE filters."""
from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST, ekf_spec, ode_obs, prior_sym, spd, times

EXPLAIN = SEM + (" Obligations: the posterior mean of the solution returned with key=None against the filter built from "
                 "the Kalman equations, for generic priors with 2 to 5 states, generic noise, several dimensions and "
                 "numbers of steps, both forms; the state filter ode_solvers.ekf from a generic Gaussian state with and without "
                 "each of its options; the linear test equation against the closed form of one step.")
RULE = ("state = interlaced derivatives; observation x' - f(x, t) at h, ..., N h with noise (0 by default); Jacobian x' - J_f "
        "for EKF1 and x' only for EKF0; transition the given prior, IBM(1) with unit diffusion over h by default; result "
        "= coordinates 0 of the posterior mean.")
ASSUME = TRUST
FLOOR = 40


def one(name, d, N, ns, prior, noise, sqrt):
    def run(ob):
        f, x, h = L.fun("f", (d,)), L.vec("x", d), L.scal("h")
        kw = {}
        if prior:
            kw["prior"] = prior_sym(ns * d)
        if noise:
            kw["noise"] = spd("R", d)
        if sqrt is not None:
            kw["sqrt"] = sqrt
        got = ob.get("ode_solvers." + name)(None, x, f, h, N, **kw)
        m, P, _, _ = ekf_spec(f, x, h, N, name == "ekf0", kw.get("prior"), kw.get("noise"), ns)
        ob.eq("posterior mean of the solution", got, m[::ns])
    return run


def consistent(name, sqrt):
    """first order expansion of one default step: x + h f + O(h^2)"""
    def run(ob):
        d = 2
        f, x, h = L.fun("f", (d,)), L.vec("x", d), L.scal("h")
        got = ob.get("ode_solvers." + name)(None, x, f, h, 1, sqrt=sqrt)
        t1 = h
        if name == "ekf0":
            # x + h f0 + h/2 (f(x + h f0, h) - f0)
            f0 = f(x, wrap(C.ZERO))
            ob.eq("one EKF0 step", got, x + h * f0 + 3 * h / 4 * 2 / 2 * (f(x + h * f0, t1) - f0) * wrap(C.TWO) / 3)
    return run


def default(name):
    """defaults: IBM prior with unit diffusion, no noise"""
    def run(ob):
        d = 2
        f, x, h = L.fun("f", (d,)), L.vec("x", d), L.scal("h")
        g = ob.get("ode_solvers." + name)
        got = g(None, x, f, h, 2)
        ob.eq("default prior and noise", got, g(None, x, f, h, 2, prior=S.ibm(1, h, d), noise=S.zeros(d, d)))
    return run


def linear_ode(name):
    """linear vector field: EKF1 is exact Gaussian conditioning"""
    def run(ob):
        d = 2
        M, x, h = L.mat("M", d, d), L.vec("x", d), L.scal("h")
        f = lambda z, t: M @ z
        got = ob.get("ode_solvers." + name)(None, x, f, h, 2, sqrt=True)
        m, P, _, _ = ekf_spec(f, x, h, 2, name == "ekf0")
        ob.eq("posterior mean of the solution", got, m[::2])
    return run


def direct(d, N, ns, given, **kw):
    """ode_solvers.ekf from a Gaussian state; the EKF1 in covariance form without its optional arguments"""
    def run(ob):
        f, h, m = L.fun("f", (d,)), L.scal("h"), L.vec("m", ns * d)
        sqrt = kw.get("sqrt", False)
        P = L.lower("P0", ns * d) if sqrt else spd("P0", ns * d)
        k, a = dict(kw), dict(prior=None, noise=None)
        if given:
            a = dict(prior=prior_sym(ns * d), noise=spd("R", d))
            k.update(a)
        if ns != 2:
            k["n_states"] = ns
        r = ob.get("ode_solvers.ekf")((m, P), f, h, N, **k)
        xi, Q, A = S.ibm(ns - 1, h, d) if a["prior"] is None else a["prior"]
        Rn = S.zeros(d, d) if a["noise"] is None else a["noise"]
        sq = lambda B: B @ S.T(B) if sqrt else B
        wm, wP, wz, wS = S.ekf(m, sq(P), ode_obs(f, ns, kw.get("EKF0", False)), A, Q, xi, Rn, times(h, N))
        if kw.get("return_all"):
            r, gS, gz = r
            ob.eq("innovation", gz, wz)
            ob.eq("innovation covariance", gS, wS)
        ob.eq("posterior mean of the state", r[0], wm)
        ob.eq("posterior covariance of the state", sq(r[1]), wP)
    return run


def obligations(tier):
    for sqrt in ({}, {"sqrt": True}):
        for e in ({}, {"EKF0": True}):
            for d, N, ns, given in ((1, 1, 2, False), (2, 1, 2, True), (1, 2, 2, False), (1, 1, 3, True), (1, 1, 3, False)):
                for ra in ({}, {"return_all": True}):
                    kw = {**sqrt, **e, **ra}
                    yield f"state filter d={d} N={N} n_states={ns} given={given} {' '.join(kw)}", direct(d, N, ns, given, **kw)
    yield from rest(tier)


def rest(tier):
    big = tier == "thorough"
    for name in ("ekf0", "ekf1"):
        for sqrt in (None, False, True):
            for d, N in [(1, 1), (2, 1), (2, 2), (3, 2)] + [(1, N) for N in sizes.steps((3, 12), 101)] + \
                    [(d, 1) for d in sizes.dims((4, 5, 9), 9, 20)]:
                for noise in (False, True):
                    yield f"{name} d={d} N={N} noise={noise} sqrt={sqrt}", one(name, d, N, 2, False, noise, sqrt)
            for ns, d in [(2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (3, 3)] + [(n, 1) for n in sizes.dims((4, 5, 6), 9, 20)]:
                yield f"{name} prior n_states={ns} d={d} sqrt={sqrt}", one(name, d, 1, ns, True, True, sqrt)
            if sqrt is not True:
                yield f"{name} prior n_states=3 d=2 sqrt={sqrt}", one(name, 2, 1, 3, True, False, sqrt)
        for s in (False, True):
            yield f"{name} one step sqrt={s}", consistent(name, s)
        yield f"{name} defaults", default(name)
        yield f"{name} linear", linear_ode(name)
