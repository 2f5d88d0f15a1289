"""Kalman prediction and update of the filter."""
import numpy as np

from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST, gram, spd

EXPLAIN = SEM + (" Obligations: the posterior mean and covariance returned by ode_solvers.probnum.ekf (covariance form and square-root form through its Gram matrix) "
                 "for generic transition, noise and nonlinear observation, against the Kalman equations, for several "
                 "state and observation dimensions and numbers of steps, with and without the innovation outputs, and with one to four observation parameters.")
RULE = ("m- = A m + xi, P- = A P A^T + Q; H = Jacobian of the observation at m-; S = H P- H^T + R; m = m- - P- H^T S^-1 "
        "c(m-); P = P- - P- H^T S^-1 H P-; returned innovation c(m-) and S are those of the last step.")
ASSUME = TRUST
FLOOR = 12


def inputs(n, k, N, zero_P=False, zero_R=False, Q=None):
    m = L.vec("m", n)
    P = S.zeros(n, n) if zero_P else spd("P", n)
    Qm = spd("Q", n) if Q is None else Q
    Rm = S.zeros(k, k) if zero_R else spd("R", k)
    return m, P, L.mat("A", n, n), Qm, L.vec("xi", n), Rm, L.vec("t", N)


def filt(n, k, N, uc, **kw):
    def run(ob):
        m, P, A, Q, xi, Rn, ts = inputs(n, k, N, **kw)
        obs = L.fun("obs", (k,))
        r = ob.get("ode_solvers.probnum.ekf")((m, P), obs, A, Q, xi, Rn, params=(ts,), lower_sqrt=False, return_UC=uc)
        wm, wP, wz, wS = S.ekf(m, P, lambda x, t: obs(x, t), A, Q, xi, Rn, [ts[i] for i in range(N)])
        if uc:
            (gm, gP), gS, gz = order(r, k)
            ob.eq("innovation", gz, wz)
            ob.eq("innovation covariance", gS, wS)
        else:
            gm, gP = r
        ob.eq("posterior mean", gm, wm)
        ob.eq("posterior covariance", gP, wP)
    return run


def filt_root(n, k, N, uc):
    """the same posterior in square-root form: mean, square of the factor, innovation"""
    def run(ob):
        m, _, A, _, xi, _, ts = inputs(n, k, N)
        P, Q, Rn = L.mat("LP", n, n), L.lower("LQ", n), L.lower("LR", k)
        obs = L.fun("obs", (k,))
        r = ob.get("ode_solvers.probnum.ekf")((m, P), obs, A, Q, xi, Rn, params=(ts,), lower_sqrt=True, return_UC=uc)
        sq = lambda B: B @ S.T(B)
        wm, wP, wz, wS = S.ekf(m, sq(P), lambda x, t: obs(x, t), A, sq(Q), xi, sq(Rn), [ts[i] for i in range(N)])
        if uc:
            (gm, gP), gS, gz = order(r, k)
            ob.eq("innovation", gz, wz)
            ob.eq("innovation covariance", gS, wS)
        else:
            gm, gP = r
        ob.eq("posterior mean (square-root form)", gm, wm)
        ob.eq("posterior covariance (square of the factor)", gP @ S.T(gP), wP)
    return run


def order(r, k):
    return r[0], r[1], r[2]


def linear(n, k, N):
    """linear Gaussian model: exact posterior, several observations parameters"""
    def run(ob):
        m, P, A, Q, xi, Rn, ts = inputs(n, k, N)
        H = L.mat("H", k, n)
        ys = L.mat("y", N, k)
        obs = lambda x, y: H @ x - y
        gm, gP = ob.get("ode_solvers.probnum.ekf")((m, P), obs, A, Q, xi, Rn, params=(ys,))
        wm, wP, _, _ = S.ekf(m, P, obs, A, Q, xi, Rn, [ys[i] for i in range(N)])
        ob.eq("posterior mean", gm, wm)
        ob.eq("posterior covariance", gP, wP)
    return run


def several(n, k, N, nb, root=False, uc=False):
    """generic nonlinear observation with several parameters of various shapes, each with its own value at every step"""
    def run(ob):
        m, P, A, Q, xi, Rn, ts = inputs(n, k, N)
        ps = [ts, L.mat("y", N, k), Arr(L.mat("z", N, 2 * n).data.reshape(N, 2, n)), L.vec("u", N)][:nb]
        obs = L.fun("obs", (k,))
        at = [tuple(p[i] for p in ps) for i in range(N)]
        sq = (lambda B: B @ S.T(B)) if root else (lambda B: B)
        if root:
            P, Q, Rn = L.mat("LP", n, n), L.lower("LQ", n), L.lower("LR", k)
        r = ob.get("ode_solvers.probnum.ekf")((m, P), obs, A, Q, xi, Rn, params=tuple(ps), lower_sqrt=root, return_UC=uc)
        wm, wP, wz, wS = S.ekf(m, sq(P), lambda x, a: obs(x, *a), A, sq(Q), xi, sq(Rn), at)
        if uc:
            (gm, gP), gS, gz = order(r, k)
            ob.eq("innovation", gz, wz)
            ob.eq("innovation covariance", gS, wS)
        else:
            gm, gP = r
        ob.eq("posterior mean", gm, wm)
        ob.eq("posterior covariance", sq(gP), wP)
    return run


def obligations(tier):
    rows = [(1, 1, 1), (2, 1, 1), (2, 1, 2), (3, 1, 1), (2, 2, 1), (4, 2, 1), (3, 2, 2), (4, 1, 3), (6, 3, 1)]
    rows += [(2, 1, N) for N in sizes.steps((3, 6, 12, 40), 101)]
    rows += [(n, 1, 1) for n in sizes.dims((5, 9, 17), 17, 34)] + [(4, k, 1) for k in (3, 4)] + [(8, 4, 1)]
    for n, k, N in rows:
        for uc in (False, True):
            yield f"nonlinear n={n} k={k} N={N} uncertainty={uc}", filt(n, k, N, uc)
            yield f"square-root form n={n} k={k} N={N} uncertainty={uc}", filt_root(n, k, N, uc)
    for n, k, N in rows[:4]:
        yield f"linear n={n} k={k} N={N}", linear(n, k, N)
    yield "no noise, no initial covariance n=2", filt(2, 1, 2, True, zero_P=True, zero_R=True)
    yield "no noise n=4", filt(4, 2, 1, True, zero_R=True)
    for n, k, N in [(1, 1, 1), (2, 1, 2), (2, 2, 3), (4, 2, 1)]:
        for nb in (2, 3, 4):
            for root in (False, True):
                for uc in (False, True):
                    yield f"{nb} parameters n={n} k={k} N={N} root={root} uncertainty={uc}", several(n, k, N, nb, root, uc)
