"""Coarse coefficients are functionals of the returned fine path."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: for each number of fine steps the returned coarse coefficients are compared with the "
                 "functionals of the returned fine data, and the fine data with its law; the couplings used in the "
                 "strong convergence scripts rely on them.")
RULE = ("get_approx_and_brownian: a = sqrt(dt/N) sum incs, b = sqrt(6) (trapezoidal mean of the path started at 0 - a/2) "
        "with incs i.i.d. N(0, 1); get_approx_fine: a = sum of the fine increments (variance dt/N), b = sqrt(6) (mean of "
        "the piecewise parabolic path - a/2), the second fine output being the fine b / sqrt(6) (mean area excess, "
        "variance dt / (12 N)).")
ASSUME = TRUST
FLOOR = 10


def brownian(dim, N):
    def run(ob):
        dt = L.scal("dt")
        get, _ = ob.get("foster_polynomial.get_approx_and_brownian")(dim=dim, N=N)
        a, b, incs = get(L.key(), dt)
        ob.require(incs.shape == (N, dim), f"increments of shape {incs.shape}, required {(N, dim)}", "shape")
        S.check_law(ob, "increments", [incs], S.zeros(N * dim), S.eye(N * dim))
        sc = S.sqrt(dt / wrap(C.const(N)))
        W = [S.zeros(dim)]
        for k in range(N):
            W.append(W[-1] + sc * incs[k])
        ob.eq("a", a, W[-1])
        mean = S.zeros(dim)
        for k in range(N):
            mean = mean + (W[k] + W[k + 1]) / wrap(C.const(2 * N))
        ob.eq("b", b, S.sqrt(wrap(C.const(6))) * (mean - wrap(C.HALF) * a))
    return run


def fine(dim, N):
    def run(ob):
        dt = L.scal("dt")
        get, _ = ob.get("foster_polynomial.get_approx_fine")(dim=dim, N=N)
        a, b, fa, fb = get(L.key(), dt)
        for n, v in (("fine increments", fa), ("fine areas", fb)):
            ob.require(v.shape == (N, dim), f"{n} of shape {v.shape}, required {(N, dim)}", "shape")
        h = dt / wrap(C.const(N))
        cov = jx.REG["jax.scipy.linalg.block_diag"](S.scaled_eye(N * dim, h), S.scaled_eye(N * dim, h / 12))
        S.check_law(ob, "fine data", [fa, fb], S.zeros(2 * N * dim), cov)
        W = S.zeros(dim)
        mean = S.zeros(dim)
        for k in range(N):
            mean = mean + (W + wrap(C.HALF) * fa[k] + fb[k]) / wrap(C.const(N))
            W = W + fa[k]
        ob.eq("a", a, W)
        ob.eq("b", b, S.sqrt(wrap(C.const(6))) * (mean - wrap(C.HALF) * a))
    return run


def pathwise(dim, N):
    """Euler-Maruyama driven by the returned increments ends where the coarse coefficient says"""
    def run(ob):
        dt = L.scal("dt")
        get, _ = ob.get("foster_polynomial.get_approx_and_brownian")(dim=dim, N=N)
        a, b, incs = get(L.key(), dt)
        pw = ob.get("sde_solvers.euler_maruyama_pathwise")
        _, xs = pw(incs, S.zeros(dim), lambda x, t: S.zeros(dim), lambda x, t: S.eye(dim), dt / wrap(C.const(N)), N,
                   standard=True)
        ob.eq("end of the fine path", xs[N], a)
        getf, _ = ob.get("foster_polynomial.get_approx_fine")(dim=dim, N=N)
        a, b, fa, fb = getf(L.key(), dt)
        _, xs = pw(fa, S.zeros(dim), lambda x, t: S.zeros(dim), lambda x, t: S.eye(dim), dt / wrap(C.const(N)), N,
                   standard=False)
        ob.eq("end of the fine path (get_approx_fine)", xs[N], a)
    return run


def in_driver(N, M, which):
    """the coefficients returned by sde_solver carry the fine data of each step"""
    def run(ob):
        delta = L.scal("delta")
        bm = lambda: ob.get("foster_polynomial." + which)(dim=1, N=M)
        eu = ob.get("ode_solvers.euler")
        r = ob.get("sde_solver.sde_solver")(
            key=L.key(), drift=lambda x, t: S.zeros(1), sigma=lambda x, t: S.eye(1), x0=S.zeros(1), bm=bm, delta=delta,
            N=N, ode_int=lambda _, init, vector_field, T: eu(init=init, vector_field=vector_field, h=T / 1, N=1))
        a, fine = r[2], r[4]
        sc = S.sqrt(delta / wrap(C.const(M))) if which == "get_approx_and_brownian" else wrap(C.ONE)
        for k in range(N):
            s = S.zeros(1)
            for j in range(M):
                s = s + sc * fine[k, j]
            ob.eq(f"a of step {k}", a[k], s)
    return run


def obligations(tier):
    for N in sizes.steps((1, 2, 3, 4, 7, 20, 50), 130):
        for dim in (1,) if N > 60 else (1, 2) if N > 3 else sizes.dims((1, 2, 4, 17), 17, 130):
            yield f"get_approx_and_brownian dim={dim} N={N}", brownian(dim, N)
            yield f"get_approx_fine dim={dim} N={N}", fine(dim, N)
        yield f"pathwise coupling N={N}", pathwise(2, N)
    for w in ("get_approx_and_brownian", "get_approx_fine"):
        for N in (1, 2, 3, 6, 17):
            yield f"sde_solver with {w} N={N} substeps 2", in_driver(N, 2, w)
            yield f"sde_solver with {w} N=2 substeps {N}", in_driver(2, N, w)
