"""Square root form of the filters."""
import numpy as np

from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .common import SEM, TRUST, prior_sym, spd
from .c10 import inputs

EXPLAIN = SEM + (" Obligations: the factor L returned by ode_solvers.probnum.ekf with lower_sqrt against the covariance "
                 "form for the squared inputs (generic, triangular, rank deficient and zero roots); ekf0, ekf1, ekf0_2, "
                 "ekf1_2 and the marginal parabola filters: the output law with sqrt=True equals the one with sqrt=False "
                 "for the same prior and noise; no root of a structurally singular matrix is taken on the sqrt paths.")
RULE = ("L L^T = posterior covariance, same mean, same innovation covariance; output law independent of sqrt; noise is a "
        "covariance in both forms; sqrt=True takes no matrix root of a structurally singular matrix.")
ASSUME = TRUST
FLOOR = 25


def root(kind, name, n):
    if kind == "lower":
        return L.lower(name, n)
    if kind == "full":
        return L.mat(name, n, n)
    if kind == "zero":
        return S.zeros(n, n)
    B = L.mat(name, n, n)  # rank deficient: last column zero
    d = np.array(B.data)
    d[:, -1] = C.ZERO
    return Arr(d)


def filt(n, k, N, uc, kp, kq, kr):
    def run(ob):
        m, A, xi, ts = L.vec("m", n), L.mat("A", n, n), L.vec("xi", n), L.vec("t", N)
        P, Q, R = root(kp, "P", n), root(kq, "Q", n), root(kr, "R", k)
        obs = L.fun("obs", (k,))
        r = ob.get("ode_solvers.probnum.ekf")((m, P), obs, A, Q, xi, R, params=(ts,), lower_sqrt=True, return_UC=uc)
        sq = lambda B: B @ S.T(B)
        wm, wP, wz, wS = S.ekf(m, sq(P), lambda x, t: obs(x, t), A, sq(Q), xi, sq(R), [ts[i] for i in range(N)])
        if uc:
            (gm, gL), gS, gz = r
            ob.eq("innovation", gz, wz)
            ob.eq("innovation covariance", gS, wS)
        else:
            gm, gL = r
        ob.eq("posterior mean", gm, wm)
        ob.eq("square of the posterior factor", gL @ S.T(gL), wP)
    return run


def law_of(arrays):
    """(mean, covariance) as fingerprints, in a canonical form independent of the draws"""
    law = S.Law(arrays)
    n = len(law.roots)
    return law, [law.mean[i] for i in range(n)], [[law.cov(i, j) for j in range(i + 1)] for i in range(n)]


def same_law(ob, what, a, b):
    la, ma, ca = law_of(a)
    lb, mb, cb = law_of(b)
    ob.facts += 1
    site = next((C.prim(r).site for r in la.roots if isinstance(C.prim(r), C.Sc)), None)
    ob.require(la.exact and lb.exact and not la.bad and not lb.bad, f"{what}: not affine in Gaussian draws", "law", site)
    ob.require(ma == mb, f"{what}: the mean with sqrt=True is not the mean with sqrt=False", "law", site)
    bad = next(((i, j) for i in range(len(ca)) for j in range(i + 1) if ca[i][j] != cb[i][j]), None)
    ob.require(bad is None, f"{what}: the covariance of components {bad} with sqrt=True is not the one with sqrt=False; "
                            f"component {bad[0] if bad else ''} with sqrt=True is "
                            f"{C.show(C.prim(la.roots[bad[0]]), 4)[:200] if bad else ''}", "law", site)


def regular(ob, what):
    """events so far on the sqrt path"""
    for e in CTX.events:
        if e.kind in ("singular-root", "indefinite", "nan", "singular-solve"):
            ob.fail(f"{what}: {e.msg}", e.kind, e.site)
            return
    ob.facts += 1


def solver(name, d, N, ns, prior, noise):
    def run(ob):
        f, x, h = L.fun("f", (d,)), L.vec("x", d), L.scal("h")
        kw = {}
        if prior == "padded":
            # deterministic states: zero rows of the transition covariance
            pad, fac = (ob.get("ode_solvers.probnum." + n) for n in ("pad_prior", "get_independently_factorized_prior"))
            kw["prior"] = fac(tuple(pad(prior_sym(2, f"pr{i}"), ns - 1) if ns > 2 else prior_sym(2, f"pr{i}")
                                    for i in range(d)))
        elif prior:
            kw["prior"] = prior_sym(ns * d)
        if noise:
            kw["noise"] = spd("R", d)
        two = name.endswith("_2")
        init = (x, x, spd("P0", d)) if two else x
        g = ob.get("ode_solvers." + name)
        a = g(L.key(), init, f, h, N, sqrt=True, **kw)
        regular(ob, f"{name} sqrt=True")
        b = g(L.key(), init, f, h, N, sqrt=False, **kw)
        if two:
            same_law(ob, "sample", [a[0]], [b[0]])
            ob.eq("mean", a[1], b[1])
            ob.eq("covariance", a[2], b[2])
            am = g(None, init, f, h, N, sqrt=True, return_all=True, **kw)[1]
            bm = g(None, init, f, h, N, sqrt=False, return_all=True, **kw)[1]
            for n, u, v in zip(("sample", "mean", "covariance", "innovation covariance", "innovation"), am, bm):
                ob.eq(f"{n} (return_all)", u, v)
        else:
            same_law(ob, "sample", [a], [b])
            ob.eq("mean", g(None, init, f, h, N, sqrt=True, **kw), g(None, init, f, h, N, sqrt=False, **kw))
    return run


def marginal(name, d, N, prior, noise):
    def run(ob):
        kw = {}
        if prior:
            kw["prior"] = prior_sym(2)
        if noise:
            kw["noise"] = spd("R", d)
        g = ob.get("ssm_parabola." + name)
        args = (L.vec("x", d), L.scal("delta"), L.fun("f", (d,)), L.fun("s", (d, d)), L.scal("h"), N)
        a = g(L.key(), *args, sqrt=True, **kw)
        regular(ob, f"{name} sqrt=True")
        b = g(L.key(), *args, sqrt=False, **kw)
        same_law(ob, "(point, brownian, levy)", list(a), list(b))
    return run


def obligations(tier):
    big = tier == "thorough"
    for n, k, N in [(1, 1, 1), (2, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1), (4, 2, 1), (4, 2, 2), (6, 3, 1)] + [(2, 1, N) for N in sizes.steps((3, 6, 40), 101)] + \
            [(4, k, 1) for k in (1, 3, 4)]:
        for uc in (False, True):
            yield f"filter n={n} k={k} N={N} uncertainty={uc}", filt(n, k, N, uc, "lower", "lower", "lower")
    for kp, kq, kr in [("full", "lower", "full"), ("zero", "lower", "zero"), ("deficient", "lower", "zero"),
                       ("full", "full", "zero")]:
        yield f"filter roots {kp}/{kq}/{kr}", filt(2, 1, 2, True, kp, kq, kr)
    for name in ("ekf0", "ekf1"):
        for d, N in [(1, 1), (1, 2), (2, 1), (2, 2)] + [(1, N) for N in sizes.steps((3, 6, 20), 101)] + \
                [(d, 1) for d in sizes.dims((3, 4, 7), 9, 20)]:
            for noise in (False, True):
                yield f"{name} d={d} N={N} noise={noise}", solver(name, d, N, 2, False, noise)
        for d, N, ns in [(1, 1, 3), (1, 2, 3), (1, 1, 4), (2, 1, 3)]:
            for noise in (False, True):
                yield f"{name} padded prior n_states={ns} d={d} N={N} noise={noise}", solver(name, d, N, ns, "padded", noise)
        for d, ns in [(2, 2), (2, 3), (3, 2)]:
            yield f"{name} prior n_states={ns} d={d}", solver(name, d, 1, ns, True, True)
        for ns in sizes.dims((2, 3, 4, 6), 9, 20):
            yield f"{name} prior n_states={ns}", solver(name, 1, 1, ns, True, True)
    for name in ("ekf0_2", "ekf1_2"):
        for d, N in [(1, 1), (1, 2), (2, 1), (2, 2)] + [(1, N) for N in sizes.steps((3, 6, 20), 101)] + \
                [(d, 1) for d in sizes.dims((3, 4, 7), 9, 20)]:
            for noise in (False, True):
                yield f"{name} d={d} N={N} noise={noise}", solver(name, d, N, 2, False, noise)
        yield f"{name} prior", solver(name, 2, 1, 2, True, True)
    for name in ("ekf0_marginal_parabola", "ekf1_marginal_parabola"):
        for d, N in [(1, 1), (1, 2), (2, 1), (3, 1)] + [(1, N) for N in sizes.steps((3, 6, 20), 101, 300)]:
            for prior, noise in [(False, False), (True, True)]:
                yield f"{name} d={d} N={N} prior={prior} noise={noise}", marginal(name, d, N, prior, noise)
