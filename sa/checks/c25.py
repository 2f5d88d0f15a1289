"""Calibration of the diffusion of the prior."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .common import SEM, TRUST, prior_sym, spd

EXPLAIN = SEM + (" Obligations: mle_diffusion on generic innovations and symmetric positive covariances against the closed form "
                 "and against the stationarity of the Gaussian log-likelihood; the scaling law that makes the estimate meaningful: "
                 "scaling the covariance of a noise-free prior by c^2 leaves the mean of ekf0, ekf1, ekf0_2, ekf1_2 unchanged and "
                 "scales posterior and innovation covariance by c^2; the chain filter -> return_all -> estimate.")
RULE = ("estimate = sum_k z_k^T S_k^-1 z_k / (N d); it zeroes the derivative of sum_k log N(z_k; 0, s S_k) in s; estimate(z, c^2 S)"
        " = estimate(z, S) / c^2; means are invariant and covariances scale with the prior diffusion.")
ASSUME = TRUST
FLOOR = 20


def data(N, d):
    z = L.mat("z", N, d)
    Ss = [spd(f"S{k}", d) for k in range(N)]
    return z, Ss, Arr(np.stack([s.data for s in Ss]))


def quad(z, S_):
    return (z[None] @ S.inv_solve(S_, z[:, None]))[0, 0]


def value(N, d, kind):
    def run(ob):
        z, Ss, st = data(N, d)
        g = ob.get("ode_solvers.probnum.calibration.mle_diffusion")
        got = g(Arr(z.data, "float", kind), Arr(st.data, "float", kind))
        tot = wrap(C.ZERO)
        for k in range(N):
            tot = tot + quad(z[k], Ss[k])
        ob.eq("estimate", got, tot / (N * d))
        ob.require(asarr(got).shape == (), f"estimate of shape {asarr(got).shape}", "shape")
        c = L.scal("c")
        ob.eq("estimate with scaled covariances", g(z, st * (c * c)), got / (c * c))
        ob.eq("estimate with scaled innovations", g(z * c, st), got * (c * c))

        def dl(s):  # -2 d/ds of the log-likelihood, up to a positive factor: N d / s - tot / s^2
            return N * d / s - tot / (s * s)
        ob.eq("score at the estimate", dl(got), wrap(C.ZERO))
    return run


def scaled(name, d, N, sqrt, ns):
    def run(ob):
        f, h, x, c = L.fun("f", (d,)), L.scal("h"), L.vec("x", d), L.scal("c")
        CTX.positive_atoms.add(C.prim(c.scalar()).extra)
        xi, Q, A = prior_sym(ns * d)
        g = ob.get("ode_solvers." + name)
        pa, pb = (xi, Q, A), (xi, Q * (c * c), A)
        if name.endswith("_2"):
            init = (x, x, S.zeros(d, d))
            a, aa = g(None, init, f, h, N, sqrt=sqrt, prior=pa, return_all=True)
            b, bb = g(None, init, f, h, N, sqrt=sqrt, prior=pb, return_all=True)
            ob.eq("mean", b[1], a[1])
            ob.eq("covariance", b[2], a[2] * (c * c))
            ob.eq("innovation covariance", bb[3], aa[3] * (c * c))
            ob.eq("innovation", bb[4], aa[4])
            st = lambda r: Arr(np.stack([asarr(r).data]))
            mle = ob.get("ode_solvers.probnum.calibration.mle_diffusion")
            ob.eq("estimate from return_all", mle(st(bb[4]), st(bb[3])) * (c * c), mle(st(aa[4]), st(aa[3])))
            return
        ob.eq("mean", g(None, x, f, h, N, sqrt=sqrt, prior=pb), g(None, x, f, h, N, sqrt=sqrt, prior=pa))
        la, lb = (S.Law([g(L.key(), x, f, h, N, sqrt=sqrt, prior=p)]) for p in (pa, pb))
        from .. import field as F
        site = next((C.prim(r).site for r in lb.roots if isinstance(C.prim(r), C.Sc)), None)
        c2 = C.prim(C.num((c * c).scalar())).fp
        for i in range(d):
            for j in range(i + 1):
                ob.require(lb.cov(i, j) == F.mul(c2, la.cov(i, j)),
                           f"posterior covariance ({i}, {j}) does not scale with the prior", "law", site)
    return run


def obligations(tier):
    big = tier == "thorough"
    for N, d in [(1, 1), (1, 2), (3, 2), (2, 3), (5, 2), (2, 4)] + [(N, 1) for N in sizes.steps((2, 12, 40), 101)] + \
            [(2, d) for d in sizes.dims((5, 9), 9, 20)]:
        yield f"estimate N={N} d={d}", value(N, d, "jnp")
    yield "estimate numpy", value(2, 2, "np")
    for name in ("ekf0", "ekf1", "ekf0_2", "ekf1_2"):
        for sqrt in (False, True):
            for d, N in [(1, 1), (2, 1), (2, 2), (3, 1)] + [(1, N) for N in sizes.steps((2, 3, 8), 101)]:
                yield f"{name} scaled prior d={d} N={N} sqrt={sqrt}", scaled(name, d, N, sqrt, 2)
            if not name.endswith("_2"):
                yield f"{name} scaled prior n_states=3 sqrt={sqrt}", scaled(name, 1, 1, sqrt, 3)
