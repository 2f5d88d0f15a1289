"""Order 1.5 scheme for hypoelliptic diffusions."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: the one-step law at a generic state for uninterpreted drift and diffusion (first row zero); the "
                 "joint law of the whole trajectory for linear drifts with additive noise over several steps; the chain of "
                 "drift updates along the trajectory; the time grid.")
RULE = ("x_{k+1} | x_k ~ N(x + h f + h^2/2 J_f f + h^2/4 sum_ij (s s^T)_ij d_ij f, C), C = [[g G g^T h^3/3, g G h^2/2], [., G h]]"
        ", g = d f_0 / d(x_1..), G = Gamma Gamma^T the noise covariance of the rough coordinates; independent over steps.")
ASSUME = TRUST
FLOOR = 8


def sigma_of(G, d):
    """square diffusion matrix with zero first row, given the (d-1) x d block Gamma"""
    def s(x):
        g = asarr(G(x)).data
        o = np.empty((d, d), dtype=object)
        o[...] = C.ZERO
        o[1:, :] = g
        return Arr(o)
    return s


def moments(f, s, x, h, d):
    J, H = S.jac(f, x), S.hess(f, x)
    sg = s(x)
    SS = sg @ S.T(sg)
    fv = f(x)
    tr = []
    for k in range(d):
        v = wrap(C.ZERO)
        for i in range(d):
            for j in range(d):
                v = v + SS[i, j] * H[k, i, j]
        tr.append(v)
    mean = x + h * fv + h ** 2 / 2 * (J @ fv) + h ** 2 / 4 * S.stack(tr)
    g = J[0:1, 1:]
    G = SS[1:, 1:]
    gG = g @ G
    cov = S.jnp("block")([[gG @ S.T(g) * h ** 3 / 3, gG * h ** 2 / 2], [S.T(gG) * h ** 2 / 2, G * h]])
    return mean, cov


def gamma(kind, d):
    if kind == "diagonal":
        v = L.fun("g", (d - 1,))

        def G(x):
            o = np.empty((d - 1, d), dtype=object)
            o[...] = C.ZERO
            for k, e in enumerate(v(x).data):
                o[k, k] = e
            return Arr(o)
        return G
    if kind == "full":
        return L.fun("g", (d - 1, d))
    m = L.mat("g", d - 1, d)
    return lambda x: m


def one_step(d, kind):
    def run(ob):
        h, x = L.scal("h"), L.vec("x", d)
        f, s = L.fun("f", (d,)), sigma_of(gamma(kind, d), d)
        ts, xs = ob.get("sde_solvers.hypoelliptic_diffusion_15_scheme")(L.key(), x, f, s, h, 1)
        m, c = moments(f, s, x, h, d)
        ob.eq("initial value", xs[0], x)
        S.check_law(ob, "one step", [xs[1]], m, c)
        ob.eq("time grid", ts, S.stack([0 * h, h]))
    return run


def several(d, N):
    """linear drift and additive noise: joint Gaussian law of the trajectory"""
    def run(ob):
        h, x = L.scal("h"), L.vec("x", d)
        M, c = L.mat("M", d, d), L.vec("c", d)
        f = lambda z: M @ z + c
        s = sigma_of(gamma("constant", d), d)
        ts, xs = ob.get("sde_solvers.hypoelliptic_diffusion_15_scheme")(L.key(), x, f, s, h, N)
        T = S.eye(d) + h * M + h ** 2 / 2 * (M @ M)
        _, c1 = moments(f, s, x, h, d)
        means, m = [], x
        for k in range(N):
            m = moments(f, s, m, h, d)[0]
            means.append(m)
        cov = [[None] * N for _ in range(N)]
        for i in range(N):
            cov[i][i] = c1 if i == 0 else T @ cov[i - 1][i - 1] @ S.T(T) + c1
            for j in range(i - 1, -1, -1):
                cov[i][j] = T @ cov[i - 1][j]
                cov[j][i] = S.T(cov[i][j])
        S.check_law(ob, "trajectory", [xs[k + 1] for k in range(N)], S.concat(means), S.jnp("block")(cov))
        ob.eq("time grid", ts, S.stack([wrap(C.const(k)) * h for k in range(N + 1)]))
    return run


def chained(d, N):
    """state dependent coefficients over several steps: x_{k+1} - mean(x_k) is a root of the covariance at x_k applied to the
    draws of step k; decided by conditioning on the draws of the earlier steps"""
    def run(ob):
        h, x = L.scal("h"), L.vec("x", d)
        f, s = L.fun("f", (d,)), sigma_of(gamma("diagonal", d), d)
        ts, xs = ob.get("sde_solvers.hypoelliptic_diffusion_15_scheme")(L.key(), x, f, s, h, N)
        seen = set()
        for k in range(N):
            m, c = moments(f, s, xs[k], h, d)
            r = xs[k + 1] - m
            now = [a for a in L.atoms_of_draws(list(r.data)) if a.extra not in seen]
            from ..lib import affine
            from .. import field as F
            c0, cols, exact = affine_in(list(r.data), now)
            site = C.prim(xs[k + 1].data[0]).site
            if ob.require(exact, f"step {k + 1} is not affine in its own draws", "law", site):
                for i in range(d):
                    ob.require(c0[i] == 0, f"step {k + 1}: wrong conditional mean of component {i}", "law", site)
                    for j in range(i + 1):
                        v = 0
                        for col in cols:
                            v = F.add(v, F.mul(col[i], col[j]))
                        ob.require(v == C.prim(C.num(c.data[i, j])).fp,
                                   f"step {k + 1}: wrong conditional covariance of components {i}, {j}", "law", site)
            seen |= {a.extra for a in L.atoms_of_draws(list(xs[k + 1].data))}
    return run


def affine_in(roots, atoms):
    """coefficients of the given draws, the other draws being left generic"""
    from .. import field as F
    zero = {a.extra: C.ZERO for a in atoms}
    c0 = C.reeval(roots, zero)
    base = C.reeval(roots, {})
    cols, s = [], list(c0)
    for a in atoms:
        v = C.reeval(roots, {**zero, a.extra: C.ONE})
        col = [F.add(p, F.neg(q)) for p, q in zip(v, c0)]
        cols.append(col)
        s = [F.add(t, F.mul(a.fp, q)) for t, q in zip(s, col)]
    return c0, cols, s == list(base)


def obligations(tier):
    big = tier == "thorough"
    for d, kind in [(2, "diagonal"), (2, "full"), (3, "diagonal"), (3, "full"), (3, "constant"), (4, "full"), (5, "diagonal")]:
        yield f"one step d={d} {kind} noise", one_step(d, kind)
    for d, N in [(2, 1), (2, 2), (2, 3), (3, 2), (3, 4), (4, 2)] + [(2, N) for N in sizes.steps((4, 8), 20, 60)]:
        yield f"linear drift d={d} N={N}", several(d, N)
    for d, N in [(2, 2), (3, 2)] + ([(2, 3)] if big else []):
        yield f"state dependent coefficients d={d} N={N}", chained(d, N)
