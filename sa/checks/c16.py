"""Algorithm 4: Brownian coefficients marginalised inside the state."""
import numpy as np

from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST, prior_sym, sg, spd, times

EXPLAIN = SEM + (" Obligations: joint law of (point, Brownian increment, area coefficient) returned by the marginal parabola "
                 "filters against the specification filter on the extended state; key=None; defaults; wiring of the driver.")
RULE = ("per coordinate the state is (x, x', w, i); initial mean (x, f(x,0), 0, 0), w ~ N(0, delta), i ~ N(0, delta/2) "
        "independent and x' = f + s (w + sqrt(6) i)/delta; w and i are constant in time; observation x' - f(x,t) - s(x,t)"
        " (w + sqrt(6)(1 - 2t/delta) i)/delta at h..N h; EKF0 drops the derivative in x only; sample ~ posterior.")
ASSUME = TRUST
FLOOR = 20


def spec(name, f, s, x, delta, h, N, prior, noise):
    d = x.shape[0]
    z = wrap(C.ZERO)
    s6 = S.sqrt(wrap(C.const(6)))
    s0 = s(x, z)
    n = 4 * d
    m = S.interlace([x, f(x, z), S.zeros(d), S.zeros(d)])
    # linear map from independent (w, i) to the state
    B = np.empty((n, 2 * d), dtype=object)
    B[...] = C.ZERO
    for r in range(d):
        for c in range(d):
            B[4 * r + 1, c] = (s0[r, c] / delta).data[()]
            B[4 * r + 1, d + c] = (s6 * s0[r, c] / delta).data[()]
        B[4 * r + 2, r] = C.ONE
        B[4 * r + 3, d + r] = C.ONE
    B = Arr(B)
    import sa.jx as jx
    D = jx.REG["jax.scipy.linalg.block_diag"](delta * S.eye(d), delta / 2 * S.eye(d))
    P = B @ D @ S.T(B)
    xi1, Q1, A1 = S.ibm(1, h, 1) if prior is None else prior
    xi = np.empty((n,), dtype=object)
    A = np.empty((n, n), dtype=object)
    Q = np.empty((n, n), dtype=object)
    for a in (xi, A, Q):
        a[...] = C.ZERO
    for r in range(d):
        for i in range(2):
            xi[4 * r + i] = xi1.data[i]
            A[4 * r + 2 + i, 4 * r + 2 + i] = C.ONE
            for j in range(2):
                A[4 * r + i, 4 * r + j] = A1.data[i, j]
                Q[4 * r + i, 4 * r + j] = Q1.data[i, j]

    def obs(v, t):
        p = sg(v[::4]) if name.startswith("ekf0") else v[::4]
        return v[1::4] - f(p, t) - s(p, t) @ ((v[2::4] + s6 * (1 - 2 * t / delta) * v[3::4]) / delta)
    R = S.zeros(d, d) if noise is None else noise
    m, P, _, _ = S.ekf(m, P, obs, Arr(A), Arr(Q), Arr(xi), R, times(h, N))
    return m, P


def pick(m, P, d):
    idx = [4 * i for i in range(d)] + [4 * i + 2 for i in range(d)] + [4 * i + 3 for i in range(d)]
    return Arr(m.data[idx]), Arr(P.data[np.ix_(idx, idx)])


def one(name, d, N, prior, noise, sqrt, tie=False):
    def run(ob):
        f, s, x = L.fun("f", (d,)), L.fun("s", (d, d)), L.vec("x", d)
        delta, h = L.scal("delta"), L.scal("h")
        if tie:  # the documented use: N substeps of the same step
            h = delta / wrap(C.const(N))
        kw = {} if sqrt is None else {"sqrt": sqrt}
        if prior:
            kw["prior"] = prior_sym(2)
        if noise:
            kw["noise"] = spd("R", d)
        g = ob.get("ssm_parabola." + name)
        m, P = spec(name, f, s, x, delta, h, N, kw.get("prior"), kw.get("noise"))
        m, P = pick(m, P, d)
        r = g(L.key(), x, delta, f, s, h, N, **kw)
        for v in r:
            ob.require(v.shape == (d,), f"output of shape {v.shape}, required {(d,)}", "shape")
        S.check_law(ob, "(point, brownian, levy)", list(r), m, P)
        q = g(None, x, delta, f, s, h, N, **kw)
        ob.eq("key=None", S.concat(list(q)), m)
    return run


def driver(d, N):
    """shifted coefficients, initial value, horizon and chaining of ssm_parabola_ode_solver"""
    def run(ob):
        delta, t, z = L.scal("delta"), L.scal("tau"), L.vec("z", d)
        f, s, G = L.fun("f", (d,)), L.fun("s", (d, d)), L.fun("G", (d,))
        calls = []

        def solver(key, init, drift, diffusion, T):
            a, b = drift(z, t), diffusion(z, t)
            out = G(init, T, a, b)
            calls.append((init, a, b, T, out))
            return out, z, z
        _, traj = ob.get("ssm_parabola.ssm_parabola_ode_solver")(key=L.key(), drift=f, sigma=s, x0=L.vec("x", d),
                                                                 delta=delta, N=N, solver=solver)
        made = L.by_value(calls, lambda q: q[4])
        for k in range(N):
            call = made.get(L.fp_key(traj[k + 1]))
            if not ob.require(call is not None, f"trajectory[{k + 1}] is not the point returned by the solver", "order"):
                continue
            tk = wrap(C.const(k)) * delta
            ob.eq(f"initial value of step {k}", call[0], traj[k])
            ob.eq(f"drift of step {k}", call[1], f(z, t + tk))
            ob.eq(f"diffusion of step {k}", call[2], s(z, t + tk))
            ob.eq(f"horizon of step {k}", call[3], delta)
    return run


def end_to_end(name, N):
    def run(ob):
        d = 1
        f, s, x, delta = L.fun("f", (d,)), L.fun("s", (d, d)), L.vec("x", d), L.scal("delta")
        g = ob.get("ssm_parabola." + name)
        _, traj = ob.get("ssm_parabola.ssm_parabola_ode_solver")(
            key=L.key(), drift=f, sigma=s, x0=x, delta=delta, N=N,
            solver=lambda key, init, drift, diffusion, T: g(None, init=init, delta=T, drift=drift, diffusion=diffusion,
                                                            h=T, N=1, sqrt=True))
        y = x
        for k in range(N):
            tk = wrap(C.const(k)) * delta
            m, P = spec(name, lambda q, t: f(q, t + tk), lambda q, t: s(q, t + tk), y, delta, delta, 1, None, None)
            y = m[::4]
            ob.eq(f"trajectory[{k + 1}]", traj[k + 1], y)
    return run


def obligations(tier):
    for name in ("ekf0_marginal_parabola", "ekf1_marginal_parabola"):
        for sqrt in (None, False, True):
            for d, N in [(1, 1), (2, 1), (2, 2)] + [(1, N) for N in sizes.steps((2, 3, 12), 101, 300)] + \
                    [(d, 1) for d in sizes.dims((3,), 5, 9)]:
                for prior, noise in [(False, False), (True, True)]:
                    yield f"{name} d={d} N={N} prior={prior} noise={noise} sqrt={sqrt}", \
                        one(name, d, N, prior, noise, sqrt)
            yield f"{name} substeps of one step sqrt={sqrt}", one(name, 1, 2, False, False, sqrt, True)
        for N in (1, 2, 3):
            yield f"{name} in the driver N={N}", end_to_end(name, N)
    for d, N in [(2, 2), (3, 2), (4, 1)] + [(1, N) for N in sizes.steps((1, 3, 12, 40), 101)]:
        yield f"driver d={d} N={N}", driver(d, N)
