"""The random ODE that sde_solver hands to the ODE solver."""
from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .catalogue import bm_model
from .common import SEM, TRUST, wrapped_det

EXPLAIN = SEM + (" Obligations: the vector field received by an opaque ODE solver is compared at a generic state and "
                 "inner time for every step, with an uninterpreted Brownian approximation; initial value, horizon and "
                 "the step length given to the approximation; end-to-end recurrence with the Euler solver.")
RULE = ("v_k(z, t) = drift(z, t + k delta) + sigma(z, t + k delta) @ d/dt path(t, delta, coefficients_k); init = state k; "
        "T = delta; coefficients_k = get_coeffs(key_k, delta).")
ASSUME = TRUST
FLOOR = 15


def wiring(d, m, N, nc):
    def run(ob):
        delta, t, z = L.scal("delta"), L.scal("tau"), L.vec("z", d)
        f, s = L.fun("f", (d,)), L.fun("s", (d, m))
        G = L.fun("G", (d,))
        calls, dts = [], []
        bm0 = bm_model(m, nc)

        def bm():
            g, e = bm0()

            def get(key, dt):
                dts.append(dt)
                return g(key, dt)
            return get, e

        def ode_int(key, init, vector_field, T):
            v = vector_field(z, t)
            out = G(init, T, v)
            calls.append((init, T, v, out))
            return out
        r = ob.get("sde_solver.sde_solver")(key=L.key(), drift=f, sigma=s, x0=L.vec("x", d), bm=bm, delta=delta, N=N,
                                            ode_int=ode_int)
        traj, coeffs = r[1], r[2:]
        for x in dts:
            ob.eq("length given to the Brownian approximation", x, delta)
        path = L.fun("path", (m,))
        made = L.by_value(calls, lambda q: q[3])
        for k in range(N):
            c = [co[k] for co in coeffs]
            call = made.get(L.fp_key(traj[k + 1]))
            if not ob.require(call is not None, f"trajectory[{k + 1}] is not an output of the ODE solver", "order"):
                continue
            tk = wrap(C.const(k)) * delta
            dB = jx.REG["jax.jacfwd"](lambda q: path(q, delta, *c))(t)
            ob.eq(f"vector field of step {k}", call[2], f(z, t + tk) + s(z, t + tk) @ dB)
            ob.eq(f"horizon of step {k}", call[1], delta)
            ob.eq(f"initial value of step {k}", call[0], traj[k])
    return run


def end_to_end(d, m, N, M, approx):
    """recurrence of the parabola-ODE method with M Euler substeps"""
    def run(ob):
        delta, x0 = L.scal("delta"), L.vec("x", d)
        f, s = L.fun("f", (d,)), L.fun("s", (d, m))
        kw = {} if approx == "get_approx" else {"N": 2}
        r = ob.get("sde_solver.sde_solver")(
            key=L.key(), drift=f, sigma=s, x0=x0, bm=lambda: ob.get("foster_polynomial." + approx)(dim=m, **kw),
            delta=delta, N=N, ode_int=wrapped_det(ob.get("ode_solvers.euler"), M))
        traj, a, b = r[1], r[2], r[3]
        h = delta / wrap(C.const(M))
        s6 = S.sqrt(wrap(C.const(6)))
        x = x0
        for k in range(N):
            for j in range(M):
                u = wrap(C.const(j)) * h
                t = wrap(C.const(k)) * delta + u
                dB = a[k] / delta + s6 * b[k] * (1 - 2 * u / delta) / delta
                x = x + h * (f(x, t) + s(x, t) @ dB)
            ob.eq(f"trajectory[{k + 1}]", traj[k + 1], x)
    return run


def order_of_args(kwonly):
    """key first, then init, vector_field and T by name: the calling convention of the wrappers in tests and scripts"""
    def run(ob):
        seen = []

        def ode_int(key, init, vector_field, T):
            seen.append((key, init, vector_field, T))
            return init
        ob.get("sde_solver.sde_solver")(L.key(), L.fun("f", (1,)), L.fun("s", (1, 1)), L.vec("x", 1), bm_model(1),
                                        L.scal("delta"), 1, ode_int)
        k, i, v, t = seen[-1]
        ob.require(isinstance(k, Arr) and k.dt == "key", "the first argument of the ODE solver is not a key", "call")
        ob.require(callable(v), "vector_field is not callable", "call")
        ob.eq("T", t, L.scal("delta"))
    return run


def obligations(tier):
    big = tier == "thorough"
    for d, m, N, nc in [(1, 1, 1, 2), (2, 1, 2, 2), (2, 3, 2, 3), (3, 2, 3, 2), (2, 2, 2, 4), (1, 1, 4, 1), (4, 4, 6, 2)] + \
            [(1, 1, N, 2) for N in sizes.steps((2, 12, 40), 101)] + [(d, 2, 2, 2) for d in sizes.dims((5, 17), 17, 64)]:
        yield f"wiring d={d} m={m} N={N} coefficients={nc}", wiring(d, m, N, nc)
    for ap in ("get_approx", "get_approx_and_brownian", "get_approx_fine"):
        for d, m, N, M in [(1, 1, 2, 1), (2, 1, 1, 2), (2, 2, 1, 1), (3, 2, 1, 1), (2, 1, 2, 2), (1, 1, 5, 4), (1, 1, 1, 12)]:
            yield f"Euler substeps {ap} d={d} m={m} N={N} M={M}", end_to_end(d, m, N, M, ap)
    yield "calling convention", order_of_args(True)
