"""Time grid and alignment of the returned trajectory and coefficients."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .catalogue import bm_model
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: each trajectory solver is interpreted with opaque one-step maps (an uninterpreted "
                 "ODE solver, drift and diffusion), array and tuple states, several numbers of steps.")
RULE = ("ts = (0, delta, ..., N delta); entry 0 of the trajectory is x0; entry k + 1 is what the step map returns from "
        "entry k; coefficient row k holds the coefficients used in step k; N + 1 and N entries respectively.")
ASSUME = TRUST
FLOOR = 24


def grid(delta, N):
    return S.stack([wrap(C.const(k)) * delta for k in range(N + 1)])


def check_grid(ob, ts, delta, N):
    ob.eq("time grid", ts, grid(delta, N))


def driver(d, m, N, nc):
    def run(ob):
        delta, x0 = L.scal("delta"), L.vec("x", d)
        steps = []
        bm0 = bm_model(m, nc)
        drawn = []

        def bm():
            g, e = bm0()

            def get(key, dt):
                c = g(key, dt)
                drawn.append(c)
                return c
            return get, e

        G = L.fun("G", (d,))

        def ode_int(key, init, vector_field, T):
            out = G(init, T, vector_field(init, wrap(C.ZERO)))
            steps.append((init, out))
            return out
        r = ob.get("sde_solver.sde_solver")(key=L.key(), drift=L.fun("f", (d,)), sigma=L.fun("s", (d, m)), x0=x0, bm=bm,
                                            delta=delta, N=N, ode_int=ode_int)
        if not ob.require(isinstance(r, tuple) and len(r) == 2 + nc, f"a tuple (ts, trajectory, {nc} coefficient arrays)"
                                                                     " must be returned", "shape"):
            return
        ts, traj, *coeffs = r
        check_grid(ob, ts, delta, N)
        ob.require(traj.shape == (N + 1, d), f"trajectory of shape {traj.shape}, required {(N + 1, d)}", "shape")
        ob.eq("trajectory[0]", traj[0], x0)
        before, seen, steps = set(), {}, recorded(steps)
        known = {tuple(C.prim(C.num(e)).fp for a in c for e in L.D(a).reshape(-1)) for c in drawn}
        for k in range(N):
            ob.require(stepped(steps, traj[k], traj[k + 1]), f"trajectory[{k + 1}] is not what the ODE solver returns "
                                                             f"from trajectory[{k}]", "order", site_of(traj[k + 1]))
            row = [coeffs[j][k] for j in range(nc)]
            ob.require(tuple(C.prim(C.num(e)).fp for a in row for e in L.D(a).reshape(-1)) in known,
                       f"row {k} of the coefficients is not one draw of the Brownian approximation", "order",
                       site_of(row[0]))
            now = set(L.draws_of(traj[k + 1], seen=seen))
            ob.require(now - before == set(L.draws_of(*row)), f"row {k} of the coefficients does not hold the "
                                                              f"coefficients used in step {k}", "order", site_of(row[0]))
            before |= now
        for j in range(nc):
            ob.require(coeffs[j].shape == (N, m), f"coefficients of shape {coeffs[j].shape}, required {(N, m)}", "shape")
    return run


def driver_tuple(d, N, leaves=3):
    """states (sample, mean, covariance) and, as any tuple of arrays is a state, tuples of other lengths"""
    def run(ob):
        delta = L.scal("delta")
        shapes = ((d,), (d,), (d, d), (d, 2), (3, d), (d,))[:leaves]
        x0 = tuple(L.vec(f"s{i}", *w) if len(w) == 1 else L.mat(f"s{i}", *w) for i, w in enumerate(shapes))
        G = [L.fun(f"G{i}", w) for i, w in enumerate(shapes)]

        def ode_int(key, init, vector_field, T):
            v = vector_field(init[min(1, leaves - 1)], wrap(C.ZERO))
            return tuple(g(*init, T, v) for g in G)
        seen = []

        def rec(key, init, vector_field, T):
            r = ode_int(key, init, vector_field, T)
            seen.append((init, r))
            return r
        ts, traj, *co = ob.get("sde_solver.sde_solver")(key=L.key(), drift=L.fun("f", (d,)), sigma=L.fun("g", (d, 1)),
                                                        x0=x0, bm=bm_model(1), delta=delta, N=N, ode_int=rec)
        check_grid(ob, ts, delta, N)
        if not ob.require(isinstance(traj, tuple) and len(traj) == leaves, "a tuple state must give a tuple of trajectories",
                          "shape"):
            return
        seen = recorded(seen)
        for k in range(N):
            ob.require(stepped(seen, tuple(c[k] for c in traj), tuple(c[k + 1] for c in traj)),
                       f"entry {k + 1} of the trajectories is not what the ODE solver returns from entry {k}", "order",
                       site_of(traj[0][k + 1]))
        for c in range(leaves):
            ob.eq(f"trajectory[{c}][0]", traj[c][0], x0[c])
            ob.require(traj[c].shape == (N + 1,) + x0[c].shape, f"trajectory of shape {traj[c].shape}", "shape")
    return run


def ssm(d, N):
    def run(ob):
        delta, x0 = L.scal("delta"), L.vec("x", d)
        G = L.fun("G", (d,))
        seen = []

        def solver(key, init, drift, diffusion, T):
            out = G(init, T, drift(init, wrap(C.ZERO)))
            seen.append((init, out))
            return out, L.vec("w", d), L.vec("l", d)
        ts, traj = ob.get("ssm_parabola.ssm_parabola_ode_solver")(
            key=L.key(), drift=L.fun("f", (d,)), sigma=L.fun("g", (d, d)), x0=x0, delta=delta, N=N, solver=solver)
        check_grid(ob, ts, delta, N)
        ob.eq("trajectory[0]", traj[0], x0)
        ob.require(traj.shape == (N + 1, d), f"trajectory of shape {traj.shape}", "shape")
        seen = recorded(seen)
        for k in range(N):
            ob.require(stepped(seen, traj[k], traj[k + 1]), f"trajectory[{k + 1}] is not what the solver returns from "
                                                            f"trajectory[{k}]", "order", site_of(traj[k + 1]))
    return run


def scheme(name, d, N):
    def run(ob):
        h, x0 = L.scal("h"), L.vec("x", d)
        zero = lambda *a: S.zeros(d)
        calls = []
        f = L.fun("f", (d,))

        def drift(*a):
            calls.append(a)
            return f(*a)
        s0 = lambda *a: S.zeros(d, d)
        if name == "euler_maruyama_pathwise":
            ts, xs = ob.get("sde_solvers." + name)(L.mat("w", N, d), x0, drift, s0, h, N)
        elif name == "euler_maruyama":
            ts, xs = ob.get("sde_solvers." + name)(L.key(), x0, drift, s0, h, N)
        else:
            ts, xs = ob.get("sde_solvers." + name)(L.key(), x0, zero, hypo(d) if "hypo" in name else eye(d), h, N)
        check_grid(ob, ts, h, N)
        ob.require(xs.shape == (N + 1, d), f"trajectory of shape {xs.shape}, required {(N + 1, d)}", "shape")
        ob.eq("trajectory[0]", xs[0], x0)
        if name.startswith("euler"):
            for k in range(N):
                ob.eq(f"trajectory[{k + 1}]", xs[k + 1], xs[k] + h * f(xs[k], wrap(C.const(k)) * h))
        else:
            # driftless with constant diffusion: the increments are those of a random walk, one block of draws per step
            for k in range(N):
                law = S.Law([xs[k + 1] - xs[k]])
                moved = {tuple(a.extra[1][:3]) for a in law.moved()}
                old = {tuple(a.extra[1][:3]) for a in S.Law([xs[k]]).atoms}
                ob.require(moved and not (moved & old), f"entry {k + 1} is not entry {k} advanced by one step", "order",
                           site_of(xs[k + 1]))
    return run


def stepped(calls, a, b):
    """some recorded one-step solve leads from a to b"""
    return L.fp_key((a, b)) in calls


def recorded(calls):
    return {L.fp_key(c) for c in calls}


def site_of(a):
    return next((C.prim(e).site for e in a.data.reshape(-1) if isinstance(e, C.Num) and isinstance(C.prim(e), C.Sc)),
                None)


def eye(d):
    return lambda x: S.eye(d)


def hypo(d):
    o = np.empty((d, d), dtype=object)
    o[...] = C.ZERO
    for k in range(d - 1):
        o[k + 1, k] = C.ONE
    return lambda x: Arr(o.copy())


def obligations(tier):
    big = tier == "thorough"
    for N in sizes.steps((1, 2, 3, 5, 17, 40), 140 if big else 101):
        if N > 20:
            yield f"sde_solver d=1 m=1 N={N} coefficients=2", driver(1, 1, N, 2)
            yield f"sde_solver tuple state d=1 N={N}", driver_tuple(1, N)
            yield f"ssm_parabola_ode_solver d=1 N={N}", ssm(1, N)
            continue
        for d, m, nc in [(1, 1, 2), (2, 1, 3), (3, 2, 2), (2, 3, 1), (2, 2, 4)]:
            yield f"sde_solver d={d} m={m} N={N} coefficients={nc}", driver(d, m, N, nc)
        for d in sizes.dims((1, 2, 4), 17, 64) if N in (1, 2) else (1, 2):
            yield f"sde_solver tuple state d={d} N={N}", driver_tuple(d, N)
            yield f"ssm_parabola_ode_solver d={d} N={N}", ssm(d, N)
    for leaves in (1, 2, 4, 5, 6):
        for N in (1, 3):
            yield f"sde_solver tuple state of {leaves} d=2 N={N}", driver_tuple(2, N, leaves)
    for name in ("euler_maruyama", "euler_maruyama_pathwise", "diag_15_scheme", "hypoelliptic_diffusion_15_scheme"):
        for N in sizes.steps((1, 3, 17), 101 if name.startswith("euler") else 17, 2050 if name.startswith("euler") else 260):
            yield f"{name} N={N}", scheme(name, 2, N)
        for d in sizes.dims((3, 5), 17, 64):
            yield f"{name} d={d}", scheme(name, d, 2)
