"""Absolute time: the user's coefficients are evaluated at the time of the step they belong to."""
from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .catalogue import bm_model
from .common import SEM, TRUST, prior_sym, wrapped, wrapped_det

EXPLAIN = SEM + (" Obligations: the time argument of every evaluation of the user's drift, diffusion or vector field "
                 "that reaches an output is collected from the value graph and compared with the set of times the "
                 "solver must use; the right hand side handed to the ODE solver is compared at an arbitrary inner time.")
RULE = ("step k of the SDE drivers evaluates drift and sigma at (z, k delta + t) for inner time t; Euler-Maruyama at "
        "k h; Euler at k h; the ODE filters at 0 for the initial derivative and at h, 2h, ..., N h for the "
        "observations; no evaluation at any other time reaches an output.")
ASSUME = TRUST
FLOOR = 30


def times_of(arrays, name):
    """fingerprint -> node of the last (time) argument of the evaluations of `name` reaching the arrays"""
    roots = [e for a in arrays for e in asarr(a).data.reshape(-1) if isinstance(e, (C.Num, C.Bo))]
    out = {}
    for n in C.reachable(roots):
        if isinstance(n, C.Sc) and n.op == "uf" and n.extra[0] == name:
            t = n.args[-1]
            out.setdefault(t.fp, (t, n))
    return out


def check_times(ob, arrays, name, want, exact=True):
    got = times_of(arrays, name)
    w = {C.prim(asarr(t).scalar()).fp: t for t in want}
    ob.facts += 1
    for fp, (t, n) in got.items():
        ob.require(fp in w, f"{name} is evaluated at time {C.show(t, 4)}, which is not one of the required times "
                            f"{[C.show(C.prim(asarr(x).scalar()), 3) for x in want]}", "time", n.site)
    if exact:
        for fp, t in w.items():
            ob.require(fp in got, f"{name} is never evaluated at time {C.show(C.prim(asarr(t).scalar()), 3)}", "time",
                       next((n.site for _, n in got.values()), None))


def check_rows(ob, rows, names, times):
    """row j of a trajectory is built from evaluations at times[0], ..., times[j], and at each of them"""
    N = len(rows)
    fps = [C.prim(asarr(t).scalar()).fp for t in times]
    for name in names:
        for j in range(min(N, 6)):
            check_times(ob, [rows[j]], name, times[:j + 1])
        seen, got, want = {}, set(), set()
        for j, r in enumerate(rows):
            want.add(fps[j])
            ob.facts += 1
            for n in C.reachable([e for e in asarr(r).data.reshape(-1) if isinstance(e, (C.Num, C.Bo))], seen):
                if isinstance(n, C.Sc) and n.op == "uf" and n.extra[0] == name:
                    got.add(n.args[-1].fp)
                    ob.require(n.args[-1].fp in want, f"entry {j + 1} of the trajectory uses {name} at time "
                                                      f"{C.show(n.args[-1], 4)}", "time", n.site)
            ob.require(fps[j] in got, f"entry {j + 1} of the trajectory does not use {name} at time "
                                      f"{C.show(C.prim(asarr(times[j]).scalar()), 4)}", "time")
        if N > 6:
            check_times(ob, [rows[-1]], name, times)


def k(i, h):
    return wrap(C.const(i)) * h


def rhs(d, m, N):
    """right hand side handed to the ODE solver in step k, at generic (z, t)"""
    def run(ob):
        delta, t = L.scal("delta"), L.scal("tau")
        z = L.vec("z", d)
        f, s = L.fun("f", (d,)), L.fun("s", (d, m))
        seen = []

        def ode_int(key, init, vector_field, T):
            v = vector_field(z, t)
            seen.append(v)
            return init + v
        r = ob.get("sde_solver.sde_solver")(key=L.key(), drift=f, sigma=s, x0=L.vec("x", d), bm=bm_model(m), delta=delta,
                                            N=N, ode_int=ode_int)
        traj = r[1]
        check_rows(ob, [traj[j + 1] for j in range(N)], "fs", [k(i, delta) + t for i in range(N)])
    return run


def rhs_ssm(d, N):
    def run(ob):
        delta, t = L.scal("delta"), L.scal("tau")
        z = L.vec("z", d)

        def solver(key, init, drift, diffusion, T):
            return init + drift(z, t) + diffusion(z, t) @ L.vec("w", d), z, z
        _, traj = ob.get("ssm_parabola.ssm_parabola_ode_solver")(
            key=L.key(), drift=L.fun("f", (d,)), sigma=L.fun("s", (d, d)), x0=L.vec("x", d), delta=delta, N=N,
            solver=solver)
        check_rows(ob, [traj[j + 1] for j in range(N)], "fs", [k(i, delta) + t for i in range(N)])
    return run


def em(d, m, N, pathwise):
    def run(ob):
        h = L.scal("h")
        a = (L.mat("w", N, m),) if pathwise else (L.key(),)
        name = "euler_maruyama_pathwise" if pathwise else "euler_maruyama"
        _, xs = ob.get("sde_solvers." + name)(*a, L.vec("x", d), L.fun("f", (d,)), L.fun("s", (d, m)), h, N)
        check_rows(ob, [xs[j + 1] for j in range(N)], "fs", [k(i, h) for i in range(N)])
    return run


def euler(d, N):
    def run(ob):
        h = L.scal("h")
        y = ob.get("ode_solvers.euler")(L.vec("x", d), L.fun("f", (d,)), h, N)
        check_times(ob, [y], "f", [k(i, h) for i in range(N)])
    return run


def ekf(name, d, N, sqrt, ns):
    def run(ob):
        h = L.scal("h")
        kw = {"sqrt": sqrt}
        if ns:
            kw["prior"] = prior_sym(ns * d)
        key = L.key()
        x = L.vec("x", d)
        init = (x, x, S.zeros(d, d)) if name.endswith("_2") else x
        if name.endswith("_2"):
            init = (x, x, L.lower("Pl", d) @ S.T(L.lower("Pl", d)))
        r = ob.get("ode_solvers." + name)(key, init, L.fun("f", (d,)), h, N, **kw)
        outs = list(r) if isinstance(r, tuple) else [r]
        check_times(ob, outs, "f", [k(i, h) for i in range(N + 1)])
    return run


def marginal(name, d, N, sqrt):
    def run(ob):
        h, delta = L.scal("h"), L.scal("delta")
        r = ob.get("ssm_parabola." + name)(L.key(), L.vec("x", d), delta, L.fun("f", (d,)), L.fun("s", (d, d)), h, N,
                                           sqrt=sqrt)
        for n in "fs":
            check_times(ob, list(r), n, [k(i, h) for i in range(N + 1)])
    return run


def substeps(solver, N, M):
    """inner grid of the composed method: k delta + j h"""
    def run(ob):
        delta = L.scal("delta")
        if solver == "euler":
            ode, first, last = wrapped_det(ob.get("ode_solvers.euler"), M), 0, M
        else:
            ode, first, last = wrapped(ob.get("ode_solvers." + solver), N=M, sqrt=True), 0, M + 1
        r = ob.get("sde_solver.sde_solver")(
            key=L.key(), drift=L.fun("f", (1,)), sigma=L.fun("s", (1, 1)), x0=L.vec("x", 1),
            bm=lambda: ob.get("foster_polynomial.get_approx")(dim=1), delta=delta, N=N, ode_int=ode)
        h = delta / wrap(C.const(M))
        for j in range(N):
            want = [k(i, delta) + k(l, h) for i in range(j + 1) for l in range(first, last)]
            for n in "fs":
                check_times(ob, [r[1][j + 1]], n, want)
    return run


def obligations(tier):
    big = tier == "thorough"
    rows = [(1, 1, 1), (2, 1, 3), (2, 3, 2), (3, 2, 6)] + [(1, 1, N) for N in sizes.steps((2, 17, 40), 101)] + \
        [(d, d, 2) for d in sizes.dims((4, 5, 9), 17, 64)]
    for d, m, N in rows:
        yield f"sde_solver right hand side d={d} m={m} N={N}", rhs(d, m, N)
        yield f"euler_maruyama d={d} m={m} N={N}", em(d, m, N, False)
        yield f"euler_maruyama_pathwise d={d} m={m} N={N}", em(d, m, N, True)
        yield f"ssm driver d={d} N={N}", rhs_ssm(d, N)
        yield f"euler d={d} N={N}", euler(d, N)
    for name in ("ekf0", "ekf1", "ekf0_2", "ekf1_2"):
        for sq in (False, True):
            for d, N in [(1, 1), (2, 2)] + [(1, N) for N in sizes.steps((2, 3, 12), 101)] + [(d, 1) for d in sizes.dims((3, 5, 9), 9, 20)]:
                yield f"{name} d={d} N={N} sqrt={sq}", ekf(name, d, N, sq, 0)
            if not name.endswith("_2"):
                for ns in (3, 4):
                    yield f"{name} n_states={ns} sqrt={sq}", ekf(name, 1, 2, sq, ns)
    for name in ("ekf0_marginal_parabola", "ekf1_marginal_parabola"):
        for sq in (False, True):
            for d, N in [(2, 1), (3, 1)] + [(1, N) for N in sizes.steps((2, 3, 12), 101)]:
                yield f"{name} d={d} N={N} sqrt={sq}", marginal(name, d, N, sq)
    for s in ("euler", "ekf0", "ekf1"):
        for N, M in ((2, 2), (1, 5), (4, 3)):
            yield f"sde_solver with {s} N={N} substeps={M}", substeps(s, N, M)
