"""Euler-Maruyama and Euler recurrences."""
import numpy as np

from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: for each configuration (d, m, N) the whole trajectory returned by euler_maruyama, "
                 "euler_maruyama_pathwise (both scalings) and ode_solvers.euler against the recurrence, and the law "
                 "of the increments euler_maruyama consumes, obtained with a probe (zero drift, identity diffusion).")
RULE = ("x_{k+1} = x_k + h f(x_k, k h) + s(x_k, k h) dW_k for every k; dW_k = incs_k, or sqrt(h) incs_k when "
        "standard; the dW_k drawn from the key are jointly N(0, h I); Euler: y_{k+1} = y_k + h f(y_k, k h).")
ASSUME = TRUST
FLOOR = 14


def increments(ob, m, N, h, key):
    """the increments the solver draws, for an m dimensional Brownian motion: probe with dx = dW"""
    em = ob.get("sde_solvers.euler_maruyama")
    _, ws = em(key, S.zeros(m), lambda x, t: S.zeros(m), lambda x, t: S.eye(m), h, N)
    return [ws[k + 1] - ws[k] for k in range(N)]


def path(init, f, s, h, dW):
    xs, x = [init], init
    for k, w in enumerate(dW):
        t = wrap(C.const(k)) * h
        x = x + h * f(x, t) + s(x, t) @ w
        xs.append(x)
    return S.stack(xs)


def em(d, m, N):
    def run(ob):
        h, key, x0 = L.scal("h"), L.key(), L.vec("x", d)
        f, s = L.fun("f", (d,)), L.fun("s", (d, m))
        dW = increments(ob, m, N, h, key)
        S.check_law(ob, "increments", dW, S.zeros(N * m), S.scaled_eye(N * m, h))
        ts, xs = ob.get("sde_solvers.euler_maruyama")(key, x0, f, s, h, N)
        ob.eq("trajectory", xs, path(x0, f, s, h, dW))
        ob.eq("time grid", ts, S.stack([wrap(C.const(k)) * h for k in range(N + 1)]))
    return run


def pathwise(d, m, N, standard, kind="jnp"):
    def run(ob):
        h, x0 = L.scal("h"), L.vec("x", d)
        f, s = L.fun("f", (d,)), L.fun("s", (d, m))
        incs = L.mat("w", N, m)
        given = Arr(np.array(incs.data), "float", kind)
        kw = {} if standard is None else {"standard": standard}
        ts, xs = ob.get("sde_solvers.euler_maruyama_pathwise")(given, x0, f, s, h, N, **kw)
        sc = S.sqrt(h) if standard else wrap(C.ONE)
        ob.eq("trajectory", xs, path(x0, f, s, h, [sc * incs[k] for k in range(N)]))
        ob.eq("time grid", ts, S.stack([wrap(C.const(k)) * h for k in range(N + 1)]))
    return run


def euler(d, N):
    def run(ob):
        h, x0, f = L.scal("h"), L.vec("x", d), L.fun("f", (d,))
        y = ob.get("ode_solvers.euler")(x0, f, h, N)
        x = x0
        for k in range(N):
            x = x + h * f(x, wrap(C.const(k)) * h)
        ob.eq("final value", y, x)
    return run


def euler_any(shape, N):
    """initial values of any shape, steps of any sign"""
    def run(ob):
        h, x0, f = L.scal("step"), L.tens("x", *shape), L.fun("f", shape)
        y = ob.get("ode_solvers.euler")(x0, f, h, N)
        x = x0
        for k in range(N):
            x = x + h * f(x, wrap(C.const(k)) * h)
        ob.eq("final value", y, x)
    return run


def additive(d, m, N):
    """state independent diffusion and linear drift: exercises deeper horizons"""
    def run(ob):
        h, key, x0 = L.scal("h"), L.key(), L.vec("x", d)
        M, G = L.mat("M", d, d), L.mat("G", d, m)
        dW = increments(ob, m, N, h, key)
        ts, xs = ob.get("sde_solvers.euler_maruyama")(key, x0, lambda x, t: M @ x, lambda x, t: G, h, N)
        ob.eq("trajectory", xs, path(x0, lambda x, t: M @ x, lambda x, t: G, h, dW))
        S.check_law(ob, "increments", dW, S.zeros(N * m), S.scaled_eye(N * m, h))
    return run


def obligations(tier):
    big = tier == "thorough"
    for d, m, N in [(1, 1, 1), (2, 1, 3), (2, 3, 2), (3, 2, 2), (3, 3, 3), (4, 2, 5), (5, 5, 4)] + \
            [(1, 1, N) for N in sizes.steps((2, 12, 40), 300 if big else 101)] + [(d, 2, 2) for d in sizes.dims((6, 17), 17, 130)] + \
            [(2, m, 2) for m in sizes.dims((4, 17), 17, 130)]:
        yield f"euler_maruyama d={d} m={m} N={N}", em(d, m, N)
        for st in (None, False, True):
            yield f"pathwise d={d} m={m} N={N} standard={st}", pathwise(d, m, N, st)
    yield "pathwise numpy increments", pathwise(2, 1, 2, True, "np")
    for d, N in [(1, 1), (2, 3), (3, 2), (4, 8)] + [(1, N) for N in sizes.steps((2, 12, 40), 300)] + [(d, 2) for d in sizes.dims((5, 17), 17, 130)]:
        yield f"euler d={d} N={N}", euler(d, N)
    for shape in ((), (1,), (3,), (2, 2), (3, 1, 2)):
        yield f"euler initial value of shape {shape}, step of any sign", euler_any(shape, 3)
    for d, m, N in [(2, 1, 8), (2, 2, 40)]:
        yield f"additive noise d={d} m={m} N={N}", additive(d, m, N)
