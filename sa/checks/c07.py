"""Parabola approximation: law of the coefficients and evaluation of the path."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: joint Gaussian law of (a, b) read off the value graph for get_approx and "
                 "get_approx_fine (any N) and get_approx_and_brownian, value of the path at generic and boundary times, "
                 "derivative of the path, batching over keys and times.")
RULE = ("a ~ N(0, dt I), b ~ N(0, dt/2 I) independent (get_approx_and_brownian: b has the variance of the trapezoidal "
        "area, dt/2 (1 - 1/N^2)); B(t) = a u + sqrt(6) b u (1 - u), u = t / dt: B(0) = 0, B(dt) = a, mean over the step "
        "a/2 + b/sqrt(6); batched calls are the calls of the elements.")
ASSUME = TRUST
FLOOR = 25
NAMES = {"get_approx": 0, "get_approx_and_brownian": 1, "get_approx_fine": 2}


def make(ob, name, dim, N):
    kw = {} if name == "get_approx" else {"N": N}
    return ob.get("foster_polynomial." + name)(dim=dim, **kw)


def law(name, dim, N):
    def run(ob):
        dt = L.scal("dt")
        get, _ = make(ob, name, dim, N)
        r = get(L.key(), dt)
        if not ob.require(len(r) == 2 + NAMES[name], f"{len(r)} outputs", "shape"):
            return
        a, b = r[0], r[1]
        ob.require(a.shape == (dim,) and b.shape == (dim,), f"shapes {a.shape} and {b.shape}, required {(dim,)}", "shape")
        vb = wrap(C.HALF) * dt
        if name == "get_approx_and_brownian":
            vb = vb * (1 - wrap(C.ONE) / wrap(C.const(N * N)))
        cov = jx.REG["jax.scipy.linalg.block_diag"](dt * S.eye(dim), vb * S.eye(dim))
        S.check_law(ob, "(a, b)", [a, b], S.zeros(2 * dim), cov)
    return run


def evaluation(name, dim):
    def run(ob):
        dt, t = L.scal("dt"), L.scal("t")
        a, b = L.vec("a", dim), L.vec("b", dim)
        _, ev = make(ob, name, dim, 3)
        extra = [L.mat(f"e{k}", 3, dim) for k in range(NAMES[name])]
        s6 = S.sqrt(wrap(C.const(6)))

        def spec(t):
            u = t / dt
            return a * u + s6 * b * u * (1 - u)
        ob.eq("path at t", ev(t, dt, a, b, *extra), spec(t))
        ob.eq("path at 0", ev(wrap(C.ZERO), dt, a, b, *extra), S.zeros(dim))
        ob.eq("path at dt", ev(dt, dt, a, b, *extra), a)
        D = jx.REG["jax.jacfwd"](lambda q: ev(q, dt, a, b, *extra))(t)
        ob.eq("derivative of the path", D, a / dt + s6 * b * (1 - 2 * t / dt) / dt)
    return run


def batched_times(name, dim):
    def run(ob):
        dt, ts = L.scal("dt"), L.vec("t", 4)
        a, b = L.vec("a", dim), L.vec("b", dim)
        _, ev = make(ob, name, dim, 3)
        extra = [L.mat(f"e{k}", 3, dim) for k in range(NAMES[name])]
        r = jx.REG["jax.vmap"](lambda t: ev(t, dt, a, b, *extra))(ts)
        ob.eq("path at several times", r, S.stack([ev(ts[k], dt, a, b, *extra) for k in range(4)]))
        if not extra:
            r = ev(ts[:, None], dt, a, b)
            ob.eq("path at several times (broadcast)", r, S.stack([ev(ts[k], dt, a, b) for k in range(4)]))
    return run


def batched_keys(name, dim, N, vmapped):
    def run(ob):
        dt = L.scal("dt")
        get, _ = make(ob, name, dim, N)
        keys = jx.REG["jax.random.split"](L.key(), 3)
        r = jx.REG["jax.vmap"](lambda k: get(k, dt))(keys) if vmapped else get(keys, dt)
        one = [get(keys[k], dt) for k in range(3)]
        for j in range(2 + NAMES[name]):
            ob.eq(f"output {j} for a batch of keys", r[j], S.stack([o[j] for o in one]))
        cov = None
        a = [o[0] for o in one]
        S.check_law(ob, "increments over a batch", a, S.zeros(3 * dim), dt * S.eye(3 * dim))
    return run


def default_dim(name):
    def run(ob):
        get, ev = ob.get("foster_polynomial." + name)(**({} if name == "get_approx" else {"N": 2}))
        dt = L.scal("dt")
        a, b, *e = get(L.key(), dt)
        ob.require(a.shape == (1,), f"default dimension gives {a.shape}", "shape")
        ob.eq("path at dt", ev(dt, dt, a, b, *e), a)
    return run


def obligations(tier):
    for dim in sizes.dims((1, 2, 3, 5, 17, 40), 17, 300):
        for name in NAMES:
            Ns = sizes.steps((1, 2, 3, 5, 8, 40), 130) if dim == 1 else (1, 2, 3, 8)
            for N in (Ns if name != "get_approx" else (0,)):
                yield f"law {name} dim={dim} N={N}", law(name, dim, N)
            yield f"evaluation {name} dim={dim}", evaluation(name, dim)
            yield f"times {name} dim={dim}", batched_times(name, dim)
    for name in NAMES:
        for v in (False, True):
            yield f"keys {name} vmap={v}", batched_keys(name, 2, 2, v)
        yield f"default dimension {name}", default_dim(name)
