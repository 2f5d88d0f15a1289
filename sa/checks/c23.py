"""Every documented configuration runs and returns finite arrays of the documented shape."""
import itertools

import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .catalogue import In, bm_model, catalogue
from .common import SEM, TRUST, prior_sym, spd

EXPLAIN = SEM + (" Shape, binding and definedness analysis: every entry point of the catalogue with Python and JAX scalars and "
                 "numpy and JAX arrays, and a product of dimensions, step counts, forms, priors, noise and key=None; a path that "
                 "ends in an exception, an index out of range, a division by a structural zero, the inverse or root of a "
                 "structurally singular matrix on a path that needs a regular one, or a name that the installed JAX, numpy or "
                 "tqdm does not provide is reported with its site.")
RULE = ("no exception, no unbound or missing name, no shape or argument mismatch, no out-of-range index, no structural NaN on any "
        "path; outputs have the documented structure and shape.")
ASSUME = TRUST
FLOOR = 150

BAD = ("nan", "oob", "singular-solve", "float-arange", "indefinite")


def runs(mk, kind, skind):
    def run(ob):
        i = In(kind, skind)
        f, args, kw = mk(ob, i)
        r = f(*args, **kw)
        ob.no_event(*BAD)
        for k, x in enumerate(jx.tree_leaves(r)):
            if isinstance(x, Arr):
                for e in x.data.reshape(-1):
                    p = C.prim(e) if not isinstance(e, C.Bo) else None
                    if isinstance(p, C.Sc) and p.op == "nan":
                        ob.fail(f"output {k} is not a number: {C.show(p)}", "nan", p.site)
                        break
        ob.facts += 1
    return run


def shape(ob, what, x, want):
    ob.require(isinstance(x, Arr) and tuple(x.shape) == tuple(want),
               f"{what} has shape {getattr(x, 'shape', type(x).__name__)}, required {tuple(want)}", "shape")


def ode(name, d, N, ns, prior, noise, sqrt, key):
    def run(ob):
        f, x, h = L.fun("f", (d,)), L.vec("x", d), L.scal("h")
        kw = {"sqrt": sqrt}
        if prior:
            kw["prior"] = prior_sym(ns * d)
        if noise:
            kw["noise"] = spd("R", d)
        k = L.key() if key else None
        g = ob.get("ode_solvers." + name)
        if name.endswith("_2"):
            s, m, P = g(k, (x, L.vec("m", d), spd("P", d)), f, h, N, **kw)
            shape(ob, "sample", s, (d,))
            shape(ob, "mean", m, (d,))
            shape(ob, "covariance", P, (d, d))
        else:
            shape(ob, "result", g(k, x, f, h, N, **kw), (d,))
        ob.no_event(*BAD)
    return run


def marginal(name, d, N, prior, noise, sqrt, key):
    def run(ob):
        kw = {"sqrt": sqrt}
        if prior:
            kw["prior"] = prior_sym(2)
        if noise:
            kw["noise"] = spd("R", d)
        r = ob.get("ssm_parabola." + name)(L.key() if key else None, L.vec("x", d), L.scal("delta"), L.fun("f", (d,)),
                                           L.fun("s", (d, d)), L.scal("h"), N, **kw)
        for n, v in zip(("point", "increment", "area"), r):
            shape(ob, n, v, (d,))
        ob.require(len(r) == 3, "three outputs required", "structure")
        ob.no_event(*BAD)
    return run


def driver(d, m, N, approx, solver, **opts):
    def run(ob):
        kw = {} if approx == "get_approx" else {"N": 3}
        f, s = L.fun("f", (d,)), L.fun("s", (d, m))
        g = ob.get("ode_solvers." + solver)
        if solver == "euler":
            ode_int = lambda key, init, vector_field, T: g(init=init, vector_field=vector_field, h=T, N=1)
        else:
            ode_int = lambda key, init, vector_field, T: g(key, init=init, vector_field=vector_field, h=T, N=1, **opts)
        x0 = L.vec("x", d)
        if solver.endswith("_2"):
            x0 = (x0, x0, S.zeros(d, d))
        r = ob.get("sde_solver.sde_solver")(L.key(), f, s, x0, lambda: ob.get("foster_polynomial." + approx)(dim=m, **kw),
                                            L.scal("delta"), N, ode_int)
        shape(ob, "time grid", r[0], (N + 1,))
        if solver.endswith("_2"):
            for n, v, w in zip(("samples", "means", "covariances"), r[1], ((d,), (d,), (d, d))):
                shape(ob, n, v, (N + 1,) + w)
        else:
            shape(ob, "trajectory", r[1], (N + 1, d))
        co = {"get_approx": [(m,), (m,)], "get_approx_and_brownian": [(m,), (m,), (3, m)],
              "get_approx_fine": [(m,), (m,), (3, m), (3, m)]}[approx]
        if approx != "get_approx_fine":
            ob.require(len(r) == 2 + len(co), f"{len(r) - 2} coefficient arrays, required {len(co)}", "structure")
            for k, (v, w) in enumerate(zip(r[2:], co)):
                shape(ob, f"coefficient {k}", v, (N,) + w)
        ob.no_event(*BAD)
    return run


def obligations(tier):
    big = tier == "thorough"
    kinds = [("jnp", "py"), ("np", "jnp")] + ([("np", "py"), ("jnp", "jnp")] if big else [])
    for name, (mk, _) in catalogue().items():
        for kind, sk in kinds:
            yield f"{name} [{kind} arrays, {sk} scalars]", runs(mk, kind, sk)
    B = (False, True)
    for name in ("ekf0", "ekf1", "ekf0_2", "ekf1_2"):
        for d, N, sqrt, noise, key in itertools.product((1, 2, 3), (1, 2), B, B, B):
            if d * N > 3 and not big:
                continue
            yield f"{name} d={d} N={N} sqrt={sqrt} noise={noise} key={key}", ode(name, d, N, 2, False, noise, sqrt, key)
        for d, N in [(1, N) for N in sizes.steps((4, 12), 101)] + [(d, 1) for d in sizes.dims((4, 5, 9), 9, 20)]:
            for sqrt in B:
                yield f"{name} d={d} N={N} sqrt={sqrt}", ode(name, d, N, 2, False, False, sqrt, True)
        for ns, d, sqrt in itertools.product((2, 3, 4, 5), (1, 2), B):
            if name.endswith("_2") and ns != 2:
                continue
            if ns * d > 6 and not big:
                continue
            yield f"{name} prior n_states={ns} d={d} sqrt={sqrt}", ode(name, d, 1, ns, True, ns % 2 == 0, sqrt, d == 1)
    for name in ("ekf0_marginal_parabola", "ekf1_marginal_parabola"):
        for d, N, sqrt, prior, key in itertools.product((1, 2), (1, 2), B, B, B):
            if d * N > 2 and not big:
                continue
            yield f"{name} d={d} N={N} sqrt={sqrt} prior={prior} key={key}", marginal(name, d, N, prior, prior, sqrt, key)
        for d, N in [(1, N) for N in sizes.steps((3, 8), 101)] + [(d, 1) for d in sizes.dims((3, 5), 5, 9)]:
            for sqrt in B:
                yield f"{name} d={d} N={N} sqrt={sqrt}", marginal(name, d, N, False, False, sqrt, True)
    for approx in ("get_approx", "get_approx_and_brownian", "get_approx_fine"):
        for solver in ("euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2"):
            for sqrt, noise in itertools.product(B, B) if solver != "euler" else ():
                if approx == "get_approx" and (sqrt or noise):
                    yield f"sde_solver {solver} sqrt={sqrt} noise={noise}", driver(2, 1, 2, approx, solver, sqrt=sqrt,
                                                                                   **({"noise": 0.1 * S.eye(2)} if noise else {}))
            for d, m, N in [(2, 1, 1), (2, 3, 1), (3, 2, 2), (4, 1, 1)] + [(1, 1, N) for N in sizes.steps((2, 12), 101)]:
                yield f"sde_solver {approx} {solver} d={d} m={m} N={N}", driver(d, m, N, approx, solver)
