"""Every public routine with symbolic arguments: the entry points of the whole-surface analyses."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .common import prior_sym, spd


class In:
    """makes inputs; arrays are numpy arrays of the caller (kind 'np') or JAX arrays, scalars Python floats or JAX"""

    def __init__(self, kind="jnp", skind="jnp"):
        self.kind, self.skind = kind, skind
        self.made = []

    def own(self, a, name):
        a = Arr(np.array(a.data), a.dt, self.kind, a.sym, name if self.kind == "np" else None)
        self.made.append((name, a, list(a.data.reshape(-1))))
        return a

    def vec(self, n, d):
        return self.own(L.vec(n, d), n)

    def mat(self, n, a, b):
        return self.own(L.mat(n, a, b), n)

    def spd(self, n, d):
        return self.own(spd(n, d), n)

    def scal(self, n):
        v = L.scal(n)
        return Arr(v.data, "float", self.skind)

    def key(self):
        a = L.key()
        return a

    def prior(self, n, name="pr"):
        return tuple(self.own(a, name + str(i)) for i, a in enumerate(prior_sym(n, name)))

    def changed(self):
        out = []
        for name, a, before in self.made:
            now = list(a.data.reshape(-1))
            if any(x is not y and (C.prim(x).fp != C.prim(y).fp) for x, y in zip(now, before)):
                out.append(name)
        return out


def bm_model(m, nc=2):
    """generic differentiable Brownian approximation: coefficients drawn from the key, uninterpreted path"""
    def bm():
        def get_coeffs(key, dt):
            z = [jx.REG["jax.random.normal"](key, (m,))] if nc == 1 else \
                list(jx.REG["jax.random.normal"](key, (nc, m)))
            g = L.fun("coef", (nc, m))(asarr(dt), *z)
            return tuple(g[i] for i in range(nc))

        def eval_fn(t, dt, *coeffs):
            return L.fun("path", (m,))(asarr(t), asarr(dt), *coeffs)
        return get_coeffs, eval_fn
    return bm


def catalogue():
    """name -> maker(ob, inp) -> (callable, args, kwargs, randomised?)"""
    out = {}

    def entry(name, rnd=True):
        def deco(f):
            out[name] = (f, rnd)
            return f
        return deco

    F2 = lambda d: L.fun("f", (d,))

    # --- SDE schemes
    for d, m, N in [(1, 1, 2), (2, 1, 2), (2, 3, 2)]:
        @entry(f"euler_maruyama d={d} m={m}")
        def _(ob, i, d=d, m=m, N=N):
            return ob.get("sde_solvers.euler_maruyama"), (i.key(), i.vec("x", d), F2(d), L.fun("s", (d, m)),
                                                          i.scal("h"), N), {}
    for st in (False, True):
        @entry(f"euler_maruyama_pathwise standard={st}", False)
        def _(ob, i, st=st):
            return ob.get("sde_solvers.euler_maruyama_pathwise"), (i.mat("w", 2, 1), i.vec("x", 2), F2(2),
                                                                   L.fun("s", (2, 1)), i.scal("h"), 2), {"standard": st}

    def diag_sigma(d):
        g = L.fun("s", (d,))

        def sigma(x):
            return jx.REG["jax.numpy.diag"](g(x))
        return sigma
    for d in (1, 2):
        @entry(f"diag_15_scheme d={d}")
        def _(ob, i, d=d):
            return ob.get("sde_solvers.diag_15_scheme"), (i.key(), i.vec("x", d), F2(d), diag_sigma(d), i.scal("h"),
                                                          2), {}

    def hypo_sigma(d):
        g = L.fun("s", (d - 1,))

        def sigma(x):
            v = g(x)
            o = np.empty((d, d), dtype=object)
            o[...] = C.ZERO
            for k in range(d - 1):
                o[k + 1, k] = v.data[k]
            return Arr(o)
        return sigma
    for d in (2, 3):
        @entry(f"hypoelliptic_diffusion_15_scheme d={d}")
        def _(ob, i, d=d):
            return ob.get("sde_solvers.hypoelliptic_diffusion_15_scheme"), (i.key(), i.vec("x", d), F2(d),
                                                                            hypo_sigma(d), i.scal("h"), 2), {}

    # --- ODE solvers
    @entry("euler", False)
    def _(ob, i):
        return ob.get("ode_solvers.euler"), (i.vec("x", 2), F2(2), i.scal("h"), 2), {}

    for n in ("ekf0", "ekf1"):
        for sq in (False, True):
            for d in (1, 2):
                @entry(f"{n} sqrt={sq} d={d}")
                def _(ob, i, n=n, sq=sq, d=d):
                    return ob.get("ode_solvers." + n), (i.key(), i.vec("x", d), F2(d), i.scal("h"), 2), {"sqrt": sq}
            for ns in (2, 3, 4):
                @entry(f"{n} sqrt={sq} prior n_states={ns} noise")
                def _(ob, i, n=n, sq=sq, ns=ns):
                    d = 2 if ns == 2 else 1
                    return ob.get("ode_solvers." + n), (i.key(), i.vec("x", d), F2(d), i.scal("h"), 1), \
                        {"sqrt": sq, "prior": i.prior(d * ns), "noise": i.spd("R", d)}

        @entry(f"{n} defaults")
        def _(ob, i, n=n):
            return ob.get("ode_solvers." + n), (i.key(), i.vec("x", 2), F2(2), i.scal("h"), 1), {}

        @entry(f"{n} key=None", False)
        def _(ob, i, n=n):
            return ob.get("ode_solvers." + n), (None, i.vec("x", 2), F2(2), i.scal("h"), 2), {}

        for sq in (False, True):
            for ra in (False, True):
                @entry(f"{n}_2 sqrt={sq} return_all={ra}")
                def _(ob, i, n=n, sq=sq, ra=ra):
                    d = 2
                    init = (i.vec("s0", d), i.vec("m", d), i.spd("P", d))
                    return ob.get(f"ode_solvers.{n}_2"), (i.key(), init, F2(d), i.scal("h"), 1), \
                        {"sqrt": sq, "return_all": ra}

            @entry(f"{n}_2 sqrt={sq} prior noise")
            def _(ob, i, n=n, sq=sq):
                d = 2
                init = (i.vec("s0", d), i.vec("m", d), i.spd("P", d))
                return ob.get(f"ode_solvers.{n}_2"), (i.key(), init, F2(d), i.scal("h"), 1), \
                    {"sqrt": sq, "prior": i.prior(2 * d), "noise": i.spd("R", d)}

        @entry(f"{n}_2 key=None", False)
        def _(ob, i, n=n):
            init = (i.vec("s0", 1), i.vec("m", 1), i.spd("P", 1))
            return ob.get(f"ode_solvers.{n}_2"), (None, init, F2(1), i.scal("h"), 2), {}

        # --- parabola filters
        for sq in (False, True):
            for d, N in ((1, 2), (2, 1)):
                @entry(f"{n}_marginal_parabola sqrt={sq} d={d}")
                def _(ob, i, n=n, sq=sq, d=d, N=N):
                    return ob.get(f"ssm_parabola.{n}_marginal_parabola"), (
                        i.key(), i.vec("x", d), i.scal("delta"), F2(d), L.fun("s", (d, d)), i.scal("h"), N), \
                        {"sqrt": sq}

            @entry(f"{n}_marginal_parabola sqrt={sq} prior noise")
            def _(ob, i, n=n, sq=sq):
                return ob.get(f"ssm_parabola.{n}_marginal_parabola"), (
                    i.key(), i.vec("x", 2), i.scal("delta"), F2(2), L.fun("s", (2, 2)), i.scal("h"), 1), \
                    {"sqrt": sq, "prior": i.prior(2), "noise": i.spd("R", 2)}

        @entry(f"{n}_marginal_parabola key=None", False)
        def _(ob, i, n=n):
            return ob.get(f"ssm_parabola.{n}_marginal_parabola"), (
                None, i.vec("x", 2), i.scal("delta"), F2(2), L.fun("s", (2, 2)), i.scal("h"), 1), {}

    # --- Brownian approximations
    for name, kw in [("get_approx", {}), ("get_approx_and_brownian", {"N": 3}), ("get_approx_fine", {"N": 3})]:
        for dim in (1, 2):
            @entry(f"{name} dim={dim} coefficients")
            def _(ob, i, name=name, kw=kw, dim=dim):
                return ob.get("foster_polynomial." + name)(dim=dim, **kw)[0], (i.key(), i.scal("dt")), {}

            @entry(f"{name} dim={dim} evaluation", False)
            def _(ob, i, name=name, kw=kw, dim=dim):
                ev = ob.get("foster_polynomial." + name)(dim=dim, **kw)[1]
                extra = {"get_approx": 0, "get_approx_and_brownian": 1, "get_approx_fine": 2}[name]
                return ev, (i.scal("t"), i.scal("dt"), i.vec("a", dim), i.vec("b", dim),
                            *[i.mat("e%d" % k, 3, dim) for k in range(extra)]), {}

    # --- drivers
    @entry("sde_solver")
    def _(ob, i):
        return ob.get("sde_solver.sde_solver"), (), dict(
            key=i.key(), drift=F2(2), sigma=L.fun("s", (2, 1)), x0=i.vec("x", 2), bm=bm_model(1), delta=i.scal("delta"),
            N=2, ode_int=lambda key, init, vector_field, T: init + asarr(T) * vector_field(init, wrap(C.ZERO)))

    @entry("sde_solver tuple state")
    def _(ob, i):
        ek = ob.get("ode_solvers.ekf1_2")
        return ob.get("sde_solver.sde_solver"), (), dict(
            key=i.key(), drift=F2(1), sigma=L.fun("s", (1, 1)),
            x0=(i.vec("s0", 1), i.vec("m", 1), i.spd("P", 1)), bm=bm_model(1), delta=i.scal("delta"), N=2,
            ode_int=lambda key, init, vector_field, T: ek(key, init=init, vector_field=vector_field, h=T, N=1))

    @entry("ssm_parabola_ode_solver")
    def _(ob, i):
        ek = ob.get("ssm_parabola.ekf1_marginal_parabola")
        return ob.get("ssm_parabola.ssm_parabola_ode_solver"), (), dict(
            key=i.key(), drift=F2(1), sigma=L.fun("s", (1, 1)), x0=i.vec("x", 1), delta=i.scal("delta"), N=2,
            solver=lambda key, init, drift, diffusion, T: ek(key, init=init, delta=T, drift=drift,
                                                             diffusion=diffusion, h=T, N=1))

    # --- conversions
    for n in ("to_ito", "to_stratonovich"):
        @entry(n, False)
        def _(ob, i, n=n):
            conv = ob.get("ito_stratonovich." + n)

            def call(x, t):
                a, b = conv(F2(2), L.fun("s", (2, 3)))
                return a(x, t), b(x, t)
            return call, (i.vec("x", 2), i.scal("t")), {}

    # --- priors
    for q, dim in ((1, 1), (2, 2)):
        for theta in (False, True):
            @entry(f"IOUP q={q} dim={dim} theta={'generic' if theta else '0'}", False)
            def _(ob, i, q=q, dim=dim, theta=theta):
                return ob.get("ode_solvers.probnum.IOUP_transition_function"), (
                    i.scal("theta") if theta else 0.0, i.scal("sig"), q, i.scal("dt"), dim), {}
    for k, mc in ((0, False), (1, False), (1, True), (2, False)):
        @entry(f"Matern k={k} mc={mc}", False)
        def _(ob, i, k=k, mc=mc):
            C.CTX.fine_grid = 64
            return ob.get("ode_solvers.probnum.matern_transition_function"), (
                k, i.scal("magnitude"), i.scal("length"), i.scal("dt"), 2), {"mc": mc}

    @entry("transition_function", False)
    def _(ob, i):
        F = np.empty((2, 2), dtype=object)
        F[...] = C.ZERO
        F[0, 1] = C.ONE
        return ob.get("ode_solvers.probnum.transition_function"), (
            i.own(Arr(F), "F"), i.vec("u", 2), i.mat("Lm", 2, 1), i.scal("h")), {"n_linspace": 4}

    @entry("pad_prior", False)
    def _(ob, i):
        return ob.get("ode_solvers.probnum.pad_prior"), (i.prior(2), 3), {}

    @entry("get_independently_factorized_prior", False)
    def _(ob, i):
        return ob.get("ode_solvers.probnum.get_independently_factorized_prior"), ([i.prior(2, "a"), i.prior(3, "b")],), {}

    @entry("interlace", False)
    def _(ob, i):
        return ob.get("ode_solvers.probnum.interlace"), ((i.vec("a", 2), i.vec("b", 2)),), {}

    @entry("interlace_matrix", False)
    def _(ob, i):
        return ob.get("ode_solvers.probnum.interlace_matrix"), tuple(i.mat(c, 2, 2) for c in "abcd"), {}

    for sq in (False, True):
        for uc in (False, True):
            @entry(f"filter lower_sqrt={sq} return_UC={uc}", False)
            def _(ob, i, sq=sq, uc=uc):
                n, k = 2, 1
                obs = L.fun("obs", (k,))
                lo = lambda nm, q: i.own(L.lower(nm, q), nm)
                sy = lambda nm, q: i.spd(nm, q)
                mk = lo if sq else sy
                return ob.get("ode_solvers.probnum.ekf"), (
                    (i.vec("m", n), mk("P", n)), obs, i.mat("A", n, n), mk("Q", n), i.vec("xi", n), mk("R", k)), \
                    dict(params=(i.vec("ts", 2),), lower_sqrt=sq, return_UC=uc)

    @entry("mle_diffusion", False)
    def _(ob, i):
        Sm = np.empty((2, 2, 2), dtype=object)
        for k in range(2):
            Sm[k] = spd(f"S{k}", 2).data
        return ob.get("ode_solvers.probnum.calibration.mle_diffusion"), (i.mat("z", 2, 2), i.own(Arr(Sm), "S")), {}

    # --- utilities
    @entry("insert array", False)
    def _(ob, i):
        return ob.get("utils.insert"), (i.mat("x", 2, 2), 0, i.vec("y", 2), 0), {}

    @entry("insert tuple", False)
    def _(ob, i):
        return ob.get("utils.insert"), ((i.mat("x", 2, 2), i.mat("u", 2, 1)), 0, (i.vec("y", 2), i.vec("v", 1)), 0), {}

    # --- initial value problems
    for n, tdep in [("fhn", True), ("square_matrix_fhn", True), ("ibm", True), ("square_matrix_ibm", True),
                    ("harmonic_oscillator", True), ("harmonic_oscillator_square", False), ("gbm", True),
                    ("synaptic_conductance", False), ("synaptic_conductance_reduced", False)]:
        @entry(f"ivp {n}", False)
        def _(ob, i, n=n, tdep=tdep):
            f = ob.get("utils." + n)

            def call(t):
                x0, drift, sigma, *rest = f()
                a = (x0, t) if tdep else (x0,)
                C.CTX.fine_grid = 64
                return (x0, drift(*a), sigma(*a), *[g(t) for g in rest])
            return call, (i.scal("t"),), {}

    @entry("ivp random_linear_sde")
    def _(ob, i):
        f = ob.get("utils.random_linear_sde")

        def call(key, t):
            x0, drift, sigma = f(key, 2)
            return x0, drift(x0, t), sigma(x0, t)
        return call, (i.key(), i.scal("t")), {}
    return out
