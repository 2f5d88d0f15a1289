"""Derivatives: automatic differentiation of a routine gives the derivative of its value."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .common import SEM, TRUST, prior_sym, spd

EXPLAIN = SEM + (" Every routine is interpreted on dual numbers, once as the program is written and once with everything that acts on "
                 "derivatives alone (stop_gradient, custom derivative rules) read as the function it is the value of.")
RULE = ("the derivative of every output with respect to every initial value, step length, parameter of the drift and the diffusion, "
        "increment, prior and time is the derivative of the value of this output.  (The EKF0 variants linearise on purpose with a "
        "frozen vector field, square-root forms go through factorisations JAX does not differentiate: both outside.)")
ASSUME = TRUST
FLOOR = 40


def derivative(mk):
    def run(ob):
        fun, args = mk(ob)
        outs = []
        for keep in (False, True):
            CTX.keep_tangents = keep
            try:
                outs.append([jx.tree_leaves((jx.jacfwd(fun, n)(*args),)) for n in range(len(args))])
            finally:
                CTX.keep_tangents = False
        where = sorted({f"{e.msg} at {C.fmt_site(e.site)}" for e in CTX.events if e.kind == "detached"})
        why = f" ({'; '.join(where)})" if where else ""
        for n, (a, b) in enumerate(zip(*outs)):
            ob.require(len(a) == len(b), "structure of the derivatives", "structure")
            for k, (u, v) in enumerate(zip(a, b)):
                ob.eq(f"derivative of output {k} with respect to argument {n}{why}", u, v)
    return run


def with_p(name, shape, *p, time=True):
    f = L.fun(name, shape)
    return (lambda x, t: f(x, t, *p)) if time else (lambda x: f(x, *p))


def entries():
    out = {}

    def entry(name):
        def deco(f):
            out[name] = f
            return f
        return deco

    def diag(g):
        return lambda x, *t: jx.REG["jax.numpy.diag"](g(x, *t))

    for d, m, N in ((1, 1, 1), (2, 1, 2), (2, 2, 2)):
        @entry(f"euler_maruyama d={d} m={m} N={N}")
        def _(ob, d=d, m=m, N=N):
            s, key = ob.get("sde_solvers.euler_maruyama"), L.key()
            return (lambda x, h, p: s(key, x, with_p("f", (d,), p), with_p("s", (d, m), p), h, N)), \
                (L.vec("x", d), L.scal("h"), L.scal("p"))

        for st in (False, True):
            @entry(f"euler_maruyama_pathwise d={d} m={m} N={N} standard={st}")
            def _(ob, d=d, m=m, N=N, st=st):
                s = ob.get("sde_solvers.euler_maruyama_pathwise")
                return (lambda w, x, h, p: s(w, x, with_p("f", (d,), p), with_p("s", (d, m), p), h, N, standard=st)), \
                    (L.mat("w", N, m), L.vec("x", d), L.scal("h"), L.scal("p"))

        @entry(f"euler d={d} N={N}")
        def _(ob, d=d, N=N):
            s = ob.get("ode_solvers.euler")
            return (lambda x, h, p: s(x, with_p("f", (d,), p), h, N)), (L.vec("x", d), L.scal("h"), L.scal("p"))

        @entry(f"sde_solver with an explicit integrator d={d} m={m} N={N}")
        def _(ob, d=d, m=m, N=N):
            s, e, key = ob.get("sde_solver.sde_solver"), ob.get("ode_solvers.euler"), L.key()
            bm = lambda: ob.get("foster_polynomial.get_approx")(dim=m)
            return (lambda x, h, p: s(key, with_p("f", (d,), p), with_p("s", (d, m), p), x, bm, h, N,
                                      lambda k, init, vector_field, T: e(init, vector_field, T, 1))), \
                (L.vec("x", d), L.scal("delta"), L.scal("p"))

    for d in (1, 2):
        @entry(f"diag_15_scheme d={d}")
        def _(ob, d=d):
            s, key = ob.get("sde_solvers.diag_15_scheme"), L.key()
            return (lambda x, h, p: s(key, x, with_p("f", (d,), p, time=False), diag(with_p("s", (d,), p, time=False)), h, 1)), \
                (L.vec("x", d), L.scal("h"), L.scal("p"))

    @entry("hypoelliptic_diffusion_15_scheme d=2")
    def _(ob):
        s, key = ob.get("sde_solvers.hypoelliptic_diffusion_15_scheme"), L.key()

        def sigma(p):
            g = L.fun("s", ())

            def f(x):
                o = np.empty((2, 2), dtype=object)
                o[...] = C.ZERO
                o[1, 1] = C.num(asarr(g(x, p)).data[()])
                return Arr(o)
            return f
        return (lambda x, h, p: s(key, x, with_p("f", (2,), p, time=False), sigma(p), h, 1)), \
            (L.vec("x", 2), L.scal("h"), L.scal("p"))

    for ns in (2, 3, 4):
        for d in (1, 2):
            @entry(f"ekf1 mean n_states={ns} d={d}")
            def _(ob, ns=ns, d=d):
                s = ob.get("ode_solvers.ekf1")
                pr = prior_sym(d * ns)
                return (lambda x, h, p, xi, Q, A, R: s(None, x, with_p("f", (d,), p), h, 1, sqrt=False, prior=(xi, Q, A), noise=R)), \
                    (L.vec("x", d), L.scal("h"), L.scal("p"), *pr, spd("R", d))

    @entry("ekf1 mean, default prior")
    def _(ob):
        s = ob.get("ode_solvers.ekf1")
        return (lambda x, h, p: s(None, x, with_p("f", (1,), p), h, 2, sqrt=False)), (L.vec("x", 1), L.scal("h"), L.scal("p"))

    for k in (0, 1, 2):
        for uc in (False, True):
            @entry(f"filter parameters={k} return_UC={uc}")
            def _(ob, k=k, uc=uc):
                s = ob.get("ode_solvers.probnum.ekf")
                n, o, N = 2, 1, 2
                obs = L.fun("obs", (o,))
                ps = [L.vec("p%d" % j, N) for j in range(max(k, 1))]

                def call(m, P, A, Q, xi, R, *ps):
                    z = (lambda x, *t: obs(x)) if k == 0 else obs
                    return s((m, P), z, A, Q, xi, R, params=tuple(ps), return_UC=uc)
                return call, (L.vec("m", n), spd("P", n), L.mat("A", n, n), spd("Q", n), L.vec("xi", n), spd("R", o), *ps)

    for d in (1, 2):
        @entry(f"ekf1_marginal_parabola mean d={d}")
        def _(ob, d=d):
            s = ob.get("ssm_parabola.ekf1_marginal_parabola")
            return (lambda x, delta, h, p, R: s(None, x, delta, with_p("f", (d,), p), with_p("s", (d, d), p), h, 1, sqrt=False,
                                                noise=R)), \
                (L.vec("x", d), L.scal("delta"), L.scal("h"), L.scal("p"), spd("R", d))

    for name, kw, extra in [("get_approx", {}, 0), ("get_approx_and_brownian", {"N": 3}, 1), ("get_approx_fine", {"N": 3}, 2)]:
        for dim in (1, 2):
            @entry(f"{name} dim={dim} coefficients")
            def _(ob, name=name, kw=kw, dim=dim):
                f, key = ob.get("foster_polynomial." + name)(dim=dim, **kw)[0], L.key()
                return (lambda dt: f(key, dt)), (L.scal("dt"),)

            @entry(f"{name} dim={dim} evaluation")
            def _(ob, name=name, kw=kw, dim=dim, extra=extra):
                f = ob.get("foster_polynomial." + name)(dim=dim, **kw)[1]
                ex = [L.mat("e%d" % k, 3, dim) for k in range(extra)]
                return (lambda t, dt, a, b: f(t, dt, a, b, *ex)), (L.scal("t"), L.scal("dt"), L.vec("a", dim), L.vec("b", dim))

    for n in ("to_ito", "to_stratonovich"):
        for d, m in ((1, 1), (2, 3)):
            @entry(f"{n} d={d} m={m}")
            def _(ob, n=n, d=d, m=m):
                conv = ob.get("ito_stratonovich." + n)

                def call(x, t, p):
                    a, b = conv(with_p("f", (d,), p), with_p("s", (d, m), p))
                    return a(x, t), b(x, t)
                return call, (L.vec("x", d), L.scal("t"), L.scal("p"))

    for q, dim in ((1, 1), (2, 2), (3, 1)):
        @entry(f"IOUP prior q={q} dim={dim}")
        def _(ob, q=q, dim=dim):
            s = ob.get("ode_solvers.probnum.IOUP_transition_function")
            return (lambda sig, dt: s(0.0, sig, q, dt, dim)), (L.scal("sig"), L.scal("dt"))

    for k, mc in ((1, False),):
        @entry(f"Matern prior k={k} mc={mc}")
        def _(ob, k=k, mc=mc):
            s = ob.get("ode_solvers.probnum.matern_transition_function")
            return (lambda mag, length, dt: s(k, mag, length, dt, 2, mc=mc)), (L.scal("magnitude"), L.scal("length"), L.scal("dt"))

    @entry("transition_function")
    def _(ob):
        s = ob.get("ode_solvers.probnum.transition_function")

        def call(c, u, Lm, h):
            F = np.empty((2, 2), dtype=object)
            F[...] = C.ZERO
            F[0, 1] = C.num(asarr(c).data[()])
            return s(Arr(F), u, Lm, h, n_linspace=4)
        return call, (L.scal("c"), L.vec("u", 2), L.mat("Lm", 2, 1), L.scal("h"))

    @entry("pad_prior")
    def _(ob):
        s = ob.get("ode_solvers.probnum.pad_prior")
        return (lambda *a: s(a, 3)), prior_sym(2)

    @entry("get_independently_factorized_prior")
    def _(ob):
        s = ob.get("ode_solvers.probnum.get_independently_factorized_prior")
        return (lambda *a: s([a[:3], a[3:]])), prior_sym(2, "a") + prior_sym(1, "b")

    @entry("interlace")
    def _(ob):
        s = ob.get("ode_solvers.probnum.interlace")
        return (lambda a, b: s((a, b))), (L.vec("a", 2), L.vec("b", 2))

    @entry("interlace_matrix")
    def _(ob):
        return ob.get("ode_solvers.probnum.interlace_matrix"), tuple(L.mat(c, 2, 2) for c in "abcd")

    @entry("mle_diffusion")
    def _(ob):
        s = ob.get("ode_solvers.probnum.calibration.mle_diffusion")
        Sm = np.empty((2, 2, 2), dtype=object)
        for k in range(2):
            Sm[k] = spd(f"S{k}", 2).data
        return s, (L.mat("z", 2, 2), Arr(Sm))

    @entry("insert")
    def _(ob):
        s = ob.get("utils.insert")
        return (lambda x, y, u, v: (s(x, 0, y, 0), s((x, u), 0, (y, v), 0))), \
            (L.mat("x", 2, 2), L.vec("y", 2), L.mat("u", 2, 1), L.vec("v", 1))

    for n, tdep, d in [("fhn", True, 2), ("square_matrix_fhn", True, 2), ("ibm", True, 2), ("square_matrix_ibm", True, 2),
                       ("harmonic_oscillator", True, 2), ("harmonic_oscillator_square", False, 2), ("gbm", True, 1),
                       ("synaptic_conductance", False, 3), ("synaptic_conductance_reduced", False, 2)]:
        @entry(f"ivp {n}")
        def _(ob, n=n, tdep=tdep, d=d):
            x0, drift, sigma, *rest = ob.get("utils." + n)()

            def call(x, t):
                a = (x, t) if tdep else (x,)
                moments = [] if n.startswith("harmonic") else [g(t) for g in rest]
                return (drift(*a), sigma(*a), *moments)
            return call, (L.vec("x", d), L.scal("t"))
    return out


def obligations(tier):
    for name, mk in entries().items():
        yield name, derivative(mk)
