"""The library of initial value problems and their closed-form moments."""
import numpy as np
from fractions import Fraction
from math import factorial

from .. import core as C
from .. import jx
from .. import lib as L
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: the moment functions of every problem of utils.ivp against its own drift and diffusion: Taylor "
                 "coefficients at t = 0 computed with the generator of the diffusion (iterated symbolic derivatives), moment "
                 "differential equations for the exact moments, matrix exponential and covariance integral for the linear "
                 "oscillators; equality of the square-matrix variants with the originals and of the reduced synaptic problem "
                 "with the conductances of the full one; the form of each model at a generic state; law of the random linear SDE; "
                 "absence of out-of-range indices.")
RULE = ("mean and covariance functions have the exact coefficients of t and t^2 (and of t^3 where it is the leading or a "
        "documented one); exact moments satisfy m' = E f, P' = J P + P J^T + s s^T, P(0) = 0, m(0) = x0; square variants have "
        "the same drift, s s^T and moments, and a zero first row; drift and diffusion have the form of the named model (cubic "
        "FitzHugh-Nagumo, bilinear voltage equation with square root conductances, damped oscillator, integrated noise).")
ASSUME = TRUST + ["the quadrature of the oscillator covariance over 1000 points is exact"]
FLOOR = 24




def drop_time(f, tdep):
    return (lambda x: f(x, wrap(C.atom("time")))) if tdep else f


def gen(f, s, g):
    def Lg(x):
        J, H = S.jac(g, x), S.hess(g, x)
        sx = s(x)
        SS = sx @ S.T(sx)
        n, d = J.shape
        out = []
        fx = f(x)
        for k in range(n):
            v = wrap(C.ZERO)
            for i in range(d):
                v = v + J[k, i] * fx[i]
                for j in range(d):
                    if not C.is0(SS.data[i, j]):
                        v = v + SS[i, j] * H[k, i, j] / 2
            out.append(v)
        return S.stack(out)
    return Lg


def series_mean(f, s, x0, K):
    g, out = (lambda x: 1 * x), [x0]
    for k in range(1, K + 1):
        g = gen(f, s, g)
        out.append(g(x0) / factorial(k))
    return out


def series_cov(f, s, x0, K):
    d = x0.shape[0]
    m = series_mean(f, s, x0, K)
    g = lambda x: S.stack([x[i] * x[j] for i in range(d) for j in range(d)])
    q = [g(x0)]
    for k in range(1, K + 1):
        g = gen(f, s, g)
        q.append(g(x0) / factorial(k))
    out = []
    for k in range(K + 1):
        M = S.jnp("reshape")(q[k], (d, d))
        for a in range(k + 1):
            M = M - m[a][:, None] * m[k - a][None, :]
        out.append(M)
    return out


def coefs(fn, K):
    """Taylor coefficients at 0 of an array valued function of t"""
    out, g = [], (lambda t: asarr(fn(t)) * 1)
    for k in range(K + 1):
        out.append(g(wrap(C.ZERO)) / factorial(k))
        g = (lambda h: lambda t: S.jac(h, t))(g)
    return out


def expand_mean(name, tdep, pos, K=2, floats=True):
    def run(ob):
        p = ob.get("utils." + name)()
        f, s = drop_time(p[1], tdep), drop_time(p[2], tdep)
        got, want = coefs(p[pos], K), series_mean(f, s, p[0], K)
        for k in range(K + 1):
            ob.eq(f"coefficient of t^{k} of the mean", got[k], want[k])
        ob.no_event("oob", what=f"{name}: ")
    return run


def expand_cov(name, tdep, pos, cubic, entry=None):
    """cubic: 'exact' for all entries, 'leading' when only the entries without lower order terms have to be exact"""
    def run(ob):
        p = ob.get("utils." + name)()
        f, s = drop_time(p[1], tdep), drop_time(p[2], tdep)
        got, want = coefs(p[pos], 3), series_cov(f, s, p[0], 3)
        if entry is not None:
            want = [w[entry] for w in want]
        site = next((C.prim(e).site for e in asarr(p[pos](L.scal("t"))).data.reshape(-1)
                     if isinstance(C.prim(e), C.Sc)), None)
        for k in range(3):
            ob.eq(f"coefficient of t^{k} of the covariance", got[k], want[k])
        g, w = got[3].data.reshape(-1), want[3].data.reshape(-1)
        low = [w_.data.reshape(-1) for w_ in want[:3]]
        for i in range(len(w)):
            leading = all(C.prim(l[i]).fp == 0 for l in low)
            same = C.prim(g[i]).fp == C.prim(w[i]).fp
            omitted = cubic == "leading" and not leading and C.prim(g[i]).fp == 0
            ob.require(same or omitted, f"coefficient of t^3 of entry {i} of the covariance is {C.show(g[i])}, "
                                        f"required {C.show(w[i])}", "value", site)
        ob.no_event("oob", what=f"{name}: ")
    return run


def linear_var(name, tdep, pos):
    def run(ob):
        p = ob.get("utils." + name)()
        x0, f, s, v = p[0], drop_time(p[1], tdep), drop_time(p[2], tdep), p[pos]
        t = L.scal("t")
        J = S.jac(f, x0)
        x = L.vec("x", x0.shape[0])
        ob.eq("drift is linear", f(x), J @ x)
        ob.eq("diffusion is constant", s(x), s(x0))
        P = v(t)
        ob.eq("derivative of the covariance", S.jac(v, t), J @ P + P @ S.T(J) + s(x0) @ S.T(s(x0)))
        ob.eq("covariance at 0", v(wrap(C.ZERO)), S.zeros(*P.shape))
    return run


def oscillator(name, tdep):
    def run(ob):
        CTX.fine_grid = 64
        p = ob.get("utils." + name)()
        x0, f, s, mean, var = p[0], drop_time(p[1], tdep), drop_time(p[2], tdep), p[3], p[4]
        t = L.scal("t")
        x = L.vec("x", 2)
        J, c = S.jac(f, x0), s(x0)
        ob.eq("drift is linear", f(x), J @ x)
        ob.eq("diffusion is constant", s(x), c)
        ob.eq("smooth coordinate", f(x)[0], x[1])
        ob.eq("no noise on the smooth coordinate", s(x)[0], S.zeros(c.shape[1]))
        expm = jx.REG["jax.scipy.linalg.expm"]
        ob.eq("mean", mean(t), expm(J * t) @ x0)
        ls = jx.REG["jax.numpy.linspace"](0, t, 1000)
        B = jx.REG["jax.vmap"](lambda u: (lambda b: b @ S.T(b))(expm(J * u) @ c))(ls)
        ob.eq("covariance", var(t), jx.trapezoid(B, ls, axis=0))
    return run


def gbm(ob):
    x0, drift, sigma, mean, var = ob.get("utils.gbm")()
    t, tau = L.scal("t"), L.scal("tau")
    a = drift(S.stack([wrap(C.ONE)]), tau)
    b = sigma(S.stack([wrap(C.ONE)]), tau)[0]
    x = L.vec("x", 1)
    ob.eq("drift is proportional", drift(x, tau), a * x)
    ob.eq("diffusion is proportional", sigma(x, tau), (b * x)[None])
    ob.eq("mean at 0", mean(wrap(C.ZERO)), x0)
    ob.eq("variance at 0", var(wrap(C.ZERO)), S.zeros(1))
    ob.eq("derivative of the mean", S.jac(mean, t), a * mean(t))
    sec = lambda u: var(u) + mean(u) ** 2
    ob.eq("derivative of the second moment", S.jac(sec, t), (2 * a + b * b) * sec(t))


def square(name, sq, tdep_sq):
    def run(ob):
        CTX.fine_grid = 64
        p, q = ob.get("utils." + name)(), ob.get("utils." + sq)()
        x, t = L.vec("x", p[0].shape[0]), L.scal("t")
        ob.eq("initial value", q[0], p[0])
        fq, sq_ = (q[1](x, t), q[2](x, t)) if tdep_sq else (q[1](x), q[2](x))
        ob.eq("drift", fq, p[1](x, t))
        s = p[2](x, t)
        ob.eq("diffusion covariance", sq_ @ S.T(sq_), s @ S.T(s))
        ob.require(sq_.shape[0] == sq_.shape[1], "the diffusion matrix is not square", "shape")
        ob.eq("first row of the diffusion", sq_[0], S.zeros(sq_.shape[1]))
        for k in range(3, min(len(p), len(q))):
            ob.eq(f"moment function {k - 3}", q[k](t), p[k](t))
    return run


def random_sde(dim, given):
    def run(ob):
        kw = {"dim": dim}
        s1, s2 = S.eye(dim), S.eye(dim)
        if given:
            s1, s2 = L.mat("s1", dim, dim), L.mat("s2", dim, dim)
            kw.update(std1=s1, std2=s2)
        x0, drift, sigma = ob.get("utils.random_linear_sde")(L.key(), **kw)
        x, t = L.vec("x", dim), L.scal("t")
        _, d0, g0 = ob.get("utils.random_linear_sde")(L.key(), dim=dim)
        M, G = S.jac(lambda z: d0(z, t), x), g0(x, t)
        r = dim * dim
        S.check_law(ob, "entries of the two matrices", [M, G], S.zeros(2 * r), S.eye(2 * r))
        ob.eq("drift", drift(x, t), s1 @ (M @ x))
        ob.eq("diffusion", sigma(x, t), s2 @ G)
        ob.require(x0.shape == (dim,), "shape of the initial value", "shape")
    return run


def shapes(ob):
    for n, tdep in PROBLEMS:
        p = ob.get("utils." + n)()
        d = p[0].shape[0]
        x = L.vec("x", d)
        f, s = drop_time(p[1], tdep)(x), drop_time(p[2], tdep)(x)
        ob.require(asarr(f).shape == (d,), f"{n}: drift of shape {asarr(f).shape}", "shape")
        ob.require(asarr(s).ndim == 2 and asarr(s).shape[0] == d, f"{n}: diffusion of shape {asarr(s).shape}", "shape")
        a = {m.extra[0] for m in C.atoms_of(list(asarr(f).data.reshape(-1)) + list(asarr(s).data.reshape(-1)))}
        ob.require(a <= {"x"}, f"{n}: coefficients depend on {sorted(map(str, a - {'x'}))}", "dependence")
    ob.no_event("oob")


PROBLEMS = [("fhn", True), ("square_matrix_fhn", True), ("ibm", True), ("square_matrix_ibm", True),
            ("ivp.double_ibm", True), ("harmonic_oscillator", True), ("harmonic_oscillator_square", False), ("gbm", True),
            ("synaptic_conductance", False), ("synaptic_conductance_reduced", False)]


def number(ob, e, what):
    """the constant value of an entry"""
    e = C.prim(C.num(e))
    if not ob.require(isinstance(e, C.Sc) and e.const is not None, f"{what} is not a constant: {C.show(e)}", "model", e.site):
        return None
    return e.const


def fhn_model(name):
    def run(ob):
        p = ob.get("utils." + name)()
        f, s = drop_time(p[1], True), drop_time(p[2], True)
        x, o = L.vec("x", 2), S.zeros(2)
        J = S.jac(f, x)
        k = number(ob, J.data[0, 1], "coefficient of the recovery variable in the first equation")
        g = number(ob, J.data[1, 0], "coefficient of the voltage in the second equation")
        if k is None or g is None:
            return
        ob.require(k < 0 and g > 0, f"coupling coefficients {k}, {g}: the first has to be -1/eps, the second gamma", "model")
        ob.eq("first equation (x - x^3 - y + s) / eps", f(x)[0], (x[0] - x[0] ** 3 - x[1]) * -k + f(o)[0])
        ob.eq("second equation gamma x - y + alpha", f(x)[1], x[0] * g - x[1] + f(o)[1])
        sx = s(x)
        ob.eq("no noise on the first equation", sx[0], S.zeros(sx.shape[1]))
        ob.eq("additive noise", sx, s(o))
        v = number(ob, (sx @ S.T(sx)).data[1, 1], "variance of the noise of the second equation")
        ob.require(v is not None and v > 0, "no noise on the second equation", "model")
    return run


def conductance_model(ob):
    p, q = ob.get("utils.synaptic_conductance")(), ob.get("utils.synaptic_conductance_reduced")()
    x = L.vec("x", 3)
    f, s = p[1](x), p[2](x)
    y = x[1:]
    ob.eq("initial value of the reduced problem", q[0], p[0][1:])
    ob.eq("drift of the reduced problem", q[1](y), f[1:])
    sq = q[2](y)
    ob.eq("diffusion covariance of the reduced problem", sq @ S.T(sq), s[1:] @ S.T(s[1:]))
    H = S.hess(p[1], x)
    J = S.jac(p[1], x)
    c = number(ob, H.data[0, 0, 1], "coefficient of conductance times voltage")
    if c is None:
        return
    ob.require(c < 0, f"the conductances drive the voltage away from the reversal potentials ({c})", "model")
    want = np.empty((3, 3), dtype=object)
    want[...] = C.ZERO
    for i in (1, 2):
        want[0, i] = want[i, 0] = C.num(C.prim(H.data[0, 0, 1]))
    ob.eq("voltage equation: quadratic part", H[0], Arr(want))
    for i in (1, 2):
        tau = number(ob, J.data[i, i], f"rate of conductance {i}")
        ob.eq(f"conductance {i} relaxes by itself", J[i], S.stack([J[i, i] if j == i else wrap(C.ZERO) for j in range(3)]))
        ob.require(tau is not None and tau < 0, f"conductance {i} does not relax", "model")
    SS = s @ S.T(s)
    one = p[2](S.jnp("ones")((3,)))
    S1 = one @ S.T(one)
    gE, gI = S1[1, 1], S1[2, 2]
    for g, n in ((gE, "excitatory"), (gI, "inhibitory")):
        v = number(ob, g.data[()], f"variance of the {n} noise per unit of conductance")
        ob.require(v is not None and v > 0, f"no {n} noise", "model")
    Z = wrap(C.ZERO)
    ob.eq("square root noise on the conductances only", SS,
          S.stack([S.stack([Z, Z, Z]), S.stack([Z, gE * x[1], Z]), S.stack([Z, Z, gI * x[2]])]))


def oscillator_model(name, tdep):
    def run(ob):
        p = ob.get("utils." + name)()
        f, s = drop_time(p[1], tdep), drop_time(p[2], tdep)
        J = S.jac(f, L.vec("x", 2))
        c = s(p[0])
        D, g = number(ob, J.data[1, 0], "stiffness"), number(ob, J.data[1, 1], "damping")
        ob.require(D is not None and D < 0 and g is not None and g < 0,
                   f"not a damped oscillator: x'' = {D} x + {g} x'", "model")
        v = number(ob, (c @ S.T(c)).data[1, 1], "variance of the force")
        ob.require(v is not None and v > 0, "no force", "model")
    return run


def chain_model(name, n):
    """x_0' = x_1, ..., x_{n-1}' = noise"""
    def run(ob):
        p = ob.get("utils." + name)()
        f, s = drop_time(p[1], True), drop_time(p[2], True)
        x = L.vec("x", n)
        ob.eq("drift", f(x), S.stack([x[i] for i in range(1, n)] + [wrap(C.ZERO)]))
        c = s(x)
        SS = c @ S.T(c)
        v = number(ob, SS.data[n - 1, n - 1], "variance of the noise")
        ob.require(v is not None and v > 0, "no noise on the last coordinate", "model")
        M = np.empty((n, n), dtype=object)
        M[...] = C.ZERO
        M[n - 1, n - 1] = SS.data[n - 1, n - 1]
        ob.eq("noise on the last coordinate only", SS, Arr(M))
    return run


def obligations(tier):
    for n in ("fhn", "square_matrix_fhn"):
        yield f"{n} model", fhn_model(n)
    yield "synaptic conductance models", conductance_model
    yield "harmonic_oscillator model", oscillator_model("harmonic_oscillator", True)
    yield "harmonic_oscillator_square model", oscillator_model("harmonic_oscillator_square", False)
    for n, k in (("ibm", 2), ("square_matrix_ibm", 2), ("ivp.double_ibm", 3)):
        yield f"{n} model", chain_model(n, k)
    yield "shapes and autonomy", shapes
    for n in ("fhn", "square_matrix_fhn"):
        yield f"{n} mean", expand_mean(n, True, 3)
        yield f"{n} covariance", expand_cov(n, True, 4, "leading")
    yield "synaptic_conductance mean", expand_mean("synaptic_conductance", False, 3)
    yield "synaptic_conductance variance", expand_cov("synaptic_conductance", False, 4, "exact", (0, 0))
    yield "synaptic_conductance_reduced mean", expand_mean("synaptic_conductance_reduced", False, 3)
    yield "harmonic_oscillator_square covariance", expand_cov("harmonic_oscillator_square", False, 5, "exact")
    for n in ("ibm", "square_matrix_ibm", "ivp.double_ibm"):
        yield f"{n} covariance", linear_var(n, True, 3)
    for n, td in (("harmonic_oscillator", True), ("harmonic_oscillator_square", False)):
        yield f"{n} moments", oscillator(n, td)
    yield "gbm moments", gbm
    yield "square fhn", square("fhn", "square_matrix_fhn", True)
    yield "square ibm", square("ibm", "square_matrix_ibm", True)
    for dim, g in ((1, False), (2, False), (2, True), (3, False)):
        yield f"random_linear_sde dim={dim} given={g}", random_sde(dim, g)
