"""Prior transition models."""
import numpy as np
from fractions import Fraction
from math import comb

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX, ProgramError, Unsupported
from ..interp import ProgramRaise
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: (xi, Q, A) returned by the integrated Ornstein-Uhlenbeck, Matérn and generic transition "
                 "functions for several orders and numbers of coordinates against the transition of the documented linear "
                 "SDE, obtained independently (Taylor coefficients, matrix exponential of triangular and nilpotent-plus-"
                 "scalar matrices in closed form, Lyapunov equation for the Matérn covariance, Van Loan blocks for the "
                 "generic one); the quadrature over at least 64 points is abstracted by the exact integral.")
RULE = ("A = expm(F h), xi = int_0^h expm(F s) u ds, Q = int_0^h expm(F s) L L^T expm(F s)^T ds; the same block for every "
        "coordinate (kron(I, .)); Q proportional to the squared magnitude; IOUP: F = companion of -theta, Q the IBM one "
        "(documented leading order), exact at theta = 0.")
ASSUME = TRUST + ["quadratures over 64 or more points are exact (their discretisation error is not analysed)"]
FLOOR = 30


def expm(M):
    return jx.REG["jax.scipy.linalg.expm"](M)


def mat(rows):
    d = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, e in enumerate(r):
            d[i, j] = C.num(asarr(e).scalar()) if isinstance(e, Arr) else C.const(e)
    return Arr(d)


NPTS = 7


def trapezoid_rule(F, u, Lm, h):
    """the transition with the integrals replaced by the trapezoidal rule over NPTS points"""
    E = [expm(F * (h * Fraction(i, NPTS - 1))) for i in range(NPTS)]
    w = [Fraction(1, 2 * (NPTS - 1)) if i in (0, NPTS - 1) else Fraction(1, NPTS - 1) for i in range(NPTS)]
    xi = sum(((e @ u) * (h * c) for e, c in zip(E[1:], w[1:])), (E[0] @ u) * (h * w[0]))
    B = [e @ Lm for e in E]
    Q = sum(((b @ S.T(b)) * (h * c) for b, c in zip(B[1:], w[1:])), (B[0] @ S.T(B[0])) * (h * w[0]))
    return xi, Q, E[-1]


def either(main, points):
    """the quadrature abstracted by the exact integral; a program that takes single quadrature points apart is not covered by
    this abstraction and is compared with the trapezoidal rule over a fixed number of points instead"""
    def run(ob):
        CTX.fine_grid = 64
        try:
            main(ob)
            if not ob.fails:
                return
            err = None
        except Unsupported as e:
            err = e
        fails, ob.fails = ob.fails, []
        CTX.fine_grid, CTX.shrink = None, NPTS
        ob.interp = L.load()
        try:
            points(ob)
            ok = not ob.fails
        except (Unsupported, ProgramError, ProgramRaise):
            ok = False
        CTX.shrink = None
        if ok:
            return
        ob.fails = fails
        if err is not None:
            raise err
    run.points = points
    return run


def compare(ob, r, xi, Q, A):
    gx, gQ, gA = r
    ob.eq("xi", gx, xi)
    ob.eq("A", gA, A)
    ob.eq("Q", gQ, Q)


def ioup(q, dim, theta0):
    def run(ob):
        sig, dt = L.scal("sig"), L.scal("dt")
        theta = 0.0 if theta0 else L.scal("theta")
        r = ob.get("ode_solvers.probnum.IOUP_transition_function")(theta, sig, q, dt, dim)
        xi, Q, A = S.ibm(q, dt, dim)
        Q = Q * sig ** 2
        if not theta0:
            F = mat([[1 if j == i + 1 else 0 for j in range(q + 1)] for i in range(q)] +
                    [[0] * q + [-asarr(theta)]])
            A = S.kron(S.eye(dim), expm(F * dt))
        compare(ob, r, xi, Q, A)
    return run


def chapman(make, points=None):
    """composition of two steps is one step of the sum"""
    def run(ob):
        a, b = L.scal("dt"), L.scal("h")
        f = make(ob)
        (x1, Q1, A1), (x2, Q2, A2), (x, Q, A) = f(a), f(b), f(a + b)
        ob.eq("A(a+b)", A, A2 @ A1)
        ob.eq("Q(a+b)", Q, A2 @ Q1 @ S.T(A2) + Q2)
        ob.eq("xi(a+b)", x, A2 @ x1 + x2)
    return run if points is None else either(run, points)


def lyapunov(F, G):
    """X with F X + X F^T + G = 0"""
    n = F.shape[0]
    I = S.eye(n)
    K = S.kron(F, I) + S.kron(I, F)
    v = S.inv_solve(K, Arr(-G.data.reshape(n * n)))
    return Arr(asarr(v).data.reshape(n, n))


def matern(k, dim, mc, kw):
    def inputs():
        mag, ell, dt = L.scal("magnitude"), L.scal("length"), L.scal("dt")
        lam = S.sqrt(wrap(C.const(2 * k + 1))) / ell
        F = mat([[1 if j == i + 1 else 0 for j in range(k + 1)] for i in range(k)] +
                [[-(lam ** (k + 1 - i)) * comb(k + 1, i) for i in range(k + 1)]])
        return mag, ell, dt, F

    def call(ob, mag, ell, dt):
        return ob.get("ode_solvers.probnum.matern_transition_function")(k, mag, ell, dt, dim, **({"mc": mc} if kw else {}))

    def lift(ob, r, Q, A):
        compare(ob, r, S.zeros(dim * (k + 1)), S.kron(S.eye(dim), Q), S.kron(S.eye(dim), A))

    def run(ob):
        mag, ell, dt, F = inputs()
        r = call(ob, mag, ell, dt)
        G = mat([[0] * (k + 1)] * k + [[0] * k + [mag ** 2]])
        A = expm(F * dt)
        P = lyapunov(F, G)
        lift(ob, r, P - A @ P @ S.T(A), A)

    def points(ob):
        mag, ell, dt, F = inputs()
        r = call(ob, mag, ell, dt)
        Lm = mat([[0]] * k + [[mag]])
        lift(ob, r, *trapezoid_rule(F, S.zeros(k + 1), Lm, dt)[1:])
    return either(run, points)


def generic(kind, n, m, npts):
    def inputs():
        if kind == "nilpotent":
            F = mat([[L.scal(f"F{i}{j}") if j > i else 0 for j in range(n)] for i in range(n)])
        elif kind == "triangular":
            F = mat([[L.scal(f"F{i}{j}") if j >= i else 0 for j in range(n)] for i in range(n)])
        elif kind == "jordan":
            F = mat([[L.scal("lam") if j == i else (1 if j == i + 1 else 0) for j in range(n)] for i in range(n)])
        elif kind == "zero":
            F = S.zeros(n, n)
        else:
            F = L.mat("F", n, n)
        return F, L.vec("u", n), L.mat("Lm", n, m), L.scal("h")

    def run(ob):
        F, u, Lm, h = inputs()
        g = ob.get("ode_solvers.probnum.transition_function")
        r = g(F, u, Lm, h, **({} if npts is None else {"n_linspace": npts}))
        A = expm(F * h)
        if kind == "generic":
            ob.eq("A", r[2], A)
            return
        aug = mat([[wrap(F.data[i, j]) for j in range(n)] + [u[i]] for i in range(n)] + [[0] * (n + 1)])
        xi = expm(aug * h)[:n, n]
        vl = S.jnp("block")([[-F, Lm @ S.T(Lm)], [S.zeros(n, n), S.T(F)]])
        if kind in ("triangular", "jordan"):
            Q = quad_diag(F, Lm, h)
        else:
            E = expm(vl * h)
            Q = A @ E[:n, n:]
        compare(ob, r, xi, Q, A)

    def points(ob):
        F, u, Lm, h = inputs()
        r = ob.get("ode_solvers.probnum.transition_function")(F, u, Lm, h, **({} if npts is None else {"n_linspace": NPTS}))
        if kind == "generic":
            return ob.eq("A", r[2], expm(F * h))
        compare(ob, r, *trapezoid_rule(F, u, Lm, h))
    return either(run, points)


def quad_diag(F, Lm, h):
    """F X + X F^T + L L^T = 0, Q = X - A X A^T (no two eigenvalues are opposite, generically)"""
    A = expm(F * h)
    X = lyapunov(F, Lm @ S.T(Lm))
    return X - A @ X @ S.T(A)


def obligations(tier):
    big = tier == "thorough"
    for q in sizes.dims((1, 2, 3, 4, 5), 7, 12):
        for dim in (1, 2, 3):
            for t0 in (True, False):
                yield f"IOUP q={q} dim={dim} theta={'0' if t0 else 'generic'}", ioup(q, dim, t0)
    for k in (0, 1, 2, 3, 4) + ((5, 6) if big else ()):
        for dim in (1, 2, 3):
            yield f"Matern k={k} dim={dim}", matern(k, dim, False, False)
    for dim in (1, 2, 3):
        yield f"Matern k=1 dim={dim} quadrature", matern(1, dim, True, True)
        yield f"Matern k=1 dim={dim} closed form", matern(1, dim, False, True)
    for kind, n, m, pts in [("nilpotent", 2, 1, None), ("nilpotent", 3, 2, None), ("jordan", 2, 1, None), ("zero", 2, 2, None),
                            ("triangular", 1, 1, None), ("jordan", 3, 1, None), ("generic", 2, 1, None),
                            ("nilpotent", 2, 1, 400), ("jordan", 2, 2, 400)]:
        yield f"transition_function {kind} n={n} m={m} points={pts}", generic(kind, n, m, pts)
    for q in (1, 2):
        yield f"composition IOUP q={q}", chapman(
            lambda ob, q=q: lambda t: ob.get("ode_solvers.probnum.IOUP_transition_function")(0.0, L.scal("sig"), q, t, 1))
    for k, mc in ((0, False), (1, False), (1, True), (2, False)):
        yield f"composition Matern k={k} mc={mc}", chapman(
            lambda ob, k=k, mc=mc: lambda t: ob.get("ode_solvers.probnum.matern_transition_function")(
                k, L.scal("magnitude"), L.scal("length"), t, 1, mc=mc),
            matern(k, 1, mc, True).points)
