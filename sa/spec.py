"""Specifications written as value graphs, and the laws of Gaussian outputs."""
from fractions import Fraction

import numpy as np

from . import core as C
from . import field as F
from . import jx
from .arr import Arr, asarr, binop, matmul, wrap
from .core import CTX, Bo, Num, Sc
from .engine import Ob
from .lib import D, compare, fps

R = jx.REG
half = Fraction(1, 2)


def jnp(name):
    return R["jax.numpy." + name]


def eye(n):
    return jnp("eye")(n)


def zeros(*s):
    return jnp("zeros")(s)


def sqrt(x):
    return jnp("sqrt")(x)


def stack(xs):
    return jnp("stack")(list(xs))


def concat(xs, axis=0):
    return jnp("concatenate")(list(xs), axis=axis)


def jac(f, x):
    return R["jax.jacfwd"](f)(x)


def hess(f, x):
    return R["jax.hessian"](f)(x)


def kron(a, b):
    return jnp("kron")(a, b)


def inv_solve(S, B):
    return R["jax.numpy.linalg.solve"](S, B)


def at(a, *i):
    return asarr(a)[tuple(i) if len(i) != 1 else i[0]]


def T(a):
    return jnp("transpose")(a)


# ---------------------------------------------------------------- Kalman filter

def predict(m, P, A, Q, xi):
    return A @ m + xi, A @ P @ T(A) + Q


def update(m, P, c, H, Rn):
    S = H @ P @ T(H) + Rn
    K = T(inv_solve(S, H @ P))
    return m - K @ c, P - K @ H @ P, S


def ekf(m, P, obs, A, Q, xi, Rn, ts):
    z = S = None
    for t in ts:
        m, P = predict(m, P, A, Q, xi)
        c = obs(m, t)
        H = jac(lambda x: obs(x, t), m)
        m, P, S = update(m, P, c, H, Rn)
        z = c
    return m, P, z, S


def interlace(parts):
    """(p_0, ..., p_{s-1}) of d coordinates -> [p_0[0], p_1[0], ..., p_0[1], ...]"""
    ps = [D(p) for p in parts]
    out = [p[i] for i in range(len(ps[0])) for p in ps]
    a = np.empty((len(out),), dtype=object)
    for i, e in enumerate(out):
        a[i] = e
    return Arr(a)


def block4(P00, P01, P10, P11):
    """interlaced covariance of (x, y) given its blocks"""
    d = P00.shape[0]
    out = np.empty((2 * d, 2 * d), dtype=object)
    for i in range(d):
        for j in range(d):
            out[2 * i, 2 * j] = D(P00)[i, j]
            out[2 * i, 2 * j + 1] = D(P01)[i, j]
            out[2 * i + 1, 2 * j] = D(P10)[i, j]
            out[2 * i + 1, 2 * j + 1] = D(P11)[i, j]
    return Arr(out)


def ibm(q, h, dim, sigma=1):
    """transition of the q times integrated Brownian motion"""
    from math import factorial
    n = q + 1
    A = np.empty((n, n), dtype=object)
    Q = np.empty((n, n), dtype=object)
    hh = C.num(asarr(h).scalar())
    for i in range(n):
        for j in range(n):
            A[i, j] = C.mul(C.powi(hh, j - i), C.const(Fraction(1, factorial(j - i)))) if j >= i else C.ZERO
            e = 2 * q + 1 - i - j
            Q[i, j] = C.mul(C.powi(hh, e), C.const(Fraction(1, e * factorial(q - i) * factorial(q - j))))
    return zeros(dim * n), kron(eye(dim), Arr(Q)) * sigma ** 2, kron(eye(dim), Arr(A))


# ---------------------------------------------------------------- laws

class Law:
    """mean and covariance of arrays that are affine in independent standard normal draws"""

    def __init__(self, arrays):
        self.roots = []
        for a in arrays:
            self.roots += [C.num(e) for e in D(a).reshape(-1)]
        from .lib import affine
        self.all, self.atoms, self.mean, self.rows, self.exact = affine(self.roots)
        self.bad = [a for a in self.atoms if a.extra[1][0] != "normal"]

    def cov(self, i, j):
        a, b = self.rows[i], self.rows[j]
        if len(b) < len(a):
            a, b = b, a
        s = 0
        for k, c in a.items():
            d = b.get(k)
            if d is not None:
                s = F.add(s, F.mul(c, d))
        return s

    def moved(self):
        """the draws with a nonzero coefficient"""
        return [self.all[k] for k in sorted(set().union(*self.rows))] if self.rows else []


def scaled_eye(n, v):
    """v times the identity"""
    out = np.full((n, n), C.ZERO, dtype=object)
    v = C.num(asarr(v).scalar())
    for i in range(n):
        out[i, i] = v
    return Arr(out)


def check_law(ob: Ob, what, arrays, mean, cov, rule="law"):
    """the concatenation of `arrays` is Gaussian with the given mean and covariance"""
    law = Law(arrays)
    n = len(law.roots)
    ob.facts += 1
    site = next((r.site for r in map(C.prim, law.roots) if isinstance(r, Sc) and r.site), None)
    if law.bad:
        b = law.bad[0]
        return ob.require(False, f"{what}: depends on a draw that is not Gaussian ({b.extra[1][0]})", rule, b.site)
    if not law.exact:
        return ob.require(False, f"{what}: is not an affine function of the Gaussian draws", rule, site)
    m = fps(mean)
    for i in range(n):
        if law.mean[i] != m[i]:
            return ob.require(False, f"{what}: wrong mean of component {i}; the analysed expression is "
                                     f"{C.show(C.prim(law.roots[i]), 4)[:300]}", rule,
                              C.prim(law.roots[i]).site or site)
    c = D(cov)
    assert c.shape == (n, n), (c.shape, n)
    for i in range(n):
        for j in range(i + 1):
            if law.cov(i, j) != (0 if c[i, j] is C.ZERO else C.prim(C.num(c[i, j])).fp):
                return ob.require(False, f"{what}: wrong covariance of components {i} and {j} "
                                         f"(required {C.show(C.prim(C.num(c[i, j])), 4)[:200]}); component {i} is "
                                         f"{C.show(C.prim(law.roots[i]), 4)[:300]}", rule,
                                  C.prim(law.roots[i]).site or site)
    return True
