"""Strong Taylor scheme of order 1.5 for diagonal noise."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: the trajectory of diag_15_scheme for uninterpreted drift and diagonal diffusion whose i-th "
                 "entry depends on the i-th coordinate, against the scheme of Kloeden and Platen 10.4 with all its first and "
                 "second derivative terms; the pairs (eta, zeta) it consumes are read with two probes (zero drift; unit "
                 "linear drift) and their joint law over all steps is compared with the exact one.")
RULE = ("x_k + a h + b eta + h^2/2 L0 a + sum_j b_j d_j a zeta_j + L0 b (h eta - zeta) + b b'(eta^2 - h)/2 + b (b b')' "
        "(eta^2/3 - h) eta / 2, L0 = sum a_j d_j + sum b_j^2 d_jj / 2; (eta, zeta) ~ N(0, [[h, h^2/2], [h^2/2, h^3/3]]) "
        "independent over steps and coordinates.")
ASSUME = TRUST
FLOOR = 10


def diag(v):
    return S.jnp("diag")(v)


def field(d, kind):
    M, c = L.mat("M", d, d), L.vec("c", d)
    if kind == "generic":
        drift = L.fun("a", (d,))
    elif kind == "linear":
        drift = lambda x: M @ x + c
    b = L.fun("b", (d,), masks=lambda i, n: tuple(j == i for j in range(n)))
    return drift, b


def noise(ob, d, N, h):
    g = ob.get("sde_solvers.diag_15_scheme")
    one = S.eye(d)
    x0 = S.zeros(d)
    _, xs = g(L.key(), x0, lambda x: S.zeros(d), lambda x: one, h, N)
    _, ys = g(L.key(), x0, lambda x: 1 * x, lambda x: one, h, N)
    eta = [xs[k + 1] - xs[k] for k in range(N)]
    zeta = [ys[k + 1] - ys[k] - h * ys[k] - h * h / 2 * ys[k] - eta[k] for k in range(N)]
    return eta, zeta


def step(a, b, x, h, eta, zeta):
    d = x.shape[0]
    Ja, Ha = S.jac(a, x), S.hess(a, x)
    Jb, Hb = S.jac(b, x), S.hess(b, x)
    av, bv = a(x), b(x)
    out = []
    for k in range(d):
        L0a = sum((av[j] * Ja[k, j] + bv[j] ** 2 * Ha[k, j, j] / 2 for j in range(d)), wrap(C.ZERO))
        b1, b2 = Jb[k, k], Hb[k, k, k]
        L0b = av[k] * b1 + bv[k] ** 2 * b2 / 2
        e, z = eta[k], zeta[k]
        v = x[k] + h * av[k] + bv[k] * e + h * h / 2 * L0a
        for j in range(d):
            v = v + bv[j] * Ja[k, j] * zeta[j]
        v = v + L0b * (h * e - z) + bv[k] * b1 * (e * e - h) / 2
        v = v + bv[k] * (b1 * b1 + bv[k] * b2) * (e * e / 3 - h) * e / 2
        out.append(v)
    return S.stack(out)


def traj(d, N, kind, nkind):
    def run(ob):
        h, x0 = L.scal("h"), L.vec("x", d)
        a, b = field(d, kind)
        if nkind == "constant":
            bc = L.vec("b", d)
            b = lambda x: bc
        elif nkind == "proportional":
            bc = L.vec("b", d)
            b = lambda x: bc * x
        eta, zeta = noise(ob, d, N, h)
        ts, xs = ob.get("sde_solvers.diag_15_scheme")(L.key(), x0, a, lambda x: diag(b(x)), h, N)
        ob.eq("initial value", xs[0], x0)
        x = x0
        for k in range(N):
            x = step(a, b, x, h, eta[k], zeta[k])
            ob.eq(f"state {k + 1}", xs[k + 1], x)
        ob.eq("time grid", ts, S.stack([wrap(C.const(k)) * h for k in range(N + 1)]))
    return run


def law(d, N):
    def run(ob):
        h = L.scal("h")
        eta, zeta = noise(ob, d, N, h)
        rows = []
        for k in range(N):
            rows += [eta[k], zeta[k]]
        c = S.jnp("block")([[h * S.eye(d), h ** 2 / 2 * S.eye(d)], [h ** 2 / 2 * S.eye(d), h ** 3 / 3 * S.eye(d)]])
        S.check_law(ob, "(eta, zeta)", rows, S.zeros(2 * d * N), S.kron(S.eye(N), c))
    return run


def obligations(tier):
    big = tier == "thorough"
    for d, N in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1)]:
        yield f"trajectory d={d} N={N}", traj(d, N, "generic", "generic")
    for d, N, nk in [(2, 3, "constant"), (2, 2, "proportional"), (4, 2, "constant"), (5, 1, "proportional")] + \
            [(1, N, k) for N in sizes.steps((3, 6, 40), 101, 300) for k in ("constant", "proportional")]:
        yield f"trajectory d={d} N={N} linear drift, {nk} noise", traj(d, N, "linear", nk)
    for d, N in [(1, 1), (2, 2), (3, 1), (3, 4), (5, 2)] + [(1, N) for N in sizes.steps((3, 12, 40), 101, 300)]:
        yield f"noise d={d} N={N}", law(d, N)
