"""Configurations and drivers shared by the checks."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX

SEM = ("Abstract interpretation of the current source: the public entry points are interpreted on symbolic inputs "
       "(uninterpreted drift, diffusion and vector field with all their derivatives, symbolic step sizes, states, "
       "matrices and keys), every scalar is a node of a value graph identified by a fingerprint in a field of about "
       "2^122 elements (global value numbering by random interpretation), and the graph is compared with the graph "
       "of the specification or its Gaussian law is read off it. Neither the repository nor JAX is imported or run. "
       "Values are symbolic, shapes and iteration counts are those of the listed configurations.")
TRUST = ["the models of the jax, numpy, tqdm interface in sa/jx.py are faithful in exact real arithmetic",
         "two different expressions share a fingerprint with probability below 2^-60",
         "shapes and numbers of steps outside the listed configurations behave like the listed ones"]


def cfg(*rows):
    return rows


def const_fun(a):
    return lambda *args: a


def wrapped(solver, h_of_T=True, N=1, **kw):
    """ODE solver in the calling convention of sde_solver, as in the tests and scripts of the repository"""
    def f(key, init, vector_field, T):
        return solver(key, init=init, vector_field=vector_field, h=T / N, N=N, **kw)
    return f


def wrapped_det(solver, N=1):
    def f(_, init, vector_field, T):
        return solver(init=init, vector_field=vector_field, h=T / N, N=N)
    return f


def prior_sym(n, name="pr"):
    """a generic Gaussian transition (xi, Q, A) with Q = B B^T, B lower triangular"""
    B = L.lower(name + "B", n)
    return L.vec(name + "xi", n), B @ S.T(B), L.mat(name + "A", n, n)


def spd(name, n):
    B = L.lower(name, n)
    return B @ S.T(B)


def gram(name, n):
    """generic symmetric positive semi-definite matrix with a generic (non triangular) root"""
    B = L.mat(name, n, n)
    return B @ S.T(B)


def ode_spec_init(vf, x, n_states, dim):
    """mean parts and covariance of the initial state of the ODE filters"""
    zero = C.const(0)
    t0 = wrap(zero)
    f = vf(x, t0)
    parts = [x, f]
    if n_states > 2:
        ft = S.jac(lambda t: vf(x, t), t0)
        parts.append(S.jac(lambda z: vf(z, t0), x) @ f + ft)
    parts += [S.zeros(dim)] * (n_states - 3)
    n = n_states * dim
    P = np.empty((n, n), dtype=object)
    P[...] = C.ZERO
    for i in range(dim):
        for s in range(3, n_states):
            P[i * n_states + s, i * n_states + s] = C.ONE
    return S.interlace(parts), Arr(P)


def sg(a):
    return jx.REG["jax.lax.stop_gradient"](a)


def ode_obs(vf, n_states, ekf0):
    def obs(x, t):
        v = vf(x[::n_states], t)
        return x[1::n_states] - (sg(v) if ekf0 else v)
    return obs


def times(h, N, first=1):
    return [wrap(C.const(k)) * h for k in range(first, first + N)]


def ekf_spec(vf, x, h, N, ekf0, prior=None, noise=None, n_states=2):
    dim = x.shape[0]
    m, P = ode_spec_init(vf, x, n_states, dim)
    xi, Q, A = S.ibm(1, h, dim) if prior is None else prior
    Rn = S.zeros(dim, dim) if noise is None else noise
    return S.ekf(m, P, ode_obs(vf, n_states, ekf0), A, Q, xi, Rn, times(h, N))
