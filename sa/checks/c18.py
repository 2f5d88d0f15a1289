"""Layout of stacked states: interlacing, padding, factorised priors, decoupled coordinates."""
import numpy as np

from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .common import SEM, TRUST, prior_sym, spd

EXPLAIN = SEM + (" Obligations: interlace, interlace_matrix, pad_prior and get_independently_factorized_prior on generic "
                 "arrays; ekf0, ekf1, ekf0_2, ekf1_2 on a vector field whose coordinates are decoupled, with a factorised "
                 "prior of different blocks, against the one-dimensional solves; relabelling of the coordinates; a padded "
                 "prior against the unpadded one.")
RULE = ("interlace: out[n i + s] = arrays[s][i]; interlace_matrix: out[2i+a, 2j+b] = block_ab[i, j]; pad_prior and the "
        "factorised prior are block diagonal with zeros elsewhere; decoupled coordinates with independent priors are solved "
        "as separate problems and are independent a posteriori; permuting the coordinates of the problem permutes the result.")
ASSUME = TRUST
FLOOR = 40


def inter(n, d):
    def run(ob):
        parts = [L.vec(f"a{s}", d) for s in range(n)]
        for nm, seq in (("tuple", tuple(parts)), ("list", list(parts))):
            r = ob.get("ode_solvers.probnum.interlace")(seq)
            ob.eq(f"interlace of a {nm}", r, S.interlace(parts))
            for s in range(n):
                ob.eq(f"state {s} by stride", r[s::n], parts[s])
    return run


def imat(d):
    def run(ob):
        b = [L.mat(c, d, d) for c in "abcd"]
        r = ob.get("ode_solvers.probnum.interlace_matrix")(*b)
        ob.eq("interlace_matrix", r, S.block4(*b))
    return run


def pad(n, q):
    def run(ob):
        xi, Q, A = prior_sym(n)
        r = ob.get("ode_solvers.probnum.pad_prior")((xi, Q, A), q)
        z = q + 1 - n
        bd = lambda M: S.jnp("block")([[M, S.zeros(n, z)], [S.zeros(z, n), S.zeros(z, z)]])
        for nm, g, w in zip(("xi", "Q", "A"), r, (S.concat([xi, S.zeros(z)]), bd(Q), bd(A))):
            ob.eq(nm, g, w)
    return run


def blockdiag(ms):
    n = sum(m.shape[0] for m in ms)
    out = np.empty((n, n), dtype=object)
    out[...] = C.ZERO
    i = 0
    for m in ms:
        out[i:i + m.shape[0], i:i + m.shape[0]] = m.data
        i += m.shape[0]
    return Arr(out)


def factor(sizes):
    def run(ob):
        ts = [prior_sym(n, f"p{k}") for k, n in enumerate(sizes)]
        for seq in (ts, tuple(ts)):
            xi, Q, A = ob.get("ode_solvers.probnum.get_independently_factorized_prior")(seq)
            ob.eq("xi", xi, S.concat([t[0] for t in ts]))
            ob.eq("Q", Q, blockdiag([t[1] for t in ts]))
            ob.eq("A", A, blockdiag([t[2] for t in ts]))
    return run


def decoupled_field(d):
    fs = [L.fun(f"f{i}", ()) for i in range(d)]
    return (lambda x, t: S.stack([fs[i](x[i], t) for i in range(d)])), fs


def one_dim(f):
    return lambda x, t: S.stack([f(x[0], t)])


def decoupled(name, d, ns, N, sqrt, noise):
    def run(ob):
        vf, fs = decoupled_field(d)
        h, x = L.scal("h"), L.vec("x", d)
        ps = [prior_sym(ns, f"p{i}") for i in range(d)]
        r = [L.scal(f"r{i}") for i in range(d)]
        prior = ob.get("ode_solvers.probnum.get_independently_factorized_prior")(ps)
        g = ob.get("ode_solvers." + name)
        two = name.endswith("_2")
        kw = {"noise": S.jnp("diag")(S.stack([q * q for q in r]))} if noise else {}
        kw1 = [{"noise": (r[i] * r[i])[None, None]} if noise else {} for i in range(d)]
        P0 = [L.scal(f"P{i}") for i in range(d)]
        x_in = (L.vec("s", d), x, S.jnp("diag")(S.stack([p * p for p in P0]))) if two else x
        x_1 = [(L.vec("s", 1), x[i:i + 1], (P0[i] * P0[i])[None, None]) if two else x[i:i + 1] for i in range(d)]
        one = [g(None, x_1[i], one_dim(fs[i]), h, N, sqrt=sqrt, prior=ps[i], **kw1[i]) for i in range(d)]
        whole = g(None, x_in, vf, h, N, sqrt=sqrt, prior=prior, **kw)
        if two:
            ob.eq("mean", whole[1], S.concat([o[1] for o in one]))
            ob.eq("covariance", whole[2], blockdiag([o[2] for o in one]))
            return
        ob.eq("mean", whole, S.concat(one))
        law = S.Law([g(L.key(), x_in, vf, h, N, sqrt=sqrt, prior=prior, **kw)])
        l1 = [S.Law([g(L.key(), x_1[i], one_dim(fs[i]), h, N, sqrt=sqrt, prior=ps[i], **kw1[i])]) for i in range(d)]
        site = next((C.prim(q).site for q in law.roots if isinstance(C.prim(q), C.Sc)), None)
        for i in range(d):
            for j in range(i + 1):
                w = l1[i].cov(0, 0) if i == j else 0
                ob.require(law.cov(i, j) == w, f"posterior covariance of the decoupled coordinates {i} and {j} is not "
                           + ("that of the one dimensional problem" if i == j else "zero"), "law", site)
    return run


def permuted(name, sqrt, ns):
    def run(ob):
        d = 2
        f, h, x = L.fun("f", (d,)), L.scal("h"), L.vec("x", d)
        pi = [1, 0]
        sw = lambda v: S.stack([v[i] for i in pi])
        xi, Q, A = prior_sym(ns * d)
        idx = [pi[i] * ns + s for i in range(d) for s in range(ns)]
        px = Arr(xi.data[idx])
        pm = lambda M: Arr(M.data[np.ix_(idx, idx)])
        R = spd("R", d)
        pR = Arr(R.data[np.ix_(pi, pi)])
        g = ob.get("ode_solvers." + name)
        a = g(None, x, f, h, 1, sqrt=sqrt, prior=(xi, Q, A), noise=R)
        b = g(None, sw(x), lambda z, t: sw(f(sw(z), t)), h, 1, sqrt=sqrt, prior=(px, pm(Q), pm(A)), noise=pR)
        ob.eq("mean of the relabelled problem", sw(b), a)
    return run


def default_decoupled(name, sqrt):
    """default prior: the same for every coordinate"""
    def run(ob):
        d = 3
        vf, fs = decoupled_field(d)
        h, x = L.scal("h"), L.vec("x", d)
        g = ob.get("ode_solvers." + name)
        one = [g(None, x[i:i + 1], one_dim(fs[i]), h, 2, sqrt=sqrt) for i in range(d)]
        ob.eq("mean", g(None, x, vf, h, 2, sqrt=sqrt), S.concat(one))
    return run


def padded(name, sqrt, d, N, q):
    """states added by pad_prior do not change the solution when the padded states carry no information"""
    def run(ob):
        f, h, x = L.fun("f", (d,)), L.scal("h"), L.vec("x", d)
        ps = [prior_sym(2, f"pr{i}") for i in range(d)]
        pad = ob.get("ode_solvers.probnum.pad_prior")
        fac = ob.get("ode_solvers.probnum.get_independently_factorized_prior")
        g = ob.get("ode_solvers." + name)
        a = g(None, x, f, h, N, sqrt=sqrt, prior=fac(tuple(ps)))
        b = g(None, x, f, h, N, sqrt=sqrt, prior=fac(tuple(pad(p, q) for p in ps)))
        ob.eq("mean with the padded prior", b, a)
        for e in CTX.events:
            if e.kind in ("singular-root", "indefinite", "nan", "singular-solve"):
                ob.fail(f"padded prior: {e.msg}", e.kind, e.site)
                break
    return run


def obligations(tier):
    big = tier == "thorough"
    for n, d in [(2, 1), (2, 2), (2, 3), (3, 2), (4, 2), (5, 3)] + [(n, 2) for n in sizes.dims((6, 17), 17, 130)] + [(2, d) for d in sizes.dims((4, 17), 17, 130)]:
        yield f"interlace n={n} d={d}", inter(n, d)
    for d in sizes.dims((1, 2, 3, 4, 17), 17, 64):
        yield f"interlace_matrix d={d}", imat(d)
    for n, q in [(2, 2), (2, 4), (3, 3), (1, 1), (1, 5), (5, 7)]:
        yield f"pad_prior {n} states to order {q}", pad(n, q)
    for parts in [(2,), (2, 2), (2, 3), (1, 2, 3), (3, 1), (2, 2, 2, 2), (1, 1, 1, 1, 1)]:
        yield f"factorised prior {parts}", factor(parts)
    for name in ("ekf0", "ekf1"):
        for sqrt in (False, True):
            for d, ns, N in [(2, 2, 1), (2, 3, 1), (2, 4, 1), (3, 2, 1), (2, 2, 2), (3, 3, 1), (4, 2, 1)]:
                yield f"{name} decoupled d={d} n_states={ns} N={N} sqrt={sqrt}", decoupled(name, d, ns, N, sqrt, d == 2)
            yield f"{name} decoupled default prior sqrt={sqrt}", default_decoupled(name, sqrt)
            for ns in (2, 3):
                yield f"{name} relabelled n_states={ns} sqrt={sqrt}", permuted(name, sqrt, ns)
            for d, N, q in ((1, 1, 2), (1, 2, 3), (2, 1, 2), (1, 3, 2)):
                yield f"{name} padded prior d={d} N={N} q={q} sqrt={sqrt}", padded(name, sqrt, d, N, q)
    for name in ("ekf0_2", "ekf1_2"):
        for sqrt in (False, True):
            for d, N in ((2, 1), (2, 2), (3, 1)):
                yield f"{name} decoupled d={d} N={N} sqrt={sqrt}", decoupled(name, d, 2, N, sqrt, True)
