"""Algorithm 3: ekf0_2 and ekf1_2 carry the law of the solution over steps."""
from .. import core as C
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from .catalogue import bm_model
from .common import SEM, TRUST, ode_obs, prior_sym, spd, times

EXPLAIN = SEM + (" Obligations: mean and covariance returned by ekf0_2 and ekf1_2 against the specification filter started "
                 "from the given mean and covariance, the law of the sample, the return_all outputs, independence of the "
                 "incoming sample, and the composition over two steps through sde_solver.")
RULE = ("initial state N((m, f(m,0)), (I,H) P (I,H)^T), H = J_f(m, 0) for ekf1_2 and 0 for ekf0_2; (m', P') = posterior of the "
        "solution; sample ~ N(m', P') (= m' when key is None); return_all adds the full sample, mean, covariance and the "
        "last innovation and its covariance; the result does not depend on the incoming sample.")
ASSUME = TRUST
FLOOR = 24


def spec(name, f, m0, P0, h, N, prior, noise):
    d = m0.shape[0]
    z = wrap(C.ZERO)
    H = S.jac(lambda q: f(q, z), m0) if name == "ekf1_2" else S.zeros(d, d)
    m = S.interlace([m0, f(m0, z)])
    P = S.block4(P0, P0 @ S.T(H), H @ P0, H @ P0 @ S.T(H))
    xi, Q, A = S.ibm(1, h, d) if prior is None else prior
    R = S.zeros(d, d) if noise is None else noise
    return S.ekf(m, P, ode_obs(f, 2, name == "ekf0_2"), A, Q, xi, R, times(h, N))


def one(name, d, N, prior, noise, sqrt, all_):
    def run(ob):
        f, h = L.fun("f", (d,)), L.scal("h")
        s0, m0, P0 = L.vec("s", d), L.vec("m", d), spd("P0", d)
        kw = {} if sqrt is None else {"sqrt": sqrt}
        if prior:
            kw["prior"] = prior_sym(2 * d)
        if noise:
            kw["noise"] = spd("R", d)
        g = ob.get("ode_solvers." + name)
        m, P, z, Sm = spec(name, f, m0, P0, h, N, kw.get("prior"), kw.get("noise"))
        r = g(L.key(), (s0, m0, P0), f, h, N, return_all=all_, **kw)
        if all_:
            r, (fs, fm, fP, fS, fz) = r
            S.check_law(ob, "full sample", [fs], m, P)
            for n, a, b in (("mean", fm, m), ("covariance", fP, P), ("innovation", fz, z), ("innovation covariance", fS, Sm)):
                ob.eq(f"full {n}", a, b)
            ob.eq("sample", r[0], fs[::2])
        ob.eq("mean", r[1], m[::2])
        ob.eq("covariance", r[2], P[::2, ::2])
        S.check_law(ob, "sample", [r[0]], m[::2], P[::2, ::2])
        dep = {n.extra[0] for a in r for n in C.atoms_of(list(a.data.reshape(-1)))}
        ob.require("s" not in dep, "the result depends on the incoming sample", "dependence")
        q = g(None, (s0, m0, P0), f, h, N, **kw)
        ob.eq("sample with key=None", q[0], m[::2])
        ob.eq("mean with key=None", q[1], m[::2])
    return run


def degenerate(name, sqrt):
    """zero incoming covariance: the documented initial value (x0, x0, 0)"""
    def run(ob):
        d = 2
        f, h, x = L.fun("f", (d,)), L.scal("h"), L.vec("x", d)
        m, P, _, _ = spec(name, f, x, S.zeros(d, d), h, 1, None, None)
        r = ob.get("ode_solvers." + name)(L.key(), (x, x, S.zeros(d, d)), f, h, 1, sqrt=sqrt)
        ob.eq("mean", r[1], m[::2])
        ob.eq("covariance", r[2], P[::2, ::2])
        S.check_law(ob, "sample", [r[0]], m[::2], P[::2, ::2])
        ob.no_event("nan", what="from a zero covariance: ")
    return run


def chained(name, sqrt):
    """the law after two steps of sde_solver is the law filtered twice"""
    def run(ob):
        d = 1
        delta = L.scal("delta")
        f, s = L.fun("f", (d,)), L.fun("s", (d, 1))
        x = L.vec("x", d)
        P0 = spd("P0", d)
        g = ob.get("ode_solvers." + name)
        fields = []

        def ode_int(key, init, vector_field, T):
            fields.append((init, vector_field))
            return g(key, init=init, vector_field=vector_field, h=T, N=1, sqrt=sqrt)
        r = ob.get("sde_solver.sde_solver")(key=L.key(), drift=f, sigma=s, x0=(x, x, P0), bm=bm_model(1), delta=delta, N=2,
                                            ode_int=ode_int)
        (ss, ms, Ps), co = r[1], r[2:]
        from .. import jx
        path = L.fun("path", (1,))
        m, P = x, P0
        for k in range(2):
            c = [q[k] for q in co]
            tk = wrap(C.const(k)) * delta

            def vf(z, t, c=c, tk=tk):
                dB = jx.REG["jax.jacfwd"](lambda q: path(q, delta, *c))(t)
                return f(z, t + tk) + s(z, t + tk) @ dB
            fm, fP, _, _ = spec(name, vf, m, P, delta, 1, None, None)
            m, P = fm[::2], fP[::2, ::2]
            ob.eq(f"mean after step {k + 1}", ms[k + 1], m)
            ob.eq(f"covariance after step {k + 1}", Ps[k + 1], P)
    return run


def obligations(tier):
    for name in ("ekf0_2", "ekf1_2"):
        for sqrt in (None, False, True):
            for d, N in [(1, 1), (2, 1), (2, 2)] + [(1, N) for N in sizes.steps((2, 3, 12), 101)] + \
                    [(d, 1) for d in sizes.dims((3, 4, 9), 9, 20)]:
                for prior, noise in [(False, False), (True, True)]:
                    for all_ in (False, True):
                        yield f"{name} d={d} N={N} prior={prior} noise={noise} sqrt={sqrt} all={all_}", \
                            one(name, d, N, prior, noise, sqrt, all_)
        for sqrt in (False, True):
            yield f"{name} zero covariance sqrt={sqrt}", degenerate(name, sqrt)
            yield f"{name} chained sqrt={sqrt}", chained(name, sqrt)
