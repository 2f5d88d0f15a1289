"""The convergence experiments compare a solver with a reference driven by the same Brownian path."""
import ast
import glob
import os

import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX, ProgramError
from ..interp import Module, Scope, _parse
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: the module of every experiment script is interpreted with its problem (uninterpreted drift, "
                 "uninterpreted additive noise), Brownian approximation and solver replaced by opaque ones, its function `experiment` is "
                 "evaluated for a generic step and small numbers of steps, and every returned trajectory is taken apart: each "
                 "state is an output of the solver started from the previous one with the random ODE of one Brownian step, and the "
                 "reference state is Euler-Maruyama (or the exact solution) over the fine increments of that same Brownian step. "
                 "The loop that follows is interpreted with `experiment` intercepted: same horizon in every pass, files are not "
                 "overwritten.")
RULE = ("for every sample j and step k: sols[j, k+1] = solver(sols[j, k], f + s dB/dt of the coefficients c_jk, h M = delta, M substeps, "
        "prior over h); reference[j, k+1] = fine scheme from reference[j, k] with the increments in c_jk over delta/fine; both "
        "start at x0; c_jk differ for different samples and steps; N delta is the same in all passes.")
ASSUME = TRUST + ["the samples of an experiment are treated alike: a split into ten or more keys is read as a split into three"]
FLOOR = 20

SOLVERS = ("ekf0", "ekf1", "ekf0_2", "ekf1_2", "euler")
PRIORS = ("IOUP_transition_function", "matern_transition_function", "transition_function")
PROBLEMS = ("ibm", "square_matrix_ibm", "double_ibm", "square_matrix_double_ibm", "fhn", "square_matrix_fhn", "gbm", "fhn_1_param")


class World:
    """what the opaque parts were asked for"""

    def __init__(self):
        self.bm, self.solver, self.priors, self.marginal, self.scales = [], [], [], [], []
        self.x0 = self.f = self.s = self.m = None
        self.saves = []


def same(a, b):
    return not L.compare("", a, b)


def parameters(fn):
    """positional parameters of a function of the package and the constant defaults, through decorators that keep __wrapped__"""
    while not hasattr(fn, "_node"):
        inner = getattr(fn, "__wrapped__", None) or getattr(fn, "func", None)
        if inner is None:
            return [], {}
        fn = inner
    a = fn._node.args
    sig = [p.arg for p in a.posonlyargs + a.args]
    d = dict(zip(sig[len(sig) - len(a.defaults):], a.defaults))
    d.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return sig, {k: v.value for k, v in d.items() if isinstance(v, ast.Constant)}


def opaque(ob, w, mult=False, keep=()):
    """replace problem, Brownian approximation, solvers and priors of the package by opaque ones"""
    w.mult, w.converted = mult, False
    P = L.PKG
    z, t = None, L.scal("tau")

    def bm_factory(name):
        def get_approx(N=None, dim=1):
            m = jx.toint(dim) if isinstance(dim, Arr) else dim
            fine = None if N is None else jx.toint(N) if isinstance(N, Arr) else N

            def get(key, dt):
                own = repr(L.kpath(key))
                out = [L.fun(c, (m,))(asarr(dt), L.vec(c + " " + own, m)) for c in "ab"]
                if fine is not None:
                    out += [L.fun("inc", (fine, m))(asarr(dt), L.vec("i " + own, m)),
                            L.fun("area", (fine, m))(asarr(dt), L.vec("j " + own, m))]
                w.bm.append((dt, tuple(out), L.kpath(key)))
                return tuple(out)

            def ev(t, dt, *c):
                return L.fun("path", (m,))(asarr(t), asarr(dt), asarr(c[0]), asarr(c[1]))
            return get, ev
        return get_approx

    def state(n):
        return L.vec("z", n)

    def solver(name):
        carries = name.endswith("_2")

        def run(key, init, vector_field, h, N, prior=None, sqrt=False, noise=None, return_all=False):
            xs = init if carries else (init,)
            if carries and not (isinstance(init, tuple) and len(init) == 3):
                raise ProgramError("value", f"{name} needs a tuple of sample, mean and covariance")
            n = asarr(xs[0]).shape[0]
            v = vector_field(state(n), t)
            args = [asarr(x) for x in xs] + [asarr(v), asarr(h), asarr(N)]
            if name != "euler":
                args.append(asarr(noise if noise is not None else 0))
                if prior is not None:
                    args += [asarr(p) for p in prior]
            tag = name + (" sqrt" if sqrt else "")
            if carries:
                k = S.jnp("reshape")(L.fun(tag + " cov", (n, n))(*args), (n, n))
                out = (L.fun(tag + " sample", (n,))(*args, wrap(C.atom("solver key", repr(L.kpath(key))))),
                       L.fun(tag + " mean", (n,))(*args), k @ S.T(k))
            else:
                extra = [] if key is None else [wrap(C.atom("solver key", repr(L.kpath(key))))]
                out = L.fun(tag, (n,))(*args, *extra)
            rec = dict(name=name, key=None if key is None else L.kpath(key), init=init, v=v, h=h, N=N, out=out, prior=prior)
            w.solver.append(rec)
            if carries and return_all:
                q = lambda what, *sh: L.fun(tag + " " + what, sh)(*args)
                k = S.jnp("reshape")(q("innovation cov", n, n), (n, n))
                rec["all"] = (q("all sample", 2 * n), q("all mean", 2 * n), q("all cov", 2 * n, 2 * n), k @ S.T(k),
                              q("innovation", n))
                return out, rec["all"]
            return out
        if name == "euler":
            return lambda init, vector_field, h, N: run(None, init, vector_field, h, N)
        return run

    def problem(fn):
        def make(*a, **k):
            p = fn(*a, **k)
            n = asarr(p[0]).shape[0]
            m = asarr(p[2](p[0], 0.0)).shape[1]
            w.x0, w.m = L.vec("x", n), m
            f, s = L.fun("f", (n,)), L.fun("s", (n, m))
            a, b = L.vec("probe", n), L.vec("another probe", n)
            w.mult = w.mult or not same(p[2](a, 0.0), p[2](b, 0.0))
            w.f = lambda x, t: f(asarr(x), asarr(t))
            w.s = (lambda x, t: s(asarr(x), asarr(t))) if w.mult else lambda x, t: s(asarr(t))
            return (w.x0, w.f, w.s) + tuple(p[3:])
        return make

    def linear(key=None, dim=1, std1=None, std2=None):
        # drift matrix triangular: its exponential is available; the number of coordinates is not used by the script itself
        n = 2
        d = np.full((n, n), C.ZERO, dtype=object)
        d[0, 0], d[1, 0], d[1, 1] = C.atom("D", 0), C.atom("D", 1), C.atom("D", 2)
        D, G = Arr(d), L.mat("G", n, n)
        w.x0, w.m, w.D, w.G = L.vec("x", n), n, D, G
        w.f, w.s = (lambda x, t: D @ x), (lambda x, t: G)
        return w.x0, w.f, lambda x, t: G

    def prior(fn, name):
        def make(*a, **k):
            out = fn(*a, **k)
            sig, b = parameters(fn)
            b.update(zip(sig, a))
            b.update(k)
            step = [b[k] for k in ("dt", "h") if k in b]
            if not step:
                raise L.AnchorLost(f"{name} has no parameter for the step")
            w.priors.append((step[0], out))
            if "sigma" in b:
                w.scales.append(b["sigma"])
            return out
        return make

    def put(mod, table):
        m = ob.interp.module(P + "." + mod)
        for q in [m] + [x for x in list(ob.interp.modules.values()) if x is not m]:
            for k, v in list(q.globals.items()):
                for old, new in table:
                    if v is old:
                        q.globals[k] = new

    def wrap_names(mod, names, mk):
        m = ob.interp.module(P + "." + mod)
        put(mod, [(m.globals[n], mk(n, m.globals[n])) for n in names if n in m.globals])

    for mod in ("foster_polynomial", "ode_solvers", "ode_solvers.probnum", "utils", "utils.ivp", "ssm_parabola", "sde_solver",
                "sde_solvers", "ito_stratonovich"):
        ob.interp.module(P + "." + mod)
    wrap_names("foster_polynomial", ("get_approx", "get_approx_fine"), lambda n, o: bm_factory(n))
    wrap_names("ode_solvers", [n for n in SOLVERS if n not in keep], lambda n, o: solver(n))
    wrap_names("ode_solvers.probnum", PRIORS, lambda n, o: prior(o, n))
    wrap_names("utils.ivp", PROBLEMS, lambda n, o: problem(o))
    wrap_names("utils.ivp", ("random_linear_sde",), lambda n, o: linear)

    def convert(fn):
        def run(*a, **k):
            w.converted = True
            return fn(*a, **k)
        return run
    wrap_names("ito_stratonovich", ("to_stratonovich",), lambda n, o: convert(o))

    def marginal(name):
        def run(key, init, delta, drift, diffusion, h, N, sqrt=False, **k):
            n = asarr(init).shape[0]
            zz = state(n)
            out = L.fun(name, (n,))(asarr(init), asarr(delta), asarr(drift(zz, t)), asarr(diffusion(zz, t)), asarr(h), asarr(N),
                                    wrap(C.atom("solver key", repr(L.kpath(key)))))
            w.marginal.append(dict(key=L.kpath(key), init=init, delta=delta, f=drift(zz, t), s=diffusion(zz, t), h=h, N=N,
                                   out=out))
            # the driver uses the point; increment and area coefficient follow the signature of the marginal filters
            return out, L.vec("w", n), L.vec("i", n)
        return run
    wrap_names("ssm_parabola", ("ekf0_marginal_parabola", "ekf1_marginal_parabola"), lambda n, o: marginal(n))


def load(ob, path, w, pin=(), sizes=None):
    """interpret a script up to the definition of `experiment`; -> (module, scope, remaining statements)"""
    full = os.path.join(L.REPO, path)
    m = Module("script", path, full)
    m.globals.update(__name__="__main__", __file__=full, __doc__=None)
    m.tree = _parse(open(full, encoding="utf-8").read(), full)
    scope = Scope(None, m.globals, m, "")
    scope.vars = m.globals
    body = list(m.tree.body)
    for i, n in enumerate(body):
        # sizes of the experiment that are constants of the script
        if sizes and isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and type(n.value.value) is int \
                and n.value.value >= 100:
            body[i] = ast.copy_location(ast.Assign(n.targets, ast.copy_location(ast.Constant(sizes), n.value)), n)
        for name, v in pin:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                body[i] = ast.copy_location(ast.Assign(n.targets, ast.copy_location(ast.Constant(v), n.value)), n)
            elif isinstance(n, ast.FunctionDef) and n.name == name:
                to = ast.copy_location(ast.Name(name, ast.Store()), n)
                body[i] = ast.copy_location(ast.Assign([to], ast.copy_location(ast.Constant(v), n)), n)
    name = entry(m.tree)
    at = max((i for i, n in enumerate(body) if isinstance(n, ast.FunctionDef) and n.name == name), default=None)
    if at is None:
        raise L.AnchorLost(f"{path} has no function that runs the experiment")
    CTX.key_cap = (10, 3)
    CTX.fine_grid = 64
    ob.interp.block(body[:at + 1] + [n for n in body[at + 1:] if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import,
                                                                                 ast.ImportFrom))], scope)
    m.entry = m.globals[name]
    m.entry_name = name
    return m, scope, body[at + 1:]


def entry(tree):
    """name of the function that is run for every step size: the one called in the loop over them"""
    defs = {n.name for n in tree.body if isinstance(n, ast.FunctionDef)}
    if "experiment" in defs:
        return "experiment"
    for n in ast.walk(tree):
        if isinstance(n, ast.For):
            for c in ast.walk(n):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in defs:
                    return c.func.id
    return "experiment"


def em_ref(w, x, incs, h, t0):
    for i in range(asarr(incs).shape[0]):
        ti = t0 + wrap(C.const(i)) * h
        x = x + h * w.f(x, ti) + w.s(x, ti) @ incs[i]
    return x


def exact_ref(w, x, incs, h, t0):
    """exact flow of the linear equation, stochastic integral by the left points of the increments"""
    n = asarr(incs).shape[0]
    E = lambda s: jx.REG["jax.scipy.linalg.expm"](w.D * s)
    T = wrap(C.const(n)) * h
    out = E(T) @ x
    for i in range(n):
        out = out + E(T - wrap(C.const(i)) * h) @ w.G @ incs[i]
    return out


def ode_drift(w, z, t):
    """drift of the random ODE: the Stratonovich one"""
    if not w.mult:
        return w.f(z, t)
    s, J = w.s(z, t), S.jac(lambda y: w.s(y, t), z)
    n, m = s.shape
    out = []
    for i in range(n):
        e = wrap(C.ZERO)
        for k in range(m):
            for j in range(n):
                e = e + s[j, k] * J[i, k, j]
        out.append(e)
    return w.f(z, t) - wrap(C.HALF) * S.jnp("stack")(out)


class Paths:
    """assignment of the recorded Brownian steps to the states of the trajectories"""

    def __init__(self, ob, w, delta, N, M, fine):
        self.ob, self.w, self.delta, self.N, self.M, self.fine = ob, w, delta, N, M, fine
        self.of = {}
        seen, self.coefs = set(), []
        for dt, c, k in w.bm:
            key = L.fp_key(c)
            if key not in seen:
                seen.add(key)
                self.coefs.append((dt, c, k))

    def field(self, c, k):
        t, n = L.scal("tau"), asarr(self.w.x0).shape[0]
        z = L.vec("z", n)
        tk = wrap(C.const(k)) * self.delta
        path = lambda q: L.fun("path", (self.w.m,))(q, asarr(self.delta), asarr(c[0]), asarr(c[1]))
        return ode_drift(self.w, z, t + tk) + self.w.s(z, t + tk) @ jx.REG["jax.jacfwd"](path)(t)

    def claim(self, j, k, c, what):
        old = self.of.setdefault((j, k), c)
        self.ob.require(old is c, f"sample {j}, step {k}: {what} is driven by another Brownian path than the solution it is "
                                  f"compared with", "path")

    def solver_traj(self, R, what, start, carries=False, pick=lambda out: out):
        ob, w = self.ob, self.w
        outs = L.by_value(w.solver, lambda q: pick(q["out"]))
        for j in range(asarr(R).shape[0]):
            ob.eq(f"{what}: initial value of sample {j}", R[j][0], w.x0)
            prev = start
            if not ob.require(asarr(R).shape[1] == self.N + 1, f"{what} has {asarr(R).shape[1]} times for {self.N} steps", "shape"):
                return
            for k in range(self.N):
                q = outs.get(L.fp_key(R[j][k + 1]))
                if not ob.require(q is not None, f"{what}: state {k + 1} of sample {j} is not an output of the solver", "order"):
                    break
                for a, b in zip(jx.tree_leaves((q["init"],)), jx.tree_leaves((prev,))):
                    ob.eq(f"{what}: start of step {k}, sample {j}", a, b)
                prev = q["out"]
                ob.eq(f"{what}: number of substeps", asarr(q["N"]), asarr(self.M))
                ob.eq(f"{what}: step length of the solver", asarr(q["h"]) * self.M, self.delta)
                c = next((c for c in self.coefs if same(q["v"], self.field(c[1], k))), None)
                if c is None:
                    ob.eq(f"{what}: vector field of step {k}, sample {j}", q["v"], self.field((self.of.get((j, k)) or
                                                                                              self.coefs[0])[1], k))
                    break
                ob.eq(f"{what}: length of the Brownian step", asarr(c[0]), self.delta)
                self.claim(j, k, c, what)
                if q["prior"] is not None and w.priors:
                    for dt, _ in w.priors:
                        ob.eq(f"{what}: step of the prior", asarr(dt), asarr(q["h"]))

    def reference(self, R, what, scheme=em_ref, coarse=False):
        ob, w = self.ob, self.w
        h = self.delta / wrap(C.const(1 if coarse else self.fine))
        for j in range(asarr(R).shape[0]):
            ob.eq(f"{what}: initial value of sample {j}", R[j][0], w.x0)
            if not ob.require(asarr(R).shape[1] == self.N + 1, f"{what} has {asarr(R).shape[1]} times for {self.N} steps", "shape"):
                return
            for k in range(self.N):
                tk = wrap(C.const(k)) * self.delta
                inc = (lambda c: S.jnp("sum")(c[2], axis=0)[None]) if coarse else (lambda c: c[2])
                step = lambda c: scheme(w, R[j][k], inc(c[1]), h, tk)
                c = next((c for c in self.coefs if same(R[j][k + 1], step(c))), None)
                if c is None:
                    own = self.of.get((j, k)) or self.coefs[0]
                    ob.eq(f"{what}: state {k + 1} of sample {j}", R[j][k + 1], step(own))
                    break
                self.claim(j, k, c, what)

    def finish(self):
        ob = self.ob
        n = len({L.fp_key(c[1]) for c in self.of.values()})
        ob.require(n == len(self.of), "two samples or steps share a Brownian path", "path")
        ob.require(len(self.of) > 0, "no trajectory was recognised", "order")
        clash = L.key_clash([q["key"] for q in self.w.solver if q["key"] is not None] + [c[2] for c in self.coefs]
                            + [q["key"] for q in self.w.marginal])
        ob.require(clash is None, f"keys: {clash}", "key")
        sk = {q["key"] for q in self.w.solver if q["key"] is not None}
        ob.require(not sk & {c[2] for c in self.coefs}, "the solver and the Brownian approximation share a key", "key")


# ---------------------------------------------------------------- scripts

def setup(ob, path, N, M, fine, sizes=None, mult=False, keep=()):
    w = World()
    opaque(ob, w, keep=keep)
    m, scope, rest = load(ob, path, w, sizes=sizes)
    if mult and w.converted and not w.mult:
        # the script converts between the two calculi: noise that depends on the state
        w = World()
        opaque(ob, w, True, keep)
        m, scope, rest = load(ob, path, w, sizes=sizes)
    ob.w = w
    return w, m, scope, rest


def everyone(ob, R, what):
    """one row per sample"""
    return ob.require(asarr(R).shape[0] == 3, f"{what} has {asarr(R).shape[0]} entries for 3 samples", "shape")


def ram(path, carries):
    def mk(N, M, fine):
        def run(ob):
            w, m, _, _ = setup(ob, path, N, M, fine)
            delta = L.scal("delta")
            sols, ref = m.entry(delta, N, M, fine)
            if everyone(ob, sols, "solution") and everyone(ob, ref, "reference"):
                p = Paths(ob, w, delta, N, M, fine)
                n = asarr(w.x0).shape[0]
                start = (w.x0, w.x0, S.zeros(n, n)) if carries else w.x0
                p.solver_traj(sols, "solution", start, carries, (lambda o: o[0]) if carries else (lambda o: o))
                p.reference(ref, "reference")
                p.finish()
            ob.no_event("oob", what="")
        return run
    return mk


def em(path):
    def mk(N, M, fine):
        def run(ob):
            w, m, _, _ = setup(ob, path, N, M, fine)
            delta = L.scal("delta")
            sols, ref = m.entry(delta, N, fine)
            if everyone(ob, sols, "solution") and everyone(ob, ref, "reference"):
                p = Paths(ob, w, delta, N, M, fine)
                p.reference(ref, "reference")
                p.reference(sols, "coarse solution", coarse=True)
                p.finish()
            ob.no_event("oob", what="")
        return run
    return mk


def comparison(path):
    def mk(N, M, fine):
        def run(ob):
            w, m, _, _ = setup(ob, path, N, M, fine)
            delta = L.scal("delta")
            ref, a, b = m.entry(delta, N, M, fine)
            if everyone(ob, ref, "reference") and everyone(ob, a, "first solution") and everyone(ob, b, "second solution"):
                p = Paths(ob, w, delta, N, M, fine)
                p.solver_traj(a, "first solution", w.x0)
                p.solver_traj(b, "second solution", w.x0)
                p.reference(ref, "reference")
                p.finish()
            ob.no_event("oob", what="")
        return run
    return mk


def exact(path):
    def mk(N, M, fine):
        def run(ob):
            w, m, _, _ = setup(ob, path, N, M, fine)
            delta = L.scal("delta")
            sols, ref = m.entry(delta, N, M, fine, 2)
            if everyone(ob, sols, "solution") and everyone(ob, ref, "reference"):
                p = Paths(ob, w, delta, N, M, fine)
                p.solver_traj(sols, "solution", w.x0)
                p.reference(ref, "reference", exact_ref)
                p.finish()
            ob.no_event("oob", what="")
        return run
    return mk


def pathwise2(path):
    def mk(N, M, fine):
        def run(ob):
            w, m, _, _ = setup(ob, path, N, M, fine, mult=True)
            delta = L.scal("delta")
            sols, ref, incs = m.entry(delta, N, M, fine)
            if everyone(ob, sols, "solution") and everyone(ob, ref, "reference"):
                p = Paths(ob, w, delta, N, M, fine)
                p.solver_traj(sols, "solution", w.x0)
                p.reference(ref, "reference")
                p.finish()
                for (j, k), c in p.of.items():
                    ob.eq(f"increments of sample {j}, step {k}", asarr(incs)[j][k * fine:(k + 1) * fine], c[1][2])
            ob.no_event("oob", what="")
        return run
    return mk


def ssm(path):
    def mk(N, M, fine):
        def run(ob):
            w, m, _, _ = setup(ob, path, N, M, fine, mult=True)
            delta = L.scal("delta")
            sols = m.entry(delta, N, M, fine)
            if everyone(ob, sols, "solution"):
                outs = L.by_value(w.marginal, lambda q: q["out"])
                n, t = asarr(w.x0).shape[0], L.scal("tau")
                z = L.vec("z", n)
                used = []
                for j in range(3):
                    ob.eq(f"initial value of sample {j}", sols[j][0], w.x0)
                    for k in range(N):
                        q = outs.get(L.fp_key(sols[j][k + 1]))
                        if not ob.require(q is not None, f"state {k + 1} of sample {j} is not an output of the filter", "order"):
                            break
                        tk = wrap(C.const(k)) * delta
                        used.append(q["key"])
                        ob.eq(f"start of step {k}", q["init"], sols[j][k])
                        ob.eq("length of the step", asarr(q["delta"]), delta)
                        ob.eq("number of substeps", asarr(q["N"]), asarr(M))
                        ob.eq("step length of the filter", asarr(q["h"]) * M, delta)
                        ob.eq(f"drift of step {k}", q["f"], ode_drift(w, z, t + tk))
                        ob.eq(f"diffusion of step {k}", q["s"], w.s(z, t + tk))
                ob.require(len(set(used)) == len(used), "two samples or steps share a key", "key")
            ob.no_event("oob", what="")
        return run
    return mk


def strong(path):
    return ram(path, False)


def local_order(path):
    def mk(N, M, fine):
        def run(ob):
            w, m, _, _ = setup(ob, path, N, M, fine, fine)
            delta = L.scal("delta")
            g = m.globals
            w.x0, w.m, w.f, w.s = g["init_x0"], 1, g["drift"], g["sigma"]
            sols, ref = m.entry(delta, M)
            if everyone(ob, sols, "solution") and everyone(ob, ref, "reference"):
                p = Paths(ob, w, delta, 1, M, fine)
                p.fine = p.coefs[0][1][2].shape[0] if p.coefs else fine
                lead = lambda R: S.jnp("concatenate")([S.jnp("stack")([w.x0] * 3)[:, None], asarr(R)[:, None]], axis=1)
                p.solver_traj(lead(sols), "solution", w.x0)
                p.reference(lead(ref), "reference")
                p.finish()
            ob.no_event("oob", what="")
        return run
    return mk


def one_path(ob, w, p, delta, N, fine, s_fine, s_em, s_ode, inc, a, b):
    """fine and coarse Euler-Maruyama and Euler on the random ODE, along the path with the returned coefficients"""
    n = asarr(w.x0).shape[0]
    ob.require(asarr(s_fine).shape == (N * fine + 1, n), f"fine solution of shape {asarr(s_fine).shape}", "shape")
    p.reference(asarr(s_fine)[::fine][None], "fine solution")
    p.reference(asarr(s_em)[None], "coarse solution", coarse=True)
    x, h = w.x0, delta / wrap(C.const(fine))
    for k in range(N):
        c = p.of.get((0, k))
        if c is None:
            return False
        ob.eq(f"increments of step {k}", asarr(inc)[0][k * fine:(k + 1) * fine], c[1][2])
        ob.eq(f"increment of step {k}", asarr(a)[0][k], c[1][0])
        ob.eq(f"area coefficient of step {k}", asarr(b)[0][k], c[1][1])
        y = s_fine[k * fine]
        for i in range(fine):
            t = wrap(C.const(k)) * delta + wrap(C.const(i)) * h
            y = y + h * w.f(y, t) + w.s(y, t) @ c[1][2][i]
            ob.eq(f"fine solution {k * fine + i + 1}", s_fine[k * fine + i + 1], y)
            u = wrap(C.const(i)) * h
            dB = jx.REG["jax.jacfwd"](lambda q: L.fun("path", (w.m,))(q, asarr(delta), asarr(c[1][0]), asarr(c[1][1])))(u)
            x = x + h * (ode_drift(w, x, t) + w.s(x, t) @ dB)
        ob.eq(f"Euler solution {k + 1}", s_ode[k + 1], x)
    return True


def filter_chain(ob, w, p, outs, mean, delta, N, M):
    """the Gaussian filter along the same path: one solver call per step, each from the state of the previous one"""
    n = asarr(w.x0).shape[0]
    prev, chain = (w.x0, w.x0, S.zeros(n, n)), []
    for k in range(N):
        q = outs.get(L.fp_key(mean[k]))
        if not ob.require(q is not None, f"mean {k + 1} is not an output of the solver", "order"):
            return None
        for u, v in zip(q["init"], prev):
            ob.eq(f"start of step {k}", u, v)
        prev = q["out"]
        chain.append(q)
        ob.eq("number of substeps", asarr(q["N"]), asarr(M))
        ob.eq("step length of the solver", asarr(q["h"]) * M, delta)
        ob.eq(f"vector field of step {k}", q["v"], p.field(p.of[(0, k)][1], k))
        for dt, _ in w.priors:
            ob.eq("step of the prior", asarr(dt), asarr(q["h"]))
    return chain


def sampling(path):
    """one path: posterior samples, fine and coarse Euler-Maruyama, Euler on the random ODE"""
    def mk(N, M, fine):
        def run(ob):
            w, m, _, _ = setup(ob, path, N, M, fine, mult=True, keep=("euler",))
            delta = L.scal("delta")
            samples, mean, var, s_fine, s_em, s_ode, inc, a, b = m.entry(delta, N, M, fine, 2)
            p = Paths(ob, w, delta, N, M, fine)
            n = asarr(w.x0).shape[0]
            if not one_path(ob, w, p, delta, N, fine, s_fine, s_em, s_ode, inc, a, b):
                return
            chain = filter_chain(ob, w, p, L.by_value(w.solver, lambda q: q["out"][1]), mean, delta, N, M)
            if chain is None:
                return
            for k, q in enumerate(chain):
                ob.eq(f"covariance {k + 1}", var[k], q["out"][2])
            ob.require(asarr(samples).shape == (2, N, n), f"samples of shape {asarr(samples).shape}", "shape")
            flat = S.jnp("reshape")(samples, (2 * N * n,))
            blocks = S.zeros(2 * N * n, 2 * N * n).data.copy()
            for j in range(2):
                for k in range(N):
                    o = (j * N + k) * n
                    blocks[o:o + n, o:o + n] = asarr(var[k]).data
            S.check_law(ob, "posterior samples", [flat], S.concat([S.concat([mean[k] for k in range(N)])] * 2), Arr(blocks))
            ob.no_event("oob", what="")
        return run
    return mk


def calibration(path, own=False):
    """the filter with all its states along one path, its diffusion estimate, and reference solutions"""
    def mk(N, M, fine):
        def run(ob):
            if own:
                # the script defines its problem itself: an opaque one takes its place
                w = World()
                opaque(ob, w, keep=("euler",))
                f, s = L.fun("f", (1,)), L.fun("s", (1, 1))
                w.x0, w.m, w.mult = L.vec("x", 1), 1, True
                w.f, w.s = (lambda x, t: f(asarr(x), asarr(t))), (lambda x, t: s(asarr(x), asarr(t)))
                m, _, _ = load(ob, path, w, [("x0", w.x0), ("drift", w.f), ("sigma", w.s)])
            else:
                w, m, _, _ = setup(ob, path, N, M, fine, mult=True, keep=("euler",))
            delta, sp = L.scal("delta"), L.scal("prior scale")
            mean, var, s_fine, s_em, s_ode, inc, a, b, est = m.entry(delta, N, M, fine, sp)
            p = Paths(ob, w, delta, N, M, fine)
            if not one_path(ob, w, p, delta, N, fine, s_fine, s_em, s_ode, inc, a, b):
                return
            outs = L.by_value(w.solver, lambda q: q["all"][1])
            chain = filter_chain(ob, w, p, outs, mean, delta, N, M)
            if chain is None:
                return
            for k, q in enumerate(chain):
                ob.eq(f"covariance {k + 1}", var[k], q["all"][2])
            zs = [q["all"][4] for q in chain]
            n = zs[0].shape[0]
            tot = wrap(C.ZERO)
            for q in chain:
                z, V = q["all"][4], q["all"][3]
                tot = tot + S.jnp("dot")(z, jx.REG["jax.numpy.linalg.solve"](V, z))
            ob.eq("diffusion estimate", est, tot / wrap(C.const(N * n)))
            ob.require(len(w.scales) > 0, "the prior has no scale", "prior")
            for args in w.scales:
                ob.eq("scale of the prior", asarr(args), sp)
            ob.no_event("oob", what="")
        return run
    return mk


def loop(path, mk_args):
    """the rest of the script, with `experiment` intercepted"""
    def run(ob):
        w, m, scope, rest = setup(ob, path, 1, 1, 1)
        arity = {"n": None}
        calls = []

        def experiment(*a, **kw):
            a = a + tuple(kw[n] for n in [q.arg for q in fn.args.args][len(a):] if n in kw)
            calls.append(a)
            return tuple(L.scal(f"result {len(calls)}.{i}") for i in range(arity["n"])) if arity["n"] > 1 else \
                L.scal(f"result {len(calls)}.0")
        fn = next(n for n in reversed(m.tree.body) if isinstance(n, ast.FunctionDef) and n.name == m.entry_name)
        ret = [n.value for n in own_returns(fn)]
        arity["n"] = len(ret[-1].elts) if isinstance(ret[-1], ast.Tuple) else 1 if not isinstance(ret[-1], ast.Call) else 2
        m.globals[m.entry_name] = experiment
        CTX.saves = saves = []
        try:
            ob.interp.block(rest, scope)
        finally:
            CTX.saves = None
        ob.require(len(calls) > 0, "the experiment is never run", "loop")
        T = None
        for a in calls:
            if mk_args == "delta":
                continue
            delta, N = asarr(a[0]), asarr(a[1])
            if T is None:
                T = delta * N
            ob.eq("horizon N delta of the passes", delta * N, T)
            for x, nm in zip(a[1:4], ("N", "M", "fine")):
                v = asarr(x).data[()]
                c = C.prim(C.num(v)).const
                ob.require(c is not None and c >= 1 and c == int(c), f"{nm} = {c}", "loop")
        if mk_args == "calibrated":
            # innovations scale with the prior: the calibrated variance is the estimate times the variance it was computed with
            ob.require(len(calls) == 2, f"{len(calls)} passes", "loop")
            ob.eq("calibrated scale", asarr(calls[1][4]) * calls[1][4],
                  asarr(calls[0][4]) * calls[0][4] * L.scal(f"result 1.{arity['n'] - 1}"))
        if mk_args != "delta" and isinstance(m.globals.get("T"), (int, float, Arr)):
            ob.eq("horizon", T, asarr(m.globals["T"]))
        names = [file_name(s[0]) for s in saves]
        ob.require(len(set(names)) == len(names), f"two results are written to the same file: "
                                                 f"{sorted(n for n in set(names) if names.count(n) > 1)[:2]}", "files")
        ob.require(len(saves) > 0 or mk_args == "print", "no result is written", "files")
        kept = {L.fp_key(s[1]) for s in saves}
        for i in range(len(calls)):
            for j in range(arity["n"]):
                if mk_args == "args" or mk_args == "calibrated" and j < arity["n"] - 1:
                    ob.require(L.fp_key(L.scal(f"result {i + 1}.{j}")) in kept, f"result {j} of pass {i} is not written", "files")
    return run


def file_name(f):
    f, _, part = str(f).partition(":")
    f = os.path.normpath(f)
    return (f if f.endswith((".npy", ".npz", ".txt", ".csv")) else f + (".npz" if part else ".npy")) + (":" + part if part else "")


def own_returns(fn):
    out, stack = [], list(fn.body)
    while stack:
        n = stack.pop(0)
        if isinstance(n, ast.Return):
            out.append(n)
        elif not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack += list(ast.iter_child_nodes(n))
    return out


KINDS = {
    "pathwise_convergence_experiment_2_RAM.py": (lambda p: ram(p, False), "args"),
    "pathwise_convergence_experiment_2_RAM_2.py": (lambda p: ram(p, True), "args"),
    "pathwise_convergence_experiment_2.py": (pathwise2, "args"),
    "pathwise_convergence_experiment_3_ssm.py": (ssm, "args"),
    "comparison_2_RAM.py": (comparison, "args"),
    "comparison_2_RAM_setup_in_the_response_to_the_reviewer.py": (comparison, "args"),
    "pathwise_sampling_from_posterior.py": (sampling, "args"),
    "uncertainty_calibration.py": (calibration, "calibrated"),
    "sanity_check_calibration_ode.py": (lambda p: calibration(p, True), "print"),
    "strong_convergence_parabola_ode.py": (strong, "args"),
    "breaking_multidimensionnal.py": (exact, "args"),
    "local_order_experiment_from_scratch.py": (local_order, "delta"),
}


def obligations(tier):
    done = 0
    for full in sorted(glob.glob(os.path.join(L.REPO, "scripts", "**", "*.py"), recursive=True)):
        path = os.path.relpath(full, L.REPO)
        base = os.path.basename(path)
        k = KINDS.get(base)
        if base == "pathwise_convergence_experiment_2_RAM.py" and "EM_FHN" in path:
            k = (em, "args")
        if k is None:
            continue
        done += 1
        cfgs = [(2, 1, 2), (1, 2, 3)] if base != "local_order_experiment_from_scratch.py" else [(1, 1, 3), (1, 2, 2)]
        for N, M, fine in cfgs:
            yield f"{path} N={N} M={M} fine={fine}", k[0](path)(N, M, fine)
        yield f"{path} passes", loop(path, k[1])
