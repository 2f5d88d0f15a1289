"""PRNG key discipline."""
from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr
from ..core import CTX
from .catalogue import In, bm_model, catalogue
from .common import SEM, TRUST, wrapped

EXPLAIN = SEM + (" Provenance analysis of keys: each key carries the path of splits that produced it from the caller's "
                 "key, each draw is an atom labelled by the path, so the draws that reach each output are read off the "
                 "value graph.")
RULE = ("every draw reaching an output descends from the caller's key; no key is used for two different draws, none is "
        "both drawn from and split, none is split twice into different numbers; the keys handed by the drivers to the "
        "Brownian approximation and to the ODE solver are pairwise distinct over steps and roles; the draws of "
        "different steps are disjoint.")
ASSUME = TRUST
FLOOR = 60


def discipline(ob, what, arrays, root=("key",)):
    roots = [e for a in arrays if isinstance(a, Arr) and a.dt != "key" for e in a.data.reshape(-1)]
    used = {}
    for n in L.atoms_of_draws(roots):
        dist, path, size = n.extra[1][:3]
        used.setdefault(path, {}).setdefault((dist, size) + tuple(n.extra[1][4:]), n)
    ob.facts += 1
    for p, ds in used.items():
        n = next(iter(ds.values()))
        ob.require(p[:len(root)] == root, f"{what}: a draw uses the key {show(p)}, which does not descend from the "
                                          "caller's key", "key-root", n.site)
        ob.require(len(ds) == 1, f"{what}: the key {show(p)} is used for {len(ds)} different draws", "key-reuse",
                   list(ds.values())[-1].site)
    clash = L.key_clash(used)
    if clash:
        p, q, why = clash
        ob.fail(f"{what}: {why}: {show(p)} and {show(q)}", "key-reuse", next(iter(used[q].values())).site)
    return used


def show(p):
    out, i = "", 0
    p = tuple(p)
    while i < len(p):
        if p[i] == "s" and i + 2 < len(p):
            out += f".split({p[i + 1]})[{p[i + 2]}]"
            i += 3
        elif p[i] == "f" and i + 1 < len(p):
            out += f".fold_in({p[i + 1]})"
            i += 2
        else:
            out += str(p[i])
            i += 1
    return out


def generic(mk, name):
    def run(ob):
        i = In()
        f, args, kw = mk(ob, i)
        r = f(*args, **kw)
        used = discipline(ob, name, jx.tree_leaves((r,)))
        ob.require(used, f"{name}: no draw reaches the outputs of a randomised routine", "no-draw")
    return run


def no_draw(mk, name):
    def run(ob):
        f, args, kw = mk(ob, In())
        r = f(*args, **kw)
        for a in jx.tree_leaves((r,)):
            if isinstance(a, Arr) and a.dt != "key":
                at = L.atoms_of_draws(list(a.data.reshape(-1)))
                ob.require(not at, f"{name}: a draw reaches the output of a deterministic routine", "draw",
                           at[0].site if at else None)
    return run


def driver_roles(N, ssm):
    def run(ob):
        paths = []

        def use(role, key):
            p = L.kpath(key)
            paths.append((role, p, CTX.site))
            return jx.REG["jax.random.normal"](key, (1,))

        if ssm:
            ob.get("ssm_parabola.ssm_parabola_ode_solver")(
                key=L.key(), drift=L.fun("f", (1,)), sigma=L.fun("s", (1, 1)), x0=L.vec("x", 1), delta=L.scal("delta"),
                N=N, solver=lambda key, init, drift, diffusion, T: (init + use("solver", key), init, init))
            want = N
        else:
            def bm():
                return (lambda key, dt: (use("bm", key), use("bm", key) * 0),
                        lambda t, dt, a, b: a * (t / dt))
            ob.get("sde_solver.sde_solver")(
                key=L.key(), drift=L.fun("f", (1,)), sigma=L.fun("s", (1, 1)), x0=L.vec("x", 1), bm=bm,
                delta=L.scal("delta"), N=N,
                ode_int=lambda key, init, vector_field, T: init + use("ode", key) + vector_field(init, T))
            want = 2 * N
        for r, p, s in paths:
            ob.require(p[:1] == ("key",), f"the key {show(p)} given to {r} does not descend from the caller's key",
                       "key-root", s)
        ds = {}
        for r, p, s in paths:
            ds.setdefault(p, set()).add(r)
        ob.require(len(ds) == want and all(len(v) == 1 for v in ds.values()),
                   f"{want} distinct keys expected over {N} steps, found {sorted(show(p) + ' for ' + '/'.join(sorted(r)) for p, r in ds.items())}",
                   "key-reuse", paths[0][2] if paths else None)
        clash = L.key_clash(ds)
        ob.require(not clash, "" if not clash else f"{clash[2]}: {show(clash[0])} and {show(clash[1])}", "key-reuse")
    return run


def steps_disjoint(which, N):
    """the draws first entering at step k are new"""
    def run(ob):
        h = L.scal("h")
        if which == "euler_maruyama":
            d = 2
            _, xs = ob.get("sde_solvers.euler_maruyama")(L.key(), L.vec("x", d), L.fun("f", (d,)), L.fun("s", (d, 1)),
                                                         h, N)
        elif which == "diag":
            d = 1
            g = L.fun("s", (1, 1))
            _, xs = ob.get("sde_solvers.diag_15_scheme")(L.key(), L.vec("x", d), L.fun("f", (d,)), g, h, N)
        else:
            d = 2
            g = L.fun("s", (1,))

            def sig(x):
                return S.stack([S.stack([asarr(0.0), asarr(0.0)]), S.stack([g(x)[0], asarr(0.0)])])
            _, xs = ob.get("sde_solvers.hypoelliptic_diffusion_15_scheme")(L.key(), L.vec("x", d), L.fun("f", (d,)),
                                                                           sig, h, N)
        seen = set()
        for k in range(1, N + 1):
            now = set(L.draws_of(xs[k]))
            ob.require(now >= seen and now - seen, f"step {k} consumes no new randomness", "key-reuse")
            seen |= now
        discipline(ob, which, [xs])
    return run


def composed(approx, solver, N, M):
    """the documented composition: parabola approximation and ODE filter inside sde_solver"""
    def run(ob):
        kw = {} if approx == "get_approx" else {"N": 2}
        bm = lambda: ob.get("foster_polynomial." + approx)(dim=1, **kw)
        ek = ob.get("ode_solvers." + solver)
        two = solver.endswith("_2")
        x0 = (L.vec("x", 1), L.vec("x", 1), S.zeros(1, 1)) if two else L.vec("x", 1)
        r = ob.get("sde_solver.sde_solver")(key=L.key(), drift=lambda x, t: L.mat("M", 1, 1) @ x,
                                            sigma=lambda x, t: L.mat("G", 1, 1), x0=x0, bm=bm, delta=L.scal("delta"),
                                            N=N, ode_int=wrapped(ek, N=M, **({"sqrt": True})))
        traj, coeffs = r[1], r[2:]
        s = traj[0] if two else traj
        used = discipline(ob, f"{approx} with {solver}", [s, *coeffs])
        c = set(L.draws_of(*coeffs))
        for k in range(1, N + 1):
            now = set(L.draws_of(s[k]))
            # the posterior sample adds randomness that the coefficients do not carry
            ob.require(now - c, f"the state after step {k} carries no randomness of its own: the ODE solver samples "
                                "with the key of the Brownian coefficients", "key-reuse")
    return run


def approximation(name, dim, N):
    """the coefficients of one interval: one Brownian path, every fine increment its own draw"""
    def run(ob):
        r = ob.get("foster_polynomial." + name)(dim=dim, **({} if name == "get_approx" else {"N": N}))[0](L.key(), L.scal("dt"))
        discipline(ob, name, list(r))
        if name == "get_approx":
            n = 2 * dim
        elif name == "get_approx_fine":
            n = 2 * dim * N
        else:
            n = dim * N
        got = len({a.id for a in L.atoms_of_draws([e for a in r for e in a.data.reshape(-1)])})
        ob.require(got >= n, f"{name}: only {got} normals for {n} independent coefficients", "key-reuse")
    return run


def obligations(tier):
    for a in ("get_approx", "get_approx_and_brownian", "get_approx_fine"):
        for dim in sizes.dims((1, 2, 5), 17, 64):
            for N in sizes.steps((1, 2, 3, 17), 130, 2050) if dim == 1 and a != "get_approx" else (2,):
                yield f"{a} dim={dim} fine={N}", approximation(a, dim, N)
    for name, (mk, rnd) in catalogue().items():
        yield name, (generic if rnd else no_draw)(mk, name)
    for N in sizes.steps((1, 2, 3, 5, 8, 40, 300), 1100 if tier == "thorough" else 300):
        yield f"sde_solver roles N={N}", driver_roles(N, False)
        yield f"ssm_parabola_ode_solver roles N={N}", driver_roles(N, True)
    for w in ("euler_maruyama", "diag", "hypo"):
        for N in sizes.steps((2, 3, 17, 40) if w != "hypo" else (2, 3, 17), 101, 2050 if w == "euler_maruyama" else 300 if w == "diag" else 0):
            yield f"{w} steps N={N}", steps_disjoint(w, N)
    for a in ("get_approx", "get_approx_and_brownian", "get_approx_fine"):
        for s in ("ekf0", "ekf1", "ekf0_2", "ekf1_2"):
            for N, M in ((2, 1), (1, 3), (4, 2)) if tier == "thorough" or s == "ekf0" else ((2, 1), (1, 3)):
                yield f"{a} with {s} N={N} substeps={M}", composed(a, s, N, M)
