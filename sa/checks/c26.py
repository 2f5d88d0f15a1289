"""The experiment scripts against the interface of the package."""
import ast
import glob
import os
import warnings

from .. import core as C
from .. import jaxapi
from .. import lib as L
from ..arr import Arr
from ..interp import Module
from .common import TRUST

EXPLAIN = ("Client analysis: every script of the repository is parsed; names imported from the package are resolved through the "
           "interpreted package, aliases and functools.partial are followed through the lexical scopes, and every call of a "
           "package function is bound against its current signature; tuples unpacked from the problem constructors are compared "
           "with the arity they return; the jax and numpy attributes used are looked up in the sources of the installed "
           "libraries. No script is run.")
RULE = ("every imported package name exists; every call of a package function binds (positional count, keyword names, required "
        "arguments); unpacking has the arity of the returned tuple; every jax, numpy, tqdm attribute exists.")
ASSUME = TRUST[:1] + ["calls through containers, attributes of objects or reassigned parameters are not followed"]
FLOOR = 20

PKG = L.PKG


class Fn:
    """a package function with some arguments already bound by functools.partial"""

    def __init__(self, f, npos=0, kws=()):
        self.f, self.npos, self.kws = f, npos, frozenset(kws)


class Scan(ast.NodeVisitor):
    def __init__(self, ob, path):
        self.ob, self.path, self.qual = ob, path, []
        self.env = [{}]
        self.calls = self.names = 0

    # -------------------------------------------------- scopes
    def look(self, n):
        for e in reversed(self.env):
            if n in e:
                return e[n]
        return None

    def site(self, node):
        return (self.path, node.lineno, ".".join(self.qual) or "<module>")

    def bad(self, node, text, rule):
        self.ob.fail(f"{text}\n  at {self.path}:{node.lineno}", rule, self.site(node))

    def visit_ImportFrom(self, n):
        mod = n.module or ""
        for a in n.names:
            nm = a.asname or a.name
            if mod.split(".")[0] == PKG:
                self.ob.facts += 1
                self.names += 1
                self.env[-1][nm] = [self.resolve(n, mod, a.name)]
            elif mod.split(".")[0] in ("jax", "numpy", "tqdm") and a.name != "*":
                self.ob.facts += 1
                if jaxapi.exists(mod + "." + a.name) is False:
                    self.bad(n, f"{mod} has no {a.name}", "import")
                self.env[-1][nm] = [mod + "." + a.name]
            else:
                self.env[-1][nm] = ["functools.partial"] if (mod, a.name) == ("functools", "partial") else None

    def visit_Import(self, n):
        for a in n.names:
            root = a.name.split(".")[0]
            if root in ("jax", "numpy", "tqdm", "functools"):
                self.env[-1][a.asname or root] = [a.name if a.asname else root]
            elif root == PKG:
                self.ob.facts += 1
                try:
                    m = self.ob.interp.module(a.name)
                    self.env[-1][a.asname or root] = [m if a.asname else self.ob.interp.module(PKG)]
                except Exception as e:
                    self.bad(n, f"cannot import {a.name}: {e}", "import")

    def resolve(self, node, mod, name):
        it = self.ob.interp
        try:
            if not it.find(mod):
                raise KeyError(f"no module {mod}")
            m = it.module(mod)
            if name in m.globals:
                v = m.globals[name]
            elif it.find(mod + "." + name):
                v = it.module(mod + "." + name)
            else:
                raise KeyError(f"{mod} has no {name}")
        except KeyError as e:
            self.bad(node, e.args[0], "import")
            return None
        return Fn(v) if hasattr(v, "_node") else v

    # -------------------------------------------------- expressions
    def value(self, e):
        """abstract values of an expression: list of Fn / dotted external names / modules, or None"""
        if isinstance(e, ast.Name):
            return self.look(e.id)
        if isinstance(e, ast.Attribute):
            base = self.value(e.value)
            out = []
            for b in base or ():
                if isinstance(b, str):
                    out.append(b + "." + e.attr)
                elif isinstance(b, Module):
                    if e.attr in b.globals:
                        v = b.globals[e.attr]
                        out.append(Fn(v) if hasattr(v, "_node") else v)
                    elif self.ob.interp.find(b.name + "." + e.attr):
                        out.append(self.ob.interp.module(b.name + "." + e.attr))
                    else:
                        self.bad(e, f"{b.name} has no {e.attr}", "import")
            return out or None
        if isinstance(e, ast.Call):
            f = self.value(e.func)
            if f == ["functools.partial"] and e.args:
                g = self.value(e.args[0])
                if g and not any(isinstance(a, ast.Starred) for a in e.args) and all(k.arg for k in e.keywords):
                    return [Fn(v.f, v.npos + len(e.args) - 1, v.kws | {k.arg for k in e.keywords})
                            for v in g if isinstance(v, Fn)] or None
        if isinstance(e, ast.IfExp):
            return (self.value(e.body) or []) + (self.value(e.orelse) or []) or None
        return None

    def visit_Attribute(self, n):
        e, parts = n, []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        v = self.value(n)
        for d in v or ():
            if isinstance(d, str) and d.split(".")[0] in ("jax", "numpy", "tqdm"):
                self.ob.facts += 1
                pre = d.rpartition(".")[0]
                if jaxapi.is_module(pre) and jaxapi.exists(d) is False:
                    self.bad(n, f"{pre} has no {d.rpartition('.')[2]}", "import")
        self.generic_visit(n)

    def visit_Call(self, n):
        for v in self.value(n.func) or ():
            if isinstance(v, Fn):
                self.calls += 1
                self.bind(n, v, n.args, n.keywords, True)
        if self.value(n.func) == ["functools.partial"] and n.args:
            for v in self.value(n.args[0]) or ():
                if isinstance(v, Fn):
                    self.bind(n, v, n.args[1:], n.keywords, False)
        self.generic_visit(n)

    def bind(self, n, v, args, keywords, complete):
        a = v.f._node.args
        self.ob.facts += 1
        star = any(isinstance(x, ast.Starred) for x in args) or any(k.arg is None for k in keywords)
        pos = [p.arg for p in a.posonlyargs + a.args]
        npos = v.npos + sum(not isinstance(x, ast.Starred) for x in args)
        kws = set(v.kws) | {k.arg for k in keywords if k.arg}
        name = v.f.__qualname__ + " of " + v.f._scope.module.path
        if npos > len(pos) and a.vararg is None:
            return self.bad(n, f"{name} takes {len(pos)} positional arguments, {npos} given", "binding")
        names = set(pos[len(a.posonlyargs):]) | {p.arg for p in a.kwonlyargs}
        for k in kws:
            if k not in names and a.kwarg is None:
                self.bad(n, f"{name} has no parameter {k}", "binding")
            elif k in pos[:npos] and k not in v.kws:
                self.bad(n, f"{name}: parameter {k} is given twice", "binding")
        if complete and not star:
            req = pos[:len(pos) - len(v.f._defaults)] + [p.arg for p in a.kwonlyargs if p.arg not in v.f._kwdefaults]
            for i, p in enumerate(req):
                if p not in kws and p not in pos[:npos]:
                    self.bad(n, f"{name}: missing argument {p}", "binding")

    # -------------------------------------------------- statements
    def visit_Assign(self, n):
        self.generic_visit(n)
        v = self.value(n.value)
        for t in n.targets:
            if isinstance(t, ast.Name):
                old = self.env[-1].get(t.id)
                self.env[-1][t.id] = v if not old or v is None else old + v
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.unpack(n, t)
                for e in ast.walk(t):
                    if isinstance(e, ast.Name):
                        self.env[-1][e.id] = None

    def unpack(self, n, t):
        """x0, drift, sigma, ... = problem()"""
        if not (isinstance(n.value, ast.Call) and not n.value.args and not n.value.keywords):
            return
        for v in self.value(n.value.func) or ():
            if isinstance(v, Fn) and v.f._scope.module.path.endswith("utils/ivp.py"):
                r = v.f()
                self.ob.facts += 1
                star = any(isinstance(e, ast.Starred) for e in t.elts)
                k = len(t.elts)
                if (k - 1 > len(r)) if star else (k != len(r)):
                    self.bad(n, f"{v.f.__qualname__}() returns {len(r)} values, {k} are unpacked", "arity")

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        self.env[-1][n.name] = None
        self.qual.append(n.name)
        a = n.args
        self.env.append({p.arg: None for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]})
        # a name not assigned yet in the module is resolved at call time; bodies are scanned in order, which is the order used
        for s in n.body:
            self.visit(s)
        self.env.pop()
        self.qual.pop()


    def visit_Lambda(self, n):
        a = n.args
        self.env.append({p.arg: None for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]})
        self.visit(n.body)
        self.env.pop()


def script(path):
    def run(ob):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        rel = os.path.relpath(path, L.REPO)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src)
        except SyntaxError as e:
            ob.fail(f"{rel} cannot be parsed: {e}", "syntax", (rel, e.lineno or 0, "<module>"))
            return
        s = Scan(ob, rel)
        s.visit(tree)
        ob.facts += 1
    return run


def exports(ob):
    """the public names of the package"""
    for mod, names in PUBLIC.items():
        m = ob.interp.module(PKG + "." + mod if mod else PKG)
        for n in names:
            ob.require(n in m.globals and (callable(m.globals[n])), f"{m.name} does not export {n}", "export")


PUBLIC = {
    "sde_solver": ["sde_solver"],
    "sde_solvers": ["euler_maruyama", "euler_maruyama_pathwise", "diag_15_scheme", "hypoelliptic_diffusion_15_scheme"],
    "ode_solvers": ["euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2"],
    "ode_solvers.probnum": ["ekf", "interlace", "interlace_matrix", "IOUP_transition_function", "matern_transition_function",
                            "transition_function", "pad_prior", "get_independently_factorized_prior"],
    "ssm_parabola": ["ekf0_marginal_parabola", "ekf1_marginal_parabola", "ssm_parabola_ode_solver"],
    "foster_polynomial": ["get_approx", "get_approx_and_brownian", "get_approx_fine"],
    "ito_stratonovich": ["to_ito", "to_stratonovich"],
    "utils": ["insert", "progress_bar", "fhn", "ibm", "square_matrix_fhn", "square_matrix_ibm", "random_linear_sde",
              "synaptic_conductance_reduced", "harmonic_oscillator", "gbm", "synaptic_conductance",
              "harmonic_oscillator_square"],
}


def obligations(tier):
    yield "public names", exports
    for p in sorted(glob.glob(os.path.join(L.REPO, "scripts", "**", "*.py"), recursive=True)):
        yield os.path.relpath(p, L.REPO), script(p)
