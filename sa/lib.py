"""Entry points shared by the checks: loading, exploration of undecided branches, comparison with specifications."""
import ctypes
import os
import sys
import threading
import time

import numpy as np

from . import core as C
from . import field as F
from . import jx
from .arr import Arr, asarr, wrap
from .core import CTX, Bo, Dual, KeyW, Num, ProgramError, Sc, Unsupported
from .interp import Interp, Module, ProgramRaise

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "bayesian_sde_solver"


class OutOfBudget(BaseException):
    """the time or the memory of a check is used up"""


def big_stack(fn, deadline=None, memory=None):
    """run fn in a thread with a large stack, return its result or re-raise"""
    sys.setrecursionlimit(200000)
    threading.stack_size(768 * 1024 * 1024)
    box = {}

    def go():
        try:
            box["r"] = fn()
        except BaseException as e:  # noqa
            box["e"] = e
    t = threading.Thread(target=go)
    t.start()
    base = rss() if memory else 0
    why = None
    while t.is_alive():
        t.join(None if deadline is None else 1.0)
        if t.is_alive():
            if time.time() > deadline:
                why = "no time left"
            elif memory and rss() - base > memory:
                why = "no memory left"
            elif memory is not False and available() < 2 * 2 ** 30 and rss() > 2 ** 30:
                why = "no memory left"
            if why:
                # asynchronous: the exception is raised at the next bytecode of the thread
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfBudget))
    if "e" in box:
        raise OutOfBudget(why) if isinstance(box["e"], OutOfBudget) else box["e"]
    return box["r"]


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def available():
    with open("/proc/meminfo") as f:
        return next((int(x.split()[1]) * 1024 for x in f if x.startswith("MemAvailable")), 2 ** 40)


def load():
    return Interp(REPO)


def resolve(interp, dotted):
    """attribute of the package by its public dotted name; ProgramError when the anchor has vanished"""
    parts = dotted.split(".")
    m = interp.module(PKG)
    cur = m
    name = PKG
    for p in parts:
        if isinstance(cur, Module):
            if p in cur.globals:
                cur = cur.globals[p]
                name += "." + p
                continue
            if interp.find(cur.name + "." + p):
                cur = interp.module(cur.name + "." + p)
                continue
            raise AnchorLost(f"{cur.name} has no attribute {p}")
        cur = getattr(cur, p)
    return cur


class AnchorLost(Exception):
    pass


# ---------------------------------------------------------------- abstract inputs

def given(d):
    """an array of the caller, in the representation under which the program is analysed"""
    if C.SURR["arguments"] == "numpy":
        return Arr(d, "float", "np" if d.ndim else "py")
    return Arr(d)


def vec(name, n):
    d = np.empty((n,), dtype=object)
    for i in range(n):
        d[i] = C.atom(name, i)
    return given(d)


def mat(name, n, m):
    d = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            d[i, j] = C.atom(name, i, j)
    return given(d)


def tens(name, *shape):
    d = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        d[i] = C.atom(name, *i)
    return given(d)


def sym(name, n):
    d = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            d[i, j] = d[j, i] = C.atom(name, i, j)
    return given(d)


def lower(name, n):
    d = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if i == j:
                CTX.positive_atoms.add((name, (i, i)))
            d[i, j] = C.atom(name, i, j) if j <= i else C.ZERO
    return given(d)


def scal(name):
    return given(wrap(C.atom(name)).data)


def key(name="key"):
    return jx.key_arr((name,))


def fun(name, shape, masks=None):
    """uninterpreted smooth function of all its (array) arguments; masks: component -> set of argument positions
    it depends on (flattened), to model structural independence"""
    shape = tuple(shape)
    n = int(np.prod(shape, dtype=int)) if shape else 1

    seen = {}

    def f(*args):
        flat = []
        shapes = tuple(asarr(a).shape for a in args)
        if seen.setdefault(len(shapes), shapes) != shapes:
            raise ProgramError("shape", f"{name} is called with arguments of shapes {list(shapes)}, "
                                        f"and with {list(seen[len(shapes)])} elsewhere")
        for a in args:
            a = asarr(a)
            flat += [C.num(e) for e in a.data.reshape(-1)]
        out = np.empty((n,), dtype=object)
        for i in range(n):
            if masks is not None:
                mk = masks(i, len(flat))
                if mk is None:
                    out[i] = C.ZERO
                    continue
            else:
                mk = None
            out[i] = C.uf(name, i, tuple(flat), mk)
        return Arr(out.reshape(shape)) if shape else wrap(out[0])
    f.__name__ = name
    return f


# ---------------------------------------------------------------- spec-side helpers (plain object arrays)

def D(a):
    return asarr(a).data


def fps(a):
    return [C.prim(C.num(e)).fp for e in D(a).reshape(-1)]


class Mismatch:
    def __init__(self, what, idx, got, want, frontier):
        self.what, self.idx, self.got, self.want, self.frontier = what, idx, got, want, frontier

    def text(self):
        at = f" component {list(self.idx)}" if self.idx else ""
        s = f"{self.what}{at}: the analysed expression is not the specified one\n" \
            f"  program:  {self.got}\n  required: {self.want}"
        for site, ex in self.frontier:
            s += f"\n  diverges at {C.fmt_site(site)}: {ex}"
        return s


def frontier(got, want):
    """nodes of the program graph whose operands occur in the specification but which themselves do not"""
    wf = set()
    for n in C.reachable(list(want)):
        if isinstance(n, Sc):
            wf.add(repr(n.fp))
            wf.add(repr(F.neg(n.fp)))
    out, seen = [], set()
    for n in sorted(C.reachable(list(got)), key=lambda q: q.id):
        if not isinstance(n, Sc) or n.const is not None or n.op == "atom":
            continue
        if repr(n.fp) in wf:
            continue
        if all(isinstance(a, Bo) or a.const is not None or a.op == "atom" or repr(a.fp) in wf for a in n.args):
            if n.site is not None and n.site not in seen:
                seen.add(n.site)
                out.append((n.site, C.show(n, 3)))
    tops = []
    for g in got:
        g = C.prim(g)
        if isinstance(g, Sc) and g.site is not None and g.site not in seen:
            tops.append((g.site, C.show(g, 2)))
            seen.add(g.site)
    return (out[-6:] + tops[:2])


def compare(what, got, want):
    """list of mismatches between two arrays (empty when equal)"""
    g, w = asarr(got), asarr(want)
    if g.shape != w.shape:
        return [Mismatch(what + f" (shape {g.shape}, required {w.shape})", (), "", "", [
            (C.prim(e).site, C.show(e, 2)) for e in g.data.reshape(-1)[:1] if isinstance(e, Num) and
            isinstance(C.prim(e), Sc)])]
    out = []
    for i in np.ndindex(*g.shape):
        a, b = g.data[i], w.data[i]
        if isinstance(a, (Bo, bool)) or isinstance(b, (Bo, bool)):
            a, b = C.num(a), C.num(b)
        if isinstance(a, KeyW) or isinstance(b, KeyW):
            if not a == b:
                out.append(Mismatch(what, i, repr(a), repr(b), []))
            continue
        a, b = C.prim(a), C.prim(b)
        if a.fp != b.fp:
            out.append(Mismatch(what, i, C.show(a, 5)[:400], C.show(b, 5)[:400], frontier([a], [b])))
            if len(out) >= 3:
                return out
    return out


def fp_key(t):
    """structure, shapes and fingerprints of a result: equal keys for equal values"""
    return tuple((asarr(x).shape, tuple(C.prim(C.num(e)).fp for e in asarr(x).data.reshape(-1))) for x in jx.tree_leaves(t))


def by_value(calls, output):
    """first recorded call for each value of its output"""
    out = {}
    for c in calls:
        out.setdefault(fp_key(output(c)), c)
    return out


def draws_of(*arrays, seen=None):
    """draw atoms reachable from the arrays (and, given `seen`, from no earlier ones), as {(path, dist, n): {indices}}"""
    roots = []
    for a in arrays:
        roots += [e for e in D(a).reshape(-1) if isinstance(e, (Num, Bo))]
    out = {}
    for n in C.atoms_of(roots, "draw", seen):
        dist, path, size, i = n.extra[1][:4]
        out.setdefault((path, dist, size) + tuple(n.extra[1][4:]), {})[i] = n
    return out


def minimal(roots):
    """representatives of the nodes below the roots: of all nodes with the same fingerprint the one that contains the fewest
    draws (a difference of two states that equals an increment is read as the increment).
    -> (rep: id of a node -> node, mask: id of a representative -> bit set of draws, draws)"""
    best, rep, mask, atoms, bit = {}, {}, {}, [], {}
    for n in sorted(C.reachable(roots), key=lambda n: n.id):
        m = 0
        for x in n.args:
            if isinstance(x, (Sc, Bo)):
                m |= mask[id(best[x.fp if isinstance(x, Sc) else ("b", x.fp)])]
        if isinstance(n, Sc) and n.op == "atom" and n.extra[0] == "draw":
            if n.extra not in bit:
                bit[n.extra] = 1 << len(atoms)
                atoms.append(n)
            m = bit[n.extra]
        k = n.fp if isinstance(n, Sc) else ("b", n.fp)
        mask[id(n)] = m
        o = best.get(k)
        if o is None or (m != mask[id(o)] and m & mask[id(o)] == m):
            best[k] = n
        rep[id(n)] = k
    return {i: best[k] for i, k in rep.items()}, mask, atoms


def below(root, rep, mask):
    """the representatives needed for a root, children first"""
    out, seen, stack = [], set(), [(rep[id(root)], False)]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if id(n) in seen:
            continue
        seen.add(id(n))
        stack.append((n, True))
        if not mask[id(n)]:
            continue
        for x in n.args:
            if isinstance(x, (Sc, Bo)) and id(rep[id(x)]) not in seen:
                stack.append((rep[id(x)], False))
    return out


def affine(roots):
    """roots as affine functions of the draws below them:
    (all draws, those needed, constant fps, [{index of a draw: coefficient fp} per root], exact?)"""
    roots = [C.prim(r) for r in roots]
    rep, mask, atoms = minimal(roots)
    zero = {a.extra: C.ZERO for a in atoms}
    groups, used = {}, 0
    for i, r in enumerate(roots):
        used |= mask[id(rep[id(r)])]
        groups.setdefault(mask[id(rep[id(r)])], []).append(i)
    c0, cols, ok = [None] * len(roots), [None] * len(roots), True
    for m, idx in groups.items():
        mine = [k for k in range(len(atoms)) if m >> k & 1]
        rs = [roots[i] for i in idx]
        order, seen = [], set()
        for r in rs:
            for n in below(r, rep, mask):
                if id(n) not in seen:
                    seen.add(id(n))
                    order.append(n)
        z = C.reeval_in(order, rs, zero, rep, mask)
        base = C.reeval_in(order, rs, {}, rep, mask)
        tot = list(z)
        out = [{} for _ in rs]
        for k in mine:
            mp = dict(zero)
            mp[atoms[k].extra] = C.ONE
            v = C.reeval_in(order, rs, mp, rep, mask)
            for j in range(len(rs)):
                c = F.add(v[j], F.neg(z[j]))
                if c != 0:
                    out[j][k] = c
                    tot[j] = F.add(tot[j], F.mul(atoms[k].fp, c))
        for j, i in enumerate(idx):
            c0[i], cols[i] = z[j], out[j]
            ok = ok and tot[j] == base[j]
    return atoms, [a for k, a in enumerate(atoms) if used >> k & 1], c0, cols, ok


def atoms_of_draws(roots):
    return sorted({a.extra: a for a in C.atoms_of(roots, "draw")}.values(), key=lambda a: repr(a.extra))


def key_events():
    return [e for e in CTX.events if e.kind in ("key-split", "draw")]


def kpath(key):
    return jx.key_path(key, "key")


def key_clash(paths):
    """first pair of used keys of which one is an ancestor of (or equal to) the other, or which come from two splits
    of the same key into different numbers"""
    ps = sorted(set(paths), key=repr)
    for p in ps:
        for q in ps:
            if p is not q and len(p) < len(q) and q[:len(p)] == p:
                return p, q, "a key is used for a draw and also split"
    splits, folds = {}, {}
    for p in ps:
        i = 1
        while i < len(p):
            if p[i] == "s" and i + 2 < len(p) + 0:
                par, n = p[:i], p[i + 1]
                o = splits.setdefault(par, (n, p))
                if o[0] != n:
                    return o[1], p, f"the same key is split into {o[0]} and into {n}"
                i += 3
            elif p[i] == "f":
                par, n = p[:i], p[i + 1]
                for o, q in folds.setdefault(par, {}).items():
                    if o != n and may_coincide(o, n):
                        return q, p, "the same key is folded with two values that may coincide"
                folds[par].setdefault(n, p)
                i += 2
            else:
                i += 1
    return None


def may_coincide(a, b):
    """two values folded into one key, different in general: are they different for all inputs?"""
    x, y = CTX.folds.get(a), CTX.folds.get(b)
    if x is None and y is None:
        return False
    if x is None or y is None:
        return True
    return C.prim(C.sub(x, y)).const is None
