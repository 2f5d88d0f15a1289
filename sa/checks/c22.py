"""Utilities around the solvers: progress bar and insertion of the initial value."""
import numpy as np

from .. import core as C
from .. import jx
from .. import lib as L
from .. import sizes
from .. import spec as S
from ..arr import Arr, asarr, wrap
from ..core import CTX
from .common import SEM, TRUST

EXPLAIN = SEM + (" Obligations: a scan over a body decorated with progress_bar, the body being uninterpreted and the inputs a "
                 "counter or a tuple starting with a counter, against the undecorated scan, for lengths around the reporting "
                 "thresholds; the sequence of bar operations recorded by the tqdm model; insert for arrays and tuples, all "
                 "positions and axes, against plain concatenation.")
RULE = ("the decorated scan returns the carry and outputs of the undecorated one; one bar is opened for N iterations before the "
        "first update, its updates are non-negative and sum to N, it is closed once, after the last update; insert puts y "
        "before position pos along axis in every leaf and leaves the other entries in order.")
ASSUME = TRUST + ["lengths of scans are those of the configurations; host callbacks run in program order"]
FLOOR = 20


def bar(n, shape, message, values):
    """values: run the comparison with generic values too (small n)"""
    def run(ob):
        pb = ob.get("utils.progress_bar")
        kw = {} if message is None else {"message": message}
        scan = jx.REG["jax.lax.scan"]
        if values:
            g, o = L.fun("g", (2,)), L.fun("o", (1,))
            body = lambda c, x: (g(c, *(x[1:] if type(x) is tuple else (x,))), (o(c), {"k": c}))
            c0 = L.vec("c", 2)
        else:
            body = lambda c, x: (c + 1, c)
            c0 = wrap(C.const(0))
        idx = jx.REG["jax.numpy.arange"](n)
        xs = idx if shape == "counter" else (idx, L.mat("w", n, 1)) if shape == "tuple" else \
            (idx, L.mat("w", n, 1), L.vec("v", n))
        plain = scan(body, c0, xs)
        before = len(CTX.bars)
        got = scan(pb(n, **kw)(body), c0, xs)
        ga, wa = jx.tree_leaves(got), jx.tree_leaves(plain)
        if ob.require(len(ga) == len(wa), "the decorated body returns another structure", "structure"):
            for k, (a, b) in enumerate(zip(ga, wa)):
                ob.eq(f"leaf {k} of the scan", a, b)
        bars = CTX.bars[before:]
        if not ob.require(len(bars) == 1, f"{len(bars)} bars opened for one scan", "bar"):
            return
        b = bars[0]
        ob.require(b.total is not None and int(b.total) == n, f"bar of total {b.total} for {n} iterations", "bar")
        ob.require(b.n == n, f"the bar counts {b.n} of {n} iterations", "bar")
        ob.require(all(u >= 0 for u in b.updates), "the bar moves backwards", "bar")
        ob.require(b.closed == 1, f"the bar is closed {b.closed} times", "bar")
        ob.no_event("bar")
    return run


def twice(n):
    """a decorator used for two scans, as when a jitted function is called again"""
    def run(ob):
        scan = jx.REG["jax.lax.scan"]
        dec = ob.get("utils.progress_bar")(n)
        body = dec(lambda c, x: (c + 1, c))
        idx = jx.REG["jax.numpy.arange"](n)
        for k in range(2):
            before = len(CTX.bars)
            r = scan(body, wrap(C.const(0)), idx)
            bars = CTX.bars[before:]
            ob.require(len(bars) == 1 and bars[0].n == n and bars[0].closed == 1,
                       f"scan {k + 1}: bars {[(b.n, b.closed) for b in bars]} for {n} iterations", "bar")
            ob.eq("carry", r[0], wrap(C.const(n)))
    return run


def ref_insert(x, pos, y, axis):
    d = np.asarray(asarr(x).data)
    return Arr(np.concatenate([np.take(d, range(pos), axis), np.expand_dims(np.broadcast_to(
        np.asarray(asarr(y).data), np.delete(np.array(d.shape), axis)), axis), np.take(d, range(pos, d.shape[axis]), axis)],
        axis))


def ins(shape, pos, axis):
    def run(ob):
        g = ob.get("utils.insert")
        x, y = L.tens("x", *shape), L.tens("y", *np.delete(np.array(shape), axis))
        ob.eq("array", g(x, pos, y, axis), ref_insert(x, pos, y, axis))
    return run


def ins_tuple(k):
    def run(ob):
        g = ob.get("utils.insert")
        xs = tuple(L.tens(f"x{i}", 3, *((2,) * i)) for i in range(k))
        ys = tuple(L.tens(f"y{i}", *((2,) * i)) for i in range(k))
        r = g(xs, 0, ys, 0)
        ob.require(isinstance(r, tuple) and len(r) == k, "a tuple of as many leaves is required", "structure")
        for i in range(k):
            ob.eq(f"leaf {i}", r[i], ref_insert(xs[i], 0, ys[i], 0))
    return run


def ins_leaves(shapes, pos, axis):
    """a tuple of leaves of several shapes, at any position along any common axis"""
    def run(ob):
        g = ob.get("utils.insert")
        xs = tuple(L.tens(f"x{i}", *s) for i, s in enumerate(shapes))
        ys = tuple(L.tens(f"y{i}", *np.delete(np.array(s), axis)) for i, s in enumerate(shapes))
        r = g(xs, pos, ys, axis)
        ob.require(isinstance(r, tuple) and len(r) == len(shapes), "a tuple of as many leaves is required", "structure")
        for i in range(len(shapes)):
            ob.eq(f"leaf {i}", r[i], ref_insert(xs[i], pos, ys[i], axis))
    return run


def obligations(tier):
    big = tier == "thorough"
    for shape in ("counter", "tuple", "triple"):
        for n in (1, 2, 5, 24):
            yield f"bar values n={n} {shape}", bar(n, shape, "m" if n == 2 else None, True)
    for n in sizes.steps((19, 20, 21, 50, 100, 999, 1000, 1001, 1500, 2000, 2001, 2501), 2600) + list((2999, 3000, 3500, 4003, 5999, 10007) if big else ()):
        yield f"bar count n={n}", bar(n, "counter", None, False)
    for n in (3, 2501):
        yield f"two scans n={n}", twice(n)
    for shape, pos, axis in [((2, 2), 0, 0), ((2, 3), 1, 0), ((2, 3), 2, 0), ((3, 2), 0, 1), ((3,), 0, 0), ((2, 2, 2), 0, 0),
                             ((4,), 4, 0), ((4,), 2, 0), ((2, 3, 2), 1, 2), ((2, 3, 2), 3, 1), ((9, 1), 8, 0)]:
        yield f"insert {shape} pos={pos} axis={axis}", ins(shape, pos, axis)
    for k in (1, 2, 3, 4):
        yield f"insert tuple of {k}", ins_tuple(k)
    for pos in range(4):
        yield f"insert tuple pos={pos} axis=0", ins_leaves(((3,), (3, 2), (3, 2, 2)), pos, 0)
        yield f"insert tuple pos={pos} axis=1", ins_leaves(((2, 3), (1, 3), (2, 3, 2)), pos, 1)
    for pos in range(3):
        yield f"insert tuple pos={pos} axis=2", ins_leaves(((2, 3, 2), (1, 1, 2)), pos, 2)
