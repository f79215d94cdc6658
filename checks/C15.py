"""C15: TT-SVD against the singular values of the dense unfoldings, for every tensor over {-1,0,1} of small shapes and structured tensors of every format."""
import numpy as np

from lib import model as M
from checks.C05 import trim_ref
from checks.C14 import consistent, sv
from tt_sketch.sketch import hmt_sketch, stream_sketch
from tt_sketch.tensor import DenseTensor
from tt_sketch.tt_svd import tt_svd

PROPERTY = "C15"
RULE = ("every dense tensor with entries in {-1,0,1} of the tiny shapes, and structured tensors of every format and shape in the menu (generic, "
        "low-rank, zero, scaled, all layouts, sums, sketches), each with every rank request of the menu: shape, ranks, orthonormality, error bound and exactness")
BOUNDS = {"quick": "complete for (2,2), (2,3), (2,2,2), (3,1,2), (1,2,2), (1,1), (2,4), (4,2), (2,2,1,2); about 60 shapes up to order 6, 8 rank requests, 15 shapes with dimensions up to 1100 or order 13 with 11, 5 with 240000 to 300000 entries with 3",
          "thorough": "also complete for (3,3), (2,5), (2,1,2,2), (2,3,2); about 150 shapes up to order 7"}
TINY = [(1, 1), (2, 2), (2, 3), (1, 2, 2), (3, 1, 2), (2, 2, 2), (2, 4), (4, 2), (2, 2, 1, 2), (1, 1, 1)]
BLOCK = 500
HUGE = [(600, 400), (60, 70, 60), (3, 100000), (2,) * 18, (66000, 4)]


def requests(shape):
    n = len(shape) - 1
    return [None, 1, 2, 60, tuple(range(1, n + 1)), [n + 1 - i for i in range(n)], tuple(1 + 2 * (i % 2) for i in range(n)), [3 - 2 * (i % 2) for i in range(n)], np.int64(2)]


SPECS = [{"fmt": "tt", "rank": 12}, {"fmt": "dense", "data": "big", "layout": "F"}, {"fmt": "dense", "data": "small"}, {"fmt": "dense", "data": "ones"}, {"fmt": "dense", "layout": "neg"},
         {"fmt": "dense", "data": "pos", "layout": "strided"}]
SPECIAL = ["decay", "sketch", "huge", "tiny", "nearly", "svd"]


def cases(tier):
    th = tier == "thorough"
    for shape in TINY + ([(3, 3), (2, 5), (2, 1, 2, 2), (3, 3, 1), (2, 3, 2)] if th else []):
        total = 3 ** M.prod(shape)
        for start in range(0, total, BLOCK):
            yield {"kind": "tiny", "shape": shape, "from": start, "to": min(total, start + BLOCK)}
    for shape in M.LARGE:
        yield {"kind": "menu", "shape": shape, "large": True}
    for shape in [(130, 131), (3, 100, 70), (2,) * 13, (1100, 3), (3, 2, 1100)]:
        yield {"kind": "menu", "shape": shape, "large": True, "few": True}
    for shape in HUGE:
        yield {"kind": "menu", "shape": shape, "large": True, "huge": True}
    for shape in M.shapes(tier):
        yield {"kind": "menu", "shape": shape}


def make(name, shape):
    a, X = M.build({"fmt": "tt", "shape": list(shape), "rank": 2})
    rng = M.rng_for("c15", name, shape)
    if name == "decay":
        for i in range(1, 6):
            X = X + 10.0 ** -i * M.build({"fmt": "cp", "shape": list(shape), "rank": 1, "tag": i})[1]
        return DenseTensor(X), X
    if name == "sketch":
        s = stream_sketch(a, 2, 4, seed=1)
        return s, M.dense_tt(s.C_cores("right"))
    if name == "svd":
        t = tt_svd(a, 1)
        return t, M.dense_tt(t.cores)
    if name == "nearly":
        X = X + 1e-7 * rng.normal(size=shape)
        return DenseTensor(X), X
    X = X * (1e80 if name == "huge" else 1e-80)
    return DenseTensor(X), X


def check(ctx, T, X, rank, what, svs, scale):
    shape = X.shape
    tt = tt_svd(T, rank) if rank is not None else tt_svd(T)
    consistent(ctx, tt, shape, what)
    full = (M.prod(shape),) * (len(shape) - 1) if rank is None else tuple(rank) if isinstance(rank, (list, tuple)) else (int(rank),) * (len(shape) - 1)
    cap = trim_ref(shape, full)
    ctx.true(all(1 <= a <= b for a, b in zip(tt.rank, cap)), lambda: what + f": rank {tt.rank} exceeds {cap}")
    for m, C in enumerate(tt.cores[:-1]):
        A = C.reshape(-1, C.shape[2])
        ctx.close(A.T @ A, np.eye(A.shape[1]), what + f": core {m} not left-orthonormal", tol=1e-10, scale=1.0)
    Y = M.dense_tt(tt.cores)
    bound = np.sqrt(sum(float(np.sum(s[min(k, c):] ** 2)) for s, k, c in zip(svs, cap, tt.rank)))
    # the bound refers to the requested (attainable) ranks, not to smaller ranks an implementation may have chosen
    req = np.sqrt(sum(float(np.sum(s[k:] ** 2)) for s, k in zip(svs, cap)))
    err = float(np.linalg.norm(X - Y))
    ctx.true(err <= req * (1 + 1e-8) + 1e-11 * scale, lambda: what + f": error {err:.3g} exceeds the bound {req:.3g} (ranks {tt.rank}: {bound:.3g})")
    if all(k >= int(np.sum(s > 1e-12 * scale)) for k, s in zip(cap, svs)):
        ctx.close(Y, X, what + ": not exact although the ranks suffice", tol=1e-10, scale=scale)
    ctx.goto(0)
    ctx.step(what.rsplit(" rank ", 1)[-1], Y / scale)
    ctx.traces += 1


def run_case(case, ctx):
    shape = tuple(case["shape"])
    if case["kind"] == "tiny":
        n = M.prod(shape)
        for k in range(case["from"], case["to"]):
            X = (np.array([(k // 3 ** i) % 3 for i in range(n)], dtype=float) - 1).reshape(shape)
            svs = [sv(X, b) for b in range(1, len(shape))]
            ctx.begin(X)
            for rank in (None, 1, 2):
                check(ctx, DenseTensor(X), X, rank, f"dense {X.tolist()} rank {rank}", svs, 1.0)
        return
    specs = M.tensor_menu(shape) + [M.with_shape(s, shape) for s in SPECS]
    if case.get("large"):
        specs = [M.with_shape(s, shape) for s in ({"fmt": "dense"}, {"fmt": "tt", "rank": 9}, {"fmt": "sparse"}, {"fmt": "cp", "rank": 20}, {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 3}, {"fmt": "sparse", "nnz": "one"}]})]
    for spec in specs[:1] + ["decay"] if case.get("huge") else specs[:3] + ["decay", "sketch"] if case.get("few") else specs + SPECIAL:
        T, X = make(spec, shape) if isinstance(spec, str) else M.build(spec)
        scale = max(float(np.linalg.norm(X)), 1e-290)
        if float(np.linalg.norm(X)) == 0:
            scale = 1.0
        svs = [sv(X, b) for b in range(1, len(shape))]
        ctx.begin((shape, X))
        for rank in [None, 2, 70] if case.get("huge") else requests(shape) + ([20, 65, [40 - 3 * i for i in range(len(shape) - 1)]] if case.get("large") else []):
            check(ctx, T, X, rank, f"{spec if isinstance(spec, str) else M.describe(spec)} {shape} rank {rank}", svs, scale)
