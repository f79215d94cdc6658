"""C26: the benchmark functions report the true error of the approximation they were asked for."""
import itertools
import os
import shutil
import tempfile
import time

import numpy as np

from checks.C05 import trim_ref
from lib import model as M
from scripts import experiment_base as E
from tt_sketch.sketch import SketchedTensorTrain
from tt_sketch.tensor import TensorTrain

PROPERTY = "C26"
RULE = ("every benchmark function x tensor (all formats, exactly low-rank or not, zero) x rank request x DRM types x recompression rank x error function "
        "(none, one that keeps the approximation, ones that return 0 or a string) x extra arguments: the approximation handed to the error function is "
        "checked against the request, and the number reported without one against the dense error of that approximation; each also through the experiment log")
BOUNDS = {"quick": "5 functions, 5 shapes, 12 tensors, 4-6 rank requests, 4 recompression ranks, 3 DRM combinations; 4 shapes with dimensions up to 130 or order 9, ranks up to 130, with a selection of those", "thorough": "all shapes of the menu, 3 seeds of the global generator"}
SHAPES = [(3, 4), (3, 2, 4), (2, 3, 2, 2), (5, 1, 3), (2, 2)]
LARGE = [(70, 66), (40, 30, 20), (3, 130, 4), (2,) * 9]
TENSORS = [{"fmt": "dense"}, {"fmt": "sparse"}, {"fmt": "tt", "rank": 1}, {"fmt": "tt", "rank": 3}, {"fmt": "cp", "rank": 2}, {"fmt": "tucker", "rank": 2}, {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 1}, {"fmt": "sparse"}]},
           {"fmt": "sum", "parts": [{"fmt": "cp", "rank": 1}, {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 1}, {"fmt": "tucker", "rank": 1}]}]},
           {"fmt": "dense", "data": "big"}, {"fmt": "tt", "data": "small", "rank": 2}, {"fmt": "sparse", "nnz": "one"}, {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 2}, {"fmt": "tt", "rank": 2, "tag": 1}, {"fmt": "tt", "rank": 1}]},
           {"fmt": "sparse", "data": "micro"}, {"fmt": "cp", "data": "micro", "rank": 3}]


def cases(tier):
    th = tier == "thorough"
    for s in SHAPES if not th else [x for x in M.shapes("quick") if M.prod(x) <= 300]:
        for i in range(len(TENSORS)):
            for g in range(3 if th else 1):
                yield {"shape": s, "tensor": i, "seed": 11 + g}
    for s in LARGE:
        for i in (0, 1, 3, 4, 6):
            yield {"shape": s, "tensor": i, "seed": 11, "stride": 5 if th else 23}


def requests(shape, fmt, spec):
    """(function, keyword arguments, rank bound per bond, method)"""
    n = len(shape) - 1
    two = ((1, 2), (2, 1), (2, 3), (4, 6), ([1 + i for i in range(n)], 9)) + (((3, (2,) * n)),)
    drms = [(None, None), ("tt", "tt")]
    if fmt == {"sparse"}:
        drms += [("sgauss", "sign"), ("sign", "dense")]
    elif fmt <= M.SUPPORT["dense"]:
        drms += [("dense", "tt")]
    for (l, r), (a, b), rec in itertools.product(two, drms, (None, 1, 2, 50)):
        kw = {"left_rank": l, "right_rank": r}
        if a:
            kw |= {"left_drm_type": M.DRMS[a], "right_drm_type": M.DRMS[b]}
        if rec:
            kw["recompression_rank"] = rec
        small = l if np.all(np.array(l) < np.array(r)) else r
        yield "stream", kw, bound(shape, small, rec, True)
        if np.all(np.array(l) < np.array(r)) and a != "sign" and b != "sign":  # sparse sign matrices may be singular for small ranks
            yield "orthogonal", kw, bound(shape, small, rec, True)
    for rk, (a, _), rec in itertools.product((1, 2, 3, tuple(2 + i for i in range(n))), drms, (None, 1, 2, 50)):
        kw = {"rank": rk}
        if a:
            kw["drm_type"] = M.DRMS[a]
        if rec:
            kw["recompression_rank"] = rec
        if a != "sign":
            yield "hmt", kw, bound(shape, rk, rec, True)
    for rk in (None, 1, 2, 20, tuple(1 + i % 2 for i in range(n))):
        yield "svd", {"rank": rk}, bound(shape, 10 ** 6 if rk is None else rk, None, True)
        if spec["fmt"] == "tt":
            yield "round", {"rank": rk}, bound(shape, 10 ** 6 if rk is None else rk, None, True)


def large_requests(shape):
    n = len(shape) - 1
    for l, r, rec in ((66, 70, None), (20, 66, 18), (7, 130, 66), ([5 + 30 * (i % 2) for i in range(n)], 36, None)):
        kw = {"left_rank": l, "right_rank": r} | ({"recompression_rank": rec} if rec else {})
        yield "stream", kw, bound(shape, l, rec, True)
        yield "orthogonal", kw, bound(shape, l, rec, True)
        yield "hmt", {"rank": r} | ({"recompression_rank": rec} if rec else {}), bound(shape, r, rec, True)
    for rk in (20, 66):
        yield "svd", {"rank": rk}, bound(shape, rk, None, True)


def bound(shape, rank, rec, trim):
    r = (rank,) * (len(shape) - 1) if isinstance(rank, int) else tuple(rank)
    r = trim_ref(shape, r)
    return tuple(min(x, rec) for x in r) if rec else tuple(r)


FUN = {"stream": E.experiment_stream_sketch, "orthogonal": E.experiment_orthogonal_sketch, "hmt": E.experiment_hmt_sketch, "svd": E.experiment_tt_svd, "round": E.experiment_tt_round}


LABELS = [("eps", 0.9), ("tol", 0.9), ("tolerance", 0.9), ("seed", 3), ("random_state", 3), ("max_rank", 1), ("method", "hmt"), ("orthogonalized", True), ("oversample", 1), ("oversampling", 3),
          ("trim", False), ("relative", False), ("rmse", True), ("fast", True), ("norm", 2.0), ("n_dims", 2), ("shape", (1, 1)), ("direction", "left"), ("normalize", True), ("transpose", True),
          ("dtype", "float32"), ("verbose", 1), ("repeat", 3), ("run", 0), ("reverse", True), ("rank", 1), ("left_rank", 1), ("right_rank", 1), ("drm_type", None), ("return_drm", True),
          ("left_drm", None), ("right_drm", None), ("drm", None), ("rounding", True), ("orthog", True), ("exact", True), ("num_repeats", 2), ("maxiter", 0), ("noise", 0.5)]
OWN = {"stream": {"left_rank", "right_rank", "recompression_rank"}, "orthogonal": {"left_rank", "right_rank", "recompression_rank"}, "hmt": {"rank", "drm_type", "recompression_rank"}, "svd": {"rank"}, "round": {"rank"}}


def dense_of(a):
    return M.dense_tt(a.C_cores() if isinstance(a, SketchedTensorTrain) else a.cores)


def close_error(ctx, got, want, mag, what):
    got = float(got)
    if want == np.inf:
        ctx.true(got == np.inf, f"{what}: got {got}")
        return
    ok = abs(got - want) <= 1e-11 * max(mag, 1e-300)
    ctx.true(np.isfinite(got) and ok, f"{what}: reported {got!r}, true error {want!r}")


def run_case(case, ctx):
    shape = tuple(case["shape"])
    spec = M.with_shape(TENSORS[case["tensor"]], shape)
    T, X = M.build(spec)
    norm = float(np.linalg.norm(X))
    fmt = M.formats_of(spec)
    before = [np.array(a) for a in arrays(T)]
    log_rows = []
    todo = list(requests(shape, fmt, spec))
    if "stride" in case:
        todo = list(large_requests(shape)) + todo[case["tensor"]::case["stride"]]
    for k, (name, kw, cap) in enumerate(todo):
        what = f"experiment {name} {M.describe({a: getattr(b, '__name__', b) for a, b in kw.items()})} on {M.describe(spec)}"
        ctx.begin((name, M.describe(kw)))
        seen = []

        def keep(approx, tensor, result=0.125):
            seen.append((approx, tensor))
            return result
        np.random.seed(case["seed"])
        start = time.perf_counter()
        r = FUN[name](T, error_func=keep, run=3, **kw)
        spent = time.perf_counter() - start
        ctx.equal(sorted(r), ["error", "time_taken"], what + ": reported quantities")
        ctx.equal(len(seen), 1, what + ": calls of the error function")
        ctx.true(r["error"] == 0.125, f"{what}: reports {r['error']} instead of the error function's result")
        ctx.true(0 <= r["time_taken"] <= spent, f"{what}: reports {r['time_taken']} s, the whole call took {spent} s")
        approx, tensor = seen[0]
        ctx.true(tensor is T, what + ": the error function gets another tensor")
        ctx.true(isinstance(approx, (SketchedTensorTrain, TensorTrain)), f"{what}: approximation is a {type(approx)}")
        ctx.equal(tuple(approx.shape), shape, what + ": shape of the approximation")
        cores = approx.C_cores() if isinstance(approx, SketchedTensorTrain) else approx.cores
        ranks = tuple(C.shape[0] for C in cores[1:])
        ctx.true(all(a <= b for a, b in zip(ranks, cap)), lambda: f"{what}: ranks {ranks} exceed {cap}")
        if "recompression_rank" not in kw and name != "round" and not (name == "stream"):
            ctx.equal(ranks, cap, what + ": ranks")
        Y = dense_of(approx)
        err = float(np.linalg.norm(X - Y)) / norm if norm else np.inf
        mag = (float(np.prod([np.linalg.norm(C) for C in cores])) + norm + parts_norm(T)) / norm if norm else 1.0
        ctx.step("approximation", Y)
        # the same run without an error function
        np.random.seed(case["seed"])
        r2 = FUN[name](T, **kw)
        ctx.equal(sorted(r2), ["error", "time_taken"], what + ": reported quantities")
        close_error(ctx, r2["error"], err, mag, what)
        # parameters that only label the run, named like options of the algorithms
        for label, value in LABELS if k % 5 == 0 else LABELS[k % len(LABELS)::len(LABELS)]:
            if label in OWN[name]:
                continue
            np.random.seed(case["seed"])
            r3 = FUN[name](T, **{label: value}, **kw)
            ctx.true(r3["error"] == r2["error"] or r2["error"] != r2["error"], f"{what}: with the label {label}={value!r} the error is {r3['error']!r} instead of {r2['error']!r}")
        # results of an error function that look like nothing
        for v in (0, 0.0, None, "text"):
            ctx.true(FUN[name](T, error_func=lambda a, t, v=v: v, **kw)["error"] is v, f"{what}: result {v!r} of the error function")
        # what the tensor's rank promises
        svs = [np.linalg.svd(X.reshape(M.prod(shape[:b]), -1), compute_uv=False) for b in range(1, len(shape))]
        if name in ("svd", "round"):
            bnd = np.sqrt(sum(float(np.sum(s[c:] ** 2)) for s, c in zip(svs, cap)))
            ctx.true(float(np.linalg.norm(X - Y)) <= bnd * (1 + 1e-8) + 1e-10 * max(norm, parts_norm(T)), lambda: f"{what}: error {err * norm} exceeds the bound {bnd}")
        best = max((float(np.sqrt(np.sum(s[c:] ** 2))) for s, c in zip(svs, cap)), default=0)
        ctx.true(float(np.linalg.norm(X - Y)) >= best * (1 - 1e-8) - 1e-10 * max(norm, parts_norm(T)), lambda: f"{what}: error below the smallest possible {best}")
        ctx.step("error", round(err, 6) if np.isfinite(err) else err)
        if k % 7 == 0:
            log_rows.append((k, name, kw, r2["error"]))
        ctx.true(all(np.array_equal(a, b) for a, b in zip(before, arrays(T))), what + ": the tensor was changed")
    through_log(ctx, case, T, log_rows)


def through_log(ctx, case, T, rows):
    """The same runs recorded by the experiment log."""
    d = tempfile.mkdtemp(prefix="c26-")
    try:
        path = os.path.join(d, "log.csv")
        log = E.Experiment(path)
        for k, name, kw, err in rows:
            np.random.seed(case["seed"])
            log.do_experiment(T, f"{name} {k}", FUN[name], run=k, **kw)
        for which, data in (("log", log.data), ("file", E.Experiment(path).data)):
            ctx.equal(len(data), len(rows), f"rows in the {which}")
            for (k, name, kw, err), (_, row) in zip(rows, data.iterrows()):
                ctx.equal(row["name"], f"{name} {k}", f"{which}: name in row {k}")
                ctx.true(row["error"] == err or (np.isnan(row["error"]) and np.isnan(err)), f"{which}: experiment {name} {kw}: recorded {row['error']!r} instead of {err!r}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def arrays(T):
    n = type(T).__name__
    if n == "TensorSum":
        return [a for t in T.tensors for a in arrays(t)]
    if n == "DenseTensor":
        return [T.data]
    if n == "SparseTensor":
        return [np.asarray(T.indices), T.entries]
    if n == "TuckerTensor":
        return [T.core] + list(T.factors)
    return list(T.cores)


def parts_norm(T):
    n = type(T).__name__
    if n == "TensorSum":
        return sum(parts_norm(t) for t in T.tensors)
    if n == "SparseTensor":
        return float(np.linalg.norm(T.entries))
    return float(np.prod([np.linalg.norm(a) for a in arrays(T)]))
