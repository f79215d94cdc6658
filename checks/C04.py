"""C04: tensors of TT-rank within the requested ranks are recovered to rounding accuracy."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

PROPERTY = "C04"
RULE = ("full product of shapes x low-rank tensors in every format x requested ranks (exactly the TT-rank, oversampled, far beyond "
        "the dimensions; left or right larger) x DRM pairs x methods x scales; the real result is compared with the tensor")
BOUNDS = {"quick": "35 shapes of order 2-6, TT-ranks 0-3, 5 rank requests, all supporting DRM pairs, 3 methods, scales 1e-100..1e100; 7 larger shapes (dimensions up to 700, order 9, up to 18000 entries) with TT-ranks to 20 and requests to 150",
          "thorough": "65 shapes, more ranks and seeds"}
ASSUMPTIONS = ["a case is compared only where the sketched small matrices numerically keep the tensor's rank (always for Gaussian "
               "DRMs up to conditioning; the +-1 DRM may lose it by chance); the number of skipped executions is reported"]

SHAPES = [(2, 2), (3, 4), (5, 2), (1, 3), (4, 1), (1, 1), (17, 6), (2, 2, 2), (3, 2, 4), (1, 3, 2), (2, 1, 3), (3, 2, 1), (5, 4, 6), (2, 7, 2), (1, 1, 1),
          (2, 2, 2, 2), (3, 4, 2, 3), (1, 2, 3, 2), (2, 1, 1, 3), (4, 3, 3, 4), (2, 2, 2, 2, 2), (3, 1, 2, 3, 2), (2, 3, 2, 2, 3, 2),
          (6, 2, 2), (2, 2, 6), (9, 3), (3, 9), (2, 8, 3, 2), (3, 3, 3), (4, 4, 4), (2, 3, 4, 5),
          (40, 3), (3, 60), (2, 50, 3), (3, 2, 41)]
MORE = [s for d in (3, 4) for s in itertools.product((1, 2, 3), repeat=d)][::4] + [(2,) * 7, (5, 6, 7), (4, 4, 4, 4)]


def tensors(d):
    return [
        {"fmt": "tt", "rank": 1}, {"fmt": "tt", "rank": 2}, {"fmt": "tt", "rank": [1, 2, 3, 2, 1, 2][:d - 1]},
        {"fmt": "tt", "rank": 2, "data": "zero"}, {"fmt": "tt", "rank": 4, "data": "ones"}, {"fmt": "cp", "rank": 2}, {"fmt": "cp", "rank": 1, "data": "int"},
        {"fmt": "tucker", "rank": 1}, {"fmt": "tucker", "rank": [2, 1, 2, 1, 2, 1, 2][:d]},
        {"fmt": "gcp", "rank": 2}, {"fmt": "gdense", "rank": 2}, {"fmt": "gsparse", "rank": 2}, {"fmt": "gtt", "rank": 3},
        {"fmt": "gcp", "rank": 2, "grade": 7.5}, {"fmt": "gdense", "rank": 3, "grade": 7.5}, {"fmt": "gsparse", "rank": 2, "grade": 7.5}, {"fmt": "gtt", "rank": 3, "grade": 3.7},
        {"fmt": "dense!", "rank": 2}, {"fmt": "dense!", "rank": 1}, {"fmt": "sparse", "nnz": 2}, {"fmt": "sparse", "nnz": "one"}, {"fmt": "sparse", "nnz": "empty"},
        {"fmt": "sparse!", "rank": 2}, {"fmt": "sparse!", "rank": 1},
        {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 1}, {"fmt": "sparse", "nnz": 1}]},
        {"fmt": "sum", "parts": [{"fmt": "dense"}, {"fmt": "negdense"}, {"fmt": "sparse", "nnz": 2}]},
        {"fmt": "sum", "parts": [{"fmt": "cp", "rank": 1}, {"fmt": "tucker", "rank": 1}, {"fmt": "sum", "parts": [{"fmt": "sparse", "nnz": 1}]}]},
    ]


def build(spec, scale):
    """As model.build, with dense/sparse storage of low-rank values ('dense!', 'sparse!')."""
    fmt = spec["fmt"]
    if fmt in ("dense!", "sparse!"):
        _, X = M.build(dict(spec, fmt="tt"))
        X = X * scale
        if fmt == "dense!":
            return M.DenseTensor(X.copy()), X
        return M.SparseTensor(X.shape, np.indices(X.shape).reshape(X.ndim, -1), X.reshape(-1).copy()), X
    if fmt in ("gcp", "gdense", "gsparse", "gtt"):  # graded: components of very different size
        C, _ = M.build(dict(spec, fmt="cp"))
        cores = [np.array(c) for c in C.cores]
        cores[0] = cores[0] * 10.0 ** (-spec.get("grade", 5) * np.arange(cores[0].shape[1])) * scale
        X = M.dense_cp(cores)
        if fmt == "gcp":
            return M.CPTensor(cores), X
        if fmt == "gdense":
            return M.DenseTensor(X.copy()), X
        if fmt == "gtt":
            r = spec["rank"]
            return M.TensorTrain([cores[0][None]] + [np.einsum("ij,jk->jik", c, np.eye(r))
                                                     for c in cores[1:-1]] + [cores[-1].T[:, :, None]]), X
        return M.SparseTensor(X.shape, np.indices(X.shape).reshape(X.ndim, -1), X.reshape(-1).copy()), X
    if fmt == "negdense":
        _, X = M.build({"fmt": "dense", "shape": spec["shape"]})
        return M.DenseTensor(-X * scale), -X * scale
    if fmt == "sum":
        parts = [build(p, scale) for p in spec["parts"]]
        return M.TensorSum([t for t, _ in parts]), sum(x for _, x in parts)
    T, X = M.build(spec)
    if scale != 1:
        if fmt == "sparse":
            T = M.SparseTensor(T.shape, T.indices, T.entries * scale)
        elif fmt == "tucker":
            T = M.TuckerTensor(T.factors, T.core * scale)
        elif fmt in ("tt", "cp"):
            T = type(T)([T.cores[0] * scale] + list(T.cores[1:]))
        else:
            T = M.DenseTensor(X * scale)
    return T, X * scale


def formats(spec):
    if spec["fmt"] == "sum":
        return set().union(*[formats(p) for p in spec["parts"]])
    return {{"dense!": "dense", "sparse!": "sparse", "negdense": "dense", "gcp": "cp", "gdense": "dense", "gsparse": "sparse", "gtt": "tt"}.get(spec["fmt"], spec["fmt"])}


def cases(tier):
    shapes = SHAPES + (MORE if tier == "thorough" else [])
    for shape in shapes:
        for ti in range(len(tensors(3))):
            yield {"shape": shape, "tensor": ti, "seeds": [11] if tier == "quick" else [11, 12, 0]}
    for shape in LARGE:
        for ti in range(len(LARGE_TENSORS)):
            yield {"shape": shape, "tensor": ti, "seeds": [11], "large": 1}


# long modes, many modes, large ranks
LARGE = [(130, 140), (8, 9, 8, 7), (2,) * 9, (3, 400, 2), (30, 40, 3), (2, 3, 700), (700, 3, 2)]
LARGE_TENSORS = [{"fmt": "tt", "rank": 20}, {"fmt": "cp", "rank": 20}, {"fmt": "cp", "rank": 1}, {"fmt": "dense!", "rank": 20}, {"fmt": "sparse!", "rank": 2}, {"fmt": "sparse", "nnz": 20}, {"fmt": "tucker", "rank": 2},
                 {"fmt": "gdense", "rank": 2}, {"fmt": "gtt", "rank": 3}, {"fmt": "sum", "parts": [{"fmt": "sparse", "nnz": 3}, {"fmt": "dense!", "rank": 2}]}, {"fmt": "tt", "rank": 7, "data": "zero"}]


def requests(r, n):
    """(left, right) rank requests for TT-rank r."""
    r = [max(1, x) for x in r]
    yield "exact", tuple(r), tuple(x + 1 for x in r)
    yield "over", tuple(x + 1 + i % 2 for i, x in enumerate(r)), tuple(x + 4 for x in r)
    yield "left", tuple(x + 3 for x in r), tuple(x + 1 for x in r)
    yield "huge", 30, 37
    yield "hugeleft", 25, max(r) + 1


def LARGE_REQUESTS(r, n):
    yield from list(requests(r, n))[1:4]
    yield "larger", 140, 150
    yield "largerleft", 135, 60


def run_case(case, ctx):
    shape = tuple(case["shape"])
    n = len(shape) - 1
    large = case.get("large")
    spec = M.with_shape((LARGE_TENSORS if large else tensors(len(shape)))[case["tensor"]], shape)
    fm = formats(spec)
    for scale in (1,) if large else (1, 1e-100, 1e100, 1e-9):
        T, X = build(spec, scale)
        mag = float(np.max(np.abs(X)))
        ranks = [int(np.linalg.matrix_rank(X.reshape(M.prod(shape[:m + 1]), -1) / (mag or 1), tol=1e-12)) for m in range(n)]
        ctx.begin((shape, X))
        for (left, right), seed in itertools.product(itertools.product(M.DRMS, repeat=2), case["seeds"]):
            if not (fm <= M.SUPPORT[left] and fm <= M.SUPPORT[right]):
                continue
            if (scale != 1 or large) and left != right:
                continue
            for name, lr, rr in requests(ranks, n) if not large else LARGE_REQUESTS(ranks, n):
                for method in ("stream", "orth", "hmt"):
                    if method == "orth" and name in ("left", "hugeleft", "largerleft"):
                        continue
                    if method == "hmt" and (left != right or name in ("left", "hugeleft", "largerleft")):
                        continue
                    what = f"{method} {name} {lr}/{rr} {left}/{right} scale {scale} of {M.describe(spec)}"
                    Dl, Dr = M.DRMS[left], M.DRMS[right]
                    if method == "hmt":
                        res, drm = hmt_sketch(T, lr, seed=seed, drm_type=Dr, return_drm=True)
                        L, R = None, M.drm_matrices(drm, shape, True)
                    elif method == "orth":
                        res, ld, rd = orthogonal_sketch(T, lr, rr, seed=seed, left_drm_type=Dl, right_drm_type=Dr, return_drm=True)
                        L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
                    else:
                        res, ld, rd = stream_sketch(T, lr, rr, seed=seed, left_drm_type=Dl, right_drm_type=Dr, return_drm=True)
                        L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
                    tol = tolerance(X / mag, ranks, L, R) if mag else 1e-9
                    if tol is None:
                        ctx.skip("sketch does not keep the rank or is ill-conditioned")
                        continue
                    tt = res.to_tt() if method == "stream" else res
                    got = M.dense_tt(tt.cores)
                    ctx.close(got, X, what, tol=tol, scale=mag if mag else 1e-300)
                    got2 = res.to_numpy()
                    ctx.close(got2, X, what + " (to_numpy)", tol=tol, scale=mag if mag else 1e-300)
                    ctx.step((method, name, left, right), [np.round(c, 6) if scale == 1 else 0 for c in tt.cores])
                    ctx.traces += 1


def tolerance(X, ranks, L, R):
    """Rounding-error amplification of the sketch, or None when the sketch loses the rank."""
    amp = 1.0
    for m, r in enumerate(ranks):
        if r == 0:
            continue
        U, _, Vt = np.linalg.svd(X.reshape(M.prod(X.shape[:m + 1]), -1), full_matrices=False)
        c = 1.0
        for mat in ([L[m] @ U[:, :r]] if L is not None else []) + [R[m] @ Vt[:r].T]:
            if min(mat.shape) < r:
                return None
            s = np.linalg.svd(mat, compute_uv=False)
            c *= s[0] / s[r - 1] if s[r - 1] > 0 else np.inf
        if L is not None:
            c *= np.linalg.norm(L[m], 2) * np.linalg.norm(R[m], 2) / max(
                np.linalg.norm(L[m] @ U[:, :r], 2) * np.linalg.norm(R[m] @ Vt[:r].T, 2), 1e-300)
        if not c < 1e5:
            return None
        amp *= max(c, 10.0)
    tol = 1e-11 * amp
    if tol > 1e-4:
        return None
    return max(tol, 1e-10)
