"""C24: streaming, orthogonal and HMT results against a dense evaluation of their defining formulas."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

PROPERTY = "C24"
RULE = ("full product of shapes x full-rank (and some low-rank) tensors in every format and memory layout x rank requests x supporting DRM pairs x "
        "methods x assembly directions; the real result is compared with the two-sided formula / the successive projections evaluated densely from the "
        "DRMs' explicit matrices; the HMT error is checked orthogonal to the result; histories of updates and scalings before the conversion")
BOUNDS = {"quick": "20 shapes of order 2-6, 26 tensors (magnitudes 1e-72 to 1e72 among them), 7 larger shapes (dimensions up to 70, order up to 8, ranks up to 40), 3-6 rank requests, all supporting DRM pairs",
          "thorough": "60 shapes, 3 seeds"}
ASSUMPTIONS = ["executions whose formula is ill-conditioned (condition number of a small matrix > 1e5, or product of them > 1e6) are skipped and counted"]

SHAPES = [(2, 3), (4, 4), (6, 3), (3, 40), (3, 3, 3), (2, 4, 3), (4, 2, 4), (5, 4, 6), (2, 6, 2), (3, 1, 4), (1, 4, 4), (4, 3, 1), (2, 3, 3, 2), (3, 3, 3, 3),
          (2, 4, 3, 4), (4, 1, 1, 3), (2, 2, 2, 2, 2), (3, 2, 4, 2, 3), (2, 2, 3, 2, 2, 2), (17, 3, 2)]
LARGE = [(20, 30), (70, 20), (12, 10, 9), (9, 2, 70), (5, 6, 4, 6), (2,) * 8, (3, 66, 4)]
MORE = [s for d in (3, 4) for s in itertools.product((1, 2, 3), repeat=d)][::3] + [(2,) * 7, (5, 6, 7), (4, 4, 4, 4), (6, 7), (8, 2, 8)]


def tensors(shape):
    d = len(shape)
    return [
        {"fmt": "dense"}, {"fmt": "dense", "layout": "F"}, {"fmt": "dense", "layout": "strided"}, {"fmt": "dense", "data": "int"},
        {"fmt": "sparse", "nnz": "full"}, {"fmt": "sparse", "nnz": "full", "order": "reversed", "itype": "int32"}, {"fmt": "sparse"},
        {"fmt": "tt", "rank": 6}, {"fmt": "tt", "rank": [4, 7, 5, 3, 6, 4][:d - 1], "layout": "F"}, {"fmt": "tt", "rank": 3}, {"fmt": "tt", "rank": 9, "data": "pos"},
        {"fmt": "cp", "rank": 9}, {"fmt": "cp", "rank": 4, "layout": "F"},
        {"fmt": "tucker", "rank": list(shape)}, {"fmt": "tucker", "rank": [n + 1 for n in shape], "layout": "F"}, {"fmt": "tucker", "rank": [max(1, n - 1) for n in shape]},
        {"fmt": "sum", "parts": [{"fmt": "dense"}, {"fmt": "tt", "rank": 2}, {"fmt": "sparse"}]},
        {"fmt": "sum", "parts": [{"fmt": "cp", "rank": 5}, {"fmt": "tucker", "rank": list(shape)}, {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 4}]}]},
        {"fmt": "sum", "parts": [{"fmt": "sparse"}, {"fmt": "sparse", "tag": 1}, {"fmt": "sparse", "tag": 2, "nnz": "one"}]},
        {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 3}]},
        {"fmt": "dense", "data": "micro"}, {"fmt": "sparse", "nnz": "full", "data": "micro", "tag": 1}, {"fmt": "tt", "rank": 6, "data": "micro"}, {"fmt": "cp", "rank": 9, "data": "giga"},
        {"fmt": "tucker", "rank": list(shape), "data": "giga"},
        {"fmt": "sum", "parts": [{"fmt": "dense", "data": "micro"}, {"fmt": "sparse", "data": "micro", "tag": 2}]},
    ]


def cases(tier):
    for shape in SHAPES + LARGE + (MORE if tier == "thorough" else []):
        for ti in range(len(tensors(shape))):
            yield {"shape": shape, "tensor": ti, "seeds": [21] if tier == "quick" else [21, 22, 0]}


def requests(shape):
    n = len(shape) - 1
    if shape in LARGE:
        yield 9, 17
        yield 3, 40
        yield tuple(6 + i % 3 for i in range(n)), tuple(20 - i for i in range(n))
        return
    yield 1, 2
    yield 2, 3
    yield 2, 7
    yield tuple(1 + i % 3 for i in range(n)), tuple(5 + (n - i) % 3 for i in range(n))
    if n > 1:
        yield tuple(3 - i % 2 for i in range(n)), 8
        yield 4, 5


def cond(A):
    s = np.linalg.svd(A, compute_uv=False)
    return s[0] / s[-1] if s[-1] > 0 else np.inf


def stream_formula(Psi, Omega, direction):
    """(dense value, amplification) of the two-sided formula; None when ill-conditioned."""
    amp = 1.0
    inv = []
    for Om in Omega:
        c = cond(Om)
        if not c < 1e5:
            return None
        amp *= max(1.0, c)
        inv.append(np.linalg.pinv(Om, rcond=1e-12))
    if not amp < 1e6:
        return None
    cores = []
    for m, P in enumerate(Psi):
        if direction == "right" and m < len(inv):
            P = np.tensordot(P, inv[m], axes=(2, 0))
        if direction == "left" and m > 0:
            P = np.tensordot(inv[m - 1], P, axes=(1, 0))
        cores.append(P)
    return M.dense_tt(cores), amp, max(float(np.prod([np.linalg.norm(c) for c in cores])), 0.0)


def projection(X, L, R):
    """Successive projections; L None: HMT.  Returns (dense value, amplification) or None."""
    shape = X.shape
    d = len(shape)
    Q = np.ones((1, 1))
    amp = 1.0
    for m in range(d - 1):
        Y = Q.T @ X.reshape(Q.shape[0], -1)
        r = Q.shape[1]
        Psi = Y.reshape(r * shape[m], -1) @ R[m].T
        if L is not None:
            Om = L[m] @ X.reshape(M.prod(shape[:m + 1]), -1) @ R[m].T
            c = cond(Om)
            if not c < 1e5:
                return None
            amp *= c
            Psi = Psi @ np.linalg.pinv(Om, rcond=1e-12)
        if Psi.shape[1] > Psi.shape[0]:
            return None
        U, s, _ = np.linalg.svd(Psi, full_matrices=False)
        if not (s[-1] > 0 and s[0] / s[-1] < 1e5):
            return None
        amp *= s[0] / s[-1]
        Q = np.einsum("ar,rnk->ank", Q, U.reshape(r, shape[m], -1)).reshape(-1, U.shape[1])
    if not amp < 1e6:
        return None
    return (Q @ (Q.T @ X.reshape(Q.shape[0], -1))).reshape(shape), amp


def run_case(case, ctx):
    shape = tuple(case["shape"])
    spec = M.with_shape(tensors(shape)[case["tensor"]], shape)
    T, X = M.build(spec)
    mag = max(float(np.max(np.abs(X))), 1e-300)
    nrm = max(float(np.linalg.norm(X)), 1e-300)
    ctx.begin((shape, X))
    pairs = [p for p in itertools.product(M.DRMS, repeat=2) if M.supported(spec, *p)]
    for (left, right), seed, (lo, hi) in itertools.product(pairs, case["seeds"], requests(shape)):
        Dl, Dr = M.DRMS[left], M.DRMS[right]
        base = f"{M.describe(spec)} DRMs {left}/{right} seed {seed}"
        for a, b in ((lo, hi), (hi, lo)):
            what = f"stream ranks {a},{b} of {base}"
            sk, ld, rd = stream_sketch(T, a, b, seed=seed, left_drm_type=Dl, right_drm_type=Dr, return_drm=True)
            L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
            Psi, Omega = M.ref_components(X, L, R)
            for direction in ("right", "left"):
                ref = stream_formula(Psi, Omega, direction)
                if ref is None:
                    ctx.skip("streaming formula ill-conditioned")
                    continue
                val, amp, scale = ref
                tol = 1e-12 * max(amp, 10)
                ctx.close(M.dense_tt(sk.C_cores(direction)), val, f"{what} assembled {direction}", tol=tol, scale=max(scale, mag))
                if (direction == "left") == (a is hi):
                    ctx.close(M.dense_tt(sk.to_tt().cores), val, what + " to_tt", tol=tol, scale=max(scale, mag))
                    ctx.close(sk.to_numpy(), val, what + " to_numpy", tol=tol, scale=max(scale, mag))
                    ctx.close(M.dense_tt(sk.C_cores()), val, what + " C_cores", tol=tol, scale=max(scale, mag))
                    s2 = (sk * -2.0) + T
                    ctx.close(s2.to_numpy(), -val, what + " after *(-2) and + itself", tol=3 * tol, scale=max(scale, mag))
                    ctx.close(sk.T.to_numpy(), val.transpose(), what + " transposed", tol=tol, scale=max(scale, mag))
                ctx.step(("stream", left, right, a, b, direction), val)
                ctx.traces += 1
        what = f"orthogonal ranks {lo},{hi} of {base}"
        tt, ld, rd = orthogonal_sketch(T, lo, hi, seed=seed, left_drm_type=Dl, right_drm_type=Dr, return_drm=True)
        ref = projection(X, M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True))
        if ref is None:
            ctx.skip("orthogonal sketch ill-conditioned")
        else:
            tol = 1e-12 * max(ref[1], 10)
            ctx.close(M.dense_tt(tt.cores), ref[0], what, tol=tol, scale=nrm)
            ctx.close(tt.to_numpy(), ref[0], what + " to_numpy", tol=tol, scale=nrm)
            ctx.step(("orth", left, right, lo, hi), ref[0])
            ctx.traces += 1
        if left == right:
            for rank in (lo, hi):
                what = f"HMT rank {rank} of {base}"
                tt, drm = hmt_sketch(T, rank, seed=seed, drm_type=Dr, return_drm=True)
                got = M.dense_tt(tt.cores)
                # holds without any condition: the last core is a projection onto the span of the first ones
                ctx.true(abs(float(np.sum((X - got) * got))) <= 1e-9 * nrm * nrm, what + f": error not orthogonal to the result ({float(np.sum((X - got) * got)):.3g})")
                ref = projection(X, None, M.drm_matrices(drm, shape, True))
                if ref is None:
                    ctx.skip("HMT projections ill-conditioned")
                    continue
                ctx.close(got, ref[0], what, tol=1e-12 * max(ref[1], 10), scale=nrm)
                ctx.close(tt.to_numpy(), ref[0], what + " to_numpy", tol=1e-12 * max(ref[1], 10), scale=nrm)
                ctx.step(("hmt", right, rank), ref[0])
                ctx.traces += 1
