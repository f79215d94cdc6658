"""C05: shape, rank and orthogonality contract of all sketching methods."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

PROPERTY = "C05"
RULE = ("full product of shapes x rank requests (int / tuple / list, uniform / varying, small / beyond what the shape allows, left "
        "larger / right larger) x tensors of every format (generic, low-rank, zero) x DRM types x methods x assembly directions; "
        "ranks are compared with a closed-form reference of rank trimming")
BOUNDS = {"quick": "all shapes with dims<=3 of order 2, half of those of order 3 and of dims<=2 of order 4, 15 larger shapes up to order 6; 6 rank requests; a few shapes with dimensions up to 300",
          "thorough": "also dims<=3 of order 4, dims<=2 of order 5, more DRM pairs"}


def trim_ref(shape, ranks):
    """Largest attainable ranks below the request: r*_i = min over all bonds j (boundaries included) of r_j * dims between."""
    d = len(shape)
    ext = [1] + list(ranks) + [1]
    return tuple(min(ext[j] * M.prod(shape[min(i, j):max(i, j)]) for j in range(d + 1)) for i in range(1, d))


def requests(shape):
    n = len(shape) - 1
    out = [(1, 2), (2, 5), (40, 50), (tuple(range(1, n + 1)), tuple(range(3, n + 3))),
           ([n + 1 - i for i in range(n)], [2 * n + 3 - i for i in range(n)]), (tuple(1 + 9 * (i % 2) for i in range(n)), 12)]
    return out


TENSORS = [
    {"fmt": "dense"}, {"fmt": "sparse", "nnz": "full"}, {"fmt": "sparse", "nnz": "one"}, {"fmt": "tt", "rank": 4}, {"fmt": "tt", "rank": 1},
    {"fmt": "tt", "data": "zero"}, {"fmt": "cp", "rank": 5}, {"fmt": "tucker", "rank": 3}, {"fmt": "tucker", "rank": 1}, {"fmt": "sparse", "nnz": "empty"},
    {"fmt": "sum", "parts": [{"fmt": "tt"}, {"fmt": "sparse"}, {"fmt": "dense"}]}, {"fmt": "sum", "parts": [{"fmt": "cp"}, {"fmt": "tucker"}]},
    {"fmt": "sparse", "data": "micro"}, {"fmt": "tt", "data": "giga", "rank": 3},
]


def cases(tier):
    for k, shape in enumerate(M.shapes(tier)):
        if tier == "quick" and len(shape) >= 3 and max(shape) <= 3 and k % 2:
            continue
        for ti in range(len(TENSORS)):
            yield {"shape": shape, "tensor": ti, "pairs": "all" if tier == "thorough" else "some"}
    for k, (shape, _, which) in enumerate(TALL):
        for ti in which:
            yield {"shape": shape, "tensor": ti, "pairs": "tall", "tall": k}


# many or large modes, where the middle ranks can be large: (shape, rank requests, tensors)
TALL = [((2,) * 12, [(100, 120), (3, 70), ([2 + i % 5 for i in range(11)], [8] * 11), ([40] + [1] * 9 + [40], 64)], (3, 2, 6)),
        ((3,) * 7, [(90, 100), (9, 30), ((2, 5, 30, 30, 5, 2), (90,) * 6)], (0, 1, 3, 6, 7)), ((2, 7, 2, 7, 2, 7), [(60, 70), ((1, 2, 14, 28, 8), 30)], (0, 3, 10)),
        ((60, 70), [(50, 65), (64, 65)], (0, 1, 3)), ((300, 3, 2), [(7, 20), ((6, 2), (7, 3))], (1, 3, 6)), ((4, 90, 4), [(4, 9), (17, 40)], (0, 1, 3)), ((1,) * 9, [(1, 2), (5, 6)], (0, 1, 2, 3, 6, 7)),
        ((130, 140), [(66, 129), (129, 140)], (0, 1, 3)), ((3, 2, 1100), [(5, 6), (6, 20)], (0, 1, 3, 6)), ((1100, 2, 3), [(6, 7), (66, 70)], (0, 2, 3)), ((70, 66, 2), [(66, 67), ((68, 1), (70, 2))], (0, 3, 10)),
        ((2,) * 16, [(3, 5), (17, 20)], (2, 3, 6))]


def vec(r, n):
    return tuple(r) if isinstance(r, (list, tuple)) else (r,) * n


def check_tt(ctx, tt, shape, rank, what):
    d = len(shape)
    ctx.equal(tuple(tt.shape), shape, what + ": shape")
    ctx.equal(tuple(tt.rank), rank, what + ": rank")
    ctx.equal(len(tt.cores), d, what + ": number of cores")
    full = (1,) + rank + (1,)
    for m, C in enumerate(tt.cores):
        ctx.equal(tuple(C.shape), (full[m], shape[m], full[m + 1]), what + f": shape of core {m}")
        ctx.true(bool(np.all(np.isfinite(C))), what + f": core {m} has non-finite entries")


def check_orth(ctx, tt, what):
    for m, C in enumerate(tt.cores[:-1]):
        A = C.reshape(-1, C.shape[2])
        ctx.close(A.T @ A, np.eye(A.shape[1]), what + f": core {m} not left-orthonormal", tol=1e-10, scale=1.0)


def run_case(case, ctx):
    shape = tuple(case["shape"])
    n = len(shape) - 1
    spec = M.with_shape(TENSORS[case["tensor"]], shape)
    T, X = M.build(spec)
    ctx.begin((shape, X))
    pairs = [(a, b) for a, b in itertools.product([None] + list(M.DRMS), repeat=2)
             if M.supported(spec, *[x or y or "tt" for x, y in ((a, b), (b, a))])]
    if case["pairs"] == "some":
        pairs = [p for p in pairs if p[0] == p[1] or p in ((None, "sgauss"), ("dense", None), ("sgauss", "tt"), ("tt", "dense"), (None, "tt"))]
    if case["pairs"] == "tall":
        pairs = [p for p in pairs if p in ((None, None), ("dense", "dense"), ("sgauss", "sgauss"), ("sign", "tt"))]
    for lreq, rreq in TALL[case["tall"]][1] if "tall" in case else requests(shape):
        lv, rv = vec(lreq, n), vec(rreq, n)
        small = trim_ref(shape, lv)
        for left, right in pairs:
            Dl, Dr = M.DRMS.get(left), M.DRMS.get(right)
            what = f"{M.describe(spec)} ranks {lreq},{rreq} DRMs {left},{right}"
            # ---- streaming, left smaller and left larger
            for a, b, va, vb, lexp, rexp in ((lreq, rreq, lv, rv, small, rv), (rreq, lreq, rv, lv, rv, small)):
                sk, ld, rd = stream_sketch(T, a, b, seed=3, left_drm_type=Dl, right_drm_type=Dr, return_drm=True)
                w = f"stream {what} as ({a},{b})"
                ctx.equal(tuple(sk.shape), shape, w + ": shape")
                ctx.equal(tuple(sk.left_rank), lexp, w + ": left_rank")
                ctx.equal(tuple(sk.right_rank), rexp, w + ": right_rank")
                fl, fr = (1,) + lexp, rexp + (1,)
                for m in range(n + 1):
                    ctx.equal(tuple(sk.Psi_cores[m].shape), (fl[m], shape[m], fr[m]), w + f": Psi[{m}] shape")
                for m in range(n):
                    ctx.equal(tuple(sk.Omega_mats[m].shape), (lexp[m], rexp[m]), w + f": Omega[{m}] shape")
                for direction, exp in (("right", lexp), ("left", rexp), ("auto", small)):
                    cores = sk.C_cores(direction)
                    check_tt(ctx, M.TensorTrain(list(cores)), shape, exp, w + f" assembled {direction}")
                tt = sk.to_tt()
                check_tt(ctx, tt, shape, small, w + " to_tt")
                ctx.equal(tuple(sk.to_numpy().shape), shape, w + ": array shape")
                want_l, want_r = Dl or Dr or M.TensorTrainDRM, Dr or Dl or M.TensorTrainDRM
                ctx.true(type(ld) is want_l and type(rd) is want_r, w + f": DRM types {type(ld)}, {type(rd)}")
                ctx.true(sk.left_drm is ld and sk.right_drm is rd, w + ": returned DRMs are not those of the sketch")
                # vectors instead of integers, and the DRMs passed back in
                for a2, b2 in ((va, vb), (list(va), list(vb))):
                    sk2 = stream_sketch(T, a2, b2, seed=3, left_drm_type=Dl, right_drm_type=Dr)
                    same(ctx, sk, sk2, w + f" versus ranks ({a2},{b2})")
                for a2, b2 in ((lexp, rexp), (list(lexp), list(rexp)), (lexp[0], rexp[0])):
                    if not isinstance(a2, int) or (len(set(lexp)) == 1 and len(set(rexp)) == 1):
                        if not (all(x < y for x, y in zip(lexp, rexp)) or all(x > y for x, y in zip(lexp, rexp))):
                            continue
                        sk3, l3, r3 = stream_sketch(T, a2, b2, left_drm=ld, right_drm=rd, return_drm=True)
                        ctx.true(l3 is ld and r3 is rd, w + ": explicit DRMs not handed back")
                        same(ctx, sk, sk3, w + f" with explicit DRMs and ranks ({a2},{b2})")
                ctx.step(("stream", left, right, a, b), list(sk.Psi_cores))
                ctx.traces += 1
            # ---- orthogonal
            tt, ld, rd = orthogonal_sketch(T, lreq, rreq, seed=3, left_drm_type=Dl, right_drm_type=Dr, return_drm=True)
            w = "orthogonal " + what
            ctx.true(type(ld) is want_l and type(rd) is want_r, w + f": DRM types {type(ld)}, {type(rd)}")
            check_tt(ctx, tt, shape, small, w)
            check_orth(ctx, tt, w)
            ctx.equal((tuple(ld.rank), tuple(rd.rank)[::-1]), (small, rv), w + ": DRM ranks")
            tt2 = orthogonal_sketch(T, list(lv), rv, seed=3, left_drm_type=Dl, right_drm_type=Dr)
            tt3, l3, r3 = orthogonal_sketch(T, small, list(rv), left_drm=ld, right_drm=rd, return_drm=True)
            ctx.true(l3 is ld and r3 is rd, w + ": explicit DRMs not handed back")
            mag = max(float(np.max(np.abs(X))), 1e-300)
            ctx.close(M.dense_tt(tt2.cores), M.dense_tt(tt.cores), w + ": differs for ranks given as list/tuple", scale=mag)
            ctx.close(M.dense_tt(tt3.cores), M.dense_tt(tt.cores), w + ": differs with the DRMs passed explicitly", scale=mag)
            ctx.step(("orth", left, right, lreq, rreq), list(tt.cores))
            ctx.traces += 1
            # ---- HMT
            if left == right:
                for req, v in ((lreq, lv), (rreq, rv)):
                    exp = trim_ref(shape, v)
                    w = f"hmt {what} rank {req}"
                    tt, drm = hmt_sketch(T, req, seed=4, drm_type=Dr, return_drm=True)
                    check_tt(ctx, tt, shape, exp, w)
                    check_orth(ctx, tt, w)
                    ctx.equal(tuple(drm.rank)[::-1], exp, w + ": DRM rank")
                    ctx.true(type(drm) is (Dr or M.TensorTrainDRM), w + ": DRM type")
                    for r2, d2 in ((v, None), (list(v), None), (exp, drm), (list(exp), drm)):
                        t2 = hmt_sketch(T, r2, seed=4, drm_type=Dr, drm=d2)
                        ctx.close(M.dense_tt(t2.cores), M.dense_tt(tt.cores), w + f": differs for rank {r2} drm {d2 is not None}",
                                  scale=max(float(np.max(np.abs(X))), 1e-300))
                    ctx.step(("hmt", right, req), list(tt.cores))
                    ctx.traces += 1


def same(ctx, a, b, what):
    ctx.equal((tuple(a.left_rank), tuple(a.right_rank)), (tuple(b.left_rank), tuple(b.right_rank)), what)
    for x, y in zip(list(a.Psi_cores) + list(a.Omega_mats), list(b.Psi_cores) + list(b.Omega_mats)):
        ctx.close(y, x, what + ": components differ")
