"""C01: every component of the streaming sketch equals the dense contraction with the DRM's explicit matrices."""
import itertools

import numpy as np

from lib import model as M
from lib.engine import Violation
from tt_sketch.sketch import stream_sketch

PROPERTY = "C01"
RULE = ("full product of shapes x DRM pairs x rank patterns x a menu of tensors (all formats, data variants, memory "
        "layouts, sparse index types and orders, nested sums); each execution of stream_sketch on the real code is "
        "compared component by component with the dense contraction by the explicit matrices of the same DRM objects")
BOUNDS = {"quick": "all shapes with dims<=3 of order 2-3, dims<=2 of order 4, 15 larger shapes up to order 6; 16 DRM pairs; "
                   "2-4 rank patterns with the left side larger and smaller; 46 tensors each; 9 large configurations (up to 15600 entries, order 12, ranks to 130, 70 summands), 2 with dimensions 33000 and 66000",
          "thorough": "also all shapes with dims<=3 of order 4 and dims<=2 of order 5 and larger ones, more rank patterns and seeds"}


def rank_choices(n, tier):
    out = [((1,) * n, (3,) * n), ((3,) * n, (2,) * n)]
    if n > 1:
        up = tuple(range(1, n + 1))
        zig = tuple(1 + 2 * (i % 2) for i in range(n))
        out += [(up, tuple(r + 1 + i % 2 for i, r in enumerate(up))), (tuple(r + 2 for r in zig), zig)]
        if tier == "thorough":
            out += [(up[::-1], (n + 1,) * n), ((7,) * n, zig[::-1])]
    return out


def cases(tier):
    pairs = list(itertools.product(M.DRMS, repeat=2))
    for shape, lr, rr in LARGE:
        for left, right in pairs:
            yield {"shape": shape, "left": left, "right": right, "left_rank": lr, "right_rank": rr, "seed": 9, "large": 1}
    for shape, lr, rr in HUGE:
        for left, right in pairs:
            yield {"shape": shape, "left": left, "right": right, "left_rank": lr, "right_rank": rr, "seed": 9, "large": 2}
    for shape in M.shapes(tier):
        n = len(shape) - 1
        for i, (lr, rr) in enumerate(rank_choices(n, tier)):
            for left, right in pairs:
                for seed in ((5,) if tier == "quick" else (5, 2**32 - 3)):
                    yield {"shape": shape, "left": left, "right": right, "left_rank": lr, "right_rank": rr, "seed": seed}


# sizes at which implementations switch to blocks: many modes, long modes, many non-zeros, large ranks, many summands
LARGE = [((130, 3, 40), (20, 30), (35, 45)), ((9, 8, 9, 8), (33, 40, 35), (9, 20, 7)), ((1100, 2, 3), (3, 2), (5, 4)), ((3, 2, 1100), (5, 4), (3, 2)),
         ((3,) * 7, (4, 5, 6, 7, 6, 5), (8,) * 6), ((70, 70), (65,), (66,)), ((2,) * 12, (3,) * 11, (2,) * 11), ((300, 35), (130,), (10,)), ((5, 1, 500, 1, 4), (3, 3, 9, 9), (4, 4, 10, 10))]


# indices beyond 2^15 and 2^16
HUGE = [((33000, 2), (3,), (2,)), ((2, 66000), (2,), (3,))]


def large_menu(shape, huge=False):
    d = len(shape)
    if huge:
        return [M.with_shape(x, shape) for x in ({"fmt": "sparse", "nnz": 300}, {"fmt": "sparse", "nnz": 300, "itype": "uint32", "order": "sorted"}, {"fmt": "tt", "rank": 2}, {"fmt": "cp", "rank": 2}, {"fmt": "dense"})]
    s = [{"fmt": "sparse"}, {"fmt": "sparse", "nnz": "full", "order": "sorted"}, {"fmt": "sparse", "nnz": 1025, "itype": "int32"}, {"fmt": "sparse", "nnz": 257, "order": "reversed"}, {"fmt": "dense"},
         {"fmt": "dense", "layout": "F"}, {"fmt": "tt", "rank": 12}, {"fmt": "tt", "rank": [1, 9, 2, 17][:d - 1]}, {"fmt": "cp", "rank": 33}, {"fmt": "cp", "rank": 1}, {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 1 + k % 3, "tag": k} for k in range(33)]},
         {"fmt": "sum", "parts": [{"fmt": ("sparse", "tt", "cp")[k % 3], "tag": k} for k in range(70)]}]
    s += [{"fmt": "cp", "rank": 70}, {"fmt": "cp", "rank": 129}, {"fmt": "cp", "rank": 300}, {"fmt": "tt", "rank": 70 if d < 6 else 20}, {"fmt": "tt", "rank": 140 if d < 4 else 25}, {"fmt": "sparse", "nnz": 5000}, {"fmt": "sparse", "nnz": 64}, {"fmt": "sparse", "nnz": 20}]
    s.append({"fmt": "tucker", "rank": [min(n, 6 + i % 2) if d < 6 else 2 for i, n in enumerate(shape)]})
    return [M.with_shape(x, shape) for x in s]


def run_case(case, ctx):
    shape = tuple(case["shape"])
    lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
    ld = M.make_drm(case["left"], lr, shape, False, case["seed"])
    rd = M.make_drm(case["right"], rr, shape, True, case["seed"] + 1)
    try:
        L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
    except AssertionError as e:
        raise Violation(str(e))
    for m in range(len(shape) - 1):
        ctx.equal(L[m].shape[0], lr[m], f"rank of left DRM matrix {m}")
        ctx.equal(R[m].shape[0], rr[m], f"rank of right DRM matrix {m}")
    for spec in large_menu(shape, case["large"] == 2) if case.get("large") else M.tensor_menu(shape):
        if not M.supported(spec, case["left"], case["right"]):
            continue
        T, X = M.build(spec)
        what = M.describe(spec)
        ctx.begin((shape, spec["fmt"], X))
        sk = stream_sketch(T, lr, rr, left_drm=ld, right_drm=rd)
        Psi, Omega = M.ref_components(X, L, R)
        M.check_components(ctx, sk, Psi, Omega, M.ref_scale(X, L, R), what)
        ctx.step(("stream_sketch", case["left"], case["right"], lr, rr), [p for p in sk.Psi_cores])
