"""C03: blocked sketches (all rank partitions) and rank increases (all chains) equal the one-shot sketch."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.sketch import blocked_stream_sketch, stream_sketch

PROPERTY = "C03"
RULE = ("all chains of per-bond rank vectors from 0 to the DRM's rank (also stopping short of it) on the left x all/selected "
        "chains on the right, for every DRM pair and supported tensor; all (start,end) slices of every DRM; all chains of rank "
        "increases for every pair of DRMs supporting it, with updates in between; components compared with the explicit matrices "
        "of the unsliced DRM of final rank")
BOUNDS = {"quick": "order 2-4, ranks up to 3 per bond; seeds 7, 0, None, 2^32-1, 2^40; sparse sign with all per-bond non-zero counts; ranks up to 40 in up to 13 blocks",
          "thorough": "full product of left and right chains for all pairs, ranks up to 4, more tensors"}

TENSORS = [
    {"fmt": "sparse"}, {"fmt": "dense"}, {"fmt": "tt", "rank": 2}, {"fmt": "cp", "rank": 2}, {"fmt": "tucker", "rank": 2},
    {"fmt": "sparse", "nnz": "empty"}, {"fmt": "tt", "data": "micro", "rank": 2},
    {"fmt": "sum", "parts": [{"fmt": "sparse", "tag": 2}, {"fmt": "tt", "rank": 1}, {"fmt": "dense"}]},
    {"fmt": "sum", "parts": [{"fmt": "cp"}, {"fmt": "tucker", "rank": 1}, {"fmt": "sum", "parts": [{"fmt": "sparse"}]}]},
]


LARGE = [((20, 15, 12), (18, 11), (9, 12)), ((60, 50), (40,), (37,)), ((3, 4, 2, 3, 4, 3), (3, 9, 8, 7, 3), (5, 6, 9, 8, 4)), ((130, 3, 5), (17, 5), (15, 35)), ((70, 70), (66,), (130,)), ((5, 260, 4), (3, 7), (4, 9)), ((2,) * 8, (2, 4, 5, 6, 5, 4, 2), (2, 4, 8, 9, 8, 4, 3))]


def path(rank, kind):
    """Chains of rank vectors from 0 to rank: by bond-wise equal parts, one large step and many single ones, one bond at a time."""
    n = len(rank)
    zero = (0,) * n
    if kind == "ones":
        return [tuple(min(k, r) for r in rank) for k in range(max(rank) + 1)]
    if kind == "bonds":
        return [tuple(r if i < k else 0 for i, r in enumerate(rank)) for k in range(n + 1)]
    if kind == "rbonds":
        return [tuple(r if i >= n - k else 0 for i, r in enumerate(rank)) for k in range(n + 1)]
    if kind == "whole":
        return [zero, tuple(rank)]
    if kind == "last":
        return [zero, tuple(r - 1 for r in rank), tuple(rank)]
    k = int(kind)
    return [tuple((r * j) // k for r in rank) for j in range(k + 1)]


def run_large(case, ctx):
    shape, lr, rr = tuple(case["shape"]), tuple(case["lr"]), tuple(case["rr"])
    ld, rd = M.make_drm(case["left"], lr, shape, False, case["seed"]), M.make_drm(case["right"], rr, shape, True, case["seed"])
    L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
    T, X = M.build(M.with_shape(TENSORS[case["tensor"]], shape))
    Psi, Omega = M.ref_components(X, L, R)
    sc = M.ref_scale(X, L, R)
    ks = ["whole", "last", "bonds", "rbonds"] + [str(k) for k in range(2, case["parts"] + 1)]
    todo = [("ones", "last"), ("last", "ones")] + [(a, b) for a in ks for b in ks]
    for a, b in todo:
        pa, pb = path(lr, a), path(rr, b)
        ctx.begin((shape, case["left"], case["right"], a, b))
        res = blocked_stream_sketch(T, ld, rd, pa, pb)
        M.check_components(ctx, res, Psi, Omega, sc, f"left blocks {a}, right blocks {b}")
        ctx.step((a, b), list(res.Psi_cores))
    for drm, mats, rank, right in ((ld, L, lr, False), (rd, R, rr, True)):
        for a, b in [(0, 1), (1, 1), (0, 0), (0.5, 1), (0.25, 0.75), (0.9, 1), (0, 0.3)]:
            # slices are given in the order of the tensor's bonds
            lo = tuple(int(r * a) if a != 1 else r - 1 for r in rank)
            hi = tuple(int(r * b) for r in rank)
            got = M.drm_matrices(drm.slice(lo, tuple(max(x, y) for x, y in zip(lo, hi))), shape, right)
            for mu, (g, m) in enumerate(zip(got, mats)):
                ctx.close(g, m[lo[mu]:max(hi[mu], lo[mu])], f"slice {lo}..{hi} of DRM matrix {mu}", tol=1e-12, scale=max(1.0, np.max(np.abs(m))))
            ctx.step((lo, hi), got)


def chains(lo, hi):
    """All strictly increasing chains (componentwise <=, not equal) from lo to hi, as lists of vectors."""
    lo, hi = tuple(lo), tuple(hi)
    if lo == hi:
        return [[lo]]
    out = []
    for nxt in itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]):
        if nxt != lo:
            out += [[lo] + c for c in chains(nxt, hi)]
    return out


def few(cs):
    """The trivial chain, the longest one and some in between."""
    cs = sorted(cs, key=lambda c: (len(c), c))
    idx = sorted({0, len(cs) // 3, len(cs) // 2, len(cs) - 1})
    return [cs[i] for i in idx]


def sign_options(rank):
    return [None] + [list(z) for z in itertools.product(*[range(1, r + 1) for r in rank])][:: max(1, M.prod(rank) // 4)]


def cases(tier):
    th = tier == "thorough"
    pairs = list(itertools.product(M.DRMS, repeat=2))
    confs = [((3, 4), (3,), (2,)), ((2, 3, 2), (2, 2), (3, 2)), ((2, 2, 2, 2), (1, 2, 1), (2, 1, 2))]
    if th:
        confs += [((3, 2, 3), (3, 2), (2, 4)), ((1, 3, 2), (2, 3), (1, 1)), ((2, 3, 1, 2), (2, 1, 2), (2, 2, 1))]
    for shape, lr, rr in confs:
        for left, right in pairs:
            for ti, t in enumerate(TENSORS):
                if M.supported(t, left, right):
                    yield {"kind": "blocked", "shape": shape, "left": left, "right": right, "lr": lr, "rr": rr, "tensor": ti, "full": th}
    # slices of every DRM, with options and seeds
    for kind in M.DRMS:
        for right in (False, True):
            for shape, rank in [((4, 3), (4,)), ((2, 3, 2), (3, 4)), ((2, 2, 3, 2), (2, 3, 2))]:
                for seed in (7, 0, None, 2**32 - 1, 2**32 - 2, 2**40):
                    for opt in (sign_options(rank) if kind == "sign" and seed == 7 else [None]):
                        yield {"kind": "slices", "drm": kind, "right": right, "shape": shape, "rank": rank, "seed": seed, "nnz": opt}
    # blocked sketches with sparse sign options
    for opt in sign_options((3, 2)):
        for right in ("sign", "tt", "sgauss"):
            yield {"kind": "blocked", "shape": (2, 3, 2), "left": "sign", "right": right, "lr": (3, 2), "rr": (2, 2),
                   "tensor": 0, "full": False, "lnnz": opt, "rnnz": [2, 1] if right == "sign" else None}
    # partitions that stop short of the DRM's rank
    for left, right in pairs:
        for ti, t in enumerate(TENSORS[:5]):
            if M.supported(t, left, right):
                yield {"kind": "short", "shape": (2, 3, 2), "left": left, "right": right, "lr": (3, 2), "rr": (2, 3), "tensor": ti}
    # larger ranks, many blocks, many non-zeros
    for shape, lr, rr in LARGE:
        for left, right in pairs:
            for ti, t in enumerate(TENSORS):
                if M.supported(t, left, right):
                    for seed in (7, None) if ti == 0 else (7,):
                        yield {"kind": "large", "shape": shape, "left": left, "right": right, "lr": lr, "rr": rr, "tensor": ti, "seed": seed,
                               "parts": 12 if th else 5}
    inc = ("dense", "sgauss")
    for left, right in itertools.product(inc, repeat=2):
        for ti, t in enumerate(TENSORS):
            if not M.supported(t, left, right):
                continue
            for shape, l0, l1, r0, r1 in [((3, 4), (1,), (3,), (2,), (4,)), ((2, 3, 2), (1, 1), (2, 3), (2, 2), (3, 3)),
                                          ((2, 2, 2, 2), (3, 3, 3), (4, 3, 4), (1, 2, 1), (2, 2, 2))]:
                for seed in (7, None, 2**32 - 1):
                    yield {"kind": "increase", "shape": shape, "left": left, "right": right, "l0": l0, "l1": l1, "r0": r0, "r1": r1,
                           "tensor": ti, "seed": seed, "full": th}


    for left, right in itertools.product(inc, repeat=2):
        for ti, t in enumerate(TENSORS):
            if M.supported(t, left, right):
                for shape, l0, l1, r0, r1 in [((20, 15, 12), (2, 3), (18, 11), (4, 5), (21, 25)), ((60, 50), (17,), (40,), (8,), (16,)),
                                              ((3, 4, 2, 3, 4, 3), (1,) * 5, (3, 9, 8, 7, 3), (2,) * 5, (4, 10, 9, 8, 5))]:
                    for seed in (7, None):
                        yield {"kind": "increase", "shape": shape, "left": left, "right": right, "l0": l0, "l1": l1, "r0": r0, "r1": r1,
                               "tensor": ti, "seed": seed, "full": th, "paths": 1}


def scales(sc, k=1.0):
    return ([s * k for s in sc[0]], [s * k for s in sc[1]])


def run_case(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def run_blocked(case, ctx):
    shape, lr, rr = tuple(case["shape"]), tuple(case["lr"]), tuple(case["rr"])
    lo = {"num_non_zero_per_row": tuple(case["lnnz"])} if case.get("lnnz") else {}
    ro = {"num_non_zero_per_row": tuple(case["rnnz"])} if case.get("rnnz") else {}
    ld, rd = M.make_drm(case["left"], lr, shape, False, 7, **lo), M.make_drm(case["right"], rr, shape, True, 8, **ro)
    L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
    T, X = M.build(M.with_shape(TENSORS[case["tensor"]], shape))
    Psi, Omega = M.ref_components(X, L, R)
    sc = M.ref_scale(X, L, R)
    n = len(lr)
    lc, rc = chains((0,) * n, lr), chains((0,) * n, rr)
    if case["full"] or len(lc) * len(rc) <= 150:
        todo = itertools.product(lc, rc)
    else:
        todo = list(itertools.product(lc, few(rc))) + list(itertools.product(few(lc), rc))
    for a, b in todo:
        ctx.begin((shape, case["left"], case["right"], a[0], b[0]))
        res = blocked_stream_sketch(T, ld, rd, list(a), list(b))
        M.check_components(ctx, res, Psi, Omega, sc, f"left blocks {a}, right blocks {b}")
        ctx.step((a, b), list(res.Psi_cores))
        ctx.states.add(hash((a[-1], str(a), str(b))))
    one = stream_sketch(T, lr, rr, left_drm=ld, right_drm=rd) if (
        all(x < y for x, y in zip(lr, rr)) or all(x > y for x, y in zip(lr, rr))) else None
    if one is not None:
        M.check_components(ctx, one, Psi, Omega, sc, "unblocked sketch after blocked ones")


def run_short(case, ctx):
    shape, lr, rr = tuple(case["shape"]), tuple(case["lr"]), tuple(case["rr"])
    ld, rd = M.make_drm(case["left"], lr, shape, False, 7), M.make_drm(case["right"], rr, shape, True, 8)
    L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
    T, X = M.build(M.with_shape(TENSORS[case["tensor"]], shape))
    n = len(lr)
    for le in itertools.product(*[range(1, r + 1) for r in lr]):
        for re in itertools.product(*[range(1, r + 1) for r in rr]):
            L2 = [m[:k] for m, k in zip(L, le)]
            R2 = [m[:k] for m, k in zip(R, re)]
            Psi, Omega = M.ref_components(X, L2, R2)
            for a, b in ((few(chains((0,) * n, le))[-1], [(0,) * n, re]), ([(0,) * n, le], few(chains((0,) * n, re))[-1])):
                ctx.begin((shape, le, re))
                res = blocked_stream_sketch(T, ld, rd, list(a), list(b))
                M.check_components(ctx, res, Psi, Omega, M.ref_scale(X, L, R), f"left blocks {a}, right blocks {b} of ranks {lr}, {rr}")
                ctx.step((a, b), list(res.Psi_cores))


def run_slices(case, ctx):
    shape, rank, right = tuple(case["shape"]), tuple(case["rank"]), case["right"]
    kw = {"num_non_zero_per_row": tuple(case["nnz"])} if case["nnz"] else {}
    drm = M.make_drm(case["drm"], rank, shape, right, case["seed"], **kw)
    mats = M.drm_matrices(drm, shape, right)
    for lo in itertools.product(*[range(r + 1) for r in rank]):
        for hi in itertools.product(*[range(a, r + 1) for a, r in zip(lo, rank)]):
            ctx.begin((case["drm"], shape, lo, hi))
            sl = drm.slice(lo, hi)
            got = M.drm_matrices(sl, shape, right)
            for mu, (g, m) in enumerate(zip(got, mats)):
                ctx.close(g, m[lo[mu]:hi[mu]], f"slice {lo}..{hi} of DRM matrix {mu}", tol=1e-12, scale=max(1.0, np.max(np.abs(m))))
            ctx.step((lo, hi), got)
    again = M.drm_matrices(drm, shape, right)
    ctx.true(all(np.array_equal(a, b) for a, b in zip(again, mats)), "slicing changed the DRM")
    if case["drm"] in ("dense", "sgauss"):
        for new in itertools.product(*[range(r, r + 3) for r in rank]):
            big = drm.increase_rank(new)
            got = M.drm_matrices(big, shape, right)
            ctx.traces += 1
            for mu, (g, m) in enumerate(zip(got, mats)):
                ctx.equal(g.shape[0], new[mu], f"increase_rank{new}: rank of matrix {mu}")
                ctx.close(g[:rank[mu]], m, f"increase_rank{new}: leading rows of matrix {mu}", tol=1e-12)


def run_increase(case, ctx):
    shape = tuple(case["shape"])
    l0, l1, r0, r1 = (tuple(case[k]) for k in ("l0", "l1", "r0", "r1"))
    T, X = M.build(M.with_shape(TENSORS[case["tensor"]], shape))
    U, Y = M.build(M.with_shape({"fmt": "sparse", "tag": 9}, shape))
    start = stream_sketch(T, l0, r0, left_drm=M.make_drm(case["left"], l0, shape, False, case["seed"]),
                          right_drm=M.make_drm(case["right"], r0, shape, True, case["seed"]))
    n = len(l0)
    if case.get("paths"):
        lo, up = l0 + r0, tuple(b - a for a, b in zip(l0 + r0, l1 + r1))
        joint = [[tuple(a + x for a, x in zip(lo, v)) for v in path(up, k)] for k in ("whole", "last", "2", "3", "7", "ones", "bonds", "rbonds")]
    else:
        joint = chains(l0 + r0, l1 + r1)
    if not case["full"] and len(joint) > 60:
        joint = sorted(joint, key=lambda c: (len(c), c))
        short = [c for c in joint if len(c) <= 3]
        joint = short[:: max(1, len(short) // 60)] + joint[:: max(1, len(joint) // 40)]
    # reference matrices: DRM of the largest rank, derived from the very DRM objects in use
    bigL = M.drm_matrices(start.left_drm.increase_rank(l1), shape, False)
    bigR = M.drm_matrices(start.right_drm.increase_rank(r1), shape, True)
    if case["seed"] is not None:
        for a, b in zip(M.drm_matrices(M.make_drm(case["left"], l1, shape, False, case["seed"]), shape, False), bigL):
            ctx.close(a, b, "DRM of the final rank built directly", tol=1e-12)
        for a, b in zip(M.drm_matrices(M.make_drm(case["right"], r1, shape, True, case["seed"]), shape, True), bigR):
            ctx.close(a, b, "right DRM of the final rank built directly", tol=1e-12)
    for chain in joint:
        for update_at in ((None,) if len(chain) > 3 else (None, 1)):
            sk, acc = start, X
            tens = T
            ctx.begin((shape, l0, r0, list(sk.Psi_cores)))
            for step, v in enumerate(chain[1:], 1):
                lv, rv = v[:n], v[n:]
                before = [np.array(a) for a in sk.Psi_cores], [np.array(a) for a in sk.Omega_mats]
                old = sk
                sk = sk.increase_rank(tens, lv, rv)
                what = f"increase to left {lv} right {rv} (chain {chain})"
                ctx.equal((tuple(sk.left_rank), tuple(sk.right_rank)), (lv, rv), what + ": ranks")
                L = [m[:k] for m, k in zip(bigL, lv)]
                R = [m[:k] for m, k in zip(bigR, rv)]
                P, O = M.ref_components(acc, L, R)
                M.check_components(ctx, sk, P, O, M.ref_scale(np.abs(acc) + np.abs(X) + np.abs(Y), L, R), what)
                for m, b in enumerate(before[0]):
                    ctx.close(sk.Psi_cores[m][:b.shape[0], :, :b.shape[2]], b, what + f": earlier components of Psi[{m}] changed", tol=1e-12)
                    ctx.true(np.array_equal(old.Psi_cores[m], b), what + ": old sketch modified")
                for m, b in enumerate(before[1]):
                    ctx.close(sk.Omega_mats[m][:b.shape[0], :b.shape[1]], b, what + f": earlier components of Omega[{m}] changed", tol=1e-12)
                ctx.step(("increase", v), list(sk.Psi_cores))
                ok = all(a < b for a, b in zip(lv, rv)) or all(a > b for a, b in zip(lv, rv))
                if update_at == step and ok:
                    sk = sk + U
                    tens, acc = M.TensorSum([T, U]), X + Y
                    P, O = M.ref_components(acc, L, R)
                    M.check_components(ctx, sk, P, O, M.ref_scale(np.abs(X) + np.abs(Y), L, R), what + " then update")
                    ctx.step("update", list(sk.Psi_cores))
