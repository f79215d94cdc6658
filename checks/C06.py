"""C06: transposition of tensors, and histories mixing transposition of sketches with updates."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.sketch import stream_sketch

PROPERTY = "C06"
RULE = ("(a) every tensor of the menu (all formats, layouts, nested sums) x all shapes: X.T and X.T.T against dense transposition; "
        "(b) tree of all histories over {transpose, add operand of each format, subtract, scale, increase ranks} on sketches of every "
        "DRM pair, compared at every node with the transposed reference components, ranks, shape and conversion")
BOUNDS = {"quick": "history depth 4 (3 for large alphabets), order 2-4, non-palindromic shapes, non-uniform ranks; depth 2-3 for orders up to 7 and for DRMs of one seed, dimensions and ranks up to 70; tensors with dimensions up to 300 and order up to 8",
          "thorough": "history depth 5 (4), more shapes"}
CASE_TIMEOUT = 600

OPERANDS = [{"fmt": "sparse"}, {"fmt": "dense"}, {"fmt": "tt"}, {"fmt": "cp"}, {"fmt": "tucker"},
            {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 1}, {"fmt": "sparse"}]}]
CONF = [((2, 3, 4), (1, 2), (3, 4)), ((3, 2), (4,), (2,)), ((2, 1, 3, 2), (2, 3, 1), (3, 5, 2)), ((4, 2, 3), (4, 3), (3, 1)), ((2, 3, 1, 2, 2), (2, 1, 3, 2), (3, 2, 4, 4))]
# longer tensors, equal ranks, one seed for both DRMs
LONG = [((2, 3, 1, 2, 2), (2, 1, 3, 2), (3, 2, 4, 4)), ((2, 2, 2, 2, 2), (3, 3, 3, 3), (5, 5, 5, 5)), ((2, 1, 2, 3, 1, 2), (4, 2, 3, 2, 4), (2, 1, 2, 1, 3)),
        ((2, 2, 2, 2, 2, 2, 2), (2,) * 6, (3,) * 6)]
# large dimensions and ranks
WIDE = [((40, 3, 33), (12, 13), (30, 17)), ((70, 9), (70,), (20,)), ((3, 70, 5), (11, 9), (35, 12))]
SAME = [((2, 3, 4), (2, 2), (4, 4)), ((3, 3, 3), (2, 2), (3, 3)), ((3, 4, 3), (5, 3), (2, 2)), ((4, 4), (2,), (3,))]


def cases(tier):
    for shape in M.shapes(tier) + M.LARGE:
        yield {"kind": "tensor", "shape": shape}
    for shape, lr, rr in CONF if tier == "thorough" else CONF[:4]:
        for left, right in itertools.product(M.DRMS, repeat=2):
            for start in range(len(OPERANDS)):
                if M.supported(OPERANDS[start], left, right):
                    for opt in ((False, True) if "sign" in (left, right) else (False,)):
                        yield {"kind": "history", "shape": shape, "left": left, "right": right, "lr": lr, "rr": rr,
                               "start": start, "opt": opt, "depth": 5 if tier == "thorough" and len(shape) < 5 else 4}
    for seeds, confs, depth in (((3, 4), LONG, 2), ((5, 5), SAME, 3), ((0, 0), SAME[:2], 3), ((8, 9), WIDE, 2)):
        for shape, lr, rr in confs:
            for left, right in itertools.product(M.DRMS, repeat=2):
                for start in range(len(OPERANDS)):
                    if M.supported(OPERANDS[start], left, right):
                        yield {"kind": "history", "shape": shape, "left": left, "right": right, "lr": lr, "rr": rr, "seeds": seeds,
                               "start": start, "opt": start % 2 == 0, "depth": depth + (tier == "thorough")}


def run_case(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def run_tensor(case, ctx):
    shape = tuple(case["shape"])
    for spec in M.tensor_menu(shape):
        T, X = M.build(spec)
        what = M.describe(spec)
        ctx.begin((spec["fmt"], X))
        scale = max(np.max(np.abs(X)), 1e-12)
        t = T.T
        ctx.equal(tuple(t.shape), shape[::-1], what + ": shape of the transpose")
        ctx.true(type(t) is type(T), what + f": type of the transpose {type(t)}")
        ctx.close(t.to_numpy(), X.transpose(), what + ": transpose", tol=1e-12, scale=scale)
        ctx.step("T", t.to_numpy())
        tt = t.T
        ctx.equal(tuple(tt.shape), shape, what + ": shape of the double transpose")
        ctx.close(tt.to_numpy(), X, what + ": double transpose", tol=1e-12, scale=scale)
        ctx.step("T", tt.to_numpy())
        ctx.close(T.to_numpy(), X, what + ": tensor after transposing", tol=1e-12, scale=scale)
        if hasattr(T, "rank"):
            want = T.rank if isinstance(T.rank, int) else tuple(T.rank)[::-1]
            ctx.equal(t.rank if isinstance(t.rank, int) else tuple(t.rank), want, what + ": rank of the transpose")
        ctx.equal(t.size, T.size, what + ": size of the transpose")


def run_history(case, ctx):
    shape, lr, rr = tuple(case["shape"]), tuple(case["lr"]), tuple(case["rr"])
    left, right = case["left"], case["right"]
    lo = {"num_non_zero_per_row": tuple(max(1, r - 1) if i % 2 == 0 else r for i, r in enumerate(lr))} if case["opt"] and left == "sign" else {}
    ro = {"num_non_zero_per_row": tuple(max(1, r - 1) if i % 2 == 0 else r for i, r in enumerate(rr))} if case["opt"] and right == "sign" else {}
    seeds = case.get("seeds", (3, 4))
    ld, rd = M.make_drm(left, lr, shape, False, seeds[0], **lo), M.make_drm(right, rr, shape, True, seeds[1], **ro)
    can = left in ("dense", "sgauss") and right in ("dense", "sgauss")
    ops = [i for i in range(len(OPERANDS)) if M.supported(OPERANDS[i], left, right)]
    depth = case["depth"] - (1 if len(ops) > 2 else 0)
    # one operand in the original orientation and one built directly in the transposed one
    fwd = {i: M.build(M.with_shape(OPERANDS[i], shape)) for i in ops}
    rev = {i: M.build(M.with_shape(dict(OPERANDS[i], tag=5), shape[::-1])) for i in ops}
    BL = M.drm_matrices(ld.increase_rank(tuple(r + 2 for r in lr)), shape, False) if can else M.drm_matrices(ld, shape, False)
    BR = M.drm_matrices(rd.increase_rank(tuple(r + 2 for r in rr)), shape, True) if can else M.drm_matrices(rd, shape, True)
    big = sum(np.abs(x) for _, x in fwd.values()) + sum(np.abs(x.transpose()) for _, x in rev.values())

    def expected(acc, lv, rv, flipped):
        """acc is in the original orientation, lv/rv the ranks of the original left/right DRM."""
        L, R = [m[:k] for m, k in zip(BL, lv)], [m[:k] for m, k in zip(BR, rv)]
        P, O = M.ref_components(acc, L, R)
        Ps, Os = M.ref_scale(np.abs(acc) + 30 * big, L, R)
        if flipped:
            return [p.transpose(2, 1, 0) for p in P[::-1]], [o.T for o in O[::-1]], Ps[::-1], Os[::-1]
        return P, O, Ps, Os

    def check(sk, acc, lv, rv, flipped, hist):
        what = "after " + " ; ".join(hist)
        sh = shape[::-1] if flipped else shape
        ctx.equal(tuple(sk.shape), sh, what + ": shape")
        a, b = (rv[::-1], lv[::-1]) if flipped else (lv, rv)
        ctx.equal((tuple(sk.left_rank), tuple(sk.right_rank)), (a, b), what + ": ranks")
        P, O, Ps, Os = expected(acc, lv, rv, flipped)
        M.check_components(ctx, sk, P, O, (Ps, Os), what)
        if len(hist) <= 4 and max(np.linalg.cond(o) for o in O) < 1e4:
            # value of the conversion: assembled with the same small side in the other orientation
            ref = assemble(P, O)
            amp = M.prod(max(np.linalg.cond(o), 10) for o in O)
            ctx.close(sk.to_numpy(), ref, what + ": to_numpy", tol=1e-12 * amp, scale=max(np.max(np.abs(ref)), np.max(np.abs(acc)), 1e-12))
        ctx.traces += 1

    def explore(sk, acc, lv, rv, flipped, hist, depth, here):
        if depth == 0:
            return
        kids = [("T", None), ("*-2", None)]
        for i in ops:
            kids += [("+fwd", i), ("-rev", i)]
        if can and len(hist) <= 3:
            kids += [("inc", (1, 1)), ("inc", (0, 2)), ("inc", "first")]
        for op, arg in kids:
            h = hist + [f"{op}{'' if arg is None else arg}"]
            nacc, nl, nr, nf = acc, lv, rv, flipped
            if op == "T":
                new, nf = sk.T, not flipped
            elif op == "*-2":
                new, nacc = sk * -2.0, -2.0 * acc
            elif op == "+fwd":
                T, X = fwd[arg]
                new, nacc = sk + (T.T if flipped else T), acc + X
            elif op == "-rev":
                T, X = rev[arg]
                new, nacc = sk - (T if flipped else T.T), acc - X.transpose()
            else:
                n = len(lr)
                da, db = ((1,) + (0,) * (n - 1), (0,) * (n - 1) + (2,)) if arg == "first" else ((arg[0],) * n, (arg[1],) * n)
                nl, nr = tuple(x + y for x, y in zip(lv, da)), tuple(x + y for x, y in zip(rv, db))
                if any(x > y + 2 for x, y in zip(nl, lr)) or any(x > y + 2 for x, y in zip(nr, rr)):
                    continue
                if not (all(x < y for x, y in zip(nl, nr)) or all(x > y for x, y in zip(nl, nr))):
                    continue
                cur = M.DenseTensor(acc.transpose().copy() if flipped else acc) if (left, right) == ("dense", "dense") else None
                if cur is None:
                    a = acc.transpose() if flipped else acc
                    cur = M.SparseTensor(a.shape, np.indices(a.shape).reshape(a.ndim, -1), a.reshape(-1).copy())
                new = sk.increase_rank(cur, *((nr[::-1], nl[::-1]) if flipped else (nl, nr)))
            check(new, nacc, nl, nr, nf, h)
            ctx.goto(here)
            nd = ctx.step(h[-1], [list(new.Psi_cores), list(new.Omega_mats)])
            explore(new, nacc, nl, nr, nf, h, depth - 1, nd)

    T, X = fwd[case["start"]]
    sk = stream_sketch(T, lr, rr, left_drm=ld, right_drm=rd)
    ctx.begin([list(sk.Psi_cores), list(sk.Omega_mats)])
    check(sk, X, lr, rr, False, ["start"])
    explore(sk, X, lr, rr, False, [f"start {case['start']}"], depth, ctx._cur)
    # sketching the transposed tensor with the exchanged DRMs
    st = sk.T
    for cand in (T.T, rev[case["start"]][0]):
        Y = X if cand is not rev[case["start"]][0] else rev[case["start"]][1].transpose()
        direct = stream_sketch(cand, st.left_rank, st.right_rank, left_drm=st.left_drm, right_drm=st.right_drm)
        check(direct, Y, lr, rr, True, ["sketch of the transposed tensor with exchanged DRMs"])


def assemble(P, O):
    """Dense value of the sketch: cores times pseudo-inverses of the small matrices on the side of the smaller rank."""
    cores = []
    left_bigger = all(o.shape[0] > o.shape[1] for o in O)
    for m, p in enumerate(P):
        if not left_bigger and m < len(O):
            p = np.tensordot(p, np.linalg.pinv(O[m]), axes=(2, 0))
        if left_bigger and m > 0:
            p = np.tensordot(np.linalg.pinv(O[m - 1]), p, axes=(1, 0))
        cores.append(p)
    return M.dense_tt(cores)
