"""C19: rounding sums of tensor trains, all methods x sums x rank bounds x tolerances, against the dense sum."""
import itertools

import numpy as np

from lib import model as M
from checks.C05 import trim_ref
from checks.C14 import consistent, norm_of, sv
from tt_sketch.tensor import TensorSum, TensorTrain
from tt_sketch.tt_gmres import round_tt_sum

PROPERTY = "C19"
RULE = ("all sequences of summands up to the length from a stock of tensor trains (low and high rank, equal, opposite, zero, scaled, integer), each with every "
        "rounding method x rank bound (integer, tuple, list, below / at / beyond what is needed or possible) x tolerance x oversampling: shape, rank bound, "
        "recovery when the TT-rank (for pairwise rounding of every partial sum) is within the bound, and the error bound implied by ranks and tolerance")
BOUNDS = {"quick": "12 shapes of order 2-5, sequences of length 1-3 from 7 summands (every sequence for 4 shapes), 8 rank bounds, 4 tolerances; periodic sums of 17-130 summands; 4 shapes of up to 13440 entries with summands of rank 8-32; a selection with all summands scaled by 1e-12, 1e12 and -1e-70",
          "thorough": "every sequence of length 1-3 for all shapes and length 4 for two; sums of up to 1025"}
SHAPES = [(3, 4), (2, 3, 2), (4, 1, 3), (3, 3, 3), (2, 2, 2, 2), (6, 5), (1, 3), (3, 1, 1, 4), (5, 2, 4), (2, 3, 2, 3, 2), (1, 1), (20, 3)]
STOCK = [{"rank": 1, "tag": 0}, {"rank": 2, "tag": 1}, {"rank": 4, "tag": 2, "data": "int"}, {"rank": 2, "data": "zero"}, {"neg": 0}, {"rank": 1, "tag": 3, "factor": 0.01}, {"rank": [3, 1, 2, 4], "tag": 4, "layout": "F"}]
METHODS = ["exact", "pairwise", "sketch", "orth_sketch"]


LARGE = [(70, 66), (28, 24, 20), (40, 3, 40), (6,) * 5]


def stock(shape, mag=1.0, times=1):
    out = []
    for s in STOCK:
        if "neg" in s:
            t, X = out[s["neg"]]
            out.append((TensorTrain([-t.cores[0]] + list(t.cores[1:])), -X))
        else:
            s = dict(s, fmt="tt", shape=list(shape))
            if isinstance(s["rank"], list):
                s["rank"] = [times * r for r in s["rank"][:len(shape) - 1]]
            else:
                s["rank"] *= times
            t, x = M.build(s)
            f = s.get("factor", 1.0) * mag
            out.append((TensorTrain([t.cores[0] * f] + list(t.cores[1:])), x * f))
    return out


def bounds(shape, times=1):
    n = len(shape) - 1
    if times > 1:
        return [times, 3 * times + 1, 5 * times, tuple(range(2 * times, 2 * times + n)), 10 ** 6]
    return [1, 2, 3, 30, tuple(range(1, n + 1)), [n + 1 - i for i in range(n)], (5,) * n, [2] * n]


def sequences(tier, k):
    seqs = [s for L in (1, 2, 3) for s in itertools.product(range(len(STOCK)), repeat=L)]
    if tier == "quick" and k >= 4:
        seqs = [s for j, s in enumerate(seqs) if len(s) == 1 or j % 6 == k % 6]
    if tier == "thorough" and k < 2:
        seqs += [s for s in itertools.product(range(len(STOCK)), repeat=4)]
    return seqs + [(0, 1, 2, 3, 4, 5, 6), (1,) * 6, (0, 4) * 4]


def cases(tier):
    for k, shape in enumerate(SHAPES):
        for seq in sequences(tier, k):
            yield {"shape": shape, "seq": seq}
    for k, shape in enumerate([(3, 4), (2, 3, 2), (2, 2, 2, 2), (20, 3)]):  # tensors far from unit scale
        for mag in (1e-12, 1e12, -1e-70):
            for seq in sequences(tier, k)[k::23]:
                yield {"shape": shape, "seq": seq, "mag": mag}
    for shape in [(3, 4), (2, 3, 2), (3, 3, 3), (2, 2, 2, 2), (5, 2, 4)]:  # many summands
        for n in (17, 33, 65, 130) + ((300, 1025) if tier == "thorough" else ()):
            for pattern in ((1,), (0, 1), (0, 3, 5), (4, 0, 1, 4), (6,), (3,)):
                yield {"shape": shape, "seq": tuple((pattern * n)[:n])}
    for shape in LARGE:
        for seq in [(1,), (0, 1), (1, 0, 5), (2, 1), (6, 0), (0, 4, 1), (3, 1), (5,) * 9]:
            yield {"shape": shape, "seq": seq, "times": 8}
    yield {"shape": (2, 3), "seq": (0, 1), "kind": "unknown method"}


def run_case(case, ctx):
    shape = tuple(case["shape"])
    d = len(shape)
    items = [stock(shape, case.get("mag", 1.0), case.get("times", 1))[i] for i in case["seq"]]
    X = np.zeros(shape) + sum(x for _, x in items)
    S = TensorSum([t for t, _ in items])
    if case.get("kind"):
        ctx.begin("unknown")
        for m in ("Exact", "svd", "", "sketching", 0, 1, True, "pairwise ", "orth"):
            for kw in ({}, {"eps": 0.1}):
                for T in (S, TensorSum([items[0][0]])):
                    ctx.raises(lambda: round_tt_sum(T, 2, method=m, **kw), f"method {m!r}")
                    ctx.step((m, len(T.tensors)), "rejected")
        return
    scale = sum(norm_of(t.cores) for t, _ in items) or 1.0
    svs = [sv(X, b) for b in range(1, d)]
    need = [int(np.sum(s > 1e-12 * scale)) for s in svs]
    partial_need, Y = [0] * (d - 1), np.zeros(shape)
    for _, x in items:
        Y = Y + x
        partial_need = [max(a, int(np.sum(sv(Y, b) > 1e-9 * scale))) for a, b in zip(partial_need, range(1, d))]
    smallest = min([float(s[k - 1]) for s, k in zip(svs, need) if k] + [scale])
    ctx.begin((shape, X))
    start = ctx._cur
    keep = round_tt_sum(S, 1, method=None)
    ctx.close(keep.to_numpy(), X, f"no rounding of summands {list(case['seq'])} {shape}", tol=1e-11, scale=scale)
    n_vals = [min(M.prod(shape[:b]), M.prod(shape[b:])) for b in range(1, d)]
    for method, bound in itertools.product(METHODS, bounds(shape, case.get("times", 1))):
        given = tuple(bound) if isinstance(bound, (tuple, list)) else (bound,) * (d - 1)
        cap = trim_ref(shape, given)
        sketch = method in ("sketch", "orth_sketch")
        options = [{"oversample_factor": f} for f in (2, 1.5, 3)] if sketch else [{"eps": e} for e in (None, 0, 1e-8, 0.2)]
        for opt in options:
            what = f"{method} of summands {list(case['seq'])} {shape} max_rank {bound} {opt}"
            if not sketch and opt["eps"] is None:
                opt = {}
            r = round_tt_sum(S, bound, method=method, **opt)
            if not isinstance(r, TensorTrain):
                ctx.fail(f"{what}: result is no tensor train but {type(r).__name__}")
            consistent(ctx, r, shape, what)
            ctx.true(all(a <= b for a, b in zip(r.rank, given)), lambda: what + f": rank {r.rank}")
            R = M.dense_tt(r.cores)
            eps = opt.get("eps") or 0
            err = float(np.linalg.norm(R - X))
            fits = all(a <= b for a, b in zip(partial_need if method == "pairwise" else need, cap))
            if not eps and fits:
                if not sketch:
                    ctx.close(R, X, what + ": the sum has this TT-rank but is not recovered", tol=1e-9, scale=scale)
                elif smallest > 1e-4 * scale or not any(need):
                    ctx.close(R, X, what + ": the sum has this TT-rank but is not recovered", tol=1e-6, scale=scale)
                else:
                    ctx.skip("ill-conditioned sum")
            if method == "exact":
                b2 = sum(float(np.sum(s[c:] ** 2)) + n * (eps * s[0]) ** 2 for s, c, n in zip(svs, cap, n_vals))
                ctx.true(err <= np.sqrt(b2) * (1 + 1e-8) + 1e-10 * scale, lambda: what + f": error {err:.3g} exceeds {np.sqrt(b2):.3g}")
            elif method == "pairwise" and fits:
                steps, Y, total = len(items), np.zeros(shape), 0.0
                for _, x in items:  # every partial sum may have been perturbed by the errors so far
                    Y = Y + x
                    total += np.sqrt(sum(n * (eps * (np.linalg.norm(Y) + total)) ** 2 for n in n_vals))
                ctx.true(err <= total * (1 + 1e-8) + 1e-10 * scale, lambda: what + f": error {err:.3g} exceeds {total:.3g}")
            ctx.goto(start)
            if sketch and not fits:
                ctx.step((method, str(bound), str(opt)), r.rank)
            else:
                ctx.step((method, str(bound), str(opt)), R)
            ctx.traces += 1
