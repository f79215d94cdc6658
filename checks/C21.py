"""C21: every inconsistent combination of arguments within the bounds is rejected, next to the consistent ones, which are accepted."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.sketch import blocked_stream_sketch, hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tensor import TensorSum, TensorTrain
from tt_sketch.tt_gmres import MPO, round_tt_sum
from tt_sketch.tt_svd import tt_svd
from tt_sketch.utils import process_tt_rank

PROPERTY = "C21"
RULE = ("full product of tensor formats (also inside sums, at every position) x DRM types x entry points x inconsistency: every other shape of a menu (permuted, "
        "reversed, larger, smaller, other order, equal size), every rank vector with entries 1..4 other than the DRM's, every pair of left and right rank vectors "
        "with entries 1..4, every wrong length, every unsupported format; the consistent neighbours are called as well and must be accepted")
BOUNDS = {"quick": "orders 2-4; rank vectors of length 1-2 completely, of length 3 with entries 1..3", "thorough": "rank vectors of length 3 with entries 1..4, more shapes"}
TENSORS = [{"fmt": "dense"}, {"fmt": "sparse"}, {"fmt": "tt", "rank": 2}, {"fmt": "cp", "rank": 2}, {"fmt": "tucker", "rank": 2},
           {"fmt": "sparse", "nnz": "empty"}, {"fmt": "dense", "data": "zero"}, {"fmt": "sum", "parts": [{"fmt": "tt"}, {"fmt": "sparse"}]},
           {"fmt": "sum", "parts": [{"fmt": "sparse"}, {"fmt": "dense"}, {"fmt": "tt"}]}, {"fmt": "sum", "parts": [{"fmt": "cp"}, {"fmt": "tucker"}]},
           {"fmt": "sum", "parts": [{"fmt": "sparse"}, {"fmt": "sum", "parts": [{"fmt": "sparse", "tag": 1}, {"fmt": "cp"}]}]}, {"fmt": "sum", "parts": [{"fmt": "sparse"}]},
           {"fmt": "sum", "parts": [{"fmt": "tucker"}, {"fmt": "sparse"}]}]
SHAPES = [(4, 3), (3, 4, 2), (4, 4, 4), (2, 3, 2, 4)]


def others(shape):
    n = len(shape)
    out = set(itertools.permutations(shape)) | {shape + (1,), (1,) + shape, shape[:-1], shape[1:], tuple(s + 1 for s in shape), tuple(s * 2 for s in shape)}
    out |= {shape[:i] + (shape[i] + 1,) + shape[i + 1:] for i in range(n)} | {shape[:i] + (max(1, shape[i] - 1),) + shape[i + 1:] for i in range(n)}
    out |= {shape[:i] + (shape[i] * shape[i + 1],) + shape[i + 2:] for i in range(n - 1)} | {shape[:i] + (1,) + shape[i + 1:] for i in range(n)}
    return sorted(s for s in out if s != shape and len(s) > 1)


def cases(tier):
    th = tier == "thorough"
    for shape in SHAPES + ([(5, 1, 3), (2, 2, 2, 2, 2)] if th else []):
        for ti in range(len(TENSORS)):
            yield {"kind": "shape", "shape": shape, "tensor": ti}
            yield {"kind": "format", "shape": shape, "tensor": ti}
            yield {"kind": "length", "shape": shape, "tensor": ti}
            yield {"kind": "capability", "shape": shape, "tensor": ti}
    for shape in ((9, 9), (5, 25, 5), (5, 25, 25, 5)):
        for ti in (1, 2, 0, 7):
            n = len(shape) - 1
            menu = range(1, 5) if n < 3 or th else range(1, 4)
            for lv in itertools.product(menu, repeat=n):
                yield {"kind": "rank", "shape": shape, "tensor": ti, "rank": lv, "max": max(menu)}
    for k in range(1, 6):
        yield {"kind": "weights", "shape": (2, 3, 2), "summands": k}
    yield {"kind": "lengths elsewhere", "shape": (2, 3, 2)}


def small(shape):
    n = len(shape) - 1
    return (1,) * n, (2,) * n


def run_shape(shape, spec, ctx):
    T, _ = M.build(spec)
    fm = M.formats_of(spec)
    kinds = [k for k in M.DRMS if fm <= M.SUPPORT[k]]
    for k in kinds:
        lv, rv = small(shape)
        left, right = M.make_drm(k, lv, shape, False, 1), M.make_drm(k, rv, shape, True, 2)
        stream_sketch(T, lv, rv, left_drm=left, right_drm=right)
        for s in others(shape):
            n2 = len(s) - 1
            l2, r2 = M.make_drm(k, (1,) * n2, s, False, 1), M.make_drm(k, (2,) * n2, s, True, 2)
            what = f"{M.describe(spec)} with {k} DRM of shape {s}"
            calls = {}
            for lname, rname, L, R in (("wrong", "good", l2, right), ("good", "wrong", left, r2), ("wrong", "wrong", l2, r2), ("wrong", "none", l2, None), ("none", "wrong", None, r2)):
                for lr, rr in ((lv, rv), ((1,) * n2, (2,) * n2)):
                    calls[f"stream {lname} {rname} {len(lr)}"] = lambda L=L, R=R, lr=lr, rr=rr: stream_sketch(T, lr, rr, seed=1, left_drm=L, right_drm=R)
                    calls[f"orthogonal {lname} {rname} {len(lr)}"] = lambda L=L, R=R, lr=lr, rr=rr: orthogonal_sketch(T, lr, rr, seed=1, left_drm=L, right_drm=R)
            for rr in (rv, (2,) * n2):
                calls[f"hmt {len(rr)}"] = lambda rr=rr: hmt_sketch(T, rr, drm=r2)
            if hasattr(left, "slice"):
                for L, R, name in ((l2, r2, "both"), (left, r2, "right"), (l2, right, "left")):
                    for n in {len(shape) - 1, n2}:
                        calls[f"blocked {name} {n}"] = lambda L=L, R=R, n=n: blocked_stream_sketch(T, L, R, [(0,) * n, (1,) * n], [(0,) * n, (2,) * n])
            # a sketch of the other shape updated with this tensor
            other, _ = M.build(dict(M.with_shape(spec, s)))
            sk = stream_sketch(other, (1,) * n2, (2,) * n2, left_drm=l2, right_drm=r2)
            calls["update"] = lambda: sk + T
            calls["subtract"] = lambda: sk - T
            if hasattr(l2, "increase_rank") and "increase_rank" in dir(l2):
                calls["increase"] = lambda: sk.increase_rank(T, (2,) * n2, (3,) * n2)
            for name, f in calls.items():
                ctx.raises(f, f"{name}: {what}")
                ctx.goto(0)
                ctx.step((name, k, s), "rejected")


def run_rank(case, ctx, T, spec, shape):
    n = len(shape) - 1
    lv = tuple(case["rank"])
    for rv in itertools.product(range(1, case["max"] + 1), repeat=n):
        right_larger = all(a < b for a, b in zip(lv, rv))
        left_larger = all(a > b for a, b in zip(lv, rv))
        what = f"{M.describe(spec)} ranks {lv},{rv}"
        for f in (tuple, list):
            kinds = ("tt", "sgauss") if spec["fmt"] == "sparse" else ("tt",)
            for k in kinds:
                s = lambda: stream_sketch(T, f(lv), f(rv), seed=1, left_drm_type=M.DRMS[k])
                o = lambda: orthogonal_sketch(T, f(lv), f(rv), seed=1, left_drm_type=M.DRMS[k])
                if right_larger or left_larger:
                    s()
                    ctx.comparisons += 1
                else:
                    ctx.raises(s, "stream " + what)
                if right_larger:
                    o()
                else:
                    ctx.raises(o, "orthogonal " + what)
                ctx.goto(0)
                ctx.step((lv, rv, k), right_larger - left_larger)
        if len(set(lv)) == 1:  # one side as an integer
            g = lambda: stream_sketch(T, lv[0], rv, seed=1)
            if right_larger or left_larger:
                g()
            else:
                ctx.raises(g, f"stream {what} with an integer")
    # DRMs of rank lv used with every other requested rank
    hi = tuple(5 + 0 * r for r in lv)
    for k in ("tt", "sgauss", "dense", "sign"):
        if not M.supported(spec, k):
            continue
        L, R = M.make_drm(k, lv, shape, False, 1), M.make_drm(k, lv, shape, True, 2)
        BL, BR = M.make_drm(k, hi, shape, False, 1), M.make_drm(k, hi, shape, True, 2)
        stream_sketch(T, lv, hi, left_drm=L, right_drm=BR)
        stream_sketch(T, hi, lv, left_drm=BL, right_drm=R)
        orthogonal_sketch(T, lv, hi, left_drm=L, right_drm=BR)
        hmt_sketch(T, lv, drm=R)
        for q in itertools.product(range(1, case["max"] + 1), repeat=n):
            if q == lv:
                continue
            for form in (q, list(q)) + ((q[0],) if len(set(q)) == 1 else ()):
                what = f"{M.describe(spec)} {k} DRM of rank {lv} for requested rank {form}"
                ctx.raises(lambda: stream_sketch(T, form, hi, left_drm=L, right_drm=BR), "stream, left: " + what)
                ctx.raises(lambda: stream_sketch(T, form, hi, left_drm=L), "stream, left only: " + what)
                ctx.raises(lambda: stream_sketch(T, hi, form, left_drm=BL, right_drm=R), "stream, right: " + what)
                ctx.raises(lambda: stream_sketch(T, hi, form, right_drm=R), "stream, right only: " + what)
                ctx.raises(lambda: orthogonal_sketch(T, form, hi, left_drm=L, right_drm=BR), "orthogonal, left: " + what)
                ctx.raises(lambda: orthogonal_sketch(T, form, hi, left_drm=L), "orthogonal, left only: " + what)
                ctx.raises(lambda: hmt_sketch(T, form, drm=R), "hmt: " + what)
                if all(x > 1 for x in q) and all(x > 1 for x in lv):
                    one = (1,) * n
                    ctx.raises(lambda: orthogonal_sketch(T, one, form, right_drm=R), "orthogonal, right only: " + what)
            ctx.step((k, "drm", q), "rejected")


def run_length(shape, spec, ctx):
    T, _ = M.build(spec)
    n = len(shape) - 1
    kinds = [k for k in M.DRMS if M.supported(spec, k)] or ["tt"]
    for m in [x for x in range(0, n + 3) if x != n]:
        for form in (tuple, list, np.array):
            bad, bad1 = form([2] * m), form([1] * m)
            for k in kinds:
                what = f"{M.describe(spec)} {k} with {m} ranks as {form.__name__}"
                D = M.DRMS[k]
                good_l, good_r = M.make_drm(k, (1,) * n, shape, False, 1), M.make_drm(k, (2,) * n, shape, True, 1)
                calls = {"stream both": lambda: stream_sketch(T, bad1, bad, left_drm_type=D), "stream right": lambda: stream_sketch(T, 1, bad, left_drm_type=D),
                         "stream left": lambda: stream_sketch(T, bad1, 2, left_drm_type=D), "stream left larger": lambda: stream_sketch(T, bad, 1, left_drm_type=D),
                         "stream right smaller": lambda: stream_sketch(T, 3, bad, left_drm_type=D),
                         "stream drm": lambda: stream_sketch(T, bad1, bad, left_drm=good_l, right_drm=good_r), "orthogonal both": lambda: orthogonal_sketch(T, bad1, bad, left_drm_type=D),
                         "orthogonal left": lambda: orthogonal_sketch(T, bad1, 2, left_drm_type=D), "orthogonal right": lambda: orthogonal_sketch(T, 1, bad, left_drm_type=D),
                         "orthogonal drm": lambda: orthogonal_sketch(T, bad1, bad, left_drm=good_l, right_drm=good_r),
                         "hmt": lambda: hmt_sketch(T, bad, drm_type=D), "hmt drm": lambda: hmt_sketch(T, bad, drm=good_r),
                         "left DRM": lambda: D(bad, shape=shape, transpose=False, seed=1), "right DRM": lambda: D(bad, shape=shape, transpose=True, seed=1)}
                sk = stream_sketch(T, (1,) * n, (2,) * n, left_drm=good_l, right_drm=good_r)
                calls["increase left"] = lambda: sk.increase_rank(T, bad, 3)
                calls["increase right"] = lambda: sk.increase_rank(T, 1, form([3] * m))
                for name, f in calls.items():
                    ctx.raises(f, f"{name}: {what}")
                    ctx.goto(0)
                    ctx.step((name, k, m), "rejected")


def run_format(shape, spec, ctx):
    T, _ = M.build(spec)
    fm = M.formats_of(spec)
    n = len(shape) - 1
    lv, rv = small(shape)
    sparse, _ = M.build({"fmt": "sparse", "shape": list(shape), "tag": 7})
    for k in M.DRMS:
        D = M.DRMS[k]
        left, right = M.make_drm(k, lv, shape, False, 1), M.make_drm(k, rv, shape, True, 2)
        tl, tr = M.make_drm("tt", lv, shape, False, 1), M.make_drm("tt", rv, shape, True, 2)
        sk = stream_sketch(sparse, lv, rv, left_drm=left, right_drm=right)
        calls = {"stream": lambda: stream_sketch(T, lv, rv, left_drm=left, right_drm=right), "stream type": lambda: stream_sketch(T, 1, 2, left_drm_type=D),
                 "stream right type": lambda: stream_sketch(T, 1, 2, left_drm_type=M.DRMS["tt"], right_drm_type=D), "stream left type": lambda: stream_sketch(T, 2, 1, left_drm_type=D, right_drm_type=M.DRMS["tt"]),
                 "stream left": lambda: stream_sketch(T, lv, rv, left_drm=left, right_drm=tr), "stream right": lambda: stream_sketch(T, lv, rv, left_drm=tl, right_drm=right),
                 "orthogonal": lambda: orthogonal_sketch(T, lv, rv, left_drm=left, right_drm=right), "orthogonal type": lambda: orthogonal_sketch(T, 1, 2, left_drm_type=D),
                 "orthogonal left": lambda: orthogonal_sketch(T, lv, rv, left_drm=left, right_drm=tr), "orthogonal right": lambda: orthogonal_sketch(T, lv, rv, left_drm=tl, right_drm=right),
                 "hmt": lambda: hmt_sketch(T, rv, drm=right), "hmt type": lambda: hmt_sketch(T, 2, drm_type=D), "update": lambda: sk + T, "subtract": lambda: sk - T}
        if hasattr(left, "slice"):
            calls["blocked"] = lambda: blocked_stream_sketch(T, left, right, [(0,) * n, lv], [(0,) * n, rv])
        if hasattr(left, "increase_rank") and type(left).__name__ in ("DenseGaussianDRM", "SparseGaussianDRM"):
            calls["increase"] = lambda: sk.increase_rank(T, (2,) * n, (3,) * n)
        ok = fm <= M.SUPPORT[k]
        for name, f in calls.items():
            what = f"{name}: {M.describe(spec)} with a {k} DRM"
            if ok:
                f()
                ctx.comparisons += 1
            else:
                ctx.raises(f, what)
            ctx.goto(0)
            ctx.step((name, k), ok)


def run_capability(shape, spec, ctx):
    """Increasing the rank with DRMs that cannot, slicing objects that cannot."""
    T, _ = M.build(spec)
    n = len(shape) - 1
    lv, rv = small(shape)
    can = {"dense", "sgauss"}
    kinds = [k for k in M.DRMS if M.supported(spec, k)]
    for a, b in itertools.product(kinds, repeat=2):
        left, right = M.make_drm(a, lv, shape, False, 1), M.make_drm(b, rv, shape, True, 2)
        sk = stream_sketch(T, lv, rv, left_drm=left, right_drm=right)
        for nl, nr in (((2,) * n, (3,) * n), (2, 3), (1, 3), (lv, rv)):
            f = lambda: sk.increase_rank(T, nl, nr)
            if a in can and b in can:
                f()
                ctx.comparisons += 1
            else:
                ctx.raises(f, f"increase_rank to {nl},{nr} with DRMs {a},{b} of {M.describe(spec)}")
            ctx.goto(0)
            ctx.step((a, b, str(nl)), a in can and b in can)

    from tt_sketch.drm_base import DRM

    class NoSlice(DRM):  # a user-defined DRM without slicing
        def __init__(self, inner):
            self.inner = inner
            for name in ("rank", "shape", "transpose", "seed", "rank_min", "rank_max", "true_rank"):
                setattr(self, name, getattr(inner, name))

        def sketch_sparse(self, t):
            return self.inner.sketch_sparse(t)

        def sketch_dense(self, t):
            return self.inner.sketch_dense(t)

        def sketch_tt(self, t):
            return self.inner.sketch_tt(t)

        def sketch_cp(self, t):
            return self.inner.sketch_cp(t)

        def sketch_tucker(self, t):
            return self.inner.sketch_tucker(t)
    left, right = M.make_drm("tt", lv, shape, False, 1), M.make_drm("tt", rv, shape, True, 2)
    L, R = NoSlice(left), NoSlice(right)
    stream_sketch(T, lv, rv, left_drm=L, right_drm=R)
    blocks = [(0,) * n, lv], [(0,) * n, rv]
    blocked_stream_sketch(T, left, right, *blocks)
    for x, y in ((L, R), (L, right), (left, R)):
        ctx.raises(lambda: blocked_stream_sketch(T, x, y, *blocks), f"blocked sketch of {M.describe(spec)} with a DRM that cannot be sliced")
        sk = stream_sketch(T, lv, rv, left_drm=x, right_drm=y)
        ctx.raises(lambda: sk.increase_rank(T, 2, 3), f"increase_rank of {M.describe(spec)} with a DRM that cannot be sliced")
        ctx.step("no slice", "rejected")


def run_weights(k, shape, ctx):
    ts = [M.build({"fmt": f, "shape": list(shape), "tag": i})[0] for i, f in enumerate(("tt", "sparse", "dense", "cp", "tucker")[:k])]
    for sums in (TensorSum(ts), TensorSum([M.build({"fmt": "tt", "shape": list(shape), "tag": i})[0] for i in range(k)])):
        for m in range(0, k + 4):
            for form in (list, tuple, np.array, lambda w: iter(w), lambda w: (x for x in w), lambda w: np.array(w).reshape(-1)[::-1]):
                w = [1.5] * m
                f = lambda: sums * form(w)
                if m == k:
                    f()
                    ctx.comparisons += 1
                else:
                    ctx.raises(f, f"sum of {k} tensors weighted with {m} weights")
                ctx.step((k, m), m == k)


def run_elsewhere(shape, ctx):
    n = len(shape) - 1
    tt, _ = M.build({"fmt": "tt", "shape": list(shape), "rank": 2})
    dense, _ = M.build({"fmt": "dense", "shape": list(shape)})
    for m in [x for x in range(0, n + 4) if x != n]:
        for form in (tuple, list, np.array):
            r = form([2] * m)
            calls = {"process untrimmed": lambda: process_tt_rank(r, shape, trim=False), "process trimmed": lambda: process_tt_rank(r, shape, trim=True),
                     "TensorTrain.random": lambda: TensorTrain.random(shape, r, seed=1), "TensorTrain.random trim": lambda: TensorTrain.random(shape, r, seed=1, orthog=True),
                     "TensorTrain.zero": lambda: TensorTrain.zero(shape, r), "MPO.random": lambda: MPO.random(r, shape, shape), "round": lambda: tt.round(max_rank=r),
                     "tt_svd": lambda: tt_svd(dense, r), "tt_svd of tt": lambda: tt_svd(tt, r),
                     **{f"round_tt_sum {meth} {c}": lambda meth=meth, c=c: round_tt_sum(TensorSum([tt] * c), r, method=meth) for meth in ("exact", "pairwise", "sketch", "orth_sketch") for c in (1, 2)}}
            for name, f in calls.items():
                ctx.raises(f, f"{name} with {m} ranks for shape {shape}")
                ctx.goto(0)
                ctx.step((name, m), "rejected")


def run_case(case, ctx):
    shape = tuple(case["shape"])
    ctx.begin((case["kind"], shape, case.get("tensor"), case.get("rank")))
    if case["kind"] == "weights":
        return run_weights(case["summands"], shape, ctx)
    if case["kind"] == "lengths elsewhere":
        return run_elsewhere(shape, ctx)
    spec = M.with_shape(TENSORS[case["tensor"]], shape)
    if case["kind"] == "rank":
        return run_rank(case, ctx, M.build(spec)[0], spec, shape)
    {"shape": run_shape, "length": run_length, "format": run_format, "capability": run_capability}[case["kind"]](shape, spec, ctx)
