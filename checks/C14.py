"""C14: TT rounding, orthogonalization and singular values against dense unfoldings, over all short histories of TT operations."""
import itertools

import numpy as np

from lib import model as M
from checks.C05 import trim_ref
from tt_sketch.sketch import hmt_sketch
from tt_sketch.tensor import TensorTrain
from tt_sketch.tt_svd import tt_svd

PROPERTY = "C14"
RULE = ("all tensor trains with cores over {-1,0,1} of some tiny shapes, and structured ones (generic, integer, zero, scaled, rank-deficient, "
        "cancelling, ranks beyond the dimensions, all layouts) of many shapes; on each the full product of tolerances x maximum ranks x "
        "orthogonalized flag, and all histories of TT operations up to the depth, with the defining inequalities evaluated on dense unfoldings")
BOUNDS = {"quick": "complete enumeration for (2,2) rank 1 and 2, (2,2,2) and (3,2) rank 1, (2,1,2) rank (2,1); about 35 shapes up to order 6; histories of depth 2; 10 shapes with dimensions up to 300 or order 8 and ranks up to 100; 13 shapes with dimensions up to 3000 x 6 graded spectra at every bond",
          "thorough": "also (2,1,2) rank 2, (3,3) rank 2 and 5 more completely, all shapes with dims<=3 of order 4; histories of depth 3"}
EPS = [None, 0, 1e-12, 0.05, 0.4, 0.999, 1.0, 1e9]


def norm_of(cores):
    return float(np.prod([max(np.linalg.norm(C), 1e-300) for C in cores]))


def unfold(X, b):
    return X.reshape(M.prod(X.shape[:b]), -1)


def sv(X, b):
    return np.linalg.svd(unfold(X, b), compute_uv=False)


def consistent(ctx, tt, shape, what):
    ctx.equal(tuple(tt.shape), tuple(shape), what + ": shape")
    r = (1,) + tuple(tt.rank) + (1,)
    ctx.equal([tuple(C.shape) for C in tt.cores], [(r[i], n, r[i + 1]) for i, n in enumerate(shape)], what + ": core shapes")


def check_orthogonalize(ctx, tt, X, scale, what):
    o = tt.orthogonalize()
    consistent(ctx, o, X.shape, what)
    ctx.close(M.dense_tt(o.cores), X, what + ": represents another tensor", tol=1e-10, scale=scale)
    for m, C in enumerate(o.cores[:-1]):
        A = C.reshape(-1, C.shape[2])
        ctx.close(A.T @ A, np.eye(A.shape[1]), what + f": core {m} not left-orthonormal", tol=1e-10, scale=1.0)
    return o


def check_svdvals(ctx, tt, X, scale, what):
    vals = tt.svdvals()
    d = X.ndim
    ctx.equal(len(vals), d, what + ": number of entries")
    for b in range(d):
        ref = sv(X, max(b, 1))
        v = np.asarray(vals[b])
        n = max(len(v), len(ref))
        ctx.close(np.pad(v, (0, n - len(v))), np.pad(ref, (0, n - len(ref))), what + f"[{b}]", tol=1e-9, scale=scale)


def check_round(ctx, tt, X, scale, eps, max_rank, flag, what, svs=None):
    r = tt.round(eps=eps, max_rank=max_rank, orthogonalized=flag)
    shape = X.shape
    d = len(shape)
    consistent(ctx, r, shape, what)
    cap = tuple(max_rank) if isinstance(max_rank, (list, tuple)) else (max_rank,) * (d - 1) if max_rank is not None else tuple(tt.rank)
    cap = trim_ref(shape, cap)
    ctx.true(all(1 <= a <= b for a, b in zip(r.rank, cap)), lambda: what + f": rank {r.rank} exceeds {cap}")
    W = np.ones((1, 1))  # right-orthonormal bases
    for m in range(d - 1, 0, -1):
        C = r.cores[m]
        A = C.reshape(C.shape[0], -1)
        ctx.close(A @ A.T, np.eye(A.shape[0]), what + f": core {m} not right-orthonormal", tol=1e-10, scale=1.0)
        # singular values at this bond after truncation of the bonds to the right
        P = np.tensordot(X.reshape(-1, W.shape[1]), W, axes=(1, 1)).reshape(M.prod(shape[:m]), -1)
        S = np.linalg.svd(P, compute_uv=False)
        if r.rank[m - 1] < cap[m - 1]:
            dropped = S[r.rank[m - 1]:]
            e = eps or 0
            if len(dropped):
                ctx.true(dropped[0] <= e * S[0] * (1 + 1e-9) + 1e-11 * scale,
                         lambda: what + f": dropped {dropped[:3]} at bond {m} for tolerance {e} and largest value {S[0]}")
        W = np.tensordot(C, W, axes=(2, 0)).reshape(C.shape[0], -1)
    Y = M.dense_tt(r.cores)
    svs = svs or [sv(X, b) for b in range(1, d)]
    bound = sum(float(np.sum(s[k:] ** 2)) for s, k in zip(svs, r.rank))
    err = float(np.linalg.norm(X - Y))
    ctx.true(err <= np.sqrt(bound) * (1 + 1e-8) + 1e-10 * scale, lambda: what + f": error {err:.3g} exceeds the bound {np.sqrt(bound):.3g}")
    if not eps and all(c >= np.sum(s > 1e-9 * max(s[0], 1e-300)) for c, s in zip(cap, svs)):
        ctx.close(Y, X, what + ": nothing to truncate, but another tensor", tol=1e-9, scale=scale)
    return r


def ranks_for(shape):
    n = len(shape) - 1
    out = [None, 1, 2, 50, tuple(range(1, n + 1)), [n + 1 - i for i in range(n)], tuple(1 + 2 * (i % 2) for i in range(n)), tuple(3 - 2 * (i % 2) for i in range(n)), (40,) * n]
    return out


def structured(shape):
    n = len(shape) - 1
    for rank in (1, 2, 3, 12, [1, 4, 2, 5, 1, 3][:n], [5, 1, 3, 2, 4, 2][:n]):
        for data in ("gen", "int", "zero", "big", "small", "ones", "micro"):
            yield {"fmt": "tt", "shape": list(shape), "rank": rank, "data": data}
        for layout in ("F", "strided", "neg", "ro"):
            yield {"fmt": "tt", "shape": list(shape), "rank": rank, "layout": layout}
    for special in ("double", "cancel", "decay", "huge", "tiny", "zerocore"):
        yield {"special": special, "shape": list(shape)}


def make(spec):
    if "special" not in spec:
        return M.build(spec)
    shape = spec["shape"]
    a, X = M.build({"fmt": "tt", "shape": shape, "rank": 2})
    s = spec["special"]
    if s == "double":
        return a.add(a), 2 * X
    if s == "cancel":
        return a.add(TensorTrain([-a.cores[0]] + list(a.cores[1:]))), 0 * X
    if s == "decay":
        t, Y = a, X
        for i in range(1, 7):
            b, Z = M.build({"fmt": "tt", "shape": shape, "rank": 1, "tag": i})
            t, Y = t.add(TensorTrain([b.cores[0] * 10.0 ** -i] + list(b.cores[1:]))), Y + Z * 10.0 ** -i
        return t, Y
    if s in ("huge", "tiny"):
        f = 1e60 if s == "huge" else 1e-60
        return TensorTrain([a.cores[0] * f] + list(a.cores[1:])), X * f
    if s == "zerocore":
        return TensorTrain([a.cores[0] * 0] + list(a.cores[1:])), X * 0


TINY = [((2, 2), (1,)), ((2, 2), (2,)), ((2, 2, 2), (1, 1)), ((3, 2), (1,)), ((2, 1, 2), (2, 1))]
TINY_TH = TINY + [((1, 2, 2), (1, 2)), ((2, 2, 2), (1, 2)), ((1, 2, 2), (2, 1)), ((2, 1, 2), (2, 2)), ((3, 3), (2,)), ((2, 2, 2, 2), (1, 1, 1)), ((2, 3), (2,))]
BLOCK = 400


def cores_from(shape, rank, k):
    r = (1,) + rank + (1,)
    sizes = [(r[i], shape[i], r[i + 1]) for i in range(len(shape))]
    n = sum(M.prod(s) for s in sizes)
    digits = np.array([(k // 3 ** i) % 3 for i in range(n)], dtype=float) - 1
    out, p = [], 0
    for s in sizes:
        out.append(digits[p:p + M.prod(s)].reshape(s))
        p += M.prod(s)
    return out


def cases(tier):
    th = tier == "thorough"
    for shape, rank in TINY_TH if th else TINY:
        n = sum(M.prod(s) for s in zip((1,) + rank, shape, rank + (1,)))
        total = 3 ** n
        for start in range(0, total, BLOCK):
            yield {"kind": "tiny", "shape": shape, "rank": rank, "from": start, "to": min(total, start + BLOCK)}
    for k, shape in enumerate(M.shapes(tier)):
        if not th and max(shape) <= 3 and len(shape) >= 3 and k % 4:
            continue
        specs = list(structured(shape))
        for i in range(0, len(specs), 11):
            yield {"kind": "product", "shape": shape, "from": i, "to": i + 11}
    for shape in M.LARGE:
        for i in range(len(large(shape))):
            yield {"kind": "large", "shape": shape, "spec": i}
    for shape in GRADED:
        for i in range(len(GRADES)):
            yield {"kind": "graded", "shape": shape, "grades": i}
    for shape in [(3, 2), (2, 3, 2), (3, 1, 4, 2), (2, 4, 3), (1, 3), (2, 2, 2, 2, 2)] + ([(3, 4, 2, 3), (6, 2), (2, 1, 3, 1, 2)] if th else []):
        for first in range(len(MOVES)):
            yield {"kind": "history", "shape": shape, "first": first, "depth": 3 if th else 2}


GRADED = [(3, 2), (3, 300), (300, 3), (2, 3, 200), (200, 3, 2), (2, 200, 3), (3, 150, 150, 2), (4, 4, 4, 4), (2, 3, 2, 3, 2), (20, 20), (2, 2, 900), (12, 5, 700), (40, 3000)]
GRADES = [(1, 1e-3, 1e-10), (1, 1e-6, 1e-7, 1e-8, 1e-9), (1, 1, 1e-14), (1e5, 1, 1e-5), (1, 1e-9), (1, 0.5, 0.25, 0.125, 1e-11, 1e-12)]


def graded(shape, grades, place):
    """Orthonormal cores with the grades put between cores place - 1 and place, every inner basis rotated."""
    d = len(shape)
    rng = M.rng_for("graded", shape, grades, place)
    r = [1] + [max(1, min(len(grades), M.prod(shape[:i]), M.prod(shape[i:]))) for i in range(1, d)] + [1]
    cores = []
    for i in range(d):
        if i < place:
            Q = np.linalg.qr(rng.normal(size=(r[i] * shape[i], r[i + 1])))[0]
        else:
            Q = np.linalg.qr(rng.normal(size=(shape[i] * r[i + 1], r[i])))[0].T
        cores.append(np.ascontiguousarray(Q).reshape(r[i], shape[i], r[i + 1]))
    cores[place] = np.diag(grades[:r[place]]) @ cores[place].reshape(r[place], -1)
    cores[place] = cores[place].reshape(r[place], shape[place], r[place + 1])
    for i in range(1, d):
        B = np.linalg.qr(rng.normal(size=(r[i], r[i])))[0]
        cores[i - 1] = np.einsum("ijk,kl->ijl", cores[i - 1], B)
        cores[i] = np.einsum("lk,kij->lij", B.T, cores[i])
    return TensorTrain(cores)


def large(shape):
    """Tensor trains of high rank, also far beyond what the shape admits."""
    s, n = list(shape), len(shape) - 1
    return [{"fmt": "tt", "shape": s, "rank": r} for r in (3, 40, 100, [70, 2, 9, 50, 1, 30, 80][:n])] + [{"fmt": "tt", "shape": s, "rank": 17, "data": "int"},
            {"fmt": "tt", "shape": s, "rank": 20, "layout": "F"}, {"special": "decay", "shape": s}, {"special": "cancel", "shape": s}]


MOVES = ["orthogonalize", "round none", "round eps", "round rank 1", "round rank 2", "round both", "round tuple", "T", "*-3", "*0", "/7", "add base", "add self", "cancel", "svd", "hmt",
         "orthogonalize, round flag", "assign first", "assign last", "scale middle in place", "assign orthonormal"]
IN_PLACE = MOVES[-4:]


def move(name, tt, X, base, Xb):
    d = X.ndim
    if name == "orthogonalize":
        return tt.orthogonalize(), X
    if name == "round none":
        return tt.round(), X
    if name.startswith("round ") or name.endswith("flag"):
        kw = {"round eps": {"eps": 0.3}, "round rank 1": {"max_rank": 1}, "round rank 2": {"max_rank": 2}, "round both": {"eps": 0.1, "max_rank": 3},
              "round tuple": {"max_rank": tuple(1 + i % 3 for i in range(d - 1))}, "orthogonalize, round flag": {"max_rank": 2, "orthogonalized": True}}[name]
        r = (tt.orthogonalize() if "orthogonalized" in kw else tt).round(**kw)
        return r, M.dense_tt(r.cores)
    if name == "T":
        return tt.T, X.transpose()
    if name == "*-3":
        return tt * -3.0, X * -3
    if name == "*0":
        return tt * 0.0, X * 0
    if name == "/7":
        return tt / 7, X / 7
    if name == "add base":
        return (tt.add(base), X + Xb) if X.shape == Xb.shape else (tt, X)
    if name == "add self":
        return tt.add(tt), 2 * X
    if name == "cancel":
        return tt.add(-tt), 0 * X
    if name in IN_PLACE:
        k = {"assign first": 0, "assign last": d - 1, "scale middle in place": d // 2, "assign orthonormal": 0}[name]
        C = tt.cores[k]
        if name.startswith("scale"):
            C *= -2.0
        elif name == "assign orthonormal":
            tt[k] = np.linalg.qr(C.reshape(C.shape[0] * C.shape[1], -1))[0].reshape(C.shape) if C.shape[2] <= C.shape[0] * C.shape[1] else C * 2
        else:
            tt.cores[k] = C + np.cos(np.arange(C.size)).reshape(C.shape)
        return tt, M.dense_tt(tt.cores)
    if name == "svd":
        return tt_svd(tt), X
    if name == "hmt":
        r = hmt_sketch(tt, 2, seed=3)
        return r, M.dense_tt(r.cores)
    raise ValueError(name)


def light(ctx, tt, X, scale, what):
    """All claims on one tensor with a small menu of arguments."""
    o = check_orthogonalize(ctx, tt, X, scale, what + " orthogonalize")
    check_svdvals(ctx, tt, X, scale, what + " svdvals")
    d = X.ndim
    svs = [sv(X, b) for b in range(1, d)]
    for eps, mr in ((None, None), (0.3, None), (None, 1), (0.05, 2), (1.0, None)):
        check_round(ctx, tt, X, scale, eps, mr, False, what + f" round({eps},{mr})", svs)
    check_round(ctx, o, X, scale, 0.3, 2, True, what + " round orthogonalized", svs)


def run_case(case, ctx):
    shape = tuple(case["shape"])
    if case["kind"] == "tiny":
        for k in range(case["from"], case["to"]):
            cores = cores_from(shape, tuple(case["rank"]), k)
            X = M.dense_tt(cores)
            ctx.begin(X)
            light(ctx, TensorTrain(cores), X, max(1.0, norm_of(cores)), f"tiny {k} of {shape} rank {case['rank']}")
        return
    if case["kind"] == "product":
        for spec in list(structured(shape))[case["from"]:case["to"]]:
            tt, X = make(spec)
            ctx.begin((shape, X))
            scale = max(norm_of(tt.cores), 1e-290)
            what = f"{M.describe(spec)}"
            o = check_orthogonalize(ctx, tt, X, scale, what + " orthogonalize")
            ctx.step("orthogonalize", M.dense_tt(o.cores))
            check_svdvals(ctx, tt, X, scale, what + " svdvals")
            svs = [sv(X, b) for b in range(1, X.ndim)]
            for eps, mr, flag in itertools.product(EPS, ranks_for(shape), (False, True)):
                if flag and (eps not in (None, 0.05, 0.4)):
                    continue
                r = check_round(ctx, o if flag else tt, X, scale, eps, mr, flag, what + f" round(eps={eps}, max_rank={mr}, orthogonalized={flag})", svs)
                ctx.goto(0)
                ctx.step(("round", eps, mr, flag), M.dense_tt(r.cores))
                ctx.traces += 1
        return
    if case["kind"] == "graded":
        grades = GRADES[case["grades"]]
        for place in range(1, len(shape)):
            tt = graded(shape, grades, place)
            X = M.dense_tt(tt.cores)
            ctx.begin((shape, X[:1]))
            scale = max(grades)
            what = f"{shape} with values {grades} before core {place}"
            light(ctx, tt, X, scale, what)
            svs = [sv(X, b) for b in range(1, X.ndim)]
            for eps, mr, flag in itertools.product((None, 1e-13, 1e-8, 1e-2), (None, 1, 2, 3), (False, True)):
                t = tt.orthogonalize() if flag else tt
                r = check_round(ctx, t, X, scale, eps, mr, flag, what + f" round(eps={eps}, max_rank={mr}, orthogonalized={flag})", svs)
                ctx.goto(0)
                ctx.step(("round", eps, mr, flag), r.rank)
                ctx.traces += 1
        return
    if case["kind"] == "large":
        spec = large(shape)[case["spec"]]
        tt, X = make(spec)
        ctx.begin((shape, X))
        scale = norm_of(tt.cores)
        what = M.describe(spec)
        light(ctx, tt, X, scale, what)
        svs = [sv(X, b) for b in range(1, X.ndim)]
        for eps, mr in itertools.product((None, 1e-12, 0.1), (None, 5, 33, [60 - 9 * i for i in range(X.ndim - 1)])):
            r = check_round(ctx, tt, X, scale, eps, mr, False, what + f" round(eps={eps}, max_rank={mr})", svs)
            ctx.goto(0)
            ctx.step(("round", eps, mr), M.dense_tt(r.cores))
            ctx.traces += 1
        light(ctx, tt.add(tt), 2 * X, 2 * scale, what + " doubled")
        light(ctx, tt.T, X.transpose(), scale, what + " transposed")
        return
    base, Xb = M.build({"fmt": "tt", "shape": list(shape), "rank": 3, "tag": 4})
    for spec in ({"fmt": "tt", "shape": list(shape), "rank": 2}, {"fmt": "tt", "shape": list(shape), "rank": 6, "data": "int"}):
        tt0, X0 = M.build(spec)
        scale0 = norm_of(tt0.cores)

        def walk(tt, X, scale, path, at):
            for i, m in enumerate(MOVES):
                if not path and i != case["first"]:
                    continue
                p = path + [m]
                if m in IN_PLACE:  # on an object with the same past that nothing else uses, after everything has been asked of it
                    t, _ = M.build(spec)
                    Z = X0
                    for q in path:
                        t, Z = move(q, t, Z, base, Xb)
                    light(ctx, t, Z, scale, f"{M.describe(spec)} after {path}, again")
                    t2, Y = move(m, t, Z, base, Xb)
                else:
                    t2, Y = move(m, tt, X, base, Xb)
                s2 = max(scale, norm_of(t2.cores) if m.startswith("add") or m == "*-3" or m in IN_PLACE else 0)
                what = f"{M.describe(spec)} after {p}"
                consistent(ctx, t2, Y.shape, what)
                ctx.close(M.dense_tt(t2.cores), Y, what + ": wrong tensor", tol=1e-9, scale=s2)
                light(ctx, t2, Y, s2, what)
                ctx.goto(at)
                nxt = ctx.step(m, Y)
                ctx.traces += 1
                if len(p) < case["depth"]:
                    walk(t2, Y, s2, p, nxt)
        ctx.begin((shape, X0))
        walk(tt0, X0, scale0, [], ctx._cur)
