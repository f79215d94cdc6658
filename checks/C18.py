"""C18: TT linear maps against the dense matrices they represent; complete enumeration of basis cores (the maps are multilinear in the cores)."""
import itertools
import os
import tempfile

import numpy as np
import scipy.io
import scipy.sparse

from lib import model as M
from tt_sketch.tensor import TensorSum, TensorTrain
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond

PROPERTY = "C18"
RULE = ("every combination of one-hot operator cores and one-hot tensor cores of the small formats (a complete basis: the claims are multilinear in the cores), "
        "structured operators for many in/out shapes, ranks and layouts, all short expressions (transpose, scale, compose, sum, identity) over them, every "
        "invertible matrix over {-1,0,1} of size 1-3 as preconditioner on every mode, cookie maps on every mode")
BOUNDS = {"quick": "basis: 8 formats of order 1-3; 40 in/out shapes up to order 6 and dimensions up to 40; expressions of depth 2; rank-1 operators with every 3x3 (and every pair of 2x2) matrix over {-1,0,1}; all invertible 1x1, 2x2 and every 3rd of the 3x3 matrices over {-1,0,1}",
          "thorough": "basis: 14 formats; expressions of depth 3; all invertible 3x3 matrices"}
BASIS = [  # (in, out, mpo rank, tt rank)
    ((2, 2), (2, 2), (1,), (1,)), ((2, 3), (1, 2), (1,), (2,)), ((1, 2), (2, 1), (2,), (2,)), ((2, 2, 1), (1, 2, 1), (1, 2), (2, 1)), ((3, 1), (1, 3), (2,), (1,)),
    ((2, 1, 2), (1, 2, 1), (2, 1), (1, 1)), ((1, 2, 1), (1, 2, 2), (2, 2), (1, 1)), ((2, 2), (2, 2), (2,), (1,))]
BASIS_TH = BASIS + [((2, 2), (3, 2), (2,), (2,)), ((2, 2, 2), (2, 1, 2), (1, 1), (1, 1)), ((1, 2, 1, 2), (2, 1, 1, 1), (1, 2, 1), (1, 1, 1)), ((3, 2), (2, 3), (2,), (1,))]
IN_OUT = [((3, 2), (3, 2)), ((3, 2), (2, 4)), ((2, 5), (1, 3)), ((1, 1), (2, 3)), ((4, 3), (1, 1)), ((2, 3, 4), (2, 3, 4)), ((2, 3, 4), (4, 3, 2)), ((2, 3, 2), (3, 1, 4)), ((1, 4, 1), (3, 1, 2)),
          ((3, 1, 2, 2), (1, 3, 2, 1)), ((2, 2, 2, 2), (2, 2, 2, 2)), ((2, 3, 2, 2), (1, 2, 2, 3)), ((2, 1, 3, 1, 2), (2, 2, 1, 2, 2)), ((7, 2), (2, 7)), ((2, 2, 2), (2, 2, 2)),
          ((40, 2), (3, 9)), ((3, 20), (17, 2)), ((2, 9, 3), (4, 8, 5)), ((2,) * 6, (2,) * 6), ((12, 11), (12, 11))]


def one_hot(shape):
    n = M.prod(shape)
    for i in range(n):
        x = np.zeros(n)
        x[i] = 1
        yield x.reshape(shape)


def mpo_sizes(i, o, r):
    r = (1,) + tuple(r) + (1,)
    return [(r[k], i[k], o[k], r[k + 1]) for k in range(len(i))]


def tt_sizes(s, r):
    r = (1,) + tuple(r) + (1,)
    return [(r[k], s[k], r[k + 1]) for k in range(len(s))]


def apply(D, X):
    """D of shape (in..., out...)."""
    d = X.ndim
    return np.tensordot(X, D, axes=(range(d), range(d)))


def make_mpo(i, o, rank, layout="C", data="gen", tag=0):
    n = len(i) - 1
    rank = tuple((list(rank) * n)[:n]) if isinstance(rank, (list, tuple)) else (rank,) * n
    rng = M.rng_for("mpo", i, o, rank, tag)
    cores = [M._vals(rng, s, data) for s in mpo_sizes(i, o, rank)]
    return MPO([M._layout(C, layout) for C in cores]), M.dense_mpo(cores)


def transpose(D):
    d = D.ndim // 2
    return D.transpose(list(range(d, 2 * d)) + list(range(d)))


def cases(tier):
    th = tier == "thorough"
    for k, b in enumerate(BASIS_TH if th else BASIS):
        for first in range(M.prod(mpo_sizes(*b[:3])[0])):
            yield {"kind": "basis", "which": k, "first": first}
    for i, o in IN_OUT:
        for rank in (1, 2, 4, [1, 3, 2, 4], [3, 1, 4, 2], 20):
            yield {"kind": "structured", "in": i, "out": o, "rank": rank}
    for shape in [(2, 3), (3, 1, 2), (2, 2, 2, 2), (1, 4, 3)]:
        for first in range(N_EXPR):
            yield {"kind": "expression", "shape": shape, "first": first, "depth": 3 if th else 2}
    for n in (1, 2, 3):
        for start in range(0, 3 ** (n * n), 81):
            yield {"kind": "precond", "size": n, "from": start, "to": min(3 ** (n * n), start + 81), "stride": 1 if n < 3 or th else 3}
    for start in range(0, 3 ** 9, 1093):
        yield {"kind": "rank one", "from": start, "to": min(3 ** 9, start + 1093)}
    for n in (1, 2, 4, 7, 30, 80):
        yield {"kind": "precond generic", "size": n}
    for n in (1, 2, 3, 5):
        yield {"kind": "cookie", "size": n}
    yield {"kind": "reject"}
    for cookies in (4, 9):
        yield {"kind": "cookie problem", "cookies": cookies}


def check_map(ctx, A, D, i, o, what, scale, level=2):
    """A acts on tensor trains of shape i as the dense operator D (in..., out...)."""
    d = len(i)
    ctx.equal((tuple(A.in_shape), tuple(A.out_shape)), (tuple(i), tuple(o)), what + ": in_shape, out_shape")
    specs = [{"fmt": "tt", "rank": 2}, {"fmt": "tt", "rank": [3, 1, 4, 2, 3], "layout": "F"}, {"fmt": "tt", "rank": 1, "data": "int"}, {"fmt": "tt", "data": "zero"}, {"fmt": "tt", "data": "micro", "rank": 2}, {"fmt": "tt", "data": "giga"}]
    for spec in specs if level == 2 else specs[:2]:
        spec = dict(spec, shape=list(i), rank=spec["rank"][:d - 1] if isinstance(spec.get("rank"), list) else spec.get("rank", 2))
        t, X = M.build(spec)
        r = A(t)
        s = scale * (float(np.max(np.abs(X))) or 1.0) * M.prod(i) * 4
        outs = r.tensors if isinstance(r, TensorSum) else [r]
        ctx.true(all(isinstance(x, TensorTrain) for x in outs), what + ": result is not a tensor train")
        ctx.equal(tuple(r.shape), tuple(o), what + ": shape of the result")
        Y = sum(M.dense_tt(x.cores) for x in outs)
        ctx.close(Y, apply(D, X), what + f" applied to {M.describe(spec)}", tol=1e-11, scale=s)
        ctx.goto(0)
        ctx.step(what[:40], Y)


def interleaved(D):
    d = D.ndim // 2
    return D.transpose([k for m in range(d) for k in (m, d + m)])


def check_mpo(ctx, A, D, i, o, what, scale):
    d = len(i)
    check_map(ctx, A, D, i, o, what, scale)
    check_map(ctx, A.T, transpose(D), o, i, what + " transposed", scale, 1)
    check_map(ctx, A.T.T, D, i, o, what + " transposed twice", scale, 1)
    ctx.close(A.to_numpy(), interleaved(D), what + ": to_numpy", tol=1e-11, scale=scale * 10)
    ctx.close(A.T.to_numpy(), interleaved(transpose(D)), what + " transposed: to_numpy", tol=1e-11, scale=scale * 10)
    ctx.equal(tuple(A.shape), tuple(a * b for a, b in zip(i, o)), what + ": shape")
    tt = A.to_tt()
    ctx.close(M.dense_tt(tt.cores), interleaved(D).reshape(A.shape), what + ": to_tt", tol=1e-11, scale=scale * 10)
    for c in (2, -1.5, 0, np.float64(3), np.int64(-2)):
        check_map(ctx, A * c, D * c, i, o, what + f" * {c!r}", scale * (abs(c) or 1), 1)
        check_map(ctx, c * A, D * c, i, o, what + f", {c!r} *", scale * (abs(c) or 1), 1) if not isinstance(c, np.generic) else None
        if c:
            check_map(ctx, A / c, D / c, i, o, what + f" / {c!r}", scale / abs(c), 1)
    check_map(ctx, -A, -D, i, o, what + " negated", scale, 1)
    check_map(ctx, MPO.eye(i), eye(i), i, i, f"identity {i}", 1.0)


def eye(shape):
    n = M.prod(shape)
    return np.eye(n).reshape(tuple(shape) * 2)


def mode_op(A, shape, mode):
    """Dense operator (in..., out...) multiplying one mode by A."""
    mats = [np.eye(s) for s in shape]
    mats[mode] = A.T  # (in, out)
    D = np.array(1.0)
    for B in mats:
        D = np.multiply.outer(D, B)
    d = len(shape)
    return D.transpose(list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))


N_EXPR = 10  # number of maps in run_expr


def run_expr(case, ctx):
    """Maps as functions: nested compositions and sums over a fixed stock, every order."""
    shape = tuple(case["shape"])
    A, DA = make_mpo(shape, shape, 2, tag=1)
    B, DB = make_mpo(shape, shape, [1, 3], tag=2)
    rng = M.rng_for("expr", shape)
    P0 = rng.normal(size=(shape[0],) * 2) + 3 * np.eye(shape[0])
    P1 = rng.normal(size=(shape[-1],) * 2) + 3 * np.eye(shape[-1])
    pre0, pre1 = TTPrecond(P0, shape), TTPrecond(P1, shape, mode=len(shape) - 1)
    D0, D1 = mode_op(np.linalg.inv(P0), shape, 0), mode_op(np.linalg.inv(P1), shape, len(shape) - 1)
    E = MPO.eye(shape)
    d = len(shape)

    def comp(X, Y):  # first X then Y
        return np.tensordot(X, Y, axes=(range(d, 2 * d), range(d)))
    ops = [("A", A, DA), ("A.T", A.T, transpose(DA)), ("2B", B * 2, 2 * DB), ("-A", -A, -DA), ("eye", E, eye(shape)), ("A+B", TTLinearMapSum([A, B]), DA + DB),
           ("A+eye", TTLinearMapSum([A, E]), DA + eye(shape)), ("A+A", TTLinearMapSum([A, A]), 2 * DA), ("pre0+B", TTLinearMapSum([pre0, B]), D0 + DB),
           ("pre1", TTLinearMapSum([pre1]), D1)]
    t, X = M.build({"fmt": "tt", "shape": list(shape), "rank": 2})
    t2, X2 = M.build({"fmt": "tt", "shape": list(shape), "rank": 1, "tag": 3})
    for seq in itertools.product(range(len(ops)), repeat=case["depth"]):
        if seq[0] != case["first"]:
            continue
        for tensors, V in (([t], X), ([t, t2], X + X2), ([t, t, t2], 2 * X + X2)):
            ctx.begin((shape, V))
            scale = float(np.linalg.norm(V)) + 1e-3
            for k in seq:
                name, f, D = ops[k]
                if isinstance(f, TTLinearMapSum):
                    r = f(TensorSum(list(tensors)) if len(tensors) > 1 else tensors[0])
                    ctx.true(isinstance(r, TensorSum), name + ": no sum returned")
                    ctx.equal(tuple(r.shape), shape, name + ": shape")
                    tensors = r.tensors
                else:
                    tensors = [f(x) for x in tensors]
                V = apply(D, V)
                scale *= float(np.linalg.norm(D))
                ctx.close(sum(M.dense_tt(x.cores) for x in tensors), V, f"{[ops[j][0] for j in seq]} on {shape}", tol=1e-11, scale=scale)
                ctx.step(name, V)


def run_precond(ctx, A, label, modes_shapes):
    n = len(A)
    cond = np.linalg.cond(A)
    inv = np.linalg.inv(A)
    for shape, mode in modes_shapes:
        P = TTPrecond(A, shape, mode=mode) if mode or label.endswith("0") else TTPrecond(A, shape)
        what = f"TTPrecond({label}, {shape}, mode={mode})"
        check_map(ctx, P, mode_op(inv, shape, mode), shape, shape, what, cond * (1 + np.max(np.abs(inv))), 1)
        for spec in ({"fmt": "tt", "shape": list(shape), "rank": 3}, {"fmt": "tt", "shape": list(shape), "rank": 2, "layout": "F", "tag": 1}):
            t, X = M.build(spec)
            s = max(np.max(np.abs(X)), 1e-3) * (1 + np.max(np.abs(A))) * n
            f = P.forward_call(t)
            ctx.equal(tuple(f.shape), tuple(shape), what + " forward: shape")
            ref = apply(mode_op(A, shape, mode), X)
            ctx.close(M.dense_tt(f.cores), ref, what + ": forward map", tol=1e-11, scale=s)
            ctx.close(M.dense_tt(P(f).cores), X, what + ": inverse of forward", tol=1e-11 * cond, scale=s)
            ctx.close(M.dense_tt(P.forward_call(P(t)).cores), X, what + ": forward of inverse", tol=1e-11 * cond, scale=s)
            ctx.step("precond", ref)


def run_rank_one(case, ctx):
    """Operators of rank 1 whose cores are all the 3x3 (on each mode) and pairs of 2x2 matrices over {-1,0,1}."""
    def mat(k, n):
        return (np.array([(k // 3 ** i) % 3 for i in range(n * n)], dtype=float) - 1).reshape(n, n)
    t, X = M.build({"fmt": "tt", "shape": [3, 3], "rank": 2, "data": "int"})
    t2, X2 = M.build({"fmt": "tt", "shape": [2, 2], "rank": 2, "data": "int"})
    other = np.array([[1.0, 2, 0], [0, 1, -1], [3, 0, 2]])
    ctx.begin("rank one")
    for k in range(case["from"], case["to"]):
        B = mat(k, 3)
        for A, ref in ((MPO([B.reshape(1, 3, 3, 1), other.reshape(1, 3, 3, 1)]), B.T @ X @ other), (MPO([other.reshape(1, 3, 3, 1), B.reshape(1, 3, 3, 1)]), other.T @ X @ B)):
            ctx.comparisons += 2
            if not np.allclose(M.dense_tt(A(t).cores), ref, rtol=0, atol=1e-9):
                ctx.fail(f"operator of rank 1 with the cores {[C.reshape(3, 3).tolist() for C in A.cores]} applied to a tensor train")
            T = A.T
            if not np.array_equal(T.cores[0].reshape(3, 3), A.cores[0].reshape(3, 3).T) or not np.array_equal(T.cores[1].reshape(3, 3), A.cores[1].reshape(3, 3).T):
                ctx.close(interleaved(transpose(M.dense_mpo(A.cores))), T.to_numpy(), f"transpose of the operator of rank 1 with the cores {[C.reshape(3, 3).tolist() for C in A.cores]}", tol=1e-11)
        if k < 3 ** 8:
            B1, B2 = mat(k % 81, 2), mat(k // 81, 2)
            A = MPO([B1.reshape(1, 2, 2, 1), B2.reshape(1, 2, 2, 1)])
            ctx.comparisons += 1
            if not np.allclose(M.dense_tt(A(t2).cores), B1.T @ X2 @ B2, rtol=0, atol=1e-9):
                ctx.fail(f"operator of rank 1 with the cores {B1.tolist()}, {B2.tolist()} applied to a tensor train")
        ctx.goto(0)
        ctx.step(k, k)
        ctx.traces += 1


def rejects(ctx):
    A, _ = make_mpo((2, 3), (2, 3), 1)
    others = {"in_shape": make_mpo((3, 3), (2, 3), 1)[0], "out_shape": make_mpo((2, 3), (2, 2), 1)[0], "both": make_mpo((3, 2), (3, 2), 1)[0], "order": make_mpo((2, 3, 1), (2, 3, 1), 1)[0],
              "precond": TTPrecond(np.eye(2), (2, 2)), "last in": make_mpo((2, 2), (2, 3), 1)[0], "first out": make_mpo((2, 3), (1, 3), 1)[0]}
    ctx.begin("reject")
    for name, B in others.items():
        for maps in ([A, B], [B, A], [A, A, B], [A, B, A], [B, A, A]):
            ctx.raises(lambda: TTLinearMapSum(list(maps)), f"sum of maps with different {name}")
            ctx.step((name, len(maps)), "rejected")
    for maps in ([A, A], [A, make_mpo((2, 3), (2, 3), 3)[0], TTPrecond(np.eye(3), (2, 3), mode=1)]):
        TTLinearMapSum(maps)  # same shapes: accepted
    ctx.raises(lambda: TTLinearMapSum([]), "empty sum of maps")


def sym(n, tag):
    B = M.rng_for("sym", n, tag).normal(size=(n, n))
    return B + B.T


def run_cookie(n, ctx):
    from scripts.cookie_problem import CookieMap
    for shape in ((n, 3), (n, 2, 4), (n, 1, 3, 2)):
        maps, Ds = [], []
        for mode in range(len(shape)):
            A = sym(n, mode)
            c = M.rng_for("coeffs", shape, mode).normal(size=shape[mode])
            D = mode_op(A, shape, 0)
            if mode:
                D = np.tensordot(D, mode_op(np.diag(c), shape, mode), axes=(range(len(shape), 2 * len(shape)), range(len(shape))))
            C = CookieMap(A, mode, shape, c)
            ctx.begin((shape, mode))
            check_map(ctx, C, D, shape, shape, f"CookieMap {shape} mode {mode}", 5 * np.max(np.abs(A)) * max(1, np.max(np.abs(c))))
            maps.append(C)
            Ds.append(D)
        check_map(ctx, TTLinearMapSum(maps), sum(Ds), shape, shape, f"sum of cookie maps {shape}", 50.0)
        check_map(ctx, TTLinearMapSum(maps + [MPO.eye(shape)]), sum(Ds) + eye(shape), shape, shape, f"sum of cookie maps and identity {shape}", 50.0)


def run_problem(cookies, ctx):
    """prepare_cookie_problem on small symmetric matrices in a scratch directory."""
    from scripts import cookie_problem
    n, num = 3, 2
    mats = [sym(n, i) + 12 * np.eye(n) * (i == 0) for i in range(cookies + 1)]
    b = np.arange(1.0, n + 1)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="c18-") as tmp:
        os.mkdir(os.path.join(tmp, "data"))
        cell = np.empty(cookies + 1, dtype=object)
        for i, m in enumerate(mats):
            cell[i] = scipy.sparse.csc_matrix(m)
        k = {4: "2x2", 9: "3x3"}[cookies]
        scipy.io.savemat(os.path.join(tmp, "data", f"cookies_matrices_{k}.mat"), {"A": cell.reshape(1, -1), "b": b.reshape(-1, 1)})
        os.chdir(tmp)
        try:
            A, B, P = cookie_problem.prepare_cookie_problem(num, cookies)
            ctx.raises(lambda: cookie_problem.prepare_cookie_problem(num, 5), "5 cookies")
        finally:
            os.chdir(cwd)
    shape = (n,) + (num,) * cookies
    coeffs = np.linspace(0, 10, num)
    ctx.begin(shape)
    ctx.equal((tuple(A.in_shape), tuple(A.out_shape), tuple(B.shape), tuple(P.in_shape)), (shape,) * 4, "cookie problem: shapes")
    ref = np.multiply.outer(b, np.ones((num,) * cookies))
    ctx.close(M.dense_tt(B.cores), ref, "cookie problem: right-hand side")
    t, X = M.build({"fmt": "tt", "shape": list(shape), "rank": 2})
    Y = np.tensordot(mats[0], X, axes=(1, 0))
    for mu in range(1, cookies + 1):
        c = coeffs.reshape([-1 if k == mu else 1 for k in range(cookies + 1)])
        Y = Y + np.tensordot(mats[mu], X * c, axes=(1, 0))
    ctx.close(sum(M.dense_tt(x.cores) for x in A(t).tensors), Y, "cookie problem: operator", tol=1e-10, scale=np.max(np.abs(Y)))
    mean = mats[0] + sum(mats[mu] * coeffs.mean() for mu in range(1, cookies + 1))
    ctx.close(M.dense_tt(P.forward_call(t).cores), np.tensordot(mean, X, axes=(1, 0)), "cookie problem: preconditioner", tol=1e-10, scale=np.max(np.abs(mean)) * np.max(np.abs(X)) * n)
    ctx.step("problem", Y)


def run_case(case, ctx):
    kind = case["kind"]
    if kind == "basis":
        i, o, r, rt = BASIS_TH[case["which"]]
        ms, ts = mpo_sizes(i, o, r), tt_sizes(i, rt)
        tts = [(cs, M.dense_tt(cs)) for cs in (list(c) for c in itertools.product(*[list(one_hot(s)) for s in ts])) ]
        tts = [x for x in tts]
        for cores in itertools.product(*[list(one_hot(s)) for s in ms]):
            if int(np.argmax(cores[0])) != case["first"]:
                continue
            A, D = MPO(list(cores)), M.dense_mpo(cores)
            ctx.begin(D)
            T = A.T
            DT = transpose(D)
            ctx.comparisons += 1
            if not np.array_equal(A.to_numpy(), interleaved(D)):
                ctx.fail(f"to_numpy of one-hot operator {[int(np.argmax(c)) for c in cores]} of {ms}")
            if not np.array_equal(T.to_numpy(), interleaved(DT)):
                ctx.fail(f"transpose of one-hot operator {[int(np.argmax(c)) for c in cores]} of {ms}")
            for cs, X in tts:
                Y = A(TensorTrain(cs))
                ctx.comparisons += 1
                if not np.array_equal(M.dense_tt(Y.cores), apply(D, X)):
                    ctx.fail(f"one-hot operator {[int(np.argmax(c)) for c in cores]} of {ms} applied to one-hot tensor {[int(np.argmax(c)) for c in cs]} of {ts}")
                ctx.traces += 1
            ctx.step("basis", D)
        return
    if kind == "structured":
        i, o = tuple(case["in"]), tuple(case["out"])
        for layout, data in (("C", "gen"), ("F", "gen"), ("strided", "int"), ("neg", "gen"), ("C", "zero"), ("C", "big"), ("ro", "int"), ("C", "micro"), ("F", "giga")):
            A, D = make_mpo(i, o, case["rank"], layout, data)
            ctx.begin(D)
            check_mpo(ctx, A, D, i, o, f"MPO {i}->{o} rank {case['rank']} {layout} {data}", (float(np.max(np.abs(D))) or 1.0) * max(A.rank))
        return
    if kind == "expression":
        return run_expr(case, ctx)
    if kind == "precond":
        n = case["size"]
        for k in range(case["from"], case["to"], case["stride"]):
            A = (np.array([(k // 3 ** i) % 3 for i in range(n * n)], dtype=float) - 1).reshape(n, n)
            if abs(np.linalg.det(A)) < 0.5:
                continue
            ctx.begin(A)
            run_precond(ctx, A, str(A.tolist()), [((n, 2), 0), ((2, n), 1), ((2, n, 3), 1), ((n, n, n), 2)][:4 if n < 3 else 3])
        return
    if kind == "rank one":
        return run_rank_one(case, ctx)
    if kind == "precond generic":
        n = case["size"]
        for tag in range(6):
            A = M.rng_for("pre", n, tag).normal(size=(n, n)) * (1.0, 1e4, 1e-4)[tag % 3] + 2 * np.eye(n) * (1.0, 1e4, 1e-4)[tag % 3]
            if tag == 3:
                A = np.eye(n)[::-1] + 0.0
            if tag == 4:
                A = np.tril(A) if np.linalg.cond(np.tril(A)) < 1e4 else A
            if np.linalg.cond(A) > 1e5:
                ctx.skip("ill-conditioned")
                continue
            ctx.begin(A)
            run_precond(ctx, M._layout(A, "F" if tag % 2 else "C"), f"generic {n} {tag} 0", [((n, 2), 0), ((3, n), 1), ((2, n, 3), 1), ((1, 2, n), 2), ((2, 2, n, 2), 2), ((n, 1, n), 0)])
        return
    if kind == "reject":
        return rejects(ctx)
    if kind == "cookie problem":
        return run_problem(case["cookies"], ctx)
    run_cookie(case["size"], ctx)
