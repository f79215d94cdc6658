"""C12: inner products, norms, errors and gathered entries of all pairs of formats; histories that modify entries in place."""
import itertools

import numpy as np

from lib import model as M
from lib.engine import digest
from tt_sketch.sketch import stream_sketch
from tt_sketch.tensor import SparseTensor, TensorSum, TensorTrain

PROPERTY = "C12"
RULE = ("all ordered pairs of tensors of the menu (every format, layout, value class, nested sums, sketched tensor trains) x shapes x scales: "
        "dot, @, norm, error with all 8 flag combinations against dense arrays; all index lists up to a length in all containers for gather; "
        "sums of separable tensors of orders up to 90 with up to 10^90 entries against closed formulas; "
        "all histories of queries and in-place modifications up to a depth for every format")
BOUNDS = {"quick": "34 tensors per shape (all ordered pairs), 12 shapes, 3 scale combinations; index lists of length <=2 (3 for small shapes), 48 lists of length up to 4100, 6 of up to 66000; histories of depth 5; interface matrices of every tensor train",
          "thorough": "all shapes of the menu (30+), 7 scale combinations, histories of depth 6"}
SHAPES = [(2, 3), (3, 1, 2), (2, 2, 2, 2), (1, 1), (4, 2, 3), (1, 4), (5, 1), (2, 1, 3, 2), (17, 3), (2, 2, 2, 2, 2), (3, 3, 3), (1, 2, 1)]
HIST = [{"fmt": "dense"}, {"fmt": "sparse"}, {"fmt": "sparse", "nnz": "full", "indform": "tuple"}, {"fmt": "tt"}, {"fmt": "cp"}, {"fmt": "tucker"},
        {"fmt": "sum", "parts": [{"fmt": "sparse"}, {"fmt": "tt"}]}, {"fmt": "sum", "parts": [{"fmt": "cp"}, {"fmt": "sparse"}]}]


def cases(tier):
    th = tier == "thorough"
    shapes = SHAPES if not th else list(dict.fromkeys(SHAPES + M.shapes("quick")))
    for s in shapes:
        n = len(menu(s))
        for i in range(n):
            yield {"kind": "pairs", "shape": s, "first": i, "scales": 7 if th else 3}
        yield {"kind": "gather", "shape": s, "longest": 3 if M.prod(s) <= 8 else 2}
        yield {"kind": "single", "shape": s}
    for n in ([19, 21, 64] if not th else [*range(2, 26), 31, 32, 33, 40, 62, 63, 64, 65, 90]):
        for dim in ((2, 10) if n < 64 else (2,)) if not th else (1, 2, 10):
            yield {"kind": "long", "order": n, "dim": dim}
    for s in [(2, 3), (3, 1, 2), (2, 2, 2)]:
        for i in range(len(HIST)):
            yield {"kind": "history", "shape": s, "tensor": i, "depth": 6 if th else 5}


def menu(shape):
    shape = tuple(shape)
    out = [dict(s, itype="int16") if s.get("itype") == "uint64" else s for s in M.tensor_menu(tuple(shape))]  # numpy cannot index with uint64
    few = 40 if shape in SHAPES[:1] else 20 if shape in SHAPES[:4] else 10
    out = [s for s in out if len(s.get("parts", ())) < few]
    out += [{"fmt": "sketched", "of": "tt", "shape": list(shape), "big": "left"}, {"fmt": "sketched", "of": "sum", "shape": list(shape), "big": "right"}]
    return out


def make(spec, scale=1.0):
    if spec["fmt"] == "sketched":
        base = {"tt": {"fmt": "tt", "rank": 2}, "sum": {"fmt": "sum", "parts": [{"fmt": "sparse"}, {"fmt": "cp"}]}}[spec["of"]]
        T, _ = M.build(M.with_shape(base, spec["shape"]))
        T = scale_tensor(T, scale)
        l, r = (5, 2) if spec["big"] == "left" else (2, 5)
        sk = stream_sketch(T, l, r, seed=4)
        return sk, M.dense_tt(sk.C_cores()), "sketched"
    T, X = M.build(spec)
    return scale_tensor(T, scale), X * scale, spec["fmt"]


def scale_tensor(T, c):
    """Scale without the library's arithmetic."""
    if c == 1.0:
        return T
    if isinstance(T, TensorSum):
        return TensorSum([scale_tensor(t, c) for t in T.tensors])
    name = type(T).__name__
    if name == "DenseTensor":
        return type(T)(T.data * c)
    if name == "SparseTensor":
        return type(T)(T.shape, T.indices, T.entries * c)
    if name == "TuckerTensor":
        return type(T)(list(T.factors), T.core * c)
    return type(T)([T.cores[0] * c] + list(T.cores[1:]))


def mag_of(T):
    """A bound of the size of intermediate values: the norm computed without cancellation."""
    if isinstance(T, TensorSum):
        return sum(mag_of(t) for t in T.tensors)
    name = type(T).__name__
    if name == "CPTensor":
        return float(np.linalg.norm(M.dense_cp([np.abs(C) for C in T.cores])))
    if name == "TuckerTensor":
        return float(np.linalg.norm(M.dense_tucker(np.abs(T.core), [np.abs(U) for U in T.factors])))
    if name == "SketchedTensorTrain":
        return float(np.linalg.norm(M.dense_tt([np.abs(C) for C in T.C_cores()])))
    if name == "TensorTrain":
        return float(np.linalg.norm(M.dense_tt([np.abs(C) for C in T.cores])))
    if name == "SparseTensor":
        return float(np.linalg.norm(T.entries))
    return float(np.linalg.norm(T.data))


def summands(T):
    return sum(map(summands, T.tensors)) if isinstance(T, TensorSum) else 1


def near_norm(ctx, got, want, mag, what, strict=False):
    """Norms and fast errors come from a subtraction of squares in some formats, so compare the values or their squares."""
    got = float(got)
    if np.isinf(want):
        ctx.true(got == want, f"{what}: got {got}, expected {want}")
        return
    ok = abs(got - want) <= 1e-11 * mag or not strict and abs(got * got - want * want) <= 1e-12 * mag * mag
    ctx.true(np.isfinite(got) and ok, f"{what}: got {got!r}, expected {want!r} (magnitude {mag:.3g})")


SCALES = [(1.0, 1.0), (1e40, 1e-40), (1e-60, 1e-60), (1e-3, 1e5), (1e60, 1e60), (-1.0, 1.0), (1e-75, 1e75)]


def run_case(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def run_pairs(case, ctx):
    shape = tuple(case["shape"])
    specs = menu(shape)
    size = M.prod(shape)
    for sa, sb in SCALES[:case["scales"]]:
        A, X, fa = make(specs[case["first"]], sa)
        ma = mag_of(A)
        for spec in specs if (sa, sb) == (1.0, 1.0) else specs[::3]:
            B, Y, fb = make(spec, sb)
            mb = mag_of(B)
            what = f"{M.describe(specs[case['first']])}*{sa:g} and {M.describe(spec)}*{sb:g}"
            ctx.begin((fa, fb, X, Y))
            ref = float(np.dot(X.reshape(-1), Y.reshape(-1)))
            tol = dict(tol=1e-12, scale=max(ma * mb, 1e-300))
            ctx.close(float(A.dot(B)), ref, f"dot of {what}", **tol)
            ctx.close(float(A @ B), ref, f"@ of {what}", **tol)
            ctx.close(float(B.dot(A)), ref, f"dot in the other order of {what}", **tol)
            d, nb = float(np.linalg.norm(X - Y)), float(np.linalg.norm(Y))
            zero_b = nb == 0 or nb <= 1e-13 * mb
            n = summands(A) + summands(B)
            for rel, rmse, fast in itertools.product((False, True), repeat=3):
                if n > 12 and ((rel, rmse) != (True, True) and fast or n > 40 and (fast or rmse)):
                    continue
                if rel and zero_b and nb != 0:
                    continue
                # exact zeros only: whether a cancelled norm is zero depends on rounding
                if rel and nb == 0 and mb != 0:
                    continue
                want = d
                m = ma + mb
                if rel:
                    want, m = (np.inf, 1.0) if nb == 0 else (d / nb, (ma + mb) / nb)
                    if nb != 0 and mb > 1e4 * nb:
                        continue
                if rmse:
                    want, m = want / np.sqrt(size), m / np.sqrt(size)
                others = [B] + ([Y] if case["first"] % 4 == 0 else [])
                for o in others:
                    got = A.error(o, relative=rel, rmse=rmse, fast=fast)
                    near_norm(ctx, got, want, m, f"error(relative={rel}, rmse={rmse}, fast={fast}{', array' if o is Y else ''}) of {what}", not fast)
            ctx.step("pair", [ref, d])
            ctx.close(A.to_numpy(), X, f"first tensor after the queries, {what}", tol=1e-11, scale=max(ma, 1e-300))


def run_single(case, ctx):
    shape = tuple(case["shape"])
    for spec in menu(shape):
        for c in (1.0, 1e-70, 1e70, -3.0):
            T, X, f = make(spec, c)
            m = mag_of(T)
            ctx.begin((f, X))
            n = float(np.linalg.norm(X))
            near_norm(ctx, T.norm(), n, max(m, 1e-300), f"norm of {M.describe(spec)}*{c:g}")
            near_norm(ctx, T.T.norm(), n, max(m, 1e-300), f"norm of the transpose of {M.describe(spec)}*{c:g}")
            for rel, fast in itertools.product((False, True), repeat=2):
                if rel and (n == 0) != (m == 0):
                    continue
                if rel and n != 0 and m > 1e4 * n:
                    continue
                want = np.inf if rel and n == 0 else 0.0
                near_norm(ctx, T.error(T, relative=rel, fast=fast), want, 2 * m / n if rel and n else 2 * m, f"error(relative={rel}, fast={fast}) of {M.describe(spec)}*{c:g} to itself", not fast)
                if n > 1e-4 * m and f != "sketched":  # to a slightly different one
                    near, _, _ = make(spec, c * (1 + 1e-9))
                    w = 1e-9 if rel else 1e-9 * n
                    got = float(T.error(near, relative=rel, fast=fast))
                    ctx.true(abs(got - w) <= (1e-6 if fast else 1e-12) * (m / n if rel else m), f"error(relative={rel}, fast={fast}) of {M.describe(spec)}*{c:g} to a multiple by 1+1e-9: {got!r}, expected {w!r}")
            if f == "tt":
                check_partial(ctx, T, f"{M.describe(spec)}*{c:g}")
            ctx.step("norm", n)


def check_partial(ctx, T, what):
    """Dense interface matrices of a tensor train, from the left and from the right."""
    d = len(T.shape)
    for dir in ("lr", "rl", ""):
        got = T.partial_dense(dir) if dir else T.partial_dense()
        ctx.equal(len(got), d - 1, what + f": partial_dense({dir}): number of matrices")
        for k in range(1, d):
            if dir == "rl":
                x = np.ones((1, 1))
                for C in T.cores[:d - k - 1:-1]:
                    x = np.tensordot(np.asarray(C), x, axes=(2, 0)).reshape(C.shape[0], -1)
                scale = M.prod([max(1, C.shape[2]) for C in T.cores[d - k:]]) * float(np.prod([np.max(np.abs(C)) for C in T.cores[d - k:]]))
            else:
                x = np.ones((1, 1))
                for C in T.cores[:k]:
                    x = np.tensordot(x, np.asarray(C), axes=(1, 0)).reshape(-1, C.shape[2])
                scale = M.prod([max(1, C.shape[0]) for C in T.cores[:k]]) * float(np.prod([np.max(np.abs(C)) for C in T.cores[:k]]))
            ctx.close(got[k - 1], x, what + f": partial_dense({dir})[{k - 1}]", tol=1e-12, scale=max(scale, 1e-300))


def containers(inds):
    yield "tuple", tuple(np.ascontiguousarray(r) for r in inds)
    yield "array", inds
    for dt in ("int32", "uint8", "int16"):
        yield "tuple of " + dt, tuple(r.astype(dt) for r in inds)
    yield "Fortran array", np.asfortranarray(inds)


def run_gather(case, ctx):
    shape = tuple(case["shape"])
    pos = list(np.ndindex(*shape))
    lists = [b for n in range(0, case["longest"] + 1) for b in itertools.product(pos, repeat=n)] + [pos, pos[::-1], pos[::2] + pos]
    for spec in M.tensor_menu(shape):
        T, X = M.build(spec)
        if not hasattr(T, "gather"):
            continue
        m = max(mag_of(T), 1e-300)
        ctx.begin((spec["fmt"], X))
        for k, b in enumerate(lists):
            if k > 400 and k % (len(lists) // 400) and k < len(lists) - 3:
                continue
            inds = np.array(b, dtype=np.int64).reshape(len(b), len(shape)).T
            want = X[tuple(inds)]
            for name, form in (containers(inds) if k >= len(lists) - 3 or k < 3 else list(containers(inds))[:2]):
                keep = [np.array(r) for r in form]
                for rep in range(2):
                    ctx.close(np.asarray(T.gather(form)).reshape(-1), want, f"gather of {M.describe(spec)} at {list(b)} ({name}, call {rep + 1})", tol=1e-12, scale=m)
                ctx.true(all(np.array_equal(x, y) for x, y in zip(keep, form)), "gather changed the index arrays")
            ctx.step(k, want)
        # longer lists, in every order, with repetitions
        for n in LENGTHS:
            for k, flat in enumerate(orders(n, len(pos))):
                inds = np.array(np.unravel_index(flat, shape)).reshape(len(shape), n)
                ctx.close(np.asarray(T.gather(tuple(inds))).reshape(-1), X[tuple(inds)], f"gather of {M.describe(spec)} at {n} positions (order {k})", tol=1e-12, scale=m)
                ctx.step((n, k), flat)
        if shape in SHAPES[:3] + SHAPES[8:10] and not {"layout", "repeat", "zeros", "order", "tag"} & set(spec) and spec.get("data", "gen") == "gen":
            for n in VERY_LONG:
                a = np.arange(n)
                for flat in ((a * a * 7 + a // 3 + 5) % len(pos), np.sort(a % len(pos))):
                    inds = np.array(np.unravel_index(flat, shape)).reshape(len(shape), n)
                    ctx.close(np.asarray(T.gather(tuple(inds))).reshape(-1), X[tuple(inds)], f"gather of {M.describe(spec)} at {n} positions", tol=1e-12, scale=m)
                ctx.step(n, n)
        # negative indices: the numpy entry or rejected; indices out of bounds: rejected
        ranges = [range(-n - 1, n + 1) for n in shape]
        grid = list(itertools.product(*ranges))
        for k, pos1 in enumerate(grid[:: max(1, len(grid) // 300)]):
            bad = any(i < -n or i >= n for i, n in zip(pos1, shape))
            for b in ([pos1], [(0,) * len(shape), pos1], [pos1, pos1, (n - 1 for n in shape)]):
                inds = np.array([tuple(x) for x in b], dtype=np.int64).T
                for form in (tuple(inds), inds):
                    try:
                        got = np.asarray(T.gather(form)).reshape(-1)
                    except (IndexError, ValueError):
                        ctx.true(bad or any(i < 0 for i in pos1), f"gather of {M.describe(spec)} rejects the index {pos1}")
                        continue
                    ctx.true(not bad, f"gather of {M.describe(spec)} gives {got} for an index outside the tensor: {inds.T.tolist()}")
                    ctx.close(got, X[tuple(inds)], f"gather of {M.describe(spec)} at {inds.T.tolist()}", tol=1e-12, scale=m)
            ctx.step(pos1, bad)


VERY_LONG = (10001, 20011, 66000)
LENGTHS = (7, 33, 65, 129, 257, 513, 1025, 4100)


def orders(n, size):
    """Lists of n positions: cyclic, sorted with repetitions, reversed, scattered, constant, alternating."""
    a = np.arange(n)
    yield a % size
    yield np.sort(a % size)
    yield np.sort(a % size)[::-1]
    yield (a * a * 7 + a // 3 + 5) % size
    yield np.full(n, size - 1)
    yield np.where(a % 2 == 0, 0, size - 1)


# ------------------------------------------------------------------ histories with in-place modification
def leaves(T):
    if isinstance(T, TensorSum):
        return [x for t in T.tensors for x in leaves(t)]
    return [T]


def dense(T):
    if isinstance(T, TensorSum):
        return sum(dense(t) for t in T.tensors)
    n = type(T).__name__
    if n == "DenseTensor":
        return np.array(T.data)
    if n == "SparseTensor":
        return M.dense_sparse(T.shape, T.indices, T.entries)
    if n == "TensorTrain":
        return M.dense_tt(T.cores)
    if n == "CPTensor":
        return M.dense_cp(T.cores)
    return M.dense_tucker(T.core, T.factors)


def arrays(T):
    n = type(T).__name__
    if n == "DenseTensor":
        return [T.data]
    if n == "SparseTensor":
        return [T.entries]
    if n == "TuckerTensor":
        return [T.core] + list(T.factors)
    return list(T.cores)


def assign(T, k, a):
    n = type(T).__name__
    if n == "DenseTensor":
        T.data = a
    elif n == "SparseTensor":
        T.entries = a
    elif n == "TuckerTensor":
        if k == 0:
            T.core = a
        else:
            T.factors[k - 1] = a
    elif k % 2 or not hasattr(T, "__setitem__"):
        T.cores[k] = a
    else:
        T[k] = a


def mutations(T, shape):
    """In-place and assigning modifications of a tensor's stored values."""
    first = leaves(T)[0]
    last = leaves(T)[-1]

    def one():
        a = arrays(first)[0]
        a.reshape(-1)[: 1] += 1.5

    def scale():
        a = arrays(last)[-1]
        a *= -0.5

    def replace():
        k = len(arrays(last)) - 1
        assign(last, k, arrays(last)[k] + 0.25)
    muts = {"entry": one, "scale": scale, "replace": replace}
    if isinstance(first, SparseTensor):
        def move():
            first.indices = (first.indices + 1) % np.array(shape)[:, None]
        muts["move"] = move
    if isinstance(T, TensorSum):
        extra = M.build(M.with_shape({"fmt": "sparse", "nnz": "one"}, shape))[0]

        def iadd():
            T.__iadd__(SparseTensor(extra.shape, extra.indices.copy(), extra.entries.copy()))
        muts["iadd"] = iadd
    return muts


def fresh(spec, shape):
    T, _ = M.build(M.with_shape(spec, shape))
    return T


def query(ctx, T, other, Y, what):
    X = dense(T)
    m = max(mag_of(T), 1e-300)
    ctx.close(T.to_numpy(), X, what + ": to_numpy", tol=1e-12, scale=m)
    near_norm(ctx, T.norm(), float(np.linalg.norm(X)), m, what + ": norm")
    ref = float(np.sum(X * Y))
    mm = m * max(mag_of(other), 1e-300)
    ctx.close(float(T.dot(other)), ref, what + ": dot", tol=1e-12, scale=mm)
    ctx.close(float(other.dot(T)), ref, what + ": dot in the other order", tol=1e-12, scale=mm)
    near_norm(ctx, T.error(other), float(np.linalg.norm(X - Y)), m + np.linalg.norm(Y), what + ": error")
    pos = tuple(np.indices(X.shape).reshape(X.ndim, -1))
    for t in [T] + (leaves(T) if isinstance(T, TensorSum) else []):
        if hasattr(t, "gather"):
            ctx.close(np.asarray(t.gather(pos)).reshape(-1), dense(t).reshape(-1), what + ": gather", tol=1e-12, scale=max(mag_of(t), 1e-300))
            half = tuple(p[::-2] for p in pos)
            ctx.close(np.asarray(t.gather(half)).reshape(-1), dense(t).reshape(-1)[::-2], what + ": gather of some entries", tol=1e-12, scale=max(mag_of(t), 1e-300))
    return digest(X)


def run_history(case, ctx):
    shape, spec = tuple(case["shape"]), HIST[case["tensor"]]
    other, Y = M.build(M.with_shape({"fmt": "sparse", "tag": 3, "nnz": "full"}, shape))
    names = ["query"] + list(mutations(fresh(spec, shape), shape))
    for n in range(1, case["depth"] + 1):
        for h in itertools.product(names, repeat=n):
            if h[-1] != "query" or any(a == b == "query" for a, b in zip(h, h[1:])):
                continue
            T = fresh(spec, shape)
            ctx.begin((spec["fmt"], dense(T)))
            for i, op in enumerate(h):
                if op == "query":
                    query(ctx, T, other, Y, f"{M.describe(spec)} after {h[:i]}")
                else:
                    mutations(T, shape)[op]()
                ctx.step(op, dense(T))


# ------------------------------------------------------------------ tensors far too large to be stored densely
def run_long(case, ctx):
    """Sums of separable tensors a_i^1 x ... x a_i^d: all inner products factorize over the modes."""
    d, n = case["order"], case["dim"]
    rng = np.random.RandomState(17 * d + n)
    vecs = [[v / np.linalg.norm(v) for v in rng.normal(size=(d, n))] for _ in range(3)]
    # close directions, so that the inner products do not vanish
    vecs[1] = [u + 0.3 / d * w for u, w in zip(vecs[0], vecs[1])]
    vecs[2] = [u - 0.2 / d * w for u, w in zip(vecs[0], vecs[2])]

    def inner(x, y):
        return sum(a * b * np.prod([u @ v for u, v in zip(vecs[i], vecs[j])]) for i, a in x for j, b in y)

    def tt(x):
        """Block-diagonal cores of the sum of separable tensors."""
        r = len(x)
        cores = []
        for k in range(d):
            C = np.zeros((r, n, r))
            for q, (i, a) in enumerate(x):
                C[q, :, q] = vecs[i][k] * (a if k == 0 else 1.0)
            if k == 0:
                C = C.sum(axis=0, keepdims=True)
            if k == d - 1:
                C = C.sum(axis=2, keepdims=True)
            cores.append(C)
        return TensorTrain(cores)

    def tsum(x):
        return TensorSum([tt([t]) for t in x])

    def nested(x):
        return TensorSum([tt(x[:1]), TensorSum([tt([t]) for t in x[1:]] + [tt(x), tt([(i, -a) for i, a in x])])])

    coefs = [[(1, -2.0)], [(0, 1.0), (1, 0.5)], [(2, 1.5), (1, -1.0), (0, 0.25)]]
    makers = {"tt": tt, "sum": tsum, "nested sum": nested}
    total = float(n) ** d
    for x, y in itertools.product(coefs, coefs):
        for fx, fy in itertools.product(makers, makers):
            A, B = makers[fx](x), makers[fy](y)
            ctx.begin((fx, fy, x, y, d, n))
            m = np.sqrt(sum(a * a for _, a in x) * sum(b * b for _, b in y)) * 6
            ref = inner(x, y)
            what = f"{fx} and {fy} of order {d}, dimension {n}, terms {x} and {y}"
            ctx.close(float(A.dot(B)), ref, "dot of " + what, tol=1e-10, scale=m)
            near_norm(ctx, A.norm(), np.sqrt(max(inner(x, x), 0)), m, "norm of " + what)
            diff = [(k, sum(a for i, a in x if i == k) - sum(b for i, b in y if i == k)) for k in range(3)]
            err = np.sqrt(max(inner(diff, diff), 0))
            nb = np.sqrt(inner(y, y))
            for fast in ((True, False) if fx == fy == "tt" else (True,)):
                for rel, rmse in itertools.product((False, True), repeat=2):
                    div = (nb if rel else 1.0) * (total ** 0.5 if rmse else 1.0)
                    near_norm(ctx, A.error(B, relative=rel, rmse=rmse, fast=fast) * div, err, 4 * m, f"error(relative={rel}, rmse={rmse}, fast={fast}) of {what}", not fast)
            ctx.step("long", [ref, err])
    # sparse tensors of the same shape, against tensor trains
    for k in range(1, 5):
        inds = np.array([[(7 * i + 3 * j * j + j) % n for j in range(k)] for i in range(d)])
        ents = np.arange(1.0, k + 1) * n ** (d / 2)
        S = SparseTensor((n,) * d, tuple(inds), ents)
        for x in coefs:
            T = tt(x)
            at = np.array([sum(a * np.prod([vecs[i][q][inds[q, j]] for q in range(d)]) for i, a in x) for j in range(k)])
            ctx.begin((k, x, d, n))
            m = float(np.linalg.norm(ents)) * sum(abs(a) for _, a in x)
            for got, name in ((T.dot(S), "tensor train . sparse"), (S.dot(T), "sparse . tensor train"), (TensorSum([S, T]).dot(T) - inner(x, x), "sum . tensor train")):
                ctx.close(float(got), float(at @ ents), f"{name} of order {d}, dimension {n}, {k} entries, terms {x}", tol=1e-12, scale=m)
            ctx.step("sparse", at)
