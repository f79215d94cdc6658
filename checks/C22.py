"""C22: constructors and test-tensor generators: shape, rank, structure, filling, size."""
import itertools

import numpy as np

from checks.C05 import trim_ref
from lib import model as M
from lib import syncpool
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.sketch_container import SketchContainer
from tt_sketch.tensor import (CPTensor, DenseTensor, SparseTensor, TensorSum,
                              TensorTrain, TuckerTensor)
from tt_sketch.tt_gmres import MPO
from tt_sketch.utils import (hilbert_tensor, power_decay_tensor, random_normal,
                             sqrt_tensor)

PROPERTY = "C22"
RULE = ("full product of shapes x rank requests x options x seeds for every constructor, every number of non-zeros from none to all, every number of "
        "random entries around multiples of the number of workers; memory handed out uninitialised is poisoned with NaN so that entries never filled "
        "show; test tensors are compared with their formulas entry by entry; sizes are recounted from the stored arrays")
BOUNDS = {"quick": "all shapes with dims<=3 of orders 2-3 and dims<=2 of order 4 plus 15 larger; 7 rank requests; 3 seeds and none; 0..300 random entries; 4 shapes of more than 2^20 entries",
          "thorough": "also dims<=3 of order 4, dims<=2 of order 5; 12 seeds; 0..3000 random entries"}

BIG = [(1024, 1025), (3, 70, 80, 90), (2048, 3, 1025), (2,) * 21]

_empty, _empty_like = np.empty, np.empty_like


def poison(a):
    if isinstance(a, np.ndarray) and a.dtype.kind in "fc":
        a.fill(np.nan)
    return a


np.empty = lambda *a, **k: poison(_empty(*a, **k))
np.empty_like = lambda *a, **k: poison(_empty_like(*a, **k))


def cases(tier):
    th = tier == "thorough"
    top = 3000 if th else 300
    for lo in range(0, top, 50):
        yield {"kind": "normal", "range": [lo, lo + 50]}
    yield {"kind": "normal2"}
    for shape in M.shapes(tier):
        yield {"kind": "shape", "shape": shape, "seeds": [0, 1, 2 ** 32 - 2, None] + (list(range(2, 10)) if th else [])}
    for shape in M.shapes(tier) + [(40, 50, 3), (9, 8, 7, 6)]:
        yield {"kind": "drm", "shape": shape, "seeds": [0, 1, 2 ** 32 - 2, None] + (list(range(2, 10)) if th else [])}
    yield {"kind": "scale"}
    for shape in BIG:
        yield {"kind": "big", "shape": shape}
    for d in (1, 2, 3, 4, 5, 6):
        for size in range(1, 8 if d < 5 else 5):
            yield {"kind": "hilbert", "d": d, "size": size}
    for shape in M.shapes(tier) + [(5,), (1,), (50, 40), (3, 100), (20, 3, 11)]:
        yield {"kind": "formula", "shape": shape}


def filled(ctx, arrays, what):
    """Finite random numbers, all different, none zero."""
    v = np.concatenate([np.asarray(a, dtype=float).ravel() for a in arrays] or [np.zeros(0)])
    ctx.true(bool(np.all(np.isfinite(v))), what + ": has entries that are not finite (never filled?)")
    ctx.true(bool(np.all(v != 0)), what + ": has zero entries (never filled?)")
    ctx.equal(len(np.unique(v)), len(v), what + ": number of different entries (repeated or unfilled parts?)")


def rank_requests(n):
    yield 1
    yield 2
    yield 5
    yield 40
    yield tuple(1 + i for i in range(n))
    yield [n + 2 - i for i in range(n)]
    yield tuple(1 + 8 * (i % 2) for i in range(n))


def vec(r, n):
    return tuple(r) if isinstance(r, (list, tuple)) else (r,) * n


def tt_like(ctx, tt, shape, rank, what):
    ctx.equal(tuple(tt.shape), shape, what + ": shape")
    ctx.equal(tuple(tt.rank), rank, what + ": rank")
    full = (1,) + rank + (1,)
    ctx.equal([tuple(C.shape) for C in tt.cores], [(full[i], shape[i], full[i + 1]) for i in range(len(shape))], what + ": core shapes")
    ctx.equal(int(tt.size), sum(full[i] * shape[i] * full[i + 1] for i in range(len(shape))), what + ": size")


def run_case(case, ctx):
    k = case["kind"]
    syncpool.use_real = k in ("normal", "normal2")
    if k == "normal":
        for n in range(*case["range"]):
            for shape in {(n,), (1, n), (n, 1)} | ({(n // 2, 2)} if n % 2 == 0 else set()) | ({(n // 3, 3, 1)} if n % 3 == 0 else set()):
                for seed in (3, None):
                    ctx.begin((shape, seed is None))
                    x = random_normal(shape=shape, seed=seed)
                    ctx.equal(tuple(x.shape), shape, f"random_normal of shape {shape} seed {seed}: shape")
                    filled(ctx, [x], f"random_normal of shape {shape} seed {seed}")
                    if seed is not None:
                        ctx.step("normal", x)
            if n:
                for t in (SparseTensor.random((n, 3), min(n, 3 * n), seed=n), SparseTensor.random((n, 3), 3 * n, seed=n)):
                    sparse_ok(ctx, t, (n, 3), len(t.entries), f"sparse ({n},3)")
        return
    if k == "normal2":
        for n in (997, 1000, 4096, 10007, 65537):
            x = random_normal(shape=(n,), seed=5)
            filled(ctx, [x], f"random_normal of {n} entries")
            ctx.true(abs(x.std() - 1) < 8 / np.sqrt(2 * n) and abs(x.mean()) < 8 / np.sqrt(n), f"random_normal of {n} entries is not standard normal: mean {x.mean()}, deviation {x.std()}")
            ctx.begin((n,))
            ctx.step("normal", x[:50])
        return
    if k == "drm":
        shape = tuple(case["shape"])
        T, X = M.build({"fmt": "sparse", "shape": list(shape)})
        for name, seed, (a, b) in itertools.product(("dense", "sgauss"), case["seeds"], ((2, 3), (7, 4))):
            ctx.begin((shape, name, X))
            what = f"{name} DRMs of a sketch of shape {shape}, ranks {a},{b}, seed {seed}"
            _, ld, rd = stream_sketch(T, a, b, seed=seed, left_drm_type=M.DRMS[name], return_drm=True)
            sides = [M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)]
            for side in sides:
                for m, mat in enumerate(side):
                    filled(ctx, [mat], f"{what}: matrix {m}")
                    n = mat.size
                    if n >= 500:
                        ctx.true(abs(mat.std() - 1) < 8 / np.sqrt(2 * n) and abs(mat.mean()) < 8 / np.sqrt(n), f"{what}: matrix {m} is not standard normal: mean {mat.mean()}, deviation {mat.std()}")
            both = [set(np.concatenate([m.ravel() for m in side]).tolist()) for side in sides]
            ctx.true(not both[0] & both[1], f"{what}: the left and right DRM share entries")
            ctx.step("drm", [m[:2, :2] for m in sides[0]] if seed is not None else 0)
        return
    if k == "big":
        shape = tuple(case["shape"])
        for nnz in (0, 1, 1000, 60000):
            for seed in (0, 5):
                t = SparseTensor.random(shape, nnz, seed=seed)
                sparse_ok(ctx, t, shape, nnz, f"sparse {shape} with {nnz} non-zeros, seed {seed}")
                flat = np.ravel_multi_index(tuple(np.asarray(i).astype(np.int64) for i in t.indices), shape)
                if nnz == 60000:  # spread over everything (8 standard errors)
                    n = M.prod(shape)
                    ctx.true(abs(flat.mean() / n - 0.5) < 8 / np.sqrt(12 * nnz), f"sparse {shape}: mean position {flat.mean()} of {n}")
                    for ax, i in enumerate(t.indices):
                        h = np.bincount(np.asarray(i).astype(np.int64), minlength=shape[ax])
                        e = nnz / shape[ax]
                        ctx.true(len(h) == shape[ax] and (e < 1 or bool(np.all(np.abs(h - e) < 9 * np.sqrt(e) + 9))), f"sparse {shape}: index values along axis {ax} not spread: {h[:4]} for expected {e}")
                ctx.begin((shape, nnz, seed))
                ctx.step("big", t.entries[:20])
        return
    if k == "scale":
        # variances as documented (8 standard errors)
        def dev(x, sigma, what):
            x = np.asarray(x)
            ctx.true(abs(x.std() / sigma - 1) < 8 / np.sqrt(2 * x.size), f"{what}: deviation {x.std():.4g}, documented {sigma:.4g}")
        for shape, rank in (((30, 40, 50), (20, 25)), ((200, 100), (7,)), ((9, 60, 70, 8), (9, 30, 8))):
            full = (1,) + rank + (1,)
            ctx.begin((shape, rank))
            for orthog in (False, True):
                tt = TensorTrain.random(shape, rank, seed=3, orthog=orthog)
                for i, C in enumerate(tt.cores):
                    if not orthog or i == len(shape) - 1:
                        dev(C, 1 / np.sqrt(full[i] * shape[i]), f"TensorTrain.random {shape} {rank} orthog={orthog} core {i}")
            tt = TensorTrain.random(shape, rank, seed=3, norm_goal="norm-preserve")
            for i, C in enumerate(tt.cores):
                dev(C, 1 / np.sqrt(full[i]), f"TensorTrain.random {shape} {rank} norm-preserve core {i}")
            cp = CPTensor.random(shape, 30, seed=3)
            for i, C in enumerate(cp.cores):
                dev(C, 1 / np.sqrt(shape[i]), f"CPTensor.random {shape} core {i}")
            dev(TuckerTensor.random(shape, 8, seed=3).core, 1.0, f"TuckerTensor.random {shape} core")
            dev(SparseTensor.random(shape, 5000, seed=3).entries, 1.0, f"SparseTensor.random {shape}")
            dev(DenseTensor.random(shape[:3]).data, 1.0, f"DenseTensor.random {shape}")
            ctx.step("scale", shape)
        return
    if k == "hilbert":
        d, n = case["d"], case["size"]
        ref = 1.0 / (np.indices((n,) * d).sum(axis=0) + 1)
        ctx.begin((d, n))
        ctx.close(hilbert_tensor(d, n), ref, f"hilbert_tensor({d},{n})", tol=1e-14)
        ctx.step("hilbert", ref)
        return
    shape = tuple(case["shape"])
    d = len(shape)
    ctx.begin((shape,))
    if k == "formula":
        for a, b in ((-0.2, 2), (-1, 1), (0.5, 3), (2, -1), (1, 1)):
            ref = np.zeros(shape)
            for idx in itertools.product(*map(range, shape)):
                ref[idx] = np.sqrt(abs(sum(a + (b - a) * i / (n - 1) if n > 1 else a for i, n in zip(idx, shape))))
            nr = np.linalg.norm(ref)
            if nr < 1e-6 * np.sqrt(ref.size):
                continue
            got = sqrt_tensor(shape, a, b) if (a, b) != (-0.2, 2) else sqrt_tensor(shape)
            ctx.close(got, ref / nr, f"sqrt_tensor({shape},{a},{b})", tol=1e-6, scale=1.0)
            # away from the (square-root) singularity at 0 the formula is well conditioned
            sel = ref > 1e-3
            ctx.close(got[sel], (ref / nr)[sel], f"sqrt_tensor({shape},{a},{b})", tol=1e-10, scale=1.0)
            ctx.step("sqrt", ref)
        for p, seed in itertools.product((2.0, 1.0, 0.5, 4.0, 3), (0, 5, 2 ** 32 - 1)):
            got = power_decay_tensor(shape, p, seed) if p != 2.0 else power_decay_tensor(shape, seed=seed)
            what = f"power_decay_tensor({shape},{p},{seed})"
            ctx.equal(tuple(got.shape), shape, what + ": shape")
            ctx.true(bool(np.all(np.isfinite(got))), what + ": not finite")
            for m in range(d):  # exact bound for the mode treated last; the others interact (measured over all shapes: factor <= 1.13)
                s = np.linalg.svd(np.moveaxis(got, m, 0).reshape(shape[m], -1), compute_uv=False)
                if m == d - 1 or d == 2:
                    ctx.close(s[0], 1.0, what + f": largest singular value of unfolding {m}", tol=1e-10, scale=1.0)
                slack = (1 + 1e-9) * s[0] if m == d - 1 or d == 2 else 2 * s[0]
                ctx.true(bool(np.all(s <= slack / np.arange(1, len(s) + 1.0) ** p)), what + f": unfolding {m} does not decay: {s}")
            ctx.equal(np.array_equal(got, power_decay_tensor(shape, p, seed)), True, what + ": not a function of the seed")
            ctx.step("decay", got)
        if M.prod(shape) > 3:
            ctx.true(not np.allclose(power_decay_tensor(shape, 0.5, 1), power_decay_tensor(shape, 0.5, 2)) or max(shape) == 1, f"power_decay_tensor({shape}): same tensor for different seeds")
        return
    total = M.prod(shape)
    for seed in case["seeds"]:
        for rank in rank_requests(d - 1):
            v = vec(rank, d - 1)
            for orthog, trim, goal in itertools.product((False, True), (None, True, False), ("norm-1", "norm-preserve")):
                what = f"TensorTrain.random({shape},{rank},seed={seed},orthog={orthog},trim={trim},{goal})"
                if orthog and trim is False:
                    ctx.raises(lambda: TensorTrain.random(shape, rank, seed=seed, orthog=True, trim=False), what)
                    continue
                kw = {} if trim is None else {"trim": trim}
                tt = TensorTrain.random(shape, rank, seed=seed, orthog=orthog, norm_goal=goal, **kw)
                tt_like(ctx, tt, shape, trim_ref(shape, v) if (trim or orthog) else v, what)
                if orthog:
                    for C in tt.cores[:-1]:
                        A = C.reshape(-1, C.shape[2])
                        ctx.close(A.T @ A, np.eye(A.shape[1]), what + ": cores not orthonormal", tol=1e-12, scale=1.0)
                    filled(ctx, [C for C in tt.cores if not (C.shape[0] * C.shape[1] == C.shape[2] == 1)][-1:], what)
                else:
                    filled(ctx, tt.cores, what)
                if seed is not None:
                    ctx.step(("tt", str(rank), orthog, trim, goal), list(tt.cores))
            z = TensorTrain.zero(shape, rank if not isinstance(rank, list) else tuple(rank))
            tt_like(ctx, z, shape, v, f"TensorTrain.zero({shape},{rank})")
            ctx.true(all(not np.any(C) and C.dtype == np.float64 for C in z.cores), f"TensorTrain.zero({shape},{rank}) is not zero")
        ctx.raises(lambda: TensorTrain.random(shape, 2, seed=seed, norm_goal="norm"), "unknown norm goal")
        for rank in (1, 2, 3, 7):
            cp = CPTensor.random(shape, rank, seed=seed)
            what = f"CPTensor.random({shape},{rank},{seed})"
            ctx.equal((tuple(cp.shape), cp.rank), (shape, rank), what)
            ctx.equal([tuple(C.shape) for C in cp.cores], [(n, rank) for n in shape], what + ": core shapes")
            ctx.equal(int(cp.size), rank * sum(shape), what + ": size")
            filled(ctx, cp.cores, what)
        for rank in (1, 2, 4, tuple(1 + (i * 2) % 5 for i in range(d)), [3 - i % 3 for i in range(d)], shape):
            tk = TuckerTensor.random(shape, rank, seed=seed)
            what = f"TuckerTensor.random({shape},{rank},{seed})"
            exp = tuple(min(r, n) for r, n in zip(vec(rank, d), shape))
            ctx.equal((tuple(tk.shape), tuple(tk.rank)), (shape, exp), what)
            ctx.equal(tuple(tk.core.shape), exp, what + ": core shape")
            ctx.equal([tuple(U.shape) for U in tk.factors], list(zip(exp, shape)), what + ": factor shapes")
            for U in tk.factors:
                ctx.close(U @ U.T, np.eye(U.shape[0]), what + ": factor rows not orthonormal", tol=1e-12, scale=1.0)
            ctx.equal(int(tk.size), M.prod(exp) + sum(r * n for r, n in zip(exp, shape)), what + ": size")
            filled(ctx, [tk.core], what)
            ctx.close(tk.to_numpy(), M.dense_tucker(tk.core, tk.factors), what + ": value")
        for nnz in sorted(set(range(0, min(total, 10) + 1)) | {total // 2, max(0, total - 1), total}):
            t = SparseTensor.random(shape, nnz, seed=seed)
            sparse_ok(ctx, t, shape, nnz, f"SparseTensor.random({shape},{nnz},{seed})")
    for _ in range(2):
        t = DenseTensor.random(shape)
        ctx.equal((tuple(t.shape), int(t.size), tuple(t.data.shape)), (shape, total, shape), f"DenseTensor.random({shape})")
        filled(ctx, [t.data], f"DenseTensor.random({shape})")
    out = shape[::-1]
    for rank in rank_requests(d - 1):
        for o in (shape, out, (2,) * d):
            m = MPO.random(rank, shape, o)
            what = f"MPO.random({rank},{shape},{o})"
            full = (1,) + trim_ref(tuple(a * b for a, b in zip(shape, o)), vec(rank, d - 1)) + (1,)
            ctx.equal((tuple(m.in_shape), tuple(m.out_shape), tuple(m.rank)), (shape, o, full[1:-1]), what)
            ctx.equal([tuple(C.shape) for C in m.cores], [(full[i], shape[i], o[i], full[i + 1]) for i in range(d)], what + ": core shapes")
            ctx.equal(int(m.size), sum(C.size for C in m.cores), what + ": size")
            for C in m.cores:
                ctx.true(bool(np.all(np.isfinite(C)) and np.all(C != 0)), what + ": unfilled entries")
                if o == shape:
                    ctx.close(C.transpose(0, 2, 1, 3), C, what + ": cores not symmetric", tol=1e-13)
    m = MPO.eye(shape)
    ctx.equal((tuple(m.in_shape), tuple(m.out_shape), tuple(m.rank), int(m.size)), (shape, shape, (1,) * (d - 1), sum(n * n for n in shape)), f"MPO.eye({shape})")
    if total <= 100:
        ctx.close(M.dense_mpo(m.cores).reshape(total, total), np.eye(total), f"MPO.eye({shape})", tol=1e-14)
    # sizes of everything else
    for lv, rv in (((1,) * (d - 1), (2,) * (d - 1)), (tuple(range(1, d)), tuple(range(3, d + 2)))):
        z = SketchContainer.zero(shape, lv, rv)
        ctx.equal((tuple(z.shape), tuple(z.left_rank), tuple(z.right_rank)), (shape, lv, rv), f"SketchContainer.zero({shape},{lv},{rv})")
        ctx.equal([tuple(P.shape) for P in z.Psi_cores], [((1,) + lv)[i:i + 1] + (shape[i],) + (rv + (1,))[i:i + 1] for i in range(d)], "SketchContainer.zero: Psi")
        ctx.equal([tuple(P.shape) for P in z.Omega_mats], list(zip(lv, rv)), "SketchContainer.zero: Omega")
        ctx.true(not any(np.any(P) for P in list(z.Psi_cores) + list(z.Omega_mats)), "SketchContainer.zero is not zero")
    for spec in M.tensor_menu(shape):
        T, X = M.build(spec)
        what = "size of " + M.describe(spec)
        ctx.equal(tuple(T.shape), shape, what + ": shape")
        ctx.equal(int(T.ndim), d, what + ": ndim")
        ctx.equal(int(T.size), size_ref(T), what)
        if isinstance(T, TensorSum):
            ctx.equal(int(T.num_summands), len(T.tensors), what + ": number of summands")
            ctx.equal(int(T.T.size), size_ref(T), what + " transposed")
            ctx.equal(int((T * 2.0).size), size_ref(T), what + " scaled")
        if M.supported(spec, "tt"):
            sk = stream_sketch(T, 2, 4, seed=1)
            ctx.equal(int(sk.size), sum(a.size for a in list(sk.Psi_cores) + list(sk.Omega_mats)), what + ": streaming sketch")
            ctx.equal(int((sk + T).size), int(sk.size), what + ": updated sketch")
            for tt in (orthogonal_sketch(T, 2, 4, seed=1), hmt_sketch(T, 2, seed=1), sk.to_tt()):
                ctx.equal(int(tt.size), sum(a.size for a in tt.cores), what + ": sketched tensor train")
    ctx.traces += 1


def size_ref(T):
    if isinstance(T, TensorSum):
        return sum(size_ref(t) for t in T.tensors)
    if isinstance(T, SparseTensor):
        return len(T.entries) * (len(T.shape) + 1)
    if isinstance(T, DenseTensor):
        return M.prod(T.shape)
    if isinstance(T, TuckerTensor):
        return T.core.size + sum(U.size for U in T.factors)
    return sum(C.size for C in T.cores)


def sparse_ok(ctx, t, shape, nnz, what):
    ctx.equal((tuple(t.shape), int(t.nnz), len(t.entries)), (shape, nnz, nnz), what + ": shape, non-zeros")
    ctx.equal(int(t.size), nnz * (len(shape) + 1), what + ": size")
    inds = np.array([np.asarray(i) for i in t.indices]).reshape(len(shape), nnz)
    ctx.true(bool(np.all(inds >= 0)) and all(bool(np.all(i < n)) for i, n in zip(inds, shape)), what + ": index out of range")
    ctx.equal(len({tuple(c) for c in inds.T.tolist()}), nnz, what + ": distinct positions")
    filled(ctx, [t.entries], what)
