"""Reference model: tensors with an independently computed dense value, and the
explicit matrices of a DRM.  Nothing here uses the library's own conversions.
"""
import itertools
import json
import zlib

import numpy as np

from tt_sketch.drm import (DenseGaussianDRM, SparseGaussianDRM, SparseSignDRM,
                           TensorTrainDRM)
from tt_sketch.tensor import (CPTensor, DenseTensor, SparseTensor, TensorSum,
                              TensorTrain, TuckerTensor)

DRMS = {"dense": DenseGaussianDRM, "sgauss": SparseGaussianDRM,
        "sign": SparseSignDRM, "tt": TensorTrainDRM}
# formats each DRM can sketch (as documented)
SUPPORT = {"dense": {"sparse", "dense", "tt"}, "sgauss": {"sparse"}, "sign": {"sparse"},
           "tt": {"sparse", "dense", "tt", "cp", "tucker"}}


def rng_for(*tag):
    return np.random.RandomState(zlib.crc32(json.dumps(tag, sort_keys=True, default=str).encode()))


def prod(xs):
    p = 1
    for x in xs:
        p *= int(x)
    return p


# ---------------------------------------------------------------- dense values
def dense_tt(cores):
    x = np.ones((1, 1))
    for C in cores:
        r1, n, r2 = C.shape
        x = (x.reshape(-1, r1) @ np.ascontiguousarray(C).reshape(r1, n * r2)).reshape(-1, r2)
    return x.reshape([C.shape[1] for C in cores])


def dense_mpo(cores):
    """Array of shape (in_0, ..., in_{d-1}, out_0, ..., out_{d-1})."""
    x = np.ones((1, 1))
    for C in cores:
        r1, a, b, r2 = C.shape
        x = (x.reshape(-1, r1) @ np.ascontiguousarray(C).reshape(r1, -1)).reshape(-1, r2)
    d = len(cores)
    x = x.reshape([s for C in cores for s in C.shape[1:3]])
    return x.transpose(list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))


def dense_cp(cores):
    out = np.zeros([C.shape[0] for C in cores])
    for r in range(cores[0].shape[1]):
        t = np.array(1.0)
        for C in cores:
            t = np.multiply.outer(t, C[:, r])
        out += t
    return out


def dense_tucker(core, factors):
    x = np.asarray(core)
    for i, U in enumerate(factors):
        x = np.moveaxis(np.tensordot(U, x, axes=(0, i)), 0, i)
    return x


def dense_sparse(shape, inds, entries):
    x = np.zeros(shape)
    for k in range(len(entries)):
        x[tuple(int(i[k]) for i in inds)] += entries[k]
    return x


# ---------------------------------------------------------------- building
def _vals(rng, shape, data):
    shape = tuple(int(s) for s in shape)
    x = rng.normal(size=shape)
    if data == "gen":
        return x
    if data == "int":
        return np.clip(np.round(1.5 * x), -2, 2)
    if data == "zero":
        return np.zeros(shape)
    if data == "ones":
        return np.ones(shape)
    if data == "pos":
        return np.abs(x) + 0.1
    if data == "neg":
        return -1 - np.round(2 * np.abs(x))
    if data == "big":
        return x * 1e3
    if data == "small":
        return x * 1e-3
    if data in ("micro", "giga"):  # far from 1: absolute thresholds show
        return x * (1e-12 if data == "micro" else 1e12)
    if data.startswith("hot"):
        z = np.zeros(prod(shape))
        if z.size:
            z[int(data[3:]) % z.size] = 1.0
        return z.reshape(shape)
    raise ValueError(data)


def _typed(a, dtype):
    return a if dtype is None else np.asarray(a).astype(dtype)


def _mix(arrays, spec):
    """Arrays of different types (and exactly those values): (arrays to use, their values as float64)."""
    if not spec.get("mixed"):
        return arrays, arrays
    out = [np.round(2 * a).astype(t) if np.issubdtype(np.dtype(t), np.integer) else a.astype(t) for a, t in zip(arrays, itertools.cycle(spec["mixed"]))]
    return out, [a.astype(np.float64) for a in out]


def _layout(a, layout):
    if layout in (None, "C"):
        return np.ascontiguousarray(a)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.zeros([2 * s + 1 for s in a.shape], dtype=a.dtype)
        v = b[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
        v[...] = a
        return v
    if layout == "neg":
        return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[
            tuple(slice(None, None, -1) for _ in a.shape)]
    if layout == "ro":
        b = np.array(a)
        b.setflags(write=False)
        return b
    raise ValueError(layout)


def rank_vec(rank, n):
    if isinstance(rank, (list, tuple)):
        return tuple((list(rank) * n)[:n]) if len(rank) != n else tuple(rank)
    return (rank,) * n


def share(arrays):
    """The first array of each shape, used for all of that shape."""
    first = {}
    return [first.setdefault(a.shape, a) for a in arrays]


def share_like(pattern, arrays):
    """Make arrays[i] and arrays[j] one object where pattern[i] and pattern[j] are."""
    first = {}
    return [first.setdefault(id(p), a) for p, a in zip(pattern, arrays)]


def build(spec):
    """spec -> (tensor, dense array).  Keys: fmt, shape, data, rank, layout, tag, nnz, order, itype, indform, parts."""
    fmt = spec["fmt"]
    shape = tuple(spec["shape"])
    d = len(shape)
    data = spec.get("data", "gen")
    lay = spec.get("layout")
    dt = spec.get("dtype")
    if dt is not None:
        data = spec.get("data", "int")
    rng = rng_for("tensor", fmt, shape, spec.get("rank"), spec.get("tag", 0), spec.get("nnz"))
    if fmt == "dense":
        x = _vals(rng, shape, data)
        return DenseTensor(_layout(_typed(x, dt), lay)), x
    if fmt == "sparse":
        size = prod(shape)
        nnz = spec.get("nnz", "half")
        k = {"empty": 0, "one": min(1, size), "half": (size + 1) // 2, "full": size}.get(nnz, nnz)
        k = min(int(k), size)
        flat = rng.permutation(size)[:k]
        order = spec.get("order", "perm")
        if order == "sorted":
            flat = np.sort(flat)
        elif order == "reversed":
            flat = np.sort(flat)[::-1]
        vals = _vals(rng, (k,), data)
        if spec.get("zeros") and k > 1:
            vals[0] = 0.0
        inds = np.array(np.unravel_index(flat, shape)).reshape(d, k)
        ref = dense_sparse(shape, inds, vals)
        itype = np.dtype(spec.get("itype", "int64"))
        inds = inds.astype(itype if max(shape) - 1 <= np.iinfo(itype).max else "int64")
        if spec.get("indform") == "tuple":
            inds = tuple(np.ascontiguousarray(r) for r in inds)
        elif lay == "F":
            inds = np.asfortranarray(inds)
        elif lay == "strided":
            inds = _layout(inds, None)
            b = np.zeros((d, 2 * k + 1), dtype=inds.dtype)
            b[:, 1::2] = inds
            inds = b[:, 1::2]
        ent = _layout(_typed(vals, dt), lay if lay in ("strided", "neg", "ro") else None)
        return SparseTensor(shape, inds, ent), ref
    if fmt == "tt":
        r = (1,) + rank_vec(spec.get("rank", 2), d - 1) + (1,)
        cores = [_vals(rng, (r[i], shape[i], r[i + 1]), data) / (np.sqrt(r[i]) if dt is None else 1) for i in range(d)]
        if spec.get("mixed"):
            got, cores = _mix(cores, spec)
            return TensorTrain(got), dense_tt(cores)
        if spec.get("shared"):
            cores = share(cores)
        return TensorTrain(share_like(cores, [_layout(_typed(c, dt), lay) for c in cores])), dense_tt(cores)
    if fmt == "cp":
        rank = spec.get("rank", 2)
        rank = rank if isinstance(rank, int) else max(rank)
        cores = [_vals(rng, (n, rank), data) for n in shape]
        if spec.get("mixed"):
            got, cores = _mix(cores, spec)
            return CPTensor(got), dense_cp(cores)
        if spec.get("shared"):
            cores = share(cores)
        return CPTensor(share_like(cores, [_layout(_typed(c, dt), lay) for c in cores])), dense_cp(cores)
    if fmt == "tucker":
        r = rank_vec(spec.get("rank", 2), d)
        core = _vals(rng, r, data)
        factors = [_vals(rng, (a, n), data) for a, n in zip(r, shape)]
        if spec.get("mixed"):
            got, vals = _mix([core] + factors, spec)
            return TuckerTensor(got[1:], got[0]), dense_tucker(vals[0], vals[1:])
        if spec.get("shared"):
            factors = share(factors)
        return TuckerTensor(share_like(factors, [_layout(_typed(U, dt), lay) for U in factors]), _layout(_typed(core, dt), lay)), dense_tucker(core, factors)
    if fmt == "sum":
        parts = [build(dict(p, shape=shape)) for p in spec["parts"]]
        if spec.get("repeat"):
            parts = parts + parts[:spec["repeat"]]
        ref = np.zeros(shape)
        for _, x in parts:
            ref = ref + x
        return TensorSum([t for t, _ in parts]), ref
    raise ValueError(fmt)


def formats_of(spec):
    if spec["fmt"] == "sum":
        s = set()
        for p in spec["parts"]:
            s |= formats_of(p)
        return s
    return {spec["fmt"]}


def supported(spec, *drms):
    f = formats_of(spec)
    return all(f <= SUPPORT[x] for x in drms)


def describe(spec):
    return json.dumps({k: v for k, v in spec.items()}, sort_keys=True, default=str)


# ---------------------------------------------------------------- DRMs
def make_drm(kind, rank, shape, right, seed, **kw):
    return DRMS[kind](tuple(rank), shape=tuple(shape), transpose=bool(right), seed=seed, **kw)


def full_index_tensor(shape):
    shape = tuple(shape)
    inds = np.indices(shape).reshape(len(shape), -1)
    return SparseTensor(shape, inds, np.ones(inds.shape[1]))


def same_rows(m, first):
    """Equal up to rounding (products of cores may be summed in another order)."""
    big = float(np.max(np.abs(first))) if first.size else 0.0
    return bool(np.all(np.abs(m - first) <= 1e-11 * big))


def drm_matrices(drm, shape, right):
    """Explicit matrices: left mu: rank x prod(shape[:mu+1]); right mu: rank x prod(shape[mu+1:])."""
    shape = tuple(shape)
    d = len(shape)
    mats = []
    for mu, m in enumerate(drm.sketch_sparse(full_index_tensor(shape))):
        m = np.array(m, dtype=float)
        left, rest = prod(shape[:mu + 1]), prod(shape[mu + 1:])
        m3 = m.reshape(m.shape[0], left, rest)
        if right:
            if not same_rows(m3, m3[:, :1, :]):
                raise AssertionError(f"right DRM matrix {mu} depends on the left indices")
            mats.append(m3[:, 0, :].copy())
        else:
            if not same_rows(m3, m3[:, :, :1]):
                raise AssertionError(f"left DRM matrix {mu} depends on the right indices")
            mats.append(m3[:, :, 0].copy())
    assert len(mats) == d - 1, f"DRM yields {len(mats)} matrices for order {d}"
    return mats


def ref_components(X, L, R):
    """(Psi list, Omega list) of the streaming sketch of the dense array X."""
    shape = X.shape
    d = len(shape)
    Psi, Omega = [], []
    for mu in range(d):
        a = L[mu - 1] if mu > 0 else np.ones((1, 1))
        b = R[mu] if mu < d - 1 else np.ones((1, 1))
        X3 = X.reshape(prod(shape[:mu]), shape[mu], prod(shape[mu + 1:]))
        Psi.append(np.tensordot(np.tensordot(a, X3, axes=(1, 0)), b, axes=(2, 1)))
    for mu in range(d - 1):
        Omega.append(L[mu] @ X.reshape(prod(shape[:mu + 1]), -1) @ R[mu].T)
    return Psi, Omega


def ref_scale(X, L, R):
    """Natural magnitudes of Psi/Omega, for tolerances that survive cancellation."""
    def mx(M):
        return np.max(np.abs(M).sum(axis=1)) if M.size else 0.0
    x = float(np.max(np.abs(X))) if X.size else 0.0
    d = X.ndim
    Ps = [x * (mx(L[m - 1]) if m else 1.0) * (mx(R[m]) if m < d - 1 else 1.0) for m in range(d)]
    Os = [x * mx(L[m]) * mx(R[m]) for m in range(d - 1)]
    return Ps, Os


def check_components(ctx, sk, Psi, Omega, scales, what, tol=1e-10):
    Ps, Os = scales
    ctx.equal(len(sk.Psi_cores), len(Psi), f"{what}: number of Psi cores")
    ctx.equal(len(sk.Omega_mats), len(Omega), f"{what}: number of Omega matrices")
    for m, (a, b) in enumerate(zip(sk.Psi_cores, Psi)):
        ctx.close(a, b, f"{what}: Psi[{m}]", tol=tol, scale=max(Ps[m], 1e-300))
    for m, (a, b) in enumerate(zip(sk.Omega_mats, Omega)):
        ctx.close(a, b, f"{what}: Omega[{m}]", tol=tol, scale=max(Os[m], 1e-300))


# ---------------------------------------------------------------- menus
# beyond the sizes at which an implementation might switch to another algorithm
LARGE = [(70, 2, 3), (3, 2, 70), (66, 67), (129, 2), (2, 300), (5, 6, 7, 3), (2,) * 8, (2, 70, 3), (33, 34), (3, 2) * 4]


def shapes(tier, big=True):
    out = []
    for d in (2, 3):
        out += list(itertools.product((1, 2, 3), repeat=d))
    out += list(itertools.product((1, 2), repeat=4))
    if big:
        out += [(4, 2), (2, 5), (5, 2, 4), (2, 6, 3), (4, 3, 2), (3, 1, 4, 2), (2, 4, 3, 5), (4, 1, 1, 3),
                (2, 2, 2, 2, 2), (1, 2, 1, 3, 2), (3, 2, 4, 2, 3), (17, 3), (3, 40), (2, 13, 3), (2, 1, 3, 2, 1, 2)]
    if tier == "thorough":
        out += list(itertools.product((1, 2, 3), repeat=4))
        out += list(itertools.product((1, 2), repeat=5))
        if big:
            out += [(6, 7, 5), (3, 4, 5, 6), (2, 3, 2, 3, 2, 3), (70, 2, 3), (3, 2, 70), (2, 2, 2, 2, 2, 2, 2)]
    seen, res = set(), []
    for s in out:
        if s not in seen:
            seen.add(s)
            res.append(tuple(s))
    return res


def rank_patterns(n, base=2):
    """Some structurally different rank vectors of length n."""
    pats = [(base,) * n]
    if n > 1:
        pats += [tuple(base + i for i in range(n)), tuple(base + n - 1 - i for i in range(n)),
                 tuple(base + (i % 2) * 2 for i in range(n))]
    return pats


def tensor_menu(shape, level=1):
    """Specs of structurally different tensors of a shape (format x data x layout)."""
    d = len(shape)
    s = [
        {"fmt": "dense"}, {"fmt": "sparse"}, {"fmt": "tt", "rank": [2, 3, 1, 2, 2, 2][:d - 1]},
        {"fmt": "cp", "rank": 2}, {"fmt": "tucker", "rank": [2, 3, 1, 2, 2, 2, 2][:d]},
        {"fmt": "sparse", "nnz": "empty"}, {"fmt": "sparse", "nnz": "one"},
        {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 2}, {"fmt": "sparse"}]},
        {"fmt": "sum", "parts": [{"fmt": "cp", "rank": 3}, {"fmt": "tucker", "rank": 1}, {"fmt": "dense"}]},
    ]
    if level >= 1:
        s += [
            {"fmt": "dense", "layout": "F"}, {"fmt": "dense", "layout": "strided"}, {"fmt": "dense", "data": "int"},
            {"fmt": "dense", "data": "zero"}, {"fmt": "dense", "data": "hot1"}, {"fmt": "dense", "layout": "ro"},
            {"fmt": "sparse", "nnz": "full", "order": "sorted", "indform": "tuple"},
            {"fmt": "sparse", "nnz": "full", "order": "perm", "zeros": 1}, {"fmt": "sparse", "order": "reversed", "itype": "uint8"},
            {"fmt": "sparse", "itype": "int32", "layout": "F"}, {"fmt": "sparse", "itype": "uint64", "layout": "strided"},
            {"fmt": "sparse", "data": "ones", "order": "sorted"},
            {"fmt": "tt", "rank": 1}, {"fmt": "tt", "rank": [4, 2, 5, 3, 2, 2][:d - 1], "layout": "F"},
            {"fmt": "tt", "data": "int", "rank": 3}, {"fmt": "tt", "data": "zero"}, {"fmt": "tt", "layout": "strided"},
            {"fmt": "cp", "rank": 1}, {"fmt": "cp", "rank": 5, "layout": "F"}, {"fmt": "cp", "data": "int", "rank": 3},
            {"fmt": "tucker", "rank": 1}, {"fmt": "tucker", "rank": [min(4, n) for n in shape], "layout": "F"},
            {"fmt": "tucker", "rank": [3, 1, 4, 2, 1, 3, 2][:d], "data": "int"},
            {"fmt": "sum", "parts": [{"fmt": "tt"}]},
            {"fmt": "sum", "parts": [{"fmt": "sparse"}, {"fmt": "sparse", "tag": 1, "nnz": "one"}, {"fmt": "sparse", "nnz": "empty"}]},
            {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 1}, {"fmt": "sum", "parts": [{"fmt": "dense"}, {"fmt": "tt", "rank": 3}]}]},
            {"fmt": "sum", "parts": [{"fmt": "tucker", "rank": 2}, {"fmt": "sum", "parts": [{"fmt": "cp"}, {"fmt": "sum", "parts": [{"fmt": "sparse"}]}]}]},
            {"fmt": "sum", "parts": [{"fmt": "tt", "rank": 2, "tag": i} for i in range(7)]},
            {"fmt": "sum", "parts": [{"fmt": ("sparse", "cp", "tt", "tucker", "dense")[i % 5], "tag": i, "rank": 1 + i % 3} for i in range(13)]},
            {"fmt": "sum", "parts": [{"fmt": ("tt", "cp")[i % 2], "tag": i, "rank": 1} for i in range(34)]},
            {"fmt": "dense", "data": "micro"}, {"fmt": "sparse", "data": "micro"}, {"fmt": "tt", "data": "micro"}, {"fmt": "cp", "data": "giga"}, {"fmt": "tucker", "data": "micro", "rank": 2},
            {"fmt": "sum", "parts": [{"fmt": "tt", "data": "micro"}, {"fmt": "cp", "data": "micro", "rank": 3}]},
            {"fmt": "dense", "dtype": "int64"}, {"fmt": "sparse", "dtype": "int32", "data": "neg"}, {"fmt": "tt", "dtype": "int64", "rank": 2},
            {"fmt": "cp", "shared": 1, "rank": 2}, {"fmt": "tt", "shared": 1, "rank": 2}, {"fmt": "tucker", "shared": 1, "rank": 2, "dtype": "int64"},
            {"fmt": "sum", "parts": [{"fmt": "sum", "parts": [{"fmt": "sparse", "data": "neg"}, {"fmt": "tt"}]}, {"fmt": "cp"}]},
            {"fmt": "sum", "parts": [{"fmt": "sum", "parts": [{"fmt": "tucker"}, {"fmt": "tt", "rank": 1}, {"fmt": "tt", "rank": 3}]}, {"fmt": "sum", "parts": [{"fmt": "dense"}]}, {"fmt": "sparse"}]},
            {"fmt": "sum", "parts": [{"fmt": "tt"}, {"fmt": "sparse"}, {"fmt": "cp"}], "repeat": 2},
            {"fmt": "cp", "mixed": ["int64", "float64"]}, {"fmt": "tt", "mixed": ["int64", "float64"]}, {"fmt": "cp", "rank": 3, "mixed": ["float64", "int32"]},
            {"fmt": "tucker", "mixed": ["int64", "float64", "int32"]},
        ]
    return [with_shape(x, shape) for x in s]


def with_shape(spec, shape):
    spec = dict(spec, shape=list(shape))
    if "parts" in spec:
        spec["parts"] = [with_shape(p, shape) for p in spec["parts"]]
    return spec
