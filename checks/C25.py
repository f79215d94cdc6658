"""C25: every query's answer depends only on the values an object holds now, not on its past."""
import functools

import numpy as np

from lib import model as M
from tt_sketch import utils
from tt_sketch.sketch import SketchedTensorTrain, hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.sketch_container import SketchContainer
from tt_sketch.tensor import CPTensor, DenseTensor, SparseTensor, TensorSum, TensorTrain, TuckerTensor
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, round_tt_sum
from tt_sketch.tt_svd import tt_svd

PROPERTY = "C25"
RULE = ("for objects of every class, all histories up to the depth over {ask one group of queries, derive a new object (transpose, scale, add, round, "
        "orthogonalize, convert, enlarge), change the stored values in place, assign new values}; after each history every query is asked of the object "
        "and of a new object built by the constructor from copies of the stored arrays, and the answers are compared; tensors also with their dense value")
BOUNDS = {"quick": "12 objects x 2 shapes, all histories of length <= 2, and those of length 3 that end with a modification; 3 shapes with dimensions up to 70 or order 8, histories of length <= 2 that end with a modification",
          "thorough": "4 shapes, all histories of length <= 3, and those of length 4 that contain two modifications"}
ASSUMPTIONS = ["values are changed, not shapes and ranks (those are recorded when a tensor is made)"]
SHAPES = [(3, 2, 4), (2, 3), (2, 3, 2, 2), (2, 2)]
LARGE = [(40, 33), (70, 2, 5), (2,) * 8]
OBJECTS = {
    "dense": {"fmt": "dense"}, "sparse": {"fmt": "sparse"}, "sparse tuple": {"fmt": "sparse", "nnz": "full", "indform": "tuple", "order": "reversed"},
    "tt": {"fmt": "tt", "rank": 2}, "tt wide": {"fmt": "tt", "rank": 5, "layout": "F"}, "cp": {"fmt": "cp", "rank": 3}, "tucker": {"fmt": "tucker", "rank": 2},
    "sum": {"fmt": "sum", "parts": [{"fmt": "sparse"}, {"fmt": "tt"}, {"fmt": "cp"}]}, "ttsum": {"fmt": "sum", "parts": [{"fmt": "tt"}, {"fmt": "tt", "tag": 1, "rank": 3}]},
    "sketch": None, "sketch lazy": None, "mpo": None,
}


def cases(tier):
    th = tier == "thorough"
    for s in SHAPES if th else SHAPES[:2]:
        for o in OBJECTS:
            for first in range(len(moves_of(make(o, s)))):
                yield {"shape": s, "object": o, "first": first, "depth": 4 if th else 3}
    for s in LARGE:
        for o in OBJECTS:
            for first in range(len(moves_of(make(o, s)))):
                yield {"shape": s, "object": o, "first": first, "depth": 2}


# ------------------------------------------------------------------ objects
def make(name, shape):
    n = len(shape) - 1
    if name == "sketch":
        return stream_sketch(M.build(M.with_shape(OBJECTS["sum"], shape))[0], (2,) * n, (3,) * n, seed=5)
    if name == "sketch lazy":
        return stream_sketch(M.build(M.with_shape(OBJECTS["sparse"], shape))[0], (3,) * n, (2,) * n, seed=6, left_drm_type=M.DRMS["sgauss"], right_drm_type=M.DRMS["dense"])
    if name == "mpo":
        rng = M.rng_for("c25", shape)
        return MPO([rng.normal(size=(a, s, s, b)) for s, a, b in zip(shape, (1,) + (2,) * n, (2,) * n + (1,))])
    return M.build(M.with_shape(OBJECTS[name], shape))[0]


def copy(a):
    return np.array(a, order="K", copy=True)


def clone(x, memo=None):
    """A new object with the same stored values."""
    memo = {} if memo is None else memo
    t = type(x)
    if t is DenseTensor:
        return DenseTensor(copy(x.data))
    if t is SparseTensor:
        ind = tuple(copy(i) for i in x.indices) if isinstance(x.indices, tuple) else copy(x.indices)
        return SparseTensor(tuple(x.shape), ind, copy(x.entries))
    if t is TuckerTensor:
        return TuckerTensor([copy(U) for U in x.factors], copy(x.core))
    if t in (TensorTrain, CPTensor, MPO):
        return t([copy(C) for C in x.cores])
    if t is TensorSum:
        return TensorSum([clone(y) for y in x.tensors])
    if t is SketchedTensorTrain:
        return SketchedTensorTrain(SketchContainer([copy(P) for P in x.Psi_cores], [copy(O) for O in x.Omega_mats]), drm_clone(x.left_drm), drm_clone(x.right_drm))
    raise TypeError(t)


def drm_clone(D):
    """The DRM anew from what its constructor takes (those used here are not sliced)."""
    shape, rank = tuple(D.shape), tuple(D.rank)
    return type(D)(rank, shape=shape, transpose=D.transpose, seed=D.seed)


# ------------------------------------------------------------------ queries
@functools.lru_cache(None)
def partner(shape):
    return M.build(M.with_shape({"fmt": "sum", "parts": [{"fmt": "tt", "tag": 7}, {"fmt": "sparse", "tag": 7}]}, shape))


@functools.lru_cache(None)
def drms(shape):
    n = len(shape) - 1
    return M.make_drm("tt", (2,) * n, shape, False, 2), M.make_drm("tt", (3,) * n, shape, True, 3), M.make_drm("tt", (2,) * n, shape, True, 4)


def sketched(s):
    return [s, s.to_numpy()]


def arrays_of(o):
    """The numbers in a result, in a fixed order."""
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (int, float, np.generic)):
        return [np.asarray(o, dtype=float)]
    if isinstance(o, (list, tuple)):
        return [a for x in o for a in arrays_of(x)]
    if isinstance(o, dict):
        return [a for k in sorted(o) for a in arrays_of(list(k) if isinstance(k, tuple) else k) + arrays_of(o[k])]
    t = type(o)
    if t is DenseTensor:
        return [o.data]
    if t is SparseTensor:
        return [np.array(o.shape), np.array(o.indices), o.entries]
    if t is TuckerTensor:
        return [o.core] + list(o.factors)
    if t is TensorSum:
        return [a for x in o.tensors for a in arrays_of(x)]
    if t is SketchedTensorTrain:
        return list(o.Psi_cores) + list(o.Omega_mats) + [np.array(o.left_rank), np.array(o.right_rank), np.array(o.shape)]
    return list(o.cores)


def queries(x):
    """Groups of queries: name -> function giving numbers (or tensors, compared as stored)."""
    if isinstance(x, MPO):
        tt = M.build({"fmt": "tt", "shape": list(x.in_shape), "rank": 2})[0]
        tt2 = M.build({"fmt": "tt", "shape": list(x.out_shape), "rank": 2})[0]
        return {"apply": lambda: x(tt), "apply T": lambda: x.T(tt2), "numbers": lambda: [x.to_numpy(), x.size, list(x.rank), list(x.in_shape), list(x.out_shape)],
                "as tt": lambda: x.to_tt(), "scaled": lambda: (x * 2.0)(tt), "in a sum": lambda: TTLinearMapSum([x, x])(tt)}
    y, Y = partner(tuple(x.shape))
    shape = tuple(x.shape)
    n = len(shape) - 1
    L, R, H = drms(shape)
    two, three = L.rank, R.rank
    pos = tuple(np.ascontiguousarray(i) for i in np.indices(shape).reshape(n + 1, -1)[:, ::-1])
    q = {"values": lambda: [x.to_numpy(), x.size, list(x.shape), x.ndim], "norm": lambda: x.norm() if hasattr(x, "norm") else 0.0,
         "dot": lambda: [x.dot(y), y.dot(x), x.dot(x)], "error": lambda: [x.error(y, relative=True), y.error(x), x.error(Y, rmse=True)],
         "transpose": lambda: [x.T, x.T.to_numpy()], "scaled": lambda: [x * -2.5, (3 * x).to_numpy(), (x / 4).to_numpy()]}
    if isinstance(x, SketchedTensorTrain):
        q |= {"convert": lambda: [x.C_cores(), x.C_cores("left"), x.C_cores("right"), x.to_tt()], "components": lambda: x,
              "update": lambda: [x + M.build({"fmt": "sparse", "shape": list(shape), "tag": 9})[0]], "difference": lambda: x - M.build({"fmt": "sparse", "shape": list(shape), "tag": 9})[0]}
        if not isinstance(x.left_drm, M.DRMS["tt"]):
            k = 6
            sp = M.build({"fmt": "sparse", "shape": list(shape), "tag": 8})[0]
            l, r = (k + 1, k) if x.left_rank[0] > x.right_rank[0] else (k, k + 1)
            q["increase"] = lambda: x.increase_rank(sp, l, r)
        return q
    q |= {"sum": lambda: [x + y, (x + y).to_numpy(), (y - x).to_numpy()], "dense": lambda: x.dense(),
          "stream": lambda: sketched(stream_sketch(x, two, three, left_drm=L, right_drm=R)), "orthogonal": lambda: orthogonal_sketch(x, two, three, left_drm=L, right_drm=R), "hmt": lambda: hmt_sketch(x, two, drm=H)}
    if hasattr(x, "gather"):
        q["gather"] = lambda: [x.gather(pos), x.gather(tuple(p[::2] for p in pos))]
    if isinstance(x, TensorTrain):
        q |= {"orthogonalize": lambda: x.orthogonalize(), "svdvals": lambda: x.svdvals(), "round": lambda: [x.round(eps=0.2), x.round(max_rank=1), x.round()],
              "round orthogonalized": lambda: x.orthogonalize().round(max_rank=2, orthogonalized=True), "rank": lambda: [list(x.rank)], "partial": lambda: [x.partial_dense("lr"), x.partial_dense("rl")],
              "add": lambda: x.add(x.T.T), "tt_svd": lambda: tt_svd(x, 2), "sketch dense": lambda: stream_sketch(x, 2, 3, seed=2, left_drm_type=M.DRMS["dense"])}
    if isinstance(x, (CPTensor, TuckerTensor)):
        q["rank"] = lambda: [x.rank if isinstance(x.rank, int) else list(x.rank)]
    if isinstance(x, SparseTensor):
        q |= {"sparse": lambda: [x.nnz, x.dict, x.split(2)], "sketch lazy": lambda: [stream_sketch(x, 2, 3, seed=2, left_drm_type=M.DRMS[k], right_drm_type=M.DRMS[k]) for k in ("sgauss", "sign")]}
    if isinstance(x, DenseTensor):
        q |= {"to_sparse": lambda: x.to_sparse(), "tt_svd": lambda: tt_svd(x, 2)}
    if isinstance(x, TensorSum):
        q |= {"summands": lambda: [x.num_summands], "weighted": lambda: x * [0.5 + i for i in range(x.num_summands)]}
        if all(type(t) is TensorTrain for t in x.tensors):
            q["rounded"] = lambda: [round_tt_sum(x, 3, method=m) for m in ("exact", "pairwise")]
    return q


# ------------------------------------------------------------------ moves
def leaf(x):
    return leaf(x.tensors[-1]) if isinstance(x, TensorSum) else x


def stored(x):
    t = type(x)
    if t is DenseTensor:
        return [x.data]
    if t is SparseTensor:
        return [x.entries]
    if t is TuckerTensor:
        return [x.core] + list(x.factors)
    if t is SketchedTensorTrain:
        return list(x.Psi_cores) + list(x.Omega_mats)
    return list(x.cores)


def put(x, k, a):
    t = type(x)
    if t is DenseTensor:
        x.data = a
    elif t is SparseTensor:
        x.entries = a
    elif t is TuckerTensor:
        if k == 0:
            x.core = a
        else:
            x.factors[k - 1] = a
    elif t is SketchedTensorTrain:
        n = len(x.Psi_cores)
        if k < n:
            x.Psi_cores[k] = a
        else:
            x.Omega_mats[k - n] = a
    elif k % 2 and hasattr(x, "__setitem__"):
        x[k] = a
    else:
        x.cores[k] = a


def writable(x, k):
    a = stored(x)[k]
    if not a.flags.writeable:
        put(x, k, copy(a))
    return stored(x)[k]


def scale_first(x):
    writable(leaf(x), 0)[...] *= -1.5
    return x


def bump_last(x):
    k = len(stored(leaf(x))) - 1
    a = writable(leaf(x), k)
    a[(0,) * a.ndim] += 2.0
    return x


def assign_middle(x):
    y = leaf(x)
    k = len(stored(y)) // 2
    a = stored(y)[k]
    put(y, k, copy(a) + np.cos(np.arange(a.size)).reshape(a.shape))
    return x


def assign_zero(x):
    y = leaf(x)
    put(y, 0, 0 * stored(y)[0])
    return x


def move_entries(x):
    y = leaf(x)
    ind = tuple((i + 1) % n for i, n in zip(y.indices, y.shape))
    y.indices = ind if isinstance(y.indices, tuple) else np.array(ind)
    return x


def drop_entries(x):
    y = leaf(x)
    y.indices = tuple(i[:-1] for i in y.indices) if isinstance(y.indices, tuple) else y.indices[:, :-1]
    y.entries = y.entries[:-1]
    return x


def moves_of(x):
    """name -> (kind, function returning the object to go on with)."""
    m = {"ask " + k: ("ask", k) for k in queries(x)}
    m |= {"scale first": ("change", scale_first), "bump last": ("change", bump_last), "assign middle": ("change", assign_middle), "assign zero": ("change", assign_zero)}
    if isinstance(x, MPO):
        return m | {"T": ("derive", lambda x: x.T), "*2": ("derive", lambda x: x * 2.0)}
    m |= {"T": ("derive", lambda x: x.T), "*2": ("derive", lambda x: x * 2.0), "*0": ("derive", lambda x: x * 0.0), "-": ("derive", lambda x: -x)}
    if isinstance(x, SketchedTensorTrain):
        return m | {"+ sparse": ("derive", lambda x: x + M.build({"fmt": "sparse", "shape": list(x.shape), "tag": 1})[0])}
    if isinstance(x, TensorTrain):
        m |= {"orthogonalize": ("derive", lambda x: x.orthogonalize()), "round": ("derive", lambda x: x.round(eps=0.1)), "add": ("derive", lambda x: x.add(x)), "svd": ("derive", lambda x: tt_svd(x)),
              "hmt": ("derive", lambda x: hmt_sketch(x, 2, seed=3))}
    if isinstance(x, SparseTensor):
        m |= {"move entries": ("change", move_entries), "drop entries": ("change", drop_entries), "split": ("derive", lambda x: x.split(2).tensors[1])}
    if isinstance(x, DenseTensor):
        m |= {"to_sparse": ("derive", lambda x: x.to_sparse().dense())}
    if isinstance(x, TensorSum):
        def iadd(x):
            x += M.build({"fmt": "tt", "shape": list(x.shape), "tag": 5})[0]
            return x

        def append(x):
            x.tensors.append(M.build({"fmt": "tt", "shape": list(x.shape), "tag": 6})[0])
            return x

        def drop(x):
            if len(x.tensors) > 1:
                del x.tensors[0]
            return x

        def swap(x):
            x.tensors[0] = M.build({"fmt": "tt", "shape": list(x.shape), "tag": 8})[0]
            return x
        m |= {"iadd": ("change", iadd), "append": ("change", append), "drop": ("change", drop), "swap": ("change", swap), "+": ("derive", lambda x: x + x.tensors[0])}
    return m


# ------------------------------------------------------------------ comparison
def dense(x):
    t = type(x)
    if t is TensorSum:
        return sum(dense(y) for y in x.tensors)
    if t is DenseTensor:
        return np.array(x.data)
    if t is SparseTensor:
        return M.dense_sparse(x.shape, x.indices, x.entries)
    if t is TuckerTensor:
        return M.dense_tucker(x.core, x.factors)
    if t is CPTensor:
        return M.dense_cp(x.cores)
    if t is TensorTrain:
        return M.dense_tt(x.cores)
    return None


def compare(ctx, x, what):
    y = clone(x)
    qx, qy = queries(x), queries(y)
    got = {k: answer(qx[k]) for k in qx}
    want = {k: answer(qy[k]) for k in qy}
    for k in qx:
        a, b = got[k], want[k]
        ctx.equal(len(a), len(b), f"{what}: number of values for '{k}'")
        for i, (u, v) in enumerate(zip(a, b)):
            ctx.equal(np.shape(u), np.shape(v), f"{what}: shape of value {i} of '{k}'")
            s = float(np.max(np.abs(v))) if np.size(v) else 1.0
            ctx.close(u, v, f"{what}: value {i} of '{k}' differs from that of a new object with the same contents", tol=1e-9, scale=max(s, 1.0))
    X = dense(x)
    if X is not None:
        m = max(1.0, float(np.max(np.abs(X))) if X.size else 1.0)
        ctx.close(got["values"][0], X, what + ": values", tol=1e-11, scale=10 * m)
    return got["values" if "values" in got else "numbers"][0]


def answer(f):
    return [np.array(a) for a in arrays_of(f())]


def run_case(case, ctx):
    shape = tuple(case["shape"])
    name = case["object"]

    def replay(path):
        """The object after a history, and the moves possible then."""
        x = make(name, shape)
        for p in path:
            kind, f = moves_of(x)[p]
            if kind == "ask":
                queries(x)[f]()
            else:
                x = f(x)
        return x

    names = list(moves_of(make(name, shape)))
    stack = [[names[case["first"]]]]
    while stack:
        path = stack.pop()
        x = replay(path)
        menu = moves_of(x)
        kinds = [kind_of(p, name, shape) for p in path]
        ctx.begin((name, shape))
        for p in path[:-1]:
            ctx.step(p, p)
        v = compare(ctx, x, f"{name} of shape {shape} after {path}")
        ctx.step(path[-1], v)
        ctx.traces += 1
        n = len(path)
        if n >= case["depth"]:
            continue
        for q, (kind, _) in menu.items():
            if kind == "ask" and n + 1 == case["depth"]:
                continue  # everything is asked after each history anyway
            if kind == "ask" and kinds[-1] == "ask":
                continue  # the comparison after the shorter history asked everything
            if n + 1 == case["depth"] and (kind != "change" or (case["depth"] == 4 and "change" not in kinds)):
                continue
            stack.append(path + [q])


def kind_of(p, name, shape):
    if p.startswith("ask "):
        return "ask"
    return "change" if p in CHANGES else "derive"


CHANGES = {"scale first", "bump last", "assign middle", "assign zero", "move entries", "drop entries", "iadd", "append", "drop", "swap"}
