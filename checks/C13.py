"""C13: no operation changes its operands: all short histories on shared operands, with bitwise snapshots of everything alive."""
import numpy as np

from lib import model as M
from checks.C05 import trim_ref
from lib.engine import digest
from tt_sketch import utils
from tt_sketch.drm_base import DRM
from tt_sketch.sketch import SketchedTensorTrain, blocked_stream_sketch, hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tensor import CPTensor, DenseTensor, SparseTensor, Tensor, TensorSum, TensorTrain, TuckerTensor
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, round_tt_sum, tt_sum_gmres
from tt_sketch.tt_svd import tt_svd

PROPERTY = "C13"
RULE = ("all histories of operations up to the depth over a world of shared tensors of every format, sketches, DRMs, linear maps, arrays and "
        "lists: after each operation the bitwise contents of everything that existed before are compared with snapshots; then every core, "
        "factor or array slot of every result is assigned and every sum is added to in place, and the sources are compared again")
BOUNDS = {"quick": "depth 2 (second operation on the results of the first, or any other operation on the same operands), 2 layouts (C, Fortran), 2 worlds (order 3 and 2); depth 1 for 6 more worlds (order 4, dimension 1, order 7, up to 13440 entries)",
          "thorough": "depth 3 for the unary operations, 4 worlds (orders 2-4, dimension 1)"}
CASE_TIMEOUT = 800
CHUNKS = 20
WORLDS = [(3, 2, 4), (3, 2), (2, 3, 2, 2), (1, 3, 2)]


# ------------------------------------------------------------------ snapshots
def snap(o, depth=0):
    if isinstance(o, np.ndarray):
        return ("array", o.shape, o.dtype.str, np.ascontiguousarray(o).tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(x, depth + 1) for x in o])
    if isinstance(o, dict):
        return ("dict", [(repr(k), snap(v, depth + 1)) for k, v in sorted(o.items(), key=lambda kv: repr(kv[0]))])
    if isinstance(o, (int, float, complex, str, bool, type(None), np.generic, slice)):
        return repr(o)
    if depth < 8 and hasattr(o, "__dict__"):
        return (type(o).__name__, {k: snap(v, depth + 1) for k, v in vars(o).items() if not k.startswith("_")})
    return type(o).__name__


def same(old, new):
    if isinstance(old, tuple) and len(old) == 2 and isinstance(old[1], dict):
        if not (isinstance(new, tuple) and len(new) == 2 and isinstance(new[1], dict) and old[0] == new[0]):
            return False
        return all(k in new[1] and same(v, new[1][k]) for k, v in old[1].items())  # added attributes are not a change
    if isinstance(old, (tuple, list)) and old and not (isinstance(old, tuple) and old[0] == "array"):
        return isinstance(new, (tuple, list)) and len(old) == len(new) and all(same(a, b) for a, b in zip(old, new))
    return old == new


# ------------------------------------------------------------------ the world
def world(shape, layout):
    w = {}
    r = 2 if M.prod(shape) < 10000 else 19  # also cores and factors of thousands of numbers
    for f in ("dense", "sparse", "tt", "cp", "tucker"):
        w[f] = M.build({"fmt": f, "shape": list(shape), "rank": r if f != "cp" else 3 * r if r > 2 else r, "layout": layout})[0]
    w["tt2"] = M.build({"fmt": "tt", "shape": list(shape), "rank": r + 1, "tag": 1, "layout": layout})[0]
    w["turned"] = w["tt"].round().T
    w["left"] = w["tt2"].orthogonalize()
    w["sparse2"] = M.build({"fmt": "sparse", "shape": list(shape), "nnz": "one", "indform": "tuple", "tag": 2})[0]
    w["sum"] = TensorSum([w["tt"], w["sparse"]])
    w["ttsum"] = TensorSum([w["tt"], w["tt2"], w["tt"]])
    w["nested"] = TensorSum([w["sum"], w["dense"]])
    n = len(shape) - 1
    for k in M.DRMS:
        w["left_" + k] = M.make_drm(k, (2,) * n, shape, False, 3)
        w["right_" + k] = M.make_drm(k, (3,) * n, shape, True, 4)
    w["sketch"] = stream_sketch(w["sum"], (2,) * n, (3,) * n, left_drm=w["left_tt"], right_drm=w["right_tt"])
    w["sketch2"] = stream_sketch(w["sparse"], (3,) * n, (2,) * n, seed=5, left_drm_type=M.DRMS["sgauss"])
    rng = M.rng_for("c13", shape, layout)
    w["mpo"] = MPO([M._layout(rng.normal(size=(a, s, s, b)) * .1 + (np.eye(s)[None, :, :, None] if a == b else 0), layout)
                    for s, a, b in zip(shape, (1,) + (2,) * n, (2,) * n + (1,))])
    w["eye"] = MPO([M._layout(3 * np.eye(s).reshape(1, s, s, 1), layout) for s in shape])
    w["precond"] = TTPrecond(np.asarray(M._layout(rng.normal(size=(shape[-1],) * 2) + 3 * np.eye(shape[-1]), layout)), shape, mode=n)
    w["maps"] = TTLinearMapSum([w["eye"], w["mpo"]])
    w["weights"] = [2.0, -1.0]
    w["weights3"] = np.array([1.0, -0.5, 2.0])
    w["index"] = tuple(np.ascontiguousarray(i) for i in np.indices(shape).reshape(n + 1, -1))
    w["index_array"] = np.indices(shape).reshape(n + 1, -1)
    w["rank_list"] = [2] * n
    w["rank_list3"] = [3] * n
    w["rank_list5"] = [5] * n
    w["array"] = M._layout(rng.normal(size=shape), layout)
    w["matA"] = M._layout(rng.normal(size=(4, 3)), layout)
    w["matB"] = M._layout(rng.normal(size=(4, 5)), layout)
    w["matC"] = M._layout(rng.normal(size=(5, 3)), layout)
    w["matD"] = M._layout(rng.normal(size=(4, 3)), layout)
    w["blocks_l"] = [(0,) * n, (1,) * n, (2,) * n]
    w["blocks_r"] = [(0,) * n, (3,) * n]
    return w


def tensor_ops(x):
    """Unary operations on any tensor: name -> function."""
    ops = {"-": lambda: -x, "*2": lambda: x * 2.0, "*1": lambda: x * 1, "*0": lambda: x * 0.0, "3*": lambda: 3 * x, "/4": lambda: x / 4, "/1": lambda: x / 1, "T": lambda: x.T, "size": lambda: x.size}
    if isinstance(x, SketchedTensorTrain):
        return ops | {"to_tt": lambda: x.to_tt(), "to_numpy": lambda: x.to_numpy(), "C right": lambda: x.C_cores("right"), "C left": lambda: x.C_cores("left"), "norm": lambda: x.norm()}
    ops |= {"dense": lambda: x.dense(), "norm": lambda: x.norm(), "self+": lambda: x + x, "self-": lambda: x - x, "self dot": lambda: x.dot(x)}
    if not isinstance(x, DenseTensor):
        ops["to_numpy"] = lambda: x.to_numpy()
    if isinstance(x, TensorTrain):
        d = x.ndim
        ops |= {"orth": lambda: x.orthogonalize(), "round": lambda: x.round(), "round eps": lambda: x.round(eps=0.3), "round 1": lambda: x.round(max_rank=1), "svdvals": lambda: x.svdvals(),
                "round flag": lambda: x.round(orthogonalized=True), "round flag 1": lambda: x.round(eps=0.2, max_rank=1, orthogonalized=True), "T round flag": lambda: x.T.round(orthogonalized=True),
                "round orthogonalized": lambda: x.orthogonalize().round(max_rank=2, orthogonalized=True), "partial lr": lambda: x.partial_dense("lr"), "partial rl": lambda: x.partial_dense("rl"),
                "add self": lambda: x.add(x), "svd": lambda: tt_svd(x), "hmt": lambda: hmt_sketch(x, 2, seed=1), "getitem": lambda: x[0]}
    if isinstance(x, SparseTensor):
        ops |= {"split": lambda: x.split(2), "dict": lambda: x.dict, "nnz": lambda: x.nnz}
    if isinstance(x, DenseTensor):
        ops |= {"to_sparse": lambda: x.to_sparse(), "svd": lambda: tt_svd(x, 2)}
    if isinstance(x, TensorSum) and all(type(t) is TensorTrain for t in x.tensors):
        for m in ("exact", "pairwise", "sketch", "orth_sketch"):
            ops["round_sum " + m] = lambda m=m: round_tt_sum(x, 2, method=m)
        ops["round_sum eps"] = lambda: round_tt_sum(x, 4, eps=0.1, method="exact")
        ops["round_sum pairwise eps"] = lambda: round_tt_sum(x, 4, eps=0.1, method="pairwise")
    return ops


def pair_ops(w, x, nx):
    """Operations of x with the fixed elements of the world."""
    ops = {}
    n = len(x.shape) - 1
    sketched = isinstance(x, SketchedTensorTrain)
    can = set.intersection(*[M.SUPPORT[kind(D)] for D in (x.left_drm, x.right_drm)]) if sketched else set()
    same_shape = tuple(x.shape) == tuple(w["tt"].shape)
    if not same_shape:
        return ops
    for ny in ("dense", "sparse", "tt", "cp", "tucker", "sum", "sketch"):
        y = w[ny]
        if not isinstance(x, SketchedTensorTrain):
            if ny != "sketch":
                ops[f"+{ny}"] = lambda y=y: x + y
                ops[f"-{ny}"] = lambda y=y: x - y
                ops[f"{ny}+"] = lambda y=y: y + x
            else:
                ops["sketch+"] = lambda y=y: y + x
                ops["sketch-"] = lambda y=y: y - x
        elif ny != "sketch" and formats(y) <= can:
            ops[f"+{ny}"] = lambda y=y: x + y
            ops[f"-{ny}"] = lambda y=y: x - y
        ops[f"dot {ny}"] = lambda y=y: x.dot(y)
        ops[f"{ny} dot"] = lambda y=y: y.dot(x)
        ops[f"error {ny}"] = lambda y=y: x.error(y, relative=True)
        ops[f"fast error {ny}"] = lambda y=y: y.error(x, fast=True, rmse=True)
    if isinstance(x, TensorTrain):
        ops |= {"add tt2": lambda: x.add(w["tt2"]), "tt2 add": lambda: w["tt2"].add(x), "mpo": lambda: w["mpo"](x), "mpo T": lambda: w["mpo"].T(x), "maps": lambda: w["maps"](x),
                "precond": lambda: w["precond"](x), "precond forward": lambda: w["precond"].forward_call(x),
                "gmres": lambda: tt_sum_gmres(w["maps"], x, 20, maxiter=4), "gmres x0": lambda: tt_sum_gmres(w["maps"], w["tt2"], 20, x0=x, maxiter=3, precond=w["precond"]),
                "gmres done": lambda: tt_sum_gmres(w["maps"], x * 0.0, 20, x0=x, maxiter=2), "gmres none": lambda: tt_sum_gmres(w["maps"], w["tt2"], 20, x0=x, maxiter=0),
                "gmres loose": lambda: tt_sum_gmres(w["maps"], w["tt2"], 20, x0=x, tolerance=1e9),
                "gmres exact": lambda: tt_sum_gmres(w["maps"], w["tt"], 20, x0=x, maxiter=3, rounding_method="exact", save_basis=True)}
    if isinstance(x, TensorSum):
        if all(type(t) is TensorTrain for t in x.tensors):
            ops["maps"] = lambda: w["maps"](x)
        if x.num_summands == 2:
            ops["weighted"] = lambda: x * w["weights"]
        if x.num_summands == 3:
            ops["weighted"] = lambda: x * w["weights3"]
    if hasattr(x, "gather"):
        ops |= {"gather": lambda: x.gather(w["index"]), "gather array": lambda: x.gather(w["index_array"])}
    if not isinstance(x, SketchedTensorTrain):
        fm = formats(x)
        for k in M.DRMS:
            if fm <= M.SUPPORT[k]:
                l, r = w["left_" + k], w["right_" + k]
                ops[f"stream {k}"] = lambda l=l, r=r: stream_sketch(x, w["rank_list"], w["rank_list3"], left_drm=l, right_drm=r)
                if trim_ref(x.shape, (2,) * n) == (2,) * n:  # these two need DRMs of attainable ranks
                    ops[f"orthogonal {k}"] = lambda l=l, r=r: orthogonal_sketch(x, w["rank_list"], w["rank_list3"], left_drm=l, right_drm=r)
                if trim_ref(x.shape, (3,) * n) == (3,) * n:
                    ops[f"hmt {k}"] = lambda r=r: hmt_sketch(x, w["rank_list3"], drm=r)
                ops[f"stream seeded {k}"] = lambda k=k: stream_sketch(x, w["rank_list3"], w["rank_list"], seed=1, left_drm_type=M.DRMS[k])
                if hasattr(l, "slice"):
                    ops[f"blocked {k}"] = lambda l=l, r=r: blocked_stream_sketch(x, l, r, w["blocks_l"], w["blocks_r"])
                if hasattr(l, "increase_rank") and k != "tt":
                    ops[f"increase {k}"] = lambda l=l, r=r: stream_sketch(x, w["rank_list"], w["rank_list3"], left_drm=l, right_drm=r).increase_rank(x, 3, w["rank_list5"])
    elif all(hasattr(D, "increase_rank") for D in (x.left_drm, x.right_drm)) and "sparse" in can:
        lr, rr = ([6] * n, w["rank_list5"]) if x.left_rank[0] > x.right_rank[0] else (w["rank_list5"], [6] * n)
        ops["increase"] = lambda: x.increase_rank(w["sparse"], lr, rr)
    return ops


def kind(D):
    return next(k for k, c in M.DRMS.items() if type(D) is c)


def formats(x):
    if isinstance(x, TensorSum):
        return set().union(*[formats(t) for t in x.tensors])
    return {{"DenseTensor": "dense", "SparseTensor": "sparse", "TensorTrain": "tt", "CPTensor": "cp", "TuckerTensor": "tucker"}.get(type(x).__name__, "other")}


def other_ops(w):
    n = len(w["tt"].shape) - 1
    ops = {}
    for k in [k for k in w if k.startswith(("left_", "right_"))]:
        D = w[k]
        ops[f"{k}.T"] = lambda D=D: D.T
        if hasattr(D, "slice"):
            ops[f"{k}.slice"] = lambda D=D: D.slice((0,) * n, (1,) * n)
        if hasattr(D, "increase_rank"):
            ops[f"{k}.increase"] = lambda D=D: D.increase_rank((5,) * n)
        ops[f"{k} queried"] = lambda D=D: [np.array(m) for m in D.sketch_sparse(w["sparse"])]
    ops |= {
        "mpo.T": lambda: w["mpo"].T, "mpo*2": lambda: w["mpo"] * 2.0, "2*mpo": lambda: 2 * w["mpo"], "-mpo": lambda: -w["mpo"], "mpo.to_tt": lambda: w["mpo"].to_tt(), "mpo.to_numpy": lambda: w["mpo"].to_numpy(),
        "precond call": lambda: w["precond"](w["tt"]), "maps sum": lambda: w["maps"](w["ttsum"]), "TTLinearMapSum": lambda: TTLinearMapSum([w["mpo"], w["precond"]])(w["tt"]),
        "matricize": lambda: utils.matricize(w["array"], n), "matricize 2": lambda: utils.matricize(w["array"], (n, 0), mat_shape=True),
        "dematricize": lambda: utils.dematricize(utils.matricize(w["array"], n), n, w["array"].shape),
        "left_mul_pinv": lambda: utils.left_mul_pinv(w["matA"], w["matB"]), "right_mul_pinv": lambda: utils.right_mul_pinv(w["matC"], w["matA"]),
        "projector": lambda: utils.projector(w["matA"], w["matD"]), "projector 1": lambda: utils.projector(w["matA"]),
        "process rank": lambda: utils.process_tt_rank(w["rank_list3"], w["tt"].shape, trim=True), "process rank 2": lambda: utils.process_tt_rank(w["rank_list"], w["tt"].shape, trim=False),
        "trim": lambda: utils.trim_ranks(w["tt"].shape, tuple(w["rank_list3"])),
        "random tt": lambda: TensorTrain.random(w["tt"].shape, w["rank_list"], seed=1, orthog=True), "zero tt": lambda: TensorTrain.zero(w["tt"].shape, w["rank_list"]),
        "drm from list": lambda: [M.DRMS[k](w["rank_list"], w["tt"].shape, True, seed=1) for k in M.DRMS],
        "sign with nnz": lambda: M.DRMS["sign"](w["rank_list3"], w["tt"].shape, True, seed=1, num_non_zero_per_row=w["rank_list"]),
        "DenseTensor": lambda: DenseTensor(w["array"]), "power decay": lambda: utils.power_decay_tensor(w["tt"].shape, seed=3),
    }
    return ops


def first_ops(w):
    ops = {}
    for nx, x in list(w.items()):
        if isinstance(x, Tensor) and not isinstance(x, MPO):
            ops |= {f"{nx} {k}": f for k, f in tensor_ops(x).items()}
            ops |= {f"{nx} {k}": f for k, f in pair_ops(w, x, nx).items()}
    return ops | other_ops(w)


# ------------------------------------------------------------------ assigning into results
def results(o, depth=0):
    if isinstance(o, (list, tuple)) and depth < 3:
        for x in o:
            yield from results(x, depth + 1)
    elif isinstance(o, dict) and depth < 3:
        for x in o.values():
            yield from results(x, depth + 1)
    else:
        yield o


def assignments(o, w):
    """Functions that assign into a result object (explicit assignment, in-place addition)."""
    out = []
    if isinstance(o, (TensorTrain, CPTensor)):
        for i in range(len(o.cores)):
            out.append((f"[{i}] = ", lambda i=i: o.__setitem__(i, np.full(np.shape(o.cores[i]), 7.0))))
            out.append((f".cores[{i}] = ", lambda i=i: o.cores.__setitem__(i, np.full(np.shape(o.cores[i]), 8.0))))
    elif isinstance(o, MPO):
        for i in range(len(o.cores)):
            out.append((f".cores[{i}] = ", lambda i=i: o.cores.__setitem__(i, np.full(np.shape(o.cores[i]), 8.0))))
    elif isinstance(o, TuckerTensor):
        for i in range(len(o.factors)):
            out.append((f".factors[{i}] = ", lambda i=i: o.factors.__setitem__(i, np.full(np.shape(o.factors[i]), 8.0))))
        out.append((".core = ", lambda: setattr(o, "core", o.core * 0)))
    elif isinstance(o, SparseTensor):
        out.append((".entries = ", lambda: setattr(o, "entries", o.entries * 0)))
        out.append((".indices = ", lambda: setattr(o, "indices", o.indices * 0)))
    elif isinstance(o, DenseTensor):
        out.append((".data = ", lambda: setattr(o, "data", o.data * 0)))
    elif isinstance(o, TensorSum):
        add = w["sparse2"] if tuple(o.shape) == tuple(w["sparse2"].shape) else w["sparse2"].T

        def iadd(v):
            s = o
            s += v
        if tuple(o.shape) == tuple(add.shape):
            out.append((" += tensor", lambda: iadd(add)))
            out.append((" += sum", lambda: iadd(TensorSum([add, add]))))
        for t in list(o.tensors):
            pass
    elif isinstance(o, SketchedTensorTrain):
        out.append((".Psi_cores[0] = ", lambda: o.Psi_cores.__setitem__(0, o.Psi_cores[0] * 0)))
        out.append((".Psi_cores[-1] = ", lambda: o.Psi_cores.__setitem__(-1, o.Psi_cores[-1] * 0)))
        out.append((".Omega_mats[0] = ", lambda: o.Omega_mats.__setitem__(0, o.Omega_mats[0] * 0)))
    elif isinstance(o, DRM):
        for name in ("cores", "sketching_mats"):
            if hasattr(o, name) and len(getattr(o, name)):
                out.append((f".{name}[0] = ", lambda name=name: getattr(o, name).__setitem__(0, np.zeros(1))))
    return out


def is_source(o, w):
    return any(o is v for v in w.values())


def not_alias(ctx, o, sources, what):
    """A result with cores or summands is a new object: assigning to it would otherwise change its source."""
    if isinstance(o, (TensorTrain, CPTensor, TuckerTensor, MPO, TensorSum, SketchedTensorTrain)):
        ctx.true(not any(o is v for v in sources), what + " returns one of its operands itself; assigning to the result changes it")


def cases(tier):
    th = tier == "thorough"
    for s in WORLDS if th else WORLDS[:2]:
        for layout in ("C", "F"):
            for c in range(CHUNKS):
                yield {"shape": s, "layout": layout, "chunk": c, "depth": 3 if th else 2}
    for s in LARGE + ([] if th else WORLDS[2:]):
        for layout in ("C", "F") if s in LARGE[:2] else ("C",):
            for c in range(CHUNKS):
                yield {"shape": s, "layout": layout, "chunk": c, "depth": 1}


LARGE = [(70, 2, 33), (66, 67), (2,) * 7, (28, 24, 20)]


def run_case(case, ctx):
    shape = tuple(case["shape"])

    def setup():
        np.random.seed(5)
        return world(shape, case["layout"])
    w = setup()
    before = snap(w)
    names = list(first_ops(w))
    mine = names[case["chunk"]::CHUNKS]

    def changed(what, extra=()):
        now = snap(w)
        ctx.comparisons += len(w)
        if not same(before, now):
            ctx.fail(f"{what} changed {[k for k in w if not same(snap_of(before, k), snap(w[k], 1))]}")
        for o, s, label in extra:
            ctx.comparisons += 1
            if not same(s, snap(o)):
                ctx.fail(f"{what} changed the result of an earlier operation ({label})")

    start = digest("start")
    for name in mine:
        ctx.begin("start")
        r = first_ops(w)[name]()
        changed(name)
        d1 = ctx.step(name, snap(r))
        for o in results(r):
            not_alias(ctx, o, w.values(), name)
        rs = [o for o in results(r) if not is_source(o, w)]
        sr = snap(r)
        for o in rs:
            if isinstance(o, Tensor) and not isinstance(o, MPO) and case["depth"] > 1:
                second = tensor_ops(o) | pair_ops(w, o, name)
                for n2 in second:
                    r2 = second[n2]()
                    changed(f"{name} then {n2}", [(r, sr, name)])
                    ctx.goto(d1)
                    ctx.step(n2, snap(r2))
                    ctx.traces += 1
                    if case["depth"] > 2:
                        for o3 in results(r2):
                            if isinstance(o3, Tensor) and not isinstance(o3, MPO) and not is_source(o3, w):
                                sr2 = snap(r2)
                                for n3, f3 in tensor_ops(o3).items():
                                    f3()
                                    changed(f"{name} then {n2} then {n3}", [(r, sr, name), (r2, sr2, n2)])
                                    ctx.transitions.add(hash((d1, n2, n3)))
                    # assign into the second result: neither the world nor the first result changes
                    for o2 in results(r2):
                        not_alias(ctx, o2, [*w.values(), *results(r), *tensors_in(o)], f"{name} then {n2}")
                        if is_source(o2, w) or any(o2 is x for x in results(r)) or any(o2 is t for t in tensors_in(o)):
                            continue
                        for label, f in assignments(o2, w):
                            f()
                            changed(f"{name} then {n2}, result{label}", [(r, sr, name)])
    # assign into first results
    for name in mine:
        r = first_ops(w)[name]()
        for o in results(r):
            if is_source(o, w):
                continue
            for label, f in assignments(o, w):
                f()
                changed(f"{name}, result{label}")
                ctx.transitions.add(hash((start, name, label)))
                ctx.traces += 1
    # every other operation after each of mine, on the same operands, with the earlier result alive
    for name in mine[:: 2 if case["depth"] == 2 else 1]:
        r = first_ops(w)[name]()
        sr = snap(r)
        for n2, f2 in first_ops(w).items():
            if hash_pick(name, n2, 2) or case["depth"] == 1 and name.split()[0] != n2.split()[0]:
                continue
            f2()
            if not same(sr, snap(r)):
                ctx.fail(f"{n2} changed the result of {name}")
            ctx.comparisons += 1
            ctx.transitions.add(hash((start, name, "|", n2)))
        changed(f"the operations after {name}")


def tensors_in(o):
    return o.tensors if isinstance(o, TensorSum) else ()


def hash_pick(a, b, k):
    """Keep pairs whose second operation shares an operand with the first, and every k-th other pair."""
    if a.split()[0] == b.split()[0]:
        return False
    return digest((a, b)) % (4 * k) != 0


def snap_of(before, k):
    return dict(before[1])[repr(k)]
