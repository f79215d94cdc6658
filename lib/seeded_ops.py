"""The alphabet of seeded operations of C07, and the driver run in fresh processes.

Each operation maps a seed to a list of arrays.  `owned` lists arrays that belong to the
returned objects; the caller may overwrite them (they must not be shared with later results).
"""
import os
import sys


def patch_cpus(n):
    if n is None:
        return
    import multiprocessing
    os.cpu_count = lambda: n
    multiprocessing.cpu_count = lambda: n
    multiprocessing.context.BaseContext.cpu_count = lambda self: n
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda pid: set(range(n))


def operations():
    import numpy as np
    from lib import model as M
    from tt_sketch import utils
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
    from tt_sketch.tensor import CPTensor, SparseTensor, TensorTrain, TuckerTensor

    ops = {}
    sh = (3, 4, 2)
    fixed = {f: M.build(M.with_shape({"fmt": f, "rank": 3}, sh))[0] for f in ("sparse", "dense", "tt", "cp", "tucker")}

    ops["tt"] = lambda s: TensorTrain.random(sh, 2, seed=s).cores
    ops["tt_varied"] = lambda s: TensorTrain.random((2, 3, 3, 2), (2, 3, 2), seed=s, trim=True).cores
    ops["tt_orthog"] = lambda s: TensorTrain.random(sh, 2, seed=s, orthog=True).cores
    ops["tt_preserve"] = lambda s: TensorTrain.random(sh, (3, 2), seed=s, norm_goal="norm-preserve").cores
    ops["cp"] = lambda s: CPTensor.random(sh, 3, seed=s).cores
    ops["tucker"] = lambda s: (lambda t: [t.core] + t.factors)(TuckerTensor.random(sh, 2, seed=s))

    def sp(s, nnz=9):
        t = SparseTensor.random(sh, nnz, seed=s)
        return [np.array(t.indices, dtype=float), t.entries]
    ops["sparse"] = sp
    ops["sparse_full"] = lambda s: sp(s, 24)
    ops["power_decay"] = lambda s: [utils.power_decay_tensor(sh, seed=s)]
    ops["normal_small"] = lambda s: [utils.random_normal((5,), seed=s)]
    ops["normal_big"] = lambda s: [utils.random_normal((7, 41), seed=s)]

    def drm(kind, right, shape=sh, rank=(3, 4), post=None):
        def f(s):
            d = M.make_drm(kind, rank, shape, right, s)
            if post == "slice":
                d = d.slice((1, 0), (3, 3))
            if post == "increase":
                d = d.increase_rank((4, 6))
            return M.drm_matrices(d, shape, right)
        return f
    for kind in M.DRMS:
        for right in (False, True):
            ops[f"drm_{kind}_{'r' if right else 'l'}"] = drm(kind, right, (7, 6, 8))
        ops[f"drm_{kind}_slice"] = drm(kind, False, (7, 6, 8), post="slice")
    for kind in ("dense", "sgauss"):
        ops[f"drm_{kind}_increase"] = drm(kind, True, (7, 6, 8), post="increase")

    def comps(sk):
        return list(sk.Psi_cores) + list(sk.Omega_mats)
    for kind in M.DRMS:
        ops[f"stream_{kind}"] = lambda s, k=kind: comps(stream_sketch(fixed["sparse"], 2, 3, seed=s, left_drm_type=M.DRMS[k]))
    for f in ("dense", "tt", "cp", "tucker"):
        ops[f"stream_{f}_default"] = lambda s, f=f: comps(stream_sketch(fixed[f], 3, 2, seed=s))
    ops["stream_update"] = lambda s: comps(stream_sketch(fixed["tt"], 2, 3, seed=s) + fixed["cp"])
    ops["stream_mixed"] = lambda s: comps(stream_sketch(fixed["sparse"], 2, 3, seed=s, left_drm_type=M.DRMS["sgauss"], right_drm_type=M.DRMS["dense"]))
    ops["orthogonal"] = lambda s: orthogonal_sketch(fixed["dense"], 2, 3, seed=s).cores
    ops["hmt"] = lambda s: hmt_sketch(fixed["tt"], 2, seed=s).cores
    ops["stream_order4"] = lambda s: comps(stream_sketch(TensorTrain.random((2, 3, 2, 2), 2, seed=1), 2, 3, seed=s))
    return ops


def big_operations():
    """Sizes at which implementations switch to another method."""
    import numpy as np
    from lib import model as M
    from tt_sketch import utils
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
    from tt_sketch.tensor import CPTensor, SparseTensor, TensorTrain, TuckerTensor
    from lib import lazy as Z
    ops = {}
    inds = np.stack([np.arange(400) * k % n for k, n in ((1, 140), (7, 33), (31, 150))])

    def sp(shape, nnz):
        def f(s):
            t = SparseTensor.random(shape, nnz, seed=s)
            return [np.array(t.indices, dtype=float), t.entries]
        return f

    def comps(sk):
        return list(sk.Psi_cores) + list(sk.Omega_mats)
    ops["sparse_wide"] = sp((300, 250, 230), 700)
    ops["sparse_long"] = sp((2**21 + 3,), 90000)
    ops["sparse_dense"] = sp((300, 301), 70000)
    ops["normal_million"] = lambda s: [utils.random_normal((1000003,), seed=s)]
    ops["normal_wide"] = lambda s: [utils.random_normal((3, 70001), seed=s)]
    ops["tt_big"] = lambda s: TensorTrain.random((70, 65, 130), (66, 129), seed=s).cores
    ops["tt_long"] = lambda s: TensorTrain.random((2,) * 70, 3, seed=s, orthog=True).cores
    ops["cp_big"] = lambda s: CPTensor.random((5000, 3, 70), 130, seed=s).cores
    ops["tucker_big"] = lambda s: (lambda t: [t.core] + t.factors)(TuckerTensor.random((300, 200), (150, 70), seed=s))
    ops["power_decay_big"] = lambda s: [utils.power_decay_tensor((70, 40, 30), seed=s)]
    for kind in M.DRMS:
        for right in (False, True):
            ops[f"drm_{kind}_{'r' if right else 'l'}_big"] = lambda s, k=kind, r=right: Z.query(M.make_drm(k, (70, 130), (140, 33, 150), r, s), (140, 33, 150), inds)
    tt = M.build({"fmt": "tt", "shape": [70, 66, 40], "rank": 12})[0]
    sparse = M.build({"fmt": "sparse", "shape": [70, 66, 40], "nnz": 3000})[0]
    ops["stream_big"] = lambda s: comps(stream_sketch(tt, 65, 70, seed=s))
    for kind in M.DRMS:
        ops[f"stream_{kind}_big"] = lambda s, k=kind: comps(stream_sketch(sparse, 33, 20, seed=s, left_drm_type=M.DRMS[k]))
    ops["orthogonal_big"] = lambda s: orthogonal_sketch(tt, 40, 70, seed=s).cores
    ops["hmt_big"] = lambda s: hmt_sketch(tt, 40, seed=s).cores
    return ops


def main():
    """argv: out file, cpu count or 0, global seed, order (fwd/rev), seeds..."""
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out, cpus, gseed, order = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    patch_cpus(cpus or None)
    from lib import target
    target.load()
    import pickle
    import random

    import numpy as np
    np.random.seed(gseed)
    random.seed(gseed)
    np.random.uniform(size=gseed % 7)
    ops = big_operations() if order.startswith("big") else operations()
    names = list(ops)
    order = order.removeprefix("big ")
    if order == "rev":
        names = names[::-1]
    res = {}
    for s in [int(x) for x in sys.argv[5:]]:
        for n in names:
            res[n, s] = [np.array(a, dtype=float) for a in ops[n](s)]
    with open(out, "wb") as f:
        pickle.dump(res, f)


if __name__ == "__main__":
    main()
