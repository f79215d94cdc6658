"""C08: all interleavings (within preemption bounds) of the random generator's workers and of user threads."""
import os

import numpy as np

from lib import model as M
from lib import sched
from lib.engine import Violation
from tt_sketch import utils
from tt_sketch.sketch import blocked_stream_sketch, hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tensor import CPTensor, SparseTensor, TensorTrain, TuckerTensor

PROPERTY = "C08"
RULE = ("stateless model checking of the real code under a deterministic scheduler: every package source line, submit, wait, lock "
        "and thread start is a scheduling point; all schedules with at most p preemptions and r non-default choices at blocking points; "
        "each schedule's results are compared with the sequential ones; uninitialised memory is poisoned with a sentinel")
BOUNDS = {"quick": "random generator: every number of entries 0..26, 33, 64 with 1 preemption and 1 (for 3, 8, 9, 17: 2) non-default choices of the next "
                   "thread; with 1-4 workers: all orders and 1 preemption (2 for 1-2 workers); user threads: 21 two-thread and 2 three-thread harnesses, "
                   "1 preemption (2 for drm_dense_2, drm_sgauss_sign), the generator's pool running inline except in random_same",
          "thorough": "more entries; 2 preemptions for 1-4 workers and for most harnesses (up to 40000 schedules each, then reported as truncated)"}
CASE_TIMEOUT = 3000
CHUNK = 1
POISON = 1.2345e300
sh2, sh3 = (3, 4), (2, 3, 2)


# ------------------------------------------------------------------ harnesses: name -> () -> list of thunks
def comps(sk):
    return list(sk.Psi_cores) + list(sk.Omega_mats)


def T(fmt, shape=sh3, **kw):
    return M.build(M.with_shape(dict({"fmt": fmt, "rank": 2}, **kw), shape))[0]


def h_drm(kind, shape, seeds):
    def make():
        return [lambda s=s, r=r: M.drm_matrices(M.make_drm(kind, (2,) * (len(shape) - 1), shape, r, s), shape, r) for s, r in seeds]
    return make


def h_random_sparse():
    return [lambda s=s: (lambda t: [np.array(t.indices, float), t.entries])(SparseTensor.random(sh2, 5, seed=s)) for s in (1, 2)]


def h_random_formats():
    return [lambda: TensorTrain.random(sh3, 2, seed=1).cores + CPTensor.random(sh2, 2, seed=2).cores,
            lambda: (lambda t: [t.core] + t.factors)(TuckerTensor.random(sh2, 2, seed=3)) + TensorTrain.random(sh2, 2, seed=4, orthog=True).cores]


def h_shared_drms(kind, fmts, shape=sh2):
    def make():
        n = len(shape) - 1
        ld, rd = M.make_drm(kind, (2,) * n, shape, False, 1), M.make_drm(kind, (3,) * n, shape, True, 2)
        ts = [T(f, shape) for f in fmts]
        return [lambda t=t: comps(stream_sketch(t, (2,) * n, (3,) * n, left_drm=ld, right_drm=rd)) for t in ts]
    return make


def h_shared_tensor(fmt, shape=sh2):
    def make():
        n = len(shape) - 1
        t = T(fmt, shape)
        drms = [(M.make_drm("tt", (2,) * n, shape, False, s), M.make_drm("tt", (3,) * n, shape, True, s + 1)) for s in (1, 5)]
        return [lambda d=d: comps(stream_sketch(t, (2,) * n, (3,) * n, left_drm=d[0], right_drm=d[1])) for d in drms]
    return make


def h_seeded_sketches():
    t, u = T("sparse", sh2), T("dense", sh2)
    return [lambda: comps(stream_sketch(t, 2, 3, seed=1, left_drm_type=M.DRMS["dense"])),
            lambda: comps(stream_sketch(u, 2, 3, seed=2, left_drm_type=M.DRMS["dense"]))]


def h_unseeded():
    """An unseeded construction in one thread must not disturb a seeded one in another."""
    t = T("sparse", sh2)

    def other():
        M.make_drm("dense", (2,), sh2, False, None)
        SparseTensor.random(sh2, 3)
        return []
    return [lambda: comps(stream_sketch(t, 2, 3, seed=1, left_drm_type=M.DRMS["dense"])) + SparseTensor.random(sh2, 4, seed=6).entries.tolist(), other]


def h_update():
    t = T("tt", sh2)
    sk = stream_sketch(t, 2, 3, seed=1)
    u, v = T("sparse", sh2), T("cp", sh2)
    return [lambda: comps(sk + u), lambda: comps((sk + v).T)]


def h_orth_hmt():
    t = T("tt", sh2)
    ld, rd = M.make_drm("tt", (2,), sh2, False, 1), M.make_drm("tt", (3,), sh2, True, 2)
    return [lambda: orthogonal_sketch(t, 2, 3, left_drm=ld, right_drm=rd).cores, lambda: hmt_sketch(t, 3, drm=rd).cores]


def h_blocked():
    t = T("sparse", sh2)
    ld, rd = M.make_drm("sgauss", (2,), sh2, False, 1), M.make_drm("sgauss", (3,), sh2, True, 2)
    return [lambda: comps(blocked_stream_sketch(t, ld, rd, [(0,), (1,), (2,)], [(0,), (3,)])),
            lambda: comps(stream_sketch(t, 2, 3, left_drm=ld, right_drm=rd).increase_rank(t, 3, 4))]


def h_queries():
    a, b = T("sparse", sh2), T("tt", sh2)
    s = M.TensorSum([a, b])
    return [lambda: [s.norm(), a.dot(b), b.norm()], lambda: [s.to_numpy(), b.dot(a), a.dot(a), (s * 2.0).to_numpy(), a.T.dot(b.T)]]


def h_rounding():
    b = T("tt", sh2)
    return [lambda: [b.round(max_rank=1).to_numpy()] + b.svdvals(), lambda: [b.orthogonalize().to_numpy(), (b + b).to_numpy(), b.add(b).norm()]]


def h_sum_shared():
    x, y = T("sparse", sh2), T("tt", sh2)
    s = M.TensorSum([x, y])
    ld, rd = M.make_drm("tt", (2,), sh2, False, 1), M.make_drm("tt", (3,), sh2, True, 2)
    return [lambda: comps(stream_sketch(s, 2, 3, left_drm=ld, right_drm=rd)), lambda: comps(stream_sketch(s.T, 3, 2, left_drm=rd.T, right_drm=ld.T))]


def h_random_same():
    return [lambda: [utils.random_normal((3, 3), seed=5)], lambda: [utils.random_normal((10,), seed=5)]]


HARNESSES = {
    # name: (make, preemption bound quick, thorough)
    "drm_dense_2": (h_drm("dense", sh2, [(1, False), (2, True)]), 2, 2),
    "drm_dense_order3": (h_drm("dense", sh3, [(1, False), (1, True)]), 1, 2),
    "drm_tt": (h_drm("tt", sh2, [(1, False), (2, True)]), 1, 2),
    "drm_sgauss_sign": (lambda: h_drm("sgauss", sh2, [(1, False)])() + h_drm("sign", sh2, [(1, True)])(), 2, 2),
    "drm_three": (h_drm("dense", sh2, [(1, False), (2, True), (3, False)]), 1, 2),
    "random_sparse": (lambda: h_random_sparse(), 1, 2),
    "random_formats": (lambda: h_random_formats(), 1, 2),
    "random_same": (lambda: h_random_same(), 1, 2),
    "shared_drms_dense": (h_shared_drms("dense", ["sparse", "dense"]), 1, 2),
    "shared_drms_tt": (h_shared_drms("tt", ["tt", "tucker"], sh3), 1, 1),
    "shared_drms_sgauss": (h_shared_drms("sgauss", ["sparse", "sparse"], sh3), 1, 2),
    "shared_drms_sign": (h_shared_drms("sign", ["sparse", "sparse"]), 1, 2),
    "shared_drms_three": (h_shared_drms("tt", ["cp", "sparse", "dense"]), 1, 1),
    "shared_tensor_sparse": (h_shared_tensor("sparse", sh3), 1, 1),
    "shared_tensor_tucker": (h_shared_tensor("tucker", sh3), 1, 1),
    "seeded_sketches": (lambda: h_seeded_sketches(), 1, 1),
    "unseeded": (lambda: h_unseeded(), 1, 1),
    "update": (lambda: h_update(), 1, 2),
    "orth_hmt": (lambda: h_orth_hmt(), 1, 1),
    "blocked": (lambda: h_blocked(), 1, 1),
    "queries": (lambda: h_queries(), 1, 2),
    "rounding": (lambda: h_rounding(), 1, 2),
    "sum_shared": (lambda: h_sum_shared(), 1, 1),
}


def cases(tier):
    th = tier == "thorough"
    for name, (_, q, t) in HARNESSES.items():
        yield {"kind": "user", "harness": name, "preemptions": t if th else q, "limit": 40000 if th else 12000, "pool": name.startswith("random_same")}
    for n in list(range(0, 27)) + ([31, 32, 33, 40, 63, 64, 65, 100] if th else [33, 64]):
        yield {"kind": "rng", "n": n, "threads": None, "preemptions": 1, "reorders": 2 if th or n in (3, 8, 9, 17) else 1, "limit": 20000}
    for threads in (1, 2, 3, 4):
        for n in range(0, 3 * threads + 3):
            yield {"kind": "rng", "n": n, "threads": threads, "preemptions": 2 if th or threads < 3 else 1, "reorders": 9, "limit": 30000}


class poison:
    def __enter__(self):
        self.real = (np.empty, np.empty_like)
        e, el = self.real

        def fill(a):
            if a.dtype == np.float64:
                a.fill(POISON)
            return a
        np.empty = lambda *a, **k: fill(e(*a, **k))
        np.empty_like = lambda *a, **k: fill(el(*a, **k))

    def __exit__(self, *a):
        np.empty, np.empty_like = self.real


def sequential(make, pool):
    """Results of the operations run one after another (workers of the pool in order)."""
    out = []
    for f in make():
        out.append([np.array(a, dtype=float) for a in f()])
    return out


def run_case(case, ctx):
    if case["kind"] == "rng":
        return run_rng(case, ctx)
    make = HARNESSES[case["harness"]][0]
    sched.POOL_SYNC = not case["pool"]
    want = sequential(make, case["pool"])
    seen = set()

    def wrapped():
        fs = make()
        return [lambda f=f: [np.array(a, dtype=float) for a in f()] for f in fs]

    def check(tasks, plan, err):
        if err is not None:
            if isinstance(err, sched.Stuck):
                ctx.skip("execution blocked outside the scheduler's control")
                return
            ctx.fail(f"{case['harness']}: deadlock under schedule {plan}: {err}")
        for i, t in enumerate(tasks):
            if t.exc is not None:
                ctx.fail(f"{case['harness']}: thread {i} raised {type(t.exc).__name__}: {t.exc} under schedule {plan}")
            ctx.equal(len(t.value), len(want[i]), f"{case['harness']} schedule {plan}: results of thread {i}")
            for k, (a, b) in enumerate(zip(t.value, want[i])):
                ctx.close(a, b, f"{case['harness']}: result {k} of thread {i} under schedule {plan} (switch at listed scheduling points)", tol=1e-12)
        ctx.begin((case["harness"],))
        ctx.step(tuple(sorted(plan.items())), [t.value for t in tasks])
    n, pts, trunc = sched.explore(wrapped, check, case["preemptions"], 1, case["limit"])
    ctx.count("schedules", n)
    ctx.count("scheduling_points", pts)
    if trunc:
        ctx.count("truncated_harnesses")


def run_rng(case, ctx):
    n, threads = case["n"], case["threads"]
    sched.POOL_SYNC = False
    if threads is None:
        def gen():
            return utils.random_normal((n,), seed=9)
    else:
        cls = getattr(utils, "MultithreadedRNG", None)
        if cls is None:
            ctx.skip("no MultithreadedRNG class")
            return

        def gen():
            return cls((n,), 9, threads).values
    with poison():
        want = np.array(gen())
        ctx.true(want.shape == (n,) and bool(np.all(np.isfinite(want))) and not np.any(want == POISON), f"{n} entries, {threads or 'default'} workers: entries not written: {want}")
        ctx.true(len(np.unique(want)) == n, f"{n} entries, {threads} workers: repeated entries {want}")
        outs = set()

        def check(tasks, plan, err):
            if err is not None:
                if isinstance(err, sched.Stuck):
                    ctx.skip("execution blocked outside the scheduler's control")
                    return
                ctx.fail(f"{n} entries, {threads} workers: deadlock under schedule {plan}: {err}")
            t = tasks[0]
            if t.exc is not None:
                ctx.fail(f"{n} entries, {threads} workers: {type(t.exc).__name__}: {t.exc} under schedule {plan}")
            ctx.true(t.value.shape == want.shape and np.array_equal(t.value, want),
                     lambda: f"{n} entries, {threads or 'default'} workers: schedule {plan} gives {t.value}, sequentially {want}")
            ctx.begin(("rng", n, threads))
            ctx.step(tuple(sorted(plan.items())), [t.value])
        k, pts, trunc = sched.explore(lambda: [lambda: np.array(gen())], check, case["preemptions"], case["reorders"], case["limit"])
    ctx.count("schedules", k)
    ctx.count("scheduling_points", pts)
    if trunc:
        ctx.count("truncated_generator_cases")
