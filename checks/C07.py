"""C07: a seed fixes the result: all histories of seeded calls up to a length, and all environment combinations."""
import itertools
import os
import pickle
import random
import subprocess
import sys
import tempfile

import numpy as np

from lib import model as M
from lib import seeded_ops
from lib.engine import VERIF
from tt_sketch.sketch import orthogonal_sketch, stream_sketch

PROPERTY = "C07"
RULE = ("every ordered history of seeded calls up to the length bound (results overwritten between calls) is executed and compared "
        "with the result of a fresh process; every combination of string-hash seed, processor count, global random state and call "
        "order is executed in its own process; all pairs of seeds are compared; numpy's and Python's global random states are compared "
        "before and after each call; the matrices of the two sides and of different bonds of seeded sketches are compared with each other")
BOUNDS = {"quick": "37 operations: all ordered pairs, and triples A B A; 5 hash seeds x 5 processor counts x 2 orders; 9 seeds, passed as Python and as five NumPy integer types; 12 calls without a seed; 26 operations of large sizes in 3 environments and 4 histories; both sides of sketches of 5 shapes with 4 DRM types and 4 seeds",
          "thorough": "all ordered pairs for 3 seeds, all triples for one seed; 8 hash seeds x 7 processor counts x 2 orders; 20 seeds; 40 calls without a seed"}
SEEDS = [0, 1, 7, 2**32 - 2]
MANY = [0, 1, 2, 3, 7, 255, 65536, 2**31, 2**32 - 2]
BIGSEEDS = [1, 2**32 - 2]
_ref = None
_bigref = None
_ops = None


def ref():
    """Results in a fresh process (hash seed 0, this machine's processors)."""
    global _ref
    if _ref is None:
        _ref = fresh(0, 0, 1, "fwd", MANY)
    return _ref


def ops():
    global _ops
    if _ops is None:
        _ops = seeded_ops.operations()
    return _ops


def big_ref():
    global _bigref
    if _bigref is None:
        _bigref = fresh(0, 0, 1, "big fwd", BIGSEEDS)
    return _bigref


def run_big(case, ctx):
    """Large sizes: fresh processes of several environments, two orders, other global states, repeated calls."""
    if case["env"]:
        h, c, order = case["env"]
        ctx.begin(("fresh", h, c))
        for (n, s), arrs in fresh(h, c, 17 + c, order, BIGSEEDS).items():
            compare(ctx, arrs, big_ref()[n, s], f"{n}(seed={s}) in a process with hash seed {h}, {c or 'real'} processors, order {order}")
            ctx.step((n, s), len(arrs))
        return
    ops = seeded_ops.big_operations()
    for name in list(ops)[case["part"]::4]:
        seen = []
        for g, s in ((0, BIGSEEDS[0]), (3, BIGSEEDS[1]), (12345, BIGSEEDS[0]), (4, 5)):
            ctx.begin((name, g))
            np.random.seed(g)
            random.seed(g)
            before, pbefore = np.random.get_state(), random.getstate()
            r = [np.array(a, dtype=float) for a in ops[name](s)]
            after = np.random.get_state()
            ctx.true(all(np.array_equal(x, y) for x, y in zip(before, after)), f"{name}(seed={s}) changes numpy's global random state")
            ctx.true(pbefore == random.getstate(), f"{name}(seed={s}) changes Python's global random state")
            if (name, s) in big_ref():
                compare(ctx, r, big_ref()[name, s], f"{name}(seed={s}) with global state {g}")
            for t, q in seen:
                if t != s:
                    ctx.true(any(a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=0) for a, b in zip(r, q)), f"{name}: seeds {t} and {s} give the same result")
                    if every_part(name):
                        for i, (a, b) in enumerate(zip(r, q)):
                            ctx.true(not np.allclose(a, b, rtol=1e-9, atol=0), f"{name}: seeds {t} and {s} give the same array {i}")
            seen.append((s, r))
            ctx.step((name, s), len(r))
        if "sign" not in name:
            a, b = ops[name](None), ops[name](None)
            ctx.true(any(x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=0) for x, y in zip(a, b)), f"{name}: two calls without a seed give the same result")


def fresh(hashseed, cpus, gseed, order, seeds):
    fd, path = tempfile.mkstemp(prefix="c07-")
    os.close(fd)
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        r = subprocess.run([sys.executable, os.path.join(VERIF, "lib", "seeded_ops.py"), path, str(cpus), str(gseed), order] + [str(s) for s in seeds],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        if r.returncode:
            raise RuntimeError("seeded operations failed in a fresh process: " + r.stdout[-600:])
        with open(path, "rb") as f:
            return pickle.load(f)
    finally:
        os.unlink(path)


def cases(tier):
    th = tier == "thorough"
    names = list(ops())
    ref()
    big_ref()
    for part in range(4):
        yield {"kind": "big", "env": None, "part": part}
    for e in [(1, 2, "big rev"), ("random", 64, "big fwd")] + ([(12345, 1, "big rev"), (3, 3, "big fwd")] if th else []):
        yield {"kind": "big", "env": e}
    for h in ([0, 1, 2, 12345, "random"] + ([3, 99, 4294967295] if th else [])):
        for c in [0, 1, 2, 3, 64] + ([7, 16] if th else []):
            for order in ("fwd", "rev"):
                yield {"kind": "env", "hashseed": h, "cpus": c, "order": order, "gseed": 17 + c}
    for a in names:
        yield {"kind": "distinct", "op": a, "seeds": MANY + ([4, 5, 6, 8, 9, 10, 11, 12, 100, 1000, 2**30] if th else [])}
        if a != "stream_update":  # an update takes no seed
            yield {"kind": "global", "op": a}
        if "sign" not in a:
            yield {"kind": "unseeded", "op": a, "calls": 40 if th else 12}
    for shape in [(200, 200), (160, 2, 160), (13, 13, 13, 13), (170, 2, 2, 170), (3,) * 8] if not th else [(200, 200), (160, 2, 160), (13, 13, 13, 13), (170, 2, 2, 170), (3,) * 8, (400, 400), (2,) * 13]:
        yield {"kind": "sides", "shape": shape, "seeds": MANY if th else SEEDS}
    for a in names:
        yield {"kind": "types", "op": a}
    for a in names:
        for s in SEEDS[:3 if th else 2]:
            yield {"kind": "pairs", "first": a, "seed": s, "triples": th and s == 7}


def run_sides(case, ctx):
    """The two DRMs drawn for one sketch: no row of the left matrix resembles one of the right matrix (of the mirrored tensor, whose unfoldings have the same size)."""
    shape = tuple(case["shape"])
    n = len(shape) - 1
    T = M.build({"fmt": "sparse", "shape": list(shape), "nnz": 7})[0]
    for kind, seed, (lr, rr) in itertools.product(M.DRMS, case["seeds"], (((3,) * n, (5,) * n), ((5,) * n, (3,) * n))):
        calls = {"stream_sketch": stream_sketch, "orthogonal_sketch": orthogonal_sketch}
        if lr[0] > rr[0]:
            del calls["orthogonal_sketch"]
        for name, f in calls.items():
            ctx.begin((shape, kind, seed, name))
            _, L, R = f(T, lr, rr, seed=seed, left_drm_type=M.DRMS[kind], right_drm_type=M.DRMS[kind], return_drm=True)
            left = M.drm_matrices(L, shape, False)
            right = M.drm_matrices(R.T, shape[::-1], False)  # the same as a left DRM of the mirrored tensor
            ctx.step((lr, rr), (left, right))
            for side, mats in (("left", left), ("right", right)) if kind != "tt" else ():  # bonds of a TT DRM depend on each other
                for mu, nu in itertools.combinations(range(n), 2):
                    a, b = mats[mu], mats[nu]
                    c3 = b.reshape(b.shape[0], a.shape[1], -1)  # indices that begin with those of the smaller unfolding
                    for what, A, B in (("rows", a, c3[:, :, 0]), ("rows", a, c3[:, :, -1]), ("rows", a[:, :min(a.shape[1], b.shape[1])], b[:, :min(a.shape[1], b.shape[1])]),
                                       ("entries", a.reshape(1, -1)[:, :min(a.size, b.size)], b.reshape(1, -1)[:, :min(a.size, b.size)])):
                        ctx.comparisons += 1
                        if A.shape[1] >= 150:
                            c = np.max(np.abs((A / np.linalg.norm(A, axis=1)[:, None]) @ (B / np.linalg.norm(B, axis=1)[:, None]).T))
                            ctx.true(c < 0.5, f"{name}(seed={seed}) of shape {shape}: {what} of the {side} {kind} DRM's matrices of bonds {mu} and {nu} have correlation {c:.3g}")
            for mu, (a, b) in enumerate(zip(left, right)):
                what = f"{name}(seed={seed}) of shape {shape} with two {kind} DRMs of ranks {lr}, {rr}: bond {mu}"
                ctx.comparisons += 1
                if a.shape[1] < 150:  # too short to tell
                    continue
                A, B = a / np.linalg.norm(a, axis=1)[:, None], b / np.linalg.norm(b, axis=1)[:, None]
                c = np.max(np.abs(A @ B.T))
                # rows of a TT DRM are combinations of few independent rows of the previous bond
                ctx.true(c < (0.999 if kind == "tt" and mu else 0.5), what + f": a row of the left matrix and one of the right matrix have correlation {c:.3g}")


def compare(ctx, got, want, what):
    ctx.equal(len(got), len(want), what + ": number of arrays")
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.close(np.asarray(g, dtype=float), w, f"{what} [{i}]", tol=1e-12)


def wipe(arrays):
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = -77.0


def call(name, seed):
    r = ops()[name](seed)
    keep = [np.array(a, dtype=float) for a in r]
    wipe(r)
    return keep


def every_part(name):
    """Every array of the result consists of (linear combinations of) random numbers."""
    return name.split("_")[0] in ("tt", "cp", "normal", "drm", "stream") and "sign" not in name and "orthog" not in name


def run_case(case, ctx):
    if case["kind"] == "big":
        return run_big(case, ctx)
    if case["kind"] == "sides":
        return run_sides(case, ctx)
    if case["kind"] == "env":
        ctx.begin(("fresh", case["hashseed"], case["cpus"]))
        try:
            res = fresh(case["hashseed"], case["cpus"], case["gseed"], case["order"], SEEDS)
        except RuntimeError as e:
            ctx.fail(str(e))
        for (n, s), arrs in res.items():
            compare(ctx, arrs, ref()[n, s], f"{n}(seed={s}) in a process with hash seed {case['hashseed']}, {case['cpus'] or 'real'} processors, order {case['order']}")
            ctx.step((n, s), arrs)
        return
    if case["kind"] == "types":  # the same number in another type of integer
        for s in SEEDS:
            for t in (np.int64, np.uint32, np.int32, np.uint8, np.intp):
                if s > np.iinfo(t).max:
                    continue
                ctx.begin((case["op"], s))
                r = call(case["op"], t(s))
                compare(ctx, r, ref()[case["op"], s], f"{case['op']}(seed={t.__name__}({s}))")
                ctx.step((t.__name__, s), r)
        return
    if case["kind"] == "distinct":
        seen = []
        ctx.begin(("distinct", case["op"]))
        for s in case["seeds"]:
            r = call(case["op"], s)
            for t, q in seen:
                ctx.true(any(a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=0) for a, b in zip(r, q)),
                         f"{case['op']}: seeds {t} and {s} give the same result")
                if every_part(case["op"]):
                    for i, (a, b) in enumerate(zip(r, q)):
                        ctx.true(not np.allclose(a, b, rtol=1e-9, atol=0), f"{case['op']}: seeds {t} and {s} give the same array {i}")
            seen.append((s, r))
            if (case["op"], s) in ref():
                compare(ctx, r, ref()[case["op"], s], f"{case['op']}(seed={s}) after other seeds")
            ctx.step(s, r)
        return
    if case["kind"] == "unseeded":  # a new result each time
        ctx.begin(("unseeded", case["op"]))
        seen = []
        for k in range(case["calls"]):
            r = call(case["op"], None)
            for q in seen:
                ctx.true(any(a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=0) for a, b in zip(r, q)), f"{case['op']}: call {k + 1} without a seed repeats an earlier result")
                if every_part(case["op"]):
                    ctx.true(not any(np.allclose(a, b, rtol=1e-9, atol=0) for a, b in zip(r, q)), f"{case['op']}: call {k + 1} without a seed repeats an array of an earlier result")
            seen.append(r)
            ctx.step(k, k)
        return
    if case["kind"] == "global":
        for s in SEEDS:
            for g in (0, 3, 12345):
                np.random.seed(g)
                random.seed(g)
                np.random.standard_normal(g % 2 + 1)  # also with a cached second normal
                before, pbefore = np.random.get_state(), random.getstate()
                ctx.begin(("global", g, s))
                r = call(case["op"], s)
                after = np.random.get_state()
                ctx.true(all(np.array_equal(x, y) for x, y in zip(before, after)), f"{case['op']}(seed={s}) changes numpy's global random state")
                ctx.true(pbefore == random.getstate(), f"{case['op']}(seed={s}) changes Python's global random state")
                compare(ctx, r, ref()[case["op"], s], f"{case['op']}(seed={s}) with global state {g}")
                ctx.step(case["op"], r)
        return
    names = list(ops())
    s = case["seed"]
    for b in names:
        hists = [(case["first"], b, case["first"])]
        if case["triples"]:
            hists += [(case["first"], b, c) for c in names]
        for h in hists:
            ctx.begin("start")
            for i, n in enumerate(h):
                seed = s if i % 2 == 0 or n == h[0] else SEEDS[(SEEDS.index(s) + 1) % len(SEEDS)]
                r = call(n, seed)
                compare(ctx, r, ref()[n, seed], f"{n}(seed={seed}) after {h[:i]}")
                ctx.step((n, seed), r)
