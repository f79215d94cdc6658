"""C20: TT-GMRES on every combination of map, right-hand side, start vector, preconditioner, tolerance and iteration limit in the bounds."""
import itertools
import time

import numpy as np

from lib import model as M
from checks.C18 import apply, eye, mode_op, transpose
from checks.C14 import consistent
from tt_sketch.tensor import TensorTrain
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, tt_sum_gmres
from tt_sketch.tt_svd import tt_svd
from tt_sketch.tensor import DenseTensor

PROPERTY = "C20"
RULE = ("full product of linear systems (identity, diagonal, symmetric positive definite, indefinite, non-symmetric, rotation; 1-3 summands) x right-hand sides "
        "(one-hot, low-rank, generic, zero, scaled) x start vectors (none, zero, generic, exact, nearly exact) x preconditioners (none, every mode) x "
        "tolerances x rounding methods; each run is repeated with every smaller iteration limit, so that every entry of the reported residual history "
        "is compared with the dense residual of the corresponding iterate")
BOUNDS = {"quick": "5 shapes with 2-12 unknowns, 7 systems, all iteration limits 0..n+3; singular maps whose Krylov space is exhausted exactly; 4 shapes with 36-72 unknowns (up to 72 iterations, residuals compared with the smallest ones attainable); 4 shapes x all final rounding methods and ranks",
          "thorough": "9 shapes with up to 24 unknowns, more seeds, right-hand sides and start vectors"}
CASE_TIMEOUT = 300
SHAPES = [(2,  1), (2, 2), (3, 2), (2, 3, 2), (1, 4)]
SHAPES_TH = SHAPES + [(2, 2, 2), (5, 3), (3, 2, 4), (2, 2, 2, 2)]
FACTOR = 60.0     # the "moderate multiple" of the tolerance
SYSTEMS = ["identity", "diagonal", "spd", "indefinite", "nonsym", "rotation", "two factors"]
RHS = ["generic", "rank1", "hot", "zero", "large", "small"]
STARTS = ["none", "zero", "generic", "exact", "near", "scaled"]


def system(name, shape, tag=0):
    """(list of TT linear maps, dense operator (in..., out...), symmetric)."""
    d = len(shape)
    n = M.prod(shape)
    rng = M.rng_for("gmres", name, shape, tag)

    def local(mode, A):
        cores = [np.eye(s).reshape(1, s, s, 1) for s in shape]
        cores[mode] = np.asarray(A, float).reshape(1, shape[mode], shape[mode], 1)
        return cores
    lists, symmetric = [], True
    if name == "identity":
        lists = [[C * (3.0 if i == 0 else 1) for i, C in enumerate(local(0, np.eye(shape[0])))]]
    elif name == "diagonal":
        lists = [local(m, np.diag(np.linspace(1, 3, s))) for m, s in enumerate(shape)]
    elif name in ("spd", "indefinite"):
        for m, s in enumerate(shape):
            B = rng.normal(size=(s, s))
            B = (B + B.T) / 4
            if name == "spd":
                B = B @ B + np.eye(s)
            lists.append(local(m, B))
        if name == "indefinite":
            lists.append([C * (2.5 if i == 0 else 1) for i, C in enumerate(local(0, np.eye(shape[0])))])
            lists.append([C for C in local(0, np.diag([(-1.0) ** i * 4 for i in range(shape[0])]))])
    elif name == "nonsym":
        symmetric = False
        lists = [local(m, rng.normal(size=(s, s)) / np.sqrt(s) / 2) for m, s in enumerate(shape)]
        lists.append([C * (4.0 if i == 0 else 1) for i, C in enumerate(local(0, np.eye(shape[0])))])
    elif name == "rotation":  # a cyclic shift: no residual reduction before the last step
        symmetric = False
        P = np.roll(np.eye(shape[0]), 1, axis=0)
        lists = [local(0, P)]
    elif name == "two factors":
        symmetric = False
        r = 2
        cores = [rng.normal(size=(1 if i == 0 else r, s, s, 1 if i == d - 1 else r)) / 4 for i, s in enumerate(shape)]
        lists = [cores, [C * (5.0 if i == 0 else 1) for i, C in enumerate(local(0, np.eye(shape[0])))]]
    D = sum(M.dense_mpo(c) for c in lists)
    return [MPO(c) for c in lists], D, symmetric, n


def rhs(name, shape, rng):
    if name == "hot":
        x = np.zeros(shape)
        x.flat[M.prod(shape) - 1] = 2.0
        return x
    if name == "zero":
        return np.zeros(shape)
    if name == "rank1":
        x = np.array(1.0)
        for s in shape:
            x = np.multiply.outer(x, rng.normal(size=s) + 0.5)
        return x
    return rng.normal(size=shape) * {"large": 1e6, "small": 1e-6}.get(name, 1.0)


def as_tt(X):
    return tt_svd(DenseTensor(X))


def cases(tier):
    th = tier == "thorough"
    for shape in SHAPES_TH if th else SHAPES:
        for name in SYSTEMS:
            for tag in range((2 if M.prod(shape) <= 15 else 1) if th else 1):
                for pre in [None] + list(range(len(shape))):
                    for b in RHS:
                        yield {"shape": shape, "system": name, "tag": tag, "precond": pre, "rhs": b, "all": th}
        for name in SINGULAR:
            for b in RHS if name == "zero" else ["hot", "zero"]:  # where the Krylov space is exhausted exactly, not just up to rounding
                yield {"kind": "singular", "shape": shape, "system": name, "rhs": b}
    yield {"kind": "reject", "shape": (2, 3)}
    for shape in OPTION_SHAPES:
        for name in SYSTEMS:
            for pre in (None, 0):
                yield {"kind": "options", "shape": shape, "system": name, "precond": pre}
    for shape in LARGE if not th else LARGE + LARGE_TH:
        for name in SYSTEMS:
            for pre in (None, len(shape) - 1) if name != "rotation" else (None,):
                for b in ("generic", "hot"):
                    yield {"kind": "large", "shape": shape, "system": name, "precond": pre, "rhs": b}


OPTION_SHAPES = [(2, 2), (3, 4), (2, 3, 2), (2, 2, 2, 2)]
LARGE = [(36, 1), (8, 9), (5, 2, 6), (2,) * 6]
LARGE_TH = [(70, 1), (16, 17), (3,) * 5]


def preconditioned(case):
    """(map, preconditioner, matrix of the preconditioned map, dense preconditioner, symmetric)"""
    shape = tuple(case["shape"])
    d = len(shape)
    maps, D, symmetric, n = system(case["system"], shape)
    P, E = None, eye(shape)
    if case["precond"] is not None:
        m = case["precond"]
        B = M.rng_for("gmres pre", shape, m).normal(size=(shape[m],) * 2) / (4 * np.sqrt(shape[m])) + 1.5 * np.eye(shape[m])
        P, E = TTPrecond(B, shape, mode=m), mode_op(np.linalg.inv(B), shape, m)
    mat = np.tensordot(D, E, axes=(range(d, 2 * d), range(d))).reshape(n, n).T
    return TTLinearMapSum(maps), P, mat, E, symmetric and P is None


def run_options(case, ctx):
    """The options for the last rounding and for reporting change the returned solution only."""
    shape = tuple(case["shape"])
    n = M.prod(shape)
    A, P, mat, E, _ = preconditioned(case)
    if np.linalg.cond(mat) > 30:
        ctx.skip("ill-conditioned system")
        return
    b = rhs("generic", shape, M.rng_for("gmres options", shape, case["system"]))
    bt, bnorm = as_tt(b), float(np.linalg.norm(b))
    bp = apply(E, b).reshape(-1)
    x0s = {"none": None, "start": as_tt(M.rng_for("gmres options start", shape).normal(size=shape))}
    for (sn, x0), method, limit in itertools.product(x0s.items(), ("pairwise", "exact"), (0, 1, 3, 2 * n + 10)):
        kw = dict(precond=P, x0=x0, tolerance=1e-6, rounding_method=method, maxiter=limit)
        base = f"options {case['system']} {shape} precond {case['precond']} start {sn} {method} maxiter {limit}"
        ctx.begin((shape, mat, bp, sn, method, limit))
        ref, h0 = tt_sum_gmres(A, bt, 1000, **kw)
        val = M.dense_tt(ref.cores)
        mag = float(np.max(np.abs(val))) + 1e-12
        sv = [np.linalg.svd(val.reshape(M.prod(shape[:k + 1]), -1), compute_uv=False) for k in range(len(shape) - 1)]
        for final in (None, "exact", "pairwise", "sketch", "orth_sketch"):
            for rank in (None, 1, 2, 1000, tuple(1 + i % 2 for i in range(len(shape) - 1))):
                for flags in ({}, {"save_basis": True}, {"verbose": True}):
                    if flags and (final is not None or rank is not None):
                        continue
                    what = f"{base} final method {final} final rank {rank} {flags}"
                    x, h = tt_sum_gmres(A, bt, 1000, rounding_method_final=final, final_round_rank=rank, **flags, **kw)
                    consistent(ctx, x, shape, what)
                    ctx.close([float(v) for v in h["residual_norm"]], [float(v) for v in h0["residual_norm"]], what + ": residual history", tol=1e-12)
                    bound = rank if isinstance(rank, tuple) else (rank or 1000,) * (len(shape) - 1)
                    ctx.true(all(a <= q for a, q in zip(x.rank, bound)), lambda: what + f": ranks {x.rank}")
                    got = M.dense_tt(x.cores)
                    cut = [float(np.sqrt(np.sum(s[q:] ** 2))) for s, q in zip(sv, bound)]
                    if max(cut) <= 1e-13 * mag or rank in (None, 1000):
                        ctx.close(got, val, what + ": solution", tol=1e-8 if final in ("sketch", "orth_sketch") else 1e-10, scale=mag)
                    elif final in ("exact", None) and method == "exact":  # the last rounding is quasi-optimal
                        err = float(np.linalg.norm(got - val))
                        ctx.true(err <= np.sqrt(sum(c * c for c in cut)) * (1 + 1e-9) + 1e-9 * mag, lambda: what + f": rounding error {err:.4g}, discarded singular values {cut}")
                    if flags.get("save_basis"):
                        basis = [M.dense_tt(v.cores).reshape(-1) for v in h["nu_list"]]
                        y = np.asarray(h["y"], float)
                        start = np.zeros(n) if x0 is None else M.dense_tt(x0.cores).reshape(-1)
                        ctx.equal(len(basis), len(y), what + ": number of basis vectors")
                        ctx.close(start + (np.array(basis).T @ y if len(y) else 0), val.reshape(-1), what + ": solution from the saved basis", tol=1e-8, scale=mag)
                        if len(y):
                            ctx.close([np.linalg.norm(v) for v in basis], np.ones(len(y)), what + ": norms of the saved basis", tol=1e-6)
                    ctx.step((final, rank, tuple(flags)), got)
                    ctx.traces += 1


def run_large(case, ctx):
    """Many iterations: no restart, no loss of the basis, residuals still the true ones."""
    shape = tuple(case["shape"])
    n = M.prod(shape)
    A, P, mat, E, symmetric = preconditioned(case)
    cond = np.linalg.cond(mat)
    if cond > 200:
        ctx.skip("ill-conditioned system")
        return
    b = rhs(case["rhs"], shape, M.rng_for("gmres large", shape, case["system"]))
    bt, bnorm = as_tt(b), float(np.linalg.norm(b))
    bp = apply(E, b).reshape(-1)
    # GMRES in exact arithmetic: the smallest residuals over the Krylov spaces
    best, Q = [float(np.linalg.norm(bp)) / bnorm], [bp / np.linalg.norm(bp)]
    while len(best) <= n and best[-1] > 1e-12:
        W = np.array(Q).T
        AW = mat @ W
        best.append(float(np.linalg.norm(bp - AW @ np.linalg.lstsq(AW, bp, rcond=None)[0])) / bnorm)
        q = mat @ Q[-1]
        for _ in range(2):
            q = q - W @ (W.T @ q)
        nq = np.linalg.norm(q)
        if nq < 1e-12:
            break
        Q.append(q / nq)
    sym = False  # short recurrences lose orthogonality over so many iterations
    for method, tol in itertools.product(("pairwise", "exact"), (1e-5, 1e-8)):
        need = next((k for k, v in enumerate(best) if v <= tol), len(best) - 1)
        # every iteration rounds; relaxed roundings perturb the residual by up to (iterations) x (condition number) x tolerance
        slack = tol * max(FACTOR, need * cond) + 1e-12 * cond * 10
        what = f"large {case['system']} {shape} precond {case['precond']} rhs {case['rhs']} {method} tol {tol} symmetric {sym}"
        ctx.begin((shape, mat, bp, tol, sym))
        for limit in sorted({need // 3, need // 2, (2 * need) // 3, need - 1, n + 20}):
            if limit < 1:
                continue
            x, h = tt_sum_gmres(A, bt, 1000, precond=P, tolerance=tol, rounding_method=method, symmetric=sym, maxiter=limit)
            consistent(ctx, x, shape, what)
            w = what + f" maxiter {limit}"
            res = [float(v) for v in h["residual_norm"]]
            true = float(np.linalg.norm(bp - mat @ M.dense_tt(x.cores).reshape(-1))) / bnorm
            ctx.true(abs(true - res[-1]) <= slack, lambda: w + f": reported residual {res[-1]:.4g}, true residual {true:.4g}")
            ctx.true(all(q <= p + slack for p, q in zip(res, res[1:])), lambda: w + f": reported residuals increase: {res}")
            for k, v in enumerate(res):
                if k < len(best):
                    ctx.true(v <= best[k] * 1.05 + slack, lambda: w + f": residual {v:.4g} after {k} iterations, {best[k]:.4g} is attainable")
            if limit > need:
                ctx.true(true <= tol + slack, lambda: w + f": true residual {true:.4g}, iterations {len(res) - 1}, needed {need}")
            ctx.step(limit, np.round(true / slack))
            ctx.traces += 1


def run_reject(ctx):
    def maps(i, o, tag=0):
        rng = M.rng_for("rej", i, o, tag)
        return MPO([rng.normal(size=(1, a, b, 1)) for a, b in zip(i, o)])
    A = TTLinearMapSum([maps((2, 3), (2, 3)), MPO.eye((2, 3))])
    b, _ = M.build({"fmt": "tt", "shape": [2, 3], "rank": 2})
    ctx.begin("reject")
    tt_sum_gmres(A, b, 5, maxiter=2)
    wrong = [M.build({"fmt": "tt", "shape": list(s), "rank": 1})[0] for s in ((3, 3), (2, 2), (3, 2), (2, 3, 1), (6, 1))]
    for w in wrong:
        for kw in ({}, {"x0": b}, {"rounding_method": "exact"}, {"maxiter": 0}, {"tolerance": 10.0}):
            ctx.raises(lambda: tt_sum_gmres(A, w, 5, **{"maxiter": 2, **kw}), f"right-hand side of shape {w.shape} for maps of shape (2,3) ({list(kw)})")
            ctx.raises(lambda: tt_sum_gmres(A, b, 5, **{"maxiter": 2, **kw, "x0": w}), f"start vector of shape {w.shape} for maps of shape (2,3) ({list(kw)})")
            ctx.step(str((w.shape, list(kw))), "rejected")
    for i, o in (((2, 3), (3, 2)), ((2, 3), (2, 2)), ((2, 2), (2, 3)), ((3, 3), (2, 3))):
        R = TTLinearMapSum([maps(i, o)])
        bo, _ = M.build({"fmt": "tt", "shape": list(o), "rank": 1})
        xi, _ = M.build({"fmt": "tt", "shape": list(i), "rank": 1})
        for kw in ({}, {"x0": xi}, {"x0": bo}):
            ctx.raises(lambda: tt_sum_gmres(R, bo, 5, maxiter=2, **kw), f"map {i}->{o} which is no automorphism")
            ctx.step(str((i, o, list(kw))), "rejected")


SINGULAR = ["zero", "projection", "nilpotent"]


def run_singular(case, ctx):
    """No solution need exist: whatever is returned, its residual is the reported one, and the solver stops."""
    shape = tuple(case["shape"])
    n, d = M.prod(shape), len(shape)
    cores = [np.eye(s).reshape(1, s, s, 1) for s in shape]
    s0 = shape[0]
    cores[0] = {"zero": np.zeros((s0, s0)), "projection": np.diag(([1.0] * s0)[:-1] + [0.0]), "nilpotent": np.eye(s0, k=1)}[case["system"]].reshape(1, s0, s0, 1)
    A = TTLinearMapSum([MPO(cores)])
    mat = M.dense_mpo(cores).reshape(n, n).T
    b = rhs(case["rhs"], shape, M.rng_for("singular", shape, case["system"], case["rhs"]))
    bt, bnorm = as_tt(b), float(np.linalg.norm(b)) or 1.0
    for start, method in itertools.product(("none", "ones") if case["system"] == "zero" else ("none",), ("pairwise", "exact")):
        x0 = None if start == "none" else as_tt(np.ones(shape) * bnorm)
        for limit in range(0, 3):
            what = f"singular {case['system']} {shape} rhs {case['rhs']} start {start} {method} maxiter {limit}"
            ctx.begin((mat, b, start))
            x, h = tt_sum_gmres(A, bt, 1000, maxiter=limit, x0=x0, tolerance=1e-6, rounding_method=method)
            consistent(ctx, x, shape, what)
            v = M.dense_tt(x.cores)
            ctx.true(np.all(np.isfinite(v)), what + ": result not finite")
            res = [float(r) for r in h["residual_norm"]]
            true = float(np.linalg.norm(b.reshape(-1) - mat @ v.reshape(-1))) / bnorm
            ctx.true(len(res) <= limit + 1, lambda: what + f": {len(res) - 1} iterations")
            ctx.true(np.isfinite(res[-1]) and abs(true - res[-1]) <= 1e-4 * (1 + res[0]), lambda: what + f": reported residual {res[-1]:.4g}, true residual {true:.4g}")
            ctx.true(all(q <= p + 1e-4 * (1 + res[0]) for p, q in zip(res, res[1:])), lambda: what + f": reported residuals increase: {res}")
            ctx.step(limit, np.round(true * 1e3))
            ctx.traces += 1


def run_case(case, ctx):
    if case.get("kind") == "singular":
        return run_singular(case, ctx)
    if case.get("kind") == "options":
        return run_options(case, ctx)
    if case.get("kind") == "large":
        return run_large(case, ctx)
    if case.get("kind"):
        return run_reject(ctx)
    shape = tuple(case["shape"])
    d = len(shape)
    maps, D, symmetric, n = system(case["system"], shape, case["tag"])
    A = TTLinearMapSum(maps)
    P, E = None, eye(shape)
    rng = M.rng_for("gmres run", shape, case["system"], case["precond"], case["rhs"], case["tag"])
    if case["precond"] is not None:
        m = case["precond"]
        B = rng.normal(size=(shape[m],) * 2) / (2 * np.sqrt(shape[m])) + 1.5 * np.eye(shape[m])
        P, E = TTPrecond(B, shape, mode=m), mode_op(np.linalg.inv(B), shape, m)
    mat = np.tensordot(D, E, axes=(range(d, 2 * d), range(d))).reshape(n, n).T  # preconditioned operator
    cond = np.linalg.cond(mat)
    if cond > 30:
        ctx.skip("ill-conditioned system")
        return
    b = rhs(case["rhs"], shape, rng)
    bt = as_tt(b)
    bnorm = float(np.linalg.norm(b)) or 1.0
    bp = apply(E, b).reshape(-1)
    solution = np.linalg.solve(mat, bp)
    starts = {"none": None, "zero": np.zeros(n), "generic": rng.normal(size=n) * bnorm, "exact": solution, "near": solution * (1 + 1e-5), "scaled": rng.normal(size=n) * 100 * bnorm}
    names = STARTS if case["all"] or case["rhs"] in ("generic", "zero") else ["none", "exact", "generic"]
    methods = ["pairwise", "exact", "orth_sketch", "sketch"]
    for start, tol, method in itertools.product(names, (1e-4, 1e-6, 1e-9), methods):
        if method in ("sketch", "orth_sketch") and (tol != 1e-6 or start not in ("none", "exact")):
            continue
        if method == "exact" and tol == 1e-4 and not case["all"]:
            continue
        x0 = None if starts[start] is None else as_tt(starts[start].reshape(shape))
        x0d = starts[start] if starts[start] is not None else np.zeros(n)
        if not b.any():  # the zero system: the solution is zero
            x0d = np.zeros(n)
        syms = [False] + ([True] if symmetric and P is None and method in ("pairwise", "exact") and tol < 1e-4 else [])  # short recurrences amplify the roundings
        for sym in syms:
            kw = dict(precond=P, x0=x0, tolerance=tol, rounding_method=method, symmetric=sym)
            what = f"{case['system']} {shape} precond {case['precond']} rhs {case['rhs']} start {start} {method} tol {tol} symmetric {sym}"
            ctx.begin((shape, mat, bp, x0d))
            limit = 2 * n + 10
            clock = time.perf_counter()
            x, h = tt_sum_gmres(A, bt, 1000, maxiter=limit, **kw)
            clock = time.perf_counter() - clock
            for key in ("step_time", "step_time_with_res_norm", "final_round_time", "total_time"):
                if key in h:
                    ctx.true(np.all(np.asarray(h[key]) >= 0) and np.sum(h[key]) <= clock, lambda: what + f": {key} {h[key]} in a run that took {clock}")
            res = [float(v) for v in h["residual_norm"]]
            r0 = float(np.linalg.norm(bp - mat @ x0d)) / bnorm
            slack = FACTOR * tol * max(1.0, min(r0, 1.0)) + 1e-12 * cond * (1 + r0) * 10
            if method in ("sketch", "orth_sketch"):
                slack += 1e-7 * (1 + r0)

            def true_residual(t, w):
                consistent(ctx, t, shape, w)
                return float(np.linalg.norm(bp - mat @ M.dense_tt(t.cores).reshape(-1))) / bnorm
            tr = true_residual(x, what)
            it = len(res) - 1
            enough = int(1.3 * n) + 3 if n <= 12 and cond <= 6 else 2 * n + 8
            ctx.true(res[min(it, enough)] <= 5 * tol + slack / FACTOR, lambda: what + f": residuals {res[-6:]} after {it} iterations for {n} unknowns")
            ctx.true(tr <= tol + slack, lambda: what + f": true residual {tr:.3g} of the returned solution (reported {res[-1]:.3g})")
            ctx.true(res[-1] <= tol * (1 + 1e-9) or it == limit, lambda: what + f": stopped with reported residual {res[-1]:.3g} after {it} iterations")
            ctx.close(res[0], r0, what + ": reported initial residual", tol=1e-9 if method not in ("sketch", "orth_sketch") else 1e-6, scale=1 + r0)
            for k in range(it):
                ctx.true(res[k + 1] <= res[k] + slack, lambda: what + f": reported residuals increase: {res}")
                ctx.true(res[k] > tol * 0.999, lambda: what + f": iteration {k} already reported {res[k]} but went on")
            for v in res:
                ctx.true(np.isfinite(v) and v >= 0, lambda: what + f": reported residuals {res}")
            # every iterate
            for lim in range(0, min(it + 2, 2 * n + 4)):
                y, g = tt_sum_gmres(A, bt, 1000, maxiter=lim, **kw)
                rep = [float(v) for v in g["residual_norm"]]
                ctx.true(len(rep) <= lim + 1, lambda: what + f": {len(rep) - 1} iterations with maxiter={lim}")
                t = true_residual(y, what + f" maxiter={lim}")
                ctx.true(abs(t - rep[-1]) <= slack, lambda: what + f" maxiter={lim}: reported residual {rep[-1]:.4g}, true residual {t:.4g}")
                ctx.true(rep[-1] <= tol + slack or len(rep) == lim + 1, lambda: what + f" maxiter={lim}: gave up after {len(rep) - 1} iterations with residual {rep[-1]:.3g}")
                if method in ("pairwise", "exact"):
                    for p, q in zip(rep, res):
                        ctx.close(p, q, what + f": history with maxiter={lim} is no prefix", tol=1e-3, scale=max(q, slack))
                ctx.step(lim, np.round(t / max(slack, 1e-3)))
                ctx.traces += 1
            if start == "exact" or (start == "near" and tol == 1e-4):
                if b.any():
                    ctx.close(M.dense_tt(x.cores).reshape(-1), x0d, what + ": a start vector that solves the system is changed", tol=1e-8 if method in ("pairwise", "exact") else 1e-5, scale=np.max(np.abs(x0d)) + 1e-300)
                    ctx.equal(it, 0, what + ": iterations from a start vector that solves the system")
