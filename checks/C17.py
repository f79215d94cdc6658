"""C17: matricization, pseudo-inverse products and projectors against their definitions, by complete enumeration of small inputs."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.utils import dematricize, left_mul_pinv, matricize, projector, right_mul_pinv

PROPERTY = "C17"
RULE = ("every shape and every ordered selection of modes within the bounds (entry-wise index arithmetic as reference, exact comparison); every matrix over "
        "{-1,0,1} of the small shapes, exactly rank-deficient integer and generic matrices of larger shapes and scales, against the four Moore-Penrose "
        "conditions; every pair (X,Y) of small matrices over {-1,0,1} for the projector")
BOUNDS = {"quick": "orders 1-4 with dims 1..3, order 5 with dims 1..2, 5 layouts; matrices up to 3x3 (all 3^9); projector pairs of shapes (2,1),(3,1),(2,2),(3,2) x strided; singular values spread over up to 8 orders of magnitude, shapes up to (400,5), (130,20)",
          "thorough": "order 4 with dims 1..4, order 5 dims 1..3, order 6 dims 1..2; matrices up to 3x4 (all 3^12 / 2x4, 4x2); all (3,2) projector pairs"}
BLOCK = 800


def cases(tier):
    th = tier == "thorough"
    grid = [(d, (1, 2, 3)) for d in (1, 2, 3)] + [(4, (1, 2, 3, 4) if th else (1, 2, 3)), (5, (1, 2, 3) if th else (1, 2))] + ([(6, (1, 2))] if th else [])
    for d, dims in grid:
        for shape in itertools.product(dims, repeat=d):
            yield {"kind": "matricize", "shape": shape}
    for shape in [(2, 5, 3, 4), (7, 1, 11), (3, 4, 1, 2, 5), (13,), (70, 2, 3), (2, 3, 129), (40, 33), (2, 1, 2, 3, 2, 2)]:
        yield {"kind": "matricize", "shape": shape}
    for m, k in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)] + ([(2, 4), (4, 2), (1, 5), (3, 4)] if th else [(1, 5)]):
        for s in range(0, 3 ** (m * k), BLOCK):
            yield {"kind": "pinv", "shape": (m, k), "from": s, "to": min(3 ** (m * k), s + BLOCK)}
    for m, k in [(5, 5), (8, 6), (4, 20), (60, 7), (7, 60), (200, 5), (5, 200), (20, 20), (1, 30), (30, 1), (40, 41)] + ([(100, 100), (300, 4)] if th else []):
        yield {"kind": "larger", "shape": (m, k)}
    for m, k, l in [(1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 2), (2, 2, 1), (2, 1, 2), (3, 2, 2), (3, 2, 1), (3, 1, 2), (4, 1, 1)]:
        total = 3 ** (m * k)
        for s in range(0, total, 27):
            yield {"kind": "projector", "shape": (m, k, l), "from": s, "to": min(total, s + 27), "stride": 1 if th or m * l < 6 else 13}
    for m, k in [(5, 3), (6, 6), (20, 4), (10, 9), (70, 3), (66, 65), (300, 2)]:
        yield {"kind": "projector larger", "shape": (m, k)}
    for m, k in [(2, 2), (3, 70), (70, 3), (5, 400), (400, 5), (40, 40), (7, 6), (66, 65), (130, 20), (20, 130)] + ([(150, 149), (1000, 4), (4, 1000)] if th else []):
        yield {"kind": "graded", "shape": (m, k)}


def ternary(k, shape):
    return (np.array([(k // 3 ** i) % 3 for i in range(M.prod(shape))], dtype=float) - 1).reshape(shape)


def ref_matricize(A, modes, mat):
    shape = A.shape
    rest = [i for i in range(A.ndim) if i not in modes]
    head = [shape[i] for i in modes]
    cols = M.prod([shape[i] for i in rest])
    out = np.empty([M.prod(head), cols])
    for idx in np.ndindex(*shape):
        r = c = 0
        for i in modes:
            r = r * shape[i] + idx[i]
        for i in rest:
            c = c * shape[i] + idx[i]
        out[r, c] = A[idx]
    return out if mat else out.reshape(head + [cols])


def exact(ctx, a, b, what):
    ctx.comparisons += 1
    if np.shape(a) != b.shape or not np.array_equal(a, b):
        ctx.fail(f"{what}: got {np.shape(a)} {np.asarray(a).tolist()!r:.200}, expected {b.shape} {b.tolist()!r:.200}")


def run_matricize(shape, ctx):
    d = len(shape)
    base = np.arange(1.0, 1 + M.prod(shape)).reshape(shape)
    for layout in ("C", "F", "neg", "strided", "ro"):
        A = M._layout(base, layout)
        ctx.begin((shape, layout))
        for n in range(1, d + 1):
            for modes in itertools.permutations(range(d), n):
                what = f"{shape} {layout} modes {modes}"
                ref = ref_matricize(base, modes, True) if layout in ("C", "F") or n == 1 else None
                if ref is None:
                    continue
                ref3 = ref.reshape([shape[i] for i in modes] + [ref.shape[1]])
                exact(ctx, matricize(A, modes), ref3, "matricize " + what)
                exact(ctx, matricize(A, modes, mat_shape=True), ref, "matricize as matrix " + what)
                exact(ctx, matricize(A, list(modes), mat_shape=True), ref, "matricize with a list " + what)
                exact(ctx, matricize(A, list(modes)), ref3, "matricize with a list " + what)
                ctx.step(modes, ref3)
                if n == 1:
                    m = modes[0]
                    exact(ctx, matricize(A, m), ref, f"matricize {shape} {layout} mode {m}")
                    exact(ctx, matricize(A, m, mat_shape=True), ref, f"matricize as matrix {shape} {layout} mode {m}")
                    for form in ("C", "F", "strided"):
                        exact(ctx, dematricize(M._layout(ref, form), m, shape), base, f"dematricize {shape} {form} mode {m}")
                    exact(ctx, dematricize(matricize(A, m), m, A.shape), base, f"dematricize of matricize {shape} {layout} mode {m}")
                    exact(ctx, dematricize(ref, m, list(shape)), base, f"dematricize {shape} as list, mode {m}")
                ctx.traces += 1


def penrose(ctx, A, P, what, tol):
    """P satisfies the four conditions; scales are those of the conditions."""
    sa = max(np.linalg.norm(A), 1e-300)
    sp = max(np.linalg.norm(P), 1e-300)
    k = tol * max(1.0, sa * sp)
    ctx.close(A @ P @ A, A, what + ": A P A = A", tol=k, scale=sa)
    ctx.close(P @ A @ P, P, what + ": P A P = P", tol=k, scale=sp)
    ctx.close(A @ P, (A @ P).T, what + ": A P symmetric", tol=k, scale=1.0)
    ctx.close(P @ A, (P @ A).T, what + ": P A symmetric", tol=k, scale=1.0)


def run_pinv(A, ctx, what, level):
    m, k = A.shape
    scale_a = max(np.max(np.abs(A)), 1e-300)
    ref = np.linalg.pinv(A / scale_a, rcond=1e-9) / scale_a
    sp = max(np.max(np.abs(ref)), 1e-300) if A.any() else 1.0
    PL = left_mul_pinv(A, np.eye(m))
    PR = right_mul_pinv(np.eye(k), A)
    if level:
        penrose(ctx, A, PL, what + " left", 1e-9)
        penrose(ctx, A, PR, what + " right", 1e-9)
    ctx.close(PL, ref, what + ": left_mul_pinv(A, I)", tol=1e-8, scale=sp)
    ctx.close(PR, ref, what + ": right_mul_pinv(I, A)", tol=1e-8, scale=sp)
    for q in (1, 4):
        B = M.rng_for("B", m, k, q).normal(size=(m, q))
        C = M.rng_for("C", m, k, q).normal(size=(q, k))
        ctx.close(left_mul_pinv(A, B), ref @ B, what + f": left_mul_pinv with {q} columns", tol=1e-8, scale=sp * 10 * np.sqrt(m))
        ctx.close(right_mul_pinv(C, A), C @ ref, what + f": right_mul_pinv with {q} rows", tol=1e-8, scale=sp * 10 * np.sqrt(k))
        ctx.close(left_mul_pinv(M._layout(A, "strided"), M._layout(B, "F")), ref @ B, what + f": left_mul_pinv, strided, {q} columns", tol=1e-8, scale=sp * 10 * np.sqrt(m))
        ctx.close(right_mul_pinv(M._layout(C, "F"), M._layout(A, "F")), C @ ref, what + f": right_mul_pinv, Fortran, {q} rows", tol=1e-8, scale=sp * 10 * np.sqrt(k))
    ctx.step(what, ref / sp)


def run_graded(shape, ctx):
    """Matrices with prescribed singular values, spread over many orders of magnitude, of full rank and deficient."""
    m, k = shape
    for r in sorted({1, 2, 3, min(m, k) // 2, min(m, k) - 1, min(m, k)} - {0}):
        if r > min(m, k):
            continue
        for spread in (0, 1, 2, 3, 5, 6, 8):
            for tag, single in ((0, False), (1, True)):
                rng = M.rng_for("graded", m, k, r, spread, tag)
                U, V = (np.linalg.qr(rng.normal(size=(n, r)))[0] for n in (m, k))
                s = np.ones(r) if single else np.logspace(0, -spread, r)
                s[-1] = 10.0 ** -spread if r > 1 else 1.0
                cond = 1 / s[-1]
                # a rank-deficient matrix is one only up to rounding, so that its small singular values have to stay clear of that
                if r < min(m, k) and cond > 1e6:
                    ctx.skip("kept and dropped singular values too close")
                    continue
                for scale in (1.0, 1e30, 1e-30):
                    A = (U * s) @ V.T * scale
                    ref = (V / s) @ U.T / scale
                    ctx.begin(A)
                    what = f"{shape} rank {r} condition number {cond:g} scale {scale:g}"
                    tol = 1e-13 * cond * max(m, k)
                    for q in (1, 3):
                        B, C = rng.normal(size=(m, q)), rng.normal(size=(q, k))
                        for b in ("C", "F"):
                            ctx.close(left_mul_pinv(M._layout(A, b), B), ref @ B, what + f": left_mul_pinv with {q} columns, layout {b}", tol=tol, scale=cond / scale * np.linalg.norm(B))
                            ctx.close(right_mul_pinv(C, M._layout(A, b)), C @ ref, what + f": right_mul_pinv with {q} rows, layout {b}", tol=tol, scale=cond / scale * np.linalg.norm(C))
                    # in the range the result is exact up to one condition number only
                    x, y = V @ rng.normal(size=(r, 2)), rng.normal(size=(2, r)) @ U.T
                    ctx.close(left_mul_pinv(A, A @ x), x, what + ": left_mul_pinv(A, A x)", tol=tol, scale=1 + np.linalg.norm(x))
                    ctx.close(right_mul_pinv(y @ A, A), y, what + ": right_mul_pinv(y A, A)", tol=tol, scale=1 + np.linalg.norm(y))
                    ctx.step(what, ref * scale / cond)
                    ctx.traces += 1


def rank_of(A):
    s = np.linalg.svd(A, compute_uv=False)
    return int(np.sum(s > 1e-9 * max(s[0], 1e-300))) if s[0] > 0 else 0


def run_projector(X, Y, ctx, what):
    k = rank_of(X)
    W = Y.T @ X
    if k == 0 or rank_of(Y) != k or rank_of(W) != k:
        ctx.skip("no projector onto range(X) along the complement of range(Y)")
        return
    s = np.linalg.svd(W, compute_uv=False)
    cond = np.linalg.norm(X) * np.linalg.norm(Y) / s[k - 1]
    P = projector(X, Y)
    n = X.shape[0]
    # reference: solve for P from P X0 = X0, P N = 0 with N the complement of range(Y)
    X0 = np.linalg.svd(X)[0][:, :k]
    N = np.linalg.svd(Y)[0][:, k:]
    ref = np.hstack([X0, np.zeros((n, n - k))]) @ np.linalg.inv(np.hstack([X0, N]))
    ctx.close(P, ref, what, tol=1e-10 * cond, scale=1.0 + np.max(np.abs(ref)))
    ctx.close(P @ X, X, what + ": P X = X", tol=1e-9 * cond, scale=np.max(np.abs(X)) * (1 + np.max(np.abs(ref))))
    ctx.close(Y.T @ P, Y.T, what + ": Y^T P = Y^T", tol=1e-9 * cond, scale=np.max(np.abs(Y)) * (1 + np.max(np.abs(ref))))
    ctx.step("projector", P)


def run_case(case, ctx):
    shape = tuple(case["shape"])
    if case["kind"] == "matricize":
        return run_matricize(shape, ctx)
    if case["kind"] == "pinv":
        for i in range(case["from"], case["to"]):
            A = ternary(i, shape)
            ctx.begin(A)
            run_pinv(A, ctx, f"{A.tolist()}", shape != (3, 3) or i % 4 == 0)
        return
    if case["kind"] == "larger":
        m, k = shape
        for r in sorted({1, 2, 3, min(m, k) - 1, min(m, k)} - {0}):
            for tag in range(6):
                rng = M.rng_for("pinv", m, k, r, tag)
                if r > min(m, k):
                    continue
                A = (rng.randint(-3, 4, size=(m, r)) @ rng.randint(-3, 4, size=(r, k))).astype(float)
                if tag % 2 and r == min(m, k):
                    A = rng.normal(size=(m, k))
                s = np.linalg.svd(A, compute_uv=False)
                kept = s[s > 1e-9 * max(s[0], 1e-300)]
                if not len(kept) or kept[-1] < 1e-4 * s[0]:
                    ctx.skip("ill-conditioned")
                    continue
                ctx.begin(A)
                for scale in (1.0, 2.0 ** 200, 2.0 ** -200):
                    run_pinv(A * scale, ctx, f"{shape} rank {r} number {tag} scale {scale:g}", True)
        return
    if case["kind"] == "graded":
        return run_graded(shape, ctx)
    if case["kind"] == "projector":
        m, k, l = shape
        for i in range(case["from"], case["to"]):
            X = ternary(i, (m, k))
            ctx.begin(X)
            if X.any():
                U, s, _ = np.linalg.svd(X)
                U = U[:, :rank_of(X)]
                ctx.close(projector(X), U @ U.T, f"projector({X.tolist()})", tol=1e-9, scale=1.0)
            for j in range(i % case["stride"], 3 ** (m * l), case["stride"]):
                Y = ternary(j, (m, l))
                run_projector(X, Y, ctx, f"projector({X.tolist()}, {Y.tolist()})")
                ctx.traces += 1
        return
    m, k = shape
    for tag in range(8):
        rng = M.rng_for("projector", m, k, tag)
        X, Y = rng.normal(size=(m, k)), rng.normal(size=(m, k))
        ctx.begin(X)
        for a, b in ((X, Y), (X * 1e5, Y * 1e-8), (X, None), (X[:, :1] @ X[:1], Y[:, :1] @ Y[:1]), (M._layout(X, "F"), M._layout(Y, "strided")),
                     (X[:, :1] @ X[:1] * 1e20, Y[:, :1] @ Y[:1] * 1e-30), (X[:, :2] @ X[:2], Y[:, :2] @ Y[:2])):
            if b is None:
                U = np.linalg.svd(a)[0][:, :k]
                ctx.close(projector(a), U @ U.T, f"projector {shape} {tag}", tol=1e-9, scale=1.0)
            else:
                run_projector(a, b, ctx, f"projector {shape} number {tag}")
