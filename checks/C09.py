"""C09: the lazy Gaussian matrix as a function of (seed, multi-index, column)."""
import itertools

import numpy as np

from lib import lazy as Z
from lib import model as M

PROPERTY = "C09"
RULE = ("per configuration the full matrix is read once (one query of all indices); then every ordered batch with repetition up to a "
        "length, every integer type and container, every column range (by slicing and by rank increase), every seed class and all "
        "corner indices of huge shapes are queried and compared entry by entry; hash preimages make the extreme values occur")
BOUNDS = {"quick": "all batches of length <=3 for shapes with <=6 entries (<=2 for <=16), 11 huge shapes up to 2^63 entries, 6 shapes (order up to 30) with up to 20000 indices per query and 300 columns, 170 extreme hash values x 3 columns x 3 seeds",
          "thorough": "batches up to length 4 (2), 700 extreme hash values, more seeds"}
SEEDS = [0, 1, 7, 2**31, 2**32 - 2]
SHAPES = [((2, 3), (3,)), ((3, 2), (2,)), ((2, 2, 2), (2, 3)), ((4, 2, 2), (3, 1)), ((1, 5), (2,)), ((2, 1, 3, 2), (1, 2, 3)), ((3, 4), (4,)), ((2, 2, 2, 2), (2, 1, 2)),
          ((1, 1, 4), (2, 2))]


def cases(tier):
    th = tier == "thorough"
    for shape, rank in SHAPES:
        for right in (False, True):
            for seed in SEEDS[:5 if th else 3]:
                yield {"kind": "batch", "shape": shape, "rank": rank, "right": right, "seed": seed, "longest": (4 if th else 3) if M.prod(shape) <= 6 else 2}
    for shape, rank in SHAPES + [((7, 5, 6), (4, 5)), ((40, 3), (6,))]:
        for right in (False, True):
            for seed in SEEDS:
                yield {"kind": "columns", "shape": shape, "rank": rank, "right": right, "seed": seed}
    for shape in Z.HUGE:
        for right in (False, True):
            for seed in SEEDS[1:5 if th else 4]:
                yield {"kind": "huge", "shape": shape, "right": right, "seed": seed}
    for col in range(6 if th else 3):
        for seed in SEEDS[:5 if th else 3]:
            for fastest in (True, False):
                yield {"kind": "extreme", "col": col, "seed": seed, "tier": tier, "fastest": fastest}
    for shape in HISTORY:
        for right in (False, True):
            yield {"kind": "history", "shape": shape, "right": right, "seed": SEEDS[len(shape) % 5]}
    for shape in LARGE:
        for right in (False, True):
            yield {"kind": "large", "shape": shape, "right": right, "seed": SEEDS[len(shape) % 5], "tier": tier}
    for seed in SEEDS:
        for right in (False, True):
            yield {"kind": "normal", "seed": seed, "right": right}
    yield {"kind": "seeds", "n": 64 if th else 24}


HISTORY = [(7, 9), (4, 3, 5), (2, 3, 2, 4), (70, 2), (3, 41)]
LARGE = [(40, 30, 20), (7, 2, 3, 2, 5, 2, 2, 3), (2,) * 20, (1000, 1000, 1000), (3, 1) * 15, (60000, 3)]
LENGTHS = (63, 64, 65, 127, 129, 255, 257, 513, 1023, 1024, 1025, 1500, 2047, 2049, 4097, 5001, 10007, 20000)


def drm(rank, shape, right, seed):
    return M.make_drm("sgauss", rank, shape, right, seed)


def run_case(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def run_batch(case, ctx):
    shape, right = tuple(case["shape"]), case["right"]
    D = drm(case["rank"], shape, right, case["seed"])
    full = M.drm_matrices(D, shape, right)
    ctx.begin((shape, case["rank"], right, case["seed"]))
    for inds in Z.batches(shape, case["longest"]):
        want = Z.take(full, inds, shape, right)
        got = Z.query(D, shape, inds)
        for mu, (g, w) in enumerate(zip(got, want)):
            ctx.close(g, w, f"shape {shape} {'right' if right else 'left'} batch {inds.T.tolist()} unfolding {mu}", tol=1e-13)
        ctx.step(inds.tobytes(), got)
    # longer batches in every container and type
    size = M.prod(shape)
    for k in range(1, size + 1):
        flat = (np.arange(k * 3) * 7 + k) % size
        inds = np.array(np.unravel_index(flat, shape))
        want = Z.take(full, inds, shape, right)
        for name, form in Z.forms(inds):
            keep = np.array(form)
            got = Z.query(D, shape, form)
            ctx.true(np.array_equal(keep, np.array(form)), f"{name} indices were modified")
            for mu, (g, w) in enumerate(zip(got, want)):
                ctx.close(g, w, f"shape {shape} right={right} indices as {name}: {inds.T.tolist()} unfolding {mu}", tol=1e-13)
            ctx.step((k, name), got)


def run_columns(case, ctx):
    shape, right, rank, seed = tuple(case["shape"]), case["right"], tuple(case["rank"]), case["seed"]
    D = drm(rank, shape, right, seed)
    full = M.drm_matrices(D, shape, right)
    ctx.begin((shape, rank, right, seed))
    allv = []
    for mu, m in enumerate(full):
        ctx.equal(m.shape[0], rank[mu], f"shape {shape} right={right}: number of columns for unfolding {mu}")
        ctx.true(bool(np.all(np.isfinite(m))), f"shape {shape} right={right} seed {seed}: non-finite entries")
        ctx.true(len(np.unique(m)) == m.size, f"shape {shape} right={right} seed {seed} unfolding {mu}: entries repeat")
        allv.append(m)
    ranges = list(itertools.product(*[[(a, b) for a in range(r + 1) for b in range(a, r + 1)] for r in rank]))
    for rg in ranges:
        S = D.slice(tuple(a for a, _ in rg), tuple(b for _, b in rg))
        got = M.drm_matrices(S, shape, right)
        for mu, (a, b) in enumerate(rg):
            ctx.close(got[mu], full[mu][a:b], f"shape {shape} right={right} columns {rg} unfolding {mu}", tol=1e-13, scale=1.0)
        ctx.step(rg, got)
    for extra in itertools.product((0, 1, 5), repeat=len(rank)):
        big = tuple(r + e for r, e in zip(rank, extra))
        for how, B in (("increased", D.increase_rank(big)), ("constructed", drm(big, shape, right, seed))):
            got = M.drm_matrices(B, shape, right)
            for mu in range(len(rank)):
                ctx.close(got[mu][:rank[mu]], full[mu], f"shape {shape} right={right}: first columns of the {how} DRM of rank {big}, unfolding {mu}", tol=1e-13, scale=1.0)
                ctx.equal(got[mu].shape[0], big[mu], f"rank of the {how} DRM")
            ctx.step((how, big), got)
    # the matrices of the order-d shape and of the reversed shape seen from the other side agree
    M2 = M.drm_matrices(drm(rank[::-1], shape[::-1], not right, seed), shape[::-1], not right)
    for mu in range(len(rank)):
        a, b = full[mu], M2[len(rank) - 1 - mu]
        modes = shape[mu + 1:] if right else shape[:mu + 1]
        a = a.reshape((-1,) + modes).transpose([0] + list(range(len(modes), 0, -1))).reshape(a.shape[0], -1)
        ctx.close(b, a, f"shape {shape} right={right}: mirrored DRM, unfolding {mu}", tol=1e-13, scale=1.0)


def run_huge(case, ctx):
    shape, right = tuple(case["shape"]), case["right"]
    if right:
        shape = shape[::-1]
    d = len(shape)
    D = drm((3,) * (d - 1), shape, right, case["seed"])
    inds = Z.corner_batch(shape)
    got = Z.query(D, shape, inds)
    ctx.begin((shape, right, case["seed"]))
    for mu, g in enumerate(got):
        modes = list(range(mu + 1, d)) if right else list(range(mu + 1))
        what = f"shape {shape} right={right} seed {case['seed']} unfolding {mu}"
        ctx.true(bool(np.all(np.isfinite(g))), what + ": non-finite entries")
        keys = [tuple(int(inds[k, j]) for k in modes) for j in range(inds.shape[1])]
        first = {}
        for j, k in enumerate(keys):
            if k in first:
                ctx.true(bool(np.allclose(g[:, j], g[:, first[k]], rtol=1e-13)), what + f": index {k} has two values")
            else:
                first[k] = j
        cols = g[:, sorted(first.values())]
        ctx.true(len(np.unique(cols)) == cols.size, lambda: what + f": different indices share entries: {_dups(keys, g, first)}")
    ctx.step("all", got)
    # one at a time, reversed, and in other integer types
    step = max(1, inds.shape[1] // 200)
    for j in range(0, inds.shape[1], step):
        one = Z.query(D, shape, inds[:, j:j + 1])
        for mu, (a, g) in enumerate(zip(one, got)):
            ctx.close(a, g[:, j:j + 1], f"shape {shape} right={right}: index {inds[:, j].tolist()} alone and in a batch, unfolding {mu}", tol=1e-13)
        ctx.step(("one", j), one)
    rev = Z.query(D, shape, np.ascontiguousarray(inds[:, ::-1]))
    for mu, (a, g) in enumerate(zip(rev, got)):
        ctx.close(a[:, ::-1], g, f"shape {shape} right={right}: batch in reversed order, unfolding {mu}", tol=1e-13)
    for name, form in Z.forms(inds):
        r = Z.query(D, shape, form)
        for mu, (a, g) in enumerate(zip(r, got)):
            ctx.close(a, g, f"shape {shape} right={right}: indices as {name}, unfolding {mu}", tol=1e-13)
        ctx.step(name, r)
    # smaller types, where the values fit but the products with the strides do not
    small = inds[:, (inds.max(axis=0) < 128)]
    want = [g[:, (inds.max(axis=0) < 128)] for g in got]
    for name, form in Z.forms(small):
        for mu, (a, g) in enumerate(zip(Z.query(D, shape, form), want)):
            ctx.close(a, g, f"shape {shape} right={right}: small indices as {name}, unfolding {mu}", tol=1e-13)


def run_history(case, ctx):
    shape, right = tuple(case["shape"]), case["right"]
    ctx.begin((shape, right))
    Z.run_history(ctx, drm((3,) * (len(shape) - 1), shape, right, case["seed"]), shape, right, 1e-13, f"shape {shape} right={right}")


def run_large(case, ctx):
    """Many indices in one query (in several orders), many columns, many modes: all agree with queries of 50 indices and few columns."""
    shape, right = tuple(case["shape"]), case["right"]
    d = len(shape)
    top = max(LENGTHS) if case["tier"] == "thorough" or d < 4 else 2049
    flat = (np.arange(top, dtype=object) * 7919 + 11) % M.prod(shape)
    inds = np.zeros((d, top), dtype=np.int64)
    for k in range(d - 1, -1, -1):
        inds[k] = (flat % shape[k]).astype(np.int64)
        flat = flat // shape[k]
    r = 2 if d > 4 else 4
    D = drm((r,) * (d - 1), shape, right, case["seed"])
    want = [np.concatenate(w, axis=1) for w in zip(*[Z.query(D, shape, inds[:, k:k + 50]) for k in range(0, top, 50)])]
    ctx.begin((shape, right))
    for n in [x for x in LENGTHS if x <= top]:
        for order in (np.arange(n), np.arange(n)[::-1], (np.arange(n) * 31 + 7) % n, np.arange(n) // 2, np.full(n, n - 1)):
            got = Z.query(D, shape, inds[:, order])
            for mu, (g, w) in enumerate(zip(got, want)):
                ctx.close(g, w[:, order], f"shape {shape} right={right}: {n} indices in one query, unfolding {mu}", tol=1e-13, scale=1.0)
            ctx.step((n, order.tobytes()), got)
    wide = inds[:, :40]
    for R in (33, 64, 65, 100, 129, 257, 300) + ((33000, 70000) if d < 4 else ()):
        W = drm((R,) * (d - 1), shape, right, case["seed"])
        got = Z.query(W, shape, wide)
        for mu, g in enumerate(got):
            ctx.close(g[:r], want[mu][:, :40], f"shape {shape} right={right}: first columns of {R}, unfolding {mu}", tol=1e-13, scale=1.0)
        for a, b in ((R - 3, R), (R // 2, R // 2 + 2), (31, 33)):
            part = Z.query(W.slice((a,) * (d - 1), (b,) * (d - 1)), shape, wide)
            for mu, (g, p) in enumerate(zip(got, part)):
                ctx.close(p, g[a:b], f"shape {shape} right={right}: columns {a} to {b} of {R}, unfolding {mu}", tol=1e-13, scale=1.0)
        ctx.step(R, got)


def _dups(keys, g, first):
    seen = {}
    for k, j in first.items():
        for c in range(g.shape[0]):
            v = float(g[c, j])
            if v in seen:
                return f"{seen[v]} and {(k, c)} both have {v}"
            seen[v] = (k, c)
    return ""


def run_extreme(case, ctx):
    col, seed = case["col"], case["seed"]
    inds, used = Z.preimages(Z.extreme_hashes(case["tier"]), col, seed, case["fastest"])
    ctx.count("extreme_hash_values", len(used))
    ctx.begin((col, seed, case["fastest"]))
    for right in (False, True):
        shape = Z.BIG[::-1] if right else Z.BIG
        ii = np.ascontiguousarray(inds[::-1]) if right else inds
        D = drm((col + 1, col + 1), shape, right, seed)
        got = Z.query(D, shape, ii)
        for mu, g in enumerate(got):
            what = f"right={right} seed {seed} unfolding {mu}"
            bad = np.argwhere(~np.isfinite(g))
            ctx.true(len(bad) == 0, lambda: what + f": entry at index {ii[:, bad[0][1]].tolist()} of shape {shape}, column {bad[0][0]} is {g[tuple(bad[0])]}")
            ctx.true(bool(np.all(np.abs(g) < 9)), what + f": largest entry {np.max(np.abs(g))}")
        for j in range(inds.shape[1]):
            one = Z.query(D, shape, ii[:, j:j + 1])
            for mu in range(2):
                ctx.close(one[mu], got[mu][:, j:j + 1], f"right={right} seed {seed} index {ii[:, j].tolist()} alone, unfolding {mu}", tol=1e-13)
            ctx.step((right, j), one)


def run_normal(case, ctx):
    """Moments over a complete matrix (fixed seeds, so this is deterministic): 6 standard deviations of slack."""
    shape, right = (24, 16, 30), case["right"]
    D = drm((5, 6), shape, right, case["seed"])
    ctx.begin((case["seed"], right))
    for mu, m in enumerate(M.drm_matrices(D, shape, right)):
        n = m.size
        what = f"seed {case['seed']} right={right} unfolding {mu}"
        ctx.true(abs(np.mean(m)) < 6 / np.sqrt(n), what + f": mean {np.mean(m)}")
        ctx.true(abs(np.mean(m**2) - 1) < 6 * np.sqrt(2 / n), what + f": variance {np.mean(m**2)}")
        ctx.true(abs(np.mean(m**3)) < 6 * np.sqrt(15 / n), what + f": third moment {np.mean(m**3)}")
        ctx.true(abs(np.mean(m**4) - 3) < 6 * np.sqrt(96 / n), what + f": fourth moment {np.mean(m**4)}")
        G = m @ m.T / m.shape[1]
        ctx.true(np.max(np.abs(G - np.eye(len(G)))) < 6 * np.sqrt(2 / m.shape[1]), what + ": columns are correlated")
        ctx.step(mu, m)


def run_seeds(case, ctx):
    shape = (5, 4, 3)
    seen = {}
    ctx.begin("seeds")
    for s in list(range(case["n"])) + [2**16, 2**31, 2**32 - 2]:
        for right in (False, True):
            a = M.drm_matrices(drm((2, 3), shape, right, s), shape, right)
            b = M.drm_matrices(drm((2, 3), shape, right, s), shape, right)
            for mu, (x, y) in enumerate(zip(a, b)):
                ctx.close(x, y, f"seed {s}: two DRMs, unfolding {mu}", tol=1e-13)
                k = (right, mu, round(float(x[0, 0]), 12))
                ctx.true(k not in seen, f"seeds {seen.get(k)} and {s} give the same entry")
                seen[k] = s
            ctx.step((s, right), a)
