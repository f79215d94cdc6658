"""C10: rows of the sparse sign matrix."""
import itertools

import numpy as np

from lib import lazy as Z
from lib import model as M

PROPERTY = "C10"
RULE = ("all shapes x ranks x per-bond numbers of non-zeros x sides x seeds: the full matrix is read by querying all indices, every row "
        "is checked; every ordered index batch up to a length, integer type, container, column range (all slices) and the corner indices "
        "of huge shapes are compared with it; hash preimages make the extreme values occur")
BOUNDS = {"quick": "ranks up to 4 with all numbers of non-zeros per bond, batches of length <=3 for shapes with <=6 entries, 11 huge shapes, 5 shapes (order up to 20) with up to 20000 indices per query and 1100 columns, 170 extreme hash values x all (rank, nnz) up to 6",
          "thorough": "ranks up to 5, more seeds, 700 extreme hash values, ranks up to 9"}
SEEDS = [0, 1, 7, 2**31, 2**32 - 2]
SHAPES = [(2, 3), (3, 2), (4, 3), (2, 2, 2), (3, 1, 2), (2, 3, 2), (1, 4), (2, 2, 2, 2), (1, 1, 3)]


def cases(tier):
    th = tier == "thorough"
    top = 5 if th else 4
    for shape in SHAPES:
        n = len(shape) - 1
        ranks = [(r,) * n for r in range(1, top + 1)] + [tuple(1 + (i + k) % top for i in range(n)) for k in range(top) if n > 1]
        for rank in dict.fromkeys(ranks):
            for right in (False, True):
                for seed in SEEDS if th else SEEDS[1:4]:
                    yield {"kind": "rows", "shape": shape, "rank": rank, "right": right, "seeds": [seed], "all": th and n < 3}
    for shape in Z.HUGE:
        for right in (False, True):
            yield {"kind": "huge", "shape": shape, "right": right, "seed": 7}
    for rank in range(1, 10 if th else 7):
        for col in range(min(rank, 4 if th else 3)):
            for seed in SEEDS[:3]:
                for fastest in (True, False):
                    yield {"kind": "extreme", "rank": rank, "col": col, "seed": seed, "tier": tier, "fastest": fastest}
    for shape in HISTORY:
        for right in (False, True):
            yield {"kind": "history", "shape": shape, "right": right, "seed": SEEDS[len(shape) % 5]}
    for shape in LARGE:
        for right in (False, True):
            yield {"kind": "large", "shape": shape, "right": right, "seed": SEEDS[len(shape) % 5]}
    for seed in SEEDS:
        for right in (False, True):
            for nnz in ((1, 5), (2, 3), (5, 1), (3, 3), (4, 2)):
                yield {"kind": "spread", "seed": seed, "right": right, "nnz": nnz}


HISTORY = [(7, 9), (4, 3, 5), (2, 3, 2, 4), (70, 2), (3, 41)]
LARGE = [(40, 30, 20), (7, 2, 3, 2, 5, 2, 2, 3), (2,) * 20, (1000, 1000, 1000), (60000, 3)]
LENGTHS = (64, 65, 129, 257, 513, 1023, 1024, 1025, 2049, 5001, 20000)


def drm(rank, shape, right, seed, nnz=None):
    kw = {} if nnz is None else {"num_non_zero_per_row": nnz}
    return M.make_drm("sign", rank, shape, right, seed, **kw)


def check_rows(ctx, m, rank, nnz, what):
    ctx.equal(m.shape[0], rank, what + ": columns")
    if m.size:
        ctx.true(bool(np.all(np.isin(m, (-1.0, 0.0, 1.0)))), lambda: what + f": entries {np.unique(m)}")
    n = np.abs(m).sum(axis=0)
    bad = np.argwhere(n != nnz)
    ctx.true(len(bad) == 0, lambda: what + f": row {bad[0]} has {n[bad[0][0]]} non-zeros instead of {nnz}")


def run_case(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def ranges(rank, every):
    """Column ranges per bond: all combinations, or all of one bond with few of the others."""
    per = [[(a, b) for a in range(r + 1) for b in range(a, r + 1)] for r in rank]
    if every or len(rank) == 1:
        return list(itertools.product(*per))
    out = []
    for k in range(len(rank)):
        for other in (0, 1):
            for x in per[k]:
                out.append(tuple(x if i == k else ((0, r) if other == 0 else (min(1, r), max(r - 1, min(1, r)))) for i, r in enumerate(rank)))
    return list(dict.fromkeys(out))


def run_rows(case, ctx):
    shape, rank, right = tuple(case["shape"]), tuple(case["rank"]), case["right"]
    ctx.begin((shape, rank, right))
    for seed in case["seeds"]:
        for nnz in [None] + list(itertools.product(*[range(0, r + 1) for r in rank])) + sorted({k for k in range(1, min(rank) + 1)}):
            what = f"shape {shape} rank {rank} nnz {nnz} right={right} seed {seed}"
            want = rank if nnz is None else ((nnz,) * len(rank) if isinstance(nnz, int) else nnz)
            for form in ([nnz] if not isinstance(nnz, tuple) else [nnz, list(nnz)]):
                D = drm(rank, shape, right, seed, form)
                full = M.drm_matrices(D, shape, right)
                for mu, m in enumerate(full):
                    check_rows(ctx, m, rank[mu], want[mu], what + f" unfolding {mu}")
            ctx.step((seed, nnz), full)
            for rg in ranges(rank, case["all"]):
                got = M.drm_matrices(D.slice(tuple(a for a, _ in rg), tuple(b for _, b in rg)), shape, right)
                for mu, (a, b) in enumerate(rg):
                    ctx.close(got[mu], full[mu][a:b], what + f" columns {rg} unfolding {mu}", tol=0, scale=1.0)
                ctx.step((seed, nnz, rg), got)
        for longest, nnz in ((3 if M.prod(shape) <= 6 else 2, None), (2, tuple((r + 1) // 2 for r in rank))):
            D = drm(rank, shape, right, seed, nnz)
            full = M.drm_matrices(D, shape, right)
            for inds in Z.batches(shape, longest):
                got = Z.query(D, shape, inds)
                for mu, w in enumerate(Z.take(full, inds, shape, right)):
                    ctx.close(got[mu], w, f"shape {shape} rank {rank} nnz {nnz} right={right} batch {inds.T.tolist()} unfolding {mu}", tol=0, scale=1.0)
                ctx.step(inds.tobytes(), got)
            size = M.prod(shape)
            for k in range(1, size + 1):
                inds = np.array(np.unravel_index((np.arange(3 * k) * 5 + k) % size, shape))
                for name, form in Z.forms(inds):
                    got = Z.query(D, shape, form)
                    for mu, w in enumerate(Z.take(full, inds, shape, right)):
                        ctx.close(got[mu], w, f"shape {shape} rank {rank} nnz {nnz} right={right} indices as {name} unfolding {mu}", tol=0, scale=1.0)


def run_huge(case, ctx):
    shape, right = tuple(case["shape"]), case["right"]
    if right:
        shape = shape[::-1]
    n = len(shape) - 1
    inds = Z.corner_batch(shape)
    ctx.begin((shape, right))
    for rank, nnz in (((64,) * n, None), ((40,) * n, tuple(20 - i for i in range(n)))):
        D = drm(rank, shape, right, case["seed"], nnz)
        got = Z.query(D, shape, inds)
        for mu, g in enumerate(got):
            what = f"shape {shape} right={right} nnz {nnz} unfolding {mu}"
            check_rows(ctx, g, rank[mu], (nnz or rank)[mu], what)
            modes = list(range(mu + 1, n + 1)) if right else list(range(mu + 1))
            rows = {}
            for j in range(inds.shape[1]):
                k = tuple(int(inds[i, j]) for i in modes)
                r = g[:, j].tobytes()
                ctx.true(rows.setdefault(k, r) == r, what + f": row {k} has two values")
            seen = {}
            for k, r in rows.items():  # 2^64 (respectively more) equally likely rows
                ctx.true(seen.setdefault(r, k) == k, what + f": indices {seen[r]} and {k} have the same row")
        ctx.step(nnz, got)
        for j in range(0, inds.shape[1], max(1, inds.shape[1] // 100)):
            one = Z.query(D, shape, inds[:, j:j + 1])
            for mu in range(n):
                ctx.close(one[mu], got[mu][:, j:j + 1], f"shape {shape} right={right} index {inds[:, j].tolist()} alone, unfolding {mu}", tol=0, scale=1.0)
        for name, form in Z.forms(inds):
            for mu, r in enumerate(Z.query(D, shape, form)):
                ctx.close(r, got[mu], f"shape {shape} right={right} indices as {name}, unfolding {mu}", tol=0, scale=1.0)


def run_history(case, ctx):
    shape, right = tuple(case["shape"]), case["right"]
    ctx.begin((shape, right))
    for nnz in (None, (2,) * (len(shape) - 1)):
        Z.run_history(ctx, drm((4,) * (len(shape) - 1), shape, right, case["seed"], nnz), shape, right, 0, f"shape {shape} nnz {nnz} right={right}")


def run_large(case, ctx):
    """Many indices in one query (in several orders), many columns, many modes."""
    shape, right = tuple(case["shape"]), case["right"]
    d = len(shape)
    top = max(LENGTHS) if d < 4 else 1025
    flat = (np.arange(top, dtype=object) * 7919 + 11) % M.prod(shape)
    inds = np.zeros((d, top), dtype=np.int64)
    for k in range(d - 1, -1, -1):
        inds[k] = (flat % shape[k]).astype(np.int64)
        flat = flat // shape[k]
    ctx.begin((shape, right))
    for R, k in ((5, 2), (64, 3), (100, 100), (257, 1), (300, 7), (40, 2), (150, 3), (600, 4), (1100, 2), (130, 129)) + (((33000, 9), (70000, 300), (70000, 70000)) if d < 4 else ()):
        D = drm((R,) * (d - 1), shape, right, case["seed"], (k,) * (d - 1))
        most = top if R == 5 else 5001 if top > 5000 and (R, k) in ((40, 2), (150, 3), (600, 4)) else 600 if R < 30000 else 40
        want = [np.concatenate(w, axis=1) for w in zip(*[Z.query(D, shape, inds[:, j:j + 50]) for j in range(0, most, 50)])]
        for mu, m in enumerate(want):
            check_rows(ctx, m, R, k, f"shape {shape} rank {R} nnz {k} right={right} unfolding {mu}")
        for n in [x for x in LENGTHS if x <= min(want[0].shape[1], 20000 if R < 64 else 600)]:
            for order in (np.arange(n), np.arange(n)[::-1], (np.arange(n) * 31 + 7) % n, np.arange(n) // 2):
                got = Z.query(D, shape, inds[:, order])
                for mu, (g, w) in enumerate(zip(got, want)):
                    ctx.close(g, w[:, order], f"shape {shape} rank {R} nnz {k} right={right}: {n} indices in one query, unfolding {mu}", tol=0, scale=1.0)
                ctx.step((R, n, order.tobytes()), got)
        for a, b in ((R - 3, R), (R // 2, R // 2 + 2), (1, 4)):
            part = Z.query(D.slice((a,) * (d - 1), (b,) * (d - 1)), shape, inds[:, :40])
            for mu, (w, p) in enumerate(zip(want, part)):
                ctx.close(p, w[a:b, :40], f"shape {shape} nnz {k} right={right}: columns {a} to {b} of {R}, unfolding {mu}", tol=0, scale=1.0)


def run_extreme(case, ctx):
    inds, used = Z.preimages(Z.extreme_hashes(case["tier"]), case["col"], case["seed"], case["fastest"])
    ctx.count("extreme_hash_values", len(used))
    rank = case["rank"]
    ctx.begin((rank, case["col"], case["seed"]))
    for right in (False, True):
        shape = Z.BIG[::-1] if right else Z.BIG
        ii = np.ascontiguousarray(inds[::-1]) if right else inds
        for nnz in range(1, rank + 1):
            D = drm((rank, rank), shape, right, case["seed"], (nnz, nnz))
            got = Z.query(D, shape, ii)
            for mu in range(2):
                check_rows(ctx, got[mu], rank, nnz, f"rank {rank} nnz {nnz} right={right} seed {case['seed']}, extreme hash values, unfolding {mu}")
            for j in range(inds.shape[1]):
                one = Z.query(D, shape, ii[:, j:j + 1])
                for mu in range(2):
                    ctx.close(one[mu], got[mu][:, j:j + 1], f"rank {rank} nnz {nnz} right={right} index {ii[:, j].tolist()} alone, unfolding {mu}", tol=0, scale=1.0)
                ctx.step((right, nnz, j), one)


def run_spread(case, ctx):
    """Over a complete matrix (fixed seeds): every column and both signs are used equally often, within 6 standard deviations."""
    shape, right, rank = (18, 16, 20), case["right"], (5, 5)
    D = drm(rank, shape, right, case["seed"], tuple(case["nnz"]))
    ctx.begin((case["seed"], right, case["nnz"]))
    for mu, m in enumerate(M.drm_matrices(D, shape, right)):
        k, n = case["nnz"][mu], m.shape[1]
        p = k / rank[mu]
        what = f"seed {case['seed']} right={right} nnz {case['nnz']} unfolding {mu}"
        check_rows(ctx, m, rank[mu], k, what)
        use = np.abs(m).mean(axis=1)
        ctx.true(np.max(np.abs(use - p)) <= 6 * np.sqrt(p * (1 - p) / n) + 1e-12, what + f": columns are used with frequencies {use}")
        ctx.true(np.max(np.abs(m.mean(axis=1))) <= 6 * np.sqrt(p / n), what + f": signs are unbalanced {m.mean(axis=1)}")
        G = m @ m.T / n
        off = np.max(np.abs(G - np.diag(np.diag(G))))
        ctx.true(off <= 6 * np.sqrt(p / n), what + f": columns are correlated ({off})")
        ctx.step(mu, m)
