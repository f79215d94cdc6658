"""Shared parts of C09/C10: index batches of all kinds and hash preimages that make extreme values occur."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.tensor import SparseTensor

MASK = 2**64 - 1
ADD, MUL1, MUL2 = 0x4BE98134A5976FD3, 0xBF58476D1CE4E5B9, 0x94D049BB133111EB
DTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
HUGE = [(2**16, 2**15, 3), (2**31, 3), (2**32, 2, 2), (2**20, 2**20, 2**20), (3, 2**31 + 11, 5), (2**32 + 7, 2**30, 2), (10**9, 10**9, 7),
        (2**11, 2**11, 2**11, 2**11, 2**11), (100003, 100019, 100043), (1, 2**40, 1, 2**20), (65537, 65539, 65543)]


def fhash(r):
    r = (r + ADD) & MASK
    r ^= r >> 30
    r = r * MUL1 & MASK
    r ^= r >> 27
    r = r * MUL2 & MASK
    return r ^ r >> 31


def _unshift(y, s):
    r = y
    for _ in range(64 // s + 1):
        r = y ^ r >> s
    return r


def fhash_inv(h):
    """The documented 64-bit mixer of the lazy matrices is a bijection; this is its inverse (used only to pick extreme inputs)."""
    r = _unshift(h, 31)
    r = r * pow(MUL2, -1, 2**64) & MASK
    r = _unshift(r, 27)
    r = r * pow(MUL1, -1, 2**64) & MASK
    r = _unshift(r, 30)
    return (r - ADD) & MASK


assert all(fhash_inv(fhash(x)) == x for x in (0, 1, 2**63, MASK, 12345678901234567))


def extreme_hashes(tier):
    """Hash values whose uniform number is at or next to 0, 1/2 and 1, with all exponents and signs; and all single-bit and prefix patterns."""
    out = []
    man = [0, 1, 2, 2**52 - 1, 2**52 - 2, 2**51, 2**51 - 1, 2**51 + 1, 2**26, 2**52 - 2**26]
    man += [1 << k for k in range(0, 52, 1 if tier == "thorough" else 4)] + [(2**52 - 1) ^ ((1 << k) - 1) for k in range(0, 52, 1 if tier == "thorough" else 4)]
    for m in man:
        for e in (0, 1, 2**9 - 1, 2**12 - 1, 0x200, 0x1FF, 0xE00) + ((0x3FF, 0x7FF, 0x800, 0x555) if tier == "thorough" else ()):
            out.append((e << 52 | m) & MASK)
    return sorted(set(out))


# an order-3 shape whose left unfolding covers every 63-bit flat index, first mode varying fastest or slowest alike
BIG = (2**32 - 1, 2**31 - 1, 2)


def preimages(hashes, col, seed, first_fastest=True):
    """Indices (i0, i1) of BIG for which the hash at column `col` of unfolding 1 takes one of the values."""
    inds, used = [], []
    n0, n1 = BIG[0], BIG[1]
    for h in hashes:
        v = (fhash_inv(h) - fhash(col) - seed - 1) & MASK
        i0, i1 = (v % n0, v // n0) if first_fastest else (v // n1, v % n1)
        if i0 < n0 and i1 < n1:
            inds.append((i0, i1, 0))
            used.append(h)
    return np.array(inds, dtype=np.int64).reshape(-1, 3).T, used


def query(drm, shape, inds):
    t = SparseTensor(tuple(shape), inds, np.ones(np.asarray(inds[0]).shape[0]))
    return [np.array(m, dtype=float) for m in drm.sketch_sparse(t)]


def corner_batch(shape):
    """All combinations of extreme positions per mode."""
    per = [sorted({p for p in (0, 1, n // 2, n - 2, n - 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32) if 0 <= p < n}) for n in shape]
    while M.prod(len(p) for p in per) > 3000:
        k = max(range(len(per)), key=lambda i: len(per[i]))
        per[k] = per[k][:1] + per[k][2:]
    return np.array(list(itertools.product(*per)), dtype=np.int64).T


def batches(shape, longest):
    """All ordered index batches with repetition up to a length, as (d, N) arrays."""
    all_inds = list(np.ndindex(*shape))
    for n in range(0, longest + 1):
        for b in itertools.product(all_inds, repeat=n):
            yield np.array(b, dtype=np.int64).reshape(n, len(shape)).T


def forms(inds):
    """The same batch in every admissible container and integer type."""
    top = int(inds.max()) if inds.size else 0
    for dt in DTYPES:
        if top <= np.iinfo(dt).max:
            yield dt, inds.astype(dt)
    yield "tuple", tuple(np.ascontiguousarray(r) for r in inds)
    yield "fortran", np.asfortranarray(inds)
    z = np.zeros((inds.shape[0], 2 * inds.shape[1] + 1), dtype=np.int64)
    z[:, 1::2] = inds
    yield "strided", z[:, 1::2]
    yield "reversed view", np.ascontiguousarray(inds[:, ::-1])[:, ::-1]
    ro = inds.copy()
    ro.setflags(write=False)
    yield "read-only", ro


def take(mats, inds, shape, right):
    out = []
    for mu, m in enumerate(mats):
        modes = list(range(mu + 1, len(shape))) if right else list(range(mu + 1))
        flat = np.ravel_multi_index([inds[k] for k in modes], [shape[k] for k in modes]) if inds.size else np.zeros(0, dtype=int)
        out.append(m[:, flat])
    return out


def run_history(ctx, D, shape, right, tol, what):
    """Queries in a row of one object: after each batch, every batch of the same length that differs from it in one index, in the order of
    two, or in the stored array only (the same tensor object, its indices overwritten in place); the answers are those of the full matrix."""
    full = M.drm_matrices(D, shape, right)
    size, start = M.prod(shape), ctx._cur

    def check(got, inds, which):
        for mu, (g, w) in enumerate(zip(got, take(full, inds, shape, right))):
            ctx.close(g, w, f"{what}: {which}, unfolding {mu}", tol=tol, scale=1.0)
        ctx.step(which, got)

    for n in (1, 2, 3, 5, 8, 9, 13, 20, 33, 40):
        flat = (np.arange(n) * 7 + n) % size
        base = np.array(np.unravel_index(flat, shape))
        tensor = SparseTensor(tuple(shape), base.copy(), np.ones(n))
        for j in range(n):
            ctx.goto(start)
            check(query(D, shape, base), base, f"{n} indices")
            other = flat.copy()
            other[j] = (other[j] + 1 + j) % size
            other = np.array(np.unravel_index(other, shape))
            check(query(D, shape, other), other, f"{n} indices, then number {j} changed")
            swap = np.arange(n)
            swap[[j, (j + 1) % n]] = swap[[(j + 1) % n, j]]
            check(query(D, shape, base[:, swap]), base[:, swap], f"{n} indices, then number {j} exchanged with the next")
            tensor.indices[:] = base
            check([np.array(m, dtype=float) for m in D.sketch_sparse(tensor)], base, f"{n} indices, tensor restored")
            tensor.indices[:] = other
            check([np.array(m, dtype=float) for m in D.sketch_sparse(tensor)], other, f"{n} indices, then number {j} overwritten in place")
            ctx.traces += 1
