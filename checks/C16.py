"""C16: rank trimming against its definition, exhaustively over small shapes and rank requests."""
import itertools

import numpy as np

from lib import model as M
from checks.C05 import trim_ref
from tt_sketch.utils import process_tt_rank, trim_ranks

PROPERTY = "C16"
RULE = ("every shape and every rank request within the bounds: the trimmed ranks equal the largest admissible ranks below the request, found (1) by "
        "complete search over all smaller rank vectors in the inner bounds and (2) by the closed form max-min formula elsewhere; integer, tuple, list and "
        "array requests, Python and numpy integers, with and without trimming; wrong lengths are rejected; plus long chains up to order 1000, and dimensions and ranks at the limits of the 32 and 64 bit integers")
BOUNDS = {"quick": "order 2-4 with dims 1..4 and ranks 1..7 (every rank vector), order 5 with dims 1..2 and ranks 1..5, order 6 dims 1..2 ranks {1,2,3,9}; search for order 2-3 ranks <= 5",
          "thorough": "order 5 with dims 1..3, order 6 with ranks 1..5, order 7 with dims 1..2; search for order 4"}


def admissible(shape, r):
    e = (1,) + tuple(r) + (1,)
    return all(e[i + 1] <= e[i] * shape[i] and e[i] <= e[i + 1] * shape[i] for i in range(len(shape)))


def search(shape, req):
    """Component-wise largest admissible vector below req by complete search (and its uniqueness)."""
    adm = [r for r in itertools.product(*[range(1, q + 1) for q in req]) if admissible(shape, r)]
    best = tuple(max(c) for c in zip(*adm))
    assert best in adm
    return best


def grid(tier):
    th = tier == "thorough"
    yield 2, (1, 2, 3, 4, 7), range(1, 8)
    yield 3, (1, 2, 3, 4, 5), range(1, 8)
    yield 4, (1, 2, 3, 4), range(1, 8)
    yield 5, (1, 2, 3) if th else (1, 2), range(1, 6)
    yield 6, (1, 2), range(1, 6) if th else (1, 2, 3, 9)
    if th:
        yield 7, (1, 2), (1, 2, 3, 5)
        yield 6, (1, 2, 3), (1, 2, 4, 30)


def cases(tier):
    for d, dims, ranks in grid(tier):
        for shape in itertools.product(dims, repeat=d):
            yield {"kind": "all", "shape": shape, "ranks": list(ranks), "search": tier == "thorough" and d <= 4 or d <= 3}
    for d in (2, 3, 4):
        yield {"kind": "machine words", "order": d, "dims": (2, 2 ** 16, 2 ** 31 - 1, 2 ** 40),
               "values": (1, 2 ** 16, 2 ** 31 - 1, 2 ** 33, 2 ** 62, 2 ** 63 - 1)}
    for d in (50, 99, 100, 101, 102, 103, 150, 201, 300) + ((700, 1000) if tier == "thorough" else ()):
        yield {"kind": "long", "order": d}


def equal(ctx, got, exp, what):
    ctx.comparisons += 1
    if not isinstance(got, tuple) or tuple(int(g) for g in got) != tuple(exp) or any(int(g) != g for g in got):
        ctx.fail(f"{what}: got {got!r}, expected {tuple(exp)!r}")


def run_case(case, ctx):
    if case["kind"] == "machine words":
        # requests and dimensions whose products leave the 32 or 64 bit integers, as Python and as NumPy integers
        n = case["order"] - 1
        big = case["values"]
        for shape in itertools.product(case["dims"], repeat=n + 1):
            for req in itertools.product(big, repeat=n):
                exp = trim_ref_fast(shape, req)
                ctx.begin((shape, req))
                what = f"shape {shape} request {req}"
                equal(ctx, process_tt_rank(req, shape, trim=True), exp, what)
                for dt in (np.int32, np.int64, np.uint64):
                    if max(req) > np.iinfo(dt).max or max(shape) > np.iinfo(dt).max:
                        continue
                    a, nshape = np.array(req, dtype=dt), tuple(np.array(shape, dtype=dt))
                    equal(ctx, process_tt_rank(a, shape, trim=True), exp, f"{what} as {dt.__name__} array")
                    equal(ctx, process_tt_rank(tuple(a), nshape, trim=True), exp, f"{what} as {dt.__name__} scalars with such dimensions")
                    equal(ctx, process_tt_rank(req, nshape, trim=True), exp, f"{what} with {dt.__name__} dimensions")
                    equal(ctx, trim_ranks(nshape, tuple(a)), exp, f"{what} trim_ranks of {dt.__name__}")
                    equal(ctx, process_tt_rank(a, nshape, trim=False), req, f"{what} as {dt.__name__} untrimmed")
                ctx.step("trim", exp)
            for v in big:
                for dt in (int, np.int32, np.int64, np.uint64):
                    if dt is not int and v > np.iinfo(dt).max:
                        continue
                    equal(ctx, process_tt_rank(dt(v), shape, trim=True), trim_ref_fast(shape, (v,) * n), f"shape {shape} integer {dt.__name__}({v})")
        return
    if case["kind"] == "long":
        d = case["order"]
        n = d - 1
        for name, shape in (("ones", (5,) + (1,) * (d - 2) + (5,)), ("ones2", (1,) * d), ("twos", (2,) * d), ("mixed", (3,) + tuple(1 + (i % 7 == 0) for i in range(d - 2)) + (4,)),
                            ("large", (10,) * d), ("huge dims", (2 ** 31, 3, 2 ** 40) * (d // 3) + (2,) * (d % 3))):
            for req in ([5] * n, [5] * (n - 1) + [1], [1] + [5] * (n - 1), [1 + (i * 7) % 11 for i in range(n)], [3 if i == n // 2 else 1000 for i in range(n)], [10 ** 6] * n):
                exp = list(trim_ref_fast(shape, req))
                ctx.begin((d, name, tuple(req)))
                what = f"order {d} {name} request {req[:3]}..."
                equal(ctx, process_tt_rank(tuple(req), shape, trim=True), exp, what)
                equal(ctx, process_tt_rank(tuple(req), tuple(np.array(shape)), trim=True), exp, what + " with numpy dimensions")
                equal(ctx, trim_ranks(shape, tuple(req)), exp, what + " trim_ranks")
                equal(ctx, process_tt_rank(req, shape, trim=False), req, what + " untrimmed")
                equal(ctx, process_tt_rank(np.array(req), shape, trim=True), exp, what + " as an array")
                equal(ctx, trim_ranks(tuple(np.array(shape)), tuple(np.array(req))), exp, what + " trim_ranks of numpy integers")
                ctx.step("trim", exp)
            for r in (1, 7, 10 ** 6):
                equal(ctx, process_tt_rank(r, shape, trim=True), trim_ref_fast(shape, [r] * n), f"order {d} {name} integer {r}")
        return
    shape = tuple(case["shape"])
    n = len(shape) - 1
    memo = {}
    for req in itertools.product(case["ranks"], repeat=n):
        exp = trim_ref(shape, req)
        if exp != trim_ref_fast(shape, req):
            raise AssertionError(f"reference formulas disagree for {shape} {req}")
        if case["search"] and max(req) <= 5:
            if req not in memo:
                memo[req] = search(shape, req)
            if memo[req] != exp:
                raise AssertionError(f"reference formula wrong for {shape} {req}")
        ctx.begin((shape, req))
        what = f"shape {shape} request {req}"
        equal(ctx, process_tt_rank(req, shape, trim=True), exp, what)
        ctx.step("trim", exp)
        if sum(req) % 3 == 0 or n == 1:
            equal(ctx, trim_ranks(shape, req), exp, what + " trim_ranks")
            equal(ctx, process_tt_rank(list(req), list(shape), trim=True), exp, what + " as lists")
            equal(ctx, process_tt_rank(np.array(req), tuple(np.array(shape)), trim=True), exp, what + " as arrays")
            equal(ctx, process_tt_rank(req, shape, trim=False), req, what + " untrimmed")
            equal(ctx, process_tt_rank(list(req), shape, trim=False), req, what + " list untrimmed")
            equal(ctx, process_tt_rank(exp, shape, trim=True), exp, what + " trimmed twice")
    for r in case["ranks"]:
        for v in (r, np.int64(r), np.int32(r)):
            equal(ctx, process_tt_rank(v, shape, trim=False), (r,) * n, f"shape {shape} integer {v!r} untrimmed")
            equal(ctx, process_tt_rank(v, shape, trim=True), trim_ref(shape, (r,) * n), f"shape {shape} integer {v!r}")
    for m in list(range(0, n)) + [n + 1, n + 2]:
        for trim in (True, False):
            for form in (tuple, list):
                ctx.raises(lambda: process_tt_rank(form([2] * m), shape, trim=trim), f"shape {shape}: {m} ranks (trim={trim})")


def trim_ref_fast(shape, req):
    """Two sweeps; equals the closed form (compared with it in all the exhaustive cases)."""
    r = [1] + [int(q) for q in req] + [1]
    d = len(shape)
    for i in range(d):
        r[i + 1] = min(r[i + 1], r[i] * int(shape[i]))
    for i in range(d - 1, -1, -1):
        r[i] = min(r[i], r[i + 1] * int(shape[i]))
    return tuple(r[1:-1])
