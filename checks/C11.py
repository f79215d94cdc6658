"""C11: all arithmetic expressions up to a depth over all formats, against dense arithmetic."""
import numpy as np

from lib import model as M
from tt_sketch.tensor import DenseTensor, SparseTensor, Tensor, TensorSum, TensorTrain

PROPERTY = "C11"
RULE = ("bounded-exhaustive enumeration of expressions: level 0 = tensors of every format; level n+1 = every unary operation on level n and "
        "every binary operation between level n and level 0 (both orders); after each operation the shape and the dense value are compared "
        "with the same operation on arrays")
BOUNDS = {"quick": "all expressions of depth 2 over 16 leaves (shared arrays, integer and read-only data among them), 22 unary and 3 binary operations, 5 shapes; depth 3 over 4 leaves and 7+3 operations, 2 shapes; every sequence of entry-moving operations up to length 2 (and a seventh of length 3) on dense and sparse data spanning 5e-324..1e150, 12 shapes, compared entry by entry; depth 1-2 over 10 large leaves (up to 20000 entries, ranks to 70, 35 summands), 6 shapes",
          "thorough": "depth 2 for 12 shapes; depth 3 over 6 leaves and 9+3 operations, 4 shapes"}
SHAPES = [(2, 3), (3, 1, 2), (2, 2, 2, 2), (1, 1), (4, 2, 3)]
MORE = [(5, 2), (1, 3, 1), (2, 3, 4), (3, 3), (1, 2, 3, 2), (2, 1, 2, 1, 2), (7, 3)]
LEAVES = [{"fmt": "dense"}, {"fmt": "sparse"}, {"fmt": "tt", "rank": 2}, {"fmt": "cp", "rank": 2}, {"fmt": "tucker", "rank": 2},
          {"fmt": "sum", "parts": [{"fmt": "tt"}, {"fmt": "sparse"}]}, {"fmt": "sparse", "nnz": "empty"}, {"fmt": "tt", "data": "zero"},
          {"fmt": "sum", "parts": [{"fmt": "cp"}, {"fmt": "sum", "parts": [{"fmt": "dense"}, {"fmt": "tucker"}]}]}, {"fmt": "dense", "layout": "F", "data": "int"},
          {"fmt": "dense", "dtype": "int64"}, {"fmt": "cp", "shared": 1, "rank": 2}, {"fmt": "tt", "shared": 1, "rank": 2},
          {"fmt": "tucker", "shared": 1, "rank": 2, "dtype": "int64"}, {"fmt": "sparse", "data": "neg", "dtype": "int32", "itype": "uint8"},
          {"fmt": "dense", "layout": "ro"}]
CHUNKS = 24
# sizes at which implementations switch to other algorithms
LARGE = [(70, 2, 3), (129, 140), (40, 3, 50), (2,) * 14, (1000, 20), (3, 5, 1100)]
LARGE_LEAVES = [{"fmt": "dense"}, {"fmt": "sparse"}, {"fmt": "sparse", "nnz": "full", "order": "perm"}, {"fmt": "tt", "rank": 40}, {"fmt": "tt", "rank": 2}, {"fmt": "cp", "rank": 70}, {"fmt": "tucker", "rank": 2}, {"fmt": "tucker", "rank": [13, 2, 9] + [1] * 11},
                {"fmt": "sum", "parts": [{"fmt": ("sparse", "tt", "cp", "tucker", "dense")[i % 5], "tag": i, "rank": 1} for i in range(35)]}, {"fmt": "dense", "layout": "F", "data": "int"}]
MAGNITUDES = ["tiny", "huge", "mixed", "mixed-int", "subnormal", "zeros"]


def cases(tier):
    th = tier == "thorough"
    for s in SHAPES + MORE:
        for m in MAGNITUDES:
            yield {"shape": s, "exact": m}
    for s in LARGE:
        for i in range(len(LARGE_LEAVES)):
            yield {"shape": s, "large": i}
    for s in SHAPES + (MORE if th else []):
        for c in range(CHUNKS):
            yield {"shape": s, "depth": 2, "leaves": len(LEAVES), "small": False, "chunk": c}
    for s in [(2, 3), (3, 1, 2)] + ([(2, 2, 2, 2), (3, 2, 2)] if th else []):
        for c in range(CHUNKS * 2):
            yield {"shape": s, "depth": 3, "leaves": 6 if th else 4, "small": True, "more": th, "chunk": c}


class Node:
    __slots__ = ("obj", "ref", "parts", "text", "depth", "mag")

    def __init__(self, obj, ref, parts, text, mag):
        self.obj, self.ref, self.parts, self.text, self.mag = obj, ref, parts, text, mag


def leaf(spec, shape, name):
    T, X = M.build(M.with_shape(spec, shape))
    parts = None
    if spec["fmt"] == "sum":
        parts = [M.build(M.with_shape(p, shape))[1] for p in spec["parts"]]
    return Node(T, X, parts, name, max(float(np.max(np.abs(X))), 1e-290))


def unary(small, more=False):
    """(name, applies, object operation, array operation on one part, scale)"""
    ops = [
        ("-{}", None, lambda x: -x, lambda a: -a, 1),
        ("{}*2.5", None, lambda x: x * 2.5, lambda a: a * 2.5, 2.5),
        ("{}.T", None, lambda x: x.T, lambda a: a.T, 1),
        ("{}+{}", None, lambda x: x + x, "double", 2),
    ]
    special = [("weighted", TensorSum, None, None, 3), ("add", TensorTrain, lambda x: x.add(x * -3), lambda a: a - 3 * a, 4), ("split", SparseTensor, None, None, 1)]
    if more:
        ops += [("{}/4", None, lambda x: x / 4, lambda a: a / 4, 1), ("{}-{}", None, lambda x: x - x, "cancel", 2)]
    if small:
        return ops + special
    return ops + special + [
        ("3*{}", None, lambda x: 3 * x, lambda a: 3 * a, 3),
        ("{}*0", None, lambda x: x * 0, lambda a: a * 0, 1),
        ("{}*np.float64", None, lambda x: x * np.float64(-1.5), lambda a: a * -1.5, 1.5),
        ("np.float64*{}", None, lambda x: np.float64(0.5) * x, lambda a: a * 0.5, 1),
        ("{}*np.int64", None, lambda x: x * np.int64(2), lambda a: a * 2, 2),
        ("{}/4", None, lambda x: x / 4, lambda a: a / 4, 1),
        ("{}/0.125", None, lambda x: x / 0.125, lambda a: a / 0.125, 8),
        ("{}/-2", None, lambda x: x / np.float64(-2), lambda a: a / -2, 1),
        ("1e-30*{}", None, lambda x: 1e-30 * x, lambda a: 1e-30 * a, 1e-30),
        ("{}-{}", None, lambda x: x - x, "cancel", 2),
        ("{}.T.T", None, lambda x: x.T.T, lambda a: a, 1),
        ("{}.dense()", None, lambda x: x.dense(), "merge", 1),
        ("{}.dense().to_sparse()", None, lambda x: x.dense().to_sparse(), "merge", 1),
        ("iadd self", TensorSum, None, None, 2),
        ("wrap", None, lambda x: TensorSum([x]), "merge", 1),
    ]


def apply_unary(ctx, op, n):
    """Nodes resulting from a unary operation (none if it does not apply)."""
    name, cls, fn, ref, scale = op
    if cls is not None and not isinstance(n.obj, cls):
        return
    text = name.replace("{}", n.text) if "{}" in name else f"{name}({n.text})"
    if name == "weighted":
        k = len(n.parts)
        for label, w in (("list", [1.5 - i for i in range(k)]), ("array", np.array([0.5 + i for i in range(k)])), ("tuple", tuple(2 * (-1) ** i for i in range(k)))):
            parts = [c * p for c, p in zip(w, n.parts)]
            yield Node(n.obj * w, sum(parts), parts, f"{n.text}*{label}", n.mag * max(map(abs, w)) * k)
        return
    if name == "split":
        for k in range(1, min(n.obj.nnz, 4) + 3):
            s = n.obj.split(k)
            ctx.equal(s.num_summands, k, f"{n.text}.split({k}): summands")
            ctx.equal(sum(t.nnz for t in s.tensors), n.obj.nnz, f"{n.text}.split({k}): non-zeros")
            parts = [np.array(t.to_numpy()) for t in s.tensors]
            yield Node(s, n.ref, parts, f"{n.text}.split({k})", n.mag)
        return
    if name == "iadd self":
        s = TensorSum(list(n.obj.tensors))
        s += TensorSum(list(n.obj.tensors))
        yield Node(s, n.ref * 2, n.parts + n.parts, text, n.mag * 2)
        return
    obj = fn(n.obj)
    mag = n.mag * scale
    if ref == "double" or ref == "cancel":
        sgn = 1 if ref == "double" else -1
        mine = n.parts if n.parts is not None else [n.ref]
        parts = mine + [sgn * p for p in mine]
        yield Node(obj, n.ref + sgn * n.ref, parts, text, mag)
    elif ref == "merge":
        yield Node(obj, n.ref, [n.ref] if isinstance(obj, TensorSum) else None, text, mag)
    else:
        yield Node(obj, ref(n.ref), None if n.parts is None else [ref(p) for p in n.parts], text, mag)


def binary(a, b):
    pa = a.parts if a.parts is not None else [a.ref]
    pb = b.parts if b.parts is not None else [b.ref]
    yield Node(a.obj + b.obj, a.ref + b.ref, pa + pb, f"({a.text}+{b.text})", a.mag + b.mag)
    yield Node(a.obj - b.obj, a.ref - b.ref, pa + [-p for p in pb], f"({a.text}-{b.text})", a.mag + b.mag)
    left = TensorSum(list(a.obj.tensors)) if isinstance(a.obj, TensorSum) else a.obj
    s = left
    s += b.obj
    yield Node(s, a.ref + b.ref, pa + pb, f"({a.text}+={b.text})", a.mag + b.mag)
    if isinstance(a.obj, TensorTrain) and isinstance(b.obj, TensorTrain):
        yield Node(a.obj.add(b.obj), a.ref + b.ref, None, f"{a.text}.add({b.text})", a.mag + b.mag)


def check(ctx, n):
    ctx.true(isinstance(n.obj, Tensor), lambda: f"{n.text} is a {type(n.obj).__name__}")
    ctx.equal(tuple(n.obj.shape), n.ref.shape, f"{n.text}: shape")
    ctx.equal(n.obj.ndim, n.ref.ndim, f"{n.text}: ndim")
    ctx.close(n.obj.to_numpy(), n.ref, n.text, tol=1e-12, scale=n.mag)
    if isinstance(n.obj, TensorSum):
        ctx.equal(n.obj.num_summands, len(n.obj.tensors), n.text + ": number of summands")
        if n.parts is not None and len(n.parts) != n.obj.num_summands:
            n.parts = None  # nested sums are as good as flat ones; only the weighted operations need the summands
    elif n.parts is not None:
        n.parts = None
    if isinstance(n.obj, TensorSum) and n.parts is None:
        n.parts = [np.array(t.to_numpy()) for t in n.obj.tensors]


def grow(ctx, nodes, leaves, ops):
    for n in nodes:
        for op in ops:
            yield from apply_unary(ctx, op, n)
        for l in leaves:
            if l.ref.shape == n.ref.shape:
                yield from binary(n, l)
                if l is not n:
                    yield from binary(l, n)


def entries(kind, shape):
    """Data of very different magnitudes: no operation that only moves entries may change or lose any of them."""
    rng = M.rng_for("exact", kind, shape)
    x = rng.normal(size=shape)
    k = np.arange(x.size).reshape(shape)
    if kind == "tiny":
        return x * 1e-40
    if kind == "huge":
        return x * 1e150
    if kind == "mixed":
        return x * 10.0 ** (40 * (k % 5) - 90)
    if kind == "mixed-int":
        return np.round(x * 10.0 ** (4 * (k % 4)))
    if kind == "subnormal":
        return np.where(k % 2, 5e-324 * (1 + k % 3), x)
    return np.where(k % 3 == 0, x, np.where(k % 3 == 1, 0.0, 1e-17))


def run_exact(case, ctx):
    shape = tuple(case["shape"])
    X = entries(case["exact"], shape)
    keep = X != 0
    inds = np.array(np.nonzero(keep))
    every = np.array(np.unravel_index(np.arange(X.size), shape))
    rev = tuple(range(len(shape)))[::-1]

    def same(T, ref, text):
        ctx.equal(tuple(T.shape), ref.shape, text + ": shape")
        got = np.asarray(T.to_numpy())
        ctx.true(got.shape == ref.shape and bool(np.all(got == ref)), lambda: f"{text}: an entry changed: got {got!r:.300}, expected {ref!r:.300}")
        ctx.step(text, np.sign(ref))

    for start, T in (("dense", DenseTensor(X.copy())), ("sparse", SparseTensor(shape, inds.copy(), X[keep])),
                     ("sparse, all positions", SparseTensor(shape, every.copy(), X.reshape(-1).copy()))):
        ctx.begin((start, case["exact"]))
        same(T, X, start)
        level = [(start, T, X)]
        for depth in range(3):
            nxt = []
            for text, t, ref in level:
                moves = [("T", t.T, ref.transpose(rev)), ("-", -t, -ref), ("*2", t * 2.0, ref * 2), ("dense", t.dense(), ref), ("wrap", TensorSum([t]), ref)]
                if isinstance(t, DenseTensor):
                    moves.append(("to_sparse", t.to_sparse(), ref))
                if isinstance(t, SparseTensor):
                    moves += [(f"split{n}", t.split(n), ref) for n in (1, 2, 3)]
                for name, u, r in moves:
                    same(u, r, f"{text}.{name}")
                    if isinstance(u, SparseTensor):
                        g = np.asarray(u.gather(np.array(np.unravel_index(np.arange(r.size), r.shape))))
                        ctx.true(bool(np.all(g == r.reshape(-1))), lambda: f"{text}.{name}.gather: an entry changed")
                    nxt.append((f"{text}.{name}", u, r))
            level = nxt if depth < 1 else [n for i, n in enumerate(nxt) if i % 7 == 0]
            ctx.traces += len(nxt)


def run_case(case, ctx):
    if "exact" in case:
        return run_exact(case, ctx)
    shape = tuple(case["shape"])
    if "large" in case:
        specs = [dict(s, rank=s["rank"][:len(shape)]) if isinstance(s.get("rank"), list) else s for s in LARGE_LEAVES]
        leaves = [leaf(s, shape, "ABCDEFGHIJKLMNOPQ"[i]) for i, s in enumerate(specs)]
        n = leaves[case["large"]]
        check(ctx, n)
        ctx.begin(n.text)
        for a in grow(ctx, [n], leaves, unary(False)):
            check(ctx, a)
            ctx.goto(0)
            d1 = ctx.step(a.text, a.ref.shape)
            for op in unary(True)[:3]:
                for b in apply_unary(ctx, op, a):
                    check(ctx, b)
                    ctx.goto(d1)
                    ctx.step(b.text, b.ref.shape)
                    ctx.traces += 1
        return
    specs = LEAVES[:case["leaves"]]
    if case["small"] and case["leaves"] == 4:
        specs = [LEAVES[i] for i in (1, 2, 4, 5)]
    leaves = [leaf(s, shape, "ABCDEFGHIJKLMNOPQ"[i]) for i, s in enumerate(specs)]
    if shape != shape[::-1]:
        leaves += [leaf(s, shape[::-1], "abcdefghij"[i]) for i, s in enumerate(specs[:3])]
    ops = unary(case["small"], case.get("more", False))
    level = []
    for n in leaves:
        check(ctx, n)
    first = list(grow(ctx, leaves, leaves, ops))
    for n in first:
        check(ctx, n)
    mine = first[case["chunk"]::CHUNKS * (2 if case["depth"] == 3 else 1)]
    for a in mine:
        ctx.begin(a.text)
        d1 = ctx.step(a.text, a.ref)
        for b in grow(ctx, [a], leaves, ops):
            check(ctx, b)
            ctx.goto(d1)
            d2 = ctx.step(b.text, b.ref)
            if case["depth"] == 3:
                for c in grow(ctx, [b], leaves, ops):
                    check(ctx, c)
                    ctx.goto(d2)
                    ctx.step(c.text, c.ref)
                    ctx.traces += 1
            else:
                ctx.traces += 1
