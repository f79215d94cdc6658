"""C02: any history of streaming updates equals one sketch of the accumulated tensor (history tree, real code at every node)."""
import itertools

import numpy as np

from lib import model as M
from tt_sketch.sketch import stream_sketch

PROPERTY = "C02"
RULE = ("tree of all operation histories up to the depth bound over {add, subtract} x operands of every supported format "
        "and {*2, *-0.5, *0, /4, negate, convert}; at every node the real sketch is compared with the components and the "
        "conversion of the dense accumulated tensor, and every ancestor is re-checked to be bit-wise unchanged")
BOUNDS = {"quick": "depth 3 for order 2-3 (depth 2 for order 4 and 5), every pair of DRM types, left rank smaller and larger, ~8 start/operand tensors; cyclic histories of up to 260 moves with every scalar type, also of sketches with up to 180000 numbers; words of container arithmetic",
          "thorough": "depth 4 for sparse-only pairs and reduced alphabets, depth 3 for all, more shapes"}
CASE_TIMEOUT = 600

OPERANDS = [
    {"fmt": "sparse"}, {"fmt": "dense"}, {"fmt": "tt"}, {"fmt": "cp"}, {"fmt": "tucker"},
    {"fmt": "sparse", "nnz": "one", "tag": 1},
    {"fmt": "sum", "parts": [{"fmt": "sparse", "tag": 2}, {"fmt": "tt", "rank": 1}]},
    {"fmt": "sum", "parts": [{"fmt": "cp"}, {"fmt": "sum", "parts": [{"fmt": "tucker"}, {"fmt": "dense"}]}]},
    {"fmt": "sum", "parts": [{"fmt": "sparse"}, {"fmt": "sparse", "tag": 3}]},
]
SCALARS = [("*2", 2.0), ("*-0.5", -0.5), ("rmul3", 3.0), ("/4", 0.25), ("neg", -1.0), ("*0", 0.0)]


def configs(tier):
    pairs = list(itertools.product(M.DRMS, repeat=2))
    both = {("tt", "tt")}
    for left, right in pairs:
        sparse_only = "sgauss" in (left, right) or "sign" in (left, right)
        yield (2, 3, 2), left, right, (2, 2), (3, 4), 3
        yield (3, 2, 4), left, right, (4, 3), (2, 2), 3 if sparse_only or tier == "thorough" else 2
        yield (4, 3), left, right, (2,), (3,), 3
        yield (2, 1, 3, 2), left, right, (2, 2, 2), (3, 3, 4), 3 if tier == "thorough" else 2
        yield (2, 2, 2, 1, 2), left, right, (3, 4, 3, 3), (2, 2, 2, 2), 2
        if sparse_only and tier == "thorough":
            yield (3, 2, 3), left, right, (2, 2), (3, 3), 4


# one long history each: (shape, left rank, right rank, number of moves)
LONG = [((3, 2, 4), (2, 2), (3, 4), 260), ((7, 6, 9), (12, 10), (9, 8), 60), ((2, 3, 2, 1, 2, 3, 2), (3, 4, 3, 3, 4, 3), (2, 2, 2, 2, 2, 2), 60),
        ((2,) * 10, (3,) * 9, (5,) * 9, 25), ((40, 3, 33), (5, 17), (20, 19), 40), ((70, 65), (33,), (40,), 40), ((90, 80, 60), (40, 45), (30, 35), 15), ((300, 400), (100,), (120,), 15)]


def alphabet(left, right):
    return [i for i, o in enumerate(OPERANDS) if M.supported(o, left, right)]


def cases(tier):
    for shape, lr, rr in (((2, 3, 4), (1, 2), (3, 4)), ((3, 2), (4,), (2,)), ((2, 1, 3, 2), (2, 3, 1), (3, 5, 2))):
        yield {"kind": "container", "shape": shape, "left_rank": lr, "right_rank": rr, "depth": 5 if tier == "thorough" else 4}
    for shape, lr, rr, n in LONG:
        for left, right in itertools.product(M.DRMS, repeat=2):
            if M.prod(shape) > 50000 and left != right:
                continue
            for same in (False, True) if n > 100 else (False,):
                yield {"kind": "long", "shape": shape, "left": left, "right": right, "left_rank": lr, "right_rank": rr,
                       "moves": n * (4 if tier == "thorough" else 1), "same": same}
    for shape, left, right, lr, rr, depth in configs(tier):
        for start in alphabet(left, right):
            yield {"shape": shape, "left": left, "right": right, "left_rank": lr, "right_rank": rr,
                   "start": start, "depth": depth}


def run_long(case, ctx):
    """One history of many moves, cycling through operands, signs and scalars of all types; every node compared and kept."""
    shape, lr, rr, n = tuple(case["shape"]), tuple(case["left_rank"]), tuple(case["right_rank"]), case["moves"]
    left, right = case["left"], case["right"]
    ld, rd = M.make_drm(left, lr, shape, False, 3), M.make_drm(right, rr, shape, True, 4)
    L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
    specs = [OPERANDS[i] for i in alphabet(left, right)]
    if all(o["fmt"] == "sparse" for o in specs[:1]):
        specs += [{"fmt": "sparse", "nnz": "empty"}, {"fmt": "sparse", "data": "int", "dtype": "int64", "nnz": "full"}]
    built = [M.build(M.with_shape(o, shape)) for o in specs]
    comps = [M.ref_components(X, L, R) for _, X in built]
    mags = [M.ref_scale(X, L, R) for _, X in built]
    scal = [3, np.float64(0.5), -1.0, np.int64(2), 1e-3, np.float32(0.25), 100.0, -2, 1, True]
    T, X = built[0]
    sk = stream_sketch(T, lr, rr, left_drm=ld, right_drm=rd)
    comp, mag = comps[0], mags[0]
    ctx.begin([list(sk.Psi_cores), list(sk.Omega_mats)])
    kept = []
    for step in range(n):
        old = sk
        if step % 7 == 6:
            c = scal[(step // 7) % len(scal)]
            f = float(c)
            how = (step // 7) % 3
            if how == 0:
                sk = sk * c
            elif how == 1 and not isinstance(c, np.generic):
                sk = c * sk
            else:
                sk, f = sk / c, 1 / f
            comp, mag = ([f * x for x in comp[0]], [f * x for x in comp[1]]), ([abs(f) * x for x in mag[0]], [abs(f) * x for x in mag[1]])
            label = f"scaled by {f}"
        else:
            i = 0 if case["same"] else (step * 5 + step // 11) % len(built)
            sign = -1.0 if step % 5 == 3 else 1.0
            if step % 2:
                if sign > 0:
                    sk += built[i][0]
                else:
                    sk -= built[i][0]
            else:
                sk = sk + built[i][0] if sign > 0 else sk - built[i][0]
            comp = tuple([x + sign * y for x, y in zip(a, b)] for a, b in zip(comp, comps[i]))
            mag = tuple([x + y for x, y in zip(a, b)] for a, b in zip(mag, mags[i]))
            label = f"{'+' if sign > 0 else '-'}{i}"
        kept.append((step, old, [np.array(a) for a in list(old.Psi_cores) + list(old.Omega_mats)] if step < 40 else None))
        what = f"after move {step} ({label})"
        M.check_components(ctx, sk, comp[0], comp[1], mag, what)
        ctx.equal((tuple(sk.shape), tuple(sk.left_rank), tuple(sk.right_rank)), (shape, lr, rr), what + ": shape and ranks")
        ctx.step(label, [list(sk.Psi_cores), list(sk.Omega_mats)])
    for step, old, snap in kept:
        if snap:
            ctx.true(all(np.array_equal(a, b) for a, b in zip(snap, list(old.Psi_cores) + list(old.Omega_mats))),
                     f"sketch before move {step} changed by later moves")
    for o, (T, X) in zip(specs, built):
        ctx.close(T.to_numpy(), X, f"operand {o['fmt']} changed by being added", tol=1e-12, scale=max(np.max(np.abs(X)), 1e-300))
    ctx.traces += 1


def run_container(case, ctx):
    """All words of operations on the containers of two sketches (the sketches' own arithmetic rests on theirs)."""
    shape, lr, rr = tuple(case["shape"]), tuple(case["left_rank"]), tuple(case["right_rank"])
    ld, rd = M.make_drm("tt", lr, shape, False, 3), M.make_drm("tt", rr, shape, True, 4)
    two = [stream_sketch(M.build(M.with_shape(o, shape))[0], lr, rr, left_drm=ld, right_drm=rd).sketch_ for o in (OPERANDS[0], OPERANDS[2])]
    val = lambda c: ([np.array(p) for p in c.Psi_cores], [np.array(o) for o in c.Omega_mats])
    a0, b0 = val(two[0]), val(two[1])
    zero = type(two[0]).zero(shape, lr, rr)
    lin = lambda f, x, y=None: tuple([f(p, q) for p, q in zip(u, v)] for u, v in zip(x, y or x))
    flip = lambda x: ([p.transpose(2, 1, 0) for p in x[0][::-1]], [o.T for o in x[1][::-1]])
    ops = {"+b": (lambda c, b: c + b, lambda x, y: lin(lambda p, q: p + q, x, y)), "-b": (lambda c, b: c - b, lambda x, y: lin(lambda p, q: p - q, x, y)),
           "b-": (lambda c, b: b - c, lambda x, y: lin(lambda p, q: q - p, x, y)), "*-3": (lambda c, b: c * -3, lambda x, y: lin(lambda p, q: -3.0 * p, x)),
           "*0.5": (lambda c, b: c * 0.5, lambda x, y: lin(lambda p, q: 0.5 * p, x)), "/4": (lambda c, b: c / 4, lambda x, y: lin(lambda p, q: p / 4, x)),
           "neg": (lambda c, b: -c, lambda x, y: lin(lambda p, q: -p, x)), "T": (lambda c, b: c.T, lambda x, y: flip(x)),
           "self-": (lambda c, b: c - c, lambda x, y: lin(lambda p, q: 0 * p, x)), "self+": (lambda c, b: c + c, lambda x, y: lin(lambda p, q: 2 * p, x))}

    def check(c, x, flipped, what):
        sh, l, r = (shape[::-1], rr[::-1], lr[::-1]) if flipped else (shape, lr, rr)
        ctx.equal((tuple(c.shape), tuple(c.left_rank), tuple(c.right_rank)), (sh, l, r), what + ": shape and ranks")
        ctx.equal((len(c.Psi_cores), len(c.Omega_mats)), (len(x[0]), len(x[1])), what + ": number of components")
        for i, (g, w) in enumerate(zip(list(c.Psi_cores) + list(c.Omega_mats), x[0] + x[1])):
            ctx.close(g, w, what + f": component {i}", tol=1e-12, scale=max(np.max(np.abs(w)), max(np.max(np.abs(q)) for q in a0[0] + b0[0])))

    def walk(c, x, flipped, word, at):
        for name, (f, g) in ops.items():
            b, y = (two[1].T, flip(b0)) if flipped else (two[1], b0)
            new, nx = f(c, b), g(x, y)
            nf = flipped != (name == "T")
            check(new, nx, nf, "container after " + " ; ".join(word + [name]))
            ctx.goto(at)
            here = ctx.step(name, nx[0] + nx[1])
            ctx.traces += 1
            if len(word) + 1 < case["depth"]:
                walk(new, nx, nf, word + [name], here)
        check(c, x, flipped, "container used in further operations, " + " ; ".join(word))

    for c, x, name in ((two[0], a0, "first"), (zero, lin(lambda p, q: 0 * p, a0), "zero")):
        ctx.begin(x[0] + x[1])
        check(c, x, False, name)
        walk(c, x, False, [name], ctx._cur)
    check(two[1], b0, False, "second operand")


def run_case(case, ctx):
    if case.get("kind") == "container":
        return run_container(case, ctx)
    if case.get("kind") == "long":
        return run_long(case, ctx)
    shape = tuple(case["shape"])
    lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
    left, right = case["left"], case["right"]
    ld, rd = M.make_drm(left, lr, shape, False, 3), M.make_drm(right, rr, shape, True, 4)
    L, R = M.drm_matrices(ld, shape, False), M.drm_matrices(rd, shape, True)
    ops = alphabet(left, right)
    built = {i: M.build(M.with_shape(OPERANDS[i], shape)) for i in set(ops) | {case["start"]}}
    comps = {i: M.ref_components(X, L, R) for i, (_, X) in built.items()}
    scl = {i: M.ref_scale(X, L, R) for i, (_, X) in built.items()}
    scalars = SCALARS if case["depth"] < 4 else SCALARS[:2]

    def snapshot(sk):
        return [np.array(a) for a in list(sk.Psi_cores) + list(sk.Omega_mats)]

    def lin(a, x, b, y):
        return ([a * p + b * q for p, q in zip(x[0], y[0])], [a * p + b * q for p, q in zip(x[1], y[1])])

    def mag(a, x, b, y):
        return ([abs(a) * p + abs(b) * q for p, q in zip(x[0], y[0])],
                [abs(a) * p + abs(b) * q for p, q in zip(x[1], y[1])])

    def check(sk, comp, scale, acc, hist):
        what = "after " + " ; ".join(hist)
        M.check_components(ctx, sk, comp[0], comp[1], scale, what)
        ctx.equal(tuple(sk.shape), shape, what + ": shape")
        ctx.equal((tuple(sk.left_rank), tuple(sk.right_rank)), (lr, rr), what + ": ranks")
        if len(hist) <= 2:
            conds = [np.linalg.cond(o) for o in comp[1]]
            if max(conds) < 1e5 and np.max(np.abs(acc)) > 1e-9:
                once = stream_sketch(M.SparseTensor(
                    shape, np.indices(shape).reshape(len(shape), -1), acc.reshape(-1)), lr, rr, left_drm=ld, right_drm=rd)
                ref = M.dense_tt(once.to_tt().cores)
                s = max(np.max(np.abs(ref)), 1e-12)
                amp = M.prod(max(c, 10) for c in conds)
                ctx.close(sk.to_numpy(), ref, what + ": to_numpy()", tol=1e-12 * amp, scale=s)
                ctx.close(M.dense_tt(sk.to_tt().cores), ref, what + ": to_tt()", tol=1e-12 * amp, scale=s)
            else:
                ctx.skip("conversion not compared (ill-conditioned)")

    def explore(sk, comp, scale, acc, hist, depth, here):
        if depth == 0:
            return
        snap = snapshot(sk)
        kids = []
        for i in ops:
            for sign, name in ((1.0, "+"), (-1.0, "-")):
                kids.append((f"{name}{i}", sign, i))
        kids += [(n, c, None) for n, c in scalars]
        for label, c, i in kids:
            if i is not None:
                T, X = built[i]
                new = sk + T if c > 0 else sk - T
                ncomp, nscale, nacc = lin(1, comp, c, comps[i]), mag(1, scale, c, scl[i]), acc + c * X
            else:
                new = {"/4": lambda: sk / 4.0, "neg": lambda: -sk, "rmul3": lambda: 3.0 * sk}.get(label, lambda: sk * c)()
                ncomp, nscale, nacc = lin(c, comp, 0, comp), mag(c, scale, 0, scale), acc * c
                if c == 0:
                    nscale = scale
            h = hist + [label]
            check(new, ncomp, nscale, nacc, h)
            ctx.traces += 1
            ctx.goto(here)
            nd = ctx.step(label, [list(new.Psi_cores), list(new.Omega_mats)])
            explore(new, ncomp, nscale, nacc, h, depth - 1, nd)
        for a, b in zip(snap, list(sk.Psi_cores) + list(sk.Omega_mats)):
            ctx.true(np.array_equal(a, b), f"sketch after {hist} changed by operations derived from it")

    T, X = built[case["start"]]
    sk = stream_sketch(T, lr, rr, left_drm=ld, right_drm=rd)
    ctx.begin([list(sk.Psi_cores), list(sk.Omega_mats)])
    check(sk, comps[case["start"]], scl[case["start"]], X, ["start"])
    explore(sk, comps[case["start"]], scl[case["start"]], X, [f"start {case['start']}"], case["depth"], ctx._cur)
