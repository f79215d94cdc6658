"""Exhaustive exploration engine.

A check module provides
    PROPERTY, RULE, cases(tier) -> iterable of JSON-able cases,
    run_case(case, ctx)         -> raises Violation when the property fails.
Every case is one execution (or one bounded sub-space of executions) of the
real code that run_case compares, step by step, with the reference model.  The
engine runs *all* cases, in parallel, and reports the first violation in
enumeration order (cases are ordered simplest first).
"""
import json
import math
import multiprocessing
import os
import signal
import sys
import threading
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 240


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def digest(obj):
    """Canonical 64-bit digest of an observable value (floats to 6 digits)."""
    h = zlib.crc32
    if isinstance(obj, np.ndarray):
        a = np.asarray(obj, dtype=np.float64)
        m = np.max(np.abs(a)) if a.size else 0.0
        if m > 0 and np.isfinite(m):
            e = 10.0 ** (6 - math.ceil(math.log10(m)))
            a = np.round(a * e) / e
        a = a + 0.0
        b = repr(a.shape).encode() + a.tobytes()
    elif isinstance(obj, (list, tuple)):
        b = repr([digest(o) for o in obj]).encode()
    else:
        b = repr(obj).encode()
    return h(b) | (h(b[::-1] + b"#") << 32)


class Ctx:
    """Per-worker recorder of what has been explored."""

    def __init__(self):
        self.states = set()
        self.transitions = set()
        self.traces = 0
        self.comparisons = 0
        self.skipped = {}
        self.extra = {}
        self._cur = 0
        self.case = None

    # -- traces ---------------------------------------------------------
    def begin(self, state=()):
        self.traces += 1
        self._cur = digest(state)
        self.states.add(self._cur)

    def goto(self, state_digest):
        """Continue from an earlier state (tree-shaped histories)."""
        self._cur = state_digest
        return state_digest

    def step(self, label, state):
        d = digest(state)
        self.states.add(d)
        self.transitions.add(hash((self._cur, str(label), d)))
        self._cur = d
        return d

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def count(self, what, n=1):
        self.extra[what] = self.extra.get(what, 0) + n

    # -- oracles --------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def true(self, cond, msg):
        self.comparisons += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, a, b, msg):
        self.comparisons += 1
        if a != b:
            raise Violation(f"{msg}: got {a!r}, expected {b!r}")

    def close(self, a, b, msg, tol=1e-9, scale=None):
        """max |a-b| <= tol * scale (default: the largest reference entry, or 1 if that is 0)."""
        self.comparisons += 1
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {a.shape}, expected {b.shape}")
        if a.size == 0:
            return
        if scale is None:
            scale = float(np.max(np.abs(b)))
            if scale == 0:
                scale = 1e-6 if tol < 1 else 1.0
        diff = np.max(np.abs(a - b))
        if not (diff <= tol * scale):
            raise Violation(
                f"{msg}: differs by {diff:.3g} (scale {scale:.3g}, tolerance {tol:g});"
                f" got {_short(a)}, expected {_short(b)}")

    def raises(self, fn, msg, allowed=Exception):
        self.comparisons += 1
        try:
            r = fn()
        except allowed:
            return
        raise Violation(f"{msg}: no exception, returned {_short(r)}")


def _short(a):
    s = repr(a).replace("\n", " ")
    return s if len(s) < 300 else s[:300] + "..."


def deviations(default, menus, k):
    """All configurations differing from `default` in at most k parameters."""
    import itertools
    keys = list(menus)
    yield dict(default)
    for n in range(1, k + 1):
        for ks in itertools.combinations(keys, n):
            for vals in itertools.product(*[[v for v in menus[x] if v != default[x]] for x in ks]):
                c = dict(default)
                c.update(zip(ks, vals))
                yield c


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, case, ctx):
    """Returns None or a violation message."""
    ctx.case = case
    timeout = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        mod.run_case(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return f"execution did not finish within {timeout} s"
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        where = [l.strip() for l in tb if l.strip().startswith("File")][-1:]
        return f"unexpected {type(e).__name__}: {str(e)[:300]} ({'; '.join(where)})"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(mod, cases, wid, nxt, lock, current, best, conn, chunk):
    ctx = Ctx()
    found = []
    try:
        while True:
            with lock:
                start = nxt.value
                nxt.value = start + chunk
            if start >= len(cases):
                break
            for i in range(start, min(start + chunk, len(cases))):
                if best.value >= 0 and i > best.value:
                    continue
                current[wid] = i
                msg = run_one(mod, cases[i], ctx)
                if msg is not None:
                    found.append((i, msg))
                    with lock:
                        if best.value < 0 or i < best.value:
                            best.value = i
        current[wid] = -1
        conn.send(("ok", found, ctx.states, ctx.transitions, ctx.traces,
                   ctx.comparisons, ctx.skipped, ctx.extra))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


class HarnessError(Exception):
    pass


def _watch(mod, procs, current, stop):
    """Ends workers that hang inside one call into compiled code (no signal handler runs there)."""
    limit = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT) + 20
    since = {}
    while not stop.wait(5):
        for w, p, _ in procs:
            i = current[w]
            if i < 0 or since.get(w, (None,))[0] != i:
                since[w] = (i, time.time())
            elif time.time() - since[w][1] > limit:
                p.kill()


def explore(mod, cases, workers=None):
    workers = workers or int(os.environ.get("VERIF_WORKERS") or 0) or min(8, max(1, (os.cpu_count() or 1)))
    workers = max(1, min(workers, len(cases)))
    mp = multiprocessing.get_context("fork")
    nxt = mp.Value("l", 0, lock=False)
    best = mp.Value("l", -1, lock=False)
    lock = mp.Lock()
    current = mp.Array("l", [-1] * workers, lock=False)
    chunk = max(1, min(32, len(cases) // (workers * 16) or 1))
    chunk = getattr(mod, "CHUNK", chunk)
    procs = []
    for w in range(workers):
        r, s = mp.Pipe(duplex=False)
        p = mp.Process(target=_worker, args=(mod, cases, w, nxt, lock, current, best, s, chunk))
        p.start()
        s.close()
        procs.append((w, p, r))
    total = Ctx()
    found = []
    stop = threading.Event()
    threading.Thread(target=_watch, args=(mod, procs, current, stop), daemon=True).start()
    for w, p, r in procs:
        try:
            res = r.recv()
        except EOFError:
            p.join()
            i = current[w]
            found.append((i, f"the process running the code died (exit code {p.exitcode})"))
            with lock:
                if best.value < 0 or i < best.value:
                    best.value = i
            continue
        p.join()
        if res[0] == "error":
            raise HarnessError(res[1])
        _, f, states, trans, traces, comps, skipped, extra = res
        found += f
        total.states |= states
        total.transitions |= trans
        total.traces += traces
        total.comparisons += comps
        for k, v in skipped.items():
            total.skipped[k] = total.skipped.get(k, 0) + v
        for k, v in extra.items():
            total.extra[k] = total.extra.get(k, 0) + v
    stop.set()
    found.sort()
    return total, found


def load_known(prop):
    """Findings listed for this property: list of (match dict, text)."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            e = json.loads(line)
            if e.get("kind") == "finding" and e.get("property") == prop:
                out.append(e)
    return out


def write_replay(prop, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode()):08x}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case, "message": msg,
                   "replay": f"python3 {VERIF}/run.py {prop} --replay {path}"}, f, indent=1, default=str)
    return path


def main(mod, tier, seed, replay=None):
    prop = mod.PROPERTY
    t0 = time.time()
    if replay:
        case = json.load(open(replay))["case"]
        ctx = Ctx()
        msg = run_one(mod, case, ctx)
        if msg is None:
            print(f"replay: property {prop} holds on this case")
            return 0
        print(msg)
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    cases = list(mod.cases(tier))
    if os.environ.get("VERIF_LIMIT"):
        cases = cases[:: max(1, len(cases) // int(os.environ["VERIF_LIMIT"]))]
    total, found = explore(mod, cases)
    known = load_known(prop)
    rest = []
    reported = set()
    for i, msg in found:
        case = cases[i] if i >= 0 else {"unknown": True}
        hit = None
        for e in known:
            if all(case.get(k) == v for k, v in e["match"].items()) and e.get("message_contains", "") in msg:
                hit = e
        if hit is not None:
            if id(hit) not in reported:
                reported.add(id(hit))
        else:
            rest.append((i, case, msg))
    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "states": len(total.states),
        "transitions": len(total.transitions),
        "traces_validated_against_impl": total.traces,
        "cases": len(cases),
        "comparisons_with_reference": total.comparisons,
        "exhaustive": not rest,
        "rule": mod.RULE,
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
        "samples": [cases[j] for j in sorted({0, len(cases) // 3, 2 * len(cases) // 3, len(cases) - 1})] if cases else [],
        "skipped": total.skipped,
    }
    cov.update(total.extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": len(rest)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for e in known:
        if id(e) in reported:
            print(f"KNOWN-FINDING: property={prop} {e['text']}")
    print(f"{prop} {tier}: cases={len(cases)} states={len(total.states)} transitions={len(total.transitions)} "
          f"traces={total.traces} comparisons={total.comparisons} skipped={total.skipped} "
          f"extra={total.extra} wall={wall:.1f}s")
    if rest:
        for i, case, msg in rest[:3]:
            path = write_replay(prop, case, msg)
            print(f"  case {json.dumps(case, default=str)[:600]}\n  {msg[:1200]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
