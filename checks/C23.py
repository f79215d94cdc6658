"""C23: the experiment log: histories of runs, failures, reopenings, and a crash at every point of a save."""
import itertools
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
from decimal import Decimal, InvalidOperation

import numpy as np

from lib import target
from scripts.experiment_base import Experiment
from tt_sketch.drm import SparseGaussianDRM, TensorTrainDRM

PROPERTY = "C23"
RULE = ("every history up to the depth bound over {run configuration i, run one that raises, reopen by constructor, reopen by load} for every menu of "
        "parameter values; for every prefix history and in-flight experiment, a crash at every executed line of the module, before every file-system "
        "event, and after every number of bytes written to any file (torn writes), each followed by reopening, checking, and finishing the work; the "
        "real code runs in scratch directories, and every state is compared with a reference log")
BOUNDS = {"quick": "14 value menus: all histories of length <= 3 (length 4 for two menus); 20 histories with logs of every length up to 130; crash points: after all histories of 0..2 runs, and after three in which the interrupted run adds no columns",
          "thorough": "all histories of length <= 4 for all menus, 5 for two; crash points after all histories of length <= 3, every byte"}
ASSUMPTIONS = ["a crash is the end of the process (no power failure: written data not yet synced survives)",
               "experiments of one name use the same parameter names; values are identified by their printed form"]
CASE_TIMEOUT = 400


def fun(x):
    return x


MENUS = {
    "int": [{"rank": 1}, {"rank": 2}, {"rank": 10}],
    "float": [{"t": 0.1}, {"t": 1 / 3}, {"t": 1e-20}],
    "string": [{"s": "a"}, {"s": "b, c"}, {"s": 'say "x"\nand y'}],
    "space": [{"s": " a"}, {"s": "a"}, {"s": ""}],
    "none": [{"drm": None}, {"drm": SparseGaussianDRM}, {"drm": TensorTrainDRM}],
    "tuple": [{"rank": (1, 2)}, {"rank": (2, 1)}, {"rank": [1, 2]}],
    "mixed": [{"a": 1}, {"a": 0.5}, {"a": None}],
    "mixed2": [{"a": "x", "b": 1}, {"a": 2, "b": None}, {"a": (1,), "b": 2.5}],
    "two": [{"a": 1, "b": 2}, {"a": 2, "b": 1}, {"a": 1, "b": 1}],
    "bool": [{"f": True}, {"f": False}, {"f": None}],
    "big": [{"seed": 2 ** 53 - 1}, {"seed": 2 ** 53 - 2}, {"seed": -(2 ** 53) + 1}],
    "large": [{"seed": 2 ** 32 - 1}, {"seed": 2 ** 32}, {"seed": 4294967295.5}],
    "numpy": [{"n": np.int64(3)}, {"n": np.float64(0.1)}, {"n": np.int32(4)}],
    "names": [{"_name": "A", "a": 1}, {"_name": "B", "b": 1}, {"_name": "A", "a": 2}],
    "names2": [{"_name": "A", "a": 1}, {"_name": "B", "a": 1}, {"_name": "C", "a": 1, "b": 1}],
    "noparams": [{"_name": "A"}, {"_name": "B"}, {"_name": "C, d"}],
    "func": [{"f": fun}, {"f": np.linalg.norm}, {"f": max}],
    "unicode": [{"s": "é,ü"}, {"s": "a\tb"}, {"s": "#x"}],
    "wide": [{f"p{i}": i * k for i in range(12)} for k in (1, 2, 3)],
}
LONG = {  # unbounded families of configurations
    "int": lambda i: {"rank": i},
    "float": lambda i: {"t": (i + 1) / 7, "u": 10.0 ** -i},
    "string": lambda i: {"s": f"run {i}"},
    "mixed": lambda i: {"a": [i, i + 0.5, None, f"s{i}", (i, 1)][i % 5] if i else "zero", "b": i // 5},
    "names": lambda i: {"_name": f"exp{i % 7}", "a": i // 7},
}
RESULTS = [{"error": 1 / 3, "time_taken": 1e-17}, {"error": 2e300, "time_taken": 0}, {"error": 0.1 + 0.2, "note": "r, s"}]
OPS = ["r0", "r1", "r2", "x0", "x1", "new", "load"]


def canon(v):
    """Independent notion of 'same printed form' (numbers by value)."""
    if v is None:
        return "None"
    if isinstance(v, float) and np.isnan(v):
        return ""
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if not isinstance(v, (str, int, float, np.number)):
        v = getattr(v, "__name__", None) or str(v)
    s = repr(v.item()) if isinstance(v, np.number) else (repr(v) if isinstance(v, float) else str(v))
    try:
        d = Decimal(s)
        if d.is_finite():
            return str(d.normalize() + 0)
    except InvalidOperation:
        pass
    return s


def cases(tier):
    th = tier == "thorough"
    for m in MENUS:
        deep = m in ("int", "mixed")
        depth = (5 if deep else 4) if th else (4 if deep else 3)
        for first in OPS:
            yield {"kind": "history", "menu": m, "first": first, "depth": depth}
    for m in LONG:
        for variant in range(4):
            yield {"kind": "long", "menu": m, "n": 260 if th else 130 if m in ("int", "mixed") else 60, "variant": variant}
    for m in MENUS:
        pre = [()] + [p for n in (1, 2, 3) for p in itertools.product(("r0", "r1"), repeat=n) if len(set(p)) == len(p)]
        if th:
            pre += [p for n in (1, 2, 3) for p in itertools.product(("r0", "r1", "x2", "new", "load"), repeat=n) if p not in pre]
        for p in pre:
            for how in ("line", "event", "bytes", "error"):
                yield {"kind": "crash", "menu": m, "prefix": p, "how": how, "stride": 1 if th or m in ("int", "two") else 7}
        for p in (("r0",), ("r0", "r2"), ("r2", "r0", "new")):  # the one in flight adds no columns to the log
            for how in ("line", "event", "bytes", "error"):
                yield {"kind": "crash", "menu": m, "prefix": p, "how": how, "i": 1, "stride": 1 if th or m in ("int", "two") else 5}


class Failed(Exception):
    pass


class Log:
    """The real log in a scratch directory, and its reference model."""

    def __init__(self, ctx, menu, what):
        self.ctx, self.what = ctx, what
        self.conf = MENUS[menu] if isinstance(menu, str) else menu
        self.exp = Experiment("log.csv")
        self.done = {}
        self.calls = []

    def key(self, i):
        c = dict(self.conf[i])
        name = c.pop("_name", "exp")
        return (name,) + tuple(sorted((k, canon(v)) for k, v in c.items()))

    def run(self, i, fail=False):
        c = dict(self.conf[i])
        name = c.pop("_name", "exp")
        calls = []
        token = object()

        def f(inp, **kw):
            calls.append(kw)
            if inp is not token or set(kw) != set(c) or any(kw[k] is not c[k] for k in c):
                self.ctx.fail(f"{self.what}: the function of experiment {name} {c} was called with {kw}")
            if fail:
                raise Failed()
            return dict(RESULTS[i % 3])
        try:
            self.exp.do_experiment(token, name, f, **c)
        except Failed:
            pass
        expected = 0 if self.key(i) in self.done else 1
        self.ctx.equal(len(calls), expected, f"{self.what}: times the function of experiment {name} {c} ran (completed before: {not expected})")
        if expected and not fail:
            self.done[self.key(i)] = RESULTS[i % 3]

    def reopen(self, how):
        self.exp = Experiment("log.csv") if how == "new" or not os.path.exists("log.csv") else Experiment.load("log.csv")

    def apply(self, op):
        if op[0] == "r":
            self.run(int(op[1]))
        elif op[0] == "x":
            self.run(int(op[1]), fail=True)
        else:
            self.reopen(op)

    def check(self, exp, what, optional=None):
        """The recorded rows are exactly the completed experiments (plus possibly `optional`)."""
        rows = {}
        for _, row in exp.data.iterrows():
            row = row.to_dict()
            k = None
            for i in range(len(self.conf)):
                c = dict(self.conf[i])
                n = c.pop("_name", "exp")
                if str(row["name"]) == n and all(canon(row.get(p)) == canon(v) if p in row else False for p, v in c.items()):
                    k = i
            if k is None:
                self.ctx.fail(f"{what}: the log has a row that is no completed experiment: {row}")
            kk = self.key(k)
            if kk in rows:
                self.ctx.fail(f"{what}: experiment recorded twice: {row}")
            rows[kk] = row
            for p, v in RESULTS[k % 3].items():
                ok = row.get(p) == v if not isinstance(v, float) else isinstance(row.get(p), (int, float)) and float(row[p]) == v
                self.ctx.true(ok, f"{what}: result {p} of {row} is not {v!r}")
        missing = [k for k in self.done if k not in rows]
        extra = [k for k in rows if k not in self.done and k != optional]
        self.ctx.true(not missing, f"{what}: completed experiments lost: {missing}")
        self.ctx.true(not extra, f"{what}: experiments recorded but not completed: {extra}")
        return set(rows)


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="c23-")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def run_case(case, ctx):
    if case["kind"] == "history":
        n = case["depth"]
        for tail in itertools.product(OPS, repeat=n - 1):
            hist = (case["first"],) + tail
            if any(a == b and a in ("new", "load") for a, b in zip(hist, hist[1:])):
                continue
            with Scratch():
                what = f"menu {case['menu']} {MENUS[case['menu']]} history {hist}"
                log = Log(ctx, case["menu"], what)
                ctx.begin((case["menu"],))
                for op in hist:
                    log.apply(op)
                    log.check(log.exp, what)
                    ctx.step(op, sorted(log.done))
                if log.done:
                    log.check(Experiment("log.csv"), what + " reopened")
                    log.check(Experiment.load("log.csv"), what + " loaded")
                    # starting over on purpose
                    e = Experiment("log.csv", force_overwrite=True)
                    ctx.equal(len(e.data), 0, what + ": rows after force_overwrite")
                log.reopen("new")
                for i in range(3):
                    log.run(i)
                    log.run(i)
                log.check(Experiment("log.csv"), what + " completed")
        return
    if case["kind"] == "long":
        return long_case(case, ctx)
    crash_case(case, ctx)


def long_case(case, ctx):
    """Logs of every length up to n: each new experiment is preceded by a failing attempt (variant 1, 3) and followed by asking
    again for the newest, the oldest and one in between; with reopening every few runs (variant 2, 3)."""
    n, v = case["n"], case["variant"]
    with Scratch():
        log = Log(ctx, [LONG[case["menu"]](i) for i in range(n)], f"log of {case['menu']}, variant {v}")
        ctx.begin((case["menu"], n))
        for i in range(n):
            log.what = f"log of {case['menu']} with {i} experiments, variant {v}"
            if v in (1, 3):
                log.run(i, fail=True)
            log.run(i)
            for j in (i, 0, (i * 5) // 8):
                log.run(j)
                log.run(j, fail=True)
            if v in (2, 3) and i % 5 == 3:
                log.reopen("load" if i % 2 else "new")
                for j in (i, 0, i // 2):
                    log.run(j)
            if i < 12 or i % 10 == 0 or i == n - 1:
                log.check(log.exp, log.what)
                log.check(Experiment("log.csv"), log.what + ", reopened")
            ctx.step(i, len(log.done))
        log.reopen("new")
        for i in range(n):
            log.run(i)
        log.check(Experiment.load("log.csv"), log.what + ", loaded")


WRITE_EVENTS = {"os.rename", "os.remove", "os.truncate", "os.link", "os.symlink", "os.mkdir", "os.rmdir", "os.chmod"}


def child(log, i, how, point):
    """Runs one experiment in a forked process that stops at the given point; returns (#points passed, finished)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            count = [0]

            def hit():
                if count[0] == point:
                    os.write(w, b"crash")
                    os._exit(9)
                count[0] += 1
            if how == "line":
                root = os.path.join(os.path.abspath(target.REPO), "scripts") + os.sep

                def trace(frame, event, arg):
                    if not frame.f_code.co_filename.startswith(root):
                        return None
                    if event == "line":
                        hit()
                    return trace
                sys.settrace(trace)
            elif how == "event":
                def hook(event, args):
                    if event in WRITE_EVENTS or event.startswith("shutil."):
                        hit()
                    elif event == "open" and not isinstance(args[0], int) and (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                        hit()
                sys.addaudithook(hook)
            elif point is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == "bytes" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (point, point))
            try:
                c = dict(log.conf[i])
                name = c.pop("_name", "exp")
                log.exp.do_experiment(None, name, lambda inp, **kw: dict(RESULTS[i % 3]), **c)
                code = 0
            except OSError:
                code = 4
            finally:
                sys.settrace(None)
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if how not in ("bytes", "error") else None
            os.write(w, b"points %d" % count[0])
        except BaseException as e:
            try:
                os.write(w, ("harness " + repr(e)).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        out += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if out.startswith(b"harness"):
        raise RuntimeError(out.decode())
    return out.decode(), status


def crash_case(case, ctx):
    how, i = case["how"], case.get("i", 2)
    with Scratch() as d:
        what0 = f"menu {case['menu']} {MENUS[case['menu']]} after {case['prefix']}"
        log = Log(ctx, case["menu"], what0)
        for op in case["prefix"]:
            log.apply(op)
        keep = os.path.join(d, "keep")
        shutil.copytree(d, keep)
        start = sorted(log.done)

        def restore():
            for f in os.listdir(d):
                p = os.path.join(d, f)
                if p != keep:
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            for f in os.listdir(keep):
                shutil.copy2(os.path.join(keep, f), os.path.join(d, f))
        out, status = child(log, i, how, None)
        ctx.true(status == 0, f"{what0}: running experiment {i} failed (status {status}, {out})")
        total = int(out.split()[1]) if how in ("line", "event") else max(os.path.getsize(os.path.join(d, f)) for f in os.listdir(d) if f != "keep")
        ctx.true(total > 0, f"{what0}: nothing happened while saving")
        points = list(range(0, total + 1, case["stride"] if how in ("bytes", "error") else 1))
        if points[-1] != total:
            points.append(total)
        exp0, done0 = log.exp, dict(log.done)
        for point in points:
            restore()
            log.exp, log.done = exp0, dict(done0)
            what = f"{what0}, stopped at {how} {point} of {total} while running experiment {i}"
            ctx.begin((case["menu"], start))
            child(log, i, how, point)
            saved = os.path.exists("log.csv")
            new = None
            try:
                new = Experiment("log.csv")
            except Exception as e:
                ctx.fail(f"{what}: the log cannot be read again: {type(e).__name__}: {e}")
            rows = log.check(new, what, optional=log.key(i))
            if saved:
                ctx.equal(log.check(Experiment.load("log.csv"), what + " (load)", optional=log.key(i)), rows, what + ": load and constructor differ")
            ctx.step((how, point), sorted(rows))
            ctx.count("crash points")
            # go on after the crash
            if log.key(i) in rows:
                log.done[log.key(i)] = RESULTS[i % 3]
            log.exp, log.what = new, what + ", then continued"
            for j in (i, 0, 2, 1, i) if i == 2 else (2, 0, i):
                log.run(j)
            log.check(Experiment("log.csv"), log.what)
            log.reopen("new")
            for j in range(3):
                log.run(j)
            log.what = what0
