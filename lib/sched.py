"""Deterministic cooperative scheduler for real Python threads running the code in /repo.

Exactly one controlled thread runs at a time.  Every source line executed in the
package is a scheduling point; so are thread start, pool submit, waiting for a
future and lock operations.  `explore` enumerates all schedules with at most
`preemptions` switches away from a thread that could have continued and at most
`reorders` non-default choices of the next thread when one blocks or ends.
"""
import concurrent.futures
import concurrent.futures.thread
import os
import sys
import threading

_Thread = threading.Thread
_Lock = threading.Lock
_RLock = threading.RLock
ACTIVE = None  # the running Sched
TRACE_ROOT = None
POOL_SYNC = False  # run pool tasks in the submitting thread (their interleavings are explored separately)


class Abort(BaseException):
    pass


class Stuck(Exception):
    """The execution did not finish under control (uncontrolled blocking primitive, or livelock)."""


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, sched, fn, name, cond=None):
        self.sched, self.fn, self.name, self.cond = sched, fn, name, cond
        self.gate = _Lock()
        self.gate.acquire()
        self.done = False
        self.exc = None
        self.value = None
        self.id = len(sched.tasks)
        sched.tasks.append(self)
        self.thread = _Thread(target=self._boot, daemon=True)
        self.thread.start()

    def _boot(self):
        self.gate.acquire()
        try:
            if self.sched.aborted:
                return
            self.cond = None
            sys.settrace(self.sched.trace)
            try:
                self.value = self.fn()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            self.exc = e
        finally:
            self.done = True
            self.sched.ended(self)

    def enabled(self):
        return not self.done and (self.cond is None or self.cond())


class Sched:
    """One execution under `plan`: {point number: alternative index}."""

    def __init__(self, plan, max_points=2_000_000):
        self.plan = plan
        self.tasks = []
        self.points = []  # (kind, number of alternatives) with kind 'p' (preemption) or 'b' (block/end)
        self.current = None
        self.aborted = False
        self.deadlock = None
        self.finished = _Lock()
        self.finished.acquire()
        self.max_points = max_points
        self.lines = 0
        self.switches = 0
        self.main_done = None

    # -- tracing
    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(TRACE_ROOT):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    # -- decisions
    def choose(self, kind, n):
        i = len(self.points)
        self.points.append((kind, n))
        if i > self.max_points:
            self.abort()
            raise Abort()
        c = self.plan.get(i, 0)
        if c >= n:
            self.diverged = True
            c = 0
        return c

    def point(self):
        """The current thread could be preempted here."""
        if self.aborted:
            raise Abort()
        me = self.current
        self.lines += 1
        others = [t for t in self.tasks if t is not me and t.enabled()]
        if not others:
            return
        c = self.choose("p", 1 + len(others))
        if c:
            self.switch(me, others[c - 1])

    def switch(self, me, to):
        self.switches += 1
        self.current = to
        to.gate.release()
        me.gate.acquire()
        if self.aborted:
            raise Abort()

    def block(self, cond):
        me = self.current
        while not cond():
            me.cond = cond
            en = [t for t in self.tasks if t is not me and t.enabled()]
            if not en:
                self.deadlock = "; ".join(f"{t.name} {'ended' if t.done else 'blocked'}" for t in self.tasks)
                self.abort()
                raise Abort()
            c = self.choose("b", len(en)) if len(en) > 1 else 0
            self.switch(me, en[c])
            me.cond = None
        me.cond = None

    def ended(self, me):
        if self.aborted:
            if all(t.done for t in self.tasks):
                self._finish()
            return
        en = [t for t in self.tasks if t.enabled()]
        if not en:
            if not all(t.done for t in self.tasks):
                self.deadlock = "; ".join(f"{t.name} {'ended' if t.done else 'blocked'}" for t in self.tasks)
                self.abort()
            self._finish()
            return
        c = self.choose("b", len(en)) if len(en) > 1 else 0
        self.current = en[c]
        en[c].gate.release()

    def _finish(self):
        try:
            self.finished.release()
        except RuntimeError:
            pass

    def abort(self):
        self.aborted = True
        for t in self.tasks:
            try:
                t.gate.release()
            except RuntimeError:
                pass
        self._finish()

    # -- running
    def run(self, fns, timeout=60):
        global ACTIVE
        ACTIVE = self
        try:
            for i, fn in enumerate(fns):
                Task(self, fn, f"user{i}")
            c = self.choose("b", len(self.tasks)) if len(self.tasks) > 1 else 0
            self.current = self.tasks[c]
            self.current.gate.release()
            if not self.finished.acquire(timeout=timeout):
                self.abort()
                raise Stuck()
            if self.deadlock:
                raise Deadlock(self.deadlock)
            if self.aborted:
                raise Stuck()
            return self.tasks[:len(fns)]
        finally:
            ACTIVE = None


# ---------------------------------------------------------------- controlled primitives
class CtlFuture(concurrent.futures.Future):
    def _await(self):
        if ACTIVE is not None and not super().done():
            ACTIVE.block(super().done)

    def result(self, timeout=None):
        self._await()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._await()
        return super().exception(timeout)


class CtlExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, *args, initializer=None, initargs=(), **kw):
        self._max_workers = max_workers or min(32, (os.cpu_count() or 1) + 4)
        self.queue = []
        self.active = 0
        self.futures = []
        if initializer is not None:
            initializer(*initargs)

    def submit(self, fn, /, *args, **kwargs):
        f = CtlFuture()
        if ACTIVE is None or POOL_SYNC:
            try:
                f.set_result(fn(*args, **kwargs))
            except Abort:
                raise
            except BaseException as e:
                f.set_exception(e)
            return f
        self.futures.append(f)
        token = object()
        self.queue.append(token)

        def body():
            self.queue.remove(token)
            self.active += 1
            try:
                r = fn(*args, **kwargs)
            except Abort:
                raise
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(r)
            finally:
                self.active -= 1
        Task(ACTIVE, body, f"worker{len(self.futures)}", cond=lambda: self.queue[0] is token and self.active < self._max_workers)
        ACTIVE.point()
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        if wait and ACTIVE is not None:
            ACTIVE.block(lambda: all(concurrent.futures.Future.done(f) for f in self.futures))


_real_wait = concurrent.futures.wait
_real_as_completed = concurrent.futures.as_completed


def ctl_wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    fs = list(fs)
    if ACTIVE is not None and timeout is None:
        done = concurrent.futures.Future.done
        if return_when == concurrent.futures.ALL_COMPLETED:
            ACTIVE.block(lambda: all(done(f) for f in fs))
        elif return_when == concurrent.futures.FIRST_EXCEPTION:
            ACTIVE.block(lambda: all(done(f) for f in fs) or any(done(f) and f._exception is not None for f in fs))
        else:
            ACTIVE.block(lambda: any(done(f) for f in fs))
        d = {f for f in fs if done(f)}
        return concurrent.futures._base.DoneAndNotDoneFutures(d, set(fs) - d)
    if ACTIVE is not None:  # a wait with a time limit may return at any time: the earliest is the worst case
        ACTIVE.point()
        d = {f for f in fs if concurrent.futures.Future.done(f)}
        return concurrent.futures._base.DoneAndNotDoneFutures(d, set(fs) - d)
    return _real_wait(fs, timeout, return_when)


def ctl_as_completed(fs, timeout=None):
    if ACTIVE is None:
        yield from _real_as_completed(fs, timeout)
        return
    fs = list(dict.fromkeys(fs))
    done = concurrent.futures.Future.done
    while fs:
        ACTIVE.block(lambda: any(done(f) for f in fs))
        for f in [f for f in fs if done(f)]:
            fs.remove(f)
            yield f


class CtlThread(_Thread):
    """threading.Thread as seen by the package."""

    def start(self):
        if ACTIVE is None:
            return super().start()
        self._task = Task(ACTIVE, self.run, self.name)
        ACTIVE.point()

    def join(self, timeout=None):
        if getattr(self, "_task", None) is None:
            return super().join(timeout)
        if ACTIVE is not None and timeout is None:
            ACTIVE.block(lambda: self._task.done)

    def is_alive(self):
        return not self._task.done if getattr(self, "_task", None) is not None else super().is_alive()


class CtlLock:
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        return ACTIVE.current if ACTIVE is not None else "outside"

    def acquire(self, blocking=True, timeout=-1):
        if ACTIVE is not None:
            ACTIVE.point()
        me = self._me()
        if self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking or ACTIVE is None:
                return False
            ACTIVE.block(lambda: self.owner is None)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.count == 0:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if ACTIVE is not None:
            ACTIVE.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install(root):
    """Call before the package is imported."""
    global TRACE_ROOT
    TRACE_ROOT = root
    concurrent.futures.ThreadPoolExecutor = CtlExecutor
    concurrent.futures.thread.ThreadPoolExecutor = CtlExecutor
    concurrent.futures.wait = ctl_wait
    concurrent.futures.as_completed = ctl_as_completed
    threading.Thread = CtlThread

    def lock():
        if sys._getframe(1).f_code.co_filename.startswith(root):
            return CtlLock(False)
        return _Lock()

    def rlock():
        if sys._getframe(1).f_code.co_filename.startswith(root):
            return CtlLock(True)
        return _RLock()
    threading.Lock = lock
    threading.RLock = rlock


def explore(make, check, preemptions, reorders, limit=None):
    """make() -> list of functions (fresh objects); check(tasks, plan) on every schedule.

    Depth-first over plans; every alternative at every later point within the bounds.
    Returns (schedules, points, truncated)."""
    stack = [({}, 0, 0, 0)]
    n = pts = 0
    while stack:
        plan, start, np_, nr = stack.pop()
        s = Sched(plan)
        try:
            tasks = s.run(make())
            check(tasks, plan, None)
        except (Deadlock, Stuck) as e:
            check(None, plan, e)
            return n, pts, True
        n += 1
        pts += len(s.points)
        if limit is not None and n >= limit:
            return n, pts, True
        new = []
        for i in range(start, len(s.points)):
            kind, k = s.points[i]
            if k < 2:
                continue
            if kind == "p" and np_ >= preemptions or kind == "b" and nr >= reorders:
                continue
            for alt in range(1, k):
                new.append((dict(plan, **{}) | {i: alt}, i + 1, np_ + (kind == "p"), nr + (kind == "b")))
        stack.extend(reversed(new))
    return n, pts, False
