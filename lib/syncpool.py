"""A thread pool that runs every task at once in the calling thread.

Installed before the package is imported by the checks that construct very many
seeded tensors or DRMs (starting 8 threads for each dominates their cost).  That
all other schedules of the pool give the same result is what C08 decides.
"""
import concurrent.futures
import concurrent.futures.thread


class SyncExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, *args, initializer=None, initargs=(), **kw):
        self._max_workers = max_workers
        if initializer is not None:
            initializer(*initargs)

    def submit(self, fn, /, *args, **kwargs):
        f = concurrent.futures.Future()
        f.set_running_or_notify_cancel()
        try:
            f.set_result(fn(*args, **kwargs))
        except BaseException as e:
            f.set_exception(e)
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        pass


_Real = concurrent.futures.ThreadPoolExecutor
use_real = False  # a check may switch to real threads


class Executor(concurrent.futures.Executor):
    def __new__(cls, *args, **kw):
        return (_Real if use_real else SyncExecutor)(*args, **kw)


def install():
    concurrent.futures.ThreadPoolExecutor = Executor
    concurrent.futures.thread.ThreadPoolExecutor = Executor
