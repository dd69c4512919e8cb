"""Stand-in for multiprocessing.Pool owned by the harness.

hadar starts one process pool per solve()/shuffle(). Forking 8 workers per generated case is slow and lets the
operating system choose the schedule. The stand-in keeps the observable semantics of the real pool:
* every task is pickled to the worker and its result pickled back (no shared objects);
* each worker owns a private copy of the numpy / random global state, taken when the pool is created (fork);
* exceptions of a task propagate to the caller;
and lets a check choose how tasks are dealt to workers (SCHEDULE). `real()` gives the genuine pool back.
"""
import contextlib
import multiprocessing
import multiprocessing.pool
import pickle
import random

_REAL = multiprocessing.Pool
SCHEDULE = None  # None: round robin on 8 workers; else callable(task index) -> worker index
N_WORKERS = 8
ENTROPY_AT_FORK = True


class _Worker:
    def __init__(self):
        import numpy as np

        self.np_state = np.random.get_state()
        self.py_state = random.getstate()

    def run(self, payload):
        import numpy as np

        outer_np, outer_py = np.random.get_state(), random.getstate()
        np.random.set_state(self.np_state)
        random.setstate(self.py_state)
        try:
            func, args, kwds = pickle.loads(payload)
            res = func(*args, **kwds)
            return pickle.loads(pickle.dumps(res))
        finally:
            self.np_state = np.random.get_state()
            self.py_state = random.getstate()
            np.random.set_state(outer_np)
            random.setstate(outer_py)


class _Async:
    def __init__(self, value=None, exc=None):
        self._v, self._e = value, exc

    def get(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._e is None


class InlinePool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        n = processes or N_WORKERS
        self._workers = [_Worker() for _ in range(n)]
        self._i = 0
        self._closed = False
        if initializer is not None:
            for w in self._workers:
                w.run(pickle.dumps((initializer, tuple(initargs), {})))

    def _dispatch(self, func, args, kwds):
        if self._closed:
            raise ValueError("Pool not running")
        i = self._i
        self._i += 1
        k = SCHEDULE(i) if SCHEDULE is not None else i
        return self._workers[k % len(self._workers)].run(pickle.dumps((func, tuple(args), kwds)))

    def map(self, func, iterable, chunksize=None):
        return [self._dispatch(func, (a,), {}) for a in list(iterable)]

    def starmap(self, func, iterable, chunksize=None):
        return [self._dispatch(func, tuple(a), {}) for a in list(iterable)]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable)[::-1])  # any order is allowed: never the lucky one

    def apply(self, func, args=(), kwds={}):
        return self._dispatch(func, args, kwds)

    def _async(self, f, callback, error_callback):
        try:
            r = _Async(f())
        except Exception as e:  # same contract as the real pool
            if error_callback:
                error_callback(e)
            return _Async(exc=e)
        if callback:
            callback(r.get())
        return r

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._async(lambda: self._dispatch(func, args, kwds), callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(func, iterable), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(func, iterable), callback, error_callback)

    def close(self):
        self._closed = True

    def terminate(self):
        self._closed = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


_use_real = False


def Pool(*a, **k):
    if _use_real:
        p = _REAL(*a, **k)
        _live.append(p)
        return p
    return InlinePool(*a, **k)


_live = []


def install():
    if multiprocessing.Pool is not Pool:
        multiprocessing.Pool = Pool


@contextlib.contextmanager
def real():
    """Run with the genuine multiprocessing.Pool; terminate leaked pools afterwards."""
    global _use_real
    old, _use_real = _use_real, True
    try:
        yield
    finally:
        _use_real = old
        while _live:
            p = _live.pop()
            p.terminate()
            p.join()


@contextlib.contextmanager
def schedule(assign, workers=8):
    global SCHEDULE, N_WORKERS
    old = SCHEDULE, N_WORKERS
    SCHEDULE, N_WORKERS = (lambda i: assign[i % len(assign)]) if assign else None, workers
    try:
        yield
    finally:
        SCHEDULE, N_WORKERS = old
