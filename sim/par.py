"""Simulated workers: every joblib backend and executor pool is replaced by one scheduler."""
import concurrent.futures as cf
import pickle

from . import core


class WorkerDied(RuntimeError):
    """what a broken pool surfaces to the caller"""


def _roundtrip(obj):
    import dill

    return dill.loads(dill.dumps(obj))


class _Task:
    __slots__ = ("func", "callback", "result", "exc", "done", "backend")

    def __init__(self, func, callback, backend):
        self.func, self.callback, self.backend = func, callback, backend
        self.result = self.exc = None
        self.done = False


QUEUE = []


def _backend(shared, level):
    import joblib.parallel as jp

    return jp.BACKENDS["threading" if shared else "loky"](nesting_level=level)


def _run_task(task):
    import numpy as np

    c = core.CTX
    state = None
    try:
        func = task.func
        if task.backend is not None and not task.backend.supports_sharedmem:
            k = getattr(c, "kill_worker", None)  # [tasks until then, before or after the work]
            if k is not None:
                if k[0] <= 0:
                    c.kill_worker = None
                    c.fault("worker_killed")
                    if k[1] == "after":
                        _roundtrip(func)()
                    raise WorkerDied("A worker process managed by the executor was unexpectedly terminated.")
                c.kill_worker = [k[0] - 1, k[1]]
            func = _roundtrip(func)
            state = np.random.get_state()
            np.random.seed(c.entropy.getrandbits(32))
        task.result = func()
    except Exception as e:  # noqa
        task.exc = e
    finally:
        if state is not None:
            np.random.set_state(state)
    task.done = True
    return task


# -------------------------------------------------------------------- pre-emptive worker threads
class _Thread:
    """a task on a real thread that runs only while it holds the baton; every byte-code
    instruction of the code under test is a point at which the scheduler may take the baton away"""

    def __init__(self, task):
        self.task = task
        self.go, self.back = _REAL_T["Semaphore"](0), _REAL_T["Semaphore"](0)
        self.finished = False
        self.fatal = None
        self.th = _REAL_T["Thread"](target=self.main, daemon=True)
        _REAL_T["start"](self.th)

    def main(self):
        import sys

        self.go.acquire()
        try:
            sys.settrace(self.tracer)
            try:
                self.task.result = self.task.func()
            finally:
                sys.settrace(None)
        except Exception as e:  # noqa
            self.task.exc = e
        except BaseException as e:  # noqa
            self.fatal = e
        self.finished = True
        self.back.release()

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(TRACED):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode" and core.CTX.sched.random() < PREEMPT:
            core.CTX.fault("thread_preempted")
            self.back.release()
            self.go.acquire()
        return self.local

    def resume(self):
        self.go.release()
        self.back.acquire()
        if self.fatal is not None:
            raise self.fatal
        return self.finished


ACTIVE = []
TRACED = "/repo/"
PREEMPT = 0.25
_REAL_T = {}


def _pump_threads():
    c = core.CTX
    first = (ACTIVE[0].task if ACTIVE else QUEUE[0]).backend
    width = max(1, getattr(first, "_sim_n_jobs", 4) or 1)
    while QUEUE and len(ACTIVE) < width and getattr(QUEUE[0].backend, "supports_sharedmem", False):
        ACTIVE.append(_Thread(QUEUE.pop(0)))
    i = c.schedule(len(ACTIVE))
    t = ACTIVE[i]
    if t.resume():
        if i:
            c.fault("worker_reorder")
        ACTIVE.pop(i)
        t.task.done = True
        if t.task.callback is not None:
            t.task.callback(t.task)
    return True


def pump():
    """run one of the tasks that are in the workers' hands, chosen by the scheduler"""
    c = core.CTX
    if c is None or not (QUEUE or ACTIVE):
        return False
    if ACTIVE or c.scenario.get("preempt") and getattr(QUEUE[0].backend, "supports_sharedmem", False):
        return _pump_threads()
    window = QUEUE[: max(1, getattr(QUEUE[0].backend, "_sim_n_jobs", 4) or 1)]
    i = c.schedule(len(window))
    if i:
        c.fault("worker_reorder")
    task = QUEUE.pop(i)
    _run_task(task)
    c.now += c.sched.expovariate(1.0)
    if task.callback is not None:
        task.callback(task)
    return True


def install():
    import joblib
    import joblib.parallel as jp
    from joblib._parallel_backends import FallbackToBackend, ParallelBackendBase, SequentialBackend

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = True
        supports_sharedmem = False
        supports_inner_max_num_threads = True
        uses_threads = False
        _sim_n_jobs = 1

        @property
        def supports_return_generator(self):
            return True

        @property
        def supports_timeout(self):
            return True

        def effective_n_jobs(self, n_jobs):
            if n_jobs is None:
                return 1
            return max(1, 8 + 1 + n_jobs) if n_jobs < 0 else n_jobs

        def configure(self, n_jobs=1, parallel=None, **kw):
            n_jobs = self.effective_n_jobs(n_jobs)
            if n_jobs == 1:
                raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
            self.parallel = parallel
            self._sim_n_jobs = n_jobs
            return n_jobs

        def get_nested_backend(self):
            level = getattr(self, "nesting_level", 0) + 1
            if level > 1:
                return SequentialBackend(nesting_level=level), None
            return SimThreads(nesting_level=level), None

        def __reduce__(self):
            return _backend, (self.supports_sharedmem, getattr(self, "nesting_level", 0))

        def submit(self, func, callback=None):
            task = _Task(func, callback, self)
            QUEUE.append(task)
            return task

        def apply_async(self, func, callback=None):
            return self.submit(func, callback)

        def retrieve_result_callback(self, out):
            if out.exc is not None:
                raise out.exc
            return out.result

        def retrieve_result(self, out, timeout=None):
            while not out.done:
                pump()
            if out.exc is not None:
                raise out.exc
            return out.result

        def abort_everything(self, ensure_ready=True):
            QUEUE[:] = [t for t in QUEUE if t.backend is not self]

        def terminate(self):
            QUEUE[:] = [t for t in QUEUE if t.backend is not self]

    class SimThreads(SimBackend):
        supports_sharedmem = True
        uses_threads = True

    for name in ("loky", "multiprocessing"):
        jp.BACKENDS[name] = SimBackend
    jp.BACKENDS["threading"] = SimThreads
    for mod in (jp, joblib._parallel_backends):
        mod.ThreadingBackend = SimThreads
    core.PUMPS.append(pump)

    # ---- concurrent.futures pools
    class SimFuture(cf.Future):
        def result(self, timeout=None):
            while not self.done():
                if not pump():
                    break
            return super().result(0)

        def exception(self, timeout=None):
            while not self.done():
                if not pump():
                    break
            return super().exception(0)

    class SimExecutor(cf.Executor):
        _shared = True

        def __init__(self, max_workers=None, *a, **k):
            self._n = max_workers or 4
            self._backend = type("B", (), {"supports_sharedmem": self._shared, "_sim_n_jobs": self._n})()

        def submit(self, fn, /, *args, **kwargs):
            fut = SimFuture()

            def done(task):
                if task.exc is not None:
                    fut.set_exception(task.exc)
                else:
                    fut.set_result(task.result)

            QUEUE.append(_Task(lambda: fn(*args, **kwargs), done, self._backend))
            return fut

        def map(self, fn, *its, timeout=None, chunksize=1):
            futs = [self.submit(fn, *a) for a in zip(*its)]

            def gen():
                for f in futs:
                    yield f.result()

            return gen()

        def shutdown(self, wait=True, *, cancel_futures=False):
            while any(t.backend is self._backend for t in QUEUE):
                pump()

    class SimProcs(SimExecutor):
        _shared = True  # user objects are looked up by reference in the harness

    def as_completed(fs, timeout=None):
        pending = list(dict.fromkeys(fs))
        while pending:
            ready = [f for f in pending if f.done()]
            if not ready:
                if not pump():
                    return
                continue
            for f in ready:
                pending.remove(f)
                yield f

    _wait = cf.wait

    def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = list(fs)
        while True:
            done = [f for f in fs if f.done()]
            if (return_when != cf.ALL_COMPLETED and done) or len(done) == len(fs) or not pump():
                return _wait(fs, 0, return_when)

    cf.ThreadPoolExecutor = SimExecutor
    cf.ProcessPoolExecutor = SimProcs
    cf.as_completed = as_completed
    cf.wait = wait
    import concurrent.futures.process
    import concurrent.futures.thread

    concurrent.futures.thread.ThreadPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimProcs

    # ---- multiprocessing pools and raw threads
    import multiprocessing
    import multiprocessing.pool
    import threading

    class _Async:
        def __init__(self, futs, single):
            self.f, self.single = futs, single

        def get(self, timeout=None):
            r = [f.result() for f in self.f]
            return r[0] if self.single else r

        def wait(self, timeout=None):
            self.get()

        def ready(self):
            return all(f.done() for f in self.f)

        def successful(self):
            return all(f.exception() is None for f in self.f)

    class SimPool:
        def __init__(self, processes=None, *a, **k):
            self._ex = SimExecutor(processes)

        def map(self, fn, it, chunksize=None):
            return [f.result() for f in [self._ex.submit(fn, x) for x in it]]

        def starmap(self, fn, it, chunksize=None):
            return [f.result() for f in [self._ex.submit(fn, *x) for x in it]]

        def imap(self, fn, it, chunksize=1):
            return self._ex.map(fn, it)

        def imap_unordered(self, fn, it, chunksize=1):
            for f in as_completed([self._ex.submit(fn, x) for x in it]):
                yield f.result()

        def apply(self, fn, args=(), kwds={}):
            return self._ex.submit(fn, *args, **kwds).result()

        def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
            f = self._ex.submit(fn, *args, **kwds)
            if callback or error_callback:
                def cb(fut):
                    e = fut.exception()
                    if e is None and callback:
                        callback(fut.result())
                    elif e is not None and error_callback:
                        error_callback(e)
                f.add_done_callback(cb)
            return _Async([f], True)

        def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
            return _Async([self._ex.submit(fn, x) for x in it], False)

        def close(self):
            self._ex.shutdown()

        terminate = close
        join = close

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimPool
    import multiprocessing.dummy

    multiprocessing.dummy.Pool = SimPool

    import os

    global TRACED
    TRACED = os.environ.get("BOSIM_REPO", "/repo").rstrip("/") + "/"
    _REAL_T.update(Thread=threading.Thread, start=threading.Thread.start, Semaphore=threading.Semaphore)
    _start, _join, _alive = threading.Thread.start, threading.Thread.join, threading.Thread.is_alive
    _shared = type("B", (), {"supports_sharedmem": True, "_sim_n_jobs": 8})()

    def t_start(self):
        if core.CTX is None:
            return _start(self)
        self._sim_task = _Task(self.run, None, _shared)
        QUEUE.append(self._sim_task)

    def t_join(self, timeout=None):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return _join(self, timeout)
        while not t.done and pump():
            pass

    def t_alive(self):
        t = getattr(self, "_sim_task", None)
        return _alive(self) if t is None else not t.done

    threading.Thread.start = t_start
    threading.Thread.join = t_join
    threading.Thread.is_alive = t_alive
