"""Simulated worker pools: multiprocessing.Pool, ThreadPool, concurrent.futures executors.

Workers are tasks of the run's scheduler.  Everything that crosses a process boundary is really pickled and unpickled.
world.pool is the fault plan of the run:
  {"create": errno name}             the pool cannot be created
  {"jobs": {"<k>": kind}}            what happens to the k-th chunk of work handed out
     kinds: exc (the task raises), memory (MemoryError), send (arguments cannot be pickled),
            result (the result cannot be sent back), die (the worker is killed before running it),
            die_after (killed after running it, before its answer arrives), slow (takes long)
  {"delay": seconds}                 upper bound of the delays drawn per job
"""
import errno, os, pickle, math, collections, itertools
import multiprocessing, multiprocessing.pool, multiprocessing.context, multiprocessing.dummy
import concurrent.futures, concurrent.futures.process, concurrent.futures.thread
from .sched import CUR, Scheduler, SimAbort

_real = {}


class WorkerError(RuntimeError):
    """what a task raises when the plan says so"""


def _plan():
    w = CUR.world
    p = w.pool
    if p is None:
        p = w.pool = {}
    return p


def _sched():
    s = CUR.sched
    if not isinstance(s, Scheduler):
        raise OSError(errno.EAGAIN, "no processes outside a scheduled run")
    return s


def _create(what):
    w = CUR.world
    w.log("create %s" % what)
    s = _sched()
    s.yield_point("pool")
    c = _plan().get("create")
    if c:
        w.fired["pool_create_%s" % c] += 1
        if c == "ImportError":
            raise ImportError("This platform lacks a functioning sem_open implementation")
        if c == "NotImplementedError":
            raise NotImplementedError("system provides too few semaphores")
        e = getattr(errno, c)
        raise OSError(e, os.strerror(e))


class _Job:
    __slots__ = ("no", "payload", "done", "value", "error", "lost", "call", "fault", "started", "cancelled")

    def __init__(self, no):
        self.no = no
        self.done = False
        self.value = self.error = None
        self.lost = False
        self.started = False
        self.cancelled = False


class _Core:
    """queue of jobs served by worker tasks"""

    def __init__(self, n, processes, what, initializer=None, initargs=()):
        self.n = n
        self.processes = processes
        self.what = what
        self.queue = collections.deque()
        self.closed = False
        self.killed = False
        self.broken = False
        self.alive = 0
        self.finished = 0
        self.initializer, self.initargs = initializer, initargs
        self.pending = {}
        for i in range(n):
            self._spawn()

    def _spawn(self):
        self.alive += 1
        _sched().spawn(self._work, "%s-worker" % self.what, CUR.world.proc)

    def submit(self, call):
        """call: (fn, args, kwargs) executed in a worker.  Returns a _Job"""
        w = CUR.world
        plan = _plan()
        no = plan["_n"] = plan.get("_n", 0) + 1
        j = _Job(no)
        j.fault = (plan.get("jobs") or {}).get(str(no))
        d = plan.get("delay", 0)
        w.log("job %d" % no)
        self.pending[j] = True
        if self.processes:
            if j.fault == "send":
                w.fired["worker_send"] += 1
                self._fail(j, pickle.PicklingError("cannot pickle the arguments"))
                return j
            try:
                j.payload = pickle.dumps(call)
            except Exception as e:
                self._fail(j, e)
                return j
        else:
            j.payload = call
        self.queue.append(j)
        return j

    def _fail(self, j, e):
        j.error = e
        self._finish(j)

    def _finish(self, j):
        if not j.done:
            j.done = True
            self.pending.pop(j, None)
            cb = getattr(self, "on_done", None)
            if cb:
                cb(j)

    def _idle(self):
        return bool(self.queue) or self.closed or self.killed or self.broken

    def _work(self):
        s = CUR.sched
        w = CUR.world
        try:
            if self.initializer is not None:
                self.initializer(*self.initargs)
            while True:
                s.block(self._idle)
                if self.killed or self.broken:
                    return
                if not self.queue:
                    return
                j = self.queue.popleft()
                if j.cancelled:
                    continue
                j.started = True
                f = j.fault
                delay = _plan().get("delay", 0)
                if f == "slow":
                    w.fired["worker_slow"] += 1
                    s.sleep(300.0)
                elif delay:
                    # a delay per job, drawn from the run's seed
                    s.sleep(delay * ((w.seed * 7919 + j.no * 104729) % 1000) / 1000.0)
                else:
                    s.yield_point("job")
                if self.killed or self.broken:
                    return
                if f == "die":
                    w.fired["worker_die"] += 1
                    self._die(j)
                    return
                try:
                    if f in ("exc", "memory"):
                        w.fired["worker_" + f] += 1
                        raise MemoryError() if f == "memory" else WorkerError("task failed")
                    if self.processes:
                        try:
                            fn, args, kw = pickle.loads(j.payload)
                        except Exception:
                            if self.what == "pool":
                                self._die(j)
                                return
                            raise
                    else:
                        fn, args, kw = j.payload
                    value = fn(*args, **kw)
                except SimAbort:
                    raise
                except Exception as e:
                    s.yield_point("jobdone")
                    if self.killed or self.broken:
                        return
                    self._fail(j, e)
                    continue
                if self.killed or self.broken:
                    return
                if f == "die_after":
                    w.fired["worker_die_after"] += 1
                    self._die(j)
                    return
                try:
                    if f == "result":
                        w.fired["worker_result"] += 1
                        raise pickle.PicklingError("cannot pickle the result")
                    if self.processes:
                        value = pickle.loads(pickle.dumps(value))
                except Exception as e:
                    self._fail(j, multiprocessing.pool.MaybeEncodingError(e, "result") if self.what == "pool" else e)
                    continue
                s.yield_point("jobdone")
                if self.killed or self.broken:
                    return
                j.value = value
                self._finish(j)
                s.yield_point("result")
        finally:
            self.alive -= 1

    def _die(self, j):
        w = CUR.world
        w.log("worker of job %d dies" % j.no)
        if self.what == "pool":
            j.lost = True            # never answered; a replacement worker is started
            self._spawn()
        else:
            self.broken = True
            for k in list(self.pending):
                self._fail(k, concurrent.futures.process.BrokenProcessPool(
                    "A process in the process pool was terminated abruptly"))


# ---------------------------------------------------------------- multiprocessing.Pool
class SimResult:
    def __init__(self, jobs, single=False, flat=True, callback=None, error_callback=None):
        self.jobs, self.single, self.flat = jobs, single, flat
        self.cb, self.ecb = callback, error_callback

    def _done(self):
        # the first failure completes the result, as in the real pool
        return all(j.done for j in self.jobs)

    def ready(self):
        return self._done()

    def successful(self):
        if not self._done():
            raise ValueError("{0!r} not ready".format(self))
        return all(j.error is None for j in self.jobs)

    def wait(self, timeout=None):
        _sched().block(self._done, timeout)

    def get(self, timeout=None):
        if not _sched().block(self._done, timeout):
            raise multiprocessing.TimeoutError
        for j in sorted(self.jobs, key=lambda j: j.no):
            if j.error is not None:
                if self.ecb:
                    self.ecb(j.error)
                raise j.error
        if self.single:
            v = self.jobs[0].value
        else:
            v = list(itertools.chain.from_iterable(j.value for j in self.jobs)) if self.flat else \
                [j.value for j in self.jobs]
        if self.cb:
            self.cb(v)
        return v


def mapstar(fn, chunk):
    return [fn(x) for x in chunk]


def starmapstar(fn, chunk):
    return [fn(*x) for x in chunk]


class SimPool:
    kind = "pool"
    procs = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        _create(self.kind)
        self.n = processes
        self.core = _Core(processes, self.procs, "pool", initializer, initargs)
        self.state = "run"

    def _check(self):
        if self.state != "run":
            raise ValueError("Pool not running")

    def _chunks(self, iterable, chunksize):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        if len(items) == 0:
            return []
        chunksize = max(1, chunksize)
        return [items[i:i + chunksize] for i in range(0, len(items), chunksize)]

    def _map(self, mapper, func, iterable, chunksize, cb=None, ecb=None):
        self._check()
        jobs = [self.core.submit((mapper, (func, c), {})) for c in self._chunks(iterable, chunksize)]
        return SimResult(jobs, callback=cb, error_callback=ecb)

    def map(self, func, iterable, chunksize=None):
        return self._map(mapstar, func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map(starmapstar, func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(mapstar, func, iterable, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(starmapstar, func, iterable, chunksize, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        return SimResult([self.core.submit((func, tuple(args), dict(kwds)))], single=True, callback=callback,
                         error_callback=error_callback)

    def imap(self, func, iterable, chunksize=1):
        self._check()
        jobs = [self.core.submit((mapstar, (func, c), {})) for c in self._chunks(iterable, chunksize)]

        def gen():
            for j in jobs:
                _sched().block(lambda: j.done)
                if j.error is not None:
                    raise j.error
                for v in j.value:
                    yield v
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        order = []
        prev = getattr(self.core, "on_done", None)

        def done(j):
            if prev:
                prev(j)
            order.append(j)
        self.core.on_done = done
        jobs = [self.core.submit((mapstar, (func, c), {})) for c in self._chunks(iterable, chunksize)]
        mine = set(jobs)

        def gen():
            seen = 0
            left = len(jobs)
            while left:
                _sched().block(lambda: len(order) > seen)
                j = order[seen]
                seen += 1
                if j not in mine:
                    continue
                left -= 1
                if j.error is not None:
                    raise j.error
                for v in j.value:
                    yield v
        return gen()

    def close(self):
        if self.state == "run":
            self.state = "close"
            self.core.closed = True

    def terminate(self):
        self.state = "terminate"
        self.core.killed = True

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")
        _sched().block(lambda: self.core.alive == 0)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimThreadPool(SimPool):
    kind = "threadpool"
    procs = False

    def __init__(self, processes=None, initializer=None, initargs=()):
        SimPool.__init__(self, processes, initializer, initargs)


# ---------------------------------------------------------------- concurrent.futures
def _chunk(fn, chunk):
    return [fn(*args) for args in chunk]


class SimExecutor(concurrent.futures.Executor):
    procs = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None,
                 thread_name_prefix=""):
        if max_workers is None:
            max_workers = os.cpu_count() or 1
            if not self.procs:
                max_workers = min(32, max_workers + 4)
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        if self.procs and _plan().get("create") in ("ImportError", "NotImplementedError"):
            _create("executor")
        self._max_workers = max_workers
        self.core = None
        self.init = (initializer, initargs)
        self.down = False
        self.futs = {}

    def _start(self):
        if self.core is None:
            if self.procs:
                _create("executor")
            self.core = _Core(self._max_workers, self.procs, "executor" if self.procs else "threads", *self.init)
            self.core.on_done = self._deliver

    def _deliver(self, j):
        f = self.futs.pop(j, None)
        if f is None:
            self.early = getattr(self, "early", {})
            self.early[j] = True
            return
        self._set(f, j)

    @staticmethod
    def _set(f, j):
        if f.cancelled() or not f.set_running_or_notify_cancel():
            return
        if j.error is not None:
            f.set_exception(j.error)
        else:
            f.set_result(j.value)

    def submit(self, fn, /, *args, **kw):
        if self.core is not None and self.core.broken:
            raise concurrent.futures.process.BrokenProcessPool("A child process terminated abruptly")
        if self.down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        self._start()
        f = concurrent.futures.Future()
        j = self.core.submit((fn, args, kw))
        if j.done:
            self._set(f, j)
        else:
            self.futs[j] = f
            f.job = j
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if not self.procs:
            return super().map(fn, *iterables, timeout=timeout)
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        items = list(zip(*iterables))
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        fs = [self.submit(_chunk, fn, c) for c in chunks]

        def gen():
            try:
                fs.reverse()
                while fs:
                    for v in fs.pop().result(timeout):
                        yield v
            finally:
                for f in fs:
                    f.cancel()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.down = True
        if self.core is None:
            return
        if cancel_futures:
            for j, f in list(self.futs.items()):
                if f.cancel():
                    j.cancelled = True
        for j, f in list(self.futs.items()):
            if f.cancelled():
                j.cancelled = True
        self.core.closed = True
        if wait:
            _sched().block(lambda: self.core.alive == 0)

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


class SimThreadExecutor(SimExecutor):
    procs = False

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        SimExecutor.__init__(self, max_workers, None, initializer, initargs)


def install():
    def pick(real_factory, sim):
        def factory(*a, **k):
            if CUR.world is None:
                return real_factory(*a, **k)
            return sim(*a, **k)
        factory.__name__ = getattr(real_factory, "__name__", "factory")
        return factory
    real_pool = multiprocessing.Pool
    multiprocessing.Pool = pick(real_pool, SimPool)
    ctx = multiprocessing.context.BaseContext
    ctx_pool = ctx.Pool

    def Pool(self, *a, **k):
        if CUR.world is None:
            return ctx_pool(self, *a, **k)
        return SimPool(*a, **k)
    ctx.Pool = Pool
    multiprocessing.pool.Pool = pick(multiprocessing.pool.Pool, SimPool)
    multiprocessing.pool.ThreadPool = pick(multiprocessing.pool.ThreadPool, SimThreadPool)
    multiprocessing.dummy.Pool = pick(multiprocessing.dummy.Pool, SimThreadPool)
    P = pick(concurrent.futures.process.ProcessPoolExecutor, SimExecutor)
    T = pick(concurrent.futures.thread.ThreadPoolExecutor, SimThreadExecutor)
    concurrent.futures.process.ProcessPoolExecutor = concurrent.futures.ProcessPoolExecutor = P
    concurrent.futures.thread.ThreadPoolExecutor = concurrent.futures.ThreadPoolExecutor = T
    start = multiprocessing.process.BaseProcess.start

    def pstart(self):
        if CUR.world is not None:
            CUR.world.escapes.append("multiprocessing.Process")
            raise OSError(errno.EAGAIN, "no real processes inside the simulation")
        return start(self)
    multiprocessing.process.BaseProcess.start = pstart
