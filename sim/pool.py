"""Simulated worker processes.

`SimPool` offers the interface of multiprocessing.Pool (and, below, of
concurrent.futures executors).  Every task crosses a pickle boundary in both
directions and runs in a forked child (so that nothing but its return value
reaches the parent), while the simulator decides how long each task takes,
on which worker it runs and hence the completion order, and which faults hit
it.  `chunksize` never changes results, only the assignment to workers.
"""
import concurrent.futures as cf
import heapq
import multiprocessing
import multiprocessing.dummy
import multiprocessing.pool
import os
import pickle
import sys

from sim import seams

REAL = {}


class PoolPlan:
    """Decisions for every pool of a run (plain data, from the plan)."""

    def __init__(self, seed=0, max_latency=1.0, task_faults=(), create_faults=(), inproc=False):
        self.seed = seed
        self.max_latency = max_latency
        self.task_faults = {tuple(t[:2]): t[2] for t in task_faults}   # (pool, task) -> kind
        self.create_faults = {int(c[0]): c[1] for c in create_faults}  # pool -> kind
        self.inproc = inproc
        self.npools = 0
        self.open = 0
        self.completion_orders = []
        self.faults_hit = []

    def latency(self, pool, task):
        if self.max_latency <= 0:
            return 0.0
        u = seams.digest_int('lat', self.seed, pool, task) % 100003 / 100003.0
        return round(u * self.max_latency, 6)


def make_fault(kind):
    if kind == 'MemoryError':
        return MemoryError('simulated: worker out of memory')
    if kind == 'OSError':
        return OSError(11, 'simulated: Resource temporarily unavailable')
    if kind == 'ENOMEM':
        return OSError(12, 'simulated: Cannot allocate memory')
    if kind == 'RuntimeError':
        return RuntimeError('simulated: worker fault')
    if kind == 'ValueError':
        return ValueError('simulated: worker fault')
    if kind == 'KeyError':
        return KeyError('simulated: worker fault')
    raise AssertionError(kind)


def _run_forked(func, args, kwargs):
    payload = pickle.dumps((func, args, kwargs))
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            sys.settrace(None)
            os.close(r)
            func, args, kwargs = pickle.loads(payload)
            try:
                out = (True, func(*args, **kwargs))
            except Exception as e:  # pylint: disable=broad-except
                out = (False, e)
            try:
                data = pickle.dumps(out)
            except Exception as e:  # pylint: disable=broad-except
                data = pickle.dumps((False, multiprocessing.pool.MaybeEncodingError(e, repr(out))))
            with os.fdopen(wfd, 'wb') as f:
                f.write(data)
        except BaseException:  # pylint: disable=broad-except
            code = 70
        os._exit(code)
    os.close(wfd)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return False, RuntimeError('simulated worker died')
    return pickle.loads(data)


def _run_inproc(func, args, kwargs):
    try:
        func, args, kwargs = pickle.loads(pickle.dumps((func, args, kwargs)))
        out = func(*args, **kwargs)
        return True, pickle.loads(pickle.dumps(out))
    except Exception as e:  # pylint: disable=broad-except
        return False, e


class AsyncResult:
    def __init__(self, values, single=False, pool=None):
        self._values = values    # list of (ok, value)
        self._single = single
        self._pool = pool
        self._seen = False

    def ready(self):
        return True

    def successful(self):
        return all(ok for ok, _ in self._values)

    def wait(self, timeout=None):
        if not self._seen and self._pool is not None:
            self._pool._alive()
        self._seen = True

    def get(self, timeout=None):
        self.wait()
        for ok, v in self._values:
            if not ok:
                raise v
        vals = [v for _, v in self._values]
        return vals[0] if self._single else vals


class SimPool:
    is_threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None):
        w = seams.active()
        self.world = w
        self.plan = getattr(w, 'pool_plan', None) or PoolPlan()
        w.pool_plan = self.plan
        self.pid_no = self.plan.npools
        self.plan.npools += 1
        w.probe('pool_created')
        kind = self.plan.create_faults.get(self.pid_no)
        if kind is not None:
            w.fire('pool_create_' + kind)
            self.plan.faults_hit.append(('create', self.pid_no))
            raise make_fault(kind)
        if processes is None:
            processes = w.cpu
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self.n = processes
        self.ntask = 0
        self.state = 'RUN'
        self.plan.open += 1
        self.initializer = (initializer, initargs)

    # -- engine
    def _exec(self, func, calls):
        """Run `calls` (args, kwargs); return results in order plus completion order."""
        if self.state != 'RUN':
            raise ValueError('Pool not running')
        w = self.world
        calls = list(calls)
        base = self.ntask
        self.ntask += len(calls)
        free = [(0.0, i) for i in range(self.n)]
        heapq.heapify(free)
        finish = []
        for i in range(len(calls)):
            t, wk = heapq.heappop(free)
            t += self.plan.latency(self.pid_no, base + i)
            finish.append((t, i))
            heapq.heappush(free, (t, wk))
        order = [i for _, i in sorted(finish)]
        results = [None] * len(calls)
        if self.is_threads or self.plan.inproc or w.scheduler is not None:
            run = _run_inproc
        else:
            run = _run_forked
        init, initargs = self.initializer

        def wrapped(*a, **k):
            if init is not None:
                init(*initargs)
            return func(*a, **k)
        for i in order:
            args, kwargs = calls[i]
            kind = self.plan.task_faults.get((self.pid_no, base + i))
            w.probe('pool_task')
            if kind is not None:
                w.fire('pool_task_' + kind)
                self.plan.faults_hit.append(('task', self.pid_no, base + i))
                results[i] = (False, make_fault(kind))
            elif init is not None:
                results[i] = _run_inproc(wrapped, args, kwargs) if run is _run_inproc \
                    else _run_forked(_WithInit(init, initargs, func), args, kwargs)
            else:
                results[i] = run(func, args, kwargs)
        if len(order) > 1:
            self.plan.completion_orders.append(tuple(order))
        if finish:
            w.advance(max(t for t, _ in finish))
        return results, order

    @staticmethod
    def _raise_first(results, order=None):
        for i in (order if order is not None else range(len(results))):
            ok, v = results[i]
            if not ok:
                raise v

    def map(self, func, iterable, chunksize=None):
        res, order = self._exec(func, [((x,), {}) for x in iterable])
        self._raise_first(res, order)
        return [v for _, v in res]

    def starmap(self, func, iterable, chunksize=None):
        res, order = self._exec(func, [(tuple(x), {}) for x in iterable])
        self._raise_first(res, order)
        return [v for _, v in res]

    def imap(self, func, iterable, chunksize=1):
        res, _ = self._exec(func, [((x,), {}) for x in iterable])

        def gen():
            for ok, v in res:
                self._alive()
                if not ok:
                    raise v
                yield v
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        res, order = self._exec(func, [((x,), {}) for x in iterable])

        def gen():
            for i in order:
                self._alive()
                ok, v = res[i]
                if not ok:
                    raise v
                yield v
        return gen()

    def _many_async(self, func, calls, callback, error_callback, single=False):
        res, order = self._exec(func, calls)
        bad = [res[i][1] for i in order if not res[i][0]]
        if bad:
            if error_callback is not None:
                error_callback(bad[0])
        elif callback is not None:
            callback(res[0][1] if single else [v for _, v in res])
        return AsyncResult(res, single, self)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._many_async(func, [((x,), {}) for x in iterable], callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._many_async(func, [(tuple(x), {}) for x in iterable], callback,
                                error_callback)

    def apply(self, func, args=(), kwds=None):
        res, _ = self._exec(func, [(tuple(args), dict(kwds or {}))])
        self._raise_first(res)
        return res[0][1]

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return LazyAsync(self, func, tuple(args), dict(kwds or {}), callback, error_callback)

    # -- life cycle
    def _release(self):
        if self.state == 'RUN':
            self.plan.open -= 1
        self.state = 'CLOSE'

    def close(self):
        self._flush()
        self._release()

    def terminate(self):
        self._release()
        self.terminated = True

    terminated = False

    def _alive(self):
        # workers killed before their results were collected: a real caller would wait forever
        if self.terminated:
            raise RuntimeError('simulated: the pool was terminated before its results were collected')

    def join(self):
        if self.state == 'RUN':
            raise ValueError('Pool is still running')

    def _flush(self):
        pend = getattr(self, '_pending', None)
        if not pend:
            return
        self._pending = []
        # all outstanding apply_async tasks run concurrently
        res, order = self._exec(_call_pair, [((p.func, p.args, p.kwds), {}) for p in pend])
        for i in order:
            pend[i].settle(res[i])

    def __enter__(self):
        if self.state != 'RUN':
            raise ValueError('Pool not running')
        return self

    def __exit__(self, *a):
        self.terminate()
        return False


class _WithInit:
    def __init__(self, init, initargs, func):
        self.init, self.initargs, self.func = init, initargs, func

    def __call__(self, *a, **k):
        self.init(*self.initargs)
        return self.func(*a, **k)


def _call_pair(func, args, kwds):
    return func(*args, **kwds)


class LazyAsync:
    """Result of apply_async: outstanding ones run together, callbacks in completion order."""

    def __init__(self, pool, func, args, kwds, callback, error_callback):
        self.pool, self.func, self.args, self.kwds = pool, func, args, kwds
        self.cb, self.ecb = callback, error_callback
        self.res = None
        if not hasattr(pool, '_pending'):
            pool._pending = []
        if pool.state != 'RUN':
            raise ValueError('Pool not running')
        pool._pending.append(self)

    def settle(self, res):
        self.res = res
        ok, v = res
        if ok and self.cb is not None:
            self.cb(v)
        if not ok and self.ecb is not None:
            self.ecb(v)

    def _need(self):
        if self.res is None:
            self.pool._flush()

    def ready(self):
        self._need()
        return True

    def successful(self):
        self._need()
        return self.res[0]

    def wait(self, timeout=None):
        self._need()

    def get(self, timeout=None):
        self._need()
        ok, v = self.res
        if not ok:
            raise v
        return v


class SimThreadPool(SimPool):
    is_threads = True


class SimFuture:
    def __init__(self, ex, lazy):
        self.ex, self.lazy = ex, lazy
        self._cbs = []

    def result(self, timeout=None):
        return self.lazy.get()

    def exception(self, timeout=None):
        self.lazy._need()
        ok, v = self.lazy.res
        return None if ok else v

    def done(self):
        self.lazy._need()
        return True

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def running(self):
        return False

    def add_done_callback(self, fn):
        self.lazy._need()
        fn(self)


class SimExecutor(SimPool):
    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **k):
        super().__init__(max_workers, initializer, initargs)
        self.futures = []

    def submit(self, fn, /, *args, **kwargs):
        f = SimFuture(self, LazyAsync(self, fn, args, kwargs, None, None))
        f.order_key = len(self.futures)
        self.futures.append(f)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        res, _ = self._exec(fn, [(tuple(x), {}) for x in zip(*iterables)])

        def gen():
            for ok, v in res:
                if not ok:
                    raise v
                yield v
        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        self._flush()
        self._release()

    def __exit__(self, *a):
        self.shutdown()
        return False


class SimThreadExecutor(SimExecutor):
    is_threads = True


def _sim_as_completed(fs, timeout=None):
    fs = list(fs)
    if not all(isinstance(f, SimFuture) for f in fs):
        yield from REAL['as_completed'](fs, timeout)
        return
    for f in fs:
        f.lazy._need()
    plan = fs[0].ex.plan if fs else None
    yield from sorted(fs, key=lambda f: (plan.latency(f.ex.pid_no, f.order_key), f.order_key))


def _sim_wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    fs = set(fs)
    if not all(isinstance(f, SimFuture) for f in fs):
        return REAL['wait'](fs, timeout, return_when)
    for f in fs:
        f.lazy._need()
    return cf._base.DoneAndNotDoneFutures(fs, set())


def install():
    def pick(name, real, sim):
        REAL[name] = real

        def make(*a, **k):
            if seams.active() is None:
                return real(*a, **k)
            return sim(*a, **k)
        make.__name__ = name
        return make
    # the real default method first needs no network; nothing is started here
    multiprocessing.Pool = pick('Pool', multiprocessing.Pool, SimPool)
    multiprocessing.pool.Pool = pick('pool.Pool', multiprocessing.pool.Pool, SimPool)
    multiprocessing.pool.ThreadPool = pick('ThreadPool', multiprocessing.pool.ThreadPool,
                                           SimThreadPool)

    multiprocessing.dummy.Pool = pick('dummy.Pool', multiprocessing.dummy.Pool, SimThreadPool)
    for name in list(multiprocessing.context._concrete_contexts):
        ctx = multiprocessing.context._concrete_contexts[name]
        ctx.Pool = pick('ctx.Pool.' + name, ctx.Pool, SimPool)
        ctx.cpu_count = pick('ctx.cpu.' + name, ctx.cpu_count, lambda: seams.active().cpu)
    cf.ProcessPoolExecutor = pick('PPE', cf.ProcessPoolExecutor, SimExecutor)
    cf.ThreadPoolExecutor = pick('TPE', cf.ThreadPoolExecutor, SimThreadExecutor)
    REAL['as_completed'] = cf.as_completed
    REAL['wait'] = cf.wait

    def as_completed(fs, timeout=None):
        return _sim_as_completed(fs, timeout)
    cf.as_completed = as_completed
    cf.wait = _sim_wait
    simcpu = lambda: seams.active().cpu
    multiprocessing.cpu_count = pick('cpu_count', multiprocessing.cpu_count, simcpu)
    os.cpu_count = pick('os.cpu_count', os.cpu_count, simcpu)
    if hasattr(os, 'process_cpu_count'):
        os.process_cpu_count = pick('os.pcc', os.process_cpu_count, simcpu)
    REAL['sched_getaffinity'] = os.sched_getaffinity

    def aff(pid):
        w = seams.active()
        return REAL['sched_getaffinity'](pid) if w is None else set(range(w.cpu))
    os.sched_getaffinity = aff
