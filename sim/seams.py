"""Seams between bayeso and its environment.

`install()` must run before bayeso is imported.  It replaces the sources of
nondeterminism and the external services bayeso uses by dispatchers that
consult the active `World`; with no active world every dispatcher calls the
original, so the library behaves as shipped.

seam                     what is replaced
clock                    time.time/monotonic/perf_counter/process_time (+_ns), time.sleep
OS entropy               numpy.random.bit_generator.randbits, os.urandom, random
optimisation service     scipy.optimize.minimize, cma.fmin
linear algebra           scipy.linalg.cholesky/cho_factor/inv, numpy.linalg.cholesky/inv
posterior sampling       scipy.stats.multivariate_normal
worker processes         multiprocessing.Pool & friends, concurrent.futures, cpu_count
terminal                 sys.stdout, sys.stderr
scheduling               sys.settrace line events in bayeso's own files (sched.py)
"""
import hashlib
import os
import random
import sys
import threading
import time

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
PKG_DIR = os.path.join(REPO, 'bayeso') + os.sep

REAL = {}
_active = None          # the active World (one per process)
_tls = threading.local()


class SimulatedCrash(BaseException):
    """Process death; never seen by a caller (the process is gone)."""


class SimTimeout(BaseException):
    pass


def active():
    return _active


def current_client():
    return getattr(_tls, 'client', 0)


def set_client(c):
    _tls.client = c


def digest_int(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=16).digest()
    return int.from_bytes(h, 'big')


class World:
    """One simulated execution environment."""

    def __init__(self, seed=0, t0=1.7e9, cpu=4):
        self.seed = seed
        self.now = float(t0)
        self.t0 = float(t0)
        self.skew = 0.0            # wall clock offset (steps/jumps)
        self.frozen = False
        self.cpu = cpu
        self.pid = 4242
        self.events = []           # history
        self.fired = {}            # fault kind -> count
        self.probes = {}           # probe -> count
        self.epoch = {}            # client -> entropy epoch
        self._ent = {}             # (client, epoch) -> counter
        self.hooks = {}            # seam -> callable
        self.clock_reads = 0
        self.clock_plan = None     # callable(world, nread) on wall clock reads
        self.stderr = SimStream()
        self.stdout = SimStream()
        self.scheduler = None
        self.sim_elapsed = 0.0

    # -- bookkeeping
    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, *ev):
        self.events.append(ev)

    # -- clock
    def advance(self, dt):
        if dt <= 0:
            return
        if self.scheduler is not None and self.scheduler.owns_current():
            self.scheduler.sleep(dt)
        else:
            self.now += dt
        self.sim_elapsed += dt

    def wall(self):
        self.clock_reads += 1
        if self.clock_plan is not None:
            self.clock_plan(self, self.clock_reads)
        return self.now + self.skew

    def mono(self):
        return self.now

    # -- entropy
    def randbits(self, k):
        c = current_client()
        e = self.epoch.get(c, 0)
        n = self._ent.get((c, e), 0)
        self._ent[(c, e)] = n + 1
        self.probe('entropy_draw')
        out = 0
        got = 0
        i = 0
        while got < k:
            out = (out << 128) | digest_int('ent', self.seed, c, e, n, i)
            got += 128
            i += 1
        return out >> (got - k)

    def new_epoch(self, client, e, seed_global=True):
        """Key all further randomness of `client` by epoch `e`."""
        self.epoch[client] = e
        self._ent[(client, e)] = 0
        if seed_global:
            import numpy as np
            np.random.seed(digest_int('glob', self.seed, client, e) % (2 ** 32))
            random.seed(digest_int('pyglob', self.seed, client, e))

    def __enter__(self):
        global _active
        assert _active is None, 'nested world'
        import numpy as np
        _active = self
        np.random.seed(digest_int('glob', self.seed) % (2 ** 32))
        random.seed(digest_int('pyglob', self.seed))
        return self

    def __exit__(self, *a):
        global _active
        _active = None
        return False


class SimStream:
    """A terminal.  `plan(nwrite, text)` may raise to inject a sink fault."""

    encoding = 'utf-8'

    def __init__(self):
        self.data = []
        self.nwrites = 0
        self.plan = None
        self.closed = False

    def write(self, s):
        self.nwrites += 1
        if self.plan is not None:
            self.plan(self.nwrites, s)
        self.data.append(s)
        return len(s)

    def flush(self):
        if self.plan is not None:
            self.plan(self.nwrites, None)

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no fileno')

    def text(self):
        return ''.join(self.data)


class DispatchStream:
    """sys.stdout / sys.stderr: the active world's terminal, else the real one."""

    encoding = 'utf-8'
    errors = 'replace'

    def __init__(self, name):
        self._name = name
        self._real = getattr(sys, name)

    def _cur(self):
        w = _active
        return self._real if w is None else getattr(w, self._name)

    def write(self, s):
        return self._cur().write(s)

    def flush(self):
        return self._cur().flush()

    def isatty(self):
        return False

    def fileno(self):
        return self._cur().fileno()

    @property
    def closed(self):
        return self._cur().closed


def _dispatch(name, real):
    """A module-level dispatcher for seam `name`."""
    def seam(*args, **kwargs):
        w = _active
        if w is None:
            return real(*args, **kwargs)
        h = w.hooks.get(name)
        if h is None:
            return real(*args, **kwargs)
        return h(real, *args, **kwargs)
    seam.__name__ = getattr(real, '__name__', name)
    seam.__doc__ = getattr(real, '__doc__', None)
    seam.__wrapped_seam__ = real
    return seam


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert not any(m == 'bayeso' or m.startswith('bayeso.') for m in sys.modules), \
        'seams must be installed before bayeso is imported'
    sys.path.insert(0, REPO)

    # ---- terminal (before bayeso creates its module loggers)
    sys.stdout = DispatchStream('stdout')
    sys.stderr = DispatchStream('stderr')

    # ---- clock
    def clk(name, kind, ns):
        real = getattr(time, name)
        REAL[name] = real

        def f():
            w = _active
            if w is None:
                return real()
            if w.scheduler is not None and w.scheduler.owns_current() \
                    and is_pkg(sys._getframe(1).f_code.co_filename):
                w.scheduler.clock_read()
            v = w.wall() if kind == 'wall' else w.mono()
            return int(v * 1e9) if ns else v
        f.__name__ = name
        setattr(time, name, f)
    for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
        if hasattr(time, n):
            clk(n, 'wall' if n == 'time' else 'mono', False)
            clk(n + '_ns', 'wall' if n == 'time' else 'mono', True)
    REAL['sleep'] = time.sleep

    def sleep(dt):
        w = _active
        if w is None:
            return REAL['sleep'](dt)
        w.advance(dt)
        return None
    time.sleep = sleep

    # ---- entropy
    import numpy as np
    from numpy.random import bit_generator
    REAL['randbits'] = bit_generator.randbits

    def randbits(k):
        w = _active
        return REAL['randbits'](k) if w is None else w.randbits(k)
    bit_generator.randbits = randbits
    REAL['urandom'] = os.urandom

    def urandom(n):
        w = _active
        if w is None:
            return REAL['urandom'](n)
        return w.randbits(8 * n).to_bytes(n, 'big') if n else b''
    os.urandom = urandom
    random._urandom = urandom
    import secrets
    secrets.randbits = randbits
    # ---- identity of the process, as the library sees it
    for name in ('getpid', 'getppid'):
        REAL[name] = getattr(os, name)

        def ident(real=REAL[name]):
            w = _active
            if w is None or not sys._getframe(1).f_globals.get('__name__', '').startswith('bayeso'):
                return real()
            return w.pid
        setattr(os, name, ident)

    # ---- optimisation
    import scipy.optimize
    import scipy.linalg
    import scipy.stats
    scipy.optimize.minimize = _dispatch('minimize', scipy.optimize.minimize)
    # ---- linear algebra
    for n in ('cholesky', 'cho_factor', 'inv', 'cho_solve', 'solve_triangular', 'solve'):
        setattr(scipy.linalg, n, _dispatch('scipy.linalg.' + n, getattr(scipy.linalg, n)))
    for n in ('cholesky', 'inv', 'solve'):
        setattr(np.linalg, n, _dispatch('numpy.linalg.' + n, getattr(np.linalg, n)))
    # ---- posterior sampling
    REAL['multivariate_normal'] = scipy.stats.multivariate_normal
    scipy.stats.multivariate_normal = MVN(scipy.stats.multivariate_normal)
    # ---- worker processes
    from sim import pool
    pool.install()
    # ---- progress bar monitor thread (wall-clock driven): off
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    # ---- cma
    try:
        import cma
        cma.fmin = _dispatch('cma.fmin', cma.fmin)
    except ImportError:
        pass


class MVN:
    """scipy.stats.multivariate_normal with a seam on construction and draws."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        w = _active
        attr = getattr(self._real, name)
        if name == 'rvs' and w is not None and w.hooks.get('mvn.rvs'):
            def rvs(mean=None, cov=1, size=1, random_state=None, **k):
                return w.hooks['mvn.rvs'](self._real, mean, cov, size, random_state)
            return rvs
        return attr

    def __call__(self, mean=None, cov=1, *a, **k):
        w = _active
        h = w.hooks.get('mvn') if w is not None else None
        if h is None:
            return self._real(mean, cov, *a, **k)
        return h(self._real, mean, cov, *a, **k)


def is_pkg(filename):
    return filename.startswith(PKG_DIR)
