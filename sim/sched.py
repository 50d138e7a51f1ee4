"""Seeded scheduling of caller threads, and line-granular fault points.

Real Python threads run one at a time under a baton.  The only switch points
are the executed source lines of bayeso itself (sys.settrace), simulated
sleeps and thread exit, and the plan names every switch, so an interleaving
is a pure function of the plan.
"""
import sys
import threading
import _thread

from sim import seams

# lines of the numeric inner loops: counted as fine steps only
FINE = ('covariance.py', 'gp_likelihood.py', 'tp_likelihood.py', 'utils_common.py',
        'utils_covariance.py', 'trees_common.py', 'utils_gp.py', 'acquisition.py')


def _is_fine(fn):
    return fn.endswith(FINE)


class LineTracer:
    """Calls `on_line(nfine, ncoarse, frame)` for every executed line of bayeso."""

    def __init__(self, on_line):
        self.on_line = on_line
        self.nf = 0
        self.nc = 0

    def trace(self, frame, event, arg):
        if event != 'call' or not seams.is_pkg(frame.f_code.co_filename):
            return None
        fine = _is_fine(frame.f_code.co_filename)

        def local(fr, ev, a):
            if ev == 'line':
                self.nf += 1
                if not fine:
                    self.nc += 1
                self.on_line(self.nf, self.nc, not fine, fr)
            return local
        return local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


class Client:
    def __init__(self, cid, fn):
        self.cid, self.fn = cid, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.wake = None      # virtual time it sleeps until
        self.error = None
        self.result = None
        self.ident = None


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, world, plan_switches):
        """plan_switches: list of [kind, step, pick]; kind 'f' (fine line), 'c' (coarse line),
        't' (reading of the clock) or 'e' (entry of a function outside the inner loops)."""
        self.world = world
        self.pf = {s: p for k, s, p in plan_switches if k == 'f'}
        self.pc = {s: p for k, s, p in plan_switches if k == 'c'}
        self.pt = {s: p for k, s, p in plan_switches if k == 't'}
        self.pe = {s: p for k, s, p in plan_switches if k == 'e'}
        self.nt = self.ne = 0
        self.clients = []
        self.cur = None
        self.nf = 0
        self.nc = 0
        self.trace_sig = []       # (client, step) at each actual switch
        self.main = _thread.allocate_lock()
        self.main.acquire()
        world.scheduler = self

    def add(self, fn):
        c = Client(len(self.clients) + 1, fn)
        self.clients.append(c)
        return c

    def owns_current(self):
        return self.cur is not None and self.cur.ident == _thread.get_ident()

    # -- switching
    def _runnable(self):
        return [c for c in self.clients if not c.done and c.wake is None]

    def _wake_sleepers(self):
        sl = [c for c in self.clients if not c.done and c.wake is not None]
        if not sl:
            return False
        t = min(c.wake for c in sl)
        if t > self.world.now:
            self.world.now = t
        for c in sl:
            if c.wake <= self.world.now:
                c.wake = None
        return True

    def _switch_to(self, c):
        me = self.cur
        if c is me:
            return
        self.trace_sig.append((c.cid, self.nf))
        self.cur = c
        c.lock.release()
        if me is not None and not me.done:
            me.lock.acquire()

    def _pick(self, pick, exclude=None):
        rn = self._runnable()
        while not rn:
            if not self._wake_sleepers():
                return None
            rn = self._runnable()
        if exclude is not None and len(rn) > 1:
            rn = [c for c in rn if c is not exclude]
        return rn[pick % len(rn)]

    def step(self, coarse):
        if not self.owns_current():
            return
        self.nf += 1
        p = self.pf.get(self.nf)
        if coarse:
            self.nc += 1
            if p is None:
                p = self.pc.get(self.nc)
        if p is not None:
            self._preempt(p)

    def _preempt(self, p, kind='preemption'):
        c = self._pick(p, exclude=self.cur)
        if c is not None and c is not self.cur:
            self.world.fire(kind)
            self._switch_to(c)

    def clock_read(self):
        self.nt += 1
        p = self.pt.get(self.nt)
        if p is not None:
            self._preempt(p, 'preemption_at_clock')

    def entry(self):
        if self.owns_current():
            self.ne += 1
            p = self.pe.get(self.ne)
            if p is not None:
                self._preempt(p, 'preemption_at_call')

    def sleep(self, dt):
        me = self.cur
        me.wake = self.world.now + dt
        c = self._pick(int(dt * 1e6))
        if c is me:
            return
        self.world.fire('sleep_switch')
        self._switch_to(c)

    # -- threads
    def _trace(self, frame, event, arg):
        if event != 'call' or not seams.is_pkg(frame.f_code.co_filename):
            return None
        coarse = not _is_fine(frame.f_code.co_filename)
        if coarse:
            self.entry()

        def local(fr, ev, a):
            if ev == 'line':
                self.step(coarse)
            return local
        return local

    def _body(self, c):
        c.lock.acquire()
        c.ident = _thread.get_ident()
        seams.set_client(c.cid)
        try:
            sys.settrace(self._trace)
            c.result = c.fn()
        except BaseException as e:  # pylint: disable=broad-except
            c.error = e
        finally:
            sys.settrace(None)
            c.done = True
            nxt = self._pick(self.nf)
            if nxt is None:
                self.cur = None
                self.main.release()
            else:
                self.trace_sig.append((nxt.cid, self.nf))
                self.cur = nxt
                nxt.lock.release()

    def run(self, first=0):
        ths = []
        for c in self.clients:
            t = threading.Thread(target=self._body, args=(c,), daemon=True)
            t.start()
            ths.append(t)
        self.cur = self.clients[first % len(self.clients)]
        self.cur.lock.release()
        self.main.acquire()
        for t in ths:
            t.join()
        self.world.scheduler = None


class StepMeter:
    """Counts the loop steps (backward jumps) executed by bayeso's own code since the last reset.

    `on_limit()` is called, and must raise, once the count exceeds `limit`: a loop that stops making
    progress is found at a fixed step instead of at a wall-clock timeout.
    """

    def __init__(self, limit, on_limit):
        self.limit, self.on_limit = limit, on_limit
        self.n = self.peak = 0

    def reset(self):
        self.peak = max(self.peak, self.n)
        self.n = 0

    def _jump(self, code, off, dest):
        if not seams.is_pkg(code.co_filename):
            return sys.monitoring.DISABLE
        if dest > off:
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            self.n = 0
            self.on_limit()
        return None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, 'bsim')
        mon.register_callback(mon.PROFILER_ID, mon.events.JUMP, self._jump)
        mon.set_events(mon.PROFILER_ID, mon.events.JUMP)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(mon.PROFILER_ID, 0)
        mon.register_callback(mon.PROFILER_ID, mon.events.JUMP, None)
        mon.free_tool_id(mon.PROFILER_ID)
        mon.restart_events()
        self.reset()
        return False
