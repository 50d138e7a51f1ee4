"""Helpers shared by the property modules."""
import hashlib

import numpy as np

from sim import seams

SIM_DEFAULT = ['clock (virtual)', 'OS entropy (seeded stream)', 'terminal streams',
               'worker processes (SimPool, forked tasks)', 'objective function / caller']
REAL_DEFAULT = ['bayeso (entire package from /repo)', 'numpy', 'scipy (linalg, optimize, qmc, stats)']


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg

    def __reduce__(self):
        return Violation, (self.kind, self.msg)


def require(cond, kind, msg, *args):
    if not cond:
        raise Violation(kind, msg % args if args else msg)


def h(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


def harr(*arrs):
    m = hashlib.blake2b(digest_size=8)
    for a in arrs:
        if a is None:
            m.update(b'none')
        else:
            a = np.ascontiguousarray(np.asarray(a, dtype=float))
            m.update(repr(a.shape).encode())
            m.update(a.tobytes())
    return m.hexdigest()


def result(world, sig, viol=None, nontrivial=True, digest=None, note=None, trace=None,
           extra_fired=None, extra_probes=None, sim_time=None):
    fired = dict(world.fired) if world is not None else {}
    probes = dict(world.probes) if world is not None else {}
    for k, v in (extra_fired or {}).items():
        fired[k] = fired.get(k, 0) + v
    for k, v in (extra_probes or {}).items():
        probes[k] = probes.get(k, 0) + v
    return {'viol': viol, 'fired': fired, 'probes': probes, 'sig': h(sig),
            'nontrivial': bool(nontrivial), 'digest': digest, 'note': note, 'trace': trace,
            'sim_time': (world.sim_elapsed if world is not None else 0.0)
            if sim_time is None else sim_time}


def describe(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


def guarded(fn):
    """Run fn(); map Violation to the result's viol field via a mutable holder."""
    try:
        return fn(), None
    except Violation as v:
        return None, {'kind': v.kind, 'msg': v.msg}


def cholesky_faults(world, plan, allow=None):
    """Install LinAlgError injection on the factorisation seam.

    plan: list of attempt numbers (1-based, counted over all factorisations of
    the run) that fail.  Returns a state object with .n (attempts so far).
    """
    class St:
        n = 0
        failed = 0
    st = St()
    bad = set(int(i) for i in plan)

    def hook(real, a, *args, **kw):
        st.n += 1
        world.probe('factorisation')
        if st.n in bad and (allow is None or allow()):
            st.failed += 1
            world.fire('factorisation_failure')
            raise np.linalg.LinAlgError('simulated: %d-th leading minor not positive definite' % st.n)
        return real(a, *args, **kw)
    world.hooks['scipy.linalg.cholesky'] = hook
    world.hooks['numpy.linalg.cholesky'] = hook
    world.hooks['scipy.linalg.cho_factor'] = hook
    return st


def in_fork(fn):
    """Run fn() in a forked child; returns its (picklable) result.

    A child that dies without an answer yields None."""
    import os
    import pickle
    import sys
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            sys.settrace(None)
            os.close(r)
            try:
                out = ('ok', fn())
            except Violation as v:
                out = ('viol', (v.kind, v.msg))
            except BaseException as e:  # pylint: disable=broad-except
                import traceback
                from sim.runner import unexpected
                u = unexpected(e)
                out = ('viol', (u['kind'], u['msg'])) if u else ('err', '%r\n%s' % (e, traceback.format_exc()))
            with os.fdopen(wfd, 'wb') as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return None
    kind, val = pickle.loads(data)
    if kind == 'ok':
        return val
    if kind == 'viol':
        raise Violation(*val)
    raise RuntimeError('forked reference failed: ' + val)


def pack(r):
    """Comparable outcome of a Round."""
    return {'X': None if r.X is None else np.array(r.X, dtype=float),
            'Y': None if r.Y is None else np.array(r.Y, dtype=float),
            'error': None if r.error is None else describe(r.error)}


def same_outcome(a, b):
    from sim.workload import same
    if a['error'] != b['error']:
        return False
    if a['X'] is None or b['X'] is None:
        return a['X'] is None and b['X'] is None
    return same(a['X'], b['X']) and same(a['Y'], b['Y'])


def show(o):
    if o is None:
        return 'nothing'
    if o['error'] is not None:
        return o['error']
    return 'X=%s Y=%s' % (np.round(o['X'], 6).tolist(), np.round(o['Y'], 6).ravel().tolist())
