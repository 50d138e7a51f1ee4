"""C14: missing or broken optional packages only cost their feature."""
import importlib.abc
import importlib.machinery
import sys
import types

import numpy as np

from sim import seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, pack,
                            same_outcome, show, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 500, 'thorough': 20000}
RULE = ('one run = a fresh import of the library in a process where each optional package is absent, '
        'broken (its import raises a seeded exception, at once or from a submodule) or present (a stub '
        'that records how it is used), followed by rounds asking for the default, DIRECT or CMA-ES '
        'acquisition optimiser, or by plotting calls; non-trivial = a package was absent, broken or '
        'stubbed; distinct = different package states, request, dimension, surrogate and entry point')
MEASURE = 'hash of (package states, requested optimiser, dimension, surrogate, entry point, outcome)'
SIM_COMPONENTS = SIM_DEFAULT + ['import system for optional packages', 'cma and scipydirect (stubs)']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['a broken package fails with an Exception while it is imported',
               'stubs follow the calling convention of cma.fmin and scipydirect.minimize']
SHRINK_LISTS = ()
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))
PRELOAD = False

STATES = ['present', 'present', 'absent', 'absent', 'ImportError', 'RuntimeError', 'OSError', 'AttributeError',
          'ValueError', 'SyntaxError', 'MemoryError', 'AssertionError', 'submodule']


def preload():
    seams.install()
    for m in ('numpy.random', 'scipy.stats.qmc', 'scipy.spatial.distance', 'tqdm'):
        importlib.import_module(m)


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'tp'), max_iter=2, max_init=3)
    cfg['opt_bo'] = rng.choice(['L-BFGS-B', 'DIRECT', 'DIRECT', 'CMA-ES', 'CMA-ES'])
    if cfg['opt_gp'] == 'Nelder-Mead' or cfg['mlm'] == 'combined' or cfg['modelsel'] == 'loocv':
        cfg['opt_gp'], cfg['mlm'], cfg['modelsel'] = 'BFGS', 'regular', 'ml'
    if rng.random() < 0.15:
        for k in rng.sample(range(cfg['d']), rng.choice([1, 1, cfg['d']])):
            cfg['range'][k][1] = cfg['range'][k][0]
    apis = list(wl.APIS_CLASS) + (list(wl.APIS_FUNC) if cfg['surrogate'] == 'gp' else [])
    return {'cfg': cfg, 'api': rng.choice(apis), 'world': rng.randrange(2 ** 40),
            'cma': rng.choice(STATES), 'scipydirect': rng.choice(STATES),
            'matplotlib': rng.choice(['absent', 'absent', 'ImportError', 'RuntimeError', 'OSError', 'submodule']),
            'plot': rng.random() < 0.3, 'raise': rng.choice([None] * 6 + ['RuntimeError', 'KeyboardInterrupt']),
            'ret': rng.choice(['inside', 'inside', 'corner', 'evaluated'])}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Decides what importing an optional package does."""

    def __init__(self, states, w):
        self.states, self.w = states, w

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        st = self.states.get(top)
        if st is None or st == 'present':
            return None
        self.w.fire('import_%s_%s' % (top, st))
        if st == 'absent':
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        st = self.states[module.__name__.split('.')[0]]
        if st == 'submodule':
            if '.' in module.__name__:
                raise ImportError('libfoo.so.3: cannot open shared object file')
            # the package itself imports, the attribute the caller wants does not exist
            raise ImportError('cannot import name (simulated broken install)')
        raise wl.make_exc(st) if st != 'SyntaxError' else SyntaxError('simulated')


class Stub:
    def __init__(self, plan, w):
        self.plan, self.w = plan, w
        self.ra = wl.range_array(plan['cfg'])
        self.calls = []
        self.bad = []
        self.raised = None

    def point(self):
        lo, hi = self.ra[:, 0], self.ra[:, 1]
        n = len(self.calls)
        if self.plan['ret'] == 'corner':
            return hi.copy() if n % 2 else lo.copy()
        u = np.array([seams.digest_int('c14', self.plan['world'], n, j) % 10007 / 10007.0
                      for j in range(len(lo))])
        return lo + u * (hi - lo)

    def use(self, fun, what):
        w = self.w
        w.fire('stub_' + what)
        if self.plan['raise']:
            self.raised = wl.make_exc(self.plan['raise'])
            raise self.raised
        x = self.point()
        for p in (x, 0.5 * (self.ra[:, 0] + self.ra[:, 1])):
            v = np.ravel(np.asarray(fun(np.array(p)), dtype=float))
            if v.size != 1:
                self.bad.append('the function handed to %s returns %d values' % (what, v.size))
        self.calls.append((what, x.copy()))
        return x

    def direct_module(self):
        m = types.ModuleType('scipydirect')

        def minimize(fun, bounds=None, *a, **k):
            arr = np.array([[float(q[0]), float(q[1])] for q in bounds])
            if not (arr.shape == self.ra.shape and np.all(arr == self.ra)):
                self.bad.append('DIRECT was asked about %s' % arr.tolist())
            x = self.use(fun, 'direct')
            return types.SimpleNamespace(x=x, fun=float(np.ravel(fun(x))[0]), success=True, message='')
        m.minimize = minimize
        return m

    def cma_module(self):
        m = types.ModuleType('cma')

        def fmin(fun, x0, sigma0, options=None, *a, **k):
            b = (options or {}).get('bounds')
            if b is None:
                self.bad.append('CMA-ES was started without bounds')
            else:
                arr = np.column_stack((np.ravel(np.asarray(b[0], dtype=float)),
                                       np.ravel(np.asarray(b[1], dtype=float))))
                if not (arr.shape == self.ra.shape and np.all(arr == self.ra)):
                    self.bad.append('CMA-ES was given bounds %s' % arr.tolist())
            x0 = np.ravel(x0)
            if not (x0.shape == (len(self.ra),) and np.all(x0 >= self.ra[:, 0]) and np.all(x0 <= self.ra[:, 1])):
                self.bad.append('CMA-ES was started at %s' % x0.tolist())
            v = fun(np.array(x0))
            if np.ndim(v) != 0:
                self.bad.append('CMA-ES was given a function without scalar values')
            x = self.use(fun, 'cma')
            return [x, float(v), 10, 20, 3, x, np.ones(len(x)), None, None, None]
        m.fmin = fmin
        m.__version__ = '0'
        return m


def prepare_imports(plan, w):
    for k in [k for k in sys.modules if k.split('.')[0] in ('cma', 'scipydirect', 'matplotlib', 'pylab')]:
        del sys.modules[k]
    assert not any(k == 'bayeso' or k.startswith('bayeso.') for k in sys.modules)
    states = {'cma': plan['cma'], 'scipydirect': plan['scipydirect'], 'matplotlib': plan['matplotlib'],
              'pylab': plan['matplotlib'], 'mpl_toolkits': plan['matplotlib']}
    stub = Stub(plan, w)
    if plan['cma'] == 'present':
        sys.modules['cma'] = stub.cma_module()
    if plan['scipydirect'] == 'present':
        sys.modules['scipydirect'] = stub.direct_module()
    sys.meta_path.insert(0, Finder(states, w))
    return stub


def run(plan, w, opt):
    """Import and one round with acquisition optimiser `opt` (in a fork)."""
    stub = prepare_imports(plan, w)
    cfg = dict(plan['cfg'], opt_bo=opt)
    boxes = [0]
    try:
        import bayeso
        from bayeso import bo, wrappers, thompson_sampling, covariance, acquisition  # noqa: F401
        from bayeso.utils import utils_plotting  # noqa: F401
    except Exception as e:  # pylint: disable=broad-except
        raise Violation('import-failed', 'importing the library raised %s (cma %s, scipydirect %s, '
                        'matplotlib %s)' % (describe(e), plan['cma'], plan['scipydirect'],
                                            plan['matplotlib'])) from e
    if plan['plot']:
        plots(utils_plotting)
        w.probe('plot_without_matplotlib')

    def hook(real, fun, x0, *a, **k):
        if wl.minimize_box(k, a, cfg):
            boxes[0] += 1
        return real(fun, x0, *a, **k)
    w.hooks['minimize'] = hook
    rec = wl.SuggestionRecorder()
    w.new_epoch(0, 'c14')
    obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
    r = wl.drive(cfg, plan['api'], obj, ('c14', plan['world']))
    sugg = [e['out'] for e in rec.log if e['out'] is not None]
    return (pack(r), stub.calls, stub.bad, boxes[0], sugg, dict(w.fired), dict(w.probes),
            None if stub.raised is None else (r.error is stub.raised), r.n_iter)


def plots(up):
    x = np.linspace(0, 1, 5)[:, np.newaxis]
    try:
        up.plot_gp_via_sample(x, np.tile(x.T, (2, 1)), pause_figure=False)
        up.plot_gp_via_distribution(x, x, x, x, x * 0 + 0.1, pause_figure=False)
        up.plot_minimum_vs_iter(np.zeros((1, 2, 5)), ['a'], 1, True, pause_figure=False)
        up.plot_minimum_vs_time(np.ones((1, 2, 5)), np.zeros((1, 2, 5)), ['a'], 1, True, pause_figure=False)
        up.plot_bo_step(x, x, x, x, x, x * 0 + 0.1, pause_figure=False)
        up.plot_bo_step_with_acq(x, x, x, x, x, x * 0 + 0.1, x, pause_figure=False)
    except Exception as e:  # pylint: disable=broad-except
        raise Violation('plot-failed', 'plotting without matplotlib raised %s' % describe(e)) from e


def execute(plan):
    cfg = plan['cfg']
    w = seams.World(plan['world'])
    viol = None
    outcome = None
    digest = None
    uses = (cfg['opt_bo'] == 'DIRECT' and plan['scipydirect'] == 'present') or \
        (cfg['opt_bo'] == 'CMA-ES' and plan['cma'] == 'present' and cfg['d'] > 1 and
         all(a < b for a, b in cfg['range']))
    with w:
        try:
            out, calls, bad, boxes, sugg, fired, probes, prop, n_iter = in_fork(
                lambda: run(plan, w, cfg['opt_bo']))
            w.fired.update(fired)
            w.probes.update(probes)
            require(not bad, 'misuse', '%s', bad[0] if bad else '')
            if uses:
                outcome = 'used'
                if prop is not None:
                    require(prop, 'replaced', 'an exception of the optimiser package surfaced as %s',
                            out['error'])
                    outcome = 'propagated'
                else:
                    require(out['error'] is None, 'aborted', '%s with %s raised %s', plan['api'],
                            cfg['opt_bo'], out['error'])
                    require(len(calls) == n_iter, 'not-used', '%s was requested and is installed, but '
                            'was used %d times in %d iterations', cfg['opt_bo'], len(calls), n_iter)
                    require(boxes == 0, 'not-used', '%s was requested and is installed, but the default '
                            'search ran %d times', cfg['opt_bo'], boxes)
                    for (_, x), s in zip(calls, sugg):
                        require(wl.same(x, s), 'answer-ignored', '%s answered %s, suggested was %s',
                                cfg['opt_bo'], x.tolist(), s.tolist())
            else:
                ref = in_fork(lambda: run(plan, w, 'L-BFGS-B'))[0]
                require(ref['error'] is None, 'aborted', 'the default round raised %s', ref['error'])
                require(not calls, 'misuse', 'a package was used although %s in %d dimension(s) was '
                        'requested', cfg['opt_bo'], cfg['d'])
                require(same_outcome(out, ref), 'fallback-differs',
                        '%s requested in %d dimension(s) with cma %s and scipydirect %s gives %s, the '
                        'default optimiser gives %s', cfg['opt_bo'], cfg['d'], plan['cma'],
                        plan['scipydirect'], show(out), show(ref))
                outcome = 'fallback' if cfg['opt_bo'] != 'L-BFGS-B' else 'default'
            digest = harr(out['X'], out['Y'])
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    if outcome:
        w.probe('outcome_' + outcome)
    sig = (plan['cma'], plan['scipydirect'], plan['matplotlib'], cfg['opt_bo'], cfg['d'], cfg['surrogate'],
           plan['api'], outcome)
    return result(w, sig, viol, nontrivial=bool(w.fired), digest=digest, note=outcome)
