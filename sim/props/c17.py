"""C17: every accepted configuration completes its budget, in bounded work, once numeric faults stop."""
import numpy as np

from sim import sched, seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, describe, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 900, 'thorough': 40000}
RULE = ('one run = one or two rounds of one accepted option combination, possibly with degenerate data '
        '(one initial point, constant responses, repeated points, zero-width coordinates, a point set far '
        'away in scale), while factorisations fail in bursts of at most two and inner optimisers end '
        'abnormally; non-trivial = a fault fired or the data are degenerate; distinct = different options, '
        'entry point, degeneracy and faults')
MEASURE = 'hash of (options, entry point, degeneracy, faults, work counters)'
SIM_COMPONENTS = SIM_DEFAULT + ['failures of factorisations and inner optimisers']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['finite objective values of moderate magnitude', 'at most two consecutive factorisation '
               'failures on top of those the matrix itself causes']
SHRINK_LISTS = ('bursts', 'abnormal')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

# loop steps of the library between two evaluations (seen: below 20000, forests below 60000)
STEP_LIMIT = 150000


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp', 'tp', 'rf'), cma=0.06,
                     mlms=('regular', 'regular', 'combined', 'converged'), max_iter=3, max_init=5, stretch=0.05)
    if cfg['fun']['kind'] in ('big', 'offset'):
        cfg['fun']['kind'] = rng.choice(['quad', 'abs'])
    deg = []
    if rng.random() < 0.25:
        deg.append('const')
        cfg['fun']['kind'] = 'const'
    if rng.random() < 0.3:
        deg.append('repeat')
    if rng.random() < 0.2:
        deg.append('zero-width')
        k = rng.randrange(cfg['d'])
        cfg['range'][k][1] = cfg['range'][k][0]
        if cfg['d'] > 1 and rng.random() < 0.2:
            for k in range(cfg['d']):
                cfg['range'][k][1] = cfg['range'][k][0]
    if rng.random() < 0.2:
        deg.append('single')
        cfg['num_init'] = 1
    if rng.random() < 0.15:
        deg.append('close')
    api = wl.pick_api(rng, cfg, ts=0.12)
    bursts = []
    if rng.random() < 0.6:
        at = 0
        for _ in range(rng.randint(1, 12)):
            at += rng.choice([2, 3, 5, 9, 20, 40])
            bursts.append([at, rng.choice([1, 1, 2])])
    abnormal = []
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 6)):
            abnormal.append([rng.choice(['fit', 'box']), rng.randrange(8),
                             rng.choice(['start', 'corner', 'best_nofun', 'nanfun'])])
    return {'cfg': cfg, 'api': api, 'deg': deg, 'bursts': bursts, 'abnormal': abnormal,
            'world': rng.randrange(2 ** 40), 'cpu': rng.choice([1, 4]), 'rounds': rng.choice([1, 1, 2])}


def too_many_steps(limit):
    raise Violation('no-progress', 'more than %d loop steps without an evaluation' % limit)


def execute(plan):
    cfg = plan['cfg']
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    digest = []
    with w:
        limit = STEP_LIMIT * (4 if cfg['surrogate'] == 'rf' else 1)
        if cfg.get('size'):             # the work of a fit or search grows with the history and candidates
            limit *= 2 + (cfg['num_init'] + cfg['num_iter']) // 4 + cfg['nsamp'] // 10
        meter = sched.StepMeter(limit, lambda: too_many_steps(limit))
        try:
            with meter:
                run(plan, w, digest, meter)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    w.probe('loop_steps', meter.peak)
    w.probe('surrogate_' + cfg['surrogate'])
    for x in plan['deg']:
        w.probe('degenerate_' + x)
    sig = (plan['api'], plan['deg'], plan['bursts'], plan['abnormal'], sorted(cfg.items(), key=str))
    return result(w, sig, viol, nontrivial=bool(w.fired) or bool(plan['deg']), digest=h(digest),
                  note='%s %s' % (plan['api'], '+'.join(plan['deg'])))


class Work:
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.n = {'fit': 0, 'box': 0, 'chol': 0}
        self.total = {'fit': 0, 'box': 0}
        self.burst = {int(a): int(k) for a, k in plan['bursts']}
        self.left = 0
        self.cool = 0
        self.ab = {(k, int(i)): m for k, i, m in plan['abnormal']}
        w.hooks['minimize'] = self.minimize
        for nm in ('scipy.linalg.cholesky', 'scipy.linalg.cho_factor', 'numpy.linalg.cholesky'):
            w.hooks[nm] = self.chol
        self.inner = 0

    def chol(self, real, A, *a, **k):
        self.n['chol'] += 1
        self.w.probe('factorisation')
        if self.n['chol'] > 60000:
            raise Violation('unbounded', 'more than 60000 factorisations in one suggestion')
        if self.n['chol'] in self.burst and self.cool <= 0:
            self.left = self.burst[self.n['chol']]
        if self.left > 0:
            self.left -= 1
            self.cool = 1
            self.w.fire('factorisation_failure')
            raise np.linalg.LinAlgError('simulated')
        self.cool -= 1
        return real(A, *a, **k)

    def minimize(self, real, fun, x0, *a, **k):
        tag = 'box' if wl.minimize_box(k, a, self.plan['cfg']) else 'fit'
        i = self.n[tag]
        self.n[tag] += 1
        limit = 8 if tag == 'fit' else 4 * self.plan['cfg']['nsamp'] ** self.plan['cfg']['d'] + 8
        if self.n[tag] > limit:
            raise Violation('unbounded', '%d %s optimisations in one suggestion' % (self.n[tag], tag))
        self.w.probe('inner_' + tag)
        m = self.ab.get((tag, self.total[tag] % 8))
        self.total[tag] += 1
        if m is None:
            return real(fun, x0, *a, **k)
        from scipy.optimize import OptimizeResult
        self.w.fire('abnormal_%s_%s' % (tag, m))
        x0 = np.array(x0, dtype=float)

        def val(x):
            v = fun(x)
            v = v[0] if isinstance(v, tuple) else v
            return float(np.ravel(v)[0])
        if m == 'start':
            return OptimizeResult(x=x0, fun=val(x0), success=False, status=2, message='ABNORMAL', nit=0, nfev=1)
        if m == 'nanfun':
            return OptimizeResult(x=x0, fun=float('nan'), success=False, status=2, message='ABNORMAL', nit=0,
                                  nfev=1)
        if m == 'corner' and tag == 'box':
            ra = wl.range_array(self.plan['cfg'])
            x = ra[:, i % 2].copy()
            return OptimizeResult(x=x, fun=val(x), success=False, status=1, message='LIMIT', nit=1, nfev=2)
        if m == 'corner':
            x = np.abs(x0) * (0.2 if i % 2 else 5.0) + 0.05
            return OptimizeResult(x=x, fun=0.0, success=False, status=1, message='LIMIT', nit=1, nfev=2)
        out = real(fun, x0, *a, **k)
        out.success = False
        out.status = 1
        return out

    def reset(self):
        self.n['fit'] = self.n['box'] = 0
        self.n['chol'] %= 64        # bursts recur
        self.cool = 1


def run(plan, w, digest, meter):
    cfg = plan['cfg']
    ra = wl.range_array(cfg)
    work = Work(w, plan)
    obj = wl.Objective(cfg['fun'], ra, w)

    def before(i, x):
        work.reset()
        meter.reset()
    obj.before = before
    b = m = None
    for k in range(plan['rounds']):
        X0 = wl.initial_points(cfg, cfg['num_init'], ('c17', plan['world'], k))
        if 'repeat' in plan['deg']:
            r = np.random.RandomState((plan['world'] + k) % (2 ** 32))
            X0 = X0[r.randint(0, X0.shape[0], size=X0.shape[0])]
        if 'close' in plan['deg']:
            X0 = X0[:1] + (X0 - X0[:1]) * 1e-9
        kind = plan['api'].split('.')[-1]
        c0 = len(obj.calls)
        work.reset()
        meter.reset()
        r = wl.drive(cfg, plan['api'], obj, ('c17', plan['world'], k), bo_obj=b, model=m,
                     X0=np.ascontiguousarray(X0) if kind in ('inputs', 'all', 'loop') else None)
        if isinstance(r.error, Violation):
            raise r.error
        require(r.error is None, 'aborted', '%s (%s%s, %s) raised %s', plan['api'], cfg['surrogate'],
                ' ' + '+'.join(plan['deg']) if plan['deg'] else '', cfg['mlm'],
                describe(r.error) if r.error else '')
        b, m = getattr(r, 'bo', None), getattr(r, 'model', None)
        n0 = cfg['num_init']
        require(r.X.shape == (n0 + r.n_iter, cfg['d']) and r.Y.shape == (n0 + r.n_iter, 1), 'budget',
                '%s returned %s points for %d initial and %d iterations', plan['api'], r.X.shape, n0, r.n_iter)
        require(len(obj.calls) - c0 == r.n_init_calls + r.n_iter, 'budget', 'the objective was called %d times '
                'for a budget of %d', len(obj.calls) - c0, r.n_init_calls + r.n_iter)
        require(bool(np.all(np.isfinite(r.X)) and np.all(np.isfinite(r.Y))), 'not-finite',
                '%s returned non-finite points or values', plan['api'])
        digest.append(harr(r.X, r.Y))
