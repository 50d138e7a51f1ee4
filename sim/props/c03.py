"""C03: failing matrix factorisations are absorbed, proportionately, or reported."""
import numpy as np

from sim import seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, describe,
                            SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 1400, 'thorough': 60000}
RULE = ('one run = one factorisation, likelihood evaluation or whole optimisation round with a seeded '
        'sequence of failures of the factorisation/inversion service (bursts of transient failures, '
        'persistent failure, foreign exceptions); non-trivial = at least one failure fired; distinct = '
        'different mode, size, kernel, failure sequence and outcome')
MEASURE = 'hash of (mode, kernel, size, failure burst lengths, outcome)'
SIM_COMPONENTS = SIM_DEFAULT + ['factorisation and inversion outcomes']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['finite inputs, positive hyperparameters', 'transient = at most three failures in a row']
SHRINK_LISTS = ('chol', 'bursts', 'inv')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1), (('n',), 1))

FOREIGN = ['MemoryError', 'KeyboardInterrupt', 'RuntimeError', 'InjectedBase', 'FloatingPointError']
MAX_ATTEMPTS = 200


def generate(rng, tier, idx):
    mode = rng.choice(['factor', 'factor', 'likelihood', 'likelihood', 'round', 'round', 'tp'])
    plan = {'mode': mode, 'world': rng.randrange(2 ** 40)}
    if mode in ('factor', 'likelihood', 'tp'):
        d = rng.choice([1, 2, 3])
        n = rng.choice([1, 2, 3, 5, 8, 13, 24])
        plan.update({
            'n': n, 'd': d, 'cov': rng.choice(wl.COVS + (['set_se', 'set_matern52']
                                                         if mode == 'factor' else [])),
            'ard': rng.random() < 0.5, 'fix_noise': rng.random() < 0.7,
            'grad': rng.random() < 0.5, 'dup': rng.random() < 0.3,
            'signal': round(rng.uniform(0.1, 4.0), 3),
            'ls': [round(rng.uniform(0.1, 4.0), 3) for _ in range(d)],
            'noise': rng.choice([0.01, 0.1, 0.3, 1e-3]),
            'dof': round(rng.uniform(3.0, 50.0), 2),
            'prior': rng.random() < 0.4,
            'kmax': rng.choice([1, 2, 3, 4, 5, 6]),
            'persistent': rng.random() < 0.2,
            'foreign': [rng.choice(FOREIGN), rng.randint(1, 4)] if rng.random() < 0.25 else None})
        return plan
    cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp'),
                     mlms=('regular', 'regular', 'combined', 'converged'), max_iter=3)
    plan['cfg'] = cfg
    plan['api'] = wl.pick_api(rng, cfg, ts=0.1)
    bursts = []
    if rng.random() < 0.85:
        for _ in range(rng.randint(1, 8)):
            bursts.append([int(rng.expovariate(1 / 50.0)) + 1, rng.choice([1, 1, 2, 3])])
    plan['bursts'] = bursts
    plan['inv'] = [int(rng.expovariate(1 / 15.0)) + 1 for _ in range(rng.randint(1, 2))] \
        if rng.random() < 0.3 else []
    plan['end'] = None
    u = rng.random()
    if u < 0.2:
        plan['end'] = ['persistent', int(rng.expovariate(1 / 60.0)) + 1]
    elif u < 0.4:
        plan['end'] = [rng.choice(FOREIGN), int(rng.expovariate(1 / 60.0)) + 1]
    return plan


class FactorService:
    """Failure script of the factorisation service."""

    def __init__(self, world):
        self.w = world
        self.n = 0
        self.fail_first = 0
        self.foreign = None       # (attempt, exception)
        self.raised = None
        self.always = False

    def __call__(self, real, a, *args, **kw):
        self.n += 1
        self.w.probe('factorisation')
        if self.n > MAX_ATTEMPTS:
            raise Violation('no-progress', 'more than %d factorisation attempts for one matrix'
                            % MAX_ATTEMPTS)
        if self.foreign is not None and self.n == self.foreign[0]:
            self.w.fire('factorisation_' + self.foreign[1])
            self.raised = wl.make_exc(self.foreign[1])
            raise self.raised
        if self.always or self.n <= self.fail_first:
            self.w.fire('factorisation_failure')
            raise np.linalg.LinAlgError('simulated: not positive definite')
        return real(a, *args, **kw)

    def reset(self, k=0, foreign=None, always=False):
        self.n, self.fail_first, self.foreign, self.always = 0, k, foreign, always
        self.raised = None


def install(world, hook):
    for n in ('scipy.linalg.cholesky', 'numpy.linalg.cholesky', 'scipy.linalg.cho_factor'):
        world.hooks[n] = hook


def unit_data(plan):
    r = np.random.RandomState(seams.digest_int('c03', plan['world']) % (2 ** 32))
    n, d = plan['n'], plan['d']
    if plan['cov'].startswith('set_'):
        X = r.uniform(-2, 2, size=(n, 3, d))
    else:
        X = r.uniform(-2, 2, size=(n, d))
    if plan['dup'] and n > 1:
        X[-1] = X[0]
    Y = r.normal(size=(n, 1))
    ls = np.array(plan['ls']) if plan['ard'] else float(plan['ls'][0])
    hyps = {'signal': float(plan['signal']), 'lengthscales': ls, 'noise': float(plan['noise'])}
    mu = 0.3 * np.ones((n, 1)) if plan['prior'] else np.zeros((n, 1))
    return X, Y, hyps, mu


def check_factor(cov, lower, kind):
    n = cov.shape[0]
    require(lower.shape == (n, n) and np.all(np.isfinite(lower)), kind, 'factor is not a finite matrix')
    require(np.allclose(np.triu(lower, 1), 0.0, atol=0) and np.all(np.diag(lower) > 0), kind,
            'factor is not lower triangular with a positive diagonal')
    err = np.max(np.abs(lower.dot(lower.T) - cov))
    require(err <= 1e-9 * max(1.0, np.max(np.abs(cov))), kind,
            'factor does not reproduce the matrix reported with it (error %.3g)', err)


def ladder(covs, cov0):
    """covs[k]: matrix after k failures; check the escalation."""
    prev = 0.0
    n = cov0.shape[0]
    for k, c in covs:
        D = c - cov0
        cc = float(np.mean(np.diag(D)))
        scale = max(1.0, np.max(np.abs(cov0)))
        require(np.max(np.abs(D - cc * np.eye(n))) <= 1e-10 * max(scale, cc), 'not-diagonal',
                'after %d failures the matrix changed by more than a multiple of the identity', k)
        require(cc > 0, 'no-escalation', 'after %d failures nothing was added to the diagonal', k)
        if prev == 0.0:
            require(k != 1 or cc <= 1e-3, 'disproportionate',
                    'a single transient failure added %.3g to the diagonal', cc)
        else:
            require(cc >= prev * (1 - 1e-6), 'no-escalation',
                    'after %d failures %.3g was added, less than the %.3g of fewer failures', k, cc, prev)
            require(cc <= prev * 101, 'disproportionate',
                    'failure %d raised the diagonal term from %.3g to %.3g', k, prev, cc)
        prev = cc


def nat(fs, fn):
    """Run fn with no injected failure; returns (value, natural attempts)."""
    fs.reset()
    v = fn()
    return v, fs.n


def run_factor(plan, w, fs):
    from bayeso import covariance
    X, _, hyps, _ = unit_data(plan)
    grad = plan['grad'] and not plan['cov'].startswith('set_')

    def call():
        hh = dict(hyps)
        return covariance.get_kernel_cholesky(X, hh, plan['cov'], fix_noise=plan['fix_noise'],
                                              use_gradient=grad)
    (cov0, low0, g0), _ = nat(fs, call)
    check_factor(cov0, low0, 'fault-free')
    covs = []
    for k in range(1, plan['kmax'] + 1):
        fs.reset(k)
        try:
            cov, low, g = call()
        except Violation:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            raise Violation('aborted', '%d transient failures were not absorbed: %s' % (k, describe(e)))
        require(fs.n >= k + 1, 'skipped', 'no factorisation was repeated after %d failures', k)
        check_factor(cov, low, 'inconsistent')
        covs.append((k, cov))
        if grad:
            require(g is not None and wl.same(g, g0), 'gradient',
                    'after %d failures the kernel gradients differ from the fault-free ones', k)
    ladder(covs, cov0)
    end_cases(plan, fs, call)
    return 'k%d' % plan['kmax']


def end_cases(plan, fs, call):
    if plan['persistent']:
        fs.reset(always=True)
        try:
            call()
        except Violation:
            raise
        except Exception:  # pylint: disable=broad-except
            fs.w.fire('persistent_failure')
        else:
            raise Violation('silent', 'a factorisation that never succeeds was reported as a result')
    if plan['foreign'] is not None:
        kind, at = plan['foreign']
        fs.reset(k=at - 1, foreign=(at, kind))
        err = None
        try:
            call()
        except Violation:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            err = e
        require(err is fs.raised, 'swallowed',
                'a %s raised by the factorisation service surfaced as %s', kind,
                'nothing' if err is None else describe(err))


def run_likelihood(plan, w, fs):
    from bayeso import covariance
    from bayeso.gp import gp_likelihood
    from bayeso.utils import utils_covariance
    X, Y, hyps, mu = unit_data(plan)
    arr = utils_covariance.convert_hyps(plan['cov'], hyps, fix_noise=plan['fix_noise'])
    hh = utils_covariance.restore_hyps(plan['cov'], arr, use_ard=plan['ard'],
                                       fix_noise=plan['fix_noise'])
    n = X.shape[0]

    def call():
        return gp_likelihood.neg_log_ml(X, Y, arr.copy(), plan['cov'], mu, use_ard=plan['ard'],
                                        fix_noise=plan['fix_noise'], use_gradient=plan['grad'])
    fs.reset()
    cov0, _, dC = covariance.get_kernel_cholesky(X, dict(hh), plan['cov'],
                                                 fix_noise=plan['fix_noise'],
                                                 use_gradient=plan['grad'])
    for k in range(0, plan['kmax'] + 1):
        fs.reset(k)
        cov, _, _ = covariance.get_kernel_cholesky(X, dict(hh), plan['cov'],
                                                   fix_noise=plan['fix_noise'])
        fs.reset(k)
        try:
            out = call()
        except Violation:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            raise Violation('aborted', '%d transient failures were not absorbed: %s' % (k, describe(e)))
        y = Y - mu
        Ci = np.linalg.inv(cov)
        _, ld = np.linalg.slogdet(cov)
        ref = (0.5 * float((y.T @ Ci @ y)[0, 0]) + 0.5 * ld + n / 2.0 * np.log(2 * np.pi)) / n
        v = out[0] if plan['grad'] else out
        cond = np.linalg.cond(cov)
        if cond > 1e8:
            continue
        w.probe('likelihood_compared')
        require(np.isfinite(v) and abs(v - ref) <= 1e-4 * (1 + abs(ref)), 'likelihood',
                'after %d failures the likelihood is %r, but %r for the matrix that was factorised', k,
                float(v), ref)
        if plan['grad']:
            a = Ci @ y
            gr = np.array([-0.5 * np.sum((a @ a.T - Ci) * dC[:, :, j]) for j in range(dC.shape[2])]) / n
            tol = 1e-6 * cond ** 0.5 * (1 + np.max(np.abs(gr))) + 1e-7
            require(np.all(np.abs(np.ravel(out[1]) - gr) <= tol), 'likelihood-gradient',
                    'after %d failures the likelihood gradient is %s, but %s for the matrix that was '
                    'factorised', k, np.ravel(out[1]).tolist(), gr.tolist())
    end_cases(plan, fs, call)
    return 'k%d' % plan['kmax']


def run_tp(plan, w, fs):
    """Inversion faults in the paths that invert instead of factorising."""
    from bayeso.tp import tp_likelihood
    from bayeso.gp import gp_likelihood
    from bayeso.utils import utils_covariance
    X, Y, hyps, mu = unit_data(plan)
    hyps['dof'] = float(plan['dof'])
    arr_tp = utils_covariance.convert_hyps(plan['cov'], hyps, use_gp=False, fix_noise=plan['fix_noise'])
    arr_gp = utils_covariance.convert_hyps(plan['cov'], hyps, fix_noise=plan['fix_noise'])
    calls = [
        lambda: tp_likelihood.neg_log_ml(X, Y, arr_tp.copy(), plan['cov'], mu, use_ard=plan['ard'],
                                         fix_noise=plan['fix_noise'], use_gradient=plan['grad']),
        lambda: gp_likelihood.neg_log_ml(X, Y, arr_gp.copy(), plan['cov'], mu, use_ard=plan['ard'],
                                         fix_noise=plan['fix_noise'], use_cholesky=False,
                                         use_gradient=False),
        lambda: gp_likelihood.neg_log_pseudo_l_loocv(X, Y, arr_gp.copy(), plan['cov'], mu,
                                                     use_ard=plan['ard'], fix_noise=plan['fix_noise']),
    ]
    st = {'bad': None, 'exc': None}

    def inv(real, a, *args, **kw):
        w.probe('inversion')
        if st['bad']:
            w.fire('inversion_' + st['bad'])
            st['exc'] = wl.make_exc(st['bad'])
            raise st['exc']
        return real(a, *args, **kw)
    for nme in ('numpy.linalg.inv', 'scipy.linalg.inv'):
        w.hooks[nme] = inv
    for call in calls:
        st['bad'] = None
        call()
        st['bad'] = plan['foreign'][0] if plan['foreign'] else 'LinAlgError'
        err = None
        st['exc'] = None
        try:
            out = call()
        except BaseException as e:  # pylint: disable=broad-except
            err = e
        if st['exc'] is None:
            continue                # no inversion on this path (nothing to absorb)
        if plan['foreign']:
            require(err is st['exc'], 'swallowed', 'a %s raised while inverting surfaced as %s',
                    st['bad'], 'nothing' if err is None else describe(err))
        else:
            require(err is not None, 'silent',
                    'a failing inversion was turned into the value %r without any error',
                    None if err is not None else out)
    return st['bad']


def kernel_ref(cov_name, X, hyps):
    from bayeso import covariance
    C = covariance.cov_main(cov_name, X, X, dict(hyps), True) + hyps['noise'] ** 2 * np.eye(X.shape[0])
    return (C + C.T) / 2.0


def check_info(e, cfg, surr):
    """Every suggestion rests on a matrix/inverse pair belonging to the data and hyperparameters."""
    info = e['info']
    if info is None or 'cov_X_X' not in info:
        return False
    cov, inv, hyps = info['cov_X_X'], info['inv_cov_X_X'], info['hyps']
    n = e['X'].shape[0]
    require(isinstance(cov, np.ndarray) and cov.shape == (n, n) and inv.shape == (n, n),
            'model-shape', 'the model of %d points came with a %s matrix', n,
            getattr(cov, 'shape', None))
    require(np.all(np.isfinite(cov)) and np.allclose(cov, cov.T), 'model-matrix',
            'the model matrix is not finite and symmetric')
    cond = np.linalg.cond(cov)
    if cond < 1e8:
        err = np.max(np.abs(cov @ inv - np.eye(n)))
        require(err <= 1e-13 * cond * n + 1e-9, 'model-inverse',
                'the reported inverse is not the inverse of the reported matrix (error %.3g, '
                'condition %.3g)', err, cond)
    ref = kernel_ref(cfg['cov'], e['X'], hyps)
    D = cov - ref
    c = float(np.mean(np.diag(D)))
    scale = max(1.0, np.max(np.abs(ref)))
    require(np.max(np.abs(D - c * np.eye(n))) <= 1e-9 * scale and c >= -1e-9 * scale, 'model-matrix',
            'the model matrix is not the kernel of the data at the reported hyperparameters')
    return True


def run_round(plan, w):
    cfg = plan['cfg']
    bad = {}
    for at, ln in plan['bursts']:
        for j in range(ln):
            bad[at + j] = True
    # transient means at most three consecutive failures
    run = 0
    for i in range(1, (max(bad) if bad else 0) + 1):
        run = run + 1 if bad.get(i) else 0
        if run > 3:
            bad.pop(i)
            run = 0
    st = {'n': 0, 'dead': None, 'ninv': 0, 'invfail': 0}
    end = plan['end']

    def chol(real, a, *args, **kw):
        st['n'] += 1
        w.probe('factorisation')
        if end is not None and st['n'] >= end[1]:
            if end[0] == 'persistent':
                if st['dead'] is None:
                    st['dead'] = np.linalg.LinAlgError('simulated: persistent')
                w.fire('persistent_failure')
                if st['n'] > end[1] + 5000:
                    raise Violation('no-progress', 'thousands of failing factorisations in a row')
                raise np.linalg.LinAlgError('simulated: persistent')
            if st['dead'] is None:
                w.fire('factorisation_' + end[0])
                st['dead'] = wl.make_exc(end[0])
                raise st['dead']
        if bad.get(st['n']):
            w.fire('factorisation_failure')
            raise np.linalg.LinAlgError('simulated: not positive definite')
        return real(a, *args, **kw)
    install(w, chol)
    badinv = set(plan['inv'])

    def inv(real, a, *args, **kw):
        st['ninv'] += 1
        w.probe('inversion')
        if st['ninv'] in badinv:
            w.fire('inversion_failure')
            st['invfail'] += 1
            if st['dead_inv'] is None:
                st['dead_inv'] = np.linalg.LinAlgError('simulated: singular matrix')
            raise st['dead_inv']
        return real(a, *args, **kw)
    st['dead_inv'] = None
    w.hooks['numpy.linalg.inv'] = inv
    w.hooks['scipy.linalg.inv'] = inv
    rec = wl.SuggestionRecorder()
    obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
    late = []

    def before(i, x):
        if st['dead'] is not None:
            late.append(i)
    obj.before = before
    r = wl.drive(cfg, plan['api'], obj, ('c03', plan['world']))
    w.hooks.clear()
    if isinstance(r.error, Violation):
        raise r.error
    for e in rec.log:
        if e['out'] is not None and check_info(e, cfg, cfg['surrogate']):
            w.probe('model_checked')
    if st['dead'] is not None:
        require(r.error is not None, 'silent',
                'the round completed although %s', 'every factorisation failed from one point on'
                if end[0] == 'persistent' else 'a %s was raised while factorising' % end[0])
        require(not late, 'evaluated-after-failure',
                'evaluation %s was requested after the model could no longer be fitted', late)
        if end[0] != 'persistent':
            require(r.error is st['dead'], 'swallowed', 'a %s raised while factorising surfaced as %s',
                    end[0], describe(r.error))
        return 'failed'
    if st['invfail']:
        return 'inv-' + ('raised' if r.error is not None else 'completed')
    require(r.error is None, 'aborted', '%s raised %s after transient failures only', plan['api'],
            describe(r.error) if r.error else '')
    return 'completed'


def execute(plan):
    w = seams.World(plan['world'])
    viol = None
    outcome = None
    with w:
        try:
            if plan['mode'] == 'round':
                outcome = run_round(plan, w)
            else:
                fs = FactorService(w)
                install(w, fs)
                outcome = {'factor': run_factor, 'likelihood': run_likelihood,
                           'tp': run_tp}[plan['mode']](plan, w, fs)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    w.probe('mode_' + plan['mode'])
    sig = (plan['mode'], plan.get('cov'), plan.get('n'), plan.get('api'), plan.get('ard'),
           plan.get('cfg', {}).get('mlm'), sorted(w.fired.items()), outcome)
    return result(w, sig, viol, nontrivial=bool(w.fired), digest=h((outcome, sorted(w.probes.items()))),
                  note='%s: %s' % (plan['mode'], outcome))
