"""C19: every suggestion comes from the stated model of the history (refinement against a reference)."""
import numpy as np

from sim import refmodel as ref, seams, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, cholesky_faults,
                            SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 1000, 'thorough': 40000}
RULE = ('one run = one to three optimisers over growing histories asked for interleaved suggestions, whose '
        'hyperparameter fits end where the simulator decides (at the start, at scripted values, or where the '
        'real optimiser ends) and meet transient factorisation failures, or one standalone prediction with '
        'point or set inputs; every reported model, criterion and acquisition value is compared with the '
        'reference model; non-trivial = a scripted fit, a failure or an interleaving; distinct = different '
        'surrogates, kernels, acquisitions, fit outcomes, faults and sizes')
MEASURE = 'hash of (mode, surrogate, kernel, acquisition, options, sizes, fit outcomes, fired faults)'
SIM_COMPONENTS = SIM_DEFAULT + ['results of hyperparameter fits', 'factorisation outcomes',
                                'end points of the acquisition search']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['hyperparameters are finite and the covariance matrix has a condition number below 1e9 '
               '(beyond that comparisons are skipped)',
               'the diagonal of covariance matrices may carry a stabiliser of at most 2e-5',
               'acquisition values are compared up to one common positive factor']
SHRINK_LISTS = ('order', 'fits', 'chol')
SHRINK_INTS = ()

STAB = 2e-5


def generate(rng, tier, idx):
    if rng.random() < 0.25:
        d = rng.choice([1, 2, 3])
        big = rng.random() < 0.04
        plan = {'mode': 'predict', 'tp': rng.random() < 0.4, 'set': rng.random() < 0.4, 'd': d,
                'cov': rng.choice(wl.COVS), 'n': rng.choice([1, 2, 3, 6]) if not big else rng.choice([40, 70, 130]),
                'l': rng.choice([1, 2, 5]) if not big else rng.choice([130, 270, 600]),
                'like': rng.choice([None, None, 'tail', 'same', 'dup']),
                'more': [rng.choice(['Y', 'tailX', 'tailXs', 'hyps', 'again', 'rows'])
                         for _ in range(rng.choice([0, 0, 1, 2]))],
                'm': rng.choice([1, 2, 3]), 'ml': rng.choice([1, 2, 3]),
                'ard': rng.random() < 0.6, 'prior': rng.choice([None, None, 'const', 'lin']),
                'how': rng.choice(['hyps', 'hyps', 'cov', 'fit', 'fit', 'kernel']),
                'method': rng.choice(['BFGS', 'L-BFGS-B', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded']),
                'fixn': rng.random() < 0.5, 'modelsel': rng.choice(['ml', 'ml', 'loocv']), 'world': rng.randrange(2 ** 40),
                'fits': [[1, 'scaled' if big else rng.choice(['scaled', 'real'])]], 'chol': [], 'order': [0],
                'scale': rng.choice([0.1, 1.0, 10.0]), 'debug': rng.random() < 0.2}
        if big and plan['set']:         # kernels between sets cost m * ml times as much
            plan.update(n=min(plan['n'], 40), l=min(plan['l'], 270), more=[])
        return plan
    k = rng.choice([1, 1, 2, 3])
    opts = []
    for _ in range(k):
        cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp', 'tp', 'rf'), max_init=6, stretch=0.04)
        cfg['via'] = rng.choice(['model', 'class'])
        if rng.random() < 0.15 and cfg['surrogate'] == 'gp':
            cfg['modelsel'] = 'loocv'
        if cfg['surrogate'] != 'rf':
            if cfg['samp'] != 'grid':
                cfg['nsamp'] = rng.choice([1, 2, 4]) if cfg.get('size') != 'cands' else 12
        else:
            cfg['nsamp'] = min(cfg['nsamp'], 40)
        opts.append(cfg)
    slow = any(c['mlm'] == 'combined' or c['modelsel'] == 'loocv' or c['opt_gp'] == 'Nelder-Mead'
               for c in opts)
    order = [rng.randrange(k) for _ in range(rng.randint(k, 3 if slow else 5))]
    p = rng.choice([0.0, 0.5, 1.0]) if not slow else rng.choice([0.5, 1.0])
    fits = [[n, rng.choice(['scaled', 'scaled', 'scaled', 'far', 'start', 'abnormal'])]
            for n in range(1, 13) if rng.random() < p]
    if rng.random() < 0.06:         # a long history: many observations, one suggestion
        opts, order = opts[:1], [0]
        opts[0]['num_init'] = rng.choice([60, 150, 360])
        fits = [[n, rng.choice(['scaled', 'far'])] for n in range(1, 13)]
    chol = sorted({int(rng.expovariate(1 / 30.0)) + 1 for _ in range(rng.randint(1, 4))}) \
        if rng.random() < 0.35 else []
    return {'mode': 'suggest', 'opts': opts, 'order': order, 'fits': fits, 'chol': chol,
            'world': rng.randrange(2 ** 40)}


class Fits:
    """The fitting seam: decides and records where every hyperparameter fit ends."""

    def __init__(self, w, plan, box_of):
        self.w, self.sc, self.world = w, {int(n): k for n, k in plan['fits']}, plan['world']
        self.n = 0
        self.log = []
        self.box_of = box_of
        w.hooks['minimize'] = self.hook

    def hook(self, real, fun, x0, *a, **kw):
        cfg = self.box_of()
        if cfg is not None and wl.minimize_box(kw, a, cfg):
            return self.search(real, fun, x0, a, kw, cfg)
        self.n += 1
        kind = self.sc.get(self.n, 'real')
        x0 = np.array(x0, dtype=float)
        if kind in ('scaled', 'far'):
            u = np.array([seams.digest_int('fit', self.world, self.n, j) % 10007 / 10007.0
                          for j in range(x0.size)])
            import scipy.optimize
            x = x0 * np.exp(1.6 * u - 0.7)
            if kind == 'far':       # one hyperparameter ends far from where it started
                key = seams.digest_int('far', self.world, self.n)
                x[key % x.size] = x0[key % x.size] * (20.0, 36.0, 80.0)[key // 7 % 3]
            v = fun(x)
            res = scipy.optimize.OptimizeResult(
                x=x, fun=v[0] if isinstance(v, tuple) else v, success=True, status=0, nit=1, nfev=1,
                message='simulated')
        else:
            res = real(fun, x0, *a, **kw)
            if kind == 'start':
                res.x = x0.copy()
                res.success = False
            elif kind == 'abnormal':
                res.success, res.status = False, 2
                res.message = 'Desired error not necessarily achieved due to precision loss.'
        if kind != 'real':
            self.w.fire('fit_' + kind)
        self.log.append((fun, np.array(res.x, dtype=float, copy=True), bool(kw.get('jac') is True)))
        return res

    def search(self, real, fun, x0, a, kw, cfg):
        # a cheap acquisition search: keep the start point most of the time
        self.w.probe('search')
        key = seams.digest_int('search', self.world, self.w.probes.get('search', 0))
        if key % 3 == 0:
            return real(fun, x0, *a, **kw)
        import scipy.optimize
        ra = wl.range_array(cfg)
        x = np.minimum(np.maximum(np.array(x0, dtype=float), ra[:, 0]), ra[:, 1])
        return scipy.optimize.OptimizeResult(x=x, fun=np.ravel(fun(x))[0], success=True, status=0, nit=0,
                                             nfev=1, message='simulated')


def crit_value(out):
    return float(np.squeeze(out[0] if isinstance(out, tuple) else out))


def cond_ok(K):
    if not np.all(np.isfinite(K)):
        return None
    c = float(np.linalg.cond(K))
    return c if np.isfinite(c) and c < 1e9 else None


def finite_hyps(hyps):
    return all(np.all(np.isfinite(np.asarray(v, dtype=float))) for v in hyps.values())


def check_matrix(w, cov, X, hyps, K, inv, what):
    """K is the reference covariance plus a small multiple of the identity; inv inverts it."""
    n = len(X)
    G = ref.gram(cov, X, X, hyps) + float(hyps['noise']) ** 2 * np.eye(n)
    scale = max(1.0, float(np.max(np.abs(G))))
    diff = np.asarray(K, dtype=float) - G
    c = float(np.mean(np.diag(diff)))
    require(np.max(np.abs(diff - c * np.eye(n))) <= 1e-9 * scale, 'covariance',
            '%s: the reported covariance matrix is not the one of the history (off by %.3g)', what,
            float(np.max(np.abs(diff - c * np.eye(n)))))
    require(-1e-9 * scale <= c <= STAB + 1e-9 * scale, 'covariance',
            '%s: %.3g was added to the diagonal of the covariance matrix', what, c)
    cond = cond_ok(G + c * np.eye(n))
    if cond is None:
        w.probe('ill_conditioned')
        return c, None
    err = float(np.max(np.abs(np.asarray(inv) @ (G + c * np.eye(n)) - np.eye(n))))
    require(err <= 1e-12 * cond + 1e-9, 'inverse',
            '%s: the reported inverse is not the inverse of the covariance matrix (residual %.3g, '
            'condition %.3g)', what, err, cond)
    return c, cond


def check_posterior(w, what, cov, X, y, Xs, hyps, prior, c, cond, mean, std, tp, S=None):
    m, V, scale = ref.posterior(cov, X, y, Xs, hyps, prior, c, dof=float(hyps['dof']) if tp else None)
    amp = max(1.0, float(np.max(np.abs(y))), float(np.max(np.abs(m))))
    tol = (1e-8 + 1e-13 * cond) * amp * len(X)
    require(np.shape(mean) == m.shape and np.max(np.abs(mean - m)) <= tol, 'posterior-mean',
            '%s: posterior mean %s, the model gives %s', what, np.ravel(mean).tolist()[:4], m.tolist()[:4])
    sig2 = float(hyps['signal']) ** 2
    vt = (1e-8 + 1e-13 * cond) * max(1.0, sig2) * max(1.0, abs(scale)) * len(X)
    lo = np.maximum(np.diag(V), 0.0)
    hi = np.maximum(np.diag(V) + abs(scale) * STAB, 0.0)
    s2 = np.asarray(std, dtype=float) ** 2
    require(np.shape(std) == m.shape and np.all(s2 >= lo - vt) and np.all(s2 <= hi + vt), 'posterior-std',
            '%s: posterior variance %s, the model gives %s', what, s2.tolist()[:4], lo.tolist()[:4])
    if S is not None:
        D = np.asarray(S) - V
        off = D - np.diag(np.diag(D))
        require(np.shape(S) == V.shape and np.max(np.abs(off), initial=0.0) <= vt, 'posterior-covariance',
                '%s: posterior covariance differs from the model by %.3g', what,
                float(np.max(np.abs(off), initial=0.0)))
    w.probe('posterior_checked')


def check_criterion(w, what, cfg, tp, X, y, hyps, prior, c, cond, fits):
    """The criterion the fit ended with is the stated one, at the reported hyperparameters."""
    loo = cfg['modelsel'] == 'loocv' and not tp
    slack = 0.0         # the stabiliser may enter predictive precisions as well
    if loo:
        want = ref.loo_gp(cfg['cov'], X, y, hyps, prior, c)
        slack = abs(ref.loo_gp(cfg['cov'], X, y, hyps, prior, c, stab=STAB) - want)
    elif tp:
        want = ref.nlml_tp(cfg['cov'], X, y, hyps, prior, c)
    else:
        want = ref.nlml_gp(cfg['cov'], X, y, hyps, prior, c)
    vals = [crit_value(f(x)) for f, x, _ in fits]
    tol = (2e-4 if loo else 1e-5) * max(1.0, abs(want)) + 1e-13 * cond * max(1.0, abs(want)) + slack
    hit = [i for i, v in enumerate(vals) if abs(v - want) <= tol]
    require(hit, 'criterion', '%s: at the reported hyperparameters the criterion is %.10g, the fit ended '
            'with %s', what, want, vals)
    if cfg['mlm'] == 'combined' and not loo and not tp:
        require(want <= np.nanmin(vals) + tol, 'not-best-fit', '%s: reported a fit with criterion %.10g '
                'although another one has %.10g', what, want, float(np.nanmin(vals)))
    w.probe('criterion_checked')
    for i in hit[:1]:
        f, x, jac = fits[i]
        if not jac or cond > 1e6:
            continue
        g = np.ravel(f(x)[1])
        num = []
        for j in range(x.size):
            st = 1e-5 * max(1e-2, abs(x[j]))
            a, b = x.copy(), x.copy()
            a[j] += st
            b[j] -= st
            num.append((crit_value(f(a)) - crit_value(f(b))) / (2 * st))
        num = np.array(num)
        # the stabiliser is part of the matrix but not of its derivative: that much slack
        K = ref.gram(cfg['cov'], X, X, hyps) + (float(hyps['noise']) ** 2 + c) * np.eye(len(X))
        e = np.ravel(y) - (np.ravel(prior(X)) if prior is not None else 0.0)
        al = np.linalg.solve(K, e)
        slack = STAB * (float(al @ al) + float(np.trace(np.linalg.inv(K)))) / abs(float(hyps['signal'])) \
            / len(X)
        gt = 2e-3 * max(1.0, float(np.max(np.abs(num)))) + slack + 1e-11 * cond
        require(g.shape == num.shape and np.max(np.abs(g - num)) <= gt, 'criterion-gradient',
                '%s: the criterion is reported with derivative %s, it is %s', what, g.tolist(), num.tolist())
        w.probe('gradient_checked')


def check_fit(w, what, cov, tp, ms, opt, X, Y, hyps, pr, log):
    """A fit requested directly: which numbers it searched, and what they say."""
    from bayeso import constants
    ard = opt.get('use_ard', constants.USE_ARD)
    want = 1 + (X.shape[-1] if ard else 1) + (1 if tp else 0) + (0 if opt['fix_noise'] else 1)
    sizes = [x.size for _, x, _ in log]
    require(sizes == [want], 'fit-size', '%s: the fit searched %s numbers, there are %d hyperparameters '
            '(noise %s)', what, sizes, want, 'fixed' if opt['fix_noise'] else 'free')
    if opt['fix_noise']:
        require(float(hyps['noise']) == constants.GP_NOISE, 'fixed-noise', '%s: the noise is fixed but %r',
                what, hyps['noise'])
    if not finite_hyps(hyps):
        return
    c = 1e-5
    cond = cond_ok(ref.gram(cov, X, X, hyps) + (float(hyps['noise']) ** 2 + c) * np.eye(len(X)))
    if cond is not None:
        check_criterion(w, what, {'cov': cov, 'modelsel': ms, 'mlm': 'regular'}, tp, X, Y, hyps, pr, c,
                        cond, log)
        w.probe('direct_fit_checked')


def check_acquisition(w, what, name, mean, std, y, noise, acq, factors):
    rv = -ref.acquisition(name, mean, std, y, noise)
    ok = np.isfinite(rv)
    if not np.any(ok):
        return
    big = float(np.max(np.abs(rv[ok])))
    if big < 1e-200:
        return
    fac = float(np.sum(acq[ok] * (rv[ok] / big)) / np.sum((rv[ok] / big) ** 2) / big)
    require(fac > 0, 'acquisition', '%s: acquisition values %s, the definition gives %s (negated)', what,
            acq.tolist()[:5], rv.tolist()[:5])
    require(np.max(np.abs(acq[ok] - fac * rv[ok])) <= 1e-6 * fac * big + 1e-13, 'acquisition',
            '%s: acquisition values %s are not proportional to the definition %s (negated)', what,
            acq.tolist()[:5], rv.tolist()[:5])
    if big > 1e-6:
        factors.append(fac)
        require(abs(fac - factors[0]) <= 1e-4 * factors[0], 'acquisition',
                '%s: acquisition values are scaled by %g here and by %g before', what, fac, factors[0])
    w.probe('acquisition_checked')


def suggest(plan, w, state):
    cur = {'cfg': None}
    fits = Fits(w, plan, lambda: cur['cfg'])
    st = cholesky_faults(w, plan['chol'])
    opts = []
    for i, cfg in enumerate(plan['opts']):
        ra = wl.range_array(cfg)
        X = wl.initial_points(cfg, cfg['num_init'], ('c19', plan['world'], i))
        Y = np.array([[wl.fun_value(cfg['fun'], ra, x)] for x in X])
        opts.append({'cfg': cfg, 'model': wl.make_model(cfg), 'X': X, 'Y': Y, 'ra': ra, 'settled': False})
    factors = []
    for s, i in enumerate(plan['order']):
        if i >= len(opts):
            continue
        o = opts[i]
        cfg, model, X, Y = o['cfg'], o['model'], o['X'], o['Y']
        what = 'suggestion %d (%s)' % (s + 1, cfg['surrogate'])
        del fits.log[:]
        cur['cfg'] = cfg
        try:
            seed = seams.digest_int('c19s', plan['world'], s) % 10**6
            nxt, info = wl.model_optimize(cfg, model, X, Y,
                                          seed=None if cfg.get('via') == 'class' and s % 2 == 0 else seed)
        except Violation:
            raise
        except Exception as e:  # pylint: disable=broad-except
            bad = [x for _, x, _ in fits.log if not np.all(np.isfinite(x))]
            require(bad or isinstance(e, (np.linalg.LinAlgError, ValueError)), 'aborted',
                    '%s raised %s', what, describe(e))
            w.probe('gave_up')      # an extreme fit: C03 and C17 decide those
            continue
        finally:
            cur['cfg'] = None
        w.hooks.pop('scipy.linalg.cholesky', None)
        w.hooks.pop('numpy.linalg.cholesky', None)
        w.hooks.pop('scipy.linalg.cho_factor', None)
        prior = wl.prior_fun(cfg['prior'])
        y = np.asarray(info['Y_normalized'], dtype=float)
        cand = np.asarray(info['next_points'], dtype=float)
        acq = np.asarray(info['acquisitions'], dtype=float)
        if cfg['surrogate'] == 'rf':
            mean, std = model.compute_posteriors(cand, info['trees'])
            check_acquisition(w, what, cfg['acq'], mean, std, y, 1e-2, acq, factors)
        else:
            tp = cfg['surrogate'] == 'tp'
            hyps = info['hyps']
            if tp or cfg['mlm'] != 'converged':
                require(fits.log, 'not-fitted', '%s: the hyperparameters were not fitted', what)
            if finite_hyps(hyps) and abs(float(hyps['signal'])) < 1e6:
                require(abs(float(hyps['noise']) - 1e-2) < 1e-12, 'noise', '%s: the noise level is %r', what,
                        float(hyps['noise']))
                require(np.size(hyps['lengthscales']) == (cfg['d'] if cfg['use_ard'] else 1), 'hyps',
                        '%s: %d lengthscales in %d dimensions', what, np.size(hyps['lengthscales']), cfg['d'])
                c, cond = check_matrix(w, cfg['cov'], X, hyps, info['cov_X_X'], info['inv_cov_X_X'], what)
                if cond is not None:
                    key = seams.digest_int('xs', plan['world'], s)
                    Xs = np.vstack((cand[:4], X[:1], wl.initial_points(cfg, 2, ('xs', key))))
                    mean, std = model.compute_posteriors(X, y, Xs, info['cov_X_X'], info['inv_cov_X_X'], hyps)
                    check_posterior(w, what, cfg['cov'], X, y, Xs, hyps, prior, c, cond, mean, std, tp)
                    if fits.log:
                        check_criterion(w, what, cfg, tp, X, y, hyps, prior, c, cond, fits.log)
                mean, std = model.compute_posteriors(X, y, cand, info['cov_X_X'], info['inv_cov_X_X'], hyps)
                check_acquisition(w, what, cfg['acq'], mean, std, y, float(hyps['noise']), acq, factors)
        state['digest'].append(harr(nxt, acq))
        # the failures go on with the next suggestion
        if plan['chol'] and s + 1 < len(plan['order']):
            cholesky_faults(w, [n + 5 * s for n in plan['chol']])
        o['X'] = np.vstack((X, np.array(nxt)))
        o['Y'] = np.vstack((Y, [[wl.fun_value(cfg['fun'], o['ra'], o['X'][-1])]]))
    state['sig'] = [[c['surrogate'], c['cov'], c['acq'], c['use_ard'], c['prior'], c['mlm'], c['modelsel'],
                     c['normalize_Y'], c['d']] for c in plan['opts']] + [plan['order']]
    state['interleaved'] = len(set(plan['order'])) > 1


def predict(plan, w, state):
    Fits(w, plan, lambda: None)
    d, n, l = plan['d'], plan['n'], plan['l']

    def arr(key, *shape):
        size = int(np.prod(shape))
        return np.array([seams.digest_int('p', plan['world'], key, i) % 100003 / 100003.0
                         for i in range(size)]).reshape(shape) * plan['scale']
    if plan['set']:
        X, Xs, cov = arr('x', n, plan['m'], d), arr('xs', l, plan['ml'], d), 'set_' + plan['cov']
    else:
        X, Xs, cov = arr('x', n, d), arr('xs', l, d), plan['cov']
    kind = plan['prior']

    def prior(Z):
        if kind == 'const':
            return np.full((Z.shape[0], 1), 0.3)
        return 0.2 * np.sum(Z.reshape(Z.shape[0], -1), axis=1).reshape(-1, 1)
    pr = prior if kind else None
    Y = 3.0 * arr('y', n, 1) / plan['scale'] - 1.0
    hy = arr('h', 8) / plan['scale']
    hyps = {'signal': float(0.5 + 2 * hy[0]), 'noise': float(0.01 + 0.1 * hy[1]),
            'lengthscales': (0.3 + 2 * hy[2:2 + d]) * plan['scale'] if plan['ard']
            else float((0.3 + 2 * hy[2]) * plan['scale'])}
    istp = plan['tp']
    if istp:
        hyps['dof'] = float(2.5 + 10 * hy[7])
    like = plan.get('like')
    if like and X.shape[1:] == Xs.shape[1:]:
        if like == 'dup':
            Xs = np.concatenate((Xs, X[:1], Xs[:1]))
        else:
            Xs = X.copy()
            if like == 'tail':
                Xs[-1] = arr('tail', *X.shape[1:])
    state['sig'] = [istp, cov, plan['how'], n, Xs.shape[0], d, plan['m'], plan['ard'], kind, like,
                    plan.get('more')]
    state['interleaved'] = plan['set'] or bool(plan.get('more'))
    one_prediction(plan, w, state, X, Y, Xs, hyps, cov, pr)
    for i, k in enumerate(plan.get('more', [])):        # further calls in the same process
        w.fire('further_prediction')
        X, Y, Xs, hyps = X.copy(), Y.copy(), Xs.copy(), dict(hyps)
        if k == 'Y':
            Y = Y[::-1] + 0.25 * (i + 1)
        elif k == 'tailX':
            X[-1] = arr('tailx%d' % i, *X.shape[1:])
        elif k == 'tailXs':
            Xs[-1] = arr('tailxs%d' % i, *Xs.shape[1:])
        elif k == 'hyps':
            hyps['signal'] = 1.5 * hyps['signal']
        elif k == 'rows' and X.shape[0] > 1:
            X, Y = X[:-1], Y[:-1]
        one_prediction(plan, w, state, X, Y, Xs, hyps, cov, pr)


def one_prediction(plan, w, state, X, Y, Xs, hyps, cov, pr):
    from bayeso.gp import gp, gp_kernel
    from bayeso.tp import tp, tp_kernel
    from bayeso import covariance
    istp, n, l = plan['tp'], X.shape[0], Xs.shape[0]
    mod, ker = (tp, tp_kernel) if istp else (gp, gp_kernel)
    Xc, Yc, Xsc = X.copy(), Y.copy(), Xs.copy()
    what = '%s prediction (%s)' % ('t-process' if istp else 'GP', cov)
    kw = dict(str_cov=cov, prior_mu=pr, debug=plan['debug'])
    try:
        if plan['how'] == 'hyps':
            out = mod.predict_with_hyps(X, Y, Xs, dict(hyps), **kw)
        elif plan['how'] == 'cov':
            K, inv, _ = covariance.get_kernel_inverse(X, hyps, cov)
            check_matrix(w, cov, X, hyps, K, inv, what)
            out = mod.predict_with_cov(X, Y, Xs, K, inv, dict(hyps), **kw)
        else:
            method = plan.get('method', 'L-BFGS-B')
            if istp and method not in ('L-BFGS-B', 'SLSQP'):
                method = 'SLSQP'
            opt = dict(str_optimizer_method=method, fix_noise=plan.get('fixn', True))
            ms = 'ml'
            if plan['how'] == 'fit':
                Fits(w, plan, lambda: None)
                out = mod.predict_with_optimized_hyps(X, Y, Xs, **kw, **opt)
            else:
                opt['use_ard'] = plan['ard']
                if not istp:
                    ms = opt['str_modelselection_method'] = plan.get('modelsel', 'ml')
            fits = Fits(w, plan, lambda: None)
            K, inv, hyps = ker.get_optimized_kernel(X, Y, pr, cov, debug=plan['debug'], **opt)
            check_matrix(w, cov, X, hyps, K, inv, what)
            check_fit(w, what, cov, istp, ms, opt, X, Y, hyps, pr, fits.log)
            if plan['how'] == 'kernel':
                out = mod.predict_with_cov(X, Y, Xs, K, inv, dict(hyps), **kw)
    except np.linalg.LinAlgError:
        w.probe('gave_up')
        return
    require(wl.same(X, Xc) and wl.same(Y, Yc) and wl.same(Xs, Xsc), 'caller-array', '%s modified its data', what)
    if istp:
        require(abs(float(out[0]) - (float(hyps['dof']) + n)) <= 1e-9, 'dof', '%s: %r degrees of freedom for '
                'prior dof %r and %d points', what, out[0], hyps['dof'], n)
        out = out[1:]
    mean, std, S = out
    require(np.shape(mean) == (l, 1) and np.shape(std) == (l, 1) and np.shape(S) == (l, l), 'shape',
            '%s: shapes %s %s %s', what, np.shape(mean), np.shape(std), np.shape(S))
    if finite_hyps(hyps):
        c = 1e-5
        cond = cond_ok(ref.gram(cov, X, X, hyps) + (float(hyps['noise']) ** 2 + c) * np.eye(n))
        if cond is not None:
            check_posterior(w, what, cov, X, Y, Xs, hyps, pr, c, cond, mean[:, 0], std[:, 0], istp, S)
    state['digest'].append(harr(mean, std))


def execute(plan):
    w = seams.World(plan['world'], cpu=2)
    w.pool_plan = PoolPlan(plan['world'], 1.0)
    viol = None
    state = {'digest': [], 'sig': [], 'interleaved': False}
    with w:
        try:
            (suggest if plan['mode'] == 'suggest' else predict)(plan, w, state)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    return result(w, (plan['mode'], state['sig'], sorted(w.fired.items())), viol,
                  nontrivial=bool(w.fired) or state['interleaved'], digest=h(state['digest']),
                  note='%s %s' % (plan['mode'], state['sig'][:2]))
