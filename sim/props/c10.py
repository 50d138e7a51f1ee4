"""C10: the suggestion is the best candidate the acquisition search found."""
import numpy as np
from scipy.optimize import OptimizeResult

from sim import seams, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, cholesky_faults,
                            SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 1000, 'thorough': 40000}
RULE = ('one run = a sequence of one to four suggestions of one optimiser over growing histories, where '
        'a seeded subset of the restarts of the inner optimiser stalls, terminates abnormally, '
        'wanders to an arbitrary point of the box or to its corners, and factorisations fail '
        'transiently; non-trivial = at least one such fault fired; distinct = different configuration '
        'shape, fault sequence and winning restart')
MEASURE = 'hash of (surrogate, acquisition, samplers, restart faults, index of the winning candidate)'
SIM_COMPONENTS = SIM_DEFAULT + ['outcomes of inner-optimiser restarts', 'cma.fmin / DIRECT results']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['the acquisition values themselves are those of the fitted model (their formulas are '
               'not part of this property)', 'at least one candidate has a finite acquisition value',
               'values are compared up to 1e-6 of the largest value and the rounding noise between evaluating '
               'candidates together and one by one']
SHRINK_LISTS = ('minim', 'chol', 'suggestions')
SHRINK_INTS = ((('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

KINDS = ['stall', 'abnormal', 'wander', 'wander', 'wander', 'corner_hi', 'corner_lo', 'same', 'centre',
         'stale_fun', 'nan_fun']


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp', 'rf'), stretch=0.06)
    cfg['via'] = rng.choice(['model', 'class'])
    if cfg['surrogate'] != 'rf':
        if cfg['samp'] != 'grid' and cfg.get('size') != 'cands':
            cfg['nsamp'] = rng.choice([1, 2, 3, 5, 8])
        if rng.random() < 0.1 and cfg['d'] > 1:
            cfg['opt_bo'] = 'CMA-ES'
    minim = []
    if rng.random() < 0.9:
        p = rng.choice([0.2, 0.6, 1.0])
        for n in range(1, 121 if cfg.get('size') else 33):
            if rng.random() < p:
                minim.append([n, rng.choice(KINDS)])
    chol = sorted({int(rng.expovariate(1 / 40.0)) + 1 for _ in range(rng.randint(0, 4))}) \
        if rng.random() < 0.3 else []
    if cfg['surrogate'] != 'rf' and cfg['opt_bo'] == 'L-BFGS-B' and rng.random() < 0.06:
        cfg['samp'] = rng.choice(wl.INITS)      # many restarts, all of them scripted
        cfg['nsamp'] = rng.choice([24, 40, 70, 110, 140])
        minim = [[n, rng.choice(['wander'] * 9 + ['stall'])] for n in range(1, 33)]
    k = 1 if cfg['mlm'] == 'combined' or cfg['modelsel'] == 'loocv' else rng.randint(1, 4)
    return {'cfg': cfg, 'minim': minim, 'chol': chol, 'world': rng.randrange(2 ** 40),
            'cpu': rng.choice([1, 2, 4]),
            'suggestions': [rng.choice([None, rng.randrange(2 ** 31)]) for _ in range(k)]}


def scripted(kind, x0, ra, key):
    lo, hi = ra[:, 0], ra[:, 1]
    if kind == 'stall':
        return np.array(x0, dtype=float)
    if kind == 'corner_hi':
        return hi.copy()
    if kind == 'corner_lo':
        return lo.copy()
    if kind == 'centre':
        return lo + 0.5 * (hi - lo)
    if kind == 'same':
        return lo + 0.25 * (hi - lo)
    u = np.array([seams.digest_int(key, j) % 1000003 / 1000003.0 for j in range(len(lo))])
    return np.minimum(np.maximum(lo + u * (hi - lo), lo), hi)


def restart_faults(w, cfg, minim, world, produced):
    """Restarts with scripted end points; produced collects every end point."""
    sc = {int(n): k for n, k in minim}
    st = {'n': 0}
    ra = wl.range_array(cfg)
    lo = ra[:, 0]

    def hook(real, fun, x0, *a, **k):
        if not wl.minimize_box(k, a, cfg):
            return real(fun, x0, *a, **k)
        st['n'] += 1
        w.probe('acquisition_restart')
        kind = sc.get(st['n'] if st['n'] <= 32 else (st['n'] - 1) % 32 + 1)
        if kind in ('wander', 'stall') and cfg['nsamp'] > 20:
            res = OptimizeResult(jac=np.zeros(len(lo)), nfev=1, message='', status=1)
        else:
            res = real(fun, x0, *a, **k)
        if kind == 'abnormal':
            res.success, res.status, res.message = False, 2, 'ABNORMAL_TERMINATION_IN_LNSRCH'
        elif kind in ('stale_fun', 'nan_fun'):
            # a line search that gave up: the reported value does not belong to the end point
            x = scripted('wander', x0, ra, ('restart', world, st['n']))
            v = float(np.ravel(fun(x))[0])
            res.x, res.success, res.status = x, False, 2
            res.fun = float('nan') if kind == 'nan_fun' else v - abs(v) * 1e3 - 1e3
            res.message = 'ABNORMAL_TERMINATION_IN_LNSRCH'
        elif kind:
            x = scripted(kind, x0, ra, ('restart', world, st['n']))
            res.x = x
            res.fun = np.ravel(fun(x))[0]
            res.success = kind == 'corner_hi'
            res.nit = 0
        if kind:
            w.fire('restart_' + kind)
        produced.append(np.array(res.x, dtype=float))
        return res
    w.hooks['minimize'] = hook

    def cma(real, fun, x0, sigma0, *a, **k):
        st['n'] += 1
        x = scripted('wander', x0, ra, ('cma', world, st['n']))
        w.fire('cma_wander')
        produced.append(x.copy())
        return [x, fun(x), 1, 1, 1, x, np.ones(len(x)), None, None, None]
    w.hooks['cma.fmin'] = cma


def values(model, cfg, info, X, pts, batch=False):
    """Negated acquisition at every point, one point at a time, from the reported model."""
    out = []
    for p in ([pts] if batch else pts):
        q = np.atleast_2d(np.array(p, dtype=float))
        if cfg['surrogate'] == 'rf':
            a = model.compute_acquisitions(q, X, info['Y_normalized'], info['trees'])
        else:
            a = model.compute_acquisitions(q, X, info['Y_normalized'], info['cov_X_X'],
                                           info['inv_cov_X_X'], info['hyps'])
        out.extend((-np.ravel(a)).tolist())
    return np.array(out)


def check_info(cfg, info, X, Y, converged):
    require(wl.same(info['Y_original'], Y), 'responses', 'the reported original responses are %s, '
            'given %s', np.ravel(info['Y_original']).tolist(), np.ravel(Y).tolist())
    yn = np.asarray(info['Y_normalized'], dtype=float)
    require(yn.shape == Y.shape, 'responses', 'normalised responses have shape %s', yn.shape)
    span = float(np.max(Y) - np.min(Y))
    if cfg['normalize_Y'] and not converged and span > 0:
        ref = (Y - np.min(Y)) / span
        top = float(np.max(yn))
        require(abs(float(np.min(yn))) <= 1e-9 and top > 0 and np.allclose(yn / top, ref, rtol=0, atol=1e-9),
                'responses', 'responses %s were normalised to %s', np.ravel(Y).tolist(),
                np.ravel(yn).tolist())
    elif not cfg['normalize_Y'] or span == 0:
        require(wl.same(yn, Y), 'responses', 'responses %s became %s', np.ravel(Y).tolist(),
                np.ravel(yn).tolist())


def check_suggestion(w, cfg, model, X, Y, nxt, info, produced, nrand):
    cand = np.asarray(info['next_points'], dtype=float)
    acq = np.asarray(info['acquisitions'], dtype=float)
    require(cand.ndim == 2 and cand.shape[1] == cfg['d'], 'shape', 'candidates have shape %s', cand.shape)
    require(acq.shape == (cand.shape[0],), 'shape', '%s acquisition values for %d candidates',
            acq.shape, cand.shape[0])
    require(np.asarray(nxt).shape == (cfg['d'],), 'shape', 'the suggestion has shape %s', np.shape(nxt))
    if cfg['surrogate'] != 'rf':
        require(len(produced) == cand.shape[0], 'lost-candidate',
                'the search produced %d end points, %d candidates are reported', len(produced),
                cand.shape[0])
        for p in produced:
            require(np.any(np.all(cand == p, axis=1)), 'lost-candidate',
                    'end point %s of a restart is not among the candidates %s', p.tolist(), cand.tolist())
    want = 1 if cfg['opt_bo'] == 'CMA-ES' and cfg['surrogate'] != 'rf' else nrand
    require(cand.shape[0] == want, 'lost-candidate', '%d candidates were requested, %d are reported',
            want, cand.shape[0])
    require(np.any(np.all(cand == nxt, axis=1)), 'not-a-candidate',
            'suggestion %s is none of the candidates %s', np.asarray(nxt).tolist(), cand.tolist())
    check_info(cfg, info, X, Y, cfg['surrogate'] == 'gp' and cfg['mlm'] == 'converged')
    sub = list(range(cand.shape[0]))
    if len(sub) > 40:       # a forest's candidates: the reported best, the suggestion and a sample
        sub = sorted(set(np.argsort(acq, kind='stable')[:12].tolist() + sub[::max(1, len(sub) // 20)]))
    val = values(model, cfg, info, X, cand[sub])
    fin = val[np.isfinite(val)]
    if fin.size == 0:
        return None
    # rounding noise of the model itself: the same points, evaluated together and one by one
    both = values(model, cfg, info, X, cand[sub], batch=True)
    noise = np.abs(both - val)
    noise = float(np.max(noise[np.isfinite(noise)], initial=0.0))
    tol = 1e-6 * max(float(np.max(np.abs(fin))), 1e-300) + 1e-12 + 10 * noise
    if noise > 1e-6 * float(np.max(np.abs(fin))):
        w.probe('noisy_acquisition')
    for i, j in enumerate(sub):
        if np.isfinite(val[i]):
            require(min(abs(acq[j] - val[i]), abs(acq[j] - both[i])) <= tol, 'acquisition-report',
                    'candidate %d is reported with %r, the model gives %r', j, float(acq[j]), float(val[i]))
    vn = values(model, cfg, info, X, [nxt])[0]
    require(np.isfinite(vn) and vn <= np.min(fin) + tol, 'not-best',
            'suggestion %s has (negated) acquisition %r but candidate %s has %r', np.asarray(nxt).tolist(),
            float(vn), cand[sub][int(np.nanargmin(val))].tolist(), float(np.min(fin)))
    w.probe('suggestion_checked')
    if len(sub) > 1 and np.sum(fin > np.min(fin) + tol) > 0:
        w.probe('discriminating')
    return int(np.argmax(np.all(cand == nxt, axis=1)))


def snapshot(ret):
    nxt, info = ret
    return [h((k, harr(v) if isinstance(v, np.ndarray) else repr(v)))
            for k, v in sorted(info.items()) if k not in ('trees', 'hyps')] + [harr(nxt), sorted(
                (k, harr(np.asarray(v))) for k, v in info.get('hyps', {}).items())]


def execute(plan):
    cfg = plan['cfg']
    ra = wl.range_array(cfg)
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    winners, digest, kept = [], [], []
    with w:
        w.pool_plan = PoolPlan(plan['world'], 1.0)
        produced = []
        restart_faults(w, cfg, plan['minim'], plan['world'], produced)
        cholesky_faults(w, plan['chol'])
        try:
            model = wl.make_model(cfg)
            X = wl.initial_points(cfg, cfg['num_init'], ('c10', plan['world']))
            Y = np.array([[wl.fun_value(cfg['fun'], ra, x)] for x in X])
            for seed in plan['suggestions']:
                del produced[:]
                try:
                    nxt, info = wl.model_optimize(cfg, model, X, Y, seed=seed)
                except Violation:
                    raise
                except Exception as e:  # pylint: disable=broad-except
                    raise Violation('aborted', 'a suggestion raised %s' % describe(e)) from e
                found = list(produced)
                for k, (ret, snap) in enumerate(kept):
                    require(snapshot(ret) == snap, 'report-overwritten',
                            'a later suggestion changed what suggestion %d had reported', k + 1)
                kept.append(((nxt, info), snapshot((nxt, info))))
                winners.append(check_suggestion(w, cfg, model, X, Y, nxt, info, found,
                                                cfg['nsamp'] ** (cfg['d'] if cfg['samp'] == 'grid' else 1)))
                digest.append(harr(nxt, info['next_points']))
                X = np.vstack((X, np.array(nxt)))
                Y = np.vstack((Y, [[wl.fun_value(cfg['fun'], ra, X[-1])]]))
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    w.probe('surrogate_' + cfg['surrogate'])
    sig = (cfg['surrogate'], cfg['acq'], cfg['samp'], cfg['nsamp'], sorted(w.fired.items()), winners)
    return result(w, sig, viol, nontrivial=bool(w.fired) or cfg['surrogate'] == 'rf', digest=h(digest),
                  note='winning candidates %s' % winners)
