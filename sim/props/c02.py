"""C02: nothing outside the search space is ever chosen or evaluated."""
import numpy as np

from sim import seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, describe, cholesky_faults,
                            SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 900, 'thorough': 40000}
RULE = ('one run = one seeded configuration and entry point with a fault script for the inner '
        'optimiser (points outside the box by one ulp up to far away, NaN, infinities, exact bounds), '
        'the objective (NaN, infinities, huge values) and the factorisation; non-trivial = at least '
        'one such fault fired; distinct = different configuration shape and fired faults')
MEASURE = 'hash of (entry point, surrogate, optimiser, samplers, fired faults, outcome)'
SIM_COMPONENTS = SIM_DEFAULT + ['inner optimiser results (scripted corruptions)', 'cma.fmin (scripted)']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['caller-supplied initial points lie inside the box', 'bounds are finite']
SHRINK_LISTS = ('minim', 'faults', 'chol', 'samplers')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

BAD = ['ulp_hi', 'ulp_lo', 'eps_hi', 'eps_lo', 'far_hi', 'far_lo', 'nan', 'inf', '-inf', 'mixed',
       'edge_hi', 'edge_lo', 'nan_one']


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, mlms=('regular', 'regular', 'regular', 'combined', 'converged'), stretch=0.05)
    if rng.random() < 0.12:      # a fixed coordinate is an accepted search space
        j = rng.randrange(cfg['d'])
        cfg['range'][j][1] = cfg['range'][j][0]
    if cfg['surrogate'] != 'rf' and rng.random() < 0.2 and cfg['d'] > 1:
        cfg['opt_bo'] = 'CMA-ES'
    api = wl.pick_api(rng, cfg, ts=0.15)
    minim = []
    if rng.random() < 0.8:
        dense = rng.random() < 0.3
        for n in range(1, 40):
            if rng.random() < (0.7 if dense else 0.15):
                minim.append([n, rng.choice(BAD)])
    faults = []
    ncalls = cfg['num_init'] + cfg['num_iter']
    if rng.random() < 0.4:
        for i in range(ncalls):
            if rng.random() < 0.35:
                faults.append([i, 'value', rng.choice(['nan', 'inf', '-inf', '1e300', '-1e300', '0.0'])])
    chol = sorted({int(rng.expovariate(1 / 60.0)) + 1 for _ in range(rng.randint(0, 4))}) \
        if rng.random() < 0.3 else []
    samplers = [[m, rng.choice([1, 2, 7, 33, 129]) if m != 'grid' else rng.choice([1, 2, 5] if cfg['d'] < 4 else [1, 2]),
                 rng.choice([None, rng.randrange(2 ** 31)])]
                for m in wl.SAMPS if rng.random() < 0.5]
    odd = []
    if rng.random() < 0.3:      # designs over boxes of unusual magnitude
        for _ in range(rng.choice([1, 2, 3])):
            lo = rng.choice([0.0, 1 / 3.0, -0.1, 1e8 + 0.3, -7.7e12, 1e-9, -1e-3, rng.uniform(-5, 5)])
            wid = rng.choice([1e-9, 1e-7, 1e-12, 2e-8, 1e-5, 1e-3, 1.0, 1e6, 1e150, 0.0])
            odd.append([lo, max(lo, lo + wid)])
    return {'cfg': cfg, 'api': api, 'minim': minim, 'faults': faults, 'chol': chol, 'odd': odd,
            'samplers': samplers, 'world': rng.randrange(2 ** 40), 'cpu': rng.choice([1, 2, 4])}


def corrupt(kind, x, ra, n):
    x = np.array(x, dtype=float)
    lo, hi = ra[:, 0], ra[:, 1]
    wid = np.where(hi > lo, hi - lo, 1.0)
    j = n % len(x)
    if kind == 'ulp_hi':
        x[j] = np.nextafter(hi[j], np.inf)
    elif kind == 'ulp_lo':
        x[j] = np.nextafter(lo[j], -np.inf)
    elif kind == 'eps_hi':
        x[j] = hi[j] + 1e-6 * wid[j] + abs(hi[j]) * 1e-12
    elif kind == 'eps_lo':
        x[j] = lo[j] - 1e-6 * wid[j] - abs(lo[j]) * 1e-12
    elif kind == 'far_hi':
        x[j] = hi[j] + 3.5 * wid[j]
    elif kind == 'far_lo':
        x[j] = lo[j] - 3.5 * wid[j]
    elif kind == 'nan':
        x[:] = np.nan
    elif kind == 'nan_one':
        x[j] = np.nan
    elif kind == 'inf':
        x[j] = np.inf
    elif kind == '-inf':
        x[j] = -np.inf
    elif kind == 'mixed':
        x[j] = np.nan
        x[(j + 1) % len(x)] = hi[(j + 1) % len(x)] + wid[(j + 1) % len(x)]
    elif kind == 'edge_hi':
        x[:] = hi
    elif kind == 'edge_lo':
        x[:] = lo
    return x


def inside(p, ra):
    p = np.asarray(p, dtype=float)
    return bool(np.all(np.isfinite(p)) and np.all(p >= ra[:, 0]) and np.all(p <= ra[:, 1]))


def execute(plan):
    cfg = plan['cfg']
    ra = wl.range_array(cfg)
    w = seams.World(plan['world'], cpu=plan['cpu'])
    rec = wl.SuggestionRecorder()
    viol = None
    r = None
    sc = {int(n): k for n, k in plan['minim']}
    st = {'n': 0}
    outcome = None

    def hook(real, fun, x0, *args, **kw):
        if not wl.minimize_box(kw, args, cfg):
            return real(fun, x0, *args, **kw)
        st['n'] += 1
        require(inside(x0, ra), 'start-outside',
                'acquisition search was started at %s outside the box %s', np.asarray(x0).tolist(),
                ra.tolist())
        res = real(fun, x0, *args, **kw)
        kind = sc.get(st['n'])
        if kind:
            w.fire('optimizer_' + kind)
            res.x = corrupt(kind, res.x, ra, st['n'])
        return res

    def cma_hook(real, fun, x0, sigma0, *args, **kw):
        st['n'] += 1
        kind = sc.get(st['n'], None)
        u = seams.digest_int('cma', plan['world'], st['n']) % 10007 / 10007.0
        x = ra[:, 0] + u * (ra[:, 1] - ra[:, 0])
        if kind:
            w.fire('cma_' + kind)
            x = corrupt(kind, x, ra, st['n'])
        w.probe('cma_stub')
        return [x, float('nan'), 1, 1, 1, x, np.ones(len(x)), None, None, None]

    with w:
        obj = wl.Objective(cfg['fun'], ra, w, plan['faults'])

        def before(i, x):
            own = plan['api'] in ('class.inputs', 'func.inputs') and i < cfg['num_init']
            if not own:
                w.probe('checked_evaluation')
                require(inside(x, ra), 'outside-evaluated',
                        'evaluation %d of %s was requested at %s, box %s', i, plan['api'],
                        np.asarray(x).tolist(), ra.tolist())
        obj.before = before
        cholesky_faults(w, plan['chol'])
        w.hooks['minimize'] = hook
        w.hooks['cma.fmin'] = cma_hook
        try:
            if plan['samplers']:
                m = wl.make_model(cfg)
                for meth, num, seed in plan['samplers']:
                    pts = m.get_samples(meth, num_samples=num, seed=seed)
                    want = num ** cfg['d'] if meth == 'grid' else num
                    require(pts.shape == (want, cfg['d']), 'sampler-shape',
                            '%s sampler returned shape %s instead of %s', meth, pts.shape,
                            (want, cfg['d']))
                    require(inside(pts, ra), 'sampler-outside',
                            '%s sampler (num %d, seed %r) left the box %s', meth, num, seed, ra.tolist())
                    w.probe('sampler_' + meth)
            if plan.get('odd'):
                w.fire('unusual_box')
                ro = np.array(plan['odd'], dtype=float)
                m = wl.make_model(dict(cfg, range=plan['odd'], d=len(ro)))
                for meth in wl.SAMPS:
                    for seed in (None, plan['world'] % 100003):
                        pts = m.get_samples(meth, num_samples=64 if meth != 'grid' else 3, seed=seed)
                        require(inside(pts, ro), 'sampler-outside', '%s sampler (seed %r) left the box %s', meth,
                                seed, ro.tolist())
            r = wl.drive(cfg, plan['api'], obj, ('c02', plan['world']))
            if isinstance(r.error, Violation):
                raise r.error
            outcome = 'ok' if r.error is None else type(r.error).__name__
            w.probe('outcome_' + ('completed' if r.error is None else 'raised'))
            for e in rec.log:
                if e['out'] is not None:
                    require(inside(e['out'], ra), 'outside-suggested',
                            'suggestion %s is outside the box %s', e['out'].tolist(), ra.tolist())
                    require(inside(e['info']['next_points'], ra), 'outside-candidate',
                            'a reported candidate is outside the box')
            if r.error is None:
                k = r.X.shape[0] - r.n_iter
                require(inside(r.X[k:], ra), 'outside-reported',
                        'reported evaluations %s leave the box %s', r.X[k:].tolist(), ra.tolist())
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    sig = (plan['api'], cfg['surrogate'], cfg['opt_bo'], cfg['samp'], cfg['init'],
           sorted(w.fired.items()), outcome, cfg['acq'], cfg['d'])
    return result(w, sig, viol, nontrivial=bool(w.fired),
                  digest=h((outcome, harr(*[c[0] for c in obj.calls]))),
                  note='outcome %s after %d evaluations' % (outcome, len(obj.calls)))
