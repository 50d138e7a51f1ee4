"""C07: a seed fixes what it seeds; nothing else in the process does."""
import random

import numpy as np

from sim import seams, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, pack,
                            same_outcome, show, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'exploration'
RUNS = {'quick': 800, 'thorough': 40000}
RULE = ('one run = one seeded or unseeded operation (initial design, candidate sampling, suggestion, '
        'whole round) repeated in forked copies of the process whose OS entropy, global generators, '
        'clock, process id, core count and earlier activity (other optimisations, failed ones included) differ, '
        'or in fresh interpreters whose string hashing differs; '
        'non-trivial = at least one environment difference applied; distinct = different operation, '
        'configuration shape and set of differences')
MEASURE = 'hash of (operation, samplers, surrogate, seed class, environment differences)'
SIM_COMPONENTS = SIM_DEFAULT + ['global numpy/random generator state']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['random forests and Thompson sampling draw from numpy\'s global generator by '
               'design: their model part is only required to be fixed once that generator is seeded too']
SHRINK_LISTS = ('noise', 'diff')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

DIFFS = ['entropy', 'global', 'clock', 'cpu', 'noise', 'pyrandom', 'pid']


def gen_seed(rng):
    return rng.choice([0, 0, 1, 2 ** 32 - 1, rng.randrange(2 ** 31), rng.randrange(2 ** 31)])


def generate(rng, tier, idx):
    if rng.random() < 0.006:
        cfgs = []
        for i in range(8):
            c = wl.gen_cfg(rng, surrogates=('gp', 'tp', 'rf') if i else ('rf',), mlms=('regular',), max_iter=1,
                           cma=0.1)
            c['seed'] = gen_seed(rng)
            c['opt_gp'] = 'BFGS'
            cfgs.append(c)
        return {'mode': 'interpreters', 'cfgs': cfgs, 'cfg': cfgs[0], 'world': rng.randrange(2 ** 40),
                'diff': ['hashseed'], 'hash': [rng.randrange(2 ** 31), rng.randrange(2 ** 31)], 'noise': [],
                'api': 'class.optimize', 'mid': 'sobol', 'var': 1, 'nx': 1, 'bit': 0, 'age': 1}
    mode = rng.choice(['initials', 'initials', 'suggest', 'suggest', 'history', 'history',
                       'gridround', 'unseeded'])
    cfg = wl.gen_cfg(rng, mlms=('regular', 'regular', 'regular', 'combined'), max_iter=3, stretch=0.05,
                     cma=0.05 if mode in ('suggest', 'history') else 0.0)
    cfg['seed'] = gen_seed(rng)
    if mode == 'gridround':
        cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'tp'), mlms=('regular', 'regular', 'combined'),
                         max_iter=2)
        cfg['seed'] = gen_seed(rng)
        cfg['samp'] = 'grid'
        cfg['nsamp'] = rng.choice([1, 2])
    plan = {'mode': mode, 'cfg': cfg, 'world': rng.randrange(2 ** 40),
            'diff': [d for d in DIFFS if rng.random() < 0.7] or ['entropy'],
            'var': rng.randrange(1, 2 ** 30), 'nx': rng.choice([1, 2, 3, 5]),
            'api': rng.choice(wl.APIS_CLASS + (wl.APIS_FUNC if cfg['surrogate'] == 'gp' else [])),
            'mid': rng.choice(wl.SAMPS), 'bit': rng.randrange(32)}
    cheap = mode == 'suggest' and not cfg.get('size') and cfg['opt_bo'] != 'CMA-ES' and \
        cfg['mlm'] == 'regular' and cfg['modelsel'] == 'ml' and cfg['opt_gp'] != 'Nelder-Mead'
    plan['age'] = rng.choice([1, 1, 1, 8, 15]) if cheap else 1
    noise = []
    for _ in range(rng.randint(1, 2)):
        c = wl.gen_cfg(rng, max_d=3, max_iter=2, max_init=3,
                       mlms=('regular', 'regular', 'converged', 'combined'))
        c['nsamp'] = min(c['nsamp'], 3)
        if rng.random() < 0.4:          # the same settings as the observed one, other data
            c2 = dict(cfg)
            c2['num_iter'], c2['num_init'] = 1, 2
            c2['fun'] = c['fun'] if c['d'] == cfg['d'] else cfg['fun']
            c2['debug'] = rng.random() < 0.5
            c = c2
        f = [[rng.randrange(3), 'raise', rng.choice(['RuntimeError', 'KeyboardInterrupt'])]] \
            if rng.random() < 0.3 else []
        noise.append([c, wl.pick_api(rng, c, ts=0.15), f])
    if mode == 'history' and rng.random() < 0.6:     # earlier activity much like the observed one
        near = rng.choice(['tail', 'values', 'same', 'range'])
        c = dict(cfg, num_iter=rng.choice([1, cfg['num_iter']]), debug=rng.random() < 0.5)
        if near == 'values':
            c['fun'] = wl.gen_fun(rng, cfg['d'])
            if c['fun']['kind'] in ('big', 'offset'):
                c['fun']['kind'] = 'quad'
        if near == 'range':
            c['range'] = [[a, b + 0.25 * (b - a)] for a, b in cfg['range']]
        if near == 'same' and rng.random() < 0.5:
            c['seed'] = gen_seed(rng)
        noise.append([c, plan['api'], [], near])
    plan['noise'] = noise
    return plan


def environment(plan, w, k):
    """Put this (forked) process into environment k (0 = reference)."""
    if k == 0:
        return
    w.fire('env_variant')
    if 'noise' in plan['diff']:
        for i, (c, api, f, *near) in enumerate(plan['noise']):
            o = wl.Objective(c['fun'], wl.range_array(c), w, f)
            if not near:
                wl.drive(c, api, o, ('c07n', plan['world'], i))
                continue
            w.fire('similar_activity')
            key = ('c07', plan['world'])
            X = Y = None
            if near[0] == 'tail' and api.split('.')[-1] in ('inputs', 'all'):
                X = wl.initial_points(c, c['num_init'], key)
                X[-1, -1] = wl.range_array(c)[-1].mean()
                if api.endswith('all'):
                    Y = np.array([[wl.fun_value(c['fun'], wl.range_array(c), x)] for x in X])
            wl.drive(c, api, o, key, X0=X, Y0=Y)
    if 'entropy' in plan['diff']:
        w.seed = ('other', plan['world'], plan['var'], k)
    if 'clock' in plan['diff']:
        w.now += 1e6 + plan['var'] % 997
    if 'cpu' in plan['diff']:
        w.cpu = 1 + plan['var'] % 7
    if 'pid' in plan['diff']:
        w.pid = 5000 + plan['var'] % 9973
    if 'global' in plan['diff']:
        np.random.seed(plan['var'] % (2 ** 32))
    if 'pyrandom' in plan['diff']:
        random.seed(plan['var'])


def data(plan):
    cfg = plan['cfg']
    X = wl.initial_points(cfg, plan['nx'], ('c07', plan['world']))
    Y = np.array([[wl.fun_value(cfg['fun'], wl.range_array(cfg), x)] for x in X])
    return X, Y


def others(plan):
    """Seeds different from the plan's one: neighbours, single-bit and round-number differences."""
    s = plan['cfg']['seed']
    out = [s + 1, s ^ (1 << plan['bit']), s + 10 ** (plan['bit'] % 10), 2 ** 32 - 1 - s, s // 2, s * 2]
    return [o for o in (x % (2 ** 32) for x in out) if o != s]


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def initials_via(plan, w, how):
    """Initial design through three public routes; returns the points."""
    cfg = plan['cfg']
    if how == 'model':
        m = wl.make_model(cfg)
        return m.get_initials(cfg['init'], cfg['num_init'], seed=cfg['seed'])
    obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
    api = {'class': 'class.optimize', 'func': 'func.round'}[how]

    class Stop(BaseException):
        pass

    def before(i, x):
        if i == cfg['num_init']:
            raise Stop()
    obj.before = before
    r = wl.drive(dict(cfg, nsamp=1), api, obj, None, num_iter=1)
    require(r.error is None or isinstance(r.error, Stop), 'aborted', '%s raised %s', api,
            describe(r.error) if r.error is not None else '')
    return np.array([c[0] for c in obj.calls[:cfg['num_init']]])


def m_initials(plan, w):
    cfg = plan['cfg']
    ways = ['model', 'class'] + (['func'] if cfg['surrogate'] == 'gp' else [])
    outs = {}
    for how in ways:
        for k in (0, 1):
            def one():
                environment(plan, w, k)
                g0 = gstate()
                p = initials_via(plan, w, how)
                if how == 'model':
                    require(gstate() == g0, 'perturbed',
                            'sampling a seeded initial design changed the global generator')
                return p
            outs[(how, k)] = in_fork(one)
            w.probe('initials_' + how)
    ref = outs[('model', 0)]
    require(ref.shape == (cfg['num_init'], cfg['d']), 'shape', 'initial design has shape %s', ref.shape)
    for key, p in outs.items():
        require(wl.same(p, ref), 'not-determined',
                'seed %r, %s design of %d points: %s in one environment, %s via %s in another',
                cfg['seed'], cfg['init'], cfg['num_init'], ref.tolist(), p.tolist(), key[0])
    n = max(5, cfg['num_init'])
    designs = in_fork(lambda: [wl.make_model(cfg).get_initials(cfg['init'], n, seed=s)
                               for s in [cfg['seed']] + others(plan)])
    for s, other in zip(others(plan), designs[1:]):
        require(not wl.same(other, designs[0]), 'seed-ignored', 'seeds %r and %r give the same %s design',
                cfg['seed'], s, cfg['init'])

    # candidate sampling
    def samp(k):
        environment(plan, w, k)
        return wl.make_model(cfg).get_samples(plan['mid'], num_samples=min(3, cfg['nsamp']),
                                              seed=cfg['seed'])
    a, b = in_fork(lambda: samp(0)), in_fork(lambda: samp(1))
    require(wl.same(a, b), 'not-determined', 'seeded %s sampling differs between environments',
            plan['mid'])
    return harr(ref, a)


def suggestion(plan, cfg, model, X, Y, seed):
    nxt, info = wl.model_optimize(cfg, model, X, Y, seed=seed)
    out = {'next': np.array(nxt), 'points': np.array(info['next_points']),
           'acq': np.array(info['acquisitions'])}
    if 'hyps' in info:
        out['hyps'] = np.array([np.ravel(info['hyps'][k]).tolist() for k in ('signal',)]
                               + [[v] for v in np.ravel(info['hyps']['lengthscales'])], dtype=float)
    return out


def m_suggest(plan, w):
    cfg = dict(plan['cfg'])
    X, Y = data(plan)
    rf = cfg['surrogate'] == 'rf'

    def one(k, twice=False):
        environment(plan, w, k)
        model = wl.make_model(cfg)
        if twice:
            for _ in range(plan['age']):
                suggestion(plan, cfg, model, X, Y, (cfg['seed'] + 7) % (2 ** 32))
        if rf:
            np.random.seed(12345)
        g0 = gstate()
        o = suggestion(plan, cfg, model, X.copy(), Y.copy(), cfg['seed'])
        if not rf:
            require(gstate() == g0, 'perturbed',
                    'computing a seeded suggestion changed the global generators')
        return o
    a = in_fork(lambda: one(0))
    for k, tw in ((1, False), (0, True)):
        b = in_fork(lambda k=k, tw=tw: one(k, tw))
        w.probe('suggestion_compared')
        for f in a:
            require(wl.same(a[f], b[f]), 'not-determined',
                    'seed %r: %s of the suggestion is %s in one environment and %s in another (%s)',
                    cfg['seed'], f, np.ravel(a[f])[:6].tolist(), np.ravel(b[f])[:6].tolist(),
                    'after an earlier suggestion' if tw else plan['diff'])
    if rf:
        def free(k):
            environment(plan, w, k)
            return suggestion(plan, cfg, wl.make_model(cfg), X, Y, cfg['seed'])['points']
        p, q = in_fork(lambda: free(0)), in_fork(lambda: free(1))
        require(wl.same(p, q), 'not-determined', 'seed %r does not fix the candidate points', cfg['seed'])
    if cfg['samp'] != 'grid':
        s = others(plan)[0]
        c = in_fork(lambda: wl.model_optimize(cfg, wl.make_model(cfg), X, Y, seed=s)[1]['next_points'])
        if rf and len(c) >= 5:
            require(not wl.same(c, a['points']), 'seed-ignored',
                    'different seeds give the same candidates')
    return harr(a['next'], a['points'])


def m_history(plan, w):
    """The same round in a fresh process and after other activity in the process."""
    cfg = plan['cfg']

    def one(k):
        if k:
            environment({**plan, 'diff': ['noise']}, w, 1)
        w.new_epoch(0, 'measured')
        w.now = w.t0 + 5e6
        g0 = gstate()
        obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
        r = wl.drive(cfg, plan['api'], obj, ('c07', plan['world']))
        if cfg['surrogate'] in ('gp', 'tp'):
            require(gstate() == g0, 'perturbed', 'a round changed the global generators')
        return pack(r)
    a = in_fork(lambda: one(0))
    b = in_fork(lambda: one(1))
    w.fire('earlier_activity', len(plan['noise']))
    require(a['error'] is None, 'aborted', 'the round raised %s', a['error'])
    require(same_outcome(a, b), 'history-dependent',
            'in a fresh process the round gives %s, after other optimisations %s', show(a), show(b))
    return harr(a['X'], a['Y'])


def m_gridround(plan, w):
    cfg = plan['cfg']

    def one(k):
        environment(plan, w, k)
        obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
        return pack(wl.drive(cfg, 'class.optimize', obj, None))
    a = in_fork(lambda: one(0))
    b = in_fork(lambda: one(1))
    require(a['error'] is None, 'aborted', 'the round raised %s', a['error'])
    require(same_outcome(a, b), 'not-determined',
            'a seeded round with a fixed grid gives %s and %s', show(a), show(b))
    return harr(a['X'], a['Y'])


def m_unseeded(plan, w):
    cfg = plan['cfg']

    def one(k):
        if k:
            w.seed = ('other', plan['world'], plan['var'], k)
            w.fire('env_variant')
        # restarted workers with identical global generator state (e.g. forked servers)
        np.random.seed(5)
        random.seed(5)
        m = wl.make_model(cfg)
        a = m.get_initials(cfg['init'], cfg['num_init'])
        b = m.get_initials(cfg['init'], cfg['num_init'])
        return a, b
    a, a2 = in_fork(lambda: one(0))
    b, _ = in_fork(lambda: one(1))
    c, _ = in_fork(lambda: one(0))
    certain = cfg['init'] != 'gaussian' or cfg['num_init'] * cfg['d'] >= 5      # not all moved to the bounds
    require(not certain or not wl.same(a, b), 'no-entropy',
            'two processes with different entropy draw the same unseeded %s design', cfg['init'])
    require(not certain or not wl.same(a, a2), 'no-entropy',
            'two successive unseeded %s designs of one object are the same', cfg['init'])
    require(wl.same(a, c), 'hidden-source', 'an unseeded design draws from an unknown source')
    return harr(a, b)


def interpreter():
    """Body of a fresh interpreter: seeded operations of the plan on stdin, their results on stdout."""
    import json
    import sys
    from sim import runner
    runner.prepare(sys.modules[__name__])
    plan = json.load(sys.stdin)
    out = []
    for i, cfg in enumerate(plan['cfgs']):
        w = seams.World((plan['world'], i))
        with w:
            w.pool_plan = PoolPlan(plan['world'], 0.0)
            np.random.seed(99)
            X = wl.initial_points(cfg, 3, ('c07i', plan['world'], i))
            Y = np.array([[wl.fun_value(cfg['fun'], wl.range_array(cfg), x)] for x in X])
            m = wl.make_model(cfg)
            ops = {}
            for k in wl.INITS:
                ops['initial design ' + k] = m.get_initials(k, 4, seed=cfg['seed'])
            ops['candidates ' + cfg['samp']] = m.get_samples(cfg['samp'], num_samples=2, seed=cfg['seed'])
            ops['suggestion'] = suggestion(plan, cfg, m, X, Y, cfg['seed'])['next']
            obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
            r = pack(wl.drive(cfg, plan['api'], obj, None))
            ops['round'] = r['error'] if r['X'] is None else r['X']
            out.append({k: v if isinstance(v, str) else np.asarray(v, dtype=float).tolist()
                        for k, v in ops.items()})
    print(json.dumps(out))


def m_interpreters(plan):
    """The same operations in fresh interpreters whose string hashing differs."""
    import json
    import os
    import subprocess
    import sys
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    got = []
    for k in plan['hash']:
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from sim.props import c07; c07.interpreter()'],
                           input=json.dumps({k: v for k, v in plan.items() if k[0] != '_'}), text=True,
                           env=dict(os.environ, PYTHONHASHSEED=str(k), PYTHONPATH=here), capture_output=True, timeout=120,
                           check=False)
        if p.returncode:
            raise RuntimeError('interpreter failed: ' + p.stderr[-400:])
        got.append(json.loads(p.stdout.strip().splitlines()[-1]))
    for i, (a, b) in enumerate(zip(*got)):
        for k in a:
            require(a[k] == b[k], 'not-determined', 'seed %r: %s is %s in one interpreter and %s in another one',
                    plan['cfgs'][i]['seed'], k, str(a[k])[:200], str(b[k])[:200])
    return h(got[0])


def execute(plan):
    w = seams.World(plan['world'])
    viol = None
    d = None
    if plan['mode'] == 'interpreters':
        try:
            d = m_interpreters(plan)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
        w.fire('fresh_interpreter', 2)
        return result(w, ('interpreters', plan['hash']), viol, nontrivial=True, digest=d,
                      note='fresh interpreters')
    with w:
        w.pool_plan = PoolPlan(plan['world'], 0.0)
        try:
            d = {'initials': m_initials, 'suggest': m_suggest, 'history': m_history,
                 'gridround': m_gridround, 'unseeded': m_unseeded}[plan['mode']](plan, w)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    cfg = plan['cfg']
    w.probe('mode_' + plan['mode'])
    for x in plan['diff']:
        w.fire('difference_' + x)
    sc = 'zero' if cfg['seed'] == 0 else 'max' if cfg['seed'] == 2 ** 32 - 1 else 'other'
    sig = (plan['mode'], cfg['init'], cfg['samp'], cfg['surrogate'], sc, plan['diff'], plan['api'],
           cfg['num_init'], cfg['d'], plan['mid'])
    return result(w, sig, viol, nontrivial=bool(plan['diff']), digest=d,
                  note='%s, differences %s' % (plan['mode'], plan['diff']))
