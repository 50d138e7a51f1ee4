"""C05: crash and resume from the recorded evaluations."""
import os
import struct

import numpy as np

from sim import seams, sched, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, pack, show,
                            SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 600, 'thorough': 30000}
RULE = ('one run = one optimisation that is killed up to three times (at any executed source line of the '
        'library or before/after the caller journals an evaluation) and resumed in a new process from '
        'the journalled evaluations only, or split into several rounds; non-trivial = at least one crash '
        'or split happened; distinct = different entry points, surrogate and crash places')
MEASURE = 'hash of (entry points, surrogate, evaluations done at every crash, source line of every crash)'
SIM_COMPONENTS = SIM_DEFAULT + ['process death (fork + _exit at a source line)',
                                'the caller\'s evaluation journal']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['the caller journals every completed evaluation before it is returned to the library',
               'randomness after k evaluations is the same in the original and the resumed process',
               'hyperparameter refits are not frozen (converged mode excluded)']
SHRINK_LISTS = ('crashes',)
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, mlms=('regular', 'regular', 'regular', 'combined'), max_iter=4,
                     cma=0.04, stretch=0.05)
    cfg['seed'] = rng.randrange(2 ** 31)
    if cfg['given'] in ('single', 'intx', 'int', 'dup'):       # the journal keeps the values themselves
        cfg['given'] = 'readonly'
    if cfg['opt_bo'] == 'CMA-ES':
        cfg['num_iter'] = min(cfg['num_iter'], 2)
    apis = ['class.optimize', 'class.inputs', 'class.all']
    if cfg['surrogate'] == 'gp':
        apis += ['func.round', 'func.inputs', 'func.all']
    plan = {'cfg': cfg, 'api': rng.choice(apis), 'world': rng.randrange(2 ** 40),
            'cpu': rng.choice([1, 2, 4]),
            'resume': rng.choice(['class', 'func']) if cfg['surrogate'] == 'gp' else 'class',
            'crashes': [], 'split': None}
    if rng.random() < 0.3:
        plan['split'] = rng.choice(['same', 'fresh', 'mixed'])
        plan['parts'] = []
        plan['detour'] = rng.choice([None, None, 'low', 'high', 'far', 'aged'])
        plan['age'] = rng.choice([7, 9, 12, 20])
        if plan['detour'] == 'aged' and (cfg['mlm'] == 'combined' or cfg['modelsel'] == 'loocv' or cfg.get('size')
                                         or cfg['opt_gp'] == 'Nelder-Mead' or cfg['opt_bo'] == 'CMA-ES'):
            plan['age'] = 1
        left = cfg['num_iter']
        while left > 0:
            k = rng.randint(1, left)
            plan['parts'].append(k)
            left -= k
        return plan
    for _ in range(rng.choice([1, 1, 2, 3])):
        u = rng.random()
        if u < 0.5:
            plan['crashes'].append(['c', int(10 ** rng.uniform(0, 3.2))])
        elif u < 0.7:
            plan['crashes'].append(['f', int(10 ** rng.uniform(0, 4.0))])
        elif u < 0.85:
            plan['crashes'].append(['before', rng.randrange(0, 5)])
        else:
            plan['crashes'].append(['after', rng.randrange(0, 5)])
    return plan


def set_epoch(w, n):
    w.new_epoch(0, n)
    w.now = w.t0 + 1000.0 * n


def initials(plan):
    """The initial points the caller would hand in or regenerate from the seed."""
    cfg = plan['cfg']
    kind = plan['api'].split('.')[-1]
    if kind in ('inputs', 'all'):
        return wl.initial_points(cfg, cfg['num_init'], ('c05', plan['world']))
    m = wl.make_model(cfg)
    return m.get_initials(cfg['init'], cfg['num_init'], seed=cfg['seed'])


def start_phase(plan, w, journal, obj):
    """What the caller's process does, given the journal; returns (X, Y)."""
    cfg = plan['cfg']
    ni = cfg['num_init']
    n0 = len(journal)
    if n0 == 0:
        r = wl.drive(cfg, plan['api'], obj, ('c05', plan['world']))
    else:
        X0 = initials(plan)
        set_epoch(w, n0)         # regenerating the initial points may draw randomness
        X = np.array([x for x, _ in journal])
        Y = np.array([[y] for _, y in journal])
        for i in range(n0, ni):
            v = obj(np.array(X0[i]))
            X = np.vstack((X, X0[i]))
            Y = np.vstack((Y, np.reshape(np.array(v, dtype=float), (1, 1))))
        left = cfg['num_iter'] - (X.shape[0] - ni)
        if left == 0:
            return X, Y
        r = wl.drive(cfg, plan['resume'] + '.all', obj, ('c05', plan['world']), num_iter=left,
                     X0=X, Y0=Y)
    if r.error is not None:
        raise Violation('aborted', 'the %s phase raised %s' % (
            'resumed' if n0 else 'first', describe(r.error)))
    return r.X, r.Y


def make_obj(plan, w, n0):
    cfg = plan['cfg']
    obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
    st = {'n': n0}

    def after(i):
        st['n'] += 1
        set_epoch(w, st['n'])
    obj.after = after
    return obj


def crashing_phase(plan, w, journal, crash):
    """Run a phase in a child that is killed; returns (new journal records, place)."""
    r, wfd = os.pipe()
    d = plan['cfg']['d']
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            set_epoch(w, len(journal))
            obj = make_obj(plan, w, len(journal))
            epoch = obj.after

            def die(place):
                os.write(wfd, b'P' + place.encode()[:200].ljust(200))
                os._exit(9)

            def before(i, x):
                if crash[0] == 'before' and i == crash[1]:
                    die('before evaluation')

            def after(i):
                xin, v = obj.calls[-1]
                os.write(wfd, b'E' + struct.pack('<%dd' % (d + 1), *(list(np.ravel(xin)) + [v])))
                if crash[0] == 'after' and i == crash[1]:
                    die('after evaluation')
                epoch(i)
            obj.before, obj.after = before, after

            def on_line(nf, nc, coarse, fr):
                if (crash[0] == 'f' and nf == crash[1]) or \
                        (crash[0] == 'c' and coarse and nc == crash[1]):
                    die('%s:%d' % (fr.f_code.co_filename.rsplit('/', 1)[-1], fr.f_lineno))
            if crash[0] in 'fc':
                with sched.LineTracer(on_line):
                    start_phase(plan, w, journal, obj)
            else:
                start_phase(plan, w, journal, obj)
        except BaseException:  # pylint: disable=broad-except
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    recs, place, pos = [], None, 0
    while pos < len(data):
        if data[pos:pos + 1] == b'E':
            vals = struct.unpack('<%dd' % (d + 1), data[pos + 1:pos + 1 + 8 * (d + 1)])
            recs.append((np.array(vals[:d]), vals[d]))
            pos += 1 + 8 * (d + 1)
        else:
            place = data[pos + 1:pos + 201].decode().strip()
            pos += 201
    return recs, place


def first_diff(a, b):
    n = min(len(a['X']), len(b['X']))
    for i in range(n):
        if not (wl.same(a['X'][i], b['X'][i]) and wl.same(a['Y'][i], b['Y'][i])):
            return 'evaluation %d: %s -> %r instead of %s -> %r' % (
                i, a['X'][i].tolist(), float(a['Y'][i, 0]), b['X'][i].tolist(), float(b['Y'][i, 0]))
    return 'lengths %d and %d' % (len(a['X']), len(b['X']))


def detour(plan, w, api, b, m, i):
    cfg = plan['cfg']
    ra = wl.range_array(cfg)
    X = wl.initial_points(cfg, 3 + i, ('c05-detour', plan['world'], i))
    Y = np.array([[wl.fun_value(cfg['fun'], ra, x)] for x in X])
    Y = {'low': Y - 3.0 - np.max(np.abs(Y)), 'high': Y + 3.0 + np.max(np.abs(Y)),
         'far': -2.0 * Y + 1.0, 'aged': Y}[plan['detour']]
    w.fire('detour_' + plan['detour'])
    for _ in range(plan['age'] if plan['detour'] == 'aged' and i == 0 else 1):
        if api == 'func.all':
            kw = {'str_mlm_method': cfg['mlm']} if cfg['surrogate'] == 'gp' else {}
            m.optimize(X, Y, str_sampling_method=cfg['samp'], num_samples=cfg['nsamp'], **kw)
        else:
            b.optimize_single_iteration(X, Y)


def split_run(plan, w):
    """The budget split over several rounds of one or several objects."""
    cfg = plan['cfg']
    obj = make_obj(plan, w, 0)
    kind = plan['api'].split('.')[-1]
    set_epoch(w, 0)
    X0 = initials(plan)
    if kind == 'all':
        Y = np.array([[wl.fun_value(cfg['fun'], wl.range_array(cfg), x)] for x in X0])
        obj = make_obj(plan, w, len(X0))
        set_epoch(w, len(X0))
    else:
        Y = np.array([[float(np.ravel(obj(np.array(x)))[0])] for x in X0])
    X = X0
    b = m = None
    for i, k in enumerate(plan['parts']):
        api = plan['resume'] + '.all'
        if plan['split'] == 'mixed' and cfg['surrogate'] == 'gp':
            api = ['class.all', 'func.all'][(i + len(plan['parts'])) % 2]
        if plan['split'] == 'fresh' or (b is None and m is None):
            b = wl.make_bo(cfg, obj, num_iter=1)
            m = wl.make_model(cfg) if cfg['surrogate'] == 'gp' else None
        if plan.get('detour'):
            # the object is used for another history in between
            detour(plan, w, api, b, m, i)
            set_epoch(w, X.shape[0])
        if api == 'func.all':
            steps = [k]
        else:
            steps = [1] * k
        for s in steps:
            r = wl.drive(cfg, api, obj, None, bo_obj=b, model=m, num_iter=s, X0=X, Y0=Y)
            if r.error is not None:
                raise Violation('aborted', 'a continued round raised %s' % describe(r.error))
            X, Y = r.X, r.Y
    return {'X': X, 'Y': Y, 'error': None}


def execute(plan):
    cfg = plan['cfg']
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    places = []
    got = None
    with w:
        w.pool_plan = PoolPlan(plan['world'], 0.5)
        kind = plan['api'].split('.')[-1]
        try:
            journal = []
            if kind == 'all':
                X0 = initials(plan)
                journal = [(x, wl.fun_value(cfg['fun'], wl.range_array(cfg), x)) for x in X0]

            def phase():
                set_epoch(w, len(journal))
                X, Y = start_phase(plan, w, journal, make_obj(plan, w, len(journal)))
                return {'X': np.array(X), 'Y': np.array(Y), 'error': None}
            # uninterrupted execution
            if kind == 'all':
                def ref_run():
                    set_epoch(w, len(journal))
                    r = wl.drive(cfg, plan['api'], make_obj(plan, w, len(journal)),
                                 ('c05', plan['world']))
                    require(r.error is None, 'aborted', 'the uninterrupted run raised %s',
                            describe(r.error) if r.error else '')
                    return {'X': r.X, 'Y': r.Y, 'error': None}
                ref = in_fork(ref_run)
            else:
                ref = in_fork(phase)
            if plan['split']:
                got = in_fork(lambda: split_run(plan, w))
                places = [('split', plan['split'], tuple(plan['parts']))]
                w.fire('split_' + plan['split'], len(plan['parts']))
            else:
                for c in plan['crashes']:
                    recs, place = crashing_phase(plan, w, journal, c)
                    if place is not None:
                        w.fire('crash_' + {'f': 'line', 'c': 'line'}.get(c[0], c[0] + '_evaluation'))
                        places.append((len(journal) + len(recs), place))
                        w.probe('crash_during_' + ('initial' if len(journal) + len(recs) < cfg['num_init']
                                                   else 'iterations'))
                    journal = journal + recs
                    if len(journal) >= cfg['num_init'] + cfg['num_iter']:
                        break
                got = in_fork(phase)
            for i, (x, y) in enumerate(journal):
                require(wl.same(x, ref['X'][i]) and y == ref['Y'][i, 0], 'diverged',
                        'journalled evaluation %d differs from the uninterrupted run: %s instead of %s',
                        i, x.tolist(), ref['X'][i].tolist())
            require(got['X'].shape == ref['X'].shape, 'budget',
                    'the resumed optimisation made %d evaluations, the uninterrupted one %d',
                    len(got['X']), len(ref['X']))
            require(wl.same(got['X'], ref['X']) and wl.same(got['Y'], ref['Y']), 'diverged',
                    'resumed and uninterrupted optimisation differ (%s): %s', places,
                    first_diff(got, ref))
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    sig = (plan['api'], plan['resume'], cfg['surrogate'], cfg['opt_bo'], places)
    return result(w, sig, viol, nontrivial=bool(w.fired),
                  digest=h((places, harr(got['X'], got['Y']) if got else None)),
                  note='crashes/splits: %s' % places)
