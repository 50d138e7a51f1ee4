"""C08: parallel forest prediction equals row-by-row prediction, or raises."""
import numpy as np

from sim import seams, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, pack,
                            same_outcome, show, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 900, 'thorough': 40000}
RULE = ('one run = one forest and query set predicted under a seeded worker count, task latencies '
        '(completion order) and worker faults, or a whole random-forest round under two worker '
        'configurations; non-trivial = work was split over at least two tasks or a fault fired; '
        'distinct = different size, worker count, completion order and faults')
MEASURE = 'hash of (rows, workers, completion orders, faults hit, outcome)'
SIM_COMPONENTS = SIM_DEFAULT + ['completion order, latency and faults of worker tasks']
REAL_COMPONENTS = REAL_DEFAULT + ['task code runs in forked children behind a pickle boundary']
ASSUMPTIONS = ['a worker returns the value of its task or the task fails as a whole']
SHRINK_LISTS = ('task_faults', 'create_faults')
SHRINK_INTS = ((('rows',), 1), (('trees',), 1), (('cpu',), 1), (('n',), 1))

KINDS = ['MemoryError', 'OSError', 'ENOMEM', 'RuntimeError', 'ValueError', 'KeyError']


def generate(rng, tier, idx):
    mode = rng.choice(['predict'] * 4 + ['round', 'posterior'])
    plan = {'mode': mode, 'world': rng.randrange(2 ** 40), 'cpu': rng.choice([1, 1, 2, 3, 4, 8, 16, 64]),
            'rows': rng.choice([1, 2, 50, 99, 100, 101, 102, 150, 199, 200, 201, 230, 300, 301, 350,
                                rng.randint(1, 420), rng.choice([420, 1001, 2500])]),
            'trees': rng.choice([1, 2, 5, 9]), 'n': rng.choice([1, 2, 3, 6, 11]),
            'd': rng.choice([1, 2, 3]), 'depth': rng.choice([1, 2, 5]),
            'lat': rng.choice([0.0, 0.5, 5.0]), 'latseed': rng.randrange(2 ** 30),
            'task_faults': [], 'create_faults': [], 'close': rng.random() < 0.4,
            'layout': rng.choice(['C', 'C', 'F', 'strided', 'reversed', 'readonly'])}
    if rng.random() < 0.45:
        for _ in range(rng.randint(1, 3)):
            plan['task_faults'].append([0, rng.randrange(5), rng.choice(KINDS)])
    if rng.random() < 0.12:
        plan['create_faults'].append([0, rng.choice(['OSError', 'ENOMEM', 'MemoryError'])])
    if mode == 'round':
        cfg = wl.gen_cfg(rng, surrogates=('rf',), max_iter=2, max_init=4, stretch=0.1)
        cfg['nsamp'] = rng.choice([60, 100, 101, 130, 205, 260])
        if cfg['samp'] == 'grid':
            cfg['samp'] = 'uniform'
        plan['cfg'] = cfg
        plan['api'] = rng.choice(wl.APIS_CLASS)
        plan['cpu2'] = rng.choice([1, 2, 5, 32])
        if rng.random() < 0.4:
            plan['task_faults'] = [[rng.randrange(2), rng.randrange(3), rng.choice(KINDS)]]
        else:
            plan['task_faults'] = []
            plan['create_faults'] = []
    return plan


def forest(plan):
    from bayeso.trees import trees_random_forest
    r = np.random.RandomState(seams.digest_int('c08', plan['world']) % (2 ** 32))
    n, d = plan['n'], plan['d']
    X = r.uniform(-3, 3, size=(n, d))
    if n > 2 and r.uniform() < 0.3:
        X[1] = X[0]
    if plan.get('close') and n > 2:
        X[2] = X[0] + 10.0 ** r.randint(-12, -6)
    Y = r.normal(size=(n, 1)) * 10.0 ** r.randint(-2, 4)
    np.random.seed(r.randint(2 ** 31))
    t = trees_random_forest.get_random_forest(X, Y, plan['trees'], plan['depth'], 1,
                                              max(1, int(np.sqrt(d))))
    Q = r.uniform(-3.5, 3.5, size=(plan['rows'], d))
    if plan.get('close'):
        # queries on and next to training points and split locations, and repeated ones
        cuts = []

        def walk(node):
            if isinstance(node, dict):
                cuts.append((int(node['index']), float(node['value'])))
                walk(node['left'])
                walk(node['right'])
        for tree in t:
            walk(tree)
        for i in range(len(Q)):
            k = r.randint(6)
            if k == 0:
                Q[i] = X[r.randint(n)]
            elif k == 1:
                Q[i] = X[r.randint(n)] + 10.0 ** r.randint(-13, -5) * r.choice([-1, 1])
            elif k == 2 and cuts:
                j, v = cuts[r.randint(len(cuts))]
                Q[i] = Q[r.randint(i + 1)]
                Q[i, j] = r.choice([v, np.nextafter(v, -9), np.nextafter(v, 9), v + 1e-11, v - 1e-11])
            elif k == 3:
                Q[i] = Q[r.randint(i + 1)]
    lay = plan.get('layout')
    if lay == 'F':
        Q = np.asfortranarray(Q)
    elif lay == 'strided':
        B = np.zeros((2 * len(Q), d + 1))
        B[::2, :d] = Q
        Q = B[::2, :d]
    elif lay == 'reversed':
        Q = Q[::-1]
    elif lay == 'readonly':
        Q.setflags(write=False)
    return X, Y, t, Q


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def faulty(plan):
    return bool(plan['task_faults'] or plan['create_faults'])


def m_predict(plan, w, posterior):
    from bayeso.trees import trees_common
    X, Y, trees, Q = forest(plan)
    Qc = Q.copy()
    rows = [trees_common.predict_by_trees(Q[i:i + 1].copy(), trees) for i in range(len(Q))]
    require(all(m.shape == (1, 1) and s.shape == (1, 1) for m, s in rows), 'shape',
            'prediction of one row is not one value')
    mu = np.concatenate([m for m, _ in rows])
    sd = np.concatenate([s for _, s in rows])
    pp = PoolPlan(plan['latseed'], plan['lat'], plan['task_faults'], plan['create_faults'])
    w.pool_plan = pp
    err = out = None
    try:
        if posterior:
            from bayeso import bo
            m = bo.BOwTrees(np.tile(np.array([[-4.0, 4.0]]), (plan['d'], 1)))
            out = m.compute_posteriors(Q, trees)
            mu, sd = mu[:, 0], sd[:, 0]
        else:
            out = trees_common.predict_by_trees(Q, trees)
    except Exception as e:  # pylint: disable=broad-except
        err = e
    require(pp.open == 0, 'leak', '%d worker pools were left running', pp.open)
    require(wl.same(Q, Qc), 'caller-array', 'prediction modified the query points')
    if err is not None:
        require(pp.faults_hit, 'aborted', 'prediction of %d rows with %d workers raised %s although no '
                'worker failed', plan['rows'], plan['cpu'], describe(err))
        return 'raised', pp
    require(isinstance(out, tuple) and len(out) == 2, 'shape', 'prediction is not a pair')
    require(close(out[0], mu), 'wrong-mean',
            '%d rows, %d workers, completion %s%s: predicted means %s differ from row-by-row prediction',
            plan['rows'], plan['cpu'], pp.completion_orders, ' after a worker failure'
            if pp.faults_hit else '', diff(out[0], mu))
    require(close(out[1], sd), 'wrong-std',
            '%d rows, %d workers, completion %s%s: predicted deviations %s differ from row-by-row '
            'prediction', plan['rows'], plan['cpu'], pp.completion_orders,
            ' after a worker failure' if pp.faults_hit else '', diff(out[1], sd))
    again = trees_common.predict_by_trees(Q[:1], trees)
    require(close(again[0], rows[0][0]) and close(again[1], rows[0][1]), 'forest-modified',
            'prediction modified the forest')
    return 'equal', pp


def diff(a, b):
    a, b = np.ravel(np.asarray(a, dtype=float)), np.ravel(b)
    if a.shape != b.shape:
        return 'of length %d instead of %d' % (a.size, b.size)
    i = int(np.argmax(np.abs(a - b)))
    return '(row %d: %r instead of %r)' % (i, float(a[i]), float(b[i]))


def m_round(plan, w):
    cfg = plan['cfg']

    def one(cpu, lat, faults, cf):
        w.cpu = cpu
        w.pool_plan = PoolPlan(plan['latseed'] + cpu, lat, faults, cf)
        w.new_epoch(0, 'r')
        obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
        n_at = {}
        r = wl.drive(cfg, plan['api'], obj, ('c08', plan['world']))
        n_at['hit'] = len(w.pool_plan.faults_hit)
        return pack(r), n_at['hit'], w.pool_plan.open, len(obj.calls), \
            w.pool_plan.completion_orders, dict(w.fired), r.n_init_calls
    ref, _, op, ncalls, orders, _, _ = in_fork(lambda: one(plan['cpu'], plan['lat'], (), ()))
    require(ref['error'] is None, 'aborted', 'a round without worker faults raised %s', ref['error'])
    require(op == 0, 'leak', '%d worker pools were left running', op)
    out, hit, op, nc, orders2, fired, n_init = in_fork(lambda: one(
        plan['cpu2'], 3.0, plan['task_faults'], plan['create_faults']))
    w.fired.update(fired)
    require(op == 0, 'leak', '%d worker pools were left running', op)
    if out['error'] is not None:
        require(hit, 'aborted', 'the round raised %s although no worker failed', out['error'])
        require(nc <= ncalls, 'budget', 'more evaluations after a worker failure')
        oc = 'raised'
    else:
        require(same_outcome(out, ref), 'worker-dependent',
                'with %d workers the round gives %s, with %d workers %s%s', plan['cpu'], show(ref),
                plan['cpu2'], show(out), ' (a worker failed)' if hit else '')
        oc = 'equal'
    pp = PoolPlan()
    pp.completion_orders = orders + orders2
    pp.faults_hit = [hit] if hit else []
    if pp.completion_orders:
        w.probe('parallel_round')
    return oc, pp


def execute(plan):
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    oc, pp = None, None
    with w:
        try:
            if plan['mode'] == 'round':
                oc, pp = m_round(plan, w)
            else:
                oc, pp = m_predict(plan, w, plan['mode'] == 'posterior')
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    orders = pp.completion_orders if pp else []
    for o in orders:
        if list(o) != sorted(o):
            w.fire('reordered_completion')
    w.probe('mode_' + plan['mode'])
    if oc:
        w.probe('outcome_' + oc)
    sig = (plan['mode'], plan['rows'], plan['cpu'], orders, pp.faults_hit if pp else None, oc)
    return result(w, sig, viol, nontrivial=bool(orders or w.fired),
                  digest=h((oc, orders)), note='%s: completion orders %s' % (oc, orders[:2]))
