"""C06: concurrent and nested optimisations do not influence each other."""
import numpy as np

from sim import seams, sched, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, pack,
                            same_outcome, show, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'exploration'
RUNS = {'quick': 480, 'thorough': 24000}
RULE = ('one run = two or three caller threads (own optimiser objects, or one shared object), or an '
        'objective that itself runs another optimisation, under a seeded scheduler that preempts at '
        'executed source lines of the library and at simulated evaluation latencies; every client is '
        'compared with the same client running alone; non-trivial = at least one switch inside the '
        'library; distinct = different clients or different sequence of (client, step) switches')
MEASURE = 'hash of the clients and the switch sequence (thread, executed-line number at the switch)'
SIM_COMPONENTS = SIM_DEFAULT + ['thread scheduler (baton, one thread at a time)']
REAL_COMPONENTS = REAL_DEFAULT + ['Python threads']
ASSUMPTIONS = ['preemption happens between executed source lines of the library and while an evaluation '
               'is in progress', 'random forests and Thompson sampling draw from numpy\'s shared global generator, so only '
               'their ledger and box are checked', 'a shared object is not used in the converged mode']
SHRINK_LISTS = ('switches', 'clients')
SHRINK_INTS = ()


def gen_client(rng, shared_cfg=None):
    cfg = shared_cfg or wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp', 'rf'),
                                   mlms=('regular', 'regular', 'regular', 'combined', 'converged'),
                                   max_d=2, max_iter=2, max_init=3)
    cfg['nsamp'] = min(cfg['nsamp'], 3) if cfg['surrogate'] != 'rf' else min(cfg['nsamp'], 110)
    api = wl.pick_api(rng, cfg, ts=0.08)
    lat = [[i, 'latency', round(rng.uniform(0.01, 3.0), 3)]
           for i in range(cfg['num_init'] + cfg['num_iter']) if rng.random() < 0.5]
    return {'cfg': cfg, 'api': api, 'faults': lat}


def generate(rng, tier, idx):
    mode = rng.choice(['independent', 'independent', 'independent', 'shared', 'shared', 'nested'])
    plan = {'mode': mode, 'world': rng.randrange(2 ** 40), 'cpu': rng.choice([1, 2])}
    if mode == 'shared':
        base = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp', 'tp', 'rf', 'rf'), mlms=('regular', 'regular', 'combined'),
                          max_d=2, max_iter=2, max_init=3)
        n = rng.choice([2, 2, 3])
        fam = 'func.' if base['surrogate'] == 'gp' and rng.random() < 0.4 else 'class.'
        plan['clients'] = []
        for _ in range(n):
            c = gen_client(rng, dict(base))
            c['api'] = rng.choice([a for a in wl.APIS_CLASS + wl.APIS_FUNC if a.startswith(fam)])
            plan['clients'].append(c)
    else:
        n = rng.choice([2, 2, 3]) if mode == 'independent' else 2
        plan['clients'] = [gen_client(rng) for _ in range(n)]
        if rng.random() < 0.4:       # identical configurations stress shared names
            plan['clients'] = [dict(plan['clients'][0]) for _ in range(n)]
    sw = []
    u = rng.random()
    if u < 0.2:
        p = rng.choice([1.0, 0.5])
        sw = [['t', k, rng.randrange(3)] for k in range(1, 80) if rng.random() < p]
    elif u < 0.35:
        p = rng.choice([0.6, 0.2, 0.05])
        k0 = int(10 ** rng.uniform(0, 2.5))
        sw = [['e', k, rng.randrange(3)] for k in range(k0, k0 + 200) if rng.random() < p]
    elif u < 0.55:
        for _ in range(rng.randint(1, 5)):
            sw.append(['c', int(10 ** rng.uniform(0, 3.3)), rng.randrange(3)])
    elif u < 0.75:
        for _ in range(rng.randint(1, 6)):
            sw.append(['f', int(10 ** rng.uniform(0, 4.3)), rng.randrange(3)])
    else:
        step = rng.choice([1, 2, 3, 7, 20, 60])
        start = int(10 ** rng.uniform(0, 2.6))
        for k in range(rng.randint(10, 120)):
            sw.append(['c', start + k * step + rng.randrange(max(1, step)), rng.randrange(3)])
    plan['switches'] = sw
    plan['nest_at'] = [rng.randrange(0, 5) for _ in range(2)]
    return plan


class ByClient:
    """One objective object whose behaviour is that of the calling client."""

    def __init__(self, objs):
        self.objs = objs

    def __call__(self, x):
        return self.objs[seams.current_client()](x)


def check_safety(r, obj, cfg):
    require(r.error is None, 'aborted', 'a concurrent round raised %s',
            describe(r.error) if r.error else '')
    n = r.n_init_calls + r.n_iter
    require(len(obj.calls) == n, 'budget', '%d evaluations instead of %d', len(obj.calls), n)
    off = r.X.shape[0] - n
    for i, (x, v) in enumerate(obj.calls):
        require(wl.same(r.X[off + i], x) and float(r.Y[off + i, 0]) == v, 'history',
                'row %d of the history is not the evaluation this client made', off + i)
    ra = wl.range_array(cfg)
    require(np.all(r.X >= ra[:, 0]) and np.all(r.X <= ra[:, 1]), 'outside',
            'a client evaluated a point outside its own box')


def execute(plan):
    clients = plan['clients']
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    trace = []
    digest = []
    rf = any(c['cfg']['surrogate'] == 'rf' for c in clients)
    rec = wl.SuggestionRecorder()
    with w:
        w.pool_plan = PoolPlan(plan['world'], 0.0)

        def objective(i):
            c = clients[i]
            return wl.Objective(c['cfg']['fun'], wl.range_array(c['cfg']), w, c['faults'])

        def alone(i):
            seams.set_client(i + 1)
            c = clients[i]
            r = wl.drive(c['cfg'], c['api'], objective(i), ('c06', plan['world'], i))
            return pack(r)
        try:
            refs = [in_fork(lambda i=i: alone(i)) for i in range(len(clients))]
            del rec.log[:]
            objs = {i + 1: objective(i) for i in range(len(clients))}
            if plan['mode'] == 'nested':
                rs = nested(plan, w, clients, objs)
            else:
                rs = threaded(plan, w, clients, objs, trace)
            for i, c in enumerate(clients):
                out = pack(rs[i])
                digest.append(harr(out['X'], out['Y']))
                if refs[i]['error'] is not None:
                    require(out['error'] == refs[i]['error'], 'diverged',
                            'client %d: %s, alone: %s', i, show(out), show(refs[i]))
                    continue
                check_safety(rs[i], objs[i + 1], c['cfg'])
                if c['cfg']['surrogate'] != 'rf' and c['api'] != 'ts':
                    w.probe('client_compared')
                    require(same_outcome(out, refs[i]), 'diverged',
                            'client %d (%s) obtained %s; running alone it obtains %s', i, c['api'],
                            show(out), show(refs[i]))
            for e in rec.log:
                if e['info'] is not None and 'trees' in e['info']:
                    check_forest_suggestion(w, e)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    sig = (plan['mode'], [(c['api'], c['cfg']['surrogate'], c['cfg']['acq']) for c in clients],
           trace)
    w.probe('mode_' + plan['mode'])
    return result(w, sig, viol, nontrivial=bool(w.fired), digest=h((digest, trace)),
                  trace=trace[:200], note='%s, %d switches' % (plan['mode'], len(trace)))


def check_forest_suggestion(w, e):
    """A forest's suggestion was made from its own data, forest and candidates."""
    info, X, Y = e['info'], e['X'], e['Y']
    require(wl.same(info['Y_original'], Y), 'diverged', 'a forest suggestion reports foreign responses')
    yn = np.asarray(info['Y_normalized'], dtype=float)
    rows = {(tuple(x), float(y)) for x, y in zip(X.tolist(), np.ravel(yn))}

    def leaves(node):
        if isinstance(node, dict):
            for side in ('left', 'right'):
                yield from leaves(node[side])
        else:
            yield from node
    for tree in info['trees']:
        for bx, by in leaves(tree):
            require((tuple(np.ravel(bx).tolist()), float(np.ravel(by)[0])) in rows, 'diverged',
                    'a forest was built from data of another client')
    cand, acq = info['next_points'], info['acquisitions']
    best = int(np.argmin(acq))
    require(np.array_equal(cand[best], e['out']), 'diverged', 'the suggestion %s is not the best of its own '
            'candidates', e['out'].tolist())
    sub = sorted({best, 0, len(cand) - 1, len(cand) // 2, int(np.argmax(acq))})
    val = -np.ravel(e['model'].compute_acquisitions(cand[sub], X, yn, info['trees']))
    scale = max(1e-9, float(np.max(np.abs(val))))
    require(np.max(np.abs(val - acq[sub])) <= 1e-6 * scale, 'diverged',
            'acquisition values %s of a forest suggestion are not those of its own forest %s',
            acq[sub].tolist(), val.tolist())
    w.probe('forest_suggestion_checked')


def threaded(plan, w, clients, objs, trace):
    sc = sched.Scheduler(w, plan['switches'])
    shared = plan['mode'] == 'shared'
    b = m = None
    if shared:
        if clients[0]['api'].startswith('class.'):
            b = wl.make_bo(clients[0]['cfg'], ByClient(objs))
        else:
            m = wl.make_model(clients[0]['cfg'])
        w.probe('shared_object')

    def body(i):
        c = clients[i]
        o = objs[i + 1]
        return wl.drive(c['cfg'], c['api'], o, ('c06', plan['world'], i), bo_obj=b, model=m)
    cs = [sc.add(lambda i=i: body(i)) for i in range(len(clients))]
    sc.run(first=plan['world'])
    trace.extend(sc.trace_sig)
    for c in cs:
        if c.error is not None:
            raise c.error
    return [c.result for c in cs]


def nested(plan, w, clients, objs):
    """Client 2's whole round runs inside one evaluation of client 1."""
    inner = {}
    o1 = objs[1]
    at = plan['nest_at'][0] % max(1, clients[0]['cfg']['num_iter'])

    def before(i, x):
        if i == at and 1 not in inner:
            seams.set_client(2)
            w.fire('nested_round')
            c = clients[1]
            inner[1] = wl.drive(c['cfg'], c['api'], objs[2], ('c06', plan['world'], 1))
            seams.set_client(1)
    o1.before = before
    seams.set_client(1)
    c = clients[0]
    r1 = wl.drive(c['cfg'], c['api'], o1, ('c06', plan['world'], 0))
    if 1 not in inner:
        seams.set_client(2)
        c = clients[1]
        inner[1] = wl.drive(c['cfg'], c['api'], objs[2], ('c06', plan['world'], 1))
    seams.set_client(0)
    return [r1, inner[1]]
