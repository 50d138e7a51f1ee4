"""C09: reported durations account for where the time went; clocks never steer results."""
import numpy as np

from sim import seams, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, pack,
                            same_outcome, show, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 700, 'thorough': 30000}
RULE = ('one run = one round under a virtual clock where evaluations, hyperparameter fits and '
        'acquisition searches take seeded amounts of simulated time (accounting), or the same round '
        'under a steady clock and under a clock that jumps, runs backwards, stands still or has a coarse '
        'resolution (steps); non-trivial = at least one delay or clock fault fired; distinct = different '
        'entry point, surrogate, delays and clock faults')
MEASURE = 'hash of (entry point, surrogate, optimisers, delays / clock faults applied)'
SIM_COMPONENTS = SIM_DEFAULT + ['durations of evaluations, fits, acquisition searches and worker tasks']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['in accounting runs the clock is steady and computation between the delayed services '
               'takes no simulated time', 'CMA-ES, which reads the clock itself, is not part of the '
               'clock-fault runs']
SHRINK_LISTS = ('delays', 'steps')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

APIS = ['class.optimize', 'class.inputs', 'class.all', 'class.loop']


def generate(rng, tier, idx):
    mode = rng.choice(['account', 'account', 'account', 'steps', 'steps'])
    cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'tp', 'rf'), max_iter=4, max_init=4)
    if mode == 'account' and cfg['surrogate'] == 'gp' and cfg['d'] > 1 and rng.random() < 0.15:
        cfg['opt_bo'] = 'CMA-ES'
    if cfg['surrogate'] == 'rf':
        cfg['nsamp'] = rng.choice([3, 20, 101, 130, 205])
        if cfg['samp'] == 'grid':
            cfg['samp'] = 'sobol'
    api = rng.choice(APIS + (['func.round', 'func.inputs', 'func.all'] if cfg['surrogate'] == 'gp' else []))
    plan = {'mode': mode, 'cfg': cfg, 'api': api, 'world': rng.randrange(2 ** 40),
            'cpu': rng.choice([1, 2, 4]), 'delays': [], 'steps': [],
            'rounds': rng.choice([1, 1, 1, 2])}
    # services by name; the n-th use of a service takes the given time
    if mode == 'account' or rng.random() < 0.4:
        for svc in ('objective', 'fit', 'acq'):
            if rng.random() < 0.85:
                dense = rng.random() < 0.5
                for n in range(16):
                    if dense or rng.random() < 0.3:
                        plan['delays'].append([svc, n, rng.choice(
                            [0.0625, 0.25, 1.0, 3.5, 17.0, 300.0, 7200.0, rng.randrange(1, 999) / 64.0])])
        if rng.random() < 0.5:
            plan['delays'].append(['pool', 0, rng.choice([0.5, 8.0])])
            plan['delays'].append(['trees', 0, 0.125])
    if mode == 'steps':
        for _ in range(rng.randint(1, 6)):
            plan['steps'].append([rng.randrange(1, 60), rng.choice(
                ['jump', 'jump', 'back', 'back', 'freeze', 'thaw', 'coarse', 'epoch', 'zigzag']),
                rng.choice([1e-3, 1.0, 3600.0, 86400.0 * 400])])
    return plan


class Book:
    """What happened to the simulated time: a list of (tag, dt)."""

    def __init__(self, w, plan, cfg):
        self.log = []
        self.n = {}
        self.tag = None
        self.w = w
        self.d = {}
        for svc, n, dt in plan['delays']:
            self.d[(svc, int(n))] = float(dt)
        self.svc = {svc for svc, _, _ in plan['delays']}
        real_advance = w.advance

        def advance(dt):
            t = w.now
            real_advance(dt)
            if w.now != t:
                self.log.append((self.tag or 'acq', w.now - t))     # untagged: worker tasks
        w.advance = advance

        def hook(real, fun, x0, *a, **k):
            tag = 'acq' if wl.minimize_box(k, a, cfg) else 'fit'
            out = real(fun, x0, *a, **k)
            self.spend(tag)
            return out
        w.hooks['minimize'] = hook

        def cma(real, fun, x0, sigma0, *a, **k):
            ra = wl.range_array(cfg)
            u = seams.digest_int('cma9', plan['world'], len(self.log)) % 10007 / 10007.0
            x = ra[:, 0] + u * (ra[:, 1] - ra[:, 0])
            fun(x)
            self.spend('acq')
            return [x, 0.0, 1, 1, 1, x, np.ones(len(x)), None, None, None]
        w.hooks['cma.fmin'] = cma
        if 'trees' in self.svc and cfg['surrogate'] == 'rf':
            for name in ('choice', 'permutation', 'randint'):
                self.slow_global(name)

    def slow_global(self, name):
        real = getattr(np.random, name)

        def f(*a, **k):
            self.tag = 'fit'
            self.w.advance(self.d[('trees', 0)])
            self.tag = None
            self.w.fire('delay_trees')
            return real(*a, **k)
        setattr(np.random, name, f)

    def spend(self, svc):
        n = self.n.get(svc, 0)
        self.n[svc] = n + 1
        dt = self.d.get((svc, n % 16))
        if dt:
            self.w.fire('delay_' + svc)
            self.tag = svc
            self.w.advance(dt)
            self.tag = None


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-5 + 1e-9 * np.abs(b)))


def account(plan, w):
    cfg = plan['cfg']
    if 'pool' in {s for s, _, _ in plan['delays']}:
        w.pool_plan = PoolPlan(plan['world'], [dt for s, _, dt in plan['delays'] if s == 'pool'][0])
    book = Book(w, plan, cfg)
    obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
    rec = wl.SuggestionRecorder()

    def before(i, x):
        book.log.append(('call', i))
        book.spend('objective')
        book.log.append(('ret', i))
    obj.before = before
    b = m = None
    out = []
    for k in range(plan['rounds']):
        del book.log[:]
        l0 = len(rec.log)
        r = wl.drive(cfg, plan['api'], obj, ('c09', plan['world'], k), bo_obj=b, model=m)
        require(r.error is None, 'aborted', '%s raised %s', plan['api'],
                describe(r.error) if r.error else '')
        b, m = getattr(r, 'bo', None), getattr(r, 'model', None)
        # reconstruct the expected durations from the book
        init, all_, fit, acq = [], [], [], []
        cur = {'fit': 0.0, 'acq': 0.0, 'objective': 0.0}
        ncall = 0
        for tag, v in book.log:
            if tag == 'call':
                continue
            if tag == 'ret':
                ncall += 1
                if ncall <= r.n_init_calls:
                    init.append(cur['objective'])
                else:
                    all_.append(cur['fit'] + cur['acq'] + cur['objective'])
                    fit.append(cur['fit'])
                    acq.append(cur['acq'])
                cur = {'fit': 0.0, 'acq': 0.0, 'objective': 0.0}
            else:
                cur[tag] += v
        infos = [e['info'] for e in rec.log[l0:]]
        require(len(infos) == r.n_iter, 'shape', '%d suggestions for %d iterations', len(infos), r.n_iter)
        require(close([i['time_surrogate'] for i in infos], fit), 'surrogate-time',
                'suggestions report %s s of model fitting, but it took %s s',
                [float(i['time_surrogate']) for i in infos], fit)
        require(close([i['time_acq'] for i in infos], acq), 'acquisition-time',
                'suggestions report %s s of acquisition search, but it took %s s',
                [float(i['time_acq']) for i in infos], acq)
        require(close([i['time_overall'] for i in infos], np.add(fit, acq)), 'overall-time',
                'suggestions report %s s in total, but took %s s',
                [float(i['time_overall']) for i in infos], np.add(fit, acq).tolist())
        if r.times[0] is not None:
            require(close(r.times[0], init + all_), 'time-per-evaluation',
                    '%s reports durations %s, actual %s (%d initial)', plan['api'],
                    np.ravel(r.times[0]).tolist(), init + all_, len(init))
            require(close(r.times[1], fit), 'surrogate-time', '%s reports fitting times %s, actual %s',
                    plan['api'], np.ravel(r.times[1]).tolist(), fit)
            require(close(r.times[2], acq), 'acquisition-time',
                    '%s reports acquisition times %s, actual %s', plan['api'],
                    np.ravel(r.times[2]).tolist(), acq)
            w.probe('durations_checked', len(init) + 3 * len(all_))
        out.append(harr(r.X, r.Y, np.array(init + all_)))
    return out


def steps(plan, w):
    cfg = plan['cfg']

    def one(faulty):
        w.new_epoch(0, 'c09')
        book = Book(w, plan, cfg)
        obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
        obj.before = lambda i, x: book.spend('objective')
        st = {'frozen': None, 'coarse': False}
        if faulty:
            sc = {}
            for n, kind, amt in plan['steps']:
                sc.setdefault(int(n), []).append((kind, float(amt)))
            real_wall = w.wall

            def plan_fn(world, n):
                for kind, amt in sc.get(n, ()):
                    w.fire('clock_' + kind)
                    if kind == 'jump':
                        w.skew += amt
                    elif kind == 'back':
                        w.skew -= amt
                    elif kind == 'epoch':
                        w.skew = -w.now
                    elif kind == 'freeze':
                        st['frozen'] = w.now + w.skew
                    elif kind == 'thaw':
                        st['frozen'] = None
                    elif kind == 'coarse':
                        st['coarse'] = True
                    elif kind == 'zigzag':
                        st['zig'] = amt
                if 'zig' in st:
                    w.skew += st['zig'] if n % 2 else -st['zig']
            w.clock_plan = plan_fn

            def wall():
                v = real_wall()
                if st['frozen'] is not None:
                    v = st['frozen']
                return float(int(v)) if st['coarse'] else v
            w.wall = wall
        r = wl.drive(cfg, plan['api'], obj, ('c09s', plan['world']))
        shapes = None if r.times is None or r.times[0] is None else \
            [tuple(np.shape(t)) for t in r.times]
        return pack(r), shapes, len(obj.calls), dict(w.fired), r.n_init_calls, w.clock_reads
    a, sa, na, _, _, reads = in_fork(lambda: one(False))
    b, sb, nb, fired, ninit, reads2 = in_fork(lambda: one(True))
    w.fired.update(fired)
    w.probe('clock_reads', reads2)
    require(a['error'] is None, 'aborted', '%s raised %s under a steady clock', plan['api'], a['error'])
    require(b['error'] is None, 'aborted-by-clock', '%s raised %s when the clock misbehaved',
            plan['api'], b['error'])
    require(same_outcome(a, b), 'steered-by-clock',
            '%s gives %s under a steady clock and %s when the clock misbehaves', plan['api'],
            show(a), show(b))
    require(sa == sb and na == nb, 'shape', 'clock faults changed the number of reported durations: '
            '%s and %s', sa, sb)
    if sa is not None:
        it = plan['cfg']['num_iter']
        require(sa == [(ninit + it,), (it,), (it,)], 'shape', 'durations have shapes %s', sa)
    return [harr(a['X'], a['Y'])]


def execute(plan):
    cfg = plan['cfg']
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    digest = None
    with w:
        try:
            digest = account(plan, w) if plan['mode'] == 'account' else steps(plan, w)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    w.probe('mode_' + plan['mode'])
    w.probe('surrogate_' + cfg['surrogate'])
    sig = (plan['mode'], plan['api'], cfg['surrogate'], cfg['opt_gp'], cfg['mlm'], cfg['nsamp'],
           plan['delays'], plan['steps'], cfg['num_iter'], cfg['num_init'])
    return result(w, sig, viol, nontrivial=bool(w.fired), digest=h(digest),
                  note='%s %s' % (plan['mode'], plan['api']))
