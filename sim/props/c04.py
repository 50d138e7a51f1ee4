"""C04: failures reach the caller untouched, and leave the optimiser usable."""
import numpy as np

from sim import seams, sched, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, pack,
                            same_outcome, show, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 800, 'thorough': 40000}
RULE = ('one run = one round cut short by a failure at a seeded point (objective call, prior-mean call, '
        'inner-optimiser call, or any executed source line of the library), then one more round on the '
        'same object; non-trivial = the failure fired; distinct = different entry point, surrogate, '
        'failure kind and source line / call index where it struck')
MEASURE = 'hash of (entry point, surrogate, failure kind, place where it struck)'
SIM_COMPONENTS = SIM_DEFAULT + ['interrupts at source-line granularity (sys.settrace)']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['an interrupt strikes between two executed source lines of the library',
               'equality with a fresh object is not required in the converged mode']
SHRINK_LISTS = ()
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

INTERRUPTS = ['KeyboardInterrupt', 'KeyboardInterrupt', 'InjectedBase', 'MemoryError', 'SystemExit']


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, mlms=('regular', 'regular', 'combined', 'converged'), max_iter=3, cma=0.03, stretch=0.03)
    api = wl.pick_api(rng, cfg, ts=0.12)
    kind = rng.choice(['objective', 'objective', 'line', 'line', 'line', 'prior', 'service'])
    if cfg['surrogate'] == 'rf' and kind in ('prior',):
        kind = 'line'
    if api == 'ts' and kind == 'prior':
        kind = 'objective'
    plan = {'cfg': cfg, 'api': api, 'kind': kind, 'world': rng.randrange(2 ** 40),
            'cpu': rng.choice([1, 2, 4])}
    if kind == 'objective':
        plan['at'] = rng.randrange(cfg['num_init'] + cfg['num_iter'])
        plan['exc'] = rng.choice(wl.EXC_KINDS)
        n = cfg['num_init'] + cfg['num_iter']
        plan['again'] = [[rng.randrange(n), rng.choice(wl.EXC_KINDS + INTERRUPTS)]
                         for _ in range(rng.choice([0, 1, 2, 3]))]
    elif kind == 'prior':
        cfg['prior'] = rng.choice(['const', 'lin'])
        plan['at'] = int(rng.expovariate(1 / 15.0))
        plan['exc'] = rng.choice(wl.EXC_KINDS)
        if plan['exc'] == 'StopIteration':      # scipy's own stop signal inside minimize
            plan['exc'] = 'InjectedError'
    elif kind == 'service':
        plan['at'] = int(rng.expovariate(1 / 4.0)) + 1
        plan['exc'] = rng.choice(['MemoryError', 'KeyboardInterrupt', 'RuntimeError', 'InjectedBase',
                                  'OSError', 'FloatingPointError'])
    else:
        plan['grain'] = rng.choice(['c', 'c', 'f'])
        plan['at'] = int(10 ** rng.uniform(0, 3.3 if plan['grain'] == 'c' else 4.2))
        plan['exc'] = rng.choice(INTERRUPTS)
        if plan['grain'] == 'f':
            cfg['num_iter'] = min(cfg['num_iter'], 2)
    plan['next_api'] = api if api == 'ts' else rng.choice(
        wl.APIS_CLASS if api.startswith('class.') else wl.APIS_FUNC)
    return plan


def execute(plan):
    cfg = plan['cfg']
    ra = wl.range_array(cfg)
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    where = None
    out = None
    with w:
        w.pool_plan = PoolPlan(plan['world'], 0.5)

        def next_round(b=None, m=None):
            w.new_epoch(0, 'next')
            o = wl.Objective(cfg['fun'], ra, w)
            if b is not None:
                b.fun_target = o
            r = wl.drive(cfg, plan['next_api'], o, ('c04n', plan['world']), bo_obj=b, model=m)
            return pack(r)
        try:
            ref = in_fork(next_round)
            obj = wl.Objective(cfg['fun'], ra, w)
            st = {'exc': None, 'n': 0, 'late': [], 'at': plan['at'], 'kind': plan['exc']}

            def strike(place):
                st['exc'] = wl.make_exc(st['kind'])
                st['where'] = place
                w.fire('%s_%s' % (plan['kind'], st['kind']))
                raise st['exc']

            def before(i, x):
                if st['exc'] is not None:
                    st['late'].append(i)
                elif plan['kind'] == 'objective' and i == st['at']:
                    strike(('call', i))
            obj.before = before

            def prior_hook(X):
                if plan['kind'] == 'prior' and st['exc'] is None:
                    st['n'] += 1
                    if st['n'] > plan['at']:
                        strike(('prior', X.shape[0]))

            def mini(real, fun, x0, *a, **k):
                if plan['kind'] == 'service' and st['exc'] is None:
                    st['n'] += 1
                    if st['n'] >= plan['at']:
                        strike(('minimize', wl.minimize_box(k, a, cfg)))
                return real(fun, x0, *a, **k)
            w.hooks['minimize'] = mini

            b = m = None
            if plan['api'].startswith('class.'):
                b = wl.make_bo(cfg, obj, hook_prior=prior_hook)
            elif plan['api'].startswith('func.'):
                m = wl.make_model(cfg, hook_prior=prior_hook)

            def go():
                return wl.drive(cfg, plan['api'], obj, ('c04', plan['world']), bo_obj=b, model=m)
            if plan['kind'] == 'line':
                fine = plan['grain'] == 'f'

                def on_line(nf, nc, coarse, frame):
                    if st['exc'] is None and ((fine and nf == plan['at'])
                                              or (not fine and coarse and nc == plan['at'])):
                        strike((frame.f_code.co_filename.rsplit('/', 1)[-1], frame.f_lineno))
                with sched.LineTracer(on_line):
                    r = go()
            else:
                r = go()
            for again in [None] + plan.get('again', []):
                if again is not None:       # the objective fails again in another round of the object
                    obj = wl.Objective(cfg['fun'], ra, w)
                    obj.before = before
                    if b is not None:
                        b.fun_target = obj
                    st.update(exc=None, late=[], at=again[0], kind=again[1])
                    r = go()
                if isinstance(r.error, Violation):
                    raise r.error
                if st['exc'] is None:
                    require(r.error is None, 'aborted', '%s raised %s without any failure', plan['api'],
                            describe(r.error) if r.error else '')
                else:
                    where = st['where']
                    require(r.error is not None, 'swallowed',
                            'a %s at %s was swallowed: the round returned normally', st['kind'], where)
                    require(r.error is st['exc'], 'replaced',
                            'a %s at %s surfaced as %s', st['kind'], where, describe(r.error))
                    require(not st['late'], 'evaluated-after-failure',
                            'evaluations %s were requested after the failure at %s', st['late'], where)
                if r.X0c is not None:
                    require(wl.same(r.X0, r.X0c), 'caller-array',
                            "the caller's initial inputs were modified by a failing round")
                if r.Y0c is not None:
                    require(wl.same(r.Y0, r.Y0c), 'caller-array',
                            "the caller's initial outputs were modified by a failing round")
                require(w.pool_plan.open == 0, 'leak', '%d worker pools were left open', w.pool_plan.open)
            # the caller tries again with the same object
            w.hooks.clear()
            before_state = st['exc']
            st['exc'] = st['exc'] or True     # no further strikes
            out = next_round(b, m)
            require(out['error'] is None or out['error'] == ref['error'], 'unusable',
                    'after a %s at %s the next round failed: %s', st['kind'], where, out['error'])
            if cfg['mlm'] != 'converged':
                require(same_outcome(out, ref), 'contaminated',
                        'after a %s at %s the next round of the same object gives %s, a fresh one %s',
                        st['kind'], where, show(out), show(ref))
                w.probe('next_round_compared')
            st['exc'] = before_state
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    sig = (plan['api'], cfg['surrogate'], plan['kind'], plan['exc'], where)
    return result(w, sig, viol, nontrivial=bool(w.fired),
                  digest=h((where, harr(out['X'], out['Y']) if out else None)),
                  note='%s at %s' % (plan['exc'], where))
