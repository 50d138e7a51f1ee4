"""C01: evaluation ledger - exactly once, in order, recorded faithfully."""
import numpy as np

from sim import seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, describe, cholesky_faults,
                            SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 900, 'thorough': 40000}
RULE = ('one run = one seeded configuration (surrogate, kernel, acquisition, samplers, optimiser, '
        'budget, API entry point, objective and its return type) plus a seeded fault script for the '
        'evaluated party and the numeric services; non-trivial = at least one objective call in the '
        'iteration phase and at least one fault fired; distinct = different hash of configuration '
        'shape, entry points and fired fault sequence')
MEASURE = 'hash of (entry points, surrogate, fault sequence fired, history bits)'
SIM_COMPONENTS = SIM_DEFAULT + ['inner optimiser outcomes (abnormal termination)']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['objective returns one finite real number per call in a form numpy can stack']
SHRINK_LISTS = ('faults', 'chol', 'minim', 'rounds')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, cma=0.03, stretch=0.06)
    rounds = [wl.pick_api(rng, cfg, ts=0.12)]
    if rng.random() < 0.45:
        rounds.append(rounds[0] if rng.random() < 0.4 and rounds[0] != 'ts'
                      else wl.pick_api(rng, cfg, ts=0.0))
    ncalls = (cfg['num_init'] + cfg['num_iter']) * len(rounds)
    faults = []
    for i in range(ncalls):
        if rng.random() < 0.3:
            faults.append([i, 'scribble', None])
        elif rng.random() < 0.2:
            faults.append([i, 'late', None])
        if rng.random() < 0.3:
            faults.append([i, 'latency', round(rng.uniform(0.001, 50.0), 3)])
    if rng.random() < 0.25:
        faults.append([0, 'reuse', None])
    chol = sorted({int(rng.expovariate(1 / 60.0)) + 1 for _ in range(rng.randint(0, 5))}) \
        if rng.random() < 0.5 else []
    minim = [[rng.randrange(1, 30), rng.choice(['abnormal', 'stall', 'duplicate', 'duplicate'])]
             for _ in range(rng.randint(0, 5))] if rng.random() < 0.5 else []
    # under one shared object a second round reuses the optimiser
    return {'cfg': cfg, 'rounds': rounds, 'reuse_object': rng.random() < 0.7, 'faults': faults,
            'chol': chol, 'minim': minim, 'world': rng.randrange(2 ** 40), 'cpu': rng.choice([1, 2, 3, 8]),
            'scribble_results': rng.random() < 0.3, 'scribble_inputs': rng.random() < 0.4,
            'idle': [i for i, a in enumerate(rounds) if not a.startswith('class.') and rng.random() < 0.06]}


def minimize_faults(world, cfg, script, evaluated):
    """Abnormal outcomes of the inner optimiser on acquisition searches."""
    sc = {int(n): k for n, k in script}
    st = {'n': 0}

    def hook(real, fun, x0, *args, **kw):
        box = wl.minimize_box(kw, args, cfg)
        if not box:
            return real(fun, x0, *args, **kw)
        st['n'] += 1
        world.probe('acquisition_restart')
        kind = sc.get(st['n'])
        res = real(fun, x0, *args, **kw)
        if kind == 'abnormal':
            world.fire('optimizer_abnormal')
            res.success = False
            res.status = 2
            res.message = 'ABNORMAL_TERMINATION_IN_LNSRCH'
        elif kind == 'stall':
            world.fire('optimizer_stall')
            res.x = np.array(x0, dtype=float)
            res.success = False
            res.nit = 0
        elif kind == 'duplicate' and evaluated():
            world.fire('optimizer_duplicate')
            pts = evaluated()
            res.x = np.clip(np.array(pts[st['n'] % len(pts)], dtype=float),
                            wl.range_array(cfg)[:, 0], wl.range_array(cfg)[:, 1])
        return res
    world.hooks['minimize'] = hook
    return st


def check_ledger(r, obj, start, rec_log, cfg, api):
    calls = obj.calls[start:]
    n = r.n_init_calls + r.n_iter
    require(obj.shape_bad is None, 'argument-shape',
            'objective call %r was not given one point of the problem dimension',
            obj.shape_bad)
    require(len(calls) == n, 'budget', 'objective evaluated %d times, budget is %d', len(calls), n)
    X, Y = r.X, r.Y
    off = 0
    if r.X0c is not None:
        require(wl.same(r.X0, r.X0c), 'caller-array',
                "caller's initial inputs were modified: %s -> %s", r.X0c.tolist(), r.X0.tolist())
        if r.Y0c is not None:
            require(wl.same(r.Y0, r.Y0c), 'caller-array', "caller's initial outputs were modified")
            off = r.X0c.shape[0]
    total = off + n
    require(isinstance(X, np.ndarray) and X.shape == (total, cfg['d']), 'shape',
            'X has shape %s, expected %s', getattr(X, 'shape', None), (total, cfg['d']))
    require(isinstance(Y, np.ndarray) and Y.shape == (total, 1), 'shape',
            'Y has shape %s, expected %s', getattr(Y, 'shape', None), (total, 1))
    if r.X0c is not None:
        require(wl.same(X[:r.X0c.shape[0]], r.X0c), 'prefix',
                'the initial inputs are not a prefix of the reported inputs')
    if r.Y0c is not None:
        require(wl.same(Y[:off], r.Y0c), 'prefix',
                'the initial outputs are not a prefix of the reported outputs')
    for i, (xin, v) in enumerate(calls):
        require(wl.same(X[off + i], np.ravel(xin)), 'history-x',
                'row %d of X is %s but the objective was called on %s', off + i,
                X[off + i].tolist(), np.ravel(xin).tolist())
        require(float(Y[off + i, 0]) == v, 'history-y',
                'row %d of Y is %r but the objective returned %r', off + i, float(Y[off + i, 0]), v)
    # every suggestion was computed from the complete history up to that point
    hist = [e for e in rec_log]
    if hist:
        first = r.X.shape[0] - r.n_iter
        sizes = [e['X'].shape[0] for e in hist]
        for i in range(r.n_iter):
            k = first + i
            match = [e for e in hist if wl.same(e['X'], X[:k])]
            require(match, 'stale-model',
                    'no suggestion was computed from the complete history of %d evaluations '
                    '(model was given histories of sizes %s)', k, sizes)
            require(any(np.array_equal(np.asarray(e['Y'], dtype=float), np.asarray(Y[:k], dtype=float))
                        for e in match), 'stale-model',
                    'the suggestion after %d evaluations was computed from outputs %s instead of %s',
                    k, match[0]['Y'].ravel().tolist(), Y[:k].ravel().tolist())
        for e in hist:
            require(e.get('inputs_intact', True), 'caller-array',
                    'computing a suggestion modified the history it was given')


def ts_recorder(log):
    from bayeso import thompson_sampling as ts
    real = ts.thompson_sampling_gp_iteration

    def it(range_X, X, Y, *a, **k):
        ent = {'X': np.array(X, copy=True), 'Y': np.array(Y, copy=True)}
        log.append(ent)
        out = real(range_X, X, Y, *a, **k)
        ent['inputs_intact'] = wl.same(ent['X'], X) and wl.same(ent['Y'], Y)
        return out
    ts.thompson_sampling_gp_iteration = it


def execute(plan):
    cfg = plan['cfg']
    w = seams.World(plan['world'], cpu=plan['cpu'])
    rec = wl.SuggestionRecorder()
    tlog = []
    ts_recorder(tlog)
    viol = None
    digest, kept = [], []
    with w:
        obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w, plan['faults'])
        cholesky_faults(w, plan['chol'])
        minimize_faults(w, cfg, plan['minim'], lambda: [c[0] for c in obj.calls])
        b = m = None
        try:
            ra = wl.range_array(cfg)
            for ind, api in enumerate(plan['rounds']):
                start = len(obj.calls)
                l0, t0 = len(rec.log), len(tlog)
                keep = plan['reuse_object']
                r = wl.drive(cfg, api, obj, ('c01', plan['world'], start),
                             bo_obj=b if keep and api.startswith('class.') else None,
                             model=m if keep and api.startswith('func.') else None,
                             num_iter=0 if ind in plan.get('idle', []) else None)
                b = getattr(r, 'bo', b)
                m = getattr(r, 'model', m)
                if r.error is not None:
                    raise Violation('aborted', '%s raised %s although no evaluation failed' % (
                        api, describe(r.error)))
                log = tlog[t0:] if api == 'ts' else rec.log[l0:]
                check_ledger(r, obj, start, log, cfg, api)
                w.probe('api_' + api)
                digest.append(harr(r.X, r.Y))
                # results handed out earlier stay what they were
                for napi, res, copies in kept:
                    require(wl.same_all(res, copies), 'result-overwritten',
                            'a later round (%s) changed the result already returned by %s', api, napi)
                res = [a for a in (r.X, r.Y) + tuple(r.times or ()) if isinstance(a, np.ndarray)]
                kept.append((api, res, [a.copy() for a in res]))
                if plan.get('scribble_inputs') and r.X0 is not None:
                    # the caller reuses the arrays it passed in for something else
                    for a in (r.X0, r.Y0):
                        if a is not None and a.flags.writeable:
                            w.fire('caller_reuses_inputs')
                            a[...] = -77.5 if np.issubdtype(a.dtype, np.floating) else 7
                    require(wl.same_all(res, kept[-1][2]), 'result-overwritten',
                            'the result of %s changed when the caller reused the arrays it had passed in', api)
                if plan.get('scribble_results') and all(a.flags.writeable for a in res):
                    # the caller reuses the returned arrays for something else
                    w.fire('caller_reuses_result')
                    for a in res:
                        a[...] = 123.25
                    kept[-1] = (api, res, [a.copy() for a in res])
            b_rng = getattr(b, 'range_X', None)
            if b_rng is not None:
                require(wl.same(b_rng, ra), 'caller-array', 'the search space array was modified')
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    w.probe('surrogate_' + cfg['surrogate'])
    sig = (plan['rounds'], cfg['surrogate'], cfg['fun']['ret'], cfg['fun']['kind'],
           sorted(w.fired.items()), cfg['d'], cfg['mlm'], cfg['acq'], cfg['cov'])
    return result(w, sig, viol, nontrivial=bool(w.fired), digest=h(digest),
                  note='rounds %s, %d objective calls' % (plan['rounds'], len(obj.calls)))
