"""C11: a point is evaluated twice only if the search offers nothing else."""
import numpy as np

from sim import seams, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, cholesky_faults,
                            SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 1000, 'thorough': 40000}
RULE = ('one run = one or two rounds in which a seeded subset of the restarts of the inner optimiser '
        'ends on already evaluated points (exactly, or a billionth away; initial, latest or earlier '
        'ones), on each other, or on new points; forests draw candidates from a coarse grid or repeated '
        'seeds; non-trivial = at least one offered candidate was a repetition; distinct = different '
        'configuration shape and pattern of repeated candidates')
MEASURE = 'hash of (entry point, surrogate, per iteration: repeated candidates, repeated suggestion, choice)'
SIM_COMPONENTS = SIM_DEFAULT + ['end points of inner-optimiser restarts']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['repetition = distance below 1e-8; simulated repetitions are at most 1e-9 away, new points '
               'at least 1e-7', 'Thompson sampling does not promise this']
SHRINK_LISTS = ('minim', 'chol', 'rounds')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

KINDS = ['first', 'last', 'any', 'any', 'near', 'near_last', 'sibling', 'wander', 'wander', 'real']
TOL = 1e-8


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp', 'rf'), max_iter=5, cma=0.03, stretch=0.06)
    if cfg['surrogate'] == 'rf':
        cfg['samp'] = 'grid'
        cfg['nsamp'] = rng.choice([1, 2, 3, 4]) if cfg['d'] < 3 else rng.choice([1, 2])
    elif cfg['samp'] == 'grid':
        cfg['samp'] = 'uniform'
    if cfg['surrogate'] != 'rf' and cfg.get('size') != 'cands':
        cfg['nsamp'] = rng.choice([1, 2, 3, 4, 6])
    minim = []
    style = rng.choice(['all', 'most', 'mix', 'mix'])
    for n in range(1, 121 if cfg.get('size') else 25):
        if style == 'all':
            minim.append([n, rng.choice(['first', 'last', 'any', 'near', 'near_last'])])
        elif style == 'most':
            minim.append([n, rng.choice(['first', 'last', 'any', 'near', 'wander'])])
        elif rng.random() < 0.8:
            minim.append([n, rng.choice(KINDS)])
    if cfg['surrogate'] != 'rf' and rng.random() < 0.05:
        cfg['nsamp'] = rng.choice([40, 70, 110])        # many restarts, all of them scripted
        cfg['num_iter'] = min(cfg['num_iter'], 3)
        minim = [[n, 'wander' if n % 3 else rng.choice(['first', 'last', 'any', 'near'])] for n in range(1, 25)]
    apis = ['class.optimize', 'class.inputs', 'class.all']
    if cfg['surrogate'] == 'gp':
        apis += ['func.round', 'func.inputs', 'func.all']
    rounds = [rng.choice(apis)]
    if rng.random() < 0.25:
        rounds.append(rng.choice([a for a in apis if a[:4] == rounds[0][:4]]))
    return {'cfg': cfg, 'minim': minim, 'rounds': rounds, 'world': rng.randrange(2 ** 40),
            'chol': [rng.randrange(1, 80)] if rng.random() < 0.2 else [],
            'cpu': rng.choice([1, 2, 4]), 'phase': rng.randrange(24)}


def is_dup(p, X):
    return bool(np.any(np.linalg.norm(np.asarray(p, dtype=float) - X, axis=1) < TOL))


def execute(plan):
    cfg = plan['cfg']
    ra = wl.range_array(cfg)
    lo, hi = ra[:, 0], ra[:, 1]
    w = seams.World(plan['world'], cpu=plan['cpu'])
    rec = wl.SuggestionRecorder()
    viol = None
    sc = {int(n): k for n, k in plan['minim']}
    st = {'n': plan['phase'], 'sib': None}
    pattern, digest = [], []

    def hook(real, fun, x0, *a, **k):
        if not wl.minimize_box(k, a, cfg):
            return real(fun, x0, *a, **k)
        n = st['n'] = st['n'] + 1
        kind = sc.get((n - 1) % 24 + 1, 'real')
        X = rec.log[-1]['X'] if rec.log else None
        res = real(fun, x0, *a, **k) if kind == 'real' else None
        if kind == 'real' or X is None:
            st['sib'] = res.x if res is not None else None
            return res if res is not None else real(fun, x0, *a, **k)
        key = seams.digest_int('c11', plan['world'], n)
        u = np.array([seams.digest_int('c11u', plan['world'], n, j) % 1000003 / 1000003.0
                      for j in range(cfg['d'])])
        if kind == 'first':
            x = X[0].copy()
        elif kind in ('last', 'near_last'):
            x = X[-1].copy()
        elif kind in ('any', 'near'):
            x = X[key % len(X)].copy()
        elif kind == 'sibling' and st['sib'] is not None:
            x = np.array(st['sib'], dtype=float)
        else:
            x = lo + u * (hi - lo)
        if kind.startswith('near'):
            x = x + 1e-9 * (u - 0.5)
        x = np.minimum(np.maximum(x, lo), hi)
        st['sib'] = x
        w.fire('restart_' + kind)
        from scipy.optimize import OptimizeResult
        return OptimizeResult(x=x, fun=np.ravel(fun(x))[0], success=True, status=0, nit=1, nfev=1,
                              message='scripted')
    with w:
        w.pool_plan = PoolPlan(plan['world'], 0.5)
        w.hooks['minimize'] = hook
        cholesky_faults(w, plan['chol'])
        obj = wl.Objective(cfg['fun'], ra, w)
        b = m = None
        try:
            for k, api in enumerate(plan['rounds']):
                l0 = len(rec.log)
                r = wl.drive(cfg, api, obj, ('c11', plan['world'], k), bo_obj=b, model=m)
                b, m = getattr(r, 'bo', None), getattr(r, 'model', None)
                require(r.error is None, 'aborted', '%s raised %s', api,
                        describe(r.error) if r.error else '')
                log = rec.log[l0:]
                first = r.X.shape[0] - r.n_iter
                for i in range(r.n_iter):
                    hist = r.X[:first + i]
                    x = r.X[first + i]
                    ents = [e for e in log if e['X'].shape == hist.shape and wl.same(e['X'], hist)]
                    require(ents, 'no-suggestion', 'iteration %d was not preceded by a suggestion '
                            'for the history so far', i + 1)
                    e = ents[-1]
                    cand = np.asarray(e['info']['next_points'], dtype=float)
                    acq = np.asarray(e['info']['acquisitions'], dtype=float)
                    dups = [is_dup(c, hist) for c in cand]
                    sd = is_dup(e['out'], hist)
                    xd = is_dup(x, hist)
                    if any(dups):
                        w.fire('repeated_candidate')
                    if not sd:
                        require(wl.same(x, e['out']), 'suggestion-ignored',
                                'iteration %d evaluated %s although the suggestion %s was new', i + 1,
                                x.tolist(), e['out'].tolist())
                        choice = 'suggestion'
                    elif not all(dups):
                        w.fire('repeated_suggestion')
                        require(not xd, 'repeated', 'iteration %d evaluated %s again although %d of '
                                '%d candidates were new', i + 1, x.tolist(), dups.count(False), len(dups))
                        new = [j for j, q in enumerate(dups) if not q]
                        hit = [j for j in new if np.all(cand[j] == x)]
                        require(hit, 'not-a-candidate', 'iteration %d evaluated %s, which is not a '
                                'candidate', i + 1, x.tolist())
                        best = np.nanmin(acq[new])
                        tol = 1e-9 * np.max(np.abs(acq[np.isfinite(acq)]), initial=0.0)
                        require(any(acq[j] <= best + tol for j in hit), 'not-best',
                                'iteration %d evaluated %s (value %r) although a new candidate has '
                                'value %r', i + 1, x.tolist(), float(acq[hit[0]]), float(best))
                        choice = 'next-best'
                    else:
                        w.fire('all_repeated')
                        require(xd, 'invented', 'iteration %d evaluated %s, which is neither a '
                                'candidate nor a known point', i + 1, x.tolist())
                        choice = 'repeat'
                    w.probe('choice_' + choice)
                    pattern.append((tuple(dups), sd, choice))
                digest.append(harr(r.X, r.Y))
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    w.probe('surrogate_' + cfg['surrogate'])
    sig = (plan['rounds'], cfg['surrogate'], pattern)
    return result(w, sig, viol, nontrivial='repeated_candidate' in w.fired, digest=h(digest),
                  note='%s' % [p[2] for p in pattern])
