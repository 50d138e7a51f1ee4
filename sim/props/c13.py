"""C13: Thompson sampling evaluates the minimiser of one posterior draw."""
import numpy as np

from sim import seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, describe, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('one run = one Thompson-sampling iteration or round whose posterior draws are decided by the '
        'simulator (real draws, or scripted ones with the minimum at a seeded position, ties included) '
        'and fail a seeded number of times per iteration, numerically or otherwise; non-trivial = a '
        'scripted draw or a failure; distinct = different operation, sampler, size, position of the '
        'minimum and failures')
MEASURE = 'hash of (operation, sampler, candidates, position of the minimum, failures, outcome)'
SIM_COMPONENTS = SIM_DEFAULT + ['outcome of posterior draws']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['at least two candidates', 'draws go through scipy or numpy multivariate normal sampling; '
               'up to three failures in a row count as transient']
SHRINK_LISTS = ('fail', 'draws')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('nc',), 2))

FOREIGN = ['MemoryError', 'KeyboardInterrupt', 'RuntimeError', 'InjectedBase', 'TypeError',
           'FloatingPointError', 'OSError']


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, surrogates=('gp',), max_iter=3, max_init=5, stretch=0.05)
    cfg['debug'] = rng.random() < 0.2
    op = rng.choice(['iteration', 'iteration', 'round'])
    samp = rng.choice(wl.SAMPS if op == 'iteration' else wl.INITS)
    nc = rng.choice([2, 3, 5, 16, 33]) if cfg.get('size') != 'cands' else rng.choice([101, 200, 257])
    if rng.random() < 0.03:
        nc = rng.choice([120, 260, 350, 520])
    if samp == 'grid':
        nc = rng.choice([2, 3] if cfg['d'] < 5 else [2]) if cfg['d'] > 1 else rng.choice([2, 7])
    if not cfg['normalize_Y'] or cfg['num_init'] == 1:
        if cfg['fun']['kind'] in ('big', 'offset'):
            cfg['fun']['kind'] = 'quad'
    plan = {'op': op, 'cfg': cfg, 'samp': samp, 'nc': nc, 'world': rng.randrange(2 ** 40),
            'draws': [rng.choice(['real', 'real', 'pos', 'pos', 'tie', 'last', 'first', 'huge', 'near', 'small'])
                      for _ in range(3)], 'fail': [], 'reps': rng.choice([1, 1, 2])}
    if rng.random() < 0.55:
        for it in range(3):
            if rng.random() < 0.6:
                plan['fail'].append([it, rng.choice([1, 1, 2, 3, 3, 5, 7, 50]),
                                     rng.choice(['ValueError', 'LinAlgError', 'LinAlgError'])])
        if rng.random() < 0.25:
            plan['fail'].insert(rng.randrange(2), [rng.randrange(2), 1, rng.choice(FOREIGN)])
    return plan


class Draws:
    """The sampling seam."""

    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.cur = None
        self.done = []          # successful draws: dict(mean, covs, sample)
        self.attempts = []      # (mean, cov) of the current draw
        self.raised = None
        self.foreign = None     # a failure that is not numeric: the caller must get it
        self.it = 0
        w.hooks['mvn'] = self.frozen
        w.hooks['mvn.rvs'] = self.rvs
        real_np = np.random.multivariate_normal

        def np_mvn(mean, cov, size=None, **k):
            self.maybe_fail(mean, cov)
            return self.draw(lambda: real_np(mean, cov, size=size, **k), mean, cov)
        np.random.multivariate_normal = np_mvn

    def maybe_fail(self, mean, cov):
        self.attempts.append((np.array(mean, dtype=float), np.array(cov, dtype=float)))
        n = len(self.attempts)
        for it, k, kind in self.plan['fail']:
            if int(it) == self.it and n <= int(k):
                self.w.fire('draw_' + kind)
                self.raised = wl.make_exc(kind)
                if not isinstance(self.raised, ValueError):
                    self.foreign = self.raised
                raise self.raised

    def genuine(self, e, mean, cov, record):
        if record:
            self.attempts.append((np.array(mean, dtype=float), np.array(cov, dtype=float)))
        self.raised = e
        if not isinstance(e, ValueError):
            self.foreign = e
        self.w.probe('genuine_' + type(e).__name__)

    def draw(self, real, mean, cov):
        try:
            out = real()
        except BaseException as e:
            self.genuine(e, mean, cov, False)
            raise
        arr = np.array(out, dtype=float, copy=True)
        n = np.ravel(mean).size
        kind = self.plan['draws'][self.it % max(1, len(self.plan['draws']))] if self.plan['draws'] else 'real'
        key = seams.digest_int('draw', self.plan['world'], self.it)
        if kind != 'real' and arr.size == n:
            self.w.fire('draw_' + kind)
            v = np.array([(seams.digest_int(key, j) % 100003) / 1000.0 for j in range(n)])
            pos = {'last': n - 1, 'first': 0}.get(kind, key % n)
            v[pos] = -5.0
            if kind == 'tie':
                v[(pos + 1 + key % max(1, n - 1)) % n] = -5.0
            if kind == 'near':          # a close second, on the other side of the minimum
                v[(pos + 1 + key % max(1, n - 1)) % n] = -5.0 + 1e-8 if n > 1 else -5.0
            if kind == 'small':
                v = v * 1e-9
            if kind == 'huge':
                v = v * 1e150
            arr = v.reshape(arr.shape)
        self.done.append({'mean': np.ravel(np.array(mean, dtype=float)), 'attempts': self.attempts,
                          'sample': np.array(arr, copy=True)})
        self.attempts = []
        self.it += 1
        self.w.probe('draw')
        return arr

    def frozen(self, real, mean, cov, *a, **k):
        outer = self

        class Frozen:
            def __init__(self):
                # half of the failures strike at construction, half when drawing
                self.late = seams.digest_int('late', outer.plan['world'], outer.it) % 2
                if not self.late:
                    outer.maybe_fail(mean, cov)
                try:
                    self.rv = real(mean, cov, *a, **k)
                except BaseException as e:
                    # the covariance itself is refused: an attempt that failed without being scripted to
                    outer.genuine(e, mean, cov, self.late)
                    raise

            def rvs(self, size=1, random_state=None):
                if self.late:
                    outer.maybe_fail(mean, cov)
                return outer.draw(lambda: self.rv.rvs(size=size, random_state=random_state), mean, cov)

            def __getattr__(self, name):
                return getattr(self.rv, name)
        return Frozen()

    def rvs(self, real, mean, cov, size, random_state):
        self.maybe_fail(mean, cov)
        return self.draw(lambda: real.rvs(mean, cov, size=size, random_state=random_state), mean, cov)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * max(1.0, float(np.max(np.abs(b), initial=0.0)))))


def check_choice(w, d, cands, x, d_):
    """The chosen point is the candidate at which the draw is smallest."""
    s = np.ravel(d['sample'])
    n = d['mean'].size
    require(s.size == n, 'draw-count', '%d values were drawn for %d candidates', s.size, n)
    match = [c for c in cands if c.shape[0] == n]
    if not match:
        return None
    best = np.flatnonzero(s == np.min(s))
    ok = any(any(np.array_equal(c[j], np.ravel(x)) for j in best) for c in match[-1:])
    c = match[-1]
    require(ok, 'not-minimiser', 'chosen point %s is not a minimiser of the drawn function (drawn %s, '
            'minimum at %s)', np.ravel(x).tolist(), s.tolist()[:8], c[best[0]].tolist())
    w.probe('choice_checked')
    return int(best[0])


def check_model(w, plan, d, cand, X, Y):
    """As many candidates as requested, and the first attempt draws from the posterior itself."""
    from bayeso.gp import gp
    from bayeso.utils import utils_bo
    cfg = plan['cfg']
    want = plan['nc'] ** (cfg['d'] if plan['samp'] == 'grid' else 1)
    require(cand.shape == (want, cfg['d']), 'candidates', '%s candidates, %d points were requested',
            cand.shape, want)
    Yn = utils_bo.normalize_min_max(Y) if cfg['normalize_Y'] else Y
    mu, _, S = gp.predict_with_optimized_hyps(X, Yn, cand, str_cov='matern52', str_optimizer_method='BFGS')
    require(close(d['mean'], np.ravel(mu)), 'wrong-mean',
            'the draw is centred at %s, the posterior mean is %s', d['mean'].tolist()[:5],
            np.ravel(mu).tolist()[:5])
    require(close(d['attempts'][0][1], S), 'wrong-covariance',
            'the covariance of the draw is not the posterior covariance')
    w.probe('posterior_checked')


def check_ladder(w, d):
    m0, c0 = d['attempts'][0]
    prev = -1.0
    for k, (m, c) in enumerate(d['attempts']):
        require(np.array_equal(np.ravel(m), np.ravel(m0)), 'mean-changed',
                'attempt %d drew around another mean', k + 1)
        diff = c - c0
        diag = np.diag(diff)
        off = diff - np.diag(diag)
        scale = max(1.0, float(np.max(np.abs(c0))))
        require(np.max(np.abs(off), initial=0.0) <= 1e-9 * scale, 'not-diagonal',
                'attempt %d changed the covariance off the diagonal', k + 1)
        lvl = float(np.mean(diag))
        require(np.max(np.abs(diag - lvl)) <= 1e-9 * max(scale, abs(lvl)), 'not-diagonal',
                'attempt %d added different amounts to the diagonal', k + 1)
        if k:
            require(lvl > prev, 'no-escalation', 'attempt %d added %g to the diagonal after %g', k + 1,
                    lvl, prev)
            w.probe('escalation')
        prev = lvl


def execute(plan):
    cfg = plan['cfg']
    ra = wl.range_array(cfg)
    w = seams.World(plan['world'])
    viol = None
    outcome, places = [], []
    cands = []
    from bayeso import thompson_sampling as ts, bo
    real_samples = bo.BOwGP.get_samples

    def get_samples(self, *a, **k):
        out = real_samples(self, *a, **k)
        cands.append(np.array(out, copy=True))
        return out
    bo.BOwGP.get_samples = get_samples
    with w:
        dr = Draws(w, plan)
        try:
            if plan['op'] == 'iteration':
                X = wl.initial_points(cfg, cfg['num_init'], ('c13', plan['world']))
                Y = np.array([[wl.fun_value(cfg['fun'], ra, x)] for x in X])
                Xc, Yc = X.copy(), Y.copy()
                for _ in range(plan['reps']):
                    n0 = len(dr.done)
                    del cands[:]
                    dr.attempts, dr.raised = [], None
                    it0 = dr.it
                    try:
                        x = ts.thompson_sampling_gp_iteration(
                            ra, X, Y, normalize_Y=cfg['normalize_Y'], str_sampling_method=plan['samp'],
                            num_samples=plan['nc'], debug=cfg['debug'])
                    except BaseException as e:  # pylint: disable=broad-except
                        outcome.append(on_error(plan, dr, e, it0))
                        break
                    swallowed(dr)
                    require(wl.same(X, Xc) and wl.same(Y, Yc), 'caller-array', 'the history was modified')
                    require(np.shape(x) == (cfg['d'],), 'shape', 'the point has shape %s', np.shape(x))
                    require(np.all(x >= ra[:, 0]) and np.all(x <= ra[:, 1]), 'outside',
                            'the point is outside the box')
                    require(not dr.attempts, 'failure-ignored',
                            'a point was returned although the draw failed %d times', len(dr.attempts))
                    got = dr.done[n0:]
                    if got:
                        d = got[-1]
                        require(len(got) == 1, 'draw-count', '%d functions were drawn', len(got))
                        check_ladder(w, d)
                        places.append(check_choice(w, d, cands, x, cfg['d']))
                        match = [c for c in cands if c.shape[0] == d['mean'].size]
                        if match:
                            check_model(w, plan, d, match[-1], X, Y)
                    outcome.append('ok')
            else:
                obj = wl.Objective(cfg['fun'], ra, w)
                try:
                    X, Y = ts.thompson_sampling_gp(
                        ra, obj, cfg['num_init'], cfg['num_iter'], normalize_Y=cfg['normalize_Y'],
                        str_sampling_method=plan['samp'], num_samples=plan['nc'], debug=cfg['debug'])
                except BaseException as e:  # pylint: disable=broad-except
                    outcome.append(on_error(plan, dr, e, None))
                    require(len(obj.calls) <= cfg['num_init'] + dr.it, 'evaluated-after-failure',
                            'evaluations went on after the failing draw')
                else:
                    swallowed(dr)
                    require(len(obj.calls) == cfg['num_init'] + cfg['num_iter'], 'budget',
                            '%d evaluations', len(obj.calls))
                    require(not dr.attempts, 'failure-ignored', 'the last draw failed')
                    if dr.done:
                        require(len(dr.done) == cfg['num_iter'], 'draw-count',
                                '%d functions were drawn in %d iterations', len(dr.done), cfg['num_iter'])
                        # one candidate set per iteration, after the initial design
                        sets = [c for c in cands[1:]]
                        for i, d in enumerate(dr.done):
                            check_ladder(w, d)
                            cs = [sets[i]] if len(sets) == cfg['num_iter'] else []
                            n = cfg['num_init'] + i
                            places.append(check_choice(w, d, cs, obj.calls[n][0], 0))
                            if cs:
                                check_model(w, plan, d, cs[0], X[:n], Y[:n])
                    outcome.append('ok')
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    for o in outcome:
        w.probe('outcome_' + o)
    sig = (plan['op'], plan['samp'], plan['nc'], places, sorted(w.fired.items()), outcome)
    return result(w, sig, viol, nontrivial=bool(w.fired), digest=h((places, outcome)),
                  note='%s: minima at %s' % (outcome, places))


def swallowed(dr):
    require(dr.foreign is None, 'swallowed', 'a draw failed with %s, yet the caller got a point',
            describe(dr.foreign) if dr.foreign is not None else '')


def on_error(plan, dr, e, it0):
    """An exception ended the iteration: was it allowed to?"""
    if isinstance(e, (Violation, seams.SimulatedCrash)):
        raise e
    require(dr.raised is not None, 'aborted', 'raised %s although no draw failed', describe(e))
    if dr.foreign is not None:
        require(e is dr.foreign, 'replaced', 'a %s of the draw surfaced as %s',
                type(dr.foreign).__name__, describe(e))
        return 'foreign'
    kind = type(dr.raised).__name__
    if not isinstance(dr.raised, ValueError):
        require(e is dr.raised, 'replaced', 'a %s of the draw surfaced as %s', kind, describe(e))
        return 'foreign'
    require(not (dr.attempts == []), 'aborted', 'raised %s although the last draw succeeded', describe(e))
    require(len(dr.attempts) > 3, 'not-retried', 'gave up after %d failing draws: %s',
            len(dr.attempts), describe(e))
    require(isinstance(e, Exception), 'replaced', 'failing draws surfaced as %s', describe(e))
    check_ladder(dr.w, {'attempts': dr.attempts})
    return 'exhausted'
