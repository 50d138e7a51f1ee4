"""C15: the refit-until-converged mode is the stated state machine under scripted and failing fits."""
import numpy as np

from sim import seams, workload as wl
from sim.props.base import Violation, require, h, harr, result, describe, SIM_DEFAULT, REAL_DEFAULT

LEVEL = 'fault_enumeration'
RUNS = {'quick': 900, 'thorough': 40000}
RULE = ('one run = one to three optimisers in converged mode asked for an interleaved sequence of '
        'suggestions (directly, through the class or in rounds) whose fits return scripted '
        'hyperparameters, raise, or meet transient factorisation failures; non-trivial = a scripted fit '
        'took place; distinct = different interleaving, fit results, faults and histories')
MEASURE = 'hash of (interleaving, entry points, fit script, faults, refit decisions observed)'
SIM_COMPONENTS = SIM_DEFAULT + ['result of the hyperparameter optimiser']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['the hyperparameter optimiser is reached through scipy.optimize.minimize',
               'scripted changes keep a half-per-cent distance from the five-per-cent threshold',
               'a suggestion that fails after its fit may or may not count as the preceding fit']
SHRINK_LISTS = ('ops',)
SHRINK_INTS = ((('cfg', 'nsamp'), 1), (('cfg', 'num_init'), 1))

EXC = ['MemoryError', 'KeyboardInterrupt', 'RuntimeError', 'ValueError', 'InjectedBase', 'LinAlgError']


def generate(rng, tier, idx):
    nopt = rng.choice([1, 1, 1, 2, 2, 3])
    cfgs = []
    for _ in range(nopt):
        cfg = wl.gen_cfg(rng, surrogates=('gp',), mlms=('converged',), max_iter=3, max_init=5)
        cfg['via'] = rng.choice(['model', 'class'])
        cfg['modelsel'] = 'ml'
        cfg['nsamp'] = rng.choice([1, 2])
        cfg['debug'] = rng.random() < 0.2
        if cfg['fun']['kind'] in ('big', 'offset'):
            cfg['fun']['kind'] = 'sin'
        cfgs.append(cfg)
    big = rng.random() < 0.08
    if big:
        cfgs[0]['num_init'] = rng.choice([24, 45, 70, 105, 130])
    style = rng.choice(['mixed', 'mixed', 'settle', 'drift', 'never', 'abab']) if not big else 'settle'
    ops = []
    for _ in range(rng.randint(3, 9) if rng.random() > 0.08 or big else rng.randint(12, 30)):
        r = rng.random()
        if style == 'settle':
            ch = 'small' if r < 0.75 else 'large'
        elif style == 'drift':
            ch = 'edge_above' if r < 0.7 else 'edge_below'
        elif style == 'never':
            ch = rng.choice(['large', 'edge_above', 'swap'])
        elif style == 'abab':
            ch = rng.choice(['back', 'large', 'back2'])
        else:
            ch = rng.choice(['small', 'same', 'large', 'edge_below', 'edge_above', 'swap', 'back', 'huge',
                             'shrink'])
        fault = None
        if rng.random() < 0.3:
            fault = rng.choice([['fit_raise', rng.choice(EXC)], ['acq_raise', rng.choice(EXC)],
                                ['chol', sorted(rng.sample(range(1, 6), rng.randint(1, 2)))]])
        ops.append({'who': rng.randrange(nopt), 'api': rng.choice(['model', 'model', 'class', 'func', 'func']),
                    'entry': rng.choice(['all', 'all', 'inputs', 'round', 'step', 'step', 'step']),
                    'n': rng.choice([1, 1, 2, 3]), 'change': ch, 'amount': round(rng.random(), 3),
                    'hist': rng.choice(['grow', 'grow', 'grow', 'grow', 'same', 'swap', 'shrink', 'jump']),
                    'fault': fault})
    return {'cfg': cfgs[0], 'cfgs': cfgs, 'ops': ops, 'world': rng.randrange(2 ** 40)}


class Opt:
    """One optimiser with its history and the reference state machine."""

    def __init__(self, cfg, k, w, key):
        self.cfg, self.k, self.w = cfg, k, w
        self.obj = wl.Objective(cfg['fun'], wl.range_array(cfg), w)
        self.bo = wl.make_bo(cfg, self.obj)
        self.model = wl.make_model(cfg)
        # two independent optimiser objects: the class' and the plain model
        self.states = {'class': [(None, False)], 'model': [(None, False)]}
        self.hist = {'class': [], 'model': []}     # scripted vectors in order
        self.n = 0
        self.raw = {'class': set(), 'model': set()}     # are responses taken as given?
        self.X = wl.initial_points(cfg, cfg['num_init'], key)
        self.Y = np.array([[wl.fun_value(cfg['fun'], wl.range_array(cfg), x)] for x in self.X])
        self.key = key

    def mutate(self, how):
        ra = wl.range_array(self.cfg)
        self.n += 1

        def fresh(m):
            X = wl.initial_points(self.cfg, m, (self.key, self.n))
            return X, np.array([[wl.fun_value(self.cfg['fun'], ra, x)] for x in X])
        if how == 'grow' or how == 'jump':
            X, Y = fresh(1 if how == 'grow' else 3)
            self.X, self.Y = np.vstack((self.X, X)), np.vstack((self.Y, Y))
        elif how == 'swap':
            self.X, self.Y = fresh(self.X.shape[0])
        elif how == 'shrink' and self.X.shape[0] > 1:
            self.X, self.Y = self.X[:-1].copy(), self.Y[:-1].copy()
        if 9 < self.X.shape[0] < 20:
            self.X, self.Y = self.X[-5:].copy(), self.Y[-5:].copy()


def next_vec(prev_list, x0, change, amount):
    """The scripted result of a fit (same layout as x0)."""
    x0 = np.abs(np.array(x0, dtype=float)) + 0.1
    prev = prev_list[-1] if prev_list and prev_list[-1].shape == x0.shape else None
    if prev is None:
        return x0 * (0.5 + 2.0 * amount)
    sgn = 1.0 if int(amount * 1000) % 2 else -1.0
    if change == 'same':
        v = prev.copy()
    elif change == 'small':
        v = prev * (1.0 + sgn * 0.03 * amount)
    elif change == 'edge_below':
        v = prev * (1.0 + sgn * (0.035 + 0.0146 * np.sqrt(amount)))
    elif change == 'edge_above':
        v = prev * (1.0 + sgn * (0.0504 + 0.025 * amount ** 2))
    elif change == 'large':
        v = prev * (1.2 + amount)
    elif change == 'shrink':
        v = prev * (0.4 + 0.4 * amount)
    elif change == 'huge':
        v = prev.copy()
        v[int(amount * 999) % len(v)] *= 10.0
    elif change == 'swap':
        v = np.roll(prev, 1) * (1.0 + amount * np.arange(len(prev)))
    elif change in ('back', 'back2'):
        k = 2 if change == 'back' else 3
        v = prev_list[-k].copy() if len(prev_list) >= k else prev * 1.5
    else:
        raise AssertionError(change)
    return np.clip(v, 0.05, 50.0)


def vec_of(hyps):
    return np.concatenate(([hyps['signal']], np.ravel(hyps['lengthscales'])))


def change_class(a, b, noise):
    """'conv', 'not' or None if too close to the threshold (with or without noise)."""
    outs = set()
    for extra in ([], [noise]):
        x, y = np.concatenate((extra, a)), np.concatenate((extra, b))
        t, dlt = np.linalg.norm(x), np.linalg.norm(y - x)
        outs.add('conv' if dlt < 0.0499 * t else 'not' if dlt > 0.0501 * t else None)
    return outs.pop() if len(outs) == 1 else None


def execute(plan):
    w = seams.World(plan['world'])
    viol = None
    digest = []
    with w:
        try:
            run(plan, w, digest)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    sig = [(o['who'], o['api'], o['n'], o['change'], o['amount'], o['hist'], o['fault']) for o in plan['ops']]
    return result(w, (sig, [c['cov'] for c in plan['cfgs']], digest), viol,
                  nontrivial=w.probes.get('scripted_fit', 0) > 0, digest=h(digest),
                  note='%d optimisers, %d steps' % (len(plan['cfgs']), len(plan['ops'])))


def run(plan, w, digest):
    from bayeso import covariance
    cur = {'fits': 0, 'vec': None, 'raise_fit': None, 'raise_acq': None, 'injected': None,
           'opt': None, 'slot': None, 'op': None, 'chol': [], 'nchol': 0}

    def minimize(real, fun, x0, *a, **k):
        o = cur['opt']
        if wl.minimize_box(k, a, o.cfg):
            if cur['raise_acq']:
                cur['injected'] = wl.make_exc(cur['raise_acq'])
                cur['raise_acq'] = None
                w.fire('search_raises')
                raise cur['injected']
            return real(fun, x0, *a, **k)
        if cur['raise_fit']:
            cur['injected'] = wl.make_exc(cur['raise_fit'])
            cur['raise_fit'] = None
            w.fire('fit_raises')
            raise cur['injected']
        cur['fits'] += 1
        if cur['fits'] == 1:
            cur['vec'] = next_vec(o.hist[cur['slot']], x0, cur['op']['change'], cur['op']['amount'])
        w.probe('scripted_fit')
        from scipy.optimize import OptimizeResult
        fun(np.array(x0, dtype=float))       # the objective of the fit stays evaluable
        return OptimizeResult(x=cur['vec'].copy(), fun=0.0, success=True, message=b'simulated', nit=1,
                              nfev=1, status=0)
    w.hooks['minimize'] = minimize

    def chol(real, A, *a, **k):
        cur['nchol'] += 1
        if cur['nchol'] in cur['chol']:
            w.fire('factorisation_failure')
            raise np.linalg.LinAlgError('simulated')
        return real(A, *a, **k)
    for n in ('scipy.linalg.cholesky', 'scipy.linalg.cho_factor', 'numpy.linalg.cholesky'):
        w.hooks[n] = chol

    rec = Watch(cur)
    opts = [Opt(c, k, w, ('c15', plan['world'], k)) for k, c in enumerate(plan['cfgs'])]
    for step, op in enumerate(plan['ops']):
        o = opts[op['who'] % len(opts)]
        o.mutate(op['hist'])
        slot = 'class' if op['api'] == 'class' else 'model'
        cur.update(opt=o, slot=slot, op=op, raise_fit=None, raise_acq=None, injected=None, chol=[], nchol=0)
        f = op['fault']
        if f is not None:
            if f[0] == 'fit_raise':
                cur['raise_fit'] = f[1]
            elif f[0] == 'acq_raise':
                cur['raise_acq'] = f[1]
            else:
                cur['chol'] = f[1]
        rec.check = lambda ent: judge(ent, o, slot, step, cur, w, digest, covariance)
        err = None
        try:
            if op['api'] == 'model':
                wl.model_optimize(o.cfg, o.model, o.X, o.Y)
            elif op['api'] == 'class':
                entry = op.get('entry', 'step')
                if entry == 'all':
                    o.bo.optimize_with_all_initial_information(o.X, o.Y)
                elif entry == 'inputs':
                    o.bo.optimize_with_initial_inputs(o.X)
                elif entry == 'round':
                    o.bo.optimize(min(3, o.X.shape[0]), seed=step)
                else:
                    o.bo.optimize_single_iteration(o.X, o.Y)
            elif op.get('entry') == 'inputs':
                from bayeso import wrappers
                wrappers.run_single_round_with_initial_inputs(
                    o.model, o.obj, o.X, op['n'], str_sampling_method_ao=o.cfg['samp'],
                    num_samples_ao=o.cfg['nsamp'], str_mlm_method='converged')
            elif op.get('entry') == 'round':
                from bayeso import wrappers
                wrappers.run_single_round(
                    o.model, o.obj, min(3, o.X.shape[0]), op['n'], str_initial_method_bo=o.cfg['init'],
                    str_sampling_method_ao=o.cfg['samp'], num_samples_ao=o.cfg['nsamp'],
                    str_mlm_method='converged', seed=step)
            else:
                from bayeso import wrappers
                wrappers.run_single_round_with_all_initial_information(
                    o.model, o.obj, o.X, o.Y, op['n'], str_sampling_method_ao=o.cfg['samp'],
                    num_samples_ao=o.cfg['nsamp'], str_mlm_method='converged')
        except Violation:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            if isinstance(e, (seams.SimulatedCrash, seams.SimTimeout)):
                raise
            err = e
        if err is not None:
            require(cur['injected'] is not None, 'aborted', 'step %d raised %s without a failing service',
                    step, describe(err))
            # a failing fit leaves the state as it was
            if f[0] == 'fit_raise':
                require(cur['fits'] == 0, 'state', 'step %d: a failing fit was retried', step)
            elif cur['fits']:
                # the search failed after a fit: the fit may or may not count
                more = []
                for last, frozen in o.states[slot]:
                    if not frozen:
                        more += advance((last, frozen), restore(o, cur['vec']), 0.01)
                o.states[slot] += more
                o.hist[slot].append(cur['vec'])
            digest.append(('failed', type(err).__name__))
        cur['fits'] = 0


def restore(o, vec):
    """Hyperparameters named by a scripted vector (noise fixed)."""
    d = o.cfg['d'] if o.cfg['use_ard'] else 1
    return np.array(vec[-(1 + d):], dtype=float)


def advance(state, v, noise):
    last, _frozen = state
    if last is None:
        return [(v, False)]
    c = change_class(last, v, noise)
    if c is None:
        return [(v, False), (v, True)]
    return [(v, c == 'conv')]


class Watch:
    """Calls check(entry) after every completed suggestion, before anything else happens."""

    def __init__(self, cur):
        from bayeso import bo
        real = bo.BOwGP.optimize
        self.check = None
        me = self

        def optimize(obj, X_train, Y_train, *a, **k):
            cur['fits'] = 0
            X, Y = np.array(X_train, copy=True), np.array(Y_train, copy=True)
            out = real(obj, X_train, Y_train, *a, **k)
            me.check({'X': X, 'Y': Y, 'info': out[1], 'model': obj, 'out': out[0]})
            return out
        bo.BOwGP.optimize = optimize


def judge(ent, o, slot, step, cur, w, digest, covariance):
    info = ent['info']
    hyps = info['hyps']
    v = vec_of(hyps)
    fitted = cur['fits'] > 0
    noise = float(hyps['noise'])
    states = o.states[slot]
    keep = [s for s in states if s[1] != fitted]
    if not keep:
        require(fitted, 'not-refitted', 'step %d: no fit although the last two fits %s differ by more than '
                'five per cent (or there are none)', step, [np.round(x, 4).tolist() for x in o.hist[slot][-2:]])
        raise Violation('refitted', 'step %d: refitted although the fits %s had settled' % (
            step, [np.round(x, 4).tolist() for x in o.hist[slot][-2:]]))
    if fitted:
        want = restore(o, cur['vec'])
        require(v.shape == want.shape and np.allclose(v, want, rtol=1e-9, atol=0), 'hyps',
                'step %d: the fit returned %s but the suggestion reports %s', step, want.tolist(), v.tolist())
        nxt = []
        for s in keep:
            nxt += advance(s, v, noise)
        o.hist[slot].append(np.array(cur['vec']))
        w.probe('refit_decisions')
    else:
        keep2 = [s for s in keep if s[0] is not None and s[0].shape == v.shape and np.array_equal(s[0], v)]
        require(keep2, 'hyps', 'step %d: settled at %s but the suggestion uses %s', step,
                keep[0][0].tolist(), v.tolist())
        nxt = keep2
        w.probe('frozen_decisions')
    uniq = []
    for s in nxt:
        if not any(t[1] == s[1] and np.array_equal(t[0], s[0]) for t in uniq):
            uniq.append(s)
    o.states[slot] = uniq
    # the model is built from the complete current history with these hyperparameters
    X, Y = ent['X'], ent['Y']
    n = X.shape[0]
    cov, inv = np.asarray(info['cov_X_X']), np.asarray(info['inv_cov_X_X'])
    require(cov.shape == (n, n) and inv.shape == (n, n), 'history', 'step %d: model of size %s for %d '
            'recorded points', step, cov.shape, n)
    save, w.hooks = w.hooks, {}
    try:
        ref, _, _ = covariance.get_kernel_inverse(X, hyps, o.cfg['cov'], fix_noise=True)
        acq = -1.0 * np.asarray(ent['model'].compute_acquisitions(
            np.array(info['next_points']), X, np.array(info['Y_normalized']), cov, inv, hyps))
    finally:
        w.hooks = save
    off = ~np.eye(n, dtype=bool)
    scale = max(1.0, float(np.max(np.abs(ref))))
    require(np.allclose(cov[off], ref[off], rtol=1e-7, atol=1e-9 * scale)
            and np.allclose(np.diag(cov), np.diag(ref), rtol=1e-3, atol=1e-3 * scale), 'history',
            'step %d: the model does not describe the current history of %d points with the reported '
            'hyperparameters', step, n)
    require(wl.same(info['Y_original'], Y), 'history', 'step %d: responses differ from the history', step)
    if np.max(Y) - np.min(Y) > 1e-6 * (1 + np.max(np.abs(Y))):
        o.raw[slot].add(bool(wl.same(info['Y_normalized'], Y)))
    require(len(o.raw[slot]) < 2, 'responses', 'step %d: responses are normalised in some suggestions of this '
            'mode and taken as given in others', step)
    a2 = np.asarray(info['acquisitions'], dtype=float)
    require(np.allclose(a2, acq, rtol=1e-5, atol=1e-7 * (1 + np.max(np.abs(acq)))), 'history',
            'step %d: acquisition values %s differ from those of the reported model %s', step,
            a2.tolist(), acq.tolist())
    digest.append((step, bool(fitted), harr(v, ent['out'])))
    cur['fits'] = 0
