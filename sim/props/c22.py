"""C22: random designs, sampled functions and bootstrap samples follow their stated law."""
import numpy as np
import scipy.stats

from sim import seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 20000}
RULE = ('one run = a few hundred to a few thousand draws from one to three objects (designs of one sampler, '
        'functions of one posterior, bootstrap samples of one forest option), interleaved in a seeded order '
        'with other, partly failing activity, under entropy decided by the simulator; counts, structure '
        'and the pooled law are tested; non-trivial = draws from more than one call; distinct = different '
        'kind, sizes, seeding, interleaving and activity')
MEASURE = 'hash of (kind, sizes, seeding, interleaving, activity)'
SIM_COMPONENTS = SIM_DEFAULT
REAL_COMPONENTS = REAL_DEFAULT + ['numpy and scipy samplers']
ASSUMPTIONS = ['a deviation from the stated law is reported when its probability under the law is below 1e-10; '
               'smaller deviations are not seen', 'covariance matrices are well conditioned']
SHRINK_LISTS = ('noise',)
SHRINK_INTS = ()
Z = 6.9                 # two-sided 5e-12 per comparison


def generate(rng, tier, idx):
    kind = rng.choice(['uniform', 'gaussian', 'sobol', 'halton', 'grid', 'gp', 'tp', 'tp', 'trees', 'trees', 'ts'])
    d = rng.choice([1, 2, 2, 3])
    plan = {'kind': kind, 'd': d, 'world': rng.randrange(2 ** 40), 'objects': rng.choice([1, 1, 2, 3]),
            'seeding': rng.choice(['none', 'none', 'distinct']), 'data': rng.randrange(2 ** 30),
            'via': rng.choice(['samples', 'initials']), 'surrogate': rng.choice(['gp', 'tp', 'rf']),
            'debug': rng.random() < 0.1, 'order': rng.randrange(2 ** 30),
            'scale': rng.choice([1.0, 1.0, 1e-3, 1e4]), 'noise': []}
    if kind in ('uniform', 'gaussian', 'sobol', 'halton') and rng.random() < 0.2:
        plan['d'] = rng.choice([4, 5, 6])
    if kind in ('uniform', 'gaussian'):
        plan['n'] = rng.choice([1, 2, 3, 7, 40, 130, 600])
        plan['calls'] = max(8, int(rng.choice([1500, 3000]) / (plan['n'])))
    elif kind in ('sobol', 'halton'):
        plan['n'] = rng.choice([1, 2, 3, 4, 8, 9, 16, 27, 64, 125, 128, 256, 343])
        plan['calls'] = rng.choice([60, 200])
    elif kind == 'grid':
        plan['n'] = rng.choice([1, 2, 3, 4, 5, 9]) if d < 3 else rng.choice([1, 2, 3, 4])
        plan['calls'] = 3
    elif kind == 'ts':
        plan['sampler'] = rng.choice(['uniform', 'sobol', 'halton', 'gaussian'])
        plan['shape'] = rng.choice(['round', 'steps']) if plan['sampler'] != 'gaussian' else 'steps'
        plan['d'] = rng.choice([1, 2, 3])
        plan['n'] = rng.choice([2, 3, 4, 8, 9, 16, 27, 64, 81])
        plan['calls'] = rng.choice([3, 6, 10])
        plan['objects'] = 1
    elif kind in ('gp', 'tp'):
        plan['d'] = rng.choice([1, 2, 2, 3, 5])
        plan['n'] = rng.choice([1, 5, 400])
        plan['calls'] = max(1, 2000 // plan['n'])
        plan['nu'] = rng.choice([2.5, 3.0, 5.0, 30.0, 'inf']) if kind == 'tp' else 'inf'
    else:
        plan['rows'] = rng.choice([3, 5, 8, 12, 12, 25, 50, 80])
        plan['ratio'] = rng.choice([0.5, 1.0, 1.0, 1.5])
        plan['replace'] = rng.random() < 0.6
        if not plan['replace']:
            plan['ratio'] = min(plan['ratio'], 1.0)
        plan['rf'] = rng.random() < 0.4
        plan['calls'], plan['n'] = rng.choice([[1, 300], [10, 40], [60, 8]])
        plan['loc'] = rng.random() < 0.5
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        plan['noise'].append([rng.randrange(plan['calls']), rng.choice(['sample', 'round', 'fail', 'seed']),
                              rng.randrange(2 ** 20)])
    return plan


# -- tests of a law

def close(k, n, p, kind, what, *a):
    """k of n independent events of probability p."""
    dev = abs(k - n * p)
    lim = Z * np.sqrt(max(n * p * (1 - p), 0.0)) + 25.0 * (1 - 2 * abs(p - 0.5)) + 2.0
    require(dev <= lim, kind, what + ': %d of %d instead of about %.1f', *a, k, n, n * p)


def law_uniform(U, kind, what):
    """Rows of U are independent, uniform on the unit cube."""
    N, d = U.shape
    for j in range(d):
        for q in (0.05, 0.25, 0.5, 0.75, 0.95):
            close(int(np.sum(U[:, j] < q)), N, q, kind, '%s: coordinate %d below its %.2f quantile', what, j, q)
    half = U > 0.5
    for j in range(d):
        for i in range(j):
            close(int(np.sum(half[:, i] == half[:, j])), N, 0.5, kind,
                  '%s: coordinates %d and %d on the same side of their medians', what, i, j)
        if N > 1:
            # successive agreement indicators are pairwise independent with probability one half
            close(int(np.sum(half[1:, j] == half[:-1, j])), N - 1, 0.5, kind,
                  '%s: successive values of coordinate %d on the same side of the median', what, j)


def law_calls(parts, who, what):
    """Corresponding points of successive draws of one object are independent and uniform."""
    for k in sorted(set(who)):
        mine = [P for P, o in zip(parts, who) if o == k]
        for row in {0, len(mine[0]) - 1}:
            half = np.array([P[row] for P in mine]) > 0.5
            for j in range(half.shape[1]):
                for lag in (1, 2):
                    same = half[lag:, j] == half[:-lag, j]
                    for off in (0, 1):
                        b = same[off::2]
                        if not len(b):
                            continue
                        p = 2 * min(scipy.stats.binom.cdf(int(b.sum()), len(b), 0.5),
                                    scipy.stats.binom.sf(int(b.sum()) - 1, len(b), 0.5))
                        require(p > 1e-13, 'dependent', '%s: point %d of draws %d apart lies on the same side of the '
                                'middle of coordinate %d %d times of %d', what, row, lag, j, int(b.sum()), len(b))


def noise(plan, w, i):
    for at, what, key in plan['noise']:
        if at != i:
            continue
        w.fire('activity_' + what)
        R = np.array([[0.0, 1.0], [-1.0, 2.0]])
        from bayeso import bo
        if what == 'sample':
            m = bo.BOwGP(R)
            for s in wl.SAMPS[:4]:
                m.get_samples(s, num_samples=1 + key % 5, seed=(None, 0, key)[key % 3])
        elif what == 'seed':
            bo.BOwTP(R).get_initials('uniform', 3, seed=0)
        else:
            def fun(x):
                if what == 'fail':
                    raise RuntimeError('activity')
                return float(np.sum(x))
            try:
                from bayeso.wrappers import BayesianOptimization
                BayesianOptimization(R, fun, 1, num_samples_ao=1).optimize(2, seed=key % 3)
            except RuntimeError:
                pass


def box(plan):
    r = np.random.RandomState(plan['data'])
    lo = r.uniform(-2, 2, plan['d']) * plan['scale']
    return np.stack((lo, lo + r.uniform(0.5, 3, plan['d']) * plan['scale']), axis=1)


def m_design(plan, w):
    from bayeso import bo
    R, n, kind = box(plan), plan['n'], plan['kind']
    cls = {'gp': bo.BOwGP, 'tp': bo.BOwTP, 'rf': bo.BOwTrees}[plan['surrogate']]
    objs = [cls(R, debug=plan['debug']) for _ in range(plan['objects'])]
    order = np.random.RandomState(plan['order'])
    parts, who = [], []
    seed0 = plan['order'] % 100000
    for i in range(plan['calls']):
        noise(plan, w, i)
        who.append(order.randint(len(objs)))
        o = objs[who[-1]]
        seed = None if plan['seeding'] == 'none' else seed0 + i
        if plan['via'] == 'samples':
            P = o.get_samples(kind, num_samples=n, seed=seed)
        else:
            P = o.get_samples(kind, num_samples=n, seed=seed) if kind in ('grid', 'gaussian') and \
                kind not in wl.INITS else o.get_initials(kind, n, seed=seed)
        parts.append(np.array(P))
    return judge_design(plan, R, order, parts, who)


def m_ts(plan, w):
    """The candidates Thompson sampling chooses among: every iteration draws the requested number anew."""
    from bayeso import bo, thompson_sampling as ts
    R, n, k = box(plan), plan['n'], plan['calls']
    r = np.random.RandomState(plan['data'])
    c = r.uniform(R[:, 0], R[:, 1])
    parts, points, given = [], [], []

    def fun(x):
        x = np.asarray(x, dtype=float)
        given.append(x.copy())
        noise(plan, w, max(0, len(given) - 3))
        return float(np.sum(((x - c) / plan['scale']) ** 2))
    real = bo.BOwGP.get_samples

    def get_samples(self, *a, **kw):
        out = real(self, *a, **kw)
        if wl.same(self.range_X, R):
            parts.append(np.array(out, copy=True))
        return out
    if plan['shape'] == 'round':
        bo.BOwGP.get_samples = get_samples
        try:
            X, _ = ts.thompson_sampling_gp(R.copy(), fun, 2, k, str_sampling_method=plan['sampler'],
                                           num_samples=n, debug=plan['debug'])
        finally:
            bo.BOwGP.get_samples = real
        X = np.array(X)
        points = [x for x in X[2:]]
        # the initial points are a design of their own
        parts = parts[-k:]
    else:
        X = R[:, 0] + r.uniform(0, 1, (3, plan['d'])) * (R[:, 1] - R[:, 0])
        Y = np.array([[fun(x)] for x in X])
        del given[:]
        for i in range(k):
            noise(plan, w, i)
            bo.BOwGP.get_samples = get_samples
            try:
                points.append(np.array(ts.thompson_sampling_gp_iteration(
                    R.copy(), X.copy(), Y.copy(), str_sampling_method=plan['sampler'], num_samples=n,
                    debug=plan['debug'])))
            finally:
                bo.BOwGP.get_samples = real
    w.probe('ts_%s' % plan['shape'])
    if plan['sampler'] != 'gaussian':
        # samplers without ties: a point drawn anew never repeats (a shared candidate set repeats its minimiser)
        seen = set(tuple(p) for p in points)
        require(len(seen) >= len(points) - (1 if plan['sampler'] != 'uniform' else 0), 'repeated',
                '%d Thompson-sampling iterations on %s candidates give only %d different points', len(points),
                plan['sampler'], len(seen))
    if len(parts) != k:
        # candidates are drawn by other means: only the points can be judged
        w.probe('ts_unseen_candidates')
        return harr(*points[:3])
    order = np.random.RandomState(plan['order'])
    judge_design(dict(plan, kind=plan['sampler']), R, order, parts, [0] * k)
    return harr(*points[:3])


def judge_design(plan, R, order, parts, who):
    n, kind = plan['n'], plan['kind']
    want = (n ** plan['d'] if kind == 'grid' else n, plan['d'])
    for P in parts:
        require(P.shape == want, 'count', '%s design of %d points in %d dimensions has shape %s, not %s', kind, n,
                plan['d'], P.shape, want)
    U = [(P - R[:, 0]) / (R[:, 1] - R[:, 0]) for P in parts]
    if kind == 'grid':
        for P in parts:
            axes = [np.linspace(a, b, n) for a, b in R]
            G = np.stack([g.ravel() for g in np.meshgrid(*axes, indexing='ij')], axis=1)
            a, b = np.round((P - R[:, 0]) / plan['scale'], 9), np.round((G - R[:, 0]) / plan['scale'], 9)
            require(sorted(map(tuple, a + 0.0)) == sorted(map(tuple, b + 0.0)), 'grid',
                    'the grid with %d points per coordinate is not the full grid over %s', n, R.tolist())
    elif kind == 'uniform':
        law_uniform(np.vstack(U), 'law', 'uniform design')
    elif kind == 'gaussian':
        V = np.vstack(U)
        S = scipy.stats.norm.cdf((V - 0.5) * 4.0)
        for v in (V <= 1e-12, V >= 1 - 1e-12):
            for j in range(plan['d']):
                close(int(np.sum(v[:, j])), len(V), scipy.stats.norm.cdf(-2.0), 'law',
                      'gaussian design: coordinate %d at a bound', j)
        law_uniform(S, 'law', 'gaussian design')
    else:
        for V in U:
            for j in range(plan['d']):
                b = 2 if kind == 'sobol' else (2, 3, 5, 7, 11, 13)[j]
                if n > 1 and abs(round(np.log(n) / np.log(b)) - np.log(n) / np.log(b)) < 1e-9:
                    cells = np.floor(V[:, j] * n * (1 - 1e-12) + 1e-12).astype(int)
                    require(sorted(cells) == list(range(n)), 'structure',
                            '%s design of %d points: coordinate %d does not have one point in each of %d equal '
                            'cells: %s', kind, n, j, n, np.sort(V[:, j]).tolist()[:8])
        law_uniform(np.array([V[order.randint(n)] for V in U]), 'law', '%s design over calls' % kind)
    if kind != 'grid':
        law_calls(U, who, '%s design' % kind)
    if kind != 'grid' and n >= 1:
        first = [tuple(P[0]) for P in parts]
        require(len(set(first)) > len(first) - 3 - (len(first) // 8 if kind == 'gaussian' else 0), 'repeated',
                '%s: %d calls give only %d different first points', kind, len(first), len(set(first)))
    return harr(*parts[:3])


def m_functions(plan, w):
    r = np.random.RandomState(plan['data'])
    d, n = plan['d'], plan['n']
    A = r.uniform(-1, 1, (d, d))
    S = (A.dot(A.T) + 0.5 * np.eye(d)) * plan['scale'] ** 2
    S = (S + S.T) / 2
    mu = r.uniform(-3, 3, d) * plan['scale']
    nu = np.inf if plan['nu'] == 'inf' else plan['nu']
    parts = []
    for i in range(plan['calls']):
        noise(plan, w, i)
        m0, S0 = mu.copy(), S.copy()
        if plan['kind'] == 'gp':
            from bayeso.gp import gp
            F = gp.sample_functions(m0, S0, num_samples=n)
        else:
            from bayeso.tp import tp
            F = tp.sample_functions(nu, m0, S0, num_samples=n)
        require(np.array_equal(m0, mu) and np.array_equal(S0, S), 'modified', 'mean or covariance was modified')
        F = np.array(F)
        require(F.shape == (n, d), 'count', '%d functions over %d points have shape %s', n, d, F.shape)
        parts.append(F)
    F = np.vstack(parts)
    L = np.linalg.cholesky(S)
    Zs = np.linalg.solve(L, (F - mu).T).T
    if nu == np.inf:
        law_uniform(scipy.stats.norm.cdf(Zs), 'law', 'sampled functions (whitened)')
        rad = scipy.stats.chi2.cdf(np.sum(Zs ** 2, axis=1), d)
    else:
        law_uniform(scipy.stats.t.cdf(Zs, nu), 'law', 'sampled functions (whitened), %g degrees of freedom' % nu)
        rad = scipy.stats.f.cdf(np.sum(Zs ** 2, axis=1) / d, d, nu)
    law_uniform(rad[:, None], 'joint-law', 'distance of sampled functions from the mean, nu=%s' % plan['nu'])
    return harr(*parts[:3])


def leaves(node, out):
    if isinstance(node, dict):
        a, b = node['left'], node['right']
        if not isinstance(a, dict) and not isinstance(b, dict) and (
                a is b or (len(a) == len(b) and all(np.array_equal(x[0], y[0]) for x, y in zip(a, b))
                           and not all(x[0][node['index']] < node['value'] for x in a))):
            out.extend(a)               # both sides share one leaf
            return
        leaves(a, out)
        leaves(b, out)
    else:
        out.extend(node)


def m_trees(plan, w):
    from bayeso.trees import trees_generic_trees as tg, trees_random_forest as tr
    n = plan['rows']
    X = np.arange(n, dtype=float)[:, None] * np.ones((1, plan['d']))
    Y = np.random.RandomState(plan['data']).uniform(-1, 1, (n, 1))
    rf = plan['rf']
    ratio, replace = (1.0, True) if rf else (plan['ratio'], plan['replace'])
    m = int(n * ratio)
    counts = np.zeros(n)
    distinct, trees = 0, 0
    pair = 0
    for i in range(plan['calls']):
        noise(plan, w, i)
        if rf:
            forest = tr.get_random_forest(X, Y, plan['n'], 3, 1, 1)
        else:
            forest = tg.get_generic_trees(X, Y, plan['n'], 3, 1, ratio, replace, 1, plan['loc'])
        require(len(forest) == plan['n'], 'count', '%d trees instead of %d', len(forest), plan['n'])
        for t in forest:
            out = []
            leaves(t, out)
            require(len(out) == m, 'count', 'a tree holds %d rows instead of %d', len(out), m)
            c = np.bincount([int(x[0]) for x, _ in out], minlength=n)
            require(replace or c.max() <= 1, 'law', 'a row was drawn twice without replacement')
            counts += c
            distinct += int(np.sum(c > 0))
            pair += int((c[0] > 0) and (c[1] > 0))
            trees += 1
    for i in range(n):
        if replace:
            close(int(counts[i]), trees * m, 1.0 / n, 'law', 'draws of row %d of %d', i, n)
        else:
            close(int(counts[i]), trees, m / n, 'law', 'trees holding row %d of %d', i, n)
    if replace:
        miss = (1 - 1.0 / n) ** m
        close(distinct, trees * n, 1 - miss, 'law', 'rows present in their tree')
        both = 1 - 2 * miss + (1 - 2.0 / n) ** m
    else:
        both = (m / n) * ((m - 1) / (n - 1))
    close(pair, trees, both, 'law', 'trees holding both of two rows')
    return h((counts.tolist(), distinct))


def execute(plan):
    w = seams.World(plan['world'], cpu=2)
    viol, dig = None, ''
    with w:
        try:
            k = plan['kind']
            dig = (m_functions if k in ('gp', 'tp') else m_trees if k == 'trees' else m_ts if k == 'ts' else
                   m_design)(plan, w)
            w.probe('kind_' + k)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    if plan['calls'] > 1:
        w.fire('interleaved_calls', plan['calls'])
    sig = (plan['kind'], plan['d'], plan['n'], plan['calls'], plan['seeding'], plan['objects'], plan['via'],
           [x[:2] for x in plan['noise']])
    return result(w, sig, viol, nontrivial=plan['calls'] > 1, digest=h((dig,)),
                  note='%s n=%d calls=%d' % (plan['kind'], plan['n'], plan['calls']))
