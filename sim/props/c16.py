"""C16: forests stay within the data for adversarial outcomes of the random generator."""
import numpy as np

from sim import seams
from sim.pool import PoolPlan
from sim.props.base import Violation, require, h, harr, result, describe, SIM_DEFAULT, REAL_DEFAULT

LEVEL = 'fault_enumeration'
RUNS = {'quick': 2500, 'thorough': 120000}
RULE = ('one run = one or two forests built from seeded data (ties, repeated rows and constant columns '
        'included) while the simulator decides the outcome of every random draw (ordinary, all equal, '
        'first, last, reversed, extreme split locations), then predictions at training points, split '
        'locations and far away points, in process and through the worker pool; non-trivial = at least '
        'one adversarial draw; distinct = different data, options and draw outcomes')
MEASURE = 'hash of (builder, options, data, adversarial draws)'
SIM_COMPONENTS = SIM_DEFAULT + ['outcomes of random draws']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['finite training data; every bootstrap sample has at least one row',
               'trees are nested dictionaries with keys index, value, left and right (their public form)']
SHRINK_LISTS = ('draws', 'rows')
SHRINK_INTS = ((('num_trees',), 1), (('depth_max',), 1), (('ntest',), 1))

DRAWS = ['real', 'real', 'same', 'first', 'last', 'reverse', 'alternate', 'low', 'high', 'nexthigh', 'mid']


def generate(rng, tier, idx):
    d = rng.choice([1, 1, 2, 2, 3, 4])
    n = rng.choice([1, 2, 3, 4, 6, 9, 14, 30, rng.choice([30, 70, 150])])
    ties = rng.choice(['none', 'none', 'grid', 'few', 'close', 'big'])
    ys = rng.choice(['normal', 'normal', 'const', 'few', 'offset', 'huge', 'tiny', 'outlier'])
    rows = []
    off = rng.choice([0.0, 1234.5678, -1e5])
    for i in range(n):
        x = []
        for _ in range(d):
            if ties == 'none':
                v = rng.gauss(0, 3)
            elif ties == 'grid':
                v = float(rng.randrange(3))
            elif ties == 'few':
                v = rng.choice([-1.5, 0.25, 7.0])
            elif ties == 'close':
                v = 1.0 + rng.randrange(4) * 2.0 ** -52
            else:
                v = rng.choice([1e12, -1e12]) * rng.random()
            x.append(v)
        if rows and rng.random() < 0.15:
            x = list(rows[rng.randrange(len(rows))][0])
        if ys == 'normal':
            y = rng.gauss(0, 1)
        elif ys == 'const':
            y = 0.1 + off
        elif ys == 'few':
            y = rng.choice([0.1, 0.7])
        elif ys == 'offset':
            y = off + 1e-3 * rng.random()
        elif ys == 'huge':
            y = rng.gauss(0, 1) * 1e8
        elif ys == 'tiny':
            y = rng.gauss(0, 1) * 1e-9
        else:
            y = 1e6 if i == 0 else rng.random()
        rows.append([x, y])
    builder = rng.choice(['forest', 'generic', 'generic', 'bo'])
    replace = rng.random() < 0.6
    ratio = rng.choice([0.5, 0.8, 1.0] if not replace else [0.5, 1.0, 1.0, 1.5, 2.5])
    if int(n * ratio) < 1:
        ratio = 1.0
    return {'d': d, 'rows': rows, 'builder': builder, 'num_trees': rng.choice([1, 2, 5, 12]),
            'depth_max': rng.choice([1, 2, 3, 5, 8, 15]), 'size_min_leaf': rng.choice([1, 1, 2, 5]),
            'num_features': rng.randint(1, d), 'replace': replace, 'ratio': ratio,
            'split_random': rng.random() < 0.5, 'draws': [rng.choice(DRAWS) for _ in range(rng.choice([0, 3, 8, 20]))],
            'cycle': rng.random() < 0.5, 'ntest': rng.choice([3, 10, 101, 205]),
            'world': rng.randrange(2 ** 40), 'again': rng.random() < 0.3,
            'pool': rng.choice([0.0, 1.0, 5.0]), 'cpu': rng.choice([1, 3, 8])}


class Draws:
    """np.random.* with outcomes decided by the plan; every outcome is a legal one."""

    def __init__(self, w, plan):
        self.w, self.plan, self.n = w, plan, 0
        self.budget = 200000
        self.active = False
        for name in ('choice', 'uniform', 'randint', 'permutation', 'random', 'random_sample', 'rand'):
            real = getattr(np.random, name)
            setattr(np.random, name, self.wrap(name, real))

    def mode(self):
        ds = self.plan['draws']
        i = self.n
        self.n += 1
        self.w.probe('random_draw')
        self.budget -= 1
        if self.budget < 0:
            raise Violation('diverges', 'building the forest used more than 200000 random draws')
        if not ds or not self.active:
            return 'real'
        if i >= len(ds) and not self.plan['cycle']:
            return 'real'
        return ds[i % len(ds)]

    def wrap(self, name, real):
        def f(*a, **k):
            m = self.mode()
            if m == 'real':
                return real(*a, **k)
            out = getattr(self, '_' + name)(m, real, *a, **k)
            if out is None:
                return real(*a, **k)
            self.w.fire('draw_' + m)
            return out
        return f

    def _choice(self, m, real, a, size=None, replace=True, p=None):
        if p is not None or size is None or not isinstance(size, (int, np.integer)):
            return None
        pop = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        n, size = len(pop), int(size)
        if n == 0 or size == 0 or (not replace and size > n):
            return None
        u = seams.digest_int('c16', self.plan['world'], self.n)
        if replace:
            i0, i1 = u % n, (u >> 20) % n
            if m == 'same':
                idx = [i0] * size
            elif m in ('first', 'low'):
                idx = [0] * size
            elif m in ('last', 'high', 'nexthigh'):
                idx = [n - 1] * size
            elif m == 'reverse':
                idx = [(n - 1 - j) % n for j in range(size)]
            elif m == 'alternate':
                idx = [i0 if j % 2 else i1 for j in range(size)]
            else:
                idx = [j % n for j in range(size)]
        else:
            if m in ('first', 'low', 'same', 'mid'):
                idx = list(range(size))
            elif m == 'alternate':
                perm = sorted(range(n), key=lambda j: (j % 2, j))
                idx = perm[:size]
            else:
                idx = list(range(n - 1, n - 1 - size, -1))
        return pop[np.array(idx, dtype=int)]

    def _uniform(self, m, real, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            return None
        low, high = float(low), float(high)
        if m in ('low', 'first'):
            v = low
        elif m in ('nexthigh', 'last', 'same'):
            v = np.nextafter(high, low)
        elif m in ('high', 'reverse'):
            v = high        # documented: may be included due to floating-point rounding
        elif m == 'mid':
            v = low + 0.5 * (high - low)
        else:
            v = np.nextafter(low, high)
        return float(v) if size is None else np.full(size, v)

    def _randint(self, m, real, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            return None
        v = low if m in ('first', 'low', 'same') else high - 1 if m in ('last', 'high', 'nexthigh') else \
            (low + high - 1) // 2
        return int(v) if size is None else np.full(size, v, dtype=dtype)

    def _permutation(self, m, real, x):
        pop = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        return pop[::-1].copy() if m in ('last', 'reverse', 'high', 'nexthigh') else pop.copy()

    def _random(self, m, real, size=None):
        v = 0.0 if m in ('first', 'low', 'same') else 1.0 - 2.0 ** -53 if m != 'mid' else 0.5
        return v if size is None else np.full(size, v)

    _random_sample = _random

    def _rand(self, m, real, *size):
        return self._random(m, real, size or None)


def walk(node, lo, hi, depth, out):
    """Collect (rows, lower, upper, depth) of every leaf; region is lo <= x < hi."""
    i, v = node['index'], node['value']
    require(isinstance(i, (int, np.integer)) and 0 <= i < len(lo) and np.isfinite(v), 'structure',
            'split of dimension %s at %s', i, v)
    left, right = node['left'], node['right']
    if not isinstance(left, dict) and not isinstance(right, dict) and (
            left is right or (len(left) == len(right) and len(left) > 0 and all(
                np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(left, right))
                and not all(a[0][i] < v for a in left))):
        out.append((left, lo, hi, depth))       # an unsplittable node: both sides hold all its rows
        return
    hi2 = hi.copy()
    hi2[i] = min(hi[i], v)
    lo2 = lo.copy()
    lo2[i] = max(lo[i], v)
    for child, l, u in ((left, lo, hi2), (right, lo2, hi)):
        if isinstance(child, dict):
            walk(child, l, u, depth + 1, out)
        else:
            out.append((child, l, u, depth))


def leaf_of(node, x):
    while isinstance(node, dict):
        node = node['left'] if x[node['index']] < node['value'] else node['right']
    return node


def splits(node, acc):
    if isinstance(node, dict):
        acc.append((node['index'], node['value']))
        splits(node['left'], acc)
        splits(node['right'], acc)


def execute(plan):
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    digest = []
    with w:
        try:
            run(plan, w, digest)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    w.probe('builder_' + plan['builder'])
    sig = (plan['builder'], plan['num_trees'], plan['depth_max'], plan['size_min_leaf'], plan['num_features'],
           plan['replace'], plan['ratio'], plan['split_random'], plan['draws'], plan['cycle'], plan['rows'])
    return result(w, sig, viol, nontrivial=any(k.startswith('draw_') for k in w.fired), digest=h(digest),
                  note=plan['builder'])


def run(plan, w, digest):
    from bayeso.trees import trees_common, trees_random_forest, trees_generic_trees
    from bayeso import bo
    rows = plan['rows'] or [[[0.0] * plan['d'], 0.0]]
    X = np.array([r[0] for r in rows], dtype=float)
    Y = np.array([[r[1]] for r in rows], dtype=float)
    n = X.shape[0]
    ratio = plan['ratio'] if int(n * plan['ratio']) >= 1 else 1.0
    Xc, Yc = X.copy(), Y.copy()
    dr = Draws(w, plan)
    w.pool_plan = PoolPlan(plan['world'], plan['pool'])
    model = None
    for rep in range(2 if plan['again'] else 1):
        dr.active = True
        try:
            if plan['builder'] == 'forest':
                trees = trees_random_forest.get_random_forest(
                    X, Y, plan['num_trees'], plan['depth_max'], plan['size_min_leaf'], plan['num_features'])
                want = n
            elif plan['builder'] == 'bo':
                model = model or bo.BOwTrees(np.array([[-5.0, 5.0]] * plan['d']), str_surrogate='rf')
                trees = model.get_trees(X, Y, num_trees=plan['num_trees'], depth_max=plan['depth_max'],
                                        size_min_leaf=plan['size_min_leaf'])
                want = n
            else:
                trees = trees_generic_trees.get_generic_trees(
                    X, Y, plan['num_trees'], plan['depth_max'], plan['size_min_leaf'], ratio,
                    plan['replace'], plan['num_features'], plan['split_random'])
                want = int(n * ratio)
        except Violation:
            raise
        except Exception as e:  # pylint: disable=broad-except
            raise Violation('aborted', 'building a forest from %d rows raised %s' % (n, describe(e)))
        dr.active = False
        require(np.array_equal(X, Xc) and np.array_equal(Y, Yc), 'mutated', 'building changed the training data')
        require(len(trees) == plan['num_trees'], 'structure', '%d trees instead of %d', len(trees),
                plan['num_trees'])
        index = {}
        for j in range(n):
            index.setdefault(X[j].tobytes(), []).append(j)
        for t in trees:
            leaves = []
            walk(t, np.full(plan['d'], -np.inf), np.full(plan['d'], np.inf), 1, leaves)
            cnt = {}
            for leaf, lo, hi, depth in leaves:
                require(len(leaf) > 0, 'empty-leaf', 'a leaf below %s and above %s holds no row', hi.tolist(),
                        lo.tolist())
                require(depth <= plan['depth_max'], 'too-deep', 'a leaf at depth %d, limit %d', depth,
                        plan['depth_max'])
                for x, y in leaf:
                    x, y = np.asarray(x, dtype=float), np.ravel(np.asarray(y, dtype=float))
                    js = index.get(np.ascontiguousarray(x).tobytes())
                    require(js is not None and y.shape == (1,) and any(Y[j, 0] == y[0] for j in js),
                            'foreign-row', 'a leaf holds (%s, %s), which is not a training row', x.tolist(),
                            y.tolist())
                    require(bool(np.all(x >= lo) and np.all(x < hi)), 'wrong-leaf',
                            'row %s sits in the leaf of region [%s, %s)', x.tolist(), lo.tolist(), hi.tolist())
                    key = (x.tobytes(), float(y[0]))
                    cnt[key] = cnt.get(key, 0) + 1
            total = sum(cnt.values())
            require(total == want, 'conservation', 'a tree holds %d rows of a sample of %d', total, want)
            if plan['builder'] == 'generic' and not plan['replace']:
                for (xb, yv), c in cnt.items():
                    have = sum(1 for j in index[xb] if Y[j, 0] == yv)
                    require(c <= have, 'conservation', 'sampling without replacement used a row %d times', c)
            w.probe('leaves_checked', len(leaves))
        predict(plan, w, trees, X, Y, trees_common, model, digest)
        require(np.array_equal(X, Xc) and np.array_equal(Y, Yc), 'mutated', 'prediction changed the training data')


def predict(plan, w, trees, X, Y, trees_common, model, digest):
    acc = []
    for t in trees:
        splits(t, acc)
    r = np.random.RandomState(plan['world'] % (2 ** 32))
    T = []
    for j in range(plan['ntest']):
        k = j % 5
        x = X[r.randint(X.shape[0])].copy()
        if k == 1 and acc:
            i, v = acc[r.randint(len(acc))]
            x[i] = v
        elif k == 2:
            x = x + r.randn(plan['d'])
        elif k == 3:
            x = r.choice([-1e15, 1e15], size=plan['d'])
        elif k == 4 and acc:
            i, v = acc[r.randint(len(acc))]
            x[i] = np.nextafter(v, -np.inf)
        T.append(x)
    T = np.array(T)
    Tc = T.copy()
    try:
        if model is not None:
            mu, sd = model.compute_posteriors(T, trees)
            mu, sd = np.reshape(mu, (-1, 1)), np.reshape(sd, (-1, 1))
        else:
            mu, sd = trees_common.predict_by_trees(T, trees)
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        raise Violation('aborted', 'predicting %d points raised %s' % (len(T), describe(e)))
    require(np.array_equal(T, Tc), 'mutated', 'prediction changed its input')
    require(mu.shape == (len(T), 1) and sd.shape == (len(T), 1), 'shape', 'predictions of shape %s, %s',
            mu.shape, sd.shape)
    lo, hi = float(np.min(Y)), float(np.max(Y))
    scale = max(abs(lo), abs(hi), 1e-300)
    require(bool(np.all(np.isfinite(mu)) and np.all(np.isfinite(sd)) and np.all(sd >= 0)), 'not-finite',
            'predicted mean or deviation not finite and non-negative: %s', sd.ravel().tolist()[:5])
    require(bool(np.all(mu >= lo - 1e-9 * scale) and np.all(mu <= hi + 1e-9 * scale)), 'outside-data',
            'means between %r and %r, outputs between %r and %r', float(mu.min()), float(mu.max()), lo, hi)
    for j in range(len(T)):
        ms, ss = [], []
        for t in trees:
            ys = np.array([float(np.ravel(y)[0]) for _, y in leaf_of(t, T[j])])
            ms.append(ys.mean())
            ss.append(ys.std())
        ms, ss = np.array(ms), np.array(ss)
        m = ms.mean()
        v = np.mean(ss ** 2) + np.mean((ms - m) ** 2)
        require(abs(mu[j, 0] - m) <= 1e-9 * scale, 'mean', 'mean %r at %s, the trees give %r', float(mu[j, 0]),
                T[j].tolist(), float(m))
        require(abs(sd[j, 0] ** 2 - v) <= 1e-8 * scale ** 2, 'variance',
                'variance %r at %s, the law of total variance gives %r', float(sd[j, 0] ** 2), T[j].tolist(),
                float(v))
    w.probe('predictions_checked', len(T))
    digest.append(harr(mu, sd))
