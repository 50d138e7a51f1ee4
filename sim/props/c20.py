"""C20: an optimiser that was saved and restored, or copied, continues exactly as the original."""
import copy
import pickle

import numpy as np

from sim import seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, cholesky_faults,
                            SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'exploration'
RUNS = {'quick': 600, 'thorough': 30000}
RULE = ('one run = a sequence of suggestions and rounds of one optimiser, during which a seeded subset of the '
        'steps saves the object (pickle of any protocol, between steps or from inside an evaluation), kills '
        'the process and continues in another process from the saved bytes, or replaces the object by a copy '
        'while the original or the copy is used for something else; the reference is the same sequence on one '
        'object in one process; non-trivial = at least one restore or copy; distinct = different options, '
        'steps and positions of saves, kills and copies')
MEASURE = 'hash of (surrogate, options, entry point, sequence of steps, saves, kills and copies)'
SIM_COMPONENTS = SIM_DEFAULT + ['process deaths (every process life is a fork of the pristine process)']
REAL_COMPONENTS = REAL_DEFAULT + ['pickle, copy']
ASSUMPTIONS = ['objective and prior mean are picklable', 'the randomness of a step does not depend on the process '
               'that runs it']
SHRINK_LISTS = ('ops', 'chol')
SHRINK_INTS = ((('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp', 'rf'),
                     mlms=('regular', 'converged', 'converged', 'combined'), max_d=2, max_iter=2, max_init=4)
    cfg['nsamp'] = min(cfg['nsamp'], 3) if cfg['surrogate'] != 'rf' else min(cfg['nsamp'], 60)
    if cfg['fun']['kind'] in ('big', 'offset'):
        cfg['fun']['kind'] = 'sin'
    slow = cfg['mlm'] == 'combined' or cfg['modelsel'] == 'loocv'
    ops = []
    for _ in range(rng.randint(2, 3 if slow else 6)):
        ops.append([rng.choice(['suggest', 'suggest', 'suggest', 'round']),
                    rng.choice(['none', 'none', 'kill', 'kill', 'copy', 'swap', 'twin', 'inside']),
                    rng.randrange(2 ** 20)])
    if all(o[1] == 'none' for o in ops):
        ops[rng.randrange(len(ops) - 1 or 1)][1] = rng.choice(['kill', 'copy', 'twin'])
    chol = sorted({int(rng.expovariate(1 / 30.0)) + 1 for _ in range(rng.randint(1, 3))}) \
        if rng.random() < 0.25 else []
    return {'cfg': cfg, 'api': rng.choice(['class', 'class', 'model']), 'ops': ops, 'chol': chol,
            'world': rng.randrange(2 ** 40)}


class Prior:
    def __init__(self, kind):
        self.kind = kind

    def __call__(self, X):
        return wl.PRIOR_FUN(self.kind)(X)


class Target:
    """A picklable objective; `spy` (not saved) runs inside the evaluation."""

    def __init__(self, fun, ra):
        self.fun, self.ra = fun, ra
        self.spy = None

    def __getstate__(self):
        return {'fun': self.fun, 'ra': self.ra, 'spy': None}

    def __call__(self, x):
        v = wl.fun_value(self.fun, self.ra, np.ravel(np.array(x, dtype=float)))
        if self.spy is not None:
            self.spy()
        return v


def dump(o, key):
    return pickle.dumps(o, protocol=(2, 3, 4, 5)[key % 4])


def snap(nxt, info):
    keep = {k: v for k, v in info.items() if k in ('next_points', 'acquisitions', 'Y_normalized', 'cov_X_X',
                                                   'inv_cov_X_X')}
    hy = {k: np.asarray(v, dtype=float).tolist() for k, v in (info.get('hyps') or {}).items()}
    return (np.array(nxt, dtype=float).tolist(), sorted((k, harr(v)) for k, v in keep.items()),
            sorted(hy.items()))


class Life:
    """The steps of one object; every step is keyed by its position, never by the process."""

    def __init__(self, plan, w, obj=None, X=None, Y=None):
        self.plan, self.w, self.cfg = plan, w, plan['cfg']
        self.ra = wl.range_array(self.cfg)
        if obj is None:
            t = Target(self.cfg['fun'], self.ra)
            obj = wl.make_bo(self.cfg, t) if plan['api'] == 'class' else wl.make_model(self.cfg)
            X = wl.initial_points(self.cfg, self.cfg['num_init'], ('c20', plan['world']))
            Y = self.value(X)
        self.o, self.X, self.Y = obj, X, Y

    def value(self, X):
        return np.array([[wl.fun_value(self.cfg['fun'], self.ra, x)] for x in X])

    def ask(self, o, X, Y, key):
        self.w.new_epoch(0, key)
        if self.plan['api'] == 'class':
            return o.optimize_single_iteration(X, Y)
        return wl.model_optimize(self.cfg, o, X, Y, seed=None)

    def step(self, k, kind, inside=None):
        if self.plan['chol']:
            cholesky_faults(self.w, self.plan['chol'])
        if kind == 'round' and self.plan['api'] == 'class':
            self.w.new_epoch(0, 1000 + k)
            t = self.o.fun_target
            t.spy = inside
            X, Y = self.o.optimize_with_all_initial_information(self.X, self.Y)[:2]
            t.spy = None
            self.X, self.Y = np.array(X), np.array(Y)
            return ('round', harr(X, Y), np.array(X)[-1].tolist())
        nxt, info = self.ask(self.o, self.X, self.Y, 1000 + k)
        self.X = np.vstack((self.X, np.array(nxt)))
        self.Y = np.vstack((self.Y, self.value(self.X[-1:])))
        return ('suggest', snap(nxt, info))

    def elsewhere(self, o, key):
        """Use an object for something unrelated."""
        X = wl.initial_points(self.cfg, 2 + key % 3, ('c20-other', key))
        Y = self.value(X) * 3.0 + 1.0
        try:
            for j in range(1 + key % 2):
                self.ask(o, X, Y, 50000 + key + j)
        except (np.linalg.LinAlgError, ValueError):
            pass


def reference(plan, w):
    life = Life(plan, w)
    return [life.step(k, op[0]) for k, op in enumerate(plan['ops'])]


def segment(plan, w, state, k0):
    """One process life: steps from k0 until the process is killed or the plan ends."""
    if state is None:
        life = Life(plan, w)
    else:
        data, X, Y = state
        life = Life(plan, w, pickle.loads(data), X, Y)
    out = []
    for k in range(k0, len(plan['ops'])):
        kind, how, key = plan['ops'][k]
        if how == 'copy':               # continue with the copy, the original goes astray
            old, life.o = life.o, (copy.deepcopy(life.o) if key % 2 else pickle.loads(dump(life.o, key)))
            life.elsewhere(old, key)
        elif how == 'twin':             # keep the original, the copy goes astray
            twin = copy.deepcopy(life.o) if key % 2 else pickle.loads(dump(life.o, key))
            life.elsewhere(twin, key)
        elif how == 'swap':             # a copy of a copy, used alternately
            life.o = copy.deepcopy(pickle.loads(dump(life.o, key)))
        saved = []
        if how == 'inside' and kind == 'round':
            spy = (lambda: saved.append(dump(life.o, key)))
            out.append(life.step(k, kind, spy))
        else:
            out.append(life.step(k, kind))
        if how == 'inside' and saved:   # what was saved during an evaluation can be used afterwards
            ghost = pickle.loads(saved[-1])
            life.elsewhere(ghost, key)
        if how == 'kill':
            return out, (dump(life.o, key), life.X, life.Y), k + 1
    return out, None, len(plan['ops'])


def execute(plan):
    w = seams.World(plan['world'], cpu=2)
    viol = None
    got, want = [], []
    wl.PRIOR_FUN = wl.prior_fun
    wl.prior_fun = lambda kind, hook=None: Prior(kind) if kind else None
    with w:
        try:
            try:
                want = in_fork(lambda: attempt(lambda: reference(plan, w)))
            except RuntimeError as e:
                raise Violation('reference', str(e)[-300:]) from e
            if isinstance(want, str):
                w.probe('gave_up')
            else:
                state, k = None, 0
                while k < len(plan['ops']):
                    r = in_fork(lambda s=state, j=k: attempt(lambda: segment(plan, w, s, j)))
                    require(not isinstance(r, str), 'aborted',
                            'a saved, restored or copied optimiser raised %s; the original works', r)
                    out, state, k = r
                    got.extend(out)
                    if state is not None:
                        w.fire('process_death')
                require(len(got) == len(want), 'lost-step', '%d steps instead of %d', len(got), len(want))
                for k, (a, b) in enumerate(zip(got, want)):
                    require(a == b, 'diverged', 'step %d (%s) after %s differs from the original: %s instead of '
                            '%s', k + 1, plan['ops'][k][0], [o[1] for o in plan['ops'][:k + 1]],
                            str(a)[:200], str(b)[:200])
                for _, how, _ in plan['ops']:
                    if how != 'none':
                        w.fire('save_' + how)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    cfg = plan['cfg']
    w.probe('surrogate_' + cfg['surrogate'])
    w.probe('mlm_' + cfg['mlm'])
    sig = (plan['api'], cfg['surrogate'], cfg['mlm'], cfg['acq'], cfg['cov'], [o[:2] for o in plan['ops']])
    return result(w, sig, viol, nontrivial=bool(w.fired), digest=h((got, want)),
                  note='%s %s %s' % (plan['api'], cfg['surrogate'], [o[1] for o in plan['ops']]))


def attempt(fn):
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return describe(e)
