"""C21: malformed requests are refused before anything is evaluated, and leave no trace."""
import numpy as np

from sim import seams, workload as wl
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 40000}
RULE = ('one run = a sequence of valid suggestions and rounds of one optimiser into which a hostile or '
        'confused caller mixes malformed requests (to the same object, to its constructor, to the function '
        'interface and Thompson sampling; between steps or from inside an evaluation), while evaluations '
        'and fits go on; the reference is the valid steps alone; non-trivial = at least one malformed '
        'request; distinct = different options, steps and malformed requests')
MEASURE = 'hash of (surrogate, options, steps, malformed requests and their positions)'
SIM_COMPONENTS = SIM_DEFAULT + ['the misbehaving caller']
REAL_COMPONENTS = REAL_DEFAULT
ASSUMPTIONS = ['malformed = wrong type, number of dimensions, number of rows or columns, inverted or badly '
               'shaped box, non-positive counts, unknown option names; values inside well-formed arrays are '
               'not judged']
SHRINK_LISTS = ('ops',)
SHRINK_INTS = ((('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

XBAD = ['list', '1d', '3d', 'narrow', 'wide', 'none', 'tuple']
YBAD = ['list', '1d', '2cols', 'short', 'long', '3d', 'none', 'scalar']
NAMES = ['gpp', '', 'EI', 'lbfgs', 'random', 'none', 'ml ', 'matern']
TYPES = ['none', 'int', 'list', 'bytes']


def bad_requests():
    out = []
    for k in XBAD:
        out += [['inputs', 'X', k], ['all', 'X', k], ['single', 'X', k], ['optimize', 'X', k],
                ['f_inputs', 'X', k], ['f_all', 'X', k], ['ts_it', 'X', k]]
    for k in YBAD:
        out += [['all', 'Y', k], ['single', 'Y', k], ['optimize', 'Y', k], ['f_all', 'Y', k],
                ['ts_it', 'Y', k]]
    for k in ['zero', 'neg', 'float', 'str', 'none']:
        out += [['round', 'num_init', k], ['optimize', 'num_samples', k], ['ts_it', 'num_samples', k],
                ['new', 'num_iter', k], ['new', 'num_samples_ao', k], ['f_round', 'num_samples_ao', k],
                ['f_inputs', 'num_samples_ao', k], ['f_all', 'num_samples_ao', k]]

    for k in ['neg', 'float', 'str', 'none']:
        out += [['f_round', 'num_init', k], ['ts', 'num_init', k]]
    for k in ['float', 'str', 'none']:
        out += [['f_round', 'num_iter', k], ['f_all', 'num_iter', k], ['f_inputs', 'num_iter', k],
                ['ts', 'num_iter', k], ['initials', 'num_initials', k], ['samples', 'num_samples', k]]
    for k in ['float', 'str', 'list']:
        out += [['round', 'seed', k], ['f_round', 'seed', k], ['optimize', 'seed', k], ['samples', 'seed', k],
                ['initials', 'seed', k]]
    for k in NAMES + TYPES:
        out += [['optimize', 'str_sampling_method', k], ['optimize', 'str_mlm_method', k],
                ['samples', 'str_sampling_method', k], ['initials', 'str_initial_method', k],
                ['f_round', 'str_initial_method_bo', k], ['f_round', 'str_sampling_method_ao', k],
                ['f_all', 'str_mlm_method', k], ['f_all', 'str_sampling_method_ao', k],
                ['f_inputs', 'str_mlm_method', k], ['f_inputs', 'str_sampling_method_ao', k],
                ['ts', 'str_sampling_method', k], ['ts_it', 'str_sampling_method', k]]
        for n in ('str_surrogate', 'str_cov', 'str_acq', 'str_initial_method_bo', 'str_sampling_method_ao',
                  'str_optimizer_method_gp', 'str_optimizer_method_tp', 'str_optimizer_method_bo',
                  'str_mlm_method', 'str_modelselection_method'):
            out.append(['new', n, k])
        for n in ('str_cov', 'str_acq', 'str_optimizer_method_gp', 'str_optimizer_method_bo',
                  'str_modelselection_method'):
            out.append(['new_model', n, k])
    for k in ['list', '1d', '3cols', 'inverted', 'none']:
        out += [['new', 'range_X', k], ['new_model', 'range_X', k], ['ts', 'range_X', k],
                ['ts_it', 'range_X', k]]
    for n in ('normalize_Y', 'use_ard', 'debug'):
        for k in ['none', 'int', 'str']:
            out += [['new', n, k], ['new_model', n, k]]
    for k in ['int', 'str', 'list']:
        out += [['new', 'prior_mu', k], ['new_model', 'prior_mu', k]]
    for k in ['none', 'int', 'str']:
        out += [['new', 'fun_target', k], ['f_round', 'fun_target', k], ['f_all', 'fun_target', k],
                ['f_inputs', 'fun_target', k], ['ts', 'fun_target', k]]
    for k in ['int', 'list', 'bytes']:
        out += [['new', 'str_exp', k], ['new_model', 'str_exp', k]]
    return out


REQUESTS = bad_requests()


def generate(rng, tier, idx):
    cfg = wl.gen_cfg(rng, surrogates=('gp', 'gp', 'gp', 'tp', 'rf'),
                     mlms=('regular', 'converged', 'converged', 'combined'), max_d=2, max_iter=2, max_init=4)
    cfg['nsamp'] = min(cfg['nsamp'], 3) if cfg['surrogate'] != 'rf' else min(cfg['nsamp'], 60)
    if cfg['fun']['kind'] in ('big', 'offset'):
        cfg['fun']['kind'] = 'sin'
    slow = cfg['mlm'] == 'combined' or cfg['modelsel'] == 'loocv'
    ops = []
    for _ in range(rng.randint(1, 2 if slow else 4)):
        for _ in range(rng.choice([0, 1, 2, 6])):
            ops.append(['bad'] + REQUESTS[rng.randrange(len(REQUESTS))])
        inside = [REQUESTS[rng.randrange(len(REQUESTS))] for _ in range(rng.choice([0, 0, 1, 3]))]
        ops.append([rng.choice(['suggest', 'suggest', 'round']), inside])
    if not any(o[0] == 'bad' for o in ops):
        ops.insert(0, ['bad'] + REQUESTS[rng.randrange(len(REQUESTS))])
    return {'cfg': cfg, 'ops': ops, 'world': rng.randrange(2 ** 40)}


def bad_value(name, kind, X, Y, ra):
    if name == 'X':
        return {'list': X.tolist(), '1d': X[:, 0].copy(), '3d': X[np.newaxis].copy(), 'narrow': X[:, :-1].copy(),
                'wide': np.hstack((X, X[:, :1])), 'none': None, 'tuple': tuple(map(tuple, X))}[kind]
    if name == 'Y':
        return {'list': Y.tolist(), '1d': Y[:, 0].copy(), '2cols': np.hstack((Y, Y)), 'short': Y[:-1].copy(),
                'long': np.vstack((Y, Y[:1])), '3d': Y[np.newaxis].copy(), 'none': None,
                'scalar': float(Y[0, 0])}[kind]
    if name == 'range_X':
        inv = ra[:, ::-1].copy()
        inv[:, 0] += 1.0
        return {'list': ra.tolist(), '1d': ra[:, 0].copy(), '3cols': np.hstack((ra, ra[:, 1:])),
                'inverted': inv, 'none': None}[kind]
    if kind in NAMES and name.startswith('str_'):
        return kind
    return {'zero': 0, 'neg': -1, 'float': 1.5, 'str': 'x', 'none': None, 'int': 7, 'list': [1], 'bytes': b'ei'}[kind]


class Caller:
    def __init__(self, plan, w):
        self.plan, self.w, self.cfg = plan, w, plan['cfg']
        self.ra = wl.range_array(self.cfg)
        self.obj = wl.Objective(self.cfg['fun'], self.ra, w)
        self.o = wl.make_bo(self.cfg, self.obj)
        self.X = wl.initial_points(self.cfg, self.cfg['num_init'] + 1, ('c21', plan['world']))
        self.Y = np.array([[wl.fun_value(self.cfg['fun'], self.ra, x)] for x in self.X])

    def request(self, op, name, bad):
        """The malformed request; well-formed except for the argument `name`."""
        from bayeso import bo, wrappers, thompson_sampling as ts
        from bayeso.wrappers import BayesianOptimization
        cfg, o, m, obj = self.cfg, self.o, self.o.model_bo, self.obj
        X, Y = self.X.copy(), self.Y.copy()
        if op in ('inputs', 'all', 'single', 'optimize', 'f_inputs', 'f_all', 'ts_it'):
            a = {'X': X, 'Y': Y}
        else:
            a = {}
        if op.startswith('f_'):
            a.update(fun_target=obj, num_iter=1)
        if op == 'f_round':
            a['num_init'] = 2
        if op in ('ts', 'ts_it'):
            a['range_X'] = self.ra.copy()
        if op == 'ts':
            a.update(fun_target=obj, num_init=2, num_iter=1)
        if op in ('new', 'new_model'):
            a['range_X'] = self.ra.copy()
            a['str_surrogate'] = cfg['surrogate']
            a['str_optimizer_method_bo'] = 'random_search' if cfg['surrogate'] == 'rf' else 'L-BFGS-B'
        if op == 'new':
            a.update(fun_target=obj, num_iter=1)
        if op == 'round':
            a['num_init'] = 2
        if op == 'samples':
            a.update(str_sampling_method='uniform', num_samples=2)
        if op == 'initials':
            a.update(str_initial_method='uniform', num_initials=2)
        a[name] = bad
        p = a.pop
        if op == 'inputs':
            return o.optimize_with_initial_inputs(a['X'])
        if op == 'all':
            return o.optimize_with_all_initial_information(a['X'], a['Y'])
        if op == 'single':
            return o.optimize_single_iteration(a['X'], a['Y'])
        if op == 'optimize':
            return m.optimize(p('X'), p('Y'), **a)
        if op == 'round':
            return o.optimize(**a)
        if op == 'samples':
            return m.get_samples(**a)
        if op == 'initials':
            return m.get_initials(**a)
        if op == 'f_inputs':
            return wrappers.run_single_round_with_initial_inputs(m, p('fun_target'), p('X'), p('num_iter'), **a)
        if op == 'f_all':
            return wrappers.run_single_round_with_all_initial_information(
                m, p('fun_target'), p('X'), p('Y'), p('num_iter'), **a)
        if op == 'f_round':
            return wrappers.run_single_round(m, p('fun_target'), p('num_init'), p('num_iter'), **a)
        if op == 'ts':
            return ts.thompson_sampling_gp(p('range_X'), p('fun_target'), p('num_init'), p('num_iter'), **a)
        if op == 'ts_it':
            return ts.thompson_sampling_gp_iteration(p('range_X'), p('X'), p('Y'), **a)
        if op == 'new':
            return BayesianOptimization(p('range_X'), p('fun_target'), p('num_iter'), **a)
        if op == 'new_model':
            s = p('str_surrogate')
            if s == 'rf':
                return bo.BOwTrees(p('range_X'), str_surrogate='rf', **a)
            return (bo.BOwGP if s == 'gp' else bo.BOwTP)(p('range_X'), **a)
        raise AssertionError(op)

    def skip(self, op, name, kind):
        """Combinations that are not malformed for this configuration."""
        s = self.cfg['surrogate']
        if s != 'gp' and op.startswith('f_') and name == 'str_mlm_method':
            return True
        if s != 'gp' and op == 'optimize' and name == 'str_mlm_method':
            return True
        if op == 'new_model' and s == 'rf' and name in ('str_cov', 'use_ard', 'prior_mu'):
            return True
        if op == 'new_model' and s != 'gp' and name in ('str_optimizer_method_gp', 'str_modelselection_method'):
            return True
        return False

    def refused(self, req, where):
        op, name, kind = req
        if self.skip(op, name, kind):
            return
        bad = bad_value(name, kind, self.X, self.Y, self.ra)
        before = harr(bad) if isinstance(bad, np.ndarray) else repr(bad)
        n0 = self.obj.started
        hist = harr(self.X, self.Y)
        spy, self.obj.before = self.obj.before, None
        err = None
        try:
            self.request(op, name, bad)
        except Exception as e:  # pylint: disable=broad-except
            err = e
        finally:
            self.obj.before = spy
        what = '%s with %s=<%s> (%s, %s)' % (op, name, kind, self.cfg['surrogate'], where)
        require(err is not None, 'accepted', '%s was not refused', what)
        require(self.obj.started == n0, 'evaluated', '%s was refused (%s) only after %d evaluations', what,
                describe(err), self.obj.started - n0)
        require((harr(bad) if isinstance(bad, np.ndarray) else repr(bad)) == before
                and harr(self.X, self.Y) == hist, 'caller-array', '%s modified the data of the caller', what)
        self.w.fire('malformed_' + op)

    def step(self, k, kind, inside):
        if kind == 'round':
            todo = list(inside)

            def before(i, x):
                if todo:
                    e = (self.w.epoch.get(0), dict(self.w._ent), np.random.get_state())
                    self.refused(todo.pop(), 'inside an evaluation')
                    self.w.epoch[0], self.w._ent = e[0], e[1]
                    np.random.set_state(e[2])
            self.obj.before = before
            self.w.new_epoch(0, 1000 + k)
            X, Y = self.o.optimize_with_all_initial_information(self.X, self.Y)[:2]
            self.obj.before = None
            self.X, self.Y = np.array(X), np.array(Y)
            return ('round', harr(X, Y), np.array(X)[-1].tolist())
        self.w.new_epoch(0, 1000 + k)
        nxt, info = self.o.optimize_single_iteration(self.X, self.Y)
        self.X = np.vstack((self.X, np.array(nxt)))
        self.Y = np.vstack((self.Y, [[wl.fun_value(self.cfg['fun'], self.ra, self.X[-1])]]))
        hy = {a: np.asarray(b, dtype=float).tolist() for a, b in (info.get('hyps') or {}).items()}
        return ('suggest', np.array(nxt).tolist(), harr(info['next_points'], info['acquisitions']),
                sorted(hy.items()))


def run(plan, w, hostile):
    c = Caller(plan, w)
    out = []
    for k, op in enumerate([o for o in plan['ops'] if hostile or o[0] != 'bad']):
        if op[0] == 'bad':
            c.refused(op[1:], 'between steps')
        else:
            out.append(c.step(len(out), op[0], op[1] if hostile else []))
    return out


def execute(plan):
    w = seams.World(plan['world'], cpu=2)
    viol = None
    got = want = None
    with w:
        try:
            want = in_fork(lambda: attempt(lambda: run(plan, w, False)))
            got = attempt(lambda: run(plan, w, True))
            if isinstance(want, str) or isinstance(got, str):
                require(want == got, 'diverged', 'with malformed requests mixed in: %s, without: %s',
                        str(got)[:200], str(want)[:200])
                w.probe('gave_up')
            else:
                for k, (a, b) in enumerate(zip(got, want)):
                    require(a == b, 'diverged', 'step %d differs after malformed requests: %s instead of %s',
                            k + 1, str(a)[:200], str(b)[:200])
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    cfg = plan['cfg']
    w.probe('surrogate_' + cfg['surrogate'])
    return result(w, (cfg['surrogate'], cfg['mlm'], cfg['acq'], plan['ops']), viol, nontrivial=bool(w.fired),
                  digest=h((got, want)), note='%s %d operations' % (cfg['surrogate'], len(plan['ops'])))


def attempt(fn):
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return describe(e)
