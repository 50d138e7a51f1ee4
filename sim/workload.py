"""Configurations, objectives and API drivers shared by the properties."""
import random

import numpy as np

from sim import seams

COVS = ['eq', 'se', 'matern32', 'matern52']
ACQS = ['pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore']
INITS = ['uniform', 'gaussian', 'sobol', 'halton']
SAMPS = ['uniform', 'gaussian', 'sobol', 'halton', 'grid']
OPT_GP = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded']
OPT_TP = ['L-BFGS-B', 'SLSQP']
FUNS = ['quad', 'sin', 'ridge', 'step', 'big', 'tiny', 'const', 'offset', 'abs']
RETS = ['float', 'npfloat', 'arr1', 'arr11', 'list1', 'arr0']


def gen_range(rng, d):
    out = []
    for _ in range(d):
        k = rng.randrange(7)
        if k == 0:
            lo, hi = 0.0, 1.0
        elif k == 1:
            lo, hi = -5.0, 5.0
        elif k == 2:
            lo, hi = -10.0, -2.0
        elif k == 3:
            lo, hi = 100.0, 101.0
        elif k == 4:
            lo, hi = 0.0, 0.05
        elif k == 5:
            lo = round(rng.uniform(-20, 20), 3)
            hi = round(lo + rng.uniform(0.5, 30), 3)
        else:
            lo, hi = -500.0, 500.0
        out.append([lo, hi])
    return out


def gen_fun(rng, d, finite_only=True):
    kind = rng.choice(FUNS)
    return {'kind': kind, 'c': [round(rng.random(), 4) for _ in range(d)],
            'w': [round(0.2 + 2 * rng.random(), 4) for _ in range(d)],
            'ret': rng.choice(RETS)}


def gen_cfg(rng, surrogates=('gp', 'gp', 'tp', 'rf'), mlms=('regular', 'regular', 'combined', 'converged'),
            max_d=3, cma=0.0, max_iter=4, max_init=4, stretch=0.0):
    d = rng.choice([1, 1, 2, 2, 2, 3][:(2 if max_d == 1 else 6 if max_d >= 3 else 5)])
    size = rng.choice(['long', 'deep', 'wide', 'cands']) if rng.random() < stretch else None
    if size == 'wide':
        d = rng.choice([4, 5, 6, 8])
    surr = rng.choice(list(surrogates))
    cfg = {
        'surrogate': surr, 'd': d, 'range': gen_range(rng, d),
        'cov': rng.choice(COVS), 'acq': rng.choice(ACQS),
        'normalize_Y': rng.random() < 0.7, 'use_ard': rng.random() < 0.6,
        'prior': rng.choice([None, None, None, 'const', 'lin']),
        'init': rng.choice(INITS), 'samp': rng.choice(SAMPS),
        'opt_gp': rng.choice(['BFGS', 'BFGS', 'BFGS'] + OPT_GP), 'opt_tp': rng.choice(OPT_TP),
        'opt_bo': 'L-BFGS-B', 'mlm': rng.choice(list(mlms)) if surr == 'gp' else 'regular',
        'modelsel': 'loocv' if (surr == 'gp' and rng.random() < 0.12) else 'ml',
        'nsamp': rng.choice([1, 2, 3, 4, 5]),
        'num_init': rng.randint(1, max_init), 'num_iter': rng.randint(1, max_iter),
        'seed': rng.choice([None, rng.randrange(2 ** 31)]),
        'debug': rng.random() < 0.25, 'str_exp': rng.choice([None, None, 'exp_a']),
        'fun': gen_fun(rng, d),
        'given': rng.choice(['c'] * 7 + ['f', 'strided', 'readonly', 'int', 'intx', 'single', 'dup']),
    }
    if cfg['fun']['kind'] in ('big', 'offset') and (
            not cfg['normalize_Y'] or cfg['mlm'] == 'converged' or cfg['num_init'] == 1
            or cfg['given'] == 'intx' or (cfg['given'] == 'dup' and cfg['num_init'] == 2)):
        cfg['fun']['kind'] = 'quad'     # unnormalised responses are kept moderate (see DESIGN.md)
    if surr == 'rf':
        cfg['opt_bo'] = 'random_search'
        cfg['prior'] = None
        if cfg['given'] == 'intx':      # the trees state that they take floating-point inputs only
            cfg['given'] = 'int'
        cfg['nsamp'] = rng.choice([1, 3, 20, 101, 130, 205, 320])
        if cfg['samp'] == 'grid':
            cfg['nsamp'] = rng.choice([1, 3, 5])
    elif cfg['samp'] == 'grid':
        cfg['nsamp'] = rng.choice([1, 2, 3] if d < 3 else [1, 2])
    if cma and surr != 'rf' and rng.random() < cma:
        cfg['opt_bo'] = 'CMA-ES'
        cfg['num_iter'] = min(cfg['num_iter'], 2)
        size = None
    elif cma and surr != 'rf' and rng.random() < cma:
        cfg['opt_bo'] = 'DIRECT'        # not installed here: the default is used instead
    if cfg['opt_gp'] == 'Nelder-Mead' or cfg['mlm'] == 'combined' or cfg['modelsel'] == 'loocv':
        cfg['num_iter'] = min(cfg['num_iter'], 2)   # slow fits
    if surr == 'tp':
        cfg['num_iter'] = min(cfg['num_iter'], 3)
    if size:
        stretch_cfg(rng, cfg, size)
    return cfg


def stretch_cfg(rng, cfg, size):
    """Sizes beyond the usual small ones, with everything else kept cheap."""
    cfg['size'] = size
    cfg['opt_gp'] = rng.choice(['BFGS', 'L-BFGS-B'])
    cfg['modelsel'] = 'ml'
    if cfg['mlm'] == 'combined':
        cfg['mlm'] = 'regular'
    if cfg['fun']['kind'] in ('big', 'offset', 'const'):
        cfg['fun']['kind'] = 'sin'
    if cfg['samp'] == 'grid':
        cfg['samp'] = rng.choice(INITS)
    rf = cfg['surrogate'] == 'rf'
    if not rf:
        cfg['nsamp'] = rng.choice([1, 2])
    if size == 'long':
        cfg['num_init'] = rng.choice([20, 33, 50, 65, 101, 130])
        cfg['num_iter'] = rng.choice([1, 2])
    elif size == 'deep':
        cfg['num_iter'] = rng.choice([8, 11, 16, 21])
        cfg['num_init'] = rng.choice([1, 2, 3])
    elif size == 'wide':
        cfg['num_iter'] = min(cfg['num_iter'], 2)
    else:
        cfg['nsamp'] = rng.choice([12, 20, 33, 64, 101]) if not rf else rng.choice([260, 500, 1001])
        cfg['num_iter'] = 1


def range_array(cfg):
    return np.array(cfg['range'], dtype=float)


def prior_fun(kind, hook=None, _known={}):      # pylint: disable=dangerous-default-value
    if kind is None:
        return None
    if hook is None and kind in _known:         # callers reuse one function for several optimisers
        return _known[kind]

    def mu(X):
        if hook is not None:
            hook(X)
        if kind == 'const':
            return np.full((X.shape[0], 1), 0.3)
        return 0.05 * np.sum(X, axis=-1).reshape(X.shape[0], 1)
    if hook is None:
        _known[kind] = mu
    return mu


def fun_value(fun, rng_arr, x):
    """The deterministic objective value at x (normalised to the box)."""
    x = np.asarray(x, dtype=float)
    lo, hi = rng_arr[:, 0], rng_arr[:, 1]
    width = np.where(hi > lo, hi - lo, 1.0)
    u = (x - lo) / width
    c = np.array(fun['c'])
    w = np.array(fun['w'])
    q = float(np.sum(w * (u - c) ** 2))
    k = fun['kind']
    if k == 'quad':
        return q
    if k == 'sin':
        return float(np.sum(np.sin(5.0 * w * u + c)) + 0.3 * q)
    if k == 'ridge':
        return float(np.cos(7.0 * np.sum(w * u)) + q)
    if k == 'step':
        return float(np.floor(4.0 * q))
    if k == 'big':
        return 1e6 * q - 3e5
    if k == 'tiny':
        return 1e-6 * q
    if k == 'const':
        return 0.5
    if k == 'offset':
        return q - 1234.5
    if k == 'abs':
        return float(np.sum(np.abs(u - c)))
    raise AssertionError(k)


def as_ret(kind, v):
    if kind == 'float':
        return float(v)
    if kind == 'npfloat':
        return np.float64(v)
    if kind == 'arr1':
        return np.array([v])
    if kind == 'arr11':
        return np.array([[v]])
    if kind == 'list1':
        return [float(v)]
    if kind == 'arr0':
        return np.array(v)
    raise AssertionError(kind)


class InjectedBase(BaseException):
    """A control-flow exception of the caller (like KeyboardInterrupt)."""


class InjectedError(Exception):
    """An application error of the caller's objective."""


def make_exc(kind):
    import scipy.linalg
    table = {
        'ValueError': ValueError, 'RuntimeError': RuntimeError, 'KeyboardInterrupt': KeyboardInterrupt,
        'StopIteration': StopIteration, 'MemoryError': MemoryError, 'AssertionError': AssertionError,
        'LinAlgError': np.linalg.LinAlgError, 'OSError': OSError, 'TimeoutError': TimeoutError,
        'KeyError': KeyError, 'TypeError': TypeError, 'ImportError': ImportError,
        'SystemExit': SystemExit, 'ZeroDivisionError': ZeroDivisionError,
        'FloatingPointError': FloatingPointError, 'NotImplementedError': NotImplementedError,
        'InjectedBase': InjectedBase, 'InjectedError': InjectedError,
        'GeneratorExit': GeneratorExit, 'EOFError': EOFError, 'IndexError': IndexError,
        'AttributeError': AttributeError, 'UnicodeError': UnicodeError,
    }
    return table[kind]('injected fault')


EXC_KINDS = ['ValueError', 'RuntimeError', 'KeyboardInterrupt', 'StopIteration', 'MemoryError',
             'AssertionError', 'LinAlgError', 'OSError', 'TimeoutError', 'KeyError', 'TypeError',
             'SystemExit', 'ZeroDivisionError', 'FloatingPointError', 'NotImplementedError',
             'InjectedBase', 'InjectedError', 'ImportError', 'IndexError', 'AttributeError']


class Objective:
    """The evaluated party: a deterministic function with scripted behaviour.

    faults: list of [call_index, kind, param]
      scribble     overwrite the argument in place before returning
      late         overwrite the argument of this call during the next call
      reuse        return values through one reused buffer (all calls)
      latency      take `param` seconds
      raise        raise exception `param`
      value        return `param` ('nan', 'inf', '-inf', or a number)
    """

    def __init__(self, fun, rng_arr, world, faults=(), client=0, noise=None):
        self.fun, self.rng, self.world = fun, np.array(rng_arr, dtype=float), world
        self.calls = []       # (argument copy, value)
        self.client = client
        self.f = {}
        for ci, kind, param in faults:
            self.f.setdefault(int(ci), []).append((kind, param))
        self.reuse = any(k == 'reuse' for v in self.f.values() for k, _ in v)
        self.buf = np.zeros((1,)) if fun['ret'] != 'arr11' else np.zeros((1, 1))
        self.pending = None
        self.injected = None
        self.started = 0
        self.after = None     # called with (index) when an evaluation is recorded
        self.before = None
        self.shape_bad = None

    def __call__(self, x):
        i = self.started
        self.started += 1
        if self.before is not None:
            self.before(i, x)
        if not isinstance(x, np.ndarray) or x.shape != (self.rng.shape[0],):
            self.shape_bad = (i, repr(getattr(x, 'shape', type(x))))
        xin = np.array(x, dtype=float, copy=True)
        v = fun_value(self.fun, self.rng, np.ravel(xin))
        w = self.world
        if self.pending is not None:
            self.pending[...] = 777.25
            self.pending = None
        out = None
        for kind, param in self.f.get(i, ()):
            if kind == 'latency':
                w.advance(float(param))
                w.fire('objective_latency')
            elif kind == 'raise':
                w.fire('objective_raise_' + param)
                self.injected = make_exc(param)
                raise self.injected
            elif kind == 'value':
                v = float(param)
                w.fire('objective_value_' + str(param))
            elif kind == 'scribble':
                try:
                    x[...] = 1e3 + i
                    w.fire('argument_scribble')
                except ValueError:
                    pass      # read-only argument: cannot be damaged
            elif kind == 'late':
                if x.flags.writeable:
                    self.pending = x
                    w.fire('late_scribble')
        if self.reuse:
            self.buf[...] = v
            out = self.buf
            w.fire('return_buffer_reuse')
        else:
            out = as_ret(self.fun['ret'], v)
        self.calls.append((xin, v))
        if self.after is not None:
            self.after(i)
        return out


def make_bo(cfg, obj, num_iter=None, debug=None, hook_prior=None, str_exp='__cfg__'):
    """A BayesianOptimization object for cfg."""
    from bayeso.wrappers import BayesianOptimization
    kw = dict(str_surrogate=cfg['surrogate'], str_acq=cfg['acq'],
              normalize_Y=cfg['normalize_Y'], str_initial_method_bo=cfg['init'],
              str_sampling_method_ao=cfg['samp'], str_optimizer_method_bo=cfg['opt_bo'],
              num_samples_ao=cfg['nsamp'], debug=cfg['debug'] if debug is None else debug,
              str_exp=cfg['str_exp'] if str_exp == '__cfg__' else str_exp)
    if cfg['surrogate'] in ('gp', 'tp'):
        kw.update(str_cov=cfg['cov'], use_ard=cfg['use_ard'],
                  prior_mu=prior_fun(cfg['prior'], hook_prior))
    if cfg['surrogate'] == 'gp':
        kw.update(str_optimizer_method_gp=cfg['opt_gp'], str_mlm_method=cfg['mlm'],
                  str_modelselection_method=cfg['modelsel'])
    if cfg['surrogate'] == 'tp':
        kw.update(str_optimizer_method_tp=cfg['opt_tp'])
    return BayesianOptimization(range_array(cfg), obj,
                                cfg['num_iter'] if num_iter is None else num_iter, **kw)


def make_model(cfg, debug=None, hook_prior=None):
    """The underlying model object (BOwGP / BOwTP / BOwTrees)."""
    from bayeso import bo
    if cfg.get('via') == 'class' and hook_prior is None:     # the model a class-interface object made
        b = make_bo(cfg, lambda x: 0.0, num_iter=max(1, cfg['num_iter']), debug=debug)
        b.model_bo.made_by = b
        return b.model_bo
    dbg = cfg['debug'] if debug is None else debug
    common = dict(str_acq=cfg['acq'], normalize_Y=cfg['normalize_Y'],
                  str_optimizer_method_bo=cfg['opt_bo'], str_exp=cfg['str_exp'], debug=dbg)
    if cfg['surrogate'] == 'rf':
        return bo.BOwTrees(range_array(cfg), str_surrogate='rf', **common)
    common.update(str_cov=cfg['cov'], use_ard=cfg['use_ard'],
                  prior_mu=prior_fun(cfg['prior'], hook_prior))
    if cfg['surrogate'] == 'gp':
        return bo.BOwGP(range_array(cfg), str_optimizer_method_gp=cfg['opt_gp'],
                        str_modelselection_method=cfg['modelsel'], **common)
    return bo.BOwTP(range_array(cfg), str_optimizer_method_tp=cfg['opt_tp'], **common)


def model_optimize(cfg, model, X, Y, seed=None):
    if seed is None and getattr(model, 'made_by', None) is not None:
        return model.made_by.optimize_single_iteration(X, Y)
    kw = dict(str_sampling_method=cfg['samp'], num_samples=cfg['nsamp'], seed=seed)
    if cfg['surrogate'] == 'gp':
        kw['str_mlm_method'] = cfg['mlm']
    return model.optimize(X, Y, **kw)


def initial_points(cfg, n, key):
    """n distinct caller-chosen points inside the box (simulation-independent)."""
    r = random.Random(seams.digest_int('init', key, n))     # draws no OS entropy
    u = np.array([[r.random() for _ in range(cfg['d'])] for _ in range(n)])
    ra = range_array(cfg)
    return ra[:, 0] + (ra[:, 1] - ra[:, 0]) * (0.05 + 0.9 * u)


def as_given(form, X, Y, ra):
    """The caller's arrays in one of the forms numpy offers; values stay inside the box."""
    if form == 'f':
        X, Y = np.asfortranarray(X), None if Y is None else np.asfortranarray(Y)
    elif form == 'strided':
        B = np.full((2 * X.shape[0], X.shape[1] + 1), 7.0)
        B[::2, 1:] = X
        X = B[::2, 1:]
        if Y is not None:
            C = np.full((Y.shape[0], 3), -3.0)
            C[:, 1:2] = Y
            Y = C[:, 1:2]
    elif form == 'readonly':
        X = X.copy()
        X.setflags(write=False)
        if Y is not None:
            Y = Y.copy()
            Y.setflags(write=False)
    elif form == 'dup' and X.shape[0] > 1:      # the caller lists a point twice
        j = X.shape[0] // 2
        X = X.copy()
        X[j] = X[j - 1]
        if Y is not None:
            Y = Y.copy()
            Y[j] = Y[j - 1]
    elif form == 'int' and Y is not None:
        Y = np.rint(np.clip(Y, -1e6, 1e6)).astype(int)
    elif form == 'intx':
        Z = np.rint(X)
        if np.all(Z >= ra[:, 0]) and np.all(Z <= ra[:, 1]) and len(np.unique(Z, axis=0)) == len(Z):
            X = Z.astype(int)
    elif form == 'single':
        X, Y = X.astype(np.float32), None if Y is None else Y.astype(np.float32)
    return X, Y


APIS_CLASS = ['class.optimize', 'class.inputs', 'class.all', 'class.loop']
APIS_FUNC = ['func.round', 'func.inputs', 'func.all']


def pick_api(rng, cfg, ts=0.1):
    if cfg['surrogate'] == 'gp' and rng.random() < ts:
        return 'ts'
    if cfg['surrogate'] == 'gp' and rng.random() < 0.35:
        return rng.choice(APIS_FUNC)
    return rng.choice(APIS_CLASS)


class Round:
    """Outcome of one round driven through the public API."""

    def __init__(self):
        self.X = self.Y = None
        self.times = None       # (all, surrogate, acq)
        self.error = None
        self.X0 = self.Y0 = None        # arrays handed in (live objects)
        self.X0c = self.Y0c = None      # copies made before
        self.n_init_calls = 0


def drive(cfg, api, obj, key, bo_obj=None, model=None, num_iter=None, hook_prior=None,
          X0=None, Y0=None, seed='__cfg__'):
    """Run one round through `api`; returns a Round (errors are captured)."""
    from bayeso import wrappers
    from bayeso import thompson_sampling
    r = Round()
    n_it = cfg['num_iter'] if num_iter is None else num_iter
    sd = cfg['seed'] if seed == '__cfg__' else seed
    ni = cfg['num_init']
    kind = api.split('.')[-1]
    if kind in ('inputs', 'all', 'loop'):
        ra = range_array(cfg)
        r.X0 = initial_points(cfg, ni, key) if X0 is None else X0
        if kind != 'inputs':
            r.Y0 = np.array([[fun_value(cfg['fun'], ra, x)] for x in r.X0]) if Y0 is None else Y0
        if X0 is None and Y0 is None:
            r.X0, r.Y0 = as_given(cfg.get('given'), r.X0, r.Y0, ra)
        r.X0c = r.X0.copy()
        r.Y0c = None if r.Y0 is None else r.Y0.copy()
    r.n_init_calls = ni if kind in ('optimize', 'round', 'inputs', 'ts') else 0
    if kind == 'inputs':
        r.n_init_calls = r.X0.shape[0]
    r.n_iter = n_it
    try:
        if api.startswith('class.'):
            b = bo_obj if bo_obj is not None else make_bo(cfg, obj, num_iter=n_it,
                                                          hook_prior=hook_prior)
            r.bo = b
            if kind == 'optimize':
                out = b.optimize(ni, seed=sd)
            elif kind == 'inputs':
                out = b.optimize_with_initial_inputs(r.X0)
            elif kind == 'all':
                out = b.optimize_with_all_initial_information(r.X0, r.Y0)
            else:       # ask-and-tell by the caller
                X, Y = r.X0.copy(), r.Y0.copy()
                for _ in range(n_it):
                    nxt, _info = b.optimize_single_iteration(X, Y)
                    v = obj(np.array(nxt))
                    X = np.vstack((X, nxt))
                    Y = np.vstack((Y, np.reshape(np.array(v, dtype=float), (1, 1))))
                out = (X, Y, None, None, None)
        elif api.startswith('func.'):
            m = model if model is not None else make_model(cfg, hook_prior=hook_prior)
            r.model = m
            kw = dict(str_sampling_method_ao=cfg['samp'], num_samples_ao=cfg['nsamp'],
                      str_mlm_method=cfg['mlm'])
            if kind == 'round':
                out = wrappers.run_single_round(m, obj, ni, n_it,
                                                str_initial_method_bo=cfg['init'], seed=sd, **kw)
            elif kind == 'inputs':
                out = wrappers.run_single_round_with_initial_inputs(m, obj, r.X0, n_it, **kw)
            else:
                out = wrappers.run_single_round_with_all_initial_information(
                    m, obj, r.X0, r.Y0, n_it, **kw)
        else:
            r.n_init_calls = ni
            out = thompson_sampling.thompson_sampling_gp(
                range_array(cfg), obj, ni, n_it, normalize_Y=cfg['normalize_Y'],
                str_sampling_method=cfg['init'], num_samples=max(2, 4 * cfg['nsamp']),
                debug=cfg['debug']) + (None, None, None)
        r.X, r.Y = out[0], out[1]
        r.times = out[2:5]
    except BaseException as e:  # pylint: disable=broad-except
        if isinstance(e, (seams.SimulatedCrash, seams.SimTimeout)):
            raise
        r.error = e
    return r


class SuggestionRecorder:
    """Records every call of the models' public `optimize` (inputs and outputs)."""

    def __init__(self):
        self.log = []
        from bayeso import bo
        for cls in (bo.BOwGP, bo.BOwTP, bo.BOwTrees):
            self._wrap(cls)

    def _wrap(self, cls):
        real = cls.optimize
        rec = self

        def optimize(obj, X_train, Y_train, *a, **k):
            ent = {'X': np.array(X_train, copy=True), 'Y': np.array(Y_train, copy=True),
                   'Xref': X_train, 'Yref': Y_train, 'out': None, 'info': None,
                   'client': seams.current_client(), 'model': obj, 'kw': k}
            rec.log.append(ent)
            out = real(obj, X_train, Y_train, *a, **k)
            ent['out'] = np.array(out[0], copy=True)
            info = out[1]
            ent['info'] = {kk: (np.array(vv, copy=True) if isinstance(vv, np.ndarray) else vv)
                           for kk, vv in info.items()}
            ent['inputs_intact'] = (np.array_equal(ent['X'], X_train, equal_nan=True)
                                    and np.array_equal(ent['Y'], Y_train, equal_nan=True))
            return out
        cls.optimize = optimize


def same(a, b):
    """Bitwise equality of two arrays (NaNs with equal payload class are equal)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def same_all(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def minimize_box(kwargs, args, cfg):
    """True if this scipy minimize call searches the problem's box (acquisition)."""
    b = kwargs.get('bounds')
    if b is None:
        return False
    try:
        if hasattr(b, 'lb'):
            arr = np.column_stack((np.ravel(b.lb), np.ravel(b.ub)))
        else:
            arr = np.array([[float(x[0]), float(x[1])] for x in b])
    except (TypeError, ValueError):
        return False
    ra = range_array(cfg)
    return arr.shape == ra.shape and bool(np.all(arr == ra))
