"""C12: diagnostics never change or abort an optimisation, and are emitted once."""
import errno
import io
import logging
import random
import re
import sys

import numpy as np

from sim import seams, workload as wl
from sim.pool import PoolPlan
from sim.props.base import (Violation, require, h, harr, result, describe, in_fork, pack,
                            same_outcome, show, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 700, 'thorough': 30000}
RULE = ('one run = the same operation (round through any entry point, or a standalone prediction with '
        'hyperparameter fit) once plain and once with a seeded set of diagnostic differences: debug flag, '
        'experiment name, objects created before (some while stderr was redirected), host log settings, sink faults at seeded writes; '
        'non-trivial = at least one difference or fault applied; distinct = different operation, '
        'differences and fault places')
MEASURE = 'hash of (operation, surrogate, differences, sink faults hit)'
SIM_COMPONENTS = SIM_DEFAULT + ['log sinks (failing, slow, full, closed)']
REAL_COMPONENTS = REAL_DEFAULT + ['logging', 'tqdm']
ASSUMPTIONS = ['sink errors are OS errors for log records, and EIO or a closed stream for the progress bar '
               'on write (the ones the progress bar tolerates)', 'standard output, to which Thompson sampling '
               'prints, is healthy']
SHRINK_LISTS = ('sink', 'before')
SHRINK_INTS = ((('cfg', 'num_iter'), 1), (('cfg', 'num_init'), 1), (('cfg', 'nsamp'), 1))

ERRNO = {'ENOSPC': errno.ENOSPC, 'EPIPE': errno.EPIPE, 'EIO': errno.EIO, 'EBADF': errno.EBADF,
         'EAGAIN': errno.EAGAIN}


def generate(rng, tier, idx):
    op = rng.choice(['round'] * 5 + ['predict'])
    cfg = wl.gen_cfg(rng, max_iter=3, max_init=3, cma=0.04, stretch=0.03)
    cfg['debug'] = False
    plan = {'op': op, 'cfg': cfg, 'api': wl.pick_api(rng, cfg, ts=0.12), 'world': rng.randrange(2 ** 40),
            'cpu': rng.choice([1, 2]), 'debug': rng.random() < 0.75,
            'str_exp': rng.choice([None, 'exp_a', 'x y/%s %d', '']),
            'before': [rng.choice(['bo', 'model', 'same', 'other', 'logger', 'moved', 'moved']) for _ in range(rng.randint(0, 4))],
            'host': rng.choice(['none'] * 4 + ['disable', 'root', 'level', 'own', 'own_after', 'own_after', 'raise_off', 'basic']),
            'sink': []}
    if rng.random() < 0.55:
        for _ in range(rng.randint(1, 6)):
            plan['sink'].append([int(10 ** rng.uniform(0, 2.2)), rng.choice(
                ['ENOSPC', 'EPIPE', 'EIO', 'EBADF', 'EAGAIN', 'slow', 'slow', 'dead'])])
    if op == 'predict' and cfg['surrogate'] == 'rf':
        cfg['surrogate'], cfg['opt_bo'] = 'gp', 'L-BFGS-B'
    return plan


def from_tqdm():
    f = sys._getframe(1)
    while f is not None:
        name = f.f_globals.get('__name__', '')
        if name.startswith('logging'):
            return False
        if name.startswith('tqdm'):
            return True
        f = f.f_back
    return False


def sink_faults(w, sink):
    sc = {}
    dead = [None]
    for n, kind in sink:
        sc.setdefault(int(n), []).append(kind)

    def plan_fn(n, text):
        kinds = sc.get(n, []) if text is not None else []
        for k in kinds:
            if k == 'slow':
                w.fire('sink_slow')
                w.advance(30.0)
            elif k == 'dead':
                dead[0] = True
        err = next((k for k in kinds if k in ERRNO), None)
        if (dead[0] or err) and not (text is None and from_tqdm()):
            w.fire('sink_' + ('dead' if dead[0] else err))
            if from_tqdm():
                if n % 2:
                    raise ValueError('I/O operation on closed file')
                raise OSError(errno.EIO, 'simulated')
            raise OSError(ERRNO.get(err, errno.EPIPE), 'simulated')
    w.stderr.plan = plan_fn


class Counter(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.msgs = []

    def emit(self, record):
        self.msgs.append((record.name, record.getMessage()))


def rng_state():
    s = np.random.get_state()
    return h((s[1].tobytes(), s[2], s[3], s[4])), h(random.getstate())


def operate(plan, w, variant):
    """The operation; returns (outcome, generator state, log text, host counts, n_iter)."""
    cfg = dict(plan['cfg'])
    ra = wl.range_array(cfg)
    counter = Counter()
    elsewhere = []
    host = plan['host'] if variant else 'none'
    if variant:
        cfg['debug'] = plan['debug']
        cfg['str_exp'] = plan['str_exp']
    name = 'bo_w_' + cfg['surrogate'] + ('_' + cfg['str_exp'] if cfg['str_exp'] is not None else '')
    if host == 'disable':
        logging.disable(logging.CRITICAL)
    elif host in ('root', 'basic'):
        logging.getLogger().addHandler(counter)
        if host == 'basic':
            logging.getLogger().setLevel(logging.ERROR)
    elif host == 'level':
        logging.getLogger(name).setLevel(logging.ERROR)
    elif host == 'own':
        logging.getLogger(name).addHandler(counter)
    elif host == 'own_after':       # the host adds its sink to a logger the library has set up already
        wl.make_bo(cfg, lambda x: 0.0, str_exp=cfg['str_exp'])
        logging.getLogger(name).addHandler(counter)
    elif host == 'raise_off':
        logging.raiseExceptions = False
    if variant:
        from bayeso.utils import utils_logger
        other = dict(cfg, surrogate='gp', opt_bo='L-BFGS-B', str_exp='else', debug=True)
        for k in plan['before']:
            w.fire('earlier_' + k)
            if k == 'bo':
                wl.make_bo(dict(cfg, debug=True), lambda x: 0.0)
            elif k == 'model':
                wl.make_model(cfg)
            elif k == 'same':
                wl.make_bo(cfg, lambda x: 0.0, str_exp=cfg['str_exp'])
            elif k == 'other':
                wl.make_model(other)
            elif k == 'moved':          # as contextlib.redirect_stderr does around some earlier use
                real, sys.stderr = sys.stderr, io.StringIO()
                elsewhere.append(sys.stderr)
                try:
                    wl.make_bo(cfg, lambda x: 0.0, str_exp=cfg['str_exp'])
                finally:
                    sys.stderr = real
            else:
                utils_logger.get_logger(name)
    w.stderr.data.clear()
    for e in elsewhere:
        e.seek(0)
        e.truncate()
    del counter.msgs[:]
    if variant:
        sink_faults(w, plan['sink'])
    w.new_epoch(0, 'c12')
    if plan['op'] == 'predict':
        out = predict(cfg, ra, plan)
    else:
        obj = wl.Objective(cfg['fun'], ra, w)
        r = wl.drive(cfg, plan['api'], obj, ('c12', plan['world']))
        out = pack(r)
    w.stderr.plan = None
    text = '\n'.join([''.join(w.stderr.data)] + [e.getvalue() for e in elsewhere])
    return out, rng_state(), text, list(counter.msgs), dict(w.fired)


def predict(cfg, ra, plan):
    X = wl.initial_points(cfg, 4, ('c12', plan['world']))
    Y = np.array([[wl.fun_value(cfg['fun'], ra, x)] for x in X])
    if float(np.max(np.abs(Y))) > 100:
        Y = Y / np.max(np.abs(Y))
    Xs = wl.initial_points(cfg, 5, ('c12s', plan['world']))
    out = {'X': None, 'Y': None, 'error': None}
    try:
        if cfg['surrogate'] == 'tp':
            from bayeso.tp import tp
            r = tp.predict_with_optimized_hyps(X, Y, Xs, str_cov=cfg['cov'], prior_mu=None,
                                               str_optimizer_method=cfg['opt_tp'], debug=cfg['debug'])
            r = r[1:]
        else:
            from bayeso.gp import gp
            r = gp.predict_with_optimized_hyps(X, Y, Xs, str_cov=cfg['cov'], prior_mu=None,
                                               str_optimizer_method=cfg['opt_gp'], debug=cfg['debug'])
        out['X'] = np.concatenate([np.ravel(np.asarray(v, dtype=float)) for v in r])
        out['Y'] = out['X'][:1]
    except Exception as e:  # pylint: disable=broad-except
        out['error'] = describe(e)
    return out


def execute(plan):
    cfg = plan['cfg']
    w = seams.World(plan['world'], cpu=plan['cpu'])
    viol = None
    digest = None
    with w:
        w.pool_plan = PoolPlan(plan['world'], 0.5)
        try:
            a, sa, ta, _, _ = in_fork(lambda: operate(plan, w, False))
            b, sb, tb, cb, fired = in_fork(lambda: operate(plan, w, True))
            w.fired.update(fired)
            if plan['debug']:
                w.fire('debug_on')
            if plan['host'] != 'none':
                w.fire('host_' + plan['host'])
            diffs = 'debug=%s str_exp=%r host=%s sink=%s' % (
                plan['debug'], plan['str_exp'], plan['host'], plan['sink'])
            what = plan['api'] if plan['op'] == 'round' else 'a prediction'
            require(a['error'] is None, 'aborted', '%s raised %s without any diagnostics', what, a['error'])
            require(b['error'] is None, 'aborted-by-diagnostics', '%s raised %s with %s', what, b['error'],
                    diffs)
            require(same_outcome(a, b), 'changed-by-diagnostics', '%s gives %s, but %s with %s', what,
                    show(a), show(b), diffs)
            require(sa == sb, 'generators', 'diagnostics (%s) changed the state of the global generators',
                    diffs)
            if plan['op'] == 'round' and plan['api'] not in ('ts', 'class.loop'):
                n = cfg['num_iter']
                texts = [('plain run', ta)]
                if not plan['sink'] and plan['host'] in ('none', 'root', 'level', 'raise_off', 'basic',
                                                               'own_after'):
                    texts.append((diffs, tb))
                for label, t in texts:
                    got = [int(x) for x in re.findall(r'\] Iteration (\d+)\s*$', t, re.M)]
                    require(got == list(range(1, n + 1)), 'announced',
                            'iterations announced in the log: %s, made: %d (%s, objects before: %s)', got,
                            n, label, plan['before'])
                    w.probe('announcements_counted')
                if plan['host'] in ('root', 'own', 'own_after', 'basic'):
                    got = [int(m.split()[1]) for _, m in cb if re.fullmatch(r'Iteration \d+', m)]
                    require(got == list(range(1, n + 1)), 'announced',
                            "the host's log handler saw iterations %s of %d", got, n)
                    w.probe('host_counted')
            digest = harr(b['X'], b['Y'])
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    sig = (plan['op'], plan['api'], cfg['surrogate'], plan['debug'], plan['str_exp'], plan['host'],
           plan['before'], sorted((k, v) for k, v in w.fired.items() if k.startswith('sink')))
    return result(w, sig, viol, nontrivial=bool(w.fired), digest=digest,
                  note='%s, sink faults %s' % (plan['api'], plan['sink'][:3]))
