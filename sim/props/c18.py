"""C18: saving figures on a simulated disk: complete file or error, independent of earlier calls."""
import builtins
import errno
import io
import os
import re

import numpy as np

from sim import seams
from sim.props.base import (Violation, require, h, result, describe, in_fork, SIM_DEFAULT, REAL_DEFAULT)

LEVEL = 'fault_enumeration'
RUNS = {'quick': 330, 'thorough': 12000}
RULE = ('one run = a sequence of one to four plotting calls saving to a simulated disk that refuses, runs '
        'full after a seeded number of bytes, fails or shortens writes or fails on close, with or without '
        'older files in place and with calls that fail in between; non-trivial = a storage or TeX fault '
        'fired; distinct = different functions, options, data and faults')
MEASURE = 'hash of (functions, options, faults, outcomes)'
SIM_COMPONENTS = ['disk (open, write, close of figure files)', 'TeX processor', 'clock', 'display pauses']
REAL_COMPONENTS = ['bayeso.utils.utils_plotting', 'matplotlib (Agg and PDF back ends)', 'numpy']
ASSUMPTIONS = ['writes reported as successful by the disk are durable',
               'figure files are opened through the Python file interface']
SHRINK_LISTS = ('ops',)
SHRINK_INTS = ()

FUNS = ['gp_sample', 'gp_dist', 'min_iter', 'min_time', 'bo_step', 'bo_step_acq']
FAULTS = ['enospc', 'enospc', 'eacces', 'eio_write', 'eio_close', 'short', 'nodir', 'isdir', 'edquot']


def preload():
    os.environ.setdefault('MPLCONFIGDIR', os.path.join(os.environ.get('TMPDIR', '/tmp'), 'bsim_mpl'))
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import matplotlib.backends.backend_pdf  # noqa: F401
    import bayeso.utils.utils_plotting  # noqa: F401
    fig = plt.figure()
    fig.gca().plot([0, 1], [0, 1])
    fig.savefig(io.BytesIO(), format='pdf')      # warm caches (fonts)
    plt.close('all')


def generate(rng, tier, idx):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        f = None
        if rng.random() < 0.65:
            f = [rng.choice(FAULTS), rng.choice([0, 0, 1, 100, 4096, 5000, 9000, rng.randrange(16000)]),
                 rng.choice([0, 0, 0, 1])]
        if rng.random() < 0.15:
            f = ['tex', 0, 0]
        ops.append({'fun': rng.choice(FUNS), 'fault': f, 'save': rng.choice(
            ['both', 'both', 'both', 'both', 'both', 'none', 'nopostfix', 'nopath']),
            'postfix': rng.choice(['a', 'run.1', 'exp_2', 'b c', 'a.pdf', 'v1.2.3']),
            'stale': rng.random() < 0.4, 'opts': {
                'flag': rng.random() < 0.5, 'legend': rng.random() < 0.4, 'marker': rng.random() < 0.5,
                'pause': rng.choice([None, None, 0.25, 3]), 'zero': rng.random() < 0.3,
                'rel': rng.random() < 0.3, 'ninit': rng.choice([None, 1, 2])},
            'data': rng.randrange(50)})
    if not any(o['fault'] is None for o in ops) or rng.random() < 0.3:
        o = dict(ops[-1])
        o['fault'] = None
        o['save'] = 'both'
        ops.append(o)
    return {'ops': ops, 'world': rng.randrange(2 ** 40)}


class Disk:
    """Files under `root` live on a disk whose behaviour the plan decides."""

    def __init__(self, w, root):
        self.w, self.root = w, os.path.realpath(root)
        self.fault = None
        self.nopen = 0
        self.raised = []
        self.written = 0
        real_open = io.open
        me = self

        def sim_open(file, mode='r', *a, **k):
            try:
                path = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else ''
            except TypeError:
                path = ''
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            if not path.startswith(me.root + os.sep) or not any(c in mode for c in 'wax+'):
                return real_open(file, mode, *a, **k)
            n = me.nopen
            me.nopen += 1
            f = me.fault
            kind = f[0] if f is not None and n == f[2] else None
            if kind == 'eacces':
                me.fail(errno.EACCES, kind, path)
            if kind is None or kind in ('tex', 'nodir', 'isdir'):
                return real_open(file, mode, *a, **k)
            raw = Raw(me, path, mode.replace('b', '').replace('t', ''), kind, int(f[1]))
            buf = io.BufferedWriter(raw)
            return buf if 'b' in mode else io.TextIOWrapper(buf, encoding=k.get('encoding') or 'utf-8')
        builtins.open = sim_open
        io.open = sim_open

    def fail(self, code, kind, path=None):
        self.w.fire('disk_' + kind)
        e = OSError(code, os.strerror(code), path)
        self.raised.append(e)
        raise e


class Raw(io.FileIO):
    def __init__(self, disk, path, mode, kind, at):
        super().__init__(path, mode)
        self.disk, self.kind, self.at, self.pos = disk, kind, at, 0
        self.done = False

    def write(self, b):
        b = bytes(b)
        if self.kind in ('enospc', 'edquot'):
            room = self.at - self.pos
            if room <= 0 and b:
                self.disk.fail(errno.ENOSPC if self.kind == 'enospc' else errno.EDQUOT, self.kind)
            b = b[:room]
        elif self.kind == 'eio_write' and self.pos + len(b) > self.at and not self.done:
            self.done = True
            self.disk.fail(errno.EIO, self.kind)
        elif self.kind == 'short' and len(b) > 1:
            self.disk.w.fire('disk_short')
            b = b[:max(1, len(b) // 3)]
        n = super().write(b)
        self.pos += n
        return n

    def close(self):
        if self.closed:
            return
        super().close()
        if self.kind == 'eio_close' and not self.done:
            self.done = True
            self.disk.fail(errno.EIO, self.kind)


def names(op):
    p = op['postfix']
    f = op['opts']['flag']
    return {'gp_sample': ['gp_sampled_%s.pdf'], 'gp_dist': ['gp_%s.pdf'],
            'min_iter': ['minimum_mean_%s_%%s.pdf' % ('std' if f else 'only'), 'legend_%s.pdf'],
            'min_time': ['minimum_time_mean_%s_%%s.pdf' % ('std' if f else 'only'), 'legend_%s.pdf'],
            'bo_step': ['bo_step_%s.pdf'], 'bo_step_acq': ['bo_step_acq_%s.pdf']}[op['fun']], p


def files(op):
    ns, p = names(op)
    return [n % p for n in ns]


def call(op, path):
    """Perform one plotting call; returns the arrays handed in (for the mutation check)."""
    from bayeso.utils import utils_plotting as up
    r = np.random.RandomState(op['data'])
    o = op['opts']
    kw = {'pause_figure': o['pause'] is not None, 'use_tex': bool(op['fault'] and op['fault'][0] == 'tex')}
    if o['pause'] is not None:
        kw['time_pause'] = o['pause']
    if op['save'] in ('both', 'nopostfix'):
        kw['path_save'] = path
    if op['save'] in ('both', 'nopath'):
        kw['str_postfix'] = op['postfix']
    x = np.sort(r.randn(9))[:, np.newaxis]
    t = np.sort(r.randn(4))[:, np.newaxis]
    if op['fun'] == 'gp_sample':
        args = [x, r.randn(3, 9)]
        kw['draw_zero_axis'] = o['zero']
        fn = up.plot_gp_via_sample
    elif op['fun'] == 'gp_dist':
        args = [t, r.randn(4, 1), x, r.randn(9, 1), r.rand(9, 1)]
        kw['Y_test'] = r.randn(9, 1) if o['flag'] else None
        kw['draw_zero_axis'] = o['zero']
        fn = up.plot_gp_via_distribution
    elif op['fun'] in ('min_iter', 'min_time'):
        minima = r.randn(2, 3, 6)
        args = [minima, ['method a', 'b'], o['ninit'] or 1, o['flag']]
        kw.update(include_legend=o['legend'], include_marker=o['marker'])
        fn = up.plot_minimum_vs_iter
        if op['fun'] == 'min_time':
            times = r.rand(2, 3, 6 if o['zero'] else 6 - (o['ninit'] or 1))
            args = [times] + args
            fn = up.plot_minimum_vs_time
    else:
        args = [t, r.randn(4, 1), x, r.randn(9, 1), r.randn(9, 1), r.rand(9, 1)]
        kw.update(num_init=o['ninit'], draw_zero_axis=o['zero'])
        fn = up.plot_bo_step
        if op['fun'] == 'bo_step_acq':
            args.append(r.rand(9, 1))
            fn = up.plot_bo_step_with_acq
    held = args + [kw.get('Y_test')]
    before = [a.copy() if isinstance(a, np.ndarray) else list(a) if isinstance(a, list) else a for a in held]
    err = None
    try:
        fn(*args, **kw)
    except Exception as e:  # pylint: disable=broad-except
        err = e
    for a, b in zip(held, before):
        ok = np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b
        require(ok, 'mutated', '%s modified the data it plotted', op['fun'])
    return err


def listing(root):
    out = {}
    for dp, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(dp, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def undated(b):
    return re.sub(rb'/(CreationDate|ModDate) \([^)]*\)', b'', b)


def complete(b):
    if not b.startswith(b'%PDF-') or not b.rstrip().endswith(b'%%EOF'):
        return False
    i = b.rfind(b'startxref')
    try:
        off = int(b[i + 9:].split()[0])
    except (ValueError, IndexError):
        return False
    return b[off:off + 4] == b'xref'


def execute(plan):
    w = seams.World(plan['world'])
    viol = None
    digest = []
    with w:
        try:
            run(plan, w, digest)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
    return result(w, (plan['ops'], digest), viol, nontrivial=bool(w.fired), digest=h(digest),
                  note='+'.join(o['fun'] for o in plan['ops']))


def reference(op, k):
    """The files of the same call, alone, on a healthy disk in a fresh process."""
    op = dict(op)
    op['fault'] = None
    root = os.path.abspath('ref%d' % k)
    os.makedirs(root)

    def one():
        err = call(op, root)
        return (None if err is None else describe(err)), listing(root)
    return in_fork(one)


def run(plan, w, digest):
    import matplotlib.texmanager as tm
    root = os.path.abspath('disk')
    os.makedirs(root)
    disk = Disk(w, root)
    texed = []

    def no_tex(*a, **k):
        w.fire('tex_missing')
        e = RuntimeError('Failed to process string with tex because latex could not be found')
        texed.append(e)
        raise e
    tm.TexManager._run_checked_subprocess = no_tex
    refs = [reference(op, k) for k, op in enumerate(plan['ops'])]       # forked before the first call
    for k, op in enumerate(plan['ops']):
        err, ref = refs[k]
        require(err is None, 'aborted', '%s raised %s on a healthy disk in a fresh process', op['fun'], err)
        dest = os.path.join(root, 'd%d' % k)
        fault = op['fault']
        saving = op['save'] == 'both'
        if not (fault and fault[0] == 'nodir'):
            os.makedirs(dest)
        disk.fault = None
        if op['stale'] and os.path.isdir(dest):
            for n in files(op):
                with open(os.path.join(dest, n), 'wb') as f:
                    f.write(b'%PDF-1.4 stale')
        if fault and fault[0] == 'isdir' and saving:
            n = os.path.join(dest, files(op)[0])
            if os.path.exists(n):
                os.unlink(n)
            os.makedirs(n)
            w.fire('disk_isdir')
        if fault and fault[0] == 'nodir' and saving:
            w.fire('disk_nodir')
        before = listing(root)
        disk.fault, disk.nopen, disk.raised = fault, 0, []
        del texed[:]
        path = os.path.relpath(dest) if op['opts']['rel'] else dest
        err = call(op, path)
        disk.fault = None
        after = listing(root)
        lab = 'd%d' % k + os.sep
        if not saving:
            require(after == before, 'unasked-file', '%s wrote %s although it was not asked to save',
                    op['fun'], sorted(set(after) - set(before)) or 'over existing files')
            require(not ref, 'unasked-file', '%s wrote %s although it was not asked to save', op['fun'],
                    sorted(ref))
        others = {n: b for n, b in after.items() if not n.startswith(lab)}
        require(others == {n: b for n, b in before.items() if not n.startswith(lab)}, 'wrong-file',
                '%s changed files outside the requested folder', op['fun'])
        if err is None:
            if saving:
                for n in files(op):
                    b = after.get(lab + n)
                    require(b is not None, 'missing', '%s reported success but there is no file %s '
                            '(fault: %s)', op['fun'], n, fault)
                    require(complete(b), 'torn', '%s reported success but %s is incomplete (%d bytes, '
                            'fault: %s)', op['fun'], n, len(b), fault)
                    rb = ref.get(n)
                    require(rb is not None and complete(rb), 'missing', '%s saved no complete %s on a healthy '
                            'disk', op['fun'], n)
                    require(undated(b) == undated(rb), 'differs', '%s saved a figure that differs from the one the same call '
                            'gives on its own (%d and %d bytes) after %s', op['fun'], len(b), len(rb),
                            [(o['fun'], o['fault']) for o in plan['ops'][:k]])
                extra = [n for n in after if n.startswith(lab) and n[len(lab):] not in files(op)]
                require(not extra, 'wrong-file', '%s left %s', op['fun'], extra)
                w.probe('files_checked', len(files(op)))
            require(not (fault and fault[0] in ('nodir', 'isdir') and saving), 'missing',
                    '%s reported success although %s', op['fun'], fault[0] if fault else '')
            digest.append((op['fun'], 'ok', [len(after.get(lab + n, b'')) for n in files(op)] if saving else None))
        else:
            expected = bool(disk.raised) or bool(texed and fault and fault[0] == 'tex') or (
                saving and fault and fault[0] in ('nodir', 'isdir'))
            require(expected, 'aborted', '%s raised %s without a fault (after %s)', op['fun'], describe(err),
                    [(o['fun'], o['fault']) for o in plan['ops'][:k]])
            if disk.raised:
                chain = []
                e = err
                while e is not None and len(chain) < 10:
                    chain.append(e)
                    e = e.__cause__ or e.__context__
                require(any(isinstance(c, OSError) for c in chain), 'replaced',
                        'a storage error surfaced as %s', describe(err))
            digest.append((op['fun'], type(err).__name__))
        w.probe('calls')
