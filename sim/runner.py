"""Seeded search, minimisation, replay, evidence.

  python -m sim.runner check C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  python -m sim.runner replay FILE
  python -m sim.runner one C01 INDEX [--seed N]      (print one run)
  python -m sim.runner selftest C01                  (determinism self-test)
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sim import seams  # noqa: E402

_now = time.monotonic      # real clock, taken before the seams are installed
WALL_CAP = {'quick': 330.0, 'thorough': 6 * 3600.0}
RUN_LIMIT = 150.0


def prop_module(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def prepare(mod):
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    if getattr(mod, 'PRELOAD', True):
        seams.install()
        import bayeso  # noqa: F401
        from bayeso import bo, wrappers, thompson_sampling  # noqa: F401
        from bayeso.trees import trees_random_forest, trees_generic_trees  # noqa: F401
    else:
        mod.preload()


def run_seed(base, pid, idx):
    return seams.digest_int('run', base, pid, idx) % (2 ** 62)


def make_plan(mod, pid, base, idx, tier):
    s = run_seed(base, pid, idx)
    plan = mod.generate(random.Random(s), tier, idx)
    plan = json.loads(json.dumps(plan))
    plan['_seed'] = s
    plan['_idx'] = idx
    return plan


def unexpected(e):
    """An exception of the library itself where none may occur is a violation."""
    tb = traceback.extract_tb(e.__traceback__)
    pkg = [f for f in tb if seams.is_pkg(f.filename)]
    if not pkg:
        return None
    return {'kind': 'unexpected-exception',
            'msg': '%s: %s at %s:%d' % (type(e).__name__, str(e)[:200],
                                        os.path.basename(pkg[-1].filename), pkg[-1].lineno)}


def _child(mod, plan, wfd):
    scratch = tempfile.mkdtemp(prefix='bsim_')
    code = 0
    try:
        try:
            os.chdir(scratch)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = mod.execute(plan)
        except BaseException as e:  # pylint: disable=broad-except
            res = {'viol': unexpected(e), 'harness': None}
            if res['viol'] is None:
                res['harness'] = traceback.format_exc()
        with os.fdopen(wfd, 'wb') as f:
            pickle.dump(res, f)
    except BaseException:  # pylint: disable=broad-except
        code = 71
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(code)


def run_plan(mod, plan, limit=RUN_LIMIT):
    """Execute one plan in a fork of the pristine process."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        _child(mod, plan, wfd)
    os.close(wfd)
    end = _now() + limit
    chunks = []
    timed_out = False
    while True:
        left = end - _now()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5.0))
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        for target in (-pid, pid):
            try:
                if target < 0:
                    os.killpg(pid, signal.SIGKILL)
                else:
                    os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {'viol': {'kind': 'no-progress',
                         'msg': 'the run made no progress within %g s of wall time' % limit}}
    data = b''.join(chunks)
    if not data:
        return {'viol': None, 'harness': 'child ended without a result, status %r' % (status,)}
    return pickle.loads(data)


# ---------------------------------------------------------------- minimise

def _lists(mod, plan):
    return [k for k in getattr(mod, 'SHRINK_LISTS', ('faults', 'switches', 'ops'))
            if isinstance(plan.get(k), list)]


def shrink(mod, plan, kind, budget):
    end = _now() + budget
    tries = [0]

    def bad(p):
        if _now() > end:
            return False
        tries[0] += 1
        res = run_plan(mod, p, 60.0)
        v = res.get('viol')
        return bool(v) and v['kind'] == kind

    changed = True
    while changed and _now() < end:
        changed = False
        for key in _lists(mod, plan):
            lst = plan[key]
            n = max(1, len(lst) // 2)
            while lst and n >= 1 and _now() < end:
                i = 0
                while i < len(lst) and _now() < end:
                    cand = lst[:i] + lst[i + n:]
                    p = dict(plan)
                    p[key] = cand
                    if bad(p):
                        lst = cand
                        plan = p
                        changed = True
                    else:
                        i += n
                if n == 1:
                    break
                n //= 2
        for path, lo in getattr(mod, 'SHRINK_INTS', ()):
            cur = plan
            for k in path[:-1]:
                cur = cur.get(k, {}) if isinstance(cur, dict) else {}
            v = cur.get(path[-1]) if isinstance(cur, dict) else None
            if not isinstance(v, int) or isinstance(v, bool):
                continue
            for nv in range(lo, v):
                p = json.loads(json.dumps(plan))
                q = p
                for k in path[:-1]:
                    q = q[k]
                q[path[-1]] = nv
                if bad(p):
                    plan = p
                    changed = True
                    break
        for fn in getattr(mod, 'SIMPLIFY', ()):
            p = fn(json.loads(json.dumps(plan)))
            if p is not None and p != plan and bad(p):
                plan = p
                changed = True
    return plan, tries[0]


# ---------------------------------------------------------------- search

def shard(mod, pid, base, tier, start, step, nruns, deadline, wfd, stopfile):
    out = os.fdopen(wfd, 'wb')
    idx = start
    while idx < nruns and _now() < deadline and not os.path.exists(stopfile):
        try:
            plan = make_plan(mod, pid, base, idx, tier)
            res = run_plan(mod, plan)
        except BaseException:  # pylint: disable=broad-except
            res = {'viol': None, 'harness': traceback.format_exc()}
            plan = {'_idx': idx}
        v = res.get('viol')
        rec = {'idx': idx, 'viol': v, 'harness': res.get('harness'),
               'fired': res.get('fired', {}), 'probes': res.get('probes', {}),
               'sig': res.get('sig'), 'nontrivial': res.get('nontrivial', False),
               'sim_time': res.get('sim_time', 0.0), 'digest': res.get('digest'),
               'note': res.get('note')}
        if v:
            rec['plan'] = plan
        pickle.dump(rec, out)
        out.flush()
        idx += step
    out.close()
    os._exit(0)


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'known': [], 'fixed': []}


def matches_known(pid, viol, known):
    for k in known.get('known', []):
        if k['property'] == pid and k['kind'] == viol['kind'] and k.get('contains', '') in viol['msg']:
            return k
    return None


def check(pid, tier, base, nruns=None, workers=None, quiet=False):
    t0 = _now()
    mod = prop_module(pid)
    prepare(mod)
    nruns = nruns or mod.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    stopdir = tempfile.mkdtemp(prefix='bsimctl_')
    stopfile = os.path.join(stopdir, 'stop')
    deadline = t0 + float(os.environ.get('VERIF_WALL_CAP', WALL_CAP[tier]))
    readers = {}
    pids = []
    for s in range(workers):
        r, wfd = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            for fd in readers:
                os.close(fd)
            try:
                shard(mod, pid, base, tier, s, workers, nruns, deadline, wfd, stopfile)
            finally:
                os._exit(72)
        os.close(wfd)
        readers[r] = b''
        pids.append(p)
    recs = []
    open_fds = set(readers)
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [], 5.0)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if not b:
                open_fds.discard(fd)
                os.close(fd)
                continue
            readers[fd] += b
            while True:
                import io
                bio = io.BytesIO(readers[fd])
                try:
                    rec = pickle.load(bio)
                except (EOFError, pickle.UnpicklingError):
                    break
                readers[fd] = readers[fd][bio.tell():]
                recs.append(rec)
                if rec['viol'] and not os.path.exists(stopfile) \
                        and not os.environ.get('VERIF_KEEP_GOING'):
                    if not matches_known(pid, rec['viol'], load_known()):
                        open(stopfile, 'w').close()
    for p in pids:
        os.waitpid(p, 0)
    shutil.rmtree(stopdir, ignore_errors=True)
    recs.sort(key=lambda r: r['idx'])
    search_s = _now() - t0

    known = load_known()
    viols = [r for r in recs if r['viol']]
    fresh = [r for r in viols if not matches_known(pid, r['viol'], known)]
    harness = [r for r in recs if r['harness']]
    status = 0
    violation = None
    if os.environ.get('VERIF_KEEP_GOING'):
        for r in viols:
            print('SWEEP idx=%d [%s] %s' % (r['idx'], r['viol']['kind'], r['viol']['msg'][:300]))
        for r in harness[:5]:
            print('SWEEP idx=%d HARNESS %s' % (r['idx'], r['harness'][-1500:]))
        print('%s sweep: %d runs, %d violations, %d harness, %.1f s' % (
            pid, len(recs), len(viols), len(harness), search_s))
        return 1 if viols else 0
    for rec in fresh:
        plan = rec['plan']
        # confirm before believing: the same plan must fail the same way again
        again = run_plan(mod, plan, 1.5 * RUN_LIMIT).get('viol')
        if not again or again['kind'] != rec['viol']['kind']:
            harness.append({'idx': rec['idx'],
                            'harness': 'violation did not repeat: %r' % (rec['viol'],)})
            continue
        budget = min(90.0, max(20.0, 600.0 - (_now() - t0)))
        stalled = 'wall time' in rec['viol']['msg']
        if stalled:
            small, tries, final = plan, 0, {'viol': again}
        else:
            small, tries = shrink(mod, plan, rec['viol']['kind'], budget)
            final = run_plan(mod, small)
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d-%d.json' % (pid, base, rec['idx']))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'base_seed': base, 'index': rec['idx'],
                       'run_seed': plan['_seed'], 'violation': final.get('viol') or again,
                       'shrink_runs': tries, 'plan': small, 'original_plan': plan,
                       'fired': final.get('fired'), 'trace': final.get('trace')}, f, indent=1)
        if not stalled:
            rp = subprocess.run([sys.executable, '-m', 'sim.runner', 'replay', path], cwd=HERE,
                                capture_output=True, text=True, timeout=400)
            print('replay %s: exit %d (same process family: %s)' % (
                path, rp.returncode, 'reproduced' if rp.returncode == 1 else rp.stdout[-400:]))
        print('violation of %s in run %d (seed %d): [%s] %s' % (
            pid, rec['idx'], plan['_seed'], rec['viol']['kind'],
            (final.get('viol') or again)['msg']))
        print('minimised plan: %s' % json.dumps(
            {k: v for k, v in small.items() if not k.startswith('_')})[:3000])
        violation = path
        status = 1
        break
    if status == 0 and harness:
        status = 2
        for h in harness[:3]:
            print('HARNESS ERROR in run %s:\n%s' % (h['idx'], h['harness']))
    wall = _now() - t0
    write_evidence(pid, tier, base, mod, recs, wall, search_s, len(fresh), nruns, workers)
    for k in known.get('known', []):
        if k['property'] == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if not quiet:
        ndist = len({r['sig'] for r in recs if r['nontrivial']})
        print('%s: %d runs, %d distinct non-trivial, %.1f s, %d violation(s), %d harness error(s)' % (
            pid, len(recs), ndist, wall, len(fresh), len(harness)))
    if status == 1:
        print('VIOLATION property=%s replay=%s' % (pid, violation))
    return status


def write_evidence(pid, tier, base, mod, recs, wall, search_s, nviol, nruns, workers):
    fired, probes = {}, {}
    for r in recs:
        for k, v in r['fired'].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
    nontriv = [r for r in recs if r['nontrivial']]
    samples = []
    picks = nontriv[:2] + nontriv[len(nontriv) // 2:len(nontriv) // 2 + 1]
    for r in picks:
        plan = make_plan(mod, pid, base, r['idx'], tier)
        samples.append({'index': r['idx'], 'run_seed': plan['_seed'], 'plan': plan,
                        'faults_fired': r['fired'], 'note': r.get('note')})
    dig = hashlib.blake2b(repr([(r['idx'], r['digest']) for r in recs]).encode(),
                          digest_size=12).hexdigest()
    ev = {
        'property': pid, 'tier': tier, 'seed': base, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': len(recs),
            'distinct_nontrivial': len({r['sig'] for r in nontriv}),
            'rule': mod.RULE,
            'samples': samples or [{'note': 'no non-trivial run'}],
            'planned_runs': nruns,
            'runs_per_hour': round(3600.0 * len(recs) / max(search_s, 1e-9)),
            'seeds_per_hour': round(3600.0 * len(recs) / max(search_s, 1e-9)),
            'simulated_seconds': round(sum(r['sim_time'] for r in recs), 3),
            'faults_injected': dict(sorted(fired.items())),
            'probes': dict(sorted(probes.items())),
            'distinct_histories_measure': getattr(mod, 'MEASURE', 'hash of the event sequence'),
            'components_real': getattr(mod, 'REAL_COMPONENTS', []),
            'components_simulated': getattr(mod, 'SIM_COMPONENTS', []),
            'exploration_digest': dig,
            'workers': workers,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=False)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    mod = prop_module(rep['property'])
    prepare(mod)
    res = run_plan(mod, rep['plan'], 2 * RUN_LIMIT)
    v = res.get('viol')
    if res.get('harness'):
        print(res['harness'])
        return 2
    if v:
        print('[%s] %s' % (v['kind'], v['msg']))
        same_ = v == rep['violation']
        print('reproduced%s' % (' exactly' if same_ else ' (different detail)'))
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    print('property %s held on this replay' % rep['property'])
    return 0


def selftest(pid, tier, base, n):
    """Same seeds in two orders/processes give the same histories."""
    mod = prop_module(pid)
    prepare(mod)
    bad = 0
    for idx in range(n):
        plan = make_plan(mod, pid, base, idx, tier)
        a = run_plan(mod, plan)
        b = run_plan(mod, plan)
        ka = (a.get('digest'), a.get('sig'), a.get('fired'), a.get('viol'))
        kb = (b.get('digest'), b.get('sig'), b.get('fired'), b.get('viol'))
        if ka != kb or a.get('harness'):
            bad += 1
            print('idx', idx, 'differs', ka, kb, a.get('harness'))
    print('selftest %s: %d plans, %d differ' % (pid, n, bad))
    return 1 if bad else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('what', nargs='?', default='')
    ap.add_argument('index', nargs='?', type=int, default=0)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    a = ap.parse_args(argv)
    if a.cmd == 'check':
        return check(a.what, a.tier, a.seed, a.runs, a.workers)
    if a.cmd == 'replay':
        return replay(a.what)
    if a.cmd == 'selftest':
        return selftest(a.what, a.tier, a.seed, a.runs or 20)
    if a.cmd == 'one':
        mod = prop_module(a.what)
        prepare(mod)
        plan = make_plan(mod, a.what, a.seed, a.index, a.tier)
        print(json.dumps(plan, indent=1))
        t = _now()
        res = run_plan(mod, plan)
        print(json.dumps({k: (v if k != 'harness' else None) for k, v in res.items()},
                         indent=1, default=repr)[:6000])
        if res.get('harness'):
            print(res['harness'])
        print('%.2f s' % (_now() - t))
        return 0
    if a.cmd == 'setup':        # everything the checks need is installed; nothing to build
        from sim.props import c01
        prepare(c01)
        import bayeso
        assert os.path.realpath(bayeso.__file__).startswith(seams.PKG_DIR), bayeso.__file__
        print('setup ok: bayeso %s from %s' % (bayeso.__version__, os.path.dirname(bayeso.__file__)))
        return 0
    ap.error('unknown command')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
