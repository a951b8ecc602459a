"""Seeded search over simulated runs for one property.

exit 0: held on everything explored; exit 1: VIOLATION line; anything else: error of the check.
"""
import argparse
import collections
import copy
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
_fork = multiprocessing.get_context('fork')     # before the seams are installed
_now = time.time
_mono = time.monotonic

CASE_SECONDS = 90


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def load_module(pid):
    from sim import props
    name = props.MODULES[pid]
    mod = importlib.import_module('sim.props.' + name)
    gc.collect()
    gc.freeze()
    return mod


def gen_case(mod, pid, seed, i, tier):
    r = random.Random('%s/%s/%d/%d' % (pid, tier if tier == 'thorough' else 'quick', seed, i))
    return json.loads(json.dumps(mod.gen(r, pid, tier)))


def run_case(mod, pid, case, seconds=CASE_SECONDS):
    """One simulated run, classified.  Everything escaping from it is a violation:
    on the unchanged tree nothing does."""
    from sim.kit import Out
    from sim.seams import SimHang, SimCrash, set_world
    # what an earlier run left behind is not finalised in the middle of this one
    gc.collect()
    gc.disable()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return mod.run(copy.deepcopy(case), pid)
    except CaseTimeout:
        out = Out()
        out.bad('hang', 'no end within %d s of real time' % seconds)
        return out
    except SimHang as ex:
        out = Out()
        out.bad('hang', str(ex))
        return out
    except KeyboardInterrupt:
        raise
    except BaseException as ex:     # noqa
        out = Out()
        tb = traceback.extract_tb(ex.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))
        out.bad('exception', '%s: %s at %s' % (type(ex).__name__, str(ex)[:400], where))
        return out
    finally:
        signal.alarm(0)
        set_world(None)
        gc.enable()


def worker(pid, seed, tier, k, nw, total, deadline, q, extra):
    try:
        os.environ['VERIF_WORKER'] = str(k)
        mod = load_module(pid)
        agg = dict(runs=0, nontrivial=0, c=collections.Counter(), faults=collections.Counter(), states=set(),
                   cases=set(), simt=0.0, events=0, redo=0, diverged=0, samples=[], known=collections.Counter(),
                   reached=0)
        start = _mono()
        i = k
        while i < total:
            if _mono() > deadline:
                break
            case = gen_case(mod, pid, seed, i, tier)
            q.put(('at', k, i))
            out = run_case(mod, pid, case)
            agg['runs'] += 1
            agg['reached'] = i
            agg['nontrivial'] += bool(out.nontrivial)
            agg['c'].update(out.c)
            agg['faults'].update(out.faults)
            if len(agg['states']) < 200000:
                agg['states'].update(out.states)
            if out.nontrivial:
                agg['cases'].add(hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
            agg['simt'] += out.simt
            agg['events'] += out.events
            for kn in out.known:
                agg['known'][kn] += 1
            if len(agg['samples']) < 1 and k < 3:
                agg['samples'].append(dict(index=i, case=case, digest=out.digest()))
            if out.viol:
                q.put(('viol', k, i, case, out.viol, out.digest()))
            elif agg['runs'] % extra['redo'] == 0:
                again = run_case(mod, pid, case)
                agg['redo'] += 1
                if again.digest() != out.digest():
                    agg['diverged'] += 1
                    q.put(('diverged', k, i))
            i += nw
        agg['secs'] = _mono() - start
        q.put(('done', k, agg))
    except BaseException as ex:     # noqa
        q.put(('error', k, traceback.format_exc()))
    finally:
        q.close()
        q.join_thread()


# ----------------------------------------------------------------------------
def get_path(case, path):
    for p in path:
        case = case[p]
    return case


def generic_shrinks(mod, case):
    if hasattr(mod, 'shrinks'):
        for c in mod.shrinks(copy.deepcopy(case)):
            yield c
    # drop dictionary entries and list elements named as droppable, halve integers
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in list(x):
                if k in ('faults', 'callbacks', 'uover', 'zover', 'jumps', 'h5faults'):
                    paths.append(('dropall', path + [k]))
                    for kk in list(x[k]):
                        paths.append(('dropkey', path + [k, kk]))
                elif k == 'nsimu' and isinstance(x[k], int) and x[k] > 2:
                    paths.append(('int', path + [k]))
                elif k in ('prior', 'wall', 'RDR', 'drscale', 'burnintime', 'burnin_scale', 'initqcovn', 'adascale',
                           'qcov_adjust', 'clock', 'w', 'printint', 'verbosity', 'waitbar'):
                    paths.append(('drop', path + [k]))
                elif k == 'phases' and isinstance(x[k], list) and len(x[k]) > 1:
                    for j in range(len(x[k])):
                        paths.append(('pop', path + [k, j]))
                walk(x[k], path + [k])
        elif isinstance(x, list):
            for j, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    walk(v, path + [j])
    walk(case, [])
    for kind, path in paths:
        c = copy.deepcopy(case)
        try:
            parent = get_path(c, path[:-1])
            if kind == 'dropall':
                if not parent[path[-1]]:
                    continue
                parent[path[-1]] = {}
                yield c
            elif kind in ('dropkey', 'drop'):
                del parent[path[-1]]
                yield c
            elif kind == 'pop':
                parent.pop(path[-1])
                yield c
            elif kind == 'int':
                v = parent[path[-1]]
                for nv in sorted(set([2, 3, v // 2, v - 1])):
                    if 2 <= nv < v:
                        c2 = copy.deepcopy(c)
                        get_path(c2, path[:-1])[path[-1]] = nv
                        yield c2
        except (KeyError, IndexError, TypeError):
            continue


def kind_of(v):
    """Escaped exceptions are the same violation when type and place are the same."""
    if v[0] != 'exception':
        return v[0]
    return v[1].split(':')[0] + ' ' + v[1].rsplit(' at ', 1)[-1].split(' <- ')[0]


def minimise(mod, pid, case, viol, budget=60.0):
    t0 = _mono()
    cls, want = viol[0], kind_of(viol)
    best = case
    tried = 0
    progress = True
    while progress and _mono() - t0 < budget:
        progress = False
        for cand in generic_shrinks(mod, best):
            if _mono() - t0 > budget:
                break
            tried += 1
            out = run_case(mod, pid, cand, 20)
            if any(v[0] == cls and kind_of(v) == want for v in out.viol):
                best = cand
                progress = True
                break
    return best, tried


def write_replay(pid, mod, seed, index, case, viols, digest, minimised, tried):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-run%s.json' % (pid, seed, index))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, seed=seed, run=index, violation_class=viols[0][0],
                       violations=[list(v) for v in viols[:20]], digest=digest, minimised=minimised,
                       shrink_attempts=tried, case=case), f, indent=1, sort_keys=True)
    return os.path.relpath(path, HERE)


def replay(path, pid=None):
    with open(path) as f:
        rp = json.load(f)
    pid = pid or rp['property']
    mod = load_module(pid)
    out = run_case(mod, pid, rp['case'])
    for v in out.viol[:10]:
        print('  [%s] %s' % v)
    cls = rp['violation_class']
    if any(v[0] == cls for v in out.viol):
        print('reproduced: class=%s digest=%s recorded=%s' % (cls, out.digest(), rp['digest']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('not reproduced')
    return 0


# ----------------------------------------------------------------------------
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    pid = a.property
    if a.replay:
        sys.exit(replay(a.replay, pid))
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = _mono()
    mod = load_module(pid)
    quick_runs, thorough_runs = mod.RUNS[pid] if isinstance(mod.RUNS, dict) else mod.RUNS
    total = a.runs or (quick_runs if tier == 'quick' else thorough_runs)
    cap = a.cap or (300.0 if tier == 'quick' else 3300.0)
    deadline = _mono() + cap
    nw = a.workers
    print('%s tier=%s VERIF_SEED=%d runs=%d workers=%d' % (pid, tier, a.seed, total, nw))
    q = _fork.Queue()
    procs = []
    for k in range(nw):
        p = _fork.Process(target=worker, args=(pid, a.seed, tier, k, nw, total, deadline, q,
                                               dict(redo=25 if tier == 'quick' else 50)))
        p.daemon = True
        p.start()
        procs.append(p)
    done, viols, errors, diverged, at = {}, [], [], [], {}
    stop_at = None
    while len(done) + len(errors) < nw:
        try:
            m = q.get(timeout=1.0)
        except Exception:
            m = None
        if m is None:
            for k, p in enumerate(procs):
                if not p.is_alive() and k not in done and not any(e[0] == k for e in errors):
                    # drain once more before calling it dead
                    try:
                        m = q.get(timeout=2.0)
                        break
                    except Exception:
                        errors.append((k, 'worker %d died at run %s' % (k, at.get(k)), True))
            if m is None:
                if stop_at is not None and _mono() > stop_at:
                    break
                if _mono() > deadline + 2 * CASE_SECONDS + 60:
                    errors.append((-1, 'workers did not stop', False))
                    break
                continue
        if m[0] == 'at':
            at[m[1]] = m[2]
        elif m[0] == 'viol':
            viols.append(m[1:])
            if stop_at is None:
                stop_at = _mono() + 20.0        # a little longer, for a simpler one
        elif m[0] == 'diverged':
            diverged.append(m[2])
        elif m[0] == 'done':
            done[m[1]] = m[2]
        elif m[0] == 'error':
            errors.append((m[1], m[2], False))
        if stop_at is not None and _mono() > stop_at:
            break
    for p in procs:
        if p.is_alive() and (stop_at is not None or errors):
            p.terminate()
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    clean_scratch([p.pid for p in procs])

    agg = dict(runs=0, nontrivial=0, c=collections.Counter(), faults=collections.Counter(), states=set(),
               cases=set(), simt=0.0, events=0, redo=0, diverged=0, samples=[], known=collections.Counter(), secs=0.0)
    for k in sorted(done):
        d = done[k]
        for n in ('runs', 'nontrivial', 'simt', 'events', 'redo', 'diverged'):
            agg[n] += d[n]
        for n in ('c', 'faults', 'known'):
            agg[n].update(d[n])
        agg['states'] |= d['states']
        agg['cases'] |= d['cases']
        agg['samples'] += d['samples']
        agg['secs'] = max(agg['secs'], d['secs'])

    code = 0
    reported = None
    if viols:
        viols.sort(key=lambda v: (len(json.dumps(v[2])), v[1]))
        for (k, i, case, vs, digest) in viols[:6]:
            again = run_case(mod, pid, case)
            if not again.viol:
                print('run %d: violation did not repeat in another process: %s' % (i, vs[:1]))
                reported = reported or (i, case, vs, digest, None, 0)
                continue
            cls = again.viol[0][0]
            small, tried = minimise(mod, pid, case, again.viol[0], 45.0 if tier == 'quick' else 120.0)
            out = run_case(mod, pid, small)
            if not any(v[0] == cls for v in out.viol):
                small, out = case, again
            vv = sorted(out.viol, key=lambda v: v[0] != cls)
            reported = (i, small, vv, out.digest(), True, tried)
            break
        i, small, vs, digest, ok, tried = reported
        path = write_replay(pid, mod, a.seed, i, small, vs, digest, bool(ok), tried)
        for v in vs[:5]:
            print('  [%s] %s' % (v[0], v[1][:600]))
        fresh = subprocess.run([sys.executable, os.path.abspath(__file__), pid, '--replay', path], cwd=HERE,
                               capture_output=True, text=True, timeout=300)
        print('  replay in a fresh process: %s' % ('reproduced' if fresh.returncode == 1 else
                                                   'exit %d' % fresh.returncode))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    elif errors:
        dead = [e for e in errors if e[2]]
        if dead and len(dead) == len(errors):
            # a worker died inside a simulated run: does that repeat?
            k = dead[0][0]
            i = at.get(k)
            case = gen_case(mod, pid, a.seed, i, tier) if i is not None else None
            path = write_replay(pid, mod, a.seed, i, case, [('died', dead[0][1])], '', False, 0)
            r = subprocess.run([sys.executable, os.path.abspath(__file__), pid, '--replay', path], cwd=HERE,
                               capture_output=True, text=True)
            if r.returncode not in (0, 1):
                print('VIOLATION property=%s replay=%s' % (pid, path))
                code = 1
            else:
                code = 3
        else:
            code = 3
        for e in errors:
            print('ERROR %s' % (e[1],))
    elif diverged and getattr(mod, 'DIVERGENCE_IS_VIOLATION', False):
        i = diverged[0]
        case = gen_case(mod, pid, a.seed, i, tier)
        path = write_replay(pid, mod, a.seed, i, case, [('diverged', 'two executions of one seed differ')], '', False, 0)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    if diverged:
        print('note: %d of %d repeated runs differed from their first execution (runs %s)' % (
            len(diverged), agg['redo'], diverged[:5]))
    known_lines = []
    if code == 0:
        kf = known_findings(pid)
        for key, text in kf:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, text))
            print(known_lines[-1] + ' (met in %d runs)' % agg['known'].get(key, 0))
        if agg['runs'] < min(total, 8 * nw) // 4:
            print('ERROR: only %d runs before the time ran out' % agg['runs'])
            code = 3
    wall = _mono() - t0
    write_evidence(pid, mod, tier, a, agg, wall, code, len(viols), total, known_lines)
    print('%s: %d runs, %d distinct, %d faults injected, %d states, %.1f s, exit %d' % (
        pid, agg['runs'], len(agg['cases']), sum(agg['faults'].values()), len(agg['states']), wall, code))
    sys.stdout.flush()
    os._exit(code)


def known_findings(pid):
    """[(key, text)] of the recorded, unrepaired findings of a property."""
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % pid):
                rest = line.strip().split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                out.append((key, text))
    return out


def clean_scratch(pids):
    import shutil
    for base in ('/dev/shm', '/tmp'):
        try:
            names = os.listdir(base)
        except OSError:
            continue
        for n in names:
            if n.startswith('pymcsim-') and n.split('-')[1] in ['%08d' % p for p in pids]:
                shutil.rmtree(os.path.join(base, n), ignore_errors=True)


def write_evidence(pid, mod, tier, a, agg, wall, code, nv, total, known_lines):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    secs = max(agg['secs'], 1e-9)
    probes = {k: v for k, v in sorted(agg['c'].items()) if not k.startswith('seam.')}
    seams = {k[5:]: v for k, v in sorted(agg['c'].items()) if k.startswith('seam.')}
    cov = dict(
        evaluations=agg['runs'],
        distinct_nontrivial=len(agg['cases']),
        rule=getattr(mod, 'RULE', {}).get(pid) if isinstance(getattr(mod, 'RULE', None), dict) else mod.RULE,
        samples=agg['samples'][:2],
        runs_planned=total,
        simulated_runs_per_hour=int(agg['runs'] * 3600 / secs),
        seeds_per_hour=int(agg['runs'] * 3600 / secs),
        simulated_seconds_covered=round(agg['simt'], 3),
        simulated_events=agg['events'],
        faults_injected=dict(sorted(agg['faults'].items())),
        distinct_states=len(agg['states']),
        distinct_states_measure=getattr(mod, 'MEASURE', 'distinct (fault kind x place, schedule hash, configuration '
                                                        'class) tuples recorded by the runs'),
        probes=probes,
        seam_calls=seams,
        determinism=dict(runs_repeated=agg['redo'], diverged=agg['diverged']),
        real_components=getattr(mod, 'REAL', 'all of pymcmcstat as imported from /repo; numpy; scipy; the HDF5 '
                                'library (on a file object owned by the simulator)'),
        stubbed_components=getattr(mod, 'STUB', 'clock; OS entropy and random number source; directory listing order; '
                                   'file writes (fault layer over a scratch directory); multiprocessing pool '
                                   '(virtual processes under the seeded scheduler); user callbacks'),
    )
    if known_lines:
        cov['known_findings'] = known_lines
        cov['known_finding_runs'] = dict(agg['known'])
    ev = dict(property=pid, tier=tier, seed=a.seed, level='fault_enumeration' if False else 'exploration',
              coverage=cov, wall_s=round(wall, 2), violations=nv,
              assumptions=list(getattr(mod, 'ASSUME', ['samples seeded runs; a clean batch is evidence, not proof'])))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)


if __name__ == '__main__':
    main()
