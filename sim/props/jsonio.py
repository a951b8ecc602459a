"""P08: saved results.

Runs save their results; they are loaded again in another process, restarted
from, and overwritten by runs whose export is hit by a crash or an I/O error at
an arbitrary disk operation.  What loads is always one complete set of results:
the previous one or the new one, bit for bit."""
import copy
import gc
import json
import os
import re

import numpy as np

from .. import engine, ref, scen, seams
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, arr_eq, load, muted, quiet, rec_of, redefine, same, snap, swarm
from ..seams import SimCrash
from .logs import names

RUNS = (4000, 400000)
RULE = ('random model and options saving results to json with or without logs, default or chosen file name; a history of one '
        'to three runs (fresh or continued) over one results file; other json files in the directory, random listing order; '
        'loading in a new process; restarting a new object from the file; a crash, torn write, full disk or I/O error at a '
        'random disk operation of a later run; non-trivial: the results were loaded back')
MEASURE = 'distinct (history, fault kind and operation, outcome old/new, light, method, fixed parameters, restart) tuples'
ASSUME = ['samples seeded runs; a clean batch is evidence, not proof',
          'process-crash model: what was written to the file system survives, what Python still buffered is lost',
          'every fault hits the run that writes over an existing results file']

SCRATCH = re.compile('/[a-z/]*/pymcsim-[0-9]+-[0-9]+')


def gen(r, pid, tier):
    case = scen.gen_case(r, nmax=r.choice([5, 12, 25]), walls=r.random() < 0.15, updatesigma_p=0.45, units=(1e-9, 1e-3, 1e3, 1e12))
    o = case['opts']
    if r.random() < 0.08:
        o['nsimu'] = r.choice([1, 2])
    o['savedir'] = 'out'
    o['save_to_json'] = True
    k = r.random()
    o['save_to_bin'] = k < 0.35
    o['save_to_txt'] = 0.25 < k < 0.55
    o['savesize'] = r.choice([0, 1, 3, 10])
    if r.random() < 0.75:
        o['results_filename'] = r.choice(['r.json', 'results.json', 'Z.json', '0.json', 'my_results.json'])
    if r.random() < 0.3:
        for kk, v in (('chainfile', 'mychain'), ('sschainfile', 'ss_values'), ('s2chainfile', 's2.values'),
                      ('covchainfile', 'nsimu_cov')):
            if r.random() < 0.7:
                o[kk] = v
    case['custom'] = [dict(id=0)]
    phases = [dict(kind='fresh')]
    while r.random() < 0.4 and len(phases) < 3:
        phases.append(dict(kind='extend', nsimu=r.choice([2, 4, 9])))
    w = swarm(r, stalls=False)
    full = dict(case=case, phases=phases, world=w, others=r.sample(['a.json', 'm.json', 'zz.json', 'chain.json', '.json'],
                                                                  r.choice([0, 0, 1, 2, 3])))
    if r.random() < 0.5 and len(phases) > 1 and 'results_filename' in o:
        full['fault'] = dict(kind=r.choice(['crash_before', 'crash_after', 'torn', 'torn', 'eio', 'enospc', 'emfile']),
                             pos=r.random(), frac=r.choice([0.0, 0.1, 0.5, 0.99]))
    elif r.random() < 0.5:
        full['restart'] = dict(nsimu=r.choice([3, 8, 20]), rngseed=r.randrange(1, 2 ** 31), move=r.random() < 0.5)
    return full


def runs(w, full, hook=None):
    """Execute the history; yields after each run."""
    case = full['case']
    opts = dict(case['opts'])
    with quiet():
        mc = scen.build(w, case)
    for k, ph in enumerate(full['phases']):
        if k:
            opts['nsimu'] = ph['nsimu']
            mc.simulation_options.nsimu = ph['nsimu']
        if hook:
            hook(k)
        with quiet():
            mc.run_simulation(use_previous_results=k > 0)
        yield k, mc, opts


def stored(v):
    """What a value looks like once saved and loaded."""
    if isinstance(v, (np.ndarray, np.generic)):
        return stored(v.tolist())
    if isinstance(v, dict):
        return {str(k): stored(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [stored(x) for x in v]
    if isinstance(v, str):
        return SCRATCH.sub('<scratch>', v)
    return v


def deep(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(deep(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(deep(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return a == b


def is_light(opts):
    return bool(opts.get('save_to_bin') or opts.get('save_to_txt'))


def differences(js, want, light):
    """Keys in which a loaded file is not the results `want`."""
    bad = []
    for k, v in want.items():
        if light and k in ('chain', 'sschain', 's2chain'):
            if k in js:
                bad.append(k)
            continue
        if k not in js or not deep(stored(js[k]), v):
            bad.append(k)
    return bad + [k for k in js if k not in want]


def keep(mc):
    """Results as they are now, and the nested settings."""
    return stored(snap(mc.simulation_results.results))


def run(full, pid):
    out = Out()
    case = full['case']
    o = case['opts']
    light = is_light(o)
    fault = full.get('fault')
    versions = []
    spans = []
    with World(full['world']) as w:
        d = os.path.join(w.scratch, 'out')
        with muted():
            os.makedirs(d)
            for name in full['others']:
                with open(os.path.join(d, name), 'w') as f:
                    json.dump({'theta': [12345.0], 'chain': [[1.0]], 'nsimu': 77}, f)
        marks = []
        for k, mc, opts in runs(w, full, lambda k: marks.append(w.nfs)):
            versions.append(keep(mc))
            spans.append((marks[-1], w.nfs))
            found = [n for n in sorted(seams.real_os['listdir'](d)) if n.endswith('.json') and n not in full['others']]
            if len(found) != (1 if 'results_filename' in o else len(set(found))) or not found:
                out.bad('file', 'results files %s' % found)
                break
            target = o.get('results_filename') or found[-1]
            check_loaded(w, full, d, target, versions[-1], mc, light, out, mc.simulation_results.results)
            if out.viol:
                break
        fslog = list(w.fslog)
        if full.get('restart') and not out.viol:
            final = snap(mc.simulation_results.results)
            restart(w, full, os.path.join('out', target), final, out)
        out.nontrivial = True
        outcome = ''
        out.absorb(w)
    if fault and not out.viol:
        outcome = interrupted(full, versions, spans, fslog, light, out)
    out.state(len(full['phases']), fault['kind'] if fault else '', outcome, light, o['method'],
              len(scen.sampled(case)) < len(case['params']), bool(full.get('restart')), len(full['others']) > 0)
    return out


def check_loaded(w, full, d, target, want, mc, light, out, live):
    """Loaded by a process which knows nothing but the directory and the file name."""
    js = scen.CP.load_json_object(os.path.join(d, target))
    diff = differences(js, want, light)
    if diff:
        out.bad('roundtrip', 'loaded results differ from those of the run in %s' % diff[:6])
        return
    js2 = mc.simulation_results.load_json_object(os.path.join(d, target))
    if differences(js2, want, light):
        out.bad('roundtrip', 'results loaded through the results structure differ')
    exts = [e for e, f in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')) if full['case']['opts'].get(f)] or ['h5', 'txt']
    for ext in exts:
        kws = [dict(json_file=target)]
        if not full['others'] and 'results_filename' in full['case']['opts']:
            kws.append({})
        for kw in kws:
            with quiet():
                got = scen.CP.load_serial_simulation_results(d, extension=ext, **kw, **names(full['case']['opts']))
            if light:
                R = np.asarray(want['R'])
                cv = np.asarray(got['covchain'], dtype=float)
                if cv.ndim != 2 or not arr_eq(cv[-R.shape[0]:], R.T.dot(R)):
                    out.bad('requested', 'the last proposal covariance loaded is not that of the run')
            for k in ('chain', 'sschain', 's2chain'):
                a = want[k]
                if a is None:
                    if got.get(k) is not None and np.size(got[k]):
                        out.bad('roundtrip', 'loaded %s although there was none' % k)
                elif not arr_eq(got[k], a):
                    out.bad('requested', 'loading %s gives a %s of shape %s instead of %s' % (
                        kw, k, np.shape(got[k]), np.shape(a)))
            for k in ('theta', 'R', 'qcov', 'cov', 'mean', 'total_rejected', 'nsimu'):
                if not arr_eq(got[k], want[k]):
                    out.bad('requested', 'loading %s gives another %s' % (kw, k))
            if list(got['names']) != list(want['names']):
                out.bad('requested', 'loading %s gives names %s' % (kw, list(got['names'])))
            out.c['loaded'] += 1


def restart(w, full, path, final, out):
    """A new object, possibly set up with other initial values, starts where the saved run ended."""
    rs = full['restart']
    case = copy.deepcopy(full['case'])
    case['rngseed'] = rs['rngseed']
    o = case['opts']
    for k in ('savedir', 'save_to_bin', 'save_to_txt', 'save_to_json', 'results_filename', 'chainfile', 'sschainfile', 's2chainfile',
              'covchainfile'):
        o.pop(k, None)
    o['nsimu'] = rs['nsimu']
    o['json_restart_file'] = path
    ind = scen.sampled(case)
    given = copy.deepcopy(case)
    if rs['move']:
        for p in given['params']:
            if p.get('sample', True) and p.get('min') is None and p.get('max') is None:
                p['theta0'] = p['theta0'] + 0.125
    # the proposal of the sampled parameters at the end of the saved run
    q = np.array(final['qcovorig'], dtype=float)
    q[np.ix_(ind, ind)] = sub = np.asarray(final['qcov'], dtype=float)
    good = np.isfinite(q).all() and np.linalg.eigvalsh((sub + sub.T) / 2)[0] > 1e-12 * np.abs(sub).max()
    mark = len(w.procs[0].ev)
    with quiet():
        mc = scen.build(w, given)
        try:
            mc.run_simulation()
        except np.linalg.LinAlgError:
            if good:
                raise
            out.c['restart.singular'] += 1
            return
    res = mc.simulation_results.results
    theta = np.asarray(final['theta'], dtype=float)
    c = copy.deepcopy(given)
    for p, g, v in zip(c['params'], given['params'], theta):
        if p.get('sample', True):
            if p.get('mu') == 'nan':
                p['mu'] = g['theta0']
            p['theta0'] = float(v)
    th0 = np.array([p['theta0'] for p in c['params']], dtype=float)
    o2 = dict(c['opts'])
    rec = rec_of(w, c, mc, mark, o2, 0, th0)
    engine.check_containment(c, rec.ev, res, out)
    engine.check_rows(c, rec, out)
    if not arr_eq(res['chain'][0], np.asarray(final['chain'])[-1]):
        out.bad('restart', 'the restarted chain begins at %s, the saved one ended at %s' % (
            res['chain'][0].tolist(), np.asarray(final['chain'])[-1].tolist()))
    out.c['restarted'] += 1
    P = len(c['params'])
    if not out.viol and good and np.linalg.cond(sub) < 1e6 and (np.linalg.eigvalsh((sub + sub.T) / 2) > 1e-8).all():
        o2['qcov'] = q.tolist() if P > 1 else [[float(q.reshape(-1)[0])]]
        rp = ref.Replay(c, rec, s2_first=None)
        out.viol += rp.bad
        out.c['restart.replayed'] += 1


def interrupted(full, versions, spans, fslog, light, out):
    f = full['fault']
    last = len(full['phases']) - 1
    a, b = spans[last]
    k = f['kind']
    ops = list(range(a, b))
    if k in ('torn', 'enospc'):
        ops = [i for i in ops if fslog[i][0] == 'write'] or ops
    if k == 'emfile':
        ops = [i for i in ops if fslog[i][0] in ('open', 'h5open')] or ops
    # the export comes last: put most of the faults there
    if not ops:
        return 'none'
    tail = [i for i in ops if '.json' in str(fslog[i][1])]
    if tail and f['pos'] < 0.8:
        ops = tail
        pos = f['pos'] / 0.8
    else:
        pos = f['pos']
    i = ops[min(len(ops) - 1, int(pos * len(ops)))]
    where = fslog[i][0]
    cfg = dict(full['world'], faults={str(i): dict(kind=k, frac=f['frac'])})
    name = full['case']['opts']['results_filename']
    outcome = ''
    with World(cfg) as w:
        d = os.path.join(w.scratch, 'out')
        with muted():
            os.makedirs(d)
            for nm in full['others']:
                with open(os.path.join(d, nm), 'w') as fh:
                    json.dump({'theta': [12345.0], 'chain': [[1.0]], 'nsimu': 77}, fh)
        err = None
        try:
            for _ in runs(w, full):
                pass
        except (SimCrash, OSError, RuntimeError, ValueError) as ex:
            err = type(ex)
            ex = None
        _ = None
        gc.collect()
        crashed = w.crashed
        fired = sum(v for kk, v in w.fault_counts.items() if not kk.startswith('clock'))
        if not fired and err is not None:
            raise RuntimeError('failed with %s although nothing was injected' % err)
        w.restart()
        gc.collect()
        out.c['crashed' if crashed else 'failed' if err else 'completed'] += 1
        path = os.path.join(d, name)
        try:
            js = scen.CP.load_json_object(path)
        except Exception as ex:
            if last == 0 and not os.path.exists(path) and (err or crashed):
                return 'none'
            out.bad('destroyed', 'after %s at %s the results file cannot be loaded: %s' % (k, where, explain_exc(ex)))
        else:
            hit = [v for v in (last, last - 1) if v >= 0 and not [x for x in differences(js, versions[v], light)
                                                       if x not in ('simutime',)]]
            if not hit:
                out.bad('destroyed', 'after %s at %s the results file holds neither the previous nor the new results' % (
                    k, where))
            else:
                outcome = 'new' if hit[0] == last else 'old'
                if err is None and not crashed and outcome == 'old':
                    out.bad('destroyed', 'a run that completed did not save its results')
        out.state('fault', k, where, outcome, crashed)
        out.absorb(w)
    return outcome
