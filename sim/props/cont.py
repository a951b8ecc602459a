"""P07 continuing a simulation; P15 exceptions from user functions.

A history is a sequence of runs of one object: fresh, continued, with or
without new options, and interrupted by an exception of a user function at an
arbitrary call.  What is never interrupted must be a faithful continuation of
the last completed run."""
import gc
import os
import shutil

import numpy as np

from .. import engine, ref, scen, seams
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, arr_eq, load, quiet, read_index, rec_of, redefine, same, snap, swarm, theta0

RUNS = {'P07': (9000, 600000), 'P15': (9000, 600000)}
RULE = ('random model and options; a history of 2 to 5 runs of one object (fresh, continued, repeated, interrupted by an '
        'exception at a random callback), logging to disk in part of them; non-trivial: at least one run was continued '
        '(P07) or interrupted by an exception that actually fired (P15)')
MEASURE = 'distinct (sequence of run kinds and outcomes, exception kind, callback kind, method, logging) tuples'

EXC = {'value': ValueError, 'runtime': RuntimeError, 'zero': ZeroDivisionError, 'key': KeyError, 'type': TypeError,
       'float': FloatingPointError, 'mem': MemoryError, 'interrupt': KeyboardInterrupt, 'inj': seams.InjectedError,
       'os': OSError, 'stop': StopIteration, 'linalg': np.linalg.LinAlgError,
       'args': seams.InjectedArgsError, 'opaque': seams.InjectedOpaqueError}


def gen(r, pid, tier):
    case = scen.gen_case(r, nmax=r.choice([12, 25, 40]), walls=r.random() < 0.3, updatesigma_p=0.5)
    case['custom'] = [dict(id=i, save=r.random() < 0.3, cols=r.choice([1, 2]), file='cs%d' % i)
                      for i in range(r.choice([1, 1, 2]))]
    o = case['opts']
    if r.random() < 0.5:
        o['savedir'] = 'out'
        o['save_to_bin'] = r.random() < 0.6
        o['save_to_txt'] = r.random() < 0.6
        o['savesize'] = r.choice([0, 1, 2, 3, 5, 7, 10])
    if r.random() < 0.25:
        o['savedir'] = 'out'
        o['save_to_json'] = True
        o['results_filename'] = 'res.json'
    phases = [dict(kind='fresh')]
    n = r.choice([1, 1, 2, 3, 4])
    if pid == 'P15' and r.random() < 0.3:
        phases[0]['raise'] = fault(r, o['nsimu'])
    for _ in range(n):
        ph = dict(kind=r.choice(['extend', 'extend', 'extend', 'fresh'] if pid == 'P15' else
                                ['extend', 'extend', 'extend', 'extend', 'fresh']),
                  nsimu=r.choice([2, 3, 5, 10, 20]), redefine=r.random() < 0.5)
        if r.random() < (0.55 if pid == 'P15' else 0.25):
            ph['raise'] = fault(r, ph['nsimu'])
        if ph['redefine'] and r.random() < 0.3:
            ph['qcov_from_results'] = True
        if ph['redefine'] and r.random() < 0.3 and o['method'] in ('am', 'dram'):
            ph['adaptint'] = r.choice([2, 4, 9])
        phases.append(ph)
    if all(p['kind'] == 'fresh' for p in phases) and pid == 'P07':
        phases.append(dict(kind='extend', nsimu=5, redefine=False))
    return dict(case=case, phases=phases, world=swarm(r, n=4 * o['nsimu']))


def fault(r, n):
    return dict(at=r.randrange(0, 3 * n + 6), exc=r.choice(sorted(EXC)))


def expected_exc(ex, name):
    return isinstance(ex, EXC[name]) and 'injected' in str(ex)


def run(full, pid):
    out = Out()
    case = full['case']
    trail = []
    with World(full['world']) as w:
        with quiet():
            mc = scen.build(w, case)
        opts = dict(case['opts'])
        done = None             # snapshot of the last completed run
        done_obj = None
        ndir = nrun = 0
        savedir = None
        fired = extended = 0
        dirty = False           # an interrupted run came after the last completed one
        for ph in full['phases']:
            kind = ph['kind']
            if kind == 'extend' and done is None:
                # nothing to continue: the package says so and stops
                with quiet():
                    try:
                        mc.run_simulation(use_previous_results=True)
                        out.bad('nothing', 'continued although no run was ever completed')
                    except SystemExit:
                        out.c['extend.nothing'] += 1
                continue
            if ph.get('nsimu'):
                opts = dict(opts, nsimu=ph['nsimu'])
            if ph.get('redefine') and savedir is not None:
                if ph.get('adaptint') and opts['method'] in ('am', 'dram'):
                    opts['adaptint'] = ph['adaptint']
                if ph.get('qcov_from_results') and done is not None:
                    q = np.asarray(done['qcovorig'])
                    if np.isfinite(q).all() and np.linalg.cond(q) < 1e6 and (np.linalg.eigvalsh(q) > 1e-8).all():
                        opts['qcov'] = q.tolist()
                redefine(w, mc, opts)
            else:
                mc.simulation_options.nsimu = opts['nsimu']
            if kind == 'fresh' or dirty:
                # a directory with logs of an abandoned run is not used again
                ndir += 1
                opts['savedir'] = 'out%d' % ndir
                savedir = os.path.join(w.scratch, 'out%d' % ndir)
                mc.simulation_options.savedir = savedir
                first_row = 0 if kind == 'fresh' else done['chain'].shape[0]
            if kind == 'fresh':
                start = 0
                th0 = np.array([p['theta0'] for p in mc.parameters.parameters], dtype=float)
            else:
                start = done['chain'].shape[0] - 1
                th0 = np.array(done['theta'], dtype=float)
            mark = len(w.procs[0].ev)
            w.cbfaults = {}
            if ph.get('raise'):
                w.cbfaults = {w.ncb + ph['raise']['at']: dict(kind='raise', exc=ph['raise']['exc'])}
            nrun += 1
            nf = w.fault_counts.get('callback-exception', 0)
            err = None
            with quiet():
                try:
                    mc.run_simulation(use_previous_results=(kind == 'extend'))
                except BaseException as ex:         # noqa
                    err = ex
            hit = w.fault_counts.get('callback-exception', 0) > nf
            w.cbfaults = {}
            if err is not None and not hit:
                raise err
            if hit:
                fired += 1
                trail.append('%s!%s' % (kind, ph['raise']['exc']))
                if err is None:
                    out.bad('swallowed', 'an exception (%s) of a user function at call %d was swallowed' % (
                        ph['raise']['exc'], ph['raise']['at']))
                    break
                if not expected_exc(err, ph['raise']['exc']):
                    out.bad('changed', 'a user function raised %s, run_simulation raised %s' % (
                        ph['raise']['exc'], explain_exc(err)))
                    break
                err = None
                if done is not None:
                    if mc.simulation_results is not done_obj[0]:
                        out.bad('lost', 'the interrupted run replaced the previous results')
                    else:
                        diff = changed(done, done_obj[0].results)
                        if diff:
                            out.bad('lost', 'the interrupted run changed %s of the previous results' % diff)
                elif getattr(mc, 'simulation_results', None) is not None:
                    out.bad('lost', 'an interrupted first run left results behind')
                dirty = True
                if out.viol:
                    break
                continue
            trail.append(kind)
            res = mc.simulation_results.results
            if done_obj is not None:
                diff = changed(done, done_obj[0].results)
                if diff:
                    out.bad('alias', 'running again changed %s of the earlier results' % diff)
            rec = rec_of(w, case, mc, mark, opts, start, th0)
            n0 = len(out.viol)
            engine.check_containment(case, rec.ev, res, out)
            engine.check_rows(case, rec, out, done, first=nrun == 1)
            if len(out.viol) == n0:
                rp = ref.Replay(case, rec, s2_first=None)
                out.viol += rp.bad
                engine.check_counters(case, rec, rp, out)
                engine.check_custom(case, rec, out)
                engine.probe_stats(out, case, rp)
            if kind == 'extend':
                extended += 1
            if not out.viol:
                check_logs(case, opts, savedir, res, rec, first_row, out)
            dirty = False
            done = snap(res)
            done_obj = (mc.simulation_results,)
            if out.viol:
                break
        out.state(','.join(trail), opts['method'], bool(opts.get('save_to_bin')), bool(opts.get('save_to_txt')))
        out.c['interrupted'] += fired
        out.c['extended'] += extended
        out.nontrivial = (fired if pid == 'P15' else extended) > 0
        out.absorb(w)
    return out


def changed(old, new):
    return [k for k in engine.FIXED_KEYS if k in old and not same(old[k], new.get(k))]


def check_logs(case, opts, savedir, res, rec, first, out):
    """Every element of the chain is in the logs once, those of the continued part included
    (from row `first` when the continuation writes to a directory of its own)."""
    for ext, flag in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')):
        if not opts.get(flag):
            continue
        with muted():
            if not os.path.isdir(savedir):
                out.bad('logs', 'no logs were written')
                return
            idx = read_index(os.path.join(savedir, 'binlogfile.txt' if ext == 'h5' else 'txtlogfile.txt')) or []
            got = load(savedir, ext)
        cover = [k for (a, b) in idx for k in range(a, b + 1)]
        n = rec.start + rec.nsimu
        if cover != list(range(first, n)):
            out.bad('logs', '%s index lists rows %s of a chain of %d' % (ext, idx, n))
            return
        for key in ('chain', 'sschain', 's2chain'):
            if res[key] is None:
                continue
            if not arr_eq(got[key], res[key][first:]):
                out.bad('logs', '%s log of %s has shape %s and differs from the chain of shape %s (from row %d)' % (
                    ext, key, np.shape(got[key]), np.shape(res[key]), first))
                return
        out.c['logs.checked'] += 1
        if first:
            out.c['logs.owndir'] += 1
