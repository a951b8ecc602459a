"""P06: a crash, an I/O error or an exception at any point of a logging run leaves
logs that load as true leading rows of the chain, covering at least every row
listed in their index.

Each case is executed twice from one seed: once undisturbed (its chain is the
truth, and it counts the places where something can go wrong), once with the
fault at the chosen place.  After a crash only what reached the disk survives."""
import gc
import os

import numpy as np

from .. import scen, seams
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, arr_eq, load, muted, quiet, read_index, redefine, snap, swarm
from ..seams import SimCrash
from .logs import names

RUNS = (1800, 400000)
RULE = ('random model and options with binary and/or text logging, fresh or continued; one fault at a uniformly chosen disk '
        'operation (crash before or after it, torn write, full disk, I/O error, no file handles) or user callback (crash, '
        'exception), with random write buffer sizes; non-trivial: the fault fired')
MEASURE = 'distinct (fault kind and operation, format, segments completed, rows beyond the index, continued) tuples'
ASSUME = ['samples seeded runs; a clean batch is evidence, not proof',
          'process-crash model: what was written to the file system survives, what Python or HDF5 still buffered is lost',
          'a crash in the middle of one HDF5 flush is a known finding and only checked for the other files']
KINDS = ('crash_before', 'crash_after', 'torn', 'eio', 'enospc', 'emfile', 'cb_crash', 'cb_raise', 'h5flush', 'short')


def gen(r, pid, tier):
    case = scen.gen_case(r, nmax=r.choice([12, 25, 40]), walls=False, updatesigma_p=0.5, units=(1e-9, 1e-3, 1e3, 1e12))
    o = case['opts']
    o['savedir'] = 'logs'
    k = r.random()
    o['save_to_bin'] = k < 0.65
    o['save_to_txt'] = k > 0.35
    o['savesize'] = r.choice([0, 1, 2, 3, 4, 5, 7, 10])
    if r.random() < 0.2:
        o['chainfile'] = 'mychain'
    if r.random() < 0.3:
        o['save_to_json'] = True
        o['results_filename'] = 'r.json'
    case['custom'] = [dict(id=0, save=r.random() < 0.3, file='custom')]
    phases = [dict(kind='fresh')]
    if r.random() < 0.3:
        phases.append(dict(kind='extend', nsimu=r.choice([3, 6, 11])))
    kind = r.choice(['crash_before', 'crash_before', 'crash_after', 'torn', 'torn', 'eio', 'enospc', 'emfile', 'cb_crash',
                     'cb_raise', 'h5flush'])
    full = dict(case=case, phases=phases, world=swarm(r, stalls=False), fault=dict(
        kind=kind, pos=r.random(), frac=r.choice([0.0, 0.1, 0.5, 0.9, 0.99])))
    if r.random() < 0.3:
        full['again'] = r.randrange(1, 2 ** 31)
    return full


def execute(w, full, out):
    case = full['case']
    mc = None
    with quiet():
        mc = scen.build(w, case)
        opts = dict(case['opts'])
        for k, ph in enumerate(full['phases']):
            if k:
                opts['nsimu'] = ph['nsimu']
                redefine(w, mc, opts)
            mc.run_simulation(use_previous_results=k > 0)
    return mc


def run(full, pid):
    out = Out()
    case = full['case']
    f = full['fault']
    with World(full['world']) as w:
        mc = execute(w, full, out)
        truth = snap(mc.simulation_results.results)
        nfs, nh5, ncb = w.nfs, w.nh5w, w.ncb
        fslog, h5log = list(w.fslog), list(w.h5log)
        del mc
    cfg = dict(full['world'])
    where = ''
    k = f['kind']
    if k == 'h5flush':
        if nh5 == 0:
            k = 'crash_before'
        else:
            i = int(f['pos'] * nh5)
            cfg['h5faults'] = {str(i): dict(frac=f['frac'])}
            where = os.path.basename(h5log[i][1])
    if k in ('cb_crash', 'cb_raise'):
        i = int(f['pos'] * ncb)
        cfg['callbacks'] = {str(i): dict(kind=k[3:], exc='inj')}
        where = 'callback'
    elif k != 'h5flush':
        ops = range(nfs)
        if k == 'torn' or k == 'enospc':
            wr = [i for i in ops if fslog[i][0] == 'write']
            ops = wr or list(ops)
            if not wr:
                k = 'crash_before'
        if k == 'emfile':
            op = [i for i in range(nfs) if fslog[i][0] in ('open', 'h5open')]
            ops = op or list(ops)
        if nfs == 0:
            out.nontrivial = False
            return out
        i = ops[int(f['pos'] * len(ops))]
        cfg['faults'] = {str(i): dict(kind=k, frac=f['frac'])}
        where = fslog[i][0]
    exts = [e for e, fl in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')) if case['opts'].get(fl)]
    with World(cfg) as w:
        d = os.path.join(w.scratch, 'logs')
        err = None
        mc = None
        try:
            mc = execute(w, full, out)
        except (SimCrash, Exception) as ex:          # noqa
            err = type(ex)
            if not isinstance(ex, SimCrash) and 'njected' not in type(ex).__name__ and \
                    not isinstance(ex, (OSError, RuntimeError, ValueError, KeyError)):
                raise
            ex = None
        fired = sum(w.fault_counts.get(x, 0) for x in w.fault_counts if not x.startswith('clock'))
        complete = err is None
        if complete:
            results = snap(mc.simulation_results.results)
            for key in ('chain', 'sschain', 's2chain'):
                if not same(results[key], truth[key]):
                    out.bad('diverged', 'the %s of the disturbed run differs from that of the undisturbed one' % key)
        mc = None
        gc.collect()
        crashed = w.crashed
        w.restart()
        gc.collect()
        segs = 0
        beyond = 0
        if not os.path.isdir(d):
            if complete:
                out.bad('missing', 'the run completed without logs')
        else:
            for ext in exts:
                idx = read_index_lenient(os.path.join(d, 'binlogfile.txt' if ext == 'h5' else 'txtlogfile.txt'))
                rows = [x for (a, b) in idx for x in range(a, b + 1)]
                if rows != list(range(len(rows))):
                    out.bad('index', '%s index lists %s' % (ext, idx))
                    continue
                try:
                    got = load(d, ext, **names(case['opts']))
                except Exception as ex:
                    out.bad('load', 'the logs left behind cannot be loaded: %s' % explain_exc(ex))
                    continue
                segs = max(segs, len(idx))
                for key in ('chain', 'sschain', 's2chain'):
                    if truth[key] is None:
                        continue
                    fname = case['opts'].get(key + 'file', key + 'file') + '.' + ext
                    t = np.asarray(truth[key])
                    g = np.asarray(got[key], dtype=float)
                    m = 0 if g.size == 0 else g.shape[0]
                    beyond = max(beyond, m - len(rows))
                    ok = m >= len(rows) and m <= t.shape[0] and (m == 0 or arr_eq(g, t[:m]))
                    if complete and m != t.shape[0]:
                        ok = False
                    if not ok:
                        if k == 'h5flush' and fname == where and crashed:
                            out.known.append('h5-flush')
                            continue
                        out.bad('rows', 'after %s at %s (%s): %s log of %s loads %d rows%s, its index lists %d%s' % (
                            k, where, 'crashed' if crashed else (err.__name__ if err else 'completed'), ext, key, m,
                            '' if m == 0 or m > t.shape[0] or arr_eq(g, t[:m]) else ' that are not the first rows of the chain',
                            len(rows), '' if not complete else ' of a completed run of %d' % t.shape[0]))
        if full.get('again') and not out.viol:
            again(w, full, d, exts, out)
        if not complete and not crashed and not fired:
            raise RuntimeError('run failed with %s although nothing was injected' % err)
        out.c['crashed'] += crashed
        out.c['failed'] += (not crashed and not complete)
        out.c['completed'] += complete
        out.c['segments.survived'] += segs
        out.c['rows.beyond.index'] += beyond > 0
        out.state(k, where, ','.join(exts), min(segs, 8), beyond > 0, len(full['phases']))
        out.nontrivial = fired > 0
        out.absorb(w)
    return out


def again(w, full, d, exts, out):
    """The simulation is repeated into the directory it left behind: an error, or a log that ends with its chain."""
    case = dict(full['case'], rngseed=full['again'])
    torn = False
    if os.path.isdir(d):
        with muted():
            for n in os.listdir(d):
                if n.endswith('.txt'):
                    with open(os.path.join(d, n)) as fh:
                        t = fh.read()
                    torn = torn or (t != '' and not t.endswith('\n'))
    try:
        mc = execute(w, dict(full, case=case, phases=full['phases'][:1]), out)
    except Exception:
        out.c['again.refused'] += 1
        return
    res = snap(mc.simulation_results.results)
    for ext in exts:
        if ext == 'txt' and torn:
            continue
        got = load(d, ext, **names(case['opts']))
        for key in ('chain', 'sschain', 's2chain'):
            if res[key] is None:
                continue
            t = np.asarray(res[key])
            g = np.asarray(got[key], dtype=float)
            if g.ndim != 2 or g.shape[0] < t.shape[0] or not arr_eq(g[-t.shape[0]:], t):
                out.bad('again', 'repeated in a directory with older logs, the simulation ended without an error but its %s '
                        'is not what the %s log ends with' % (key, ext))
                return
    out.c['again.logged'] += 1


def read_index_lenient(path):
    """Complete lines of an index; a torn last line lists nothing."""
    out = []
    if not os.path.exists(path):
        return out
    with muted():
        with open(path) as fh:
            text = fh.read()
    for line in text.split('\n')[:-1]:
        p = line.split('\t')
        if len(p) < 3:
            continue
        out.append((int(p[1]), int(p[2])))
    return out
