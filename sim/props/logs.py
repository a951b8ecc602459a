"""P05: what is read back from the logs is the chain, exactly.

Whole histories of runs logging to disk (binary, text or both) through the
simulated file layer: tiny write buffers, short writes, clock jumps (the index
carries time stamps), reading in arbitrary listing order, in the same process
or after a restart, and reading while the run is still going on."""
import os
import random

import numpy as np

from .. import engine, ref, scen
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, arr_eq, load, muted, quiet, read_index, rec_of, redefine, snap, swarm, theta0

RUNS = (2500, 500000)
RULE = ('random model and options with logging to binary and/or text files, any save interval, default or user-chosen file '
        'names, custom samplers with their own chains; one fresh run and up to three continued ones, short writes and '
        'clock jumps injected; the logs are read back after every run and, from inside a user callback, while one is '
        'going on; non-trivial: at least two segments were written')
MEASURE = 'distinct (format, number of segments, remainder rows, columns, error variance logged, continued, file names)'


def gen(r, pid, tier):
    case = scen.gen_case(r, nmax=r.choice([12, 25, 45]), walls=r.random() < 0.2, updatesigma_p=0.5, units=(1e-9, 1e-3, 1e3, 1e12))
    o = case['opts']
    if r.random() < 0.15:
        o['nsimu'] = r.choice([1, 2])
    elif r.random() < 0.12:
        o['nsimu'] = r.choice([101, 120, 210, 1010])
        o.pop('RDR', None)
    o['savedir'] = 'logs'
    k = r.random()
    o['save_to_bin'] = k < 0.7
    o['save_to_txt'] = k > 0.35
    n = o['nsimu']
    o['savesize'] = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 11, n - 1, n, n + 1, 100])
    if n >= 100 and o['savesize'] in (1, 2):
        o['savesize'] = r.choice([9, 10, 99, 100])
    if r.random() < 0.3:
        for kk, v in (('chainfile', 'mychain'), ('sschainfile', 'ss_values'), ('s2chainfile', 's2.values'),
                      ('covchainfile', 'nsimu_cov')):
            if r.random() < 0.7:
                o[kk] = v
    case['custom'] = [dict(id=0, rows=n + 60)]
    for i in range(1, r.choice([1, 2, 3])):
        case['custom'].append(dict(id=i, save=r.random() < 0.8, cols=r.choice([1, 2, 3]), rows=n + 60,
                                   file='custom_%d' % i))
    phases = [dict(kind='fresh')]
    while r.random() < 0.35 and len(phases) < 4:
        phases.append(dict(kind='extend', nsimu=r.choice([2, 3, 6, 11, 25]), redefine=r.random() < 0.5,
                           savesize=r.choice([None, 1, 2, 4, 7])))
    w = swarm(r, n=4 * n)
    if r.random() < 0.5:
        w['faults'] = {str(r.randrange(0, 120)): dict(kind='short', frac=r.choice([0.0, 0.1, 0.5, 0.9]))
                       for _ in range(r.choice([1, 3, 10]))}
    look = sorted(r.sample(range(2, max(4, 3 * n)), 2)) if r.random() < 0.3 else []
    return dict(case=case, phases=phases, world=w, look=look)


def names(o):
    return {k: o[k] for k in ('chainfile', 'sschainfile', 's2chainfile', 'covchainfile') if k in o}


def run(full, pid):
    out = Out()
    case = full['case']
    seg_total = 0
    with World(full['world']) as w:
        peeks = []
        mark = 0
        d = os.path.join(w.scratch, 'logs')
        if full.get('look'):
            plain = w.callback

            def callback(kind):
                f = plain(kind)
                if w.ncb in full['look']:
                    with muted():
                        peeks.append((made(w, mark), look(d, case['opts'])))
                return f
            w.callback = callback
        with quiet():
            mc = scen.build(w, case)
        opts = dict(case['opts'])
        prev = None
        covs = {'h5': [], 'txt': []}
        custom = {}
        for ph in full['phases']:
            if ph['kind'] == 'extend' and prev is None:
                continue
            if prev is not None:
                opts = dict(opts, nsimu=ph['nsimu'])
                if ph.get('savesize') is not None:
                    opts['savesize'] = ph['savesize']
                if ph.get('redefine'):
                    redefine(w, mc, opts)
                else:
                    mc.simulation_options.nsimu = opts['nsimu']
                    mc.simulation_options.savesize = opts['savesize']
            mark = len(w.procs[0].ev)
            start = 0 if prev is None else prev['chain'].shape[0] - 1
            th0 = theta0(case) if prev is None else np.array(prev['theta'])
            with quiet():
                mc.run_simulation(use_previous_results=prev is not None)
            res = mc.simulation_results.results
            rec = rec_of(w, case, mc, mark, opts, start, th0)
            rec.prev = prev is not None
            nseg = {}
            with muted():
                for ext, flag, idxname in (('h5', 'save_to_bin', 'binlogfile.txt'),
                                           ('txt', 'save_to_txt', 'txtlogfile.txt')):
                    idxpath = os.path.join(d, idxname)
                    if not opts.get(flag):
                        if os.path.isdir(d) and (os.path.exists(idxpath) or any(
                                f.endswith('.' + ext) and 'log' not in f for f in os.listdir(d))):
                            out.bad('unasked', '%s logs were written although not asked for' % ext)
                        continue
                    check(case, opts, d, ext, idxpath, res, rec, mc, out, covs, custom, w)
                    nseg[ext] = len(read_index(idxpath) or [])
                    seg_total = max(seg_total, nseg[ext])
                if opts.get('save_to_bin') and opts.get('save_to_txt') and not out.viol:
                    a, b = load(d, 'h5', **names(opts)), load(d, 'txt', **names(opts))
                    for k in a:
                        if not arr_eq(a[k], b[k]) and not (len(a[k]) == 0 and len(b[k]) == 0):
                            out.bad('formats', 'binary and text logs of %s differ' % k)
            for (n, p) in peeks:
                check_peek(p, res, start, out, n, interval(opts))
                out.c['peek'] += 1
            peeks[:] = []
            prev = snap(res)
            if out.viol:
                break
        out.state('bin%d' % bool(opts.get('save_to_bin')), 'txt%d' % bool(opts.get('save_to_txt')), min(seg_total, 12),
                  opts['savesize'], len(scen.sampled(case)), 's2' if prev is not None and prev['s2chain'] is not None
                  else '', len(full['phases']), bool(names(opts)))
        out.c['segments'] += seg_total
        out.nontrivial = seg_total >= 2
        out.absorb(w)
    return out


def check(case, opts, d, ext, idxpath, res, rec, mc, out, covs, custom, w):
    n = rec.start + rec.nsimu
    idx = read_index(idxpath)
    if idx is None:
        out.bad('index', 'no index of the %s logs' % ext)
        return
    cover = [k for (a, b) in idx for k in range(a, b + 1)]
    if cover != list(range(n)):
        out.bad('index', '%s index lists rows %s of a chain of %d rows' % (ext, idx, n))
    new = [(a, b) for a, b in idx if b > rec.start or not rec.prev]
    if any(b - a + 1 > interval(opts) for a, b in new):
        out.bad('interval', 'saved every %d rows, the %s index lists %s' % (interval(opts), ext, new))
    got = load(d, ext, **names(opts))
    with quiet():
        whole = scen.CP.load_serial_simulation_results(d, extension=ext, **names(opts))
        for k in got:
            if not arr_eq(got[k], whole[k]):
                out.bad('read', 'the %s of the %s log is another one when loaded as results' % (k, ext))
    with quiet() as printed:
        scen.CP.print_log_files(d)
    lost = [x for x in idx if '\t%d\t%d\n' % x not in printed.getvalue()]
    if lost:
        out.bad('index', 'the printed log does not list the rows %s' % (lost[0],))
    for k in ('chain', 'sschain', 's2chain'):
        if res[k] is None:
            if len(got[k]):
                out.bad('read', '%s log of %s although there is none' % (ext, k))
            continue
        if not arr_eq(got[k], res[k]):
            out.bad('read', '%s log of %s reads back with shape %s, differing from the chain of shape %s' % (
                ext, k, np.shape(got[k]), np.shape(res[k])))
    # one proposal covariance per segment, the last one that of the end of the run
    npar = len(scen.sampled(case))
    cv = np.asarray(got['covchain'], dtype=float)
    if cv.shape != (npar * len(idx), npar):
        out.bad('covchain', '%s log of proposal covariances has shape %s for %d segments of %d parameters' % (
            ext, cv.shape, len(idx), npar))
    else:
        R = np.asarray(res['R'])
        if not arr_eq(cv[-npar:], R.T.dot(R)):
            out.bad('covchain', 'last proposal covariance in the %s log is not that of the run' % ext)
        if not out.viol:
            rp = ref.Replay(case, rec)
            if not rp.bad:
                new = [(k, b) for k, (a, b) in enumerate(idx) if b > rec.start or not rec.prev]
                for k, b in new[:-1]:
                    # segment saved at the end of the step that produced row b + 1
                    alts = rp.Rhist.get(b + 1 - rec.start, [])
                    blk = cv[npar * k:npar * (k + 1)]
                    if alts and not any(x is None or not np.linalg.cond(x) < 1e6 or
                                        ref.same_R(x.T.dot(x), blk, 1e-5, rp.atolR) for x in alts):
                        out.bad('covchain', 'proposal covariance logged with rows up to %d is %s, it was %s' % (
                            b, blk.tolist(), [x.T.dot(x).tolist() for x in alts]))
                        break
                    out.c['covchain.blocks'] += 1
    # custom samplers' chains: the rows of every run, as the sampler held them
    for c, cs in zip(case['custom'], mc.custom_samplers):
        key = (ext, c['id'])
        path = os.path.join(d, '%s.%s' % (c.get('file', 'cs_chain'), ext))
        if not c.get('save'):
            if os.path.exists(path):
                out.bad('custom', 'a chain was saved for a sampler which does not ask for it')
            continue
        mine = cs.mtx[:rec.nsimu] if not rec.prev else cs.mtx[1:rec.nsimu]
        want = mine if not rec.prev else np.concatenate([custom[key], mine])
        custom[key] = want.copy()
        with quiet():
            rd = scen.CP.read_in_bin_file(path) if ext == 'h5' else scen.CP.read_in_txt_file(path)
        out.c['custom.chain'] += 1
        if not arr_eq(rd, want):
            out.bad('custom', '%s log of a custom sampler reads back with shape %s, expected %s' % (
                ext, np.shape(rd), want.shape))


def look(d, opts):
    """Another process reads the logs while the run goes on."""
    out = {}
    for ext, flag, idxname in (('h5', 'save_to_bin', 'binlogfile.txt'), ('txt', 'save_to_txt', 'txtlogfile.txt')):
        if opts.get(flag) and os.path.isdir(d):
            out[ext] = (read_index(os.path.join(d, idxname)) or [], load(d, ext, **names(opts)))
    return out


def interval(opts):
    s = opts['savesize']
    return opts['nsimu'] if s <= 0 or s > opts['nsimu'] else s


def made(w, mark):
    """Steps completed so far in this run; None before the first."""
    n = sum(1 for e in w.procs[0].ev[mark:] if e[0] == 'cs' and e[1] == 0)
    return n or None


def check_peek(p, res, start, out, steps, every):
    for ext, (idx, got) in p.items():
        listed = sum(b - a + 1 for a, b in idx)
        if steps is not None and listed < start + 1 + steps - every - 1:
            out.bad('interval', 'after %d rows, saved every %d, the %s log lists only %d' % (
                start + 1 + steps, every, ext, listed))
            return
        for k in ('chain', 'sschain', 's2chain'):
            if res[k] is None or (len(got[k]) == 0 and listed == 0):
                continue
            m = np.shape(got[k])[0]
            if m < listed or not arr_eq(got[k], np.asarray(res[k])[:m]):
                out.bad('peek', 'read during the run, the %s log of %s has %d rows (%d listed) that are not the first '
                        'rows of the chain' % (ext, k, m, listed))
                return
