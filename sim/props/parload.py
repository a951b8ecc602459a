"""P11: loading what a parallel simulation saved.

A parallel simulation runs under the seeded scheduler and saves its chains;
the directory then gets whatever else may lie there, and is listed in an
arbitrary order.  Result i is what chain i returned in memory, every chain
once."""
import copy
import os

import numpy as np

from .. import scen
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, arr_eq, load, muted, quiet, same, snap, swarm
from . import par

RUNS = (1600, 200000)
RULE = ('random model and options, 1 to 14 chains (sometimes 101), every combination of text, binary and json output, default '
        'or user-chosen file names; files and folders that do not belong to a chain are added, the directory is listed in '
        'random order, and everything is loaded two to four times through every loading function, then combined with a '
        'random burn-in; non-trivial: two or more chains')
MEASURE = 'distinct (number of chains, formats, listing order hash, stray entries, file names, burn-in) tuples'

STRAYS = [('file', 'notes.txt'), ('dir', 'plots'), ('file', '.DS_Store'), ('file', 'chain_summary.txt'), ('dir', 'old'),
          ('file', 'chain_0.json'), ('file', 'combined.h5'), ('dir', '.ipynb_checkpoints'), ('file', 'chain_2'),
          ('dir', 'chains'), ('file', 'chain_10.txt')]


def gen(r, pid, tier):
    case = scen.gen_case(r, nmax=7, walls=False, updatesigma_p=0.4, units=(1e-9, 1e-3, 1e3, 1e12))
    o = case['opts']
    o['nsimu'] = r.choice([1, 2, 3, 5, 8])
    o['savedir'] = 'par'
    o['save_to_bin'] = r.random() < 0.5
    o['save_to_txt'] = r.random() < 0.5
    o['save_to_json'] = r.random() < 0.75
    o['savesize'] = r.choice([0, 1, 2, 3, 10])
    for p in case['params']:
        p.pop('min', None)
        p.pop('max', None)
        p['theta0'] = p['theta0'] or 0.25
    names = {}
    if r.random() < 0.3:
        for kk, v in (('chainfile', 'mychain'), ('sschainfile', 'ss_values'), ('s2chainfile', 's2.values'),
                      ('covchainfile', 'nsimu_cov')):
            if r.random() < 0.7:
                names[kk] = v
    o.update(names)
    n = r.choice([1, 2, 3, 5, 9, 10, 11, 12, 14])
    if r.random() < 0.02:
        n = 101
        o['nsimu'] = 2
    w = swarm(r, stalls=False)
    w['stickiness'] = r.choice([0.3, 0.9])
    full = dict(case=case, nchain=n, ncores=r.choice([1, 2, 4]), world=w, names=names,
                strays=r.sample(range(len(STRAYS)), r.choice([0, 0, 1, 3, 6])),
                burn=r.choice([0, 10, 25, 33, 50, 50, 66, 90, 99, 100]), loads=r.choice([1, 1, 2, 3]))
    if r.random() < 0.3:
        full['lens'] = [r.choice([1, 2, 3, 5, 8, 13]) for _ in range(n)]
    full['init'] = [[p['theta0'] * (1 + 0.5 * r.random()) for p in case['params']] for _ in range(n)]
    return full


def run(full, pid):
    out = Out()
    case = full['case']
    o = case['opts']
    n = full['nchain']
    binary = o['save_to_bin'] or not (o['save_to_txt'] or o['save_to_json'])
    logs = [e for e, f in (('h5', binary), ('txt', o['save_to_txt'])) if f]
    with World(full['world']) as w:
        mc, pm, err = par.simulate(w, full, out, probes=False)
        if err is not None:
            raise err
        out.viol = []
        mem = [snap(m.simulation_results.results) for m in pm.parmc]
        d = os.path.join(w.scratch, 'par')
        with muted():
            for k in full['strays']:
                kind, name = STRAYS[k]
                path = os.path.join(d, name)
                if os.path.exists(path):
                    continue
                if kind == 'dir':
                    os.makedirs(path)
                else:
                    with open(path, 'w') as f:
                        f.write('not a chain\n')
        for _ in range(full['loads']):
            for ext in logs:
                with quiet():
                    got = scen.CP.read_in_parallel_savedir_files(d, extension=ext, **full['names'])
                if len(got) != n:
                    out.bad('count', '%d chains were saved, %d loaded from the %s logs' % (n, len(got), ext))
                    break
                compare(mem, got, out, ext + ' logs', logged=True)
                covs(w, d, mem, got, out, ext, full['names'], ext + ' logs')
            if out.viol:
                break
            if o['save_to_json']:
                with quiet():
                    js = scen.CP.read_in_parallel_json_results_files(d)
                if len(js) != n:
                    out.bad('count', '%d chains were saved, %d results loaded' % (n, len(js)))
                    break
                for i in range(n):
                    if not arr_eq(js[i]['theta'], mem[i]['theta']) or not same(js[i]['nsimu'], mem[i]['nsimu']) or \
                            not arr_eq(js[i]['R'], mem[i]['R']):
                        out.bad('order', 'loaded json result %d is not that of chain %d' % (i, i))
                        break
                for name, fn in (('ParallelMCMC', scen.PM.load_parallel_simulation_results),
                                 ('ChainProcessing', scen.CP.load_parallel_simulation_results)):
                    for ext in (logs or ['h5', 'txt']):
                        with quiet():
                            pres = fn(d, extension=ext, **full['names'])
                        if len(pres) != n:
                            out.bad('count', '%d chains were saved, %s loads %d' % (n, name, len(pres)))
                            break
                        for i in range(n):
                            for k in ('theta', 'R', 'qcov', 'total_rejected', 'nsimu', 'parind'):
                                if not arr_eq(pres[i][k], mem[i][k]):
                                    out.bad('order', '%s: %s of loaded result %d is not that of chain %d' % (name, k, i, i))
                                    break
                            if list(pres[i]['names']) != list(mem[i]['names']):
                                out.bad('names', '%s: names of result %d are %s' % (name, i, pres[i]['names']))
                        compare(mem, pres, out, name, logged=bool(logs))
                        if logs:
                            covs(w, d, mem, pres, out, ext, full['names'], name)
                        if not out.viol:
                            combine(pres, mem, full['burn'], out)
                out.c['loaded'] += 1
            else:
                combine(mem, mem, full['burn'], out)
            if out.viol:
                break
        out.c['chains'] += n
        out.state(n, ','.join(logs), o['save_to_json'], len(full['strays']), sorted(full['names']), full['burn'])
        out.state('order', w.counts.get('fs.listdir', 0), full['world']['seed'] % 10007)
        out.nontrivial = n > 1
        out.absorb(w)
    return out


def compare(mem, got, out, what, logged):
    for i in range(len(mem)):
        for k in ('chain', 'sschain', 's2chain'):
            a, b = mem[i][k], got[i][k]
            if a is None:
                if not (b is None or np.size(b) == 0):
                    out.bad('order', '%s: result %d has a %s although there was none' % (what, i, k))
                continue
            if not arr_eq(a, b):
                other = [j for j in range(len(mem)) if arr_eq(mem[j][k], b)]
                out.bad('order', '%s: %s of loaded result %d is not that of chain %d%s' % (
                    what, k, i, i, ' but that of chain %d' % other[0] if other else ''))
                return


def covs(w, d, mem, got, out, ext, names, what):
    """The proposal covariances are those in the directory of the chain; the last one is that of the end of its run."""
    for i in range(len(mem)):
        one = np.asarray(load(os.path.join(d, 'chain_%d' % i), ext, **names)['covchain'], dtype=float)
        if not arr_eq(one, got[i]['covchain']):
            out.bad('order', '%s: proposal covariances of loaded result %d are not those of chain %d' % (what, i, i))
            return
        R = np.asarray(mem[i]['R'])
        if one.ndim != 2 or not arr_eq(one[-R.shape[0]:], R.T.dot(R)):
            out.bad('order', '%s: the last proposal covariance of chain %d is not that of its run' % (what, i))
            return


def combine(pres, mem, burn, out):
    comb, index = scen.CP.generate_combined_chain_with_index(pres, burnin_percentage=burn)
    chains = scen.CP.generate_chain_list(pres, burnin_percentage=burn)
    want, lab = [], []
    for i, m in enumerate(mem):
        c = np.asarray(m['chain'])
        b = int(m['nsimu'] * burn / 100)
        want.append(c[b:])
        lab += ['Chain %d' % i] * (c.shape[0] - b)
    if not arr_eq(np.concatenate(want), comb) or list(index) != lab:
        out.bad('combined', 'the combined chain has shape %s and %d labels for %d rows of the chains' % (
            np.shape(comb), len(index), len(lab)))
    if len(chains) != len(want) or any(not arr_eq(a, b) for a, b in zip(chains, want)):
        out.bad('combined', 'the list of chains is not the chains without their burn-in')
    out.c['combined'] += 1
