"""P04: the random seed decides the simulation; nothing that is only watched,
printed, logged or delayed does.

Every case is executed once plainly and once or more with another surrounding:
different OS entropy, clock (rate, jumps), write buffers, stalled user functions, logs,
printing, progress bar, custom samplers that only look, random numbers drawn
and other objects used before.  The two histories must be the same."""
import copy
import os

import numpy as np

from .. import scen
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, muted, quiet, redefine, same, snap, swarm

RUNS = (7000, 500000)
RULE = ('random model and options; a base execution of one to three runs (fresh, continued, repeated) and one or two '
        'executions with the same seed in other surroundings (entropy, clock, stalls, logging, saving, printing, progress bar, '
        'observing custom samplers, draws and objects before the construction, repeated option setting, copies, displays and '
        'statistics between runs); plus executions with another or no seed, which must differ; non-trivial: at least two '
        'surroundings were compared and the chain moved')
MEASURE = 'distinct (set of changed surroundings, method, kinds of run, kind of seed) tuples'
WAYS = ('entropy', 'clock', 'stall', 'bufsize', 'logs', 'json', 'print', 'waitbar', 'probe', 'predraw', 'preobject',
        'twice', 'deepcopy', 'between', 'peek', 'seedkind')
SEEDS = [0, 1, 2 ** 32 - 1, [3, 5, 8], 12345]


def surrounding(r, n):
    ways = r.sample(WAYS, r.choice([1, 2, 3, 5, len(WAYS)]))
    v = dict(ways=sorted(ways), world=swarm(r, stalls=False, n=4 * n))
    if 'stall' in ways:
        v['world']['callbacks'] = {str(r.randrange(4 * n)): dict(kind='stall', secs=r.choice([0.2, 40.0, 9000.0]))
                                   for _ in range(r.choice([1, 4]))}
    if 'logs' in ways:
        k = r.random()
        v['logs'] = dict(save_to_bin=k < 0.7, save_to_txt=k > 0.4, savesize=r.choice([0, 1, 2, 3, 7, 100]))
    if 'json' in ways:
        v['json'] = dict(save_to_json=True, save_lightly=r.random() < 0.5)
    if 'print' in ways:
        v['print'] = dict(verbosity=r.choice([1, 2, 3, 20, 100]), printint=r.choice([1, 2, 5, 1000]))
    if 'probe' in ways:
        v['probe'] = r.choice([1, 2])
    if 'predraw' in ways:
        v['predraw'] = r.choice([1, 7, 700])
    return v


def gen(r, pid, tier):
    case = scen.gen_case(r, nmax=r.choice([12, 25, 45]), walls=r.random() < 0.2, updatesigma_p=0.5)
    case['custom'] = []
    if r.random() < 0.35:
        case['rngseed'] = r.choice(SEEDS)
    n = case['opts']['nsimu']
    phases = [dict(kind='fresh')]
    while r.random() < 0.35 and len(phases) < 3:
        phases.append(dict(kind=r.choice(['extend', 'extend', 'fresh']), nsimu=r.choice([2, 5, 12]),
                           redefine=r.random() < 0.4))
    return dict(case=case, phases=phases, world=swarm(r, n=4 * n),
                variants=[surrounding(r, n) for _ in range(r.choice([1, 1, 2]))],
                other=r.choice(['none', 'unseeded', 'unseeded', 'reseeded']) if r.random() < 0.6 else 'none')


def one(wcfg, case, phases, v, out, rngseed='case'):
    """One execution; returns ([snapshot per run], evaluations, draws)."""
    v = v or {}
    ways = v.get('ways', [])
    with World(wcfg) as w:
        with quiet():
            if 'predraw' in ways:
                np.random.rand(v['predraw'])
                np.random.randn(3)
            if 'preobject' in ways:
                c2 = copy.deepcopy(case)
                c2['opts'] = dict(nsimu=5, method='dram', adaptint=2, ntry=3)
                if case['opts'].get('updatesigma'):
                    c2['opts']['updatesigma'] = True
                other = scen.build(w, c2, rngseed=99)
                other.run_simulation()
            case = copy.deepcopy(case)
            case['custom'] = [dict(id=i) for i in range(v.get('probe', 0))]
            opts = case['opts']
            for k in ('logs', 'json', 'print'):
                opts.update(v.get(k, {}))
            if v.get('logs') or v.get('json'):
                opts['savedir'] = 'dir0'
            if 'waitbar' in ways:
                opts['waitbar'] = True
            seed = case['rngseed'] if rngseed == 'case' else rngseed
            if 'seedkind' in ways and seed is not None:
                seed = np.int64(seed) if not isinstance(seed, list) else np.array(seed)
            mark = len(w.procs[0].ev)
            mc = scen.build(w, case, rngseed=seed)
            if 'twice' in ways:
                redefine(w, mc, opts)
            if 'deepcopy' in ways:
                mc = copy.deepcopy(mc)
            if 'peek' in ways and v.get('logs'):
                plain = w.callback

                def callback(kind):
                    f = plain(kind)
                    if w.ncb % 17 == 5:
                        with muted():
                            d = os.path.join(w.scratch, opts['savedir'])
                            if os.path.isdir(d):
                                out.c['peeked'] += 1
                                for ext in ('h5', 'txt'):
                                    scen.CP.read_in_savedir_files(d, extension=ext)
                    return f
                w.callback = callback
            snaps = []
            for k, ph in enumerate(phases):
                if k:
                    if 'between' in ways:
                        between(mc, w, opts)
                    opts['nsimu'] = ph['nsimu']
                    if v.get('logs') or v.get('json'):
                        if ph['kind'] == 'fresh':
                            opts['savedir'] = 'dir%d' % k
                        mc.simulation_options.savedir = os.path.join(w.scratch, opts['savedir'])
                    mc.simulation_options.nsimu = ph['nsimu']
                    if ph.get('redefine'):
                        redefine(w, mc, opts)
                mc.run_simulation(use_previous_results=ph['kind'] == 'extend')
                snaps.append(snap(mc.simulation_results.results))
            if 'between' in ways:
                between(mc, w, opts)
                if not same(snaps[-1], snap(mc.simulation_results.results)):
                    out.bad('displayed', 'displaying results changes them')
        ev = w.procs[0].ev[mark:]
        evals = [e[:3] for e in ev if e[0] in ('sos', 'model', 'prior')]
        draws = [e for e in ev if e[0] in ('u', 'z')]
        out.absorb(w)
    return snaps, evals, draws


def between(mc, w, opts):
    """Displays and statistics: looking at a simulation."""
    mc.display_current_mcmc_settings()
    mc.parameters.display_parameter_settings(verbosity=2, no_adapt=mc.parameters._no_adapt)
    res = mc.simulation_results.results
    try:
        mc.chainstats(res['chain'], res)
    except (SystemExit, ArithmeticError, ValueError, IndexError):
        pass                    # too short, or never moved: the statistics are not defined
    if opts.get('save_to_bin') or opts.get('save_to_txt'):
        scen.CP.print_log_files(os.path.join(w.scratch, opts['savedir']))


SKIP = ('simutime', 'simulation_options', 'model_settings')


def diff(a, b):
    return [k for k in sorted(set(a) | set(b)) if k not in SKIP and not same(a.get(k), b.get(k))]


def run(full, pid):
    out = Out()
    case = full['case']
    base, evals, draws = one(full['world'], case, full['phases'], None, out)
    moved = any((np.diff(b['chain'], axis=0) != 0).any() for b in base)
    kinds = ','.join(p['kind'] for p in full['phases'])
    for v in full['variants']:
        got, ev2, dr2 = one(v['world'], case, full['phases'], v, out)
        for k in range(len(base)):
            d = diff(base[k], got[k])
            if d:
                out.bad('differs', 'same seed, run %d (%s): %s differ when %s change%s' % (
                    k, kinds, d, v['ways'], first_diff(base[k], got[k], d)))
                break
        if not out.viol and not same_evals(evals, ev2):
            out.bad('evaluations', 'same seed and results, but the user functions were called differently when %s change' %
                    (v['ways'],))
        for way in v['ways']:
            out.c['way.' + way] += 1
        out.state(','.join(v['ways']) if len(v['ways']) < 4 else 'many', case['opts']['method'], kinds,
                  str(case['rngseed']) if case['rngseed'] in SEEDS else 'any')
        if out.viol:
            break
    if not out.viol and full['other'] != 'none':
        w2 = dict(full['world'])
        w2['entropy'] = full['world']['entropy'] + 1
        if full['other'] == 'unseeded':
            _, _, d1 = one(full['world'], case, full['phases'][:1], None, out, rngseed=None)
            _, _, d2 = one(w2, case, full['phases'][:1], None, out, rngseed=None)
            what = 'two objects without a seed draw the same random numbers'
        else:
            d1 = draws
            s = case['rngseed']
            _, _, d2 = one(w2, case, full['phases'][:1], None, out,
                           rngseed=(s ^ 1) if not isinstance(s, list) else s + [1])
            what = 'two different seeds give the same random numbers'
        if d1 and d2 and d1[0] == d2[0]:
            out.bad('seed', what)
        out.c['other.' + full['other']] += 1
    out.nontrivial = moved
    return out


def same_evals(a, b):
    return len(a) == len(b) and all(same(list(x), list(y)) for x, y in zip(a, b))


def first_diff(a, b, keys):
    for k in ('chain', 'sschain', 's2chain'):
        if k in keys and a[k] is not None and b.get(k) is not None and np.shape(a[k]) == np.shape(b[k]):
            rows = np.flatnonzero((np.asarray(a[k]) != np.asarray(b[k])).any(axis=1))
            if rows.size:
                return ', first in row %d of %s' % (rows[0], k)
    return ''
