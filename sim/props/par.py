"""P09 parallel chains; P10 their random numbers.

The pool runs as virtual processes under the seeded scheduler: which worker
takes which chain, how they interleave, and in which order they finish are
decided by the seed.  Tasks, results and exceptions cross the process boundary
pickled."""
import copy
import os

import numpy as np

from .. import engine, ref, scen, seams
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, arr_eq, load, muted, quiet, same, snap, swarm

RUNS = {'P09': (2600, 250000), 'P10': (1500, 150000)}
RULE = {
    'P09': 'random model and options; 1 to 12 chains on 1 to 8 simulated cores, initial values given or drawn, logs in any '
           'format; seeded interleaving of the workers at every user callback and disk operation, stalled callbacks, an '
           'exception or exit in a callback of a random chain, and restarting a second set of chains from the results of the '
           'first; non-trivial: two or more chains',
    'P10': 'as P09 without failures and with up to 150 chains, two or three executions of one parallel simulation from one parent random state under '
           'different schedules, numbers of cores and clocks, and one from another parent random state; non-trivial: two or '
           'more chains',
}
MEASURE = 'distinct (schedule hash) and (chains, cores, workers used, finish order inverted, method, logging, fault) tuples'
ASSUME = ['samples seeded runs; a clean batch is evidence, not proof',
          'workers are virtual processes that start from a copy of the parent random state, as after fork()',
          'a worker killed from outside is not injected: the standard library pool waits for its task for ever']


def gen(r, pid, tier):
    case = scen.gen_case(r, nmax=r.choice([6, 12, 18]), walls=r.random() < 0.15, updatesigma_p=0.4)
    o = case['opts']
    if o['nsimu'] > 20:
        o['nsimu'] = r.choice([8, 14])
    for p in case['params']:
        if p['theta0'] == 0 and (p.get('min') is None or p.get('max') is None):
            # limits of the initial values are a multiple of theta0
            p['theta0'] = 0.25
            for k in ('min', 'max'):
                if p.get(k) is not None and (p[k] > 0.25) == (k == 'min'):
                    p[k] = -5.0 if k == 'min' else 5.0
    o['savedir'] = 'par'
    k = r.random()
    o['save_to_bin'] = k < 0.5
    o['save_to_txt'] = 0.3 < k < 0.75
    o['save_to_json'] = r.random() < 0.4
    o['save_lightly'] = r.random() < 0.3
    o['savesize'] = r.choice([0, 2, 3, 5, 10])
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
    if r.random() < 0.08:
        n = r.choice([10, 11, 12])
    if pid == 'P10' and r.random() < 0.04:
        n = r.choice([60, 101, 150])            # many chains: every pair has to differ
        o['nsimu'] = 3
    full = dict(case=case, nchain=n, ncores=r.choice([1, 2, 2, 3, 4, 8]), ask=r.choice([n, n, n, 1, n + 1]))
    iv = r.random()
    if iv < 0.55:
        far = r.random() < 0.25
        full['init'] = [[initial(r, p, far) for p in case['params']] for _ in range(n)]
        if iv < 0.12:
            full['extra_col'] = True
        if r.random() < 0.2 and n > 1:
            full['init'][-1] = list(full['init'][0])
        limited = [(j, k) for j, p in enumerate(case['params']) for k in ('min', 'max')
                   if p.get(k) is not None and p.get('sample', True)]
        if pid == 'P09' and limited and r.random() < 0.12:
            j, k = r.choice(limited)
            v = case['params'][j][k]
            d = r.choice([1e-9, 0.01, 3.0]) * max(1.0, abs(v))
            full['outside'] = r.randrange(n)
            full['init'][full['outside']][j] = v - d if k == 'min' else v + d
    else:
        full['ask'] = n
    full['own'] = r.random() < 0.3
    w = swarm(r, n=3 * n * o['nsimu'])
    w['ncpu'] = r.choice([1, 2, 4, 8])
    w['stickiness'] = r.choice([0.0, 0.3, 0.9, 0.99])
    full['world'] = w
    if pid == 'P09':
        if r.random() < 0.3:
            w.setdefault('callbacks', {})[str(r.randrange(0, 2 * n * o['nsimu'] + 1))] = dict(
                kind='raise', exc=r.choice(['value', 'runtime', 'zero', 'key', 'inj', 'os', 'exit', 'linalg', 'stop', 'mem', 'type', 'args', 'args', 'opaque']))
        elif r.random() < 0.35:
            o['save_to_json'] = True
            full['restart'] = dict(nchain=max(1, n + r.choice([0, 0, 1, -1])), ncores=r.choice([1, 2, 4]))
    else:
        full['again'] = [dict(seed=r.randrange(2 ** 40), ncpu=r.choice([1, 2, 4, 8]), stickiness=r.choice([0.0, 0.5, 0.95]),
                              ncores=r.choice([1, 2, 3, 8])) for _ in range(r.choice([1, 1, 2]))]
        full['parent'] = r.randrange(2 ** 32)
        full['seedat'] = r.choice(['run', 'setup', 'object', 'object'])
    return full


def initial(r, p, far=False):
    if far and r.random() < 0.5:
        # far away from the value of the template, where nothing limits it
        v = p['theta0'] + r.choice([-1, 1]) * r.choice([110, 1000]) * max(abs(p['theta0']), 0.1)
        if (p.get('min') is None or v >= p['min']) and (p.get('max') is None or v <= p['max']):
            return v
    lo = p['min'] if p.get('min') is not None else p['theta0'] - 0.5 * abs(p['theta0'])
    hi = p['max'] if p.get('max') is not None else p['theta0'] + 0.5 * abs(p['theta0'])
    v = r.choice([lo, hi, round(lo + (hi - lo) * r.random(), 6), lo + (hi - lo) * r.random()])
    return min(max(v, lo), hi)


def simulate(w, full, out, nchain=None, ncores=None, init='case', savedir='par', restart=None, parent=None, probes=True):
    """Template, set up and run; returns (template, parallel object, exception)."""
    case = full['case']
    c = copy.deepcopy(case)
    c['opts']['savedir'] = savedir
    if restart:
        c['opts']['json_restart_file'] = restart
    with quiet():
        seedat = full.get('seedat', 'run')
        mc = scen.build(w, c, rngseed=parent if parent is not None and seedat == 'object' else 'case')
        if probes and full.get('own'):
            mc.custom_samplers.append(scen.Probe(dict(id=0)))       # replicated for every chain
        before = template(mc)
        pm = scen.ParallelMCMC()
        if parent is not None and seedat == 'setup':
            np.random.seed(parent)
        iv = full.get('init') if isinstance(init, str) else init
        if iv is not None:
            iv = np.array(iv, dtype=float)
            if full.get('extra_col') and isinstance(init, str):
                iv = np.concatenate([iv, np.full([iv.shape[0], 1], 1e3)], axis=1)
        given = None if iv is None else iv.copy()
        pm.setup_parallel_simulation(mc, initial_values=iv, num_cores=ncores or full['ncores'],
                                     num_chain=nchain or full.get('ask', full['nchain']))
        for m, k in zip(pm.parmc, full.get('lens', [])):
            m.simulation_options.nsimu = k          # chains of different lengths
        if probes and not full.get('own'):
            for m in pm.parmc:
                m.custom_samplers.append(scen.Probe(dict(id=0)))
        if parent is not None and seedat == 'run':
            np.random.seed(parent)
        err = None
        try:
            pm.run_parallel_simulation()
        except (Exception, SystemExit) as ex:
            err = ex
        diff = [k for k in before if not same(before[k], template(mc)[k])]
        if diff:
            out.bad('template', 'the parallel simulation changed %s of the object it was set up from' % diff)
        if given is not None and not arr_eq(given, iv):
            out.bad('template', "the user's initial values were changed")
    return mc, pm, err


def template(mc):
    o = dict(mc.simulation_options.__dict__)
    o.pop('save_to_bin', None)          # documented: parallel runs always save something
    return snap(dict(params=[dict(p) for p in mc.parameters.parameters], options=o,
                     model={k: v for k, v in mc.model_settings.__dict__.items() if not callable(v)},
                     data=dict(x=list(mc.data.xdata), y=list(mc.data.ydata), n=list(mc.data.n), w=list(mc.data.weight)),
                     samplers=len(mc.custom_samplers)))


def segments(w, mark=None):
    """History of each task item, wherever it was executed (the parent included)."""
    segs = []
    for p in w.procs:
        cur = [] if p.pid == 0 else None
        for e in p.ev[(mark or {}).get(p.pid, 0):]:
            if e[0] == 'item':
                cur = []
                segs.append(cur)
            elif cur is not None:
                if p.pid == 0 and e[0] == 'seed':
                    cur = []
                    segs.append(cur)
                    continue
                cur.append(e)
    return [s for s in segs if any(e[0] == 'cs_setup' for e in s)]


def chain_case(case, init, first=None):
    c = copy.deepcopy(case)
    for k, (p, v) in enumerate(zip(c['params'], init)):
        if first is not None and p.get('mu') == 'nan':
            p['mu'] = float(first[k])       # restarted: still the initial value the object was given
        p['theta0'] = float(v)
    return c


def check_sets(w, full, pm, out, mark, n, starts, savedir, optsof, firsts=None):
    """Chain i is a run of its own, from its own initial values, in its own directory."""
    case = full['case']
    if len(pm.parmc) != n:
        out.bad('chains', '%d chains were run, expected %d' % (len(pm.parmc), n))
        return
    segs = segments(w, mark)
    cand = {}
    ind = scen.sampled(case)
    for i in range(n):
        c = chain_case(case, starts[i], None if firsts is None else firsts[i])
        c['custom'] = [dict(id=0)]
        sr = getattr(pm.parmc[i], 'simulation_results', None)
        if sr is None:
            out.bad('results', 'chain %d has no results' % i)
            return
        res = sr.results
        if np.shape(res['chain'])[0:1] != (case['opts']['nsimu'],) or not arr_eq(res['chain'][0], np.asarray(starts[i])[ind]):
            out.bad('start', 'chain %d begins at %s, its initial values are %s' % (
                i, np.asarray(res['chain'])[0].tolist(), np.asarray(starts[i])[ind].tolist()))
            return
        own = os.path.join(w.scratch, savedir, 'chain_%d' % i)
        if os.path.abspath(res['simulation_options']['savedir']) != own:
            out.bad('directory', 'results of chain %d name the directory %s' % (i, res['simulation_options']['savedir']))
        # the histories that may have produced it
        opts = optsof(i)
        cand[i] = []
        worst = None
        for k, s in enumerate(segs):
            marks = [e[4] for e in s if e[0] == 'cs']
            if len(marks) != case['opts']['nsimu'] - 1 or not all(
                    tuple(m) == tuple(row) for m, row in zip(marks, np.asarray(res['chain'])[1:].tolist())):
                continue
            rec = ref.Rec(s, res, case['opts']['nsimu'], opts, 0, np.asarray(starts[i], dtype=float))
            o1 = Out()
            engine.check_containment(c, rec.ev, res, o1)
            engine.check_rows(c, rec, o1)
            engine.check_custom(c, rec, o1)
            if not o1.viol and opts.get('qcov') != 'unknown':
                rp = ref.Replay(c, rec, s2_first=None)
                o1.viol += rp.bad
                engine.check_counters(c, rec, rp, o1)
                engine.probe_stats(o1, c, rp)
            if o1.viol:
                worst = worst or o1
                continue
            cand[i].append(k)
            if len(cand[i]) == 1:
                out.c.update(o1.c)
                out.states |= o1.states
        if not cand[i]:
            if worst is not None:
                out.viol += worst.viol
            else:
                out.bad('mixed', 'no process sampled what is reported as chain %d' % i)
            return
        n0 = len(out.viol)
        if len(out.viol) == n0:
            check_disk(w, full, own, i, res, out)
        if out.viol:
            return
    if not matching(cand):
        out.bad('mixed', 'two chains report what one process sampled: %s' % cand)
        return
    with muted():
        names = sorted(os.listdir(os.path.join(w.scratch, savedir)))
    if names != sorted('chain_%d' % i for i in range(n)):
        out.bad('directory', 'the parallel directory holds %s' % names)


def matching(cand):
    """Can every chain have a history of its own?"""
    owner = {}

    def place(i, seen):
        for k in cand[i]:
            if k in seen:
                continue
            seen.add(k)
            if k not in owner or place(owner[k], seen):
                owner[k] = i
                return True
        return False
    return all(place(i, set()) for i in cand)


def check_disk(w, full, own, i, res, out):
    o = full['case']['opts']
    some = o.get('save_to_bin') or o.get('save_to_txt') or o.get('save_to_json')
    with muted():
        for ext, flag in (('h5', 'save_to_bin'), ('txt', 'save_to_txt')):
            if not (o.get(flag) or (ext == 'h5' and not some)):
                continue
            got = load(own, ext)
            for k in ('chain', 'sschain', 's2chain'):
                if res[k] is not None and not arr_eq(got[k], res[k]):
                    out.bad('disk', '%s log of %s in the directory of chain %d is not the chain that was returned' % (ext, k, i))
                    return
            out.c['disk'] += 1
        if o.get('save_to_json'):
            js = scen.CP.load_json_object(os.path.join(own, 'chain_%d.json' % i))
            if not arr_eq(js['theta'], res['theta']) or not arr_eq(js['R'], res['R']):
                out.bad('disk', 'saved results of chain %d are not those returned' % i)
            if not (o.get('save_to_bin') or o.get('save_to_txt')) and not arr_eq(js['chain'], res['chain']):
                out.bad('disk', 'saved chain %d is not the one returned' % i)


def starts_of(full, pm, n, out):
    iv = np.asarray(pm.initial_values)
    case = full['case']
    P = len(case['params'])
    if 'init' in full:
        want = np.array(full['init'], dtype=float)
        return want
    if iv.shape != (n, P):
        out.bad('initial', 'initial values have shape %s' % (iv.shape,))
        return None
    lo, hi = ref.limits(case)
    for j, p in enumerate(case['params']):
        if not p.get('sample', True) and not (iv[:, j] == p['theta0']).all():
            out.bad('initial', 'a parameter held at %s is held at %s instead' % (p['theta0'], iv[:, j].tolist()))
            return None
    for i in range(n):
        if not ((iv[i] >= lo).all() and (iv[i] <= hi).all()):
            out.bad('initial', 'initial values %s of chain %d are outside the limits' % (iv[i].tolist(), i))
            return None
    return iv


def run(full, pid):
    return run_par(full) if pid == 'P09' else run_rng(full)


def run_par(full):
    out = Out()
    case = full['case']
    n = full['nchain']
    if full.get('outside') is not None:
        with World(full['world']) as w:
            try:
                mc, pm, err = simulate(w, full, out)
            except (Exception, SystemExit) as ex:
                err = ex
            lo, hi = ref.limits(case)
            ev = [e for p_ in w.procs for e in p_.ev if e[0] in ('sos', 'model')]
            if err is None:
                out.bad('initial', 'initial values %s of chain %d outside the limits were accepted' % (
                    full['init'][full['outside']], full['outside']))
            elif any(not ((np.array(e[1]) >= lo).all() and (np.array(e[1]) <= hi).all()) for e in ev):
                out.bad('initial', 'a user function was evaluated at initial values outside the limits')
            out.c['refused'] += 1
            out.state('refused', n, full['ncores'])
            out.absorb(w)
        return out
    with World(full['world']) as w:
        mc, pm, err = simulate(w, full, out)
        raised = w.fault_counts.get('callback-exception', 0)
        cb = [v for v in full['world'].get('callbacks', {}).values() if v['kind'] == 'raise']
        if err is not None and not raised:
            raise err
        if raised:
            out.c['failed'] += 1
            from .cont import EXC
            if err is None:
                out.bad('swallowed', 'an exception (%s) in one chain did not surface' % cb[0]['exc'])
            elif cb[0]['exc'] not in ('exit', 'args', 'opaque') and not isinstance(err, EXC[cb[0]['exc']]):
                out.bad('changed', 'a chain raised %s, the parallel simulation raised %s' % (cb[0]['exc'], explain_exc(err)))
            elif 'injected' not in str(err) and cb[0]['exc'] not in ('args', 'opaque'):
                out.bad('changed', 'the message of the exception of a chain was lost: %s' % explain_exc(err))
        elif not out.viol:
            starts = starts_of(full, pm, n, out)
            if starts is not None:
                check_sets(w, full, pm, out, None, n, starts, 'par', lambda i: case['opts'])
        if full.get('restart') and not out.viol and err is None:
            restart(w, full, pm, n, out)
        stats(w, full, out, err)
    return out


def restart(w, full, pm, n, out):
    case = full['case']
    rs = full['restart']
    first = [snap(m.simulation_results.results) for m in pm.parmc]
    mark = {p.pid: len(p.ev) for p in w.procs}
    n2 = rs['nchain']
    mc2, pm2, err = simulate(w, full, out, nchain=n2, ncores=rs['ncores'], init=None, savedir='par2', restart='par')
    if isinstance(err, np.linalg.LinAlgError):
        ind = scen.sampled(case)
        for f in first:
            q = np.asarray(f['qcovorig'])[np.ix_(ind, ind)]
            if not (np.isfinite(q).all() and np.linalg.eigvalsh((q + q.T) / 2)[0] > 1e-12 * np.abs(q).max()):
                out.c['restart.singular'] += 1      # a degenerate proposal cannot be restarted from
                return
    if err is not None:
        raise err
    P = len(case['params'])
    starts, qs = [], []
    for i in range(n2):
        if i < n:
            th = np.asarray(first[i]['theta'], dtype=float).copy()
            for j, p in enumerate(case['params']):
                if not p.get('sample', True):
                    th[j] = p['theta0']
            starts.append(th)
            q = np.asarray(first[i]['qcovorig'], dtype=float)
            qs.append(q)
        else:
            starts.append(np.asarray(pm2.initial_values)[i])
            qs.append(None)

    def optsof(i):
        o = dict(case['opts'])
        if qs[i] is not None:
            q = qs[i]
            if P > 1 and np.isfinite(q).all() and np.linalg.cond(q) < 1e6 and (np.linalg.eigvalsh((q + q.T) / 2) > 1e-8).all():
                o['qcov'] = q.tolist()
            else:
                o['qcov'] = 'unknown'
        return o
    check_sets(w, full, pm2, out, mark, n2, starts, 'par2', optsof, np.asarray(pm2.initial_values))
    out.c['restarted'] += 1


def stats(w, full, out, err):
    order = [a for a in w.assignment]
    inv = any(order[k][0] > order[k + 1][0] for k in range(len(order) - 1))
    out.c['chains'] += full['nchain']
    out.state(full['nchain'], full['ncores'], len(set(x[1] for x in order)), inv, full['case']['opts']['method'],
              type(err).__name__, bool(full.get('restart')), 'init' in full)
    out.nontrivial = full['nchain'] > 1
    out.absorb(w)


def draws(seg, k=12):
    return [x for e in seg if e[0] == 'z' for x in e[1]][:k]


def run_rng(full):
    out = Out()
    n = full['nchain']
    case = full['case']

    def once(cfg, ncores, parent, init=None):
        with World(cfg) as w:
            mc, pm, err = simulate(w, full, out, ncores=ncores, parent=parent, init='case' if init is None else init,
                                   nchain=n if init is not None else None)
            if err is not None:
                raise err
            segs = segments(w)
            res = [snap(m.simulation_results.results) for m in pm.parmc]
            stats(w, full, out, None)
            return res, segs, np.array(pm.initial_values)
    res, segs, iv = once(full['world'], full['ncores'], full['parent'])
    if len(segs) != n:
        out.bad('chains', '%d histories of %d chains' % (len(segs), n))
        return out
    first = [tuple(draws(s)) for s in segs]
    for i in range(n):
        for j in range(i):
            if first[i] and first[j] and share(first[i], first[j]):
                out.bad('shared', 'two of %d chains of one parallel simulation drew the same random numbers %s' % (
                    n, first[i][:3]))
                return out
    out.c['pairs'] += n * (n - 1) // 2
    for ag in full['again']:
        cfg = dict(full['world'], seed=ag['seed'], ncpu=ag['ncpu'], stickiness=ag['stickiness'],
                   order=ag['seed'], entropy=full['world']['entropy'] + 1)
        res2, segs2, iv2 = once(cfg, ag['ncores'], full['parent'], init=iv if full['seedat'] == 'run' else None)
        if not arr_eq(iv, iv2):
            out.bad('repeat', 'the initial values of the chains differ between two parallel simulations from one random state')
            return out
        if len(res2) != n:
            out.bad('repeat', 'another schedule ran %d chains' % len(res2))
            return out
        for i in range(n):
            for k in ('chain', 'sschain', 's2chain'):
                if not same(res[i][k], res2[i][k]):
                    out.bad('repeat', 'the %s of chain %d depends on the schedule (%d cores, then %d)' % (
                        k, i, full['ncores'], ag['ncores']))
                    return out
        out.c['repeated'] += 1
    res3, segs3, _ = once(dict(full['world'], seed=full['world']['seed'] + 1), full['ncores'], full['parent'] ^ 0x5bd1e995,
                          init=iv)
    for s in segs3:
        d = tuple(draws(s))
        if d and any(share(d, f) for f in first if f):
            out.bad('shared', 'a parallel simulation from another random state drew the same random numbers')
            return out
    return out


def share(a, b):
    """Do two streams of continuous draws overlap?"""
    return bool(set(a) & set(b))
