"""P17: credible and prediction intervals.

The model function is a simulated callback: every parameter vector it receives
and every random number drawn around it is recorded, and the intervals are
recomputed from that history alone.  Stalls, clock jumps (a progress bar reads
the clock), extreme draws and exceptions of the model are injected."""
import copy
import os

import numpy as np

from .. import scen, seams
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, arr_eq, extreme_draws, load, muted, quiet, same, snap, swarm

with muted():
    from pymcmcstat import propagation as up
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    from pymcmcstat.settings.DataStructure import DataStructure

RUNS = (15000, 900000)
RULE = ('a real run, or a synthetic chain of up to 420 rows, with or without error variance chain; intervals from all or from '
        'a random choice of rows, both interval interfaces, one to three responses or data sets, error variance given as '
        'number, vector or chain, three observation types, results in memory or loaded from disk; stalls, clock jumps, '
        'extreme draws and an exception of the model injected; non-trivial: at least one interval was recomputed')
MEASURE = 'distinct (interface, responses, variance form, observation type, rows chosen, source of results, fault) tuples'


def gen(r, pid, tier):
    kind = r.choice(['real', 'real', 'synthetic'])
    full = dict(kind=kind)
    if kind == 'real':
        case = scen.gen_case(r, nmax=r.choice([8, 20, 30]), walls=False, updatesigma_p=0.6)
        case['opts']['nsimu'] = max(4, case['opts']['nsimu'])
        if r.random() < 0.4:
            case['opts'].update(savedir='out', save_to_json=True, results_filename='r.json')
            k = r.random()
            case['opts']['save_to_bin'] = k < 0.35
            case['opts']['save_to_txt'] = 0.25 < k < 0.6
            case['opts']['savesize'] = r.choice([0, 5])
            full['loaded'] = True
        full['case'] = case
        n = case['opts']['nsimu']
    else:
        n = r.choice([5, 40, 200, 420])
        full['syn'] = dict(n=n, npar=r.choice([1, 2, 3]), fixed=r.choice([0, 0, 1]), s2cols=r.choice([0, 1, 1, 2]),
                           seed=r.randrange(2 ** 31))
    full['api'] = r.choice(['propagate', 'propagate', 'class'])
    full['ncol'] = r.choice([1, 1, 1, 2, 3])
    full['ny'] = r.choice([1, 2, 5])
    if full['ncol'] > 1 and full['ny'] == 1:
        full['ny'] = 2
    full['nsample'] = r.choice([n, n + 7, 500, max(1, n - 1), max(1, n // 2), min(3, n), 160])
    full['sstype'] = r.choice([0, 0, 1, 2])
    full['s2form'] = r.choice(['chain', 'chain', 'none', 'float', 'vector'])
    full['waitbar'] = r.random() < 0.4
    full['burnin'] = r.choice([0, 0, 1, max(1, n // 3), max(1, n - 2)])
    full['shape'] = r.choice(['flat', 'col', 'row'])
    full['cols'] = [r.choice([1, 1, 2, 3]) for _ in range(full['ncol'])]
    full['shift'] = r.choice([0.0, 0.7])
    full['models'] = r.random() < 0.3
    full['again'] = r.random() < 0.3
    if r.random() < 0.2:
        full['raise_at'] = r.randrange(0, 20)
    full['world'] = extreme_draws(r, swarm(r, n=100), n=2 * n + 200, p=0.25, case=full.get('case'))
    return full


class Pred:
    """The user's model: response rows x columns, a deterministic function of theta."""
    def __init__(self, ny, ncol, shape, xs=None):
        self.ny, self.ncol, self.shape = ny, ncol, shape

    def value(self, theta, shift=0.0):
        th = np.asarray(theta, dtype=float)
        y = np.empty([self.ny, self.ncol])
        for i in range(self.ny):
            for j in range(self.ncol):
                y[i, j] = 2.0 + np.tanh(float(np.dot(th, np.arange(1, th.size + 1))) * 0.3 + i + shift) + 0.25 * j
        return y

    def out(self, y):
        if self.ncol > 1:
            return y
        if self.shape == 'col':
            return y.reshape(-1, 1)
        if self.shape == 'row':
            return y.reshape(1, -1)
        return y.reshape(-1)

    def call(self, theta, shift):
        w = seams.world()
        th = tuple(float(v) for v in np.asarray(theta).reshape(-1))
        w.callback('pred')
        y = self.value(theta, shift)
        w.log('pred', th, y.copy(), float(shift))
        return self.out(y)


class Up(Pred):
    def __call__(self, q, data):
        return self.call(q, 0.0 if data is None else data['shift'])


class Old(Pred):
    def __call__(self, data, theta):
        obj = data.user_defined_object[0]
        return self.call(theta, float(data.xdata[0].reshape(-1)[0]) + (obj['shift'] if isinstance(obj, dict) else 0.0))


def source(w, full, out):
    """(results, chain, s2chain, parind, full theta)"""
    if full['kind'] == 'synthetic':
        s = full['syn']
        rs = seams.RealRandomState(s['seed'])
        P = s['npar'] + s['fixed']
        ind = sorted(rs.permutation(P)[:s['npar']].tolist())
        chain = rs.standard_normal((s['n'], s['npar']))
        s2 = None if s['s2cols'] == 0 else rs.uniform(0.01, 3.0, (s['n'], s['s2cols']))
        theta = rs.standard_normal(P)
        theta[ind] = chain[-1]
        res = dict(chain=chain, s2chain=s2, sschain=np.ones((s['n'], 1)), theta=theta, parind=np.array(ind, dtype=int),
                   local=np.zeros(P), model_settings=dict(nbatch=1), nsimu=s['n'])
        return res
    with quiet():
        mc = scen.build(w, full['case'])
        mc.run_simulation()
    res = mc.simulation_results.results
    if full.get('loaded'):
        o = full['case']['opts']
        with quiet():
            got = scen.CP.load_serial_simulation_results(os.path.join(w.scratch, 'out'), json_file='r.json',
                                                         extension='h5' if o.get('save_to_bin') else 'txt')
        out.c['loaded'] += 1
        truth = snap(res)
        return got if same(np.asarray(truth['chain']), np.asarray(got['chain'])) else res
    return res


def run(full, pid):
    out = Out()
    with World(full['world']) as w:
        w.cbfaults = {}
        res = source(w, full, out)
        theta = np.array(res['theta'], dtype=float)
        ind = [int(i) for i in res['parind']]
        before = snap(res)
        chain = np.asarray(res['chain'], dtype=float)
        for attempt in range(2 if full['again'] else 1):
            mark = len(w.procs[0].ev)
            if full.get('raise_at') is not None and attempt == 0:
                w.cbfaults = {w.ncb + full['raise_at']: dict(kind='raise', exc='inj')}
            elif full['world'].get('callbacks'):
                w.cbfaults = {w.ncb + int(k) % 50: v for k, v in full['world']['callbacks'].items()}
            raised = False
            try:
                with quiet():
                    if full['api'] == 'propagate':
                        got, want_s2 = propagate(full, res, chain)
                    else:
                        got, want_s2 = old_style(w, full, res, chain)
                        if got == 'skip':
                            out.nontrivial = False
                            break
            except seams.InjectedError:
                raised = True
                out.c['raised'] += 1
            w.cbfaults = {}
            if not same(before, snap(res)):
                diff = [k for k in before if not same(before[k], res.get(k))]
                out.bad('mutated', 'calculating intervals changed %s of the results' % diff)
                break
            if raised:
                continue
            ev = w.procs[0].ev[mark:]
            if full['api'] == 'propagate':
                check_propagate(full, got, want_s2, chain, theta, ind, ev, out)
            else:
                check_old(w, full, got, want_s2, chain, theta, ind, ev, out)
            if out.viol:
                break
        out.state(full['api'], full['ncol'], full['s2form'], full['sstype'], full['nsample'] < chain.shape[0], full['kind'],
                  bool(full.get('loaded')), full.get('raise_at') is not None, full['shape'])
        out.absorb(w)
    return out


def propagate(full, res, chain):
    s2 = res['s2chain']
    n = chain.shape[0]
    b = min(full['burnin'], n - 1)
    c = chain[b:]
    form = full['s2form']
    ncol = full['ncol']
    if form == 'float':
        arg, want = 0.37, np.full((n - b, ncol), 0.37)
    elif form == 'vector':
        if ncol > 1:
            arg = np.array([[0.2 + 0.3 * j for j in range(ncol)]])
            want = np.repeat(arg, n - b, axis=0)
        else:
            arg = np.array([0.45]) if n - b != 1 else np.array([0.45])
            want = np.full((n - b, 1), 0.45)
    elif form == 'chain' and s2 is not None and np.size(s2):
        s2 = np.asarray(s2, dtype=float)[b:]
        if s2.shape[1] == ncol or s2.shape[1] == 1:
            arg = s2
            want = np.repeat(s2, ncol, axis=1) if s2.shape[1] == 1 else s2
        else:
            arg = s2[:, 0]
            want = np.repeat(s2[:, :1], ncol, axis=1)
    else:
        arg = want = None
        if form == 'chain':
            arg = s2            # None, or empty as loaded from logs
    keep = None if arg is None or isinstance(arg, float) else np.array(arg)
    keepc = c.copy()
    got = up.calculate_intervals(c, res, None if not full.get('shift') else dict(shift=full['shift']), Up(full['ny'], ncol, full['shape']), s2chain=arg,
                                 nsample=full['nsample'], waitbar=full['waitbar'], sstype=full['sstype'])
    if keep is not None and not arr_eq(keep, arg):
        raise AssertionError('error variance changed')
    if not arr_eq(keepc, c):
        raise AssertionError('chain changed')
    return (got, b), want


def groups(ev):
    """Model evaluations, each with the normal draws that follow it."""
    out = []
    for e in ev:
        if e[0] == 'pred':
            out.append((np.array(e[1]), e[2], [], e[3]))
        elif e[0] == 'z' and out:
            out[-1][2].extend(e[1])
    return out


def observe(y, z, s2, sstype):
    if sstype == 0:
        return y + z * np.sqrt(s2)
    if sstype == 1:
        return (np.sqrt(y) + z * np.sqrt(s2)) ** 2
    return y * np.exp(z * np.sqrt(s2))


def rows_of(th, c, theta, ind):
    """Rows of the chain which a parameter vector stands for; None if not even the fixed ones agree."""
    if th.size != theta.size:
        return None
    fixed = [i for i in range(theta.size) if i not in ind]
    if fixed and not np.array_equal(th[fixed], theta[fixed]):
        return None
    return np.flatnonzero((c == th[ind]).all(axis=1))


def check_choice(full, c, G, theta, ind, out, nsample):
    """The evaluated vectors are rows of the posterior: each once, or a random choice."""
    n = c.shape[0]
    m = min(nsample, n)
    if len(G) != m:
        out.bad('count', '%d chain elements were used, expected %d of %d' % (len(G), m, n))
        return None
    rows = []
    for th, y, z, _ in G:
        k = rows_of(th, c, theta, ind)
        if k is None or len(k) == 0:
            out.bad('row', 'the model was evaluated at %s, which is no element of the chain (parameters not sampled: %s)' % (
                th.tolist(), [theta[i] for i in range(theta.size) if i not in ind]))
            return None
        rows.append(k)
    if nsample >= n:
        a = sorted(tuple(th[ind]) for th, _, _, _ in G)
        b = sorted(tuple(x) for x in c)
        if a != b:
            out.bad('all', 'all %d chain elements were asked for, but not each was used once' % n)
        out.c['all'] += 1
    elif m >= 150 and len({tuple(x) for x in c}) == n and not full['world'].get('uover'):
        q = {int(k[0]) * 4 // n for k in rows}
        if q != {0, 1, 2, 3}:
            out.bad('choice', '%d of %d chain elements came only from the quarters %s of the chain' % (m, n, sorted(q)))
        if len({int(k[0]) for k in rows}) < m // 4:
            out.bad('choice', 'only %d distinct elements of %d among %d chosen' % (len({int(k[0]) for k in rows}), n, m))
        out.c['choice'] += 1
    return rows


def check_propagate(full, got, s2, chain, theta, ind, ev, out):
    got, b = got
    c = chain[b:]
    G = groups(ev)
    rows = check_choice(full, c, G, theta, ind, out, full['nsample'])
    if out.viol:
        return
    if any(g[3] != full['shift'] for g in G):
        out.bad('data', "the model did not receive the user's data")
        return
    ncol = full['ncol']
    sets = got if isinstance(got, list) else [got]
    if len(sets) != ncol:
        out.bad('shape', '%d responses, %d sets of intervals' % (ncol, len(sets)))
        return
    ny = full['ny']
    hint = hint_rows(ev, c.shape[0], len(G), rows)
    for j in range(ncol):
        cr, pr = sets[j]['credible'], sets[j]['prediction']
        want = np.array([g[1][:, j] for g in G])
        if not arr_eq(cr, want):
            out.bad('credible', 'credible samples are not the responses of the model')
            return
        if (pr is None) != (s2 is None):
            out.bad('prediction', 'prediction samples %s' % ('missing' if pr is None else 'although no error variance'))
            return
        if len(G) > 1:
            lims = np.array([0.025, 0.25, 0.5, 0.9, 0.975, 1.0, 0.0])
            for smp in (cr, pr):
                if smp is not None and np.isfinite(smp).all() and not np.allclose(
                        up.generate_quantiles(np.asarray(smp), lims), quantiles(smp, lims), rtol=1e-9,
                        atol=1e-12 * size(smp)):
                    out.bad('quantiles', 'the quantiles of the samples are wrong')
                    return
        if pr is None:
            continue
        if np.shape(pr) != want.shape:
            out.bad('prediction', 'prediction samples have shape %s' % (np.shape(pr),))
            return
        for k, (th, y, z, _) in enumerate(G):
            if len(z) != ny * ncol:
                out.bad('noise', '%d random numbers for %d observations' % (len(z), ny * ncol))
                return
            zj = np.array(z[j * ny:(j + 1) * ny])
            ok = False
            for r_ in (rows[k] if hint is None else [hint[k]]):
                p = observe(y[:, j], zj, s2[r_, j], full['sstype'])
                if np.allclose(p, pr[k], rtol=1e-9, atol=1e-10 * size(p), equal_nan=True):
                    ok = True
                    break
            if not ok:
                out.bad('prediction', 'prediction sample %d is not the response plus the error of its own chain element '
                        '(error variance %s)' % (k, s2[rows[k], j].tolist()[:4]))
                return
        out.c['predictions'] += len(G)
    out.c['propagated'] += 1


def columns(full):
    """Number of response columns of every data set in the class interface."""
    return full.get('cols') or [1] * full['ncol']


def s2_column(s2, cols, d, j):
    """Which error variance belongs to column j of data set d; None when there is no telling."""
    n = s2.shape[1]
    if n == 1:
        return 0
    if n == sum(cols):
        return sum(cols[:d]) + j
    if n == len(cols):
        return d
    return None


def old_style(w, full, res, chain):
    cols = columns(full)
    nb = len(cols)
    ny = full['ny']
    data = DataStructure()
    models = []
    for k in range(nb):
        x = np.arange(ny, dtype=float).reshape(-1, 1) + 0.5 * k
        if full.get('shift'):
            data.add_data_set(x, np.ones([ny, cols[k]]), user_defined_object=dict(shift=full['shift'] + k))
        else:
            data.add_data_set(x, np.ones([ny, cols[k]]))
        models.append(Old(ny, cols[k], 'col' if full['shape'] == 'row' else full['shape']))
    s2 = res['s2chain']
    usable = s2 is not None and np.size(s2) and s2_column(np.asarray(s2), cols, 0, 0) is not None
    if s2 is not None and np.size(s2) and not usable:
        return 'skip', None
    n = chain.shape[0]
    b = min(full['burnin'], n - 2)
    PI = PredictionIntervals()
    model = models if (full.get('models') or len(set(cols)) > 1) else models[0]
    if full['sstype']:
        res = dict(res, sstype=full['sstype'])
    PI.setup_prediction_interval_calculation(res, data, model, burnin=b)
    w.log('setup-done')
    ns = full['nsample'] if full['nsample'] != n else None
    calc = full['s2form'] != 'none'
    PI.generate_prediction_intervals(nsample=ns, calc_pred_int=calc, waitbar=full['waitbar'])
    want = np.asarray(s2, dtype=float)[b:] if (usable and calc) else None
    return (PI.intervals, b, ns), want


def hint_rows(ev, n, m, rows):
    """Which of several equal chain elements was meant, where the history tells."""
    tries = [list(range(n))] if m == n else []
    for e in ev:
        if e[0] == 'u' and len(e[1]) == m:
            tries.append([int(np.ceil(u * n)) - 1 for u in e[1]])
            tries.append([int(np.floor(u * n)) for u in e[1]])
    for t in tries:
        t = [k % n for k in t]
        if all(k in r_ for k, r_ in zip(t, rows)):
            return t
    return None


def size(x):
    """Scale of rounding errors of numbers like x."""
    x = np.abs(np.asarray(x, dtype=float))
    x = x[np.isfinite(x)]
    return max(1.0, float(x.max())) if x.size else 1.0


def quantiles(x, p):
    x = np.sort(np.asarray(x), axis=0)
    n = x.shape[0]
    out = []
    for q in p:
        t = (n - 1) * q
        k = min(int(np.floor(t)), n - 2) if n > 1 else 0
        f = t - k
        out.append(x[k] + f * (x[min(k + 1, n - 1)] - x[k]))
    return np.array(out)


def check_old(w, full, got, s2, chain, theta, ind, ev, out):
    got, b, ns = got
    c = chain[b:]
    k0 = max(i for i, e in enumerate(ev) if e[0] == 'setup-done')
    G = groups(ev[k0:])
    cols = columns(full)
    nb = len(cols)
    n = c.shape[0]
    ns = n if ns is None else ns
    m = min(ns, n)
    if len(G) != m * nb:
        out.bad('count', '%d model evaluations for %d data sets and %d samples' % (len(G), nb, m))
        return
    if m < 2:
        return
    cred, pred = got['credible_intervals'], got['prediction_intervals']
    if len(cred) != nb or (pred is None) != (s2 is None):
        out.bad('shape', 'intervals for %d data sets, prediction intervals %s' % (len(cred), pred is not None))
        return
    lims = [0.025, 0.5, 0.975] if s2 is not None else [0.005, 0.025, 0.05, 0.25, 0.5, 0.75, 0.9, 0.975, 0.995]
    chosen = None
    for d in range(nb):
        g = G[d * m:(d + 1) * m]
        rows = check_choice(full, c, g, theta, ind, out, ns)
        if out.viol:
            return
        want = 0.5 * d + (full['shift'] + d if full['shift'] else 0.0)
        if any(x[3] != want for x in g):
            out.bad('data', 'the model for data set %d did not receive the data of that set' % d)
            return
        these = [tuple(x[0]) for x in g]
        if chosen is not None and these != chosen:
            out.bad('row', 'data sets %d and %d use different chain elements' % (d - 1, d))
            return
        chosen = these
        if len(cred[d]) != cols[d] or (pred is not None and len(pred[d]) != cols[d]):
            out.bad('shape', 'data set %d has %d columns, intervals for %d' % (d, cols[d], len(cred[d])))
            return
        for j in range(cols[d]):
            ys = np.array([x[1][:, j] for x in g])
            want = quantiles(ys, lims)
            if not np.allclose(cred[d][j], want, rtol=1e-9, atol=1e-12 * size(ys)):
                out.bad('credible', 'credible intervals of column %d of data set %d are not the quantiles of the responses' % (j, d))
                return
        if s2 is None:
            continue
        hint = hint_rows(ev[k0:], n, m, rows)
        for k, (th, y, z, _) in enumerate(g):
            if len(z) != full['ny'] * cols[d]:
                out.bad('noise', '%d random numbers for %d observations' % (len(z), full['ny'] * cols[d]))
                return
        for j in range(cols[d]):
            col = s2_column(s2, cols, d, j)
            alts = []
            amb = False
            for k, (th, y, z, _) in enumerate(g):
                row = rows[k][0]
                if hint is not None:
                    row = hint[k]
                elif len({float(v) for v in s2[rows[k], col]}) > 1:
                    amb = True
                alts.append(observe(y[:, j], np.array(z).reshape(full['ny'], cols[d])[:, j], s2[row, col], full['sstype']))
            if not amb:
                want = quantiles(np.array(alts), lims)
                if not np.allclose(pred[d][j], want, rtol=1e-8, atol=1e-10 * size(alts), equal_nan=True):
                    out.bad('prediction', 'prediction intervals of column %d of data set %d are not the quantiles of response plus error' % (j, d))
                    return
                out.c['pi.checked'] += 1
                out.c['pi.columns'] += cols[d] > 1
            else:
                out.c['pi.ambiguous'] += 1
    out.c['classic'] += 1
