"""One run of the sampler, checked against the recorded history and the
reference model.  Used by the property modules, which choose the workloads,
the faults and the classes of violation that count."""
import math

import numpy as np

from . import ref, scen
from .kit import arr_eq

INF = float('inf')

FIXED_KEYS = ('chain', 'sschain', 's2chain', 'theta', 'R', 'qcov', 'cov', 'mean', 'total_rejected',
              'rejected_outside_bounds', 'iacce', 'names', 'allnames', 'limits', 'nsimu', 'parind', 'qcov_scale',
              'RDR', 'drscale', 'prior', 'alpha_count', 'qcovorig', 'original_covariance')


def evals(case, ev):
    """Every evaluation of a user function in a history: (kind, theta, value)."""
    for e in ev:
        if e[0] in ('sos', 'model', 'prior'):
            yield e[0], e[1], e[2]


def check_containment(case, ev, results, out, start=0, fixed=None):
    """P01: rows and evaluations inside the limits; parameters not sampled held."""
    ind = scen.sampled(case)
    lo, hi = ref.limits(case)
    chain = np.asarray(results['chain'])
    with np.errstate(invalid='ignore'):
        ok = (chain >= lo[ind]).all(axis=1) & (chain <= hi[ind]).all(axis=1)
    if not ok.all():
        k = int(np.flatnonzero(~ok)[0])
        out.bad('bounds', 'chain row %d = %s outside limits [%s, %s]' % (k, chain[k].tolist(), lo[ind].tolist(),
                                                                        hi[ind].tolist()))
    if fixed is None:
        fixed = np.array([p['theta0'] for p in case['params']], dtype=float)
    nonsamp = [i for i in range(len(case['params'])) if i not in ind]
    for kind, th, _ in evals(case, ev):
        t = np.array(th)
        if kind == 'prior':
            tl, th_ = lo[ind], hi[ind]
        else:
            if nonsamp and not np.array_equal(t[nonsamp], fixed[nonsamp]):
                out.bad('fixed', '%s evaluated with parameters not sampled at %s instead of %s' % (
                    kind, t[nonsamp].tolist(), fixed[nonsamp].tolist()))
                return
            t = t[ind]
            tl, th_ = lo[ind], hi[ind]
        if len(t) != len(tl) or not ((t >= tl).all() and (t <= th_).all()):
            out.bad('bounds', '%s evaluated at %s, limits [%s, %s]' % (kind, t.tolist(), tl.tolist(), th_.tolist()))
            return
    theta = np.asarray(results['theta'], dtype=float)
    if theta.size != len(case['params']):
        out.bad('fixed', 'theta has %d entries for %d parameters' % (theta.size, len(case['params'])))
    elif nonsamp and not np.array_equal(theta[nonsamp], fixed[nonsamp]):
        out.bad('fixed', 'results report %s for parameters held at %s' % (theta[nonsamp].tolist(),
                                                                         fixed[nonsamp].tolist()))
    elif not ((theta[ind] >= lo[ind]).all() and (theta[ind] <= hi[ind]).all()):
        out.bad('bounds', 'reported theta %s outside the limits' % theta.tolist())
    lim = results['limits']
    if not (arr_eq(lim[0], lo[ind]) and arr_eq(lim[1], hi[ind])):
        out.bad('bounds', 'reported limits %s' % (lim,))


def check_rows(case, rec, out, prev=None, first=True):
    """P02: shapes; first and last rows; every row's own sum-of-squares and error variance."""
    res = rec.results
    ind = scen.sampled(case)
    chain, ss, s2 = res['chain'], res['sschain'], res['s2chain']
    n = rec.start + rec.nsimu
    nsos = case['sos']['nsos']
    upd = bool(rec.opts.get('updatesigma'))
    if np.shape(chain) != (n, len(ind)):
        out.bad('shape', 'chain has shape %s, expected %s' % (np.shape(chain), (n, len(ind))))
        return
    if np.shape(ss) != (n, nsos):
        out.bad('shape', 'sschain has shape %s, expected %s' % (np.shape(ss), (n, nsos)))
        return
    if upd != (s2 is not None):
        m = case.get('model', {})
        if not (s2 is not None and not upd and m.get('N0') is not None):
            out.bad('shape', 'updatesigma=%s but s2chain is %s' % (upd, 'present' if s2 is not None else 'absent'))
            return
    if s2 is not None and np.shape(s2) != (n, nsos):
        out.bad('shape', 's2chain has shape %s, expected %s' % (np.shape(s2), (n, nsos)))
        return
    if res['nsimu'] != rec.nsimu:
        out.bad('shape', "results report nsimu=%s" % res['nsimu'])
    if list(res['names']) != [case['params'][i]['name'] for i in ind] or \
            list(res['allnames']) != [p['name'] for p in case['params']] or list(res['parind']) != ind:
        out.bad('names', 'names %s, all names %s, indices %s' % (res['names'], res['allnames'], list(res['parind'])))
    so, pr = res['simulation_options'], res['prior']
    if so['nsimu'] != rec.nsimu or so['method'] != rec.opts['method'] or bool(so['updatesigma']) != bool(s2 is not None):
        out.bad('settings', 'results report nsimu %s, method %s, updatesigma %s' % (so['nsimu'], so['method'], so['updatesigma']))
    sig = [p.get('sig') for p in case['params']]
    sig = [INF if v is None or scen.num(v) <= 0 else scen.num(v) for v in sig]
    mu = [0.0 if p.get('mu') is None else scen.num(p['mu']) for p in case['params']]
    if not arr_eq(pr['sigma'], sig) or np.size(pr['mu']) != len(mu) or any(
            m == m and m != g for m, g in zip(mu, np.asarray(pr['mu'], dtype=float))):
        out.bad('settings', 'results report the prior %s' % (pr,))
    if 'updatesigma' in res and bool(res['updatesigma']) != bool(so['updatesigma']):
        out.bad('settings', 'results report updatesigma %s and %s' % (res.get('updatesigma'), so['updatesigma']))
    if not np.array_equal(np.asarray(res['qcovorig'])[np.ix_(ind, ind)], res['qcov'], equal_nan=True):
        out.bad('settings', 'the covariance of all parameters %s differs from that of the sampled ones %s' % (
            np.asarray(res['qcovorig']).tolist(), np.asarray(res['qcov']).tolist()))
    th0 = np.array(rec.theta0, dtype=float)
    if not np.array_equal(chain[rec.start], th0[ind]):
        out.bad('first', 'row %d is %s, the run started at %s' % (rec.start, chain[rec.start].tolist(),
                                                                 th0[ind].tolist()))
    if not np.array_equal(np.asarray(res['theta'])[ind], chain[-1]):
        out.bad('last', 'theta %s is not the last row %s' % (np.asarray(res['theta']).tolist(), chain[-1].tolist()))
    head, steps, tail = ref.split_steps(rec)
    if head is None or len(steps) != rec.nsimu - 1:
        out.bad('steps', '%d steps were made, expected %d' % (len(steps), rec.nsimu - 1))
        return
    E0 = ref.group_evals(case, head)
    if rec.start == 0:
        if not E0 or not np.array_equal(E0[0][0], th0):
            out.bad('first', 'the initial state was not evaluated')
        elif not near(E0[0][1], ss[0], case):
            out.bad('ss', 'sschain row 0 is %s, the function returned %s' % (ss[0].tolist(), E0[0][1]))
        if s2 is not None:
            want = ref.initial_s2(case)[0]
            if first and prev is None and not np.allclose(s2[0], want, rtol=1e-12, atol=0):
                out.bad('s2first', 's2chain row 0 is %s, the initial error variance is %s' % (s2[0].tolist(),
                                                                                             want.tolist()))
    for i in range(1, rec.nsimu):
        a = rec.start + i
        ev, mark = steps[i - 1]
        if not np.array_equal(np.array(mark[4]), chain[a]):
            out.bad('row', 'row %d of the chain is %s, the state after that step was %s' % (
                a, chain[a].tolist(), list(mark[4])))
            return
        if not arr_eq(np.array(mark[5]), ss[a]):
            out.bad('ss', 'row %d: sschain has %s, the state after that step had %s' % (a, ss[a].tolist(), mark[5]))
            return
        if s2 is not None and not arr_eq(np.array(mark[6]), s2[a]):
            out.bad('s2row', 'row %d: s2chain has %s, the state after that step had %s' % (a, s2[a].tolist(), mark[6]))
            return
        if np.array_equal(chain[a], chain[a - 1]):
            if not mark[3] and not arr_eq(ss[a], ss[a - 1]):
                out.bad('ss', 'row %d repeats row %d but its sum-of-squares is %s, not %s' % (
                    a, a - 1, ss[a].tolist(), ss[a - 1].tolist()))
                return
        if mark[3]:
            hits = [e for e in ref.group_evals(case, ev) if np.array_equal(e[0][ind], chain[a])]
            if not hits:
                out.bad('row', 'row %d = %s was accepted but never evaluated in that step' % (a, chain[a].tolist()))
                return
            if not any(near(h[1], ss[a], case) for h in hits):
                out.bad('ss', 'row %d: sschain has %s, the function returned %s there' % (
                    a, ss[a].tolist(), [list(h[1]) for h in hits]))
                return
        elif not np.array_equal(chain[a], chain[a - 1]):
            out.bad('row', 'row %d moved on a rejected step' % a)
            return
    if prev is not None and rec.start > 0:
        for k in ('chain', 'sschain', 's2chain'):
            if (prev[k] is None) != (res[k] is None):
                out.bad('prefix', '%s appears or disappears in the continued run' % k)
            elif prev[k] is not None and not arr_eq(res[k][:rec.start + 1], prev[k]):
                out.bad('prefix', 'the continued %s does not begin with the previous one' % k)


def near(a, b, case):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if case['sos']['kind'] == 'model':
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-10, atol=1e-12, equal_nan=True))
    return arr_eq(a, b)


def check_counters(case, rec, rp, out):
    """P16"""
    res = rec.results
    n = rec.nsimu
    rej = sum(rp.reject_flags)
    if len(rp.reject_flags) != n - 1:
        return
    if abs(res['total_rejected'] * n - rej) > 1e-6:
        out.bad('rejected', 'total_rejected*nsimu = %s, %d steps were rejected' % (res['total_rejected'] * n, rej))
    if all(f is not None for f in rp.oob_flags):
        oob = sum(1 for r_, o_ in zip(rp.reject_flags, rp.oob_flags) if r_ and o_)
        out.c['counter.oob'] += oob
        if abs(res['rejected_outside_bounds'] * n - oob) > 1e-6:
            out.bad('oob', 'rejected_outside_bounds*nsimu = %s, %d steps were rejected with their last candidate '
                    'outside the limits' % (res['rejected_outside_bounds'] * n, oob))
    if res['rejected_outside_bounds'] > res['total_rejected'] + 1e-12 or not 0 <= res['total_rejected'] <= 1:
        out.bad('rejected', 'fractions total %s, outside bounds %s' % (res['total_rejected'],
                                                                     res['rejected_outside_bounds']))
    if 'iacce' in res:
        ia = [int(x) for x in res['iacce']]
        if sum(ia) != n - rej:
            out.bad('iacce', 'acceptance per stage %s does not add up to %d' % (ia, n - rej))
        if rp.n['undecided'] == 0 and rp.n['noproposal'] == 0 and not rp.bad:
            want = [rp.stage_accept.get(k, 0) for k in range(len(ia))]
            want[0] += 1
            out.c['counter.iacce'] += sum(want[1:])
            if ia != want:
                out.bad('iacce', 'acceptance per stage %s, observed %s' % (ia, want))


def check_custom(case, rec, out):
    """P18: every custom sampler once per step, in order, with the state of that step; its
    output goes to the sum-of-squares function of the next one."""
    cs = case.get('custom', [])
    ids = [c['id'] for c in cs]
    ev = rec.ev
    # set up: once each, in order, after the initial evaluation, before the first step
    seq = [e for e in ev if e[0] in ('cs', 'cs_setup')]
    setups = [e[1] for e in seq if e[0] == 'cs_setup']
    if setups != ids or [e[1] for e in seq[:len(ids)]] != ids or any(e[0] != 'cs_setup' for e in seq[:len(ids)]):
        out.bad('setup', 'custom samplers set up in order %s, expected %s' % (setups, ids))
        return
    upd = seq[len(ids):]
    want = [(i, k) for i in range(1, rec.nsimu) for k in ids]
    got = [(e[2], e[1]) for e in upd]
    if got != want:
        bad = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
        out.bad('order', 'update %d of %d/%d is (step, sampler) %s, expected %s' % (
            bad, len(got), len(want), got[bad] if bad < len(got) else None, want[bad] if bad < len(want) else None))
        return
    chain, ss, s2 = rec.results['chain'], rec.results['sschain'], rec.results['s2chain']
    s2c = ref.initial_s2(case)[0]
    for e in upd:
        a = rec.start + e[2]
        if not np.array_equal(np.array(e[4]), chain[a]) or not arr_eq(np.array(e[5]), ss[a]):
            out.bad('state', 'sampler %s was given the state %s, row %d is %s' % (e[1], list(e[4]), a,
                                                                                chain[a].tolist()))
            return
        w2 = s2[a] if s2 is not None else s2c
        if s2 is not None and not arr_eq(np.array(e[6]), w2):
            out.bad('state', 'sampler %s was given error variance %s, row %d has %s' % (e[1], list(e[6]), a,
                                                                                     w2.tolist()))
            return
        if not e[3] and not np.array_equal(chain[a], chain[a - 1]):
            out.bad('state', 'sampler %s was told of a rejection in step %d although the chain moved' % (e[1], e[2]))
            return
        if e[3] and np.array_equal(chain[a], chain[a - 1]) and not any(
                x[0] in ('sos', 'model') for x in ev):
            out.bad('state', 'accept flag')
            return
    # what the sum-of-squares function received
    if case['sos']['kind'] != 'model' and case['sos'].get('custom', True):
        cur = None
        step = 0
        outputs = None
        pend = []
        for e in ev:
            if e[0] == 'cs_setup':
                pend.append('setup-%s' % e[1])
                if len(pend) == len(ids):
                    outputs, pend = pend, []
            elif e[0] == 'cs':
                pend.append('%s-%s' % (e[1], e[2]))
                if len(pend) == len(ids):
                    outputs, pend = pend, []
            elif e[0] == 'sos':
                got = e[3]
                if outputs is None:
                    if got not in (None, []):
                        out.bad('custom', 'initial evaluation received %s' % (got,))
                        return
                elif got != outputs:
                    out.bad('custom', 'sum-of-squares received %s, the samplers last returned %s' % (got, outputs))
                    return
                out.c['custom.passed'] += 1


def probe_stats(out, case, rp):
    for k, v in rp.n.items():
        out.c['ref.' + k] += v
    m = case['opts']['method']
    out.state(m, len(scen.sampled(case)), 'upd' if case['opts'].get('updatesigma') else 'fix',
              'dr%d' % min(3, rp.n['draccept']), 'oob%d' % (rp.n['oob'] > 0), 'nan%d' % (rp.n['nan'] > 0),
              'sing%d' % (rp.n['singular'] > 0), 'burn%d' % (rp.n['burn'] > 0), case['sos']['kind'],
              'fixed%d' % any(not p.get('sample', True) for p in case['params']))
