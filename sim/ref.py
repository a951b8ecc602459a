"""Small executable reference model of the sampler, replayed over the recorded
history of one run.  It re-synchronises on the real chain after every step, so
one deviation is reported once, and it leaves undecided what floating point
leaves undecided (near ties, near singular covariance matrices)."""
import math

import numpy as np

from .scen import nobs, num, prior_value, sampled

INF = float('inf')


class Rec:
    """What was observed of one call of run_simulation."""
    def __init__(self, ev, results, nsimu, opts, start, theta0, prev=None):
        self.ev = ev
        self.results = results
        self.nsimu = nsimu
        self.opts = opts
        self.start = start          # absolute row of the run's initial state
        self.theta0 = theta0        # full initial vector
        self.prev = prev


def prior_settings(case):
    mu, sg = [], []
    for p in case['params']:
        m = num(p.get('mu')) if p.get('mu') is not None else 0.0
        if math.isnan(m):
            m = p['theta0']
        s = num(p.get('sig')) if p.get('sig') is not None else INF
        if s <= 0:
            s = INF
        mu.append(m)
        sg.append(s)
    return np.array(mu), np.array(sg)


def limits(case):
    lo = np.array([p['min'] if p.get('min') is not None else -INF for p in case['params']])
    hi = np.array([p['max'] if p.get('max') is not None else INF for p in case['params']])
    return lo, hi


def initial_proposal(case, opts, theta_full):
    """qcov restricted to the sampled parameters, and R with R'R = qcov."""
    ind = sampled(case)
    mu, sg = prior_settings(case)
    q = opts.get('qcov')
    P = len(case['params'])
    if q is None:
        v = sg ** 2
        bad = ~np.isfinite(v)
        v[bad] = (np.abs(theta_full[bad]) * 0.05) ** 2
        v[v == 0] = 1.0
        q = np.diag(v)
        R = np.sqrt(q[np.ix_(ind, ind)])
        return q[np.ix_(ind, ind)], R
    q = np.array(q, dtype=float)
    if q.ndim == 1 or 1 in q.shape:
        q = np.diag(q.reshape(-1))
        if q.shape[0] != P:
            raise ValueError('qcov')
        sub = q[np.ix_(ind, ind)]
        return sub, np.sqrt(sub)
    sub = q[np.ix_(ind, ind)]
    R = np.linalg.cholesky(sub).T if sub.size > 1 else np.sqrt(sub)
    return sub, R


def dr_matrices(R, ntry, drscale, first=None):
    if first is not None:
        return [np.array(r, dtype=float) for r in first]
    out = [R]
    for i in range(1, ntry):
        out.append(out[-1] / drscale[min(i, len(drscale)) - 1])
    return out


def running_cov(rows, qcov=None, mean=None, w=None):
    """Mean and covariance of the rows; with prior weight w also of the initial
    covariance matrix."""
    rows = np.asarray(rows, dtype=float)
    if w is None:
        n = rows.shape[0]
        m = rows.mean(axis=0)
        if n < 2:
            return np.zeros((rows.shape[1],) * 2), m, float(n)
        d = rows - m
        return d.T.dot(d) / (n - 1), m, float(n)
    cov = np.array(qcov, dtype=float)
    m = np.array(mean, dtype=float)
    for x in rows:
        d = (x - m)
        cov = (w - 1.0) / w * cov + np.outer(d, d) / (w + 1.0)
        m = m + d / (w + 1.0)
        w = w + 1.0
    return cov, m, w


def chol_alternatives(up, R, scale, adj, floor=0.0):
    """The proposal(s) that may follow from covariance matrix `up`."""
    if not np.isfinite(up).all():
        return [R, None]
    n = up.shape[0]
    ev = np.linalg.eigvalsh((up + up.T) / 2)
    big = max(abs(ev[-1]), abs(ev[0]), 1e-300)

    def ch(m):
        try:
            return np.linalg.cholesky(m).T * scale
        except np.linalg.LinAlgError:
            return None
    out = []
    noise = 1e-12 * big + floor
    if 0 < big <= 10 * floor:
        return [None]           # nothing but rounding: no reference
    first = ev[0] > noise
    firstno = ev[0] < -noise or ev[-1] <= 0
    if not firstno:
        c = ch(up)
        if c is None and first:
            firstno = True
        elif c is None or not first:
            # success hangs on the last bits; if it succeeds, the result is close to this
            for jit in (1e-16, 1e-15, 1e-14, 1e-13):
                c2 = ch(up + np.eye(n) * jit * big)
                if c2 is not None:
                    out.append(c2)
                    break
        if c is not None:
            out.append(c)
    if first and not firstno:
        return out
    a = up + np.eye(n) * adj
    ev2 = np.linalg.eigvalsh((a + a.T) / 2)
    big2 = max(abs(ev2[-1]), abs(ev2[0]), 1e-300)
    c = ch(a)
    if c is not None:
        out.append(c)
    if ev2[0] > 1e-12 * big2 + floor and c is not None:
        return out
    out.append(R)
    return out


def same_R(a, b, rtol=1e-6, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not np.isfinite(a).all() or not np.isfinite(b).all():
        return bool(np.array_equal(np.isfinite(a), np.isfinite(b)))
    s = max(np.abs(a).max(), np.abs(b).max(), 1e-300)
    return bool(np.abs(a - b).max() <= rtol * s + atol)


def same_cov(a, b, rtol=1e-6, big=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    s = max(np.abs(a).max(), np.abs(b).max(), 1e-300)
    e = 1e-14 * big             # rounding of a mean of values of this size
    return bool(np.abs(a - b).max() <= rtol * s + 1e-14 + e * (e + 2 * math.sqrt(s)))


def dedupe(Rs):
    out = []
    for R in Rs:
        if R is None:
            out.append(None)
            continue
        if not any(x is not None and same_R(x, R, 1e-9) for x in out):
            out.append(R)
    return out


class State:
    __slots__ = ('th', 'lp', 'oob', 'bad')

    def __init__(self, th, lp, oob=False):
        self.th = np.asarray(th, dtype=float)
        self.lp = lp
        self.oob = oob


def dr_alpha(path, Rs):
    """Acceptance probability of the last element of the path (Green & Mira)."""
    n = len(path) - 1
    a1 = a2 = 1.0
    rev = path[::-1]
    for k in range(n - 1):
        f = dr_alpha(path[:k + 2], Rs)
        b = dr_alpha(rev[:k + 2], Rs)
        a1 *= (1 - f)
        a2 *= (1 - b)
    if a2 == 0:
        return 0.0
    y = path[-1].lp - path[0].lp
    for k in range(n - 1):
        iR = np.linalg.inv(Rs[k])
        y += -0.5 * (np.linalg.norm((rev[k + 1].th - rev[0].th).dot(iR)) ** 2
                     - np.linalg.norm((path[k + 1].th - path[0].th).dot(iR)) ** 2)
    if math.isnan(y) or math.isnan(a1) or math.isnan(a2):
        return float('nan')
    if a1 == 0:
        return float('nan')
    if y == -INF:
        return 0.0
    return min(1.0, math.exp(min(y, 700.0)) * a2 / a1)


def gamma_mt(a, us, zs):
    """Marsaglia-Tsang, driven by recorded draws; None when they run out."""
    us, zs = list(us), list(zs)
    mult = 1.0
    if a < 1:
        # order of the two uses of uniform numbers: shape a+1 first
        y, us2, zs2 = gamma_mt(a + 1, us, zs)
        if y is None or not us2:
            return None, us, zs
        return y * us2[0] ** (1.0 / a), us2[1:], zs2
    d = a - 1.0 / 3
    c = 1.0 / math.sqrt(9 * d)
    while True:
        while True:
            if not zs:
                return None, us, zs
            x = zs.pop(0)
            v = 1 + c * x
            if v > 0:
                break
        v = v ** 3
        if not us:
            return None, us, zs
        u = us.pop(0)
        if u < 1 - 0.0331 * x ** 4:
            break
        if u <= 0 or math.log(u) < 0.5 * x ** 2 + d * (1 - v + math.log(v)):
            break
    return mult * d * v, us, zs


def batch_sos(data, i, ymodel):
    y = np.asarray(data['y'][i], dtype=float).reshape(-1)
    wt = data['w'][i] if 'w' in data else 1
    with np.errstate(all='ignore'):
        return float(np.sum(wt * (y - np.asarray(ymodel)) ** 2))


def group_evals(case, ev):
    """Evaluations of the posterior in a stretch of history: [(theta_full, ss, custom)]."""
    out = []
    if case['sos']['kind'] == 'model':
        nb = len(case['data']['x'])
        cnt = 0
        for e in ev:
            if e[0] == 'model':
                if cnt % nb == 0:
                    out.append((np.array(e[1]), np.full(nb, np.nan), None))
                out[-1][1][cnt % nb] = batch_sos(case['data'], cnt % nb, e[2])
                cnt += 1
    else:
        for e in ev:
            if e[0] == 'sos':
                out.append((np.array(e[1]), np.array(e[2]), e[3]))
    return out


def split_steps(rec, probe_id=0):
    """History before the first step, then per step (ended by the probe)."""
    head, steps, cur = None, [], []
    for e in rec.ev:
        if e[0] == 'cs_setup' and e[1] == probe_id and head is None:
            head = cur
            cur = []
            continue
        if e[0] == 'cs' and e[1] == probe_id:
            steps.append((cur, e))
            cur = []
            continue
        cur.append(e)
    return head, steps, cur


def initial_s2(case):
    """Initial error variance and hyperparameters, per the documented defaults."""
    m = case.get('model', {})
    nsos = case['sos']['nsos']
    nb = len(case['data']['x'])
    Nb = np.array(nobs(case['data']), dtype=float)

    def arr(v):
        return None if v is None else np.atleast_1d(np.array(v, dtype=float))
    s2, S20, N0 = arr(m.get('sigma2')), arr(m.get('S20')), arr(m.get('N0'))
    forced = N0 is not None
    if N0 is None:
        if s2 is None:
            s2 = np.ones(1)
            N0 = np.zeros(1)
        else:
            N0 = np.ones(1)
    if s2 is None:
        s2 = S20 if S20 is not None else np.ones(nb)
    if S20 is None:
        S20 = s2

    def full(x):
        if x.size == 1:
            return np.ones(nsos) * x
        return x.copy()
    if nsos == 1 and Nb.size > 1:
        N = np.array([Nb.sum()])
    elif Nb.size == 1:
        N = np.ones(nsos) * Nb
    else:
        N = Nb
    return full(s2), full(S20), full(N0), N, forced


class Replay:
    """Replays one run; self.bad collects (class, message)."""

    def __init__(self, case, rec, tol=1e-6, s2_first=None, skip_first_decision=False):
        self.case, self.rec = case, rec
        self.bad = []
        self.n = dict(steps=0, decided=0, undecided=0, accepted=0, rejected=0, oob=0, dr=0, draccept=0,
                      adapt=0, burn=0, singular=0, nan=0, gamma=0, gammaskip=0, noproposal=0)
        self.reject_flags = []
        self.oob_flags = []
        self.stage_accept = {}
        self.amb = 0
        self.s2_first = s2_first
        self.pmap = {e[1]: e[2] for e in rec.ev if e[0] == 'prior'}     # what the user's prior returned
        self.run()

    def viol(self, cls, msg):
        self.bad.append((cls, msg))

    def lp(self, th, ss, s2):
        with np.errstate(all='ignore'):
            pv = self.pmap.get(tuple(float(x) for x in th))
            if pv is None:
                pv = prior_value(self.case.get('prior'), th, self.mu, self.sg)
            return float(-0.5 * np.sum(np.asarray(ss) / s2) - 0.5 * pv)

    def run(self):
        case, rec = self.case, self.rec
        o = rec.opts
        ind = sampled(case)
        npar = len(ind)
        mu, sg = prior_settings(case)
        self.mu, self.sg = mu[ind], sg[ind]
        for e in rec.ev:
            if e[0] == 'prior' and math.isfinite(e[2]):
                want = prior_value(case.get('prior'), np.array(e[1]), self.mu, self.sg)
                if not abs(e[2] - want) <= 1e-9 * (1 + abs(want)):
                    self.viol('accept', 'the prior function was given other prior settings than the user defined: it '
                              'returned %s at %s, expected %s' % (e[2], e[1], want))
                    break
        lo, hi = limits(case)
        lo, hi = lo[ind], hi[ind]
        method = o['method']
        ntry = o.get('ntry') or {'dr': 2, 'dram': 2}.get(method, 1)
        adaptint = 0
        if method in ('am', 'dram'):
            adaptint = o.get('adaptint', 100)
        elif method == 'ram':
            adaptint = o.get('adaptint', 1)
        doram = method == 'ram'
        burn = o.get('burnintime', 0)
        bscale = o.get('burnin_scale', 10)
        drscale = o.get('drscale') or [5., 4., 3.]
        adj = o.get('qcov_adjust', 1e-8)
        adas = o.get('adascale')
        if adas is None:
            adas = 1.0 if doram else None
        scale = adas if adas is not None and adas > 0 else 2.4 / math.sqrt(npar)
        self.adaptint = adaptint
        last = o.get('lastadapt', 0)
        self.lastadapt = last = last if last >= 1 else float('inf')     # default: the whole simulation
        qsub, R0 = initial_proposal(case, o, np.array(rec.theta0, dtype=float))
        first = o.get('RDR') if method in ('dr', 'dram') else None
        if first is not None:
            R0 = np.array(first[0], dtype=float)
        noad = [k for k, i in enumerate(ind) if not case['params'][i].get('adapt', True)]
        Rset = [R0]
        res = rec.results
        chain = np.asarray(res['chain'])
        ssch = np.asarray(res['sschain'])
        s2ch = res['s2chain']
        s2i, S20, N0, N, forced = initial_s2(case)
        upd = s2ch is not None
        self.Rhist = {0: list(Rset)}
        cov = mean = None
        ww = o.get('initqcovn')
        if ww is not None:
            cov, mean = qsub, chain[rec.start]
        head, steps, tail = split_steps(rec)
        self.nsteps = len(steps)
        if head is None or len(steps) != rec.nsimu - 1:
            self.viol('steps', 'custom sampler was updated %d times in a run of %d steps'
                      % (len(steps), rec.nsimu - 1))
            return
        if chain.shape[0] != rec.start + rec.nsimu:
            self.viol('shape', 'chain has %d rows, expected %d' % (chain.shape[0], rec.start + rec.nsimu))
            return
        rej_interval = 0
        big = float(np.abs(chain).max()) if np.isfinite(chain).all() else 1.0
        floor = (1e-13 * big) ** 2
        self.atolR = 1e-11 * big
        self.bigs = None if doram or not np.isfinite(chain).all() else np.abs(chain).max(axis=0)
        for i in range(1, rec.nsimu):
            a = rec.start + i
            ev, mark = steps[i - 1]
            self.n['steps'] += 1
            if mark[2] != i:
                self.viol('steps', 'step %d reported as isimu=%s' % (i, mark[2]))
                return
            old, new = chain[a - 1], chain[a]
            if upd:
                s2 = np.asarray(s2ch[a - 1], dtype=float)
                if i == 1 and self.s2_first is not None:
                    s2 = np.asarray(self.s2_first, dtype=float)
            else:
                s2 = s2i
            U = [x for e in ev if e[0] == 'u' for x in e[1]]
            Z = [x for e in ev if e[0] == 'z' for x in e[1]]
            other = any(e[0] == 'o' for e in ev)
            E = group_evals(case, ev)
            moved = not np.array_equal(old, new)
            alpha1, accepted_stage, Rset, up, zp, lastoob = self.step(
                i, a, old, new, ssch[a - 1], s2, U, Z, other, E, Rset, lo, hi, ind, npar, ntry, drscale,
                first if i and self.first_R(rec, i) else None, mark)
            self.first_active = first
            rejected = not (moved or mark[3])
            self.reject_flags.append(rejected)
            self.oob_flags.append(lastoob)
            if rejected:
                self.n['rejected'] += 1
                rej_interval += 1
            else:
                self.n['accepted'] += 1
            if accepted_stage is not None:
                self.stage_accept[accepted_stage] = self.stage_accept.get(accepted_stage, 0) + 1
            # adaptation
            if adaptint > 0 and i % adaptint == 0 and i <= last:
                self.n['adapt'] += 1
                if i < burn:
                    self.n['burn'] += 1
                    fr = rej_interval / float(adaptint)
                    if fr > 0.95:
                        Rset = [R if R is None else R / bscale for R in Rset]
                    elif fr < 0.05:
                        Rset = [R if R is None else R * bscale for R in Rset]
                else:
                    cov, mean, _ = running_cov(chain[:a], qsub if ww is not None else None,
                                               chain[rec.start] if ww is not None else None, ww)
                    new_R = []
                    for R in Rset:
                        if R is None and doram:
                            new_R.append(None)
                            continue
                        if doram:
                            z1 = np.array(Z[:npar])
                            if len(z1) < npar:
                                new_R.append(None)
                                continue
                            al = [alpha1] if alpha1 is not None else [None]
                            if alpha1 is not None and math.isnan(alpha1):
                                al = [0.0, 1.0]
                            for av in al:
                                if av is None:
                                    new_R.append(None)
                                    continue
                                uu = z1 / np.linalg.norm(z1)
                                eta = 1.0 / i ** o.get('etaparam', 0.7)
                                ram = np.eye(npar) + eta * (min(1.0, av) - o.get('alphatarget', 0.234)) * np.outer(uu, uu)
                                new_R += chol_alternatives(R.T.dot(ram).dot(R), R, scale, adj)
                        else:
                            upc = cov.copy()
                            upc[noad, :] = qsub[noad, :]
                            upc[:, noad] = qsub[:, noad]
                            alts = chol_alternatives(upc, R, scale, adj, floor)
                            if len(alts) > 1 or alts[0] is None:
                                self.n['singular'] += 1
                            new_R += alts
                    Rset = dedupe(new_R)[:8]
                rej_interval = 0
            self.Rhist[i] = list(Rset)
            # error variance
            if upd:
                self.check_s2(i, a, ssch[a], np.asarray(s2ch[a], dtype=float), S20, N0, N, U[up:], Z[zp:], U, Z, other,
                              up, zp)
        # end of the run
        self.cov, self.mean = cov, mean
        self.Rset = Rset
        if not any(R is None or not np.linalg.cond(R) < 1e6 or same_R(R, res['R'], atol=self.atolR) for R in Rset):
            self.viol('adapt', 'final proposal R=%s, reference %s' % (np.array(res['R']).tolist(),
                                                                       [np.array(R).tolist() for R in Rset]))
        elif not same_cov(np.array(res['qcov']), np.array(res['R']).T.dot(np.array(res['R']))):
            self.viol('adapt', "results['qcov'] is not R'R")
        if cov is None:
            if res['cov'] is not None:
                self.viol('adapt', 'covariance reported although no adaptation took place')
        else:
            if res['cov'] is None or not same_cov(res['cov'], cov, 1e-6, big):
                self.viol('adapt', 'chain covariance %s, reference %s' % (np.array(res['cov']).tolist(), cov.tolist()))
            if not np.allclose(np.array(res['mean'], dtype=float), mean, rtol=1e-7, atol=1e-9):
                self.viol('adapt', 'chain mean %s, reference %s' % (np.array(res['mean']).tolist(), mean.tolist()))

    def first_R(self, rec, i):
        """Is the user's own list of delayed rejection matrices still in force?"""
        return self.adaptint == 0 or i <= self.adaptint or self.adaptint > self.lastadapt

    def step(self, i, a, old, new, ss_old, s2, U, Z, other, E, Rset, lo, hi, ind, npar, ntry, drscale, first, mark):
        """Returns (alpha1, accepted stage or None, surviving Rset, uniforms used, normals used, last stage oob)."""
        moved = not np.array_equal(old, new)
        obs_accept = bool(mark[3])
        if moved and not obs_accept:
            self.viol('accept', 'step %d: chain moved on a rejected step' % i)
        with np.errstate(all='ignore'):
            base = self.lp(old, ss_old, s2)
        cands = []
        if len(Z) < npar or any(R is None or not np.linalg.cond(R) < 1e6 for R in Rset):
            self.n['noproposal'] += 1
            # no reference for the proposal: the new state must still be the old one or an evaluated one
            if moved and not any(np.array_equal(e[0][ind], new) for e in E):
                self.viol('accept', 'step %d: new state was never evaluated' % i)
            return None, None, Rset, None, None, None
        for e in E:
            th = e[0][ind]
            if (th < lo).any() or (th > hi).any():
                self.viol('bounds', 'step %d: evaluated outside the limits: %s' % (i, th.tolist()))
        # find the proposal matrices which explain the candidates
        best = None
        ambiguous = False
        survivors = []
        for R in Rset:
            ex = self.explain(old, R, Z, E, ind, npar, ntry, drscale, first, lo, hi)
            if ex is not None:
                survivors.append(R)
                if best is None:
                    best = (R, ex[0])
                if ex[1]:
                    ambiguous = True
        if best is None:
            self.viol('proposal', 'step %d: evaluated states %s do not follow from the previous state %s, the normal '
                      'draws %s and any admissible proposal %s' % (
                          i, [e[0][ind].tolist() for e in E], old.tolist(), Z[:npar * ntry],
                          [R.tolist() for R in Rset]))
            return None, None, Rset, None, None, None
        R, stages = best
        Rs = dr_matrices(R, ntry, drscale, first)
        # decide
        up = 0
        path = [State(old, base)]
        expected = None
        decided = True
        alpha1 = None
        lastoob = None
        used_stage = 0
        nanpath = math.isnan(base)
        illcond = ntry > 1 and not (np.linalg.cond(R) < 1e4 and self.noise(R) < 1e-7)
        degenerate = any(np.abs(c - old).max() <= 1e-7 * (1 + np.abs(old).max()) for (c, _, _) in stages)
        if degenerate or ambiguous:
            if moved and not any(np.array_equal(e[0][ind], new) for e in E):
                self.viol('accept', 'step %d: new state was never evaluated' % i)
            self.n['undecided'] += 1
            return None, None, survivors, None, None, None
        for k, (c, e, oob) in enumerate(stages):
            used_stage = k + 1
            lastoob = oob
            if e is None:
                path.append(State(c, -INF, True))
                if k == 0:
                    alpha1 = 0.0
                    self.n['oob'] += 1
                continue
            th = e[0][ind]
            lp = self.lp(th, e[1], s2)
            st = State(th, lp)
            path.append(st)
            if math.isnan(lp):
                self.n['nan'] += 1
                if k == 0:
                    alpha1 = float('nan')
                if obs_accept and np.array_equal(new, th) and not np.array_equal(new, old):
                    self.viol('accept', 'step %d: accepted a state whose posterior is nan' % i)
                nanpath = True
                # a uniform number may or may not have been drawn
                if k == 0:
                    up += 1
                decided = False if ntry > 1 else decided
                continue
            if lp == -INF and base != -INF:
                if k == 0:
                    alpha1 = 0.0
                    up += 1
                elif ntry > 1:
                    up += 1
                if obs_accept and np.array_equal(new, th) and not np.array_equal(new, old):
                    self.viol('accept', 'step %d: accepted a state of zero posterior' % i)
                continue
            if nanpath or base == -INF:
                decided = False
                if k == 0:
                    alpha1 = float('nan')
                continue
            if k == 0:
                la = lp - base
                alpha1 = math.exp(min(0.0, la))
                u = U[up] if up < len(U) else None
                up += 1
                tol = 1e-7 * (1 + abs(la)) + 1e-12 * (abs(lp) + abs(base))
                if u is None:
                    if la >= -tol:
                        expected = 0
                        up -= 1
                        break
                    self.viol('accept', 'step %d: no random number was drawn for the decision' % i)
                    decided = False
                    continue
                lu = math.log(u) if u > 0 else -INF
                if abs(la - lu) <= tol:
                    decided = False
                    continue
                if la > lu:
                    expected = 0
                    break
            else:
                self.n['dr'] += 1
                with np.errstate(all='ignore'):
                    try:
                        if illcond:
                            raise OverflowError
                        al = dr_alpha(path, Rs)
                    except (np.linalg.LinAlgError, OverflowError):
                        al = float('nan')
                if math.isnan(al):
                    decided = False
                    continue
                if al >= 1.0 - 1e-9:
                    if al < 1.0 - 1e-12 or abs(al - 1) < 1e-9 and False:
                        pass
                    expected = k
                    break
                u = U[up] if up < len(U) else None
                up += 1
                if u is None:
                    decided = False
                    continue
                if abs(al - u) <= 1e-6 * (al + 1e-9):
                    decided = False
                    continue
                if al > u:
                    expected = k
                    break
        zp = npar * used_stage
        if not decided:
            self.n['undecided'] += 1
            self.amb += 1
            if moved and not any(e is not None and np.array_equal(e[0][ind], new) for (_, e, _) in stages):
                self.viol('accept', 'step %d: new state is neither the old one nor a candidate' % i)
            return alpha1, None, survivors, None, None, lastoob
        self.n['decided'] += 1
        if expected is None:
            if obs_accept or moved:
                self.viol('accept', 'step %d: accepted, but the rule rejects (alpha1=%s, u=%s, candidates %s)' % (
                    i, alpha1, U[:up], [None if e is None else e[0][ind].tolist() for (_, e, _) in stages]))
            return alpha1, None, survivors, up, zp, lastoob
        want = stages[expected][1][0][ind]
        if expected > 0:
            self.n['draccept'] += 1
        if not obs_accept or not np.array_equal(new, want):
            self.viol('accept', 'step %d: rule accepts stage %d candidate %s (alpha1=%s, u=%s), chain has %s' % (
                i, expected + 1, want.tolist(), alpha1, U[:up], new.tolist()))
        elif any(e is not None for (_, e, _) in stages[expected + 1:]):
            self.viol('accept', 'step %d: further candidates tried after acceptance' % i)
        return alpha1, expected, survivors, up, zp, lastoob

    def noise(self, R):
        """Relative error of an adapted proposal caused by rounding in the chain's mean and covariance."""
        if self.bigs is None or self.adaptint == 0:
            return 0.0
        d = np.sqrt((np.asarray(R) ** 2).sum(axis=0))
        if not (d > 0).all() or not np.isfinite(d).all():
            return 0.0
        return float(1e-14 * (self.bigs / d).max() * np.linalg.cond(R / d))

    def explain(self, old, R, Z, E, ind, npar, ntry, drscale, first, lo, hi):
        """Match evaluations to candidates.  Returns (stages, ambiguous) with stages
        [(candidate, evaluation or None, oob)], or None if nothing matches."""
        Rs = dr_matrices(R, ntry, drscale, first)
        if first is not None and len(Rs) < ntry:
            return None
        found = []
        noise = self.noise(R)

        def rec(k, e, out):
            if len(found) > 4:
                return
            z = np.array(Z[npar * k:npar * (k + 1)])
            if k >= ntry or len(z) < npar:
                if e >= len(E):
                    found.append(list(out))
                return
            c = old + z.dot(Rs[k])
            tol = 1e-6 * np.abs(z).dot(np.abs(Rs[k])) + 1e-9 * (1 + np.abs(old)) + np.abs(z).max() * noise * np.abs(Rs[k]).sum(axis=0)
            if not np.isfinite(tol).all():
                return
            inside = (c >= lo + tol).all() and (c <= hi - tol).all()
            outside = (c < lo - tol).any() or (c > hi + tol).any()
            if e < len(E) and not outside and (np.abs(E[e][0][ind] - c) <= tol).all():
                rec(k + 1, e + 1, out + [(c, E[e], False)])
            if not inside:
                rec(k + 1, e, out + [(c, None, True)])
            if k > 0 and e >= len(E) and not outside:
                # no further stage was tried: these normals belong to something else
                found.append(list(out))
        rec(0, 0, [])
        if not found:
            return None
        return found[0], len(found) > 1

    def check_s2(self, i, a, ss, s2new, S20, N0, N, U, Z, Uall, Zall, other, up, zp):
        if (s2new <= 0).any() or not np.isfinite(s2new).all():
            if np.isfinite(ss).all() and (N0 * S20 + ss > 0).all():
                self.viol('s2', 'step %d: error variance %s' % (i, s2new.tolist()))
            return
        if other:
            self.n['gammaskip'] += 1
            return
        offs_u = [0, 1, 2, 3, 4] if up is None else [up, up + 1, up - 1]
        npar = len(self.mu)
        offs_z = [npar * k for k in range(0, 6)] if zp is None else [zp]
        tried = []
        for ou in offs_u:
            for oz in offs_z:
                if ou < 0 or ou > len(Uall) or oz > len(Zall):
                    continue
                us, zs = Uall[ou:], Zall[oz:]
                want = []
                for j in range(len(s2new)):
                    with np.errstate(all='ignore'):
                        g, us, zs = gamma_mt(0.5 * (N0[j] + N[j]), us, zs)
                    if g is None:
                        break
                    want.append((N0[j] * S20[j] + ss[j]) / (2.0 * g))
                if len(want) == len(s2new):
                    tried.append(want)
                    if np.allclose(want, s2new, rtol=1e-7, atol=0):
                        self.n['gamma'] += 1
                        return
        if not tried and up is None:
            self.n['gammaskip'] += 1
            return
        self.viol('s2', 'step %d: error variance %s is not the conjugate draw %s for ss=%s N=%s N0=%s S20=%s' % (
            i, s2new.tolist(), tried[:2], ss.tolist(), N.tolist(), N0.tolist(), S20.tolist()))
