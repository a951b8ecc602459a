"""Workloads: a case is a plain JSON-able dict; build() turns it into an MCMC
object of the real package, with callbacks the simulator observes and can make
fail."""
import contextlib
import copy
import io
import os

import numpy as np

from . import seams
from .seams import muted                # noqa: F401

with muted():
    from pymcmcstat.MCMC import MCMC
    from pymcmcstat.ParallelMCMC import ParallelMCMC            # noqa: F401
    from pymcmcstat import ParallelMCMC as PM                   # noqa: F401
    from pymcmcstat.chain import ChainProcessing as CP          # noqa: F401
    import pymcmcstat
    assert os.path.abspath(pymcmcstat.__file__).startswith(os.path.abspath(seams.REPO)), pymcmcstat.__file__

INF = float('inf')


def num(x):
    """JSON has no inf/nan: they travel as strings."""
    if isinstance(x, str):
        return float(x)
    return x


# ----------------------------------------------------------------------------
# callbacks
# ----------------------------------------------------------------------------
def sos_value(cfg, theta, data):
    """The user's sum-of-squares, a deterministic function of theta."""
    theta = np.asarray(theta, dtype=float)
    wall = cfg.get('wall')
    if wall is not None:
        k = wall['k'] % theta.size
        v = theta[k] * wall.get('sign', 1)
        if v > wall['thr']:
            return np.full(cfg['nsos'], float(wall['val']))
    if cfg['kind'] == 'quad':
        out = np.zeros(cfg['nsos'])
        for j in range(cfg['nsos']):
            c = np.asarray(cfg['centers'][j], dtype=float)
            out[j] = cfg['scale'] * float(np.sum((theta - c) ** 2)) + cfg.get('base', 0.5)
        if cfg.get('coupled') and theta.size > 1:
            out = out + cfg['scale'] * 0.5 * (theta[0] * theta[1]) ** 2
        return out
    if cfg['kind'] == 'data':
        out = np.zeros(cfg['nsos'])
        for ib in range(len(data.ydata)):
            j = ib % cfg['nsos']
            x = np.asarray(data.xdata[ib]).reshape(-1)
            y = np.asarray(data.ydata[ib]).reshape(-1)
            r = y - theta[0] - theta[1 % theta.size] * x * (1 if theta.size > 1 else 0)
            out[j] += float(np.dot(r, r))
        return out * cfg['scale'] + cfg.get('base', 0.5)
    raise ValueError(cfg['kind'])


class Sos:
    """User's sum-of-squares function taking (theta, data, custom)."""
    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, theta, data, custom=None):
        return _sos(self.cfg, theta, data, copy.deepcopy(custom))


class Sos2:
    """User's sum-of-squares function taking (theta, data)."""
    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, theta, data):
        return _sos(self.cfg, theta, data, None)


def _sos(cfg, theta, data, custom):
    w = seams.world()
    th = tuple(float(x) for x in np.asarray(theta).reshape(-1))
    f = w.callback('sos')
    val = sos_value(cfg, theta, data)
    if f is not None and f['kind'] in ('nan', 'inf'):
        val = np.full_like(val, float(f['kind']))
    w.log('sos', th, tuple(float(v) for v in val), custom)
    ret = cfg.get('ret', 'np')
    scribble(cfg, theta)
    if ret == 'float' and val.size == 1:
        return float(val[0])
    if ret == 'np0' and val.size == 1:
        return np.float64(val[0])
    if cfg.get('scribble'):
        # one and the same array is returned every time
        buf = w.current.__dict__.setdefault('sosbuf', {}).setdefault((id(cfg), val.size), np.zeros_like(val))
        buf[:] = val
        return buf
    return val


class Model:
    """User's model function for the built-in sum-of-squares."""
    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, xdata, theta):
        w = seams.world()
        th = tuple(float(x) for x in np.asarray(theta).reshape(-1))
        f = w.callback('model')
        y = model_value(th, xdata)
        if f is not None and f['kind'] in ('nan', 'inf'):
            y = y * float(f['kind'])
        w.log('model', th, tuple(y.reshape(-1).tolist()))
        scribble(self.cfg, theta)
        return y


def scribble(cfg, theta):
    """User functions may work in place on the values they are given."""
    if cfg and cfg.get('scribble') and isinstance(theta, np.ndarray):
        theta[:] = 1e9


def model_value(th, xdata):
    x = np.asarray(xdata)
    return th[0] + (th[1] if len(th) > 1 else 0.0) * x + (th[2] * x ** 2 if len(th) > 2 else 0.0)


def model_sos(th, data):
    out = np.zeros(len(data['x']))
    for i in range(len(out)):
        x = np.asarray(data['x'][i], dtype=float)
        y = np.asarray(data['y'][i], dtype=float)
        wt = data.get('w', [1] * len(out))[i]
        out[i] = np.sum(wt * (y.reshape(x.shape) - model_value(th, x)) ** 2)
    return out


class Prior:
    """User's prior function (theta, mu, sigma) -> -2 log prior."""
    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, theta, mu, sigma):
        w = seams.world()
        th = tuple(float(x) for x in np.asarray(theta).reshape(-1))
        f = w.callback('prior')
        val = prior_value(self.cfg, theta, mu, sigma)
        if f is not None and f['kind'] in ('nan', 'inf'):
            val = float(f['kind'])
        w.log('prior', th, val)
        scribble(self.cfg, theta)
        return val


def prior_value(cfg, theta, mu, sigma):
    theta = np.asarray(theta, dtype=float)
    r = (np.asarray(mu, dtype=float) - theta) / np.asarray(sigma, dtype=float)
    val = float(np.dot(r, r))
    if cfg and cfg.get('kind') == 'laplace':
        val = val + cfg.get('lam', 1.0) * float(np.sum(np.abs(theta)))
    if cfg and 'wall' in cfg:
        if theta[0] * cfg['wall'].get('sign', 1) > cfg['wall']['thr']:
            val = INF
    return val


class Probe:
    """Custom sampler: observes every step, optionally keeps and saves a chain."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.save_chain = bool(cfg.get('save', False))
        self.chains = []
        self.count = 0

    def setup(self):
        w = seams.world()
        w.callback('cs_setup')
        n = self.cfg.get('rows', 2000)
        k = self.cfg.get('cols', 1)
        self.mtx = np.zeros([n, k])
        self.mtx[0, :] = self.value(0)
        self.chains = [dict(file=self.cfg.get('file', 'cs_chain'), mtx=self.mtx)]
        w.log('cs_setup', self.cfg['id'])
        self.last = 'setup-%s' % self.cfg['id']
        return self.last

    def value(self, i):
        return self.cfg['id'] * 1000.0 + self.count + i * 1e-3

    def update(self, accept, isimu, current_set):
        w = seams.world()
        w.callback('cs')
        self.count += 1
        if isimu < self.mtx.shape[0]:
            self.mtx[isimu, :] = self.value(isimu)
        w.log('cs', self.cfg['id'], int(isimu), bool(accept),
              tuple(float(v) for v in np.asarray(current_set.theta).reshape(-1)),
              tuple(float(v) for v in np.asarray(current_set.ss).reshape(-1)),
              tuple(float(v) for v in np.asarray(current_set.sigma2).reshape(-1)))
        self.last = '%s-%s' % (self.cfg['id'], isimu)
        return self.last


# ----------------------------------------------------------------------------
# building
# ----------------------------------------------------------------------------
def data_sets(data):
    """The arguments of add_data_set, as a user would make them."""
    out = []
    for i in range(len(data['x'])):
        x = np.array(data['x'][i], dtype=float)
        y = np.array(data['y'][i], dtype=float)
        if data.get('cols', 1) > 1:
            y = np.column_stack([y + 0.1 * k for k in range(data['cols'])])
        form = data.get('form')
        if form == 'col':
            x = x.reshape(-1, 1)
            y = y if y.ndim == 2 else y.reshape(-1, 1)
        elif form == 'list':
            x, y = x.tolist(), y.tolist()
        kw = {}
        if 'w' in data:
            kw['weight'] = data['w'][i]
        if data.get('n') and data['n'][i] is not None:
            kw['n'] = data['n'][i]
        out.append((x, y, kw))
    return out


def make_data(mc, data):
    for x, y, kw in data_sets(data):
        mc.data.add_data_set(x, y, **kw)


def add_parameters(mc, params):
    for p in params:
        kw = dict(name=None if p.get('unnamed') else p['name'], theta0=p['theta0'])
        if p.get('omit') and p['theta0'] == 1:
            kw.pop('theta0')            # the default
        if p.get('min') is not None:
            kw['minimum'] = p['min']
        if p.get('max') is not None:
            kw['maximum'] = p['max']
        if p.get('mu') is not None:
            kw['prior_mu'] = num(p['mu'])
        if p.get('sig') is not None:
            kw['prior_sigma'] = num(p['sig'])
        kw['sample'] = p.get('sample', True)
        kw['adapt'] = p.get('adapt', True)
        mc.parameters.add_model_parameter(**kw)


_ARR = ('qcov', 'drscale')


def option_kwargs(w, opts):
    kw = dict(opts)
    kw.setdefault('waitbar', False)
    kw.setdefault('verbosity', 0)
    lists = kw.pop('lists', False)
    for k in _ARR:
        if kw.get(k) is not None:
            # whole numbers stay whole numbers
            kw[k] = np.array(kw[k]) if not lists else copy.deepcopy(kw[k])
    if kw.get('RDR') is not None:
        kw['RDR'] = [np.array(r, dtype=float) for r in kw['RDR']]
    if 'savedir' in kw and kw['savedir'] is not None:
        kw['savedir'] = os.path.join(w.scratch, kw['savedir'])
    if kw.get('json_restart_file') is not None:
        kw['json_restart_file'] = os.path.join(w.scratch, kw['json_restart_file'])
    return kw


def model_kwargs(case):
    m = dict(case.get('model', {}))
    kw = {}
    for k in ('sigma2', 'S20', 'N0', 'N'):
        v = m.get(k)
        if v is not None:
            if isinstance(v, list):
                v = np.array(v, dtype=float if not m.get('as_int') else None)
            kw[k] = v
    if case['sos']['kind'] == 'model':
        kw['model_function'] = Model(case['sos'])
    else:
        kw['sos_function'] = (Sos if case['sos'].get('custom', True) else Sos2)(case['sos'])
    if case.get('prior'):
        kw['prior_function'] = Prior(case['prior'])
    return kw


def build(w, case, rngseed='case'):
    if isinstance(rngseed, str) and rngseed == 'case':
        rngseed = case.get('rngseed', 1)
    mc = MCMC(rngseed=rngseed)
    make_data(mc, case['data'])
    add_parameters(mc, case['params'])
    mc.model_settings.define_model_settings(**model_kwargs(case))
    mc.simulation_options.define_simulation_options(**option_kwargs(w, case['opts']))
    for c in case.get('custom', []):
        mc.custom_samplers.append(Probe(c))
    return mc


@contextlib.contextmanager
def quiet(buf=None):
    out = buf if buf is not None else io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


# ----------------------------------------------------------------------------
# generation
# ----------------------------------------------------------------------------
def gen_params(r, npmax=4, allow_fixed=True, bounds=True):
    n = r.choice([1, 1, 2, 2, 3, npmax])
    if npmax > 3 and r.random() < 0.05:
        n = r.choice([5, 6, 8, 11])
    out = []
    # names of which one may be part of another one
    names = r.choice([['alpha', 'b', '$c_1$', 'theta3', 'k'], ['k', 'k1', 'ak', 'k12', 'b'], ['ab', 'a', 'b', 'abc', 'c'],
                      ['\u03b1 \u03b2', 'k"1"', 'K', '$\\theta_{0}$', 'k']])
    names = names + ['w%d' % i for i in range(len(names), n)]
    unnamed = r.random() < 0.1          # the default name is that of its position
    for i in range(n):
        th = r.choice([0.0, 1, round(r.uniform(-2, 2), 3), round(r.uniform(-2, 2), 3), round(r.uniform(0.2, 1.5), 3)])
        p = dict(name=names[i], theta0=th)
        if th == 1 and r.random() < 0.3:
            p['omit'] = True
        if unnamed and r.random() < 0.7:
            p.update(name='$p_{%d}$' % i, unnamed=True)
        if bounds:
            b = r.random()
            if b < 0.3:
                p['min'] = round(th - r.choice([0.05, 0.3, 1.0]), 4)
                p['max'] = round(th + r.choice([0.05, 0.3, 1.0]), 4)
            elif b < 0.4:
                p['min'] = th
                p['max'] = round(th + 0.5, 4)
            elif b < 0.5:
                p['max'] = th
                if r.random() < 0.5:
                    p['min'] = round(th - 0.4, 4)
            elif b < 0.6:
                p['min'] = round(th - 0.2, 4)
            elif b < 0.7:
                p['max'] = round(th + 0.2, 4)
            elif b < 0.73:
                p['min'] = p['max'] = th
        q = r.random()
        if q < 0.3:
            p['mu'] = round(th + r.uniform(-1, 1), 3)
            p['sig'] = round(r.uniform(0.1, 2), 3)
        elif q < 0.35:
            p['mu'] = 'nan'
            p['sig'] = 0.5
        elif q < 0.4:
            p['sig'] = r.choice([0.0, -1.0])
        if allow_fixed and r.random() < 0.2:
            p['sample'] = False
        if r.random() < 0.15:
            p['adapt'] = False
        out.append(p)
    if not any(p.get('sample', True) for p in out):
        out[0].pop('sample', None)
    return out


def gen_data(r, nb=1):
    xs, ys = [], []
    for _ in range(nb):
        n = r.choice([1, 2, 3, 5, 8])
        xs.append([round(0.25 * i, 3) for i in range(n)])
        ys.append([round(0.5 + 0.3 * i + r.uniform(-.3, .3), 3) for i in range(n)])
    return dict(x=xs, y=ys)


def extra_data(r, data, sos):
    """Weights, several columns and numbers of observations given by the user."""
    nb = len(data['x'])
    if r.random() < 0.25:
        data['w'] = [r.choice([1, 0.5, 2.0, 3]) for _ in range(nb)]
    if sos['kind'] == 'quad' and r.random() < 0.15:
        data['cols'] = r.choice([2, 3])
    data['form'] = r.choice(['flat', 'flat', 'flat', 'col', 'col', 'list'])
    if r.random() < 0.15:
        data['n'] = [r.choice([None, 1, 4, 30]) for _ in range(nb)]


def nobs(data):
    return [len(y) if not data.get('n') or data['n'][i] is None else data['n'][i] for i, y in enumerate(data['y'])]


def gen_sos(r, params, nb, walls=True):
    kind = r.choice(['quad', 'quad', 'data', 'model'])
    P = len(params)
    cfg = dict(kind=kind)
    if kind == 'quad':
        nsos = r.choice([1, 1, 1, nb]) if nb > 1 else 1
        cfg['centers'] = [[round(p['theta0'] + r.uniform(-.6, .6), 3) for p in params] for _ in range(nsos)]
        cfg['scale'] = r.choice([0.5, 2.0, 10.0, 40.0])
        cfg['coupled'] = r.random() < 0.3
    elif kind == 'data':
        nsos = nb if r.random() < 0.6 else 1
        cfg['scale'] = r.choice([0.5, 2.0, 10.0])
    else:
        nsos = nb
        cfg['scale'] = 1.0
    cfg['nsos'] = nsos
    cfg['base'] = round(r.uniform(0.1, 2.0), 3)
    if kind == 'quad' and r.random() < 0.08:
        cfg['base'] = round(r.uniform(-6.0, 0.0), 3)        # minus twice a log-likelihood can be negative
    cfg['ret'] = r.choice(['np', 'np', 'float', 'np0'])
    cfg['custom'] = r.random() < 0.6
    if walls and kind != 'model' and r.random() < 0.25:
        k = r.randrange(P)
        sgn = r.choice([1, -1])
        cfg['wall'] = dict(k=k, sign=sgn, thr=round(sgn * params[k]['theta0'] + r.choice([0.02, 0.1, 0.3]), 4),
                           val=r.choice(['nan', 'inf', 'inf']))
    return cfg


def gen_opts(r, params, nmax=60, methods=('mh', 'am', 'dr', 'dram', 'ram')):
    P = len(params)
    npar = sum(1 for p in params if p.get('sample', True))
    o = dict(nsimu=r.choice([3, 7, 12, 20, 35, nmax]), method=r.choice(list(methods)))
    m = o['method']
    if m in ('am', 'dram'):
        o['adaptint'] = r.choice([1, 2, 3, 5, 8, 10, 13])
    if m == 'ram' and r.random() < 0.3:
        o['adaptint'] = r.choice([1, 2, 3])
    if m in ('dr', 'dram'):
        o['ntry'] = r.choice([2, 2, 3, 4])
        if r.random() < 0.5:
            o['drscale'] = [r.choice([1.5, 2.0, 5.0, 10.0]) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < 0.12:
            rd = []
            for t in range(o['ntry']):
                rd.append(np.diag([round(r.uniform(0.05, 0.5) / (t + 1), 4) for _ in range(npar)]).tolist())
            o['RDR'] = rd
        elif o['ntry'] == 2 and r.random() < 0.3:
            del o['ntry']
    elif m != 'ram' and r.random() < 0.06:
        o['ntry'] = r.choice([1, 2, 3])         # delayed rejection with a method that has none by default
    if m in ('am', 'dram', 'ram') and r.random() < 0.35:
        o['burnintime'] = r.choice([2, 5, 10, 20])
        if r.random() < 0.6:
            o['burnin_scale'] = r.choice([1.5, 2.0, 4.0])
    if m in ('am', 'dram') and r.random() < 0.3:
        o['adascale'] = r.choice([0.5, 1.0, 2.0])
    q = r.random()
    if q < 0.3:
        o['qcov'] = [round(r.uniform(0.002, 0.3), 4) for _ in range(P)]
    elif q < 0.6:
        a = np.array([[r.uniform(-.4, .4) for _ in range(P)] for _ in range(P)])
        c = a.dot(a.T) * 0.3 + np.eye(P) * r.choice([0.005, 0.05])
        o['qcov'] = np.round(c, 5).tolist()
        if P == 1:
            o['qcov'] = [[abs(o['qcov'][0][0]) + 0.01]]
    elif q < 0.66:
        if r.random() < 0.5:
            o['qcov'] = [r.choice([1, 1, 2]) for _ in range(P)]
        else:
            o['qcov'] = [[r.choice([1, 1, 3]) if i == j else 0 for j in range(P)] for i in range(P)]
    if r.random() < 0.1:
        if 'drscale' in o:
            o['drscale'] = [r.choice([2, 3, 5]) for _ in o['drscale']]
        o['lists'] = r.random() < 0.5
    if m == 'ram' and r.random() < 0.3:
        o['alphatarget'] = r.choice([0.1, 0.234, 0.44, 0.8])
        o['etaparam'] = r.choice([0.51, 0.7, 0.9, 1.0])
    if m in ('am', 'dram') and r.random() < 0.3 and npar > 0:
        o['initqcovn'] = r.choice([1, 2, 5, 20])
    if m in ('am', 'dram', 'ram') and r.random() < 0.2:
        o['lastadapt'] = r.choice([1, 2, 5, 6, 10, 11, 20, 30, o['nsimu'], o['nsimu'] - 1])
    if r.random() < 0.15:
        o['qcov_adjust'] = r.choice([1e-10, 1e-5, 1e-3])
    return o


def gen_model(r, nsos, nb, data, updatesigma_p=0.5):
    m = {}
    upd = r.random() < updatesigma_p
    q = r.random()
    if q < 0.3:
        m['sigma2'] = r.choice([0.05, 0.3, 1.0, 4.0])
    elif q < 0.5:
        m['sigma2'] = [r.choice([0.05, 0.3, 1.0, 4.0]) for _ in range(nsos)]
    elif q < 0.6:
        m['sigma2'] = r.choice([1, 2])
    if r.random() < 0.12:
        n = nobs(data)
        m['N'] = r.choice([n, sum(n)])
    if upd:
        if r.random() < 0.4:
            m['N0'] = r.choice([1, 0.5, 4, [r.choice([0.5, 1.0, 3.0]) for _ in range(nsos)]])
            if r.random() < 0.5:
                m['S20'] = r.choice([0.1, 0.5, 2, [r.choice([0.2, 1.0]) for _ in range(nsos)]])
            if 'sigma2' not in m and 'S20' not in m and nsos != nb:
                m['S20'] = 0.5      # the default sigma2 would not have the right length
    return m, upd


def gen_case(r, nmax=60, methods=('mh', 'am', 'dr', 'dram', 'ram'), walls=True, updatesigma_p=0.45, units=(1e-3, 1e3, 1e6), **kw):
    params = gen_params(r, **kw)
    nb = r.choice([1, 1, 2, 3])
    data = gen_data(r, nb)
    sos = gen_sos(r, params, nb, walls)
    extra_data(r, data, sos)
    model, upd = gen_model(r, sos['nsos'], nb, data, updatesigma_p)
    opts = gen_opts(r, params, nmax, methods)
    if upd:
        opts['updatesigma'] = True
    if upd:
        sos['base'] = abs(sos['base']) + 0.01
    if nmax >= 20 and r.random() < 0.04:
        opts['nsimu'] = r.choice([101, 140, 230, 230, 1100])
        if r.random() < 0.6:
            opts.pop('adaptint', None)
    if sos['kind'] == 'quad' and r.random() < 0.12:
        rescale(r.choice(list(units)), params, sos, opts)
    case = dict(rngseed=r.randrange(1, 2 ** 31), params=params, data=data, sos=sos, model=model, opts=opts,
                custom=[])
    if r.random() < 0.15:
        sos['scribble'] = True
    if r.random() < 0.25:
        case['prior'] = dict(scribble=r.random() < 0.15, kind=r.choice(['plain', 'laplace']), lam=round(r.uniform(.1, 2), 2))
    return case


def rescale(unit, params, sos, opts):
    """The same problem in other units."""
    for p in params:
        for k in ('theta0', 'min', 'max', 'mu', 'sig'):
            if isinstance(p.get(k), (int, float)):
                p[k] = p[k] * unit
    sos['centers'] = [[c * unit for c in cs] for cs in sos['centers']]
    sos['scale'] = sos['scale'] / unit ** 2
    sos['coupled'] = False
    if 'wall' in sos:
        sos['wall']['thr'] *= unit
    if opts.get('qcov') is not None:
        opts['qcov'] = (np.array(opts['qcov']) * unit ** 2).tolist()
    if opts.get('RDR') is not None:
        opts['RDR'] = (np.array(opts['RDR']) * unit).tolist()


def sampled(case):
    return [i for i, p in enumerate(case['params']) if p.get('sample', True)]
