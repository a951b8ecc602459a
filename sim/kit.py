"""Shared pieces of the property modules."""
import collections
import gc
import hashlib
import math
import os
import random

import numpy as np

from . import ref, scen, seams
from .scen import quiet
from .seams import SimCrash, SimHang, muted
from .world import World


class Out:
    """What one simulated run showed."""
    def __init__(self):
        self.viol = []                          # (class, message)
        self.c = collections.Counter()          # probes: rare conditions reached
        self.faults = collections.Counter()
        self.states = set()
        self.simt = 0.0
        self.events = 0
        self.h = hashlib.sha256()
        self.nontrivial = True
        self.known = []

    def bad(self, cls, msg):
        self.viol.append((cls, str(msg)[:2000]))

    def absorb(self, w):
        self.faults.update(w.fault_counts)
        for k, v in w.counts.items():
            self.c['seam.' + k] += v
        self.simt += w.t_covered
        self.events += w.nevents
        self.h.update(w.hash.digest())
        if w.switches:
            self.states.add('sched:' + hashlib.sha256(repr(w.switches).encode()).hexdigest()[:12])

    def state(self, *parts):
        self.states.add(':'.join(str(p) for p in parts))

    def digest(self):
        h = self.h.copy()
        h.update(repr(sorted(self.viol)).encode())
        return h.hexdigest()[:16]


def swarm(r, clock=True, stalls=True, n=200):
    """World settings that must not matter."""
    cfg = dict(seed=r.randrange(2 ** 40), entropy=r.randrange(2 ** 40), bufsize=r.choice([64, 512, 8192, 8192]))
    if clock:
        cfg['clock'] = dict(start=1.4e9 + r.randrange(10 ** 8), tick=r.choice([1e-6, 1e-3, 0.05, 1.0]))
        if r.random() < 0.4:
            cfg['clock']['jumps'] = {str(r.randrange(1, 30)): r.choice([3600.0, -3600.0, 86400.0 * 400, -5.0, 0.5])
                                     for _ in range(r.choice([1, 2, 3]))}
    if stalls and r.random() < 0.3:
        cfg.setdefault('callbacks', {})
        for _ in range(r.choice([1, 3])):
            cfg['callbacks'][str(r.randrange(n))] = dict(kind='stall', secs=r.choice([0.1, 30.0, 4000.0]))
    return cfg


def small_shape(case):
    """Error variances are drawn with a gamma shape below 1."""
    if 'data' not in case:
        return False
    return np.min(scen.nobs(case['data'])) + np.min(case['model'].get('N0', 0.0)) < 2


EXTREME_U = [0.0, 5e-324, 1e-300, 1e-17, 0.5, 1 - 2 ** -53, 1 - 1e-9]
EXTREME_Z = [8.0, -8.0, 38.0, -38.0, 1e-12, 3.0, -3.0]


def extreme_draws(r, cfg, n=60, p=0.35, case=None):
    if r.random() < p:
        cfg['uover'] = {str(r.randrange(2 * n)): r.choice(EXTREME_U) for _ in range(r.choice([1, 3, 8]))}
        if case is not None and small_shape(case):
            # a zero would make the gamma draw zero, that is, an infinite error variance, which no rule covers
            cfg['uover'] = {k: max(v, 2.0 ** -53) for k, v in cfg['uover'].items()}
    if r.random() < p:
        cfg['zover'] = {str(r.randrange(3 * n)): r.choice(EXTREME_Z) for _ in range(r.choice([1, 3, 8]))}
    return cfg


def nonfinite_callbacks(r, cfg, n=60, p=0.3):
    if r.random() < p:
        cb = cfg.setdefault('callbacks', {})
        for _ in range(r.choice([1, 2, 5])):
            cb[str(r.randrange(8, 8 + 4 * n))] = dict(kind=r.choice(['nan', 'inf']))
    return cfg


def snap(results):
    """Independent copy of everything numerical in a results dictionary."""
    out = {}
    for k, v in results.items():
        out[k] = _copy(v)
    return out


def _copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: _copy(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_copy(x) for x in v]
    return v


def same(a, b):
    """Exact equality of two snapshots (nan equals nan)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        try:
            x, y = np.asarray(a), np.asarray(b)
            if x.shape != y.shape:
                return False
            if x.dtype.kind in 'fc' or y.dtype.kind in 'fc':
                return bool(np.array_equal(x.astype(float), y.astype(float), equal_nan=True))
            return bool(np.array_equal(x, y))
        except (TypeError, ValueError):
            return a is b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if callable(a) and callable(b):
        return type(a) is type(b)
    try:
        return bool(a == b)
    except Exception:
        return a is b


def arr_eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def redefine(w, mc, opts):
    mc.simulation_options.define_simulation_options(**scen.option_kwargs(w, opts))


def theta0(case):
    return np.array([p['theta0'] for p in case['params']], dtype=float)


def rec_of(w, case, mc, mark, opts, start, th0):
    """Record of the run which produced the history since `mark`."""
    return ref.Rec(w.procs[0].ev[mark:], mc.simulation_results.results, opts['nsimu'], opts, start, th0)


def load(dirname, ext, **kw):
    with quiet():
        return scen.CP.read_in_savedir_files(dirname, extension=ext, **kw)


def read_index(path):
    """[(first, last)] listed in a log index."""
    out = []
    if not os.path.exists(path):
        return None
    with open(path) as f:
        for line in f.read().split('\n'):
            if line.strip() == '':
                continue
            p = line.split('\t')
            out.append((int(p[1]), int(p[2])))
    return out


def explain_exc(ex):
    return '%s: %s' % (type(ex).__name__, str(ex)[:300])


__all__ = [n for n in dir() if not n.startswith('__')]
