"""Seams: every source of nondeterminism the system under test can see.

Import order matters: the heavy third party libraries are imported first, then
the seams are patched into numpy / time / datetime / builtins / os / h5py /
multiprocessing, and only then is pymcmcstat imported from /repo, so that any
``from x import y`` in it binds to the seam.

With no active World every seam passes straight through to the real thing.
"""
import builtins
import io
import os
import sys
import time as _time
import datetime as _dt
import random as _random
import threading
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')

import numpy as np                      # noqa: E402
import scipy.interpolate                # noqa: E402,F401
import scipy.stats                      # noqa: E402,F401
import scipy.optimize                   # noqa: E402,F401
import matplotlib                       # noqa: E402
matplotlib.use('Agg')
import matplotlib.pyplot                # noqa: E402,F401
from mpl_toolkits.mplot3d import Axes3D  # noqa: E402,F401
from mpl_toolkits.mplot3d.art3d import Poly3DCollection  # noqa: E402,F401
import h5py                             # noqa: E402
import multiprocessing                  # noqa: E402
import multiprocessing.pool             # noqa: E402
import concurrent.futures               # noqa: E402
import concurrent.futures.process       # noqa: E402,F401
try:
    import statsmodels.api              # noqa: E402,F401
except Exception:
    pass
try:
    import seaborn                      # noqa: E402,F401
except Exception:
    pass


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimHang(BaseException):
    """No progress within the step budget, or deadlock."""


class InjectedError(Exception):
    """Exception raised by a user callback because the fault plan says so."""


class InjectedArgsError(Exception):
    """Cannot be sent between processes: it pickles but does not unpickle."""
    def __init__(self, what, where):
        super().__init__(what)
        self.where = where


class InjectedOpaqueError(Exception):
    """Cannot be pickled at all."""
    def __init__(self, what):
        super().__init__(what)
        self.handle = threading.Lock()


class InjectedOSError(OSError):
    pass


# ----------------------------------------------------------------------------
# the active world
# ----------------------------------------------------------------------------
_active = None           # World
_muted = threading.local()


def world():
    return _active


def set_world(w):
    global _active
    _active = w


class muted:
    """Harness code: seams pass through to the real thing."""
    def __enter__(self):
        _muted.n = getattr(_muted, 'n', 0) + 1

    def __exit__(self, *a):
        _muted.n -= 1


def live():
    w = _active
    if w is None or getattr(_muted, 'n', 0):
        return None
    return w


# ----------------------------------------------------------------------------
# randomness
# ----------------------------------------------------------------------------
RealRandomState = np.random.RandomState
_real_default_rng = np.random.default_rng
_UNI = ('rand', 'random_sample', 'random', 'ranf', 'sample')
_NOR = ('randn', 'standard_normal')


class SimRandomState(RealRandomState):
    """RandomState which logs what it draws; unseeded construction takes its
    seed from the world's entropy."""
    def __init__(self, seed=None):
        w = live()
        if seed is None and w is not None:
            seed = w.os_entropy()
            w.note('rng.entropy')
        super().__init__(seed)

    def seed(self, seed=None):
        w = live()
        if seed is None and w is not None:
            seed = w.os_entropy()
            w.note('rng.entropy')
        if w is not None:
            w.on_reseed(seed)
        return super().seed(seed)


def _wrap_uniform(name):
    base = getattr(RealRandomState, name)

    def f(self, *a, **k):
        w = live()
        if w is None:
            return base(self, *a, **k)
        with muted():               # randn() calls standard_normal(), rand() calls random_sample()
            out = base(self, *a, **k)
        return w.on_uniform(out)
    f.__name__ = name
    return f


def _wrap_normal(name):
    base = getattr(RealRandomState, name)

    def f(self, *a, **k):
        w = live()
        if w is None:
            return base(self, *a, **k)
        with muted():               # randn() calls standard_normal(), rand() calls random_sample()
            out = base(self, *a, **k)
        return w.on_normal(out)
    f.__name__ = name
    return f


def _uniform(self, low=0.0, high=1.0, size=None):
    w = live()
    if w is None:
        return RealRandomState.uniform(self, low, high, size)
    shape = np.broadcast(np.asarray(low), np.asarray(high)).shape if size is None else size
    u = RealRandomState.random_sample(self, shape if shape != () else None)
    u = w.on_uniform(u)
    return low + (np.asarray(high) - low) * u if shape != () else float(low + (high - low) * u)


def _normal(self, loc=0.0, scale=1.0, size=None):
    w = live()
    if w is None:
        return RealRandomState.normal(self, loc, scale, size)
    shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else size
    z = RealRandomState.standard_normal(self, shape if shape != () else None)
    z = w.on_normal(z)
    return loc + scale * z


for _n in _UNI:
    if hasattr(RealRandomState, _n):
        setattr(SimRandomState, _n, _wrap_uniform(_n))
for _n in _NOR:
    setattr(SimRandomState, _n, _wrap_normal(_n))
SimRandomState.uniform = _uniform
SimRandomState.normal = _normal

_passed = ['beta', 'binomial', 'bytes', 'chisquare', 'choice', 'dirichlet', 'exponential', 'f',
           'gamma', 'geometric', 'gumbel', 'hypergeometric', 'laplace', 'logistic', 'lognormal',
           'logseries', 'multinomial', 'multivariate_normal', 'negative_binomial',
           'noncentral_chisquare', 'noncentral_f', 'pareto', 'permutation', 'poisson', 'power',
           'randint', 'random_integers', 'rayleigh', 'shuffle', 'standard_cauchy',
           'standard_exponential', 'standard_gamma', 'standard_t', 'triangular', 'vonmises',
           'wald', 'weibull', 'zipf']


def _wrap_other(name):
    base = getattr(RealRandomState, name)

    def f(self, *a, **k):
        w = live()
        if w is None:
            return base(self, *a, **k)
        with muted():
            out = base(self, *a, **k)
        w.on_other_draw(name, out)
        return out
    f.__name__ = name
    return f


for _n in _passed:
    if hasattr(RealRandomState, _n):
        setattr(SimRandomState, _n, _wrap_other(_n))

_global_names = list(_UNI) + list(_NOR) + ['uniform', 'normal', 'seed', 'get_state', 'set_state'] + _passed
_real_np_random = {}


def _mk_global(name):
    real = _real_np_random[name]

    def f(*a, **k):
        w = live()
        if w is None:
            return real(*a, **k)
        return getattr(w.rng(), name)(*a, **k)
    f.__name__ = name
    return f


for _n in _global_names:
    if hasattr(np.random, _n):
        _real_np_random[_n] = getattr(np.random, _n)
        setattr(np.random, _n, _mk_global(_n))


def _default_rng(seed=None):
    w = live()
    if seed is None and w is not None:
        seed = w.os_entropy()
        w.note('rng.entropy')
    return _real_default_rng(seed)


np.random.RandomState = SimRandomState
np.random.default_rng = _default_rng

_real_urandom = os.urandom


def _urandom(n):
    w = live()
    if w is None:
        return _real_urandom(n)
    w.note('rng.entropy')
    return bytes(w.entropy_rng.getrandbits(8) for _ in range(n))


os.urandom = _urandom

# ----------------------------------------------------------------------------
# clock
# ----------------------------------------------------------------------------
real_time = {n: getattr(_time, n) for n in
             ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns',
              'process_time', 'sleep', 'localtime', 'gmtime', 'strftime', 'ctime')}


def _tm(name, f):
    real = real_time[name]

    def g(*a, **k):
        w = live()
        if w is None:
            return real(*a, **k)
        return f(w, *a, **k)
    g.__name__ = name
    setattr(_time, name, g)


_tm('time', lambda w: w.clock_read('wall'))
_tm('time_ns', lambda w: int(w.clock_read('wall') * 1e9))
_tm('monotonic', lambda w: w.clock_read('mono'))
_tm('monotonic_ns', lambda w: int(w.clock_read('mono') * 1e9))
_tm('perf_counter', lambda w: w.clock_read('mono'))
_tm('perf_counter_ns', lambda w: int(w.clock_read('mono') * 1e9))
_tm('process_time', lambda w: w.clock_read('mono'))
_tm('sleep', lambda w, s: w.clock_sleep(s))
_tm('localtime', lambda w, s=None: real_time['gmtime'](w.clock_read('wall') if s is None else s))
_tm('gmtime', lambda w, s=None: real_time['gmtime'](w.clock_read('wall') if s is None else s))
_tm('strftime', lambda w, f, t=None: real_time['strftime'](
    f, real_time['gmtime'](w.clock_read('wall')) if t is None else t))
_tm('ctime', lambda w, s=None: real_time['ctime'](w.clock_read('wall') if s is None else s))

_real_datetime = _dt.datetime


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class SimDatetime(_real_datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        w = live()
        if w is None:
            return _real_datetime.now(tz)
        t = w.clock_read('wall')
        return _real_datetime(1970, 1, 1, tzinfo=tz) + _dt.timedelta(seconds=t)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


_dt.datetime = SimDatetime

# ----------------------------------------------------------------------------
# file system
# ----------------------------------------------------------------------------
real_open = builtins.open
real_os = {n: getattr(os, n) for n in ('listdir', 'replace', 'rename', 'makedirs', 'mkdir', 'remove',
                                       'unlink', 'scandir', 'rmdir', 'fsync', 'truncate')}


def _in_scratch(w, path):
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return os.path.abspath(p).startswith(w.scratch)


class SimRaw(io.FileIO):
    def __init__(self, path, mode, w):
        super().__init__(path, mode)
        self._w = w
        self._gen = w.gen
        self._p = w.rel(path)

    def write(self, b):
        w = self._w
        if self._gen != w.gen:
            return len(b)          # left over from a process that died
        if not w.fs_active():
            return super().write(b)
        b = bytes(b)
        n = w.fs_write(self._p, len(b))
        if n is None:
            return len(b)          # crashed: nothing reaches the disk any more
        if n > 0:
            done = super().write(b[:n])
        else:
            done = 0
        return w.fs_write_done(self._p, len(b), done)

    def truncate(self, size=None):
        if self._w.crashed or self._gen != self._w.gen:
            return size or 0
        return super().truncate(size)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = live()
    if w is None or isinstance(file, int) or not _in_scratch(w, file):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if not writing:
        w.fs_read_point(file)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w.fs_point('open', file)
    raw = SimRaw(os.fspath(file), mode.replace('b', '').replace('t', '').replace('U', ''), w)
    w.fs_point_after('open', file)
    if '+' in mode:
        buf = io.BufferedRandom(raw, buffer_size=w.bufsize)
    else:
        buf = io.BufferedWriter(raw, buffer_size=w.bufsize)
    if 'b' in mode:
        return buf
    return io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline)


builtins.open = sim_open
io.open = sim_open


def _os_mut(name, two=False):
    real = real_os[name]

    def f(path, *a, **k):
        w = live()
        if w is None or not (_in_scratch(w, path) or (two and a and _in_scratch(w, a[0]))):
            return real(path, *a, **k)
        w.fs_point(name, path)
        out = real(path, *a, **k)
        w.fs_point_after(name, path)
        return out
    f.__name__ = name
    setattr(os, name, f)


for _n in ('mkdir', 'remove', 'unlink', 'rmdir'):
    _os_mut(_n)
for _n in ('replace', 'rename'):
    _os_mut(_n, True)


def _listdir(path='.'):
    out = real_os['listdir'](path)
    w = live()
    if w is None or not _in_scratch(w, path):
        return out
    return w.shuffle_listing(out)


os.listdir = _listdir


class _ScanList:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _scandir(path='.'):
    w = live()
    if w is None or not _in_scratch(w, path):
        return real_os['scandir'](path)
    with real_os['scandir'](path) as it:
        items = sorted(it, key=lambda e: e.name)
    w.order_rng.shuffle(items)
    return _ScanList(items)


os.scandir = _scandir

# ----------------------------------------------------------------------------
# hdf5: the real library, on a file object the simulator owns
# ----------------------------------------------------------------------------
RealH5File = h5py.File


class H5Raw:
    """File object handed to the real HDF5 library ('fileobj' driver)."""
    def __init__(self, path, w):
        self._w = w
        self._gen = w.gen
        self._p = w.rel(path)
        flags = os.O_RDWR | os.O_CREAT
        self._fd = os.open(path, flags, 0o644)
        self._pos = 0

    def seek(self, off, whence=0):
        if whence == 0:
            self._pos = off
        elif whence == 1:
            self._pos += off
        else:
            self._pos = os.fstat(self._fd).st_size + off
        return self._pos

    def tell(self):
        return self._pos

    def readinto(self, b):
        mv = memoryview(b).cast('B')
        data = os.pread(self._fd, len(mv), self._pos)
        mv[:len(data)] = data
        self._pos += len(data)
        return len(data)

    def read(self, n=-1):
        if n < 0:
            n = os.fstat(self._fd).st_size
        data = os.pread(self._fd, n, self._pos)
        self._pos += len(data)
        return data

    def write(self, b):
        b = bytes(b)
        n = self._w.h5_write(self._p, len(b)) if self._gen == self._w.gen else 0
        if n:
            os.pwrite(self._fd, b[:n], self._pos)
        self._pos += len(b)
        return len(b)

    def truncate(self, size=None):
        if size is None:
            size = self._pos
        if self._gen == self._w.gen and self._w.h5_meta(self._p):
            os.ftruncate(self._fd, size)
        return size

    def flush(self):
        pass

    def __del__(self):
        self.release()

    def release(self):
        if self._fd is not None:
            os.close(self._fd)
            self._fd = None


class SimH5File(RealH5File):
    def __init__(self, name, mode='r', *a, **k):
        w = live()
        self._simraw = None
        self._simw = None
        ok = w is not None and isinstance(name, (str, os.PathLike)) and _in_scratch(w, name)
        if not ok or mode == 'r':
            if ok:
                w.fs_read_point(name)
            super().__init__(name, mode, *a, **k)
            return
        w.fs_point('h5open', name)
        p = os.fspath(name)
        exists = os.path.exists(p) and os.path.getsize(p) > 0
        if mode in ('x', 'w-') and os.path.exists(p):
            raise FileExistsError(p)
        if mode == 'r+' and not exists:
            raise FileNotFoundError(p)
        raw = H5Raw(p, w)
        if mode == 'w' and not w.crashed:
            os.ftruncate(raw._fd, 0)
            exists = False
        self._simraw = raw
        self._simw = w
        try:
            super().__init__(raw, 'r+' if exists else 'w')
        except BaseException:
            raw.release()
            self._simraw = None
            raise
        w.fs_point_after('h5open', name, quiet=True)

    def create_dataset(self, name, *a, **k):
        w = self._simw
        if w is not None and w is live():
            w.fs_point('h5dataset', str(name), quiet=True)
        return super().create_dataset(name, *a, **k)

    def close(self):
        w = self._simw
        if w is None or self._simraw is None:
            return super().close()
        raw = self._simraw
        self._simraw = None
        err = None
        if w is live():
            try:
                w.fs_point('h5close', raw._p, quiet=True)
            except OSError as ex:
                # flush fails: the library loses what it had buffered
                err = ex
                w.h5_drop = True
        try:
            super().close()
        finally:
            w.h5_drop = False
            raw.release()
        if err is not None:
            raise err
        if w is live():
            w.fs_point_after('h5close', raw._p)


h5py.File = SimH5File

# ----------------------------------------------------------------------------
# processes
# ----------------------------------------------------------------------------
from . import pool as _pool             # noqa: E402
_pool.install()

warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
# the source as it is now decides, never a cached compilation of it
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pymcsim'
if REPO not in sys.path:
    sys.path.insert(0, REPO)
