"""One simulated execution: scheduler, clock, disk, randomness, fault plan,
and the recorded history."""
import errno
import hashlib
import os
import random
import shutil
import threading

import numpy as np

from . import seams
from .seams import SimCrash, SimHang, SimRandomState, set_world

SCRATCH_BASE = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
_counter = [0]


class SimKill(BaseException):
    pass


try:
    from h5py._objects import phil
    phil._is_owned()
except Exception:               # noqa
    phil = None


class VProc:
    def __init__(self, pid, name):
        self.pid = pid
        self.name = name
        self.sem = threading.Semaphore(0)
        self.rs = None
        self.ev = []            # history of this process, in order
        self.done = False
        self.dead = False       # ended from outside
        self.pred = None
        self.why = None
        self.error = None
        self.result = None
        self.thread = None


class World:
    """cfg keys (all optional): seed, entropy, clock{start,tick,jumps}, faults{op:{...}},
    bufsize, ncpu, uover{index:value}, zover{index:value}, budget, callbacks{index:{...}}"""

    def __init__(self, cfg=None, scratch=None):
        cfg = cfg or {}
        self.cfg = cfg
        seed = cfg.get('seed', 0)
        self.sched = random.Random('sched-%s' % seed)
        self.order_rng = random.Random('order-%s' % cfg.get('order', seed))
        self.entropy_rng = random.Random('entropy-%s' % cfg.get('entropy', seed))
        self.counts = {}
        self.fault_counts = {}
        self.hash = hashlib.sha256()
        self.nevents = 0
        self.budget = cfg.get('budget', 400000)
        self.bufsize = cfg.get('bufsize', 8192)
        self.ncpu = cfg.get('ncpu', 4)
        ck = cfg.get('clock', {})
        self.t_wall = ck.get('start', 1.5e9)
        self.t_mono = 100.0
        self.t_covered = 0.0
        self.tick = ck.get('tick', 1e-3)
        self.jumps = {int(k): v for k, v in ck.get('jumps', {}).items()}
        self.nclock = 0
        self.faults = {int(k): v for k, v in cfg.get('faults', {}).items()}
        self.nfs = 0
        self.fslog = []
        self.nh5w = 0
        self.h5faults = {int(k): v for k, v in cfg.get('h5faults', {}).items()}
        self.h5log = []
        self.h5_drop = False
        self.pending_crash = False
        self.crashed = False
        self.gen = 0
        self.uover = {int(k): v for k, v in cfg.get('uover', {}).items()}
        self.zover = {int(k): v for k, v in cfg.get('zover', {}).items()}
        self.nu = 0
        self.nz = 0
        self.ncb = 0
        self.cbfaults = {int(k): v for k, v in cfg.get('callbacks', {}).items()}
        self.assignment = []
        self.switches = []
        self.stickiness = cfg.get('stickiness', 0.3)
        self.procs = []
        self.killing = False
        self.hang = None
        self.own_scratch = scratch is None
        if scratch is None:
            _counter[0] += 1
            scratch = '%s/pymcsim-%08d-%08d' % (SCRATCH_BASE, os.getpid(), _counter[0])
            if os.path.isdir(scratch):          # left by a killed process that had our number
                shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
        self.scratch = scratch
        main = VProc(0, 'main')
        self.procs.append(main)
        self.current = main
        main.rs = SimRandomState.__new__(SimRandomState)
        seams.RealRandomState.__init__(main.rs, self.entropy_rng.getrandbits(32))
        self.pyrandom_state = random.Random(self.entropy_rng.getrandbits(64)).getstate()

    # -- life cycle
    def __enter__(self):
        self._saved_py = random.getstate()
        random.setstate(self.pyrandom_state)
        set_world(self)
        return self

    def __exit__(self, *a):
        self.killing = True
        for p in self.procs[1:]:
            if not p.done:
                p.sem.release()
        for p in self.procs[1:]:
            if p.thread is not None:
                p.thread.join(20)
        set_world(None)
        random.setstate(self._saved_py)
        if self.own_scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
        return False

    def restart(self):
        """The process is gone; what remains is the disk.  Faults stop."""
        self.gen += 1
        self.crashed = False
        self.pending_crash = False
        self.faults = {}
        self.h5faults = {}
        self.cbfaults = {}

    # -- history
    def rel(self, path):
        p = os.path.abspath(os.fspath(path))
        return os.path.relpath(p, self.scratch)

    def note(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        self.trace('fault', kind)

    def trace(self, *parts):
        self.nevents += 1
        self.hash.update(repr((self.current.pid,) + parts).encode())
        if self.nevents > self.budget:
            self.hang = 'step budget of %d events exceeded' % self.budget
            raise SimHang(self.hang)

    def digest(self):
        return self.hash.hexdigest()[:16]

    def log(self, kind, *payload):
        self.current.ev.append((kind,) + payload)

    # -- scheduler
    def spawn(self, func, name='p', fork=False, seed=None):
        p = VProc(len(self.procs), name)
        p.rs = SimRandomState.__new__(SimRandomState)
        seams.RealRandomState.__init__(p.rs, 0)
        if fork:
            p.rs.set_state(self.current.rs.get_state())
        else:
            seams.RealRandomState.seed(p.rs, self.entropy_rng.getrandbits(32) if seed is None else seed)
        self.procs.append(p)

        def body():
            p.sem.acquire()
            try:
                if not self.killing:
                    p.result = func()
            except SimKill:
                pass
            except BaseException as ex:      # noqa
                p.error = ex
            p.done = True
            if not self.killing:
                self._next(p)
        p.thread = threading.Thread(target=body, daemon=True)
        p.thread.start()
        return p

    def _runnable(self):
        out = []
        for p in self.procs:
            if p.done or p.dead:
                continue
            if p.pred is not None:
                if p.pred():
                    out.append(p)
            else:
                out.append(p)
        return out

    def _next(self, me):
        """Choose who runs next; called with the baton held by `me`."""
        run = self._runnable()
        if not run:
            self.hang = 'deadlock: ' + ', '.join('%s waits for %s' % (p.name, p.why)
                                                 for p in self.procs if not p.done and not p.dead)
            nxt = self.procs[0]
        elif me in run and self.sched.random() < self.stickiness:
            nxt = me
        else:
            nxt = run[self.sched.randrange(len(run))]
        if nxt is not me:
            self.switches.append(nxt.pid)
            self.note('switch')
        self.current = nxt
        if nxt is me:
            return
        nxt.sem.release()
        if me.done:
            return
        me.sem.acquire()
        if self.killing and me.pid != 0:
            raise SimKill()

    def yield_point(self, why):
        if len(self.procs) == 1 or self.killing:
            return
        if phil is not None and phil._is_owned():
            return      # inside the HDF5 library's lock: nobody else could go on
        me = self.current
        self.trace('y', why)
        self._next(me)
        self._check_hang()

    def _check_hang(self):
        if self.hang and self.current.pid == 0:
            raise SimHang(self.hang)

    def block(self, pred, why):
        me = self.current
        while not pred():
            me.pred, me.why = pred, why
            self._next(me)
            me.pred = me.why = None
            if self.hang and me.pid == 0:
                raise SimHang(self.hang)
            if self.killing and me.pid != 0:
                raise SimKill()

    # -- randomness
    def rng(self):
        return self.current.rs

    def os_entropy(self):
        return self.entropy_rng.getrandbits(32)

    def on_reseed(self, seed):
        self.trace('seed', str(seed))
        self.log('seed', seed)

    def _override(self, out, over, n0):
        a = np.array(out, dtype=float)
        f = a.reshape(-1)
        hit = False
        for i in range(f.size):
            if n0 + i in over:
                f[i] = over[n0 + i]
                hit = True
        if not hit:
            return out, f
        self.fault('extreme-draw')
        return (a if np.ndim(out) else float(f[0])), f

    def on_uniform(self, out):
        out, f = self._override(out, self.uover, self.nu)
        self.nu += f.size
        self.log('u', f.tolist())
        self.trace('u', f.size)
        return out

    def on_normal(self, out):
        out, f = self._override(out, self.zover, self.nz)
        self.nz += f.size
        self.log('z', f.tolist())
        self.trace('z', f.size)
        return out

    def on_other_draw(self, name, out):
        self.log('o', name)
        self.trace('o', name)

    # -- clock
    def clock_read(self, which):
        self.nclock += 1
        self.t_wall += self.tick
        self.t_mono += self.tick
        self.t_covered += self.tick
        if self.nclock in self.jumps:
            j = self.jumps[self.nclock]
            self.t_wall += j
            if j > 0:
                self.t_covered += j
                self.fault('clock-jump-forward')
            else:
                self.fault('clock-jump-backward')
        self.note('clock.read')
        self.log('t', which, self.t_wall if which == 'wall' else self.t_mono)
        return self.t_wall if which == 'wall' else self.t_mono

    def clock_sleep(self, s):
        self.t_wall += s
        self.t_mono += s
        self.t_covered += s
        self.note('sleep')
        self.yield_point('sleep')

    def stall(self, s, kind='stall'):
        self.t_wall += s
        self.t_mono += s
        self.t_covered += s
        self.fault(kind)

    # -- disk
    def fs_active(self):
        return seams.live() is self

    def _die(self, kind):
        self.fault(kind)
        self.crashed = True
        raise SimCrash(kind)

    def fs_point(self, op, path, quiet=False):
        """A mutating disk operation is about to happen."""
        if self.crashed:
            raise SimCrash('dead')
        i = self.nfs
        self.nfs += 1
        self.fslog.append((op, path if quiet else self.rel(path)))
        self.trace('fs', op)
        self.note('fs.' + op)
        f = self.faults.get(i)
        self._fault_now = f
        if f is None:
            self.yield_point('fs')
            return
        k = f['kind']
        if k == 'crash_before':
            self._die('crash-before-' + op)
        if k in ('eio', 'enospc', 'emfile'):
            code = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'emfile': errno.EMFILE}[k]
            self.fault('%s-%s' % (k, op))
            raise seams.InjectedOSError(code, os.strerror(code), str(path))

    def fs_point_after(self, op, path, quiet=False):
        f = getattr(self, '_fault_now', None)
        self._fault_now = None
        if f is not None and f['kind'] == 'crash_after':
            self._die('crash-after-' + op)
        if self.pending_crash:
            self.pending_crash = False
            raise SimCrash('h5-flush')

    def fs_read_point(self, path):
        self.note('fs.read')
        if self.crashed:
            raise SimCrash('dead')

    def fs_write(self, path, n):
        """How many of the n bytes to pass to the disk; None: none, silently."""
        if self.crashed:
            return None
        i = self.nfs
        self.nfs += 1
        self.fslog.append(('write', path))
        self.trace('fs', 'write', n)
        self.note('fs.write')
        f = self.faults.get(i)
        self._wf = f
        if f is None:
            return n
        k = f['kind']
        if k == 'crash_before':
            self._die('crash-before-write')
        if k == 'torn':
            return max(0, min(n - 1, int(n * f.get('frac', 0.5))))
        if k == 'short':
            self.fault('short-write')
            return max(1, min(n, int(n * f.get('frac', 0.5))))
        if k == 'eio':
            self.fault('eio-write')
            raise seams.InjectedOSError(errno.EIO, os.strerror(errno.EIO))
        if k == 'enospc':
            return max(0, min(n - 1, int(n * f.get('frac', 0.5))))
        return n

    def fs_write_done(self, path, n, done):
        f = self._wf
        self._wf = None
        if f is None:
            return done
        k = f['kind']
        if k == 'torn':
            self._die('torn-write')
        if k == 'crash_after':
            self._die('crash-after-write')
        if k == 'enospc':
            self.fault('enospc-write')
            if done > 0:
                # the disk takes what fits; the next write fails
                self.faults[self.nfs] = {'kind': 'enospc', 'frac': 0.0}
                return done
            raise seams.InjectedOSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        return done

    def h5_write(self, path, n):
        if self.crashed or self.h5_drop:
            return 0
        i = self.nh5w
        self.nh5w += 1
        self.h5log.append((self.nfs, path, n))
        f = self.h5faults.get(i)
        if f is None:
            return n
        # the process dies inside the library: nothing further reaches the disk
        self.fault('crash-in-h5-flush')
        self.crashed = True
        self.pending_crash = True
        return int(n * f.get('frac', 0.0))

    def h5_meta(self, path):
        return not (self.crashed or self.h5_drop)

    def shuffle_listing(self, names):
        names = sorted(names)
        self.order_rng.shuffle(names)
        self.note('fs.listdir')
        return names

    # -- user callbacks
    def callback(self, kind):
        """Called on entry of every user callback. Returns the fault, if any."""
        i = self.ncb
        self.ncb += 1
        self.trace('cb', kind)
        self.note('cb.' + kind)
        if self.crashed:
            raise SimCrash('dead')
        f = self.cbfaults.get(i)
        if f is not None:
            k = f['kind']
            if k == 'stall':
                self.stall(f.get('secs', 5.0))
            elif k == 'crash':
                self._die('crash-in-callback')
            elif k == 'raise':
                self.fault('callback-exception')
                exc = {'value': ValueError, 'runtime': RuntimeError, 'zero': ZeroDivisionError,
                       'key': KeyError, 'type': TypeError, 'float': FloatingPointError, 'mem': MemoryError,
                       'interrupt': KeyboardInterrupt, 'inj': seams.InjectedError,
                       'args': lambda s: seams.InjectedArgsError(s, i), 'opaque': seams.InjectedOpaqueError,
                       'os': OSError, 'stop': StopIteration, 'exit': SystemExit, 'linalg': np.linalg.LinAlgError}[f.get('exc', 'inj')]
                raise exc('injected %d' % i)
            elif k in ('nan', 'inf'):
                self.fault('callback-' + k)
        self.yield_point('cb')
        return f
