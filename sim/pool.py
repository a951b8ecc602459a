"""Process seam: multiprocessing pools run as virtual processes under the
world's seeded scheduler.  Tasks, results and exceptions cross the process
boundary pickled, workers inherit the parent's random state as after fork(),
and a worker which leaves through SystemExit is lost together with its task,
all as with the real pools.
"""
import multiprocessing
import multiprocessing.pool
import concurrent.futures
import concurrent.futures.process
import pickle

_real = {}


def _live():
    from . import seams
    return seams.live()


class _Job:
    def __init__(self, n):
        self.left = n
        self.values = {}
        self.error = None
        self.nmiss = n

    def ready(self):
        return self.left == 0


class AsyncResult:
    def __init__(self, pool, job, unpack):
        self._pool, self._job, self._unpack = pool, job, unpack

    def ready(self):
        return self._job.ready()

    def successful(self):
        if not self.ready():
            raise ValueError('not ready')
        return self._job.error is None

    def wait(self, timeout=None):
        self._pool._w.block(self._job.ready, 'pool.wait')

    def get(self, timeout=None):
        self.wait()
        if self._job.error is not None:
            raise self._job.error
        return self._unpack(self._job.values)


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        from . import seams
        w = seams.live()
        self._w = w
        n = processes or w.ncpu
        if n < 1:
            raise ValueError('Number of processes must be at least 1')
        self._n = n
        self._init = (initializer, initargs)
        self._max = maxtasksperchild
        self._queue = []
        self._closed = False
        self._terminated = False
        self._deaf = False
        self._breaks = False
        self._workers = []
        w.note('pool.create')
        for _ in range(n):
            self._spawn()

    # -- workers
    def _spawn(self):
        p = self._w.spawn(self._worker, name='worker%d' % len(self._workers), fork=True)
        self._workers.append(p)

    def _worker(self):
        w = self._w
        me = w.current
        if self._init[0] is not None:
            self._init[0](*self._init[1])
        done = 0
        while True:
            w.block(lambda: self._queue or self._closed or self._terminated, 'pool.get')
            if self._terminated or (self._closed and not self._queue):
                return
            job, idx, blob, star, single = self._queue.pop(0)
            w.trace('task', idx, me.name)
            w.assignment.append((idx, me.name))
            try:
                func, items = pickle.loads(blob)
                try:
                    vals = []
                    for it in items:
                        w.log('item', idx, len(vals))
                        vals.append(func(*it) if star else func(it))
                    out = pickle.dumps(vals)
                except Exception as ex:
                    w.note('worker.exception')
                    try:
                        blob = pickle.dumps(ex)
                    except Exception as why:
                        blob = pickle.dumps(multiprocessing.pool.MaybeEncodingError(repr(why), repr(ex)))
                    try:
                        ex2 = pickle.loads(blob)
                    except Exception:
                        # the thread of the pool that receives results dies of it, and with it all later results
                        w.note('pool.deaf')
                        self._deaf = not self._breaks
                        ex2 = concurrent.futures.process.BrokenProcessPool('a result could not be received')
                    if self._deaf:
                        w.yield_point('result')
                        continue
                    if job.error is None:
                        job.error = ex2
                    job.left -= 1
                    w.yield_point('result')
                    continue
            except SystemExit:
                # the worker process ends; its task is lost and a new worker is forked
                w.note('worker.exit')
                if not self._closed or self._queue:
                    self._spawn()
                return
            if self._deaf:
                w.yield_point('result')
                continue
            job.values[idx] = pickle.loads(out)
            job.left -= 1
            w.yield_point('result')
            done += 1
            if self._max and done >= self._max:
                self._spawn()
                return

    # -- submitting
    def _submit(self, func, iterable, chunksize, star):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        job = _Job(len(chunks))
        for i, c in enumerate(chunks):
            self._queue.append((job, i, pickle.dumps((func, c)), star, False))
        return job

    @staticmethod
    def _cat(values):
        out = []
        for i in sorted(values):
            out.extend(values[i])
        return out

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(self, self._submit(func, iterable, chunksize, False), self._cat)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(self, self._submit(func, iterable, chunksize, True), self._cat)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        kwds = kwds or {}
        job = self._submit(_Apply(func, kwds), [tuple(args)], 1, False)
        return AsyncResult(self, job, lambda v: v[0][0])

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        job = self._submit(func, iterable, chunksize, False)
        n = job.nmiss
        for i in range(n):
            self._w.block(lambda: i in job.values or job.error is not None, 'pool.imap')
            if i not in job.values:
                raise job.error
            for v in job.values[i]:
                yield v

    def imap_unordered(self, func, iterable, chunksize=1):
        job = self._submit(func, iterable, chunksize, False)
        n = job.nmiss
        seen = []
        while len(seen) < n:
            self._w.block(lambda: len(job.values) > len(seen) or job.error is not None, 'pool.imap')
            new = [i for i in job.values if i not in seen]
            if not new:
                raise job.error
            for i in new:       # insertion order of the dict: completion order
                seen.append(i)
                for v in job.values[i]:
                    yield v

    def close(self):
        self._closed = True

    def terminate(self):
        self._terminated = True
        self._closed = True
        self._queue = []
        for p in self._workers:
            if not p.done:
                p.dead = True

    def join(self):
        if not self._closed:
            raise ValueError('Pool is still running')
        self._w.block(lambda: all(p.done or p.dead for p in self._workers), 'pool.join')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Apply:
    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, args):
        return self.func(*args, **self.kwds)


class SimExecutor:
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._p = SimPool(max_workers, initializer, initargs)
        self._p._breaks = True

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return iter(self._p.starmap(fn, list(zip(*iterables)), chunksize=1))

    def submit(self, fn, *args, **kwargs):
        r = self._p.apply_async(fn, args, kwargs)
        r.result = lambda timeout=None: r.get()
        r.done = r.ready

        def _exc(timeout=None):
            r.wait()
            return r._job.error
        r.exception = _exc
        return r

    def shutdown(self, wait=True, cancel_futures=False):
        self._p.close()
        if wait:
            self._p.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class _Ctx:
    def __init__(self, real):
        self._real = real

    def Pool(self, *a, **k):
        return Pool(*a, **k)

    def cpu_count(self):
        return cpu_count()

    def __getattr__(self, n):
        return getattr(self._real, n)


def Pool(*a, **k):
    if _live() is None:
        return _real['Pool'](*a, **k)
    return SimPool(*a, **k)


def cpu_count():
    w = _live()
    if w is None:
        return _real['cpu_count']()
    return w.ncpu


def get_context(method=None):
    real = _real['get_context'](method)
    if _live() is None:
        return real
    return _Ctx(real)


def _executor(*a, **k):
    if _live() is None:
        return _real['ppe'](*a, **k)
    return SimExecutor(*a, **k)


def install():
    import os
    _real['Pool'] = multiprocessing.Pool
    _real['cpu_count'] = multiprocessing.cpu_count
    _real['get_context'] = multiprocessing.get_context
    _real['ppe'] = concurrent.futures.ProcessPoolExecutor
    _real['os_cpu'] = os.cpu_count
    multiprocessing.Pool = Pool
    multiprocessing.pool.Pool = type('Pool', (), {'__new__': staticmethod(lambda cls, *a, **k: Pool(*a, **k))}) \
        if False else multiprocessing.pool.Pool
    multiprocessing.cpu_count = cpu_count
    multiprocessing.get_context = get_context
    concurrent.futures.ProcessPoolExecutor = _executor
    concurrent.futures.process.ProcessPoolExecutor = _executor
    real_os_cpu = os.cpu_count

    def os_cpu():
        w = _live()
        return real_os_cpu() if w is None else w.ncpu
    os.cpu_count = os_cpu
