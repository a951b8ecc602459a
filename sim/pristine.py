"""Runs of the code as a process that has just started would make them.

A worker keeps one child which has imported everything and executed nothing;
every call forks from it, so that nothing an earlier run may have left in
modules, classes or default arguments is there."""
import os
import pickle
import select
import signal
import struct
import sys
import time

_time, _mono, _sleep = time.time, time.monotonic, time.sleep
_state = dict(pid=None)
LIMIT = 100


def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b[:1 << 16]):]


def _read(fd, n):
    out = b''
    while len(out) < n:
        c = os.read(fd, min(1 << 16, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack('<Q', _read(fd, 8))[0]))


def _serve(rfd, wfd, parent):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.alarm(0)
    while True:
        while not select.select([rfd], [], [], 1.0)[0]:
            if os.getppid() != parent:
                os._exit(0)
        fn, args = _recv(rfd)
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(LIMIT)
            try:
                res = True, fn(*args)
            except BaseException as ex:     # noqa
                res = False, ex
            try:
                _send(wfd, res)
            except (pickle.PicklingError, TypeError, AttributeError):
                _send(wfd, (False, RuntimeError('%s: %s' % (type(res[1]).__name__, res[1]))))
            os._exit(0)
        st = os.waitpid(pid, 0)[1]
        if st != 0:
            _send(wfd, (False, RuntimeError('a simulated process ended with status %d' % st)))


def _start():
    me = os.getpid()
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            _serve(r1, w2, me)
        except BaseException:       # noqa
            pass
        os._exit(0)
    os.close(r1)
    os.close(w2)
    _state.update(pid=me, child=pid, w=w1, r=r2)


def stop():
    if _state['pid'] == os.getpid():
        for n in ('w', 'r'):
            os.close(_state[n])
        try:
            os.kill(_state['child'], signal.SIGKILL)
            os.waitpid(_state['child'], 0)
        except OSError:
            pass
        _state['pid'] = None


def call(fn, *args):
    """fn(*args), executed by a process in which nothing has been executed before."""
    if _state['pid'] != os.getpid():
        _start()
    try:
        _send(_state['w'], (fn, args))
        ok, res = _recv(_state['r'])
    except BaseException:
        stop()
        raise
    if not ok:
        raise res
    return res
