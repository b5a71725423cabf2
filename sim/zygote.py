"""Processes started afresh (own hash seed, own address layout) that have
imported the code under test and then fork once per request, so a run can be
repeated in a world that differs in everything the results must not depend on.

Client:  zygote.start([0, 1, 7]) in preload;  zygote.request(k, func, *args).
"""
import atexit
import ctypes
import os
import pickle
import socket
import subprocess
import sys
import tempfile
import time

from sim import env
from sim.nodes import NodeDied

REAL = (time.time, time.perf_counter, time.process_time, time.monotonic)


class Clock(object):
    """Replaces the clocks of the time module; behaves as they do until a mode
    is set."""
    def __init__(self):
        self.mode, self.reads, self.span, self.rng = None, 0, 0., None
        self.t = {}

    def patch(self):
        for i, name in enumerate(('time', 'perf_counter', 'process_time', 'monotonic')):
            setattr(time, name, self.fn(name, REAL[i]))
        for name in ('perf_counter_ns', 'time_ns', 'process_time_ns', 'monotonic_ns'):
            b = name[:-3]
            setattr(time, name, (lambda b: lambda: int(getattr(time, b)() * 1e9))(b))

    def set(self, mode, seed):
        import random
        self.mode, self.rng, self.reads, self.span, self.t = mode, random.Random(seed), 0, 0., {}

    def fn(self, name, real):
        def read():
            if self.mode is None:
                return real()
            self.reads += 1
            t = self.t.get(name, 1.6e9 if name == 'time' else 1000.)
            if self.mode == 'stopped':
                d = 0.
            elif self.mode == 'backwards':
                d = -self.rng.choice([1e-3, 1., 3600., 1e6])
            elif self.mode == 'jumps':
                d = self.rng.choice([0., 1e-6, 1., -1., 86400., -86400., 1e8])
            else:
                d = 1e5
            self.t[name] = t + d
            self.span += abs(d)
            return t
        return read


clock = Clock()
_zy = []


def start(seeds):
    d = tempfile.mkdtemp(prefix='verif-zy-')
    me = os.getpid()

    def stop():
        if os.getpid() == me:
            for z in _zy:
                z['proc'].kill()
                z['proc'].wait()
            import shutil
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(stop)
    for k, hs in enumerate(seeds):
        e = dict(os.environ)
        e['PYTHONHASHSEED'] = str(hs)
        e['VERIF_REEXEC'] = '1'
        path = os.path.join(d, '%d.sock' % k)
        p = subprocess.Popen([env.PY, '-W', 'ignore', '-m', 'sim.zygote', path, str(me)], env=e, cwd=env.VERIF, stdin=subprocess.DEVNULL,
                             stdout=None if os.environ.get('VERIF_SHOW') else subprocess.DEVNULL,
                             stderr=None if os.environ.get('VERIF_SHOW') else subprocess.DEVNULL)
        _zy.append(dict(proc=p, path=path, seed=hs))
    for z in _zy:
        for _ in range(3000):
            if os.path.exists(z['path'] + '.ok'):
                break
            if z['proc'].poll() is not None:
                raise RuntimeError('zygote died')
            time.sleep(0.02)
        else:
            raise RuntimeError('zygote does not start')


def request(k, func, *args):
    z = _zy[k]
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    for i in range(200):
        try:
            s.connect(z['path'])
            break
        except (BlockingIOError, ConnectionRefusedError):
            time.sleep(0.02)
    else:
        raise NodeDied('zygote')
    f = s.makefile('rwb')
    pickle.dump((func, args), f)
    f.flush()
    try:
        out = pickle.load(f)
    except EOFError:
        raise NodeDied('zygote child')
    finally:
        f.close()
        s.close()
    if out[0] == 'ok':
        return out[1]
    raise out[1]


def serve(path, parent):
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    if os.getppid() != parent:
        os._exit(0)
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind(path)
    srv.listen(128)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    open(path + '.ok', 'w').close()
    while True:
        try:
            c, _ = srv.accept()
        except InterruptedError:
            continue
        if os.fork() == 0:
            code = 0
            try:
                srv.close()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                signal.alarm(60)
                f = c.makefile('rwb')
                func, args = pickle.load(f)
                try:
                    out = ('ok', func(*args))
                except Exception as e:
                    out = ('exc', e)
                clock.mode = None
                pickle.dump(out, f)
                f.flush()
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        c.close()


if __name__ == '__main__':
    if os.environ.get('VERIF_NOASLR') != '1':
        # the same addresses every time (the simulator moves things about itself)
        libc = ctypes.CDLL(None)
        old = libc.personality(ctypes.c_ulong(0xffffffff))
        e = dict(os.environ, VERIF_NOASLR='1')
        if old != -1 and libc.personality(ctypes.c_ulong(old | 0x0040000)) != -1:
            os.execve(env.PY, [env.PY, '-W', 'ignore', '-m', 'sim.zygote'] + sys.argv[1:], e)
    import sim.zygote as me        # the importable copy, not __main__
    me.clock.patch()
    env.setup_path()
    from sim import rich
    rich.preload()
    import props.c14
    me.serve(sys.argv[1], int(sys.argv[2]))
