"""Worker nodes: real forked processes with their own memory, run strictly one
task at a time under the simulator's control (the simulator decides who runs
which task when; a node never runs on its own)."""
import os
import pickle
import signal
import struct
import sys
import time
import traceback


class NodeDied(Exception):
    pass


class NodeError(Exception):
    """An error of the node protocol itself (not of the task)."""


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _send(fd, data):
    b = struct.pack('<Q', len(data)) + data
    while b:
        k = os.write(fd, b)
        b = b[k:]


def _recv(fd):
    n = struct.unpack('<Q', _read(fd, 8))[0]
    return _read(fd, n)


class Node(object):
    """A process that executes pickled (func, args) calls."""

    def __init__(self, name, init=None):
        self.name = name
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                import ctypes
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                if init is not None:
                    init()
                self._serve(r1, w2)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.alive = True

    @staticmethod
    def _serve(r, w):
        while True:
            try:
                data = _recv(r)
            except EOFError:
                return
            try:
                func, args = pickle.loads(data)
                res = func(*args)
                out = pickle.dumps(('ok', res))
            except SystemExit:
                os._exit(1)
            except BaseException as e:
                tb = traceback.format_exc()
                try:
                    out = pickle.dumps(('exc', e, tb))
                    pickle.loads(out)
                except Exception:
                    out = pickle.dumps(('excstr', type(e).__name__, str(e), tb))
            _send(w, out)

    def call(self, func, *args):
        """Synchronous call; raises what the function raised."""
        return self.call_bytes(pickle.dumps((func, args)))

    def call_bytes(self, data):
        if not self.alive:
            raise NodeDied(self.name)
        try:
            _send(self.w, data)
            out = pickle.loads(_recv(self.r))
        except (EOFError, BrokenPipeError):
            self.reap()
            raise NodeDied(self.name)
        if out[0] == 'ok':
            return out[1]
        if out[0] == 'exc':
            out[1].remote_tb = out[2]
            raise out[1]
        raise NodeError('%s: %s\n%s' % out[1:])

    def kill(self):
        if self.alive:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            self.reap()

    def reap(self):
        if self.alive:
            self.alive = False
            for fd in (self.w, self.r):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass
