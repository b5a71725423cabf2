"""Deterministic threads.

Real Python threads running real code, of which exactly one runs at any time.
Yield points are bytecode instructions (or lines) of chosen source files and
every lock operation; at each scheduling decision the simulator picks the next
thread and how many yield points it may pass before it is preempted.  Locks
made through the threading module are wrapped so that a thread that would
block hands control back instead.

install() must run before the code under test is imported, so that also
`from threading import Lock` gets the wrappers; outside a simulation they
behave like the real ones.
"""
import os
import sys
import threading
import _thread

_real_allocate = _thread.allocate_lock
_real_RLock = threading.RLock
_active = None          # the running Scheduler
_local = _thread._local()
_installed = False


def _me():
    """(scheduler, simthread) if the calling thread is simulated."""
    s = _active
    if s is None:
        return None, None
    return s, s.by_ident.get(_thread.get_ident())


class SimLockBase(object):
    def __init__(self, *a, **k):
        self._l = self._make()

    def acquire(self, blocking=True, timeout=-1):
        s, t = _me()
        if t is None:
            return self._l.acquire(blocking, timeout)
        s.yield_point(t, 'acquire')
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s.contended += 1
        while not self._l.acquire(False):
            if timeout is not None and timeout >= 0:
                # simulated time-out: may fire at any moment
                if s.ctx.flip(0.5, 'lock-timeout'):
                    return False
            s.block(t, self)
        return True

    def release(self):
        s, t = _me()
        self._l.release()
        if s is not None:
            s.wake(self)
        if t is not None:
            s.yield_point(t, 'release')

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = self._make()


class SimLock(SimLockBase):
    @staticmethod
    def _make():
        return _real_allocate()


class SimRLock(SimLockBase):
    @staticmethod
    def _make():
        return _real_RLock()

    def locked(self):
        return False

    # for Condition
    def _is_owned(self):
        return self._l._is_owned()

    def _release_save(self):
        st = self._l._release_save()
        s, t = _me()
        if s is not None:
            s.wake(self)
        return st

    def _acquire_restore(self, st):
        s, t = _me()
        if t is None:
            return self._l._acquire_restore(st)
        while not self._l.acquire(False):
            s.block(t, self)
        self._l.release()
        self._l._acquire_restore(st)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock      # Condition waiters
    _thread.RLock = SimRLock
    # _thread.allocate_lock stays real: the interpreter's own thread start-up uses it


class Deadlock(Exception):
    pass


class SimThread(object):
    def __init__(self, sched, name, func):
        self.sched, self.name, self.func = sched, name, func
        self.gate = _real_allocate()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.quantum = 0
        self.error = None
        self.result = None
        self.steps = 0


class Scheduler(object):
    def __init__(self, ctx, files, opcodes=True, quanta=None, max_steps=3000000):
        self.ctx = ctx
        self.files = set(os.path.realpath(f) for f in files)
        self.opcodes = opcodes
        self.threads = []
        self.by_ident = {}
        self.main = _real_allocate()
        self.main.acquire()
        # how many yield points a thread may pass; index 0 = until it ends or blocks
        self.quanta = quanta or [10 ** 9, 1, 2, 3, 5, 8, 13, 21, 34, 60, 110, 250]
        self.contended = 0
        self.switches = 0
        self.total = 0
        self.max_steps = max_steps
        self.frozen = False
        self._fn = {}

    def spawn(self, name, func):
        t = SimThread(self, name, func)
        self.threads.append(t)
        return t

    # -- called in simulated threads --------------------------------------
    def yield_point(self, t, why):
        if self.frozen:
            return
        t.steps += 1
        self.total += 1
        t.quantum -= 1
        if t.quantum <= 0:
            self.handoff(t)

    def handoff(self, t):
        self.main.release()
        t.gate.acquire()

    def block(self, t, lock):
        t.waiting = lock
        self.handoff(t)

    def wake(self, lock):
        for t in self.threads:
            if t.waiting is lock:
                t.waiting = None

    def _wanted(self, code):
        fn = code.co_filename
        r = self._fn.get(fn)
        if r is None:
            r = self._fn[fn] = os.path.realpath(fn) in self.files
        return r

    def _tracer(self, t):
        opc = self.opcodes

        def local(frame, event, arg):
            if event == ('opcode' if opc else 'line'):
                self.yield_point(t, event)
            return local

        def glob(frame, event, arg):
            if not self._wanted(frame.f_code):
                return None
            if opc:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            self.yield_point(t, 'call')
            return local
        return glob

    def _body(self, t):
        t.gate.acquire()
        self.by_ident[_thread.get_ident()] = t
        sys.settrace(self._tracer(t))
        try:
            t.result = t.func()
        except SystemExit:
            pass
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            # drop a lock this thread died holding? no: that is the code's problem
            self.main.release()

    # -- main ---------------------------------------------------------------
    def run(self):
        global _active
        _active = self
        ctx = self.ctx
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            last = None
            while True:
                live = [t for t in self.threads if not t.done]
                if not live:
                    break
                ready = [t for t in live if t.waiting is None]
                if not ready:
                    raise Deadlock('all threads wait for locks: %s' % [t.name for t in live])
                # default (0): keep running the same thread
                if last in ready:
                    ready.remove(last)
                    ready.insert(0, last)
                t = ready[ctx.schedule(len(ready), 'thread')]
                if t is not last:
                    self.switches += 1
                last = t
                alone = len(live) == 1
                t.quantum = 10 ** 9 if alone else self.quanta[ctx.schedule(len(self.quanta), 'quantum')]
                t.gate.release()
                self.main.acquire()
                if self.total > self.max_steps:
                    raise Deadlock('no progress after %d steps' % self.total)
        finally:
            self.frozen = True
            _active = None
        return self.threads
