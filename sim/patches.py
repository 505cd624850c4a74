"""Puts threads, locks, queues and clocks of the process behind the simulator.

Installed once per checker process, before dattri is imported.  Outside an
epoch (core.CURRENT is None) everything behaves like the original.
"""

from __future__ import annotations

import _thread
import concurrent.futures
import concurrent.futures.thread as cft
import queue
import sys
import threading
import time

from . import core

_alloc = _thread.allocate_lock
_start = _thread.start_new_thread
_ident = _thread.get_ident
_RealRLock = threading.RLock
real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep
real_perf = time.perf_counter
INSTALLED = False


def insim():
    s = core.CURRENT
    if s is None:
        return None
    if s.by_ident.get(_ident()) is None:
        return None
    return s


class SimLock:
    __slots__ = ("__weakref__", "_l", "_wq", "owner")

    def __init__(self):
        self._l = False
        self._wq = core.WaitQ("lock")
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = insim()
        if s is None:
            if self._l and not blocking:
                return False
            t = real_monotonic()
            while self._l:   # real threads, outside a simulation
                if 0 <= timeout < real_monotonic() - t:
                    return False
                if real_monotonic() - t > 200:
                    raise RuntimeError("SimLock contended outside the simulation")
                real_sleep(0.0005)
            self._l = True
            return True
        s.yield_point("acq")
        if not self._l:
            self._l = True
            self.owner = s.cur
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._l:
            rest = None
            if end is not None:
                rest = end - s.now
                if rest <= 0:
                    return False
            s.block(self._wq, rest, "lock")
        self._l = True
        self.owner = s.cur
        return True

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False
        self.owner = None
        s = insim()
        if s is not None:
            s.wake_all(self._wq)
            s.yield_point("rel")

    def locked(self):
        return self._l

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = False

    acquire_lock = acquire
    release_lock = release


class SimRLock:
    __slots__ = ("__weakref__", "_b", "_n", "_o")

    def __init__(self):
        self._b = SimLock()
        self._n = 0
        self._o = None

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        if self._o == me:
            self._n += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._o = me
            self._n = 1
            return True
        return False

    def release(self):
        if self._o != _ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._o = None
            self._b.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._o == _ident()

    def _release_save(self):
        st = self._n
        self._n = 0
        self._o = None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._n = st
        self._o = _ident()

    def _at_fork_reinit(self):
        self._n, self._o = 0, None
        self._b._at_fork_reinit()

    def _recursion_count(self):
        return self._n if self._o == _ident() else 0


DATTRI = None   # the directory of dattri


def for_dattri():
    """Is a lock created while a module of dattri is imported (a lock of the module)?"""
    f = sys._getframe(2)
    for _ in range(12):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if DATTRI and fn.startswith(DATTRI) and f.f_code.co_name == "<module>":
            return True
        if "site-packages" in fn or fn.startswith("<frozen importlib"):
            return False
        f = f.f_back
    return False


def lock_factory():
    return SimLock() if insim() is not None or for_dattri() else _alloc()


def rlock_factory(*a, **k):
    return SimRLock() if insim() is not None or for_dattri() else _RealRLock(*a, **k)


def start_new_thread(fn, args, kwargs=None):
    s = insim()
    if s is None:
        return _start(fn, args, kwargs or {})
    owner = getattr(fn, "__self__", None)
    name = getattr(owner, "_name", None) or getattr(fn, "__name__", "thread")
    t = s.spawn(fn, args, name, kwargs)
    if isinstance(owner, threading.Thread):
        t.obj = None
        owner._sthread = t
    return 1 << 40 | t.tid


_real_wait_tstate = threading.Thread._wait_for_tstate_lock


def wait_tstate(self, block=True, timeout=-1):
    t = getattr(self, "_sthread", None)
    s = core.CURRENT
    if t is None or s is None:
        return _real_wait_tstate(self, block, timeout)
    if t.done or insim() is None:
        self._is_stopped = t.done
        return None
    if not block:
        s.yield_point("alive")
        self._is_stopped = t.done
        return None
    if s.join(t, None if timeout is None or timeout < 0 else timeout):
        self._is_stopped = True
    return None


_real_thread_start = threading.Thread.start


def thread_start(self):
    s = insim()
    if s is None:
        return _real_thread_start(self)
    # Thread.__init__ may have run before the epoch began
    return _real_thread_start(self)


def p_sleep(dt):
    s = insim()
    if s is None:
        if core.CURRENT is not None:
            raise core.HarnessError("time.sleep outside the simulation")
        return real_sleep(dt)
    return s.sleep(dt)


def p_time():
    s = insim()
    return real_time() if s is None else s.wall()


def p_mono():
    s = insim()
    return real_monotonic() if s is None else s.now


def p_perf():
    s = insim()
    return real_perf() if s is None else s.now


class HybridLock(SimLock):
    """Replaces module-level locks created at import time."""

    __slots__ = ()


def _seq_hash(self):
    """Creation-order hash: iteration over sets of threads must not depend
    on memory addresses."""
    h = self.__dict__.get("_simhash")
    if h is None:
        s = core.CURRENT
        if s is None:
            return object.__hash__(self)
        s.hash_seq += 1
        h = self._simhash = s.hash_seq
    return h


def install(dattri):
    global INSTALLED, DATTRI
    if INSTALLED:
        return
    INSTALLED = True
    DATTRI = dattri
    threading._allocate_lock = lock_factory
    threading.Lock = lock_factory
    threading.RLock = rlock_factory
    threading._start_new_thread = start_new_thread
    threading.Thread._wait_for_tstate_lock = wait_tstate
    threading._time = p_mono
    threading.Thread.__hash__ = _seq_hash
    concurrent.futures.Future.__hash__ = _seq_hash
    queue.time = p_mono
    queue.SimpleQueue = queue._PySimpleQueue
    _thread.start_new_thread = start_new_thread
    cft._global_shutdown_lock = HybridLock()
    time.time = p_time
    time.monotonic = p_mono
    time.perf_counter = p_perf
    time.sleep = p_sleep
    time.time_ns = lambda: int(p_time() * 1e9)
    time.monotonic_ns = lambda: int(p_mono() * 1e9)
    time.perf_counter_ns = lambda: int(p_perf() * 1e9)
    concurrent.futures.thread.queue.SimpleQueue = queue._PySimpleQueue


# ------------------------------------------------ statement-level preemption
TOOL = 3
_files = {}


def install_lines(prefix, preempt_suffixes):
    """Count every executed line of dattri; preempt inside chosen files."""
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "sim")
    DISABLE = mon.DISABLE

    def on_line(code, line):
        fn = code.co_filename
        k = _files.get(fn)
        if k is None:
            k = 0
            if fn.startswith(prefix):
                k = 2 if any(x in fn for x in preempt_suffixes) else 1
            _files[fn] = k
        if not k:
            return DISABLE
        s = core.CURRENT
        if s is None or s.quiet:
            return None
        if k == 2 or (s.every_line and code.co_name != "<module>"):
            if _ident() in s.by_ident:
                s.on_line(code)
        else:
            s.lines += 1
            if s.lines > s.max_lines:
                s.abort("line-budget")
        return None

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)
    import atexit

    atexit.register(mon.set_events, TOOL, 0)
