"""A controlled scheduler for real threads.

Exactly one thread runs at a time. A thread can be preempted at every traced line of the code under test (or at every function
entry, the coarser granularity), at explicit points of the harness, and at calls on objects wrapped by `exclusive`. Which thread
starts, where it is preempted and by whom are choices; every preemption is charged to the deviation bound.
"""
from __future__ import annotations

import _thread
import atexit
import gc
import os
import sys
import threading
import types

from .core import HarnessError, Prune

_real_lock, _real_rlock = threading.Lock, threading.RLock
_active: Scheduler | None = None
_main_ident = _thread.get_ident()

SRC = (os.sep + "src" + os.sep + "connectrpc" + os.sep, os.sep + "connectrpc_otel" + os.sep)


class Abort(BaseException):
    """Ends the threads of an execution that is given up."""


class Deadlocked(Exception):
    """No thread can run."""


class Gate:
    """A binary semaphore that is closed at first."""

    def __init__(self):
        self._l = _thread.allocate_lock()
        self._l.acquire()

    def acquire(self):
        self._l.acquire()

    def release(self):
        try:
            self._l.release()
        except RuntimeError:
            pass  # open already


class Scheduler:
    def __init__(self, ch, counts, granularity="line"):
        self.ch = ch  # None: run one after another, only count
        self.counts = counts  # points of every thread when it runs alone
        # "line" or "call" (function entries); "+first": only the first time that a thread is at a place
        self.gran, _, first = granularity.partition("+")
        self.first_only = bool(first)
        self.places = set()
        self.points = {}
        self.threads = []
        self.runnable = []
        self.blocked = {}
        self.current = None
        self.target = None
        self.shard = None
        self.first = True
        self.switches = []
        self.failure = None

    # ------------------------------------------------------------------
    def run(self, fns):
        global _active
        n = len(fns)
        self.sems = [Gate() for _ in range(n)]
        self.done = Gate()
        self.results = [None] * n
        self.points = {i: 0 for i in range(n)}
        self.runnable = list(range(n))
        threads = [threading.Thread(target=self._main, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        _active = self
        _monitor()
        try:
            for t in threads:
                t.start()
            self._give(self.ch.choose(n, "start") if self.ch else 0)
            self.done.acquire()
            if self.failure is not None:
                for s in self.sems:
                    s.release()
            for t in threads:
                t.join()
        finally:
            _active = None
        if self.failure is not None:
            raise self.failure
        return self.results

    def _fail(self, e):
        self.failure = self.failure or e
        self.done.release()

    def _main(self, i, fn):
        self.sems[i].acquire()
        if self.failure is not None:
            return
        try:
            self.results[i] = ("ok", fn())
        except BaseException as e:
            self.results[i] = ("raised", e)
        if self.failure is not None:
            return
        self.runnable.remove(i)
        try:
            if not self.runnable:
                self.current = None
                self.done.release()
            elif self.target is not None:
                # it ended before the place where it was to be preempted: the same as not preempting it
                raise Prune
            else:
                ready = [t for t in self.runnable if t not in self.blocked]
                if not ready:
                    raise Deadlocked
                self._give(ready[self.ch.choose(len(ready), "next") if self.ch else 0])
        except Exception as e:
            self._fail(e)

    def _give(self, i):
        """Lets thread i run, choosing where it will be preempted."""
        self.current = i
        self.target = None
        others = [t for t in self.runnable if t != i and t not in self.blocked]
        if self.ch is not None and others:
            left = max(0, self.counts[i] - self.points[i])
            if left:
                opts = [0, *range(1, left + 1)]
                if self.shard is not None and self.first:
                    k, m = self.shard
                    opts = ([0] if k == 0 else []) + [d for d in range(1, left + 1) if d % m == k]
                    if not opts:
                        raise Prune
                self.first = False
                costs = [0 if d == 0 else 1 for d in opts]
                d = opts[self.ch.choose(len(opts), f"preempt{i}", costs)]
                if d:
                    self.target = self.points[i] + d
        self.sems[i].release()

    def _at(self, code, place):
        if self.first_only:
            k = (self.current, id(code), place)
            if k in self.places:
                return
            self.places.add(k)
        self.point()

    def point(self):
        if self.failure is not None:
            raise Abort
        i = self.current
        self.points[i] += 1
        if self.target is not None and self.points[i] >= self.target:
            self.target = None
            others = [t for t in self.runnable if t != i and t not in self.blocked]
            if others:
                self._switch(i, others, "to")

    def _switch(self, i, others, label):
        try:
            k = others[self.ch.choose(len(others), label) if self.ch else 0]
            self.switches.append((i, self.points[i], k))
            self._give(k)
        except Exception as e:
            self._fail(e)
            raise Abort from None
        self.sems[i].acquire()
        if self.failure is not None:
            raise Abort

    def block(self, on):
        """The current thread cannot go on before `on` is released."""
        i = self.current
        self.blocked[i] = on
        others = [t for t in self.runnable if t not in self.blocked]
        if not others:
            self._fail(Deadlocked())
            raise Abort
        self.target = None
        self._switch(i, others, "blocked")

    def unblock(self, on):
        for t in [t for t, o in self.blocked.items() if o is on]:
            del self.blocked[t]


_mon = sys.monitoring
_TOOL = 4
_installed_in = None


def _monitor():
    """Reports the lines and entries of the functions of the library to the scheduler."""
    global _installed_in
    if _installed_in == os.getpid():
        return
    _installed_in = os.getpid()
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, "verif-sched")
    known, keep = {}, []

    def watch(code):
        _mon.set_local_events(_TOOL, code, _mon.events.LINE)
        known[id(code)] = True
        keep.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType) and id(c) not in known:
                watch(c)

    def on_start(code, offset):
        lib = known.get(id(code))
        if lib is None:
            keep.append(code)
            lib = known[id(code)] = any(x in code.co_filename for x in SRC)
            if lib:
                watch(code)
        if not lib:
            return _mon.DISABLE
        s = _active
        if s is not None and s.current is not None and _thread.get_ident() != _main_ident:
            s._at(code, -1)
        return None

    def on_line(code, line):
        s = _active
        if s is not None and s.gran == "line" and s.current is not None and _thread.get_ident() != _main_ident:
            s._at(code, line)

    _mon.register_callback(_TOOL, _mon.events.PY_START, on_start)
    _mon.register_callback(_TOOL, _mon.events.LINE, on_line)
    _mon.set_events(_TOOL, _mon.events.PY_START)
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and any(x in f.__code__.co_filename for x in SRC) and id(f.__code__) not in known:
            watch(f.__code__)
    atexit.register(_mon.set_events, _TOOL, 0)


def active_thread():
    s = _active
    return None if s is None or s.current is None or _thread.get_ident() == _main_ident else s


def point():
    s = active_thread()
    if s is not None:
        s.point()


class SchedLock:
    """threading.Lock for code that runs under the scheduler; a plain flag, since only one thread runs at a time."""

    def __init__(self):
        self._owner = None
        self._n = 0
        self.reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        s = active_thread()
        me = s.current if s is not None else "main"
        if self.reentrant and self._owner == me and self._n:
            self._n += 1
            return True
        while self._n:
            if not blocking:
                return False
            if s is None:
                raise HarnessError("lock held outside of the scheduler")
            s.block(self)
        self._owner, self._n = me, 1
        return True

    def release(self):
        self._n -= 1
        s = active_thread()
        if not self._n and s is not None:
            s.unblock(self)

    def locked(self):
        return self._n > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _of_library():
    fn = sys._getframe(2).f_code.co_filename
    return any(x in fn for x in SRC)


def _lock():
    return SchedLock() if _of_library() else _real_lock()


def _rlock():
    if not _of_library():
        return _real_rlock()
    lk = SchedLock()
    lk.reentrant = True
    return lk


def patch_locks():
    """Locks that the code under test creates from now on know about the scheduler."""
    threading.Lock = _lock
    threading.RLock = _rlock


misuse: list[str] = []


class Exclusive:
    """A native object that must not be used by two threads at once, although a call on it releases the GIL."""

    def __init__(self, obj, name, state=None):
        self.__dict__.update(_obj=obj, _name=name, _state=state or {"user": None})

    def __getattr__(self, attr):
        v = getattr(self._obj, attr)
        if not callable(v):
            return v

        def call(*a, **kw):
            s = active_thread()
            if s is None:
                return self._wrap(v(*a, **kw), attr)
            st = self._state
            if st["user"] is not None and st["user"] != s.current:
                misuse.append(f"{self._name}.{attr} while another thread uses it")
            outer, st["user"] = st["user"], s.current
            try:
                s.point()
                return self._wrap(v(*a, **kw), attr)
            finally:
                st["user"] = outer
        return call

    def _wrap(self, r, attr):
        return r if r is None or isinstance(r, (bytes, int, bool, str)) else Exclusive(r, f"{self._name}.{attr}", self._state)

    def __enter__(self):
        self._obj.__enter__()
        return self

    def __exit__(self, *a):
        return self._obj.__exit__(*a)


def exclusive(module, name):
    real = getattr(module, name)

    def make(*a, **kw):
        return Exclusive(real(*a, **kw), name)
    setattr(module, name, make)
