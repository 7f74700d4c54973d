"""Controlled scheduling of real threads running the code under test.

Of the scheduled threads, exactly one runs at a time. Trace events (lines, optionally
bytecode instructions) inside psygnal are possible switch points; a seeded policy decides
at which of them another thread continues. Locks that are created while `patched_locks()`
is active cooperate: a thread that waits for one lets the others run, and if all of them
wait, that is a deadlock. A thread that blocks on something else for long puts the
scheduler in free-running mode (the verdicts never depend on the schedule).
"""
from __future__ import annotations

import contextlib
import gc
import os
import random
import sys
import threading
import time
import _thread

from vh.core import PKG_DIR, Violation

_RealLock, _RealRLock = threading.Lock, threading.RLock
_current = None  # the active scheduler


class Deadlock(Violation):
    pass


class _T:
    def __init__(self, i, name):
        self.i, self.name = i, name
        self.sem = threading.Semaphore(0)
        # (never a cooperating lock: this is what the scheduler itself waits for)
        self.sem._cond = threading.Condition(_RealLock())
        self.state = "new"  # ready / blocked / done
        self.on = None
        self.where = None


class Sched:
    def __init__(self, seed, opcodes=False, policy=("walk", 0.1), files=None):
        self.rng = random.Random(seed)
        self.opcodes = opcodes
        self.policy = policy
        self.ts = []
        self.local = threading.local()
        self.events = 0
        self.switches = []
        self.free = False
        self.errors = []
        self.dead = False
        self.cur = None
        self.mutex = _RealLock()
        self.files = files
        if policy[0] == "points":
            self.points = set(self.rng.sample(range(policy[2]), min(policy[1], policy[2])))

    # ---- threads
    def prepare(self, fs):
        self.ts = [_T(i, f"t{i}") for i in range(len(fs))]
        self.threads = [threading.Thread(target=self._main, args=(t, f), daemon=True) for t, f in zip(self.ts, fs)]
        return self.threads

    def run(self, fs=None):
        global _current
        if fs is not None:
            self.prepare(fs)
        threads = self.threads
        _current = self
        # (no garbage collection, which would run finalizers in the scheduler's own code)
        enabled = gc.isenabled()
        gc.disable()
        try:
            for t in threads:
                t.start()
            for t in self.ts:
                t.state = "ready"
            self._give(self.rng.choice(self.ts))
            last, since = -1, time.monotonic()
            while any(t.is_alive() for t in threads):
                for t in threads:
                    t.join(0.02 if t.is_alive() else 0)
                if self.events != last:
                    last, since = self.events, time.monotonic()
                elif not self.free and time.monotonic() - since > 1.5:
                    # the running thread is stuck in something we don't control
                    with self.mutex:
                        self.free = True
                    for t in self.ts:
                        t.sem.release()
        finally:
            _current = None
            if enabled:
                gc.enable()
        if self.errors:
            for e in self.errors:
                if isinstance(e, Violation):
                    raise e
            raise self.errors[0]

    def _give(self, t):
        self.cur = t
        t.sem.release()

    def _main(self, t, f):
        self.local.t = t
        t.sem.acquire()
        try:
            sys.settrace(self._trace)
            f()
        except BaseException as e:
            self.errors.append(e)
        finally:
            sys.settrace(None)
            t.state = "done"
            self._next(t)

    def me(self):
        return getattr(self.local, "t", None)

    def _next(self, me):
        """`me` cannot go on: let somebody else run."""
        if self.free:
            return
        ready = [t for t in self.ts if t.state == "ready" and t is not me]
        if ready:
            nxt = self.rng.choice(ready)
            self.switches.append((me.i, nxt.i, me.where))
            self._give(nxt)
        elif any(t.state == "blocked" for t in self.ts):
            with self.mutex:
                if self.free:
                    return
                self.dead = True
                self.free = True
            for t in self.ts:
                t.sem.release()

    # ---- switch points
    def point(self, where=None):
        me = self.me()
        if me is None or self.free:
            return
        self.events += 1
        p = self.policy
        if p[0] == "walk":
            if self.rng.random() >= p[1]:
                return
        elif self.events not in self.points:
            return
        ready = [t for t in self.ts if t.state == "ready" and t is not me]
        if not ready:
            return
        nxt = self.rng.choice(ready)
        me.where = where
        self.switches.append((me.i, nxt.i, where))
        self._give(nxt)
        me.sem.acquire()

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(PKG_DIR) or (self.files and os.path.basename(fn) not in self.files):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self.point((frame.f_code.co_name, frame.f_lineno))
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point((frame.f_code.co_name, frame.f_lineno))
        return self._local

    # ---- locks
    def block(self, lock):
        me = self.me()
        me.state, me.on = "blocked", lock
        self._next(me)
        me.sem.acquire()
        if self.dead:
            raise Deadlock(f"deadlock: all of {[t.name for t in self.ts if t.state == 'blocked']} wait for locks")
        me.state, me.on = "ready", None

    def released(self, lock):
        for t in self.ts:
            if t.state == "blocked" and t.on is lock:
                t.state, t.on = "ready", None


class _Coop:
    """Lock which cooperates with the active scheduler."""

    def __init__(self, real):
        self._real = real()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or s.me() is None or s.free or not blocking:
            return self._real.acquire(blocking, timeout)
        tries = 0
        while not self._real.acquire(False):
            if s.free:
                return self._real.acquire(blocking, timeout)
            if timeout is not None and timeout >= 0:
                tries += 1
                if tries > 20:
                    return False
                others = [t for t in s.ts if t.state == "ready" and t is not s.me()]
                if not others:
                    return False
                me = s.me()
                s._give(s.rng.choice(others))
                me.sem.acquire()
            else:
                s.block(self)
        return True

    def release(self):
        self._real.release()
        s = _current
        if s is not None:
            s.released(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class CoopRLock(_Coop):
    def __init__(self):
        super().__init__(_RealRLock)

    def _is_owned(self):
        return self._real._is_owned()


class CoopLock(_Coop):
    def __init__(self):
        super().__init__(_RealLock)

    def locked(self):
        return self._real.locked()


@contextlib.contextmanager
def patched_locks():
    """Locks created inside cooperate with the scheduler."""
    import psygnal._queue
    import psygnal._signal
    import psygnal._throttler

    saved = []
    threading.RLock, threading.Lock = CoopRLock, CoopLock
    for m in list(sys.modules.values()):
        if (getattr(m, "__name__", "") or "").startswith("psygnal"):
            for k, v in list(vars(m).items()):
                if v is _RealRLock or v is _RealLock:
                    saved.append((m, k, v))
                    setattr(m, k, CoopRLock if v is _RealRLock else CoopLock)
    try:
        yield
    finally:
        threading.RLock, threading.Lock = _RealRLock, _RealLock
        for m, k, v in saved:
            setattr(m, k, v)


def random_sched(rng):
    """JSON-able random scheduling parameters."""
    x = rng.random()
    if x < 0.6:
        policy = ["walk", rng.choice([0.02, 0.05, 0.15, 0.4])]
    else:
        policy = ["points", rng.randint(1, 6), rng.choice([60, 200, 600])]
    return {"seed": rng.randrange(10**9), "opcodes": rng.random() < 0.3, "policy": policy}


def from_case(d):
    return Sched(d["seed"], d["opcodes"], tuple(d["policy"]))
