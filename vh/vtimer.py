"""A virtual clock and a stand-in for threading.Timer.

`install()` has to be called before psygnal is imported. Until a `Clock` is active, real
timers are created.
"""
from __future__ import annotations

import threading

_RealTimer = threading.Timer
CLOCK = None  # the active clock


class Clock:
    def __init__(self):
        self.now = 0.0
        self.timers = []  # started, neither cancelled nor taken
        self.created = 0

    def __enter__(self):
        global CLOCK
        CLOCK = self
        return self

    def __exit__(self, *a):
        global CLOCK
        CLOCK = None

    def due(self, until):
        """Take the next timer that expires not after `until`."""
        t = min((t for t in list(self.timers) if t.deadline <= until + 1e-9), key=lambda t: (t.deadline, t.serial), default=None)
        if t is not None:
            try:
                self.timers.remove(t)
            except ValueError:
                return None
            t.state = "fired"
        return t


class VTimer:
    """Like threading.Timer: cancel() has no effect any more once the timer has expired."""

    serial = 0

    def __init__(self, clock, interval, function, args=None, kwargs=None):
        self.clock = clock
        self.interval, self.function = interval, function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.state = "new"
        self.daemon = False
        self.name = "vtimer"
        self.deadline = None
        clock.created += 1

    def start(self):
        if self.deadline is not None:
            raise RuntimeError("threads can only be started once")
        VTimer.serial += 1
        self.serial = VTimer.serial
        self.deadline = self.clock.now + self.interval
        if self.state == "new":
            self.state = "started"
            self.clock.timers.append(self)

    def cancel(self):
        if self.state == "new":
            self.state = "cancelled"
        elif self.state == "started":
            self.state = "cancelled"
            try:
                self.clock.timers.remove(self)
            except ValueError:
                pass

    def is_alive(self):
        return self.state == "started"

    def join(self, timeout=None):
        pass

    def run_now(self):
        self.function(*self.args, **self.kwargs)


class _Meta(type):
    def __call__(cls, *a, **k):
        if CLOCK is not None and cls is Timer:
            return VTimer(CLOCK, *a, **k)
        return super().__call__(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (VTimer, _RealTimer))


class Timer(_RealTimer, metaclass=_Meta):
    pass


def install():
    threading.Timer = Timer
    import psygnal._throttler as m

    for k, v in list(vars(m).items()):
        if v is _RealTimer:
            setattr(m, k, Timer)
    return m
