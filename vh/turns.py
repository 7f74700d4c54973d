"""Cooperative turn taking: of several real threads, only one runs between two switch points.

The switch points are calls of `switch()` in harness code (callbacks); who runs next is
decided by a seeded generator, so that schedules are reproducible.
"""
import random
import threading


class Turns:
    def __init__(self, seed, n, p=0.6):
        self.rng = random.Random(seed)
        self.p = p
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.switches = 0
        self.errors = []
        self.local = threading.local()
        self.order = []

    def switch(self):
        me = getattr(self.local, "me", None)
        if me is None or self.rng.random() > self.p:
            return
        nxt = self.rng.choice(sorted(self.alive))
        if nxt == me:
            return
        self.switches += 1
        self.order.append(nxt)
        self.sems[nxt].release()
        self.sems[me].acquire()

    def _main(self, i, f):
        self.local.me = i
        self.sems[i].acquire()
        try:
            f()
        except BaseException as e:
            self.errors.append(e)
        self.alive.discard(i)
        if self.alive:
            self.sems[self.rng.choice(sorted(self.alive))].release()

    def run(self, fs):
        ts = [threading.Thread(target=self._main, args=(i, f), daemon=True) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        self.sems[0].release()
        for t in ts:
            t.join()  # (a deadlock is noticed by the watchdog of the runner)
        if self.errors:
            raise self.errors[0]
