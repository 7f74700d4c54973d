"""C10: callbacks connected to a thread run in that thread, once and in order."""
import gc
import itertools
import queue
import sys
import threading
from collections import Counter, deque

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance, emit_queued
from vh import sched, zoo
from vh.core import Workload, attempt

PROP = "C10"
TECHNIQUE = "runtime monitoring: exactly-once, order and thread-affinity monitors over recorded calls; controlled scheduling at trace points of psygnal, plus free-running stress and a Qt event loop"
RULE = (
    "`model`: emissions, emit_queued() (own and foreign queues), raising callbacks, deaths of owners, nested emissions, emissions "
    "of other threads during emit_queued(), threads that share a name, have ended or were never started, and "
    "connections by 'main'/'current'/Thread objects executed one at a time in several real threads, against a model with one "
    "FIFO per thread; `schedules`: concurrent emitters and drainers under a seeded scheduler that switches threads inside "
    "psygnal (lines or bytecodes); `stress`: the same, free running; `qt`: drained by psygnal.qt timers; calls are matched "
    "one-to-one with emissions; non-trivial: calls were queued across threads; distinct by case (schedules: by switch trace)"
)
REQUIRE = {"queued_calls": 500, "immediate_calls": 200, "foreign_drains": 50, "nested_drains": 30, "emitted_while_draining": 30, "idle_thread_drains": 100, "reused_idents": 50, "raised": 50, "dead_skipped": 20, "switches": 1000, "concurrent_drains": 50, "stress_calls": 2000, "qt_calls": 50, "long_drains": 30}


# ---------------------------------------------------------------- sequential model, several threads


class Actor:
    """A thread that executes one function at a time for the harness."""

    def __init__(self, main=False, name=None, idle=None):
        self.main = main
        self.idle = idle
        if idle:
            # a thread that has not been started, or has ended: others run its callbacks
            self.thread = threading.Thread(target=lambda: None, name=name)
            if idle == "ended":
                self.thread.start()
                self.thread.join()
            return
        if main:
            self.thread = threading.main_thread()
            return
        self.q, self.r = queue.SimpleQueue(), queue.SimpleQueue()
        self.thread = threading.Thread(target=self.loop, daemon=True, name=name)
        self.thread.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            self.r.put(attempt_all(f))
            f = None

    def run(self, f):
        r = attempt_all(f) if self.main else (self.q.put(f), self.r.get())[1]
        if r[1] is not None:
            raise r[1]
        return r[0]

    def stop(self):
        if not self.main and not self.idle:
            self.q.put(None)
            self.thread.join()


def attempt_all(f):
    try:
        return f(), None
    except BaseException as e:
        return None, e


class CbErr(Exception):
    pass


def run_model(case, ctx):
    name = "worker" if case["same_names"] else None
    # (the threads that have ended come first: the running ones get their idents)
    idle = [Actor(name=name, idle=x) for x in case["idle"]]
    gone = {a.thread.ident for a in idle}
    actors = [Actor(main=True)] + [Actor(name=name) for _ in range(case["actors"])] + idle
    ctx.count("reused_idents", sum(a.thread.ident in gone for a in actors if not a.idle))
    try:
        _run_model(case, ctx, actors)
    finally:
        for a in actors:
            a.stop()


def _run_model(case, ctx, actors):
    if threading.current_thread() is not threading.main_thread():
        raise AssertionError
    idents = {a.thread.ident: i for i, a in enumerate(actors) if not a.idle}
    n_live = sum(not a.idle for a in actors)
    chain, emitting = [], [0]  # the actors that are running something, and emissions in progress
    mchain, memitting = [], [0]
    group = type("G", (SignalGroup,), {"m": Signal(object, object)})()
    sigs = [SignalInstance((object, object)), type("T", (), {"s": Signal(object, object)})().s, group.m]
    emit_queued(threading.main_thread())
    cbs = case["cbs"]
    strong = {}
    want = []  # expected calls (tag, actor, args)
    got = []
    queues = [deque() for _ in actors]
    progs = {k: list(v) for k, v in case["programs"].items()}
    rprogs = {k: list(v) for k, v in case["programs"].items()}
    serial = itertools.count(1)
    mserial = itertools.count(1)
    budget, mbudget = [case.get("budget", 40)], [case.get("budget", 40)]
    dead = set()
    by_sig = {}

    def real_cb(tag, args):
        if args and not isinstance(args[0], int):
            args = args[0].args  # EmissionInfo
        got.append((tag, idents.get(threading.get_ident(), "?"), tuple(args)))
        prog = rprogs.get(tag)
        if prog:
            act = prog.pop(0)
            if act == "raise":
                # (with a cause of its own)
                raise CbErr(tag) from (CbErr("earlier") if len(got) % 2 else None)
            if act is not None and budget[0] > 0:
                budget[0] -= 1
                if isinstance(act, list) and act[0] == "drain":
                    emit_queued(actors[act[1]].thread)
                elif isinstance(act, list):
                    # another thread emits meanwhile
                    if not emitting[0] and act[2] not in chain:
                        in_actor(act[2], lambda: r_emit(act[1]))
                else:
                    r_emit(act)

    def r_emit(s, how="emit"):
        v = next(serial)
        emitting[0] += 1
        try:
            (sigs[s].emit_fast if how == "fast" and s != 2 else sigs[s].emit)(v, -v)
        finally:
            emitting[0] -= 1

    def in_actor(a, f):
        chain.append(a)
        try:
            return actors[a].run(f)
        finally:
            chain.pop()

    def m_call(tag, actor, args):
        c = cbs[tag]
        if tag in dead:
            return
        if c["nmax"] == 1 and c["sig"] != "group":
            args = args[:1]
        if c["max_args"] is not None:
            args = args[: c["max_args"]]
        want.append((tag, actor, tuple(args)))
        prog = progs.get(tag)
        if prog:
            act = prog.pop(0)
            if act == "raise":
                raise CbErr(tag)
            if act is not None and mbudget[0] > 0:
                mbudget[0] -= 1
                if isinstance(act, list) and act[0] == "drain":
                    m_drain(act[1], actor)
                    ctx.count("nested_drains")
                elif isinstance(act, list):
                    if not memitting[0] and act[2] not in mchain:
                        mchain.append(act[2])
                        try:
                            m_emit(act[1], act[2])
                        finally:
                            mchain.pop()
                        ctx.count("emitted_while_draining")
                else:
                    m_emit(act, actor)

    def m_emit(s, actor):
        v = next(mserial)
        memitting[0] += 1
        try:
            m_emit_(s, actor, (v, -v))
        finally:
            memitting[0] -= 1

    def m_emit_(s, actor, args):
        # (signal 2 is a member of the group: its relay is connected first)
        # (callbacks of other threads are put in the queue in the order of the priorities)
        order = sorted(by_sig.get(s, []), key=lambda t: -cbs[t]["prio"])
        if s == 2:
            relayed = sorted(by_sig.get("group", []), key=lambda t: -cbs[t]["prio"])
            order = relayed + order if case["group_first"] else order + relayed
        for tag in list(order):
            if tag in dead:
                continue
            t = cbs[tag]["target"]
            if t is None or t == actor:
                m_call(tag, actor, args)
                ctx.count("immediate_calls")
            else:
                queues[t].append((tag, args))
                ctx.count("queued_calls")
                ctx.nontrivial()

    def m_drain(t, actor):
        n = 0
        while queues[t]:
            tag, args = queues[t].popleft()
            n += 1
            ctx.count("long_drains", n == 65)
            if tag in dead:
                ctx.count("dead_skipped")
                continue
            m_call(tag, actor, args)

    def connect(tag):
        c = cbs[tag]
        s = c["sig"]
        sig = group if s == "group" else sigs[s]
        cb, owner, nmax = zoo.make(c["kind"], tag, real_cb)
        c["nmax"] = nmax
        strong[tag] = (cb, owner)
        kw = {}
        if c["max_args"] is not None:
            kw["max_args"] = c["max_args"]
        if c["prio"]:
            kw["priority"] = c["prio"]
        t = c["target"]
        form = c["form"]
        if t is None:
            sig.connect(cb, **kw)
        elif form == "str" and t == 0:
            sig.connect(cb, thread="main", **kw)
        elif form == "str":
            actors[t].run(lambda: sig.connect(cb, thread="current", **kw)) if t < n_live else sig.connect(cb, thread=actors[t].thread, **kw)
        elif form == "deco_str" and t == 0:
            sig.connect(thread="main", **kw)(cb)
        elif form == "deco_str" and t < n_live:
            actors[t].run(lambda: sig.connect(thread="current", **kw)(cb))
        elif form == "deco":
            sig.connect(thread=actors[t].thread, **kw)(cb)
        else:
            sig.connect(cb, thread=actors[t].thread, **kw)
        by_sig.setdefault(s, []).append(tag)

    order = sorted(cbs, key=lambda t: (cbs[t]["sig"] != "group") == case["group_first"])
    if not case["group_first"]:
        # the members' own callbacks first, then the relay
        order = sorted(cbs, key=lambda t: cbs[t]["sig"] == "group")
    for tag in order:
        connect(tag)

    def verify(op):
        ctx.eq(got, want, f"calls (callback, thread, arguments) after {op}")

    def step(op):
        name = op[0]
        if name == "emit":
            _, a, s, how = op
            mchain[:] = [a]
            r = attempt(in_actor, a, lambda: r_emit(s, how))
            m = attempt(m_emit, s, a)
            compare(r, m, op)
        elif name == "drain":
            _, a, t, explicit = op
            if a != t:
                ctx.count("foreign_drains")
            th = actors[t].thread
            mchain[:] = [a]
            if t >= n_live:
                ctx.count("idle_thread_drains")
            r = attempt(in_actor, a, (lambda: emit_queued(th)) if a != t or explicit else emit_queued)
            m = attempt(m_drain, t, a)
            compare(r, m, op)
        elif name == "kill":
            tag = op[1]
            if tag in strong and cbs[tag]["kind"] not in zoo.STRONG and tag not in dead:
                del strong[tag]
                gc.collect()
                dead.add(tag)
        verify(op)

    def compare(r, m, op):
        if m.ok:
            ctx.check(r.ok, lambda: f"{op}: {r}")
        else:
            ctx.count("raised")
            ctx.check(not r.ok and isinstance(r.exc, EmitLoopError), lambda: f"{op}: {r}, expected EmitLoopError")
            e = r.exc
            while isinstance(e, EmitLoopError) and e.__cause__ is not None:
                e = e.__cause__
            ctx.check(isinstance(e, CbErr) and e.args == m.exc.args, lambda: f"{op}: cause of the EmitLoopError is {e!r}")

    for op in case["ops"]:
        step(op)
    for _ in range(300):
        if not any(queues):
            break
        for t in range(len(actors)):
            step(["drain", t if t < n_live else 0, t, False])
    for t in range(len(actors)):
        step(["drain", t if t < n_live else 0, t, False])


def gen_model(rng, i, tier):
    n = rng.randint(1, 3)
    idle = [rng.choice(["new", "ended"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    m = n + len(idle)
    cbs = {}
    for k in range(rng.randint(2, 6)):
        kind = rng.choice(["func", "method", "method", "obj", "lambda", "partial", "pmethod", "fixed1", "fmeth1", "setattr", "psetitem", "kwpmethod", "kwpmethod2", "kwpartial", "pobj", "dunder", "wrapper"])
        sig = rng.choice([0, 0, 1, 2, "group"])
        if sig == "group" and kind in ("setattr", "psetitem", "fixed1", "fmeth1"):
            kind = "method"
        target = rng.choice([None, *range(m + 1), *range(n + 1)])
        cbs[f"cb{k}"] = {"kind": kind, "sig": sig, "target": target, "form": rng.choice(["str", "obj", "deco", "deco_str"]), "max_args": rng.choice([None, None, None, 1]) if sig != "group" else None, "nmax": None, "prio": rng.choice([0, 0, 0, 1, -1, 5]) if sig != 2 else 0}
    programs = {}
    for t in cbs:
        if rng.random() < 0.4:
            programs[t] = [rng.choice([None, None, "raise", rng.choice([0, 1, 2]), ["drain", rng.randint(0, m)], ["other", rng.choice([0, 1, 2]), rng.randint(1, n)]]) for _ in range(rng.randint(1, 6))]
    ops = []
    for _ in range(rng.randint(4, 20)):
        x = rng.random()
        a = rng.randint(0, n)
        if x < 0.6:
            ops.append(["emit", a, rng.choice([0, 0, 1, 2]), rng.choice(["emit", "fast"])])
        elif x < 0.93:
            ops.append(["drain", a, a if rng.random() < 0.6 else rng.randint(0, m), rng.random() < 0.3])
        else:
            ops.append(["kill", rng.choice(list(cbs))])
    more = {}
    if rng.random() < 0.04:
        # callbacks that keep queuing callbacks while they are called
        t, s = m + 1, rng.choice([0, 1])  # (a thread that never emits)
        idle.append("new")
        cbs["long"] = {"kind": "func", "sig": s, "target": t, "form": "obj", "max_args": None, "nmax": None, "prio": 0}
        programs["long"] = [s] * rng.randint(60, 150)
        a = rng.randint(0, n)
        ops.append(["emit", a, s, "emit"])
        ops.append(["drain", a, t, True])
        more["budget"] = 200
    return {**more, "actors": n, "idle": idle, "same_names": rng.random() < 0.4, "cbs": cbs, "programs": programs, "group_first": rng.random() < 0.5, "ops": ops}


# ---------------------------------------------------------------- controlled schedules


def run_schedules(case, ctx):
    with sched.patched_locks():
        sigs = [SignalInstance((object,)), SignalInstance((object,))]
    s = sched.from_case(case["sched"])
    run_concurrent(case, ctx, sigs, s)
    ctx.count("switches", len(s.switches))
    ctx.nontrivial(tuple(s.switches))
    if s.free:
        ctx.count("free_running")


class Free:
    """Same interface as the scheduler, without control."""

    def prepare(self, fs):
        self.errors = []
        bar = threading.Barrier(len(fs))

        def main(f):
            bar.wait()
            r = attempt_all(f)
            if r[1] is not None:
                self.errors.append(r[1])

        self.threads = [threading.Thread(target=main, args=(f,), daemon=True) for f in fs]
        return self.threads

    def run(self):
        for t in self.threads:
            t.start()
        for t in self.threads:
            t.join()
        if self.errors:
            raise self.errors[0]


def run_concurrent(case, ctx, sigs, s):
    calls = []  # (target, cb, value, thread) in order of the beginning of the calls
    errors = Counter()
    progs = case["progs"]  # per thread: list of ops
    n = len(progs)
    emitted = []  # (signal, value, emitter)
    allowed = {t: {t} for t in range(n)}
    for i, p in enumerate(progs):
        for op in p:
            if op[0] == "drain":
                allowed[op[1]].add(i)
    n_drainers = {t: sum(any(op[0] == "drain" and op[1] == t for op in p) for p in progs) for t in range(n)}
    bad = set(map(tuple, case["bad"]))

    def body(i):
        def f():
            seq = 0
            for op in progs[i]:
                if op[0] == "emit":
                    seq += 1
                    v = (i, seq)
                    emitted.append((op[1], v))
                    try:
                        sigs[op[1]].emit(v)
                    except EmitLoopError as e:
                        check_err(e)
                elif op[0] == "fast":
                    seq += 1
                    v = (i, seq)
                    emitted.append((op[1], v))
                    try:
                        sigs[op[1]].emit_fast(v)
                    except EmitLoopError as e:
                        check_err(e)
                else:
                    try:
                        if op[1] == i:
                            emit_queued()
                        else:
                            emit_queued(threads[op[1]])
                            ctx.count("concurrent_drains")
                    except EmitLoopError as e:
                        check_err(e)

        return f

    def check_err(e):
        errors[e.__cause__.args[0] if isinstance(e.__cause__, CbErr) else repr(e.__cause__)] += 1

    threads = s.prepare([body(i) for i in range(n)])
    idx = {t: i for i, t in enumerate(threads)}
    keep = []
    for k, c in enumerate(case["cbs"]):

        def cb(v, k=k, c=c):
            calls.append((c["target"], k, v, idx.get(threading.current_thread(), "main")))
            if (k, *v) in bad:
                raise CbErr((k, *v)) from CbErr("earlier")

        if c["method"]:
            o = type("O", (), {"m": lambda self, v, cb=cb: cb(v)})()
            keep.append(o)
            cb = o.m
        sigs[c["sig"]].connect(cb, thread=threads[c["target"]], unique=c["unique"])
    s.run()
    # what is left
    for t in range(n):
        while True:
            try:
                emit_queued(threads[t])
                break
            except EmitLoopError as e:
                check_err(e)
        allowed[t].add("main")
    # exactly once. (an emission made in the target thread whose callback raises stops there)
    count = Counter((k, v) for _, k, v, _ in calls)
    stopped = set()
    for sg, v in emitted:
        for k, c in enumerate(case["cbs"]):
            if c["sig"] != sg:
                continue
            if (k, *v) in bad and c["target"] == v[0]:
                stopped.add((sg, v))
            n_calls = count.pop((k, v), 0)
            if (sg, v) in stopped and n_calls == 0:
                continue
            if n_calls != 1:
                ctx.fail(f"callback {k} was called {n_calls} times for the emission {v} (thread, number)")
    if count:
        ctx.fail(f"calls that nobody emitted: {list(count)[:5]}")
    ctx.count("stress_calls" if isinstance(s, Free) else "sched_calls", len(calls))
    last = {}
    for t, k, v, th in calls:
        if th != t:
            ctx.check(th in allowed[t], lambda: f"callback {k} of thread {t} was called in thread {th}")
            ctx.check(v[0] != t, lambda: f"an emission made in thread {t} was queued for it")
        if v[0] == t:
            ctx.check(th == t, lambda: f"emission {v} made in thread {t} itself was run in {th}")
        # order of starts, as seen by one draining thread
        key = (t, th if n_drainers[t] > 1 else "*", v[0], "own" if v[0] == t else "q")
        pos = v[1]
        if pos < last.get(key, 0):
            ctx.fail(f"callback {k} of thread {t}: emission {v} was called after emission {last[key]} of the same thread")
        last[key] = pos
    for x, c in errors.items():
        if x not in bad or c != 1:
            ctx.fail(f"unexpected error (or not exactly once): {x} x{c}")
    raised = {(k, *v) for _, k, v, _ in calls if (k, *v) in bad}
    ctx.eq(set(errors), raised, "errors reported by emit/emit_queued")
    if raised:
        ctx.count("raised", len(raised))


def gen_progs(rng, n, length):
    progs = []
    for i in range(n):
        role = rng.choice(["emit", "mixed", "mixed", "drain"])
        p = []
        for _ in range(rng.randint(1, length)):
            x = rng.random()
            if role == "emit" or (role == "mixed" and x < 0.5):
                p.append([rng.choice(["emit", "emit", "fast"]), rng.choice([0, 0, 1])])
            else:
                p.append(["drain", i if rng.random() < 0.6 else rng.randrange(n)])
        progs.append(p)
    return progs


def gen_conc(rng, n, length):
    cbs = [{"sig": rng.choice([0, 0, 1]), "target": rng.choice([0, 0, rng.randrange(n)]), "method": rng.random() < 0.4, "unique": rng.random() < 0.3} for _ in range(rng.randint(1, 4))]
    bad = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 5)):
            bad.append([rng.randrange(len(cbs)), rng.randrange(n), rng.randint(1, length)])
    return {"progs": gen_progs(rng, n, length), "cbs": cbs, "bad": bad}


def gen_schedules(rng, i, tier):
    n = rng.randint(2, 4)
    return {**gen_conc(rng, n, rng.randint(1, 6)), "sched": sched.random_sched(rng)}


def gen_stress(rng, i, tier):
    n = rng.randint(3, 7)
    return {**gen_conc(rng, n, 120), "interval": rng.choice([1e-6, 1e-5, 1e-4])}


def run_stress(case, ctx):
    old = sys.getswitchinterval()
    sys.setswitchinterval(case["interval"])
    try:
        run_concurrent(case, ctx, [SignalInstance((object,)), SignalInstance((object,))], Free())
    finally:
        sys.setswitchinterval(old)
    ctx.nontrivial()


# ---------------------------------------------------------------- Qt

_APP = []


def run_qt(case, ctx):
    from PyQt6.QtCore import QCoreApplication, QEventLoop

    from psygnal.qt import start_emitting_from_queue, stop_emitting_from_queue

    if not _APP:
        _APP.append(QCoreApplication.instance() or QCoreApplication([]))
    main = threading.current_thread()
    sig = SignalInstance((object,))
    emit_queued()
    calls = []
    sig.connect(lambda v: calls.append((v, threading.current_thread())), thread=main if case["form"] else "main")
    direct = []
    sig.connect(lambda v: direct.append((v, threading.current_thread())))
    running = False
    total = 0
    pending = []
    v = itertools.count(1)
    for op in case["ops"]:
        if op[0] == "start":
            start_emitting_from_queue(op[1]) if op[2] else start_emitting_from_queue(msec=op[1], thread=main)
            running = True
        elif op[0] == "stop":
            stop_emitting_from_queue()
            running = False
        elif op[0] == "emit":
            vals = [next(v) for _ in range(op[1])]
            t = threading.Thread(target=lambda: [sig.emit(x) for x in vals])
            t.start()
            t.join()
            pending += vals
        elif op[0] == "own":
            x = next(v)
            sig.emit(x)
            ctx.eq(calls[-1:], [(x, main)], "call of an emission in the own thread")
            total += 1
            calls.pop()
        elif op[0] == "drain":
            n0 = len(calls)
            emit_queued()
            ctx.eq([c[0] for c in calls[n0:]], pending, "calls by emit_queued")
            pending = []
        elif op[0] == "loop":
            import time

            n0 = len(calls)
            t0 = time.monotonic()
            while True:
                QCoreApplication.processEvents(QEventLoop.ProcessEventsFlag.AllEvents, 20)
                if not running or len(calls) - n0 >= len(pending) or time.monotonic() - t0 > 30:
                    break
            if running:
                ctx.eq([c[0] for c in calls[n0:]], pending, "calls by the Qt timer (30 s)")
                ctx.count("qt_calls", len(pending))
                if pending:
                    ctx.nontrivial()
                pending = []
            else:
                ctx.eq(len(calls), n0, "calls without a running timer")
    stop_emitting_from_queue()
    emit_queued()
    got = [c[0] for c in calls]
    ctx.eq(got, sorted(set(got)), "order of all calls")
    ctx.check(all(th is main for _, th in calls), "callback called in another thread")
    ctx.eq(len(direct), next(v) - 1, "calls of a direct callback")


def gen_qt(rng, i, tier):
    ops = [["start", 0, True], ["emit", 2], ["loop"]] if rng.random() < 0.5 else []
    for _ in range(rng.randint(4, 15)):
        ops.append(rng.choice([["start", rng.choice([0, 0, 1, 3]), rng.random() < 0.5], ["stop"], ["emit", rng.randint(1, 5)], ["emit", 1], ["loop"], ["loop"], ["drain"], ["own"]]))
    return {"form": rng.random() < 0.5, "ops": ops}


WORKLOADS = [
    Workload("model", gen_model, run_model, quick=1500, thorough=40000, shrink=("ops",) + tuple(f"cb{k}" for k in range(6))),
    Workload("schedules", gen_schedules, run_schedules, quick=2500, thorough=60000, shrink=("progs", "bad")),
    Workload("stress", gen_stress, run_stress, quick=60, thorough=1500, shrink=(), procs=4),
    Workload("qt", gen_qt, run_qt, quick=120, thorough=1500, procs=4),
]
