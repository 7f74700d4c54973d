"""C11: concurrent emit/connect/disconnect are safe and lose nothing."""
import itertools
import sys
import threading
from collections import Counter

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance
from vh import sched, zoo
from vh.core import PKG_DIR, Violation, Workload
from vh.props.c10 import Free

PROP = "C11"
TECHNIQUE = "runtime monitoring: interval-based history checker (calls vs. definitely connected callbacks, contiguity, conservation) over controlled schedules and free-running stress; deadlock detection by cooperative locks"
RULE = (
    "2-5 threads emit (also nested, also failing), connect (plain, unique, unique='raise', priorities, setters), disconnect, "
    "drop owners, toggle attribute and item setters (connect_setattr, connect_setitem), disconnect everything and use groups on shared signals with all re-emission strategies, under a seeded scheduler that switches "
    "threads at lines or bytecodes inside psygnal, and free-running with tiny switch intervals; the recorded history "
    "(stamped starts and ends of operations, calls) is checked offline; non-trivial: two or more threads switched inside "
    "psygnal code; distinct by switch trace"
)
REQUIRE = {"switches": 2000, "emissions": 1000, "calls": 3000, "definite": 2000, "toggles": 500, "unique_races": 100, "overlapping_ops": 300, "stress_calls": 3000, "group_infos": 200, "errors": 50, "churn_ops": 5000, "churn_definite": 5000}


class History:
    def __init__(self, ctx):
        self.ctx = ctx
        self.clock = itertools.count()
        self.calls = []  # (stamp, thread, outermost emission, emission value, callback, info)
        self.emissions = []  # (start, end, value, outermost, failed)
        self.ops = {}  # callback -> [(start, end, kind, ok)]
        self.local = threading.local()
        self.raised = set()

    def outer(self):
        return getattr(self.local, "outer", None)


def run_history(case, ctx, s, make_sigs):
    h = History(ctx)
    sigs = make_sigs()
    raising = set(map(tuple, case["raising"]))
    nested = {tuple(x) for x in case["nested"]}
    mode = case["mode"]
    cbs = {}
    owners = {}
    kinds = {}
    prio = {}

    def on_call(name, v):
        h.calls.append((next(h.clock), threading.get_ident(), h.outer(), v, name))
        if name == "raiser" and v in raising:
            h.raised.add(v)
            raise ValueError(v)
        if name == "nester" and v in nested and len(v) == 2:
            emit((*v, "n"))

    def mk(name, kind):
        def f(v):
            on_call(name, v)

        if kind == "method":
            o = type("O", (), {"m": lambda self, v: f(v)})()
            owners[name] = o
            return o.m
        if kind == "setattr":
            o = type("O", (), {"x": property(lambda self: 0, lambda self, v: f(v))})()
            owners[name] = o
        if kind == "setitem":
            o = type("O", (), {"__setitem__": lambda self, k, v: f(v)})()
            owners[name] = o
        kinds[name] = kind
        return f

    def connect(name, **kw):
        kind = kinds.get(name)
        if kind == "setattr":
            sig.connect_setattr(owners[name], "x", priority=prio[name], **kw)
        elif kind == "setitem":
            sig.connect_setitem(owners[name], "key", priority=prio[name], **kw)
        else:
            sig.connect(cbs[name], priority=prio[name], **kw)

    def disconnect(name, **kw):
        kind = kinds.get(name)
        if kind == "setattr":
            sig.disconnect_setattr(owners[name], "x", **kw)
        elif kind == "setitem":
            sig.disconnect_setitem(owners[name], "key", **kw)
        else:
            sig.disconnect(cbs[name], **kw)

    sig = sigs["sig"]
    for name, kind, p in case["permanent"]:
        cbs[name] = mk(name, kind)
        prio[name] = p
        sig.connect(cbs[name], priority=p)
    if case["nested"]:
        cbs["nester"] = mk("nester", "func")
        prio["nester"] = 0
        sig.connect(cbs["nester"])
    if case["raising"]:
        cbs["raiser"] = mk("raiser", "func")
        prio["raiser"] = -1000
        sig.connect(cbs["raiser"], priority=-1000)
    for name, kind, p in case["toggled"]:
        cbs[name] = mk(name, kind)
        prio[name] = p
    for name, kind in case["shared"]:
        cbs[name] = mk(name, kind)
        prio[name] = 0
    initial = list(case["initial"])
    for name in initial:
        connect(name)
        h.ops.setdefault(name, []).append((-2, -1, "connect", True))

    def emit(v):
        top = h.outer() is None
        if top:
            h.local.outer = v
        t0 = next(h.clock)
        failed = False
        try:
            sig.emit(v)
        except EmitLoopError as e:
            failed = True
            c = e.__cause__
            if not (isinstance(c, ValueError) and c.args and c.args[0] in raising):
                raise
            if top and c.args[0][:2] != v:
                raise Violation(f"emission {v} failed because of emission {c.args[0]}") from None
            if not top:
                raise
        finally:
            h.emissions.append((t0, next(h.clock), v, h.outer(), failed))
            if top:
                h.local.outer = None

    def op_on(name, kind, f, expect=()):
        t0 = next(h.clock)
        ok = True
        try:
            f()
        except expect:
            ok = False
        h.ops.setdefault(name, []).append((t0, next(h.clock), kind, ok))

    def body(i):
        def run():
            n = 0
            for op in case["progs"][i]:
                k = op[0]
                if k == "emit":
                    n += 1
                    emit((i, n))
                elif k == "connect":
                    op_on(op[1], "connect", lambda: connect(op[1]))
                elif k == "disconnect":
                    op_on(op[1], "disconnect", lambda: disconnect(op[1], missing_ok=False), ValueError)
                elif k == "unique":
                    op_on(op[1], "unique", lambda: sig.connect(cbs[op[1]], unique=True, priority=prio[op[1]]))
                elif k == "unique_raise":
                    op_on(op[1], "unique_raise", lambda: sig.connect(cbs[op[1]], unique="raise", priority=prio[op[1]]), ValueError)
                elif k == "kill":
                    t0 = next(h.clock)
                    cbs.pop(op[1], None)
                    owners.pop(op[1], None)
                    h.ops.setdefault(op[1], []).append((t0, next(h.clock), "kill", True))
                elif k == "contains":
                    (lambda: lambda v: 0)() in sig
                    len(sig)

        return run

    s.prepare([body(i) for i in range(len(case["progs"]))])
    s.run()
    check_history(case, ctx, h, sig, cbs, prio, mode, raising)
    return h


def check_history(case, ctx, h, sig, cbs, prio, mode, raising):
    ctx.count("emissions", len(h.emissions))
    ctx.count("calls", len(h.calls))
    # 1. the outermost emissions do not overlap
    seen, last = set(), None
    for stamp, th, outer, v, name in h.calls:
        if outer is None:
            ctx.fail(f"callback {name} called with {v} in a thread that isn't emitting")
        if v[:2] != outer:
            ctx.fail(f"emission {outer} called callback {name} with the argument {v} of another emission")
        if outer != last:
            if outer in seen:
                order = [c[2] for c in h.calls]
                ctx.fail(f"emissions overlap: calls of {outer} are interleaved with those of {last}; order of calls: {order[:60]}")
            seen.add(outer)
            last = outer
    by_em = {}
    for stamp, th, outer, v, name in h.calls:
        by_em.setdefault(v, []).append(name)
    single = {n for n, k, p in case["toggled"]}
    windows = {(e[2]): e for e in h.emissions}
    # in queued mode, nested emissions run within the outermost one
    for v, (t0, t1, _, outer, failed) in windows.items():
        if len(v) > 2 and mode == "queued" and outer in windows:
            windows[v] = (t0, windows[outer][1], v, outer, failed)
    for v, (t0, t1, _, outer, failed) in windows.items():
        names = by_em.get(v, [])
        ps = [prio[n] for n in names]
        if ps != sorted(ps, reverse=True):
            ctx.fail(f"emission {v} called {names} with priorities {ps}")
        cnt = Counter(names)
        stopped = v in h.raised
        superseded = mode == "latest-only" and (*v, "n") in windows
        failed_in_nested = (*v, "n") in h.raised
        lost_in_failure = mode == "queued" and len(v) > 2 and v[:2] in h.raised
        if lost_in_failure and not names:
            continue
        for n, k, p in case["permanent"]:
            if superseded or failed_in_nested:
                if cnt[n] > 1:
                    ctx.fail(f"emission {v} called {n} {cnt[n]} times")
                continue
            ctx.count("definite")
            if cnt[n] != 1:
                ctx.fail(f"emission {v} called {n}, which is connected all the time, {cnt[n]} times; calls: {names}")
        for n in single:
            state = "out" if n not in case["initial"] else "in"
            for a, b, kind, ok in h.ops.get(n, []):
                if a < t0 and b < t0 and a >= 0:
                    state = "in" if kind == "connect" else "out"
                elif a >= 0 and not (a > t1):
                    state = "?"
                    ctx.count("overlapping_ops")
                    break
            if any(kind == "kill" for *_, kind, ok in h.ops.get(n, [])):
                state = "?" if state == "in" or state == "?" else state
            if state == "in" and not superseded and not failed_in_nested:
                ctx.count("definite")
                if cnt[n] != 1:
                    ctx.fail(f"emission {v} called {n}, which was connected during all of it, {cnt[n]} times; calls {names}")
            elif state == "out":
                if cnt[n]:
                    ctx.fail(f"emission {v} called {n}, which was not connected")
            elif cnt[n] > 1:
                ctx.fail(f"emission {v} called {n} {cnt[n]} times")
    if h.raised:
        ctx.count("errors", len(h.raised))
    for v in h.raised:
        # (a failing emission makes the emit of its thread raise)
        if v[:2] in windows and not windows[v[:2]][4]:
            ctx.fail(f"a callback raised during emission {v}, but emit() did not")
    # 2. final connections
    expected = Counter({n: 1 for n, k, p in case["permanent"]})
    for x in ("nester", "raiser"):
        if x in cbs:
            expected[x] = 1
    bounds = {}
    for n, ops in h.ops.items():
        ctx.count("toggles", len(ops))
        kinds = {k for *_, k, ok in ops}
        n_conn = sum(1 for *_, k, ok in ops if k == "connect" and ok)
        n_disc = sum(1 for *_, k, ok in ops if k == "disconnect" and ok)
        if "kill" in kinds:
            expected[n] = 0
        elif kinds <= {"connect", "disconnect"}:
            if n_conn < n_disc:
                ctx.fail(f"{n}: {n_conn} connects, but {n_disc} successful disconnects")
            expected[n] = n_conn - n_disc
        elif kinds == {"unique"}:
            expected[n] = 1
            ctx.count("unique_races")
        elif kinds <= {"unique", "unique_raise"}:
            expected[n] = 1
            ctx.count("unique_races")
            ok = sum(1 for *_, k, o in ops if k == "unique_raise" and o)
            if ok > 1 or (ok == 0 and "unique" not in kinds):
                ctx.fail(f"{n}: {ok} calls of connect(unique='raise') succeeded")
        else:
            ctx.count("unique_races")
            # unique and disconnect: at most one at any time
            bounds[n] = (0, 1)
            if n_disc > sum(1 for *_, k, ok in ops if k in ("unique", "connect")):
                ctx.fail(f"{n}: more successful disconnects than connects")
    h.calls.clear()
    h.local.outer = ("end", 0)
    for how in (sig.emit, sig.emit_fast):
        h.calls.clear()
        how(("end", 0))
        got = Counter(c[4] for c in h.calls)
        for n in set(expected) | set(got):
            lo, hi = bounds.get(n, (expected[n], expected[n]))
            if not lo <= got[n] <= hi:
                ctx.fail(f"after all threads have finished, {n} is connected {got[n]} times, expected {lo if lo == hi else (lo, hi)}; operations: {h.ops.get(n)}")
        ps = [prio[c[4]] for c in h.calls]
        ctx.check(ps == sorted(ps, reverse=True), lambda: f"priorities in the order of calls: {ps}")
    ctx.eq(len(sig), sum(got.values()), "len(signal) after all threads have finished")


def make_sigs(case, coop):
    def make():
        if coop:
            with sched.patched_locks():
                return {"sig": SignalInstance((object,), reemission=case["mode"])}
        return {"sig": SignalInstance((object,), reemission=case["mode"])}

    return make


def run_schedules(case, ctx):
    s = sched.from_case(case["sched"])
    run_history(case, ctx, s, make_sigs(case, True))
    ctx.count("switches", len(s.switches))
    if s.free:
        ctx.count("free_running")
    if len(s.switches) > 1:
        ctx.nontrivial(tuple(s.switches))


def run_stress(case, ctx):
    old = sys.getswitchinterval()
    sys.setswitchinterval(case["interval"])
    try:
        h = run_history(case, ctx, Free(), make_sigs(case, False))
    finally:
        sys.setswitchinterval(old)
    ctx.count("stress_calls", sum(1 for _ in h.emissions) * len(case["permanent"]))
    ctx.nontrivial()


def gen_case(rng, n, length):
    permanent = [[f"p{k}", rng.choice(["func", "method"]), rng.choice([0, 0, 1, -1])] for k in range(rng.randint(1, 4))]
    toggled = []
    owner_of = {}
    for i in range(n):
        for k in range(rng.choice([0, 1, 1, 2])):
            nm = f"t{i}{k}"
            toggled.append([nm, rng.choice(["func", "method", "setattr", "setitem"]), rng.choice([0, 0, 1, -1, 2])])
            owner_of.setdefault(i, []).append(nm)
    shared = [[f"s{k}", "func"] for k in range(rng.choice([0, 1, 1, 2]))]
    shared_mode = {x[0]: rng.choice(["unique", "unique", "raise", "mixed", "multi"]) for x in shared}
    for x in shared:
        if shared_mode[x[0]] == "multi":
            x[1] = rng.choice(["func", "setattr", "setitem"])
    initial = [t[0] for t in toggled if rng.random() < 0.5]
    progs = []
    emits = rng.choice([0.3, 0.6])
    # (owners that die while another thread connects or disconnects: see the known finding)
    killer = rng.randrange(n) if rng.random() < 0.25 else None
    killed = set()
    for i in range(n):
        p = []
        state = {t: t in initial for t in owner_of.get(i, [])}
        for _ in range(rng.randint(1, length)):
            x = rng.random()
            if x < emits or (not state and not shared) or (killer not in (i, None)):
                p.append(["emit"])
            elif shared and (x < emits + 0.2 or not state):
                t = rng.choice(shared)[0]
                m = shared_mode[t]
                p.append([{"unique": "unique", "raise": "unique_raise", "mixed": rng.choice(["unique", "unique", "disconnect"]), "multi": rng.choice(["connect", "connect", "disconnect"])}[m], t])
            elif x > 0.97:
                p.append(["contains"])
            else:
                t = rng.choice(list(state))
                if t in killed:
                    continue
                if i == killer and rng.random() < 0.6 and dict((a, b) for a, b, c in toggled)[t] == "method":
                    killed.add(t)
                    p.append(["kill", t])
                    continue
                p.append(["disconnect" if state[t] else "connect", t])
                state[t] = not state[t]
        progs.append(p)
    raising, nested = [], []
    if rng.random() < 0.35:
        raising = [[rng.randrange(n), rng.randint(1, length)] for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.35:
        nested = [[rng.randrange(n), rng.randint(1, length)] for _ in range(rng.randint(1, 6))]
        raising += [[*x, "n"] for x in nested if rng.random() < 0.2] if raising else []
    return {
        "mode": rng.choice(["immediate", "immediate", "queued", "latest-only"]), "permanent": permanent, "toggled": toggled, "shared": shared, "initial": initial,
        "progs": progs, "raising": raising, "nested": nested,
    }


def gen_schedules(rng, i, tier):
    return {**gen_case(rng, rng.randint(2, 4), rng.randint(1, 6)), "sched": sched.random_sched(rng)}


def gen_stress(rng, i, tier):
    return {**gen_case(rng, rng.randint(3, 6), 100), "interval": rng.choice([1e-6, 1e-5, 1e-4])}


# ---------------------------------------------------------------- groups: members emitted by several threads


def run_groups(case, ctx):
    G = type("G", (SignalGroup,), {f"m{k}": Signal(object) for k in range(3)})
    if case["sched"] is not None:
        with sched.patched_locks():
            g = G()
        s = sched.from_case(case["sched"])
    else:
        g, s = G(), Free()
    infos, own = [], []
    # (listeners that do not emit, so that no two locks are ever taken in different orders)
    g.connect(lambda info: infos.append((info.signal.name, info.args[0], threading.get_ident(), 0)))
    g.connect(lambda info: infos.append((info.signal.name, info.args[0], threading.get_ident(), 1)))
    for k in range(3):
        g[f"m{k}"].connect(lambda v, k=k: own.append((f"m{k}", v)))
    toggles = []
    emitted = []
    ids = {}

    def body(i):
        def run():
            ids[i] = threading.get_ident()
            n = 0
            for op in case["progs"][i]:
                if op[0] == "emit":
                    n += 1
                    emitted.append((f"m{op[1]}", (i, n)))
                    g[f"m{op[1]}"].emit((i, n))
                else:
                    f = lambda info: toggles.append(0)  # noqa: E731
                    g.connect(f, priority=op[1])
                    g[f"m{op[2]}"].connect(f, unique=True)
                    g.all.disconnect(f)

        return run

    s.prepare([body(i) for i in range(len(case["progs"]))])
    s.run()
    if hasattr(s, "switches"):
        ctx.count("switches", len(s.switches))
        ctx.nontrivial(tuple(s.switches)) if s.switches else None
    else:
        ctx.nontrivial()
    ctx.count("group_infos", len(infos))
    for slot in (0, 1):
        got = Counter((n, v) for n, v, th, k in infos if k == slot)
        want = Counter(emitted)
        if got != want:
            ctx.fail(f"listener {slot} of the group: missing {list((want - got).elements())[:5]}, too many or wrong {list((got - want).elements())[:5]}")
    ctx.eq(Counter(own), Counter(emitted), "calls of the members' own callbacks")
    for n, v, th, k in infos:
        ctx.check(th == ids[v[0]], "listener was called in another thread than the one that emitted")
    # two listeners: emissions of the relay do not overlap
    for a, b in zip(infos[::2], infos[1::2]):
        ctx.check(a[:3] == b[:3] and (a[3], b[3]) == (0, 1), lambda: f"calls of the two group listeners overlap with those of another emission: {a}, {b}")
    for k in range(3):
        last = {}
        for n, v, th, slot in infos:
            if n == f"m{k}" and slot == 0:
                ctx.check(v[1] > last.get(v[0], 0), "order of the emissions of one thread")
                last[v[0]] = v[1]
    ctx.eq(len(g.all), 2, "connections of the group")


def gen_groups(rng, i, tier):
    n = rng.randint(2, 4)
    free = rng.random() < 0.1
    length = 60 if free else 5
    progs = [[["emit", rng.randrange(3)] if rng.random() < 0.8 else ["toggle", rng.choice([0, -1]), rng.randrange(3)] for _ in range(rng.randint(1, length))] for _ in range(n)]
    return {"progs": progs, "sched": None if free else sched.random_sched(rng)}


# ---------------------------------------------------------------- churn: many connects and disconnects at the same time


def run_churn(case, ctx):
    s = sched.from_case(case["sched"])
    clock = itertools.count()
    with sched.patched_locks():
        if case["target"] == "group":
            g = type("G", (SignalGroup,), {"a": Signal(object), "b": Signal(object)})()
            sig, emit = g.all, lambda v: g.a.emit(v)
        else:
            sig = SignalInstance((object,), reemission=case["mode"])
            emit = sig.emit
    called = []
    make, ops, state = {}, {}, {}
    owners = []
    for name, kind, p in case["callbacks"]:

        def f(v, name=name):
            called.append(name)

        if kind == "method":
            o = type("O", (), {"m": lambda self, v, f=f: f(v)})()
            owners.append(o)
            how = (lambda o=o, p=p, **kw: sig.connect(o.m, priority=p, **kw)), (lambda o=o, **kw: sig.disconnect(o.m, **kw)), (lambda o=o: o.m in sig)
        elif kind == "setattr":
            o = type("O", (), {"x": property(lambda self: 0, lambda self, v, f=f: f(v))})()
            owners.append(o)
            how = (lambda o=o, p=p: sig.connect_setattr(o, "x", priority=p)), (lambda o=o, **kw: sig.disconnect_setattr(o, "x", **kw)), None
        elif kind == "setitem":
            o = type("O", (), {"__setitem__": lambda self, k, v, f=f: f(v)})()
            owners.append(o)
            how = (lambda o=o, p=p: sig.connect_setitem(o, "k", priority=p)), (lambda o=o, **kw: sig.disconnect_setitem(o, "k", **kw)), None
        else:
            how = (lambda f=f, p=p, **kw: sig.connect(f, priority=p, **kw)), (lambda f=f, **kw: sig.disconnect(f, **kw)), (lambda f=f: f in sig)
        make[name] = how
        state[name] = False
        if name in case["initial"]:
            how[0]()
            state[name] = True
        ops[name] = (-2, -1, state[name])
    prio = {n: p for n, k, p in case["callbacks"]}
    clears = []
    clearing = any(op[0] == "clear" for p in case["progs"] for op in p)
    bad = []

    def body(i):
        def run():
            for op in case["progs"][i]:
                n = op[1]
                t0 = next(clock)
                if op[0] == "toggle":
                    con, dis, _ = make[n]
                    if state[n]:
                        try:
                            dis(missing_ok=False)
                        except ValueError:
                            if not clearing:
                                bad.append(f"disconnect({n}) raised ValueError, although {n} was connected")
                    else:
                        con()
                    state[n] = not state[n]
                    ops[n] = (t0, next(clock), state[n])
                elif op[0] == "again" and make[n][2]:
                    # (connecting what is connected already, with unique: nothing changes)
                    if state[n]:
                        make[n][0](unique=True)
                elif op[0] == "missing":
                    if not state[n]:
                        try:
                            make[n][1](missing_ok=False)
                            bad.append(f"disconnect({n}, missing_ok=False) did not raise, although {n} was not connected")
                        except ValueError:
                            make[n][1]()
                elif op[0] == "contains" and make[n][2]:
                    r = make[n][2]()
                    if r is not state[n] and not (clearing and not r):
                        bad.append(f"{n} in signal: {r}, although it {'is' if state[n] else 'is not'} connected")
                elif op[0] == "len":
                    if not 0 <= len(sig) <= len(make):
                        bad.append(f"len(signal) is {len(sig)} with at most {len(make)} callbacks connected")
                elif op[0] == "clear":
                    sig.disconnect()
                    clears.append((t0, next(clock)))

        return run

    if clearing:
        # (connecting again what a clear() may have removed would connect it)
        case = {**case, "progs": [[op for op in p if op[0] != "again"] for p in case["progs"]]}
    s.prepare([body(i) for i in range(len(case["progs"]))])
    s.run()
    ctx.count("churn_ops", sum(map(len, case["progs"])))
    ctx.count("switches", len(s.switches))
    if bad:
        ctx.fail("; ".join(bad[:3]))
    emit("x")
    got = Counter(called)
    for n, (a, b, on) in ops.items():
        if on and any(d > a for c, d in clears):
            lo = 0 if any(d > a for c, d in clears) else 1
            hi = 0 if any(c > b for c, d in clears) else 1
        else:
            lo = hi = int(on)
        ctx.count("churn_definite", lo == hi)
        if not lo <= got[n] <= hi:
            ctx.fail(f"after all threads have finished, {n} is connected {got[n]} times, expected {lo if lo == hi else (lo, hi)}")
    ctx.eq(len(sig), len(called), "len(signal) after all threads have finished")
    ps = [prio[n] for n in called]
    ctx.check(ps == sorted(ps, reverse=True), lambda: f"priorities in the order of calls: {ps}")
    for n, (con, dis, has) in make.items():
        for _ in range(got[n]):
            dis(missing_ok=False)
    ctx.eq(len(sig), 0, "len(signal) after disconnecting everything")
    if s.free:
        ctx.count("free_running")
    if len(s.switches) > 1:
        ctx.nontrivial(tuple(s.switches))


def gen_churn(rng, i, tier):
    n = rng.randint(2, 4)
    cbs, initial, progs = [], [], []
    clearing = rng.random() < 0.2
    for t in range(n):
        own = [[f"t{t}{k}", rng.choice(["func", "func", "method", "setattr", "setitem"]), rng.choice([0, 0, 0, 1, -1])] for k in range(rng.randint(1, 3))]
        cbs += own
        initial += [c[0] for c in own if rng.random() < 0.6]
        progs.append(
            [[rng.choice(["toggle"] * 6 + ["again", "missing", "contains", "contains", "len"]), rng.choice(own)[0]] for _ in range(rng.randint(1, 5))]
        )
        if clearing and rng.random() < 0.5:
            progs[-1].insert(rng.randint(0, len(progs[-1])), ["clear", own[0][0]])
    rng.shuffle(cbs)
    rng.shuffle(initial)
    return {
        "target": rng.choice(["signal", "signal", "signal", "group"]), "mode": rng.choice(["immediate", "queued", "latest-only"]),
        "callbacks": cbs, "initial": initial, "progs": progs, "sched": sched.random_sched(rng),
    }


# ---------------------------------------------------------------- known finding


def kf_owner_dies_during_disconnect():
    """The owner of an earlier callback dies at some point of disconnect()."""
    for k in range(1, 400):
        o = type("O", (), {"m": lambda self, v: None})()
        hold = [o]
        sig = SignalInstance((object,))
        fs = [lambda v: None, lambda v: None, lambda v: None]
        sig.connect(o.m)
        for f in fs:
            sig.connect(f)
        del o
        n = 0

        def trace(frame, event, arg):
            nonlocal n
            if not frame.f_code.co_filename.startswith(PKG_DIR):
                return None
            n += 1
            if n == k:
                hold.clear()
            return trace

        err = None
        old = sys.gettrace()
        sys.settrace(trace)
        try:
            sig.disconnect(fs[0])
        except Exception as e:
            err = e
        finally:
            sys.settrace(old)
        if err is not None or fs[0] in sig or fs[1] not in sig or fs[2] not in sig or (hold == [] and len(sig) != 2):
            return (
                "an owner that dies (in another thread, or in a garbage collection) while disconnect() is running "
                f"makes it disconnect another callback, or fail, or leaves the dead one connected (error: {err!r})"
            )
        if hold:
            break
    return None


FINDINGS = {"owner-dies-during-disconnect": kf_owner_dies_during_disconnect}

WORKLOADS = [
    Workload("schedules", gen_schedules, run_schedules, quick=3500, thorough=100000, shrink=("progs", "raising", "nested", "permanent", "initial")),
    Workload("groups", gen_groups, run_groups, quick=700, thorough=15000, shrink=("progs",)),
    Workload("churn", gen_churn, run_churn, quick=6000, thorough=120000, shrink=("progs",)),
    Workload("stress", gen_stress, run_stress, quick=60, thorough=1500, shrink=(), procs=4),
]
