"""C24: throttled and debounced functions."""
import random
import threading
import time

from vh import sched, vtimer

M = vtimer.install()

from psygnal import SignalInstance, debounced, throttled  # noqa: E402
from vh.core import Inconclusive, Violation, Workload, attempt  # noqa: E402

Throttler, Debouncer = M.Throttler, M.Debouncer

PROP = "C24"
TECHNIQUE = "runtime monitoring: the real code on a virtual clock (timers fire exactly, late, or after having been cancelled too late), offline checkers of the log of calls, runs, flushes and cancels; controlled thread interleavings; real-time stress"
RULE = (
    "histories: random sequences of calls, pauses, flushes and cancels with functions that raise, take time, call, flush or cancel in turn, for both policies, directly and as callback of a signal, "
    "with punctual timers (exact times required) or an adversary that delays expired timers past later operations; races: the same operations and the clock in 2-4 threads, interleaved at "
    "random lines/opcodes; zero: an interval of 0; realtime: real timers and threads; non-trivial: at least one call was superseded and one run came from a timer, distinct by case"
)
REQUIRE = {"calls": 20000, "runs": 10000, "timer_runs": 5000, "immediate": 1000, "superseded": 3000, "flushed": 300, "cancelled_pending": 300, "late_fires": 500, "race_runs": 300, "race_switches": 2000, "realtime_runs": 50, "zero_runs": 500}
ASSUMPTIONS = [
    "a timer is never early; cancelling a timer that has expired has no effect (as threading.Timer)",
    "cancel() while the function is running: only safety is judged until things have settled",
    "concurrent operations may take effect in any order",
]
EPS = 1e-6


class Boom(Exception):
    pass


def make(case, f):
    kind, leading, ms, how = case["kind"], case["leading"], case["ms"], case["how"]
    deco, cls = (throttled, Throttler) if kind == "throttle" else (debounced, Debouncer)
    if how == "default":
        return deco(f)
    if how == "class":
        return cls(f, ms, "leading" if leading else "trailing")
    if how == "class_kw":
        return cls(f, interval=ms, policy="leading" if leading else "trailing")
    if how == "deco":
        return deco(timeout=ms, leading=leading)(f)
    return deco(f, ms, leading) if how == "pos" else deco(f, timeout=ms, leading=leading)


class Log:
    """What happened, on the virtual clock."""

    def __init__(self, clock):
        self.clock = clock
        self.seq = 0
        self.calls = []  # dicts: id, t, seq, end_seq, depth
        self.runs = []  # dicts: id, t, seq, end_t, end_seq, op
        self.ops = []  # dicts: kind, t, seq, end_seq ...

    def tick(self):
        self.seq += 1
        return self.seq


def run_history(case, ctx):
    with vtimer.Clock() as clock:
        _history(case, ctx, clock)


def _history(case, ctx, clock):
    T = case["ms"] / 1000
    late = case["late"]
    rng = random.Random(case["late_seed"])
    log = Log(clock)
    behaviours = case["behaviours"]
    stack = []  # operations in progress: dicts with kind
    expired = []  # timers that have expired, but whose function has not been called yet
    budget = [40]

    def f(i, *, key=None):
        op = stack[-1]
        r = {"id": i, "key": key, "t": clock.now, "seq": log.tick(), "op": op, "end_t": None, "end_seq": None, "in_run": any(o.get("running") for o in stack[:-1])}
        log.runs.append(r)
        ctx.count("runs")
        if op["kind"] == "fire":
            ctx.count("timer_runs")
        n = len(log.runs) - 1
        op["running"] = op.get("running", 0) + 1
        try:
            for b in behaviours[n % len(behaviours)] if behaviours else []:
                if b[0] == "raise":
                    raise Boom
                if budget[0] > 0:
                    budget[0] -= 1
                    step(b)
        finally:
            op["running"] -= 1
            r["end_t"], r["end_seq"] = clock.now, log.tick()

    th = make(case, f)
    if clock.created == 0 and getattr(th, "_timer", th) is None:  # pragma: no cover
        raise Inconclusive("no timers used")
    sig = None
    if case["signal"]:
        sig = SignalInstance((int,))
        sig.connect(th, check_nargs=case["signal"] == 1)
    ids = [0]

    def fire(t):
        op = {"kind": "fire", "t": clock.now, "seq": log.tick()}
        log.ops.append(op)

        def target():
            try:
                t.run_now()
            except Boom:
                pass
            except BaseException as e:
                op["exc"] = e

        stack.append(op)
        th_ = threading.Thread(target=target, daemon=True)
        th_.start()
        th_.join(20)
        stack.pop()
        op["end_seq"] = log.tick()
        ctx.check(not th_.is_alive(), "the timer blocks (deadlock)")
        if "exc" in op:
            raise op["exc"]

    def advance(dt):
        until = clock.now + dt
        while True:
            t = clock.due(until)
            if t is None:
                break
            clock.now = max(clock.now, t.deadline)
            if late and rng.random() < late:
                ctx.count("late_fires")
                expired.append(t)
            else:
                fire(t)
        clock.now = max(clock.now, until)
        while expired and (not late or rng.random() < 0.4):
            fire(expired.pop(rng.randrange(len(expired))))

    def step(s):
        kind = s[0]
        if kind == "wait":
            advance(s[1] * T)
            return
        op = {"kind": kind, "t": clock.now, "seq": log.tick(), "depth": len(stack), "in_run": any(o.get("running") for o in stack)}
        log.ops.append(op)
        stack.append(op)
        try:
            if kind == "call":
                ids[0] += 1
                op["id"] = i = ids[0]
                via = sig is not None and not op["in_run"]  # (an emission blocks other threads' emissions)
                op["key"] = key = i if s[1] and not via else None
                log.calls.append(op)
                ctx.count("calls")
                if via:
                    r = attempt(sig.emit, i)
                else:
                    r = attempt(th, i, key=key) if key else attempt(th, i)
                e = r.exc
                ctx.check(r.ok or isinstance(e, Boom) or isinstance(e.__cause__, Boom), lambda: f"call: {r}")
            elif kind == "flush":
                r = attempt(th.flush)
                ctx.check(r.ok or isinstance(r.exc, Boom), lambda: f"flush: {r}")
            elif kind == "cancel":
                r = attempt(th.cancel)
                ctx.check(r.ok, lambda: f"cancel: {r}")
        finally:
            stack.pop()
            op["end_seq"], op["end_t"] = log.tick(), clock.now

    for s in case["ops"]:
        step(s)
    # let things settle
    late = 0
    behaviours = []
    for _ in range(12):
        advance(1.05 * T)
    while expired:
        fire(expired.pop())
    for _ in range(4):
        advance(1.05 * T)
    ctx.check(not clock.timers, "timers keep running")
    check_history(case, ctx, log, T)


def check_history(case, ctx, log, T):
    throttle = case["kind"] == "throttle"
    leading, late = case["leading"], case["late"]
    calls, runs = log.calls, log.runs
    byid = {c["id"]: c for c in calls}
    cancels = [o for o in log.ops if o["kind"] == "cancel"]
    flushes = [o for o in log.ops if o["kind"] == "flush"]

    def show():
        ev = [(c["seq"], f"{c['t'] / T:.2f}:call {c['id']}") for c in calls]
        ev += [(r["seq"], f"{r['t'] / T:.2f}:run {r['id']} ({r['op']['kind']})") for r in runs]
        ev += [(o["seq"], f"{o['t'] / T:.2f}:{o['kind']}") for o in cancels + flushes]
        return "; ".join(x for _, x in sorted(ev)) + " (times in intervals)"

    def ck(cond, msg):
        ctx.check(cond, lambda: f"{case['kind']} {'leading' if leading else 'trailing'}: {msg() if callable(msg) else msg}: {show()}")

    # --- what runs: the latest call, each at most once, not after having been cancelled
    done = set()
    for r in runs:
        ck(r["id"] in byid, lambda: f"ran with {r['id']}, which was not passed")
        ck(r["key"] == byid[r["id"]]["key"], lambda: f"ran with other keyword arguments than {r['id']}")
        ck(r["id"] not in done, lambda: f"call {r['id']} was run twice")
        done.add(r["id"])
        last = max(c["id"] for c in calls if c["seq"] < r["seq"])
        ck(r["id"] == last, lambda: f"run with {r['id']} instead of the last arguments {last}")
        for x in cancels:
            ck(not (byid[r["id"]]["seq"] < x["seq"] and x["end_seq"] < r["seq"]), lambda: f"call {r['id']} ran although it was cancelled")
    ran = {r["id"]: r for r in runs}

    def pending_at(seq):
        """The latest call before seq, unless executed or cancelled by then."""
        cs = [c for c in calls if c["seq"] < seq]
        if not cs:
            return None
        c = cs[-1]
        if c["id"] in ran and ran[c["id"]]["seq"] < seq:
            return None
        if any(c["seq"] < x["seq"] < seq for x in cancels):
            return None
        return c

    # --- flush
    for x in flushes:
        p = pending_at(x["seq"])
        mine = [r for r in runs if r["op"] is x]
        if p is None:
            ck(not mine, lambda: f"flush ran {mine[0]['id']}, nothing was pending")
        else:
            ctx.count("flushed")
            ck(len(mine) == 1 and mine[0]["id"] == p["id"], lambda: f"flush ran {[r['id'] for r in mine]}, {p['id']} was pending")
    for x in cancels:
        ck(not [r for r in runs if r["op"] is x], "cancel ran the function")
        if pending_at(x["seq"]):
            ctx.count("cancelled_pending")

    # --- no loss
    if calls:
        c = calls[-1]
        if not any(x["seq"] > c["seq"] for x in cancels):
            ck(c["id"] in ran, lambda: f"the last call {c['id']} was lost")
    in_run_cancels = [x for x in cancels if x["in_run"]]

    def settled(t):
        """No cancel during a run whose effects last until t."""
        return not any(x["t"] <= t for x in in_run_cancels)

    def starts_first(c):
        """Whether c is certainly a first call."""
        prev = [o for o in (calls + runs + flushes) if o["seq"] < c["seq"]]
        canc = [x for x in cancels if x["end_seq"] < c["seq"]]
        if c["in_run"] or not settled(c["t"]):
            return False
        if not [o for o in prev if o in calls or o in runs]:
            return True
        if canc and not [o for o in prev if (o in calls or o in runs) and o["seq"] > canc[-1]["seq"]]:
            return True
        if late:
            return False
        lastt = max(max(o["t"], o.get("end_t") or 0) for o in prev)
        return c["t"] > lastt + T + EPS

    def not_first(c):
        """Whether c is certainly no first call."""
        prev = [o for o in (calls if not throttle else runs) if o["seq"] < c["seq"] and o["t"] > c["t"] - T + EPS]
        return prev and not any(x["seq"] < c["seq"] and x["end_seq"] > min(o["seq"] for o in prev[-1:]) for x in cancels)

    for c in calls:
        mine = [r for r in runs if r["op"] is c]
        ck(len(mine) <= 1 and all(r["id"] == c["id"] for r in mine), lambda: f"call {c['id']} ran {[r['id'] for r in mine]}")
        first = starts_first(c)
        if first and leading:
            ctx.count("immediate")
            ck(mine, lambda: f"the first call {c['id']} was not run immediately")
        if not leading:
            ck(not mine, lambda: f"call {c['id']} was run immediately")
        elif not_first(c) and settled(c["t"]):
            ck(not mine, lambda: f"call {c['id']} was run immediately, although it was not the first one")
        if late or not settled(c["t"]):
            continue
        # --- deadlines
        nxt = [x["t"] for x in cancels if x["seq"] > c["seq"]]
        stop = min(nxt, default=1e9)
        if mine:
            continue
        if throttle:
            deadline = c["t"] + T
            busy = [r for r in runs if r["t"] <= deadline + EPS and r["end_t"] >= c["t"]]
            if busy:
                deadline = max(r["end_t"] for r in busy) + T
            after = [r for r in runs if r["seq"] > c["seq"]]
            if stop > deadline + EPS:
                ck(after and after[0]["t"] <= deadline + EPS, lambda: f"call {c['id']} was not followed by a run within the interval")
            if first and not leading and stop > deadline + EPS and not [x for x in flushes if x["seq"] > c["seq"] and x["t"] <= c["t"] + T + EPS]:
                ck(after and abs(after[0]["t"] - (c["t"] + T)) < EPS, lambda: f"the first call {c['id']} was not followed by a run after the interval")
        else:
            later = [d["t"] for d in calls if d["seq"] > c["seq"]]
            quiet_until = min(later, default=1e9)
            deadline = c["t"] + T
            busy = [r for r in runs if r["t"] <= deadline + EPS and r["end_t"] >= c["t"]]
            if busy:
                deadline = max(r["end_t"] for r in busy) + T
            if stop > deadline + EPS and quiet_until > deadline + EPS:
                r = ran.get(c["id"])
                ck(r is not None and r["t"] <= deadline + EPS, lambda: f"call {c['id']} was not run within the interval")
    # --- rate
    for a, b in zip(runs, runs[1:]):
        if throttle and b["op"]["kind"] != "flush":
            if not any(a["seq"] < x["seq"] < b["seq"] or (a["seq"] < x["end_seq"] < b["seq"]) for x in cancels):
                ck(b["t"] - a["t"] >= T - EPS, lambda: f"runs {a['id']} and {b['id']} within one interval")
    if throttle and not leading:
        # not before the interval since the first call
        for r in runs:
            if r["op"]["kind"] == "fire":
                prev = [x for x in runs if x["seq"] < r["seq"]]
                canc = [x["seq"] for x in cancels if x["end_seq"] < r["seq"]]
                since = max([x["end_seq"] for x in prev] + canc + [0])
                if not prev or (canc and max(canc) > max(x["seq"] for x in prev) and not in_run_cancels):
                    cs = [c for c in calls if since < c["seq"] < r["seq"]]
                    if cs:
                        ck(r["t"] >= cs[0]["t"] + T - EPS, lambda: f"{r['id']} ran before the interval after the first call")
    if not throttle:
        for r in runs:
            k = r["op"]["kind"]
            if k == "fire":
                c = [c for c in calls if c["seq"] < r["op"]["seq"]]
                ck(c and r["t"] - c[-1]["t"] >= T - EPS, lambda: f"run {r['id']} although there was a call within the interval")
    superseded = len([c for c in calls if c["id"] not in ran])
    ctx.count("superseded", superseded)
    ck(len(runs) <= len(calls), "more runs than calls")
    if superseded and any(r["op"]["kind"] == "fire" for r in runs):
        ctx.nontrivial()


def base(rng):
    kind = rng.choice(["throttle", "debounce"])
    how = rng.choice(["class", "class_kw", "deco", "pos", "kw", "kw", "default"])
    leading = rng.random() < 0.5
    ms = rng.choice([1, 7, 10, 33, 50, 100, 100, 125, 250, 999, 1000, 2.5, 0.5])
    if how == "default":
        leading, ms = kind == "throttle", 100
    return {"kind": kind, "leading": leading, "ms": ms, "how": how}


def gen_history(rng, i, tier):
    def wait():
        return ["wait", rng.choice([0.1, 0.2, 0.3, 0.5, 0.5, 0.7, 0.9, 0.95, 1.0, 1.05, 1.5, 2.1, 3.3])]

    def op(w=0.42):
        x = rng.random()
        if x < w:
            return wait()
        if x < 0.86:
            return ["call", rng.random() < 0.3]
        return [rng.choice(["flush", "cancel"])]

    ops = [op() for _ in range(rng.randint(2, 25))]
    if rng.random() < 0.5:
        ops = [o for o in ops if o[0] not in ("cancel",) or rng.random() < 0.3]
    beh = []
    if rng.random() < 0.5:
        kinds = rng.choice([["raise"], ["wait"], ["call"], ["raise", "wait", "call"], ["flush", "call"], ["call", "wait", "flush", "cancel", "raise"]])
        for _ in range(rng.randint(1, 4)):
            b = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                k = rng.choice(kinds)
                b.append(wait() if k == "wait" else ["call", False] if k == "call" else [k])
            beh.append(b)
    signal = rng.choice([0, 0, 0, 1, 2])
    return {**base(rng), "late": rng.choice([0, 0, 0, 0.5, 0.9]), "late_seed": rng.randrange(10**6), "signal": signal, "ops": ops, "behaviours": beh}


# ------------------------------------------------------------------ interleaved threads


def run_races(case, ctx):
    with vtimer.Clock() as clock, sched.patched_locks():
        _races(case, ctx, clock)


def _races(case, ctx, clock):
    T = case["ms"] / 1000
    seq = [0]
    runs, ops = [], []
    cur = threading.local()

    def tick():
        seq[0] += 1
        return seq[0]

    raising = set(case["raising"])

    def f(i):
        n = len(runs)
        r = {"id": i, "t": clock.now, "seq": tick(), "op": cur.op}
        runs.append(r)
        ctx.count("race_runs")
        s.point("func")
        r["end_seq"] = tick()
        if n in raising:
            raise Boom

    th = make(case, f)
    ids = [0]

    def do(op):
        kind = op[0]
        if kind == "tick":
            # advance the clock and be the thread of the timers that expire
            clock.now += op[1] * T
            while (t := clock.due(clock.now)) is not None:
                s.point("timer")
                o = {"kind": "fire", "t": clock.now, "seq": tick()}
                cur.op = o
                ops.append(o)
                try:
                    t.run_now()
                except Boom:
                    pass
                o["end_seq"] = tick()
            return
        o = {"kind": kind, "t": clock.now}
        if kind == "call":
            ids[0] += 1
            o["id"] = ids[0]
        o["seq"] = tick()
        cur.op = o
        ops.append(o)
        r = attempt(th, o["id"]) if kind == "call" else attempt(getattr(th, kind))
        o["end_seq"] = tick()
        ctx.check(r.ok or isinstance(r.exc, Boom), lambda: f"{kind}: {r}")

    class Idle:
        @staticmethod
        def point(_):
            pass

    s = Idle
    for op in case["before"]:
        do(op)
    s = sched.from_case(case["sched"])
    s.run([lambda p=p: [do(op) for op in p] for p in case["threads"]])
    ctx.count("race_switches", len(s.switches))
    s = Idle
    raising = set()
    for _ in range(10):
        do(["tick", 1.05])
    ctx.check(not clock.timers, "timers keep running")

    calls = [o for o in ops if o["kind"] == "call"]
    cancels = [o for o in ops if o["kind"] == "cancel"]
    flushes = [o for o in ops if o["kind"] == "flush"]
    byid = {c["id"]: c for c in calls}
    throttle, leading = case["kind"] == "throttle", case["leading"]

    def show():
        ev = [(o["seq"], f"{o['t'] / T:.2f}:{o['kind']} {o.get('id', '')}") for o in ops]
        ev += [(o["end_seq"], f"/{o['kind']} {o.get('id', '')}") for o in ops]
        ev += [(r["seq"], f"{r['t'] / T:.2f}:run {r['id']} ({r['op']['kind']})") for r in runs]
        return "; ".join(x for _, x in sorted(ev)) + f"; switches {s_switches}"

    s_switches = []

    def ck(cond, msg):
        ctx.check(cond, lambda: f"{case['kind']} {'leading' if leading else 'trailing'}: {msg() if callable(msg) else msg}: {show()}")

    ran = {}
    for r in runs:
        ck(r["id"] in byid, lambda: f"ran with {r['id']}")
        ck(r["id"] not in ran, lambda: f"call {r['id']} was run twice")
        ran[r["id"]] = r
        ck(byid[r["id"]]["seq"] < r["seq"], lambda: f"{r['id']} ran before it was called")
        # superseded before the operation that ran it began
        c = byid[r["id"]]
        for d in calls:
            ck(not (c["end_seq"] < d["seq"] and d["end_seq"] < r["op"]["seq"]), lambda: f"ran {r['id']} although {d['id']} was called later")
        for x in cancels:
            ck(not (c["end_seq"] < x["seq"] and x["end_seq"] < r["op"]["seq"]), lambda: f"call {r['id']} ran although it was cancelled")
        if not throttle and r["op"]["kind"] == "fire":
            prev = [d for d in calls if d["end_seq"] < r["op"]["seq"]]
            ck(all(r["op"]["t"] - d["t"] >= T - EPS for d in prev), lambda: f"run {r['id']} although there was a call within the interval")
        if not leading:
            ck(r["op"]["kind"] != "call", lambda: f"call ran {r['id']} immediately")
    # nothing lost: some call that no other one follows was executed (or cancelled)
    if calls:
        def last(c):
            e = min(c["end_seq"], ran[c["id"]]["seq"]) if c["id"] in ran else c["end_seq"]
            return not any(d["seq"] > e for d in calls)

        if not any(x["end_seq"] > min(c["seq"] for c in calls if last(c)) for x in cancels if any(last(c) for c in calls)):
            ck(any(last(c) for c in calls if c["id"] in ran), "the last call was lost")
    if throttle and not flushes and not cancels:
        for a, b in zip(runs, runs[1:]):
            ck(b["t"] - a["t"] >= T - EPS, lambda: f"runs {a['id']} and {b['id']} within one interval")
    if len(runs) < len(calls) and s_switches is not None and any(r["op"]["kind"] == "fire" for r in runs):
        ctx.nontrivial()


def gen_races(rng, i, tier):
    b = base(rng)
    ops = ["call"] * 6 + ["tick"] * 4 + rng.choice([[], [], ["flush"], ["flush", "cancel"], ["cancel"]])

    def op():
        k = rng.choice(ops)
        return ["tick", rng.choice([0.1, 0.5, 1.0, 1.0, 1.05, 2])] if k == "tick" else [k]

    n = rng.choice([2, 2, 3, 4])
    threads = [[op() for _ in range(rng.randint(1, 5))] for _ in range(n)]
    before = [op() for _ in range(rng.choice([0, 1, 1, 2]))]
    return {**b, "before": before, "threads": threads, "raising": sorted(rng.sample(range(8), rng.choice([0, 0, 1, 3]))), "sched": sched.random_sched(rng)}


# ------------------------------------------------------------------ real time


def run_realtime(case, ctx):
    """Real timers and threads: only what no delay can excuse."""
    T = case["ms"] / 1000
    lock = threading.Lock()
    runs, calls = [], []
    prev_hook = threading.excepthook
    threading.excepthook = lambda a: None

    def f(i):
        with lock:
            runs.append((i, time.monotonic()))
            n = len(runs)
        if case["busy"]:
            time.sleep(T * case["busy"])
        if n in case["raising"]:
            raise Boom

    try:
        th = make(case, f)
        start = threading.Barrier(len(case["threads"]))

        def body(k, prog):
            start.wait()
            for j, s in enumerate(prog):
                if s[0] == "wait":
                    time.sleep(s[1] * T)
                elif s[0] == "call":
                    i = (k, j)
                    with lock:
                        calls.append(i)
                    attempt(th, i)
                else:
                    attempt(th.flush)

        ts = [threading.Thread(target=body, args=(k, p), daemon=True) for k, p in enumerate(case["threads"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(30)
        ctx.check(not any(t.is_alive() for t in ts), "a call blocks (deadlock)")
        final = ("final", 0)
        attempt(th, final)
        deadline = time.monotonic() + 20
        while time.monotonic() < deadline and not any(i == final for i, _ in runs):
            time.sleep(0.002)
        time.sleep(2.5 * T)
    finally:
        threading.excepthook = prev_hook
    with lock:
        rs = list(runs)
    ctx.count("realtime_runs", len(rs))
    ids = [i for i, _ in rs]
    ctx.check(ids and ids.count(final) == 1 and ids[-1] == final, lambda: f"runs {ids[-5:]}: the last call was lost or is not the last one")
    ctx.check(len(set(ids)) == len(ids) and set(ids) <= {*calls, final}, lambda: f"runs {ids}")
    if case["kind"] == "throttle" and not any(s[0] == "flush" for p in case["threads"] for s in p):
        for (a, t), (b, u) in zip(rs, rs[1:]):
            ctx.check(u - t >= T - 0.001, lambda: f"runs of {a} and {b} within {u - t} s, interval {T} s")
    if len(rs) > 2 and len(rs) < len(calls):
        ctx.nontrivial()


def gen_realtime(rng, i, tier):
    b = base(rng)
    b["ms"] = rng.choice([5, 10, 20])
    if b["how"] == "default":
        b["how"] = "kw"
    threads = []
    fl = rng.random() < 0.4
    for _ in range(rng.choice([1, 2, 4])):
        p = []
        for _ in range(rng.randint(3, 12)):
            x = rng.random()
            p.append(["wait", rng.choice([0.3, 0.9, 1.0, 1.1, 1.5])] if x < 0.4 else ["call"] if x < 0.95 or not fl else ["flush"])
        threads.append(p)
    return {**b, "threads": threads, "busy": rng.choice([0, 0, 0.5, 1.5]), "raising": sorted(rng.sample(range(1, 9), rng.choice([0, 0, 2])))}


def run_zero(case, ctx):
    """An interval of 0: whatever was called last is run as soon as the timers are."""
    with vtimer.Clock() as clock:
        got = []
        th = make(case, got.append)
        n = 0
        for batch in case["batches"]:
            before = len(got)
            first = n + 1
            for _ in range(batch):
                n += 1
                r = attempt(th, n)
                ctx.check(r.ok, lambda: f"call: {r}")
                if case["leading"]:
                    ctx.check(first in got, f"the first call {first} was not run immediately")
                else:
                    ctx.eq(len(got), before, "runs before any timer expired")
            for _ in range(20):
                t = clock.due(clock.now)
                if t is None:
                    break
                t.run_now()
            ctx.check(not clock.timers, lambda: f"timers that are due later: {[t.deadline - clock.now for t in clock.timers]}")
            if batch:
                ctx.eq(got[-1], n, "the last run, after the calls and the timers")
                ctx.count("zero_runs", len(got) - before)
            new = got[before:]
            ctx.check(new == sorted(set(new)) and all(first <= x <= n for x in new), lambda: f"runs {new} of the calls {first} to {n}")
            clock.now += 0.01
        ctx.nontrivial()


def gen_zero(rng, i, tier):
    return {"kind": rng.choice(["throttle", "debounce"]), "leading": rng.random() < 0.5, "ms": rng.choice([0, 0, 0.0]), "how": rng.choice(["class", "class_kw", "deco", "pos", "kw"]),
            "batches": [rng.choice([1, 1, 2, 3, 0, 5]) for _ in range(rng.randint(1, 8))]}


WORKLOADS = [
    Workload("zero", gen_zero, run_zero, quick=600, thorough=6000),
    Workload("histories", gen_history, run_history, quick=6000, thorough=120000, shrink=("ops", "behaviours")),
    Workload("races", gen_races, run_races, quick=10000, thorough=60000, shrink=("threads", "before")),
    Workload("realtime", gen_realtime, run_realtime, quick=160, thorough=3000, shrink=()),
]
