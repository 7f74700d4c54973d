"""C27: unbounded re-emission."""
import contextlib
import sys
import threading
import warnings
from dataclasses import dataclass
from functools import partial, reduce
from typing import ClassVar

import attrs

from psygnal import EventedModel, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance
from psygnal.containers import EventedDict, EventedList, EventedSet
from vh.core import Workload, attempt

PROP = "C27"
TECHNIQUE = "runtime monitoring: fault injection by exhausting the recursion limit at every possible frame (varying stack depths and limits); the logs of all later emissions are compared with an executable model"
RULE = (
    "random graphs of signals (all re-emission strategies, group members and groups, emit, calls, emit_fast) and callbacks (functions, methods, partials, callable objects, setattr, through map, sorted, "
    "reduce, generators, with/finally) with a reachable cycle, started at random stack depths, recursion limits and threads; evented classes and containers that change themselves without end; afterwards "
    "all are emitted again (also from another thread, also re-entrantly); non-trivial: RecursionError after more than 10 calls, distinct by case"
)
REQUIRE = {"recursions": 5000, "calls": 200000, "later_emissions": 10000, "cross_signal": 1500, "fast": 500, "mode_immediate": 500, "mode_queued": 500, "mode_latest-only": 500, "groups": 500, "threads": 300, "python_limit": 1000, "psygnal_limit": 500, "carriers": 500, "distinct_depths": 100}
ASSUMPTIONS = ["callbacks do not catch RecursionError", "it is a callback that exhausts the stack of the interpreter (the callbacks use 60 frames, the limit leaves at least 150)"]

MODES = ["immediate", "queued", "latest-only"]
MAX_CALLS = 2_000_000


HEADROOM = 60


def need_stack(k):
    """Use some frames, more than there are between two callbacks.

    So it's always a callback that exhausts the stack: what psygnal does meanwhile (and how many
    functions it uses for that) doesn't matter.
    """
    if k:
        need_stack(k - 1)


class World:
    def __init__(self, case):
        self.active = True
        self.log = []
        self.calls = 0
        self.case = case
        self.extra = ("x",) * (case["nargs"] - 1)

    def emitter(self, s, how):
        f = {"emit": s.emit, "call": s, "fast": s.emit_fast}[how]
        return (lambda v: f(v, *self.extra)) if self.extra else f


class TooMany(BaseException):
    pass


def body(w, name, cb, v):
    if not w.active:
        w.log.append((name, v, id(Signal.current_emitter())))
        return
    w.calls += 1
    if w.calls > MAX_CALLS:
        raise TooMany
    need_stack(HEADROOM)
    down(w, cb, v, cb["frames"])


def down(w, cb, v, k):
    if k:
        return down(w, cb, v, k - 1)
    for t, how in cb["edges"]:
        s = w.sigs[t % len(w.sigs)]
        f = w.emitter(s, how)
        wrap = cb["wrap"]
        v += w.case["step"] - 1  # (or emit the same arguments again and again)
        if wrap == "map":
            list(map(f, [v + 1]))
        elif wrap == "sorted":
            sorted([v + 1], key=f)
        elif wrap == "reduce":
            reduce(lambda a, b: f(b), [v, v + 1])
        elif wrap == "gen":
            list(f(x) for x in [v + 1])
        elif wrap == "finally":
            try:
                f(v + 1)
            finally:
                w.calls += 0
        elif wrap == "with":
            with contextlib.suppress(ValueError):
                f(v + 1)
        elif wrap == "reraise":
            try:
                f(v + 1)
            except Exception:
                raise
        else:
            f(v + 1)


class Obj:
    def __init__(self, f):
        object.__setattr__(self, "f", f)

    def meth(self, *v):
        self.f(v[0])

    def __call__(self, *v):
        self.f(v[0])

    def __setattr__(self, n, v):
        self.f(v)

    def __setitem__(self, k, v):
        self.f(v)

    attr = None


def connect(w, s, name, cb, keep, info=False):
    kind = cb["kind"]
    if info:
        f = lambda i: body(w, name, cb, i.args[0])  # noqa: E731
        s.connect(f, priority=cb["prio"])
        return
    if w.case["one_arg"]:
        f = lambda v: body(w, name, cb, v)  # noqa: E731
    else:
        f = lambda v, *extra: body(w, name, cb, v)  # noqa: E731
    o = Obj(f)
    keep.append(o)
    if kind == "func":
        s.connect(f, priority=cb["prio"])
    elif kind == "method":
        s.connect(o.meth, priority=cb["prio"])
    elif kind == "object":
        s.connect(o, priority=cb["prio"])
    elif kind == "partial":
        s.connect(partial(lambda w_, v, *extra: body(w_, name, cb, v), w), priority=cb["prio"])
    elif kind == "setattr":
        s.connect_setattr(o, "attr", maxargs=1, priority=cb["prio"])
    elif kind == "setitem":
        s.connect_setitem(o, "k", maxargs=1, priority=cb["prio"])


def deeper(k, f):
    return deeper(k - 1, f) if k else f()


def limited(n, f):
    """Run f with only n frames left (or with the default limit)."""
    if n is None:
        return f()
    depth, fr = 0, sys._getframe()
    while fr:
        depth, fr = depth + 1, fr.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + n)
    try:
        return f()
    finally:
        sys.setrecursionlimit(old)


def in_thread(f, ctx, what):
    box = []
    t = threading.Thread(target=lambda: box.append(attempt(f)), daemon=True)
    t.start()
    t.join(20)
    ctx.check(box, f"{what} hangs in another thread")
    return box[0]


def run_graph(case, ctx):
    w = World(case)
    keep = []
    n = len(case["signals"])
    names = [f"s{i}" for i in range(n)]
    types = (int,) * case["nargs"]
    ns = {nm: Signal(*types, reemission=sp["mode"]) for nm, sp in zip(names, case["signals"]) if sp["via"] == "descriptor"}
    owner = type("Owner", (), ns)()
    grp = type("G27", (SignalGroup,), {nm: Signal(*types, reemission=sp["mode"]) for nm, sp in zip(names, case["signals"]) if sp["via"] == "group"})() if any(sp["via"] == "group" for sp in case["signals"]) else None
    w.sigs = []
    for nm, sp in zip(names, case["signals"]):
        if sp["via"] == "instance":
            s = SignalInstance(types, name=nm, reemission=sp["mode"])
        elif sp["via"] == "group":
            s = grp[nm]
        else:
            s = getattr(owner, nm)
        w.sigs.append(s)
    order = []
    for i, sp in enumerate(case["signals"]):
        # (the relay of the group is connected before the member's own callbacks, or after)
        for j, cb in enumerate(sp["cbs"]):
            order.append((i, j, cb))
    relay_first = case["relay_first"]

    def connect_group():
        for j, cb in enumerate(case["group_cbs"]):
            connect(w, grp.all, ("g", j), cb, keep, info=True)

    if grp is not None and relay_first:
        connect_group()
    for i, j, cb in order:
        connect(w, w.sigs[i], (i, j), cb, keep)
    if grp is not None and not relay_first:
        connect_group()

    def expected(i, v):
        """Log of one emission of signal i."""
        sp = case["signals"][i]
        me = id(w.sigs[i])
        rows = [(-cb["prio"], 1, ((i, j), v, me)) for j, cb in enumerate(sp["cbs"])]
        rows.sort(key=lambda r: r[:2])
        rows = [r[2] for r in rows]
        if sp["via"] == "group" and case["group_cbs"]:
            g = sorted(((-cb["prio"], j) for j, cb in enumerate(case["group_cbs"])), key=lambda r: r[0])
            g = [(("g", j), v, id(grp.all)) for _, j in g]
            # the relay has priority 0
            hi = [((i, j), v, me) for j, cb in sorted(enumerate(sp["cbs"]), key=lambda t: -t[1]["prio"]) if cb["prio"] > 0]
            zero = [((i, j), v, me) for j, cb in enumerate(sp["cbs"]) if cb["prio"] == 0]
            lo = [((i, j), v, me) for j, cb in sorted(enumerate(sp["cbs"]), key=lambda t: -t[1]["prio"]) if cb["prio"] < 0]
            rows = hi + (g + zero if relay_first else zero + g) + lo
        return rows

    def usable(what):
        w.active = False
        ctx.check(Signal.current_emitter() is None and Signal.sender() is None, f"{what}: there is still a current emitter")
        for i in case["after"]:
            i %= n
            w.log = []
            v = 1000 + i
            f = lambda: w.sigs[i].emit(v, *w.extra)  # noqa: E731
            if case["after_thread"]:
                r = in_thread(f, ctx, f"{what}: emission")
                ctx.count("threads")
            else:
                r = attempt(f)
            ctx.check(r.ok, lambda: f"{what}: emission of signal {i}: {r}")
            ctx.count("later_emissions")
            ctx.eq(w.log, expected(i, v), f"{what}: emission of signal {i} ({case['signals'][i]['mode']})")
            ctx.check(Signal.current_emitter() is None, f"{what}: there is still a current emitter after emission of {i}")
        for i, s in enumerate(w.sigs):
            w.log = []
            w.emitter(s, "fast" if case["signals"][i]["via"] != "group" else "emit")(7)
            ctx.eq([e[:2] for e in w.log], [e[:2] for e in expected(i, 7)], f"{what}: emit_fast of signal {i}")
            w.log = []
            with s.paused():
                s.emit(8, *w.extra)
                s.emit(9, *w.extra)
                ctx.eq(w.log, [], f"{what}: paused")
            ctx.eq(w.log, expected(i, 8) + expected(i, 9), f"{what}: after a pause of signal {i}")
        w.active = True

    for t, top in enumerate(case["tops"]):
        w.calls = 0
        s = w.sigs[top["sig"] % n]
        f = w.emitter(s, top["how"])
        go = lambda: deeper(top["depth"], lambda: limited(top["limit"], lambda: f(0)))  # noqa: E731
        what = f"round {t} ({top['how']} of signal {top['sig'] % n}, limit {top['limit']})"
        if top["paused"]:
            s.pause()
            f(0)
            go = lambda: deeper(top["depth"], lambda: limited(top["limit"], s.resume))  # noqa: E731
        if top["thread"]:
            ctx.count("threads")
            r = in_thread(go, ctx, what)
        else:
            r = attempt(go)
        ctx.check(not isinstance(r.exc, TooMany), f"{what}: not finished after {MAX_CALLS} calls")
        ctx.check(not r.ok and isinstance(r.exc, RecursionError), lambda: f"{what}: {type(r.exc).__name__ if not r.ok else r}: {str(r.exc)[:200] if not r.ok else ''} instead of RecursionError, after {w.calls} calls")
        ctx.count("recursions")
        ctx.count("calls", w.calls)
        msgs = []
        e = r.exc
        while e is not None and len(msgs) < 2000:
            msgs.append(str(e)[:60])
            e = e.__cause__ or e.__context__
        ctx.count("python_limit" if any("maximum recursion depth" in m for m in msgs) else "psygnal_limit")
        if w.calls > 10:
            ctx.nontrivial()
        del r, e
        usable(what)
    if len({sp["mode"] for sp in case["signals"]}) > 1 or n > 1:
        ctx.count("cross_signal")
    for sp in case["signals"]:
        ctx.count("mode_" + sp["mode"])
    ctx.count("fast", any(how == "fast" for sp in case["signals"] for cb in sp["cbs"] for _, how in cb["edges"]) or any(t["how"] == "fast" for t in case["tops"]))
    ctx.count("groups", grp is not None)
    ctx.count("distinct_depths", len({(t["depth"], t["limit"]) for t in case["tops"]}))
    # the re-emission strategies still work
    for i, s in enumerate(w.sigs):
        mode = case["signals"][i]["mode"]
        s.disconnect()
        tr = []

        def p1(v, s=s, tr=tr):
            tr.append(("p1", v))
            if v == 1:
                s.emit(2)

        def p2(v, tr=tr):
            tr.append(("p2", v))

        s.connect(p1)
        s.connect(p2)
        s.emit(1)
        want = {
            "immediate": [("p1", 1), ("p1", 2), ("p2", 2), ("p2", 1)],
            "queued": [("p1", 1), ("p2", 1), ("p1", 2), ("p2", 2)],
            "latest-only": [("p1", 1), ("p1", 2), ("p2", 2)],
        }[mode]
        ctx.eq(tr, want, f"re-emission of the {mode} signal {i} afterwards")


def gen_graph(rng, i, tier):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    kinds = ["func", "func", "method", "object", "partial", "setattr", "setitem"]
    wraps = [None] * 5 + ["map", "sorted", "reduce", "gen", "finally", "with", "reraise"]
    hows = rng.choice([["emit"], ["emit", "call"], ["emit", "fast"], ["fast"], ["emit", "emit", "emit", "fast"]])
    one_mode = rng.choice([None, None, *MODES])

    def cb():
        return {"kind": rng.choice(kinds), "prio": rng.choice([0, 0, 0, 1, -1]), "edges": [], "frames": rng.choice([0, 0, 0, 1, 2, 5]), "wrap": rng.choice(wraps)}

    vias = rng.choice([["descriptor", "instance"], ["descriptor"], ["group", "instance"], ["group"]])
    signals = []
    for _ in range(n):
        cbs = [cb() for _ in range(rng.randint(1, 3))]
        if sum(c["kind"] == "partial" for c in cbs) > 1:
            for c in cbs[1:]:
                c["kind"] = "func" if c["kind"] == "partial" else c["kind"]
        signals.append({"mode": one_mode or rng.choice(MODES), "via": rng.choice(vias), "cbs": cbs})
    # a cycle through all of some signals, and some more edges
    cyc = rng.sample(range(n), rng.randint(1, n))
    grouped = any(s["via"] == "group" for s in signals)
    # (emit_fast of members is not seen by listeners of the group)
    if grouped:
        hows = [h for h in hows if h != "fast"] or ["emit"]
    group_cbs = [cb() for _ in range(rng.choice([0, 1, 1, 2]))] if grouped else []
    for k, s in enumerate(cyc):
        t = cyc[(k + 1) % len(cyc)]
        pool = [signals[s]["cbs"]] + ([group_cbs] if group_cbs and signals[s]["via"] == "group" else [])
        c = rng.choice(rng.choice(pool))
        c["edges"].append([t, rng.choice(hows)])
    rank = {s: k for k, s in enumerate(range(n))}
    for _ in range(rng.choice([0, 0, 1, 2])):
        s, t = rng.randrange(n), rng.randrange(n)
        c = rng.choice(signals[s]["cbs"])
        c["edges"].insert(rng.randint(0, len(c["edges"])), [t, rng.choice(hows)])
    tops = []
    for _ in range(rng.randint(1, 3)):
        tops.append({
            "sig": rng.choice(cyc), "how": rng.choice(hows), "depth": rng.randint(0, 12), "limit": rng.choice([None, 150, 200, 300, 20000]) if rng.random() < 0.4 else rng.randint(150, 400),
            "thread": rng.random() < 0.1, "paused": rng.random() < 0.05,
        })
    return {"nargs": rng.choice([1, 1, 2, 3]), "one_arg": rng.random() < 0.3, "step": rng.choice([1, 1, 0]), "signals": signals, "group_cbs": group_cbs, "relay_first": rng.random() < 0.5, "tops": tops, "after": [rng.randrange(n) for _ in range(2)] + list(range(n)), "after_thread": rng.random() < 0.05}


# -------------------------------------------------------------- carriers


@dataclass
class Data:
    v: int = 0
    u: int = 0
    events: ClassVar = SignalGroupDescriptor()


@attrs.define(slots=False)
class Attrs:
    v: int = 0
    u: int = 0
    events: ClassVar = SignalGroupDescriptor()


class Model(EventedModel):
    v: int = 0
    u: int = 0


class Dep(EventedModel):
    v: int = 0
    u: int = 0

    @property
    def total(self):
        return self.v + self.u

    @total.setter
    def total(self, x):
        self.v = x - self.u

    model_config = {"field_dependencies": {"total": ["v", "u"]}, "allow_property_setters": True}


def run_carriers(case, ctx):
    kind = case["kind"]
    on = [True]
    log = []
    n = [0]
    if kind in ("data", "attrs", "model", "dep"):
        o = {"data": Data, "attrs": Attrs, "model": Model, "dep": Dep}[kind]()
        a, b = case["fields"]

        def ping(*args):
            log.append(("ping", args[0]))
            if on[0]:
                need_stack(HEADROOM)
                n[0] += 1
                setattr(o, b, n[0] * 10)

        def pong(*args):
            log.append(("pong", args[0]))
            if on[0]:
                need_stack(HEADROOM)
                n[0] += 1
                setattr(o, a, n[0] * 10 + 1)

        getattr(o.events, a).connect(ping)
        getattr(o.events, b).connect(pong)
        start = lambda: setattr(o, a, -5)  # noqa: E731

        def after():
            for name in dict.fromkeys([a, b]):
                log.clear()
                new = 100000 + n[0]
                n[0] += 1
                old = getattr(o, name)
                setattr(o, name, new)
                ctx.check(getattr(o, name) == new != old, "assigned value")
                want = [("ping", new)] * (name == a) + [("pong", new)] * (name == b)
                if kind == "dep" and "total" in (a, b):
                    # (also the events of what depends on it)
                    ctx.check(all(w in log for w in want) and len(log) == len(set(log)), lambda: f"events after {name}={new}: {log}")
                else:
                    ctx.eq(log, want, f"events after {name}={new}")
    elif kind == "list":
        o = EventedList([1])
        o.events.inserted.connect(lambda i, x: (log.append((i, x)), on[0] and need_stack(HEADROOM), o.append(x + 1) if on[0] else None))
        start = lambda: o.append(0)  # noqa: E731

        def after():
            log.clear()
            k = len(o)
            o.append("new")
            ctx.eq(log, [(k, "new")], "events of append")
            ctx.check(o[-1] == "new" and len(o) == k + 1, "list after append")
    elif kind == "dict":
        o = EventedDict({1: 1})
        o.events.changed.connect(lambda k, old, new: (log.append((k, old, new)), on[0] and need_stack(HEADROOM), o.__setitem__(1, new + 1) if on[0] else None))
        start = lambda: o.__setitem__(1, 5)  # noqa: E731

        def after():
            log.clear()
            old = o[1]
            o[1] = "new"
            ctx.eq(log, [(1, old, "new")], "events of item assignment")
    else:
        o = EventedSet([1])
        o.events.items_changed.connect(lambda added, removed: (log.append((added, removed)), on[0] and need_stack(HEADROOM), o.add(max(added) + 1) if on[0] else None))
        start = lambda: o.add(5)  # noqa: E731

        def after():
            log.clear()
            o.add("new")
            ctx.eq(log, [(("new",), ())], "events of add")
            log.clear()
            o.remove("new")
            ctx.eq(log, [((), ("new",))], "events of remove")

    for limit, depth in case["tops"]:
        on[0] = True
        r = attempt(lambda: deeper(depth, lambda: limited(limit, start)))
        ctx.check(not r.ok and isinstance(r.exc, RecursionError), lambda: f"{kind}: {r if r.ok else type(r.exc)} instead of RecursionError (limit {limit}): {'' if r.ok else str(r.exc)[-600:]}")
        ctx.count("recursions")
        ctx.count("carriers")
        ctx.count("calls", len(log))
        if len(log) > 10:
            ctx.nontrivial()
        del r
        on[0] = False
        ctx.check(Signal.current_emitter() is None, "there is still a current emitter")
        after()
        if isinstance(o, (EventedList, EventedSet)):
            o.clear()
        if isinstance(o, EventedDict):
            o[1] = 0


def gen_carriers(rng, i, tier):
    kind = rng.choice(["data", "attrs", "model", "model", "dep", "dep", "list", "dict", "set"])
    f = ["v", "u"] + (["total"] if kind == "dep" else [])
    return {"kind": kind, "fields": [rng.choice(f), rng.choice(f)], "tops": [[rng.choice([None, rng.randint(150, 400), rng.randint(150, 400)]), rng.randint(0, 12)] for _ in range(rng.randint(1, 3))]}


WORKLOADS = [
    Workload("graph", gen_graph, run_graph, quick=4000, thorough=60000, timeout=120),
    Workload("carriers", gen_carriers, run_carriers, quick=800, thorough=10000, timeout=120),
]
for _w in WORKLOADS:
    _w.unraisable_recursion_ok = True
