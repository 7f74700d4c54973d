"""C26: monitor_events and iter_signal_instances."""
import contextlib
import gc
import io
import threading
import warnings
import weakref
from dataclasses import dataclass
from functools import partial
from typing import ClassVar

from psygnal import EmissionInfo, EmitLoopError, EventedModel, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance
from psygnal.containers import EventedDict, EventedList
from psygnal.utils import iter_signal_instances, monitor_events
from vh.core import Workload, attempt
from vh.core import relay as relay_of

PROP = "C26"
TECHNIQUE = "runtime monitoring: an executable model of the connected callbacks, relays and loggers predicts the whole log of callback and logger calls of a random program; witnesses connected next to the logger for re-entrant ones"
RULE = (
    "random programs of emissions, blocking, pausing, connections, raising and re-entrant callbacks in nested contexts of monitor_events on random objects (signals of all modes, private and "
    "aliased ones, groups, raising properties, evented dataclasses, EventedModels and containers) and of the global monitor, left normally, by exceptions or from generators; loggers of all kinds; "
    "non-trivial: logger called, and a context left while others remained or by an exception; distinct by case"
)
REQUIRE = {"monitored": 10000, "global": 2000, "emissions": 20000, "silenced": 2000, "silent": 800, "nested": 2000, "exceptions": 1000, "iterated": 2000, "group_infos": 1000, "aliased": 300, "broken": 200, "failed_enter": 100, "threads": 300, "flushed": 300, "loggers_dropped": 100, "reentrant": 500, "containers": 300}
ASSUMPTIONS = ["logger functions of the deprecated signature take exactly two arguments", "the loggers of the global monitor do not raise"]

MODES = ["immediate", "queued", "latest-only"]


class Boom(Exception):
    pass


class Grp(SignalGroup):
    x = Signal(int)
    y = Signal(int, int, reemission="queued")


class Grp2(Grp):
    z = Signal(int, name="zed")


with warnings.catch_warnings():
    warnings.simplefilter("ignore")

    class Grp3(Grp):
        """Members named like methods of groups, and private ones."""

        connect = Signal(int)
        all = Signal(int)
        _hidden = Signal(int)
        __iter = Signal(int, int)


GROUPS = [Grp, Grp2, Grp3]


def build(spec):
    """An object, its public and private signals: name -> SignalInstance or group."""
    ns = {}
    for n, (mode, nargs, opts) in spec["sigs"].items():
        ns[n] = Signal(*[int] * nargs, reemission=mode, **opts)
    kind = spec["base"]
    if kind == "plain":
        cls = type("Plain", (), ns)
        o = cls()
    elif kind == "dataclass":
        ns["__annotations__"] = {"u": int, "v": int, "events": ClassVar}
        ns |= {"u": 0, "v": 0, "events": SignalGroupDescriptor()}
        o = dataclass(type("Data", (), ns))()
    elif kind == "model":
        class Model(EventedModel):
            u: int = 0
            v: int = 0

        o = Model()
        return o
    elif kind == "list":
        return EventedList([1, 2])
    elif kind == "dict":
        return EventedDict({"a": 1})
    elif kind == "group":
        return GROUPS[spec["sub"]]()
    cls = type(o)
    for n in spec["groups"]:
        setattr(o, n, GROUPS[spec["sub"]](o))
    if spec["alias"] and spec["sigs"]:
        first = sorted(spec["sigs"])[0]
        cls.alias = property(lambda self: getattr(self, first))
        o.zalias = getattr(o, first)
    if spec["alias"] and spec["groups"]:
        o.zgroup = getattr(o, spec["groups"][0])
    if spec["hidden"]:
        cls.missing = property(lambda self: self.nothing)
    if spec["broken"]:
        def broken(self):
            raise ValueError("broken property")

        cls.m_broken = property(broken)
    return o


def parts(o):
    """Attribute name -> signal or group, by looking at the attributes ourselves."""
    if isinstance(o, SignalGroup):
        return {"": o}
    if isinstance(o, (EventedList, EventedDict, EventedModel)):
        return {"events": o.events}
    d = {}
    for n in set(vars(o)) | set(vars(type(o))):
        if n in ("missing", "m_broken"):
            continue
        v = getattr(o, n, None)
        if isinstance(v, (SignalInstance, SignalGroup)):
            d[n] = v
    return d


class Model:
    """All signals, by id, with their callbacks in order."""

    def __init__(self):
        self.sigs = {}
        self.seq = self.infos = 0

    def add(self, s, relay_of=None):
        if id(s) not in self.sigs:
            self.sigs[id(s)] = {"s": s, "slots": [], "blocked": False, "paused": False, "queue": [], "members": relay_of or [], "relay": relay_of is not None}
        return self.sigs[id(s)]

    def connect(self, s, kind, payload, prio=0):
        m = self.sigs[id(s)]
        self.seq += 1
        seq = self.seq
        m["slots"].append((-prio, seq, kind, payload))
        m["slots"].sort(key=lambda t: t[:2])
        if m["relay"] and len(m["slots"]) == 1:
            for x in m["members"]:
                self.connect(x, "relay", s)
        return seq

    def disconnect(self, s, seq):
        m = self.sigs[id(s)]
        n = len(m["slots"])
        m["slots"] = [t for t in m["slots"] if t[1] != seq]
        if m["relay"] and n and not m["slots"]:
            for x in m["members"]:
                mm = self.sigs[id(x)]
                mm["slots"] = [t for t in mm["slots"] if t[3] is not s]

    def deliver(self, s, args, out):
        """Raises Boom if a callback raises."""
        for t in list(self.sigs[id(s)]["slots"]):
            _, _, kind, p = t
            if kind == "relay":
                self.deliver(p, (EmissionInfo(s, args),), out)
            elif kind == "cb":
                out.append(("cb", p["tag"], args[: p["n"]]))
                if p["raises"]:
                    raise Boom
            else:
                lid, raises, old = p
                self.infos += len(args) == 1 and isinstance(args[0], EmissionInfo)
                out.append(("log", lid, *((s.name, args) if old else flat(s, args))))
                if raises:
                    raise Boom


def flat(s, args):
    """The info of a group's relay wraps the one of the member."""
    if len(args) == 1 and isinstance(args[0], EmissionInfo):
        return id(args[0].signal), tuple(args[0].args)
    return id(s), tuple(args)


LOG = []


class Sink:
    """A logger object."""

    def __init__(self, lid, raises=False):
        self.lid, self.raises = lid, raises

    def __call__(self, info):
        LOG.append(("log", self.lid, *flat(info.signal, info.args)))
        if self.raises:
            raise Boom

    def method(self, info):
        self(info)

    def method_default(self, info, verbose=False):
        assert verbose is False
        self(info)

    def keywords(self, info, *, verbose=False):
        self(info)

    def old(self, name, args):
        LOG.append(("log", self.lid, name, args))

    @classmethod
    def of_class(cls, info):
        cls.current(info)


def logger(kind, lid, raises, refs):
    s = Sink(lid, raises)
    refs.append(weakref.ref(s))
    if kind == "object":
        return s
    if kind == "function":
        return lambda info: s(info)
    if kind == "default":
        def log(info, verbose=False):
            assert verbose is False
            s(info)

        return log
    if kind == "varargs":
        return lambda *infos: s(*infos)
    if kind == "partial":
        return partial(Sink.method, s)
    if kind == "builtin":
        return partial(s)
    if kind == "classmethod":
        cls = type("SinkClass", (Sink,), {"current": s})
        return cls.of_class
    if kind == "old":
        return lambda name, args: s.old(name, args)
    if kind == "old_method":
        return s.old
    return getattr(s, kind)


KINDS = ["object", "function", "default", "varargs", "partial", "builtin", "classmethod", "method", "method", "method_default", "keywords", "old", "old_method"]


def run_objects(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        LOG.clear()
        try:
            _run(case, ctx)
        finally:
            LOG.clear()
            SignalInstance._debug_hook = None  # (a failing case shall not break others)


def _run(case, ctx):
    objs = [build(sp) for sp in case["objs"]]
    if any(sp["base"] in ("list", "dict", "model") for sp in case["objs"]):
        ctx.count("containers")
    M = Model()
    by_obj = []
    for o in objs:
        ps = parts(o)
        by_obj.append(ps)
        for v in ps.values():
            if isinstance(v, SignalGroup):
                members = [v[n] for n in v]
                for x in members:
                    M.add(x)
                M.add(relay_of(v), members)
            else:
                M.add(v)
    relay = relay_of

    def emitters(k):
        """All signals of an object that can be emitted."""
        out = []
        for n in sorted(by_obj[k]):
            v = by_obj[k][n]
            out += [v[x] for x in v] if isinstance(v, SignalGroup) else [v]
        return list({id(s): s for s in out}.values())

    def targets(k, private):
        """What shall be monitored."""
        o = objs[k]
        if isinstance(o, SignalGroup):
            return [o[n] for n in o]
        out = {}
        for n in sorted(by_obj[k]):
            if private or not n.startswith("_"):
                v = by_obj[k][n]
                v = relay(v) if isinstance(v, SignalGroup) else v
                out[id(v)] = v
        return list(out.values())

    counter = [0]
    glob = []  # active global loggers
    loggers = {}
    state = {}
    refs = []  # of the objects behind the loggers

    def lens(what):
        for m in M.sigs.values():
            ctx.check(len(m["s"]) == len(m["slots"]), lambda: f"{what}: {m['s'].name!r} has {len(m['s'])} callbacks, expected {len(m['slots'])}")

    def get_logger(d):
        lid = d["id"]
        if lid not in loggers:
            loggers[lid] = logger(d["kind"], lid, d["raises"], refs)
        return loggers[lid]

    def expect(want, what):
        got = LOG[:]
        LOG.clear()
        ctx.count("monitored", sum(e[0] == "log" for e in got))
        ctx.eq(got, want, what)

    def do_emit(s, args, what, in_thread, fast, escape):
        m = M.sigs[id(s)]
        want, raises = [], False
        ctx.count("emissions")
        if m["blocked"]:
            ctx.count("silent")
        elif m["paused"]:
            m["queue"].append(args)
        else:
            if glob and not fast:
                want.append(("log", glob[-1], *flat(s, args)))
                ctx.count("global")
            try:
                if fast and any(t[2] == "relay" for t in m["slots"]):
                    return  # (not relayed by groups, see C13)
                M.deliver(s, args, want)
            except Boom:
                raises = True
        f = s.emit_fast if fast else s.emit
        if in_thread:
            ctx.count("threads")
            box = []
            t = threading.Thread(target=lambda: box.append(attempt(f, *args)))
            t.start()
            t.join()
            r = box[0]
        else:
            r = attempt(f, *args)
        ctx.check(r.ok != raises and (r.ok or isinstance(r.exc, EmitLoopError)), lambda: f"{what}: {r}, raises: {raises}")
        ctx.count("group_infos", M.infos)
        M.infos = 0
        expect(want, f"{what} {s.name}{args}")
        if raises:
            ctx.count("exceptions")
            if escape:
                raise r.exc

    def program(ops, level):
        for op in ops:
            do(op, level)

    def do(op, level):
        kind = op[0]
        if kind == "monitor":
            _, d, k, private, body, catch, how = op
            k %= len(objs)
            ts = targets(k, private)
            old = d["kind"].startswith("old")
            lg = get_logger(d)
            what = f"monitor_events({case['objs'][k]['base']} {k}, {d['kind']}, {private})"
            cm = monitor_events(objs[k], lg, include_private_attrs=private) if private else monitor_events(objs[k], lg)
            broken = case["objs"][k]["broken"] and not isinstance(objs[k], (EventedList, EventedDict, EventedModel, SignalGroup))
            if case["objs"][k]["alias"]:
                ctx.count("aliased")
            seqs = []
            if broken:
                ctx.count("broken")
                r = attempt(cm.__enter__)
                if not r.ok:
                    # (may propagate or be ignored, but leave no trace)
                    ctx.count("failed_enter")
                    ctx.check(isinstance(r.exc, ValueError), lambda: f"{what}: {r}")
                    lens(f"{what}, which failed")
                    return program(body, level)
                cm = Entered(cm)
            if level:
                ctx.count("nested")
            inner(cm, what, ts, seqs, d, old, body, catch, how, level)
        elif kind == "global":
            _, d, body, catch, how = op
            lg = get_logger(d)
            cm = monitor_events(logger=lg) if how else monitor_events(None, lg)

            def with_glob():
                with cm:
                    glob.append(d["id"])
                    try:
                        program(body, level + 1)
                    finally:
                        glob.pop()
                        if level:
                            ctx.count("nested")

            try:
                with_glob()
            except (Boom, EmitLoopError):
                ctx.nontrivial()
                if not catch:
                    raise
        elif kind == "emit":
            _, k, j, thread, fast, escape = op
            es = emitters(k % len(objs))
            if not es:
                return
            s = es[j % len(es)]
            counter[0] += 1
            args = tuple(counter[0] + i for i in range(len(s.signature.parameters)))
            if fast and any(t[2] == "relay" for t in M.sigs[id(s)]["slots"]):
                fast = False
            do_emit(s, args, op, thread, fast, escape)
        elif kind == "change":
            o = objs[op[1] % len(objs)]
            counter[0] += 1
            c = counter[0] + 1000
            if isinstance(o, EventedModel) or hasattr(o, "u"):
                g = o.events
                s = g[op[2]]
                want, raises = [], False
                m = M.sigs[id(s)]
                old = getattr(o, op[2])
                args = (c,) if isinstance(o, EventedModel) else (c, old)
                if m["slots"]:
                    if m["blocked"]:
                        pass
                    elif m["paused"]:
                        m["queue"].append(args)
                    else:
                        if glob:
                            want.append(("log", glob[-1], *flat(s, args)))
                        try:
                            M.deliver(s, args, want)
                        except Boom:
                            raises = True
                r = attempt(setattr, o, op[2], c)
                ctx.check(r.ok != raises, lambda: f"{op}: {r}")
                if not m["slots"] and glob:
                    # (without listeners, it may or may not be emitted)
                    LOG[:] = [e for e in LOG if e[1] != glob[-1]]
                expect(want, op)
        elif kind == "flag":
            _, k, j, what, on = op
            es = emitters(k % len(objs))
            if not es:
                return
            s = es[j % len(es)]
            m = M.sigs[id(s)]
            if what == "block":
                s.block() if on else s.unblock()
                m["blocked"] = on
            elif on:
                s.pause()
                m["paused"] = True
            else:
                want, raises = [], False
                q, m["queue"], m["paused"] = m["queue"], [], False
                if m["slots"]:
                    for a in q:
                        try:
                            M.deliver(s, a, want)
                        except Boom:
                            raises = True
                            break
                if raises:
                    # (remove the rest)
                    r = attempt(s.resume)
                    ctx.check(not r.ok, lambda: f"{op}: {r}")
                    got = LOG[:]
                    ctx.eq(got[: len(want)], want, op)
                    LOG.clear()
                    for _ in range(100):
                        if attempt(s.resume).ok:
                            break
                    LOG.clear()
                else:
                    ctx.count("flushed", len(q))
                    s.resume()
                    if glob:
                        # (whether the global monitor sees these is not specified)
                        LOG[:] = [e for e in LOG if e[0] != "log" or e[1] != glob[-1] or e in want]
                    expect(want, op)
        elif kind == "connect":
            _, k, j, prio, raises, group = op
            o = objs[k % len(objs)]
            gs = [v for n, v in sorted(by_obj[k % len(objs)].items()) if isinstance(v, SignalGroup)]
            counter[0] += 1
            tag = f"cb{counter[0]}"
            if group and gs:
                s = relay(gs[j % len(gs)])
                n = 1
            else:
                es = emitters(k % len(objs))
                if not es:
                    return
                s = es[j % len(es)]
                n = len(s.signature.parameters)

            def cb(*args, tag=tag, raises=raises):
                LOG.append(("cb", tag, args))
                if raises:
                    raise Boom

            s.connect(cb, priority=prio, max_args=n)
            state.setdefault("cbs", []).append((s, cb, M.connect(s, "cb", {"tag": tag, "n": n, "raises": raises}, prio)))
        elif kind == "disconnect":
            if state.get("cbs"):
                s, cb, seq = state["cbs"].pop(op[1] % len(state["cbs"]))
                s.disconnect(cb)
                M.disconnect(s, seq)
        elif kind == "iter":
            _, k, private = op
            k %= len(objs)
            ctx.count("iterated")
            if case["objs"][k]["broken"]:
                got = []
                r = attempt(lambda: got.extend(iter_signal_instances(objs[k], private)))
                if not r.ok:
                    ctx.check(isinstance(r.exc, ValueError), lambda: f"{op}: {r}")
                    return
            elif private:
                got = list(iter_signal_instances(objs[k], True) if op[1] % 2 else iter_signal_instances(objs[k], include_private_attrs=True))
            else:
                got = list(iter_signal_instances(objs[k]))
            want = targets(k, private)
            ctx.eq(sorted(map(id, got)), sorted(map(id, want)), lambda: f"iter_signal_instances of {case['objs'][k]}, {private}: {[s.name for s in got]}, expected {[s.name for s in want]}")
        elif kind == "raise":
            raise Boom
        lens(op)

    def inner(cm, what, ts, seqs, d, old, body, catch, how, level):
        def enter():
            for t in ts:
                seqs.append((t, M.connect(t, "log", (d["id"], d["raises"] and not old, old))))
            lens(f"{what} entered")

        def leave():
            for t, seq in seqs:
                M.disconnect(t, seq)

        def run_body():
            enter()
            program(body, level + 1)

        try:
            if how == "with":
                with cm:
                    run_body()
            elif how == "stack":
                with contextlib.ExitStack() as st:
                    st.enter_context(cm)
                    run_body()
            else:
                # a generator, abandoned
                def gen():
                    with cm:
                        yield
                        raise AssertionError

                g = gen()
                next(g)
                try:
                    run_body()
                finally:
                    g.close()
        except (Boom, EmitLoopError):
            leave()
            lens(f"{what} left by an exception")
            ctx.nontrivial()
            if not catch:
                raise
        else:
            leave()
            lens(f"{what} left")
            if level:
                ctx.nontrivial()

    with contextlib.suppress(Boom, EmitLoopError):
        program(case["ops"], 0)
    # now, nobody monitors anything
    lens("at the end")
    for m in M.sigs.values():
        ctx.check(not any(t[2] == "log" for t in m["slots"]), "model")
    for k in range(len(objs)):
        for j in range(len(emitters(k))):
            do(["flag", k, j, "block", False], 0)
            do(["flag", k, j, "pause", False], 0)
            do(["emit", k, j, False, False, False], 0)
    for m in M.sigs.values():
        if m["relay"]:
            m["s"].disconnect()
            m["slots"] = []
    for m in M.sigs.values():
        if not m["relay"]:
            m["s"].disconnect()
    if case["gc"]:
        ctx.count("loggers_dropped", len(refs))
        loggers.clear()
        gc.collect()
        ctx.check(all(r() is None for r in refs), "the logger is still alive after the monitors")


class Entered:
    def __init__(self, cm):
        self.cm = cm

    def __enter__(self):
        return None

    def __exit__(self, *a):
        return self.cm.__exit__(*a)


def gen_objects(rng, i, tier):
    objs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        sigs = {}
        for n in rng.sample(["a", "b", "c", "_p", "__q", "_", "z"], rng.randint(0, 4)):
            sigs[n] = [rng.choice(MODES), rng.randint(0, 3), rng.choice([{}, {}, {"name": "other"}, {"check_types_on_connect": True}, {"check_nargs_on_connect": False}, {"description": "d"}])]
        objs.append({
            "base": rng.choice(["plain"] * 5 + ["dataclass", "dataclass", "model", "list", "dict", "group"]),
            "sigs": sigs, "groups": rng.sample(["g", "h", "_g"], rng.choice([0, 0, 1, 1, 2])), "sub": rng.randrange(3),
            "alias": rng.random() < 0.2, "hidden": rng.random() < 0.3, "broken": rng.random() < 0.12,
        })
    n_loggers = rng.randint(1, 4)
    logs = [{"id": j, "kind": rng.choice(KINDS), "raises": rng.random() < 0.08} for j in range(n_loggers)]
    glogs = [{"id": 10 + j, "kind": rng.choice([k for k in KINDS if not k.startswith("old")]), "raises": False} for j in range(2)]
    raising = rng.random() < 0.45

    def ops(n, level):
        out = []
        for _ in range(n):
            x = rng.random()
            k, j = rng.randrange(3), rng.randrange(6)
            if x < 0.16 and level < 4:
                body = ops(rng.randint(0, 6), level + 1)
                if rng.random() < 0.75:
                    out.append(["monitor", rng.choice(logs), k, rng.random() < 0.35, body, rng.random() < 0.8, rng.choice(["with", "with", "stack", "close"])])
                else:
                    out.append(["global", rng.choice(glogs), body, rng.random() < 0.8, rng.random() < 0.5])
            elif x < 0.6:
                out.append(["emit", k, j, rng.random() < 0.04, rng.random() < 0.08, rng.random() < 0.3])
            elif x < 0.68:
                out.append(["change", k, rng.choice("uv")])
            elif x < 0.76:
                out.append(["flag", k, j, rng.choice(["block", "pause"]), rng.random() < 0.6])
            elif x < 0.85:
                out.append(["connect", k, j, rng.choice([0, 0, 0, 1, -1]), raising and rng.random() < 0.4, rng.random() < 0.3])
            elif x < 0.89:
                out.append(["disconnect", j])
            elif x < 0.97:
                out.append(["iter", k, rng.random() < 0.5])
            elif level:
                out.append(["raise"])
        return out

    return {"objs": objs, "ops": ops(rng.randint(3, 12), 0), "gc": i % 4 == 0}


# ------------------------------------------------------------- re-entrancy


def run_reentrant(case, ctx):
    """Callbacks that emit: the logger sees what a callback connected next to it sees."""
    sigs = {f"s{i}": Signal(int, reemission=m) for i, m in enumerate(case["modes"])}
    o = type("Re", (), sigs)()
    o.g = type("ReGroup", (SignalGroup,), {f"s{i}": Signal(int, reemission=m) for i, m in enumerate(case["modes"])})(o)
    ss = [getattr(o, n) for n in sigs] + [o.g[n] for n in sigs]
    budget = [60]
    seen = []
    for at, to, prio, raises in case["edges"]:
        s, t = ss[at % len(ss)], ss[to % len(ss)]

        def cb(v, t=t, raises=raises):
            if budget[0] > 0:
                budget[0] -= 1
                if raises and budget[0] % 7 == 0:
                    raise Boom
                t.emit(v + 1)

        s.connect(cb, priority=prio)
    emitted = []

    def glog(info):
        emitted.append((id(info.signal), tuple(info.args)))

    logged, witnessed, others = [], [], []
    witnesses = []
    for s in [*ss[: len(sigs)], o.g.all]:
        w = lambda *a, s=s: witnessed.append((flat(s, a)))  # noqa: E731
        s.connect(w)
        witnesses.append((s, w))
    before = [len(s) for s in [*ss, o.g.all]]

    def log(info):
        logged.append(flat(info.signal, info.args))
        ctx.check(isinstance(info, EmissionInfo), "EmissionInfo")

    tries = []
    with monitor_events(o, log):
        with monitor_events(logger=glog) if case["global"] else contextlib.nullcontext():
            for j, v in case["emits"]:
                budget[0] = 60
                s = ss[j % len(ss)]
                n = len(logged)
                r = attempt(s.emit, v * 1000)
                ctx.check(r.ok or isinstance(r.exc, EmitLoopError), lambda: f"{r}")
                tries.append(r.ok)
                ctx.eq(logged, witnessed, f"emission of {s.name}({v * 1000})")
                ctx.check(len(logged) == len(witnessed), "number of calls")
                if len(logged) - n > 1:
                    ctx.count("reentrant")
                    ctx.nontrivial()
                if case["global"]:
                    ctx.check((id(s), (v * 1000,)) in emitted, "the global monitor misses an emission")
                    if all(tries) and all(m == "immediate" for m in case["modes"]):
                        ctx.eq(sorted(emitted), sorted(logged), "the global monitor and the one of the object")
                    ctx.check(set(logged) <= set(emitted), lambda: f"the global monitor misses {set(logged) - set(emitted)}")
    ctx.count("monitored", len(logged))
    ctx.eq([len(s) for s in [*ss, o.g.all]], before, "callbacks after the monitor")
    n, ne = len(logged), len(emitted)
    for j, v in case["emits"]:
        budget[0] = 60
        attempt(ss[j % len(ss)].emit, v)
    ctx.eq((len(logged), len(emitted)), (n, ne), "calls of the logger after the monitor")
    ctx.count("silenced", len(witnessed) - n)


def gen_reentrant(rng, i, tier):
    n = rng.randint(1, 3)
    return {
        "modes": [rng.choice(MODES) for _ in range(n)],
        "edges": [[rng.randrange(6), rng.randrange(6), rng.choice([0, 0, 1, -1]), rng.random() < 0.1] for _ in range(rng.randint(0, 6))],
        "emits": [[rng.randrange(6), k + 1] for k in range(rng.randint(1, 5))],
        "global": rng.random() < 0.5,
    }


def run_printing(case, ctx):
    """The default logger prints name and arguments."""
    class T:
        sig = Signal(int, int)
        two = Signal(str)

    t = T()
    want = []
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        t.sig.emit(0, 0)
        with monitor_events(t) if case["obj"] else monitor_events():
            for k, a in case["emits"]:
                if k:
                    t.sig.emit(a, a)
                    want.append(f"sig.emit{(a, a)!r}")
                else:
                    t.two.emit(str(a))
                    want.append(f"two.emit{(str(a),)!r}")
        t.sig.emit(0, 0)
        with attempt_warnings():
            r = attempt(lambda: monitor_events(None, lambda name, args: None).__enter__())
    ctx.check(isinstance(r.exc, ValueError), lambda: f"old-style logger for the global monitor: {r}")
    t.sig.emit(0, 0)
    ctx.eq(out.getvalue().splitlines(), want, "what the default logger prints")
    ctx.nontrivial()


@contextlib.contextmanager
def attempt_warnings():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def gen_printing(rng, i, tier):
    return {"obj": rng.random() < 0.5, "emits": [[rng.random() < 0.5, rng.randint(0, 99)] for _ in range(rng.randint(0, 5))]}


WORKLOADS = [
    Workload("objects", gen_objects, run_objects, quick=5000, thorough=80000),
    Workload("reentrant", gen_reentrant, run_reentrant, quick=1500, thorough=20000),
    Workload("printing", gen_printing, run_printing, quick=100, thorough=500),
]
