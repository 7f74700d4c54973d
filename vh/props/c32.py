"""C32: networks of linked signals, objects and containers."""
import dataclasses
import gc
import weakref

import attrs

from psygnal import EmitLoopError, EventedModel, Signal, SignalGroup, SignalInstance, evented
from psygnal.containers import EventedDict, EventedList
from vh.core import Workload

PROP = "C32"
TECHNIQUE = "runtime monitoring: the trace of all calls in a random network of linked signals, evented objects and containers, and the life of its nodes, compared with an executable model of the whole network"
RULE = (
    "random networks of up to 7 nodes (signals of all three re-emission strategies, groups, evented dataclasses, attrs classes and models, evented dicts and lists) with links added and removed at random: "
    "a signal connected to another signal or to its emit method, connect_setattr (also in both directions and in rings), connect_setitem, callbacks that emit, assign or append to other nodes; listeners on signals and groups, "
    "some of which raise; blocked and paused signals; nodes of which only the links are left; after each operation, the complete trace, all values and the set of nodes alive are compared with the model; "
    "non-trivial: an emission that passed through at least three nodes, distinct by case"
)
REQUIRE = {"calls": 20000, "hops": 10000, "deep": 500, "two_way": 300, "dead": 300, "kept_by_links": 100, "raised": 200, "held": 200, "blocked": 200, "unlinked": 300, "group_calls": 1000, "queued_nested": 50, "latest_nested": 50}
ASSUMPTIONS = ["single thread", "links are only changed between emissions"]
LIMIT = 1500
CAP = 6
VALUED = ("sig", "grp", "dc", "at", "model")  # (the first argument of their signals is the value)


class Group(SignalGroup):
    x = Signal(object)
    y = Signal(object)


@evented
@dataclasses.dataclass(eq=False)
class Data:
    x: int = 0
    y: int = 0


@evented
@attrs.define(slots=False, eq=False)
class At:
    x: int = 0
    y: int = 0


class Immediate(EventedModel):
    x: int = 0
    y: int = 0
    model_config = {"reemission": "immediate"}


class Queued(EventedModel):
    x: int = 0
    y: int = 0
    model_config = {"reemission": "queued"}


class Latest(EventedModel):
    x: int = 0
    y: int = 0
    model_config = {"reemission": "latest-only"}


class Boom(Exception):
    pass


MODELS = {"immediate": Immediate, "queued": Queued, "latest-only": Latest}
PORTS = {"sig": ["x"], "grp": ["x", "y"], "dc": ["x", "y"], "at": ["x", "y"], "model": ["x", "y"], "dict": ["added", "changed"], "list": ["inserted"]}
INS = {"sig": ["x"], "grp": ["x", "y"], "dc": ["x", "y"], "at": ["x", "y"], "model": ["x", "y"], "dict": ["x", "y"], "list": ["x"]}


def value_of(kind, args):
    return args[0] if kind in VALUED else args[-1]


class TooMuch(Exception):
    pass


class Model:
    def __init__(self, case):
        self.nodes = case["nodes"]
        self.trace, self.glog = [], {}
        self.handle = [True] * len(self.nodes)
        self.alive = [True] * len(self.nodes)
        self.val = [{"dict": dict, "list": list}.get(n["kind"], lambda: {"x": 0, "y": 0})() for n in self.nodes]
        self.slots, self.state = {}, {}
        self.serial = 0
        self.stack, self.depth, self.nested = [], 0, {"queued": 0, "latest-only": 0}
        self.hops = self.held = self.n_blocked = 0
        for i, n in enumerate(self.nodes):
            for p in PORTS[n["kind"]]:
                self.slots[i, p] = []
                self.state[i, p] = {"queue": None, "frames": [], "total": 0, "blocked": False, "paused": False, "held": []}
                if n["group"]:
                    self.add(i, p, 0, "group", None)

    def add(self, i, p, prio, kind, dst, name=None):
        self.serial += 1
        self.slots[i, p].append({"prio": prio, "n": self.serial, "kind": kind, "dst": dst, "name": name})
        self.slots[i, p].sort(key=lambda s: (-s["prio"], s["n"]))

    def remove(self, i, p, name):
        self.slots[i, p] = [s for s in self.slots[i, p] if s["name"] != name]

    def has(self, i, p, name):
        return any(s["name"] == name for s in self.slots[i, p])

    def collect(self):
        """Which nodes are left: those with a handle, and those strongly linked from nodes that are left."""
        todo = [i for i, h in enumerate(self.handle) if h]
        live = set()
        while todo:
            i = todo.pop()
            if i in live:
                continue
            live.add(i)
            for p in PORTS[self.nodes[i]["kind"]]:
                todo += [s["dst"][0] for s in self.slots[i, p] if s["kind"] == "call"]
        for i in range(len(self.nodes)):
            self.alive[i] = i in live
        for k, slots in self.slots.items():
            self.slots[k] = [s for s in slots if k[0] in live and (s["dst"] is None or s["dst"][0] in live)]

    # emission
    def emit(self, i, p, args):
        st = self.state[i, p]
        if st["blocked"]:
            self.n_blocked += 1
            return
        if st["paused"]:
            if not self.slots[i, p]:
                raise TooMuch  # (not specified: listeners that connect before it is resumed)
            self.held += 1
            st["held"].append(args)
            return
        self.run(i, p, args)

    def run(self, i, p, args):
        mode, st = self.nodes[i]["mode"], self.state[i, p]
        self.stack.append(i)
        self.depth = max(self.depth, len(set(self.stack)))
        if len(self.stack) > 30:
            self.stack.pop()
            raise TooMuch
        try:
            if mode == "queued":
                if st["queue"] is not None:
                    self.nested[mode] += 1
                    st["queue"].append(args)
                    st["total"] += 1
                    if st["total"] > 100:
                        raise TooMuch  # (C27 is about signals that never come to an end)
                    return
                st["queue"], st["total"] = [args], 1
                try:
                    while st["queue"]:
                        args = st["queue"].pop(0)
                        for s in list(self.slots[i, p]):
                            self.call(i, p, s, args)
                finally:
                    st["queue"] = None
                return
            frame = {"superseded": False}
            if mode == "latest-only":
                for f in st["frames"]:
                    self.nested[mode] += 1
                    f["superseded"] = True
            st["frames"].append(frame)
            try:
                for s in list(self.slots[i, p]):
                    if frame["superseded"]:
                        break
                    self.call(i, p, s, args)
            finally:
                st["frames"].pop()
        finally:
            self.stack.pop()

    def call(self, i, p, s, args):
        kind = s["kind"]
        if len(self.trace) + self.hops > LIMIT:
            raise TooMuch
        if kind == "group":
            self.glog.setdefault(i, []).append((p, args))
        elif kind == "leaf":
            self.trace.append((s["name"], args))
        elif kind == "raiser":
            self.trace.append((s["name"], args))
            if value_of(self.nodes[i]["kind"], args) % 4 == 3:
                raise Boom(s["name"])
        else:
            self.hops += 1
            j, q = s["dst"]
            if kind in ("direct", "emit"):
                self.emit(j, q, args)
            elif kind in ("setattr", "setitem"):
                self.put(j, q, args[0])
            else:
                v = value_of(self.nodes[i]["kind"], args) + s["inc"]
                if v <= CAP:
                    self.put(j, q, v)

    def put(self, i, q, v):
        kind, val = self.nodes[i]["kind"], self.val[i]
        if kind in ("sig", "grp"):
            self.emit(i, q, (v,))
        elif kind == "list":
            val.append(v)
            self.emit(i, "inserted", (len(val) - 1, v))
        elif kind == "dict" and q not in val:
            val[q] = v
            self.emit(i, "added", (q, v))
        elif val[q] != v:
            old, val[q] = val[q], v
            if kind == "dict":
                self.emit(i, "changed", (q, old, v))
            else:
                self.emit(i, q, (v,) if kind == "model" else (v, old))

    def resume(self, i, p):
        st = self.state[i, p]
        st["paused"] = False
        if not self.slots[i, p]:
            st["held"].clear()
        while st["held"]:
            self.run(i, p, st["held"].pop(0))


class Real:
    def __init__(self, case):
        self.nodes = case["nodes"]
        self.trace, self.glog = [], {}
        self.handles = [self.make(n) for n in self.nodes]
        self.refs = [weakref.ref(h) for h in self.handles]
        self.funcs = {}
        for i, n in enumerate(self.nodes):
            if n["group"]:
                self.listen_group(i)

    def make(self, n):
        kind = n["kind"]
        if kind == "sig":
            return SignalInstance((object,), reemission=n["mode"])
        return {"grp": Group, "dc": Data, "at": At, "model": MODELS[n["mode"]], "dict": EventedDict, "list": EventedList}[kind]()

    def listen_group(self, i):
        h = self.handles[i]
        log = self.glog.setdefault(i, [])

        def on(info):
            if info.signal.name in PORTS[self_kind]:
                log.append((info.signal.name, info.args))

        self_kind = self.nodes[i]["kind"]
        (h if self_kind == "grp" else h.events).connect(on)

    def port(self, i, p):
        h = self.handles[i]
        kind = self.nodes[i]["kind"]
        return h if kind == "sig" else getattr(h if kind == "grp" else h.events, p)

    def put(self, i, q, v):
        put(self.nodes[i]["kind"], self.handles[i], q, v)

    def link(self, i, p, name, how, j, q, prio, inc):
        src = self.port(i, p)
        dst = self.handles[j]
        if how == "direct":
            src.connect(dst, priority=prio)
        elif how == "emit":
            src.connect(dst.emit, priority=prio)
        elif how == "setattr":
            src.connect_setattr(dst, q, maxargs=1, priority=prio)
        elif how == "setitem":
            src.connect_setitem(dst, q, maxargs=1, priority=prio)
        else:
            f = make_call(self.nodes[i]["kind"], self.nodes[j]["kind"], dst, q, inc)
            src.connect(f, priority=prio)
            self.funcs[name] = weakref.ref(f)

    def unlink(self, i, p, name, how, j, q):
        src = self.port(i, p)
        dst = self.handles[j]
        if how == "direct":
            src.disconnect(dst)
        elif how == "emit":
            src.disconnect(dst.emit)
        elif how == "setattr":
            src.disconnect_setattr(dst, q)
        elif how == "setitem":
            src.disconnect_setitem(dst, q)
        else:
            src.disconnect(self.funcs.pop(name)())

    def listen(self, i, p, name, raises, prio):
        trace, kind = self.trace, self.nodes[i]["kind"]

        def on(*args):
            trace.append((name, args))
            if raises and value_of(kind, args) % 4 == 3:
                raise Boom(name)

        self.port(i, p).connect(on, priority=prio)
        self.funcs[name] = weakref.ref(on)


def put(kind, h, q, v):
    if kind == "sig":
        h.emit(v)
    elif kind == "grp":
        h[q].emit(v)
    elif kind == "list":
        h.append(v)
    elif kind == "dict":
        h[q] = v
    else:
        setattr(h, q, v)


def make_call(src_kind, dst_kind, dst, q, inc):
    def call(*args):
        v = value_of(src_kind, args) + inc
        if v <= CAP:
            put(dst_kind, dst, q, v)

    return call


def run(case, ctx):
    m, r = Model(case), Real(case)
    nodes = case["nodes"]
    links = {}
    two_way = {}

    def emission(f_model, f_real, what):
        """Returns False if the operation is too large to be compared."""
        m.trace.clear()
        r.trace.clear()
        m.glog.clear()
        for g in r.glog.values():
            g.clear()
        m.hops = 0
        m.depth = 0
        err = None
        try:
            f_model()
        except TooMuch:
            ctx.count("too_much")
            return False
        except Boom as e:
            err = e
        got = None
        try:
            f_real()
        except EmitLoopError as e:
            got = e
        ctx.check((got is None) == (err is None), lambda: f"{what}: raised {got!r}, expected {err!r}")
        if got is not None:
            ctx.check(type(got.__cause__) is Boom and got.__cause__.args == err.args, lambda: f"{what}: raised because of {got.__cause__!r}, expected {err!r}")
            ctx.count("raised")
            got.__cause__.__traceback__ = None
        got = err = None
        if r.trace != m.trace:
            k = next((k for k, (a, b) in enumerate(zip(m.trace, r.trace)) if a != b), min(len(m.trace), len(r.trace)))
            ctx.fail(f"{what}: after {r.trace[max(0, k - 6):k]} expected {m.trace[k:k + 3] or 'nothing'}, observed {r.trace[k:k + 3] or 'nothing'}")
        for i, n in enumerate(nodes):
            if n["group"]:
                ctx.eq(list(r.glog[i]), m.glog.get(i, []), lambda: f"{what}: listener of the group of node {i} ({n['kind']})")
                ctx.count("group_calls", len(r.glog[i]))
        ctx.count("calls", len(m.trace))
        ctx.count("hops", m.hops)
        if m.depth >= 3:
            ctx.count("deep")
            ctx.nontrivial()
        check_values(what)
        return True

    def check_values(what):
        for i, n in enumerate(nodes):
            h = r.refs[i]()
            if h is None or n["kind"] in ("sig", "grp"):
                continue
            got = dict(h) if n["kind"] == "dict" else list(h) if n["kind"] == "list" else {"x": h.x, "y": h.y}
            ctx.eq(got, m.val[i], lambda: f"{what}: values of node {i} ({n['kind']})")

    def do(k, op):
        name = f"n{k}"
        what = f"operation {k} {op}"
        if op[0] == "link":
            _, i, p, how, j, q, prio, inc = op
            i, j = i % len(nodes), j % len(nodes)
            if not (m.handle[i] and m.handle[j]):
                return True
            src, dst = nodes[i]["kind"], nodes[j]["kind"]
            p, q = PORTS[src][p % len(PORTS[src])], INS[dst][q % len(INS[dst])]
            if how != "call":
                if src not in VALUED:
                    how = "call"
                elif dst == "sig":
                    how = "emit" if how in ("setattr", "emit") else "direct"
                elif dst in ("dc", "at", "model"):
                    how = "setattr"
                elif dst == "dict":
                    how = "setitem"
                else:
                    how = "call"
            if how in ("direct", "emit") and i >= j:
                return True
            if how == "call" and (i >= j or dst == "list"):
                inc = 1
            if (i, p, how, j, q) in links.values():
                return True
            if nodes[i]["group"]:
                prio = min(prio, 0)
            if how == "setattr":
                two_way[i, p, j, q] = True
                if (j, q, i, p) in two_way:
                    ctx.count("two_way")
            links[name] = (i, p, how, j, q)
            m.add(i, p, prio, how, (j, q), name)
            m.slots[i, p][next(x for x, s in enumerate(m.slots[i, p]) if s["name"] == name)]["inc"] = inc
            r.link(i, p, name, how, j, q, prio, inc)
        elif op[0] == "unlink":
            live = [n for n, (i, p, how, j, q) in links.items() if m.handle[i] and m.handle[j] and m.has(i, p, n)]
            if not live:
                return True
            n = live[op[1] % len(live)]
            i, p, how, j, q = links.pop(n)
            two_way.pop((i, p, j, q), None)
            m.remove(i, p, n)
            r.unlink(i, p, n, how, j, q)
            ctx.count("unlinked")
        elif op[0] == "listen":
            _, i, p, raises, prio = op
            i %= len(nodes)
            if not m.handle[i]:
                return True
            p = PORTS[nodes[i]["kind"]][p % len(PORTS[nodes[i]["kind"]])]
            if nodes[i]["group"]:
                prio = min(prio, 0)
            raises = raises and case["raising"]
            m.add(i, p, prio, "raiser" if raises else "leaf", None, name)
            r.listen(i, p, name, raises, prio)
        elif op[0] == "put":
            _, i, q, v = op
            i %= len(nodes)
            if not m.handle[i]:
                return True
            q = INS[nodes[i]["kind"]][q % len(INS[nodes[i]["kind"]])]
            return emission(lambda: m.put(i, q, v), lambda: r.put(i, q, v), what)
        elif op[0] in ("block", "pause"):
            _, i, p = op
            i %= len(nodes)
            if not m.handle[i] or (op[0] == "pause" and case["raising"]):
                return True
            p = PORTS[nodes[i]["kind"]][p % len(PORTS[nodes[i]["kind"]])]
            st = m.state[i, p]
            if op[0] == "block":
                st["blocked"] = not st["blocked"]
                r.port(i, p).block() if st["blocked"] else r.port(i, p).unblock()
            elif st["paused"]:
                return emission(lambda: m.resume(i, p), lambda: r.port(i, p).resume(), what)
            else:
                st["paused"] = True
                r.port(i, p).pause()
        elif op[0] == "kill":
            i = op[1] % len(nodes)
            if not m.handle[i] or sum(m.handle) < 2:
                return True
            m.handle[i] = False
            r.handles[i] = None
            m.collect()
            ctx.count("dead", m.alive.count(False))
            ctx.count("kept_by_links", sum(a and not h for a, h in zip(m.alive, m.handle)))
        return True

    for k, op in enumerate(case["ops"]):
        if not do(k, op):
            return
        if op[0] in ("kill", "unlink"):
            gc.collect()
            m.collect()
            ctx.eq([x() is not None for x in r.refs], m.alive, lambda: f"operation {k} {op}: which nodes {[n['kind'] for n in nodes]} are alive")
    ctx.count("held", m.held)
    ctx.count("blocked", m.n_blocked)
    ctx.count("queued_nested", m.nested["queued"])
    ctx.count("latest_nested", m.nested["latest-only"])


def gen(rng, i, tier):
    kinds = rng.choice([list(PORTS), ["dc", "at", "model"], ["sig", "dc"], ["sig", "grp"], ["model", "dict"], list(PORTS)])
    raising = rng.random() < 0.25 
    if raising:
        kinds = [k for k in kinds if k != "model"]
    nodes = []
    for _ in range(rng.randint(2, 7)):
        kind = rng.choice(kinds)
        mode = rng.choice(["immediate", "queued", "latest-only"]) if kind in ("sig", "model") else "immediate"
        nodes.append({"kind": kind, "mode": mode, "group": kind != "sig" and rng.random() < 0.4})
    n = len(nodes)
    prios = rng.choice([[0], [0, 0, 1, -1]])

    def link():
        i, j = rng.randrange(n), rng.randrange(n)
        p, q = rng.randrange(2), rng.randrange(2)
        how = rng.choice(["direct", "setattr", "setattr", "call"])
        out = [["link", i, p, how, j, q, rng.choice(prios), int(rng.random() < 0.7)]]
        if rng.random() < 0.3:
            out.append(["link", j, q, how, i, p, rng.choice(prios), 1])
        return out

    ops = []
    for k in range(n):
        for _ in range(rng.randint(0, 2)):
            ops.append(["listen", k, rng.randrange(2), rng.random() < 0.3, rng.choice(prios)])
    for _ in range(rng.randint(1, 2 * n)):
        ops += link()
    if rng.random() < 0.5:
        rng.shuffle(ops)
    for _ in range(rng.randint(5, 30)):
        x = rng.random()
        if x < 0.1:
            ops += link()
        elif x < 0.15:
            ops.append(["listen", rng.randrange(n), rng.randrange(2), rng.random() < 0.3, rng.choice(prios)])
        elif x < 0.2:
            ops.append(["unlink", rng.randrange(50)])
        elif x < 0.25:
            ops.append(["kill", rng.randrange(n)])
        elif x < 0.29:
            ops.append(["block", rng.randrange(n), rng.randrange(2)])
        elif x < 0.37:
            ops.append(["pause", rng.randrange(n), rng.randrange(2)])
        else:
            ops.append(["put", rng.randrange(n), rng.randrange(2), rng.randint(0, CAP)])
    return {"nodes": nodes, "raising": raising, "ops": ops}


WORKLOADS = [Workload("network", gen, run, quick=2500, thorough=60000)]


@evented
@attrs.define(slots=True, eq=False)
class Slotted:
    x: int = 0


def probe_cannot_store():
    def make():
        o = Slotted()
        o.events.x.connect(lambda v: o.x)
        return weakref.ref(o)

    r = make()
    gc.collect()
    if r() is not None:
        return "an evented object that cannot store its SignalGroup (slots, frozen, msgspec, pydantic.BaseModel) is kept alive forever by a connected callback that refers to it"
    return None


FINDINGS = {"self-reference-of-slotted": probe_cannot_store}
