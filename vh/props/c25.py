"""C25: copying and pickling signals."""
import contextlib
import copy
import gc
import pickle
import types
import warnings
from dataclasses import dataclass, field
from functools import partial
from typing import ClassVar

import attrs
import msgspec
import pydantic

from psygnal import EventedModel, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance
from vh.core import Workload, attempt

PROP = "C25"
TECHNIQUE = "runtime monitoring: every original, copy and copy of a copy is run in lock-step with its own executable model of connections, pending arguments and options; call logs compared after every operation"
RULE = (
    "random histories of connections (functions, partials, lambdas, weakly referenced methods/setattr/setitem; priorities, argument limits), block, pause, emissions and copies (deepcopy, pickle "
    "protocols 2-5, of the signal or of its owner, from inside callbacks, chains of copies) on all signal configurations, with all copies used afterwards; objects with signal groups, nested and "
    "cyclic; non-trivial: a copy with a pending emission or several connections was made and used, distinct by case"
)
REQUIRE = {"ops": 20000, "copies": 5000, "copies_of_copies": 1000, "calls": 20000, "dropped_weak": 2000, "kept": 5000, "pending_copied": 500, "other_process": 1000, "shallow": 300, "in_callback": 300, "groups": 500, "probes": 2000}
ASSUMPTIONS = [
    "lambdas and other local functions are deep-copied, not pickled",
    "bound arguments of partials are immutable",
    "the instance of a copied SignalInstance is only judged if the owner was copied",
]

LOG = []


def f_any(*a):
    LOG.append(("any", a))


def f_0():
    LOG.append(("0", ()))


def f_1(a):
    LOG.append(("1", (a,)))


def f_2(a, b):
    LOG.append(("2", (a, b)))


def f_opt(a, b=9):
    LOG.append(("opt", (a, b)))


def f_kw(*a, tag="none"):
    LOG.append((tag, a))


def f_bound(tag, a):
    LOG.append((tag, (a,)))


HOOK = [None]


def f_hook(a):
    """Runs something during the emission."""
    LOG.append(("hook", (a,)))
    if HOOK[0]:
        h, HOOK[0] = HOOK[0], None
        h()


# name -> (function, log entry for args)
FUNCS = {
    "any": (f_any, lambda a: ("any", a)),
    "0": (f_0, lambda a: ("0", ())),
    "1": (f_1, lambda a: ("1", a[:1])),
    "2": (f_2, lambda a: ("2", a[:2])),
    "opt": (f_opt, lambda a: ("opt", (a + (9,))[:2] if len(a) < 2 else a[:2])),
    "hook": (f_hook, lambda a: ("hook", a[:1])),
}
NEED = {"any": 0, "0": 0, "1": 1, "2": 2, "opt": 1, "hook": 1}
MOST = {"any": 2, "0": 0, "1": 1, "2": 2, "opt": 2, "hook": 1}


class Holder:
    def __init__(self, name):
        object.__setattr__(self, "name", name)
        object.__setattr__(self, "val", None)

    def meth(self, a):
        LOG.append((self.name, (a,)))

    def __setattr__(self, n, v):
        if n == "val":
            LOG.append((self.name, ("set", v)))
        object.__setattr__(self, n, v)

    def __setitem__(self, k, v):
        LOG.append((self.name, ("item", v)))


class Own:
    a = Signal(int, int, description="first")
    b = Signal(int, int, reemission="queued", check_nargs_on_connect=False)
    c = Signal(int, int, name="other", reemission="latest-only", check_types_on_connect=True)

    def __init__(self):
        self.data = [1]


class SubOwn(Own):
    d = Signal(int, int)


NAMES = {f.__name__: f for f in (f_any, f_0, f_1, f_2, f_opt, f_kw, f_hook, f_bound)}
_ANY = {n: f.__name__ for n, (f, _) in FUNCS.items()}


@contextlib.contextmanager
def process(funcs):
    """The module's functions are these."""
    globals().update(funcs)
    try:
        yield
    finally:
        globals().update(NAMES)


def new_process():
    """The module's functions as another process has them."""
    new = {}
    for n, f in NAMES.items():
        new[n] = g = types.FunctionType(f.__code__, f.__globals__, n, f.__defaults__)
        g.__kwdefaults__, g.__module__, g.__qualname__ = f.__kwdefaults__, f.__module__, f.__qualname__
    return new


class Model:
    """What a signal has to do."""

    funcs = NAMES

    def __init__(self, mode, nargs, types):
        self.cbs = []  # (key, priority, log function)
        self.blocked = self.paused = False
        self.queue = []
        self.mode, self.nargs, self.types = mode, nargs, types

    def copy(self):
        m = Model(self.mode, self.nargs, self.types)
        m.funcs = self.funcs
        m.cbs = [c for c in self.cbs if c[3]]
        m.blocked, m.paused, m.queue = self.blocked, self.paused, list(self.queue)
        return m

    def order(self):
        return sorted(self.cbs, key=lambda c: -c[1])

    def deliver(self, args, out):
        for _key, _p, f, _strong in self.order():
            out.append(f(args))


def run_signals(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        HOOK[0] = None
        _run(case, ctx)


def _run(case, ctx):
    cfg = case["cfg"]
    # a world: the object that holds the signals, its signals by name and their models
    if case["owner"]:
        o = (SubOwn if case["owner"] == 2 else Own)()
        names = ["a", "b", "c"]
        models = {"a": Model("immediate", True, False), "b": Model("queued", False, False), "c": Model("latest-only", True, True)}
        worlds = [(o, models, 0)]
    else:
        types = {"int": (int, int), "obj": (object, object)}[cfg["types"]]
        s = SignalInstance(types, name=cfg["name"], description=cfg["desc"], reemission=cfg["mode"], check_nargs_on_connect=cfg["nargs"], check_types_on_connect=cfg["check_types"])
        names = ["s"]
        worlds = [(s, {"s": Model(cfg["mode"], cfg["nargs"], cfg["check_types"])}, 0)]
    holders = {}
    lambdas = {}
    counter = [0]

    def sig(w, n):
        return getattr(worlds[w][0], n) if case["owner"] else worlds[w][0]

    def expect(want, what):
        got = LOG[:]
        LOG.clear()
        ctx.count("calls", len(got))
        ctx.eq(got, want, what)

    def attributes(w, ref, what):
        for n in names:
            s, t = sig(w, n), sig(ref, n)
            ctx.check(type(s) is type(t) and s is not t, what)
            ctx.eq((s.name, s.signature, s.description), (t.name, t.signature, t.description), f"{what}: name, signature, description")
            m = worlds[w][1][n]
            ctx.eq(len(s), len(m.cbs), f"{what}: number of callbacks")
            if case["owner"]:
                ctx.check(s.instance is worlds[w][0], f"{what}: instance of the signal")

    def dup(w, how, what):
        obj, models, gen = worlds[w]
        if how == "deepcopy":
            new = copy.deepcopy(obj)
        elif how == "nested":
            new = copy.deepcopy({"x": [obj], "y": obj})
            ctx.check(new["x"][0] is new["y"], f"{what}: two copies")
            new = new["y"]
        elif how == "copy":
            if case["owner"]:
                return None  # (a shallow copy of an object shares what it has)
            new = copy.copy(obj)
            ctx.count("shallow")
        else:
            if any(c[0][0] == "lambda" for m in models.values() for c in m.cbs):
                return None
            other = how.startswith("proc")
            m = next(iter(models.values()))
            with process(m.funcs):
                data = pickle.dumps(obj, int(how[-1]))
            funcs = new_process() if other else m.funcs
            with process(funcs):
                new = pickle.loads(data)
            if other:
                ctx.count("other_process")
        ctx.count("copies")
        if gen:
            ctx.count("copies_of_copies")
        for m in models.values():
            ctx.count("dropped_weak", sum(not c[3] for c in m.cbs))
            ctx.count("kept", sum(bool(c[3]) for c in m.cbs))
            ctx.count("pending_copied", bool(m.queue))
            if m.queue or len(m.cbs) > 2:
                ctx.nontrivial()
        worlds.append((new, {n: m.copy() for n, m in models.items()}, gen + 1))
        if how not in ("deepcopy", "nested", "copy"):
            for m in worlds[-1][1].values():
                m.funcs = funcs
        return len(worlds) - 1

    def do(op):
        kind = op[0]
        w = op[1] % len(worlds)
        n = names[op[2] % len(names)]
        m = worlds[w][1][n]
        s = sig(w, n)
        what = f"{op} on world {w} (of {len(worlds)})"
        if kind == "connect":
            fn, prio, limit = op[3], op[4], op[5]
            if fn in FUNCS:
                if limit is not None and limit < NEED[fn]:
                    limit = None
                if limit is not None:
                    limit = min(limit, MOST[fn])
                if not m.nargs:  # (without the check, it is up to the user)
                    limit = MOST[fn] if limit is None else limit
                f, log = m.funcs[_ANY[fn]], FUNCS[fn][1]
                key = ("func", fn)
                s.connect(f, priority=prio, max_args=limit)
                # (how many arguments a callback gets was determined when connecting)
                cut = 2 if limit is None else limit
                m.cbs.append((key, prio, lambda a, log=log, cut=cut: log(a[:cut]), True))
            elif fn == "partial":
                counter[0] += 1
                tag = f"p{counter[0]}"
                if any(c[0] == ("partial",) for c in m.cbs):
                    return  # (partials of one function count as the same callback)
                s.connect(partial(m.funcs["f_kw"], tag=tag), priority=prio, max_args=limit)
                m.cbs.append((("partial",), prio, lambda a, tag=tag, limit=limit: (tag, a[: 2 if limit is None else limit]), True))
            elif fn == "bound":
                # takes one of the two arguments because of the bound one
                counter[0] += 1
                tag = f"b{counter[0]}"
                if any(c[0] == ("bound",) for c in m.cbs):
                    return
                s.connect(partial(m.funcs["f_bound"], tag), priority=prio, max_args=None if m.nargs else 1)
                m.cbs.append((("bound",), prio, lambda a, tag=tag: (tag, a[:1]), True))
            elif fn == "lambda":
                counter[0] += 1
                tag = f"l{counter[0]}"
                lam = lambda *a, tag=tag: LOG.append((tag, a))  # noqa: E731
                lambdas[tag] = lam
                s.connect(lam, priority=prio, max_args=limit if limit is not None else 2)
                m.cbs.append((("lambda", tag), prio, lambda a, tag=tag, limit=limit: (tag, a[: 2 if limit is None else limit]), True))
            else:
                counter[0] += 1
                tag = f"w{counter[0]}"
                h = holders[tag] = Holder(tag)
                if fn == "method":
                    s.connect(h.meth, priority=prio, max_args=1)
                    m.cbs.append((("weak", tag), prio, lambda a, tag=tag: (tag, a[:1]), False))
                elif fn == "setattr":
                    s.connect_setattr(h, "val", maxargs=1, priority=prio)
                    m.cbs.append((("weak", tag), prio, lambda a, tag=tag: (tag, ("set", a[0])), False))
                else:
                    s.connect_setitem(h, "k", maxargs=1, priority=prio)
                    m.cbs.append((("weak", tag), prio, lambda a, tag=tag: (tag, ("item", a[0])), False))
        elif kind == "disconnect":
            if op[3] is None:
                s.disconnect()
                m.cbs = []
            else:
                f = m.funcs[_ANY[op[3]]]
                here = [c for c in m.cbs if c[0] == ("func", op[3])]
                ctx.eq(f in s, bool(here), f"{what}: in")
                r = attempt(s.disconnect, f, missing_ok=False)
                ctx.check(r.ok == bool(here), lambda: f"{what}: {r}; connected {m.cbs}")
                if here:
                    m.cbs.remove(max(here, key=lambda c: c[1]))  # (the first one called)
        elif kind == "unique":
            f = m.funcs[_ANY[op[3]]]
            here = [c for c in m.cbs if c[0] == ("func", op[3])]
            r = attempt(s.connect, m.funcs[_ANY[op[3]]], unique="raise", max_args=MOST[op[3]])
            ctx.check(r.ok != bool(here), lambda: f"{what}: {r} (unique)")
            if not here:
                m.cbs.append((("func", op[3]), 0, lambda a, log=FUNCS[op[3]][1]: log(a), True))
        elif kind == "emit":
            counter[0] += 1
            args = (counter[0], -counter[0])
            want = []
            if not m.blocked:
                if m.paused:
                    m.queue.append(args)
                else:
                    m.deliver(args, want)
            s.emit(*args)
            expect(want, what)
        elif kind == "block":
            s.block() if op[3] else s.unblock()
            m.blocked = op[3]
        elif kind == "pause":
            if op[3]:
                s.pause()
                m.paused = True
            else:
                want = []
                if m.cbs:
                    for a in m.queue:
                        m.deliver(a, want)
                m.queue = []
                m.paused = False
                s.resume()
                expect(want, what)
        elif kind == "copy":
            new = dup(w, op[3], what)
            if new is not None:
                attributes(new, w, what)
                expect([], what)
        elif kind == "copy_in_callback":
            # the copy is made while this signal is emitting
            if m.blocked or m.paused or not m.cbs or not any(c[0] == ("func", "hook") for c in m.cbs):
                return
            ctx.count("in_callback")
            made = []
            HOOK[0] = lambda: made.append(dup(w, op[3], what))
            args = (0, 0)
            want = []
            m.deliver(args, want)
            s.emit(*args)
            HOOK[0] = None
            expect(want, what)
            if made and made[0] is not None:
                attributes(made[0], w, what)
        elif kind == "kill":
            # weakly referenced callbacks of the original die
            for tag in list(holders):
                for _, ms, _g in worlds:
                    for mm in ms.values():
                        mm.cbs = [c for c in mm.cbs if c[0] != ("weak", tag)]
            holders.clear()
            gc.collect()
        elif kind == "probe":
            # options, as seen from outside
            ctx.count("probes")
            if m.blocked or m.paused:
                return
            s.disconnect()
            m.cbs = []
            tr = []

            def p1(x, y):
                tr.append(("p1", x))
                if x == 1:
                    s.emit(2, 0)

            def p2(x, y):
                tr.append(("p2", x))

            s.connect(p1)
            s.connect(p2)
            s.emit(1, 0)
            want = {
                "immediate": [("p1", 1), ("p1", 2), ("p2", 2), ("p2", 1)],
                "queued": [("p1", 1), ("p2", 1), ("p1", 2), ("p2", 2)],
                "latest-only": [("p1", 1), ("p1", 2), ("p2", 2)],
            }[m.mode]
            ctx.eq(tr, want, f"{what}: reemission {m.mode}")
            s.disconnect()

            def three(a, b, c):
                pass

            def strings(a: str, b: str):
                pass

            r = attempt(s.connect, three)
            ctx.check(r.ok != m.nargs, lambda: f"{what}: connecting a function with too many arguments: {r}; check_nargs_on_connect={m.nargs}")
            s.disconnect()
            r = attempt(s.connect, strings)
            if m.nargs and (case["owner"] or cfg["types"] == "int"):
                ctx.check(r.ok != m.types, lambda: f"{what}: connecting a function with wrong types: {r}; check_types_on_connect={m.types}")
            s.disconnect()
        for i, (_, ms, _g) in enumerate(worlds):
            for nn, mm in ms.items():
                t = sig(i, nn)
                ctx.check(len(t) == len(mm.cbs), lambda: f"{what}: world {i}: {len(t)} callbacks; expected {len(mm.cbs)}")

    LOG.clear()
    for op in case["ops"]:
        ctx.count("ops")
        do(op)
    # in the end, everything is emitted everywhere
    for i, (_, ms, _g) in enumerate(worlds):
        for k, nn in enumerate(names):
            do(["block", i, k, False])
            do(["pause", i, k, False])
            do(["emit", i, k])
            do(["probe", i, k])
    ctx.check(Signal.current_emitter() is None, "current_emitter after everything")


def gen_signals(rng, i, tier):
    def target():
        return rng.randrange(6), rng.randrange(3)

    cbs = list(FUNCS) * 2 + ["hook", "partial", "bound", "method", "method", "setattr", "setitem"] + ["lambda"] * rng.choice([0, 0, 1])
    ops = []
    for _ in range(rng.randint(4, 30)):
        x = rng.random()
        t = target()
        if x < 0.35:
            ops.append(["connect", *t, rng.choice(cbs), rng.choice([0, 0, 0, 1, -1, 5]), rng.choice([None, None, 0, 1, 2])])
        elif x < 0.42:
            ops.append(["disconnect", *t, rng.choice(list(FUNCS)) if rng.random() < 0.9 else None])
        elif x < 0.45:
            ops.append(["unique", *t, rng.choice(list(FUNCS))])
        elif x < 0.62:
            ops.append(["emit", *t])
        elif x < 0.66:
            ops.append(["block", *t, rng.random() < 0.5])
        elif x < 0.75:
            ops.append(["pause", *t, rng.random() < 0.6])
        elif x < 0.90:
            ops.append(["copy", *t, rng.choice(["deepcopy", "deepcopy", "nested", "copy", "2", "3", "4", "5", "proc4", "proc5"])])
        elif x < 0.97:
            ops.append(["copy_in_callback", *t, rng.choice(["deepcopy", "5", "copy"])])
        else:
            ops.append(["kill", *t])
    cfg = {"name": rng.choice([None, "nom", ""]), "desc": rng.choice(["", "text"]), "types": rng.choice(["int", "obj"]), "mode": rng.choice(["immediate", "queued", "latest-only"]), "nargs": rng.random() < 0.6, "check_types": rng.random() < 0.4}
    if cfg["name"] is None:
        cfg["name"] = "x"
    return {"owner": rng.choice([0, 0, 1, 2]), "cfg": cfg, "ops": ops}


# ------------------------------------------------------------------ groups


class Grp(SignalGroup):
    one = Signal(int)
    two = Signal(str, reemission="queued")


class Manual:
    def __init__(self, v=1):
        self.events = Grp(self)
        self.v = v
        self.link = None

    def change(self, i):
        self.v = i
        self.events.one.emit(i)


@dataclass
class Data:
    v: int = 1
    items: list = field(default_factory=list)
    link: object = None
    events = SignalGroupDescriptor()

    def change(self, i):
        self.v = i


@dataclass
class DataEq:
    v: int = 1
    link: object = None
    changed = SignalGroupDescriptor()

    def change(self, i):
        self.v = i

    @property
    def events(self):
        return self.changed


class Uniform(SignalGroup, strict=True):
    one = Signal(int)
    three = Signal(int)


class WithPrivate:
    """The group is created on access and kept under another name."""

    def __init__(self, v=1):
        self._group = Uniform(instance=self)
        self.v = v
        self.link = None

    @property
    def events(self):
        return self._group

    def change(self, i):
        self.v = i
        self.events.one.emit(i)


class Changing:
    def change(self, i):
        self.v = i


@dataclass(eq=False)
class SubData(Data):
    w: int = 2


@attrs.define(eq=False)
class Attrs(Changing):
    v: int = 1
    link: object = None
    events: ClassVar = SignalGroupDescriptor()


class Struct(msgspec.Struct, Changing, weakref=True, eq=False, dict=True):
    v: int = 1
    link: object = None
    events: ClassVar = SignalGroupDescriptor()


class Basic(Changing, pydantic.BaseModel):
    v: int = 1
    events: ClassVar = SignalGroupDescriptor()


class Evented(Changing, EventedModel):
    v: int = 1


class Evented2(Evented):
    w: int = 1


GROUPS = {
    "manual": Manual,
    "data": Data,
    "dataeq": DataEq,
    "private": WithPrivate,
    "sub": SubData,
    "attrs": Attrs,
    "struct": Struct,
    "basic": Basic,
    "evented": Evented,
    "evented2": Evented2,
}
LINKED = ("manual", "data", "dataeq", "private", "sub", "attrs")  # (msgspec cannot copy cycles)


def run_groups(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _groups(case, ctx)


def _groups(case, ctx):
    objs = [GROUPS[k](v=case["v"]) for k in case["objs"]]
    for i, j in enumerate(case["links"]):
        if j is not None and objs and case["objs"][i % len(objs)] in LINKED:
            objs[i % len(objs)].link = objs[j % len(objs)]
    member = {c: "one" if c in (Manual, WithPrivate) else "v" for c in GROUPS.values()}
    log = []

    def listen(o, tag, how):
        if how in ("group", "both"):
            o.events.connect(lambda info, tag=tag: log.append((tag, "group", info.signal.name, tuple(info.args)[0])))
        if how in ("member", "both"):
            o.events[member[type(o)]].connect(lambda x, *_, tag=tag: log.append((tag, "member", member[type(o)], x)))

    def want(o, tag, how, v):
        m = member[type(o)]
        w = []
        if how in ("member", "both"):
            w.append((tag, "member", m, v))
        if how in ("group", "both"):
            w.append((tag, "group", m, v))
        return sorted(w)

    hows = {}
    for i, o in enumerate(objs):
        hows[i] = case["how"][i % len(case["how"])]
        listen(o, i, hows[i])
        if case["blocked"] == i:
            o.events.block() if case["block_kind"] else o.events.all.block()
    lens = [(len(o.events.all), [len(o.events[n]) for n in o.events]) for o in objs]
    src = objs if case["as"] == "list" else {"k": objs, "again": objs}
    r = attempt(copy.deepcopy, src)
    ctx.check(r.ok, lambda: f"deepcopy: {r}")
    new = r.val if case["as"] == "list" else r.val["k"]
    ctx.count("groups", len(objs))
    ctx.check([(len(o.events.all), [len(o.events[n]) for n in o.events]) for o in objs] == lens, "copying changed the connections of the original")
    for i, (o, c) in enumerate(zip(objs, new)):
        ctx.check(type(c) is type(o) and c is not o and c.v == o.v, f"copy of {type(o).__name__}")
        g = c.events
        ctx.check(g is not o.events and type(g) is type(o.events), f"the group of the copy of {type(o).__name__} is shared")
        ctx.check(g.all.instance is c, lambda: f"the group of the copy of {type(o).__name__} belongs to {g.all.instance!r}")
        ctx.check(all(g[n].instance is g and g[n] is not o.events[n] for n in g), f"the signals of the copy of {type(o).__name__} belong to something else")
        fresh = GROUPS[case["objs"][i]](v=0).events
        ctx.eq([len(g.all)] + [len(g[n]) for n in g], [len(fresh.all)] + [len(fresh[n]) for n in fresh], f"callbacks of the group of the copy of {type(o).__name__}")
        ctx.check(list(g) == list(o.events), "names of the signals")
        if getattr(o, "link", None) is not None:
            ctx.check(c.link is new[next(k for k, x in enumerate(objs) if x is o.link)], "links between the copies")
    # changes on either side reach their own listeners only
    tags = {}
    for i, c in enumerate(new):
        tags[i] = case["how"][(i + 1) % len(case["how"])]
    for step, (side, i, connect) in enumerate(case["steps"]):
        i %= len(objs)
        side_objs = new if side else objs
        o = side_objs[i]
        if side and connect and ("done", i) not in tags:
            tags["done", i] = True
            listen(o, ("copy", i), tags[i])
        log.clear()
        v = 100 + step
        o.change(v)
        if side:
            w = want(o, ("copy", i), tags[i], v) if ("done", i) in tags else []
        else:
            w = want(o, i, hows[i], v) if case["blocked"] != i else None
        if w is not None:
            ctx.eq(sorted(log, key=lambda e: (e[1] != "group", str(e))), sorted(w, key=lambda e: (e[1] != "group", str(e))), f"change of {'copy' if side else 'original'} {i} ({type(o).__name__})")
        else:
            ctx.check(all(e[0] == i for e in log), lambda: f"events {log}")
        other = objs if side else new
        ctx.check(other[i].v != v, "the other object changed")
    ctx.nontrivial()


def gen_groups(rng, i, tier):
    n = rng.randint(1, 4)
    return {
        "objs": [rng.choice(list(GROUPS)) for _ in range(n)],
        "v": rng.randint(0, 9),
        "links": [rng.choice([None, rng.randrange(n)]) for _ in range(n)],
        "how": [rng.choice(["group", "member", "both", "none"]) for _ in range(3)],
        "blocked": rng.choice([None, None, rng.randrange(n)]),
        "block_kind": rng.random() < 0.5,
        "as": rng.choice(["list", "dict"]),
        "steps": [[rng.random() < 0.5, rng.randrange(4), rng.random() < 0.5] for _ in range(rng.randint(2, 12))],
    }


WORKLOADS = [
    Workload("signals", gen_signals, run_signals, quick=4000, thorough=80000),
    Workload("groups", gen_groups, run_groups, quick=1500, thorough=20000, shrink=("steps", "objs")),
]
