"""C09: signals hold method owners weakly; dead callbacks vanish silently."""
import contextlib
import functools
import gc
import itertools
import threading
import warnings
import weakref
from dataclasses import dataclass

from psygnal import EmitLoopError, EventedModel, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance
from vh import zoo
from vh.core import Workload, attempt
from vh.props.c01 import Monitor

PROP = "C09"
TECHNIQUE = "runtime monitoring: online monitor of calls with a liveness model fed by the harness's own weak references; owners killed at random points (also inside callbacks, finalizers and cycles)"
RULE = (
    "`deaths`: histories as in C01 in which owners of callbacks of all weak kinds lose their last reference between and "
    "during emissions (in callbacks, in __del__, in cycles collected by gc.collect() inside callbacks), some of whose "
    "finalizers emit, connect or disconnect; `retention`: the owner of the signal, of callbacks and the emitted arguments "
    "are freed when they should (weak references die), functions are not; `unweak`: owners without weak references and all "
    "on_ref_error choices; non-trivial: an owner died while connected; distinct by case"
)
REQUIRE = {"deaths": 300, "deaths_in_emission": 100, "finalizer_actions": 50, "cycles": 30, "calls": 500, "arg_freed": 300, "owner_freed": 100, "function_kept": 50, "unweak_warn": 30, "unweak_raise": 30, "unweak_ignore": 30}

WEAK = ["method", "pmethod", "obj", "fmeth1", "setattr", "setitem", "psetitem", "classmeth", "method", "method", "conn_setattr", "conn_setitem", "kwpmethod", "kwpmethod2", "pobj", "dunder", "wrapper", "cmethod"]
if zoo._curry is None:
    WEAK.remove("cmethod")


class Deaths:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.case = case
        nargs = case["nargs"]
        if case["via"] == "descriptor":
            self.holder = type("T", (), {"sig": Signal(*[object] * nargs)})()
            self.sig = self.holder.sig
        else:
            self.sig = SignalInstance((object,) * nargs)
        self.nargs = nargs
        self.mon = Monitor(ctx, self.sig)
        self.strong = {}  # tag -> [callback, owner]
        self.weak = {}
        self.nmax = {}
        self.vals = itertools.count(1)
        self.programs = {k: list(p) for k, p in case["programs"].items()}
        self.finalizers = dict(case["finalizers"])
        self.budget = 40
        self.dead = set()
        for tag, kind in case["cbs"].items():
            self.create(tag, kind)

    def create(self, tag, kind):
        if kind.startswith("conn_"):
            owner = zoo.SinkAttr(tag, self.sink)
            cb, nmax = None, 1
        else:
            cb, owner, nmax = zoo.make(kind, tag, self.sink)
        self.nmax[tag] = nmax
        self.strong[tag] = [cb, owner]
        fin = self.finalizers.get(tag)
        r = weakref.ref(owner, lambda _, tag=tag: self.died(tag))
        self.weak[tag] = r
        if fin and isinstance(owner, (zoo.Owner, zoo.CallableObj)):
            owner.__class__ = type("F", (type(owner),), {"__del__": lambda o, fin=fin: self.finalize(fin), "__hash__": type(owner).__hash__})
        if tag in self.case["cycles"]:
            if kind != "classmeth":
                object.__setattr__(owner, "me", owner)

    def died(self, tag):
        self.dead.add(tag)
        n = [e for e in self.mon.entries if e[1] == tag]
        if n:
            self.ctx.count("deaths")
            if self.mon.stack:
                self.ctx.count("deaths_in_emission")
            self.ctx.nontrivial()
        for e in n:
            self.mon.entries.remove(e)

    def finalize(self, op):
        self.ctx.count("finalizer_actions")
        self.in_finalizer += 1
        try:
            self.do(op)
        except BaseException as e:
            self.finalizer_error = e
        finally:
            self.in_finalizer -= 1

    finalizer_error = None
    in_finalizer = 0

    def sink(self, tag, args):
        if tag in self.dead:
            self.ctx.fail(f"callback {tag} was called although its owner is gone")
        self.mon.call(tag, args, self.nmax[tag])
        prog = self.programs.get(tag)
        if prog:
            act = prog.pop(0)
            if act is not None:
                self.do(act)

    def do(self, op):
        mon, sig = self.mon, self.sig
        name, tag = op[0], op[1] if len(op) > 1 else None
        if name == "connect":
            if tag not in self.strong or len(mon.entries) > 30:
                return
            kind = self.case["cbs"][tag]
            prio = op[2]
            if kind == "conn_setattr":
                sig.connect_setattr(self.strong[tag][1], "x", maxargs=1, priority=prio)
            elif kind == "conn_setitem":
                sig.connect_setitem(self.strong[tag][1], "x", maxargs=1, priority=prio)
            elif op[3] == "thread":
                sig.connect(self.strong[tag][0], priority=prio, thread=threading.current_thread())
            elif op[3] == "deco":
                sig.connect(priority=prio)(self.strong[tag][0])
            elif op[3] == "maxargs" and self.nmax[tag] is None and not kind.endswith(("pmethod", "pmethod2", "pobj", "cmethod")):
                sig.connect(self.strong[tag][0], priority=prio, max_args=self.nargs)
            elif op[3] == "types":
                sig.connect(self.strong[tag][0], priority=prio, check_types=kind in ("method", "obj"))
            elif op[3] == "fresh" and kind == "method":
                sig.connect(self.strong[tag][1].meth, priority=prio)
            else:
                sig.connect(self.strong[tag][0], priority=prio)
            mon.add(tag, prio)
        elif name == "disconnect":
            if tag not in self.strong or self.case["cbs"][tag].startswith("conn_"):
                return
            cand = mon.candidates_for_removal(tag)
            if len(cand) > 1:
                return
            sig.disconnect(self.strong[tag][0])
            if cand:
                mon.entries.remove(cand[0])
        elif name == "kill":
            self.strong.pop(tag, None)
        elif name == "gc":
            for _ in range(3):  # (finalizers may drop more)
                gc.collect()
            if any(t not in self.strong and t not in self.dead for t in self.weak) and not mon.stack and not self.in_finalizer:
                alive = [t for t in self.weak if t not in self.strong and t not in self.dead]
                self.ctx.fail(f"owners {alive} have no references left but the signal's, and are alive after gc.collect()")
            self.ctx.count("cycles")
        elif name == "emit":
            if self.budget <= 0 or len(mon.stack) > 3:
                return
            self.budget -= 1
            args = tuple(f"v{next(self.vals)}" for _ in range(self.nargs))
            mon.begin(args)
            f = {"emit": sig.emit, "call": sig, "fast": sig.emit_fast}[op[1]]
            r = attempt(f, *args)
            if not r.ok:
                self.ctx.fail(f"{op[1]}{args} raised {r}")
            mon.end()
        if name != "kill":
            self.ctx.eq(len(sig), len(mon.entries), f"len(signal) after {op}, gone: {sorted(self.dead)}")


def run_deaths(case, ctx):
    d = Deaths(case, ctx)
    for op in case["ops"]:
        d.do(op)
        if d.finalizer_error is not None:
            raise d.finalizer_error
        # (checked here, when no frame of the signal is left)
        ctx.eq(len(d.sig), len(d.mon.entries), f"len(signal) after {op}")
    d.do(["gc"])
    d.do(["emit", "emit"])
    for t in list(d.strong):
        d.do(["kill", t])
    d.do(["gc"])
    ctx.eq(len(d.sig), 0, "connections after all owners are gone")
    d.do(["emit", "fast"])
    if d.finalizer_error is not None:
        raise d.finalizer_error
    ctx.nontrivial(tuple(d.mon.trace)) if ctx._nontrivial else None


def rand_op(rng, tags, in_cb):
    x = rng.random()
    if x < (0.15 if in_cb else 0.4):
        return ["emit", rng.choice(["emit", "fast", "call"])]
    if x < 0.65:
        return ["connect", rng.choice(tags), rng.choice([0, 0, 1, -1]), rng.choice(["plain", "plain", "thread", "deco", "maxargs", "types", "fresh"])]
    if x < 0.9:
        return ["kill", rng.choice(tags)]
    if x < 0.95:
        return ["gc"]
    return ["disconnect", rng.choice(tags)]


def gen_deaths(rng, i, tier):
    cbs = {}
    for k in range(rng.randint(2, 8)):
        kind = rng.choice(WEAK)
        cbs[f"{kind}{k}"] = kind
    tags = list(cbs)
    programs = {t: [rand_op(rng, tags, True) if rng.random() < 0.6 else None for _ in range(rng.randint(1, 6))] for t in tags if rng.random() < 0.6}
    fins = {t: rand_op(rng, tags, True) for t in tags if rng.random() < 0.25}
    ops = [["connect", t, rng.choice([0, 0, 1, -1]), rng.choice(["plain", "thread", "deco", "types", "fresh"])] for t in tags]
    ops += [rand_op(rng, tags, False) for _ in range(rng.randint(4, 20))]
    return {
        "nargs": rng.choice([1, 1, 2]), "via": rng.choice(["descriptor", "instance"]), "cbs": cbs, "programs": programs,
        "finalizers": fins, "cycles": [t for t in tags if rng.random() < 0.15], "ops": ops,
    }


# ---------------------------------------------------------------- retention


class Thing:
    pass


def run_retention(case, ctx):
    what = case["what"]
    ctx.nontrivial()
    if what == "args":
        return retention_args(case, ctx)
    if what == "owner":
        return retention_owner(case, ctx)
    return retention_function(case, ctx)


def retention_args(case, ctx):
    """Emitted arguments are freed once the emission is over."""
    kw = {"reemission": case["mode"]}
    group = None
    if case["group"]:
        group = type("G", (SignalGroup,), {"m": Signal(object, object, **kw), "n": Signal(object, object)})()
        sig = group.m
        group.connect(lambda info: None)
    else:
        holder = type("T", (), {"s": Signal(object, object, **kw)})()
        sig = holder.s
    own = zoo.Owner("o", lambda t, a: None)
    raising = case["raising"]
    nested = [case["nested"]]

    def reemit(a):
        if nested[0]:
            nested[0] -= 1
            emit_one()

    def fail(*a):
        if raising and nested[0] == 0:
            raise ValueError("x")

    for c in case["cbs"]:
        sig.connect({"func": lambda *a: None, "method": own.meth, "one": lambda a: None, "reemit": reemit, "fail": fail}[c])
    refs = []
    how = {"emit": sig.emit, "fast": sig.emit_fast, "call": sig, "check": functools.partial(sig.emit, check_nargs=True)}[case["how"]]

    def emit_one():
        a, b = Thing(), Thing()
        refs.append(weakref.ref(a))
        refs.append(weakref.ref(b))
        how(a, b)

    ctxm = {"none": contextlib.nullcontext, "paused": sig.paused, "reduced": lambda: sig.paused(lambda x, y: y), "blocked": sig.blocked}
    if group is not None:
        ctxm["gpaused"] = group.paused
    mgr = ctxm.get(case["ctx"], contextlib.nullcontext)

    def body():
        with mgr():
            for _ in range(case["n"]):
                with contextlib.suppress(EmitLoopError):
                    emit_one()

    with contextlib.suppress(EmitLoopError):
        body()
    if case["ctx"] in ("paused", "gpaused") and raising:
        # (some may not be delivered yet)
        for _ in range(10):
            for x in (sig, group):
                with contextlib.suppress(EmitLoopError):
                    if x is not None:
                        x.resume()
    if raising:
        gc.collect()
    alive = sum(r() is not None for r in refs)
    ctx.count("arg_freed", len(refs) - alive)
    ctx.check(not alive, lambda: f"{alive} of {len(refs)} emitted arguments are still alive after the emission ({case})")


def retention_owner(case, ctx):
    """The object that has the signal, and owners of callbacks, can be freed."""
    shape = case["shape"]
    if shape == "plain":
        T = type("T", (), {"s": Signal(int), "meth": lambda self, *a: None})
    elif shape == "slots":
        T = type("T", (), {"__slots__": ("__weakref__", "a"), "s": Signal(int), "meth": lambda self, *a: None})
    elif shape == "inherited":
        B = type("B", (), {"s": Signal(int)})
        T = type("T", (B,), {"meth": lambda self, *a: None})
    elif shape == "evented":

        @dataclass
        class T:
            s: int = 0
            events = SignalGroupDescriptor()

            def meth(self, *a): ...

    elif shape == "group":
        T = type("G", (SignalGroup,), {"s": Signal(int), "meth": lambda self, *a: None})
    elif shape == "unhashable":
        T = type("T", (), {"s": Signal(int), "__eq__": lambda a, b: True, "meth": lambda self, *a: None})
    obj = T()
    sig = obj.events.s if shape == "evented" else obj.s
    got = []
    n = 0
    if case["func"]:
        sig.connect(lambda v: got.append(v))
        n += 1
    if case["own_method"]:
        sig.connect(obj.meth)
    if case["group_listener"] and shape in ("evented", "group"):
        (obj.events if shape == "evented" else obj).connect(lambda info: None)
        n += 1
    other = type("Other", (), {"s": Signal(int), "cb": lambda self, v: got.append(v)})()
    other_cb_sig = case["cross"]
    if other_cb_sig:
        # obj's method connected to another object's signal, whose method is connected to obj's
        other.s.connect(obj.meth)
        sig.connect(other.cb)
    emitted = case["emit"]
    if emitted == "emit":
        if shape == "evented":
            obj.s = 1
        else:
            sig.emit(1)
    elif emitted == "fast":
        sig.emit_fast(1)
    elif emitted == "setattr":
        if shape in ("slots", "evented"):
            if shape == "slots":
                obj.a = 0
            other.s.connect_setattr(obj, "a" if shape == "slots" else "s", maxargs=1)
    keep = case["keep_sig"]
    if not keep:
        sig = None
    r = weakref.ref(obj)
    del obj
    if shape == "evented" or case["gc"]:
        gc.collect()
    ctx.check(r() is None, lambda: f"the object that a signal belongs to is kept alive ({case})")
    ctx.count("owner_freed")
    if keep:
        got.clear()
        if sig.instance is not None:
            ctx.fail("instance of a signal whose object is gone is not None")
        r2 = attempt(sig.emit, 7)
        ctx.check(r2.ok, lambda: f"emission of a signal whose object is gone: {r2}")
    if other_cb_sig:
        ctx.eq(len(other.s), 0, "connections of a method whose object is gone")
        ro = weakref.ref(other)
        n0 = len(sig) if keep else None
        del other
        ctx.check(ro() is None, "an object is kept alive by the signal to which its method is connected")
        if keep:
            ctx.eq(len(sig), n0 - 1, "connections after an owner is gone")


def retention_function(case, ctx):
    sig = SignalInstance((int,), reemission=case["mode"])
    got = []
    refs = []

    def add(kind):
        def f(v):
            got.append(v)

        if kind == "func":
            sig.connect(f)
        elif kind == "lambda":
            f = lambda v: got.append(v)  # noqa: E731
            sig.connect(f)
        elif kind == "partial":
            sig.connect(functools.partial(lambda a, v: got.append(v), 3))
        elif kind == "deco":
            sig.connect(priority=2)(f)
        elif kind == "static":
            sig.connect(type("K", (), {"m": staticmethod(f)}).m)
        elif kind == "default":
            sig.connect(lambda v, got=got: got.append(v))
        elif kind == "thread":
            sig.connect(f, thread="current")
        if kind in ("func", "deco", "thread"):
            refs.append(weakref.ref(f))

    for k in case["cbs"]:
        add(k)
    gc.collect()
    junk = [type("X", (), {})() for _ in range(20)]
    ctx.eq(len(sig), len(case["cbs"]), "connections of functions that are referenced by the signal only")
    for how in (sig.emit, sig.emit_fast):
        got.clear()
        how(5)
        ctx.eq(got, [5] * len(case["cbs"]), "calls of functions that are referenced by the signal only")
    ctx.count("function_kept", len(case["cbs"]))
    del junk


def gen_retention(rng, i, tier):
    what = rng.choice(["args", "args", "args", "owner", "owner", "function"])
    mode = rng.choice(["immediate", "queued", "latest-only"])
    if what == "args":
        group = rng.random() < 0.4
        return {
            "what": what, "mode": mode, "group": group, "raising": rng.random() < 0.3, "nested": rng.choice([0, 0, 1, 3]),
            "cbs": [rng.choice(["func", "method", "one", "reemit", "fail"]) for _ in range(rng.randint(0, 4))],
            "how": rng.choice(["emit", "fast", "call", "check"]) if not group else rng.choice(["emit", "call"]),
            "ctx": rng.choice(["none", "none", "none", "paused", "reduced", "blocked", "gpaused"]), "n": rng.randint(1, 4),
        }
    if what == "owner":
        return {
            "what": what, "shape": rng.choice(["plain", "slots", "inherited", "evented", "group", "unhashable"]), "func": rng.random() < 0.6, "own_method": rng.random() < 0.5,
            "group_listener": rng.random() < 0.5, "cross": rng.random() < 0.4, "emit": rng.choice(["no", "emit", "fast", "setattr"]), "keep_sig": rng.random() < 0.6, "gc": rng.random() < 0.3,
        }
    return {"what": what, "mode": mode, "cbs": [rng.choice(["func", "lambda", "partial", "deco", "static", "default", "thread"]) for _ in range(rng.randint(1, 6))]}


# ---------------------------------------------------------------- owners without weak references


class NoWeak:
    __slots__ = ("log", "x")

    def __init__(self):
        self.log = []
        self.x = None

    def meth(self, v):
        self.log.append(v)

    def __setitem__(self, k, v):
        self.log.append(v)

    def __call__(self, v):
        self.log.append(v)


@dataclass
class UField:
    s: int = -1
    events = SignalGroupDescriptor()


class UModel(EventedModel):
    s: int = -1


def unweak_signal(via):
    """Return (what to connect to, how to emit, the number emitted from the argument received, owner)."""
    same = lambda v: v  # noqa: E731
    if via == "instance":
        sig = SignalInstance((int,))
        return sig, (sig.emit, sig.emit_fast), same, None
    if via in ("group", "all"):
        g = type("G", (SignalGroup,), {"s": Signal(int), "t": Signal(int)})()
        return (g if via == "group" else g.all), (g.s.emit, g.t.emit), lambda info: info.args[0], g
    obj = UField() if via == "field" else UModel()
    sig = obj.events.s
    if via == "field":
        return sig, (lambda k: sig.emit(k, None), lambda k: setattr(obj, "s", k)), same, obj
    return sig, (sig.emit, lambda k: setattr(obj, "s", k)), same, obj


def run_unweak(case, ctx):
    sig, hows, decode, _owner = unweak_signal(case["via"])
    choice = case["choice"]
    conns = sig.all if isinstance(sig, SignalGroup) else sig
    ctx.nontrivial()
    other = []
    sig.connect(lambda v: other.append(decode(v)), priority=case["prio"])

    def go():
        o = NoWeak()
        kw = {} if choice == "default" else {"on_ref_error": choice}
        form = case["form"]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            one = {"max_args": 1} if case["via"] == "field" else {}
            if form == "setattr":
                r = attempt(conns.connect_setattr, o, "x", maxargs=1, **kw)
            elif form == "setitem":
                r = attempt(conns.connect_setitem, o, "k", maxargs=1, **kw)
            elif form == "method":
                r = attempt(sig.connect, o.meth, check_nargs=False, **one, **kw)
            elif form == "obj":
                r = attempt(sig.connect, o, check_nargs=False, **one, **kw)
            elif form == "list":
                lst = o.log
                r = attempt(sig.connect, lst.append, check_nargs=False, max_args=1, **kw)
        return r, len(w), (o.log if form != "setattr" else None), o

    r, nwarn, log, o = go()
    if choice == "raise":
        ctx.check(not r.ok and isinstance(r.exc, (TypeError, ReferenceError)), lambda: f"{case}: {r}, expected a rejection")
        ctx.eq(len(conns), 1, "connections after rejection")
        ctx.count("unweak_raise")
        return
    ctx.check(r.ok, lambda: f"{case}: {r}")
    if choice in ("warn", "default"):
        ctx.check(nwarn >= 1, f"{case}: no warning")
        ctx.count("unweak_warn")
    else:
        ctx.eq(nwarn, 0, f"{case}: warnings")
        ctx.count("unweak_ignore")
    if case["form"] != "setattr":
        del o
        gc.collect()
    ctx.eq(len(conns), 2, "connections")
    for k, how in enumerate(hows):
        how(k)
        ctx.eq(other, list(range(k + 1)), "calls of another callback")
        if case["form"] == "setattr":
            ctx.eq(decode(o.x), k, "attribute of an object that is held strongly")
        else:
            ctx.eq([decode(x) for x in log], list(range(k + 1)), "calls of a callback that is held strongly")


def gen_unweak(rng, i, tier):
    # (setters: their default is 'warn' as well)
    return {"choice": rng.choice(["raise", "warn", "ignore", "default"]), "form": rng.choice(["setattr", "setitem", "method", "obj", "list"]), "prio": rng.choice([0, 1, -1]),
            "via": rng.choice(["instance", "instance", "group", "all", "field", "model"])}


def kf_on_ref_error():
    sig = SignalInstance((int,))
    r = attempt(sig.connect, NoWeak().meth, on_ref_error="raise")
    if r.ok:
        return "connect(obj.method, on_ref_error='raise') is accepted for an object that cannot be weakly referenced (the default arity check turns on_ref_error into 'ignore')"
    return None


FINDINGS = {"on-ref-error-ignored": kf_on_ref_error}
WORKLOADS = [
    Workload("deaths", gen_deaths, run_deaths, quick=4000, thorough=80000, shrink=("ops", "cycles") + tuple(f"{k}{i}" for k in set(WEAK) for i in range(8))),
    Workload("retention", gen_retention, run_retention, quick=2500, thorough=30000, shrink=("cbs",)),
    Workload("unweak", gen_unweak, run_unweak, quick=700, thorough=1000, shrink=()),
]
