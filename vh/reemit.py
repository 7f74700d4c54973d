"""Programs of callbacks that emit, raise and catch, run on real signals and on an executable model.

The same callback bodies run in both worlds; the traces (calls, emissions, returns,
exceptions caught) have to be the same.
"""
from __future__ import annotations

import contextlib
import functools
import operator

from pydantic import ConfigDict

from psygnal import EmitLoopError, EventedModel, Signal, SignalGroup, SignalInstance
from vh.core import Violation, find_violation


class Boom(Exception):
    pass


class BoomValue(ValueError):
    pass


class Picky(Exception):
    """Exception that can't be re-created from its args."""

    def __init__(self, a, b, *, c):
        super().__init__("picky")


class BadStr(Exception):
    """Exception that can't be formatted."""

    def __str__(self):
        raise KeyError("no str")

    __repr__ = __str__


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Num(int):
    """Number that can't be formatted."""

    def __repr__(self):
        raise KeyError("no repr")

    __str__ = __repr__


def _no(self):
    raise ValueError("no truth value, no repr, ...")


OWNERS = {
    "plain": {},
    "falsy": {"__bool__": lambda self: False},
    "empty": {"__len__": lambda self: 0},
    "ambiguous": {"__bool__": _no},
    "badrepr": {"__repr__": _no, "__str__": _no},
    "getattr": {"__getattr__": lambda self, n: _no(self) if n.startswith("zz") else "x"},
    "eq": {"__eq__": lambda self, o: _no(self), "__hash__": None},
}

def chained(e, cause, context=None):
    e.__cause__, e.__context__ = cause, context
    return e


EXC = {
    "chained": lambda n: chained(Boom(n), KeyError("cause")),
    "context": lambda n: chained(BoomValue(n), None, RecursionError("context")),
    "chained_ref": lambda n: chained(KeyError(n), ReferenceError("cause"), ReferenceError("context")),
    "group": lambda n: BaseExceptionGroup("several", [Boom(n), KeyError(n)]),
    "boom": lambda n: Boom(n),
    "value": lambda n: BoomValue(n),
    "picky": lambda n: Picky(1, 2, c=3),
    "stop": lambda n: StopIteration(n),
    "attr": lambda n: AttributeError(n),
    "ref": lambda n: ReferenceError(n),
    "os": lambda n: OSError(2, "x"),
    "assert": lambda n: AssertionError(n),
    "badstr": lambda n: BadStr(n),
    "falsy": lambda n: Falsy(n),
    "type": lambda n: TypeError("f() takes 1 positional argument but 2 were given"),
}


class Wrapped(Exception):
    """What emit raises in the model."""

    def __init__(self, orig):
        self.orig = orig


class World:
    def __init__(self, case):
        self.case = case
        self.trace = []
        self.pos = {}
        self.serial = 0
        self.depth = 0
        self.budget = case.get("budget", 60)
        self.raised = []

    def body(self, cb, value):
        self.trace.append(("call", cb, value if type(value) is int else int(value)))
        self.probe(cb)
        progs = self.case["programs"].get(cb, [])
        i = self.pos.get(cb, 0)
        self.pos[cb] = i + 1
        if i < len(progs):
            self.depth += 1
            try:
                for act in progs[i]:
                    try:
                        self.act(act)
                    finally:
                        self.probe(cb)
            finally:
                self.depth -= 1

    def probe(self, cb):
        """Called at the beginning of each callback and after each of its actions."""

    def new_exc(self, kind):
        e = EXC[kind](len(self.raised))
        self.raised.append(e)
        self.trace.append(("raise", len(self.raised) - 1, kind))
        return e

    def act(self, act):
        name = act[0]
        if name == "raise":
            raise self.new_exc(act[1])
        if self.budget <= 0 or self.depth > 25:
            return
        if name == "emit":
            self.emit(act[1])
        elif name == "try":
            self.try_emit(act[1])
        elif name == "tryraise":
            try:
                self.emit(act[1])
            except Exception as e:
                self.caught(e)
                raise self.new_exc(act[2])
        elif name == "tryfinally":
            try:
                self.emit(act[1])
            finally:
                self.emit(act[2])
        elif name == "pause":
            self.pause(act[1])
        elif name == "resume":
            self.trace.append(("resume", act[1]))
            self.resume(act[1])
            self.trace.append(("resumed", act[1]))
        elif name == "ctx":
            with self.paused(act[1]):
                for a in act[2]:
                    self.act(a)
            self.trace.append(("left", act[1]))

    def try_emit(self, s):
        try:
            self.emit(s)
        except Exception as e:
            self.caught(e)

    def emit(self, s):
        self.budget -= 1
        self.serial += 1
        v = self.serial % self.case.get("mod", 1000)  # (the same arguments may be emitted several times)
        self.trace.append(("emit", s, v))
        self.do_emit(s, v)
        self.trace.append(("ret", s, v))


def call_order(cbs):
    """Names of the callbacks in the order in which they are called."""
    return [c["name"] for c in sorted(cbs, key=lambda c: -c["prio"])]


def builtin_fails(v):
    return v % 5 == 3


class Model(World):
    def __init__(self, case):
        super().__init__(case)
        self.order = [call_order(s["cbs"]) for s in case["signals"]]
        self.kind = {c["name"]: c["kind"] for s in case["signals"] for c in s["cbs"]}
        self.state = [{"queue": None, "frames": [], "paused": False, "held": []} for _ in case["signals"]]
        self.max_nest = 0
        self.n_nested = 0
        self.n_held = 0
        self.n_pause_in_flush = 0
        self.flushing = 0

    def pause(self, s):
        self.n_pause_in_flush += bool(self.flushing)
        self.state[s]["paused"] = True

    def resume(self, s):
        st = self.state[s]
        st["paused"] = False
        if not self.order[s]:
            st["held"].clear()
        self.flushing += 1
        try:
            while st["held"] and not st["paused"]:
                self.do_run(s, st["held"].pop(0))
        finally:
            self.flushing -= 1

    @contextlib.contextmanager
    def paused(self, s):
        was = self.state[s]["paused"]
        self.pause(s)
        try:
            yield
        finally:
            if not was:
                self.resume(s)

    def caught(self, e):
        assert isinstance(e, Wrapped), e
        self.trace.append(("caught", self.exc_id(e.orig)))

    def exc_id(self, e):
        for i, x in enumerate(self.raised):
            if x is e:
                return i
        return type(e).__name__

    def call(self, cb, v):
        try:
            if self.kind[cb] == "builtin":
                if builtin_fails(v):
                    raise KeyError(v)
                return
            self.body(cb, v)
        except Wrapped:
            raise
        except Violation:
            raise
        except Exception as e:
            raise Wrapped(e)

    def do_emit(self, s, v):
        if self.state[s]["paused"]:
            self.n_held += 1
            self.state[s]["held"].append(v)
        else:
            self.do_run(s, v)

    def do_run(self, s, v):
        mode, st = self.case["signals"][s]["mode"], self.state[s]
        self.max_nest = max(self.max_nest, len(st["frames"]))
        if st["frames"]:
            self.n_nested += 1
        if mode == "queued":
            if st["queue"] is not None:
                self.n_nested += 1
                st["queue"].append(v)
                return
            st["queue"] = [v]
            try:
                while st["queue"]:
                    v = st["queue"].pop(0)
                    for cb in self.order[s]:
                        self.call(cb, v)
            finally:
                st["queue"] = None
            return
        frame = {"superseded": False}
        if mode == "latest-only":
            for f in st["frames"]:
                f["superseded"] = True
        st["frames"].append(frame)
        try:
            for cb in self.order[s]:
                if frame["superseded"]:
                    break
                self.call(cb, v)
        finally:
            st["frames"].pop()


class Raiser:
    """Target of connect_setattr / connect_setitem."""

    def __init__(self, f):
        object.__setattr__(self, "_f", f)
        object.__setattr__(self, "x", 0)

    def __setattr__(self, k, v):
        self._f(v)

    def __setitem__(self, k, v):
        self._f(v)


def model_of(mode, cfg):
    form, prop, inherited = cfg
    n, other = ("p", "x") if prop else ("x", "p")
    third = {"queued": "immediate", "immediate": "queued", "latest-only": "queued"}[mode]
    conf = {
        "str": mode, "map": {n: mode}, "both": {n: mode, other: third},
        # (what is not configured is latest-only)
        "default": {}, "other": {other: third}, "none": None,
    }[form]
    ns = {
        "__annotations__": {"x": object}, "__module__": "vh.fake", "__qualname__": "M", "x": 0,
        "p": property(lambda self: self.x, lambda self, v: setattr(self, "x", v)),
        "model_config": ConfigDict(allow_property_setters=True, arbitrary_types_allowed=True, **({} if conf is None else {"reemission": conf})),
    }
    M = type(EventedModel)("M", (EventedModel,), ns)
    if inherited:
        M = type(EventedModel)("Sub", (M,), {"__annotations__": {"z": int}, "__module__": "vh.fake", "__qualname__": "Sub", "z": 0})
    return M()


def gen_model_cfg(rng, mode):
    forms = ["str", "map", "both"] + (["default", "other", "none"] if mode == "latest-only" else [])
    return [rng.choice(forms), rng.random() < 0.4, rng.random() < 0.3]


class Real(World):
    def __init__(self, case, ctx):
        super().__init__(case)
        self.ctx = ctx
        self.keep = []
        self.emitters = []
        self.sigs = []
        types = (int,) * case.get("nargs", 1)
        for n, s in enumerate(case["signals"]):
            kw = {} if s["mode"] == "immediate" and n % 2 else {"reemission": s["mode"]}
            if s["via"] == "group":
                G = type("G", (SignalGroup,), {"m0": Signal(*types), "m1": Signal(*types)})
                g = G()
                self.keep.append(g)
                sig, emitters = g.all, [g.m0.emit, g.m1.emit, g["m0"]]
            elif s["via"] == "member":
                # a member of a group that has listeners
                g = type("G", (SignalGroup,), {"m": Signal(*types, **kw), "other": Signal(*types)})()
                self.keep.append(g)
                sig = g.m
                emitters = [sig.emit, sig]
            elif s["via"] == "descriptor":
                o = type("T", (), {"s": Signal(*types, **kw), **OWNERS[s.get("owner", "plain")]})()
                self.keep.append(o)
                sig = o.s
                emitters = [sig.emit, sig]
            elif s["via"] == "model":
                # the modes of the signals of a model are configured
                self.keep.append(model_of(s["mode"], s["cfg"]))
                sig = self.keep[-1].events["p" if s["cfg"][1] else "x"]
                emitters = [sig.emit, sig]
            else:
                if s.get("owner") and len(s["cbs"]) % 3:
                    o = type("T", (), OWNERS[s["owner"]])()
                    self.keep.append(o)
                    kw["instance"] = o
                    if len(s["cbs"]) % 2:
                        kw["name"] = "given"
                sig = SignalInstance(types, **kw)
                emitters = [sig.emit, sig]
            if s["via"] == "fast":
                emitters = [sig.emit_fast]
            self.sigs.append(sig)
            self.emitters.append(emitters)
            for k, c in enumerate(s["cbs"]):
                if s["via"] == "member" and k == s["relay_at"]:
                    g.connect(lambda info: None)
                self.connect(sig, c, s["via"] == "group")

    def connect(self, sig, c, group):
        name, kind = c["name"], c["kind"]
        body = self.body
        if kind == "builtin":
            d = {v: None for v in range(1000) if not builtin_fails(v)}
            sig.connect(functools.partial(operator.getitem, d), priority=c["prio"])
            return
        if group:
            def f(x):
                body(name, x.args[0])
        else:
            def f(x):
                body(name, x)
        if kind == "method":
            o = type("O", (), {"m": lambda self, x: f(x)})()
            self.keep.append(o)
            sig.connect(o.m, priority=c["prio"])
        elif kind == "setattr":
            o = Raiser(f)
            self.keep.append(o)
            sig.connect_setattr(o, "x", maxargs=1, priority=c["prio"])
        elif kind == "setitem":
            o = Raiser(f)
            self.keep.append(o)
            sig.connect_setitem(o, "x", maxargs=1, priority=c["prio"])
        elif kind == "obj":
            o = type("O", (), {"__call__": lambda self, x: f(x)})()
            self.keep.append(o)
            sig.connect(o, priority=c["prio"])
        else:
            sig.connect(f, priority=c["prio"])

    def pause(self, s):
        self.sigs[s].pause()

    def resume(self, s):
        self.sigs[s].resume()

    def paused(self, s):
        return self.sigs[s].paused()

    def do_emit(self, s, v):
        em = self.emitters[s]
        self.n_emits = getattr(self, "n_emits", 0) + 1
        val = Num(v) if self.case.get("unprintable") else v
        em[self.n_emits % len(em)](*[val, *self.extra(v)][: self.case.get("nargs", 1)])

    def extra(self, v):
        return (v, 0)

    def caught(self, e):
        vio = find_violation(e) if not isinstance(e, EmitLoopError) else None
        if vio:
            raise vio
        if not isinstance(e, EmitLoopError):
            self.ctx.fail(f"emit raised {type(e).__name__}: {e}, expected EmitLoopError")
        cause = e.__cause__
        for i, x in enumerate(self.raised):
            if x is cause:
                self.trace.append(("caught", i))
                return
        self.trace.append(("caught", type(cause).__name__))


def run(case, ctx, real_class=Real):
    model, real = Model(case), real_class(case, ctx)
    for k, op in enumerate(case["tops"]):
        for w in (model, real):
            w.budget = case.get("budget", 60)
            w.trace.append(("top", k))
            if isinstance(op, int):
                w.try_emit(op)
            else:
                w.act(op)
        if model.trace != real.trace:
            i = next((i for i, (a, b) in enumerate(zip(model.trace, real.trace)) if a != b), min(len(model.trace), len(real.trace)))
            modes = [(s["mode"], s["via"]) for s in case["signals"]]
            ctx.fail(
                f"signals {modes}, callbacks {model.order}: after {real.trace[max(0, i - 12):i]} expected "
                f"{model.trace[i:i+3] or 'nothing'}, observed {real.trace[i:i+3] or 'nothing'}"
            )
        ctx.count("assertions", len(real.trace))
        if not case.get("has_fast"):
            ctx.check(Signal.current_emitter() is None, "current_emitter() is not None after the outermost emit")
            ctx.check(Signal.sender() is None, "sender() is not None after the outermost emit")
    # all programs are over or not, but from here on, nobody emits: as freshly created
    model.case = {**case, "programs": {}}
    real.case = model.case
    for s in range(len(case["signals"])):
        if model.state[s]["paused"] or model.state[s]["held"]:
            for w in (model, real):
                w.trace.clear()
                w.resume(s)
            ctx.eq(real.trace, model.trace, f"final resume of signal {s}")
        for _ in range(2):
            for w in (model, real):
                w.trace.clear()
                w.try_emit(s)
            ctx.eq(real.trace, model.trace, f"final emission of signal {s}")
    return model, real
