"""C02: connections behave as an ordered multiset of callbacks."""
import functools
import gc
import itertools
from threading import current_thread

from psygnal import Signal, SignalInstance
from vh import zoo
from vh.core import Workload, attempt

PROP = "C02"
RULE = (
    "random histories of connect (plain, decorator, unique, unique='raise', any priority, thread, max_args), "
    "connect_setattr/setitem, disconnect (by callback, by returned handle, all), disconnect_setattr/setitem and invalid "
    "operations over callbacks that are easily confused (methods of equal-comparing owners, two methods of one owner, "
    "closures of one code object, setters of similar names, owners re-created at reused addresses), compared after every "
    "operation with a model (ordered multiset); non-trivial: at least 3 successful connects and 1 removal, distinct by case"
)
REQUIRE = {"connects": 300, "removals": 100, "unique_skips": 20, "rejected": 50, "missing_raised": 20, "emissions": 200, "setter_connects": 50, "recreated": 20, "unreferenceable": 100}


class Own(zoo.Owner):
    def __setitem__(self, k, v):
        self.sink(f"{self.tag}[{k!r}]", (v,))

    def __setattr__(self, k, v):
        if k in ("x", "xx", "y"):
            object.__getattribute__(self, "sink")(f"{self.tag}.{k}", (v,))
        object.__setattr__(self, k, v)

    @property
    def prop(self):
        return 1


def mk_own(tag, sink):
    o = Own.__new__(Own)
    object.__setattr__(o, "sink", sink)
    object.__setattr__(o, "tag", tag)
    for k in ("x", "xx", "y"):
        object.__setattr__(o, k, 0)
    return o


class NoRef:
    """Cannot be weakly referenced."""

    __slots__ = ("tag", "sink")

    def __init__(self, tag, sink):
        self.tag, self.sink = tag, sink

    def __eq__(self, other):
        return isinstance(other, NoRef)

    __hash__ = None

    def meth(self, *args):
        self.sink(self.tag, args)

    def meth2(self, *args):
        self.sink(self.tag + "'", args)

    def __call__(self, *args):
        self.sink(self.tag, args)


def closure(tag, sink):
    def f(*args):
        sink(tag, args)

    return f


class Slots:
    """Ordered multiset of callback ids, sorted by (descending) priority."""

    def __init__(self):
        self.entries = []  # (id, priority)

    def __getitem__(self, i):
        return sum(x == i for x, _ in self.entries)

    def add(self, i, prio=0):
        n = len(self.entries)
        while n and self.entries[n - 1][1] < prio:
            n -= 1
        self.entries.insert(n, (i, prio))

    def remove(self, i):
        del self.entries[next(n for n, (x, _) in enumerate(self.entries) if x == i)]

    def purge(self, pred):
        self.entries = [e for e in self.entries if not pred(e[0])]

    def order(self):
        return [x for x, _ in self.entries]


def run(case, ctx):
    sig = SignalInstance((object,)) if case["via"] else type("T", (), {"s": Signal(object)})().s
    log = []

    def sink(tag, args):
        log.append(tag)

    owners = {o: mk_own(o, sink) for o in "ABC"}
    owners.update({o: NoRef(o, sink) for o in "MN"})
    funcs = {f: closure(f, sink) for f in "fgh"}
    objs = {c: zoo.CallableObj(c, sink) for c in "pq"}
    objs["t"] = NoRef("t", sink)
    parts = {n: functools.partial(closure_x(n, sink), 1) for n in "rs"}
    model = Slots()
    handles = []  # (handle returned by connect_set*, callback id)
    ser = itertools.count()

    def resolve(cb):
        """A *fresh* reference to the callback named cb."""
        if cb in funcs:
            return funcs[cb]
        if cb in objs:
            return objs[cb]
        if cb in parts:
            return parts[cb]
        o, m = cb.split(":")
        own = owners[o]
        if m == "pset_x":
            return functools.partial(setattr, own, "x")
        if m == "pitem_k":
            return functools.partial(own.__setitem__, "k")
        return getattr(own, m)

    def ident(cb):
        """The log tag produced by the callback."""
        if ":" not in cb:
            return cb
        o, m = cb.split(":")
        return {"meth": o, "meth2": o + "'", "pset_x": f"{o}.x", "pitem_k": f"{o}['k']"}[m]

    def total():
        return len(model.entries)

    def verify(op):
        ctx.eq(len(sig), total(), f"len(signal) after {op}")

    def emit_check(op):
        log.clear()
        sig.emit(next(ser))
        ctx.count("emissions")
        ctx.eq(log, model.order(), f"callbacks called after {op}")

    nconn = nrem = 0

    def step(op):
        nonlocal nconn, nrem
        name = op[0]
        if name == "connect":
            _, cb, opts, form = op
            f = resolve(cb)
            i = ident(cb)
            opts = dict(opts)
            if cb in NOREF:
                # (by default there is a warning)
                opts["on_ref_error"] = "ignore"
                ctx.count("unreferenceable")
            if opts.get("thread") == "cur":
                opts["thread"] = current_thread()
            if form == "deco":
                r = attempt(lambda: sig.connect(**opts)(f))
            else:
                r = attempt(sig.connect, f, **opts)
            if opts.get("unique") and model[i]:
                if opts["unique"] == "raise":
                    ctx.check(not r.ok and isinstance(r.exc, ValueError), lambda: f"{op} of a connected callback: {r}")
                    ctx.count("unique_raises")
                else:
                    ctx.check(r.ok and r.val is f, lambda: f"{op} of a connected callback: {r}")
                ctx.count("unique_skips")
            else:
                ctx.check(r.ok and r.val is f, lambda: f"{op}: {r}, should return the callback")
                model.add(i, opts.get("priority", 0))
                nconn += 1
                ctx.count("connects")
        elif name == "set":
            _, o, what, key, prio, maxargs = op
            own = owners[o]
            if what == "attr":
                r = attempt(sig.connect_setattr, own, key, maxargs=maxargs, priority=prio)
                i = f"{o}.{key}"
            else:
                r = attempt(sig.connect_setitem, own, key, maxargs=maxargs, priority=prio)
                i = f"{o}[{key!r}]"
            ctx.check(r.ok, lambda: f"{op}: {r}")
            model.add(i, prio)
            handles.append((r.val, i, o))
            nconn += 1
            ctx.count("setter_connects")
        elif name == "unset":
            _, o, what, key, missing_ok = op
            i = f"{o}.{key}" if what == "attr" else f"{o}[{key!r}]"
            f = sig.disconnect_setattr if what == "attr" else sig.disconnect_setitem
            # (True is the default)
            r = attempt(f, owners[o], key, **({} if missing_ok else {"missing_ok": False}))
            nrem += removal(ctx, model, i, r, missing_ok, op)
        elif name == "unhandle":
            if handles:
                h, i, o = handles[op[1] % len(handles)]
                r = attempt(sig.disconnect, h, **({} if op[2] else {"missing_ok": False}))
                nrem += removal(ctx, model, i, r, op[2], op)
        elif name == "disconnect":
            _, cb, missing_ok = op
            i = ident(cb)
            f = resolve(cb)
            ctx.eq(f in sig, model[i] > 0, f"{cb} in signal")
            if cb in ("f", "g") and missing_ok is None:
                r = attempt(sig.disconnect, f)
                missing_ok = True
            else:
                missing_ok = bool(missing_ok)
                r = attempt(sig.disconnect, f, missing_ok=missing_ok)
            nrem += removal(ctx, model, i, r, missing_ok, op)
        elif name == "all":
            r = attempt(sig.disconnect)
            ctx.check(r.ok, lambda: f"disconnect(): {r}")
            nrem += total()
            model.purge(lambda i: True)
        elif name == "bad":
            what = op[1]
            if what == "noncallable":
                r, exc = attempt(sig.connect, 3), TypeError
            elif what == "noncallable_deco":
                r, exc = attempt(sig.connect(priority=3), "no"), TypeError
            elif what == "nargs":
                r, exc = attempt(sig.connect, lambda a, b: 0, priority=7), ValueError
            elif what == "kwonly":
                r, exc = attempt(sig.connect, lambda a, *, b: 0), ValueError
            elif what == "types":

                def typed(a: int): ...

                def typed2(a: int, b: str): ...

                r, exc = attempt(sig.connect, typed2, check_types=True), ValueError
            elif what == "attr":
                r, exc = attempt(sig.connect_setattr, owners["A"], "nope", maxargs=1), AttributeError
            elif what == "item":
                r, exc = attempt(sig.connect_setitem, object(), "nope", maxargs=1), TypeError
            elif what == "unitem":
                r, exc = attempt(sig.disconnect_setitem, object(), "nope"), TypeError
            elif what == "reducednargs":
                r, exc = attempt(sig.connect, functools.partial(lambda a, b, c: 0, 1), unique=True), ValueError
            ctx.check(not r.ok and isinstance(r.exc, exc), lambda: f"{op}: {r}, expected {exc.__name__}")
            ctx.count("rejected")
        elif name == "recreate":
            # the owner dies; a new one (perhaps at the same address) is not connected
            o = op[1]
            keep = owners.pop(o)
            del keep
            handles[:] = [h for h in handles if h[2] != o]
            gc.collect()
            model.purge(lambda i: i[0] == o)
            verify(op)
            owners[o] = mk_own(o, sink)
            ctx.count("recreated")
            for m in ("meth", "meth2", "pset_x", "pitem_k"):
                ctx.check(resolve(f"{o}:{m}") not in sig, lambda: f"method {m} of a new object is reported as connected")
        elif name == "emit":
            emit_check(op)
        elif name == "contains":
            for cb in ALL:
                ctx.eq(resolve(cb) in sig, model[ident(cb)] > 0, f"`{cb} in signal` after {op}")

    for op in case["ops"]:
        step(op)
        verify(op)
    emit_check("end")
    for cb in ALL:
        ctx.eq(resolve(cb) in sig, model[ident(cb)] > 0, f"`{cb} in signal` at the end")
    if nconn >= 3 and nrem >= 1:
        ctx.nontrivial()
    # remove everything one by one
    if case["drain"]:
        for i in model.order():
            if True:
                if "." in i:
                    sig.disconnect_setattr(owners[i[0]], i.split(".")[1], missing_ok=False)
                elif "[" in i:
                    sig.disconnect_setitem(owners[i[0]], i[3:-2], missing_ok=False)
                else:
                    cb = next(c for c in ALL if ident(c) == i)
                    sig.disconnect(resolve(cb), missing_ok=False)
                model.remove(i)
                verify(("drain", i))
                emit_check(("drain", i))
        emit_check("drained")
        ctx.eq(log, [], "calls after everything was disconnected")


def closure_x(tag, sink):
    def f(extra, *args):
        sink(tag, args)

    return f


def removal(ctx, model, i, r, missing_ok, op):
    if model[i]:
        ctx.check(r.ok, lambda: f"{op} of a connected callback: {r}")
        model.remove(i)
        ctx.count("removals")
        return 1
    if missing_ok:
        ctx.check(r.ok, lambda: f"{op} of a callback that isn't connected, missing_ok=True: {r}")
    else:
        ctx.check(not r.ok and isinstance(r.exc, ValueError), lambda: f"{op} of a callback that isn't connected, missing_ok=False: {r}")
        ctx.count("missing_raised")
    return 0


NOREF = ["t", "M:meth", "M:meth2", "N:meth"]
ALL = ["f", "g", "h", "p", "q", "r", "s"] + [f"{o}:{m}" for o in "ABC" for m in ("meth", "meth2", "pset_x", "pitem_k")] + NOREF
BAD = ["noncallable", "noncallable_deco", "nargs", "kwonly", "types", "attr", "item", "unitem", "reducednargs"]


def gen(rng, i, tier):
    pool = rng.sample(ALL, rng.randint(3, len(ALL)))
    ops = []
    for _ in range(rng.randint(5, 45)):
        x = rng.random()
        if x < 0.36:
            o = {}
            if rng.random() < 0.35:
                o["unique"] = rng.choice([True, True, "raise", False])
            if rng.random() < 0.3:
                o["priority"] = rng.choice([0, 1, -1, 100])
            if rng.random() < 0.1:
                o["thread"] = rng.choice(["current", "cur"])
            if rng.random() < 0.15:
                o["max_args"] = rng.choice([1, 2, None])
            if rng.random() < 0.15:
                o["check_nargs"] = rng.random() < 0.5
            if rng.random() < 0.1:
                o["on_ref_error"] = rng.choice(["raise", "warn", "ignore"])
            ops.append(["connect", rng.choice(pool), o, rng.choice(["call", "call", "deco"])])
        elif x < 0.46:
            what = rng.choice(["attr", "item"])
            ops.append(["set", rng.choice("ABC"), what, rng.choice(["x", "xx", "y"] if what == "attr" else ["k", "kk", "x"]), rng.choice([0, 0, 2, -2]), rng.choice([1, None])])
        elif x < 0.54:
            what = rng.choice(["attr", "item"])
            ops.append(["unset", rng.choice("ABC"), what, rng.choice(["x", "xx", "y"] if what == "attr" else ["k", "kk", "x"]), rng.random() < 0.5])
        elif x < 0.57:
            ops.append(["unhandle", rng.randint(0, 20), rng.random() < 0.5])
        elif x < 0.75:
            ops.append(["disconnect", rng.choice(pool), rng.choice([True, False, None])])
        elif x < 0.77:
            ops.append(["all"])
        elif x < 0.85:
            ops.append(["bad", rng.choice(BAD)])
        elif x < 0.88:
            ops.append(["recreate", rng.choice("ABC")])
        elif x < 0.95:
            ops.append(["emit"])
        else:
            ops.append(["contains"])
    return {"via": rng.random() < 0.5, "drain": rng.random() < 0.4, "ops": ops}


def kf_partials():
    """Distinct partials of one function are taken for the same callback."""
    sig = SignalInstance((object,))
    log = []

    def f(a, b):
        log.append((a, b))

    p1, p2 = functools.partial(f, 1), functools.partial(f, 2)
    sig.connect(p1)
    if p2 in sig:
        return "after connect(partial(f, 1)), `partial(f, 2) in signal` is True: partials of one function with different arguments are not told apart"
    return None


FINDINGS = {"partials-of-one-function": kf_partials}
WORKLOADS = [Workload("histories", gen, run, quick=5000, thorough=150000)]
