"""C14: connect_setattr/connect_setitem keep the target equal to the last emission."""
import functools
import gc
import warnings

from psygnal import SignalInstance
from vh.core import Workload, attempt

PROP = "C14"
TECHNIQUE = "runtime monitoring: state of all targets compared with a shadow copy after every operation"
RULE = (
    "random connections of attribute and item setters (connect_setattr/connect_setitem and equivalent partials; targets of many kinds, among "
    "them equal ones, classes, properties, dicts and lists; maxargs absent, None, 0-3; priorities) on three signals with 0-3 arguments, with "
    "disconnections, deaths, rejected targets and emissions by all ways (also paused); after every operation the attributes and items of all "
    "targets are compared with the shadow state; non-trivial: at least two targets set, distinct by case"
)
REQUIRE = {"emissions": 3000, "sets": 5000, "multi": 500, "disconnected": 500, "rejected": 100, "partials": 500, "bound_values": 300, "killed": 100, "not_connected": 50, "paused": 100, "setter_calls": 1000}

N_ARGS = [0, 1, 2, 3]


class Plain:
    def __init__(self):
        self.x = self.y = self.z = None


class Eq(Plain):
    """All equal, with the same hash."""

    def __eq__(self, other):
        return isinstance(other, Eq)

    def __hash__(self):
        return 5


class Unhashable(Plain):
    def __eq__(self, other):
        return True

    __hash__ = None


class Slots:
    __slots__ = ("__weakref__", "x", "y", "z")

    def __init__(self):
        self.x = self.y = self.z = None


class NoWeak:
    __slots__ = ("x", "y", "z")

    def __init__(self):
        self.x = self.y = self.z = None


class Props:
    def __init__(self):
        self.calls = []
        self._d = {"x": None, "y": None, "z": None}


for _n in "xyz":
    setattr(Props, _n, property(lambda self, n=_n: self._d[n], lambda self, v, n=_n: self.calls.append((n, v)) or self._d.__setitem__(n, v)))


class Magic:
    """Attributes by __setattr__/__getattr__."""

    def __init__(self):
        object.__setattr__(self, "_d", {"x": None, "y": None, "z": None})
        object.__setattr__(self, "calls", [])

    def __getattr__(self, n):
        try:
            return object.__getattribute__(self, "_d")[n]
        except KeyError:
            raise AttributeError(n) from None

    def __setattr__(self, n, v):
        self.calls.append((n, v))
        self._d[n] = v


class Items:
    def __init__(self):
        self.d = {}
        self.calls = []

    def __setitem__(self, k, v):
        self.calls.append((k, v))
        self.d[k] = v


class EqItems(Items):
    def __eq__(self, other):
        return True

    __hash__ = None


class DictSub(dict):
    def __hash__(self):
        return 3


def new_target(kind):
    if kind == "class":
        return type("K", (), {"x": None, "y": None, "z": None})
    return {
        "plain": Plain, "eq": Eq, "unhashable": Unhashable, "slots": Slots, "noweak": NoWeak, "props": Props, "magic": Magic,
        "items": Items, "eqitems": EqItems, "dict": dict, "dictsub": DictSub, "list": lambda: [None] * 4,
    }[kind]()


ATTR_KINDS = ["plain", "eq", "eq", "unhashable", "slots", "noweak", "props", "magic", "class"]
ITEM_KINDS = ["items", "items", "eqitems", "dict", "dictsub", "list"]
WEAKABLE = {"plain", "eq", "unhashable", "slots", "props", "magic", "class", "items", "eqitems", "dictsub"}
RECORDING = {"props", "magic", "items", "eqitems"}
BUILTIN = {"dict", "dictsub", "list"}
KEYS = ["k", "1", 1, 2, (1, 2), None, "k'"]


def key_of(kind, ki):
    return ki % 3 if kind == "list" else KEYS[ki % len(KEYS)]


def state(kind, o):
    if kind in ATTR_KINDS:
        return {n: getattr(o, n) for n in "xyz"}
    if kind == "list":
        return {k: v for k, v in enumerate(o) if v is not None}
    return dict(o if kind in ("dict", "dictsub") else o.d)


def run_setters(case, ctx):
    sigs = [SignalInstance(tuple([object] * n)) for n in N_ARGS]
    slots = [[] for _ in sigs]  # [prio, target, where, maxargs, form]
    targets, kinds, want = {}, dict(enumerate(case["targets"])), {}
    for t, k in kinds.items():
        targets[t] = new_target(k)
        want[t] = state(k, targets[t])
    queue = {}
    bound = []
    want_calls = {t: [] for t in kinds}
    set_targets = set()

    def insert(lst, slot):
        for i, s in enumerate(lst):
            if s[0] < slot[0]:
                lst.insert(i, slot)
                return
        lst.append(slot)

    def shadow_emit(si, args):
        for prio, t, where, maxargs, form in slots[si]:
            a = args if maxargs is None else args[:maxargs]
            want[t][where] = form[1] if type(form) is list else a[0] if len(a) == 1 else a
            if kinds[t] in RECORDING:
                want_calls[t].append((where, want[t][where]))
            ctx.count("sets")
            set_targets.add((t, where))
            if len(a) > 1:
                ctx.count("multi")

    def do(op):
        k, si = op[0], op[1]
        sig, lst = sigs[si], slots[si]
        if k == "connect":
            _, _, t, w, maxargs, prio, form = op
            if t not in targets:
                return
            kind = kinds[t]
            is_attr = kind in ATTR_KINDS
            where = "xyz"[w % 3] if is_attr else key_of(kind, w)
            o = targets[t]
            if type(form) is list:  # (the value is bound as well)
                if kind in BUILTIN:
                    return
                p = functools.partial(setattr, o, where, form[1]) if is_attr else functools.partial(o.__setitem__, where, form[1])
                r = attempt(sig.connect, p, priority=prio, max_args=0, on_ref_error="ignore")
                ctx.check(r.ok, lambda: f"connect(partial setter of {kind} with a value): {r}")
                ctx.count("bound_values")
                bound.append(p)  # (may be held weakly or not)
                insert(lst, [prio, t, where, 0, form])
                return
            if form == "partial":
                if kind in BUILTIN and any(s[1] == t for s in lst):
                    return  # (partials of one builtin method are not told apart)
                p = functools.partial(setattr, o, where) if is_attr else functools.partial(o.__setitem__, where)
                r = attempt(sig.connect, p, priority=prio, on_ref_error="ignore")
                if N_ARGS[si] == 0:
                    ctx.check(isinstance(r.exc, ValueError), lambda: f"connecting a setter to a signal without arguments: {r}")
                    return
                ctx.check(r.ok, lambda: f"connect(partial setter of {kind}): {r}")
                ctx.count("partials")
                insert(lst, [prio, t, where, 1, "partial" if kind in BUILTIN else "set"])
                return
            if kind in BUILTIN and any(s[1] == t and s[4] == "partial" for s in lst):
                return
            f = sig.connect_setattr if is_attr else sig.connect_setitem
            kw = {} if maxargs == "default" else {"maxargs": maxargs}
            r = attempt(f, o, where, priority=prio, on_ref_error="ignore", **kw)
            ctx.check(r.ok, lambda: f"{f.__name__}({kind}, {where!r}): {r}")
            insert(lst, [prio, t, where, None if maxargs == "default" else maxargs, "set"])
        elif k == "disconnect":
            _, _, t, w, missing_ok, how = op
            if t not in targets:
                return
            kind = kinds[t]
            is_attr = kind in ATTR_KINDS
            where = "xyz"[w % 3] if is_attr else key_of(kind, w)
            o = targets[t]
            here = [s for s in lst if s[1] == t and s[2] == where and type(s[2]) is type(where) and type(s[4]) is str]
            if kind in BUILTIN and any(s[1] == t and s[4] == "partial" for s in lst):
                if not here:
                    return
                how = "partial"
            elif kind in BUILTIN:
                how = "method"
            if how == "method":
                f = sig.disconnect_setattr if is_attr else sig.disconnect_setitem
                r = attempt(f, o, where, missing_ok)
            else:
                p = functools.partial(setattr, o, where) if is_attr else functools.partial(o.__setitem__, where)
                r = attempt(sig.disconnect, p, missing_ok)
            if here or missing_ok:
                ctx.check(r.ok, lambda: f"disconnect of {where!r} of {kind} by {how}: {r}")
            else:
                ctx.count("not_connected")
                ctx.check(isinstance(r.exc, ValueError), lambda: f"disconnect(missing_ok=False) of {where!r} of {kind}, which isn't connected: {r}")
            if here:
                ctx.count("disconnected")
                lst.remove(here[0])
        elif k == "reject":
            n = len(sig)
            if op[2] == "attr":
                r = attempt(sig.connect_setattr, Plain(), "nope", maxargs=1)
                ctx.check(isinstance(r.exc, AttributeError), lambda: f"connect_setattr of an attribute that does not exist: {r}")
            else:
                o = {"obj": object(), "tuple": (1, 2), "str": "abc", "int": 5, "plain": Plain()}[op[2]]
                r = attempt(sig.connect_setitem, o, "k", maxargs=1)
                ctx.check(isinstance(r.exc, TypeError), lambda: f"connect_setitem of {o!r}: {r}")
            ctx.count("rejected")
            ctx.eq(len(sig), n, "connections after a rejected one")
        elif k == "kill":
            t = op[2]
            if t in targets and kinds[t] in WEAKABLE and not any(s[1] == t and type(s[4]) is list for x in slots for s in x):
                ctx.count("killed")
                for x in slots:
                    x[:] = [s for s in x if s[1] != t]
                del targets[t], want[t]
                gc.collect()
        elif k == "new":
            t = op[2]
            if t in targets:
                return
            targets[t] = new_target(kinds[t])
            want[t] = state(kinds[t], targets[t])
            want_calls[t] = []
        elif k == "emit":
            _, _, v, how = op
            args = tuple(f"{v}.{j}" for j in range(N_ARGS[si])) if v % 7 else tuple([None, 0, ""][: N_ARGS[si]])
            ctx.count("emissions")
            if how == "paused":
                ctx.count("paused")
                with sig.paused():
                    sig.emit(*args)
                    check()
            elif how == "blocked":
                with sig.blocked():
                    sig.emit(*args)
                return
            else:
                {"emit": sig.emit, "call": sig, "fast": sig.emit_fast}[how](*args)
            shadow_emit(si, args)

    def check():
        for t, o in targets.items():
            got = state(kinds[t], o)
            w = want[t]
            if kinds[t] == "list":
                w = {k: v for k, v in w.items() if v is not None}
            ctx.eq(got, w, lambda: f"state of target {t} ({kinds[t]})")
            if kinds[t] in RECORDING:
                ctx.eq(o.calls, want_calls[t], lambda: f"calls of the setter of target {t} ({kinds[t]})")
                ctx.count("setter_calls", len(o.calls))
                o.calls.clear()
                want_calls[t].clear()
        for s, lst in zip(sigs, slots):
            ctx.eq(len(s), len(lst), "connections")

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op in case["ops"]:
            do(op)
            check()
    if len(set_targets) > 1:
        ctx.nontrivial()
    del queue


def gen_setters(rng, i, tier):
    targets = [rng.choice(ATTR_KINDS + ITEM_KINDS + ["items"]) for _ in range(rng.randint(2, 5))]
    if rng.random() < 0.3:
        targets = [targets[0]] * len(targets)
    favourite = rng.randrange(4)
    ops = []
    for v in range(rng.randint(6, 40)):
        si = favourite if rng.random() < 0.6 else rng.randrange(4)
        t = rng.randrange(len(targets))
        w = rng.randrange(7) if rng.random() < 0.5 else 0
        x = rng.random()
        if x < 0.33:
            ops.append(["connect", si, t, w, rng.choice(["default", None, 1, 1, 2, 3, 0]), rng.choice([0, 0, 0, 1, -1]), rng.choice(["set", "set", "partial"]) if rng.random() < 0.93 else ["bound", v]])
        elif x < 0.45:
            ops.append(["disconnect", si, t, w, rng.random() < 0.7, rng.choice(["method", "method", "partial"])])
        elif x < 0.48:
            ops.append(["reject", si, rng.choice(["attr", "attr", "obj", "tuple", "str", "int", "plain"])])
        elif x < 0.53:
            ops.append(["kill", si, t])
        elif x < 0.58:
            ops.append(["new", si, t])
        else:
            ops.append(["emit", si, v, rng.choice(["emit", "emit", "call", "fast", "paused", "blocked"])])
    return {"targets": targets, "ops": ops}


WORKLOADS = [Workload("setters", gen_setters, run_setters, quick=3000, thorough=80000)]
