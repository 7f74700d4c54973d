"""C23: evented object proxies."""
import array
import collections
import dataclasses
import gc
import operator
import types
import warnings

import numpy as np
from psygnal import EmissionInfo
from psygnal.containers import EventedCallableObjectProxy, EventedObjectProxy
from vh.core import Inconclusive, Workload, attempt

PROP = "C23"
TECHNIQUE = "runtime monitoring: lock-step comparison of a proxied object with an identical unproxied twin (values, exceptions, state), and the exact sequence of events of every proxy derived from object identity before and after"
RULE = (
    "random histories of attribute, item, deletion, in-place, call and read operations on proxies of 20 kinds of objects (plain, slots, properties, write-only, frozen, __getattr__, containers, numbers, "
    "strings, numpy, functions, classes), with a second proxy of the same object and proxies created after others died; non-trivial: at least two kinds of events, a suppressed one and a failing "
    "operation, distinct by case"
)
REQUIRE = {"ops": 20000, "attribute_set": 1000, "attribute_deleted": 300, "item_set": 1000, "item_deleted": 300, "in_place": 1500, "called": 800, "suppressed": 500, "failed": 3000, "reads": 5000, "reborn": 500}
ASSUMPTIONS = [
    "operators with another proxy as operand, what wrapt itself does not forward (format, reversed, next, copy, fspath), and in-place operators that fail are not judged (but leave the object as it is)",
    "where every read gives a new object (slices, numpy elements, computed properties) setting the same value may or may not emit",
]

UNSET = object()


class Plain:
    x = 1
    cls_attr = "shared"

    def __init__(self, values):
        self.y = values[0]
        self.items = dict(enumerate(values))
        self.log = []

    @property
    def prop(self):
        return self._prop

    @prop.setter
    def prop(self, v):
        if v is None:
            raise ValueError("no None")
        self._prop = v

    @prop.deleter
    def prop(self):
        del self._prop

    @property
    def ro(self):
        return 5

    @property
    def late(self):
        if "_late" not in self.__dict__:
            raise RuntimeError("not yet")
        return self._late

    @late.setter
    def late(self, v):
        self._late = v

    def method(self, a, b=2):
        self.log.append((a, b))
        return a, b

    def __getitem__(self, k):
        return self.items[k]

    def __setitem__(self, k, v):
        if k == "forbidden":
            raise PermissionError(k)
        self.items[k] = v

    def __delitem__(self, k):
        del self.items[k]

    def __len__(self):
        return len(self.items)

    def __eq__(self, o):
        return isinstance(o, Plain) and self.__dict__ == o.__dict__

    def __lt__(self, o):
        return len(self.items) < 3

    def __hash__(self):
        return 7

    def __call__(self, *a, **k):
        self.log.append((a, k))
        if "boom" in k:
            raise ZeroDivisionError
        return len(self.log)

    def __repr__(self):
        return "Plain!"

    def __contains__(self, x):
        return any(x is v for v in self.items.values())

    def __add__(self, o):
        return ("add", o)

    def __radd__(self, o):
        return ("radd", o)

    def __iadd__(self, o):
        self.log.append(("iadd", o))
        return self

    def __ior__(self, o):
        new = Plain([o])
        return new

    def __matmul__(self, o):
        return Plain([o])

    def __bool__(self):
        return bool(self.log)

    def __enter__(self):
        self.log.append("enter")
        return 5

    def __exit__(self, *a):
        self.log.append("exit")
        return True


class Slots:
    __slots__ = ("x", "y")

    def __init__(self, values):
        self.x = values[0]


class Dyn:
    """Everything dynamic."""

    def __init__(self, values):
        object.__setattr__(self, "d", {"x": values[0]})

    def __getattr__(self, n):
        try:
            return object.__getattribute__(self, "d")[n]
        except KeyError:
            raise AttributeError(n) from None

    def __setattr__(self, n, v):
        if n == "cls_attr":
            raise KeyError(n)
        self.d[n] = v

    def __delattr__(self, n):
        del self.d[n]


class SetOnly:
    def __init__(self, values):
        self.d = {}

    def __setitem__(self, k, v):
        self.d[k] = v


@dataclasses.dataclass(frozen=True)
class Frozen:
    x: object = 1
    y: object = None


class Point:
    """Immutable with operators."""

    def __init__(self, v=0):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Point) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def _op(self, o):
        if isinstance(o, str):
            return NotImplemented
        return Point((self.v, o))

    __add__ = __sub__ = __mul__ = __matmul__ = __truediv__ = __floordiv__ = __mod__ = __pow__ = __lshift__ = __rshift__ = __and__ = __xor__ = __or__ = _op


class Acc:
    """All in-place operators, mutating."""

    def __init__(self, v=0):
        self.log = []

    def __eq__(self, o):
        return isinstance(o, Acc) and o.log == self.log

    __hash__ = None


def _acc(name):
    def f(self, o):
        if isinstance(o, str):
            raise ArithmeticError(name)
        self.log.append((name, o))
        return self

    return f


OPS = ["add", "sub", "mul", "matmul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift", "and", "xor", "or"]
for _n in OPS:
    setattr(Acc, f"__i{_n}__", _acc(_n))


def make_func():
    def func(*a, **k):
        if k.get("boom"):
            raise ZeroDivisionError("boom")
        return (a, k)

    return func


VALUES = [0, 1, 2, 3, "s", "t", None, [1], [1], (1, 2), 300, int("300"), 2.5, True, {"k": 1}, "k", {3}]


def targets():
    """kind -> (constructor of identical objects, callable proxy?)."""
    return {
        "plain": lambda v: Plain(v),
        "slots": lambda v: Slots(v),
        "dyn": lambda v: Dyn(v),
        "setonly": lambda v: SetOnly(v),
        "frozen": lambda v: Frozen(v[0]),
        "list": lambda v: list(v),
        "dict": lambda v: dict(zip("abcd", v)),
        "defaultdict": lambda v: collections.defaultdict(int, zip("ab", v)),
        "odict": lambda v: collections.OrderedDict(zip("abcd", v)),
        "deque": lambda v: collections.deque(v),
        "array": lambda v: array.array("i", [1, 2, 3]),
        "numpy": lambda v: np.arange(4.0),
        "set": lambda v: {1, 2},
        "int": lambda v: 5,
        "float": lambda v: 2.5,
        "str": lambda v: "text",
        "tuple": lambda v: (1, 2, 3),
        "none": lambda v: None,
        "point": lambda v: Point(3),
        "acc": lambda v: Acc(),
        "func": lambda v: make_func(),
        "class": lambda v: type("Cls", (Plain,), {"z": v[0]}),
        "builtin": lambda v: max,
    }


CALLABLES = ["plain", "func", "class", "builtin"]


def state(o):
    """Comparable state."""
    if isinstance(o, np.ndarray):
        return ("np", o.tolist())
    if isinstance(o, types.FunctionType):
        return dict(vars(o))
    if isinstance(o, type):
        return {k: v for k, v in vars(o).items() if not k.startswith("__")}
    if isinstance(o, Dyn):
        return dict(object.__getattribute__(o, "d"))
    if hasattr(o, "__dict__") and not callable(o):
        return dict(vars(o))
    if isinstance(o, Plain):
        return dict(vars(o))
    if isinstance(o, Slots):
        return [getattr(o, n, UNSET) for n in ("x", "y")]
    return o


def equal(a, b):
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and repr(a) == repr(b)
    if isinstance(a, Plain) and isinstance(b, Plain) and type(a).__name__ == type(b).__name__:
        return equal(state(a), state(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (float, np.floating)):
        return repr(a) == repr(b)
    if isinstance(a, types.FunctionType):
        return a.__qualname__ == b.__qualname__ and equal(vars(a), vars(b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (Slots, Dyn, SetOnly)):
        return equal(state(a), state(b))
    if isinstance(a, type) and isinstance(b, type):
        return a.__name__ == b.__name__ and equal(state(a), state(b))
    r = a == b
    if r is not True and type(a).__eq__ is object.__eq__ and hasattr(a, "__self__"):
        return a.__name__ == b.__name__
    return bool(r)


READS = {
    "bool": lambda o, v: bool(o),
    "len": lambda o, v: len(o),
    "list": lambda o, v: list(iter(o)),
    "in": lambda o, v: v in o,
    "eq": lambda o, v: (o == v, v == o),
    "ne": lambda o, v: (o != v, v != o),
    "lt": lambda o, v: o < v,
    "ge": lambda o, v: o >= v,
    "rgt": lambda o, v: v > o,
    "hash": lambda o, v: hash(o) if not isinstance(o, (Point,)) else hash(o),
    "str": lambda o, v: str(o) if " at 0x" not in repr(o) else 0,
    "repr": lambda o, v: repr(o) if " at 0x" not in repr(o) else 0,
    "int": lambda o, v: int(o),
    "float": lambda o, v: float(o),
    "complex": lambda o, v: complex(o),
    "index": lambda o, v: operator.index(o),
    "round": lambda o, v: round(o),
    "abs": lambda o, v: abs(o),
    "neg": lambda o, v: -o,
    "pos": lambda o, v: +o,
    "invert": lambda o, v: ~o,
    "divmod": lambda o, v: divmod(o, v),
    "add": lambda o, v: o + v,
    "radd": lambda o, v: v + o,
    "sub": lambda o, v: o - v,
    "rsub": lambda o, v: v - o,
    "mul": lambda o, v: o * v if not isinstance(v, int) or v < 10 else 0,
    "truediv": lambda o, v: o / v,
    "floordiv": lambda o, v: o // v,
    "mod": lambda o, v: o % v,
    "pow": lambda o, v: o**v if not isinstance(v, int) or v < 10 else 0,
    "rpow": lambda o, v: v**o,
    "lshift": lambda o, v: o << v if not isinstance(v, int) or v < 10 else 0,
    "and": lambda o, v: o & v,
    "or": lambda o, v: o | v,
    "ror": lambda o, v: v | o,
    "xor": lambda o, v: o ^ v,
    "matmul": lambda o, v: o @ v,
    "class": lambda o, v: o.__class__ if not isinstance(o, type) else 0,
    "isinstance": lambda o, v: (isinstance(o, Plain), isinstance(o, list), isinstance(o, int)),
    "with": lambda o, v: _with(o),
    "getitem": lambda o, v: o[v],
    "slice": lambda o, v: list(o[0:2]),
    "dir": lambda o, v: sorted(set(dir(o)) - {"events"}),
    "doc": lambda o, v: o.__doc__,
}
NAMES = ["x", "y", "prop", "ro", "late", "cls_attr", "_private", "z", "missing", "real", "method"]
KEYS = [0, 1, 2, -1, 9, "a", "b", "k", "new", "forbidden", None, (1, 2), [1], True]


def _with(o):
    with o as r:
        raise KeyError
    return r


class Mon:
    def __init__(self, proxy, ctx, group):
        self.log = []
        ev = proxy.events
        assert len(ev.items_seen) == 0 if hasattr(ev, "items_seen") else True
        self.fresh = sum(len(ev[n]) for n in ev)
        if group:

            @ev.connect
            def on(info):
                assert isinstance(info, EmissionInfo)
                self.log.append((info.signal.name, *info.args))

            self.keep = on
        else:
            for n in ev:
                ev[n].connect(lambda *a, n=n: self.log.append((n, *a)))


def run_proxy(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            _run(case, ctx)


def _run(case, ctx):
    make = targets()[case["kind"]]
    init = [VALUES[i % len(VALUES)] for i in case["init"]]
    obj, twin = make(init), make(init)
    is_call = case["callable"] and case["kind"] in CALLABLES
    cls = EventedCallableObjectProxy if is_call else EventedObjectProxy

    class Sub(cls):
        pass

    if case["sub"]:
        cls = Sub
    p = cls(obj)
    mon = Mon(p, ctx, case["group"])
    other = EventedObjectProxy(obj)
    other_mon = Mon(other, ctx, False)
    ctx.check(mon.fresh == 0 and other_mon.fresh == 0, "the events of a new proxy have callbacks")
    ctx.check(p.events is not other.events and p.events is p.events, "events shared between proxies")
    kinds = set()

    def same(r, r2, what):
        ctx.check(r.ok == r2.ok and (r.ok or type(r.exc) is type(r2.exc)), lambda: f"{what}: {r}; unproxied: {r2}")
        if r.ok:
            ctx.check(equal(r.val, r2.val), lambda: f"{what}: {r}; unproxied: {r2}")

    def expect(want, what, loose=False):
        got = mon.log[:]
        mon.log.clear()
        kinds.update(e[0] for e in got)
        for e in got:
            ctx.count(e[0])
        if loose and len(got) <= 1:
            return
        ok = len(got) == len(want) and all(len(a) == len(b) and all(x is y or (i < 2 and x == y) or (a[0] == "called" and equal(x, y)) for i, (x, y) in enumerate(zip(a, b))) for a, b in zip(got, want))
        ctx.check(ok, lambda: f"{what}: events {got}, expected {want}")

    def do(op):
        nonlocal obj, twin, p, mon
        kind = op[0]
        what = f"{op} on a proxy of {twin!r}"
        if kind == "setattr":
            n, v = NAMES[op[1] % len(NAMES)], VALUES[op[2] % len(VALUES)]
            before = attempt(getattr, twin, n)
            if n == "method" and case["kind"] in ("plain", "class"):
                return
            r, r2 = attempt(setattr, p, n, v), attempt(setattr, twin, n, v)
            same(r, r2, what)
            if not r.ok:
                ctx.count("failed")
                kinds.add("failed")
                expect([], what)
            else:
                after = attempt(getattr, twin, n)
                changed = not before.ok or before.val is not after.val
                if not changed:
                    ctx.count("suppressed")
                    kinds.add("suppressed")
                expect([("attribute_set", n, after.val if after.ok else v)] if changed else [], what)
        elif kind == "delattr":
            n = NAMES[op[1] % len(NAMES)]
            r, r2 = attempt(delattr, p, n), attempt(delattr, twin, n)
            same(r, r2, what)
            if not r.ok:
                ctx.count("failed")
                kinds.add("failed")
            expect([("attribute_deleted", n)] if r.ok else [], what)
        elif kind == "setitem":
            k, v = KEYS[op[1] % len(KEYS)], VALUES[op[2] % len(VALUES)]
            if case["kind"] == "defaultdict":
                before = attempt(lambda: twin[k]) if attempt(lambda: k in twin).val else attempt(lambda: {}[0])
            else:
                before = attempt(lambda: twin[k])
            r, r2 = attempt(operator.setitem, p, k, v), attempt(operator.setitem, twin, k, v)
            same(r, r2, what)
            if not r.ok:
                ctx.count("failed")
                kinds.add("failed")
                expect([], what)
            else:
                after = attempt(lambda: twin[k])
                changed = not before.ok or before.val is not after.val
                if not changed:
                    ctx.count("suppressed")
                    kinds.add("suppressed")
                loose = case["kind"] in ("numpy", "array")
                if loose and not equal(before.val, after.val):
                    ctx.check(len(mon.log) == 1 and mon.log[0][:2] == ("item_set", k), lambda: f"{what}: events {mon.log}")
                expect([("item_set", k, after.val if after.ok else v)] if changed else [], what, loose)
        elif kind == "setslice":
            sl = slice(op[1], op[2])
            v = [VALUES[i % len(VALUES)] for i in op[3]]
            r, r2 = attempt(operator.setitem, p, sl, list(v)), attempt(operator.setitem, twin, sl, list(v))
            same(r, r2, what)
            if not r.ok:
                ctx.count("failed")
                expect([], what)
            else:
                ctx.check(all(e[0] == "item_set" and e[1] == sl for e in mon.log), lambda: f"{what}: events {mon.log}")
                expect([], what, True)
        elif kind == "delitem":
            k = KEYS[op[1] % len(KEYS)]
            r, r2 = attempt(operator.delitem, p, k), attempt(operator.delitem, twin, k)
            same(r, r2, what)
            if not r.ok:
                ctx.count("failed")
                kinds.add("failed")
            expect([("item_deleted", k)] if r.ok else [], what)
        elif kind == "inplace":
            n, v = OPS[op[1] % len(OPS)], VALUES[op[2] % len(VALUES)]
            f = {"and": operator.iand, "or": operator.ior}.get(n) or getattr(operator, "i" + n)
            if case["kind"] == "class":
                return
            if n in ("pow", "lshift", "mul") and isinstance(twin, int) and abs(twin) > 10**6:
                return
            if n in ("mul",) and hasattr(type(twin), "__len__") and (len(twin) > 50 or (isinstance(v, int) and v > 5)):
                return
            if n in ("pow", "lshift") and isinstance(v, int) and v > 20:
                return
            r2 = attempt(f, twin, v)
            pid = p
            r = attempt(f, p, v)
            ctx.check(r.ok == r2.ok and (r.ok or type(r.exc) is type(r2.exc)), lambda: f"{what}: {r}; unproxied: {r2}")
            if r.ok:
                ctx.check(r.val is pid, lambda: f"{what}: the result is another object, {type(r.val)}")
                twin = r2.val
                expect([("in_place", n, v)], what)
                if p.__wrapped__ is not obj:
                    obj = p.__wrapped__
                    kinds.add("rebound")
            else:
                ctx.count("failed")
                mon.log.clear()
        elif kind == "call":
            if not is_call:
                return
            a = [VALUES[i % len(VALUES)] for i in op[1]]
            k = {n: VALUES[i % len(VALUES)] for n, i in op[2].items()}
            r, r2 = attempt(p, *a, **k), attempt(twin, *a, **k)
            same(r, r2, what)
            if is_call:
                expect([("called", tuple(a), k)], what)
        elif kind == "method":
            v = VALUES[op[1] % len(VALUES)]
            n = ["method", "append", "update", "pop", "extend", "clear", "upper", "add", "index"][op[2] % 9]
            r, r2 = attempt(lambda: getattr(p, n)(v)), attempt(lambda: getattr(twin, n)(v))
            same(r, r2, what + n)
            expect([], what)
        elif kind == "read":
            ctx.count("reads")
            n, v = list(READS)[op[1] % len(READS)], VALUES[op[2] % len(VALUES)]
            if n == "hash" and case["kind"] in ("func", "builtin", "class", "slots", "dyn", "setonly"):
                ctx.eq(hash(p), hash(obj), what)
                return
            if n in ("or", "ror") and case["kind"] == "class":
                return
            if n in ("rpow", "pow") and (isinstance(twin, int) and abs(twin) > 100):
                return
            r, r2 = attempt(READS[n], p, v), attempt(READS[n], twin, v)
            if n != "getitem" and not r.ok and not r2.ok:
                return
            same(r, r2, f"{n} {what}")
            expect([], what)
        elif kind == "getattr":
            n = NAMES[op[1] % len(NAMES)]
            r, r2 = attempt(getattr, p, n), attempt(getattr, twin, n)
            if n == "method" and r.ok and r2.ok and hasattr(r2.val, "__name__"):
                ctx.eq(getattr(r.val, "__name__", r.val), r2.val.__name__, what)
            else:
                same(r, r2, what)
            ctx.eq(hasattr(p, n) if not isinstance(r2.exc, RuntimeError) else 0, hasattr(twin, n) if not isinstance(r2.exc, RuntimeError) else 0, what)
            expect([], what)
        elif kind == "direct":
            # a change that doesn't go through the proxy
            n, v = NAMES[op[1] % 2], VALUES[op[2] % len(VALUES)]
            r, r2 = attempt(setattr, obj, n, v), attempt(setattr, twin, n, v)
            ctx.check(r.ok == r2.ok, what)
            expect([], what)
        elif kind == "reborn":
            # the next proxy often gets the address of one that died
            ctx.count("reborn")
            for _ in range(3):
                q = EventedObjectProxy(Plain([1]))
                m = Mon(q, ctx, op[1])
                ctx.check(m.fresh == 0, "a new proxy has the callbacks of a dead one")
                q.x = object()
                ctx.check(len(m.log) == 1, lambda: f"events of a new proxy {m.log}")
                del q, m
                if op[2]:
                    gc.collect()
            expect([], what)
        else:
            raise Inconclusive(kind)
        ctx.check(equal(state(p.__wrapped__), state(twin)), lambda: f"{what}: the object is {state(p.__wrapped__)!r}, unproxied {state(twin)!r}")
        ctx.check(not other_mon.log, lambda: f"{what}: events of another proxy {other_mon.log}")

    for op in case["ops"]:
        ctx.count("ops")
        do(op)
    if "failed" in kinds and len(kinds & {"attribute_set", "attribute_deleted", "item_set", "item_deleted", "in_place", "called", "suppressed"}) >= 2:
        ctx.nontrivial()


def gen_proxy(rng, i, tier):
    kinds = list(targets())
    kind = rng.choice(kinds + ["plain", "plain", "dict", "list", "dyn"])
    items = kind in ("plain", "list", "dict", "defaultdict", "odict", "deque", "array", "numpy", "setonly")
    ops = []
    for _ in range(rng.randint(5, 35)):
        x = rng.random()
        n, v, k = rng.randrange(len(NAMES)), rng.randrange(len(VALUES)), rng.randrange(len(KEYS))
        if rng.random() < 0.5:
            n, v, k = n % 3, v % 4, k % 3 if kind in ("list", "deque", "array", "numpy", "plain") else 5 + k % 3
        if x < 0.18:
            ops.append(["setattr", n, v])
        elif x < 0.25:
            ops.append(["delattr", n])
        elif x < (0.45 if items else 0.3):
            ops.append(["setitem", k, v])
        elif x < (0.52 if items else 0.32):
            ops.append(["delitem", k])
        elif x < 0.54:
            ops.append(["setslice", rng.choice([None, 0, 1, -1]), rng.choice([None, 1, 2, 5]), [v] * rng.randint(0, 3)])
        elif x < 0.66:
            ops.append(["inplace", rng.randrange(13), v])
        elif x < 0.74:
            ops.append(["call", [rng.randrange(len(VALUES)) for _ in range(rng.randint(0, 3))], {q: v for q in rng.sample(["a", "boom", "key"], rng.choice([0, 0, 1, 2]))}])
        elif x < 0.78:
            ops.append(["method", v, rng.randrange(9)])
        elif x < 0.90:
            ops.append(["read", rng.randrange(len(READS)), v])
        elif x < 0.96:
            ops.append(["getattr", n])
        elif x < 0.98:
            ops.append(["direct", n, v])
        else:
            ops.append(["reborn", rng.random() < 0.5, rng.random() < 0.2])
    return {"kind": kind, "callable": rng.random() < 0.7, "sub": rng.random() < 0.2, "group": rng.random() < 0.5, "init": [rng.randrange(len(VALUES)) for _ in range(4)], "ops": ops}


WORKLOADS = [Workload("proxy", gen_proxy, run_proxy, quick=10000, thorough=150000)]
