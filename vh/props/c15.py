"""C15: evented dataclasses emit (new, old) exactly when a field value changes."""
import dataclasses
import gc
import operator
import re
import warnings
from typing import Any, ClassVar

import attrs
import dask.array as da
import msgspec
import numpy as np
import pydantic

from psygnal import EmissionInfo, Signal, SignalGroup, SignalGroupDescriptor, evented, get_evented_namespace, is_evented
from vh.core import Workload, attempt
from vh.zoo import bomb, judged_equal

PROP = "C15"
TECHNIQUE = "runtime monitoring: lock-step comparison with an undecorated twin class; emissions predicted from the twin's values (identity of the reported values checked)"
RULE = (
    "random evented classes (dataclass, attrs, msgspec, pydantic; slots, frozen, weakref-less, validating, converting, custom __setattr__, "
    "properties; decorator or descriptor, with/without caching, aliases as dict or function, equality operators, own group classes, subclasses) "
    "and their plain twins; random assignments (equal, identical, NaN, arrays, invalid), deletions, in-place operators, other attributes, on two "
    "objects with random listeners (also ones that assign other fields); outcome, values and emissions are compared after each; "
    "non-trivial: at least one emission and one suppressed emission, distinct by case"
)
REQUIRE = {"assignments": 5000, "emitted": 2000, "suppressed": 1000, "failed": 300, "deleted": 100, "others": 200, "recreated": 200, "aliased": 300, "frozen": 100, "arrays": 100, "lazy_arrays": 100, "custom_eq": 100, "subclass": 300, "linked": 100, "held_paused": 300, "held_group_paused": 150, "held_blocked": 150, "rivals": 200, "kind_dataclass": 200, "kind_attrs": 200, "kind_msgspec": 200, "kind_pydantic": 200}


class Val:
    """Compares by value modulo 10."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Val) and self.v % 10 == o.v % 10

    def __hash__(self):
        return self.v % 10

    def __repr__(self):
        return f"Val({self.v})"


COMPUTED = []
_lazy = {}


def lazy(k):
    """A dask array (one for each k) that must never be computed."""
    if k not in _lazy:

        def boom(x):
            COMPUTED.append(k)
            return x

        _lazy[k] = da.from_array(np.array([1, 2])).map_blocks(boom, dtype=int, meta=np.array((), dtype=int))
    return _lazy[k]


FIELDS = {
    "i": (int, ["int", 0]), "j": (int, ["int", 1]), "s": (str, ["str", "a"]), "l": (list, ["list", []]), "f": (float, ["float", 0.5]),
    "o": (Any, ["none"]), "v": (Val, ["val", 1]), "a": (np.ndarray, ["np", [1, 2]]), "k": (da.Array, ["lazy", 0]), "x": (Any, ["np", [1, 2]]),
}
ARRAYS = {"a", "k", "x"}


def value(tok):
    t = tok[0]
    if t == "none":
        return None
    if t == "nan":
        return float("nan")
    if t == "val":
        return Val(tok[1])
    if t == "np":
        return np.array(tok[1])
    if t == "lazy":
        return lazy(tok[1])
    if t == "list":
        return list(tok[1])
    if t == "tuple":
        return tuple(tok[1])
    if t == "bomb":
        return bomb(tok[1])
    return tok[1]


def picky(a, b):
    """Cannot compare anything with None or 2."""
    for x in (a, b):
        if x is None or (type(x) is int and x == 2):
            raise ValueError("picky")
    return str(a) == str(b)


EQ = {"never": lambda a, b: False, "always": lambda a, b: True, "str": lambda a, b: str(a) == str(b), "type": lambda a, b: type(a) is type(b), "picky": picky, "close": lambda a, b: abs(a - b) < 2}


def default(name):
    return value(FIELDS[name][1])


def make_class(case, fields, base, extra_ns, name):
    """One class (evented or not is decided by extra_ns)."""
    kind, o = case["kind"], case["opts"]
    ann = {f: FIELDS[f][0] for f in fields}
    ns = {"__module__": "vh.fake", "__qualname__": name, "__annotations__": ann, **extra_ns}
    for k in extra_ns:
        if isinstance(extra_ns[k], SignalGroupDescriptor):
            ann[k] = ClassVar[Any]
    if o["prop"] and base is None and "i" in fields:
        ns["twice"] = property(lambda self: self.i * 2, lambda self, x: setattr(self, "i", x // 2))
    if o["own_setattr"] and base is None and kind == "dataclass" and not o["frozen"]:

        def own(self, n, v):
            object.__setattr__(self, n, abs(v) if n == "i" and type(v) is int else v)

        ns["__setattr__"] = own
    if kind == "dataclass":
        for f in fields:
            ns[f] = dataclasses.field(default_factory=lambda f=f: default(f))
        cls = type(name, (base,) if base else (), ns)
        return dataclasses.dataclass(frozen=o["frozen"], slots=o["slots"], eq=o["eq"])(cls)
    if kind == "attrs":
        for f in fields:
            kw = {}
            if o["validate"] and f in ("i", "s"):
                kw["validator"] = attrs.validators.instance_of(FIELDS[f][0])
            if o["convert"] and f == "j":
                kw["converter"] = int
            ns[f] = attrs.field(factory=lambda f=f: default(f), **kw)
        cls = type(name, (base,) if base else (), ns)
        if o["frozen"]:
            return attrs.frozen(cls, slots=o["slots"], eq=o["eq"])
        return attrs.define(cls, slots=o["slots"], eq=o["eq"])
    if kind == "msgspec":
        for f in fields:
            ns[f] = msgspec.field(default_factory=lambda f=f: default(f))
        return type(msgspec.Struct)(name, (base or msgspec.Struct,), ns, frozen=o["frozen"], weakref=o["weakref"], eq=o["eq"])
    for f in fields:
        ns[f] = pydantic.Field(default_factory=lambda f=f: default(f), frozen=True if f in o["frozen_fields"] else None)
    ns["_priv"] = pydantic.PrivateAttr(0)
    ann["_priv"] = int
    if base is None:
        ns["model_config"] = pydantic.ConfigDict(arbitrary_types_allowed=True, validate_assignment=o["validate"], frozen=o["frozen"], extra=o["extra"])
    return type(pydantic.BaseModel)(name, (base or pydantic.BaseModel,), ns)


def build(case):
    o = case["opts"]
    ns = case["namespace"]
    aliases = case["aliases"]
    al = None
    if aliases is not None:
        al = (lambda f: aliases.get(f, f"{f}_changed")) if case["alias_func"] else dict(aliases)
    kw = {}
    if al is not None:
        kw["signal_aliases"] = al
    if case["eq_ops"]:
        kw["equality_operators"] = {f: EQ[e] for f, e in case["eq_ops"].items()}
    kw["cache_on_instance"] = case["cache"]
    if case["how"] == "decorator":
        E = evented(make_class(case, case["fields"], None, {}, "Model"), events_namespace=ns, **kw)
    else:
        grp = None
        if case["own_group"]:
            grp = type(SignalGroup)("Own", (SignalGroup,), {"extra": Signal(int)})
            kw["signal_group_class"] = grp
        E = make_class(case, case["fields"], None, {ns: SignalGroupDescriptor(**kw)}, "Model")
    P = make_class(case, case["fields"], None, {}, "Model")
    ES = PS = None
    if case["sub"] is not None:
        ES = make_class(case, case["sub"], E, {}, "Sub")
        PS = make_class(case, case["sub"], P, {}, "Sub")
    del o
    return E, P, ES, PS


def signal_names(case, fields):
    """field -> signal name (None: no signal)"""
    out = {}
    aliases = case["aliases"]
    for f in fields:
        if case["kind"] == "pydantic" and f in case["opts"]["frozen_fields"]:
            continue
        if aliases is None:
            out[f] = f
        elif case["alias_func"]:
            out[f] = aliases.get(f, f"{f}_changed")
        else:
            out[f] = aliases.get(f, f)
    return out


def same(case, f, new, old):
    if f in case["eq_ops"]:
        op = EQ[case["eq_ops"][f]]
    else:
        op = {"a": np.array_equal, "k": operator.is_}.get(f, operator.eq)
    return judged_equal(op, new, old)


def message(e):
    return re.sub(r" at 0x[0-9a-f]+", "", str(e))


def values(obj, fields):
    return {f: repr(getattr(obj, f, "<missing>")) for f in fields}


def run_twin(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        COMPUTED.clear()
        _run_twin(case, ctx)
        ctx.check(not COMPUTED, "a dask array was computed")


def _run_twin(case, ctx):
    E, P, ES, PS = build(case)
    ns = case["namespace"]
    all_fields = case["fields"] + (case["sub"] or [])
    n_emit = n_sup = 0
    ctx.count(f"kind_{case['kind']}")
    log = []
    objs, twins, flds, names, deleted, strong = {}, {}, {}, {}, {}, []
    frozen = case["opts"]["frozen"]

    for cls, ev in ((E, True), (P, False), (ES, True), (PS, False)):
        if cls is not None:
            ctx.eq(is_evented(cls), ev, lambda: f"is_evented({cls.__name__})")
            ctx.eq(get_evented_namespace(cls), ns if ev else None, "get_evented_namespace(class)")

    def create(k, sub):
        cls, tw = (ES, PS) if sub and ES is not None else (E, P)
        objs[k], twins[k] = cls(), tw()
        flds[k] = all_fields if cls is ES else case["fields"]
        names[k] = signal_names(case, flds[k])
        deleted[k] = set()
        o = objs[k]
        ctx.check(is_evented(o) and get_evented_namespace(o) == ns, "is_evented/get_evented_namespace of an instance")
        ctx.check(not is_evented(twins[k]) and get_evented_namespace(twins[k]) is None, "is_evented/get_evented_namespace of an instance of a plain class")
        if sub and ES is not None:
            ctx.count("subclass")
        if case["early"]:
            check_group(k)

    def check_group(k):
        o = objs[k]
        g = getattr(o, ns)
        ctx.check(isinstance(g, SignalGroup) and getattr(o, ns) is g, lambda: f"{ns} of an object is {g!r}")
        want = sorted(n for n in names[k].values() if n is not None) + (["extra"] if case["own_group"] and case["how"] != "decorator" else [])
        ctx.eq(sorted(g), sorted(want), "names of the signals")
        ctx.check(g.all.instance is o, "group.all.instance")
        for other, x in objs.items():
            if other != k:
                ctx.check(getattr(x, ns) is not g, "two objects share their group")
        return g

    def listen(k, f, what):
        """what: signal / group / link"""
        g = check_group(k)
        if what == "group":

            def on_group(info, k=k):
                assert isinstance(info, EmissionInfo)
                which = [n for n in g if g[n] is info.signal]
                log.append((k, "group", which[0] if len(which) == 1 else which, info.args))

            strong.append(on_group)
            g.connect(on_group)
            return "group"
        n = names[k].get(f)
        if n is None:
            return None
        if n != f:
            ctx.count("aliased")

        def on_field(new, old, k=k, n=n):
            log.append((k, "field", n, (new, old)))

        strong.append(on_field)
        g[n].connect(on_field)
        return n

    listeners = {}  # k -> Counter-like dict name -> count

    def n_listeners(k, n):
        L = listeners.get(k, {})
        return L.get(n, 0), L.get("group", 0)

    def expect(k, f, old, new_twin, old_twin):
        """Expected log entries after an assignment."""
        nonlocal n_emit, n_sup
        n = names[k].get(f)
        if n is None:
            return []
        nf, ng = n_listeners(k, n)
        if not nf + ng:
            return []
        if f in ("a", "x"):
            ctx.count("arrays")
        if f == "k":
            ctx.count("lazy_arrays")
        if f in case["eq_ops"]:
            ctx.count("custom_eq")
        if same(case, f, new_twin, old_twin):
            ctx.count("suppressed")
            n_sup += 1
            return []
        ctx.count("emitted")
        n_emit += 1
        args = (getattr(objs[k], f), old)
        return [(k, "field", n, args)] * nf + [(k, "group", n, args)] * ng

    def compare_log(want, what):
        got = list(log)
        log.clear()

        def key(e):
            return (e[0], e[1], str(e[2]))

        got.sort(key=key)
        want = sorted(want, key=key)
        ok = len(got) == len(want) and all(a[:3] == b[:3] and len(a[3]) == 2 and a[3][0] is b[3][0] and a[3][1] is b[3][1] for a, b in zip(got, want))
        ctx.check(ok, lambda: f"emissions by {what}: got {got}, expected {want} (same objects)")

    def do(op):
        k = op[1]
        if op[0] == "new":
            had = k in objs
            if had:
                objs.pop(k)
                twins.pop(k)
                listeners.pop(k, None)
                strong.clear()
                gc.collect() if case["collect"] else None
                ctx.count("recreated")
            create(k, op[2])
            return
        if k not in objs:
            return
        o, t = objs[k], twins[k]
        f = flds[k][op[2] % len(flds[k])]
        if op[0] == "listen":
            n = listen(k, f, op[3])
            if n is not None:
                d = listeners.setdefault(k, {})
                d[n] = d.get(n, 0) + 1
        elif op[0] == "unlisten":
            g = getattr(o, ns)
            n = names[k].get(f)
            if n is not None and listeners.get(k, {}).get(n):
                # (removes the group's relay as well, if there is one)
                if not listeners[k].get("group"):
                    g[n].disconnect()
                    listeners[k][n] = 0
        elif op[0] in ("set", "iadd", "same"):
            if f in deleted[k] and op[0] != "set":
                return
            old, old_t = getattr(o, f, None), getattr(t, f, None)
            if op[0] == "set":
                r = attempt(setattr, o, f, value(op[3]))
                r2 = attempt(setattr, t, f, value(op[3]))
            elif op[0] == "same":
                r = attempt(setattr, o, f, old)
                r2 = attempt(setattr, t, f, old_t)
            else:

                def iadd(x, d):
                    v = getattr(x, f)
                    v = operator.iadd(v, d)
                    setattr(x, f, v)

                if f in ("l", "i", "j", "s", "f") and type(old) is type(default(f)):
                    d = {"l": [op[2]], "s": "x"}.get(f, 1)
                    r, r2 = attempt(iadd, o, d), attempt(iadd, t, d)
                else:
                    return
            ctx.count("assignments")
            compare(r, r2, f"assignment of {f}")
            was_deleted = f in deleted[k]
            deleted[k].discard(f)
            if not r.ok:
                ctx.count("failed")
                if frozen:
                    ctx.count("frozen")
                if was_deleted:
                    deleted[k].add(f)
                compare_log([], f"failing assignment of {f}")
            elif was_deleted:
                log.clear()
            else:
                compare_log(expect(k, f, old, getattr(t, f), old_t), f"assignment of {f}")
        elif op[0] == "del":
            r, r2 = attempt(delattr, o, f), attempt(delattr, t, f)
            compare(r, r2, f"deletion of {f}")
            if r.ok:
                deleted[k].add(f)
            ctx.count("deleted")
            compare_log([], f"deletion of {f}")
        elif op[0] == "other":
            nm, v = op[3], value(op[4])
            r, r2 = attempt(setattr, o, nm, v), attempt(setattr, t, nm, v)
            compare(r, r2, f"assignment of attribute {nm}")
            if r.ok:
                ctx.eq(repr(getattr(o, nm)), repr(getattr(t, nm)), lambda: f"attribute {nm}")
            ctx.count("others")
            compare_log([], f"assignment of attribute {nm}")
        elif op[0] == "prop":
            if not (case["opts"]["prop"] and "i" in case["fields"]) or "i" in deleted[k] or case["kind"] == "pydantic":
                return
            if type(getattr(o, "i")) is not int:
                return
            old, old_t = o.i, t.i
            r, r2 = attempt(setattr, o, "twice", op[3]), attempt(setattr, t, "twice", op[3])
            compare(r, r2, "assignment of a property")
            compare_log(expect(k, "i", old, t.i, old_t) if r.ok else [], "assignment of a property that sets i")
        elif op[0] == "link":
            # a listener that assigns another field
            a, b = case["fields"][0], case["fields"][-1]
            na = names[k].get(a)
            if a == b or na is None or frozen or case["opts"]["validate"] or {a, b} & deleted[k] or ARRAYS & {a, b} or (case["opts"]["convert"] and "j" in (a, b)) or b in case["opts"]["frozen_fields"]:
                return
            g = check_group(k)

            def link(new, old):
                setattr(o, b, new)

            g[na].connect(link)
            old_a, old_b, old_ta, old_tb = getattr(o, a), getattr(o, b), getattr(t, a), getattr(t, b)
            setattr(o, a, value(op[3]))
            setattr(t, a, value(op[3]))
            want = expect2(k, a, old_a, getattr(t, a), old_ta)
            if not same(case, a, getattr(t, a), old_ta):
                setattr(t, b, getattr(t, a))
                want += expect2(k, b, old_b, getattr(t, b), old_tb)
            g[na].disconnect(link)
            ctx.count("linked")
            compare_log(want, f"assignment of {a}, by whose listener {b} is assigned")
        elif op[0] == "held":
            # several assignments while the signal of the field, or the group, is paused or blocked
            n = names[k].get(f)
            if n is None or frozen or f in deleted[k]:
                return
            g = check_group(k)
            want = []
            log.clear()
            with (g.all if op[4].startswith("group") else g[n]).paused() if op[4].endswith("paused") else g[n].blocked():
                for j, tok in enumerate(op[3]):
                    old, old_t = getattr(o, f), getattr(t, f)
                    r, r2 = attempt(setattr, o, f, value(tok)), attempt(setattr, t, f, value(tok))
                    compare(r, r2, f"assignment {j} of {f} while it is {op[4]}")
                    if r.ok and op[4] != "blocked":
                        want += expect(k, f, old, getattr(t, f), old_t)
                if op[4] != "group_paused":
                    ctx.check(not log, lambda: f"emissions while {f} is {op[4]}: {log}")
                else:
                    ctx.check(all(e[1] == "field" for e in log), lambda: f"emissions of the group while it is paused: {log}")
            ctx.count(f"held_{op[4]}")
            compare_log(want, f"{len(op[3])} assignments of {f} while it was {op[4]}")
        elif op[0] == "emit":
            # the signals themselves work
            g = check_group(k)
            if case["own_group"] and case["how"] != "decorator":
                got = []
                f2 = got.append
                g["extra"].connect(f2)
                g["extra"].emit(3)
                ctx.eq(got, [3], "emission of a signal of the group class")
                log.clear()
                g["extra"].disconnect(f2)
        for x in objs:
            live = [f for f in flds[x] if f not in deleted[x]]
            ctx.eq(values(objs[x], live), values(twins[x], live), lambda: f"values of object {x} after {op[0]}")

    def expect2(k, f, old, new_t, old_t):
        return expect(k, f, old, new_t, old_t)

    def compare(r, r2, what):
        ctx.eq(type(r.exc), type(r2.exc), lambda: f"{what}: {r}; without psygnal: {r2}; exceptions")
        if not r.ok:
            ctx.eq(message(r.exc), message(r2.exc), lambda: f"{what}: message")

    rival = None
    if case["rival"] is not None and not frozen:
        # another evented class of the same name and fields, with other equality operators
        rc = {**case, "eq_ops": case["rival"]}
        rival = build(rc)
    for k, op in enumerate(case["ops"]):
        if rival is not None and k == len(case["ops"]) // 2:
            check_rival(rc, rival[0](), rival[1](), ctx)
        do(op)
    if n_emit and n_sup:
        ctx.nontrivial()


def check_rival(case, o, t, ctx):
    g = getattr(o, case["namespace"])
    for f, n in signal_names(case, case["fields"]).items():
        if n is None:
            continue
        got = []
        slot = lambda new, old, got=got: got.append((new, old))  # noqa: E731
        g[n].connect(slot)
        for tok in [*case["rival_toks"][f], FIELDS[f][1]]:
            old, old_t = getattr(o, f), getattr(t, f)
            r, r2 = attempt(setattr, o, f, value(tok)), attempt(setattr, t, f, value(tok))
            ctx.eq(type(r.exc), type(r2.exc), lambda: f"assignment of {f} of the second class")
            want = [] if not r.ok or same(case, f, getattr(t, f), old_t) else [(getattr(o, f), old)]
            ctx.check(len(got) == len(want) and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(got, want)), lambda: f"emissions by the assignment of {f} of an object of another class of the same name: {got}, expected {want}")
            got.clear()
        g[n].disconnect(slot)
    ctx.count("rivals")


def gen_twin(rng, i, tier):
    def eq_op(f):
        return rng.choice([e for e in EQ if f != "k" or e not in ("close", "picky")])

    kind = rng.choice(["dataclass", "attrs", "msgspec", "pydantic"])
    pool = list(FIELDS)
    rng.shuffle(pool)
    n = rng.randint(1, 5)
    fields = pool[:n]
    sub = pool[n : n + rng.randint(0, 2)] if rng.random() < 0.35 else None
    frozen = rng.random() < 0.08
    opts = {
        "frozen": frozen, "slots": rng.random() < 0.4, "eq": rng.random() < 0.6, "validate": rng.random() < 0.4, "convert": rng.random() < 0.4,
        "weakref": rng.random() < 0.6, "prop": rng.random() < 0.3, "own_setattr": rng.random() < 0.3, "extra": rng.choice(["ignore", "forbid", "allow"]),
        "frozen_fields": rng.sample(fields, 1) if kind == "pydantic" and rng.random() < 0.2 else [],
    }
    aliases = None
    func = False
    if rng.random() < 0.4:
        func = rng.random() < 0.4
        aliases = {f: rng.choice([None, f"{f}_sig", f"on_{f}"]) for f in fields if rng.random() < 0.5}
        if sub and not func:
            aliases.update({f: f"sub_{f}" for f in sub if rng.random() < 0.4})
    eq_ops = {f: eq_op(f) for f in fields if rng.random() < 0.12}
    toks = {
        "i": [["int", 0], ["int", 1], ["int", 2], ["int", -2], ["str", "x"]], "j": [["int", 0], ["int", 1], ["str", "5"], ["str", "x"], ["float", 1.0]],
        "s": [["str", "a"], ["str", "b"], ["int", 3]], "l": [["list", []], ["list", [1]], ["list", [1, 2]], ["tuple", [1]], ["list", [[1], [2, 3]]], ["none"]],
        "f": [["float", 0.5], ["float", 1.5], ["nan"], ["nan"], ["int", 1], ["float", 1.0]], "o": [["none"], ["int", 1], ["bool", True], ["list", [1]], ["tuple", [1]], ["list", [[1], [2, 3]]], ["str", "a"], ["str", "1"]],
        "v": [["val", 1], ["val", 11], ["val", 2], ["none"]], "a": [["np", [1, 2]], ["np", [1, 3]], ["np", [1, 2, 3]], ["np", []], ["np", [1, 2]], ["np", [1]], ["np", [[1]]], ["np", [[1, 2]]], ["np", [1.0, 2.0]]],
        "x": [["none"], ["np", [1, 2]], ["np", [1, 3]], ["np", [1.0, 2.0]], ["np", [2, 2]], ["np", [1, 2, 3]], ["np", [[1, 2], [1, 2]]], ["list", [1, 2]], ["list", [5]], ["list", [5]], ["tuple", [1, 2]], ["int", 1], ["bool", True], ["str", "a"], ["bomb", 0], ["bomb", 0], ["bomb", 1]],
        "k": [["lazy", 0], ["lazy", 1], ["lazy", 2]],
    }
    rival = {f: eq_op(f) for f in fields if rng.random() < 0.4} if rng.random() < 0.35 else None
    rival_toks = {f: [rng.choice(toks[f]) for _ in range(2)] for f in fields}
    all_fields = fields + (sub or [])
    if kind == "msgspec" and sub:
        all_fields = fields + sub
    ops = [["new", 0, rng.random() < 0.5], ["new", 1, rng.random() < 0.5]]
    for _ in range(rng.randint(5, 40)):
        k = rng.choice([0, 0, 1])
        fi = rng.randrange(len(all_fields))
        x = rng.random()
        if x < 0.15:
            ops.append(["listen", k, fi, rng.choice(["signal", "signal", "group"])])
        elif x < 0.18:
            ops.append(["unlisten", k, fi])
        elif x < 0.22:
            ops.append(["new", k, rng.random() < 0.5])
        elif x < 0.26:
            ops.append(["iadd", k, fi])
        elif x < 0.31:
            ops.append(["same", k, fi])
        elif x < 0.33:
            ops.append(["del", k, fi])
        elif x < 0.37:
            ops.append(["other", k, 0, rng.choice(["zzz", "_priv", "_zzz", "method"]), rng.choice([["int", 1], ["str", "q"]])])
        elif x < 0.40:
            ops.append(["prop", k, 0, rng.randint(-4, 4)])
        elif x < 0.44:
            ops.append(["link", k, 0, rng.choice(toks[fields[0]])])
        elif x < 0.46:
            ops.append(["emit", k, 0])
        elif x < 0.52:
            f0, f1 = fields[fi % len(fields)], all_fields[fi % len(all_fields)]
            if f0 != f1 and ARRAYS & {f0, f1}:
                continue
            ops.append(["held", k, fi, [rng.choice(toks[f1]) for _ in range(rng.randint(1, 4))], rng.choice(["paused", "paused", "group_paused", "blocked"])])
        else:
            # (the field depends on the class of the object: tokens for both)
            f0, f1 = fields[fi % len(fields)], all_fields[fi % len(all_fields)]
            if f0 != f1 and ARRAYS & {f0, f1}:
                continue
            ops.append(["set", k, fi, rng.choice(toks[f1] if rng.random() < 0.7 else toks[f0]) if f0 not in ARRAYS else rng.choice(toks[f0])])
    return {
        "kind": kind, "fields": fields, "sub": sub, "opts": opts, "aliases": aliases, "alias_func": func, "eq_ops": eq_ops, "cache": rng.random() < 0.6,
        "how": rng.choice(["decorator", "descriptor"]), "own_group": rng.random() < 0.25, "namespace": rng.choice(["events", "events", "my_events"]),
        "early": rng.random() < 0.5, "collect": rng.random() < 0.3, "ops": ops, "rival": rival, "rival_toks": rival_toks,
    }


WORKLOADS = [Workload("twin", gen_twin, run_twin, quick=2500, thorough=50000)]


def probe_mixin_first():
    class Mixin:
        pass

    @evented
    class Thing(Mixin, msgspec.Struct, weakref=True):
        v: int = 1

    t = Thing()
    got = []
    t.events.v.connect(lambda *a: got.append(a))
    r = attempt(setattr, t, "v", 2)
    if not r.ok or got != [(2, 1)]:
        return f"assigning a field of an evented msgspec Struct with a mixin class in front of Struct in its bases: {r!r}, emitted {got}"
    return None


FINDINGS = {"msgspec-mixin-first": probe_mixin_first}
