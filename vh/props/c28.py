"""C28: evented containers are pydantic field types that validate like list, set and dict."""
import collections
import enum
import json
import warnings
from typing import Annotated, Any, Literal, Optional, Union

import pydantic
from pydantic import ConfigDict, TypeAdapter

from psygnal import EventedModel
from psygnal.containers import EventedDict, EventedList, EventedOrderedSet, EventedSet, SelectableEventedList, Selection
from vh.core import Workload, attempt

PROP = "C28"
TECHNIQUE = "runtime monitoring: every validation of an evented container is compared with pydantic's own validation of the built-in container with the same item types, and the events of the validated container with its mutations"
RULE = (
    "evented lists, selectable lists, sets, ordered sets, selections and dicts, unparametrized or with 12 item types including nested evented containers, as fields of BaseModel (frozen, validating "
    "assignments, defaults), EventedModel, pydantic dataclasses, in Optional/Annotated/list[...] and in a TypeAdapter; values from valid, coercible and invalid items in lists, tuples, sets, dicts, "
    "generators, deques, evented containers, non-containers and JSON text; non-trivial: an accepted non-empty container; distinct by case"
)
REQUIRE = {"accepted": 2000, "rejected": 1000, "coerced": 300, "order": 300, "from_json": 300, "from_evented": 300, "events": 3000, "assigned": 500, "nested": 300, "bare": 200, "defaults": 100, "unchanged": 50}
ASSUMPTIONS = ["lax mode; serialization, strict mode and unhashable items of sets are not judged"]


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


class Point(pydantic.BaseModel):
    x: int = 0
    model_config = ConfigDict(frozen=True)


# name -> (evented item type, equivalent built-in one)
ITEM = {
    "int": (int, int),
    "str": (str, str),
    "float": (float, float),
    "bool": (bool, bool),
    "any": (Any, Any),
    "pos": (Annotated[int, pydantic.Field(gt=0)], Annotated[int, pydantic.Field(gt=0)]),
    "lit": (Literal["a", 1], Literal["a", 1]),
    "opt": (Optional[int], Optional[int]),
    "union": (Union[int, str], Union[int, str]),
    "tuple": (tuple[int, str], tuple[int, str]),
    "enum": (Color, Color),
    "model": (Point, Point),
}
NESTED = {
    "list": (EventedList[int], list[int]),
    "set": (EventedSet[int], set[int]),
    "dict": (EventedDict[str, int], dict[str, int]),
}
VALUES = {
    "int": [0, 1, 2, 3, -1, True, "4", "1", 2.0, "x", None, 1.5, "", [1]],
    "str": ["a", "b", "", "1", 1, None, b"c", ["a"]],
    "float": [0.0, 1, 1.5, "2.5", "x", None, float("inf")],
    "bool": [True, False, 1, 0, "yes", "off", 2, None],
    "any": [1, "a", None, 1.5, (1, 2), True, Color.RED],
    "pos": [1, 2, "3", 0, -1, "x"],
    "lit": ["a", 1, "b", 2],
    "opt": [1, None, "2", "x"],
    "union": [1, "a", "1", 1.0, None],
    "tuple": [(1, "a"), [2, "b"], ("3", "c"), (1,), "ab", (1, 2)],
    "enum": [Color.RED, "b", 1, "x", None],
    "model": [{"x": 1}, Point(x=2), {"x": "3"}, {"x": "y"}, 1],
    "list": [[1, "2"], (), [3], EventedList([1]), ["x"], 5],
    "set": [[1, "2", 1], set(), {3}, EventedSet([1]), ["x"], 5],
    "dict": [{"a": 1}, {}, {"b": "2"}, EventedDict({"c": 3}), {"a": "x"}, 5],
}
GOOD = {"int": 10, "str": 4, "float": 4, "bool": 6, "any": 7, "pos": 3, "lit": 2, "opt": 3, "union": 4, "tuple": 3, "enum": 3, "model": 3, "list": 4, "set": 4, "dict": 4}

CLS = {"list": EventedList, "selectable": SelectableEventedList, "set": EventedSet, "ordered": EventedOrderedSet, "selection": Selection, "dict": EventedDict}
LISTS, SETS = ("list", "selectable"), ("set", "ordered", "selection")


def types(case):
    """Return the evented type and the built-in one."""
    kind, item = case["kind"], case["item"]
    cls = CLS[kind]
    ev, bi = {**ITEM, **NESTED}[item] if item else (None, None)
    if kind == "dict":
        if item is None:
            return cls, dict
        kev, kbi = ITEM[case["key"]]
        return cls[kev, ev], dict[kbi, bi]
    builtin = list if kind in (*LISTS, "ordered") else set
    if item is None:
        return cls, builtin
    return cls[ev], builtin[bi]


def freeze(x):
    """Items with their types, comparable."""
    if isinstance(x, (EventedList, list)):
        return ("list", [freeze(i) for i in x])
    if isinstance(x, (EventedSet, set, frozenset)):
        return ("set", sorted(map(repr, map(freeze, x))))
    if isinstance(x, (EventedDict, dict)):
        return ("dict", [(freeze(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, tuple):
        return ("tuple", [freeze(i) for i in x])
    return (type(x).__name__, x)


def value_of(case):
    vals = [VALUES[case["item"] or "any"][k] for k in case["values"]]
    how = case["how"]
    if case["kind"] == "dict":
        keys = [VALUES[case["key"] if case["item"] else "any"][k] for k in case["keys"]]
        if any(isinstance(k, (list, dict)) for k in keys):
            return None, False
        d = dict(zip(keys, vals))
        return {
            "same": lambda: d, "evented": lambda: EventedDict(d), "other": lambda: collections.OrderedDict(d), "gen": lambda: list(d.items()),
            "wrong": lambda: 5, "none": lambda: None, "deque": lambda: collections.UserDict(d), "tuple": lambda: vals,
        }[how], True
    hashable = attempt(lambda: set(vals)).ok
    if case["kind"] in SETS and not hashable and how in ("evented", "same"):
        how = "list"
    return {
        "list": lambda: list(vals),
        "same": lambda: list(vals) if case["kind"] in LISTS else set(vals),
        "evented": lambda: EventedList(vals) if case["kind"] in LISTS else EventedOrderedSet(vals),
        "other": lambda: EventedOrderedSet(vals) if hashable else EventedList(vals),
        "gen": lambda: (v for v in vals),
        "tuple": lambda: tuple(vals),
        "deque": lambda: collections.deque(vals),
        "wrong": lambda: 5,
        "none": lambda: None,
    }[how], True


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(case, ctx)


def _run(case, ctx):
    ev, bi = types(case)
    make, ok = value_of(case)
    if not ok:
        return
    kind = case["kind"]
    if case["item"] is None:
        ctx.count("bare")
    if case["item"] in NESTED:
        ctx.count("nested")
    wrap = {"plain": lambda t: t, "optional": lambda t: Optional[t], "annotated": lambda t: Annotated[t, pydantic.Field(description="x")], "inner": lambda t: list[t]}[case["wrap"]]
    tev, tbi = wrap(ev), wrap(bi)
    inner = case["wrap"] == "inner"
    value = (lambda: [make(), make()]) if inner else make
    as_json = None
    if case["json"]:
        r = attempt(lambda: json.dumps(list(value()) if not isinstance(value(), (dict, int, type(None))) else value()))
        if not r.ok or "Infinity" in r.val or inner:
            return
        as_json = r.val
    oracle = TypeAdapter(tbi)
    want = attempt(oracle.validate_json, as_json) if as_json is not None else attempt(oracle.validate_python, value())
    if not want.ok and not isinstance(want.exc, pydantic.ValidationError):
        return
    if want.ok and kind in ("selectable", "ordered") and want.val is not None:
        if not all(attempt(hash, x).ok for c in (want.val if inner else [want.val]) for x in c):
            return
    via = case["via"]
    ns = {"__annotations__": {"f": tev}, "__module__": __name__}
    if via == "adapter":
        a = TypeAdapter(tev)
        got = attempt(a.validate_json, as_json) if as_json is not None else attempt(a.validate_python, value())
        obj = None
    elif via == "dataclass":
        D = pydantic.dataclasses.dataclass(type("D", (), ns))
        if as_json is not None:
            got = attempt(lambda: TypeAdapter(D).validate_json('{"f": %s}' % as_json).f)
        else:
            got = attempt(lambda: D(f=value()).f)
        obj = None
    else:
        base = EventedModel if via in ("evented", "evented_assign") else pydantic.BaseModel
        ns["model_config"] = ConfigDict(validate_assignment=True)
        if case["default"]:
            # (a default factory, whose result is validated)
            ns["f"] = pydantic.Field(default_factory=value, validate_default=True)
        M = type("M", (base,), ns)
        if case["default"] and as_json is None:
            ctx.count("defaults")
            got = attempt(lambda: M().f)
        elif via.endswith("assign") and as_json is None:
            first = {"dict": {}}.get(kind, [])
            m = M(f=[first] if inner else first)
            if case["prev"] != "empty" and not inner:
                p = attempt(lambda: TypeAdapter(bi).validate_python(value()))
                if p.ok and p.val is not None:
                    p = p.val
                    if case["prev"] == "reversed":
                        p = dict(reversed(p.items())) if kind == "dict" else list(p)[::-1]
                    elif case["prev"] == "less":
                        p = dict(list(p.items())[1:]) if kind == "dict" else list(p)[1:]
                    m = M(f=p)
            old = m.f
            events = []
            if via == "evented_assign":
                m.events.f.connect(lambda v: events.append(v))
            r = attempt(setattr, m, "f", value())
            ctx.count("assigned")
            got = attempt(lambda: m.f) if r.ok else r
            if not r.ok:
                ctx.check(m.f is old, "a rejected assignment changed the field")
                ctx.eq(len(events), 0, "events of a rejected assignment")
            elif via == "evented_assign":
                # (evented containers compare with ==)
                plain = lambda x: x if x is None else [plain(y) for y in x] if isinstance(x, list) else {"l": list, "s": set, "o": set, "d": dict}[kind[0] if kind != "selectable" else "l"](x)  # noqa: E731
                n = 0 if plain(got.val) == plain(old) else 1
                ctx.count("unchanged", not n)
                ctx.eq(len(events), n, f"events of the field for the assignment of {value()!r} to {old!r}")
                ctx.check(not n or events[0] is m.f, "the event reports another object")
        elif as_json is not None:
            got = attempt(lambda: M.model_validate_json('{"f": %s}' % as_json).f)
        else:
            got = attempt(lambda: M(f=value()).f)
    shown = as_json if as_json is not None else value()
    if not want.ok:
        ctx.count("rejected")
        ctx.check(not got.ok, lambda: f"{tev} accepted {shown!r}: {got.val!r}; {tbi} does not")
        ctx.check(isinstance(got.exc, pydantic.ValidationError), lambda: f"validation of {shown!r} as {tev} raised {got.exc!r}")
        return
    ctx.check(got.ok, lambda: f"{tev} did not accept {shown!r}: {got.exc}; {tbi} does: {want.val!r}")
    ctx.count("accepted")
    if as_json is not None:
        ctx.count("from_json")
    if got.val is None:
        ctx.check(want.val is None, "result")
        return
    outs = list(zip(got.val, want.val)) if inner else [(got.val, want.val)]
    ctx.eq(len(got.val), len(want.val), "number of items") if inner else None
    for g, w in outs:
        check_container(case, ctx, kind, g, w, shown)
        if not inner and as_json is None and case["how"] in ("evented", "other", "same"):
            src = value()
            ctx.count("from_evented", case["how"] == "evented")
            if case["via"] == "adapter":
                g2 = TypeAdapter(tev).validate_python(src)
                before = freeze(src)
                g2.clear()
                ctx.check(g2 is not src and freeze(src) == before, "changing the validated container changed the value it was made from")
        mutate(case, ctx, kind, g)


def check_container(case, ctx, kind, g, w, shown):
    ctx.check(type(g) is CLS[kind], lambda: f"validation of {shown!r} gave a {type(g)}, expected {CLS[kind]}")
    if kind == "ordered":
        w = list(dict.fromkeys(w))
        ctx.eq([freeze(x) for x in g], [freeze(x) for x in w], f"items of the ordered set made from {shown!r}")
        ctx.count("order", len(w) > 1)
    elif kind in SETS:
        ctx.eq(freeze(set(g)), freeze(w), f"items of the set made from {shown!r}")
    else:
        ctx.eq(freeze(g), freeze(w), f"items of the container made from {shown!r}")
    if case["item"] in NESTED:
        items = g.values() if kind == "dict" else g
        cls = {"list": EventedList, "set": EventedSet, "dict": EventedDict}[case["item"]]
        for x in items:
            ctx.check(type(x) is cls, lambda: f"nested container is a {type(x)}")
    if len(g):
        ctx.nontrivial()
        if not isinstance(shown, str) and repr(list(shown.values()) if isinstance(shown, dict) else list(w)) != repr([VALUES[case["item"] or "any"][k] for k in case["values"]]):
            ctx.count("coerced")


def mutate(case, ctx, kind, g):
    """The validated container is an ordinary evented container."""
    seen = []
    if kind in LISTS:
        g.events.connect(lambda info: seen.append((info.signal.name, info.args)))
        n = len(g)
        g.append(7)
        ctx.check(("inserted", (n, 7)) in seen, lambda: f"append() emitted {seen}")
        seen.clear()
        g.clear()
        ctx.eq([s for s in seen if s[0] == "removed"].__len__(), n + 1, "removed events of clear()")
    elif kind in SETS:
        g.events.connect(lambda info: seen.append((info.signal.name, info.args)))
        new = "an item that is not there"
        if kind == "selection":
            g.add(new)
            ctx.check(any(s == "items_changed" and a[0] == (new,) and a[1] == () for s, a in seen), lambda: f"add() emitted {seen}")
        else:
            g.add(new)
            ctx.eq(seen, [("items_changed", ((new,), ()))], "events of add()")
        n = len(g)
        seen.clear()
        g.clear()
        ctx.eq(sum(len(a[1]) for s, a in seen if s == "items_changed"), n, "items removed by clear()")
    else:
        g.events.connect(lambda info: seen.append((info.signal.name, info.args)))
        g["a key that is not there"] = 1
        ctx.eq(seen, [("adding", ("a key that is not there",)), ("added", ("a key that is not there", 1))], "events of adding a key")
        n = len(g)
        seen.clear()
        g.clear()
        ctx.eq(len([s for s in seen if s[0] == "removed"]), n, "removed events of clear()")
    ctx.count("events", len(seen))
    ctx.eq(len(g), 0, "length after clear()")


def gen(rng, i, tier):
    kind = rng.choice(list(CLS))
    pool = list(ITEM)
    if kind in ("list", "dict"):
        pool += list(NESTED)
    item = rng.choice(pool) if rng.random() < 0.9 else None
    key = rng.choice(["int", "str", "tuple", "pos", "enum"])
    vpool = VALUES[item or "any"]
    good = rng.random() < 0.65
    n = rng.choice([0, 1, 2, 3, 3, 4, 5])
    pick = lambda name: rng.randrange(GOOD[name] if good else len(VALUES[name]))  # noqa: E731
    values = [pick(item or "any") for _ in range(n)]
    if kind in SETS:
        # (unhashable items are not judged)
        values = [v for v in values if attempt(hash, vpool[v]).ok and not isinstance(vpool[v], tuple) or item == "tuple" and isinstance(vpool[v], tuple)]
    how = rng.choice(["list", "same", "same", "evented", "evented", "other", "gen", "tuple", "deque", "wrong", "none"])
    if kind == "dict" and how == "list":
        how = "same"
    return {
        "kind": kind, "item": item, "key": key, "values": values, "keys": [rng.randrange(GOOD[key if item else "any"] if good else len(VALUES[key if item else "any"])) for _ in values],
        "how": how, "json": rng.random() < 0.2, "wrap": rng.choice(["plain"] * 5 + ["optional", "annotated", "inner"]),
        "via": rng.choice(["model", "assign", "evented", "evented_assign", "evented_assign", "dataclass", "adapter"]), "default": rng.random() < 0.08, "prev": rng.choice(["empty", "empty", "same", "reversed", "less"]),
    }


WORKLOADS = [Workload("fields", gen, run, quick=8000, thorough=150000, shrink=("values",))]
