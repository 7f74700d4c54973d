"""C21: EventedSet/EventedOrderedSet behave like set; items_changed is the exact diff."""
import copy
import operator
import warnings

from psygnal import EmissionInfo, EmitLoopError
from psygnal.containers import EventedOrderedSet, EventedSet, OrderedSet
from vh.core import Workload, attempt

PROP = "C21"
TECHNIQUE = "runtime monitoring: lock-step comparison with a built-in set (and an insertion-ordered dict), every items_changed event compared with the observed difference, and an online monitor that rebuilds the set from the events alone"
RULE = (
    "random histories of all set methods and operators on EventedSet, EventedOrderedSet, OrderedSet and subclasses: zero to three arguments of any iterable type (lists with duplicates, "
    "iterators, dicts, strings, sets, other evented sets, the set itself), equal but not identical items, unhashable items and iterables that raise midway, listeners that raise, that mutate "
    "the set in turn, on the signal and on the group; non-trivial: cases with an event that adds and one that removes and a call without effect, distinct by case"
)
REQUIRE = {"ops": 20000, "events": 10000, "group_events": 3000, "no_effect": 3000, "failed": 300, "reactions": 500, "inplace": 3000, "both_ways": 500, "results": 3000}
ASSUMPTIONS = [
    "operators are used with set-like operands, and no sets are used as items (set looks up the corresponding frozenset)",
    "where set itself makes no promise (which item pop() removes, which of two equal items is kept by an intersection, order of symmetric_difference) none is required",
]


class Box:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Box) and self.v == o.v

    def __hash__(self):
        return hash(("box", self.v))

    def __repr__(self):
        return f"Box({self.v})"


class Boom(Exception):
    pass


class SubSet(EventedSet):
    pass


class SubOrdered(EventedOrderedSet):
    pass


CLS = {"set": EventedSet, "ordered": EventedOrderedSet, "plain": OrderedSet, "subset": SubSet, "subordered": SubOrdered}
NAN = float("nan")
ITEMS = [0, 1, 2, 3, 4, 5, 6, 7, "a", "b", True, 1.0, 2.0, "", None, (1, 2), (), NAN, Box(1), Box(1), frozenset({1}), -1, -2, [1], {}]
HASHABLE = len(ITEMS) - 2
SMALL = 10


def run_set(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(case, ctx)


def _run(case, ctx):
    cls = CLS[case["cls"]]
    ordered = case["cls"] != "set" and case["cls"] != "subset"
    evented = case["cls"] != "plain"

    def I(i):
        return ITEMS[i % len(ITEMS)]

    def source(kind, idx):
        """(iterable for the set under test, the same for the model, whether its order is defined)."""
        items = [I(i) for i in idx]
        hashable = [x for x in items if not isinstance(x, (list, dict))]
        if kind == "list":
            return list(items), list(items), True
        if kind == "tuple":
            return tuple(items), tuple(items), True
        if kind == "iter":
            return iter(items), iter(items), True
        if kind == "dict":
            return dict.fromkeys(hashable), dict.fromkeys(hashable), True
        if kind == "keys":
            return dict.fromkeys(hashable).keys(), dict.fromkeys(hashable).keys(), True
        if kind == "set":
            return set(hashable), set(hashable), False
        if kind == "frozenset":
            return frozenset(hashable), frozenset(hashable), False
        if kind == "evented":
            return EventedSet(hashable), set(hashable), False
        if kind == "evordered":
            return EventedOrderedSet(hashable), list(dict.fromkeys(hashable)), True
        if kind == "str":
            return "abba", "abba", True
        if kind == "range":
            return range(len(idx)), range(len(idx)), True
        if kind == "big":
            return range(*idx), range(*idx), True
        if kind == "self":
            return s, list(model), True
        if kind == "notiter":
            return 5, 5, True
        if kind == "raise":

            def g():
                yield from items
                raise Boom

            return g(), g(), True
        raise AssertionError(kind)

    init = [I(i) for i in case["init"]] + list(range(case["many"]))
    ctx.count("large", case["many"] > 0)
    r, r2 = attempt(cls, list(init)), attempt(set, init)
    ctx.check(r.ok == r2.ok and (r.ok or type(r.exc) is type(r2.exc)), lambda: f"construction from {init}: {r}; set: {r2}")
    if not r.ok:
        init = [x for x in init if not isinstance(x, (list, dict))]
        r = attempt(cls, iter(init))
    s = r.val
    model = dict.fromkeys(init)  # insertion ordered, same elements as set(init)
    bystander = cls(init)

    log = []  # (added, removed) in the order of events
    mirror = dict.fromkeys(model)
    reactions = []
    state = {"react": None, "raise": False, "depth": 0}

    def on_items_changed(added, removed):
        ctx.count("events")
        ctx.check(type(added) is tuple and type(removed) is tuple, lambda: f"items_changed({added!r}, {removed!r})")
        log.append((added, removed))
        for x in removed:
            ctx.check(x in mirror, lambda: f"removed={removed!r}, but {x!r} was not there: {list(mirror)}")
            del mirror[x]
        for x in added:
            ctx.check(x not in mirror, lambda: f"added={added!r}, but {x!r} was there already: {list(mirror)}")
            mirror[x] = None
        ctx.check(not set(added) & set(removed), lambda: f"items_changed({added!r}, {removed!r}): not disjoint")

    def reactor(added, removed):
        if state["react"] and state["depth"] < 1 and not state["raise"]:
            state["depth"] += 1
            kind, x = state["react"]
            ctx.count("reactions")
            reactions.append((kind, x))
            getattr(s, kind)(*x)
        if state["raise"]:
            raise Boom

    glog = []

    def on_group(info):
        assert isinstance(info, EmissionInfo)
        ctx.count("group_events")
        ctx.eq(info.signal.name, "items_changed", "group event")
        glog.append(tuple(info.args))

    bylog = []
    if evented:
        s.events.items_changed.connect(on_items_changed)
        if case["reactor"]:
            s.events.items_changed.connect(reactor)
        if case["group"]:
            s.events.connect(on_group)
        bystander.events.items_changed.connect(lambda a, b: bylog.append((a, b)))
    flags = set()

    def exact(events, before, what, once):
        """The events describe exactly the change from `before` to the model."""
        gone = [x for x in before if x not in model]
        new = [x for x in model if x not in before]
        if not evented:
            return
        if once:
            ctx.check(len(events) == bool(gone or new), lambda: f"{what}: {len(events)} events: {events}; removed {gone}, added {new}")
        cur = dict.fromkeys(before)
        for added, removed in events:
            ctx.check(added or removed, lambda: f"{what}: empty event")
            for x in removed:
                ctx.check(x in cur, lambda: f"{what}: events {events}; removed {gone}, added {new}")
                del cur[x]
            for x in added:
                ctx.check(x not in cur, lambda: f"{what}: events {events}; removed {gone}, added {new}")
                cur[x] = None
        ctx.check(cur.keys() == model.keys(), lambda: f"{what}: events {events}; removed {gone}, added {new}")
        if once and events:
            a, b = events[0]
            ctx.check(len(a) == len(new) and len(b) == len(gone), lambda: f"{what}: event {events[0]}; removed {gone}, added {new}")
            ctx.check(all(any(x is y for y in s) for x in a) or state["react"], lambda: f"{what}: the added objects {a} are not those in {s!r}")
            if a and b:
                ctx.count("both_ways")
        flags.update(("added",) if any(a for a, _ in events) else (), ("removed",) if any(b for _, b in events) else ())
        if not events:
            ctx.count("no_effect")
            flags.add("nothing")

    flags_order = [True]

    def compare(what, exact_order=True):
        ctx.check(len(s) == len(model) and set(s) == set(model) and len(list(s)) == len(model), lambda: f"{what}: {s!r}, expected {list(model)}")
        if ordered:
            got = list(s)
            if exact_order:
                ctx.check(all(x is y or x == y for x, y in zip(got, model)), lambda: f"{what}: order {got}, expected {list(model)}")

    def resync(before, what):
        """An argument without defined order: the old items keep their order and come first."""
        nonlocal_order = list(s)
        kept = [x for x in before if x in model]
        ctx.check(all(x is y or x == y for x, y in zip(nonlocal_order, kept)), lambda: f"{what}: order {nonlocal_order}; before {before}")
        new = nonlocal_order
        model_new = dict.fromkeys(new)
        model.clear()
        model.update(model_new)

    def same(r, r2, what, val=True):
        ctx.check(r.ok == r2.ok and (r.ok or type(r.exc) is type(r2.exc)), lambda: f"{what}: {r}; set: {r2}")
        if r.ok and val:
            ctx.check(r.val is r2.val or (type(r.val) is type(r2.val) and r.val == r2.val), lambda: f"{what}: {r}; set: {r2}")
        if not r.ok and isinstance(r2.exc, KeyError):
            ctx.check(r.exc.args == r2.exc.args or r.exc.args[0] is r2.exc.args[0], lambda: f"{what}: {r.exc!r}; set: {r2.exc!r}")

    def apply(kind, args):
        """Apply a mutating method to the model, through a built-in set."""
        b = set(model)
        margs = list(args)
        r2 = attempt(getattr(b, kind), *margs)
        return b, r2

    def settle(b, ordered_args, extra):
        """Bring the model to the contents of the set b; `extra`: candidates in insertion order."""
        for x in [x for x in model if x not in b]:
            del model[x]
        for x in extra:
            try:
                if x in b and x not in model:
                    model[x] = None
            except TypeError:
                pass
        for x in b:
            if x not in model:
                model[x] = None

    def mutate(kind, make, what):
        """One mutating method call; `make()` gives (args, model args, order defined, candidates)."""
        before = list(model)
        del log[:], glog[:], reactions[:]
        state["depth"] = 0
        args, margs, od, cand = make()
        b, r2 = apply(kind, margs)
        r = attempt(getattr(s, kind), *args)
        if kind == "pop":
            pass
        changed = b != set(before)
        raised = state["raise"] and evented and changed and case["reactor"]
        if raised:
            ctx.check(not r.ok and (isinstance(r.exc, EmitLoopError) or not r2.ok), lambda: f"{what}: {r} although the listener raises")
        elif not (case["cls"] == "plain" and r.ok and isinstance(r2.exc, TypeError) and "unhashable" in str(r2.exc) and not s):
            # (dict.pop doesn't hash the key if the dict is empty)
            same(r, r2, what)
        if not r.ok:
            ctx.count("failed")
        settle(b, od, cand)
        flags_order[0] = od
        if reactions:
            # first the event of the call itself, then what the listener did
            mid = list(model)
            for k, a in reactions:
                bb, rr = apply(k, a)
                settle(bb, True, a if k == "add" else [])
            n = 2 if set(mid) != set(model) else 1
            ctx.check(len(log) == n, lambda: f"{what}: {len(log)} events instead of {n}: {log}")
            compare(what + f" and {reactions}", exact_order=False)
            if n == 2:
                tail = log[1:]
                ctx.eq((set(tail[0][0]), set(tail[0][1])), (set(model) - set(mid), set(mid) - set(model)), f"{what}: event of the listener's {reactions}")
            ctx.eq((set(log[0][0]), set(log[0][1])), (set(mid) - set(before), set(before) - set(mid)), f"{what}: event")
            if ordered:
                resync([x for x in before if x in mid and x in model], what)
        else:
            exact(log, before, what, True)
            compare(what, exact_order=od)
            if ordered and not od:
                resync(before, what)

    MULTI = ("update", "difference_update", "intersection_update", "union", "difference", "intersection")
    OPS = {"|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor}
    IOPS = {"|": operator.ior, "&": operator.iand, "-": operator.isub, "^": operator.ixor}

    def do(op):
        kind = op[0]
        what = f"{kind} {op[1:]} on {list(model)!r}"
        ctx.count("ops")
        before = list(model)
        state["raise"] = state["react"] = None
        if kind in ("add", "discard", "remove"):
            x = I(op[1])
            state["raise"] = op[2]
            mutate(kind, lambda: ((x,), (x,), True, [x]), what)
        elif kind == "clear":
            state["raise"] = op[1]
            mutate(kind, lambda: ((), (), True, []), what)
        elif kind == "pop":
            del log[:], glog[:]
            r = attempt(s.pop)
            if not before:
                ctx.check(not r.ok and isinstance(r.exc, KeyError), lambda: f"{what}: {r}")
                ctx.count("failed")
            else:
                ctx.check(r.ok and r.val in model, lambda: f"{what}: {r}")
                del model[r.val]
            flags_order[0] = True
            exact(log, before, what, True)
            compare(what)
        elif kind in ("update", "difference_update", "intersection_update", "symmetric_difference_update"):
            state["raise"], state["react"] = op[2], op[3]
            if state["react"]:
                state["react"] = (op[3][0], tuple(ITEMS[i % SMALL] for i in op[3][1]))

            def make():
                srcs = [source(*a) for a in op[1]]
                cand = []
                for _, m, _ in [source(k, v) for k, v in op[1]]:
                    try:
                        for x in m:
                            cand.append(x)
                    except (TypeError, Boom):
                        pass
                return [a for a, _, _ in srcs], [m for _, m, _ in srcs], all(o for _, _, o in srcs), cand

            mutate(kind, make, what)
        elif kind in ("union", "difference", "intersection", "symmetric_difference", "copy", "copy.copy"):
            del log[:]
            ctx.count("results")
            srcs = [source(*a) for a in op[1]] if len(op) > 1 else []
            args, margs = [a for a, _, _ in srcs], [m for _, m, _ in srcs]
            if kind == "copy.copy":
                r, r2 = attempt(copy.copy, s), attempt(set, model)
            else:
                r, r2 = attempt(getattr(s, kind), *args), attempt(getattr(set(model), kind), *margs)
            same(r, r2, what, val=False)
            if r.ok:
                v = r.val
                ctx.check(type(v) is cls and set(v) == r2.val and len(list(v)) == len(r2.val) and v is not s, lambda: f"{what}: {v!r}; set: {r2.val!r}")
                if ordered and kind in ("difference", "intersection", "copy", "copy.copy"):
                    ctx.eq(list(v), [x for x in model if x in r2.val], f"{what}: order")
                if ordered and kind == "union":
                    ctx.eq(list(v)[: len(model)], list(model), f"{what}: order")
                n = len(s)
                if evented:
                    ctx.check(v.events is not s.events, f"{what}: the result shares the events")
                v.add(("new",))
                v.discard(("new",))
                v.clear()
                ctx.eq(len(s), n, f"{what}: the result shares its items")
            ctx.check(not log, lambda: f"{what} emits {log}")
        elif kind in ("iop", "op", "rop", "cmp"):
            sign = op[1]
            a, m, od = source(*op[2])
            m = set(m) if not isinstance(m, (set, frozenset)) else m
            del log[:]
            if kind == "iop":
                ctx.count("inplace")
                b = set(model)
                if op[2][0] == "self":
                    m = b
                cand = list(a)
                b = IOPS[sign](b, m)
                r = attempt(IOPS[sign], s, a)
                ctx.check(r.ok and r.val is s, lambda: f"{what}: {r}")
                settle(b, od, cand)
                flags_order[0] = od
                exact(log, before, what, False)
                compare(what, exact_order=od)
                if ordered and not od:
                    resync(before, what)
            elif kind == "cmp":
                f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}[sign]
                r, r2 = attempt(f, s, a), attempt(f, set(model), m)
                same(r, r2, what)
                same(attempt(f, a, s), attempt(f, m, set(model)), what + " swapped")
                same(attempt(s.isdisjoint, a), attempt(set(model).isdisjoint, m), what + " isdisjoint")
            else:
                ctx.count("results")
                f = OPS[sign]
                x, y = (s, a) if kind == "op" else (a, s)
                mx, my = (set(model), m) if kind == "op" else (m, set(model))
                r, r2 = attempt(f, x, y), attempt(f, mx, my)
                ctx.check(r.ok and set(r.val) == r2.val and len(list(r.val)) == len(r2.val) and r.val is not s, lambda: f"{what}: {r}; set: {r2}")
                if evented and isinstance(r.val, EventedSet):
                    ctx.check(r.val.events is not s.events, f"{what}: the result shares the events")
                ctx.check(not log, lambda: f"{what} emits {log}")
        elif kind == "read":
            x = I(op[1])
            same(attempt(operator.contains, s, x), attempt(operator.contains, set(model), x), what + " in")
            ctx.eq((len(s), bool(s)), (len(model), bool(model)), what)
            for q in ("issubset", "issuperset", "isdisjoint"):
                (a, m, _), m = source(*op[2]), source(*op[2])[1]
                same(attempt(getattr(s, q), a), attempt(getattr(set(model), q), m), f"{what} {q}")
            if ordered:
                ctx.eq(repr(s), f"{cls.__name__}(({', '.join(map(str, model))}))", "repr") if case["cls"] == "plain" else None
            ctx.check(cls.__name__ in repr(s), "repr")
        else:
            raise AssertionError(kind)
        if kind in ("op", "rop", "cmp", "read"):
            compare(what)
        if evented:
            ctx.check(mirror.keys() == model.keys(), lambda: f"{what}: a set made by the events is {list(mirror)}, the set {list(model)}")
            if case["group"]:
                ctx.check(glog_ok(), lambda: f"{what}: group events {glog}, items_changed {log}")
            del glog[:]
        ctx.check(not bylog, "another set emitted")

    def glog_ok():
        return [tuple(map(ident, e)) for e in glog] == [tuple(map(ident, e)) for e in log] if not (state["raise"] or state["react"]) else True

    def ident(t):
        return tuple(map(id, t))

    for op in case["ops"]:
        del log[:], glog[:]
        do(op)
    if {"added", "removed", "nothing"} <= flags:
        ctx.nontrivial()
    if case["cls"] == "plain" and len(case["ops"]) > 5:
        ctx.nontrivial()


KINDS = ["list", "tuple", "iter", "dict", "keys", "set", "frozenset", "evented", "evordered", "str", "range", "self"]
SETLIKE = ["keys", "set", "frozenset", "evented", "evordered", "self"]


def gen_set(rng, i, tier):
    def item():
        return rng.randrange(len(ITEMS)) if rng.random() < 0.15 else rng.randrange(HASHABLE) if rng.random() < 0.3 else rng.randrange(SMALL)

    def src(extra=(), kinds=KINDS):
        if many and "list" in kinds and rng.random() < 0.3:
            a = rng.randint(0, many)
            return ["big", [a, a + rng.randint(0, 2 * many)]]
        k = rng.choice(kinds) if not extra or rng.random() < 0.93 else rng.choice(extra)
        n = rng.choice([0, 1, 2, 3, 5, 8])
        idx = [item() for _ in range(n)]
        if rng.random() < 0.8:
            idx = [x for x in idx if x < HASHABLE]
        return [k, idx]

    def srcs(extra=()):
        n = rng.choice([0, 1, 1, 1, 1, 2, 3])
        return [src() for _ in range(n - 1)] + [src(extra)] if n else []

    many = rng.randint(50, 300) if rng.random() < 0.03 else 0
    ops = []
    for _ in range(rng.randint(4, 40)):
        x = rng.random()
        rz = rng.random() < 0.08
        react = None
        if rng.random() < 0.12:
            react = [rng.choice(["add", "discard"]), [rng.randrange(SMALL)]]
            if rng.random() < 0.2:
                react = ["clear", []]
        if x < 0.10:
            ops.append(["add", item(), rz])
        elif x < 0.17:
            ops.append(["discard", item(), rz])
        elif x < 0.24:
            ops.append(["remove", item(), rz])
        elif x < 0.28:
            ops.append(["pop"])
        elif x < 0.31:
            ops.append(["clear", rz])
        elif x < 0.42:
            ops.append(["update", srcs(("notiter", "raise")), rz, react])
        elif x < 0.49:
            a = srcs()
            ops.append(["difference_update", a, rz, react])
        elif x < 0.55:
            ops.append(["intersection_update", srcs(("raise", "notiter")), rz, react])
        elif x < 0.62:
            ops.append(["symmetric_difference_update", [src(("raise", "notiter"))], rz, react])
        elif x < 0.72:
            k = rng.choice(["union", "difference", "intersection", "symmetric_difference", "copy", "copy.copy"])
            ops.append([k] if k.startswith("copy") else [k, srcs(("raise", "notiter")) if k != "symmetric_difference" else [src(("raise",))]])
        elif x < 0.84:
            ops.append(["iop", rng.choice("|&-^"), src(kinds=SETLIKE)])
        elif x < 0.89:
            ops.append([rng.choice(["op", "rop"]), rng.choice("|&-^"), src(kinds=SETLIKE)])
        elif x < 0.94:
            ops.append(["cmp", rng.choice(["<", "<=", ">", ">=", "==", "!="]), src(kinds=SETLIKE)])
        else:
            ops.append(["read", item(), src()])
    init = [item() for _ in range(rng.randint(0, 6))]
    return {"cls": rng.choice(["set", "set", "ordered", "ordered", "plain", "subset", "subordered"]), "group": rng.random() < 0.5, "reactor": rng.random() < 0.5, "init": init, "many": many, "ops": ops}


WORKLOADS = [Workload("set", gen_set, run_set, quick=8000, thorough=80000)]
