"""C19: child_event reports each event of each current item, with its index."""
import dataclasses
import gc
import warnings
import weakref

from psygnal import EmissionInfo, EventedModel, Signal, SignalGroup, SignalInstance, evented
from psygnal.containers import EventedList, SelectableEventedList
from vh.core import Workload, attempt

PROP = "C19"
TECHNIQUE = "runtime monitoring: exactly-once check of child_event against every emission made by current and former items"
RULE = (
    "lists with child events of objects that have signals, groups or both, evented dataclasses, models, and plain values (equal but not identical items, a class attribute object shared); "
    "random histories of all list operations, interleaved with emissions of current, former and never-inserted objects; the child_event log is compared with the emissions; "
    "lists without child events must not report any; non-trivial: events from a former item and from a moved item were observed, distinct by case"
)
REQUIRE = {"emissions": 20000, "from_items": 8000, "from_former": 3000, "from_never": 500, "moved": 2000, "group_members": 1000, "dataclass": 1000, "model": 500, "equal_items": 500, "died": 100, "replaced": 1000, "not_enabled": 1000}


class Plain:
    """Equal to all of its kind with the same value."""

    sig = Signal(int)
    two = Signal(int, str)
    none = Signal()
    _private = Signal(int)

    def __init__(self, v=0):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Plain) and o.v == self.v

    def __hash__(self):
        return hash(self.v)


class Grp(SignalGroup):
    a = Signal(int)
    b = Signal(str)


class WithGroup:
    own = Signal(int)

    def __init__(self):
        self.events = Grp(self)


class Dyn:
    """Its signals are those of the instance."""

    def __init__(self, n):
        for k in range(n):
            setattr(self, f"s{k}", SignalInstance((int,), name=f"s{k}", instance=self))
        if n == 2:
            self.grp = Grp(self)


@evented
@dataclasses.dataclass(eq=False)
class Data:
    x: int = 0
    y: str = ""


class Model(EventedModel):
    x: int = 0
    y: str = ""


def new_item(kind):
    if kind == "plain":
        return Plain(0)
    if kind == "plain1":
        return Plain(1)
    if kind == "group":
        return WithGroup()
    if kind == "data":
        return Data()
    if kind == "model":
        return Model()
    if kind.startswith("dyn"):
        return Dyn(int(kind[3:]))
    if kind == "int":
        return 5
    return object()


COUNTER = [0]


def fire(item, which):
    """Make the item emit. Returns [(emitter, args)] of the public signals."""
    COUNTER[0] += 1
    n = COUNTER[0]
    if isinstance(item, Plain):
        k = which % 4
        if k == 0:
            item.sig.emit(n)
            return [(item.sig, (n,))]
        if k == 1:
            item.two.emit(n, "x")
            return [(item.two, (n, "x"))]
        if k == 2:
            item.none.emit()
            return [(item.none, ())]
        item._private.emit(n)
        return []
    if isinstance(item, WithGroup):
        k = which % 3
        if k == 0:
            item.own.emit(n)
            return [(item.own, (n,))]
        if k == 1:
            item.events.a.emit(n)
            return [(item.events.a, (n,))]
        item.events.b.emit(str(n))
        return [(item.events.b, (str(n),))]
    if isinstance(item, Dyn):
        sigs = [v for k, v in sorted(vars(item).items()) if k != "grp"]
        if hasattr(item, "grp"):
            sigs.append(item.grp.a)
        if not sigs:
            return []
        s = sigs[which % len(sigs)]
        s.emit(n)
        return [(s, (n,))]
    if isinstance(item, Data):
        old = item.x
        item.x = n
        return [(item.events.x, (n, old))]
    if isinstance(item, Model):
        if which % 2:
            item.y = str(n)
            return [(item.events.y, (str(n),))]
        item.x = n
        return [(item.events.x, (n,))]
    return []


def run_children(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(case, ctx)


def _run(case, ctx):
    cls = {"list": EventedList, "selectable": SelectableEventedList}[case["cls"]]
    objs = {}  # id -> object
    free = []  # objects that are not items at the moment (never or no longer)
    former = set()
    moved = set()
    n_objs = [0]
    pool = []
    saw_former = saw_moved = False

    def fresh(kind):
        o = new_item(kind)
        if kind in ("int", "object"):
            return o
        pool.append(o)
        return o

    init = [fresh(k) for k in case["init"]]
    el = cls(init, child_events=True) if case["on"] else cls(init)
    init = None
    other = EventedList([], child_events=True)  # another list that may share items
    log, log2 = [], []

    def on_child(*a):
        log.append(a)

    def on_group(info):
        assert isinstance(info, EmissionInfo)
        if info.signal.name == "child_event":
            log2.append(info.args)

    def on_other(*a):
        ctx.check(any(x is a[1] for x in other), "child_event of a list that doesn't have the item")

    el.events.child_event.connect(on_child)
    if case["group"]:
        el.events.connect(on_group)
    other.events.child_event.connect(on_other)

    def items():
        return [x for x in el]

    def absent():
        return [o for o in pool if not any(o is x for x in el)]

    def pick(i, kinds):
        """An object that is not an item: a former item or a new one."""
        a = absent()
        if a and i % 3:
            return a[i % len(a)]
        return fresh(kinds[i % len(kinds)])

    def emit_all(what):
        nonlocal saw_former, saw_moved
        for o in list(pool):
            i = next((j for j, x in enumerate(el) if x is o), None)
            log.clear()
            log2.clear()
            made = fire(o, COUNTER[0] + len(pool))
            ctx.count("emissions")
            want = []
            if not case["on"]:
                # (child_events=False is the default)
                ctx.count("not_enabled", len(made))
            elif i is not None:
                want = [(i, o, s, a) for s, a in made]
                ctx.count("from_items", len(want))
                ctx.count("equal_items", isinstance(o, Plain) and sum(x == o for x in el if isinstance(x, Plain)) > 1)
                ctx.count("group_members", isinstance(o, WithGroup) and bool(made) and made[0][0].name != "own")
                ctx.count("dataclass", isinstance(o, Data))
                ctx.count("model", isinstance(o, Model))
                if id(o) in moved:
                    saw_moved = True
            elif id(o) in former:
                ctx.count("from_former")
                saw_former = True
            else:
                ctx.count("from_never")
            for L in (log, log2) if case["group"] else (log,):
                ok = len(L) == len(want) and all(g[0] == w[0] and g[1] is w[1] and g[2] is w[2] and g[3] == w[3] for g, w in zip(L, want))
                ctx.check(ok, lambda: f"after {what}: {type(o).__name__} {'at ' + str(i) if i is not None else 'not in the list'} emitted {made}; child_event: {L}, expected {want}")

    def do(op):
        kind = op[0]
        n = len(el)
        before = items()
        kinds = case["kinds"]
        if kind == "insert":
            el.insert(op[1], pick(op[2], kinds))
        elif kind == "append":
            el.append(pick(op[1], kinds))
        elif kind in ("extend", "iadd"):
            new = []
            for i in op[1]:
                o = pick(i, kinds)
                if not any(o is x for x in new):
                    new.append(o)
            if kind == "extend":
                el.extend(new)
            else:
                el2 = el
                el2 += new
        elif kind == "set":
            if n:
                if op[3]:
                    el[op[1] % n] = el[op[1] % n]  # the same object
                else:
                    ctx.count("replaced")
                    el[op[1] % n] = pick(op[2], kinds)
        elif kind == "swap":
            if n > 1:
                i, j = op[1] % n, op[2] % n
                a, b = min(i, j), max(i, j)
                part = list(el[a : b + 1])
                part.reverse()
                el[a : b + 1] = part
        elif kind == "setslice":
            s = slice(*op[1])
            m = len(before[s])
            new = []
            for i in op[2]:
                o = pick(i, kinds)
                if not any(o is x for x in new):
                    new.append(o)
            # some of the items that are replaced stay
            if op[3]:
                new = before[s][: op[3]] + new
            if s.step not in (None, 1):
                new = new[:m]
                while len(new) < m:
                    new.append(object())
            ctx.count("replaced")
            el[s] = new
        elif kind == "badslice":
            r = attempt(el.__setitem__, slice(None, None, 2), [object()] * (n + 2))
            ctx.check(not r.ok, "extended slice of another size accepted")
        elif kind == "badindex":
            r = attempt(el.__setitem__, n + 2, pick(op[1], kinds))
            ctx.check(not r.ok and isinstance(r.exc, IndexError), "index out of range accepted")
        elif kind == "del":
            if n:
                del el[op[1] % n - (n if op[1] % 2 else 0)]
        elif kind == "delslice":
            del el[slice(*op[1])]
        elif kind == "pop":
            if n:
                el.pop(op[1] % n)
        elif kind == "remove":
            if n:
                el.remove(el[op[1] % n])
        elif kind == "clear":
            el.clear()
        elif kind == "move":
            if n:
                el.move(op[1] % n, op[2] % (n + 1))
                moved.update(id(x) for x in el)
        elif kind == "move_multiple":
            if n:
                el.move_multiple([i % n for i in op[1]], op[2] % (n + 1))
                moved.update(id(x) for x in el)
        elif kind == "reverse":
            # (item by item: an item is in the list twice in between)
            el.reverse(emit_individual_events=op[1])
            moved.update(id(x) for x in el)
        elif kind == "share":
            o = pool[op[1] % len(pool)] if pool else None
            if o is not None and not any(o is x for x in other):
                other.append(o)
        elif kind == "unshare":
            if len(other):
                other.pop(op[1] % len(other))
        elif kind == "die":
            # objects that are not items can be collected
            a = [o for o in absent() if not any(o is x for x in other)]
            if a:
                o = a[op[1] % len(a)]
                if case["cls"] == "list" and isinstance(o, (Plain, WithGroup, Data, Model)):
                    wr = weakref.ref(o)
                    for i, x in enumerate(pool):
                        if x is o:
                            del pool[i]
                            break
                    del o, a, x
                    before = []
                    log.clear()
                    log2.clear()
                    if sum(type(e) is not int for e in el) < 30:
                        gc.collect()
                        ctx.check(wr() is None, "an object that is no longer an item is kept alive")
                        ctx.count("died")
        now = items()
        for x in before:
            if not any(x is y for y in now):
                former.add(id(x))
        for x in now:
            former.discard(id(x))
        ctx.count("moved", kind in ("move", "move_multiple", "reverse", "swap"))
        ctx.check(all(log_entry is not None for log_entry in log), "")

    for op in case["ops"]:
        log.clear()
        do(op)
        ctx.check(not log, lambda: f"{op[0]}: child_event without an event of an item: {log}")
        if len(pool) > 14:
            drop = absent()[:4]
            pool[:] = [o for o in pool if not any(o is d for d in drop)]
            drop.clear()
        emit_all(f"{op[0]} {op[1:]}")
    del objs, free, n_objs
    if saw_former and saw_moved:
        ctx.nontrivial()


def gen_children(rng, i, tier):
    def slc():
        p = [None, None, 0, 1, 2, 3, -1, -2, 6]
        return [rng.choice(p), rng.choice(p), rng.choice([None, None, None, 2, -1, -2])]

    def r():
        return rng.randrange(60)

    kinds = [rng.choice(["plain", "plain", "plain1", "group", "group", "data", "model", "int", "object", "dyn0", "dyn1", "dyn2", "dyn3"]) for _ in range(rng.randint(1, 5))]
    ops = []
    for _ in range(rng.randint(4, 25)):
        x = rng.random()
        if x < 0.09:
            ops.append(["insert", rng.randint(-4, 5), r()])
        elif x < 0.17:
            ops.append(["append", r()])
        elif x < 0.22:
            ops.append([rng.choice(["extend", "iadd"]), [r() for _ in range(rng.randint(0, 4))]])
        elif x < 0.34:
            ops.append(["set", r(), r(), rng.random() < 0.15])
        elif x < 0.39:
            ops.append(["swap", r(), r()])
        elif x < 0.49:
            ops.append(["setslice", slc(), [r() for _ in range(rng.randint(0, 3))], rng.choice([0, 0, 1, 2])])
        elif x < 0.51:
            ops.append([rng.choice(["badslice", "badindex"]), r()])
        elif x < 0.57:
            ops.append(["del", r()])
        elif x < 0.61:
            ops.append(["delslice", slc()])
        elif x < 0.65:
            ops.append(["pop", r()])
        elif x < 0.68:
            ops.append(["remove", r()])
        elif x < 0.70:
            ops.append(["clear"])
        elif x < 0.78:
            ops.append(["move", r(), r()])
        elif x < 0.84:
            ops.append(["move_multiple", [r() for _ in range(rng.randint(0, 4))], r()])
        elif x < 0.89:
            ops.append(["reverse", rng.random() < 0.5])
        elif x < 0.93:
            ops.append(["share", r()])
        elif x < 0.96:
            ops.append(["unshare", r()])
        else:
            ops.append(["die", r()])
    return {"cls": rng.choice(["list", "list", "list", "selectable"]) if "model" not in kinds else "list", "on": rng.random() < 0.9, "group": rng.random() < 0.3, "kinds": kinds, "init": [rng.choice(kinds) for _ in range(rng.randint(0, 5))], "ops": ops}


WORKLOADS = [Workload("children", gen_children, run_children, quick=4000, thorough=60000)]
