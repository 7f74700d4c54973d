"""C18: EventedList behaves like list; its events mirror every change."""
import warnings
from fractions import Fraction

import numpy as np

from psygnal import EmissionInfo
from psygnal.containers import EventedList
from vh.core import Workload, attempt

PROP = "C18"
TECHNIQUE = "runtime monitoring: lock-step comparison with a built-in list, and an online monitor that rebuilds the list from the events alone"
RULE = (
    "random histories of all list operations (int / slice / extended slice / negative / out-of-range / numpy / __index__ indices; values equal but not identical, NaN, duplicates, nested lists, "
    "the list itself, iterators), move and move_multiple, on plain, validating and converting subclasses; outcome, items (identity) and a mirror fed by the events are compared after each, "
    "as well as the exact events; non-trivial: at least 3 kinds of change and one failing operation, distinct by case"
)
REQUIRE = {"ops": 20000, "inserted": 5000, "removed": 3000, "changed": 2000, "slices": 1000, "moved": 2000, "reordered": 1000, "failed": 1000, "move_multiple": 1000, "group_events": 5000, "converted": 200, "rejected": 100}


class Idx:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


class Box:
    """Compares by value."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Box) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"Box({self.v})@{id(self) % 9973}"


HAS_HOOK = hasattr(EventedList, "_pre_insert")  # (for subclasses, by its docstring)
if not HAS_HOOK:  # pragma: no cover
    del REQUIRE["converted"], REQUIRE["rejected"]


class Typed(EventedList):
    """Rejects strings, converts fractions to floats."""

    def _pre_insert(self, value):
        if isinstance(value, str):
            raise TypeError("no strings")
        if isinstance(value, Fraction):
            return float(value)
        return value


def make_values():
    """The items of one case: the same objects go to both lists."""
    nan = float("nan")
    return [0, 1, 2, 3, True, 1.0, "a", "b", nan, float("nan"), None, (1, 2), [1], [1], Box(1), Box(1), Box(2), Fraction(1, 2), Fraction(3, 1), 4, 5, 6, 7]


class Mirror:
    """Applies the events. Also records them."""

    def __init__(self, el, ctx, use_group):
        self.items = list(el)
        self.log = []
        self.reordered = 0
        ev = el.events
        self.ctx = ctx
        if use_group:

            def on_event(info):
                assert isinstance(info, EmissionInfo)
                ctx.count("group_events")
                f = getattr(self, f"on_{info.signal.name}", None)
                if f:
                    f(*info.args)

            ev.connect(on_event)
            self._keep = on_event
        else:
            for n in ("inserted", "removed", "moved", "changed", "reordered"):
                ev[n].connect(getattr(self, f"on_{n}"))

    def on_inserted(self, i, v):
        self.ctx.count("inserted")
        self.log.append(("inserted", i, v))
        self.items.insert(i, v)

    def on_removed(self, i, v):
        self.ctx.count("removed")
        self.log.append(("removed", i, v))
        self.ctx.check(0 <= i < len(self.items), lambda: f"removed({i}, {v!r}): there are {len(self.items)} items")
        got = self.items.pop(i)
        self.ctx.check(got is v, lambda: f"removed({i}, {v!r}): the item there was {got!r}")

    def on_moved(self, i, j, v):
        self.ctx.count("moved")
        self.log.append(("moved", i, j, v))
        got = self.items.pop(i)
        self.ctx.check(got is v, lambda: f"moved({i}, {j}, {v!r}): the item there was {got!r}")
        self.items.insert(j, v)

    def on_changed(self, i, old, new):
        self.ctx.count("changed")
        self.log.append(("changed", i, old, new))
        if isinstance(i, slice):
            self.ctx.count("slices")
            self.ctx.check(ident(self.items[i], old), lambda: f"changed({i}, {old!r}, {new!r}): the items there were {self.items[i]!r}")
            self.items[i] = list(new)
        else:
            self.ctx.check(self.items[i] is old, lambda: f"changed({i}, {old!r}, {new!r}): the item there was {self.items[i]!r}")
            self.items[i] = new

    def on_reordered(self):
        self.ctx.count("reordered")
        self.reordered += 1


def ident(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def index(tok):
    """A token to an index."""
    if isinstance(tok, list):
        kind = tok[0]
        if kind == "slice":
            return slice(*tok[1:])
        if kind == "np":
            return np.int64(tok[1])
        if kind == "idx":
            return Idx(tok[1])
        if kind == "bad":
            return tok[1]
    return tok


def iterable(kind, items, el):
    """Arguments of extend & co.: (for the evented list, for the list)"""
    if kind == "list":
        return list(items), list(items)
    if kind == "tuple":
        return tuple(items), tuple(items)
    if kind == "iter":
        return iter(items), iter(items)
    if kind == "gen":
        return (x for x in items), (x for x in items)
    if kind == "evented":
        return EventedList(items), list(items)
    if kind == "self":
        return "self", "self"
    if kind == "notiter":
        return 5, 5
    raise AssertionError(kind)


def same_result(ctx, r, r2, what):
    ctx.check(r.ok == r2.ok, lambda: f"{what}: {r}; list: {r2}")
    if not r.ok:
        ctx.check(type(r.exc) is type(r2.exc), lambda: f"{what}: {r}; list: {r2}")


def run_list(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(case, ctx)


def _run(case, ctx):
    vals = make_values()
    cls = {"plain": EventedList, "typed": Typed}[case["cls"]]
    typed = case["cls"] == "typed" and HAS_HOOK
    conv = {}

    def val(i):
        return vals[i % len(vals)]

    def conv_all(items):
        """What a Typed list stores (floats are new objects: compare by value)."""
        return items

    init = [val(i) for i in case["init"]]
    if typed:
        init = [x for x in init if not isinstance(x, (str, Fraction))]
    el, l = cls(init), list(init)
    mirror = Mirror(el, ctx, case["group"])
    mirror2 = Mirror(el, ctx, False)
    kinds, n_failed = set(), 0
    bystander = EventedList(init)
    by = Mirror(bystander, ctx, False)

    def rejects(items):
        return typed and any(isinstance(x, str) for x in items)

    def converts(items):
        return typed and any(isinstance(x, Fraction) for x in items)

    def sync_converted():
        """Use the converted objects in the list as well."""
        ctx.count("converted")
        ctx.eq(len(el), len(l), "length")
        for i, (a, b) in enumerate(zip(el, l)):
            if isinstance(b, Fraction):
                ctx.check(type(a) is float and a == float(b), lambda: f"stored {a!r} for {b!r}")
                l[i] = a

    def do(op):
        nonlocal n_failed, l
        kind = op[0]
        what = f"{kind} {op[1:]} on {l!r}"
        before = list(l)
        log0 = None
        mirror.log.clear()
        mirror2.log.clear()
        mirror.reordered = mirror2.reordered = 0
        ctx.count("ops")
        want = None  # exact events
        want_reordered = 0
        if kind == "insert":
            i, v = index(op[1]), val(op[2])
            if rejects([v]):
                r = attempt(el.insert, i, v)
                ctx.check(not r.ok, lambda: f"{what}: not rejected")
                ctx.count("rejected")
            else:
                r, r2 = attempt(el.insert, i, v), attempt(l.insert, i, v)
                same_result(ctx, r, r2, what)
                ctx.check(not r.ok or r.val is None, "insert returned a value")
        elif kind == "append":
            v = val(op[1])
            r = attempt(el.append, v)
            if rejects([v]):
                ctx.check(not r.ok, lambda: f"{what}: not rejected")
                ctx.count("rejected")
            else:
                same_result(ctx, r, attempt(l.append, v), what)
        elif kind in ("extend", "iadd"):
            items = [val(i) for i in op[2]]
            if typed:
                items = [x for x in items if not isinstance(x, str)]
            a, b = iterable(op[1], items, el)
            a, b = (el, l) if a == "self" else (a, b)
            if kind == "extend":
                r, r2 = attempt(el.extend, a), attempt(l.extend, b)
            else:

                def iadd(x, y):
                    z = x
                    z += y
                    return z is x

                r, r2 = attempt(iadd, el, a), attempt(iadd, l, b)
                ctx.check(not r.ok or r.val, "+= returned another object")
            same_result(ctx, r, r2, what)
        elif kind == "set":
            i, v = index(op[1]), val(op[2])
            if isinstance(i, slice):
                return
            if rejects([v]):
                r2 = attempt(l.__getitem__, i)
                r = attempt(el.__setitem__, i, v)
                if not (r2.ok and r2.val is v):
                    ctx.check(not r.ok, lambda: f"{what}: not rejected")
                    ctx.count("rejected")
            else:
                r, r2 = attempt(el.__setitem__, i, v), attempt(l.__setitem__, i, v)
                same_result(ctx, r, r2, what)
        elif kind == "setslice":
            i = index(op[1])
            if not isinstance(i, slice):
                return
            items = [val(j) for j in op[3]]
            if op[4]:
                # as many as the slice has
                n = len(l[i]) if i.step != 0 else 1
                items = (items * (n + 1))[:n] if items else []
            a, b = iterable(op[2], items, el)
            a, b = (el, l) if a == "self" else (a, b)
            if op[2] != "notiter" and rejects(items if op[2] != "self" else []):
                r = attempt(el.__setitem__, i, a)
                ctx.check(not r.ok, lambda: f"{what}: not rejected")
                ctx.count("rejected")
            else:
                r, r2 = attempt(el.__setitem__, i, a), attempt(l.__setitem__, i, b)
                same_result(ctx, r, r2, what)
        elif kind == "del":
            i = index(op[1])
            r, r2 = attempt(el.__delitem__, i), attempt(l.__delitem__, i)
            same_result(ctx, r, r2, what)
        elif kind == "pop":
            a = [] if op[1] is None else [index(op[1])]
            if a and isinstance(a[0], slice):
                return
            r, r2 = attempt(el.pop, *a), attempt(l.pop, *a)
            same_result(ctx, r, r2, what)
            ctx.check(not r.ok or r.val is r2.val, lambda: f"{what}: {r}; list: {r2}")
        elif kind == "remove":
            v = val(op[1])
            r, r2 = attempt(el.remove, v), attempt(l.remove, v)
            same_result(ctx, r, r2, what)
        elif kind == "clear":
            r, r2 = attempt(el.clear), attempt(l.clear)
            same_result(ctx, r, r2, what)
        elif kind == "reverse":
            r, r2 = attempt(el.reverse, **({"emit_individual_events": True} if op[1] else {})), attempt(l.reverse)
            same_result(ctx, r, r2, what)
            want_reordered = 1
            if not op[1]:
                want = []
                for m in (mirror, mirror2):
                    m.items.reverse()
        elif kind == "move":
            n = len(l)
            src, dest = op[1], op[2]
            r = attempt(el.move, src, dest) if dest else attempt(el.move, src)  # (0 is the default)
            if not -n <= src < n:
                ctx.check(not r.ok and isinstance(r.exc, IndexError), lambda: f"{what}: {r}; index out of range")
            else:
                s, d = src % n, dest if dest >= 0 else dest + n + 1
                if not 0 <= d <= n:
                    d = max(0, min(n, d))
                    return restore(before)  # (a destination out of range: not judged)
                item = l[s]
                moved = d not in (s, s + 1)
                ctx.check(r.ok and r.val is moved, lambda: f"{what}: {r}")
                if moved:
                    new = d - (d > s)
                    l.pop(s)
                    l.insert(new, item)
                    want = [("moved", s, new, item)]
                    want_reordered = 1
                else:
                    want = []
        elif kind == "move_multiple":
            n = len(l)
            srcs = [index(t) for t in op[1]]
            srcs = [s for s in srcs if not isinstance(s, slice) or s.step != 0]
            dest = op[2]
            r = attempt(el.move_multiple, srcs, dest) if dest else attempt(el.move_multiple, srcs)
            ctx.count("move_multiple")
            if any(isinstance(s, int) and not -n <= s < n for s in srcs):
                ctx.check(not r.ok and isinstance(r.exc, IndexError), lambda: f"{what}: {r}; index out of range")
            else:
                d = dest if dest >= 0 else dest + n + 1
                flat = []
                for s in srcs:
                    flat += list(range(*s.indices(n))) if isinstance(s, slice) else [s % n]
                flat = list(dict.fromkeys(flat))
                if not 0 <= d <= n:
                    return restore(before)
                ctx.check(r.ok, lambda: f"{what}: {r}")
                picked = [l[s] for s in flat]
                l = [x for i, x in enumerate(l[:d]) if i not in flat] + picked + [x for i, x in enumerate(l[d:], d) if i not in flat]
                want_reordered = 1
                ctx.check(all(e[0] == "moved" for e in mirror2.log), lambda: f"{what}: events {mirror2.log}")
                # each source moves at most once, nothing else moves
                for e in mirror2.log:
                    ctx.check(any(e[3] is p for p in picked), lambda: f"{what}: moved {e}")
                ctx.check(len(mirror2.log) <= len(flat), lambda: f"{what}: {len(mirror2.log)} moves of {len(flat)} items")
        elif kind == "read":
            read(op, what)
            want = []
            r = None
        else:
            raise AssertionError(kind)
        if r is not None and not r.ok:
            n_failed += 1
            ctx.count("failed")
            want = []
            want_reordered = 0
            ctx.check(ident(l, before), "the list twin changed")
        else:
            kinds.add(kind)
        if converts(l):
            sync_converted()
        # ---- items and events
        ctx.check(ident(el, l), lambda: f"{what}: items {list(el)!r}, list: {l!r}")
        for m in (mirror, mirror2):
            ctx.check(ident(m.items, l), lambda: f"{what}: a copy made by the events {m.log} has {m.items!r}, the list {l!r}")
            ctx.eq(m.reordered, want_reordered, lambda: f"{what}: reordered events")
            if want is not None:
                ctx.check(len(m.log) == len(want) and all(len(a) == len(b) and all(x is y or (type(x) is int and x == y) for x, y in zip(a, b)) for a, b in zip(m.log, want)), lambda: f"{what}: events {m.log}, expected {want}")
        check_exact(kind, op, before, mirror2.log, what, r)
        ctx.check(ident(bystander, by.items) and not by.log and not by.reordered, "another list changed")
        del log0

    def restore(items):
        nonlocal el, l, mirror, mirror2
        l = list(items)
        el = cls([x for x in items if True])
        mirror, mirror2 = Mirror(el, ctx, case["group"]), Mirror(el, ctx, False)

    def check_exact(kind, op, before, log, what, r):
        """Each inserted / removed / replaced item is reported once."""
        if r is None or not r.ok:
            return
        names = {e[0] for e in log}
        if kind in ("insert", "append", "extend", "iadd"):
            ctx.check(names <= {"inserted"} and len(log) == len(l) - len(before), lambda: f"{what}: events {log}")
        elif kind in ("del", "pop", "remove", "clear"):
            ctx.check(names <= {"removed"} and len(log) == len(before) - len(l), lambda: f"{what}: events {log}")
        elif kind == "set":
            changed = not ident(before, l)
            ctx.check(names <= {"changed"} and len(log) == (1 if changed else 0), lambda: f"{what}: events {log}")
        elif kind == "setslice":
            ctx.check(names <= {"changed"} and len(log) <= 1 and (log or ident(before, l)), lambda: f"{what}: events {log}")
        elif kind == "reverse" and op[1]:
            ctx.check(names <= {"changed"}, lambda: f"{what}: events {log}")

    def read(op, what):
        k = op[1]
        if k == "get":
            i = index(op[2])
            r, r2 = attempt(el.__getitem__, i), attempt(l.__getitem__, i)
            same_result(ctx, r, r2, what)
            if r.ok:
                if isinstance(i, slice):
                    ctx.check(type(r.val) is cls and ident(r.val, r2.val) and r.val is not el, lambda: f"{what}: {r}; list: {r2}")
                else:
                    ctx.check(r.val is r2.val, lambda: f"{what}: {r}; list: {r2}")
        elif k == "index":
            a = [val(op[2]), *op[3]]
            r, r2 = attempt(el.index, *a), attempt(l.index, *a)
            same_result(ctx, r, r2, what)
            ctx.check(r.val == r2.val, lambda: f"{what}: {r}; list: {r2}")
        elif k == "misc":
            v = val(op[2])
            ctx.eq(el.count(v), l.count(v), lambda: f"{what}: count({v!r})")
            ctx.eq(v in el, v in l, lambda: f"{what}: {v!r} in")
            ctx.eq(len(el), len(l), "len")
            ctx.eq(bool(el), bool(l), "bool")
            ctx.check(ident(reversed(el), reversed(l)), "reversed()")
            ctx.eq(repr(el), f"{cls.__name__}({l!r})", "repr")
            ctx.check((el == l) == (l == l) and (el != l) == (l != l) and (l == el), "comparison with a list of the same items")
            o = l[:-1] if op[2] % 2 else [*l, 0]
            ctx.check((el == o) == (l == o) and (el == EventedList(o)) == (l == o) and not (el == tuple(l)), "comparison")
            r, r2 = attempt(hash, el), attempt(hash, EventedList(l, hashable=False))
            ctx.check(r.ok and r.val == hash(el) and isinstance(r2.exc, TypeError), lambda: f"hash: {r}; with hashable=False: {r2}")
        elif k == "add":
            items = [val(i) for i in op[2]]
            if typed:
                items = [x for x in items if not isinstance(x, (str, Fraction))]
            ctx.check(ident(el + items, l + items) and type(el + items) is cls, lambda: f"{what}: el + list")
            ctx.check(ident(items + el, items + l) and type(items + el) is list, lambda: f"{what}: list + el")
            ctx.check(ident(el.copy(), l) and el.copy() is not el and type(el.copy()) is cls, "copy()")
            c = el.copy()
            c.append(0)
            c.events.inserted.emit(0, 0)

    for op in case["ops"]:
        do(op)
        if len(l) > 40:
            restore(l[:5])
    del conv
    if len(kinds) >= 3 and n_failed:
        ctx.nontrivial()


def gen_list(rng, i, tier):
    def idx(ints_only=False):
        x = rng.random()
        n = rng.choice([0, 1, 2, 3, 5])
        v = rng.randint(-n - 1, n)
        if x < 0.8 or ints_only:
            return v
        if x < 0.86:
            return ["np", v]
        if x < 0.92:
            return ["idx", v]
        return rng.choice([12, -12, ["bad", "x"], ["bad", 1.5], ["bad", None]])

    def slc():
        p = [None, None, 0, 1, 2, 3, 4, -1, -2, -3, 7, -9]
        return ["slice", rng.choice(p), rng.choice(p), rng.choice([None, None, None, 1, 2, -1, -2, 3] + ([0] if rng.random() < 0.1 else []))]

    def some(n=5):
        return [rng.randrange(23) for _ in range(rng.randint(0, n))]

    ops = []
    for _ in range(rng.randint(5, 50)):
        x = rng.random()
        it = rng.choice(["list", "list", "tuple", "iter", "gen", "evented", "self", "notiter"])
        if x < 0.1:
            ops.append(["insert", idx(), rng.randrange(23)])
        elif x < 0.16:
            ops.append(["append", rng.randrange(23)])
        elif x < 0.22:
            ops.append([rng.choice(["extend", "iadd"]), it, some()])
        elif x < 0.32:
            ops.append(["set", idx(), rng.randrange(23)])
        elif x < 0.42:
            ops.append(["setslice", slc(), it, some(), rng.random() < 0.5])
        elif x < 0.50:
            ops.append(["del", slc() if rng.random() < 0.4 else idx()])
        elif x < 0.55:
            ops.append(["pop", rng.choice([None, idx(), idx()])])
        elif x < 0.59:
            ops.append(["remove", rng.randrange(23)])
        elif x < 0.605:
            ops.append(["clear"])
        elif x < 0.65:
            ops.append(["reverse", rng.random() < 0.5])
        elif x < 0.75:
            ops.append(["move", rng.randint(-7, 7), rng.randint(-7, 7)])
        elif x < 0.85:
            ops.append(["move_multiple", [slc() if rng.random() < 0.2 else rng.randint(-5, 5) if rng.random() < 0.3 else rng.randint(0, 3) for _ in range(rng.randint(0, 4))], rng.randint(-5, 5)])
        elif x < 0.90:
            ops.append(["read", "get", slc() if rng.random() < 0.5 else idx()])
        elif x < 0.93:
            ops.append(["read", "index", rng.randrange(23), [rng.randint(-4, 4) for _ in range(rng.randint(0, 2))]])
        elif x < 0.96:
            ops.append(["read", "misc", rng.randrange(23)])
        else:
            ops.append(["read", "add", some()])
    return {"cls": rng.choice(["plain", "plain", "plain", "typed"]), "init": some(8), "group": rng.random() < 0.5, "ops": ops}


WORKLOADS = [Workload("list", gen_list, run_list, quick=4000, thorough=80000)]
