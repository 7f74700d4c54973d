"""C22: Selection and SelectableEventedList."""
import warnings

from psygnal import EmissionInfo
from psygnal.containers import EventedList, SelectableEventedList, Selection
from vh.core import Workload, attempt

PROP = "C22"
TECHNIQUE = "runtime monitoring: an executable model of list, selection, active and current item, and online monitors that rebuild the selection and the active item from the events alone, compared after every operation"
RULE = (
    "random histories of list mutations (insertion, deletion by index and slice, item assignment, moves, reversal, clear) and of selection operations (add, discard, toggle, select_only, active, set "
    "methods and operators, assignment of any iterable, foreign items, select_next/previous with any step, remove_selected) on lists with duplicates and equal items, and on selections with every "
    "kind of parent; non-trivial: cases that had an active item, several selected items and none, distinct by case"
)
REQUIRE = {"ops": 20000, "events": 10000, "active_events": 10000, "foreign": 2000, "steps": 1500, "removed_selected": 500, "inserted": 3000, "deselected_by_removal": 500}
ASSUMPTIONS = [
    "items are hashable and not None",
    "bulk selections with a foreign item must raise, but the valid items may have been selected (like set.update)",
    "setting items of the list that are selected is only looked at by the probe of the known finding",
    "which item select_next selects when there is no current item is not judged",
]


class Box:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Box) and self.v == o.v

    def __hash__(self):
        return hash(("box", self.v))

    def __repr__(self):
        return f"Box({self.v})"


ITEMS = [0, 1, 2, 3, 4, 5, "", "a", "b", Box(1), Box(1), Box(2), (1,), (), True, 2.0, float("nan"), -1]
SMALL = 8


class Monitor:
    """Rebuilds selection and active item from the events."""

    def __init__(self, sel, ctx, group):
        self.sel, self.ctx = sel, ctx
        self.mirror = dict.fromkeys(sel)
        self.active = sel.active
        self.cur = self.cur_event = sel._current
        self.n = 0
        ev = sel.events
        if group:

            @ev.connect
            def on(info):
                assert isinstance(info, EmissionInfo)
                {"items_changed": self.on_items, "active": self.on_active, "_current": self.on_current}[info.signal.name](*info.args)

            self._keep = on
        else:
            ev.items_changed.connect(self.on_items)
            ev.active.connect(self.on_active)
            ev._current.connect(self.on_current)

    def on_items(self, added, removed):
        self.n += 1
        self.ctx.count("events")
        self.ctx.check(added or removed, "empty items_changed event")
        for x in removed:
            self.ctx.check(x in self.mirror, lambda: f"removed {removed!r}, but {x!r} was not selected: {list(self.mirror)}")
            del self.mirror[x]
        for x in added:
            self.ctx.check(x not in self.mirror, lambda: f"added {added!r}, but {x!r} was selected already")
            self.mirror[x] = None

    def on_active(self, v):
        self.n += 1
        self.ctx.count("active_events")
        self.active = v
        if v is not None:
            self.cur = v

    def on_current(self, v):
        self.cur_event = v


def same(a, b):
    return a is b or a == b


def sameset(a, b):
    return len(a) == len(b) and set(a) == set(b)


def mon_check(mon, sel, ms, ctx, what):
    got = list(sel)
    ctx.check(sameset(got, ms), lambda: f"{what}: selected {got}, expected {ms}")
    want = next(iter(ms)) if len(ms) == 1 else None
    ctx.check(same(sel.active, want), lambda: f"{what}: active is {sel.active!r} with {got} selected")
    ctx.check(same(mon.active, want), lambda: f"{what}: the last `active` event reported {mon.active!r}; {got} selected")
    ctx.check(sameset(list(mon.mirror), ms), lambda: f"{what}: the items_changed events add up to {list(mon.mirror)}; {got} selected")
    ctx.check(same(sel._current, mon.cur), lambda: f"{what}: current is {sel._current!r}, expected {mon.cur!r}")
    ctx.check(same(mon.cur_event, sel._current), lambda: f"{what}: the last `_current` event reported {mon.cur_event!r}, it is {sel._current!r}")


def selection_op(op, sel, ms, mon, valid, ctx, what, setter=None):
    """One operation on a selection; returns the expected selection."""
    kind = op[0]
    n0 = mon.n

    def I(i):
        return ITEMS[i % len(ITEMS)]

    def foreign(r):
        ctx.count("foreign")
        ctx.check(not r.ok and isinstance(r.exc, ValueError), lambda: f"{what}: foreign item accepted: {r}")

    def nothing():
        ctx.check(mon.n == n0, lambda: f"{what}: events although nothing was to change")
        return ms

    if kind in ("s.add", "s.toggle", "s.select_only", "s.active"):
        x = I(op[1])

        def call():
            if kind == "s.active":
                sel.active = x
            else:
                getattr(sel, kind[2:])(x)

        r = attempt(call)
        if kind == "s.toggle" and x in ms:
            ctx.check(r.ok, lambda: f"{what}: {r}")
            return [y for y in ms if y != x and y is not x]
        if kind == "s.active" and len(ms) == 1 and same(ms[0], x):
            if r.ok:
                return ms
        if not valid(x):
            foreign(r)
            return nothing()
        ctx.check(r.ok, lambda: f"{what}: {r}")
        if kind in ("s.add", "s.toggle"):
            return ms if x in ms else [*ms, x]
        return [x]
    if kind == "s.active_none":
        was = sel.active
        sel.active = None
        if was is None:
            # (what this does to a multi-selection is not judged)
            ctx.check(sel.active is None, lambda: f"{what}: {sel.active!r}")
            if mon.n != n0 or not list(sel):
                mon.cur = sel._current
            return list(sel) if mon.n != n0 else ms
        mon.cur = None
        return []
    if kind == "s.discard":
        x = I(op[1])
        r = attempt(sel.discard, x)
        ctx.check(r.ok, lambda: f"{what}: {r}")
        return [y for y in ms if not same(y, x)]
    if kind == "s.remove":
        x = I(op[1])
        r = attempt(sel.remove, x)
        if x not in ms:
            ctx.check(not r.ok and isinstance(r.exc, KeyError), lambda: f"{what}: {r}")
            return nothing()
        ctx.check(r.ok, lambda: f"{what}: {r}")
        return [y for y in ms if not same(y, x)]
    if kind == "s.clear":
        if op[1]:
            sel.clear(keep_current=True)
        else:
            sel.clear()
            mon.cur = None
        return []
    if kind == "s.pop":
        r = attempt(sel.pop)
        if not ms:
            ctx.check(not r.ok and isinstance(r.exc, KeyError), lambda: f"{what}: {r}")
            return nothing()
        ctx.check(r.ok and r.val in ms, lambda: f"{what}: {r}")
        return [y for y in ms if not same(y, r.val)]
    if kind == "s.reads":
        c = sel.copy()
        ctx.check(sameset(list(c), ms) and type(c) is Selection and c.events is not sel.events, lambda: f"{what}: copy {c!r}")
        ctx.check(same(c.active, ms[0] if len(ms) == 1 else None), lambda: f"{what}: active item of the copy")
        c.clear()
        for f in (sel.union, sel.difference, sel.intersection):
            attempt(f, [I(op[1])])
        ctx.check(isinstance(hash(sel), int) and (I(op[1]) in sel) == (I(op[1]) in ms) and len(sel) == len(ms), lambda: f"{what}: len/in")
        return nothing()
    if kind == "s.bulk":
        name, how, idx = op[1:]
        items = [I(i) for i in idx]
        arg = {"list": list, "iter": iter, "set": set, "tuple": tuple, "dict": dict.fromkeys, "sel": lambda i: Selection(i), "self": lambda i: sel}[how](items)
        if how == "self":
            items = list(ms)
        uniq = list(dict.fromkeys(items))

        def call():
            nonlocal sel
            if name == "assign":
                setter(arg)
            elif name in ("|=", "&=", "-=", "^="):
                a = set(items) if how in ("list", "iter", "tuple", "dict") else arg
                t = sel
                if name == "|=":
                    t |= a
                elif name == "&=":
                    t &= a
                elif name == "-=":
                    t -= a
                else:
                    t ^= a
                ctx.check(t is sel, f"{what}: another object")
            else:
                getattr(sel, name)(arg)

        r = attempt(call)
        if name in ("update", "|="):
            add, rem = uniq, []
        elif name in ("difference_update", "-="):
            add, rem = [], uniq
        elif name in ("intersection_update", "&="):
            add, rem = [], [x for x in ms if x not in uniq]
        elif name in ("symmetric_difference_update", "^="):
            add, rem = [x for x in uniq if x not in ms], [x for x in uniq if x in ms]
            if how == "self":
                add, rem = [], list(ms)
                if name == "^=" and r.ok and sel._current is None:
                    mon.cur = None  # (clear() is used)
        else:
            add, rem = uniq, [x for x in ms if x not in uniq]
        if name == "-=" and how == "self" and sel._current is None:
            mon.cur = None
        if any(not valid(x) for x in add):
            foreign(r)
            got = list(sel)
            ctx.check(all(x in ms or (x in add and valid(x)) for x in got), lambda: f"{what}: selected {got}")
            return got
        ctx.check(r.ok, lambda: f"{what}: {r}")
        return [x for x in ms if x not in rem] + [x for x in add if x not in ms]
    raise AssertionError(kind)


def run_selection(case, ctx):
    """A Selection with any parent."""
    items = [ITEMS[i % len(ITEMS)] for i in case["parent_items"]]
    p = case["parent"]
    parent = {"none": lambda i: None, "list": list, "tuple": tuple, "set": set, "dict": dict.fromkeys, "evented": EventedList}[p](items)
    init = [ITEMS[i % len(ITEMS)] for i in case["init"]]

    def valid(x):
        return parent is None or x in parent

    r = attempt(Selection, init, parent) if case["pos"] else attempt(Selection, init, parent=parent)
    if any(not valid(x) for x in init):
        ctx.count("foreign")
        ctx.check(not r.ok and isinstance(r.exc, ValueError), lambda: f"Selection({init}, {parent!r}): {r}")
        init = [x for x in init if valid(x)]
        r = attempt(Selection, iter(init), parent=parent)
    ctx.check(r.ok, lambda: f"Selection({init}): {r}")
    sel = r.val
    ms = list(dict.fromkeys(init))
    mon = Monitor(sel, ctx, case["group"])
    mon_check(mon, sel, ms, ctx, f"Selection({init})")
    seen = set()
    for op in case["ops"]:
        ctx.count("ops")
        what = f"{op} with {ms} selected in {parent!r}"
        if op[0] == "p.remove":
            x = ITEMS[op[1] % len(ITEMS)]
            if p in ("list", "set", "evented") and x in parent and x not in ms:
                parent.remove(x)
        elif op[0] == "p.add":
            x = ITEMS[op[1] % len(ITEMS)]
            if p in ("list", "evented"):
                parent.append(x)
            elif p == "set":
                parent.add(x)
        else:
            ms = selection_op(op, sel, ms, mon, valid, ctx, what)
        mon_check(mon, sel, ms, ctx, what)
        seen.add(min(2, len(ms)))
    if seen == {0, 1, 2}:
        ctx.nontrivial()


def run_list(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run_list(case, ctx)


def _run_list(case, ctx):
    def I(i):
        return ITEMS[i % len(ITEMS)]

    class Sub(SelectableEventedList):
        pass

    cls = Sub if case["sub"] else SelectableEventedList
    init = [I(i) for i in case["init"]]
    L = cls(iter(init) if case["sub"] else init, child_events=case["child"])
    m = list(init)
    ms = m[-1:]
    sel = L.selection
    mon = Monitor(sel, ctx, case["group"])
    mon_check(mon, sel, ms, ctx, f"{init}")
    seen = set()

    def valid(x):
        return x in m

    def do(op):
        nonlocal ms
        kind = op[0]
        what = f"{op} on {m} with {ms} selected"
        n0 = mon.n
        if kind.startswith("s."):

            def setter(v):
                L.selection = v

            ms = selection_op(op, sel, ms, mon, valid, ctx, what, setter)
        elif kind in ("append", "insert", "extend", "iadd"):
            ctx.count("inserted")
            if kind in ("append", "insert"):
                x = I(op[1])
                new = [x]
                if kind == "append":
                    L.append(x)
                    m.append(x)
                else:
                    L.insert(op[2], x)
                    m.insert(op[2], x)
            else:
                new = [I(i) for i in op[1]]
                if kind == "extend":
                    L.extend(iter(new) if op[2] else new)
                else:
                    L2 = L
                    L2 += new
                m.extend(new)
            if new:
                ms = [new[-1]]
        elif kind in ("del", "pop", "remove", "delslice", "clear"):
            before = list(m)
            r = r2 = None
            if kind == "del":
                r, r2 = attempt(L.__delitem__, op[1]), attempt(m.__delitem__, op[1])
            elif kind == "pop":
                a = () if op[1] is None else (op[1],)
                r, r2 = attempt(L.pop, *a), attempt(m.pop, *a)
            elif kind == "remove":
                x = I(op[1])
                r, r2 = attempt(L.remove, x), attempt(m.remove, x)
            elif kind == "delslice":
                sl = slice(*op[1])
                r, r2 = attempt(L.__delitem__, sl), attempt(m.__delitem__, sl)
            else:
                r, r2 = attempt(L.clear), attempt(m.clear)
            ctx.check(r.ok == r2.ok and (r.ok or type(r.exc) is type(r2.exc)), lambda: f"{what}: {r}; list: {r2}")
            got = list(sel)
            for x in ms:
                if x not in m:
                    ctx.count("deselected_by_removal")
                    ctx.check(x not in got, lambda: f"{what}: {x!r} is still selected")
                elif x not in got:
                    # (one of several equal items was removed)
                    ctx.check(before.count(x) > m.count(x), lambda: f"{what}: {x!r} is not selected any more")
            ctx.check(all(x in ms for x in got), lambda: f"{what}: {got} selected")
            ms = [x for x in ms if x in got]
        elif kind == "set":
            if not m or m[op[1] % len(m)] in ms:
                return
            i = op[1] % len(m) - (len(m) if op[2] else 0)
            x = I(op[3])
            L[i] = x
            m[i] = x
        elif kind == "setslice":
            sl = slice(*op[1])
            if any(x in ms for x in m[sl]):
                return
            new = [I(i) for i in op[2]]
            r, r2 = attempt(L.__setitem__, sl, new), attempt(m.__setitem__, sl, new)
            ctx.check(r.ok == r2.ok, lambda: f"{what}: {r}; list: {r2}")
        elif kind == "move":
            if not m:
                return
            i, j = op[1] % len(m), op[2] % (len(m) + 1)
            L.move(i, j)
            x = m.pop(i)
            m.insert(j - (j > i), x)
        elif kind == "reverse":
            L.reverse(emit_individual_events=op[1])
            m.reverse()
        elif kind == "select_all":
            L.select_all()
            ms = list(dict.fromkeys([*ms, *m]))
        elif kind == "deselect_all":
            L.deselect_all()
            mon.cur = None
            ms = []
        elif kind == "remove_selected":
            ctx.count("removed_selected")
            want = [*ms]
            dups = any(sum(same(x, y) for y in m) > 1 for x in ms)
            at = next(k for k, x in enumerate(m) if same(x, want[0])) if len(want) == 1 and not dups else None
            r = attempt(L.remove_selected)
            ctx.check(r.ok and type(r.val) is tuple and sameset(r.val, want), lambda: f"{what}: {r}")
            rest = list(L)
            if not dups:
                m2 = [x for x in m if x not in want]
                ctx.check(len(rest) == len(m2) and all(map(same, rest, m2)), lambda: f"{what}: left {rest}")
                m[:] = m2
            else:
                m2 = list(m)
                for x in want:
                    m2.remove(x)
                if not (len(rest) == len(m2) and all(map(same, rest, m2))):
                    m2 = [x for x in m if x not in want]
                    ctx.check(len(rest) == len(m2) and all(map(same, rest, m2)), lambda: f"{what}: left {rest}")
                m[:] = m2
            got = list(sel)
            # (a neighbour of the removed items may be selected)
            ctx.check(len(got) <= 1 and all(x in m for x in got), lambda: f"{what}: {got} selected")
            if at is not None and m:
                ctx.check(len(got) == 1 and same(got[0], m[max(0, at - 1)]), lambda: f"{what}: {got} selected, removed was item {at} of {[*m]}")
            ms = got
        elif kind in ("next", "previous"):
            step, expand, wrap = op[1:]
            cur = mon.cur
            judged = bool(ms) and cur is not None and sum(same(cur, x) for x in m) == 1
            # (False is the default of both)
            kw = {k: v for k, v in (("expand_selection", expand), ("wraparound", wrap)) if v or step > 1}
            if kind == "next":
                r = attempt(L.select_next, step, **kw) if step != 1 else attempt(L.select_next, **kw)
            else:
                step = -1
                r = attempt(L.select_previous, **kw)
            ctx.check(r.ok, lambda: f"{what}: {r}")
            if not m:
                ctx.check(mon.n == n0, f"{what}: events on an empty list")
            elif judged:
                ctx.count("steps")
                i = next(k for k, x in enumerate(m) if same(x, cur)) + step
                i = i % len(m) if wrap else max(0, min(len(m) - 1, i))
                tgt = m[i]
                ms = (ms if tgt in ms else [*ms, tgt]) if expand else [tgt]
                mon.cur = tgt
            else:
                got = list(sel)
                ctx.check(sel._current in m and sel._current in got, lambda: f"{what}: selected {got}, current {sel._current!r}")
                ctx.check(all(x in got for x in ms) if expand else len(got) == 1, lambda: f"{what}: selected {got}")
                ctx.check(all(x in ms or same(x, sel._current) for x in got), lambda: f"{what}: selected {got}")
                ms, mon.cur = got, sel._current
        elif kind == "slice":
            sl = slice(*op[1])
            part = L[sl]
            want = m[sl]
            ctx.check(type(part) is cls and part.selection is not sel and sameset(list(part.selection), want[-1:]), lambda: f"{what}: {part!r} {part.selection!r}")
            part.select_all()
            part.clear()
            ctx.check(not list(part.selection) and mon.n == n0, f"{what}: slices share a selection")
        else:
            raise AssertionError(kind)
        if kind in ("set", "setslice", "move", "reverse"):
            ctx.check(mon.n == n0, lambda: f"{what}: selection events")
        ctx.check(len(L) == len(m) and all(map(same, L, m)), lambda: f"{what}: list {list(L)}, expected {m}")
        ctx.check(L.selection is sel, f"{what}: another selection object")
        mon_check(mon, sel, ms, ctx, what)
        ctx.check(all(x in m for x in sel), lambda: f"{what}: {list(sel)} selected in {m}")
        seen.add(min(2, len(ms)))

    for op in case["ops"]:
        ctx.count("ops")
        do(op)
    if seen == {0, 1, 2}:
        ctx.nontrivial()


def item(rng):
    return rng.randrange(len(ITEMS)) if rng.random() < 0.25 else rng.randrange(SMALL)


def gen_sop(rng, assign):
    x = rng.random()
    if x < 0.45:
        return [rng.choice(["s.add", "s.add", "s.toggle", "s.select_only", "s.active"]), item(rng)]
    if x < 0.5:
        return ["s.active_none"]
    if x < 0.62:
        return [rng.choice(["s.discard", "s.remove"]), item(rng)]
    if x < 0.66:
        return ["s.clear", rng.random() < 0.4]
    if x < 0.7:
        return ["s.pop"]
    if x < 0.74:
        return ["s.reads", item(rng)]
    names = ["update", "|=", "difference_update", "-=", "intersection_update", "&=", "symmetric_difference_update", "^="] + ["assign"] * (4 if assign else 0)
    return ["s.bulk", rng.choice(names), rng.choice(["list", "iter", "set", "tuple", "dict", "sel", "self"]), [item(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]]


def gen_selection(rng, i, tier):
    ops = []
    for _ in range(rng.randint(4, 30)):
        x = rng.random()
        ops.append([rng.choice(["p.remove", "p.add"]), item(rng)] if x < 0.08 else gen_sop(rng, False))
    p = [item(rng) for _ in range(rng.randint(0, 8))]
    init = [rng.choice(p) if p and rng.random() < 0.95 else item(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return {"parent": rng.choice(["none", "list", "tuple", "set", "dict", "evented"]), "parent_items": p, "init": init, "pos": rng.random() < 0.5, "group": rng.random() < 0.5, "ops": ops}


def sl(rng):
    def b():
        return None if rng.random() < 0.4 else rng.randint(-6, 6)

    return [b(), b(), rng.choice([None, None, None, 1, 2, -1])]


def gen_list(rng, i, tier):
    ops = []
    for _ in range(rng.randint(4, 40)):
        x = rng.random()
        if x < 0.3:
            ops.append(gen_sop(rng, True))
        elif x < 0.42:
            k = rng.choice(["append", "insert", "insert", "extend", "iadd"])
            if k == "append":
                ops.append([k, item(rng)])
            elif k == "insert":
                ops.append([k, item(rng), rng.randint(-6, 8)])
            else:
                ops.append([k, [item(rng) for _ in range(rng.randint(0, 3))], rng.random() < 0.3])
        elif x < 0.56:
            k = rng.choice(["del", "pop", "pop", "remove", "remove", "delslice", "clear"] if rng.random() < 0.3 else ["del", "pop", "remove"])
            if k == "del":
                ops.append([k, rng.randint(-5, 5)])
            elif k == "pop":
                ops.append([k, rng.choice([None, 0, -1, 1, 9])])
            elif k == "remove":
                ops.append([k, item(rng)])
            elif k == "delslice":
                ops.append([k, sl(rng)])
            else:
                ops.append([k])
        elif x < 0.64:
            k = rng.choice(["set", "set", "setslice", "move", "reverse"])
            if k == "set":
                ops.append([k, rng.randrange(12), rng.random() < 0.3, item(rng)])
            elif k == "setslice":
                ops.append([k, sl(rng), [item(rng) for _ in range(rng.randint(0, 3))]])
            elif k == "move":
                ops.append([k, rng.randrange(12), rng.randrange(12)])
            else:
                ops.append([k, rng.random() < 0.5])
        elif x < 0.70:
            ops.append([rng.choice(["select_all", "select_all", "deselect_all"])])
        elif x < 0.76:
            ops.append(["remove_selected"])
        elif x < 0.97:
            ops.append([rng.choice(["next", "next", "previous"]), rng.choice([1, 1, 1, 2, 3, -1, -2, 7, -9, 0]), rng.random() < 0.4, rng.random() < 0.5])
        else:
            ops.append(["slice", sl(rng)])
    return {"sub": rng.random() < 0.2, "child": rng.random() < 0.2, "group": rng.random() < 0.5, "init": [item(rng) for _ in range(rng.randint(0, 8))], "ops": ops}


def probe_replaced():
    L = SelectableEventedList([1, 2, 3])
    L.selection = [1]
    L[0] = 9
    if 1 not in L and 1 in L.selection:
        return "after `lst[0] = x` the replaced item, selected before, is still in lst.selection"
    return None


WORKLOADS = [
    Workload("list", gen_list, run_list, quick=4000, thorough=80000),
    Workload("selection", gen_selection, run_selection, quick=3000, thorough=50000),
]
FINDINGS = {"replaced-item-stays-selected": probe_replaced}
