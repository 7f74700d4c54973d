"""C20: EventedDict behaves like dict; its events mirror every change."""
import copy
import warnings

from psygnal import EmissionInfo
from psygnal.containers import EventedDict
from vh.core import Workload, attempt

PROP = "C20"
TECHNIQUE = "runtime monitoring: lock-step comparison with a built-in dict, exact event sequences with the state seen by the listeners, and an online monitor that rebuilds the dict from the events alone"
RULE = (
    "random histories of all mapping operations with keys that are equal but not identical (1, True, 1.0), NaN, tuples and unhashable keys, values that are equal but not identical, "
    "mappings / pair sequences / iterators / keyword arguments / the dict itself as arguments, with and without basetype; outcome, items, views and a mirror fed by the events are "
    "compared after each; non-trivial: added, changed, removed and suppressed, distinct by case"
)
REQUIRE = {"ops": 20000, "added": 5000, "changed": 3000, "removed": 3000, "suppressed": 300, "failed": 1000, "rejected": 300, "group_events": 5000, "copies": 500}


class Box:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Box) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"Box({self.v})@{id(self) % 9973}"


class Keys:
    """Has .keys() and items, is no Mapping."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


BASETYPES = {"none": (), "int": int, "tuple": (int, str), "list": [Box, int], "three": (bytes, Box, int), "four": [float, bytes, str, int]}


def run_dict(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(case, ctx)


def ident(a, b):
    return list(map(id, a.values())) == list(map(id, b.values())) and list(a) == list(b)


class Mirror:
    def __init__(self, ed, ctx, group):
        self.ed, self.ctx = ed, ctx
        self.items = dict(ed.items())
        self.log = []
        if group:

            def on_event(info):
                assert isinstance(info, EmissionInfo)
                ctx.count("group_events")
                getattr(self, info.signal.name)(*info.args)

            ed.events.connect(on_event)
            self._keep = on_event
        else:
            for n in ("adding", "added", "changing", "changed", "removing", "removed"):
                ed.events[n].connect(getattr(self, n))

    def adding(self, k):
        self.log.append(("adding", k))
        self.ctx.check(k not in self.ed, lambda: f"adding({k!r}) when it is there")

    def added(self, k, v):
        self.ctx.count("added")
        self.log.append(("added", k, v))
        self.ctx.check(k not in self.items and self.ed.get(k) is v, lambda: f"added({k!r}, {v!r})")
        self.items[k] = v

    def changing(self, k):
        self.log.append(("changing", k))
        self.ctx.check(self.ed[k] is self.items[k], lambda: f"changing({k!r}) after the change")

    def changed(self, k, old, new):
        self.ctx.count("changed")
        self.log.append(("changed", k, old, new))
        self.ctx.check(k in self.items and self.items[k] is old and self.ed[k] is new, lambda: f"changed({k!r}, {old!r}, {new!r}): was {self.items.get(k)!r}, is {self.ed.get(k)!r}")
        self.items[k] = new

    def removing(self, k):
        self.log.append(("removing", k))
        self.ctx.check(k in self.ed, lambda: f"removing({k!r}) after the removal")

    def removed(self, k, v):
        self.ctx.count("removed")
        self.log.append(("removed", k, v))
        self.ctx.check(k in self.items and self.items[k] is v and k not in self.ed, lambda: f"removed({k!r}, {v!r})")
        del self.items[k]


def _run(case, ctx):
    nan = float("nan")
    keys = ["a", "b", "c", 1, True, 1.0, (1, 2), None, nan, Box(1), Box(1), 0, "d", frozenset([1]), [1], {}]
    vals = [0, 1, 2, True, 1.0, "x", "y", None, Box(1), Box(1), [1], [1], nan, 300, int("300"), "long string", "".join(["long ", "string"])]
    bt = BASETYPES[case["base"]]
    types = tuple(bt) if isinstance(bt, (list, tuple)) else (bt,)

    def K(i):
        return keys[i % len(keys)]

    def V(i):
        return vals[i % len(vals)]

    def ok_value(v):
        return not types or isinstance(v, types)

    def pairs(p):
        return [(K(k), V(v)) for k, v in p]

    def source(kind, p, for_list):
        p = [(k, v) for k, v in p if not isinstance(k, (list, dict))] if kind in ("dict", "keys", "evented") else p
        if kind == "dict":
            return dict(p)
        if kind == "keys":
            return Keys(dict(p))
        if kind == "pairs":
            return [list(x) for x in p]
        if kind == "iter":
            return iter(p)
        if kind == "evented":
            return EventedDict(p)
        if kind == "bad":
            return [(1, 2), (1, 2, 3)]
        if kind == "notiter":
            return 5
        raise AssertionError

    class Sub(EventedDict):
        pass

    cls = Sub if case["sub"] else EventedDict
    init = [(k, v) for k, v in pairs(case["init"]) if not isinstance(k, (list, dict))]
    init += [(100 + k, 1) for k in range(case["many"])]
    ctx.count("large", case["many"] > 0)
    r = attempt(cls, init, basetype=bt, **{"kw": 1})
    if not all(ok_value(v) for _, v in init):
        ctx.check(not r.ok and isinstance(r.exc, TypeError), lambda: f"values of the wrong type accepted at construction: {r}")
        init = [(k, v) for k, v in init if ok_value(v)]
        r = attempt(cls, dict(init) if case["sub"] else init, basetype=bt, **{"kw": 1})
    ctx.check(r.ok, lambda: f"construction: {r}")
    ed, d = r.val, dict(init, kw=1)
    bystander = EventedDict(d)
    by = Mirror(bystander, ctx, False)
    m1, m2 = Mirror(ed, ctx, case["group"]), Mirror(ed, ctx, False)
    seen = set()

    def same(r, r2, what):
        ctx.check(r.ok == r2.ok and (r.ok or type(r.exc) is type(r2.exc)), lambda: f"{what}: {r}; dict: {r2}")
        if not r.ok and isinstance(r2.exc, KeyError) and "popitem" not in what:
            ctx.check(r.exc.args == r2.exc.args or r.exc.args[0] is r2.exc.args[0], lambda: f"{what}: {r.exc!r}; dict: {r2.exc!r}")
        if r.ok:
            ctx.check(r.val is r2.val, lambda: f"{what}: {r}; dict: {r2}")

    def set_events(k, v, before, want):
        """Events of d[k] = v, applied to `before`."""
        if k not in before:
            want += [("adding", k), ("added", k, v)]
        elif before[k] is not v:
            want += [("changing", k), ("changed", k, before[k], v)]
        else:
            ctx.count("suppressed")
            seen.add("suppressed")
        before[k] = v

    def do(op):
        kind = op[0]
        what = f"{kind} {op[1:]} on {d!r}"
        m1.log.clear()
        m2.log.clear()
        ctx.count("ops")
        before = dict(d)
        want = []
        failed = False
        if kind == "set":
            k, v = K(op[1]), V(op[2])
            if not ok_value(v) and not isinstance(k, (list, dict)):
                r = attempt(ed.__setitem__, k, v)
                if not (k in d and d[k] is v):
                    ctx.check(not r.ok and isinstance(r.exc, TypeError), lambda: f"{what}: {v!r} accepted")
                    ctx.count("rejected")
                    failed = True
            else:
                r, r2 = attempt(ed.__setitem__, k, v), attempt(d.__setitem__, k, v)
                same(r, r2, what)
                failed = not r.ok
                if r.ok:
                    set_events(k, v, before, want)
        elif kind == "setdefault":
            k, v = K(op[1]), V(op[2])
            a = (k,) if op[3] else (k, v)
            v = None if op[3] else v
            if isinstance(k, (list, dict)) or k in d or ok_value(v):
                r, r2 = attempt(ed.setdefault, *a), attempt(d.setdefault, *a)
                same(r, r2, what)
                failed = not r.ok
                if r.ok and k not in before:
                    set_events(k, v, before, want)
            else:
                r = attempt(ed.setdefault, *a)
                ctx.check(not r.ok and isinstance(r.exc, TypeError), lambda: f"{what}: {v!r} accepted")
                ctx.count("rejected")
                failed = True
        elif kind == "del":
            k = K(op[1])
            r, r2 = attempt(ed.__delitem__, k), attempt(d.__delitem__, k)
            same(r, r2, what)
            failed = not r.ok
            if r.ok:
                want = [("removing", k), ("removed", k, before[k])]
        elif kind == "pop":
            k = K(op[1])
            a = (k,) if op[3] else (k, V(op[2]))
            r, r2 = attempt(ed.pop, *a), attempt(d.pop, *a)
            if isinstance(k, (list, dict)) and not d:
                # (an empty dict doesn't hash the key)
                ctx.check(not r.ok or r.val is r2.val, lambda: f"{what}: {r}; dict: {r2}")
            else:
                same(r, r2, what)
            failed = not r.ok
            if r.ok and not isinstance(k, (list, dict)) and k in before:
                want = [("removing", k), ("removed", k, before[k])]
        elif kind == "popitem":
            r, r2 = attempt(ed.popitem), attempt(d.popitem)
            ctx.check(r.ok == r2.ok and (r.ok or isinstance(r.exc, KeyError)), lambda: f"{what}: {r}; dict: {r2}")
            failed = not r.ok
            if r.ok:
                ctx.check(type(r.val) is tuple and r.val[0] is r2.val[0] and r.val[1] is r2.val[1], lambda: f"{what}: {r}; dict: {r2}")
                want = [("removing", r2.val[0]), ("removed", *r2.val)]
        elif kind == "clear":
            r, r2 = attempt(ed.clear), attempt(d.clear)
            same(r, r2, what)
            want = None
            ctx.eq(sorted(e[0] for e in m2.log), ["removed"] * len(before) + ["removing"] * len(before), lambda: f"{what}: events {m2.log}")
        elif kind == "update":
            p = pairs(op[2])
            kw = {k: V(v) for k, v in op[3].items()}
            every = [v for _, v in p] if op[1] in ("dict", "keys", "pairs", "iter", "evented") else []
            if op[1] in ("bad", "notiter"):
                kw = {k: v for k, v in kw.items() if ok_value(v)}
            src = {"self": (ed, d), "nothing": None}.get(op[1]) if op[1] in ("self", "nothing") else (source(op[1], p, False), source(op[1], p, True))
            a, b = ((), ()) if src is None else ((src[0],), (src[1],))
            if not all(map(ok_value, every + list(kw.values()))):
                r = attempt(ed.update, *a, **kw)
                # (like dict.update: what came before stays)
                if not r.ok:
                    ctx.check(isinstance(r.exc, TypeError), lambda: f"{what}: {r}")
                    ctx.count("rejected")
                ctx.check(all(ok_value(v) for v in ed.values()), lambda: f"{what}: a value of the wrong type was stored")
                d.clear()
                d.update(ed.items())
                r2 = r
            else:
                r, r2 = attempt(ed.update, *a, **kw), attempt(d.update, *b, **kw)
                if op[1] == "bad" and not ok_value(2):
                    # (which pair is looked at first is not judged)
                    ctx.check(not r.ok and isinstance(r.exc, (TypeError, ValueError)), lambda: f"{what}: {r}")
                    r2 = r
                    d.clear()
                    d.update(ed.items())
            ctx.check(r.ok == r2.ok and (r.ok or type(r.exc) is type(r2.exc)), lambda: f"{what}: {r}; dict: {r2}")
            failed = not r.ok
            want = None
            ctx.check(all(e[0] in ("adding", "added", "changing", "changed") for e in m2.log), lambda: f"{what}: events {m2.log}")
            if r.ok and op[1] in ("dict", "keys", "evented", "pairs", "iter"):
                want = []
                src = p if op[1] in ("pairs", "iter") else list(dict((k, v) for k, v in p if not isinstance(k, (list, dict))).items())
                for k, v in [*src, *kw.items()]:
                    set_events(k, v, before, want)
        elif kind == "copy":
            ctx.count("copies")
            c = ed.copy() if op[1] else copy.copy(ed)
            ctx.check(type(c) is cls and ident(c, d) and c is not ed and c.events is not ed.events, lambda: f"{what}: {c!r}")
            c["new key"] = 1 if ok_value(1) else Box(1)
            c.pop("new key")
            if not ok_value(b"x"):
                ctx.check(not attempt(c.__setitem__, "z", b"x").ok, "the copy has no basetype")
        elif kind == "read":
            k, v = K(op[1]), V(op[2])
            same(attempt(ed.__getitem__, k), attempt(d.__getitem__, k), what + " []")
            r, r2 = attempt(ed.get, k, v), attempt(d.get, k, v)
            if not isinstance(k, (list, dict)):
                same(r, r2, what + " get")
                ctx.eq(k in ed, k in d, what + " in")
            ctx.eq((len(ed), bool(ed)), (len(d), bool(d)), "len, bool")
            ctx.check(list(map(id, ed)) == list(map(id, d)) and list(map(id, ed.keys())) == list(map(id, d.keys())), what + " iteration")
            ctx.check(list(map(id, ed.values())) == list(map(id, d.values())), what + " values()")
            ctx.check([(id(a), id(b)) for a, b in ed.items()] == [(id(a), id(b)) for a, b in d.items()], what + " items()")
            o = dict(d)
            o["other"] = 1
            ctx.check((ed == d) == (dict(d) == d) and ed != o and not ed == o and (d == ed) == (dict(d) == d) and (ed != d) == (dict(d) != d), what + " comparison")
            ctx.check(set(ed.keys()) == set(d.keys()) and ed.keys() == d.keys() and (v in ed.values()) == (v in d.values()) and len(ed.items()) == len(d), what + " views")
            ctx.eq(repr(ed), f"{cls.__name__}({d!r})", what + " repr")
            ctx.check(dict(ed) == dict(d) or nan in d.values() or nan in d, what + " dict()")
        else:
            raise AssertionError(kind)
        if failed:
            ctx.count("failed")
            want = []
        ctx.check(ident(ed, d), lambda: f"{what}: {ed!r}, dict: {d!r}")
        for m in (m1, m2):
            ctx.check(ident(m.items, d), lambda: f"{what}: a copy made by the events {m.log} is {m.items!r}, the dict {d!r}")
            log = m.log
            if failed:
                log = [e for e in log if not e[0].endswith("ing")]
                if kind == "update":
                    continue
            if want is not None:
                ctx.check(len(log) == len(want) and all(len(a) == len(b) and a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]) and all(x is y for x, y in zip(a[2:], b[2:])) for a, b in zip(log, want)), lambda: f"{what}: events {log}, expected {want}")
        seen.update(e[0] for e in m2.log)
        ctx.check(not by.log and ident(bystander, by.items), "another dict changed")

    for op in case["ops"]:
        do(op)
    if {"added", "changed", "removed", "suppressed"} <= seen:
        ctx.nontrivial()


def gen_dict(rng, i, tier):
    def k():
        return rng.randrange(16) if rng.random() < 0.4 else rng.randrange(5)

    def v():
        return rng.randrange(17)

    def pairs(n=4):
        return [[k(), v()] for _ in range(rng.randint(0, n))]

    ops = []
    for _ in range(rng.randint(5, 50)):
        x = rng.random()
        if x < 0.3:
            ops.append(["set", k(), v()])
        elif x < 0.38:
            ops.append(["setdefault", k(), v(), rng.random() < 0.3])
        elif x < 0.48:
            ops.append(["del", k()])
        elif x < 0.58:
            ops.append(["pop", k(), v(), rng.random() < 0.5])
        elif x < 0.64:
            ops.append(["popitem"])
        elif x < 0.66:
            ops.append(["clear"])
        elif x < 0.85:
            ops.append(["update", rng.choice(["dict", "keys", "pairs", "iter", "evented", "self", "nothing", "bad", "notiter"]), pairs(), {n: v() for n in rng.sample(["a", "kw", "z"], rng.choice([0, 0, 1, 2]))}])
        elif x < 0.90:
            ops.append(["copy", rng.random() < 0.5])
        else:
            ops.append(["read", k(), v()])
    return {"base": rng.choice(["none", "none", "int", "tuple", "list", "three", "four"]), "many": rng.randint(50, 300) if rng.random() < 0.02 else 0, "sub": rng.random() < 0.2, "group": rng.random() < 0.5, "init": pairs(6), "ops": ops}


WORKLOADS = [Workload("dict", gen_dict, run_dict, quick=4000, thorough=80000)]
