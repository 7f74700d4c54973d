"""C12: each object has its own signal instances, created once."""
import dataclasses
import gc
import warnings
import weakref
from collections import Counter
from typing import Any, ClassVar

from psygnal import EmissionInfo, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance
from vh.core import Workload, attempt

PROP = "C12"
TECHNIQUE = "runtime monitoring: identity and routing monitor over object populations with address reuse (every access, every delivery compared with a model keyed by object)"
RULE = (
    "random class hierarchies of all storage shapes (plain, slots with/without weakref and dict, attribute-locking, always-equal, "
    "falsy), signals declared, named, inherited and overridden with all options; random creation, destruction (also as cycles) and "
    "re-creation of objects with accesses, connections and emissions in between; each access must give the object's one instance "
    "with the options of the most derived declaration (and each object its own signal groups, where its class has SignalGroupDescriptors), each emission must call exactly the callbacks connected on that object; "
    "non-trivial: at least two live objects with connections, distinct by case"
)
REQUIRE = {"accesses": 5000, "emissions": 2000, "calls": 2000, "address_reuse": 300, "destroyed": 500, "options_checked": 500, "behaviour_checked": 300, "overridden": 100, "slotted": 500, "group_accesses": 5000, "group_emissions": 3000, "group_address_reuse": 200, "two_groups": 300}

MODES = ["immediate", "queued", "latest-only"]
SHAPES = ["plain", "plain", "slots", "slots", "slots_noweak", "slots_dict", "locked", "slots_locked", "eq", "falsy", "getattr"]


def make_signal(o):
    return Signal(
        *[str] * o["n"], name=o["name"], description=o["desc"], reemission=o["mode"],
        check_nargs_on_connect=o["cn"], check_types_on_connect=o["ct"],
    )


def build(specs):
    classes = []
    for k, sp in enumerate(specs):
        base = classes[sp["base"]] if sp["base"] is not None else object
        ns = {"__module__": "vh.fake", "__qualname__": f"C{k}"}
        has_weak = getattr(base, "__weakrefoffset__", 0) != 0
        has_dict = getattr(base, "__dictoffset__", 0) != 0
        sh = sp["shape"]
        if sh.startswith("slots"):
            sl = [f"x{k}"]
            if not has_weak and sh != "slots_noweak":
                sl.append("__weakref__")
            if not has_dict and sh == "slots_dict":
                sl.append("__dict__")
            ns["__slots__"] = tuple(sl)
        if sh.endswith("locked"):

            def locked(self, name, value):
                raise AttributeError(f"cannot set {name}")

            ns["__setattr__"] = locked
        if sh == "eq":
            ns["__eq__"] = lambda self, other: True  # (makes it unhashable)
        if sh == "falsy":
            ns["__bool__"] = lambda self: False
            ns["__len__"] = lambda self: 0
            ns["__hash__"] = lambda self: 7
            ns["__eq__"] = lambda self, other: isinstance(other, object)
        if sh == "getattr":

            def ga(self, name):
                raise AttributeError(name)

            ns["__getattr__"] = ga
        for attr, o in sp["sigs"].items():
            ns[attr] = make_signal(o)
        bases = (base,)
        if sp["mixin"] is not None and classes[sp["mixin"]] is not base:
            bases = (base, classes[sp["mixin"]]) if base is not object else (classes[sp["mixin"]],)
        try:
            cls = type(f"C{k}", bases, ns)
        except TypeError:  # (layout conflict of slots, or no consistent order)
            for attr in sp["sigs"]:
                ns[attr] = make_signal(sp["sigs"][attr])
            cls = type(f"C{k}", (base,), ns)
        classes.append(cls)
    return classes


def effective(specs, classes, k):
    """attribute -> options of the most derived declaration"""
    out = {}
    for c in reversed(classes[k].__mro__):
        if c in classes:
            out.update(specs[classes.index(c)]["sigs"])
    return out


class Live:
    def __init__(self, obj, cls_i):
        self.obj, self.k = obj, cls_i
        self.sigs = {}
        self.conn = {}  # attr -> [callback id]


def run_objects(case, ctx):
    specs = case["classes"]
    classes = build(specs)
    eff = [effective(specs, classes, k) for k in range(len(specs))]
    live = {}
    orphans = []  # signal instances whose objects are gone
    log = []
    n_cb = 0
    keep = []
    seen_ids = {}
    overridden = {(k, a) for k, sp in enumerate(specs) for a in sp["sigs"] if any(hasattr(b, a) for b in classes[k].__bases__)}

    def access(L, attr, check=True):
        s = getattr(L.obj, attr)
        ctx.count("accesses")
        o = eff[L.k][attr]
        ctx.check(isinstance(s, SignalInstance), lambda: f"{attr} of an object gives {s!r}")
        if attr in L.sigs:
            ctx.check(s is L.sigs[attr], lambda: f"second access of {attr} (class shape {specs[L.k]['shape']}) gives another SignalInstance")
            return s
        for M in live.values():
            for a, t in M.sigs.items():
                ctx.check(s is not t, lambda: f"{attr} of an object of class {L.k} is also {a} of an object of class {M.k}")
        ctx.check(all(s is not t for t, _ in orphans), lambda: f"{attr} of a new object is the SignalInstance of an object that is gone")
        ctx.eq(len(s), 0, lambda: f"connections of {attr} of a new object of class {L.k} ({specs[L.k]['shape']})")
        ctx.check(s.instance is L.obj, lambda: f"{attr}.instance is {s.instance!r}")
        want_name = o["name"] or attr
        ctx.eq(s.name, want_name, "name of signal")
        ctx.eq(s.description, o["desc"], "description of signal")
        ctx.eq(len(s.signature.parameters), o["n"], lambda: f"parameters of the signature of {attr}")
        ctx.count("options_checked")
        if (L.k, attr) in overridden:
            ctx.count("overridden")
        if specs[L.k]["shape"].startswith("slots"):
            ctx.count("slotted")
        L.sigs[attr] = s
        L.conn[attr] = []
        return s

    def emission(s, want, n, how):
        log.clear()
        args = tuple(range(100, 100 + n))
        {"emit": s.emit, "call": s, "fast": s.emit_fast}[how](*args)
        ctx.count("emissions")
        ctx.count("calls", len(log))
        ctx.eq(log, [(c, args) for c in want], "callbacks called by an emission")

    def create(slot, k):
        obj = classes[k]()
        if id(obj) in seen_ids:
            ctx.count("address_reuse")
        seen_ids[id(obj)] = 1
        live[slot] = Live(obj, k)

    def destroy(slot, keep_sig, cycle):
        L = live.pop(slot, None)
        if L is None:
            return
        ctx.count("destroyed")
        weakable = getattr(classes[L.k], "__weakrefoffset__", 0)
        r = weakref.ref(L.obj) if weakable else None
        sigs = L.sigs
        if keep_sig and weakable:
            orphans.extend((s, (L.conn[a], eff[L.k][a]["n"])) for a, s in sigs.items())
        if cycle:
            box = [L.obj]
            box.append(box)
            del box
        L.obj = None
        del L
        sigs.clear()
        del sigs
        if cycle:
            gc.collect()
        if r is not None:
            if r() is not None:
                gc.collect()
            ctx.check(r() is None, "an object with signals is not freed when the last reference is gone")

    def behaviour(L, attr):
        """The options have an effect."""
        o = eff[L.k][attr]
        s = access(L, attr)
        if L.conn[attr]:
            return
        ctx.count("behaviour_checked")
        n = o["n"]
        ns = {}
        exec(f"def too_many({', '.join(f'a{i}' for i in range(n + 1))}): pass\ndef typed(a: int, *args): pass", ns)
        r = attempt(s.connect, ns["too_many"])
        ctx.eq(r.ok, not o["cn"], lambda: f"connecting a callback with {n + 1} parameters to a signal with {n} and check_nargs_on_connect={o['cn']}: {r}; accepted")
        s.disconnect()
        if n:
            r = attempt(s.connect, ns["typed"])
            ctx.eq(r.ok, not o["ct"], lambda: f"connecting a callback that takes int to a signal of str with check_types_on_connect={o['ct']}: {r}; accepted")
            s.disconnect()
        # re-emission order
        order = []

        def first(*a):
            order.append(("first", len(order)))
            if len(order) == 1:
                s.emit(*range(n))

        def second(*a):
            order.append(("second", len(order)))

        s.connect(first)
        s.connect(second)
        s.emit(*range(n))
        names = [x for x, _ in order]
        want = {"immediate": ["first", "first", "second", "second"], "queued": ["first", "second", "first", "second"], "latest-only": ["first", "first", "second"]}[o["mode"]]
        ctx.eq(names, want, lambda: f"order of calls with reemission={o['mode']!r}")
        s.disconnect()

    for op in case["ops"]:
        k = op[0]
        if k == "new":
            destroy(op[1], False, False)
            create(op[1], op[2])
        elif k == "churn":  # destroy and re-create at once, several times
            for _ in range(op[3]):
                destroy(op[1], op[4], False)
                create(op[1], op[2])
                L = live[op[1]]
                for attr in eff[L.k]:
                    s = access(L, attr)
                    n_cb += 1
                    s.connect(lambda *a, c=n_cb: log.append((c, a)))
                    L.conn[attr].append(n_cb)
                del L
                s = None
        elif k == "del":
            destroy(op[1], op[2], op[3])
        elif op[1] in live:
            L = live[op[1]]
            attrs = list(eff[L.k])
            attr = attrs[op[2] % len(attrs)]
            if k == "access":
                s = access(L, attr)
                ctx.check(isinstance(getattr(classes[L.k], attr), Signal), "access on the class gives the Signal")
            elif k == "connect":
                s = access(L, attr)
                n_cb += 1
                f = eval("lambda *a: log.append((c, a))", {"log": log, "c": n_cb})
                keep.append(f)
                s.connect(f)
                L.conn[attr].append(n_cb)
            elif k == "disconnect":
                s = access(L, attr)
                if L.conn[attr]:
                    s.disconnect()
                    L.conn[attr].clear()
            elif k == "emit":
                s = access(L, attr)
                emission(s, L.conn[attr], eff[L.k][attr]["n"], op[3])
            elif k == "behave":
                behaviour(L, attr)
            s = None
            del L
    if sum(1 for L in live.values() if any(L.conn.values())) >= 2:
        ctx.nontrivial()
    for L in list(live.values()):
        for attr in eff[L.k]:
            emission(access(L, attr), L.conn[attr], eff[L.k][attr]["n"], "emit")
    L = None
    for s, (want, n) in orphans:
        emission(s, want, n, "emit")
        ctx.check(s.instance is None, lambda: f"instance of the signal of an object that is gone: {s.instance!r}")
    # unconnected options are those of the declaration in the end, too
    ctx.eq(Counter(id(s) for L in live.values() for s in L.sigs.values()).most_common(1)[0][1] if any(L.sigs for L in live.values()) else 1, 1, "objects sharing a SignalInstance")


def gen_objects(rng, i, tier):
    classes = []
    names = ["a", "b", "c", "changed"]

    def opts():
        return {
            "n": rng.randint(0, 3), "name": rng.choice([None, None, None, "other", "a", "x y", "_under", "__dunder__", "é"]), "desc": rng.choice(["", "text", "déjà"]),
            "mode": rng.choice(MODES), "cn": rng.random() < 0.7, "ct": rng.random() < 0.2,
        }

    for k in range(rng.randint(1, 4)):
        base = rng.randrange(k) if k and rng.random() < 0.6 else None
        sigs = {a: opts() for a in rng.sample(names, rng.randint(0 if base is not None else 1, 3))}
        classes.append({"base": base, "mixin": rng.randrange(k) if k and rng.random() < 0.3 else None, "shape": rng.choice(SHAPES), "sigs": sigs})
    ops = [["new", s, rng.randrange(len(classes))] for s in range(3)]
    for _ in range(rng.randint(5, 40)):
        x = rng.random()
        s = rng.randrange(4)
        if x < 0.12:
            ops.append(["new", s, rng.randrange(len(classes))])
        elif x < 0.2:
            ops.append(["del", s, rng.random() < 0.3, rng.random() < 0.15])
        elif x < 0.24:
            ops.append(["churn", s, rng.randrange(len(classes)), rng.randint(1, 6), rng.random() < 0.2])
        elif x < 0.45:
            ops.append(["access", s, rng.randrange(4)])
        elif x < 0.7:
            ops.append(["connect", s, rng.randrange(4)])
        elif x < 0.74:
            ops.append(["disconnect", s, rng.randrange(4)])
        elif x < 0.8:
            ops.append(["behave", s, rng.randrange(4)])
        else:
            ops.append(["emit", s, rng.randrange(4), rng.choice(["emit", "call", "fast"])])
    return {"classes": classes, "ops": ops}


# ------------------------------------------------------------------ signal groups of objects


class G0(SignalGroup):
    a = Signal(int)
    b = Signal(str, description="b of G0")


class G1(G0):
    b = Signal(int, int, description="b of G1", reemission="queued")
    c = Signal(name="see")


class G2(SignalGroup):
    a = Signal(name="other")


class G3(SignalGroup):
    # (named like fields of the classes below)
    f0 = Signal(int, int, int, description="f0 of G3")
    g1 = Signal(name="gee", description="g1 of G3")


GROUPS = [G0, G1, G2, G3]
GROUP_SIGNALS = [{"a": (1, "a", ""), "b": (1, "b", "b of G0")}, {"a": (1, "a", ""), "b": (2, "b", "b of G1"), "c": (0, "see", "")}, {"a": (0, "other", "")}, {"f0": (3, "f0", "f0 of G3"), "g1": (0, "gee", "g1 of G3")}]


def build_groups(specs):
    """Classes, and for each: namespace -> {signal name: (number of arguments, name, description)}"""
    classes, want = [], []
    for k, sp in enumerate(specs):
        base = classes[sp["base"]] if sp["base"] is not None else None
        ns = {"__module__": "vh.fake", "__qualname__": f"D{k}", "__annotations__": {}}
        w = {n: dict(v) for n, v in want[sp["base"]].items()} if base else {}
        fields = {f"f{k}": int, f"g{k}": str}
        for n, collect in list(w.items()):
            if "collect" in collect:
                w[n] = {**{f: (2, f, "") for f in fields}, **collect}
        for d in sp["desc"]:
            ns[d["ns"]] = SignalGroupDescriptor(
                cache_on_instance=d["cache"], collect_fields=d["collect"] or d["group"] is None, signal_group_class=None if d["group"] is None else GROUPS[d["group"]]
            )
            ns["__annotations__"][d["ns"]] = ClassVar[Any]
            names = dict(GROUP_SIGNALS[d["group"]]) if d["group"] is not None else {}
            if d["collect"] or d["group"] is None:
                names["collect"] = None
                inherited = [f for j in range(k + 1) if j in sp["line"] for f in (f"f{j}", f"g{j}")]
                names.update({f: (2, f, "") for f in inherited if f not in names})
            w[d["ns"]] = names
        sh = sp["shape"]
        if sh == "falsy":
            ns["__bool__"] = lambda self: False
        elif sh == "locked":

            def locked(self, name, value):
                if name.startswith(("f", "g")):
                    return object.__setattr__(self, name, value)
                raise AttributeError(f"cannot set {name}")

            ns["__setattr__"] = locked
        for f, t in fields.items():
            ns["__annotations__"][f] = t
            ns[f] = 0 if t is int else ""
        cls = type(f"D{k}", (base,) if base else (), ns)
        kw = {"slots": True, "weakref_slot": sh != "slots_noweak" and base is None} if sh.startswith("slots") else {}
        cls = dataclasses.dataclass(eq=sp["eq"], **kw)(cls)
        classes.append(cls)
        want.append(w)
    return classes, want


def run_groups(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run_groups(case, ctx)


def _run_groups(case, ctx):
    specs = case["classes"]
    classes, want = build_groups(specs)
    live, log, keep, seen_ids = {}, [], [], set()
    n_cb = 0

    def group(L, n):
        g = getattr(L.obj, n)
        ctx.count("group_accesses")
        ctx.check(isinstance(g, SignalGroup), lambda: f"{n} of an object gives {g!r}")
        if n in L.sigs:
            ctx.check(g is L.sigs[n], lambda: f"second access of {n} (class {specs[L.k]}) gives another group")
            return g
        for M in live.values():
            for m, h in M.sigs.items():
                ctx.check(g is not h, lambda: f"{n} of an object of class {L.k} is also {m} of an object of class {M.k}")
        ctx.check(g.all.instance is L.obj, lambda: f"instance of the group: {g.all.instance!r}")
        w = {k: v for k, v in want[L.k][n].items() if k != "collect"}
        ctx.eq(sorted(g), sorted(w), lambda: f"signals of {n} of an object of class {L.k} ({specs[L.k]})")
        for k, (nargs, name, desc) in w.items():
            s = g[k]
            ctx.check(g[k] is s and s.instance is g, lambda: f"{n}[{k!r}] is not one signal of the group: {s!r}")
            if k not in ("all", "connect"):
                ctx.check(getattr(g, k) is s, lambda: f"{n}.{k} is not {n}[{k!r}]")
            ctx.eq((len(s.signature.parameters), s.name, s.description), (nargs, name, desc), lambda: f"parameters, name, description of {n}[{k!r}]")
            ctx.eq(len(s), 0, lambda: f"connections of {n}[{k!r}] of a new object")
        ctx.eq(len(g.all), 0, "connections of a new group")
        L.sigs[n] = g
        L.conn[n] = {}
        return g

    def create(slot, k):
        obj = classes[k]()
        if id(obj) in seen_ids:
            ctx.count("group_address_reuse")
        seen_ids.add(id(obj))
        live[slot] = Live(obj, k)

    def destroy(slot):
        L = live.pop(slot, None)
        if L is not None:
            weakable = getattr(classes[L.k], "__weakrefoffset__", 0)
            r = weakref.ref(L.obj) if weakable else (lambda: None)
            L.obj = None
            L.sigs.clear()
            del L
            if r() is not None:
                gc.collect()
            ctx.check(r() is None, "an object with a signal group is not freed when the last reference is gone")

    def connect(L, n, k):
        nonlocal n_cb
        n_cb += 1
        g = group(L, n)

        def cb(*a, c=n_cb):
            log.append((c, [(e.signal.name, e.args) for e in a] if a and isinstance(a[0], EmissionInfo) else a))

        keep.append(cb)
        (g if k is None else g[k]).connect(cb)
        L.conn[n].setdefault(k, []).append(n_cb)

    def emission(L, n, k):
        g = group(L, n)
        nargs, name, _ = want[L.k][n][k]
        args = tuple(range(nargs))
        log.clear()
        g[k].emit(*args)
        ctx.count("group_emissions")
        exp = [(c, args) for c in L.conn[n].get(k, ())] + [(c, [(name, args)]) for c in L.conn[n].get(None, ())]
        ctx.eq(sorted(log, key=lambda e: e[0]), sorted(exp, key=lambda e: e[0]), lambda: f"callbacks called by an emission of {n}[{k!r}]")

    for op in case["ops"]:
        if op[0] == "new":
            destroy(op[1])
            create(op[1], op[2])
        elif op[0] == "del":
            destroy(op[1])
        elif op[1] in live:
            L = live[op[1]]
            names = sorted(want[L.k])
            n = names[op[2] % len(names)]
            keys = sorted(k for k in want[L.k][n] if k != "collect")
            k = keys[op[3] % len(keys)]
            if op[0] == "access":
                group(L, n)
                ctx.check(isinstance(getattr(classes[L.k], n), SignalGroupDescriptor), "access on the class gives the descriptor")
            elif op[0] == "connect":
                connect(L, n, None if op[4] else k)
            else:
                emission(L, n, k)
            del L
    if sum(1 for L in live.values() if any(L.conn.values())) >= 2:
        ctx.nontrivial()
    for L in list(live.values()):
        for n in want[L.k]:
            for k in want[L.k][n]:
                if k != "collect":
                    emission(L, n, k)
        ctx.count("two_groups", len(want[L.k]) > 1)


def gen_groups(rng, i, tier):
    classes = []
    for k in range(rng.randint(1, 4)):
        base = rng.randrange(k) if k and rng.random() < 0.5 else None
        descs = []
        for ns in rng.sample(["events", "other", "more"], rng.choice([1, 1, 1, 2, 2, 3]) if base is None else rng.choice([0, 0, 1])):
            g = rng.choice([None, 0, 1, 2, 3])
            descs.append({"ns": ns, "cache": rng.random() < 0.6, "collect": rng.random() < 0.5, "group": g})
        shape = rng.choice(["plain", "plain", "slots", "slots_noweak", "falsy", "locked"])
        if base is not None:
            shape = classes[base]["shape"] if classes[base]["shape"].startswith("slots") else rng.choice(["plain", "falsy"])
        classes.append({"base": base, "shape": shape, "eq": rng.random() < 0.5, "desc": descs, "line": [k] + (classes[base]["line"] if base is not None else [])})
    ops = [["new", s, rng.randrange(len(classes))] for s in range(3)]
    for _ in range(rng.randint(5, 30)):
        x = rng.random()
        s = rng.randrange(4)
        if x < 0.2:
            ops.append(["new", s, rng.randrange(len(classes))])
        elif x < 0.27:
            ops.append(["del", s])
        else:
            ops.append([rng.choice(["access", "connect", "connect", "emit"]), s, rng.randrange(12), rng.randrange(12), rng.random() < 0.4])
    return {"classes": classes, "ops": ops}


WORKLOADS = [
    Workload("objects", gen_objects, run_objects, quick=1500, thorough=40000),
    Workload("groups", gen_groups, run_groups, quick=1000, thorough=20000),
]
