"""C29: group descriptors honour their options, independently of other classes."""
import copy
import dataclasses
import gc
import pickle
import sys
import warnings
from typing import Any, ClassVar

import attrs
import msgspec
import pydantic

from psygnal import Signal, SignalGroup, SignalGroupDescriptor, evented
from psygnal._group_descriptor import evented_setattr
from vh.core import Workload, attempt

PROP = "C29"
TECHNIQUE = "runtime monitoring: groups of classes that share group classes, aliases and bases in random combinations of descriptor options, created and used in random order, compared with a model of the documented name resolution and with an online monitor of all emissions"
RULE = (
    "2-4 classes per case (dataclass, attrs, msgspec, pydantic; slots, subclasses that inherit or replace the descriptor) with signal_aliases (mappings, functions), 2-3 custom signal group classes "
    "(with own signals, own aliases, subclassing each other), collect_fields, patch_setattr with and without a manual evented_setattr, cache_on_instance, warn_on_no_fields; random histories of first "
    "accesses, assignments, listeners, connect_setattr, copies and object deaths; `churn`: classes of the same name that are created, used and freed one after the other; non-trivial: cases in which two classes emit, distinct by case"
)
REQUIRE = {
    "emitted": 3000, "silent": 2000, "groups": 3000, "shared": 60, "custom_eq": 500, "uncollected": 500, "unpatched": 200, "manual": 150, "aliased": 600, "class_aliased": 300, "own_signal": 300,
    "maxargs": 300, "copies": 200, "pickles": 30, "no_fields": 30, "replaced": 200, "churned": 300,
}
ASSUMPTIONS = ["no two fields of a class are mapped to the same signal, and a subclass keeps the namespace and the patch_setattr option of its base"]

FUNCS = {
    "upper": lambda f: f.upper(),
    "changed": lambda f: f"{f}_changed",
    "some": lambda f: None if f in "ac" else f,
    "none": lambda f: None,
}


EQS = {"never": lambda a, b: False, "always": lambda a, b: True, "parity": lambda a, b: (a - b) % 2 == 0}


class Spec:
    """What a class should do, according to the documentation."""

    def __init__(self, case, k, classes):
        self.c = c = case["classes"][k]
        self.k = k
        base = c["base"]
        self.base = classes[base] if base is not None else None
        self.fields = (self.base.fields if self.base else []) + c["fields"]
        self.desc = c["desc"] if c["desc"] is not None else self.base.desc
        d = self.desc
        g = case["groups"][d["group"]] if d["group"] is not None else None
        own, cls_al = [], {}
        while g is not None:
            own = own + [s for s in g["signals"] if s not in own]
            cls_al = {**g["aliases"], **cls_al}
            g = case["groups"][g["base"]] if g["base"] is not None else None
        self.own = own
        self.names = {}
        for f in self.fields:
            al = d["aliases"]
            if isinstance(al, dict) and f in al:
                n = al[f]
            elif isinstance(al, str):
                n = FUNCS[al](f)
            else:
                n = cls_al.get(f, f)
            if not d["collect"] and n not in own:
                n = None
            self.names[f] = n
        self.signals = set(own) | ({n for n in self.names.values() if n is not None} if d["collect"] else set())
        self.created = self.signals - set(own)
        self.emits = d["patch"] or d["manual"] is not None
        self.clash = len([n for n in self.names.values() if n]) != len({n for n in self.names.values() if n})


def make_groups(case):
    out = []
    for k, g in enumerate(case["groups"]):
        base = out[g["base"]] if g["base"] is not None else SignalGroup
        out.append(type(SignalGroup)(f"G{k}", (base,), {s: Signal(object, object) for s in g["signals"]}, signal_aliases=dict(g["aliases"])))
    return out


def descriptor_kwargs(d, groups, dicts):
    kw = {"cache_on_instance": d["cache"], "collect_fields": d["collect"], "patch_setattr": d["patch"], "warn_on_no_fields": d["warn"]}
    if d["group"] is not None:
        kw["signal_group_class"] = groups[d["group"]]
    if isinstance(d["aliases"], dict):
        # (the same dict for all that have equal ones)
        kw["signal_aliases"] = dicts.setdefault(repr(d["aliases"]), dict(d["aliases"]))
    elif d["aliases"] is not None:
        kw["signal_aliases"] = FUNCS[d["aliases"]]
    if d["eq"]:
        kw["equality_operators"] = {f: EQS[e] for f, e in d["eq"].items()}
    return kw


def make_class(case, k, classes, groups, specs, dicts):
    c = case["classes"][k]
    kind = case["kind"]
    base = classes[c["base"]] if c["base"] is not None else None
    name = "C29_0" if case["same_name"] else f"C29_{k}"
    ann = {f: Any for f in c["fields"]}
    ns = {"__module__": __name__, "__qualname__": name, "__annotations__": ann}
    d = c["desc"]
    if d is not None and not c["decorator"]:
        ns["events"] = SignalGroupDescriptor(**descriptor_kwargs(d, groups, dicts))
        ann["events"] = ClassVar[Any]
        if d["manual"] is not None:
            plain = {"pydantic": pydantic.BaseModel.__setattr__}.get(kind, object.__setattr__)

            def own(self, n, v):
                plain(self, n, v)

            al = d["aliases"] is not None or (d["group"] is not None and specs[k].desc["group"] is not None)
            kw = {"with_aliases": False} if d["manual"] == "noalias" and not al else {}
            ns["__setattr__"] = evented_setattr("events", own, **kw) if d["manual"] == "func" else evented_setattr("events", **kw)(own)
    if kind == "dataclass":
        for f in c["fields"]:
            ns[f] = 0
        cls = dataclasses.dataclass(slots=c["slots"])(type(name, (base,) if base else (), ns))
    elif kind == "attrs":
        for f in c["fields"]:
            ns[f] = attrs.field(default=0)
        own = ns.get("__setattr__")
        cls = attrs.define(type(name, (base,) if base else (), ns), slots=c["slots"])
        assert own is None or cls.__setattr__ is own
    elif kind == "msgspec":
        for f in c["fields"]:
            ns[f] = 0
        cls = type(msgspec.Struct)(name, (base or msgspec.Struct,), ns, weakref=True)
    else:
        for f in c["fields"]:
            ns[f] = 0
        cls = type(pydantic.BaseModel)(name, (base or pydantic.BaseModel,), ns)
    if d is not None and c["decorator"]:
        kw = descriptor_kwargs(d, groups, dicts)
        kw.pop("collect_fields"), kw.pop("patch_setattr"), kw.pop("signal_group_class", None)
        cls = evented(**kw)(cls)
    setattr(sys.modules[__name__], name, cls)  # (pickle looks it up)
    return cls


def run(case, ctx):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            _run(case, ctx, ws)
        finally:
            for k in range(len(case["classes"])):
                sys.modules[__name__].__dict__.pop(f"C29_{k}", None)


def _run(case, ctx, ws):
    groups = make_groups(case)
    specs = []
    for k in range(len(case["classes"])):
        specs.append(Spec(case, k, specs))
    classes = []
    dicts = {}
    for k in range(len(case["classes"])):
        classes.append(make_class(case, k, classes, groups, specs, dicts))
    objs = {}  # key -> (object, class index, expected listeners)
    log = []
    strong = []
    accessed = set()
    emitters = set()

    def access(key):
        o, k, L = objs[key]
        s = specs[k]
        g = o.events
        if k not in accessed:
            ctx.count("no_fields", not s.signals)
            accessed.add(k)
            ctx.count("groups")
            ctx.count("uncollected", not s.desc["collect"])
            ctx.count("unpatched", not s.emits)
            ctx.count("manual", s.desc["manual"] is not None)
            ctx.count("replaced", s.base is not None and s.c["desc"] is not None)
        ctx.check(o.events is g, "the group of an object changed")
        ctx.check(g.all.instance is o, "group.all.instance is not the object")
        want = groups[s.desc["group"]] if s.desc["group"] is not None else SignalGroup
        ctx.check(isinstance(g, want), lambda: f"the group is a {type(g).__mro__}, expected a {want}")
        ctx.eq(set(g), s.signals, lambda: f"names of the signals of class {k} with fields {s.fields}")
        for n in g:
            ctx.check(g[n].name == n and getattr(g, n) is g[n], lambda: f"signal {n} is {g[n]!r}")
        for other, (x, kx, _) in objs.items():
            if other != key:
                ctx.check(x.events is not g, "two objects share their group")
        return g

    def check_log(want, what):
        got = sorted(log, key=repr)
        log.clear()
        ctx.eq(got, sorted(want, key=repr), what)

    def assign(key, f, v, what="assignment"):
        o, k, L = objs[key]
        s = specs[k]
        old = getattr(o, f)
        setattr(o, f, v)
        ctx.eq(getattr(o, f), v, "value of the field")
        n = s.names[f]
        want = []
        e = (s.desc["eq"] or {}).get(f)
        ctx.count("custom_eq", e is not None and n is not None)
        equal = EQS[e](v, old) if e else old == v
        # (the class is patched when the events of one of its objects are accessed)
        if n is not None and s.emits and not equal:
            want = [(key, tag, n, (v, old)) for tag in L.get(n, [])] + [(key, tag, n, (v, old)) for tag in L.get(None, [])]
        ctx.count("emitted" if want else "silent")
        if want:
            emitters.add(k)
            ctx.count("aliased", n != f)
            al = s.desc["aliases"]
            ctx.count("class_aliased", n != f and not isinstance(al, str) and f not in (al or {}))
            ctx.count("own_signal", n in s.own)
        check_log(want, lambda: f"emissions by the {what} of {f} = {v!r} (was {old!r}) of object {key} of class {k}, mapped to {n}; (object, listener, signal, arguments)")

    def listen(key, n, tag):
        g = access(key)
        if n is None:

            def on_group(info, key=key, tag=tag):
                log.append((key, tag, info.signal.name, info.args))

            strong.append(on_group)
            g.connect(on_group)
        else:

            def on(new, old, key=key, tag=tag, n=n):
                log.append((key, tag, n, (new, old)))

            strong.append(on)
            g[n].connect(on)
        objs[key][2].setdefault(n, []).append(tag)

    tags = 0
    for op in case["ops"]:
        key = op[1]
        if op[0] == "new":
            if key in objs:
                del objs[key]
                strong.clear()
                gc.collect() if op[3] else None
            objs[key] = (classes[op[2] % len(classes)](), op[2] % len(classes), {})
            continue
        if key not in objs:
            continue
        o, k, L = objs[key]
        s = specs[k]
        if op[0] == "access":
            access(key)
        elif op[0] == "listen":
            names = sorted(n for n in s.names.values() if n is not None) if op[2] % 3 else [*sorted(s.signals), None]
            if not names:
                continue
            tags += 1
            listen(key, names[op[2] % len(names)], tags)
        elif op[0] == "set" and s.fields:
            assign(key, s.fields[op[2] % len(s.fields)], op[3])
        elif op[0] == "emit" and s.signals:
            n = sorted(s.signals)[op[2] % len(s.signals)]
            access(key)[n].emit(op[3], None)
            check_log([(key, t, n, (op[3], None)) for t in [*L.get(n, []), *L.get(None, [])]], f"emission of {n}")
        elif op[0] == "setattr":
            # signals of fields set the new value only
            mine = [(f, n) for f, n in s.names.items() if n in s.created]
            if not mine or not s.emits:
                continue
            if s.desc["eq"]:
                continue
            f, n = mine[op[2] % len(mine)]
            g = access(key)
            t = type("T", (), {"v": None, "w": None})()
            # (among other listeners, according to the priorities)
            prio = (0, 1, -1, 5)[op[2] % 4]
            seen = []

            def plain(*_, t=t, seen=seen):
                seen.append(t.v)

            g[n].connect(plain)
            g[n].connect_setattr(t, "v", priority=prio)
            g[n].connect_setattr(t, "w", maxargs=None)
            old = getattr(o, f)
            assign(key, f, op[3])
            g[n].disconnect(plain)
            if old != op[3]:
                ctx.count("setattr_priorities", prio != 0)
                ctx.eq(seen, [op[3] if prio > 0 else None], f"the attribute set by connect_setattr(priority={prio}), as seen by a listener with priority 0")
                ctx.count("maxargs")
                ctx.eq((t.v, t.w), (op[3], (op[3], old)), "attributes set by connect_setattr (new value), and with maxargs=None (both)")
            g[n].disconnect_setattr(t, "v")
            g[n].disconnect_setattr(t, "w")
        elif op[0] == "copy" and s.fields:
            # without caching on the object, copies have events of their own
            how = op[3]
            if how in ("copy", "pickle") and s.desc["cache"] or (how == "pickle" and case["same_name"]):
                continue
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how]
            access(key)
            r = attempt(f, o)
            ctx.check(r.ok, lambda: f"{how} of an object of class {k}, cache_on_instance={s.desc['cache']}: {r}")
            ctx.count("pickles", how == "pickle")
            ctx.count("copies")
            ctx.eq([getattr(r.val, x) for x in s.fields], [getattr(o, x) for x in s.fields], f"fields of a copy ({how})")
            objs["c"] = (r.val, k, {})
            del r, o
            access("c")
            x = s.fields[op[2] % len(s.fields)]
            assign("c", x, 77, f"{how}: assignment to the copy")
            assign(key, x, 78, f"{how}: assignment to the original")
            tags += 1
            if s.signals:
                listen("c", sorted(s.signals)[0], tags)
            assign("c", x, 79, f"{how}: assignment to the copy")
            del objs["c"]
            strong[:] = strong
    if len(emitters) > 1:
        ctx.nontrivial()
    for k1 in emitters:
        for k2 in emitters:
            if k1 < k2 and specs[k1].desc["group"] is not None and specs[k1].desc["group"] == specs[k2].desc["group"]:
                ctx.count("shared")
    # (the patched method of a base may use the group of a class first)
    for name in {str(c) for c in classes}:
        n = sum(str(w.message).startswith(f"No mutable fields found on class {name}:") for w in ws)
        may = [k for k, s in enumerate(specs) if str(classes[k]) == name and not s.signals and s.desc["warn"]]
        must = [k for k in may if k in accessed]
        ctx.check(len(must) <= n <= len(may), lambda: f"{n} warnings about {name} having no fields; expected for classes {must} of {may}")
    for r, al in dicts.items():
        ctx.eq(repr(al), r, "a mapping that was passed as signal_aliases")
    # the group classes themselves are as before
    for k, g in enumerate(case["groups"]):
        own, al = [], {}
        j = k
        while j is not None:
            own += case["groups"][j]["signals"]
            al = {**case["groups"][j]["aliases"], **al}
            j = case["groups"][j]["base"]
        ctx.eq(set(groups[k]()), set(own), "signals of a group class after it was used by descriptors")
    # and a new class that uses them without options
    for k, g in enumerate(groups):
        D = type("D", (), {"__annotations__": {"a": int, "b": int}, "a": 0, "b": 0, "events": SignalGroupDescriptor(signal_group_class=g)})
        D.__annotations__["events"] = ClassVar[Any]
        D = dataclasses.dataclass(D)
        own, al = [], {}
        j = k
        while j is not None:
            own += case["groups"][j]["signals"]
            al = {**case["groups"][j]["aliases"], **al}
            j = case["groups"][j]["base"]
        want = {*own, *(n for n in (al.get(f, f) for f in ("a", "b")) if n is not None)}
        ctx.eq(set(D().events), want, "signals of a class that uses a group class without further options")


FIELDS = list("abcde")


def gen_desc(rng, groups, kind, pool):
    group = rng.choice([0, 0, *range(len(groups))]) if rng.random() < 0.75 else None
    collect = group is None or rng.random() < 0.65
    x = rng.random()
    aliases = None
    if x < 0.35:
        aliases = dict(rng.choice(pool))
    elif x < 0.43 and collect:
        aliases = rng.choice(list(FUNCS))
    patch = rng.random() < 0.8
    manual = None
    if not patch and kind in ("dataclass", "attrs", "pydantic") and rng.random() < 0.5:
        manual = rng.choice(["func", "deco", "noalias"])
    return {"group": group, "collect": collect, "aliases": aliases, "patch": patch, "manual": manual, "cache": rng.random() < 0.5, "warn": rng.random() < 0.7,
        "eq": {f: rng.choice(list(EQS)) for f in FIELDS if rng.random() < 0.3} if rng.random() < 0.35 else None,
    }


def gen(rng, i, tier):
    while True:
        case = gen_case(rng)
        specs = []
        for k in range(len(case["classes"])):
            specs.append(Spec(case, k, specs))
        if not any(s.clash for s in specs):
            return case


def gen_case(rng):
    kind = rng.choice(["dataclass", "dataclass", "attrs", "msgspec", "pydantic"])
    groups = []
    for k in range(rng.randint(1, 3)):
        groups.append({
            "signals": rng.sample(["own1", "own2", "own3", "a", "b"], rng.randint(1, 3)) if k == 0 or rng.random() < 0.8 else [],
            "aliases": {f: rng.choice([None, f"cls_{f}", f"cls_{f}", "own1", "own3"]) for f in FIELDS if rng.random() < 0.35},
            "base": rng.randrange(k) if k and rng.random() < 0.5 else None,
        })
    pool = [{f: rng.choice([None, f"{f}_x", f"on_{f}", "own1", "own2"]) for f in FIELDS if rng.random() < 0.35} for _ in range(2)]
    classes = []
    for k in range(rng.randint(2, 4)):
        base = rng.randrange(k) if k and rng.random() < 0.35 else None
        used = set()
        j = base
        while j is not None:
            used |= set(classes[j]["fields"])
            j = classes[j]["base"]
        fields = [f for f in FIELDS if f not in used]
        fields = sorted(rng.sample(fields, min(len(fields), rng.choice([0, 1, 2, 2, 3]))))
        desc = None
        decorator = False
        if base is None or rng.random() < 0.4:
            desc = gen_desc(rng, groups, kind, pool)
            if base is not None:
                j = base
                while classes[j]["desc"] is None:
                    j = classes[j]["base"]
                desc["patch"], desc["manual"] = classes[j]["desc"]["patch"], None
                if classes[j]["desc"]["manual"] is not None:
                    # (the inherited __setattr__ is used)
                    desc["manual"] = classes[j]["desc"]["manual"] if classes[j]["desc"]["manual"] != "noalias" else "func"
            elif rng.random() < 0.25:
                decorator = True
                desc.update(group=None, collect=True, patch=True, manual=None)
        classes.append({"base": base, "fields": fields, "desc": desc, "decorator": decorator,
            # (mixed, attrs' own pickling loses fields)
            "slots": rng.random() < 0.3 if base is None else classes[base]["slots"],
        })
    ops = []
    for _ in range(rng.randint(15, 60)):
        key = rng.randrange(4)
        x = rng.random()
        if x < 0.12:
            ops.append(["new", key, rng.randrange(len(classes)), rng.random() < 0.3])
        elif x < 0.2:
            ops.append(["access", key])
        elif x < 0.45:
            ops.append(["listen", key, rng.randrange(12)])
        elif x < 0.8:
            ops.append(["set", key, rng.randrange(10), rng.randrange(6)])
        elif x < 0.85:
            ops.append(["emit", key, rng.randrange(10), rng.choice([5, 6])])
        elif x < 0.93:
            ops.append(["setattr", key, rng.randrange(10), rng.choice([10, 11, 12])])
        else:
            ops.append(["copy", key, rng.randrange(10), rng.choice(["copy", "deepcopy", "pickle"])])
    for k in range(len(classes)):
        ops.insert(0, ["new", k, k, False])
    return {"kind": kind, "groups": groups, "classes": classes, "ops": ops, "same_name": rng.random() < 0.25}


def run_churn(case, ctx):
    """Classes come and go, and others of the same name (and maybe at the same address) come."""
    kind = case["kind"]
    counts = [0, 0]

    def plain(fields, base):
        ns = {"__module__": "vh.fake", "__qualname__": "C", "__annotations__": dict.fromkeys(fields, int), **dict.fromkeys(fields, 0)}
        root = {"msgspec": (msgspec.Struct,), "pydantic": (pydantic.BaseModel,)}.get(kind, ())
        bases = (base,) if base else root
        kw = {"weakref": True, "dict": True} if kind == "msgspec" and not base else {}
        cls = (type(bases[0]) if bases else type)("C", bases, ns, **kw)
        return {"dataclass": dataclasses.dataclass, "attrs": attrs.define}.get(kind, lambda c: c)(cls)

    base = None
    if case["base"]:
        base = evented(plain(["p", "q"], None), equality_operators={"p": EQS[case["base"]]} if case["base"] != "plain" else None)

    def use(step):
        fields = step["fields"]
        if base and step["sub"]:
            cls = plain(fields, base)
            names = ["p", "q", *fields]
            eqs = {"p": case["base"]} if case["base"] != "plain" else {}
        else:
            al = {f: n for f, n in step["aliases"].items() if f in fields}
            eqs = {f: e for f, e in step["eqs"].items() if f in fields}
            cls = evented(plain(fields, None), equality_operators={f: EQS[e] for f, e in eqs.items()} or None, signal_aliases=al or None)
            names = fields
        sig = {f: f if (base and step["sub"]) else step["aliases"].get(f, f) for f in names}
        o = cls()
        ctx.eq(sorted(o.events), sorted(sig[f] for f in names), lambda: f"signals of a {kind} class with the fields {names}")
        log = []
        o.events.connect(lambda info: log.append((info.signal.name, info.args)))
        for f in names:
            for v in step["values"]:
                old = getattr(o, f)
                setattr(o, f, v)
                differ = not EQS[eqs[f]](v, old) if f in eqs else v != old
                ctx.eq(log, [(sig[f], (v, old))] if differ else [], lambda: f"emissions when {f} of a {kind} class with the fields {names} is changed from {old} to {v}")
                counts[differ] += 1
                log.clear()
        return cls if step["keep"] else None

    kept = []
    for step in case["steps"]:
        kept.append(use(step))
        gc.collect()
    ctx.count("churned", len(case["steps"]))
    if all(counts):
        ctx.nontrivial()


def gen_churn(rng, i, tier):
    pool = list("abcd")
    return {
        "kind": rng.choice(["dataclass", "attrs", "msgspec", "pydantic"]), "base": rng.choice([None, "plain", "plain", *EQS]),
        "steps": [
            {
                "fields": rng.sample(pool, rng.randint(1, 3)), "sub": rng.random() < 0.6, "keep": rng.random() < 0.2, "values": [rng.randint(0, 3) for _ in range(3)],
                "eqs": {f: rng.choice(list(EQS)) for f in pool if rng.random() < 0.3}, "aliases": {f: f"{f}_sig" for f in pool if rng.random() < 0.2},
            }
            for _ in range(rng.randint(3, 8))
        ],
    }


WORKLOADS = [
    Workload("options", gen, run, quick=2000, thorough=80000, shrink=("ops",)),
    Workload("churn", gen_churn, run_churn, quick=120, thorough=3000, shrink=("steps",)),
]
