"""C16: events of EventedModel fields mirror value changes."""
import copy
import operator
import re
import warnings
from typing import Any, Literal, Optional

import dask.array as da
import numpy as np
import pydantic
from pydantic import ConfigDict, Field, PrivateAttr, field_validator

from psygnal import EmissionInfo, EventedModel
from vh.props.c15 import COMPUTED, lazy
from vh.core import Workload, attempt, relay
from vh.zoo import bomb, judged_equal

PROP = "C16"
TECHNIQUE = "runtime monitoring: lock-step comparison with a plain pydantic twin; emissions predicted from the twin's values (identity of the emitted value with the stored one checked)"
RULE = (
    "random models (constraints, converting / raising validators, defaults and factories, aliases, reserved field names, frozen fields and models, nested models, "
    "arrays, private attributes, validate_assignment, extra, reemission options, inheritance, dependent properties) and plain pydantic twins; random construction, "
    "valid and invalid assignments, deletions, copies (copy, deepcopy, model_copy), listeners of fields and of the group, listeners that assign other fields; outcome, values, "
    "dump and emissions compared after each; non-trivial: an emission, a suppressed emission and a failed assignment, distinct by case"
)
REQUIRE = {"assignments": 5000, "emitted": 2000, "suppressed": 500, "failed": 500, "group_emitted": 500, "linked": 100, "copies": 200, "reserved": 100, "arrays": 100, "lazy_arrays": 50, "nested": 100, "private": 100, "inherited": 300, "dependents": 300, "frozen": 100, "deleted": 100}
ASSUMPTIONS = ["pydantic 2 (pydantic 1 is not installed)"]


class InE(EventedModel):
    x: int = 1
    y: str = "y"


class InP(pydantic.BaseModel):
    x: int = 1
    y: str = "y"


class Mod:
    """Equal modulo 10."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Mod) and self.v % 10 == o.v % 10

    def __hash__(self):
        return self.v % 10

    def __repr__(self):
        return f"Mod({self.v})"


def fields(base):
    inner = InE if base is EventedModel else InP
    return {
        "i": (int, 0), "j": (int, Field(1, ge=0, le=5)), "s": (str, "a"), "f": (float, 0.5), "l": (list[int], Field(default_factory=list)),
        "o": (Any, None), "n": (np.ndarray, Field(default_factory=lambda: np.array([1, 2]))), "u": (Optional[int], None), "m": (Mod, Field(default_factory=lambda: Mod(1))),
        "k": (da.Array, Field(default_factory=lambda: lazy(0))),
        "x": (Any, Field(default_factory=lambda: np.array([1, 2]))),
        "inn": (inner, Field(default_factory=inner)), "oinn": (Optional[inner], None), "lit": (Literal["a", "b"], "a"), "d": (dict[str, int], {"a": 1}),
        "al": (int, Field(2, alias="alias_of_al")), "frz": (int, Field(3, frozen=True)), "up": (str, "UP"), "even": (int, 4),
        "all": (int, 0), "connect": (str, "c"), "signals": (int, 0), "name": (str, "n"), "instance": (int, 1),
    }


RESERVED = {"all", "connect", "signals", "name", "instance"}
FIELDS = list(fields(EventedModel))


def make_model(case, base):
    spec = fields(base)
    o = case["opts"]

    def ns_for(names, nm):
        ns = {"__module__": "vh.fake", "__qualname__": nm, "__annotations__": {f: spec[f][0] for f in names}}
        for f in names:
            ns[f] = spec[f][1]
        if "up" in names:

            @field_validator("up", mode="before")
            def to_upper(cls, v):
                return str(v).upper()

            ns["to_upper"] = to_upper
        if "even" in names:

            @field_validator("even")
            def is_even(cls, v):
                if v % 2:
                    raise ValueError("odd")
                return v // 2 * 2

            ns["is_even"] = is_even
        return ns

    cfg = {"arbitrary_types_allowed": True, "validate_assignment": o["validate"], "extra": o["extra"], "frozen": o["frozen"], "validate_default": False}
    ns = ns_for(case["fields"], "Model")
    ns["_p"] = PrivateAttr(0)
    ns["__annotations__"]["_p"] = int
    if base is EventedModel:
        if o["reemission"]:
            cfg["reemission"] = o["reemission"]
        if o["props"]:
            cfg["allow_property_setters"] = True
            cfg["field_dependencies"] = {"total": [f for f in case["fields"] if f != "frz"]}
    if o["props"]:
        flds = list(case["fields"])
        ns["total"] = property(lambda self: tuple(repr(getattr(self, f, None)) for f in flds), lambda self, v: None)
    ns["model_config"] = ConfigDict(**cfg)
    cls = type(base)("Model", (base,), ns)
    sub = None
    if case["sub"]:
        sub = type(base)("Sub", (cls,), ns_for(case["sub"], "Sub"))
    return cls, sub


def value(tok, base):
    t = tok[0]
    if t == "none":
        return None
    if t == "nan":
        return float("nan")
    if t == "np":
        return np.array(tok[1])
    if t == "lazy":
        return lazy(tok[1])
    if t == "list":
        return list(tok[1])
    if t == "tuple":
        return tuple(tok[1])
    if t == "bomb":
        return bomb(tok[1])
    if t == "mod":
        return Mod(tok[1])
    if t == "inner":
        return (InE if base is EventedModel else InP)(x=tok[1])
    return tok[1]


def norm(v):
    if isinstance(v, (InE, InP)):
        return ("inner", v.x, v.y)
    return repr(v)


def norm_err(e):
    if isinstance(e, pydantic.ValidationError):
        return ("ValidationError", sorted((str(x["loc"]), x["type"]) for x in e.errors(include_url=False, include_context=False, include_input=False)))
    return (type(e).__name__, re.sub(r" at 0x[0-9a-f]+", "", str(e)))


def dump(m):
    try:
        return repr(m.model_dump())
    except Exception as e:
        return f"raised {type(e).__name__}"


def same(f, a, b):
    return judged_equal({"n": np.array_equal, "k": operator.is_}.get(f, operator.eq), a, b)


MISSING = object()


def run_twin(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        COMPUTED.clear()
        _run(case, ctx)
        ctx.check(not COMPUTED, "a dask array was computed")


def _run(case, ctx):
    EB, ES = make_model(case, EventedModel)
    PB, PS = make_model(case, pydantic.BaseModel)
    objs, twins, flds, listeners, links, strong = [], [], [], [], [], []
    log = []
    n_emit = n_sup = n_fail = 0
    all_fields = case["fields"] + case["sub"]
    if case["opts"]["props"]:
        ctx.count("dependents")

    def add(o, t, f):
        objs.append(o)
        twins.append(t)
        flds.append(f)
        listeners.append({})
        links.append(set())
        k = len(objs) - 1
        g = o.events
        ctx.check(g is o.events and all(x.events is not g for x in objs[:-1]), "two models share their events")
        want = {x for x in f if x != "frz"} | ({"total"} if case["opts"]["props"] else set())
        ctx.eq(set(g), want, "names of the events")
        ctx.check(relay(g).instance is o, "the events are not bound to the model")
        return k

    def create(sub, kw):
        E, P = (ES, PS) if sub and ES is not None else (EB, PB)
        if E is ES:
            ctx.count("inherited")
        f = all_fields if E is ES else case["fields"]
        names = {(("alias_of_al" if x == "al" else x)): v for x, v in kw.items() if x in f}
        r = attempt(E, **{x: value(v, EventedModel) for x, v in names.items()})
        r2 = attempt(P, **{x: value(v, pydantic.BaseModel) for x, v in names.items()})
        compare(r, r2, "construction")
        if r.ok:
            add(r.val, r2.val, f)

    def compare(r, r2, what):
        ctx.check(r.ok == r2.ok, lambda: f"{what}: {r}; plain pydantic: {r2}")
        if not r.ok:
            ctx.eq(norm_err(r.exc), norm_err(r2.exc), lambda: f"{what}: exception")

    def listen(k, f):
        if f == "group":

            def on_group(info, g=objs[k].events):
                assert isinstance(info, EmissionInfo)
                names = [n for n in g if g[n] is info.signal]
                log.append((k, "group", names[0] if len(names) == 1 else names, info.args))

            strong.append(on_group)
            relay(objs[k].events).connect(on_group)
            if not RESERVED & {"connect"} & set(flds[k]):
                ctx.count("group_connects")
        else:

            def on_field(*a, f=f, k=k):
                log.append((k, "field", f, a))

            strong.append(on_field)
            objs[k].events[f].connect(on_field)
        listeners[k][f] = listeners[k].get(f, 0) + 1

    def assign(k, f, make, want):
        """Assign in the twin and predict. Returns its outcome."""
        nonlocal n_emit, n_sup, n_fail
        t = twins[k]
        old = getattr(t, f, MISSING)
        r2 = attempt(setattr, t, f, make(pydantic.BaseModel))
        if not r2.ok or f not in objs[k].events:
            return r2
        new = getattr(t, f)
        if old is MISSING:
            want.append(None)
            return r2
        if same(f, new, old):
            n_sup += 1
            ctx.count("suppressed")
            return r2
        hears = listeners[k].get(f, 0), listeners[k].get("group", 0)
        want.extend([(k, "field", f, norm(new))] * hears[0] + [(k, "group", f, norm(new))] * hears[1])
        if any(hears):
            n_emit += 1
            ctx.count("emitted")
            ctx.count("group_emitted", bool(hears[1]))
            ctx.count("reserved", f in RESERVED)
            ctx.count("arrays", f in ("n", "x"))
            ctx.count("lazy_arrays", f == "k")
            ctx.count("nested", f in ("inn", "oinn"))
        for a, b in sorted(links[k]):
            if a == f:
                ctx.count("linked")
                assign(k, b, lambda base: new, want)
        return r2

    def do(op):
        nonlocal n_fail
        kind, k = op[0], op[1]
        if kind == "new":
            if len(objs) < 4:
                create(op[2], op[3])
            return
        if not objs:
            return
        k %= len(objs)
        o, t = objs[k], twins[k]
        f = flds[k][op[2] % len(flds[k])]
        want = []
        if kind == "listen":
            if op[3]:
                listen(k, "group")
            elif f in o.events:
                listen(k, f)
            return
        if kind == "link":
            # i -> o: a listener that assigns another field
            a, b = "i", "o"
            if a in flds[k] and b in flds[k] and hasattr(o, a) and hasattr(o, b) and not links[k] and not case["opts"]["frozen"]:

                def link(v, o=o):
                    o.o = v

                strong.append(link)
                o.events[a].connect(link)
                links[k].add((a, b))
            return
        if kind == "set":
            r = None
            before = {x: getattr(o, x, MISSING) for x in flds[k]}
            r2 = assign(k, f, lambda base: value(op[3], base), want)
            r = attempt(setattr, o, f, value(op[3], EventedModel))
            ctx.count("assignments")
            if before[f] is MISSING:
                # (a field that was deleted: which exception comes first is not judged)
                ctx.check(r.ok == r2.ok, lambda: f"assignment of deleted {f}: {r}; plain pydantic: {r2}")
            else:
                compare(r, r2, f"assignment of {f}")
            if not r.ok:
                n_fail += 1
                ctx.count("failed")
                ctx.count("frozen", f == "frz" or case["opts"]["frozen"])
                want = []
                ctx.check(all(getattr(o, x, MISSING) is v for x, v in before.items()), "the failing assignment changed the model")
        elif kind == "same":
            old = getattr(o, f, MISSING)
            if old is MISSING:
                return
            oldt = getattr(t, f)
            r2 = assign(k, f, lambda base: oldt, want)
            r = attempt(setattr, o, f, old)
            compare(r, r2, f"assignment of the value of {f}")
        elif kind == "del":
            if links[k] and f in ("i", "o"):
                return
            r, r2 = attempt(delattr, o, f), attempt(delattr, t, f)
            compare(r, r2, f"deletion of {f}")
            ctx.count("deleted")
        elif kind == "other":
            nm = op[3]
            r, r2 = attempt(setattr, o, nm, op[4]), attempt(setattr, t, nm, op[4])
            compare(r, r2, f"assignment of {nm}")
            if r.ok:
                ctx.eq(repr(getattr(o, nm)), repr(getattr(t, nm)), nm)
            ctx.count("private", nm == "_p")
        elif kind == "inner":
            # events of the nested model are not those of this model
            for x in ("inn", "oinn"):
                if isinstance(getattr(o, x, None), InE) and isinstance(getattr(t, x, None), InP):
                    setattr(getattr(o, x), "x", op[3])
                    setattr(getattr(t, x), "x", op[3])
        elif kind == "copy":
            if len(objs) >= 4 or any(not hasattr(o, x) for x in flds[k]):
                return
            c = {"copy": copy.copy, "deepcopy": copy.deepcopy, "model_copy": lambda m: m.model_copy(), "model_copy_deep": lambda m: m.model_copy(deep=True)}[op[3]]
            ctx.count("copies")
            new, newt = c(o), c(t)
            add(new, newt, flds[k])
        # ---- emissions
        got = [(e[0], e[1], str(e[2]), e[3]) for e in log if e[2] != "total"]
        log.clear()
        if None in want:  # a deleted field was assigned: not judged
            want = None
        if want is not None:
            ctx.check(all(len(e[3]) == 1 for e in got), lambda: f"listeners got {got}")
            g2 = sorted((e[0], e[1], e[2], str(norm(e[3][0]))) for e in got)
            w2 = sorted((e[0], e[1], e[2], str(e[3])) for e in want)
            ctx.check(g2 == w2, lambda: f"emissions by {kind} {f}: got {g2}, expected {w2}")
            seen = {}
            for e in got:
                seen[(e[0], e[2])] = e[3][0]
            for (kk, ff), v in seen.items():
                ctx.check(v is getattr(objs[kk], ff), lambda: f"{ff}: emitted {v!r}, stored {getattr(objs[kk], ff)!r} (another object)")
        for a, (x, y) in enumerate(zip(objs, twins)):
            for g in flds[a]:
                vx, vy = getattr(x, g, MISSING), getattr(y, g, MISSING)
                ctx.check((vx is MISSING) == (vy is MISSING), lambda: f"{g}: {vx!r}, plain pydantic: {vy!r}")
                if vx is not MISSING:
                    ctx.eq(norm(vx), norm(vy), lambda: f"value of {g} of model {a} after {kind}")
            ctx.eq(x.model_fields_set, y.model_fields_set, "model_fields_set")
        ctx.eq(dump(o), dump(t), "model_dump()")

    for op in case["ops"]:
        do(op)
    if n_emit and n_sup and n_fail:
        ctx.nontrivial()


TOKS = {
    "i": [["v", 0], ["v", 1], ["v", 2], ["v", "7"], ["v", "x"], ["none"], ["v", True], ["v", 1.0]],
    "j": [["v", 0], ["v", 1], ["v", 5], ["v", 6], ["v", -1], ["v", "3"]],
    "s": [["v", "a"], ["v", "b"], ["v", 3], ["v", ""]], "f": [["v", 0.5], ["v", 1], ["v", 1.0], ["nan"], ["v", "2.5"], ["v", "x"]],
    "l": [["list", []], ["list", [1]], ["list", ["1"]], ["list", ["x"]], ["none"]], "o": [["none"], ["v", 1], ["v", "a"], ["v", True], ["list", [1]], ["tuple", [1]], ["list", [[1], [2, 3]]], ["v", "1"], ["nan"]],
    "k": [["lazy", 0], ["lazy", 1], ["lazy", 2]],
    "x": [["none"], ["np", [1, 2]], ["np", [1, 3]], ["np", [1.0, 2.0]], ["np", [2, 2]], ["np", [1, 2, 3]], ["np", [[1, 2], [1, 2]]], ["list", [1, 2]], ["list", [5]], ["list", [5]], ["tuple", [1, 2]], ["v", 1], ["v", 1], ["v", True], ["v", "a"], ["bomb", 0], ["bomb", 0], ["bomb", 1]],
    "n": [["np", [1]], ["np", [[1]]], ["np", [1, 2]], ["np", [1, 2]], ["np", [1, 3]], ["np", []], ["np", [[1, 2]]], ["np", [1.0, 2.0]]], "u": [["none"], ["v", 1], ["v", "2"], ["v", "x"]],
    "m": [["mod", 1], ["mod", 11], ["mod", 2], ["none"]], "inn": [["inner", 1], ["inner", 2], ["v", {"x": 2}], ["v", {"x": "x"}], ["none"]], "oinn": [["inner", 1], ["none"], ["v", {"x": 2}], ["v", 3]],
    "lit": [["v", "a"], ["v", "b"], ["v", "c"]], "d": [["v", {}], ["v", {"a": 1}], ["v", {"a": "2"}], ["v", {"a": "x"}], ["none"]],
    "al": [["v", 2], ["v", 3], ["v", "4"], ["v", "x"]], "frz": [["v", 3], ["v", 4]], "up": [["v", "UP"], ["v", "up"], ["v", "b"], ["v", 3]],
    "even": [["v", 4], ["v", 6], ["v", 3], ["v", "8"]], "all": [["v", 0], ["v", 1], ["v", "x"]], "connect": [["v", "c"], ["v", "d"], ["v", 1]],
    "signals": [["v", 0], ["v", 3]], "name": [["v", "n"], ["v", "m"], ["v", 2]], "instance": [["v", 1], ["v", 2]],
}


def gen_twin(rng, i, tier):
    pool = list(FIELDS)
    rng.shuffle(pool)
    n = rng.randint(1, 7)
    fl = pool[:n]
    if rng.random() < 0.3:
        fl = sorted(set(fl) | {"i", "o"})
    rest = [f for f in pool if f not in fl]
    sub = rest[: rng.randint(0, 3)] if rng.random() < 0.35 else []
    validate = rng.random() < 0.75
    alls = fl + sub
    remap = None
    if rng.random() < 0.4:
        modes = ["immediate", "queued", "latest-only"]
        remap = rng.choice(modes) if rng.random() < 0.5 else {f: rng.choice(modes) for f in rng.sample(alls, rng.randint(1, len(alls)))}
    # without validation anything can be stored; then arrays only in the array field
    opts = {"validate": validate, "extra": rng.choice(["ignore", "forbid", "allow"]), "frozen": rng.random() < 0.06, "reemission": remap, "props": rng.random() < 0.3}

    def kw():
        return {f: rng.choice(TOKS[f]) for f in alls if rng.random() < 0.25}

    ops = [["new", 0, rng.random() < 0.5, kw()], ["new", 0, rng.random() < 0.5, {}]]
    for _ in range(rng.randint(6, 45)):
        k = rng.randrange(4)
        fi = rng.randrange(len(alls))
        x = rng.random()
        if x < 0.2:
            ops.append(["listen", k, fi, rng.random() < 0.3])
        elif x < 0.23:
            ops.append(["link", k, fi])
        elif x < 0.25:
            ops.append(["new", 0, rng.random() < 0.5, kw()])
        elif x < 0.32:
            ops.append(["same", k, fi])
        elif x < 0.34:
            ops.append(["del", k, fi])
        elif x < 0.37:
            ops.append(["other", k, fi, rng.choice(["_p", "_p", "zzz", "_q", "zzy"]), rng.randint(0, 3)])
        elif x < 0.40:
            ops.append(["inner", k, fi, rng.randint(0, 4)])
        elif x < 0.44:
            ops.append(["copy", k, fi, rng.choice(["copy", "deepcopy", "model_copy", "model_copy_deep"])])
        else:
            # (which field it is depends on the class of the model: a value for one of them)
            f0, f1 = fl[fi % len(fl)], alls[fi % len(alls)]
            f = f1 if rng.random() < 0.7 else f0
            if f0 != f1 and (not validate or {"k", "x", "n"} & {f0, f1}):
                continue
            ops.append(["set", k, fi, rng.choice(TOKS[f])])
    return {"fields": fl, "sub": sub, "opts": opts, "ops": ops}


WORKLOADS = [Workload("twin", gen_twin, run_twin, quick=2500, thorough=40000)]
