"""C31: EventedModels compare and copy like their fields."""
import copy
import pickle
import sys
import types
import warnings
from enum import Enum

import pydantic

from psygnal import EventedModel
from vh.core import Workload, attempt, relay
from vh.props.c15 import COMPUTED
from vh.props.c16 import FIELDS, TOKS, MISSING, RESERVED, dump, make_model, norm, same, value

PROP = "C31"
TECHNIQUE = "runtime monitoring: every comparison is predicted from the fields of the two models; every copy is compared with its original and with the copy of a plain pydantic twin, and both are assigned to afterwards with listeners on both sides"
RULE = (
    "random models as for C16 (23 kinds of fields, arrays and lazy arrays, validators, aliases, reserved names, frozen models, inheritance, dependents); instances made by construction, "
    "model_construct, model_validate, copy, deepcopy, pickle (protocols 2-5), model_copy with and without update and in listeners during an emission; all pairs compared with == and !=, also with "
    "dicts, plain models and other objects; assignments on all of them with listeners of fields and of the group; non-trivial: equal and unequal pairs and a copy that was used, distinct by case"
)
REQUIRE = {"equal": 3000, "unequal": 5000, "dicts": 2000, "copies": 2000, "copies_of_copies": 300, "pickled": 500, "constructed": 300, "in_listener": 200, "updates": 300, "emitted": 1000, "serialized": 3000, "arrays": 500, "lazy_arrays": 100, "nested": 500, "others": 1000, "incomplete": 50, "equal_props": 300, "unequal_props": 1000}
ASSUMPTIONS = ["pydantic 2 (pydantic 1 is not installed)", "models of different classes are only compared without expecting a result", "private attributes and extra fields are not compared"]

FAKE = types.ModuleType("vh.fake")


class Other(Enum):
    A = 1


def run_models(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        COMPUTED.clear()
        sys.modules["vh.fake"] = FAKE
        try:
            _run(case, ctx)
        finally:
            del sys.modules["vh.fake"]
            for n in ("Model", "Sub"):
                FAKE.__dict__.pop(n, None)
        ctx.check(not COMPUTED, "a dask array was computed")


def _run(case, ctx):
    EB, ES = make_model(case, EventedModel)
    PB, PS = make_model(case, pydantic.BaseModel)
    objs, twins, flds, kinds, gens = [], [], [], [], []
    log, strong = [], []
    heard = []  # [(field or "group", number of listeners)] by object
    seen = set()

    def register(base):
        FAKE.Model, FAKE.Sub = (EB, ES) if base is EventedModel else (PB, PS)

    def has_all(k):
        return all(hasattr(objs[k], f) for f in flds[k])

    def add(o, t, f, what, gen=0):
        ctx.check(type(o) is (ES if type(t) is PS else EB), f"{what}: class {type(o)}")
        g = o.events
        ctx.check(g is o.events and all(x.events is not g for x in objs), f"{what}: two models share their events")
        ctx.check(relay(g).instance is o, f"{what}: the events are not bound to the model")
        ctx.eq(len(relay(g)), 0, f"{what}: listeners of a new group")
        ctx.eq([len(g[n]) for n in g], [0] * len(g), f"{what}: listeners of a new model")
        objs.append(o)
        twins.append(t)
        flds.append(f)
        heard.append({})
        gens.append(gen)
        values(len(objs) - 1, what)

    def values(k, what):
        for f in flds[k]:
            vx, vy = getattr(objs[k], f, MISSING), getattr(twins[k], f, MISSING)
            ctx.check((vx is MISSING) == (vy is MISSING), lambda: f"{what}: {f}: {vx!r}; plain pydantic: {vy!r}")
            if vx is not MISSING:
                ctx.eq(norm(vx), norm(vy), lambda: f"{what}: {f}")
        ctx.eq(objs[k].model_fields_set, twins[k].model_fields_set, f"{what}: model_fields_set")
        ctx.eq(dump(objs[k]), dump(twins[k]), f"{what}: model_dump()")
        if not {"k", "n", "x", "m"} & set(flds[k]):
            r, r2 = attempt(objs[k].model_dump_json), attempt(twins[k].model_dump_json)
            ctx.check(r.ok == r2.ok and r.val == r2.val, lambda: f"{what}: model_dump_json(): {r}; plain pydantic: {r2}")
            ctx.eq(repr(objs[k]).replace("InE", "InP"), repr(twins[k]), f"{what}: repr")
            ctx.count("serialized")

    def schema(E, P):
        if not {"k", "n", "x", "m", "inn", "oinn"} & set(case["fields"] + case["sub"]):
            ctx.eq(E.model_json_schema(), P.model_json_schema(), "JSON schema")

    def both(f, g, what):
        r, r2 = attempt(f), attempt(g)
        ctx.check(r.ok == r2.ok, lambda: f"{what}: {r}; plain pydantic: {r2}")
        return (r.val, r2.val) if r.ok else (None, None)

    def new(how, sub, kw):
        E, P = (ES, PS) if sub and ES is not None else (EB, PB)
        f = case["fields"] + case["sub"] if E is ES else case["fields"]
        e = {("alias_of_al" if x == "al" else x): value(v, EventedModel) for x, v in kw.items() if x in f}
        p = {("alias_of_al" if x == "al" else x): value(v, pydantic.BaseModel) for x, v in kw.items() if x in f}
        if how == "construct":
            ctx.count("constructed")
            o, t = both(lambda: E.model_construct(**e), lambda: P.model_construct(**p), how)
        elif how == "construct_set":
            ctx.count("constructed")
            o, t = both(lambda: E.model_construct(set(list(e)[:1]), **e), lambda: P.model_construct(set(list(p)[:1]), **p), how)
        elif how == "validate":
            o, t = both(lambda: E.model_validate(e), lambda: P.model_validate(p), how)
        else:
            o, t = both(lambda: E(**e), lambda: P(**p), how)
        if o is not None:
            add(o, t, f, how)

    def duplicate(k, how, upd):
        if not has_all(k):
            return
        o, t = objs[k], twins[k]
        if how == "update":
            upd = {f: v for f, v in upd.items() if f in flds[k] and f != "al"}
            ctx.count("updates", bool(upd))
            n, n2 = both(
                lambda: o.model_copy(update={f: value(v, EventedModel) for f, v in upd.items()}),
                lambda: t.model_copy(update={f: value(v, pydantic.BaseModel) for f, v in upd.items()}), how)
        elif how.startswith("pickle"):
            if {"k", "x"} & set(flds[k]):
                return  # (lazy arrays count computations in this process)

            def dumped(m, base):
                register(base)
                return pickle.loads(pickle.dumps(m, int(how[-1])))

            ctx.count("pickled")
            n, n2 = both(lambda: dumped(o, EventedModel), lambda: dumped(t, pydantic.BaseModel), how)
        else:
            c = {"copy": copy.copy, "deepcopy": copy.deepcopy, "nested": lambda m: copy.deepcopy([m, m])[1], "deep": lambda m: m.model_copy(deep=True)}[how]
            n, n2 = both(lambda: c(o), lambda: c(t), how)
        if n is None:
            return
        ctx.count("copies")
        ctx.count("copies_of_copies", gens[k] > 0)
        add(n, n2, flds[k], how, gens[k] + 1)
        if how == "copy":
            for f in flds[k]:
                ctx.check(getattr(n, f) is getattr(o, f), f"shallow copy: {f} is another object")
        if how in ("deepcopy", "deep", "nested"):
            for f in ("l", "d", "inn", "oinn"):
                if f in flds[k] and getattr(o, f) is not None:
                    ctx.check(getattr(n, f) is not getattr(o, f), f"deep copy: {f} is the same object")

    def compare():
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                r = attempt(lambda: a == b)
                ctx.check(r.ok, lambda: f"{i} == {j}: {r}")
                if type(a) is not type(b):
                    continue
                if not (has_all(i) and has_all(j)):
                    continue
                want = all(same(f, getattr(a, f), getattr(b, f)) for f in flds[i])
                ctx.check(r.val is want, lambda: f"{i} == {j}: {r}; expected {want}: {a!r}, {b!r}")
                r = attempt(lambda: a != b)
                ctx.check(r.ok and r.val is (not want), lambda: f"{i} != {j}: {r}")
                ctx.count("equal" if want else "unequal")
                seen.add(want)
                ctx.count("arrays", bool({"n", "x"} & set(flds[i])))
                ctx.count("lazy_arrays", "k" in flds[i])
                ctx.count("nested", bool({"inn", "oinn"} & set(flds[i])))
            if {"k", "n", "x"} & set(flds[i]) or not has_all(i):
                continue  # (dicts with arrays cannot be compared)
            d = a.model_dump()
            ctx.count("dicts")
            r = attempt(lambda: a == d)
            ctx.check(r.ok and r.val is (a.model_dump() == d), lambda: f"{i} == its dump: {r}")
            d2 = dict(d, **{flds[i][0]: object()})
            r = attempt(lambda: (a == d2, a != d2))
            ctx.check(r.ok and r.val == (False, True), lambda: f"{i} == another dict: {r}")
            for x in (None, 1, "a", Other.A, twins[i], [d], {}):
                ctx.count("others")
                r = attempt(lambda: a == x)
                ctx.check(r.ok and r.val is False, lambda: f"{i} == {x!r}: {r}")

    def listen(k, f, hook=None):
        if f == "group":

            def cb(info, g=objs[k].events):
                log.append((k, "group", next(n for n in g if g[n] is info.signal)))
                if hook:
                    hook()

            relay(objs[k].events).connect(cb)
        else:
            if f not in objs[k].events:
                return

            def cb(v):
                log.append((k, "field", f))
                if hook:
                    hook()

            objs[k].events[f].connect(cb)
        strong.append(cb)
        heard[k][f] = heard[k].get(f, 0) + 1

    def assign(k, f, tok):
        o, t = objs[k], twins[k]
        old = getattr(t, f, MISSING)
        r2 = attempt(setattr, t, f, value(tok, pydantic.BaseModel))
        want = []
        if r2.ok and f in o.events and old is not MISSING and not same(f, getattr(t, f), old):
            want = [(k, "field", f)] * heard[k].get(f, 0) + [(k, "group", f)] * heard[k].get("group", 0)
        log.clear()
        r = attempt(setattr, o, f, value(tok, EventedModel))
        ctx.check(r.ok == r2.ok, lambda: f"assignment of {f}: {r}; plain pydantic: {r2}")
        got = [e for e in log if e[2] != "total"]
        log.clear()
        if old is not MISSING:
            ctx.eq(sorted(got), sorted(want), f"events of the assignment of {f} to model {k} of {len(objs)}")
            ctx.count("emitted", len(want))
        for i in range(len(objs)):
            values(i, f"after assigning {f} of model {k}")

    schema(EB, PB)
    if ES is not None:
        schema(ES, PS)
    for op in case["ops"]:
        kind = op[0]
        if kind == "new":
            if len(objs) < 6:
                new(op[1], op[2], op[3])
            continue
        if not objs:
            continue
        k = op[1] % len(objs)
        f = flds[k][op[2] % len(flds[k])]
        if kind == "copy":
            if len(objs) < 6:
                duplicate(k, op[3], op[4])
        elif kind == "compare":
            log.clear()
            compare()
            ctx.check(not log, lambda: f"comparing emitted {log}")
        elif kind == "listen":
            listen(k, "group" if op[3] else f)
        elif kind == "copy_in_listener":
            if len(objs) < 6 and not case["opts"]["frozen"]:
                n = len(objs)
                done = []

                def hook(k=k, how=op[3]):
                    # (the twin has been assigned already)
                    if not done:
                        done.append(1)
                        duplicate(k, how, {})
                        if len(objs) > n:
                            ctx.count("in_listener")

                listen(k, f, hook)
                tok = op[4]
                assign(k, f, tok)
                done.append(1)
        elif kind == "set":
            assign(k, f, op[3])
        elif kind == "private":
            objs[k]._p = twins[k]._p = op[3]
            ctx.check([getattr(o, "_p", None) for o in objs] == [getattr(t, "_p", None) for t in twins], "private attributes")
    log.clear()
    compare()
    ctx.check(not log, lambda: f"comparing emitted {log}")
    if seen == {True, False} and any(gens):
        ctx.nontrivial()


def gen_models(rng, i, tier):
    pool = list(FIELDS)
    rng.shuffle(pool)
    fl = pool[: rng.randint(1, 5)]
    if rng.random() < 0.5:
        fl = [f for f in fl if f not in ("k", "x", "n")] or ["i"]
    rest = [f for f in pool if f not in fl]
    sub = rest[: rng.randint(0, 2)] if rng.random() < 0.35 else []
    alls = fl + sub
    opts = {"validate": True, "extra": rng.choice(["ignore", "forbid", "allow"]), "frozen": rng.random() < 0.06, "reemission": rng.choice([None, None, "queued", "immediate"]), "props": rng.random() < 0.3}

    def tok(f):
        return rng.choice(TOKS[f][: rng.choice([2, 3, 9])])

    def kw(p=0.3):
        return {f: tok(f) for f in alls if rng.random() < p}

    # (model_construct does not validate)
    def raw():
        return {f: TOKS[f][rng.randrange(2)] for f in alls if rng.random() < 0.4}

    copies = ["copy", "deepcopy", "nested", "deep", "update", "update", "pickle2", "pickle3", "pickle4", "pickle5"]
    ops = [["new", "init", rng.random() < 0.5, kw()], ["new", "init", rng.random() < 0.5, {}]]
    for _ in range(rng.randint(5, 30)):
        k = rng.randrange(6)
        fi = rng.randrange(len(alls))
        x = rng.random()
        if x < 0.12:
            how = rng.choice(["init", "validate", "construct", "construct_set"])
            ops.append(["new", how, rng.random() < 0.5, raw() if how.startswith("construct") else kw()])
        elif x < 0.35:
            ops.append(["copy", k, fi, rng.choice(copies), raw()])
        elif x < 0.50:
            ops.append(["listen", k, fi, rng.random() < 0.3])
        elif x < 0.62:
            ops.append(["compare", 0, 0])
        elif x < 0.66:
            ops.append(["private", k, fi, rng.randint(0, 3)])
        else:
            f0, f1 = fl[fi % len(fl)], alls[fi % len(alls)]
            if f0 != f1 and {"k", "x", "n"} & {f0, f1}:
                continue
            t = tok(rng.choice([f0, f1]))
            if x < 0.76:
                ops.append(["copy_in_listener", k, fi, rng.choice(copies), t])
            else:
                ops.append(["set", k, fi, t])
    return {"fields": fl, "sub": sub, "opts": opts, "ops": ops}


def run_required(case, ctx):
    """Models constructed without values for all of their required fields."""
    ann = {f"f{n}": int for n in range(case["n"])}
    ns = {"__annotations__": ann, "__module__": __name__, **{f"f{n}": 0 for n in case["defaults"]}}
    cls = type("Model", (EventedModel,), ns)
    objs = []
    for kw in case["objs"]:
        r = attempt(cls.model_construct, **kw)
        ctx.check(r.ok, lambda: f"model_construct({kw}): {r}")
        objs.append(r.val)
        ctx.eq({f: getattr(r.val, f) for f in ann if hasattr(r.val, f)}, {**{f: 0 for f in ann if f in ns}, **kw}, "fields")
    for k, op in enumerate(case["ops"]):
        o = objs[op[0]]
        if hasattr(o, op[1]):
            got = []
            o.events[op[1]].connect(cb := lambda v: got.append(v))
            old = getattr(o, op[1])
            setattr(o, op[1], op[2])
            ctx.eq(got, [op[2]] if op[2] != old else [], "events of an assignment")
            o.events[op[1]].disconnect(cb)
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                va, vb = ({f: getattr(x, f) for f in ann if hasattr(x, f)} for x in (a, b))
                if set(va) == set(vb) != set(ann):
                    continue
                r = attempt(lambda: (a == b, a != b))
                ctx.check(r.ok and r.val == (va == vb, va != vb), lambda: f"(==, !=) of models with the fields {va} and {vb}: {r}")
                ctx.count("incomplete", set(va) != set(vb))
                if set(va) != set(vb):
                    ctx.nontrivial()


def gen_required(rng, i, tier):
    n = rng.randint(1, 4)
    defaults = [k for k in range(n) if rng.random() < 0.3]
    objs = [{f"f{k}": rng.randrange(2) for k in range(n) if rng.random() < 0.75} for _ in range(rng.randint(2, 5))]
    ops = [[rng.randrange(len(objs)), f"f{rng.randrange(n)}", rng.randrange(2)] for _ in range(rng.randint(1, 5))]
    return {"n": n, "defaults": defaults, "objs": objs, "ops": ops}


class Touchy(EventedModel):
    """A model with properties that depend on more than the fields."""

    i: int = 0
    j: int = 0
    _p: int = pydantic.PrivateAttr(default=0)

    @property
    def private(self):
        return self.i, self._p

    @private.setter
    def private(self, v):
        self.i, self._p = v

    @property
    def unequal(self):
        return self.i, object()

    @unequal.setter
    def unequal(self, v):
        self.i = v

    @property
    def raises(self):
        raise ValueError("raises")

    @property
    def falls(self):
        raise AttributeError("falls")

    model_config = {"allow_property_setters": True, "field_dependencies": {"private": ["i"], "unequal": ["i", "j"]}}


def run_props(case, ctx):
    """Comparing properties (for their events) does not change how models compare."""
    cls = type("Touchy2", (Touchy,), {"__module__": __name__}) if case["sub"] else Touchy
    objs = [cls(i=i, j=j) for i, j in case["objs"]]
    got, strong = [], []
    seen = set()
    for op, k, n, v in case["ops"]:
        o = objs[k]
        if op == "listen":
            o.events[n].connect(cb := lambda v, n=n, k=k: got.append((k, n)))
            strong.append(cb)
        elif op == "private":
            o._p = v
        elif op == "prop":
            attempt(setattr, o, "private", (v, v + 1))
        else:
            setattr(o, n, v)
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                want = (a.i, a.j) == (b.i, b.j)
                r = attempt(lambda: (a == b, a != b))
                ctx.check(r.ok and r.val == (want, not want), lambda: f"(==, !=) of models with the fields {(a.i, a.j)} and {(b.i, b.j)} after {got}: {r}")
                if got:
                    ctx.count("equal_props" if want else "unequal_props", i != j)
                    seen.add(want)
    if len(seen) > 1:
        ctx.nontrivial()


def gen_props(rng, i, tier):
    n = rng.randint(2, 4)
    ops = []
    for _ in range(rng.randint(3, 12)):
        x = rng.random()
        k = rng.randrange(n)
        if x < 0.3:
            ops.append(["listen", k, rng.choice(["private", "unequal", "i", "j"]), 0])
        elif x < 0.4:
            ops.append(["private", k, "", rng.randrange(3)])
        elif x < 0.55:
            ops.append(["prop", k, "", rng.randrange(3)])
        else:
            ops.append(["set", k, rng.choice(["i", "i", "j"]), rng.randrange(3)])
    return {"sub": rng.random() < 0.5, "objs": [[rng.randrange(2), rng.randrange(2)] for _ in range(n)], "ops": ops}


WORKLOADS = [Workload("props", gen_props, run_props, quick=600, thorough=10000), Workload("models", gen_models, run_models, quick=3000, thorough=60000), Workload("required", gen_required, run_required, quick=600, thorough=10000)]
