"""C17: dependent properties, property setters, update() and reset() of EventedModel."""
import copy
import json
import warnings
from typing import Any, Optional

import numpy as np
import pydantic
from pydantic import ConfigDict, Field, computed_field

from psygnal import EmissionInfo, EmitLoopError, EventedModel
from vh.core import Outcome, Workload, attempt, relay, short

PROP = "C17"
TECHNIQUE = "runtime monitoring: events compared with those predicted by an executable specification of the model (fields, getters, setters as data); state snapshots taken inside the listeners"
RULE = (
    "random models with integer fields, properties (sum, coarse, tuple, array, constant, raising; reading fields or other properties), declared or guessed dependencies (or some of each), setters "
    "(several assignments, other setters, invalid values, exceptions), nested models, inheritance, diamonds of classes that override properties (also by read-only ones); random histories of assignments, update(), reset(), connecting and "
    "disconnecting listeners of fields, properties and groups, listeners that assign fields; events, values and snapshots compared after each; "
    "deep: update() of models nested in nested models from dicts, models and plain models, with and without recursion; fields: fields that a validator computes from others; "
    "non-trivial: a dependent property emitted, and one stayed silent because it did not change, distinct by case"
)
REQUIRE = {"assignments": 5000, "dependents_emitted": 1000, "dependents_silent": 500, "setter_calls": 1000, "updates": 500, "resets": 300, "failed": 300, "after_failure": 200, "nested_updates": 100, "linked": 100, "group_events": 1000, "guessed": 300, "inherited": 200, "overridden": 300, "diamonds": 150, "snapshots": 2000, "guessed_and_declared": 100, "deep_updates": 500, "flat_updates": 300, "deep_events": 1000, "field_dependents": 500, "two_bases": 200, "nested_values": 100, "computed_defaults": 20}
ASSUMPTIONS = ["pydantic 2 (pydantic 1 is not installed)"]


class SetterError(Exception):
    pass


class GetterError(Exception):
    pass


def _setter_error():
    raise SetterError


def _value(kind, k, xs):
    if kind == "sum":
        return sum(xs) + k
    if kind == "coarse":
        return (sum(xs) + k) // 4
    if kind == "tuple":
        return tuple(xs)
    if kind == "array":
        return np.array(xs)
    if kind == "const":
        return k
    if kind == "raise":
        if sum(xs) % 7 == 3:
            raise GetterError
        return sum(xs)
    raise AssertionError(kind)


class Inner(EventedModel):
    x: int = 1
    y: int = 2
    model_config = ConfigDict(validate_assignment=True)


# ------------------------------------------------------------------ the real class


def make_getter(p):
    return eval(f"lambda self: _value({p['kind']!r}, {p['k']!r}, [{', '.join('self.' + r for r in p['reads'])}])", globals())


def make_setter(p):
    prog = p["setter"]

    def fset(self, v):
        for st in prog:
            if st[0] == "raise":
                if v % 3 == 0:
                    raise SetterError
            else:
                setattr(self, st[1], rhs(st, v, lambda n: getattr(self, n)))

    return fset


def rhs(st, v, get):
    how, n = st[2], st[3]
    if how == "v":
        return v + n
    if how == "const":
        return n
    if how == "inc":
        return get(st[4]) + n
    if how == "bad":
        return "x" if v % 4 == 0 else v
    raise AssertionError


def make_class(case):
    d = case["model"]

    def ns_for(fields, props, nested, nm):
        ann = {f: int for f in fields}
        ns = {"__module__": "vh.fake", "__qualname__": nm, "__annotations__": ann}
        for f, dflt in fields.items():
            ns[f] = Field(dflt, le=1000)
        for n, dx in nested.items():
            ann[n] = Inner
            ns[n] = Field(default_factory=lambda dx=dx: Inner(x=dx)) if dx % 2 else Inner(x=dx)
        for p in props:
            ns[p["name"]] = property(make_getter(p), None if p.get("readonly") else make_setter(p))
        return ns

    ns = ns_for(d["fields"], d["props"], d["nested"], "Model")
    cfg = {"validate_assignment": True, "allow_property_setters": True}
    if d["guess"]:
        cfg["guess_property_dependencies"] = True
        if d["mixed"]:
            cfg["field_dependencies"] = {p["name"]: list(p["declared"]) for p in d["props"] if p["name"] in d["mixed"] and p["declared"]}
    elif d["props"]:
        cfg["field_dependencies"] = {p["name"]: list(p["declared"]) for p in d["props"] if p["declared"]}
    ns["model_config"] = ConfigDict(**cfg)
    M = type(EventedModel)("Model", (EventedModel,), ns)
    if d["extra"] is not None:
        # together with a model that is independent of the first, and that has properties with setters as well
        nse = ns_for(d["extra"]["fields"], d["extra"]["props"], {}, "Extra")
        nse["model_config"] = ConfigDict(**{k: v for k, v in cfg.items() if k != "field_dependencies"})
        if not d["guess"]:
            nse["model_config"]["field_dependencies"] = {p["name"]: list(p["declared"]) for p in d["extra"]["props"] if p["declared"]}
        E = type(EventedModel)("Extra", (EventedModel,), nse)
        nsb = ns_for({}, [], {}, "Both")
        if not d["guess"]:
            nsb["model_config"] = ConfigDict(field_dependencies={p["name"]: list(p["declared"]) for p in d["props"] + d["extra"]["props"] if p["declared"]})
        M = type(EventedModel)("Both", (E, M) if d["extra"]["first"] else (M, E), nsb)
    if d["sub_fields"] is not None:
        ns2 = ns_for(d["sub_fields"], d["sub_props"], {}, "Sub")
        if d["sub_props"] and not d["guess"]:
            ns2["model_config"] = ConfigDict(field_dependencies={p["name"]: list(p["declared"]) for p in d["props"] + (d["extra"]["props"] if d["extra"] else []) + d["sub_props"] if p["declared"]})
        M = type(EventedModel)("Sub", (M,), ns2)
    if d["over"] is not None:
        left, right = d["over"]
        bases = [type(EventedModel)(f"Over{k}", (M,), ns_for({}, ps, {}, f"Over{k}")) for k, ps in enumerate([left, right]) if ps is not None]
        ns3 = ns_for({}, [], {}, "Last")
        if not d["guess"]:
            ns3["model_config"] = ConfigDict(field_dependencies={p["name"]: list(p["declared"]) for p in final_props(d).values() if p["declared"]})
        M = type(EventedModel)("Last", tuple(bases), ns3)
    return M


def final_props(d):
    """The properties that the class has in the end, with what they depend on."""
    props = {p["name"]: p for p in d["props"] + (d["extra"]["props"] if d["extra"] else []) + (d["sub_props"] if d["sub_fields"] is not None else [])}
    if d["over"] is None:
        return props
    for ps in reversed(d["over"]):
        props.update({p["name"]: p for p in ps or []})

    def closure(p):
        out = set()
        for r in p["reads"]:
            out |= closure(props[r]) if r in props else {r}
        return out

    return {n: {**p, "declared": sorted(closure(p) | set(p["declared"]))} for n, p in props.items()}


# ------------------------------------------------------------------ the specification


class Sim:
    """One model: values, and what an assignment changes."""

    def __init__(self, d):
        self.defaults = {**d["fields"], **(d["extra"]["fields"] if d["extra"] else {}), **(d["sub_fields"] or {})}
        self.props = final_props(d)
        self.values = dict(self.defaults)
        self.deps = {}
        for p in self.props.values():
            decl = [r for r in p["reads"]] if d["guess"] and p["name"] not in d["mixed"] else p["declared"]
            for f in decl:
                self.deps.setdefault(f, set()).add(p["name"])
        self.touched = set()

    def get(self, n):
        if n in self.values:
            return self.values[n]
        p = self.props[n]
        return _value(p["kind"], p["k"], [self.get(r) for r in p["reads"]])

    def set(self, n, v):
        self.touched.add(n)
        if n in self.values:
            if type(v) is not int or v > 1000:
                raise pydantic.ValidationError.from_exception_data("x", [])
            self.values[n] = v
            return
        if self.props[n].get("readonly"):
            raise AttributeError
        for st in self.props[n]["setter"]:
            if st[0] == "raise":
                if v % 3 == 0:
                    raise SetterError
            else:
                self.set(st[1], rhs(st, v, self.get))

    def snapshot(self):
        out = {}
        for n in [*self.values, *self.props]:
            try:
                out[n] = self.get(n)
            except GetterError:
                out[n] = GetterError
        return out


def differs(a, b):
    if a is GetterError or b is GetterError:
        return a is not b
    if isinstance(a, np.ndarray):
        return not np.array_equal(a, b)
    return a != b


def norm(v):
    if isinstance(v, np.ndarray):
        return ("array", v.tolist())
    return v


def run_deps(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(case, ctx)


def _run(case, ctx):
    d = case["model"]
    M = make_class(case)
    ctx.count("guessed", bool(d["guess"]))
    ctx.count("guessed_and_declared", bool(d["mixed"]))
    ctx.count("two_bases", d["extra"] is not None)
    ctx.count("inherited", d["sub_fields"] is not None)
    if d["over"] is not None:
        ctx.count("overridden")
        ctx.count("diamonds", None not in d["over"])
    objs = [M(), M()]
    sims = [Sim(d), Sim(d)]
    names = [*sims[0].values, *sims[0].props]
    nested = list(d["nested"])
    n_dep = n_silent = 0
    log = []  # [model, "field"/"group"/"inner:..", name, value, snapshot]
    lis = [dict() for _ in objs]  # name -> list of callbacks
    link = [None, None]
    for k, o in enumerate(objs):
        for n in nested:
            sims[k].nested = getattr(sims[k], "nested", {})
            sims[k].nested[n] = {"x": d["nested"][n], "y": 2}

    def real_snapshot(k):
        out = {}
        for n in names:
            try:
                out[n] = getattr(objs[k], n)
            except GetterError:
                out[n] = GetterError
        return {n: norm(v) for n, v in out.items()}

    def sim_snapshot(k):
        return {n: norm(v) for n, v in sims[k].snapshot().items()}

    def inner_snapshot(k):
        return {n: {"x": getattr(objs[k], n).x, "y": getattr(objs[k], n).y} for n in nested}

    def connect(k, name):
        if name == "group":

            def cb(info, g=objs[k].events):
                assert isinstance(info, EmissionInfo)
                n = next(n for n in g if g[n] is info.signal)
                log.append([k, "group", n, norm(info.args[0]) if len(info.args) == 1 else info.args, real_snapshot(k), inner_snapshot(k)])

            objs[k].events.connect(cb)
        else:

            def cb(*a):
                log.append([k, "field", name, norm(a[0]) if len(a) == 1 else a, real_snapshot(k), None])

            objs[k].events[name].connect(cb)
        lis[k].setdefault(name, []).append(cb)

    def disconnect(k, name):
        if lis[k].get(name):
            cb = lis[k][name].pop()
            if name == "group":
                relay(objs[k].events).disconnect(cb)
            else:
                objs[k].events[name].disconnect(cb)

    def simulate(k, n, v, want):
        """Assign in the specification; append the events, batch by batch. Returns (expected exception, getter may raise)."""
        nonlocal n_dep, n_silent
        s = sims[k]
        before = s.snapshot()
        s.touched = set()
        exc = None
        try:
            s.set(n, v)
        except (SetterError, GetterError, AttributeError, pydantic.ValidationError) as e:
            exc = type(e)
        after = s.snapshot()
        could = set(s.touched)
        for t in s.touched:
            could |= s.deps.get(t, set())
        grey = any(before[x] is GetterError or after[x] is GetterError for x in could)
        emitted = set()
        for x in could:
            if x not in s.props and x not in s.touched:
                continue
            nf, ng = len(lis[k].get(x, [])), len(lis[k].get("group", []))
            if not nf + ng:
                continue
            if x in s.props:
                if differs(before[x], after[x]):
                    n_dep += 1
                    ctx.count("dependents_emitted")
                else:
                    n_silent += 1
                    ctx.count("dependents_silent")
            if differs(before[x], after[x]):
                emitted.add(x)
                want.append((k, "field", x, norm(after[x]), nf, s_norm(after)))
                want.append((k, "group", x, norm(after[x]), ng, s_norm(after)))
        if link[k] and exc is None and not grey:
            a, b, delta = link[k]
            if a in could and differs(before[a], after[a]):
                ctx.count("linked")
                saved, link[k] = link[k], None
                e2, g2 = simulate(k, b, after[a] + delta, want)
                link[k] = saved
                exc, grey = exc or e2, grey or g2
        return exc, grey

    def s_norm(snap):
        return {n: norm(v) for n, v in snap.items()}

    def verify(k, op, r, want, exc, grey, inner_want=()):
        """Compare outcome and events."""
        got = list(log)
        log.clear()
        what = f"{op[0]} {op[2:]}"
        if isinstance(r.exc, EmitLoopError) and link[k]:
            r = Outcome(exc=r.exc.__cause__)  # the assignment by a listener failed
        if exc is None and not grey:
            ctx.check(r.ok, lambda: f"{what} raised {type(r.exc).__name__}: {short(str(r.exc), 300)}")
        elif exc is not None:
            ctx.check(not r.ok, lambda: f"{what}: no exception, expected {exc.__name__}")
            if not grey and not link[k]:  # (the changes made before the failure are announced: a listener may fail as well)
                ctx.check(type(r.exc) is exc, lambda: f"{what} raised {r.exc!r}, expected {exc.__name__}")
        if not r.ok:
            ctx.check(isinstance(r.exc, (SetterError, GetterError, AttributeError, pydantic.ValidationError)), lambda: f"{what} raised {r.exc!r}")
            ctx.count("failed")
        if exc is None and not grey:
            g = sorted((e[0], e[1], e[2], repr(e[3])) for e in got if not e[1].startswith("inner"))
            w = sorted((e[0], e[1], e[2], repr(e[3])) for e in want for _ in range(e[4]))
            ctx.check(g == w, lambda: f"events by {what}: got {g}, expected {w}")
            # every listener gets the events of a signal in order
            order = {}
            for e in want:
                order.setdefault((e[1], e[2]), []).extend([repr(e[3])] * e[4])
            for (kind, n), vals in order.items():
                ctx.eq([repr(e[3]) for e in got if e[1] == kind and e[2] == n], vals, lambda: f"events of {n} by {what}, in order")
            gi = sorted((e[0], e[1], e[2], repr(e[3])) for e in got if e[1].startswith("inner"))
            ctx.eq(gi, sorted(inner_want), lambda: f"events of nested models by {what}")
            ctx.count("group_events", sum(e[1] == "group" for e in got))
        else:
            # no event is wrong or repeated
            seen = {}
            for e in got:
                ctx.check(e[0] == k, lambda: f"{what} failed, event of another model: {e}")
                if not e[1].startswith("inner"):
                    seen.setdefault((e[1], e[2]), []).append(e)
            if op[0] == "set" and not link[k]:
                for (kind, n), es in seen.items():
                    nl = len(lis[k].get("group" if kind == "group" else n, []))
                    ctx.check(len(es) <= nl, lambda: f"{what} failed, repeated events {es}")
                    ctx.check(repr(es[0][3]) == repr(real_snapshot(k)[n]), lambda: f"{what} failed, wrong event {es[0][:4]}, values {real_snapshot(k)}")
        return got

    def resync(k):
        """After a failure: go on with the values the model has."""
        s = sims[k]
        for f in s.values:
            s.values[f] = getattr(objs[k], f)
        for n in nested:
            s.nested[n] = {"x": getattr(objs[k], n).x, "y": getattr(objs[k], n).y}

    failed = [False, False]

    def state_check(k):
        for kk in range(len(objs)):
            ctx.eq(real_snapshot(kk), sim_snapshot(kk), lambda: f"values of model {kk}")
            if nested:
                ctx.eq(inner_snapshot(kk), sims[kk].nested, lambda: f"values of nested models of model {kk}")

    def inner_listen(k, n, what):
        im = getattr(objs[k], n)
        key = f"inner:{n}:{what}"
        if lis[k].get(key) and lis[k][key][0] is im:
            return
        if what == "group":

            def cb(info):
                log.append([k, f"inner-group:{n}", info.signal.name, info.args[0], {"x": im.x, "y": im.y}, None])

            im.events.connect(cb)
        else:

            def cb(v):
                log.append([k, f"inner:{n}", what, v, None, None])

            im.events[what].connect(cb)
        lis[k][key] = [im, cb]

    def set_inner(k, n, f, v, want):
        s = sims[k].nested[n]
        if s[f] != v:
            s[f] = v
            im = getattr(objs[k], n)
            for what, kind in ((f, f"inner:{n}"), ("group", f"inner-group:{n}")):
                L = lis[k].get(f"inner:{n}:{what}")
                if L and L[0] is im:
                    want.append((k, kind, f, repr(v)))

    def do(op):
        kind, k = op[0], op[1]
        o, s = objs[k], sims[k]
        if kind == "connect":
            connect(k, op[2])
        elif kind == "disconnect":
            disconnect(k, op[2])
        elif kind == "link":
            if link[k] is None and op[2] in s.values and op[3] in s.values and op[2] != op[3]:
                a, b, delta = op[2], op[3], op[4]

                def follow(v, o=o):
                    setattr(o, b, v + delta)

                o.events[a].connect(follow)
                lis[k].setdefault("links", []).append(follow)
                link[k] = (a, b, delta)
        elif kind == "inner":
            inner_listen(k, op[2], op[3])
        elif kind == "set":
            n, v = op[2], op[3]
            want = []
            exc, grey = simulate(k, n, v, want)
            r = attempt(setattr, o, n, v)
            ctx.count("assignments")
            ctx.count("setter_calls", n in s.props)
            if failed[k]:
                ctx.count("after_failure")
                failed[k] = False
            had_link = link[k]
            got = verify(k, op, r, want, exc, grey)
            if exc or grey or not r.ok:
                resync(k)
                failed[k] = True
            elif not had_link:
                final = sim_snapshot(k)
                for e in got:
                    ctx.count("snapshots")
                    ctx.eq(e[4], final, lambda: f"{kind} {n}: values seen by the listener of {e[2]}")
        elif kind in ("update", "update_model", "reset"):
            want, iw = [], []
            bad = False
            seq = op[2] if kind != "reset" else []
            if kind == "update_model":
                other = M(**{n: v for n, v in seq if n in s.values})
                for n, v in seq:
                    if n in nested and isinstance(v, dict):
                        for f, x in v.items():
                            setattr(getattr(other, n), f, x)
                full = []
                for f in type(o).model_fields:
                    if f in nested:
                        full.append([f, {"x": getattr(other, f).x, "y": getattr(other, f).y}])
                    else:
                        full.append([f, getattr(other, f)])
                arg, seq = other, full
            elif kind == "update":
                arg = dict((n, v) for n, v in seq)
                if op[4]:
                    # (a model for each nested model, instead of a dict: all of its fields count)
                    for n, v in arg.items():
                        if n in nested:
                            arg[n] = Inner(**v)
                            ctx.count("nested_values")
                seq = [(n, {"x": v.x, "y": v.y} if isinstance(v, Inner) else v) for n, v in arg.items()]
            else:
                for f in type(o).model_fields:
                    seq.append([f, {"x": d["nested"][f], "y": 2} if f in nested else s.defaults[f]])
            recurse = op[3] if kind != "reset" else True
            replaced = []
            for n, v in seq:
                if n in nested:
                    if isinstance(v, dict) and recurse:
                        ctx.count("nested_updates")
                        for f, x in v.items():
                            set_inner(k, n, f, x, iw)
                    else:
                        old = dict(s.nested[n])
                        s.nested[n] = {"x": v.get("x", 1), "y": v.get("y", 2)}
                        replaced.append(n)
                        if old != s.nested[n]:
                            want.append((k, "group", n, None, len(lis[k].get("group", [])), None))
                    continue
                e, g = simulate(k, n, v, want)
                if e or g:
                    bad = True
                    exc, grey = e, g
                    break
            if not bad:
                exc, grey = None, False
            inner_before = {n: getattr(o, n) for n in nested}
            if kind == "reset":
                ctx.count("resets")
                r = attempt(o.reset)
            else:
                ctx.count("updates")
                r = attempt(o.update, arg) if recurse else attempt(o.update, arg, recurse=False)
            if bad and not exc:
                # (only getters may have failed)
                pass
            # the value emitted for a replaced nested model is the model itself
            want = [(w[0], w[1], w[2], "<inner>", w[4], w[5]) if w[3] is None else w for w in want]
            for e in log:
                if e[2] in nested and e[1] == "group":
                    ctx.check(e[3] is getattr(o, e[2]), lambda: f"{kind}: emitted {e[3]!r} for {e[2]}")
                    e[3] = "<inner>"
            had_link = link[k]
            got = verify(k, op, r, want, exc, grey, iw)
            if bad or not r.ok:
                resync(k)
                failed[k] = True
                return
            for n in nested:
                ctx.check((getattr(o, n) is inner_before[n]) != (n in replaced), lambda: f"{kind}: nested model {n} was {'not ' if n in replaced else ''}replaced")
            if kind != "reset" and not had_link:
                final = sim_snapshot(k)
                for e in got:
                    if e[1] == "group":
                        ctx.count("snapshots")
                        ctx.eq(e[4], final, lambda: f"{kind}: values seen by the group listener for {e[2]}")
                        ctx.eq(e[5], s.nested if nested else {}, lambda: f"{kind}: nested values seen by the group listener")
                    elif e[1].startswith("inner-group"):
                        ctx.eq(e[4], s.nested[e[1].split(":")[1]], lambda: f"{kind}: values seen by the group listener of a nested model")

    for op in case["ops"]:
        do(op)
        state_check(op[1])
    if n_dep and n_silent:
        ctx.nontrivial()


def gen_deps(rng, i, tier):
    fields = {f: rng.randint(0, 3) for f in ["a", "b", "c", "e"][: rng.randint(1, 4)]}
    guess = rng.random() < 0.3
    fl = list(fields)

    def make_props(names, known_fields, known_props):
        props = []
        ints = dict(known_props)
        for nm in names:
            kind = rng.choice(["sum", "sum", "coarse", "coarse", "tuple", "array", "const", "raise"] if rng.random() < 0.5 else ["sum", "coarse", "tuple"])
            pool = list(known_fields)
            if not guess:
                pool += [p for p in ints]
            reads = rng.sample(pool, rng.randint(1, min(3, len(pool))))
            closure = set()
            for r in reads:
                closure |= {r} if r in known_fields else ints[r]
            declared = sorted(closure | set(rng.sample(known_fields, rng.randint(0, 1))))
            setter = []
            for _ in range(rng.randint(0, 4)):
                x = rng.random()
                tgt = rng.choice(known_fields)
                others = [p["name"] for p in props] + [p for p in known_props]
                if x < 0.06:
                    setter.append(["raise"])
                elif x < 0.12:
                    setter.append(["set", tgt, "bad", 0])
                elif x < 0.25 and others:
                    setter.append(["set", rng.choice(others), "v", rng.randint(-1, 1)])
                elif x < 0.4:
                    setter.append(["set", tgt, "const", rng.randint(0, 3)])
                elif x < 0.6:
                    setter.append(["set", tgt, "inc", rng.randint(-1, 1), rng.choice(known_fields)])
                else:
                    setter.append(["set", tgt, "v", rng.randint(-1, 1)])
            props.append({"name": nm, "kind": kind, "k": rng.randint(0, 2), "reads": reads, "declared": declared, "setter": setter})
            if kind in ("sum", "coarse", "const"):
                ints[nm] = closure
        return props, ints

    n_props = rng.randint(1, 4)
    props, ints = make_props([f"p{j}" for j in range(n_props)], fl, {})
    sub_fields = sub_props = None
    if rng.random() < 0.25:
        sub_fields = {"g": rng.randint(0, 3)}
        sub_props, _ = make_props(["q0"][: rng.randint(0, 1)], [*fl, "g"], ints)
    else:
        sub_props = []
    over = None
    if rng.random() < 0.25:
        allp = props + (sub_props if sub_fields is not None else [])

        def overrides():
            out = []
            for p in rng.sample(allp, rng.randint(0, min(2, len(allp)))):
                kinds = ["sum", "coarse", "const"] if p["kind"] in ("sum", "coarse", "const") else ["sum", "tuple", "array"]
                reads = rng.sample(fl, rng.randint(1, min(3, len(fl))))
                setter = [["set", rng.choice(fl), "v", rng.randint(-2, 2)] for _ in range(rng.randint(0, 2))]
                out.append({"name": p["name"], "kind": rng.choice(kinds), "k": rng.randint(0, 2), "reads": reads, "declared": sorted(reads), "setter": setter, "readonly": rng.random() < 0.1})
            return out

        over = [overrides(), overrides() if rng.random() < 0.7 else None]
    extra = None
    if rng.random() < 0.2:
        names = ["r0", "r1"][: rng.randint(1, 2)]
        eprops, _ = make_props(names, ["h", "i"], {})
        extra = {"fields": {"h": rng.randint(0, 3), "i": rng.randint(0, 3)}, "props": eprops, "first": rng.random() < 0.5}
    nested = {n: rng.randint(0, 4) for n in ["n0", "n1"][: rng.choice([0, 0, 1, 2])]}
    # dependencies of some are declared, although they are guessed as well
    mixed = [p["name"] for p in props if rng.random() < 0.4] if guess and over is None and rng.random() < 0.5 else []
    model = {"fields": fields, "props": props, "guess": guess, "mixed": mixed, "sub_fields": sub_fields, "sub_props": sub_props, "nested": nested, "over": over, "extra": extra}
    alls = fl + list(sub_fields or {}) + (list(extra["fields"]) if extra else [])
    pn = [p["name"] for p in props + (sub_props or []) + (extra["props"] if extra else [])]
    ops = []

    def val():
        x = rng.random()
        return rng.randint(0, 8) if x < 0.9 else (1001 if x < 0.97 else 2000)

    def upd(valid):
        out = [[n, rng.randint(0, 8) if valid else val()] for n in rng.sample(alls + pn, rng.randint(0, min(4, len(alls + pn))))]
        for n in nested:
            if rng.random() < 0.5:
                out.insert(rng.randint(0, len(out)), [n, {f: rng.randint(0, 4) for f in ("x", "y") if rng.random() < 0.7}])
        return out

    for _ in range(rng.randint(5, 40)):
        k = rng.choice([0, 0, 0, 1])
        x = rng.random()
        if x < 0.25:
            ops.append(["connect", k, rng.choice([*alls, *pn, *pn, "group"])])
        elif x < 0.30:
            ops.append(["disconnect", k, rng.choice([*alls, *pn, "group"])])
        elif x < 0.33:
            ops.append(["link", k, rng.choice(alls), rng.choice(alls), rng.randint(-1, 1)])
        elif x < 0.37 and nested:
            ops.append(["inner", k, rng.choice(list(nested)), rng.choice(["x", "y", "group"])])
        elif x < 0.45:
            ops.append(["update", k, upd(False), rng.random() < 0.8, rng.random() < 0.3])
        elif x < 0.48:
            ops.append(["update_model", k, [[n, v] for n, v in upd(True) if n not in pn], True])
        elif x < 0.54:
            ops.append(["reset", k])
        elif x < 0.75 and pn:
            ops.append(["set", k, rng.choice(pn), val()])
        else:
            ops.append(["set", k, rng.choice(alls), val()])
    return {"model": model, "ops": ops}


# ------------------------------------------------------------------ defaults


class Leaf(EventedModel):
    x: int = 1
    tags: list[str] = []


class Node(EventedModel):
    leaf: Leaf = Leaf(x=5)
    z: int = 3
    frz: int = Field(4, frozen=True)


SPEC = {
    "i": (int, 0, [0, 1, 2]), "l": (list[int], [1], [[], [1], [1, 2]]), "fac": (dict[str, int], "dict", [{}, {"a": 1}]), "none": (Optional[int], None, [None, 1]),
    "node": (Node, "node", []), "leaf": (Optional[Leaf], "leaf7", [None]), "optleaf": (Optional[Leaf], None, ["leaf", None]), "req": (int, ..., [5, 6]),
    "frz": (int, "frozen", []), "anyleaf": (Any, "leaf7", [3, "leaf"]), "late": (list[int], "late", [[], [1, 2]]),
}


def default_of(d):
    if d == "dict":
        return Field(default_factory=dict)
    if d == "late":
        return Field(default_factory=lambda data: [data.get("i", -1), data.get("req", -1)])
    if d == "node":
        return Node(leaf=Leaf(x=6), z=8)
    if d == "leaf7":
        return Leaf(x=7)
    if d == "frozen":
        return Field(2, frozen=True)
    return d


def plain(v):
    return (type(v).__name__, {k: plain(x) for k, x in v}) if isinstance(v, pydantic.BaseModel) else v


def run_reset(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ns = {"__module__": "vh.fake", "__qualname__": "M", "__annotations__": {f: SPEC[f][0] for f in case["fields"]}}
        for f in case["fields"]:
            if f != "req":
                ns[f] = default_of(SPEC[f][1])
        ns["model_config"] = ConfigDict(validate_assignment=case["validate"], **({"reemission": "queued"} if case["queued"] else {}))
        M = type(EventedModel)("M", (EventedModel,), ns)
    req = {"req": 9} if "req" in case["fields"] else {}
    fresh, m, other = M(**req), M(**req), M(**req)
    want = {f: plain(getattr(fresh, f)) for f in case["fields"] if f != "req"}
    initially = copy.deepcopy(want)
    want = copy.deepcopy(want)
    log = []
    keep = []

    def listen(obj, n, path):
        def cb(v):
            log.append((path + n, plain(v)))

        keep.append(cb)
        obj.events[n].connect(cb)

    for f in case["fields"]:
        if f != "frz":
            listen(m, f, "")
    changed = 0
    for op in case["ops"]:
        f = op[1]
        if op[0] == "set" and f in case["fields"]:
            setattr(m, f, Leaf(x=op[2]["x"], tags=["t"]) if isinstance(op[2], dict) and "x" in op[2] else json.loads(json.dumps(op[2])))
        elif op[0] == "deep" and f in case["fields"]:
            v = getattr(m, f)
            if isinstance(v, Node):
                v.leaf.x = op[2]
                v.leaf.tags.append("deep")
                v.z = op[2]
            elif isinstance(v, Leaf):
                v.x = op[2]
                v.tags.append("deep")
            elif isinstance(v, list):
                v.append(op[2])
            elif isinstance(v, dict):
                v["deep"] = op[2]
        elif op[0] == "reset":
            log.clear()
            before = {f: plain(copy.deepcopy(getattr(m, f))) for f in case["fields"]}
            objs = {f: getattr(m, f) for f in case["fields"]}
            heard = {}
            for f, v in objs.items():
                if isinstance(v, EventedModel):
                    for g in type(v).model_fields:
                        if g != "frz":
                            listen(v, g, f"{f}.")
            m.reset()
            ctx.count("resets")
            if "late" in want and "req" in case["fields"][: case["fields"].index("late")]:
                want["late"][1] = m.req
                ctx.count("computed_defaults")
            exp = []
            for f in case["fields"]:
                now = getattr(m, f)
                if f in ("req", "frz"):
                    ctx.check(plain(now) == before[f], lambda: f"reset() changed {f}")
                    continue
                ctx.eq(plain(now), want[f], lambda: f"{f} after reset()")
                ctx.check(not isinstance(now, (list, dict)) or (now is not getattr(other, f) and now is not getattr(fresh, f)), lambda: f"{f}: two models share a default")
                same_model = isinstance(objs[f], EventedModel) and type(objs[f]) is type(getattr(fresh, f))
                if same_model:
                    ctx.check(now is objs[f], lambda: f"reset() replaced the nested model {f}")
                    for g in type(now).model_fields:
                        a, b = before[f][1][g], want[f][1][g]
                        if a != b and g not in ("frz", "leaf"):
                            exp.append((f"{f}.{g}", b))
                elif before[f] != want[f]:
                    exp.append((f, want[f]))
                    changed += 1
            ctx.eq(sorted(map(repr, log)), sorted(map(repr, exp)), "events by reset()")
            log.clear()
            for f, v in objs.items():
                if isinstance(v, EventedModel):
                    for g in type(v).model_fields:
                        if g != "frz":
                            v.events[g].disconnect()
            del heard
        ctx.eq({f: plain(getattr(other, f)) for f in want}, initially, "values of another model")
        ctx.eq({f: plain(getattr(M(**req), f)) for f in want}, initially, "values of a new model")
    if changed:
        ctx.nontrivial()


def gen_reset(rng, i, tier):
    fields = rng.sample(list(SPEC), rng.randint(1, 6))
    ops = []
    for _ in range(rng.randint(3, 14)):
        f = rng.choice(fields)
        x = rng.random()
        if x < 0.3:
            ops.append(["reset", None])
        elif x < 0.6:
            ops.append(["deep", f, rng.randint(0, 9)])
        elif SPEC[f][2]:
            v = rng.choice(SPEC[f][2])
            ops.append(["set", f, {"x": rng.randint(0, 9)} if v == "leaf" else v])
    ops.append(["reset", None])
    return {"fields": fields, "validate": rng.random() < 0.5, "queued": rng.random() < 0.3, "ops": ops}


# ------------------------------------------------------------------ models in models in models


class DLeaf(EventedModel):
    x: int = 1
    y: int = 2
    model_config = ConfigDict(validate_assignment=True)

    @computed_field
    @property
    def both(self) -> int:
        return self.x + self.y


class DMid(EventedModel):
    leaf: DLeaf = DLeaf()
    maybe: Optional[DLeaf] = None
    k: int = 0
    model_config = ConfigDict(validate_assignment=True)


class DTop(EventedModel):
    mid: DMid = DMid()
    mid2: DMid = Field(default_factory=lambda: DMid(k=5))
    k: int = 0
    model_config = ConfigDict(validate_assignment=True)

    @computed_field
    @property
    def minus(self) -> int:
        return -self.k


NODES = {"top": DTop, "mid": DMid, "leaf": DLeaf}
KIND = {"mid": "mid", "mid2": "mid", "leaf": "leaf", "maybe": "leaf"}


def tree(m):
    return {n: tree(v) if isinstance(v := getattr(m, n), EventedModel) else v for n in type(m).model_fields}


def nodes(m, path=()):
    yield path, m
    for n in type(m).model_fields:
        if isinstance(v := getattr(m, n), EventedModel):
            yield from nodes(v, (*path, n))


def run_deep(case, ctx):
    """update() and reset() of nested models."""
    tops = [DTop(), DTop()]
    log = []
    lis = []

    def filled(kind, vals):
        return tree(NODES[kind](**vals))

    def spec(before, kind, path, vals, recurse, exp, groups):
        """The values after an update; the events expected are appended."""
        after = dict(before)
        for n, v in vals.items():
            if recurse and isinstance(before[n], dict) and isinstance(v, dict):
                after[n] = spec(before[n], KIND[n], (*path, n), v, recurse, exp, groups)
            else:
                after[n] = filled(KIND[n], v) if isinstance(v, dict) else v
                if after[n] != before[n]:
                    exp.append((path, n, after[n]))
        groups[path] = after
        return after

    def value(kind, vals, how):
        """The same values as a dict or as a model."""
        if how == "model" and vals is not None:
            return NODES[kind](**vals)
        if how == "plain" and vals is not None:
            # of another class, which need not be evented
            return pydantic.create_model("Plain", **{n: (Any, v) for n, v in vals.items()})()
        if how == "inner" and vals is not None:
            return {n: NODES[KIND[n]](**v) if isinstance(v, dict) else v for n, v in vals.items()}
        return copy.deepcopy(vals)

    for op in case["ops"]:
        top = tops[op[1]]
        # listen to everything
        lis.clear()
        log.clear()
        for k, t in enumerate(tops):
            for path, m in nodes(t):
                m.events.disconnect()
                relay(m.events).disconnect()
                if k != op[1] or case["listen"] != "groups":
                    for n in type(m).model_fields:

                        def cb(v, k=k, path=path, n=n):
                            log.append(("field", k, path, n, tree(v) if isinstance(v, EventedModel) else v))

                        m.events[n].connect(cb)
                        lis.append(cb)
                if k != op[1] or case["listen"] != "fields":

                    def gcb(info, k=k, path=path, m=m):
                        log.append(("group", k, path, info.signal.name, tree(m)))

                    m.events.connect(gcb)
                    lis.append(gcb)
        before = tree(top)
        other = tree(tops[1 - op[1]])
        ids = {p: m for p, m in nodes(top)}
        exp, groups = [], {}
        path, m = list(nodes(top))[op[2] % len(ids)]
        kind = KIND[path[-1]] if path else "top"
        vals = fit(op[3], kind)
        how, recurse = op[4], op[5]
        full = {n: v for n, v in vals.items()}
        if how == "model":
            full = filled(kind, vals)
        x = value(kind, vals, how)
        m.update(x, recurse=recurse) if not recurse or op[6] else m.update(x)
        if how == "inner":
            # (models given within a dict are complete, and stored as they are)
            full = {n: filled(KIND[n], v) if isinstance(v, dict) else v for n, v in vals.items()}
        node = before
        for n in path:
            node = node[n]
        want = spec(node, kind, path, full, recurse, exp, groups)
        ctx.count("deep_updates", len(path) < 2)
        ctx.count("flat_updates", not recurse)
        ctx.eq(tree(m), want, lambda: f"values after {op} (from {how})")
        ctx.eq(tree(tops[1 - op[1]]), other, "values of another model")
        now = {p: q for p, q in nodes(top)}
        replaced = {(*p, n) for p, n, _ in exp}
        for p, q in now.items():
            if p in ids and not any(p[: len(r)] == r for r in replaced):
                same = q is ids[p] or not recurse and len(p) > len(path)
                ctx.check(same, lambda: f"{op}: the nested model {'.'.join(p)} was replaced")
        got = [e for e in log if e[1] == op[1]]
        ctx.check(len(got) == len(log), lambda: f"{op}: events of another model: {short(log)}")
        if case["listen"] != "groups":
            ctx.eq(sorted(map(repr, [e[2:] for e in got if e[0] == "field"])), sorted(map(repr, exp)), lambda: f"events of fields by {op} (from {how})")
        gots = [e for e in got if e[0] == "group"]
        if case["listen"] != "fields":
            ctx.eq(sorted(map(repr, [e[2:4] for e in gots])), sorted(repr((p, n)) for p, n, _ in exp), lambda: f"events of groups by {op} (from {how})")
            for e in gots:
                ctx.eq(e[4], groups[e[2]], lambda: f"{op}: values of {'.'.join(e[2])} when the listener of the group is called")
        ctx.count("deep_events", len(exp))
        if len(path) < 2 and any(len(p) > len(path) for p, _, _ in exp):
            ctx.nontrivial()
        # what was given is not shared with the models (if it wasn't stored itself)
        if how in ("dict", "model"):
            after = tree(top)
            if how == "dict":
                for v in x.values():
                    if isinstance(v, dict):
                        v.clear()
            else:
                for _, q in list(nodes(x)):
                    for n in type(q).model_fields:
                        if isinstance(getattr(q, n), int):
                            setattr(q, n, 99)
            ctx.eq(tree(top), after, lambda: f"values after those given to update() were changed ({how})")


def fit(vals, kind):
    out = {}
    for n, v in vals.items():
        if n in NODES[kind].model_fields:
            out[n] = fit(v, KIND[n]) if isinstance(v, dict) else v
    return out


def gen_deep(rng, i, tier):
    def vals(kind):
        out = {}
        for n in NODES[kind].model_fields:
            if rng.random() < 0.5:
                out[n] = (None if n == "maybe" and rng.random() < 0.4 else vals(KIND[n])) if n in KIND else rng.randint(0, 4)
        ks = list(out)
        rng.shuffle(ks)
        return {k: out[k] for k in ks}

    def merged():
        # (for whichever model it will be)
        a = {**vals("leaf"), **vals("mid"), **vals("top")}
        ks = list(a)
        rng.shuffle(ks)
        return {k: a[k] for k in ks}

    ops = []
    for _ in range(rng.randint(2, 10)):
        ops.append(["update", rng.randint(0, 1), rng.randint(0, 20) * (rng.random() < 0.6), merged(), rng.choice(["dict", "dict", "model", "plain", "inner"]), rng.random() < 0.7, rng.random() < 0.5])
    return {"listen": rng.choice(["both", "both", "fields", "groups"]), "ops": ops}


# ------------------------------------------------------------------ fields that depend on fields


def run_fields(case, ctx):
    """Fields that a validator computes from others."""
    rules = case["rules"]

    def compute(d):
        for tgt, srcs, k in rules:
            d[tgt] = sum(d[x] for x in srcs) // k
        return d

    def fix(self):
        compute(self.__dict__)
        return self

    ns = {"__module__": "vh.fake", "__qualname__": "M", "__annotations__": dict.fromkeys("abcde", int), **{f: j for j, f in enumerate("abcde")}}
    ns["_fix"] = pydantic.model_validator(mode="after")(fix)
    deps = {tgt: list(closure) for tgt, closure in case["declared"].items()}
    ns["p"] = property(lambda self: self.a // 2, lambda self, v: setattr(self, "a", v))
    if case["prop"]:
        deps["p"] = ["a"]
    ns["model_config"] = ConfigDict(validate_assignment=True, allow_property_setters=True, field_dependencies=deps)
    M = type(EventedModel)("M", (EventedModel,), ns)
    m = M()
    vals = compute({f: j for j, f in enumerate("abcde")})
    log = []
    lis = {}
    for op in case["ops"]:
        n = op[1]
        if op[0] == "connect" and n not in lis:
            if n == "group":

                def cb(info):
                    log.append(("group", info.signal.name, info.args))

                m.events.connect(cb)
            else:

                def cb(v, n=n):
                    log.append(("field", n, v))

                m.events[n].connect(cb)
            lis[n] = cb
        elif op[0] == "disconnect" and n in lis:
            (relay(m.events) if n == "group" else m.events[n]).disconnect(lis.pop(n))
        elif op[0] == "set":
            before = dict(vals)
            vals[n] = op[2]
            compute(vals)
            log.clear()
            setattr(m, n, op[2])
            changed = [f for f in [n, *(t for t in deps if t != "p" and n in deps[t])] if before[f] != vals[f]]
            if case["prop"] and n == "a" and before["a"] // 2 != vals["a"] // 2:
                changed.append("p")
            now = {**vals, "p": vals["a"] // 2}
            want = [("field", f, now[f]) for f in set(changed) if f in lis]
            if "group" in lis:
                want += [("group", f, (now[f],)) for f in set(changed)]
            ctx.eq(sorted(map(repr, log)), sorted(map(repr, want)), lambda: f"events by {n} = {op[2]} (fields before: {before}, rules {rules})")
            ctx.count("field_dependents", sum(f != n for f in changed))
            if any(f != n and f in lis for f in changed):
                ctx.nontrivial()
        ctx.eq({f: getattr(m, f) for f in "abcde"}, vals, lambda: f"fields after {op}")


def gen_fields(rng, i, tier):
    free = rng.sample("abcde", rng.randint(1, 4))
    known = {f: {f} for f in free}
    rules, declared = [], {}
    for f in [x for x in "abcde" if x not in free]:
        srcs = rng.sample(sorted(known), rng.randint(1, min(2, len(known))))
        clo = set().union(*(known[x] for x in srcs))
        rules.append([f, srcs, rng.choice([1, 1, 2, 3])])
        declared[f] = sorted(clo)
        known[f] = clo
    ops = []
    for _ in range(rng.randint(4, 25)):
        x = rng.random()
        if x < 0.35:
            ops.append(["connect", rng.choice([*"abcde", "p", "group"])])
        elif x < 0.42:
            ops.append(["disconnect", rng.choice([*"abcde", "p", "group"])])
        else:
            ops.append(["set", rng.choice("abcde"), rng.randint(0, 6)])
    return {"rules": rules, "declared": declared, "prop": rng.random() < 0.5, "ops": ops}


WORKLOADS = [
    Workload("deps", gen_deps, run_deps, quick=3500, thorough=50000),
    Workload("reset", gen_reset, run_reset, quick=600, thorough=8000),
    Workload("deep", gen_deep, run_deep, quick=500, thorough=15000),
    Workload("fields", gen_fields, run_fields, quick=500, thorough=15000),
]
