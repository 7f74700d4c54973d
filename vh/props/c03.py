"""C03: callback arity and types are validated; extra arguments are dropped."""
import functools
import inspect
from inspect import Parameter as P
from typing import Optional, Union

from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup, SignalInstance
from vh import zoo
from vh.core import Workload, attempt

PROP = "C03"
RULE = (
    "random callback signatures (positional-only, defaults, *args, keyword-only with and without default, **kwargs) in 15 "
    "forms (function, method, classmethod, static, callable object, class, wrapped, partials and curried functions of positional and keyword "
    "arguments, builtin, Qt and psygnal signals) against signals of 0..6 arguments; oracle: the numbers of arguments with "
    "which the callable can really be called (tried out); types: compatible and incompatible annotations of known "
    "relation; the same for callbacks connected to a group (one EmissionInfo) or with connect_direct to its members; emit() checks against the real binding of a twin function; non-trivial: a connection was decided and, if "
    "accepted, an emission observed; distinct by case"
)
REQUIRE = {"accepted": 200, "rejected": 100, "truncated": 100, "type_rejected": 50, "types_only": 200, "type_accepted": 50, "group_accepted": 200, "group_rejected": 100, "emit_rejected": 50, "emit_accepted": 50, "max_args": 30, "reused_decorators": 100}


# ---------------------------------------------------------------- arity


def src(params, name="f", first=""):
    """Source of a function that records everything it got."""
    parts, seen_star = ([first] if first else []), False
    pos = [p for p in params if p[0] == "po"]
    for kind, nm, dflt in params:
        if kind == "po":
            parts.append(nm + ("=0" if dflt else ""))
            if nm == pos[-1][1]:
                parts.append("/")
        elif kind == "pk":
            parts.append(nm + ("=0" if dflt else ""))
        elif kind == "var":
            parts.append("*" + nm)
            seen_star = True
        elif kind == "ko":
            if not seen_star:
                parts.append("*")
                seen_star = True
            parts.append(nm + ("=0" if dflt else ""))
        elif kind == "kw":
            parts.append("**" + nm)
    got = ", ".join(f"{nm!r}: {nm}" for _, nm, _ in params)
    return f"def {name}({', '.join(parts)}):\n    REC({{{got}}})\n"


def build(form, params, npart, rec):
    """Return (callback, things to keep alive)."""
    ns = {"REC": rec}
    meth = form in ("method", "classmethod", "obj", "class", "pmethod")
    if form == "classmethod":
        first = "cls"
    elif meth:
        first = "self"
    else:
        first = ""
    # (a method with a positional-only first parameter)
    exec(src(params, first=first), ns)
    f = ns["f"]
    pos = [nm for k, nm, d in params if k in ("po", "pk")]
    if form == "func":
        return f, None
    if form == "method" or form == "pmethod":
        o = type("O", (), {"f": f})()
        if form == "pmethod":
            return functools.partial(o.f, *(["bound"] * npart)), o
        return o.f, o
    if form == "classmethod":
        K = type("K", (), {"f": classmethod(f)})
        return K.f, K
    if form == "static":
        K = type("K", (), {"f": staticmethod(f)})
        return K.f, K
    if form == "obj":
        o = type("O", (), {"__call__": f})()
        return o, o
    if form == "class":
        K = type("K", (), {"__init__": f})
        return K, K
    if form == "wrapped":

        @functools.wraps(f)
        def g(*a, **k):
            return f(*a, **k)

        return g, None
    if form == "partial":
        return functools.partial(f, *(["bound"] * npart)), None
    if form == "curry":
        return zoo._curry(f, *(["bound"] * npart)), None
    if form == "ckw":
        ko = [nm for k, nm, d in params if k == "ko"]
        return zoo._curry(f, *(["bound"] * npart), **{nm: "kwbound" for nm in ko}), None
    if form == "pkw":
        pk = [nm for k, nm, d in params if k in ("pk", "ko")]
        return functools.partial(f, **{nm: "kwbound" for nm in pk[len(pk) - npart :]}), None
    if form == "pp":
        return functools.partial(functools.partial(f, *(["b1"] * (npart // 2))), *(["b2"] * (npart - npart // 2))), None
    raise KeyError(form)


class Rec:
    def __init__(self):
        self.got = []

    def __call__(self, d):
        d.pop("self", None)
        d.pop("cls", None)
        self.got.append(d)


def make_sig(n, case):
    if case["via"] == "descriptor":
        return type("T", (), {"s": Signal(*[object] * n)})()
    if case["via"] == "signature":
        return SignalInstance(inspect.Signature([P(f"q{i}", P.POSITIONAL_OR_KEYWORD) for i in range(n)]))
    return SignalInstance((object,) * n)


def run_arity(case, ctx):
    n = case["n"]
    holder = make_sig(n, case)
    sig = getattr(holder, "s", holder)
    rec = Rec()
    form = case["form"]
    if form in ("qt", "deque", "sigemit", "sig"):
        return run_special(case, ctx, sig, n)
    cb, owner = build(form, case["params"], case["npart"], rec)
    # oracle: try
    can = []
    for j in range(n + 8):
        n_got = len(rec.got)
        if attempt(cb, *range(j)).ok and len(rec.got) > n_got:  # (curried functions may just return another one)
            can.append(j)
    rec.got.clear()
    accept = any(j <= n for j in can)
    if not accept and form in ("curry", "ckw"):
        ctx.count("still_curried")  # (calling it with too few arguments is not an error)
        return
    others = []
    sig.connect(lambda *a: others.append(a), priority=case["other_prio"])
    opts = {}
    max_args = None
    if case["max_args"] is not None:
        # (disables the check: choose one with which the callback can be called)
        k = case["max_args"]
        if min(k, n) in can:
            max_args = k
            opts["max_args"] = k
            accept = True
            ctx.count("max_args")
    if case["explicit"]:
        opts["check_nargs"] = True
    n_before, none, rest = 1, [], []
    if case["deco"]:
        deco = sig.connect(**opts)
        if case.get("reuse"):
            # (one decorator for several callbacks)
            ctx.count("reused_decorators")
            if max_args is None:
                deco(no_args := lambda: none.append(1))
                n_before += 1
            deco(all_args := lambda *a: rest.append(a))
            n_before += 1
        r = attempt(lambda: deco(cb))
        if case.get("reuse") and r.ok:
            deco(all_args2 := lambda *a: rest.append(a))
    else:
        r = attempt(sig.connect, cb, **opts)
    what = f"callback {form} {case['params']} (callable with {can} arguments) and signal with {n} arguments, {opts}"
    ctx.nontrivial()
    if not accept:
        ctx.check(not r.ok and isinstance(r.exc, ValueError), lambda: f"{what}: connect {r}, expected ValueError")
        ctx.eq(len(sig), n_before, f"{what}: connections after rejection")
        ctx.count("rejected")
        return
    ctx.check(r.ok, lambda: f"{what}: connect {r}, should be accepted")
    ctx.count("accepted")
    m = min(n, max_args) if max_args is not None else max(j for j in can if j <= n)
    if m < n:
        ctx.count("truncated")
    for rep in range(2):
        for how in (sig.emit, sig.emit_fast, sig):
            vals = tuple(object() for _ in range(n))
            rec.got.clear()
            cb(*vals[:m])
            want = rec.got[:]
            rec.got.clear()
            others.clear()
            none.clear()
            rest.clear()
            r = attempt(how, *vals)
            ctx.check(r.ok, lambda: f"{what}: emission {r}")
            ctx.eq(rec.got, want, f"{what}: received arguments")
            ctx.eq(others, [vals], f"{what}: arguments received by another callback")
            if case["deco"] and case.get("reuse"):
                ctx.eq(rest, [vals[:max_args]] * 2, f"{what}: arguments received by callbacks connected by the same decorator")
                ctx.eq(none, [1] * (max_args is None), f"{what}: calls of a callback without parameters connected by the same decorator")


def run_special(case, ctx, sig, n):
    form, k = case["form"], case["npart"]
    got = []
    if form == "qt":
        from PyQt6.QtCore import QObject, pyqtSignal

        Q = type("Q", (QObject,), {"qs": pyqtSignal(*[object] * k)})
        o = Q()
        o.qs.connect(lambda *a: got.append(a))
        cb = o.qs.emit if case["deco"] else o.qs
        if not case["deco"]:
            cb = o.qs.emit
        accept, m = k <= n, k
    elif form == "deque":
        o = type("L", (list,), {})()
        cb = o.append
        accept, m = n >= 1, 1
    else:
        o = SignalInstance((object,) * n)
        o.connect(lambda *a: got.append(a), check_nargs=False)
        cb = o.emit if form == "sigemit" else o
        accept, m = True, n
    r = attempt(sig.connect, cb)
    what = f"callback {form}({k}) and signal with {n} arguments"
    ctx.nontrivial()
    if not accept:
        ctx.check(not r.ok and isinstance(r.exc, ValueError), lambda: f"{what}: connect {r}, expected ValueError")
        ctx.count("rejected")
        return
    ctx.check(r.ok, lambda: f"{what}: connect {r}")
    ctx.count("accepted")
    for how in (sig.emit, sig.emit_fast):
        vals = tuple(range(100, 100 + n))
        got.clear()
        r = attempt(how, *vals)
        ctx.check(r.ok, lambda: f"{what}: emission {r}")
        if form == "deque":
            got = [(x,) for x in o]
            o.clear()
        ctx.eq(got, [vals[:m]], f"{what}: received")


def gen_arity(rng, i, tier):
    params = []
    k = rng.choice([0, 0, 1, 2])
    dflt = False
    idx = 0
    for kind in ["po"] * k + ["pk"] * rng.choice([0, 1, 1, 2, 3]):
        dflt = dflt or rng.random() < 0.3
        params.append([kind, f"a{idx}", dflt])
        idx += 1
    if rng.random() < 0.3:
        params.append(["var", "rest", False])
    if rng.random() < 0.3:
        for j in range(rng.randint(1, 2)):
            params.append(["ko", f"k{j}", rng.random() < 0.7])
    if rng.random() < 0.2:
        params.append(["kw", "kws", False])
    form = rng.choice(["func", "func", "method", "method", "classmethod", "static", "obj", "class", "wrapped", "partial", "pkw", "pp", "curry", "ckw", "pmethod", "qt", "deque", "sigemit", "sig"])
    npos = sum(p[0] in ("po", "pk") for p in params)
    var = any(p[0] == "var" for p in params)
    if form == "qt":
        npart = rng.randint(0, 4)
    elif form == "pkw":
        npart = rng.randint(0, 3)
    else:
        npart = rng.randint(0, npos + (1 if var else 0))
    return {
        "n": rng.choice([0, 1, 1, 2, 2, 3, 4, 6]), "via": rng.choice(["descriptor", "instance", "signature"]), "form": form, "params": params,
        "npart": npart, "max_args": rng.choice([None, None, None, 0, 1, 2, 3, 9]), "explicit": rng.random() < 0.3, "deco": rng.random() < 0.3, "reuse": rng.random() < 0.5,
        "other_prio": rng.choice([0, 1, -1]),
    }


# ---------------------------------------------------------------- types


class Base: ...


class Other: ...


class Third: ...


TYPES = {"int": int, "str": str, "list": list, "dict": dict, "Base": Base, "Other": Other, "Third": Third, "float": float}
SUB = {"int": True, "str": type("S", (str,), {})("x"), "list": type("L", (list,), {})(), "dict": type("D", (dict,), {})(), "Base": type("B", (Base,), {})(), "Other": Other(), "Third": Third(), "float": type("F", (float,), {})(1.0)}
INST = {"int": 3, "str": "s", "list": [], "dict": {}, "Base": Base(), "Other": Other(), "Third": Third(), "float": 1.5}


def anno(style, t, other):
    """Annotation which is compatible with the type named t."""
    T, O = TYPES[t], TYPES[other]
    return {"same": T, "none": P.empty, "str": t, "union": Union[T, O], "union_rev": Union[O, T], "optional": Optional[T], "pipe": T | O, "pipe_rev": O | T, "strpipe": f"{t} | {other}"}[style]


def bad_anno(style, o1, o2):
    A, B = TYPES[o1], TYPES[o2]
    return {"same": A, "str": o1, "union": Union[A, B], "pipe": A | B, "strpipe": f"{o1} | {o2}"}[style]


def run_types(case, ctx):
    types = case["types"]
    n = len(types)
    via = case["via"]
    on_signal = case["on_signal"]
    if via == "descriptor":
        holder = type("T", (), {"s": Signal(*[TYPES[t] for t in types], check_types_on_connect=on_signal, check_nargs_on_connect=case["nargs"])})()
        sig = holder.s
    else:
        sig = SignalInstance(tuple(TYPES[t] for t in types), check_types_on_connect=on_signal, check_nargs_on_connect=case["nargs"])
    got = []

    ns = {"got": got, **TYPES}
    names = [f"a{j}" for j in range(len(case["annos"]))]
    first = "self, " if case["form"] not in ("func", "partial") else ""
    exec(f"def f({first}{', '.join(names)}):\n    got.append(({''.join(x + ', ' for x in names)}))", ns)
    f = ns["f"]
    f.__annotations__ = {}
    compatible = True
    for nm, a, t in zip(names, case["annos"], types):
        good, style, o1, o2 = a
        an = anno(style, t, o1) if good else bad_anno(style, o1, o2)
        if an is not P.empty:
            f.__annotations__[nm] = an
        compatible = compatible and good
    f.__annotations__["return"] = str
    K = type("K", (), {"f": f, "__call__": f, "__init__": f})
    o = K.__new__(K)
    form = case["form"]
    if form == "class":
        f.__annotations__["return"] = None
    cb = {"func": f, "method": o.f, "obj": o, "class": K}.get(form)
    if form == "partial":
        ns2 = {"got": got, **TYPES}
        exec(f"def f(first: str, {', '.join(names)}):\n    got.append(({''.join(x + ', ' for x in names)}))", ns2)
        ns2["f"].__annotations__.update(f.__annotations__)
        cb = functools.partial(ns2["f"], 1)
    opts = {}
    if not on_signal or case["explicit"]:
        opts["check_types"] = True
    if not case["nargs"]:
        if case["explicit"]:
            opts["check_nargs"] = False
        ctx.count("types_only")
        # (the number of arguments is not determined then)
        if len(names) < n:
            opts["max_args"] = len(names)
    r = attempt(sig.connect, cb, **opts)
    what = f"signal of types {types}, callback annotated {f.__annotations__}"
    ctx.nontrivial()
    if not compatible:
        ctx.check(not r.ok and isinstance(r.exc, ValueError), lambda: f"{what}: connect(check_types) {r}, expected ValueError")
        ctx.eq(len(sig), 0, "connections after rejection")
        ctx.count("type_rejected")
        # without the check, it is accepted
        r = attempt(sig.connect, cb, **{**opts, "check_types": False})
        ctx.check(r.ok, lambda: f"{what}: connect(check_types=False) {r}")
    else:
        ctx.check(r.ok, lambda: f"{what}: connect(check_types) {r}, should be accepted")
        ctx.count("type_accepted")
    vals = tuple(INST[t] for t in types)
    sig.emit(*vals)
    ctx.eq(got, [vals[: len(names)]], f"{what}: received arguments")


def gen_types(rng, i, tier):
    types = [rng.choice(list(TYPES)) for _ in range(rng.randint(1, 4))]
    annos = []
    p_bad = rng.choice([0, 0.3])
    for t in types[: rng.randint(0, len(types))]:
        others = [x for x in TYPES if x != t]
        o1, o2 = rng.sample(others, 2)
        if rng.random() < p_bad:
            annos.append([False, rng.choice(["same", "str", "union", "pipe", "strpipe"]), o1, o2])
        else:
            annos.append([True, rng.choice(["same", "none", "str", "union", "union_rev", "optional", "pipe", "pipe_rev", "strpipe"]), o1, o2])
    return {"types": types, "annos": annos, "via": rng.choice(["descriptor", "instance"]), "on_signal": rng.random() < 0.4, "explicit": rng.random() < 0.5, "form": rng.choice(["func", "method", "method", "obj", "class", "partial"]), "nargs": rng.random() < 0.7}


# ---------------------------------------------------------------- groups


def run_groups(case, ctx):
    """Callbacks connected to a group (one EmissionInfo), or directly to all members of it."""
    n = case["n"]
    types = [TYPES[t] for t in case["types"][:n]]
    members = {f"m{j}": Signal(*types) for j in range(case["members"])}
    g = type("G", (SignalGroup,), members)()
    direct = case["direct"]
    rec = Rec()
    params = case["params"]
    cb, owner = build(case["form"], params, 0, rec)
    args = case["types"][:n] if direct else ["info"]
    can = [j for j in range(len(args) + 6) if attempt(cb, *range(j)).ok]
    rec.got.clear()
    accept = any(j <= len(args) for j in can)
    opts = {}
    bad = False
    if case["anno"] is not None and case["form"] == "func" and accept:
        # annotate the first argument
        pos = [p[1] for p in params if p[0] in ("po", "pk")]
        if pos and args:
            good, o = case["anno"]
            T = (TYPES[args[0]] if direct else EmissionInfo) if good else TYPES[next(t for t in TYPES if t not in args)]
            cb.__annotations__ = {pos[0]: T}
            opts["check_types"] = True
            bad = not good
    max_args = None
    if case["max_args"] is not None and min(case["max_args"], len(args)) in can:
        opts["max_args"] = max_args = case["max_args"]
        accept = True
    if case["explicit"]:
        opts["check_nargs"] = True
    elif not accept and case["unchecked"]:
        opts["check_nargs"] = False
    target = g if case["target"] == "group" else g.all
    connect = target.connect_direct if direct else target.connect
    if not direct:
        opts["priority"] = 1

    def go(**more):
        if case["deco"]:
            return attempt(lambda: connect(**opts, **more)(cb))
        return attempt(connect, cb, **opts, **more)

    sigs = [g[k] for k in members] if direct else [g.all]
    order = []
    if not direct:
        # (connected earlier, to be called later)
        target.connect(lambda *a: order.append(len(rec.got)))
    others = int(not direct)
    r = go()
    what = f"{'connect_direct' if direct else 'connect'} of callback {case['form']} {params} (callable with {can} arguments) to a group of {case['types'][:n]}, {opts}"
    ctx.nontrivial()
    if opts.get("check_nargs") is False:
        # accepted, but cannot be called
        ctx.check(r.ok, lambda: f"{what}: {r}")
        r = attempt(g["m0"].emit, *[INST[t] for t in case["types"][:n]])
        ctx.check(isinstance(r.exc, EmitLoopError), lambda: f"{what}: emission {r}, expected EmitLoopError")
        return
    if bad or not accept:
        ctx.check(isinstance(r.exc, ValueError), lambda: f"{what}: {r}, expected ValueError")
        ctx.eq([len(s) for s in sigs], [others] * len(sigs), f"{what}: connections after rejection")
        ctx.count("group_rejected")
        return
    ctx.check(r.ok, lambda: f"{what}: {r}, should be accepted")
    ctx.check(r.val is cb, lambda: f"{what}: returned {r.val!r}, not the callback")
    ctx.count("group_accepted")
    ctx.eq([len(s) for s in sigs], [others + 1] * len(sigs), f"{what}: connections")
    unique = case["unique"]
    if unique is not None:
        r = go(unique=unique)
        if unique == "raise":
            ctx.check(isinstance(r.exc, ValueError), lambda: f"{what}, unique='raise': {r}")
        else:
            ctx.check(r.ok and r.val is cb, lambda: f"{what}, unique=True: {r}")
        ctx.eq([len(s) for s in sigs], [others + 1] * len(sigs), f"{what}: connections after another one with unique={unique!r}")
    m = min(len(args), max_args) if max_args is not None else max(j for j in can if j <= len(args))
    vals = tuple(INST[t] for t in case["types"][:n])
    for name in members:
        rec.got.clear()
        cb(*vals[:m] if direct else (EmissionInfo(g[name], vals),)[:m])
        want = rec.got[:]
        rec.got.clear()
        r = attempt(g[name].emit, *vals)
        ctx.check(r.ok, lambda: f"{what}: emission {r}")
        ctx.eq(rec.got, want, f"{what}: received arguments")
    if not direct:
        ctx.eq(order, [1] * len(members), f"{what}, priority=1: earlier calls seen by a callback with priority 0")
    target.disconnect(cb)
    ctx.eq([len(s) for s in sigs], [others] * len(sigs), f"{what}: connections after disconnect")


def gen_groups(rng, i, tier):
    d = gen_arity(rng, i, tier)
    return {
        "n": rng.randint(0, 4), "types": [rng.choice(list(TYPES)) for _ in range(4)], "members": rng.randint(1, 4), "direct": rng.random() < 0.5,
        "params": d["params"], "form": rng.choice(["func", "func", "func", "method", "obj", "static", "wrapped"]), "anno": rng.choice([None, [True, 0], [False, 0]]),
        "max_args": rng.choice([None, None, 0, 1, 2]), "explicit": rng.random() < 0.3, "unchecked": rng.random() < 0.2, "target": rng.choice(["group", "all"]),
        "deco": rng.random() < 0.4, "unique": rng.choice([None, True, "raise"]),
    }


# ---------------------------------------------------------------- emit(check_nargs / check_types)


def run_emit(case, ctx):
    mode = case["mode"]
    got, got2 = [], []
    if mode == "custom":
        ps = [P(nm, {"po": P.POSITIONAL_ONLY, "pk": P.POSITIONAL_OR_KEYWORD, "var": P.VAR_POSITIONAL}[k], default=0 if d else P.empty) for k, nm, d in case["params"]]
        s = inspect.Signature(ps)
        ns = {"REC": lambda d: None}
        exec(src(case["params"]), ns)
        accept = attempt(ns["f"], *case["args"]).ok
        sig = SignalInstance(s) if case["inst"] else type("T", (), {"s": Signal(s)})().s
        kw, args = {"check_nargs": True}, tuple(case["args"])
    else:
        types = case["types"]
        sig = SignalInstance(tuple(TYPES[t] for t in types), name="x") if case["inst"] else type("T", (), {"s": Signal(*[TYPES[t] for t in types])})().s
        args = tuple((SUB if sub else INST)[t] for t, sub in case["args"])
        kw, accept = {}, True
        if case["nargs"]:
            kw["check_nargs"] = True
            accept = accept and len(args) == len(types)
        if case["typ"]:
            kw["check_types"] = True
            accept = accept and all(isinstance(a, TYPES[t]) for a, t in zip(args, types))
    sig.connect(lambda *a: got.append(a), priority=1)
    sig.connect(lambda *a: got2.append(a))
    paused = case["paused"]
    if paused:
        sig.pause()
    r = attempt(sig if case["call"] else sig.emit, *args, **kw)
    if paused:
        sig.resume()
    what = f"emit{args} with {kw} from signal {sig.signature}"
    ctx.nontrivial()
    if accept:
        ctx.check(r.ok, lambda: f"{what}: {r}, should be accepted")
        ctx.eq((got, got2), ([args], [args]), f"{what}: received")
        ctx.count("emit_accepted")
    else:
        ctx.check(not r.ok and isinstance(r.exc, TypeError) and not isinstance(r.exc, EmitLoopError), lambda: f"{what}: {r}, expected TypeError")
        ctx.eq((got, got2), ([], []), f"{what}: calls of a rejected emission")
        ctx.count("emit_rejected")


def gen_emit(rng, i, tier):
    d = {"inst": rng.random() < 0.5, "call": rng.random() < 0.5, "paused": rng.random() < 0.2}
    if rng.random() < 0.4:
        params, dflt = [], False
        for j, kind in enumerate(["po"] * rng.choice([0, 1, 2]) + ["pk"] * rng.choice([0, 1, 2])):
            dflt = dflt or rng.random() < 0.4
            params.append([kind, f"a{j}", dflt])
        if rng.random() < 0.3:
            params.append(["var", "rest", False])
        return {**d, "mode": "custom", "params": params, "args": list(range(rng.randint(0, 6)))}
    types = [rng.choice(list(TYPES)) for _ in range(rng.randint(0, 4))]
    nargs, typ = rng.choice([(True, False), (True, True), (True, True), (False, True)])
    args = [[t if rng.random() < 0.85 else rng.choice(list(TYPES)), rng.random() < 0.3] for t in types]
    if nargs and rng.random() < 0.3:
        args = args[:-1] if rng.random() < 0.5 else [*args, ["int", False]]
    return {**d, "mode": "types", "types": types, "nargs": nargs, "typ": typ, "args": args}


ASSUMPTIONS = ["sub-/superclass relations between callback annotation and signal type are not judged at connect", "emissions have as many arguments as the signal's signature"]
WORKLOADS = [
    Workload("arity", gen_arity, run_arity, quick=6000, thorough=120000, shrink=("params",)),
    Workload("types", gen_types, run_types, quick=3000, thorough=50000, shrink=()),
    Workload("groups", gen_groups, run_groups, quick=3000, thorough=50000, shrink=("params",)),
    Workload("emit", gen_emit, run_emit, quick=4000, thorough=60000, shrink=()),
]
