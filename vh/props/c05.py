"""C05: exceptions in callbacks."""
from vh import reemit
from vh.core import Workload
from vh.props.c04 import gen_signals

PROP = "C05"
TECHNIQUE = "runtime monitoring: fault injection into callbacks; recorded traces compared with an executable model, exception identity checked"
RULE = (
    "as C04, but callbacks also raise (15 kinds of exceptions, also chained ones and ones that can't be formatted or are falsy; owners without truth value or repr, arguments without repr; builtins that raise, setattr/setitem targets that raise), "
    "catch the errors of nested emissions, replace them, or emit while unwinding; the traces (including which exception "
    "object was the __cause__ of what emit raised) are compared with an executable model, then every signal is emitted "
    "again; soak: hundreds of failing emissions (all modes, nested, caught or not), after which plain emissions must run every callback; non-trivial: at least one exception surfaced; distinct by case"
)
REQUIRE = {"exceptions": 500, "caught": 500, "nested_emissions": 300, "cross_signal": 50, "queued_cases": 50, "latest_cases": 50, "group_cases": 50, "odd_owners": 50, "unprintable_args": 50, "soaks": 20}


def gen(rng, i, tier):
    n_sig = rng.choice([1, 1, 2, 2, 3])
    signals = gen_signals(rng, ["func", "func", "method", "obj", "setattr", "setitem", "builtin"], n_sig, ["descriptor", "instance", "instance", "group", "fast"])
    for s in signals:
        s["owner"] = rng.choice(["plain", "plain", *reemit.OWNERS])
        if s["via"] == "group":
            for c in s["cbs"]:
                if c["kind"] == "builtin":
                    c["kind"] = "func"
        n = 0
        for c in s["cbs"]:
            n += c["kind"] == "builtin"
            if n > 1 and c["kind"] == "builtin":
                c["kind"] = "method"
    programs = {}
    dense = rng.choice([0.2, 0.4, 0.6])
    p_raise = rng.choice([0.1, 0.25])
    for s, sg in enumerate(signals):
        for c in sg["cbs"]:
            prog = []
            for _ in range(rng.randint(0, 8)):
                acts = []
                while rng.random() < dense and len(acts) < 4:
                    t = s if rng.random() < 0.5 else rng.randrange(n_sig)
                    x = rng.random()
                    if x < p_raise:
                        acts.append(["raise", rng.choice(list(reemit.EXC))])
                        break
                    if x < p_raise + 0.25:
                        acts.append(["try", t])
                    elif x < p_raise + 0.35:
                        acts.append(["tryraise", t, rng.choice(list(reemit.EXC))])
                    elif x < p_raise + 0.42:
                        acts.append(["tryfinally", t, rng.randrange(n_sig)])
                    else:
                        acts.append(["emit", t])
                prog.append(acts)
            programs[c["name"]] = prog
    return {
        "signals": signals, "programs": programs, "mod": rng.choice([1000, 1000, 1, 2, 3]), "nargs": rng.choice([1, 1, 2, 3]), "budget": rng.choice([5, 15, 40]), "unprintable": rng.random() < 0.15, "has_fast": any(s["via"] == "fast" for s in signals),
        "tops": [rng.randrange(n_sig) for _ in range(rng.randint(2, 6))],
    }


def run(case, ctx):
    model, real = reemit.run(case, ctx)
    ctx.count("nested_emissions", model.n_nested)
    ctx.count("exceptions", len(model.raised))
    if len(case["signals"]) > 1 and model.raised:
        ctx.count("cross_signal")
    n = sum(1 for t in real.trace if t[0] == "caught") + len(real.raised)
    ctx.count("caught", n)
    for s in case["signals"]:
        ctx.count({"latest-only": "latest"}.get(s["mode"], s["mode"]) + "_cases")
        if s["via"] == "group":
            ctx.count("group_cases")
        if s["via"] == "descriptor" and s.get("owner") != "plain" and model.raised:
            ctx.count("odd_owners")
    if case.get("unprintable") and model.raised:
        ctx.count("unprintable_args")
    if model.raised:
        ctx.nontrivial()


def gen_soak(rng, i, tier):
    return {
        "mode": rng.choice(["immediate", "queued", "latest-only"]),
        "via": rng.choice(["instance", "fast", "group", "descriptor"]),
        "n_cb": rng.randint(1, 4), "who": rng.randint(0, 3), "depth": rng.choice([0, 0, 1, 2, 3]),
        "exc": rng.choice(["ValueError", "KeyboardInterrupt", "RuntimeError"]), "catch": rng.choice(["top", "nested", "both"]),
        "rounds": rng.choice([200, 450, 450, 700]),
    }


def run_soak(case, ctx):
    """Hundreds of emissions that fail: none of them leaves anything behind."""
    import builtins
    from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance

    kw = {"reemission": case["mode"]}
    keep = []
    if case["via"] == "descriptor":
        class Obj:
            sig = Signal(int, **kw)
        keep.append(Obj())
        sig = keep[0].sig
    elif case["via"] == "group":
        class G(SignalGroup):
            sig = Signal(int, **kw)
        keep.append(G())
        sig = keep[0].sig
    else:
        sig = SignalInstance((int,), **kw)
    fast = case["via"] == "fast"
    emit = sig.emit_fast if fast else sig.emit
    Exc = getattr(builtins, case["exc"])
    n_cb, who = case["n_cb"], case["who"] % case["n_cb"]
    state = {"failing": True, "nest": 0}
    log = []

    def make(k):
        def cb(v):
            log.append((k, v))
            if k == who:
                if state["nest"] < case["depth"]:
                    state["nest"] += 1
                    if case["catch"] == "top":
                        emit(v + 1)
                    else:
                        try:
                            emit(v + 1)
                        except BaseException:
                            ctx.count("soak_caught_nested")
                if state["failing"] and (case["catch"] != "nested" or v):
                    raise Exc("boom")
        return cb

    cbs = [make(k) for k in range(n_cb)]
    glog = []
    if case["via"] == "group":
        relayed = keep[0]

        def on_any(info):
            glog.append(info.args)
        relayed.connect(on_any)
    for c in cbs:
        sig.connect(c)
    for r in range(case["rounds"]):
        state["nest"] = 0
        raised = None
        try:
            emit(0)
        except BaseException as e:
            raised = e
            if isinstance(e, RecursionError) or isinstance(e.__cause__, RecursionError):
                ctx.fail(f"after {r} failing emissions, emitting raises {e!r} (cause {e.__cause__!r})")
            if not fast and case["exc"] != "KeyboardInterrupt" and not isinstance(e, EmitLoopError):
                ctx.fail(f"failing emission {r} raised {e!r}, not EmitLoopError")
        if raised is None and case["catch"] != "nested":
            ctx.fail(f"emission {r} with a raising callback raised nothing")
        ctx.count("soak_failing" if raised is not None else "soak_ok")
        del raised
    # nothing is left behind: plain emissions and (if the callback nests) re-emissions run every callback
    state["failing"] = False
    for t in range(3):
        state["nest"] = 10**9
        log.clear(), glog.clear()
        try:
            emit(100 + t)
        except BaseException as e:
            ctx.fail(f"after {case['rounds']} failing emissions, an emission without raising callback raised {e!r}")
        want = [(k, 100 + t) for k in range(n_cb)]
        if log != want:
            ctx.fail(f"after {case['rounds']} failing emissions, emit({100 + t}) called {log}, expected {want}")
        if case["via"] == "group" and glog != [(100 + t,)]:
            ctx.fail(f"after {case['rounds']} failing emissions, the group relayed {glog}, expected [({100 + t},)]")
    ctx.count("soaks")
    ctx.nontrivial()


WORKLOADS = [
    Workload("faults", gen, run, quick=16000, thorough=300000, shrink=("tops", "cbs") + tuple(f"{s}{j}" for s in "abc" for j in range(4))),
    Workload("soak", gen_soak, run_soak, quick=48, thorough=1500),
]
