"""C04: re-emission strategies."""
from vh import reemit
from vh.core import Workload

PROP = "C04"
TECHNIQUE = "runtime monitoring: recorded traces of re-emitting callback programs compared with an executable model of the three strategies"
RULE = (
    "random programs for the callbacks (which signal to emit at which of their invocations, several times, also across up "
    "to 3 signals with mixed strategies and through groups; signals of models get their strategy from the config) and sequences of outer emissions, run on real signals and on an "
    "executable model (recursion, FIFO queue, superseded frames); the complete traces of emissions, calls and returns are "
    "compared; non-trivial: at least one nested emission of a signal that was being emitted; distinct by trace"
)
REQUIRE = {"nested_emissions": 300, "calls": 1000, "queued_cases": 50, "latest_cases": 50, "immediate_cases": 50, "deep": 30, "model_cases": 500}


def gen_signals(rng, kinds, n_sig, vias):
    signals = []
    for s in range(n_sig):
        via = rng.choice(vias)
        mode = rng.choice(["immediate", "queued", "latest-only"]) if via in ("descriptor", "instance", "model") else "immediate"
        prio = rng.random() < 0.5
        cbs = [
            {"name": f"{chr(97 + s)}{j}", "kind": rng.choice(kinds), "prio": rng.choice([0, 0, 1, -1, 3]) if prio else 0}
            for j in range(rng.randint(1, 4))
        ]
        signals.append({"mode": mode, "via": via, "cbs": cbs, **({"cfg": reemit.gen_model_cfg(rng, mode)} if via == "model" else {})})
    return signals


def gen(rng, i, tier):
    n_sig = rng.choice([1, 1, 1, 2, 2, 3])
    signals = gen_signals(rng, ["func", "method", "obj", "func"], n_sig, ["descriptor", "instance", "instance", "group", "fast", "model"])
    programs = {}
    dense = rng.choice([0.15, 0.35, 0.6])
    for s, sg in enumerate(signals):
        for c in sg["cbs"]:
            prog = []
            for _ in range(rng.randint(0, 8)):
                acts = []
                while rng.random() < dense and len(acts) < 4:
                    acts.append(["emit", s if rng.random() < 0.6 else rng.randrange(n_sig)])
                prog.append(acts)
            programs[c["name"]] = prog
    return {
        "signals": signals, "programs": programs, "mod": rng.choice([1000, 1000, 1, 2, 3]), "nargs": rng.choice([1, 1, 2, 3]), "budget": rng.choice([5, 15, 40]), "has_fast": any(s["via"] == "fast" for s in signals),
        "tops": [rng.randrange(n_sig) for _ in range(rng.randint(1, 4))],
    }


def run(case, ctx):
    model, real = reemit.run(case, ctx)
    ctx.count("nested_emissions", model.n_nested)
    ctx.count("calls", sum(1 for _ in real.pos) + sum(real.pos.values()))
    for s in case["signals"]:
        ctx.count({"latest-only": "latest"}.get(s["mode"], s["mode"]) + "_cases")
    ctx.count("model_cases", any(s["via"] == "model" for s in case["signals"]))
    if model.max_nest >= 3:
        ctx.count("deep")
    if model.n_nested:
        ctx.nontrivial(repr((case["signals"], sorted(case["programs"].items()), case["tops"])))


WORKLOADS = [Workload("programs", gen, run, quick=12000, thorough=300000, shrink=("tops", "cbs") + tuple(f"{s}{j}" for s in "abc" for j in range(4)))]
