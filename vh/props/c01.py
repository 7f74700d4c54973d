"""C01: every emission calls each connected callback exactly once, in order."""
import itertools

from psygnal import Signal, SignalInstance
from vh import zoo
from vh.core import Workload, attempt

PROP = "C01"
RULE = (
    "random histories of connect(any kind, any priority)/disconnect/emit (emit, call, emit_fast) in which "
    "callbacks connect, disconnect, disconnect all, or emit in the middle of emissions; an online monitor holds the "
    "model of connections and checks every call against the entries required at that moment; a case is non-trivial "
    "if at least one emission called two or more callbacks, distinct by the sequence of observed calls"
)
REQUIRE = {"emissions": 100, "calls": 300, "mid_emission_changes": 30, "nested_emissions": 20, "fast_emissions": 20, "ambiguous_disconnects": 3}
N_CB = 9


class Monitor:
    """Model of the connections + online checker of the calls of running emissions."""

    def __init__(self, ctx, sig):
        self.ctx, self.sig = ctx, sig
        self.entries = []  # [eid, key, priority], in calling order
        self.ids = itertools.count()
        self.stack = []  # running emissions
        self.trace = []

    # --- model of connections
    def add(self, key, prio):
        e = (next(self.ids), key, prio)
        i = next((i for i, x in enumerate(self.entries) if x[2] < prio), len(self.entries))
        self.entries.insert(i, e)
        for em in self.stack:
            em["optional"].append(e)

    def candidates_for_removal(self, key):
        return [e for e in self.entries if e[1] == key]

    # --- emission monitor
    def begin(self, args):
        self.stack.append({"required": list(self.entries), "optional": [], "done": [], "args": args})
        self.ctx.count("emissions")

    def call(self, key, args, nmax):
        if not self.stack:
            self.ctx.fail(f"callback {key} called outside of any emission")
        em = self.stack[-1]
        want = zoo.expected_args(em["args"], nmax)
        self.ctx.count("calls")
        self.trace.append(key)
        alive = set(self.entries)
        req = [e for e in em["required"] if e in alive]
        if tuple(args) != tuple(want):
            self.ctx.fail(f"callback {key} received {args!r}, expected {want!r}")
        if req and req[0][1] == key:
            em["required"] = em["required"][em["required"].index(req[0]) + 1 :]
            em["done"].append(req[0])
            return
        for e in em["optional"]:
            if e[1] == key and e in alive:
                em["optional"].remove(e)
                return
        called = [e[1] for e in em["done"]]
        self.ctx.fail(
            f"unexpected call of callback {key}: next ones due are {[e[1] for e in req]}, already called {called}"
        )

    def end(self):
        em = self.stack.pop()
        alive = set(self.entries)
        missing = [e[1] for e in em["required"] if e in alive]
        if missing:
            self.ctx.fail(f"emission of {em['args']!r} did not call {missing}; called {[e[1] for e in em['done']]}")
        if len(em["done"]) > 1:
            self.ctx.nontrivial()
        self.ctx.count("assertions")


def run(case, ctx):
    nargs = case["nargs"]
    if case["via"] == "descriptor":
        T = type("T", (), {"sig": Signal(*[object] * nargs)})
        t = T()
        sig = t.sig
    else:
        sig = SignalInstance((object,) * nargs)
    mon = Monitor(ctx, sig)
    cbs = {}
    programs = {k: list(p) for k, p in case["programs"].items()}
    budget = [60]
    vals = itertools.count(1)
    in_cb = [0]

    def sink(tag, args):
        nmax = cbs[tag][2]
        mon.call(tag, args, nmax)
        prog = programs.get(tag)
        if prog:
            act = prog.pop(0)
            if act is not None:
                in_cb[0] += 1
                do(act)
                in_cb[0] -= 1

    def do(op):
        name = op[0]
        if name == "connect":
            _, key, prio = op
            if len(mon.entries) > 40:
                return
            r = attempt(sig.connect, cbs[key][0], priority=prio)
            ctx.check(r.ok, lambda: f"connect {key}: {r}")
            mon.add(key, prio)
            if in_cb[0]:
                ctx.count("mid_emission_changes")
        elif name == "disconnect":
            _, key = op
            cand = mon.candidates_for_removal(key)
            if len(cand) > 1 and mon.stack:
                return  # (which of the two is removed is not specified)
            sig.disconnect(cbs[key][0])
            if len(cand) == 1:
                mon.entries.remove(cand[0])
                if in_cb[0]:
                    ctx.count("mid_emission_changes")
            elif len(cand) > 1:
                # find out which one was removed
                ctx.count("ambiguous_disconnects")
                seen = []
                probe.append(seen)
                emit_real("emit")
                probe.pop()
                for c in cand:
                    rest = [e for e in mon.entries if e is not c]
                    if [e[1] for e in rest] == seen:
                        mon.entries = rest
                        break
                else:
                    ctx.fail(f"after disconnect({key}), callbacks called: {seen}, connected before: {[e[1] for e in mon.entries]}")
        elif name == "disconnect_all":
            if case["allow_all"]:
                sig.disconnect()
                mon.entries.clear()
                if in_cb[0]:
                    ctx.count("mid_emission_changes")
        elif name == "emit":
            if budget[0] <= 0 or len(mon.stack) > 3:
                return
            budget[0] -= 1
            if mon.stack:
                ctx.count("nested_emissions")
            emit(op[1])
        ctx.eq(len(sig), len(mon.entries), f"len(signal) after {op}")

    probe = []

    def emit_real(how, args=None):
        if args is None:
            args = tuple(f"p{i}" for i in range(nargs))
        if how == "emit":
            sig.emit(*args)
        elif how == "call":
            sig(*args)
        elif how == "check":
            sig.emit(*args, check_nargs=True)
        else:
            ctx.count("fast_emissions")
            sig.emit_fast(*args)

    def emit(how):
        args = tuple(f"v{next(vals)}" for _ in range(nargs))
        mon.begin(args)
        r = attempt(emit_real, how, args)
        if not r.ok:
            ctx.fail(f"{how}{args} raised {r}")
        mon.end()

    def outer_sink(tag, args):
        if probe:
            probe[-1].append(tag)
        else:
            sink(tag, args)

    for tag, kind in case["cbs"].items():
        cbs[tag] = zoo.make(kind, tag, outer_sink)

    for op in case["ops"]:
        do(op)
    ctx.count("histories")
    emit("emit")
    ctx.nontrivial(tuple(mon.trace)) if ctx._nontrivial else None


PRIOS = [0, 0, 0, 1, -1, 5, -5, 10**6, -(10**6), 2]


def rand_op(rng, tags, p_emit):
    x = rng.random()
    if x < p_emit:
        return ["emit", rng.choice(["emit", "emit", "call", "fast", "fast", "check"])]
    if x < p_emit + (1 - p_emit) * 0.6:
        return ["connect", rng.choice(tags), rng.choice(PRIOS)]
    if x < p_emit + (1 - p_emit) * 0.97:
        return ["disconnect", rng.choice(tags)]
    return ["disconnect_all"]


def gen(rng, i, tier):
    nargs = rng.choice([1, 1, 2, 3])
    cbs = {}
    for k in range(rng.randint(2, N_CB)):
        kind = rng.choice(zoo.KINDS)
        if kind in ("setattr", "setitem", "psetitem"):
            cbs[f"setter{k}"] = kind
        else:
            cbs[f"{kind}{k}"] = kind
    tags = list(cbs)
    mid = rng.random() < 0.8
    programs = {}
    if mid:
        for t in tags:
            if rng.random() < 0.6:
                programs[t] = [rand_op(rng, tags, 0.2) if rng.random() < 0.5 else None for _ in range(rng.randint(1, 8))]
    ops = []
    prio = rng.random() < 0.7
    for t in tags:
        ops.append(["connect", t, rng.choice(PRIOS) if prio else 0])
    ops += [rand_op(rng, tags, 0.4) for _ in range(rng.randint(3, 30))]
    if not prio:
        for o in ops:
            if o[0] == "connect":
                o[2] = 0
    return {"nargs": nargs, "via": rng.choice(["descriptor", "instance"]), "allow_all": rng.random() < 0.5, "cbs": cbs, "programs": programs, "ops": ops}


def gen_many(rng, i, tier):
    """Many callbacks, with many priorities."""
    n = rng.randint(30, 150)
    kinds = [rng.choice(["func", "method", "obj", "partial"]) for _ in range(n)]
    cbs = {f"{k}{j}": k for j, k in enumerate(kinds)}
    tags = list(cbs)
    ops = []
    for t in tags:
        ops.append(["connect", t, rng.choice([0, 0, rng.randint(-20, 20)])])
        if rng.random() < 0.1:
            ops.append(["disconnect", rng.choice(tags)])
        if rng.random() < 0.05:
            ops.append(["emit", rng.choice(["emit", "fast", "call"])])
    return {"nargs": 1, "via": "instance", "allow_all": False, "cbs": cbs, "programs": {}, "ops": ops}


def run_many(case, ctx):
    # (no limit of 40 connections here)
    sig = SignalInstance((object,))
    log = []
    cbs = {t: zoo.make(k, t, lambda tag, args: log.append((tag, args))) for t, k in case["cbs"].items()}
    model = []
    for j, op in enumerate(case["ops"]):
        if op[0] == "connect":
            if any(m[0] == op[1] for m in model):
                continue
            sig.connect(cbs[op[1]][0], priority=op[2])
            model.append((op[1], op[2]))
        elif op[0] == "disconnect":
            sig.disconnect(cbs[op[1]][0])
            model = [m for m in model if m[0] != op[1]]
        elif op[0] == "emit":
            log.clear()
            {"emit": sig.emit, "fast": sig.emit_fast, "call": sig}.get(op[1], sig.emit)(j)
            want = [(t, (j,)) for t, p in sorted(model, key=lambda m: -m[1])]
            ctx.count("emissions")
            ctx.count("calls", len(log))
            ctx.eq(log, want, "calls of emission")
        ctx.eq(len(sig), len(model), "len(signal)")
    for how in (sig.emit, sig.emit_fast, sig):
        log.clear()
        how("end")
        ctx.eq([t for t, _ in log], [t for t, p in sorted(model, key=lambda m: -m[1])], "calls of last emission")
    ctx.nontrivial(tuple(t for t, _ in log))


WORKLOADS = [
    Workload("histories", gen, run, quick=6000, thorough=150000, shrink=("ops", "programs") + tuple(f"{k}{i}" for k in [*zoo.KINDS, "setter"] for i in range(N_CB))),
    Workload("many", gen_many, run_many, quick=160, thorough=3000),
]
