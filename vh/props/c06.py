"""C06: Signal.sender() and Signal.current_emitter() name the innermost running emission."""
import sys
import threading

from psygnal import Signal
from vh import reemit
from vh.core import Workload
from vh.props import c05
from vh.turns import Turns

PROP = "C06"
TECHNIQUE = "runtime monitoring: sender()/current_emitter() probed inside every callback of nested, failing and multi-threaded emissions"
RULE = (
    "the programs of C05 (nested emissions of up to 3 signals with all strategies, groups, members of groups with listeners, exceptions caught and uncaught): "
    "current_emitter() and sender() are compared with the signal of the running callback on entry and after every nested "
    "emission; `threads` runs several such programs in threads that switch inside of callbacks (seeded turn taking), `free` "
    "runs them freely on shared and own signals; non-trivial: at least one nested emission and two signals or threads"
)
REQUIRE = {"probes": 3000, "probes_after_nested": 500, "switches": 500, "none_outside": 1000, "free_probes": 2000, "relays": 100}


class Probing(reemit.Real):
    turns = None

    def __init__(self, case, ctx):
        self.owner_of = {}
        super().__init__(case, ctx)
        for s, sg in enumerate(case["signals"]):
            for c in sg["cbs"]:
                self.owner_of[c["name"]] = s
        self.n_probe = self.n_after = 0
        self.seen = {}

    def probe(self, cb):
        s = self.owner_of[cb]
        if self.case["signals"][s]["via"] == "fast":
            return
        sig = self.sigs[s]
        if self.turns is not None:
            self.turns.switch()
        em = Signal.current_emitter()
        snd = Signal.sender()
        self.n_probe += 1
        if em is not sig:
            self.ctx.fail(f"in callback {cb} of {sig!r}: current_emitter() is {em!r}")
        if snd is not sig.instance:
            self.ctx.fail(f"in callback {cb} of {sig!r}: sender() is {snd!r}, not {sig.instance!r}")

    def do_emit(self, s, v):
        em0, snd0 = Signal.current_emitter(), Signal.sender()
        try:
            super().do_emit(s, v)
        finally:
            self.n_after += 1
            if Signal.current_emitter() is not em0 or Signal.sender() is not snd0:
                self.ctx.fail(f"after emission of signal {s}, current_emitter() is {Signal.current_emitter()!r}, before it was {em0!r}")


def finish(case, ctx, model, real):
    ctx.count("probes", real.n_probe)
    ctx.count("probes_after_nested", model.n_nested)
    ctx.count("none_outside", len(case["tops"]))
    ctx.count("relays", sum(s["via"] == "member" for s in case["signals"]))


def run(case, ctx):
    model, real = reemit.run(case, ctx, Probing)
    finish(case, ctx, model, real)
    if model.n_nested or len(case["signals"]) > 1:
        ctx.nontrivial()


def gen(rng, i, tier):
    d = c05.gen(rng, i, tier)
    for sg in d["signals"]:
        if sg["via"] in ("descriptor", "instance") and rng.random() < 0.3:
            # a group's relay before or between the signal's own callbacks
            sg["via"] = "member"
            sg["relay_at"] = rng.randint(0, max(len(sg["cbs"]) - 1, 0))
        if sg["via"] == "fast" and rng.random() < 0.5:
            sg["via"] = "descriptor"
    d["has_fast"] = any(s["via"] == "fast" for s in d["signals"])
    return d


def gen_threads(rng, i, tier):
    return {"worlds": [gen(rng, i, tier) for _ in range(rng.randint(2, 4))], "seed": rng.randrange(10**9), "p": rng.choice([0.3, 0.6, 0.9])}


def run_threads(case, ctx):
    turns = Turns(case["seed"], len(case["worlds"]), case["p"])
    K = type("P", (Probing,), {"turns": turns})
    res = []

    def job(w):
        def f():
            assert Signal.current_emitter() is None
            turns.switch()
            model, real = reemit.run(w, ctx, K)
            if Signal.current_emitter() is not None or Signal.sender() is not None:
                ctx.fail("current_emitter() is not None after all emissions of the thread")
            res.append((w, model, real))

        return f

    turns.run([job(w) for w in case["worlds"]])
    for w, model, real in res:
        finish(w, ctx, model, real)
    ctx.count("switches", turns.switches)
    if turns.switches > 1:
        ctx.nontrivial(tuple(turns.order) + (case["seed"],))


def gen_free(rng, i, tier):
    return {"threads": rng.randint(3, 6), "n": 150, "interval": rng.choice([1e-6, 1e-5, 1e-4])}


def run_free(case, ctx):
    T = type("T", (), {"a": Signal(int), "b": Signal(int, reemission="queued")})
    shared = T()
    n = case["threads"]
    own = [T() for _ in range(n)]
    bad = []
    probes = [0] * n

    def look(sig, obj, where):
        e, s = Signal.current_emitter(), Signal.sender()
        if e is not sig or s is not obj:
            bad.append(f"{where}: current_emitter() {e!r}, sender() {s!r}; expected {sig!r}")

    def make(i, o):
        tid = {}

        def inner(v):
            look(o.b, o, "inner callback")
            if v % 17 == 3:
                raise ValueError

        def outer(v):
            look(o.a, o, "callback")
            t = tid.get(threading.get_ident())
            if t is not None:
                probes[t] += 1
            try:
                o.b.emit(v)
            except Exception:
                pass
            look(o.a, o, "callback after nested emission")

        o.a.connect(outer)
        o.b.connect(inner)
        return tid

    tids = [make(i, o) for i, o in enumerate([*own, shared])]
    start = threading.Barrier(n)

    def main(i):
        for t in tids:
            t[threading.get_ident()] = i
        start.wait()
        for v in range(case["n"]):
            (shared if v % 5 == 0 else own[i]).a.emit(v)
            if Signal.current_emitter() is not None or Signal.sender() is not None:
                bad.append("not None outside of emissions")

    old = sys.getswitchinterval()
    sys.setswitchinterval(case["interval"])
    try:
        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    ctx.check(not bad, lambda: f"{len(bad)} wrong: {bad[0]}")
    ctx.count("free_probes", sum(probes))
    ctx.nontrivial((case["threads"], case["interval"]))


WORKLOADS = [
    Workload("nested", gen, run, quick=4000, thorough=100000, shrink=("tops", "cbs") + tuple(f"{s}{j}" for s in "abc" for j in range(4))),
    Workload("threads", gen_threads, run_threads, quick=1200, thorough=30000, shrink=("tops", "worlds")),
    Workload("free", gen_free, run_free, quick=40, thorough=800, shrink=(), procs=4),
]
