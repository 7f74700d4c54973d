"""C08: paused emissions are delivered exactly once on resume."""
import contextlib

from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup, SignalInstance
from vh import reemit
from vh.core import Workload, attempt
from vh.props.c04 import gen_signals

PROP = "C08"
TECHNIQUE = "runtime monitoring: conservation and order monitors over unique emission values (collected = delivered + held), executable model of pause/resume"
RULE = (
    "`programs`: emit/pause/resume/paused() programs at top level and inside callbacks (also during a flush), for all "
    "re-emission strategies and group relays, compared with an executable model; `reducers`: nested paused() contexts of "
    "signals and groups with one- and two-argument order-sensitive reducers and initial values; `faults`: callbacks that "
    "raise, pause or resume while collected emissions are delivered, checked for conservation (each value at most once, and "
    "exactly once after the last resume); non-trivial: two or more emissions were held; distinct by case"
)
REQUIRE = {"held": 1000, "pause_in_flush": 50, "reduced": 200, "group_reduced": 50, "raised_in_flush": 100, "ctx_by_exception": 50, "conserved": 500, "no_slots": 20, "paused_by_listener": 300}


# ---------------------------------------------------------------- exact model, no exceptions


def rand_act(rng, s, n_sig, depth=0, in_cb=False):
    x = rng.random()
    t = s if rng.random() < 0.6 else rng.randrange(n_sig)
    if x < (0.35 if in_cb else 0.5):
        return ["emit", t]
    if x < 0.65:
        return ["pause", t]
    if x < 0.85 or depth > 2:
        return ["resume", t]
    return ["ctx", t, [rand_act(rng, s, n_sig, depth + 1, in_cb) for _ in range(rng.randint(0, 4))]]


def gen(rng, i, tier):
    n_sig = rng.choice([1, 1, 2])
    signals = gen_signals(rng, ["func", "method", "obj"], n_sig, ["descriptor", "instance", "instance", "group", "fast"])
    programs = {}
    if rng.random() < 0.7:
        dense = rng.choice([0.1, 0.3, 0.5])
        for s, sg in enumerate(signals):
            for c in sg["cbs"]:
                programs[c["name"]] = [[rand_act(rng, s, n_sig, 1, True) for _ in range(rng.randint(1, 3))] if rng.random() < dense else [] for _ in range(rng.randint(0, 10))]
    return {
        "signals": signals, "programs": programs, "budget": rng.choice([15, 40]), "has_fast": any(s["via"] == "fast" for s in signals),
        "tops": [rand_act(rng, rng.randrange(n_sig), n_sig) for _ in range(rng.randint(2, 14))],
    }


def run(case, ctx):
    model, real = reemit.run(case, ctx)
    ctx.count("held", model.n_held)
    ctx.count("pause_in_flush", model.n_pause_in_flush)
    if model.n_held > 1:
        ctx.nontrivial()


# ---------------------------------------------------------------- reducers


class Leave(Exception):
    pass


REDUCERS = {
    "cat2": lambda a, b: (a[0] + b[0], "r"),
    "cat1": lambda lst: (sum((x[0] for x in lst), ()), "r"),
    "last2": lambda a, b: b,
    "first1": lambda lst: list(lst)[0],
    "tuple2": lambda a, b: (*a, *b),
    "gather2": lambda a, b: (*(a or ()), b[0]),
}
FALSY = {"empty": (), "none": None, "zero": 0, "list": []}
MISSING = object()


def reduced(kind, initial, items):
    """What has to be emitted for the collected argument tuples (written out)."""
    two = kind.endswith("2")
    if kind == "gather2":
        acc, rest = (items[0], items[1:]) if initial is MISSING else (initial or (), items)
        return (*acc, *[x[0] for x in rest]) if rest else acc
    if two and initial is not MISSING:
        items = [initial, *items]
    if kind.startswith("cat"):
        if two and len(items) == 1:
            return items[0]
        out = ()
        for x in items:
            out += x[0]
        return (out, "r")
    if kind == "last2":
        return items[-1]
    if kind == "first1":
        return items[0]
    out = ()
    for x in items:
        out += x
    return out


def run_reducers(case, ctx):
    G = type("G", (SignalGroup,), {"a": Signal(tuple, str), "b": Signal(tuple, str)})
    g = G()
    inst = SignalInstance((tuple, str), reemission=case["mode"])
    objs = {"i": inst, "a": g.a, "b": g.b, "g": g}
    got = {k: [] for k in "iabg"}
    hook, m_hook = [], []  # what the next call of the listener of i emits, after pausing it
    listening = case["listen"]

    def receive(k, a):
        got[k].append(a)
        if k == "i" and hook:
            vals = hook.pop()
            inst.pause()
            for x in vals:
                inst.emit(*x)

    cbs = {}
    for k in "iab":
        if k in listening:
            objs[k].connect(lambda *a, k=k: receive(k, a), check_nargs=False)
    relay = "g" in listening
    if relay:
        g.connect(lambda info: got["g"].append((info.signal.name, info.args)))
    # shadow model
    paused = dict.fromkeys("iabg", False)
    held = {k: [] for k in "iabg"}
    want = {k: [] for k in "iabg"}
    n = [0]
    seen_infos = []

    def plain(x):
        while isinstance(x, tuple) and len(x) == 1:  # (the held items are 1-tuples of infos)
            x = x[0]
        return (x.signal.name, x.args) if isinstance(x, EmissionInfo) else x

    def reduce_seen(initial, items):
        chain = [initial, *items]
        return [(chain[0], chain[1]), *zip(chain[1:], chain[2:])]

    def deliver(k, args):
        if k in listening:
            want[k].append(args)
            if k == "i" and m_hook:
                paused[k] = True
                held[k] += m_hook.pop()
                ctx.count("paused_by_listener")
        if k in "ab" and relay:
            to_group((k, args))

    def to_group(info):
        if paused["g"]:
            held["g"].append(info)
        else:
            want["g"].append(info)

    def m_resume(k, red, initial):
        paused[k] = False
        items, held[k] = held[k], []
        if not items:
            return
        if k == "g":
            if red == "gatherinfo":
                want["g"].append(items[-1])
                want_seen = reduce_seen(initial, items)
                ctx.eq(seen_infos, want_seen, f"pairs given to the reducer of the group, initial={initial!r}")
                seen_infos.clear()
                ctx.count("group_gathered")
            elif red == "lastinfo":
                want["g"].append(items[-1] if initial is MISSING else ("a", initial))
                ctx.count("group_reduced")
                if initial is not MISSING:
                    ctx.count("group_initial")
            else:
                want["g"] += items
            return
        if not (k in listening or (k in "ab" and relay)):
            ctx.count("no_slots")
            return
        if red is not None:
            ctx.count("reduced")
            deliver(k, reduced(red, initial, items))
        else:
            held[k] = items
            while held[k] and not paused[k]:
                deliver(k, held[k].pop(0))

    def kw(k, red, initial):
        if red is None:
            return {}
        if k == "g":
            if initial is not MISSING and not initial:

                def pairs(a, b):
                    seen_infos.append((plain(a), plain(b)))
                    return b

                return {"reducer": pairs, "initial": initial}
            if initial is not MISSING:
                return {"reducer": lambda a, b: a, "initial": (EmissionInfo(g.a, initial),)}
            f = (lambda a, b: b) if case["two"] else (lambda lst: lst[-1])
            return {"reducer": f}
        out = {"reducer": REDUCERS[red]}
        if initial is not MISSING:
            out["initial"] = initial
        return out

    def fix(k, red, initial):
        if red is None:
            return None, MISSING
        if k == "g":
            if isinstance(initial, str):
                return "gatherinfo", FALSY[initial]
            return "lastinfo", (("init",), "x") if case["two"] and initial is not None else MISSING
        if red == "gather2" and isinstance(initial, str):
            ctx.count("falsy_initial")
            return red, FALSY[initial]
        if initial is None or isinstance(initial, str) or not red.endswith("2"):
            return red, MISSING
        return red, (tuple(initial), "init")

    def do(op, depth=0):
        name, k = op[0], op[1]
        if name == "emit":
            n[0] += 1
            v = n[0] % case["mod"]  # (equal arguments may be emitted several times)
            args = ((v,), f"s{v}")
            if paused[k]:
                held[k].append(args)
                ctx.count("held")
                if len(held[k]) > 1:
                    ctx.nontrivial()
            else:
                deliver(k, args)
            (objs[k].emit, objs[k].emit_fast, objs[k])[0 if k in "ab" else n[0] % 3](*args)
        elif name == "hook":
            if not hook:
                vals = [((-j,), f"h{j}") for j in range(op[2])]
                hook.append(vals)
                m_hook.append(list(vals))
        elif name == "pause":
            objs[k].pause()
            paused[k] = True
        elif name == "resume":
            red, initial = fix(k, op[2], op[3])
            objs[k].resume(**kw(k, red and op[2], initial))
            m_resume(k, red, initial)
        elif name == "ctx":
            red, initial = fix(k, op[2], op[3])
            was = paused[k]
            try:
                with objs[k].paused(**kw(k, red and op[2], initial)):
                    paused[k] = True
                    verify(op)
                    for o in op[4]:
                        do(o, depth + 1)
                    if op[5]:
                        raise Leave
            except Leave:
                ctx.count("ctx_by_exception")
            if not was:
                m_resume(k, red, initial)
        verify(op)

    def verify(op):
        for k in "iabg":
            ctx.eq(got[k], want[k], f"emissions received from {k} after {op[:4]}")

    for op in case["ops"]:
        do(op)
    hook.clear()
    m_hook.clear()
    for k in "iabg":
        do(["resume", k, None, None])
    # late listeners must not get anything old
    late = []
    for k in "iab":
        objs[k].connect(lambda *a: late.append(a), check_nargs=False)
    g.connect(lambda info: late.append(info))
    for k in "iabg":
        objs[k].resume()
    ctx.eq(late, [], "old emissions received by listeners that were connected after resume()")


def gen_red_op(rng, depth=0):
    x = rng.random()
    if x < 0.04:
        return ["hook", "i", rng.randint(0, 2)]
    if x < 0.55:
        return ["emit", rng.choice("iiab")]
    k = rng.choice("iiabg")
    red = rng.choice([None, *REDUCERS]) if rng.random() < 0.8 else None
    initial = rng.choice([None, None, [0], [-1, -2], *FALSY])
    if isinstance(initial, str):
        red = "gather2"
    if x < 0.65:
        return ["pause", k]
    if x < 0.75 or depth > 3:
        return ["resume", k, red, initial]
    return ["ctx", k, red, initial, [gen_red_op(rng, depth + 1) for _ in range(rng.randint(0, 5))], rng.random() < 0.25]


def gen_reducers(rng, i, tier):
    return {
        "mode": rng.choice(["immediate", "queued", "latest-only"]), "listen": rng.choice([list("iabg"), list("iabg"), list("iab"), list("ig"), ["g"], ["i"], []]),
        "two": rng.random() < 0.5, "mod": rng.choice([1000, 1000, 2, 1]), "ops": [gen_red_op(rng) for _ in range(rng.randint(3, 12))],
    }


# ---------------------------------------------------------------- faults: conservation


def run_faults(case, ctx):
    if case["group"]:
        g = type("G", (SignalGroup,), {"m": Signal(int)})()
        sig, emit, arg = g.all, g.m.emit, (lambda info: info.args[0])
    else:
        sig = SignalInstance((int,), reemission=case["mode"])
        emit, arg = sig.emit, (lambda v: v)
    calls = {}  # value -> callbacks called
    log = []
    stats = {"held": set(), "now": set(), "failed": set(), "paused": False, "programs": True, "flush": 0}
    ncb = case["ncb"]

    def mk(i):
        def cb(x):
            v = arg(x)
            calls.setdefault(v, []).append(i)
            log.append((v, i))
            if stats["paused"]:
                ctx.fail(f"callback {i} was called with {v} although the signal is paused")
            if not stats["programs"]:
                return
            act = case["acts"].get(f"{v}:{i}")
            if act == "raise":
                stats["failed"].add(v)
                if stats["flush"]:
                    ctx.count("raised_in_flush")
                raise ValueError(v)
            if i == ncb - 1:  # (the others would be called while paused)
                if act == "pause":
                    sig.pause()
                    stats["paused"] = True
                elif act == "resume":
                    # (not paused: nothing has to happen except for those still waiting)
                    do_resume()

        return cb

    keep = [mk(i) for i in range(ncb)]
    for f in keep:
        sig.connect(f)

    def do_resume():
        stats["paused"] = False
        n0 = len(log)
        stats["flush"] += 1
        try:
            sig.resume()
        finally:
            stats["flush"] -= 1
        return n0

    def check_once(op):
        for v, cs in calls.items():
            if len(set(cs)) != len(cs):
                ctx.fail(f"emission {v} was delivered twice to a callback after {op}: calls {log}")
            if cs != list(range(len(cs))):
                ctx.fail(f"emission {v}: callbacks called: {cs}")
            if v not in stats["failed"] and len(cs) != ncb:
                ctx.fail(f"emission {v} was delivered to {len(cs)} of {ncb} callbacks")

    v = 0
    for op in case["ops"]:
        if op == "emit":
            v += 1
            was = stats["paused"]
            n0 = len(log)
            r = attempt(emit, v)
            if was:
                stats["held"].add(v)
                ctx.count("held")
                ctx.check(r.ok and len(log) == n0, lambda: f"emission {v} while paused: {r}, calls {log[n0:]}")
            else:
                ctx.check(v in calls, lambda: f"emission {v} was not delivered, the signal isn't paused")
                ctx.check(r.ok or isinstance(r.exc, EmitLoopError), lambda: f"{r}")
        elif op == "pause":
            sig.pause()
            stats["paused"] = True
        else:
            n0 = len(log)
            if op == "resume":
                r = attempt(do_resume)
            else:  # context, with one emission
                v += 1
                was = stats["paused"]

                def body():
                    with sig.paused():
                        stats["paused"] = True
                        stats["held"].add(v)
                        emit(v)
                        stats["paused"] = was

                stats["flush"] += 1
                r = attempt(body)
                stats["flush"] -= 1
                if was:
                    ctx.check(r.ok and len(log) == n0, lambda: f"leaving an inner paused() context: {r}, calls {log[n0:]}")
            ctx.check(r.ok or isinstance(r.exc, EmitLoopError), lambda: f"{op}: {r}")
            order = [x for x, i in log[n0:] if i == 0]
            ctx.check(order == sorted(order), lambda: f"{op} delivered emissions in the order {order}")
        check_once(op)
    # from now on, nobody raises: everything has to come out
    stats["programs"] = False
    sig.pause()
    stats["paused"] = True
    do_resume()
    check_once("last resume")
    for x in range(1, v + 1):
        ctx.check(x in calls, lambda: f"emission {x} was lost: it was not delivered by the last resume either; delivered: {log}")
    ctx.count("conserved", len(stats["held"]))
    if len(stats["held"]) > 1 and case["acts"]:
        ctx.nontrivial()


def gen_faults(rng, i, tier):
    ncb = rng.randint(1, 3)
    ops = [rng.choice(["emit", "emit", "emit", "pause", "resume", "ctx"]) for _ in range(rng.randint(4, 25))]
    acts = {}
    mode = rng.choice(["immediate", "queued", "latest-only"])
    # (resume() in a callback of a queued signal moves everything to the queue of nested
    # emissions, which is dropped if a callback raises: not claimed)
    kinds = ["raise", "raise", "pause", "resume"] if mode != "queued" else ["raise", "raise", "pause"]
    for v in range(1, len(ops) + 1):
        if rng.random() < 0.35:
            acts[f"{v}:{rng.randrange(ncb)}"] = rng.choice(kinds)
    return {"mode": mode, "group": rng.random() < 0.25, "ncb": ncb, "ops": ops, "acts": acts}


WORKLOADS = [
    Workload("programs", gen, run, quick=8000, thorough=200000, shrink=("tops", "cbs") + tuple(f"{s}{j}" for s in "abc" for j in range(4))),
    Workload("reducers", gen_reducers, run_reducers, quick=4000, thorough=80000),
    Workload("faults", gen_faults, run_faults, quick=6000, thorough=150000),
]
