"""C07: blocked signals deliver nothing, and blocking is undone exactly."""
import contextlib
from collections import Counter

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance
from vh.core import Workload, attempt

PROP = "C07"
TECHNIQUE = "runtime monitoring: deliveries of every emission compared with a shadow model of the blocked state under random nesting of contexts"
RULE = (
    "random trees of blocked() contexts of signals and of groups (exclusion by name and by instance), left normally or by "
    "exceptions, with explicit block()/unblock() outside of them, emissions by all three ways at every point (also from "
    "callbacks that open contexts themselves), and pause/resume; a shadow model gives the blocked state of each signal; after "
    "every step each signal is emitted and the deliveries compared; non-trivial: nesting of at least 2, distinct by case"
)
REQUIRE = {"blocked_emissions": 500, "delivered": 500, "group_contexts": 100, "exits_by_exception": 50, "excluded": 50, "in_callback": 30, "blocked_while_paused": 20}


class Leave(Exception):
    pass


class Sys:
    """Two groups of three signals, three plain signals; shadow model of the blocked state."""

    def __init__(self, ctx, case):
        self.ctx = ctx
        G = type("G", (SignalGroup,), {"a": Signal(int), "ab": Signal(int), "abc": Signal(int, name="a")})
        H = type("H", (G,), {"b": Signal(int)})
        T = type("T", (), {"s": Signal(int), "t": Signal(int, reemission="queued")})
        self.t = T()
        self.groups = {"G": G(), "H": H()}
        self.sigs = {"s": self.t.s, "t": self.t.t, "u": SignalInstance((int,), reemission="latest-only")}
        self.members = {}
        for g, grp in self.groups.items():
            self.members[g] = [f"{g}.{n}" for n in grp]
            for n in grp:
                self.sigs[f"{g}.{n}"] = grp[n]
        self.blocked = dict.fromkeys([*self.sigs, *self.groups], False)
        self.paused = {}  # name -> values waiting
        self.held = {}  # group name -> members' state before group.block()
        self.got = Counter()
        self.ggot = Counter()
        self.order = []
        self.active = []  # names touched by active contexts
        self.v = 0
        self.depth = self.max_depth = 0
        self.programs = {k: list(v) for k, v in case["programs"].items()}
        for n, s in self.sigs.items():
            s.connect(self.cb(n))
        self.glisten = case["glisten"]
        for g, grp in self.groups.items():
            if g in self.glisten:
                grp.connect(self.gcb(g))

    def cb(self, name):
        def f(v):
            self.got[name, v] += 1
            prog = self.programs.get(name)
            if prog and self.depth < 6:
                self.ctx.count("in_callback")
                self.do(prog.pop(0))

        return f

    def gcb(self, g):
        def f(info):
            n = next(n for n, s in self.sigs.items() if s is info.signal)
            self.ggot[g, n, info.args[0]] += 1

        return f

    def emit(self, name, how):
        self.v += 1
        v = self.v
        sig = self.sigs[name]
        blocked = self.blocked[name]
        group = name.split(".")[0] if "." in name else None
        # the group's listeners are served by an ordinary callback of the member
        f = {"emit": sig.emit, "fast": sig.emit_fast if group not in self.glisten else sig.emit, "call": sig}[how]
        paused = name in self.paused
        group_open = group in self.glisten and not self.blocked[group]
        if blocked:
            self.ctx.count("blocked_emissions")
            if paused:
                self.ctx.count("blocked_while_paused")
        elif paused:
            self.paused[name].append(v)
        r = attempt(f, v)
        self.ctx.check(r.ok, lambda: f"emission of {name}: {r}")
        self.settle(name, v, 0 if blocked or paused else 1, group if group_open else None)

    def settle(self, name, v, n, group):
        self.ctx.eq(self.got[name, v], n, f"calls for an emission of {name}, blocked: {[k for k, b in self.blocked.items() if b]}")
        if n:
            self.ctx.count("delivered")
        if group:
            self.ctx.eq(self.ggot[group, name, v], n, f"calls of the listener of group {group} for an emission of {name}")

    def emit_all(self):
        for k, n in enumerate(self.sigs):
            self.emit(n, ("emit", "fast", "call")[(self.v + k) % 3])
        for (n, v), c in self.got.items():
            if c > 1:
                self.ctx.fail(f"emission {v} of {n} delivered {c} times")

    def affected(self, target):
        return [target, *self.members.get(target, ())]

    def do(self, op):
        name = op[0]
        if name == "emit":
            self.emit(op[1], op[2])
        elif name == "all":
            self.emit_all()
        elif name == "ctx":
            _, target, excl, body, leave = op
            if self.depth > 5:
                return
            obj = self.groups.get(target) or self.sigs[target]
            aff = self.affected(target)
            before = {n: self.blocked[n] for n in aff}
            kw = {}
            excluded = []
            if target in self.groups:
                self.ctx.count("group_contexts")
                excluded = [f"{target}.{n}" for n in excl["names"]]
                if excl["names"]:
                    self.ctx.count("excluded")
                    ex = [n if excl["by"] == "name" or (excl["by"] == "mix" and k % 2) else self.sigs[f"{target}.{n}"] for k, n in enumerate(excl["names"])]
                    kw = {"exclude": {"tuple": tuple, "list": list, "set": set}[excl["type"]](ex)}
            self.depth += 1
            self.max_depth = max(self.max_depth, self.depth)
            self.active.append(aff)
            try:
                with obj.blocked(**kw):
                    for n in aff:
                        if n not in excluded:
                            self.blocked[n] = True
                    self.do(["all"])
                    for b in body:
                        self.do(b)
                    if leave:
                        self.ctx.count("exits_by_exception")
                        raise Leave
            except Leave:
                if not leave:
                    raise
            finally:
                self.active.pop()
                self.depth -= 1
                self.blocked.update(before)
            self.do(["all"])
        elif name in ("block", "unblock"):
            target = op[1]
            aff = set(self.affected(target)) | ({target.split(".")[0]} if "." in target else set())
            if any(aff & set(a) for a in self.active):
                return
            if "." in target and target.split(".")[0] in self.held:
                return  # (ambiguous: what should unblocking the group do?)
            obj = self.groups.get(target) or self.sigs[target]
            if target in self.groups:
                if name == "block":
                    if target in self.held:
                        return
                    self.held[target] = {n: self.blocked[n] for n in self.members[target]}
                    excluded = op[2] if len(op) > 2 else []
                    if excluded:
                        obj.block(exclude=excluded)
                    else:
                        obj.block()
                    for n in self.affected(target):
                        if n.split(".")[-1] not in excluded or n == target:
                            self.blocked[n] = True
                else:
                    if target not in self.held:
                        return
                    obj.unblock()
                    self.blocked[target] = False
                    self.blocked.update(self.held.pop(target))
            else:
                getattr(obj, name)()
                self.blocked[target] = name == "block"
            self.do(["all"])
        elif name == "pause":
            if op[1] not in self.paused:
                self.sigs[op[1]].pause()
                self.paused[op[1]] = []
        elif name == "resume":
            n = op[1]
            if n in self.paused and not self.blocked[n] and not self.depth:
                vals = self.paused.pop(n)
                saved, self.programs = self.programs, {}
                self.sigs[n].resume()
                self.programs = saved
                for v in vals:
                    self.ctx.eq(self.got[n, v], 1, f"calls for an emission of {n} after resume")


def run(case, ctx):
    s = Sys(ctx, case)
    s.emit_all()
    for op in case["ops"]:
        s.do(op)
    s.programs = {}  # (from here on, callbacks don't block anything any more)
    for g in list(s.held):
        s.do(["unblock", g])
    for n in list(s.paused):
        s.do(["unblock", n])
        s.do(["resume", n])
    for n in [*s.sigs]:
        s.do(["unblock", n])
    s.emit_all()
    ctx.check(all(not b for b in s.blocked.values()), "model")
    if s.max_depth >= 2:
        ctx.nontrivial()


NAMES = ["s", "t", "u", "G.a", "G.ab", "G.abc", "H.a", "H.ab", "H.abc", "H.b"]
MEMBERS = {"G": ["a", "ab", "abc"], "H": ["a", "ab", "abc", "b"]}


def gen_ctx(rng, depth):
    target = rng.choice(["G", "H", "G", *NAMES])
    excl = {"names": [], "by": "name", "type": "tuple"}
    if target in "GH" and rng.random() < 0.5:
        excl = {"names": rng.sample(MEMBERS[target], rng.randint(1, 3)), "by": rng.choice(["name", "instance", "mix"]), "type": rng.choice(["tuple", "list", "set"])}
    body = []
    while rng.random() < 0.6 - 0.08 * depth and len(body) < 4:
        body.append(gen_op(rng, depth + 1))
    return ["ctx", target, excl, body, rng.random() < 0.3]


def gen_op(rng, depth=0):
    x = rng.random()
    if x < 0.5 and depth < 5:
        return gen_ctx(rng, depth)
    if x < 0.65:
        return ["emit", rng.choice(NAMES), rng.choice(["emit", "fast", "call"])]
    if x < 0.85:
        t = rng.choice(["G", "H", *NAMES])
        op = [rng.choice(["block", "unblock"]), t]
        if t in "GH" and op[0] == "block" and rng.random() < 0.4:
            op.append(rng.sample(MEMBERS["G"], rng.randint(1, 2)))
        return op
    return [rng.choice(["pause", "resume"]), rng.choice(NAMES)]


def gen(rng, i, tier):
    progs = {}
    if rng.random() < 0.4:
        for n in rng.sample(NAMES, rng.randint(1, 3)):
            # (not in queued or latest-only signals: their nested emissions come later, or supersede)
            if n not in "tu":
                progs[n] = [gen_ctx(rng, 2) for _ in range(rng.randint(1, 3))]
    return {"glisten": rng.choice([["G", "H"], ["G"], ["G"], []]), "programs": progs, "ops": [gen_op(rng) for _ in range(rng.randint(2, 8))]}


WORKLOADS = [Workload("contexts", gen, run, quick=3000, thorough=60000, shrink=("ops",))]
