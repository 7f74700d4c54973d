"""C13: a signal group relays every member emission to its listeners once."""
import gc
import warnings

from psygnal import EmissionInfo, Signal, SignalGroup, SignalInstance
from vh import zoo
from vh.core import Workload, attempt

PROP = "C13"
TECHNIQUE = "runtime monitoring: call log of all group listeners and member callbacks compared with an executable model of members and relay after every operation"
RULE = (
    "random group hierarchies (inherited, overridden, mixed in, reserved names, custom signal names, all re-emission strategies); random "
    "connections (group.connect, group.all.connect, connect_direct, members' own; kinds of callables, priorities, max_args, duplicates, unique), "
    "disconnections, dying owners and emissions on two instances, callbacks that emit other members or disconnect; each emission's calls, in "
    "order, with the EmissionInfo contents, must be those of the model; non-trivial: at least 3 emissions with group listeners, distinct by case"
)
REQUIRE = {"emissions": 2000, "infos": 3000, "direct_calls": 1000, "own_calls": 1000, "nested": 300, "group_disconnects": 200, "all_removed": 50, "not_connected": 50, "killed": 100, "reserved": 50, "strict_ok": 100, "strict_rejected": 100, "reemitted_immediate": 50, "reemitted_queued": 50, "reemitted_latest-only": 50, "overridden": 100}

RESERVED = ["all", "signals", "connect", "psygnal_x"]


def make_signal(o):
    return Signal(*[object] * o["n"], name=o["name"], reemission=o["mode"])


def build(case):
    mixin = type("Mixin", (), {a: make_signal(o) for a, o in case["mixin"].items()})
    decl = {}
    cls = None
    for k, lv in enumerate(case["levels"]):
        bases = (cls,) if cls else (SignalGroup,)
        if k == case["mixin_at"]:
            bases = (mixin, *bases)
            decl.update(case["mixin"])
        decl.update(lv)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cls = type(SignalGroup)(f"G{k}", bases, {"__module__": "vh.fake", **{a: make_signal(o) for a, o in lv.items()}})
    # (if the mixin comes before the group, its signals win over those of the groups it is mixed with)
    return cls, decl


class Model:
    """Members and relay of one group instance."""

    def __init__(self, decl):
        self.decl = decl
        self.members = {a: [] for a in decl}  # [prio, cb id, max_args] or [0, "relay", None]
        self.relay = []

    @staticmethod
    def insert(lst, slot):
        for i, s in enumerate(lst):
            if s[0] < slot[0]:
                lst.insert(i, slot)
                return
        lst.append(slot)

    @staticmethod
    def remove(lst, cb):
        for i, s in enumerate(lst):
            if s[1] == cb:
                del lst[i]
                return True
        return False

    def sync(self):
        for lst in self.members.values():
            has = any(s[1] == "relay" for s in lst)
            if self.relay and not has:
                self.insert(lst, [0, "relay", None])
            elif not self.relay and has:
                self.remove(lst, "relay")

    def connected(self, cb):
        return any(s[1] == cb for lst in [self.relay, *self.members.values()] for s in lst)

    def disconnect(self, cb):
        for lst in [*self.members.values(), self.relay]:
            if cb is None:
                lst.clear()
            else:
                self.remove(lst, cb)
        self.sync()

    def kill(self, cb):
        for lst in [*self.members.values(), self.relay]:
            lst[:] = [s for s in lst if s[1] != cb]
        self.sync()


def run_relay(case, ctx):
    cls, decl = build(case)
    names = list(decl)
    groups = [cls(), cls()]
    models = [Model(decl), Model(decl)]
    log = []
    programs = {k: list(v) for k, v in case["programs"].items()}
    stack = []
    cbs, owners, nmax = {}, {}, {}

    # --- structure
    for g in groups:
        ctx.eq(sorted(g), sorted(decl), "names of the group")
        if len(set().union(*case["levels"])) < sum(map(len, case["levels"])):
            ctx.count("overridden")
        ctx.eq(len(g), len(decl), "len(group)")
        for a in decl:
            ctx.check(a in g, lambda: f"{a!r} not in group")
            ctx.check(isinstance(g[a], SignalInstance) and g[a] is g[a], lambda: f"group[{a!r}] is {g[a]!r}")
            ctx.eq(len(g[a].signature.parameters), decl[a]["n"], lambda: f"parameters of {a}")
            ctx.eq(g[a].name, decl[a]["name"] or a, "name of a member")
            if a in RESERVED:
                ctx.count("reserved")
            else:
                ctx.check(getattr(g, a) is g[a], lambda: f"group.{a} is not group[{a!r}]")
        ctx.check("nope" not in g and not attempt(lambda: g["nope"]).ok and not hasattr(g, "nope"), "a name that is not declared")
    ctx.check(not {id(s) for s in groups[0].signals.values()} & {id(s) for s in groups[1].signals.values()}, "two groups share members")
    ctx.check(isinstance(groups[0].all, SignalInstance) and groups[0].all is groups[0].all, "group.all")

    def sink(tag, args):
        log.append((tag, args))
        prog = programs.get(tag)
        if prog:
            run_action(prog.pop(0), real=True)

    # the model replays the same programs
    mprograms = {k: list(v) for k, v in case["programs"].items()}
    mlog = []
    mstack = []

    def m_sink(tag, args):
        mlog.append((tag, args))
        prog = mprograms.get(tag)
        if prog:
            run_action(prog.pop(0), real=False)

    def run_action(act, real):
        st = stack if real else mstack
        if act is None:
            return
        if act[0] == "emit":
            _, gi, mi, v = act
            a = names[mi % len(names)]
            if len(st) > 3:
                return
            if not real and (gi, a) in st:
                ctx.count("reemitted_" + decl[a]["mode"])
            (emit if real else m_emit)(gi, a, v, "emit")
            if real:
                ctx.count("nested")
        elif act[0] == "disconnect":
            _, gi, cb = act
            if cb in cbs:
                if real:
                    groups[gi].disconnect(cbs[cb])
                else:
                    models[gi].disconnect(cb)

    def values(a, v):
        return tuple(f"{v}.{k}" for k in range(decl[a]["n"]))

    def emit(gi, a, v, how):
        st = stack
        st.append((gi, a))
        try:
            s = groups[gi][a]
            (s.emit if how == "emit" else s)(*values(a, v))
        finally:
            st.pop()

    def m_emit(gi, a, v, how):
        m = models[gi]
        mstack.append((gi, a))
        mode = decl[a]["mode"]
        if mode == "queued":
            q = queues.setdefault((gi, a), [])
            q.append(values(a, v))
            if len(q) == 1:
                i = 0
                while i < len(q):
                    m_round(m, gi, a, q[i], lambda: False)
                    i += 1
                q.clear()
        else:
            started[gi, a] = me = started.get((gi, a), 0) + 1
            m_round(m, gi, a, values(a, v), lambda: mode == "latest-only" and started[gi, a] != me)
        mstack.pop()

    queues, started = {}, {}  # (member) -> emissions in progress (queued), number of emissions so far

    def m_round(m, gi, a, args, superseded):
        lst = m.members[a]
        for slot in list(lst):
            if superseded():
                break
            if not any(s is slot for s in lst):
                continue
            if slot[1] == "relay":
                for rs in list(m.relay):
                    if any(s is rs for s in m.relay):
                        m_sink(rs[1], zoo.expected_args((("INFO", gi, a, args),), rs[2]))
            else:
                m_sink(slot[1], zoo.expected_args(args, slot[2]))

    def norm(entry):
        tag, args = entry
        if len(args) == 1 and isinstance(args[0], EmissionInfo):
            info = args[0]
            for gi, g in enumerate(groups):
                for a in decl:
                    if g[a] is info.signal:
                        return tag, (("INFO", gi, a, info.args),)
            return tag, (("INFO?", info),)
        return entry

    n_emissions = 0

    # (a function of its own, because references to callbacks must not survive)
    def do(op):
        nonlocal n_emissions
        k, gi = op[0], op[1]
        g, m = groups[gi], models[gi]
        if k == "new":
            _, _, cb, kind = op
            if cb not in cbs:
                cbs[cb], owners[cb], nmax[cb] = zoo.make(kind, cb, sink)
            return
        if k in ("connect", "direct", "own", "disconnect", "own_disconnect", "kill") and op[2] not in cbs:
            return
        if k == "connect":
            _, _, cb, prio, max_args, via_all, unique = op
            target = g.all if via_all else g
            if nmax[cb] is not None:
                max_args = None
            r = attempt(target.connect, cbs[cb], priority=prio, max_args=max_args, unique=unique)
            dup = any(s[1] == cb for s in m.relay)
            if unique == "raise" and dup:
                ctx.check(isinstance(r.exc, ValueError), lambda: f"connect(unique='raise') of a connected callback: {r}")
            else:
                ctx.check(r.ok, lambda: f"group.connect: {r}")
                if not (unique and dup):
                    lim = max_args if nmax[cb] is None else nmax[cb]
                    m.insert(m.relay, [prio, cb, lim])
                    m.sync()
        elif k == "direct":
            _, _, cb, max_args, unique = op
            if nmax[cb] is not None or cb.startswith("q"):
                return
            r = attempt(g.connect_direct, cbs[cb], max_args=max_args, unique=unique)
            dup = any(s[1] == cb for lst in m.members.values() for s in lst)
            if unique == "raise" and dup:
                ctx.check(isinstance(r.exc, ValueError), lambda: f"connect_direct(unique='raise') of a callback that is connected to a member: {r}")
            else:
                ctx.check(r.ok, lambda: f"connect_direct: {r}")
            for lst in [m.members[a] for a in g]:
                if unique and any(s[1] == cb for s in lst):
                    if unique == "raise":
                        break  # (the members before it have been connected)
                else:
                    m.insert(lst, [0, cb, max_args])
        elif k == "own":
            _, _, cb, mi, prio = op
            a = names[mi % len(names)]
            if nmax[cb] is not None or cb.startswith("q"):
                return
            g[a].connect(cbs[cb], priority=prio)
            m.insert(m.members[a], [prio, cb, None])
        elif k == "own_disconnect":
            _, _, cb, mi = op
            a = names[mi % len(names)]
            g[a].disconnect(cbs[cb])
            m.remove(m.members[a], cb)
        elif k == "disconnect":
            _, _, cb, missing_ok = op
            was = m.connected(cb)
            r = attempt(g.disconnect, cbs[cb], missing_ok=missing_ok)
            if not was and not missing_ok:
                ctx.count("not_connected")
                ctx.check(isinstance(r.exc, ValueError), lambda: f"group.disconnect(missing_ok=False) of a callback that is connected nowhere: {r}")
            else:
                ctx.check(r.ok, lambda: f"group.disconnect: {r}")
                m.disconnect(cb)
                ctx.count("group_disconnects")
        elif k == "disconnect_all":
            g.disconnect()
            m.disconnect(None)
            ctx.count("all_removed")
        elif k == "kill":
            cb = op[2]
            if owners[cb] is not None:
                ctx.count("killed")
                for x in models:
                    x.kill(cb)
                programs.pop(cb, None)
                mprograms.pop(cb, None)
                del cbs[cb], owners[cb]
                gc.collect()  # (exceptions raised so far)
        elif k == "emit":
            _, _, mi, v, how = op
            a = names[mi % len(names)]
            log.clear()
            mlog.clear()
            had = bool(m.relay)
            m_emit(gi, a, v, how)
            emit(gi, a, v, how)
            got = [norm(e) for e in log]
            ctx.count("emissions")
            n_emissions += had
            for tag, args in mlog:
                if args and isinstance(args[0], tuple) and args[0][0] == "INFO":
                    ctx.count("infos")
                elif any(s[1] == tag for s in m.members[a]):
                    ctx.count("own_calls" if not all(any(s[1] == tag for s in lst) for lst in m.members.values()) else "direct_calls")
            ctx.eq(got, mlog, lambda: f"calls made by emitting {a!r} of group {gi}")

    for op in case["ops"]:
        do(op)
        for g, m in zip(groups, models):
            ctx.eq(len(g.all), len(m.relay), "len(group.all)")
            for cb in cbs:
                ctx.eq(cbs[cb] in g.all, any(s[1] == cb for s in m.relay), lambda: f"`{cb} in group.all`")
    if n_emissions >= 3:
        ctx.nontrivial()


def gen_relay(rng, i, tier):
    pool = rng.choice([["a", "b", "c", "d", "changed"], ["a", "ab", "abc", "b", "changed"]])
    if rng.random() < 0.15:
        pool += rng.sample(RESERVED, 2)

    def opts():
        return {"n": rng.randint(0, 3), "name": rng.choice([None, None, None, "other"]), "mode": rng.choice(["immediate", "immediate", "immediate", "queued", "latest-only"])}

    levels = [{a: opts() for a in rng.sample(pool, rng.randint(1 if not k else 0, 3))} for k in range(rng.choice([1, 1, 2, 3]))]
    # (the names of mixins are their own)
    mixin = {a: opts() for a in (["x", "y"][: rng.randint(1, 2)] if rng.random() < 0.25 else [])}
    kinds = ["func", "lambda", "method", "partial", "pmethod", "obj", "kwfunc", "static", "fixed1", "fmeth1", "setattr", "kwpmethod", "kwpmethod2", "kwpartial", "pobj", "dunder", "wrapper"]
    cbs = [f"{'q' if (kd := rng.choice(kinds)) == 'setattr' else 'c'}{k}:{kd}" for k in range(6)]
    ops = [["new", 0, cb, cb.split(":")[1]] for cb in cbs]

    def op(v):
        x = rng.random()
        gi = rng.choice([0, 0, 0, 1])
        cb = rng.choice(cbs)
        mi = rng.randrange(6)
        if x < 0.2:
            return ["connect", gi, cb, rng.choice([0, 0, 0, 1, -1]), rng.choice([None, None, None, 1, 0]), rng.random() < 0.5, rng.choice([False, False, True, "raise"])]
        if x < 0.27:
            return ["direct", gi, cb, rng.choice([None, None, 0, 1, 2]), rng.choice([False, False, True, "raise"])]
        if x < 0.35:
            return ["own", gi, cb, mi, rng.choice([0, 0, 1, -1])]
        if x < 0.38:
            return ["own_disconnect", gi, cb, mi]
        if x < 0.47:
            return ["disconnect", gi, cb, rng.random() < 0.6]
        if x < 0.485:
            return ["disconnect_all", gi]
        if x < 0.52:
            return ["kill", gi, cb]
        return ["emit", gi, mi, v, rng.choice(["emit", "call"])]

    ops += [op(v) for v in range(rng.randint(8, 45))]
    programs = {}
    for cb in cbs:
        if rng.random() < 0.35:
            programs[cb] = [rng.choice([None, None, ["emit", rng.choice([0, 0, 1]), rng.randrange(6), f"n{k}{cb[1]}"], ["disconnect", rng.choice([0, 0, 1]), rng.choice(cbs)]]) for k in range(rng.randint(1, 12))]
    return {"levels": levels, "mixin": mixin, "mixin_at": rng.randrange(len(levels)), "ops": ops, "programs": programs}


# ---------------------------------------------------------------- strict groups


TYPES = {"int": int, "str": str, "object": object, "list": list}


def run_strict(case, ctx):
    def ns(d):
        return {a: Signal(*[TYPES[t] for t in ts]) for a, ts in d.items()}

    base = type(SignalGroup)("B", (SignalGroup,), ns(case["base"])) if case["base"] else SignalGroup
    decl = {**case["base"], **case["sigs"]}
    uniform = len({tuple(t) for t in decl.values()}) <= 1
    meta = type(SignalGroup)

    def make():
        return meta("G", (base,), ns(case["sigs"]), **({"strict": True} if case["strict"] else {}))

    r = attempt(make)
    if case["strict"] and not uniform:
        ctx.count("strict_rejected")
        ctx.check(isinstance(r.exc, TypeError), lambda: f"strict group with signatures {decl}: {r}")
        ctx.nontrivial()
        return
    ctx.check(r.ok, lambda: f"group with signatures {decl} (strict: {case['strict']}): {r}")
    if case["strict"]:
        ctx.count("strict_ok")
    G = r.val
    ctx.eq(G.psygnals_uniform(), uniform, lambda: f"psygnals_uniform() of {decl}")
    g = G()
    got = []
    g.connect(lambda info: got.append((info.signal.name, info.args)))
    for a, ts in decl.items():
        g[a].emit(*range(len(ts)))
    ctx.eq(got, [(a, tuple(range(len(ts)))) for a, ts in decl.items()], "infos")
    ctx.nontrivial()


def gen_strict(rng, i, tier):
    sig = [rng.choice(list(TYPES)) for _ in range(rng.randint(0, 2))]

    def sigs(names, p):
        return {a: sig if rng.random() < p else [rng.choice(list(TYPES)) for _ in range(rng.randint(0, 2))] for a in names}

    return {"base": sigs("pq", 0.9) if rng.random() < 0.4 else {}, "sigs": sigs("abc"[: rng.randint(1, 3)], 0.8), "strict": rng.random() < 0.7}


WORKLOADS = [
    Workload("relay", gen_relay, run_relay, quick=2500, thorough=60000, shrink=("ops",)),
    Workload("strict", gen_strict, run_strict, quick=600, thorough=6000, shrink=()),
]
