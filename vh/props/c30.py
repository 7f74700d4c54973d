"""C30: the message of an EmitLoopError says which emission and which line of which callback failed."""
import itertools
import linecache
import os
import re
import threading
import warnings
from dataclasses import dataclass
from functools import partial
from pathlib import Path
from typing import ClassVar

import psygnal
from psygnal import EmitLoopError, EventedModel, Signal, SignalGroupDescriptor, SignalInstance
from psygnal.containers import EventedDict, EventedList, EventedSet
from vh.core import Workload, attempt, relay

PROP = "C30"
TECHNIQUE = "runtime monitoring: failing callbacks in generated code with known file names, functions and lines; the frames, signal, exception, depth, arguments and local variables in the message of the EmitLoopError are compared with what was executed"
RULE = (
    "chains of generated functions (in files of various names, some like those of psygnal) that emit a signal (emit, call, emit_fast, resume, paused(), fields of evented objects and models, containers, groups; of an instance, standalone), "
    "whose callback (function, method, partial, callable object, property set by connect_setattr) calls other functions, emits further signals or the same one again, and finally fails (raise, builtin that fails, re-raise, raise from); "
    "`queue`: queued signals whose callbacks emit several times and fail at one of the emissions; non-trivial: an error with at least two frames, distinct by case"
)
REQUIRE = {"errors": 3000, "nested": 500, "deep": 300, "chains": 1000, "locals": 1500, "hidden": 200, "fast": 200, "fields": 300, "containers": 300, "groups": 100, "converted": 200, "queued": 500, "queue_rest": 300, "strange_files": 500, "threads": 200}
ASSUMPTIONS = ["the message is compared only in what it says about the emission and the error, not in its wording apart from the headings"]

ROOT = str(Path(psygnal.__file__).parent)
SERIAL = itertools.count()


class Code:
    """Functions at known places."""

    def __init__(self):
        self.files = []

    def make(self, style, line, indent_src, ns, registered):
        k = next(SERIAL)
        name = {
            "plain": f"/home/u{k}/app_{k}.py",
            "psygnal_dir": f"/home/u{k}/psygnal/app_{k}.py",
            "plugin": f"{ROOT}_plugin/app_{k}.py",
            "string": f"<generated {k}>",
            "sibling": f"{os.path.dirname(ROOT)}/app_{k}.py",
        }[style]
        src = "\n" * (line - 1) + indent_src
        if registered:
            # (no mtime: not checked again)
            linecache.cache[name] = (len(src), None, src.splitlines(True), name)
        self.files.append(name)
        exec(compile(src, name, "exec"), ns)
        return name

    def clear(self):
        for f in self.files:
            linecache.cache.pop(f, None)


class Frame:
    def __init__(self, file, line, func, text):
        self.file, self.line, self.func, self.text = file, line, func, text

    def __repr__(self):
        return f"{self.file}:{self.line} in {self.func}"


class Custom(Exception):
    pass


def make_chain(code, specs, last, depth_ns, prefix):
    """Functions that call each other; returns the first one and the frames (innermost last)."""
    frames = []
    nxt = None
    for k in range(len(specs) - 1, -1, -1):
        sp = specs[k]
        fn = f"{prefix}_{k}_{sp['name']}"
        lines = [f"def {fn}(v):", "    loc_a = v + 10; a_local_variable_with_quite_a_long_name = v + 20", f"    loc_b = {sp['loc']!r}"]
        lines[1:1] = ["    # comment"] * sp["pad"]
        err = None
        if k == len(specs) - 1:
            lines.append(f"    {last}")
            call = len(lines)
        elif sp["wrap"] == "reraise":
            lines += ["    try:", "        nxt(v)"]
            call = len(lines)
            lines += ["    except Exception:", "        raise"]
        elif sp["wrap"] == "convert":
            lines += ["    try:", "        nxt(v)"]
            call = len(lines)
            lines += ["    except Exception as err:", "        raise Custom('converted') from err"]
            err = len(lines)
        elif sp["wrap"] == "finally":
            lines += ["    try:", "        return nxt(v)"]
            call = len(lines)
            lines += ["    finally:", "        loc_a = 0"]
        else:
            lines.append("    return nxt(v)")
            call = len(lines)
        ns = {"nxt": nxt, "Custom": Custom, **depth_ns}
        file = code.make(sp["file"], sp["line"], "\n".join(lines) + "\n", ns, sp["registered"])
        fr = Frame(file, sp["line"] + call - 1, fn, lines[call - 1].strip() if sp["registered"] else None)
        fr.converted = Frame(file, sp["line"] + err - 1, fn, lines[err - 1].strip() if sp["registered"] else None) if err else None
        fr.loc = sp["loc"]
        frames.insert(0, fr)
        nxt = ns[fn]
    return nxt, frames


@dataclass
class Data:
    x: int = -1
    y: int = -1
    events: ClassVar = SignalGroupDescriptor()


class Model(EventedModel):
    x: int = -1


def make_owner(mode):
    class Owner:
        sig = Signal(int, reemission=mode)

    return Owner()


FAIL = {
    "raise": ("raise Custom('failed with %d' % v)", lambda v: ("Custom", f"failed with {v}")),
    "value": ("raise ValueError(v, 'x')", lambda v: ("ValueError", f"({v}, 'x')")),
    "zero": ("loc_a = 1 / (v * 0)", lambda v: ("ZeroDivisionError", "division by zero")),
    "key": ("{}['missing %d' % v]", lambda v: ("KeyError", f"'missing {v}'")),
    "builtin": ("list(map(int, ['x', v]))", lambda v: ("ValueError", "invalid literal for int() with base 10: 'x'")),
}

FRAME = re.compile(r"^\s+(\S.*):(\d+) in (\S+)$")


def parse(msg):
    """Sections of the message: heading -> [(file, line, function, code)]."""
    lines = msg.splitlines()
    out = {"emission": [], "error": []}
    now = out["emission"]
    for k, line in enumerate(lines):
        m = FRAME.match(line)
        if m:
            text = lines[k + 1] if k + 1 < len(lines) else ""
            text = text.split("# <-- ")[0].strip()
            now.append((m[1], int(m[2]), m[3], text))
        if "SIGNAL WAS EMITTED HERE" in line:
            now = out["error"]
    return out


def same(ctx, got, want, what, text=True):
    ctx.eq(got[:3], (want.file, want.line, want.func), what)
    if text and want.text is not None:
        ctx.eq(got[3], want.text, f"{what}: the line of code")


class Target:
    """One signal, and how it is emitted."""

    def __init__(self, sp):
        self.sp = sp
        how = self.how = sp["how"]
        self.get = "a[0]"
        self.fast = how == "fast"
        if how in ("emit", "call", "fast", "resume", "paused"):
            mode = sp["mode"]
            if sp["standalone"]:
                self.sig = SignalInstance((int,), name=sp["standalone"], reemission=mode)
            else:
                self.owner = make_owner(mode)
                self.sig = self.owner.sig
            self.stmt = {"emit": "sig.emit({k})", "call": "sig({k})", "fast": "sig.emit_fast({k})", "resume": "sig.resume()", "paused": "with sig.paused(): sig.emit({k})"}[how]
            self.ns = {"sig": self.sig}
        elif how in ("data", "model", "group"):
            self.owner = Model() if how == "model" else Data()
            self.sig = self.owner.events.x
            if how == "group":
                self.sig = relay(self.owner.events)
                self.get = "a[0].args[0]"
            self.stmt = "obj.x = {k}"
            self.ns = {"obj": self.owner}
        elif how == "list":
            self.owner = EventedList()
            self.sig = self.owner.events.inserted
            self.get = "a[-1]"
            self.stmt = "obj.insert(0, {k})"
            self.ns = {"obj": self.owner}
        elif how == "dict":
            self.owner = EventedDict({"k": -1})
            self.sig = self.owner.events.changed
            self.get = "a[-1]"
            self.stmt = "obj['k'] = {k}"
            self.ns = {"obj": self.owner}
        else:
            self.owner = EventedSet()
            self.sig = self.owner.events.items_changed
            self.get = "a[0][0]"
            self.stmt = "obj.add({k})"
            self.ns = {"obj": self.owner}
        i = self.sig.instance
        self.name = self.sig.name if i is None else f"{type(i).__module__}.{type(i).__qualname__}.{self.sig.name}"
        self.once = how in ("resume", "paused", "list", "dict", "set")


def callback(code, sp, target, table, keep):
    """Connect the callback of a signal; returns its frame."""
    kind = sp["kind"]
    if target.how in ("list", "dict", "set", "group") and kind == "setattr":
        kind = "func"
    get = target.get
    reg = sp["registered"]
    if kind == "setattr":
        lines = ["class C:", "    @property", "    def attr(self): return 0", "    @attr.setter", "    def attr(self, a):", "        return table[a](a)"]
        fn, line = "attr", 6
    elif kind in ("method", "object"):
        fn = "__call__" if kind == "object" else "meth"
        lines = ["class C:", f"    def {fn}(self, *a):", f"        return table[{get}]({get})"]
        line = 3
    elif kind == "partial":
        fn, lines, line = "cb", ["def cb(w, *a):", f"    return table[{get}]({get})"], 2
    else:
        fn, lines, line = "cb", ["def cb(*a):", f"    return table[{get}]({get})"], 2
    ns = {"table": table}
    file = code.make(sp["file"], sp["line"], "\n".join(lines) + "\n", ns, reg)
    if kind == "setattr":
        o = ns["C"]()
        keep.append(o)
        target.sig.connect_setattr(o, "attr", maxargs=1)
    elif kind in ("method", "object"):
        o = ns["C"]()
        keep.append(o)
        target.sig.connect(o.meth if kind == "method" else o)
    elif kind == "partial":
        target.sig.connect(partial(ns["cb"], 1))
    else:
        target.sig.connect(ns["cb"])
        keep.append(ns["cb"])
    return Frame(file, sp["line"] + line - 1, fn, lines[line - 1].strip() if reg else None)


def guarded(f):
    def run(case, ctx):
        code = Code()
        old = os.environ.pop("PSYGNAL_HIDE_LOCALS", None)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if case["hide"]:
                    os.environ["PSYGNAL_HIDE_LOCALS"] = "1"
                f(case, ctx, code)
        finally:
            code.clear()
            os.environ.pop("PSYGNAL_HIDE_LOCALS", None)
            if old is not None:
                os.environ["PSYGNAL_HIDE_LOCALS"] = old

    return run


def in_thread(f):
    box = []
    t = threading.Thread(target=lambda: box.append(attempt(f)))
    t.start()
    t.join()
    return box[0]


@guarded
def run_chain(case, ctx, code):
    keep = []
    targets = [Target(sp) for sp in case["targets"]]
    table = {}
    cbs = [callback(code, sp["cb"], t, table, keep) for sp, t in zip(case["targets"], targets)]
    segs = case["segments"]
    seq = [s["target"] % len(targets) for s in segs]  # which signal is emitted by segment k
    seen = set()
    for k, t in enumerate(seq):
        # (an instance that is paused, or a container, is used once)
        if t in seen and targets[t].once:
            seq[k] = None
        seen.add(t)
    seq = [t for t in seq if t is not None]
    chains = []
    for k, t in enumerate(seq):
        stmt = targets[t].stmt.format(k=k)
        chains.append(make_chain(code, segs[k]["chain"], stmt, targets[t].ns, f"seg{k}"))
    fail, outcome = FAIL[case["fail"]]
    chains.append(make_chain(code, case["chain"], fail, {}, "final"))
    for k in range(len(seq)):
        table[k] = chains[k + 1][0]
    for k, t in enumerate(seq):
        if targets[t].how == "resume":
            targets[t].sig.pause()
            targets[t].sig.emit(k)
    first = chains[0][0]
    run = lambda: first(0)  # noqa: E731
    r = in_thread(run) if case["thread"] else attempt(run)
    ctx.check(not r.ok, "no error was raised")
    err = r.exc
    # what happened: signal t, emitted by the last frame of chain n - 1, failed in chain n
    n = len(seq)
    level = n
    frames = [cbs[seq[level - 1]], *chains[level][1]]
    typ, text = outcome(n - 1)
    errs = None
    for fr in reversed(chains[n][1][:-1]):
        if fr.converted:
            errs, typ, text = fr, "Custom", "converted"
    # (what an outer callback makes of an EmitLoopError is an error of that callback)
    for j in range(1, n):
        conv = [fr for fr in chains[j][1][:-1] if fr.converted]
        if conv:
            level = j
            errs, typ, text = conv[0], "Custom", "converted"
            frames = [cbs[seq[level - 1]], *chains[level][1]]
            break
    if any(fr.converted for fr in chains[0][1][:-1]):
        ctx.check(isinstance(err, Custom), lambda: f"{err!r} instead of the exception that it was converted to")
        while isinstance(err, Custom):
            err = err.__cause__
    ctx.check(isinstance(err, EmitLoopError), lambda: f"{err!r} instead of EmitLoopError")
    t = targets[seq[level - 1]]
    msg = str(err)
    ctx.count("errors")
    note = lambda s: f"{s}; message:\n{msg}"  # noqa: E731
    ctx.check(f"{typ}: {text}" in msg, note(f"the message does not have the exception {typ}: {text}"))
    ctx.check(f"While emitting signal {t.name!r}" in msg, note(f"the message does not name the signal {t.name!r}"))
    p = parse(msg)
    em = chains[level - 1][1]
    ctx.check(len(p["emission"]) >= 1, note("no emission is shown"))
    same(ctx, p["emission"][-1], em[-1], note("the place of the emission"))
    if len(em) > 1:
        ctx.check(len(p["emission"]) == 2, note("the caller of the emitting function is not shown"))
        same(ctx, p["emission"][0], em[-2], note("the caller of the emitting function"))
    if errs is not None:
        last = errs.converted
        upto = frames.index(errs)
        ctx.count("converted")
    else:
        last = frames[-1]
        upto = len(frames) - 1
    ctx.check(len(p["error"]) >= 1, note("the error is not located"))
    same(ctx, p["error"][-1], last, note("the place of the error"))
    ctx.eq(len(p["error"]), 2 if upto > 0 else 1, note("number of places shown for the error"))
    if upto > 0:
        ctx.count("chains")
        same(ctx, p["error"][0], frames[0], note("the callback"), text=False)
        ctx.check(f"... {upto - 1} more frames ..." in msg, note(f"there are {upto - 1} frames between the callback and the error"))
    # local variables of the function that failed
    v = level - 1
    fr = frames[upto]
    shown = msg.split("Local variables:")
    if case["hide"]:
        ctx.count("hidden")
        ctx.check(len(shown) == 1 and "loc_a" not in shown[0].split("ERROR OCCURRED")[-1], note("local variables are shown"))
    elif upto > 0:
        ctx.count("locals")
        ctx.check(len(shown) == 2, note("local variables are not shown"))
        for name, val in {"v": v, "loc_a": v + 10, "loc_b": fr.loc, "a_local_variable_with_quite_a_long_name": v + 20}.items():
            m = re.search(rf"^ *{name} = (.*)$", shown[1], re.M)
            ctx.check(m, note(f"the local variable {name} is not shown"))
            rep = repr(val)
            ctx.check(m[1] == rep or (len(rep) > 60 and m[1].endswith("...") and rep.startswith(m[1][:-3])), note(f"local variable {name} is {rep}"))
        ctx.check(not re.search(r"^ *self = ", shown[1], re.M), note("self is shown"))
    # how deep
    depth = seq[: level - 1].count(seq[level - 1])
    m = re.search(r"nested (\d+) level(s?) deep", msg)
    if t.how in ("emit", "call", "resume", "paused"):
        ctx.eq(int(m[1]) if m else 0, depth, note("depth of nesting"))
        ctx.check(not m or (m[2] == "s") == (depth > 1), note("plural"))
        ctx.count("deep", depth > 0)
    ctx.check("queue-depth" not in msg, note("an emission that wasn't queued is reported as such"))
    ctx.count("nested", level > 1)
    ctx.count("fast", t.fast)
    ctx.count("fields", t.how in ("data", "model"))
    ctx.count("groups", t.how == "group")
    ctx.count("containers", t.how in ("list", "dict", "set"))
    ctx.count("threads", case["thread"])
    ctx.count("strange_files", any(s["file"] in ("plugin", "sibling") for g in [*segs[: len(seq)]] for s in g["chain"]))
    if upto > 0:
        ctx.nontrivial()


@guarded
def run_queue(case, ctx, code):
    """A queued signal fails while emitting one of the queued arguments."""
    sig = SignalInstance(tuple([int] * case["nargs"]), name="q", reemission="queued")
    extra = tuple(["x"] * (case["nargs"] - 1))
    sent = [0]
    budget = [0]

    def emit_more(v, n):
        for _ in range(n):
            if budget[0] > 0:
                budget[0] -= 1
                sent[0] += 1
                sig.emit(sent[0], *extra)

    log = []

    def one(v, *a):
        log.append(("one", v))
        emit_more(v, case["plan"][v % len(case["plan"])][0])
        if v == case["fail"] and case["where"] == 0:
            raise Custom(f"failed at {v}")

    def two(v, *a):
        log.append(("two", v))
        if v == case["fail"] and case["where"] == 1:
            raise Custom(f"failed at {v}")
        emit_more(v, case["plan"][v % len(case["plan"])][1])
        if v == case["fail"] and case["where"] == 2:
            raise Custom(f"failed at {v}")

    sig.connect(one)
    sig.connect(two)
    for _round in range(case["rounds"]):
        log.clear()
        sent[0] = 0
        budget[0] = case["budget"]
        if case["warmup"]:
            # (an emission that does not fail before)
            save, case_fail = case["fail"], -1
            case["fail"] = case_fail
            r = attempt(sig.emit, 0, *extra)
            case["fail"] = save
            ctx.check(r.ok, lambda: f"{r}")
            log.clear()
            sent[0] = 0
            budget[0] = case["budget"]
        r = in_thread(lambda: sig.emit(0, *extra)) if case["thread"] else attempt(sig.emit, 0, *extra)
        if r.ok:
            return
        ctx.check(isinstance(r.exc, EmitLoopError), lambda: f"{r.exc!r}")
        msg = str(r.exc)
        ctx.count("queued")
        at = case["fail"]
        ctx.check(f"Custom: failed at {at}" in msg, lambda: f"message:\n{msg}")
        m = re.search(r"queue-depth of (\d+)", msg)
        # the arguments were emitted in order: number `at` is the at-th in the queue
        ctx.eq(int(m[1]) if m else 0, at, f"position in the queue of the emission that failed ({sent[0]} were queued); message:\n{msg}")
        if m:
            ctx.check(f"Emitting arguments: {(at, *extra)!r}" in msg, lambda: f"arguments of the emission that failed: {(at, *extra)!r}; message:\n{msg}")
        ctx.count("queue_rest", sent[0] > at)
        if at:
            ctx.nontrivial()


HOWS = ["emit", "emit", "call", "fast", "resume", "paused", "data", "model", "group", "list", "dict", "set"]


def gen_fn(rng, styles):
    return {
        "name": rng.choice("abc"), "file": rng.choice(styles), "line": rng.randint(1, 60), "pad": rng.choice([0, 0, 1, 2]), "loc": rng.choice(["text", 5, [1, 2], "long " * 20, None, {"k": 1}]),
        "wrap": rng.choice([None, None, None, None, "reraise", "finally", "convert"]), "registered": rng.random() < 0.7,
    }


def gen_chain(rng, i, tier):
    styles = rng.choice([["plain"], ["plain", "psygnal_dir", "string"], ["plain", "plugin", "sibling"], ["plugin"], ["plain", "psygnal_dir", "plugin", "string", "sibling"]])
    targets = []
    for _ in range(rng.randint(1, 3)):
        targets.append({
            "how": rng.choice(HOWS), "mode": rng.choice(["immediate", "immediate", "latest-only"]), "standalone": rng.choice([None, "alone", "another"]),
            "cb": {"kind": rng.choice(["func", "func", "method", "object", "partial", "setattr"]), "file": rng.choice(styles), "line": rng.randint(1, 50), "registered": rng.random() < 0.7},
        })
    chain = lambda n: [gen_fn(rng, styles) for _ in range(n)]  # noqa: E731
    segs = [{"target": rng.randrange(3), "chain": chain(rng.choice([1, 1, 2, 3]))} for _ in range(rng.choice([1, 1, 1, 2, 3, 4]))]
    return {"targets": targets, "segments": segs, "chain": chain(rng.choice([1, 2, 3, 5])), "fail": rng.choice(list(FAIL)), "hide": rng.random() < 0.15, "thread": rng.random() < 0.15}


def gen_queue(rng, i, tier):
    plan = [[rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 1, 2])] for _ in range(rng.randint(1, 4))]
    return {
        "nargs": rng.choice([1, 1, 2]), "plan": plan, "fail": rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), "where": rng.randrange(3), "budget": rng.choice([1, 2, 4, 10, 20]), "rounds": rng.choice([1, 2]),
        "warmup": rng.random() < 0.3, "hide": False, "thread": rng.random() < 0.1,
    }


WORKLOADS = [
    Workload("chains", gen_chain, run_chain, quick=5000, thorough=100000, shrink=("segments",)),
    Workload("queue", gen_queue, run_queue, quick=3000, thorough=60000, shrink=()),
]
