"""Writes /verif/DESIGN.md (run by hand): the text below, plus what the modules and results say."""
import importlib, json, pathlib, re, sys

V = pathlib.Path("/verif")
sys.path[:0] = [str(V), "/repo/src"]

INTRO = """# Runtime monitoring of psygnal

Every property of `properties.jsonl` is decided by running the real code of `/repo/src` under generated
workloads while a monitor (an oracle that knows nothing about the implementation) watches what can be
observed: calls of callbacks and their arguments, order, threads, exceptions, values, liveness.

## Technique

psygnal is pure Python here (the mypyc extension is not built; see *Compiled build* below), so the
sanitizers of C compilers have nothing to instrument. What this family offers instead, and what is used:

* **executable models / lock-step twins**: the same random history is run on the real object and on an
  independent model (multiset of connections, FIFO of pending calls, built-in list/dict/set, the plain
  pydantic / dataclass / attrs / msgspec twin class, the unproxied object) and everything observable is
  compared after *every* operation;
* **online monitors** fed only by events (mirrors of containers, selection, active item);
* **offline checkers of recorded histories** (intervals of operations vs. calls: exactly-once, contiguity,
  conservation, order) for the concurrent properties;
* **controlled scheduling**: `vh/sched.py` runs real threads one at a time and switches between them at
  seeded points *inside* psygnal (line or bytecode granularity through `sys.settrace`), with cooperative
  locks, so that interleavings are reproducible from a seed and deadlocks are detected; `vh/turns.py`
  switches inside callbacks; free-running stress with tiny switch intervals complements them;
* **fault injection**: callbacks that raise, owners that die at any point (in callbacks, in finalizers, in
  cycles), recursion limits hit at every frame, failing validators / setters / getters / targets;
* **virtual time**: `vh/vtimer.py` replaces the clock and `threading.Timer` as seen by the throttler, so that
  thousands of timings are explored per second.

A case is generated from `(seed, property, workload, index)` only and recorded as JSON. `./check CNN` runs all
workloads of a property in 8 processes, shrinks a failing case, writes it to `replays/` and prints
`VIOLATION property=CNN replay=...`; `./check CNN --replay FILE` runs it again. `VERIF_TIER=thorough`
(or the `thorough` command) runs 15-30 times as many, longer cases. `VERIF_REPO=DIR` runs against a copy.

Each workload counts what its monitor really saw (events, switches, suppressed emissions, failures, ...) and each
module has `REQUIRE` minima; a run below them is *inconclusive* (exit 2), never "held". The counts, the number
of distinct non-trivial cases and the distinct switch traces go to `evidence/CNN.json`.

No hook was needed in /repo: everything is observed through the public interface, weak references, `sys.settrace`
and the scheduler's replacement of `threading` locks in psygnal's modules, so that refactorings stay quiet.

## False alarms

Oracles judge only what the property states. Where psygnal's behaviour is unspecified or documented to be
limited, the oracle accepts every behaviour; these exclusions are listed per property below (*not judged*).
All checks were run with many seeds, in both tiers, and against behaviour-preserving rewrites of the code.
"""

P = {
"C01": ("an online monitor holds the connections as psygnal's user knows them; every call is checked against the entries that were connected when the emission began and are still connected",
        "callbacks that (dis)connect in the middle of emissions, with any priorities and kinds of callables, are combinations no unit test enumerates",
        "callbacks connected during an emission may or may not be called in it; disconnecting the running entry's duplicates"),
"C02": ("a multiset model of connections with the identity rules of the statement; `len`, `in` and the calls of an emission are compared after every operation, failed operations included",
        "confusable callbacks (equal-comparing owners, closures of one code object, reused addresses) need long histories",
        "different partials of one function, or a function and its partial, in one signal (known finding)"),
"C03": ("the callable is really called with 0..n arguments to find out how many it takes; the emission must pass the longest acceptable prefix",
        "the space of signatures x forms x options is a product",
        "sub-/superclass relations between annotation and signal type; annotated keyword-only and *args parameters; callables without an inspectable signature"),
"C04": ("an executable model of the three strategies (recursion, FIFO, superseded frames) produces the whole trace of calls and returns of a random re-entrant program",
        "all re-entrant programs over several signals and strategies",
        "none"),
"C05": ("as C04 with exceptions: which exception object is the `__cause__` of what each emit raised, which callbacks were skipped, and that every signal works afterwards",
        "the exception can occur at any call of any nesting",
        "none"),
"C06": ("the current emitter and sender are probed on entry of every callback and after every nested emission, in nested, failing and multi-threaded programs with switches inside callbacks",
        "interleavings of threads and unwinding",
        "inside callbacks of emit_fast (documented limitation) and callbacks run by emit_queued"),
"C07": ("a shadow model of the blocked state; every signal is emitted by all three ways after every step of a random tree of contexts",
        "all nestings and exits of contexts of signals and groups with exclusions",
        "blockers that are created early or used twice"),
"C08": ("unique emission values: conservation (collected = delivered + held), order, reducers computed by the harness; executable model of pause/resume inside callbacks and flushes",
        "pausing, resuming and failing in the middle of a flush",
        "resume() inside a callback of a queued signal whose callbacks raise; pause/resume races between threads"),
"C09": ("the harness's own weak references tell what is alive; the connections of dead owners must be gone, all others called; retention probes",
        "owners die at any moment: in callbacks, finalizers, garbage collection",
        "owners dying in *other threads* during connect/disconnect (known finding of C11); arguments retained by throttlers"),
"C10": ("one FIFO per thread as a model; exactly-once, order and thread of each call; seeded switches inside psygnal, stress, Qt timers",
        "interleavings of emitting and draining threads",
        "disconnecting after a call was queued"),
"C11": ("recorded histories with stamped intervals: every callback connected during the whole of an emission is called once, emissions don't interleave, conservation of connections, no unexpected exception, no deadlock",
        "interleavings inside connect/disconnect/emit",
        "the first access of obj.sig or obj.events from two threads; pause/resume races"),
"C12": ("identity and routing model keyed by object; populations with address reuse, slots, equality, inheritance",
        "histories of creation and destruction",
        "one Signal object assigned to two attributes; copy.copy of owners"),
"C13": ("model of members, relay and their callbacks; the whole call log (order included) of every emission is compared",
        "hierarchies x connections x re-entrancy",
        "members emitted with emit_fast are not relayed (documented); member.disconnect() of everything"),
"C14": ("shadow state of all targets compared after every operation",
        "targets that compare equal, share keys, die or reject values",
        "partials of builtin containers' __setitem__: at most one per target and signal"),
"C15": ("an undecorated twin class executes the same assignments; emissions are predicted from its values, identity of reported values included",
        "kinds of classes x field types x options x histories",
        "emissions of an assignment after deletion of the field; frozen msgspec subclasses of evented ones"),
"C16": ("a plain pydantic twin executes the same operations; outcome, values, dumps and emissions compared",
        "models x values x histories, also with failing validators",
        "assignment after deletion; model_construct and pickling; pydantic 1"),
"C17": ("an executable specification (fields, getters, setters as data) predicts events; snapshots inside listeners",
        "dependency graphs x histories x exceptions",
        "listeners that raise; under-declared dependencies; field events during setters of classes without dependencies"),
"C18": ("built-in list in lock-step (items by identity, exceptions by type), a mirror rebuilt from events only, exact events",
        "all index forms and histories",
        "out-of-range destinations of move; pop(slice); + with non-lists; pre-events"),
"C19": ("every emission of current, former and foreign objects is compared with the child_event log",
        "histories of moves, replacements and slices",
        "nested EventedLists and one child twice"),
"C20": ("built-in dict in lock-step, exact event sequences with the state seen by listeners, mirror rebuilt from events",
        "equal-but-not-identical keys and values, all argument forms",
        "pre-events of failing operations; |="),
"C21": ("built-in set (and insertion-ordered dict) in lock-step, each event compared with the observed difference, mirror",
        "argument iterables of all kinds, failing iterators, re-entrant listeners",
        "operators with operands that are not set-like; sets as items"),
"C22": ("model of list, selection, active and current item, mirrors rebuilt from the selection events",
        "interaction of list mutations with selections",
        "bulk selections with foreign items may be partially applied; active = None with several items selected"),
"C23": ("an unproxied twin executes the same operations; events derived from identity before and after",
        "20 kinds of wrapped objects x operations",
        "operators with another proxy, what wrapt does not forward, exception types of failing reads"),
"C24": ("virtual time: each run must have been passed, not earlier than allowed and not later than promised; exactly once; also with switches inside the throttler (two threads) and in real time",
        "all timings, re-entrancy, exceptions and thread interleavings",
        "cancel() while the function runs (only safety); real-time upper bounds"),
"C25": ("original and every (chain of) copies are run in lock-step with own copies of a model",
        "state at the time of copying x history afterwards",
        "copy.copy of owners; pickling of groups, evented containers, EventedModels"),
"C26": ("an executable model of callbacks, relays and loggers predicts the log of a random program; witnesses next to the logger",
        "nesting and exits of monitors x objects x histories",
        "the global monitor's view of paused emissions on resume, and of emit_fast"),
"C27": ("recursion is exhausted at seeded stack depths and limits; later emissions are compared with the model",
        "the exception can hit every frame of psygnal",
        "callbacks that catch RecursionError"),
"C28": ("pydantic's own validation of list[T], set[T] or dict[K, V] decides acceptance and items; the validated container is then mutated and its events checked",
        "item types x kinds of inputs x kinds of models",
        "serialization of evented containers, strict mode, unhashable items, defaults that are not validated, options (child_events, basetype) of a container that is assigned"),
"C29": ("the documented name resolution as data: several classes sharing group classes and bases are created and used in random order; all emissions are logged and compared",
        "options x hierarchies x order of use: state shared between classes shows only in combination",
        "two fields mapped to one signal; subclasses with another namespace or patch_setattr option; shallow copies of objects that cache their group (cache_on_instance=True), which share it"),
"C30": ("generated code with known files, lines and functions: the frames, signal, exception, depth, queued arguments and locals in the message are parsed and compared with what was executed",
        "who emits, through what, how deep, and what else is nested or queued are combinations",
        "callbacks without a Python frame of their own, local variables whose repr fails, the wording of the message, containers in nested emissions of themselves"),
"C31": ("equality of every pair is predicted from the fields; copies, dumps and values are compared with those of a plain pydantic twin; all copies are listened to and assigned to afterwards",
        "models x values x histories of copies (of copies, during emissions) and comparisons",
        "models of different classes; private attributes and extra fields; custom __eq__; pydantic 1"),
"C32": ("one executable model of the whole network (slots by priority, three strategies, blocked/paused states, values, weak and strong links) predicts the trace of all listeners, all values and which nodes are alive after each operation",
        "random networks of up to 7 nodes of 7 kinds x histories of links, emissions and drops",
        "several threads; links changed during emissions; emissions held by a paused signal without listeners; evented objects that cannot store their group (known finding)"),
}

out = [INTRO, "\n## Properties\n"]
props = {}
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    props[p["id"]] = p
for pid, p in props.items():
    m = importlib.import_module(f"vh.props.{pid.lower()}")
    oracle, why, scope = P[pid]
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"* *oracle*: {oracle}.")
    rule = getattr(m, "RULE", "")
    out.append(f"* *workload*: {rule if isinstance(rule, str) else ' '.join(rule)}")
    wl = ", ".join(f"{w.name} {w.n['quick']} / {w.n['thorough']}" for w in m.WORKLOADS)
    out.append(f"* *bounds*: cases quick / thorough: {wl}. *cost*: wall clock in the evidence (quick: seconds to a minute).")
    out.append(f"* *beyond the tests*: {why}.")
    out.append(f"* *not judged*: {scope}.")
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append(f"* *assumption*: {a}.")
    out.append("")

out.append("""## Defects found

Repaired in /repo, one `fix:` commit each, or recorded as known findings (`known_findings.txt`, with the probes in the
`FINDINGS` of the modules: each prints a `KNOWN-FINDING` line as long as the defect is there and is not suppressed for
anything else).
""")
kf = (V / "known_findings.txt").read_text().splitlines()
fixed = [l for l in kf if l.startswith("fixed:")]
for l in kf:
    if l.startswith("finding:"):
        out.append("* **recorded** " + re.sub(r"^finding: property=(\S+) key=(\S+) ", r"\1 `\2`: ", l))
for l in fixed:
    out.append("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 (`\2`): ", l))

extra = V / "tools/design_extra.md"
if extra.exists():
    out.append("\n" + extra.read_text())

res = V / "tools/catch.json"
if res.exists():
    r = json.loads(res.read_text())
    out.append("\n## Planted bugs\n\nEach is a patch in `seeded/` with a demonstration; `own` is the check of the property it was written for, `others` further checks that report it.\n")
    out.append("| bug | property | what breaks | own check | others |\n|---|---|---|---|---|")
    n = c = 0
    for bug in sorted(r):
        d = r[bug]
        n += 1
        c += d["own"] == "caught"
        out.append(f"| {bug} | {d['property']} | {d['what']} | {d['own']} | {', '.join(d.get('others', []))} |")
    out.append(f"\n{c} of {n} are caught by the check of their own property (quick tier).")
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
print(len("\n".join(out)), "bytes")
