"""Runner shared by all checks: case generation, sharding, watchdog, shrinking, evidence.

A check is a module `vh.props.cNN` with

    PROP = "CNN"
    WORKLOADS = [Workload(...), ...]
    RULE = "how cases are made and what makes one non-trivial"
    REQUIRE = {"counter": minimum, ...}      # what the monitors must have observed
    FINDINGS = {"key": probe}                 # probes of the known findings

Each workload generates JSON-able cases from a seed and runs them against the real
code; the monitors raise `Violation`.
"""
from __future__ import annotations

import faulthandler
import gc
import importlib
import json
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PKG_DIR = str(REPO / "src" / "psygnal")
REPLAYS = ROOT / "replays"
EVIDENCE = ROOT / "evidence"


class Violation(Exception):
    """The property does not hold in this execution."""


class Inconclusive(Exception):
    """The workload could not exercise the property."""


class Ctx:
    """What the monitors of one worker observed."""

    def __init__(self) -> None:
        self.counts: Counter = Counter()
        self.shapes: set = set()
        self.unraisable: list = []
        self._nontrivial = False
        self._shape = None

    # --- recording
    def count(self, key: str, n: int = 1) -> None:
        self.counts[key] += n

    def nontrivial(self, shape=None) -> None:
        self._nontrivial = True
        if shape is not None:
            self._shape = shape

    # --- verdicts
    def fail(self, msg: str):
        raise Violation(msg)

    def check(self, cond, msg) -> None:
        self.counts["assertions"] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, msg) -> None:
        self.counts["assertions"] += 1
        if got != want:
            raise Violation(
                f"{msg() if callable(msg) else msg}: got {short(got)}, expected {short(want)}"
            )


def short(o, n=600) -> str:
    s = repr(o)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


class Workload:
    def __init__(self, name, gen, run, quick, thorough, shrink=("ops",), procs=None, timeout=60, cap=None):
        self.name, self.gen, self.run = name, gen, run
        self.n = {"quick": quick, "thorough": thorough}
        self.shrink = shrink
        self.procs = procs
        self.timeout = timeout  # seconds without finishing a single case = hang
        self.cap = cap or {"quick": 150, "thorough": 900}
        self.unraisable_recursion_ok = False


# ---------------------------------------------------------------- outcome helper


class Outcome:
    """Result of an operation: a value or an exception."""

    __slots__ = ("exc", "val")

    def __init__(self, val=None, exc=None):
        self.val, self.exc = val, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.exc is not None:
            return f"<raised {type(self.exc).__name__}: {short(str(self.exc), 200)}>"
        return f"<returned {short(self.val, 200)}>"


def relay(group):
    """The relay of a signal group (a member may be called "all")."""
    return group._psygnal_relay if "all" in group else group.all


def attempt(f, /, *a, **k) -> Outcome:
    try:
        return Outcome(val=f(*a, **k))
    except (Violation, KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except BaseException as e:
        v = find_violation(e)
        if v is not None:
            raise v from None
        return Outcome(exc=e)


def find_violation(e):
    """A Violation raised by a monitor inside a callback, wrapped by the code under test."""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Violation):
            return x
        todo += [x.__cause__, x.__context__]
    return None


def in_psygnal(e: BaseException) -> bool:
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if fr.filename.startswith(PKG_DIR):
                return True
        e = e.__cause__ or e.__context__
    return False


# ---------------------------------------------------------------- running one case


def run_case(wl: Workload, case, ctx: Ctx) -> str | None:
    """Run one case. Returns a violation message or None. Raises on harness errors."""
    ctx._nontrivial, ctx._shape = False, None
    ctx.unraisable.clear()
    prev = sys.unraisablehook
    sys.unraisablehook = lambda u: ctx.unraisable.append(u.exc_value)
    try:
        wl.run(case, ctx)
        for e in ctx.unraisable:
            # (exhausting the stack while a generator is closed is harmless in itself)
            if e is not None and not (wl.unraisable_recursion_ok and isinstance(e, RecursionError)) and in_psygnal(e):
                return f"unraisable exception in psygnal: {type(e).__name__}: {e}"
        return None
    except Violation as v:
        return str(v)
    except Inconclusive:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        v = find_violation(e)
        if v is not None:
            return str(v)
        if in_psygnal(e):
            tb = "".join(traceback.format_exception(e))[-1500:]
            return f"unexpected {type(e).__name__}: {e}\n{tb}"
        raise
    finally:
        sys.unraisablehook = prev
        ctx.unraisable.clear()


def list_paths(case, keys, path=()):
    """Paths to all lists that may be shrunk."""
    out = []
    if isinstance(case, dict):
        for k, v in case.items():
            if k in keys and isinstance(v, list):
                out.append((*path, k))
            out += list_paths(v, keys, (*path, k))
    elif isinstance(case, list):
        for i, v in enumerate(case):
            if isinstance(v, (dict, list)):
                out += list_paths(v, keys, (*path, i))
    return out


def get_path(c, path):
    for p in path:
        c = c[p]
    return c


def shrink_case(wl, case, msg, budget=25.0):
    """Greedy chunk removal over all shrinkable lists."""
    t0 = time.monotonic()
    best, best_msg = case, msg
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for path in list_paths(best, wl.shrink):
            try:
                n = len(get_path(best, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, n // 2)
            while size >= 1 and time.monotonic() - t0 < budget:
                i = 0
                while i < n and time.monotonic() - t0 < budget:
                    cand = json.loads(json.dumps(best))
                    lst = get_path(cand, path)
                    del lst[i : i + size]
                    try:
                        m = run_case(wl, cand, Ctx())
                    except BaseException:
                        m = None
                    if m is not None:
                        best, best_msg, progress = cand, m, True
                        n = len(lst)
                    else:
                        i += size
                size //= 2
    return best, best_msg


# ---------------------------------------------------------------- workers


def make_case(prop, wl, seed, i, tier):
    rng = random.Random(f"{seed}:{prop}:{wl.name}:{i}")
    return json.loads(json.dumps(wl.gen(rng, i, tier)))


def _worker(prop, wl, seed, tier, idxs, out_path, flag_path, deadline):
    """Run in a forked process. Appends JSON lines to out_path."""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx = Ctx()
    done = 0
    nontrivial = 0
    samples = []
    shapes = set()
    gc.collect()
    gc.freeze()  # (makes gc.collect() in workloads cheap)
    stackf = open(out_path + ".stack", "w")
    cur = open(out_path + ".cur", "w")

    def emit(d):
        with open(out_path, "a") as f:
            f.write(json.dumps(d) + "\n")

    status = "done"
    try:
        for i in idxs:
            if time.monotonic() > deadline:
                status = "capped"
                break
            if os.path.exists(flag_path):
                status = "stopped"
                break
            cur.seek(0)
            cur.write(f"{i:<12d}\n")
            cur.flush()
            faulthandler.dump_traceback_later(wl.timeout, exit=True, file=stackf)
            case = make_case(prop, wl, seed, i, tier)
            msg = run_case(wl, case, ctx)
            done += 1
            if ctx._nontrivial:
                nontrivial += 1
                shapes.add(hash(json.dumps(case, sort_keys=True)) if ctx._shape is None else hash(ctx._shape))
                if len(samples) < 1:
                    samples.append({"workload": wl.name, "i": i, "case": case})
            if msg is not None:
                Path(flag_path).touch()
                emit({"kind": "violation", "wl": wl.name, "i": i, "case": case, "msg": msg})
                if wl.shrink:
                    faulthandler.dump_traceback_later(wl.timeout + 60, exit=True, file=stackf)
                    c2, m2 = shrink_case(wl, case, msg)
                    emit({"kind": "violation", "wl": wl.name, "i": i, "case": c2, "msg": m2})
                status = "violation"
                break
    except BaseException as e:
        status = "error"
        emit({"kind": "error", "wl": wl.name, "i": i, "tb": "".join(traceback.format_exception(e))[-4000:], "inconclusive": isinstance(e, Inconclusive)})
    faulthandler.cancel_dump_traceback_later()
    emit({"kind": "result", "status": status, "done": done, "nontrivial": nontrivial, "shapes": list(shapes), "counts": dict(ctx.counts), "samples": samples})
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def _fork(fn, *args):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            fn(*args)
        except BaseException:
            traceback.print_exc()
        os._exit(13)
    return pid


def _read_lines(p):
    try:
        with open(p) as f:
            return [json.loads(x) for x in f if x.strip()]
    except FileNotFoundError:
        return []


def _text(p):
    try:
        return Path(p).read_text()
    except FileNotFoundError:
        return ""


def main(prop: str, argv: list[str]) -> int:
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.monotonic()
    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"vh.props.{prop.lower()}")
    assert mod.PROP == prop
    workloads = mod.WORKLOADS

    if argv[:1] == ["--replay"]:
        return replay(mod, argv[1])
    if argv[:1] == ["--only"]:
        workloads = [w for w in workloads if w.name in argv[1].split(",")]

    import tempfile

    tmp = tempfile.mkdtemp(prefix=f"vh-{prop}-")
    try:
        return _main(mod, prop, workloads, seed, tier, t0, tmp, partial=bool(argv))
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


# more cases for the checks that are fast
QUICK_SCALE = {
    "C01": 5, "C02": 5, "C03": 5, "C04": 5, "C06": 2, "C07": 4, "C08": 3, "C09": 5, "C10": 2, "C12": 5, "C13": 5, "C14": 5, "C15": 3, "C16": 3, "C17": 3, "C18": 4, "C19": 4, "C20": 5, "C21": 3,
    "C22": 5, "C23": 4, "C25": 4, "C26": 3, "C28": 3, "C29": 1.5, "C30": 2, "C31": 3, "C32": 6,
}


def _main(mod, prop, workloads, seed, tier, t0, tmp, partial) -> int:
    counts: Counter = Counter()
    shapes: dict[str, set] = {}
    evals: Counter = Counter()
    nontriv: Counter = Counter()
    capped = []
    samples = []
    violations = []
    errors = []
    nproc = int(os.environ.get("VERIF_JOBS") or 0) or min(8, os.cpu_count() or 1)
    scale = float(os.environ.get("VERIF_SCALE") or 1)
    if tier == "quick":
        scale *= QUICK_SCALE.get(prop, 1)

    for wl in workloads:
        if violations:
            break
        n = max(1, int(wl.n[tier] * scale))
        k = min(wl.procs or nproc, n)
        flag = f"{tmp}/{wl.name}.flag"
        deadline = time.monotonic() + wl.cap[tier]
        pids = {}
        for w in range(k):
            out = f"{tmp}/{wl.name}.{w}"
            pid = _fork(_worker, prop, wl, seed, tier, range(w, n, k), out, flag, deadline)
            pids[pid] = out
        dead = []
        while pids:
            pid, status = os.wait()
            if pid in pids:
                dead.append((pids.pop(pid), status))
        shapes.setdefault(wl.name, set())
        for out, status in dead:
            recs = _read_lines(out)
            got_result = False
            for r in recs:
                if r["kind"] == "result":
                    got_result = True
                    evals[wl.name] += r["done"]
                    nontriv[wl.name] += r["nontrivial"]
                    shapes[wl.name].update(r["shapes"])
                    counts.update(r["counts"])
                    samples += r["samples"]
                    if r["status"] == "capped":
                        capped.append(wl.name)
                elif r["kind"] == "error":
                    errors.append(r)
            vs = [r for r in recs if r["kind"] == "violation"]
            if vs:
                violations.append(vs[-1])
            elif not got_result:
                # hang or crash: try that case again, twice, on its own
                cur = _text(out + ".cur").strip()
                stack = _text(out + ".stack")
                if not cur:
                    errors.append({"wl": wl.name, "i": -1, "tb": f"worker died, status {status}"})
                    continue
                i = int(cur)
                again = 0
                for attempt_no in range(2):
                    out2 = f"{out}.again{attempt_no}"
                    pid = _fork(_worker, prop, wl, seed, tier, [i], out2, flag + "x", time.monotonic() + 3600)
                    _, st2 = os.waitpid(pid, 0)
                    recs2 = _read_lines(out2)
                    vs2 = [r for r in recs2 if r["kind"] == "violation"]
                    if vs2:
                        violations.append(vs2[-1])
                        break
                    if not any(r["kind"] == "result" for r in recs2):
                        again += 1
                        stack = _text(out2 + ".stack") or stack
                if again == 2:
                    what = f"no progress for {wl.timeout} s (deadlock or endless loop)" if stack else f"the process died (wait status {status})"
                    violations.append({"wl": wl.name, "i": i, "case": make_case(prop, wl, seed, i, tier), "msg": f"{what}, three times\n{stack[-3000:]}"})
                elif again and not violations:
                    errors.append({"wl": wl.name, "i": i, "tb": f"case stalled but not reproducibly\n{stack[-2000:]}", "inconclusive": True})
                elif not again and not violations:
                    counts["stalled_once"] += 1
                    print(f"note: case {wl.name}:{i} stalled once (status {status}), not reproducible", flush=True)

    # known findings: probes of listed defects
    kf_lines, kf_viol = known_findings(mod, prop) if not partial else ([], [])
    violations += kf_viol

    wall = time.monotonic() - t0
    distinct = sum(len(s) for s in shapes.values())
    cov = {
        "evaluations": sum(evals.values()),
        "distinct_nontrivial": distinct,
        "rule": mod.RULE,
        "samples": sorted(samples, key=lambda s: len(json.dumps(s)))[:3],
        "per_workload": {
            w: {"cases": evals[w], "nontrivial": nontriv[w], "distinct_nontrivial": len(shapes[w])} for w in shapes
        },
        "observed": dict(sorted(counts.items())),
        "capped_workloads": sorted(set(capped)),
        "known_findings_seen": kf_lines,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    if not partial:
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")

    print(f"[{prop}] tier={tier} seed={seed} cases={sum(evals.values())} distinct_nontrivial={distinct} wall={wall:.1f}s")
    print(f"[{prop}] observed: " + ", ".join(f"{a}={b}" for a, b in sorted(counts.items())))
    for w in shapes:
        print(f"[{prop}]   {w}: cases={evals[w]} nontrivial={nontriv[w]} distinct={len(shapes[w])}")
    for line in kf_lines:
        print(line)
    if violations:
        REPLAYS.mkdir(exist_ok=True)
        for v in violations[:3]:
            path = REPLAYS / f"{prop}-{v['wl']}-{seed}-{v['i']}.json"
            path.write_text(json.dumps({"property": prop, "workload": v["wl"], "seed": seed, "tier": tier, "i": v["i"], "case": v["case"], "message": v["msg"]}, indent=1) + "\n")
            print(f"--- {v['wl']} case {v['i']}: {v['msg']}")
            print(f"    case: {json.dumps(v['case'])[:3000]}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if errors:
        for e in errors[:3]:
            print(f"HARNESS ERROR in {e['wl']} case {e['i']}:\n{e['tb']}", flush=True)
        return 3 if all(e.get("inconclusive") for e in errors) else 2
    if not partial:
        missing = {k: (counts.get(k, 0), m) for k, m in mod.REQUIRE.items() if counts.get(k, 0) < m}
        if missing or distinct == 0:
            print(f"INCONCLUSIVE: monitors not reached (counter: (seen, needed)): {missing}", flush=True)
            return 3
    print(f"[{prop}] held on everything explored", flush=True)
    return 0


# ---------------------------------------------------------------- known findings


def known_findings(mod, prop):
    """Run the probes. A probe returns None if the defect is gone, or what fails."""
    listed = {}
    f = ROOT / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if m := re.match(r"finding: property=(\S+) key=(\S+) ", line):
                listed[m.groups()] = line
    lines, viol = [], []
    for key, probe in getattr(mod, "FINDINGS", {}).items():
        try:
            what = probe()
        except Exception as e:  # (not this finding)
            print(f"[{prop}] the probe of {key} could not run: {e!r}")
            continue
        if what is None:
            continue
        if (prop, key) in listed:
            lines.append(f"KNOWN-FINDING: property={prop} {key}: {what}")
        else:
            viol.append({"wl": f"finding-{key}", "i": 0, "case": {}, "msg": what})
    return lines, viol


def replay(mod, path) -> int:
    d = json.loads(Path(path).read_text())
    for wl in mod.WORKLOADS:
        if wl.name == d["workload"]:
            break
    else:
        probe = getattr(mod, "FINDINGS", {}).get(d["workload"].removeprefix("finding-"))
        msg = probe() if probe else None
        if msg:
            print(f"VIOLATION property={mod.PROP} replay={path}\n{msg}")
        return 1 if msg else 0
    faulthandler.dump_traceback_later(wl.timeout, exit=True)
    msg = run_case(wl, d["case"], Ctx())
    if msg is None and d["case"] != (orig := make_case(mod.PROP, wl, d["seed"], d["i"], d["tier"])):
        msg = run_case(wl, orig, Ctx())
    if msg is None:
        print("replay: the property held")
        return 0
    print(msg)
    print(f"VIOLATION property={mod.PROP} replay={path}")
    return 1


def selftest() -> int:
    """Does the code under test come from the working tree? Can the tools be imported?"""
    import psygnal

    assert psygnal.__file__.startswith(PKG_DIR), psygnal.__file__
    print("psygnal from", psygnal.__file__)
    return 0
