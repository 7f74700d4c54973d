"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]

DEFAULT = "runtime monitoring: model-based online/offline monitors over randomised hostile workloads on the real code"
NOTE = (
    "Held on the generated executions only (seeded, counts in the evidence file); the oracle is a reference model "
    "or twin object written from the documentation. Trusts CPython, the installed third-party libraries and the monitor code."
)


def consts(path):
    out = {}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


checks, na = [], []
for p in props:
    f = ROOT / "vh" / "props" / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    c = consts(f)
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": c.get("TECHNIQUE", DEFAULT),
            "level": "exploration",
            "level_note": c.get("LEVEL_NOTE", NOTE),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "mkdir -p evidence replays && ./check --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all monitors attach from outside (callbacks, subclasses, sys.settrace, patched timers). See DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
