"""Writes MANIFEST.json from the checks present."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
notes = json.loads((V / "tools/notes.json").read_text())
na = notes.get("not_applicable", {})
checks, rest = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i}.py").exists():
        n = notes["checks"].get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": n.get("technique", "property-based testing (Hypothesis) against an explicit oracle"),
            "level": "exploration",
            "level_note": n.get("note", "Random search over generated cases with shrinking; no claim beyond the cases explored."),
        })
    else:
        rest.append({"property": i, "reason": na.get(i, "no check has been built yet")})
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": rest,
    "notes": "Every check is a Hypothesis search with an explicit oracle; see DESIGN.md. Checks over the native data pipeline build its C++ sources from /repo in a scratch folder on every run.",
}, indent=1) + "\n")
print(len(checks), "checks;", len(rest), "not claimed")
