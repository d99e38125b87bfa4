"""fixed.py PROPERTY COMMIT WHAT...: records a repaired defect."""
import json, sys
from pathlib import Path
f = Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(f.read_text())
p, c, what = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
d["findings"].append({"id": f"fixed-{c}", "property": p, "status": "fixed", "commit": c, "what": what, "line": f"fixed: property={p} {c} {what}"})
f.write_text(json.dumps(d, indent=1) + "\n")
