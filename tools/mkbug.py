"""mkbug.py FILE: FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]."""
import json, os, subprocess, sys, tempfile, shutil
from pathlib import Path
V = Path(__file__).resolve().parent.parent
STUB = (V / "tools/demo_stub.py").read_text()
ns = {}
exec(Path(sys.argv[1]).read_text(), ns)
for b in ns["BUGS"]:
    d = V / "seeded" / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        diffs = []
        byfile = {}
        for f, old, new in b["edits"]:
            src = byfile.get(f) or Path("/repo", f).read_text()
            if src.count(old) != 1:
                sys.exit(f"{b['id']}: {f}: {src.count(old)} matches of {old!r}")
            byfile[f] = src.replace(old, new)
        for f, src in byfile.items():
            for side, text in (("a", Path("/repo", f).read_text()), ("b", src)):
                p = Path(t, side, f); p.parent.mkdir(parents=True, exist_ok=True); p.write_text(text)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True)
        (d / "patch.diff").write_text(r.stdout)
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "demo.py").write_text(STUB + b["demo"].lstrip())
    print("wrote", b["id"])
