"""Writes DESIGN.md from tools/design.in.md, tools/design/*.md, known_findings.json and seeded/."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
notes = json.loads((V / "tools/notes.json").read_text())
plan = {}
cur = None
for l in (V / "tools/plan.md").read_text().splitlines():
    if l.startswith("### "):
        cur = l[4:].strip(); plan[cur] = []
    elif cur:
        plan[cur].append(l)
out = ["## Properties\n"]
for p in props:
    i = p["id"]
    built = (V / "checks" / f"{i}.py").exists()
    out.append(f"### {i} — {p['title']}\n")
    out.append("\n".join(plan.get(i, ["(plan to be written)"])).strip() + "\n")
    if not built:
        out.append(f"*Not claimed:* {notes.get('not_applicable', {}).get(i, 'no check has been built yet')}\n")
fx = [f.get("line") or f"known: property={f['property']} {f['what']}" for f in json.loads((V / "known_findings.json").read_text())["findings"]]
fixed = "\n".join("* " + x for x in fx)
res = {}
rf = V / "tools/seeded_results.json"
if rf.exists():
    res = json.loads(rf.read_text())
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()) if (V / "seeded").exists() else []:
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {res.get(d.name, '?')} |")
t = (V / "tools/design.in.md").read_text()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", fixed).replace("@@SEEDED@@", "\n".join(rows))
(V / "DESIGN.md").write_text(t)
