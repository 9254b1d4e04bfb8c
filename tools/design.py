"""Regenerate DESIGN.md from tools/DESIGN.in.md, the properties, the rules and the known findings."""

import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent


def consts(path):
    out = {}
    for n in ast.parse(path.read_text()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def run(props):
    known = json.loads((V / "known_findings.json").read_text())
    rows = []
    for p in props:
        rows.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        if p.get("na"):
            rows.append(f"Not applicable: {p['na']}\n")
            continue
        r = V / "rules" / f"{p['id'].lower()}.py"
        if not r.exists():
            rows.append("The check is not built yet.\n")
            continue
        c = consts(r)
        rows.append(f"* Decided by: {c.get('RULE', '')}")
        if c.get("ASSUMPTIONS"):
            rows.append("* Assumes: " + "; ".join(c["ASSUMPTIONS"]) + ".")
        rows.append(f"* Why tests cannot: {p['why']}")
        caught = sorted(m.parent.name for m in (V / "seeded").glob("*/meta.json") if json.loads(m.read_text())["property"] == p["id"])
        if caught:
            rows.append(f"* Planted bugs caught: {', '.join(caught)}.")
        rows.append("")
    find = ["## Genuine defects found", "", "Found by reading the code for the properties, or by obligations that failed on the original tree. Repaired, each by one `fix:` commit in /repo:", ""]
    find += ["* " + f.removeprefix("fixed: ") for f in known["fixed"]]
    find += ["", "Recorded, not repaired:", ""]
    find += [f"* {f['property']} [{f['rule']}] {f['construct']}: {f['what_fails']}" for f in known["findings"]]
    seeded = ["| planted bug | property | needs |", "|---|---|---|"]
    for m in sorted((V / "seeded").glob("*/meta.json")):
        d = json.loads(m.read_text())
        seeded.append(f"| {m.parent.name} | {d['property']} (caught) | {d['needs']} |")
    s = (V / "tools" / "DESIGN.in.md").read_text()
    for k, v in (("PROPS_HERE", rows), ("FINDINGS_HERE", find), ("SEEDED_HERE", seeded)):
        s = s.replace(k, "\n".join(v).strip())
    (V / "DESIGN.md").write_text(s)
