"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""

import importlib.util
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
spec = importlib.util.spec_from_file_location("props", V / "tools" / "props.py")
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
lines, checks, na = [], [], []
for p in m.PROPS:
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None},
    }))
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    elif (V / "rules" / f"{p['id'].lower()}.py").exists():
        checks.append({
            "property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']}", "thorough_cmd": f"python3-vt check.py {p['id']} --thorough",
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": "The check of this property is not built yet."})
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "python3-vt -m compileall -q sa rules check.py || true", "checks": checks, "not_applicable": na,
    "notes": "Every check reads the syntax trees of /repo/graphix on every run; nothing of graphix is imported or executed. Known findings: known_findings.json.",
}, indent=1) + "\n")
print(len(lines), "properties", len(checks), "checks", len(na), "not applicable")
spec = importlib.util.spec_from_file_location("design", V / "tools" / "design.py")
d = importlib.util.module_from_spec(spec)
spec.loader.exec_module(d)
d.run(m.PROPS)
