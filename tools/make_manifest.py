"""Writes /verif/MANIFEST.json from the properties list and the checks that exist."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOTES = json.loads((ROOT / "tools" / "check_notes.json").read_text())
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES and (ROOT / "checks" / f"{i.lower()}.py").exists():
        n = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": n["technique"],
            "level": n.get("level", "exploration"),
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": "The technique applies (see DESIGN.md), but the check is not finished, so nothing is claimed yet."})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import vlib.core, zigpy, hypothesis\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo: the checks import zigpy from /repo's working tree and "
             "replace only the clock, the event loop, the radio and the database thread around it. "
             "Known findings and repaired defects: known_findings.json.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")
