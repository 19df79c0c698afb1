#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props_*.py (one per area)."""
import json, os, importlib, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
props, checks, na = [], [], []
for area in ["parser", "crond", "uri", "hocon", "toys"]:
    try:
        m = importlib.import_module("props_" + area)
    except ModuleNotFoundError:
        continue
    for p in m.PROPS:
        tech, note = p.pop("technique"), p.pop("level_note")
        reason = p.pop("not_applicable", None)
        assert len(p["title"]) <= 80, p["title"]
        props.append(p)
        if reason:
            na.append({"property": p["id"], "reason": reason})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']} --tier quick",
            "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": tech,
            "level": "exploration",
            "level_note": note,
        })
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every monitor observes the public boundary (toys is observed through a scratch crate generated from its sources at check time). Exit 2 with an INCONCLUSIVE line means no verdict (build failure, watchdog, or a required observation that never happened).",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(props), "properties", len(checks), "checks")
