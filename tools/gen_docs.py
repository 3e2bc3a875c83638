"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, lines = [], []
for p in props.P:
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["quant"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"],
                     "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                     "state": [{"name": a, "meaning": m, "where": b} for a, m, b in p.get("state", [])],
                     "observe_at": p.get("observe", []), "hook_needed": p.get("hook")}}
    assert len(d["title"]) <= 80, d["title"]
    lines.append(json.dumps(d, ensure_ascii=False))
    if not p.get("na"):
        cmd = "python3 -m vf.main " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m vf.build plain asan",
     "hooks": {"guard": "CORA_VERIF", "enable": "vf/build.py puts a gcc wrapper that adds -DCORA_VERIF first on PATH and runs the repository's own makefiles on a copy of the tree",
               "source_commits": props.HOOKS},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.P if p.get("na")],
     "notes": props.NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
