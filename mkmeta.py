#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run it after editing them)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
SIM = "verse/analysis/simulator.py"
VER = "verse/analysis/verifier.py"
SCN = "verse/scenario/scenario.py"
INC = "verse/analysis/incremental.py"
TREE = "verse/analysis/analysis_tree.py"
PAR = "verse/parser/parser.py"
UT = "verse/utils/utils.py"
DRY = "verse/analysis/dryvr.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, technique=technique))


exec(open(os.path.join(D, "meta_props.py")).read())

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    for p in NA:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the seams used are the ray module, user agents, sensor, map and open()", "source_commits": []},
    "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
}, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(P), "claimed", len(NA), "not applicable")
