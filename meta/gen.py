#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions in this directory."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import core
for m in ("system", "na"):
    if os.path.exists(os.path.join(H, m + ".py")):
        __import__(m)
CHECKS = {}
exec(open(os.path.join(V, "checks.conf")).read())
NA = getattr(sys.modules.get("na"), "NA", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in core.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"],
                                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
ids = [p["id"] for p in core.P]
assert len(set(ids)) == len(ids)
checks = []
for p in core.P:
    if p["id"] in CHECKS and p["id"] not in NA:
        checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
                       "level": "exploration", "level_note": (p["note"] + " " if p["note"] else "") + core.NOTE})
na = [{"property": i, "reason": NA[i]} for i in ids if i in NA]
na += [{"property": i, "reason": "no check yet"} for i in ids if i not in NA and i not in CHECKS]
man = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every seam is at link level (interposed pthread, futex, clock, file and heap functions, and the simulator's own runtime for the compiler's memory-access instrumentation). See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(ids), "properties,", len(checks), "checks,", len(na), "not applicable")
