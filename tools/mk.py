#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, claimed=True, reason="", level="exploration", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, claimed=claimed, reason=reason, level=level, state=state or [], observe=observe or []))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks = []
for p in P:
    if not p["claimed"]: continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection: seeded search over schedules, crashes and faults, reference-model oracle",
        "level": p["level"],
        "level_note": p["level_note"],
    })
man = {"version": 1, "setup_cmd": "bash sim/build.sh build", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
       "notes": "The simulator (sim/) compiles /repo/src with its system calls redirected to a simulated kernel and its memory accesses reported to the scheduler, so no hooks are needed in /repo. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(man, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
except ImportError: pass
print(len(P), "properties,", len(checks), "checks")
