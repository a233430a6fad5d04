#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the harnesses present (run: python3 tools/manifest.py).
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V+"/properties.jsonl")]
NA = {}      # id -> reason, for properties model checking cannot address
TECH = {'O16': 'stateless model checking: exhaustive enumeration of all schedules of two real calculations under a cooperative scheduler, up to a preemption bound, compared with each alone'}
NOTES = {}   # id -> extra note
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/{i}.cpp"):
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": TECH.get(i, "stateless model checking: exhaustive depth-first enumeration of bounded operation/choice sequences on the real code against a reference model"),
            "level": "model_checking",
            "level_note": NOTES.get(i, "every choice sequence within the bounds stated per scenario in the evidence file is executed on the real code (address and undefined-behaviour sanitizers, assertions on) and compared with a reference model after every step; nothing beyond the bounds is claimed"),
            "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "chmod +x check && g++ --version | head -1",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every check compiles /repo's sources together with a harness that supplies the environment (right-hand sides, mappings, observers, clocks) through the library's own interfaces. Repairs are the 'fix:' commits listed in known_findings.txt."}
json.dump(m, open(V+"/MANIFEST.json","w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
