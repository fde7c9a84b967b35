#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.conf.py and properties.jsonl (run by hand after an edit)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(ROOT + "/checks.conf.py").read())
NA = {
    "C18": "Comparison and stream operators are pure functions of their operands: no schedule, clock, fault, I/O or history is involved, so there is nothing for a simulator to decide. (same_owner/owner_before along histories are part of C13.)",
    "C19": "Compile-time facts about types and rejected programs: nothing executes, so deterministic simulation cannot address them.",
}
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the compiler's thread-sanitizer instrumentation of the unmodified headers is the seam (see DESIGN.md). "
              "check.py --replay FILE re-executes a replay file. known-findings.txt lists repaired and unrepaired defects."}
for i in ids:
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, memory-model reads and faults, " + CHECKS[i].get("oracle", "reference-model oracle"),
            "level": "exploration", "level_note": CHECKS[i].get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
