#!/usr/bin/env python3
"""Writes MANIFEST.json from parts.json, properties.jsonl and tools/notes.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
parts = json.load(open(f"{R}/parts.json"))
notes = json.load(open(f"{R}/tools/notes.json"))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in parts:
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"python3 vp.py check {i} quick",
            "thorough_cmd": f"python3 vp.py check {i} thorough",
            "technique": n.get("technique", "deterministic simulation: seeded search over thread schedules and faults, checked against a reference model"),
            "level": "exploration",
            "level_note": n.get("note", "") or "Seeded search over simulated executions of the real code; holds for the schedules and inputs explored.",
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "not yet decided by a check")})
m = {"version": 1, "setup_cmd": "python3 vp.py setup", "checks": checks, "not_applicable": na,
     "notes": "One seed is one exactly repeatable execution of the real code under /verif/sim; see DESIGN.md. No hooks in /repo are needed: the seams are libc, the atomics' instrumentation and the terminal, file-watch and LSP transport crates."}
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
