#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
 "C29": "recorded call logs replayed in other orders, on equal operands and from concurrent threads, compared bitwise; ThreadSanitizer; Miri",
 "C26": "online monitor with double-double distance oracle; call-counting wrapper shapes",
 "C30": "hostile workload under panic, hang and crash detection; call-counting wrapper shapes; overflow and debug checks on",
 "C31": "metamorphic monitor over moved scenes, guarded by a double-double oracle",
 "C16": "differential monitor (operands swapped), guarded by a double-double oracle",
 "C17": "online monitor of the reported location against both shapes",
 "C32": "refusal monitor: caught panics on broken preconditions, acceptance on sound ones",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run_check.py %s quick" % i,
        "thorough_cmd": "python3 run_check.py %s thorough" % i,
        "technique": "runtime monitoring: " + TECH.get(i, "online monitor judging every answer of the real code against a double-double reference"),
        "level": "exploration",
        "level_note": "millions of seeded random, lattice-exact and hostile executions of the real code (overflow and debug checks on), each answer judged by an independent oracle; nothing is proved for inputs not executed",
    })
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
