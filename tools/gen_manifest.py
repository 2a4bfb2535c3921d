#!/usr/bin/env python3
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "No instrumentation is added to the repository: the library is header-only and the harnesses instantiate it as it is (observation through its public interface, controlled element types, link-time wrapping of the allocator and a controlled entropy source).", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check is ./check.py <ID>: it compiles harness/<ID>*.cpp with engine/main.cpp against /repo/include and explores the scenarios exhaustively. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"] + (" Bounds: " + c["bounds"] if c.get("bounds") else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "the check is still being built and is not claimed yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
