#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from registry import CHECKS  # noqa: E402

props = [json.loads(s) for s in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s quick" % i,
            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "TLA+ specification, TLC model checking, and TLC trace validation of recorded calls of the real code"),
            "level": "model_checking",
            "level_note": c.get("note", "The laws of the specification are checked exhaustively for small constants; the code is bound to it by "
                                "validating every recorded call of systematically and randomly driven executions. Trusted: the recording "
                                "harness, TLC, the compiler."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "The check is still being built; not claimed yet.")})
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {"guard": "DSPBB_VP_HOOKS", "enable": "No hooks are needed: the public API exposes the abstract state; the guard is unused.", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ with TLC. bin/check.py ID [quick|thorough] runs one check; DESIGN.md explains each.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
