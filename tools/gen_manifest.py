#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = config.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append({"property": i,
            "quick_cmd": f"python3 tools/check.py {i} --tier quick",
            "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
            "technique": "bounded symbolic execution of the real C sources with CBMC (SAT), counterexamples replayed natively",
            "level": "other",
            "level_note": ("Solver verdict for every input within these bounds: " + c["bounds"] +
                " Unwinding assertions on, vacuity markers required. Trusted: CBMC and its C front end, the GLib/libc models in models/, no allocation failure; nothing is claimed outside the bounds.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo/src afresh with goto-cc; counterexamples are replayed on a native build with the real GLib before they are reported."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
