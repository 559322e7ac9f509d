#!/usr/bin/env python3
"""replay.py FILE: runs a recorded counterexample against the real code in /repo."""
import sys, json, tempfile, shutil
import check, config
v = json.load(open(sys.argv[1]))
job = [j for t in ("quick", "thorough") for j in config.PROPS[v["property"]]["jobs"](t) if j["name"] == v["job"]][0]
tmp = tempfile.mkdtemp(prefix="vfreplay")
try:
    ok, text = check.replay(check.Builder(tmp), job, v["inputs"])
finally:
    shutil.rmtree(tmp)
print(text)
print("REPRODUCED" if ok else "not reproduced")
sys.exit(1 if ok else 0)
