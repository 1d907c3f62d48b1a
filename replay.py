#!/usr/bin/env python3
"""replay.py FILE: evaluates the recorded contract on the recorded input, on /repo's current code."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
if "input" not in r:
    print(json.dumps(r, indent=1, ensure_ascii=False))
    sys.exit(0)
os.environ["HD_BUILD_CLI"], os.environ["HD_CLI"] = "1", V + "/.build/cli/debug/hongdown"
subprocess.run(["bash", V + "/harness/build.sh"], check=True)
o = V + "/.build/replay.json"
subprocess.run([V + "/.build/harness/debug/hd-harness", r["property"], r["tier"], str(r["seed"]), "600", "0/1", o],
               env=dict(os.environ, HD_REPLAY_WHAT=r["contract"], HD_REPLAY_INPUT=json.dumps(r["input"], ensure_ascii=False)))
d = json.load(open(o))
print(json.dumps(d["violations"], indent=1, ensure_ascii=False))
sys.exit(1 if d["violations"] else 0)
