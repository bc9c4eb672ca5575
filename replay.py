#!/usr/bin/env python3
"""replay.py FILE: runs a stored failing input against the server built from /repo."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
import bounded, build
d = json.load(open(sys.argv[1]))
if d["kind"] != "input":
    print(json.dumps(d, indent=1)); sys.exit(1)
env = bounded.Env(build.build_server())
r = bounded.run_case(env, d["property"], d["case"])
env.close()
print(json.dumps(r, indent=1, ensure_ascii=False) if r else "no mismatch")
sys.exit(1 if r else 0)
