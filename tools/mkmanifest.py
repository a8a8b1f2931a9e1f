#!/usr/bin/env python3
import json, subprocess
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
TECH = "contract-based deductive verification of the compiled functions (LLVM IR of the working tree, function by function; polynomial normal forms over limb values, interval and linear arithmetic, z3)"
claimed = {"C%02d" % i: "p" for i in range(1, 15)}
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks'", "source_commits": [subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:", "-1"]).decode().strip()]},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof" if claimed[i] == "p" else "exploration", "level_note": "see DESIGN.md"})
    else:
        m["not_applicable"].append({"property": i, "reason": "work in progress: contracts for this layer are not written yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
