#!/usr/bin/env python3
"""newseed.py ID PROP FILE 'needs' 'breaks' < python replacement spec (json list of [old,new]) ; main.rs given as seeded/ID/main.rs
makes patch.diff from replacements on a scratch copy of /repo"""
import sys, json, subprocess, tempfile, shutil, os
id, prop, needs, breaks = sys.argv[1:5]
spec = json.load(sys.stdin)   # [[file, old, new], ...]
d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="nseed", dir="/tmp")
subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
for f, old, new in spec:
    p = w + "/r/" + f; s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=w + "/r").decode())
shutil.rmtree(w)
shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
