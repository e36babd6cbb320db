#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks': takes /tmp/seed/ID (worktree diff + prog*.sy/.out) and writes seeded/ID"""
import json, os, shutil, subprocess, sys
ID, prop, needs, breaks = sys.argv[1:5]
wt = os.environ.get("WT", "/tmp/wt")
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
assert diff
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if not os.path.exists(d + "/demo.sh"):
    for f in ("run.cpp", "demo.sh"):
        shutil.copy("/verif/tools/demokit/" + f, d)
    shutil.copy("/verif/src/emu.hpp", d)
