#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines seeds: list of dicts(id, property, file, edits[(old,new)], needs, breaks, demo). Writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["seeds"]:
    if only and s["id"] not in only:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    for f, edits in s["edits"].items():
        p = "/repo/" + f
        t = open(p).read()
        for old, new in edits:
            assert t.count(old) == 1, (s["id"], t.count(old), old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy("/verif/tools/demolib.py", d + "/demolib.py")
    open(d + "/demo.py", "w").write("from demolib import *\n\n" + s["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
