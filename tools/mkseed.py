#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds /verif/seeded/<id>/ from a python spec with SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)]"""
import os, subprocess, sys, json, runpy, shutil
spec = runpy.run_path(sys.argv[1])
only = set(sys.argv[2:])
for s in spec["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/mkseed_wt"
    subprocess.run(["rm", "-rf", "/tmp/mkseed_wt"], check=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    for f, old, new in edits:
        p = os.path.join(wt, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["rm", "-rf", "/tmp/mkseed_wt"], check=True)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the behaviour is right; nonzero: it is broken\nhere=$(cd "$(dirname "$0")" && pwd)\nexport TZ=UTC PYTHONDONTWRITEBYTECODE=1\nexport PYTHONPATH="$PWD"\nexec timeout 120 /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
