#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (python text), files={}"""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["id"]
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mks", dir="/tmp")
subprocess.check_call(["git", "clone", "-q", os.environ.get("SEEDREPO", "/repo"), w + "/r"])
for f, old, new in ns["edits"]:
    p = os.path.join(w, "r", f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True))
# only lines of the original repository may be removed
bl = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
orig = "\n".join(subprocess.run(["git", "-C", "/repo", "show", bl + ":" + f], capture_output=True, text=True).stdout for f, _, _ in ns["edits"])
for l in open(d + "/patch.diff"):
    if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].rstrip("\n") not in orig.split("\n"):
        print("WARNING not an original line:", l.rstrip())
open(d + "/demo.py", "w").write(ns["demo"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"))
if ns.get("common", False):
    shutil.copy("/verif/seeded/S601/common.py", d)
shutil.rmtree(w)
