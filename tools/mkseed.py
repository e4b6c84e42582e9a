#!/usr/bin/env python3
"""mkseed.py NAME: (re)makes seeded/NAME/patch.diff from the edits in a python file on stdin:
EDITS=[(file, old, new)...]; META={...}; FILES={name: text}."""
import json, os, subprocess, sys, shutil, tempfile
name = sys.argv[1]
ns = {}
exec(sys.stdin.read(), ns)
d = f"/verif/seeded/{name}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="seedwt_", dir="/tmp")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
try:
    for f, a, b in ns["EDITS"]:
        s = open(f"{w}/r/{f}").read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(f"{w}/r/{f}", "w").write(s.replace(a, b))
    open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True))
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
    os.rmdir(w)
json.dump(ns["META"], open(f"{d}/meta.json", "w"), indent=1)
for n, t in ns["FILES"].items():
    open(f"{d}/{n}", "w").write(t)
