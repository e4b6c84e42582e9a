#!/usr/bin/env python3
"""tools/seedblame.py: lists planted bugs that change lines which our own commits in /repo added."""
import os, re, subprocess, sys
base = subprocess.check_output("git -C /repo log --format=%H --grep=^fix: --invert-grep -1", shell=True, text=True).strip()
for s in sorted(os.listdir("/verif/seeded")):
    f, n, bad = None, 0, []
    for l in open(f"/verif/seeded/{s}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif m := re.match(r"@@ -(\d+)", l): n = int(m[1])
        elif l.startswith("-") and f:
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", f"-L{n},{n}", f"{base}..HEAD", "--", f], text=True)
            if not b.startswith("^"): bad.append(f"{f}:{n} {l.strip()}")
            n += 1
        elif l.startswith(" "): n += 1
    if bad: print(s, bad)
