#!/usr/bin/env python3
"""Rewrites the "fixed:" lines of known_findings.txt from /repo's fix commits and the table below."""
import subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {l.split()[0]: l.split()[1] for l in open(here + "/tools/fixed.tab") if l.strip()}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "80d6511..HEAD"], text=True)
out = [l for l in open(here + "/known_findings.txt") if not l.startswith("fixed:")]
for l in log.splitlines():
    h, msg = l.split(" ", 1)
    if h not in P: print("not in table:", l)
    for p in P.get(h, "").split("/"):
        if p: out.append("fixed: property=%s %s %s\n" % (p, h, msg[5:]))
open(here + "/known_findings.txt", "w").writelines(out)
