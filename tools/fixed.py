"""Append a `fixed:` line to known_findings.txt for every fix commit in /repo that has none.
usage: fixed.py PROP [PROP2 ...]: property for the unlisted commits, oldest first (last one repeats)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(HERE, "known_findings.txt")
txt = open(F).read() if os.path.exists(F) else ""
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
new = [l.split(" ", 1) for l in log.splitlines() if " fix: " in l and l.split()[0] not in txt]
props = sys.argv[1:]
for i, (h, s) in enumerate(new):
    if not props:
        print(h, s)
        continue
    txt += "fixed: property=%s %s %s\n" % (props[min(i, len(props) - 1)], h, s[5:])
open(F, "w").write(txt)
