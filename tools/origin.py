#!/usr/bin/env python3
"""Lists planted bugs none of whose removed lines (or, for pure insertions, neighbours) are lines of the original repository."""
import glob, os, re, subprocess, sys
BASE = "cb77b1e"
for d in sorted(glob.glob("/verif/seeded/*")):
    lines, ok, f = open(d + "/patch.diff", newline="").read().split("\n"), [], None
    n = 0
    for l in lines:
        if l.startswith("--- "):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-"):
            b = subprocess.run(["git", "blame", "-s", "-L%d,%d" % (n, n), BASE + "..HEAD", "--", f], cwd="/repo", stdout=subprocess.PIPE).stdout.decode()
            ok.append(b.startswith("^"))
            n += 1
        elif f and l.startswith(" "):
            n += 1
    if not ok or not all(ok):
        print(os.path.basename(d), ok)
