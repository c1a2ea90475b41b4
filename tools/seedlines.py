#!/usr/bin/env python3
"""seedlines.py: for every planted bug, how many of the lines it removes are the original repository's."""
import os
import re
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "19da1a5"
for s in sorted(os.listdir(V + "/seeded")):
    f, n, orig, own, plus = None, 0, 0, 0, 0
    for l in open("%s/seeded/%s/patch.diff" % (V, s)):
        if l.startswith("--- "):
            f = l.split()[1][2:]
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("+++ "):
            pass
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif f and l.startswith("-"):
            b = blame[n].startswith("^" + BASE)
            orig, own, n = orig + b, own + (not b), n + 1
        elif f and l.startswith(" "):
            n += 1
        elif f and l.startswith("+"):
            plus += 1
    print("%-24s removes original %d, own %d; adds %d%s" % (s, orig, own, plus, "" if orig else "   <-- does not count"))
