"""mkseed(id, prop, file, [(old,new)...], needs, breaks, demo_py): write /verif/seeded/<id>."""
import json, os, subprocess, tempfile, shutil


def mkseed(sid, prop, edits, needs, breaks, demo):
    """edits: list of (file, old, new[, nth]) ; demo: python text run with PYTHONPATH=/repo/src/python"""
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    top = tempfile.mkdtemp(prefix="mkseed-")
    try:
        w = top + "/r"
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
        for e in edits:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            s = open(w + "/" + f).read()
            c = s.count(old)
            if nth is None:
                assert c == 1, (sid, f, old, c)
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                assert len(parts) > nth + 1, (sid, c)
                s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(w + "/" + f, "w").write(s)
        diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", top + "/r"])
        shutil.rmtree(top, ignore_errors=True)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run in /repo after the build
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONPATH=/repo/src/python PYTHONWARNINGS=ignore
exec /opt/pycold-venv/bin/python -B "$(dirname "$0")/demo.py"
""")
    open(d + "/demo.py", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
