#!/opt/pycold-venv/bin/python -B
"""seedtest.py ID [CHECK...] : confirm a planted bug in a private copy of /repo (bind-mounted over /repo in a
private mount namespace): applies, builds, stable tests pass, demo 0 without / nonzero with the patch; then run checks."""
import os, subprocess, sys, shutil, json, tempfile
V = "/verif"


def ns(work, cmd, timeout=1200):
    r = subprocess.run(["unshare", "-Urm", "--propagation", "private", "bash", "-c",
                        "mount --bind %s /repo && %s" % (work, cmd)], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    sid, checks = args[0], args[1:]
    sd = os.path.join(V, "seeded", sid)
    meta = json.load(open(sd + "/meta.json"))
    checks = checks or [meta["property"]]
    top = tempfile.mkdtemp(prefix="seed-%s-" % sid)
    work = top + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", work])
        subprocess.check_call(["git", "-C", work, "checkout", "-q", "--", "."])
        dd = top + "/demo"
        shutil.copytree(sd, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        if "--quick" not in sys.argv:
            rc, o = ns(work, "bash /opt/vp/build.sh >/tmp/seedb.log 2>&1 && cd /repo && timeout 300 bash %s/demo.sh" % dd)
            print(sid, "demo on base:", rc)
            if rc:
                print(o[-3000:]); return 1
            rc2, o = ns(work, "cd /repo && git apply %s/patch.diff && bash /opt/vp/build.sh >%s/b.log 2>&1 && bash /opt/vp/test.sh %s/o.json >%s/t.log 2>&1; cat %s/o.json" % (sd, top, top, top, top))
            try:
                t = json.load(open(top + "/o.json"))
                print(sid, "tests with patch: passed %d failed %s" % (len(t["passed"]), t["failed"]))
            except Exception:
                print(sid, "NO TESTS", o[-2000:], open(top + "/b.log").read()[-2000:] if os.path.exists(top + "/b.log") else "")
                return 1
            rc3, o = ns(work, "cd /repo && timeout 300 bash %s/demo.sh" % dd)
            print(sid, "demo with patch:", rc3, o.strip()[-300:])
            if rc3 == 0:
                print(sid, "DEMO DOES NOT FAIL"); return 1
        else:
            subprocess.check_call(["git", "-C", work, "apply", sd + "/patch.diff"])
        for c in checks:
            rc4, o = ns(work, "cd /verif && VERIF_SEED=1 VERIF_TIER=quick /opt/pycold-venv/bin/python -B check.py %s" % c)
            print(sid, c, "->", rc4, [l for l in o.splitlines() if "VIOLATION" in l][:3], "" if rc4 == 1 else o[-600:])
    finally:
        shutil.rmtree(top, ignore_errors=True)


sys.exit(main())
