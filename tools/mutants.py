#!/opt/pycold-venv/bin/python -B
"""mutants.py LIST.py [-j N] [ID-PREFIX...]: detection campaign.

LIST.py defines MUTANTS = [(id, "C01 C05", file, old, new[, nth]), ...].  Each mutant is applied to a private copy of
/repo's HEAD, and the quick checks it names are run from a private copy of /verif until one reports.  Prints one line
each: CAUGHT by / MISSED / NOBUILD."""
import concurrent.futures as cf
import glob
import importlib.util
import os
import queue
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(p):
    s = importlib.util.spec_from_file_location("mutlist", p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.MUTANTS


def apply(repo, file, old, new, nth=1):
    p = os.path.join(repo, file)
    s = open(p, newline="").read()
    n = s.count(old)
    if nth < 0:                        # the first occurrence from line -nth on
        off = sum(len(x) for x in s.splitlines(True)[:-nth - 1])
        i = s.find(old, off)
        if i < 0:
            raise ValueError("%s: no %r from line %d" % (file, old[:70], -nth))
        open(p, "w", newline="").write(s[:i] + new + s[i + len(old):])
        return
    if nth == 1 and n != 1 or nth > n:
        raise ValueError("%s: %d occurrences of %r" % (file, n, old[:70]))
    i = -1
    for _ in range(nth):
        i = s.index(old, i + 1)
    open(p, "w", newline="").write(s[:i] + new + s[i + len(old):])


def one(m, slots):
    mid, checks, file, old, new = m[:5]
    nth = m[5] if len(m) > 5 else 1
    top = slots.get()
    repo, ver = top + "/repo", top + "/verif"
    try:
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        try:
            edits = [(file, old, new, nth)] if isinstance(file, str) else [tuple(e) + (1,) * (4 - len(e)) for e in file]
            for e in edits:
                apply(repo, *e)
        except ValueError as e:
            print("%-28s BADEDIT %s" % (mid, e), flush=True)
            return
        res = []
        for c in checks.split():
            r = subprocess.run([sys.executable, "-B", "check.py"] + c.split(":")[:1] + (["--only", c.split(":")[1]] if ":" in c else []), cwd=ver, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            o = r.stdout.decode(errors="replace")
            if r.returncode == 1:
                v = [l for l in o.splitlines() if "VIOLATION" in l]
                print("%-28s CAUGHT %s %s" % (mid, c, v[0].split("replay=")[-1].split("/")[-1] if v else "?"), flush=True)
                if "ALL" not in os.environ:
                    break
                print(o[-1500:], flush=True)
            res.append("%s:%d" % (c, r.returncode))
            if r.returncode:
                print("%-28s RC %s" % (mid, o[-800:]), flush=True)
        else:
            print("%-28s MISSED %s" % (mid, " ".join(res)), flush=True)
    finally:
        for n in glob.glob(ver + "/build/pkg-*"):
            shutil.rmtree(n, ignore_errors=True)
        for n in sorted(glob.glob(ver + "/build/nat-*"), key=os.path.getmtime)[:-4]:
            shutil.rmtree(n, ignore_errors=True)
        shutil.rmtree(ver + "/replays", ignore_errors=True)
        slots.put(top)


def main():
    a = sys.argv[1:]
    j = 2
    if "-j" in a:
        i = a.index("-j")
        j = int(a[i + 1])
        del a[i:i + 2]
    done = set()
    if "--skip" in a:                   # a log of an earlier run
        i = a.index("--skip")
        done = {x.split()[0] for x in open(a[i + 1]) if x.split()}
        del a[i:i + 2]
    ms = [m for m in load(a[0]) if m[0] not in done and (len(a) == 1 or any(m[0].startswith(p) for p in a[1:]))]
    slots = queue.Queue()
    tops = []
    for _ in range(j):
        t = tempfile.mkdtemp(prefix="mut-")
        tops.append(t)
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/repo"])
        os.mkdir(t + "/verif")
        for n in ("check.py", "checks", "vlib", "model", "known_findings.txt", "properties.jsonl", "MANIFEST.json"):
            (shutil.copytree if os.path.isdir(V + "/" + n) else shutil.copy)(V + "/" + n, t + "/verif/" + n)
        slots.put(t)
    try:
        with cf.ThreadPoolExecutor(j) as ex:
            list(ex.map(lambda m: one(m, slots), ms))
    finally:
        for t in tops:
            shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    main()
