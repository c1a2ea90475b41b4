"""hunt: find inputs on which a patched tree differs from /repo.  Used only to author demonstrations.

hunt.find(patch, fn, n, seeds): runs cases drawn from vlib.gen on both trees."""
import json, os, pickle, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, "/verif")
PY = "/opt/pycold-venv/bin/python"

RUN = r'''
import sys, pickle, json
sys.path.insert(0, "/verif")
from vlib import gen
kind, cases = pickle.load(open(sys.argv[1], "rb"))
import pycold
from checks import common as K
out = []
for c in cases:
    d, b, q = gen.series(c["s"]); p = c["p"]
    try:
        if kind == "cold":
            r = pycold.cold_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gap_days=p["gap"])
        elif kind == "cm":
            r = pycold.cold_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], b_output_cm=True, cm_output_interval=32)
        elif kind == "sccd":
            r = pycold.sccd_detect(d, *b, q, t_cg=p["tcg"], conse=min(p["conse"], 8), b_c2=p["c2"])
        elif kind == "obcold":
            bk = d[0] + (d[-1] - d[0]) * __import__("numpy").array(c["bk"]) // 1000
            r = pycold.obcold_reconstruct(d, *b, q, bk, b_c2=p["c2"], conse=p["conse"])
        elif kind == "upd":
            k = len(d) * 7 // 10
            r = pycold.sccd_detect(d[:k], *[x[:k] for x in b], q[:k], t_cg=p["tcg"], conse=min(p["conse"], 8), b_c2=p["c2"])
            rr = [r]
            for a in range(k, len(d), 7):
                r = pycold.sccd_update(r, d[a:a+7], *[x[a:a+7] for x in b], q[a:a+7], t_cg=p["tcg"], conse=min(p["conse"], 8), b_c2=p["c2"])
                rr.append(r)
            r = rr
    except Exception as e:
        r = "EXC " + type(e).__name__ + str(e)[:60]
    out.append(r)
def plain(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return {n: x[n].tolist() for n in x.dtype.names} if x.dtype.names else x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x
pickle.dump([plain(o) for o in out], open(sys.argv[2], "wb"))
'''


def tree(patch=None):
    top = tempfile.mkdtemp(prefix="hunt-")
    w = top + "/r"
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
    if patch:
        subprocess.check_call(["git", "-C", w, "apply", patch])
    pkg = subprocess.check_output([PY, "-c", "import sys; sys.path.insert(0,'/verif'); from vlib import build; print(build.build('rel'))"],
                                  env=dict(os.environ, VERIF_REPO=w)).decode().strip().splitlines()[-1]
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
    shutil.rmtree(top, ignore_errors=True)
    return pkg


def run(pkg, kind, cases):
    with tempfile.TemporaryDirectory() as t:
        pickle.dump((kind, cases), open(t + "/i", "wb"))
        open(t + "/r.py", "w").write(RUN)
        subprocess.check_call([PY, "-B", t + "/r.py", t + "/i", t + "/o"], env=dict(os.environ, PYTHONPATH=pkg), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return pickle.load(open(t + "/o", "rb"))


def draw(n, seed, max_years=14, **fix):
    from vlib import gen
    R = random.Random(seed)

    class S:        # tiny stand-in for hypothesis strategies
        pass
    out = []
    ch = R.choice
    for _ in range(n):
        s = dict(seed=R.randrange(2**31), cover=ch(sorted(gen.BASES)), start=R.randint(724000, 737000),
                 years=R.randint(8, max_years * 4) / 4, cadence=ch(["16", "8", "irr", "5"]), noise=ch([15, 40, 80, 150]),
                 amp=ch([0.5, 1.0]), trend=ch([0, 0, 20, -150]), harm=ch([0, .3]),
                 breaks=[[R.randint(0, 1000), ch(sorted(gen.DIRS)), ch([.3, .5, 1., 1.3])] for _ in range(R.randint(0, 4))],
                 gaps=[[R.randint(0, 1000), ch([120, 400])] for _ in range(R.choice([0, 0, 1]))],
                 out=ch([0, .02, .06]), cloud=ch([0, .1, .3, .6]), snow=ch([0, 0, .1]), fill=ch([0, .05]), dup=ch([0, .1]),
                 range=ch([0, .05]))
        if R.random() < .5:
            s["alt"] = [[ch([1000, R.randint(0, 1000)]), R.randint(1, 10), ch([1.2, 1.5, 1.8, 2.1, 2.4, 2.7, 4.0, 8.0]), ch(["same", "alt", "rand", "flat"])] for _ in range(R.randint(1, 3))]
        p = dict(tcg=ch([15.0863, 15.0863, 11.07, 25.7448]), conse=ch([6, 6, 4, 8, 3]), c2=ch([True, False]), gap=365.25)
        s.update({k: v for k, v in fix.items() if k not in p}); p.update({k: v for k, v in fix.items() if k in p})
        out.append(dict(s=s, p=p, bk=sorted(R.sample(range(1, 1000), R.randint(1, 4)))))
    return out


def find(patch, kind, n=400, seed=1, **fix):
    cases = draw(n, seed, **fix)
    a = run(tree(), kind, cases)
    b = run(tree(patch), kind, cases)
    return [(c, x, y) for c, x, y in zip(cases, a, b) if repr(x) != repr(y)], n


DEMO = r'''"""Runs one recorded pixel and compares the records with those the algorithm documents for it."""
import json, os, sys
import numpy as np
import pycold
c = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo.json")))
d, b, q = np.array(c["dates"]), [np.array(x) for x in c["bands"]], np.array(c["qa"])
p, kind = c["p"], c["kind"]


def plain(x):
    if isinstance(x, np.ndarray):
        return {n: x[n].tolist() for n in x.dtype.names} if x.dtype.names else x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def same(x, y, path=""):
    if isinstance(x, dict) or isinstance(y, dict):
        if not (isinstance(x, dict) and isinstance(y, dict)):
            return path
        for k in y:
            r = same(x[k], y[k], path + "." + k)
            if r:
                return r
        return None
    if isinstance(x, list) or isinstance(y, list):
        if not (isinstance(x, list) and isinstance(y, list)) or len(x) != len(y):
            return path + " (length)"
        for i, (m, n) in enumerate(zip(x, y)):
            r = same(m, n, path + "[%d]" % i)
            if r:
                return r
        return None
    if isinstance(y, (int, float)) and isinstance(x, (int, float)) and not isinstance(y, bool):
        return None if x == y or (isinstance(y, float) and abs(x - y) <= 0.5 + 1e-3 * abs(y)) else "%s: %r, expected %r" % (path, x, y)
    return None if x == y else "%s: %r, expected %r" % (path, x, y)


try:
    if kind == "cold":
        r = pycold.cold_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gap_days=p["gap"])
    elif kind == "cm":
        r = pycold.cold_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], b_output_cm=True, cm_output_interval=32)
    elif kind == "sccd":
        r = pycold.sccd_detect(d, *b, q, t_cg=p["tcg"], conse=min(p["conse"], 8), b_c2=p["c2"])
    elif kind == "obcold":
        r = pycold.obcold_reconstruct(d, *b, q, np.array(c["breaks"]), b_c2=p["c2"], conse=p["conse"])
    elif kind == "upd":
        k = len(d) * 7 // 10
        r = pycold.sccd_detect(d[:k], *[x[:k] for x in b], q[:k], t_cg=p["tcg"], conse=min(p["conse"], 8), b_c2=p["c2"])
        rr = [r]
        for a in range(k, len(d), 7):
            r = pycold.sccd_update(r, d[a:a+7], *[x[a:a+7] for x in b], q[a:a+7], t_cg=p["tcg"], conse=min(p["conse"], 8), b_c2=p["c2"])
            rr.append(r)
        r = rr
except Exception as e:
    r = "EXC " + type(e).__name__ + str(e)[:60]
bad = same(plain(r), c["expect"])
if bad:
    print("WRONG:", bad)
    sys.exit(1)
print("ok")
'''


def finish(sid, prop, kind, case, expect, needs, breaks):
    from vlib import gen
    import numpy as np
    d, b, q = gen.series(case["s"])
    sd = "/verif/seeded/" + sid
    obj = dict(dates=d.tolist(), bands=[x.tolist() for x in b], qa=q.tolist(), p=case["p"], kind=kind, expect=expect)
    if kind == "obcold":
        obj["breaks"] = (d[0] + (d[-1] - d[0]) * np.array(case["bk"]) // 1000).tolist()
    json.dump(obj, open(sd + "/demo.json", "w"))
    open(sd + "/demo.py", "w").write(DEMO)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(sd + "/meta.json", "w"), indent=1)


def make(sid, prop, kind, edits, needs, breaks, n=400, seed=1, pick=None, **fix):
    import mkseed
    mkseed.mkseed(sid, prop, edits, needs, breaks, "")
    r, n = find("/verif/seeded/%s/patch.diff" % sid, kind, n, seed, **fix)
    # prefer differences that exceed the demo's tolerance and short series
    ns = {}
    exec(DEMO[DEMO.index("def same"):DEMO.index("try:\n")], ns)
    good = [(c, x, y) for c, x, y in r if ns["same"](y, x)]
    if pick:
        good = [g for g in good if pick(*g)]
    print(sid, "differs on %d, clearly on %d of %d" % (len(r), len(good), n))
    if good:
        from vlib import gen
        g = min(good, key=lambda g: len(gen.series(g[0]["s"])[0]))
        finish(sid, prop, kind, g[0], g[1], needs, breaks)
        print("   ", ns["same"](g[2], g[1]))
    else:
        print("    NO DEMO")
