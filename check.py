#!/opt/pycold-venv/bin/python -B
"""check.py <property> [--replay FILE]   (see DESIGN.md)

exit 0: held on everything explored; exit 1 + VIOLATION line: broken."""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vlib import build as vb  # noqa: E402

PY = "/opt/pycold-venv/bin/python"
HANG_S = 150


def env_for(variant):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONPATH=ROOT, PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", GDAL_NUM_THREADS="1",
             PYTHONWARNINGS="ignore")
    if variant == "asan":
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        ub = subprocess.check_output(["gcc", "-print-file-name=libubsan.so"], text=True).strip()
        e.update(LD_PRELOAD=lib + ":" + ub,
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:"
                              "detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:"
                              "malloc_context_size=8:hard_rss_limit_mb=2200",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1",
                 PYTHONMALLOC="malloc")
    elif variant == "pattern":
        e["MALLOC_PERTURB_"] = "165"
    return e


def worker_cmd(cid, pkg, *args):
    return [PY, "-B", "-m", "vlib.worker", cid, "--pkg", pkg] + list(args)


def ends(path, most=1 << 20):
    """the text of a log, of a long one its two ends"""
    n = os.path.getsize(path)
    with open(path, "rb") as h:
        t = h.read(most)
        if n > 2 * most:
            h.seek(n - most)
            t += b"\n[...]\n"
        t += h.read(2 * most)
    return t.decode(errors="replace")


def crash_text(out):
    at = [out.rfind(x) for x in ("ERROR: AddressSanitizer", "runtime error:")]
    return out[max(0, max(at) - 200):][:2500] if max(at) >= 0 else out[-3000:]


def replay_once(cid, variant, path, timeout=HANG_S):
    """-> (failed?, text)"""
    pkg = vb.build(variant)
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        wd, said = os.path.join(tmp, "wd"), os.path.join(tmp, "said")
        os.mkdir(wd)
        log = open(os.path.join(tmp, "log"), "wb")
        p = subprocess.Popen(worker_cmd(cid, pkg, "--replay", path, "--out", said), cwd=wd, env=env_for(variant),
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        log.close()
        try:
            p.wait(timeout=timeout)
            out = open(said).read() if os.path.exists(said) else ends(os.path.join(tmp, "log"))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return True, "did not return within %d s" % timeout
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if p.returncode < 0 and -p.returncode != signal.SIGKILL:
        return True, "the process died from signal %d\n%s" % (-p.returncode, crash_text(out))
    if "REPLAY-FAIL" in out:
        return True, out[out.index("REPLAY-FAIL") + 12:][:3000]
    if "REPLAY-PASS" in out or "REPLAY-INCONCLUSIVE" in out:
        return False, out[-500:]
    return False, "replay error: " + out[-3000:]


def run_test(cid, t, seed, tier, pkg, tmp):
    """all shards of one test -> list of results, failure or None"""
    budget = 150.0 if tier == "quick" else 3000.0
    procs = []
    t0 = time.time()
    for k in range(t.shards):
        out = os.path.join(tmp, "%s-%d.json" % (t.name, k))
        wd = os.path.join(tmp, "wd-%s-%d" % (t.name, k))
        os.makedirs(wd)
        log = open(out + ".log", "wb")
        p = subprocess.Popen(worker_cmd(cid, pkg, "--test", t.name, "--shard", str(k), "--seed", str(seed),
                                        "--tier", tier, "--budget", str(budget), "--out", out),
                             cwd=wd, env=env_for(t.variant), stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        procs.append([p, out, k, False])
    results, fails, errors = [], [], []
    first_fail = None
    try:
        while any(not d for *_x, d in procs):
            time.sleep(0.05)
            now = time.time()
            for pr in procs:
                p, out, k, done = pr
                if done:
                    continue
                rc = p.poll()
                if rc is None:
                    try:
                        age = now - os.stat(out + ".cur").st_mtime
                    except OSError:
                        age = 0
                    if age > HANG_S and os.path.exists(out + ".cur") and not os.path.exists(out):
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        pr[3] = True
                        case = _cur(out)
                        if case is not None:
                            fails.append(dict(test=t.name, case=case, message="the call did not return"))
                            first_fail = first_fail or now
                    elif first_fail and now - first_fail > 8:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        pr[3] = True
                    continue
                pr[3] = True
                if os.path.exists(out):
                    r = json.load(open(out))
                    results.append(r)
                    if r["error"]:
                        errors.append(r["error"])
                    if r["failure"]:
                        fails.append(dict(test=t.name, case=r["failure"]["case"], message=r["failure"]["message"]))
                        first_fail = first_fail or now
                else:
                    case = _cur(out)
                    text = crash_text(ends(out + ".log"))
                    if rc < 0 and -rc != signal.SIGKILL and case is not None:
                        fails.append(dict(test=t.name, case=case,
                                          message="the process died from signal %d\n%s" % (-rc, text)))
                        first_fail = first_fail or now
                    else:
                        errors.append("shard %d of %s ended with %s\n%s" % (k, t.name, rc, text))
    finally:
        for p, *_ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    fails.sort(key=lambda f: len(json.dumps(f["case"])))
    return results, fails, errors, time.time() - t0


def _cur(out):
    try:
        return json.loads(open(out + ".cur").read())
    except (OSError, ValueError):
        return None


def known_findings(cid):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % cid):
                rest = line[len("known: property=%s " % cid):]
                kid, text = rest.split(" ", 1)
                out.append((kid.split("=", 1)[1], text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    t0 = time.time()
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    spec = importlib.import_module("checks." + a.cid)       # must not import pycold at module level
    tests = [t for t in spec.TESTS if not a.only or t.name == a.only]
    variants = sorted({t.variant for t in tests} | set(getattr(spec, "VARIANTS", ())))
    try:
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            pkgs = dict(zip(variants, ex.map(vb.build, variants)))
            if hasattr(spec, "prepare"):
                spec.prepare()
    except vb.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    for v, d in pkgs.items():
        os.environ["VERIF_PKG_" + v] = d
    os.environ["VERIF_TIER_"] = tier
    build_s = time.time() - t0

    if a.replay:
        rep = json.load(open(a.replay))
        t = [x for x in spec.TESTS if x.name == rep["test"]][0]
        bad, text = replay_once(a.cid, t.variant, os.path.abspath(a.replay))
        print(text)
        if bad:
            print("VIOLATION property=%s replay=%s" % (a.cid, a.replay))
        return 1 if bad else 0

    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.cid)
    ev = dict(property=a.cid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], tests={}, labels={}),
              assumptions=list(getattr(spec, "ASSUMPTIONS", [])), wall_s=0.0, violations=0)
    cov = ev["coverage"]
    cov["rule"] = " | ".join("%s: %s" % (t.name, t.rule) for t in tests)
    violation = None
    errors = []
    nknown = 0
    try:
        # listed known findings: shown while they still fail, exactly for their saved input
        for kid, text in known_findings(a.cid):
            path = os.path.join(ROOT, "findings", kid + ".json")
            rep = json.load(open(path))
            t = [x for x in spec.TESTS if x.name == rep["test"]][0]
            bad, _ = replay_once(a.cid, t.variant, path)
            if bad:
                nknown += 1
                print("KNOWN-FINDING: property=%s %s %s" % (a.cid, kid, text))
        for t in tests:
            results, fails, errs, wall = run_test(a.cid, t, seed, tier, pkgs[t.variant], tmp)
            errors += errs
            s = dict(evaluations=0, distinct_nontrivial=0, distinct=0, inconclusive=0, skipped=0, wall_s=round(wall, 2),
                     inconclusive_reasons={})
            nt = set()
            for r in results:
                s["evaluations"] += r["evaluations"]
                s["inconclusive"] += r["inconclusive"]
                s["skipped"] += r["skipped"]
                s["distinct"] += r.get("distinct", 0)
                for k, v in r.get("reasons", {}).items():
                    s["inconclusive_reasons"][k] = s["inconclusive_reasons"].get(k, 0) + v
                nt.update(r["nt"])
                for k, v in r["labels"].items():
                    key = t.name + "/" + k
                    cov["labels"][key] = cov["labels"].get(key, 0) + v
                cov["samples"] += r["samples"][:1]
            s["distinct_nontrivial"] = len(nt)
            cov["tests"][t.name] = s
            cov["evaluations"] += s["evaluations"]
            cov["distinct_nontrivial"] += len(nt)
            for f in fails[:4]:
                os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
                path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (a.cid, t.name, seed))
                json.dump(dict(property=a.cid, test=t.name, case=f["case"], message=f["message"], seed=seed, tier=tier),
                          open(path, "w"), indent=1)
                with cf.ThreadPoolExecutor(3) as ex:
                    oks = list(ex.map(lambda _: replay_once(a.cid, t.variant, path), range(3)))
                need = 3 if not getattr(spec, "NONDET_OK", False) else 1
                if sum(1 for b, _ in oks if b) >= need:
                    violation = (path, oks[0][1])
                    break
                errors.append("failure of %s did not repeat: %s\nreplays: %s" % (t.name, f["message"], oks))
            if violation:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if len(cov["samples"]) > 12:
        cov["samples"] = cov["samples"][:12]
    cov["build_s"] = round(build_s, 1)
    cov["known_findings_shown"] = nknown
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = 1 if violation else 0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", a.cid + ".json"), "w"), indent=1)
    for n, s in cov["tests"].items():
        print("%s %-22s eval %d nontrivial %d inconclusive %d skipped %d  %.1fs" % (
            a.cid, n, s["evaluations"], s["distinct_nontrivial"], s["inconclusive"], s["skipped"], s["wall_s"]))
    if violation:
        print(violation[1].strip()[:3000])
        print("VIOLATION property=%s replay=%s" % (a.cid, os.path.relpath(violation[0], ROOT)))
        return 1
    if errors:
        print("CHECK ERROR (no verdict):")
        for e in errors[:3]:
            print(e)
        return 2
    print("OK %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (
        a.cid, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], build_s))
    return 0


if __name__ == "__main__":
    sys.exit(main())
