"""One shard of a check: python -m vlib.worker CID --shard k ... (see check.py)"""
import argparse
import faulthandler
import importlib
import json
import os
import resource
import sys
import time
import traceback

MEMORY = 1800 << 20
FILESIZE = 100 << 20
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--test")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--count", type=int, default=0)
    ap.add_argument("--budget", type=float, default=1e9)
    ap.add_argument("--pkg")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    faulthandler.enable()
    # a run-away allocation fails in the call that asks for it, and does not take the sandbox's memory
    # (the sanitizer's own limit stands in check.py)
    if "libasan" not in os.environ.get("LD_PRELOAD", ""):
        resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_FSIZE, (FILESIZE, FILESIZE))
    sys.path.insert(0, a.pkg)
    sys.path.append(VT)
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings("ignore")
    import pycold
    assert pycold.__file__.startswith(a.pkg), pycold.__file__
    mod = importlib.import_module("checks." + a.cid)
    tests = {t.name: t for t in mod.TESTS}

    from vlib.prop import Violation, Inconclusive, case_hash

    if a.replay:
        def say(text):
            print(text)
            if a.out:
                with open(a.out, "w") as h:
                    h.write(text)

        rep = json.load(open(a.replay))
        t = tests[rep["test"]]
        try:
            r = t.run(rep["case"])
        except Violation as e:
            say("REPLAY-FAIL %s" % e)
            return 1
        except Inconclusive as e:
            say("REPLAY-INCONCLUSIVE %s" % e)
            return 0
        except Exception as e:
            say("REPLAY-FAIL unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]))
            return 1
        say("REPLAY-PASS %r" % (r,))
        return 0

    t = tests[a.test]
    t0 = time.time()
    st = dict(test=t.name, shard=a.shard, evaluations=0, skipped=0, inconclusive=0, labels={}, samples=[],
              nt=[], failure=None, error=None, wall=0.0)
    nt = set()
    seen = set()
    cur = os.open(a.out + ".cur", os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    last_fail = {}
    reasons = {}

    def one(case):
        if time.time() - t0 > a.budget:
            st["skipped"] += 1
            return
        js = json.dumps(case)
        b = js.encode()
        os.ftruncate(cur, 0)
        os.pwrite(cur, b, 0)
        st["evaluations"] += 1
        try:
            r = t.run(case) or {}
        except Inconclusive as e:
            st["inconclusive"] += 1
            k = str(e)[:80]
            reasons[k] = reasons.get(k, 0) + 1
            return
        except Violation as e:
            last_fail.update(case=json.loads(js), message=str(e)[:2000])
            raise
        except Exception as e:  # harness or target raised unexpectedly
            last_fail.update(case=json.loads(js), message="unexpected %s: %s\n%s" % (
                type(e).__name__, e, traceback.format_exc()[-1500:]))
            raise Violation(last_fail["message"])
        for l in r.get("labels", ()):
            st["labels"][l] = st["labels"].get(l, 0) + 1
        h = case_hash(case)
        seen.add(h)
        if r.get("nt"):
            nt.add(h)
            if len(st["samples"]) < 3 and (len(js) < 3000):
                st["samples"].append(dict(test=t.name, case=json.loads(js), outcome=r.get("labels", [])[:12]))

    try:
        for k, case in enumerate(t.fixed() if callable(t.fixed) else t.fixed):
            if k % t.shards == a.shard:
                one(case)
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        from hypothesis import seed as hseed
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 45 if a.tier == "quick" else 150
        hypothesis.settings.register_profile("v", database=None, deadline=None,
                                             suppress_health_check=list(HealthCheck),
                                             phases=[Phase.generate, Phase.shrink], print_blob=False)
        hypothesis.settings.load_profile("v")
        n = a.count or (t.quick if a.tier == "quick" else t.thorough)
        strat = t.strategy(a.tier)

        @hseed(a.seed * 1000003 + a.shard * 7919 + sum(map(ord, t.name)))
        @settings(max_examples=n)
        @given(strat)
        def prop(case):
            one(case)

        if n > 0:
            prop()
    except Violation:
        st["failure"] = dict(last_fail)
    except BaseException as e:
        if last_fail:
            st["failure"] = dict(last_fail)
        else:
            st["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    if st["failure"] and t.minimise:
        try:
            def fails(case):
                try:
                    t.run(case)
                except Violation as e:
                    fails.msg = str(e)
                    return True
                except Exception:
                    return False
                return False
            c2 = t.minimise(st["failure"]["case"], fails, time.time() + 20)
            if fails(c2):
                st["failure"] = dict(case=c2, message=fails.msg)
        except Exception:
            pass
    st["nt"] = sorted(nt)
    st["distinct"] = len(seen)
    st["reasons"] = reasons
    st["wall"] = time.time() - t0
    with open(a.out + ".tmp", "w") as f:
        json.dump(st, f)
    os.rename(a.out + ".tmp", a.out)
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
