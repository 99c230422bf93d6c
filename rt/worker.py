"""bounded run-time contract worker: rt.worker PID SEED NCASES SECONDS OUT.json | rt.worker --replay FILE"""
import json, sys, time, traceback
import numpy as np


def execute(run, case):
    from .common import guarded, Timeout
    try:
        with guarded(20):
            return run(json.loads(json.dumps(case)))
    except Timeout:
        return ["the call did not return within 20 s of processor time"]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return [f"raised {type(e).__name__}: {str(e)[:200]} at {tb.filename}:{tb.lineno}"]


def main():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        from .registry import CHECKS
        for name, gen, run in CHECKS[rec["property"]]:
            if name == rec["check"]:
                bad = [b for b in (execute(run, rec["case"]) or []) if not b.startswith("KNOWN:")]
                print("\n".join(bad) or "no violation")
                sys.exit(1 if bad else 0)
    pid, seed, ncases, secs, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    res = dict(evaluations=0, nontrivial=0, skipped=0, violations=[], known=[], samples=[])
    t0 = time.time()
    try:
        from .registry import CHECKS
    except Exception as e:
        res["violations"].append(dict(check="import", case=None, bad=[f"the package does not import: {type(e).__name__}: {e}"]))
        json.dump(res, open(out, "w"))
        return
    seen = set()
    checks = CHECKS[pid]
    for i in range(ncases):
        if time.time() - t0 > secs:
            break
        name, gen, run = checks[i % len(checks)]
        rng = np.random.default_rng([seed, i])
        case = gen(rng)
        bad = execute(run, case)
        if bad is None:
            res["skipped"] += 1
            continue
        res["evaluations"] += 1
        key = hash(json.dumps(case, sort_keys=True))
        if key not in seen:
            seen.add(key)
            if len(case.get("dem", [])) >= 4:
                res["nontrivial"] += 1
        if len(res["samples"]) < 1 and i > 2:
            res["samples"].append(case)
        kn = [b for b in bad if b.startswith("KNOWN:")]
        bad = [b for b in bad if not b.startswith("KNOWN:")]
        if kn and len(res["known"]) < 3:
            res["known"].append(dict(check=name, case=case, what=kn[0]))
        if bad:
            res["violations"].append(dict(check=name, case=case, bad=bad[:10]))
            break
    res["wall"] = time.time() - t0
    json.dump(res, open(out, "w"))


main()
