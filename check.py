#!/usr/bin/env python3
"""check.py PROPERTY — decide one property on /repo's current working tree.

1. contracts: extract the functions of the property's cone from /repo, generate and discharge every obligation
   (pyvc, SMT).  2. bounded stand-in: the same contracts checked at run time on generated cases (rt), labelled bounded.
Exit 0: held.  Exit 1: VIOLATION line.  Anything else is an error of the check.
"""
import hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from config import PROOF, RT, TRUSTED, LEVEL, EXPLAIN

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
if len(sys.argv) > 2:
    TIER = sys.argv[2]
THOROUGH = TIER == "thorough"
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
REPLAYS = os.path.join(HERE, "replays")
TMP = os.path.join(HERE, "work", PID)
ENV = dict(os.environ, PYTHONPATH=HERE + ":/repo", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")


def spawn(cmd, cwd=HERE):
    return subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def rt_start(workers, ncases, secs, salt):
    ps = []
    for w in range(workers):
        out = os.path.join(TMP, f"rt{salt}_{w}.json")
        if os.path.exists(out):
            os.unlink(out)
        ps.append((spawn([PY, "-m", "rt.worker", PID, str(SEED * 1000 + salt * 100 + w), str(ncases), str(secs), out]), out))
    return ps


def rt_wait(ps):
    tot = dict(evaluations=0, nontrivial=0, skipped=0, violations=[], known=[], samples=[])
    for p, out in ps:
        log = p.communicate()[0]
        if not os.path.exists(out):
            raise RuntimeError("run-time worker died:\n" + log[-3000:])
        r = json.load(open(out))
        for k in ("evaluations", "nontrivial", "skipped"):
            tot[k] += r[k]
        for k in ("violations", "known", "samples"):
            tot[k] += r[k]
    return tot


def write_replay(rec):
    os.makedirs(REPLAYS, exist_ok=True)
    txt = json.dumps(rec, indent=1, default=str)
    path = os.path.join(REPLAYS, f"{PID}-{hashlib.sha1(txt.encode()).hexdigest()[:10]}.json")
    open(path, "w").write(txt)
    return path


def main():
    t0 = time.time()
    os.makedirs(TMP, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    findings = json.load(open(os.path.join(HERE, "known_findings.json")))
    known_ids = {f["id"]: f for f in findings["findings"] if f["property"] == PID}

    # bounded run-time contracts
    secs = 240 if THOROUGH else RT[PID]["secs"]
    ps = rt_start(6, 10 ** 9 if THOROUGH else RT[PID]["cases"], secs, 0)
    # deductive part
    proof = None
    if PROOF.get(PID):
        out = os.path.join(TMP, "proof.json")
        if os.path.exists(out):
            os.unlink(out)
        p = spawn([VT, "-m", "pyvc.main", PID, out, TIER])
    rt = rt_wait(ps)
    if PROOF.get(PID):
        log = p.communicate()[0]
        if not os.path.exists(out):
            raise RuntimeError("verifier died:\n" + log[-3000:])
        proof = json.load(open(out))

    for k in rt["known"]:
        kid = k["what"].split(":")[1].split()[0]
        if kid not in known_ids:
            rt["violations"].append(dict(check=k["check"], case=k["case"], bad=[k["what"]]))
    failed = [o for o in proof["obligations"] if o["status"] != "discharged"] if proof else []
    if failed and not rt["violations"]:
        # a failed obligation: search longer for a failing input before reporting without one
        extra = rt_wait(rt_start(8, 10 ** 9, 240 if THOROUGH else 60, 1))
        for k in ("evaluations", "nontrivial", "skipped"):
            rt[k] += extra[k]
        rt["violations"] += extra["violations"]

    nviol = 0
    status = 0
    if rt["violations"]:
        v = min(rt["violations"], key=lambda x: len(json.dumps(x["case"])))
        path = write_replay(dict(property=PID, kind="failing input", check=v["check"], case=v["case"], bad=v["bad"],
                                 replay=f"cd {HERE} && PYTHONPATH={HERE}:/repo {PY} -m rt.worker --replay <this file>",
                                 failed_obligations=failed[:20]))
        for b in v["bad"][:5]:
            print("  " + b)
        for o in failed[:5]:
            print(f"  failed obligation: {o['name']} ({o['status']})")
        print(f"VIOLATION property={PID} replay={path}")
        nviol, status = 1, 1
    elif failed:
        path = write_replay(dict(property=PID, kind="failed obligation", failed_obligations=failed))
        for o in failed[:5]:
            print(f"  failed obligation: {o['name']} ({o['status']}) {o.get('detail', '')[:300]}")
        print(f"VIOLATION property={PID} replay={path} no-failing-input-found")
        nviol, status = 1, 1
    for kid, f in known_ids.items():
        print(f"KNOWN-FINDING: property={PID} {f['what']}")

    cov = dict(evaluations=rt["evaluations"], distinct_nontrivial=rt["nontrivial"], skipped_cases=rt["skipped"],
               rule="bounded stand-in: random grid spec (structured, vertex, unstructured; up to 6x6 base cells with split, "
                    "merged and dropped cells), elevations and call parameters per property; non-trivial: distinct case with at least 4 cells",
               samples=rt["samples"][:1])
    if proof:
        obs = proof["obligations"]
        cov.update(obligations=len(obs), discharged=sum(o["status"] == "discharged" for o in obs),
                   checker_cmd=f"{VT} -m pyvc.main {PID} OUT.json {TIER}", trusted_base=proof["trusted"],
                   functions_under_contract=proof["functions"], backends=proof["backends"], solver_time_s=proof["solver_time"],
                   vacuity_checks=proof["vacuity"], bounded_only=EXPLAIN[PID])
    cov["explanation"] = EXPLAIN[PID]
    ev = dict(property=PID, tier="thorough" if THOROUGH else "quick", seed=SEED, level=LEVEL[PID], coverage=cov,
              assumptions=(proof["trusted"] if proof else []) + TRUSTED, wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(HERE, "evidence", PID + ".json"), "w"), indent=1, default=str)
    print(f"{PID}: run-time contracts {rt['evaluations']} cases"
          + (f", {cov['discharged']}/{cov['obligations']} obligations discharged" if proof else "") + f", {time.time() - t0:.0f}s")
    sys.exit(status)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(3)
