"""pyvc.main PID OUT.json TIER: generate and discharge the obligations of the contracts in a property's cone."""
import importlib
import json
import sys
import time
import traceback
from .repo import Repo
from .execute import Exec
from .values import Undecided
from . import solve


def registry():
    """all contracts: {name: Spec}"""
    out, apply_ = {}, {}
    for m in ("dem", "flow", "stream", "segments", "tables", "flats", "casc"):
        try:
            mod = importlib.import_module(f"pyvc.specs.{m}")
        except ModuleNotFoundError as e:
            if f"pyvc.specs.{m}" in str(e):
                continue
            raise
        for s in mod.SPECS:
            out[s.name] = s
        apply_.update(getattr(mod, "CALLEES", {}))
    return out, apply_


def generate(names, verbose=False):
    specs, callees = registry()
    repo = Repo()
    res = []
    for n in names:
        sp = specs[n]
        E = Exec(repo, getattr(sp, "models", {}), {k: v for k, v in callees.items() if k != "" and k not in sp.no_contract} if hasattr(sp, "no_contract") else callees)
        t0 = time.time()
        err = None
        try:
            E.verify(sp)
        except Undecided as e:
            err = f"outside the verified subset: {e} ({E.site() if E.frame else ''})"
            if verbose:
                traceback.print_exc(limit=-6)
        except RecursionError:
            err = "recursion limit in the generator"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            err = f"generator error {type(e).__name__}: {e} at {tb.filename}:{tb.lineno} ({E.site() if E.frame else ''})"
            if verbose:
                traceback.print_exc()
        res.append((sp, E, err, time.time() - t0))
    return res


def contract(name, tier, verbose, procs, pipe):
    """one contract, in a process of its own: generate, prove, report; prove again what is left when told to"""
    sys.setrecursionlimit(20000)
    with solve._SEM:
        (sp, E, err, gt), = generate([name], verbose)
    jobs = []
    scale = 1.0 if tier == "quick" else 3.0
    out = dict(obligations=[], trusted=sorted(set(E.trusted) | set(E.notes)), backends={}, solver_time=0.0, vacuity=[])
    out["functions"] = [dict(contract=sp.name, inlined=sorted(E.inlined), called=sorted(E.called), paths=getattr(E, "npaths", 0),
                             obligations=len(E.obligations), generation_s=round(gt, 2))]
    if err:
        out["obligations"].append(dict(name=f"{sp.name}: {err}", status="unsupported", detail=err))
    seen, meta = {}, []
    for ob in E.obligations:
        jobs.append(("prove", ob, scale))
        meta.append(None)
        if ob.kind in ("inv-step", "post"):
            seen.setdefault((ob.kind, ob.label.split(":")[0]), []).append(ob)
    for who, obs in seen.items():
        tr, some = set(), []
        for ob in obs:
            if ob.trace not in tr:
                tr.add(ob.trace)
                some.append(ob)
        # spread over the paths; the last ones are the deepest
        for ob in (some if len(some) <= 8 else [some[i * (len(some) - 1) // 15] for i in range(16)]):
            jobs.append(("vac", ob, 1.0))
            meta.append(who)
    if not err and not any(o.kind == "post" for o in E.obligations):
        out["obligations"].append(dict(name=f"{sp.name}: no path reaches the end of the function", status="vacuous", detail=""))
    res = solve.first(jobs, procs)
    pipe.send(len(solve.unsettled(jobs, res)))
    end = pipe.recv()
    if end:
        res = solve.again(jobs, res, end, procs)
    vac = {}
    for (kind, ob, _), who, (st, back, secs, why) in zip(jobs, meta, res):
        out["solver_time"] += secs
        if kind == "prove":
            out["obligations"].append(dict(name=f"{sp.name}: {ob.label} @ {ob.site}", status=st, detail=why, secs=round(secs, 2)))
            if st == "discharged":
                out["backends"][back] = out["backends"].get(back, 0) + 1
        else:
            vac.setdefault(who, []).append(st)
    for who, sts in vac.items():
        ok = any(s == "ok" for s in sts)
        out["vacuity"].append(dict(contract=sp.name, point=f"{who[0]} {who[1]}", reachable=ok))
        if not ok:
            out["obligations"].append(dict(name=f"{sp.name}: hypotheses at {who[0]} {who[1]} are contradictory", status="vacuous", detail=""))
    pipe.send(out)


def verify(names, tier="quick", verbose=False, procs=8):
    out = dict(obligations=[], trusted=set(), functions=[], backends={}, solver_time=0.0, vacuity=[])
    solve.limit(procs)
    kids = []
    for n in names:
        here, there = solve.CTX.Pipe()
        p = solve.CTX.Process(target=contract, args=(n, tier, verbose, procs, there))
        p.start()
        there.close()
        kids.append((n, p, here))

    def get(pipe):
        try:
            return pipe.recv()
        except EOFError:
            return None
    # every contract is gone through once before the rest is tried again
    left = [get(pipe) for _, _, pipe in kids]
    n = sum(k or 0 for k in left)
    end = time.time() + solve.RETRY if 0 < n < solve.MANY else 0.0
    for (_, _, pipe), k in zip(kids, left):
        if k is not None:
            pipe.send(end if k else 0.0)
    for (name, p, pipe), k in zip(kids, left):
        r = None if k is None else get(pipe)
        p.join()
        if r is None:
            r = dict(obligations=[dict(name=f"{name}: the verifier ended early", status="unsupported", detail="")], trusted=[], functions=[], backends={}, solver_time=0.0, vacuity=[])
        for key in ("obligations", "functions", "vacuity"):
            out[key] += r[key]
        out["trusted"] |= set(r["trusted"])
        out["solver_time"] += r["solver_time"]
        for b, c in r["backends"].items():
            out["backends"][b] = out["backends"].get(b, 0) + c
    out["trusted"] = sorted(out["trusted"])
    return out


def main():
    sys.setrecursionlimit(20000)
    pid, path, tier = sys.argv[1], sys.argv[2], (sys.argv[3] if len(sys.argv) > 3 else "quick")
    import config
    out = verify(config.PROOF[pid], tier)
    json.dump(out, open(path, "w"), indent=1)


def dev():
    """pyvc.main --dev NAME-PREFIX...: verbose run"""
    sys.setrecursionlimit(20000)
    specs, _ = registry()
    names = [n for n in specs if any(n.startswith(p) or p in n for p in sys.argv[2:])]
    t0 = time.time()
    out = verify(names, "quick", verbose=True)
    bad = [o for o in out["obligations"] if o["status"] != "discharged"]
    for o in bad[:60]:
        print(o["status"].upper(), o["name"], o.get("secs"), "\n     ", o["detail"][:300].replace("\n", " "))
    for f in out["functions"]:
        print(f)
    print("vacuity", [v for v in out["vacuity"] if not v["reachable"]], "of", len(out["vacuity"]))
    slow = sorted(out["obligations"], key=lambda o: -o.get("secs", 0))[:3]
    print("slowest", [(o["name"][-60:], o.get("secs")) for o in slow])
    print(len(out["obligations"]), "obligations,", len(bad), "open,", round(out["solver_time"], 1), "s solver,", round(time.time() - t0, 1), "s wall", out["backends"])


if __name__ == "__main__":
    dev() if len(sys.argv) > 1 and sys.argv[1] == "--dev" else main()
