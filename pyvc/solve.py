"""Discharge obligations in parallel."""
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3

T0, T1, T2, T3 = 800, 6000, 9000, 9000


def split(goal):
    """conjuncts of a goal, below leading quantifiers and implications"""
    out = []

    def go(g, ctx):
        if z3.is_and(g):
            for c in g.children():
                go(c, ctx)
            return
        if z3.is_implies(g):
            go(g.arg(1), ctx + [("i", g.arg(0))])
            return
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.FreshConst(g.var_sort(i), "sk_" + g.var_name(i)) for i in range(g.num_vars())]
            go(z3.substitute_vars(g.body(), *reversed(vs)), ctx)
            return
        out.append((ctx, g))
    go(goal, [])
    return out


def symbols(t):
    """(function symbols in t, is there a quantifier)"""
    st, seen, r, q = [t], set(), set(), False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            q = True
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                r.add(x.decl().name())
            st.extend(x.children())
    return r, q


class Relevant:
    """a choice of hypotheses for a goal (proving from fewer hypotheses is sound): those without quantifiers and those sharing a rare symbol with the goal"""

    def __init__(self, hyps):
        self.hyps, self.q, self.free, self.cnt = hyps, [], [], {}
        for h in hyps:
            ss, q = symbols(h)
            if not q:
                self.free.append(h)
            else:
                self.q.append((h, ss))
                for s in ss:
                    self.cnt[s] = self.cnt.get(s, 0) + 1

    def select(self, goal, common, steps):
        rel, keep = symbols(goal)[0], set()
        for _ in range(steps):
            new = set()
            for i, (h, ss) in enumerate(self.q):
                if i not in keep and ss:
                    m = max(min(self.cnt[s] for s in ss), common)
                    if any(self.cnt[s] <= m for s in ss & rel):
                        new.add(i)
            keep |= new
            for i in new:
                rel |= self.q[i][1]
        return self.free + [self.q[i][0] for i in sorted(keep)] if len(keep) < len(self.q) else None


def _one(hyps, extra, goal, timeout, mbqi, seed=0):
    s = z3.Solver()
    s.set("timeout", timeout)
    if not mbqi:
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
    if seed:
        s.set("smt.random_seed", seed)
    for h in hyps:
        s.add(h)
    for h in extra:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return r


def prove(ob, scale=1.0, count=True):
    """('discharged'|'failed', back end, seconds, which conjunct)"""
    t0 = time.time()
    backs, rel = set(), None
    for ctx, g in split(ob.goal):
        extra = [h for _, h in ctx]
        ok = False
        for name, to, mb, seed, sel in (("z3 e-matching", T0, False, 0, None), ("z3 e-matching, selected hypotheses", T0, False, 0, (0, 2)),
                                        ("z3 e-matching, selected hypotheses", 2 * T0, False, 0, (13, 1)), ("z3 e-matching, selected hypotheses", 2 * T0, False, 0, (20, 1)),
                                        ("z3 e-matching", T1, False, 0, None), ("z3 mbqi", T2, True, 0, None), ("z3 e-matching seed 7", T3, False, 7, None)):
            hyps = ob.hyps
            if sel is not None:
                rel = rel or Relevant(ob.hyps)
                hyps = rel.select(g, *sel)
                if hyps is None:
                    continue
            if _OPEN is not None and _OPEN.value >= MANY:
                # the function does not meet its contracts: no need to be thorough about which obligations show it
                to = to / 5
            r = _one(hyps, extra, g, int(to * scale), mb, seed)
            if r == z3.sat and sel is not None:
                continue
            if r == z3.unsat:
                backs.add(name)
                ok = True
                break
            if r == z3.sat:
                return "refuted", name, time.time() - t0, str(g)[:400]
        if not ok:
            if count and _OPEN is not None:
                with _OPEN.get_lock():
                    _OPEN.value += 1
            return "unknown", "z3", time.time() - t0, str(g)[:400]
    return "discharged", "+".join(sorted(backs)) or "trivial", time.time() - t0, ""


def cvc5(hyps, extra, goal, timeout):
    s = z3.Solver()
    for h in list(hyps) + list(extra) + [z3.Not(goal)]:
        s.add(h)
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + s.to_smt2())
    try:
        r = subprocess.run(["cvc5", f"--tlimit={timeout}", "-q", f.name], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        return z3.unsat if r.stdout.strip() == "unsat" else z3.unknown
    except (OSError, subprocess.TimeoutExpired):
        return z3.unknown
    finally:
        os.unlink(f.name)


def portfolio(ob):
    t0 = time.time()
    backs = set()
    for ctx, g in split(ob.goal):
        extra = [h for _, h in ctx]
        ok = False
        for name, to, mb, seed in [("z3 e-matching", 5000, False, 0), ("z3 mbqi", 5000, True, 0)] + \
                [(f"z3 {'mbqi' if m else 'e-matching'} seed {k}", 8000, m, k) for k in (1, 2, 3, 4) for m in (False, True)] + [("cvc5", 15000, False, 0)]:
            to = min(to, int((_END - time.time()) * 1000))
            if to <= 0:
                break
            r = cvc5(ob.hyps, extra, g, to) if name == "cvc5" else _one(ob.hyps, extra, g, to, mb, seed)
            if r == z3.sat:
                break
            if r == z3.unsat:
                backs.add(name)
                ok = True
                break
        if not ok:
            return "unknown", "z3", time.time() - t0, str(g)[:400]
    return "discharged", "+".join(sorted(backs)) or "trivial", time.time() - t0, ""


def _retry(i):
    try:
        return i, portfolio(_OBS[i][1])
    except z3.Z3Exception as e:
        return i, ("unknown", "z3", 0.0, f"solver error {e}")


_OBS = None
_OPEN, MANY = None, 32
_END = 0.0
RETRY = 120.0
_SEM = None
CTX = mp.get_context("fork")


def limit(procs):
    """at most so many solvers and generators at work, however many processes there are"""
    global _SEM, _OPEN
    _SEM = CTX.Semaphore(procs)
    _OPEN = CTX.Value("i", 0)
    return _SEM


def _work(i):
    kind, ob, scale = _OBS[i]
    with _SEM:
        try:
            if kind == "prove":
                return (i,) + prove(ob, scale)
            # vacuity: hypotheses must not be contradictory
            s = z3.Solver()
            s.set("timeout", 2500)
            s.set("smt.mbqi", False)
            for h in ob.hyps:
                s.add(h)
            t0 = time.time()
            r = s.check()
            return i, "contradictory" if r == z3.unsat else "ok", "z3", time.time() - t0, ""
        except z3.Z3Exception as e:
            return i, "unknown", "z3", 0.0, f"solver error {e}"


def first(jobs, procs=8):
    global _OBS
    _OBS = jobs
    if not jobs:
        return []
    # one process per job: what a solver does must not depend on the jobs it has done before
    with CTX.Pool(min(procs, len(jobs)), maxtasksperchild=1) as p:
        res = sorted(p.map(_work, range(len(jobs)), chunksize=1))
    return [r[1:] for r in res]


def unsettled(jobs, res):
    return [i for i, r in enumerate(res) if jobs[i][0] == "prove" and r[0] == "unknown"]


def again(jobs, res, end, procs=8):
    """solvers are incomplete: a second pass with other seeds, another quantifier strategy and another solver"""
    global _END
    _END = end
    todo = unsettled(jobs, res)
    if todo:
        with CTX.Pool(min(procs, len(todo)), maxtasksperchild=1) as p:
            for i, r in p.imap_unordered(_retry, todo, chunksize=1):
                if r[0] == "discharged":
                    res[i] = r
    return res


def _retry(i):
    with _SEM:
        try:
            return i, portfolio(_OBS[i][1])
        except z3.Z3Exception as e:
            return i, ("unknown", "z3", 0.0, f"solver error {e}")
