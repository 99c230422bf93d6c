"""Symbolic execution of the repository's real syntax trees into proof obligations.

Paths are enumerated by re-running the function with a decision trace.  A loop with an invariant is cut: invariants are
proved on entry, the state the body changes is replaced by arbitrary values that satisfy them, one iteration is executed
and must re-establish them, and execution continues after the loop from (arbitrary state, invariants, exit condition).
"""
import ast
import z3
from .values import *
from . import values as VAL


def mkpats(vs, pats):
    """solver patterns: only the uninterpreted applications inside the given terms; dropped unless they bind every variable"""
    out = []
    ids = {v.get_id() for v in vs}

    none = frozenset()
    bad = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT,
           z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)
    memo = {}

    def info(t):
        """(variables below t, usable in a pattern, smallest usable uninterpreted applications below t)"""
        i = t.get_id()
        if i in memo:
            return memo[i]
        if i in ids:
            r = frozenset([i]), True, ()
        elif not z3.is_app(t):
            r = none, False, ()
        else:
            k = t.decl().kind()
            fr, ok, ap = none, k not in bad, []
            for c in t.children():
                f, o, a = info(c)
                fr, ok = fr | f, ok and o
                ap += a
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args() and ok and fr:
                ap = [t]
            r = fr, ok, ap
        memo[i] = r
        return r

    def free(t):
        return info(t)[0]

    def apps(t, need):
        return info(t)[2]
    for p in pats:
        ts = list(p) if isinstance(p, (list, tuple)) else [p]
        alts = [[]]
        ok = True
        for t in ts:
            a, seen = [], set()
            for x in apps(t, ids):
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    a.append(x)
            if not a:
                ok = False
                break
            alts = [u + [x] for u in alts for x in a[:4]]
        if not ok:
            continue
        for u in alts[:6]:
            cov = set()
            for x in u:
                cov |= free(x)
            if cov == ids:
                out.append(z3.MultiPattern(*u) if len(u) > 1 else u[0])
    return out


class PathEnd(Exception):
    pass


class Restart(Exception):
    """a loop turns out to change more than was assumed: the paths through it (those that begin like `at`) are executed again"""

    def __init__(self, at):
        self.at = at


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class RaiseEx(Exception):
    def __init__(self, name, node):
        self.name, self.node = name, node


class Obligation:
    __slots__ = ("label", "site", "hyps", "goal", "fn", "trace", "kind")

    def __init__(self, label, site, hyps, goal, fn, trace, kind):
        self.label, self.site, self.hyps, self.goal, self.fn, self.trace, self.kind = label, site, hyps, goal, fn, trace, kind


class Frame:
    def __init__(self, fn, env, parent, mod):
        self.fn, self.env, self.parent, self.mod = fn, env, parent, mod
        self.loops = {}
        if fn is not None:
            number_loops(fn.node, self.loops)


def number_loops(fnode, out):
    def walk(body, prefix, counter):
        for st in body:
            if isinstance(st, (ast.For, ast.While)):
                lid = f"{prefix}{counter[0]}"
                counter[0] += 1
                out[id(st)] = lid
                walk(st.body, lid + ".", [0])
                walk(st.orelse, prefix, counter)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            else:
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None):
                        walk(getattr(st, f), prefix, counter)
                for h in getattr(st, "handlers", []):
                    walk(h.body, prefix, counter)
    walk(fnode.body, "", [0])


def locals_in_order(fnode):
    """names of a function in the order of their first binding"""
    out = [a.arg for a in fnode.args.args]

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(body):
        for st in body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    tgt(t)
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                tgt(st.target)
            elif isinstance(st, ast.For):
                tgt(st.target)
            elif isinstance(st, ast.With):
                for it in st.items:
                    if it.optional_vars is not None:
                        tgt(it.optional_vars)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                continue
            for f in ("body", "orelse", "finalbody"):
                if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    walk(getattr(st, f))
    walk(fnode.body)
    return out


class LoopInfo:
    def __init__(self):
        self.names = {}      # name -> kind or None (not yet)
        self.objs = {}       # ref id -> kind
        self.attrs = {}      # (object id, attribute) -> kind


class State:
    """what an invariant may look at"""

    def __init__(self, E, frame, k=None, it=None, lid=None):
        self.E, self.frame, self.k, self.it, self.lid = E, frame, k, it, lid
        self.g = E.ghost

    def __getitem__(self, name):
        return self.E.role(self.frame, name)

    def has(self, name):
        try:
            v = self[name]
        except Undecided:
            return False
        return v is not DEAD

    def idx(self, lid):
        """index of an enclosing loop of the same function"""
        f = self.frame
        while f is not None:
            if "$k" + lid in f.env:
                return f.env["$k" + lid]
            f = f.parent
        raise Undecided(f"no loop plays the role of loop {lid}")


class Engine:
    def __init__(self, repo, models, specs, opts=None):
        self.repo = repo              # Repo: modules, functions, classes
        self.models = models          # builtin/np/flopy models
        self.specs = specs            # qualname -> Spec used as a callee contract
        self.opts = opts or {}
        self.obligations = []
        self.assumed = []
        self.notes = set()
        self.inlined = set()
        self.called = set()
        self.trusted = set()

    # ------------------------------------------------------------------ driving
    def verify(self, spec):
        self.spec = spec
        self.loopinfo = {}
        self.obligations, work, npaths, self.known, again = [], [()], 0, {}, {}
        self.cuts = {}
        while work:
            forced = work.pop()
            npaths += 1
            if npaths > self.opts.get("max_paths", 4000):
                raise Undecided("too many paths")
            try:
                self._one(spec, forced, work)
            except Restart as ex:
                # what a loop changes is discovered while executing
                t = ex.at
                m = len(t)
                again[t] = again.get(t, 0) + 1
                if again[t] > 60:
                    raise Undecided("the state changed by a loop does not stabilise")
                through = lambda x: len(x) >= m and x[:m] == t
                self.obligations = [o for o in self.obligations + self.newobl if not through(o.trace)]
                work[:] = [w for w in work + self.newwork if not (len(w) > m and through(w))] + [t]
                self.known = {k: v for k, v in self.known.items() if not through(k[1])}
                for k in [k for k in self.loopinfo if len(k[0]) > m and through(k[0])]:
                    del self.loopinfo[k]
                self.cuts = {k: v for k, v in self.cuts.items() if not through(v[0])}
                for k in [k for k in again if len(k) > m and through(k)]:
                    del again[k]
        self.npaths = npaths
        return self.obligations

    def _one(self, spec, forced, work):
        Ref.serial = 0
        Ref.eng = self
        VAL._ser = itertools.count()
        self.forced, self.trace = forced, []
        self.newwork = []
        self.newobl = []
        self.hyps = []
        self.bound, self.guards = [], []
        self.loopstack = []
        self.ghost = {}
        self.asked = 0
        self.first = 0
        self.pair_ax = False
        self.pyints = False
        self.qf = z3.Solver()
        self.qf.set("timeout", 60)
        self.depth = 0
        self.frame = None
        try:
            try:
                args, kw = spec.setup(self)
                self.nsetup = len(self.hyps)
                r = spec.call(self, args, kw)
                spec.post(self, r)
            except RaiseEx as e:
                if e.name not in getattr(spec, "may_raise", ()):
                    self.check(f"no {e.name} is raised", z3.BoolVal(False), "raise")
            except PathEnd:
                pass
        except Restart:
            raise
        self.obligations += self.newobl
        work += self.newwork

    # ------------------------------------------------------------------ hypotheses, decisions, obligations
    def wrap(self, f):
        if not self.bound:
            return f
        g = z3.And(*self.guards) if self.guards else z3.BoolVal(True)
        return z3.ForAll(list(self.bound), z3.Implies(g, f))

    def assume(self, f):
        if f is True or (isz(f) and z3.is_true(f)):
            return
        f = B(f)
        f = self.wrap(f)
        self.hyps.append(f)
        if not _has_quant(f):
            self.qf.add(f)

    def ax(self, vs, body, pats=()):
        """assume a universally quantified fact; inside a comprehension the bound index is quantified too"""
        vs = list(self.bound) + list(vs)
        g = list(self.guards)
        body = z3.Implies(z3.And(*g), body) if g else body
        if not vs:
            self.assume_raw(body)
            return
        pp = mkpats(vs, pats)
        self.hyps.append(z3.ForAll(vs, body, patterns=pp) if pp else z3.ForAll(vs, body))

    def assume_raw(self, f):
        self.hyps.append(f)
        if not _has_quant(f):
            self.qf.add(f)

    def site(self):
        fr = self.frame
        fn = fr.fn.qual if fr and fr.fn else "?"
        return f"{fn}:{getattr(self, 'line', 0)}"

    first = 0          # obligations are proved from the hypotheses from this index on (fewer are always sound)

    def check(self, label, goal, kind="assert"):
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        goal = self.wrap(B(goal))
        if len(self.trace) >= len(self.forced):
            self.newobl.append(Obligation(label, self.site(), self.hyps[self.first:], goal, self.spec.name, tuple(self.trace), kind))

    def entails(self, f, timeout=300):
        """quick solver check, used to simplify only"""
        f = z3.simplify(B(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.once(lambda: self.entailed(f, timeout))

    def once(self, ask):
        """paths with the same beginning are executed again: what has been asked there has the same answer"""
        self.asked += 1
        key = self.asked, tuple(self.trace)
        if key not in self.known:
            self.known[key] = ask()
        return self.known[key]

    def entailed(self, f, timeout):
        self.qf.push()
        for g in self.guards:
            self.qf.add(g)
        self.qf.add(z3.Not(f))
        r = self.qf.check()
        self.qf.pop()
        if r == z3.unsat:
            return True
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("smt.mbqi", False)
        for h in self.hyps:
            s.add(h)
        for g in self.guards:
            s.add(g)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def never(self, c):
        """is a condition ruled out on this path"""
        def ask():
            self.qf.push()
            self.qf.add(c)
            r = self.qf.check()
            self.qf.pop()
            return r == z3.unsat
        return self.once(ask)

    def proves(self, f, scale=0.4):
        """the effort made for an obligation, used to find out what holds"""
        from . import solve
        ob = Obligation("", "", self.hyps[self.first:] + list(self.guards), B(f), "", (), "hint")
        return self.once(lambda: solve.prove(ob, scale, False)[0] == "discharged")

    def decide(self, n, feasible=None):
        """n-way choice; feasible: list of z3 Bool or None"""
        if self.bound:
            raise Undecided("a data-dependent branch inside a comprehension")
        pos = len(self.trace)
        if pos < len(self.forced):
            c = self.forced[pos]
        else:
            opts = list(range(n))
            if feasible is not None:
                opts = [i for i in opts if self._feas(feasible[i])]
                if not opts:
                    raise PathEnd()
            c = opts[0]
            for o in opts[1:]:
                self.newwork.append(tuple(self.trace) + (o,))
        self.trace.append(c)
        return c

    def _feas(self, f):
        if f is None:
            return True
        self.qf.push()
        self.qf.add(f)
        r = self.qf.check()
        self.qf.pop()
        return r != z3.unsat

    def branch(self, c):
        """python truth of a condition on this path"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.Not(c)
        if _has_quant(c):
            k = self.decide(2)
        else:
            k = self.decide(2, [c, nc])
        self.assume(c if k == 0 else nc)
        return k == 0

    # ------------------------------------------------------------------ fresh symbols
    def fn(self, name, args, ret):
        f = z3.Function(fresh_name(name), *([b.sort() for b in self.bound] + list(args) + [ret]))
        bd = list(self.bound)
        return lambda *a: f(*(bd + list(a)))

    def const(self, name, sort):
        if self.bound:
            return self.fn(name, [], sort)()
        return z3.Const(fresh_name(name), sort)

    def int(self, name):
        return self.const(name, IS)

    def fresh_na(self, name, shape, t, nan=False, grid=None):
        dims = [IS] * len(shape)
        f = self.fn(name, dims, {"i": IS, "r": RS, "b": BS}[t])
        if t == "r" and nan:
            g = self.fn(name + ".nan", dims, BS)
            return NA(shape, lambda ix: V("r", f(*ix), g(*ix)), t, grid)
        return NA(shape, lambda ix: V(t, f(*ix)), t, grid)

    def make_bag(self, pl):
        """multiset view of a list"""
        ek = pl._ek
        s = {"i": IS, "r": RS, "b": BS}
        if ek is None:
            j = z3.FreshConst(IS, "j")
            ek = kind_of(pl.get(j)) if pl.items is None else "i"
        ks = list(ek[1]) if isinstance(ek, tuple) and ek[0] == "tup" else [ek]
        if any(k not in ("i", "r", "b", "rn") for k in ks):
            raise Undecided("multiset of structured elements")
        sorts = [s[k[0]] for k in ks]
        if pl.items is not None and not pl.items:
            pl._bag = lambda *x: z3.IntVal(0)
            return
        # quantify over whatever indices the list depends on is not needed: lists built inside a comprehension get
        # their multiset when they are made (see finish_list)
        c = self.fn("cnt", sorts, IS)
        p = self.fn("pos", sorts, IS)
        n = I(pl.n)
        xs = [z3.FreshConst(x, "x") for x in sorts]
        j = z3.FreshConst(IS, "j")
        gj = flat(pl.get(j))
        gp = flat(pl.get(p(*xs)))
        self.ax(xs, z3.And(c(*xs) >= 0, c(*xs) <= n,
                           z3.Implies(c(*xs) >= 1, z3.And(p(*xs) >= 0, p(*xs) < n, *[_eq(a, b) for a, b in zip(gp, xs)]))),
                [c(*xs)])
        pats = [t for t in gj if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()]
        self.ax([j], z3.Implies(z3.And(j >= 0, j < n), c(*gj) >= 1), pats[:1])
        pl._bag = lambda *x: c(*x)
        pl._pos = lambda *x: p(*x)

    def fresh(self, kind, name):
        """arbitrary value of a kind"""
        if kind in ("i", "r", "b"):
            return V(kind, self.const(name, {"i": IS, "r": RS, "b": BS}[kind]))
        if kind == "rn":
            return V("r", self.const(name, RS), self.const(name + ".nan", BS))
        if kind == "none":
            return None
        if isinstance(kind, str) and kind.startswith("str:"):
            return kind[4:]
        h = kind[0]
        if h == "opt":
            return Opt(self.const(name + ".none", BS), self.fresh(kind[1], name))
        if h == "tup":
            return tuple(self.fresh(k, f"{name}.{i}") for i, k in enumerate(kind[1]))
        if h == "rowv":
            n = self.const(name + ".len", IS)
            self.ax([], z3.And(n >= kind[2], n <= len(kind[1])), [n])
            return VAL.short([self.fresh(k, f"{name}.{i}") for i, k in enumerate(kind[1])], n, kind[2])
        if h == "late":
            return Late(self.const(name + ".set", BS), self.fresh(kind[1], name))
        if h == "row":
            return PL(items=[self.fresh(k, f"{name}.{i}") for i, k in enumerate(kind[1])])
        if h == "list":
            n = self.const(name + ".len", IS)
            self.assume(n >= 0)
            if kind[1] is None:
                return PL(items=[])         # nothing is stored in it (checked by end_body)
            g = self.fresh_family(kind[1], name, 1)
            p = PL(n=n, get=lambda k: g([k]))
            p._ek = kind[1]
            if kind[1] in ("i", "r", "b") or (kind[1][0] == "tup" and all(k in ("i", "r", "b") for k in kind[1][1])):
                self.make_bag(p)
            return p
        if h == "heap":
            p = PL(items=[])
            self.havoc_heap(p, kind[1], name)
            return p
        if h == "na":
            _, t, nd, nan, shape, grid = kind
            shape = tuple(self.const(name + ".dim", IS) if d is None else d for d in shape)
            for d, k in zip(shape, kind[4]):
                if k is None:
                    self.assume(d >= 0)
            return self.fresh_na(name, shape, t, nan, grid)
        if h == "set":
            f = self.fn(name, [IS] * 1, BS)
            ne = self.const(name + ".ne", BS)
            x = z3.FreshConst(IS, "x")
            w = self.const(name + ".w", IS)
            self.ax([x], z3.Implies(f(x), ne), [f(x)])
            self.assume(z3.Implies(ne, f(w)))
            return PS(lambda *y: f(*y), ne)
        if h == "dict":
            d = self.fresh_dict(kind[1], name, kind[2] if len(kind) > 2 else None)
            if len(kind) > 3:
                d.kt = kind[3]
            return d
        raise Undecided(f"cannot make an arbitrary {kind}")

    def fresh_family(self, kind, name, nix):
        """function from index lists to arbitrary values of a kind"""
        vs = [z3.FreshConst(IS, "f") for _ in range(nix)]
        save = self.bound, self.guards
        self.bound, self.guards = self.bound + vs, list(self.guards)
        try:
            v = self.fresh(kind, name)
        finally:
            self.bound, self.guards = save
        if isinstance(v, (V,)):
            f = v
            return lambda ix: subst(f, list(zip(vs, [I(i) for i in ix])))
        return lambda ix: subst_deep(v, list(zip(vs, [I(i) for i in ix])))

    def fresh_dict(self, vkind, name, default=None):
        if vkind is None:
            return empty_dict(default)      # nothing is stored in it (checked by end_body)
        n = self.const(name + ".len", IS)
        at = self.fn(name + ".key", [IS], IS)
        ix = self.fn(name + ".idx", [IS], IS)
        self.assume(n >= 0)
        j, k = z3.FreshConst(IS, "j"), z3.FreshConst(IS, "k")
        self.ax([j], z3.Implies(z3.And(j >= 0, j < n), ix(at(j)) == j), [at(j)])
        self.ax([k], z3.And(ix(k) >= -1, ix(k) < n, z3.Implies(ix(k) >= 0, at(ix(k)) == k)), [ix(k)])
        g = self.fresh_family(vkind, name + ".val", 1) if vkind is not None else None
        return PD(n, lambda j: at(j), lambda k: ix(k), (lambda k: g([k])) if g else None, default)

    def havoc_heap(self, p, kinds, name):
        s = {"i": IS, "r": RS, "b": BS}
        sorts = [s[k] for k in kinds]
        c = self.fn(name + ".cnt", sorts, IS)
        n = self.const(name + ".len", IS)
        xs = [z3.FreshConst(x, "x") for x in sorts]
        self.ax(xs, z3.And(c(*xs) >= 0, c(*xs) <= n), [c(*xs)])
        self.assume(n >= 0)
        p.items, p._n, p._get = None, n, None
        p._bag = lambda *x: c(*x)
        p.hb, p.hkind = True, tuple(kinds)

    # ------------------------------------------------------------------ mutation tracking
    def on_mut(self, ref, by=None):
        if self.bound:
            raise Undecided("side effect inside a comprehension")
        i = ref.st if isinstance(ref, NA) else ref
        for L in self.loopstack:
            if by is not None and id(by) in L["pre"]:
                # an element that was read before the loop is changed: that it is written back is part of its own change
                continue
            L["muts"][id(i)] = (ref, i)
            if id(i) not in L["havocked"] and id(i) in L["pre"]:
                L["need"].append(ref)
        fr = getattr(i, "frozen", None) or getattr(ref, "frozen", None)
        if fr:
            self.check(f"{fr} is left as it was", z3.BoolVal(False), "frame")

    # ------------------------------------------------------------------ roles
    def anchored(self, frame):
        """where this function's loops and locals are in the tree the contracts were written against"""
        m = getattr(frame, "anchored", None)
        if m is None:
            if frame.fn is None:
                m = ({}, {})
            else:
                m = self.repo.anchors.map(frame.fn.qual, self.context(frame))
            frame.anchored = m
        return m

    def context(self, frame):
        """the function of the contract a helper was called from"""
        f = frame.parent
        while f is not None:
            if f.fn is not None and self.repo.anchors.back.get(f.fn.qual, f.fn.qual) in self.repo.anchors.base:
                return f.fn.qual
            f = f.parent
        return None

    def role(self, frame, name):
        f = frame
        while f is not None:
            if name in f.env and f.env[name] is not DEAD:
                return f.env[name]
            m = self.anchored(f)[1]
            if name in m and m[name] in f.env and f.env[m[name]] is not DEAD:
                return f.env[m[name]]
            f = f.parent
        raise Undecided(f"no local variable plays the role {name!r}")


def subst_deep(v, pairs):
    if isinstance(v, PS):
        return PS(lambda *y: _subz(v.has, y, pairs), z3.substitute(v.nonempty(), *pairs))
    if isinstance(v, PD):
        d = PD(z3.substitute(I(v.klen), *pairs), lambda j: _subz(v.kat, (j,), pairs), lambda k: _subz(v.kidx, (k,), pairs),
               None if v._get is None else (lambda k: _subv(v._get, k, pairs)), v.default)
        return d
    if isinstance(v, tuple):
        return tuple(subst_deep(x, pairs) for x in v)
    return subst(v, pairs)


def _subz(f, xs, pairs):
    ph = [z3.FreshConst(x.sort(), "ph") for x in xs]
    return z3.substitute(z3.substitute(f(*ph), *pairs), *list(zip(ph, xs)))


def _subv(f, k, pairs):
    ph = z3.FreshConst(IS, "ph")
    return subst_deep(subst_deep(f(ph), pairs), [(ph, k)])


def _eq(a, b):
    return VAL._eq1(a, b)


def _has_quant(f):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


# ---------------------------------------------------------------------- kinds
def kind_of(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "rn" if v != v else "r"
    if v is None:
        return "none"
    if isinstance(v, str):
        return "str:" + v
    if isinstance(v, V):
        if v.t == "r":
            return "r" if v.nan is False or z3.is_false(z3.simplify(v.nan)) else "rn"
        return v.t
    if isinstance(v, Opt):
        return ("opt", kind_of(v.val))
    if isinstance(v, tuple):
        return ("tup", tuple(kind_of(x) for x in v))
    if isinstance(v, Late):
        return ("late", kind_of(v.val))
    if isinstance(v, PL):
        if v.comp is not None:
            return ("rowv", tuple(kind_of(x) for x in v.comp), v.lo)
        if v.hb:
            return ("heap", v.hkind)
        if v.items is not None:
            k = None
            for x in v.items:
                k = elem_kind(x) if k is None else join(k, elem_kind(x))
            return ("list", k)
        if v._ek is not None:
            return ("list", v._ek)
        j = z3.FreshConst(IS, "j")
        return ("list", elem_kind(v.get(j)))
    if isinstance(v, NA):
        ix = [z3.FreshConst(IS, "j") for _ in v.shape]
        e = v.at(ix)
        nan = isinstance(e, V) and kind_of(e) == "rn"
        return ("na", v.t, len(v.shape), nan, v.shape, v.grid)
    if isinstance(v, PS):
        return ("set",)
    if isinstance(v, PD):
        if v.kt == "pair":
            return ("dict", None if v._get is None else kind_of(v.get(z3.FreshConst(IS, "k"))), v.default, "pair")
        if v._get is None:
            return ("dict", None, v.default)
        return ("dict", elem_kind(v.get(z3.FreshConst(IS, "k"))), v.default)
    if isinstance(v, Obj):
        return ("obj", v.id)
    return ("other", type(v).__name__)


def elem_kind(v):
    """kind of an element of a list: short lists of scalars are rows of a fixed length"""
    if isinstance(v, PL) and v.items and len(v.items) <= 12 and all(is_scalar(x) for x in v.items):
        return ("row", tuple(kind_of(x) for x in v.items))
    return kind_of(v)


def unrow(k):
    if isinstance(k, tuple) and k[0] in ("row", "rowv"):
        r = None
        for x in k[1]:
            r = join(r, x)
        return ("list", r)
    return k


def join(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, str) and isinstance(b, str):
        if {a, b} <= {"i", "r", "rn", "b"}:
            if "rn" in (a, b):
                return "rn"
            if "r" in (a, b):
                return "r"
            return "i"
    if "late" in (a[0], b[0]):
        return ("late", join(a[1] if a[0] == "late" else a, b[1] if b[0] == "late" else b))
    if a == "none":
        return b if isinstance(b, tuple) and b[0] == "opt" else ("opt", b)
    if b == "none":
        return join(b, a)
    if isinstance(a, tuple) and a[0] == "opt":
        return ("opt", join(a[1], b[1] if isinstance(b, tuple) and b[0] == "opt" else b))
    if isinstance(b, tuple) and b[0] == "opt":
        return join(b, a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
            return ("tup", tuple(join(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == b[0] == "row" and len(a[1]) == len(b[1]):
            return ("row", tuple(join(x, y) for x, y in zip(a[1], b[1])))
        if {a[0], b[0]} <= {"row", "rowv"} and max(len(a[1]), len(b[1])) >= 5:
            m = min(len(a[1]), len(b[1]))
            return ("rowv", tuple(join(x, y) for x, y in zip(a[1], b[1])) + a[1][m:] + b[1][m:], min(k[2] if k[0] == "rowv" else len(k[1]) for k in (a, b)))
        if {"row", "rowv"} & {a[0], b[0]} and {a[0], b[0]} <= {"row", "rowv", "list"}:
            return join(unrow(a), unrow(b))
        if a[0] == b[0] == "list":
            return ("list", join(a[1], b[1]))
        if {a[0], b[0]} == {"list", "heap"}:
            h, l = (a, b) if a[0] == "heap" else (b, a)
            return h
        if a[0] == b[0] == "dict":
            return ("dict", join(a[1], b[1]), a[2]) + (("pair",) if "pair" in (a[-1], b[-1]) else ())
        if a[0] == b[0] == "na" and a[1] == b[1] and a[2] == b[2]:
            dims = tuple(x if x is not None and y is not None and samedim(x, y) else None for x, y in zip(a[4], b[4]))
            return ("na", a[1], a[2], a[3] or b[3], dims, a[5] if a[5] is b[5] else VAL.MIXED)
        if a[0] == b[0] == "set":
            return a
    raise Undecided(f"a variable changes type in a loop: {a} and {b}")


def samedim(x, y):
    return I(x).eq(I(y)) or z3.simplify(I(x)).eq(z3.simplify(I(y)))


def leq(a, b):
    """is kind a subsumed by b"""
    try:
        j = join(a, b)
    except Undecided:
        return False
    if isinstance(j, tuple) and j[0] == "na" and isinstance(b, tuple) and b[0] == "na":
        return j[:4] == b[:4] and j[5] is b[5] and all((x is None) == (y is None) for x, y in zip(j[4], b[4]))
    return j == b
