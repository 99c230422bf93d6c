"""Contracts: base classes and the vocabulary they share."""
import z3
from .values import *
from .engine import *
from . import ops
from .ops import NoInv, Tok, Builtin, KwDict


def ints(*names):
    return [z3.FreshConst(IS, n) for n in names]


def forall(vs, body, pats=()):
    vs = list(vs) if isinstance(vs, (list, tuple)) else [vs]
    if not vs:
        return body
    pp = mkpats(vs, pats)
    return z3.ForAll(vs, body, patterns=pp) if pp else z3.ForAll(vs, body)


def exists(vs, body):
    return z3.Exists(list(vs) if isinstance(vs, (list, tuple)) else [vs], body)


def implies(*xs):
    *h, g = xs
    return z3.Implies(z3.And(*h) if len(h) > 1 else h[0], g)


And, Or, Not, If = z3.And, z3.Or, z3.Not, z3.If


def rng(i, n):
    n = I(n)
    return z3.And(i >= 0, i < n)


class Loop(NoInv):
    """loop contract: inv(S) -> [(label, formula)]; ghosts live in E.ghost"""

    def __init__(self, inv=None, **kw):
        if inv is not None:
            self.inv = inv
        for k, v in kw.items():
            setattr(self, k, v)


class Spec:
    qual = None           # module.func or module.Class.method
    case = None
    may_raise = ()
    may_raise_any = False
    loops = {}            # "lid" (own function) or "qual:lid" -> Loop
    hints = {}
    inline = False

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        self.name = self.qual + (f"[{self.case}]" if self.case else "")
        self.loops = self.make_loops()

    def make_loops(self):
        return {}

    def loop(self, E, frame, lid):
        q = frame.fn.qual if frame.fn else "?"
        for home, l in E.anchored(frame)[0].values():
            if l == lid:
                q = home
        return self.loops.get(f"{q}:{lid}") or (self.loops.get(lid) if q == self.resolved(E) else None)

    def resolved(self, E):
        """name of the function under contract in the tree the contract was written against"""
        f = E.repo.fn(self.qual)
        return E.repo.anchors.back.get(f.qual, f.qual) if f else None

    def hint(self, E, frame, name):
        for o, n in E.anchored(frame)[1].items():
            if n == name:
                name = o
        return self.hints.get(name)

    late = ()

    def is_late(self, E, frame, name):
        """a variable that a loop sets for the first time and that is used after it"""
        for o, n in E.anchored(frame)[1].items():
            if n == name:
                name = o
        return name in self.late

    def setup(self, E):
        raise NotImplementedError

    def call(self, E, args, kw):
        f = E.repo.fn(self.qual)
        if f is None:
            raise Undecided(f"{self.qual} does not exist")
        return E.inline(f, args, kw)

    def post(self, E, r):
        pass


# ---------------------------------------------------------------- symbolic inputs
def freeze(x, what):
    t = x.st if isinstance(x, NA) else x
    t.frozen = what
    return x


def na(E, name, n, t, nan=False, grid=None, frozen=None):
    x = E.fresh_na(name, (n,), t, nan, grid)
    x.tag = name
    if frozen:
        freeze(x, frozen)
    return x


def size(E, name="n", least=1):
    n = E.int(name)
    E.assume(n >= least)
    return n


def el(x, i):
    """integer/real term of element i"""
    return lift(x.at([i])).e


def nanel(x, i):
    v = lift(x.at([i]))
    return B(v.nan) if v.nan is not False else z3.BoolVal(False)


ADJ = z3.Function("adjacent", IS, IS, BS)


def nbr_dict(E, n, name="neighbors"):
    """the queen neighbour dictionary of a grid with n cells: flopy's trusted contract.
    keys 0..n-1 in order; value lists hold each cell sharing a vertex exactly once, never the cell itself"""
    c, x, k = z3.FreshConst(IS, "c"), z3.FreshConst(IS, "x"), z3.FreshConst(IS, "k")
    ln = z3.Function(fresh_name("nbr.len"), IS, IS)
    at = z3.Function(fresh_name("nbr.at"), IS, IS, IS)
    ps = z3.Function(fresh_name("nbr.pos"), IS, IS, IS)
    E.ax([c], implies(rng(c, n), ln(c) >= 0), [ln(c)])
    E.ax([c, x], implies(ADJ(c, x), And(rng(c, n), rng(x, n), c != x, ADJ(x, c))), [ADJ(c, x)])
    E.ax([c, k], implies(rng(c, n), rng(k, ln(c)), And(ADJ(c, at(c, k)), ps(c, at(c, k)) == k)), [at(c, k)])
    E.ax([c, x], implies(ADJ(c, x), And(rng(ps(c, x), ln(c)), at(c, ps(c, x)) == x)), [ADJ(c, x)])
    E.ax([c, x], implies(ADJ(c, x), And(rng(ps(c, x), ln(c)), at(c, ps(c, x)) == x)), [ps(c, x)])

    def get(k):
        p = PL(n=ln(k), get=lambda j: V("i", at(k, I(j))))
        p._ek = "i"
        p._bag = lambda y: z3.If(ADJ(k, y), z3.IntVal(1), z3.IntVal(0))
        p._pos = lambda y: ps(k, y)
        return p
    d = PD(n, lambda j: j, lambda y: z3.If(rng(y, n), y, z3.IntVal(-1)), get)
    d.tag = name
    return d


def grid(E, n, kind="any", **attrs):
    """model of a flopy grid.  neighbors() is only known when it is the freshly computed queen relation"""
    g = Obj("Grid")

    def neighbors(E, node=None, **kw):
        m = kw.get("method", "rook")
        ok = m == "queen" and kw.get("reset", False) is True
        if node is not None:
            raise Undecided("neighbors of one node")
        E.trusted.add("flopy Grid.neighbors(method='queen', reset=True) is the symmetric shared-vertex relation")
        if not ok:
            # the result depends on what the grid cached before: nothing is known about it
            d = E.fresh_dict(("list", "i"), "cached_neighbors")
            return d
        return nbr_dict(E, n)
    g.ncells = n
    g.attrs["neighbors"] = Builtin(neighbors, "neighbors")
    g.attrs.update(attrs)
    return g


# ---------------------------------------------------------------- ghosts and lemmas
class GLoop(Loop):
    """loop with ghost functions: ghosts = {name: (argument sorts, sort)}"""
    ghosts = {}

    def ghost_havoc(self, E):
        for name, (a, s) in self.ghosts.items():
            E.ghost[name] = E.fn(name, a, s) if a else E.const(name, s)


def induct(E, label, vs, measure, P, pats=()):
    """prove forall vs. P(vs) by strong induction on an integer measure, then use it"""
    ws = [z3.FreshConst(v.sort(), "ih") for v in vs]
    ih = forall(ws, implies(measure(*ws) >= 0, measure(*ws) < measure(*vs), P(*ws)), [p(*ws) for p in pats])
    E.check(f"lemma: {label} (induction step)", forall(vs, implies(ih, P(*vs))), "lemma")
    E.ax(vs, P(*vs), [p(*vs) for p in pats])


def lemma(E, label, f, kind="lemma"):
    """prove and use"""
    E.check(f"lemma: {label}", f, kind)
    E.assume(f)


def hint(E, label, f):
    """a lemma used where it holds (the code may come by it in another order): nothing is claimed where it does not"""
    if E.proves(f):
        lemma(E, label, f)


def counts(C, n, pred):
    """C(k) is the number of indices below k that satisfy pred (definition by recursion)"""
    k, m = ints("k", "m")
    return And(C(z3.IntVal(0)) == 0,
               forall([k, m], implies(m >= 0, k == m + 1, k <= n, C(k) == C(m) + If(pred(m), 1, 0)), [[C(k), C(m)]]))


def natind(E, label, n, P):
    """induction over 0..n; the result is used for n only"""
    k, = ints("k")
    E.check(f"lemma: {label} (start)", P(z3.IntVal(0)), "lemma")
    E.check(f"lemma: {label} (induction step)", forall([k], implies(k >= 1, k <= n, P(k - 1), P(k))), "lemma")
    E.assume(P(n))


def natind_all(E, label, n, vs, P, pats=(), every=None):
    """induction over 0..n for arbitrary fixed vs; the result is used for n only, or for all k with patterns every(k)"""
    k, = ints("k")
    E.check(f"lemma: {label} (start)", forall(vs, P(z3.IntVal(0))), "lemma")
    E.check(f"lemma: {label} (induction step)", forall(list(vs) + [k], implies(k >= 1, k <= n, P(k - 1), P(k))), "lemma")
    if every is not None:
        E.ax(list(vs) + [k], implies(k >= 0, k <= n, P(k)), every(k))
    else:
        E.ax(vs, P(n), pats)


class Callee:
    """a contract used at call sites: requires are checked, ensures are assumed about a fresh result"""

    def __init__(self, qual):
        self.qual = qual

    def apply(self, E, env):
        raise NotImplementedError

    def need(self, E, label, f):
        E.check(f"precondition of {self.qual}: {label}", f, "requires")


NONE = z3.Function("no.element", IS, IS)


def lst(p):
    """element function of a list of integers"""
    if p.is_empty():
        return lambda j: NONE(j)
    s = p.snapshot()
    return lambda j: I(s.get(j))


def keypos(it):
    """position function of the keys a loop over a dictionary (plain or sorted, keys or items) runs through"""
    d = getattr(it, "d", None)
    if d is not None:
        return d.snapshot().kidx
    if isinstance(it.src, PL):
        k = getattr(it.src, "keys", None)
        k = it.src if k is None else k
        if getattr(k, "_pos", None) is not None:
            return k._pos
    raise Undecided("the loop does not run over the keys of a dictionary")


def pigeonhole(E, label, m, n, g):
    """an injective map from 0..m-1 into 0..n-1 shows m <= n (the finite pigeonhole principle, used as a rule)"""
    i, j = ints("i", "j")
    E.notes.add("the finite pigeonhole principle is used as a proof rule")
    E.check(f"lemma: {label} (the map stays inside)", forall([i], implies(rng(i, m), rng(g(i), n))), "lemma")
    E.check(f"lemma: {label} (the map is injective)", forall([i, j], implies(rng(i, m), rng(j, m), g(i) == g(j), i == j)), "lemma")
    E.assume(I(m) <= If(I(n) >= 0, I(n), 0))


def locator(E, kind, n):
    """flopy's point location: the grid object and the cell holding a point"""
    E.trusted.add("flopy Grid.intersect returns the cell that holds the point, get_node numbers (layer, row, column)")
    g = Obj("Grid", dict(grid_type=kind))
    X = z3.Function("cell.at", RS, RS, IS)
    ROW, COL, NODE = z3.Function("row.at", RS, RS, IS), z3.Function("col.at", RS, RS, IS), z3.Function("node", IS, IS, IS)

    def cell(x, y):
        x, y = R(x), R(y)
        return X(x, y) if kind != "structured" else NODE(ROW(x, y), COL(x, y))

    def intersect(E, x, y):
        E.assume(rng(cell(x, y), n))
        if kind == "structured":
            return (V("i", ROW(R(x), R(y))), V("i", COL(R(x), R(y))))
        return V("i", X(R(x), R(y)))

    def get_node(E, l):
        l = ops.tolist(E, l)
        if l.items is None or not all(isinstance(t, tuple) and len(t) == 3 for t in l.items):
            raise Undecided("get_node")
        for t in l.items:
            E.check("the cell is looked up in the top layer", I(t[0]) == 0, "requires")
        return PL(items=[V("i", NODE(I(t[1]), I(t[2]))) for t in l.items])
    g.attrs["intersect"] = Builtin(intersect, "intersect")
    g.attrs["get_node"] = Builtin(get_node, "get_node")
    g.cell = cell
    return g
