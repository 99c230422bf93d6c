"""C23: many to many cascades"""
from ..spec import *
from .stream import SU, Links, Cascades, CASC
from .flats import geometry, nanel

FRACTION = 0.01


def mag(s):
    return If(s < 0, -s, s)


class Slopes2(Links):
    """vocabulary: the columns of the table of neighbours of a cell that flow leaves by, and their shares"""

    def words(self, E, n, m, F, data, SLP, stream):
        self.n, self.m, self.F, self.SLP, self.data, self.stream = n, m, F, SLP, data, stream
        x, k, j = ints("x", "k", "j")
        act = self.act
        DN, KEEP = E.fn("leads.down", [IS, IS], BS), E.fn("takes.part", [IS, IS], BS)
        P1, P2 = E.fn("slopes.sum", [IS, IS], RS), E.fn("shares.sum", [IS, IS], RS)
        s = lambda x, k: SLP(x, F(x, k))
        self.sl, self.DN, self.KEEP, self.P1, self.P2 = s, DN, KEEP, P1, P2
        self.T1 = T1 = lambda x: P1(x, m)
        self.T2 = T2 = lambda x: P2(x, m)
        E.ax([x, k], DN(x, k) == And(rng(x, n), rng(k, m), F(x, k) != n, data(x), data(F(x, k)), s(x, k) <= 0, act(F(x, k))), [DN(x, k)])
        E.ax([x, k], KEEP(x, k) == And(DN(x, k), T1(x) > 0, -s(x, k) / T1(x) > R(lift(FRACTION))), [KEEP(x, k)])
        for P, C in ((P1, DN), (P2, KEEP)):
            E.ax([x], P(x, 0) == 0, [P(x, 0)])
            E.ax([x, k, j], implies(j >= 0, k == j + 1, P(x, k) == P(x, j) + If(C(x, j), -s(x, j), z3.RealVal(0))), [[P(x, k), P(x, j)]])

    def facts(self, E):
        """what follows from the definitions"""
        n, m, s, DN, KEEP, T1 = self.n, self.m, self.sl, self.DN, self.KEEP, self.T1
        x, k, j = ints("x", "k", "j")
        for P, C, what in ((self.P1, DN, "slopes"), (self.P2, KEEP, "shares")):
            natind_all(E, f"sums of {what} are not negative", m, [x], lambda k: P(x, k) >= 0, every=lambda k: [P(x, k)])
            natind_all(E, f"none of the {what} is above their sum", m, [x, j], lambda k: implies(rng(j, k), C(x, j), -s(x, j) <= P(x, k)), [[C(x, j)]])
        lemma(E, "a link's share is positive", forall([x, k], implies(KEEP(x, k), -s(x, k) > 0), [KEEP(x, k)]))
        lemma(E, "the shares of a cell with links have a positive sum", forall([x, k], implies(KEEP(x, k), self.T2(x) > 0), [KEEP(x, k)]))

    def links(self, U, D, P, k, G):
        """links so far: those of the cells below k"""
        BEG, LK, CO = G
        n, act, to, st = self.n, self.act, self.drains(), self.stream
        j, x, c, i = ints("j", "x", "c", "i")
        m = I(U.n)
        u, d = lst(U), lst(D)
        p = (lambda j: z3.RealVal(1)) if P.is_empty() else (lambda j: R(P.get(j)))
        col = lambda j: CO(u(j), d(j))
        land = lambda x: And(act(x), Not(st(x)))
        each = lambda *f: forall([j], implies(rng(j, m), *f), [u(j), d(j)])
        return [("three lists of one length", And(I(D.n) == m, I(P.n) == m)),
                ("links leave active cells", each(And(rng(u(j), k), act(u(j))))),
                ("links lead to active cells", each(And(rng(d(j), n), act(d(j))))),
                ("the links of a cell begin where those of the cells before end", And(BEG(0) == 0, BEG(k) == m)),
                ("a link is among those of its cell", each(And(BEG(u(j)) <= j, j < BEG(u(j) + 1)))),
                ("the links of a cell leave it", forall([x, j], implies(rng(x, k), BEG(x) <= j, j < BEG(x + 1), And(rng(j, m), u(j) == x)), [[BEG(x), u(j)], [BEG(x), d(j)]])),
                ("blocks of links are in order", forall([x], implies(rng(x, k), And(BEG(x) >= 0, BEG(x) <= BEG(x + 1), BEG(x + 1) <= m)), [BEG(x)])),
                ("an active stream cell has one link", forall([x], implies(rng(x, k), act(x), st(x), BEG(x + 1) == BEG(x) + 1), [BEG(x)])),
                ("a stream cell sends everything to where it drains", each(implies(st(u(j)), And(d(j) == to(u(j)), p(j) == 1)))),
                ("a landscape link follows a slope that takes part", each(implies(Not(st(u(j))), And(self.KEEP(u(j), col(j)), self.F(u(j), col(j)) == d(j))))),
                ("its fraction is the slope's share", each(implies(Not(st(u(j))), p(j) == -self.sl(u(j), col(j)) / self.T2(u(j))))),
                ("every slope that takes part has a link", forall([x, c], implies(rng(x, k), land(x), self.KEEP(x, c), And(BEG(x) <= LK(x, c), LK(x, c) < BEG(x + 1), d(LK(x, c)) == self.F(x, c))), [self.KEEP(x, c)])),
                ("a landscape cell's links are in the order of the table", forall([i, j], implies(i >= 0, i < j, j < m, u(i) == u(j), Not(st(u(j))), col(i) < col(j)), [[d(i), d(j)]]))]


    def adds_up(self, E):
        """the fractions of a cell with links add up to 1"""
        RS_ = E.fn("fractions.sum", [IS, IS], RS)
        x, k, j, c = ints("x", "k", "j", "c")
        T2, P2, m = self.T2, self.P2, self.m
        E.ax([x], RS_(x, 0) == 0, [RS_(x, 0)])
        E.ax([x, k, j], implies(j >= 0, k == j + 1, RS_(x, k) == RS_(x, j) + If(self.KEEP(x, j), -self.sl(x, j) / T2(x), z3.RealVal(0))), [[RS_(x, k), RS_(x, j)]])
        natind_all(E, "fractions so far are shares so far of the total", m, [x], lambda k: implies(T2(x) > 0, RS_(x, k) == P2(x, k) / T2(x)), every=lambda k: [RS_(x, k)])
        E.check("the fractions of a cell with links add up to 1", forall([x, c], implies(self.KEEP(x, c), RS_(x, m) == 1)), "post")


def table(E, n, m, F):
    """the table of neighbours: each neighbour once, then the fill"""
    CO = E.fn("column.of.neighbour", [IS, IS], IS)
    x, y, k = ints("x", "y", "k")
    E.ax([x, k], implies(rng(x, n), rng(k, m), And(F(x, k) >= 0, F(x, k) <= n)), [F(x, k)])
    E.ax([x, k], implies(rng(x, n), rng(k, m), F(x, k) != n, And(CO(x, F(x, k)) == k, ADJ(x, F(x, k)))), [F(x, k)])
    E.ax([x, y], implies(ADJ(x, y), And(rng(x, n), rng(y, n), x != y, rng(CO(x, y), m), F(x, CO(x, y)) == y)), [ADJ(x, y)])
    return CO


def router(E, n, o=None):
    """a FlowDirections object that has calculated directions"""
    m = size(E, "most_neighbours")
    fn = freeze(E.fresh_na("fneighbors", (n, m), "i"), "the table of neighbours")
    dem = na(E, "dem", n + 1, "r", nan=True, frozen="the elevations")
    xc, yc = [na(E, a, n + 1, "r", frozen="the centres") for a in ("xc", "yc")]
    F = lambda x, k: lift(fn.at([x, k])).e
    x, y = ints("x", "y")
    E.ax([x, y], implies(ADJ(x, y), Or(el(xc, y) != el(xc, x), el(yc, y) != el(yc, x))), [ADJ(x, y)])
    E.notes.add("the centres of neighbouring cells differ")
    thr = E.const("threshold", RS)
    fa = Obj("FlowDirections", dict(_fneighbors=fn, _dem=dem, _xcenters=xc, _ycenters=yc, _threshold=V("r", thr), _fillidx=V("i", n)))
    SLP = geometry(E, dem.snapshot(), xc.snapshot(), yc.snapshot(), thr)
    return fa, m, F, (lambda x: Not(nanel(dem, x))), SLP


def sum_of(E, what, n1, pos, total, C, val, PS, m):
    """the sum over the n1 entries at the columns pos(0) < pos(1) < ... is that over the columns satisfying C"""
    cnt, g, s = total
    i, j, k = ints("i", "j", "k")
    rk = E.fn("entry.of", [IS], IS)
    g_ = lambda i: R(g(i))
    E.ax([i], implies(rng(i, n1), And(rng(rk(pos(i)), n1), pos(rk(pos(i))) == pos(i))), [pos(i)])
    lemma(E, f"{what}: one summand per entry", And(I(cnt) == n1, n1 >= 0))
    lemma(E, f"{what}: the entries satisfy the condition", forall(i, implies(rng(i, n1), And(rng(pos(i), m), C(pos(i)))), [pos(i)]))
    lemma(E, f"{what}: the summand is that of the column", forall(i, implies(rng(i, n1), g_(i) == val(pos(i))), [pos(i)]))
    lemma(E, f"{what}: entries are in order", forall([i, j], implies(i >= 0, i < j, j < n1, pos(i) < pos(j)), [[pos(i), pos(j)]]))
    there = lambda k: implies(rng(k, m), C(k), val(k) != 0, And(rng(rk(k), n1), pos(rk(k)) == k))
    lemma(E, f"{what}: every column that counts has an entry", forall(k, there(k), [C(k)]))
    at = lambda i, k: implies(i >= 0, i <= n1, implies(i > 0, pos(i - 1) < k), implies(i < n1, pos(i) >= k), s(i) == PS(k))
    E.check(f"lemma: {what}: sums agree (start)", forall(i, at(i, z3.IntVal(0))), "lemma")
    unfold = lambda i: implies(i >= 1, i <= n1, s(i) == s(i - 1) + g_(i - 1))
    E.check(f"lemma: {what}: sums agree (induction step)",
            forall([i, k], implies(k >= 1, k <= m, unfold(i), there(k - 1), at(i, k - 1), at(i - 1, k - 1), at(i, k))), "lemma")
    E.assume(at(n1, m))
    lemma(E, f"{what}: the sum is that over the columns", s(n1) == PS(m))
    return rk


class ManyToMany(Slopes2, Spec):
    """C23"""
    qual = SU + "PrmsStreams._build_many_to_many_cascades"
    boundary = False

    def setup(self, E):
        n = self.n = size(E)
        tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        x, = ints("x")
        E.ax([x], implies(rng(x, n), And(el(f, x) >= -2, el(f, x) < n)), [el(f, x)])
        self.basin(E, n, tok)
        st = na(E, "streams", n, "i", frozen="the stream array")
        fa, m, F, data, SLP = router(E, n)
        self.CO = table(E, n, m, F)
        self.words(E, n, m, F, data, SLP, lambda x: el(st, x) > 0)
        self.facts(E)
        o = Obj("PrmsStreams", dict(_fdir=f, _faobj=fa))
        return [o], dict(stream_array=st, **({"basin_boundary": self.bb} if self.boundary else {}))

    def make_loops(self):
        sp = self

        class Cells(GLoop):
            ghosts = {"BEG": ([IS], IS), "LK": ([IS, IS], IS)}

            def ghost_init(self, E, S):
                BEG = E.ghost["BEG"] = E.fn("links.before", [IS], IS)
                E.ghost["LK"] = E.fn("link.at", [IS, IS], IS)
                E.assume(BEG(0) == 0)

            def ghost_pre(self, E, S):
                E.ghost["sums"] = []
                return E.ghost["BEG"], E.ghost["LK"], I(S["hru_up_id"].n), S.k

            def ghost_step(self, E, S, pre):
                BEG, LK, m0, k = pre
                U, D = S["hru_up_id"], S["hru_down_id"]
                m1 = I(U.n)
                d = lst(D)
                n3 = m1 - m0
                E.ghost["BEG"] = lambda x: If(x <= k, BEG(x), m1)
                sums = E.ghost.get("sums", [])
                if len(sums) < 2:
                    E.ghost["LK"] = LK
                    return
                L = S["flow_to"]
                if not isinstance(L, PL):
                    raise Undecided("the columns flow leaves by are not a list")
                C1, C2 = (lambda c: sp.DN(k, c)), (lambda c: sp.KEEP(k, c))
                val = lambda c: -sp.sl(k, c)
                L = L.snapshot()
                sum_of(E, "all slopes down", I(L.n), lambda i: I(L.get(i)), sums[0], C1, val, lambda c: sp.P1(k, c), sp.m)
                pos = lambda i: sp.CO(k, d(m0 + i))
                r = sum_of(E, "slopes that take part", n3, pos, sums[-1], C2, val, lambda c: sp.P2(k, c), sp.m)
                E.ghost["LK"] = lambda x, c: If(x == k, m0 + r(c), LK(x, c))

            def inv(self, S):
                return sp.links(S["hru_up_id"], S["hru_down_id"], S["hru_pct_up"], S.k, (S.g["BEG"], S.g["LK"], sp.CO))
        return {"0": Cells()}

    def post(self, E, r):
        ok = isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, PL) for x in r)
        E.check("three lists are returned", ok, "post")
        if ok:
            for lab, f in self.links(*r, self.n, (E.ghost["BEG"], E.ghost["LK"], self.CO)):
                E.check(lab, f, "post")
            self.adds_up(E)


class ManyToManyC(Slopes2, Callee):
    def apply(self, E, env):
        o, b, st = env["self"], env["basin_boundary"], env["stream_array"]
        f, fa = o.attrs["_fdir"], o.attrs["_faobj"]
        fn, dem, xc, yc = [fa.attrs[a] for a in ("_fneighbors", "_dem", "_xcenters", "_ycenters")]
        if not (isinstance(st, NA) and len(st.shape) == 1 and st.grid is None and (b is None or isinstance(b, NA) and len(b.shape) == 1)):
            raise Undecided("_build_many_to_many_cascades: arguments outside its contract")
        n, m = I(f.shape[0]), I(fn.shape[1])
        self.f = f
        fs = fn.snapshot()
        F = lambda x, k: lift(fs.at([x, k])).e
        x, k, j = ints("x", "k", "j")
        inside = lambda *f: forall([x, k], implies(rng(x, n), rng(k, m), *f))
        self.need(E, "flow directions are cells", forall([x], implies(rng(x, n), And(el(f, x) >= -2, el(f, x) < n))))
        self.need(E, "one stream number per cell", I(st.shape[0]) == n)
        self.need(E, "one elevation and centre per cell and one for the fill", And(n >= 1, m >= 1, I(fn.shape[0]) == n, *[I(a.shape[0]) == n + 1 for a in (dem, xc, yc)], I(fa.attrs["_fillidx"]) == n))
        self.need(E, "neighbours are cells or the fill", inside(And(F(x, k) >= 0, F(x, k) <= n)))
        self.need(E, "a neighbour is listed once", forall([x, k, j], implies(rng(x, n), rng(k, m), rng(j, m), j != k, F(x, k) != n, F(x, j) != F(x, k))))
        self.need(E, "the centres of neighbours differ", inside(F(x, k) != n, Or(el(xc, F(x, k)) != el(xc, x), el(yc, F(x, k)) != el(yc, x))))
        s = None
        if b is not None:
            self.need(E, "the boundary has one element per cell", I(b.shape[0]) == n)
            s = b.snapshot()
        self.act = (lambda x: z3.BoolVal(True)) if s is None else (lambda x: el(s, x) != 0)
        ss, dm = st.snapshot(), dem.snapshot()
        self.words(E, n, m, F, lambda x: Not(nanel(dm, x)), geometry(E, dm, xc.snapshot(), yc.snapshot(), R(fa.attrs["_threshold"])), lambda x: el(ss, x) > 0)
        CO = E.fn("column.of.neighbour", [IS, IS], IS)
        E.ax([x, k], implies(rng(x, n), rng(k, m), F(x, k) != n, CO(x, F(x, k)) == k), [F(x, k)])
        U, D, P = (E.fresh(("list", t), w) for t, w in (("i", "up"), ("i", "down"), ("r", "part")))
        G = E.fn("links.before", [IS], IS), E.fn("link.at", [IS, IS], IS), CO
        for lab, g in self.links(U, D, P, n, G):
            E.assume(g)
        E.ghost["m2m"] = self, G
        return U, D, P


class Cascades2(Cascades):
    """C23: the links of get_cascades, many to many"""

    def setup(self, E):
        args, kw = super().setup(E)
        n = self.n
        fa, m, F, data, SLP = router(E, n)
        self.CO = table(E, n, m, F)
        self.o.attrs["_faobj"] = fa
        self.net = n, m, F, data, SLP
        kw["many2many"] = True
        return args, kw

    def post(self, E, r):
        ok = isinstance(r, tuple) and len(r) == 4 and all(isinstance(x, NA) and len(x.shape) == 1 for x in r)
        E.check("four flat arrays are returned", ok, "post")
        if not ok:
            return
        E.check("the links are the many to many ones", "m2m" in E.ghost, "post")
        if "m2m" not in E.ghost:
            return
        U, D, P, S = r
        n = self.n
        j, x = ints("j", "x")
        m = I(U.shape[0])
        sa = self.numbers(E)
        self.numbering(E)
        E.check("four arrays of one length", And(I(D.shape[0]) == m, I(P.shape[0]) == m, I(S.shape[0]) == m), "post")
        w, (BEG, LK, _) = E.ghost["m2m"]
        E.check("stream cells are those of the numbered stream array", forall([x], implies(rng(x, n), w.stream(x) == (el(sa, x) > 0))), "post")
        k, = ints("k")
        N, M, F, data, SLP = self.net
        every = lambda f: forall([x], implies(rng(x, n), f))
        E.check("the links are those within the basin boundary given", every(w.act(x) == self.act(x)), "post")
        E.check("the links follow the flow directions", every(w.drains()(x) == self.drains()(x)), "post")
        E.check("the links follow the slopes of the grid and its elevations", And(w.n == N, w.m == M, every(w.data(x) == data(x)),
                forall([x, k], implies(rng(x, n), rng(k, M), And(w.F(x, k) == F(x, k), w.SLP(x, F(x, k)) == SLP(x, F(x, k)))))), "post")
        u, d = (PL(n=m, get=lambda j, a=a: V("i", el(a, I(j)) - 1)) for a in (U, D))
        p = PL(n=m, get=lambda j: lift(P.at([I(j)])))
        for lab, f in w.links(u, d, p, n, (BEG, LK, self.CO)):
            E.check(lab, f, "post")
        E.check("fractions are numbers", forall([j], implies(rng(j, m), Not(nanel(P, j)))), "post")
        E.check("the segment is that of the receiving cell", forall([j], implies(rng(j, m), el(S, j) == el(sa, el(D, j) - 1))), "post")


SPECS = [ManyToMany(case="no boundary"), ManyToMany(case="boundary", boundary=True)]
SPECS += [Cascades2(**{**k, "case": "many to many, " + k["case"]}) for k in CASC]
CALLEES = {SU + "PrmsStreams._build_many_to_many_cascades": ManyToManyC(SU + "PrmsStreams._build_many_to_many_cascades")}
