"""Contracts of dem_conditioning."""
from ..spec import *

# a competitor surface: any elevation S_ that is nowhere below the DEM and on whose domain D_ every cell outside the seeds has a
# neighbour Q_ (one step nearer to a seed, measured by RK_) that is not higher
S_ = z3.Function("competitor", IS, RS)
D_ = z3.Function("competitor.domain", IS, BS)
Q_ = z3.Function("competitor.next", IS, IS)
RK_ = z3.Function("competitor.rank", IS, IS)


def competitor(E, n, dem, seed):
    """assume: any surface that drains on its domain"""
    x, = ints("x")
    E.ax([x], implies(D_(x), And(rng(x, n), S_(x) >= dem(x), RK_(x) >= 0,
                                 Or(seed(x), And(D_(Q_(x)), ADJ(x, Q_(x)), RK_(Q_(x)) < RK_(x), S_(Q_(x)) <= S_(x))))), [D_(x)])


class Flood(Spec):
    """_priority_flood from a list of seed cells"""
    qual = "dem_conditioning._priority_flood"
    t = "r"

    def make_loops(self):
        sp = self

        def seeding(S):
            nd, op, seed = S["newdem"], S["open"], sp.seed
            e = z3.FreshConst(RS, "e")
            x, j = ints("x", "j")
            return [("queue entries are seeds at their elevation",
                     forall([e, x], implies(op.cnt(e, x) >= 1, And(sp.isseed(x), e == el(nd, x))), [op.cnt(e, x)])),
                    ("every seed so far is queued",
                     forall([j], implies(j >= 0, j < S.k, op.cnt(el(nd, I(seed.get(j))), I(seed.get(j))) >= 1), [I(seed.get(j))]))]

        def common(S, cur=None):
            E, g, n, eps = S.E, S.E.ghost, sp.n, sp.eps
            nd_, cl_, op, pit = S["newdem"], S["closed"], S["open"], S["pit"]
            nd, cl = (lambda x: el(nd_, x)), (lambda x: el(cl_, x))
            par, tm, ex, L, clock = g["par"], g["tm"], g["ex"], g["L"], g["clock"]
            x, y = ints("x", "y")
            e = z3.FreshConst(RS, "e")
            out = [
                ("no cell is lowered", forall(x, implies(rng(x, n), nd(x) >= sp.dem0(x)), [nd(x)])),
                ("open cells keep their elevation", forall(x, implies(rng(x, n), Not(cl(x)), nd(x) == sp.dem0(x)), [nd(x)])),
                ("seeds are closed and keep their elevation", forall(x, implies(sp.isseed(x), And(cl(x), nd(x) == sp.dem0(x))), [cl(x)])),
                ("queue entries are closed cells at their elevation",
                 forall([e, x], implies(op.cnt(e, x) >= 1, And(rng(x, n), cl(x), e == nd(x), nd(x) == sp.dem0(x))), [op.cnt(e, x)])),
                ("pit entries are closed cells within the flood level",
                 forall([x], implies(pit.cnt(x) >= 1, And(rng(x, n), cl(x), nd(x) <= L + ex(x))), [pit.cnt(x)])),
                ("every closed cell outside the seeds has a lower closed neighbour that was closed before",
                 forall(x, implies(rng(x, n), cl(x), Not(sp.isseed(x)),
                                   And(rng(par(x), n), cl(par(x)), ADJ(x, par(x)), tm(par(x)) < tm(x), tm(par(x)) >= 0,
                                       nd(par(x)) <= nd(x), implies(eps > 0, nd(par(x)) < nd(x)),
                                       Or(nd(x) == sp.dem0(x), nd(x) <= nd(par(x)) + eps))), [par(x)])),
                ("the clock runs", clock >= 0),
                ("the open cells are counted", counts(g["U"], n, lambda x: Not(cl(x)))),
                ("closing times are in the past", forall(x, implies(rng(x, n), cl(x), And(tm(x) >= 0, tm(x) < clock)), [tm(x)])),
                ("extra height is one eps per raised cell",
                 forall(x, implies(rng(x, n), cl(x), And(ex(x) >= 0, implies(eps == 0, ex(x) == 0), Or(ex(x) == 0, And(Not(sp.isseed(x)), ex(x) == ex(par(x)) + eps)))), [ex(x)])),
                ("closed cells are at most the extra height above any draining surface",
                 forall(x, implies(D_(x), cl(x), nd(x) <= S_(x) + ex(x)), [D_(x)])),
            ]
            xc = z3.BoolVal(False) if cur is None else x == cur
            out.append(("a closed cell with an open neighbour is still queued",
                        forall([x, y], implies(ADJ(x, y), cl(x), Not(cl(y)), Or(pit.cnt(x) >= 1, op.cnt(nd(x), x) >= 1, xc)), [ADJ(x, y)])))
            lowopen = forall(x, implies(D_(x), Not(cl(x)), S_(x) >= L), [D_(x)])
            out.append(("open cells of a draining surface are not below the flood level",
                        lowopen if cur is not None else implies(I(pit.n) > 0, lowopen)))
            return out

        def inner(S):
            c, ne = I(S["c"]), S["neighs"]
            n = sp.n
            nd_, cl_ = S["newdem"], S["closed"]
            g = S.E.ghost
            j, = ints("j")
            return common(S, c) + [
                ("the current cell is closed", And(rng(c, n), el(cl_, c), el(nd_, c) <= g["L"] + g["ex"](c))),
                ("the work left shrinks", 2 * S.E.ghost["U"](sp.n) + I(S["pit"].n) + I(S["open"].n) <= S.E.ghost["work"]),
                ("the neighbours seen so far are closed", forall(j, implies(j >= 0, j < S.k, el(cl_, I(ne.get(j)))), [I(ne.get(j))])),
            ]

        gh = {"par": ([IS], IS), "tm": ([IS], IS), "ex": ([IS], RS), "L": ([], RS), "clock": ([], IS), "U": ([IS], IS)}

        class Outer(GLoop):
            ghosts = gh

            def variant(self, S):
                return (2 * S.E.ghost["U"](sp.n) + I(S["pit"].n) + I(S["open"].n),)

            def inv(self, S):
                return common(S)

            def ghost_init(self, E, S):
                E.ghost.update(par=lambda x: x, tm=lambda x: z3.IntVal(0), ex=lambda x: z3.RealVal(0), L=z3.RealVal(0), clock=z3.IntVal(1))
                E.ghost["U"] = U = E.fn("open_below", [IS], IS)
                cl = S["closed"].snapshot()
                E.assume(counts(U, sp.n, lambda x: Not(el(cl, x))))

            def ghost_pre(self, E, S):
                E.ghost["pit0"] = I(S["pit"].n)
                U = E.ghost["U"]
                natind(E, "the number of open cells is not negative", sp.n, lambda k: U(k) >= 0)

            def on_exit(self, E, S):
                cl = S["closed"].snapshot()
                E.ghost["closed"] = lambda x: el(cl, x)

        class Inner(GLoop):
            ghosts = {k: v for k, v in gh.items() if k != "L"}

            def inv(self, S):
                return inner(S)

            def ghost_init(self, E, S):
                g = E.ghost
                g["work"] = 2 * g["U"](sp.n) + I(S["pit"].n) + I(S["open"].n)
                nd, c, cl = S["newdem"].snapshot(), I(S["c"]), S["closed"].snapshot()
                g["L"] = If(g["pit0"] > 0, g["L"], el(nd, c))
                L = g["L"]
                x, = ints("x")
                induct(E, "open cells of a draining surface are not below the cell taken next", [x], RK_,
                       lambda x: implies(D_(x), Not(el(cl, x)), S_(x) >= L), [D_])

            def ghost_pre(self, E, S):
                return S["closed"].snapshot()

            def ghost_step(self, E, S, pre):
                g = E.ghost
                old = pre
                new, pit, c = S["closed"].snapshot(), S["pit"].snapshot(), I(S["c"])
                closing = lambda x: And(el(new, x), Not(el(old, x)))
                par, tm, ex, clock = g["par"], g["tm"], g["ex"], g["clock"]
                g["par"] = lambda x: If(closing(x), c, par(x))
                g["tm"] = lambda x: If(closing(x), clock, tm(x))
                g["ex"] = lambda x: If(closing(x), If(pit.cnt(x) >= 1, ex(c) + sp.eps, z3.RealVal(0)), ex(x))
                g["clock"] = clock + 1
                w, U = I(S["neighs"].get(S.k - 1)), g["U"]
                g["U"] = lambda k: U(k) - If(And(closing(w), k > w), 1, 0)
        return {"0": Loop(seeding), "1": Outer(), "1.0": Inner()}

    def setup(self, E):
        n = self.n = size(E)
        dem = na(E, "dem", n, self.t, frozen="the elevation array")
        s = dem.snapshot()
        self.dem0 = lambda x: R(s.at([x]))
        self.seed = E.fresh(("list", "i"), "seed")
        freeze(self.seed, "the list of seeds")
        self.isseed = lambda x: self.seed.cnt(x) >= 1
        x, = ints("x")
        E.ax([x], implies(self.isseed(x), rng(x, n)), [self.seed.cnt(x)])
        eps = V("r", E.const("eps", RS))
        E.assume(eps.e >= 0)
        self.eps = eps.e
        competitor(E, n, self.dem0, self.isseed)
        g = grid(E, n)
        return [g, dem], {"eps": eps, "seed": self.seed}

    def post(self, E, r):
        n, g = self.n, E.ghost
        ok = isinstance(r, NA) and r.t == "r" and len(r.shape) == 1
        E.check("the result is a flat array of elevations", ok, "post")
        if not ok:
            return
        E.check("the result has one elevation per cell", I(r.shape[0]) == n, "post")
        x, y = ints("x", "y")
        cl = g["closed"]
        induct(E, "every cell connected to a seed was visited", [x], RK_, lambda x: implies(D_(x), cl(x)), [D_])
        for lab, f in flood_ensures(n, self.dem0, lambda x: el(r, x), self.isseed, self.eps, g):
            E.check(lab, f, "post")


def flood_ensures(n, d, r, seed, eps, g):
    x, y = ints("x", "y")
    par, tm, ex, cl = g["par"], g["tm"], g["ex"], g["closed"]
    return [
        ("C01 no cell is lowered", forall(x, implies(rng(x, n), r(x) >= d(x)), [r(x)])),
        ("C01 seed cells keep their elevation", forall(x, implies(seed(x), r(x) == d(x)), [r(x)])),
        ("C02 every cell connected to a seed descends to a neighbour nearer to a seed, strictly for a positive eps",
         forall(x, implies(D_(x), Not(seed(x)),
                           And(ADJ(x, par(x)), tm(par(x)) < tm(x), tm(par(x)) >= 0, r(par(x)) <= r(x), implies(eps > 0, r(par(x)) < r(x)),
                               cl(par(x)))), [D_(x)])),
        ("C02 the same holds from there on",
         forall(x, implies(rng(x, n), cl(x), Not(seed(x)),
                           And(ADJ(x, par(x)), cl(par(x)), tm(par(x)) < tm(x), tm(par(x)) >= 0, r(par(x)) <= r(x), implies(eps > 0, r(par(x)) < r(x)))), [par(x)])),
        ("C03 a raised cell is at most eps above a neighbour",
         forall(x, implies(rng(x, n), Or(r(x) == d(x), And(ADJ(x, par(x)), r(x) <= r(par(x)) + eps))), [r(x)])),
        ("C03 no draining surface is lower by more than the extra height", forall(x, implies(D_(x), r(x) <= S_(x) + ex(x)), [D_(x)])),
        ("C03 the extra height is one eps per raised cell on the way down",
         forall(x, implies(D_(x), Or(ex(x) == 0, And(Not(seed(x)), ex(x) == ex(par(x)) + eps))), [D_(x)])),
        ("C03 there is no extra height without eps", implies(eps == 0, forall(x, implies(D_(x), r(x) <= S_(x)), [D_(x)]))),
    ]


class FloodStreams(Flood):
    """_priority_flood from the cells of a stream mask"""

    def make_loops(self):
        sp = self
        base = Flood.make_loops(self)

        def common(S, cur=None):
            E, g, n, eps = S.E, S.E.ghost, sp.n, sp.eps
            nd_, cl_, op, pit = S["newdem"], S["closed"], S["open"], S["pit"]
            nd, cl = (lambda x: el(nd_, x)), (lambda x: el(cl_, x))
            par, tm, clock = g["par"], g["tm"], g["clock"]
            x, y = ints("x", "y")
            e = z3.FreshConst(RS, "e")
            xc = lambda x: z3.BoolVal(False) if cur is None else x == cur
            return [
                ("no cell is lowered", forall(x, implies(rng(x, n), nd(x) >= sp.dem0(x)), [nd(x)])),
                ("open cells keep their elevation", forall(x, implies(rng(x, n), Not(cl(x)), nd(x) == sp.dem0(x)), [nd(x)])),
                ("stream cells are closed", forall(x, implies(sp.isseed(x), cl(x)), [cl(x)])),
                ("a stream cell is raised at most to eps above each of its stream neighbours",
                 forall([x, y], implies(sp.isseed(x), sp.isseed(y), ADJ(x, y), Or(nd(x) == sp.dem0(x), nd(x) <= nd(y) + eps)), [ADJ(x, y)])),
                ("a stream cell without stream neighbours keeps its elevation",
                 forall(x, implies(sp.isseed(x), Or(nd(x) == sp.dem0(x), And(ADJ(x, sp.snb(x)), sp.isseed(sp.snb(x))))), [sp.snb(x)])),
                ("queue entries are closed cells at their elevation, once",
                 forall([e, x], implies(op.cnt(e, x) >= 1, And(rng(x, n), cl(x), e == nd(x), op.cnt(e, x) == 1, pit.cnt(x) == 0, Not(xc(x)))),
                        [op.cnt(e, x)])),
                ("pit entries are closed cells, once",
                 forall([x], implies(pit.cnt(x) >= 1, And(rng(x, n), cl(x), Not(sp.isseed(x)), pit.cnt(x) == 1, Not(xc(x)))), [pit.cnt(x)])),
                ("every closed cell outside the streams has a lower closed neighbour that was closed before and is done with",
                 forall(x, implies(rng(x, n), cl(x), Not(sp.isseed(x)),
                                   And(rng(par(x), n), cl(par(x)), ADJ(x, par(x)), tm(par(x)) < tm(x), tm(par(x)) >= 0,
                                       nd(par(x)) <= nd(x), implies(eps > 0, nd(par(x)) < nd(x)),
                                       pit.cnt(par(x)) == 0, op.cnt(nd(par(x)), par(x)) == 0)), [par(x)])),
                ("the clock runs", clock >= 0),
                ("the open cells are counted", counts(g["U"], n, lambda x: Not(cl(x)))),
                ("closing times are in the past", forall(x, implies(rng(x, n), cl(x), And(tm(x) >= 0, tm(x) < clock)), [tm(x)])),
                ("a closed cell with an open neighbour is still queued",
                 forall([x, y], implies(ADJ(x, y), cl(x), Not(cl(y)), Or(pit.cnt(x) >= 1, op.cnt(nd(x), x) >= 1, xc(x))), [ADJ(x, y)])),
            ]

        def inner(S):
            c, ne = I(S["c"]), S["neighs"]
            j, = ints("j")
            cl_ = S["closed"]
            return common(S, c) + [
                ("the current cell is closed", And(rng(c, sp.n), el(cl_, c))),
                ("the work left shrinks", 2 * S.E.ghost["U"](sp.n) + I(S["pit"].n) + I(S["open"].n) <= S.E.ghost["work"]),
                ("the neighbours seen so far are closed", forall(j, implies(j >= 0, j < S.k, el(cl_, I(ne.get(j)))), [I(ne.get(j))])),
            ]
        gh = {"par": ([IS], IS), "tm": ([IS], IS), "clock": ([], IS), "U": ([IS], IS)}

        def seeding(S):
            op, seed = S["open"], sp.seedpl
            e = z3.FreshConst(RS, "e")
            x, j = ints("x", "j")
            out = base["0"].inv(S)
            return out + [("stream cells are queued once, in order",
                           forall([e, x], implies(op.cnt(e, x) >= 1, And(op.cnt(e, x) == 1, sp.spos(x) < S.k)), [op.cnt(e, x)]))]

        class Outer(type(base["1"])):
            ghosts = gh

            def inv(self, S):
                return common(S)

        class Inner(type(base["1.0"])):
            ghosts = gh

            def inv(self, S):
                return inner(S)

            def ghost_init(self, E, S):
                g = E.ghost
                g["work"] = 2 * g["U"](sp.n) + I(S["pit"].n) + I(S["open"].n)
        return {"0": Loop(seeding), "1": Outer(), "1.0": Inner()}

    def setup(self, E):
        args, kw = Flood.setup(self, E)
        pl = self.seed
        self.seedpl = pl
        self.spos = pl._pos
        # the stream cells are listed once each (np.where)
        j, = ints("j")
        gj = I(pl.get(j))
        E.ax([j], implies(rng(j, I(pl.n)), self.spos(gj) == j), [gj])
        self.snb = E.fn("stream.neighbour", [IS], IS)
        x, y = ints("x", "y")
        E.ax([x, y], implies(self.isseed(x), self.isseed(y), ADJ(x, y), And(ADJ(x, self.snb(x)), self.isseed(self.snb(x)))), [ADJ(x, y)])
        arr = NA((pl.n,), lambda ix: pl.get(ix[0]), "i")
        arr.lbag = pl._bag
        freeze(arr, "the stream cells")
        kw["seed"] = arr
        kw["streams"] = True
        return args, kw

    def post(self, E, r):
        n, g = self.n, E.ghost
        ok = isinstance(r, NA) and r.t == "r" and len(r.shape) == 1
        E.check("the result is a flat array of elevations", ok, "post")
        if not ok:
            return
        E.check("the result has one elevation per cell", I(r.shape[0]) == n, "post")
        x, = ints("x")
        cl = g["closed"]
        induct(E, "every cell connected to a stream was visited", [x], RK_, lambda x: implies(D_(x), cl(x)), [D_])
        for lab, f in streams_ensures(n, self.dem0, lambda x: el(r, x), self.isseed, self.eps, g, self.snb):
            E.check(lab, f, "post")


def streams_ensures(n, d, r, seed, eps, g, snb):
    x, y = ints("x", "y")
    par, tm, cl = g["par"], g["tm"], g["closed"]
    step = lambda x: And(ADJ(x, par(x)), cl(par(x)), rng(par(x), n), tm(par(x)) < tm(x), tm(par(x)) >= 0, r(par(x)) <= r(x),
                         implies(eps > 0, r(par(x)) < r(x)))
    return [
        ("C05 no cell is lowered", forall(x, implies(rng(x, n), r(x) >= d(x)), [r(x)])),
        ("C05 a stream cell is raised at most to eps above each of its stream neighbours",
         forall([x, y], implies(seed(x), seed(y), ADJ(x, y), Or(r(x) == d(x), r(x) <= r(y) + eps)), [ADJ(x, y)])),
        ("C05 a stream cell without stream neighbours keeps its elevation",
         forall(x, implies(seed(x), Or(r(x) == d(x), And(ADJ(x, snb(x)), seed(snb(x))))), [snb(x)])),
        ("C05 every cell connected to a stream descends to a neighbour nearer to a stream, strictly for a positive eps",
         forall(x, implies(D_(x), Not(seed(x)), step(x)), [D_(x)])),
        ("C05 the same holds from there on", forall(x, implies(rng(x, n), cl(x), Not(seed(x)), step(x)), [par(x)])),
        ("C05 a cell that changes is connected to a stream", forall(x, implies(rng(x, n), Or(r(x) == d(x), cl(x))), [r(x)])),
        ("C05 stream cells are connected", forall(x, implies(seed(x), cl(x)), [cl(x)])),
    ]


class Drain(Spec):
    """_flood_and_drain_fill: Planchon and Darboux"""
    qual = "dem_conditioning._flood_and_drain_fill"
    TOP = 10 ** 10
    t = "r"

    def make_loops(self):
        sp = self
        INNER = "dem_conditioning._inner_flood_and_drain_fill:0"

        def common(S, wf_):
            g, n, eps, d, seed = S.E.ghost, sp.n, sp.eps, sp.dem0, sp.isseed
            wf = lambda x: el(wf_, x)
            par, tm, clock = g["par"], g["tm"], g["clock"]
            x, = ints("x")
            return [
                ("no cell is below the input", forall(x, implies(rng(x, n), wf(x) >= d(x)), [wf(x)])),
                ("edge cells keep their elevation", forall(x, implies(seed(x), wf(x) == d(x)), [wf(x)])),
                ("every cell below the flood level is at least eps above a neighbour that got its level before",
                 forall(x, implies(rng(x, n), Not(seed(x)), wf(x) != sp.TOP,
                                   And(rng(par(x), n), ADJ(x, par(x)), wf(par(x)) + eps <= wf(x), wf(par(x)) != sp.TOP,
                                       Or(wf(par(x)) < wf(x), tm(par(x)) < tm(x)))), [par(x)])),
                ("no cell is above the flood level", forall(x, implies(rng(x, n), wf(x) <= sp.TOP), [wf(x)])),
                ("levels were set in the past", forall(x, implies(rng(x, n), And(tm(x) >= 0, tm(x) < clock)), [tm(x)])),
                ("the clock runs", clock >= 1),
            ]

        def fix(wf, c):
            y, = ints("y")
            return forall(y, implies(ADJ(c, y), Or(wf(c) <= sp.dem0(c), And(sp.dem0(c) < wf(y) + sp.eps, wf(c) <= wf(y) + sp.eps))), [ADJ(c, y)])
        gh = {"par": ([IS], IS), "tm": ([IS], IS), "clock": ([], IS)}

        class Outer(GLoop):
            ghosts = gh

            def inv(self, S):
                wf_, = [S["wf"]]
                c, = ints("c")
                m = B(S.E.truth(S["modified"]))
                return common(S, wf_) + [("a pass without a change leaves nothing to lower",
                                          implies(Not(m), forall(c, implies(rng(c, sp.n), fix(lambda x: el(wf_, x), c)))))]

            def ghost_init(self, E, S):
                E.ghost.update(par=lambda x: x, tm=lambda x: z3.IntVal(0), clock=z3.IntVal(1))

        class Inner(GLoop):
            ghosts = gh

            def ghost_init(self, E, S):
                E.ghost["wf0"] = S["wf"].snapshot()

            def inv(self, S):
                wf_, wf0 = S["wf"], S.E.ghost["wf0"]
                x, c = ints("x", "c")
                m = B(S.E.truth(S["modified"]))
                return common(S, wf_) + [("a pass without a change so far left nothing to lower",
                                          implies(Not(m), And(forall(c, implies(rng(c, S.k), fix(lambda x: el(wf_, x), c))))))]

            def ghost_pre(self, E, S):
                return S["wf"].snapshot()

            def ghost_step(self, E, S, pre):
                g = E.ghost
                old, new, c = pre, S["wf"].snapshot(), I(S["c"])
                wf = lambda x: el(new, x)
                w = E.const("lower", IS)
                y, = ints("y")
                P = lambda y: And(rng(y, sp.n), ADJ(c, y), wf(y) + sp.eps <= wf(c), wf(y) != sp.TOP)
                E.ax([y], implies(P(y), P(w)), [ADJ(c, y)])      # choice
                ch = lambda x: And(x == c, el(old, c) != wf(c))
                par, tm, clock = g["par"], g["tm"], g["clock"]
                g["par"] = lambda x: If(ch(x), w, par(x))
                g["tm"] = lambda x: If(ch(x), clock, tm(x))
                g["clock"] = clock + 1
        return {"0": Outer(), INNER: Inner()}

    def setup(self, E):
        n = self.n = size(E)
        dem = na(E, "dem", n, self.t, frozen="the elevation array")
        s = dem.snapshot()
        self.dem0 = lambda x: R(s.at([x]))
        self.seed = E.fresh(("list", "i"), "seed")
        freeze(self.seed, "the list of edge cells")
        self.isseed = lambda x: self.seed.cnt(x) >= 1
        x, = ints("x")
        E.ax([x], implies(self.isseed(x), rng(x, n)), [self.seed.cnt(x)])
        E.ax([x], implies(rng(x, n), self.dem0(x) < self.TOP), [self.dem0(x)])
        eps = V("r", E.const("eps", RS))
        E.assume(eps.e >= 0)
        self.eps = eps.e
        # a competitor that descends by eps towards the edge
        E.ax([x], implies(D_(x), And(rng(x, n), S_(x) >= self.dem0(x), RK_(x) >= 0,
                                     Or(self.isseed(x), And(D_(Q_(x)), ADJ(x, Q_(x)), RK_(Q_(x)) < RK_(x), S_(Q_(x)) + eps.e <= S_(x))))), [D_(x)])
        return [grid(E, n), dem], {"eps": eps, "seed": self.seed}

    def post(self, E, r):
        n, g = self.n, E.ghost
        ok = isinstance(r, NA) and r.t == "r" and len(r.shape) == 1
        E.check("the result is a flat array of elevations", ok, "post")
        if not ok:
            return
        E.check("the result has one elevation per cell", I(r.shape[0]) == n, "post")
        x, = ints("x")
        rr = lambda x: el(r, x)
        induct(E, "no surface that descends by eps towards the edge is lower", [x], RK_, lambda x: implies(D_(x), rr(x) <= S_(x)), [D_])
        for lab, f in drain_ensures(n, self.dem0, rr, self.isseed, self.eps, g):
            E.check(lab, f, "post")


def drain_ensures(n, d, r, seed, eps, g, TOP=10 ** 10):
    x, y = ints("x", "y")
    par, tm = g["par"], g["tm"]
    step = And(ADJ(x, par(x)), rng(par(x), n), r(par(x)) + eps <= r(x), r(par(x)) < TOP, Or(r(par(x)) < r(x), tm(par(x)) < tm(x)))
    return [
        ("C01 no cell is lowered", forall(x, implies(rng(x, n), r(x) >= d(x)), [r(x)])),
        ("C01 edge cells keep their elevation", forall(x, implies(seed(x), r(x) == d(x)), [r(x)])),
        ("C02 every cell connected to the edge below the flood level descends by eps to a neighbour below it",
         forall(x, implies(D_(x), S_(x) < TOP, Not(seed(x)), step), [D_(x)])),
        ("C02 the same holds from there on", forall(x, implies(rng(x, n), r(x) < TOP, Not(seed(x)), step), [par(x)])),
        ("C04 no surface that descends by eps towards the edge is lower", forall(x, implies(D_(x), r(x) <= S_(x)), [D_(x)])),
        ("C04 a raised cell is not more than eps above any neighbour",
         forall([x, y], implies(ADJ(x, y), Or(r(x) == d(x), r(x) <= r(y) + eps)), [ADJ(x, y)])),
        ("C04 a raised cell below the flood level is exactly eps above a neighbour",
         forall(x, implies(rng(x, n), Not(seed(x)), r(x) < TOP, Or(r(x) == d(x), And(ADJ(x, par(x)), r(x) == r(par(x)) + eps))), [par(x)])),
    ]


# cells on the grid edge: some side of the polygon belongs to no other cell
EDGE = z3.Function("edge.cell", IS, BS)
EV = z3.Function("edge.side", IS, IS)                 # a free side of an edge cell
OC = z3.Function("edge.other", IS, IS, IS)
OV = z3.Function("edge.otherside", IS, IS, IS)


class EdgeNodes(Spec):
    """_identify_edge_nodes"""
    qual = "dem_conditioning._identify_edge_nodes"

    def make_loops(self):
        sp = self
        from ..ops import key_of, PAIR

        def keyat(ge, i):
            t = ge.get(i)
            a, b = (t.items if isinstance(t, PL) else t)
            return PAIR(I(a), I(b))

        class Collect(GLoop):
            # side v of cell x is stored at position at(x, v)
            ghosts = {"at": ([IS, IS], IS), "side": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost.update(at=lambda x, v: z3.IntVal(0), side=lambda i: z3.IntVal(0))

            def inv(self, S):
                return collected(S, S.k)

            def ghost_pre(self, E, S):
                return I(S["geoms"].n)

            def ghost_step(self, E, S, pre):
                at, side, c = E.ghost["at"], E.ghost["side"], S.k - 1
                E.ghost["at"] = lambda x, v: If(x == c, pre + v, at(x, v))
                E.ghost["side"] = lambda i: If(i >= pre, i - pre, side(i))

        def collected(S, k):
            ge, nn = S["geoms"], S["node_nums"]
            at, side = S.E.ghost["at"], S.E.ghost["side"]
            x, v, i = ints("x", "v", "i")
            if ge.items == [] or nn.items == []:
                return [("nothing collected yet", k == 0)]
            N = I(ge.n)
            node = lambda i: I(nn.get(i))
            return [("one node per side", I(nn.n) == N),
                    ("every side is listed", forall([x, v], implies(rng(x, k), rng(v, sp.len(x)),
                                                                    And(rng(at(x, v), N), node(at(x, v)) == x, side(at(x, v)) == v, keyat(ge, at(x, v)) == sp.key(x, v))),
                                                    [at(x, v), sp.key(x, v)])),
                    ("only sides are listed", forall(i, implies(rng(i, N), And(rng(node(i), k), rng(side(i), sp.len(node(i))),
                                                                               keyat(ge, i) == sp.key(node(i), side(i)))), [side(i), node(i)]))]

        class Sides(Loop):
            def ghost_init(self, E, S):
                E.ghost["len0"] = I(S["geoms"].n)
                E.ghost["geoms0"] = S["geoms"].snapshot()

            def inv(self, S):
                ge = S["geoms"]
                n0, g0 = S.E.ghost["len0"], S.E.ghost["geoms0"]
                c = S.idx("0")
                i, = ints("i")
                if ge.items == []:
                    return [("nothing collected yet", And(n0 == 0, S.k == 0))]
                out = [("sides so far are listed", And(I(ge.n) == n0 + S.k,
                                                      forall(i, implies(i >= n0, i < I(ge.n), keyat(ge, i) == sp.key(c, i - n0)), [keyat(ge, i)])))]
                if g0.items is None:
                    out.append(("earlier sides stay", forall(i, implies(rng(i, n0), keyat(ge, i) == keyat(g0, i)), [keyat(ge, i)])))
                return out

        class Group(GLoop):
            ghosts = {"wit": ([IS, IS], IS), "fst": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost.update(wit=lambda k, x: z3.IntVal(-1), fst=lambda k: z3.IntVal(-1))

            def inv(self, S):
                ge, nn, d = S["geoms"], S["node_nums"], S["edges_and_nodes"]
                wit, fst = S.E.ghost["wit"], S.E.ghost["fst"]
                if d._get is None:
                    return [("nothing grouped yet", S.k == 0)]
                k, x, i = ints("k", "x", "i")
                node = lambda i: I(nn.get(i))
                has = lambda k, x: d.get(k).has(x)
                return [("every side so far is grouped", forall(i, implies(rng(i, S.k), And(d.has(keyat(ge, i)), has(keyat(ge, i), node(i)))), [keyat(ge, i)])),
                        ("groups hold only cells of their side",
                         forall([k, x], implies(d.has(k), has(k, x), And(rng(wit(k, x), S.k), keyat(ge, wit(k, x)) == k, node(wit(k, x)) == x)), [has(k, x)])),
                        ("every group belongs to a side", forall(k, implies(d.has(k), And(rng(fst(k), S.k), keyat(ge, fst(k)) == k)), [fst(k)]))]

            def ghost_step(self, E, S, pre):
                wit, fst, i = E.ghost["wit"], E.ghost["fst"], S.k - 1
                kk, c = keyat(S["geoms"], i), I(S["node_nums"].get(i))
                E.ghost["wit"] = lambda k, x: If(And(k == kk, x == c), i, wit(k, x))
                E.ghost["fst"] = lambda k: If(k == kk, i, fst(k))

        class Pick(GLoop):
            ghosts = {"grp": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost.update(grp=lambda x: z3.IntVal(-1))

            def inv(self, S):
                en, d = S["edge_nodes"], S["edges_and_nodes"]
                grp = S.E.ghost["grp"]
                if d._get is None:
                    return [("nothing grouped", S.k == 0)]
                j, x, y = ints("j", "x", "y")
                has = lambda j, x: d.get(d.kat(j)).has(x)
                return [("every picked cell is alone in a group",
                         forall([x], implies(en.has(x), And(rng(grp(x), S.k), has(grp(x), x), forall(y, implies(has(grp(x), y), y == x), [has(grp(x), y)]))), [grp(x), en.has(x)])),
                        ("every cell alone in a group is picked",
                         forall([j, x], implies(rng(j, S.k), has(j, x), Not(en.has(x)), exists(y, And(has(j, y), y != x))), [has(j, x)])),
                        ("something is picked when a cell is", And(forall(x, implies(en.has(x), en.nonempty()), [en.has(x)])))]

            def ghost_step(self, E, S, pre):
                grp, j = E.ghost["grp"], S.k - 1
                en, d = S["edge_nodes"], S["edges_and_nodes"]
                x, y = ints("x", "y")
                if d._get is None:
                    return
                g2 = E.fn("grp", [IS], IS)
                has = lambda j, x: d.get(d.kat(j)).has(x)
                alone = lambda x: And(has(j, x), forall(y, implies(has(j, y), y == x), [has(j, y)]))
                E.ax([x], implies(alone(x), g2(x) == j), [g2(x)])
                E.ax([x], implies(Not(alone(x)), g2(x) == grp(x)), [g2(x)])
                E.ghost["grp"] = g2

            def on_exit(self, E, S):
                E.ghost["count"] = I(S["geoms"].n)
                E.ghost["picked"] = S["edge_nodes"].snapshot()
                E.ghost["groups"] = S["edges_and_nodes"].snapshot()
        return {"0": Collect(), "0.0": Sides(), "1": Group(), "2": Pick()}

    def setup(self, E):
        from ..ops import PAIR
        n = self.n = size(E)
        L = z3.Function(fresh_name("iverts.len"), IS, IS)
        W = z3.Function(fresh_name("iverts"), IS, IS, IS)
        x, v, y, w = ints("x", "v", "y", "w")
        E.ax([x], implies(rng(x, n), L(x) >= 2), [L(x)])

        def poly(k):
            p = PL(n=L(k), get=lambda j: V("i", W(k, I(j))))
            p._ek = "i"
            return p
        iv = PL(n=n, get=lambda k: poly(I(k)))
        iv._ek = ("list", "i")
        freeze(iv, "the cell polygons")
        # sides of a cell (a closing vertex that repeats the first is not one) and their keys
        self.len = z3.Function("sides", IS, IS)
        self.key = z3.Function("side.key", IS, IS, IS)
        E.ax([x], self.len(x) == If(W(x, z3.IntVal(0)) == W(x, L(x) - 1), L(x) - 1, L(x)), [self.len(x)])
        at = lambda x, v: W(x, v)
        prev = lambda x, v: If(v == 0, W(x, self.len(x) - 1), W(x, v - 1))
        E.ax([x, v], self.key(x, v) == PAIR(If(prev(x, v) <= at(x, v), prev(x, v), at(x, v)), If(prev(x, v) <= at(x, v), at(x, v), prev(x, v))),
             [self.key(x, v)])
        E.ax([x], implies(EDGE(x), And(rng(x, n), rng(EV(x), self.len(x)))), [EDGE(x)])
        E.ax([x, y, w], implies(EDGE(x), rng(y, n), rng(w, self.len(y)), self.key(x, EV(x)) == self.key(y, w), y == x), [[EDGE(x), self.key(y, w)]])
        E.ax([x, v], implies(rng(x, n), rng(v, self.len(x)), Not(EDGE(x)),
                             And(rng(OC(x, v), n), OC(x, v) != x, rng(OV(x, v), self.len(OC(x, v))), self.key(OC(x, v), OV(x, v)) == self.key(x, v))), [self.key(x, v)])
        return [grid(E, n, iverts=iv)], {}

    def post(self, E, r):
        g = E.ghost
        ok = isinstance(r, PL)
        E.check("the result is a list", ok, "post")
        if not ok:
            return
        if "picked" in g and g["groups"]._get is not None:
            d, en, wit, side, at, grp = g["groups"], g["picked"], g["wit"], g["side"], g["at"], g["grp"]
            n = self.n
            x, v, k, y = ints("x", "v", "k", "y")
            has = lambda k, x: d.get(k).has(x)
            lemma(E, "every cell is in the group of each of its sides",
                  forall([x, v], implies(rng(x, n), rng(v, self.len(x)), And(d.has(self.key(x, v)), has(self.key(x, v), x), rng(at(x, v), E.ghost["count"]))), [self.key(x, v)]))
            lemma(E, "the cells of a group own its side",
                  forall([k, x], implies(d.has(k), has(k, x), And(rng(x, n), rng(side(wit(k, x)), self.len(x)), self.key(x, side(wit(k, x))) == k)), [has(k, x)]))
            lemma(E, "a picked cell owns the side of its group",
                  forall([x], implies(en.has(x), And(rng(x, n), d.has(d.kat(grp(x))), has(d.kat(grp(x)), x))), [en.has(x)]))
            K = lambda x: d.kat(grp(x))
            sd = lambda x: side(wit(K(x), x))
            lemma(E, "a picked cell that shares its side is not alone in the group", forall([x], implies(
                en.has(x), Not(EDGE(x)), And(has(K(x), OC(x, sd(x))), OC(x, sd(x)) != x)), [en.has(x)]))
            lemma(E, "a picked cell is an edge cell", forall([x], implies(en.has(x), EDGE(x)), [en.has(x)]))
            lemma(E, "an edge cell is in the group of its free side", forall([x], implies(
                EDGE(x), And(d.has(self.key(x, EV(x))), has(self.key(x, EV(x)), x))), [EDGE(x)]))
            lemma(E, "and alone there", forall([x, y], implies(
                EDGE(x), has(self.key(x, EV(x)), y), y == x), [[EDGE(x), has(self.key(x, EV(x)), y)]]))
            lemma(E, "an edge cell is picked", forall([x], implies(
                EDGE(x), rng(x, n), en.has(x)), [EDGE(x)]))
        for lab, f in edge_ensures(self.n, r):
            E.check(lab, f, "post")


def edge_ensures(n, r):
    x, i, j = ints("x", "i", "j")
    return [("C01 exactly the edge cells are listed", forall(x, (r.cnt(x) >= 1) == And(rng(x, n), EDGE(x)), [r.cnt(x)])),
            ("C01 each edge cell is listed once", forall(x, r.cnt(x) <= 1, [r.cnt(x)]))]


U_ = z3.Function("unreachable", IS, BS)


class FillNan(Spec):
    """fill_nan_values"""
    qual = "dem_conditioning.fill_nan_values"
    method = "mean"

    def make_loops(self):
        sp = self

        def inv(S):
            f_, st = S["filled_dem"], S["stack"]
            f, nan = (lambda x: el(f_, x)), (lambda x: nanel(f_, x))
            stalled = I(S["stalled"])
            n = sp.n
            x, y, j = ints("x", "y", "j")
            return [
                ("the stack holds exactly the cells without data, once each",
                 forall(x, And(st.cnt(x) <= 1, implies(rng(x, n), (st.cnt(x) == 1) == nan(x)), implies(st.cnt(x) >= 1, rng(x, n))), [st.cnt(x)])),
                ("data cells are unchanged", forall(x, implies(rng(x, n), Not(sp.nan0(x)), And(Not(nan(x)), f(x) == sp.dem0(x))), [f(x)])),
                ("filled cells are within the range of the data", forall(x, implies(rng(x, n), Not(nan(x)), And(f(x) >= sp.lo, f(x) <= sp.hi)), [f(x)])),
                ("cells without a way to data stay without data", forall(x, implies(U_(x), nan(x)), [U_(x)])),
                ("cells that stalled have no neighbour with data",
                 forall([j, y], implies(j >= 0, j < stalled, ADJ(I(st.get(j)), y), nan(y)), [ADJ(I(st.get(j)), y)])),
                ("the number of stalled cells", And(stalled >= 0, stalled <= I(st.n))),
            ]

        class L(Loop):
            def inv(self, S):
                return inv(S)

            def variant(self, S):
                n, s = I(S["stack"].n), I(S["stalled"])
                return n, n - s

            def on_exit(self, E, S):
                E.ghost["stack"] = S["stack"].snapshot()
        return {"0": L()}

    def setup(self, E):
        n = self.n = size(E)
        tok = Tok("grid", n)
        dem = na(E, "dem", n, "r", nan=True, grid=tok, frozen="the elevation array")
        self.tok = tok
        s = dem.snapshot()
        self.dem0, self.nan0 = (lambda x: el(s, x)), (lambda x: nanel(s, x))
        self.lo, self.hi = E.const("lo", RS), E.const("hi", RS)
        x, y = ints("x", "y")
        E.ax([x], implies(rng(x, n), Not(self.nan0(x)), And(self.lo <= self.dem0(x), self.dem0(x) <= self.hi)), [self.dem0(x)])
        # any set of cells without data that is closed under adjacency
        E.ax([x], implies(U_(x), And(rng(x, n), self.nan0(x))), [U_(x)])
        E.ax([x, y], implies(U_(x), ADJ(x, y), U_(y)), [ADJ(x, y)])
        # cells with a way to data: a step nearer along Q_, measured by RK_
        E.ax([x], implies(D_(x), And(rng(x, n), RK_(x) >= 0, Or(Not(self.nan0(x)), And(D_(Q_(x)), ADJ(x, Q_(x)), RK_(Q_(x)) < RK_(x))))), [D_(x)])
        return [grid(E, n), dem], {"method": self.method}

    def post(self, E, r):
        n = self.n
        ok = isinstance(r, NA) and r.t == "r" and r.grid is self.tok
        E.check("the result has the shape of the input", ok, "post")
        if not ok:
            return
        x, = ints("x")
        s = r.snapshot()
        f, nan = (lambda x: el(s, x)), (lambda x: nanel(s, x))
        st = E.ghost["stack"]
        y, = ints("y")
        lemma(E, "a cell still without data has no neighbour with data", forall([x, y], implies(ADJ(x, y), nan(x), nan(y)), [ADJ(x, y)]))
        E.check("C06 data cells are unchanged", forall(x, implies(rng(x, n), Not(self.nan0(x)), And(Not(nan(x)), f(x) == self.dem0(x)))), "post")
        E.check("C06 filled cells are within the range of the data", forall(x, implies(rng(x, n), Not(nan(x)), And(f(x) >= self.lo, f(x) <= self.hi))), "post")
        E.check("C06 cells without a way to data stay without data", forall(x, implies(U_(x), nan(x))), "post")
        induct(E, "C06 every cell with a way to data is filled", [x], RK_, lambda x: implies(D_(x), Not(nan(x))), [D_])
        E.check("C06 every cell with a way to data is filled", forall(x, implies(D_(x), Not(nan(x)))), "post")


class EdgeNodesCall(Callee):
    def apply(self, E, env):
        g = env["modelgrid"]
        n = g.ncells
        r = E.fresh(("list", "i"), "edge_nodes")
        for _, f in edge_ensures(n, r):
            E.assume(f)
        return r


class FillCall(Callee):
    """shared by the fill kernels"""

    def inputs(self, E, env):
        g, dem, seed = env["modelgrid"], env["dem"], env["seed"]
        if not isinstance(dem, NA) or len(dem.shape) != 1:
            raise Undecided("elevation argument")
        n = g.ncells
        self.need(E, "one elevation per cell", I(dem.shape[0]) == n)
        s = dem.snapshot()
        d = lambda x: R(s.at([x]))
        x, = ints("x")
        if dem.t == "r" and nanof(lift(s.at([x]))) is not False:
            self.need(E, "no elevation is NaN", forall(x, implies(rng(x, n), Not(nanel(s, x)))))
        eps = R(env["eps"])
        self.need(E, "eps is not negative", eps >= 0)
        if isinstance(seed, NA):
            seed = seed.aslist()
        if not isinstance(seed, PL):
            raise Undecided("seed argument")
        seed = seed.snapshot()
        isseed = lambda x: seed.cnt(x) >= 1
        self.need(E, "seeds are cells", forall(x, implies(isseed(x), rng(x, n))))
        return n, d, eps, seed, isseed

    def competitor(self, E, n, d, isseed, step):
        x, = ints("x")
        self.need(E, "the competing surface drains to the seeds", forall(x, implies(
            D_(x), And(rng(x, n), S_(x) >= d(x), RK_(x) >= 0,
                       Or(isseed(x), And(D_(Q_(x)), ADJ(x, Q_(x)), RK_(Q_(x)) < RK_(x), S_(Q_(x)) + step <= S_(x))))), [D_(x)]))

    def result(self, E, n, ghosts):
        for name, (a, s) in ghosts.items():
            E.ghost[name] = E.fn(name, a, s)
        r = E.fresh_na("filled", (n,), "r")
        return r


class FloodCall(FillCall):
    def apply(self, E, env):
        n, d, eps, seed, isseed = self.inputs(E, env)
        streams = E.branch(E.truth(env["streams"]))
        self.competitor(E, n, d, isseed, 0)
        g = {"par": ([IS], IS), "tm": ([IS], IS), "closed": ([IS], BS)}
        if streams:
            x, y = ints("x", "y")
            self.need(E, "stream cells are listed once each", forall(x, seed.cnt(x) <= 1))
            snb = E.fn("stream.neighbour", [IS], IS)
            E.ax([x, y], implies(isseed(x), isseed(y), ADJ(x, y), And(ADJ(x, snb(x)), isseed(snb(x)))), [ADJ(x, y)])
            E.ghost["snb"] = snb
            r = self.result(E, n, g)
            fs = streams_ensures(n, d, lambda x: el(r, x), isseed, eps, E.ghost, snb)
        else:
            r = self.result(E, n, dict(g, ex=([IS], RS)))
            fs = flood_ensures(n, d, lambda x: el(r, x), isseed, eps, E.ghost)
        for _, f in fs:
            E.assume(f)
        return r


class DrainCall(FillCall):
    def apply(self, E, env):
        n, d, eps, seed, isseed = self.inputs(E, env)
        x, = ints("x")
        self.need(E, "elevations are below 1e10", forall(x, implies(rng(x, n), d(x) < Drain.TOP)))
        self.competitor(E, n, d, isseed, eps)
        r = self.result(E, n, {"par": ([IS], IS), "tm": ([IS], IS)})
        for _, f in drain_ensures(n, d, lambda x: el(r, x), isseed, eps, E.ghost):
            E.assume(f)
        return r


class FillSinks(Spec):
    """fill_sinks on top of the contracts of the kernels"""
    qual = "dem_conditioning.fill_sinks"
    method, mask, t = "priority", False, "r"

    def setup(self, E):
        n = self.n = size(E)
        self.tok = Tok("grid", n)
        self.dem = dem = na(E, "dem", n, self.t, grid=self.tok, frozen="the elevation array")
        s = dem.snapshot()
        self.d = d = lambda x: R(s.at([x]))
        x, = ints("x")
        eps = V("r", E.const("eps", RS))
        E.assume(eps.e >= 0)
        self.eps = eps.e if self.method != "complete" else z3.RealVal(0)
        E.ax([x], implies(EDGE(x), rng(x, n)), [EDGE(x)])
        kw = {"eps": eps, "method": self.method}
        self.drain = self.method == "drain" and not self.mask
        if self.drain:
            E.ax([x], implies(rng(x, n), d(x) < Drain.TOP), [d(x)])
        if self.mask:
            m = na(E, "stream_mask", n, "i", grid=self.tok, frozen="the stream mask")
            ms = m.snapshot()
            self.seed = lambda x: And(rng(x, n), el(ms, x) > 0)
            kw["stream_mask"] = m
        else:
            self.seed = lambda x: EDGE(x)
        E.ax([x], implies(D_(x), And(rng(x, n), S_(x) >= d(x), RK_(x) >= 0,
                                     Or(self.seed(x), And(D_(Q_(x)), ADJ(x, Q_(x)), RK_(Q_(x)) < RK_(x),
                                                          S_(Q_(x)) + (self.eps if self.drain else 0) <= S_(x))))), [D_(x)])
        return [grid(E, n), dem], kw

    def post(self, E, r):
        n, g = self.n, E.ghost
        ok = isinstance(r, NA) and r.t == "r" and r.grid is self.tok
        E.check("C01 the result is an array of the input's shape", ok, "post")
        if not ok:
            return
        E.check("C01 the result is a new array", r.st is not self.dem.st, "post")
        rr = lambda x: el(r, x)
        if self.mask:
            fs = streams_ensures(n, self.d, rr, self.seed, self.eps, g, g["snb"])
        elif self.drain:
            fs = drain_ensures(n, self.d, rr, self.seed, self.eps, g)
        else:
            fs = flood_ensures(n, self.d, rr, self.seed, self.eps, g)
        for lab, f in fs:
            E.check(lab, f, "post")


FILLS = [FillSinks(case=f"{m}{', mask' if k else ''}{', integer' if t == 'i' else ''}", method=m, mask=k, t=t)
         for m in ("priority", "complete", "drain") for k in (False, True) for t in ("r", "i")]
CALLEES = {"dem_conditioning._identify_edge_nodes": EdgeNodesCall("_identify_edge_nodes"),
           "dem_conditioning._priority_flood": FloodCall("_priority_flood"),
           "dem_conditioning._flood_and_drain_fill": DrainCall("_flood_and_drain_fill")}
SPECS = FILLS + [EdgeNodes()] + [FillNan(case=m, method=m) for m in ("mean", "median", "min", "max")] + \
    [Flood(case="edges"), Flood(case="edges, integer", t="i"), FloodStreams(case="streams"), FloodStreams(case="streams, integer", t="i"),
     Drain(), Drain(case="integer", t="i")]
