"""Contracts of flow_directions."""
from ..spec import *
from .. import ops
from ..ops import SQRT, ATAN2, COS, SIN, TypeTok

FD = "flow_directions.FlowDirections"


def sums(T, n, term):
    """T(c, k), c a cell, is the sum of term(c, j) over j below k (definition by recursion)"""
    c, k, m = ints("c", "k", "m")
    return And(forall([c], T(c, z3.IntVal(0)) == 0, [T(c, z3.IntVal(0))]),
               forall([c, k, m], implies(c >= 0, m >= 0, k == m + 1, k <= n, T(c, k) == T(c, m) + term(c, m)), [[T(c, k), T(c, m)]]))


PI = z3.RealVal("3.141592653589793")


def fdir_of(E, n, frozen="the flow direction array", least=-2):
    """flow directions of n cells: -1/-2 or a cell"""
    f = na(E, "fdir", n, "i", frozen=frozen)
    x, = ints("x")
    E.ax([x], implies(rng(x, n), And(el(f, x) >= least, el(f, x) < n)), [el(f, x)])
    return f


class Area(Spec):
    """C13"""
    qual = FD + "._shoelace_area"

    def polygons(self, E, n):
        L = z3.Function("vertices", IS, IS)
        X, Y = z3.Function("vertex.x", IS, IS, RS), z3.Function("vertex.y", IS, IS, RS)
        G = z3.Function("shoelace.sum", IS, IS, RS)
        det = lambda c, a, b: X(c, a) * Y(c, b) - Y(c, a) * X(c, b)
        c, k = ints("c", "k")
        m = E.int("most_vertices")
        E.assume(m >= 1)
        E.ax([c], implies(rng(c, n), And(L(c) >= 1, L(c) <= m)), [L(c)])
        E.ax([c], G(c, 0) == 0, [G(c, 0)])
        E.ax([c, k], implies(k >= 1, G(c, k) == G(c, k - 1) + det(c, k - 1, k)), [G(c, k)])
        self.L, self.X, self.Y, self.G, self.det, self.m = L, X, Y, G, det, m
        # twice the signed area of the polygon of cell c
        self.twice = lambda c: G(c, L(c) - 1) + det(c, L(c) - 1, z3.IntVal(0))

    def make_loops(self):
        sp = self

        def inv(S):
            a = S["area_x2"]
            c, = ints("c")
            mn = lambda a, b: If(a <= b, a, b)
            want = If(S.k == 0, z3.RealVal(0), sp.det(c, sp.L(c) - 1, z3.IntVal(0)) + sp.G(c, mn(S.k - 1, sp.L(c) - 1)))
            return [("the sum so far is that of the polygon's own edges", forall(c, implies(rng(c, sp.n), lift(a.at([0, c])).e == want)))]
        return {"0": Loop(inv)}

    def setup(self, E):
        n = self.n = size(E)
        self.polygons(E, n)
        rx, ry = Obj("RaggedX"), Obj("RaggedY")
        g = Obj("Grid", dict(cross_section_vertices=(rx, ry)))

        def patch(E, a, b=None):
            if a is not rx or b is not ry:
                raise Undecided("irregular_shape_patch of something else")
            E.trusted.add("flopy irregular_shape_patch repeats the last vertex of a cell")
            at = lambda F: NA((n, self.m), lambda ix: V("r", F(ix[0], If(ix[1] < self.L(ix[0]), ix[1], self.L(ix[0]) - 1))), "r")
            return at(self.X), at(self.Y)
        E.models = {"UnstructuredPlotUtilities": Obj("UPU", dict(irregular_shape_patch=Builtin(patch, "irregular_shape_patch")))}
        self.o = Obj("FlowDirections", dict(_modelgrid=g))
        return [self.o], {}

    def post(self, E, r):
        ok = isinstance(r, NA) and r.t == "r" and len(r.shape) == 1
        E.check("the result is a flat array", ok, "post")
        if not ok:
            return
        c, = ints("c")
        E.check("one area per cell", I(r.shape[0]) == self.n, "post")
        t = self.twice(c)
        E.check("the area of a cell is the area of its polygon", forall(c, implies(rng(c, self.n), And(Not(nanel(r, c)), 2 * el(r, c) == If(t < 0, -t, t)))), "post")


class Path(Spec):
    """C12: arrays that describe the drainage path"""

    def setup(self, E):
        n = self.n = size(E)
        self.tok = tok = Tok("grid shape", n)
        self.fdir = fdir_of(E, n)
        self.dem = na(E, "dem", n + 1, "r", nan=True, frozen="the elevations")
        self.x, self.y = na(E, "xc", n + 1, "r", frozen="the centres"), na(E, "yc", n + 1, "r", frozen="the centres")
        i, j = ints("i", "j")
        # established by flow_directions: see C08
        E.ax([i], implies(rng(i, n), nanel(self.dem, i), el(self.fdir, i) == i), [el(self.fdir, i)])
        E.ax([i], implies(rng(i, n), el(self.fdir, i) >= 0, el(self.fdir, i) != i, Not(nanel(self.dem, el(self.fdir, i)))), [el(self.fdir, i)])
        # a cell's centre differs from that of the cell it drains to
        f = self.fdir
        E.ax([i], implies(rng(i, n), el(f, i) >= 0, el(f, i) != i,
                          Or(el(self.x, i) != el(self.x, el(f, i)), el(self.y, i) != el(self.y, el(f, i)))), [el(f, i)])
        trig(E)
        self.o = Obj("FlowDirections", dict(_fdir=f, _dem=self.dem, _xcenters=self.x, _ycenters=self.y, _shape=tok, _threshold=1e-6))
        return [self.o], {}

    def target(self, i):
        return If(el(self.fdir, i) < 0, i, el(self.fdir, i))

    def geo(self, i):
        t = self.target(i)
        dx, dy = el(self.x, t) - el(self.x, i), el(self.y, t) - el(self.y, i)
        return t, dx, dy, SQRT(dx * dx + dy * dy)

    def flat_grid(self, E, r):
        ok = isinstance(r, NA) and r.t == "r" and r.grid is self.tok
        E.check("the result is a real array of the grid's shape", ok, "post")
        return ok


def trig(E):
    a, b = z3.FreshConst(RS, "a"), z3.FreshConst(RS, "b")
    E.trusted.add("sqrt, arctan2, cos and sin are the real functions, and numpy.pi is their pi")
    E.assume(SQRT(z3.RealVal(0)) == 0)
    E.ax([a], implies(a > 0, And(SQRT(a) > 0, SQRT(a) * SQRT(a) == a)), [SQRT(a)])
    E.ax([a], implies(a == 0, SQRT(a) == 0), [SQRT(a)])
    h = SQRT(a * a + b * b)
    E.ax([a, b], And(-PI <= ATAN2(b, a), ATAN2(b, a) <= PI, implies(And(a == 0, b == 0), ATAN2(b, a) == 0)), [ATAN2(b, a)])
    E.ax([a, b], implies(Or(a != 0, b != 0), And(COS(ATAN2(b, a)) * h == a, SIN(ATAN2(b, a)) * h == b)), [ATAN2(b, a)])
    E.ax([a], And(COS(a + 2 * PI) == COS(a), SIN(a + 2 * PI) == SIN(a)), [COS(a)])
    E.ax([a], COS(a) * COS(a) + SIN(a) * SIN(a) == 1, [COS(a)])
    E.assume(And(COS(z3.RealVal(0)) == 1, SIN(z3.RealVal(0)) == 0))


class Slope(Path):
    qual = FD + ".slope"

    def post(self, E, r):
        if not self.flat_grid(E, r):
            return
        i, = ints("i")
        t, dx, dy, d = self.geo(i)
        drop = el(self.dem, i) - el(self.dem, t)
        E.check("the slope is the drop over the distance between the centres, and 0 without a downstream cell",
                forall(i, implies(rng(i, self.n), And(Not(nanel(r, i)), implies(t == i, el(r, i) == 0),
                                                      implies(t != i, Or(el(r, i) * d == drop, And(el(r, i) == 0, drop > 0, drop < z3.RealVal("1/1000000"))))))), "post")


class Aspect(Path):
    qual = FD + ".aspect"

    def post(self, E, r):
        if not self.flat_grid(E, r):
            return
        for lab, f in aspect_ensures(self, lambda i: el(r, i), lambda i: nanel(r, i)):
            E.check(lab, f, "post")


def aspect_ensures(sp, a, an):
    i, = ints("i")
    t, dx, dy, d = sp.geo(i)
    rad = a(i) * (PI / 180)
    return [("the aspect lies between 0 and 360", forall(i, implies(rng(i, sp.n), And(Not(an(i)), a(i) >= 0, a(i) <= 360)))),
            ("the aspect is the angle of the direction downstream",
             forall(i, implies(rng(i, sp.n), Or(rad == ATAN2(dy, dx), rad == ATAN2(dy, dx) + 2 * PI)))),
            ("a cell without downstream cell has aspect 0", forall(i, implies(rng(i, sp.n), t == i, a(i) == 0)))]


class Vectors(Path):
    qual = FD + ".vectors"

    def post(self, E, r):
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, NA) and x.t == "r" for x in r)
        E.check("the result is a pair of arrays", ok, "post")
        if not ok:
            return
        u, v = r
        i, = ints("i")
        t, dx, dy, d = self.geo(i)
        E.check("one vector per cell", And(I(u.shape[0]) == self.n, I(v.shape[0]) == self.n), "post")
        E.check("the vector has length 1", forall(i, implies(rng(i, self.n), el(u, i) * el(u, i) + el(v, i) * el(v, i) == 1)), "post")
        E.check("the vector points to the downstream cell", forall(i, implies(rng(i, self.n), t != i, And(el(u, i) * d == dx, el(v, i) * d == dy))), "post")


# ---------------------------------------------------------------- inflow counts and accumulation
def indeg(E, f, n):
    """D(c, k): number of cells below k that drain into c (definition by recursion); one function per direction array"""
    memo = E.ghost.setdefault("$indeg", {})
    if f.st.sid not in memo:
        D = z3.Function(fresh_name("inflows"), IS, IS, IS)
        E.assume(sums(D, n, lambda c, j: If(el(f, j) == c, 1, 0)))
        memo[f.st.sid] = D
    return memo[f.st.sid]


class Nidp(Spec):
    """number of inflowing cells"""
    qual = FD + ".get_nidp"

    def make_loops(self):
        sp = self

        def inv(S):
            a = S["nidp_array"]
            c, = ints("c")
            return [("inflows among the cells seen so far are counted", forall(c, implies(rng(c, sp.n), el(a, c) == sp.D(c, S.k)), [el(a, c)]))]
        return {"0": Loop(inv)}

    def setup(self, E):
        n = self.n = size(E)
        self.f = fdir_of(E, n)
        self.D = indeg(E, self.f, n)
        return [Obj("FlowDirections", dict(_fdir=self.f))], {}

    def post(self, E, r):
        ok = isinstance(r, NA) and r.t == "i" and len(r.shape) == 1
        E.check("the result is a flat integer array", ok, "post")
        if ok:
            c, = ints("c")
            E.check("one count per cell", I(r.shape[0]) == self.n, "post")
            E.check("the count is the number of inflowing cells", forall(c, implies(rng(c, self.n), el(r, c) == self.D(c, self.n))), "post")
            D, f, n = self.D, self.f, self.n
            y, = ints("y")
            natind_all(E, "counts are not negative", n, [c], lambda k: implies(c >= 0, D(c, k) >= 0), every=lambda k: [D(c, k)])
            natind_all(E, "counts grow", n, [c, y], lambda k: implies(rng(y, k), c >= 0, D(c, y) + If(el(f, y) == c, 1, 0) <= D(c, k)), every=lambda k: [[D(c, y), D(c, k)]])
            k, = ints("k")
            E.check("inflow counts are not negative", forall([c, k], implies(c >= 0, k >= 0, k <= n, D(c, k) >= 0)), "post")
            E.check("inflow counts grow", forall([c, y, k], implies(rng(y, k), k <= n, c >= 0, D(c, y) + If(el(f, y) == c, 1, 0) <= D(c, k))), "post")


class NidpC(Callee):
    def apply(self, E, env):
        f = env["self"].attrs["_fdir"]
        n = I(f.shape[0])
        D = indeg(E, f, n)
        memo = E.ghost.setdefault("$indeg.facts", set())
        if f.st.sid not in memo:
            memo.add(f.st.sid)
            c, y, k = ints("c", "y", "k")
            E.ax([c, k], implies(c >= 0, k >= 0, k <= n, D(c, k) >= 0), [D(c, k)])
            E.ax([c, y, k], implies(rng(y, k), k <= n, c >= 0, D(c, y) + If(el(f, y) == c, 1, 0) <= D(c, k)), [[D(c, y), D(c, k)]])
        return NA((f.shape[0],), lambda ix: V("i", D(ix[0], n)), "i")


ACYC = z3.Function("off.loops", IS, BS)
HGT = z3.Function("height", IS, IS)


def upstream_closed(E, n, f, x_in=ACYC, h=HGT):
    """assume: a set of cells that contains every cell draining into it and has no closed loop (h decreases upstream)"""
    x, y = ints("x", "y")
    E.ax([x], implies(x_in(x), And(rng(x, n), h(x) >= 0)), [x_in(x)])
    E.ax([y], implies(rng(y, n), x_in(el(f, y)), And(x_in(y), h(y) < h(el(f, y)))), [el(f, y)])


class Accumulation(Spec):
    """C09"""
    qual = FD + ".flow_accumulation"
    cells = False

    def make_loops(self):
        sp = self

        def state(S, p, limit):
            g, n = S.E.ghost, sp.n
            A1, A2, nd = S["flow_acc"], S["flow_acc_area"], S["nidp_array"]
            F, K, P1, P2, U, D = g["F"], g["K"], g["P1"], g["P2"], g["U"], sp.D
            f = sp.f
            c, = ints("c")
            add = lambda v: (lambda c, j: If(And(el(f, j) == c, F(j)), v(j), z3.IntVal(0) if v(j).sort() == IS else z3.RealVal(0)))
            done = lambda c: If(D(c, n) == 0, c < limit, K(c, n) == D(c, n))
            out = [
                ("a count is one plus the counts passed on to it", forall(c, implies(rng(c, n), el(A1, c) == 1 + P1(c, n)), [el(A1, c)])),
                ("an area is its own plus the areas passed on to it", forall(c, implies(rng(c, n), el(A2, c) == sp.area(c) + P2(c, n)), [el(A2, c)])),
                ("counts passed on are summed", sums(P1, n, add(lambda j: el(A1, j)))),
                ("areas passed on are summed", sums(P2, n, add(lambda j: el(A2, j)))),
                ("arrivals are counted", sums(K, n, add(lambda j: z3.IntVal(1)))),
                ("no more arrive than there are", forall(c, implies(rng(c, n), And(K(c, n) >= 0, K(c, n) <= D(c, n))), [K(c, n), D(c, n)])),
                ("open inflows are counted", forall(c, implies(rng(c, n), el(nd, c) == If(D(c, n) - K(c, n) >= 1, D(c, n) - K(c, n), If(D(c, n) >= 1, 1, 0))), [el(nd, c)])),
                ("a cell has passed on its flow exactly when all its inflows have arrived", forall(c, implies(rng(c, n), Or(F(c), c == p) == done(c)), [F(c)])),
                ("the cells that have not passed on are counted", counts(U, n, lambda x: Not(F(x)))),
            ]
            return out

        class Outer(GLoop):
            ghosts = {"F": ([IS], BS), "K": ([IS, IS], IS), "P1": ([IS, IS], RS), "P2": ([IS, IS], RS), "U": ([IS], IS)}

            def inv(self, S):
                return state(S, z3.IntVal(-1), S.k)

            def ghost_init(self, E, S):
                U = E.fn("open_below", [IS], IS)
                E.assume(counts(U, sp.n, lambda x: z3.BoolVal(True)))
                E.ghost.update(F=lambda x: z3.BoolVal(False), K=lambda c, k: z3.IntVal(0), P1=lambda c, k: z3.RealVal(0), P2=lambda c, k: z3.RealVal(0), U=U)

            def on_exit(self, E, S):
                a1, a2 = S["flow_acc"].snapshot(), S["flow_acc_area"].snapshot()

        class Walk(GLoop):
            ghosts = dict(Outer.ghosts, p=([], IS))

            def ghost_init(self, E, S):
                E.ghost["p"] = z3.IntVal(-1)

            def limit(self, S):
                return S.idx("0") + If(S.E.ghost["p"] < 0, 0, 1)

            def inv(self, S):
                g, n = S.E.ghost, sp.n
                p, cur, ix = g["p"], I(S["n"]), S.idx("0")
                A1, A2 = S["flow_acc"], S["flow_acc_area"]
                return state(S, p, self.limit(S)) + [
                    ("the walk stands on a cell", rng(cur, n)),
                    ("the walk starts at a headwater", And(rng(ix, n), sp.D(ix, n) == 0, p < n, p >= -1)),
                    ("what is carried is the accumulation of the cell before",
                     If(p < 0, And(cur == ix, R(S["naccu"]) == 0, R(S["area"]) == 0),
                        And(el(sp.f, p) == cur, Not(g["F"](p)), R(S["naccu"]) == el(A1, p), R(S["area"]) == el(A2, p)))),
                ]

            def variant(self, S):
                return (S.E.ghost["U"](sp.n), If(S.E.ghost["p"] < 0, 1, 0))

            def ghost_pre(self, E, S):
                g, n = E.ghost, sp.n
                p, cur, K, U = g["p"], I(S["n"]), g["K"], g["U"]
                natind(E, "an inflow that has not arrived leaves a gap", n, lambda k: implies(
                    p >= 0, And(K(cur, k) <= sp.D(cur, k), implies(k > p, K(cur, k) < sp.D(cur, k)))))
                natind(E, "the number of open cells is not negative", n, lambda k: And(U(k) >= 0, implies(p >= 0, k > p, U(k) >= 1)))
                return cur

            def ghost_step(self, E, S, cur):
                g, n = E.ghost, sp.n
                p, F, K, P1, P2, U = g["p"], g["F"], g["K"], g["P1"], g["P2"], g["U"]
                new = I(S["n"])
                a1, a2 = S["flow_acc"].snapshot(), S["flow_acc_area"].snapshot()
                out = And(new < 0)                      # the walk ended in a cell that drains nowhere
                gone = lambda x: Or(And(p >= 0, x == p), And(out, x == cur))
                plus = lambda T, v: (lambda c, k: T(c, k) + If(And(p >= 0, c == cur, k > p), v, 0 if v.sort() == IS else z3.RealVal(0)))
                g["F"] = lambda x: Or(F(x), gone(x))
                g["K"] = plus(K, z3.IntVal(1))
                g["P1"], g["P2"] = plus(P1, el(a1, p)), plus(P2, el(a2, p))
                g["U"] = lambda k: U(k) - If(And(p >= 0, k > p), 1, 0) - If(And(out, k > cur), 1, 0)
                g["p"] = cur

            def on_break(self, E, S):
                E.ghost.pop("p")
        return {"0": Outer(), "0.0": Walk()}

    def setup(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        self.f = fdir_of(E, n)
        ar = na(E, "area", n, "r", frozen="the cell areas")
        s = ar.snapshot()
        self.area = lambda c: el(s, c)
        self.D = indeg(E, self.f, n)
        upstream_closed(E, n, self.f)
        self.o = Obj("FlowDirections", dict(_fdir=self.f, _area=ar, _shape=tok, _facc=None))
        return [self.o], {"as_cells": self.cells}

    def post(self, E, r):
        n, g, f = self.n, E.ghost, self.f
        ok = isinstance(r, NA) and r.t == "r" and r.grid is self.tok
        E.check("the result is a real array of the grid's shape", ok, "post")
        if not ok:
            return
        s = self.o.attrs["_facc"]
        i, c, y = ints("i", "c", "y")
        E.check("the result is stored", isinstance(s, NA) and s.grid is None and forall(i, implies(rng(i, n), el(s, i) == el(r, i))), "post")
        F, K, D = g["F"], g["K"], self.D
        # a cell draining into c that has not passed on, if there is one
        W = E.fn("open_inflow", [IS], IS)
        openin = lambda c, y: And(rng(y, n), el(f, y) == c, Not(F(y)))
        E.ax([c, y], implies(openin(c, y), openin(c, W(c))), [[F(y), W(c)]])
        natind_all(E, "all inflows have arrived unless one is open", n, [c], lambda k: implies(rng(c, n), Or(K(c, k) == D(c, k), openin(c, W(c)))), [W(c), K(c, n), D(c, n)])
        x, = ints("x")
        induct(E, "every cell off closed loops has passed on its flow", [x], HGT, lambda x: implies(ACYC(x), F(x)), [ACYC])
        T = z3.Function("inflow.total", IS, IS, RS)
        E.assume(sums(T, n, lambda c, j: If(el(f, j) == c, el(r, j), z3.RealVal(0))))
        P = g["P1"] if self.cells else g["P2"]
        natind_all(E, "the sums of what was passed on are the sums over the inflowing cells", n, [c], lambda k: implies(ACYC(c), P(c, k) == T(c, k)), [T(c, n)])
        own = (lambda c: z3.RealVal(1)) if self.cells else self.area
        E.check("the accumulation of a cell off closed loops is its own plus that of the cells that drain into it",
                forall(c, implies(ACYC(c), And(Not(nanel(r, c)), el(r, c) == own(c) + T(c, n)))), "post")


# ---------------------------------------------------------------- watersheds
def reverse_ensures(n, f, D, R, M):
    """R[j, c], j below D(c, n): the cells draining into c, in increasing order"""
    c, j, y = ints("c", "j", "y")
    return [
        ("there is room for every inflow", forall(c, implies(rng(c, n), D(c, n) <= M), [D(c, n)])),
        ("listed cells drain into the cell", forall([c, j], implies(rng(c, n), rng(j, D(c, n)), And(rng(R(j, c), n), el(f, R(j, c)) == c)), [R(j, c)])),
        ("every cell is listed with the cell it drains to", forall([y], implies(rng(y, n), el(f, y) >= 0, And(
            rng(D(el(f, y), y), D(el(f, y), n)), R(D(el(f, y), y), el(f, y)) == y)), [el(f, y)])),
    ]


class Reverse(Spec):
    """reversed flow directions"""
    qual = FD + "._reverse_flow_directions"
    cached = False

    def make_loops(self):
        sp = self

        class Outer(Loop):
            def inv(self, S):
                n, f, D, K = sp.n, sp.f, sp.D, S.k
                R = S["self"].attrs["_fdir_r"]
                r = lambda j, c: lift(R.at([j, c])).e
                c, j, y = ints("c", "j", "y")
                M = I(R.shape[0])
                return [
                    ("free slots are marked", forall([c, j], implies(rng(c, n), rng(j, M), j >= D(c, K), r(j, c) == -1), [r(j, c)])),
                    ("listed cells drain into the cell", forall([c, j], implies(rng(c, n), rng(j, M), j < D(c, K), And(rng(r(j, c), K), el(f, r(j, c)) == c)), [r(j, c)])),
                    ("every cell seen is listed", forall([y], implies(rng(y, K), el(f, y) >= 0, r(D(el(f, y), y), el(f, y)) == y), [el(f, y)])),
                    ("there is room for every inflow", forall([c], implies(rng(c, n), D(c, n) <= M), [D(c, n)])),
                ]

        class Inner(Loop):
            def ghost_init(self, E, S):
                E.ghost["R0"] = S["self"].attrs["_fdir_r"].snapshot()

            def inv(self, S):
                R, R0 = S["self"].attrs["_fdir_r"], S.E.ghost["R0"]
                c, j = ints("c", "j")
                r, r0 = (lambda j, c: lift(R.at([j, c])).e), (lambda j, c: lift(R0.at([j, c])).e)
                t = I(S["fdir"])
                return [("nothing is listed yet", forall([c, j], r(j, c) == r0(j, c), [r(j, c)])),
                        ("the slots so far are taken", And(S.k <= sp.D(t, I(S.idx("0"))), forall([j], implies(rng(j, S.k), r(j, t) != -1), [r(j, t)])))]
        return {"0": Outer(), "0.0": Inner()}

    def setup(self, E):
        n = self.n = size(E)
        f = self.f = fdir_of(E, n)
        D = self.D = indeg(E, f, n)
        NidpC(FD + ".get_nidp").apply(E, {"self": Obj("x", dict(_fdir=f))})
        self.R = None
        if self.cached:
            M = E.int("most")
            self.R = freeze(E.fresh_na("fdir_r", (M, n), "i"), "the reversed directions")
            for lab, g in reverse_ensures(n, f, D, lambda j, c: lift(self.R.at([j, c])).e, M):
                E.assume(g)
        self.o = Obj("FlowDirections", dict(_fdir=f, _fdir_r=self.R))
        return [self.o], {}

    def post(self, E, r):
        ok = isinstance(r, NA) and r.t == "i" and len(r.shape) == 2
        E.check("the result is a 2-D integer array", ok, "post")
        if not ok:
            return
        E.check("the result is kept", self.o.attrs["_fdir_r"] is r, "post")
        E.check("one column per cell", I(r.shape[1]) == self.n, "post")
        for lab, g in reverse_ensures(self.n, self.f, self.D, lambda j, c: lift(r.at([j, c])).e, I(r.shape[0])):
            E.check(lab, g, "post")


class ReverseC(Callee):
    def apply(self, E, env):
        o = env["self"]
        f = o.attrs["_fdir"]
        n = I(f.shape[0])
        self.need(E, "the stored reversed directions belong to the current directions", o.attrs["_fdir_r"] is None or getattr(o.attrs["_fdir_r"], "of", None) is f)
        D = indeg(E, f, n)
        M = E.int("most")
        r = freeze(E.fresh_na("fdir_r", (M, f.shape[0]), "i"), "the reversed directions")
        r.of = f
        for lab, g in reverse_ensures(n, f, D, lambda j, c: lift(r.at([j, c])).e, M):
            E.assume(g)
        E.set_attr(o, "_fdir_r", r)
        return r


UP = z3.Function("drains.through", IS, BS)      # any set that holds the pour point and all cells draining into it
DN = z3.Function("reaches", IS, BS)             # any set of cells whose path reaches the pour point
DR = z3.Function("reaches.steps", IS, IS)


class Watershed(Spec):
    """C10"""
    qual = FD + ".get_watershed_boundary"
    kind, geometry, prior = "vertex", False, False

    def make_loops(self):
        sp = self

        class Climb(GLoop):
            ghosts = {"U": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["U"] = U = E.fn("unmarked_below", [IS], IS)
                sub = S["subbasins"].snapshot()
                E.assume(counts(U, sp.n, lambda x: el(sub, x) == 0))

            def ghost_pre(self, E, S):
                U = E.ghost["U"]
                natind(E, "the number of unmarked cells is not negative", sp.n, lambda k: U(k) >= 0)
                return S["subbasins"].snapshot()

            def ghost_step(self, E, S, old):
                U, new = E.ghost["U"], S["subbasins"].snapshot()
                c = I(S["cellid"])
                E.ghost["U"] = lambda k: U(k) - If(And(el(old, c) == 0, el(new, c) != 0, k > c), 1, 0)

            def variant(self, S):
                return (S.E.ghost["U"](sp.n), I(S["stack"].n))

            def inv(self, S):
                n, f, st, sub, idv = sp.n, sp.f, S["stack"], S["subbasins"], I(S["subbasin_id"])
                x, y = ints("x", "y")
                p = sp.p
                return [
                    ("cells marked so far drain through the pour point", forall(x, implies(rng(x, n), Or(And(el(sub, x) == idv, UP(x)), And(x != p, el(sub, x) == sp.prior0(x)))), [el(sub, x)])),
                    ("the pour point is marked", el(sub, p) == idv),
                    ("cells to visit drain into marked cells", forall(x, implies(st.cnt(x) >= 1, And(rng(x, n), el(f, x) >= 0, el(sub, el(f, x)) == idv)), [st.cnt(x)])),
                    ("inflows of marked cells are marked or still to visit", forall(y, implies(rng(y, n), el(f, y) >= 0, el(sub, el(f, y)) == idv, Or(el(sub, y) != 0, st.cnt(y) >= 1)), [el(f, y)])),
                    ("marked cells were unmarked and drain into another marked cell", forall(x, implies(rng(x, n), x != p, el(sub, x) == idv, And(sp.prior0(x) == 0, el(f, x) >= 0, el(f, x) != x, el(sub, el(f, x)) == idv)), [el(sub, x)])),
                    ("the unmarked cells are counted", counts(S.E.ghost["U"], n, lambda x: el(sub, x) == 0)),
                ]
        return {"0": Climb()}

    def setup(self, E):
        n = self.n = size(E)
        f = self.f = fdir_of(E, n)
        self.tok = Tok("grid shape", n)
        g = locator(E, self.kind, n)
        pt = (V("r", E.const("x", RS)), V("r", E.const("y", RS)))
        p = self.p = g.cell(*pt)
        x, = ints("x")
        self.prior0 = lambda x: z3.IntVal(0)
        kw = {}
        if self.prior:
            a = na(E, "prior", n, "i")
            s = a.snapshot()
            self.prior0 = lambda x: el(s, x)
            E.ax([x], implies(rng(x, n), el(s, x) >= 0), [el(s, x)])
            kw["subbasins"] = a
        E.assume(UP(p))
        E.ax([x], implies(rng(x, n), UP(el(f, x)), UP(x)), [el(f, x)])
        E.ax([x], implies(DN(x), And(rng(x, n), DR(x) >= 0, Or(x == p, And(self.prior0(x) == 0, el(f, x) >= 0, DN(el(f, x)), DR(el(f, x)) < DR(x))))), [DN(x)])
        arg = pt
        if self.geometry:
            arg = Obj("Geometry")

            def util(E, o, shapetype=""):
                if o is not arg or shapetype != "point":
                    raise Undecided("GeoSpatialUtil of something else")
                return Obj("GeoSpatialUtil", dict(points=pt))
            E.models = {"GeoSpatialUtil": Builtin(util, "GeoSpatialUtil")}
        else:
            E.models = {}
        self.o = Obj("FlowDirections", dict(_fdir=f, _fdir_r=None, _shape=self.tok, _modelgrid=g))
        return [self.o, arg], kw

    def post(self, E, r):
        n = self.n
        ok = isinstance(r, NA) and r.t == "i" and r.grid is self.tok
        E.check("the result is an integer array of the grid's shape", ok, "post")
        if not ok:
            return
        x, = ints("x")
        p = self.p
        idv = z3.IntVal(1)
        if self.prior:
            idv = el(r, p)
            E.check("the number of the subbasin is new", forall(x, implies(rng(x, n), self.prior0(x) < idv)), "post")
            E.check("the number of the subbasin is the next one", exists(x, And(rng(x, n), self.prior0(x) == idv - 1)), "post")
        E.check("marked cells drain through the pour point, other cells keep their number",
                forall(x, implies(rng(x, n), Or(And(el(r, x) == idv, UP(x)), And(x != p, el(r, x) == self.prior0(x))))), "post")
        old = self.prior0
        E.check("a marked cell is the pour point or drains into another marked cell",
                forall(x, implies(rng(x, n), x != p, el(r, x) == idv, And(old(x) == 0, el(self.f, x) >= 0, el(self.f, x) != x, el(r, el(self.f, x)) == idv))), "post")
        E.check("cells that drain into a marked cell are marked",
                forall(x, implies(rng(x, n), old(x) == 0, el(self.f, x) >= 0, el(r, el(self.f, x)) == idv, el(r, x) == idv)), "post")
        induct(E, "every cell whose path reaches the pour point is marked", [x], DR, lambda x: implies(DN(x), el(r, x) == idv), [DN])
        E.check("every cell whose path reaches the pour point is marked", forall(x, implies(DN(x), el(r, x) == idv)), "post")


SPECS = [Area(), Slope(), Aspect(), Vectors(), Nidp(), Accumulation(case="area"), Accumulation(case="cells", cells=True),
         Reverse(case="first"), Reverse(case="again", cached=True)]
SPECS += [Watershed(case=k + (", geometry" if g else "") + (", subbasins" if p else ""), kind=k, geometry=g, prior=p)
          for k, g, p in (("vertex", False, False), ("structured", False, False), ("vertex", True, False), ("vertex", False, True), ("structured", False, True))]
CALLEES = {FD + ".get_nidp": NidpC(FD + ".get_nidp"), FD + "._reverse_flow_directions": ReverseC(FD + "._reverse_flow_directions")}


# ---------------------------------------------------------------- subbasins
class WatershedC(Callee):
    """what get_watershed_boundary ensures when it is given earlier subbasins"""

    def apply(self, E, env):
        o, pt = env["self"], env["point"]
        a = env["subbasins"] if "subbasins" in env else env["kwargs"].d.get("subbasins")
        f = o.attrs["_fdir"]
        n = I(f.shape[0])
        ok = isinstance(pt, tuple) and len(pt) == 2 and isinstance(a, NA) and a.t == "i" and len(a.shape) == 1
        if not ok:
            raise Undecided("get_watershed_boundary: arguments outside its contract")
        self.need(E, "the stored reversed directions belong to the current directions", getattr(o.attrs["_fdir_r"], "of", None) is f)
        p = o.attrs["_modelgrid"].cell(*pt)
        x, = ints("x")
        s = a.snapshot()
        old = lambda x: el(s, x)
        self.need(E, "one earlier number per cell", I(a.shape[0]) == n)
        self.need(E, "earlier numbers are not negative", forall([x], implies(rng(x, n), old(x) >= 0)))
        E.assume(rng(p, n))
        a.mut()
        a.st.get = E.fresh_na("overwritten", (f.shape[0],), "i").st.get      # the caller's array is overwritten
        r = E.fresh_na("subbasins", (f.shape[0],), "i")
        r = NA(r.shape, r.st.get, "i", o.attrs["_shape"])
        m = E.int("number")
        w = E.int("w")
        at = lambda x: el(r, x)
        E.assume(And(m == at(p), rng(w, n), old(w) == m - 1))
        E.ax([x], implies(rng(x, n), And(old(x) < m, Or(at(x) == m, And(x != p, at(x) == old(x))))), [at(x), old(x)])
        E.ax([x], implies(rng(x, n), x != p, at(x) == m, And(old(x) == 0, el(f, x) >= 0, el(f, x) != x, at(el(f, x)) == m)), [at(x)])
        E.ax([x], implies(rng(x, n), old(x) == 0, el(f, x) >= 0, at(el(f, x)) == m, at(x) == m), [el(f, x)])
        return r


class Subbasins(Spec):
    """C11"""
    qual = FD + ".get_subbasins"
    kind = "vertex"

    def setup(self, E):
        n = self.n = size(E)
        f = self.f = fdir_of(E, n)
        self.tok = Tok("grid shape", n)
        g = locator(E, self.kind, n)
        K = self.K = size(E, "points")
        X, Y = z3.Function("point.x", IS, RS), z3.Function("point.y", IS, RS)
        self.points = PL(n=K, get=lambda j: (V("r", X(I(j))), V("r", Y(I(j)))))
        cell = self.cell = lambda j: g.cell(V("r", X(I(j))), V("r", Y(I(j))))
        j, x = ints("j", "x")
        # the pour points are distinct cells
        POS = self.POS = z3.Function("pour.index", IS, IS)
        E.ax([j], implies(rng(j, K), And(rng(cell(j), n), POS(cell(j)) == j)), [cell(j)])
        self.pour = lambda x: And(rng(POS(x), K), cell(POS(x)) == x)
        # no closed loop longer than one cell
        E.ax([x], implies(rng(x, n), And(HGT(x) >= 0, implies(el(f, x) >= 0, el(f, x) != x, HGT(el(f, x)) < HGT(x)))), [el(f, x)])
        # FP: the first pour point on the path of a cell, -1 if there is none; NXT: the next one below a pour point
        FP = self.FP = z3.Function("first.pour.point", IS, IS)
        E.ax([x], implies(rng(x, n), FP(x) == If(self.pour(x), x, If(Or(el(f, x) < 0, el(f, x) == x), z3.IntVal(-1), FP(el(f, x))))), [[el(f, x), FP(x)]])
        self.NXT = lambda x: If(Or(el(f, x) < 0, el(f, x) == x), z3.IntVal(-1), FP(el(f, x)))
        induct(E, "the path of a cell leads to a pour point or to none", [x], HGT,
               lambda x: implies(rng(x, n), And(FP(x) >= -1, implies(FP(x) >= 0, And(rng(FP(x), n), self.pour(FP(x)), HGT(FP(x)) <= HGT(x))))), [FP])
        self.o = Obj("FlowDirections", dict(_fdir=f, _fdir_r=Obj("ReversedOrNone"), _shape=self.tok, _modelgrid=g))
        self.o.attrs["_fdir_r"].of = f
        return [self.o, self.points], {}

    def topology_rank(self, E):
        return lambda i: If(i == 0, z3.IntVal(0), If(i == -1, z3.IntVal(1), HGT(i - 1) + 2))

    def make_loops(self):
        sp = self

        def graph(d, k, at):
            """pour points below k and the pour points they drain to"""
            x, = ints("x")
            has = forall([x], d.has(x) == And(sp.pour(x), sp.POS(x) < k), [d.has(x)])
            if d._get is None:
                return [("links so far", has)]
            return [("links so far", has), ("a pour point is linked to the next one below", forall([x], implies(d.has(x), I(d.get(x)) == sp.NXT(x)), [I(d.get(x))]))]

        class Valid(Loop):
            def inv(self, S):
                return []

        class Cells(Loop):
            def inv(self, S):
                c, j = S["cellids"], ints("j")[0]
                at = lst(c)
                return [("one cell per point so far", I(c.n) == S.k), ("the cells hold the points", forall([j], implies(rng(j, S.k), at(j) == sp.cell(j)), [at(j), sp.cell(j)]))]

        class Graph(Loop):
            def inv(self, S):
                return graph(S["graph"], S.k, None)

        class Walk(Loop):
            def inv(self, S):
                v, c, x, f = S["visited"], I(S["current"]), I(S["cellid"]), sp.f
                j, = ints("j")
                at = lst(v)
                return graph(S["graph"], S.idx("2"), None) + [("the walk is on its path", And(rng(x, sp.n), Or(And(x == c, I(v.n) == 0), And(x != c, HGT(x) < HGT(c), sp.FP(x) == sp.NXT(c))))),
                        ("visited cells are no pour points and lie upstream", And(I(v.n) >= 0, forall([j], implies(rng(j, v.n), And(
                            Not(sp.pour(at(j))), Or(HGT(at(j)) > HGT(x), And(at(j) == x, el(f, x) == x)))), [at(j)])))]

            def variant(self, S):
                x = I(S["cellid"])
                return (HGT(x), If(S["visited"].has(x), 0, 1))

        class Topo(Loop):
            def inv(self, S):
                d, x = S["topo"].attrs["topology"], ints("x")[0]
                pos = keypos(S.it)
                has = forall([x], d.has(x) == And(S["graph"].has(x - 1), pos(x - 1) < S.k), [d.has(x)])
                if d._get is None:
                    return [("links so far", has)]
                t = sp.NXT(x - 1)
                return [("links so far", And(has, forall([x], implies(d.has(x), I(d.get(x)) == If(t == -1, t, t + 1)), [I(d.get(x))])))]

        class Mark(GLoop):
            def ghost_pre(self, E, S):
                return S["subbasins"].snapshot()

            def ghost_step(self, E, S, old):
                P, L, r, FP, f, n = S.g["order"], S.g["sorted"], S["subbasins"], sp.FP, sp.f, sp.n
                k = S.k - 1
                p = I(L.get(k)) - 1
                x, = ints("x")
                m = el(r, p)
                lemma(E, "the pour point marked is the next in order", And(rng(p, n), sp.pour(p), P(p + 1) == k))
                q = I(L.get(k - 1)) - 1
                lemma(E, "earlier numbers go up to the number of subbasins so far", And(forall([x], implies(rng(x, n), And(el(old, x) >= 0, el(old, x) <= k)), [el(old, x)]),
                                                                                       implies(k >= 1, And(rng(q, n), FP(q) == q, el(old, q) == k))))
                lemma(E, "its subbasin gets a higher number", And(m >= 1, implies(k >= 1, Or(el(r, q) == m, el(r, q) == k))))
                lemma(E, "its subbasin gets the next number", m == k + 1)
                lemma(E, "cells above it drain on to it", forall([x], implies(rng(x, n), FP(x) == p, x != p,
                                                                              And(el(f, x) >= 0, el(f, x) != x, FP(el(f, x)) == p)), [FP(x)]))
                lemma(E, "cells below it were free", forall([x], implies(rng(x, n), FP(x) == p, el(old, x) == 0), [FP(x)]))
                induct(E, "marked cells drain to the pour point first", [x], HGT, lambda x: implies(rng(x, n), el(r, x) == m, FP(x) == p), [lambda x: el(r, x)])
                induct(E, "cells that drain to the pour point first are marked", [x], HGT, lambda x: implies(rng(x, n), FP(x) == p, el(r, x) == m), [FP])

            def num(self, S, k, x):
                P = S.g["order"]
                return If(And(sp.FP(x) >= 0, P(sp.FP(x) + 1) < k), P(sp.FP(x) + 1) + 1, 0)

            def inv(self, S):
                a, x = S["subbasins"], ints("x")[0]
                return [("cells so far", forall([x], implies(rng(x, sp.n), el(a, x) == self.num(S, S.k, x)), [el(a, x)]))]
        return {"0": Valid(), "1": Cells(), "2": Graph(), "2.0": Walk(), "3": Topo(), "4": Mark()}

    def post(self, E, r):
        n, K, P, FP = self.n, self.K, E.ghost["order"], self.FP
        ok = isinstance(r, NA) and r.t == "i"
        E.check("the result is an integer array", ok, "post")
        if not ok:
            return
        x, y, j = ints("x", "y", "j")
        E.check("one number per cell", I(r.shape[0]) == n, "post")
        L = E.ghost["sorted"]
        pigeonhole(E, "there are as many numbers as pour points", I(L.n) - 1, K, lambda j: self.POS(I(L.get(j)) - 1))
        lemma(E, "the number of a pour point is its place in the order", forall([x], implies(self.pour(x), And(rng(P(x + 1), K), I(L.get(P(x + 1))) == x + 1, el(r, x) == P(x + 1) + 1)), [el(r, x), self.POS(x)]))
        E.check("a cell has the number of the first pour point on its path, 0 without one", forall([x], implies(rng(x, n), el(r, x) == If(FP(x) >= 0, el(r, FP(x)), 0))), "post")
        E.check("pour points are numbered from 1 to their number", forall([x], implies(self.pour(x), And(el(r, x) >= 1, el(r, x) <= K))), "post")
        E.check("no two pour points share a number", forall([x, y], implies(self.pour(x), self.pour(y), x != y, el(r, x) != el(r, y))), "post")
        E.check("a pour point is numbered before the one it drains to", forall([x], implies(self.pour(x), self.NXT(x) >= 0, el(r, x) < el(r, self.NXT(x)))), "post")


SPECS += [Subbasins(case=k, kind=k) for k in ("vertex", "structured")]
CALLEES[FD + ".get_watershed_boundary"] = WatershedC(FD + ".get_watershed_boundary")
