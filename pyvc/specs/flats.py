"""Contracts of flow_directions: the steepest neighbour of every cell, and the way across flat areas."""
from ..spec import *
from .. import ops
from ..ops import SQRT
from .flow import FD


class Steepest:
    """the steepest neighbours of every cell, for a table of neighbours and a table of slopes of n rows and m columns.
    AM(x, k): column k of row x is a smallest slope; AMC(x, y): y is the cell of such a column"""

    def steepest(self, E, n, m, fn, sl, sn):
        AM, AMC = E.fn("smallest.slope", [IS, IS], BS), E.fn("steepest.neighbour", [IS, IS], BS)
        W, POS = E.fn("smaller.slope", [IS, IS], IS), E.fn("column.of", [IS, IS], IS)
        x, y, k, j = ints("x", "y", "k", "j")
        E.ax([x, k], implies(AM(x, k), And(rng(x, n), rng(k, m), Not(sn(x, k)))), [AM(x, k)])
        E.ax([x, k, j], implies(AM(x, k), rng(j, m), Not(sn(x, j)), sl(x, k) <= sl(x, j)), [[AM(x, k), sl(x, j)], [AM(x, k), sn(x, j)]])
        w = W(x, k)
        E.ax([x, k], implies(rng(x, n), rng(k, m), Not(sn(x, k)), Not(AM(x, k)), And(rng(w, m), Not(sn(x, w)), sl(x, w) < sl(x, k))), [AM(x, k)])
        E.ax([x, k], implies(AM(x, k), AMC(x, fn(x, k))), [AM(x, k)])
        E.ax([x, y], implies(AMC(x, y), And(AM(x, POS(x, y)), fn(x, POS(x, y)) == y)), [AMC(x, y)])
        return AM, AMC, POS


class FlowCell(Spec, Steepest):
    """C07, C08: the direction of every cell from the table of slopes"""
    qual = FD + "._calculate_flowcell"

    def setup(self, E):
        n = self.n = size(E)
        E.assume(n <= 999000)
        E.notes.add("grids have at most 999000 cells: the distance across a flat is compared with 1e6")
        m = self.m = size(E, "most_neighbours")
        fn = self.fnb = E.fresh_na("fneighbors", (n, m), "i")
        sl = self.slopes = E.fresh_na("slopes", (n, m), "r", True)
        dem = self.dem = na(E, "dem", n + 1, "r", nan=True, frozen="the elevations")
        fdir = self.fdir = na(E, "fdir", n, "i")
        freeze(fn, "the table of neighbours")
        freeze(sl, "the table of slopes")
        F = lambda x, k: lift(fn.at([x, k])).e
        S = lambda x, k: lift(sl.at([x, k])).e
        N = lambda x, k: B(lift(sl.at([x, k])).nan)
        self.F = F
        self.data = lambda x: Not(nanel(dem, x))
        x, y, k, j = ints("x", "y", "k", "j")
        E.ax([x, k], implies(rng(x, n), rng(k, m), And(F(x, k) >= 0, F(x, k) <= n)), [F(x, k)])
        # established by _calculate_slopes
        E.ax([x, k], implies(rng(x, n), rng(k, m), N(x, k) == Or(F(x, k) == n, nanel(dem, x), nanel(dem, F(x, k)))), [N(x, k)])
        E.ax([x, k], implies(rng(x, n), rng(k, m), F(x, k) != x), [F(x, k)])
        E.ax([x], implies(rng(x, n), Or(el(fdir, x) == -1, el(fdir, x) == x)), [el(fdir, x)])
        f0 = fdir.snapshot()
        self.fixed = lambda x: el(f0, x) == x
        self.AM, self.AMC, self.POS = self.steepest(E, n, m, F, S, N)
        # what follows for a steepest neighbour
        E.first = 0
        a, b = ints("a", "b")
        lemma(E, "a steepest neighbour is another cell with data, of a cell with data",
              forall([a, b], implies(self.AMC(a, b), And(rng(a, n), rng(b, n), a != b, self.data(a), self.data(b))), [self.AMC(a, b)]))
        self.o = Obj("FlowDirections", dict(_fneighbors=fn, _dem=dem, _fdir=fdir))
        return [self.o, sl], {}

    # ------------------------------------------------------------ vocabulary
    def cells(self, S):
        return S["self"].attrs["_fdir"]

    def stack(self, S):
        return S["self"].attrs["_stack"].snapshot()

    def good(self, S):
        """what holds of every cell's direction at any time"""
        f = self.cells(S).snapshot()
        x, = ints("x")
        fx = el(f, x)
        L0 = S.g["ties0"]
        return [("every direction is open, a tie, the cell itself where it is fixed or has no data, or a steepest neighbour",
                 forall([x], implies(rng(x, self.n), Or(fx == -1, And(fx == -2, self.data(x), L0(x) != 1),
                                                        And(fx == x, Or(self.fixed(x), Not(self.data(x)))), self.AMC(x, fx))), [fx])),
                ("a fixed cell drains to itself", forall([x], implies(rng(x, self.n), self.fixed(x), fx == x), [fx]))]

    def done(self, S, k):
        f = self.cells(S).snapshot()
        x, = ints("x")
        return [("the cells passed have a direction", forall([x], implies(x >= 0, x < k, el(f, x) != -1), [el(f, x)]))]

    def lists(self, S):
        fc = S["fcells"].snapshot()
        x, j = ints("x", "j")
        g = lambda x: fc.get(x)
        L0 = S.g["ties0"]
        e = I(g(x).get(j))
        return [("one list of columns per cell", I(fc.n) == self.n),
                ("the columns listed have the smallest slope", forall([x, j], implies(rng(x, self.n), rng(j, g(x).n), self.AM(x, e)), [e])),
                ("columns are only dropped where several tie", forall([x], implies(rng(x, self.n), And(I(g(x).n) >= 0, Or(I(g(x).n) == L0(x), L0(x) >= 2))), [I(g(x).n)] + [L0(x)]))]

    def pending(self, S, extra=None):
        """the cells reached over the flat, each with the cell it was reached from"""
        d = self.stack(S)
        c, y, z = ints("c", "y", "z")
        if d._get is None:
            return []
        v = lambda c: d.get(c)
        return [("every cell reached was reached from a cell", forall([c], implies(d.has(c), v(c).nonempty()), [d.kidx(c)])),
                ("it is a steepest neighbour of the cell it was reached from",
                 forall([c, y], implies(d.has(c), v(c).has(y), self.AMC(y, c)), [v(c).has(y)])),
                ("it was reached from one cell only", forall([c, y, z], implies(d.has(c), v(c).has(y), v(c).has(z), y == z), [[v(c).has(y), v(c).has(z)]]))]

    # ------------------------------------------------------------ loops
    def make_loops(self):
        sp = self

        class Main(GLoop):
            def ghost_init(self, E, S):
                fc = S["fcells"].snapshot()
                L0 = E.fn("ties", [IS], IS)
                x, = ints("x")
                E.ax([x], implies(rng(x, sp.n), L0(x) == I(fc.get(x).n)), [L0(x)])
                E.ghost["ties0"] = L0
                sp.fc0 = fc
                sp.L0 = L0

            def ghost_pre(self, E, S):
                E.ghost["cell"] = S.k

            def inv(self, S):
                return sp.good(S) + sp.done(S, S.k) + sp.lists(S)

        def solved(S):
            s = S["solved"].snapshot()
            i, j = ints("i", "j")
            if s.is_empty():
                return []
            e = I(s.get(j))
            return [("the places found fit the list", forall([j], implies(rng(j, s.n), And(e >= 0, e + I(s.n) - j <= S.k)), [e]))]

        def pops(S):
            ft, st = S["flow_to"].snapshot(), S["stack"].snapshot()
            j, = ints("j")
            s = S["solved"].snapshot()
            out = [("both lists keep the same length", I(ft.n) == I(st.n)),
                   ("one element is taken out for every place", I(ft.n) == S.g["len0"] - S.k)]
            e, t = I(ft.get(j)), I(st.get(j))
            return out + [("the columns listed have the smallest slope", forall([j], implies(rng(j, ft.n), sp.AM(S.g["cell"], e)), [e])),
                          ("the cells listed are their cells", forall([j], implies(rng(j, st.n), sp.AMC(S.g["cell"], t)), [t]))]

        class Pops(Loop):
            def inv(self, S):
                return pops(S)

            def ghost_init(self, E, S):
                E.ghost["len0"] = I(S["flow_to"].n)

        def around(S):
            st, an = S["stack"].snapshot(), S["are_neighbors"].snapshot()
            j, = ints("j")
            out = []
            for what, l in (("to visit", st), ("visited", an)):
                if l.is_empty():
                    continue
                e = I(l.get(j))
                out.append((f"the cells {what} are cells", forall([j], implies(rng(j, l.n), rng(e, sp.n)), [e])))
            return out

        def conns(S):
            d = sp.stack(S)
            cs = S["conns"].snapshot()
            c, j = ints("c", "j")
            out = sp.pending(S)
            if d._get is None:
                return out + [("no cell is reached before the first", S.k == 0)]
            out += [("only the neighbours passed are reached", forall([c], implies(d.has(c), exists([j], And(j >= 0, j < S.k, el(cs, j) == c))), [d.kidx(c)])),
                    ("they are reached from this cell", forall([c], implies(d.has(c), d.get(c).has(S.g["cell"])), [d.kidx(c)])),
                    ("all neighbours passed are reached", forall([j], implies(j >= 0, j < S.k, d.has(el(cs, j))), [el(cs, j)]))]
            return out

        class Conns(Loop):
            keep = ("conns", "dest", "sink")

            def cut(self, S):
                ix, cs, f = S.g["cell"], S["conns"].snapshot(), sp.cells(S)
                fc = S["fcells"].snapshot().get(ix)
                j, = ints("j")
                return sp.lists(S) + [
                    ("the cell is open and has data", And(el(f, ix) == -1, sp.data(ix))),
                    ("the cell has several steepest neighbours, or none", I(fc.n) != 1),
                    ("the neighbours are those of the columns listed", I(cs.shape[0]) == I(fc.n)),
                    ("each is the cell of its column", forall([j], implies(rng(j, fc.n), el(cs, j) == sp.F(ix, I(fc.get(j)))), [el(cs, j)]))]

        def short(S):
            """while no way out is found, every cell looked at has several ways or none"""
            v = S["visited"].snapshot()
            c, = ints("c")
            if v.is_empty():
                return []
            fc = S["fcells"].snapshot()
            return [("a cell without a way out has several steepest neighbours, or none",
                     forall([c], implies(sp.none(S), v.has(c), I(fc.get(c).n) != 1), [v.cnt(c)]))]

        def search(S):
            t = S["tmp_stack"].snapshot()
            j, c = ints("j", "c")
            d = sp.stack(S)
            e = I(t.get(j)) if not t.is_empty() else None
            out = sp.pending(S) + short(S) + sp.way(S, d)
            out.append(("the first neighbour is reached from this cell", sp.reached(S, d)))
            out.append(("without a column there is nothing to look at", implies(I(S["fcells"].snapshot().get(S.g["cell"]).n) == 0, And(sp.none(S), I(t.n) == 0))))
            if e is not None:
                out.append(("the cells to look at are cells", forall([j], implies(rng(j, t.n), rng(e, sp.n)), [e])))
            if d._get is not None:
                out.append(("every cell reached is to be looked at", forall([c], implies(sp.none(S), d.has(c), t.has(c)), [d.kidx(c)])))
            return out

        def looked(S):
            t, v = S["tmp_stack"].snapshot(), S["visited"].snapshot()
            j, = ints("j")
            out = search(S)
            e = I(t.get(j)) if not t.is_empty() else None
            if v.is_empty():
                return out + [("nothing is looked at before the first cell", S.k == 0)]
            return out + [("the cells passed are looked at", forall([j], implies(j >= 0, j < S.k, v.has(e)), [e]))]

        class Resolve(Loop):
            def ghost_init(self, E, S):
                E.ghost["way0"] = sp.none(S)

            def inv(self, S):
                d, cs = sp.stack(S), S["conns"].snapshot()
                t = S["tmp_stack"].snapshot()
                c, j = ints("c", "j")
                m = I(cs.shape[0])
                out = sp.pending(S) + [("the first neighbour is reached from this cell", sp.reached(S, d))]
                out.append(("a way out that was found is not lost", implies(sp.none(S), And(S.g["way0"], m != 1))))
                w = sp.dest(S)
                if w is not None:
                    out.append(("the way out is reached", implies(Not(sp.none(S)), Or(d.has(w), And(S.k == 0, m == 1, w == el(cs, 0))))))
                if d._get is not None:
                    out.append(("a cell reached is to be looked at or one of the neighbours passed",
                                forall([c], implies(S.g["way0"], d.has(c), Or(t.has(c), exists([j], And(j >= 0, j < S.k, el(cs, j) == c)))), [d.kidx(c)])))
                return out

        def sinks(S):
            f = sp.cells(S)
            return sp.good(S) + sp.done(S, S.g["cell"]) + [("the cell itself is unresolved", el(f, S.g["cell"]) == -2)]

        class Trace(Loop):
            def ghost_init(self, E, S):
                d = sp.stack(S)
                E.ghost["keys0"] = I(d.klen)
                pigeonhole(E, "the cells reached are cells of the grid", d.klen, sp.n, lambda i: d.kat(i))

            def inv(self, S):
                d, ft, ld = sp.stack(S), S["flow_trace"].snapshot(), S["ldest"].snapshot()
                x, = ints("x")
                g = lambda x: ft.get(x)
                ix = S.g["cell"]
                K0 = S.g["keys0"]
                to, ds = (lambda x: I(g(x).get(0))), (lambda x: I(g(x).get(1)))
                return sp.pending(S) + [
                    ("the way goes over steepest neighbours", forall([x], implies(ft.has(x), sp.AMC(x, to(x))), [ft.kidx(x)])),
                    ("one cell is followed at a time", I(ld.n) == 1),
                    ("cells are only taken off", I(d.klen) <= K0),
                    ("the distance is bounded by the cells taken off", forall([x], implies(ft.has(x), ds(x) <= 999 + K0 - I(d.klen)), [ft.kidx(x)])),
                    ("this cell is on the way or still to be followed", Or(sp.reached(S, d, True), ft.has(ix)))]

        def write(S):
            ft = S["flow_trace"].snapshot()
            f = sp.cells(S)
            x, = ints("x")
            ix = S.g["cell"]
            return sp.good(S) + sp.done(S, ix) + [("this cell has a direction once it is passed", implies(ft.has(ix), ft.kidx(ix) < S.k, el(f, ix) != -1))]

        return {"0": Main(), "0.0": Loop(solved), "0.1": Pops(), "0.2": Loop(around), "0.2.0": Loop(around), "0.2.0.0": Loop(lambda S: around(S) + [("the list run through only grows", S.idx("0.2.0") < I(S["are_neighbors"].n))]),
                "0.3": Conns(conns), "0.4": Loop(search), "0.4.0": Loop(looked), FD + "._resolve_flats:0": Resolve(),
                "0.5": Loop(sinks), "0.6": Trace(), "0.7": Loop(write)}

    def none(self, S):
        d = S["dest"]
        return z3.BoolVal(True) if d is None else d.none if isinstance(d, Opt) else z3.BoolVal(False)

    def dest(self, S):
        d = S["dest"]
        return None if d is None else I(d.val) if isinstance(d, Opt) else I(d)

    def way(self, S, d):
        w = self.dest(S)
        return [] if w is None else [("the way out is reached", implies(Not(self.none(S)), d.has(w)))]

    def reached(self, S, d, must=False):
        """a steepest neighbour of the current cell was reached from it (there is none if it has no column left)"""
        ix = S.g["cell"]
        fc = S["fcells"].snapshot().get(ix)
        if d._get is None:
            return I(fc.n) == 0
        c0 = self.F(ix, I(fc.get(z3.IntVal(0))))
        f = And(d.has(c0), d.get(c0).has(ix))
        return f if must else Or(I(fc.n) == 0, f)

    def post(self, E, r):
        f = self.o.attrs["_fdir"]
        x, = ints("x")
        fx = el(f, x)
        T = self.L0
        for lab, g in self.ensures(fx, x, lambda x: T(x) != 1):
            E.check(lab, forall(x, implies(rng(x, self.n), g)), "post")
        k, = ints("k")
        at = lambda x, j: I(self.fc0.get(x).get(z3.IntVal(j)))
        E.check("a tie is none or several smallest slopes",
                forall(x, implies(rng(x, self.n), T(x) != 1, Or(forall(k, Not(self.AM(x, k))), And(self.AM(x, at(x, 0)), self.AM(x, at(x, 1)), at(x, 0) != at(x, 1))))), "post")

    def ensures(self, fx, x, tie):
        return [("a fixed cell drains to itself", implies(self.fixed(x), fx == x)),
                ("a cell without data drains to itself", implies(Not(self.data(x)), fx == x)),
                ("every other cell drains to a steepest neighbour, or is an unresolved tie",
                 implies(Not(self.fixed(x)), self.data(x), Or(self.AMC(x, fx), And(fx == -2, tie(x)))))]



class FlowCellC(Callee, Steepest):
    def apply(self, E, env):
        o, sl = env["self"], env["slopes"]
        fn, dem, f = o.attrs["_fneighbors"], o.attrs["_dem"], o.attrs["_fdir"]
        ok = all(isinstance(a, NA) for a in (sl, fn, dem, f)) and len(sl.shape) == len(fn.shape) == 2
        if not ok:
            raise Undecided("_calculate_flowcell: arguments outside its contract")
        n, m = I(f.shape[0]), I(fn.shape[1])
        fs, ss, old = fn.snapshot(), sl.snapshot(), f.snapshot()
        F = lambda x, k: lift(fs.at([x, k])).e
        S = lambda x, k: lift(ss.at([x, k])).e
        N = lambda x, k: B(lift(ss.at([x, k])).nan)
        x, y, k, j = ints("x", "y", "k", "j")
        self.need(E, "one row of neighbours and slopes per cell", And(I(fn.shape[0]) == n, I(sl.shape[0]) == n, I(sl.shape[1]) == m, I(dem.shape[0]) == n + 1, m >= 1, n <= 999000))
        self.need(E, "neighbours are cells or the fill", forall([x, k], implies(rng(x, n), rng(k, m), And(F(x, k) >= 0, F(x, k) <= n, F(x, k) != x))))
        self.need(E, "a slope is missing where the fill is or data are missing",
                  forall([x, k], implies(rng(x, n), rng(k, m), N(x, k) == Or(F(x, k) == n, nanel(dem, x), nanel(dem, F(x, k))))))
        self.need(E, "directions are open or fixed", forall([x], implies(rng(x, n), Or(el(old, x) == -1, el(old, x) == x))))
        AM, AMC, POS = self.steepest(E, n, m, F, S, N)
        f.mut()
        f.st.get = E.fresh_na("fdir", (f.shape[0],), "i").st.get
        new = f.snapshot()
        T = E.fn("ties", [IS], BS)
        A, B2 = E.fn("first.tie", [IS], IS), E.fn("second.tie", [IS], IS)
        fx = el(new, x)
        E.ax([x], implies(rng(x, n), el(old, x) == x, fx == x), [fx])
        E.ax([x], implies(rng(x, n), nanel(dem, x), fx == x), [fx])
        E.ax([x], implies(rng(x, n), Not(nanel(dem, x)), el(old, x) != x, Or(AMC(x, fx), And(fx == -2, T(x)))), [fx])
        E.ax([x, k], implies(T(x), rng(x, n), AM(x, k), And(AM(x, A(x)), AM(x, B2(x)), A(x) != B2(x))), [[T(x), AM(x, k)]])
        M = E.fn("a.smallest.slope", [IS], IS)
        E.ax([x, k], implies(rng(x, n), rng(k, m), Not(N(x, k)), AM(x, M(x))), [N(x, k)])
        E.notes.add("a row of slopes that are not all missing has a smallest one (finite sets have minima)")
        E.ghost["flow"] = (AM, AMC, POS, T, A, B2)
        return None


class Fill(Spec):
    """the regular table of neighbours"""
    qual = FD + "._fill_irregular_neighbor_array"

    def make_loops(self):
        sp = self

        def longest(S):
            c, = ints("c")
            a = I(S["axis1"])
            return [("the table is wide enough for the rows seen so far", And(a >= 1, forall(c, implies(c >= 0, c < S.k, sp.L(c) <= a), [sp.L(c)])))]

        def rows(S):
            d, f = S["self"].attrs["_neighbors"].snapshot(), S["self"].attrs["_fneighbors"].snapshot()
            x, j = ints("x", "j")
            a = I(S["axis1"])
            g = lambda x: d.get(x)
            return [("the keys stay the cells in order", And(I(d.klen) == sp.n, forall(x, implies(rng(x, sp.n), d.kat(x) == x), [d.kat(x)]), forall(x, implies(rng(x, sp.n), d.kidx(x) == x), [d.kidx(x)]))),
                    ("rows to come are as they were", forall(x, implies(x >= S.k, x < sp.n, I(g(x).n) == sp.L(x)), [I(g(x).n)])),
                    ("entries to come are as they were", forall([x, j], implies(x >= S.k, x < sp.n, rng(j, sp.L(x)), I(g(x).get(j)) == sp.at(x, j)), [I(g(x).get(j))])),
                    ("the rows done are in the table", forall([x, j], implies(x >= 0, x < S.k, rng(j, a), lift(f.at([x, j])).e == If(j < sp.L(x), sp.at(x, j), sp.n)), [lift(f.at([x, j])).e]))]
        return {"0": Loop(longest), "1": Loop(rows)}

    def setup(self, E):
        n = self.n = size(E)
        L, at = E.fn("row.length", [IS], IS), E.fn("row.entry", [IS, IS], IS)
        self.L, self.at = L, at
        c, = ints("c")
        E.ax([c], implies(rng(c, n), L(c) >= 0), [L(c)])

        def get(k):
            p = PL(n=L(k), get=lambda j: V("i", at(k, I(j))))
            p._ek = "i"
            return p
        d = PD(n, lambda j: j, lambda y: If(rng(y, n), y, z3.IntVal(-1)), get)
        d.tag = "neighbors"
        self.o = Obj("FlowDirections", dict(_neighbors=d, _fillidx=V("i", n)))
        return [self.o], {}

    def post(self, E, r):
        f = self.o.attrs.get("_fneighbors")
        ok = isinstance(f, NA) and len(f.shape) == 2 and f.t == "i"
        E.check("the table of neighbours is an array of integers with two dimensions", ok, "post")
        if not ok:
            return
        x, k = ints("x", "k")
        m = I(f.shape[1])
        E.check("one row per cell, at least one column", And(I(f.shape[0]) == self.n, m >= 1), "post")
        E.check("every row fits", forall(x, implies(rng(x, self.n), self.L(x) <= m)), "post")
        E.check("a row holds the neighbours, then the fill",
                forall([x, k], implies(rng(x, self.n), rng(k, m), lift(f.at([x, k])).e == If(k < self.L(x), self.at(x, k), self.n))), "post")


class FillC(Callee):
    def apply(self, E, env):
        o = env["self"]
        d = o.attrs["_neighbors"]
        fill = I(o.attrs["_fillidx"])
        if not isinstance(d, PD) or d._get is None or not isinstance(d.get(z3.FreshConst(IS, "c")), PL):
            raise Undecided("_fill_irregular_neighbor_array: neighbours outside its contract")
        s = d.snapshot()
        n = I(s.klen)
        x, k = ints("x", "k")
        self.need(E, "the keys are the cells in order", And(n == fill, n >= 1, forall([x], implies(rng(x, n), And(s.kat(x) == x, s.kidx(x) == x)))))
        m = E.int("most_neighbours")
        fn = E.fresh_na("fneighbors", (n, m), "i")
        F = lambda x, k: lift(fn.at([x, k])).e
        E.assume(m >= 1)
        L, at = (lambda x: I(s.get(x).n)), (lambda x, k: I(s.get(x).get(k)))
        E.ax([x], implies(rng(x, n), L(x) <= m), [L(x)])
        E.ax([x, k], implies(rng(x, n), rng(k, m), F(x, k) == If(k < L(x), at(x, k), n)), [F(x, k)])
        E.ax([x, k], implies(rng(x, n), rng(k, m), k < L(x), F(x, k) == at(x, k)), [at(x, k)])
        E.set_attr(o, "_fneighbors", fn)
        E.set_attr(o, "_fmask", Obj("opaque"))
        E.set_attr(o, "_neighbors", E.fresh_dict(("list", "i"), "padded_neighbours"))
        return None


def geometry(E, dem, xc, yc, thr):
    """SLP(x, y): the slope from cell x to cell y (definition); rises below the threshold are flat"""
    x, y = z3.Int("geo.x"), z3.Int("geo.y")
    d = el(dem, y) - el(dem, x)
    dx, dy = el(xc, y) - el(xc, x), el(yc, y) - el(yc, x)
    e = If(And(d < thr, d > 0), z3.RealVal(0), d) / SQRT(dx * dx + dy * dy)
    known = E.ghost.setdefault("geometry", [])
    for f, g in known:
        if g.eq(e):
            return f
    SLP = E.fn("slope.to", [IS, IS], RS)
    known.append((SLP, e))
    E.ax([x, y], SLP(x, y) == e, [SLP(x, y)])
    return SLP


class Slopes(Spec):
    """the slopes to all neighbours"""
    qual = FD + "._calculate_slopes"

    def setup(self, E):
        from .flow import trig
        n = self.n = size(E)
        m = self.m = size(E, "most_neighbours")
        fn = self.fnb = freeze(E.fresh_na("fneighbors", (n, m), "i"), "the table of neighbours")
        self.F = F = lambda x, k: lift(fn.at([x, k])).e
        self.dem = na(E, "dem", n + 1, "r", nan=True, frozen="the elevations")
        self.x, self.y = na(E, "xc", n + 1, "r", frozen="the centres"), na(E, "yc", n + 1, "r", frozen="the centres")
        x, k = ints("x", "k")
        E.ax([x, k], implies(rng(x, n), rng(k, m), And(F(x, k) >= 0, F(x, k) <= n)), [F(x, k)])
        E.ax([x, k], implies(rng(x, n), rng(k, m), F(x, k) != n, Or(el(self.x, F(x, k)) != el(self.x, x), el(self.y, F(x, k)) != el(self.y, x))), [F(x, k)])
        E.notes.add("the centres of neighbouring cells differ")
        trig(E)
        self.thr = E.const("threshold", RS)
        self.SLP = geometry(E, self.dem, self.x, self.y, self.thr)
        self.o = Obj("FlowDirections", dict(_fneighbors=fn, _dem=self.dem, _xcenters=self.x, _ycenters=self.y, _threshold=V("r", self.thr), _fillidx=V("i", n)))
        return [self.o], {}

    def post(self, E, r):
        ok = isinstance(r, NA) and r.t == "r" and len(r.shape) == 2
        E.check("the result is a real array with two dimensions", ok, "post")
        if not ok:
            return
        x, k = ints("x", "k")
        n, m, F, dem = self.n, self.m, self.F, self.dem
        v = lift(r.at([x, k]))
        nan = B(v.nan) if v.nan is not False else z3.BoolVal(False)
        E.check("one slope per entry of the table", And(I(r.shape[0]) == n, I(r.shape[1]) == m), "post")
        inside = lambda *f: forall([x, k], implies(rng(x, n), rng(k, m), *f))
        E.check("a slope is missing where the fill is or data are missing", inside(nan == Or(F(x, k) == n, nanel(dem, x), nanel(dem, F(x, k)))), "post")
        E.check("a slope is the drop over the distance, small rises count as flat", inside(Not(nan), v.e == self.SLP(x, F(x, k))), "post")


class SlopesC(Callee):
    def apply(self, E, env):
        o = env["self"]
        fn, dem, xc, yc = [o.attrs[a] for a in ("_fneighbors", "_dem", "_xcenters", "_ycenters")]
        if not all(isinstance(a, NA) for a in (fn, dem, xc, yc)) or len(fn.shape) != 2:
            raise Undecided("_calculate_slopes: arguments outside its contract")
        n, m = I(fn.shape[0]), I(fn.shape[1])
        fs = fn.snapshot()
        F = lambda x, k: lift(fs.at([x, k])).e
        x, k = ints("x", "k")
        inside = lambda *f: forall([x, k], implies(rng(x, n), rng(k, m), *f))
        self.need(E, "one elevation and centre per cell and one for the fill", And(n >= 1, m >= 1, *[I(a.shape[0]) == n + 1 for a in (dem, xc, yc)], I(o.attrs["_fillidx"]) == n))
        self.need(E, "neighbours are cells or the fill", inside(And(F(x, k) >= 0, F(x, k) <= n)))
        self.need(E, "the centres of neighbours differ", inside(F(x, k) != n, Or(el(xc, F(x, k)) != el(xc, x), el(yc, F(x, k)) != el(yc, x))))
        SLP = geometry(E, dem.snapshot(), xc.snapshot(), yc.snapshot(), R(o.attrs["_threshold"]))
        r = E.fresh_na("slopes", (n, m), "r", True)
        v = lift(r.at([x, k]))
        dm = dem.snapshot()
        E.ax([x, k], implies(rng(x, n), rng(k, m), B(v.nan) == Or(F(x, k) == n, nanel(dm, x), nanel(dm, F(x, k)))), [B(v.nan)])
        E.ax([x, k], implies(rng(x, n), rng(k, m), Not(B(v.nan)), v.e == SLP(x, F(x, k))), [v.e])
        E.ax([x, k], implies(rng(x, n), rng(k, m), F(x, k) != n, Not(nanel(dm, x)), Not(nanel(dm, F(x, k))), And(Not(B(v.nan)), v.e == SLP(x, F(x, k)))), [F(x, k)])
        E.ghost["slope"] = SLP, F
        return r


class Directions(Spec):
    """C07, C08: a new object is made from a grid and its elevations, and asked for the flow directions"""
    qual = FD + ".flow_directions"
    kind, cells, check = "vertex", None, True

    @property
    def may_raise(self):
        return ("AssertionError",) if self.check else ()       # two lowest cells

    def make_loops(self):
        sp = self

        def terminal(S):
            f = S["self"].attrs["_fdir"].snapshot()
            nd = S["nodes"].snapshot()
            x, j = ints("x", "j")
            fx = el(f, x)
            t = lambda j: I(nd.get(j))
            return [("directions are open or fixed, fixed only for lowest and terminal cells",
                     forall(x, implies(rng(x, sp.n), Or(fx == -1, And(fx == x, Or(sp.lowest(x), sp.TERM(x))))), [fx])),
                    ("the lowest cells are fixed", forall(x, implies(rng(x, sp.n), sp.lowest(x), fx == x), [fx])),
                    ("the terminal cells passed are fixed", forall(j, implies(j >= 0, j < S.k, el(f, t(j)) == t(j)), [t(j)]))]
        return {"0": Loop(terminal)}

    def setup(self, E):
        n = self.n = size(E)
        E.assume(n <= 999000)
        E.notes.add("grids have at most 999000 cells")
        tok = self.tok = Tok("grid shape", n)
        g = grid(E, n, self.kind)
        dem = self.dem = na(E, "dem", n, "r", nan=True, grid=tok, frozen="the caller's elevations")
        cg = tok if self.kind == "structured" else None
        xc, yc = [na(E, a, n, "r", grid=cg, frozen="the centres of the grid") for a in ("xc", "yc")]
        self.x, self.y = xc, yc
        def shape(E, ix):
            if not (isinstance(ix, slice) and ix.start == 1 and ix.stop is None and ix.step is None):
                raise Undecided("shape of the grid")
            return tok
        g.attrs.update(grid_type=self.kind, xcellcenters=xc, ycellcenters=yc,
                       shape=tok if self.kind == "unstructured" else Obj("Shape", {"__getitem__": Builtin(shape, "shape")}))
        a, b, w = ints("a", "b", "w")
        E.ax([a, b], implies(ADJ(a, b), Or(el(xc, a) != el(xc, b), el(yc, a) != el(yc, b))), [ADJ(a, b)])
        E.notes.add("the centres of neighbouring cells differ")
        # there is a cell with data below the fill elevation
        w = E.int("some.cell")
        E.assume(And(rng(w, n), Not(nanel(dem, w)), el(dem, w) < 10000000000))
        E.notes.add("some cell has an elevation, below 1e10")
        x, y, j = ints("x", "y", "j")
        HI = E.fn("lower.cell", [IS], IS)
        # lowest(x): no cell with data lies below x
        self.LOWEST = E.fn("lowest", [IS], BS)
        E.ax([x, y], implies(self.LOWEST(x), And(rng(x, n), Not(nanel(dem, x)), implies(rng(y, n), Not(nanel(dem, y)), el(dem, x) <= el(dem, y)))), [[self.LOWEST(x), el(dem, y)]])
        E.ax([x], implies(self.LOWEST(x), And(rng(x, n), Not(nanel(dem, x)))), [self.LOWEST(x)])
        h = HI(x)
        E.ax([x], implies(rng(x, n), Not(nanel(dem, x)), Not(self.LOWEST(x)), And(rng(h, n), Not(nanel(dem, h)), el(dem, h) < el(dem, x))), [self.LOWEST(x)])
        self.lowest = self.LOWEST
        self.TERM = E.fn("terminal", [IS], BS)
        t = None
        if self.cells is not None:
            m = size(E, "terminals")
            T = E.fn("terminal.at", [IS], IS)
            P = E.fn("terminal.pos", [IS], IS)
            E.ax([j], implies(rng(j, m), And(rng(T(j), n), self.TERM(T(j)))), [T(j)])
            E.ax([x], implies(self.TERM(x), And(rng(P(x), m), T(P(x)) == x)), [self.TERM(x)])
            if self.cells == "nodes":
                t = PL(n=m, get=lambda j: V("i", T(I(j))))
                t._ek = "i"
            else:
                ROW, COL, NODE = E.fn("row", [IS], IS), E.fn("column", [IS], IS), z3.Function("node", IS, IS, IS)
                E.ax([j], implies(rng(j, m), NODE(ROW(j), COL(j)) == T(j)), [T(j)])
                E.trusted.add("flopy StructuredGrid.get_node numbers (layer, row, column)")
                t = PL(n=m, get=lambda j: (V("i", ROW(I(j))), V("i", COL(I(j)))))

                def get_node(E, l):
                    l = l.snapshot()
                    e = l.get(z3.FreshConst(IS, "j"))
                    if not (isinstance(e, PL) and e.items is not None and len(e.items) == 3 and conc(e.items[0]) == 0):
                        raise Undecided("get_node")
                    return PL(n=l.n, get=lambda j: V("i", NODE(I(l.get(j).items[1]), I(l.get(j).items[2]))))
                g.attrs["get_node"] = Builtin(get_node, "get_node")
        else:
            E.ax([x], Not(self.TERM(x)), [self.TERM(x)])
        self.thr = E.const("threshold", RS)
        self.terminals = t
        self.g = g
        self.o = Obj("FlowDirections")
        return [g, dem], {} if self.check else {"check_elevations": False}

    def call(self, E, args, kw):
        init = E.repo.method("FlowDirections", "__init__")
        go = E.repo.fn(self.qual)
        if init is None or go is None:
            raise Undecided(f"{self.qual} does not exist")
        E.inline(Fn(init.qual, init.node, init.mod, self.o), args, kw)
        return E.inline(Fn(go.qual, go.node, go.mod, self.o), [V("r", self.thr)], {} if self.terminals is None else {"terminal_cells": self.terminals})

    def post(self, E, r):
        ok = isinstance(r, NA) and r.t == "i" and r.grid is self.tok and len(r.shape) == 1
        E.check("the result is an array of cells of the grid's shape", ok, "post")
        if not ok or "flow" not in E.ghost or "slope" not in E.ghost:
            E.check("directions are computed from the slopes", False, "post")
            return
        AM, AMC, POS, T, A, B2 = E.ghost["flow"]
        SLP, F = E.ghost["slope"]
        n, dem = self.n, self.dem
        OWN = geometry(E, dem, self.x, self.y, self.thr)
        x, y, z, k = ints("x", "y", "z", "k")
        fx = el(r, x)
        data = lambda c: And(rng(c, n), Not(nanel(dem, c)))
        E.check("slopes are those of the elevations and centres given, with the threshold given",
                forall([x, y], implies(rng(x, n), rng(y, n), Not(nanel(dem, x)), Not(nanel(dem, y)), SLP(x, y) == OWN(x, y))), "post")
        special = lambda x: Or(self.lowest(x), self.TERM(x), nanel(dem, x))
        E.check("lowest, terminal and no-data cells drain to themselves", forall(x, implies(rng(x, n), special(x), fx == x)), "post")
        lemma(E, "a steepest neighbour is a neighbour with data", forall([x, y], implies(AMC(x, y), And(ADJ(x, y), data(y), data(x))), [AMC(x, y)]))
        lemma(E, "no neighbour with data has a smaller slope", forall([x, y, z], implies(AMC(x, y), ADJ(x, z), data(z), SLP(x, y) <= SLP(x, z)), [[AMC(x, y), ADJ(x, z)]]))
        E.check("every other cell drains to a steepest neighbour with data, or is an unresolved sink",
                forall(x, implies(rng(x, n), Not(special(x)), Or(fx == -2, And(ADJ(x, fx), data(fx), fx != x)))), "post")
        E.check("no neighbour with data is steeper than the one drained to",
                forall([x, z], implies(rng(x, n), Not(special(x)), fx != -2, ADJ(x, z), data(z), SLP(x, fx) <= SLP(x, z))), "post")
        a, b = F(x, A(x)), F(x, B2(x))
        E.check("an unresolved sink has several steepest neighbours, or no neighbour with data",
                forall([x, z], implies(rng(x, n), Not(special(x)), fx == -2, ADJ(x, z), data(z), And(AMC(x, a), AMC(x, b), a != b))), "post")


class AreaC(Callee):
    """what the directions need of it: an array of areas, nothing else is touched (the areas themselves: C13)"""
    def apply(self, E, env):
        n = E.int("areas")
        E.assume(n >= 0)
        return E.fresh_na("area", (n,), "r")


SPECS = [FlowCell(), Fill(), Slopes()]
SPECS += [Directions(case=f"{k}, {c}" if c else k, kind=k, cells=c) for k, c in (("vertex", None), ("structured", None), ("unstructured", None), ("vertex", "nodes"), ("structured", "cells"))]
SPECS += [Directions(case="vertex, several lowest", kind="vertex", check=False), Directions(case="structured, cells, several lowest", kind="structured", cells="cells", check=False)]
CALLEES = {FD + "._calculate_flowcell": FlowCellC(FD + "._calculate_flowcell"), FD + "._calculate_slopes": SlopesC(FD + "._calculate_slopes"),
           FD + "._fill_irregular_neighbor_array": FillC(FD + "._fill_irregular_neighbor_array"),
           FD + "._shoelace_area": AreaC(FD + "._shoelace_area")}
