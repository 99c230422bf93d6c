"""Contracts of the MODFLOW 2005 reach and segment tables."""
from .segments import *

SPECS = []


class Network2005(Spec):
    """a stored or computed MF2005 numbering: `table` holds what is known about it by blocks of rows"""
    source, graph, stored_group, group = "stored", True, True, None

    def given_stream(self, s):
        if s.t == "b":
            return lambda x: lift(s.at([x])).e
        return lambda x: And(Not(nanel(s, x)), el(s, x) > 0)

    def network(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        network(E, n, f)
        self.given = self.stored = G = R = None
        kw = {}
        if self.source in ("stored", "both"):
            A = self.stored = na(E, "stored", n, "i", grid=tok, frozen="the stored stream array")
            if self.graph:
                G = E.fresh_dict("i", "graph")
                N = E.int("rows")
                E.assume(N >= 0)
                R = E.fresh_na("node_seg_rch", (N, 3), "i")
                R.ragged = True
                freeze(R, "the stored reaches")
                G.frozen = "the stored graph"
                self.table(E, A, A.snapshot(), f, n, self.stored_group, G, R, N)
        if self.source in ("given", "both"):
            self.given = na(E, "given", n, "i", grid=tok, frozen="the given stream array")
            kw["stream_array"] = self.given
        if self.group is not None:
            kw["group_segments"] = self.group
        attrs = dict(_fdir=f, _stream_array=self.stored, _graph=None, _seg_graph=G, _group_segments=self.stored_group if self.graph else None, _node_seg_rch=R, _shape=tok)
        return attrs, kw

    def table(self, E, A, marks, f, n, grouped, G, R, N):
        """what Seg proves about a numbering (block_facts)"""
        st = self.given_stream(marks)
        strm = lambda x: And(rng(x, n), st(x))
        down = lambda x: strm(el(f, x))
        pos, FR, CNT = (E.fn(k, [IS], IS) for k in ("row.of", "first.row", "rows.of"))
        m = E.int("segments")
        E.assume(m >= 0)
        row = lambda j, c: lift(R.at([j, z3.IntVal(c)])).e
        A, G = A.snapshot(), G.snapshot()
        for lab, fm in block_facts(strm, down, f, n, grouped, A, G, row, N, m, pos, FR, CNT):
            E.assume(fm)
        E.ghost["table"] = dict(strm=strm, down=down, A=A, G=G, row=row, N=N, m=m, pos=pos, FR=FR, CNT=CNT, grouped=grouped)

    def current(self, E):
        """the stored numbering is used only when it is the one asked for"""
        x, = ints("x")
        if "segments" not in E.ghost:
            E.check("segments are numbered anew when none are stored or the grouping differs", self.graph and self.group in (None, self.stored_group), "post")
            if self.source == "both":
                E.check("segments are numbered anew unless the given array is the stored one", forall([x], implies(rng(x, self.n), el(self.given, x) == el(self.stored, x))), "post")
        else:
            E.check("the requested grouping is used", self.o.attrs["_group_segments"] is (True if self.group is None else self.group), "post")

    def numbers(self, E, ks):
        """the sorted segment numbers are 1, 2, ..."""
        m, at, pos = E.ghost["table"]["m"], (lambda j: I(ks.get(j))), ks._pos
        j, = ints("j")
        natind_all(E, "keys are at least their place", I(ks.n), [], lambda k: implies(k < I(ks.n), at(k) >= k + 1), every=lambda k: [at(k)])
        natind_all(E, "places grow with the numbers", m, [], lambda k: implies(k >= 1, pos(k) >= k - 1), every=lambda k: [pos(k)])
        lemma(E, "places of the numbers", forall([j], implies(rng(j, ks.n), And(at(j) >= 1, at(j) <= m, pos(at(j)) == j)), [at(j)]))
        n = I(ks.n)
        lemma(E, "no more keys than segments", implies(n > 0, And(at(n - 1) <= m, at(n - 1) >= n)))
        lemma(E, "no fewer keys than segments", implies(m > 0, And(rng(pos(m), n), pos(m) >= m - 1)))
        lemma(E, "as many keys as segments", n == m)
        lemma(E, "segment k comes at place k - 1", forall([j], implies(j >= 1, j <= m, And(pos(j) == j - 1, at(pos(j)) == j)), [pos(j)]))
        lemma(E, "segment j + 1 comes at place j", forall([j], implies(rng(j, m), at(j) == j + 1), [at(j)]))


def late(S, name):
    """(is it set, value) of a variable that a loop sets for the first time"""
    try:
        v = S[name]
    except Undecided:
        return z3.BoolVal(False), 0
    return (v.set, v.val) if isinstance(v, Late) else (z3.BoolVal(True), v)


REACH = ["node", "k", "i", "j", "iseg", "ireach", "rchlen", "strtop", "slope", "reachID"]
REACH_FIELDS = [(a, "i") for a in ("node", "k", "i", "j", "iseg", "ireach")] + \
    [(a, "r") for a in ("rchlen", "strtop", "slope", "strthick", "strhc1", "thts", "thti", "eps", "uhc")] + [("reachID", "i"), ("outreach", "i")]
SEGMENT_FIELDS = [(a, "i") for a in ("nseg", "icalc", "outseg", "iupseg", "iprior", "nstrpts")] + [(a, "r") for a in (
    "flow", "runoff", "etsw", "pptsw", "roughch", "roughbk", "cdpth", "fdpth", "awdth", "bwdth", "hcond1", "thickm1", "elevup", "width1", "depth1", "thts1", "thti1",
    "eps1", "uhc1", "hcond2", "thickm2", "elevdn", "width2", "depth2", "thts2", "thti2", "eps2", "uhc2")]


def sfr2(E):
    """flopy's ModflowSfr2: empty tables of the right size and columns"""
    E.trusted.add("flopy ModflowSfr2.get_empty_reach_data and get_empty_segment_data: tables of the given size with the package's columns")

    def empty(fields, arg):
        def f(E, *a, **kw):
            n = a[0] if a else kw.get(arg)
            if n is None or len(a) + len(kw) != 1:
                raise Undecided("empty table")
            n = ops.dim(n)
            cols = [E.fresh_na(c, (n,), t) for c, t in fields]
            return RA(fields, n, lambda k: tuple(c.at([k]) for c in cols))
        return Builtin(f, "empty table")
    return Obj("ModflowSfr2", dict(get_empty_reach_data=empty(REACH_FIELDS, "nreaches"), get_empty_segment_data=empty(SEGMENT_FIELDS, "nsegments")))


class Reach(Network2005):
    """C20: the reach table"""
    qual = SU + "Sfr2005.reach_data"
    late = ("rec_len",)

    def setup(self, E):
        attrs, kw = self.network(E)
        n, f = self.n, self.f
        x, = ints("x")
        nr, nc = size(E, "rows"), size(E, "columns")
        ROW, COL, NODE = self.ROW, self.COL, NODE = E.fn("row", [IS], IS), E.fn("col", [IS], IS), E.fn("node", [IS, IS], IS)
        E.ax([x], implies(rng(x, n), And(rng(ROW(x), nr), rng(COL(x), nc), NODE(ROW(x), COL(x)) == x)), [[ROW(x)], [COL(x)]])
        self.top, self.x, self.y = (na(E, k, n, "r") for k in ("top", "xcenters", "ycenters"))
        X, Y = self.x, self.y
        E.ax([x], implies(rng(x, n), el(f, x) >= 0, el(f, x) != x, Or(el(X, x) != el(X, el(f, x)), el(Y, x) != el(Y, el(f, x)))), [el(f, x)])
        E.trusted.add("the square root of a sum of squares is not negative, and 0 only where all of them are 0")

        self.LEN, self.SLP = E.fn("length", [IS, IS], RS), E.fn("slope", [IS, IS], RS)

        def measure(x, y):
            """length and slope between two cells: definitions"""
            dx, dy = el(X, x) - el(X, y), el(Y, x) - el(Y, y)
            L = SQRT(dx * dx + dy * dy) * z3.Q(3, 2)
            E.assume(self.LEN(x, y) == L)
            E.assume(self.SLP(x, y) == (el(self.top, x) - el(self.top, y)) / L)

        def cell(ix):
            """the node of a row and column (simplified where both come from one node)"""
            a, b = ix
            if a.num_args() == 1 and b.num_args() == 1 and a.eq(ROW(a.arg(0))) and b.eq(COL(b.arg(0))) and a.arg(0).eq(b.arg(0)) and any(a.arg(0).eq(c) for c in E.ghost.get("looked", ())):
                return a.arg(0)
            return NODE(a, b)

        def by_cell(flat):
            freeze(flat, "the grid")
            r = NA((nr, nc), lambda ix: flat.at([cell(ix)]), "r")
            r.flat = flat
            return freeze(r, "the grid")

        def get_lrc(E, nodes):
            l = ops.tolist(E, nodes) if not is_scalar(nodes) else PL(items=[nodes])
            if l.items is None:
                raise Undecided("get_lrc")
            seen = E.ghost.setdefault("looked", [])
            for c in l.items:
                E.check("the node exists", rng(I(c), n), "requires")
                for y in seen:
                    measure(I(c), y)
                    measure(y, I(c))
                    if I(c).num_args() == 2 and "below" in E.ghost:
                        last, fst, nxt = E.ghost["below"]
                        hint(E, "the row of the next cell", I(c).arg(0) == If(last, fst, nxt))
                    hint(E, "the cell is the next downstream", I(c) == el(f, y))
                E.assume(And(rng(ROW(I(c)), nr), rng(COL(I(c)), nc)))
                seen.append(I(c))
            return PL(items=[(0, V("i", ROW(I(c))), V("i", COL(I(c)))) for c in l.items])

        def get_node(E, l):
            l = ops.tolist(E, l) if not isinstance(l, tuple) else PL(items=[l])
            if l.items is None or not all(isinstance(t, tuple) and len(t) == 3 for t in l.items):
                raise Undecided("get_node")
            for t in l.items:
                E.check("the cell is looked up in the top layer", And(I(t[0]) == 0, rng(I(t[1]), nr), rng(I(t[2]), nc)), "requires")
            return PL(items=[V("i", cell((I(t[1]), I(t[2])))) for t in l.items])
        E.trusted.add("flopy Grid.get_lrc and get_node: layer 0, row and column of a node of the top layer and back")
        delr, delc = na(E, "delr", nc, "r", frozen="the grid"), na(E, "delc", nr, "r", frozen="the grid")
        E.ax([x], implies(rng(x, nc), el(delr, x) > 0), [el(delr, x)])
        E.ax([x], implies(rng(x, nr), el(delc, x) > 0), [el(delc, x)])
        g = Obj("Grid", dict(grid_type="structured", top=by_cell(self.top), xcellcenters=by_cell(X), ycellcenters=by_cell(Y), delr=delr, delc=delc,
                             get_lrc=Builtin(get_lrc, "get_lrc"), get_node=Builtin(get_node, "get_node")))
        E.models = {"ModflowSfr2": sfr2(E)}
        self.o = Obj("Sfr2005", dict(attrs, _modelgrid=g))
        return [self.o], kw

    def place(self, E):
        t, CUM = E.ghost["table"], E.ghost["CUM"]
        a = lambda x: el(t["A"], x)
        return lambda x: CUM(a(x) - 1) + t["pos"](x) - t["FR"](a(x))

    def describes(self, E, e, x):
        """entries of a record (a function of the column) against the cell x: [(label, formula)]"""
        t, f = E.ghost["table"], self.f
        a = el(t["A"], x)
        next_ = And(t["down"](x), el(f, x) != x)
        num, nan = (lambda c: R(e(c))), (lambda c: nanof_(e(c)))
        q = z3.ToReal
        return [("the cell", num(0) == q(x)),
                ("layer, row and column", And(num(1) == 0, num(2) == q(self.ROW(x)), num(3) == q(self.COL(x)))),
                ("the segment", num(4) == q(a)),
                ("reaches are numbered down the segment", num(5) == q(t["pos"](x) - t["FR"](a) + 1)),
                ("the length is positive", And(Not(nan(6)), num(6) > 0)),
                ("the length is 1.5 times the distance to the next cell downstream", implies(next_, num(6) == self.LEN(x, el(f, x)))),
                ("the elevation is that of the cell", And(Not(nan(7)), num(7) == el(self.top, x))),
                ("the slope is a number", Not(nan(8))),
                ("the slope is the drop over the length", implies(next_, num(8) == self.SLP(x, el(f, x)))),
                ("reaches are numbered", num(9) == q(self.place(E)(x) + 1))]

    def rows(self, E, n, entry, done):
        """a table of n rows for the cells `done`; entry(j, c)"""
        t, OUT = E.ghost["table"], self.place(E)
        x, j = ints("x", "j")
        a = lambda x: el(t["A"], x)
        here = lambda x: And(t["strm"](x), done(x))
        out = [("cells have their row", forall([x], implies(here(x), rng(OUT(x), n)), [a(x), t["pos"](x)]))]
        if entry is None:
            return out + [("no rows yet", I(n) == 0)]
        node = lambda j: R(entry(j, 0))
        cell = lambda j: z3.ToInt(node(j)) if lift(entry(j, 0)).t == "r" else I(entry(j, 0))
        pats = lambda j: [[R(entry(j, c))] for c in range(10)] + [[nanof_(entry(j, c))] for c in (6, 7, 8)]
        out.append(("rows belong to cells", forall([j], implies(rng(j, n), And(here(cell(j)), OUT(cell(j)) == j)), pats(j))))
        P = pats(j)
        for lab, fm in self.describes(E, lambda c: entry(j, c), cell(j)):
            out.append((lab, forall([j], implies(rng(j, n), fm), P)))
        return out

    def make_loops(self):
        sp = self

        def entry(L):
            if L.is_empty():
                return None
            memo = {}

            def f(j, c):
                if j.get_id() not in memo:
                    memo[j.get_id()] = j, L.get(j)
                return memo[j.get_id()][1].get(c)
            return f

        def state(S, done, n):
            E, L = S.E, S["basic_rec"]
            isset, v = late(S, "rec_len")
            j, = ints("j")
            r = [("one row per cell so far", I(L.n) == n), ("reaches are counted", I(S["reachid"]) == n + 1)]
            if S.has("rec_len") or z3.is_false(isset):
                r.append(("the length of a record", And(isset == (n > 0), implies(isset, I(v) == 11))))
            if not L.is_empty():
                r.append(("records have 10 or 11 entries", forall([j], implies(rng(j, n), Or(I(L.get(j).n) == 10, I(L.get(j).n) == 11)), [I(L.get(j).n)] + [R(L.get(j).get(c)) for c in range(10)])))
            return r + sp.rows(E, n, entry(L), done)

        class Segments(Loop):
            def ghost_init(self, E, S):
                t = E.ghost["table"]
                sp.numbers(E, S.it.src.keys)
                CUM = E.ghost["CUM"] = E.fn("rows.before", [IS], IS)
                k, i = ints("k", "i")
                E.assume(CUM(z3.IntVal(0)) == 0)
                E.ax([k, i], implies(k >= 0, i == k + 1, i <= t["m"], CUM(i) == CUM(k) + t["CNT"](i)), [[CUM(i), CUM(k)]])
                natind_all(E, "rows before a segment", t["m"], [], lambda k: CUM(k) >= 0, every=lambda k: [CUM(k)])

            def inv(self, S):
                t = S.g["table"]
                return state(S, lambda x: el(t["A"], x) <= S.k, S.g["CUM"](S.k))

            def ghost_pre(self, E, S):
                t, k = E.ghost["table"], S.k
                a, b = [I(v) for v in S.it.item(k)]
                lemma(E, "the segment at this place", And(a == k + 1, a >= 1, a <= t["m"], t["CNT"](a) >= 1, b == I(t["G"].get(a)), S.g["CUM"](a) == S.g["CUM"](k) + t["CNT"](a)))
                lemma(E, "the segment below and its first row", implies(b != 0, And(t["row"](t["FR"](b), 1) == b, b >= 1, b <= t["m"])))

        class Reaches(Loop):
            def ghost_init(self, E, S):
                t, s = E.ghost["table"], S.idx("0") + 1
                idx = S["idx"]
                sel = getattr(idx, "sel", None)
                if sel is None:
                    raise Undecided("the rows of a segment are not a selection")
                FR, CNT = t["FR"](s), t["CNT"](s)
                at, pos = (lambda k: I(sel.get(k))), sel._pos
                natind_all(E, "rows of a segment start at its first", I(sel.n), [], lambda k: implies(k < I(sel.n), at(k) >= FR + k), every=lambda k: [at(k)])
                j, = ints("j")
                lemma(E, "rows of a segment are selected", forall([j], implies(j >= FR, j < FR + CNT, And(t["row"](j, 1) == s, rng(pos(j), sel.n), at(pos(j)) == j)), [[pos(j)], [t["row"](j, 1)]]))
                natind_all(E, "rows of a segment are all selected", CNT, [], lambda k: implies(k < CNT, pos(FR + k) >= k), every=lambda k: [at(k)])
                lemma(E, "the rows of a segment follow its first", forall([j], implies(rng(j, CNT), And(j < I(sel.n), at(j) == FR + j, at(pos(FR + j)) == FR + j)), [at(j)]))
                lemma(E, "a row more would be past the last", implies(I(sel.n) > CNT, And(at(CNT) >= FR + CNT, t["row"](at(CNT), 1) == s, t["row"](at(CNT), 0) == t["row"](at(CNT), 0))))
                lemma(E, "and nothing else is selected", I(sel.n) == CNT)

            def inv(self, S):
                t, s = S.g["table"], S.idx("0") + 1
                a = lambda x: el(t["A"], x)
                return state(S, lambda x: Or(a(x) < s, And(a(x) == s, t["pos"](x) - t["FR"](s) < S.k)), S.g["CUM"](s - 1) + S.k)

            def ghost_pre(self, E, S):
                t, s, k, f = E.ghost["table"], S.idx("0") + 1, S.k, sp.f
                FR, CNT, c = t["FR"](s), t["CNT"](s), (lambda j: t["row"](j, 0))
                x, b = c(FR + k), I(t["G"].get(s))
                nx = c(FR + k + 1)
                E.ghost["below"] = k + 1 == CNT, t["FR"](b), FR + k + 1
                lemma(E, "the cell of the row", And(t["strm"](x), el(t["A"], x) == s, t["pos"](x) == FR + k, t["row"](FR + k, 2) == k + 1))
                lemma(E, "the place of the row", sp.place(E)(x) == E.ghost["CUM"](S.idx("0")) + k)
                lemma(E, "the next cell of the segment", implies(k + 1 < CNT, And(el(f, x) == nx, t["strm"](nx), t["pos"](nx) == FR + k + 1, nx != x)))
                lemma(E, "the cell below the segment", implies(k + 1 == CNT, b != 0, And(el(f, x) == c(t["FR"](b)), t["strm"](el(f, x)))))
                lemma(E, "no cell below the segment", implies(k + 1 == CNT, b == 0, Not(And(t["down"](x), el(f, x) != x))))

        class Close(Loop):
            def ghost_init(self, E, S):
                E.ghost["rows0"] = S["basic_rec"].snapshot()

            def inv(self, S):
                L, L0, j = S["basic_rec"], S.g["rows0"], ints("j")[0]
                if L.is_empty():
                    return [("no rows", I(L0.n) == 0)]
                e, e0 = entry(L), entry(L0)
                pats = lambda j: [[R(e(j, c))] for c in range(10)] + [[R(e0(j, c))] for c in range(10)] + [[I(L.get(j).n)]] + [[nanof_(e(j, c))] for c in (6, 7, 8)]
                out = [("rows are kept", I(L.n) == I(L0.n)),
                       ("rows are completed so far", forall([j], implies(rng(j, L.n), I(L.get(j).n) == If(j < S.k, 11, I(L0.get(j).n))), pats(j)))]
                return out + [(f"column {c} is kept", forall([j], implies(rng(j, L.n), And(R(e(j, c)) == R(e0(j, c)), nanof_(e(j, c)) == nanof_(e0(j, c)))), pats(j))) for c in range(10)]
        return {"0": Segments(), "0.0": Reaches(), "1": Close()}

    def post(self, E, r):
        ok = isinstance(r, RA) and r.fields == REACH_FIELDS
        E.check("a reach table is returned", ok, "post")
        if not ok:
            return
        self.current(E)
        t = E.ghost["table"]
        E.check("a row per reach", I(r.n) == E.ghost["CUM"](t["m"]), "post")
        ix = [r.col(c) for c in REACH]
        a = lambda x: el(t["A"], x)
        for lab, fm in self.rows(E, r.n, lambda j, c: r.get(j)[ix[c]], lambda x: a(x) <= t["m"]):
            E.check(lab, fm, "post")


class Segments(Network2005):
    """C20: the segment table"""
    qual = SU + "Sfr2005.segment_data"

    def setup(self, E):
        attrs, kw = self.network(E)
        E.models = {"ModflowSfr2": sfr2(E)}
        self.o = Obj("Sfr2005", attrs)
        return [self.o], kw

    def make_loops(self):
        sp = self

        class List(Loop):
            def ghost_init(self, E, S):
                sp.numbers(E, S.it.src.keys)

            def inv(self, S):
                A, B, t, j = S["segids"], S["outsegs"], S.g["table"], ints("j")[0]
                r = [("two lists of one length", And(I(A.n) == S.k, I(B.n) == S.k))]
                if A.is_empty() or B.is_empty():
                    return r
                return r + [("segments so far", forall([j], implies(rng(j, S.k), And(lst(A)(j) == j + 1, lst(B)(j) == I(t["G"].get(j + 1)))), [[lst(A)(j)], [lst(B)(j)]]))]
        return {"0": List()}

    def post(self, E, r):
        ok = isinstance(r, RA) and r.fields == SEGMENT_FIELDS
        E.check("a segment table is returned", ok, "post")
        if not ok:
            return
        self.current(E)
        t, j = E.ghost["table"], ints("j")[0]
        E.check("a row per segment", I(r.n) == t["m"], "post")
        get = lambda j, c: I(r.get(j)[r.col(c)])
        E.check("segments are listed with the segment they flow into", forall([j], implies(rng(j, r.n), And(get(j, "nseg") == j + 1, get(j, "outseg") == I(t["G"].get(j + 1))))), "post")


_CASES = [dict(case="stored"), dict(case="stored, cells", stored_group=False), dict(case="computed", graph=False), dict(case="computed, cells", graph=False, group=False),
          dict(case="given", source="given", graph=False), dict(case="given, stored", source="both"), dict(case="regrouped", group=False)]
SPECS += [Reach(**k) for k in _CASES] + [Segments(**k) for k in _CASES]


def same(a, b):
    return a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id)


class Vectors(Network2005):
    """C24"""
    qual = SU + "StreamBase.create_stream_vectors"
    t = "i"

    def setup(self, E):
        n = self.n = size(E)
        tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        network(E, n, f)
        x, = ints("x")
        self.top = E.int("highest")
        E.ax([x], implies(rng(x, n), HGT(x) <= self.top), [HGT(x)])
        self.x, self.y = (na(E, k, n, "r", grid=tok, frozen="the centres of the grid") for k in ("xcenters", "ycenters"))
        self.stored = self.given = None
        kw = {}
        if self.source == "stored":
            self.stored = na(E, "stored", n, "i", grid=tok, frozen="the stored stream array")
        else:
            self.given = na(E, "given", n, self.t, nan=self.t == "r", grid=tok, frozen="the given stream array")
            kw["stream_array"] = self.given
        self.arr = self.stored if self.given is None else self.given
        if self.group is not None:
            kw["group_segments"] = self.group
        g = Obj("Grid", dict(xcellcenters=self.x, ycellcenters=self.y))
        G = E.fresh_dict("i", "stored_graph")
        self.before = dict(_stream_array=self.stored, _graph=None, _seg_graph=G, _node_seg_rch=None, _group_segments=True)
        self.o = Obj("StreamBase", dict(self.before, _fdir=f, _shape=tok, _modelgrid=g))
        return [self.o], kw

    def line(self, E):
        """number of points of a segment's line, and the cell of each"""
        t = E.ghost["table"]
        T = lambda s: I(t["G"].get(s))
        on = lambda s: And(T(s) != 0, T(s) != s)
        c = lambda j: t["row"](j, 0)
        return (lambda s: t["CNT"](s) + If(on(s), 1, 0)), (lambda s, i: If(i < t["CNT"](s), c(t["FR"](s) + i), c(t["FR"](T(s))))), T, on

    def drawn(self, E, D, vis):
        """the dictionary D holds the lines of the segments vis"""
        t = E.ghost["table"]
        LN, NODE, T, on = self.line(E)
        s, i = ints("s", "i")
        seg = lambda s: And(s >= 1, s <= t["m"])
        if conc(D.klen) == 0:
            return [("no line yet", forall(s, implies(seg(s), vis(s), LN(s) <= 1), [LN(s)]))]
        p = lambda s, i: D.get(s).get(i)
        X, Y = self.x.snapshot(), self.y.snapshot()
        return [("lines belong to segments of more than one point", forall(s, implies(D.has(s), And(seg(s), vis(s), LN(s) > 1)), [D.kidx(s)])),
                ("a segment of more than one point has a line", forall(s, implies(seg(s), vis(s), LN(s) > 1, D.has(s)), [D.kidx(s)])),
                ("a line has the segment's cells and the first of the next", forall(s, implies(D.has(s), I(D.get(s).n) == LN(s)), [D.kidx(s), I(D.get(s).n)])),
                ("a line runs through the centres of its cells in order", forall([s, i], implies(D.has(s), rng(i, LN(s)), And(R(p(s, i)[0]) == el(X, NODE(s, i)), R(p(s, i)[1]) == el(Y, NODE(s, i)))),
                                                                             [R(p(s, i)[0]), R(p(s, i)[1])]))]

    def make_loops(self):
        sp = self

        class Walk(GLoop):
            ghosts = {"VIS": ([IS], BS)}

            def ghost_init(self, E, S):
                t, f = E.ghost["table"], sp.f
                LN, NODE, T, on = sp.line(E)
                FR, CNT = t["FR"], t["CNT"]
                c = lambda j: t["row"](j, 0)
                s, i, k = ints("s", "i", "k")
                seg = lambda s: And(s >= 1, s <= t["m"])
                VIS = E.ghost["VIS"] = E.fn("visited", [IS], BS)
                E.ax([s], Not(VIS(s)), [VIS(s)])
                R, H = S["seg_graph_r"].snapshot(), S["headwaters"]
                TOP, G = E.ghost["HEAD"], t["G"]
                lemma(E, "a headwater is in the graph", forall(s, implies(seg(s), And(G.has(s), G.kat(G.kidx(s)) == s)), [TOP(s)]))
                lemma(E, "a headwater is no segment's target", forall(s, implies(seg(s), TOP(s), Not(R.has(s))), [TOP(s)]))
                lemma(E, "headwaters are listed", forall(s, implies(seg(s), TOP(s), And(G.has(s), G.kat(G.kidx(s)) == s, Not(R.has(G.kat(G.kidx(s)))), z3.BoolVal(False) if H.is_empty() else H.cnt(s) >= 1)), [TOP(s)]))
                # the order of the segments
                K = E.fn("cell.of", [IS, IS], IS)
                E.ax([s, k], K(s, k) == c(FR(s) + k), [K(s, k)])
                natind_all(E, "no cell of a segment is above its first", t["N"], [s], lambda k: implies(seg(s), k < CNT(s), HGT(K(s, k)) <= HGT(c(FR(s)))), every=lambda k: [K(s, k)])
                lemma(E, "the last cell", forall(s, implies(seg(s), And(K(s, CNT(s) - 1) == c(FR(s) + CNT(s) - 1), HGT(K(s, CNT(s) - 1)) <= HGT(c(FR(s))))), [CNT(s)]))
                lemma(E, "the last cell of a segment is not above its first", forall(s, implies(seg(s), HGT(c(FR(s) + CNT(s) - 1)) <= HGT(c(FR(s)))), [CNT(s)]))
                lemma(E, "a segment lies above the one it flows into", forall(s, implies(seg(s), on(s), And(seg(T(s)), HGT(c(FR(T(s)))) < HGT(c(FR(s))))), [T(s)]))
                lemma(E, "a segment flowing into itself is one cell", forall(s, implies(seg(s), T(s) == s, CNT(s) == 1), [T(s)]))

            def ghost_pre(self, E, S):
                return E.ghost["VIS"]

            def ghost_step(self, E, S, VIS):
                s = I(S["seg"])
                E.ghost["VIS"] = lambda x: Or(x == s, VIS(x))
                sp.rows_of(E, s, S["nodes"].snapshot())

            def inv(self, S):
                E = S.E
                t, VIS = S.g["table"], S.g["VIS"]
                LN, NODE, T, on = sp.line(E)
                s, k = ints("s", "k")
                seg = lambda s: And(s >= 1, s <= t["m"])
                H, ST, PR = S["headwaters"], S["stack"], S["processed"]
                has = lambda L, s: z3.BoolVal(False) if L.is_empty() else L.cnt(s) >= 1
                pat = lambda L, s: [] if L.is_empty() else [L.cnt(s)]
                TOP = S.g["HEAD"]
                return [("headwaters are segments", forall(s, implies(has(H, s), seg(s)), pat(H, s))),
                        ("segments to do are segments", forall(s, implies(has(ST, s), seg(s)), pat(ST, s))),
                        ("segments done are visited", forall(s, implies(has(PR, s), VIS(s)), pat(PR, s))),
                        ("only segments are visited", forall(s, implies(VIS(s), seg(s)), [VIS(s)])),
                        ("headwaters are visited or to come", forall(s, implies(seg(s), TOP(s), Or(VIS(s), has(H, s))), [TOP(s)])),
                        ("the segment below a visited one is visited or to come", forall(s, implies(VIS(s), on(s), Or(VIS(T(s)), has(ST, T(s)))), [VIS(s)]))] + sp.drawn(E, S["vectors"], VIS)
        return {"1": Walk()}

    def rows_of(self, E, s, N):
        """the nodes gathered for segment s are those of its block of rows, and the first of the segment below"""
        t = E.ghost["table"]
        LN, NODE, T, on = self.line(E)
        FR, CNT = t["FR"](s), t["CNT"](s)
        n0 = I(N.n) - If(on(s), 1, 0)
        nd = lambda j: I(N.get(j))
        at = lambda j: t["pos"](nd(j))
        j, = ints("j")
        rk = E.fn("entry.of", [IS], IS)
        E.ax([j], implies(rng(j, n0), rk(at(j)) == j), [nd(j)])
        lemma(E, "rows of the segment", forall(j, implies(rng(j, n0), And(at(j) >= FR, at(j) < FR + CNT, t["row"](at(j), 1) == s, t["row"](at(j), 0) == nd(j))), [nd(j)]))
        i, = ints("i")
        lemma(E, "rows are in order", forall([i, j], implies(i >= 0, i < j, j < n0, at(i) < at(j)), [[nd(i), nd(j)]]))
        lemma(E, "rows of the block are the segment's", forall(j, implies(j >= FR, j < FR + CNT, And(t["row"](j, 1) == s, t["pos"](t["row"](j, 0)) == j)), [[rk(j)], [t["row"](j, 1)]]))
        lemma(E, "rows of a segment are all there", forall(j, implies(j >= FR, j < FR + CNT, And(t["row"](j, 1) == s, t["pos"](t["row"](j, 0)) == j, rng(rk(j), n0), at(rk(j)) == j)), [[rk(j)], [t["row"](j, 1)]]))
        natind_all(E, "rows of a segment start at its first", n0, [], lambda k: implies(k < n0, at(k) >= FR + k), every=lambda k: [nd(k)])
        natind_all(E, "rows of a segment are all selected", CNT, [], lambda k: implies(k < CNT, rk(FR + k) >= k), every=lambda k: [nd(k)])
        lemma(E, "the rows of a segment follow its first", forall(j, implies(rng(j, CNT), And(j < n0, at(j) == FR + j)), [nd(j)]))
        lemma(E, "a row more would be past the last", implies(n0 > CNT, And(at(CNT) >= FR + CNT, at(CNT) < FR + CNT, t["row"](at(CNT), 1) == s)))
        lemma(E, "no row is missing", implies(n0 < CNT, And(n0 >= 0, at(n0) == FR + n0, n0 < n0)))
        lemma(E, "and nothing else is there", n0 == CNT)
        lemma(E, "the line has its points", I(N.n) == LN(s))
        lemma(E, "the line runs through its cells", forall(j, implies(rng(j, LN(s)), nd(j) == NODE(s, j)), [nd(j)]))

    def table(self, E, *a):
        super().table(E, *a)
        t = E.ghost["table"]
        T = lambda s: I(t["G"].get(s))
        # headwaters: segments nothing flows into
        HEAD, UP = E.ghost["HEAD"], E.ghost["UP"] = E.fn("headwater", [IS], BS), E.fn("a.segment.above", [IS], IS)
        s, k = ints("s", "k")
        seg = lambda s: And(s >= 1, s <= t["m"])
        E.ax([s, k], implies(HEAD(s), seg(k), T(k) != s), [[HEAD(s), T(k)]])
        E.ax([s], implies(seg(s), Not(HEAD(s)), And(seg(UP(s)), T(UP(s)) == s)), [HEAD(s)])

    def post(self, E, r):
        ok = isinstance(r, PD)
        E.check("a dictionary is returned", ok, "post")
        if not ok or "VIS" not in E.ghost:
            return
        t = E.ghost["table"]
        LN, NODE, T, on = self.line(E)
        VIS, HEAD, UP = E.ghost["VIS"], E.ghost["HEAD"], E.ghost["UP"]
        c = lambda j: t["row"](j, 0)
        s, = ints("s")
        seg = lambda s: And(s >= 1, s <= t["m"])
        lemma(E, "headwaters are visited", forall(s, implies(seg(s), Or(VIS(s), And(Not(HEAD(s)), seg(UP(s)), T(UP(s)) == s))), [[VIS(s)], [T(s)]]))
        lemma(E, "the segment below a visited one is visited", forall(s, implies(VIS(s), on(s), VIS(T(s))), [[VIS(s)], [T(s)]]))
        induct(E, "every segment is visited, except one that nothing but itself flows into", [s],
               lambda s: self.top - HGT(c(t["FR"](s))), lambda s: implies(seg(s), Or(VIS(s), T(s) == s)), [lambda s: VIS(s), lambda s: T(s)])
        x, = ints("x")
        E.check("the numbering is that of the stream array and grouping asked for", And(t["grouped"] is (True if self.group is None else self.group), self.current_marks(E)), "post")
        E.check("the stored network is kept", all(same(self.o.attrs.get(k), v) for k, v in self.before.items()), "post")
        for lab, fm in self.drawn(E, r, lambda s: z3.BoolVal(True)):
            E.check(lab, fm, "post")

    def current_marks(self, E):
        x, = ints("x")
        t = E.ghost["table"]
        return forall(x, implies(rng(x, self.n), t["strm"](x) == And(rng(x, self.n), self.given_stream(self.arr.snapshot())(x))))


SPECS += [Vectors(case=c, **k) for c, k in (("stored", {}), ("stored, cells", dict(group=False)), ("given, real", dict(source="given", t="r")))]
