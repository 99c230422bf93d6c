"""Contract of the MF2005 segment numbering."""
from .stream import *

SPECS = []
Z, ONE = z3.IntVal(0), z3.IntVal(1)


def block_facts(strm, down, f, n, grouped, A, G, row, N, m, pos, FR, CNT):
    """the rows of a reach table: segment s occupies the CNT(s) rows from FR(s) on, in flow order; row(j, c) is an entry"""
    a = lambda x: el(A, x)
    j, i, s, x = ints("j", "i", "s", "x")
    seg = lambda s: And(s >= 1, s <= m)
    inside = lambda s, j: And(j >= FR(s), j < FR(s) + CNT(s))
    c = lambda j: row(j, 0)
    T = lambda s: I(G.get(s))
    bottom = lambda s: c(FR(s) + CNT(s) - 1)
    out = lambda x: down(x) if grouped else And(down(x), el(f, x) != x)
    return [("numbers of cells", forall([x], implies(rng(x, n), If(strm(x), seg(a(x)), a(x) == 0)), [a(x)])),
            ("rows are reaches of stream cells", forall([j], implies(rng(j, N), And(strm(c(j)), row(j, 1) == a(c(j)), pos(c(j)) == j)), [c(j), row(j, 1), row(j, 2)])),
            ("rows lie in the block of their segment", forall([j], implies(rng(j, N), And(inside(a(c(j)), j), row(j, 2) == j - FR(a(c(j))) + 1)), [c(j), row(j, 1), row(j, 2)])),
            ("stream cells have their row", forall([x], implies(strm(x), And(rng(pos(x), N), c(pos(x)) == x)), [pos(x), a(x)])),
            ("blocks", forall([s], implies(seg(s), And(CNT(s) >= 1, FR(s) >= 0, FR(s) + CNT(s) <= N)), [CNT(s), FR(s)])),
            ("a block holds rows of its segment", forall([s, j], implies(seg(s), inside(s, j), row(j, 1) == s), [[FR(s), row(j, 1)], [FR(s), c(j)]])),
            ("the next row of a block is the next cell", forall([s, j, i], implies(seg(s), j >= FR(s), i == j + 1, i < FR(s) + CNT(s), And(el(f, c(j)) == c(i))), [[FR(s), c(j), c(i)]])),
            ("the graph has an entry for every segment", forall([s], G.has(s) == seg(s), [G.kidx(s)])),
            ("a segment flows into the segment below its last cell", forall([s], implies(seg(s), T(s) == If(out(bottom(s)), a(el(f, bottom(s))), 0)), [T(s), CNT(s)])),
            ("the segment below begins at the next cell", forall([s], implies(seg(s), T(s) != 0, And(seg(T(s)), c(FR(T(s))) == el(f, bottom(s)))), [T(s)]))]


class Seg(Spec):
    """C19"""
    qual = SU + "StreamBase._mf2005_stream_connectivity"
    source, grouped = "stored", True
    numpy_nodes = True

    def setup(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        x, y = ints("x", "y")
        E.ax([x], implies(rng(x, n), And(el(f, x) >= -2, el(f, x) < n)), [el(f, x)])
        stored, given, strm = stream_input(self, E, n, tok, self.source)
        strm_ = self.strm = lambda x: And(rng(x, n), strm(x))
        down = self.down = lambda x: strm_(el(f, x))
        top = self.top = E.int("highest")
        E.ax([x], implies(strm_(x), And(HGT(x) >= 0, HGT(x) <= top, implies(down(x), Or(el(f, x) == x, HGT(el(f, x)) < HGT(x))))), [el(f, x)])
        if self.grouped:
            self.segments(E)
        self.o = Obj("StreamBase", dict(_fdir=f, _stream_array=stored, _graph=None, _seg_graph=None, _node_seg_rch=None, _group_segments=None, _shape=tok))
        kw = {} if given is None else {"stream_array": given}
        if not self.grouped:
            kw["group_segments"] = False
        return [self.o], kw

    def segments(self, E):
        """definitions: inflows of a cell, the first cell of its segment, its place in the segment"""
        f, strm, down = self.f, self.strm, self.down
        x, y = ints("x", "y")
        D, U, W, S, L = (z3.Function(fresh_name(s), IS, IS) for s in ("inflows", "inflow", "other.inflow", "segment.start", "place"))
        self.D, self.U, self.S, self.L = D, U, S, L
        inflow = lambda y, x: And(strm(y), el(f, y) == x)
        # D is the number of stream cells draining into a stream cell, counted up to two; U is one of them, W another
        E.ax([x], And(D(x) >= 0, D(x) <= 2, implies(strm(x), And(implies(D(x) >= 1, inflow(U(x), x)), implies(D(x) == 2, And(inflow(W(x), x), W(x) != U(x)))))), [D(x)])
        E.ax([y], implies(strm(y), down(y), And(D(el(f, y)) >= 1, implies(D(el(f, y)) == 1, U(el(f, y)) == y))), [el(f, y)])
        start = self.start = lambda x: Or(el(f, x) == x, D(x) != 1)
        self.last = lambda x: Or(Not(down(x)), start(el(f, x)))
        E.ax([x], implies(strm(x), And(S(x) == If(start(x), x, S(U(x))), L(x) == If(start(x), ONE, L(U(x)) + 1))), [[S(x), D(x)], [L(x), D(x)]])
        up = lambda *xs: self.top - HGT(xs[0])
        induct(E, "a segment begins at its first cell", [x], up,
               lambda x: implies(strm(x), D(x) >= 0, And(strm(S(x)), start(S(x)), S(S(x)) == S(x), L(S(x)) == 1, L(x) >= 1, HGT(S(x)) >= HGT(x),
                                                         (L(x) == 1) == start(x), start(x) == (S(x) == x))), [S, L])
        induct(E, "a place in a segment belongs to one cell", [x, y], up,
               lambda x, y: implies(strm(x), strm(y), D(x) >= 0, D(y) >= 0, S(x) == S(y), L(x) == L(y), x == y), [lambda x, y: [L(x), L(y)]])
        g = lambda y: implies(strm(y), Not(self.last(y)), And(S(el(f, y)) == S(y), L(el(f, y)) == L(y) + 1))
        E.check("lemma: a segment goes on in the cell below", forall([y], g(y)), "lemma")
        E.ax([y], g(y), [[S(y), el(f, y)], [L(y), el(f, y)]])

    def topology_rank(self, E):
        C = E.ghost["LC"] if self.grouped else E.ghost["numbers"].kat
        return lambda s: If(s == 0, Z, HGT(C(s - 1)) + 1)

    def make_loops(self):
        sp = self
        rk = lambda S, x: S.g["nodes"]._pos(x)
        at = lambda S, j: I(S.g["nodes"].get(j))

        def cells(d, k, S):
            """the graph of the stream cells ranked below k"""
            x, j = ints("x", "j")
            r = [("cells are listed so far", And(I(d.klen) == k, forall([j], implies(rng(j, k), d.kat(j) == at(S, j)), [d.kat(j), at(S, j)]))),
                 ("cells have their place", forall([x], d.kidx(x) == If(And(sp.strm(x), rk(S, x) < k), rk(S, x), z3.IntVal(-1)), [d.kidx(x)]))]
            if d._get is not None:
                v = d.get(x)
                none = v.none if isinstance(v, Opt) else z3.BoolVal(v is None)
                val = v.val if isinstance(v, Opt) else v
                g = none == Not(sp.down(x))
                if val is not None:
                    g = And(g, implies(sp.down(x), I(val) == el(sp.f, x)))
                r.append(("cells lead to the cell below", forall([x], implies(sp.strm(x), rk(S, x) < k, g), [d.kidx(x)] + ([I(val), none] if val is not None else []))))
            return r

        class Graph(Loop):
            def ghost_init(self, E, S):
                E.ghost["nodes"] = S["strm_nodes"].sel

            def inv(self, S):
                return cells(S["graph"], S.k, S)

        def numbered(d, iseg, has):
            x, = ints("x")
            r = [("the next number", iseg == I(d.klen) + 1), ("which cells begin a segment", forall([x], d.has(x) == has(x), [d.kidx(x)])), ("0 or more", I(d.klen) >= 0),
                 ("cells keep their place", pdwf(d))]
            if d._get is not None:
                r.append(("segments are numbered in order", forall([x], implies(d.has(x), I(d.get(x)) == d.kidx(x) + 1), [I(d.get(x)), d.kidx(x)])))
            return r

        def pdwf(d):
            j, = ints("j")
            return forall([j], implies(rng(j, d.klen), d.kidx(d.kat(j)) == j), [d.kat(j)])

        first = lambda x: Or(sp.D(x) == 0, And(el(sp.f, x) == x, sp.D(x) == 1))

        class Starts(Loop):
            def ghost_init(self, E, S):
                nd, g = S["nodesdn"], S["graph"].snapshot()
                E.ghost["nd"] = nd.snapshot()
                sel, nodes = getattr(nd, "origin", None), E.ghost["nodes"]
                if sel is None:
                    raise Undecided("nodesdn is not a filtered list")
                y, i, x = ints("y", "i", "x")
                v = lambda i: I(nd.get(i))
                Y = lambda i: I(nodes.get(I(sel.get(i))))
                P = lambda y: sel._pos(nodes._pos(y))
                n = I(nd.n)
                E.ghost["P"] = P
                lemma(E, "listed targets have a source", forall([i], implies(rng(i, n), And(sp.strm(Y(i)), sp.down(Y(i)), el(sp.f, Y(i)) == v(i), P(Y(i)) == i)), [v(i), I(sel.get(i))]))
                lemma(E, "targets are listed", forall([y], implies(sp.strm(y), sp.down(y), And(rng(P(y), n), v(P(y)) == el(sp.f, y))), [el(sp.f, y)]))
                lemma(E, "the target of a cell is listed at its place", forall([y], implies(sp.strm(y), sp.down(y), Y(P(y)) == y), [el(sp.f, y)]))
                c = lambda x: nd.cnt(x)
                lemma(E, "cells without inflow are not listed", forall([x], implies(sp.strm(x), (c(x) >= 1) == (sp.D(x) >= 1)), [c(x), sp.D(x)]))

            def inv(self, S):
                return numbered(S["segstrts"], I(S["iseg"]), lambda x: And(sp.strm(x), rk(S, x) < S.k, first(x)))

        class Joins(Loop):
            def inv(self, S):
                d, nd = S["segstrts"], S.g["nd"]
                x, j = ints("x", "j")
                v = lambda j: I(nd.get(j))
                r = numbered(d, I(S["iseg"]), lambda x: d.has(x))
                return [r[0]] + r[2:] + [("cells that begin a segment", forall([x], implies(d.has(x), And(sp.strm(x), Or(first(x), sp.D(x) == 2))), [d.kidx(x)])),
                                         ("sources begin a segment", forall([x], implies(sp.strm(x), first(x), d.has(x)), [d.kidx(x)])),
                                         ("confluences so far begin a segment", forall([j], implies(rng(j, S.k), sp.D(v(j)) == 2, d.has(v(j))), [v(j)]))]

            def on_exit(self, E, S):
                d, x = S["segstrts"], ints("x")[0]
                lemma(E, "a cell begins a segment", forall([x], d.has(x) == And(sp.strm(x), sp.start(x)), [d.kidx(x), sp.D(x)]))

        def state(S, visited, k, E=None):
            """what is known after the segments below k are walked, with `visited` the cells passed"""
            g, x, j, s = S.g, *ints("x", "j", "s")
            d = g["starts"]
            idx = lambda x: d.kidx(sp.S(x))
            BASE, LC = g["BASE"], g["LC"]
            P = lambda x: BASE(sp.S(x)) + sp.L(x) - 1
            A, G, rows = S["stream_array"], S["seg_graph"], S["nd_seg_rch"]
            N = I(rows.n)
            r = [("cells passed carry their segment", forall([x], implies(rng(x, sp.n), el(A, x) == If(sp.strm(x), If(visited(x), idx(x) + 1, ONE), Z)), [el(A, x)])),
                 ("segments so far are in the graph", forall([s], G.has(s) == And(s >= 1, s <= k), [G.kidx(s)]))]
            if G._get is not None:
                to = lambda c: If(sp.down(c), d.kidx(el(sp.f, c)) + 1, Z)
                r += [("segments lead to the segment below", forall([s], implies(s >= 1, s <= k, I(G.get(s)) == to(LC(s - 1))), [I(G.get(s))]))]
            r += [("segments so far have a last cell", forall([j], implies(rng(j, k), And(sp.strm(LC(j)), idx(LC(j)) == j, sp.last(LC(j)))), [LC(j)])),
                  ("no cell of a segment is below its last", forall([x], implies(sp.strm(x), idx(x) < k, sp.L(x) <= sp.L(LC(idx(x)))), [sp.L(x), idx(x)])),
                  ("and no other", forall([x], implies(sp.strm(x), idx(x) < k, sp.last(x), x == LC(idx(x))), [idx(x)]))]
            if rows.is_empty():
                r.append(("no rows yet", forall([x], Not(visited(x)))))
            else:
                row = lambda j, c: I(rows.get(j).get(c))
                i, = ints("i")
                r += [("rows come in blocks", forall([i, j], implies(rng(i, k), j >= BASE(d.kat(i)), j < BASE(d.kat(i)) + sp.L(LC(i)), And(rng(j, N), row(j, 1) == i + 1)),
                                                     [[BASE(d.kat(i)), row(j, 1)], [BASE(d.kat(i)), row(j, 0)]])),
                      ("cells passed have their row", forall([x], implies(visited(x), And(rng(P(x), N), row(P(x), 0) == x)), [P(x), sp.L(x)])),
                      ("rows belong to the cells passed", forall([j], implies(rng(j, N), And(visited(row(j, 0)), P(row(j, 0)) == j, row(j, 1) == idx(row(j, 0)) + 1,
                                                                                             row(j, 2) == sp.L(row(j, 0)))), [row(j, 0), row(j, 1), row(j, 2)]))]
            return r

        class Segments(GLoop):
            ghosts = {"BASE": ([IS], IS), "LC": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["BASE"], E.ghost["LC"] = E.fn("BASE", [IS], IS), E.fn("LC", [IS], IS)
                E.ghost["starts"] = S["segstrts"].snapshot()

            def visited(self, S, k):
                d = S.g["starts"]
                return lambda x: And(sp.strm(x), d.kidx(sp.S(x)) < k)

            def inv(self, S):
                return state(S, self.visited(S, S.k), S.k)

            def ghost_pre(self, E, S):
                B, N, s0 = E.ghost["BASE"], I(S["nd_seg_rch"].n), E.ghost["starts"].kat(S.k)
                B1 = E.fn("BASE", [IS], IS)
                E.ghost["BASE"] = B1
                E.ghost["s0"], E.ghost["N0"] = s0, N
                x, = ints("x")
                E.ax([x], B1(x) == If(x == s0, N, B(x)), [B1(x)])
                d = E.ghost["starts"]
                lemma(E, "cells passed are in other segments", forall([x], implies(sp.strm(x), d.kidx(sp.S(x)) < S.k, sp.S(x) != s0), [sp.S(x), sp.L(x)]))
                lemma(E, "a new segment begins", And(sp.strm(s0), sp.start(s0), d.kidx(s0) == S.k, sp.S(s0) == s0, sp.L(s0) == 1))

        class Walk(GLoop):
            def visited(self, S, rch):
                d, s0 = S.g["starts"], S.g["s0"]
                return lambda x: And(sp.strm(x), Or(d.kidx(sp.S(x)) < S.idx("3"), And(sp.S(x) == s0, sp.L(x) < rch)))

            def inv(self, S):
                cur, rch, x = I(S["node"]), I(S["rch"]), ints("x")[0]
                s0 = S.g["s0"]
                return [("the walk is in the segment", And(sp.strm(cur), sp.S(cur) == s0, sp.L(cur) == rch, rch >= 1)),
                        ("one row per cell", I(S["nd_seg_rch"].n) == S.g["N0"] + rch - 1),
                        ("the number of the segment", I(S["seg"]) == S.idx("3") + 1),
                        ("rows of the segment", self.block(S)),
                        ("the last cell is ahead", forall([x], implies(sp.strm(x), sp.S(x) == s0, sp.L(x) < rch, Not(sp.last(x))), [sp.L(x)]))] + \
                    state(S, self.visited(S, rch), S.idx("3"))

            def block(self, S):
                rows, j = S["nd_seg_rch"], ints("j")[0]
                if rows.is_empty():
                    return I(S["rch"]) == 1
                row = lambda j, c: I(rows.get(j).get(c))
                return And(S.g["N0"] >= 0, forall([j], implies(j >= S.g["N0"], j < I(rows.n), row(j, 1) == S.idx("3") + 1), [[row(j, 1)], [row(j, 0)]]))

            def variant(self, S):
                return (HGT(I(S["node"])),)

            def on_break(self, E, S):
                cur, k, LC, s0 = I(S["node"]), S.idx("3"), E.ghost["LC"], E.ghost["s0"]
                x, = ints("x")
                E.ghost["LC"] = lambda j: If(j == k, cur, LC(j))
                induct(E, "nothing of the segment is left", [x], lambda x: sp.L(x), lambda x: implies(sp.strm(x), sp.S(x) == s0, sp.L(x) <= sp.L(cur)), [sp.L])

        class Number(Loop):
            def inv(self, S):
                d, x = S["nd_seg"], ints("x")[0]
                r = numbered(d, I(S["seg"]), lambda x: d.has(x))
                seen = lambda x: And(sp.strm(x), rk(S, x) < S.k)
                return [r[0]] + r[2:] + [("only stream cells are numbered", forall([x], implies(d.has(x), sp.strm(x)), [d.kidx(x)])),
                                         ("cells so far are numbered", forall([x], implies(seen(x), d.has(x)), [d.kidx(x), rk(S, x)])),
                                         ("and the cells below them", forall([x], implies(seen(x), sp.down(x), d.has(el(sp.f, x))), [el(sp.f, x)]))]

            def on_exit(self, E, S):
                d, x = S["nd_seg"], ints("x")[0]
                E.ghost["numbers"] = d.snapshot()
                lemma(E, "stream cells are numbered", forall([x], d.has(x) == sp.strm(x), [d.kidx(x), rk(S, x)]))

        class Single(Loop):
            def inv(self, S):
                d, A, G, rows = S.g["numbers"], S["stream_array"], S["seg_graph"], S["nd_seg_rch"]
                x, s, j = ints("x", "s", "j")
                num = lambda x: d.kidx(x) + 1
                seen = lambda x: And(sp.strm(x), rk(S, x) < S.k)
                r = [("cells so far carry their segment", forall([x], implies(seen(x), el(A, x) == num(x)), [el(A, x), rk(S, x)])),
                     ("cells off the streams carry 0", forall([x], implies(rng(x, sp.n), Not(sp.strm(x)), el(A, x) == 0), [el(A, x)])),
                     ("segments so far are in the graph", forall([s], G.has(s) == And(s >= 1, s <= I(d.klen), rk(S, d.kat(s - 1)) < S.k), [G.kidx(s)]))]
                if G._get is not None:
                    r.append(("segments lead to the segment below", forall([x], implies(seen(x), I(G.get(num(x))) == If(And(sp.down(x), el(sp.f, x) != x), num(el(sp.f, x)), Z)),
                                                                           [d.kidx(x), el(sp.f, x)])))
                r.append(("one row per cell", I(rows.n) == S.k))
                if not rows.is_empty():
                    row = lambda j, c: I(rows.get(j).get(c))
                    r.append(("rows are in the order of the cells", forall([j], implies(rng(j, S.k), And(row(j, 0) == at(S, j), row(j, 1) == num(at(S, j)), row(j, 2) == 1)),
                                                                         [row(j, 0), row(j, 1), row(j, 2), at(S, j)])))
                return r

        class Topo(Loop):
            def ghost_init(self, E, S):
                E.ghost["sg"] = S["seg_graph"].snapshot()

            def inv(self, S):
                t, g, x = S["topo"].attrs["topology"], S.g["sg"], ints("x")[0]
                r = [("segments are connected so far", forall([x], t.has(x) == And(g.has(x), g.kidx(x) < S.k), [t.kidx(x)]))]
                if t._get is not None:
                    r.append(("to the segment below", forall([x], implies(g.has(x), g.kidx(x) < S.k, I(t.get(x)) == I(g.get(x))), [I(t.get(x))])))
                return r

        class Rows(Loop):
            def ghost_init(self, E, S):
                E.ghost["rows"] = S["nd_seg_rch"].snapshot()
                M, g, P, st = S["segid_mapper"], S.g["sg"], S.g["order"], S.g["sorted"]
                s, = ints("s")
                if not st.is_empty():
                    lemma(E, "segments are sorted", forall([s], implies(g.has(s), And(rng(P(s), st.n), I(st.get(P(s))) == s)), [P(s), g.kidx(s)]))
                lemma(E, "only segments have a new number", forall([s], M.has(s) == Or(s == 0, g.has(s)), [M.kidx(s), g.kidx(s)]))
                lemma(E, "the new number is the place in the order", forall([s], implies(g.has(s), I(M.get(s)) == P(s) + 1), [I(M.get(s)), P(s), g.kidx(s)]))
                lemma(E, "0 stays 0", I(M.get(Z)) == 0)

            def inv(self, S):
                L, L0, P, j = S["nd_seg_rch"], S.g["rows"], S.g["order"], ints("j")[0]
                if L.is_empty():
                    return []
                row, row0 = (lambda j, c: I(L.get(j).get(c))), (lambda j, c: I(L0.get(j).get(c)))
                return [("rows are kept", I(L.n) == I(L0.n)),
                        ("rows are renumbered so far", forall([j], implies(rng(j, L0.n), And(row(j, 0) == row0(j, 0), row(j, 2) == row0(j, 2),
                                                                                           row(j, 1) == If(j < S.k, P(row0(j, 1)) + 1, row0(j, 1)))), [row(j, 0), row(j, 1), row(j, 2), row0(j, 0)]))]

        class Renumber(Loop):
            def inv(self, S):
                A, M, B = S["stream_array"], S["segid_mapper"], S["seg_array"]
                x, = ints("x")
                v = el(A, x)
                return [("cells are renumbered so far", forall([x], implies(rng(x, sp.n), el(B, x) == If(And(M.has(v), M.kidx(v) < S.k), I(M.get(v)), Z)), [el(B, x)]))]
        return {"0": Graph(), "1": Starts(), "2": Joins(), "3": Segments(), "3.0": Walk(), "4": Number(), "5": Single(), "6": Topo(), "7": Rows(), "8": Renumber()}

    def post(self, E, r):
        o, n, f, strm, down = self.o, self.n, self.f, self.strm, self.down
        A, G, C, R = (o.attrs[a] for a in ("_stream_array", "_seg_graph", "_graph", "_node_seg_rch"))
        ok = isinstance(A, NA) and A.t == "i" and A.grid is self.tok and isinstance(r, PD) and r is G and isinstance(C, PD) and isinstance(R, NA)
        E.check("segments, graphs and reaches are stored", ok and o.attrs["_group_segments"] is self.grouped, "post")
        if not ok:
            return
        g, P, st = E.ghost, E.ghost["order"], E.ghost["sorted"]
        x, y, i, j = ints("x", "y", "i", "j")
        m = I(st.n) if not st.is_empty() else Z
        sg = g["sg"]
        if G._get is not None:
            lemma(E, "the graph lists new numbers", forall([x], implies(sg.has(x), And(I(sg.kat(sg.kidx(x))) == x, G.has(P(x) + 1))), [P(x), sg.kidx(x)]))
            if not st.is_empty():
                v = lambda x: I(st.get(x - 1))
                lemma(E, "new numbers belong to segments", forall([x], implies(x >= 1, x <= m, And(sg.has(v(x)), P(v(x)) == x - 1)), [G.kidx(x)]))
            lemma(E, "and nothing else", forall([x], implies(G.has(x), And(x >= 1, x <= m)), [G.kidx(x)]))
        a = lambda x: el(A, x)
        sid = (lambda x: g["starts"].kidx(self.S(x)) + 1) if self.grouped else (lambda x: g["numbers"].kidx(x) + 1)
        lemma(E, "stream cells are in a segment", forall([x], implies(strm(x), And(sg.has(sid(x)))), [a(x)]))
        lemma(E, "the number of a stream cell", forall([x], implies(strm(x), a(x) == P(sid(x)) + 1), [a(x)]))
        E.check("one number per cell", I(A.shape[0]) == n, "post")
        E.check("cells off the streams get 0", forall(x, implies(rng(x, n), Not(strm(x)), a(x) == 0)), "post")
        E.check("stream cells get a number up to the number of segments", forall(x, implies(strm(x), And(a(x) >= 1, a(x) <= m))), "post")
        E.check("the graph has an entry for every segment", forall(i, G.has(i) == And(i >= 1, i <= m)), "post")
        if self.grouped:
            d, start, last, L = g["starts"], self.start, self.last, self.L
            w = lambda i: d.kat(I(st.get(i - 1)) - 1)
            E.check("first cells of segments do not share a number", forall([x, y], implies(strm(x), strm(y), start(x), start(y), a(x) == a(y), x == y)), "post")
            E.check("a segment goes on below until a confluence", forall(x, implies(strm(x), down(x), Not(start(el(f, x))), a(el(f, x)) == a(x))), "post")
        else:
            d, last = g["numbers"], lambda x: z3.BoolVal(True)
            L = lambda x: ONE
            w = lambda i: d.kat(I(st.get(i - 1)) - 1)
            E.check("no two stream cells share a number", forall([x, y], implies(strm(x), strm(y), a(x) == a(y), x == y)), "post")
        if not st.is_empty():
            E.check("every number is used", forall(i, implies(i >= 1, i <= m, And(strm(w(i)), a(w(i)) == i))), "post")
        loop = lambda x: el(f, x) == x
        to = If(down(x), a(el(f, x)), Z) if self.grouped else If(And(down(x), Not(loop(x))), a(el(f, x)), Z)
        if G._get is not None:
            E.check("a segment flows into the segment of the cell its last cell drains to", forall(x, implies(strm(x), last(x), I(G.get(a(x))) == to)), "post")
        E.check("a segment is numbered before the one it flows into", forall(x, implies(strm(x), last(x), down(x), Not(loop(x)), a(x) < a(el(f, x)))), "post")
        E.check("the cell graph lists the stream cells", forall(x, C.has(x) == strm(x)), "post")
        if C._get is not None:
            v = C.get(x)
            none, val = (v.none, v.val) if isinstance(v, Opt) else (z3.BoolVal(v is None), v)
            E.check("the cell graph leads to the stream cell below", forall(x, implies(strm(x), And(none == Not(down(x)), True if val is None else implies(down(x), I(val) == el(f, x))))), "post")
        if len(R.shape) != 2:
            E.check("no reaches without streams", forall(x, Not(strm(x))), "post")
            return
        row = lambda j, c: lift(R.at([j, z3.IntVal(c)])).e
        E.check("three columns", R.shape[1] == 3 and R.t == "i", "post")
        N = I(R.shape[0])
        E.check("every row is a reach of a stream cell", forall(j, implies(rng(j, N), And(strm(row(j, 0)), row(j, 1) == a(row(j, 0)), row(j, 2) == L(row(j, 0))))), "post")
        pos = (lambda x: g["BASE"](self.S(x)) + L(x) - 1) if self.grouped else (lambda x: g["nodes"]._pos(x))
        E.check("no cell has two rows", forall(j, implies(rng(j, N), pos(row(j, 0)) == j)), "post")
        E.check("every stream cell has its row", forall(x, implies(strm(x), And(rng(pos(x), N), row(pos(x), 0) == x))), "post")
        # the table by blocks, as callers use it: first row, number of rows, first and last cell of a segment number
        if not st.is_empty():
            mark = len(E.hyps)
            lemma(E, "the sizes are sizes", And(n >= 1, m >= 0, N >= 0))
            FR, CNT, TOP, BOT = (E.fn(k, [IS], IS) for k in ("first.row", "rows.of", "top", "bottom"))
            s, p = ints("s", "p")
            seg = lambda s: And(s >= 1, s <= m)
            i0 = lambda s: I(st.get(s - 1)) - 1
            E.ax([s], TOP(s) == d.kat(i0(s)), [[TOP(s)], [FR(s)], [CNT(s)]])
            if self.grouped:
                LC = g["LC"]
                E.ax([s], And(FR(s) == g["BASE"](TOP(s)), CNT(s) == self.L(BOT(s)), BOT(s) == LC(i0(s))), [[FR(s)], [CNT(s)], [BOT(s)]])
            else:
                E.ax([s], And(FR(s) == g["nodes"]._pos(TOP(s)), CNT(s) == 1, BOT(s) == TOP(s)), [[FR(s)], [CNT(s)], [BOT(s)]])
            E.ax([x], implies(strm(x), And(row(pos(x), 0) == x, rng(pos(x), N))), [a(x)])
            lemma(E, "numbers of cells", forall([x], implies(rng(x, n), If(strm(x), seg(a(x)), a(x) == 0)), [a(x)]))
            lemma(E, "the graph by number", forall([s], G.has(s) == seg(s), [G.kidx(s)]))
            lemma(E, "the cell below is a cell", forall([x], implies(strm(x), el(f, x) >= 0, rng(el(f, x), n)), [el(f, x)]))
            lemma(E, "what a row says", forall([j], implies(rng(j, N), And(strm(row(j, 0)), row(j, 1) == a(row(j, 0)), row(j, 2) == L(row(j, 0)), pos(row(j, 0)) == j)), [row(j, 0), row(j, 1), row(j, 2)]))
            if G._get is not None:
                lemma(E, "where a last cell leads", forall([x], implies(strm(x), last(x), I(G.get(a(x))) == to), [[a(x), el(f, x)]]))
            lemma(E, "the first cell of a segment number", forall([s], implies(seg(s), And(strm(TOP(s)), a(TOP(s)) == s)), [[TOP(s)], [FR(s)], [CNT(s)]]))
            lemma(E, "segments have their number", forall([x], implies(strm(x), And(seg(a(x)), i0(a(x)) == sid(x) - 1)), [a(x)]))
            lemma(E, "cells of a segment have its first cell", forall([x], implies(strm(x), TOP(a(x)) == (self.S(x) if self.grouped else x)), [a(x)]))
            if self.grouped:
                lemma(E, "the last cell of a segment number", forall([s], implies(seg(s), And(strm(BOT(s)), self.S(BOT(s)) == TOP(s), last(BOT(s)))), [[TOP(s)], [BOT(s)], [CNT(s)], [FR(s)]]))
                lemma(E, "its number", forall([s], implies(seg(s), a(BOT(s)) == s), [[TOP(s)], [BOT(s)], [CNT(s)], [FR(s)]]))
                lemma(E, "no place is beyond the last", forall([x], implies(strm(x), And(L(x) >= 1, L(x) <= CNT(a(x)), FR(a(x)) == g["BASE"](self.S(x)))), [a(x)]))
                lemma(E, "nothing but the last cell is last", forall([x], implies(strm(x), last(x), x == BOT(a(x))), [a(x)]))
                r0 = g["rows"]
                row0 = lambda j, c: I(r0.get(j).get(c))
                inb = lambda s, j: And(seg(s), j >= FR(s), j < FR(s) + CNT(s))
                both = lambda s, j: [[k(s), row(j, c)] for k in (FR, CNT) for c in (0, 1)]
                lemma(E, "the order lists a segment once", forall([s], implies(seg(s), P(i0(s) + 1) == s - 1), [[TOP(s)], [FR(s)], [CNT(s)], [BOT(s)]]))
                lemma(E, "rows are renumbered", forall([j], implies(rng(j, N), row(j, 1) == P(row0(j, 1)) + 1), [row(j, 0), row(j, 1)]))
                lemma(E, "rows of a block keep together", forall([s, j], implies(inb(s, j), And(rng(j, N), row0(j, 1) == i0(s) + 1)), both(s, j)))
                lemma(E, "a segment goes on below", forall([x], implies(strm(x), Not(last(x)), And(strm(el(f, x)), self.S(el(f, x)) == self.S(x), L(el(f, x)) == L(x) + 1, a(el(f, x)) == a(x))), [[a(x), el(f, x)]]))
                lemma(E, "last cells lead to first cells", forall([x], implies(strm(x), last(x), down(x), And(self.S(el(f, x)) == el(f, x), L(el(f, x)) == 1)), [[a(x), el(f, x)]]))
                lemma(E, "the first cell is at place 1", forall([s], implies(seg(s), And(self.S(TOP(s)) == TOP(s), L(TOP(s)) == 1)), [[TOP(s)], [FR(s)], [CNT(s)], [BOT(s)]]))
            E.first = mark
            if self.grouped:
                lemma(E, "the first row of a block is the first cell", forall([s], implies(seg(s), row(FR(s), 0) == TOP(s)), [[TOP(s)], [FR(s)], [CNT(s)], [BOT(s)]]))
                lemma(E, "and are renumbered together", forall([s, j], implies(inb(s, j), row(j, 1) == s), both(s, j)))
                lemma(E, "rows know their cell", forall([s, j], implies(inb(s, j), And(strm(row(j, 0)), a(row(j, 0)) == s, pos(row(j, 0)) == j)), both(s, j)))
                lemma(E, "the place of a row in its block", forall([s, j], implies(inb(s, j), L(row(j, 0)) == j - FR(s) + 1), both(s, j)))
                lemma(E, "the cell of a row that is not the last goes on", forall([s, j], implies(inb(s, j), j + 1 < FR(s) + CNT(s), Not(last(row(j, 0)))), both(s, j)))
                lemma(E, "the last row of a block is the last cell", forall([s], implies(seg(s), And(pos(BOT(s)) == FR(s) + CNT(s) - 1, row(FR(s) + CNT(s) - 1, 0) == BOT(s))), [[FR(s)], [CNT(s)], [BOT(s)]]))
            else:
                lemma(E, "the row of a segment", forall([s], implies(seg(s), And(row(FR(s), 0) == TOP(s), rng(FR(s), N))), [[FR(s)], [TOP(s)], [CNT(s)]]))
            if G._get is not None:
                lemma(E, "where the last cell of a segment number leads", forall([s], implies(seg(s), I(G.get(s)) == If(down(BOT(s)) if self.grouped else And(down(BOT(s)), Not(loop(BOT(s)))), a(el(f, BOT(s))), Z)),
                                                                                 [[I(G.get(s))], [BOT(s)], [FR(s)]]))
            for lab, fm in block_facts(strm, down, f, n, self.grouped, A, G, row, N, m, pos, FR, CNT):
                E.check(f"table by blocks: {lab}", fm, "post")
                E.assume(fm)
            E.first = 0
        if self.grouped:
            E.check("reaches are numbered from 1 down the segment", forall(x, implies(strm(x), And(implies(start(x), L(x) == 1), implies(down(x), Not(start(el(f, x))),
                                                                                                  L(el(f, x)) == L(x) + 1)))), "post")
            E.check("reaches of a segment are consecutive rows", forall(x, implies(strm(x), down(x), Not(start(el(f, x))), pos(el(f, x)) == pos(x) + 1)), "post")


SPECS += [Seg(case=s + ("" if g else ", cells"), source=s, grouped=g) for s in ("stored", "given", "boolean") for g in (True, False)]
