"""Contracts of stream_util."""
from ..spec import *
from ..ops import SQRT


class Delineate(Spec):
    """C14"""
    qual = "stream_util.StreamBase.delineate_streams"
    scalar, boundary = True, False

    def setup(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        self.facc = na(E, "facc", n, "r", nan=True, frozen="the flow accumulation")
        self.fdir = na(E, "fdir", n, "i", frozen="the flow direction array")
        self.o = o = Obj("StreamBase", dict(_facc=self.facc, _fdir=self.fdir, _shape=tok, _nnodes=V("i", n), _stream_array=None,
                                            _graph=empty_dict(), _seg_graph=empty_dict(), _node_seg_rch=None))
        if self.scalar:
            self.thr = V("r", E.const("thr", RS))
        else:
            self.thr = na(E, "thr", n, "r", nan=True, grid=tok, frozen="the threshold array")
        self.bb = na(E, "boundary", n, "i", grid=tok, frozen="the basin boundary") if self.boundary else None
        return [o, self.thr], ({"basin_boundary": self.bb} if self.boundary else {})

    def post(self, E, r):
        i = ints("i")[0]
        n = self.n
        ok = isinstance(r, NA) and r.t == "i" and r.grid is self.tok
        E.check("the result is an integer array of the grid's shape", ok, "post")
        if not ok:
            return
        t = self.thr.e if self.scalar else el(self.thr, i)
        tn = z3.BoolVal(False) if self.scalar else nanel(self.thr, i)
        want = And(Not(nanel(self.facc, i)), Not(tn), el(self.facc, i) >= t)
        if self.boundary:
            want = And(want, el(self.bb, i) != 0)
        E.check("a cell is a stream exactly when it accumulates the threshold inside the boundary",
                forall(i, implies(rng(i, n), el(r, i) == If(want, 1, 0))), "post")
        s = self.o.attrs["_stream_array"]
        E.check("the result is stored", isinstance(s, NA) and forall(i, implies(rng(i, n), el(s, i) == el(r, i))), "post")
        E.check("stale connectivity is dropped", self.o.attrs["_graph"] is None and self.o.attrs["_seg_graph"] is None, "post")


SPECS = [Delineate(case=f"{'scalar' if s else 'array'} threshold, {'boundary' if b else 'no boundary'}", scalar=s, boundary=b)
         for s in (True, False) for b in (False, True)]

SU = "stream_util."
RANK = z3.Function("rank", IS, IS)      # decreases along the connections of a topology


def tree(has, T):
    """0 is no key, every connection leads to a key or 0, and there is no closed loop longer than one"""
    x, = ints("x")
    return [("0 is not numbered", Not(has(z3.IntVal(0)))),
            ("connections lead to listed elements or 0", lambda R: forall([x], implies(has(x), Or(T(x) == 0, has(T(x)))), [T(x)])),
            ("connections form no closed loop", lambda R: And(R(z3.IntVal(0)) == 0, forall([x], implies(has(x), And(R(x) >= 1, Or(T(x) == x, R(T(x)) < R(x)))), [T(x), R(x)])))]


def sorted_ensures(has, T, r, P):
    """the list r holds every key once, each before the key it is connected to"""
    j, x = ints("j", "x")
    n = I(r.n)
    at = lambda j: I(r.get(j))
    return [("listed elements are keys", forall([j], implies(rng(j, n), And(has(at(j)), P(at(j)) == j)), [at(j)])),
            ("every key is listed", forall([x], implies(has(x), And(rng(P(x), n), at(P(x)) == x)), [P(x)])),
            ("a key comes before the key it is connected to", forall([x], implies(has(x), T(x) != 0, T(x) != x, P(x) < P(T(x))), [P(x), T(x)]))]


class Sort(Spec):
    """topological order of a stream network"""
    qual = SU + "Topology.sort"
    util = SU + "Topology._sort_util"

    def setup(self, E):
        d = self.d = E.fresh_dict("i", "topology")
        d.frozen = "the topology"
        self.o = Obj("Topology", dict(topology=d, nss=None))
        self.has = lambda x: d.has(x)
        self.T = lambda x: I(d.get(x))
        for lab, f in tree(self.has, self.T):
            E.assume(f(RANK) if callable(f) else f)
        return [self.o], {}

    def make_loops(self):
        sp = self
        Z = z3.IntVal(0)
        vis = lambda S: (lambda x, d=S["visited"]: And(d.has(x), B(lift(d.get(x)).e)))
        key = lambda x: Or(x == 0, sp.has(x))

        def keys(S):
            d, x = S["visited"], ints("x")[0]
            return ("visited has an entry for every key", forall([x], d.has(x) == key(x), [d.has(x)]))

        def stacked(st, P, member):
            """the list st holds exactly the members, at position P, each before its connection"""
            x, j = ints("x", "j")
            n = I(st.n)
            at = lst(st)
            return [("listed elements are done", forall([j], implies(rng(j, n), And(sp.has(at(j)), member(at(j)), P(at(j)) == j)), [at(j)])),
                    ("what is done is listed", forall([x], implies(sp.has(x), member(x), And(rng(P(x), n), at(P(x)) == x)), [[sp.T(x), P(x)], P(x)])),
                    ("connections of what is done are done, later", forall([x], implies(sp.has(x), member(x), sp.T(x) != 0, sp.T(x) != x,
                                                                                       And(member(sp.T(x)), P(x) < P(sp.T(x)))), [sp.T(x)]))]

        class Init(Loop):
            def inv(self, S):
                d, x = S["visited"], ints("x")[0]
                t = sp.d
                return [("visited has an entry for every key so far", forall([x], d.has(x) == Or(x == 0, And(t.has(x), t.kidx(x) < S.k)), [d.has(x)])),
                        ("nothing is visited yet", forall([x], implies(d.has(x), Not(B(lift(d.get(x)).e)))))]

        class Main(GLoop):
            ghosts = {"P": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["P"] = E.fn("P", [IS], IS)

            def inv(self, S):
                v, j = vis(S), ints("j")[0]
                it = S.it.src
                return [keys(S)] + stacked(S["stack"], S.g["P"], v) + [
                    ("keys so far are done", forall([j], implies(rng(j, S.k), I(it.get(j)) != 0, v(I(it.get(j)))), [I(it.get(j))]))]

            def on_exit(self, E, S):
                v, x, L = vis(S), ints("x")[0], S.it.src
                g = lambda x: implies(sp.has(x), And(v(x), I(L.get(L._pos(x))) == x))
                E.check("lemma: every key is done in the end", forall([x], g(x)), "lemma")
                E.ax([x], g(x), [sp.T(x), sp.has(x)])

        class Walk(GLoop):
            ghosts = {"Q": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["Q"] = E.fn("Q", [IS], IS)
                d = S["visited"].snapshot()
                E.ghost["V0"] = lambda x: And(d.has(x), B(lift(d.get(x)).e))
                E.ghost["seg0"] = I(S["seg"])

            def ghost_pre(self, E, S):
                return I(S["path"].n), I(S["seg"])

            def ghost_step(self, E, S, pre):
                Q, (n, s) = E.ghost["Q"], pre
                E.ghost["Q"] = lambda x: If(x == s, n, Q(x))

            def variant(self, S):
                s = I(S["seg"])
                return RANK(s), If(vis(S)(s), 0, 1)

            def inv(self, S):
                p, seg, v, V0, Q = S["path"], I(S["seg"]), vis(S), S.g["V0"], S.g["Q"]
                x, i, j = ints("x", "i", "j")
                n = I(p.n)
                at = lst(p)
                nx = lambda x: If(x == 0, Z, sp.T(x))
                pat = lambda *a: [list(a)] if len(a) > 1 else list(a)
                return [keys(S), ("the walk is at a key or at the end", key(seg)),
                        ("the path is new", forall([j], implies(rng(j, n), And(key(at(j)), v(at(j)), Not(V0(at(j))), Q(at(j)) == j)), pat(at(j)))),
                        ("0 is the end of the path", forall([j], implies(rng(j, n), at(j) == 0, j == n - 1), pat(at(j)))),
                        ("the path follows the connections", forall([i, j], implies(i >= 0, j == i + 1, j < n, at(j) == nx(at(i))), pat(at(i), at(j)))),
                        ("the walk is at the next key", If(n >= 1, seg == nx(at(n - 1)), seg == S.g["seg0"])),
                        ("the path starts at the given key", implies(n >= 1, at(Z) == S.g["seg0"])),
                        ("the path descends", forall([i, j], implies(i >= 0, i < j, j < n, RANK(at(i)) > RANK(at(j))), pat(at(i), at(j)))),
                        ("what is visited was so or is on the path", forall([x], v(x) == Or(V0(x), And(rng(Q(x), n), at(Q(x)) == x)), [Q(x), S["visited"].has(x), lift(S["visited"].get(x)).e]))]

        class Back(GLoop):
            ghosts = {"P": ([IS], IS)}

            def ghost_init(self, E, S):
                if "P" not in E.ghost:
                    E.ghost["P"] = E.fn("P", [IS], IS)
                E.ghost["p"] = S["path"].snapshot()

            def ghost_pre(self, E, S):
                return I(S["stack"].n), E.ghost["P"], S.k

            def ghost_step(self, E, S, pre):
                n, P, k = pre
                s = I(S["seg"])
                E.ghost["P"] = lambda x: If(s == 0, P(x), If(sp.T(s) == 0, If(x == s, n, P(x)), If(x == s, Z, P(x) + 1)))

            def inv(self, S):
                p, V0, Q = S.g["p"], S.g["V0"], S.g["Q"]
                n = I(p.n)
                done = lambda x: Or(V0(x), And(Q(x) >= n - S.k, Q(x) < n, lst(p)(Q(x)) == x))
                last = lst(p)(n - S.k)
                return stacked(S["stack"], S.g["P"], done) + [("the last one treated is done", implies(S.k >= 1, And(done(last), Q(last) == n - S.k)))]
        u = self.util
        return {"0": Init(), "1": Main(), u + ":0": Walk(), u + ":1": Back()}

    def post(self, E, r):
        ok = isinstance(r, PL) and not r.hb
        E.check("the result is a list", ok, "post")
        if ok:
            for lab, f in sorted_ensures(self.has, self.T, r, E.ghost["P"]):
                E.check(lab, f, "post")


class SortC(Callee):
    """Topology.sort; the caller names the rank that shows there is no closed loop"""

    def apply(self, E, env):
        d = env["self"].attrs["topology"]
        if d._get is None:
            return PL(items=[])
        s = d.snapshot()
        has, T = (lambda x: s.has(x)), (lambda x: I(s.get(x)))
        R = E.spec.topology_rank(E)
        for lab, f in tree(has, T):
            self.need(E, lab, f(R) if callable(f) else f)
        P = E.fn("order", [IS], IS)
        r = E.fresh(("list", "i"), "sorted")
        for lab, f in sorted_ensures(has, T, r, P):
            E.assume(f)
        r.order = P
        E.ghost["order"], E.ghost["sorted"] = P, r
        return r


HGT = z3.Function("height", IS, IS)      # decreases along the flow directions between stream cells


def stream_input(sp, E, n, tok, source):
    """stream cells of a stored or given array: returns (argument, predicate)"""
    if source == "stored":
        a = na(E, "stored", n, "i", grid=tok, frozen="the stored stream array")
        s = a.snapshot()
        return a, None, lambda x: el(s, x) > 0
    t = {"given": "r", "boolean": "b"}[source]
    a = na(E, "given", n, t, nan=t == "r", grid=tok, frozen="the given stream array")
    s = a.snapshot()
    if t == "b":
        return None, a, lambda x: lift(s.at([x])).e
    return None, a, lambda x: And(Not(nanel(s, x)), el(s, x) > 0)


class Mf6(Spec):
    """C16"""
    qual = SU + "StreamBase._mf6_stream_connectivity"
    source = "stored"

    def setup(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        x, = ints("x")
        E.ax([x], implies(rng(x, n), el(f, x) < n), [el(f, x)])
        stored, given, self.strm = stream_input(self, E, n, tok, self.source)
        down = self.down = lambda x: And(el(f, x) >= 0, self.strm(el(f, x)))
        E.ax([x], implies(rng(x, n), self.strm(x), And(HGT(x) >= 0, implies(down(x), Or(el(f, x) == x, HGT(el(f, x)) < HGT(x))))), [el(f, x)])
        self.o = Obj("StreamBase", dict(_fdir=f, _stream_array=stored, _graph=None, _seg_graph=None, _group_segments=None, _shape=tok))
        return [self.o], ({} if given is None else {"stream_array": given})

    def topology_rank(self, E):
        at = E.ghost["nodes"].get
        return lambda i: If(i == 0, z3.IntVal(0), HGT(I(at(i - 1))) + 1)

    def make_loops(self):
        sp = self
        at = lambda S, j: I(S.g["nodes"].get(j))
        rk = lambda S, x: S.g["nodes"]._pos(x)
        to = lambda S, x: If(sp.down(x), rk(S, el(sp.f, x)) + 1, z3.IntVal(0))

        def numbered(S, val):
            a, x = S["stream_array"], ints("x")[0]
            return forall([x], implies(rng(x, sp.n), el(a, x) == If(sp.strm(x), val(x), 0)), [el(a, x)])

        def mapping(d, k, val):
            x, = ints("x")
            has = forall([x], d.has(x) == And(x >= 1, x <= k), [d.has(x)])
            if d._get is None:
                return has
            return And(has, forall([x], implies(x >= 1, x <= k, I(d.get(x)) == val(x)), [I(d.get(x))]))

        class Number(Loop):
            def ghost_init(self, E, S):
                E.ghost["nodes"] = S["strm_nodes"].sel

            def inv(self, S):
                return [("stream cells are numbered so far", numbered(S, lambda x: If(rk(S, x) < S.k, rk(S, x) + 1, z3.IntVal(1))))]

        class Connect(Loop):
            def inv(self, S):
                return [("stream cells are connected so far", mapping(S["topo"].attrs["topology"], S.k, lambda x: to(S, at(S, x - 1))))]

        class Remap(Loop):
            def inv(self, S):
                P, st = S.g["order"], S.g["sorted"]
                t = lambda x: to(S, at(S, I(st.get(x - 1)) - 1))
                return [("connections are renumbered so far", mapping(S["new_map"], S.k, lambda x: If(t(x) == 0, z3.IntVal(0), P(t(x)) + 1)))]

        class Renumber(Loop):
            def inv(self, S):
                P = S.g["order"]
                return [("stream cells are renumbered so far", numbered(S, lambda x: If(rk(S, x) < S.k, P(rk(S, x) + 1) + 1, rk(S, x) + 1)))]
        return {"0": Number(), "1": Connect(), "2": Remap(), "3": Renumber()}

    def post(self, E, r):
        A = self.o.attrs["_stream_array"]
        ok = isinstance(A, NA) and A.t == "i" and isinstance(r, PD)
        E.check("the reach array and the graph are stored", ok and self.o.attrs["_graph"] is r and self.o.attrs["_group_segments"] is False, "post")
        if not ok:
            return
        n, f = self.n, self.f
        st, P, nodes = E.ghost["sorted"], E.ghost["order"], E.ghost["nodes"]
        m = I(st.n)
        x, y, i = ints("x", "y", "i")
        E.check("one number per cell", I(A.shape[0]) == n, "post")
        E.check("cells off the streams get 0", forall([x], implies(rng(x, n), Not(self.strm(x)), el(A, x) == 0)), "post")
        E.check("stream cells get a number up to the number of reaches", forall([x], implies(rng(x, n), self.strm(x), And(el(A, x) >= 1, el(A, x) <= m))), "post")
        E.check("no two stream cells share a number", forall([x, y], implies(rng(x, n), rng(y, n), self.strm(x), self.strm(y), x != y, el(A, x) != el(A, y))), "post")
        w = lambda i: I(nodes.get(I(st.get(i - 1)) - 1))
        E.check("every number is used", forall([i], implies(i >= 1, i <= m, And(rng(w(i), n), self.strm(w(i)), el(A, w(i)) == i))), "post")
        E.check("the graph has an entry for every reach", forall([i], r.has(i) == And(i >= 1, i <= m)), "post")
        E.check("a reach flows into the reach of the cell it drains to",
                forall([x], implies(rng(x, n), self.strm(x), I(r.get(el(A, x))) == If(self.down(x), el(A, el(f, x)), 0))), "post")
        E.check("a reach is numbered before the one it flows into",
                forall([x], implies(rng(x, n), self.strm(x), self.down(x), el(f, x) != x, el(A, x) < el(A, el(f, x)))), "post")


SPECS += [Sort(), Mf6(case="stored"), Mf6(case="given", source="given"), Mf6(case="boolean", source="boolean")]
CALLEES = {SU + "Topology.sort": SortC(SU + "Topology.sort")}


class Connections(Spec):
    """C17"""
    qual = SU + "Sfr6.connectiondata"

    def setup(self, E):
        d = self.d = E.fresh_dict("i", "graph")
        d.frozen = "the graph"
        self.s = d.snapshot()
        x, = ints("x")
        E.ax([x], implies(self.s.has(x), And(x >= 1, Or(self.T(x) == 0, self.s.has(self.T(x))))), [self.T(x)])
        self.o = Obj("Sfr6", dict(_graph=None if self.given else d, _stream_array=None))
        return [self.o], (dict(graph=d) if self.given else {})
    given = True

    def T(self, x):
        return I(self.s.get(x))

    def links(self, u):
        return And(self.T(u) != 0, self.T(u) != u)

    def linked(self, n, at, k, rk, U, D):
        """lists of connections of the reaches ranked below k: at(r, j) is entry j of the list of reach r, which has length n(r)"""
        r, j = ints("r", "j")
        v = at(r, j)
        up = And(self.s.has(v), self.T(v) == r, v != r, rk(v) < k, U(v) == j)
        dn = And(v == -self.T(r), self.links(r), rk(r) < k, D(r) == j)
        return [("listed connections exist", forall([r, j], implies(self.s.has(r), rng(j, n(r)), And(v != 0, If(v > 0, up, dn))), [v])),
                ("inflows are listed", forall([r], implies(self.s.has(r), self.links(r), rk(r) < k, And(rng(U(r), n(self.T(r))), at(self.T(r), U(r)) == r)), [U(r)])),
                ("outflows are listed", forall([r], implies(self.s.has(r), self.links(r), rk(r) < k, And(rng(D(r), n(r)), at(r, D(r)) == -self.T(r))), [D(r)])),
                ("the outflow comes last", forall([r], implies(self.s.has(r), self.links(r), rk(r) < k, D(r) == n(r) - 1), [D(r)]))]

    def make_loops(self):
        sp = self

        def conn(S):
            d = S["conn_dict"]
            x, j = ints("x", "j")
            L = lambda r: d.get(r)
            at = lambda r, j: I(L(r).get(j)) if not L(r).is_empty() else NONE(j)
            return d, (lambda r: I(L(r).n)), at

        def keys(S, d):
            x, j = ints("x", "j")
            ks = S.g["keys"]
            return [("one row per reach in order", And(I(d.klen) == I(ks.n), forall([j], implies(rng(j, ks.n), d.kat(j) == I(ks.get(j))), [d.kat(j), I(ks.get(j))]),
                                                      forall([x], d.has(x) == sp.s.has(x), [d.kidx(x)])))]

        class Link(GLoop):
            ghosts = {"U": ([IS], IS), "D": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["U"], E.ghost["D"] = E.fn("U", [IS], IS), E.fn("D", [IS], IS)
                E.ghost["keys"] = S.it.src.keys
                E.ghost["rk"] = S.it.src.keys._pos

            def ghost_pre(self, E, S):
                d, n, at = conn(S)
                a, b = I(S["reach"]), I(S["reach_to"])
                return E.ghost["U"], E.ghost["D"], a, b, n(a)

            def ghost_step(self, E, S, pre):
                U, D, a, b, n = pre
                k = S.k - 1
                rk = E.ghost["rk"]
                live = And(b != 0, b != a)
                E.ghost["U"] = lambda x: If(And(live, x == a), z3.IntVal(0), If(And(live, sp.T(x) == b, rk(x) < k), U(x) + 1, U(x)))
                E.ghost["D"] = lambda x: If(And(live, x == a), n, If(And(live, x == b), D(x) + 1, D(x)))

            def inv(self, S):
                d, n, at = conn(S)
                r, = ints("r")
                return keys(S, d) + [("list lengths", forall([r], implies(sp.s.has(r), n(r) >= 0), [n(r)]))] + sp.linked(n, at, S.k, S.g["rk"], S.g["U"], S.g["D"])

            def on_exit(self, E, S):
                pass

        class Rows(Loop):
            def ghost_init(self, E, S):
                E.ghost["conn"] = S["conn_dict"].snapshot()

            def inv(self, S):
                return [("rows so far", sp.rows(S["connection_data"], S.k, S.g))]
        return {"0": Link(), "1": Rows()}

    def rows(self, L, k, g):
        m, j = ints("m", "j")
        if L.is_empty():
            return k == 0
        c, ks = g["conn"], g["keys"]
        key = I(ks.get(m))
        row, src = L.get(m), c.get(key)
        z = lambda v: If(v > 0, v - 1, v + 1)
        body = And(I(row.n) == 1 + I(src.n), I(row.get(z3.IntVal(0))) == key - 1)
        if src.items is None:
            body = And(body, forall([j], implies(rng(j, src.n), I(row.get(j + 1)) == z(I(src.get(j)))), [I(row.get(j + 1)), I(src.get(j))]))
        return And(I(L.n) == k, forall([m], implies(rng(m, k), body), [I(row.n), I(ks.get(m))]))

    def post(self, E, r):
        ok = isinstance(r, PL) and not r.hb
        E.check("the result is a list", ok, "post")
        if not ok:
            return
        T, has = self.T, self.s.has
        if r.is_empty():
            u, = ints("u")
            E.check("no row is missing", forall([u], Not(has(u))), "post")
            return
        ks, U = E.ghost["keys"], E.ghost["U"]
        pos = ks._pos
        u, m, m2, j = ints("u", "m", "m2", "j")
        row = lambda u: r.get(pos(u))
        at = lambda u, j: I(row(u).get(j))
        n = lambda u: I(row(u).n)
        E.check("one row per reach", forall([u], implies(has(u), And(rng(pos(u), r.n), n(u) >= 1, at(u, z3.IntVal(0)) == u - 1)), [pos(u)]), "post")
        E.check("rows are in the order of the reaches", forall([m, m2], implies(m >= 0, m < m2, m2 < I(r.n), I(r.get(m).get(z3.IntVal(0))) < I(r.get(m2).get(z3.IntVal(0))))), "post")
        E.check("the reach it flows into comes last, negative", forall([u], implies(has(u), self.links(u), And(n(u) >= 2, at(u, n(u) - 1) == 1 - T(u))), [T(u)]), "post")
        E.check("every other entry is a reach that flows into it", forall([u, j], implies(has(u), j >= 0, j + 1 < If(self.links(u), n(u) - 1, n(u)),
                                                                                        And(has(at(u, j + 1) + 1), T(at(u, j + 1) + 1) == u, at(u, j + 1) + 1 != u, U(at(u, j + 1) + 1) == j))), "post")
        E.check("every reach that flows into it is listed", forall([u], implies(has(u), self.links(u), And(U(u) >= 0, U(u) + 1 < If(self.links(T(u)), n(T(u)) - 1, n(T(u))),
                                                                                                      at(T(u), U(u) + 1) == u - 1))), "post")


SPECS += [Connections(case="given"), Connections(case="stored", given=False)]


# ---------------------------------------------------------------- runoff routing
class SegC(Callee):
    """what _mf2005_stream_connectivity leaves behind, as far as its callers here need it"""

    def apply(self, E, env):
        o, a, grp = env["self"], env["stream_array"], env.get("group_segments", True)
        if a is None:
            a = o.attrs["_stream_array"]
        if not isinstance(a, NA):
            raise Undecided("_mf2005_stream_connectivity: arguments outside its contract")
        s = a.snapshot() if len(a.shape) == 1 else None
        if s is None:
            raise Undecided("_mf2005_stream_connectivity: stream array of two dimensions")
        n = I(a.shape[0])
        f, y = o.attrs["_fdir"], ints("y")[0]
        strm = (lambda g: lambda x: And(rng(x, n), g(x)))(E.spec.given_stream(s))
        self.need(E, "flow directions are cells or negative", forall([y], implies(rng(y, n), And(el(f, y) >= -2, el(f, y) < n)), [el(f, y)]))
        self.need(E, "stream cells form no closed loop", forall([y], implies(strm(y), And(HGT(y) >= 0, implies(strm(el(f, y)), Or(el(f, y) == y, HGT(el(f, y)) < HGT(y))))), [el(f, y)]))
        r = E.fresh_na("segments", (a.shape[0],), "i", False, o.attrs["_shape"])
        x, = ints("x")
        st = E.spec.given_stream(s)
        E.ax([x], implies(rng(x, n), And(el(r, x) >= 0, (el(r, x) > 0) == st(x))), [el(r, x)])
        for a, v in (("_stream_array", r), ("_seg_graph", E.fresh_dict("i", "segment_graph")), ("_graph", E.fresh_dict("i", "graph")),
                     ("_node_seg_rch", E.fresh_na("node_seg_rch", (E.int("rows"), 3), "i")), ("_group_segments", grp)):
            E.set_attr(o, a, v)
        E.ghost["segments"] = r
        if hasattr(E.spec, "table"):
            R, G = o.attrs["_node_seg_rch"], o.attrs["_seg_graph"]
            R.ragged = True
            E.spec.table(E, r, s, f, n, grp, G, R, I(R.shape[0]))
        return o.attrs["_seg_graph"]


class Runoff(Spec):
    """C21"""
    qual = SU + "Sfr2005.irunbnd"
    source, graph, t = "stored", "stored", "i"
    no_contract = ()

    def given_stream(self, s):
        if s.t == "b":
            return lambda x: lift(s.at([x])).e
        return lambda x: And(Not(nanel(s, x)), el(s, x) > 0)

    def setup(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        x, = ints("x")
        E.ax([x], implies(rng(x, n), And(el(f, x) >= -2, el(f, x) < n)), [el(f, x)])
        E.ax([x], implies(rng(x, n), And(HGT(x) >= 0, implies(el(f, x) >= 0, el(f, x) != x, HGT(el(f, x)) < HGT(x)))), [el(f, x)])
        self.given = self.stored = None
        if self.source in ("stored", "both"):
            self.stored = na(E, "stored", n, "i", grid=tok, frozen="the stored stream array")
            s = self.stored.snapshot()
            E.ax([x], implies(rng(x, n), el(s, x) >= 0), [el(s, x)])
        kw = {}
        if self.source in ("given", "both"):
            self.given = na(E, "given", n, self.t, nan=self.t == "r", grid=tok, frozen="the given stream array")
            kw["stream_array"] = self.given
            if self.t == "r":
                # numbers of segments are whole numbers
                s = self.given.snapshot()
                E.ax([x], implies(rng(x, n), Not(nanel(s, x)), el(s, x) > 0, z3.IsInt(el(s, x))), [el(s, x)])
        if self.graph == "given":
            kw["segment_graph"] = E.fresh_dict("i", "given_graph")
        self.o = Obj("Sfr2005", dict(_fdir=f, _stream_array=self.stored, _seg_graph=E.fresh_dict("i", "stored_graph") if self.graph == "stored" else None,
                                     _graph=None, _group_segments=True, _node_seg_rch=None, _shape=tok))
        return [self.o], kw

    def streams(self, E):
        """the array of segment numbers in use"""
        if "segments" in E.ghost:
            return E.ghost["segments"].snapshot()
        return (self.given if self.given is not None else self.stored).snapshot()

    def first(self, E):
        """FS(x): the first stream cell on the path of x, -1 if there is none (definition by recursion)"""
        if "FS" not in E.ghost:
            f, n = self.f, self.n
            sa = self.streams(E)
            st = self.given_stream(sa)
            FS = E.ghost["FS"] = z3.Function(fresh_name("first.stream.cell"), IS, IS)
            x, = ints("x")
            E.ax([x], implies(rng(x, n), FS(x) == If(st(x), x, If(Or(el(f, x) < 0, el(f, x) == x), z3.IntVal(-1), FS(el(f, x))))), [[el(f, x), FS(x)], [el(sa, x), FS(x)]])
            induct(E, "the path of a cell leads to a stream cell or to none", [x], HGT,
                   lambda x: implies(rng(x, n), And(FS(x) >= -1, implies(FS(x) >= 0, And(rng(FS(x), n), st(FS(x)), HGT(FS(x)) <= HGT(x))))), [FS])
            E.ghost["strm"] = st
            v = lambda x: el(sa, x) if sa.t == "i" else z3.ToInt(el(sa, x))
            E.ghost["num"] = v
        return E.ghost["FS"], E.ghost["strm"], E.ghost["num"]

    def make_loops(self):
        sp = self

        def listed(S):
            d = S["fdir_r"]
            L = lambda r: d.get(r)
            at = (lambda r, j: NONE(j)) if d._get is None or L(z3.IntVal(0)).is_empty() else (lambda r, j: I(L(r).get(j)))
            ln = (lambda r: z3.IntVal(0)) if d._get is None else (lambda r: I(L(r).n))
            return d, at, ln

        class Rev(GLoop):
            ghosts = {"U": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["U"] = E.fn("U", [IS], IS)

            def ghost_pre(self, E, S):
                d, at, ln = listed(S)
                t = el(sp.f, S.k)
                return If(d.has(t), ln(t), 0), S.k, E.ghost["U"]

            def ghost_step(self, E, S, pre):
                m, k, U = pre
                E.ghost["U"] = lambda x: If(x == k, m, U(x))

            def inv(self, S):
                d, at, ln = listed(S)
                f, U = sp.f, S.g["U"]
                t, j, y = ints("t", "j", "y")
                return [("listed cells drain into the cell", forall([t, j], implies(d.has(t), rng(j, ln(t)), And(rng(at(t, j), S.k), el(f, at(t, j)) == t)), [at(t, j)])),
                        ("lists have a length", forall([t], implies(d.has(t), ln(t) >= 0), [ln(t)])),
                        ("cells so far are listed", forall([y], implies(rng(y, S.k), And(d.has(el(f, y)), rng(U(y), ln(el(f, y))), at(el(f, y), U(y)) == y)), [U(y), el(f, y)]))]

        def state(S, k, stack=None):
            FS, st, num = sp.first(S.E)
            f, n = sp.f, sp.n
            a, vis = S["irunbnd"], S["visited"]
            x, y = ints("x", "y")
            open_ = (lambda v: z3.BoolVal(False)) if stack is None else (lambda v: stack.has(v))
            drains = lambda y: And(rng(y, n), Not(st(y)), el(f, y) >= 0)
            sel = S.g["sel"]
            return [("numbers so far are those of the first stream cell", forall([x], implies(rng(x, n), Or(el(a, x) == 0, And(FS(x) >= 0, el(a, x) == num(FS(x))))), [el(a, x)])),
                    ("what drains into a numbered cell is numbered or waits", forall([y], implies(drains(y), el(a, el(f, y)) != 0, Or(el(a, y) != 0, open_(el(f, y)))), [el(f, y), el(a, y)])),
                    ("what drains into a visited cell is numbered", forall([y], implies(drains(y), vis.has(el(f, y)), el(a, y) != 0), [el(f, y), el(a, y)])),
                    ("stream cells so far are numbered", forall([x], implies(rng(x, n), st(x), sel._pos(x) < k, el(a, x) != 0), [el(a, x), sel._pos(x)]))]

        class Streams(Loop):
            def ghost_init(self, E, S):
                sp.first(E)
                E.ghost["sel"] = S["stream_cells"].sel

            def inv(self, S):
                return state(S, S.k)

        class Climb(GLoop):
            ghosts = {"V": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["V"] = V = E.fn("unvisited_below", [IS], IS)
                vis = S["visited"].snapshot()
                E.assume(counts(V, sp.n, lambda x: Not(vis.has(x))))

            def ghost_pre(self, E, S):
                V = E.ghost["V"]
                natind(E, "the number of unvisited cells is not negative", sp.n, lambda k: V(k) >= 0)
                return S["visited"].snapshot()

            def ghost_step(self, E, S, old):
                V, vis, c = E.ghost["V"], S["visited"], I(S["node"])
                E.ghost["V"] = lambda k: V(k) - If(And(Not(old.has(c)), vis.has(c), k > c), 1, 0)

            def variant(self, S):
                return (S.E.ghost["V"](sp.n), I(S["stack"].n))

            def inv(self, S):
                FS, st, num = sp.first(S.E)
                vis = S["visited"]
                f, n, sel = sp.f, sp.n, S.g["sel"]
                s = I(sel.get(S.idx("1")))
                a, k, x = S["stack"], S["irunbnd"], ints("x")[0]
                return state(S, S.idx("1") + 1, a) + [
                    ("cells to visit drain to the stream cell", forall([x], implies(a.has(x), And(rng(x, n), FS(x) == s, el(k, x) != 0)), [a.has(x)])),
                    ("the unvisited cells are counted", counts(S.g["V"], n, lambda x: Not(vis.has(x))))]
        return {"0": Rev(), "1": Streams(), "1.0": Climb()}

    def post(self, E, r):
        ok = isinstance(r, NA) and r.t == "i" and r.grid is self.tok
        E.check("the result is an integer array of the grid's shape", ok, "post")
        if not ok:
            return
        FS, st, num = self.first(E)
        x, = ints("x")
        n = self.n
        f = self.f
        if self.source == "both" and "segments" not in E.ghost:
            E.check("segments are numbered anew unless the given array is the stored one", forall([x], implies(rng(x, n), el(self.given, x) == el(self.stored, x))), "post")
        if self.graph is None:
            E.check("segments are numbered when no numbering is stored", "segments" in E.ghost, "post")
        E.check("one number per cell", I(r.shape[0]) == n, "post")
        lemma(E, "cells above a stream drain on to it", forall([x], implies(rng(x, n), FS(x) >= 0, Not(st(x)), And(el(f, x) >= 0, el(f, x) != x, FS(el(f, x)) == FS(x))), [FS(x)]))
        induct(E, "cells whose path meets a stream are numbered", [x], HGT, lambda x: implies(rng(x, n), FS(x) >= 0, el(r, x) != 0), [FS])
        E.check("a cell has the number of the first stream cell on its path, 0 without one", forall([x], implies(rng(x, n), el(r, x) == If(FS(x) >= 0, num(FS(x)), 0))), "post")


SPECS += [Runoff(case="stored"), Runoff(case="given, graph", source="given", graph="given"), Runoff(case="given real, graph", source="given", graph="given", t="r"),
          Runoff(case="computed", graph=None), Runoff(case="given", source="given", graph=None), Runoff(case="given, stored", source="both")]
CALLEES[SU + "StreamBase._mf2005_stream_connectivity"] = SegC(SU + "StreamBase._mf2005_stream_connectivity")


# ---------------------------------------------------------------- cascades
class Mf6C(Callee):
    """what _mf6_stream_connectivity ensures (see Mf6)"""

    def apply(self, E, env):
        o, a = env["self"], env["stream_array"]
        if a is None:
            a = o.attrs["_stream_array"]
        if not isinstance(a, NA) or len(a.shape) != 1:
            raise Undecided("_mf6_stream_connectivity: arguments outside its contract")
        f = o.attrs["_fdir"]
        n = I(f.shape[0])
        s = a.snapshot()
        st = (lambda x: lift(s.at([x])).e) if s.t == "b" else (lambda x: And(Not(nanel(s, x)), el(s, x) > 0))
        down = lambda x: And(el(f, x) >= 0, st(el(f, x)))
        x, y, i = ints("x", "y", "i")
        self.need(E, "one element per cell", I(a.shape[0]) == n)
        self.need(E, "flow directions are cells", forall([x], implies(rng(x, n), el(f, x) < n)))
        self.need(E, "stream cells form no closed loop", forall([x], implies(rng(x, n), st(x), And(HGT(x) >= 0, implies(down(x), Or(el(f, x) == x, HGT(el(f, x)) < HGT(x)))))))
        A = E.fresh_na("reaches", (f.shape[0],), "i", False, o.attrs["_shape"])
        G = E.fresh_dict("i", "reach_graph")
        m = E.int("reaches.number")
        w = E.fn("reach.cell", [IS], IS)
        E.assume(m >= 0)
        E.ax([x], implies(rng(x, n), If(st(x), And(el(A, x) >= 1, el(A, x) <= m, w(el(A, x)) == x), el(A, x) == 0)), [el(A, x)])
        E.ax([i], implies(i >= 1, i <= m, And(rng(w(i), n), st(w(i)), el(A, w(i)) == i)), [w(i)])
        E.ax([i], G.has(i) == And(i >= 1, i <= m), [G.kidx(i)])
        E.ax([x], implies(rng(x, n), st(x), I(G.get(el(A, x))) == If(down(x), el(A, el(f, x)), 0)), [[el(A, x), el(f, x)]])
        E.ax([i], implies(i >= 1, i <= m, I(G.get(i)) == If(down(w(i)), el(A, el(f, w(i))), 0)), [I(G.get(i))])
        E.ax([x], implies(rng(x, n), st(x), down(x), el(f, x) != x, el(A, x) < el(A, el(f, x))), [[el(A, x), el(f, x)]])
        for a, v in (("_stream_array", A), ("_graph", G), ("_group_segments", False)):
            E.set_attr(o, a, v)
        E.ghost["segments"], E.ghost["reach.cell"], E.ghost["reaches"] = A, w, m
        return G


def network(E, n, f):
    """flow directions without closed loops longer than one cell"""
    x, = ints("x")
    E.ax([x], implies(rng(x, n), And(el(f, x) >= -2, el(f, x) < n)), [el(f, x)])
    E.ax([x], implies(rng(x, n), And(HGT(x) >= 0, implies(el(f, x) >= 0, el(f, x) != x, HGT(el(f, x)) < HGT(x)))), [el(f, x)])


class Links:
    """where a cell's water goes within the active cells"""

    def drains(self):
        f, act = self.f, self.act
        t = lambda x: If(el(f, x) < 0, x, el(f, x))
        return lambda x: If(act(t(x)), t(x), x)

    def basin(self, E, n, tok):
        self.bb = na(E, "boundary", n, "i", grid=tok, frozen="the basin boundary") if self.boundary else None
        self.act = (lambda x: el(self.bb, x) != 0) if self.boundary else (lambda x: z3.BoolVal(True))


class ManyToOne(Links, Spec):
    """C22"""
    qual = SU + "PrmsStreams._build_many_to_one_cascades"
    boundary = False

    def setup(self, E):
        n = self.n = size(E)
        tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        x, = ints("x")
        E.ax([x], implies(rng(x, n), And(el(f, x) >= -2, el(f, x) < n)), [el(f, x)])
        self.basin(E, n, tok)
        return [Obj("PrmsStreams", dict(_fdir=f))], ({"basin_boundary": self.bb} if self.boundary else {})

    def links(self, U, D, P, k, W):
        """links so far: those of the cells below k"""
        n, act, to = self.n, self.act, self.drains()
        j, x = ints("j", "x")
        m = I(U.n)
        u, d = lst(U), lst(D)
        p = (lambda j: z3.RealVal(1)) if P.is_empty() else (lambda j: R(P.get(j)))
        return [("three lists of one length", And(I(D.n) == m, I(P.n) == m)),
                ("links lead from an active cell to where it drains", forall([j], implies(rng(j, m), And(rng(u(j), n), act(u(j)), d(j) == to(u(j)))), [u(j), d(j)])),
                ("the fraction is 1", forall([j], implies(rng(j, m), p(j) == 1), [p(j)] if not P.is_empty() else [])),
                ("active cells are linked", forall([x], implies(rng(x, k), act(x), And(rng(W(x), m), u(W(x)) == x)), [W(x)]))]

    def make_loops(self):
        sp = self

        class Cells(GLoop):
            ghosts = {"W": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["W"] = E.fn("link.of", [IS], IS)

            def ghost_pre(self, E, S):
                return E.ghost["W"], I(S["hru_up_id"].n), S.k

            def ghost_step(self, E, S, pre):
                W, m, k = pre
                U = S["hru_up_id"]
                w = E.int("w")
                j, = ints("j")
                # a link of the cell, if there is one (choice)
                E.ax([j], implies(rng(j, U.n), lst(U)(j) == k, And(rng(w, U.n), lst(U)(w) == k)), [lst(U)(j)])
                E.ghost["W"] = lambda x: If(x == k, w, W(x))

            def inv(self, S):
                return sp.links(S["hru_up_id"], S["hru_down_id"], S["hru_pct_up"], S.k, S.g["W"])
        return {"0": Cells()}

    def post(self, E, r):
        ok = isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, PL) for x in r)
        E.check("three lists are returned", ok, "post")
        if ok:
            for lab, f in self.links(*r, self.n, E.ghost["W"]):
                E.check(lab, f, "post")


SPECS += [ManyToOne(case="no boundary"), ManyToOne(case="boundary", boundary=True)]
CALLEES[SU + "StreamBase._mf6_stream_connectivity"] = Mf6C(SU + "StreamBase._mf6_stream_connectivity")


class ManyToOneC(Links, Callee):
    def apply(self, E, env):
        f, b = env["self"].attrs["_fdir"], env["basin_boundary"]
        n = self.n = I(f.shape[0])
        x, = ints("x")
        self.f = f
        self.need(E, "flow directions are cells", forall([x], implies(rng(x, n), And(el(f, x) >= -2, el(f, x) < n))))
        s = None
        if b is not None:
            if not isinstance(b, NA) or len(b.shape) != 1:
                raise Undecided("_build_many_to_one_cascades: arguments outside its contract")
            self.need(E, "the boundary has one element per cell", I(b.shape[0]) == n)
            s = b.snapshot()
        self.act = (lambda x: z3.BoolVal(True)) if s is None else (lambda x: el(s, x) != 0)
        U, D, P = (E.fresh(("list", t), m) for t, m in (("i", "up"), ("i", "down"), ("r", "part")))
        W = E.ghost["link.of"] = E.fn("link.of", [IS], IS)
        for lab, g in ManyToOne.links(self, U, D, P, n, W):
            E.assume(g)
        return U, D, P


class Cascades(Links, Spec):
    """C22: the links of get_cascades"""
    qual = SU + "PrmsStreams.get_cascades"
    source, graph, boundary, group = "stored", True, False, None

    def setup(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        network(E, n, f)
        self.stored = self.given = None
        x, = ints("x")
        kw = {}
        if self.source in ("stored", "both"):
            self.stored = na(E, "stored", n, "i", grid=tok, frozen="the stored stream array")
            s = self.stored.snapshot()
            E.ax([x], implies(rng(x, n), el(s, x) >= 0), [el(s, x)])
        if self.source in ("given", "both"):
            self.given = na(E, "given", n, "i", grid=tok, frozen="the given stream array")
            kw["stream_array"] = self.given
        self.basin(E, n, tok)
        if self.boundary:
            kw["basin_boundary"] = self.bb
        if self.group is not None:
            kw["group_segments"] = self.group
        G = E.fresh_dict("i", "graph") if self.graph else None
        self.o = Obj("PrmsStreams", dict(_fdir=f, _stream_array=self.stored, _graph=G, _seg_graph=None, _group_segments=False, _node_seg_rch=None, _shape=tok))
        return [self.o], kw

    def given_stream(self, s):
        return lambda x: el(s, x) > 0

    def numbers(self, E):
        a = E.ghost["segments"] if "segments" in E.ghost else self.given if self.given is not None else self.stored
        return a.snapshot()

    def make_loops(self):
        sp = self

        class Down(Loop):
            def inv(self, S):
                L, D = S["hru_strmseg_down_id"], S["hru_down_id"].snapshot()
                sa = sp.numbers(S.E)
                j, = ints("j")
                if L.is_empty():
                    return [("one segment per link so far", S.k == 0)]
                return [("one segment per link so far", I(L.n) == S.k), ("the segment is that of the receiving cell", forall([j], implies(rng(j, S.k), lst(L)(j) == el(sa, el(D, j))), [lst(L)(j)]))]
        return {"0": Down()}

    def numbering(self, E):
        n, x = self.n, ints("x")[0]
        if "segments" not in E.ghost:
            E.check("segments are numbered anew when none are stored or the grouping differs", self.graph and self.group in (None, False), "post")
            if self.source == "both":
                E.check("segments are numbered anew unless the given array is the stored one", forall([x], implies(rng(x, n), el(self.given, x) == el(self.stored, x))), "post")
        elif self.group is not None:
            E.check("the requested grouping is used", self.o.attrs["_group_segments"] is self.group, "post")
        else:
            E.check("the default grouping is one cell per segment", self.o.attrs["_group_segments"] is False, "post")

    def post(self, E, r):
        ok = isinstance(r, tuple) and len(r) == 4 and all(isinstance(x, NA) and len(x.shape) == 1 for x in r)
        E.check("four flat arrays are returned", ok, "post")
        if not ok:
            return
        U, D, P, S = r
        n, act, to = self.n, self.act, self.drains()
        j, x = ints("j", "x")
        m = I(U.shape[0])
        sa = self.numbers(E)
        W = E.ghost["link.of"]
        self.numbering(E)
        E.check("four arrays of one length", And(I(D.shape[0]) == m, I(P.shape[0]) == m, I(S.shape[0]) == m), "post")
        u = lambda j: el(U, j) - 1
        E.check("links lead from an active cell to where it drains", forall([j], implies(rng(j, m), And(rng(u(j), n), act(u(j)), el(D, j) - 1 == to(u(j))))), "post")
        E.check("links stay within the active cells", forall([j], implies(rng(j, m), And(rng(el(D, j) - 1, n), act(el(D, j) - 1)))), "post")
        E.check("the fraction is 1", forall([j], implies(rng(j, m), And(Not(nanel(P, j)), el(P, j) == 1))), "post")
        E.check("the segment is that of the receiving cell", forall([j], implies(rng(j, m), el(S, j) == el(sa, el(D, j) - 1))), "post")
        E.check("every active cell is linked", forall([x], implies(rng(x, n), act(x), And(rng(W(x), m), u(W(x)) == x))), "post")


CASC = [dict(case="stored"), dict(case="stored, boundary", boundary=True), dict(case="computed", graph=False), dict(case="given", source="given", graph=False),
         dict(case="given, stored", source="both", boundary=True), dict(case="grouped", group=True, boundary=True), dict(case="given, grouped", source="given", graph=False, group=True),
         dict(case="stored, not grouped", group=False)]
SPECS += [Cascades(**k) for k in CASC]
CALLEES[SU + "PrmsStreams._build_many_to_one_cascades"] = ManyToOneC(SU + "PrmsStreams._build_many_to_one_cascades")


# ---------------------------------------------------------------- thresholds from control points
STEM = z3.Function("largest.inflow", IS, BS)


class Control(Spec):
    """C15"""
    qual = SU + "StreamBase.threshold_from_control_points"
    kind, threshold, geometry = "vertex", "i", False

    def setup(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        network(E, n, f)
        x, y, j = ints("x", "y", "j")
        E.ax([x], implies(rng(x, n), el(f, x) >= 0, el(f, x) != x, And(ADJ(x, el(f, x)), ADJ(el(f, x), x))), [el(f, x)])
        self.top = E.int("highest")
        E.ax([x], implies(rng(x, n), HGT(x) <= self.top), [HGT(x)])
        a = self.facc = na(E, "facc", n, "r", frozen="the flow accumulation")
        g = locator(E, self.kind, n)
        K = self.K = size(E, "points", 0)
        X, Y = z3.Function("point.x", IS, RS), z3.Function("point.y", IS, RS)
        pts = PL(n=K, get=lambda j: (V("r", X(I(j))), V("r", Y(I(j)))))
        self.cell = lambda j: g.cell(V("r", X(I(j))), V("r", Y(I(j))))
        E.ax([j], implies(rng(j, K), rng(self.cell(j), n)), [self.cell(j)])
        arg = Obj("Points") if self.geometry else pts

        def coll(E, o, shapetype=""):
            if o is not arg or shapetype != "point":
                raise Undecided("GeoSpatialCollection of something else")
            E.trusted.add("flopy GeoSpatialCollection(points, 'point').points are the coordinates of the points in order")
            return Obj("Collection", dict(points=pts))
        E.models = {"GeoSpatialCollection": Builtin(coll, "GeoSpatialCollection")}
        self.thr = {"i": V("i", E.int("threshold")), "r": V("r", E.const("threshold", RS)), "0": 0}[self.threshold]
        # y drains into another cell, and no other cell draining into it has a larger accumulation
        other = E.fn("larger.inflow", [IS], IS)
        into = lambda z, x: And(rng(z, n), el(f, z) == x, z != x)
        self.into = into
        E.ax([y], STEM(y) == And(rng(y, n), el(f, y) >= 0, el(f, y) != y, Not(And(into(other(y), el(f, y)), el(a, other(y)) > el(a, y)))), [STEM(y)])
        z, = ints("z")
        E.ax([y, z], implies(rng(y, n), el(f, y) >= 0, into(z, el(f, y)), el(a, z) > el(a, y), And(into(other(y), el(f, y)), el(a, other(y)) > el(a, y))), [[el(f, z), STEM(y)]])
        self.o = Obj("StreamBase", dict(_fdir=f, _facc=a, _shape=tok, _modelgrid=g, _neighbors=nbr_dict(E, n)))
        kw = {} if self.threshold == "0" else {"threshold": self.thr}
        return [self.o, arg], kw

    def make_loops(self):
        sp = self

        class Valid(Loop):
            def inv(self, S):
                return []

        class Cells(Loop):
            def inv(self, S):
                c, j = S["cellids"], ints("j")[0]
                return [("one cell per point so far", I(c.n) == S.k), ("the cells hold the points", forall([j], implies(rng(j, S.k), lst(c)(j) == sp.cell(j)), [lst(c)(j), sp.cell(j)]))]

        def state(S, k, stack=None):
            n, f, a, g = sp.n, sp.f, sp.facc, S.E.ghost
            arr = S["array"]
            M, up = g["M"], g["up"]
            x, j = ints("x", "j")
            open_ = (lambda v: z3.BoolVal(False)) if stack is None else (lambda v: stack.has(v))
            ctl = lambda x: And(rng(g["by"](x), k), sp.cell(g["by"](x)) == x)
            return [("cells on a stem lie below their accumulation", forall([x], implies(M(x), And(rng(x, n), R(lift(arr.at([x]))) < el(a, x))), [M(x)])),
                    ("other cells keep the threshold", forall([x], implies(rng(x, n), Not(M(x)), el(arr, x) == lift(sp.thr).e), [M(x), el(arr, x)])),
                    ("a cell on a stem has its largest inflow on it or waiting", forall([x, j], implies(M(x), sp.into(j, x), And(STEM(up(x)), el(f, up(x)) == x, Or(M(up(x)), open_(up(x))))), [[M(x), el(f, j)]])),
                    ("a stem starts at a control point and climbs by largest inflows", forall([x], implies(Or(M(x), open_(x)), Or(ctl(x), And(STEM(x), M(el(f, x))))), [M(x)] + ([stack.has(x)] if stack is not None else []))),
                    ("control points so far lie on stems", forall([j], implies(rng(j, k), Or(M(sp.cell(j)), And(open_(sp.cell(j))))), [sp.cell(j)]))]

        class Points(GLoop):
            ghosts = {"M": ([IS], BS), "up": ([IS], IS), "by": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost.update(M=lambda x: z3.BoolVal(False), up=E.fn("up", [IS], IS), by=E.fn("by", [IS], IS))

            def inv(self, S):
                return state(S, S.k)

        class Climb(GLoop):
            ghosts = {"M": ([IS], BS), "up": ([IS], IS), "by": ([IS], IS)}

            def ghost_init(self, E, S):
                by, c, k = E.ghost["by"], I(S["node"]), S.idx("2")
                E.ghost["by"] = lambda x: If(x == c, k, by(x))

            def ghost_step(self, E, S, pre):
                M, up, st = E.ghost["M"], E.ghost["up"], S["stack"]
                c = I(S["node"])
                E.ghost["M"] = lambda x: Or(M(x), x == c)
                if not (isinstance(st.n, int) and st.n == 0):
                    w = I(st.get(I(st.n) - 1))
                    E.ghost["up"] = lambda x: If(x == c, w, up(x))
                    lemma(E, "the next cell lies higher", implies(I(st.n) > 0, And(sp.into(w, c), HGT(w) > HGT(c))))

            def variant(self, S):       # the walk climbs, and no cell is higher than the highest
                st = S["stack"]
                return (If(I(st.n) == 0, z3.IntVal(0), sp.top - HGT(I(st.get(0))) + 1),)

            def inv(self, S):
                st, x = S["stack"], ints("x")[0]
                return state(S, S.idx("2") + 1, st) + [("at most one cell waits", And(I(st.n) >= 0, I(st.n) <= 1)),
                                                       ("it is a cell", forall([x], implies(st.has(x), rng(x, sp.n)), [st.has(x)]))]

        class Inflows(GLoop):
            ghosts = {"Q": ([IS], IS)}

            def ghost_init(self, E, S):
                E.ghost["Q"] = E.fn("Q", [IS], IS)
                E.ghost["nb"] = S.it.src

            def ghost_pre(self, E, S):
                return E.ghost["Q"], I(S["flows_in"].n)

            def ghost_step(self, E, S, pre):
                Q, m = pre
                c = I(S["n"])
                E.ghost["Q"] = lambda x: If(x == c, m, Q(x))

            def inv(self, S):
                L, A, Q, c = S["flows_in"], S["acc_val"], S.g["Q"], I(S["node"])
                pos = S.g["nb"]._pos
                y, j = ints("y", "j")
                at = lst(L)
                acc = (lambda j: z3.RealVal(0)) if A.is_empty() else (lambda j: R(A.get(j)))
                return [("two lists of one length", And(I(L.n) == I(A.n), I(L.n) >= 0)),
                        ("listed cells drain into the cell", forall([j], implies(rng(j, L.n), And(sp.into(at(j), c), acc(j) == el(sp.facc, at(j)))), [at(j)] + ([] if A.is_empty() else [acc(j)]))),
                        ("neighbours so far that drain into the cell are listed", forall([y], implies(sp.into(y, c), pos(y) < S.k, And(rng(Q(y), L.n), at(Q(y)) == y)), [el(sp.f, y)]))]
        return {"0": Valid(), "1": Cells(), "2": Points(), "2.0": Climb(), "2.0.0": Inflows()}

    def post(self, E, r):
        ok = isinstance(r, NA) and r.t in ("i", "r") and r.grid is self.tok
        E.check("the result is a numeric array of the grid's shape", ok, "post")
        if not ok:
            return
        n, g, f = self.n, E.ghost, self.f
        M, up = g["M"], g["up"]
        x, y, j = ints("x", "y", "j")
        E.check("one threshold per cell", I(r.shape[0]) == n, "post")
        E.check("every control point lies on a stem", forall([j], implies(rng(j, self.K), M(self.cell(j)))), "post")
        E.check("a stem climbs along the largest inflow up to a headwater", forall([x, y], implies(M(x), self.into(y, x), And(M(up(x)), STEM(up(x)), el(f, up(x)) == x))), "post")
        E.check("a stem holds nothing else", forall([x], implies(M(x), Or(And(rng(g["by"](x), self.K), self.cell(g["by"](x)) == x), And(STEM(x), M(el(f, x)))))), "post")
        E.check("thresholds on a stem lie below the cell's accumulation", forall([x], implies(M(x), And(rng(x, n), Not(nanel(r, x)), R(lift(r.at([x]))) < el(self.facc, x)))), "post")
        E.check("other cells get the background threshold", forall([x], implies(rng(x, n), Not(M(x)), And(Not(nanel(r, x)), el(r, x) == lift(self.thr).e))), "post")


SPECS += [Control(case="vertex"), Control(case="structured", kind="structured"), Control(case="real", threshold="r"), Control(case="default", threshold="0"), Control(case="geometry", geometry=True)]


# ---------------------------------------------------------------- MODFLOW 6 package data
class ConnectionsC(Callee):
    """what connectiondata ensures (see Connections), as far as packagedata needs it"""

    def apply(self, E, env):
        o, d = env["self"], env["graph"]
        d = o.attrs["_graph"] if d is None else d
        if not isinstance(d, PD):
            raise Undecided("connectiondata: arguments outside its contract")
        s = d.snapshot()
        T = lambda x: I(s.get(x))
        x, u, v = ints("x", "u", "v")
        self.need(E, "reaches are positive and flow into reaches or 0", forall([x], implies(s.has(x), And(x >= 1, Or(T(x) == 0, s.has(T(x)))))))
        r = E.fresh(("list", ("list", "i")), "connections")
        pos = E.fn("row.of", [IS], IS)
        head = lambda m: I(r.get(m).get(z3.IntVal(0)))
        m, m2 = ints("m", "m2")
        E.ax([u], implies(s.has(u), And(rng(pos(u), r.n), I(r.get(pos(u)).n) >= 1, head(pos(u)) == u - 1)), [pos(u)])
        E.ax([m], implies(rng(m, r.n), And(s.has(head(m) + 1), pos(head(m) + 1) == m)), [I(r.get(m).n)])
        E.ax([m, m2], implies(m >= 0, m < m2, m2 < I(r.n), head(m) < head(m2)), [[I(r.get(m).n), I(r.get(m2).n)]])
        E.ghost["connections"], E.ghost["row.of"] = r, pos
        return r


FIELDS = [("ifno", "i"), ("cellid", "o"), ("rlen", "r"), ("rwid", "r"), ("rgrd", "r"), ("rtp", "r"), ("rbth", "r"), ("rhk", "r"), ("man", "r"),
          ("ncon", "i"), ("ustrf", "r"), ("ndv", "i")]
LAYOUT = {"structured": [("k", "i"), ("i", "i"), ("j", "i")], "vertex": [("k", "i"), ("node", "i")], "unstructured": [("node", "i")]}


class Package(Spec):
    """C18"""
    qual = SU + "Sfr6.packagedata"
    source, kind, detuple = "given", "structured", False

    def setup(self, E):
        n = self.n = size(E)
        tok = self.tok = Tok("grid shape", n)
        f = self.f = na(E, "fdir", n, "i", frozen="the flow direction array")
        network(E, n, f)
        x, i, j = ints("x", "i", "j")
        A = G = None
        kw = {}
        if self.source == "given":
            kw["stream_array"] = na(E, "given", n, "i", grid=tok, frozen="the given stream array")
        elif self.source == "marked":
            A = na(E, "stored", n, "i", grid=tok, frozen="the stored stream array")
        else:
            # the reaches of an earlier call
            A = na(E, "reaches", n, "i", grid=tok, frozen="the stored reaches")
            G = E.fresh_dict("i", "graph")
            G.frozen = "the stored graph"
            w, m = E.fn("reach.cell", [IS], IS), E.int("reaches.number")
            E.assume(m >= 0)
            down = lambda x: And(el(f, x) >= 0, el(A, el(f, x)) > 0)
            E.ax([x], implies(rng(x, n), And(el(A, x) >= 0, el(A, x) <= m, implies(el(A, x) >= 1, w(el(A, x)) == x))), [el(A, x)])
            E.ax([i], implies(i >= 1, i <= m, And(rng(w(i), n), el(A, w(i)) == i)), [w(i)])
            E.ax([i], G.has(i) == And(i >= 1, i <= m), [G.kidx(i)])
            E.ax([i], implies(i >= 1, i <= m, I(G.get(i)) == If(down(w(i)), el(A, el(f, w(i))), 0)), [I(G.get(i))])
            E.ghost.update({"segments": A, "reach.cell": w, "reaches": m})
        self.top, self.slope = na(E, "top", n, "r", grid=tok, frozen="the elevations"), na(E, "slope", n, "r", frozen="the slopes")
        X, Y = self.x, self.y = na(E, "xcenters", n, "r", grid=tok, frozen="the centres"), na(E, "ycenters", n, "r", grid=tok, frozen="the centres")
        E.ax([x], implies(rng(x, n), el(f, x) >= 0, el(f, x) != x, Or(el(X, x) != el(X, el(f, x)), el(Y, x) != el(Y, el(f, x)))), [el(f, x)])
        E.trusted.add("the square root of a sum of squares is not negative, and 0 only where all of them are 0")
        # cell outlines: vertex lists whose edges are not all of length 0
        nv = size(E, "nverts", 0)
        verts = E.fresh_na("verts", (nv, 2), "r")
        freeze(verts, "the vertices")
        ln, iv, eg = E.fn("outline.len", [IS], IS), E.fn("outline", [IS, IS], IS), E.fn("outline.edge", [IS], IS)
        E.ax([x, j], implies(rng(x, n), rng(j, ln(x)), rng(iv(x, j), nv)), [iv(x, j)])
        at = lambda x, j, c: lift(verts.at([iv(x, j), c])).e
        E.ax([x], implies(rng(x, n), And(eg(x) >= 0, eg(x) + 1 < ln(x), Or(at(x, eg(x), 0) != at(x, eg(x) + 1, 0), at(x, eg(x), 1) != at(x, eg(x) + 1, 1)))), [ln(x)])
        E.trusted.add("flopy Grid.iverts lists the vertices of a cell's outline, two neighbouring ones of which differ")
        L, ROW, COL = E.fn("layer", [IS], IS), E.fn("row", [IS], IS), E.fn("col", [IS], IS)

        def outline(E, ix):
            c = I(ix)
            E.check("the outline of a cell", rng(c, n), "index")
            p = PL(n=ln(c), get=lambda j: V("i", iv(c, I(j))))
            p._ek = "i"
            return p

        def get_lrc(E, nodes):
            l = ops.tolist(E, nodes)
            if l.items is None:
                raise Undecided("get_lrc")
            for c in l.items:
                E.check("the node exists", rng(I(c), n), "requires")
            return PL(items=[(0, V("i", ROW(I(c))), V("i", COL(I(c)))) for c in l.items])
        E.trusted.add("flopy Grid.get_lrc: layer 0, row and column of a node of the top layer")
        self.cellid = {"structured": lambda c: (z3.IntVal(0), ROW(c), COL(c)), "vertex": lambda c: (z3.IntVal(0), c), "unstructured": lambda c: (c,)}[self.kind]
        g = Obj("Grid", dict(grid_type=self.kind, top=self.top, xcellcenters=X, ycellcenters=Y, verts=verts,
                             iverts=Obj("Outlines", {"__getitem__": Builtin(outline, "iverts")}), get_lrc=Builtin(get_lrc, "get_lrc")))
        self.o = Obj("Sfr6", dict(_fdir=f, _stream_array=A, _graph=G, _seg_graph=None, _group_segments=None, _shape=tok, _modelgrid=g, _slope=self.slope))
        if self.detuple:
            kw["detuple"] = True
        return [self.o], kw

    def rows(self, E, get, k):
        """the first k records describe reaches 1..k"""
        j, = ints("j")
        g, f = E.ghost, self.f
        w, A, C = g["reach.cell"], g["segments"], g["connections"]
        c = w(j + 1)
        rec = get(j)
        if not (isinstance(rec, tuple) and len(rec) >= 3):
            return [("a record per reach", z3.BoolVal(False))]
        num, cid, rlen, zero, grad, top, *rest = rec
        out = []
        pats = [R(v) for v in (rlen, num, grad, top, rest[3], *(cid if isinstance(cid, tuple) else ()))] + [nanof_(rlen), nanof_(grad), nanof_(top)] if len(rest) > 3 else []
        add = lambda lab, *fs: out.append((lab, forall([j], implies(rng(j, k), And(*fs)), pats)))
        nonan = lambda v: Not(nanof_(v))
        ok = isinstance(cid, tuple) and len(cid) == len(self.cellid(c)) and len(rec) == 12
        if not ok:
            return [("records of the right length", z3.BoolVal(False))]
        down = And(el(f, c) >= 0, el(f, c) != c, el(A, el(f, c)) > 0)
        dx, dy = el(self.x, c) - el(self.x, el(f, c)), el(self.y, c) - el(self.y, el(f, c))
        add("rows are numbered from 0", I(num) == j)
        add("the cell id is that of the reach's cell", *[I(a) == b for a, b in zip(cid, self.cellid(c))])
        add("the length is positive", nonan(rlen), R(rlen) > 0)
        add("the length is 1.5 times the distance to the cell downstream", implies(down, R(rlen) == SQRT(dx * dx + dy * dy) * z3.Q(3, 2)))
        add("the gradient is the slope over 1.5", nonan(grad), R(grad) == el(self.slope, c) / z3.Q(3, 2))
        add("the elevation is that of the cell", nonan(top), R(top) == el(self.top, c))
        add("the connections are those of the reach", I(rest[3]) == I(C.get(j).n) - 1)
        return out

    def make_loops(self):
        sp = self

        class Reaches(Loop):
            def ghost_init(self, E, S):
                ks = S.it.src.keys
                g = E.ghost
                m, at, pos = g["reaches"], (lambda j: I(ks.get(j))), ks._pos
                j, u = ints("j", "u")
                # the sorted numbers 1..m are 1, 2, ...
                natind_all(E, "keys are at least their place", I(ks.n), [], lambda k: implies(k < I(ks.n), at(k) >= k + 1), every=lambda k: [at(k)])
                natind_all(E, "places grow with the numbers", m, [], lambda k: implies(k >= 1, pos(k) >= k - 1), every=lambda k: [pos(k)])
                lemma(E, "places of the numbers", forall([j], implies(rng(j, ks.n), And(at(j) >= 1, at(j) <= m, pos(at(j)) == j)), [at(j)]))
                lemma(E, "reach j + 1 comes at place j", And(I(ks.n) == m, forall([j], implies(rng(j, m), at(j) == j + 1), [at(j)])))
                C, row = g["connections"], g["row.of"]
                natind_all(E, "connection rows in order", I(C.n), [], lambda k: implies(k < I(C.n), I(C.get(k).get(z3.IntVal(0))) >= k), every=lambda k: [I(C.get(k).n)])
                natind_all(E, "connection rows by number", m, [], lambda k: implies(k >= 1, row(k) >= k - 1), every=lambda k: [row(k)])
                lemma(E, "reach j + 1 has connection row j", forall([j], implies(rng(j, m), And(row(j + 1) == j, j < I(C.n))), [row(j + 1)]))

            def ghost_pre(self, E, S):
                g, f, k = E.ghost, sp.f, S.k
                A, w, c = g["segments"], g["reach.cell"], g["reach.cell"](k + 1)
                to = If(And(el(f, c) >= 0, el(A, el(f, c)) > 0), el(A, el(f, c)), 0)
                a, b = [I(v) for v in S.it.item(k)]
                lemma(E, "the reach and its cell", And(a == k + 1, rng(c, sp.n), el(A, c) == a))
                lemma(E, "the reach below it", b == to)
                lemma(E, "its cell", implies(b != 0, And(w(b) == el(f, c), rng(el(f, c), sp.n), el(A, w(b)) == b)))
                lemma(E, "its connections", And(E.ghost["row.of"](a) == k, k < I(E.ghost["connections"].n)))

            def inv(self, S):
                L = S["reachdata"]
                if L.is_empty():
                    return [("a record per reach", S.k == 0)]
                return [("a record per reach", I(L.n) == S.k), ("rows are counted", I(S["cnt"]) == S.k)] + sp.rows(S.E, L.get, S.k)
        flatten = lambda t: (t[0],) + t[1] + t[2:]

        class Flatten(Loop):
            def inv(self, S):
                L, src, j = S["new_data"], S.it.src, ints("j")[0]
                if L.is_empty():
                    return [("a record per record", S.k == 0)]
                a, b = L.get(j), flatten(src.get(j))
                if len(a) != len(b):
                    return [("records keep their entries", z3.BoolVal(False))]
                out = [("a record per record", I(L.n) == S.k)]
                for i, (x, y) in enumerate(zip(a, b)):
                    x, y = lift(x), lift(y)
                    num = R if "r" in (x.t, y.t) else I
                    both = [num(x), num(y), nanof_(x), nanof_(y)]
                    out.append((f"entry {i} is kept", forall([j], implies(rng(j, S.k), num(x) == num(y), ), both)))
                    out.append((f"entry {i} is kept, missing or not", forall([j], implies(rng(j, S.k), nanof_(x) == nanof_(y)), both)))
                return out
        return {"0": Reaches(), SU + "Sfr6._detuple:0": Flatten()}

    def post(self, E, r):
        ok = isinstance(r, RA)
        E.check("a structured array is returned", ok, "post")
        if not ok:
            return
        want = [FIELDS[0]] + LAYOUT[self.kind] + FIELDS[2:] if self.detuple else FIELDS
        E.check("the columns are those of the package data", r.fields == want, "post")
        E.check("a row per reach", I(r.n) == E.ghost["reaches"], "post")
        if r.fields != want:
            return
        m = len(LAYOUT[self.kind])
        get = (lambda j: (lambda t: (t[0], tuple(t[1:1 + m])) + tuple(t[1 + m:]))(r.get(j))) if self.detuple else r.get
        if conc(r.n) == 0:
            return
        for lab, f in self.rows(E, get, r.n):
            E.check(lab, f, "post")


def nanof_(v):
    b = lift(v).nan
    return z3.BoolVal(b) if isinstance(b, bool) else b


SPECS += [Package(case=f"{s}, {k}" + (", detuple" if d else ""), source=s, kind=k, detuple=d)
          for s, k, d in (("given", "structured", False), ("marked", "vertex", False), ("stored", "unstructured", False),
                          ("given", "structured", True), ("stored", "vertex", True), ("marked", "unstructured", True))]
CALLEES[SU + "Sfr6.connectiondata"] = ConnectionsC(SU + "Sfr6.connectiondata")
