"""Operations of the Python/numpy subset.  Everything numpy, heapq, flopy and builtins do here is a trusted contract."""
import ast
import z3
from .values import *
from . import values as VAL
from .engine import *


class KwDict:
    """dict with concrete string keys"""

    def __init__(self, d):
        self.d = dict(d)


class Tok:
    """shape of a grid array: total size n"""

    def __init__(self, name, n):
        self.name, self.n = name, n


class TypeTok:
    def __init__(self, name):
        self.name = name


class Iter:
    grows = False

    def __init__(self, n, item, concrete=False, src=None):
        self._n, self._item, self._c = n, item, concrete
        self.src = src

    def n(self):
        r = self._n() if callable(self._n) else self._n
        return r

    def item(self, k):
        return self._item(k)

    def concrete(self):
        return self._c


class NoInv:
    def inv(self, S):
        return []

    def ghost_init(self, E, S):
        pass

    def ghost_havoc(self, E):
        pass

    def ghost_pre(self, E, S):
        return None

    def ghost_step(self, E, S, pre):
        pass

    def on_break(self, E, S):
        pass

    def on_exit(self, E, S):
        pass

    def variant(self, S):
        return None


# ---------------------------------------------------------------- small helpers
def own(E, v):
    """a mutable object stored inside a container: the container owns it from now on"""
    if isinstance(v, (PL, PS, PD)):
        s = v.snapshot()
        v.moved = True
        return s
    return v


def held(E, o, key, v):
    """an element of o: a mutable one stays shared with o when the program (not a formula) reads it"""
    if isinstance(v, PL) and v.comp is not None and not E.bound:
        # one case for every length
        ns = list(range(v.lo, len(v.comp) + 1))
        m = ns[E.decide(len(ns), [I(v.n) == k for k in ns])]
        E.assume(I(v.n) == m)
        v = PL(items=list(v.comp[:m]))
    if isinstance(v, (PL, PS, PD)):
        v = v.snapshot()
        v._new()
        v.src = None
        o.alias(key, v)
    return v


def no_shared(E, l):
    """a copy of a list shares its elements with the original: only immutable elements are modelled"""
    if isinstance(l, PL) and not l.hb:
        es = l.items if l.items is not None else [l.get(z3.FreshConst(IS, "el"))]
        if any(isinstance(x, (PL, PS, PD)) for x in es):
            raise Undecided("a copied list shares its mutable elements")
    return l


def unpack(E, v, n):
    if isinstance(v, tuple):
        if len(v) != n:
            raise RaiseEx("ValueError", None)
        return list(v)
    if isinstance(v, PL):
        if v.items is not None and len(v.items) != n:
            raise RaiseEx("ValueError", None)
        if v.items is None:
            E.check(f"unpacking needs {n} elements", I(v.n) == n, "unpack")
        return [v.get(i) for i in range(n)]
    if isinstance(v, NA):
        return [v.get(i) for i in range(n)]
    raise Undecided(f"unpacking {type(v).__name__}")


def size_of(v):
    n = v.shape[0]
    for d in v.shape[1:]:
        n = _mul(n, d)
    return n


def _mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return I(a) * I(b)


def same_dim(E, a, b, what):
    if isinstance(a, int) and isinstance(b, int):
        if a != b:
            raise RaiseEx("ValueError", None)
        return
    if z3.simplify(I(a) == I(b)).eq(z3.BoolVal(True)):
        return
    if not E.entails(I(a) == I(b)):
        E.check(f"{what}: sizes agree", I(a) == I(b), "shape")


def broadcast_shape(E, s, t):
    """result shape and index maps of numpy broadcasting"""
    k = max(len(s), len(t))
    s2 = (1,) * (k - len(s)) + tuple(s)
    t2 = (1,) * (k - len(t)) + tuple(t)
    out, ma, mb = [], [], []
    for i, (a, b) in enumerate(zip(s2, t2)):
        if isinstance(a, int) and a == 1 and not (isinstance(b, int) and b == 1):
            out.append(b)
            ma.append(0)
            mb.append(1)
        elif isinstance(b, int) and b == 1 and not (isinstance(a, int) and a == 1):
            out.append(a)
            ma.append(1)
            mb.append(0)
        else:
            same_dim(E, a, b, "array operation")
            out.append(a)
            ma.append(1)
            mb.append(1)
    oa, ob = k - len(s), k - len(t)
    fa = lambda ix: [ix[i] if ma[i] else z3.IntVal(0) for i in range(oa, k)]
    fb = lambda ix: [ix[i] if mb[i] else z3.IntVal(0) for i in range(ob, k)]
    return tuple(out), fa, fb


def to_na(E, v):
    if isinstance(v, NA):
        return v
    if isinstance(v, (PL, tuple)):
        return np_array(E, v)
    raise Undecided(f"{type(v).__name__} used as an array")


def elem_t(x):
    if isinstance(x, V):
        return x.t
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, float):
        return "r"
    raise Undecided(f"array element {type(x).__name__}")


def map1(E, f, a, t=None):
    """elementwise function of an array or scalar"""
    if isinstance(a, (PL, tuple)):
        a = np_array(E, a)
    if isinstance(a, NA):
        s = a.snapshot()
        if t is None:
            t = elem_t(lift(f(s.at([z3.FreshConst(IS, "j") for _ in s.shape]))))
        return NA(a.shape, lambda ix: lift(f(s.at(ix))), t, a.grid)
    return norm(lift(f(a)))


def map2(E, f, a, b):
    if isinstance(a, (PL, tuple)):
        a = np_array(E, a)
    if isinstance(b, (PL, tuple)):
        b = np_array(E, b)
    if not isinstance(a, NA) and not isinstance(b, NA):
        return norm(lift(f(a, b)))
    if isinstance(a, NA) and isinstance(b, NA):
        shape, fa, fb = broadcast_shape(E, a.shape, b.shape)
        sa, sb = a.snapshot(), b.snapshot()
        get = lambda ix: lift(f(sa.at(fa(ix)), sb.at(fb(ix))))
        grid = a.grid if a.grid is not None and (b.grid is not None or len(b.shape) == 0) else None
        if a.grid is not None and b.grid is None or b.grid is not None and a.grid is None:
            # a 2-D grid array against a flat one would broadcast differently
            raise Undecided("a grid-shaped array meets a flat one")
    elif isinstance(a, NA):
        sa = a.snapshot()
        shape, grid = a.shape, a.grid
        get = lambda ix: lift(f(sa.at(ix), b))
    else:
        sb = b.snapshot()
        shape, grid = b.shape, b.grid
        get = lambda ix: lift(f(a, sb.at(ix)))
    t = elem_t(get([z3.FreshConst(IS, "j") for _ in shape]))
    return NA(shape, get, t, grid)


# ---------------------------------------------------------------- scalars
def _num(x):
    x = lift(x)
    return x


def s_add(a, b):
    a, b = lift(a), lift(b)
    if "r" in (a.t, b.t):
        return V("r", R(a) + R(b), bor(a.nan, b.nan))
    if a.t == b.t == "b":
        raise Undecided("sum of booleans")
    return V("i", I(a) + I(b))


def s_sub(a, b):
    a, b = lift(a), lift(b)
    if "r" in (a.t, b.t):
        return V("r", R(a) - R(b), bor(a.nan, b.nan))
    return V("i", I(a) - I(b))


def s_mul(a, b):
    a, b = lift(a), lift(b)
    if "r" in (a.t, b.t):
        return V("r", R(a) * R(b), bor(a.nan, b.nan))
    return V("i", I(a) * I(b))


def s_div(a, b):
    a, b = lift(a), lift(b)
    ra, rb = R(a), R(b)
    c = None
    if z3.is_rational_value(rb) and rb.as_fraction() != 0:
        z = False
    else:
        z = z3.And(rb == 0, ra == 0)
    return V("r", ra / rb, bor(a.nan, b.nan, z))


def s_pow(a, b):
    c = conc(b)
    if c is None and isinstance(b, float):
        c = b
    a = lift(a)
    if c == 2:
        return V(a.t if a.t != "b" else "i", (R(a) * R(a)) if a.t == "r" else I(a) * I(a), a.nan)
    if c == 0.5:
        return s_sqrt(a)
    raise Undecided("power")


SQRT = z3.Function("sqrt", RS, RS)
ATAN2 = z3.Function("arctan2", RS, RS, RS)
COS = z3.Function("cos", RS, RS)
SIN = z3.Function("sin", RS, RS)


def squares(e):
    """is the term a sum of squares as it stands"""
    if z3.is_add(e):
        return all(squares(c) for c in e.children())
    return z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1))


def s_sqrt(a):
    a = lift(a)
    return V("r", SQRT(R(a)), a.nan if squares(R(a)) else bor(a.nan, R(a) < 0))


def roots(e):
    return [x for c in e.children() for x in roots(c)] if z3.is_add(e) else [e.arg(0)]


def np_sqrt(E, a):
    a = deopt(E, a)
    if is_scalar(a):
        r, e = s_sqrt(a), R(lift(a))
        if squares(e):
            # the root of a sum of squares is 0 only where all of them are
            pats = [p for v in E.bound for p in _pats(z3.simplify(r.e), v)[:1]]
            E.ax([], z3.And(r.e >= 0, (r.e == 0) == z3.And([x == 0 for x in roots(e)])), [pats] if pats else [])
        return r
    return map1(E, s_sqrt, a)


def s_neg(a):
    a = lift(a)
    if a.t == "r":
        return V("r", -a.e, a.nan)
    return V("i", -I(a))


def s_abs(a):
    a = lift(a)
    if a.t == "r":
        return V("r", z3.If(a.e < 0, -a.e, a.e), a.nan)
    e = I(a)
    return V("i", z3.If(e < 0, -e, e))


def s_floordiv(a, b):
    a, b = lift(a), lift(b)
    if "r" in (a.t, b.t) or not (conc(b) or 0) > 0:
        raise Undecided("floor division")
    return V("i", I(a) / I(b))


def s_mod(a, b):
    a, b = lift(a), lift(b)
    if "r" in (a.t, b.t) or not (conc(b) or 0) > 0:
        raise Undecided("modulo")
    return V("i", I(a) % I(b))


def s_cmp(op, a, b):
    a, b = lift(a), lift(b)
    nan = bor(a.nan, b.nan)
    if "r" in (a.t, b.t):
        x, y = R(a), R(b)
    elif a.t == b.t == "b" and op in ("Eq", "NotEq"):
        x, y = a.e, b.e
    else:
        x, y = I(a), I(b)
    e = {"Eq": lambda: x == y, "NotEq": lambda: x != y, "Lt": lambda: x < y, "LtE": lambda: x <= y,
         "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]()
    if nan is not False:
        nan = B(nan)
        e = z3.Or(nan, e) if op == "NotEq" else z3.And(z3.Not(nan), e)
    return V("b", e)


BIN = {"Add": s_add, "Sub": s_sub, "Mult": s_mul, "Div": s_div, "Pow": s_pow, "FloorDiv": s_floordiv, "Mod": s_mod}


def s_and(a, b):
    return V("b", z3.And(lift(a).e, lift(b).e))


def s_or(a, b):
    return V("b", z3.Or(lift(a).e, lift(b).e))


def binop(E, op, a, b):
    n = type(op).__name__
    a, b = deopt(E, a), deopt(E, b)
    if n == "Add":
        if isinstance(a, PL) and isinstance(b, PL):
            r = a.snapshot()
            r._new()
            r.src = None
            if a.items is not None:
                r.items = list(a.items)
            if b.items == []:
                return r
            Ref.eng, sv = None, Ref.eng
            try:
                r.extend(b)
            finally:
                Ref.eng = sv
            if r._bag is not None and r.items is None:
                r._bag = _sumbag(E, a, b)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, tuple) and isinstance(b, PL) and getattr(b, "astuple", False):
            r = binop(E, op, PL(items=list(a)), b)
            r.astuple = True
            return r
        if isinstance(a, tuple) and isinstance(b, PL) or isinstance(a, PL) and isinstance(b, tuple):
            raise RaiseEx("TypeError", None)
        if isinstance(a, str) and isinstance(b, str):
            return a + b
    if n == "Mult":
        if isinstance(a, PL) or isinstance(b, PL):
            l, k = (a, b) if isinstance(a, PL) else (b, a)
            if l.items is None or len(l.items) != 1:
                raise Undecided("repeating a list")
            c = conc(k)
            x = l.items[0]
            if c is not None and c <= 32:
                return PL(items=[x] * max(0, c))
            k = I(k)
            m = z3.If(k > 0, k, z3.IntVal(0))
            r = PL(n=m, get=lambda j: x)
            r._ek = kind_of(x)
            r._bag = lambda *y: z3.If(VAL._eqs(y, x), m, z3.IntVal(0))
            return r
    if n in ("BitAnd", "BitOr"):
        f = s_and if n == "BitAnd" else s_or
        if isinstance(a, PS) and isinstance(b, PS):
            sa, sb = a.snapshot(), b.snapshot()
            if n == "BitOr":
                return PS(lambda *x: z3.Or(sa.has(*x), sb.has(*x)), z3.Or(sa.nonempty(), sb.nonempty()))
            raise Undecided("set intersection")
        return map2(E, f, a, b)
    if isinstance(a, str) or isinstance(b, str):
        raise Undecided("string operation")
    if n not in BIN:
        raise Undecided(f"operator {n}")
    return map2(E, BIN[n], a, b)


def _sumbag(E, a, b):
    ca, cb = a.snapshot().cnt_fn(), b.snapshot().cnt_fn()
    return lambda *y: ca(*y) + cb(*y)


def unop(E, op, v):
    n = type(op).__name__
    if n == "Not":
        c = truth(E, v)
        return (not c) if isinstance(c, bool) else norm(V("b", z3.Not(c)))
    v = deopt(E, v)
    if n == "USub":
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return -v
        return map1(E, s_neg, v)
    if n == "Invert":
        return map1(E, lambda x: V("b", z3.Not(lift(x).e)), v)
    if n == "UAdd":
        return v
    raise Undecided(f"operator {n}")


def deopt(E, v):
    """use of a maybe-None value as a value: it must not be None"""
    if isinstance(v, Opt):
        E.check("the value is not None", z3.Not(v.none), "none")
        return v.val
    return v


def truth(E, v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, (int, float)):
        return bool(v)
    if isinstance(v, str):
        return bool(v)
    if isz(v):
        return v
    if isinstance(v, V):
        if v.t == "b":
            return v.e
        if v.t == "i":
            return v.e != 0
        return z3.Or(v.e != 0, B(v.nan if v.nan is not False else z3.BoolVal(False)))
    if isinstance(v, Opt):
        t = truth(E, v.val)
        return z3.And(z3.Not(v.none), B(t))
    if isinstance(v, PL):
        n = v.n
        return n > 0 if isinstance(n, int) else I(n) > 0
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, PS):
        return v.nonempty()
    if isinstance(v, PD):
        return I(v.klen) > 0
    if isinstance(v, KwDict):
        return bool(v.d)
    if isinstance(v, NA):
        if len(v.shape) == 1 and isinstance(v.shape[0], int) and v.shape[0] == 1:
            return truth(E, v.at([0]))
        raise RaiseEx("ValueError", None)
    if isinstance(v, Obj):
        return True
    raise Undecided(f"truth of {type(v).__name__}")


PAIR = z3.Function("pair", IS, IS, IS)
FST = z3.Function("pair.first", IS, IS)
SND = z3.Function("pair.second", IS, IS)


def key_of(v):
    if isinstance(v, tuple) and len(v) == 2 and all(is_scalar(x) for x in v):
        E = Ref.eng
        if not E.pair_ax:
            E.pair_ax = True
            a, b = z3.FreshConst(IS, "a"), z3.FreshConst(IS, "b")
            E.hyps.append(z3.ForAll([a, b], z3.And(FST(PAIR(a, b)) == a, SND(PAIR(a, b)) == b), patterns=[PAIR(a, b)]))
        a, b = lift(v[0]), lift(v[1])
        if a.t != "i" or b.t != "i":
            raise Undecided("dictionary key")
        return PAIR(a.e, b.e)
    v = lift(v)
    if v.t == "r":
        raise Undecided("float as a dictionary key")
    return I(v)


def mark_key(d, k):
    """a dictionary has either integer or pair keys"""
    kt = "pair" if isinstance(k, tuple) else "i"
    if d._get is None:
        d.kt = kt
    elif d.kt != kt:
        raise Undecided("dictionary with mixed keys")


def contains(E, x, c):
    """x in c as z3 Bool / python bool"""
    if isinstance(x, Opt):
        if isinstance(c, (PL, NA, PS, PD)):
            return z3.And(z3.Not(x.none), B(contains(E, x.val, c)))
        raise Undecided("membership of a maybe-None value")
    if x is None and isinstance(c, (PL, NA, PS, PD)):
        return False
    if isinstance(c, NA):
        c = c.aslist() if c.grid is None else NA(c.shape, c.st, c.t).aslist()
    if isinstance(c, PL):
        if c.items is not None:
            if not c.items:
                return False
            return z3.Or(*[B(truth(E, eq(E, x, y))) for y in c.items])
        try:
            return c.has(*flat(x))
        except Undecided:
            raise
    if isinstance(c, PS):
        return c.has(*flat(x))
    if isinstance(c, PD):
        if c._get is not None and (c.kt == "pair") != isinstance(x, tuple):
            raise Undecided("key of another type")
        return c.has(key_of(x))
    if isinstance(c, KwDict):
        return x in c.d
    if isinstance(c, tuple):
        rs = [truth(E, eq(E, x, y)) for y in c]
        if all(isinstance(r, bool) for r in rs):
            return any(rs)
        return z3.Or(*[B(r) for r in rs])
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, Iter) and c.src == "range":
        a, b = c.bounds
        v = I(x)
        return z3.And(v >= I(a), v < I(b))
    raise Undecided(f"membership in {type(c).__name__}")


def eq(E, a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None and b is None:
        return True
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, Opt):
            return V("b", o.none)
        return False
    if isinstance(a, Opt) or isinstance(b, Opt):
        an, av = (a.none, a.val) if isinstance(a, Opt) else (z3.BoolVal(False), a)
        bn, bv = (b.none, b.val) if isinstance(b, Opt) else (z3.BoolVal(False), b)
        return V("b", z3.Or(z3.And(an, bn), z3.And(z3.Not(an), z3.Not(bn), B(truth(E, eq(E, av, bv))))))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return V("b", z3.And(*[B(truth(E, eq(E, x, y))) for x, y in zip(a, b)]))
    if isinstance(a, Tok) and isinstance(b, Tok):
        return a is b
    if isinstance(a, (NA, PL)) and isinstance(b, (NA, PL)) and not (isinstance(a, PL) and isinstance(b, PL)):
        return map2(E, lambda x, y: s_cmp("Eq", x, y), a, b)
    if isinstance(a, NA) or isinstance(b, NA):
        return map2(E, lambda x, y: s_cmp("Eq", x, y), a, b)
    if is_scalar(a) and is_scalar(b):
        return norm(s_cmp("Eq", a, b))
    if isinstance(a, PL) and isinstance(b, PL):
        raise Undecided("list equality")
    if isinstance(a, PL) and isinstance(b, V) and getattr(E.spec, "numpy_nodes", False) and not E.pyints:
        E.notes.add("cell numbers read from an array are numpy integers: a list compared with one is compared element by element")
        return map2(E, lambda x, y: s_cmp("Eq", x, y), to_na(E, a), b)
    if type(a) is not type(b):
        return False
    raise Undecided(f"comparing {type(a).__name__}")


def compare(E, op, l, r):
    n = type(op).__name__
    if n in ("Is", "IsNot"):
        if r is None or l is None:
            o = l if r is None else r
            if isinstance(o, Opt):
                c = o.none
            else:
                c = o is None
            if isinstance(c, bool):
                return c if n == "Is" else not c
            return V("b", c if n == "Is" else z3.Not(c))
        if isinstance(l, bool) or isinstance(r, bool) or (isinstance(l, V) and l.t == "b"):
            e = eq(E, l, r)
        elif isinstance(l, Ref) and isinstance(r, Ref):
            e = l is r or (isinstance(l, NA) and isinstance(r, NA) and l.st is r.st and l.grid == r.grid)
        else:
            raise Undecided("identity test")
        t = truth(E, e)
        return (t if n == "Is" else not t) if isinstance(t, bool) else V("b", t if n == "Is" else z3.Not(t))
    if n in ("In", "NotIn"):
        c = contains(E, l, r)
        if isinstance(c, bool):
            return c if n == "In" else not c
        return norm(V("b", c if n == "In" else z3.Not(c)))
    if n == "Eq":
        return eq(E, l, r)
    if n == "NotEq":
        e = eq(E, l, r)
        if isinstance(e, NA):
            return map2(E, lambda x, y: s_cmp("NotEq", x, y), l, r)
        if isinstance(e, bool):
            return not e
        return norm(V("b", z3.Not(B(truth(E, e)))) if not (is_scalar(l) and is_scalar(r)) else s_cmp("NotEq", l, r))
    l, r = deopt(E, l), deopt(E, r)
    if isinstance(l, tuple) and isinstance(r, tuple):
        raise Undecided("ordering tuples")
    return map2(E, lambda x, y: s_cmp(n, x, y), l, r)


# ---------------------------------------------------------------- indexing
def eff_index(E, i, n, what="index"):
    """python index -> position, with the obligation that it is in range"""
    c, m = conc(i), (n if isinstance(n, int) else conc(n))
    if c is not None and m is not None:
        if not -m <= c < m:
            raise RaiseEx("IndexError", None)
        return z3.IntVal(c if c >= 0 else c + m)
    i, n = I(i), I(n)
    if c is not None:
        if c >= 0:
            E.check(f"{what} is in range", i < n, "index")
            return i
        E.check(f"{what} is in range", -i <= n, "index")
        return n + i
    if E.entails(i >= 0):
        E.check(f"{what} is in range", i < n, "index")
        return i
    E.check(f"{what} is in range", z3.And(-n <= i, i < n), "index")
    return z3.If(i < 0, i + n, i)


def idx_list(E, ix, n):
    """list/array of indices -> (length, position function, membership) with bounds obligation"""
    if isinstance(ix, PL):
        m = ix.n
        s = ix.snapshot()
        get = lambda k: s.get(k)
        bag = ix.cnt_fn() if (ix.items is not None or ix._ek in ("i", None)) else None
    else:
        m = ix.shape[0]
        s = ix.snapshot()
        get = lambda k: s.at([k])
        bag = ix.aslist()
        lb = getattr(ix, "lbag", None)
        l = ix.aslist()
        if lb is not None:
            l._bag = lb
        bag = l.cnt_fn()
    if isinstance(m, int) and m == 0:
        return 0, (lambda k: z3.IntVal(0)), (lambda x: z3.IntVal(0))
    j = z3.FreshConst(IS, "j")
    v = get(j)
    if isinstance(v, (float,)) or isinstance(v, V) and v.t != "i":
        if isinstance(v, V) and v.t == "b" or isinstance(v, bool):
            raise Undecided("boolean index list")
        raise Undecided("index of non-integers")
    e = I(v)
    rng = z3.And(j >= 0, j < I(m))
    nonneg = z3.Implies(rng, e >= 0)
    neg = not E.entails(nonneg)
    E.bound.append(j)
    E.guards.append(rng)
    if neg:
        E.check("indices are in range", z3.And(-I(n) <= e, e < I(n)), "index")
    else:
        E.check("indices are in range", e < I(n), "index")
    E.bound.pop()
    E.guards.pop()

    def pos(k):
        x = I(get(k))
        return z3.If(x < 0, x + I(n), x) if neg else x
    has = None
    if bag is not None:
        if neg:
            has = lambda x: bag(x) + bag(x - I(n))
        else:
            has = lambda x: bag(x)
    return m, pos, has


def getitem(E, o, ix):
    o = deopt(E, o)
    ix = deopt(E, ix)
    if isinstance(o, tuple):
        if isinstance(ix, slice):
            return o[slice(*[conc(x) if x is not None else None for x in (ix.start, ix.stop, ix.step)])]
        c = conc(ix)
        if c is None:
            raise Undecided("tuple index")
        if not -len(o) <= c < len(o):
            raise RaiseEx("IndexError", None)
        return o[c]
    if isinstance(o, KwDict):
        if not isinstance(ix, str):
            raise Undecided("dict key")
        if ix not in o.d:
            raise RaiseEx("KeyError", None)
        return o.d[ix]
    if isinstance(o, PD):
        mark_key(o, ix)
        k = key_of(ix)
        if o.default is not None:
            mk = o.default
            g0, has = o._get, o.has(k)
            dv = mk()
            v = dv if g0 is None else ite(has, g0(k), dv)
            # reading a missing key creates it
            if not E.entails(has):
                o.store_elem(k, v)
        else:
            E.check("the key is in the dictionary", o.has(k), "key")
            v = o.get(k)
        return held(E, o, k, v)
    if isinstance(o, PL):
        if isinstance(ix, slice):
            return slice_list(E, o, ix)
        if o.hb:
            if conc(ix) == 0:
                return heap_min(E, o)
            raise Undecided("indexing a heap")
        i = eff_index(E, ix, o.n, "list index")
        c = conc(i)
        v = o.get(c if c is not None and o.items is not None else i)
        return v if c is not None and o.items is not None else held(E, o, i, v)
    if isinstance(o, NA):
        return na_get(E, o, ix)
    if isinstance(o, RA):
        if isinstance(ix, str):
            c = o.col(ix)
            if c is None:
                raise RaiseEx("ValueError", None)
            if o.fields[c][1] == "o":
                return PL(n=o.n, get=lambda k: o.get(k)[c]) if conc(o.n) != 0 else PL(items=[])
            r = NA((o.n,), lambda q: o.get(q[0])[c], o.fields[c][1])
            r.readonly = True
            return r
        if isinstance(ix, (slice, PL, NA, tuple)):
            raise Undecided("selection from a structured array")
        return o.get(eff_index(E, ix, o.n, "record index"))
    if isinstance(o, Tok) and isinstance(ix, slice):
        raise Undecided("slice of a shape")
    if isinstance(o, Obj) and "__getitem__" in o.attrs:
        return o.attrs["__getitem__"].f(E, ix)
    if isinstance(o, str):
        c = conc(ix) if not isinstance(ix, slice) else ix
        return o[c]
    raise Undecided(f"indexing {type(o).__name__}")


def bounds(E, sl, n):
    """start and length of a slice with step 1"""
    if sl.step is not None and conc(sl.step) != 1:
        raise Undecided("slice step")
    a = z3.IntVal(0) if sl.start is None else I(deopt(E, sl.start))
    b = I(n) if sl.stop is None else I(deopt(E, sl.stop))
    n = I(n)

    def clip(x):
        c = conc(z3.simplify(x))
        if c == 0:
            return z3.IntVal(0)
        if c is not None and c < 0:
            return z3.If(n + x < 0, z3.IntVal(0), n + x)
        x2 = x if E.entails(x >= 0) else z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
        return z3.If(x2 > n, n, x2)
    lo = clip(a)
    hi = n if sl.stop is None else clip(b)
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    if E.entails(hi >= lo):
        m = hi - lo
    else:
        m = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    m = z3.simplify(m)
    return lo, m


def slice_list(E, o, sl):
    no_shared(E, o)
    if o.items is not None:
        cs = [None if x is None else conc(x) for x in (sl.start, sl.stop, sl.step)]
        if all(c is not None or x is None for c, x in zip(cs, (sl.start, sl.stop, sl.step))):
            return PL(items=o.items[slice(*cs)])
    lo, m = bounds(E, sl, o.n)
    s = o.snapshot()
    r = PL(n=norm(V("i", m)), get=lambda k: s.get(k + lo))
    r._ek = o._ek
    return r


def na_get(E, o, ix):
    if o.grid is not None:
        if isinstance(ix, NA) and ix.t == "b" and ix.grid is not None:
            pass
        elif getattr(o.grid, "flat", False):
            pass
        else:
            raise Undecided("indexing a grid-shaped array")
    if not isinstance(ix, tuple):
        ix = (ix,)
    if len(ix) > len(o.shape):
        raise RaiseEx("IndexError", None)
    rows_exist(E, o)
    ix = tuple(deopt(E, x) for x in ix) + (slice(None),) * (len(o.shape) - len(ix))
    if len(o.shape) == 1 and isinstance(ix[0], NA) and ix[0].t == "b":
        m = ix[0]
        same_dim(E, m.shape[0], o.shape[0], "mask")
        ms, os_ = m.snapshot(), o.snapshot()
        sel = select(E, m.shape[0], lambda k: lift(ms.at([k])).e, "mask")
        r = NA((sel.n,), lambda j: os_.at([I(sel.get(j[0]))]), o.t)
        r.origin = sel
        return r
    s = o
    live = True
    fancy = None
    outshape, maps = [], []
    for d, (x, n) in enumerate(zip(ix, o.shape)):
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                outshape.append(n)
                maps.append(("id", None))
            else:
                lo, m = bounds(E, x, n)
                outshape.append(norm(V("i", m)))
                maps.append(("off", lo))
        elif isinstance(x, (PL, NA)):
            if isinstance(x, NA) and len(x.shape) == 2:
                if len(o.shape) != 1:
                    raise Undecided("2-D index array on a 2-D array")
                xs, os_ = x.snapshot(), o.snapshot()
                a, b = z3.FreshConst(IS, "j"), z3.FreshConst(IS, "j")
                e = I(xs.at([a, b]))
                E.bound += [a, b]
                E.guards.append(z3.And(a >= 0, a < I(x.shape[0]), b >= 0, b < I(x.shape[1])))
                E.check("indices are in range", z3.And(e >= 0, e < I(n)), "index")
                E.guards.pop()
                del E.bound[-2:]
                return NA(x.shape, lambda q: os_.at([I(xs.at(q))]), o.t)
            if isinstance(x, NA) and x.t == "b":
                ms = x.snapshot()
                same_dim(E, x.shape[0], n, "mask")
                x = select(E, x.shape[0], lambda k: lift(ms.at([k])).e, "mask")
            if fancy is not None:
                raise Undecided("two index lists")
            m, pos, has = idx_list(E, x, n)
            fancy = d
            outshape.append(m)
            maps.append(("fn", pos))
        else:
            maps.append(("at", eff_index(E, x, n, "array index")))
    base = o if not fancy and fancy is None else o.snapshot()
    st = base.st

    def get(q):
        q = list(q)
        full = []
        for kind, p in maps:
            if kind == "at":
                full.append(p)
            elif kind == "id":
                full.append(q.pop(0))
            elif kind == "off":
                full.append(q.pop(0) + p)
            else:
                full.append(p(q.pop(0)))
        return st.get(full)
    if not outshape:
        return norm(get([]))
    r = NA(tuple(outshape), get, o.t)
    if fancy is None:
        # a view: reads are live, writes through it are not modelled
        r.readonly = True
    return r


def setitem(E, o, ix, v):
    o = deopt(E, o)
    if isinstance(o, KwDict):
        if not isinstance(ix, str):
            raise Undecided("dict key")
        o.d[ix] = v
        return
    if isinstance(o, PD):
        mark_key(o, deopt(E, ix))
        o.store_elem(key_of(deopt(E, ix)), own(E, v))
        return
    if isinstance(o, PL):
        if isinstance(ix, slice):
            raise Undecided("slice assignment of a list")
        i = eff_index(E, ix, o.n, "list index")
        c = conc(i)
        o.store_elem(c if c is not None and o.items is not None else i, own(E, v))
        return
    if isinstance(o, RA) and isinstance(ix, str):
        c = o.col(ix)
        if c is None:
            raise RaiseEx("ValueError", None)
        t, old, w = o.fields[c][1], o.get, to_na(E, v) if isinstance(v, (NA, PL, tuple)) else v
        if t == "o" or isinstance(w, NA) and len(w.shape) != 1:
            raise Undecided("assignment to a column")
        if isinstance(w, NA):
            same_dim(E, w.shape[0], dim(o.n), "assignment")
            w = w.snapshot()
        cast = _caster(E, NA((0,), None, t))
        o.mut()
        o.get = lambda k: tuple(cast(w.at([k]) if isinstance(w, NA) else w) if i == c else x for i, x in enumerate(old(k)))
        return
    if not isinstance(o, NA):
        raise Undecided(f"item assignment on {type(o).__name__}")
    if getattr(o, "readonly", False):
        raise Undecided("writing through a view")
    if not isinstance(ix, tuple):
        ix = (ix,)
    v = deopt(E, v)
    cast = _caster(E, o)
    old = o.st.get
    if len(o.shape) == 1 and len(ix) == 1:
        x = deopt(E, ix[0])
        n = o.shape[0]
        if o.grid is not None and not (isinstance(x, NA) and x.t == "b" and x.grid is not None):
            raise Undecided("indexing a grid-shaped array")
        if isinstance(x, NA) and x.t == "b":
            same_dim(E, x.shape[0], n, "mask")
            ms = x.snapshot()
            if isinstance(v, (NA, PL)):
                raise Undecided("masked assignment of an array")
            cv = cast(v)
            o.set(lambda q: ite(lift(ms.at(q)).e, cv, old(q)))
            return
        if isinstance(x, (PL, NA)):
            m, pos, has = idx_list(E, x, n)
            if isinstance(m, int) and m == 0:
                return
            if has is None:
                raise Undecided("assignment through an index list")
            if isinstance(v, (PL, NA)):
                v = to_na(E, v)
                if not (isinstance(v.shape[0], int) and v.shape[0] == 1):
                    same_dim(E, v.shape[0], m, "assignment")
                vs = v.snapshot()
                lp = E.fn("lastpos", [IS], IS)
                y, j = z3.FreshConst(IS, "y"), z3.FreshConst(IS, "j")
                E.ax([y], z3.Implies(has(y) >= 1, z3.And(lp(y) >= 0, lp(y) < I(m), pos(lp(y)) == y)), [lp(y)])
                E.ax([y, j], z3.Implies(z3.And(j > lp(y), j < I(m), has(y) >= 1), pos(j) != y), [[lp(y), pos(j)]] if False else ())
                o.set(lambda q: ite(has(q[0]) >= 1, cast(vs.at([lp(q[0])])), old(q)))
            else:
                cv = cast(v)
                o.set(lambda q: ite(has(q[0]) >= 1, cv, old(q)))
            return
        if isinstance(x, slice):
            lo, m = bounds(E, x, n)
            if isinstance(v, (PL, NA)):
                v = to_na(E, v)
                same_dim(E, v.shape[0], m, "assignment")
                vs = v.snapshot()
                o.set(lambda q: ite(z3.And(q[0] >= lo, q[0] < lo + m), cast(vs.at([q[0] - lo])), old(q)))
            else:
                cv = cast(v)
                o.set(lambda q: ite(z3.And(q[0] >= lo, q[0] < lo + m), cv, old(q)))
            return
        i = eff_index(E, x, n, "array index")
        if isinstance(v, NA):
            raise Undecided("array stored in an element")
        cv = cast(v)
        o.set(lambda q: ite(q[0] == i, cv, old(q)))
        return
    if len(o.shape) == 2:
        if len(ix) == 1:
            ix = ix + (slice(None),)
        a, b = deopt(E, ix[0]), deopt(E, ix[1])
        if is_scalar(a) and is_scalar(b):
            i, j = eff_index(E, a, o.shape[0], "array index"), eff_index(E, b, o.shape[1], "array index")
            cv = cast(v)
            o.set(lambda q: ite(z3.And(q[0] == i, q[1] == j), cv, old(q)))
            return
        if is_scalar(a) and isinstance(b, slice) and b.start is None and b.stop is None:
            i = eff_index(E, a, o.shape[0], "array index")
            if isinstance(v, (PL, NA)):
                if isinstance(v, PL) and v.items is None:
                    vs = v.snapshot()
                    same_dim(E, vs.n, o.shape[1], "assignment")
                    o.set(lambda q: ite(q[0] == i, cast(vs.get(q[1])), old(q)))
                else:
                    v = to_na(E, v)
                    same_dim(E, v.shape[0], o.shape[1], "assignment")
                    vs = v.snapshot()
                    o.set(lambda q: ite(q[0] == i, cast(vs.at([q[1]])), old(q)))
            else:
                cv = cast(v)
                o.set(lambda q: ite(q[0] == i, cv, old(q)))
            return
        if is_scalar(b) and isinstance(a, slice) and a.start is None and a.stop is None:
            j = eff_index(E, b, o.shape[1], "array index")
            if isinstance(v, (PL, NA)):
                v = to_na(E, v)
                same_dim(E, v.shape[0], o.shape[0], "assignment")
                vs = v.snapshot()
                o.set(lambda q: ite(q[1] == j, cast(vs.at([q[0]])), old(q)))
            else:
                cv = cast(v)
                o.set(lambda q: ite(q[1] == j, cv, old(q)))
            return
    raise Undecided("array assignment")


def _caster(E, o):
    t = o.t

    def cast(v):
        v = lift(v)
        if t == v.t:
            return v
        if t == "r":
            return V("r", R(v), v.nan)
        if t == "i" and v.t == "b":
            return V("i", I(v))
        if t == "i" and v.t == "r":
            # truncation towards zero
            e = v.e
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
                return V("i", e.arg(0))
            E.notes.add("a float stored in an integer array is truncated")
            return V("i", z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
        if t == "b":
            return V("b", B(truth(E, v)))
        raise Undecided("array element conversion")
    return cast


# ---------------------------------------------------------------- selection
def select(E, n, cond, name):
    """indices 0..n-1 satisfying cond, in increasing order"""
    cn = n if isinstance(n, int) else conc(n)
    n = I(n)
    if E.bound:
        z = lambda k: z3.BoolVal(True)
    m = E.const(name + ".len", IS)
    at = E.fn(name + ".at", [IS], IS)
    rk = E.fn(name + ".rank", [IS], IS)
    k, k2, i = z3.FreshConst(IS, "k"), z3.FreshConst(IS, "k2"), z3.FreshConst(IS, "i")
    E.ax([], z3.And(m >= 0, m <= z3.If(n > 0, n, z3.IntVal(0))))
    E.ax([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(at(k) >= 0, at(k) < n, cond(at(k)), rk(at(k)) == k)), [at(k)])
    E.ax([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < m), at(k) < at(k2)), [[at(k), at(k2)]])
    E.ax([i], z3.Implies(z3.And(i >= 0, i < n, cond(i)), z3.And(rk(i) >= 0, rk(i) < m, at(rk(i)) == i)), [rk(i)])
    z0 = at(z3.IntVal(0))
    E.ax([], z3.Implies(m >= 1, z3.And(z0 >= 0, z0 < n, cond(z0))))
    r = PL(n=m, get=lambda k: V("i", at(I(k))))
    r._ek = "i"
    bd = list(E.bound)
    r._bag = lambda x: z3.If(z3.And(x >= 0, x < n, cond(x)), z3.IntVal(1), z3.IntVal(0))
    r._pos = lambda x: rk(x)
    r.cond = cond
    # members are visible to the solver: an element satisfying the condition makes the list nonempty
    c0 = cond(i)
    pats = _pats(c0, i)
    if pats:
        E.ax([i], z3.Implies(z3.And(i >= 0, i < n, c0), z3.And(m >= 1, rk(i) >= 0, rk(i) < m, at(rk(i)) == i)), pats[:1])
    return r


def _pats(f, v):
    """an uninterpreted application that mentions v, usable as a pattern"""
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                any(c.eq(v) for c in x.children()):
            out.append(x)
        st.extend(x.children())
    return out


def np_where1(E, c):
    c = to_na(E, c) if not isinstance(c, NA) else c
    if c.grid is not None:
        raise Undecided("where on a grid-shaped array")
    if len(c.shape) == 2:
        return (Obj("opaque"), Obj("opaque"))
    s = c.snapshot()
    f = (lambda k: lift(s.at([k])).e) if c.t == "b" else (lambda k: B(truth(E, lift(s.at([k])))))
    sel = select(E, c.shape[0], f, "where")
    r = NA((sel.n,), lambda q: sel.get(q[0]), "i")
    r.lbag = sel._bag
    r.sel = sel
    return (r,)


def np_where(E, c, a=None, b=None):
    if a is None and b is None:
        return np_where1(E, c)
    if not isinstance(c, NA):
        if is_scalar(c) and not isinstance(a, NA) and not isinstance(b, NA):
            return ite(B(truth(E, c)), lift(a), lift(b))
        raise Undecided("where of a scalar")
    x = map2(E, lambda p, q: V("b", z3.And(lift(p).e, z3.BoolVal(True))) if True else None, c, c)
    ta = a.t if isinstance(a, NA) else elem_t(a)
    tb = b.t if isinstance(b, NA) else elem_t(b)
    t = "r" if "r" in (ta, tb) else "i" if "i" in (ta, tb) else "b"

    def cv(v):
        v = lift(v)
        return V("r", R(v), v.nan) if t == "r" else V("i", I(v)) if t == "i" else v
    ctr = c if c.t == "b" else map1(E, lambda v: V("b", B(truth(E, v))), c, "b")
    shape, grid = c.shape, c.grid
    parts = []
    for v in (a, b):
        if isinstance(v, NA):
            if (v.grid is None) != (c.grid is None):
                raise Undecided("a grid-shaped array meets a flat one")
            sh, fc, fv = broadcast_shape(E, shape, v.shape)
            if len(sh) != len(shape):
                raise Undecided("broadcast in where")
            shape = sh
            s = v.snapshot()
            parts.append((s, fv))
        else:
            parts.append((v, None))
    cs = ctr.snapshot()
    _, fcond, _ = broadcast_shape(E, c.shape, shape) if len(c.shape) <= len(shape) else (None, None, None)

    def get(ix):
        xs = [cv(p.at(f(ix))) if f else cv(p) for p, f in parts]
        return ite(lift(cs.at(fcond(ix))).e, xs[0], xs[1])
    return NA(shape, get, t, grid)


# ---------------------------------------------------------------- reductions
def seq_view(E, v):
    """1-D sequence of numbers: length, element function"""
    if isinstance(v, NA):
        if len(v.shape) == 1 or v.grid is not None:
            s = v.snapshot()
            return v.shape[0], lambda k: lift(s.at([k]))
        raise Undecided("reduction of a 2-D array")
    if isinstance(v, PL):
        if v.items is not None:
            items = list(v.items)
            p = PL(items=items)
            return len(items), lambda k: lift(p.get(k))
        s = v.snapshot()
        return v.n, lambda k: lift(s.get(k))
    if isinstance(v, tuple):
        return seq_view(E, PL(items=list(v)))
    raise Undecided(f"reduction of {type(v).__name__}")


def extreme(E, v, sign, skipnan, name):
    """min (sign 1) or max (-1).  numpy: NaN if any entry is NaN; nan-version: NaN only if all are"""
    n, g = seq_view(E, v)
    N = I(n)
    e0 = g(z3.FreshConst(IS, "z"))
    t = e0.t if e0.t != "b" else "i"
    E.check(f"{name} of a non-empty sequence", N >= 1, "empty")
    m = E.const(name, RS if t == "r" else IS)
    w = E.const(name + ".at", IS)
    val = (lambda x: R(x)) if t == "r" else (lambda x: I(x))
    nn = (lambda x: B(x.nan) if x.nan is not False else z3.BoolVal(False))
    k = z3.FreshConst(IS, "k")
    gk, gw = g(k), g(w)
    le = (lambda a, b: a <= b) if sign > 0 else (lambda a, b: a >= b)
    hasnan = e0.nan is not False
    if not hasnan:
        E.ax([k], z3.Implies(z3.And(k >= 0, k < N), le(m, val(gk))), _pats(val(gk), k)[:1])
        E.ax([], z3.Implies(N >= 1, z3.And(w >= 0, w < N, val(gw) == m)))
        if skipnan:
            return V(t, m, N < 1)
        return V(t, m)
    isn = E.const(name + ".isnan", BS)
    if skipnan:
        E.ax([k], z3.Implies(z3.And(k >= 0, k < N, z3.Not(nn(gk))), z3.And(z3.Not(isn), le(m, val(gk)))), _pats(val(gk), k)[:1])
        E.ax([], z3.Implies(z3.Not(isn), z3.And(w >= 0, w < N, z3.Not(nn(gw)), val(gw) == m)))
    else:
        E.ax([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(z3.Implies(nn(gk), isn), z3.Implies(z3.Not(isn), le(m, val(gk))))),
             _pats(val(gk), k)[:1])
        E.ax([], z3.Implies(N >= 1, z3.And(w >= 0, w < N, z3.If(isn, nn(gw), val(gw) == m))))
    return V(t, m, isn)


def average(E, v, skipnan, name):
    """mean / median: only that it lies between the extremes is used"""
    n, g = seq_view(E, v)
    N = I(n)
    e0 = g(z3.FreshConst(IS, "z"))
    if "mean" in name and isinstance(n, int) and 1 <= n <= 4:
        xs = [g(k) for k in range(n)]
        if all(x.nan is False for x in xs):
            t = R(xs[0])
            for x in xs[1:]:
                t = t + R(x)
            return V("r", t / n)
    m, isn = E.const(name, RS), E.const(name + ".isnan", BS)
    lo, hi = E.const(name + ".lo", IS), E.const(name + ".hi", IS)
    nn = (lambda x: B(x.nan) if x.nan is not False else z3.BoolVal(False))
    k = z3.FreshConst(IS, "k")
    gk = g(k)
    pat = (_pats(R(gk), k) + _pats(z3.simplify(R(gk)), k))[:1]
    if skipnan:
        E.ax([k], z3.Implies(z3.And(k >= 0, k < N, z3.Not(nn(gk))), z3.Not(isn)), pat)
    else:
        E.ax([k], z3.Implies(z3.And(k >= 0, k < N), z3.Implies(nn(gk), isn)), pat)
    # lo is the place of a least element; a mean lies strictly above it unless all are equal
    E.ax([k], z3.Implies(z3.And(z3.Not(isn), k >= 0, k < N, z3.Not(nn(gk))),
                         z3.And(R(g(lo)) <= R(gk), z3.Implies(R(g(lo)) < R(gk), R(g(lo)) < m) if "mean" in name else z3.BoolVal(True))), pat)
    E.ax([], z3.Implies(N < 1, isn))
    E.ax([], z3.Implies(z3.Not(isn), z3.And(lo >= 0, lo < N, hi >= 0, hi < N, z3.Not(nn(g(lo))), z3.Not(nn(g(hi))),
                                            R(g(lo)) <= m, m <= R(g(hi)))))
    return V("r", m, isn)


def argext(E, v, sign, name):
    n, g = seq_view(E, v)
    N = I(n)
    E.check(f"{name} of a non-empty sequence", N >= 1, "empty")
    e0 = g(z3.FreshConst(IS, "z"))
    if e0.nan is not False:
        raise Undecided("argmax with NaN")
    w = E.const(name, IS)
    k = z3.FreshConst(IS, "k")
    cmp_ = (lambda a, b: a <= b) if sign < 0 else (lambda a, b: a >= b)
    val = R if e0.t == "r" else I
    E.ax([], z3.And(w >= 0, w < N))
    E.ax([k], z3.Implies(z3.And(k >= 0, k < N), cmp_(val(g(k)), val(g(w)))), _pats(val(g(k)), k)[:1])
    return V("i", w)


# ---------------------------------------------------------------- constructors
def shape_arg(E, s):
    """(shape tuple, grid token)"""
    s = deopt(E, s)
    if isinstance(s, Tok):
        return (s.n,), s
    if isinstance(s, tuple):
        if len(s) == 1 and isinstance(s[0], Tok):
            return (s[0].n,), s[0]
        return tuple(norm(x) for x in s), None
    if isinstance(s, PL) and s.items is not None:
        return tuple(norm(x) for x in s.items), None
    if is_scalar(s):
        return (norm(s),), None
    raise Undecided("array shape")


def dim(x):
    return x if isinstance(x, int) else I(x)


def dtype_of(E, d, default):
    if d is None:
        return default
    if isinstance(d, (Builtin, TypeTok)):
        return {"int": "i", "float": "r", "bool": "b", "int64": "i", "int32": "i", "float64": "r", "bool_": "b"}.get(d.name) or _bad(d.name)
    if isinstance(d, str):
        return {"int": "i", "float": "r", "bool": "b"}.get(d) or _bad(d)
    raise Undecided("dtype")


def _bad(n):
    raise Undecided(f"dtype {n}")


def conv(E, v, t):
    v = lift(v)
    if v.t == t:
        return v
    if t == "r":
        return V("r", R(v), v.nan)
    if t == "i":
        if v.t == "b":
            return V("i", I(v))
        if v.nan is not False:
            E.notes.add("conversion of a float to an integer assumes no NaN")
        return V("i", z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
    return V("b", B(truth(E, v)))


def full(E, shape, val, dtype=None):
    sh, tok = shape_arg(E, shape)
    val = deopt(E, val)
    if isinstance(val, (NA, PL)):
        raise Undecided("fill with an array")
    t = dtype_of(E, dtype, elem_t(val))
    cv = conv(E, val, t)
    r = NA(tuple(dim(d) for d in sh), lambda ix: cv, t, tok)
    for d in r.shape:
        if not isinstance(d, int):
            E.entails(d >= 0)
    return r


def np_array(E, v, dtype=None):
    v = deopt(E, v)
    if isinstance(v, NA):
        t = dtype_of(E, dtype, v.t)
        return map1(E, lambda x: conv(E, x, t), v, t) if t != v.t else _copy(v)
    if is_scalar(v):
        raise Undecided("0-d array")
    if isinstance(v, tuple):
        v = PL(items=list(v))
    if not isinstance(v, PL):
        raise Undecided(f"array of {type(v).__name__}")
    if v.hb:
        raise Undecided("array of a heap")
    if isinstance(dtype, PL):
        return records(E, v, dtype)
    if v.items is not None and not v.items:
        t = dtype_of(E, dtype, "r")
        r = NA((0,), lambda ix: conv(E, 0, t), t)
        return r
    s = v.snapshot()
    e = v.get(0) if v.items is not None else v.get(z3.FreshConst(IS, "j"))
    if isinstance(e, (PL, tuple)):
        if isinstance(e, tuple):
            m = len(e)
            ts = [elem_t(x) for x in e]
            t = "r" if "r" in ts else "i"
            return NA((dim(v.n), m), lambda ix: _pick(E, s.get(ix[0]), ix[1], t), t)
        if e.comp is not None:
            m, j = len(e.comp), z3.FreshConst(IS, "j")
            E.check("the rows of an array have one length", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(v.n)), I(s.get(j).n) == m)), "shape")
        if e.items is not None or e.comp is not None:
            es = e.comp or e.items
            m = len(es)
            t = "r" if any(elem_t(lift(x)) == "r" for x in es) else "i"
            r = NA((dim(v.n), m), lambda ix: row_entry(E, s.get(ix[0]), ix[1], t), t)
            r.ragged = True         # without rows the array has one dimension
            return r
        raise Undecided("array of lists of unknown length")
    if isinstance(e, NA):
        t = e.t
        return NA((dim(v.n),) + e.shape, lambda ix: s.get(ix[0]).at(list(ix[1:])), t)
    if isinstance(e, Opt) or e is None:
        raise Undecided("array of objects")
    if v.items is not None:
        ts = [elem_t(x) for x in v.items]
        t0 = "r" if "r" in ts else "i" if "i" in ts else "b"
    else:
        t0 = elem_t(e)
    t = dtype_of(E, dtype, t0)
    r = NA((dim(v.n),), lambda ix: conv(E, s.get(ix[0]), t), t)
    if v._bag is not None and t == "i":
        r.lbag = v._bag
    return r


def records(E, v, dtype):
    """structured array of a list of tuples"""
    if dtype.items is None:
        raise Undecided("structured dtype of unknown length")
    fs = []
    for f in dtype.items:
        if not (isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], str)):
            raise Undecided("structured dtype")
        fs.append((f[0], "o" if getattr(f[1], "name", None) == "object" else dtype_of(E, f[1], None)))
    if len({a for a, _ in fs}) != len(fs):
        raise RaiseEx("ValueError", None)
    if v.items is not None and not v.items:
        return RA(fs, 0, lambda k: None)
    s = v.snapshot()
    e = s.get(0) if v.items is not None else s.get(z3.FreshConst(IS, "j"))
    if not isinstance(e, tuple) or v.items is not None and any(not isinstance(x, tuple) or len(x) != len(e) for x in v.items):
        raise Undecided("structured array of something else than tuples")
    if len(e) != len(fs):
        raise RaiseEx("ValueError", None)
    return RA(fs, dim(v.n), lambda k: tuple(x if t == "o" else conv(E, x, t) for x, (_, t) in zip(s.get(k), fs)))


def row_entry(E, p, j, t):
    c = conc(j) if conc(j) is not None else conc(z3.simplify(I(j)))
    if c is not None:
        return conv(E, p.get(c), t)
    return _pick(E, p.comp or p.items, j, t)


def rows_exist(E, a):
    """an array made of a list of rows has two dimensions unless the list is empty"""
    if getattr(a, "ragged", False):
        E.check("an array of rows has rows", I(a.shape[0]) >= 1, "index")


def _pick(E, tup, j, t):
    r = conv(E, tup[-1], t)
    for k in range(len(tup) - 2, -1, -1):
        r = ite(I(j) == k, conv(E, tup[k], t), r)
    return r


def _copy(a):
    g = a.st.get
    r = NA(a.shape, g, a.t, a.grid)
    if hasattr(a, "lbag"):
        r.lbag = a.lbag
    if hasattr(a, "sel"):
        r.sel = a.sel
    return r


def ravel(E, a):
    a = deopt(E, a)
    if isinstance(a, NA) and getattr(a, "flat", None) is not None:
        return a.flat
    if isinstance(a, PL):
        a = np_array(E, a)
    if isinstance(a, NA):
        if len(a.shape) == 1:
            return a.view(grid=None) if a.grid is not None else a
        if len(a.shape) == 2 and isinstance(a.shape[0], int) and a.shape[0] == 1:
            st = a.st
            s = a.snapshot()
            return NA((a.shape[1],), lambda ix: s.at([z3.IntVal(0), ix[0]]), a.t)
    raise Undecided("ravel")


def reshape(E, a, *shape):
    if len(shape) == 1:
        shape = deopt(E, shape[0])
    if isinstance(shape, Tok):
        if len(a.shape) != 1:
            raise Undecided("reshape of a 2-D array")
        same_dim(E, a.shape[0], shape.n, "reshape")
        return a.view(grid=shape)
    if is_scalar(shape):
        shape = (shape,)
    if isinstance(shape, tuple) and len(shape) == 1 and len(a.shape) == 1:
        if conc(shape[0]) == -1:
            return a.view(grid=None)
        same_dim(E, a.shape[0], dim(shape[0]), "reshape")
        return a.view(grid=None)
    if isinstance(shape, tuple) and len(shape) == 2 and all(is_scalar(x) for x in shape):
        k, m = [I(x) for x in shape]
        if len(a.shape) == 2 and E.entails(I(a.shape[1]) == m):
            if conc(k) != -1:
                same_dim(E, a.shape[0], dim(shape[0]), "reshape")
            return a.view()
        if conc(a.shape[0]) == 0 and conc(k) in (0, -1):
            return NA((0, dim(shape[1])), lambda ix: conv(E, 0, a.t), a.t)
    raise Undecided("reshape")


def astype(E, a, t, **kw):
    t = dtype_of(E, t, None)
    if t == a.t:
        return _copy(a)
    s = a.snapshot()
    return NA(a.shape, lambda ix: conv(E, s.at(ix), t), t, a.grid)


def tolist(E, v):
    v = deopt(E, v)
    if isinstance(v, PL):
        return v
    if isinstance(v, NA):
        if v.grid is not None:
            raise Undecided("list of a grid-shaped array")
        return v.aslist() if not hasattr(v, "sel") else _selpl(v)
    if isinstance(v, tuple):
        return PL(items=list(v))
    if isinstance(v, Iter):
        n = v.n()
        c = n if isinstance(n, int) else conc(n)
        if c is not None and c <= 32 and v.concrete():
            return PL(items=[v.item(k) for k in range(c)])
        r = PL(n=norm(V("i", I(n))), get=lambda k: v.item(k))
        no_shared(E, r)
        if hasattr(v, "bag"):
            r._bag = v.bag
            if v.src == "keys" and r.items is None:
                r._pos, r._ek = v.d.snapshot().kidx, "i"
        return r
    if isinstance(v, PS):
        return set_list(E, v)
    if isinstance(v, PD):
        return tolist(E, iterate(E, v))
    raise Undecided(f"list of {type(v).__name__}")


def _selpl(v):
    p = v.aslist()
    p._bag, p._pos = v.sel._bag, v.sel._pos
    return p


def set_list(E, s):
    """the elements of a set in some order"""
    n = E.const("set.len", IS)
    at = E.fn("set.at", [IS], IS)
    ps = E.fn("set.pos", [IS], IS)
    sn = s.snapshot()
    k, x = z3.FreshConst(IS, "k"), z3.FreshConst(IS, "x")
    E.ax([], n >= 0)
    E.ax([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(sn.has(at(k)), ps(at(k)) == k)), [at(k)])
    E.ax([x], z3.Implies(sn.has(x), z3.And(ps(x) >= 0, ps(x) < n, at(ps(x)) == x)), [ps(x)])
    E.ax([], z3.Implies(sn.nonempty(), n >= 1))
    first, second = at(z3.IntVal(0)), at(z3.IntVal(1))
    E.ax([], z3.And(z3.Implies(n >= 1, sn.has(first)), z3.Implies(n >= 2, z3.And(sn.has(second), first != second))))
    p = PL(n=n, get=lambda k: V("i", at(I(k))))
    p._ek = "i"
    p._bag = lambda x: z3.If(sn.has(x), z3.IntVal(1), z3.IntVal(0))
    p._pos = lambda x: ps(x)
    return p


def sorted_(E, v, **kw):
    if isinstance(v, (PS,)):
        v = set_list(E, v)
    if isinstance(v, Iter) and v.src == "keys" and not E.bound:
        # the same keys sort to the same list
        d, c = v.d, getattr(v.d, "sorted_keys", None)
        if c is None or c[0] is not d.kat or c[1] is not d.kidx:
            d.sorted_keys = c = (d.kat, d.kidx, sorted_(E, tolist(E, v)))
        r = c[2].snapshot()
        r._new()
        r.src = None
        return r
    if isinstance(v, Iter) and v.src == "items":
        d = v.d
        ks = sorted_(E, iterate(E, d))
        s = d.snapshot()
        r = PL(n=ks.n, get=lambda k: (ks.get(k), s.get(I(ks.get(k)))))
        r.keys = ks
        return r
    v = tolist(E, v)
    if v.items is not None and len(v.items) <= 1 and not kw:
        return PL(items=list(v.items))
    if kw:
        raise Undecided("sorted with a key")
    if v.items is not None and len(v.items) == 2 and all(is_scalar(x) for x in v.items):
        a, b = v.items
        c = s_cmp("LtE", a, b).e
        return PL(items=[norm(ite(c, lift(a), lift(b))), norm(ite(c, lift(b), lift(a)))])
    c = v.cnt_fn()
    e = v.get(z3.FreshConst(IS, "j")) if v.items is None else v.items[0]
    if not is_scalar(e):
        raise Undecided("sorting structured elements")
    t = elem_t(e)
    srt = {"i": IS, "r": RS}[t]
    n = I(v.n)
    at = E.fn("sorted.at", [IS], srt)
    ps = E.fn("sorted.pos", [srt], IS)
    src = E.fn("sorted.src", [IS], IS)
    k, k2, x = z3.FreshConst(IS, "k"), z3.FreshConst(IS, "k2"), z3.FreshConst(srt, "x")
    E.ax([k, k2], z3.Implies(z3.And(k >= 0, k <= k2, k2 < n), at(k) <= at(k2)), [[at(k), at(k2)]])
    E.ax([k], z3.Implies(z3.And(k >= 0, k < n), c(at(k)) >= 1), [at(k)])
    E.ax([x], z3.Implies(c(x) >= 1, z3.And(ps(x) >= 0, ps(x) < n, at(ps(x)) == x)), [ps(x)])
    # equal neighbours only for repeated elements
    E.ax([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < n, c(at(k)) <= 1), at(k) < at(k2)), [[at(k), at(k2)]])
    r = PL(n=v.n, get=lambda k: V(t, at(I(k))))
    r._ek = t
    r._bag = c
    r._pos = lambda x: ps(x)
    return r


def dict_from_pairs(E, p):
    """dict comprehension over a list of (key, value): keys must be distinct for the order to be kept"""
    j, j2 = z3.FreshConst(IS, "j"), z3.FreshConst(IS, "j2")
    s = p.snapshot()
    n = I(p.n)
    kj, kj2 = key_of(s.get(j)[0]), key_of(s.get(j2)[0])
    if E.bound:
        raise Undecided("dict inside a comprehension")
    f = z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < n), kj != kj2))
    if not E.proves(f):
        # a key given again keeps its place and takes the later value (the order of the keys is left open)
        L = E.const("dict.len", IS)
        kat, kidx, last = (E.fn("dict." + w, [IS], IS) for w in ("at", "idx", "last"))
        k, at = z3.FreshConst(IS, "k"), (lambda j: key_of(s.get(j)[0]))
        E.ax([], z3.And(L >= 0, L <= z3.If(n > 0, n, z3.IntVal(0))))
        E.ax([k], z3.And(kidx(k) >= -1, kidx(k) < L, z3.Implies(kidx(k) >= 0, z3.And(kat(kidx(k)) == k, last(k) >= 0, last(k) < n, at(last(k)) == k))), [kidx(k)])
        E.ax([k], z3.Implies(z3.And(k >= 0, k < L), z3.And(kidx(kat(k)) == k, kidx(kat(k)) >= 0)), [kat(k)])
        E.ax([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(kidx(at(j)) >= 0, last(at(j)) >= j)), _pats(kj, j)[:1])
        return PD(L, kat, lambda k: kidx(k), lambda k: s.get(last(k))[1])
    E.check("the keys of the dictionary are distinct", f, "keys")
    E.hyps.append(f)
    ix = E.fn("dict.idx", [IS], IS)
    k = z3.FreshConst(IS, "k")
    at = lambda j: key_of(s.get(j)[0])
    pat = _pats(kj, j)
    E.ax([j], z3.Implies(z3.And(j >= 0, j < n), ix(at(j)) == j), [pat[0]] if pat else [ix(at(j))])
    E.ax([k], z3.And(ix(k) >= -1, ix(k) < n, z3.Implies(ix(k) >= 0, at(ix(k)) == k)), [ix(k)])
    return PD(n, at, lambda k: ix(k), lambda k: s.get(ix(k))[1])


# ---------------------------------------------------------------- iteration
def iterate(E, v):
    v = deopt(E, v)
    if isinstance(v, Iter):
        return v
    if isinstance(v, tuple):
        return Iter(len(v), lambda k: v[conc(k)] if conc(k) is not None else PL(items=list(v)).get(k), True)
    if isinstance(v, PL):
        if v.hb:
            raise Undecided("iterating over a heap")
        def item(k):
            c = conc(k)
            if v.items is not None and c is not None:
                return v.get(c)
            return held(E, v, I(k), v.get(k)) if E.taking else v.get(k)
        it = Iter(lambda: v.n, item, v.items is not None, v)
        return it
    if isinstance(v, NA):
        if v.grid is not None:
            raise Undecided("iterating over a grid-shaped array")
        c = isinstance(v.shape[0], int)
        return Iter(v.shape[0], lambda k: norm(v.get(k)) if len(v.shape) == 1 else v.get(k), c, v)
    if isinstance(v, RA):
        return Iter(v.n, lambda k: v.get(k), isinstance(v.n, int), v)
    if isinstance(v, PS):
        return iterate(E, set_list(E, v))
    if isinstance(v, PD):
        if v.kt == "pair":
            raise Undecided("iterating over pair keys")
        it = Iter(lambda: v.klen, lambda k: V("i", v.kat(I(k))), False, "keys")
        it.d = v
        s = v.snapshot()
        it.bag = lambda x: z3.If(s.has(x), z3.IntVal(1), z3.IntVal(0))
        return it
    if isinstance(v, KwDict):
        ks = list(v.d)
        return Iter(len(ks), lambda k: ks[conc(k)], True)
    if isinstance(v, Obj) and "__iter__" in v.attrs:
        return iterate(E, v.attrs["__iter__"].f(E))
    raise Undecided(f"iterating over {type(v).__name__}")


def b_range(E, a, b=None, step=None):
    E.pyints = True
    a = deopt(E, a)
    if step is not None:
        raise Undecided("range step")
    if b is None:
        lo, hi = 0, a
    else:
        lo, hi = a, deopt(E, b)
    cl, ch = conc(lo), conc(hi)
    if cl is not None and ch is not None:
        n = max(0, ch - cl)
    else:
        d = z3.simplify(I(hi) - I(lo))
        n = d if E.entails(d >= 0) else z3.If(d > 0, d, z3.IntVal(0))
    it = Iter(n, lambda k: (k + cl) if isinstance(k, int) and cl is not None else norm(V("i", z3.simplify(I(k) + I(lo)))), True, "range")
    it.bounds = (lo, hi)
    return it


def b_enumerate(E, v, start=0):
    E.pyints = True
    it = iterate(E, v)
    s = deopt(E, start)
    f = lambda k: k if conc(s) == 0 else norm(V("i", I(k) + I(s)))
    r = Iter(lambda: it.n(), lambda k: (f(k if isinstance(k, int) else V("i", I(k))), it.item(k)), it.concrete(), it.src)
    return r


def b_zip(E, *vs):
    its = [iterate(E, v) for v in vs]
    ns = [it.n() for it in its]
    n = ns[0]
    for m in ns[1:]:
        if isinstance(n, int) and isinstance(m, int):
            n = min(n, m)
        elif z3.simplify(I(n) == I(m)).eq(z3.BoolVal(True)) or E.entails(I(n) == I(m)):
            pass
        else:
            n = z3.If(I(n) < I(m), I(n), I(m))
    return Iter(n, lambda k: tuple(it.item(k) for it in its), all(it.concrete() for it in its))


def b_reversed(E, v):
    it = iterate(E, v)
    n = it.n()
    return Iter(n, lambda k: it.item((n - 1 - k) if isinstance(n, int) and isinstance(k, int) else I(n) - 1 - I(k)), it.concrete())


# ---------------------------------------------------------------- heaps
def heap_push(E, h, x):
    if not isinstance(h, PL):
        raise Undecided("heappush on a non-list")
    if not isinstance(x, tuple):
        x = (x,)
    ks = tuple("i" if elem_t(y) == "b" else elem_t(y) for y in x)
    h.mut()
    b = h.cnt_fn() if not h.is_empty() else (lambda *y: z3.IntVal(0))
    n = I(h.n)
    if h.hkind is None:
        h.hkind = ks
    if h.hkind != ks:
        # an integer entry in a heap of floats
        if len(ks) == len(h.hkind) and all(a == c or (a, c) == ("i", "r") for a, c in zip(ks, h.hkind)):
            x = tuple(V("r", R(y)) if c == "r" else y for y, c in zip(x, h.hkind))
        else:
            raise Undecided("mixed heap entries")
    for y in x:
        if nanof(y) is not False and not (isinstance(y, V) and E.entails(z3.Not(B(y.nan)))):
            E.check("no NaN enters the heap", z3.Not(B(nanof(y))), "nan")
    h.items, h._n, h._get = None, n + 1, None
    h.hb = True
    h._bag = lambda *y: b(*y) + z3.If(VAL._eqs(y, x), 1, 0)


def heap_min(E, h):
    E.check("the heap is not empty", I(h.n) >= 1, "index")
    b = h.cnt_fn()
    out = [V(k, E.const("top", RS if k == "r" else IS)) for k in h.hkind]
    xs = [z3.FreshConst(RS if k == "r" else IS, "x") for k in h.hkind]
    es = [o.e for o in out]
    E.assume(b(*es) >= 1)
    le = z3.BoolVal(True)
    for a, c in reversed(list(zip(es, xs))):
        le = z3.Or(a < c, z3.And(a == c, le))
    bx = b(*xs)
    pats = []
    st = [bx]
    while st:
        q = st.pop()
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.num_args() == len(xs):
            pats.append(q)
        st.extend(q.children())
    E.ax(xs, z3.Implies(bx >= 1, le), pats[:1])
    return tuple(out) if len(out) > 1 else out[0]


def heap_pop(E, h):
    if not isinstance(h, PL) or not h.hb:
        if isinstance(h, PL) and h.is_empty():
            raise RaiseEx("IndexError", None)
        raise Undecided("heappop on a non-heap")
    x = heap_min(E, h)
    h.mut()
    b, n = h.cnt_fn(), I(h.n)
    xt = x if isinstance(x, tuple) else (x,)
    h._n = n - 1
    h._bag = lambda *y: b(*y) - z3.If(VAL._eqs(y, xt), 1, 0)
    return x


def heapify(E, h):
    if not isinstance(h, PL):
        raise Undecided("heapify")
    e = h.get(z3.FreshConst(IS, "j")) if h.items is None else (h.items[0] if h.items else None)
    if e is None:
        return
    e = e if isinstance(e, tuple) else (e,)
    b, n = h.cnt_fn(), I(h.n)
    h.mut()
    h.items, h._n, h._get, h.hb = None, n, None, True
    h.hkind = tuple(elem_t(y) for y in e)
    h._bag = b


# ---------------------------------------------------------------- builtins
def b_len(E, v):
    v = deopt(E, v)
    if isinstance(v, PL):
        return norm(v.n if isinstance(v.n, int) else V("i", I(v.n)))
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, NA):
        if v.grid is not None:
            raise Undecided("len of a grid-shaped array")
        d = v.shape[0]
        return d if isinstance(d, int) else norm(V("i", I(d)))
    if isinstance(v, PD):
        return norm(V("i", I(v.klen)))
    if isinstance(v, PS):
        n = E.const("len", IS)
        a, b = E.const("elem", IS), E.const("elem", IS)
        x = z3.FreshConst(IS, "x")
        sn = v.snapshot()
        E.ax([], n >= 0)
        E.ax([], z3.Implies(v.nonempty(), n >= 1))
        E.ax([x], z3.Implies(sn.has(x), z3.And(n >= 1, z3.Implies(n == 1, x == a))), _pats(sn.has(x), x)[:1])
        E.ax([], z3.Implies(n >= 1, sn.has(a)))
        E.ax([], z3.Implies(n >= 2, z3.And(sn.has(b), a != b)))
        return V("i", n)
    if isinstance(v, KwDict):
        return len(v.d)
    if isinstance(v, RA):
        return v.n if isinstance(v.n, int) else norm(V("i", I(v.n)))
    raise Undecided(f"len of {type(v).__name__}")


def b_isinstance(E, v, t):
    if isinstance(t, tuple):
        rs = [b_isinstance(E, v, x) for x in t]
        return any(rs)
    n = getattr(t, "name", None)
    if isinstance(v, Opt):
        raise Undecided("type test of a maybe-None value")
    have = {"int"} if isinstance(v, int) and not isinstance(v, bool) else \
        {"bool", "int"} if isinstance(v, bool) else {"float"} if isinstance(v, float) else {"str"} if isinstance(v, str) else \
        {"tuple"} if isinstance(v, tuple) else {"list"} if isinstance(v, PL) else {"ndarray"} if isinstance(v, NA) else \
        {"dict"} if isinstance(v, (PD, KwDict)) else {"set"} if isinstance(v, PS) else \
        ({"int", "integer", "int64"} if v.t == "i" else {"float", "floating", "float64"} if v.t == "r" else {"bool", "bool_"}) if isinstance(v, V) else set()
    if isinstance(v, Obj):
        return isinstance(t, Cls) and v.cls == t.name
    if n in ("int", "float", "bool", "str", "tuple", "list", "ndarray", "dict", "set", "integer", "floating", "int64", "float64"):
        return n in have
    if isinstance(t, Obj) or isinstance(t, Cls):
        return False
    raise Undecided(f"isinstance with {n}")


def b_set(E, v=None):
    if v is None:
        return PS(lambda x: z3.BoolVal(False), z3.BoolVal(False))
    if isinstance(v, PS):
        s = v.snapshot()
        return PS(s._has, s._ne)
    v = tolist(E, v)
    if v.items is not None:
        s = PS(lambda x: z3.BoolVal(False), z3.BoolVal(False))
        for x in v.items:
            s.add(x)
        return s
    c = v.cnt_fn()
    return PS(lambda x: c(x) >= 1, I(v.n) > 0)


def b_dict(E, v=None, **kw):
    if v is None:
        return KwDict(kw) if kw else empty_dict()
    if isinstance(v, KwDict):
        return KwDict(v.d)
    if isinstance(v, PD):
        return v.snapshot()
    if isinstance(v, Iter):
        v = tolist(E, v)
    if isinstance(v, PL):
        if v.items is not None:
            d = empty_dict()
            for k, x in [unpack(E, y, 2) for y in v.items]:
                d.store_elem(key_of(k), own(E, x))
            return d
        return dict_from_pairs(E, v)
    raise Undecided("dict()")


def b_int(E, v):
    v = deopt(E, v)
    E.pyints = True
    return map1(E, lambda x: conv(E, x, "i"), v)


def b_float(E, v):
    v = deopt(E, v)
    if isinstance(v, str):
        return float(v)
    return map1(E, lambda x: conv(E, x, "r"), v)


def b_bool(E, v):
    t = truth(E, v)
    return t if isinstance(t, bool) else V("b", t)


def b_list(E, v=None):
    if v is None:
        return PL(items=[])
    r = tolist(E, v)
    if r is v:
        no_shared(E, r)
        s = r.snapshot()
        s._new()
        s.src = None
        return s
    return r


def b_tuple(E, v=()):
    if isinstance(v, tuple):
        return v
    v = tolist(E, v)
    if v.items is not None:
        return tuple(v.items)
    r = v.snapshot()
    r._new()
    r.astuple = True
    return r


def b_abs(E, v):
    return map1(E, s_abs, deopt(E, v))


def b_minmax(sign):
    def f(E, *vs, **kw):
        if kw:
            raise Undecided("min/max keyword")
        if len(vs) == 1:
            return extreme(E, vs[0], sign, False, "min" if sign > 0 else "max")
        r = deopt(E, vs[0])
        for x in vs[1:]:
            x = deopt(E, x)
            c = s_cmp("LtE" if sign > 0 else "GtE", r, x)
            r = ite(c.e, lift(r), lift(x))
        return norm(r)
    return f


def b_anyall(isany):
    def f(E, v):
        n, g = seq_view(E, v) if not isinstance(v, Iter) else (v.n(), v.item)
        c = n if isinstance(n, int) else conc(n)
        if c is not None and c <= 16:
            xs = [B(truth(E, g(k))) for k in range(c)]
            return V("b", z3.Or(*xs) if isany else z3.And(*xs)) if xs else (not isany)
        k = z3.FreshConst(IS, "k")
        w = E.const("any.at", IS)
        b = E.const("any", BS)
        ck = B(truth(E, g(k)))
        rng = z3.And(k >= 0, k < I(n))
        cw = B(truth(E, g(w)))
        rw = z3.And(w >= 0, w < I(n))
        if isany:
            E.ax([k], z3.Implies(z3.And(rng, ck), b), _pats(ck, k)[:1])
            E.ax([], z3.Implies(b, z3.And(rw, cw)))
        else:
            E.ax([k], z3.Implies(z3.And(rng, b), ck), _pats(ck, k)[:1])
            E.ax([], z3.Implies(z3.Not(b), z3.And(rw, z3.Not(cw))))
        return V("b", b)
    return f


def total(E, v, name="sum"):
    """sum: an uninterpreted prefix sum with its recursive definition"""
    n, g = seq_view(E, v)
    c = n if isinstance(n, int) else conc(n)
    if c is not None and c <= 8:
        r = 0
        for k in range(c):
            r = s_add(r, g(k))
        return norm(lift(r))
    e0 = g(z3.FreshConst(IS, "z"))
    if e0.t == "b":
        raise Undecided("sum of booleans")
    s = E.fn(name, [IS], RS if e0.t == "r" else IS)
    k = z3.FreshConst(IS, "k")
    val = R if e0.t == "r" else I
    E.ax([], s(z3.IntVal(0)) == 0)
    E.ax([k], z3.Implies(z3.And(k >= 0, k < I(n)), s(k + 1) == s(k) + val(g(k))), [s(k + 1)])
    nan = False
    if e0.nan is not False:
        nan = E.const(name + ".isnan", BS)
        w = E.const(name + ".nan.at", IS)
        isnan = lambda k: B(lift(g(k)).nan) if lift(g(k)).nan is not False else z3.BoolVal(False)
        E.ax([], z3.Implies(nan, z3.And(w >= 0, w < I(n), isnan(w))))
        E.ax([k], z3.Implies(z3.And(k >= 0, k < I(n), isnan(k)), nan), _pats(isnan(k), k)[:1])
    E.ghost.setdefault("sums", []).append((n, g, s))
    return V("r" if e0.t == "r" else "i", s(I(n)), nan)


def b_sum(E, v):
    return total(E, v)


BUILTINS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "reversed": b_reversed, "sorted": sorted_,
    "list": b_list, "tuple": b_tuple, "set": b_set, "dict": b_dict, "int": b_int, "float": b_float, "bool": b_bool,
    "abs": b_abs, "min": b_minmax(1), "max": b_minmax(-1), "sum": b_sum, "any": b_anyall(True), "all": b_anyall(False),
    "isinstance": b_isinstance, "print": lambda E, *a, **k: None, "str": lambda E, *a: "<text>",
}


# ---------------------------------------------------------------- numpy
def np_isnan(E, v):
    v = deopt(E, v)

    def f(x):
        n = nanof(x)
        return V("b", B(n) if n is not False else z3.BoolVal(False))
    return map1(E, f, v, "b" if isinstance(v, (NA, PL)) else None)


def np_copy(E, a):
    a = to_na(E, deopt(E, a))
    return _copy(a)


def np_expand(E, a, axis=None):
    if conc(axis) != 1 or len(a.shape) != 1 or a.grid is not None:
        raise Undecided("expand_dims")
    s = a.snapshot()
    return NA((a.shape[0], 1), lambda ix: s.at([ix[0]]), a.t)


def np_arange(E, a, b=None, dtype=None):
    if b is None:
        lo, hi = 0, deopt(E, a)
    else:
        lo, hi = deopt(E, a), deopt(E, b)
    n = norm(s_sub(hi, lo))
    r = NA((dim(n),), lambda ix: V("i", ix[0] + I(lo)), "i")
    return r


def np_size(E, a):
    return norm(V("i", I(size_of(a))))


def np_count_nonzero(E, a):
    s = a.snapshot()
    n = E.const("nnz", IS)
    E.assume(z3.And(n >= 0, n <= I(a.shape[0])))
    k = z3.FreshConst(IS, "k")
    E.ax([k], z3.Implies(z3.And(k >= 0, k < I(a.shape[0]), B(truth(E, s.at([k])))), n >= 1))
    return V("i", n)


def np_array_equal(E, a, b, **kw):
    a, b = to_na(E, deopt(E, a)), to_na(E, deopt(E, b))
    if kw:
        raise Undecided("array_equal keyword")
    if len(a.shape) != 1 or len(b.shape) != 1:
        raise Undecided("array_equal of 2-D arrays")
    sa, sb = a.snapshot(), b.snapshot()
    c = E.const("array_equal", BS)
    w = E.const("differ", IS)
    k = z3.FreshConst(IS, "k")
    e = lambda i: B(truth(E, s_cmp("Eq", sa.at([i]), sb.at([i]))))
    n, m = I(a.shape[0]), I(b.shape[0])
    E.ax([k], z3.Implies(z3.And(c, k >= 0, k < n), e(k)), _pats(e(k), k)[:1])
    E.ax([], z3.Implies(c, n == m))
    E.ax([], z3.Implies(z3.Not(c), z3.Or(n != m, z3.And(w >= 0, w < n, z3.Not(e(w))))))
    return V("b", c)


def np_cumsum(E, a):
    raise Undecided("cumsum")


def ones(E, shape, dtype=None, **kw):
    return full(E, shape, 1.0 if dtype is None else 1, dtype)


def zeros(E, shape, dtype=None, **kw):
    return full(E, shape, 0.0 if dtype is None else 0, dtype)


def like(val):
    def f(E, a, dtype=None):
        t = a.t if dtype is None else dtype_of(E, dtype, None)
        cv = conv(E, val, t)
        return NA(a.shape, lambda ix: cv, t, a.grid)
    return f


def np_minmax2(sign):
    def f(E, a, b):
        def g(x, y):
            x, y = lift(x), lift(y)
            c = s_cmp("LtE" if sign > 0 else "GtE", V(x.t, x.e), V(y.t, y.e))
            r = ite(c.e, V(x.t, x.e), V(y.t, y.e))
            nn = bor(x.nan, y.nan)
            return V(r.t, r.e, nn) if nn is not False else r
        return map2(E, g, deopt(E, a), deopt(E, b))
    return f


NP = {
    "where": np_where, "nonzero": np_where1, "flatnonzero": lambda E, a: np_where1(E, a)[0], "ones": ones, "zeros": zeros,
    "full": full, "copy": np_copy, "array": lambda E, v, dtype=None, **k: np_array(E, v, dtype), "asarray": lambda E, v, dtype=None: v if isinstance(v, NA) and dtype is None else np_array(E, v, dtype),
    "isnan": np_isnan, "ravel": ravel, "abs": b_abs, "absolute": b_abs, "sqrt": np_sqrt,
    "expand_dims": np_expand, "arange": np_arange, "count_nonzero": np_count_nonzero, "array_equal": np_array_equal,
    "zeros_like": like(0), "ones_like": like(1), "full_like": lambda E, a, v, dtype=None: like(v)(E, a, dtype),
    "min": lambda E, a, **k: extreme(E, a, 1, False, "min"), "max": lambda E, a, **k: extreme(E, a, -1, False, "max"),
    "amin": lambda E, a: extreme(E, a, 1, False, "min"), "amax": lambda E, a: extreme(E, a, -1, False, "max"),
    "nanmin": lambda E, a: extreme(E, a, 1, True, "nanmin"), "nanmax": lambda E, a: extreme(E, a, -1, True, "nanmax"),
    "mean": lambda E, a, **k: average(E, a, False, "mean") if not k else _bad("mean axis"), "median": lambda E, a: average(E, a, False, "median"),
    "nanmean": lambda E, a: average(E, a, True, "nanmean"), "nanmedian": lambda E, a: average(E, a, True, "nanmedian"),
    "argmax": lambda E, a: argext(E, a, -1, "argmax"), "argmin": lambda E, a: argext(E, a, 1, "argmin"),
    "sum": lambda E, a: total(E, a), "minimum": np_minmax2(1), "maximum": np_minmax2(-1),
    "arctan2": lambda E, a, b: map2(E, lambda x, y: V("r", ATAN2(R(x), R(y)), bor(nanof(x), nanof(y))), a, b),
    "cos": lambda E, a: map1(E, lambda x: V("r", COS(R(x)), nanof(x)), a),
    "sin": lambda E, a: map1(E, lambda x: V("r", SIN(R(x)), nanof(x)), a),
    "logical_not": lambda E, a: map1(E, lambda x: V("b", z3.Not(B(truth(E, x)))), a),
    "logical_and": lambda E, a, b: map2(E, lambda x, y: V("b", z3.And(B(truth(E, x)), B(truth(E, y)))), a, b),
    "logical_or": lambda E, a, b: map2(E, lambda x, y: V("b", z3.Or(B(truth(E, x)), B(truth(E, y)))), a, b),
    "any": b_anyall(True), "all": b_anyall(False), "power": lambda E, a, b: map2(E, s_pow, a, b),
    "square": lambda E, a: map1(E, lambda x: s_pow(x, 2), a), "subtract": lambda E, a, b: map2(E, s_sub, a, b),
    "add": lambda E, a, b: map2(E, s_add, a, b), "isin": None,
}
NPCONST = {"nan": float("nan"), "pi": 3.141592653589793, "ndarray": TypeTok("ndarray"), "integer": TypeTok("integer"),
           "floating": TypeTok("floating"), "int64": TypeTok("int64"), "float64": TypeTok("float64"), "bool_": TypeTok("bool_"),
           "int32": TypeTok("int32"), "recarray": TypeTok("recarray")}


# ---------------------------------------------------------------- methods
def m_index(E, l, x):
    if isinstance(l, PL) and l._ek in ("i", None):
        E.check("the element is in the list", l.has(*flat(x)), "value")
        l2 = l
        w = E.const("index", IS)
        n = I(l.n)
        E.assume(z3.And(w >= 0, w < n, *[VAL._eq1(a, b) for a, b in zip(flat(l2.get(w)), flat(x))]))
        k = z3.FreshConst(IS, "k")
        E.ax([k], z3.Implies(z3.And(k >= 0, k < w), flat(l2.get(k))[0] != flat(x)[0]))
        return V("i", w)
    raise Undecided("list.index")


def m_pop(E, l, i=None, *d):
    if isinstance(l, KwDict):
        if i in l.d:
            return l.d.pop(i)
        if d:
            return d[0]
        raise RaiseEx("KeyError", None)
    if isinstance(l, PD):
        if d:
            raise Undecided("dict.pop with a default")
        k = key_of(deopt(E, i))
        E.check("the key is in the dictionary", l.has(k), "key")
        E.assume(l.has(k))
        return l.remove(k)
    if isinstance(l, PS):
        raise Undecided("set.pop")
    if l.hb:
        raise Undecided("pop on a heap")
    n = l.n
    if isinstance(n, int):
        if n == 0:
            raise RaiseEx("IndexError", None)
    else:
        E.check("the list is not empty", I(n) >= 1, "index")
    if i is None or conc(i) == -1:
        return l.pop_last()
    if conc(i) == 0:
        return l.pop0()
    return l.pop_at(eff_index(E, i, n, "list index"))


def m_insert(E, l, i, x):
    if conc(i) != 0:
        raise Undecided("insert in the middle")
    l.insert0(own(E, x))


def m_count(E, l, x):
    c = l.cnt(*flat(x))
    b, p = l._bag, l._pos
    if l.items is None and p is not None and l._ek in ("i", None) and not E.bound and getattr(l, "_twice", None) is not b:
        # multiplicity one and more than one
        q = E.fn("second", [IS], IS)
        n = I(l.n)
        y, j = z3.FreshConst(IS, "y"), z3.FreshConst(IS, "j")
        g = lambda j: I(l.get(j))
        E.ax([y], z3.Implies(b(y) >= 2, z3.And(q(y) >= 0, q(y) < n, q(y) != p(y), g(q(y)) == y)), [b(y)])
        E.ax([j], z3.Implies(z3.And(j >= 0, j < n, b(g(j)) == 1), j == p(g(j))), [g(j)])
        l._twice = b
    return V("i", c)


def m_items(E, d):
    if isinstance(d, KwDict):
        its = list(d.d.items())
        return Iter(len(its), lambda k: its[conc(k)], True)
    if d.kt == "pair":
        raise Undecided("iterating over pair keys")
    def val(k):
        k = d.kat(I(k))
        return held(E, d, k, d.get(k)) if E.taking else d.get(k)
    it = Iter(lambda: d.klen, lambda k: (V("i", d.kat(I(k))), val(k)), False, "items")
    it.d = d
    return it


def m_keys(E, d):
    if isinstance(d, KwDict):
        return PL(items=list(d.d))
    return iterate(E, d)


def m_values(E, d):
    if isinstance(d, KwDict):
        return PL(items=list(d.d.values()))
    def val(k):
        k = d.kat(I(k))
        return held(E, d, k, d.get(k)) if E.taking else d.get(k)
    it = Iter(lambda: d.klen, val, False, "values")
    it.d = d
    return it


def m_get(E, d, k, default=None):
    if isinstance(d, KwDict):
        return d.d.get(k, default)
    if isinstance(k, Opt):
        raise Undecided("dict.get of a maybe-None key")
    kk = key_of(k)
    if d._get is None:
        return default
    return ite(d.has(kk), d.get(kk), default)


def m_append(E, l, x):
    x = own(E, x)
    if isinstance(x, (int, float)) or x is None or isinstance(x, (V, tuple, PL, str, Opt, NA, PS, PD, Obj)):
        l.append(x)
        return
    raise Undecided("append")


def m_tolist(E, a):
    E.pyints = True
    return tolist(E, a)


def m_item(E, a):
    E.pyints = True
    return a.at([0])


def s_update(E, s, *others):
    """union in place"""
    for o in others:
        if not isinstance(o, PS):
            l = tolist(E, o)
            if l.is_empty():
                continue
            sn = l.snapshot()
            o = PS(lambda *x: I(sn.bag(*x)) > 0, I(sn.n) > 0) if l.items is None else None
            if o is None:
                for x in l.items:
                    s.add(x)
                continue
        h, ne, b = s._has, s.nonempty(), o.snapshot()
        s.mut()
        s._has = lambda *x: z3.Or(h(*x), b.has(*x))
        s._ne = z3.Or(ne, b.nonempty())
        s.wb()


METHODS = {
    "PL": {"append": m_append, "pop": m_pop, "insert": m_insert, "index": m_index, "count": m_count,
           "extend": lambda E, l, o: l.extend(no_shared(E, tolist(E, o))), "copy": lambda E, l: b_list(E, l)},
    "NA": {"ravel": ravel, "flatten": lambda E, a: _copy(ravel(E, a)), "reshape": reshape, "copy": lambda E, a: _copy(a), "astype": astype,
           "tolist": lambda E, a: m_tolist(E, a), "min": lambda E, a: extreme(E, a, 1, False, "min"),
           "max": lambda E, a: extreme(E, a, -1, False, "max"), "sum": lambda E, a: total(E, a),
           "any": b_anyall(True), "all": b_anyall(False), "nonzero": np_where1, "item": lambda E, a: m_item(E, a)},
    "PS": {"add": lambda E, s, x: s.add(x), "update": s_update, "copy": lambda E, s: PS(s._has, s._ne)},
    "PD": {"items": m_items, "keys": m_keys, "values": m_values, "get": m_get, "pop": m_pop},
    "KwDict": {"items": m_items, "keys": m_keys, "values": m_values, "get": m_get, "pop": m_pop},
    "str": {"lower": lambda E, s: s.lower(), "upper": lambda E, s: s.upper(), "strip": lambda E, s: s.strip()},
}


def check_moved(o):
    if getattr(o, "moved", False):
        raise Undecided("a list stored in another container is used through its old name")


def getattr_(E, o, name):
    o = deopt(E, o)
    if isinstance(o, Mod):
        if o.name in ("numpy", "np"):
            if name in NPCONST:
                return NPCONST[name]
            f = NP.get(name)
            if f is None:
                raise Undecided(f"numpy.{name}")
            E.trusted.add(f"numpy.{name}")
            return Builtin(f, "np." + name)
        if o.name == "heapq":
            f = {"heappush": heap_push, "heappop": heap_pop, "heapify": heapify}.get(name)
            if f is None:
                raise Undecided(f"heapq.{name}")
            E.trusted.add(f"heapq.{name}")
            return Builtin(f, name)
        if o.name == "copy":
            return Builtin(deepcopy, "copy." + name)
        if o.name == "collections":
            return imported(E, "collections", name)
        if o.name == "math":
            return NPCONST[name] if name in NPCONST else Builtin({"sqrt": NP["sqrt"], "isnan": np_isnan}.get(name) or _bad(name), name)
        raise Undecided(f"module {o.name}")
    if isinstance(o, NA):
        if name == "shape" and o.grid is VAL.MIXED:
            raise Undecided("shape of an array that is flat or grid-shaped")
        if name == "shape":
            rows_exist(E, o)
            return o.grid if o.grid is not None else tuple(d if isinstance(d, int) else norm(V("i", I(d))) for d in o.shape)
        if name == "size":
            return np_size(E, o)
        if name == "ndim":
            rows_exist(E, o)
            return len(o.shape)
        if name == "T":
            if o.grid is not None or len(o.shape) > 2:
                raise Undecided("transpose")
            if len(o.shape) == 1:
                return o
            rows_exist(E, o)
            s = o.snapshot()
            r = NA(o.shape[::-1], lambda ix: s.at(list(ix)[::-1]), o.t)
            r.readonly = True
            return r
        m = METHODS["NA"].get(name)
    elif isinstance(o, RA):
        if name == "dtype":
            return Obj("dtype", dict(descr=PL(items=[(a, TypeTok({"i": "int", "r": "float", "b": "bool", "o": "object"}[t])) for a, t in o.fields])))
        m = {"view": lambda E, a, t=None: a if getattr(t, "name", None) in ("recarray", "ndarray") else _bad("view")}.get(name)
    elif isinstance(o, PL):
        m = METHODS["PL"].get(name)
        check_moved(o)
    elif isinstance(o, PS):
        m = METHODS["PS"].get(name)
        check_moved(o)
    elif isinstance(o, PD):
        m = METHODS["PD"].get(name)
        check_moved(o)
    elif isinstance(o, KwDict):
        m = METHODS["KwDict"].get(name)
    elif isinstance(o, str):
        m = METHODS["str"].get(name)
    elif isinstance(o, Obj):
        if name in o.attrs:
            v = o.attrs[name]
            if v is DEAD:
                raise Undecided(f"attribute {name} may be unset")
            if callable(v) and not isinstance(v, (Builtin, Fn)):
                return v(E)          # computed attribute of a modelled object
            return v
        f = E.repo.method(o.cls, name)
        if f is not None:
            fn = Fn(f.qual, f.node, f.mod, o)
            if any(isinstance(d, ast.Name) and d.id == "property" for d in f.node.decorator_list):
                return E.call_fn(fn, [], {})
            return fn
        raise Undecided(f"attribute {name} of {o.cls}")
    elif isinstance(o, Super):
        f = E.repo.super_method(o.cls, name)
        if f is None:
            raise Undecided(f"super().{name}")
        return Fn(f.qual, f.node, f.mod, o.obj)
    elif isinstance(o, V) and name in ("copy", "item"):
        E.pyints = E.pyints or name == "item"
        return Builtin(lambda E: o, name)
    else:
        m = None
    if m is None:
        raise Undecided(f"attribute {name} of {type(o).__name__}")
    return Builtin(lambda E, *a, **k: m(E, o, *a, **k), f"{type(o).__name__}.{name}")


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def deepcopy(E, v):
    if isinstance(v, NA):
        return _copy(v)
    if isinstance(v, (PL, PD, PS)):
        s = v.snapshot()
        s._new()
        s.src = None
        return s
    return v


def m_defaultdict(E, f=None):
    if isinstance(f, Builtin) and f.name == "set":
        return empty_dict(new_set)
    if isinstance(f, Builtin) and f.name == "list":
        return empty_dict(new_list)
    raise Undecided("defaultdict")


def new_set():
    return PS(lambda x: z3.BoolVal(False), z3.BoolVal(False))


def new_list():
    return PL(items=[])


def imported(E, module, name):
    if module == "collections":
        if name == "defaultdict":
            return Builtin(m_defaultdict, "defaultdict")
        if name == "OrderedDict":
            return Builtin(b_dict, "dict")
        if name == "deque":
            raise Undecided("deque")
    if module == "heapq":
        return getattr_(E, Mod("heapq"), name)
    if module == "copy":
        return Builtin(deepcopy, name)
    if module and module.startswith("flopy"):
        f = E.models.get(name)
        if f is None:
            return Builtin(lambda E, *a, **k: (_ for _ in ()).throw(Undecided(f"flopy {name}")), name)
        E.trusted.add(f"flopy {name}")
        return f
    r = E.repo.lookup_import(module, name)
    if r is not None:
        return r
    raise Undecided(f"import {module}.{name}")


def global_name(E, mod, n):
    if mod is not None:
        r = E.repo.global_(mod, n)
        if r is not None:
            if isinstance(r, ast.ImportFrom):
                return imported(E, r.module, n)
            return r
    if n in BUILTINS:
        return Builtin(BUILTINS[n], n)
    if n == "super":
        return Builtin(lambda E: Super(E.frame.fn.qual.split(".")[1], E.frame.env["self"]), "super")
    if n in ("AssertionError", "ValueError", "KeyError", "NotImplementedError", "Exception", "TypeError", "IndexError"):
        return TypeTok(n)
    if n == "object":
        return TypeTok("object")
    if n in ("NotImplemented",):
        raise Undecided(n)
    raise RaiseEx("NameError", None)


def call(E, e):
    f = E.ev(e.func)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = E.ev(a.value)
            if isinstance(v, tuple):
                args += list(v)
            elif isinstance(v, PL) and v.items is not None:
                args += v.items
            else:
                raise Undecided("starred argument")
        else:
            args.append(E.ev(a))
    kw = {}
    for k in e.keywords:
        if k.arg is None:
            v = E.ev(k.value)
            if not isinstance(v, KwDict):
                raise Undecided("** argument")
            kw.update(v.d)
        else:
            kw[k.arg] = E.ev(k.value)
    if isinstance(f, Builtin):
        try:
            return f.f(E, *args, **kw)
        except TypeError as ex:
            if "argument" in str(ex):
                raise Undecided(f"call of {f.name}: {ex}")
            raise
    if isinstance(f, Fn):
        return E.call_fn(f, args, kw)
    if isinstance(f, Cls):
        o = Obj(f.name)
        init = E.repo.method(f.name, "__init__")
        if init is not None:
            E.call_fn(Fn(init.qual, init.node, init.mod, o), args, kw)
        return o
    if isinstance(f, TypeTok):
        return f
    raise Undecided(f"call of {type(f).__name__}")
