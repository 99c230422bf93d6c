"""Symbolic values of the Python subset.

Numbers: ints are mathematical integers; floats are real numbers plus a NaN flag.  Arrays, lists, dicts and sets are
closures from index terms to values, so a write builds a new closure and a havoc replaces it by a fresh function symbol.
"""
import itertools
import z3

IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Undecided(Exception):
    """a construct outside the subset the engine models"""


_ser = itertools.count()


def fresh_name(s):
    return f"{s}!{next(_ser)}"


class V:
    """symbolic scalar: t in i (int), r (float), b (bool)"""
    __slots__ = ("t", "e", "nan")

    def __init__(self, t, e, nan=False):
        self.t, self.e, self.nan = t, e, nan

    def __repr__(self):
        return f"V{self.t}({self.e}{'' if self.nan is False else ' nan?'+str(self.nan)})"


class Opt:
    """None or a value"""

    def __init__(self, none, val):
        self.none, self.val = none, val


class Late:
    """variable that may have no value yet"""

    def __init__(self, set_, val):
        self.set, self.val = set_, val


class Dead:
    """variable without a value at this point"""


DEAD = Dead()


class Mod:
    def __init__(self, name):
        self.name = name


class Fn:
    """a function of the repository (or a bound method)"""

    def __init__(self, qual, node, mod, self_=None):
        self.qual, self.node, self.mod, self.self_ = qual, node, mod, self_


class Builtin:
    def __init__(self, f, name=""):
        self.f, self.name = f, name


class Cls:
    def __init__(self, name, node, mod, bases=()):
        self.name, self.node, self.mod, self.bases = name, node, mod, bases


def isz(x):
    return isinstance(x, z3.ExprRef)


def is_scalar(x):
    return isinstance(x, (V, int, float, bool)) and x is not None


def lift(x):
    if isinstance(x, V):
        return x
    if isinstance(x, bool):
        return V("b", z3.BoolVal(x))
    if isinstance(x, int):
        return V("i", z3.IntVal(x))
    if isinstance(x, float):
        if x != x:
            return V("r", z3.RealVal(0), z3.BoolVal(True))
        if x in (float("inf"), float("-inf")):
            raise Undecided("infinity")
        return V("r", z3.RealVal(repr(x) if "e" not in repr(x) else _dec(x)))
    if isinstance(x, Opt):
        raise Undecided("value may be None")
    if isz(x):
        return V("i" if x.sort() == IS else "r" if x.sort() == RS else "b", x)
    raise Undecided(f"not a scalar: {type(x).__name__}")


def _dec(x):
    from fractions import Fraction
    from decimal import Decimal
    f = Fraction(Decimal(repr(x)))
    return f"{f.numerator}/{f.denominator}"


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isz(x):
        if x.sort() == IS:
            return x
        if x.sort() == BS:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        raise Undecided("real used as an integer")
    v = lift(x)
    if v.t == "i":
        return v.e
    if v.t == "b":
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise Undecided("float used as an integer")


def R(x):
    v = lift(x)
    if v.t == "r":
        return v.e
    if v.t == "i":
        return z3.simplify(z3.ToReal(v.e)) if z3.is_int_value(v.e) else z3.ToReal(v.e)
    return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))


def nanof(x):
    if isinstance(x, V):
        return x.nan
    if isinstance(x, float):
        return x != x
    return False


def B(x):
    """z3 Bool of a python bool / z3 Bool / V bool"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isz(x):
        return x
    if isinstance(x, V) and x.t == "b":
        return x.e
    raise Undecided("not a boolean")


def bor(*xs):
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    if any(x is True for x in xs):
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def conc(x):
    """concrete python value of a scalar if it is a literal, else None"""
    if isinstance(x, (int, float, bool)):
        return x
    e = x.e if isinstance(x, V) else x
    if isz(e):
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return None


def norm(v):
    """fold literals back to python values"""
    if isinstance(v, V) and v.t in "ib":
        c = conc(v)
        if c is not None:
            return c
    return v


def ite(c, a, b):
    """structural conditional"""
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
        if a is None and b is None:
            return None
        an, av = (a.none, a.val) if isinstance(a, Opt) else (z3.BoolVal(a is None), a)
        bn, bv = (b.none, b.val) if isinstance(b, Opt) else (z3.BoolVal(b is None), b)
        if av is None:
            av = bv
        if bv is None:
            bv = av
        return Opt(z3.If(c, an, bn), ite(c, av, bv))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, PL) and isinstance(b, PL):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return PL(items=[ite(c, x, y) for x, y in zip(a.items, b.items)])
        if a.hb or b.hb:
            raise Undecided("merge of heaps")
        ra, rb = a.row(), b.row()
        if ra is not None and rb is not None:
            m = max(len(ra), len(rb))
            return short([ra[i] if i >= len(rb) else rb[i] if i >= len(ra) else ite(c, ra[i], rb[i]) for i in range(m)], z3.If(c, I(a.n), I(b.n)), min(a.least(), b.least()))
        get = b.get if a.is_empty() else a.get if b.is_empty() else (lambda k: ite(c, a.get(k), b.get(k)))
        r = PL(n=z3.If(c, I(a.n), I(b.n)), get=get)
        r._bag = lambda *x: z3.If(c, a.cnt(*x), b.cnt(*x))
        return r
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if is_scalar(a) and is_scalar(b):
        a, b = lift(a), lift(b)
        if a.t == b.t:
            if a.t == "r":
                n = False
                if a.nan is not False or b.nan is not False:
                    n = z3.If(c, B(a.nan if a.nan is not False else z3.BoolVal(False)),
                              B(b.nan if b.nan is not False else z3.BoolVal(False)))
                return V("r", z3.If(c, a.e, b.e), n)
            return V(a.t, z3.If(c, a.e, b.e))
        if "r" in (a.t, b.t):
            return ite(c, V("r", R(a), a.nan), V("r", R(b), b.nan))
        return V("i", z3.If(c, I(a), I(b)))
    if isinstance(a, NA) and isinstance(b, NA) and a.t == b.t and len(a.shape) == len(b.shape):
        return NA(tuple(ite(c, x, y) for x, y in zip(a.shape, b.shape)), lambda ix: ite(c, a.at(ix), b.at(ix)), a.t)
    if isinstance(a, PS) and isinstance(b, PS):
        return PS(lambda *x: z3.If(c, a.has(*x), b.has(*x)), z3.If(c, a.nonempty(), b.nonempty()))
    raise Undecided(f"cannot merge {type(a).__name__} and {type(b).__name__}")


def subst(v, pairs):
    """substitute z3 terms inside a value"""
    if isinstance(v, V):
        return V(v.t, z3.substitute(v.e, *pairs), v.nan if isinstance(v.nan, bool) else z3.substitute(v.nan, *pairs))
    if isz(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, (int, float, bool, str)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Opt):
        return Opt(z3.substitute(v.none, *pairs), subst(v.val, pairs))
    if isinstance(v, PL):
        if v.items is not None:
            return PL(items=[subst(x, pairs) for x in v.items])
        if v.comp is not None:
            return short([subst(x, pairs) for x in v.comp], subst(v.n, pairs), v.lo)
        r = PL(n=subst(v.n, pairs), get=lambda k: _sub_app(v.get, k, pairs))
        r._bag = lambda *x: _sub_app_n(v.cnt, x, pairs)
        return r
    if isinstance(v, NA):
        return NA(tuple(subst(d, pairs) if not isinstance(d, int) else d for d in v.shape),
                  lambda ix: _sub_app(lambda *a: v.at(list(a)), tuple(ix), pairs), v.t)
    raise Undecided(f"substitution in {type(v).__name__}")


def _sub_app(f, k, pairs):
    ks = k if isinstance(k, tuple) else (k,)
    ph = [z3.FreshConst(IS, "ph") for _ in ks]
    r = f(*ph) if isinstance(k, tuple) else f(ph[0])
    r = subst(r, pairs)
    return subst(r, [(p, I(x)) for p, x in zip(ph, ks)])


def _sub_app_n(f, xs, pairs):
    ph = [z3.FreshConst(x.sort(), "ph") for x in xs]
    r = subst(f(*ph), pairs)
    return subst(r, list(zip(ph, xs)))


class Ref:
    serial = 0
    eng = None          # the running engine: told about every mutation
    back = None
    tag = None

    def _new(self):
        Ref.serial += 1
        self.id = Ref.serial

    kids = None         # element aliases handed out: (key term, alias)
    stale = False

    def alias(self, key, v):
        """v is the element at key, still shared with this container"""
        v.back = (self, key)
        if self.kids is None:
            self.kids = []
        self.kids.append((key, v))
        return v

    def outdate(self, key=None, by=None):
        """the element at key (or any) is replaced: aliases of it no longer show the container's content"""
        kids = self.kids or ()
        for k, v in list(kids):
            if v is by or v.stale:
                continue
            if key is not None and Ref.eng is not None:
                if I(k).eq(I(key)):
                    # the container lets go of it: it keeps its content
                    v.back = None
                    self.kids = [x for x in self.kids if x[1] is not v]
                    continue
                if Ref.eng.entails(I(k) != I(key)):
                    continue
            v.stale = True

    def mut(self, by=None):
        if Ref.eng is not None:
            Ref.eng.on_mut(self, by)

    def wb(self):
        if self.back is not None:
            par, key = self.back
            par.store_elem(key, self.snapshot(), self)


def flat(x):
    """component terms of a scalar or tuple of scalars (for multisets)"""
    if isinstance(x, tuple):
        return tuple(t for y in x for t in flat(y))
    v = lift(x)
    return (v.e,)


class PL(Ref):
    """python list.  items: concrete list of values, else (n, get).  hb: heap mode, content known as a multiset only"""

    def __init__(self, items=None, n=None, get=None):
        self._new()
        self.items, self._n, self._get = items, n, get
        self._bag = None
        self.hb = False
        self.hkind = None
        self._ek = None
        self._pos = None

    comp = None         # entries of a short list whose length is only known to lie between lo and len(comp)
    lo = 0

    def row(self):
        """entries of a short list of numbers"""
        if self.comp is not None:
            return self.comp
        if self.items is not None and 5 <= len(self.items) <= 12 and all(is_scalar(x) for x in self.items):
            return self.items
        return None

    def least(self):
        return self.lo if self.comp is not None else len(self.items)

    @property
    def n(self):
        return len(self.items) if self.items is not None else self._n

    def get(self, k):
        if self.hb:
            raise Undecided("indexing a heap")
        if self.comp is not None:
            return PL(items=list(self.comp)).get(k)
        if self.items is not None:
            c = conc(k)
            if c is not None and -len(self.items) <= c < len(self.items):
                return self.items[c]
            if not self.items:
                raise Undecided("element of an empty list")
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = ite(I(k) == j, self.items[j], r)
            return r
        return self._get(I(k))

    def cnt(self, *x):
        """multiplicity of x as a z3 Int"""
        if self._bag is None:
            if self.items is not None:
                items = list(self.items)
                self._bag = lambda *x: _count_items(items, x)
            else:
                Ref.eng.make_bag(self)
        return self._bag(*x)

    def has(self, *x):
        return self.cnt(*x) >= 1

    def snapshot(self):
        r = PL.__new__(PL)
        r.id = self.id
        r.items = None if self.items is None else list(self.items)
        r._n, r._get, r._bag, r.hb, r.hkind, r._ek = self._n, self._get, self._bag, self.hb, self.hkind, self._ek
        r._pos = self._pos
        r.comp, r.lo = self.comp, self.lo
        r.back = None
        r.src = self
        return r

    def force_bag(self):
        # make sure the multiset view is shared between this list and lists derived from it
        self.cnt_fn()

    def cnt_fn(self):
        if self._bag is None:
            old = self.snapshot()
            if self.items is not None:
                items = list(self.items)
                return lambda *x: _count_items(items, x)
            # lazily created, memoised on the snapshot and on self
            me = self

            def f(*x, old=old):
                if old._bag is None:
                    Ref.eng.make_bag(old)
                return old._bag(*x)
            self._bag = f
        return self._bag

    # ---- mutations
    def append(self, x):
        self.mut()
        if self.hb:
            raise Undecided("append on a heap")
        if self.items is not None and len(self.items) < 64:
            self.items.append(x)
            self._bag = None
        else:
            n, g, b = I(self.n), self.freeze(), self.cnt_fn()
            self._set(n + 1, lambda k: ite(k == n, x, g(k)), lambda *y: b(*y) + z3.If(_eqs(y, x), 1, 0))
        self.wb()

    def freeze(self):
        s = self.snapshot()
        return s.get

    def _set(self, n, get, bag):
        self.items, self._n, self._get, self._bag, self.comp = None, n, get, bag, None

    def extend(self, o):
        self.mut()
        self.outdate()
        if isinstance(o, PL) and o.items is not None and self.items is not None:
            self.items = self.items + list(o.items)
            self._bag = None
        else:
            n, g, b = I(self.n), (self.freeze() if not self.is_empty() else None), self.cnt_fn()
            m, h, c = I(o.n), o.freeze(), o.cnt_fn()
            if g is None:
                self._set(m, h, c)
            else:
                self._set(n + m, lambda k: ite(k < n, g(k), h(k - n)), lambda *y: b(*y) + c(*y))
        self.wb()

    def is_empty(self):
        return self.items is not None and not self.items

    def insert0(self, x):
        self.mut()
        self.outdate()
        if self.items is not None:
            self.items = [x] + self.items
            self._bag = None
        else:
            n, g, b = I(self.n), self.freeze(), self.cnt_fn()
            self._set(n + 1, lambda k: ite(k == 0, x, g(k - 1)), lambda *y: b(*y) + z3.If(_eqs(y, x), 1, 0))
        self.wb()

    def pop0(self):
        self.mut()
        self.outdate()
        if self.items is not None:
            x = self.items[0]
            self.items = self.items[1:]
            self._bag = None
        else:
            n, g, b = I(self.n), self.freeze(), self.cnt_fn()
            x = g(z3.IntVal(0))
            self._set(n - 1, lambda k: g(k + 1), lambda *y: b(*y) - z3.If(_eqs(y, x), 1, 0))
        self.wb()
        return x

    def pop_last(self):
        self.mut()
        self.outdate()
        if self.items is not None:
            x = self.items[-1]
            self.items = self.items[:-1]
            self._bag = None
        else:
            n, g, b = I(self.n), self.freeze(), self.cnt_fn()
            x = g(n - 1)
            self._set(n - 1, g, lambda *y: b(*y) - z3.If(_eqs(y, x), 1, 0))
        self.wb()
        return x

    def pop_at(self, i):
        c = conc(i)
        if c == 0:
            return self.pop0()
        self.mut()
        self.outdate()
        if self.items is not None and c is not None:
            x = self.items.pop(c)
            self._bag = None
        else:
            n, g, b, i = I(self.n), self.freeze(), self.cnt_fn(), I(i)
            x = g(i)
            self._set(n - 1, lambda k: ite(k < i, g(k), g(k + 1)), lambda *y: b(*y) - z3.If(_eqs(y, x), 1, 0))
        self.wb()
        return x

    def store_elem(self, i, v, by=None):
        self.mut(by)
        self.outdate(i, by)
        c = conc(i)
        if self.items is not None and c is not None:
            self.items[c] = v
            self._bag = None
        else:
            n, g, i = I(self.n), self.freeze(), I(i)
            self._set(n, lambda k: ite(k == i, v, g(k)), None)
        self.wb()


def short(comp, n, lo):
    """list of numbers with lo to len(comp) entries"""
    r = PL(n=n, get=None)
    r.comp, r.lo = list(comp), lo
    return r


def _eqs(y, x):
    f = flat(x)
    if len(f) != len(y):
        raise Undecided("multiset of mixed elements")
    return z3.And(*[_eq1(a, b) for a, b in zip(y, f)]) if len(f) > 1 else _eq1(y[0], f[0])


def _eq1(a, b):
    if a.sort() != b.sort():
        a = z3.ToReal(a) if a.sort() == IS else a
        b = z3.ToReal(b) if b.sort() == IS else b
    return a == b


def _count_items(items, x):
    r = z3.IntVal(0)
    for it in items:
        r = r + z3.If(_eqs(x, it), 1, 0)
    return z3.simplify(r) if not items else r


class Store:
    serial = 0

    def __init__(self, get):
        Ref.serial += 1
        self.sid = Ref.serial
        self.get = get
        self.frozen = None


class Mixed:
    """grid shape or flat, not known which"""
    name = "mixed"


MIXED = Mixed()


class NA(Ref):
    """numpy array: shape (tuple of dims), element type t; `grid` marks an array with the (flattened) grid shape"""

    def __init__(self, shape, get, t, grid=None):
        self._new()
        self.shape, self.t = tuple(shape), t
        self.st = get if isinstance(get, Store) else Store(get)
        self.grid = grid            # shape token shown by .shape, None = plain
        self._lst = None

    @property
    def n(self):
        return self.shape[0]

    def at(self, ix):
        return self.st.get([I(i) for i in ix])

    def get(self, k):
        if len(self.shape) == 1:
            return self.at([k])
        return NA(self.shape[1:], lambda ix: self.at([k] + list(ix)), self.t)

    def set(self, get):
        self.mut()
        self.st.get = get
        self.wb()

    def snapshot(self):
        g = self.st.get
        r = NA(self.shape, g, self.t, self.grid)
        r.src = self
        return r

    def view(self, shape=None, grid=None):
        return NA(self.shape if shape is None else shape, self.st, self.t, grid)

    def aslist(self):
        if len(self.shape) == 1:
            g = self.st.get
            p = PL(n=self.shape[0] if isinstance(self.shape[0], int) else self.shape[0], get=lambda k: g([k]))
            p._ek = self.t
            lb = getattr(self, "lbag", None)
            if lb is not None:
                p._bag = lb
            return p
        s = self.snapshot()
        return PL(n=self.shape[0], get=lambda k: s.get(k).aslist())


class PS(Ref):
    def __init__(self, has, ne=None):
        self._new()
        self._has = has
        self._ne = ne       # z3 Bool: known to be nonempty?

    def has(self, *x):
        return self._has(*x)

    def nonempty(self):
        return self._ne if self._ne is not None else z3.BoolVal(False)

    def add(self, x):
        self.mut()
        h = self._has
        self._has = lambda *y: z3.Or(h(*y), _eqs(y, x))
        self._ne = z3.BoolVal(True)
        self.wb()

    def snapshot(self):
        r = PS(self._has, self._ne)
        r.src = self
        return r


class PD(Ref):
    """dict with scalar keys: insertion-ordered key list (klen, kat, kidx) and values"""

    def __init__(self, klen, kat, kidx, get, default=None):
        self._new()
        self.klen, self.kat, self.kidx, self._get = klen, kat, kidx, get
        self.default = default
        self.kt = "i"

    def has(self, k):
        i = self.kidx(k)
        return z3.And(i >= 0, i < I(self.klen), self.kat(i) == k)

    def get(self, k):
        if self._get is None:
            raise Undecided("value of an empty dict")
        return self._get(k)

    def store_elem(self, k, v, by=None):
        self.mut(by)
        k = lift(k).e
        self.outdate(k, by)
        n, at, ix, g, old = I(self.klen), self.kat, self.kidx, self._get, self.has(k)
        if z3.is_int_value(n) and n.as_long() == 0:
            self.klen, self.kat, self.kidx = z3.IntVal(1), (lambda j: k), (lambda x: z3.If(x == k, z3.IntVal(0), z3.IntVal(-1)))
            self._get = lambda x: v
        else:
            old = z3.simplify(old)
            self.klen = z3.If(old, n, n + 1)
            self.kat = lambda j: z3.If(z3.And(z3.Not(old), j == n), k, at(j))
            self.kidx = lambda x: z3.If(z3.And(z3.Not(old), x == k), n, ix(x))
            self._get = (lambda x: ite(x == k, v, g(x))) if g is not None else (lambda x: v)
        self.wb()

    def remove(self, k):
        """drop a key that is in the dictionary"""
        self.mut()
        self.outdate(k)
        v = self.get(k)
        n, at, ix = I(self.klen), self.kat, self.kidx
        p = ix(k)
        self.klen = n - 1
        self.kat = lambda j: z3.If(j < p, at(j), at(j + 1))
        self.kidx = lambda x: z3.If(x == k, z3.IntVal(-1), z3.If(ix(x) > p, ix(x) - 1, ix(x)))
        self.wb()
        return v

    def snapshot(self):
        r = PD(self.klen, self.kat, self.kidx, self._get, self.default)
        r.kt = self.kt
        r.src = self
        return r


def empty_dict(default=None):
    return PD(z3.IntVal(0), lambda j: z3.IntVal(0), lambda x: z3.IntVal(-1), None, default)


class Obj(Ref):
    def __init__(self, cls, attrs=None):
        self._new()
        self.cls = cls
        self.attrs = dict(attrs or {})

    def snapshot(self):
        return self


class RA(Ref):
    """structured array: fields [(name, type)] with type i, r, b or o (any object); get(k) is the record as a tuple"""

    def __init__(self, fields, n, get):
        self._new()
        self.fields, self.n, self.get = list(fields), n, get

    def snapshot(self):
        r = RA(self.fields, self.n, self.get)
        r.src = self
        return r

    def col(self, name):
        names = [a for a, _ in self.fields]
        return names.index(name) if name in names else None
