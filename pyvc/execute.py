"""Statements and expressions of the Python subset."""
import ast
import copy
import z3
from .values import *
from . import values as VAL
from .engine import *
from .engine import _has_quant
from . import ops

MAX_UNROLL = 12


class Exec(Engine):
    # ------------------------------------------------------------------ calls
    def call_fn(self, fn, args, kw):
        """call a repository function: by contract when there is one (and it is not the function under proof)"""
        self.called.add(fn.qual)
        sp = self.specs.get(self.repo.anchors.back.get(fn.qual, fn.qual))
        if sp is not None:
            env = self.bind(fn, args, kw)
            return sp.apply(self, env)
        return self.inline(fn, args, kw)

    def bind(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.args]
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.node.decorator_list)
        if fn.self_ is not None and not static:
            args = [fn.self_] + list(args)
        env = {}
        kw = dict(kw)
        if len(args) > len(names) and a.vararg is None:
            raise RaiseEx("TypeError", fn.node)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        d = a.defaults
        off = len(names) - len(d)
        for i, n in enumerate(names):
            if n not in env:
                if i >= off:
                    env[n] = self.const_expr(d[i - off])
                else:
                    raise RaiseEx("TypeError", fn.node)
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.const_expr(dv)
        if a.kwarg is not None:
            env[a.kwarg.arg] = ops.KwDict(kw)
        elif kw:
            raise RaiseEx("TypeError", fn.node)
        return env

    def const_expr(self, e):
        f = Frame(None, {}, None, None)
        save = self.frame
        self.frame = f
        try:
            return self.ev(e)
        finally:
            self.frame = save

    def inline(self, fn, args, kw):
        self.depth += 1
        if self.depth > 12:
            raise Undecided(f"recursion through {fn.qual}")
        if fn.qual != self.spec.qual:
            self.inlined.add(fn.qual)
        env = self.bind(fn, args, kw)
        save = self.frame
        self.frame = Frame(fn, env, save, fn.mod)
        ll = getattr(self, "line", 0)
        try:
            self.block(fn.node.body)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.lastframe = self.frame
            self.frame = save
            self.depth -= 1
            self.line = ll
        return r

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for st in body:
            self.line = getattr(st, "lineno", 0)
            m = getattr(self, "st_" + type(st).__name__, None)
            if m is None:
                raise Undecided(f"statement {type(st).__name__}")
            m(st)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Pass(self, s):
        pass

    def st_Assert(self, s):
        if not self.branch(self.truth(self.ev(s.test))):
            raise RaiseEx("AssertionError", s)

    def st_Return(self, s):
        raise ReturnEx(None if s.value is None else self.ev(s.value))

    def st_Break(self, s):
        raise BreakEx()

    def st_Continue(self, s):
        raise ContinueEx()

    def st_Raise(self, s):
        n = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            n = e.id
        raise RaiseEx(n, s)

    def st_Import(self, s):
        for a in s.names:
            self.frame.env[(a.asname or a.name).split(".")[0]] = Mod(a.name)

    def st_ImportFrom(self, s):
        for a in s.names:
            self.frame.env[a.asname or a.name] = ops.imported(self, s.module, a.name)

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.env.pop(t.id, None)
            else:
                raise Undecided("del of an element")

    def st_Assign(self, s):
        v = self.ev(s.value)
        if isinstance(v, Opt) and self.entails(z3.Not(v.none)):
            v = v.val
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = ops.unpack(self, v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ops.setitem(self, o, self.index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if not isinstance(o, Obj):
                raise Undecided("attribute assignment on a non-object")
            self.set_attr(o, t.attr, v)
        else:
            raise Undecided("assignment target")

    def set_attr(self, o, name, v):
        o.mut()
        for L in self.loopstack:
            if id(o) in L["pre"] and (o.id, name) not in L["attrs"]:
                L["needattrs"].append((o, name))
        o.attrs[name] = v

    def st_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id)
            v = self.ev(s.value)
            if isinstance(cur, PL) and isinstance(s.op, ast.Add):
                cur.extend(ops.no_shared(self, ops.tolist(self, v)))
                return
            if isinstance(cur, PS):
                if not isinstance(s.op, ast.BitOr) or not isinstance(v, PS):
                    raise Undecided("augmented assignment of a set")
                ops.s_update(self, cur, v)
                return
            if isinstance(cur, NA):
                r = ops.binop(self, s.op, cur, v)
                if isinstance(r, NA) and len(r.shape) == len(cur.shape):
                    g = r.snapshot().st.get
                    if cur.t == "i" and r.t == "r":
                        raise RaiseEx("UFuncTypeError", s)
                    rs = r

                    def get(ix, rs=rs.snapshot()):
                        return rs.at(ix)
                    ops.broadcast_shape(self, cur.shape, r.shape)
                    cur.set(get)
                    return
                raise Undecided("augmented assignment of an array")
            self.frame.env[s.target.id] = ops.binop(self, s.op, cur, v)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value)
            ix = self.index(s.target.slice)
            cur = ops.getitem(self, o, ix)
            v = self.ev(s.value)
            if isinstance(cur, PL) and isinstance(s.op, ast.Add):
                cur.extend(ops.no_shared(self, ops.tolist(self, v)))
                return
            ops.setitem(self, o, ix, ops.binop(self, s.op, cur, v))
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            cur = ops.getattr_(self, o, s.target.attr)
            v = self.ev(s.value)
            if isinstance(cur, PL) and isinstance(s.op, ast.Add):
                cur.extend(ops.no_shared(self, ops.tolist(self, v)))
                return
            self.set_attr(o, s.target.attr, ops.binop(self, s.op, cur, v))
        else:
            raise Undecided("augmented assignment target")

    def st_If(self, s):
        if self.branch(self.truth_ast(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def truth_ast(self, e):
        """condition with short circuit, decided on this path"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            for i, x in enumerate(e.values):
                c = self.truth_ast(x)
                if i == len(e.values) - 1:
                    return c
                b = self.branch(c)
                if isand and not b:
                    return False
                if not isand and b:
                    return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.truth_ast(e.operand)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        return self.truth(self.ev(e))

    def truth(self, v):
        return ops.truth(self, v)

    # ------------------------------------------------------------------ loops
    def st_While(self, s):
        self.loop(s, None)

    def loop_contract(self, s):
        fr = self.frame
        lid = fr.loops.get(id(s), "?")
        at = self.anchored(fr)[0]
        if lid in at:
            lid = at[lid][1]
        elif any(l == lid for _, l in at.values()):     # a new loop in the place of one that moved
            lid = "new" + lid
        return lid, self.spec.loop(self, fr, lid)

    def st_For(self, s):
        lid, ls = self.loop_contract(s)
        if getattr(ls, "cut", None) is not None:
            self.cut(ls, State(self, self.frame, None, None, lid))
        if ls is None and self.collects(s):
            return
        it = ops.iterate(self, self.ev(s.iter))
        self.loop(s, it)

    def collects(self, s):
        """a loop that only appends to an empty list is the comprehension it spells out"""
        c = as_comprehension(s)
        if c is None:
            return False
        name, comp, names = c
        l = self.frame.env.get(name)
        if not isinstance(l, PL) or l.items is None or l.items:
            return False
        r = self.ev(comp)
        l.extend(r)
        for n in names:
            self.frame.env[n] = DEAD
        return True

    def loop(self, s, it):
        fr = self.frame
        lid, ls = self.loop_contract(s)
        # concrete iteration: unroll
        if it is not None and ls is None:
            n = conc(it.n()) if not isinstance(it.n(), int) else it.n()
            if n is not None and n <= MAX_UNROLL:
                k = 0
                broke = False
                while True:
                    n = conc(it.n()) if not isinstance(it.n(), int) else it.n()
                    if n is None:
                        raise Undecided("iterated list changes length")
                    if k >= n:
                        break
                    self.assign(s.target, self.take(it, k))
                    k += 1
                    try:
                        self.block(s.body)
                    except BreakEx:
                        broke = True
                        break
                    except ContinueEx:
                        continue
                if not broke:
                    self.block(s.orelse)
                return
            if n is None and self.proves(I(it.n()) <= 1):
                m = I(it.n())
                if self.branch(m >= 1):
                    self.assign(s.target, self.take(it, 0))
                    try:
                        self.block(s.body)
                    except BreakEx:
                        return
                    except ContinueEx:
                        pass
                    self.check("the list the loop runs through does not grow", I(it.n()) <= 1, "inv-step")
                self.block(s.orelse)
                return
        if ls is None:
            ls = ops.NoInv()
        kname = "$k" + lid
        key = (tuple(self.trace), id(s))
        info = self.loopinfo.setdefault(key, LoopInfo())
        # which names and objects the body may change
        names, muts = body_writes(s)
        aug = {n for n in augmented(s) if isinstance(fr.env.get(n), (PL, PS, NA))}
        names = [n for n in names if n not in aug]      # changed in place
        pre_objs = reachable(self, fr)
        for n in names:
            info.names.setdefault(n, None)
        for expr in muts:
            o = self.try_ev(expr)
            if isinstance(o, Ref):
                i = o.st if isinstance(o, NA) else o
                info.objs.setdefault(_oid(o), None)
        if it is not None:
            fr.env[kname] = z3.IntVal(0)
        # ghosts owned by this loop
        ls.ghost_init(self, State(self, fr, z3.IntVal(0), it, lid))
        # --- entry
        S = State(self, fr, z3.IntVal(0) if it is not None else None, it, lid)
        for lab, f in ls.inv(S):
            self.check(f"loop {lid} invariant holds on entry: {lab}", f, "inv-entry")
        # --- arbitrary iteration
        entry_env = dict(fr.env)
        hav_names = [n for n in info.names if n in fr.env and fr.env[n] is not DEAD]
        newenv = {}
        for n in list(info.names):
            v = fr.env.get(n, DEAD)
            if info.names[n] == "dead" or v is DEAD:
                k = info.names[n]
                newenv[n] = self.fresh(k, n) if k is not None and k[0] == "late" else DEAD
                continue
            k0 = kind_of(v)
            hint = self.spec.hint(self, fr, n)
            try:
                if hint is not None:
                    k0 = join(k0, hint)
                k = k0 if info.names[n] is None else join(info.names[n], k0)
            except Undecided:
                k = "dead"          # another kind of value in every iteration: it has no value until it is set again
            info.names[n] = k
            if k == "dead":
                newenv[n] = DEAD
                continue
            if isinstance(k, tuple) and k[0] in ("obj", "other"):
                raise Undecided(f"object variable {n} is reassigned in a loop")
            newenv[n] = self.fresh(k, n)
            if isinstance(newenv[n], Ref):
                newenv[n].tag = n
        fr.env.update(newenv)
        for o in pre_objs:
            oid = _oid(o)
            if oid in info.objs:
                if isinstance(o, Obj):
                    continue
                k0 = kind_of(o)
                hint = self.spec.hint(self, fr, o.tag or name_of(fr, o))
                if hint is not None:
                    k0 = join(k0, hint)
                info.objs[oid] = join(info.objs[oid], k0)
                self.havoc_ref(o, info.objs[oid], o.tag or name_of(fr, o) or "obj")
                if o.back is not None and not o.stale and _oid(o.back[0]) not in info.objs:
                    o.wb()      # the container holds whatever the element has become
                i = o.st if isinstance(o, NA) else o
                for L in self.loopstack:
                    L["muts"][id(i)] = (o, i)
        for o in pre_objs:
            if isinstance(o, Obj):
                for (i, a) in [k for k in info.attrs if k[0] == o.id]:
                    v = o.attrs.get(a, DEAD)
                    if v is DEAD or info.attrs[(i, a)] == "dead":
                        info.attrs[(i, a)] = "dead"         # it has no value until it is set again
                        o.attrs[a] = DEAD
                        continue
                    k = info.attrs[(i, a)] = join(info.attrs[(i, a)], kind_of(v))
                    if isinstance(k, tuple) and k[0] in ("obj", "other"):
                        raise Undecided(f"object attribute {a} is reassigned in a loop")
                    o.attrs[a] = self.fresh(k, a)
                    if isinstance(o.attrs[a], Ref):
                        o.attrs[a].tag = a
        ls.ghost_havoc(self)
        kv = None
        if it is not None:
            kv = self.int("k" + lid.replace(".", "_"))
            fr.env[kname] = kv
            self.assume(kv >= 0)
        S = State(self, fr, kv, it, lid)
        if it is not None:
            self.assume(kv <= I(it.n()) if not it.grows else z3.BoolVal(True))
        for lab, f in ls.inv(S):
            self.assume(f)
        mode = self.decide(2)
        if mode == 0:
            if it is not None:
                if conc(it.n()) == 0:
                    raise PathEnd()
                self.assume(kv < I(it.n()))
                cur = self.take(it, kv)
                self.assign(s.target, cur)
            else:
                if not self.branch(self.truth_ast(s.test)):
                    raise PathEnd()
            pre = ls.ghost_pre(self, S)
            var0 = ls.variant(State(self, fr, kv, it, lid))
            L = dict(at=key[0], frame=fr, env0=dict(fr.env), attrs0={(o.id, a): v for o in pre_objs if isinstance(o, Obj) for a, v in o.attrs.items()}, mark=len(self.hyps), muts={}, attrs=set(info.attrs), needattrs=[], havocked={id(o.st if isinstance(o, NA) else o) for o in pre_objs if _oid(o) in info.objs},
                     pre={id(o.st if isinstance(o, NA) else o): o for o in pre_objs}, need=[])
            self.loopstack.append(L)
            exitk = None
            try:
                self.block(s.body)
            except ContinueEx:
                pass
            except BreakEx:
                exitk = "break"
            except ReturnEx:
                self.end_body(s, L, info, fr, strict=False)
                self.loopstack.pop()
                if fr.fn.qual not in self.repo.anchors.base and fr.fn.qual not in self.repo.anchors.back:
                    # a loop that was moved into a helper leaves by return where it left by break
                    ls.ghost_step(self, State(self, fr, kv, it, lid), pre)
                    ls.on_break(self, State(self, fr, kv, it, lid))
                raise
            except (RaiseEx, PathEnd):
                self.end_body(s, L, info, fr, strict=False)
                self.loopstack.pop()
                raise
            self.end_body(s, L, info, fr, strict=exitk is None)
            self.loopstack.pop()
            if exitk == "break":
                ls.ghost_step(self, State(self, fr, kv, it, lid), pre)
                ls.on_break(self, State(self, fr, kv, it, lid))
                return
            if it is not None:
                fr.env[kname] = kv + 1
                if isinstance(it.src, PL) and id(it.src) in L["muts"]:
                    self.check(f"loop {lid}: the list it runs through does not become shorter than the part done", kv + 1 <= I(it.n()), "inv-step")
            S2 = State(self, fr, None if kv is None else kv + 1, it, lid)
            ls.ghost_step(self, S2, pre)
            for lab, f in ls.inv(S2):
                self.check(f"loop {lid} invariant is preserved: {lab}", f, "inv-step")
            if var0 is not None:
                self.check(f"loop {lid} terminates: the variant decreases", lex_less(ls.variant(S2), var0), "variant")
            raise PathEnd()
        # --- after the loop
        if it is not None:
            self.assume(kv >= I(it.n()))
        else:
            if self.branch(self.truth_ast(s.test)):
                raise PathEnd()
        ls.on_exit(self, S)
        self.block(s.orelse)

    def cut(self, ls, S):
        """paths that reach this place in the body of a loop are joined: each proves what is needed, one goes on from that alone"""
        fr = S.frame
        if not self.loopstack or self.loopstack[-1]["frame"] is not fr:
            return
        L = self.loopstack[-1]
        facts = ls.cut(S)
        for lab, f in facts:
            self.check(f"before loop {S.lid}: {lab}", f, "cut")
        keep = {self.anchored(fr)[1].get(n, n): n for n in ls.keep}
        new = [n for n, v in fr.env.items() if L["env0"].get(n, DEAD) is not v]
        same = {n: fr.env[n] if isinstance(fr.env[n], (bool, int, str)) or fr.env[n] is None else kind_of(fr.env[n])[:4] for n in new if n in keep}
        attrs = {}
        for o in L["pre"].values():
            if isinstance(o, Obj):
                for (i, a) in L["attrs"]:
                    if i == o.id and o.attrs.get(a) is not L["attrs0"].get((i, a)):
                        v = o.attrs[a]
                        if not (isinstance(v, PD) and v._get is None):
                            raise Undecided(f"attribute {a} is changed before a join of paths")
                        attrs[(i, a)] = "empty"
        k = (L["at"], S.lid)
        t, sm = self.cuts.setdefault(k, (tuple(self.trace), (same, attrs)))
        if repr(sm) != repr((same, attrs)):
            raise Undecided("paths that are joined differ")
        if t != tuple(self.trace):
            raise PathEnd()
        here = len(self.hyps)           # facts about the new values
        for n in new:
            v = fr.env[n]
            if n not in keep:
                fr.env[n] = DEAD
            elif not (isinstance(v, (bool, int, str)) or v is None):
                fr.env[n] = self.fresh(join(kind_of(v), ("na", v.t, len(v.shape), False, (None,) * len(v.shape), v.grid)) if isinstance(v, NA) else kind_of(v), n)
        for i, (o, st) in list(L["muts"].items()):
            if i in L["pre"]:
                if isinstance(o, Obj):
                    continue
                self.havoc_ref(o, kind_of(o), o.tag or name_of(fr, o) or "obj")
        self.hyps = self.hyps[:L["mark"]] + self.hyps[here:]
        self.qf = z3.Solver()
        self.qf.set("timeout", 60)
        for h in self.hyps:
            if not _has_quant(h):
                self.qf.add(h)
        for _, f in ls.cut(S):
            self.assume(f)

    taking = False

    def take(self, it, k):
        """the element a loop hands to its body"""
        self.taking = True
        try:
            return it.item(k)
        finally:
            self.taking = False

    def end_body(self, s, L, info, fr, strict):
        if L["need"]:
            for o in L["need"]:
                info.objs.setdefault(_oid(o), None)
            raise Restart(L["at"])
        if L["needattrs"]:
            for o, a in L["needattrs"]:
                info.attrs.setdefault((o.id, a), None)
            raise Restart(L["at"])
        if not strict:
            return
        self.no_sharing(fr, info, L)
        for (i, a), k0 in list(info.attrs.items()):
            if k0 == "dead":
                continue
            o = next(o for o in L["pre"].values() if isinstance(o, Obj) and o.id == i)
            k = kind_of(o.attrs[a])
            if not leq(k, k0):
                info.attrs[(i, a)] = join(k0, k)
                raise Restart(L["at"])
        for n in info.names:
            v = fr.env.get(n, DEAD)
            if v is not DEAD and info.names[n] is None and self.spec.is_late(self, fr, n):
                k = kind_of(v)
                info.names[n] = k if k[0] == "late" else ("late", k)
                raise Restart(L["at"])
            if v is DEAD or info.names[n] in (None, "dead"):
                continue
            k = kind_of(v)
            if not leq(k, info.names[n]):
                try:
                    info.names[n] = join(info.names[n], k)
                except Undecided:
                    info.names[n] = "dead"
                raise Restart(L["at"])
        for _, (ref, st) in L["muts"].items():
            o = _oid(ref)
            if o in info.objs and info.objs[o] is not None and not isinstance(ref, Obj):
                k = kind_of(ref)
                if not leq(k, info.objs[o]):
                    info.objs[o] = join(info.objs[o], k)
                    raise Restart(L["at"])

    def no_sharing(self, fr, info, L):
        """the arbitrary state at the loop head gives every reassigned slot an object of its own: no two of them may share one"""
        held = {}
        for n, v in fr.env.items():
            if isinstance(v, Ref) and not isinstance(v, Obj):
                held.setdefault(_oid(v), []).append(("name", n, n in info.names and info.names[n] is not None))
        for o in L["pre"].values():
            if isinstance(o, Obj):
                for a, v in o.attrs.items():
                    if isinstance(v, Ref) and not isinstance(v, Obj):
                        held.setdefault(_oid(v), []).append(("attribute", a, (o.id, a) in info.attrs))
        for slots in held.values():
            if len(slots) > 1 and any(c for _, _, c in slots):
                live = [x for x in slots if x[0] == "attribute" or x[2] or x[1] not in info.names]
                if len(live) > 1:
                    raise Undecided("two variables share an object at the end of a loop: " + ", ".join(x[1] for x in live))

    def havoc_ref(self, o, kind, name):
        o.outdate()
        if isinstance(o, NA):
            nv = self.fresh(("na", o.t, len(o.shape), kind[3], o.shape, o.grid), name)
            o.st.get = nv.st.get
        elif isinstance(o, PL):
            if kind == ("list", None):
                return
            if kind[0] == "heap":
                self.havoc_heap(o, kind[1], name)
            else:
                nv = self.fresh(kind, name)
                o.items, o._n, o._get, o._bag, o._ek, o.hb = None, nv._n, nv._get, nv._bag, nv._ek, False
                o._pos = nv._pos
        elif isinstance(o, PS):
            nv = self.fresh(kind, name)
            o._has, o._ne = nv._has, nv._ne
        elif isinstance(o, PD):
            if kind[1] is None:
                return
            nv = self.fresh_dict(kind[1], name, o.default)
            o.klen, o.kat, o.kidx, o._get = nv.klen, nv.kat, nv.kidx, nv._get
            if len(kind) > 3:
                o.kt = kind[3]
        else:
            raise Undecided(f"havoc of {type(o).__name__}")

    def try_ev(self, e):
        """object denoted by a plain path expression, if it exists already"""
        try:
            if isinstance(e, ast.Name):
                return self.frame.env.get(e.id)
            if isinstance(e, ast.Attribute):
                o = self.try_ev(e.value)
                if isinstance(o, Obj):
                    return o.attrs.get(e.attr)
        except Exception:
            pass
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        return m(e)

    def name(self, n):
        f = self.frame
        if n in f.env:
            v = f.env[n]
            if v is DEAD:
                raise Undecided(f"variable {n} may be unset here")
            if isinstance(v, Late):
                self.check(f"variable {n} is set", v.set, "unset")
                self.assume(v.set)
                v = f.env[n] = v.val
            if isinstance(v, Opt) and not self.bound and self.never(v.none):
                return v.val
            if isinstance(v, Ref) and v.stale:
                raise Undecided(f"{n} was an element of a container that has changed since")
            return v
        return ops.global_name(self, f.mod, n)

    def ex_Name(self, e):
        return self.name(e.id)

    def ex_Constant(self, e):
        return e.value

    def ex_Tuple(self, e):
        return tuple(self.ev(x) for x in e.elts)

    def ex_List(self, e):
        return PL(items=[ops.own(self, self.ev(x)) for x in e.elts])

    def ex_Set(self, e):
        s = PS(lambda x: z3.BoolVal(False), z3.BoolVal(False))
        for x in e.elts:
            s.add(self.ev(x))
        return s

    def ex_Dict(self, e):
        ks = [self.ev(k) for k in e.keys]
        vs = [self.ev(v) for v in e.values]
        if all(isinstance(k, str) for k in ks):
            d = ops.KwDict(dict(zip(ks, vs)))
            if ks:
                return d
        if not ks:
            return empty_dict()
        d = empty_dict()
        for k, v in zip(ks, vs):
            d.store_elem(k, ops.own(self, v))
        return d

    def ex_JoinedStr(self, e):
        return "<text>"

    def ex_Attribute(self, e):
        return ops.getattr_(self, self.ev(e.value), e.attr)

    def ex_Subscript(self, e):
        return ops.getitem(self, self.ev(e.value), self.index(e.slice))

    def index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x) for x in s.elts)
        return self.ev(s)

    def ex_Starred(self, e):
        raise Undecided("starred expression")

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        return ops.unop(self, e.op, v)

    def ex_BinOp(self, e):
        return ops.binop(self, e.op, self.ev(e.left), self.ev(e.right))

    def ex_BoolOp(self, e):
        if self.bound:
            vs = [self.truth(self.ev(x)) for x in e.values]
            vs = [B(v) for v in vs]
            return V("b", (z3.And if isinstance(e.op, ast.And) else z3.Or)(*vs))
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            b = self.branch(self.truth(v))
            if isinstance(e.op, ast.And) and not b:
                return v
            if isinstance(e.op, ast.Or) and b:
                return v

    def ex_Compare(self, e):
        l = self.ev(e.left)
        r = None
        for op, x in zip(e.ops, e.comparators):
            y = self.ev(x)
            c = ops.compare(self, op, l, y)
            if r is None:
                r = c
            else:
                r = norm(V("b", z3.And(B(ops.truth(self, r)), B(ops.truth(self, c)))))
            l = y
        return r

    def ex_IfExp(self, e):
        c = self.truth_ast(e.test) if not self.bound else self.truth(self.ev(e.test))
        if isinstance(c, bool):
            return self.ev(e.body) if c else self.ev(e.orelse)
        c = z3.simplify(c)
        if self.bound:
            g = self.guards
            self.guards = g + [c]
            a = self.ev(e.body)
            self.guards = g + [z3.Not(c)]
            b = self.ev(e.orelse)
            self.guards = g
            return ite(c, a, b)
        if self.branch(c):
            return self.ev(e.body)
        return self.ev(e.orelse)

    def ex_Lambda(self, e):
        fr = self.frame
        names = [a.arg for a in e.args.args]

        def f(E, *args):
            env = dict(fr.env)
            env.update(zip(names, args))
            save = self.frame
            self.frame = Frame(None, env, fr, fr.mod)
            try:
                return self.ev(e.body)
            finally:
                self.frame = save
        return Builtin(f, "lambda")

    def comp_env(self, gens):
        if len(gens) != 1:
            raise Undecided("nested comprehension")

    def comprehension(self, e, elt, mk):
        if len(e.generators) != 1:
            raise Undecided("comprehension with several generators")
        g = e.generators[0]
        it = ops.iterate(self, self.ev(g.iter))
        n = it.n()
        cn = n if isinstance(n, int) else conc(n)
        save = dict(self.frame.env)
        try:
            if cn is not None and cn <= MAX_UNROLL and it.concrete():
                out = []
                for k in range(cn):
                    self.assign(g.target, it.item(k))
                    ok = True
                    for c in g.ifs:
                        cc = self.truth(self.ev(c))
                        if self.bound and not isinstance(cc, bool):
                            raise Undecided("filter inside a comprehension")
                        if not self.branch(cc):
                            ok = False
                            break
                    if ok:
                        out.append(self.evelt(elt))
                return mk(PL(items=out))
            n = I(n)
            # under an arbitrary index
            j = z3.FreshConst(IS, "q")
            self.bound.append(j)
            self.guards.append(z3.And(j >= 0, j < n))
            try:
                self.assign(g.target, it.item(j))
                conds = []
                for c in g.ifs:
                    cc = B(self.truth(self.ev(c)))
                    conds.append(cc)
                    self.guards.append(cc)
                val = self.evelt(elt)
                if isinstance(val, Opt) and conds and self.entails(z3.Not(val.none)):
                    val = val.val
                for _ in conds:
                    self.guards.pop()
            finally:
                self.bound.pop()
                self.guards = self.guards[:len(self.bound)] if False else self.guards[:-1]
            f = lambda k: subst_deep(val, [(j, I(k))])
            if not g.ifs:
                r = PL(n=n, get=f)
                return mk(r)
            cond = z3.And(*conds) if len(conds) > 1 else conds[0]
            sel = ops.select(self, n, lambda k: z3.substitute(cond, (j, I(k))), "filter")
            r = PL(n=sel.n, get=lambda k: f(I(sel.get(k))))
            r.origin = sel
            return mk(r)
        finally:
            keep = self.frame.env
            for k in list(keep):
                if k not in save:
                    del keep[k]
            keep.update(save)

    def evelt(self, elt):
        if isinstance(elt, tuple):
            return tuple(ops.own(self, self.ev(x)) for x in elt)
        return ops.own(self, self.ev(elt))

    def ex_ListComp(self, e):
        return self.comprehension(e, e.elt, lambda p: p)

    ex_GeneratorExp = ex_ListComp

    def ex_DictComp(self, e):
        def mk(p):
            if p.items is not None:
                if all(isinstance(x[0], str) for x in p.items):
                    return ops.KwDict(dict(p.items))
                d = empty_dict()
                for k, v in p.items:
                    d.store_elem(k, v)
                return d
            return ops.dict_from_pairs(self, p)
        return self.comprehension(e, (e.key, e.value), mk)

    def ex_Call(self, e):
        return ops.call(self, e)


def lex_less(new, old):
    """lexicographic order on tuples of integers, each bounded below by 0"""
    r = z3.BoolVal(False)
    for a, b in reversed(list(zip(new, old))):
        r = z3.Or(z3.And(b >= 0, a < b), z3.And(a == b, r))
    return r


def _oid(o):
    return ("s", o.st.sid) if isinstance(o, NA) else ("o", o.id)


def name_of(fr, o):
    for n, v in fr.env.items():
        if v is o:
            return n
    return None


def body_writes(s):
    """names assigned and path expressions mutated in a loop"""
    names, muts = [], []

    def tgt(t):
        if isinstance(t, ast.Name):
            names.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Subscript):
            v = t.value
            while isinstance(v, ast.Subscript):
                v = v.value
            muts.append(v)
        elif isinstance(t, ast.Attribute):
            muts.append(t)
            muts.append(t.value)

    if isinstance(s, ast.For):
        tgt(s.target)
    for st in s.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    tgt(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tgt(x.target)
                if isinstance(x.target, ast.Name):
                    muts.append(x.target)
            elif isinstance(x, ast.For):
                tgt(x.target)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                    "append", "pop", "insert", "extend", "add", "remove", "update", "popleft", "appendleft", "clear", "reverse", "sort"):
                v = x.func.value
                while isinstance(v, ast.Subscript):
                    v = v.value
                muts.append(v)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("heappush", "heappop") and x.args:
                muts.append(x.args[0])
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("heappush", "heappop") and x.args:
                muts.append(x.args[0])
    seen, out = set(), []
    for n in names:
        if n not in seen:
            seen.add(n)
            out.append(n)
    return out, muts


MUTATORS = {"append", "pop", "insert", "extend", "add", "remove", "update", "popleft", "appendleft", "clear", "reverse", "sort", "setdefault",
            "heappush", "heappop", "next"}


def as_comprehension(s):
    """for t in it: [x = e ...] [if c:] l.append(e)  as  (l, [e for t in it if c], names bound)"""
    if not isinstance(s, ast.For) or s.orelse:
        return None
    tg = [x for x in ast.walk(s.target) if isinstance(x, ast.expr)]
    if not all(isinstance(x, (ast.Name, ast.Tuple)) for x in tg):
        return None
    names = [x.id for x in tg if isinstance(x, ast.Name)]
    temps = {}
    sub = lambda e: Sub(temps).visit(copy.deepcopy(e))
    ifs, body = [], list(s.body)
    while body:
        st = body.pop(0)
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id not in names:
            if ifs or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for x in ast.walk(st.value)):
                return None
            temps[st.targets[0].id] = sub(st.value)
        elif isinstance(st, ast.If) and not st.orelse and not body:
            ifs.append(sub(st.test))
            body = list(st.body)
        elif isinstance(st, ast.Expr) and not body:
            c = st.value
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name)
                    and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred)):
                return None
            name, elt = c.func.value.id, sub(c.args[0])
            used = [elt, s.iter] + ifs
            for u in used + list(temps.values()):
                for x in ast.walk(u):
                    if isinstance(x, ast.Name) and x.id == name or isinstance(x, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Yield, ast.Await)):
                        return None
                    if isinstance(x, ast.Call):
                        f = x.func
                        if (f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")) in MUTATORS:
                            return None
            if name in names or name in temps:
                return None
            comp = ast.ListComp(elt=elt, generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=ifs, is_async=0)])
            ast.copy_location(comp, s)
            ast.fix_missing_locations(comp)
            return name, comp, names + list(temps)
        else:
            return None
    return None


class Sub(ast.NodeTransformer):
    def __init__(self, d):
        self.d = d

    def visit_Name(self, x):
        return copy.deepcopy(self.d[x.id]) if isinstance(x.ctx, ast.Load) and x.id in self.d else x


def augmented(s):
    """names that the loop only changes by augmented assignment"""
    a, b = set(), set()
    for st in ([s.target] if isinstance(s, ast.For) else []) + s.body:
        for x in ast.walk(st):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                a.add(id(x.target))
    for st in ([s.target] if isinstance(s, ast.For) else []) + s.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b.add((x.id, id(x) in a))
    return {n for n, k in b if k} - {n for n, k in b if not k}


def reachable(E, fr):
    """mutable objects that exist before a loop, in a deterministic order"""
    out, seen = [], set()

    def add(v, d=0):
        if isinstance(v, Ref):
            k = _oid(v)
            if k in seen:
                return
            seen.add(k)
            out.append(v)
            if isinstance(v, Obj) and d < 3:
                for a in v.attrs.values():
                    add(a, d + 1)
        elif isinstance(v, (tuple, list)):
            for x in v:
                add(x, d + 1)
    f = fr
    while f is not None:
        for v in f.env.values():
            add(v)
        f = f.parent
    return out
