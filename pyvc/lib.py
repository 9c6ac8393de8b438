"""Models of the built-in functions and methods that the verified code uses (mixin of engine.Engine).

Strings are an uninterpreted sort: an operation on a non-literal string is an uninterpreted function of its arguments, so a
contract can only relate strings that are built the same way.
"""
import ast
import re
import z3
from .src import Unsupported, ClassInfo, FuncInfo, Module
from .vals import *
from .stmts import nat
from .engine import Exit, St, Fact, Frame, Closure, Ext, ExcVal, LocalObj, Cell, Method, Match, DcField, Bound, forall, mentions, auto_patterns

from .build import Attribs, Elem


class Lib:
    needles = None

    # ---------------------------------------------------------------- functions
    def call_ext(self, st, name, args, kw, node, fid):
        short = name.split(".")[-1]
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is not None:
            return m(st, args, kw, node)
        if name in ("typing.cast", "cast"):
            return args[1]
        if self.is_exc(name):
            return Py(ExcVal(name))
        raise Unsupported(f"call of {name}")

    def x_len(self, st, args, kw, node):
        v = self.some(st, self.deref(st, args[0]), exc="TypeError")
        if v is None:
            return None
        if isinstance(v, Lst):
            return Sc(INT, v.n)
        if isinstance(v, Tup):
            return I(len(v.items))
        if isinstance(v, Sc) and v.ty == STR:
            if v.lit is not None:
                return I(len(v.lit))
            t = z3.Function("str.len", StrS, IntS)(v.t)
            self.axiom_once("strlen", lambda: self.q1(StrS, lambda s: z3.And(z3.Function("str.len", StrS, IntS)(s) >= 0, (z3.Function("str.len", StrS, IntS)(s) == 0) == (s == self.lit("").t)), lambda s: z3.Function("str.len", StrS, IntS)(s)))
            return Sc(INT, t)
        if isinstance(v, MapV):
            return Sc(INT, self.keys_list(v).n)
        if isinstance(v, Py) and isinstance(v.o, Elem):
            return self.elem_method(st, v, "__len__", [], {})
        raise Unsupported(f"len of {v!r}")

    def axiom_once(self, key, f):
        if key in self.typed:
            return
        self.typed.add(key)
        self.axioms.append(f())

    def q1(self, sort, body, pat):
        x = z3.Const("x", sort)
        return Fact(body(x), [x], [], [pat(x)])

    def x_range(self, st, args, kw, node):
        vs = []
        for a in args:
            a = self.some(st, a, exc="TypeError")
            if a is None:
                return None
            vs.append(self.int_of(a))
        lo, hi = (z3.IntVal(0), vs[0]) if len(vs) == 1 else (vs[0], vs[1])
        if len(vs) == 3 and not (z3.is_int_value(vs[2]) and vs[2].as_long() == 1):
            raise Unsupported("range with a step")
        if z3.is_int_value(lo) and z3.is_int_value(hi):
            a, b = lo.as_long(), hi.as_long()
            if b - a <= 64:
                return mklist([I(i) for i in range(a, b)], INT)
        n = z3.simplify(hi - lo)
        n = n if st.knows(hi > lo) else nat(n)
        l = Lst(INT, n, lambda j: Sc(INT, z3.simplify(lo + j)))
        l.rng = (lo, hi)
        return l

    def x_enumerate(self, st, args, kw, node):
        l = self.iterable(st, args[0])
        s = kw.get("start", args[1] if len(args) > 1 else I(0))
        s = self.int_of(s)
        if l.items is not None:
            return mklist([Tup([Sc(INT, z3.simplify(s + i)), x]) for i, x in enumerate(l.items)]) if l.items else mklist([])
        return Lst(TUP([INT, l.ety]), l.n, lambda j: Tup([Sc(INT, z3.simplify(s + j)), l.get(j)]))

    def x_zip(self, st, args, kw, node):
        ls = [self.iterable(st, a) for a in args]
        if all(l.items is not None for l in ls):
            return self.hetero([Tup(t) for t in zip(*[l.items for l in ls])])
        n = ls[0].n
        for l in ls[1:]:
            n = If(Eq(n, l.n), n, If(n < l.n, n, l.n))
        return Lst(TUP([l.ety for l in ls]), n, lambda j: Tup([l.get(j) for l in ls]))

    def x_itertools_pairwise(self, st, args, kw, node):
        l = self.iterable(st, args[0])
        if l.items is not None:
            return self.hetero([Tup(t) for t in zip(l.items, l.items[1:])])
        n = If(l.n > 0, l.n - 1, z3.IntVal(0))
        return Lst(TUP([l.ety, l.ety]), n, lambda j: Tup([l.get(j), l.get(j + 1)]))

    def x_divmod(self, st, args, kw, node):
        q = self.binop(st, ast.FloorDiv(), args[0], args[1])
        if st.dead:
            return None
        return Tup([q, self.binop(st, ast.Mod(), args[0], args[1])])

    def x_reversed(self, st, args, kw, node):
        l = self.iterable(st, args[0])
        if l.items is not None:
            return mklist(list(reversed(l.items)), l.ety)
        return Lst(l.ety, l.n, lambda j: l.get(l.n - 1 - j))

    def x_list(self, st, args, kw, node):
        if not args:
            return self.new_cell(st, mklist([]))
        l = self.iterable(st, args[0])
        return self.new_cell(st, Lst(l.ety, l.n, l.get, items=l.items))

    def x_tuple(self, st, args, kw, node):
        if not args:
            return Tup([])
        l = self.iterable(st, args[0])
        return Tup(l.items) if l.items is not None else Lst(l.ety, l.n, l.get)

    def x_iter(self, st, args, kw, node):
        return self.iterable(st, args[0])

    def x_set(self, st, args, kw, node):
        if not args:
            return self.new_cell(st, empty_map("set"))
        v = self.deref(st, args[0])
        if isinstance(v, Lst) and getattr(v, "rng", None):
            lo, hi = v.rng
            return self.new_cell(st, MapV("set", INT, None, lambda x: And(lo <= toint(x), toint(x) < hi), poison_get("set")))
        if isinstance(v, MapV):
            return self.new_cell(st, self.to_set(v))
        return self.new_cell(st, self.to_set(self.iterable(st, v)))

    x_frozenset = x_set

    def x_dict(self, st, args, kw, node):
        if not args and not kw:
            return self.new_cell(st, empty_map("dict"))
        if not args:
            return Py(dict(kw))
        raise Unsupported("dict(...)")

    def x_collections_defaultdict(self, st, args, kw, node):
        raise Unsupported("defaultdict")

    def x_isinstance(self, st, args, kw, node):
        return B(self.isinst(st, args[0], args[1]))

    def isinst(self, st, v, c):
        v = self.deref(st, self.defined(v))
        if isinstance(c, (Tup, Lst)):
            return Or(*[self.isinst(st, v, x) for x in c.items])
        if isinstance(c, NoneT):
            return as_opt(v)[0]
        if isinstance(v, NoneT):
            return F
        if isinstance(v, Opt):
            return And(Not(v.n), self.isinst(st, v.v, c))
        o = c.o if isinstance(c, Py) else None
        if isinstance(o, ClassInfo):
            if isinstance(v, Ref):
                v = self.narrow(st, v)
                sub_ = self.prog.subclasses(o.name) & v.ty[1]
                if not sub_:
                    return F
                if sub_ == v.ty[1]:
                    return T
                return self.is_cls(v.t, sub_)
            if isinstance(v, Sc):
                return T if v.ty == ENUM(o.name) else F
            if isinstance(v, Py) and isinstance(v.o, LocalObj):
                return T if o in v.o.cls.mro else F
            return F
        if isinstance(o, Ext):
            t = {"int": (INT, BOOL), "bool": (BOOL,), "str": (STR,)}.get(o.name)
            if t is not None:
                if isinstance(v, Sc) and v.ty != OPQ:
                    return T if v.ty in t else F
                if isinstance(v, (Ref, Lst, Tup, MapV)):
                    return F
            if o.name in ("list", "dict", "set", "tuple") and not (isinstance(v, Sc) and v.ty == OPQ):
                k = {Lst: "list", Tup: "tuple"}.get(type(v)) or (v.kind if isinstance(v, MapV) else "")
                return T if k == o.name else F
        raise Unsupported(f"isinstance({v!r}, {c!r})")

    def x_getattr(self, st, args, kw, node):
        n = args[1]
        if isinstance(n, Sc) and n.lit is None and n.ty == STR:
            cases = self.lit_cases(n.t)
            if cases is not None and len(args) > 2:
                out = None
                for c, l in reversed(cases):
                    v = self.getattr(st, args[0], l, node, args[2])
                    out = v if out is None else merge(c, v, out)
                return out
        if not (isinstance(n, Sc) and n.lit is not None):
            raise Unsupported("getattr with a computed name")
        return self.getattr(st, args[0], n.lit, node, args[2] if len(args) > 2 else None)

    def lit_cases(self, t):
        """[(condition, literal)] when t is an if-then-else over literals"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.lit_cases(t.arg(1)), self.lit_cases(t.arg(2))
            if a is None or b is None:
                return None
            return [(And(t.arg(0), c), l) for c, l in a] + [(And(Not(t.arg(0)), c), l) for c, l in b]
        for l, c in self.lits.items():
            if c.eq(t):
                return [(T, l)]
        return None

    def x_hasattr(self, st, args, kw, node):
        n = args[1].lit
        v = self.deref(st, args[0])
        if n is None or not isinstance(v, Ref):
            raise Unsupported("hasattr")
        v = self.narrow(st, v)
        groups, missing = self.attr_groups(v, n)
        if not missing:
            return B(True)
        has = [c for c in v.ty[1] if c not in missing or self.prog.find_method(self.prog.classes[c], n)]
        return B(self.is_cls(v.t, has)) if has else B(False)

    def x_setattr(self, st, args, kw, node):
        if not (isinstance(args[1], Sc) and args[1].lit is not None):
            raise Unsupported("setattr with a computed name")
        self.store_attr(st, args[0], args[1].lit, args[2])
        return NoneV

    def x_type(self, st, args, kw, node):
        v = self.deref(st, args[0])
        if isinstance(v, Ref):
            if len(v.ty[1]) == 1:
                return Py(self.prog.classes[next(iter(v.ty[1]))])
            return Sc(CLSV, self.clsOf(v.t))
        if isinstance(v, NoneT):
            return Sc(CLSV, self.tagof("NoneType"))
        if isinstance(v, Opt):
            return merge(v.n, Sc(CLSV, self.tagof("NoneType")), self.clsval(self.x_type(st, [v.v], kw, node)))
        raise Unsupported("type()")

    def x_bool(self, st, args, kw, node):
        return B(self.truthy(st, args[0]))

    def x_str(self, st, args, kw, node):
        v = self.deref(st, args[0])
        if isinstance(v, Sc) and v.ty == STR:
            return v
        return self.fmt([v], st)

    x_repr = x_str

    isint = staticmethod(z3.Function("is_int_literal", StrS, BoolS))

    def x_int(self, st, args, kw, node):
        v = args[0]
        if len(args) == 2:
            v = self.some(st, v, exc="TypeError")
            if v is None:
                return None
            base = self.int_of(args[1])
            if isinstance(v, Sc) and v.ty == STR and v.lit is None and z3.is_int_value(base) and base.as_long() == 10:
                self.raise_(st, Not(self.isint(v.t)), "ValueError")
                return Sc(INT, self._ios(v.t))
            if isinstance(v, Sc) and v.ty == STR:
                ok = z3.Function("is_int_literal_base", StrS, IntS, BoolS)(v.t, base)
                self.raise_(st, Not(ok), "ValueError")
                return Sc(INT, z3.Function("int_of_str_base", StrS, IntS, IntS)(v.t, base))
            raise Unsupported("int with a base")
        v = self.some(st, v, exc="TypeError")
        if v is None:
            return None
        if isinstance(v, Sc) and v.ty in (INT, BOOL):
            return Sc(INT, toint(v))
        if isinstance(v, Sc) and v.ty == STR:
            if v.lit is not None:
                try:
                    return I(int(v.lit))
                except ValueError:
                    self.raise_(st, T, "ValueError")
                    return None
            self.raise_(st, Not(self.isint(v.t)), "ValueError")
            return Sc(INT, self._ios(v.t))
        raise Unsupported("int()")

    def x_hex(self, st, args, kw, node):
        return Sc(STR, self.hex_of_int(self.int_of(args[0])))

    def x_ord(self, st, args, kw, node):
        return Sc(INT, self.fn("ord", [args[0].t], IntS))

    def x_chr(self, st, args, kw, node):
        return Sc(STR, self.fn("chr", [self.int_of(args[0])], StrS))

    def x_abs(self, st, args, kw, node):
        x = self.int_of(args[0])
        return Sc(INT, If(x < 0, -x, x))

    def x_pow(self, st, args, kw, node):
        if len(args) != 2:
            raise Unsupported("pow")
        return self.binop(st, ast.Pow(), args[0], args[1])

    def x_map(self, st, args, kw, node):
        l = self.iterable(st, args[1])
        if len(args) != 2:
            raise Unsupported("map")
        if l.items is not None:
            return self.hetero([self.call(st, args[0], [x], {}, node) for x in l.items])
        return self.via_comp(st, "[f(x) for x in it]", f=args[0], it=l)

    def x_filter(self, st, args, kw, node):
        l = self.iterable(st, args[1])
        if isinstance(args[0], NoneT):
            return self.via_comp(st, "[x for x in it if x]", it=l)
        return self.via_comp(st, "[x for x in it if f(x)]", f=args[0], it=l)

    def via_comp(self, st, text, **names):
        e = ast.parse(text, mode="eval").body
        f = self.new_scope(None, None)
        for k, v in names.items():
            st.store[("v", f, k)] = v
        v = self.comp(e.elt, e.generators, st, f)
        for k in names:
            st.store.pop(("v", f, k), None)
        return v

    def x_any(self, st, args, kw, node):
        l = self.iterable(st, args[0])
        if l.items is not None:
            return B(Or(*[self.truthy(st, x) for x in l.items]))
        k = z3.FreshConst(IntS, "q")
        return B(z3.Exists([k], And(0 <= k, k < l.n, self.truthy(st, l.get(k)))))

    def x_all(self, st, args, kw, node):
        l = self.iterable(st, args[0])
        if l.items is not None:
            return B(And(*[self.truthy(st, x) for x in l.items]))
        k = z3.FreshConst(IntS, "q")
        return B(forall([k], Implies(And(0 <= k, k < l.n), self.truthy(st, l.get(k)))))

    # ---- extrema, sums, order
    def x_max(self, st, args, kw, node):
        return self.extremum(st, args, kw, node, 1)

    def x_min(self, st, args, kw, node):
        return self.extremum(st, args, kw, node, -1)

    def extremum(self, st, args, kw, node, sgn):
        if "key" in kw and not isinstance(kw["key"], NoneT):
            raise Unsupported("max with a key")
        less = (lambda a, b: a < b) if sgn > 0 else (lambda a, b: b < a)
        if len(args) > 1:
            xs = []
            for a in args:
                a = self.some(st, a, exc="TypeError")
                if a is None:
                    return None
                xs.append(self.int_of(a))
            out = xs[0]
            for x in xs[1:]:
                out = If(less(out, x), x, out)
            return Sc(INT, out)
        l = self.iterable(st, args[0])
        if st.dead:
            return None
        if l.items is not None:
            if not l.items:
                if "default" in kw:
                    return kw["default"]
                self.raise_(st, T, "ValueError")
                return None
            return self.extremum(st, l.items, {}, node, sgn) if len(l.items) > 1 else l.items[0]
        if "default" not in kw:
            self.raise_(st, l.n <= 0, "ValueError")
        probe = l.get(z3.FreshConst(IntS, "j"))
        if not (isinstance(probe, Sc) and probe.ty in (INT, BOOL)):
            raise Unsupported("max of values that are not integers")
        key = ("ext", sgn) + self.lkey(l)
        if key in self.memo:
            m = self.memo[key][0]
        else:
            m = self.fresh("max" if sgn > 0 else "min", IntS)
            w = self.fresh("arg", IntS)
            self.memo[key] = (m, l)
            j = z3.FreshConst(IntS, "j")
            self.fact(Implies(And(0 <= j, j < l.n), Not(less(m, toint(l.get(j))))), [j])
            self.fact(Implies(l.n > 0, And(0 <= w, w < l.n, m == toint(l.get(w)))))
        if "default" in kw:
            return merge(l.n > 0, Sc(INT, m), kw["default"])
        return Sc(INT, m)

    def lkey(self, l):
        """identity of a symbolic list by its terms"""
        K = z3.Const("!J", IntS)
        ts = flat(l.get(K))
        self.keep.append((l.n, ts))
        return (l.n.get_id(),) + tuple(t.get_id() for t in ts) + tuple(x.get_id() for x in self.idx())

    def x_sum(self, st, args, kw, node):
        l = self.iterable(st, args[0])
        start = self.int_of(args[1]) if len(args) > 1 else z3.IntVal(0)
        if st.dead:
            return None
        if l.items is not None:
            out = start
            for x in l.items:
                out = out + self.int_of(x)
            return Sc(INT, z3.simplify(out))
        ix = self.idx()
        K = z3.Const("!J", IntS)
        term = self.int_of(l.get(K))
        count = nat(l.n)
        self.keep.append((count, term))
        key = ("sum", count.get_id(), term.get_id()) + tuple(x.get_id() for x in ix)
        if key in self.memo:
            nm = self.memo[key][0]
        else:
            nm = self.fresh_name("sum")
            self.memo[key] = (nm, l)
            self.define_sum(nm, ix, l.n, lambda t: self.int_of(l.get(t)))
        r = self.fn(nm, ix + [nat(l.n)], IntS)
        return Sc(INT, r if z3.is_int_value(start) and start.as_long() == 0 else start + r)

    def x_sorted(self, st, args, kw, node):
        l = self.iterable(st, args[0])
        if st.dead:
            return None
        l = self.sort_list(st, l, kw, node)
        return None if st.dead else self.new_cell(st, l)

    def no_none(self, v):
        """(v without optional parts, condition that some part is None)"""
        if isinstance(v, Opt):
            x, c = self.no_none(v.v)
            return x, Or(v.n, c)
        if isinstance(v, Tup):
            xs = [self.no_none(x) for x in v.items]
            return Tup([x for x, c in xs]), Or(*[c for x, c in xs])
        return v, F

    def sort_list(self, st, l, kw, node):
        rev = kw.get("reverse")
        if rev is not None and not (isinstance(rev, Sc) and z3.is_false(rev.t)):
            raise Unsupported("sort in reverse")
        keyf = kw.get("key")
        if l.items is not None and len(l.items) <= 1:
            return l
        n = l.n
        k = z3.FreshConst(IntS, "k")
        fr = Frame(k, And(0 <= k, k < n))
        mark = len(self.exits)
        self.frames.append(fr)
        s2 = st.fork(0 <= k, k < n)
        v = l.get(k)
        kv = self.call(s2, keyf, [v], {}, node) if keyf is not None and not isinstance(keyf, NoneT) else v
        if not s2.dead:
            kv, none = self.no_none(self.defined(kv))
            if not z3.is_false(none):
                self.oblig(s2, "sort keys can be compared", Not(none), ("*",))
        self.frames.pop()
        self.close(fr)
        if len(self.exits) > mark or s2.dead:
            # the key function can fail: one pass over the list decides where; afterwards no element fails
            if any(x.kind != "raise" for x in self.exits[mark:]):
                raise Unsupported("exit from a sort key")
            del self.exits[mark:]
            f2 = self.new_scope(None, None)
            st.store[("v", f2, "@list")] = l
            st.store[("v", f2, "@key")] = keyf
            name = lambda n: ast.Name(id=n, ctx=ast.Load())
            loop = ast.For(target=ast.Name(id="@x", ctx=ast.Store()), iter=name("@list"), body=[ast.Expr(ast.Call(func=name("@key"), args=[name("@x")], keywords=[]))], orelse=[])
            self.block([loop], st, f2)
            self.drop(st, f2)
            if st.dead:
                return l
        K = lambda j: sub(kv, [(k, j)])
        ix = self.idx()
        key = None
        try:
            J = z3.Const("!J", IntS)
            ks = flat(K(J))
            vs = flat(l.get(J))
            self.keep.append((ks, vs, n))
            key = ("sort", n.get_id()) + tuple(t.get_id() for t in ks + vs) + tuple(x.get_id() for x in ix)
        except Unsupported:
            pass
        if key in self.memo:
            nm = self.memo[key][0]
        else:
            nm = self.fresh_name("sort")
            if key is not None:
                self.memo[key] = (nm,)
            p = lambda j: self.fn(nm + "@p", ix + [j], IntS)
            q = lambda j: self.fn(nm + "@q", ix + [j], IntS)
            i, j = z3.FreshConst(IntS, "i"), z3.FreshConst(IntS, "j")
            self.fact(Implies(And(0 <= j, j < n), And(0 <= p(j), p(j) < n, q(p(j)) == j)), [j], pats=[p(j)])
            # every source index has a place: instantiate wherever the source element is mentioned
            self.fact(Implies(And(0 <= i, i < n), And(0 <= q(i), q(i) < n, p(q(i)) == i)), [i], pats=[q(i)])
            try:
                ps = [t for t in flat(l.get(i)) if mentions(t, [i])]
                pt = auto_patterns([i], And(*[t == t for t in ps])) if ps else None
            except Unsupported:
                pt = None
            if pt:
                self.fact(Implies(And(0 <= i, i < n), And(0 <= q(i), q(i) < n, p(q(i)) == i)), [i], pats=pt)
            for o, piece in pieces(l):
                a = z3.simplify(o + i)
                ps = [t for t in trigger_terms(piece, i) if mentions(t, [i])]
                pt = auto_patterns([i], And(*[t == t for t in ps])) if ps else None
                if pt:
                    self.fact(Implies(And(0 <= i, i < piece.n), And(0 <= q(a), q(a) < n, p(q(a)) == a)), [i], pats=pt)
            ki, kj = K(p(i)), K(p(j))
            self.fact(Implies(And(0 <= i, i < j, j < n), And(Not(self.lt(kj, ki)), Implies(eq(ki, kj), p(i) < p(j)))), [i, j], pats=[z3.MultiPattern(p(i), p(j))])
        p = lambda j: self.fn(nm + "@p", ix + [j], IntS)
        return Lst(l.ety, n, lambda j: l.get(p(j)))

    # ---- modules
    def x_warnings_warn(self, st, args, kw, node):
        st.store[("warn",)] = B(True)
        return NoneV

    def x_print(self, st, args, kw, node):
        return NoneV

    def x_copy_copy(self, st, args, kw, node):
        v = self.some(st, self.deref(st, args[0]), exc="TypeError")
        if v is None:
            return None
        if isinstance(v, Ref):
            return self.copy_ref(st, v)
        if isinstance(v, Lst):
            return self.new_cell(st, v)
        raise Unsupported("copy.copy")

    def copy_ref(self, st, v, cs=None):
        cs = sorted(v.ty[1]) if cs is None else cs
        c = cs[0]

        def one(s):
            t = self.new_ref(c)
            r = Ref([c], t)
            known = {}
            for n, ty in self.fields(c).items():
                x = self.read_attr(s, Ref([c], v.t, v.known), n)
                known[n] = (s.heap.get((n, ty)), x)
                if not self.probe:
                    self.assume_equal(self.heap_base((n, ty)).get(r), x, ty)
            r.known = known
            return r
        if len(cs) == 1:
            return one(st)
        return self.branch(st, self.is_cls(v.t, [c]), one, lambda s: self.copy_ref(s, v, cs[1:]))

    def x_dataclasses_fields(self, st, args, kw, node):
        c = args[0]
        if isinstance(c, Py) and isinstance(c.o, ClassInfo):
            return mklist([Py(DcField(n)) for n, a, d, k in self.prog.dc_fields(c.o)])
        raise Unsupported("dataclasses.fields")

    def x_dataclasses_replace(self, st, args, kw, node):
        raise Unsupported("dataclasses.replace")

    def regex(self, st, kind, args, kw):
        p, s = args[0], self.some(st, args[1], exc="TypeError")
        if s is None:
            return None
        if len(args) > 2 or kw:
            raise Unsupported("regex flags")
        if not (isinstance(p, Sc) and p.lit is not None):
            raise Unsupported("computed regular expression")
        if s.lit is not None:
            m = getattr(re, kind)(p.lit, s.lit)
            if m is None:
                return NoneV
        ok = z3.Function(f"re.{kind}:{p.lit}", StrS, BoolS)(s.t) if s.lit is None else T
        self.re_axioms(kind, p.lit)
        r = Py(Match((kind, p.lit), s.t))
        return r if z3.is_true(ok) else Opt(Not(ok), r)

    def re_axioms(self, kind, pat):
        import re._parser as sp
        tree = sp.parse(pat)

        def mk():
            s = z3.Const("s", StrS)
            okf = z3.Function(f"re.{kind}:{pat}", StrS, BoolS)
            body = []
            for i in range(1, tree.state.groups):
                g = z3.Function(f"re.{kind}.{i}:{pat}", StrS, StrS)(s)
                if self.digit_group(tree, i):
                    body.append(And(self.isint(g), self._ios(g) >= 0))
            return Fact(Implies(okf(s), And(*body)), [s], [], [okf(s)])
        if any(self.digit_group(tree, i) for i in range(1, tree.state.groups)):
            self.axiom_once(("re", kind, pat), mk)
        if kind == "fullmatch":
            for c, parts in self.separated(tree):
                self.axiom_once(("split", c, pat), lambda c=c, parts=parts: self.split_axiom(pat, c, parts))

    def split_axiom(self, pat, c, parts):
        """what str.split(c) gives for a text that matches P1 c P2 c ... in full, where no P can contain c"""
        s = z3.Const("s", StrS)
        okf = z3.Function(f"re.fullmatch:{pat}", StrS, BoolS)
        l = self.fam("str.split1", LIST(STR), [s, self.lit(c).t])
        body = [l.n == len(parts)]
        for i, items in enumerate(parts):
            x = l.get(z3.IntVal(i)).t
            if len(items) == 1:
                op, av = items[0]
                if str(op) == "MAX_REPEAT" and av[0] >= 1 and len(av[2]) == 1 and self.char_ranges(av[2][0]) == [(48, 57)]:
                    body.append(And(self.isint(x), self._ios(x) >= 0))
                r = self.char_ranges(items[0]) if str(op) == "IN" else None
                if r is not None and len(r) == 1:
                    o = self.fn("ord", [x], IntS)
                    body += [o >= r[0][0], o <= r[0][1], self.fn("str.len", [x], IntS) == 1]
        return Fact(Implies(okf(s), And(*body)), [s], [], [okf(s)])

    def char_ranges(self, item):
        """code point ranges one matched character lies in, None if unknown"""
        op, av = item
        if str(op) == "LITERAL":
            return [(av, av)]
        if str(op) == "IN":
            out = []
            for o, a in av:
                if str(o) == "RANGE":
                    out.append(tuple(a))
                elif str(o) == "LITERAL":
                    out.append((a, a))
                else:
                    return None
            return out
        return None

    def may_contain(self, item, c):
        op, av = item
        if str(op) in ("LITERAL", "IN"):
            r = self.char_ranges(item)
            return r is None or any(a <= c <= b for a, b in r)
        if str(op) == "MAX_REPEAT":
            return any(self.may_contain(x, c) for x in av[2])
        if str(op) == "SUBPATTERN":
            return any(self.may_contain(x, c) for x in av[3])
        return True

    def separated(self, tree):
        items = list(tree)
        for c in sorted({av for op, av in items if str(op) == "LITERAL"}):
            if any(self.may_contain(x, c) for x in items if not (str(x[0]) == "LITERAL" and x[1] == c)):
                continue
            parts, cur = [], []
            for x in items:
                if str(x[0]) == "LITERAL" and x[1] == c:
                    parts.append(cur)
                    cur = []
                else:
                    cur.append(x)
            yield chr(c), parts + [cur]

    def digit_group(self, tree, i):
        """group i is \\d+ or [0-9]+ and always takes part"""
        import re._parser as sp
        for op, av in tree:
            if str(op) == "SUBPATTERN" and av[0] == i:
                b = av[3]
                if len(b) == 1 and str(b[0][0]) == "MAX_REPEAT" and b[0][1][0] >= 1:
                    x = b[0][1][2]
                    if len(x) == 1 and str(x[0][0]) == "IN":
                        return all(str(o) == "CATEGORY" and str(a) == "CATEGORY_DIGIT" or str(o) == "RANGE" and a == (48, 57) for o, a in x[0][1])
        return False

    def x_re_match(self, st, args, kw, node):
        return self.regex(st, "match", args, kw)

    def x_re_fullmatch(self, st, args, kw, node):
        return self.regex(st, "fullmatch", args, kw)

    def x_re_search(self, st, args, kw, node):
        return self.regex(st, "search", args, kw)

    def x_re_sub(self, st, args, kw, node):
        if kw or len(args) != 3 or args[0].lit is None or args[1].lit is None:
            raise Unsupported("re.sub")
        s = self.some(st, args[2], exc="TypeError")
        if s.lit is not None:
            return self.lit(re.sub(args[0].lit, args[1].lit, s.lit))
        pat, repl = args[0].lit, args[1].lit
        words = self.anchored_words(pat)
        if words:
            self.axiom_once(("sub", pat, repl), lambda: self.sub_axiom(pat, repl, words))
        return Sc(STR, self.fn(f"re.sub:{pat}:{repl}", [s.t], StrS))

    def anchored_words(self, pat):
        """the finitely many texts a pattern anchored at the start matches, when no one begins another; None if unknown"""
        import re._parser as sp
        tree = list(sp.parse(pat))
        if not tree or str(tree[0][0]) != "AT" or str(tree[0][1]) not in ("AT_BEGINNING_STRING",):
            return None

        def words(items):
            out = [""]
            for op, av in items:
                o = str(op)
                if o in ("LITERAL", "IN"):
                    r = self.char_ranges((op, av))
                    if r is None or sum(b - a + 1 for a, b in r) > 16:
                        return None
                    w = [chr(c) for a, b in r for c in range(a, b + 1)]
                elif o == "SUBPATTERN":
                    w = words(av[3])
                elif o == "MAX_REPEAT" and av[1] <= 2:
                    one = words(av[2])
                    if one is None:
                        return None
                    w = [""] if av[0] == 0 else []
                    if av[0] <= 1:
                        w += one
                    if av[1] == 2:
                        w += [a + b for a in one for b in one]
                else:
                    return None
                if w is None or len(w) * len(out) > 200:
                    return None
                out = [a + b for a in out for b in w]
            return out
        ws = words(tree[1:])
        if ws is None:
            return None
        ws = sorted(set(ws))
        if any(a != b and b.startswith(a) for a in ws for b in ws) or "" in ws:
            return None
        return ws

    def sub_axiom(self, pat, repl, words):
        """re.sub with a pattern anchored at the start: the replacement of the word the text begins with, then the rest"""
        s = z3.Const("s", StrS)
        app = self.fn(f"re.sub:{pat}:{repl}", [s], StrS)
        t = s
        starts = lambda w: self.fn("str.startswith", [s, self.lit(w).t], BoolS)
        body = []
        for i, w in enumerate(words):
            rest = self.slice(St(), Sc(STR, s), Sc(INT, z3.IntVal(len(w))), None)
            t = If(starts(w), self.fmt([self.lit(re.sub(pat, repl, w)), rest]).t, t)
            body += [Not(And(starts(w), starts(v))) for v in words[:i]]
        return Fact(And(app == t, *body), [s], [], [app])

    # ---------------------------------------------------------------- methods of built-in values
    def call_method(self, st, o, args, kw, node, fid):
        recv, name = o.recv, o.name
        if isinstance(recv, Py) and isinstance(recv.o, (Elem, Attribs)):
            return self.elem_method(st, recv, name, args, kw)
        if isinstance(recv, Py) and isinstance(recv.o, Match):
            return self.m_match(st, recv.o, name, args)
        v = self.deref(st, recv)
        cell = recv.o if isinstance(recv, Py) and isinstance(recv.o, Cell) else None
        if isinstance(v, Lst):
            return self.m_list(st, v, cell, name, args, kw, o.node, fid)
        if isinstance(v, MapV):
            return self.m_map(st, v, cell, name, args, kw, o.node)
        if isinstance(v, Sc) and v.ty == STR:
            return self.m_str(st, v, name, args, kw)
        if isinstance(v, Sc) and v.ty == OPQ and name == "decode" and not kw:  # bytes
            args = [self.some(st, self.deref(st, a), exc="TypeError") for a in args]
            args = [] if len(args) == 1 and str(args[0].lit).lower() in ("utf-8", "utf8") else args
            return Sc(STR, self.fn("bytes.decode", [v.t] + [a.t for a in args], StrS))
        if isinstance(v, Sc) and v.ty == INT and name == "bit_length":
            return Sc(INT, self.fn("bit_length", [v.t], IntS))
        raise Unsupported(f"method {name} of {v!r}")

    def m_match(self, st, m, name, args):
        kind, pat = m.pattern
        import re._parser as sp
        tree = sp.parse(pat)
        g = lambda i: Sc(STR, z3.Function(f"re.{kind}.{i}:{pat}", StrS, StrS)(m.s))
        if name == "groups":
            if any(str(op) != "SUBPATTERN" and "SUBPATTERN" in str(av) for op, av in tree):
                raise Unsupported("optional groups")
            return Tup([g(i) for i in range(1, tree.state.groups)])
        if name == "group":
            if not args:
                return g(0)
            if len(args) == 1 and z3.is_int_value(args[0].t):
                return g(args[0].t.as_long())
        raise Unsupported(f"match.{name}")

    def mutate(self, st, cell, old, new, node, what):
        """a container changes: local cell, list attribute of an object, or (not allowed) a value that belongs to someone else"""
        if cell is not None:
            self.set_cell(st, cell, new)
            return
        raise Unsupported(f"{what} of a container that is not local")

    def m_list(self, st, v, cell, name, args, kw, node, fid):
        if name in ("append", "extend", "sort", "insert", "pop", "clear", "remove", "reverse"):
            if cell is None and isinstance(node, ast.Attribute) and isinstance(node.value, ast.Attribute) and fid is not None and name in ("append", "extend"):
                obj = self.eval(node.value.value, st, fid)
                if isinstance(obj, Ref):
                    ext = mklist([self.freeze(st, args[0])]) if name == "append" else self.iterable(st, args[0])
                    self.write_attr(st, self.narrow(st, obj), node.value.attr, concat(v, ext, track=False), self.line)
                    return NoneV
            if name == "append":
                self.mutate(st, cell, v, concat(v, mklist([self.freeze(st, self.defined(args[0]))])), node, "append")
                return NoneV
            if name == "extend":
                ext = self.iterable(st, args[0])
                if st.dead:
                    return None
                if ext.items == []:
                    return NoneV
                self.mutate(st, cell, v, concat(v, ext), node, "extend")
                return NoneV
            if name == "sort":
                self.mutate(st, cell, v, self.sort_list(st, v, kw, node), node, "sort")
                return NoneV
            if name == "clear":
                self.mutate(st, cell, v, mklist([], v.ety), node, "clear")
                return NoneV
            if name == "insert" and z3.is_int_value(args[0].t) and args[0].t.as_long() == 0:
                x = mklist([self.freeze(st, args[1])])
                self.mutate(st, cell, v, concat(x, v, track=False), node, "insert")
                return NoneV
            if name == "pop" and not args and v.items:
                self.mutate(st, cell, v, mklist(v.items[:-1], v.ety), node, "pop")
                return v.items[-1]
            if name == "pop" and not kw and v.items is None:
                last = not args
                if args and not z3.is_int_value(args[0].t):
                    raise Unsupported("list.pop of a computed index")
                i = -1 if last else args[0].t.as_long()
                if i not in (0, -1):
                    raise Unsupported(f"list.pop({i})")
                self.raise_(st, v.n <= 0, "IndexError")
                if st.dead:
                    return None
                x = v.get(z3.simplify(v.n - 1) if i else z3.IntVal(0))
                new = Lst(v.ety, v.n - 1, v.get) if i else Lst(v.ety, v.n - 1, lambda j: v.get(j + 1))
                self.mutate(st, cell, v, new, node, "pop")
                return x
            raise Unsupported(f"list.{name}")
        if name == "copy":
            return self.new_cell(st, Lst(v.ety, v.n, v.get, items=v.items))
        if name == "count" and v.items is not None:
            return Sc(INT, z3.simplify(z3.Sum([If(eq(x, args[0]), z3.IntVal(1), z3.IntVal(0)) for x in v.items]))) if v.items else I(0)
        raise Unsupported(f"list.{name}")

    def m_map(self, st, v, cell, name, args, kw, node):
        if name == "add":
            self.mutate(st, cell, v, self.push_write(v, (T, self.freeze(st, args[0]), None)), node, "add")
            return NoneV
        if name == "update" and v.kind == "set":
            out = v
            for a in args:
                l = self.iterable(st, a)
                if l.items is None:
                    b = self.to_set(l)
                    o = out
                    out = MapV("set", join(o.kty, b.kty), None, (lambda o, b: lambda x: Or(o.has(x), b.has(x)))(o, b), poison_get("set"))
                else:
                    for x in l.items:
                        out = self.push_write(out, (T, x, None))
            self.mutate(st, cell, v, out, node, "update")
            return NoneV
        if name == "get":
            k = args[0]
            d = args[1] if len(args) > 1 else NoneV
            if v.empty:
                return d
            r = merge(v.has(k), v.get(k), d)
            if isinstance(r, Poison):
                raise Unsupported(r.why)
            return r
        if name in ("keys",):
            return self.keys_list(v)
        if name in ("items", "values"):
            ks = self.keys_list(v)
            if ks.items == []:
                return mklist([])
            if name == "values":
                return Lst(v.vty, ks.n, lambda j: v.get(ks.get(j)))
            return Lst(TUP([v.kty, v.vty]), ks.n, lambda j: Tup([ks.get(j), v.get(ks.get(j))]))
        if name == "copy":
            return self.new_cell(st, v)
        if name == "setdefault" and cell is not None:
            k, d = args[0], self.freeze(st, args[1])
            has = v.has(k)
            cur = d if v.empty else merge(has, v.get(k), d)
            self.mutate(st, cell, v, self.push_write(v, (Not(has), k, d)), node, "setdefault")
            return cur
        if name == "issubset" and v.kind == "set":
            o = self.to_set(args[0]) if not isinstance(self.deref(st, args[0]), MapV) else self.deref(st, args[0])
            l = self.keys_list(v)
            k = z3.FreshConst(IntS, "k")
            x = l.get(k)
            return B(forall([k], Implies(And(0 <= k, k < l.n), o.has(x))))
        if name == "union" and v.kind == "set":
            b = self.to_set(self.iterable(st, args[0]))
            return self.new_cell(st, MapV("set", join(v.kty, b.kty), None, lambda x: Or(v.has(x), b.has(x)), poison_get("set")))
        raise Unsupported(f"{v.kind}.{name}")

    PRED = {"startswith", "endswith", "isdigit", "isdecimal", "isalpha", "isalnum", "isspace", "islower", "isupper"}
    STRF = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "casefold", "removeprefix", "removesuffix", "title", "capitalize", "join", "zfill"}
    INTF = {"count", "find", "index", "rfind"}

    def m_str(self, st, v, name, args, kw):
        if kw:
            raise Unsupported(f"str.{name} with keywords")
        args = [self.some(st, self.deref(st, a), exc="TypeError") for a in args]
        if st.dead:
            return None
        lits = all(isinstance(a, Sc) and (a.lit is not None or z3.is_int_value(a.t)) for a in args) and v.lit is not None
        if lits and name in self.PRED | self.STRF | self.INTF and name != "join":
            r = getattr(v.lit, name)(*[a.lit if a.lit is not None else a.t.as_long() for a in args])
            return B(r) if isinstance(r, bool) else I(r) if isinstance(r, int) else self.lit(r)
        if name == "join":
            l = self.iterable(st, args[0])
            if l.items is not None:
                out = []
                for i, x in enumerate(l.items):
                    out += [v, x] if i else [x]
                return self.fmt(out, st)
            if l.ety == STR and not self.spec_depth:
                return Sc(STR, self.fresh("joined", StrS))
            raise Unsupported("join of a symbolic sequence")
        if name == "format":
            raise Unsupported("str.format")
        if name == "encode":
            return Sc(OPQ, self.fn("str.encode", [v.t] + [a.t for a in args], AnyS))
        if name == "split":
            nm = "str.split" + str(len(args))
            return self.split_view(st, nm, v, args)
        if not all(isinstance(a, Sc) for a in args):
            raise Unsupported(f"str.{name}")
        if all(isinstance(a, Sc) and a.lit is not None for a in args) and name in self.STRF | self.PRED and z3.is_app(v.t) and v.t.decl().kind() == z3.Z3_OP_ITE:
            cs = self.lit_cases(v.t)
            if cs is not None and len(cs) <= 8:
                vs = [getattr(l, name)(*[a.lit for a in args]) for c, l in cs]
                vs = [self.lit(x) if isinstance(x, str) else B(x) for x in vs]
                out = vs[-1]
                for (c, l), x in reversed(list(zip(cs, vs))[:-1]):
                    out = Sc(out.ty, If(c, x.t, out.t))
                return out
        ts = [v.t] + [a.t for a in args]
        nm = f"str.{name}" + ("" if len(args) < 3 else str(len(args)))
        if name in self.PRED:
            return Sc(BOOL, self.fn(nm, ts, BoolS))
        if name in self.STRF and len(args) == 0:
            self.str_funcs.add(name)
        if name in self.STRF:
            return Sc(STR, self.fn(nm, ts, StrS))
        if name in self.INTF:
            return Sc(INT, self.fn(nm, ts, IntS))
        raise Unsupported(f"str.{name}")

    def split_view(self, st, nm, v, args):
        l = self.fam(nm, LIST(STR), [v.t] + [a.t for a in args])
        self.fact(l.n >= (1 if args else 0))
        return self.new_cell(st, l)
