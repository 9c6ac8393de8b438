"""Statements and loops of the VC generator (mixin of engine.Engine)."""
import ast
import z3
from .src import Unsupported, ClassInfo, FuncInfo, Module
from .vals import *
from .engine import Exit, St, Fact, Frame, Closure, Ext, ExcVal, LocalObj, Cell, Method, forall, mentions, subterms, DcField, auto_patterns, has_quant
from .build import Attribs, Elem, Marker


def identical(a, b):
    """same value on the level of terms"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, Py) and isinstance(b, Py):
        return a.o is b.o or (type(a.o) is type(b.o) and a.o == b.o)
    if isinstance(a, NoneT) and isinstance(b, NoneT):
        return True
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.ty == b.ty and a.t.eq(b.t)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.t.eq(b.t) and a.ty == b.ty
    if isinstance(a, Opt) and isinstance(b, Opt):
        return a.n.eq(b.n) and identical(a.v, b.v)
    if isinstance(a, Kids) and isinstance(b, Kids):
        return len(a.entries) == len(b.entries) and all(x is y for x, y in zip(a.entries, b.entries))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(identical(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Lst) and isinstance(b, Lst) and a.items is not None and b.items is not None:
        return len(a.items) == len(b.items) and all(identical(x, y) for x, y in zip(a.items, b.items))
    return False


def conjuncts(c):
    """the conjuncts of c as far as they contain quantifiers"""
    if not z3.is_and(c) or not has_quant(c):
        return [c]
    qs = [x for a in c.children() for x in conjuncts(a) if has_quant(a)]
    rest = [a for a in c.children() if not has_quant(a)]
    return ([And(*rest)] if rest else []) + qs


def nat(n):
    """max(n, 0), simplified for lengths"""
    if z3.is_int_value(n):
        return n if n.as_long() >= 0 else z3.IntVal(0)
    return n if nonneg(n) else If(n > 0, n, z3.IntVal(0))


def nonneg(n):
    if z3.is_int_value(n):
        return n.as_long() >= 0
    if z3.is_app(n):
        k = n.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = n.decl().name()
            return nm.endswith("#") or nm.endswith("@off")
        if k == z3.Z3_OP_ADD:
            return all(nonneg(c) for c in n.children())
        if k == z3.Z3_OP_ITE:
            return nonneg(n.arg(1)) and nonneg(n.arg(2)) or (z3.is_int_value(n.arg(2)) and n.arg(2).as_long() == 0 and n.arg(0).eq(n.arg(1) > 0))
    return False


def declnames(v):
    """names of the uninterpreted symbols of a first-order value"""
    from .engine import decls
    out = set()
    for t in flat(v):
        out |= decls(t)
    return out


def increment(t, ph):
    """the term d with t = ph + d, or None"""
    if t.eq(ph):
        return z3.IntVal(0)
    if not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        a, b = increment(t.arg(1), ph), increment(t.arg(2), ph)
        return None if a is None or b is None else If(t.arg(0), a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        ch = t.children()
        first = ch[0]
        d = increment(first, ph)
        if d is not None:
            ch = ch[1:] if z3.is_int_value(d) and d.as_long() == 0 and k == z3.Z3_OP_ADD and len(ch) > 1 else [d] + ch[1:]
            return ch[0] if len(ch) == 1 else t.decl()(*ch)
        if k == z3.Z3_OP_ADD:
            for i, c in enumerate(ch):
                d = increment(c, ph)
                if d is not None:
                    rest = ch[:i] + ch[i + 1:]
                    if not (z3.is_int_value(d) and d.as_long() == 0):
                        rest.append(d)
                    return rest[0] if len(rest) == 1 else z3.Sum(rest)
    return None


def keeps(t, ph):
    """a condition under which t equals ph"""
    if t.eq(ph):
        return T
    if not z3.is_app(t):
        return F
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        a, b = keeps(t.arg(1), ph), keeps(t.arg(2), ph)
        return Or(And(t.arg(0), a), And(Not(t.arg(0)), b))
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        out = []
        ch = t.children()
        for i, c in enumerate(ch):
            x = keeps(c, ph)
            if not z3.is_false(x):
                rest = [d if k == z3.Z3_OP_AND else Not(d) for j, d in enumerate(ch) if j != i]
                out.append(And(x, *rest))
        return Or(*out)
    return F


def match_term(pat, t, vs, out=None):
    """{id of variable: term} with pat[...] the same as t"""
    out = {} if out is None else out
    ids = {v.get_id() for v in vs}
    todo = [(pat, t)]
    while todo:
        p, t = todo.pop()
        if p.get_id() in ids:
            if p.sort() != t.sort() or p.get_id() in out and not out[p.get_id()].eq(t):
                return None
            out[p.get_id()] = t
            continue
        if p.eq(t) and not mentions(p, vs):
            continue
        if not (z3.is_app(p) and z3.is_app(t)) or not p.decl().eq(t.decl()) or p.num_args() != t.num_args() or p.num_args() == 0:
            return None
        todo.extend(zip(p.children(), t.children()))
    return out


class Stmts:
    # ---------------------------------------------------------------- blocks
    def block(self, stmts, st, fid):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st, fid)

    def stmt(self, s, st, fid):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        old = self.line
        if not self.inspec():
            self.line = getattr(s, "lineno", old)
        try:
            m(s, st, fid)
        finally:
            self.line = old

    def inspec(self):
        return self.spec_depth > 0

    def s_Pass(self, s, st, fid):
        pass

    def s_Import(self, s, st, fid):
        raise Unsupported("import inside a function")

    s_ImportFrom = s_Import

    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st, fid)

    def s_If(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        if st.dead:
            return
        self.branch(st, c, lambda a: self.block(s.body, a, fid), lambda b: self.block(s.orelse, b, fid))

    def s_Match(self, s, st, fid):
        """as a chain of tests of the subject"""
        subj = f"@match{s.lineno}_{s.col_offset}"
        name = lambda: ast.copy_location(ast.Name(id=subj, ctx=ast.Load()), s)

        def test(p):
            """(test of the pattern, names that it binds to the subject)"""
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=name(), ops=[ast.Eq()], comparators=[p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=name(), ops=[ast.Is()], comparators=[ast.Constant(p.value)]), []
            if isinstance(p, ast.MatchOr):
                ts = [test(x) for x in p.patterns]
                if any(b for _, b in ts):
                    raise Unsupported("names bound in alternatives of a pattern")
                return ast.BoolOp(op=ast.Or(), values=[t for t, _ in ts]), []
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(func=ast.Name(id="isinstance", ctx=ast.Load()), args=[name(), p.cls], keywords=[]), []
            if isinstance(p, ast.MatchAs):
                t, b = (ast.Constant(True), []) if p.pattern is None else test(p.pattern)
                return t, b + ([p.name] if p.name else [])
            raise Unsupported(f"pattern {type(p).__name__}")
        chain = []
        for c in reversed(s.cases):
            t, binds = test(c.pattern)
            bind = [ast.Assign(targets=[ast.Name(id=b, ctx=ast.Store())], value=name()) for b in binds]
            if c.guard is not None and binds:
                raise Unsupported("guard of a pattern that binds names")
            if c.guard is not None:
                t = ast.BoolOp(op=ast.And(), values=[t, c.guard])
            chain = [ast.If(test=t, body=bind + c.body, orelse=chain)]
        out = [ast.Assign(targets=[ast.Name(id=subj, ctx=ast.Store())], value=s.subject)] + chain
        for x in out:
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        self.block(out, st, fid)
        st.store.pop(("v", fid, subj), None)

    def s_Assign(self, s, st, fid):
        v = self.eval(s.value, st, fid)
        if st.dead:
            return
        for t in s.targets:
            self.assign_to(t, v, st, fid)

    def s_AnnAssign(self, s, st, fid):
        if s.value is None:
            return
        v = self.eval(s.value, st, fid)
        if st.dead:
            return
        self.assign_to(s.target, v, st, fid)

    def s_With(self, s, st, fid):
        """of a file: the body, with the file"""
        for i in s.items:
            v = self.eval(i.context_expr, st, fid)
            if st.dead:
                return
            if not (isinstance(v, Ref) and v.ty[1] == frozenset(["File"])):
                raise Unsupported(f"with {v!r}")
            if i.optional_vars is not None:
                self.assign_to(i.optional_vars, v, st, fid)
        self.block(s.body, st, fid)

    def s_AugAssign(self, s, st, fid):
        cur = self.eval(s.target if not isinstance(s.target, ast.Name) else ast.Name(id=s.target.id, ctx=ast.Load()), st, fid)
        v = self.eval(s.value, st, fid)
        if st.dead:
            return
        if isinstance(cur, Py) and isinstance(cur.o, Cell):
            c = self.deref(st, cur)
            if isinstance(c, Lst) and isinstance(s.op, ast.Add):
                self.set_cell(st, cur.o, concat(c, self.iterable(st, v)))
                return
            raise Unsupported("augmented assignment of a container")
        cur = self.some(st, cur, exc="TypeError")
        v = self.some(st, self.deref(st, v), exc="TypeError")
        if st.dead or cur is None or v is None:
            return
        if isinstance(cur, Lst):
            raise Unsupported("augmented assignment of a list that belongs to an object")
        self.assign_to(s.target, self.binop(st, s.op, cur, v), st, fid)

    def s_Return(self, s, st, fid):
        v = NoneV if s.value is None else self.eval(s.value, st, fid)
        if st.dead:
            return
        self.exits.append(Exit("return", list(st.pc), st.fork(), v, None, self.line))
        st.dead = True

    def s_Break(self, s, st, fid):
        self.exits.append(Exit("break", list(st.pc), st.fork(), None, None, self.line))
        st.dead = True

    def s_Continue(self, s, st, fid):
        self.exits.append(Exit("continue", list(st.pc), st.fork(), None, None, self.line))
        st.dead = True

    def s_Raise(self, s, st, fid):
        if self.inspec():
            raise Unsupported("raise in a specification")
        if s.exc is None:
            k = st.store.get(("exc",))
            if k is None:
                raise Unsupported("bare raise")
            name, alts = k.o.cls, k.o.alts
        else:
            v = self.eval(s.exc, st, fid)
            if st.dead:
                return
            name, alts = None, None
            if isinstance(v, Py):
                if isinstance(v.o, ExcVal):
                    name, alts = v.o.cls, v.o.alts
                elif isinstance(v.o, ClassInfo):
                    name = v.o.name
                elif isinstance(v.o, Ext):
                    name = v.o.name
            if name is None and alts is None:
                raise Unsupported(f"raise of {v!r}")
        if alts is not None and len(alts) > 1:
            rest = T
            for i, (c, n) in enumerate(alts):
                here = st.fork(And(rest, c) if i < len(alts) - 1 else rest)
                rest = And(rest, Not(c))
                self.exits.append(Exit("raise", list(here.pc), here, None, n, self.line))
            st.dead = True
            return
        self.exits.append(Exit("raise", list(st.pc), st.fork(), None, name, self.line))
        st.dead = True

    def s_Assert(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        if st.dead:
            return
        if not self.inspec():
            self.raise_(st, Not(c), "AssertionError")
            return
        if self.assume_mode:
            for x in conjuncts(c):
                self.gfact(st, x)
            return
        name = f"{self.tag[0]}:{s.lineno}"
        for x in conjuncts(c):
            self.oblig(st, name, x, self.tag[1])

    def s_FunctionDef(self, s, st, fid):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        st.store[("v", fid, s.name)] = Py(Closure(s, fid, self.scopes[fid][1]))

    def s_Try(self, s, st, fid):
        if s.finalbody:
            raise Unsupported("finally")
        base, mark = len(st.pc), len(self.exits)
        a = st.fork()
        self.block(s.body, a, fid)
        new = self.exits[mark:]
        del self.exits[mark:]
        parts = []
        if not a.dead:
            if s.orelse:
                self.block(s.orelse, a, fid)
            parts.append((a, None))
        for x in new:
            h = None
            if x.kind == "raise":
                for cand in s.handlers:
                    if self.handles(cand, x.exc, st, fid):
                        h = cand
                        break
            if h is None:
                self.exits.append(x)
                continue
            b = x.st.fork()
            b.pc = list(x.pc)
            b.dead = False
            saved = b.store.get(("exc",))
            b.store[("exc",)] = Py(ExcVal(x.exc))
            if h.name:
                b.store[("v", fid, h.name)] = Py(ExcVal(x.exc))
            self.block(h.body, b, fid)
            if not b.dead:
                if saved is None:
                    b.store.pop(("exc",), None)
                else:
                    b.store[("exc",)] = saved
                if h.name:
                    b.store.pop(("v", fid, h.name), None)
                parts.append((b, None))
        self.join_all(st, base, parts, mark)

    s_TryStar = None

    def handles(self, h, exc, st, fid):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            v = self.eval(t, st.fork(), fid)
            v = self.deref(st, v)
            if getattr(v, "items", None) is not None:  # a name for a tuple of classes
                if any(self.exc_is(exc, x.o.name.split(".")[-1]) for x in v.items):
                    return True
                continue
            n = v.o.name if isinstance(v, Py) and isinstance(v.o, (ClassInfo, Ext)) else None
            if n is None:
                raise Unsupported("except clause")
            if self.exc_is(exc, n.split(".")[-1]):
                return True
        return False

    # ---------------------------------------------------------------- targets
    def assign_to(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st.store[("v", fid, t.id)] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.some(st, self.deref(st, v), exc="TypeError")
            if st.dead:
                return
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred target")
            if getattr(v, "items", None) is None:
                if isinstance(v, Lst):
                    n = len(t.elts)
                    self.raise_(st, Not(Eq(v.n, z3.IntVal(n))), "ValueError")
                    for i, e in enumerate(t.elts):
                        self.assign_to(e, v.get(z3.IntVal(i)), st, fid)
                    return
                raise Unsupported(f"unpacking of {v!r}")
            if len(v.items) != len(t.elts):
                self.raise_(st, T, "ValueError")
                return
            for e, x in zip(t.elts, v.items):
                self.assign_to(e, x, st, fid)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fid)
            if st.dead:
                return
            self.store_attr(st, o, t.attr, v)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fid)
            k = self.eval(t.slice, st, fid)
            if st.dead:
                return
            c = self.deref(st, o)
            if isinstance(o, Py) and isinstance(o.o, Cell) and isinstance(c, MapV):
                self.set_cell(st, o.o, self.push_write(c, (T, self.freeze(st, k), self.freeze(st, v))))
                return
            if isinstance(o, Py) and isinstance(o.o, Attribs):
                self.set_attrib(st, o.o.e, k, v)
                return
            raise Unsupported("subscript assignment")
        raise Unsupported(f"assignment to {type(t).__name__}")

    def store_attr(self, st, o, attr, v):
        o = self.some(st, self.defined(o))
        if st.dead:
            return
        if isinstance(o, Py) and isinstance(o.o, LocalObj):
            st.store[("a", o.o.oid, attr)] = v
            self.self_written.add(("a", o.o.oid, attr))
            return
        if isinstance(o, Ref):
            o = self.narrow(st, o)
            groups, missing = self.attr_groups(o, attr)
            if not groups:
                fs = {id(f): f for f in (self.prog.find_method(self.prog.classes[c], attr + "!setter") for c in o.ty[1])}
                f = next(iter(fs.values()))
                if len(fs) == 1 and f is not None:
                    self.call_func(st, f, [o, v], {}, None)
                    return
            self.write_attr(st, o, attr, self.freeze(st, v), self.line)
            return
        if isinstance(o, Py) and isinstance(o.o, Elem) and attr in ("text", "tag"):
            self.set_part(st, o.o, attr, v)
            return
        raise Unsupported(f"attribute store on {o!r}")

    # ---------------------------------------------------------------- iteration
    def iterable(self, st, v):
        v = self.some(st, self.deref(st, self.defined(v)), exc="TypeError")
        if v is None or st.dead:
            return mklist([])
        if isinstance(v, Py) and isinstance(v.o, Elem):
            return self.elem_method(st, v, "__iter__", [], {})
        if isinstance(v, Lst):
            return v
        if isinstance(v, Tup):
            return mklist(v.items) if len({i.ty for i in v.items}) <= 1 else self.hetero(v.items)
        if isinstance(v, MapV):
            return self.keys_list(v)
        if isinstance(v, Py) and isinstance(v.o, ClassInfo) and v.o.is_enum:
            return mklist([Sc(ENUM(v.o.name), z3.IntVal(i)) for i in range(len(v.o.enum_members))])
        if isinstance(v, Ref) and len(v.ty[1]) == 1:
            f = self.prog.find_method(self.prog.classes[next(iter(v.ty[1]))], "__iter__")
            if f is not None:
                return self.deref(st, self.call_func(st, f, [v], {}, None))
        raise Unsupported(f"iteration over {v!r}")

    def hetero(self, items):
        items = list(items)
        try:
            return mklist(items)
        except Unsupported:
            def g(j):
                if z3.is_int_value(j):
                    return items[j.as_long()]
                raise Unsupported("index into a tuple of mixed types")
            return Lst(OPQ, z3.IntVal(len(items)), g, items=items)

    def keys_list(self, m):
        """the keys of a map in an unspecified order, each once"""
        if m.empty:
            return mklist([])
        if getattr(m, "keyview", None) is not None:
            return m.keyview
        nm = self.fresh_name("keys")
        probe, _ = fresh_like(self.fam(nm, m.kty, self.idx() + [z3.FreshConst(IntS, "k")]))
        hasp = m.has(probe)
        level = max([d for d, f in enumerate(self.frames) if not f.vs or mentions(hasp, f.vs)], default=0)
        ix = [v for f in self.frames[:level + 1] for v in f.vs]
        at = self.frames[level]
        n = self.fn(nm + "#", ix, IntS)
        self.fact(n >= 0, at=at)
        get = lambda j: self.fam(nm, m.kty, ix + [j])
        k, k2 = z3.FreshConst(IntS, "k"), z3.FreshConst(IntS, "k")
        kv = get(k)
        self.fact(Implies(And(0 <= k, k < n), m.has(kv)), [k], at=at)
        x, ps = fresh_like(kv)
        xs = [p[0] for p in ps]
        pos = self.fn(nm + "@pos", ix + xs, IntS)
        self.fact(Implies(m.has(x), And(0 <= pos, pos < n, eq(get(pos), x))), xs, seed=xs[0] if len(xs) == 1 else None, at=at)
        posk = self.fn(nm + "@pos", ix + flat(kv), IntS)
        self.fact(Implies(And(0 <= k, k < n), posk == k), [k], at=at)
        m.keyview = Lst(m.kty, n, get)
        return m.keyview

    # ---------------------------------------------------------------- loops
    def s_While(self, s, st, fid):
        inv = self.loop_inv.get(id(s))
        if inv is None:
            raise Unsupported("while loop without an invariant")
        if s.orelse:
            raise Unsupported("while-else")
        self.invloop(s, None, st, fid, None, inv)

    def check_inv(self, inv, st, fid, done, items, assume, what):
        con, name, m, env, pre = inv
        env = dict(env)
        for a in m.args.args:
            v = st.store.get(("v", fid, a.arg))
            if a.arg == "done":
                v = Sc(INT, done)
            elif a.arg == "items":
                v = items
            if v is not None:
                v = self.deref(st, v)
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                env[a.arg] = v
        saved = self.pre
        self.pre = pre
        line = self.line
        self.run_spec(con, m, env, st, assume, (f"{con.target}: {name} {what}", ("*",)))
        self.pre, self.line = saved, line

    def havoc(self, pre, st, changed, hchanged, ix, suffix):
        for key, ty in changed.items():
            init = st.store.get(key)
            if init is None:
                pre.store.pop(key, None)
                continue
            if ty is None:
                pre.store[key] = Poison(f"{key[-1]} changes in a loop in an unsupported way")
                continue
            nm = self.fresh_name((key[-1] if isinstance(key[-1], str) else str(key[0])) + suffix)
            v = self.fam(nm, ty, ix)
            pre.store[key] = v
            if key == ("warn",):
                pre.assume(Implies(self.truthy(st, init), self.truthy(pre, v)))
        for key in hchanged:
            pre.heap[key] = self.part_heap(self.heap(st, key), key, self.hw[key], self.fresh_name(f"heap:{key[0]}{suffix}"), ix)

    def invloop(self, s, it, st, fid, cell, inv):
        """a loop with a stated invariant"""
        base = len(st.pc)
        changed, hchanged, escs = self.changes(s, it, st, fid, cell)
        for x in escs:
            st.store.setdefault(x, B(True))
        items = it
        self.check_inv(inv, st, fid, z3.IntVal(0), items, False, "holds initially")
        # ---- an arbitrary iteration
        k = z3.FreshConst(IntS, "k")
        rng = And(0 <= k, k < it.n) if it is not None else 0 <= k
        fr = Frame(k, rng)
        ne = len(self.exits)
        self.frames.append(fr)
        reached = self.fresh("reached", BoolS)
        pre = st.fork(rng, reached)
        self.havoc(pre, st, changed, hchanged, self.idx(), "@")
        self.check_inv(inv, pre, fid, k, items, True, "")
        post = pre.fork()
        b0 = len(pre.pc)
        if it is not None:
            self.assign_to(s.target, it.get(k), post, fid)
        else:
            post.assume(self.cond(s.test, post, fid))
        if not post.dead:
            self.block(s.body, post, fid)
        new = self.exits[ne:]
        del self.exits[ne:]
        for c in [post] + [x.st for x in new if x.kind == "continue"]:
            if not c.dead:
                self.check_inv(inv, c, fid, k + 1, items, False, "is preserved")
        leave = [x for x in new if x.kind != "continue" and not x.st.dead]
        self.frames.pop()
        self.close(fr)
        # ---- exits out of the loop
        parts, conds = [], []
        for x in leave:
            k0 = self.fresh("at", IntS)
            ps = [(k, k0)]
            e = St(list(st.pc), {}, {})
            for p in x.pc[base:]:
                e.assume(z3.substitute(p, *ps))
            conds.append(And(*e.pc[base:]))
            for kk, v in x.st.store.items():
                e.store[kk] = v if kk in st.store and v is st.store[kk] else self.lsub(v, ps)
            for kk, v in x.st.heap.items():
                base_m = st.heap.get(kk)
                e.heap[kk] = v if v is base_m or v is self.bases.get(kk) else self.hsub(v, ps)
            if x.kind == "break":
                parts.append((e, None))
            else:
                self.exits.append(Exit(x.kind, list(e.pc), e, self.lsub(x.value, ps) if x.value is not None else None, x.exc, x.line))
        # ---- normal end
        fin = self.fresh("finished", BoolS)
        self.fact(Implies(And(*st.pc), Or(fin, *conds)))
        end = st.fork(fin)
        self.havoc(end, st, changed, hchanged, self.idx(), "*")
        for kk, t in changed.items():
            if kk not in end.store:
                end.store[kk] = Poison(f"{kk[-1]} after a loop")
        if it is not None:
            for key in [("v", fid, x.id) for x in ast.walk(s.target) if isinstance(x, ast.Name)]:
                end.store[key] = Poison("loop variable after the loop")
        done = it.n if it is not None else self.fresh("rounds", IntS)
        if it is None:
            end.assume(done >= 0)
        self.check_inv(inv, end, fid, done, items, True, "")
        if it is None:
            end.assume(Not(self.cond(s.test, end, fid)))
        if parts:
            self.join_all(st, base, [(end, None)] + parts, len(self.exits))
        else:
            st.take(end)

    def s_For(self, s, st, fid):
        itv = self.eval(s.iter, st, fid)
        if st.dead:
            return
        it = self.iterable(st, itv)
        if st.dead:
            return
        cell = itv.o.cid if isinstance(itv, Py) and isinstance(itv.o, Cell) else None
        if id(s) in self.loop_inv:
            if s.orelse:
                raise Unsupported("for-else")
            self.invloop(s, it, st, fid, cell, self.loop_inv[id(s)])
            return
        if getattr(it, "built", None) is not None and self.spec_depth and not s.orelse:
            self.for_entries(s, it.built, st, fid)
            return
        if it.items is not None:
            self.unroll(s, it.items, st, fid)
            return
        n = z3.simplify(it.n)
        if z3.is_int_value(n) and n.as_long() <= 8:
            self.unroll(s, [it.get(z3.IntVal(i)) for i in range(max(0, n.as_long()))], st, fid)
            return
        if s.orelse:
            raise Unsupported("for-else")
        self.symloop(s, it, st, fid, cell)

    def unroll(self, s, items, st, fid):
        base, mark = len(st.pc), len(self.exits)
        brk = []
        cur = st.fork()
        keep = []
        for x in items:
            if cur.dead:
                break
            b1, m1 = len(cur.pc), len(self.exits)
            nxt = cur.fork()
            self.assign_to(s.target, x, nxt, fid)
            self.block(s.body, nxt, fid)
            new = self.exits[m1:]
            del self.exits[m1:]
            parts = [(nxt, None)]
            for e in new:
                if e.kind == "continue":
                    parts.append((e.st, None))
                elif e.kind == "break":
                    brk.append((e.st, None))
                else:
                    self.exits.append(e)
            if len(parts) == 1 and len(new) == 0:
                cur = nxt
                continue
            # exits that leave this iteration for good (including breaks) restrict the continuation
            gone = [e for e in new if e.kind != "continue"]
            saved = self.exits
            self.exits = saved[:m1] + gone
            self.join_all(cur, b1, parts, m1)
            self.exits = saved
        if s.orelse and not cur.dead:
            self.block(s.orelse, cur, fid)
        parts = [(cur, None)] + brk
        self.join_all(st, base, parts, mark)

    def widen(self, a, b):
        """type of a loop variable with initial value a and value b after an iteration (None: not a symbol)"""
        try:
            if a is None or isinstance(a, Poison):
                return None
            if isinstance(b, Poison) or isinstance(a, Py) or isinstance(b, Py):
                return None
            return join(a.ty, b.ty)
        except Unsupported:
            return None

    def changes(self, s, it, st, fid, cell):
        """the parts of the state that the loop changes, with their types"""
        n = it.n if it is not None else None
        # ---- which parts of the state change (probing)
        changed = {}          # store key -> type or None
        hchanged = {}
        escs = set()
        for _ in range(12):
            self.probe += 1
            c0 = self.count
            fr = Frame(z3.FreshConst(IntS, "k"), T)
            ne, no = len(self.exits), len(self.obligs)
            saved = [(f, len(f.facts), set(f.seen)) for f in self.frames]
            typed = set(self.typed)
            memo = dict(self.memo)
            fr.rng = And(0 <= fr.k, fr.k < n) if it is not None else 0 <= fr.k
            self.frames.append(fr)
            try:
                pre = st.fork(fr.rng)
                self.place(pre, st, changed, hchanged, fr.k)
                for x in escs:
                    pre.store[x] = B(True)
                start = pre.fork()
                if it is not None:
                    self.assign_to(s.target, it.get(fr.k), start, fid)
                else:
                    start.assume(self.cond(s.test, start, fid))
                if not start.dead:
                    self.block(s.body, start, fid)
                ends = [] if start.dead else [start]
                ends += [x.st for x in self.exits[ne:] if x.kind in ("continue", "break")]
            finally:
                self.frames.pop()
                self.probe -= 1
            del self.exits[ne:]
            del self.obligs[no:]
            for f, l, seen in saved:
                # type axioms of symbols stay (they are true of the symbols)
                keep = [x for x in f.facts[l:] if f is self.root and x.vars]
                f.facts[l:] = keep
                f.seen = seen
            self.memo = memo
            more = False
            for e in ends:
                for k in e.store.keys():
                    if k[0] in ("c", "esc", "a", "v", "e") and k[1] > c0:
                        continue
                    if k[0] == "esc":
                        if k not in pre.store:
                            escs.add(k)
                            more = True
                        continue
                    v = e.store[k]
                    p = pre.store.get(k)
                    if identical(p, v):
                        continue
                    if k in changed and p is None:
                        continue
                    t0 = changed.get(k, "new")
                    w = self.widen(p, v)
                    if t0 == "new" or t0 != w:
                        if w is None and t0 is None:
                            continue
                        if t0 == "new" or t0 is not None:
                            changed[k] = w
                            more = True
                for k in e.heap.keys():
                    a, b = self.heap(pre, k), self.heap(e, k)
                    if a is not b and k not in hchanged:
                        hchanged[k] = True
                        more = True
            if not more:
                break
        else:
            raise Unsupported("loop state does not stabilise")
        if cell is not None and ("c", cell) in changed:
            raise Unsupported("the list that is iterated over changes in the loop")
        return changed, hchanged, escs

    def symloop(self, s, it, st, fid, cell):
        n = it.n
        base = len(st.pc)
        outer_calls, self.hcalled = self.hcalled, set()
        changed, hchanged, escs = self.changes(s, it, st, fid, cell)
        # parts of the heap written by called functions: unknown in every iteration and afterwards
        unknown = [x for x in hchanged if x in self.hcalled]
        hchanged = {x: v for x, v in hchanged.items() if x not in self.hcalled}
        self.hcalled |= outer_calls
        # ---- one arbitrary iteration
        k = z3.FreshConst(IntS, "k")
        fr = Frame(k, And(0 <= k, k < n))
        ne = len(self.exits)
        self.frames.append(fr)
        pre = st.fork(0 <= k, k < n)
        holders = self.place(pre, st, changed, hchanged, k)
        self.unknown_heap(pre, st, unknown)
        for x in escs:
            pre.store[x] = B(True)
        post = pre.fork()
        b0 = len(pre.pc)
        self.assign_to(s.target, it.get(k), post, fid)
        self.block(s.body, post, fid)
        new = self.exits[ne:]
        del self.exits[ne:]
        conts = [(post, None)] + [(x.st, None) for x in new if x.kind == "continue"]
        leave = [x for x in new if x.kind != "continue"]
        self.exits.extend(leave)
        nxt = pre.fork()
        if all(c.dead for c, _ in conts):
            nxt.dead = True
        else:
            self.join_all(nxt, b0, conts, ne)
        del self.exits[ne:]
        leave = [x for x in leave if not x.st.dead]
        conds = [And(*x.pc[b0:]) for x in leave]
        anyexit = Or(*conds)
        fin = st.fork()
        final = {}
        self.cur_it = it
        if not nxt.dead:
            self.settle_all(nxt)
            for h in holders:
                final[h["id"]] = self.summarise(h, st, nxt, k, n)
        self.frames.pop()
        for h in holders:
            if h["id"] in final:
                final[h["id"]]["facts"](self)
        self.close(fr)
        rng = And(0 <= k, k < n)
        noexit = T
        if leave:
            # a symbol, so that it can be a premise without nesting quantifiers; its meaning is the two facts
            noexit = self.fresh("noexit", BoolS)
            self.fact(Implies(And(noexit, rng), Not(anyexit)), [k])
        # ---- exits out of the loop
        parts = []
        i2 = z3.FreshConst(IntS, "i")
        if leave:  # the first iteration that leaves the loop, in whatever way
            k0 = self.fresh("first", IntS)
            ps = [(k, k0)]
            before = forall([i2], Implies(And(0 <= i2, i2 < k0), z3.substitute(Not(anyexit), (k, i2))))
            self.fact(Implies(And(*st.pc, Not(noexit)), And(0 <= k0, k0 < n, before, z3.substitute(anyexit, *ps))))
        for x, c in zip(leave, conds):
            e = St(st.pc, {}, {})
            e.assume(And(0 <= k0, k0 < n))
            e.assume(z3.substitute(c, *ps))
            e.assume(before)
            for kk, v in x.st.store.items():
                e.store[kk] = v if kk in st.store and v is st.store[kk] else self.lsub(v, ps)
            for kk, v in x.st.heap.items():
                base_m = st.heap.get(kk)
                e.heap[kk] = v if v is base_m or v is self.bases.get(kk) else self.hsub(v, ps)
            if x.kind == "break":
                parts.append((e, None))
            else:
                self.exits.append(Exit(x.kind, list(e.pc), e, self.lsub(x.value, ps) if x.value is not None else None, x.exc, x.line))
        # ---- normal end
        end = st.fork(noexit)
        for x in escs:
            end.store[x] = B(True)
        if nxt.dead and not leave:
            end.dead = True
        if nxt.dead:
            # every iteration leaves: the loop ends normally only when there is none
            end.assume(n <= 0)
            for kk in changed:
                if kk not in st.store:
                    end.store[kk] = Poison(f"{kk[-1]} is not assigned when the loop does not run")
        else:
            for h in holders:
                v = final[h["id"]]["value"]
                if h["where"] == "store":
                    end.store[h["key"]] = v
                else:
                    end.heap[h["key"]] = v
            for kk, t in changed.items():
                if not any(h["where"] == "store" and h["key"] == kk for h in holders):
                    end.store[kk] = self.overwritten(kk, st, nxt, k, n)
            self.unknown_heap(end, st, unknown)
        if parts:
            self.join_all(st, base, [(end, None)] + parts, len(self.exits))
        else:
            st.take(end)

    def unknown_heap(self, state, st, keys):
        for key in keys:
            cs = self.hw[key]
            state.heap[key] = self.part_heap(self.heap(st, key), key, cs, self.fresh_name(f"heap:{key[0]}~"), self.idx(), cs & self.protected)

    def lsub(self, v, ps):
        if isinstance(v, (Py, Poison, NoneT)):
            return v
        return sub(v, ps)

    def hsub(self, m, ps):
        def get(r):
            fk, q = fresh_like(r)
            return sub(m.get(fk), list(ps) + q)
        return MapV("heap", None, m.vty, lambda r: T, get)

    def overwritten(self, key, st, nxt, k, n):
        """a variable that is assigned afresh in every iteration (or a mutable object)"""
        v = nxt.store.get(key)
        init = st.store.get(key)
        if v is None or isinstance(v, (Poison, Py)):
            return Poison(f"{key[-1]} after a loop")
        if init is None:
            # defined only if the loop ran
            return sub(v, [(k, n - 1)])
        if isinstance(init, (Poison, Py)):
            return Poison(f"{key[-1]} after a loop")
        return Poison(f"{key[-1]} after a loop")

    def place(self, pre, st, changed, hchanged, k):
        """put placeholders for the changing parts of the state into pre"""
        out = []
        for key, ty in changed.items():
            init = st.store.get(key)
            if init is None:
                pre.store.pop(key, None)
                continue
            if ty is None:
                pre.store[key] = Poison(f"{key[-1]} changes in a loop in an unsupported way")
                continue
            h = {"id": len(out), "where": "store", "key": key, "init": init, "ty": ty, "used": [False]}
            self.holder(h, k)
            pre.store[key] = h["ph"]
            out.append(h)
        for key in hchanged:
            init = self.heap(st, key)
            h = {"id": len(out), "where": "heap", "key": key, "init": init, "ty": None, "used": [False]}
            self.holder(h, k)
            pre.heap[key] = h["ph"]
            out.append(h)
        return out

    def holder(self, h, k):
        ix = self.idx()
        if not self.frames or self.frames[-1].k is not k:
            ix = [x for x in ix]
        outer = [x for x in ix if not x.eq(k)]
        nm = self.fresh_name(h["key"][-1] if isinstance(h["key"][-1], str) else str(h["key"][0]))
        h["name"], h["outer"] = nm, outer
        init, used = h["init"], h["used"]
        if isinstance(init, Lst):
            ety = h["ty"][1]
            def val(kk):
                def get(j):
                    used[0] = True
                    return self.fam(nm + "[]", ety, outer + [kk, j])
                nn = self.fn(nm + "#", outer + [kk], IntS)
                self.type_axiom(nm + "#", outer + [kk], nn, lambda t: t >= 0)
                return Lst(ety, nn, get)
            h["val"] = val
            h["ph"] = val(k)
            h["kind"] = "list"
        elif isinstance(init, Kids):
            h["ph"] = Kids([(T, Marker())])
            h["kind"] = "kids"
        elif isinstance(init, MapV):
            kty = h["ty"][1] if h["ty"] is not None else None
            vty = init.vty if h["where"] == "heap" else (h["ty"][2] if init.kind == "dict" else None)
            def val(kk):
                def has(x):
                    used[0] = True
                    ok, fx = keyform(x, kty)
                    return Or(init.has(x), And(ok, self.fn(nm + "@wr", outer + [kk] + fx, BoolS)) if fx is not None else F)
                def get(x):
                    used[0] = True
                    ok, fx = keyform(x, kty)
                    if fx is None:
                        return init.get(x)
                    w = And(ok, self.fn(nm + "@wr", outer + [kk] + fx, BoolS))
                    v = self.fam(nm + "@val", vty, outer + [kk] + fx)
                    if init.empty:
                        return v
                    o = merge(w, v, init.get(x))
                    if isinstance(o, Poison):
                        raise Unsupported(o.why)
                    return o
                return MapV(init.kind, kty, vty, has if h["where"] != "heap" else (lambda x: T), get)
            h["val"], h["kty"], h["vty"] = val, kty, vty
            h["ph"] = val(k)
            h["kind"] = "map"
        else:
            h["val"] = lambda kk: self.fam(nm, h["ty"], outer + [kk])
            h["ph"] = h["val"](k)
            h["kind"] = "scalar"

    # ---- closed forms
    def summarise(self, h, st, nxt, k, n):
        """called with the frame of the loop still open"""
        post = nxt.store.get(h["key"]) if h["where"] == "store" else self.heap(nxt, h["key"])
        if isinstance(post, Poison) or post is None:
            return {"value": Poison(f"{h['key'][-1]} after a loop"), "facts": lambda e: None}
        if isinstance(post, Py):
            return {"value": Poison(f"{h['key'][-1]} after a loop"), "facts": lambda e: None}
        return getattr(self, "sum_" + h["kind"])(h, post, k, n)

    def sum_scalar(self, h, post, k, n):
        init, ph = h["init"], h["ph"]
        nm, outer = h["name"], h["outer"]
        phd = {x.decl().name() for x in flat(ph)}
        pd = declnames(post)
        if not (phd & pd):
            # assigned afresh in every iteration
            v = merge(n > 0, sub(post, [(k, n - 1)]), init)

            def facts(e):
                kk = z3.FreshConst(IntS, "k")
                e.eqfact(h["val"](kk), merge(kk > 0, sub(post, [(k, kk - 1)]), init), [kk], And(0 <= kk, kk <= n), [kk])
            if isinstance(v, Poison):
                return {"value": v, "facts": lambda e: None}
            return {"value": v, "facts": facts}
        if isinstance(post, Sc) and post.ty == BOOL and isinstance(ph, Sc):
            t1 = z3.simplify(z3.substitute(post.t, (ph.t, T)))
            t0 = z3.substitute(post.t, (ph.t, F))
            if z3.is_true(t1) or self.valid(t1):
                c = t0

                def ex(kk):
                    i = z3.FreshConst(IntS, "i")
                    return z3.Exists([i], And(0 <= i, i < kk, z3.substitute(c, (k, i))))

                def facts(e):
                    kk = z3.FreshConst(IntS, "k")
                    v = h["val"](kk).t
                    i = z3.FreshConst(IntS, "i")
                    e.fact(Implies(And(0 <= kk, kk <= n), v == Or(init.t, ex(kk))), [kk], pats=[v])
                if z3.is_false(z3.simplify(c)):
                    return {"value": init, "facts": facts}
                return {"value": Sc(BOOL, Or(init.t, ex(n))), "facts": facts}
            t0s = z3.simplify(t0)
            if z3.is_false(t0s) or self.valid(Not(t0)):
                c = z3.substitute(post.t, (ph.t, T))

                def al(kk):
                    i = z3.FreshConst(IntS, "i")
                    return forall([i], Implies(And(0 <= i, i < kk), z3.substitute(c, (k, i))))

                def facts(e):
                    kk = z3.FreshConst(IntS, "k")
                    v = h["val"](kk).t
                    e.fact(Implies(And(0 <= kk, kk <= n), v == And(init.t, al(kk))), [kk], pats=[v])
                return {"value": Sc(BOOL, And(init.t, al(n))), "facts": facts}
        if isinstance(post, Sc) and post.ty == INT and isinstance(ph, Sc) and ph.ty == INT and isinstance(init, Sc):
            d = increment(post.t, ph.t)
            if d is not None and ph.t.decl().name() not in declnames(Sc(INT, d)):
                # a running sum
                at = lambda t: z3.substitute(d, (k, t))
                K = z3.Const("!J", IntS)
                m = nat(n)
                self.keep.append((m, at(K)))
                key = ("sum", m.get_id(), at(K).get_id()) + tuple(x.get_id() for x in outer)
                old = self.memo.get(key)
                fnm = old[0] if old is not None else self.fresh_name("sum")

                def facts(e):
                    if key not in e.memo:
                        e.memo[key] = (fnm, m, at(K))
                        e.define_sum(fnm, outer, m, at)
                    kk = z3.FreshConst(IntS, "k")
                    v = h["val"](kk).t
                    e.fact(Implies(And(0 <= kk, kk <= n), v == init.t + e.fn(fnm, outer + [kk], IntS)), [kk], pats=[v])
                r = self.fn(fnm, outer + [m], IntS)
                return {"value": Sc(INT, r if z3.is_int_value(init.t) and init.t.as_long() == 0 else init.t + r), "facts": facts}
        out = self.sum_extreme(h, post, k, n)
        if out is not None:
            return out
        # the last write
        keep = T
        pf, hf = flat(post), flat(ph)
        if len(pf) == len(hf):
            for a, b in zip(pf, hf):
                keep = And(keep, keeps(a, b))
        else:
            keep = F
        keep = z3.simplify(keep)
        write = Not(keep)
        if z3.is_true(keep):
            return {"value": init, "facts": lambda e: e.eqfact(h["val"](kk := z3.FreshConst(IntS, "k")), init, [kk], And(0 <= kk, kk <= n), [kk])}

        def facts(e):
            e.eqfact(h["val"](z3.IntVal(0)), init, [], T, [])
            if not z3.is_false(keep):
                kk, i = z3.FreshConst(IntS, "k"), z3.FreshConst(IntS, "i")
                wr = lambda t: e.fn(nm + "@wr", outer + [t], BoolS)
                W = lambda t: e.fn(nm + "@w", outer + [t], IntS)
                C = lambda t: z3.substitute(write, (k, t))
                e.fact(Implies(And(0 <= kk, kk <= n, wr(kk)), And(0 <= W(kk), W(kk) < kk, C(W(kk)))), [kk], pats=[wr(kk)])
                e.fact(Implies(And(0 <= i, i < kk, kk <= n, C(i)), And(wr(kk), W(kk) >= i)), [kk, i], pats=None)
                e.fact(Implies(And(0 <= i, i < n, C(i)), And(wr(nat(n)), W(nat(n)) >= i)), [i])
                v = h["val"](kk)
                e.eqfact(v, init, [kk], And(0 <= kk, kk <= n, Not(wr(kk))), [kk])
                e.eqfact(v, sub(post, [(k, W(kk))]), [kk], And(0 <= kk, kk <= n, wr(kk)), [kk])
                return
            kk = z3.FreshConst(IntS, "k")
            e.eqfact(h["val"](kk), sub(post, [(k, kk - 1)]), [kk], And(0 < kk, kk <= n), [kk])
        if not z3.is_false(keep):
            last = self.fn(nm + "@w", outer + [nat(n)], IntS)
            v = merge(self.fn(nm + "@wr", outer + [nat(n)], BoolS), sub(post, [(k, last)]), init)
            if not isinstance(v, Poison):
                return {"value": v, "facts": facts}
        return {"value": h["val"](nat(n)), "facts": facts}

    def valid(self, t):
        if z3.is_quantifier(t):
            return False
        s = z3.Solver()
        s.set("timeout", 100)
        s.add(z3.Not(t))
        return s.check() == z3.unsat

    def eqfact(self, a, b, vs, guard, pv):
        """for all vs: guard -> a = b   (values of scalar shape)"""
        if isinstance(b, Poison):
            return

        def go(a, b):
            if isinstance(a, Opt) or isinstance(b, (Opt, NoneT)):
                na, va = as_opt(a)
                nb, vb = as_opt(b)
                self.fact(Implies(guard, na == nb), vs, pats=[na] if vs and not z3.is_const(na) else None)
                if va is not None and vb is not None:
                    go2(va, vb, Not(nb))
                return
            go2(a, b, T)

        def go2(a, b, g):
            for x, y in zip(flat(a), flat(b)):
                if x.sort() == y.sort():
                    ok = vs and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args()
                    self.fact(Implies(And(guard, g), x == y), vs, pats=[x] if ok else None)
        go(a, b)

    def sum_list(self, h, post, k, n):
        init, ph = h["init"], h["ph"]
        if not isinstance(post, Lst):
            return {"value": Poison("list after a loop"), "facts": lambda e: None}
        root, ext = chain(post)
        if root is not ph or ext is None:
            if root is ph and ext is None:
                return {"value": init, "facts": lambda e: None}
            raise Unsupported(f"{h['key'][-1]}: list rebuilt inside a loop")
        m = z3.simplify(ext.n)
        nn = nat(n)
        if z3.is_int_value(m) and m.as_long() == 1 or ext.items is None and self.valid(m == 1):
            if ext.items is not None:
                x = ext.items[0]
            else:
                x = ext.get(z3.IntVal(0))

            it = self.cur_it

            def part(kk):
                r = Lst(ext.ety, kk, lambda j: sub(x, [(k, j)]))
                r.source = it
                return r
            val = lambda kk: concat(init, part(kk)) if init.items != [] else part(kk)

            def facts(e):
                self.list_facts(e, h, val, n)
                if not h["used"][0] or init.items != []:
                    return
                # an element added in an earlier iteration is there
                a, kk = z3.FreshConst(IntS, "a"), z3.FreshConst(IntS, "k")
                p = h["val"](kk)
                pts = [t for t in trigger_terms(it, a) if mentions(t, [a])]
                pa = auto_patterns([a], And(*[t == t for t in pts])) if pts else None
                try:
                    fx, fy = flat(p.get(a)), flat(sub(x, [(k, a)]))
                except Unsupported:
                    return
                if pa and len(fx) == len(fy) and all(u.sort() == w.sort() for u, w in zip(fx, fy)):
                    e.fact(Implies(And(0 <= a, a < kk, kk <= n), And(*[u == w for u, w in zip(fx, fy)])), [kk, a], pats=[z3.MultiPattern(p.n, t) for t in pa])
            out = val(nn)
            return {"value": out, "facts": facts}
        # general: block k contributes m(k) elements
        ix = h["outer"]
        K = z3.Const("!K", IntS)
        key = None
        try:
            key = ("off", n.get_id(), z3.substitute(m, (k, K)).get_id(), tuple(o.get_id() for o in ix))
        except Exception:
            pass
        shared = self.memo.get(key)
        if shared is None:
            nm = self.fresh_name("blk")
            self.memo[key] = (nm, n, z3.substitute(m, (k, K)))
            self.same_blocks(nm, ix, z3.simplify(n), lambda t: z3.substitute(m, (k, t)), k)
        else:
            nm = shared[0]
        off = lambda kk: self.fn(nm + "@off", ix + [kk], IntS)
        src = lambda j: self.fn(nm + "@src", ix + [j], IntS)
        inn = lambda j: self.fn(nm + "@in", ix + [j], IntS)  # the place in its part: j - off(src(j))
        pos = lambda a, i: self.fn(nm + "@pos", ix + [a, i], IntS)  # off(a) + i
        at_pos = lambda a, i: And(pos(a, i) == off(a) + i, 0 <= pos(a, i), pos(a, i) < total, src(pos(a, i)) == a, inn(pos(a, i)) == i)
        total = off(nn)
        cond01 = self.cond01(m)

        def elem(j):
            if cond01 is not None:
                return sub(ext.get(z3.IntVal(0)), [(k, src(j))])
            return sub(ext.get(inn(j)), [(k, src(j))])

        def part(kk):
            return Lst(ext.ety, off(kk), elem)
        val = lambda kk: concat(init, part(kk)) if init.items != [] else part(kk)
        it = self.cur_it

        def facts(e):
            if shared is None:
                for o, piece in pieces(it):
                    i = z3.FreshConst(IntS, "i")
                    a = z3.simplify(o + i)
                    pts = [t for t in trigger_terms(piece, i) if mentions(t, [i])]
                    if not pts:
                        continue
                    pt = auto_patterns([i], And(*[t == t for t in pts]))
                    if not pt:
                        continue
                    if cond01 is not None:
                        c = z3.simplify(z3.substitute(cond01, (k, a)))
                        e.fact(Implies(And(0 <= i, i < piece.n, c), And(off(a) < total, off(a) >= 0, src(off(a)) == a)), [i], pats=pt)
                    else:
                        b = z3.FreshConst(IntS, "b")
                        e.fact(Implies(And(0 <= i, i < piece.n, 0 < z3.substitute(m, (k, a))), And(0 <= off(a), off(a) < total, at_pos(a, z3.IntVal(0)))), [i], pats=pt)
                        e.fact(Implies(And(0 <= i, i < piece.n, 0 <= b, b < z3.substitute(m, (k, a))), at_pos(a, b)), [i, b], pats=None)
                a, b, j, i = [z3.FreshConst(IntS, x) for x in "abji"]
                M = lambda t: z3.substitute(m, (k, t))
                e.fact(off(z3.IntVal(0)) == 0)
                e.fact(off(nn) >= 0)
                if cond01 is not None:
                    C = lambda t: z3.substitute(cond01, (k, t))
                    e.fact(Implies(And(0 <= a, a < n), off(a) >= 0), [a], pats=[off(a)])
                    pc = auto_patterns([a], C(a))
                    e.fact(Implies(And(0 <= a, a < n, C(a)), And(off(a) < total, off(a) >= 0, src(off(a)) == a)), [a], pats=pc or None)
                    e.fact(Implies(And(0 <= j, j < total), And(0 <= src(j), src(j) < n, C(src(j)), off(src(j)) == j)), [j], pats=[src(j)])
                    mono = Implies(And(0 <= a, a < b, b <= n), And(off(a) <= off(b), Implies(C(a), off(a) < off(b))))
                    e.fact(mono, [a, b], pats=[z3.MultiPattern(off(a), h["val"](b).n)])
                    if pc:  # triggered by the condition only: off(a + 1) must not trigger itself
                        e.fact(Implies(And(0 <= a, a < n), off(a + 1) == off(a) + If(C(a), z3.IntVal(1), z3.IntVal(0))), [a], pats=pc)
                    e.fact(Implies(And(0 <= i, i < j, j < total), src(i) < src(j)), [i, j], pats=[z3.MultiPattern(src(i), src(j))])
                else:
                    pi = p0 = None
                    try:
                        pi = auto_patterns([a, i], And(*[t == t for t in flat(sub(ext.get(i), [(k, a)]))]))
                        p0 = auto_patterns([a], And(*[t == t for t in flat(sub(ext.get(z3.IntVal(0)), [(k, a)]))]))
                    except Unsupported:
                        pass
                    e.fact(Implies(And(0 <= a, a < n), And(0 <= off(a), off(a) + M(a) <= total)), [a], pats=[off(a)])
                    for c, o, leaf in leaves(ext):
                        if z3.is_int_value(o) and o.as_long() == 0:
                            continue
                        # the elements of a part that does not come first
                        try:
                            pl = auto_patterns([a, i], And(*[t == t for t in flat(sub(leaf.get(i), [(k, a)]))]))
                        except Unsupported:
                            continue
                        if pl:
                            c, o, m2 = [z3.substitute(t, (k, a)) for t in (c, o, leaf.n)]
                            e.fact(Implies(And(0 <= a, a < n, c, 0 <= i, i < m2), And(0 <= off(a), at_pos(a, o + i))), [a, i], pats=pl)
                    e.fact(Implies(And(0 <= a, a < n, 0 <= i, i < M(a)), at_pos(a, i)), [a, i], pats=pi)
                    e.fact(Implies(And(0 <= a, a < n, 0 < M(a)), at_pos(a, z3.IntVal(0))), [a], pats=p0)
                    e.fact(Implies(And(0 <= j, j < total), And(0 <= src(j), src(j) < n, off(src(j)) <= j, j < off(src(j)) + M(src(j)), inn(j) == j - off(src(j)), pos(src(j), inn(j)) == j)), [j], pats=[src(j)])
                    e.fact(Implies(And(0 <= a, a < b, b <= n), And(off(a) + M(a) <= off(b))), [a, b], pats=[z3.MultiPattern(off(a), h["val"](b).n)])
                    e.fact(Implies(And(0 <= i, i < j, j < total), src(i) <= src(j)), [i, j], pats=[z3.MultiPattern(src(i), src(j))])
            self.list_facts(e, h, val, n)
            if cond01 is not None and h["used"][0]:
                # an element added in an earlier iteration is there
                a, kk = z3.FreshConst(IntS, "a"), z3.FreshConst(IntS, "k")
                p = h["val"](kk)
                at = off(a) if init.items == [] else init.n + off(a)
                g = And(0 <= a, a < kk, kk <= n, z3.substitute(cond01, (k, a)))
                pt = [z3.MultiPattern(p.n, off(a))]
                e.fact(Implies(g, at < p.n), [kk, a], pats=pt)
                x, y = p.get(at), sub(ext.get(z3.IntVal(0)), [(k, a)])
                try:
                    fx, fy = flat(x), flat(y)
                except Unsupported:
                    fx = fy = []
                if len(fx) == len(fy) and all(u.sort() == w.sort() for u, w in zip(fx, fy)):
                    e.fact(Implies(g, And(*[u == w for u, w in zip(fx, fy)])), [kk, a], pats=pt)
        return {"value": val(nn), "facts": facts}

    def same_blocks(self, nm, ix, n, m, k):
        """blocks of the same number and of equal lengths start at equal places (by induction): for every earlier list of that shape"""
        self.alike(self.blocks, nm, ix, n, m, k, ("@off",), ("@src", "@in"))

    def sum_extreme(self, h, post, k, n):
        """a running maximum or minimum of integers, starting at an integer or at None"""
        init, ph = h["init"], h["ph"]
        none = lambda v: v.n if isinstance(v, Opt) else T if isinstance(v, NoneT) else F
        num = lambda v: v.v.t if isinstance(v, Opt) else z3.IntVal(0) if isinstance(v, NoneT) else v.t
        if any(not isinstance(v.v if isinstance(v, Opt) else v, Sc) or (v.v if isinstance(v, Opt) else v).ty != INT for v in (post, ph)):
            return None
        x0 = init.v if isinstance(init, Opt) else init
        if not (isinstance(x0, NoneT) or isinstance(x0, Sc) and x0.ty == INT):
            return None
        a, p = num(post), num(ph)
        if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE):
            return None
        x = a.arg(1) if a.arg(2).eq(p) else a.arg(2) if a.arg(1).eq(p) else None
        own = {t.decl().name() for t in flat(ph)}
        if x is None or own & declnames(Sc(INT, x)):
            return None
        for better in (lambda u, w: u > w, lambda u, w: u < w):
            if self.valid(And(Not(none(post)), a == If(Or(none(ph), better(x, p)), x, p))):
                break
        else:
            return None
        at = lambda t: z3.substitute(x, (k, t))
        nm, outer = h["name"], h["outer"]

        def facts(e):
            kk, i = z3.FreshConst(IntS, "k"), z3.FreshConst(IntS, "i")
            v = h["val"](kk)
            w = e.fn(nm + "@w", outer + [kk], IntS)
            rng = And(0 <= kk, kk <= n)
            if isinstance(v, Opt):
                e.fact(Implies(rng, v.n == And(none(init), kk <= 0)), [kk], pats=[v.n])
            e.fact(Implies(And(rng, Not(none(v))), Or(And(Not(none(init)), num(v) == num(init)), And(0 <= w, w < kk, num(v) == at(w)))), [kk], pats=[num(v)])
            e.fact(Implies(And(rng, Not(none(init))), Not(better(num(init), num(v)))), [kk], pats=[num(v)])
            e.fact(Implies(And(0 <= i, i < kk, kk <= n), Not(better(at(i), num(v)))), [kk, i])
        return {"value": h["val"](nat(n)), "facts": facts}

    def define_sum(self, nm, ix, n, at):
        """nm(k) is the sum of at(0), ..., at(k - 1)"""
        S = lambda t: self.fn(nm, ix + [t], IntS)
        a = z3.FreshConst(IntS, "k")
        self.fact(S(z3.IntVal(0)) == 0)
        self.fact(Implies(And(0 < a, a <= n), S(a) == S(a - 1) + at(a - 1)), [a], pats=[S(a)])
        self.alike(self.sums, nm, ix, z3.simplify(n), at, a, ("",), ())

    def alike(self, known, nm, ix, n, m, k, upto, inside):
        """accumulations of equal parts are equal (by induction): functions `upto` of a number of parts, `inside` of a place in the whole"""
        rng = [f.rng for f in self.frames if not z3.is_true(f.rng) and not mentions(f.rng, [k]) and not any(v.eq(k) for v in f.vs)]
        new = (nm, ix, n, m, rng)
        for old in known:
            for one, two in ((new, old), (old, new)):
                # the lists of `two`, for any values of its variables, match the one of `one`
                sub = match_term(two[2], one[2], two[1])
                if sub is None or len(sub) != len(two[1]):
                    continue
                sub = [(v, sub[v.get_id()]) for v in two[1]]
                at = [b for _, b in sub]
                inst = lambda t: z3.substitute(t, *sub) if sub else t
                vs, n1, m1, nm1 = one[1], one[2], one[3], one[0]
                sk = self.fn(self.fresh_name("differ"), vs, IntS)
                f1, f2 = (lambda x, t: self.fn(nm1 + x, vs + [t], IntS)), (lambda x, t: self.fn(two[0] + x, at + [t], IntS))
                guards = list(one[4]) + [inst(g) for g in two[4]]
                differ = And(0 <= sk, sk < n1, Not(m1(sk) == inst(two[3](sk))))
                a = z3.FreshConst(IntS, "a")
                for x in upto:
                    self.axioms.append(Fact(Or(differ, f1(x, a) == f2(x, a)), vs + [a], guards + [0 <= a, a <= n1], [f1(x, a), f2(x, a)]))
                if inside:
                    self.axioms.append(Fact(Or(differ, And(*[f1(x, a) == f2(x, a) for x in inside])), vs + [a], guards + [0 <= a, a < f1(upto[0], n1)], [f1(inside[0], a), f2(inside[0], a)]))
                break
        known.append(new)

    def cond01(self, m):
        """condition c if m is 1 when c and else 0"""
        if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_ITE:
            a, b = m.arg(1), m.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b):
                if a.as_long() == 1 and b.as_long() == 0:
                    return m.arg(0)
                if a.as_long() == 0 and b.as_long() == 1:
                    return Not(m.arg(0))
        # nested if-then-else of 0 and 1
        leaves = set()

        def walk(t):
            if z3.is_int_value(t):
                leaves.add(t.as_long())
                return True
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                return walk(t.arg(1)) and walk(t.arg(2))
            return False
        if walk(m) and leaves <= {0, 1}:
            return m == 1
        return None

    def list_facts(self, e, h, val, n):
        """what the placeholder list is at the start of iteration kk"""
        if not h["used"][0]:
            kk = z3.FreshConst(IntS, "k")
            p, v = h["val"](kk), val(kk)
            e.fact(Implies(And(0 <= kk, kk <= n), p.n == v.n), [kk], pats=[p.n])
            return
        kk, j = z3.FreshConst(IntS, "k"), z3.FreshConst(IntS, "j")
        p, v = h["val"](kk), val(kk)
        e.fact(Implies(And(0 <= kk, kk <= n), p.n == v.n), [kk], pats=[p.n], seed=kk)
        a, b = p.get(j), v.get(j)
        e.eqfact(a, b, [kk, j], And(0 <= kk, kk <= n, 0 <= j, j < v.n), [kk, j])

    def sum_map(self, h, post, k, n):
        init, ph = h["init"], h["ph"]
        root, ws = mapchain(post)
        if root is not ph:
            raise Unsupported(f"{h['key'][-1]}: set or dict rebuilt inside a loop")
        nm, outer = h["name"], h["outer"]
        nn = nat(n)
        val = h["val"]

        def facts(e):
            if not ws:
                return
            kk, i = z3.FreshConst(IntS, "k"), z3.FreshConst(IntS, "i")
            for g, key, v in ws:
                gi = z3.substitute(g, (k, i))
                if isinstance(key, Layer):
                    ki, cs, gs = e.bound_value("x", key.ty)
                    hit = z3.substitute(key.match(ki), (k, i))
                    xs = cs
                    hp = [hit] if z3.is_app(hit) and hit.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(mentions(hit, [y]) for y in xs + [i]) else None
                else:
                    ki, xs, hit, hp = sub(key, [(k, i)]), [], T, None
                ok, fx = keyform(ki, h["kty"])
                if fx is None:
                    raise Unsupported("key of another type")
                if not isinstance(key, Layer):
                    fx = [self.named_key(e, outer, t, i, n) for t in fx]
                wr = e.fn(nm + "@wr", outer + [kk] + fx, BoolS)
                W = e.fn(nm + "@w", outer + [kk] + fx, IntS)
                if not z3.is_true(ok):
                    raise Unsupported("optional key")
                c = And(gi, hit)
                ps = self.wpats(kk, i, wr, gi, ki)
                if hp is not None:
                    ps = [(hit, wr)]
                e.fact(Implies(And(0 <= i, i < kk, kk <= n, c), And(wr, W >= i)), [kk, i] + xs, pats=ps)
                # the final map is what is used after the loop: instantiate at kk = n
                wr2 = z3.substitute(wr, (kk, nn))
                W2 = z3.substitute(W, (kk, nn))
                e.fact(Implies(And(0 <= i, i < n, c), And(wr2, W2 >= i)), [i] + xs, pats=hp)
            if h["kty"] is not None or isinstance(ws[0][1], Layer):
                x, xs, gs = e.bound_value("x", h["kty"] or ws[0][1].ty)
            else:
                x, ps = fresh_like(ws[0][1])
                xs = [p[0] for p in ps]
            wr = e.fn(nm + "@wr", outer + [kk] + xs, BoolS)
            W = e.fn(nm + "@w", outer + [kk] + xs, IntS)
            alts = []
            for g, key, v in ws:
                if isinstance(key, Layer):
                    alts.append(z3.substitute(And(g, key.match(x)), (k, W)))
                else:
                    alts.append(And(z3.substitute(g, (k, W)), eq(sub(key, [(k, W)]), x)))
            e.fact(Implies(And(0 <= kk, kk <= n, wr), And(0 <= W, W < kk, Or(*alts))), [kk] + xs, pats=[wr])
            if init.kind != "set":
                v = None
                for (g, key, w), c in zip(ws, alts):
                    w = sub(wval(key, w, x), [(k, W)])
                    v = w if v is None else merge(c, w, v)
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                try:
                    a = e.fam(nm + "@val", h["vty"], outer + [kk] + xs)
                    e.eqfact(a, v, [kk] + xs, And(0 <= kk, kk <= n, wr), None)
                except Unsupported:
                    e.deepfact(a, v, [kk] + xs, And(0 <= kk, kk <= n, wr))
        out = val(nn)
        if not ws:
            return {"value": init, "facts": facts}
        kty = h["kty"] if h["where"] != "heap" else ws[0][1].ty
        def hit(x):
            ok, fx = keyform(x, kty)
            return And(ok, self.fn(nm + "@wr", outer + [nn] + fx, BoolS)) if fx is not None else F
        lay = Layer(kty, h["vty"], hit, lambda x: self.fam(nm + "@val", h["vty"], outer + [nn] + keyform(x, kty)[1]))
        out.root, out.writes = init, ((T, lay, None),)
        return {"value": out, "facts": facts}

    def named_key(self, e, outer, t, i, n):
        """t(i) as one application, so that it can occur in a pattern"""
        if not mentions(t, [i]) or any(c.eq(t) for c in auto_patterns([i], t == t) or []):
            return t
        key = e.fn(self.fresh_name("key"), outer + [i], t.sort())
        e.fact(Implies(And(0 <= i, i < n), key == t), [i], pats=auto_patterns([i], t == t))
        return key

    def wpats(self, kk, i, wr, gi, ki):
        return [wr] if mentions(wr, [i]) else None

    def deepfact(self, a, b, vs, guard):
        """equality of values that contain lists"""
        if isinstance(a, Opt) or isinstance(b, (Opt, NoneT)):
            na, va = as_opt(a)
            nb, vb = as_opt(b)
            self.fact(Implies(guard, na == nb), vs)
            if va is not None and vb is not None:
                self.deepfact(va, vb, vs, And(guard, Not(nb)))
            return
        if isinstance(a, Lst) and isinstance(b, Lst):
            self.fact(Implies(guard, a.n == b.n), vs, pats=[a.n])
            j = z3.FreshConst(IntS, "j")
            try:
                x, y = a.get(j), b.get(j)
            except Unsupported:
                return
            self.deepfact(x, y, vs + [j], And(guard, 0 <= j, j < b.n))
            return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for x, y in zip(a.items, b.items):
                self.deepfact(x, y, vs, guard)
            return
        if isinstance(a, (MapV, Py)) or isinstance(b, (MapV, Py)):
            return
        self.eqfact(a, b, vs, guard, None)
