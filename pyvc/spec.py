"""Contracts (mixin of engine.Engine): parsing of /verif/contracts/*.py, modular calls, specification forms."""
import ast
import os
import re
import z3
from .src import Unsupported, ClassInfo, FuncInfo, Module, _deco_names
from .vals import *
from .engine import Engine, auto_patterns, Exit, St, Fact, Frame, LocalObj, Cell, forall, mentions, has_quant


class Contract:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.attrs, self.methods = {}, {}
        for s in node.body:
            if isinstance(s, ast.Assign):
                self.attrs[s.targets[0].id] = self.literal(s.value)
            elif isinstance(s, ast.FunctionDef):
                self.methods[s.name] = s
        a = self.attrs
        self.target = a["target"]
        self.args = a.get("args")
        self.types = a.get("types", {})
        self.returns = a.get("returns")
        self.may_raise = tuple(a.get("may_raise", ()))
        self.pure = a.get("pure", False)
        self.trusted = a.get("trusted")
        self.self_attrs = a.get("self_attrs", {})
        self.ghost_attrs = a.get("ghost_attrs", {})
        self.modifies = tuple(tuple(m.split(".")) if isinstance(m, str) else m for m in a.get("modifies", ()))
        self.warns = a.get("warns", "any")
        self.inline = a.get("inline", False)
        self.result_tag = a.get("result_tag")   # the result is a new XML element of this name
        self.consumes = tuple(a.get("consumes", ()))   # list parameters the function may change; worthless to the caller afterwards
        self.props = tuple(a.get("props", ()))
        self.requires = self.methods.get("requires")
        self.raises = {n[len("raises_"):]: m for n, m in self.methods.items() if n.startswith("raises_")}
        # necessary condition of an exception; it may still not happen
        self.only = {n[len("only_raises_"):]: m for n, m in self.methods.items() if n.startswith("only_raises_")}
        self.ensures = {n: m for n, m in self.methods.items() if re.match(r"C\d\d", n) or n.startswith("ensures")}

    def literal(self, e):
        """literals, names of constants of the module, concatenations"""
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.literal(e.left) + self.literal(e.right)
        if isinstance(e, ast.Name):
            return self.literal(next(x.value for x in self.module.tree.body if isinstance(x, ast.Assign) and x.targets[0].id == e.id))
        return ast.literal_eval(e)

    def ids(self, mname):
        got = tuple(re.findall(r"C\d\d", mname))
        return got or self.props

    def all_props(self):
        out = set(self.props)
        for m in list(self.ensures) + list(self.raises) + list(self.only):
            out |= set(self.ids(m))
        return out


class SpecModule:
    """contract file; looks like src.Module to the engine"""

    def __init__(self, path):
        self.name = "contracts." + os.path.basename(path)[:-3]
        self.path = path
        self.text = open(path).read()
        self.tree = ast.parse(self.text, path)
        self.defs, self.contracts = {}, []
        for st in self.tree.body:
            if isinstance(st, ast.ClassDef):
                if any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "target" for x in st.body):
                    self.contracts.append(Contract(st, self))
            elif isinstance(st, ast.FunctionDef):
                f = FuncInfo(st.name, self, None, st, "plain")
                f.spec = True
                f.ghost = "ghost" in _deco_names(st)
                self.defs[st.name] = f
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.defs[a.asname or a.name] = ("import", st.module, a.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                self.defs[st.targets[0].id] = ("const", st.value)


def specmodule_as_module(sm):
    m = Module.__new__(Module)
    m.__dict__.update(sm.__dict__)
    sm.mod = m
    for d in sm.defs.values():
        if isinstance(d, FuncInfo):
            d.module = m
    for c in sm.contracts:
        c.module = m
    return m


def load(dirpath):
    mods, cons = {}, {}
    for f in sorted(os.listdir(dirpath)):
        if f.endswith(".py") and f.startswith("c_"):
            sm = SpecModule(os.path.join(dirpath, f))
            m = specmodule_as_module(sm)
            mods[sm.name] = m
            mods[f[:-3]] = m
            for c in sm.contracts:
                if c.target in cons:
                    raise Unsupported(f"two contracts for {c.target}")
                cons[c.target] = c
    return mods, cons


class Spec:
    # ---------------------------------------------------------------- specification forms
    def spec_implies(self, e, st, fid):
        a = self.cond(e.args[0], st, fid)
        s = st.fork(a)
        return B(Implies(a, self.cond(e.args[1], s, fid)))

    def spec_iff(self, e, st, fid):
        return B(self.cond(e.args[0], st, fid) == self.cond(e.args[1], st, fid))

    def spec_old(self, e, st, fid):
        p = self.pre
        if p is None:
            raise Unsupported("old outside of a postcondition")
        s = St(st.pc, st.store, p.heap)
        for k, v in p.store.items():
            if k[0] in ("a", "c", "warn"):
                s.store[k] = v
        return self.eval(e.args[0], s, fid)

    def spec_warned(self, e, st, fid):
        return st.store.get(("warn",), B(False))

    def spec_distinct(self, e, st, fid):
        l = self.iterable(st, self.eval(e.args[0], st, fid))
        f = self.eval(e.args[1], st, fid) if len(e.args) > 1 else None
        g = (lambda v: self.call(st, f, [v], {}, e)) if f is not None else (lambda v: v)
        if l.items is not None:
            vs = [g(x) for x in l.items]
            return B(And(*[Not(eq(vs[i], vs[j])) for i in range(len(vs)) for j in range(i)]))
        i, j = z3.FreshConst(IntS, "i"), z3.FreshConst(IntS, "j")
        x, y = self.under([i, j], [0 <= i, i < j, j < l.n], lambda: (g(l.get(i)), g(l.get(j))))
        pats = None
        return B(forall([i, j], Implies(And(0 <= i, i < j, j < l.n), Not(eq(x, y))), pats))

    def spec_forall_int(self, e, st, fid):
        """forall_int(lambda i: ...)"""
        lam = e.args[0]
        f2 = self.new_scope(fid, self.scopes[fid][1], self.scopes[fid][2])
        vs = []
        s = st.fork()
        for a in lam.args.args:
            v = z3.FreshConst(IntS, a.arg)
            vs.append(v)
            s.store[("v", f2, a.arg)] = Sc(INT, v)
        return B(forall(vs, self.under(vs, [], lambda: self.cond(lam.body, s, f2))))

    def under(self, vs, guards, f):
        """evaluates a body that may depend on the variables: the symbols it introduces are functions of them"""
        fr = Frame(None, And(*guards), vs)
        self.frames.append(fr)
        r = f()
        self.frames.pop()
        self.close(fr)
        return r

    def spec_forall(self, e, st, fid):
        """forall("Register", lambda x: ...): every object of the type"""
        ty = self.type_of(ast.parse(ast.literal_eval(e.args[0]), mode="eval").body, self.scopes[fid][1])
        lam = e.args[1]
        f2 = self.new_scope(fid, self.scopes[fid][1], self.scopes[fid][2])
        v, cs, g = self.bound_value(lam.args.args[0].arg, ty)
        s = st.fork(*g)
        s.store[("v", f2, lam.args.args[0].arg)] = v
        return B(forall(cs, Implies(And(*g), self.under(cs, g, lambda: self.cond(lam.body, s, f2)))))

    def spec_int_reads(self, e, st, fid):
        """int(s, base) accepts the text"""
        v, b = [self.eval(a, st, fid) for a in e.args]
        if b.t.as_long() == 10:
            return B(self.isint(v.t))
        return B(z3.Function("is_int_literal_base", StrS, IntS, BoolS)(v.t, b.t))

    def spec_int_read(self, e, st, fid):
        """int(s, base) where it accepts the text"""
        v, b = [self.eval(a, st, fid) for a in e.args]
        if b.t.as_long() == 10:
            return Sc(INT, self._ios(v.t))
        return Sc(INT, z3.Function("int_of_str_base", StrS, IntS, IntS)(v.t, b.t))

    def spec_allocated(self, e, st, fid):
        v = self.eval(e.args[0], st, fid)
        if self.call_site is not None:
            return B(self.made_at(v.t, self.call_site))
        return B(self.site(v.t) > 0)

    # ---------------------------------------------------------------- ghost definitions
    def call_ghost(self, st, f, args):
        if self.call_site is None and any(isinstance(v, Ref) and self.built_of(v) is not None for v in args):
            return Engine.call_func(self, st, f, args, {}, None)   # about an element made here: what the definition says
        ps = f.node.args.args
        mod = f.module
        nm = f"ghost:{f.name}/{mod.name.split('.')[-1]}"
        tys = [self.type_of(a.annotation, mod) for a in ps]
        rty = self.type_of(f.node.returns, mod)
        arbitrary = len(f.node.body) <= 2 and isinstance(f.node.body[-1], ast.Expr) and isinstance(f.node.body[-1].value, ast.Constant) and f.node.body[-1].value.value is ...
        if not arbitrary:
            if nm not in self.ghost_reads:
                self.ghost_reads[nm] = set()
                self.define_ghost(f, nm, ps, tys, rty, {})
            if self.ghost_trace:
                for t in self.ghost_trace:
                    t |= self.ghost_reads[nm]
            # the values in the heap of this state, where they were written
            reads = {}
            for k, c in self.ghost_reads[nm]:
                if k in st.heap:
                    reads.setdefault(k, set()).add(c)
            heap = {k: self.relevant(st.heap[k], reads[k]) for k in sorted(reads, key=str)}
            heap = {k: m for k, m in heap.items() if m is not self.heap_base(k)}
            if heap:
                ver = (nm, tuple((k, id(m)) for k, m in heap.items()))
                if ver not in self.ghost_versions:
                    if nm in self.defining or self.depends(heap, self.idx()):
                        raise Unsupported(f"ghost {f.name} over objects changed in a loop")
                    n2 = f"{nm}@{len(self.ghost_versions)}"
                    self.ghost_versions[ver] = (n2, heap)
                    self.define_ghost(f, n2, ps, tys, rty, heap)
                nm = self.ghost_versions[ver][0]
        # an optional argument of a required parameter: its value (unspecified when absent, as any value of the predicate there)
        args = [v.v if isinstance(v, Opt) and ty[0] != "opt" else Opt(F, v) if isinstance(v, (Sc, Ref)) and ty[0] == "opt" else v for v, ty in zip(args, tys)]
        res = self.fam(nm, rty, [t for v in args for t in flat(self.coerce_ghost(v))])
        if rty[0] == "list" and not arbitrary and self.call_site is None and not self.defining:
            # in a goal: what the definition says here (it has the shape of the code)
            body = self.freeze(st, self.deref(st, Engine.call_func(self, st, f, args, {}, None)))
            j = z3.FreshConst(IntS, "j")
            x, y = flat(res.get(j)), flat(body.get(j))
            self.fact(res.n == body.n)
            self.fact(Implies(And(0 <= j, j < res.n), And(*[a == b for a, b in zip(x, y)])), [j], pats=[x[0]])
            return body
        return res

    def depends(self, heap, ix):
        """some value in the heap depends on the indices of the loops around"""
        if not ix:
            return False
        for (attr, ty), m in heap.items():
            cs = frozenset(c for c in self.prog.classes if self.fields(c).get(attr) == ty)
            v = m.get(Ref(cs, z3.FreshConst(RefS, "x")))
            if any(mentions(t, ix) for t in flat(v)):
                return True
        return False

    def define_ghost(self, f, nm, ps, tys, rty, heap):
        mod = f.module
        vals_, vs, guards = [], [], []
        for a, ty in zip(ps, tys):
            v, cs, g = self.bound_value(a.arg, ty)
            vals_.append(v)
            vs += cs
            guards += g
        app = self.fam(nm, rty, [t for v in vals_ for t in flat(v)])
        saved = self.frames, self.exits, self.spec_depth, self.pre
        fr = Frame(None, And(*guards), vs)
        self.frames, self.exits = [fr], []
        self.spec_depth += 1
        self.pre = None
        fid = self.new_scope(None, mod)
        s = St(heap=dict(heap))
        for a, v in zip(ps, vals_):
            s.store[("v", fid, a.arg)] = v
        stack, self.stack = self.stack, [nm]
        self.defining.add(nm)
        self.ghost_trace.append(self.ghost_reads.setdefault(nm, set()))
        body = self.run_body(s, f.node.body, fid)
        if rty[0] == "list":
            body = self.freeze(s, self.deref(s, body))
        self.ghost_trace.pop()
        self.defining.discard(nm)
        self.stack = stack
        self.frames, self.exits, self.spec_depth, self.pre = saved
        about = [app.n] if isinstance(app, Lst) else []
        for x in fr.facts:
            pats = x.pats
            if about:  # what the definition of a list is made of matters where the list is mentioned
                free = [v for v in x.vars if mentions(x.body, [v])]
                pats = pats if pats is not None else auto_patterns(free, x.body) if free else []
                pats = [z3.MultiPattern(*about, *(p.children() if z3.is_pattern(p) else [p])) for p in pats] or (about if not free else None)
            self.axioms.append(Fact(x.body, vs + x.vars, guards + x.guards, pats))
        if isinstance(app, Lst):
            if not isinstance(body, Lst):
                raise Unsupported(f"{f.name} does not return a list")
            j = z3.FreshConst(IntS, "j")
            x, y = flat(app.get(j)), flat(body.get(j))
            self.axioms.append(Fact(app.n == body.n, vs, guards, [app.n]))
            self.axioms.append(Fact(And(*[a == b for a, b in zip(x, y)]), vs + [j], guards + [0 <= j, j < app.n], [x[0]]))
            return
        pt = flat(app)
        fact = Fact(And(*[a == b for a, b in zip(flat(app), flat(body))]), vs, guards, [pt[0]])
        if len(pt) == 1 and z3.is_bool(pt[0]):
            fact.defines = (pt[0], flat(body)[0])
        self.axioms.append(fact)

    def coerce_ghost(self, v):
        return self.clsval(v)

    def bound_value(self, name, ty):
        """a value made of bound variables"""
        k = ty[0]
        if k in ("int", "bool", "str", "opaque", "enum", "clsval"):
            c = z3.FreshConst(self.sort_of(ty), name)
            g = []
            if k == "enum":
                g = [c >= 0, c < len(self.prog.classes[ty[1]].enum_members)]
            return Sc(ty, c), [c], g
        if k == "obj":
            c = z3.FreshConst(RefS, name)
            return Ref(ty[1], c), [c], [self.is_cls(c, ty[1])]
        if k == "opt":
            n = z3.FreshConst(BoolS, name + "?")
            v, cs, g = self.bound_value(name, ty[1])
            return Opt(n, v), [n] + cs, g
        raise Unsupported(f"ghost argument of type {show(ty)}")

    # ---------------------------------------------------------------- modular calls
    def bind_contract(self, f, con, args, kw, st):
        """argument values by the names used in the contract"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        fid = self.new_scope(None, f.module, f.cls)
        tmp = St(st.pc, {}, st.heap)
        self.bind(tmp, a, args, kw, fid, fid)
        real = [tmp.store[("v", fid, n)] for n in names + [x.arg for x in a.kwonlyargs]]
        return self.rename(f, con, real)

    def rename(self, f, con, real):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        out = dict(zip(names, real))
        if con.args is not None:
            # positional correspondence: parameters may have been renamed
            if not set(con.args) <= set(names):
                out.update(dict(zip(con.args, real)))
        return out

    def run_spec(self, con, m, env, st, assume, tag=None):
        """evaluate a contract method in state st"""
        fid = self.new_scope(None, con.module)
        s = st.fork()
        for x in m.args.args:
            if x.arg not in env:
                raise Unsupported(f"contract {con.name}.{m.name} mentions {x.arg}, which {con.target} does not have")
            s.store[("v", fid, x.arg)] = env[x.arg]
        old_tag, old_mode = self.tag, self.assume_mode
        self.tag = tag or (f"{con.target}/{m.name}", con.ids(m.name))
        self.assume_mode = 1 if assume else 0
        self.spec_depth += 1
        mark = len(self.exits)
        try:
            self.block(m.body, s, fid)
        finally:
            self.spec_depth -= 1
            self.tag, self.assume_mode = old_tag, old_mode
        ex = self.exits[mark:]
        del self.exits[mark:]
        rets = [x for x in ex if x.kind == "return"]
        if len(rets) != len(ex):
            raise Unsupported(f"exception in contract {con.name}.{m.name}")
        if not rets:
            return None
        out = rets[-1].value
        for r in reversed(rets[:-1]):
            out = merge(And(*r.pc[len(st.pc):]), r.value, out)
        return out

    def call_contract(self, st, f, con, args, kw, node):
        self.used_contracts.add(con.target)
        env = self.bind_contract(f, con, args, kw, st)
        taken = [env[k] for k in con.consumes if k in env]
        for k in list(env):
            env[k] = self.deref(st, env[k]) if isinstance(env[k], Py) and isinstance(env[k].o, Cell) else env[k]
        saved_pre = self.pre
        # the path condition as one symbol
        spec = self.spec_depth
        g = self.guard_symbol(st)
        base = St(g, st.store, st.heap)
        base.store = dict(st.store)
        base.store[("warn",)] = B(False)
        self.pre = base
        if con.requires is not None and not spec:
            full = St(st.pc, base.store, base.heap)
            self.run_spec(con, con.requires, env, full, False, (f"{self.current}: requires of {con.target}", ("*",)))
        # exceptions
        for exc, m in con.raises.items():
            c = self.truthy(base, self.run_spec(con, m, env, base, False))
            self.raise_(st, c, exc)
        for exc, m in con.only.items():
            if not spec:
                c = self.truthy(base, self.run_spec(con, m, env, base, False))
                b = self.fresh("raises", BoolS)
                self.fact(Implies(And(b, *st.pc), c))
                self.raise_(st, b, exc)
        for exc in con.may_raise:
            if not spec:
                b = self.fresh("raises", BoolS)
                self.raise_(st, b, exc)
        if st.dead:
            self.pre = saved_pre
            return None
        # effects
        post = St(self.guard_symbol(st), st.store, st.heap)
        mods = {}
        me = next((v for v in env.values() if isinstance(v, Py) and isinstance(v.o, LocalObj)), None)
        for cls, attr in con.modifies:
            if me is not None and me.o.cls.name == cls:
                v = self.fam(self.fresh_name(f"self.{attr}"), self.fields(cls)[attr], self.idx())
                st.store[("a", me.o.oid, attr)] = self.new_cell(st, v) if isinstance(v, (Lst, MapV)) else v
                continue
            mods.setdefault((attr, self.fields(cls)[attr]), set()).add(cls)
        for key, cs in mods.items():
            self.hw.setdefault(key, set()).update(cs)
            self.hcalled.add(key)
            # of protected classes only objects made by the function itself may be written: obligation "frame" of the callee
            post.heap[key] = self.part_heap(self.heap(st, key), key, cs, self.fresh_name(f"heap:{key[0]}"), self.idx(), cs & self.protected)
        for key in mods:
            st.heap[key] = post.heap[key]
        # objects made by this very call
        self.count += 1
        here = (self.count, self.idx())
        # result
        rnode = f.node.returns
        rty = self.type_of(ast.parse(con.returns, mode="eval").body, con.module if con.module.defs else f.module) if con.returns else (self.type_of(rnode, f.module) if rnode is not None else NONE)
        if con.pure:
            flats = []
            for n, v in env.items():
                if isinstance(v, Py) and isinstance(v.o, LocalObj):
                    continue
                flats += flat(self.clsval(v))
            res = self.fam("pure:" + con.target, rty, flats)
        else:
            res = self.fam(self.fresh_name(f"{f.name}.result"), rty, self.idx())
        if con.result_tag is not None:
            ty = self.fields("_Element")["tag"]
            t = self.lit(con.result_tag)
            self.fresh_elements[res.t.decl().name()] = self.idx()
            if not self.probe:
                self.assume_equal(self.heap_base(("tag", ty)).get(res), t, ty)
            res = Ref(res.ty[1], res.t, {"tag": (st.heap.get(("tag", ty)), t)})
        env = dict(env)
        env["result"] = res
        if con.warns == "none":
            w = F
        else:
            w = self.fresh("warned", BoolS) if not con.pure else z3.BoolVal(False)
        post.store = dict(st.store)
        post.store[("warn",)] = B(w)
        if not self.probe and not (con.pure and spec):
            saved_site, self.call_site = self.call_site, here
            for n, m in con.ensures.items():
                try:
                    self.run_spec(con, m, env, post, True)
                except Unsupported as e:
                    raise Unsupported(f"contract {con.target}/{n}: {e}")
            self.call_site = saved_site
        self.pre = saved_pre
        for v in taken:
            if isinstance(v, Py) and isinstance(v.o, Cell):
                c = self.deref(st, v)
                self.set_cell(st, v.o, self.fam(self.fresh_name("changed"), c.ty, self.idx()))
            else:
                raise Unsupported(f"{con.target} may change a list of the caller that is not local")
        old = st.store.get(("warn",), B(False))
        st.store[("warn",)] = B(Or(old.t, w))
        if isinstance(res, (Lst, MapV)):
            return self.new_cell(st, res)
        return res

    def guard_symbol(self, st):
        if len(st.pc) <= 2 and not any(has_quant(p) for p in st.pc):
            return list(st.pc)
        g = self.fresh("path", BoolS)
        # one direction suffices: facts are stated under the symbol
        self.fact(Implies(And(*st.pc), g))
        return [g]
