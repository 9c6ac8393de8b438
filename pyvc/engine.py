"""VC generator: symbolic execution of the real function bodies (ast of /repo/src) with path merging.

Loops over symbolic lists are not unrolled: the body is executed once for an arbitrary iteration k and the loop is
replaced by closed forms of what it accumulates (lists, sets, dicts, heap writes, monotone flags) or by recurrences.
"""
import ast
import z3
from .src import Unsupported, ClassInfo, FuncInfo, Module
from .vals import *
from . import vals as vv
from .build import Attribs, Elem


class Exit:
    __slots__ = ("kind", "pc", "st", "value", "exc", "line")

    def __init__(self, kind, pc, st, value=None, exc=None, line=0):
        self.kind, self.pc, self.st, self.value, self.exc, self.line = kind, pc, st, value, exc, line


class St:
    __slots__ = ("pc", "store", "heap", "dead")

    def __init__(self, pc=(), store=None, heap=None):
        self.pc, self.store, self.heap, self.dead = list(pc), dict(store or {}), dict(heap or {}), False

    def fork(self, *extra):
        s = St(self.pc, self.store, self.heap)
        s.dead = self.dead
        for e in extra:
            s.assume(e)
        return s

    def assume(self, c):
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.dead = True
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)

    def take(self, o):
        self.pc, self.store, self.heap, self.dead = o.pc, o.store, o.heap, o.dead

    def knows(self, c):
        return any(p.eq(c) for p in self.pc)


class Fact:
    __slots__ = ("vars", "guards", "body", "pats", "seed", "done", "seeds", "defines")

    def __init__(self, body, vars=(), guards=(), pats=None, seed=None):
        self.body, self.vars, self.guards, self.pats, self.seed = body, list(vars), list(guards), pats, seed
        self.done = self.seeds = self.defines = None

    def seeded(self, c):
        """the instance with the variable self.seed := c"""
        if self.seeds is None:
            self.seeds = {}
        if c.get_id() not in self.seeds:
            self.seeds[c.get_id()] = (c, self.seeded0(c))
        return self.seeds[c.get_id()][1]

    def seeded0(self, c):
        ps = (self.seed, c)
        return Fact(z3.substitute(self.body, ps), [v for v in self.vars if not v.eq(self.seed)], [z3.substitute(g, ps) for g in self.guards])

    def formula(self):
        vs, gs, body = self.vars, self.guards, self.body
        if self.pats is None:
            vs, gs, body = prenex(vs, gs, body)
        b = Implies(And(*gs), body)
        if not vs:
            return b
        return forall(vs, b, self.pats)


def prenex(vs, gs, body):
    """outer universal quantifiers of the body, and existential ones of its premises, to the front"""
    vs, todo, out = list(vs), list(gs), []

    def open_(q):
        cs = [z3.FreshConst(q.var_sort(i), q.var_name(i).split("!")[0]) for i in range(q.num_vars())]
        vs.extend(cs)
        return z3.substitute_vars(q.body(), *reversed(cs))
    while True:
        while todo:
            g = todo.pop(0)
            if z3.is_and(g):
                todo = g.children() + todo
            elif z3.is_quantifier(g) and g.is_exists():
                todo.insert(0, open_(g))
            else:
                out.append(g)
        if z3.is_quantifier(body) and body.is_forall():
            body = open_(body)
        elif z3.is_implies(body):
            todo = [body.arg(0)]
            body = body.arg(1)
        else:
            return vs, out, body


class Frame:
    def __init__(self, k, rng, vs=None):
        self.vs = list(vs) if vs is not None else [k] if k is not None else []  # the variables a fresh symbol made here depends on
        self.k, self.rng, self.facts, self.seen, self.closed = k, rng, [], set(), []


class Oblig:
    def __init__(self, name, goal, pc, frames, props, line=0, kind="post"):
        self.name, self.goal, self.pc, self.props, self.line, self.kind = name, goal, list(pc), props, line, kind
        self.frames = frames


class Closure:
    def __init__(self, node, fid, module, self_val=None):
        self.node, self.fid, self.module, self.self_val = node, fid, module, self_val


class Bound:
    def __init__(self, func, recv):
        self.func, self.recv = func, recv


class Ext:
    """external name such as re.match or a builtin"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"ext:{self.name}"


class ExcVal:
    def __init__(self, cls, alts=None):
        self.cls = cls
        self.alts = alts or [(T, cls)]  # [(condition, class)], the first whose condition holds

    def merged(self, c, o):
        """self if c else o"""
        return ExcVal(None, [(And(c, x), n) for x, n in self.alts] + list(o.alts))


class Method:
    """method of a built-in value"""

    def __init__(self, recv, name, node, st=None):
        self.recv, self.name, self.node = recv, name, node


class Match:
    """re.Match of a literal pattern"""

    def __init__(self, pattern, s):
        self.pattern, self.s = pattern, s

    def __eq__(self, o):
        return isinstance(o, Match) and o.pattern == self.pattern and o.s.eq(self.s)

    def __hash__(self):
        return hash(self.pattern)


BUILTIN_EXC = {"BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
               "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception", "NotImplementedError": "RuntimeError",
               "RuntimeError": "Exception", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
               "AssertionError": "Exception", "StopIteration": "Exception", "OSError": "Exception", "UnicodeDecodeError": "ValueError", "UnicodeError": "ValueError",
               "LookupError ": "Exception", "Warning": "Exception", "UserWarning": "Warning", "FileNotFoundError": "OSError"}


# ------------------------------------------------------------------------------------------------ quantifiers
def _cands(t, vars, out, seen):
    """uninterpreted applications below t made only of variables, constants and uninterpreted applications"""
    i = t.get_id()
    if i in seen:
        return seen[i]
    if z3.is_quantifier(t) or z3.is_var(t):
        seen[i] = (False, frozenset())
        return seen[i]
    if z3.is_const(t):
        vs = frozenset([t.get_id()]) if any(t.eq(v) for v in vars) else frozenset()
        ok = t.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_int_value(t)
        seen[i] = (ok, vs)
        return seen[i]
    ok, vs = True, frozenset()
    for c in t.children():
        o, v = _cands(c, vars, out, seen)
        ok = ok and o
        vs |= v
    if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        ok = False
    if ok and vs:
        out.append((t, vs))
    seen[i] = (ok, vs)
    return seen[i]


def auto_patterns(vars, body):
    out = []
    _cands(body, vars, out, {})
    full = frozenset(v.get_id() for v in vars)
    cov = [t for t, vs in out if vs == full]
    if cov:
        ids = {}
        for t in cov:
            ids[t.get_id()] = t
        # minimal ones: not containing another covering candidate
        mins = []
        for t in ids.values():
            if not any(o.get_id() in ids for c in t.children() for o in subterms(c)):
                mins.append(t)
        return mins[:8]
    if not out:
        return None
    got, pat = frozenset(), []
    for t, vs in sorted(out, key=lambda p: (-len(p[1]), size(p[0]))):
        if not vs <= got:
            pat.append(t)
            got |= vs
    if got != full:
        return None
    return [z3.MultiPattern(*pat)]


def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_app(x):
            st.extend(x.children())


def size(t):
    return sum(1 for _ in subterms(t))


_hq = {}


def has_quant(t):
    i = t.get_id()
    if i in _hq and _hq[i][0].eq(t):
        return _hq[i][1]
    r = z3.is_quantifier(t) or any(has_quant(c) for c in (t.children() if z3.is_app(t) else []))
    _hq[i] = (t, r)
    return r


def mentions(t, consts):
    ids = {c.get_id() for c in consts}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            st.extend(x.children())
    return False


def decls(t):
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def valid_pat(ts, vars):
    left = {v.get_id() for v in vars}
    for t in ts:
        if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.num_args() == 0:
            return False
        for x in subterms(t):
            if not z3.is_app(x) or z3.is_bool(x) and x is not t and x.decl().kind() != z3.Z3_OP_UNINTERPRETED or x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                return False
            left.discard(x.get_id())
    return not left


def forall(vars, body, pats=None):
    if z3.is_true(body):
        return T
    if z3.is_false(body):
        return z3.ForAll(vars, body)
    if pats is not None:
        pats = [z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats if not isinstance(p, (tuple, z3.ExprRef)) or valid_pat(p if isinstance(p, tuple) else (p,), vars)] or None
    if pats is None:
        pats = auto_patterns(vars, body)
    if pats:
        return z3.ForAll(vars, body, patterns=pats)
    return z3.ForAll(vars, body)


# ------------------------------------------------------------------------------------------------ engine
class Engine:
    MAXDEPTH = 40

    def __init__(self, prog, contracts=None, spec_modules=None):
        self.prog, self.contracts, self.specs = prog, contracts or {}, spec_modules or {}
        self.root = Frame(None, T)
        self.frames = [self.root]
        self.axioms = []
        self.blocks = []
        self.sums = []
        self.exits = []
        self.obligs = []
        self.count = 0
        self.lits = {}
        self.tags = {}
        self.typed = set()
        self.hcalled = set()
        self.ghost_reads, self.ghost_versions, self.ghost_trace, self.defining = {}, {}, [], set()
        self.stack = []
        self.memo = {}
        self.memo_list = []
        self.scopes = {}       # fid -> (parent fid, module, cls)
        self.assume_mode = 0
        self.spec_depth = 0
        self.pre = None
        self.bases = {}
        self.field_cache = {}
        self.const_cache = {}
        self.current = None
        self.tag = None        # property ids of the assertion being evaluated
        self.used_contracts = set()
        self.inlined = set()
        self.assumptions = set()
        self.protected = set()
        self.clsOf = z3.Function("clsOf", RefS, IntS)
        self.site = z3.Function("site", RefS, IntS)
        self.line = 0
        self.probe = 0
        self.strorder = False
        self.str_funcs = set()
        self.call_site = None
        self.hw = {}           # heap key -> classes whose attribute is written
        self.loop_inv = {}     # id of a loop node -> invariant
        self.deferred = []
        self.keep = []
        self.built = {}            # XML elements made here: name of the term -> parts
        self.fresh_elements = {}   # XML elements made by calls: name of the term -> indices of the loops around
        self.appended = set()

    # ---------------------------------------------------------------- symbols and facts
    def fresh_name(self, base):
        self.count += 1
        return f"{base}!{self.count}"

    def idx(self):
        return [v for f in self.frames for v in f.vs]

    def fn(self, name, args, sort):
        name = name.replace("|", "/")
        if not args:
            return z3.Const(name, sort)
        return z3.Function(name, *[a.sort() for a in args], sort)(*args)

    def fresh(self, base, sort):
        return self.fn(self.fresh_name(base), self.idx(), sort)

    def fact(self, f, vars=(), guards=(), pats=None, at=None, seed=None):
        if z3.is_true(f):
            return
        fr = self.frames[-1] if at is None else at
        if not vars:
            key = (f.get_id(), tuple(g.get_id() for g in guards))
            if key in fr.seen:
                return
            fr.seen.add(key)
        fr.facts.append(Fact(f, vars, guards, pats, seed))

    def gfact(self, st, f):
        """fact that holds on the path of st"""
        base = []
        self.fact(f, guards=[p for p in st.pc])

    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.Const("lit:" + s, StrS)
        return Sc(STR, self.lits[s], s)

    def tagof(self, cls):
        if cls not in self.tags:
            self.tags[cls] = len(self.tags) + 1
        return z3.IntVal(self.tags[cls])

    def is_cls(self, t, names):
        return Or(*[Eq(self.clsOf(t), self.tagof(n)) for n in sorted(names)])

    def global_axioms(self):
        out = []
        # string functions of literals
        for f in sorted(self.str_funcs):
            for x in sorted(self.lits):
                out.append(self.fn(f"str.{f}", [self.lits[x]], StrS) == self.lit(getattr(x, f)()).t)
        for nm in sorted(self.str_funcs & {"strip", "lower"}):
            x = z3.Const("x", StrS)
            f = z3.Function("str." + nm, StrS, StrS)
            out.append(z3.ForAll([x], f(f(x)) == f(x), patterns=[f(f(x))]))
        l = list(self.lits.values())
        if len(l) > 1:
            out.append(z3.Distinct(*l))
        a = z3.Const("a", StrS)
        b = z3.Const("b", StrS)
        c = z3.Const("c", StrS)
        if self.strorder:
            lt = self.str_lt
            out.append(z3.ForAll([a], z3.Not(lt(a, a)), patterns=[lt(a, a)]))
            out.append(z3.ForAll([a, b], z3.Or(lt(a, b), lt(b, a), a == b), patterns=[lt(a, b)]))
            out.append(z3.ForAll([a, b, c], z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)), patterns=[z3.MultiPattern(lt(a, b), lt(b, c))]))
            names = sorted(self.lits)
            for x in names:
                for y in names:
                    if x < y:
                        out.append(lt(self.lits[x], self.lits[y]))
        return out

    str_lt = staticmethod(z3.Function("str_lt", StrS, StrS, BoolS))

    # ---------------------------------------------------------------- types
    def type_of(self, node, module, env=None):
        if node is None:
            return ("dyn",)
        if isinstance(node, ast.Constant):
            if node.value is None:
                return NONE
            if isinstance(node.value, str):
                return self.type_of(ast.parse(node.value.strip(), mode="eval").body, module)
            return ("dyn",)
        if isinstance(node, ast.Name):
            n = node.id
            base = {"int": INT, "bool": BOOL, "str": STR, "type": CLSV, "float": OPQ, "bytes": OPQ, "object": OPQ, "Any": OPQ,
                    "list": LIST(("dyn",)), "dict": DICT(("dyn",), ("dyn",)), "set": SET(("dyn",)), "tuple": ("dyn",), "None": NONE}.get(n)
            if base is not None:
                return base
            d = self.prog.lookup(module, n) if isinstance(module, Module) else None
            if d is None and n in self.prog.classes:
                d = self.prog.classes[n]
            if isinstance(d, ClassInfo):
                if d.is_enum:
                    return ENUM(d.name)
                return ("obj", frozenset(self.prog.subclasses(d.name)))
            if isinstance(d, tuple) and d[0] == "const":
                return self.type_of(d[2], d[1])
            if isinstance(d, tuple) and d[0] == "ext":
                d = self.prog.external(d[1])
                return OPQ if not isinstance(d, ClassInfo) else ("obj", frozenset(self.prog.subclasses(d.name)))
            return ("dyn",)
        if isinstance(node, ast.Attribute):
            parts = ast.unparse(node).split(".")
            d = self.prog.lookup(module, parts[0]) if isinstance(module, Module) else None
            if isinstance(d, tuple) and d[0] == "ext":
                d = self.prog.external(".".join([d[1]] + parts[1:]))
                if isinstance(d, ClassInfo):
                    return ("obj", frozenset(self.prog.subclasses(d.name)))
            return OPQ
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            a, b = self.type_of(node.left, module), self.type_of(node.right, module)
            if ("dyn",) in (a, b):
                return ("dyn",)
            return join(a, b)
        if isinstance(node, ast.Subscript):
            n = ast.unparse(node.value).split(".")[-1]
            sl = node.slice
            args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if n in ("list", "List", "Iterable", "Sequence", "Iterator", "Generator"):
                return LIST(self.type_of(args[0], module))
            if n in ("set", "Set", "frozenset"):
                return SET(self.type_of(args[0], module))
            if n in ("dict", "Dict", "defaultdict", "OrderedDict"):
                return DICT(self.type_of(args[0], module), self.type_of(args[1], module))
            if n in ("tuple", "Tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return LIST(self.type_of(args[0], module))
                return TUP([self.type_of(a, module) for a in args])
            if n == "Optional":
                return OPT(self.type_of(args[0], module))
            if n == "Union":
                t = self.type_of(args[0], module)
                for a in args[1:]:
                    t = join(t, self.type_of(a, module))
                return t
            if n == "type":
                return CLSV
            return ("dyn",)
        return ("dyn",)

    def fields(self, cname):
        if cname not in self.field_cache:
            c = self.prog.classes[cname]
            d = {}
            if c.is_dataclass or any(k.is_dataclass for k in c.mro):
                for n, ann, dflt, k in self.prog.dc_fields(c):
                    d[n] = self.type_of(ann, k.module)
            else:
                for k in reversed(c.mro):
                    d.update(self.plain_attrs(k))
            extra = self.extra_attrs.get(cname)
            if extra:
                for n, t in extra.items():
                    d[n] = self.type_of(ast.parse(t, mode="eval").body, c.module)
            self.field_cache[cname] = d
        return self.field_cache[cname]

    extra_attrs = {}

    def plain_attrs(self, c):
        """attributes of a class that is no dataclass: what __init__ assigns, by the annotations there"""
        out = {}
        init = c.methods.get("__init__")
        if init is None:
            return out
        me = init.node.args.args[0].arg
        anns = {a.arg: a.annotation for a in init.node.args.args + init.node.args.kwonlyargs}
        for s in ast.walk(init.node):
            t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
            if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me):
                continue
            if isinstance(s, ast.AnnAssign):
                ann = s.annotation
            elif isinstance(s.value, ast.Name):
                ann = anns.get(s.value.id)
            elif isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
                ann = s.value.func
            else:
                ann = None
            if ann is not None:
                out[t.attr] = self.type_of(ann, c.module)
        return {n: t for n, t in out.items() if t != ("dyn",)}

    def sort_of(self, ty):
        k = ty[0]
        if k in ("int", "enum", "clsval"):
            return IntS
        if k == "bool":
            return BoolS
        if k == "str":
            return StrS
        if k == "opaque":
            return AnyS
        if k == "obj":
            return RefS
        raise Unsupported(f"type {ty} as a symbol")

    def fam(self, name, ty, args):
        """the value of an uninterpreted function of the given type at args"""
        k = ty[0]
        if k == "none":
            return NoneV
        if k == "opt":
            n = self.fn(name + "?", args, BoolS)
            return Opt(n, self.fam(name, ty[1], args))
        if k == "tuple":
            return Tup([self.fam(f"{name}.{i}", t, args) for i, t in enumerate(ty[1])])
        if k == "list":
            n = self.fn(name + "#", args, IntS)
            self.type_axiom(name + "#", args, n, lambda t: t >= 0)
            return Lst(ty[1], n, lambda j: self.fam(name + "[]", ty[1], list(args) + [j]))
        if k in ("set", "dict"):
            def has(x):
                ok, fx = keyform(x, ty[1])
                return F if fx is None else And(ok, self.fn(name + "@has", list(args) + fx, BoolS))

            def get(x):
                fx = keyform(x, ty[1])[1]
                if fx is None:
                    raise Unsupported(f"key of another type in {name}")
                return self.fam(name + "@get", ty[2], list(args) + fx)
            return MapV(k, ty[1], ty[2] if k == "dict" else None, has, get if k == "dict" else poison_get("value of a set"))
        if k in ("dyn", "bot", "poison", "meta"):
            raise Unsupported(f"symbolic value of unknown type for {name}")
        t = self.fn(name, args, self.sort_of(ty))
        if k == "obj":
            self.type_axiom(name, args, t, lambda t: self.is_cls(t, ty[1]))
            return Ref(ty[1], t)
        if k == "enum":
            m = len(self.prog.classes[ty[1]].enum_members)
            self.type_axiom(name, args, t, lambda t: z3.And(t >= 0, t < m))
        return Sc(ty, t)

    def type_axiom(self, name, args, t, f):
        key = (name, tuple(str(a.sort()) for a in args), str(t.sort()))
        if key in self.typed:
            return
        self.typed.add(key)
        vs = [z3.Const(f"x{i}", a.sort()) for i, a in enumerate(args)]
        app = self.fn(name, vs, t.sort())
        if vs:
            self.axioms.append(Fact(f(app), vs, [], [app]))
        else:
            self.axioms.append(Fact(f(app)))

    # ---------------------------------------------------------------- heap
    def heap_base(self, key):
        if key not in self.bases:
            attr, ty = key
            nm = f"{attr}:{show(ty)}"
            self.bases[key] = MapV("heap", None, ty, lambda r: T, lambda r: self.fam(nm, ty, [r.t]))
            if ty[0] == "obj" or (ty[0] == "opt" and ty[1][0] == "obj"):
                x = z3.Const("x", RefS)
                app = self.fn(nm, [x], RefS)
                self.axioms.append(Fact(z3.Implies(self.site(x) <= 0, self.site(app) <= 0), [x], [], [app]))
            if ty[0] == "list" and ty[1][0] == "obj":
                x = z3.Const("x", RefS)
                j = z3.Const("j", IntS)
                app = self.fn(nm + "[]", [x, j], RefS)
                self.axioms.append(Fact(z3.Implies(self.site(x) <= 0, self.site(app) <= 0), [x, j], [], [app]))
        return self.bases[key]

    def heap(self, st, key, classes=None):
        if self.ghost_trace:
            cs = classes if classes is not None else [c for c in self.prog.classes if self.fields(c).get(key[0]) == key[1]]
            for t in self.ghost_trace:
                t.update((key, c) for c in cs)
        m = st.heap.get(key)
        return m if m is not None else self.heap_base(key)

    def part_heap(self, old, key, classes, nm, ix, new_only=()):
        """the heap map old with unknown values for the objects of the classes; of new_only, only for objects made by this function"""
        if new_only and frozenset(new_only) != frozenset(classes):
            raise Unsupported("writes parsed and other objects under one attribute")
        classes = frozenset(classes)

        def get(r):
            mine = r.ty[1] & classes
            if not mine:
                return old.get(r)
            new = self.fam(nm, key[1], ix + [r.t])
            if new_only:
                new = merge(self.site(r.t) > 0, new, old.get(r))
                if isinstance(new, Poison):
                    raise Unsupported(new.why)
            if mine == r.ty[1]:
                return new
            o = merge(self.is_cls(r.t, mine), new, old.get(r))
            if isinstance(o, Poison):
                raise Unsupported(o.why)
            return o
        m = MapV("heap", None, key[1], lambda r: T, get)
        m.before = (classes, old)
        return m

    def relevant(self, m, classes):
        """the heap map m as objects of the classes see it: without later writes to objects of other classes"""
        while True:
            if m.before is not None and not m.before[0] & classes:
                m = m.before[1]
            elif m.root is not None and not any(isinstance(k, Ref) and k.ty[1] & classes or not isinstance(k, Ref) for _, k, _ in m.writes):
                m = m.root
            elif m.merged is not None and self.relevant(m.merged[0], classes) is self.relevant(m.merged[1], classes):
                m = self.relevant(m.merged[0], classes)
            else:
                return m

    def attr_groups(self, r, attr):
        """declared type -> classes, classes without the attribute"""
        groups, missing = {}, []
        for c in sorted(r.ty[1]):
            f = self.fields(c)
            if attr in f:
                groups.setdefault(f[attr], []).append(c)
            else:
                missing.append(c)
        return groups, missing

    def read_attr(self, st, r, attr, groups=None):
        if groups is None:
            groups, missing = self.attr_groups(r, attr)
        out = None
        for ty, cs in groups.items():
            key = (attr, ty)
            if r.known is not None and attr in r.known and r.known[attr][0] is st.heap.get(key):
                v = r.known[attr][1]
            else:
                v = self.heap(st, key, cs).get(Ref(frozenset(cs), r.t))
            if out is None:
                out = v
            else:
                out = merge(self.is_cls(r.t, cs), v, out)
        if isinstance(out, Poison):
            raise Unsupported(f"attribute {attr} has different types in {show(r.ty)}")
        return out

    def write_attr(self, st, r, attr, v, line):
        groups, missing = self.attr_groups(r, attr)
        if missing:
            if not groups:
                raise Unsupported(f"store to undeclared attribute {attr} of {missing}")
            self.oblig(st, f"attribute {attr} is declared by the object it is stored to", Not(self.is_cls(r.t, missing)), ("*",), kind="frame")
            r = Ref(r.ty[1] - set(missing), r.t)
        listed = {c for c in r.ty[1] if (c, attr) in self.may_modify}
        if listed and listed != r.ty[1]:
            self.oblig(st, f"attribute {attr} is written for {'|'.join(sorted(listed))} only", self.is_cls(r.t, listed), ("*",), kind="frame")
            r = Ref(listed, r.t)
        groups, missing = self.attr_groups(r, attr)
        bad = r.ty[1] & self.protected
        if bad:
            self.oblig(st, f"frame: attribute {attr} of {'|'.join(sorted(bad))} is not written", Or(Not(self.is_cls(r.t, bad)), self.site(r.t) > 0), self.frame_props, kind="frame")
        elif not self.probe:
            self.frame_ok += 1
        for ty, cs in groups.items():
            key = (attr, ty)
            self.hw.setdefault(key, set()).update(cs)
            g = T if len(groups) == 1 else self.is_cls(r.t, cs)
            w = self.coerce(v, ty)
            st.heap[key] = write_map(self.heap(st, key), mapchain(self.heap(st, key))[1] + ()) if False else self.push_write(self.heap(st, key), (g, Ref(frozenset(cs), r.t), w))

    may_modify = ()
    self_written, cells_written = set(), set()
    frame_props = ("C23",)
    frame_ok = 0

    def push_write(self, m, w):
        root, ws = mapchain(m)
        out = MapV(m.kind, m.kty, m.vty, None, None, root=root, writes=ws + (w,), empty=False)
        full = write_map(root, ws + (w,)) if m.kind != "heap" else None
        if full is not None:
            return full
        g, key, v = w

        def get(k):
            c = wmatch(g, key, k)
            if z3.is_false(c):
                return m.get(k)
            x = wval(key, v, k)
            if z3.is_true(c):
                return x
            o = merge(c, x, m.get(k))
            if isinstance(o, Poison):
                raise Unsupported(o.why)
            return o
        return MapV("heap", None, m.vty, lambda k: T, get, root=root, writes=ws + (w,))

    def coerce(self, v, ty):
        return v

    # ---------------------------------------------------------------- states
    def merge_states(self, c, a, b):
        """state that is a if c else b (pc of neither)"""
        out = St()
        for k in a.store.keys() | b.store.keys():
            x, y = a.store.get(k), b.store.get(k)
            if x is y:
                out.store[k] = x
            elif (x is None or y is None) and k[0] == "e":  # an element made on one path: only that path knows it
                out.store[k] = x if y is None else y
            elif x is None or y is None:
                out.store[k] = Poison(f"{k[-1]} is not assigned on every path")
            else:
                if k[0] == "v":
                    x, y = self.same_cells(a, x, b, y)
                out.store[k] = merge(c, x, y)
        for k in a.heap.keys() | b.heap.keys():
            x, y = self.heap(a, k), self.heap(b, k)
            if x is y:
                out.heap[k] = x
            else:
                out.heap[k] = self.merge_heap(c, x, y)
        return out

    def merge_heap(self, c, x, y):
        rx, wx = mapchain(x)
        ry, wy = mapchain(y)
        if rx is not ry:
            def get0(k):
                o = merge(c, x.get(k), y.get(k))
                if isinstance(o, Poison):
                    raise Unsupported(o.why)
                return o
            m = MapV("heap", None, x.vty, lambda k: T, get0)
            m.merged = (x, y)
            return m
        i = 0
        while i < len(wx) and i < len(wy) and wx[i] is wy[i]:
            i += 1
        m = rx
        for w in wx[:i] + guard(c, wx[i:]) + guard(Not(c), wy[i:]):
            m = self.push_write(m, w)
        return m

    def rel(self, pc, base):
        return And(*pc[base:])

    def join_all(self, st, base, parts, mark):
        """st becomes the join of the alternatives parts = [(state, value)] that left from a state whose pc had length
        base; self.exits[mark:] are the exits that do not come back.  Returns the joined value."""
        alive = [(s, v) for s, v in parts if not s.dead]
        prefix = st.pc[:base]
        if not alive:
            st.dead = True
            return None
        cur, val = alive[-1]
        acc = cur
        for s, v in reversed(alive[:-1]):
            c = self.rel(s.pc, base)
            if v is not None and val is not None:
                v, val = self.same_cells(s, v, acc, val)
            m = self.merge_states(c, s, acc)
            if val is not None or v is not None:
                val = merge(c, v, val) if v is not None and val is not None else Poison("value missing on a path")
            acc = m
        if len(alive) == 1:
            st.pc = list(cur.pc)
        else:
            st.pc = list(prefix)
            for e in self.exits[mark:]:
                st.assume(Not(And(*e.pc[base:])))
        st.store, st.heap, st.dead = acc.store, acc.heap, False
        return val

    def branch(self, st, c, fa, fb):
        c = self.simp(c)
        if st.knows(c):
            c = T
        elif st.knows(Not(c)):
            c = F
        if z3.is_true(c):
            return fa(st)
        if z3.is_false(c):
            return fb(st)
        base, mark = len(st.pc), len(self.exits)
        a, b = st.fork(c), st.fork(Not(c))
        va = fa(a)
        vb = fb(b)
        if a.dead or b.dead:
            s, v = (b, vb) if a.dead else (a, va)
            if s.dead:
                st.dead = True
                return None
            st.take(s)
            return v
        if va is not None and vb is not None:
            va, vb = self.same_cells(a, va, b, vb)
        m = self.merge_states(c, a, b)
        prefix = st.pc[:base]
        if len(self.exits) == mark:
            st.pc = prefix
        else:
            st.pc = list(prefix)
            for e in self.exits[mark:]:
                st.assume(Not(And(*e.pc[base:])))
        st.store, st.heap = m.store, m.heap
        if va is None or vb is None:
            return None
        return merge(c, va, vb)

    def same_cells(self, a, va, b, vb):
        """values of two paths: different mutable containers are taken by content"""
        ca = isinstance(va, Py) and isinstance(va.o, Cell)
        cb = isinstance(vb, Py) and isinstance(vb.o, Cell)
        if (ca or cb) and not (ca and cb and va.o == vb.o):
            return self.freeze(a, va), self.freeze(b, vb)
        if isinstance(va, Tup) and isinstance(vb, Tup) and len(va.items) == len(vb.items):
            ps = [self.same_cells(a, x, b, y) for x, y in zip(va.items, vb.items)]
            return Tup([p[0] for p in ps]), Tup([p[1] for p in ps])
        return va, vb

    def possible(self, st, r):
        """the classes r may have on this path, as far as the path condition says so literally"""
        cs = set(r.ty[1])
        if len(cs) <= 1:
            return cs
        for p in st.pc:
            neg = z3.is_not(p)
            q = p.arg(0) if neg else p
            names = self.cls_atom(q, r.t)
            if names is not None:
                cs = cs - names if neg else cs & names
        return cs

    def cls_atom(self, q, t):
        if z3.is_or(q):
            out = set()
            for x in q.children():
                n = self.cls_atom(x, t)
                if n is None:
                    return None
                out |= n
            return out
        if z3.is_eq(q) and z3.is_int_value(q.arg(1)) and z3.is_app(q.arg(0)) and q.arg(0).num_args() == 1 and q.arg(0).decl().eq(self.clsOf) and q.arg(0).arg(0).eq(t):
            n = q.arg(1).as_long()
            return {c for c, i in self.tags.items() if i == n}
        return None

    def narrow(self, st, r):
        cs = self.possible(st, r)
        if cs == set(r.ty[1]) or not cs:
            return r
        return Ref(cs, r.t, r.known)

    def simp(self, c):
        if z3.is_true(c) or z3.is_false(c):
            return c
        s = z3.simplify(c)
        return s if z3.is_true(s) or z3.is_false(s) else c

    def raise_(self, st, cond, exc):
        if st.dead or self.spec_depth:
            return
        cond = self.simp(cond)
        if z3.is_false(cond) or st.knows(Not(cond)):
            return
        if st.knows(cond):
            cond = T
        e = st.fork(cond)
        if not e.dead and self.impossible(e.pc):
            st.assume(Not(cond))
            return
        if not e.dead:
            self.exits.append(Exit("raise", e.pc, e, None, exc, self.line))
        st.assume(Not(cond))

    def impossible(self, pc):
        """the path condition contradicts itself by propositional and linear reasoning alone"""
        s = z3.Solver()
        s.set("timeout", 200)
        for p in pc:
            if not has_quant(p):
                s.add(p)
        return s.check() == z3.unsat

    def oblig(self, st, name, goal, props, kind="post"):
        if self.assume_mode or self.probe or st.dead:
            return
        goal = self.simp(goal)
        frames = list(self.frames[1:])
        self.obligs.append(Oblig(name, goal, st.pc, [(f.rng, f) for f in frames], props, self.line, kind))

    # ---------------------------------------------------------------- helpers on values
    def defined(self, v):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def some(self, st, v, what="attribute of None", exc="AttributeError"):
        v = self.defined(v)
        if isinstance(v, NoneT):
            self.raise_(st, T, exc)
            return None
        if isinstance(v, Opt):
            self.raise_(st, v.n, exc)
            return v.v
        return v

    def truthy(self, st, v):
        v = self.defined(v)
        v = self.deref(st, v)
        if isinstance(v, NoneT):
            return F
        if isinstance(v, Opt):
            return And(Not(v.n), self.truthy(st, v.v))
        if isinstance(v, Sc):
            if v.ty == BOOL:
                return v.t
            if v.ty == INT:
                return Not(Eq(v.t, z3.IntVal(0)))
            if v.ty == STR:
                if v.lit is not None:
                    return T if v.lit else F
                return Not(Eq(v.t, self.lit("").t))
            if v.ty[0] in ("enum", "clsval"):
                return T
            raise Unsupported("truth value of an opaque value")
        if isinstance(v, Ref):
            fs = {id(f): f for f in (self.prog.find_method(self.prog.classes[c], n) for c in v.ty[1] for n in ("__bool__", "__len__"))}
            if set(fs) == {id(None)}:
                return T
            if len(v.ty[1]) == 1:
                return self.truthy(st, self.call_func(st, next(f for f in fs.values() if f is not None), [v], {}, None))
            raise Unsupported(f"truth value of {v!r}")
        if isinstance(v, Lst):
            if v.items is not None:
                return T if v.items else F
            return v.n > 0
        if isinstance(v, Tup):
            return T if v.items else F
        if isinstance(v, Py) and isinstance(v.o, Elem):
            return self.elem_method(st, v, "__bool__", [], {}).t
        if isinstance(v, Py):
            return T
        if isinstance(v, MapV):
            if v.empty:
                return F
            return self.keys_list(v).n > 0
        raise Unsupported(f"truth value of {v!r}")

    def deref(self, st, v):
        if isinstance(v, Py) and isinstance(v.o, Cell):
            return self.defined(st.store[("c", v.o.cid)])
        return v

    def freeze(self, st, v):
        """value as stored inside another object: the content of a cell at this moment; the cell must not change any more"""
        if isinstance(v, Py) and isinstance(v.o, Cell):
            st.store[("esc", v.o.cid)] = B(True)
            return self.freeze(st, st.store[("c", v.o.cid)])
        if isinstance(v, Py) and isinstance(v.o, Elem):
            return self.freeze_elem(st, v.o)
        if isinstance(v, Opt):
            return Opt(v.n, self.freeze(st, v.v))
        if isinstance(v, Tup):
            return Tup([self.freeze(st, i) for i in v.items])
        if isinstance(v, Lst) and v.items is not None and any(isinstance(i, Py) for i in v.items):
            return mklist([self.freeze(st, i) for i in v.items])
        return v

    def new_cell(self, st, v):
        self.count += 1
        cid = self.count
        st.store[("c", cid)] = v
        return Py(Cell(cid))

    def set_cell(self, st, cell, v):
        self.cells_written.add(cell.cid)
        e = st.store.get(("esc", cell.cid))
        if e is not None and not (isinstance(e, Sc) and z3.is_false(e.t)):
            raise Unsupported("mutation of a list that is already stored elsewhere")
        st.store[("c", cell.cid)] = v

    def int_of(self, v):
        if isinstance(v, Sc) and v.ty in (INT, BOOL):
            return toint(v)
        raise Unsupported(f"integer expected, got {v!r}")

    # ---------------------------------------------------------------- names
    def lookup(self, st, name, fid):
        f = fid
        while f is not None:
            k = ("v", f, name)
            if k in st.store:
                return self.defined(st.store[k])
            f = self.scopes[f][0]
        module = self.scopes[fid][1]
        return self.global_name(module, name)

    def global_name(self, module, name):
        d = self.prog.lookup(module, name) if isinstance(module, Module) and module.name in self.prog.modules else None
        if d is None and isinstance(module, Module):
            d = module.defs.get(name)
            if isinstance(d, tuple) and d[0] == "import":
                m = self.specs.get(d[1])
                if m is not None and d[2] in m.defs:
                    d = m.defs[d[2]]
                    if isinstance(d, tuple) and d[0] == "const":
                        d = ("const", m, d[1])
                elif d[1] in self.prog.modules:
                    d = self.prog.lookup(self.prog.modules[d[1]], d[2])
                elif d[2] is None:
                    d = ("ext", d[1])
                else:
                    d = ("ext", f"{d[1]}.{d[2]}")
            elif isinstance(d, tuple) and d[0] == "const" and len(d) == 2:
                d = ("const", module, d[1])
        if isinstance(d, (ClassInfo, FuncInfo)):
            return Py(d)
        if isinstance(d, tuple):
            if d[0] == "const":
                key = (id(d[2]),)
                if key not in self.const_cache:
                    fid = self.new_scope(None, d[1])
                    s = St()
                    self.const_cache[key] = self.freeze(s, self.eval(d[2], s, fid))
                return self.const_cache[key]
            if d[0] == "ext":
                return self.ext(d[1])
            if d[0] == "module":
                return Py(d[1])
        if name == "__file__" and isinstance(module, Module):
            return self.lit(module.name.replace(".", "/") + ".py")
        if name == "open":
            return self.ext("io.open")
        if name in BUILTIN_EXC or name in BUILTINS:
            return Py(Ext(name))
        if name in self.prog.classes:
            return Py(self.prog.classes[name])
        raise Unsupported(f"unknown name {name}")

    def ext(self, name):
        d = self.prog.external(name)
        if isinstance(d, (ClassInfo, FuncInfo)):
            return Py(d)
        if isinstance(d, tuple) and d[0] == "module":
            return Py(d[1])
        return Py(Ext(name))

    def new_scope(self, parent, module, cls=None):
        self.count += 1
        self.scopes[self.count] = (parent, module, cls)
        return self.count

    # ---------------------------------------------------------------- expressions
    def eval(self, e, st, fid):
        if st.dead:
            return Poison("dead code")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        old = self.line
        self.line = getattr(e, "lineno", old) if not self.spec_depth else old
        try:
            v = m(e, st, fid)
        finally:
            self.line = old
        if v is None:
            if st.dead:
                return Poison("dead code")
            return Poison("no value")
        if isinstance(v, Opt):
            if st.knows(Not(v.n)):
                return v.v
            if st.knows(v.n):
                return NoneV
        return v

    def cond(self, e, st, fid):
        """expression as a condition"""
        if isinstance(e, ast.BoolOp):
            out = None
            base, mark = len(st.pc), len(self.exits)

            def go(i, s):
                c = self.cond(e.values[i], s, fid)
                if i + 1 == len(e.values):
                    return B(c)
                if isinstance(e.op, ast.And):
                    return self.branch(s, c, lambda a: go(i + 1, a), lambda b: B(False))
                return self.branch(s, c, lambda a: B(True), lambda b: go(i + 1, b))
            v = go(0, st)
            return v.t if v is not None and not isinstance(v, Poison) else F
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.cond(e.operand, st, fid))
        v = self.eval(e, st, fid)
        if st.dead:
            return F
        return self.truthy(st, v)

    def e_Constant(self, e, st, fid):
        v = e.value
        if v is None:
            return NoneV
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            return I(v)
        if isinstance(v, str):
            return self.lit(v)
        return Sc(OPQ, z3.Const(f"const:{v!r}", AnyS))

    def e_Name(self, e, st, fid):
        return self.lookup(st, e.id, fid)

    def e_Tuple(self, e, st, fid):
        return Tup(self.eval_items(e.elts, st, fid))

    def eval_items(self, elts, st, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.deref(st, self.eval(x.value, st, fid))
                if v.items is None:
                    raise Unsupported("* of a symbolic sequence")
                out.extend(v.items)
            else:
                out.append(self.freeze(st, self.defined(self.eval(x, st, fid))) if not st.dead else Poison("dead"))
        return out

    def e_List(self, e, st, fid):
        its = [self.defined(i) for i in self.eval_items(e.elts, st, fid)] if not st.dead else []
        if st.dead:
            return Poison("dead")
        return self.new_cell(st, mklist(its))

    def e_Set(self, e, st, fid):
        m = empty_map("set")
        return write_map(m, [(T, i, None) for i in self.eval_items(e.elts, st, fid)])

    def e_Dict(self, e, st, fid):
        if any(k is None for k in e.keys):
            raise Unsupported("** in a dict display")
        m = empty_map("dict")
        ks = [self.eval(k, st, fid) for k in e.keys]
        vs = [self.freeze(st, self.eval(v, st, fid)) for v in e.values]
        return self.new_cell(st, write_map(m, [(T, k, v) for k, v in zip(ks, vs)]))

    def e_IfExp(self, e, st, fid):
        c = self.cond(e.test, st, fid)
        return self.branch(st, c, lambda s: self.eval(e.body, s, fid), lambda s: self.eval(e.orelse, s, fid))

    def e_BoolOp(self, e, st, fid):
        if self.boolish(e):
            return B(self.cond(e, st, fid))

        def go(i, s):
            v = self.defined(self.eval(e.values[i], s, fid))
            if i + 1 == len(e.values):
                return v
            c = self.truthy(s, v)
            if isinstance(e.op, ast.And):
                return self.branch(s, c, lambda a: go(i + 1, a), lambda b: B(False) if isinstance(v, Sc) and v.ty == BOOL else v)
            if isinstance(v, Sc) and v.ty == BOOL:
                return self.branch(s, c, lambda a: B(True), lambda b: go(i + 1, b))
            # x or y: when x is truthy it is not None
            return self.branch(s, c, lambda a: v.v if isinstance(v, Opt) else v, lambda b: go(i + 1, b))
        return go(0, st)

    def boolish(self, e):
        if isinstance(e, ast.BoolOp):
            return all(self.boolish(v) for v in e.values)
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, ast.Not)
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "any", "all", "bool")
        return isinstance(e, ast.Compare)

    def e_UnaryOp(self, e, st, fid):
        if isinstance(e.op, ast.Not):
            return B(Not(self.cond(e.operand, st, fid)))
        v = self.some(st, self.eval(e.operand, st, fid), exc="TypeError")
        if v is None:
            return None
        if isinstance(e.op, ast.USub):
            return Sc(INT, z3.simplify(-self.int_of(v)))
        if isinstance(e.op, ast.UAdd):
            return Sc(INT, self.int_of(v))
        raise Unsupported("operator ~")

    def e_BinOp(self, e, st, fid):
        a = self.eval(e.left, st, fid)
        b = self.eval(e.right, st, fid)
        if st.dead:
            return None
        is_type = lambda x: isinstance(x, Py) and isinstance(x.o, (ClassInfo, Ext)) or isinstance(x, Tup) and all(is_type(i) or isinstance(i, NoneT) for i in x.items) and x.items
        if isinstance(e.op, ast.BitOr) and (is_type(a) or is_type(b)):
            return Tup((list(a.items) if isinstance(a, Tup) else [a]) + (list(b.items) if isinstance(b, Tup) else [b]))
        a, b = self.deref(st, a), self.deref(st, b)
        a = self.some(st, a, exc="TypeError")
        b = self.some(st, b, exc="TypeError")
        if a is None or b is None:
            return None
        return self.binop(st, e.op, a, b)

    pow2 = staticmethod(z3.Function("pow2", IntS, IntS))

    def binop(self, st, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, Sc) and a.ty == STR and isinstance(b, Sc) and b.ty == STR:
                return self.fmt([a, b])
            if isinstance(a, Lst) and isinstance(b, Lst):
                return self.new_cell(st, concat(a, b))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
        if isinstance(op, ast.Sub) and isinstance(a, MapV) and isinstance(b, MapV):
            return MapV("set", join(a.kty, b.kty), None, lambda k: And(a.has(k), Not(b.has(k))), poison_get("set"))
        if isinstance(op, (ast.BitOr, ast.BitAnd)) and isinstance(a, MapV) and isinstance(b, MapV):
            f = Or if isinstance(op, ast.BitOr) else And
            return MapV("set", join(a.kty, b.kty), None, lambda k: f(a.has(k), b.has(k)), poison_get("set"))
        if isinstance(op, ast.Mod) and isinstance(a, Sc) and a.ty == STR:
            return self.fmt([a, b])
        x, y = self.int_of(a), self.int_of(b)
        if isinstance(op, ast.Add):
            return Sc(INT, z3.simplify(x + y) if z3.is_int_value(x) and z3.is_int_value(y) else x + y)
        if isinstance(op, ast.Sub):
            return Sc(INT, z3.simplify(x - y) if z3.is_int_value(x) and z3.is_int_value(y) else x - y)
        if isinstance(op, ast.Mult):
            return Sc(INT, x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if not (z3.is_int_value(y) and y.as_long() > 0):
                self.raise_(st, Eq(y, z3.IntVal(0)), "ZeroDivisionError")
                if st.dead:
                    return None
                return Sc(INT, self.fn("py_floordiv" if isinstance(op, ast.FloorDiv) else "py_mod", [x, y], IntS))
            # z3 integer division equals Python's for a positive divisor
            return Sc(INT, x / y if isinstance(op, ast.FloorDiv) else x % y)
        if isinstance(op, (ast.Pow, ast.LShift)):
            if isinstance(op, ast.Pow) and not (z3.is_int_value(x) and x.as_long() == 2):
                raise Unsupported("power of a base other than 2")
            if z3.is_int_value(y) and 0 <= y.as_long() < 4096:
                p = z3.IntVal(1 << y.as_long())
            else:
                p = self.pow2(y)
                n = z3.Const("n", IntS)
                if "pow2" not in self.typed:
                    self.typed.add("pow2")
                    self.axioms.append(Fact(z3.And(z3.Implies(n >= 0, self.pow2(n) >= n + 1), z3.Implies(n < 0, self.pow2(n) == 0)), [n], [], [self.pow2(n)]))
                    m = z3.Const("m", IntS)
                    self.axioms.append(Fact(z3.Implies(z3.And(0 <= n, n < m), z3.And(self.pow2(n) < self.pow2(m))), [n, m], [], [z3.MultiPattern(self.pow2(n), self.pow2(m))]))
                    self.axioms.append(Fact(self.pow2(0) == 1))
                    self.axioms.append(Fact(self.pow2(1) == 2))
                self.assumptions.add("2**n with negative n is taken as 0 (Python gives a fraction); comparisons with integers agree")
            if isinstance(op, ast.Pow):
                return Sc(INT, p)
            return Sc(INT, x * p)
        if isinstance(op, ast.BitAnd) and z3.is_int_value(y):
            m = y.as_long()
            if m >= 0 and (m & (m + 1)) == 0:
                return Sc(INT, x % z3.IntVal(m + 1))
        raise Unsupported(f"operator {type(op).__name__}")

    def e_Compare(self, e, st, fid):
        vals = [self.eval(e.left, st, fid)]
        out = T
        for op, r in zip(e.ops, e.comparators):
            vals.append(self.eval(r, st, fid))
            if st.dead:
                return None
            c = self.compare(st, op, vals[-2], vals[-1])
            out = And(out, c)
        return B(out)

    def compare(self, st, op, a, b):
        a, b = self.defined(a), self.defined(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, (NoneT, Opt)) or isinstance(b, (NoneT, Opt)) or isinstance(a, (Ref, Py)) or isinstance(b, (Ref, Py)):
                if isinstance(a, Py) and isinstance(a.o, Cell) and isinstance(b, NoneT) or isinstance(b, Py) and isinstance(b.o, Cell) and isinstance(a, NoneT):
                    c = F
                else:
                    c = self.same(st, a, b)
            elif isinstance(a, Sc) and a.ty[0] in ("enum", "bool", "clsval"):
                c = eq(a, b)
            else:
                c = self.same(st, a, b)
            return c if isinstance(op, ast.Is) else Not(c)
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.same(st, a, b)
            return c if isinstance(op, ast.Eq) else Not(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(st, a, b)
            return c if isinstance(op, ast.In) else Not(c)
        a = self.some(st, a, exc="TypeError")
        b = self.some(st, b, exc="TypeError")
        if a is None or b is None:
            return F
        lt = self.lt(a, b)
        if isinstance(op, ast.Lt):
            return lt
        if isinstance(op, ast.GtE):
            return Not(lt)
        gt = self.lt(b, a)
        if isinstance(op, ast.Gt):
            return gt
        return Not(gt)

    def clsval(self, v):
        if isinstance(v, Py) and isinstance(v.o, ClassInfo):
            return Sc(CLSV, self.tagof(v.o.name))
        return v

    def same(self, st, a, b):
        a, b = self.clsval(a), self.clsval(b)
        if isinstance(a, Py) and isinstance(a.o, Ext) and isinstance(b, Sc) or isinstance(b, Py) and isinstance(b.o, Ext) and isinstance(a, Sc):
            return F
        return eq(a, b)

    def lt(self, a, b):
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty in (INT, BOOL) and b.ty in (INT, BOOL):
                return toint(a) < toint(b)
            if a.ty == STR and b.ty == STR:
                if a.lit is not None and b.lit is not None:
                    return T if a.lit < b.lit else F
                self.strorder = True
                return self.str_lt(a.t, b.t)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            out = F
            for x, y in reversed(list(zip(a.items, b.items))):
                out = Or(self.lt(x, y), And(eq(x, y), out))
            return out
        raise Unsupported(f"order of {a!r} and {b!r}")

    contains_f = staticmethod(z3.Function("str_contains", StrS, StrS, BoolS))

    def contains(self, st, a, b):
        if isinstance(b, Opt):
            b = self.some(st, b, exc="TypeError")
        if isinstance(b, Sc) and b.ty == STR:
            a = self.some(st, a, exc="TypeError")
            if a is None:
                return F
            if a.lit is not None and b.lit is not None:
                return T if a.lit in b.lit else F
            return self.contains_f(a.t, b.t)
        if isinstance(b, Tup) or (isinstance(b, Lst) and b.items is not None):
            return Or(*[eq(a, x) for x in b.items])
        if isinstance(b, MapV):
            if b.empty:
                return F
            return b.has(a)
        if isinstance(b, Lst):
            ps = [p for _, p in pieces(b)]
            if ps:
                return Or(*[self.contains(st, a, p) for p in ps])
            if b.alt is not None:
                c, x, y = b.alt
                return If(c, self.contains(st, a, x), self.contains(st, a, y))
            k = z3.FreshConst(IntS, "i")
            return z3.Exists([k], z3.And(0 <= k, k < b.n, eq(a, b.get(k))))
        raise Unsupported(f"in {b!r}")

    def e_Attribute(self, e, st, fid):
        v = self.eval(e.value, st, fid)
        if st.dead:
            return None
        return self.getattr(st, v, e.attr, e)

    def getattr(self, st, v, attr, node=None, default=None):
        v = self.defined(v)
        if isinstance(v, (NoneT, Opt)):
            if default is not None:
                n, x = as_opt(v)
                if x is None:
                    return default
                return merge(n, default, self.getattr(st, x, attr, node, default))
            v = self.some(st, v)
            if v is None:
                return None
        if isinstance(v, Ref):
            v = self.narrow(st, v)
            groups, missing = self.attr_groups(v, attr)
            if not groups:
                fs = {c: self.prog.find_method(self.prog.classes[c], attr) for c in v.ty[1]}
                got = {id(f): f for f in fs.values() if f is not None}
                if len(got) == 1 and all(fs.values()):
                    f = next(iter(got.values()))
                    if f.kind == "property":
                        return self.call_func(st, f, [v], {}, node)
                    return Py(Bound(f, v))
                if default is not None:
                    return default
                if not got:
                    self.raise_(st, T, "AttributeError")
                    return None
                raise Unsupported(f"method {attr} differs between {show(v.ty)}")
            if missing:
                if default is not None:
                    return merge(self.is_cls(v.t, missing), default, self.read_attr(st, v, attr, groups))
                self.raise_(st, self.is_cls(v.t, missing), "AttributeError")
            return self.read_attr(st, v, attr, groups)
        if isinstance(v, Py):
            o = v.o
            if isinstance(o, LocalObj):
                k = ("a", o.oid, attr)
                if k in st.store:
                    return self.defined(st.store[k])
                f = self.prog.find_method(o.cls, attr)
                if f is not None:
                    if f.kind == "property":
                        return self.call_func(st, f, [v], {}, node)
                    return Py(Bound(f, v if f.kind != "static" else None))
                f = self.fields(o.cls.name).get(attr)
                if f is not None:
                    v0 = self.fam(f"self.{attr}", f, [])
                    st.store[k] = self.new_cell(st, v0) if isinstance(v0, (Lst, MapV)) else v0
                    return st.store[k]
                if default is not None:
                    return default
                raise Unsupported(f"attribute {attr} of {o.cls.name}")
            if isinstance(o, ClassInfo):
                if o.is_enum:
                    names = [m for m, _ in o.enum_members]
                    if attr in names:
                        return Sc(ENUM(o.name), z3.IntVal(names.index(attr)))
                f = self.prog.find_method(o, attr)
                if f is not None:
                    return Py(Bound(f, Py(o) if f.kind == "class" else None))
                if attr == "__name__":
                    return self.lit(o.name)
                raise Unsupported(f"class attribute {o.name}.{attr}")
            if isinstance(o, Ext):
                return self.ext(o.name + "." + attr)
            if isinstance(o, Module):
                if o.name in self.prog.stubs and attr not in o.defs:
                    return Py(Ext(f"{o.name}.{attr}"))
                return self.global_name(o, attr)
            if isinstance(o, (Elem, Attribs)):
                return self.elem_attr(st, v, attr, node)
            if isinstance(o, (Cell, Match)):
                return Py(Method(v, attr, node))
            if isinstance(o, DcField) and attr == "name":
                return self.lit(o.name)
            raise Unsupported(f"attribute {attr} of {o!r}")
        if isinstance(v, Sc) and v.ty[0] == "enum":
            c = self.prog.classes[v.ty[1]]
            if attr in ("value", "name"):
                vs = [x if attr == "value" else m for m, x in c.enum_members]
                if not all(isinstance(x, str) for x in vs):
                    raise Unsupported("enum values that are not strings")
                ls = [self.lit(x) for x in vs]
                if z3.is_int_value(v.t):
                    return ls[v.t.as_long()]
                f = z3.Function(f"{c.name}.{attr}", IntS, StrS)
                if (c.name, attr) not in self.typed:
                    self.typed.add((c.name, attr))
                    for i, l in enumerate(ls):
                        self.axioms.append(Fact(f(i) == l.t))
                return Sc(STR, f(v.t))
            f = self.prog.find_method(c, attr)
            if f is not None:
                return Py(Bound(f, v))
            raise Unsupported(f"attribute {attr} of an enum member")
        if isinstance(v, (Sc, Lst, MapV, Tup)):
            return Py(Method(v, attr, node))
        raise Unsupported(f"attribute {attr} of {v!r}")

    def e_Subscript(self, e, st, fid):
        v = self.eval(e.value, st, fid)
        if isinstance(e.slice, ast.Slice):
            if st.dead:
                return None
            v = self.some(st, self.deref(st, v), exc="TypeError")
            if v is None:
                return None
            lo = self.eval(e.slice.lower, st, fid) if e.slice.lower is not None else None
            hi = self.eval(e.slice.upper, st, fid) if e.slice.upper is not None else None
            if e.slice.step is not None:
                raise Unsupported("slice with a step")
            return self.slice(st, v, lo, hi)
        i = self.eval(e.slice, st, fid)
        if st.dead:
            return None
        return self.subscript(st, v, i)

    def slice(self, st, v, lo, hi):
        if isinstance(v, Sc) and v.ty == STR:
            if v.lit is not None and all(x is None or z3.is_int_value(x.t) for x in (lo, hi)):
                return self.lit(v.lit[lo.t.as_long() if lo else None:hi.t.as_long() if hi else None])
            nm = f"slice:{lo.t if lo else ''}:{hi.t if hi else ''}"
            if all(x is None or z3.is_int_value(x.t) for x in (lo, hi)):
                return Sc(STR, z3.Function(nm, StrS, StrS)(v.t))
            raise Unsupported("slice of a string with symbolic bounds")
        if isinstance(v, (Tup, Lst)) and v.items is not None and all(x is None or z3.is_int_value(x.t) for x in (lo, hi)):
            its = list(v.items)[lo.t.as_long() if lo else None:hi.t.as_long() if hi else None]
            return Tup(its) if isinstance(v, Tup) else self.new_cell(st, mklist(its))
        if isinstance(v, Lst) and hi is None and lo is not None and z3.is_int_value(lo.t) and lo.t.as_long() >= 0:
            k = lo.t
            n = If(v.n < k, z3.IntVal(0), v.n - k)
            return self.new_cell(st, Lst(v.ety, n, lambda j: v.get(j + k)))
        if isinstance(v, Lst) and lo is None and hi is not None:
            k = self.int_of(hi)
            if z3.is_int_value(k) and k.as_long() < 0:
                n = If(v.n + k < 0, z3.IntVal(0), v.n + k)
            else:
                n = If(v.n < k, v.n, k)
            return self.new_cell(st, Lst(v.ety, n, v.get))
        raise Unsupported("slice")

    def subscript(self, st, v, i):
        if isinstance(v, Py) and isinstance(v.o, ClassInfo) and v.o.is_enum:
            s = self.some(st, i, exc="KeyError")
            names = [m for m, _ in v.o.enum_members]
            if s.lit is not None:
                if s.lit in names:
                    return Sc(ENUM(v.o.name), z3.IntVal(names.index(s.lit)))
                self.raise_(st, T, "KeyError")
                return None
            conds = [Eq(s.t, self.lit(n).t) for n in names]
            self.raise_(st, Not(Or(*conds)), "KeyError")
            t = z3.IntVal(len(names) - 1)
            for k in range(len(names) - 2, -1, -1):
                t = If(conds[k], z3.IntVal(k), t)
            return Sc(ENUM(v.o.name), t)
        if isinstance(v, Py) and isinstance(v.o, ClassInfo):
            return v  # Generic[T]
        v = self.some(st, self.deref(st, v), exc="TypeError")
        i = self.some(st, i, exc="TypeError")
        if v is None or i is None:
            return None
        if isinstance(v, MapV):
            if v.empty:
                self.raise_(st, T, "KeyError")
                return None
            self.raise_(st, Not(v.has(i)), "KeyError")
            return v.get(i)
        if isinstance(v, Tup):
            if z3.is_int_value(i.t) and -len(v.items) <= i.t.as_long() < len(v.items):
                return v.items[i.t.as_long()]
            raise Unsupported("tuple index")
        if isinstance(v, Lst):
            k = self.int_of(i)
            if z3.is_int_value(k):
                n = k.as_long()
                if v.items is not None:
                    if -len(v.items) <= n < len(v.items):
                        return v.items[n]
                    self.raise_(st, T, "IndexError")
                    return None
                self.raise_(st, v.n < (n + 1 if n >= 0 else -n), "IndexError")
                return v.get(k if n >= 0 else v.n + k)
            self.raise_(st, Or(k >= v.n, k < -v.n), "IndexError")
            if self.spec_depth or st.knows(k >= 0):
                return v.get(k)
            return v.get(If(k < 0, v.n + k, k))
        if isinstance(v, Sc) and v.ty == STR:
            k = self.int_of(i)
            return Sc(STR, z3.Function("str_at", StrS, IntS, StrS)(v.t, k))
        raise Unsupported(f"subscript of {v!r}")

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(self.lit(p.value))
            else:
                v = self.eval(p.value, st, fid)
                if st.dead:
                    return None
                spec = ""
                if p.format_spec is not None:
                    spec = ":" + ast.unparse(p.format_spec)
                if p.conversion != -1:
                    spec += f"!{p.conversion}"
                parts.append((v, spec) if spec else v)
        return self.fmt(parts, st)

    def fmt(self, parts, st=None):
        name, args = "fmt:", []
        norm = []
        for p in parts:
            v, spec = p if isinstance(p, tuple) else (p, "")
            if spec in (":#x", ":f'#x'", ':f"#x"') and isinstance(v, Sc) and v.ty == INT:
                v, spec = Sc(STR, self.hex_of_int(v.t)), ""
            elif isinstance(v, Sc) and v.ty == BOOL and not spec:
                v = Sc(STR, If(v.t, self.lit("True").t, self.lit("False").t))
            elif isinstance(v, Sc) and v.ty == INT and not spec and len(parts) == 1:
                v = Sc(STR, self.str_of_int(v.t))
            if isinstance(v, Sc) and v.lit is not None and not spec:
                if norm and isinstance(norm[-1], str):
                    norm[-1] += v.lit
                else:
                    norm.append(v.lit)
            else:
                norm.append((v, spec))
        if not norm:
            return self.lit("")
        if all(isinstance(x, str) for x in norm):
            return self.lit("".join(norm))
        if len(norm) == 1 and norm[0][1] == "" and isinstance(norm[0][0], Sc) and norm[0][0].ty == STR:
            return norm[0][0]
        for x in norm:
            if isinstance(x, str):
                name += repr(x)
            else:
                v, spec = x
                v = self.deref(st, v) if st is not None else v
                if isinstance(v, Opt) and isinstance(v.v, Sc) and v.v.ty in (INT, STR) and not spec:
                    v = Sc(STR, If(v.n, self.lit("None").t, v.v.t if v.v.ty == STR else self.str_of_int(v.v.t)))
                try:
                    ts = flat(v)
                    if isinstance(v, Sc) and v.ty == INT and not spec:
                        ts = [self.str_of_int(v.t)]
                        name += "{str}"
                    else:
                        name += "{%s%s}" % (show(v.ty) if v.ty != STR else "str", spec)
                except Unsupported:
                    ts = [self.fresh("text", AnyS)]
                    name += "{?}"
                args += ts
        return Sc(STR, self.fn(name, args, StrS))

    _soi = staticmethod(z3.Function("str_of_int", IntS, StrS))
    _ios = staticmethod(z3.Function("int_of_str", StrS, IntS))

    def str_of_int(self, t):
        if z3.is_int_value(t):
            return self.lit(str(t.as_long())).t
        n = z3.Const("n", IntS)
        if "soi" not in self.typed:
            self.typed.add("soi")
            self.axioms.append(Fact(self._ios(self._soi(n)) == n, [n], [], [self._soi(n)]))
        return self._soi(t)

    def hex_of_int(self, t):
        """f"{n:#x}" and hex(n)"""
        if z3.is_int_value(t):
            return self.lit(f"{t.as_long():#x}").t
        return self.fn("hex", [t], StrS)

    def number_texts(self):
        """what str(n) and f"{n:#x}" look like: not empty, no blanks around, not a binary number, read back as n"""
        n = z3.Const("n", IntS)
        starts = z3.Function("str.startswith", StrS, StrS, BoolS)
        reads = z3.Function("is_int_literal_base", StrS, IntS, BoolS)
        read = z3.Function("int_of_str_base", StrS, IntS, IntS)
        self.str_of_int(n)
        for s in (self._soi(n), z3.Function("hex", IntS, StrS)(n)):
            self.axioms.append(Fact(And(z3.Function("str.strip", StrS, StrS)(s) == s, s != self.lit("").t, *[Not(starts(s, self.lit(p).t)) for p in ("#", "+#", "-#")],
                                        reads(s, z3.IntVal(0)), read(s, z3.IntVal(0)) == n), [n], [], [s]))

    def e_Lambda(self, e, st, fid):
        return Py(Closure(e, fid, self.scopes[fid][1]))

    def e_NamedExpr(self, e, st, fid):
        v = self.eval(e.value, st, fid)
        if not st.dead:
            st.store[("v", fid, e.target.id)] = v
        return v

    def e_Await(self, e, st, fid):
        raise Unsupported("await")

    # comprehensions ------------------------------------------------------------
    def e_ListComp(self, e, st, fid):
        v = self.comp(e.elt, e.generators, st, fid)
        return self.new_cell(st, v) if v is not None and not st.dead else None

    def e_GeneratorExp(self, e, st, fid):
        return self.comp(e.elt, e.generators, st, fid)

    def e_SetComp(self, e, st, fid):
        v = self.comp(e.elt, e.generators, st, fid)
        return self.to_set(v) if v is not None else None

    def to_set(self, v):
        if isinstance(v, MapV):
            return MapV("set", v.kty, None, v.has, poison_get("set"), empty=v.empty)
        if isinstance(v, (Lst, Tup)) and v.items is not None:
            return write_map(empty_map("set"), [(T, i, None) for i in v.items])

        def has(x):
            k = z3.FreshConst(IntS, "i")
            return z3.Exists([k], z3.And(0 <= k, k < v.n, eq(x, v.get(k))))
        m = MapV("set", v.ety, None, has, poison_get("set"))
        m.source = v
        return m

    def e_DictComp(self, e, st, fid):
        if len(e.generators) == 1:
            g = e.generators[0]
            s0 = st.fork()
            it = self.iterable(s0, self.eval(g.iter, s0, fid))
            if it.items is not None and not s0.dead:
                return self.dict_items(e, g, it.items, st, fid)
        v = self.comp(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e.generators, st, fid)
        if v is None:
            return None
        if v.items is not None:
            return self.new_cell(st, write_map(empty_map("dict"), [(T, i.items[0], i.items[1]) for i in v.items]))
        raise Unsupported("dict comprehension over a symbolic sequence")

    def dict_items(self, e, g, items, st, fid):
        out = []
        f2 = self.new_scope(fid, self.scopes[fid][1], self.scopes[fid][2])
        for x in items:
            self.assign_to(g.target, x, st, f2)
            c = And(*[self.cond(i, st, f2) for i in g.ifs])
            s2 = st.fork(c)
            k = self.eval(e.key, s2, f2)
            v = self.freeze(s2, self.eval(e.value, s2, f2))
            if s2.dead:
                raise Unsupported("exception in a dict comprehension")
            out.append((c, k, v))
        if all(z3.is_true(c) and isinstance(k, Sc) and k.lit is not None for c, k, v in out):
            return Py({k.lit: v for c, k, v in out})
        return self.new_cell(st, write_map(empty_map("dict"), out))

    def comp(self, elt, gens, st, fid):
        """list comprehension through the loop machinery"""
        acc = self.new_cell(st, mklist([]))
        f2 = self.new_scope(fid, self.scopes[fid][1], self.scopes[fid][2])
        st.store[("v", f2, "@acc")] = acc

        def build(i):
            if i == len(gens):
                return [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id="@acc", ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[elt], keywords=[]))]
            body = build(i + 1)
            for c in reversed(gens[i].ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            return [ast.For(target=gens[i].target, iter=gens[i].iter, body=body, orelse=[])]
        self.block(build(0), st, f2)
        if st.dead:
            return None
        v = st.store[("c", acc.o.cid)]
        for k in [k for k in st.store if k[0] == "v" and k[1] == f2]:
            del st.store[k]
        del st.store[("c", acc.o.cid)]
        return self.defined(v)

    # calls ---------------------------------------------------------------------
    def e_Call(self, e, st, fid):
        if isinstance(e.func, ast.Name) and e.func.id in SPEC_FORMS and self.spec_depth and self.scopes[fid][1].name not in self.prog.modules:
            return getattr(self, "spec_" + e.func.id)(e, st, fid)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "__init__" and not e.args and not e.keywords and ast.unparse(e.func.value) == "super()":
            c = self.scopes[fid][2]
            if c is not None and not any("__init__" in k.methods for k in c.mro[1:]):
                return NoneV   # object.__init__
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            raise Unsupported("super")
        f = self.eval(e.func, st, fid)
        if st.dead:
            return None
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(st, self.eval(a.value, st, fid))
                if v.items is None:
                    raise Unsupported("* of a symbolic sequence in a call")
                args.extend(v.items)
            else:
                if isinstance(a, ast.GeneratorExp) and isinstance(f, Py) and isinstance(f.o, Ext) and f.o.name in ("any", "all"):
                    return self.quant(f.o.name, a, st, fid)
                args.append(self.eval(a, st, fid))
            if st.dead:
                return None
        for k in e.keywords:
            v = self.eval(k.value, st, fid)
            if st.dead:
                return None
            if k.arg is None:
                v = self.deref(st, v)
                if isinstance(v, Py) and isinstance(v.o, dict):
                    kw.update(v.o)
                elif isinstance(v, MapV) and mapchain(v)[0].empty:
                    for g, key, x in mapchain(v)[1]:
                        if not z3.is_true(g) or key.lit is None:
                            raise Unsupported("** of a symbolic dict")
                        kw[key.lit] = x
                else:
                    raise Unsupported("** of a symbolic dict")
            else:
                kw[k.arg] = v
        return self.call(st, f, args, kw, e, fid)

    def quant(self, which, gen, st, fid):
        """any/all over a generator"""
        f2 = self.new_scope(fid, self.scopes[fid][1], self.scopes[fid][2])

        def go(i, s):
            if i == len(gen.generators):
                return self.cond(gen.elt, s, f2)
            g = gen.generators[i]
            it = self.iterable(s, self.eval(g.iter, s, f2 if i else fid))
            if s.dead:
                return F

            def one(s2):
                c = T
                for x in g.ifs:
                    c = And(c, self.cond(x, s2, f2)) if not s2.dead else c
                s3 = s2.fork(c)
                mark = len(self.exits)
                b = go(i + 1, s3)
                return And(c, b) if which == "any" else Implies(c, b)
            if it.items is not None:
                out = []
                for x in it.items:
                    s2 = s.fork()
                    self.assign_to(g.target, x, s2, f2)
                    out.append(one(s2))
                return (Or if which == "any" else And)(*out)
            k = z3.FreshConst(IntS, "q")
            rng = z3.And(0 <= k, k < it.n)
            fr = Frame(k, rng)
            self.frames.append(fr)
            s2 = s.fork(0 <= k, k < it.n)
            n0 = len(self.exits)
            self.assign_to(g.target, it.get(k), s2, f2)
            b = one(s2)
            self.frames.pop()
            self.close(fr)
            for x in self.exits[n0:]:
                raise Unsupported("exception inside any/all")
            if which == "any":
                return z3.Exists([k], z3.And(rng, b)) if not z3.is_false(b) else F
            return forall([k], Implies(rng, b))
        s = st.fork()
        n0 = len(self.exits)
        c = go(0, s)
        if len(self.exits) > n0:
            # exceptions while evaluating concrete parts
            ex = self.exits[n0:]
            base = len(st.pc)
            for x in ex:
                st.assume(Not(And(*x.pc[base:])))
        return B(c)

    def close(self, fr):
        par = self.frames[-1]
        for f in fr.facts:
            if fr.k is None:  # variables of a quantified specification
                mine = [v for v in fr.vs if mentions(f.body, [v]) or any(mentions(g, [v]) for g in f.guards)]
                par.facts.append(Fact(f.body, mine + f.vars, [fr.rng] + f.guards if mine else f.guards, f.pats, f.seed) if mine or z3.is_true(fr.rng) else Fact(f.body, fr.vs + f.vars, [fr.rng] + f.guards, f.pats, f.seed))
                continue
            if mentions(f.body, [fr.k]) or any(mentions(g, [fr.k]) for g in f.guards):
                par.facts.append(Fact(f.body, [fr.k] + f.vars, [fr.rng] + f.guards, f.pats, f.seed))
            else:
                # holds if there is an iteration
                kk = fr.k
                g = z3.substitute(fr.rng, (kk, z3.IntVal(0)))
                par.facts.append(Fact(f.body, f.vars, [g] + f.guards, f.pats, f.seed))
        fr.closed = fr.facts
        fr.facts = []

    def call(self, st, f, args, kw, node, fid=None):
        f = self.defined(f)
        if isinstance(f, (NoneT, Opt)):
            f = self.some(st, f, exc="TypeError")
            if f is None:
                return None
        if not isinstance(f, Py):
            raise Unsupported(f"call of {f!r}")
        o = f.o
        if isinstance(o, Bound):
            a = ([o.recv] if o.recv is not None else []) + list(args)
            return self.call_func(st, o.func, a, kw, node)
        if isinstance(o, FuncInfo):
            return self.call_func(st, o, args, kw, node)
        if isinstance(o, Closure):
            return self.call_closure(st, o, args, kw)
        if isinstance(o, ClassInfo):
            return self.construct(st, o, args, kw, node)
        if isinstance(o, Ext):
            return self.call_ext(st, o.name, args, kw, node, fid)
        if isinstance(o, Method):
            return self.call_method(st, o, args, kw, node, fid)
        raise Unsupported(f"call of {o!r}")

    def bind(self, st, a, args, kw, fid, defscope, skip=0):
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        if len(args) > len(names):
            if a.vararg is None:
                raise Unsupported("too many arguments")
            st.store[("v", fid, a.vararg.arg)] = Tup(args[len(names):])
        elif a.vararg is not None:
            st.store[("v", fid, a.vararg.arg)] = Tup([])
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            raise Unsupported(f"unexpected keyword {sorted(rest)}")
        if a.kwarg is not None:
            st.store[("v", fid, a.kwarg.arg)] = Py(rest)
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        for n, d in list(zip(dn, a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in vals:
                vals[n] = self.eval(d, st, defscope)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise Unsupported(f"missing argument {n}")
            st.store[("v", fid, n)] = vals[n]

    def call_closure(self, st, c, args, kw):
        fid = self.new_scope(c.fid, c.module, self.scopes[c.fid][2])
        self.bind(st, c.node.args, args, kw, fid, c.fid)
        if isinstance(c.node, ast.Lambda):
            v = self.eval(c.node.body, st, fid)
            self.drop(st, fid)
            return v
        return self.run_body(st, c.node.body, fid)

    def drop(self, st, fid):
        for k in [k for k in st.store if k[0] == "v" and k[1] == fid]:
            del st.store[k]

    def run_body(self, st, body, fid):
        """inline execution of a function body; returns the value"""
        base, mark = len(st.pc), len(self.exits)
        s = st.fork()
        self.block(body, s, fid)
        ex = self.exits[mark:]
        rets = [x for x in ex if x.kind == "return"]
        self.exits[mark:] = [x for x in ex if x.kind != "return"]
        if any(x.kind in ("break", "continue") for x in ex):
            raise Unsupported("break outside of a loop")
        parts = [(x.st, x.value) for x in rets]
        if not s.dead:
            parts.append((s, NoneV))
        if len(parts) == 1 and rets == [] and len(self.exits) == mark:
            st.take(s)
            st.pc = st.pc[:base] + s.pc[base:]
            self.drop(st, fid)
            return NoneV
        v = self.join_all(st, base, parts, mark)
        self.drop(st, fid)
        return v

    def call_func(self, st, f, args, kw, node):
        con = self.contracts.get(f.qualname)
        if con is not None and self.spec_depth and not (con.pure and f.module.name in self.prog.stubs):
            con = None
        if con is None and f.module.name in self.prog.stubs:
            raise Unsupported(f"{f.qualname} has no contract")
        if con is not None and not con.inline and (self.current is None or self.stack or True):
            return self.call_contract(st, f, con, args, kw, node)
        if f.qualname in self.stack:
            raise Unsupported(f"recursive call of {f.qualname} without a contract")
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("call depth")
        special = SPECIAL.get(f.qualname)
        fid = self.new_scope(None, f.module, f.cls)
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        if gen:
            raise Unsupported(f"generator function {f.qualname}")
        self.bind(st, f.node.args, args, kw, fid, fid)
        self.stack.append(f.qualname)
        self.inlined.add(f.qualname)
        old = self.line
        try:
            return self.run_body(st, f.node.body, fid)
        finally:
            self.stack.pop()
            self.line = old

    # construction ------------------------------------------------------------------
    def construct(self, st, c, args, kw, node):
        if c.is_enum:
            return self.enum_from_value(st, c, args[0])
        if self.is_exc(c.name):
            return Py(ExcVal(c.name))
        if any(k.is_dataclass for k in c.mro) and "__init__" not in {m for k in c.mro for m in k.methods}:
            return self.construct_dc(st, c, args, kw, node)
        self.count += 1
        o = Py(LocalObj(c, self.count))
        init = self.prog.find_method(c, "__init__")
        if init is not None:
            self.call_func(st, init, [o] + list(args), kw, node)
        if st.dead:
            return None
        if self.is_plain(c):
            return self.plain_ref(st, c, o.o)
        return o

    def is_plain(self, c):
        """a class whose objects are data: __init__ only stores its parameters"""
        init = c.methods.get("__init__")
        if init is None or c.is_dataclass:
            return False
        for s in init.node.body:
            if isinstance(s, ast.Expr) and ast.unparse(s.value) in ("super().__init__()",) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
                continue
            if not (isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Name)):
                return False
        return bool(self.plain_attrs(c))

    def plain_ref(self, st, c, lo):
        """the object made by running __init__, as a reference"""
        t = self.new_ref(c.name)
        known = {}
        r = Ref([c.name], t)
        for n, ty in self.fields(c.name).items():
            k = ("a", lo.oid, n)
            if k not in st.store:
                continue
            v = self.freeze(st, self.defined(st.store.pop(k)))
            known[n] = (st.heap.get((n, ty)), v)
            if not self.probe:
                self.assume_equal(self.heap_base((n, ty)).get(r), v, ty)
        r.known = known
        return r

    def is_exc(self, name):
        return self.exc_mro(name) is not None and "BaseException" in self.exc_mro(name)

    def exc_mro(self, name):
        out = []
        n = name
        while n is not None:
            out.append(n)
            if n in self.prog.classes:
                bs = [b.split(".")[-1] for b in self.prog.classes[n].bases]
                n = bs[0] if bs else None
            elif n in BUILTIN_EXC:
                n = BUILTIN_EXC[n]
            else:
                if not n.split(".")[-1][:1].isupper():
                    break  # not a class
                out.append("Exception")
                out.append("BaseException") if "." in name or name.endswith("Error") else None
                break
        return out

    def exc_is(self, name, base):
        return base in self.exc_mro(name)

    def enum_from_value(self, st, c, v):
        v = self.some(st, v, exc="ValueError")
        if v is None:
            return None
        if isinstance(v, Sc) and v.ty == ENUM(c.name):
            return v
        if not (isinstance(v, Sc) and v.ty == STR):
            raise Unsupported("enum lookup of a non-string")
        conds = [eq(v, self.lit(x)) for m, x in c.enum_members]
        self.raise_(st, Not(Or(*conds)), "ValueError")
        t = z3.IntVal(len(conds) - 1)
        for k in range(len(conds) - 2, -1, -1):
            t = If(conds[k], z3.IntVal(k), t)
        return Sc(ENUM(c.name), t)

    def new_ref(self, cname):
        self.count += 1
        n = self.count
        ix = self.idx()
        t = self.fn(f"new!{cname}!{n}", ix, RefS)
        self.fact(And(Eq(self.clsOf(t), self.tagof(cname)), self.made_at(t, (n, ix))))
        return t

    def made_at(self, t, place):
        """the object was made by the allocation or call n of this function, in the iterations ix of the loops around it"""
        n, ix = place
        return And(self.site(t) == n, *[z3.Function(f"idx{i}!{n}", RefS, IntS)(t) == x for i, x in enumerate(ix)])

    def construct_dc(self, st, c, args, kw, node):
        flds = self.prog.dc_fields(c)
        deco = [d for k in c.mro for d in k.node.decorator_list]
        types = self.fields(c.name)
        vals = {}
        pos = [n for n, a, d, k in flds if not self.kw_only(k)]
        if len(args) > len(pos):
            raise Unsupported(f"positional arguments of {c.name}")
        for n, v in zip(pos, args):
            vals[n] = v
        for n, v in kw.items():
            if n not in types:
                self.raise_(st, T, "TypeError")
                return None
            vals[n] = v
        for n, ann, d, k in flds:
            if n not in vals:
                if d is None:
                    self.raise_(st, T, "TypeError")
                    return None
                vals[n] = self.field_default(st, d, k.module)
        t = self.new_ref(c.name)
        known = {}
        r = Ref([c.name], t)
        for n, ann, d, k in flds:
            v = self.freeze(st, self.defined(vals[n]))
            ty = types[n]
            known[n] = (st.heap.get((n, ty)), v)
            if not self.probe:
                self.assume_equal(self.heap_base((n, ty)).get(r), v, ty)
        r.known = known
        if any("__post_init__" in k.methods for k in c.mro):
            raise Unsupported("__post_init__")
        return r

    def kw_only(self, k):
        for d in k.node.decorator_list:
            if isinstance(d, ast.Call):
                for w in d.keywords:
                    if w.arg == "kw_only" and isinstance(w.value, ast.Constant) and w.value.value:
                        return True
        return False

    def field_default(self, st, d, module):
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
            for w in d.keywords:
                if w.arg == "default":
                    return self.eval(w.value, st, self.new_scope(None, module))
                if w.arg == "default_factory":
                    n = ast.unparse(w.value)
                    if n == "list":
                        return mklist([])
                    if n in ("set", "dict"):
                        return empty_map(n)
                    raise Unsupported("default_factory")
            raise Unsupported("field without default")
        return self.eval(d, st, self.new_scope(None, module))

    def assume_equal(self, a, b, ty):
        """fact: the two values are equal (b is fully determined)"""
        if isinstance(a, Opt) or isinstance(b, (Opt, NoneT)):
            na, va = as_opt(a)
            nb, vb = as_opt(b)
            if isinstance(a, Opt):
                self.fact(Eq(na, nb) if not (z3.is_true(nb) or z3.is_false(nb)) else (na if z3.is_true(nb) else Not(na)))
            if va is not None and vb is not None:
                self.assume_equal(va, vb, ty[1] if ty[0] == "opt" else ty)
            return
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.t.sort() == b.t.sort():
                self.fact(a.t == b.t)
            elif {a.ty, b.ty} == {INT, BOOL}:
                self.fact(toint(a) == toint(b))
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            self.fact(a.t == b.t)
            return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for x, y in zip(a.items, b.items):
                self.assume_equal(x, y, x.ty)
            return
        if isinstance(a, Lst) and isinstance(b, Lst):
            self.fact(Eq(a.n, b.n))
            if b.items is not None:
                for i, x in enumerate(b.items):
                    self.assume_equal(a.get(z3.IntVal(i)), x, a.ety)
                return
            j = z3.FreshConst(IntS, "j")
            fr = Frame(j, z3.And(0 <= j, j < b.n))
            self.frames.append(fr)
            self.assume_equal(a.get(j), b.get(j), a.ety)
            self.frames.pop()
            self.close(fr)
            return
        if isinstance(b, Py) or isinstance(b, MapV):
            return
        # a declared type the value does not have: nothing is known about the stored value
        return


class DcField:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DcField) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


BUILTINS = {"len", "range", "enumerate", "zip", "sorted", "max", "min", "sum", "any", "all", "int", "str", "bool", "list", "set", "dict", "tuple", "isinstance",
            "getattr", "hasattr", "setattr", "type", "map", "reversed", "hex", "ord", "chr", "pow", "abs", "iter", "next", "filter", "print", "repr", "id", "frozenset", "super", "object",
            "bytes", "float", "callable", "divmod", "round"}
SPEC_FORMS = {"int_reads", "int_read", "old", "implies", "warned", "returned", "ghost", "allocated", "raised", "distinct", "iff", "forall", "forall_int"}
SPECIAL = {}
