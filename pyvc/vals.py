"""Symbolic values of the VC generator.

Scalars are z3 terms.  Containers are functions: a list is a length and a function from an index to a value, a set or a
dict is a membership function and a function from a key to a value.  A heap object is a z3 term of sort Ref plus the
attribute values that are known for it.
"""
import z3
from .src import Unsupported

# ---------------------------------------------------------------- types
INT, BOOL, STR, NONE, BOT, META, CLSV, OPQ, UNIT = ("int",), ("bool",), ("str",), ("none",), ("bot",), ("meta",), ("clsval",), ("opaque",), ("unit",)


def OBJ(*names):
    return ("obj", frozenset(names))


def OPT(t):
    return t if t[0] in ("opt", "none", "bot") else ("opt", t)


def LIST(t):
    return ("list", t)


def SET(t):
    return ("set", t)


def DICT(k, v):
    return ("dict", k, v)


def TUP(ts):
    return ("tuple", tuple(ts))


def ENUM(c):
    return ("enum", c)


StrS = z3.DeclareSort("Str")
RefS = z3.DeclareSort("Ref")
AnyS = z3.DeclareSort("Any")
IntS = z3.IntSort()
BoolS = z3.BoolSort()
T, F = z3.BoolVal(True), z3.BoolVal(False)


def And(*xs):
    out = []
    for x in xs:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return F
        out.append(x)
    return T if not out else out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return T
        out.append(x)
    return F if not out else out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if z3.is_true(x):
        return F
    if z3.is_false(x):
        return T
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a) or z3.is_true(b):
        return b
    if z3.is_false(a):
        return T
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c) or a.eq(b):
        return a
    if z3.is_false(c):
        return b
    if a.sort() == BoolS:
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
        if z3.is_false(b) or b.eq(c):
            return And(c, a)
        if z3.is_true(a) or a.eq(c):
            return Or(c, b)
        if z3.is_false(a):
            return And(Not(c), b)
        if z3.is_true(b):
            return Or(Not(c), a)
    return z3.If(c, a, b)


def Eq(a, b):
    if a.eq(b):
        return T
    return a == b


# ---------------------------------------------------------------- values
class V:
    items = None


class Sc(V):
    """int, bool, str, enum member, class object, opaque"""

    def __init__(self, ty, t, lit=None):
        self.ty, self.t, self.lit = ty, t, lit

    def __repr__(self):
        return f"{self.t}:{self.ty[0]}"


class Ref(V):
    def __init__(self, classes, t, known=None):
        self.ty, self.t, self.known = ("obj", frozenset(classes)), t, known

    def __repr__(self):
        return f"{self.t}:{'|'.join(sorted(self.ty[1]))}"


class NoneT(V):
    ty = NONE

    def __repr__(self):
        return "None"


NoneV = NoneT()


class Opt(V):
    def __init__(self, n, v):
        self.n, self.v = n, v

    @property
    def ty(self):
        return OPT(self.v.ty)

    def __repr__(self):
        return f"Opt({self.n}, {self.v})"


class Tup(V):
    def __init__(self, items):
        self.items = tuple(items)

    @property
    def ty(self):
        return TUP([i.ty for i in self.items])

    def __repr__(self):
        return f"({', '.join(map(repr, self.items))})"


class Lst(V):
    """immutable list value; items: all elements if the length is concrete; base/ext: this list is base followed by ext"""

    def __init__(self, ety, n, get, items=None, base=None, ext=None):
        self.ety, self.n, self.get, self.items, self.base, self.ext = ety, n, get, items, base, ext
        self.parts = None    # the two lists this is the concatenation of
        self.alt = None      # (condition, list if so, list otherwise)
        self.source = None   # the list whose k-th element this list's k-th element was made from

    @property
    def ty(self):
        return LIST(self.ety)

    def __repr__(self):
        return f"Lst<{self.n}>"


class MapV(V):
    """kind 'set'|'dict'|'heap'; has(keyV)->Bool, get(keyV)->V; root/writes: this map is root with writes [(cond, keyV, valV)]"""

    before = merged = None  # of a heap: what it was made of

    def __init__(self, kind, kty, vty, has, get, root=None, writes=(), empty=False):
        self.kind, self.kty, self.vty, self.has, self.get, self.root, self.writes, self.empty = kind, kty, vty, has, get, root, tuple(writes), empty

    @property
    def ty(self):
        return SET(self.kty) if self.kind == "set" else DICT(self.kty, self.vty)

    def __repr__(self):
        return f"Map<{self.kind}>"


class Kids(V):
    """children of an XML element under construction: entries (guard, element or list of elements)"""
    ty = ("kids",)

    def __init__(self, entries):
        self.entries = tuple(entries)

    def __repr__(self):
        return f"Kids<{len(self.entries)}>"


def merge_kids(c, a, b):
    i = 0
    while i < len(a.entries) and i < len(b.entries) and a.entries[i] is b.entries[i]:
        i += 1
    if i == len(a.entries) == len(b.entries):
        return a
    return Kids(a.entries[:i] + tuple((And(c, g), x) for g, x in a.entries[i:]) + tuple((And(Not(c), g), x) for g, x in b.entries[i:]))


class Py(V):
    """a Python-level entity: class, function, closure, module, exception, plain object, cell handle"""
    ty = META

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return f"Py({self.o!r})"


class Poison(V):
    ty = ("poison",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


class Cell:
    """handle of a mutable container held in the state"""

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return f"cell{self.cid}"

    def __eq__(self, o):
        return isinstance(o, Cell) and o.cid == self.cid

    def __hash__(self):
        return hash(self.cid)


class LocalObj:
    """instance of a plain class; its attributes live in the state"""

    def __init__(self, cls, oid):
        self.cls, self.oid = cls, oid

    def __eq__(self, o):
        return isinstance(o, LocalObj) and o.oid == self.oid

    def __hash__(self):
        return hash(("lo", self.oid))

    def __repr__(self):
        return f"{self.cls.name}#{self.oid}"


def I(n):
    return Sc(INT, z3.IntVal(n))


def B(t):
    return Sc(BOOL, t if not isinstance(t, bool) else (T if t else F))


def join(a, b):
    if a == b:
        return a
    if a == BOT:
        return b
    if b == BOT:
        return a
    if a == NONE:
        return OPT(b)
    if b == NONE:
        return OPT(a)
    if a[0] == "opt" or b[0] == "opt":
        return OPT(join(a[1] if a[0] == "opt" else a, b[1] if b[0] == "opt" else b))
    if a[0] == b[0]:
        if a[0] == "obj":
            return ("obj", a[1] | b[1])
        if a[0] == "list":
            return LIST(join(a[1], b[1]))
        if a[0] == "set":
            return SET(join(a[1], b[1]))
        if a[0] == "dict":
            return DICT(join(a[1], b[1]), join(a[2], b[2]))
        if a[0] == "tuple" and len(a[1]) == len(b[1]):
            return TUP([join(x, y) for x, y in zip(a[1], b[1])])
    if {a, b} == {INT, BOOL}:
        return INT
    raise Unsupported(f"no common type of {show(a)} and {show(b)}")


def show(t):
    if t[0] == "opt":
        return "None|" + show(t[1])
    if t[0] == "obj":
        return "|".join(sorted(t[1]))
    if t[0] in ("list", "set"):
        return f"{t[0]}[{show(t[1])}]"
    if t[0] == "dict":
        return f"dict[{show(t[1])},{show(t[2])}]"
    if t[0] == "tuple":
        return "tuple[" + ",".join(map(show, t[1])) + "]"
    if t[0] == "enum":
        return t[1]
    return t[0]


def as_opt(v):
    """(isnone, inner or None)"""
    if isinstance(v, NoneT):
        return T, None
    if isinstance(v, Opt):
        return v.n, v.v
    return F, v


def poison_get(what):
    def g(*a):
        raise Unsupported(what)
    return g


def merge(c, a, b):
    """value that is a if c else b"""
    if a is b or z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if isinstance(a, (NoneT, Opt)) or isinstance(b, (NoneT, Opt)):
        na, va = as_opt(a)
        nb, vb = as_opt(b)
        n = If(c, na, nb)
        if va is None and vb is None:
            return NoneV
        if va is None:
            v = vb
        elif vb is None:
            v = va
        else:
            v = merge(c, va, vb)
            if isinstance(v, Poison):
                # values of different types: a branch on the absence of one
                if z3.eq(c, Not(nb)):
                    n, v = If(c, na, T), va
                elif z3.eq(c, na):
                    n, v = If(c, T, nb), vb
                else:
                    return v
        if z3.is_false(n):
            return v
        return Opt(n, v)
    if isinstance(a, Py) and isinstance(b, Py):
        if a.o is b.o or a.o == b.o:
            return a
        if hasattr(a.o, "merged") and hasattr(b.o, "merged"):
            return Py(a.o.merged(c, b.o))
        return Poison("different functions or mutable objects on two paths")
    if isinstance(a, Sc) and isinstance(b, Sc):
        if a.ty == b.ty:
            return Sc(a.ty, If(c, a.t, b.t), a.lit if a.lit == b.lit else None)
        if {a.ty, b.ty} == {INT, BOOL}:
            return Sc(INT, If(c, toint(a), toint(b)))
        return Poison(f"merge of {show(a.ty)} and {show(b.ty)}")
    if isinstance(a, Ref) and isinstance(b, Ref):
        known = None
        if a.known is not None and b.known is not None:
            known = {}
            for k in a.known:
                if k in b.known and a.known[k][0] is b.known[k][0]:
                    m = merge(c, a.known[k][1], b.known[k][1])
                    if not isinstance(m, Poison):
                        known[k] = (a.known[k][0], m)
        return Ref(a.ty[1] | b.ty[1], If(c, a.t, b.t), known)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        out = [merge(c, x, y) for x, y in zip(a.items, b.items)]
        for o in out:
            if isinstance(o, Poison):
                return o
        return Tup(out)
    if isinstance(a, Lst) and isinstance(b, Lst):
        return merge_list(c, a, b)
    if isinstance(a, MapV) and isinstance(b, MapV) and a.kind == b.kind:
        return merge_map(c, a, b)
    if isinstance(a, Kids) and isinstance(b, Kids):
        return merge_kids(c, a, b)
    return Poison(f"merge of {show(a.ty)} and {show(b.ty)}")


EMPTY = None


def mklist(items, ety=None):
    items = list(items)
    if ety is None:
        ety = BOT
        for i in items:
            ety = join(ety, i.ty)

    def get(j):
        if z3.is_int_value(j):
            n = j.as_long()
            if 0 <= n < len(items):
                return items[n]
        if not items:
            raise Unsupported("element of an empty list")
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            v = merge(Eq(j, z3.IntVal(k)), items[k], v)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
        return v
    return Lst(ety, z3.IntVal(len(items)), get, items=items)


def chain(l):
    """l as (root, ext): root is not itself an extension"""
    ext = None
    while l.base is not None:
        ext = l.ext if ext is None else concat(l.ext, ext, track=False)
        l = l.base
    return l, ext


def trigger_terms(l, i):
    """terms whose presence shows that the i-th element of l is talked about"""
    out = []
    seen = 0
    while l is not None and seen < 6:
        try:
            out += flat(l.get(i))
        except Unsupported:
            pass
        l, seen = l.source, seen + 1
    return out


def pieces(l):
    """l as [(offset, part)] when it is a concatenation of more than one list"""
    out, off = [], z3.IntVal(0)

    def go(l):
        nonlocal off
        if l.base is not None:
            go(l.base)
            go(l.ext)
            return
        out.append((off, l))
        off = z3.simplify(off + l.n)
    go(l)
    return out if len(out) > 1 else []


def leaves(l, c=None, off=None):
    """l as [(condition, offset, part)] through concatenations and choices"""
    off = z3.IntVal(0) if off is None else off
    c = z3.BoolVal(True) if c is None else c
    if l.parts is not None:
        a, b = l.parts
        return leaves(a, c, off) + leaves(b, c, z3.simplify(off + a.n))
    if l.alt is not None:
        d, x, y = l.alt
        return leaves(x, And(c, d), off) + leaves(y, And(c, Not(d)), off)
    return [(c, off, l)]


def concat(a, b, track=True):
    if a.items is not None and b.items is not None:
        r = mklist(list(a.items) + list(b.items), join(a.ety, b.ety))
        if track:
            r.base, r.ext = a, b
        return r
    ety = join(a.ety, b.ety)

    def get(j):
        if a.items == []:
            return b.get(j)
        if b.items == []:
            return a.get(j)
        v = merge(j < a.n, a.get(j), b.get(z3.simplify(j - a.n)))
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v
    r = Lst(ety, z3.simplify(a.n + b.n), get, base=a if track else None, ext=b if track else None)
    r.parts = (a, b)
    return r


def merge_list(c, a, b):
    r = merge_list0(c, a, b)
    if isinstance(r, Lst) and r.items is None and r.base is None:
        r.alt = (c, a, b)
    return r


def merge_list0(c, a, b):
    try:
        ety = join(a.ety, b.ety)
    except Unsupported as e:
        return Poison(str(e))
    ra, ea = chain(a)
    rb, eb = chain(b)
    if ra is rb and (ea is not None or eb is not None):
        z = mklist([])
        e = merge_list(c, ea if ea is not None else z, eb if eb is not None else z)
        if isinstance(e, Poison):
            return e
        return concat(ra, e)
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        out = [merge(c, x, y) for x, y in zip(a.items, b.items)]
        for o in out:
            if isinstance(o, Poison):
                return o
        return mklist(out, ety)

    def get(j):
        if a.items == []:
            return b.get(j)
        if b.items == []:
            return a.get(j)
        v = merge(c, a.get(j), b.get(j))
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v
    return Lst(ety, If(c, a.n, b.n), get)


def mapchain(m):
    w = ()
    while m.root is not None:
        w = m.writes + w
        m = m.root
    return m, w


def guard(c, writes):
    return tuple((And(c, g), k, v) for g, k, v in writes)


def merge_map(c, a, b):
    ra, wa = mapchain(a)
    rb, wb = mapchain(b)
    if ra is rb:
        i = 0
        while i < len(wa) and i < len(wb) and wa[i] is wb[i]:
            i += 1
        return write_map(ra, wa[:i] + guard(c, wa[i:]) + guard(Not(c), wb[i:]))
    try:
        kty = join(a.kty, b.kty)
        vty = join(a.vty, b.vty) if a.vty is not None else None
    except Unsupported as e:
        return Poison(str(e))

    def has(k):
        return If(c, a.has(k), b.has(k))

    def get(k):
        if a.empty:
            return b.get(k)
        if b.empty:
            return a.get(k)
        v = merge(c, a.get(k), b.get(k))
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v
    return MapV(a.kind, kty, vty, has, get, empty=a.empty and b.empty)


class Layer:
    """a write of many keys at once: key kv is written when match(kv), with value val(kv)"""

    def __init__(self, kty, vty, match, val):
        self.ty, self.vty, self.match, self.val = kty, vty, match, val


def wmatch(g, key, k):
    return And(g, key.match(k) if isinstance(key, Layer) else eq(key, k))


def wval(key, v, k):
    return key.val(k) if isinstance(key, Layer) else v


def write_map(root, writes):
    writes = tuple(writes)
    if not writes:
        return root
    kty, vty = root.kty, root.vty
    for g, k, v in writes:
        kty = join(kty, k.ty)
        if vty is not None and (v is not None or isinstance(k, Layer)):
            try:
                vty = join(vty, k.vty if isinstance(k, Layer) else v.ty)
            except Unsupported:
                vty = ("mixed",)

    def has(k):
        out = root.has(k)
        for g, key, v in writes:
            out = Or(wmatch(g, key, k), out)
        return out

    def get(k):
        out = None if root.empty else root.get(k)
        for g, key, v in writes:
            if out is None:
                out = wval(key, v, k)
                continue
            out = merge(wmatch(g, key, k), wval(key, v, k), out)
            if isinstance(out, Poison):
                raise Unsupported(out.why)
        if out is None:
            raise Unsupported("value of an empty dict")
        return out
    return MapV(root.kind, kty, vty, has, get, root=root, writes=writes)


def empty_map(kind):
    return MapV(kind, BOT, BOT if kind != "set" else None, lambda k: F, poison_get("value of an empty dict"), empty=True)


def toint(v):
    if v.ty == BOOL:
        return If(v.t, z3.IntVal(1), z3.IntVal(0))
    return v.t


def eq(a, b):
    """Python == restricted to values whose equality is structural; objects compare by identity here (see Engine.compare)"""
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("comparison of an undefined value")
    if isinstance(a, (NoneT, Opt)) or isinstance(b, (NoneT, Opt)):
        na, va = as_opt(a)
        nb, vb = as_opt(b)
        if va is None:
            return nb
        if vb is None:
            return na
        return Or(And(na, nb), And(Not(na), Not(nb), eq(va, vb)))
    if isinstance(a, Sc) and isinstance(b, Sc):
        if a.ty == b.ty:
            if a.lit is not None and b.lit is not None:
                return T if a.lit == b.lit else F
            if z3.is_int_value(a.t) and z3.is_int_value(b.t):
                return T if a.t.as_long() == b.t.as_long() else F
            if a.lit is not None:
                a, b = b, a
            if b.lit is not None and b.lit.isascii() and b.lit.isdigit() and z3.is_app(a.t) and a.t.decl().name() == "str.lower":
                return Eq(a.t.arg(0), b.t)  # only a digit has that digit as its lower case
            return Eq(a.t, b.t)
        if {a.ty, b.ty} == {INT, BOOL}:
            return Eq(toint(a), toint(b))
        if OPQ in (a.ty, b.ty):
            raise Unsupported("comparison with an opaque value")
        return F
    if isinstance(a, Ref) and isinstance(b, Ref):
        if not (a.ty[1] & b.ty[1]):
            return F
        return Eq(a.t, b.t)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return F
        return And(*[eq(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Py) and isinstance(b, Py):
        return T if a.o is b.o or a.o == b.o else F
    if isinstance(a, Lst) and isinstance(b, Lst):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return F
            return And(*[eq(x, y) for x, y in zip(a.items, b.items)])
        if a.items == [] or b.items == []:
            return Eq(a.n, b.n)
        j = z3.FreshConst(IntS, "j")
        return And(Eq(a.n, b.n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.n), eq(a.get(j), b.get(j)))))
    if isinstance(a, (Lst, MapV, Tup, Py)) or isinstance(b, (Lst, MapV, Tup, Py)):
        if a.ty[0] != b.ty[0] and not (isinstance(a, Py) or isinstance(b, Py)):
            return F
        raise Unsupported(f"comparison of {show(a.ty)} and {show(b.ty)}")
    return F


def sub(v, pairs):
    """substitute z3 constants in a value (lazily below containers)"""
    if not pairs:
        return v

    def S(t):
        return z3.substitute(t, *pairs)
    if isinstance(v, Sc):
        return Sc(v.ty, S(v.t), v.lit)
    if isinstance(v, Ref):
        known = None
        if v.known is not None:
            known = {k: (h, sub(x, pairs)) for k, (h, x) in v.known.items()}
        return Ref(v.ty[1], S(v.t), known)
    if isinstance(v, Opt):
        return Opt(S(v.n), sub(v.v, pairs))
    if isinstance(v, Tup):
        return Tup([sub(i, pairs) for i in v.items])
    if isinstance(v, Kids):
        return Kids([(S(g), sub(x, pairs)) for g, x in v.entries])
    if isinstance(v, Lst):
        if v.items is not None:
            r = mklist([sub(i, pairs) for i in v.items], v.ety)
            return r

        def get(j):
            jj = z3.FreshConst(IntS, "jj")
            return sub(v.get(jj), list(pairs) + [(jj, j)])
        return Lst(v.ety, S(v.n), get)
    if isinstance(v, MapV):
        if v.empty and v.root is None:
            return v

        def fresh_key(k):
            fk, ps = fresh_like(k)
            return fk, list(pairs) + ps

        def has(k):
            fk, ps = fresh_key(k)
            return z3.substitute(v.has(fk), *ps)

        def getm(k):
            fk, ps = fresh_key(k)
            return sub(v.get(fk), ps)
        return MapV(v.kind, v.kty, v.vty, has, getm, empty=v.empty)
    return v


def fresh_like(v):
    """a value of the same shape with fresh constants, and the substitution fresh -> original"""
    if isinstance(v, Sc):
        c = z3.FreshConst(v.t.sort(), "fk")
        return Sc(v.ty, c), [(c, v.t)]
    if isinstance(v, Ref):
        c = z3.FreshConst(RefS, "fk")
        return Ref(v.ty[1], c), [(c, v.t)]
    if isinstance(v, Opt):
        n = z3.FreshConst(BoolS, "fk")
        x, ps = fresh_like(v.v)
        return Opt(n, x), [(n, v.n)] + ps
    if isinstance(v, Tup):
        out, ps = [], []
        for i in v.items:
            x, p = fresh_like(i)
            out.append(x)
            ps += p
        return Tup(out), ps
    if isinstance(v, (NoneT, Py)):
        return v, []
    raise Unsupported(f"{show(v.ty)} as a key")


def keyform(x, kty):
    """(condition, terms) under which the key x can be a key of type kty; terms is None if it never can"""
    if kty is None:
        return T, flat(x)
    if kty[0] == "opt":
        n, v = as_opt(x)
        if v is None:
            raise Unsupported("None as a key")
        ok, f = keyform(v, kty[1])
        return ok, ([n] + f if f is not None else None)
    if isinstance(x, NoneT):
        return F, None
    if isinstance(x, Opt):
        ok, f = keyform(x.v, kty)
        return And(Not(x.n), ok), f
    if isinstance(x, Sc) and kty[0] in ("int", "bool", "str", "enum", "opaque") and x.ty != kty:
        if {x.ty, kty} <= {INT, BOOL}:
            return T, [toint(x)]
        return F, None
    return T, flat(x)


def flat(v):
    """first-order value -> list of z3 terms"""
    if isinstance(v, (Sc, Ref)):
        return [v.t]
    if isinstance(v, NoneT):
        return []
    if isinstance(v, Opt):
        return [v.n] + flat(v.v)
    if isinstance(v, Tup):
        return [t for i in v.items for t in flat(i)]
    if isinstance(v, Lst) and v.items is not None:
        return [v.n] + [t for i in v.items for t in flat(i)]
    raise Unsupported(f"{show(v.ty)} where a first-order value is needed")
