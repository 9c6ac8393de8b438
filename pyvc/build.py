"""XML elements under construction: lxml.etree.Element, append, text and attributes.

An element that a function makes is mutable until it is appended to another one or returned; its parts are kept in the
state.  From then on it is an object whose parts are known (freeze_elem); a later change is Unsupported.  The children are
a sequence of guarded entries, each a single element or the elements of a loop, so that what findall, find and iteration
give is computed and not searched for.
"""
import z3
from .src import Unsupported
from .vals import *
from .vals import Kids


class Elem:
    """handle of an element under construction"""

    def __init__(self, eid, t, ix):
        self.eid, self.t, self.ix = eid, t, ix

    def __eq__(self, o):
        return isinstance(o, Elem) and o.eid == self.eid

    def __hash__(self):
        return hash(("elem", self.eid))

    def __repr__(self):
        return f"elem{self.eid}"


class Attribs:
    """e.attrib"""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Attribs) and o.e == self.e

    def __hash__(self):
        return hash(("attribs", self.e.eid))


class Marker:
    """the children an element has at the start of an iteration"""


ELEMENT = "_Element"
TAG, TEXT = ("tag", STR), ("text", OPT(STR))
OPS = {"lxml.etree:_Element." + n: n for n in ("findall", "find", "get", "__iter__", "__bool__")}


class Build:
    # ---------------------------------------------------------------- making
    def x_lxml_etree_Element(self, st, args, kw, node):
        if len(args) != 1 or set(kw) - {"nsmap"}:
            raise Unsupported("arguments of Element")
        if "number_texts" not in self.typed:
            self.typed.add("number_texts")
            self.number_texts()
        self.count += 1
        e = Elem(self.count, self.new_ref(ELEMENT), self.idx())
        ns = kw.get("nsmap")
        if ns is None:
            ns = empty_map("dict")
        elif isinstance(ns, Py) and isinstance(ns.o, dict):
            ns = write_map(empty_map("dict"), [(T, self.lit(k), v) for k, v in ns.o.items()])
        else:
            ns = self.freeze(st, ns)
        for k, v in (("tag", args[0]), ("text", NoneV), ("kids", Kids(())), ("attrib", empty_map("dict")), ("nsmap", ns), ("frozen", B(False)), ("child", B(False))):
            st.store[("e", e.eid, k)] = v
        return Py(e)

    def x_lxml_etree_SubElement(self, st, args, kw, node):
        """a child that can still be changed, until its parent is appended or returned or the iteration ends"""
        if not (len(args) == 2 and isinstance(args[0], Py) and isinstance(args[0].o, Elem)):
            raise Unsupported("SubElement of an element that was not made here")
        p = args[0].o
        e = self.x_lxml_etree_Element(st, args[1:], kw, node)
        kids = self.part_of(st, p, "kids")
        self.set_part(st, p, "kids", Kids(kids.entries + ((T, self.child(st, e)),)))
        return e

    def settle(self, st, e):
        """the children of e cannot be changed any more"""
        kids = self.part_of(st, e, "kids")
        if any(isinstance(x, Py) for g, x in kids.entries):
            st.store[("e", e.eid, "kids")] = kids = Kids(tuple((g, self.freeze_elem(st, x.o) if isinstance(x, Py) else x) for g, x in kids.entries))
        return kids

    def settle_all(self, st):
        for k, v in list(st.store.items()):
            if k[0] == "e" and k[2] == "kids" and isinstance(v, Kids) and any(isinstance(x, Py) for g, x in v.entries):
                fresh = [x.o for g, x in v.entries if isinstance(x, Py)]
                if all(len(x.ix) == len(self.idx()) and all(a.eq(b) for a, b in zip(x.ix, self.idx())) for x in fresh):
                    st.store[k] = Kids(tuple((g, self.freeze_elem(st, x.o) if isinstance(x, Py) else x) for g, x in v.entries))

    def x_lxml_etree_QName(self, st, args, kw, node):
        """as a key: its text {namespace}name"""
        ns, name = args
        return self.fmt([self.lit("{"), ns, self.lit("}"), name], st)

    def part_of(self, st, e, what):
        return self.defined(st.store[("e", e.eid, what)])

    def set_part(self, st, e, what, v):
        f = st.store[("e", e.eid, "frozen")]
        if not (isinstance(f, Sc) and z3.is_false(f.t)):
            raise Unsupported("change of an element that was already appended")
        st.store[("e", e.eid, what)] = v

    def elem_attr(self, st, v, attr, node):
        e = v.o
        if isinstance(e, Attribs):
            from .engine import Method
            return Py(Method(v, attr, node))
        if attr in ("tag", "text", "nsmap"):
            return self.part_of(st, e, attr)
        if attr == "attrib":
            return Py(Attribs(e))
        from .engine import Method
        return Py(Method(v, attr, node))

    def elem_method(self, st, v, name, args, kw):
        e = v.o
        if isinstance(e, Attribs) or kw:
            raise Unsupported(f"element method {name}")
        if name == "append" and len(args) == 1:
            kids = self.part_of(st, e, "kids")
            x = self.child(st, args[0])
            self.set_part(st, e, "kids", Kids(kids.entries + ((T, x),)))
            return NoneV
        if name == "extend" and len(args) == 1:
            l = self.iterable(st, args[0])
            if l.items is None:
                kids = self.part_of(st, e, "kids")
                j = z3.FreshConst(IntS, "j")
                self.child(st, l.get(j), (j,))
                self.set_part(st, e, "kids", Kids(kids.entries + ((T, l),)))
                return NoneV
            for x in l.items:
                self.elem_method(st, v, "append", [x], kw)
            return NoneV
        if name == "set" and len(args) == 2:
            self.set_attrib(st, e, *args)
            return NoneV
        rec = {"kids": self.settle(st, e), "attrib": self.part_of(st, e, "attrib")}
        return self.elem_op(st, rec, name, args)

    def set_attrib(self, st, e, k, v):
        for x in (k, v):
            if not (isinstance(x, Sc) and x.ty == STR):
                raise Unsupported("attribute of an element that is not a string")
        self.set_part(st, e, "attrib", self.push_write(self.part_of(st, e, "attrib"), (T, k, v)))

    def child(self, st, x, more=()):
        """the element x as a child: it must not have a parent yet (append moves); more: indices of a sequence of elements"""
        x = self.some(st, self.defined(x), exc="TypeError")
        if isinstance(x, Py) and isinstance(x.o, Elem) and not more:
            has = self.part_of(st, x.o, "child")
            if not z3.is_false(has.t) or not z3.is_false(self.part_of(st, x.o, "frozen").t):
                raise Unsupported("an element appended in two places")
            st.store[("e", x.o.eid, "child")] = B(True)
            return x
        if not (isinstance(x, Ref) and x.ty[1] == frozenset([ELEMENT])):
            raise Unsupported(f"append of {x!r}")
        ts = [x.t]
        idx = list(self.idx()) + list(more)
        while any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in ts):
            ts = [y for t in ts for y in ((t.arg(1), t.arg(2)) if t.decl().kind() == z3.Z3_OP_ITE else (t,))]
        for t in ts:
            ix = self.fresh_elements.get(t.decl().name())
            if ix is None or len(ix) != len(idx) or not all(a.eq(b) for a, b in zip(ix, self.idx())) or len(idx) != len(t.children()) or not all(a.eq(b) for a, b in zip(idx, t.children())):
                raise Unsupported("append of an element that may have a parent")
            if t.decl().name() in self.appended:
                raise Unsupported("append of an element in two places")
            self.appended.add(t.decl().name())
        return x

    def freeze_elem(self, st, e):
        if len(e.ix) != len(self.idx()) or not all(a.eq(b) for a, b in zip(e.ix, self.idx())):
            raise Unsupported("an element made outside of the loop that appends it")
        self.settle(st, e)
        self.set_part(st, e, "frozen", B(True))
        rec = {k: self.part_of(st, e, k) for k in ("tag", "text", "kids", "attrib", "nsmap")}
        rec["ix"] = e.ix
        n = e.t.decl().name()
        if n in self.built:
            raise Unsupported("an element appended in two places")
        self.built[n] = rec
        known = {}
        r = Ref([ELEMENT], e.t)
        types = self.fields(ELEMENT)
        for a in ("tag", "text", "nsmap"):
            known[a] = (st.heap.get((a, types[a])), rec[a])
            if not self.probe and a != "nsmap":
                self.assume_equal(self.heap_base((a, types[a])).get(r), rec[a], types[a])
        r.known = known
        return r

    # ---------------------------------------------------------------- reading
    def built_of(self, r):
        """what is known of the parts of an element made by this function"""
        t = r.t
        if not (z3.is_app(t) and t.decl().name() in self.built):
            return None
        rec = self.built[t.decl().name()]
        ps = [(a, b) for a, b in zip(rec["ix"], t.children()) if not a.eq(b)]
        return {k: sub(v, ps) if k != "ix" else v for k, v in rec.items()} if ps else rec

    def tag_cond(self, st, x, name):
        return z3.simplify(self.truthy(st, B(eq(self.getattr(st, x, "tag"), name))))

    def elem_op(self, st, rec, name, args):
        if name in ("__iter__", "__bool__", "__len__"):
            l = self.entries_list(rec["kids"].entries)
            return l if name == "__iter__" else B(l.n > 0) if name == "__bool__" else Sc(INT, l.n)
        if name == "get" and len(args) == 1:
            m, k = rec["attrib"], args[0]
            if m.empty and m.root is None:
                return NoneV
            h = z3.simplify(m.has(k))
            return NoneV if z3.is_false(h) else m.get(k) if z3.is_true(h) else Opt(Not(h), m.get(k))
        if name in ("findall", "find") and len(args) == 1:
            out = []
            for g, x in rec["kids"].entries:
                if isinstance(x, Lst):
                    j = z3.FreshConst(IntS, "j")
                    c = self.lit_only(self.tag_cond(st, x.get(j), args[0]))
                    if z3.is_false(c):
                        continue
                    if not z3.is_true(c):
                        raise Unsupported("elements of different names in a loop")
                else:
                    c = self.lit_only(self.tag_cond(st, x, args[0]))
                    if z3.is_false(c):
                        continue
                    g = And(g, c)
                out.append((g, x))
            l = self.entries_list(out)
            if name == "findall":
                return l
            n = z3.simplify(l.n <= 0)
            return NoneV if z3.is_true(n) else l.get(z3.IntVal(0)) if z3.is_false(n) else Opt(n, l.get(z3.IntVal(0)))
        raise Unsupported(f"element method {name}")

    def lit_only(self, c):
        """the condition decided when it follows from the literals being different"""
        if z3.is_true(c) or z3.is_false(c):
            return c
        s = z3.Solver()
        s.set("timeout", 200)
        s.add(z3.Distinct(*self.lits.values()))
        s.push()
        s.add(c)
        if s.check() == z3.unsat:
            return F
        s.pop()
        s.add(z3.Not(c))
        return T if s.check() == z3.unsat else c

    def entries_list(self, entries):
        out = mklist([], OBJ(ELEMENT))
        none = mklist([], OBJ(ELEMENT))
        for g, x in entries:
            l = x if isinstance(x, Lst) else mklist([x])
            l = l if z3.is_true(g) else merge_list(g, l, none)
            out = concat(out, l, track=False) if not (out.items == []) else l
        if out.items is not None:
            out = mklist(out.items, OBJ(ELEMENT))
        out.built = list(entries)
        return out

    def for_entries(self, s, entries, st, fid):
        """a comprehension over the children of a known element"""
        for g, x in entries:
            def one(a, x=x):
                if isinstance(x, Lst):
                    self.symloop(s, x, a, fid, None)
                else:
                    self.unroll(s, [x], a, fid)
            if z3.is_true(g):
                one(st)
            else:
                self.branch(st, g, one, lambda b: None)

    # ---------------------------------------------------------------- loops
    def sum_kids(self, h, post, k, n):
        init = h["init"]
        if not isinstance(post, Kids) or not post.entries or post.entries[0] is not h["ph"].entries[0]:
            raise Unsupported("children of an element rebuilt inside a loop")
        new = post.entries[1:]
        if not new:
            return {"value": init, "facts": lambda e: None}
        if any(isinstance(x, Lst) for g, x in new):
            raise Unsupported("a loop that appends in a loop")
        cs = [g for g, x in new]
        one = And(Or(*cs), *[Not(And(a, b)) for i, a in enumerate(cs) for b in cs[:i]])
        if self.follows(one):
            x = new[-1][1]
            for g, y in reversed(new[:-1]):
                x = merge(g, y, x)
            l = Lst(OBJ(ELEMENT), nat(n), lambda j: sub(x, [(k, j)]))
            l.source = self.cur_it
            return {"value": Kids(init.entries + ((T, l),)), "facts": lambda e: None}
        h2 = dict(h, init=mklist([], OBJ(ELEMENT)), ty=LIST(OBJ(ELEMENT)), used=[False])
        self.holder(h2, k)
        r = self.sum_list(h2, concat(h2["ph"], self.entries_list(new)), k, n)
        return {"value": Kids(init.entries + ((T, r["value"]),)), "facts": r["facts"]}

    def follows(self, c):
        if z3.is_true(c):
            return True
        s = z3.Solver()
        s.set("timeout", 500)
        for fr in self.frames:
            for x in fr.facts:
                if not x.vars:
                    s.add(z3.Implies(And(*x.guards), x.body))
        if self.frames[-1].rng is not None:
            s.add(self.frames[-1].rng)
        s.add(z3.Not(c))
        return s.check() == z3.unsat


def nat(n):
    from .stmts import nat
    return nat(n)
