"""Generates and discharges the proof obligations of one property (or of everything)."""
import argparse
import ast
import json
import multiprocessing as mp
import os
import select as _select
import signal as _signal
import sys
import time
import traceback
import z3
from .src import Program, Unsupported, ClassInfo, FuncInfo, Module
from .vals import *
from . import engine as en
from .engine import Engine, St, Fact, Frame, LocalObj, Cell, Oblig, decls, has_quant, auto_patterns, forall
from .stmts import Stmts
from .lib import Lib
from .spec import Spec, load
from .build import OPS, Build


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(HERE, "contracts")


def walk(node):
    """nodes in source order"""
    for c in ast.iter_child_nodes(node):
        yield c
        yield from walk(c)


class VC(Spec, Stmts, Lib, Build, Engine):
    def call_func(self, st, f, args, kw, node):
        if f.qualname in OPS and isinstance(args[0], Ref):
            rec = self.built_of(args[0])
            if rec is not None:
                return self.elem_op(st, rec, OPS[f.qualname], args[1:])
        if getattr(f, "spec", False):
            if f.ghost:
                return self.call_ghost(st, f, args)
            return Engine.call_func(self, st, f, args, kw, node)
        return Engine.call_func(self, st, f, args, kw, node)

    # ---------------------------------------------------------------- one function
    def allocated_before(self, v):
        """objects reachable from a parameter existed before the call"""
        if isinstance(v, Ref):
            self.fact(self.site(v.t) <= 0)
        elif isinstance(v, Opt):
            self.allocated_before(v.v)
        elif isinstance(v, Tup):
            for i in v.items:
                self.allocated_before(i)
        elif isinstance(v, Lst) and v.items is None and v.ety[0] in ("obj", "opt"):
            j = z3.FreshConst(IntS, "j")
            x = v.get(j)
            x = x.v if isinstance(x, Opt) else x
            if isinstance(x, Ref):
                self.fact(self.site(x.t) <= 0, [j], pats=[x.t])
        elif isinstance(v, MapV) and v.kind == "dict" and v.vty[0] == "obj":
            b, cs, g = self.bound_value("key", v.kty)
            x = v.get(b)
            self.fact(self.site(x.t) <= 0, cs, pats=[x.t])

    def verify(self, con, f, only=None):
        self.current = con.target
        self.may_modify = set(con.modifies)
        st = St()
        st.store[("warn",)] = B(False)
        self.extra_attrs = dict(self.extra_attrs)
        if con.self_attrs:
            self.extra_attrs[f.cls.name] = dict(con.self_attrs)
            self.field_cache.pop(f.cls.name, None)
        for c, at in con.ghost_attrs.items():
            self.extra_attrs[c] = {**self.extra_attrs.get(c, {}), **at}
            self.field_cache.pop(c, None)
        a = f.node.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        if a.vararg or a.kwarg:
            raise Unsupported("variable arguments")
        fid = self.new_scope(None, f.module, f.cls)
        real = []
        cargs = con.args or [p.arg for p in params]
        for i, p in enumerate(params):
            cname = p.arg if p.arg in cargs else (cargs[i] if i < len(cargs) else p.arg)
            if i == 0 and f.kind in ("method", "property") and f.cls is not None:
                if f.cls.is_dataclass:
                    v = self.fam("self", ("obj", frozenset([f.cls.name])), [])
                    self.allocated_before(v)
                else:
                    self.count += 1
                    v = Py(LocalObj(f.cls, self.count))
                    for n in con.self_attrs:
                        self.getattr(st, v, n)
                real.append(v)
                continue
            if i == 0 and f.kind == "class":
                real.append(Py(f.cls))
                continue
            if cname in con.types:
                ty = self.type_of(ast.parse(con.types[cname], mode="eval").body, con.module)
            else:
                ty = self.type_of(p.annotation, f.module)
            v = self.fam("arg:" + cname, ty, [])
            self.allocated_before(v)
            real.append(v)
        env = self.rename(f, con, real)
        pre = st.fork()
        self.pre = pre
        if con.requires is not None:
            s = St()
            s.store, s.heap = dict(st.store), dict(st.heap)
            self.run_spec(con, con.requires, env, s, True)
        for i, (p, v) in enumerate(zip(params, real)):
            cname = p.arg if p.arg in cargs else (cargs[i] if i < len(cargs) else p.arg)
            st.store[("v", fid, p.arg)] = self.new_cell(st, v) if cname in con.consumes else v
        pre = st.fork()
        me = real[0].o.oid if real and isinstance(real[0], Py) and isinstance(real[0].o, LocalObj) else None
        self.self_written, self.cells_written = set(), set()
        self.pre = None
        self.loop_inv = {}
        loops = [x for x in walk(f.node) if isinstance(x, (ast.For, ast.While))]
        for n, m in con.methods.items():
            if n.startswith("invariant_"):
                i = int(n.split("_")[1])
                if i > len(loops):
                    raise Unsupported(f"no loop {i} in {con.target}")
                self.loop_inv[id(loops[i - 1])] = (con, n, m, env, pre)
        self.stack.append(f.qualname)
        mark = len(self.exits)
        body = st.fork()
        self.block(f.node.body, body, fid)
        self.stack.pop()
        exits = self.exits[mark:]
        del self.exits[mark:]
        self.pre = pre
        rets = [(x.st, x.value) for x in exits if x.kind == "return"]
        if not body.dead:
            rets.append((body, NoneV))
        # exceptions
        conds = {}
        for exc, m in con.raises.items():
            conds[exc] = (self.truthy(pre, self.run_spec(con, m, env, pre, False)), con.ids(m.name))
        self.nraise = 0
        for x in exits:
            if x.kind != "raise":
                continue
            self.line = x.line
            ok = [e for e in conds if self.exc_is(x.exc, e)]
            props = con.props or tuple(sorted(con.all_props()))
            if ok:
                for e in ok:
                    self.obligs.append(Oblig(f"{con.target}: {x.exc} only if raises_{e}", conds[e][0], x.pc, [], conds[e][1], x.line, "raise"))
            elif any(self.exc_is(x.exc, e) for e in con.only):
                for e, m in con.only.items():
                    if self.exc_is(x.exc, e):
                        s = pre.fork()
                        s.pc = list(x.pc)
                        c = self.truthy(s, self.run_spec(con, m, env, s, False))
                        self.obligs.append(Oblig(f"{con.target}: {x.exc} only if only_raises_{e}", c, s.pc, [], con.ids(m.name), x.line, "raise"))
            elif any(self.exc_is(x.exc, e) for e in con.may_raise):
                continue
            else:
                self.obligs.append(Oblig(f"{con.target}: no {x.exc}", F, x.pc, [], ("*",), x.line, "raise"))
        self.vac = []
        if rets:
            end = St()
            parts = [(s, v) for s, v in rets if not s.dead]
            base = 0
            val = self.join_rets(end, parts)
            for e, (c, ids) in conds.items():
                self.obligs.append(Oblig(f"{con.target}: returns only if not raises_{e}", Not(c), end.pc, [], ids, f.node.lineno, "raise"))
            self.vac = [list(s.pc) for s, v in parts]
            if con.warns == "none":
                self.obligs.append(Oblig(f"{con.target}: no warning", Not(self.truthy(end, end.store.get(("warn",), B(False)))), end.pc, [], ("*",), f.node.lineno, "warn"))
            if me is not None:
                for k in end.store:
                    if k[0] == "a" and k[1] == me and (f.cls.name, k[2]) not in con.modifies:
                        v = end.store[k]
                        if k in self.self_written or isinstance(v, Py) and isinstance(v.o, Cell) and v.o.cid in self.cells_written:
                            raise Unsupported(f"writes attribute {k[2]} of self, which the contract does not list")
            for key, m in end.heap.items():
                if m is not self.bases.get(key):
                    extra = {c for c in self.hw.get(key, ()) if (c, key[0]) not in con.modifies}
                    if extra:
                        raise Unsupported(f"writes attribute {key[0]} of {sorted(extra)}, which the contract does not list")
            env = dict(env)
            env["result"] = self.deref(end, val) if val is not None else NoneV
            env["result"] = self.freeze(end, env["result"])
            if con.result_tag is not None:
                self.oblig(end, f"{con.target}: tag of the result", eq(self.getattr(end, env["result"], "tag"), self.lit(con.result_tag)), con.props)
                if self.built_of(env["result"]) is None:
                    raise Unsupported("the result is not an element made here")
            for n, m in con.ensures.items():
                if only is not None and n not in only:
                    continue
                self.line = m.lineno
                self.run_spec(con, m, env, end, False)
        self.frames[0].facts.extend([])
        return self

    def join_rets(self, end, parts):
        cur, val = parts[-1]
        acc = cur
        for s, v in reversed(parts[:-1]):
            c = And(*s.pc)
            v, val = self.same_cells(s, v, acc, val)
            m = self.merge_states(c, s, acc)
            val = merge(c, v, val)
            acc = m
        end.store, end.heap = acc.store, acc.heap
        if len(parts) == 1:
            end.pc = list(parts[0][0].pc)
        else:
            end.pc = [Or(*[And(*s.pc) for s, v in parts])]
        if isinstance(val, Poison):
            raise Unsupported("result: " + val.why)
        return val


COMMON = {"clsOf", "site", "str_lt"}


def fact_formulas(facts):
    out, seen = [], set()
    for f in facts:
        if f.done is not None:
            if f.done and f.done[0].get_id() not in seen:
                seen.add(f.done[0].get_id())
                out.append(f.done)
            continue
        t = f.formula()
        if z3.is_true(t):
            f.done = ()
            continue
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        d = decls(t)
        if f.vars:
            b = t
            pats = []
            if z3.is_quantifier(b):
                for i in range(b.num_patterns()):
                    pats.append(decls(b.pattern(i)) - {"pattern"})
            else:
                pats = [d]
            if not pats:
                pats = [set()]
        else:
            pats = None
        f.done = (t, d, pats, head(t))
        out.append(f.done)
    return out


def head(t):
    """the predicate that the fact defines in one direction: without another mention of it the fact says nothing"""
    while True:
        if z3.is_quantifier(t) and t.is_forall():
            t = t.body()
        elif z3.is_implies(t):
            t = t.arg(1)
        elif z3.is_not(t):
            t = t.arg(0)
        else:
            break
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in t.decl().name():
        return t.decl().name()
    return None


def relevant(forms, goal):
    seen = set()
    for g in goal:
        seen |= decls(g)
    left = list(forms)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for t, d, pats, hd in left:
            if hd is not None and hd not in seen:
                ok = False
            elif pats is None:
                ok = not d or bool((d - COMMON) & seen) or d <= seen
            else:
                ok = any(p <= seen for p in pats)
            if ok:
                out.append(t)
                if not d <= seen:
                    seen |= d
                changed = True
            else:
                rest.append((t, d, pats, hd))
        left = rest
    return out


EMATCH = {"smt.mbqi": False, "smt.auto_config": False}
PLANS = [("z3", {}, 1), ("z3 ematch", dict(EMATCH, **{"smt.case_split": 3}), 7), ("cvc5", None, 0), ("z3", {}, 7), ("z3 ematch", EMATCH, 1),
         ("z3 ematch", dict(EMATCH, **{"smt.delay_units": True, "smt.phase_selection": 0, "smt.restart_strategy": 0, "smt.restart_factor": 1.5}), 0)]


def focused(assertions, goal):
    """the assertions without those about ghost definitions that the goal does not mention (fewer premises: sound)"""
    ghosts = lambda t: {d.split("@")[0].rstrip("?") for d in decls(t) if d.startswith("ghost:")}
    mine = set()
    for g in goal:
        mine |= ghosts(g)
    return [a for a in assertions if ghosts(a) <= mine]


def portfolio(assertions, timeout, goal=()):
    """several strategies at once, each in a process of its own; the first refutation counts"""
    t0 = time.time()
    kids = {}
    few = focused(assertions, goal)
    plans = [(n, o, x, assertions) for n, o, x in PLANS]
    if len(few) < len(assertions):
        plans += [("z3 focused", EMATCH, 0, few), ("z3 focused", {}, 1, few)]
    for name, opts, seed, assertions in plans:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = b"unknown"
            try:
                os.close(rd)
                if opts is None:
                    out = cvc5_check(assertions, timeout)[0].encode()
                else:
                    s = z3.SimpleSolver() if opts else z3.Solver()
                    s.set("timeout", int(timeout * 1000))
                    s.set("random_seed", seed)
                    for k, v in opts.items():
                        s.set(k, v)
                    for a in assertions:
                        s.add(a)
                    out = str(s.check()).encode()
                os.write(wr, out)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wr)
        kids[rd] = (pid, name)
    res = ("unknown", "z3")
    end = t0 + timeout + 3
    while kids and time.time() < end:
        ready, _, _ = _select.select(list(kids), [], [], max(0.0, end - time.time()))
        for fd in ready:
            pid, name = kids.pop(fd)
            out = os.read(fd, 32).decode()
            os.close(fd)
            os.waitpid(pid, 0)
            if os.environ.get("VC_TRACE"):
                print("    portfolio", name, out, round(time.time() - t0, 2), flush=True)
            if out == "unsat":
                res = ("unsat", name)
        if res[0] == "unsat":
            break
    for fd, (pid, name) in kids.items():
        try:
            os.kill(pid, _signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        os.close(fd)
    return res[0], res[1], time.time() - t0


def solve(assertions, timeout, seed=0, brief=False):
    """'unsat' | 'sat' | 'unknown', backend, seconds"""
    t0 = time.time()
    plans = [("z3 ematch", EMATCH, 0.15, seed)] if brief else [("z3 ematch", EMATCH, 0.15, seed), ("z3", {}, 0.25, seed)]
    if not any(has_quant(a) for a in assertions):
        plans = [("z3", {}, 2.0, seed)]
    last = "unknown"
    for name, opts, share, seed in plans:
        s = z3.SimpleSolver() if name == "z3 ematch" else z3.Solver()
        s.set("timeout", int(timeout * share * 1000))
        s.set("random_seed", seed)
        for k, v in opts.items():
            s.set(k, v)
        for a in assertions:
            s.add(a)
        r = str(s.check())
        if os.environ.get("VC_TRACE"):
            print("   ", name, seed, r, round(time.time() - t0, 2), flush=True)
        if r == "unsat":
            return "unsat", name, time.time() - t0
        if r == "sat":
            last = "sat"
            if not any(has_quant(a) for a in assertions):
                return "sat", name, time.time() - t0
    return last, "z3", time.time() - t0


def cvc5_check(assertions, timeout):
    import cvc5
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    text = s.to_smt2()
    t0 = time.time()
    try:
        tm = cvc5.TermManager()
        sl = cvc5.Solver(tm)
        sl.setOption("tlimit-per", str(int(timeout * 1000)))
        sl.setLogic("ALL")
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "vc")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(sl, sm)
            if str(r).strip() in ("sat", "unsat", "unknown"):
                res = str(r).strip()
        return res or "unknown", "cvc5", time.time() - t0
    except Exception as e:  # the back end could not read or decide it: not discharged
        return "unknown", f"cvc5 ({type(e).__name__})", time.time() - t0


def strip(name):
    return name


def free_consts(ts):
    out, seen, todo = {}, set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ("!" in t.decl().name() or "arg:" in t.decl().name()):
                out[t.get_id()] = t
            todo.extend(t.children())
    return list(out.values())


def parts(goal, defs, opened):
    """[(premises, goal)] that together imply the goal; the definition of a predicate is a premise of the proof (its guards hold for well-typed arguments)"""
    if z3.is_and(goal):
        return [y for c in goal.children() for y in (parts(c, defs, opened) if z3.is_and(c) else [([], c)])]
    if z3.is_implies(goal):
        return [([goal.arg(0)], goal.arg(1))]
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [z3.FreshConst(goal.var_sort(i), goal.var_name(i).split("!")[0]) for i in range(goal.num_vars())]
        return [([], z3.substitute_vars(goal.body(), *reversed(cs)))]
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        return [([], z3.Not(c)) for c in goal.arg(0).children()]
    if z3.is_not(goal) and z3.is_not(goal.arg(0)):
        return [([], goal.arg(0).arg(0))]
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE:
        return [([goal.arg(0)], goal.arg(1)), ([z3.Not(goal.arg(0))], goal.arg(2))]
    if z3.is_eq(goal) and z3.is_bool(goal.arg(0)):
        x, y = goal.children()
        return [([x], y), ([y], x)]
    if z3.is_or(goal):
        cs = goal.children()
        splits = [c for c in cs if z3.is_and(c) or z3.is_quantifier(c) or z3.is_app(c) and c.decl().name() in defs]
        if splits:
            c = splits[-1]
            return [([z3.Not(x) for x in cs if not x.eq(c)], c)]
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_UNINTERPRETED and goal.decl().name() in defs and defs[goal.decl().name()].defines[0].decl().eq(goal.decl()) and goal.decl().name() not in opened:
        f = defs[goal.decl().name()]
        app, body = f.defines
        sub = list(zip(app.children(), goal.children()))
        opened.add(goal.decl().name())
        return [([], z3.substitute(g, *sub)) for g in f.guards] + [([], z3.substitute(body, *sub))]
    return None


def discharge(eng, o, timeout, tier, brief_only=False):
    facts = list(eng.root.facts) + list(eng.axioms)
    for rng, fr in o.frames:
        facts = facts + fr.closed
    defs = {f.defines[0].decl().name(): f for f in eng.axioms if f.defines is not None}
    seeds = [f for f in facts if f.seed is not None]
    base = fact_formulas(facts) + fact_formulas([Fact(a) for a in eng.global_axioms()])

    def attempt(hyps, g, final, brief=False):
        goal = [z3.Not(g)]
        forms = base
        if seeds:
            cs = free_consts(goal + hyps)
            forms = base + fact_formulas([f.seeded(c) for f in seeds for c in cs if c.sort() == f.seed.sort()])
        asserts = relevant(forms, goal + hyps) + hyps + goal
        if final:
            return (*portfolio(asserts, timeout * final, goal), asserts)
        return (*solve(asserts, timeout, brief=brief), asserts)

    def prove(hyps, g, opened, top=True):
        """simple attempt, then part by part, then every strategy"""
        hyps0, g0 = hyps, g
        while True:
            op = set(opened)
            ps = parts(g, defs, op)
            if ps is None or len(ps) > 1:
                break
            (h, g), opened = ps[0], op
            hyps = hyps + h
        r, b, t, asserts = attempt(hyps0, g0, False, ps is not None)
        if r == "unsat" or not any(has_quant(x) for x in asserts):
            return r, b, t, asserts
        if os.environ.get("VC_TRACE"):
            print("    part", len(asserts), len(ps or []), str(g)[:200].replace("\n", " "), flush=True)
        if ps is not None and top and not brief_only:
            r1, b1, t1, a1 = attempt(hyps0, g0, 0.6)
            t += t1
            if r1 == "unsat":
                return r1, b1, t, a1
        if ps is not None:
            total = t
            for h, x in ps:
                if z3.is_true(x):
                    continue
                r1, b1, t1, a1 = prove(hyps + h, x, op, False)
                total += t1
                if r1 != "unsat":
                    break
            else:
                return "unsat", b + " split", total, asserts
            t = total
            if not top:
                return r, b, t, asserts
        if brief_only:
            return r, b, t, asserts
        r2, b2, t2, a2 = attempt(hyps0, g0, 3)
        if r2 == "unsat":
            return r2, b2, t + t2, a2
        if os.environ.get("VC_TRACE"):
            print("    FAILED", g0, flush=True)
        return r, b, t + t2, asserts

    return prove(list(o.pc), o.goal, frozenset())


def vacuous(eng, pc, timeout=1.5):
    facts = list(eng.root.facts) + list(eng.axioms)
    forms = fact_formulas(facts) + fact_formulas([Fact(a) for a in eng.global_axioms()])
    rel = relevant(forms, list(pc))
    s = z3.SimpleSolver()
    s.set("timeout", int(timeout * 1000))
    for k, v in {"smt.mbqi": False, "smt.auto_config": False}.items():
        s.set(k, v)
    for a in rel + list(pc):
        s.add(a)
    return str(s.check())


def make(root):
    prog = Program(root, os.path.join(CONTRACTS, "stubs"))
    mods, cons = load(CONTRACTS)
    return prog, mods, cons


def contracts_by_qualname(prog, cons):
    out, absent = {}, []
    for t, c in cons.items():
        f = prog.find_function_anywhere(t)
        if f is None:
            absent.append(t)
        else:
            c.func = f
            out[f.qualname] = c
    return out, absent


PROTECTED = ("SVDDevice", "SVDPeripheral")


LOST = {"quick": 60, "thorough": 600}  # seconds
DEADLINE = {"quick": 300, "thorough": 1200}


def run_function(job):
    root, target, props, timeout, tier, dump, deadline = job
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    prog, mods, cons = make(root)
    by, absent = contracts_by_qualname(prog, cons)
    con = cons[target]
    f = con.func
    res = {"target": target, "obligations": [], "used": [], "inlined": [], "assumptions": [], "frame_ok": 0, "line": f.node.lineno, "file": f.module.path}
    eng = VC(prog, by, mods)
    eng.protected = {c.name for c in prog.classes.values() if c.module.name == "svdsuite.model.parse"}
    try:
        eng.verify(con, f)
    except Unsupported as e:
        res["obligations"].append({"name": f"{target}: verification conditions", "status": "unsupported", "function": target, "backend": "vc generator", "time": round(time.time() - t0, 3),
                                   "props": sorted(con.all_props()), "detail": f"line {eng.line}: {e}"})
        res["gen"] = time.time() - t0
        if dump:
            traceback.print_exc()
        return res
    except Exception as e:  # the generator does not understand the code: nothing about it is proved
        res["obligations"].append({"name": f"{target}: verification conditions", "status": "unsupported", "function": target, "backend": "vc generator", "time": 0,
                                   "props": sorted(con.all_props()), "detail": f"line {eng.line}: {type(e).__name__} {str(e)[:200]}"})
        if dump:
            traceback.print_exc()
        return res
    res["gen"] = time.time() - t0
    res["used"] = sorted(eng.used_contracts)
    res["inlined"] = sorted(eng.inlined)
    res["assumptions"] = sorted(eng.assumptions)
    res["frame_ok"] = eng.frame_ok
    names = {}
    vac = [vacuous(eng, pc) for pc in eng.vac]
    res["vacuity"] = vac
    if eng.vac and all(v == "unsat" for v in vac):
        res["obligations"].append({"name": f"{target}: some execution returns", "status": "vacuous", "function": target, "backend": "z3", "time": 0, "props": sorted(con.all_props()),
                                   "detail": "the facts about every returning path are contradictory"})
    lost = 0.0  # seconds spent on obligations that are not discharged: when many fail, the rest is only tried briefly
    for o in eng.obligs:
        n = names.get(o.name, 0)
        names[o.name] = n + 1
        nm = o.name + (f"#{n}" if n else "")
        if z3.is_true(o.goal):
            r, b, t, asserts = "unsat", "vc generator", 0.0, []
        elif lost and time.time() > deadline:
            r, b, t, asserts = "unknown", "not attempted", 0.0, []
        else:
            if os.environ.get("VC_TRACE"):
                print("  *", nm, flush=True)
            t1 = time.time()
            r, b, t, asserts = discharge(eng, o, timeout, tier, lost > LOST[tier] or bool(lost) and t1 > deadline - 90)
            if r != "unsat":
                lost += time.time() - t1
        d = {"name": nm, "status": "discharged" if r == "unsat" else "refuted" if r == "sat" else "unknown", "function": target, "backend": b, "time": round(t, 3), "props": sorted(o.props),
             "kind": o.kind, "detail": "" if r == "unsat" else f"line {o.line}; goal {str(o.goal)[:400]}"}
        res["obligations"].append(d)
        if dump and r != "unsat":
            s = z3.Solver()
            for a in asserts:
                s.add(a)
            open(f"/tmp/w/vc_{len(res['obligations'])}.smt2", "w").write(s.to_smt2())
    res["total"] = time.time() - t0
    return res


def select(cons, prop):
    """contracts needed for a property: those that state it and, transitively (added after the run), the contracts they rely on"""
    return [t for t, c in cons.items() if prop is None or prop in c.all_props()]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--root", default="/repo/src")
    ap.add_argument("--out")
    ap.add_argument("--fn")
    ap.add_argument("--timeout", type=float, default=None)
    ap.add_argument("--dump", action="store_true")
    ap.add_argument("-j", type=int, default=6)
    a = ap.parse_args()
    t0 = time.time()
    timeout = a.timeout or (10 if a.tier == "quick" else 30)
    prog, mods, cons = make(a.root)
    by, absent = contracts_by_qualname(prog, cons)
    todo = [t for t in select(cons, a.prop) if t not in absent and not cons[t].trusted]
    if a.fn:
        todo = [t for t in cons if a.fn in t and t not in absent]
    done, results = set(), {}
    ctx = mp.get_context("fork")
    with ctx.Pool(a.j, maxtasksperchild=1) as pool:
        while todo:
            jobs = [(a.root, t, None, timeout, a.tier, a.dump, t0 + DEADLINE.get(a.tier, 300)) for t in todo]
            done |= set(todo)
            nxt = set()
            for r in pool.imap_unordered(run_function, jobs):
                results[r["target"]] = r
                if os.environ.get("VC_TRACE"):
                    print("done", r["target"], round(r.get("total", 0), 1), flush=True)
                for u in r["used"]:
                    nxt.add(u)
            todo = []
    obl = []
    direct = set(select(cons, a.prop))
    for t, r in sorted(results.items()):
        for o in r["obligations"]:
            mine = a.prop is None or a.prop in o["props"] or ("*" in o["props"] and t in direct)
            if mine:
                obl.append(o)
    used = sorted({u for r in results.values() for u in r["used"]})
    relies = sorted(t for t in used if t not in direct and not cons[t].trusted)
    out = {"property": a.prop, "obligations": obl, "functions": sorted({o["function"] for o in obl}), "relies_on": relies, "inlined": sorted({i for r in results.values() for i in r["inlined"]}),
           "trusted": [{"function": t, "reason": cons[t].trusted} for t in used if cons[t].trusted], "absent": absent,
           "assumptions": sorted({x for r in results.values() for x in r["assumptions"]}), "frame_writes_checked": sum(r["frame_ok"] for r in results.values()),
           "vacuity": {t: r.get("vacuity") for t, r in results.items()}, "bounded": [], "solver_s": round(sum(o["time"] for o in obl), 2), "wall_s": round(time.time() - t0, 2), "digest": prog.digest()}
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1)
    bad = [o for o in obl if o["status"] != "discharged"]
    print(f"{len(obl)} obligations, {len(bad)} not discharged, {len(results)} functions, {out['wall_s']} s wall, {out['solver_s']} s solver")
    for t, r in sorted(results.items()):
        if a.fn or a.prop is None or a.dump:
            k = len(r["obligations"])
            print(f"  {t}: {k} obligations, gen {r.get('gen', 0):.2f} total {r.get('total', 0):.2f} vac {r.get('vacuity')}")
    for o in bad:
        print("  ", o["status"], o["name"], o["time"], o["detail"][:300])
    return 0


if __name__ == "__main__":
    sys.exit(main())
