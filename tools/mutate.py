"""Mutation testing of the checks (development tool, no check uses it).

    mutate.py gen OUT.json N SEED            random mutants of /repo/src that keep the stable tests passing
    mutate.py judge IN.json OUT.json         runs the checks of all properties against each of them
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

FILES = {"process.py": 10, "resolve/resolver.py": 4, "resolve/graph.py": 3, "parse.py": 4, "serialize.py": 3, "map.py": 1, "validate.py": 1,
         "util/process_parse_model_convert.py": 3, "util/xml_parse.py": 1, "model/process.py": 3, "model/types.py": 1}
SRC = "/repo/src/svdsuite/"


def segs(src):
    off = [0]
    for l in src.splitlines(keepends=True):
        off.append(off[-1] + len(l.encode()))
    return lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)


def mutants(src):
    tree = ast.parse(src)
    pos = segs(src)
    attrs = {}
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            attrs[fn] = sorted({a.attr for a in ast.walk(fn) if isinstance(a, ast.Attribute)})
    out = []

    def add(n, new, why):
        a, b = pos(n)
        out.append((a, b, new, why, n.lineno))
    for fn in attrs:
        if fn.name == "get_svg":
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                          ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(type(n.ops[0]), []):
                    c = copy.copy(n)
                    c.ops = [o()]
                    add(n, ast.unparse(c), "compare")
                if isinstance(n.ops[0], ast.IsNot):
                    add(n, ast.unparse(n.left), "truthiness")
            if isinstance(n, ast.BoolOp):
                c = copy.copy(n)
                c.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
                add(n, "(" + ast.unparse(c) + ")", "andor")
                add(n, "(" + ast.unparse(n.values[0]) + ")", "drop-cond")
                add(n, "(" + ast.unparse(n.values[-1]) + ")", "drop-cond")
            if isinstance(n, ast.Call):
                nm = ast.unparse(n.func)
                if nm == "or_if_none":
                    add(n, f"({ast.unparse(n.args[0])} or {ast.unparse(n.args[1])})", "or")
                    add(n, ast.unparse(n.args[0]), "drop-base")
                    add(n, f"or_if_none({ast.unparse(n.args[1])}, {ast.unparse(n.args[0])})", "swap")
                if nm == "sorted":
                    add(n, f"list({ast.unparse(n.args[0])})", "nosort")
                if nm in ("max", "sum"):
                    add(n, n and ast.unparse(n).replace(nm, "min", 1), "min")
                for k in n.keywords:
                    if not isinstance(k.value, ast.Constant):
                        add(k.value, "None", "kw-none")
                if nm.endswith(("lower", "strip")):
                    add(n, ast.unparse(n.func.value), "nolower")
            if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                add(n, str(n.value + 1), "const")
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and len(attrs[fn]) > 1:
                for _ in range(1):
                    o = random.choice([a for a in attrs[fn] if a != n.attr])
                    c = copy.copy(n)
                    c.attr = o
                    add(n, ast.unparse(c), "attr")
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                c = copy.copy(n)
                c.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
                add(n, "(" + ast.unparse(c) + ")", "addsub")
            if isinstance(n, ast.IfExp):
                add(n, "(" + ast.unparse(n.body) + ")", "ifexp")
                add(n, "(" + ast.unparse(n.orelse) + ")", "ifexp")
            if isinstance(n, (ast.Expr, ast.Raise, ast.Assign, ast.AugAssign, ast.Continue)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, "pass", "drop-stmt")
            if isinstance(n, ast.If):
                add(n.test, "(" + ast.unparse(n.test) + ") and True is False", "if-false")
                if len(n.orelse) == 0:
                    add(n.test, "True", "if-true")
            if isinstance(n, ast.comprehension):
                if n.ifs:
                    add(n.ifs[0], "True", "comp-if")
            if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
                add(n, "(" + ast.unparse(n.elts[0]) + ",)", "tuple")
            if isinstance(n, ast.For):
                add(n.iter, f"list({ast.unparse(n.iter)})[:1]", "first")
                add(n.iter, f"list({ast.unparse(n.iter)})[1:]", "rest")
    return out


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run_tests(d):
    e = dict(os.environ, LC_ALL="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60", "tests"],
                       cwd=d, env=e, capture_output=True, text=True, timeout=400)
    return p.returncode == 0


def gen(out, n, seed):
    random.seed(seed)
    pool = []
    for f, w in FILES.items():
        src = open(SRC + f).read()
        ms = mutants(src)
        random.shuffle(ms)
        k = int(n * w / sum(FILES.values()))
        pool += [(f,) + m for m in ms[:k]]
    res = []
    prog = [0]

    def one(m):
        f, a, b, new, why, line = m
        d = tempfile.mkdtemp(prefix="mut_", dir="/tmp/w")
        try:
            subprocess.run(["cp", "-a", "/repo/.", d])
            p = os.path.join(d, "src/svdsuite", f)
            s = open(p, "rb").read()
            s2 = s[:a] + new.encode() + s[b:]
            try:
                compile(s2, p, "exec")
            except SyntaxError:
                return None
            open(p, "wb").write(s2)
            try:
                ok = run_tests(d)
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                return None
            diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
            return {"file": f, "line": line, "why": why, "diff": diff}
        finally:
            shutil.rmtree(d, ignore_errors=True)
            prog[0] += 1
            if prog[0] % 50 == 0:
                print(prog[0], "/", len(pool), len(res), flush=True)
    with ThreadPoolExecutor(int(os.environ.get("MUT_WORKERS", "6"))) as ex:
        for r in ex.map(one, pool):
            if r:
                res.append(r)
                json.dump(res, open(out, "w"), indent=1)
    print("survivors", len(res), "of", len(pool))


PROPS = [f"C{i:02d}" for i in range(1, 29)]


def judge(inp, out):
    res = json.load(open(inp))
    HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def one(m):
        d = tempfile.mkdtemp(prefix="mut_", dir="/tmp/w")
        try:
            subprocess.run(["cp", "-a", "/repo/.", d])
            open(d + "/m.diff", "w").write(m["diff"])
            r = subprocess.run(["git", "apply", "m.diff"], cwd=d)
            if r.returncode:
                m["caught"] = ["does not apply"]
                return m
            caught = []
            f = m["file"]
            props = PROPS
            if f == "parse.py":
                props = ["C22", "C21", "C19", "C28"]
            elif f == "serialize.py":
                props = ["C19", "C20"]
            elif "convert" in f:
                props = ["C20", "C23"]
            elif f == "map.py":
                props = ["C24", "C23", "C28"]
            elif f == "validate.py":
                props = ["C25"]
            elif "xml_parse" in f:
                props = ["C28"]
            for p in props:
                e = dict(os.environ, VP_REPO=d, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", VP_SCRATCH=d)
                q = subprocess.run(["/opt/venv/bin/python", HERE + "/oracle/run.py", "search", p, "7", "0", "1", "12", "700"], env=e, capture_output=True, text=True, cwd=d)
                i = q.stdout.rfind("@@RESULT ")
                if i < 0:
                    caught.append(p + "!")
                    continue
                v = json.loads(q.stdout[i + 9:].splitlines()[0])["violation"]
                if v:
                    caught.append(p)
            m["caught"] = caught
            return m
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get("MUT_WORKERS", "6"))) as ex:
        done = []
        for r in ex.map(one, res):
            done.append(r)
            json.dump(done, open(out, "w"), indent=1)
            print(r["file"], r["line"], r["why"], r["caught"], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else:
        judge(sys.argv[2], sys.argv[3])
