"""Mutation testing of the contracts (development tool, no check uses it).

    mutvc.py FN [FN ...]      mutants inside functions whose target contains FN; lists those that no obligation notices
"""
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
from pyvc import verify as V

ROOT = os.environ.get("VP_REPO", "/repo") + "/src"


def one(job):
    rel, text, target, line, why, new = job
    d = tempfile.mkdtemp(prefix="mv_", dir="/tmp/w")
    try:
        shutil.copytree(ROOT, d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "src", rel), "w").write(text)
        try:
            r = V.run_function((d + "/src", target, None, 2.0, "quick", False, float("inf")))
        except BaseException as e:
            return (target, line, why, new, "crash " + type(e).__name__)
        bad = [o for o in r["obligations"] if o["status"] != "discharged"]
        return (target, line, why, new, bad[0]["status"] if bad else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    prog, mods, cons = V.make(ROOT)
    by, absent = V.contracts_by_qualname(prog, cons)
    jobs = []
    for t, c in cons.items():
        if not any(a in t for a in sys.argv[1:]) or t in absent or c.trusted:
            continue
        f = c.func
        p = f.module.path
        src = open(p).read()
        a, b = f.node.lineno, f.node.end_lineno
        for s, e, new, why, line in mutate.mutants(src):
            if a <= line <= b:
                raw = src.encode()
                text = (raw[:s] + new.encode() + raw[e:]).decode()
                try:
                    compile(text, p, "exec")
                except SyntaxError:
                    continue
                jobs.append((os.path.relpath(p, ROOT), text, t, line, why, new))
    seen, todo = set(), []
    for j in jobs:
        if (j[1], j[2]) not in seen:
            seen.add((j[1], j[2]))
            todo.append(j)
    tot, st = 0, {}
    with mp.get_context("fork").Pool(7, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(one, todo):
            tot += 1
            st[r[4]] = st.get(r[4], 0) + 1
            if r[4] in ("", "unsupported") or r[4].startswith("crash"):
                print("  ", r[0].split(":")[1], r[1], r[2], repr(r[3][:90]), r[4] or "UNNOTICED", flush=True)
    print(tot, st)


if __name__ == "__main__":
    main()
