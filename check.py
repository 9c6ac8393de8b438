#!/usr/bin/env python3
"""Decides one property on the working tree of /repo.

    check.py C05 [--tier quick|thorough]     exit 0: holds on everything explored, 1: VIOLATION line
    check.py --replay FILE                   runs a recorded failing input again against the working tree

Two parts run side by side: the deductive part (pyvc: obligations generated from the current source against the
contracts in contracts/) and the public-API part (oracle/: search for, and replay of, a failing input)."""
import argparse
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TIERS = {"quick": dict(seconds=9.0, cases=3200, workers=4, ext_seconds=60.0), "thorough": dict(seconds=420.0, cases=400000, workers=7, ext_seconds=120.0)}


def env(scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", VP_SCRATCH=scratch, PYTHONHASHSEED="0", TMPDIR=scratch)
    return e


def oracle_start(prop, seed, workers, seconds, cases, scratch, salt=0):
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", "*.json")))
    out = []
    for w in range(workers):
        f = open(os.path.join(scratch, f"o{salt}_{w}.out"), "w+")
        e = env(scratch)
        e["PYTHONHASHSEED"] = str((seed + w) % 4294967295)
        p = subprocess.Popen([PY, os.path.join(HERE, "oracle", "run.py"), "search", prop, str(seed + 1000003 * salt), str(w), str(workers), str(seconds), str(cases)] + corpus,
                             stdout=f, stderr=subprocess.STDOUT, env=e, cwd=scratch)
        out.append((p, f))
    return out


def oracle_wait(procs, limit):
    end = time.time() + limit
    res, trouble = [], []
    for p, f in procs:
        try:
            p.wait(max(1.0, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        f.flush()
        f.seek(0)
        t = f.read()
        f.close()
        i = t.rfind("@@RESULT ")
        if i < 0:
            trouble.append(f"worker ended with {p.returncode}: {t[-600:]}")
        else:
            res.append(json.loads(t[i + 9:].splitlines()[0]))
    return res, trouble


def replay(path, quiet=False):
    scratch = tempfile.mkdtemp(prefix="vp_")
    try:
        p = subprocess.run([PY, os.path.join(HERE, "oracle", "run.py"), "replay", path], capture_output=True, text=True, env=env(scratch), cwd=scratch, timeout=120)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    i = p.stdout.rfind("@@RESULT ")
    if i < 0:
        return [f"replay failed: {p.stderr[-800:]}"]
    m = json.loads(p.stdout[i + 9:].splitlines()[0])["messages"]
    return m


def known_findings():
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt"), encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property="):
                pid, _, rest = line[len("known: property="):].partition(" ")
                out.append((pid, rest))
    except FileNotFoundError:
        pass
    return out


def proof(prop, tier, scratch):
    """the deductive part in a process of its own -> Popen, result file"""
    if not os.path.exists(os.path.join(HERE, "pyvc", "verify.py")):
        return None, None
    out = os.path.join(scratch, "proof.json")
    e = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    log = open(os.path.join(scratch, "proof.log"), "w")
    p = subprocess.Popen([sys.executable, "-m", "pyvc.verify", prop, "--tier", tier, "--root", os.path.join(REPO, "src"), "--out", out], stdout=log, stderr=subprocess.STDOUT, env=e, cwd=HERE)
    return p, out


def write_replay(prop, v):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}_{h}.json")
    json.dump(v, open(path, "w"), indent=1, default=str)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        m = replay(a.replay)
        for x in m:
            print(x)
        sys.exit(1 if m else 0)
    tier = a.tier if a.tier in TIERS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = TIERS[tier]
    prop = a.prop
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp_")
    violation = None
    pr = {"obligations": [], "functions": [], "assumptions": [], "trusted": [], "solver_s": 0.0}
    try:
        pp, pout = proof(prop, tier, scratch)
        ores, trouble = oracle_wait(oracle_start(prop, seed, cfg["workers"], cfg["seconds"], cfg["cases"], scratch), cfg["seconds"] * 3 + 60)
        if trouble:  # a worker died: once more, alone
            r2, trouble = oracle_wait(oracle_start(prop, seed, 1, cfg["seconds"], cfg["cases"] // 4, scratch, 1), cfg["seconds"] * 3 + 60)
            ores += r2
            if trouble:
                violation = {"property": prop, "kind": "library does not run", "messages": trouble}
        if pp is not None:
            try:
                pp.wait(600 if tier == "quick" else 1500)
            except subprocess.TimeoutExpired:
                pp.kill()
                pp.wait()
            if os.path.exists(pout):
                pr = json.load(open(pout))
            else:
                log = open(os.path.join(scratch, "proof.log")).read()[-3000:]
                pr["obligations"] = [{"name": f"{prop}: generation of the obligations", "status": "error", "detail": log, "function": "-", "backend": "-", "time": 0}]
        failed = [o for o in pr["obligations"] if o["status"] != "discharged"]
        for r in ores:
            if r["violation"] and (violation is None or violation.get("kind")):
                violation = dict(r["violation"], property=prop, obligations=[o["name"] for o in failed][:20])
        extended = 0
        if failed and violation is None:  # an obligation fails: search longer for an input that shows it
            ext, _ = oracle_wait(oracle_start(prop, seed, 7, cfg["ext_seconds"], 10 ** 7, scratch, 2), cfg["ext_seconds"] * 2 + 60)
            for r in ext:
                extended += r["evaluations"]
                if r["violation"] and violation is None:
                    violation = dict(r["violation"], property=prop, obligations=[o["name"] for o in failed][:20])
            ores += ext
            if violation is None:
                violation = {"property": prop, "kind": "undischarged", "obligations": failed[:50]}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    evals = sum(r["evaluations"] for r in ores)
    n_ob, n_dis = len(pr["obligations"]), sum(o["status"] == "discharged" for o in pr["obligations"])
    checkers = {}
    for r in ores:
        for k, v in r["checkers"].items():
            checkers[k] = checkers.get(k, 0) + v
    backends = {}
    for o in pr["obligations"]:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    level = "exploration"
    try:
        level = next(c["level"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"] if c["property"] == prop)
    except (OSError, StopIteration, ValueError, KeyError):
        pass
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
        "coverage": {
            "obligations": n_ob, "discharged": n_dis, "undischarged": [o["name"] for o in failed][:30],
            "checker_cmd": f"python3-vt -m pyvc.verify {prop} --tier {tier} --root /repo/src",
            "trusted_base": pr.get("trusted", []),
            "functions_under_contract": pr.get("functions", []), "functions_verified_inline": pr.get("inlined", []),
            "callee_contracts_decided_by_other_checks": pr.get("relies_on", []), "contracts_without_a_function": pr.get("absent", []), "back_ends": backends, "solver_s": pr.get("solver_s", 0.0),
            "obligation_names": [o["name"] for o in pr["obligations"]][:400],
            "vacuity_checks": pr.get("vacuity", {}), "writes_shown_local": pr.get("frame_writes_checked", 0),
            "bounded_functions": pr.get("bounded", []),
            "source_digest": pr.get("digest", ""),
            "evaluations": evals, "distinct_nontrivial": sum(r["distinct"] for r in ores), "skipped": sum(r["skipped"] for r in ores),
            "rule": "bounded stand-in and replay of the public API: seeded random device descriptions (oracle/run.py PROFILES), each judged by a reference written from the "
                    "property texts; a case is non-trivial when the reference decides it (not skipped) and no identical case was run before",
            "checkers": checkers, "corpus_cases": sum(r["corpus"] for r in ores),
            "samples": [s for r in ores for s in r["samples"]][:3],
        },
        "assumptions": pr.get("assumptions", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    for pid, what in known_findings():
        if pid == prop:
            f = os.path.join(HERE, "findings", what.split()[0] + ".json")
            m = replay(f) if os.path.exists(f) else ["?"]
            if m:
                print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop}: {n_dis}/{n_ob} obligations discharged, {evals} cases judged, {time.time() - t0:.1f} s")
    if violation:
        path = write_replay(prop, violation)
        for m in violation.get("messages", [])[:3]:
            print("  " + str(m)[:600])
        for o in violation.get("obligations", [])[:5]:
            print("  failed obligation: " + (o if isinstance(o, str) else o["name"])[:300])
        print(f"VIOLATION property={prop} replay={path}" + ("" if violation.get("checker") else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
