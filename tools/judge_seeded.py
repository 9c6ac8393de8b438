"""judge_seeded.py [ids...]: development tool; runs the check of the property of each planted bug against a scratch copy that has it."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(HERE + "/seeded/*/meta.json"))
for i in ids:
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp/w")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d])
        r = subprocess.run(["git", "apply", f"{HERE}/seeded/{i}/patch.diff"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr)
            continue
        t = time.time()
        q = subprocess.run(["python3-vt", HERE + "/check.py", m["property"]], env=dict(os.environ, VP_REPO=d), capture_output=True, text=True)
        lines = q.stdout.strip().splitlines()
        print(i, q.returncode, f"{time.time()-t:.1f}s", [l for l in lines if "obligation" in l or l.startswith("VIOL")], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
