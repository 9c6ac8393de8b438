"""Writes MANIFEST.json from properties.jsonl and the contracts present."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
try:
    from contracts.levels import NOTES
except ImportError:
    NOTES = {}
checks = []
for p in props:
    i = p["id"]
    level, note = NOTES.get(i, ("exploration", "bounded: seeded random descriptions judged by a reference; no obligations yet"))
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt check.py {i} --tier quick",
        "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
        "technique": ("contract-based deductive verification of the real source (own VC generator over the Python AST, z3/cvc5), with a bounded public-API oracle for replay"
                      if level == "proof" else "contract checked at run time on the real functions over generated inputs (bounded)"),
        "level": level, "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "check.py runs the deductive part (pyvc/ with contracts/) and the public-API part (oracle/) for one property; see DESIGN.md"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
