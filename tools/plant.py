"""plant.py FILE: development tool.  FILE is a python file defining BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=str)}.
Confirms each bug in a scratch copy (build, stable tests, demo on both trees) and writes seeded/<id>."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys, warnings
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
warnings.simplefilter("ignore")


def doc(periphs, head="", size="<size>32</size>"):
    return ('<?xml version="1.0"?><device schemaVersion="1.3" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="x.xsd">'
            '<name>D</name><version>1</version><description>d</description>' + head + '<addressUnitBits>8</addressUnitBits><width>32</width>' + size
            + '<peripherals>' + periphs + '</peripherals></device>')


def periph(body, name="P", base="0x40000000", extra="", attr="", blocks='<addressBlock><offset>0</offset><size>0x1000</size><usage>registers</usage></addressBlock>'):
    return (f'<peripheral{attr}><name>{name}</name>{extra}<baseAddress>{base}</baseAddress>{blocks}'
            + (f'<registers>{body}</registers>' if body else '') + '</peripheral>')


def reg(name="R", off=0, body="", extra="", attr=""):
    return f'<register{attr}>{extra}<name>{name}</name><addressOffset>{off}</addressOffset>' + body + '</register>'


def process(x):
    from svdsuite.process import Process
    return Process.from_xml_str(x).get_processed_device()


def rejected(x):
    from svdsuite.process import ProcessException
    try:
        process(x)
    except ProcessException:
        return True
    return False


def warned(x):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        process(x)
    return [str(w.message) for w in rec]


'''
SH = '''#!/bin/bash
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for bid, b in ns["BUGS"].items():
    if only and bid not in only:
        continue
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp/w")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d])
        demo = os.path.join(d, "zz_demo")
        os.makedirs(demo)
        open(demo + "/demo.py", "w").write(HEAD + b["demo"])
        open(demo + "/demo.sh", "w").write(SH)
        r0 = subprocess.run(["bash", demo + "/demo.sh"], cwd=d, capture_output=True, text=True)
        for f, old, new in b["edits"]:
            p = os.path.join(d, "src/svdsuite", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, "EDIT MATCHES", s.count(old), f, old[:60])
            s = s.replace(old, new)
            open(p, "w").write(s)
        r1 = subprocess.run(["bash", demo + "/demo.sh"], cwd=d, capture_output=True, text=True)
        if r0.returncode or not r1.returncode:
            print(bid, "DEMO", r0.returncode, r1.returncode, r0.stderr[-400:], r1.stderr[-200:])
            continue
        if subprocess.run(["/opt/venv/bin/python", "-m", "compileall", "-q", "src"], cwd=d, env=dict(os.environ, PYTHONPYCACHEPREFIX=d + "/zz_pyc")).returncode:
            print(bid, "BUILD")
            continue
        shutil.rmtree(demo)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=100", "-rfE", "tests"], cwd=d, capture_output=True, text=True,
                           env=dict(os.environ, LC_ALL="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1"))
        bad = []
        for line in t.stdout.splitlines():
            if line.startswith(("FAILED ", "ERROR ")):
                parts = line.split(" ", 1)[1].split(" - ")[0].split("::")
                bad.append(".".join([parts[0].replace("/", ".").removesuffix(".py")] + parts[1:-1]) + "::" + parts[-1])
        if t.returncode not in (0, 1) or [x for x in bad if x in stable] or (t.returncode and not bad):
            print(bid, "TESTS", t.stdout[-600:])
            continue
        diff = subprocess.run(["git", "diff", "--", "src"], cwd=d, capture_output=True, text=True).stdout
        o = os.path.join(HERE, "seeded", bid)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.py", "w").write(HEAD + b["demo"])
        open(o + "/demo.sh", "w").write(SH)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print(bid, "ok", r1.stderr.strip().splitlines()[-1][:150] if r1.stderr.strip() else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
