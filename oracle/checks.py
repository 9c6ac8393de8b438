"""Property-level checks of the real library through its public API.  A checker is a pair
    gen(rng, knobs) -> data (JSON)        judge(data) -> [(set of property ids, message)]
judge() rebuilds everything from data, so that a reported case can be replayed and shrunk."""
import copy
import dataclasses
import enum
import os
import random
import re
import tempfile
import warnings

import compare
import ref
import spec
from compare import acc, val

from svdsuite.map import PeripheralRegisterMap
from svdsuite.parse import Parser
from svdsuite.process import Process, ProcessException
from svdsuite.serialize import Serializer
from svdsuite.validate import Validator, SVDSchemaVersion

ALLP = {"C%02d" % i for i in range(1, 29)}


class Hang(Exception):
    pass


def run_process(arg, how="from_xml_str"):
    """-> (device or exception, [warning texts])"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            p = getattr(Process, how)(arg)
            r = p.get_processed_device()
            r_conv = p
        except Hang:
            raise
        except Exception as e:  # noqa: whatever escapes is judged
            return e, None, [str(w.message) for w in rec]
    return r, r_conv, [str(w.message) for w in rec]


# ------------------------------------------------------------------------------------------- whole devices
def gen_dev(r, knobs):
    s = r.randrange(1 << 40)
    return {"spec": spec.Gen(s, **knobs).device(), "fmt": r.randrange(1 << 30), "order": r.randrange(1 << 30)}


def dev_xml(d):
    return spec.to_xml(d["spec"], random.Random(d["fmt"]) if d.get("fmt") is not None else None,
                       random.Random(d["order"]) if d.get("order") is not None else None)


def judge_dev(d):
    x = dev_xml(d)
    try:
        e, W = ref.process(d["spec"])
        rej = None
    except ref.Reject as r:
        rej, e = r, None
    except ref.Unknown:
        got, _, _ = run_process(x)
        if isinstance(got, Exception) and not isinstance(got, ProcessException):
            return [({"C07"}, f"{type(got).__name__} escapes: {got}")]
        return None
    got, _, ws = run_process(x)
    if isinstance(got, Exception):
        if not isinstance(got, ProcessException):
            return [({"C07"} | (ALLP if rej is None else set()), f"{type(got).__name__} escapes: {got}")]
        if rej is None:
            return [(ALLP, f"a valid description is rejected: {got!r} ({got.__cause__!r})")]
        return []
    if rej is not None:
        return [(set(rej.tags), f"the description has to be rejected ({rej.why}) but a device is returned")]
    D = compare.device(e, got)
    out = list(D.d)
    out += judge_warnings(e, W, ws)
    return out


def judge_warnings(e, W, ws):
    out = []
    seen = set()
    for m in ws:
        if mm := re.search(r"'(.*?)' overlaps\s+with '(.*?)'", m):
            if "peripheral" in m.lower().split(":")[0]:
                seen.add(("pe" if "effective" in m.lower() else "ps", mm[1], mm[2]))
            elif "offset" not in m:
                seen.add(("rc", mm[1], mm[2]))
    for o in sorted(W["overlap"] - seen):
        out.append(({"C18"}, f"overlap of {o[1]} with {o[2]} ({o[0]}) is not warned about"))
    for o in sorted(seen - W["overlap"]):
        out.append(({"C18"}, f"warning about an overlap of {o[1]} with {o[2]} ({o[0]}) that does not exist or is declared"))
    need = {}
    for kind, name in W["dropped"]:
        need[(kind, name)] = need.get((kind, name), 0) + 1
    for (kind, name), n in sorted(need.items()):
        if name.lower() == "reserved" and kind in ("register", "field"):
            have = sum(1 for m in ws if ("reserved" in m.lower() and kind in m.lower()) or f"'{name}'" in m)
        else:
            have = sum(1 for m in ws if f"'{name}'" in m)
        if have < min(n, 1):
            out.append(({"C26", "C13"} if kind == "enumv" else {"C26"}, f"{kind} {name} is dropped without a warning"))
    return out


# ------------------------------------------------------------------------------------------- single values
H = ('<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" schemaVersion="1.3"><name>n</name><version>1</version>'
     '<description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals><peripheral><name>P</name>'
     '<baseAddress>0</baseAddress><addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock>'
     '<registers>%s</registers></peripheral></peripherals></device>')


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;")


IDX_PARTS = ["0", "1", "2", "3", "9", "10", "07", "A", "B", "C", "Z", "a", "z", "-", "-", ",", ",", ", ", " ", "_", "x", "AB", "[", "]", ":", ".", "99", "100", "+"]


def gen_index(r, knobs):
    c = r.randrange(9)
    if c == 0:
        s = "".join(r.choice(IDX_PARTS) for _ in range(r.randint(1, 6)))
        dim = r.randint(0, 4)
    elif c in (1, 2):
        a = r.choice([0, 1, 2, 5, 9, 10, 99, 998, 1000])
        n = r.randint(1, 12)
        s = f"{a}-{a + n - 1 + r.choice([0, 0, 0, 1, -1, -n])}"
        if r.random() < 0.15:
            s = f"{a:02d}-{a + n - 1:03d}"
        dim = n
    elif c in (3, 4):
        a = r.randrange(26)
        b = r.randrange(a, 26)
        s = f"{chr(65 + a)}-{chr(65 + b)}"
        dim = b - a + 1 + r.choice([0, 0, 0, 0, 1, -1])
        if r.random() < 0.1:
            s = s[::-1]
    elif c in (5, 6):
        n = r.randint(1, 9)
        s = r.choice([",", ", ", ",   ", ","]).join(r.choice(["A", "b", "C0", "x_1", "7", "08", "Zz", "_", "RX", "0", "12"]) + str(i) * r.randint(0, 1) for i in range(n))
        dim = n + r.choice([0, 0, 0, 0, 1, -1])
    elif c == 7:
        s, dim = None, r.choice([0, 1, 1, 2, 3, 10, 11, 33])
    else:
        s = r.choice(["A-A", "a-c", "A-z", "Z-A", "1-1", "0-0", "5-3", "-1", "1-", "1-2-3", "A-B-C", "0-A", "A,B-C", "0-3,4", " 0-3", "0 - 3", "0x0-0x3", "AA-AC",
                      "A,,B", ",A", "A,", "A;B", "0-1x", "A-Bx", "xA-B", "A-B,C", "1.5", "#0-#1", "0-3%", "é,b", "A\tB", "A,\tB", "0–3"])
        dim = r.randint(1, 4)
    return {"index": s, "dim": dim}


def judge_index(d):
    s, dim = d["index"], d["dim"]
    try:
        if dim < 1:
            raise ref.Reject("dim", ())
        if s is not None and not s.strip():
            return None
        exp = ref.dim_indices(dim, s)
    except ref.Reject:
        exp = None
    x = H % (f"<register><dim>{dim}</dim><dimIncrement>4</dimIncrement>" + (f"<dimIndex>{esc(s)}</dimIndex>" if s is not None else "")
             + "<name>R%s_</name><addressOffset>0</addressOffset></register>")
    got, _, _ = run_process(x)
    T = {"C09", "C08"}
    if isinstance(got, Exception):
        if not isinstance(got, ProcessException):
            return [({"C07"} | (T if exp is not None else set()), f"dimIndex {s!r}, dim {dim}: {type(got).__name__} escapes: {got}")]
        if exp is not None and len(set(exp)) == len(exp):
            return [(T, f"dimIndex {s!r} with dim {dim} is rejected: {got}")]
        return []
    names = [(p.name, p.address_offset) for p in got.peripherals[0].registers_clusters]
    if exp is None:
        return [(T, f"dimIndex {s!r} with dim {dim} has to be rejected, got {names}")]
    want = sorted([(f"R{e}_", 4 * i) for i, e in enumerate(exp)], key=lambda t: (t[1], t[0]))
    if names != want:
        return [(T, f"dimIndex {s!r} with dim {dim}: expected {want}, got {names}")]
    return []


def gen_enum(r, knobs):
    """one field with enumerated values"""
    w = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10])
    g = spec.Gen(r.randrange(1 << 40), **dict(dict(p_default=0.5, p_weird=0.1, p_dup=0.1, p_x=0.3, enum_max=r.choice([1, 3, 8, 20]), p_badliteral=0.03), **knobs))
    c = {"k": "enumc", "values": g.values(w)}
    if w <= 4 and r.random() < 0.3:  # dense
        vs = list(range(1 << w))
        r.shuffle(vs)
        c["values"] = [{"k": "enumv", "name": f"V{n}", "value": g.literal(n, w)} for n in vs[:r.randint(1, len(vs))]] + [
            v for v in c["values"] if v.get("is_default")]
    if r.random() < knobs.get("p_lit", 0.1):
        c["values"] = c["values"][:2]
        for v in c["values"]:
            v["value"] = "".join(r.choice(["0x", "0X", "#", "0b", "0B", "0", "1", "1", "x", "X", "2", "9", "a", "F", "_", "-", "+", " ", "g"]) for _ in range(r.randint(1, 5)))
    lo = r.choice([0, 0, 1, 5, 20])
    return {"width": w, "lsb": lo, "container": c}


def judge_enum(d):
    w, lo, c = d["width"], d["lsb"], d["container"]
    f = {"k": "field", "name": "F", "lsb": lo, "msb": lo + w - 1, "containers": [c]}
    dev = {"k": "device", "name": "n", "version": "1", "description": "d", "address_unit_bits": 8, "width": 32, "peripherals": [
        {"k": "peripheral", "name": "P", "base_address": 0, "address_blocks": [{"offset": 0, "size": 4, "usage": "registers"}], "children": [
            {"k": "register", "name": "R", "address_offset": 0, "fields": [f]}]}]}
    for v in c["values"]:  # texts are stripped by the parser
        if "value" in v and (v["value"] != v["value"].strip() or not v["value"]):
            return None
    x = spec.to_xml(dev)
    T = {"C13", "C14", "C15", "C16"}
    try:
        e, W = ref.process(dev)
        rej = None
    except ref.Reject as r:
        rej = r
    except ref.Unknown:
        return None
    got, _, ws = run_process(x)
    show = [(v["name"], v.get("value"), v.get("is_default")) for v in c["values"]]
    if isinstance(got, Exception):
        if not isinstance(got, ProcessException):
            return [({"C07"} | (T if rej is None else set()), f"values {show} of a {w} bit field: {type(got).__name__} escapes: {got}")]
        return [] if rej is not None else [(T, f"values {show} of a {w} bit field are rejected: {got} ({got.__cause__})")]
    if rej is not None:
        return [(set(rej.tags), f"values {show} of a {w} bit field have to be rejected ({rej.why})")]
    want = e["peripherals"][0]["rc"][0]["fields"][0]["containers"][0]["values"]
    have = got.peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers[0].enumerated_values
    a = [(v["value"], v["name"], v["description"]) for v in want]
    b = [(v.value, v.name, v.description) for v in have]
    out = []
    if a != b:
        t = {"C13"}
        if any(v.get("is_default") for v in c["values"]):
            t.add("C15")
        if [x[0] for x in sorted(a)] != [x[0] for x in sorted(b)] or True:
            t.add("C14")
        out.append((t, f"values {show} of a {w} bit field: expected {a}, got {b}"))
    n = len(W["dropped"])
    if n and sum("ignored" in m.lower() or "ignoring" in m.lower() for m in ws) < 1:
        out.append(({"C13", "C26"}, f"values {show} of a {w} bit field: no warning about ignored values"))
    return out


def gen_pos(r, knobs):
    """position elements of a field, stand-alone or derived"""
    def pos():
        d = {}
        for k, p in (("bit_offset", 0.4), ("bit_width", 0.4), ("lsb", 0.4), ("msb", 0.4), ("bit_range", 0.35)):
            if r.random() < p:
                d[k] = r.choice([0, 1, 3, 7, 8, 31]) if k != "bit_range" else None
        if "bit_width" in d:
            d["bit_width"] = r.choice([1, 2, 8, 32])
        if "bit_range" in d:
            a, b = r.choice([0, 1, 3, 8]), r.choice([0, 4, 9, 31])
            d["bit_range"] = r.choice([f"[{b}:{a}]", f"[{b}:{a}]", f"[{a}:{b}]", f"[{a:02d}:{a}]", "7:0", "[7]", "[a:b]", "[-1:0]", "[1:0"])
        return d
    out = {"own": pos(), "base": None, "dim": None}
    if r.random() < 0.6:
        l = r.choice([0, 2, 5])
        out["base"] = r.choice([{"lsb": l, "msb": l + r.choice([0, 1, 7])}, {"bit_offset": l, "bit_width": r.choice([1, 4])}, {"bit_range": f"[{l + 3}:{l}]"}, pos()])
    if r.random() < 0.25:
        out["dim"] = [r.randint(1, 3), r.choice([40, 50, None, 64])]
    return out


def judge_pos(d):
    fs = []
    if d["base"] is not None:
        fs.append(dict({"k": "field", "name": "B", "access": "ro"}, **d["base"]))
    f = dict({"k": "field", "name": "F", "access": "wo"}, **d["own"])
    if d["base"] is not None:
        f["derived_from"] = "B"
    if d["dim"]:
        f["name"], f["dim"] = "F%s", d["dim"][0]
        if d["dim"][1] is not None:
            f["dim_increment"] = d["dim"][1]
    fs.append(f)
    return judge_dev({"spec": small(children=[{"k": "register", "name": "R", "address_offset": 0, "size": 128, "fields": fs}])})


def small(**kw):
    return {"k": "device", "name": "n", "version": "1", "description": "d", "address_unit_bits": 8, "width": 32, "peripherals": [
        dict({"k": "peripheral", "name": "P", "base_address": 0, "address_blocks": [{"offset": 0, "size": 4, "usage": "registers"}]}, **kw)]}


# ------------------------------------------------------------------------------------------- snapshots of object trees
def snap(o, parent=True, skip=(), depth=0, path=None):
    """value of a dataclass tree; parents and origins are recorded by position"""
    seen = {}

    def go(x, where):
        if dataclasses.is_dataclass(x) and not isinstance(x, type):
            seen[id(x)] = where
            out = [type(x).__name__]
            for f in dataclasses.fields(x):
                if f.name in skip:
                    continue
                v = getattr(x, f.name)
                if f.name == "parent":
                    out.append(("parent", None if v is None else seen.get(id(v), "elsewhere")) if parent else None)
                else:
                    out.append((f.name, go(v, where + (f.name,))))
            return tuple(out)
        if isinstance(x, (list, tuple)):
            return (type(x).__name__,) + tuple(go(y, where + (i,)) for i, y in enumerate(x))
        if isinstance(x, enum.Enum):
            return (type(x).__name__, x.name)
        if isinstance(x, (str, int, bool, type(None), float, bytes)):
            return (type(x).__name__, x)
        if isinstance(x, (set, frozenset)):
            return ("set", tuple(sorted(map(repr, x))))
        if isinstance(x, dict):
            return ("dict", tuple((k, go(v, where + (k,))) for k, v in x.items()))
        return ("object", type(x).__name__)
    return go(o, ())


def first_diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{path}: {len(a)} against {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                lab = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
                return first_diff(x, y, f"{path}/{lab}")
    return f"{path}: {str(a)[:200]} against {str(b)[:200]}"


# ------------------------------------------------------------------------------------------- C17: declaration order
def has_ambiguity(sp):
    """registers that share a path (alternate groups) or equally named siblings: which of them a path names depends on order"""
    def walk(e):
        kids = e.get("children", []) + e.get("fields", [])
        ns = [k["name"] for k in kids]
        if len(set(ns)) != len(ns):
            return True
        return any(walk(k) for k in kids)
    ns = [p["name"] for p in sp["peripherals"]]
    return len(set(ns)) != len(ns) or any(walk(p) for p in sp["peripherals"])


def shuffled(sp, r):
    sp = copy.deepcopy(sp)

    def walk(e):
        for k in ("children", "fields", "containers"):
            if k in e:
                for c in e[k]:
                    walk(c)
                r.shuffle(e[k])
    for p in sp["peripherals"]:
        walk(p)
    r.shuffle(sp["peripherals"])
    return sp


SKIP_ORIGIN = ("parsed", "parent", "processed")


def gen_order(r, knobs):
    d = gen_dev(r, knobs)
    d["perm"] = r.randrange(1 << 30)
    return d


def judge_order(d):
    if heavy(d):
        return None
    sp = d["spec"]
    if has_ambiguity(sp):
        return None
    try:
        ref.process(sp)
    except ref.Reject as e:
        if "C13" in e.tags or "C15" in e.tags:
            return None
    except ref.Unknown:
        return None
    a, _, _ = run_process(spec.to_xml(sp))
    b, _, _ = run_process(spec.to_xml(shuffled(sp, random.Random(d["perm"])), None, random.Random(d["perm"] + 1)))
    if isinstance(a, Exception) != isinstance(b, Exception):
        return [({"C17"}, f"result depends on the order of declarations: {a!r:.200} against {b!r:.200}")]
    if isinstance(a, Exception):
        return []
    x, y = snap(a, False, SKIP_ORIGIN), snap(b, False, SKIP_ORIGIN)
    if x != y:
        return [({"C17"}, "result depends on the order of declarations: " + str(first_diff(x, y)))]
    out = []
    key = [(p.base_address, p.name) for p in b.peripherals]
    if key != sorted(key):
        out.append(({"C17"}, f"peripherals are not ordered by address and name: {key}"))
    return out


# ------------------------------------------------------------------------------------------- C19, C20
def parse(x, how="from_xml_str"):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(Parser, how)(x).get_parsed_device()


def gen_rt(r, knobs):
    return dict(gen_dev(r, dict(dict(p_attr=0.5, p_wc=0.4, p_cpu=0.7, p_meta=0.6, p_dimarr=0.3, p_enum=0.4, p_alt=0.3), **knobs)), variant=r.randrange(12))


def serialised(dev, variant, tmp):
    """-> parsed again"""
    form, pp, decl = variant % 3, bool(variant // 3 % 2), bool(variant // 6)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if form == 0:
            return Parser.from_xml_str(Serializer.device_to_svd_str(dev, pretty_print=pp)).get_parsed_device()
        if form == 1:
            return Parser.from_xml_content(Serializer.device_to_svd_content(dev, pretty_print=pp, xml_declaration=decl)).get_parsed_device()
        path = os.path.join(tmp, "x.svd")
        Serializer.device_to_svd_file(path, dev, pretty_print=pp, xml_declaration=decl)
        return Parser.from_svd_file(path).get_parsed_device()


def heavy(d, limit=6000):
    """number of elements after expansion, estimated from the description (derivation not counted)"""
    def n(e):
        k = sum(n(c) for key in ("children", "fields", "containers", "values", "peripherals") for c in e.get(key, []))
        if e.get("k") == "enumc" and any(v.get("is_default") for v in e.get("values", [])):
            k += 64
        return (1 + k) * (e.get("dim") or 1)
    return n(d["spec"]) > limit


def no_peripherals(dev, e):
    """exactly the recorded finding: the serialiser leaves <peripherals> out of a device without peripherals, the parser insists on it"""
    return not dev.peripherals and type(e).__name__ == "ParserException" and str(e) == "can't find peripherals element"


def judge_rt(d):
    try:
        p = parse(dev_xml(d))
    except Exception as e:
        return [(ALLP, f"a valid document cannot be parsed: {e!r}")]
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_SCRATCH")) as t:
        try:
            q = serialised(p, d["variant"], t)
        except Exception as e:
            if no_peripherals(p, e):
                return None
            return [({"C19"}, f"serialising and parsing again fails: {e!r}")]
    a, b = snap(p), snap(q)
    if a != b:
        return [({"C19"}, "round trip changes the device: " + str(first_diff(a, b)))]
    return []


def judge_conv(d):
    if heavy(d):
        return None
    got, p, _ = run_process(dev_xml(d))
    if isinstance(got, Exception):
        return None
    out = []
    T = {"C20"}
    before = snap(got, skip=("parsed",))
    try:
        c = p.convert_processed_device_to_svd_device()
    except Exception as e:
        return [(T, f"conversion fails: {e!r}")]

    def eq(path, a, b):
        if val(a) != val(b) or type(val(a)) is not type(val(b)):
            out.append((T, f"{path}: expected {a!r}, got {b!r}"))

    def go(path, g, c, parent):
        if parent is not None and getattr(c, "parent", None) is not parent:
            out.append((T, f"{path}: parent is {getattr(c, 'parent', None)!r:.60}"))
        names = {f.name for f in dataclasses.fields(c)}
        for f in ("dim", "dim_increment", "dim_index", "derived_from"):
            if getattr(c, f, None) is not None:
                out.append((T, f"{path}: {f} is {getattr(c, f)!r}"))
        for f in dataclasses.fields(g):
            if f.name in ("parsed", "parent", "bit_offset", "bit_width", "bit_range") or f.name not in names:
                continue
            a, b = getattr(g, f.name), getattr(c, f.name)
            walk(f"{path}.{f.name}", f.name, a, b, c)

    def walk(path, name, a, b, c):
        if dataclasses.is_dataclass(a):
            if not dataclasses.is_dataclass(b):
                out.append((T, f"{path}: lost"))
            else:
                go(path, a, b, c)
        elif isinstance(a, list):
            if not isinstance(b, list) or len(a) != len(b):
                out.append((T, f"{path}: {len(a)} elements, converted {len(b) if isinstance(b, list) else b!r}"))
                return
            for i, (x, y) in enumerate(zip(a, b)):
                walk(f"{path}[{i}]", name, x, y, c)
        elif name == "value" and isinstance(b, str):
            try:
                if int(b, 0) != a:
                    out.append((T, f"{path}: {a!r} became {b!r}"))
            except ValueError:
                out.append((T, f"{path}: {a!r} became {b!r}"))
        else:
            eq(path, a, b)

    go(got.name, got, c, None)
    if snap(got, skip=("parsed",)) != before:
        out.append(({"C20", "C23"}, "conversion changes the processed device"))
    if out:
        return out[:5]
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_SCRATCH")) as t:
        try:
            q = serialised(c, d["variant"], t)
        except Exception as e:
            if no_peripherals(c, e):
                return None
            return [(T, f"the converted device cannot be serialised and parsed: {e!r}")]
    a, b = snap(c), snap(q)
    if a != b:
        out.append((T | {"C19"}, "round trip changes the converted device: " + str(first_diff(a, b))))
    return out


# ------------------------------------------------------------------------------------------- C21: literals in the XML
INT_SITES = {  # attribute -> document with the text in place
    "size": "<register><name>R</name><addressOffset>0</addressOffset><size>%s</size></register>",
    "reset_value": "<register><name>R</name><addressOffset>0</addressOffset><resetValue>%s</resetValue></register>",
    "reset_mask": "<register><name>R</name><addressOffset>0</addressOffset><resetMask>%s</resetMask></register>",
    "address_offset": "<register><name>R</name><addressOffset>%s</addressOffset></register>",
    "dim": "<register><name>R</name><addressOffset>0</addressOffset><dim>%s</dim></register>",
    "dim_increment": "<register><name>R</name><addressOffset>0</addressOffset><dimIncrement>%s</dimIncrement></register>",
    "field.bit_offset": "<register><name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><bitOffset>%s</bitOffset></field></fields></register>",
    "field.bit_width": "<register><name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><bitWidth>%s</bitWidth></field></fields></register>",
    "field.lsb": "<register><name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><lsb>%s</lsb></field></fields></register>",
    "field.msb": "<register><name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><msb>%s</msb></field></fields></register>",
    "wc.0": "<register><name>R</name><addressOffset>0</addressOffset><writeConstraint><range><minimum>%s</minimum><maximum>7</maximum></range></writeConstraint></register>",
    "wc.1": "<register><name>R</name><addressOffset>0</addressOffset><writeConstraint><range><minimum>0</minimum><maximum>%s</maximum></range></writeConstraint></register>",
    "cluster.address_offset": "<cluster><name>R</name><addressOffset>%s</addressOffset></cluster>",
}
ENUM_SITES = {  # attribute -> (document, {text: member value})
    "access": ("<register><name>R</name><addressOffset>0</addressOffset><access>%s</access></register>", {v: v for v in spec.ACCESS.values()}),
    "protection": ("<register><name>R</name><addressOffset>0</addressOffset><protection>%s</protection></register>", {v: v for v in spec.PROT}),
    "modified_write_values": ("<register><name>R</name><addressOffset>0</addressOffset><modifiedWriteValues>%s</modifiedWriteValues></register>", {v: v for v in spec.MWV}),
    "read_action": ("<register><name>R</name><addressOffset>0</addressOffset><readAction>%s</readAction></register>", {v: v for v in spec.RACT}),
    "data_type": ("<register><name>R</name><addressOffset>0</addressOffset><dataType>%s</dataType></register>", {v: v for v in spec.DTYPE}),
    "field.access": ("<register><name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><access>%s</access></field></fields></register>", {v: v for v in spec.ACCESS.values()}),
    "enumc.usage": ("<register><name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><enumeratedValues><usage>%s</usage></enumeratedValues></field></fields></register>", {v: v for v in spec.USAGE3}),
}
BOOL_SITES = {
    "wc.write_as_read": "<register><name>R</name><addressOffset>0</addressOffset><writeConstraint><writeAsRead>%s</writeAsRead></writeConstraint></register>",
    "wc.use_enumerated_values": "<register><name>R</name><addressOffset>0</addressOffset><writeConstraint><useEnumeratedValues>%s</useEnumeratedValues></writeConstraint></register>",
    "enumv.is_default": "<register><name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><enumeratedValues><enumeratedValue><name>E</name><isDefault>%s</isDefault></enumeratedValue></enumeratedValues></field></fields></register>",
}


def int_literal(s):
    """the number a text denotes, or None"""
    m = re.fullmatch(r"([+-]?)(.*)", s, re.S)
    sign, t = (-1 if m[1] == "-" else 1), m[2]
    if re.fullmatch(r"[0-9]+(_[0-9]+)*", t):
        return sign * int(t.replace("_", ""))
    if t.startswith("#"):
        t = "0b" + t[1:]
    for pre, base, digits in (("0x", 16, "0-9a-fA-F"), ("0o", 8, "0-7"), ("0b", 2, "01")):
        if t[:2].lower() == pre:
            if re.fullmatch(f"(_?[{digits}]+)+", t[2:]) or re.fullmatch(f"_?[{digits}]+(_[{digits}]+)*", t[2:]):
                return sign * int(t[2:].replace("_", ""), base)
    return None


def gen_literal(r, knobs):
    k = r.choice(["int"] * 3 + ["bool", "enum"])
    if k == "int":
        site = r.choice(sorted(INT_SITES))
        c = r.randrange(4)
        n = r.choice([0, 1, 7, 8, 9, 10, 255, 256, 0xFFFFFFFF, 1 << 40, r.randrange(1 << r.choice([3, 16, 33, 64]))])
        if c <= 1:
            s = r.choice(["%d" % n, "0x%x" % n, "0X%X" % n, "0o%o" % n, "0b" + bin(n)[2:], "#" + bin(n)[2:], "0%d" % n, "00%d" % n, "0x0%x" % n, "#0" + bin(n)[2:], "0B" + bin(n)[2:]])
            if r.random() < 0.2:
                s = r.choice("+-") + s
            if r.random() < 0.15 and len(s) > 3:
                s = s[:-1] + "_" + s[-1:]
        elif c == 2:
            s = "".join(r.choice(["0", "1", "0x", "#", "0b", "x", "_", "-", "+", "9", "a", "F", "o", "."]) for _ in range(r.randint(1, 5)))
        else:
            s = r.choice(["", "abc", "1.5", "0x", "#", "#2", "0b2", "0o8", "--1", "1 2", "1e3", "0x1g", "x1", "0#1", "0x#1", "1#", "##1", "0b#1", "_1", "1_", "1__0", "0_0", "true", "None", "0xFFu", "12h", "10L"])
        return {"kind": "int", "site": site, "text": s}
    if k == "bool":
        return {"kind": "bool", "site": r.choice(sorted(BOOL_SITES)), "text": r.choice(["true", "false", "1", "0", "True", "FALSE", "tRuE", "yes", "no", "2", "on", "t", "", "01", "-1", "truefalse", "None", "0x1"])}
    site = r.choice(sorted(ENUM_SITES))
    ok = sorted(ENUM_SITES[site][1])
    s = r.choice(ok)
    if r.random() < 0.4:
        s = r.choice([s.upper(), s[:-1], s + "x", s.replace("-", ""), s.capitalize(), "none", "x", "0", s.replace("e", "3")])
    return {"kind": "enum", "site": site, "text": s}


def at(reg, site):
    for a in site.split("."):
        reg = {"field": lambda x: x.fields[0], "wc": lambda x: x.write_constraint, "enumc": lambda x: (x.fields[0] if hasattr(x, "fields") else x).enumerated_value_containers[0],
               "enumv": lambda x: x.fields[0].enumerated_value_containers[0].enumerated_values[0], "cluster": lambda x: x,
               "0": lambda x: x.range_[0], "1": lambda x: x.range_[1]}.get(a, lambda x: getattr(x, a))(reg)
    return reg


def judge_literal(d):
    k, site, s = d["kind"], d["site"], d["text"]
    if s != s.strip():
        return None
    doc = {"int": INT_SITES, "bool": BOOL_SITES, "enum": {a: b[0] for a, b in ENUM_SITES.items()}}[k][site]
    try:
        got = val(at(parse(H % (doc % esc(s))).peripherals[0].registers_clusters[0], site))
        err = None
    except Exception as e:
        got, err = None, e
    T = {"C21"}
    where = f"{site} {s!r}"
    if s == "":
        if err is None and got is not None:
            return [(T, f"{where}: an empty text is read as {got!r}")]
        return []
    if k == "int":
        exp = int_literal(s)
    elif k == "bool":
        exp = {"true": True, "1": True, "false": False, "0": False}.get(s.lower())
    else:
        exp = ENUM_SITES[site][1].get(s)
        if exp is None and site.endswith("access"):
            exp = {v.lower(): v for v in spec.ACCESS.values()}.get(s.lower(), {"write": "write-only", "read": "read-only"}.get(s.lower()))
    if exp is None:
        if err is None and not (site.endswith("access") and got is None):
            if k == "enum" and isinstance(got, str) and got.lower() == s.lower():
                return []
            return [(T, f"{where}: is read as {got!r} although it is no such literal")]
        return []
    if err is not None:
        return [(T, f"{where}: raises {err!r}, denotes {exp!r}")]
    if got != exp or type(got) is not type(exp):
        return [(T, f"{where}: is read as {got!r}, denotes {exp!r}")]
    return []


# ------------------------------------------------------------------------------------------- C22: the parsed tree
KIDS = {"device": [("peripherals", "peripherals")], "peripheral": [("address_blocks", "address_blocks"), ("interrupts", "interrupts"), ("children", "registers_clusters")],
        "cluster": [("children", "registers_clusters")], "register": [("fields", "fields")], "field": [("containers", "enumerated_value_containers")],
        "enumc": [("values", "enumerated_values")]}
ENUMT = {"access": spec.ACCESS}
MAND = {"peripheral": ["name", "base_address"], "cluster": ["name", "address_offset"], "register": ["name", "address_offset"], "field": ["name"],
        "device": ["name", "version", "address_unit_bits", "width"]}
TEXT = {"peripheral": "peripheral", "cluster": "cluster", "register": "register", "field": "field"}


def gen_tree(r, knobs):
    d = gen_dev(r, dict(dict(p_attr=0.5, p_wc=0.4, p_cpu=0.5, p_meta=0.6, p_dimarr=0.3, p_enum=0.4, p_alt=0.3, p_dangling=0.05), **knobs))
    d["mutate"] = r.choice([None, None, None, "dup", "drop", "drop", "irq", "abo", "comment", "desc", "loc", "schema", "empty"])
    d["mseed"] = r.randrange(1 << 30)
    return d


def elements(sp):
    yield sp
    for k in ("peripherals", "children", "fields", "containers", "values"):
        for c in sp.get(k, []):
            yield from elements(c)


def judge_tree(d):
    import lxml.etree as ET
    sp = d["spec"]
    r = random.Random(d["mseed"])
    x = dev_xml(d)
    m = d["mutate"]
    T = {"C22"}
    root = ET.fromstring(x.encode())
    expect_error = False
    allow = {}
    if m == "dup":  # a second element of the same name: the last one counts
        cands = [e for e in root.iter() if len(e) == 0 and e.getparent() is not None and e.tag not in ("region", "sauRegionsConfig", "registers", "fields", "enumeratedValues", "enumeratedValue", "peripherals", "writeConstraint", "cluster", "register", "field", "peripheral")
                 and e.getparent().tag not in ("range",) and e.tag not in ("addressBlock",)]
        e = r.choice(cands)
        n = ET.Element(e.tag)
        n.text = r.choice([e.text, "0", "1", "zzz", None]) if e.tag not in () else e.text
        e.getparent().insert(r.randrange(0, list(e.getparent()).index(e) + 1), n)
    elif m == "drop":
        tags = {"peripheral": ["name", "baseAddress"], "cluster": ["name", "addressOffset"], "register": ["name", "addressOffset"], "field": ["name"],
                "device": ["name", "version", "addressUnitBits", "width"], "addressBlock": ["size", "usage"], "interrupt": ["name"], "cpu": ["name", "revision", "endian", "nvicPrioBits", "vendorSystickConfig"],
                "region": ["base", "limit", "access"], "enumeratedValue": ["name"], "range": ["minimum", "maximum"]}
        cands = [c for e in root.iter() for c in e if c.tag in tags.get(e.tag, ())]
        e = r.choice(cands)
        if r.random() < 0.3:
            e.text = None
        else:
            e.getparent().remove(e)
        expect_error = True
    elif m == "irq":
        c = root.findall(".//interrupt/value")
        if not c:
            return None
        e = r.choice(c)
        nm = e.getparent().find("name").text
        e.getparent().remove(e)
        allow[("interrupt", nm)] = True
        for p in sp["peripherals"]:
            for i in p.get("interrupts", []):
                if i["name"] == nm:
                    sp = copy.deepcopy(sp)
                    for q in sp["peripherals"]:
                        for j in q.get("interrupts", []):
                            if j["name"] == nm:
                                j["value"] = 0
                    break
    elif m == "abo":
        sp = copy.deepcopy(sp)
        for p, e in zip(sp["peripherals"], root.findall(".//peripheral")):
            for b, f in zip(p.get("address_blocks", []), e.findall("addressBlock")):
                if r.random() < 0.5:
                    f.remove(f.find("offset"))
                    b["offset"] = 0
    elif m == "comment":
        for e in list(root.iter()):
            if len(e) and r.random() < 0.2:
                e.insert(r.randrange(len(e) + 1), ET.Comment(" a comment "))
    elif m == "desc":
        e = root.find("description")
        root.remove(e)
        sp = dict(sp, description="")
    elif m == "loc":
        root.attrib.pop("{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation", None)
    elif m == "schema":
        del root.attrib["schemaVersion"]
        expect_error = True
    elif m == "empty":  # an empty optional element is absent
        c = [e for t in ("groupName", "displayName", "alternateGroup", "vendor", "series", "dimIndex", "headerStructName", "prependToName", "version")
             for e in root.iter(t) if e.getparent().tag != "device" or t != "version"]
        c = [e for e in c if e.getparent().tag in ("register", "peripheral")]
        if not c:
            return None
        for e in c:
            e.text = None
        sp = copy.deepcopy(sp)
        for e in elements(sp):
            if e["k"] in ("register", "peripheral"):
                for a in ("group_name", "display_name", "alternate_group", "dim_index", "header_struct_name", "prepend_to_name", "version"):
                    e.pop(a, None)
    x = ET.tostring(root)
    from svdsuite.util.parser_exception_warning import ParserException
    try:
        p = parse(x, "from_xml_content")
    except ParserException as e:
        return [] if expect_error or m == "dup" else [(T, f"a complete document is rejected: {e}")]
    except Exception as e:
        if m == "dup":
            return []
        return [(T, f"{type(e).__name__} instead of a parser exception: {e}")]
    if expect_error:
        return [(T, f"a document without a mandatory element ({m}) is accepted")]
    out = []

    def eq(path, a, b):
        b = val(b)
        if a != b or (type(a) is not type(b)):
            out.append((T, f"{path}: expected {a!r}, got {b!r}"))

    def exp_text(k, v):
        if k == "access":
            return spec.ACCESS.get(v, v)
        if isinstance(v, str) and k not in ("description", "license_text", "disable_condition"):
            return v.strip()
        return v

    def cmp_el(path, e, o, parent):
        k = e["k"]
        if parent is not None and o.parent is not parent:
            out.append((T, f"{path}: does not refer to its container as parent"))
        cls = {"device": "SVDDevice", "peripheral": "SVDPeripheral", "cluster": "SVDCluster", "register": "SVDRegister", "field": "SVDField", "enumc": "SVDEnumeratedValueContainer",
               "enumv": "SVDEnumeratedValue"}[k]
        if type(o).__name__ != cls:
            out.append((T, f"{path}: expected a {cls}, got a {type(o).__name__}"))
            return
        known = {a for f, a in KIDS.get(k, [])} | {"parent", "cpu", "write_constraint", "dim_array_index", "xs_no_namespace_schema_location", "schema_version"}
        for f in dataclasses.fields(o):
            if f.name in known:
                continue
            eq(f"{path}.{f.name}", exp_text(f.name, e.get(f.name)), getattr(o, f.name))
        if "write_constraint" in known and hasattr(o, "write_constraint"):
            w, g = e.get("write_constraint"), o.write_constraint
            if (w is None) != (g is None):
                out.append((T, f"{path}: write constraint {w!r}, got {g!r:.80}"))
            elif w is not None:
                eq(path + ".wc", w.get("write_as_read"), g.write_as_read)
                eq(path + ".wc", w.get("use_enumerated_values"), g.use_enumerated_values)
                eq(path + ".wc", tuple(w["range"]) if "range" in w else None, g.range_)
                if g.parent is not o:
                    out.append((T, f"{path}: parent of the write constraint"))
        if hasattr(o, "dim_array_index"):
            w, g = e.get("dim_array_index"), o.dim_array_index
            if (w is None) != (g is None):
                out.append((T, f"{path}: dim array index {w!r:.80}, got {g!r:.80}"))
            elif w is not None:
                eq(path + ".dim_array_index", w.get("header_enum_name"), g.header_enum_name)
                eq(path + ".dim_array_index", len(w["values"]), len(g.enumerated_values))
                if g.parent is not o:
                    out.append((T, f"{path}: parent of the dim array index"))
                for a, b in zip(w["values"], g.enumerated_values):
                    cmp_el(path + ".dim_array_index.value", a, b, g)
        for key, attr in KIDS.get(k, []):
            xs, os_ = e.get(key, []), getattr(o, attr)
            if len(xs) != len(os_):
                out.append((T, f"{path}.{attr}: {len(xs)} elements in the document, {len(os_)} parsed"))
                continue
            for i, (a, b) in enumerate(zip(xs, os_)):
                pp = f"{path}.{attr}[{i}]"
                if key in ("address_blocks", "interrupts"):
                    for n in ("name", "offset", "size", "usage", "protection", "value", "description"):
                        if hasattr(b, n):
                            eq(f"{pp}.{n}", a.get(n), getattr(b, n))
                    if b.parent is not o:
                        out.append((T, f"{pp}: parent"))
                else:
                    cmp_el(pp, a, b, o)
        if k == "device":
            cmp_cpu(e.get("cpu"), o.cpu, o)

    def cmp_cpu(c, g, dev):
        if (c is None) != (g is None):
            out.append((T, f"cpu: {c!r}, got {g!r:.80}"))
            return
        if c is None:
            return
        if g.parent is not dev:
            out.append((T, "cpu: parent"))
        for f in dataclasses.fields(g):
            if f.name in ("parent", "sau_regions_config"):
                continue
            eq("cpu." + f.name, c.get(f.name), getattr(g, f.name))
        s, h = c.get("sau"), g.sau_regions_config
        if (s is None) != (h is None):
            out.append((T, "cpu: SAU configuration"))
        elif s is not None:
            if h.parent is not g:
                out.append((T, "SAU configuration: parent"))
            eq("sau.enabled", s.get("enabled"), h.enabled)
            eq("sau.protection", s.get("protection_when_disabled"), h.protection_when_disabled)
            eq("sau.regions", len(s["regions"]), len(h.regions))
            for a, b in zip(s["regions"], h.regions):
                for n in ("enabled", "name", "base", "limit", "access"):
                    eq("sau.region." + n, a.get(n), getattr(b, n))
                if b.parent is not h:
                    out.append((T, "SAU region: parent"))

    cmp_el("device", sp, p, None)
    return out[:5]


# ------------------------------------------------------------------------------------------- C23
def judge_pure(d):
    if heavy(d):
        return None
    x = dev_xml(d)
    T = {"C23"}
    try:
        p = parse(x)
    except Exception as e:
        return None
    before = snap(p)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        def once(q):
            try:
                pr = Process(q, None)
                return pr.get_processed_device(), pr
            except Hang:
                raise
            except Exception as e:
                return e, None
        a, pa = once(p)
        mid = snap(p)
        if mid != before:
            return [(T, "processing changes the parsed device: " + str(first_diff(before, mid)))]
        if d["variant"] % 2 and pa is not None:
            c = pa.convert_processed_device_to_svd_device()
            Serializer.device_to_svd_str(c)
            s0 = snap(a, skip=("parsed",))
            PeripheralRegisterMap(a)
            if snap(a, skip=("parsed",)) != s0:
                return [(T | {"C24"}, "building a map changes the processed device")]
        b, _ = once(p)
        c2, _ = once(parse(x))
    if isinstance(a, Exception) or isinstance(b, Exception) or isinstance(c2, Exception):
        if not (type(a) is type(b) is type(c2)):
            return [(T, f"processing is not repeatable: {a!r:.100}, then {b!r:.100}, then {c2!r:.100}")]
        return []
    sa, sb, sc = snap(a, skip=("parsed",)), snap(b, skip=("parsed",)), snap(c2, skip=("parsed",))
    if sa != sb or sa != sc:
        return [(T, "processing again gives another result: " + str(first_diff(sa, sb) or first_diff(sa, sc)))]
    if snap(p) != before:
        return [(T, "processing changes the parsed device: " + str(first_diff(before, snap(p))))]
    # every processed element refers to an element of the parsed device of its kind and name
    nodes = {}

    def walk(o):
        if dataclasses.is_dataclass(o):
            nodes[id(o)] = o
            for f in dataclasses.fields(o):
                if f.name != "parent":
                    walk(getattr(o, f.name))
        elif isinstance(o, (list, tuple)):
            for y in o:
                walk(y)
    walk(p)
    out = []

    def origin(o, path):
        if dataclasses.is_dataclass(o):
            if hasattr(o, "parsed"):
                q = o.parsed
                if id(q) not in nodes:
                    out.append((T, f"{path}: the parsed element is not part of the parsed device"))
                elif type(q).__name__ != "SVD" + type(o).__name__:
                    out.append((T, f"{path}: a {type(o).__name__} refers to a {type(q).__name__}"))
                elif type(o).__name__ in ("Peripheral", "Cluster", "Register", "Field") and not re.fullmatch(
                        re.escape(q.name).replace(re.escape("[%s]"), ".*").replace(re.escape("%s"), ".*"), o.name):
                    out.append((T, f"{path}: {o.name} refers to the parsed element {q.name}"))
            for f in dataclasses.fields(o):
                if f.name not in ("parsed", "parent"):
                    origin(getattr(o, f.name), f"{path}.{f.name}")
        elif isinstance(o, list):
            for i, y in enumerate(o):
                origin(y, f"{path}[{i}]")
    origin(a, "device")
    return out[:3]


# ------------------------------------------------------------------------------------------- C24
def judge_map(d):
    if heavy(d):
        return None
    got, _, _ = run_process(dev_xml(d))
    if isinstance(got, Exception):
        return None
    T = {"C24"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m = PeripheralRegisterMap(got).peripheral_map
        except Exception as e:
            return [(T, f"building the map fails: {e!r}")]
    out = []
    want = sorted(got.peripherals, key=lambda p: p.base_address)
    if [id(e.processed) for e in m] != [id(p) for p in want] and sorted(id(e.processed) for e in m) != sorted(id(p) for p in want):
        return [(T, "the entries are not the peripherals")]
    if [e.address for e in m] != [p.base_address for p in want]:
        return [(T, f"addresses of the entries {[e.address for e in m]}, of the peripherals {[p.base_address for p in want]}")]

    def regs(rc, base):
        for e in rc:
            if hasattr(e, "registers_clusters"):
                yield from regs(e.registers_clusters, base + e.address_offset)
            else:
                yield e, base + e.address_offset
    for e in m:
        p = e.processed
        b = p.address_blocks
        exp = (min(p.base_address + x.offset for x in b), max(p.base_address + x.offset + x.size - 1 for x in b))
        if tuple(e.allocated_range) != exp:
            out.append((T, f"{p.name}: allocated range {e.allocated_range}, blocks span {exp}"))
        if (e.name, e.description, e.address) != (p.name, p.description, p.base_address):
            out.append((T, f"{p.name}: name, description or address of the entry"))
        rs = list(regs(p.registers_clusters, p.base_address))
        if [id(x.processed) for x in e.registers] != [id(r) for r, _ in rs]:
            out.append((T, f"{p.name}: registers {[x.name for x in e.registers]} instead of {[r.name for r, _ in rs]}"))
            continue
        for x, (r_, a) in zip(e.registers, rs):
            for n in ("size", "access", "protection", "reset_value", "reset_mask", "name", "display_name", "description"):
                if getattr(x, n) != getattr(r_, n):
                    out.append((T, f"{p.name}.{r_.name}: {n} {getattr(x, n)!r} instead of {getattr(r_, n)!r}"))
            if x.address != a:
                out.append((T, f"{p.name}.{r_.name}: address {x.address} instead of {a}"))
            if [id(f) for f in x.fields] != [id(f) for f in r_.fields]:
                out.append((T, f"{p.name}.{r_.name}: fields"))
    return out[:5]


# ------------------------------------------------------------------------------------------- C25
VERS = ["1.0", "1.1", "1.2", "1.3.1", "1.3.2", "1.3.3", "1.3.4", "1.3.5", "1.3.6", "1.3.7", "1.3.8", "1.3.9", "1.3.10", "1.3.11"]
_schemas = {}


def schema(v):
    import lxml.etree as ET
    import svdsuite.validate as V
    if v not in _schemas:
        _schemas[v] = ET.XMLSchema(ET.parse(os.path.join(os.path.dirname(V.__file__), "schema", v + ".xsd")))
    return _schemas[v]


def gen_valid(r, knobs):
    d = gen_dev(r, dict(dict(p_weird=0, p_overlap=0, p_badliteral=0, p_badpos=0, p_badindex=0, periphs=(1, 2), children=(1, 2), p_empty=0, p_shuffle=0, p_oddsize=0, p_enum=0.2), **knobs))
    d.update(order=None, version=r.choice(VERS + [None, None]), form=r.randrange(3), exc=r.random() < 0.5, mutate=r.choice([None, None, None, "tag", "drop", "text", "root", "v"]), mseed=r.randrange(1 << 30))
    if r.random() < 0.6:
        d["minimal"] = r.randrange(4)
    return d


MIN = ['<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" schemaVersion="1.1" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd"><name>n</name><version>1</version><description>d</description>'
       '<addressUnitBits>8</addressUnitBits><width>32</width><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress></peripheral></peripherals></device>',
       '<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" schemaVersion="1.3" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd"><vendor>v</vendor><name>n</name><version>1</version><description>d</description>'
       '<cpu><name>CM52</name><revision>r0p0</revision><endian>little</endian><mpuPresent>1</mpuPresent><fpuPresent>1</fpuPresent><dspPresent>1</dspPresent><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>0</vendorSystickConfig></cpu>'
       '<addressUnitBits>8</addressUnitBits><width>32</width><protection>s</protection><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock></peripheral></peripherals></device>',
       '<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" schemaVersion="1.2" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd"><name>n</name><version>1</version><description>d</description>'
       '<addressUnitBits>8</addressUnitBits><width>32</width><size>32</size><peripherals><peripheral><name>P</name><description>x</description><baseAddress>0</baseAddress><addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock>'
       '<registers><register><name>R</name><description>x</description><addressOffset>0</addressOffset><dataType>uint8_t</dataType></register></registers></peripheral></peripherals></device>',
       '<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" schemaVersion="1.0" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd"><name>n</name><version>1</version><description>d</description>'
       '<addressUnitBits>8</addressUnitBits><width>32</width><size>32</size><access>read-write</access><resetValue>0</resetValue><resetMask>0</resetMask><peripherals><peripheral><name>P</name><description>x</description><baseAddress>0</baseAddress>'
       '<addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock><registers><register><name>R</name><description>x</description><addressOffset>0</addressOffset></register></registers></peripheral></peripherals></device>']


def judge_valid(d):
    import lxml.etree as ET
    x = MIN[d["minimal"]] if "minimal" in d else spec.to_xml(d["spec"])
    r = random.Random(d["mseed"])
    root = ET.fromstring(x.encode())
    m = d["mutate"]
    e = r.choice([e for e in root.iter()])
    if m == "tag":
        e.tag = "unknownElement"
    elif m == "drop" and e.getparent() is not None:
        e.getparent().remove(e)
    elif m == "text":
        e.text = "??"
    elif m == "root":
        root.tag = "other"
    elif m == "v":
        root.set("schemaVersion", r.choice(VERS + ["x"]))
    b = ET.tostring(root)
    T = {"C25"}
    v = d["version"]
    exp = schema(v or VERS[-1]).validate(ET.fromstring(b).getroottree())
    kw = {"get_exception": d["exc"]}
    if v is not None:
        kw["schema_version"] = SVDSchemaVersion(v)
    with warnings.catch_warnings(), tempfile.TemporaryDirectory(dir=os.environ.get("VP_SCRATCH")) as t:
        warnings.simplefilter("ignore")
        try:
            if d["form"] == 0:
                path = os.path.join(t, "x.svd")
                with open(path, "wb") as f:
                    f.write(b)
                got = Validator.validate_xml_file(path, **kw)
            elif d["form"] == 1:
                got = Validator.validate_xml_content(b, **kw)
            else:
                got = Validator.validate_xml_str(b.decode(), **kw)
            err = None
        except Exception as ex:
            got, err = None, ex
    where = f"form {d['form']}, schema {v}, exceptions {d['exc']}"
    if exp:
        return [] if got is True else [(T, f"{where}: the schema accepts the document, the validator gives {got!r} {err!r:.200}")]
    if d["exc"]:
        return [] if isinstance(err, ET.DocumentInvalid) else [(T, f"{where}: the schema rejects the document, the validator gives {got!r} {err!r:.200}")]
    return [] if err is None and got is False else [(T, f"{where}: the schema rejects the document, the validator gives {got!r} {err!r:.200}")]


# ------------------------------------------------------------------------------------------- C28
ENCS = ["utf-8", "utf-16", "iso-8859-1", "windows-1252", "ascii", "UTF-8", "koi8-r", "utf-16-le"]


def gen_entry(r, knobs):
    d = gen_dev(r, dict(dict(periphs=(1, 2), children=(1, 2), p_meta=0.7), **knobs))
    d.update(enc=r.choice(ENCS[:5] + ENCS), decl=r.choice(["same", "same", "none", "wrong", "wrong8"]), text=r.choice(["", "ä", "Größe", "€ sign", "ж", "日本", "plain"]), wrong=r.choice(["utf-8", "ascii"]),
             what=r.choice(["parse", "parse", "process", "map"]), pretext=r.choice(["", "\ufeff", "<!-- encoding=\"x\" -->"]), quote=r.choice("\"'"))
    d["malformed"] = r.choice(["", "", "", "", "&nope;", "end"])
    return d


def judge_entry(d):
    T = {"C28"}
    x = dev_xml(d)
    if d["text"]:
        x = re.sub("<description>", "<description>" + d["text"], x, count=1)
    enc = d["enc"]
    mal = d.get("malformed")
    if mal == "end":
        x = x.replace("</device>", "")
    elif mal:
        x = re.sub("<description>", "<description>" + mal, x, count=1)
    try:
        base = parse_raw(x)
    except Exception as e:
        if not mal:
            raise
        base = ("error", type(e).__name__)
    q = d["quote"]
    try:
        if d["decl"] == "none":
            if enc not in ("utf-8", "UTF-8", "ascii", "utf-16"):
                enc = "utf-8"
            b = x.encode(enc)
            doc = x
        elif d["decl"] == "same":
            dn = "utf-16" if enc == "utf-16-le" else enc
            if enc == "utf-16-le":
                enc = "utf-16"
            doc = f"<?xml version={q}1.0{q} encoding={q}{dn}{q}?>" + x
            b = doc.encode(enc)
        elif d["decl"] == "wrong8":  # bytes are UTF-8, the declaration says something that cannot be right
            wr = "ascii" if d["wrong"] == "ascii" else "utf-16"
            doc = f"<?xml version={q}1.0{q} encoding={q}{wr}{q}?>" + x
            b = doc.encode("utf-8")
        else:  # bytes are windows-1252, the declaration says otherwise
            doc = f"<?xml version={q}1.0{q} encoding={q}{d['wrong']}{q}?>" + x
            b = doc.encode("windows-1252")
            if d["wrong"] == "ascii" and all(c < 128 for c in b):
                pass
    except UnicodeEncodeError:
        return None
    out = []
    how = d["what"]
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_SCRATCH")) as t, warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        path = os.path.join(t, "x.svd")
        with open(path, "wb") as f:
            f.write(b)
        cls = {"parse": Parser, "process": Process, "map": PeripheralRegisterMap}[how]

        def get(name, arg):
            try:
                o = getattr(cls, name)(arg)
                o = o.get_parsed_device() if how == "parse" else o.get_processed_device() if how == "process" else o.peripheral_map
                return snap(o, skip=() if how == "parse" else ("parsed",))
            except Exception as e:
                return ("error", type(e).__name__)
        f = get("from_svd_file", path)
        n0 = len([w for w in rec if "fallback" in str(w.message)])
        c = get("from_xml_content", b)
        s = get("from_xml_str", doc)
        if how == "parse":
            ref_ = base
        else:
            try:
                y = Process(parse(x), None).get_processed_device()
                ref_ = snap(y if how == "process" else PeripheralRegisterMap(y).peripheral_map, skip=("parsed",))
            except Exception as e:
                ref_ = ("error", type(e).__name__)
    where = f"{how}, encoding {enc}, declaration {d['decl']}, text {d['text']!r}"
    if mal:  # only lenient reading accepts it, in whichever form
        if f != c:
            out.append((T, f"{where}, malformed: file and bytes differ: {first_diff(f, c)}"))
        if how == "parse" and d["decl"] == "same" and enc.lower() == "utf-8" and c != s:
            out.append((T, f"{where}, malformed: bytes and string differ: {first_diff(c, s)}"))
        if f[:1] != ("error",) and n0 == 0:
            out.append((T, f"{where}, malformed: the fallback is not warned about"))
        return out
    if s != ref_:
        out.append((T, f"{where}: the string form differs: {first_diff(ref_, s)}"))
    wrong = d["decl"] in ("wrong", "wrong8") and any(ch >= 128 for ch in b)
    if f != c:
        out.append((T, f"{where}: file and bytes differ: {first_diff(f, c)}"))
    if c != ref_:
        out.append((T, f"{where}: the bytes form differs: {first_diff(ref_, c)}"))
    if wrong and n0 == 0:
        out.append((T, f"{where}: the fallback encoding is not warned about"))
    return out


def parse_raw(x):
    return snap(parse(x))


def gen_garbage(r, knobs):
    return {"bytes": r.choice(["", "<", "not xml", "<a></b>", "\x00\x01", "<device", "&amp;", "   ", "<?xml version='1.0'?>"]), "form": r.randrange(3)}


def judge_garbage(d):
    """a document that no encoding can read raises the original (first) error"""
    import lxml.etree as ET
    b = d["bytes"].encode("latin-1")
    try:
        ET.fromstring(b, parser=ET.XMLParser(recover=False))
        return None
    except ET.XMLSyntaxError as e:
        orig = str(e)
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_SCRATCH")) as t, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if d["form"] == 0:
                path = os.path.join(t, "x.svd")
                with open(path, "wb") as f:
                    f.write(b)
                Parser.from_svd_file(path)
            elif d["form"] == 1:
                Parser.from_xml_content(b)
            else:
                Parser.from_xml_str(d["bytes"])
        except ET.XMLSyntaxError as e:
            if d["form"] == 1 and str(e) != orig:
                return [({"C28"}, f"{d['bytes']!r}: raises {e} instead of the original {orig}")]
            return []
        except Exception as e:
            return [] if "device" in str(e) or "can't" in str(e) or isinstance(e, (AttributeError,)) else [({"C28"}, f"{d['bytes']!r}: raises {e!r} instead of the original {orig}")]
    return [({"C28"}, f"{d['bytes']!r} is read as a device")]


CHECKS = {"dev": (gen_dev, judge_dev), "index": (gen_index, judge_index), "enum": (gen_enum, judge_enum), "pos": (gen_pos, judge_pos), "order": (gen_order, judge_order),
          "rt": (gen_rt, judge_rt), "conv": (gen_rt, judge_conv), "literal": (gen_literal, judge_literal), "tree": (gen_tree, judge_tree), "pure": (gen_rt, judge_pure),
          "map": (gen_rt, judge_map), "valid": (gen_valid, judge_valid), "entry": (gen_entry, judge_entry), "garbage": (gen_garbage, judge_garbage)}


# ------------------------------------------------------------------------------------------- recorded findings (replayed, never searched)
def judge_rt0(d):
    p = parse(spec.to_xml(d["spec"]))
    try:
        serialised(p, 0, None)
    except Exception as e:
        return [({"C19"}, f"a device without peripherals cannot be parsed again: {e!r}")]
    return []


def judge_conv0(d):
    p = Process(parse(spec.to_xml(d["spec"])), None)
    try:
        serialised(p.convert_processed_device_to_svd_device(), 0, None)
    except Exception as e:
        return [({"C20"}, f"a converted device without peripherals cannot be parsed again: {e!r}")]
    return []


CHECKS["rt0"] = (None, judge_rt0)
CHECKS["conv0"] = (None, judge_conv0)
