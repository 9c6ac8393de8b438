"""Reference semantics of processing, written from the property statements (not from the library's algorithm): derivation
and dim expansion are resolved by demand-driven recursion on the description, everything else by direct definitions."""
import re


class Reject(Exception):
    def __init__(self, why, tags):
        Exception.__init__(self, why)
        self.why, self.tags = why, set(tags)


class Unknown(Exception):
    """the description is outside of what the reference model defines (an ambiguous path, ...)"""


PROPS = ("size", "access", "protection", "reset_value", "reset_mask")
MERGED = {
    "peripheral": ("dim", "dim_index", "dim_increment") + PROPS + ("version", "description", "alternate_peripheral", "group_name",
                   "prepend_to_name", "append_to_name", "disable_condition"),
    "cluster": ("dim", "dim_index", "dim_increment") + PROPS + ("description", "alternate_cluster", "header_struct_name"),
    "register": ("dim", "dim_index", "dim_increment") + PROPS + ("description", "alternate_group", "alternate_register", "data_type",
                 "modified_write_values", "write_constraint", "read_action"),
    "field": ("dim", "dim_index", "dim_increment", "access", "description", "modified_write_values", "write_constraint", "read_action"),
}
RANK = {"peripheral": 0, "cluster": 1, "register": 2, "field": 3, "enumc": 4}
AUX = {"peripheral": "base_address", "cluster": "address_offset", "register": "address_offset"}


def dim_indices(dim, s):
    def bad(w):
        raise Reject("dim index: " + w, {"C09", "C08"})
    if s is None:
        return [str(i) for i in range(dim)]
    s = s.strip()  # surrounding white space of an element text is not significant
    if m := re.fullmatch(r"(\d+)-(\d+)", s, re.A):
        a, b = int(m[1]), int(m[2])
        if a > b:
            bad("descending")
        if b - a + 1 != dim:
            bad("count")
        r = [str(i) for i in range(a, b + 1)]
    elif m := re.fullmatch(r"([A-Z])-([A-Z])", s):
        if m[1] >= m[2]:
            bad("descending")
        r = [chr(i) for i in range(ord(m[1]), ord(m[2]) + 1)]
    elif re.fullmatch(r"\w+(,\s*\w+)*", s, re.A) and not re.search(r"[^\x00-\x7f]", s):
        r = [x.strip() for x in s.split(",")]
    else:
        bad("form")
    if len(r) != dim:
        bad("count")
    return r


def literal(s):
    t = s.lower()
    t = "0b" + t[1:] if t.startswith("#") else t
    if t.startswith("0b"):
        d = t[2:]
        if not d or re.fullmatch(r"[01x]+", d) is None:
            raise Reject("literal", {"C14"})
        res = [""]
        for c in d:
            res = [p + q for p in res for q in ("01" if c == "x" else c)]
        return [int(x, 2) for x in res], "x" in d
    if t.startswith("0x"):
        if re.fullmatch(r"0x[0-9a-f]+", t) is None:
            raise Reject("literal", {"C14"})
        return [int(t[2:], 16)], False
    if re.fullmatch(r"[0-9]+", t):
        return [int(t)], False
    raise Reject("literal", {"C14"})


class Node:
    __slots__ = ("spec", "kind", "parent", "base", "_kids", "_attrs", "_inst", "state", "own", "src")

    def __init__(self, spec, parent):
        self.spec, self.kind, self.parent = spec, spec["k"], parent
        self.base = self._kids = self._attrs = self._inst = self.src = None
        self.state = 0


class Resolver:
    def __init__(self, dev):
        self.dev = dev
        self.views = {}
        self.root = Node(dev, None)
        self.root.own = [self.build(p, self.root) for p in dev["peripherals"]]
        self.warn = []

    def build(self, spec, parent):
        n = Node(spec, parent)
        n.own = [self.build(c, n) for c in spec.get("children", []) + spec.get("fields", []) + spec.get("containers", [])]
        return n

    def view(self, x, i):
        """the i-th element that x expands to, as a possible base"""
        if (x, i) not in self.views:
            v = Node(x.spec, x.parent)
            v.src, v.state = x, 2
            v._attrs = dict(self.instances(x)[i], dim=None, dim_index=None, dim_increment=None)
            v._inst = [v._attrs]
            self.views[(x, i)] = v
        return self.views[(x, i)]

    # children of a node: its own and those of its base (as nodes, evaluated in the base's context)
    def kids(self, n):
        if n.src is not None:
            return self.kids(n.src)
        if n is self.root:
            return n.own
        if n._kids is None:
            b = self.base_of(n)
            n._kids = n.own + (self.kids(b) if b is not None else [])
        return n._kids

    def base_of(self, n):
        if "derived_from" not in n.spec:
            return None
        if n.state == 2:
            return n.base
        if n.state == 1:
            raise Reject("derivation cycle", {"C07", "C06"})
        n.state = 1
        n.base = self.lookup(n, n.spec["derived_from"])
        b = n.base
        while b is not None:  # an element that derives from something that contains it would contain itself
            if b is n:
                raise Reject("derivation cycle", {"C07", "C06"})
            self_anc = n.parent
            while self_anc is not None:
                if self_anc is b:
                    raise Reject("derivation from an enclosing element", {"C07", "C06"})
                self_anc = self_anc.parent
            b = self.base_of(b)
        n.state = 2
        return n.base

    def lookup(self, n, path):
        parts = path.split(".")
        scope = self.kids
        m = self.search(self.kids(n.parent), parts, n, scope)
        start = lambda: n.parent.own
        if not m:
            m = self.search(self.root.own, parts, n, scope)
            start = lambda: self.root.own
        if len(m) > 1:
            if n.kind == "register":
                raise Unknown("several registers on the path")
            if len(self.search(start(), parts, n, lambda x: x.own if x.src is None else x.src.own)) < 2:
                raise Unknown("a path that is ambiguous because of inherited elements")
            raise Reject("ambiguous path", {"C06", "C07"})
        if not m:
            raise Reject("path names nothing", {"C06", "C07"})
        return m[0]

    def search(self, nodes, parts, n, scope):
        out = []
        for x in nodes:
            if x is n:
                continue
            v = self.named(x, parts[0])
            if v is None:
                continue
            if len(parts) == 1:
                if x.kind == n.kind:
                    out.append(v)
            elif RANK[x.kind] < RANK[n.kind] or x.kind == n.kind == "cluster":
                out += self.search(scope(x), parts[1:], n, scope)
        return out

    def copied(self, p):
        """an inherited child whose path would name something else (or several elements) where it is copied to: whether
        the path counts there as well is not specified"""
        kids = self.kids(p)
        for n in kids:
            if n.parent is p or n.src is not None or "derived_from" not in n.spec:
                continue
            m = self.search(kids, n.spec["derived_from"].split("."), n, self.kids)
            if len(m) > 1 or (m and n.state == 2 and m[0] is not n.base):
                raise Unknown("a copied path that is ambiguous")

    def reaches_itself(self, n):
        parts = n.spec["derived_from"].split(".")
        probe = Node(n.spec, n.parent)
        return any(m is n or m.src is n for m in self.search(self.root.own, parts, probe, self.kids))

    def named(self, x, name):
        own = x.spec.get("name")
        if own == name:
            return x
        if own is None or "%s" not in own:
            return None
        pre, suf = own.replace("[%s]", "%s").split("%s", 1)
        if not (name.startswith(pre) and name.endswith(suf)):
            return None
        for i, a in enumerate(self.instances(x)):
            if a["name"] == name:
                return self.view(x, i)
        return None

    # merged attributes, before dim expansion
    def attrs(self, n):
        if n._attrs is not None:
            return n._attrs
        s, b = n.spec, self.base_of(n)
        ba = self.attrs(b) if b is not None else {}
        a = {"name": s["name"], "spec": s}
        for k in MERGED[n.kind]:
            v = s.get(k)
            a[k] = v if v is not None else ba.get(k)
        if n.kind in ("register", "field") and a["modified_write_values"] is None:
            a["modified_write_values"] = "modify"
        if n.kind == "peripheral":
            a["header_struct_name"] = s.get("header_struct_name")
            a["base_address"] = s["base_address"]
            own = sorted(s.get("address_blocks", []), key=lambda x: x["offset"])
            a["address_blocks"] = own or ba.get("address_blocks", [])
            a["interrupts"] = sorted(s.get("interrupts", []), key=lambda x: x["value"])
        elif n.kind == "field":
            a["lsb"], a["msb"] = self.position(s, ba if b is not None else None)
        else:
            a["address_offset"] = s["address_offset"]
        if n.kind == "register":
            a["display_name"] = s["display_name"] if "display_name" in s else self.template_display(b)
        n._attrs = a
        return a

    def template_display(self, b):
        if b is None:
            return None
        self.instances(b)
        return b._inst[0]["display_name"] if b._inst else None

    def position(self, s, ba):
        res = None
        if "bit_offset" in s or "bit_width" in s:
            o = s.get("bit_offset", ba["lsb"] if ba else None)
            w = s.get("bit_width", ba["msb"] - ba["lsb"] + 1 if ba else None)
            if o is not None and w is not None:
                res = (o, o + w - 1)
        if "lsb" in s or "msb" in s:
            l = s.get("lsb", ba["lsb"] if ba else None)
            m = s.get("msb", ba["msb"] if ba else None)
            if l is not None and m is not None:
                res = (l, m)
        if "bit_range" in s:
            m = re.match(r"\[(\d+):(\d+)\]", s["bit_range"])
            if not m:
                raise Reject("bit range", {"C10", "C07"})
            res = (min(int(m[1]), int(m[2])), max(int(m[1]), int(m[2])))
        if res is None:
            raise Reject("no bit position", {"C10", "C07"})
        return res

    # expanded instances (attribute dicts)
    def instances(self, n):
        if n._inst is not None:
            return n._inst
        a = self.attrs(n)
        name, dim, disp = a["name"], a["dim"], a.get("display_name")
        T = {"C08", "C07"}
        if dim is None and "%s" in name:
            raise Reject("placeholder without dim", T)
        if dim is not None and "%s" not in name:
            dim = None
        if disp is not None and dim is None and "%s" in disp:
            raise Reject("placeholder in display name without dim", T)
        if dim is None:
            idx = [None]
        else:
            if dim < 1:
                raise Reject("dim < 1", T)
            if "[%s]" in name:
                if n.kind == "field":
                    raise Reject("field array", T)
                if disp is not None and "[%s]" not in disp and "%s" in disp:
                    raise Reject("display list for array", T)
                idx = [str(i) for i in range(dim)]
                ph = "[%s]"
            else:
                if n.kind == "peripheral":
                    raise Reject("peripheral list", T)
                if disp is not None and "[%s]" in disp:
                    raise Reject("display array for list", T)
                idx = dim_indices(dim, a["dim_index"])
                ph = "%s"
        out = []
        for i, x in enumerate(idx):
            c = dict(a)
            inc = a["dim_increment"] or 0
            if x is not None:
                c["name"] = name.replace(ph, x)
                if disp is not None:
                    c["display_name"] = disp.replace(ph, x)
            if n.kind == "field":
                c["lsb"], c["msb"] = a["lsb"] + i * inc, a["msb"] + i * inc
            else:
                c[AUX[n.kind]] = a[AUX[n.kind]] + i * inc
            out.append(c)
        if n.kind == "field" and idx[0] is not None:
            pass
        n._inst = out
        return out

    def container(self, n):
        """the description a container stands for: its own or, when derived, its base's"""
        b = self.base_of(n)
        return self.container(b) if b is not None else n.spec


OFF = {"ro": "r", "wo": "w", "rw": "rw", "w1": "rw", "rw1": "rw"}


def process(dev):
    """-> (device dict, warnings) or raises Reject/Unknown"""
    if not dev["peripherals"]:
        raise Unknown("no peripherals")
    R = Resolver(dev)
    W = {"overlap": set(), "dropped": [], "msb": set()}
    D = {"size": dev.get("size", 32), "access": dev.get("access", "rw"), "protection": dev.get("protection", "any"),
         "reset_value": dev.get("reset_value", 0), "reset_mask": dev.get("reset_mask", 0xFFFFFFFF), "spec": dev}
    for k in ("vendor", "vendor_id", "name", "series", "version", "description", "license_text", "header_system_filename",
              "header_definitions_prefix", "address_unit_bits", "width"):
        D[k] = dev.get(k)
    D["cpu"] = cpu(dev.get("cpu"))

    # 1. expansion (forces every element, so that every rejection is found)
    def expand(n, above_size, depth=0, copy=False):
        """-> list of instance dicts with 'kids' (unadjusted)"""
        if depth > 60:
            raise Reject("an element contains itself", {"C07", "C06"})
        if n.kind == "enumc":
            return []
        R.copied(n)
        if copy and n.src is None and "derived_from" in n.spec and R.reaches_itself(n):
            raise Unknown("a copied path that reaches the element it was copied from as well")
        out = []
        insts = R.instances(n)
        own = R.attrs(n).get("size")
        near = own if own is not None else above_size
        kids = [(k, expand(k, near, depth + 1, copy or k.parent is not n)) for k in R.kids(n)] if n.kind != "field" else []
        conts = [R.container(k) for k in R.kids(n)] if n.kind == "field" else []
        for a in insts:
            a = dict(a, k=n.kind, kids=[dict_copy(y) for _, l in kids for y in l], conts=conts, near=near)
            out.append(a)
        return out

    def dict_copy(d):
        return dict(d, kids=[dict_copy(x) for x in d["kids"]])

    ps = []
    for p in R.root.own:
        ps += expand(p, D["size"])

    # 2. container sizes (bottom up), usages of enumeration containers
    def adjust(e):
        for c in e["kids"]:
            adjust(c)
        if e["k"] in ("peripheral", "cluster") and e["kids"]:
            m = -1
            for c in e["kids"]:
                s = c["size"]
                if s is None:
                    s = e["near"] if c["k"] == "register" or not c["kids"] else c["size"]
                elif s % 8:
                    s = 0
                m = max(m, s)
            e["size"] = m
        if e["k"] == "field":
            us = [c.get("usage", "read-write") for c in e["conts"]]
            e["enums"] = [enum_values(c, e) for c in e["conts"]]
            if len(set(us)) != len(us) or len(us) > 2 or (len(us) == 2 and set(us) != {"read", "write"}):
                raise Reject("container usages", {"C16"})

    for p in ps:
        adjust(p)

    # 3. top-down inheritance
    def inherit(e, up):
        for k in PROPS:
            if e[k] is None:
                e[k] = up[k]
        for c in e["kids"]:
            if c["k"] == "field":
                if c["access"] is None:
                    c["access"] = e["access"]
                if c["write_constraint"] is None:
                    c["write_constraint"] = e["write_constraint"]
            else:
                inherit(c, e)

    for p in ps:
        inherit(p, D)

    # 4. finalisation
    def fin_field(f):
        W_ = f["msb"] - f["lsb"] + 1
        cs = []
        for spec, vals in zip(f["conts"], f["enums"]):
            keep = []
            for v in vals:
                if v["value"] is None:
                    raise Reject("enumerated value without value", {"C13", "C14", "C07"})
                if W_ < 0:
                    raise Unknown("negative width")
                if not 0 <= v["value"] < 2 ** W_:
                    W["dropped"].append(("enumv", v["name"]))
                    continue
                keep.append(v)
            cs.append({"name": spec.get("name"), "header_enum_name": spec.get("header_enum_name"),
                       "usage": spec.get("usage", "read-write"), "values": keep, "spec": spec})
        f["containers"] = sorted(cs, key=lambda c: (c["usage"], len(c["values"])))
        return f

    def fin_reg(e, base):
        if e["name"].lower() == "reserved":
            W["dropped"].append(("register", e["name"]))
            return None
        if e["alternate_register"] is not None and e["alternate_group"] is not None:
            raise Reject("alternate register and group", {"C07"})
        fs, seen = [], set()
        for f in sorted(e["kids"], key=lambda f: (f["lsb"], f["name"])):
            if f["name"].lower() == "reserved":
                W["dropped"].append(("field", f["name"]))
                continue
            if f["name"] in seen:
                raise Reject("duplicate field", {"C11"})
            seen.add(f["name"])
            fs.append(fin_field(f))
        for i, f in enumerate(fs):
            for g in fs[:i]:
                if set(OFF[f["access"]]) & set(OFF[g["access"]]) and f["lsb"] <= g["msb"] and g["lsb"] <= f["msb"]:
                    raise Reject("fields overlap", {"C11"})
            if f["msb"] >= e["size"]:
                W["msb"].add(f["name"])
        e["fields"] = fs
        return e

    def fin_scope(kids, base):
        out, names = [], set()
        for e in sorted(kids, key=lambda x: (x["address_offset"], x["name"])):
            e["abs"] = base + e["address_offset"]
            if e["size"] % 8:
                W["dropped"].append((e["k"], e["name"]))
                continue
            if e["size"] // 8 not in (1, 2, 4, 8, 16):
                raise Reject("unsupported size", {"C07", "C04"})
            if e["k"] == "cluster":
                e["rc"] = fin_scope(e["kids"], e["abs"])
                if not e["rc"]:
                    W["dropped"].append(("cluster", e["name"]))
                    continue
                e["end"] = max(c["end"] for c in e["rc"])
                e["cluster_size"] = e["end"] - e["abs"] + 1
            else:
                if fin_reg(e, base) is None:
                    continue
                e["end"] = e["abs"] + e["size"] // 8 - 1
            n = e["name"]
            if e["k"] == "register" and e["alternate_group"]:
                n += "_" + e["alternate_group"]
            if n in names:
                raise Reject("duplicate register/cluster", {"C12"})
            names.add(n)
            out.append(e)
        out.sort(key=lambda e: (e["abs"], (0, "") if e.get("alternate_group") is None else (1, e["alternate_group"]), e["name"]))
        vis = [e for e in out if e.get("alternate_group") is None]
        overlaps(vis, lambda e: e["end"], lambda e: e.get("alternate_register") if e["k"] == "register" else e.get("alternate_cluster"),
                 "rc", out)
        return out

    def overlaps(items, end, alt, label, allitems):
        for j, y in enumerate(items):
            for x in items[:j]:
                if y["abs"] <= end(x) and not declared(x, y, alt, allitems):
                    W["overlap"].add((label, y["name"], x["name"]))

    def declared(x, y, alt, items):
        ay = alt(y)
        if not ay:
            return x["k"] == y["k"] and alt(x) == y["name"]
        pool = [e for e in items if e["k"] == y["k"]]
        seen, todo = set(), [ay]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            todo += [e["name"] for e in pool if alt(e) == c and not e.get("alternate_group")]
            todo += [alt(e) for e in pool if e["name"] == c and alt(e) is not None and not e.get("alternate_group")]
        return x["name"] in seen

    def regs(rc):
        return [r for e in rc for r in ([e] if e["k"] == "register" else regs(e["rc"]))]

    out, names = [], set()
    for p in sorted(ps, key=lambda p: (p["base_address"], p["name"])):
        p["abs"] = p["base_address"]
        p["rc"] = fin_scope(p["kids"], p["abs"])
        if not p["rc"] or (p["size"] % 8):
            W["dropped"].append(("peripheral", p["name"]))
            continue
        if not p["address_blocks"]:
            raise Reject("no address blocks", {"C07", "C02"})
        p["end_address"] = max(p["abs"] + b["offset"] + b["size"] - 1 for b in p["address_blocks"])
        p["peripheral_size"] = sum(b["size"] for b in p["address_blocks"])
        p["end_address_effective"] = max(e["end"] for e in p["rc"])
        p["peripheral_size_effective"] = p["end_address_effective"] - p["abs"] + 1
        p["registers"] = sorted(regs(p["rc"]), key=lambda r: (r["abs"], r["name"]))
        if p["name"] in names:
            raise Reject("duplicate peripheral", {"C12"})
        names.add(p["name"])
        out.append(p)
    out.sort(key=lambda p: (p["abs"], p["name"]))
    al = lambda e: e["alternate_peripheral"]
    overlaps(out, lambda e: e["end_address_effective"], al, "pe", out)
    overlaps(out, lambda e: e["end_address"], al, "ps", out)
    D["peripherals"] = out
    return D, W


def enum_values(c, f):
    vals, names, seen, default = [], set(), {}, None
    width = f["msb"] - f["lsb"] + 1
    for v in c["values"]:
        if v.get("value"):
            nums, wild = literal(v["value"])
        else:
            nums, wild = [None], False
        for n in nums:
            nm = v["name"]
            if nm.lower() == "reserved":
                continue
            if n is not None and wild:
                nm = f"{nm}_{n}"
            if nm in names or n in seen:
                continue
            if v.get("is_default"):
                if default is not None:
                    raise Reject("two defaults", {"C15"})
                default = v if True else None
                default_name = nm
                names.add(nm)
                continue
            names.add(nm)
            if n is not None:
                seen[n] = nm
            vals.append({"name": nm, "value": n, "description": v.get("description"), "spec": v})
    if default is not None:
        if width > 12 or width < 0:
            raise Unknown("very wide default")
        for n in range(1 << width):
            if n not in seen:
                vals.append({"name": f"{default_name}_{n}", "value": n, "description": default.get("description"), "spec": default})
    return sorted(vals, key=lambda v: v["value"] if v["value"] is not None else 0)


def cpu(c):
    if c is None:
        return None
    r = {k: c.get(k) for k in ("revision", "endian", "nvic_prio_bits", "vendor_systick_config", "device_num_interrupts", "sau_num_regions")}
    r["name"] = "CM0PLUS" if c["name"] == "CM0+" else c["name"]
    for k in ("mpu_present", "fpu_present", "fpu_dp", "dsp_present", "icache_present", "dcache_present", "itcm_present", "dtcm_present"):
        r[k] = c.get(k, False)
    r["vtor_present"] = c.get("vtor_present", True)
    s = c.get("sau")
    r["sau_regions_config"] = None if s is None else {
        "enabled": s.get("enabled", True), "protection_when_disabled": s.get("protection_when_disabled", "s"),
        "regions": [{"enabled": g.get("enabled", True), "name": g.get("name"), "base": g["base"], "limit": g["limit"], "access": g["access"]}
                    for g in s["regions"]]}
    return r
