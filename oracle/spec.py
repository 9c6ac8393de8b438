"""Device descriptions as plain dict trees: random generation and an XML writer that is independent of the library.

An element is a dict with 'k' (device, peripheral, cluster, register, field, enumc, enumv, ab, irq, wc, cpu, sau, region)
and attribute names of the parsed model; an absent key means the XML element is absent.
"""
import random
from xml.sax.saxutils import escape, quoteattr

ACCESS = {"ro": "read-only", "wo": "write-only", "rw": "read-write", "w1": "writeOnce", "rw1": "read-writeOnce"}
PROT = ["s", "n", "p", "any"]
MWV = ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify"]
RACT = ["clear", "set", "modify", "modifyExternal"]
DTYPE = ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *", "uint16_t *",
         "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *"]
CPUN = ["CM0", "CM0PLUS", "CM0+", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85", "SC000", "SC300",
        "ARMV8MML", "ARMV8MBL", "ARMV81MML", "CA5", "CA7", "CA8", "CA9", "CA15", "CA17", "CA53", "CA57", "CA72", "SMC1", "other"]
ENDIAN = ["little", "big", "selectable", "other"]
USAGE3 = ["read", "write", "read-write"]
TOKEN = ["registers", "buffer", "reserved"]

INTS = {"dim", "dim_increment", "size", "reset_value", "reset_mask", "base_address", "address_offset", "bit_offset", "bit_width",
        "lsb", "msb", "offset", "value", "nvic_prio_bits", "device_num_interrupts", "sau_num_regions", "base", "limit",
        "address_unit_bits", "width", "minimum", "maximum"}

BLANK = {"vendor", "vendor_id", "series", "header_system_filename", "header_definitions_prefix", "alternate_peripheral", "group_name", "prepend_to_name", "append_to_name",
         "header_struct_name", "alternate_cluster", "display_name", "alternate_group", "alternate_register", "dim_name"}

TAGS = {  # attribute -> xml name, in an order accepted by the schema where that matters
    "device": [("vendor", "vendor"), ("vendor_id", "vendorID"), ("name", "name"), ("series", "series"), ("version", "version"),
               ("description", "description"), ("license_text", "licenseText"), ("cpu", None),
               ("header_system_filename", "headerSystemFilename"), ("header_definitions_prefix", "headerDefinitionsPrefix"),
               ("address_unit_bits", "addressUnitBits"), ("width", "width"), ("size", "size"), ("access", "access"),
               ("protection", "protection"), ("reset_value", "resetValue"), ("reset_mask", "resetMask")],
    "dim": [("dim", "dim"), ("dim_increment", "dimIncrement"), ("dim_index", "dimIndex"), ("dim_name", "dimName"), ("dim_array_index", None)],
    "peripheral": [("name", "name"), ("version", "version"), ("description", "description"),
                   ("alternate_peripheral", "alternatePeripheral"), ("group_name", "groupName"), ("prepend_to_name", "prependToName"),
                   ("append_to_name", "appendToName"), ("header_struct_name", "headerStructName"),
                   ("disable_condition", "disableCondition"), ("base_address", "baseAddress"), ("size", "size"), ("access", "access"),
                   ("protection", "protection"), ("reset_value", "resetValue"), ("reset_mask", "resetMask")],
    "cluster": [("name", "name"), ("description", "description"), ("alternate_cluster", "alternateCluster"),
                ("header_struct_name", "headerStructName"), ("address_offset", "addressOffset"), ("size", "size"),
                ("access", "access"), ("protection", "protection"), ("reset_value", "resetValue"), ("reset_mask", "resetMask")],
    "register": [("name", "name"), ("display_name", "displayName"), ("description", "description"),
                 ("alternate_group", "alternateGroup"), ("alternate_register", "alternateRegister"),
                 ("address_offset", "addressOffset"), ("size", "size"), ("access", "access"), ("protection", "protection"),
                 ("reset_value", "resetValue"), ("reset_mask", "resetMask"), ("data_type", "dataType"),
                 ("modified_write_values", "modifiedWriteValues"), ("write_constraint", None), ("read_action", "readAction")],
    "field": [("name", "name"), ("description", "description"), ("bit_offset", "bitOffset"), ("bit_width", "bitWidth"), ("lsb", "lsb"),
              ("msb", "msb"), ("bit_range", "bitRange"), ("access", "access"), ("modified_write_values", "modifiedWriteValues"),
              ("write_constraint", None), ("read_action", "readAction")],
}


def num(rng, v):
    if rng is None:
        return str(v)
    c = rng.randrange(6)
    if v < 0 or c < 2:
        return str(v)
    if c == 2:
        return "#" + bin(v)[2:] if v < 1 << 64 else hex(v)
    if c == 3:
        return "0X%X" % v
    return "0x%x" % v


def to_xml(dev, fmt=None, order=None):
    """fmt: random.Random for number notations (None: decimal); order: random.Random that shuffles sub-elements of simple
    content and splits <registers>/<fields> blocks (the meaning is the same)"""
    out = []

    def el(tag, text):
        out.append(f"<{tag}>{escape(str(text))}</{tag}>")

    def simple(e, pairs):
        blank = [p for p in pairs if p[0] in BLANK and p[0] not in e] if order is not None and order.random() < 0.05 else []
        pairs = [p for p in pairs if p[0] in e]
        if blank:  # an element of blanks only is an absent one
            tag = order.choice(blank)[1]
            out.append(f"<{tag}>{order.choice([' ', chr(10), '  '])}</{tag}>")
        if order is not None:
            pairs = pairs[:]
            order.shuffle(pairs)
        for a, tag in pairs:
            v = e[a]
            if a == "cpu":
                cpu(v)
            elif a == "write_constraint":
                wc(v)
            elif a == "dim_array_index":
                out.append("<dimArrayIndex>")
                if "header_enum_name" in v:
                    el("headerEnumName", v["header_enum_name"])
                for x in v["values"]:
                    enumv(x)
                out.append("</dimArrayIndex>")
            elif a in INTS and isinstance(v, int):
                el(tag, num(fmt, v))
            elif a == "access":
                el(tag, ACCESS.get(v, v))
            else:
                el(tag, v)

    def attr_df(e):
        return f" derivedFrom={quoteattr(e['derived_from'])}" if "derived_from" in e else ""

    def b(v):
        return "true" if v else "false"

    def cpu(c):
        out.append("<cpu>")
        el("name", c["name"])
        el("revision", c["revision"])
        el("endian", c["endian"])
        for a, tag in (("mpu_present", "mpuPresent"), ("fpu_present", "fpuPresent"), ("fpu_dp", "fpuDP"), ("dsp_present", "dspPresent"),
                       ("icache_present", "icachePresent"), ("dcache_present", "dcachePresent"), ("itcm_present", "itcmPresent"),
                       ("dtcm_present", "dtcmPresent"), ("vtor_present", "vtorPresent")):
            if a in c:
                el(tag, b(c[a]))
        el("nvicPrioBits", num(fmt, c["nvic_prio_bits"]))
        el("vendorSystickConfig", b(c["vendor_systick_config"]))
        if "device_num_interrupts" in c:
            el("deviceNumInterrupts", num(fmt, c["device_num_interrupts"]))
        if "sau_num_regions" in c:
            el("sauNumRegions", num(fmt, c["sau_num_regions"]))
        if "sau" in c:
            s = c["sau"]
            a = ""
            if "enabled" in s:
                a += f' enabled="{b(s["enabled"])}"'
            if "protection_when_disabled" in s:
                a += f' protectionWhenDisabled="{s["protection_when_disabled"]}"'
            out.append(f"<sauRegionsConfig{a}>")
            for r in s["regions"]:
                a = ""
                if "enabled" in r:
                    a += f' enabled="{b(r["enabled"])}"'
                if "name" in r:
                    a += f' name={quoteattr(r["name"])}'
                out.append(f"<region{a}>")
                el("base", num(fmt, r["base"]))
                el("limit", num(fmt, r["limit"]))
                el("access", r["access"])
                out.append("</region>")
            out.append("</sauRegionsConfig>")
        out.append("</cpu>")

    def wc(w):
        out.append("<writeConstraint>")
        if "write_as_read" in w:
            el("writeAsRead", b(w["write_as_read"]))
        if "use_enumerated_values" in w:
            el("useEnumeratedValues", b(w["use_enumerated_values"]))
        if "range" in w:
            out.append("<range>")
            el("minimum", num(fmt, w["range"][0]))
            el("maximum", num(fmt, w["range"][1]))
            out.append("</range>")
        out.append("</writeConstraint>")

    def enumv(v):
        out.append("<enumeratedValue>")
        el("name", v["name"])
        if "description" in v:
            el("description", v["description"])
        if "value" in v:
            el("value", v["value"])
        if "is_default" in v:
            el("isDefault", b(v["is_default"]))
        out.append("</enumeratedValue>")

    def field(f):
        out.append(f"<field{attr_df(f)}>")
        simple(f, TAGS["dim"] + TAGS["field"])
        for c in f.get("containers", []):
            out.append(f"<enumeratedValues{attr_df(c)}>")
            if "name" in c:
                el("name", c["name"])
            if "header_enum_name" in c:
                el("headerEnumName", c["header_enum_name"])
            if "usage" in c:
                el("usage", c["usage"])
            for v in c["values"]:
                enumv(v)
            out.append("</enumeratedValues>")
        out.append("</field>")

    def blocks(tag, items, fn):
        if not items:
            return
        if order is not None and len(items) > 1 and order.random() < 0.3:
            c = order.randrange(1, len(items))
            parts = [items[:c], items[c:]]
        else:
            parts = [items]
        for p in parts:
            out.append(f"<{tag}>")
            for x in p:
                fn(x)
            out.append(f"</{tag}>")

    def rc(e):
        if e["k"] == "register":
            out.append(f"<register{attr_df(e)}>")
            simple(e, TAGS["dim"] + TAGS["register"])
            blocks("fields", e.get("fields", []), field)
            out.append("</register>")
        else:
            out.append(f"<cluster{attr_df(e)}>")
            simple(e, TAGS["dim"] + TAGS["cluster"])
            for c in e.get("children", []):
                rc(c)
            out.append("</cluster>")

    out.append('<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd" schemaVersion="1.3">')
    simple(dev, TAGS["device"])
    out.append("<peripherals>")
    for p in dev["peripherals"]:
        out.append(f"<peripheral{attr_df(p)}>")
        simple(p, TAGS["dim"] + TAGS["peripheral"])
        for a in p.get("address_blocks", []):
            out.append("<addressBlock>")
            el("offset", num(fmt, a["offset"]))
            el("size", num(fmt, a["size"]))
            el("usage", a["usage"])
            if "protection" in a:
                el("protection", a["protection"])
            out.append("</addressBlock>")
        for i in p.get("interrupts", []):
            out.append("<interrupt>")
            el("name", i["name"])
            if "description" in i:
                el("description", i["description"])
            el("value", num(fmt, i["value"]))
            out.append("</interrupt>")
        blocks("registers", p.get("children", []), rc)
        out.append("</peripheral>")
    out.append("</peripherals></device>")
    return "".join(out)


# ------------------------------------------------------------------------------------------------ generation
DEFAULT = dict(
    periphs=(1, 3), children=(1, 4), depth=2, fields=(0, 3), p_cluster=0.3, p_prop=0.3, p_prop_zero=0.25, p_derive=0.25, p_dim=0.2,
    p_enum=0.25, p_meta=0.3, p_cpu=0.2, p_alt=0.15, p_weird=0.04, p_overlap=0.1, p_reserved=0.04, p_dup=0.03, p_attr=0.25, p_ab=(1, 3),
    p_oddsize=0.03, p_wc=0.2, p_dangling=0.0, p_empty=0.04, p_default=0.4, p_x=0.3, p_badliteral=0.02, p_badpos=0.02, p_own_ab=0.4,
    big=0.1, dim_max=4, p_badindex=0.03, p_twodef=0.03, enum_max=5, p_fieldderive=None, p_enumderive=0.2, p_shuffle=1.0, p_dimarr=0.0)


class Gen:
    def __init__(self, seed, **knobs):
        self.r = random.Random(seed)
        self.k = dict(DEFAULT)
        self.k.update(knobs)
        self.n = 0

    def ch(self, key):
        return self.r.random() < self.k[key]

    def fresh(self, pre):
        self.n += 1
        r = self.r
        # names whose order differs by case, length and digits
        return r.choice([pre, pre.lower(), pre + "_", pre * 2]) + str(self.n)

    def reserved(self):
        r = self.r
        if r.random() < 0.3:
            self.n += 1
            return r.choice(["Reserved_", "reserved", "xReserved", "RESERVED"]) + str(self.n) + r.choice(["", "", "_reserved"])
        return r.choice(["reserved", "Reserved", "RESERVED", "rEsErVeD"])

    def text(self):
        return self.r.choice(["some text", "d", "two  words", "x < y & z", "0", "None", "Täxt", "a\nb"])

    def props(self, e, size=True):
        r = self.r
        if self.ch("p_prop") and size:
            e["size"] = r.choice([8, 16, 32, 32, 64, 128])
            if self.ch("p_oddsize"):
                e["size"] = r.choice([0, 1, 12, 20, 33, 24, 40])
        if self.ch("p_prop"):
            e["access"] = r.choice(list(ACCESS))
        if self.ch("p_prop"):
            e["protection"] = r.choice(PROT)
        if self.ch("p_prop"):
            e["reset_value"] = 0 if self.ch("p_prop_zero") else r.choice([1, 0x55, 0xFFFFFFFF, 0x100000000])
        if self.ch("p_prop"):
            e["reset_mask"] = 0 if self.ch("p_prop_zero") else r.choice([1, 0xFF, 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF])

    def opt(self, e, **kw):
        for a, f in kw.items():
            if self.ch("p_attr"):
                e[a] = f()

    def wc(self):
        r = self.r
        w = {}
        c = r.randrange(5)
        if c in (0, 3):
            w["write_as_read"] = r.random() < 0.5
        if c in (1, 3):
            w["use_enumerated_values"] = r.random() < 0.5
        if c in (2, 3):
            lo = r.choice([0, 1, 5])
            w["range"] = [lo, r.choice([0, lo, 255, 0xFFFFFFFF])]
        return w

    def dim(self, e, kind, inc):
        r = self.r
        d = r.randint(1, self.k["dim_max"])
        if r.random() < 0.15:
            d = r.choice([1, 2, 11, 12])
        e["dim"] = d
        e["dim_increment"] = inc
        arr = kind == "peripheral" or (kind != "field" and r.random() < 0.5)
        if self.ch("p_weird"):
            arr = not arr
        base = self.fresh(kind[0].upper())
        if arr:
            e["name"] = base + "[%s]"
        else:
            e["name"] = r.choice([base + "%s", base + "_%s_x", "%s" + base, base + "%s_%s"])
        if self.ch("p_weird"):
            e["name"] = base
        if r.random() < 0.5:
            c = r.randrange(5)
            m = d
            if self.ch("p_badindex"):
                m = max(1, d + r.choice([-1, 1]))
            if c == 0:
                s = r.choice([0, 1, 3, 9, 98])
                e["dim_index"] = f"{s}-{s + m - 1}"
            elif c == 1 and m >= 2 and m < 20:
                s = r.randrange(0, 26 - m + 1)
                e["dim_index"] = f"{chr(65 + s)}-{chr(65 + s + m - 1)}"
            elif c in (2, 3) and m >= 2:
                e["dim_index"] = r.choice([",", ", ", ",  "]).join(r.sample(["A", "b", "C0", "x_1", "7", "08", "Zz", "q", "RX", "TX", "n9", "k", "l", "m", "_o", "p"], min(m, 16)))
            elif m == 1:
                e["dim_index"] = r.choice(["ONE", "5", "a_b"])
            if self.ch("p_badindex"):
                e["dim_index"] = r.choice(["B-A", "3-1", "a-c", "1,,2", "1;2", "A-", "-3", "0-1x", "A-Bx", "x y", "A,B ", "A-A"])
        if kind == "register" and r.random() < 0.4:
            e["display_name"] = ("DN[%s]" if arr else r.choice(["DN%s", "DN%s", "%s.DN%s"])) if not self.ch("p_weird") else r.choice(["DN[%s]", "DN%s", "DN"])
            if r.random() < 0.1:
                e["display_name"] = "plain"
        if self.ch("p_dimarr"):
            e["dim_name"] = "dn" + str(r.randrange(9))
        if self.ch("p_dimarr"):
            a = {"values": [{"k": "enumv", "name": self.fresh("A"), "value": str(i)} for i in range(r.randint(1, 3))]}
            for v in a["values"]:
                self.opt(v, description=self.text)
            if r.random() < 0.5:
                a["header_enum_name"] = "arrhdr"
            e["dim_array_index"] = a
        return d

    def field(self, lo, width, bases):
        r = self.r
        f = {"k": "field", "name": self.fresh("F")}
        derive = None
        p = self.k["p_derive"] if self.k["p_fieldderive"] is None else self.k["p_fieldderive"]
        if bases and r.random() < p:
            derive = r.choice(bases)
            f["derived_from"] = derive["name"]
        c = r.randrange(3)
        if r.random() < 0.3:
            pos = r.sample([0, 1, 2], r.choice([2, 3]))
        else:
            pos = [c]
        hi = lo + width - 1
        prio = max(pos)
        for q in pos:
            l, h = (lo, hi) if q == prio else (r.randrange(0, 8), r.randrange(8, 16))
            if q == 0:
                f["bit_offset"], f["bit_width"] = l, h - l + 1
            elif q == 1:
                f["lsb"], f["msb"] = l, h
            else:
                f["bit_range"] = f"[{h}:{l}]" if not (r.random() < 0.1) else f"[{l}:{h}]"
        if derive is not None and r.random() < 0.4:
            for a in ("bit_width", "msb"):
                if a in f and r.random() < 0.5:
                    del f[a]
                    break
        if self.ch("p_badpos"):
            for a in r.sample(["bit_offset", "bit_width", "lsb", "msb", "bit_range"], 3):
                f.pop(a, None)
            if r.random() < 0.3:
                f["bit_range"] = r.choice(["7:0", "[7-0]", "[a:b]", "7", "[7:]"])
        if r.random() < self.k["p_prop"]:
            f["access"] = r.choice(list(ACCESS))
        self.opt(f, description=self.text, modified_write_values=lambda: r.choice(MWV), read_action=lambda: r.choice(RACT))
        if self.ch("p_wc"):
            f["write_constraint"] = self.wc()
        if self.ch("p_reserved"):
            f["name"] = self.reserved()
        if self.ch("p_enum"):
            f["containers"] = self.containers(width)
        return f

    def literal(self, v, width):
        r = self.r
        return r.choice([str(v), hex(v), "0X%X" % v, "#" + bin(v)[2:].zfill(r.choice([1, width])), "0b" + bin(v)[2:], "0B" + bin(v)[2:], "%02d" % v])

    def values(self, width):
        r = self.r
        width = min(max(width, 1), 10)
        top = (1 << width) - 1
        vals = []
        for _ in range(r.randint(0 if r.random() < 0.1 else 1, self.k["enum_max"])):
            v = {"k": "enumv", "name": self.fresh("E")}
            if self.ch("p_x") and width <= 6:
                lit = "".join(r.choice("01x") for _ in range(width))
                if r.random() < 0.2:
                    lit = lit.upper()
                v["value"] = r.choice(["#", "0b"]) + lit
            else:
                n = r.randint(0, top)
                if r.random() < 0.2:
                    n = r.choice([0, top])
                if self.ch("p_weird"):
                    n = r.choice([top + 1, top + 2, top * 2 + 5])
                v["value"] = self.literal(n, width)
            if self.ch("p_badliteral"):
                v["value"] = r.choice(["abc", "0xG", "1x", "#2", "0b12", "-1", "1.5", "x1", "0o7", "12a", "#"])
            self.opt(v, description=self.text)
            if self.ch("p_reserved"):
                v["name"] = self.reserved()
            if vals and self.ch("p_dup"):
                v["name"] = r.choice(vals)["name"]
            if r.random() < 0.1:
                v["is_default"] = False
            vals.append(v)
        if self.ch("p_default"):
            d = {"k": "enumv", "name": self.fresh("DEF"), "is_default": True}
            self.opt(d, description=self.text)
            if r.random() < 0.15:
                d["value"] = self.literal(r.randint(0, top), width)
            vals.insert(r.randint(0, len(vals)), d)
            if self.ch("p_twodef"):
                vals.append({"k": "enumv", "name": self.fresh("DEF"), "is_default": True})
        if self.ch("p_weird") and r.random() < 0.3:
            vals.append({"k": "enumv", "name": self.fresh("NOVAL")})
        return vals

    def containers(self, width):
        r = self.r
        out = []
        u = [None] if r.random() < 0.5 else r.choice([["read"], ["write"], ["read-write"], ["read", "write"], ["write", "read"], ["read", "write"]])
        if self.ch("p_weird"):
            u = r.choice([["read", "read-write"], ["read", "read"], [None, "read"], ["read", "write", "read-write"], [None, None], ["read-write", "write"]])
        for x in u:
            c = {"k": "enumc", "values": self.values(width)}
            if r.random() < 0.6:
                c["name"] = self.fresh("EC")
            if x is not None:
                c["usage"] = x
            self.opt(c, header_enum_name=lambda: "hdr")
            out.append(c)
        return out

    def derive(self, e, b):
        e["derived_from"] = b["name"]
        if "dim" in b and self.r.random() < 0.5:  # the derived element gets its dim from the base element
            e["name"] += "[%s]" if "[%s]" in b["name"] else "%s"

    def register(self, off, bases):
        r = self.r
        e = {"k": "register", "name": self.fresh("R"), "address_offset": off}
        if bases and self.ch("p_derive"):
            self.derive(e, r.choice(bases))
        self.props(e)
        self.opt(e, description=self.text, data_type=lambda: r.choice(DTYPE), modified_write_values=lambda: r.choice(MWV),
                 read_action=lambda: r.choice(RACT), display_name=lambda: e.get("name", "disp") if r.random() < 0.2 else "disp" + str(r.randrange(9)))
        if self.ch("p_wc"):
            e["write_constraint"] = self.wc()
        step = r.choice([4, 8, 16, 5 if self.ch("p_weird") else 4])
        n = 1
        if self.ch("p_dim"):
            n = self.dim(e, "register", step)
        if self.ch("p_alt"):
            e["alternate_group"] = r.choice(["AG", "ag2", "A"])
            if self.ch("p_weird"):
                e["alternate_register"] = "R1"
        elif self.ch("p_reserved"):
            e["name"] = self.reserved()
        if "derived_from" not in e or r.random() < 0.3:
            lo = 0 if "derived_from" not in e else 40
            fs = []
            for _ in range(r.randint(*self.k["fields"])):
                lo += r.choice([0, 0, 1, 3])
                w = r.choice([1, 1, 2, 3, 4, 8])
                if self.ch("p_overlap"):
                    lo = max(0, lo - r.choice([1, 2, 5]))
                f = self.field(lo, w, fs)
                if self.ch("p_dim") and w <= 4 and "derived_from" not in f:
                    nm = f["name"]
                    d = self.dim(f, "field", w + r.choice([0, 0, 1]))
                    if nm.lower() == "reserved":
                        f["name"] = "reserved%s"
                    lo += d * (w + 1)
                if fs and self.ch("p_dup"):
                    f["name"] = r.choice(fs)["name"]
                fs.append(f)
                lo += w
            r.shuffle(fs)
            if fs:
                e["fields"] = fs
        return e, max(4, step) * n if "dim" in e else max(4, e.get("size", 32) // 8)

    def children(self, depth, lo=None):
        r = self.r
        out = []
        off = r.choice([0, 0, 4, 0x10]) if lo is None else lo
        for _ in range(r.randint(*self.k["children"]) if not self.ch("p_empty") else 0):
            regs = [x for x in out if x["k"] == "register"]
            clus = [x for x in out if x["k"] == "cluster"]
            off += r.choice([0, 0, 0, 4, 8, 0x20])
            if self.ch("big"):
                off += r.choice([0x1000, 0x10000000, 0x100000000])
            if self.ch("p_weird"):
                off += r.choice([1, 2, 3])
            if out and self.ch("p_overlap"):
                off = max(0, off - r.choice([4, 8, 2, 1]))
            if depth > 0 and self.ch("p_cluster"):
                e = {"k": "cluster", "name": self.fresh("C"), "address_offset": off}
                derived = clus and self.ch("p_derive")
                if derived:
                    self.derive(e, r.choice(clus))
                self.props(e)
                self.opt(e, description=self.text, header_struct_name=lambda: "hs" + str(r.randrange(9)))
                span = 0x100 if r.random() < 0.5 else 0x40
                n = 1
                if self.ch("p_dim"):
                    n = self.dim(e, "cluster", span)
                if not derived or r.random() < 0.3:
                    e["children"] = self.children(depth - 1, None if not derived else 0x200)
                off += span * n
            else:
                e, s = self.register(off, regs)
                off += s
            if out and self.ch("p_dup"):
                e["name"] = r.choice(out)["name"]
            out.append(e)
        regs = [x for x in out if x["k"] == "register" and "alternate_group" not in x]
        for e in out:
            if e["k"] == "register" and "alternate_group" not in e and len(regs) > 1 and self.ch("p_alt"):
                e["alternate_register"] = r.choice([x["name"] for x in regs if x is not e] + ["NONE"])
            if e["k"] == "cluster" and self.ch("p_alt"):
                e["alternate_cluster"] = r.choice([x["name"] for x in out if x["k"] == "cluster" and x is not e] + ["NONE"])
        if r.random() < self.k["p_shuffle"]:
            r.shuffle(out)
        return out

    def block(self):
        r = self.r
        a = {"offset": r.choice([0, 0, 0x10, 0x100, 0x1000, 4]), "size": r.choice([0x10, 0x100, 0x1000, 4, 0x2000]), "usage": r.choice(TOKEN)}
        if r.random() < 0.3:
            a["protection"] = r.choice(PROT)
        return a

    def peripheral(self, base, bases):
        r = self.r
        e = {"k": "peripheral", "name": self.fresh("P"), "base_address": base}
        derived = bases and self.ch("p_derive")
        if derived:
            self.derive(e, r.choice(bases))
        self.props(e)
        self.opt(e, version=lambda: "1.%d" % r.randrange(9), description=self.text, group_name=lambda: "G" + str(r.randrange(9)),
                 prepend_to_name=lambda: "pre", append_to_name=lambda: "app", header_struct_name=lambda: "hs" + str(r.randrange(9)),
                 disable_condition=lambda: "a == b")
        if self.ch("p_dim"):
            self.dim(e, "peripheral", r.choice([0x1000, 0x100, 0x4000]))
        if not derived or self.ch("p_own_ab"):
            n = r.randint(*self.k["p_ab"])
            if self.ch("p_weird") and r.random() < 0.2:
                n = 0
            bl = []
            for _ in range(n):
                b = self.block()
                while any(b["offset"] == x["offset"] for x in bl):
                    b["offset"] += r.choice([8, 0x20])
                bl.append(b)
            e["address_blocks"] = bl
        vs = r.sample(range(0, 40), r.choice([0, 0, 1, 2, 3]))
        irq = []
        for v in vs:
            i = {"name": self.fresh("IRQ"), "value": v}
            if r.random() < 0.5:
                i["description"] = self.text()
            irq.append(i)
        if irq:
            e["interrupts"] = irq
        if not derived or r.random() < 0.3:
            e["children"] = self.children(self.k["depth"], None if not derived else 0x800)
        return e

    def cpu(self):
        r = self.r
        c = {"name": r.choice(CPUN + ["CM0+", "CM0+"]), "revision": "r%dp0" % r.randrange(3), "endian": r.choice(ENDIAN),
             "nvic_prio_bits": r.randrange(0, 9), "vendor_systick_config": r.random() < 0.5}
        for a in ("mpu_present", "fpu_present", "fpu_dp", "dsp_present", "icache_present", "dcache_present", "itcm_present", "dtcm_present", "vtor_present"):
            if r.random() < 0.5:
                c[a] = r.random() < 0.5
        if r.random() < 0.4:
            c["device_num_interrupts"] = r.choice([0, 5, 240])
        if r.random() < 0.4:
            c["sau_num_regions"] = r.choice([0, 4])
        if r.random() < 0.6:
            s = {"regions": []}
            if r.random() < 0.5:
                s["enabled"] = r.random() < 0.5
            if r.random() < 0.5:
                s["protection_when_disabled"] = r.choice(PROT)
            for _ in range(r.randrange(4)):
                g = {"base": r.choice([0, 0x1000, 0x20000000]), "limit": r.choice([0, 0x1FFF, 0xFFFFFFFF]), "access": r.choice(["c", "n"])}
                if r.random() < 0.5:
                    g["enabled"] = r.random() < 0.5
                if r.random() < 0.5:
                    g["name"] = self.fresh("SAU")
                s["regions"].append(g)
            c["sau"] = s
        return c

    def device(self):
        r = self.r
        d = {"k": "device", "name": "Dev" + str(r.randrange(99)), "version": r.choice(["1.0", "2.3.4"]), "description": r.choice(["a device", "x & y", "Gerät"]),
             "address_unit_bits": r.choice([8, 8, 16]), "width": r.choice([32, 32, 64, 16])}
        self.props(d)
        if d.get("size", 8) % 8:
            d["size"] = 32
        for a in ("vendor", "vendor_id", "series", "license_text", "header_system_filename", "header_definitions_prefix"):
            if self.ch("p_meta"):
                d[a] = a + str(r.randrange(9))
        if self.ch("p_cpu"):
            d["cpu"] = self.cpu()
        ps = []
        base = r.choice([0, 0x40000000, 0x1000])
        for _ in range(r.randint(*self.k["periphs"])):
            ps.append(self.peripheral(base, ps))
            base += r.choice([0x10000, 0x40000, 0x10000, 0x1000])
            if self.ch("p_overlap"):
                base -= r.choice([0x10000, 0x1000, 0x800])
                base = max(base, 0)
            if self.ch("p_overlap"):  # at the edge of a block or of a register of the previous peripheral
                q = r.choice(ps)
                ends = [b["offset"] + b["size"] for b in q.get("address_blocks", [])]
                ends += [c["address_offset"] + r.choice([1, 2, 4, 8]) for c in q.get("children", []) if "address_offset" in c]
                if ends:
                    base = max(0, q["base_address"] + r.choice(ends) + r.choice([-1, 0, -1, 0, 1, -2]))
            if self.ch("p_weird"):
                base += r.choice([1, 2])
            if len(ps) > 1 and self.ch("p_dup"):
                ps[-1]["name"] = r.choice(ps[:-1])["name"]
        for p in ps:
            if self.ch("p_alt"):
                p["alternate_peripheral"] = r.choice([x["name"] for x in ps if x is not p] + ["NONE"])
        d["peripherals"] = ps
        self.deep_derivations(d)
        if self.ch("p_shuffle"):
            r.shuffle(ps)
        return d

    def deep_derivations(self, d):
        """derivations across scopes: full paths to registers, clusters, fields and enumeration containers elsewhere"""
        r = self.r
        nodes = []

        def walk(e, path):
            here = path + [e["name"]]
            nodes.append((e, here))
            for c in e.get("children", []) + e.get("fields", []):
                walk(c, here)
            for c in e.get("containers", []):
                if "name" in c:
                    nodes.append((c, here + [c["name"]]))

        for p in d["peripherals"]:
            walk(p, [])
        for kind, prob in (("cluster", 0.3), ("register", 0.5), ("field", 0.5), ("enumc", 0.6)):
            cands = [(e, pa) for e, pa in nodes if e["k"] == kind]
            if len(cands) < 2 or r.random() > prob * self.k["p_derive"] * 3:
                continue
            (e, pa), (b, pb) = r.sample(cands, 2)
            if "derived_from" in e or e is b or pa[:len(pb)] == pb or pb[:len(pa)] == pa:
                continue
            if kind == "enumc":
                e["values"] = []
            e["derived_from"] = ".".join(pb)
            if kind == "register" and r.random() < 0.4:  # the path also reaches the deriving element itself
                twins = [x for x, q in cands if q[:-1] == pb[:-1] and x is not b and "derived_from" not in x and "alternate_register" not in x]
                if twins and "%s" not in b["name"]:
                    del e["derived_from"]
                    e = r.choice(twins)
                    for k in ("dim", "dim_index", "dim_increment", "dim_name", "display_name"):
                        e.pop(k, None)
                    e.update(name=b["name"], alternate_group="twin", derived_from=r.choice([".".join(pb), b["name"]]))
            if self.ch("p_dangling"):
                e["derived_from"] += "_none"
        if self.ch("p_dangling") and nodes:
            e, pa = r.choice(nodes)
            e["derived_from"] = r.choice(["nothing", "P.nothing", ".".join(r.choice(nodes)[1]), pa[-1], ".".join(pa), ""])
