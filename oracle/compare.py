"""Comparison of a processed device (real objects) with the reference result; every difference carries the ids of the
properties whose statement it contradicts."""
ACC = {"ro": "READ_ONLY", "wo": "WRITE_ONLY", "rw": "READ_WRITE", "w1": "WRITE_ONCE", "rw1": "READ_WRITE_ONCE"}


def val(x):
    return x.value if hasattr(x, "value") and x.__class__.__module__.endswith("types") else x


class Diff:
    def __init__(self):
        self.d = []

    def add(self, tags, path, what, exp, got):
        self.d.append((set(tags), f"{path}: {what}: expected {exp!r}, got {got!r}"))

    def eq(self, tags, path, what, exp, got):
        if type(exp) is not type(got) or exp != got:
            self.add(tags, path, what, exp, got)


def acc(a):
    from spec import ACCESS
    return ACCESS.get(a, a)


def cmp_wc(D, tags, path, e, g):
    if e is None or g is None:
        D.eq(tags, path, "write constraint", e is None, g is None)
        return
    D.eq(tags, path, "writeAsRead", e.get("write_as_read"), g.write_as_read)
    D.eq(tags, path, "useEnumeratedValues", e.get("use_enumerated_values"), g.use_enumerated_values)
    D.eq(tags, path, "range", tuple(e["range"]) if "range" in e else None, g.range_)


def cmp_props(D, path, e, g):
    for k in ("access", "protection", "reset_value", "reset_mask"):
        x = acc(e[k]) if k == "access" else e[k]
        D.eq({"C03", "C05"}, path, k, x, val(getattr(g, k)))
    D.eq({"C04", "C03"}, path, "size", e["size"], g.size)


def cmp_field(D, path, e, g):
    D.eq({"C05", "C08", "C09"}, path, "name", e["name"], g.name)
    path += "." + e["name"]
    D.eq({"C05"}, path, "description", e["description"], g.description)
    D.eq({"C10", "C08"}, path, "lsb", e["lsb"], g.lsb)
    D.eq({"C10", "C08"}, path, "msb", e["msb"], g.msb)
    D.eq({"C10"}, path, "bit offset", e["lsb"], g.bit_offset)
    D.eq({"C10"}, path, "bit width", e["msb"] - e["lsb"] + 1, g.bit_width)
    D.eq({"C10"}, path, "bit range", (e["msb"], e["lsb"]), g.bit_range)
    D.eq({"C03", "C05"}, path, "access", acc(e["access"]), val(g.access))
    D.eq({"C05"}, path, "modifiedWriteValues", e["modified_write_values"], val(g.modified_write_values))
    D.eq({"C05"}, path, "readAction", e["read_action"], val(g.read_action))
    cmp_wc(D, {"C03", "C05"}, path, e["write_constraint"], g.write_constraint)
    ec, gc = e["containers"], g.enumerated_value_containers
    D.eq({"C16", "C17", "C26"}, path, "containers", [(c["usage"], len(c["values"])) for c in ec], [(val(c.usage), len(c.enumerated_values)) for c in gc])
    for i, (c, h) in enumerate(zip(ec, gc)):
        p = f"{path}.enum[{i}]"
        D.eq({"C16"}, p, "usage", c["usage"], val(h.usage))
        D.eq({"C16"}, p, "name", c["name"], h.name)
        D.eq({"C16"}, p, "headerEnumName", c["header_enum_name"], h.header_enum_name)
        t = {"C13", "C14", "C15", "C16", "C17"}
        D.eq(t, p, "values", [(v["value"], v["name"], v["description"]) for v in c["values"]],
             [(v.value, v.name, v.description) for v in h.enumerated_values])


def cmp_rc(D, path, e, g):
    kind = "cluster" if hasattr(g, "registers_clusters") else "register"
    if kind != e["k"]:
        D.add({"C01", "C06", "C17", "C26"}, path, "kind of " + e["name"], e["k"], kind)
        return
    D.eq({"C05", "C08", "C09", "C17"}, path, "name", e["name"], g.name)
    path += "." + e["name"]
    D.eq({"C01", "C08", "C05"}, path, "address offset", e["address_offset"], g.address_offset)
    D.eq({"C01", "C08"}, path, "absolute address", e["abs"], g.base_address)
    D.eq({"C05"}, path, "description", e["description"], g.description)
    cmp_props(D, path, e, g)
    if kind == "cluster":
        D.eq({"C02"}, path, "end", e["end"], g.end_address)
        D.eq({"C02"}, path, "cluster size", e["cluster_size"], g.cluster_size)
        D.eq({"C05"}, path, "alternateCluster", e["alternate_cluster"], g.alternate_cluster)
        D.eq({"C05"}, path, "headerStructName", e["header_struct_name"], g.header_struct_name)
        cmp_scope(D, path, e["rc"], g.registers_clusters)
    else:
        D.eq({"C05", "C08"}, path, "displayName", e["display_name"], g.display_name)
        D.eq({"C05"}, path, "alternateGroup", e["alternate_group"], g.alternate_group)
        D.eq({"C05"}, path, "alternateRegister", e["alternate_register"], g.alternate_register)
        D.eq({"C05"}, path, "dataType", e["data_type"], val(g.data_type))
        D.eq({"C05"}, path, "modifiedWriteValues", e["modified_write_values"], val(g.modified_write_values))
        D.eq({"C05"}, path, "readAction", e["read_action"], val(g.read_action))
        cmp_wc(D, {"C05"}, path, e["write_constraint"], g.write_constraint)
        en, gn = [f["name"] for f in e["fields"]], [f.name for f in g.fields]
        if en != gn:
            t = {"C17", "C11"} if sorted(en) == sorted(gn) else {"C26", "C06", "C08", "C09", "C11"}
            D.add(t, path, "fields", en, gn)
        else:
            for x, y in zip(e["fields"], g.fields):
                cmp_field(D, path, x, y)


def cmp_scope(D, path, es, gs):
    en, gn = [x["name"] for x in es], [x.name for x in gs]
    if en != gn:
        if sorted(en) == sorted(gn):
            D.add({"C17"}, path, "order of registers/clusters", en, gn)
        else:
            D.add({"C26", "C06", "C08", "C09", "C12", "C01"}, path, "registers/clusters", en, gn)
        return
    for x, y in zip(es, gs):
        cmp_rc(D, path, x, y)


def device(e, g):
    D = Diff()
    cmp_props_dev = {"size": "C04", "access": "C03", "protection": "C03", "reset_value": "C03", "reset_mask": "C03"}
    for k, t in cmp_props_dev.items():
        D.eq({t, "C27"}, "device", k, acc(e[k]) if k == "access" else e[k], val(getattr(g, k)))
    for k in ("vendor", "vendor_id", "name", "series", "version", "description", "license_text", "header_system_filename",
              "header_definitions_prefix", "address_unit_bits", "width"):
        D.eq({"C27"}, "device", k, e[k], getattr(g, k))
    ec, gc = e["cpu"], g.cpu
    if ec is None or gc is None:
        D.eq({"C27"}, "device", "no cpu", ec is None, gc is None)
    else:
        for k, v in ec.items():
            if k == "sau_regions_config":
                s = gc.sau_regions_config
                if v is None or s is None:
                    D.eq({"C27"}, "cpu", "no sau", v is None, s is None)
                    continue
                D.eq({"C27"}, "sau", "enabled", v["enabled"], s.enabled)
                D.eq({"C27"}, "sau", "protection when disabled", v["protection_when_disabled"], val(s.protection_when_disabled))
                D.eq({"C27"}, "sau", "regions", v["regions"], [{"enabled": r.enabled, "name": r.name, "base": r.base, "limit": r.limit, "access": val(r.access)} for r in s.regions])
            else:
                D.eq({"C27"}, "cpu", k, v, val(getattr(gc, k)))
    en, gn = [p["name"] for p in e["peripherals"]], [p.name for p in g.peripherals]
    if en != gn:
        D.add({"C17"} if sorted(en) == sorted(gn) else {"C26", "C06", "C08", "C12"}, "device", "peripherals", en, gn)
        return D
    for p, q in zip(e["peripherals"], g.peripherals):
        path = p["name"]
        D.eq({"C01", "C08", "C05"}, path, "base address", p["abs"], q.base_address)
        for k in ("version", "description", "alternate_peripheral", "group_name", "prepend_to_name", "append_to_name", "header_struct_name", "disable_condition"):
            D.eq({"C05"}, path, k, p[k], getattr(q, k))
        cmp_props(D, path, p, q)
        for k in ("end_address", "end_address_effective", "peripheral_size", "peripheral_size_effective"):
            D.eq({"C02"}, path, k, p[k], getattr(q, k))
        D.eq({"C05", "C27"}, path, "address blocks", [(b["offset"], b["size"], b["usage"], b.get("protection", "any")) for b in p["address_blocks"]],
             [(b.offset, b.size, val(b.usage), val(b.protection)) for b in q.address_blocks])
        D.eq({"C05", "C27"}, path, "interrupts", [(i["name"], i["value"], i.get("description")) for i in p["interrupts"]],
             [(i.name, i.value, i.description) for i in q.interrupts])
        cmp_scope(D, path, p["rc"], q.registers_clusters)
        er, gr = [(r["name"], r["abs"]) for r in p["registers"]], [(r.name, r.base_address) for r in q.registers]
        D.eq({"C01"}, path, "register list", er, gr)
        tree = []

        def walk(l):
            for x in l:
                if hasattr(x, "registers_clusters"):
                    walk(x.registers_clusters)
                else:
                    tree.append(id(x))
        walk(q.registers_clusters)
        if sorted(tree) != sorted(id(r) for r in q.registers):
            D.add({"C01"}, path, "register list", "the registers of the tree, each once", gr)
    return D
