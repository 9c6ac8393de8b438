"""Contracts of the inheritance of register properties (process.py, _InheritProperties)."""
from svdsuite.model.types import *
from svdsuite.model.parse import *
from svdsuite.model.process import *
from contracts.c_map import placed


def own_or(own, given):
    return own if own is not None else given


class inherit_fields:
    target = "svdsuite.process:_InheritProperties._inherit_properties_fields"
    args = ["self", "fields", "access", "write_constraint"]
    warns = "none"
    modifies = ["IField.access", "IField.write_constraint"]

    def C03_fields(fields, access, write_constraint, result):
        for f in fields:
            assert f.access == own_or(old(f.access), access)
            assert f.write_constraint is own_or(old(f.write_constraint), write_constraint)

    def ensures_frame(fields, access, write_constraint, result):
        assert forall("IField", lambda f: any(g is f for g in fields) or f.access == old(f.access) and f.write_constraint is old(f.write_constraint))

    def invariant_1(fields, access, write_constraint, done):
        for i in range(done):
            assert fields[i].access == own_or(old(fields[i].access), access)
            assert fields[i].write_constraint is own_or(old(fields[i].write_constraint), write_constraint)
        assert forall("IField", lambda f: f.access == old(f.access) or old(f.access) is None and f.access == access)
        assert forall("IField", lambda f: f.write_constraint is old(f.write_constraint) or old(f.write_constraint) is None and f.write_constraint is write_constraint)
        assert forall("IField", lambda f: any(fields[i] is f for i in range(done)) or f.access == old(f.access) and f.write_constraint is old(f.write_constraint))


@ghost
def under(x: IRegister | ICluster, e: IRegister | ICluster) -> bool:
    """x is e or lies somewhere below e"""
    ...


@ghost
def owner(f: IField) -> IRegister:
    """the register f belongs to"""
    ...


def is_tree():
    """no element is in two places: what is assumed of the resolved model"""
    return (
        forall("IRegister | ICluster", lambda x: under(x, x))
        and forall("IRegister | ICluster", lambda x: forall("IRegister | ICluster", lambda y: forall("IRegister | ICluster", lambda z: implies(under(x, y) and under(y, z), under(x, z)))))
        and forall("IRegister | ICluster", lambda x: forall("IRegister | ICluster", lambda y: implies(under(x, y) and under(y, x), x is y)))
        and forall("ICluster", lambda c: all(under(d, c) and not under(c, d) for d in c.registers_clusters))
        and forall("ICluster", lambda c: forall("IRegister | ICluster", lambda x: implies(under(x, c) and x is not c, any(under(x, d) for d in c.registers_clusters))))
        and forall("IRegister", lambda r: forall("IRegister | ICluster", lambda x: implies(under(x, r), x is r)))
        and forall("ICluster", lambda c: apart(c.registers_clusters))
        and forall("IRegister", lambda r: all(owner(f) is r for f in r.fields))
    )


def apart(elements):
    """nothing lies below two of the elements"""
    return forall("IRegister | ICluster", lambda x: forall_int(lambda i, j: implies(0 <= i and i < j and j < len(elements), not (under(x, elements[i]) and under(x, elements[j])))))


def has(x, size, access, protection, reset_value, reset_mask):
    return (
        x.size == own_or(old(x.size), size)
        and x.access == own_or(old(x.access), access)
        and x.protection == own_or(old(x.protection), protection)
        and x.reset_value == own_or(old(x.reset_value), reset_value)
        and x.reset_mask == own_or(old(x.reset_mask), reset_mask)
    )


def passed_on(c):
    """the children of c have what they state themselves, else what c has"""
    return all(has(d, c.size, c.access, c.protection, c.reset_value, c.reset_mask) for d in c.registers_clusters)


def fields_have(r):
    return all(f.access == own_or(old(f.access), r.access) and f.write_constraint is own_or(old(f.write_constraint), r.write_constraint) for f in r.fields)


def unchanged(x):
    return x.size == old(x.size) and x.access == old(x.access) and x.protection == old(x.protection) and x.reset_value == old(x.reset_value) and x.reset_mask == old(x.reset_mask)


class inherit_rc:
    target = "svdsuite.process:_InheritProperties._inherit_properties_registers_clusters"
    args = ["self", "registers_clusters", "size", "access", "protection", "reset_value", "reset_mask"]
    warns = "none"
    modifies = ["IField.access", "IField.write_constraint", "IRegister.size", "IRegister.access", "IRegister.protection", "IRegister.reset_value", "IRegister.reset_mask",
                "ICluster.size", "ICluster.access", "ICluster.protection", "ICluster.reset_value", "ICluster.reset_mask"]

    def requires(registers_clusters):
        assert is_tree()
        assert apart(registers_clusters)

    def C03_direct(registers_clusters, size, access, protection, reset_value, reset_mask, result):
        assert all(has(x, size, access, protection, reset_value, reset_mask) for x in registers_clusters)

    def C03_nested(registers_clusters, size, access, protection, reset_value, reset_mask, result):
        assert forall("ICluster", lambda c: implies(any(under(c, x) for x in registers_clusters), passed_on(c)))

    def C03_fields(registers_clusters, size, access, protection, reset_value, reset_mask, result):
        assert forall("IRegister", lambda r: implies(any(under(r, x) for x in registers_clusters), fields_have(r)))

    def ensures_frame(registers_clusters, size, access, protection, reset_value, reset_mask, result):
        assert forall("IRegister | ICluster", lambda y: any(under(y, x) for x in registers_clusters) or unchanged(y))
        assert forall("IField", lambda f: any(under(owner(f), x) for x in registers_clusters) or f.access == old(f.access) and f.write_constraint is old(f.write_constraint))

    def invariant_1(registers_clusters, size, access, protection, reset_value, reset_mask, done):
        assert all(has(registers_clusters[i], size, access, protection, reset_value, reset_mask) for i in range(done))
        assert forall("ICluster", lambda c: implies(any(under(c, registers_clusters[i]) for i in range(done)), passed_on(c)))
        assert forall("IRegister", lambda r: implies(any(under(r, registers_clusters[i]) for i in range(done)), fields_have(r)))
        assert forall("IRegister | ICluster", lambda y: any(under(y, registers_clusters[i]) for i in range(done)) or unchanged(y))
        assert forall("IField", lambda f: any(under(owner(f), registers_clusters[i]) for i in range(done)) or f.access == old(f.access) and f.write_constraint is old(f.write_constraint))


@ghost
def home(x: IRegister | ICluster) -> IPeripheral:
    """the peripheral x belongs to"""
    ...


def inside(p, x):
    """x belongs to the peripheral p"""
    return any(under(x, d) for d in p.registers_clusters)


def is_forest():
    """what is assumed of the resolved model: nothing is in two places"""
    return (
        is_tree()
        and forall("IPeripheral", lambda p: apart(p.registers_clusters))
        and forall("IPeripheral", lambda p: forall("IRegister | ICluster", lambda x: implies(inside(p, x), home(x) is p)))
    )


def stated_or_device(p, device):
    return has(p, device.size, device.access, device.protection, device.reset_value, device.reset_mask)


class inherit_device:
    target = "svdsuite.process:_InheritProperties.inherit_properties"
    args = ["self", "device"]
    returns = "None"
    warns = "none"
    modifies = ["IField.access", "IField.write_constraint", "IRegister.size", "IRegister.access", "IRegister.protection", "IRegister.reset_value", "IRegister.reset_mask",
                "ICluster.size", "ICluster.access", "ICluster.protection", "ICluster.reset_value", "ICluster.reset_mask",
                "IPeripheral.size", "IPeripheral.access", "IPeripheral.protection", "IPeripheral.reset_value", "IPeripheral.reset_mask"]

    def requires(device):
        assert is_forest()
        assert distinct(device.peripherals)

    def C03_peripherals(device, result):
        assert all(stated_or_device(p, device) for p in device.peripherals)

    def C03_direct(device, result):
        assert all(passed_on(p) for p in device.peripherals)

    def C03_nested(device, result):
        assert forall("ICluster", lambda c: implies(any(inside(p, c) for p in device.peripherals), passed_on(c)))

    def C03_fields(device, result):
        assert forall("IRegister", lambda r: implies(any(inside(p, r) for p in device.peripherals), fields_have(r)))

    def ensures_frame(device, result):
        assert forall("IPeripheral", lambda p: any(q is p for q in device.peripherals) or unchanged(p))
        assert forall("IRegister | ICluster", lambda y: any(inside(p, y) for p in device.peripherals) or unchanged(y))

    def invariant_1(device, done):
        assert all(stated_or_device(device.peripherals[i], device) for i in range(done))
        assert all(passed_on(device.peripherals[i]) for i in range(done))
        assert forall("ICluster", lambda c: implies(any(inside(device.peripherals[i], c) for i in range(done)), passed_on(c)))
        assert forall("IRegister", lambda r: implies(any(inside(device.peripherals[i], r) for i in range(done)), fields_have(r)))
        assert forall("IPeripheral", lambda p: any(device.peripherals[i] is p for i in range(done)) or unchanged(p))
        assert forall("IRegister | ICluster", lambda y: any(inside(device.peripherals[i], y) for i in range(done)) or unchanged(y))
        assert forall("IField", lambda f: any(inside(device.peripherals[i], owner(f)) for i in range(done)) or f.access == old(f.access) and f.write_constraint is old(f.write_constraint))



class resolve:
    target = "svdsuite.resolve.resolver:Resolver.resolve_peripherals"
    args = ["self", "parsed_device"]
    trusted = "assumed: graph of the resolver; the returned elements form a forest of new objects"
    may_raise = ["EnumeratedValueContainerException", "LoopException", "CycleException", "UnprocessedNodesException", "ResolveException", "ResolverGraphException", "ProcessException"]

    def ensures_forest(parsed_device, result):
        assert is_forest()
        assert distinct(result)


def given(x, default):
    return default if x is None else x


class device:
    target = "svdsuite.process:Process._process_device"
    args = ["self", "parsed_device"]
    self_attrs = {"_resolver": "Resolver"}
    modifies = ["IField.access", "IField.write_constraint", "IRegister.size", "IRegister.access", "IRegister.protection", "IRegister.reset_value", "IRegister.reset_mask",
                "ICluster.size", "ICluster.access", "ICluster.protection", "ICluster.reset_value", "ICluster.reset_mask",
                "IPeripheral.size", "IPeripheral.access", "IPeripheral.protection", "IPeripheral.reset_value", "IPeripheral.reset_mask"]
    may_raise = ["ProcessException", "ValueError"]

    def C03_defaults(parsed_device, result):
        assert result.size == given(parsed_device.size, 32)
        assert result.access == given(parsed_device.access, AccessType.READ_WRITE)
        assert result.protection == given(parsed_device.protection, ProtectionStringType.ANY)
        assert result.reset_value == given(parsed_device.reset_value, 0)
        assert result.reset_mask == given(parsed_device.reset_mask, 4294967295)

    def C27_metadata(parsed_device, result):
        p = parsed_device
        assert result.vendor == p.vendor and result.vendor_id == p.vendor_id and result.name == p.name
        assert result.series == p.series and result.version == p.version and result.description == p.description
        assert result.license_text == p.license_text
        assert result.header_system_filename == p.header_system_filename and result.header_definitions_prefix == p.header_definitions_prefix
        assert result.address_unit_bits == p.address_unit_bits and result.width == p.width
        assert (result.cpu is None) == (p.cpu is None)
        assert result.parsed is p

    def C12_unique(parsed_device, result):
        assert distinct(result.peripherals, lambda p: p.name)

    def C01_C24_placed(parsed_device, result):
        assert all(all(placed(r, p.base_address) for r in p.registers_clusters) for p in result.peripherals)
        assert all(len(p.address_blocks) > 0 for p in result.peripherals)

    def C17_order(parsed_device, result):
        for j in range(len(result.peripherals)):
            for i in range(j):
                assert result.peripherals[i].base_address <= result.peripherals[j].base_address
