"""Contracts of the finalisation of the processed model (process.py, _ValidateAndFinalize)."""
from svdsuite.model.types import *
from svdsuite.model.parse import *
from svdsuite.model.process import *
from contracts.c_map import placed


class to_byte:
    target = "svdsuite.process:_to_byte"
    args = ["value"]
    warns = "none"
    props = ["C02"]

    def raises_ProcessException(value):
        return value % 8 != 0

    def C02_bytes(value, result):
        assert result * 8 == value


class alignment:
    target = "svdsuite.process:_get_alignment"
    args = ["size_bytes"]
    warns = "none"
    props = ["C26"]

    def raises_ProcessException(size_bytes):
        return size_bytes not in (1, 2, 4, 8, 16)

    def C26_alignment(size_bytes, result):
        assert result == (size_bytes if size_bytes < 4 else 4)


class enum_values:
    target = "svdsuite.process:_ValidateAndFinalize._validate_and_finalize_enum_values"
    args = ["self", "i_enum_values", "lsb", "msb"]

    def raises_ProcessException(i_enum_values):
        return any(v.value is None for v in i_enum_values)

    def C13_range(i_enum_values, lsb, msb, result):
        assert all(0 <= r.value and r.value < 2 ** (msb - lsb + 1) for r in result)

    def C13_from(i_enum_values, lsb, msb, result):
        for r in result:
            assert any(r.name == v.name and r.value == v.value and r.description == v.description and r.parsed is v.parsed for v in i_enum_values)

    def C13_kept(i_enum_values, lsb, msb, result):
        for v in i_enum_values:
            if 0 <= v.value and v.value < 2 ** (msb - lsb + 1):
                assert any(r.name == v.name and r.value == v.value and r.description == v.description for r in result)

    def C13_order(i_enum_values, lsb, msb, result):
        if all(i_enum_values[i].value <= i_enum_values[j].value for j in range(len(i_enum_values)) for i in range(j)):
            assert all(result[i].value <= result[j].value for j in range(len(result)) for i in range(j))

    def C26_warned(i_enum_values, lsb, msb, result):
        assert iff(warned(), any(v.value < 0 or v.value >= 2 ** (msb - lsb + 1) for v in i_enum_values))


class enum_containers:
    target = "svdsuite.process:_ValidateAndFinalize._validate_and_finalize_enum_value_containers"
    args = ["self", "i_enum_containers", "lsb", "msb"]

    def raises_ProcessException(i_enum_containers):
        return any(any(v.value is None for v in c.enumerated_values) for c in i_enum_containers)

    def C16_all(i_enum_containers, lsb, msb, result):
        assert len(result) == len(i_enum_containers)
        for c in i_enum_containers:
            assert any(r.parsed is c.parsed and r.name == c.name and r.usage == c.usage and r.header_enum_name == c.header_enum_name for r in result)

    def C16_from(i_enum_containers, lsb, msb, result):
        for r in result:
            assert any(r.parsed is c.parsed and r.name == c.name and r.usage == c.usage and r.header_enum_name == c.header_enum_name for c in i_enum_containers)

    def C16_order(i_enum_containers, lsb, msb, result):
        for j in range(len(result)):
            for i in range(j):
                assert result[i].usage.value <= result[j].usage.value
                if result[i].usage.value == result[j].usage.value:
                    assert len(result[i].enumerated_values) <= len(result[j].enumerated_values)

    def C13_range(i_enum_containers, lsb, msb, result):
        for r in result:
            assert all(0 <= v.value and v.value < 2 ** (msb - lsb + 1) for v in r.enumerated_values)


def reads(f):
    return f.access != AccessType.WRITE_ONLY


def writes(f):
    return f.access != AccessType.READ_ONLY


def overlap(a, b):
    return a.lsb <= b.msb and b.lsb <= a.msb


def clash(a, b):
    """two fields that cannot be in the same register"""
    return not reserved_name(a) and not reserved_name(b) and (a.name == b.name or overlap(a, b) and (reads(a) and reads(b) or writes(a) and writes(b)))


def reserved_name(x):
    return x.name.lower() == "reserved"


def no_value(f):
    return not reserved_name(f) and any(any(v.value is None for v in c.enumerated_values) for c in f.enumerated_value_containers)


class fields:
    target = "svdsuite.process:_ValidateAndFinalize._validate_and_finalize_fields"
    args = ["self", "i_fields", "reg_size"]
    props = ["C11"]

    def only_raises_ProcessException(i_fields, reg_size):
        n = len(i_fields)
        return any(any(clash(i_fields[i], i_fields[j]) for i in range(j)) for j in range(n)) or any(no_value(f) for f in i_fields)

    def only_raises_ValueError(i_fields, reg_size):
        return any(not reserved_name(f) and f.access is None for f in i_fields)

    def C11_disjoint_reading(i_fields, reg_size, result):
        for j in range(len(result)):
            for i in range(j):
                if reads(result[i]) and reads(result[j]):
                    assert not overlap(result[i], result[j])

    def C11_disjoint_writing(i_fields, reg_size, result):
        for j in range(len(result)):
            for i in range(j):
                if writes(result[i]) and writes(result[j]):
                    assert not overlap(result[i], result[j])

    def C11_names(i_fields, reg_size, result):
        for j in range(len(result)):
            for i in range(j):
                assert result[i].name != result[j].name

    def C17_order(i_fields, reg_size, result):
        for j in range(len(result)):
            for i in range(j):
                assert result[i].lsb <= result[j].lsb

    def C10_from(i_fields, reg_size, result):
        for r in result:
            assert any(r.name == f.name and r.lsb == f.lsb and r.msb == f.msb and r.access == f.access and r.parsed is f.parsed for f in i_fields)

    def C26_kept(i_fields, reg_size, result):
        for f in i_fields:
            assert f.name.lower() == "reserved" or any(r.name == f.name and r.lsb == f.lsb and r.msb == f.msb and r.access == f.access for r in result)

    def C26_warned(i_fields, reg_size, result):
        if any(f.name.lower() == "reserved" for f in i_fields):
            assert warned()
        if any(r.msb >= reg_size for r in result):
            assert warned()


def is_register(x):
    return isinstance(x, Register)


def extent(x):
    """bytes a finalised register or cluster takes"""
    return x.size // 8 if isinstance(x, Register) else x.cluster_size


def is_reserved(x):
    return isinstance(x, IRegister) and x.name.lower() == "reserved"


def iscoped(x):
    """the name under which a register or cluster must be unique, before finalisation"""
    if isinstance(x, IRegister) and x.alternate_group:
        return f"{x.name}_{x.alternate_group}"
    return x.name


def ignored(x):
    return x.size is not None and x.size % 8 != 0 or is_reserved(x)


def same_scope(a, b):
    return not ignored(a) and not ignored(b) and iscoped(a) == iscoped(b)


def clashing(l):
    """two fields of a register that cannot be there together"""
    return any(any(clash(l[i], l[j]) for i in range(j)) for j in range(len(l)))


@ghost
def accepted(x: IRegister | ICluster) -> bool:
    """nothing in x is a reason to reject the description"""
    if x.size is None:
        return False
    if x.size % 8 == 0 and x.size not in (8, 16, 32, 64, 128):
        return False
    if isinstance(x, IRegister):
        return (x.alternate_register is None or x.alternate_group is None) and not clashing(x.fields) and not any(no_value(f) for f in x.fields)
    return all(accepted(c) for c in x.registers_clusters) and not any(any(same_scope(x.registers_clusters[i], x.registers_clusters[j]) for i in range(j)) for j in range(len(x.registers_clusters)))


@ghost
def complete(x: IRegister | ICluster) -> bool:
    """every inherited property of x and of everything in it is known"""
    if x.size is None or x.access is None or x.protection is None or x.reset_value is None or x.reset_mask is None:
        return False
    if isinstance(x, IRegister):
        return all(f.access is not None for f in x.fields)
    return all(complete(c) for c in x.registers_clusters)


class register_cluster:
    props = ["C07"]

    def only_raises_ProcessException(i_reg_cluster):
        return not accepted(i_reg_cluster)

    def only_raises_ValueError(i_reg_cluster):
        return not complete(i_reg_cluster)

    target = "svdsuite.process:_ValidateAndFinalize._validate_and_finalize_register_cluster"
    args = ["self", "i_reg_cluster", "parent_base"]

    def C26_dropped(i_reg_cluster, parent_base, result):
        assert implies(result is None, warned())

    def C26_kinds(i_reg_cluster, parent_base, result):
        if isinstance(i_reg_cluster, IRegister) and i_reg_cluster.size % 8 == 0 and i_reg_cluster.name.lower() != "reserved":
            assert result is not None
        if result is not None:
            assert isinstance(result, Register) == isinstance(i_reg_cluster, IRegister)

    def C26_reserved(i_reg_cluster, parent_base, result):
        if isinstance(i_reg_cluster, IRegister) and i_reg_cluster.name.lower() == "reserved":
            assert result is None

    def C01_address(i_reg_cluster, parent_base, result):
        if result is not None:
            assert result.base_address == parent_base + i_reg_cluster.address_offset
            assert result.address_offset == i_reg_cluster.address_offset

    def C01_C24_placed(i_reg_cluster, parent_base, result):
        assert implies(result is not None, placed(result, parent_base))

    def C01_children(i_reg_cluster, parent_base, result):
        if result is not None and isinstance(result, Cluster):
            assert all(c.base_address == result.base_address + c.address_offset for c in result.registers_clusters)

    def C02_cluster(i_reg_cluster, parent_base, result):
        if result is not None and isinstance(result, Cluster):
            assert len(result.registers_clusters) > 0
            assert all(c.base_address + extent(c) - 1 <= result.end_address for c in result.registers_clusters)
            assert any(c.base_address + extent(c) - 1 == result.end_address for c in result.registers_clusters)
            assert result.cluster_size == result.end_address - result.base_address + 1

    def C03_same(i_reg_cluster, parent_base, result):
        if result is not None:
            assert result.size == i_reg_cluster.size and result.access == i_reg_cluster.access and result.protection == i_reg_cluster.protection
            assert result.reset_value == i_reg_cluster.reset_value and result.reset_mask == i_reg_cluster.reset_mask

    def C04_whole_bytes(i_reg_cluster, parent_base, result):
        if result is not None:
            assert result.size in (8, 16, 32, 64, 128)

    def C05_name(i_reg_cluster, parent_base, result):
        if result is not None:
            assert result.name == i_reg_cluster.name and result.description == i_reg_cluster.description
            assert result.parsed is i_reg_cluster.parsed

    def C12_scope(i_reg_cluster, parent_base, result):
        if result is not None:
            assert not ignored(i_reg_cluster) and scoped(result) == iscoped(i_reg_cluster)

    def C05_attributes(i_reg_cluster, parent_base, result):
        if result is not None and isinstance(result, Register):
            assert result.display_name == i_reg_cluster.display_name and result.alternate_group == i_reg_cluster.alternate_group
            assert result.alternate_register == i_reg_cluster.alternate_register and result.data_type == i_reg_cluster.data_type
            assert result.modified_write_values == i_reg_cluster.modified_write_values and result.read_action == i_reg_cluster.read_action
            assert result.write_constraint is i_reg_cluster.write_constraint
        if result is not None and isinstance(result, Cluster):
            assert result.alternate_cluster == i_reg_cluster.alternate_cluster and result.header_struct_name == i_reg_cluster.header_struct_name

    def C11_fields(i_reg_cluster, parent_base, result):
        if result is not None and isinstance(result, Register):
            for j in range(len(result.fields)):
                for i in range(j):
                    assert result.fields[i].name != result.fields[j].name
                    assert not overlap(result.fields[i], result.fields[j]) or not (reads(result.fields[i]) and reads(result.fields[j]))
                    assert not overlap(result.fields[i], result.fields[j]) or not (writes(result.fields[i]) and writes(result.fields[j]))


def scoped(x):
    """the name under which a finalised register or cluster must be unique"""
    if isinstance(x, Register) and x.alternate_group:
        return f"{x.name}_{x.alternate_group}"
    return x.name


def group(x):
    return x.alternate_group if isinstance(x, Register) else None


class registers_clusters:
    target = "svdsuite.process:_ValidateAndFinalize._validate_and_finalize_registers_clusters"
    args = ["self", "i_registers_clusters", "parent_base"]
    props = ["C12"]

    def only_raises_ProcessException(i_registers_clusters):
        l = i_registers_clusters
        return any(any(same_scope(l[i], l[j]) for i in range(j)) for j in range(len(l))) or any(not accepted(x) for x in l)

    def only_raises_ValueError(i_registers_clusters):
        return any(not complete(x) for x in i_registers_clusters)

    def C12_unique(i_registers_clusters, parent_base, result):
        for j in range(len(result)):
            for i in range(j):
                assert scoped(result[i]) != scoped(result[j])

    def C17_order(i_registers_clusters, parent_base, result):
        for j in range(len(result)):
            for i in range(j):
                assert result[i].base_address <= result[j].base_address
                if result[i].base_address == result[j].base_address and group(result[i]) is None and group(result[j]) is None:
                    assert result[i].name <= result[j].name
                if result[i].base_address == result[j].base_address and group(result[j]) is None:
                    assert group(result[i]) is None
                if result[i].base_address == result[j].base_address and group(result[i]) is not None and group(result[j]) is not None:
                    assert group(result[i]) <= group(result[j])
                    if group(result[i]) == group(result[j]):
                        assert result[i].name <= result[j].name

    def C01_address(i_registers_clusters, parent_base, result):
        for r in result:
            assert r.base_address == parent_base + r.address_offset

    def C01_C24_placed(i_registers_clusters, parent_base, result):
        assert all(placed(r, parent_base) for r in result)

    def C01_from(i_registers_clusters, parent_base, result):
        for r in result:
            assert any(r.parsed is x.parsed and r.name == x.name and r.address_offset == x.address_offset and r.size == x.size for x in i_registers_clusters)

    def C26_kept(i_registers_clusters, parent_base, result):
        for x in i_registers_clusters:
            if isinstance(x, IRegister) and x.size % 8 == 0 and x.name.lower() != "reserved":
                assert any(r.parsed is x.parsed and r.name == x.name and r.address_offset == x.address_offset for r in result)

    def C01_extent(i_registers_clusters, parent_base, result):
        assert all(r.size % 8 == 0 for r in result)

    def C26_dropped(i_registers_clusters, parent_base, result):
        for x in i_registers_clusters:
            assert warned() or any(r.parsed is x.parsed and r.name == x.name and r.address_offset == x.address_offset for r in result)


@ghost
def linked(name: str) -> bool:
    """any predicate: what holds of every set of names closed under it holds of the least one"""
    ...


class allowed_registers:
    target = "svdsuite.process:_ValidateAndFinalize._compute_allowed_alternate_register_names"
    args = ["self", "register", "register_lookup"]
    warns = "none"

    def ensures_empty(register, register_lookup, result):
        assert implies(register.alternate_register is None, len(result) == 0)

    def C18_start(register, register_lookup, result):
        if register.alternate_register is not None:
            assert register.alternate_register in result

    def C18_closed(register, register_lookup, result):
        for n in register_lookup:
            a = register_lookup[n].alternate_register
            if a is not None:
                assert (n in result) == (a in result)

    def C18_least(register, register_lookup, result):
        if register.alternate_register is not None and linked(register.alternate_register) and all(register_lookup[n].alternate_register is None or linked(register_lookup[n].alternate_register) == linked(n) for n in register_lookup):
            assert forall("str", lambda c: implies(c in result, linked(c)))

    def invariant_1(register, register_lookup, allowed, stack):
        assert register.alternate_register is not None and (register.alternate_register in allowed or register.alternate_register in stack)
        for n in register_lookup:
            a = register_lookup[n].alternate_register
            if a is not None and a in allowed:
                assert n in allowed or n in stack
            if a is not None and n in allowed:
                assert a in allowed or a in stack
        if linked(register.alternate_register) and all(register_lookup[n].alternate_register is None or linked(register_lookup[n].alternate_register) == linked(n) for n in register_lookup):
            assert forall("str", lambda c: implies(c in allowed, linked(c)))
            assert all(linked(c) for c in stack)


class allowed_clusters:
    target = "svdsuite.process:_ValidateAndFinalize._compute_allowed_alternate_cluster_names"
    args = ["self", "cluster", "cluster_lookup"]
    warns = "none"

    def ensures_empty(cluster, cluster_lookup, result):
        assert implies(cluster.alternate_cluster is None, len(result) == 0)

    def C18_start(cluster, cluster_lookup, result):
        if cluster.alternate_cluster is not None:
            assert cluster.alternate_cluster in result

    def C18_closed(cluster, cluster_lookup, result):
        for n in cluster_lookup:
            a = cluster_lookup[n].alternate_cluster
            if a is not None:
                assert (n in result) == (a in result)

    def C18_least(cluster, cluster_lookup, result):
        if cluster.alternate_cluster is not None and linked(cluster.alternate_cluster) and all(cluster_lookup[n].alternate_cluster is None or linked(cluster_lookup[n].alternate_cluster) == linked(n) for n in cluster_lookup):
            assert forall("str", lambda c: implies(c in result, linked(c)))

    def invariant_1(cluster, cluster_lookup, allowed, stack):
        assert cluster.alternate_cluster is not None and (cluster.alternate_cluster in allowed or cluster.alternate_cluster in stack)
        for n in cluster_lookup:
            a = cluster_lookup[n].alternate_cluster
            if a is not None and a in allowed:
                assert n in allowed or n in stack
            if a is not None and n in allowed:
                assert a in allowed or a in stack
        if linked(cluster.alternate_cluster) and all(cluster_lookup[n].alternate_cluster is None or linked(cluster_lookup[n].alternate_cluster) == linked(n) for n in cluster_lookup):
            assert forall("str", lambda c: implies(c in allowed, linked(c)))
            assert all(linked(c) for c in stack)


class allowed_peripherals:
    target = "svdsuite.process:_ValidateAndFinalize._compute_allowed_alternate_peripheral_names"
    args = ["self", "periph", "peripheral_lookup"]
    warns = "none"

    def ensures_empty(periph, peripheral_lookup, result):
        assert implies(periph.alternate_peripheral is None, len(result) == 0)

    def C18_start(periph, peripheral_lookup, result):
        if periph.alternate_peripheral is not None:
            assert periph.alternate_peripheral in result

    def C18_closed(periph, peripheral_lookup, result):
        for n in peripheral_lookup:
            a = peripheral_lookup[n].alternate_peripheral
            if a is not None:
                assert (n in result) == (a in result)

    def C18_least(periph, peripheral_lookup, result):
        if periph.alternate_peripheral is not None and linked(periph.alternate_peripheral) and all(peripheral_lookup[n].alternate_peripheral is None or linked(peripheral_lookup[n].alternate_peripheral) == linked(n) for n in peripheral_lookup):
            assert forall("str", lambda c: implies(c in result, linked(c)))

    def invariant_1(periph, peripheral_lookup, allowed, stack):
        assert periph.alternate_peripheral is not None and (periph.alternate_peripheral in allowed or periph.alternate_peripheral in stack)
        for n in peripheral_lookup:
            a = peripheral_lookup[n].alternate_peripheral
            if a is not None and a in allowed:
                assert n in allowed or n in stack
            if a is not None and n in allowed:
                assert a in allowed or a in stack
        if linked(periph.alternate_peripheral) and all(peripheral_lookup[n].alternate_peripheral is None or linked(peripheral_lookup[n].alternate_peripheral) == linked(n) for n in peripheral_lookup):
            assert forall("str", lambda c: implies(c in allowed, linked(c)))
            assert all(linked(c) for c in stack)


def end_of(x):
    return x.base_address + x.size // 8 - 1 if isinstance(x, Register) else x.end_address


def in_group(x):
    return isinstance(x, Register) and x.alternate_group is not None


def names_alternate(x):
    return x.alternate_register is not None if isinstance(x, Register) else x.alternate_cluster is not None


class overlaps:
    target = "svdsuite.process:_ValidateAndFinalize._check_registers_clusters_address_overlaps"
    args = ["self", "finalized_rc", "register_lookup", "cluster_lookup"]

    def requires(finalized_rc, register_lookup, cluster_lookup):
        assert all(x.size % 8 == 0 for x in finalized_rc)
        for x in finalized_rc:
            if not in_group(x) and isinstance(x, Register):
                assert x.name in register_lookup and register_lookup[x.name] is x
            if isinstance(x, Cluster):
                assert x.name in cluster_lookup and cluster_lookup[x.name] is x

    def C18_warned(finalized_rc, register_lookup, cluster_lookup, result):
        for j in range(len(finalized_rc)):
            for i in range(j):
                a = finalized_rc[i]
                b = finalized_rc[j]
                if not in_group(a) and not in_group(b) and b.base_address <= end_of(a):
                    if not names_alternate(a) and not names_alternate(b):
                        if isinstance(a, Register) == isinstance(b, Register):
                            assert warned()
                        if isinstance(b, Register) and a.name not in register_lookup:
                            assert warned()
                        if isinstance(b, Cluster) and a.name not in cluster_lookup:
                            assert warned()

    def C18_quiet(finalized_rc, register_lookup, cluster_lookup, result):
        if all(in_group(finalized_rc[i]) or in_group(finalized_rc[j]) or finalized_rc[j].base_address > end_of(finalized_rc[i]) for j in range(len(finalized_rc)) for i in range(j)):
            assert not warned()


@ghost
def inside(x: Register, e: Register | Cluster) -> bool:
    """x is e or lies somewhere below e"""
    return e is x if isinstance(e, Register) else any(inside(x, c) for c in e.registers_clusters)


class extract_registers:
    target = "svdsuite.process:_ValidateAndFinalize._extract_registers"
    args = ["self", "registers_clusters"]
    warns = "none"

    def C01_sound(registers_clusters, result):
        for r in result:
            assert any(inside(r, e) for e in registers_clusters)

    def C01_complete(registers_clusters, result):
        assert forall("Register", lambda x: implies(any(inside(x, e) for e in registers_clusters), any(r is x for r in result)))

    def C17_order(registers_clusters, result):
        for j in range(len(result)):
            for i in range(j):
                assert result[i].base_address <= result[j].base_address
                if result[i].base_address == result[j].base_address:
                    assert result[i].name <= result[j].name


class address_blocks:
    target = "svdsuite.process:_ValidateAndFinalize._validate_address_blocks"
    args = ["self", "i_peripheral"]

    def C18_blocks(i_peripheral, result):
        b = i_peripheral.address_blocks
        assert iff(warned(), any(b[i].offset < b[i - 1].offset + b[i - 1].size for i in range(1, len(b))))


class peripheral_overlaps:
    target = "svdsuite.process:_ValidateAndFinalize._check_peripheral_address_overlaps"
    args = ["self", "finalized_peripherals", "peripheral_lookup"]

    def requires(finalized_peripherals, peripheral_lookup):
        for x in finalized_peripherals:
            assert x.name in peripheral_lookup and peripheral_lookup[x.name] is x

    def C18_warned(finalized_peripherals, peripheral_lookup, result):
        for j in range(len(finalized_peripherals)):
            for i in range(j):
                a = finalized_peripherals[i]
                b = finalized_peripherals[j]
                if b.base_address <= a.end_address_effective or b.base_address <= a.end_address:
                    if a.alternate_peripheral is None and b.alternate_peripheral is None:
                        assert warned()

    def C18_quiet(finalized_peripherals, peripheral_lookup, result):
        if all(finalized_peripherals[j].base_address > finalized_peripherals[i].end_address_effective and finalized_peripherals[j].base_address > finalized_peripherals[i].end_address for j in range(len(finalized_peripherals)) for i in range(j)):
            assert not warned()


def unusable(p):
    return p.size is not None and p.size % 8 != 0


def fine(p):
    l = p.registers_clusters
    return not any(any(same_scope(l[i], l[j]) for i in range(j)) for j in range(len(l))) and all(accepted(x) for x in l)


def known(p):
    """every inherited property of the peripheral and of everything in it is known"""
    if p.size is None or p.access is None or p.protection is None or p.reset_value is None or p.reset_mask is None:
        return False
    return all(complete(x) for x in p.registers_clusters)


class peripheral:
    target = "svdsuite.process:_ValidateAndFinalize._validate_and_finalize_peripheral"
    args = ["self", "i_peripheral"]
    props = ["C12", "C07"]

    def only_raises_ProcessException(i_peripheral):
        return not fine(i_peripheral) or len(i_peripheral.address_blocks) == 0

    def only_raises_ValueError(i_peripheral):
        return not known(i_peripheral)

    def C26_dropped(i_peripheral, result):
        assert implies(result is None, warned())

    def C26_size(i_peripheral, result):
        if unusable(i_peripheral):
            assert result is None

    def C26_kept(i_peripheral, result):
        if not unusable(i_peripheral) and any(isinstance(x, IRegister) and x.size % 8 == 0 and x.name.lower() != "reserved" for x in i_peripheral.registers_clusters):
            assert result is not None

    def C01_address(i_peripheral, result):
        if result is not None:
            assert result.base_address == i_peripheral.base_address
            assert all(c.base_address == result.base_address + c.address_offset for c in result.registers_clusters)

    def C01_C24_placed(i_peripheral, result):
        if result is not None:
            assert all(placed(r, result.base_address) for r in result.registers_clusters)
            assert len(result.address_blocks) > 0

    def C01_flat(i_peripheral, result):
        if result is not None:
            for r in result.registers:
                assert any(inside(r, e) for e in result.registers_clusters)
            assert forall("Register", lambda x: implies(any(inside(x, e) for e in result.registers_clusters), any(r is x for r in result.registers)))

    def C01_flat_order(i_peripheral, result):
        if result is not None:
            for j in range(len(result.registers)):
                for i in range(j):
                    assert result.registers[i].base_address <= result.registers[j].base_address
                    if result.registers[i].base_address == result.registers[j].base_address:
                        assert result.registers[i].name <= result.registers[j].name

    def C02_effective(i_peripheral, result):
        if result is not None:
            assert all(c.base_address + extent(c) - 1 <= result.end_address_effective for c in result.registers_clusters)
            assert any(c.base_address + extent(c) - 1 == result.end_address_effective for c in result.registers_clusters)
            assert result.peripheral_size_effective == result.end_address_effective - result.base_address + 1

    def C02_specified(i_peripheral, result):
        if result is not None:
            assert all(result.base_address + b.offset + b.size - 1 <= result.end_address for b in i_peripheral.address_blocks)
            assert any(result.base_address + b.offset + b.size - 1 == result.end_address for b in i_peripheral.address_blocks)
            assert result.peripheral_size == sum(b.size for b in i_peripheral.address_blocks)

    def C03_same(i_peripheral, result):
        if result is not None:
            assert result.size == i_peripheral.size and result.access == i_peripheral.access and result.protection == i_peripheral.protection
            assert result.reset_value == i_peripheral.reset_value and result.reset_mask == i_peripheral.reset_mask

    def C05_name(i_peripheral, result):
        if result is not None:
            assert result.name == i_peripheral.name and result.description == i_peripheral.description
            assert result.parsed is i_peripheral.parsed

    def C12_unique(i_peripheral, result):
        if result is not None:
            for j in range(len(result.registers_clusters)):
                for i in range(j):
                    assert scoped(result.registers_clusters[i]) != scoped(result.registers_clusters[j])

    def C18_blocks(i_peripheral, result):
        b = i_peripheral.address_blocks
        if result is not None and any(b[i].offset < b[i - 1].offset + b[i - 1].size for i in range(1, len(b))):
            assert warned()


class peripherals:
    target = "svdsuite.process:_ValidateAndFinalize._validate_and_finalize_peripherals"
    args = ["self", "i_peripherals"]
    props = ["C12", "C07"]

    def only_raises_ProcessException(i_peripherals):
        l = i_peripherals
        return any(any(l[i].name == l[j].name for i in range(j)) for j in range(len(l))) or any(not fine(p) or len(p.address_blocks) == 0 for p in l)

    def only_raises_ValueError(i_peripherals):
        return any(not known(p) for p in i_peripherals)

    def C12_unique(i_peripherals, result):
        assert distinct(result, lambda p: p.name)

    def C01_C24_placed(i_peripherals, result):
        assert all(all(placed(r, p.base_address) for r in p.registers_clusters) for p in result)
        assert all(len(p.address_blocks) > 0 for p in result)

    def C17_order(i_peripherals, result):
        for j in range(len(result)):
            for i in range(j):
                assert result[i].base_address <= result[j].base_address
                if result[i].base_address == result[j].base_address:
                    assert result[i].name <= result[j].name

    def C26_from(i_peripherals, result):
        for r in result:
            assert any(r.parsed is p.parsed and r.name == p.name and r.base_address == p.base_address for p in i_peripherals)

    def C26_kept(i_peripherals, result):
        for p in i_peripherals:
            assert warned() or any(r.parsed is p.parsed and r.name == p.name and r.base_address == p.base_address for r in result)
            if not unusable(p) and any(isinstance(x, IRegister) and x.size % 8 == 0 and x.name.lower() != "reserved" for x in p.registers_clusters):
                assert any(r.parsed is p.parsed and r.name == p.name and r.base_address == p.base_address for r in result)

    def C18_warned(i_peripherals, result):
        for j in range(len(result)):
            for i in range(j):
                a = result[i]
                b = result[j]
                if b.base_address <= a.end_address_effective or b.base_address <= a.end_address:
                    if a.alternate_peripheral is None and b.alternate_peripheral is None:
                        assert warned()


class finalize:
    target = "svdsuite.process:_ValidateAndFinalize.validate_and_finalize"
    args = ["self", "i_device"]
    props = ["C12", "C07"]

    def only_raises_ProcessException(i_device):
        l = i_device.peripherals
        return any(any(l[i].name == l[j].name for i in range(j)) for j in range(len(l))) or any(not fine(p) or len(p.address_blocks) == 0 for p in l)

    def only_raises_ValueError(i_device):
        return i_device.size is None or any(not known(p) for p in i_device.peripherals)

    def C27_metadata(i_device, result):
        assert result.vendor == i_device.vendor and result.vendor_id == i_device.vendor_id and result.name == i_device.name
        assert result.series == i_device.series and result.version == i_device.version and result.description == i_device.description
        assert result.license_text == i_device.license_text and result.cpu is i_device.cpu
        assert result.address_unit_bits == i_device.address_unit_bits and result.width == i_device.width
        assert result.header_system_filename == i_device.header_system_filename
        assert result.header_definitions_prefix == i_device.header_definitions_prefix
        assert result.parsed is i_device.parsed

    def C12_unique(i_device, result):
        assert distinct(result.peripherals, lambda p: p.name)

    def C01_C24_placed(i_device, result):
        assert all(all(placed(r, p.base_address) for r in p.registers_clusters) for p in result.peripherals)
        assert all(len(p.address_blocks) > 0 for p in result.peripherals)

    def C17_order(i_device, result):
        for j in range(len(result.peripherals)):
            for i in range(j):
                assert result.peripherals[i].base_address <= result.peripherals[j].base_address

    def C26_kept(i_device, result):
        for p in i_device.peripherals:
            assert warned() or any(r.parsed is p.parsed and r.name == p.name and r.base_address == p.base_address for r in result.peripherals)

    def C03_same(i_device, result):
        assert result.size == i_device.size and result.access == i_device.access and result.protection == i_device.protection
        assert result.reset_value == i_device.reset_value and result.reset_mask == i_device.reset_mask
