"""Contracts of the peripheral/register map (map.py)."""
from svdsuite.model.types import *
from svdsuite.model.process import *
from svdsuite.model.map import *


@ghost
def inside(x: Register, e: Register | Cluster) -> bool:
    """x is e or lies somewhere below e"""
    return e is x if isinstance(e, Register) else any(inside(x, c) for c in e.registers_clusters)


@ghost
def placed(e: Register | Cluster, container: int) -> bool:
    """e and everything in it have the absolute address that follows from the offsets (C01)"""
    return e.base_address == container + e.address_offset and (isinstance(e, Register) or all(placed(c, e.base_address) for c in e.registers_clusters))


@ghost
def before(x: Register, y: Register, e: Register | Cluster) -> bool:
    """x comes before y in the tree of e"""
    if isinstance(e, Register):
        return False
    return before_in(x, y, e.registers_clusters)


def before_in(x, y, l):
    return any(before(x, y, c) for c in l) or any(inside(y, l[j]) and any(inside(x, l[i]) for i in range(j)) for j in range(len(l)))


def mirrors(m, r):
    return (
        m.processed is r and m.address == r.base_address and m.name == r.name and m.display_name == r.display_name and m.description == r.description
        and m.size == r.size and m.access == r.access and m.protection == r.protection and m.reset_value == r.reset_value and m.reset_mask == r.reset_mask
        and len(m.fields) == len(r.fields) and all(m.fields[i] is r.fields[i] for i in range(len(r.fields)))
    )


class map_register:
    target = "svdsuite.map:PeripheralRegisterMap._build_map_register"
    args = ["self", "container_address", "register"]
    warns = "none"

    def requires(container_address, register):
        assert placed(register, container_address)

    def C24_register(container_address, register, result):
        assert mirrors(result, register)


class map_cluster:
    target = "svdsuite.map:PeripheralRegisterMap._build_map_cluster"
    args = ["self", "container_address", "cluster"]
    warns = "none"

    def requires(container_address, cluster):
        assert placed(cluster, container_address)

    def C24_registers(container_address, cluster, result):
        for m in result:
            assert mirrors(m, m.processed) and any(inside(m.processed, c) for c in cluster.registers_clusters)

    def C24_all(container_address, cluster, result):
        for c in cluster.registers_clusters:
            if isinstance(c, Register):
                assert any(m.processed is c for m in result)
        for c in cluster.registers_clusters:
            if isinstance(c, Cluster):
                assert forall("Register", lambda x: implies(any(inside(x, d) for d in c.registers_clusters), any(m.processed is x for m in result)))
        assert forall("Register", lambda x: implies(any(inside(x, c) for c in cluster.registers_clusters), any(m.processed is x for m in result)))

    def C24_order(container_address, cluster, result):
        for j in range(len(result)):
            for i in range(j):
                assert before_in(result[i].processed, result[j].processed, cluster.registers_clusters)


class allocated_range:
    target = "svdsuite.map:PeripheralRegisterMap._get_allocated_range"
    args = ["self", "start_address", "address_blocks"]
    warns = "none"

    def raises_ValueError(address_blocks):
        return len(address_blocks) == 0

    def C24_range(start_address, address_blocks, result):
        assert all(result[0] <= start_address + b.offset for b in address_blocks)
        assert any(result[0] == start_address + b.offset for b in address_blocks)
        assert all(start_address + b.offset + b.size - 1 <= result[1] for b in address_blocks)
        assert any(start_address + b.offset + b.size - 1 == result[1] for b in address_blocks)


class map_peripheral:
    target = "svdsuite.map:PeripheralRegisterMap._build_map_peripheral"
    args = ["self", "peripheral"]
    warns = "none"

    def requires(peripheral):
        assert all(placed(c, peripheral.base_address) for c in peripheral.registers_clusters)

    def raises_ValueError(peripheral):
        return len(peripheral.address_blocks) == 0

    def C24_peripheral(peripheral, result):
        assert result.name == peripheral.name and result.description == peripheral.description
        assert result.address == peripheral.base_address and result.processed is peripheral

    def C24_range(peripheral, result):
        assert all(result.allocated_range[0] <= peripheral.base_address + b.offset for b in peripheral.address_blocks)
        assert any(result.allocated_range[0] == peripheral.base_address + b.offset for b in peripheral.address_blocks)
        assert all(peripheral.base_address + b.offset + b.size - 1 <= result.allocated_range[1] for b in peripheral.address_blocks)
        assert any(peripheral.base_address + b.offset + b.size - 1 == result.allocated_range[1] for b in peripheral.address_blocks)

    def C24_registers(peripheral, result):
        for m in result.registers:
            assert mirrors(m, m.processed) and any(inside(m.processed, c) for c in peripheral.registers_clusters)

    def C24_all(peripheral, result):
        assert forall("Register", lambda x: implies(any(inside(x, c) for c in peripheral.registers_clusters), any(m.processed is x for m in result.registers)))

    def C24_order(peripheral, result):
        for j in range(len(result.registers)):
            for i in range(j):
                assert before_in(result.registers[i].processed, result.registers[j].processed, peripheral.registers_clusters)


class map_device:
    target = "svdsuite.map:PeripheralRegisterMap._build_map"
    args = ["self", "processed_device"]
    warns = "none"

    def requires(processed_device):
        assert all(all(placed(c, p.base_address) for c in p.registers_clusters) for p in processed_device.peripherals)

    def raises_ValueError(processed_device):
        return any(len(p.address_blocks) == 0 for p in processed_device.peripherals)

    def C24_one_each(processed_device, result):
        assert len(result) == len(processed_device.peripherals)
        assert all(any(m.processed is p for m in result) for p in processed_device.peripherals)
        assert all(any(m.processed is p for p in processed_device.peripherals) for m in result)

    def C24_entries(processed_device, result):
        for m in result:
            assert m.name == m.processed.name and m.address == m.processed.base_address and m.description == m.processed.description

    def C24_sorted(processed_device, result):
        for j in range(len(result)):
            for i in range(j):
                assert result[i].address <= result[j].address

    def C24_registers(processed_device, result):
        for p in result:
            for m in p.registers:
                assert mirrors(m, m.processed) and any(inside(m.processed, c) for c in p.processed.registers_clusters)

    def C24_all(processed_device, result):
        for p in result:
            assert forall("Register", lambda x: implies(any(inside(x, c) for c in p.processed.registers_clusters), any(m.processed is x for m in p.registers)))

    def C24_range(processed_device, result):
        for m in result:
            p = m.processed
            assert all(m.allocated_range[0] <= p.base_address + b.offset for b in p.address_blocks)
            assert any(m.allocated_range[0] == p.base_address + b.offset for b in p.address_blocks)
            assert all(p.base_address + b.offset + b.size - 1 <= m.allocated_range[1] for b in p.address_blocks)
            assert any(p.base_address + b.offset + b.size - 1 == m.allocated_range[1] for b in p.address_blocks)


def own_map(l):
    """the map of some processed device: entries mirror their peripheral, sorted by address"""
    return (
        all(m.name == m.processed.name and m.address == m.processed.base_address and m.description == m.processed.description for m in l)
        and all(all(l[i].address <= l[j].address for i in range(j)) for j in range(len(l)))
        and all(all(mirrors(r, r.processed) and any(inside(r.processed, c) for c in p.processed.registers_clusters) for r in p.registers) for p in l)
        and all(forall("Register", lambda x: implies(any(inside(x, c) for c in p.processed.registers_clusters), any(m.processed is x for m in p.registers))) for p in l)
    )
