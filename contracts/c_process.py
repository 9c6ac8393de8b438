"""Contracts of class Process (process.py): attribute derivation, bit positions, device metadata."""
import re
from svdsuite.model.types import *
from svdsuite.model.parse import *
from svdsuite.model.process import *


class process_cpu:
    target = "svdsuite.process:Process._process_cpu"
    args = ["self", "parsed_cpu"]
    warns = "none"

    def C27_cpu(parsed_cpu, result):
        assert (result is None) == (parsed_cpu is None)
        if result is not None:
            assert result.name == (CPUNameType.CM0PLUS if parsed_cpu.name == CPUNameType.CM0_PLUS else parsed_cpu.name)
            assert result.revision == parsed_cpu.revision
            assert result.endian == parsed_cpu.endian
            assert result.mpu_present == (parsed_cpu.mpu_present is True)
            assert result.fpu_present == (parsed_cpu.fpu_present is True)
            assert result.fpu_dp == (parsed_cpu.fpu_dp is True)
            assert result.dsp_present == (parsed_cpu.dsp_present is True)
            assert result.icache_present == (parsed_cpu.icache_present is True)
            assert result.dcache_present == (parsed_cpu.dcache_present is True)
            assert result.itcm_present == (parsed_cpu.itcm_present is True)
            assert result.dtcm_present == (parsed_cpu.dtcm_present is True)
            assert result.vtor_present == (parsed_cpu.vtor_present is not False)
            assert result.nvic_prio_bits == parsed_cpu.nvic_prio_bits
            assert result.vendor_systick_config == parsed_cpu.vendor_systick_config
            assert result.device_num_interrupts == parsed_cpu.device_num_interrupts
            assert result.sau_num_regions == parsed_cpu.sau_num_regions
            assert (result.sau_regions_config is None) == (parsed_cpu.sau_regions_config is None)
            if result.sau_regions_config is not None:
                assert result.sau_regions_config.parsed is parsed_cpu.sau_regions_config

    def C23_cpu_parsed(parsed_cpu, result):
        if result is not None:
            assert result.parsed is parsed_cpu


class process_sau_config:
    target = "svdsuite.process:Process._process_sau_regions_config"
    args = ["self", "parsed_sau_regions_config"]
    warns = "none"

    def C23_parsed(parsed_sau_regions_config, result):
        assert result is None or result.parsed is parsed_sau_regions_config

    def C27_sau(parsed_sau_regions_config, result):
        assert (result is None) == (parsed_sau_regions_config is None)
        if result is not None:
            p = parsed_sau_regions_config
            assert result.parsed is p
            assert result.enabled == (p.enabled is not False)
            assert result.protection_when_disabled == (p.protection_when_disabled if p.protection_when_disabled is not None else ProtectionStringType.SECURE)
            assert len(result.regions) == len(p.regions)
            assert all(result.regions[i].parsed is p.regions[i] for i in range(len(p.regions)))


class process_sau_regions:
    target = "svdsuite.process:Process._process_sau_regions"
    args = ["self", "parsed_sau_regions"]
    warns = "none"

    def C23_parsed(parsed_sau_regions, result):
        assert all(any(b.parsed is p for p in parsed_sau_regions) for b in result)

    def C27_regions(parsed_sau_regions, result):
        assert len(result) == len(parsed_sau_regions)
        for i in range(len(parsed_sau_regions)):
            r = result[i]
            p = parsed_sau_regions[i]
            assert r.parsed is p
            assert r.enabled == (p.enabled is not False)
            assert r.name == p.name
            assert r.base == p.base
            assert r.limit == p.limit
            assert r.access == p.access


class process_address_blocks:
    target = "svdsuite.process:Process._process_address_blocks"
    args = ["self", "parsed_address_blocks"]
    warns = "none"

    def C23_parsed(parsed_address_blocks, result):
        assert all(any(b.parsed is p for p in parsed_address_blocks) for b in result)

    def C05_blocks(parsed_address_blocks, result):
        assert len(result) == len(parsed_address_blocks)
        assert all(any(b.parsed is p for b in result) for p in parsed_address_blocks)
        assert all(any(b.parsed is p for p in parsed_address_blocks) for b in result)
        for b in result:
            assert b.offset == b.parsed.offset
            assert b.size == b.parsed.size
            assert b.usage == b.parsed.usage
        for i in range(1, len(result)):
            assert result[i - 1].offset <= result[i].offset

    def C27_block_protection(parsed_address_blocks, result):
        for b in result:
            assert b.protection == (b.parsed.protection if b.parsed.protection is not None else ProtectionStringType.ANY)


class process_interrupts:
    target = "svdsuite.process:Process._process_interrupts"
    args = ["self", "parsed_interrupts"]
    warns = "none"

    def C23_parsed(parsed_interrupts, result):
        assert all(any(b.parsed is p for p in parsed_interrupts) for b in result)

    def C27_interrupts(parsed_interrupts, result):
        assert len(result) == len(parsed_interrupts)
        assert all(any(b.parsed is p for b in result) for p in parsed_interrupts)
        assert all(any(b.parsed is p for p in parsed_interrupts) for b in result)
        for b in result:
            assert b.name == b.parsed.name
            assert b.description == b.parsed.description
            assert b.value == b.parsed.value
        for i in range(1, len(result)):
            assert result[i - 1].value <= result[i].value


class process_write_constraint:
    target = "svdsuite.process:Process._process_write_constraint"
    args = ["self", "parsed_write_constraint"]
    warns = "none"

    def C23_parsed(parsed_write_constraint, result):
        assert result is None or result.parsed is parsed_write_constraint

    def C05_write_constraint(parsed_write_constraint, result):
        assert (result is None) == (parsed_write_constraint is None)
        if result is not None:
            assert result.parsed is parsed_write_constraint
            assert result.write_as_read == parsed_write_constraint.write_as_read
            assert result.use_enumerated_values == parsed_write_constraint.use_enumerated_values
            assert result.range_ == parsed_write_constraint.range_


def group_props(parsed, base, result):
    assert result.dim == (parsed.dim if parsed.dim is not None else base.dim if base is not None else None)
    assert result.dim_index == (parsed.dim_index if parsed.dim_index is not None else base.dim_index if base is not None else None)
    assert result.dim_increment == (parsed.dim_increment if parsed.dim_increment is not None else base.dim_increment if base is not None else None)


def register_props(parsed, base, result):
    assert result.size == (parsed.size if parsed.size is not None else base.size if base is not None else None)
    assert result.access == (parsed.access if parsed.access is not None else base.access if base is not None else None)
    assert result.protection == (parsed.protection if parsed.protection is not None else base.protection if base is not None else None)
    assert result.reset_value == (parsed.reset_value if parsed.reset_value is not None else base.reset_value if base is not None else None)
    assert result.reset_mask == (parsed.reset_mask if parsed.reset_mask is not None else base.reset_mask if base is not None else None)
    assert result.description == (parsed.description if parsed.description is not None else base.description if base is not None else None)


class process_peripheral:
    target = "svdsuite.process:Process._process_peripheral"
    args = ["self", "index", "name", "parsed", "base"]
    warns = "none"

    def C05_own_or_base(index, name, parsed, base, result):
        group_props(parsed, base, result)
        register_props(parsed, base, result)
        assert result.name == name
        assert result.version == (parsed.version if parsed.version is not None else base.version if base is not None else None)
        assert result.alternate_peripheral == (parsed.alternate_peripheral if parsed.alternate_peripheral is not None else base.alternate_peripheral if base is not None else None)
        assert result.group_name == (parsed.group_name if parsed.group_name is not None else base.group_name if base is not None else None)
        assert result.prepend_to_name == (parsed.prepend_to_name if parsed.prepend_to_name is not None else base.prepend_to_name if base is not None else None)
        assert result.append_to_name == (parsed.append_to_name if parsed.append_to_name is not None else base.append_to_name if base is not None else None)
        assert result.disable_condition == (parsed.disable_condition if parsed.disable_condition is not None else base.disable_condition if base is not None else None)

    def C05_never_inherited(index, name, parsed, base, result):
        assert result.header_struct_name == parsed.header_struct_name
        assert len(result.interrupts) == len(parsed.interrupts)
        assert all(any(b.parsed is p for b in result.interrupts) for p in parsed.interrupts)
        assert all(any(b.parsed is p for p in parsed.interrupts) for b in result.interrupts)

    def C05_address_blocks(index, name, parsed, base, result):
        if len(parsed.address_blocks) > 0:
            assert len(result.address_blocks) == len(parsed.address_blocks)
            assert all(any(b.parsed is p for b in result.address_blocks) for p in parsed.address_blocks)
            assert all(any(b.parsed is p for p in parsed.address_blocks) for b in result.address_blocks)
            for i in range(1, len(result.address_blocks)):
                assert result.address_blocks[i - 1].offset <= result.address_blocks[i].offset
        elif base is not None:
            assert result.address_blocks == base.address_blocks
        else:
            assert len(result.address_blocks) == 0

    def C08_address(index, name, parsed, base, result):
        if result.dim_increment is None:
            assert result.base_address == parsed.base_address
        else:
            assert result.base_address == parsed.base_address + result.dim_increment * index

    def C23_parsed(index, name, parsed, base, result):
        assert result.parsed is parsed

    def C06_no_children_yet(index, name, parsed, base, result):
        assert len(result.registers_clusters) == 0


class process_cluster:
    target = "svdsuite.process:Process._process_cluster"
    args = ["self", "index", "name", "parsed", "base"]
    warns = "none"

    def C05_own_or_base(index, name, parsed, base, result):
        group_props(parsed, base, result)
        register_props(parsed, base, result)
        assert result.name == name
        assert result.alternate_cluster == (parsed.alternate_cluster if parsed.alternate_cluster is not None else base.alternate_cluster if base is not None else None)
        assert result.header_struct_name == (parsed.header_struct_name if parsed.header_struct_name is not None else base.header_struct_name if base is not None else None)

    def C08_address(index, name, parsed, base, result):
        if result.dim_increment is None:
            assert result.address_offset == parsed.address_offset
        else:
            assert result.address_offset == parsed.address_offset + result.dim_increment * index

    def C23_parsed(index, name, parsed, base, result):
        assert result.parsed is parsed

    def C06_no_children_yet(index, name, parsed, base, result):
        assert len(result.registers_clusters) == 0


class process_register:
    target = "svdsuite.process:Process._process_register"
    args = ["self", "index", "name", "display_name", "parsed", "base"]
    warns = "none"

    def C05_own_or_base(index, name, display_name, parsed, base, result):
        group_props(parsed, base, result)
        register_props(parsed, base, result)
        assert result.name == name
        assert result.alternate_group == (parsed.alternate_group if parsed.alternate_group is not None else base.alternate_group if base is not None else None)
        assert result.alternate_register == (parsed.alternate_register if parsed.alternate_register is not None else base.alternate_register if base is not None else None)
        assert result.data_type == (parsed.data_type if parsed.data_type is not None else base.data_type if base is not None else None)
        assert result.modified_write_values == (parsed.modified_write_values if parsed.modified_write_values is not None else base.modified_write_values if base is not None else ModifiedWriteValuesType.MODIFY)
        assert result.read_action == (parsed.read_action if parsed.read_action is not None else base.read_action if base is not None else None)
        if parsed.write_constraint is not None:
            assert result.write_constraint is not None and result.write_constraint.parsed is parsed.write_constraint
            assert result.write_constraint.write_as_read == parsed.write_constraint.write_as_read
            assert result.write_constraint.use_enumerated_values == parsed.write_constraint.use_enumerated_values
            assert result.write_constraint.range_ == parsed.write_constraint.range_
        elif base is not None:
            assert result.write_constraint is base.write_constraint
        else:
            assert result.write_constraint is None

    def C08_display_name(index, name, display_name, parsed, base, result):
        if display_name is None:
            assert result.display_name is None
        elif "[%s]" not in display_name:
            assert result.display_name == display_name
        else:
            assert result.display_name == display_name.replace("[%s]", str(index))

    def C08_address(index, name, display_name, parsed, base, result):
        if result.dim_increment is None:
            assert result.address_offset == parsed.address_offset
        else:
            assert result.address_offset == parsed.address_offset + result.dim_increment * index

    def C23_parsed(index, name, display_name, parsed, base, result):
        assert result.parsed is parsed

    def C06_no_children_yet(index, name, display_name, parsed, base, result):
        assert len(result.fields) == 0


class process_field:
    target = "svdsuite.process:Process._process_field"
    args = ["self", "index", "name", "parsed", "base"]
    may_raise = ["ProcessException"]

    def C05_own_or_base(index, name, parsed, base, result):
        group_props(parsed, base, result)
        assert result.name == name
        assert result.access == (parsed.access if parsed.access is not None else base.access if base is not None else None)
        assert result.description == (parsed.description if parsed.description is not None else base.description if base is not None else None)
        assert result.modified_write_values == (parsed.modified_write_values if parsed.modified_write_values is not None else base.modified_write_values if base is not None else ModifiedWriteValuesType.MODIFY)
        assert result.read_action == (parsed.read_action if parsed.read_action is not None else base.read_action if base is not None else None)
        if parsed.write_constraint is not None:
            assert result.write_constraint is not None and result.write_constraint.parsed is parsed.write_constraint
            assert result.write_constraint.write_as_read == parsed.write_constraint.write_as_read
            assert result.write_constraint.use_enumerated_values == parsed.write_constraint.use_enumerated_values
            assert result.write_constraint.range_ == parsed.write_constraint.range_
        elif base is not None:
            assert result.write_constraint is base.write_constraint
        else:
            assert result.write_constraint is None

    def C10_increment(index, name, parsed, base, result):
        if result.dim_increment is None:
            assert result.lsb == field_lsb(parsed, base)
            assert result.msb == field_msb(parsed, base)
        else:
            assert result.lsb == field_lsb(parsed, base) + result.dim_increment * index
            assert result.msb == field_msb(parsed, base) + result.dim_increment * index

    def C23_parsed(index, name, parsed, base, result):
        assert result.parsed is parsed

    def C06_no_children_yet(index, name, parsed, base, result):
        assert len(result.enumerated_value_containers) == 0


# ---------------------------------------------------------------- bit positions
def range_hi(text: str) -> int:
    m = re.match(r"\[(\d+):(\d+)\]", text)
    return (int(m.group(1)) if m else 0)


def range_lo(text: str) -> int:
    m = re.match(r"\[(\d+):(\d+)\]", text)
    return (int(m.group(2)) if m else 0)


def field_lsb(p, base):
    """the least significant bit denoted by a field description; bitRange > lsb/msb > bitOffset/bitWidth"""
    if p.bit_range is not None:
        return min(range_hi(p.bit_range), range_lo(p.bit_range))
    if (p.lsb is not None or p.msb is not None) and (base is not None or p.lsb is not None and p.msb is not None):
        return p.lsb if p.lsb is not None else base.lsb
    return p.bit_offset if p.bit_offset is not None else base.lsb if base is not None else 0


def field_msb(p, base):
    if p.bit_range is not None:
        return max(range_hi(p.bit_range), range_lo(p.bit_range))
    if (p.lsb is not None or p.msb is not None) and (base is not None or p.lsb is not None and p.msb is not None):
        return p.msb if p.msb is not None else base.msb
    o = p.bit_offset if p.bit_offset is not None else base.lsb if base is not None else 0
    w = p.bit_width if p.bit_width is not None else base.msb - base.lsb + 1 if base is not None else 0
    return o + w - 1


def has_position(p, base):
    if p.bit_range is not None:
        return re.match(r"\[(\d+):(\d+)\]", p.bit_range) is not None
    if base is not None:
        return p.lsb is not None or p.msb is not None or p.bit_offset is not None or p.bit_width is not None
    return (p.lsb is not None and p.msb is not None) or (p.bit_offset is not None and p.bit_width is not None)


class field_position:
    target = "svdsuite.process:Process._process_field_msb_lsb"
    args = ["self", "parsed_field", "base"]

    def raises_ProcessException(parsed_field, base):
        return not has_position(parsed_field, base)

    def C10_position(parsed_field, base, result):
        assert result == (field_msb(parsed_field, base), field_lsb(parsed_field, base))

    def C10_reversed_warns(parsed_field, base, result):
        if parsed_field.bit_range is not None and range_hi(parsed_field.bit_range) < range_lo(parsed_field.bit_range):
            assert warned()


class field_position_increment:
    target = "svdsuite.process:Process._process_field_msb_lsb_with_increment"
    args = ["self", "parsed_field", "dim_increment", "index", "base"]

    def raises_ProcessException(parsed_field, dim_increment, index, base):
        return not has_position(parsed_field, base)

    def C10_position(parsed_field, dim_increment, index, base, result):
        d = dim_increment * index if dim_increment is not None else 0
        assert result == (field_lsb(parsed_field, base) + d, field_msb(parsed_field, base) + d)
