"""Contracts of the conversion of a processed device into a parsed one (util/process_parse_model_convert.py)."""
from svdsuite.model.types import *
from svdsuite.model.parse import *
from svdsuite.model.process import *
from svdsuite.util.process_parse_model_convert import *


def no_dim(a):
    return a.dim is None and a.dim_increment is None and a.dim_index is None and a.dim_name is None and a.dim_array_index is None


@ghost
def same_value(a: SVDEnumeratedValue, b: EnumeratedValue) -> bool:
    return a.name == b.name and a.description == b.description and a.value == str(b.value) and a.is_default is False


@ghost
def same_container(a: SVDEnumeratedValueContainer, b: EnumeratedValueContainer) -> bool:
    return (
        a.name == b.name and a.header_enum_name == b.header_enum_name and a.usage == b.usage and a.derived_from is None
        and len(a.enumerated_values) == len(b.enumerated_values)
        and all(same_value(a.enumerated_values[i], b.enumerated_values[i]) for i in range(len(b.enumerated_values)))
    )


def same_constraint(a, b):
    if b is None:
        return a is None
    return a is not None and a.write_as_read == b.write_as_read and a.use_enumerated_values == b.use_enumerated_values and a.range_ == b.range_


@ghost
def same_field(a: SVDField, b: Field) -> bool:
    return (
        a.name == b.name and a.description == b.description and a.lsb == b.lsb and a.msb == b.msb
        and a.bit_offset is None and a.bit_width is None and a.bit_range is None
        and a.access == b.access and a.modified_write_values == b.modified_write_values and a.read_action == b.read_action
        and same_constraint(a.write_constraint, b.write_constraint) and a.derived_from is None and no_dim(a)
        and len(a.enumerated_value_containers) == len(b.enumerated_value_containers)
        and all(same_container(a.enumerated_value_containers[i], b.enumerated_value_containers[i]) for i in range(len(b.enumerated_value_containers)))
    )


def same_props(a, b):
    return a.size == b.size and a.access == b.access and a.protection == b.protection and a.reset_value == b.reset_value and a.reset_mask == b.reset_mask


@ghost
def same_register(a: SVDRegister, b: Register) -> bool:
    return (
        a.name == b.name and a.display_name == b.display_name and a.description == b.description
        and a.alternate_group == b.alternate_group and a.alternate_register == b.alternate_register
        and a.address_offset == b.address_offset and a.data_type == b.data_type
        and a.modified_write_values == b.modified_write_values and a.read_action == b.read_action
        and same_props(a, b) and same_constraint(a.write_constraint, b.write_constraint) and a.derived_from is None and no_dim(a)
        and len(a.fields) == len(b.fields)
        and all(same_field(a.fields[i], b.fields[i]) for i in range(len(b.fields)))
    )


@ghost
def same_cluster(a: SVDCluster, b: Cluster) -> bool:
    return (
        a.name == b.name and a.description == b.description and a.alternate_cluster == b.alternate_cluster
        and a.header_struct_name == b.header_struct_name and a.address_offset == b.address_offset
        and same_props(a, b) and a.derived_from is None and no_dim(a)
        and same_children(a.registers_clusters, b.registers_clusters)
    )


def same_child(a, b):
    if isinstance(b, Register):
        return isinstance(a, SVDRegister) and same_register(a, b)
    return isinstance(a, SVDCluster) and same_cluster(a, b)


def same_children(l, m):
    return len(l) == len(m) and all(same_child(l[i], m[i]) for i in range(len(m)))


@ghost
def same_peripheral(a: SVDPeripheral, b: Peripheral) -> bool:
    return (
        a.name == b.name and a.version == b.version and a.description == b.description and a.alternate_peripheral == b.alternate_peripheral
        and a.group_name == b.group_name and a.prepend_to_name == b.prepend_to_name and a.append_to_name == b.append_to_name
        and a.header_struct_name == b.header_struct_name and a.disable_condition == b.disable_condition and a.base_address == b.base_address
        and same_props(a, b) and a.derived_from is None and no_dim(a)
        and len(a.address_blocks) == len(b.address_blocks)
        and all(same_block(a.address_blocks[i], b.address_blocks[i]) for i in range(len(b.address_blocks)))
        and len(a.interrupts) == len(b.interrupts)
        and all(same_interrupt(a.interrupts[i], b.interrupts[i]) for i in range(len(b.interrupts)))
        and same_children(a.registers_clusters, b.registers_clusters)
    )


def same_block(a, b):
    return a.offset == b.offset and a.size == b.size and a.usage == b.usage and a.protection == b.protection


def same_interrupt(a, b):
    return a.name == b.name and a.description == b.description and a.value == b.value


class sau_region:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_sau_region"
    args = ["region"]
    warns = "none"

    def C20_same(region, result):
        assert result.enabled == region.enabled and result.name == region.name
        assert result.base == region.base and result.limit == region.limit and result.access == region.access

    def ensures_new(result):
        assert allocated(result)


class sau_config:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_sau_regions_config"
    args = ["config"]
    warns = "none"
    modifies = ["SVDSauRegion.parent"]

    def C20_same(config, result):
        assert result.enabled == config.enabled and result.protection_when_disabled == config.protection_when_disabled
        assert len(result.regions) == len(config.regions)
        for i in range(len(config.regions)):
            a = result.regions[i]
            b = config.regions[i]
            assert a.enabled == b.enabled and a.name == b.name and a.base == b.base and a.limit == b.limit and a.access == b.access

    def C20_parent(config, result):
        assert all(r.parent is result for r in result.regions)

    def ensures_new(result):
        assert allocated(result)


class cpu:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_cpu"
    args = ["cpu"]
    warns = "none"
    modifies = ["SVDSauRegion.parent", "SVDSauRegionsConfig.parent"]

    def C20_same(cpu, result):
        assert result.name == cpu.name and result.revision == cpu.revision and result.endian == cpu.endian
        assert result.mpu_present == cpu.mpu_present and result.fpu_present == cpu.fpu_present and result.fpu_dp == cpu.fpu_dp
        assert result.dsp_present == cpu.dsp_present and result.icache_present == cpu.icache_present and result.dcache_present == cpu.dcache_present
        assert result.itcm_present == cpu.itcm_present and result.dtcm_present == cpu.dtcm_present and result.vtor_present == cpu.vtor_present
        assert result.nvic_prio_bits == cpu.nvic_prio_bits and result.vendor_systick_config == cpu.vendor_systick_config
        assert result.device_num_interrupts == cpu.device_num_interrupts and result.sau_num_regions == cpu.sau_num_regions

    def C20_sau(cpu, result):
        assert (result.sau_regions_config is None) == (cpu.sau_regions_config is None)
        if cpu.sau_regions_config is not None:
            a = result.sau_regions_config
            b = cpu.sau_regions_config
            assert a.enabled == b.enabled and a.protection_when_disabled == b.protection_when_disabled
            assert len(a.regions) == len(b.regions)
            for i in range(len(b.regions)):
                x = a.regions[i]
                y = b.regions[i]
                assert x.enabled == y.enabled and x.name == y.name and x.base == y.base and x.limit == y.limit and x.access == y.access

    def C20_parent(cpu, result):
        if result.sau_regions_config is not None:
            assert result.sau_regions_config.parent is result
            assert all(r.parent is result.sau_regions_config for r in result.sau_regions_config.regions)

    def ensures_new(result):
        assert allocated(result)


class enum_value:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_enumerated_value"
    args = ["value"]
    warns = "none"

    def C20_same(value, result):
        assert same_value(result, value)

    def ensures_new(result):
        assert allocated(result)


class dim_array_index:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_dim_array_index"
    args = ["index"]
    warns = "none"
    modifies = ["SVDEnumeratedValue.parent"]

    def C20_same(index, result):
        assert result.header_enum_name == index.header_enum_name
        assert len(result.enumerated_values) == len(index.enumerated_values)
        assert all(same_value(result.enumerated_values[i], index.enumerated_values[i]) for i in range(len(index.enumerated_values)))

    def C20_parent(index, result):
        assert all(v.parent is result for v in result.enumerated_values)

    def ensures_new(result):
        assert allocated(result)


class block:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_address_block"
    args = ["block"]
    warns = "none"

    def C20_same(block, result):
        assert same_block(result, block)

    def ensures_new(result):
        assert allocated(result)


class interrupt:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_interrupt"
    args = ["interrupt"]
    warns = "none"

    def C20_same(interrupt, result):
        assert same_interrupt(result, interrupt)

    def ensures_new(result):
        assert allocated(result)


class constraint:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_write_constraint"
    args = ["constraint"]
    warns = "none"

    def C20_same(constraint, result):
        assert same_constraint(result, constraint)

    def ensures_new(result):
        assert allocated(result)


class container:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_enumerated_value_container"
    args = ["value"]
    warns = "none"
    modifies = ["SVDEnumeratedValue.parent"]

    def C20_same(value, result):
        assert same_container(result, value)

    def C20_parent(value, result):
        assert all(v.parent is result for v in result.enumerated_values)

    def ensures_new(result):
        assert allocated(result)


class field:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_field"
    args = ["field"]
    warns = "none"
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent"]

    def C20_same(field, result):
        assert same_field(result, field)

    def C20_parent(field, result):
        assert all(c.parent is result for c in result.enumerated_value_containers)
        if result.write_constraint is not None:
            assert result.write_constraint.parent is result

    def ensures_new(result):
        assert allocated(result)


class register:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_register"
    args = ["register"]
    warns = "none"
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDField.parent"]

    def C20_same(register, result):
        assert same_register(result, register)

    def C20_parent(register, result):
        assert all(f.parent is result for f in result.fields)
        if result.write_constraint is not None:
            assert result.write_constraint.parent is result

    def ensures_new(result):
        assert allocated(result)


class cluster:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_cluster"
    args = ["cluster"]
    warns = "none"
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDField.parent", "SVDRegister.parent", "SVDCluster.parent"]

    def C20_same(cluster, result):
        assert same_cluster(result, cluster)

    def C20_parent(cluster, result):
        assert all(c.parent is result for c in result.registers_clusters)

    def ensures_new(result):
        assert allocated(result)


class peripheral:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_peripheral"
    args = ["peripheral"]
    warns = "none"
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDField.parent", "SVDRegister.parent", "SVDCluster.parent",
                "SVDAddressBlock.parent", "SVDInterrupt.parent"]

    def C20_same(peripheral, result):
        assert same_peripheral(result, peripheral)

    def C20_parent(peripheral, result):
        assert all(c.parent is result for c in result.registers_clusters)
        assert all(c.parent is result for c in result.address_blocks)
        assert all(c.parent is result for c in result.interrupts)

    def ensures_new(result):
        assert allocated(result)


class device:
    target = "svdsuite.util.process_parse_model_convert:process_parse_convert_device"
    args = ["device"]
    warns = "none"
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDField.parent", "SVDRegister.parent", "SVDCluster.parent",
                "SVDAddressBlock.parent", "SVDInterrupt.parent", "SVDSauRegion.parent", "SVDSauRegionsConfig.parent", "SVDCPU.parent", "SVDPeripheral.parent"]

    def C20_same(device, result):
        assert result.vendor == device.vendor and result.vendor_id == device.vendor_id and result.name == device.name
        assert result.series == device.series and result.version == device.version and result.description == device.description
        assert result.license_text == device.license_text and result.address_unit_bits == device.address_unit_bits and result.width == device.width
        assert result.header_system_filename == device.header_system_filename and result.header_definitions_prefix == device.header_definitions_prefix
        assert same_props(result, device)
        assert len(result.peripherals) == len(device.peripherals)
        assert all(same_peripheral(result.peripherals[i], device.peripherals[i]) for i in range(len(device.peripherals)))

    def C20_cpu(device, result):
        assert (result.cpu is None) == (device.cpu is None)
        if device.cpu is not None:
            assert result.cpu.name == device.cpu.name and result.cpu.revision == device.cpu.revision
            assert result.cpu.nvic_prio_bits == device.cpu.nvic_prio_bits

    def C20_parent(device, result):
        assert all(p.parent is result for p in result.peripherals)
        if result.cpu is not None:
            assert result.cpu.parent is result
