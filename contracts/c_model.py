"""Contracts of the constructors of the processed model (model/process.py)."""
from svdsuite.model.types import *
from svdsuite.model.parse import *
from svdsuite.model.process import *


def incomplete(x):
    return x.size is None or x.access is None or x.protection is None or x.reset_value is None or x.reset_mask is None


def same_props(r, x):
    return r.size == x.size and r.access == x.access and r.protection == x.protection and r.reset_value == x.reset_value and r.reset_mask == x.reset_mask


class props:
    target = "svdsuite.model.process:reg_prop_validator"
    args = ["size", "access", "protection", "reset_value", "reset_mask"]
    warns = "none"
    props = ["C03"]

    def raises_ValueError(size, access, protection, reset_value, reset_mask):
        return size is None or access is None or protection is None or reset_value is None or reset_mask is None

    def C03_same(size, access, protection, reset_value, reset_mask, result):
        assert result[0] == size and result[1] == access and result[2] == protection and result[3] == reset_value and result[4] == reset_mask


class enum_value:
    target = "svdsuite.model.process:EnumeratedValue.from_intermediate_enum_value"
    args = ["cls", "i_enum_value", "value"]
    warns = "none"

    def C13_value(i_enum_value, value, result):
        assert result.name == i_enum_value.name and result.description == i_enum_value.description
        assert result.value == value

    def C23_parsed(i_enum_value, value, result):
        assert result.parsed is i_enum_value.parsed


class enum_container:
    target = "svdsuite.model.process:EnumeratedValueContainer.from_intermediate_enum_value_container"
    args = ["cls", "i_enum_container", "enumerated_values"]
    warns = "none"

    def C16_container(i_enum_container, enumerated_values, result):
        assert result.name == i_enum_container.name and result.header_enum_name == i_enum_container.header_enum_name
        assert result.usage == i_enum_container.usage

    def C13_values(i_enum_container, enumerated_values, result):
        assert len(result.enumerated_values) == len(enumerated_values)
        for i in range(len(enumerated_values)):
            assert result.enumerated_values[i] is enumerated_values[i]

    def C23_parsed(i_enum_container, enumerated_values, result):
        assert result.parsed is i_enum_container.parsed


class field:
    target = "svdsuite.model.process:Field.from_intermediate_field"
    args = ["cls", "i_field", "enumerated_value_containers"]
    warns = "none"

    def raises_ValueError(i_field):
        return i_field.access is None

    def C10_position(i_field, enumerated_value_containers, result):
        assert result.lsb == i_field.lsb and result.msb == i_field.msb
        assert result.bit_offset == result.lsb
        assert result.bit_width == result.msb - result.lsb + 1
        assert result.bit_range[0] == result.msb and result.bit_range[1] == result.lsb

    def C03_access(i_field, enumerated_value_containers, result):
        assert result.access == i_field.access

    def C05_attributes(i_field, enumerated_value_containers, result):
        assert result.name == i_field.name and result.description == i_field.description
        assert result.modified_write_values == i_field.modified_write_values
        assert result.write_constraint is i_field.write_constraint
        assert result.read_action == i_field.read_action

    def C16_containers(i_field, enumerated_value_containers, result):
        assert len(result.enumerated_value_containers) == len(enumerated_value_containers)
        for i in range(len(enumerated_value_containers)):
            assert result.enumerated_value_containers[i] is enumerated_value_containers[i]

    def C23_parsed(i_field, enumerated_value_containers, result):
        assert result.parsed is i_field.parsed


class register:
    target = "svdsuite.model.process:Register.from_intermediate_register"
    args = ["cls", "i_register", "fields", "base_address"]
    warns = "none"

    def raises_ValueError(i_register):
        return incomplete(i_register)

    def C01_address(i_register, fields, base_address, result):
        assert result.base_address == base_address and result.address_offset == i_register.address_offset

    def C03_same(i_register, fields, base_address, result):
        assert same_props(result, i_register)

    def C05_attributes(i_register, fields, base_address, result):
        assert result.name == i_register.name and result.display_name == i_register.display_name and result.description == i_register.description
        assert result.alternate_group == i_register.alternate_group and result.alternate_register == i_register.alternate_register
        assert result.data_type == i_register.data_type
        assert result.modified_write_values == i_register.modified_write_values
        assert result.write_constraint is i_register.write_constraint
        assert result.read_action == i_register.read_action

    def C11_fields(i_register, fields, base_address, result):
        assert len(result.fields) == len(fields)
        for i in range(len(fields)):
            assert result.fields[i] is fields[i]

    def C23_parsed(i_register, fields, base_address, result):
        assert result.parsed is i_register.parsed


class cluster:
    target = "svdsuite.model.process:Cluster.from_intermediate_cluster"
    args = ["cls", "i_cluster", "registers_clusters", "base_address", "end_address", "cluster_size"]
    warns = "none"

    def raises_ValueError(i_cluster):
        return incomplete(i_cluster)

    def C01_address(i_cluster, registers_clusters, base_address, end_address, cluster_size, result):
        assert result.base_address == base_address and result.address_offset == i_cluster.address_offset

    def C02_extent(i_cluster, registers_clusters, base_address, end_address, cluster_size, result):
        assert result.end_address == end_address and result.cluster_size == cluster_size

    def C03_same(i_cluster, registers_clusters, base_address, end_address, cluster_size, result):
        assert same_props(result, i_cluster)

    def C05_attributes(i_cluster, registers_clusters, base_address, end_address, cluster_size, result):
        assert result.name == i_cluster.name and result.description == i_cluster.description
        assert result.alternate_cluster == i_cluster.alternate_cluster and result.header_struct_name == i_cluster.header_struct_name

    def C17_children(i_cluster, registers_clusters, base_address, end_address, cluster_size, result):
        assert len(result.registers_clusters) == len(registers_clusters)
        for i in range(len(registers_clusters)):
            assert result.registers_clusters[i] is registers_clusters[i]

    def C23_parsed(i_cluster, registers_clusters, base_address, end_address, cluster_size, result):
        assert result.parsed is i_cluster.parsed


class peripheral:
    target = "svdsuite.model.process:Peripheral.from_intermediate_peripheral"
    args = ["cls", "i_peripheral", "end_address_specified", "end_address_effective", "peripheral_size_specified", "peripheral_size_effective", "registers_clusters", "registers"]
    warns = "none"

    def raises_ValueError(i_peripheral):
        return incomplete(i_peripheral)

    def C01_address(i_peripheral, registers, result):
        assert result.base_address == i_peripheral.base_address
        assert len(result.registers) == len(registers)
        for i in range(len(registers)):
            assert result.registers[i] is registers[i]

    def C02_extent(end_address_specified, end_address_effective, peripheral_size_specified, peripheral_size_effective, result):
        assert result.end_address == end_address_specified and result.end_address_effective == end_address_effective
        assert result.peripheral_size == peripheral_size_specified and result.peripheral_size_effective == peripheral_size_effective

    def C03_same(i_peripheral, result):
        assert same_props(result, i_peripheral)

    def C05_attributes(i_peripheral, result):
        assert result.name == i_peripheral.name and result.version == i_peripheral.version and result.description == i_peripheral.description
        assert result.alternate_peripheral == i_peripheral.alternate_peripheral and result.group_name == i_peripheral.group_name
        assert result.prepend_to_name == i_peripheral.prepend_to_name and result.append_to_name == i_peripheral.append_to_name
        assert result.header_struct_name == i_peripheral.header_struct_name and result.disable_condition == i_peripheral.disable_condition

    def C05_blocks(i_peripheral, result):
        assert len(result.address_blocks) == len(i_peripheral.address_blocks)
        for i in range(len(result.address_blocks)):
            assert result.address_blocks[i] is i_peripheral.address_blocks[i]
        assert len(result.interrupts) == len(i_peripheral.interrupts)
        for i in range(len(result.interrupts)):
            assert result.interrupts[i] is i_peripheral.interrupts[i]

    def C17_children(registers_clusters, result):
        assert len(result.registers_clusters) == len(registers_clusters)
        for i in range(len(registers_clusters)):
            assert result.registers_clusters[i] is registers_clusters[i]

    def C23_parsed(i_peripheral, result):
        assert result.parsed is i_peripheral.parsed


class device:
    target = "svdsuite.model.process:Device.from_intermediate_device"
    args = ["cls", "i_device", "peripherals"]
    warns = "none"

    def C03_same(i_device, result):
        assert same_props(result, i_device)

    def C27_metadata(i_device, result):
        assert result.vendor == i_device.vendor and result.vendor_id == i_device.vendor_id and result.name == i_device.name
        assert result.series == i_device.series and result.version == i_device.version and result.description == i_device.description
        assert result.license_text == i_device.license_text and result.cpu is i_device.cpu
        assert result.header_system_filename == i_device.header_system_filename
        assert result.header_definitions_prefix == i_device.header_definitions_prefix
        assert result.address_unit_bits == i_device.address_unit_bits and result.width == i_device.width

    def C17_children(i_device, peripherals, result):
        assert len(result.peripherals) == len(peripherals)
        for i in range(len(peripherals)):
            assert result.peripherals[i] is peripherals[i]

    def C23_parsed(i_device, result):
        assert result.parsed is i_device.parsed
