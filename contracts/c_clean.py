"""What the parser gives, whatever the document (C19_clean of its contracts): texts are not blank and free of surrounding
blanks where it strips them.  The serializers rely on it: parsing the text again would strip it."""
from svdsuite.model.types import *
from svdsuite.model.parse import *


def stripped(t):
    """what the parser keeps of a text: absent, or not blank and without surrounding blanks"""
    return t is None or t.strip() == t and t != ""


def trimmed(t):
    """the same for an attribute of an element, which may be empty"""
    return t is None or t.strip() == t


@ghost
def clean_region(a: SVDSauRegion) -> bool:
    return trimmed(a.name)


@ghost
def clean_sau(a: SVDSauRegionsConfig) -> bool:
    return all(clean_region(r) for r in a.regions)


@ghost
def clean_cpu(a: SVDCPU) -> bool:
    return stripped(a.revision) and implies(a.sau_regions_config is not None, clean_sau(a.sau_regions_config))


@ghost
def clean_value(a: SVDEnumeratedValue) -> bool:
    return stripped(a.name) and stripped(a.value)


@ghost
def clean_index(a: SVDDimArrayIndex) -> bool:
    return stripped(a.header_enum_name) and all(clean_value(v) for v in a.enumerated_values)


def clean_dim(a):
    return stripped(a.dim_index) and stripped(a.dim_name) and implies(a.dim_array_index is not None, clean_index(a.dim_array_index))


@ghost
def clean_container(a: SVDEnumeratedValueContainer) -> bool:
    return stripped(a.name) and stripped(a.header_enum_name) and trimmed(a.derived_from) and all(clean_value(v) for v in a.enumerated_values)


@ghost
def clean_field(a: SVDField) -> bool:
    return stripped(a.name) and trimmed(a.derived_from) and stripped(a.bit_range) and clean_dim(a) and all(clean_container(c) for c in a.enumerated_value_containers)


@ghost
def clean_register(a: SVDRegister) -> bool:
    return (
        stripped(a.name) and stripped(a.display_name) and stripped(a.alternate_group) and stripped(a.alternate_register) and trimmed(a.derived_from)
        and clean_dim(a) and all(clean_field(f) for f in a.fields)
    )


def clean_child(a):
    return implies(isinstance(a, SVDRegister), clean_register(a)) and implies(isinstance(a, SVDCluster), clean_cluster(a))


@ghost
def clean_cluster(a: SVDCluster) -> bool:
    return (
        stripped(a.name) and stripped(a.alternate_cluster) and stripped(a.header_struct_name) and trimmed(a.derived_from) and clean_dim(a)
        and all(clean_child(x) for x in a.registers_clusters)
    )


@ghost
def clean_interrupt(a: SVDInterrupt) -> bool:
    return stripped(a.name)


@ghost
def clean_peripheral(a: SVDPeripheral) -> bool:
    return (
        stripped(a.name) and stripped(a.version) and stripped(a.alternate_peripheral) and stripped(a.group_name) and stripped(a.prepend_to_name)
        and stripped(a.append_to_name) and stripped(a.header_struct_name) and trimmed(a.derived_from) and clean_dim(a)
        and all(clean_interrupt(i) for i in a.interrupts) and all(clean_child(x) for x in a.registers_clusters)
    )


@ghost
def clean_device(a: SVDDevice) -> bool:
    return (
        trimmed(a.schema_version) and trimmed(a.xs_no_namespace_schema_location)
        and stripped(a.vendor) and stripped(a.vendor_id) and stripped(a.name) and stripped(a.series) and stripped(a.version)
        and stripped(a.header_system_filename) and stripped(a.header_definitions_prefix)
        and implies(a.cpu is not None, clean_cpu(a.cpu)) and all(clean_peripheral(p) for p in a.peripherals)
    )
