"""Contracts of the parser (parse.py): literals, attribute mapping, document order, parents. lxml is assumed (stubs/lxml)."""
import re
from svdsuite.model.types import *
from svdsuite.model.parse import *
from contracts.c_clean import stripped, clean_region, clean_sau, clean_cpu, clean_value, clean_index, clean_container, clean_field, clean_register, clean_cluster
from contracts.c_clean import clean_child, clean_interrupt, clean_peripheral, clean_device
from lxml.etree import _Element


# ---------------------------------------------------------------------------------------------------- lxml (assumed)
class findall:
    target = "lxml.etree:_Element.findall"
    args = ["self", "path"]
    pure = True
    warns = "none"
    trusted = "assumed: lxml, the direct children with the tag, in document order"


class find:
    target = "lxml.etree:_Element.find"
    args = ["self", "path"]
    pure = True
    warns = "none"
    trusted = "assumed: lxml, the first of findall"

    def ensures_first(self, path, result):
        assert (result is None) == (len(self.findall(path)) == 0)
        assert implies(result is not None, result is self.findall(path)[0])


class get_attribute:
    target = "lxml.etree:_Element.get"
    args = ["self", "key"]
    pure = True
    warns = "none"
    trusted = "assumed: lxml"


class children:
    target = "lxml.etree:_Element.__iter__"
    args = ["self"]
    pure = True
    warns = "none"
    trusted = "assumed: lxml, the direct children in document order"


class has_children:
    target = "lxml.etree:_Element.__bool__"
    args = ["self"]
    pure = True
    warns = "none"
    trusted = "assumed: lxml, whether there are children"


# ---------------------------------------------------------------------------------------------------- texts
def raw(e, name):
    """text of the last sub-element of the name"""
    l = e.findall(name)
    return l[-1].text if l else None


def text(e, name):
    """the same without surrounding blanks; an element of blanks only is an empty one"""
    t = raw(e, name)
    return None if t is None or t.strip() == "" else t.strip()


def attribute(e, name):
    t = e.get(name)
    return t.strip() if t is not None else None


class element_text:
    target = "svdsuite.parse:Parser._parse_element_text"
    args = ["self", "element_name", "parent", "strip", "optional"]
    props = ["C22"]

    def raises_ParserException(self, element_name, parent, strip, optional):
        return (text(parent, element_name) if strip else raw(parent, element_name)) is None and not optional

    def C22_last(self, element_name, parent, strip, optional, result):
        assert result == (text(parent, element_name) if strip else raw(parent, element_name))


class element_attribute:
    target = "svdsuite.parse:Parser._parse_element_attribute"
    args = ["self", "attribute_name", "element", "strip", "optional"]
    props = ["C22"]

    def raises_ParserException(self, attribute_name, element, strip, optional):
        return element.get(attribute_name) is None and not optional

    def C22_value(self, attribute_name, element, strip, optional, result):
        assert result == (attribute(element, attribute_name) if strip else element.get(attribute_name))


# ---------------------------------------------------------------------------------------------------- literals
def is_true(s):
    return s.lower() == "true" or s == "1"


def is_false(s):
    return s.lower() == "false" or s == "0"


class to_bool:
    target = "svdsuite.parse:_to_bool"
    args = ["value", "default"]
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(value, default):
        return (value is None and default is None) or (value is not None and not is_true(value) and not is_false(value))

    def C21_value(value, default, result):
        assert implies(value is None, result == default)
        assert implies(value is not None, result == is_true(value))


class to_none_or_bool:
    target = "svdsuite.parse:_to_none_or_bool"
    args = ["value"]
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(value):
        return value is not None and not is_true(value) and not is_false(value)

    def C21_value(value, result):
        assert (result is None) == (value is None)
        assert implies(value is not None, result == is_true(value))


def normal(s):
    """# introduces a binary number"""
    if s.startswith("#"):
        return "0b" + s[1:]
    if s.startswith("+#"):
        return "+0b" + s[2:]
    if s.startswith("-#"):
        return "-0b" + s[2:]
    return s


def number(s):
    """what an integer text denotes: Python notation with a base prefix, else decimal (leading zeros)"""
    return int_read(normal(s), 0) if int_reads(normal(s), 0) else int_read(normal(s), 10)


class to_int:
    target = "svdsuite.parse:_to_int"
    args = ["value", "base"]
    warns = "none"
    props = ["C21"]

    def requires(value, base):
        assert base == 0

    def raises_NotImplementedError(value, base):
        return value is not None and not int_reads(normal(value), 0) and not int_reads(normal(value), 10)

    def C21_value(value, base, result):
        assert (result is None) == (value is None)
        assert implies(value is not None, result == number(value))


# ---------------------------------------------------------------------------------------------------- enumerations

class EndianType_from_str:
    target = "svdsuite.model.types:EndianType.from_str"
    args = ["cls", "label"]
    returns = "EndianType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label not in ("little", "big", "selectable", "other")

    def C21_member(label, result):
        assert result.value == label

    def C21_table(label, result):
        assert iff(label == "little", result == EndianType.LITTLE)
        assert iff(label == "big", result == EndianType.BIG)
        assert iff(label == "selectable", result == EndianType.SELECTABLE)
        assert iff(label == "other", result == EndianType.OTHER)


class ProtectionStringType_from_str:
    target = "svdsuite.model.types:ProtectionStringType.from_str"
    args = ["cls", "label"]
    returns = "ProtectionStringType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label not in ("s", "n", "p", "any")

    def C21_member(label, result):
        assert result.value == label

    def C21_table(label, result):
        assert iff(label == "s", result == ProtectionStringType.SECURE)
        assert iff(label == "n", result == ProtectionStringType.NON_SECURE)
        assert iff(label == "p", result == ProtectionStringType.PRIVILEGED)
        assert iff(label == "any", result == ProtectionStringType.ANY)


class SauAccessType_from_str:
    target = "svdsuite.model.types:SauAccessType.from_str"
    args = ["cls", "label"]
    returns = "SauAccessType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label not in ("c", "n")

    def C21_member(label, result):
        assert result.value == label

    def C21_table(label, result):
        assert iff(label == "c", result == SauAccessType.NON_SECURE_CALLABLE)
        assert iff(label == "n", result == SauAccessType.NON_SECURE)


class EnumeratedTokenType_from_str:
    target = "svdsuite.model.types:EnumeratedTokenType.from_str"
    args = ["cls", "label"]
    returns = "EnumeratedTokenType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label not in ("registers", "buffer", "reserved")

    def C21_member(label, result):
        assert result.value == label

    def C21_table(label, result):
        assert iff(label == "registers", result == EnumeratedTokenType.REGISTERS)
        assert iff(label == "buffer", result == EnumeratedTokenType.BUFFER)
        assert iff(label == "reserved", result == EnumeratedTokenType.RESERVED)


class DataTypeType_from_str:
    target = "svdsuite.model.types:DataTypeType.from_str"
    args = ["cls", "label"]
    returns = "DataTypeType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label not in ("uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *", "uint16_t *", "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *")

    def C21_member(label, result):
        assert result.value == label

    def C21_table(label, result):
        assert iff(label == "uint8_t", result == DataTypeType.UINT8_T)
        assert iff(label == "uint16_t", result == DataTypeType.UINT16_T)
        assert iff(label == "uint32_t", result == DataTypeType.UINT32_T)
        assert iff(label == "uint64_t", result == DataTypeType.UINT64_T)
        assert iff(label == "int8_t", result == DataTypeType.INT8_T)
        assert iff(label == "int16_t", result == DataTypeType.INT16_T)
        assert iff(label == "int32_t", result == DataTypeType.INT32_T)
        assert iff(label == "int64_t", result == DataTypeType.INT64_T)
        assert iff(label == "uint8_t *", result == DataTypeType.UINT8_T_PTR)
        assert iff(label == "uint16_t *", result == DataTypeType.UINT16_T_PTR)
        assert iff(label == "uint32_t *", result == DataTypeType.UINT32_T_PTR)
        assert iff(label == "uint64_t *", result == DataTypeType.UINT64_T_PTR)
        assert iff(label == "int8_t *", result == DataTypeType.INT8_T_PTR)
        assert iff(label == "int16_t *", result == DataTypeType.INT16_T_PTR)
        assert iff(label == "int32_t *", result == DataTypeType.INT32_T_PTR)
        assert iff(label == "int64_t *", result == DataTypeType.INT64_T_PTR)


class ModifiedWriteValuesType_from_str:
    target = "svdsuite.model.types:ModifiedWriteValuesType.from_str"
    args = ["cls", "label"]
    returns = "ModifiedWriteValuesType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label not in ("oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify")

    def C21_member(label, result):
        assert result.value == label

    def C21_table(label, result):
        assert iff(label == "oneToClear", result == ModifiedWriteValuesType.ONE_TO_CLEAR)
        assert iff(label == "oneToSet", result == ModifiedWriteValuesType.ONE_TO_SET)
        assert iff(label == "oneToToggle", result == ModifiedWriteValuesType.ONE_TO_TOGGLE)
        assert iff(label == "zeroToClear", result == ModifiedWriteValuesType.ZERO_TO_CLEAR)
        assert iff(label == "zeroToSet", result == ModifiedWriteValuesType.ZERO_TO_SET)
        assert iff(label == "zeroToToggle", result == ModifiedWriteValuesType.ZERO_TO_TOGGLE)
        assert iff(label == "clear", result == ModifiedWriteValuesType.CLEAR)
        assert iff(label == "set", result == ModifiedWriteValuesType.SET)
        assert iff(label == "modify", result == ModifiedWriteValuesType.MODIFY)


class ReadActionType_from_str:
    target = "svdsuite.model.types:ReadActionType.from_str"
    args = ["cls", "label"]
    returns = "ReadActionType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label not in ("clear", "set", "modify", "modifyExternal")

    def C21_member(label, result):
        assert result.value == label

    def C21_table(label, result):
        assert iff(label == "clear", result == ReadActionType.CLEAR)
        assert iff(label == "set", result == ReadActionType.SET)
        assert iff(label == "modify", result == ReadActionType.MODIFY)
        assert iff(label == "modifyExternal", result == ReadActionType.MODIFY_EXTERNAL)


class EnumUsageType_from_str:
    target = "svdsuite.model.types:EnumUsageType.from_str"
    args = ["cls", "label"]
    returns = "EnumUsageType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label not in ("read", "write", "read-write")

    def C21_member(label, result):
        assert result.value == label

    def C21_table(label, result):
        assert iff(label == "read", result == EnumUsageType.READ)
        assert iff(label == "write", result == EnumUsageType.WRITE)
        assert iff(label == "read-write", result == EnumUsageType.READ_WRITE)


class CPUNameType_from_str:
    target = "svdsuite.model.types:CPUNameType.from_str"
    args = ["cls", "label"]
    returns = "CPUNameType"
    warns = "none"
    props = ["C21"]

    def raises_NotImplementedError(label):
        return label != "CM0+" and all(m.name != label.upper() for m in CPUNameType)

    def C21_member(label, result):
        assert result.name == label.upper() or (label == "CM0+" and result == CPUNameType.CM0_PLUS)


class AccessType_from_str:
    target = "svdsuite.model.types:AccessType.from_str"
    args = ["cls", "label"]
    returns = "AccessType | None"
    props = ["C21"]

    def C21_member(label, result):
        low = label.lower()
        if low == "write":
            assert result == AccessType.WRITE_ONLY
        elif low == "read":
            assert result == AccessType.READ_ONLY
        else:
            assert implies(result is not None, result.value.lower() == low)
            assert implies(result is None, all(m.value.lower() != low for m in AccessType))

    def C21_warned(label, result):
        assert iff(result is None, warned())

    def C21_table(label, result):
        low = label.lower()
        assert implies(low == "read-only", result == AccessType.READ_ONLY)
        assert implies(low == "write-only", result == AccessType.WRITE_ONLY)
        assert implies(low == "read-write", result == AccessType.READ_WRITE)
        assert implies(low == "writeonce", result == AccessType.WRITE_ONCE)
        assert implies(low == "read-writeonce", result == AccessType.READ_WRITE_ONCE)
        assert iff(result is None, low not in ("read-only", "write-only", "read-write", "writeonce", "read-writeonce", "read", "write"))


# ---------------------------------------------------------------------------------------------------- elements
def int_of(v, t):
    """v is the number the text denotes, absent when there is none"""
    return (v is None) == (t is None) and implies(t is not None, (int_reads(normal(t), 0) or int_reads(normal(t), 10)) and v == number(t))


def bool_of(v, t):
    return (v is None) == (t is None) and implies(t is not None, (is_true(t) or is_false(t)) and v == is_true(t))


def member_of(v, t):
    return (v is None) == (t is None) and implies(t is not None, v.value == t)


def access_of(v, t):
    if t is None:
        return v is None
    low = t.lower()
    if low == "write":
        return v == AccessType.WRITE_ONLY
    if low == "read":
        return v == AccessType.READ_ONLY
    return implies(v is not None, v.value.lower() == low) and implies(v is None, all(m.value.lower() != low for m in AccessType))


def props_of(size, access, protection, reset_value, reset_mask, e):
    return (
        int_of(size, text(e, "size")) and access_of(access, text(e, "access")) and member_of(protection, text(e, "protection"))
        and int_of(reset_value, text(e, "resetValue")) and int_of(reset_mask, text(e, "resetMask"))
    )


class register_properties:
    target = "svdsuite.parse:Parser._parse_register_properties"
    args = ["self", "element"]
    may_raise = ["NotImplementedError"]
    props = ["C22"]

    def C22_properties(self, element, result):
        size, access, protection, reset_value, reset_mask = result
        assert props_of(size, access, protection, reset_value, reset_mask, element)


@ghost
def mirrors_value(a: SVDEnumeratedValue, e: _Element) -> bool:
    return a.name == text(e, "name") and a.description == raw(e, "description") and a.value == text(e, "value") and bool_of(a.is_default, text(e, "isDefault"))


def mirrors_values(l, e):
    els = e.findall("enumeratedValue")
    return len(l) == len(els) and all(mirrors_value(l[i], els[i]) for i in range(len(els)))


class enumerated_values:
    target = "svdsuite.parse:Parser._parse_enumerated_values"
    args = ["self", "parent_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    props = ["C22"]

    def C22_values(self, parent_element, result):
        assert mirrors_values(result, parent_element)

    def ensures_new(result):
        assert all(allocated(x) for x in result)
        assert distinct(result)

    def C19_clean(result):
        assert all(clean_value(x) for x in result)


@ghost
def mirrors_index(a: SVDDimArrayIndex, e: _Element) -> bool:
    return a.header_enum_name == text(e, "headerEnumName") and mirrors_values(a.enumerated_values, e)


class dim_array_index:
    target = "svdsuite.parse:Parser.parse_dim_array_index"
    args = ["self", "element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent"]
    props = ["C22"]

    def C22_index(self, element, result):
        e = element.find("dimArrayIndex")
        assert (result is None) == (e is None)
        assert implies(result is not None, mirrors_index(result, e))
        assert implies(result is not None, all(x.parent is result for x in result.enumerated_values))

    def ensures_new(result):
        assert implies(result is not None, allocated(result))

    def C19_clean(result):
        assert implies(result is not None, clean_index(result))


def index_of(a, e):
    d = e.find("dimArrayIndex")
    return (a is None) == (d is None) and implies(a is not None, mirrors_index(a, d))


def dims_of(dim, dim_increment, dim_index, dim_name, dim_array_index, e):
    return (
        int_of(dim, text(e, "dim")) and int_of(dim_increment, text(e, "dimIncrement")) and dim_index == text(e, "dimIndex")
        and dim_name == text(e, "dimName") and index_of(dim_array_index, e)
    )


def dim_group(a, e):
    return dims_of(a.dim, a.dim_increment, a.dim_index, a.dim_name, a.dim_array_index, e)


def properties(a, e):
    return props_of(a.size, a.access, a.protection, a.reset_value, a.reset_mask, e)


class dim_element_group:
    target = "svdsuite.parse:Parser._parse_dim_element_group"
    args = ["self", "element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent"]
    props = ["C22"]

    def C22_dims(self, element, result):
        dim, dim_increment, dim_index, dim_name, dim_array_index = result
        assert dims_of(dim, dim_increment, dim_index, dim_name, dim_array_index, element)
        assert implies(dim_array_index is not None, all(x.parent is dim_array_index for x in dim_array_index.enumerated_values))

    def ensures_new(result):
        dim, dim_increment, dim_index, dim_name, dim_array_index = result
        assert implies(dim_array_index is not None, allocated(dim_array_index))

    def C19_clean(result):
        dim, dim_increment, dim_index, dim_name, dim_array_index = result
        assert stripped(dim_index) and stripped(dim_name) and implies(dim_array_index is not None, clean_index(dim_array_index))


@ghost
def mirrors_constraint(a: SVDWriteConstraint, e: _Element) -> bool:
    r = e.find("range")
    return (
        bool_of(a.write_as_read, text(e, "writeAsRead")) and bool_of(a.use_enumerated_values, text(e, "useEnumeratedValues"))
        and (a.range_ is None) == (r is None)
        and implies(r is not None, int_of(a.range_[0], text(r, "minimum")) and int_of(a.range_[1], text(r, "maximum")))
    )


def constraint_of(a, e):
    w = e.find("writeConstraint")
    return (a is None) == (w is None) and implies(a is not None, mirrors_constraint(a, w))


class write_constraint:
    target = "svdsuite.parse:Parser._parse_write_constraint"
    args = ["self", "parent_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    props = ["C22"]

    def C22_constraint(self, parent_element, result):
        assert constraint_of(result, parent_element)

    def ensures_new(result):
        assert implies(result is not None, allocated(result))


@ghost
def mirrors_container(a: SVDEnumeratedValueContainer, e: _Element) -> bool:
    return (
        a.name == text(e, "name") and a.header_enum_name == text(e, "headerEnumName") and member_of(a.usage, text(e, "usage"))
        and a.derived_from == attribute(e, "derivedFrom") and mirrors_values(a.enumerated_values, e)
    )


def mirrors_containers(l, e):
    els = e.findall("enumeratedValues")
    return len(l) == len(els) and all(mirrors_container(l[i], els[i]) for i in range(len(els)))


class containers:
    target = "svdsuite.parse:Parser._parse_enumerated_value_containers"
    args = ["self", "field_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent"]
    props = ["C22"]

    def C22_containers(self, field_element, result):
        assert mirrors_containers(result, field_element)

    def C22_parent(self, field_element, result):
        assert all(v.parent is c for c in result for v in c.enumerated_values)

    def ensures_new(result):
        assert all(allocated(x) for x in result)
        assert distinct(result)

    def C19_clean(result):
        assert all(clean_container(x) for x in result)


@ghost
def mirrors_field(a: SVDField, e: _Element) -> bool:
    return (
        a.name == text(e, "name") and a.description == raw(e, "description") and a.derived_from == attribute(e, "derivedFrom")
        and int_of(a.bit_offset, text(e, "bitOffset")) and int_of(a.bit_width, text(e, "bitWidth"))
        and int_of(a.lsb, text(e, "lsb")) and int_of(a.msb, text(e, "msb")) and a.bit_range == text(e, "bitRange")
        and access_of(a.access, text(e, "access")) and member_of(a.modified_write_values, text(e, "modifiedWriteValues"))
        and member_of(a.read_action, text(e, "readAction")) and constraint_of(a.write_constraint, e)
        and mirrors_containers(a.enumerated_value_containers, e) and dim_group(a, e)
    )


@ghost
def field_elements(e: _Element) -> list[_Element]:
    return [f for x in e.findall("fields") for f in x.findall("field")]


class fields:
    target = "svdsuite.parse:Parser._parse_fields"
    args = ["self", "register_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDDimArrayIndex.parent"]
    props = ["C22"]

    def C22_fields(self, register_element, result):
        els = field_elements(register_element)
        assert len(result) == len(els)
        assert all(mirrors_field(result[i], els[i]) for i in range(len(els)))

    def ensures_new(result):
        assert all(allocated(x) for x in result)
        assert distinct(result)

    def C19_clean(result):
        assert all(clean_field(x) for x in result)

    def C22_parent(self, register_element, result):
        assert all(c.parent is f for f in result for c in f.enumerated_value_containers)
        assert all(implies(f.write_constraint is not None, f.write_constraint.parent is f) for f in result)
        assert all(implies(f.dim_array_index is not None, f.dim_array_index.parent is f) for f in result)


@ghost
def mirrors_register(a: SVDRegister, e: _Element) -> bool:
    els = field_elements(e)
    return (
        a.name == text(e, "name") and a.display_name == text(e, "displayName") and a.description == raw(e, "description")
        and a.alternate_group == text(e, "alternateGroup") and a.alternate_register == text(e, "alternateRegister")
        and int_of(a.address_offset, text(e, "addressOffset")) and a.derived_from == attribute(e, "derivedFrom")
        and member_of(a.data_type, text(e, "dataType")) and member_of(a.modified_write_values, text(e, "modifiedWriteValues"))
        and member_of(a.read_action, text(e, "readAction")) and constraint_of(a.write_constraint, e)
        and len(a.fields) == len(els) and all(mirrors_field(a.fields[i], els[i]) for i in range(len(els)))
        and dim_group(a, e) and properties(a, e)
    )


class register:
    target = "svdsuite.parse:Parser._parse_register"
    args = ["self", "register_element"]
    returns = "SVDRegister"
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDDimArrayIndex.parent", "SVDField.parent"]
    props = ["C22"]

    def C22_register(self, register_element, result):
        assert mirrors_register(result, register_element)

    def C22_parent(self, register_element, result):
        assert all(f.parent is result for f in result.fields)
        assert implies(result.write_constraint is not None, result.write_constraint.parent is result)
        assert implies(result.dim_array_index is not None, result.dim_array_index.parent is result)

    def ensures_new(result):
        assert allocated(result)

    def C19_clean(result):
        assert clean_register(result)


def is_child(e):
    return e.tag == "register" or e.tag == "cluster"


def mirrors_child(a, e):
    return (
        implies(e.tag == "register", isinstance(a, SVDRegister) and mirrors_register(a, e))
        and implies(e.tag == "cluster", isinstance(a, SVDCluster) and mirrors_cluster(a, e))
    )


@ghost
def child_elements(e: _Element) -> list[_Element]:
    return [x for x in e if is_child(x)]


def mirrors_children(l, e):
    els = child_elements(e)
    return len(l) == len(els) and all(mirrors_child(l[i], els[i]) for i in range(len(els)))


@ghost
def mirrors_cluster(a: SVDCluster, e: _Element) -> bool:
    return (
        a.name == text(e, "name") and a.description == raw(e, "description") and a.alternate_cluster == text(e, "alternateCluster")
        and a.header_struct_name == text(e, "headerStructName") and int_of(a.address_offset, text(e, "addressOffset"))
        and a.derived_from == attribute(e, "derivedFrom") and dim_group(a, e) and properties(a, e)
        and mirrors_children(a.registers_clusters, e)
    )


class cluster:
    target = "svdsuite.parse:Parser._parse_cluster"
    args = ["self", "cluster_element"]
    returns = "SVDCluster"
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDDimArrayIndex.parent", "SVDField.parent",
                "SVDRegister.parent", "SVDCluster.parent"]
    props = ["C22"]

    def C22_cluster(self, cluster_element, result):
        assert mirrors_cluster(result, cluster_element)

    def C22_parent(self, cluster_element, result):
        assert all(x.parent is result for x in result.registers_clusters)
        assert implies(result.dim_array_index is not None, result.dim_array_index.parent is result)

    def ensures_new(result):
        assert allocated(result)

    def C19_clean(result):
        assert clean_cluster(result)


class registers_clusters:
    target = "svdsuite.parse:Parser._parse_registers_clusters"
    args = ["self", "parent_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDDimArrayIndex.parent", "SVDField.parent",
                "SVDRegister.parent", "SVDCluster.parent"]
    props = ["C22"]

    def C22_children(self, parent_element, result):
        assert implies(parent_element is None, len(result) == 0)
        assert implies(parent_element is not None, mirrors_children(result, parent_element))

    def ensures_new(result):
        assert all(allocated(x) for x in result)
        assert distinct(result)

    def C19_clean(result):
        assert all(clean_child(x) for x in result)


@ghost
def mirrors_interrupt(a: SVDInterrupt, e: _Element) -> bool:
    t = text(e, "value")
    return a.name == text(e, "name") and a.description == raw(e, "description") and (a.value == 0 if t is None else int_of(a.value, t))


def mirrors_interrupts(l, e):
    els = e.findall("interrupt")
    return len(l) == len(els) and all(mirrors_interrupt(l[i], els[i]) for i in range(len(els)))


class interrupts:
    target = "svdsuite.parse:Parser._parse_interrupts"
    args = ["self", "peripheral_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    props = ["C22"]

    def C22_interrupts(self, peripheral_element, result):
        assert mirrors_interrupts(result, peripheral_element)

    def C22_warned(self, peripheral_element, result):
        assert implies(any(text(x, "value") is None for x in peripheral_element.findall("interrupt")), warned())

    def ensures_new(result):
        assert all(allocated(x) for x in result)
        assert distinct(result)

    def C19_clean(result):
        assert all(clean_interrupt(x) for x in result)


@ghost
def mirrors_block(a: SVDAddressBlock, e: _Element) -> bool:
    t = text(e, "offset")
    return (
        (a.offset == 0 if t is None else int_of(a.offset, t)) and int_of(a.size, text(e, "size"))
        and member_of(a.usage, text(e, "usage")) and member_of(a.protection, text(e, "protection"))
    )


def mirrors_blocks(l, e):
    els = e.findall("addressBlock")
    return len(l) == len(els) and all(mirrors_block(l[i], els[i]) for i in range(len(els)))


class address_blocks:
    target = "svdsuite.parse:Parser._parse_address_blocks"
    args = ["self", "peripheral_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    props = ["C22"]

    def C22_blocks(self, peripheral_element, result):
        assert mirrors_blocks(result, peripheral_element)

    def ensures_new(result):
        assert all(allocated(x) for x in result)
        assert distinct(result)


# ---------------------------------------------------------------------------------------------------- cpu
@ghost
def mirrors_region(a: SVDSauRegion, e: _Element) -> bool:
    return (
        bool_of(a.enabled, attribute(e, "enabled")) and a.name == attribute(e, "name") and int_of(a.base, text(e, "base"))
        and int_of(a.limit, text(e, "limit")) and member_of(a.access, text(e, "access"))
    )


def mirrors_regions(l, e):
    els = e.findall("region")
    return len(l) == len(els) and all(mirrors_region(l[i], els[i]) for i in range(len(els)))


class sau_regions:
    target = "svdsuite.parse:Parser._parse_sau_regions"
    args = ["self", "config_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    props = ["C22"]

    def C22_regions(self, config_element, result):
        assert mirrors_regions(result, config_element)

    def ensures_new(result):
        assert all(allocated(x) for x in result)
        assert distinct(result)

    def C19_clean(result):
        assert all(clean_region(x) for x in result)


@ghost
def mirrors_sau(a: SVDSauRegionsConfig, e: _Element) -> bool:
    return (
        bool_of(a.enabled, attribute(e, "enabled")) and member_of(a.protection_when_disabled, attribute(e, "protectionWhenDisabled"))
        and mirrors_regions(a.regions, e)
    )


class sau_config:
    target = "svdsuite.parse:Parser._parse_sau_regions_config"
    args = ["self", "cpu_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDSauRegion.parent"]
    props = ["C22"]

    def C22_config(self, cpu_element, result):
        e = cpu_element.find("sauRegionsConfig")
        assert (result is None) == (e is None)
        assert implies(result is not None, mirrors_sau(result, e))

    def C22_parent(self, cpu_element, result):
        assert implies(result is not None, all(r.parent is result for r in result.regions))

    def ensures_new(result):
        assert implies(result is not None, allocated(result))

    def C19_clean(result):
        assert implies(result is not None, clean_sau(result))


def name_of(v, t):
    return t is not None and (v.name == t.upper() or (t == "CM0+" and v == CPUNameType.CM0_PLUS))


@ghost
def mirrors_cpu(a: SVDCPU, e: _Element) -> bool:
    s = e.find("sauRegionsConfig")
    return (
        name_of(a.name, text(e, "name")) and a.revision == text(e, "revision") and member_of(a.endian, text(e, "endian"))
        and bool_of(a.mpu_present, text(e, "mpuPresent")) and bool_of(a.fpu_present, text(e, "fpuPresent")) and bool_of(a.fpu_dp, text(e, "fpuDP"))
        and bool_of(a.dsp_present, text(e, "dspPresent")) and bool_of(a.icache_present, text(e, "icachePresent"))
        and bool_of(a.dcache_present, text(e, "dcachePresent")) and bool_of(a.itcm_present, text(e, "itcmPresent"))
        and bool_of(a.dtcm_present, text(e, "dtcmPresent")) and bool_of(a.vtor_present, text(e, "vtorPresent"))
        and int_of(a.nvic_prio_bits, text(e, "nvicPrioBits")) and bool_of(a.vendor_systick_config, text(e, "vendorSystickConfig"))
        and int_of(a.device_num_interrupts, text(e, "deviceNumInterrupts")) and int_of(a.sau_num_regions, text(e, "sauNumRegions"))
        and (a.sau_regions_config is None) == (s is None) and implies(s is not None, mirrors_sau(a.sau_regions_config, s))
    )


class cpu:
    target = "svdsuite.parse:Parser._parse_cpu"
    args = ["self", "device_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDSauRegion.parent", "SVDSauRegionsConfig.parent"]
    props = ["C22"]

    def C22_cpu(self, device_element, result):
        e = device_element.find("cpu")
        assert (result is None) == (e is None)
        assert implies(result is not None, mirrors_cpu(result, e))

    def C22_parent(self, device_element, result):
        assert implies(result is not None and result.sau_regions_config is not None, result.sau_regions_config.parent is result)

    def ensures_new(result):
        assert implies(result is not None, allocated(result))

    def C19_clean(result):
        assert implies(result is not None, clean_cpu(result))


# ---------------------------------------------------------------------------------------------------- peripherals and device
@ghost
def register_elements(e: _Element) -> list[_Element]:
    return [x for g in e.findall("registers") for x in child_elements(g)]


@ghost
def mirrors_peripheral(a: SVDPeripheral, e: _Element) -> bool:
    els = register_elements(e)
    return (
        a.name == text(e, "name") and a.version == text(e, "version") and a.description == raw(e, "description")
        and a.alternate_peripheral == text(e, "alternatePeripheral") and a.group_name == text(e, "groupName")
        and a.prepend_to_name == text(e, "prependToName") and a.append_to_name == text(e, "appendToName")
        and a.header_struct_name == text(e, "headerStructName") and a.disable_condition == raw(e, "disableCondition")
        and int_of(a.base_address, text(e, "baseAddress")) and a.derived_from == attribute(e, "derivedFrom")
        and mirrors_blocks(a.address_blocks, e) and mirrors_interrupts(a.interrupts, e)
        and dim_group(a, e) and properties(a, e)
        and len(a.registers_clusters) == len(els) and all(mirrors_child(a.registers_clusters[i], els[i]) for i in range(len(els)))
    )


class peripherals:
    target = "svdsuite.parse:Parser._parse_peripherals"
    args = ["self", "device_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDDimArrayIndex.parent", "SVDField.parent",
                "SVDRegister.parent", "SVDCluster.parent", "SVDAddressBlock.parent", "SVDInterrupt.parent"]
    props = ["C22"]

    def C22_peripherals(self, device_element, result):
        p = device_element.find("peripherals")
        assert p is not None
        els = p.findall("peripheral")
        assert len(result) == len(els)
        assert all(mirrors_peripheral(result[i], els[i]) for i in range(len(els)))

    def ensures_new(result):
        assert all(allocated(x) for x in result)
        assert distinct(result)

    def C19_clean(result):
        assert all(clean_peripheral(x) for x in result)

    def C22_parent(self, device_element, result):
        assert all(b.parent is p for p in result for b in p.address_blocks)
        assert all(i.parent is p for p in result for i in p.interrupts)


class device:
    target = "svdsuite.parse:Parser._parse_device"
    args = ["self", "device_element"]
    may_raise = ["ParserException", "NotImplementedError"]
    modifies = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDDimArrayIndex.parent", "SVDField.parent",
                "SVDRegister.parent", "SVDCluster.parent", "SVDAddressBlock.parent", "SVDInterrupt.parent", "SVDPeripheral.parent",
                "SVDSauRegion.parent", "SVDSauRegionsConfig.parent", "SVDCPU.parent"]
    props = ["C22"]

    def C22_texts(self, device_element, result):
        e = device_element
        assert result.schema_version == attribute(e, "schemaVersion")
        assert result.vendor == text(e, "vendor") and result.vendor_id == text(e, "vendorID") and result.name == text(e, "name")
        assert result.series == text(e, "series") and result.version == text(e, "version") and result.license_text == raw(e, "licenseText")
        assert result.header_system_filename == text(e, "headerSystemFilename")
        assert result.header_definitions_prefix == text(e, "headerDefinitionsPrefix")
        assert int_of(result.address_unit_bits, text(e, "addressUnitBits")) and int_of(result.width, text(e, "width"))
        assert properties(result, e)

    def C22_substitute(self, device_element, result):
        d = raw(device_element, "description")
        assert result.description == ("" if d is None else d)
        assert implies(d is None, warned())

    def C22_schema_location(self, device_element, result):
        e = device_element
        k = "xs" if "xs" in e.nsmap else "xsi"
        if k in e.nsmap:
            t = attribute(e, f"{{{e.nsmap[k]}}}noNamespaceSchemaLocation")
            assert result.xs_no_namespace_schema_location == ("" if t is None else t)
            assert implies(t is None, warned())
        else:
            assert result.xs_no_namespace_schema_location == "" and warned()

    def C22_cpu(self, device_element, result):
        c = device_element.find("cpu")
        assert (result.cpu is None) == (c is None)
        assert implies(c is not None, mirrors_cpu(result.cpu, c) and result.cpu.parent is result)

    def C22_peripherals(self, device_element, result):
        p = device_element.find("peripherals")
        assert p is not None
        els = p.findall("peripheral")
        assert len(result.peripherals) == len(els)
        assert all(mirrors_peripheral(result.peripherals[i], els[i]) for i in range(len(els)))
        assert all(x.parent is result for x in result.peripherals)

    def C19_clean(result):
        assert clean_device(result)

    def C22_parent(self, device_element, result):
        assert all(p.parent is result for p in result.peripherals)
