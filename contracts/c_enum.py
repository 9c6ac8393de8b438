"""Contracts of the enumerated values (process.py)."""
import re
from svdsuite.model.types import *
from svdsuite.model.parse import *
from svdsuite.model.process import *


def different(l):
    return all(l[i].value is None or l[i].value != l[j].value for i in range(len(l)) for j in range(i))


def different_names(l):
    """explicit entries only: those of a default are named after it"""
    return all(l[i].parsed.is_default is True or l[j].parsed.is_default is True or l[i].name != l[j].name for i in range(len(l)) for j in range(i))


class enum_container:
    target = "svdsuite.process:_ProcessEnumeratedValueContainer.create_enumerated_value_container"
    modifies = ["IEnumeratedValue.value"]
    args = ["self", "parsed_enum_container", "lsb", "msb"]
    may_raise = ["ProcessException"]

    def C05_container(parsed_enum_container, lsb, msb, result):
        assert result.name == parsed_enum_container.name
        assert result.header_enum_name == parsed_enum_container.header_enum_name

    def C16_default_usage(parsed_enum_container, lsb, msb, result):
        assert result.usage == (parsed_enum_container.usage if parsed_enum_container.usage is not None else EnumUsageType.READ_WRITE)

    def C23_parsed(parsed_enum_container, lsb, msb, result):
        assert result.parsed is parsed_enum_container


class process_values:
    target = "svdsuite.process:_ProcessEnumeratedValueContainer._process_enumerated_values"
    modifies = ["IEnumeratedValue.value"]
    args = ["self", "parsed_enumerated_values", "lsb", "msb"]
    may_raise = ["ProcessException"]

    def C13_ascending(parsed_enumerated_values, lsb, msb, result):
        for i in range(1, len(result)):
            if result[i - 1].value is not None and result[i].value is not None and result[i - 1].value >= 0:
                assert result[i - 1].value <= result[i].value

    def C13_distinct(parsed_enumerated_values, lsb, msb, result):
        assert different(result)

    def C13_names(parsed_enumerated_values, lsb, msb, result):
        assert different_names(result)

    def C13_implied(parsed_enumerated_values, lsb, msb, result):
        for r in result:
            if r.parsed.is_default is not True:
                assert r.name == r.parsed.name or r.name == f"{r.parsed.name}_{r.value}"

    def C26_kept(parsed_enumerated_values, lsb, msb, result):
        if not warned():
            for p in parsed_enumerated_values:
                if p.is_default is not True:
                    assert any(r.parsed is p for r in result)

    def C15_no_default_left(parsed_enumerated_values, lsb, msb, result):
        assert all(not r.is_default for r in result)

    def C13_stated(parsed_enumerated_values, lsb, msb, result):
        for r in result:
            assert any(r.parsed is p for p in parsed_enumerated_values)


class extend:
    target = "svdsuite.process:_ProcessEnumeratedValueContainer._extend_enumerated_values_with_default"
    args = ["self", "enumerated_values", "default", "lsb", "msb"]
    consumes = ["enumerated_values"]
    warns = "none"

    def C15_kept(enumerated_values, default, lsb, msb, result):
        assert all(implies(not v.is_default, any(r is v for r in result)) for v in enumerated_values)

    def C13_distinct(enumerated_values, default, lsb, msb, result):
        assert implies(different(enumerated_values), different(result))

    def C13_names(enumerated_values, default, lsb, msb, result):
        assert implies(different_names(enumerated_values) and default.parsed.is_default is True, different_names(result))

    def C15_no_default(enumerated_values, default, lsb, msb, result):
        assert all(not r.is_default for r in result)

    def C15_covered(enumerated_values, default, lsb, msb, result):
        for k in range(int(pow(2, msb - lsb + 1))):
            if not any(v.value == k for v in enumerated_values):
                assert any(r.value == k and r.name == f"{default.name}_{k}" and r.description == default.description for r in result)

    def C15_nothing_else(enumerated_values, default, lsb, msb, result):
        for r in result:
            if not any(r is v for v in enumerated_values):
                assert r.value is not None and r.value >= 0 and r.value < int(pow(2, msb - lsb + 1))
                assert not any(v.value == r.value for v in enumerated_values)
                assert r.name == f"{default.name}_{r.value}" and r.description == default.description and r.parsed is default.parsed


class wildcard:
    target = "svdsuite.process:_ProcessEnumeratedValueContainer._process_enumerated_value_resolve_wildcard"
    args = ["self", "parsed_value"]
    may_raise = ["ProcessException"]

    def C13_from_statement(parsed_value, result):
        for r in result:
            assert r.description == parsed_value.description
            assert r.parsed is parsed_value
            assert r.is_default == (parsed_value.is_default is True)

    def C13_implied(parsed_value, result):
        for r in result:
            assert r.name == parsed_value.name or (r.value is not None and r.name == f"{parsed_value.name}_{r.value}")
            assert iff(r.value is None, not parsed_value.value)

    def C14_names(parsed_value, result):
        # an x after the prefix 0x (in any case) is a wildcard
        if parsed_value.value:
            low = parsed_value.value.lower()
            if "x" in (parsed_value.value[2:].lower() if low.startswith("0x") else low):
                assert all(r.name == f"{parsed_value.name}_{r.value}" for r in result)
            else:
                assert all(r.name == parsed_value.name for r in result)

    def C13_reserved(parsed_value, result):
        if parsed_value.name.lower() == "reserved":
            assert len(result) == 0 and warned()

    def C26_kept(parsed_value, result):
        if parsed_value.name.lower() != "reserved":
            assert len(result) >= 1 and not warned()

    def C26_number(parsed_value, result):
        if not parsed_value.value and parsed_value.name.lower() != "reserved":
            assert len(result) == 1 and result[0].value is None and result[0].name == parsed_value.name


class combos:
    target = "svdsuite.process:_ProcessEnumeratedValueContainer._replace_x_combinations"
    args = ["self", "binary_str"]
    returns = "list[str]"
    warns = "none"
    trusted = "bounded: itertools.product over the wildcards; decided by the public-API search of C14 (all wildcard literals of up to 10 digits in thorough)"

    def ensures_some(binary_str, result):
        assert len(result) >= 1


class convert:
    target = "svdsuite.process:_ProcessEnumeratedValueContainer._convert_enumerated_value"
    args = ["self", "input_str"]
    may_raise = ["ProcessException"]
    warns = "none"

    def C14_plain(input_str, result):
        t = re.sub(r"\A#", "0b", input_str.lower())
        if t.startswith("0b"):
            if "x" not in t[2:].lower():
                # int() reads the digits with and without the prefix as the same number
                assert len(result) == 1 and (result[0] == int(t[2:], 2) or result[0] == int(t, 2) or result[0] == int(t, 0))
        elif t.startswith("0x"):
            assert len(result) == 1 and (result[0] == int(t, 16) or result[0] == int(t[2:], 16) or result[0] == int(t, 0))
        else:
            assert len(result) == 1 and result[0] == int(t)

    def C14_form(input_str, result):
        assert re.fullmatch(r"0x[0-9a-f]+|0b[01x]+|[0-9]+", re.sub(r"\A#", "0b", input_str.lower()))

    def C14_some(input_str, result):
        assert len(result) >= 1
