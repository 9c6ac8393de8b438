"""Contracts of the dim expansion (class _ProcessDimension and Process._extract_and_process_dimension)."""
import re
from svdsuite.model.types import *
from svdsuite.model.parse import *
from svdsuite.model.process import *


def is_numbers(d):
    return re.fullmatch(r"[0-9]+\-[0-9]+", d) is not None


def is_letters(d):
    return re.fullmatch(r"[A-Z]-[A-Z]", d) is not None


def is_list(d):
    return re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", d) is not None


def is_single(d):
    return re.fullmatch(r"[_0-9a-zA-Z]+", d) is not None


def index_ok(dim, d):
    """the index text d denotes exactly dim indices"""
    if d is None:
        return True
    if is_numbers(d):
        return int(d.split("-")[0]) <= int(d.split("-")[1]) and int(d.split("-")[1]) - int(d.split("-")[0]) + 1 == dim
    if is_letters(d):
        return ord(d.split("-")[0]) < ord(d.split("-")[1]) and ord(d.split("-")[1]) - ord(d.split("-")[0]) + 1 == dim
    if is_list(d):
        return len(re.sub(r"\s+", "", d).split(",")) == dim
    if is_single(d):
        return dim == 1
    return False


def index_at(d, i):
    if d is None:
        return str(i)
    if is_numbers(d):
        return str(int(d.split("-")[0]) + i)
    if is_letters(d):
        return chr(ord(d.split("-")[0]) + i)
    if is_list(d):
        return re.sub(r"\s+", "", d).split(",")[i]
    return d


class dim_index:
    target = "svdsuite.process:_ProcessDimension._process_dim_index"
    args = ["self", "dim", "dim_index"]
    warns = "none"

    def raises_ProcessException(dim, dim_index):
        return dim is None or dim < 1 or not index_ok(dim, dim_index)

    def C09_indices(dim, dim_index, result):
        assert len(result) == dim
        for i in range(dim):
            assert result[i] == index_at(dim_index, i)


class dim_array:
    target = "svdsuite.process:_ProcessDimension._process_dim_array"
    args = ["self", "name", "display_name", "dim"]
    warns = "none"

    def requires(name, display_name, dim):
        assert dim >= 0

    def raises_ProcessException(name, display_name, dim):
        return display_name is not None and "%s" in display_name and "[%s]" not in display_name

    def C08_names(name, display_name, dim, result):
        assert len(result[0]) == dim
        assert len(result[1]) == dim
        for i in range(dim):
            assert result[0][i] == name.replace("[%s]", str(i))
            assert result[1][i] == (None if display_name is None else display_name.replace("[%s]", str(i)))


class dim_list:
    target = "svdsuite.process:_ProcessDimension._process_dim_list"
    args = ["self", "name", "display_name", "dim", "dim_index"]
    warns = "none"

    def requires(name, display_name, dim, dim_index):
        assert dim >= 1

    def raises_ProcessException(name, display_name, dim, dim_index):
        return display_name is not None and "[%s]" in display_name or not index_ok(dim, dim_index)

    def C08_names(name, display_name, dim, dim_index, result):
        assert len(result[0]) == dim
        assert len(result[1]) == dim
        for i in range(dim):
            assert result[0][i] == name.replace("%s", index_at(dim_index, i))
            assert result[1][i] == (None if display_name is None else display_name.replace("%s", index_at(dim_index, i)))


def dim_contradiction(name, display_name, dim, dim_index, element_type):
    """combinations of dim, dimIndex, name and display name that have to be rejected"""
    if dim is None:
        return False
    if dim < 1:
        return True
    if "[%s]" in name:
        return element_type is SVDField or (display_name is not None and "%s" in display_name and "[%s]" not in display_name)
    if "%s" in name:
        return element_type is SVDPeripheral or (display_name is not None and "[%s]" in display_name) or not index_ok(dim, dim_index)
    return True


def expanded_name(name, dim, dim_index, i):
    if dim is None:
        return name
    if "[%s]" in name:
        return name.replace("[%s]", str(i))
    return name.replace("%s", index_at(dim_index, i))


def expanded_display_name(name, display_name, dim, dim_index, i):
    if display_name is None:
        return None
    if dim is None:
        return display_name
    if "[%s]" in name:
        return display_name.replace("[%s]", str(i))
    return display_name.replace("%s", index_at(dim_index, i))


class process_dim:
    target = "svdsuite.process:_ProcessDimension.process_dim"
    args = ["self", "name", "display_name", "dim", "dim_index", "element_type"]
    warns = "none"

    def raises_ProcessException(name, display_name, dim, dim_index, element_type):
        return dim_contradiction(name, display_name, dim, dim_index, element_type)

    def C08_expansion(name, display_name, dim, dim_index, element_type, result):
        n = dim if dim is not None else 1
        assert len(result[0]) == n
        assert len(result[1]) == n
        for i in range(n):
            assert result[0][i] == expanded_name(name, dim, dim_index, i)
            assert result[1][i] == expanded_display_name(name, display_name, dim, dim_index, i)


def own_dim(p, base):
    return p.dim if p.dim is not None else base.dim if base is not None else None


def own_index(p, base):
    return p.dim_index if p.dim_index is not None else base.dim_index if base is not None else None


def own_display(p, base):
    if isinstance(p, SVDRegister):
        if p.display_name is not None:
            return p.display_name
        if isinstance(base, IRegister):
            return base.display_name
    return None


def effective_dim(p, base):
    """a dim without a placeholder in the name has no effect"""
    return own_dim(p, base) if "%s" in p.name else None


class extract_dimension:
    target = "svdsuite.process:Process._extract_and_process_dimension"
    args = ["self", "parsed_element", "base_element"]

    def raises_ProcessException(parsed_element, base_element):
        d = effective_dim(parsed_element, base_element)
        x = own_display(parsed_element, base_element)
        if d is None:
            return "%s" in parsed_element.name or (x is not None and "%s" in x)
        return dim_contradiction(parsed_element.name, x, d, own_index(parsed_element, base_element), type(parsed_element))

    def C08_elements(parsed_element, base_element, result):
        d = effective_dim(parsed_element, base_element)
        x = own_display(parsed_element, base_element)
        ix = own_index(parsed_element, base_element)
        n = d if d is not None else 1
        assert result[0] == (d is not None)
        assert len(result[1]) == n
        assert len(result[2]) == n
        for i in range(n):
            assert result[1][i] == expanded_name(parsed_element.name, d, ix, i)
            assert result[2][i] == expanded_display_name(parsed_element.name, x, d, ix, i)

    def C26_unused_dim_is_warned(parsed_element, base_element, result):
        if own_dim(parsed_element, base_element) is not None and "%s" not in parsed_element.name:
            assert warned()
