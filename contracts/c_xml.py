"""Contracts of reading XML (util/xml_parse.py), the entry points and validation. lxml is assumed (stubs/lxml)."""
import os
from io import File
from lxml.etree import _Element, _ElementTree, XMLParser, XMLSchema
from svdsuite.model.parse import SVDDevice
from contracts.c_map import own_map
from contracts.c_parse import mirrors_cpu, mirrors_peripheral, text, raw, attribute, int_of, properties


def mirrors_device(d, e):
    c = e.find("cpu")
    p = e.find("peripherals")
    d0 = raw(e, "description")
    return (
        d.schema_version == attribute(e, "schemaVersion") and d.vendor == text(e, "vendor") and d.vendor_id == text(e, "vendorID")
        and d.name == text(e, "name") and d.series == text(e, "series") and d.version == text(e, "version") and d.license_text == raw(e, "licenseText")
        and d.header_system_filename == text(e, "headerSystemFilename") and d.header_definitions_prefix == text(e, "headerDefinitionsPrefix")
        and int_of(d.address_unit_bits, text(e, "addressUnitBits")) and int_of(d.width, text(e, "width")) and properties(d, e)
        and d.description == ("" if d0 is None else d0)
        and (d.cpu is None) == (c is None) and implies(c is not None, mirrors_cpu(d.cpu, c))
        and p is not None and len(d.peripherals) == len(p.findall("peripheral"))
        and all(mirrors_peripheral(d.peripherals[i], p.findall("peripheral")[i]) for i in range(len(d.peripherals)))
    )


# ---------------------------------------------------------------------------------------------------- lxml (assumed)
@ghost
def syntax_error(source: object, encoding: str | None, recover: bool) -> bool:
    """lxml rejects the source, read in the encoding (None: the declared one)"""
    ...


@ghost
def undecodable(source: object, encoding: str | None, recover: bool) -> bool:
    ...


@ghost
def tree_of(source: object, encoding: str | None, recover: bool) -> _ElementTree:
    ...


class parse:
    target = "lxml.etree:parse"
    args = ["source", "parser"]
    warns = "none"
    trusted = "assumed: lxml, what a source holds does not change between attempts"

    def raises_XMLSyntaxError(source, parser):
        return syntax_error(source, parser.encoding, parser.recover)

    def raises_OSError(source, parser):
        return not syntax_error(source, parser.encoding, parser.recover) and undecodable(source, parser.encoding, parser.recover)

    def ensures_tree(source, parser, result):
        assert result is tree_of(source, parser.encoding, parser.recover)


ENCODINGS = ("utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii")


def reads(source, encoding, recover):
    return not syntax_error(source, encoding, recover) and not undecodable(source, encoding, recover)


def some_reads(source):
    return reads(source, None, False) or any(reads(source, e, False) for e in ENCODINGS) or any(reads(source, e, True) for e in ENCODINGS)


def chosen(source):
    """strictly as declared, then strictly in a common encoding, then leniently"""
    if reads(source, None, False):
        return tree_of(source, None, False)
    for e in ENCODINGS:
        if reads(source, e, False):
            return tree_of(source, e, False)
    for e in ENCODINGS:
        if reads(source, e, True):
            return tree_of(source, e, True)
    return tree_of(source, None, False)


class safe_parse:
    target = "svdsuite.util.xml_parse:safe_parse"
    args = ["path_or_file"]
    types = {"path_or_file": "object"}
    props = ["C28"]

    def raises_XMLSyntaxError(path_or_file):
        return not some_reads(path_or_file) and syntax_error(path_or_file, None, False)

    def raises_OSError(path_or_file):
        return not some_reads(path_or_file) and not syntax_error(path_or_file, None, False)

    def C28_chosen(path_or_file, result):
        assert result is chosen(path_or_file)

    def C28_warned(path_or_file, result):
        assert iff(warned(), not reads(path_or_file, None, False))


# ---------------------------------------------------------------------------------------------------- bytes
class fromstring:
    target = "lxml.etree:fromstring"
    args = ["text", "parser"]
    warns = "none"
    trusted = "assumed: lxml; bytes that cannot be decoded are a syntax error"

    def raises_XMLSyntaxError(text, parser):
        return syntax_error(text, parser.encoding, parser.recover) or undecodable(text, parser.encoding, parser.recover)

    def ensures_root(text, parser, result):
        assert result is tree_of(text, parser.encoding, parser.recover).getroot()


class getroot:
    target = "lxml.etree:_ElementTree.getroot"
    args = ["self"]
    pure = True
    warns = "none"
    trusted = "assumed: lxml"


class getroottree:
    target = "lxml.etree:_Element.getroottree"
    args = ["self"]
    pure = True
    warns = "none"
    trusted = "assumed: lxml; of a root element, the tree with that root"

    def ensures_root(self, result):
        assert result.getroot() is self


class safe_fromstring:
    target = "svdsuite.util.xml_parse:safe_fromstring"
    args = ["content"]
    props = ["C28"]

    def raises_XMLSyntaxError(content):
        return not some_reads(content)

    def C28_chosen(content, result):
        assert result is chosen(content).getroot()

    def C28_warned(content, result):
        assert iff(warned(), not reads(content, None, False))


@ghost
def in_utf8(text: str) -> bytes:
    ...


class encode_xml_str:
    target = "svdsuite.util.xml_parse:encode_xml_str"
    args = ["xml_str"]
    warns = "none"
    trusted = "assumed: the same document in UTF-8 (bounded: C28)"

    def ensures_utf8(xml_str, result):
        assert result == in_utf8(xml_str)


# ---------------------------------------------------------------------------------------------------- entry points
PARENTS = ["SVDEnumeratedValue.parent", "SVDEnumeratedValueContainer.parent", "SVDWriteConstraint.parent", "SVDDimArrayIndex.parent", "SVDField.parent",
           "SVDRegister.parent", "SVDCluster.parent", "SVDAddressBlock.parent", "SVDInterrupt.parent", "SVDPeripheral.parent",
           "SVDSauRegion.parent", "SVDSauRegionsConfig.parent", "SVDCPU.parent"]
INHERITED = ["IField.access", "IField.write_constraint", "IRegister.size", "IRegister.access", "IRegister.protection", "IRegister.reset_value", "IRegister.reset_mask",
             "ICluster.size", "ICluster.access", "ICluster.protection", "ICluster.reset_value", "ICluster.reset_mask",
             "IPeripheral.size", "IPeripheral.access", "IPeripheral.protection", "IPeripheral.reset_value", "IPeripheral.reset_mask"]


class parser_from_file:
    target = "svdsuite.parse:Parser.from_svd_file"
    args = ["cls", "path"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError", "OSError"]
    inline = True
    modifies = PARENTS
    props = ["C28"]

    def C28_parsed(path, result):
        assert mirrors_device(result.get_parsed_device(), chosen(path).getroot())

    def C28_warned(path, result):
        assert implies(not reads(path, None, False), warned())


class parser_from_content:
    target = "svdsuite.parse:Parser.from_xml_content"
    args = ["cls", "content"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError"]
    inline = True
    modifies = PARENTS
    props = ["C28"]

    def C28_parsed(content, result):
        assert mirrors_device(result.get_parsed_device(), chosen(content).getroot())

    def C28_warned(content, result):
        assert implies(not reads(content, None, False), warned())


class parser_from_str:
    target = "svdsuite.parse:Parser.from_xml_str"
    args = ["xml_str"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError"]
    inline = True
    modifies = PARENTS
    props = ["C28"]

    def C28_parsed(xml_str, result):
        assert mirrors_device(result.get_parsed_device(), chosen(in_utf8(xml_str)).getroot())


class resolver_graph:
    target = "svdsuite.resolve.graph:ResolverGraph.__init__"
    args = ["self"]
    warns = "none"
    trusted = "assumed: rustworkx, an empty graph"


class resolver_logger:
    target = "svdsuite.resolve.logger:ResolverLogger.__init__"
    args = ["self", "resolver_logging_file_path", "resolver_graph"]
    warns = "none"
    trusted = "assumed: logging has no effect on the result"


class process_from_file:
    target = "svdsuite.process:Process.from_svd_file"
    args = ["cls", "path", "resolver_logging_file_path"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError", "OSError", "ProcessException", "ValueError"]
    inline = True
    modifies = PARENTS + INHERITED
    props = ["C28"]

    def C28_processed(path, result):
        assert mirrors_device(result.get_processed_device().parsed, chosen(path).getroot())

    def C28_warned(path, result):
        assert implies(not reads(path, None, False), warned())


class process_from_content:
    target = "svdsuite.process:Process.from_xml_content"
    args = ["cls", "content", "resolver_logging_file_path"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError", "ProcessException", "ValueError"]
    inline = True
    modifies = PARENTS + INHERITED
    props = ["C28"]

    def C28_processed(content, result):
        assert mirrors_device(result.get_processed_device().parsed, chosen(content).getroot())


class process_from_str:
    target = "svdsuite.process:Process.from_xml_str"
    args = ["cls", "xml_str", "resolver_logging_file_path"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError", "ProcessException", "ValueError"]
    inline = True
    modifies = PARENTS + INHERITED
    props = ["C28"]

    def C28_processed(xml_str, result):
        assert mirrors_device(result.get_processed_device().parsed, chosen(in_utf8(xml_str)).getroot())


# ---------------------------------------------------------------------------------------------------- validation
class os_join:
    target = "os.path:join"
    args = ["a", "b", "c"]
    pure = True
    warns = "none"
    trusted = "assumed: os.path"


class os_dirname:
    target = "os.path:dirname"
    args = ["path"]
    pure = True
    warns = "none"
    trusted = "assumed: os.path"


class os_exists:
    target = "os.path:exists"
    args = ["path"]
    pure = True
    warns = "none"
    trusted = "assumed: the file system does not change meanwhile"


@ghost
def file_at(path: str) -> File:
    ...


@ghost
def file_made(path: str) -> File:
    ...


class open_file:
    target = "io:open"
    args = ["path", "mode"]
    warns = "none"
    trusted = "assumed: a file that exists can be read, a file can be written"

    def requires(path, mode):
        assert mode == "rb" or mode == "wb"

    def ensures_file(path, mode, result):
        assert implies(mode == "rb", result is file_at(path))
        assert implies(mode == "wb", result is file_made(path) and len(result.chunks) == 0)


class file_write:
    target = "io:File.write"
    args = ["self", "data"]
    warns = "none"
    modifies = ["File.chunks"]
    trusted = "assumed: a file holds what was written to it"

    def ensures_written(self, data):
        n = len(old(self.chunks))
        assert len(self.chunks) == n + 1 and self.chunks[n] == data
        assert all(self.chunks[i] == old(self.chunks)[i] for i in range(n))


@ghost
def accepts(schema: _ElementTree, document: _ElementTree) -> bool:
    ...


class schema_validate:
    target = "lxml.etree:XMLSchema.validate"
    args = ["self", "etree"]
    warns = "none"
    trusted = "assumed: lxml decides what a schema accepts"

    def ensures_accepts(self, etree, result):
        assert result == accepts(self.etree, etree)


class schema_assert:
    target = "lxml.etree:XMLSchema.assertValid"
    args = ["self", "etree"]
    warns = "none"
    trusted = "assumed: lxml, as validate"

    def raises_DocumentInvalid(self, etree):
        return not accepts(self.etree, etree)


def schema_path(version):
    return os.path.join(os.path.dirname("svdsuite/validate.py"), "schema", f"{version.value}.xsd")


def readable(path):
    return os.path.exists(path) and some_reads(file_at(path))


class validate_tree:
    target = "svdsuite.validate:Validator._validate"
    args = ["tree", "get_exception", "schema_version"]
    props = ["C25"]

    def raises_ValidatorException(schema_version):
        return not os.path.exists(schema_path(schema_version))

    def raises_DocumentInvalid(tree, get_exception, schema_version):
        return readable(schema_path(schema_version)) and get_exception and not accepts(chosen(file_at(schema_path(schema_version))), tree)

    def only_raises_XMLSyntaxError(schema_version):
        return not readable(schema_path(schema_version))

    def only_raises_OSError(schema_version):
        return not readable(schema_path(schema_version))

    def C25_agrees(tree, get_exception, schema_version, result):
        assert result == accepts(chosen(file_at(schema_path(schema_version))), tree)
        assert implies(get_exception, result)


def verdict(document, version):
    return accepts(chosen(file_at(schema_path(version))), document)


class validate_file:
    target = "svdsuite.validate:Validator.validate_xml_file"
    args = ["path", "get_exception", "schema_version"]
    props = ["C25"]
    may_raise = ["XMLSyntaxError", "OSError"]

    def only_raises_ValidatorException(schema_version):
        return not os.path.exists(schema_path(schema_version))

    def only_raises_DocumentInvalid(path, get_exception, schema_version):
        return get_exception and not verdict(chosen(path), schema_version)

    def C25_agrees(path, get_exception, schema_version, result):
        assert result == verdict(chosen(path), schema_version)
        assert implies(get_exception, result)


class validate_content:
    target = "svdsuite.validate:Validator.validate_xml_content"
    args = ["content", "get_exception", "schema_version"]
    props = ["C25"]
    may_raise = ["XMLSyntaxError", "OSError"]

    def only_raises_ValidatorException(schema_version):
        return not os.path.exists(schema_path(schema_version))

    def only_raises_DocumentInvalid(content, get_exception, schema_version):
        return get_exception and not verdict(chosen(content).getroot().getroottree(), schema_version)

    def C25_agrees(content, get_exception, schema_version, result):
        assert result == verdict(chosen(content).getroot().getroottree(), schema_version)
        assert implies(get_exception, result)


class validate_str:
    target = "svdsuite.validate:Validator.validate_xml_str"
    args = ["xml_str", "get_exception", "schema_version"]
    props = ["C25"]
    may_raise = ["XMLSyntaxError", "OSError"]

    def only_raises_ValidatorException(schema_version):
        return not os.path.exists(schema_path(schema_version))

    def only_raises_DocumentInvalid(xml_str, get_exception, schema_version):
        return get_exception and not verdict(chosen(in_utf8(xml_str)).getroot().getroottree(), schema_version)

    def C25_agrees(xml_str, get_exception, schema_version, result):
        assert result == verdict(chosen(in_utf8(xml_str)).getroot().getroottree(), schema_version)
        assert implies(get_exception, result)


# ---------------------------------------------------------------------------------------------------- maps
class map_from_file:
    target = "svdsuite.map:PeripheralRegisterMap.from_svd_file"
    args = ["cls", "path", "resolver_logging_file_path"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError", "OSError", "ProcessException", "ValueError"]
    modifies = PARENTS + INHERITED

    def C24_C28_map(path, result):
        assert own_map(result.peripheral_map)

    def C28_warned(path, result):
        assert implies(not reads(path, None, False), warned())


class map_from_content:
    target = "svdsuite.map:PeripheralRegisterMap.from_xml_content"
    args = ["cls", "content", "resolver_logging_file_path"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError", "ProcessException", "ValueError"]
    modifies = PARENTS + INHERITED

    def C24_C28_map(content, result):
        assert own_map(result.peripheral_map)


class map_from_str:
    target = "svdsuite.map:PeripheralRegisterMap.from_xml_str"
    args = ["cls", "xml_str", "resolver_logging_file_path"]
    may_raise = ["ParserException", "NotImplementedError", "XMLSyntaxError", "ProcessException", "ValueError"]
    modifies = PARENTS + INHERITED

    def C24_C28_map(xml_str, result):
        assert own_map(result.peripheral_map)
