"""Contracts of the serializers: the element each one makes mirrors the object, as the parser's contracts read elements
(c_parse.mirrors_X).  The parser returns an object that mirrors the element it reads, so the two agree attribute by
attribute.  Precondition (c_clean, ensured by the parser's contracts): texts are free of surrounding
blanks where the parser strips them."""
from svdsuite.model.types import *
from svdsuite.model.parse import *
from lxml.etree import _Element
from contracts.c_parse import mirrors_region, mirrors_sau, mirrors_cpu, mirrors_value, mirrors_index, mirrors_block, mirrors_interrupt
from contracts.c_clean import clean_region, clean_sau, clean_cpu, clean_value, clean_index, clean_container, clean_field, clean_register, clean_cluster
from contracts.c_clean import clean_interrupt, clean_peripheral, clean_device
from contracts.c_xml import mirrors_device, in_utf8, file_made
from contracts.c_parse import text, raw, attribute, int_of, properties
from contracts.c_parse import mirrors_constraint, mirrors_container, mirrors_field, mirrors_register, mirrors_cluster, mirrors_peripheral


# ---------------------------------------------------------------------------------------------------- serializers
class region:
    target = "svdsuite.serialize:SVDSauRegionSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "region"
    props = ["C19"]

    def requires(self):
        assert clean_region(self.region)

    def C19_mirrors(self, result):
        assert mirrors_region(self.region, result)


class sau:
    target = "svdsuite.serialize:SVDSauRegionsConfigSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "sauRegionsConfig"
    props = ["C19"]

    def requires(self):
        assert clean_sau(self.config)

    def C19_mirrors(self, result):
        assert mirrors_sau(self.config, result)


class cpu:
    target = "svdsuite.serialize:SVDCPUSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "cpu"
    props = ["C19"]

    def requires(self):
        assert clean_cpu(self.cpu)

    def C19_mirrors(self, result):
        assert mirrors_cpu(self.cpu, result)


class enumerated_value:
    target = "svdsuite.serialize:SVDEnumeratedValueSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "enumeratedValue"
    props = ["C19"]

    def requires(self):
        assert clean_value(self.enumerated_value)

    def C19_mirrors(self, result):
        assert mirrors_value(self.enumerated_value, result)


class index:
    target = "svdsuite.serialize:SVDDimArrayIndexSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "dimArrayIndex"
    props = ["C19"]

    def requires(self):
        assert clean_index(self.dim_array_index)

    def C19_mirrors(self, result):
        assert mirrors_index(self.dim_array_index, result)


class block:
    target = "svdsuite.serialize:SVDAddressBlockSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "addressBlock"
    props = ["C19"]

    def C19_mirrors(self, result):
        assert mirrors_block(self.block, result)


class interrupt:
    target = "svdsuite.serialize:SVDInterruptSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "interrupt"
    props = ["C19"]

    def requires(self):
        assert clean_interrupt(self.interrupt)

    def C19_mirrors(self, result):
        assert mirrors_interrupt(self.interrupt, result)


class constraint:
    target = "svdsuite.serialize:SVDWriteConstraintSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "writeConstraint"
    props = ["C19"]

    def C19_mirrors(self, result):
        assert mirrors_constraint(self.constraint, result)


class container:
    target = "svdsuite.serialize:SVDEnumeratedValueContainerSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "enumeratedValues"
    props = ["C19"]

    def requires(self):
        assert clean_container(self.value)

    def C19_mirrors(self, result):
        assert mirrors_container(self.value, result)


class field:
    target = "svdsuite.serialize:SVDFieldSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "field"
    props = ["C19"]

    def requires(self):
        assert clean_field(self.field)

    def C19_mirrors(self, result):
        assert mirrors_field(self.field, result)


class register:
    target = "svdsuite.serialize:SVDRegisterSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "register"
    props = ["C19"]

    def requires(self):
        assert clean_register(self.register)

    def C19_mirrors(self, result):
        assert mirrors_register(self.register, result)


class cluster:
    target = "svdsuite.serialize:SVDClusterSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "cluster"
    props = ["C19"]

    def requires(self):
        assert clean_cluster(self.cluster)

    def C19_mirrors(self, result):
        assert mirrors_cluster(self.cluster, result)


class peripheral:
    target = "svdsuite.serialize:SVDPeripheralSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "peripheral"
    props = ["C19"]

    def requires(self):
        assert clean_peripheral(self.peripheral)

    def C19_mirrors(self, result):
        assert mirrors_peripheral(self.peripheral, result)


# ---------------------------------------------------------------------------------------------------- text form (assumed)
@ghost
def written(b: bytes) -> _Element:
    """the element the text was made from; the parser reads an element with the same tags, attributes, texts and children"""
    ...


class tostring:
    target = "lxml.etree:tostring"
    args = ["root", "pretty_print", "xml_declaration", "encoding"]
    warns = "none"
    trusted = "assumed: lxml writes the element"

    def ensures_written(root, encoding, result):
        assert written(result) is root
        assert implies(encoding == "utf-8", written(in_utf8(result.decode())) is root)


class to_content:
    target = "svdsuite.serialize:Serializer.device_to_svd_content"
    args = ["device", "pretty_print", "xml_declaration"]
    warns = "none"
    inline = True
    props = ["C19"]

    def requires(device):
        assert clean_device(device)

    def C19_content(device, result):
        assert implies(len(device.peripherals) > 0, mirrors_device(device, written(result)))


class to_text:
    target = "svdsuite.serialize:Serializer.device_to_svd_str"
    args = ["device", "pretty_print"]
    warns = "none"
    props = ["C19"]

    def requires(device):
        assert clean_device(device)

    def C19_str(device, result):
        assert implies(len(device.peripherals) > 0, mirrors_device(device, written(in_utf8(result))))


class to_file:
    target = "svdsuite.serialize:Serializer.device_to_svd_file"
    args = ["path", "device", "pretty_print", "xml_declaration"]
    warns = "none"
    modifies = ["File.chunks"]
    props = ["C19"]

    def requires(device):
        assert clean_device(device)

    def C19_file(path, device):
        f = file_made(path)
        assert len(f.chunks) == 1
        assert implies(len(device.peripherals) > 0, mirrors_device(device, written(f.chunks[0])))


class device:
    target = "svdsuite.serialize:SVDDeviceSerializer.to_xml"
    args = ["self"]
    warns = "none"
    result_tag = "device"
    props = ["C19"]

    def requires(self):
        assert clean_device(self.device)

    def C19_texts(self, result):
        d = self.device
        e = result
        assert d.schema_version == attribute(e, "schemaVersion") and d.vendor == text(e, "vendor") and d.vendor_id == text(e, "vendorID")
        assert d.name == text(e, "name") and d.series == text(e, "series") and d.version == text(e, "version") and d.license_text == raw(e, "licenseText")
        assert d.header_system_filename == text(e, "headerSystemFilename") and d.header_definitions_prefix == text(e, "headerDefinitionsPrefix")
        assert d.description == raw(e, "description")

    def C19_numbers(self, result):
        d = self.device
        e = result
        assert int_of(d.address_unit_bits, text(e, "addressUnitBits")) and int_of(d.width, text(e, "width"))
        assert properties(d, e)

    def C19_cpu(self, result):
        c = result.find("cpu")
        assert (self.device.cpu is None) == (c is None)
        assert implies(c is not None, mirrors_cpu(self.device.cpu, c))

    def C19_peripherals(self, result):
        """a device without peripherals: known finding C19-no-peripherals"""
        p = result.find("peripherals")
        assert (p is None) == (len(self.device.peripherals) == 0)
        if p is not None:
            els = p.findall("peripheral")
            assert len(self.device.peripherals) == len(els)
            assert all(mirrors_peripheral(self.device.peripherals[i], els[i]) for i in range(len(els)))

    def C19_schema_location(self, result):
        e = result
        assert "xs" in e.nsmap
        assert attribute(e, f"{{{e.nsmap['xs']}}}noNamespaceSchemaLocation") == self.device.xs_no_namespace_schema_location
