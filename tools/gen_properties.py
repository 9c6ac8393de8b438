"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
PR, RS, GR, MP, PA, SE, CV, MO = ("src/svdsuite/process.py", "src/svdsuite/resolve/resolver.py", "src/svdsuite/resolve/graph.py",
    "src/svdsuite/map.py", "src/svdsuite/parse.py", "src/svdsuite/serialize.py",
    "src/svdsuite/util/process_parse_model_convert.py", "src/svdsuite/model/process.py")
DEV = "every device description accepted by the library: any number of peripherals, clusters nested to any depth, registers and fields, any values of the optional elements, derivation and dim expansion included"
T = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), state=(), observe=("the processed device",)):
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
SMALL = "The tests process a few hundred fixed files of one or two peripherals; the claim is over "

p("C01", "Absolute addresses and the flattened register list",
  "In a processed device every register and cluster has as absolute address the base address of its enclosing peripheral plus the address offsets of all enclosing clusters plus its own offset. The flat register list of a peripheral contains exactly the registers found anywhere in its register/cluster tree, each once, ordered by absolute address and then name.",
  DEV, SMALL + "every tree shape and depth and every combination of offsets.", [PR, MO],
  [("recursive finalisation passes the absolute base down", PR + " _validate_and_finalize_registers_clusters / _validate_and_finalize_register_cluster"),
   ("recursive collection of registers", PR + " _extract_registers")])
p("C02", "Extents of clusters and peripherals",
  "In a processed device a cluster ends at the highest last byte of any of its children and its size is that end minus its base address plus one. The effective end and size of a peripheral are those of its registers and clusters in the same way; the specified end is the highest last byte of any of its address blocks and the specified size is the sum of the block sizes.",
  DEV, SMALL + "every number of children and blocks in every order, including blocks or children that contain each other.", [PR],
  [("maximum over children", PR + " _validate_and_finalize_register_cluster"), ("maximum and sum over blocks", PR + " _validate_and_finalize_peripheral")])
p("C03", "Inheritance of register properties",
  "Access, protection, reset value and reset mask of every peripheral, cluster and register of a processed device are the values it states itself (or takes from its derivation base), otherwise those of its nearest enclosing element that has one, otherwise the device's, whose own defaults are read-write, any, 0 and 0xFFFFFFFF. The access and write constraint of a field are its own, otherwise those of its register.",
  DEV, SMALL + "every subset of stated and omitted properties at every depth.", [PR],
  [("top-down completion of unset properties", PR + " _InheritProperties"), ("device defaults", PR + " _process_device")])
p("C04", "Register sizes and container size adjustment",
  "The size of a peripheral or cluster of a processed device is the largest size among its direct register and cluster children, where a child whose size is not a multiple of eight counts as zero and a child without a size counts with the nearest size stated above it (the device's, else 32). A register that states no size takes the adjusted size of its container, and a register that states one keeps it.",
  DEV, SMALL + "every nesting and every subset of levels that state a size.", [RS, PR],
  [("bottom-up maximum", RS + " _calculate_size, _get_parent_size_recursively, _finalize_*_node"), ("top-down completion", PR + " _InheritProperties")])
p("C05", "Attributes of derived elements",
  "Every attribute of an element with derivedFrom is the value the element states itself, and otherwise the value its base element has; name, addresses and offsets are the element's own, and interrupts and the header struct name of a peripheral are never inherited. The address blocks of a peripheral are its own ordered by offset, or its base's when it states none.",
  DEV, SMALL + "every subset of stated attributes on both sides of a derivation, and every chain of derivations.", [PR],
  [("own-or-base merge per element kind", PR + " _process_peripheral, _process_cluster, _process_register, _process_field")])
p("C06", "Which element a derivedFrom path names",
  "A derivedFrom path names the element of the same kind that it reaches from the siblings of the deriving element, otherwise the one it reaches from the peripherals of the device, never the deriving element itself, and independently of whether the base is declared before or after it or is itself derived. A derived element has its own children and copies of all children of its base, wherever the derivation chain ends, and a path that reaches several elements is rejected.",
  DEV + ", in every declaration order", SMALL + "every declaration order, every chain of derivations and every combination of levels.", [RS, GR],
  [("path search", RS + " _derived_from_path_resolving"), ("replication of the base's subtree", GR + " replicate_descendants"),
   ("rounds of placeholder resolution", RS + " resolve_peripherals")])
p("C07", "Invalid derivations and values end in the documented exception",
  "Processing a parsed device terminates and either returns a processed device or raises the processing exception of the library; no other exception escapes. A derivation cycle, a path that names nothing or a missing mandatory bit position is always rejected, and no device is returned in that case.",
  "every parsed device, valid or not: any derivation graph including self reference and cycles over several levels, dangling paths, contradictory dim, bit position or enumeration data",
  "Tests raise the exception for single hand-written causes; the claim excludes every other exception type for every input.", [PR, RS, GR],
  [("translation of resolver exceptions", PR + " _process_device"), ("cycle check on insertion", GR + " add_edge"),
   ("no-progress and unprocessed-node detection", RS + " resolve_peripherals")], over=("inputs", "histories"))
p("C08", "Dim expansion",
  "An element with dim n and a placeholder in its name expands to exactly n elements; the i-th has the placeholder in name and display name replaced by the i-th index and its offset (base address, address offset or bit position) increased by i times the increment, and is otherwise equal to the others. No element with an unexpanded placeholder and no template remains, and contradictory dim, name and display name combinations are rejected.",
  DEV, SMALL + "every dim, increment, index list and every nesting of expanded elements in expanded elements.", [PR, RS],
  [("name expansion", PR + " _ProcessDimension"), ("increment", PR + " _process_peripheral/_cluster/_register/_field"), ("node expansion", RS + " _process_dimable_node, _update_dim_node")])
p("C09", "Interpretation of dimIndex",
  "A dimIndex denotes the numbers m to n for 'm-n', the letters from the first to the second for 'X-Y', the listed identifiers for a comma separated list and 0 to dim-1 when absent. Anything else, a descending range and a count different from dim are rejected.",
  "every dimIndex string and every dim", "Tests use about fifteen index strings; the claim is over all strings and all counts.", [PR],
  [("pattern dispatch", PR + " _ProcessDimension._process_dim_index")])
p("C10", "Bit positions of fields",
  "However a field states its position (bitRange, lsb and msb, or bitOffset and bitWidth), the processed field has the least and most significant bit so denoted, moved by the dim increment, with bit offset equal to lsb, bit width equal to msb-lsb+1 and bit range equal to (msb, lsb). bitRange has priority over lsb/msb, which has priority over bitOffset/bitWidth; one missing half of a pair comes from the base field, a reversed bitRange is swapped with a warning, and a field without a complete position is rejected.",
  "every field with every subset of the position elements, stand-alone or derived, and all integer values", "Tests cover each notation with one or two values; the claim is over all subsets and all values.", [PR, MO],
  [("position computation", PR + " _process_field_msb_lsb(_with_increment)"), ("finalised notations", MO + " Field.from_intermediate_field")])
p("C11", "Fields of a register do not overlap and have unique names",
  "In a processed register no two fields share a name, and no two fields that are both readable or both writable share a bit; a register description that would violate this is rejected. Fields are listed in order of their least significant bit.",
  DEV, SMALL + "every number, order, position and access combination of fields.", [PR],
  [("pairwise check per access domain", PR + " _validate_and_finalize_fields")])
p("C12", "Names are unique within their scope",
  "In a processed device peripherals have pairwise different names and, within each peripheral and within each cluster, registers and clusters have pairwise different names, where a register of an alternate group counts with the group appended to its name. A description that would violate this is rejected, and one that does not is not rejected as a duplicate.",
  DEV, SMALL + "every scope of every tree, dim expanded and derived siblings included.", [PR],
  [("lookup tables per scope", PR + " _validate_and_finalize_peripherals, _validate_and_finalize_registers_clusters")])
p("C13", "Enumerated values are in range, unique and ordered",
  "In a processed field the enumerated values of each container lie between 0 and 2^width-1, are pairwise different and ascending, and no value or explicit name occurs that the description did not state or imply. Of entries with the same name or the same value only the first is kept, with a warning, and entries named 'reserved' or out of range are ignored with a warning.",
  "every field width and every list of enumerated values in every order", "Tests check a handful of lists; the claim is over every list, order and width.", [PR],
  [("seen names and values", PR + " _EnumeratedValueValidator.is_value_valid"), ("range filter", PR + " _validate_and_finalize_enum_values"), ("ordering", PR + " _process_enumerated_values")])
p("C14", "Decoding of enumerated value literals",
  "A decimal, hexadecimal (0x) or binary (0b or #) enumerated value literal denotes its number, and a binary literal with don't-care bits denotes exactly the numbers obtained by replacing every x by 0 or 1, each once and with the number appended to its name. Any other literal is rejected.",
  "every literal string and any number of don't-care bits", "Tests decode fewer than twenty literals; the claim is over all literals and all positions of don't-care bits.", [PR],
  [("literal decoding", PR + " _convert_enumerated_value, _process_binary_value_with_wildcard, _replace_x_combinations"), ("naming", PR + " _process_enumerated_value_resolve_wildcard")])
p("C15", "A default enumerated value covers exactly the remaining values",
  "When a container has a default enumerated value, the processed container has one entry for every value of the field's width: the explicitly stated ones unchanged and every other value as an entry named after the default with the default's description, and the default itself is gone. Without a default nothing is added, and a second default is rejected.",
  "every field width and every set of explicit values", "Tests use three-bit fields with one or two holes; the claim is over all widths and all sets.", [PR],
  [("complement expansion", PR + " _extend_enumerated_values_with_default")])
p("C16", "Usage of enumerated value containers",
  "A processed field has at most two enumerated value containers, their usages differ, and two containers are one for read and one for write; any other combination is rejected and a container without usage is for read and write. Containers are listed by usage and then number of values, and a derived container has the values of its base.",
  DEV, SMALL + "every combination of containers, usages and derivations.", [RS, PR],
  [("usage check", RS + " _finalize_field_node"), ("ordering", PR + " _validate_and_finalize_enum_value_containers")])
p("C17", "The order of the result does not depend on declaration order",
  "The peripherals of a processed device are ordered by base address and name, and the registers and clusters of each scope by address, alternate group (none first) and name. Reordering independent sibling declarations, or splitting them into several blocks of the same kind, leaves the processed device unchanged.",
  DEV + ", under every permutation of sibling declarations", SMALL + "every permutation of every description.", [PR, RS],
  [("sorting of every scope", PR + " _validate_and_finalize_peripherals, _validate_and_finalize_registers_clusters; " + RS + " _finalize_*_node")])
p("C18", "Address overlaps are warned about unless declared alternate",
  "Processing warns for every pair of peripherals (by their registers and by their address blocks), and of sibling registers or clusters outside alternate groups, that overlap in address, unless one is the declared alternate of the other, directly or through the chain of alternates that starts at the one with the higher address. It does not warn for pairs that do not overlap or are so declared.",
  DEV, SMALL + "every pair in every scope and every chain of alternates.", [PR],
  [("pairwise interval check", PR + " _check_peripheral_address_overlaps, _check_registers_clusters_address_overlaps"),
   ("closure of alternates", PR + " _compute_allowed_alternate_*_names")], observe=("emitted warnings",))
p("C19", "Serialising and parsing again is the identity",
  "Parsing the serialised form of a parsed device yields an equal device: same tree, same order and the same value for every attribute of every element. This holds for the string, bytes and file forms, pretty printed or not, with or without XML declaration.",
  "every device object the parser can produce", "Tests compare the text of single elements; the claim is over every combination of optional attributes of every element.", [SE, PA],
  [("one serializer per element", SE), ("one parse function per element", PA)], observe=("serialised XML", "the parsed device"))
p("C20", "A processed device converts to an equivalent parsed device",
  "Converting a processed device back gives a parsed device with the same tree in which every attribute that exists in both forms is equal (a field's position being given by lsb and msb, an enumerated value as its decimal text), no dim and no derivation remains, and every element refers to its containing element as parent. The converted device, if it has a peripheral, can be serialised and parsed again without loss.",
  "every processed device", "Tests convert a few devices and compare selected attributes; the claim is over all attributes of all elements.", [CV],
  [("one conversion function per element", CV)], observe=("the converted device",))
p("C21", "Reading of literals in the XML",
  "An integer literal in decimal, hexadecimal (0x), octal (0o) or binary (0b or #) notation, with or without sign, underscores or leading zeros in decimal, is read as its number; true/false in any case and 1/0 are read as booleans; enumeration literals are read as the member they name. Any other text raises an error or, for access, gives no value with a warning; nothing is read as a different value.",
  "every text of every typed element and attribute", "Tests try about thirty texts; the claim is over all texts.", [PA, "src/svdsuite/model/types.py"],
  [("integer and boolean conversion", PA + " _to_int, _to_bool, _to_none_or_bool"), ("enumeration lookup", "src/svdsuite/model/types.py from_str")], observe=("the parsed device",))
p("C22", "The parsed tree mirrors the XML",
  "The parsed device has one element per corresponding XML element, in document order, with each attribute taken from the last sub-element or attribute of its own name, absent when the XML has none, and each element refers to its containing element as parent. A missing mandatory element is reported by the parser exception, except for those with a documented substitute (device description, schema location, interrupt value, address block offset), which are warned about or defaulted.",
  "every well-formed XML document with an SVD device", "Tests check every element once with typical values; the claim is over every presence/absence combination.", [PA],
  [("one parse function per element", PA), ("element and attribute lookup", PA + " _parse_element_text, _parse_element_attribute")], observe=("the parsed device",))
p("C23", "Processing does not change its input and is repeatable",
  "Processing a parsed device leaves every attribute of every element of the parsed device as it was, and processing it again, in the same or another process, gives an equal result. Each element of the processed device refers to the parsed element it stems from, and converting or mapping a processed device does not change it.",
  "every parsed device and every sequence of processing, conversion, mapping and serialising operations on it", "Tests process each input once and look at the result only.", [PR, RS, CV, MP],
  [("intermediate objects instead of in-place changes", PR + ", " + RS)], over=("inputs", "histories"))
p("C24", "The peripheral/register map agrees with the processed device",
  "The map has one entry per peripheral, ordered by address, whose registers are exactly all registers of the peripheral in tree order with their absolute addresses and properties. The allocated range of an entry reaches from the lowest first byte to the highest last byte of the peripheral's address blocks.",
  "every processed device", "Tests map two devices; the claim is over every tree and every set of address blocks.", [MP],
  [("map construction", MP)], observe=("the map",))
p("C25", "Validation agrees with the chosen schema",
  "Validation accepts a document if and only if the CMSIS-SVD schema of the requested version accepts it, whichever of the three input forms is used; a rejected document raises the schema error when exceptions are requested and returns false otherwise. Without a version the newest supported schema decides.",
  "every document, schema version and input form", "Tests validate single documents per version; the claim is over all combinations of version, form and error mode.", ["src/svdsuite/validate.py"],
  [("schema selection and validation", "src/svdsuite/validate.py _validate"), ("newest version", "src/svdsuite/validate.py get_latest")], observe=("return value or exception",))
p("C26", "Nothing is dropped silently",
  "Every peripheral, cluster, register and field of the expanded description appears in the processed device unless it is ignored for a documented reason (name 'reserved' for registers and fields, a size that is not a multiple of eight, or no remaining content), and each ignored element is named in a warning or reported by kind. Documented reasons are the only ones, and each applies to every element it describes.",
  DEV, SMALL + "every element of every tree.", [PR],
  [("filters of the finalisation", PR + " _validate_and_finalize_*")], observe=("the processed device", "emitted warnings"))
p("C27", "Device metadata, CPU and SAU defaults",
  "The device metadata, CPU and SAU configuration of a processed device equal those of the parsed device, where omitted CPU feature flags are false except the vector table register which is true, CM0+ reads as CM0PLUS, omitted SAU switches are true and SAU protection when disabled is secure. Address blocks without protection get any; interrupts are ordered by number.",
  "every device description with every subset of the optional metadata", "Tests set each attribute in one or two files; the claim is over all subsets and values.", [PR],
  [("CPU and SAU processing", PR + " _process_cpu, _process_sau_regions_config, _process_sau_regions"), ("device construction", PR + " _process_device; " + MO + " Device.from_intermediate_device")])
p("C28", "All entry points and encodings give the same device",
  "Reading the same document from a file, from bytes or from a string gives equal parsed devices, processed devices and maps, whatever encoding the document declares, and non-ASCII text is preserved. Documents that declare a wrong encoding are still read through a fallback with a warning, and a document that no encoding can read raises the original error.",
  "every document in every declared encoding and every entry point", "Tests read ASCII documents in UTF-8; the claim is over all texts, encodings and entry points.", ["src/svdsuite/util/xml_parse.py", PA, PR, MP],
  [("fallback parsing", "src/svdsuite/util/xml_parse.py safe_parse, safe_fromstring"), ("string encoding", "src/svdsuite/util/xml_parse.py encode_xml_str")], over=("inputs", "configurations"), observe=("the parsed device", "the processed device", "the map"))

import sys
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for t in T:
        assert len(t["title"]) <= 80, t["title"]
        f.write(json.dumps(t) + "\n")
print(len(T))
