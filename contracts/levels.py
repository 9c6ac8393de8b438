"""What part of each property the obligations decide, and what stays bounded (read by tools/gen_manifest.py)."""
NOTES = {
    "C01": ("proof", "proved: absolute addresses and the flat register list of peripherals and clusters, for every tree, in process.py; bounded: that the resolver hands over the right tree"),
    "C02": ("proof", "proved: ends and sizes of clusters and peripherals, effective and specified"),
    "C03": ("proof", "proved: device defaults, inheritance through every tree (loop invariants over a tree of elements), field access, and that the final model keeps the values; assumed: the resolver returns a forest"),
    "C04": ("proof", "proved: the size of every finalised element (effective size and maximum of what lies below, siblings included) over the resolver's element graph, kept by the later phases; assumed: the graph operations of rustworkx, children fit their parent's level; bounded: building the graph"),
    "C05": ("proof", "proved: attributes of processed elements (own value, else the base's) for every element kind, kept by the final model"),
    "C06": ("proof", "proved: a derived element is processed with its processed base, only derived or expanded elements change kind, the base of a finalised element is the element its derivation edge points to; assumed: graph operations, order of processing; bounded: path lookup"),
    "C07": ("proof", "proved: which conditions can raise ProcessException or ValueError in finalisation, that the resolver's exceptions are translated; assumed: the exceptions the resolver can raise; bounded: the resolver itself and malformed input"),
    "C08": ("proof", "proved: number, names, offsets and dim metadata of expanded elements; assumed: graph operations; proved also: the resolver processes, copies and renames exactly the expansion of a dim element; bounded: interaction with derivation"),
    "C09": ("proof", "proved: the label list for every accepted dimIndex form and the error cases, given the stated meaning of the regular expressions"),
    "C10": ("proof", "proved: lsb/msb from all three notations and with dim increments, and the derived positions of the final field"),
    "C11": ("proof", "proved: names and bits of the accepted fields, order, exact condition of rejection"),
    "C12": ("proof", "proved: uniqueness in every scope and the necessary condition of a rejection"),
    "C13": ("proof", "proved: order, distinctness of values and of explicit names, range and origin of the enumerated values of a container, and that none is dropped without a warning; bounded: wildcard expansion"),
    "C14": ("proof", "proved: which texts are accepted, that hexadecimal, decimal and binary literals without wildcards are read as int() reads their digits in that base, names of expanded values; assumed: int(); bounded: wildcard expansion"),
    "C15": ("proof", "proved: exactly the uncovered values get a default value, names and texts, no default left"),
    "C16": ("proof", "proved: number, usages and order of the containers and the exact condition of rejection; and the containers the resolver attaches to a finalised field; bounded: looking up derived containers"),
    "C17": ("proof", "proved: order of peripherals, registers, clusters and fields of the result; bounded: independence of the declaration order"),
    "C18": ("proof", "proved: the sets of allowed alternates are the least closed ones, and overlaps outside of them warn; bounded: the absence of other warnings"),
    "C19": ("proof", "proved: the element the serializer makes of a device and of every part of it mirrors it, attribute by attribute, as the parser's contracts (C22) read elements, provided texts are as the parser leaves them, which the parser's contracts ensure for every document; the string, bytes and file forms are that element; assumed: lxml.etree.Element and tostring, int() of str() and hex() texts; bounded: the text form lxml writes and reads"),
    "C20": ("proof", "proved: every attribute of every converted element equals the processed one, the trees correspond, direct parents are set, no dim or derivation is left; bounded: serialising the result"),
    "C21": ("proof", "proved: which texts are read as booleans, integers and enumeration members and as which value, and that all others raise or, for access, warn; assumed: what int() accepts; the integer notation is the interpreter's"),
    "C22": ("proof", "proved: every attribute of every parsed element comes from the last sub-element or attribute of its name, lists are in document order, direct parents, which elements are mandatory; assumed: lxml's findall, find, get and iteration; bounded: parents of a peripheral's registers, clusters and dimArrayIndex"),
    "C23": ("proof", "proved: no verified function writes an object of the parsed device, processed elements refer to the parsed ones; bounded: resolver, repetition, other processes"),
    "C24": ("proof", "proved: the map of every processed device: entries, registers in tree order, addresses, ranges"),
    "C25": ("proof", "proved: the verdict of all three input forms is the verdict of the schema of the requested version, when it raises; assumed: lxml's schema validation, files; bounded: the schema files, the newest version, the bytes of a string"),
    "C26": ("proof", "proved: which elements finalisation and the expansion of enumerated values drop, and that they warn; bounded: text of the warnings, the resolver"),
    "C27": ("proof", "proved: metadata, CPU and SAU configuration of the processed device, interrupt order, address block protection"),
    "C28": ("proof", "proved: which attempt of reading decides (as declared, then five encodings strictly, then leniently), its warnings and errors, for files and bytes; that parsed device, processed device and map of every entry point come from that tree; assumed: lxml; bounded: the bytes of a string"),
}
