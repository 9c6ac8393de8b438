"""Contracts of the resolver (resolve/resolver.py): sizes of containers, assembly of the resolved tree."""
from svdsuite.model.types import *
from svdsuite.model.parse import *
from svdsuite.model.process import *
from svdsuite.resolve.graph_elements import *
from contracts.c_process import field_lsb, field_msb
from contracts.c_dim import expanded_name, effective_dim, own_index


# The graph of the resolver is seen through functions of its state: `_state` stands for the content of the rustworkx graph
# and changes with every operation that changes the graph.

@ghost
def parents(state: int, node: ElementNode, i: int) -> ElementNode:
    """the i-th element that has node as a child"""
    ...


@ghost
def parent_count(state: int, node: ElementNode) -> int:
    ...


def device_size(d):
    return d.size if d.size is not None else 32


@ghost
def size_above(state: int, node: ElementNode) -> int:
    """the nearest size stated above the element"""
    if parent_count(state, node) <= 0:
        return -1
    p = parents(state, node, 0)
    if p._level == ElementLevel.DEVICE:
        return device_size(p._parsed)
    if p._processed.size is not None:
        return p._processed.size
    return size_above(state, p)


class get_element_parents:
    target = "svdsuite.resolve.graph:ResolverGraph.get_element_parents"
    args = ["self", "node"]
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    trusted = "assumed: rustworkx"

    def ensures_parents(self, node, result):
        assert len(result) == max(0, parent_count(self._state, node))
        for i in range(len(result)):
            assert result[i] is parents(self._state, node, i)


class parent_size:
    target = "svdsuite.resolve.resolver:Resolver._get_parent_size_recursively"
    args = ["self", "node"]
    self_attrs = {"_resolver_graph": "ResolverGraph"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    may_raise = ["ResolveException"]

    def requires(self, node):
        # levels and contents of graph nodes agree
        assert forall("ElementNode", lambda n: implies(n._level == ElementLevel.DEVICE, isinstance(n._parsed, SVDDevice)))

    def C04_nearest(self, node, result):
        assert result == size_above(self._resolver_graph._state, node)


def contribution(state, node):
    """what an element counts with in the size of its container"""
    s = node._processed.size
    if s is None:
        return size_above(state, node)
    return s if s % 8 == 0 else 0


class calculate_size:
    target = "svdsuite.resolve.resolver:Resolver._calculate_size"
    args = ["self", "child_nodes"]
    self_attrs = {"_resolver_graph": "ResolverGraph"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    may_raise = ["ResolveException"]

    def requires(self, child_nodes):
        assert forall("ElementNode", lambda n: implies(n._level == ElementLevel.DEVICE, isinstance(n._parsed, SVDDevice)))

    def C04_largest(self, child_nodes, result):
        s = self._resolver_graph._state
        assert all(n._is_dim_template or contribution(s, n) <= result for n in child_nodes)
        assert any(not n._is_dim_template and contribution(s, n) == result for n in child_nodes)

    def invariant_1(self, child_nodes, max_size, done):
        s = self._resolver_graph._state
        assert max_size >= -1
        for i in range(done):
            assert child_nodes[i]._is_dim_template or contribution(s, child_nodes[i]) <= max_size
        assert max_size == -1 or any(not child_nodes[i]._is_dim_template and contribution(s, child_nodes[i]) == max_size for i in range(done))


# ---------------------------------------------------------------------------------------------------- assembly of the tree
def consistent():
    """level and content of a graph node agree (established by GraphBuilder and _process_node)"""
    return forall("ElementNode", lambda n: (
        implies(n._level == ElementLevel.DEVICE, isinstance(n._parsed, SVDDevice))
        and implies(n._level == ElementLevel.PERIPHERAL, isinstance(n._parsed, SVDPeripheral))
        and implies(n._level == ElementLevel.CLUSTER, isinstance(n._parsed, SVDCluster))
        and implies(n._level == ElementLevel.REGISTER, isinstance(n._parsed, SVDRegister))
        and implies(n._level == ElementLevel.FIELD, isinstance(n._parsed, SVDField))
        and implies(n._level == ElementLevel.PERIPHERAL, n._processed is None or isinstance(n._processed, IPeripheral))
        and implies(n._level == ElementLevel.CLUSTER, n._processed is None or isinstance(n._processed, ICluster))
        and implies(n._level == ElementLevel.REGISTER, n._processed is None or isinstance(n._processed, IRegister))
        and implies(n._level == ElementLevel.FIELD, n._processed is None or isinstance(n._processed, IField))
        and implies(n._level == ElementLevel.ENUMCONT, isinstance(n._parsed, SVDEnumeratedValueContainer))
    ))


def listed(children, elements):
    """exactly the children that are no templates"""
    return (
        all(n._is_dim_template or any(e is n._processed for e in elements) for n in children)
        and all(any(not n._is_dim_template and n._processed is e for n in children) for e in elements)
    )


def ascending(elements):
    return forall_int(lambda i, j: implies(0 <= i and i < j and j < len(elements), elements[i].address_offset < elements[j].address_offset
                                           or elements[i].address_offset == elements[j].address_offset and elements[i].name <= elements[j].name))


class finalize_peripheral:
    target = "svdsuite.resolve.resolver:Resolver._finalize_peripheral_node"
    args = ["self", "peripheral_node", "children_nodes"]
    self_attrs = {"_resolver_graph": "ResolverGraph"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    may_raise = ["ResolveException"]
    modifies = ["IPeripheral.size", "IPeripheral.registers_clusters"]

    def requires(self, peripheral_node, children_nodes):
        assert consistent()
        assert peripheral_node._level == ElementLevel.PERIPHERAL
        assert all(n._level == ElementLevel.CLUSTER or n._level == ElementLevel.REGISTER for n in children_nodes)

    def C04_size(self, peripheral_node, children_nodes, result):
        p = peripheral_node._processed
        s = self._resolver_graph._state
        assert all(old(n._is_dim_template) or old(contribution(s, n)) <= p.size for n in children_nodes)
        assert any(not old(n._is_dim_template) and old(contribution(s, n)) == p.size for n in children_nodes)

    def C26_listed(self, peripheral_node, children_nodes, result):
        assert listed(children_nodes, peripheral_node._processed.registers_clusters)

    def C17_ordered(self, peripheral_node, children_nodes, result):
        assert ascending(peripheral_node._processed.registers_clusters)

    def ensures_frame(self, peripheral_node, children_nodes, result):
        assert forall("IPeripheral", lambda p: p is peripheral_node._processed or p.size == old(p.size))


class finalize_cluster:
    target = "svdsuite.resolve.resolver:Resolver._finalize_cluster_node"
    args = ["self", "cluster_node", "children_nodes"]
    self_attrs = {"_resolver_graph": "ResolverGraph"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    may_raise = ["ResolveException"]
    modifies = ["ICluster.size", "ICluster.registers_clusters"]

    def requires(self, cluster_node, children_nodes):
        assert consistent()
        assert cluster_node._level == ElementLevel.CLUSTER
        assert all(n._level == ElementLevel.CLUSTER or n._level == ElementLevel.REGISTER for n in children_nodes)

    def C04_size(self, cluster_node, children_nodes, result):
        c = cluster_node._processed
        s = self._resolver_graph._state
        assert all(old(n._is_dim_template) or old(contribution(s, n)) <= c.size for n in children_nodes)
        assert any(not old(n._is_dim_template) and old(contribution(s, n)) == c.size for n in children_nodes)

    def C26_listed(self, cluster_node, children_nodes, result):
        assert listed(children_nodes, cluster_node._processed.registers_clusters)

    def C17_ordered(self, cluster_node, children_nodes, result):
        assert ascending(cluster_node._processed.registers_clusters)

    def ensures_frame(self, cluster_node, children_nodes, result):
        assert forall("ICluster", lambda c: c is cluster_node._processed or c.size == old(c.size))


class finalize_register:
    target = "svdsuite.resolve.resolver:Resolver._finalize_register_node"
    args = ["self", "register_node", "children_nodes"]
    warns = "none"
    may_raise = ["ResolveException"]
    modifies = ["IRegister.fields"]

    def requires(self, register_node, children_nodes):
        assert consistent()
        assert register_node._level == ElementLevel.REGISTER
        assert all(n._level == ElementLevel.FIELD for n in children_nodes)

    def C26_listed(self, register_node, children_nodes, result):
        assert listed(children_nodes, register_node._processed.fields)

    def C11_ordered(self, register_node, children_nodes, result):
        f = register_node._processed.fields
        assert forall_int(lambda i, j: implies(0 <= i and i < j and j < len(f), f[i].lsb < f[j].lsb or f[i].lsb == f[j].lsb and f[i].name <= f[j].name))


def usage_of(node):
    return node._parsed.usage if node._parsed.usage is not None else EnumUsageType.READ_WRITE


class finalize_field:
    target = "svdsuite.resolve.resolver:Resolver._finalize_field_node"
    args = ["self", "field_node", "children_nodes"]
    self_attrs = {"_process": "Process"}
    may_raise = ["ProcessException"]
    modifies = ["IField.enumerated_value_containers", "IEnumeratedValue.value"]

    def requires(self, field_node, children_nodes):
        assert consistent()
        assert field_node._level == ElementLevel.FIELD and field_node._processed is not None
        assert all(n._level == ElementLevel.ENUMCONT for n in children_nodes)

    def only_raises_EnumeratedValueContainerException(self, field_node, children_nodes):
        n = len(children_nodes)
        return not (n <= 1 or n == 2 and usage_of(children_nodes[0]) != usage_of(children_nodes[1])
                    and usage_of(children_nodes[0]) != EnumUsageType.READ_WRITE and usage_of(children_nodes[1]) != EnumUsageType.READ_WRITE)

    def C16_at_most_two(self, field_node, children_nodes, result):
        c = field_node._processed.enumerated_value_containers
        assert len(c) == len(children_nodes) and len(c) <= 2
        assert all(c[i].usage == usage_of(children_nodes[i]) and c[i].parsed is children_nodes[i]._parsed for i in range(len(c)))

    def C16_usages(self, field_node, children_nodes, result):
        c = field_node._processed.enumerated_value_containers
        assert implies(len(c) == 2, c[0].usage == EnumUsageType.READ and c[1].usage == EnumUsageType.WRITE or c[0].usage == EnumUsageType.WRITE and c[1].usage == EnumUsageType.READ)


class finalize_device:
    target = "svdsuite.resolve.resolver:Resolver._finalize_device_node"
    args = ["self", "_", "children_nodes"]
    self_attrs = {"_peripherals_resolved": "None | list[IPeripheral]"}
    warns = "none"
    may_raise = ["ResolveException"]
    modifies = ["Resolver._peripherals_resolved"]

    def requires(self, children_nodes):
        assert consistent()
        assert all(n._level == ElementLevel.PERIPHERAL for n in children_nodes)

    def C26_listed(self, children_nodes, result):
        assert self._peripherals_resolved is not None
        assert listed(children_nodes, self._peripherals_resolved)

    def C17_ordered(self, children_nodes, result):
        p = self._peripherals_resolved
        assert forall_int(lambda i, j: implies(0 <= i and i < j and j < len(p), p[i].base_address < p[j].base_address or p[i].base_address == p[j].base_address and p[i].name <= p[j].name))


class post_process_dim:
    target = "svdsuite.resolve.resolver:Resolver._post_process_dim_elements"
    args = ["self", "dim_name", "processed_dimable_elements"]
    warns = "none"
    modifies = ["IPeripheral.dim", "IPeripheral.dim_increment", "IPeripheral.dim_index", "ICluster.dim", "ICluster.dim_increment", "ICluster.dim_index",
                "IRegister.dim", "IRegister.dim_increment", "IRegister.dim_index", "IField.dim", "IField.dim_increment", "IField.dim_index",
                "IPeripheral.name", "ICluster.name", "IRegister.name", "IField.name"]

    def requires(self, dim_name, processed_dimable_elements):
        assert len(processed_dimable_elements) >= 1

    def C08_no_dim_left(self, dim_name, processed_dimable_elements, result):
        assert all(e.dim is None and e.dim_increment is None and e.dim_index is None for e in processed_dimable_elements)

    def C08_template(self, dim_name, processed_dimable_elements, result):
        first = processed_dimable_elements[0]
        assert allocated(result)
        assert result.name == dim_name
        assert result.dim == old(first.dim) and result.dim_increment == old(first.dim_increment) and result.dim_index == old(first.dim_index)
        assert result.parsed is old(first.parsed)
        assert type(result) is type(first)

    def C08_names(self, dim_name, processed_dimable_elements, result):
        assert all(e.name == old(e.name) for e in processed_dimable_elements)

    def invariant_1(self, dim_name, processed_dimable_elements, processed_dim_template, done):
        first = processed_dimable_elements[0]
        t = processed_dim_template
        assert t.dim == old(first.dim) and t.dim_increment == old(first.dim_increment) and t.dim_index == old(first.dim_index)
        for i in range(done):
            e = processed_dimable_elements[i]
            assert e.dim is None and e.dim_increment is None and e.dim_index is None


@ghost
def base_of(state: int, node: ElementNode) -> None | ElementNode:
    """the element at the other end of the derive edge"""
    ...


class get_base:
    target = "svdsuite.resolve.graph:ResolverGraph.get_base_element_node"
    args = ["self", "derive_node"]
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    trusted = "assumed: rustworkx"

    def ensures_base(self, derive_node, result):
        assert result is base_of(self._state, derive_node)


class derived_from_base:
    target = "svdsuite.resolve.resolver:Resolver._get_derived_from_base_node"
    args = ["self", "derived_node"]
    self_attrs = {"_resolver_graph": "ResolverGraph"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"

    def raises_ResolveException(self, derived_node):
        b = base_of(self._resolver_graph._state, derived_node)
        return b is None or b._level != derived_node._level

    def C06_base(self, derived_node, result):
        assert result is base_of(self._resolver_graph._state, derived_node)
        assert result._level == derived_node._level


# ---------------------------------------------------------------------------------------------------- dim expansion of one node
def same_kind(parsed, e):
    """parsed and processed form of the same kind of element"""
    return (
        implies(isinstance(parsed, SVDPeripheral), isinstance(e, IPeripheral))
        and implies(isinstance(parsed, SVDCluster), isinstance(e, ICluster))
        and implies(isinstance(parsed, SVDRegister), isinstance(e, IRegister))
        and implies(isinstance(parsed, SVDField), isinstance(e, IField))
    )


def own_increment(parsed, base):
    return parsed.dim_increment if parsed.dim_increment is not None else base.dim_increment if base is not None else None


def moved(parsed, base, index):
    d = own_increment(parsed, base)
    return 0 if d is None else d * index


def placed_at(parsed, base, index, e):
    """e lies where the description says, moved by index increments"""
    return (
        implies(isinstance(parsed, SVDPeripheral), e.base_address == parsed.base_address + moved(parsed, base, index))
        and implies(isinstance(parsed, SVDCluster), e.address_offset == parsed.address_offset + moved(parsed, base, index))
        and implies(isinstance(parsed, SVDRegister), e.address_offset == parsed.address_offset + moved(parsed, base, index))
        and implies(isinstance(parsed, SVDField), e.lsb == field_lsb(parsed, base) + moved(parsed, base, index) and e.msb == field_msb(parsed, base) + moved(parsed, base, index))
    )


class create_element:
    target = "svdsuite.resolve.resolver:Resolver._create_dimable_element"
    args = ["self", "index", "name", "display_name", "parsed_element", "base_element"]
    self_attrs = {"_process": "Process"}
    may_raise = ["ProcessException"]
    types = {"base_element": "None | IPeripheral | ICluster | IRegister | IField"}

    def requires(self, index, name, display_name, parsed_element, base_element):
        assert base_element is None or same_kind(parsed_element, base_element)

    def raises_ResolveException(self, index, name, display_name, parsed_element, base_element):
        return not isinstance(parsed_element, (SVDPeripheral, SVDCluster, SVDRegister, SVDField))

    def C06_kind(self, index, name, display_name, parsed_element, base_element, result):
        assert same_kind(parsed_element, result)
        assert result.parsed is parsed_element

    def C08_place(self, index, name, display_name, parsed_element, base_element, result):
        assert result.name == name
        assert placed_at(parsed_element, base_element, index, result)


class remove_edge:
    target = "svdsuite.resolve.graph:ResolverGraph.remove_edge"
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    modifies = ["ResolverGraph._state"]
    warns = "none"
    trusted = "assumed: rustworkx"


class update_edge:
    target = "svdsuite.resolve.graph:ResolverGraph.update_edge"
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    modifies = ["ResolverGraph._state"]
    warns = "none"
    trusted = "assumed: rustworkx"


class add_edge:
    target = "svdsuite.resolve.graph:ResolverGraph.add_edge"
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    modifies = ["ResolverGraph._state"]
    warns = "none"
    may_raise = ["ResolverGraphException"]
    trusted = "assumed: rustworkx"


class add_element_child:
    target = "svdsuite.resolve.graph:ResolverGraph.add_element_child"
    args = ["self", "parent", "child", "edge_type"]
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    modifies = ["ResolverGraph._state"]
    warns = "none"
    trusted = "assumed: rustworkx"

    def requires(self, parent, child, edge_type):
        # C08: only expanded elements enter the graph below their parents
        assert child._processed is not None and child.status == NodeStatus.PROCESSED
        assert not child._is_dim_template
        assert child._name == child._processed.name
        assert child._processed.dim is None and child._processed.dim_increment is None and child._processed.dim_index is None


class replicate:
    target = "svdsuite.resolve.graph:ResolverGraph.replicate_descendants"
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    modifies = ["ResolverGraph._state"]
    warns = "none"
    trusted = "assumed: rustworkx"


class children:
    target = "svdsuite.resolve.graph:ResolverGraph.get_element_childrens"
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    trusted = "assumed: rustworkx"


class update_node:
    target = "svdsuite.resolve.resolver:Resolver._update_node"
    args = ["self", "node", "base_node", "processed", "is_dim_template"]
    self_attrs = {"_resolver_graph": "ResolverGraph"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    modifies = ["ElementNode.status", "ElementNode._processed", "ElementNode._is_dim_template", "ResolverGraph._state"]

    def raises_ResolveException(self, node, base_node, processed, is_dim_template):
        return node._processed is not None

    def C08_template(self, node, base_node, processed, is_dim_template, result):
        assert node._is_dim_template == (old(node._is_dim_template) or is_dim_template)

    def C06_processed(self, node, base_node, processed, is_dim_template, result):
        assert node._processed is processed
        assert node.status == NodeStatus.PROCESSED

    def ensures_frame(self, node, base_node, processed, is_dim_template, result):
        assert forall("ElementNode", lambda n: n is node or n._processed is old(n._processed) and n.status == old(n.status) and n._is_dim_template == old(n._is_dim_template))


class update_dim_node:
    target = "svdsuite.resolve.resolver:Resolver._update_dim_node"
    args = ["self", "node", "base_node", "processed_elements", "processed_dim_element"]
    self_attrs = {"_resolver_graph": "ResolverGraph"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    may_raise = ["ResolverGraphException"]
    modifies = ["ElementNode.status", "ElementNode._processed", "ElementNode._is_dim_template", "ResolverGraph._state"]

    def requires(self, node, base_node, processed_elements, processed_dim_element):
        assert consistent()
        assert same_kind(node._parsed, processed_dim_element)
        assert all(same_kind(node._parsed, e) for e in processed_elements)
        assert node._level != ElementLevel.DEVICE and node._level != ElementLevel.ENUMCONT
        assert all(e.dim is None and e.dim_increment is None and e.dim_index is None for e in processed_elements)

    def raises_ResolveException(self, node, base_node, processed_elements, processed_dim_element):
        return node._processed is not None

    def C08_template(self, node, base_node, processed_elements, processed_dim_element, result):
        assert node._is_dim_template
        assert node._processed is processed_dim_element
        assert node.status == NodeStatus.PROCESSED

    def ensures_consistent(self, node, base_node, processed_elements, processed_dim_element, result):
        assert consistent()


class process_dimable:
    target = "svdsuite.resolve.resolver:Resolver._process_dimable_node"
    args = ["self", "node", "parsed_element", "base_node", "base_processed_element"]
    self_attrs = {"_resolver_graph": "ResolverGraph", "_process": "Process"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    may_raise = ["ProcessException", "ResolveException", "ResolverGraphException"]
    modifies = ["ElementNode.status", "ElementNode._processed", "ElementNode._is_dim_template", "ResolverGraph._state",
                "IPeripheral.dim", "IPeripheral.dim_increment", "IPeripheral.dim_index", "ICluster.dim", "ICluster.dim_increment", "ICluster.dim_index",
                "IRegister.dim", "IRegister.dim_increment", "IRegister.dim_index", "IField.dim", "IField.dim_increment", "IField.dim_index",
                "IPeripheral.name", "ICluster.name", "IRegister.name", "IField.name"]

    def requires(self, node, parsed_element, base_node, base_processed_element):
        assert consistent()
        assert node._level != ElementLevel.DEVICE and node._level != ElementLevel.ENUMCONT
        assert parsed_element is node._parsed
        assert base_processed_element is None or same_kind(parsed_element, base_processed_element)

    def C08_template(self, node, parsed_element, base_node, base_processed_element, result):
        assert node.status == NodeStatus.PROCESSED
        assert implies(old(effective_dim(parsed_element, base_processed_element)) is not None, node._is_dim_template)

    def C06_kind(self, node, parsed_element, base_node, base_processed_element, result):
        assert node._processed is not None and same_kind(parsed_element, node._processed) and node._processed.parsed is parsed_element

    def ensures_consistent(self, node, parsed_element, base_node, base_processed_element, result):
        assert consistent()

    def C06_single(self, node, parsed_element, base_node, base_processed_element, result):
        e = node._processed
        assert implies(old(effective_dim(parsed_element, base_processed_element)) is None, same_kind(parsed_element, e) and e.parsed is parsed_element and e.name == parsed_element.name)


class process_container:
    target = "svdsuite.resolve.resolver:Resolver._process_enumerated_value_container_node"
    args = ["self", "node", "base_node"]
    self_attrs = {"_resolver_graph": "ResolverGraph"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    warns = "none"
    modifies = ["ElementNode.status", "ElementNode._parsed", "ResolverGraph._state"]

    def requires(self, node, base_node):
        assert consistent()
        assert base_node is None or base_node._level == ElementLevel.ENUMCONT

    def C16_of_the_base(self, node, base_node, result):
        assert node._parsed is (old(base_node._parsed) if base_node is not None else old(node._parsed))
        assert node.status == NodeStatus.PROCESSED

    def ensures_frame(self, node, base_node, result):
        assert forall("ElementNode", lambda n: n is node or n._parsed is old(n._parsed) and n.status == old(n.status))


class process_node:
    target = "svdsuite.resolve.resolver:Resolver._process_node"
    args = ["self", "node"]
    self_attrs = {"_resolver_graph": "ResolverGraph", "_process": "Process"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    may_raise = ["ProcessException", "ResolveException", "ResolverGraphException"]
    modifies = ["ElementNode.status", "ElementNode._processed", "ElementNode._is_dim_template", "ElementNode._parsed", "ResolverGraph._state",
                "IPeripheral.dim", "IPeripheral.dim_increment", "IPeripheral.dim_index", "ICluster.dim", "ICluster.dim_increment", "ICluster.dim_index",
                "IRegister.dim", "IRegister.dim_increment", "IRegister.dim_index", "IField.dim", "IField.dim_increment", "IField.dim_index",
                "IPeripheral.name", "ICluster.name", "IRegister.name", "IField.name"]

    def requires(self, node):
        assert consistent()

    def C06_processed(self, node, result):
        assert node.status == NodeStatus.PROCESSED
        assert node._level == ElementLevel.ENUMCONT or node._processed is not None and node._processed.parsed is node._parsed

    def C06_consistent(self, node, result):
        assert consistent()


def children_fit(node, children):
    """the levels of the children of a node (established by GraphBuilder)"""
    return (
        implies(node._level == ElementLevel.DEVICE, all(n._level == ElementLevel.PERIPHERAL for n in children))
        and implies(node._level == ElementLevel.PERIPHERAL or node._level == ElementLevel.CLUSTER, all(n._level == ElementLevel.CLUSTER or n._level == ElementLevel.REGISTER for n in children))
        and implies(node._level == ElementLevel.REGISTER, all(n._level == ElementLevel.FIELD for n in children))
        and implies(node._level == ElementLevel.FIELD, all(n._level == ElementLevel.ENUMCONT for n in children))
    )


class finalize_node:
    target = "svdsuite.resolve.resolver:Resolver._finalize_node"
    args = ["self", "node", "child_nodes"]
    self_attrs = {"_resolver_graph": "ResolverGraph", "_process": "Process", "_peripherals_resolved": "None | list[IPeripheral]"}
    ghost_attrs = {"ResolverGraph": {"_state": "int"}}
    may_raise = ["ResolveException", "ProcessException"]
    modifies = ["IPeripheral.size", "IPeripheral.registers_clusters", "ICluster.size", "ICluster.registers_clusters", "IRegister.fields",
                "IField.enumerated_value_containers", "IEnumeratedValue.value", "Resolver._peripherals_resolved"]

    def requires(self, node, child_nodes):
        assert consistent()
        assert children_fit(node, child_nodes)
        assert node._is_dim_template or node._processed is not None or node._level == ElementLevel.DEVICE

    def C26_children_kept(self, node, child_nodes, result):
        if not node._is_dim_template:
            if node._level == ElementLevel.DEVICE:
                assert self._peripherals_resolved is not None and listed(child_nodes, self._peripherals_resolved)
            if node._level == ElementLevel.PERIPHERAL or node._level == ElementLevel.CLUSTER:
                assert listed(child_nodes, node._processed.registers_clusters)
            if node._level == ElementLevel.REGISTER:
                assert listed(child_nodes, node._processed.fields)

    def C16_containers(self, node, child_nodes, result):
        if not node._is_dim_template and node._level == ElementLevel.FIELD:
            assert len(node._processed.enumerated_value_containers) == len(child_nodes)

    def C08_templates_untouched(self, node, child_nodes, result):
        if node._is_dim_template:
            assert forall("IPeripheral | ICluster", lambda x: x.size == old(x.size) and x.registers_clusters == old(x.registers_clusters))
            assert forall("IRegister", lambda x: x.fields == old(x.fields))
