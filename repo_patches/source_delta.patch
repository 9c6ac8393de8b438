From d081fa55e8c1afe72a8d336bf2c9975a733618ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 01/17] fix: allocated range of a map peripheral must cover
 every address block

With nested or overlapping address blocks the block with the largest offset
is not necessarily the one that ends last.
---
 src/svdsuite/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index cd4f0fa..016460b 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -84,6 +84,6 @@ class PeripheralRegisterMap:
             raise ValueError("Address blocks are empty")
 
         begin = start_address + address_blocks[0].offset
-        end = start_address + address_blocks[-1].offset + address_blocks[-1].size - 1
+        end = start_address + max(block.offset + block.size for block in address_blocks) - 1
 
         return (begin, end)
-- 
2.43.0


From 516ae31fa27f67f40dc66ed9727c11015c9b1ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 02/17] fix: serialize every bit position a field declares

A derived field may override only one of bitOffset/bitWidth (or lsb/msb);
the serializer dropped the value silently.
---
 src/svdsuite/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index afaac20..c0cffdc 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -316,12 +316,16 @@ class SVDFieldSerializer(XMLSerializable):
         if self.field.description is not None:
             element.append(self._append_element("description", text=self.field.description))
 
-        if self.field.bit_offset is not None and self.field.bit_width is not None:
+        if self.field.bit_offset is not None:
             element.append(self._append_element("bitOffset", text=str(self.field.bit_offset)))
+
+        if self.field.bit_width is not None:
             element.append(self._append_element("bitWidth", text=str(self.field.bit_width)))
 
-        if self.field.lsb is not None and self.field.msb is not None:
+        if self.field.lsb is not None:
             element.append(self._append_element("lsb", text=str(self.field.lsb)))
+
+        if self.field.msb is not None:
             element.append(self._append_element("msb", text=str(self.field.msb)))
 
         if self.field.bit_range is not None:
-- 
2.43.0


From 691a0c10c51b8097f0638aeb4f0e1923989f1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 03/17] fix: set the parent of converted write constraints

---
 src/svdsuite/util/process_parse_model_convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index 04ad35f..f550f46 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -183,6 +183,9 @@ def process_parse_convert_field(field: Field) -> SVDField:
         parent=None,  # set by parent register
     )
 
+    if svd_field.write_constraint:
+        svd_field.write_constraint.parent = svd_field
+
     for container in enumerated_value_containers:
         container.parent = svd_field
 
@@ -215,6 +218,9 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
         parent=None,  # set by parent cluster or peripheral
     )
 
+    if svd_register.write_constraint:
+        svd_register.write_constraint.parent = svd_register
+
     for field in fields:
         field.parent = svd_register
 
-- 
2.43.0


From 7e56320c951ba96bca902ad55cf4f18a2f5b70b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 04/17] fix: do not crash on duplicate elements of which one is
 empty

---
 src/svdsuite/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 82b4378..6bebd4f 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -143,7 +143,7 @@ class Parser:
         elements = parent.findall(element_name)
 
         if len(elements) > 1:
-            texts = ", ".join([x.text for x in elements])  # type: ignore[union-attr]
+            texts = ", ".join([x.text or "" for x in elements])
             lines = ", ".join([str(x.sourceline) for x in elements])
             warnings.warn(
                 f"Multiple elements '{element_name}' with texts '{texts}' found at svd file source lines '{lines}'. "
-- 
2.43.0


From 8ee55fe4a731f11c32f4b1c53fa11314967999d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 05/17] fix: tolerate an alternatePeripheral/alternateCluster
 that names no element

As already done for alternateRegister; it leaked a KeyError before.
---
 src/svdsuite/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 866322c..728b37e 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -765,7 +765,7 @@ class _ValidateAndFinalize:
             # Add peripherals that have 'current' as their alternate.
             stack.extend(name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current)
             # If the current peripheral has an alternate (primary), add it.
-            primary = peripheral_lookup[current].alternate_peripheral
+            primary = peripheral_lookup[current].alternate_peripheral if current in peripheral_lookup else None
             if primary is not None:
                 stack.append(primary)
 
@@ -975,7 +975,7 @@ class _ValidateAndFinalize:
             # Add clusters that have 'current' as their alternate.
             stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
             # If the current cluster has an alternate (primary), add it.
-            primary = cluster_lookup[current].alternate_cluster
+            primary = cluster_lookup[current].alternate_cluster if current in cluster_lookup else None
             if primary is not None:
                 stack.append(primary)
 
-- 
2.43.0


From 7bb43ef0e15092706da931e351408ec53cab65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 06/17] fix: match the whole dimIndex against its accepted
 forms

A valid prefix was enough, so '0-3abc' leaked a ValueError, 'A-Zfoo' a
TypeError, and 'a,b;' produced the name 'b;'.
---
 src/svdsuite/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 728b37e..24e0370 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1118,25 +1118,25 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.match(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
-        elif re.match(r"[A-Z]-[A-Z]", dim_index):
+        elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
 
             if ord(start) >= ord(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [chr(i) for i in range(ord(start), ord(end) + 1)]
-        elif re.match(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
             dim_index_no_whitespace = re.sub(r"\s+", "", dim_index)
             dim_index_list = dim_index_no_whitespace.split(",")
         # Not supported by the XSD, but required to parse some vendor files
-        elif re.match(r"[_0-9a-zA-Z]+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+", dim_index):
             dim_index_list = [dim_index]
         else:
             raise ProcessException(f"can't resolve dim index for '{dim_index}'")
-- 
2.43.0


From 280d185228484415d9f6bff072037b85c481ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 07/17] fix: report every resolver failure as ProcessException

For example an ambiguous derivedFrom path leaked an internal ResolveException.
---
 src/svdsuite/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 24e0370..54411e7 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -48,6 +48,8 @@ from svdsuite.resolve.exception import (
     LoopException,
     CycleException,
     UnprocessedNodesException,
+    ResolveException,
+    ResolverGraphException,
 )
 from svdsuite.model.type_alias import ParsedDimablePeripheralTypes, IntermediateDimablePeripheralTypes
 
@@ -104,6 +106,8 @@ class Process:
             raise ProcessException("A circular inheritance was detected during resolving") from e
         except UnprocessedNodesException as e:
             raise ProcessException("Some nodes were not processed during resolving") from e
+        except (ResolveException, ResolverGraphException) as e:
+            raise ProcessException("Resolving failed") from e
 
         intermediate_device = IDevice(
             size=size,
-- 
2.43.0


From f3f971e89a7860623c548333c177cf83865f59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 08/17] fix: inherit the size of the device when no nearer
 level defines one

The size adjustment assumed 32 bits even if the device declares a size, while
the documented algorithm only falls back to 32 if the device has none.
---
 src/svdsuite/resolve/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 2fb9b48..6f94d29 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -435,7 +435,8 @@ class Resolver:
         parent = parents[0]  # only dim nodes have multiple parents, but all have same size
 
         if parent.level == ElementLevel.DEVICE:
-            return 32  # default size for device
+            device_size = cast(SVDDevice, parent.parsed).size
+            return device_size if device_size is not None else 32  # default size for device
 
         element = parent.processed
         if not isinstance(element, IPeripheral | ICluster):
-- 
2.43.0


From 0403059657be2a5310d2b1fc2bddffe26a899076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 09/17] fix: decode XML strings independently of their declared
 encoding

A str with e.g. an ISO-8859-1 declaration was encoded as UTF-8 and then
decoded as ISO-8859-1, which garbled every non-ASCII character.
---
 src/svdsuite/map.py            | 2 +-
 src/svdsuite/parse.py          | 4 ++--
 src/svdsuite/process.py        | 2 +-
 src/svdsuite/util/xml_parse.py | 8 ++++++++
 src/svdsuite/validate.py       | 4 ++--
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index 016460b..14cf2a5 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -10,7 +10,7 @@ class PeripheralRegisterMap:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Process.from_xml_content(xml_str.encode(), resolver_logging_file_path).get_processed_device())
+        return cls(Process.from_xml_str(xml_str, resolver_logging_file_path).get_processed_device())
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 6bebd4f..cd777f6 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -33,7 +33,7 @@ from svdsuite.model.types import (
     SauAccessType,
 )
 from svdsuite.util.parser_exception_warning import ParserException, ParserWarning, custom_warning_format
-from svdsuite.util.xml_parse import safe_parse, safe_fromstring
+from svdsuite.util.xml_parse import encode_xml_str, safe_parse, safe_fromstring
 
 warnings.formatwarning = custom_warning_format
 
@@ -103,7 +103,7 @@ class Parser:
 
     @staticmethod
     def from_xml_str(xml_str: str):
-        return Parser.from_xml_content(xml_str.encode())
+        return Parser.from_xml_content(encode_xml_str(xml_str))
 
     @classmethod
     def from_xml_content(cls, content: bytes):
diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 54411e7..7b5a206 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -73,7 +73,7 @@ class Process:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Parser.from_xml_content(xml_str.encode()).get_parsed_device(), resolver_logging_file_path)
+        return cls(Parser.from_xml_str(xml_str).get_parsed_device(), resolver_logging_file_path)
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 5bccf84..2dd1bb4 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -1,4 +1,5 @@
 from typing import BinaryIO
+import re
 import warnings
 from lxml import etree
 
@@ -10,6 +11,13 @@ warnings.formatwarning = custom_warning_format
 _COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
 
 
+def encode_xml_str(xml_str: str) -> bytes:
+    # The bytes are UTF-8, whatever encoding the XML declaration of the (already decoded) string states.
+    return re.sub(
+        r"""\A(\s*<\?xml\b[^>]*?\bencoding\s*=\s*)("[^"]*"|'[^']*')""", r'\1"utf-8"', xml_str, count=1
+    ).encode()
+
+
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     try:
diff --git a/src/svdsuite/validate.py b/src/svdsuite/validate.py
index 9f18e80..34f22d7 100644
--- a/src/svdsuite/validate.py
+++ b/src/svdsuite/validate.py
@@ -3,7 +3,7 @@ from enum import Enum
 from packaging.version import Version
 import lxml.etree
 
-from svdsuite.util.xml_parse import safe_parse, safe_fromstring
+from svdsuite.util.xml_parse import encode_xml_str, safe_parse, safe_fromstring
 
 
 class SVDSchemaVersion(Enum):
@@ -50,7 +50,7 @@ class Validator:
     def validate_xml_str(
         xml_str: str, get_exception: bool = True, schema_version: SVDSchemaVersion = SVDSchemaVersion.get_latest()
     ) -> bool:
-        return Validator.validate_xml_content(xml_str.encode(), get_exception, schema_version)
+        return Validator.validate_xml_content(encode_xml_str(xml_str), get_exception, schema_version)
 
     @staticmethod
     def _validate(
-- 
2.43.0


From 392d044a0df7a1bddb0d57902bfe304aba2044fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 10/17] fix: do not duplicate derive edges when copying the
 descendants of a base element

---
 src/svdsuite/resolve/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index b152d4c..79660ac 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -256,7 +256,7 @@ class ResolverGraph:
         for rx_index in rx_indices_to_replicate:
             # replicate outgoing _EdgeType.PROCESSED and _EdgeType.UNPROCESSED edges
             for _, child_rx_index, edge_type in self._graph.out_edges(rx_index):
-                if child_rx_index not in rx_indices_to_replicate:
+                if child_rx_index not in rx_indices_to_replicate or edge_type == EdgeType.DERIVE:
                     continue
 
                 self._graph.add_edge(replica_mapping[rx_index], replica_mapping[child_rx_index], edge_type)
-- 
2.43.0


From f356c8708fe17a21b37adbde922b16be907a0679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 11/17] fix: default enumerated value on a field with reversed
 bits raised TypeError

---
 src/svdsuite/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 7b5a206..52ddd1e 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1256,7 +1256,7 @@ class _ProcessEnumeratedValueContainer:
         self, enumerated_values: list[IEnumeratedValue], default: IEnumeratedValue, lsb: int, msb: int
     ) -> list[IEnumeratedValue]:
         covered_values = {value.value for value in enumerated_values if value.value is not None}
-        all_possible_values = set(range(pow(2, msb - lsb + 1)))
+        all_possible_values = set(range(int(pow(2, msb - lsb + 1))))
 
         uncovered_values = all_possible_values - covered_values
 
-- 
2.43.0


From 2f73d62914c6994c0b24143f6118663fc3a8c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 12/17] fix: wait for the base of an element before processing
 it

---
 src/svdsuite/resolve/resolver.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 6f94d29..6d099c2 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -241,7 +241,26 @@ class Resolver:
             for child in self._resolver_graph.get_element_childrens(node):
                 stack.append(child)
 
-        return result
+        return self._exclude_nodes_waiting_for_others(result)
+
+    def _exclude_nodes_waiting_for_others(self, nodes: list[ElementNode]) -> list[ElementNode]:
+        # a node has to wait until its base and its parents are processed (or can be processed before it in this round)
+        processable = set(nodes)
+        while True:
+            waiting: set[ElementNode] = set()
+            for node in processable:
+                base_node = self._resolver_graph.get_base_element_node(node)
+                required_nodes = self._resolver_graph.get_element_parents(node)
+                if base_node is not None:
+                    required_nodes.append(base_node)
+
+                if any(req.status == NodeStatus.UNPROCESSED and req not in processable for req in required_nodes):
+                    waiting.add(node)
+
+            if not waiting:
+                return [node for node in nodes if node in processable]
+
+            processable -= waiting
 
     def _resolve_placeholder(self, placeholder: PlaceholderNode):
         if not self._is_placeholder_parent_resolved(placeholder):
-- 
2.43.0


From 792077e4cf16c0ba89bfd15ce4924267eab73c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 13/17] fix: reject clusters which contain themselves through a
 chain of derivations

---
 src/svdsuite/resolve/resolver.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 6d099c2..8e6dd20 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -47,6 +47,7 @@ class Resolver:
         self._root_node_: None | ElementNode = None
         self._logger = ResolverLogger(resolver_logging_file_path, self._resolver_graph)
         self._peripherals_resolved: None | list[IPeripheral] = None
+        self._cluster_bases: dict[int, list[SVDCluster]] = {}
 
     @property
     def _root_node(self) -> ElementNode:
@@ -273,6 +274,7 @@ class Resolver:
             return
 
         self._resolver_graph.remove_placeholder(placeholder)
+        self._ensure_no_infinite_nesting(derive_node, base_node)
 
         try:
             self._resolver_graph.add_edge(base_node, derive_node, EdgeType.DERIVE)
@@ -284,6 +286,29 @@ class Resolver:
 
         self._logger.log_resolved_placeholder(placeholder.derive_path)
 
+    def _ensure_no_infinite_nesting(self, derived_node: ElementNode, base_node: ElementNode):
+        # only clusters can be nested in elements of their own kind, hence a cluster must not be derived from a cluster
+        # which contains it (directly, or by means of the elements from which it or its descendants are derived)
+        derived, base = derived_node.parsed, base_node.parsed
+        if not isinstance(derived, SVDCluster) or not isinstance(base, SVDCluster):
+            return
+
+        self._cluster_bases.setdefault(id(derived), []).append(base)
+
+        visited: set[int] = set()
+        stack = [base]
+        while stack:
+            cluster = stack.pop()
+            if cluster is derived:
+                raise CycleException(f"Cluster '{derived_node.name}' would contain itself by deriving '{base_node.name}'")
+
+            if id(cluster) in visited:
+                continue
+            visited.add(id(cluster))
+
+            stack.extend(self._cluster_bases.get(id(cluster), []))
+            stack.extend(child for child in cluster.registers_clusters if isinstance(child, SVDCluster))
+
     def _derived_from_path_resolving(self, derived_node: ElementNode, derive_path: str) -> None | ElementNode:
         derive_path_parts = derive_path.split(".")
         level = derived_node.level
-- 
2.43.0


From 5fb0c98100659dc6fd5848f3eafaaf8cd182d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 14/17] fix: '#' inside of an integer literal was read as a
 digit sequence

---
 src/svdsuite/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index cd777f6..c707ed7 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -1,3 +1,4 @@
+import re
 import warnings
 from typing import Literal, Optional, overload
 
@@ -85,7 +86,7 @@ def _to_int(value: None | str, base: int = 0) -> None | int:
         return None
 
     # transfer binary value to a string int function can handle
-    value = value.replace("#", "0b")
+    value = re.sub(r"\A([+-]?)#", r"\g<1>0b", value)
 
     try:
         return int(value, base)
-- 
2.43.0


From 4ffb55e504aad0d0709d0750cc58c217b170e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 15/17] fix: malformed enumerated value literals were read as
 other numbers

---
 src/svdsuite/process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 52ddd1e..b1a2b2a 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1275,7 +1275,10 @@ class _ProcessEnumeratedValueContainer:
 
     def _convert_enumerated_value(self, input_str: str) -> list[int]:
         # transfer binary value to a string int function can handle
-        input_str = input_str.lower().replace("#", "0b")
+        input_str = re.sub(r"\A#", "0b", input_str.lower())
+
+        if not re.fullmatch(r"0x[0-9a-f]+|0b[01x]+|[0-9]+", input_str):
+            raise ProcessException(f"Unrecognized format for input: '{input_str}'")
 
         try:
             if input_str.startswith("0b"):
-- 
2.43.0


From d57cd28b89bd666d83f45187f6b582d76c3bb5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 16/17] fix: fall back to other encodings when a file has
 undecodable bytes

---
 src/svdsuite/util/xml_parse.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 2dd1bb4..0b9af95 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -18,13 +18,17 @@ def encode_xml_str(xml_str: str) -> bytes:
     ).encode()
 
 
+# lxml reports an undecodable byte of a file as OSError
+_FILE_ERRORS = (etree.XMLSyntaxError, OSError)
+
+
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     try:
         parser = etree.XMLParser(recover=False)
         tree = etree.parse(path_or_file, parser=parser)
         return tree
-    except etree.XMLSyntaxError as e:
+    except _FILE_ERRORS as e:
         original_exception = e
 
     # Second attempt: try common encodings with recover=False.
@@ -37,7 +41,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
                 ParserWarning,
             )
             return tree
-        except etree.XMLSyntaxError:
+        except _FILE_ERRORS:
             continue
 
     # Third attempt: try common encodings with recover=True.
@@ -50,7 +54,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
                 ParserWarning,
             )
             return tree
-        except etree.XMLSyntaxError:
+        except _FILE_ERRORS:
             continue
 
     # If all attempts fail, re-raise the original exception.
-- 
2.43.0


From b4297f86e5aa47712e7036a46fd59984a3436546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:01 +0000
Subject: [PATCH 17/17] fix: read an element of blanks only as an empty element

The stripped text of such an element was '', which the serialised form of a device cannot express:
reading it back gave None, or failed for a mandatory element.
---
 src/svdsuite/parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index c707ed7..f6f1c34 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -176,6 +176,12 @@ class Parser:
                 ParserWarning,
             )
 
+        # An element of blanks only is an empty element
+        if not text_after_strip:
+            if not optional:
+                raise ParserException(f"can't get element '{element_name}'")
+            return None
+
         return text_after_strip
 
     @overload
-- 
2.43.0

