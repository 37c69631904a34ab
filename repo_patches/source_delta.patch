From 92ddf65bbbb1e6ba006a86c9060aa17d516f47ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:47 +0000
Subject: [PATCH 001/102] fix: keep every fact, also those without an id or
 with an id shared between documents

---
 brel/data/fact/in_memory_fact_repository.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 6eb46ae..0395f20 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -16,7 +16,7 @@ from brel.brel_fact import Fact
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
         self.__facts_by_id: dict[str, Fact] = {}
-        self.__facts_without_id: list[Fact] = []
+        self.__facts: list[Fact] = []
 
     def get_by_id(self, id: str) -> Fact:
         return self.__facts_by_id[id]
@@ -31,15 +31,15 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values())
+        return list(self.__facts)
 
     def upsert(self, fact: Fact) -> None:
         """
-        Set the fact by its ID.
-        :param fact: The fact to set.
+        Add the fact and, if it has an ID, make it available by its ID.
+        Facts without an ID and facts of different documents that share an ID are all kept.
+        :param fact: The fact to add.
         """
+        self.__facts.append(fact)
         fact_id = fact.get_id()
-        if fact_id is None:
-            self.__facts_without_id.append(fact)
-        else:
+        if fact_id is not None:
             self.__facts_by_id[fact_id] = fact
-- 
2.43.0


From 6adbb1d10f607345edeccaeadc546e4b37691e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 002/102] fix: read the decimals and precision attributes of
 facts in XML instances

---
 brel/parsers/XML/xml_facts_parser.py | 29 ++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 73cf669..93a1453 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -11,7 +11,7 @@ It parses XBRL in the XML syntax.
 ====================
 """
 
-from typing import cast
+from typing import Optional, cast
 import lxml
 import lxml.etree
 
@@ -19,6 +19,9 @@ from brel import Context, Fact
 from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 from brel.errors.error_instance import ErrorInstance
+from brel.parsers.XHMTL.elements.parse_non_fraction import (
+    parse_decimals_or_precision,
+)
 from brel.parsers.XML.characteristics import parse_unit_from_xml
 from brel.parsers.XML.xml_context_parser import parse_context_xml
 from brel.parsers.utils.error_utils import error_on_none
@@ -80,7 +83,29 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id))
+    decimals_str = fact_xml_element.get("decimals")
+    decimals: Optional[float] = None
+    try:
+        decimals = parse_decimals_or_precision(decimals_str, True)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_DECIMALS_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            decimals=decimals_str,
+        )
+
+    precision_str = fact_xml_element.get("precision")
+    precision: Optional[float] = None
+    try:
+        precision = parse_decimals_or_precision(precision_str, False)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_PRECISION_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            precision=precision_str,
+        )
+
+    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
 
 
 def parse_facts_xml(
-- 
2.43.0


From d77ac9998455e86959f623206c54d6e8910810d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:46 +0000
Subject: [PATCH 003/102] fix: compare qualified names by namespace and local
 name, not by prefix

---
 brel/qnames/qname.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index 15af6a9..a70486d 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -8,13 +8,14 @@
 ====================
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 
 @dataclass(frozen=True, eq=True)
 class QName:
     uri: str
-    prefix: str
+    # the prefix is only a shorthand for the uri and is not part of the name
+    prefix: str = field(compare=False)
     local_name: str
 
     def get_URL(self) -> str:
-- 
2.43.0


From 582e1c27420db067ad4214d7063cc50ffb5e2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:50 +0000
Subject: [PATCH 004/102] fix: keep entities apart that share an identifier but
 not a scheme

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index cc4b5da..50056bb 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -54,9 +54,11 @@ def parse_entity_from_xml(
         f"Could not find text in identifier element {identifier_element}",
         return None
 
-    if characteristic_repository.has(entity_id, EntityCharacteristic):
-        return characteristic_repository.get(entity_id, EntityCharacteristic)
+    # the same identifier denotes different entities under different schemes
+    characteristic_id = f"{entity_url} {entity_id}"
+    if characteristic_repository.has(characteristic_id, EntityCharacteristic):
+        return characteristic_repository.get(characteristic_id, EntityCharacteristic)
     else:
         entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-        characteristic_repository.upsert(entity_id, entity_characteristic)
+        characteristic_repository.upsert(characteristic_id, entity_characteristic)
         return entity_characteristic
-- 
2.43.0


From 7304b7f1949c98ce140fd93564e5fe09d5a18d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:54 +0000
Subject: [PATCH 005/102] fix: do not crash on a typed member of an unknown
 dimension

---
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b06f67c..76b7a1a 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -72,6 +72,8 @@ def parse_typed_dimension_from_xml(
             dimension=dimension_axis,
         )
 
+        return None
+
     i_report_element = report_element_repository.get_typed_by_qname(
         dimension_qname, Dimension
     )
-- 
2.43.0


From ed2246ccd1dfafaded2fd8437d4ebeb39dd551ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:03 +0000
Subject: [PATCH 006/102] fix: read dimensions from the scenario and skip
 comments between dimensions

---
 brel/parsers/XML/xml_context_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index afb42bb..d9bf87e 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -67,11 +67,16 @@ def parse_context_xml(
     if entity is not None:
         fact_context._add_characteristic(entity)
 
-    # add the dimensions. the dimensions are the children of context/entity/segment
+    # add the dimensions. the dimensions are the children of context/entity/segment and context/scenario
     segment = context_entity.find("{*}segment", namespaces=None)
+    scenario = xml_element.find("{*}scenario", namespaces=None)
 
-    if segment is not None:
-        for xml_dimension in segment:
+    for container in (segment, scenario):
+        if container is None:
+            continue
+
+        # only look at elements, not at comments or processing instructions
+        for xml_dimension in container.iterchildren("*"):
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
-- 
2.43.0


From 90615e610c0f38eab8948fbffd0baa5a8b41b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:07 +0000
Subject: [PATCH 007/102] fix: identify dimension characteristics by name and
 not by the prefixes of one document

---
 .../characteristics/xml_parse_explicit_dimension.py | 13 ++++++++-----
 .../characteristics/xml_parse_typed_dimension.py    | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b75f1ec..d1ed1b5 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -48,10 +48,6 @@ def parse_explicit_dimension_from_xml(
     error_repository = filing_context.get_error_repository()
 
     aspect_id = get_str_attribute(xml_element, "dimension")
-    if not characteristic_repository.has(aspect_id, ExplicitDimensionCharacteristic):
-        aspect_repository.upsert(Aspect(aspect_id, []))
-
-    aspect = aspect_repository.get(aspect_id)
     dimension_qname = qname_from_str(aspect_id, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
@@ -83,7 +79,14 @@ def parse_explicit_dimension_from_xml(
 
     member = report_element_repository.get_typed_by_qname(member_qname, Member)
 
-    dimension_id = f"{aspect_id} {member_id}"
+    # prefixes depend on the document, so the characteristic is identified by the names
+    aspect_name = dimension.get_name().prefix_local_name_notation()
+    if not aspect_repository.has(aspect_name):
+        aspect_repository.upsert(Aspect(aspect_name, []))
+
+    aspect = aspect_repository.get(aspect_name)
+
+    dimension_id = f"{dimension_qname.clark_notation()} {member_qname.clark_notation()}"
     if not characteristic_repository.has(dimension_id, ExplicitDimensionCharacteristic):
         characteristic_repository.upsert(
             dimension_id,
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 76b7a1a..d973cd1 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -60,10 +60,6 @@ def parse_typed_dimension_from_xml(
 
     dimension_axis = get_str_attribute(xml_element, "dimension")
 
-    if not aspect_repository.has(dimension_axis):
-        aspect_repository.upsert(Aspect(dimension_axis, []))
-    dimension_aspect = aspect_repository.get(dimension_axis)
-
     dimension_qname = qname_from_str(dimension_axis, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
@@ -104,7 +100,14 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_id = f"{dimension_axis} {dimension_value}"
+    # prefixes depend on the document, so the characteristic is identified by the names
+    aspect_name = i_report_element.get_name().prefix_local_name_notation()
+    if not aspect_repository.has(aspect_name):
+        aspect_repository.upsert(Aspect(aspect_name, []))
+
+    dimension_aspect = aspect_repository.get(aspect_name)
+
+    dimension_id = f"{dimension_qname.clark_notation()} {dimension_value}"
     if not characteristic_repository.has(dimension_id, TypedDimensionCharacteristic):
         dimension_characteristic = TypedDimensionCharacteristic(
             i_report_element, dimension_value, dimension_aspect
-- 
2.43.0


From ba4bc569adc8c092ed1b627f4e466bae0a3c5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 008/102] fix: resolve unit ids within the instance document
 they are used in

---
 brel/parsers/XML/xml_facts_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 93a1453..8ae63ae 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -121,7 +121,7 @@ def parse_facts_xml(
 
     xml_service = context.get_xml_service()
 
-    for xbrl_instance in xml_service.get_all_etrees():
+    for document_index, xbrl_instance in enumerate(xml_service.get_all_etrees()):
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -165,15 +165,17 @@ def parse_facts_xml(
 
                     continue
 
-                if not characteristics_repository.has(unit_id, UnitCharacteristic):
+                # unit ids are only unique within one document
+                unit_key = f"{document_index} {unit_id}"
+                if not characteristics_repository.has(unit_key, UnitCharacteristic):
                     new_unit = parse_unit_from_xml(context, unit_xml)
                     if not new_unit:
                         continue
 
-                    characteristics_repository.upsert(unit_id, new_unit)
+                    characteristics_repository.upsert(unit_key, new_unit)
 
                 unit_characteristic = characteristics_repository.get(
-                    unit_id, UnitCharacteristic
+                    unit_key, UnitCharacteristic
                 )
 
                 fact_characteristics.append(
-- 
2.43.0


From 2fe1bc520ad341006a533f141779b7c51b902d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:14 +0000
Subject: [PATCH 009/102] fix: keep all measures of a unit

---
 .../XML/characteristics/xml_parse_unit.py     | 109 ++++++++++--------
 1 file changed, 59 insertions(+), 50 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 21fe6a9..129bb85 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -63,9 +63,12 @@ def parse_unit_from_xml(
     numerators: list[QName] = []
     denominators: list[QName] = []
 
-    # get the child elements of the unit and check if its tag is 'measure' or 'divide'
-    children = list(xml_element)
-    if len(children) != 1:
+    # get the child elements of the unit. it has either one or more 'measure' children or one 'divide' child
+    children = list(xml_element.iterchildren("*"))
+
+    if len(children) == 0 or (
+        len(children) > 1 and any("measure" not in child.tag for child in children)
+    ):
         error_repository.insert(
             ErrorCode.XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD,
             xml_element,
@@ -73,65 +76,71 @@ def parse_unit_from_xml(
             child_count=str(len(children)),
         )
     else:
-        child = children[0]
-        child_tag = child.tag
-        if "measure" in child_tag:
-            # get its text and parse it into a QName
-            child_qname = parse_unit_measure_from_xml(child, filing_context)
-            if not child_qname:
-                return None
-
-            numerators.append(child_qname)
-
-        elif "divide" in child_tag:
-            num_and_denom = list(child)
-            if len(num_and_denom) != 2:
-                error_repository.insert(
-                    ErrorCode.XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN,
-                    xml_element,
-                    id=unit_id,
-                    child_count=str(len(num_and_denom)),
-                )
+        for child in children:
+            child_tag = child.tag
 
-            for num_or_denom in num_and_denom:
-                num_or_denom_tag = num_or_denom.tag
+            if "measure" in child_tag:
+                # get its text and parse it into a QName
+                child_qname = parse_unit_measure_from_xml(child, filing_context)
 
-                if (
-                    "unitNumerator" not in num_or_denom_tag
-                    and "unitDenominator" not in num_or_denom_tag
-                ):
+                if not child_qname:
+                    return None
+
+                numerators.append(child_qname)
+            elif "divide" in child_tag:
+                num_and_denom = list(child.iterchildren("*"))
+                if len(num_and_denom) != 2:
                     error_repository.insert(
-                        ErrorCode.XML_INVALID_DIVIDE_ELEMENT_CHILDREN,
+                        ErrorCode.XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN,
                         xml_element,
                         id=unit_id,
-                        child_tag=num_or_denom_tag,
+                        child_count=str(len(num_and_denom)),
                     )
 
-                measure_child = num_or_denom[0]
-                child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
+                for num_or_denom in num_and_denom:
+                    num_or_denom_tag = num_or_denom.tag
+
+                    if (
+                        "unitNumerator" not in num_or_denom_tag
+                        and "unitDenominator" not in num_or_denom_tag
+                    ):
+                        error_repository.insert(
+                            ErrorCode.XML_INVALID_DIVIDE_ELEMENT_CHILDREN,
+                            xml_element,
+                            id=unit_id,
+                            child_tag=num_or_denom_tag,
+                        )
+
+                    for measure_child in num_or_denom.iterchildren("*"):
+                        child_qname = parse_unit_measure_from_xml(
+                            measure_child, filing_context
+                        )
+
+                        if not child_qname:
+                            return None
+
+                        if "unitNumerator" in num_or_denom_tag:
+                            numerators.append(child_qname)
+                        elif "unitDenominator" in num_or_denom_tag:
+                            denominators.append(child_qname)
 
-                if not child_qname:
-                    return None
-
-                if "unitNumerator" in num_or_denom_tag:
-                    numerators.append(child_qname)
-                elif "unitDenominator" in num_or_denom_tag:
-                    denominators.append(child_qname)
-
-            if num_and_denom[0].tag == num_and_denom[1].tag:
+                if (
+                    len(num_and_denom) == 2
+                    and num_and_denom[0].tag == num_and_denom[1].tag
+                ):
+                    error_repository.insert(
+                        ErrorCode.XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN,
+                        xml_element,
+                        id=unit_id,
+                        tag=num_and_denom[0].tag,
+                    )
+            else:
                 error_repository.insert(
-                    ErrorCode.XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN,
+                    ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN,
                     xml_element,
                     id=unit_id,
-                    tag=num_and_denom[0].tag,
+                    child_tag=child_tag,
                 )
-        else:
-            error_repository.insert(
-                ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN,
-                xml_element,
-                id=unit_id,
-                child_tag=child_tag,
-            )
 
     # create the unit characteristic, add it to the cache and return it
     unit_characteristic = UnitCharacteristic(unit_id, numerators, denominators)
-- 
2.43.0


From 7b31999bfe0fe7cc354232305097c48367df53e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:00 +0000
Subject: [PATCH 010/102] fix: keep the exact order of definition arcs, one
 when it is absent

---
 brel/parsers/XML/networks/xml_definition_network_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2a67a3d..9d03519 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -72,7 +72,7 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0)
+            order = float(xml_arc.attrib.get("order") or 1.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -144,7 +144,7 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0).__round__()
+            order = float(xml_arc.attrib.get("order") or 1.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From 43967c542950cd1a7ec9f19fc02ba82cda02cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:29 +0000
Subject: [PATCH 011/102] fix: give every arc of a link its own order, weight
 and preferred label, in document order

---
 .../XML/networks/xml_extended_link_parser.py  | 151 +++++++-----------
 1 file changed, 59 insertions(+), 92 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 579f7a0..a44496e 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -115,10 +115,13 @@ def parse_xml_link(
         )
 
     for network_factory in network_factories:
+        # every arc that ends in a node gives that node its own order, weight, preferred label, etc.
+        # therefore there is one node per incoming arc, plus one root node for nodes without an incoming arc.
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: set[tuple[str, str, str]] = set()
+        nodes_by_arc: dict[tuple[str, str, str], list[INetworkNode]] = defaultdict(list)
+        edges: dict[tuple[str, str, str], lxml.etree._Element] = {}  # type: ignore
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: set[INetworkNode] = set()
+        roots: list[INetworkNode] = []
 
         for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
             arc_from = get_str_attribute(arc_element, "xlink:from")
@@ -134,7 +137,7 @@ def parse_xml_link(
                 )
                 continue
 
-            edges.add((arc_from, arc_to, arc_role))
+            edges[(arc_from, arc_to, arc_role)] = arc_element
             node_to_arcs[arc_from].append(arc_element)
             node_to_arcs[arc_to].append(arc_element)
 
@@ -163,101 +166,66 @@ def parse_xml_link(
                 )
             )
 
+            # the arcs for which a root node is needed. None stands for a node without any arcs
+            root_arcs: list[lxml.etree._Element | None] = []  # type: ignore
             if network_factory.is_physical():
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.add(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    outgoing_role_types = set(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
-                    )
-
-                    incoming_role_types = set(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
-                    )
-
-                    for role_type in incoming_role_types.union(outgoing_role_types):
-                        node_arcs.sort(
-                            key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
-                            reverse=True,
-                        )
-
-                        arc = next(
-                            (
-                                arc
-                                for arc in node_arcs
-                                if get_str_attribute(arc, "xlink:arcrole") == role_type
-                            ),
-                            None,
-                        )
-
-                        node = network_factory.create_node(
-                            xml_link_element,
-                            link_element,
-                            arc,
-                            to_object,
-                            error_repository,
-                        )
-
-                        if node is None:
-                            continue
-
-                        if role_type not in incoming_role_types:
-                            roots.add(node)
-                        nodes_lookup[label].append(node)
-
-            else:
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.add(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
-
-                    node = network_factory.create_node(
-                        xml_link_element, link_element, arc, to_object, error_repository
-                    )
-
-                    if node is None:
-                        continue
-
-                    if len(arcs_to) == 0:
-                        roots.add(node)
-                    nodes_lookup[label].append(node)
+                # there is one network per arc role
+                incoming_role_types = set(
+                    get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
+                )
+                root_arcs_by_role_type: dict[str, lxml.etree._Element] = {}  # type: ignore
+                for arc in arcs_from:
+                    role_type = get_str_attribute(arc, "xlink:arcrole")
+                    if role_type not in incoming_role_types:
+                        root_arcs_by_role_type.setdefault(role_type, arc)
+                root_arcs.extend(root_arcs_by_role_type.values())
+            elif len(arcs_to) == 0:
+                root_arcs.extend(arcs_from[:1])
+
+            if len(arcs_to) == 0 and len(arcs_from) == 0:
+                root_arcs.append(None)
+
+            for arc in arcs_to:
+                node = network_factory.create_node(
+                    xml_link_element, link_element, arc, to_object, error_repository
+                )
+
+                if node is None:
+                    continue
+
+                nodes_lookup[label].append(node)
+                edge = (
+                    get_str_attribute(arc, "xlink:from"),
+                    label,
+                    get_str_attribute(arc, "xlink:arcrole"),
+                )
+                nodes_by_arc[edge].append(node)
+
+            for root_arc in root_arcs:
+                node = network_factory.create_node(
+                    xml_link_element,
+                    link_element,
+                    root_arc,
+                    to_object,
+                    error_repository,
+                )
+
+                if node is None:
+                    continue
+
+                roots.append(node)
+                nodes_lookup[label].append(node)
 
         # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
-        for arc_from, arc_to, arc_role in edges:
+        for edge in edges:
+            arc_from, _, arc_role = edge
             from_nodes = nodes_lookup[arc_from]
-            to_nodes = nodes_lookup[arc_to]
+            to_nodes = nodes_by_arc[edge]
 
             if network_factory.is_physical():
                 from_nodes = list(
                     filter(lambda node: node.get_arc_role() == arc_role, from_nodes)
                 )
-                to_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, to_nodes)
-                )
 
             for from_node, to_node in itertools.product(from_nodes, to_nodes):
                 # Now we can link the nodes
@@ -270,7 +238,7 @@ def parse_xml_link(
             continue
 
         if network_factory.is_physical():
-            role_types = set(node.get_arc_role() for node in roots)
+            role_types = list(dict.fromkeys(node.get_arc_role() for node in roots))
             for role_type in role_types:
                 role_type_roots = [
                     node for node in roots if node.get_arc_role() == role_type
@@ -283,8 +251,7 @@ def parse_xml_link(
                 )
                 networks.append(network)
         else:
-            root_nodes = list(roots)
-            network = network_factory.create_network(xml_link_element, root_nodes)
+            network = network_factory.create_network(xml_link_element, roots)
             network_factory.update_report_elements(
                 context.get_report_element_repository(), network
             )
-- 
2.43.0


From dd766806ea2c7fb9ccce6040a54faa42f6c8674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:42 +0000
Subject: [PATCH 012/102] fix: give every remote document a cache file of its
 own

---
 brel/parsers/utils/file_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index c05b40a..59b3933 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import hashlib
 import re
 
 
@@ -29,7 +30,8 @@ def uri_to_filename(uri: str) -> str:
         else:
             return posix_uri
 
-    uri = uri.replace("." + file_format, "")
+    original_uri = uri
+    uri = uri.removesuffix(file_format)
 
     if "http" in uri:
         # remove http and https
@@ -51,4 +53,10 @@ def uri_to_filename(uri: str) -> str:
     # replace all \ with _
     uri = uri.replace("\\", "_")
 
-    return uri + file_format
+    # file systems restrict the characters and the length of a file name
+    uri = re.sub(r"[^A-Za-z0-9_-]", "_", uri)[:150]
+
+    # different uris can be equal once their special characters are replaced
+    digest = hashlib.sha256(original_uri.encode("utf-8")).hexdigest()[:16]
+
+    return uri + "_" + digest + file_format[:20]
-- 
2.43.0


From ac833616b3c3132140fff36976a5084789a4ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:10 +0000
Subject: [PATCH 013/102] fix: cache remote documents byte for byte and only
 once they are complete

---
 brel/data/file/pyfs_file_repository.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 5c40743..11e10dd 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -11,6 +11,8 @@ It downloads and caches files from the internet and the local file system.
 =================
 """
 
+import uuid
+
 import fs
 from brel.data.file.file_repository import FileRepository
 from brel.parsers.utils.file_utils import uri_to_filename
@@ -28,10 +30,17 @@ class PyFsFileRepository(FileRepository):
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writetext(
-            uri_to_filename(uri),
-            file.read().decode("utf-8"),
-        )
+        # the file only gets its final name when it is complete, as a partial
+        # file would be taken for the cached document by the next filing
+        file_name = uri_to_filename(uri)
+        temporary_file_name = f".{uuid.uuid4().hex}.part"
+        try:
+            self.fs.writebytes(temporary_file_name, file.read())
+            self.fs.move(temporary_file_name, file_name, overwrite=True)
+        except BaseException:
+            if self.fs.exists(temporary_file_name):
+                self.fs.remove(temporary_file_name)
+            raise
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
-- 
2.43.0


From 105942c0c17b6f1fa6582a6b019e36f0d06ec702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:13 +0000
Subject: [PATCH 014/102] fix: read local files from where they are instead of
 from a cache keyed by base name

---
 brel/services/xml/xml_service.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ae53ca7..e3478aa 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,7 +9,7 @@
 """
 
 import re
-from typing import List, Optional, Set
+from typing import IO, List, Optional, Set
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
 import urllib
@@ -64,21 +64,22 @@ class XMLService:
 
         parser = self.__parser_resolver.get_parser(uri)
 
-        if self.__file_service.has_file(uri):
-            with self.__file_service.get_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
-        elif is_uri_remote:
-            with self.__file_service.download_and_add_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
-        else:
-            local_filepath = urllib.parse.urlparse(uri).path
-            with self.__file_service.copy_and_add_file(local_filepath) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+        with self.__open_file(uri, is_uri_remote) as file:
+            self.__xml_repository.add_etree(uri, parser(file))
 
-        with self.__file_service.get_file(uri) as file:
+        with self.__open_file(uri, is_uri_remote) as file:
             for reference_uri in self.__extract_references(file.read()):
                 self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
+    def __open_file(self, uri: str, is_uri_remote: bool) -> IO[bytes]:
+        # only remote files are cached. A local file can change between two filings
+        # and shares its base name with files in other directories.
+        if not is_uri_remote:
+            return open(urllib.parse.urlparse(uri).path, "rb")
+        if self.__file_service.has_file(uri):
+            return self.__file_service.get_file(uri)
+        return self.__file_service.download_and_add_file(uri)
+
     def __extract_references(self, content: bytes) -> set[str]:
         reference_uris: set[str] = set()
         reference_pattern = re.compile(
-- 
2.43.0


From e4fc211e5e4730935c0804c687e7e4a86336dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 015/102] fix: find the referenced documents in the parsed
 document and not in its raw text

---
 brel/services/xml/xml_service.py | 46 +++++++++++++-------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index e3478aa..3363384 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,8 +8,7 @@
 ====================
 """
 
-import re
-from typing import IO, List, Optional, Set
+from typing import IO, Dict, List, Optional, Set
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
 import urllib
@@ -20,6 +19,9 @@ from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 
+XLINK_HREF = "{http://www.w3.org/1999/xlink}href"
+XSI_SCHEMA_LOCATION = "{http://www.w3.org/2001/XMLSchema-instance}schemaLocation"
+
 
 class XMLService:
     def __init__(
@@ -67,9 +69,8 @@ class XMLService:
         with self.__open_file(uri, is_uri_remote) as file:
             self.__xml_repository.add_etree(uri, parser(file))
 
-        with self.__open_file(uri, is_uri_remote) as file:
-            for reference_uri in self.__extract_references(file.read()):
-                self.add_etree_recursive(reference_uri, referencing_uri=uri)
+        for reference_uri in self.__extract_references(self.get_etree(uri)):
+            self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
     def __open_file(self, uri: str, is_uri_remote: bool) -> IO[bytes]:
         # only remote files are cached. A local file can change between two filings
@@ -80,30 +81,21 @@ class XMLService:
             return self.__file_service.get_file(uri)
         return self.__file_service.download_and_add_file(uri)
 
-    def __extract_references(self, content: bytes) -> set[str]:
-        reference_uris: set[str] = set()
-        reference_pattern = re.compile(
-            r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
-        )
-
-        for match in reference_pattern.finditer(content.decode("utf-8")):
-            href = match.group(1)
-            if href:
-                if "#" in href:
-                    href_uri, _ = href.split("#")
-                else:
-                    href_uri = href
-
-                if href_uri:
-                    reference_uris.add(href_uri)
-
-            schema_location = match.group(2)
-            if schema_location:
+    def __extract_references(self, tree: _ElementTree) -> List[str]:
+        # in document order, each uri once
+        reference_uris: Dict[str, None] = {}
+
+        for element in tree.iter("{*}*"):
+            href_uri, _ = urllib.parse.urldefrag(element.get(XLINK_HREF, "").strip())
+            if href_uri:
+                reference_uris[href_uri] = None
+
+            for attribute in ("schemaLocation", XSI_SCHEMA_LOCATION):
                 # get only last part, as there can be 2 links, only the second of which is relevant in our case.
-                schema_location = schema_location.split()[-1]
-                reference_uris.add(schema_location)
+                for schema_location in element.get(attribute, "").split()[-1:]:
+                    reference_uris[schema_location] = None
 
-        return reference_uris
+        return list(reference_uris)
 
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
-- 
2.43.0


From 385fc5400dc1f37aa9cdf23fe0f74aa7eea96aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:27 +0000
Subject: [PATCH 016/102] fix: load a document once however the path to it is
 written, and rewritten documents from disk

---
 brel/services/xml/xml_service.py | 41 ++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 3363384..31e3bff 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import os
 from typing import IO, Dict, List, Optional, Set
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
@@ -19,6 +20,7 @@ from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 
+REMOTE_SCHEMES = ("http://", "https://")
 XLINK_HREF = "{http://www.w3.org/1999/xlink}href"
 XSI_SCHEMA_LOCATION = "{http://www.w3.org/2001/XMLSchema-instance}schemaLocation"
 
@@ -46,37 +48,40 @@ class XMLService:
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
-        if not is_uri_remote:
-            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
-            uri_splitting_char = "\\" if "\\" in uri else "/"
-
-            uri = uri_splitting_char.join(
-                referencing_uri.split(referencing_splitting_char)[:-1]
-                + uri.split(uri_splitting_char)
-            )
-        else:
-            uri = urllib.parse.urljoin(referencing_uri, uri)
-
-        uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        uri = self.__resolve_uri(uri, referencing_uri)
 
         if self.__xml_repository.has_etree(uri):
             return
 
         parser = self.__parser_resolver.get_parser(uri)
 
-        with self.__open_file(uri, is_uri_remote) as file:
+        with self.__open_file(uri) as file:
             self.__xml_repository.add_etree(uri, parser(file))
 
         for reference_uri in self.__extract_references(self.get_etree(uri)):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
-    def __open_file(self, uri: str, is_uri_remote: bool) -> IO[bytes]:
+    def __resolve_uri(self, uri: str, referencing_uri: str) -> str:
+        if uri.startswith(REMOTE_SCHEMES) or referencing_uri.startswith(REMOTE_SCHEMES):
+            uri = urllib.parse.urljoin(referencing_uri, uri)
+        else:
+            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
+            uri_splitting_char = "\\" if "\\" in uri else "/"
+
+            uri = uri_splitting_char.join(
+                referencing_uri.split(referencing_splitting_char)[:-1]
+                + uri.split(uri_splitting_char)
+            )
+
+        uri = self.__uri_rewrite_repository.rewrite(uri)
+        # the same local file can be reached over different paths
+        return uri if uri.startswith(REMOTE_SCHEMES) else os.path.normpath(uri)
+
+    def __open_file(self, uri: str) -> IO[bytes]:
         # only remote files are cached. A local file can change between two filings
         # and shares its base name with files in other directories.
-        if not is_uri_remote:
-            return open(urllib.parse.urlparse(uri).path, "rb")
+        if not uri.startswith(REMOTE_SCHEMES):
+            return open(uri, "rb")
         if self.__file_service.has_file(uri):
             return self.__file_service.get_file(uri)
         return self.__file_service.download_and_add_file(uri)
-- 
2.43.0


From 2029ecb4693c0e497f4a8dae52555b344a8c74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:42 +0000
Subject: [PATCH 017/102] fix: rewrite uris by their longest start string

---
 brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
index f049936..5c797b0 100644
--- a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
+++ b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
@@ -22,7 +22,10 @@ class InMemoryURIRewriteRepository(URIRewriteRepository):
         del self.__catalog[original_string]
 
     def rewrite(self, uri: str) -> str:
-        for original_string, replacement_string in self.__catalog.items():
+        # the longest matching start string takes precedence (XML Catalogs 7.2.2)
+        for original_string, replacement_string in sorted(
+            self.__catalog.items(), key=lambda entry: len(entry[0]), reverse=True
+        ):
             if uri.startswith(original_string):
                 return replacement_string + uri[len(original_string) :]
 
-- 
2.43.0


From c226db9874fcae285eaca1f264d1d3cada61e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:44 +0000
Subject: [PATCH 018/102] fix: record an unavailable remote document and go on
 without it

---
 brel/services/file/file_service.py | 14 ++++++++------
 brel/services/xml/xml_service.py   |  7 ++++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 9f52118..bcb6a57 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -11,7 +11,7 @@
 import time
 from io import BytesIO
 from typing import IO
-from requests import Session
+from requests import RequestException, Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
 from brel.errors.error_code import ErrorCode
@@ -48,18 +48,20 @@ class FileService:
             }
             time.sleep(0.1)
 
-        response = self.__session.get(uri, headers=headers, timeout=10)
         try:
+            response = self.__session.get(uri, headers=headers, timeout=10)
             response.raise_for_status()
-            file = BytesIO(response.content)
-            self.add_file(uri, file)
-        except:
+        except RequestException as error:
             self.__error_repository.insert(
                 ErrorCode.UNAVAILABLE_REMOTE_FILE,
                 uri=uri,
-                status_code=str(response.status_code),
+                status_code=str(
+                    error.response.status_code if error.response is not None else None
+                ),
             )
+            raise
 
+        self.add_file(uri, BytesIO(response.content))
         return self.get_file(uri)
 
     def copy_and_add_file(self, local_path: str) -> IO[bytes]:
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 31e3bff..fd66ac4 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -12,6 +12,7 @@ import os
 from typing import IO, Dict, List, Optional, Set
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
+from requests import RequestException
 import urllib
 
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
@@ -59,7 +60,11 @@ class XMLService:
             self.__xml_repository.add_etree(uri, parser(file))
 
         for reference_uri in self.__extract_references(self.get_etree(uri)):
-            self.add_etree_recursive(reference_uri, referencing_uri=uri)
+            try:
+                self.add_etree_recursive(reference_uri, referencing_uri=uri)
+            except RequestException:
+                # the file service has recorded that the document is unavailable
+                continue
 
     def __resolve_uri(self, uri: str, referencing_uri: str) -> str:
         if uri.startswith(REMOTE_SCHEMES) or referencing_uri.startswith(REMOTE_SCHEMES):
-- 
2.43.0


From bb5507d90fe3ef806655ea385923d756b67e0ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 019/102] fix: do not depend on the prefixes a document binds
 to the XBRL namespaces

---
 .../XML/networks/xml_networks_parser.py       |  7 +-
 brel/parsers/XML/xml_component_parser.py      | 14 ++--
 brel/parsers/XML/xml_report_element_parser.py |  5 +-
 brel/parsers/utils/lxml_utils.py              | 68 ++++++++++++++-----
 4 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_networks_parser.py b/brel/parsers/XML/networks/xml_networks_parser.py
index 95e5d3e..2967b93 100644
--- a/brel/parsers/XML/networks/xml_networks_parser.py
+++ b/brel/parsers/XML/networks/xml_networks_parser.py
@@ -26,7 +26,6 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
 )
 from brel.parsers.utils.network_utils import combine_networks
-from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import *
 from brel.resource import *
 
@@ -83,16 +82,14 @@ def parse_networks_from_xmls(
 
     link_xmls.sort(
         key=lambda link: is_standard_role(
-            get_str_attribute(link, qname_from_str("xlink:role", link), "")
+            get_str_attribute(link, "xlink:role", "")
         ),
         reverse=True,
     )
 
     # First pass: parse networks
     for link_xml in link_xmls:
-        link_role = get_str_attribute_optional(
-            link_xml, qname_from_str("xlink:role", link_xml)
-        )
+        link_role = get_str_attribute_optional(link_xml, "xlink:role")
         if link_role is None:
             error_repository.insert(ErrorCode.MISSING_LINK_ROLE, link_xml)
             continue
diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 0904116..12f2919 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -29,6 +29,9 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
 from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.qnames.qname_utils import qname_from_str, to_clark_notation
+
+LINK_NAMESPACE = "http://www.xbrl.org/2003/linkbase"
 
 
 def parse_component_from_xml(
@@ -43,10 +46,13 @@ def parse_component_from_xml(
     info_element = find_element(xml_element, "link:definition")
     info = (info_element.text or "") if info_element is not None else ""
 
-    used_ons = [used_on.text for used_on in find_elements(xml_element, "link:usedOn")]
+    used_ons = [
+        qname_from_str((used_on.text or "").strip(), used_on).clark_notation()
+        for used_on in find_elements(xml_element, "link:usedOn")
+    ]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
 
-    if "link:presentationLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "presentationLink") not in used_ons and any(
         map(lambda n: isinstance(n, PresentationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -55,7 +61,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:calculationLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "calculationLink") not in used_ons and any(
         map(lambda n: isinstance(n, CalculationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -64,7 +70,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:definitionLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "definitionLink") not in used_ons and any(
         map(lambda n: isinstance(n, DefinitionNetwork), networks_in_component)
     ):
         error_repository.insert(
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 703202c..e70be81 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -82,9 +82,8 @@ def parse_report_element(
         report_element_repository.upsert(report_element)
 
         if isinstance(report_element, Dimension):
-            typed_domain_ref = qname_from_str(
-                to_namespace_localname_notation("xbrldt", "typedDomainRef"),
-                report_element_xml,
+            typed_domain_ref = to_namespace_localname_notation(
+                "xbrldt", "typedDomainRef"
             )
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 06a04dd..e5b4f70 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -15,11 +15,52 @@ import lxml.etree
 from lxml.etree import _Element, _ElementTree, XPath  # type: ignore
 
 from brel.qnames.qname_utils import (
-    is_clark_notation,
     is_namespace_localname_notation,
     qname_from_str,
+    to_clark_notation,
 )
 
+# The prefixes which Brel uses for the names that are defined by the XBRL specifications.
+# A document is free to bind other prefixes to these namespaces.
+CONVENTIONAL_PREFIXES = {
+    "xml": "http://www.w3.org/XML/1998/namespace",
+    "xs": "http://www.w3.org/2001/XMLSchema",
+    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
+    "xlink": "http://www.w3.org/1999/xlink",
+    "link": "http://www.xbrl.org/2003/linkbase",
+    "xbrli": "http://www.xbrl.org/2003/instance",
+    "xbrldt": "http://xbrl.org/2005/xbrldt",
+    "xbrldi": "http://xbrl.org/2006/xbrldi",
+}
+INLINE_XBRL_NAMESPACES = [
+    "http://www.xbrl.org/2013/inlineXBRL",
+    "http://www.xbrl.org/2008/inlineXBRL",
+]
+
+
+def get_conventional_nsmap(element: _Element) -> Dict[str, str]:
+    """
+    :param element: lxml.etree.Element to get the namespaces from
+    :returns: the prefixes in scope of the element, with the conventional prefixes bound to their namespaces
+    """
+    nsmap = {k: v for k, v in element.nsmap.items() if k is not None}
+    nsmap.update(CONVENTIONAL_PREFIXES)
+    for inline_namespace in INLINE_XBRL_NAMESPACES:
+        if inline_namespace in element.nsmap.values():
+            nsmap["ix"] = inline_namespace
+            break
+    return nsmap
+
+
+def get_attribute_clark_notation(element: _Element, attribute: str | QName) -> str:
+    if isinstance(attribute, QName):
+        return attribute.clark_notation()
+    if is_namespace_localname_notation(attribute):
+        prefix, local_name = attribute.split(":")
+        uri = CONVENTIONAL_PREFIXES.get(prefix) or element.nsmap.get(prefix)
+        return to_clark_notation(str(uri), local_name)
+    return attribute
+
 
 def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     """
@@ -28,10 +69,7 @@ def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     :param attribute: str containing the name of the attribute
     :returns: bool indicating if the attribute is present
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_clark_notation(element, attribute)
 
     return attribute in element.attrib
 
@@ -48,10 +86,7 @@ def get_str_attribute(
     :raises: if the attribute is not found and no default value is provided
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_clark_notation(element, attribute)
 
     value = element.get(attribute)
     if value is None:
@@ -70,10 +105,7 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     :return: str containing the value of the attribute
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_clark_notation(element, attribute)
 
     return element.attrib.get(attribute)
 
@@ -94,7 +126,11 @@ def get_prefix_localname_tag(element: _Element) -> str:
     :param element: lxml.etree.Element to get the tag from
     :returns: str containing the tag of the element
     """
-    return qname_from_str(element.tag, element).prefix_local_name_notation()
+    qname = qname_from_str(element.tag, element)
+    for prefix, uri in get_conventional_nsmap(element).items():
+        if uri == qname.get_URL() and (prefix == "ix" or prefix in CONVENTIONAL_PREFIXES):
+            return f"{prefix}:{qname.get_local_name()}"
+    return qname.prefix_local_name_notation()
 
 
 def find_elements(
@@ -109,7 +145,7 @@ def find_elements(
         element = element.getroot()
 
     if not namespaces:
-        namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+        namespaces = get_conventional_nsmap(element)
 
     try:
         find = XPath(xpath_query, namespaces=namespaces)
@@ -129,7 +165,7 @@ def find_element(
     if isinstance(element, _ElementTree):
         element = element.getroot()
 
-    nsmap: Mapping[str, str] = {k: v for k, v in element.nsmap.items() if k is not None}
+    nsmap: Mapping[str, str] = get_conventional_nsmap(element)
     return element.find(xpath_query, namespaces=nsmap)
 
 
-- 
2.43.0


From 7a8730afbadabb3d75a9cb78dd25e2051919e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:32 +0000
Subject: [PATCH 020/102] fix: combine the networks of a role whatever way
 their arcs are split over links

---
 brel/parsers/utils/network_utils.py | 126 +++++++++++++++++-----------
 1 file changed, 78 insertions(+), 48 deletions(-)

diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index d6b369d..20ab711 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -1,7 +1,8 @@
 from brel.networks import INetwork, INetworkNode
 
 # from brel.utils import pprint
-from functools import cmp_to_key
+from collections import defaultdict
+from graphlib import CycleError, TopologicalSorter
 
 
 def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
@@ -28,6 +29,13 @@ def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
         return False
 
 
+def target_key(node: INetworkNode) -> object:
+    # equal nodes have equal keys
+    if node.points_to() == "report element":
+        return node.get_report_element().get_name().clark_notation()
+    return node.points_to()
+
+
 def combine_networks(networks: list[INetwork]) -> INetwork:
     """
     Combine a list of networks into one network.
@@ -39,58 +47,80 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
         raise ValueError("No networks provided.")
 
     # this algorithm works with the following steps:
-    # 1. Get an order of the networks. Networks closer to the root come first.
-    # 2. Create an empty aggregate network.
-    # 3. For each network in the order, add the roots to the aggregate network nodes as children.
+    # 1. Group the nodes of all networks by what they point to.
+    # 2. Give every node the children of all nodes that point to the same thing.
+    # 3. Keep those roots that are not a child of any other node.
+    # Thus, the result does not depend on how the arcs are distributed over the networks.
 
     if len(networks) == 1:
         return networks[0]
 
-    # Step 1. sort the networks by prerequisite
-
-    def is_prerequisite(n1: INetwork, n2: INetwork) -> int:
-        # n1 is a prerequisite of n2 if all roots of n2 are in n1
-        # and if the roots of n2 are not a subset of the roots of n1
-        n1_roots = n1.get_roots()
-        n2_roots = n2.get_roots()
-
-        n1_nodes = n1.get_all_nodes()
-
-        result = all((n2_root in n1_nodes for n2_root in n2_roots)) and not all(
-            (n2_root in n1_roots for n2_root in n2_roots)
-        )
-
-        if result:
-            return -1
-        else:
-            return 1
-
-    networks_sorted = networks.copy()
-    sorted(networks_sorted, key=cmp_to_key(is_prerequisite))
-
-    # Step 2. Make an aggregate network.
-    # In this case we re-use the first network as the aggregate network.
-    agg_network = networks_sorted.pop()
+    # Step 1. group the nodes by what they point to
+    groups: list[list[INetworkNode]] = []
+    groups_by_target: dict[object, list[list[INetworkNode]]] = defaultdict(list)
+    group_of_node: dict[int, int] = {}
+
+    def add_to_groups(node: INetworkNode) -> None:
+        candidates = groups_by_target[target_key(node)]
+        group = next((g for g in candidates if nodes_equal(g[0], node)), None)
+        if group is None:
+            group = []
+            candidates.append(group)
+            groups.append(group)
+        group.append(node)
+
+    pending = [root for network in networks for root in network.get_roots()]
+    pending.reverse()
+    seen: set[int] = set()
+    while pending:
+        node = pending.pop()
+        if id(node) in seen:
+            continue
+        seen.add(id(node))
+        add_to_groups(node)
+        pending.extend(reversed(node.get_children()))
+
+    for index, group in enumerate(groups):
+        for node in group:
+            group_of_node[id(node)] = index
+
+    # Step 2. collect the children of each group
+    children_of_group: list[list[INetworkNode]] = []
+    for group in groups:
+        children = {id(c): c for node in group for c in node.get_children()}
+        children_of_group.append(list(children.values()))
+
+    # the relationships of a network must not have directed cycles.
+    # If they have, then the networks can only be put side by side.
+    agg_network = networks[0]
     agg_roots = agg_network.get_roots()
-
-    def get_all_nodes():
-        all_nodes = []
-        for root in agg_roots:
-            all_nodes.extend(root.get_all_descendants())
-        return all_nodes
-
-    # Step 3. Add the roots of each network to the aggregate network.
-    # if there is a node in the aggregate network that fits, then add the children of the root to that node.
-    # otherwise, add the root to the aggregate networks roots.
-    while len(networks_sorted) > 0:
-        network = networks_sorted.pop()
-        aggregate_nodes = get_all_nodes()
+    successors = {
+        index: {group_of_node[id(child)] for child in children}
+        for index, children in enumerate(children_of_group)
+    }
+    try:
+        TopologicalSorter(successors).prepare()
+    except CycleError:
+        for network in networks[1:]:
+            agg_roots.extend(network.get_roots())
+        return agg_network
+
+    for group, children in zip(groups, children_of_group):
+        for node in group:
+            present = {id(child) for child in node.get_children()}
+            for child in children:
+                if id(child) not in present:
+                    node._add_child(child)  # type: ignore
+
+    # Step 3. a root is superfluous if another node or another root stands for it.
+    taken = set().union(*successors.values())
+    roots: list[INetworkNode] = []
+    for network in networks:
         for root in network.get_roots():
-            parent = next((n for n in aggregate_nodes if nodes_equal(n, root)), None)
-            if parent is None:
-                agg_roots.append(root)
-            else:
-                for child in root.get_children():
-                    parent._add_child(child)
+            index = group_of_node[id(root)]
+            if index not in taken:
+                taken.add(index)
+                roots.append(root)
 
+    agg_roots[:] = roots
     return agg_network
-- 
2.43.0


From afb8d13437e21eaf310dff81ef55dda841946a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:18 +0000
Subject: [PATCH 021/102] fix: read the whole text of facts, labels, footnotes
 and contexts, also around comments and white space

---
 brel/parsers/XML/characteristics/xml_parse_entity.py   |  3 ++-
 .../characteristics/xml_parse_explicit_dimension.py    |  6 +++---
 brel/parsers/XML/characteristics/xml_parse_period.py   |  3 ++-
 .../XML/characteristics/xml_parse_typed_dimension.py   |  9 +++++----
 brel/parsers/XML/characteristics/xml_parse_unit.py     |  4 ++--
 brel/parsers/XML/networks/xml_resource_parser.py       |  8 +++++---
 brel/parsers/XML/xml_component_parser.py               |  6 +++---
 brel/parsers/XML/xml_facts_parser.py                   |  3 ++-
 brel/parsers/utils/lxml_utils.py                       | 10 ++++++++++
 9 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index 50056bb..7c267db 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -14,6 +14,7 @@ It parses XBRL in the XML syntax.
 from typing import Optional
 import lxml.etree
 
+from brel.parsers.utils.lxml_utils import get_text
 from brel.characteristics import EntityCharacteristic
 from brel.contexts.filing_context import FilingContext
 from brel.data.characteristic.characteristic_repository import CharacteristicRepository
@@ -48,7 +49,7 @@ def parse_entity_from_xml(
 
     # The identifier element is guaranteed according to the XBRL 2.1 specification to have a text element
 
-    entity_id = identifier_element.text
+    entity_id = (get_text(identifier_element) or "").strip() or None
 
     if entity_id is None:
         f"Could not find text in identifier element {identifier_element}",
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index d1ed1b5..b0a224e 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -19,7 +19,7 @@ from brel.characteristics import (
 )
 from brel.errors.error_code import ErrorCode
 
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_text, get_str_attribute
 from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Dimension, Member
 from brel.contexts.filing_context import FilingContext
@@ -47,7 +47,7 @@ def parse_explicit_dimension_from_xml(
     aspect_repository = filing_context.get_aspect_repository()
     error_repository = filing_context.get_error_repository()
 
-    aspect_id = get_str_attribute(xml_element, "dimension")
+    aspect_id = get_str_attribute(xml_element, "dimension").strip()
     dimension_qname = qname_from_str(aspect_id, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
@@ -58,7 +58,7 @@ def parse_explicit_dimension_from_xml(
         return None
 
     dimension = report_element_repository.get_typed_by_qname(dimension_qname, Dimension)
-    member_id = xml_element.text
+    member_id = (get_text(xml_element) or "").strip()
     if not member_id:
         error_repository.insert(
             ErrorCode.MISSING_EXPLICIT_DIMENSION_MEMBER,
diff --git a/brel/parsers/XML/characteristics/xml_parse_period.py b/brel/parsers/XML/characteristics/xml_parse_period.py
index 127a04c..df37526 100644
--- a/brel/parsers/XML/characteristics/xml_parse_period.py
+++ b/brel/parsers/XML/characteristics/xml_parse_period.py
@@ -14,6 +14,7 @@ It parses XBRL in the XML syntax.
 from typing import Optional, cast
 import lxml.etree
 
+from brel.parsers.utils.lxml_utils import get_text
 from brel.characteristics import PeriodCharacteristic
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
@@ -23,7 +24,7 @@ def get_context_date_from_xml(
     filing_context: FilingContext,
     xml_element: lxml.etree._Element,
 ) -> Optional[str]:
-    date = xml_element.text
+    date = (get_text(xml_element) or "").strip()
 
     if not PeriodCharacteristic._is_date(date):
         filing_context.get_error_repository().insert(
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index d973cd1..146c74f 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -22,7 +22,7 @@ from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 from brel.parsers.utils.iterable_utils import get_first
 from brel.parsers.utils.error_utils import error_on_none
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_text, get_str_attribute
 from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Dimension
 
@@ -74,14 +74,15 @@ def parse_typed_dimension_from_xml(
         dimension_qname, Dimension
     )
 
-    if len(xml_element) > 1:
+    children = list(xml_element.iterchildren("*"))
+    if len(children) > 1:
         error_repository.insert(
             ErrorCode.MULTIPLE_TYPED_DIMENSION_ELEMENT_CHILDREN,
             xml_element,
             dimension=dimension_axis,
         )
 
-    if len(xml_element) == 0:
+    if len(children) == 0:
         error_repository.insert(
             ErrorCode.NO_TYPED_DIMENSION_ELEMENT_CHILDREN,
             xml_element,
@@ -90,7 +91,7 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_value = xml_element[0].text
+    dimension_value = get_text(children[0])
     if dimension_value is None:
         error_repository.insert(
             ErrorCode.MISSING_TYPED_DIMENSION_VALUE,
diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 129bb85..d6e0558 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -18,7 +18,7 @@ from brel.characteristics import UnitCharacteristic
 from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
-from brel.parsers.utils.lxml_utils import get_str_attribute, get_str_attribute_optional
+from brel.parsers.utils.lxml_utils import get_text, get_str_attribute, get_str_attribute_optional
 from brel.qnames.qname_utils import qname_from_str
 from brel.contexts.filing_context import FilingContext
 from brel.data.characteristic.characteristic_repository import CharacteristicRepository
@@ -28,7 +28,7 @@ def parse_unit_measure_from_xml(
     xml_element: _Element,  # type: ignore
     filing_context: FilingContext,
 ) -> Optional[QName]:
-    child_text = xml_element.text
+    child_text = (get_text(xml_element) or "").strip() or None
     error_repository = filing_context.get_error_repository()
     if child_text is None:
         error_repository.insert(ErrorCode.XML_MISSING_UNIT_MEASURE, xml_element)
diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 2135f6f..e8186f2 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -19,6 +19,7 @@ from brel.parsers.utils.lxml_utils import (
     get_elem_lang_recursive,
     get_str_attribute,
     get_clark_notation_tag,
+    get_text,
 )
 
 
@@ -41,7 +42,7 @@ def parse_xml_resource(
             error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
             return None
 
-        text = xml_element.text if xml_element.text else ""
+        text = get_text(xml_element) or ""
         return BrelLabel(text, label, lang, role)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
@@ -52,11 +53,12 @@ def parse_xml_resource(
             )
             return None
 
-        text = xml_element.text or "".join(child.__str__() for child in xml_element)
+        text = get_text(xml_element) or ""
         return BrelFootnote(text, label, lang, role)
     elif "reference" in tag:
         content = {
-            re.sub(r"^\{.*\}", "", child.tag): child.text for child in xml_element
+            re.sub(r"^\{.*\}", "", child.tag): get_text(child)
+            for child in xml_element.iterchildren("{*}*")
         }
         return BrelReference(content, label, role)
     else:
diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 12f2919..8c952f0 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -28,7 +28,7 @@ from brel.contexts.filing_context import FilingContext
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
-from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.parsers.utils.lxml_utils import get_text, find_element, find_elements, get_str_attribute
 from brel.qnames.qname_utils import qname_from_str, to_clark_notation
 
 LINK_NAMESPACE = "http://www.xbrl.org/2003/linkbase"
@@ -44,10 +44,10 @@ def parse_component_from_xml(
     role_uri = get_str_attribute(xml_element, "roleURI")
 
     info_element = find_element(xml_element, "link:definition")
-    info = (info_element.text or "") if info_element is not None else ""
+    info = (get_text(info_element) or "") if info_element is not None else ""
 
     used_ons = [
-        qname_from_str((used_on.text or "").strip(), used_on).clark_notation()
+        qname_from_str((get_text(used_on) or "").strip(), used_on).clark_notation()
         for used_on in find_elements(xml_element, "link:usedOn")
     ]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 8ae63ae..1ffd53a 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -32,6 +32,7 @@ from brel.parsers.utils.lxml_utils import (
     find_elements,
     get_str_attribute,
     get_clark_notation_tag,
+    get_text,
 )
 
 
@@ -52,7 +53,7 @@ def parse_fact_from_xml(
     fact_id = fact_xml_element.get("id")
 
     fact_concept_name = fact_xml_element.tag
-    fact_value = fact_xml_element.text
+    fact_value = get_text(fact_xml_element)
 
     if fact_value is None:
         if not context.get_concept().get_value().is_nillable():
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index e5b4f70..5ea5963 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -197,6 +197,16 @@ def get_all_nsmaps(
     return nsmaps
 
 
+def get_text(element: _Element) -> Optional[str]:
+    """
+    Get the character content of an element. In contrast to element.text,
+    it does not end at the first comment, processing instruction or child element.
+    :param element: the element to get the text from
+    :returns: the text of the element, or None if the element has no text
+    """
+    return str(element.xpath("string()")) or None
+
+
 def get_elem_lang_recursive(xml_element: _Element | None) -> Optional[str]:
     """
     Recursively traverse the given lxml element up the tree, returning the first xml:lang attribute found.
-- 
2.43.0


From 35a850302686300d291065ce343a0f56965d88a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:49 +0000
Subject: [PATCH 022/102] fix: only accept ISO 8601 dates in periods

---
 brel/characteristics/period_characteristic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index 55b290c..286b91e 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -17,6 +17,7 @@ A duration consists of two `datetime.date` instances, a start date and an end da
 """
 
 import datetime
+import re
 from typing import List, Optional
 
 import dateutil.parser
@@ -124,7 +125,13 @@ class PeriodCharacteristic(ICharacteristic):
         if not date:
             return False
 
+        # dateutil guesses the missing parts of incomplete dates and swaps
+        # the parts of impossible dates, so only ISO 8601 dates and times are let through
+        if not re.match(r"\d{4}-\d{2}-\d{2}(T|Z|[+-]\d{2}:\d{2}$|$)", date):
+            return False
+
         try:
+            datetime.date.fromisoformat(date[:10])
             dateutil.parser.parse(date)
             return True
         except ValueError:
-- 
2.43.0


From 82f6808570e7eb2d26440115a1f993419fe2908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:37 +0000
Subject: [PATCH 023/102] fix: load the files of a folder in a fixed order

---
 brel/parsers/path_loaders/folder_path_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/path_loaders/folder_path_loader.py b/brel/parsers/path_loaders/folder_path_loader.py
index 2ebb8ac..b343e71 100644
--- a/brel/parsers/path_loaders/folder_path_loader.py
+++ b/brel/parsers/path_loaders/folder_path_loader.py
@@ -35,7 +35,7 @@ class FolderPathLoader(PathLoader):
 
         path_parts = path.split(splitting_char)
         files_and_folders = [
-            "/".join(path_parts + [dir_item]) for dir_item in os.listdir(path)
+            "/".join(path_parts + [dir_item]) for dir_item in sorted(os.listdir(path))
         ]
 
         files = [
-- 
2.43.0


From 62f9c044ea49bdd4351ff63430dadd781bcb0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:00 +0000
Subject: [PATCH 024/102] fix: extract the files of a zip archive before they
 are parsed

---
 brel/parsers/path_loaders/zip_path_loader.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index b955013..3e0195a 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -8,17 +8,30 @@
 ====================
 """
 
+import os
+import tempfile
+import zipfile
+
 from brel.parsers.path_loaders.path_loader import PathLoader
 
 
 class ZipPathLoader(PathLoader):
+    def __init__(self) -> None:
+        # the extracted files live as long as the loader
+        self.__directories: list[tempfile.TemporaryDirectory] = []
+
     def is_loader_for(self, path: str) -> bool:
         return path.endswith(".zip")
 
     def load(self, path: str) -> list[str]:
-        import zipfile
-
         with zipfile.ZipFile(path, "r") as zip_ref:
+            directory = tempfile.TemporaryDirectory()
+            self.__directories.append(directory)
+            zip_ref.extractall(directory.name)
             file_list = zip_ref.namelist()
             # More extensions?
-            return [file for file in file_list if file.endswith((".xml", ".xhtml"))]
+            return [
+                os.path.join(directory.name, file)
+                for file in file_list
+                if file.endswith((".xml", ".xhtml"))
+            ]
-- 
2.43.0


From 3ae79c79777c98d174f6d6ca115aa270c79b1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:59 +0000
Subject: [PATCH 025/102] fix: resolve typed domain references relative to
 their schema, allow domains with a type declared in place

---
 brel/data/xml/xml_repository.py               |  6 +++++
 brel/parsers/XML/xml_report_element_parser.py | 24 ++++++++++++-------
 brel/services/xml/xml_service.py              | 16 +++++++++++++
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index a65c593..e8cdd76 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -33,6 +33,12 @@ class XMLRepository:
     def get_etree(self, uri: str) -> lxml.etree._ElementTree:
         return self.__xml_etree_cache[self.normalize_uri(uri)]
 
+    def get_uri(self, etree: lxml.etree._ElementTree) -> str | None:
+        return next(
+            (uri for uri, other in self.__xml_etree_cache.items() if other is etree),
+            None,
+        )
+
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
         return list(self.__xml_etree_cache.values())
 
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index e70be81..b4d5ff0 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -22,6 +22,7 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
     has_str_attribute,
 )
+from brel.qnames.qname import QName
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_clark_notation,
@@ -88,13 +89,15 @@ def parse_report_element(
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
-                ref_schema_name, ref_id = ref_full.split("#")
-                refschema = (
-                    xml_service.get_etree(ref_schema_name)
-                    if ref_schema_name and ref_schema_name != "."
-                    else current_etree
+                ref_schema_name, _, ref_id = ref_full.partition("#")
+                refschema = xml_service.get_referenced_etree(
+                    ref_schema_name, current_etree
+                )
+                ref_xml = (
+                    refschema.find(f".//*[@id='{ref_id}']")
+                    if refschema is not None
+                    else None
                 )
-                ref_xml = refschema.find(f".//*[@id='{ref_id}']")
                 if ref_xml is None:
                     error_repository.insert(
                         ErrorCode.REFERENCED_SCHEMA_ELEMENT_NOT_FOUND,
@@ -103,6 +106,11 @@ def parse_report_element(
                         ref_schema_name=ref_schema_name,
                     )
                     return
-                ref_type = get_str_attribute(ref_xml, "type")
-                ref_type_qname = qname_from_str(ref_type, ref_xml)
+                # the type of the domain can be declared in place, where it has no name
+                ref_type = get_str_attribute_optional(ref_xml, "type")
+                ref_type_qname = (
+                    qname_from_str(ref_type, ref_xml)
+                    if ref_type
+                    else QName("http://www.w3.org/2001/XMLSchema", "xs", "anyType")
+                )
                 report_element.make_typed(ref_type_qname)
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index fd66ac4..1469e32 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -110,6 +110,22 @@ class XMLService:
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
+    def get_referenced_etree(
+        self, uri: str, referencing_etree: _ElementTree
+    ) -> Optional[_ElementTree]:
+        """
+        Get the tree that a uri in another tree refers to.
+        :param uri: The uri as written in the referencing tree.
+        :param referencing_etree: The tree that contains the uri.
+        :returns: The referenced tree. None if there is no such tree.
+        """
+        referencing_uri = self.__xml_repository.get_uri(referencing_etree)
+        if uri in ("", ".") or referencing_uri is None:
+            return referencing_etree
+
+        uri = self.__resolve_uri(uri, referencing_uri)
+        return self.get_etree(uri) if self.__xml_repository.has_etree(uri) else None
+
     def get_all_etrees(self) -> list[_ElementTree]:
         return self.__xml_repository.get_all_etrees()
 
-- 
2.43.0


From ba648bd4bf9aa886fa059ee2dcc8bfa700e308ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:01 +0000
Subject: [PATCH 026/102] fix: unescape references to local files

---
 brel/services/xml/xml_service.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 1469e32..08669de 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -70,6 +70,10 @@ class XMLService:
         if uri.startswith(REMOTE_SCHEMES) or referencing_uri.startswith(REMOTE_SCHEMES):
             uri = urllib.parse.urljoin(referencing_uri, uri)
         else:
+            if referencing_uri != ".":
+                # references are URIs, where e.g. spaces are escaped
+                uri = urllib.parse.unquote(uri)
+
             referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
             uri_splitting_char = "\\" if "\\" in uri else "/"
 
-- 
2.43.0


From d39d4e7ac69d82f96041d89c8d419754dc5ad001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:22 +0000
Subject: [PATCH 027/102] fix: recognise the lexical forms 1 and 0 of abstract
 and nillable

---
 brel/parsers/XML/xml_report_element_factory.py | 2 +-
 brel/reportelements/concept.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 4a03681..34f1c75 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -36,7 +36,7 @@ class XMLReportElementFactory:
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
-        is_abstract = xml_element.get("abstract", "false") == "true"
+        is_abstract = xml_element.get("abstract", "false").strip() in ("true", "1")
 
         is_item = "item" in xml_element.get("substitutionGroup", "")
         is_hypercube_item = "hypercubeItem" in xml_element.get("substitutionGroup", "")
diff --git a/brel/reportelements/concept.py b/brel/reportelements/concept.py
index 0943747..7f95d6b 100644
--- a/brel/reportelements/concept.py
+++ b/brel/reportelements/concept.py
@@ -313,9 +313,9 @@ class Concept(IReportElement):
 
         # get if the concept is nillable
         xml_nillable = xml_element.get("nillable", None)
-        # According to the XBRL 2.1 specification, the nillable attribute can be either true or false.
+        # According to the XBRL 2.1 specification, the nillable attribute is a boolean.
         # It is optional (thus the "None" in possible_nillable_values), and defaults to false.
-        possible_nillable_values = ["true", "false", None]
+        possible_nillable_values = ["true", "1", "false", "0", None]
         if xml_nillable not in possible_nillable_values:
             error_repository.insert(
                 ErrorCode.INVALID_CONCEPT_NILLABLE_VALUE,
@@ -326,7 +326,7 @@ class Concept(IReportElement):
 
             return None
         else:
-            nillable = xml_nillable == "true"
+            nillable = xml_nillable in ("true", "1")
 
         # get the data type of the concept
         data_type = xml_element.get("type", None)
-- 
2.43.0


From a50c342ed3dbfb5b1f84e133461294c227fdc336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:16 +0000
Subject: [PATCH 028/102] fix: create the cache directory when several filings
 are opened at once

---
 brel/data/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/data/factory.py b/brel/data/factory.py
index 3db6090..dad1543 100644
--- a/brel/data/factory.py
+++ b/brel/data/factory.py
@@ -86,6 +86,8 @@ def create_namespace_repository() -> NamespaceRepository:
 
 def create_file_repository() -> FileRepository:
     cache_location = os.path.join(os.path.expanduser("~"), ".brel", "dts_cache")
+    # several filings can be opened at the same time
+    os.makedirs(cache_location, exist_ok=True)
     return PyFsFileRepository(cache_location, clear_cache=False)
 
 
-- 
2.43.0


From b64b740c66d25ea4ff8f4d2330785341e64d495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:06 +0000
Subject: [PATCH 029/102] fix: list network nodes in the order of the network

---
 brel/networks/i_network.py      | 17 ++++++++---------
 brel/networks/i_network_node.py |  6 +++---
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index 2baa6dd..109a7bf 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -23,7 +23,7 @@ They are all implemented in the same way as the calculation network and can be i
 """
 
 from abc import ABC
-from typing import Any, Dict, Set
+from typing import Any, Dict
 
 from brel import QName
 from brel.networks import INetworkNode
@@ -86,8 +86,7 @@ class INetwork(ABC):
         Get all the arc roles that are used by nodes in the network
         :returns list[str]: list of all arc roles that are used by nodes in the network
         """
-        arc_role_set = set([node.get_arc_role() for node in self.get_all_nodes()])
-        return list(arc_role_set)
+        return list(dict.fromkeys(node.get_arc_role() for node in self.get_all_nodes()))
 
     def get_arc_name(self) -> QName | None:
         """
@@ -118,21 +117,21 @@ class INetwork(ABC):
         :returns list[NetworkNode]: containing all nodes in the network
         """
 
-        # create a set to store all nodes in
-        nodes: Set[INetworkNode] = set()
+        # store all nodes once, in the order of the network
+        nodes: Dict[INetworkNode, None] = {}
 
-        # recursive function to add all children of a node to the nodes set
+        # recursive function to add all children of a node to the nodes
         def add_children(node: INetworkNode) -> None:
-            nodes.add(node)
+            nodes[node] = None
             for child in node.get_children():
                 add_children(child)
 
-        # add all children of the root node to the nodes set
+        # add all children of the root node to the nodes
         roots: list[INetworkNode] = self.get_roots()
         for root in roots:
             add_children(root)
 
-        # return the nodes set as a list
+        # return the nodes as a list
         return list(nodes)
 
     def convert_to_dict(self) -> Dict[str, Any]:
diff --git a/brel/networks/i_network_node.py b/brel/networks/i_network_node.py
index cbd829f..f74a974 100644
--- a/brel/networks/i_network_node.py
+++ b/brel/networks/i_network_node.py
@@ -126,12 +126,12 @@ class INetworkNode(ABC):
         Returns all descendants of the current node
         :returns list[NetworkNode]: list containing all descendants of this node
         """
-        descendants = set()
+        descendants: dict["INetworkNode", None] = {}
         worklist: list["INetworkNode"] = [self]
         while len(worklist) > 0:
             node = worklist.pop()
-            descendants.add(node)
-            worklist.extend(node.get_children())
+            descendants[node] = None
+            worklist.extend(reversed(node.get_children()))
 
         return list(descendants)
 
-- 
2.43.0


From 447a1594b6154a2aed2c6465a34426f6a351a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:09 +0000
Subject: [PATCH 030/102] fix: list the languages of a filing in a fixed order

---
 brel/services/xml/xml_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 08669de..51f7146 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -148,6 +148,6 @@ class XMLService:
 
                 all_languages = all_languages.union(tree_languages)
 
-            self.__available_filing_languages = list(all_languages)
+            self.__available_filing_languages = sorted(all_languages)
 
         return self.__available_filing_languages
-- 
2.43.0


From 2f70f4270b746399784101756dcaad976a3babba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:07 +0000
Subject: [PATCH 031/102] fix: look report elements up by their name in clark
 notation

---
 brel/qnames/qname_search_params.py            |  11 +-
 .../report_element/report_element_service.py  | 100 ++++--------------
 2 files changed, 23 insertions(+), 88 deletions(-)

diff --git a/brel/qnames/qname_search_params.py b/brel/qnames/qname_search_params.py
index 53daa7c..3593119 100644
--- a/brel/qnames/qname_search_params.py
+++ b/brel/qnames/qname_search_params.py
@@ -23,7 +23,7 @@ class QNameSearchParams:
         """
         Check if the given string is in Clark notation.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^{}]+)\}(?P<local_name>[^{}:]+)$"
         match = re.match(re_expression, clark_notation)
         return match is not None
 
@@ -32,17 +32,16 @@ class QNameSearchParams:
         """
         Create a QNameSearchParams object from a Clark notation string.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^{}]+)\}(?P<local_name>[^{}:]+)$"
         match = re.match(re_expression, clark_notation)
         if not match:
             raise ValueError(
-                f"Invalid Clark notation: {clark_notation}. Expected format: prefix:local_name"
+                f"Invalid Clark notation: {clark_notation}. Expected format: {{uri}}local_name"
             )
 
-        prefix = match.group("prefix")
+        uri = match.group("uri")
         local_name = match.group("local_name")
-        uri = None
-        return cls(local_name=local_name, uri=uri, prefix=prefix)
+        return cls(local_name=local_name, uri=uri, prefix=None)
 
     @staticmethod
     def is_prefix_local_name_notation(prefix_local_name: str) -> bool:
diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 23d6155..4f6a2c4 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -27,93 +27,18 @@ class ReportElementService:
     def get_fuzzy_typed[
         T: IReportElement
     ](self, search_params: QNameSearchParams, report_element_type: type[T],) -> list[T]:
-        uri_candidates: set[str] = set()
-        if search_params.uri:
-            uri_candidates.add(search_params.uri)
-
-        prefix_candidates: set[str] = set()
-        if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
-
-        if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
-                self.__namespace_repository.get_prefixes(search_params.uri)
-            )
-        elif not search_params.uri and search_params.prefix:
-            uri_candidates = set(
-                self.__namespace_repository.get_uris(search_params.prefix)
-            )
-
-        if uri_candidates or prefix_candidates:
-            qname_candidates = (
-                QName(
-                    uri,
-                    prefix,
-                    search_params.local_name,
-                )
-                for uri in uri_candidates
-                for prefix in prefix_candidates
-            )
-
-            matching_qnames = filter(
-                lambda qname: self.__report_element_repository.has_typed_qname(
-                    qname, report_element_type
-                ),
-                qname_candidates,
-            )
-
-            return [
-                self.__report_element_repository.get_typed_by_qname(
-                    qname, report_element_type
-                )
-                for qname in matching_qnames
-            ]
-        else:
-            return list(
-                filter(
-                    lambda qname: qname.get_name().local_name
-                    == search_params.local_name,
-                    self.__report_element_repository.get_all_typed(report_element_type),
-                )
-            )
+        return [
+            report_element
+            for report_element in self.get_fuzzy(search_params)
+            if isinstance(report_element, report_element_type)
+        ]
 
     def get_fuzzy(self, search_params: QNameSearchParams) -> list[IReportElement]:
-        # TODO schmidi replace with call to find_typed and make typechecker happy somehow
         uri_candidates: set[str] = set()
         if search_params.uri:
             uri_candidates.add(search_params.uri)
-
-        prefix_candidates: set[str] = set()
-        if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
-
-        if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
-                self.__namespace_repository.get_prefixes(search_params.uri)
-            )
-        elif not search_params.uri and search_params.prefix:
-            uri_candidates = set(
-                self.__namespace_repository.get_uris(search_params.prefix)
-            )
-
-        if uri_candidates or prefix_candidates:
-            return list(
-                map(
-                    self.__report_element_repository.get_by_qname,
-                    filter(
-                        lambda qname: self.__report_element_repository.has_qname(qname),
-                        [
-                            QName(
-                                uri,
-                                prefix,
-                                search_params.local_name,
-                            )
-                            for uri in uri_candidates
-                            for prefix in prefix_candidates
-                        ],
-                    ),
-                )
-            )
+        elif search_params.prefix:
+            uri_candidates = self.__namespace_repository.get_uris(search_params.prefix)
         else:
             return list(
                 filter(
@@ -122,3 +47,14 @@ class ReportElementService:
                     self.__report_element_repository.get_all(),
                 )
             )
+
+        # the prefix is not part of the name, so there is one qname per uri
+        qname_candidates = [
+            QName(uri, search_params.prefix or "", search_params.local_name)
+            for uri in sorted(uri_candidates)
+        ]
+        return [
+            self.__report_element_repository.get_by_qname(qname)
+            for qname in qname_candidates
+            if self.__report_element_repository.has_qname(qname)
+        ]
-- 
2.43.0


From 67b8248156d683931c9a0c4964751ccba7d66246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:52 +0000
Subject: [PATCH 032/102] fix: read remote documents whose address has a query

---
 brel/services/xml/xml_file_parser_resolver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_file_parser_resolver.py b/brel/services/xml/xml_file_parser_resolver.py
index 4240e0c..4088ade 100644
--- a/brel/services/xml/xml_file_parser_resolver.py
+++ b/brel/services/xml/xml_file_parser_resolver.py
@@ -27,7 +27,9 @@ class XMLFileParserResolver:
         }
 
     def get_parser(self, file_name: str) -> Callable[[IO[bytes]], _ElementTree]:
+        # the query of a url is not part of the file name
+        path = file_name.split("?")[0] if "://" in file_name else file_name
         for ext, parser in self.__parsers.items():
-            if file_name.endswith(ext):
+            if path.endswith(ext):
                 return parser
         raise ValueError(f"No parser registered for: {file_name}")
-- 
2.43.0


From 6f8578a7844ae7ad9c7252d2dc64964c7ebb9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:11 +0000
Subject: [PATCH 033/102] fix: roots of footnote networks had no arc name

---
 brel/parsers/XML/networks/xml_footnote_network_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_footnote_network_factory.py b/brel/parsers/XML/networks/xml_footnote_network_factory.py
index c00247a..b7338e4 100644
--- a/brel/parsers/XML/networks/xml_footnote_network_factory.py
+++ b/brel/parsers/XML/networks/xml_footnote_network_factory.py
@@ -82,7 +82,7 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
             order = 1.0
-            arc_qname = qname_from_str("link:unknown", xml_referenced_element)
+            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif (
             get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "to"), None
-- 
2.43.0


From 9713ee7c04b97b61a555ab7dcb1cb97248ca27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:12 +0000
Subject: [PATCH 034/102] fix: 1 and 0 are boolean values

---
 brel/brel_fact.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/brel_fact.py b/brel/brel_fact.py
index 2d49a4d..d7f6e8d 100644
--- a/brel/brel_fact.py
+++ b/brel/brel_fact.py
@@ -116,9 +116,11 @@ class Fact:
         :returns bool: The value of the fact as a bool
         :raises ValueError: If the value of the fact does not resolve to a bool
         """
-        if self.__value.upper() == "TRUE":
+        # "1" and "0" are lexical forms of booleans as well
+        value = self.__value.strip().upper()
+        if value in ("TRUE", "1"):
             return True
-        elif self.__value.upper() == "FALSE":
+        elif value in ("FALSE", "0"):
             return False
         else:
             raise ValueError(
-- 
2.43.0


From bfc7cb2c5a9b1f13193f39a05729ff8da7b44cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:14 +0000
Subject: [PATCH 035/102] fix: inline numbers that are zero had an empty value

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c268cd7..d931c01 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -994,7 +994,7 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     fact_value = fact_value.lstrip("0")
 
     # Add leading zero if necessary
-    if fact_value.startswith("."):
+    if fact_value == "" or fact_value.startswith("."):
         fact_value = "0" + fact_value
 
     return fact_value
-- 
2.43.0


From b9f44648ec15d18665eae09ff0060c7737179f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:36 +0000
Subject: [PATCH 036/102] fix: zerodash and numdash were not supported

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d931c01..2b16267 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1019,11 +1019,11 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
+    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+
     if fact_format == "ixt:fixed-zero":
         return "0"
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     fact_value = fact_value.strip()
     match = match_regex_numerical_fact_value(
         fact_value, fact_format, element, error_repository
-- 
2.43.0


From 6f2b81fdc5babf5e93745e459c312841e1597887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:38 +0000
Subject: [PATCH 037/102] fix: numbers grouped by no-break spaces were rejected

---
 .../XHMTL/xhtml_parse_transformation_registry.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 2b16267..75bd9f4 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -9,11 +9,11 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 number_format_to_regex = {
-    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal-apos": r"^([,\'`´’′  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′ \u00a00-9]*)(,[ \u00a00-9]+)?$",
+    "ixt:num-dot-decimal-apos": r"^([,\'`´’′ \u00a00-9]*)(\.[ \u00a00-9]+)?$",
     "ixt:num-unit-decimal-apos": r"^([0-9０-９\.,，\'`´’′＇]+)[^0-9０-９\.,，\'`´’′＇][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
-    "ixt:num-comma-decimal": r"^([\.  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal": r"^([,  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal": r"^([\. \u00a00-9]*)(,[ \u00a00-9]+)?$",
+    "ixt:num-dot-decimal": r"^([, \u00a00-9]*)(\.[ \u00a00-9]+)?$",
     "ixt:num-unit-decimal": r"^([0-9０-９\.,，]+)[^0-9０-９\.,，][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
 }
 
@@ -947,7 +947,7 @@ def apply_scale(whole_part: str, decimal_part: str, scale: int) -> tuple[str, st
 
 
 def process_number_part(number_part: str) -> str:
-    separators = " .,，'`´’′＇"
+    separators = " \u00a0.,，'`´’′＇"
 
     if not number_part:
         number_part = "0"
-- 
2.43.0


From 88affcbed62fb91fc2c24975817c54c78cebe341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:40 +0000
Subject: [PATCH 038/102] fix: single digit of the smaller unit counted as
 tenths

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 75bd9f4..91f31fa 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -959,6 +959,7 @@ def process_number_part(number_part: str) -> str:
 
 def process_numerical_fact_value(
     match: re.Match,
+    fact_format: str,
     fact_scale: str,
     element: _Element,
     error_repository: ErrorRepository,
@@ -967,6 +968,10 @@ def process_numerical_fact_value(
     whole_part = process_number_part(match.group(1))
     decimal_part = process_number_part(match.group(2))
 
+    # a single digit of the smaller unit is a hundredth
+    if "num-unit-decimal" in fact_format:
+        decimal_part = decimal_part.zfill(2)
+
     # Parse the scale
     scale = 0
     try:
@@ -1033,7 +1038,7 @@ def parse_numerical_fact_value(
         return fact_value
 
     fact_value = process_numerical_fact_value(
-        match, fact_scale, element, error_repository
+        match, fact_format, fact_scale, element, error_repository
     )
     fact_value = normalize_numerical_fact_value(fact_value)
 
-- 
2.43.0


From 54966371c23e5be0ff6ede39d3cee15bc24c731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:37 +0000
Subject: [PATCH 039/102] fix: transformations were only found under the prefix
 ixt

---
 .../XHMTL/elements/parse_non_fraction.py       |  3 ++-
 .../XHMTL/elements/parse_non_numeric.py        |  7 +++++--
 brel/parsers/utils/lxml_utils.py               | 18 ++++++++++++++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 219ea8f..a905c1b 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -11,6 +11,7 @@ from brel.parsers.utils.lxml_utils import (
     find_element,
     get_prefix_localname_tag,
     get_str_attribute_optional,
+    get_transformation_format,
 )
 from lxml.etree import _Element
 from lxml import etree
@@ -84,7 +85,7 @@ def validate_descendant_non_fraction_rules(
 def process_non_fraction_value(
     fact_element: _Element, error_repository: ErrorRepository
 ) -> str:
-    format = get_str_attribute_optional(fact_element, "format")
+    format = get_transformation_format(fact_element)
     scale = get_str_attribute_optional(fact_element, "scale")
     sign = get_str_attribute_optional(fact_element, "sign")
 
diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 012e44b..8f7ab48 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -14,7 +14,10 @@ from brel.parsers.XHMTL.elements.parse_continuation_chain import (
 from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
     parse_non_numerical_fact_value,
 )
-from brel.parsers.utils.lxml_utils import get_str_attribute_optional
+from brel.parsers.utils.lxml_utils import (
+    get_str_attribute_optional,
+    get_transformation_format,
+)
 
 
 def convert_escaped_characters(text: str) -> str:
@@ -110,7 +113,7 @@ def parse_non_numeric_fact_element(
     else:
         fact_value = extract_text_content(relevant_content)
 
-    format = get_str_attribute_optional(fact_element, "format")
+    format = get_transformation_format(fact_element)
     parsed_value = parse_non_numerical_fact_value(
         fact_value, format, fact_element, error_repository
     )
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 5ea5963..3929a09 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -36,6 +36,7 @@ INLINE_XBRL_NAMESPACES = [
     "http://www.xbrl.org/2013/inlineXBRL",
     "http://www.xbrl.org/2008/inlineXBRL",
 ]
+TRANSFORMATION_NAMESPACE = "http://www.xbrl.org/inlineXBRL/transformation/"
 
 
 def get_conventional_nsmap(element: _Element) -> Dict[str, str]:
@@ -110,6 +111,23 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     return element.attrib.get(attribute)
 
 
+def get_transformation_format(element: _Element) -> str | None:
+    """
+    Helper function for getting the transformation which an inline xbrl fact asks for.
+    :param element: the element of the fact
+    :return: The name of the transformation, None if there is none.
+    The prefix of the names in the XBRL transformation registries is always "ixt".
+    """
+    format = get_str_attribute_optional(element, "format")
+    if format is None or ":" not in format:
+        return format
+
+    prefix, local_name = format.strip().split(":", 1)
+    if element.nsmap.get(prefix, "").startswith(TRANSFORMATION_NAMESPACE):
+        prefix = "ixt"
+    return f"{prefix}:{local_name}"
+
+
 def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
     """
     Helper function for getting the tag of an element as a string in Clark Notation.
-- 
2.43.0


From 7d0d5412109a445c4c5019b7325f4befdf6b59e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 040/102] fix: comments in inline documents made the parser
 fail or cut off values

---
 .../elements/parse_continuation_chain.py      |  5 +++++
 brel/parsers/XHMTL/elements/parse_header.py   |  2 +-
 brel/parsers/XHMTL/elements/parse_hidden.py   |  2 +-
 .../XHMTL/elements/parse_non_fraction.py      | 22 ++++++++++++-------
 .../XHMTL/elements/parse_references.py        |  2 +-
 .../parsers/XHMTL/elements/parse_resources.py |  2 +-
 6 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 20504bc..f401974 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -142,6 +142,11 @@ def extract_relevant_content_per_element(element: _Element) -> _Element:
     relevant_element = clone_element_without_children(element)
 
     for child in element:
+        # comments and processing instructions are no content
+        if not isinstance(child.tag, str):
+            append_text_to_parent(relevant_element, child.tail)
+            continue
+
         child_tag = get_prefix_localname_tag(child)
 
         if child_tag == "ix:exclude":
diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index e533c22..faf84f4 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -26,7 +26,7 @@ def parse_header(
 ) -> Tuple[List[_Element], List[_Element], List[_Element]]:
     hidden_elements, resources_elements, references_elements = [], [], []
 
-    for child in header_element:
+    for child in header_element.iterchildren("*"):
         tag = get_prefix_localname_tag(child)
         if tag == "ix:hidden":
             hidden_elements.append(child)
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 4b80f2a..70ecfb1 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -11,7 +11,7 @@ def validate_hidden_elements(
 ) -> None:
     error_repository = filing_context.get_error_repository()
     for element in hidden_elements:
-        for child in element:
+        for child in element.iterchildren("*"):
             child_tag = get_prefix_localname_tag(child)
 
             if child_tag in ["ix:footnote", "ix:nonFraction", "ix:nonNumeric"]:
diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index a905c1b..c0a8c1d 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -82,6 +82,14 @@ def validate_descendant_non_fraction_rules(
         )
 
 
+def get_own_text(element: _Element) -> str:
+    """
+    :returns: the text of the element without the text of its child elements.
+    In contrast to element.text it does not end at the first comment.
+    """
+    return "".join(element.xpath("text()"))
+
+
 def process_non_fraction_value(
     fact_element: _Element, error_repository: ErrorRepository
 ) -> str:
@@ -96,10 +104,7 @@ def process_non_fraction_value(
 
         sign = None  # Ignore sign
 
-    fact_value = fact_element.text
-
-    if not fact_value:
-        fact_value = ""
+    fact_value = get_own_text(fact_element)
 
     if not format:
         value = None
@@ -193,11 +198,12 @@ def parse_non_fraction_fact_element(
             id=id,
         )
 
-    element_text = fact_element.text
-    element_children = [child for child in fact_element]
+    element_text = get_own_text(fact_element)
+    element_children = list(fact_element.iterchildren("*"))
 
-    has_text = element_text != None or any([child.tail for child in element_children])
     has_children = len(element_children) > 0
+    # whitespace around a child is no text
+    has_text = bool(element_text.strip() if has_children else element_text)
 
     if has_text and has_children:
         error_repository.insert(
@@ -218,7 +224,7 @@ def parse_non_fraction_fact_element(
 
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
-    fact_value = fact_element.text or ""
+    fact_value = element_text
     if xsi_nil == "true":
         fact_value = ""
     elif has_text:
diff --git a/brel/parsers/XHMTL/elements/parse_references.py b/brel/parsers/XHMTL/elements/parse_references.py
index 010f98f..80b2918 100644
--- a/brel/parsers/XHMTL/elements/parse_references.py
+++ b/brel/parsers/XHMTL/elements/parse_references.py
@@ -30,7 +30,7 @@ def parse_references_elements(
                 ErrorCode.IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN, element
             )
 
-        for child in element:
+        for child in element.iterchildren("*"):
             child_tag = get_prefix_localname_tag(child)
 
             if child_tag not in ["link:schemaRef", "link:linkbaseRef"]:
diff --git a/brel/parsers/XHMTL/elements/parse_resources.py b/brel/parsers/XHMTL/elements/parse_resources.py
index e019ce3..13ca393 100644
--- a/brel/parsers/XHMTL/elements/parse_resources.py
+++ b/brel/parsers/XHMTL/elements/parse_resources.py
@@ -17,7 +17,7 @@ def parse_resources_elements(elements: List[_Element], context: FilingContext):
     ) = ([], [], [], [], [])
 
     for element in elements:
-        for child in element:
+        for child in element.iterchildren("*"):
             child_tag = get_prefix_localname_tag(child)
             if child_tag == "ix:relationship":
                 relationship_elements.append(child)
-- 
2.43.0


From 71c7f19bf2f5c24bbe0b2511935b943082da2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 041/102] fix: xsi:nil="1" was not recognised in inline
 documents

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index c0a8c1d..5e4edf4 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -183,6 +183,8 @@ def parse_non_fraction_fact_element(
             precision=precision_str,
         )
     xsi_nil = get_str_attribute_optional(fact_element, "xsi:nil")
+    if xsi_nil == "1":
+        xsi_nil = "true"
 
     if (
         decimals != None
-- 
2.43.0


From 95f3e28b44a911ded48af14d204ba7b72cf1bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 042/102] fix: value of an inline number around another one was
 markup

---
 .../parsers/XHMTL/elements/parse_non_fraction.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 5e4edf4..688a2d2 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -8,7 +8,7 @@ from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
     parse_numerical_fact_value,
 )
 from brel.parsers.utils.lxml_utils import (
-    find_element,
+    find_elements,
     get_prefix_localname_tag,
     get_str_attribute_optional,
     get_transformation_format,
@@ -104,7 +104,11 @@ def process_non_fraction_value(
 
         sign = None  # Ignore sign
 
-    fact_value = get_own_text(fact_element)
+    # nested numbers share the text of the innermost one
+    text_element = fact_element
+    while len(children := find_elements(text_element, "./ix:nonFraction")) > 0:
+        text_element = children[0]
+    fact_value = get_own_text(text_element)
 
     if not format:
         value = None
@@ -245,7 +249,11 @@ def parse_non_fraction_fact_element(
                 child_tag=child_tag,
             )
 
-        # Input whole element as fact value
-        fact_value = etree.tostring(element_children[0]).decode()
+            # Input whole element as fact value
+            fact_value = etree.tostring(
+                element_children[0], with_tail=False
+            ).decode()
+        else:
+            fact_value = process_non_fraction_value(fact_element, error_repository)
 
     return Fact(context, fact_value, id, decimals, precision)
-- 
2.43.0


From 9440153c9c3e083d8f3ed43037b788ddbe61098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:22 +0000
Subject: [PATCH 043/102] fix: inline documents named htm or html were not
 found in archives

---
 brel/parsers/path_loaders/zip_path_loader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index 3e0195a..b302490 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -29,9 +29,8 @@ class ZipPathLoader(PathLoader):
             self.__directories.append(directory)
             zip_ref.extractall(directory.name)
             file_list = zip_ref.namelist()
-            # More extensions?
             return [
                 os.path.join(directory.name, file)
                 for file in file_list
-                if file.endswith((".xml", ".xhtml"))
+                if file.endswith((".xml", ".xhtml", ".htm", ".html"))
             ]
-- 
2.43.0


From 43f69d4996f86bfc2be27e64564a211fc187cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 044/102] fix: German date formats expected Danish month names

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 91f31fa..5153023 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -37,9 +37,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-da": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthname-year-de": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-de": r"^(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΥΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]{0,8}$",
     "ixt:date-day-monthname-year-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-el": r"^(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From fa7b1876bc9d8255521ec379dae80c6d5f08bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:28 +0000
Subject: [PATCH 045/102] fix: Dutch month names from April on were a month
 late

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 5153023..09312f7 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -374,8 +374,7 @@ country_to_month_names = {
     "nl": [
         ["jan"],
         ["feb"],
-        ["maa"],
-        ["mrt"],
+        ["maa", "mrt"],
         ["apr"],
         ["mei"],
         ["jun"],
-- 
2.43.0


From dbd745cda0db5f1c784330b55a0c13533b46b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:30 +0000
Subject: [PATCH 046/102] fix: Lithuanian month names from September on were a
 month early

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 09312f7..f935154 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -407,7 +407,8 @@ country_to_month_names = {
         ["geg"],
         ["bir"],
         ["lie"],
-        ["rugp", "rgp", "rugs", "rgs"],
+        ["rugp", "rgp"],
+        ["rugs", "rgs"],
         ["spa", "spl"],
         ["lap"],
         ["gru", "grd"],
-- 
2.43.0


From 94afc234349713a7f0c62af86c90587fad9b0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:31 +0000
Subject: [PATCH 047/102] fix: Slovenian dates with a day made the parser fail

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index f935154..28e113e 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -97,8 +97,8 @@ date_format_to_regex = {
     "ixt:date-day-monthname-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sk": r"^(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sl": r"^(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From c4da66afd9e7571b3eebaf370c11a0c2b8e2686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:33 +0000
Subject: [PATCH 048/102] fix: mutated Welsh month names made the parser fail

---
 .../XHMTL/xhtml_parse_transformation_registry.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 28e113e..157be21 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -19,7 +19,7 @@ number_format_to_regex = {
 
 date_format_to_regex = {
     "ixt:date-day-monthname-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]{0,7}$",
-    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fedi|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fed|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-year-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-month": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
     "ixt:date-month-day": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
@@ -206,16 +206,16 @@ country_to_month_names = {
     "cy": [
         ["ion"],
         ["chwe"],
-        ["maw"],
+        ["maw", "faw"],
         ["ebr"],
-        ["mai"],
-        ["meh"],
-        ["gor"],
+        ["mai", "fai"],
+        ["meh", "feh"],
+        ["gor", "ngor"],
         ["aws"],
-        ["med"],
+        ["med", "fed"],
         ["hyd"],
-        ["tach"],
-        ["rhag"],
+        ["tach", "dach", "nhach", "thach"],
+        ["rhag", "rag"],
     ],
     "da": [
         ["jan"],
-- 
2.43.0


From 55d21e760df9fa8f767fcf25a51f781fc41eb890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:34 +0000
Subject: [PATCH 049/102] fix: Greek month names with a Latin capital made the
 parser fail

---
 .../XHMTL/xhtml_parse_transformation_registry.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 157be21..e756e1d 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -246,16 +246,17 @@ country_to_month_names = {
         ["dez"],
     ],
     "el": [
-        ["ιαν", "ίαν"],
+        # some spellings begin with a Latin capital that looks like the Greek one
+        ["ιαν", "ίαν", "iαν"],
         ["φεβ"],
         ["μάρ", "μαρ"],
-        ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ"],
-        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ"],
-        ["ιούν", "ίούν", "ίουν", "ιουν"],
-        ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ"],
+        ["απρ", "άπρ", "aπρ", "αρίλ", "άρίλ", "aρίλ", "αριλ", "άριλ", "aριλ"],
+        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ", "μαι\u0308\u0301"],
+        ["ιούν", "ίούν", "ίουν", "ιουν", "iούν", "iουν"],
+        ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ", "iούλ", "iουλ"],
         ["αύγ", "αυγ"],
         ["σεπ"],
-        ["οκτ", "όκτ"],
+        ["οκτ", "όκτ", "oκτ"],
         ["νοέ", "νοε"],
         ["δεκ"],
     ],
-- 
2.43.0


From 0b1f66b42977cd320eb03c25f72510877a39eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:36 +0000
Subject: [PATCH 050/102] fix: dates with a Roman month had the wrong year

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index e756e1d..d77a7c8 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -64,9 +64,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-hr": r"^(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))$",
-    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthroman-year": r"^((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})$",
+    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthroman-year": r"^(I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-it": r"^(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From 7ddba6c93088b947a66ddecae3bf38aea96b0420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 051/102] fix: dates of the Indian national calendar made the
 parser fail

---
 .../xhtml_parse_transformation_registry.py    | 80 ++++++++++++-------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d77a7c8..6e24e69 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -331,18 +331,18 @@ country_to_month_names = {
         ["déc", "dec"],
     ],
     "hi": [
-        ["जनवरी", "cait", "chait", "चैत्र"],
-        ["फरवरी", "vai", "वैशाख", "बैसाख"],
-        ["मार्च", "jy", "ज्येष्ठ"],
-        ["अप्रैल", "dha", "ḍha", "आषाढ", "आषाढ़"],
-        ["मई", "vana", "śrāvaṇa", "श्रावण", "सावन"],
-        ["जून", "bhadra", "proṣṭhapada", "भाद्रपद", "भादो"],
-        ["जुलाई", "in", "आश्विन"],
-        ["अगस्त", "karti", "kartik", "कार्तिक"],
-        ["सितंबर", "mrga", "marga", "agra", "मार्गशीर्ष", "अगहन"],
-        ["अक्टूबर", "pau", "पौष"],
-        ["नवंबर", "mgh", "magha", "माघ"],
-        ["दिसंबर", "phlg", "phalg", "फाल्गुन"],
+        ["जनवरी"],
+        ["फरवरी"],
+        ["मार्च"],
+        ["अप्रैल"],
+        ["मई"],
+        ["जून"],
+        ["जुलाई"],
+        ["अगस्त"],
+        ["सितंबर"],
+        ["अक्टूबर"],
+        ["नवंबर"],
+        ["दिसंबर"],
     ],
     "hr": [
         ["sij"],
@@ -528,6 +528,22 @@ country_to_month_names = {
     ],
 }
 
+# The months of the Indian national calendar, as patterns
+indian_month_patterns = [
+    r"c\S*ait|चैत्र",
+    r"vai|वैशाख|बैसाख",
+    r"jy|ज्येष्ठ",
+    r"dha|ḍha|आषाढ|आषाढ़",
+    r"vana|śrāvaṇa|श्रावण|सावन",
+    r"bh\S+dra|proṣṭhapada|भाद्रपद|भादो",
+    r"in|आश्विन",
+    r"k\S+rti|कार्तिक",
+    r"m\S+rga|agra|मार्गशीर्ष|अगहन",
+    r"pau|पौष",
+    r"m\S+gh|माघ",
+    r"ph\S+lg|फाल्गुन",
+]
+
 japanese_era_to_gregorian_period = {
     # era: (starting_date, ending_date)
     "明治": (datetime.date(1868, 10, 23), datetime.date(1912, 7, 29)),
@@ -546,7 +562,7 @@ legacy_to_current_formats = {
     # Transformation registries 2 and 3
     "ixt:booleanfalse": "ixt:fixed-false",
     "ixt:booleantrue": "ixt:fixed-true",
-    "ixt:calindaymonthyear": "ixt:date-ind-day-month-year-hi",
+    "ixt:calindaymonthyear": "ixt:date-ind-day-monthname-year-hi",
     "ixt:datedaymonth": "ixt:date-day-month",
     "ixt:datedaymonthdk": "ixt:date-day-monthname-da",
     "ixt:datedaymonthen": "ixt:date-day-monthname-en",
@@ -665,19 +681,20 @@ def convert_japanese_imperial_date_to_gregorian(
 def convert_national_indian_date_to_gregorian(
     date_parts: dict[str, str],
 ) -> dict[str, str]:
-    if len("year") == 2:
-        date_parts["year"] = "19" + date_parts["year"]
-
-    gregorian_date = indian_civil.to_gregorian(
-        int(date_parts["year"]), int(date_parts["month"]), int(date_parts["day"])
+    year = int(date_parts["year"])
+    month = int(date_parts["month"])
+    day = int(date_parts["day"])
+
+    if len(date_parts["year"]) <= 2:
+        # We assume two-digit years fall within 2000 and 2099, as in the specifications
+        year += 1900
+        if indian_civil.to_gregorian(year, month, day)[0] < 2000:
+            year += 100
+
+    gregorian_year, gregorian_month, gregorian_day = indian_civil.to_gregorian(
+        year, month, day
     )
 
-    gregorian_year, gregorian_month, gregorian_day = gregorian_date
-
-    # We assume two-digit years fall within 2000 and 2099, as in the specifications
-    if len("year") == 2 and gregorian_year < 2000:
-        gregorian_year += 100
-
     date_parts["year"] = str(gregorian_year)
     date_parts["month"] = "{:02n}".format(gregorian_month)
     date_parts["day"] = "{:02n}".format(gregorian_day)
@@ -709,13 +726,20 @@ def normalize_date_parts(
         month_names = country_to_month_names[country]
 
         date_parts["month"] = date_parts["month"].lower()
-        for i, month_i_names in enumerate(month_names):
-            if date_parts["month"] in month_i_names:
-                normalized_date_parts["month"] = "{:02n}".format(i + 1)
-                break
+        if fact_format == "ixt:date-ind-day-monthname-year-hi":
+            for i, pattern in enumerate(indian_month_patterns):
+                if re.fullmatch(pattern, date_parts["month"]):
+                    normalized_date_parts["month"] = "{:02n}".format(i + 1)
+                    break
+        else:
+            for i, month_i_names in enumerate(month_names):
+                if date_parts["month"] in month_i_names:
+                    normalized_date_parts["month"] = "{:02n}".format(i + 1)
+                    break
     if "year" in date_parts:
         # special handling of indian national calendar
         if fact_format == "ixt:date-ind-day-monthname-year-hi":
+            normalized_date_parts["year"] = date_parts["year"]
             normalized_date_parts = convert_national_indian_date_to_gregorian(
                 normalized_date_parts
             )
-- 
2.43.0


From a9ee14017b8ec3b146b95bf03afb8e88c953aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 052/102] fix: datedaymonthyearin read neither numbers nor
 names without an error

---
 .../XHMTL/xhtml_parse_transformation_registry.py    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 6e24e69..d14d648 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1093,15 +1093,14 @@ def parse_non_numerical_fact_value(
     if fact_format.startswith("ixt:date"):
         # Special handling of legacy format
         if fact_format == "ixt:datedaymonthyearin":
-            fact_value_option_1 = parse_date_fact_value(
-                fact_value, "ixt:date-day-month-year", element, error_repository
-            )
+            # The month is either a number or a name
+            fact_format = "ixt:date-day-month-year"
+            if not re.search(date_format_to_regex[fact_format], fact_value.strip()):
+                fact_format = "ixt:date-day-monthname-year-hi"
 
-            fact_value_option_2 = parse_date_fact_value(
-                fact_value, "ixt:date-day-monthname-year-hi", element, error_repository
+            fact_value = parse_date_fact_value(
+                fact_value, fact_format, element, error_repository
             )
-
-            fact_value = fact_value_option_1 or fact_value_option_2
         else:
             fact_value = parse_date_fact_value(
                 fact_value, fact_format, element, error_repository
-- 
2.43.0


From bec228e9167b62bb4de1570347365e7530f4e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 053/102] fix: dateshortmonthdayus expected the day first

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d14d648..1316872 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -608,7 +608,7 @@ legacy_to_current_formats = {
     "ixt:datelongdaymonthuk": "ixt:date-day-monthname-en",
     "ixt:datelongmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateshortdaymonthuk": "ixt:date-day-monthname-en",
-    "ixt:dateshortmonthdayus": "ixt:date-day-monthname-en",
+    "ixt:dateshortmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateslashdaymontheu": "ixt:date-day-month",
     "ixt:dateslashmonthdayus": "ixt:date-month-day",
     "ixt:datelongyearmonth": "ixt:date-year-monthname-en",
-- 
2.43.0


From 45f64829140d792b8829221e55bcaad03c52788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:42 +0000
Subject: [PATCH 054/102] fix: impossible days were accepted in recurring dates

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 1316872..2dfb3ea 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -816,7 +816,7 @@ def validate_date_fact_value(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
 
-    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
+    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date or is_recurring else '01'}"
 
     try:
         datetime.date.fromisoformat(iso8601_formatted_string)
-- 
2.43.0


From c15de77cc36440a1f7ed13c1121436842b13af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 055/102] fix: Japanese dates were never checked against the
 era

---
 .../xhtml_parse_transformation_registry.py    | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 2dfb3ea..f1795be 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -715,6 +715,8 @@ def normalize_date_parts(
 
     normalized_date_parts = {}
 
+    if "era" in date_parts:
+        normalized_date_parts["era"] = date_parts["era"]
     if "day" in date_parts:
         normalized_date_parts["day"] = "{:02n}".format(int(date_parts["day"]))
     if "month" in date_parts:
@@ -766,20 +768,13 @@ def check_japanese_imperial_date_valid(date_parts: dict[str, str]) -> bool:
         if given_date < era_start_date or given_date > era_end_date:
             return False
     else:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_start_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
+        # the month has to overlap with the era
+        given_month = (int(date_parts["year"]), int(date_parts["month"]))
 
-        if given_date < era_start_date:
+        if given_month < (era_start_date.year, era_start_date.month):
             return False
 
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_end_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date > era_end_date:
+        if given_month > (era_end_date.year, era_end_date.month):
             return False
 
     return True
@@ -825,6 +820,8 @@ def validate_date_fact_value(
             ErrorCode.INVALID_GREGORIAN_DATE, element, date=fact_value
         )
 
+        return
+
     if "era" in date_parts:
         if not check_japanese_imperial_date_valid(date_parts):
             error_repository.insert(
-- 
2.43.0


From 9921febf764e0ef1a15461ec894d64840bc51898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:44 +0000
Subject: [PATCH 056/102] fix: impossible days were accepted in the Indian
 national calendar

---
 .../XHMTL/xhtml_parse_transformation_registry.py  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index f1795be..8b5517c 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -695,6 +695,12 @@ def convert_national_indian_date_to_gregorian(
         year, month, day
     )
 
+    # A day that the month does not have ends up in another month
+    if indian_civil.from_gregorian(
+        gregorian_year, gregorian_month, gregorian_day
+    ) != (year, month, day):
+        raise ValueError("day is not in the month")
+
     date_parts["year"] = str(gregorian_year)
     date_parts["month"] = "{:02n}".format(gregorian_month)
     date_parts["day"] = "{:02n}".format(gregorian_day)
@@ -850,7 +856,14 @@ def parse_date_fact_value(
     date_parts = parse_date_match(
         match, fact_format, is_recurring=is_recurring, is_full_date=is_full_date
     )
-    date_parts = normalize_date_parts(date_parts, fact_format)
+    try:
+        date_parts = normalize_date_parts(date_parts, fact_format)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_GREGORIAN_DATE, element, date=fact_value
+        )
+
+        return fact_value
 
     validate_date_fact_value(
         date_parts,
-- 
2.43.0


From 046234f3e935d7b3ce158828e13da851b04981f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 057/102] fix: a month that does not exist made the parser fail

---
 .../xhtml_parse_transformation_registry.py     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 8b5517c..7a63e76 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -786,6 +786,14 @@ def check_japanese_imperial_date_valid(date_parts: dict[str, str]) -> bool:
     return True
 
 
+def get_required_date_parts(is_recurring: bool, is_full_date: bool) -> list[str]:
+    if is_full_date:
+        return ["year", "month", "day"]
+    if is_recurring:
+        return ["month", "day"]
+    return ["year", "month"]
+
+
 def validate_date_fact_value(
     date_parts: dict[str, str],
     fact_value: str,
@@ -794,6 +802,8 @@ def validate_date_fact_value(
     is_recurring=False,
     is_full_date=False,
 ) -> None:
+    required_parts = get_required_date_parts(is_recurring, is_full_date)
+
     if is_recurring:
         if "year" in date_parts:
             error_repository.insert(
@@ -817,6 +827,10 @@ def validate_date_fact_value(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
 
+    # Without these parts there is no date to check
+    if any(part not in date_parts for part in required_parts):
+        return
+
     iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date or is_recurring else '01'}"
 
     try:
@@ -874,6 +888,10 @@ def parse_date_fact_value(
         error_repository=error_repository,
     )
 
+    required_parts = get_required_date_parts(is_recurring, is_full_date)
+    if any(part not in date_parts for part in required_parts):
+        return fact_value
+
     if is_full_date:
         return f"{date_parts['year']}-{date_parts['month']}-{date_parts['day']}"
     elif is_recurring:
-- 
2.43.0


From 76593bc1d3939b348b8b3575349ac284acad640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:32 +0000
Subject: [PATCH 058/102] fix: text in escaped inline facts was escaped twice

---
 .../XHMTL/elements/parse_non_numeric.py        | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 8f7ab48..3132e84 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -35,25 +35,13 @@ def convert_escaped_characters(text: str) -> str:
     return text
 
 
-def convert_escaped_characters_recursive(content: _Element) -> None:
-    if content.text is not None:
-        content.text = convert_escaped_characters(content.text)
-
-    if content.tail is not None:
-        content.tail = convert_escaped_characters(content.tail)
-
-    for child in content:
-        convert_escaped_characters_recursive(child)
-
-
 def escape_content(content: _Element) -> str:
-    convert_escaped_characters_recursive(content)
-
     text_nodes = []
-    text_nodes.append(content.text if content.text else "")
+    text_nodes.append(convert_escaped_characters(content.text or ""))
 
+    # the serialization of the children already escapes their text and their tails
     for child in content:
-        child_str = etree.tostring(child).decode()
+        child_str = etree.tostring(child, encoding="unicode")
         text_nodes.append(child_str)
 
     full_text = "".join(text_nodes)
-- 
2.43.0


From 2ba28efa4f95fa71de091796d29aa7ad7216e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 059/102] fix: continuations that run in a circle were followed
 forever

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index f401974..ff8f98b 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -91,6 +91,10 @@ def create_continuation_chains(
 
                 break
 
+            # the chain runs in a circle
+            if continuation in continuation_chain:
+                break
+
             continuation_chain.append(continuation)
             used_continuation_ids.add(continued_at)
             continued_at = get_str_attribute_optional(continuation, "continuedAt")
-- 
2.43.0


From ca3b9f6d9ade6201ab5ce7773b00b740359cac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:36 +0000
Subject: [PATCH 060/102] fix: order of unused continuations in errors was
 random

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index ff8f98b..7c71634 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -113,9 +113,9 @@ def create_continuation_chains(
                         parent_id=get_str_attribute_optional(element, "id"),
                     )
 
-    unused_continuation_elements = list(
-        set(continuation_element_index.keys()) - used_continuation_ids
-    )
+    unused_continuation_elements = [
+        id for id in continuation_element_index if id not in used_continuation_ids
+    ]
     if len(unused_continuation_elements) > 0:
         error_repository.insert(
             ErrorCode.IXBRL_UNUSED_CONTINUATION_ELEMENTS,
-- 
2.43.0


From 31c7fed61157b48c6f603d0b1aa103e78a3136cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 061/102] fix: inline footnote networks had the arc role as
 link role

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f6172c7..2b2e13a 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -343,7 +343,7 @@ def build_footnote_networks(
         network_arcs[linkrole, arcrole].append(arc)
 
     networks: List[FootnoteNetwork] = []
-    for (_, linkrole), arcs in network_arcs.items():
+    for (linkrole, _), arcs in network_arcs.items():
         network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
         networks.append(network)
 
-- 
2.43.0


From 149a5c4a28f1c3176f52dbc8ffef845ef8851869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:53 +0000
Subject: [PATCH 062/102] fix: inline relationships without an order made the
 parser fail

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 2b2e13a..8a04bf5 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -202,6 +202,7 @@ def parse_relationship_attributes(
         linkrole = "http://www.xbrl.org/2003/role/link"
 
     order_str = get_str_attribute_optional(relationship_element, "order")
+    order = 1.0
 
     if order_str:
         try:
@@ -213,9 +214,6 @@ def parse_relationship_attributes(
                 order=order_str,
             )
 
-    if not order:
-        order = 1.0
-
     return (arcrole, linkrole, order)
 
 
-- 
2.43.0


From ae73759fa77d72f6048bd12aa7aa974e8999b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 063/102] fix: order of inline footnotes was random

---
 .../networks/xhtml_parse_footnote_network.py  | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 8a04bf5..45ac7d1 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -100,7 +100,7 @@ def parse_footnotes(
 
 def parse_relationship_from_and_to_refs(
     relationship_element: _Element, error_repository: ErrorRepository
-) -> Tuple[Set[str], Set[str]]:
+) -> Tuple[List[str], List[str]]:
     fromRefs = get_str_attribute_optional(relationship_element, "fromRefs")
     if not fromRefs:
         error_repository.insert(
@@ -117,15 +117,17 @@ def parse_relationship_from_and_to_refs(
         )
         toRefs = ""
 
-    fromIds, toIds = set(fromRefs.split()), set(toRefs.split())
+    # The ids in document order, each of them once
+    fromIds = list(dict.fromkeys(fromRefs.split()))
+    toIds = list(dict.fromkeys(toRefs.split()))
 
     return fromIds, toIds
 
 
 def validate_relationship_from_and_to_refs(
     relationship_element: _Element,
-    fromIds: Set[str],
-    toIds: Set[str],
+    fromIds: List[str],
+    toIds: List[str],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
@@ -222,7 +224,7 @@ def parse_relationship(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> Optional[Tuple[Set[str], Set[str], str, str, float]]:
+) -> Optional[Tuple[List[str], List[str], str, str, float]]:
     fromIds, toIds = parse_relationship_from_and_to_refs(
         relationship_element, error_repository
     )
@@ -244,20 +246,19 @@ def parse_relationship(
 
 
 def create_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ):
-    all_ids = set()
-    internal_ids = set()
+    all_ids: Dict[str, None] = {}
+    internal_ids: Set[str] = set()
 
     # Compute Ids of root nodes
     for from_ids, to_ids, _, _, _ in arcs:
-        all_ids.update(from_ids)
-        all_ids.update(to_ids)
+        all_ids.update(dict.fromkeys(from_ids))
         internal_ids.update(to_ids)
 
-    root_ids = all_ids - internal_ids
+    root_ids = [id for id in all_ids if id not in internal_ids]
 
     id_to_node: Dict[str, FootnoteNetworkNode] = {}
 
@@ -302,7 +303,7 @@ def create_footnote_network_nodes(
 
 
 def connect_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     id_to_node: Dict[str, FootnoteNetworkNode],
 ):
     for from_ids, to_ids, _, _, _ in arcs:
@@ -313,7 +314,7 @@ def connect_footnote_network_nodes(
 
 
 def build_footnote_network(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     linkrole: str,
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
@@ -327,12 +328,12 @@ def build_footnote_network(
 
 
 def build_footnote_networks(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> List[FootnoteNetwork]:
     network_arcs: Dict[
-        Tuple[str, str], List[Tuple[Set[str], Set[str], str, str, float]]
+        Tuple[str, str], List[Tuple[List[str], List[str], str, str, float]]
     ] = defaultdict(list)
 
     # Group arcs by linkrole and arcrole
-- 
2.43.0


From f01dda684cf3ec004203ddcc10bc1c6d19477878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:56 +0000
Subject: [PATCH 064/102] fix: inline footnotes contained the text after them

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 45ac7d1..f8aac2d 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -71,7 +71,7 @@ def parse_footnote(
     relevant_content = extract_relevant_content_from_continuation_chain(
         [footnote_element] + continuation_chain
     )
-    content_text = etree.tostring(relevant_content).decode()
+    content_text = etree.tostring(relevant_content, with_tail=False).decode()
 
     title = get_str_attribute_optional(footnote_element, "title")
     return id, BrelFootnote(content_text, id, language, role, id, title)
-- 
2.43.0


From 24f65ee054798412a3fb90d1430bd1992ef1ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 065/102] fix: every role reference of an inline document was
 an error

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f8aac2d..1184674 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -372,7 +372,7 @@ def parse_relationships(
 def parse_role_reference(
     role_ref_element: _Element, error_repository: ErrorRepository
 ) -> None:
-    link_type = get_str_attribute_optional(role_ref_element, "xlink:linktype")
+    link_type = get_str_attribute_optional(role_ref_element, "xlink:type")
     if link_type != "simple":
         error_repository.insert(
             ErrorCode.ROLEREF_INVALID_LINKTYPE, role_ref_element, linktype=link_type
-- 
2.43.0


From ba585ec901ceebb7b8cea0d91757c49137d7f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 066/102] fix: wrong ids in inline relationships made the
 parser fail

---
 .../networks/xhtml_parse_footnote_network.py   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 1184674..b8020c2 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -265,7 +265,12 @@ def create_footnote_network_nodes(
     for from_ids, to_ids, arcrole, linkrole, order in arcs:
         for from_id in from_ids:
             if from_id not in id_to_node and from_id in root_ids:
-                from_object = fact_repository.get_by_id(from_id)
+                from_object = fact_repository.get_by_id_optional(from_id)
+
+                # The id has been reported as an error
+                if from_object is None:
+                    continue
+
                 id_to_node[from_id] = FootnoteNetworkNode(
                     from_object,
                     [],
@@ -280,11 +285,11 @@ def create_footnote_network_nodes(
                 to_object = (
                     footnotes[to_id]
                     if to_id in footnotes
-                    else fact_repository.get_by_id(to_id)
+                    else fact_repository.get_by_id_optional(to_id)
                 )
 
-                if not to_object:
-                    # Error
+                # The id has been reported as an error
+                if to_object is None:
                     continue
 
                 id_to_node[to_id] = FootnoteNetworkNode(
@@ -297,7 +302,7 @@ def create_footnote_network_nodes(
                     order,
                 )
 
-    root_nodes = [id_to_node[id] for id in root_ids]
+    root_nodes = [id_to_node[id] for id in root_ids if id in id_to_node]
 
     return id_to_node, root_nodes
 
@@ -308,6 +313,9 @@ def connect_footnote_network_nodes(
 ):
     for from_ids, to_ids, _, _, _ in arcs:
         for from_id, to_id in itertools.product(from_ids, to_ids):
+            if from_id not in id_to_node or to_id not in id_to_node:
+                continue
+
             from_node = id_to_node[from_id]
             to_node = id_to_node[to_id]
             from_node._add_child(to_node)
-- 
2.43.0


From 7c6015ece25b9f05dc7815b06c2e596bea94dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:49 +0000
Subject: [PATCH 067/102] fix: a footnote of several inline relationships had
 one order for all

---
 brel/networks/footnote_network_node.py            | 15 +++++++++++++++
 .../networks/xhtml_parse_footnote_network.py      |  7 ++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/brel/networks/footnote_network_node.py b/brel/networks/footnote_network_node.py
index c5b8d03..acb4c91 100644
--- a/brel/networks/footnote_network_node.py
+++ b/brel/networks/footnote_network_node.py
@@ -107,3 +107,18 @@ class FootnoteNetworkNode(INetworkNode):
             raise ValueError(f"The child {child} is not a FootnoteNetworkNode")
         self.__children.append(child)
         self.__children.sort(key=lambda x: x.get_order())
+
+    def _copy_for_arc(self, arc_role: str, order: float) -> "FootnoteNetworkNode":
+        """
+        :returns: a node that points to the same thing and shares its children,
+        to be attached by an arc with the given role and order.
+        """
+        return FootnoteNetworkNode(
+            self.__points_to,
+            self.__children,
+            arc_role,
+            self.__arc_name,
+            self.__link_role,
+            self.__link_name,
+            order,
+        )
diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index b8020c2..ef9f5f3 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -311,14 +311,15 @@ def connect_footnote_network_nodes(
     arcs: List[Tuple[List[str], List[str], str, str, float]],
     id_to_node: Dict[str, FootnoteNetworkNode],
 ):
-    for from_ids, to_ids, _, _, _ in arcs:
+    for from_ids, to_ids, arcrole, _, order in arcs:
         for from_id, to_id in itertools.product(from_ids, to_ids):
             if from_id not in id_to_node or to_id not in id_to_node:
                 continue
 
-            from_node = id_to_node[from_id]
+            # the order and the arcrole belong to the relationship
             to_node = id_to_node[to_id]
-            from_node._add_child(to_node)
+            from_node = id_to_node[from_id]
+            from_node._add_child(to_node._copy_for_arc(arcrole, order))
 
 
 def build_footnote_network(
-- 
2.43.0


From 60a9ef6b2add3ae7f09d82568a1583503b26cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:48 +0000
Subject: [PATCH 068/102] fix: facts with an unknown context or unit made the
 parser fail

---
 brel/errors/error_factory_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 40cd86b..52d352d 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -219,7 +219,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Context ID {context_id} is not valid.",
         "Check the `contextRef` attribute of the corresponding fact.",
     ),
-    ErrorCode.XML_INVALID_FACT_CONTEXT_ID: lambda: ErrorInstance(
+    ErrorCode.XML_INVALID_FACT_UNIT_ID: lambda: ErrorInstance(
         Severity.ERROR,
         Area.XML_INSTANCE,
         "102",
-- 
2.43.0


From 32c8d2f5144272dc94ab93a5de0bcb60f7c0194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:50 +0000
Subject: [PATCH 069/102] fix: other elements than dimensions in a segment made
 the parser fail

---
 brel/parsers/XML/xml_context_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index d9bf87e..e0cd3cf 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -96,6 +96,10 @@ def parse_context_xml(
 
                 fact_context._add_characteristic(typed_dimension_characteristic)
             else:
-                error_repository.insert(ErrorCode.INVALID_DIMENSION_TYPE, xml_dimension)
+                error_repository.insert(
+                    ErrorCode.INVALID_DIMENSION_TYPE,
+                    xml_dimension,
+                    dimension_type=xml_dimension.tag,
+                )
 
     return fact_context
-- 
2.43.0


From 0fe8f2538bc3284281ff98d7cd673393bd06efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 070/102] fix: three errors could not be reported for their
 malformed messages

---
 brel/errors/error_factory_registry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 52d352d..3b2bb32 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -188,7 +188,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.XML_INSTANCE,
         "004",
-        "The unit {id} has a divide element with two children with the same tag: lambda: ErrorInstance(tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
+        "The unit {id} has a divide element with two children with the same tag: {tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
         "Check the children of the `divide` element. Did you forget to rename one of the children?",
     ),
     ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN: lambda: ErrorInstance(
@@ -445,8 +445,8 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Area.IXBRL_INSTANCE,
         "516",
         "Non-fraction child of another non-fraction element has a different format, scale or unit.\n"
-        + "Parent has the following format, scale and unit {parent_format), {parent_scale), {parent_unit}.\n"
-        + "The child has the following format, scale and unit: lambda: ErrorInstance(this_format), {this_scale), {this_unit}",
+        + "Parent has the following format, scale and unit {parent_format}, {parent_scale}, {parent_unit}.\n"
+        + "The child has the following format, scale and unit: {this_format}, {this_scale}, {this_unit}",
         "Check the attributes of the child and parent element.",
     ),
     ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE: lambda: ErrorInstance(
@@ -789,7 +789,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.TAXONOMY_PACKAGE,
         "002",
-        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: lambda: ErrorInstance(uri}",
+        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: {uri}",
         "Check the rewriteURI elements for typos or duplication.",
         QName(error_namespaces["tpe"], "tpe", "multipleRewriteURIsForStartString"),
     ),
-- 
2.43.0


From b6177783a891bb3438788f79fb2cbee0f452ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 071/102] fix: unexpected elements in ix:hidden and
 ix:references made the parser fail

---
 brel/errors/error_factory_registry.py       | 2 +-
 brel/parsers/XHMTL/elements/parse_hidden.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 3b2bb32..8d691c8 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -289,7 +289,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.WARNING,
         Area.IXBRL_INSTANCE,
         "201",
-        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {children}.",
+        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {child_tag}.",
         "Check for a misspelling in the child element.",
     ),
     # RESOURCES: 300 - 399
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 70ecfb1..6b97120 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -22,5 +22,7 @@ def validate_hidden_elements(
                 )
             else:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, tag=child_tag
+                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT,
+                    element,
+                    child_tag=child_tag,
                 )
-- 
2.43.0


From 30973a0d43bb9acb2b47cc34ff9fefb7a3270a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:56 +0000
Subject: [PATCH 072/102] fix: an entity identifier without a value was not
 reported

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index 7c267db..b661095 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -52,7 +52,7 @@ def parse_entity_from_xml(
     entity_id = (get_text(identifier_element) or "").strip() or None
 
     if entity_id is None:
-        f"Could not find text in identifier element {identifier_element}",
+        error_repository.insert(ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, xml_element)
         return None
 
     # the same identifier denotes different entities under different schemes
-- 
2.43.0


From 0b6f88aae223bc773c097c4b712bb842818bf994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 073/102] fix: the messages for missing start and end dates
 were swapped

---
 brel/errors/error_factory_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 8d691c8..c40d480 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -41,14 +41,14 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "004",
-        "End date is missing from the duration period.",
+        "Start date is missing from the duration period.",
         "Check that the `period` element has a `startDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_MISSING_END_DATE: lambda: ErrorInstance(
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "005",
-        "Start date is missing from the duration period.",
+        "End date is missing from the duration period.",
         "Check that the `period` element has an `endDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_START_AFTER_END: lambda: ErrorInstance(
-- 
2.43.0


From 963b92e2623952ea1f88ef06ff89c184143883d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:00 +0000
Subject: [PATCH 074/102] fix: references to contexts and units with a quote
 made the parser fail

---
 brel/parsers/XML/xml_facts_parser.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 1ffd53a..676f2e6 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -36,6 +36,18 @@ from brel.parsers.utils.lxml_utils import (
 )
 
 
+def find_child_by_id(
+    xbrl_instance: lxml.etree._ElementTree, local_name: str, id: str  # type: ignore
+) -> Optional[lxml.etree._Element]:  # type: ignore
+    """
+    :returns: the child of the instance's root with the given local name and id, None if there is none.
+    """
+    for child in xbrl_instance.getroot().iterchildren(f"{{*}}{local_name}"):
+        if child.get("id") == id:
+            return child
+    return None
+
+
 def parse_fact_from_xml(
     filingContext: FilingContext,
     fact_xml_element: lxml.etree._Element,  # type: ignore
@@ -155,7 +167,7 @@ def parse_facts_xml(
             unit_id = xml_fact.get("unitRef")
 
             if unit_id:
-                unit_xml = xbrl_instance.find(f"{{*}}unit[@id='{unit_id}']")
+                unit_xml = find_child_by_id(xbrl_instance, "unit", unit_id)
 
                 if unit_xml is None:
                     error_repository.insert(
@@ -186,9 +198,7 @@ def parse_facts_xml(
             # ======== PARSE THE CONTEXT ========
             context_id = get_str_attribute(xml_fact, "contextRef")
 
-            xml_context = xbrl_instance.find(
-                f"{{*}}context[@id='{context_id}']", namespaces=None
-            )
+            xml_context = find_child_by_id(xbrl_instance, "context", context_id)
 
             if xml_context is None:
                 error_repository.insert(
-- 
2.43.0


From a2701cb5db95dccd2eec7208ad2f1674c2af50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:02 +0000
Subject: [PATCH 075/102] fix: explicit and typed members without a dimension
 made the parser fail

---
 .../parsers/XML/characteristics/xml_parse_explicit_dimension.py | 2 +-
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b0a224e..50ef247 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -47,7 +47,7 @@ def parse_explicit_dimension_from_xml(
     aspect_repository = filing_context.get_aspect_repository()
     error_repository = filing_context.get_error_repository()
 
-    aspect_id = get_str_attribute(xml_element, "dimension").strip()
+    aspect_id = get_str_attribute(xml_element, "dimension", "").strip()
     dimension_qname = qname_from_str(aspect_id, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 146c74f..9aafe54 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -58,7 +58,7 @@ def parse_typed_dimension_from_xml(
     characteristic_repository = filing_context.get_characteristic_repository()
     error_repository = filing_context.get_error_repository()
 
-    dimension_axis = get_str_attribute(xml_element, "dimension")
+    dimension_axis = get_str_attribute(xml_element, "dimension", "").strip()
 
     dimension_qname = qname_from_str(dimension_axis, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
-- 
2.43.0


From 8c4f96a135656d38bdcb7b947773cbae2114bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:32 +0000
Subject: [PATCH 076/102] fix: inline contexts and units without an id made the
 parser fail

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 60de3c1..3ffe7bc 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -92,7 +92,7 @@ def parse_contexts(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_CONTEXT_WITHOUT_ID, context_element)
-            id = str(id)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
@@ -122,13 +122,14 @@ def parse_units(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_UNIT_WITHOUT_ID, unit_element)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
                 ErrorCode.IXBRL_DUPLICATE_ELEMENT_ID, unit_element, id=id
             )
 
-        taken_ids.add(str(id))
+        taken_ids.add(id)
 
         unit = parse_unit_from_xml(filing_context, unit_element)
         if not unit:
-- 
2.43.0


From c9a1f145dbef86c1b561a495cebfd740bcfec908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:34 +0000
Subject: [PATCH 077/102] fix: the escape attribute has two forms for each
 value

---
 brel/parsers/XHMTL/elements/parse_non_numeric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 3132e84..9822320 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -80,6 +80,9 @@ def parse_non_numeric_fact_element(
         taken_ids.add(id)
 
     escape = get_str_attribute_optional(fact_element, "escape")
+    # xs:boolean has two lexical forms for each value
+    if escape in ("1", "0"):
+        escape = "true" if escape == "1" else "false"
 
     if escape and escape not in ["true", "false"]:
         error_repository.insert(
-- 
2.43.0


From 8883797389c1c778989f4554d61194f648e54295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:36 +0000
Subject: [PATCH 078/102] fix: ix:header in the head of the document was not
 reported

---
 brel/parsers/XHMTL/elements/parse_header.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index faf84f4..d321443 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -13,9 +13,13 @@ from lxml.etree import _Element
 def check_no_header_element_in_head(
     etree: _Element, error_repository: ErrorRepository
 ) -> None:
-    head_elements = find_elements(etree, ".//head")
+    head_elements = find_elements(
+        etree,
+        ".//xhtml:head",
+        namespaces={"xhtml": "http://www.w3.org/1999/xhtml"},
+    )
     for head_element in head_elements:
-        if find_element(head_element, ".//ix:header"):
+        if find_element(head_element, ".//ix:header") is not None:
             error_repository.insert(
                 ErrorCode.IXBRL_HEADER_ELEMENT_IN_HEAD, head_element
             )
-- 
2.43.0


From 8abc03dab99bae176eb7045ba7268182bbe232fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 079/102] fix: the settings for the system and the report
 language were swapped

---
 brel/brel_filing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 80ff7b5..65a72de 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -567,8 +567,8 @@ class Filing:
 
         languages = self.get_preferred_languages(
             kwargs.get("languages"),
-            allow_system_language,
             allow_report_language,
+            allow_system_language,
             allow_default,
         )
 
-- 
2.43.0


From 90b558751689a30bd74b21448821bc7cfafc3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:11 +0000
Subject: [PATCH 080/102] fix: the system language never matched a language

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 0b26753..8f02574 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -40,7 +40,8 @@ class BrelConfig:
     @classmethod
     def get_system_language(cls) -> Optional[str]:
         locale, _ = getdefaultlocale()
-        return locale
+        # a locale is written en_US, the language of a label en-US
+        return locale.replace("_", "-") if locale else None
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-- 
2.43.0


From 71c1094b700c11ef8ba009e907643f676cef2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:13 +0000
Subject: [PATCH 081/102] fix: filings could be opened only in one directory

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 8f02574..3a6ba5c 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -1,3 +1,4 @@
+import os
 from locale import getdefaultlocale
 from typing import List, Optional, Unpack, cast
 
@@ -45,4 +46,4 @@ class BrelConfig:
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-        return "./brel/config/translations.csv"
+        return os.path.join(os.path.dirname(__file__), "translations.csv")
-- 
2.43.0


From fc9d7eca1f48bc472d56cb6b80f32088bdab6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:15 +0000
Subject: [PATCH 082/102] fix: tables in one language had one copy of their
 rows for each language

---
 brel/brel_filing.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 65a72de..ac76aa7 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -516,14 +516,16 @@ class Filing:
                 d = element.convert_to_dict(languages_list, translation_service)
                 data.append(d)
         else:
+            # the first language in which every element has a representation
             for language in output_params["languages"]:
-                for element in elements:
-                    try:
-                        d = element.convert_to_dict([language], translation_service)
-                        data.append(d)
-                    except:
-                        data = []
-                        break
+                try:
+                    data = [
+                        element.convert_to_dict([language], translation_service)
+                        for element in elements
+                    ]
+                    break
+                except Exception:
+                    continue
 
         df = pd.DataFrame(data)
         return df
-- 
2.43.0


From c5ffb85dbaabe0a483daaddc60092c94da9d7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:16 +0000
Subject: [PATCH 083/102] fix: misspelled key for the definition network

---
 brel/brel_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_component.py b/brel/brel_component.py
index 6701391..c9e3c17 100644
--- a/brel/brel_component.py
+++ b/brel/brel_component.py
@@ -189,7 +189,7 @@ class Component:
                 "calculation-network": (
                     True if self.__calculation_network is not None else False
                 ),
-                "definintion-network": (
+                "definition-network": (
                     True if self.__definition_network is not None else False
                 ),
             }
-- 
2.43.0


From 97f474563cbc0cf817d28a32f79bd003e5fe9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 084/102] fix: facts with further dimensions counted as parts
 of a sum

---
 brel/networks/calculation_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 4b37881..2428118 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -147,7 +147,11 @@ class CalculationNetwork(INetwork):
                     child_concept = child.get_concept()
 
                     # child facts are all facts with the same characteristics as the node fact, except for the concept
-                    child_facts: Iterable[Fact] = facts
+                    child_facts: Iterable[Fact] = [
+                        fact
+                        for fact in facts
+                        if len(fact.get_aspects()) == len(node_fact.get_aspects())
+                    ]
                     for node_aspect in node_fact.get_aspects():
                         # if the aspect is the concept, then get all fact with the child_concept as the concept characteristic
                         if node_aspect == Aspect.CONCEPT:
-- 
2.43.0


From d9025be5e545f01b3e881d7ce8e9118be9e2aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 085/102] fix: sums below a concept without facts were not
 checked

---
 brel/networks/calculation_network.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 2428118..f1b0fbf 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -210,11 +210,11 @@ class CalculationNetwork(INetwork):
                 if node_value != children_sum:
                     return False
 
-                # check the children
-                for child in node.get_children():
-                    child = cast(CalculationNetworkNode, child)
-                    if not is_subnetwork_aggregation_consistent(child):
-                        return False
+            # check the children
+            for child in node.get_children():
+                child = cast(CalculationNetworkNode, child)
+                if not is_subnetwork_aggregation_consistent(child):
+                    return False
 
             return True
 
-- 
2.43.0


From f16e026652b1e5a2cd3b2020e3ddc53352da851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:21 +0000
Subject: [PATCH 086/102] fix: sums of decimal numbers were compared as floats

---
 brel/networks/calculation_network.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index f1b0fbf..202affc 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -14,6 +14,7 @@ Calculation networks also contain helper functions for checking the consistency
 
 DEBUG = False
 
+from fractions import Fraction
 from typing import Iterable, cast
 
 from brel import Fact, QName
@@ -110,6 +111,11 @@ class CalculationNetwork(INetwork):
         :returns bool: True iff the network is aggregation consistent
         """
 
+        def to_fraction(fact: Fact) -> Fraction:
+            # raises a ValueError if the fact is not a number
+            float(fact)
+            return Fraction(str(fact).strip())
+
         def is_subnetwork_aggregation_consistent(
             node: CalculationNetworkNode,
         ) -> bool:
@@ -135,13 +141,14 @@ class CalculationNetwork(INetwork):
             )
 
             for node_fact in node_facts:
-                node_value = float(node_fact)
+                # sums of decimal numbers are not exact as floats
+                node_value = to_fraction(node_fact)
 
                 if DEBUG:  # pragma: no cover
                     print(f"{node_fact._get_id()}: {node_value} = ", end=" ")
 
                 # get the sum of the children values
-                children_sum: float = 0
+                children_sum = Fraction(0)
                 for child in node.get_children():
                     child = cast(CalculationNetworkNode, child)
                     child_concept = child.get_concept()
@@ -193,7 +200,9 @@ class CalculationNetwork(INetwork):
 
                     child_fact = all_child_facts[0]
 
-                    children_sum += float(child_fact) * child.get_weight()
+                    children_sum += to_fraction(child_fact) * Fraction(
+                        str(child.get_weight())
+                    )
 
                     if DEBUG:  # pragma: no cover
                         print(
-- 
2.43.0


From 2441b6d029994cc5e56c0e3f8490ba5d9b8b5c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:29 +0000
Subject: [PATCH 087/102] fix: a label without an arc made opening fail

---
 brel/parsers/XML/networks/xml_label_network_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index 80f489d..f0f2643 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -104,6 +104,9 @@ class LabelNetworkFactory(IXMLNetworkFactory):
         for root in network.get_roots():
             if not isinstance(root, LabelNetworkNode):
                 raise TypeError("roots must all be of type LabelNetworkNode")
+            if root.points_to() == "resource":
+                # a label that no arc connects belongs to no report element
+                continue
             if not root.points_to() == "report element":
                 raise ValueError(f"root {root} is not a report element")
 
-- 
2.43.0


From b8a9a1ecef9813b81f37e22f774077cc78b740c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:30 +0000
Subject: [PATCH 088/102] fix: arcs below an element that could not be found
 were lost

---
 .../XML/networks/xml_extended_link_parser.py  | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index a44496e..e95c81a 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -141,18 +141,35 @@ def parse_xml_link(
             node_to_arcs[arc_from].append(arc_element)
             node_to_arcs[arc_to].append(arc_element)
 
+        # the locators and resources by their label. Those that cannot be resolved are reported and left out
+        objects: list[
+            tuple[str, lxml.etree._Element, IResource | IReportElement | Fact]  # type: ignore
+        ] = []
         for link_element in find_elements(
             xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
         ):
-            label = get_str_attribute(link_element, "xlink:label")
             to_object: Optional[
                 IResource | IReportElement | Fact
             ] = get_object_from_reference(link_element, context)
 
-            if to_object is None:
-                continue
-
-            node_arcs = node_to_arcs[label]
+            if to_object is not None:
+                objects.append(
+                    (
+                        get_str_attribute(link_element, "xlink:label"),
+                        link_element,
+                        to_object,
+                    )
+                )
+        labels = set(label for label, _, _ in objects)
+
+        for label, link_element, to_object in objects:
+            # an arc that comes from or goes to nothing does not connect the node
+            node_arcs = [
+                arc
+                for arc in node_to_arcs[label]
+                if get_str_attribute(arc, "xlink:from") in labels
+                and get_str_attribute(arc, "xlink:to") in labels
+            ]
             arcs_to = list(
                 filter(
                     lambda arc: get_str_attribute(arc, "xlink:to", "") == label,
-- 
2.43.0


From d701abb4d174a25ee9753e03e7e2193036a452d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:32 +0000
Subject: [PATCH 089/102] fix: brackets in component information were taken for
 markup when printed

---
 brel/utils/print_component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/utils/print_component.py b/brel/utils/print_component.py
index 024c490..87aa253 100644
--- a/brel/utils/print_component.py
+++ b/brel/utils/print_component.py
@@ -11,6 +11,7 @@ Module for pretty printing a component and all its networks to the console.
 """
 
 import rich
+from rich.text import Text
 from brel import Component
 from brel.utils import pprint_network
 
@@ -22,8 +23,9 @@ def pprint_component(component: Component):
 
     # print(f"Component: {component.get_URI()}")
     # print(f"Info: {component.get_info()}")
-    rich.print(f"[bold]Component:[/bold] {component.get_URI()}")
-    rich.print(f"[italic]Info:[/italic] {component.get_info()}")
+    # the URI and the info are not markup, even if they contain brackets
+    rich.print(Text.assemble(("Component:", "bold"), " ", component.get_URI()))
+    rich.print(Text.assemble(("Info:", "italic"), " ", component.get_info()))
 
     networks = component.get_networks()
     for network in networks:
-- 
2.43.0


From 482183f7fbdb63f72b160350ec1847bacfc2f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:09 +0000
Subject: [PATCH 090/102] fix: catalog entries that map to a web address were
 taken for local paths

---
 brel/parsers/XML/xml_parse_catalog.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XML/xml_parse_catalog.py b/brel/parsers/XML/xml_parse_catalog.py
index 1dab1ff..f802ddd 100644
--- a/brel/parsers/XML/xml_parse_catalog.py
+++ b/brel/parsers/XML/xml_parse_catalog.py
@@ -40,9 +40,9 @@ def parse_catalog_xml(
 
         original_strings.add(original_string)
 
-        replacement_string_pieces = replacement_string.split("/")
-
-        complete_replacement_string = "/".join(
-            catalog_filepath_pieces[:-1] + replacement_string_pieces
-        )
-        uri_rewrite_repository.upsert(original_string, complete_replacement_string)
+        # the replacement is relative to the catalog, unless it is a web address
+        if not replacement_string.startswith(("http://", "https://")):
+            replacement_string = "/".join(
+                catalog_filepath_pieces[:-1] + [replacement_string]
+            )
+        uri_rewrite_repository.upsert(original_string, replacement_string)
-- 
2.43.0


From 3cbc0db924d7852e517ec46dd120254f9b303ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:10 +0000
Subject: [PATCH 091/102] fix: units of different documents with the same name
 compared equal

---
 brel/characteristics/unit_characteristic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brel/characteristics/unit_characteristic.py b/brel/characteristics/unit_characteristic.py
index a37e087..5872809 100644
--- a/brel/characteristics/unit_characteristic.py
+++ b/brel/characteristics/unit_characteristic.py
@@ -14,6 +14,7 @@ However, the UnitCharacteristic can also handle more complex units consisting of
 ====================
 """
 
+from collections import Counter
 from typing import List
 from brel import QName
 from brel.characteristics import Aspect, ICharacteristic
@@ -89,7 +90,12 @@ class UnitCharacteristic(ICharacteristic):
         if not isinstance(__value, UnitCharacteristic):
             return False
 
-        return self.__name == __value.__name
+        # units of different documents can have the same name
+        return (
+            self.__name == __value.__name
+            and Counter(self.__numerators) == Counter(__value.__numerators)
+            and Counter(self.__denominators) == Counter(__value.__denominators)
+        )
 
     def is_simple(self) -> bool:
         """
-- 
2.43.0


From 950d22db76fb04a9e6cf626f2e62c8b711d34561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:12 +0000
Subject: [PATCH 092/102] fix: contexts compared by id instead of by what they
 say

---
 brel/brel_context.py                           | 3 +--
 brel/characteristics/concept_characteristic.py | 8 ++++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/brel/brel_context.py b/brel/brel_context.py
index 5a3cc82..b74652c 100644
--- a/brel/brel_context.py
+++ b/brel/brel_context.py
@@ -192,8 +192,7 @@ class Context:
         if not isinstance(__value, Context):
             return False
 
-        # TODO: dont use the _id, compare the aspects instead
-        return self._get_id() == __value._get_id()
+        return self.__characteristics == __value.__characteristics
 
     def convert_to_df_row(
         self,
diff --git a/brel/characteristics/concept_characteristic.py b/brel/characteristics/concept_characteristic.py
index 0423ab2..62d0794 100644
--- a/brel/characteristics/concept_characteristic.py
+++ b/brel/characteristics/concept_characteristic.py
@@ -42,6 +42,14 @@ class ConceptCharacteristic(ICharacteristic):
             self.__concept.get_name().get_local_name(),
         )
 
+    def __eq__(self, __value: object) -> bool:
+        if not isinstance(__value, ConceptCharacteristic):
+            return False
+        return self.__concept == __value.__concept
+
+    def __hash__(self) -> int:
+        return hash(self.__concept.get_name())
+
     def get_aspect(self) -> Aspect:
         """
         :returns Aspect: returns the `Aspect.CONCEPT` aspect
-- 
2.43.0


From 860f56637450e2b3f23d21480a7d5690aa95232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:13 +0000
Subject: [PATCH 093/102] fix: the list of EDGAR filings was used for two days
 instead of one

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 21e90ec..6b37eea 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -114,7 +114,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
             - datetime.datetime.fromtimestamp(
                 os.path.getmtime(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"))
             )
-        ).days > 1:
+        ).days >= 1:
             if not __download_metadata_for_cik(cik):
                 raise ValueError(f"Failed to download metadata for CIK {cik}")
 
-- 
2.43.0


From 159286448c84c3c76a28fb26d159ceecbf62622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:14 +0000
Subject: [PATCH 094/102] fix: the arcs of an element with several locators in
 a link were not joined

---
 brel/parsers/XML/networks/xml_networks_parser.py |  2 +-
 brel/parsers/utils/network_utils.py              | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_networks_parser.py b/brel/parsers/XML/networks/xml_networks_parser.py
index 2967b93..8b75f98 100644
--- a/brel/parsers/XML/networks/xml_networks_parser.py
+++ b/brel/parsers/XML/networks/xml_networks_parser.py
@@ -107,7 +107,7 @@ def parse_networks_from_xmls(
         combined_network_list: list[INetwork] = []
         for network in network_list:
             if network.is_physical():
-                combined_network_list.append(network)
+                combined_network_list.append(combine_networks([network]))
             else:
                 networks_by_type[type(network)].append(network)
 
diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index 20ab711..4b395c4 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -33,7 +33,9 @@ def target_key(node: INetworkNode) -> object:
     # equal nodes have equal keys
     if node.points_to() == "report element":
         return node.get_report_element().get_name().clark_notation()
-    return node.points_to()
+    elif node.points_to() == "resource":
+        return id(node.get_resource())
+    return id(node.get_fact())
 
 
 def combine_networks(networks: list[INetwork]) -> INetwork:
@@ -50,10 +52,8 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
     # 1. Group the nodes of all networks by what they point to.
     # 2. Give every node the children of all nodes that point to the same thing.
     # 3. Keep those roots that are not a child of any other node.
-    # Thus, the result does not depend on how the arcs are distributed over the networks.
-
-    if len(networks) == 1:
-        return networks[0]
+    # Thus, the result does not depend on how the arcs are distributed over the networks,
+    # nor on the locators that are used to refer to the same thing.
 
     # Step 1. group the nodes by what they point to
     groups: list[list[INetworkNode]] = []
-- 
2.43.0


From b3873fb1356446b058ddacf6c0ee664dd4a94ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 095/102] fix: languages stated at the root of a document were
 not languages of the report

---
 brel/services/xml/xml_service.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 51f7146..698b5f7 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -17,7 +17,6 @@ import urllib
 
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
 from brel.data.xml.xml_repository import XMLRepository
-from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 
@@ -137,14 +136,7 @@ class XMLService:
         if self.__available_filing_languages is None:
             all_languages: Set[str] = set()
             for tree in self.get_all_etrees():
-                elements_with_lang = tree.findall(
-                    "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
-                )
-
-                tree_languages = set(
-                    get_str_attribute(element_with_lang, "xml:lang")
-                    for element_with_lang in elements_with_lang
-                )
+                tree_languages = set(str(lang) for lang in tree.xpath("//@xml:lang"))
 
                 all_languages = all_languages.union(tree_languages)
 
-- 
2.43.0


From 3e53e67e7e8c69d83eb75bb94a8128a51c76a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 096/102] fix: dimensions of equal prefix and local name in
 different namespaces shared one aspect

---
 .../xml_parse_dimension_aspect.py             | 31 +++++++++++++++++++
 .../xml_parse_explicit_dimension.py           | 19 +++++-------
 .../xml_parse_typed_dimension.py              | 19 +++++-------
 3 files changed, 45 insertions(+), 24 deletions(-)
 create mode 100644 brel/parsers/XML/characteristics/xml_parse_dimension_aspect.py

diff --git a/brel/parsers/XML/characteristics/xml_parse_dimension_aspect.py b/brel/parsers/XML/characteristics/xml_parse_dimension_aspect.py
new file mode 100644
index 0000000..e3de14c
--- /dev/null
+++ b/brel/parsers/XML/characteristics/xml_parse_dimension_aspect.py
@@ -0,0 +1,31 @@
+"""
+Contains the function for getting the aspect of a dimension.
+"""
+
+from brel.characteristics import Aspect
+from brel.contexts.filing_context import FilingContext
+from brel.reportelements import Dimension
+
+
+def get_dimension_aspect(filing_context: FilingContext, dimension: Dimension) -> Aspect:
+    """
+    :returns: the aspect of the dimension. It is created if it does not exist yet.
+    """
+    aspect_repository = filing_context.get_aspect_repository()
+    report_element_repository = filing_context.get_report_element_repository()
+
+    qname = dimension.get_name()
+    aspect_name = qname.prefix_local_name_notation()
+
+    # different namespaces can have the same prefix, and an aspect is identified by its name
+    if any(
+        other.get_name().prefix_local_name_notation() == aspect_name
+        and other.get_name() != qname
+        for other in report_element_repository.get_all_typed(Dimension)
+    ):
+        aspect_name = qname.clark_notation()
+
+    if not aspect_repository.has(aspect_name):
+        aspect_repository.upsert(Aspect(aspect_name, []))
+
+    return aspect_repository.get(aspect_name)
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index 50ef247..cc216f8 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -13,12 +13,12 @@ Contains the xml parser for parsing an explicit dimension characteristic from an
 from typing import Optional
 import lxml.etree
 
-from brel.characteristics import (
-    Aspect,
-    ExplicitDimensionCharacteristic,
-)
+from brel.characteristics import ExplicitDimensionCharacteristic
 from brel.errors.error_code import ErrorCode
 
+from brel.parsers.XML.characteristics.xml_parse_dimension_aspect import (
+    get_dimension_aspect,
+)
 from brel.parsers.utils.lxml_utils import get_text, get_str_attribute
 from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Dimension, Member
@@ -44,7 +44,6 @@ def parse_explicit_dimension_from_xml(
     characteristic_repository: CharacteristicRepository = (
         filing_context.get_characteristic_repository()
     )
-    aspect_repository = filing_context.get_aspect_repository()
     error_repository = filing_context.get_error_repository()
 
     aspect_id = get_str_attribute(xml_element, "dimension", "").strip()
@@ -80,17 +79,13 @@ def parse_explicit_dimension_from_xml(
     member = report_element_repository.get_typed_by_qname(member_qname, Member)
 
     # prefixes depend on the document, so the characteristic is identified by the names
-    aspect_name = dimension.get_name().prefix_local_name_notation()
-    if not aspect_repository.has(aspect_name):
-        aspect_repository.upsert(Aspect(aspect_name, []))
-
-    aspect = aspect_repository.get(aspect_name)
-
     dimension_id = f"{dimension_qname.clark_notation()} {member_qname.clark_notation()}"
     if not characteristic_repository.has(dimension_id, ExplicitDimensionCharacteristic):
         characteristic_repository.upsert(
             dimension_id,
-            ExplicitDimensionCharacteristic(dimension, member, aspect),
+            ExplicitDimensionCharacteristic(
+                dimension, member, get_dimension_aspect(filing_context, dimension)
+            ),
         )
 
     return characteristic_repository.get(dimension_id, ExplicitDimensionCharacteristic)
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 9aafe54..fecd672 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -14,12 +14,12 @@ It parses XBRL in the XML syntax.
 from typing import Optional
 import lxml.etree
 
-from brel.characteristics import (
-    Aspect,
-    TypedDimensionCharacteristic,
-)
+from brel.characteristics import TypedDimensionCharacteristic
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
+from brel.parsers.XML.characteristics.xml_parse_dimension_aspect import (
+    get_dimension_aspect,
+)
 from brel.parsers.utils.iterable_utils import get_first
 from brel.parsers.utils.error_utils import error_on_none
 from brel.parsers.utils.lxml_utils import get_text, get_str_attribute
@@ -53,7 +53,6 @@ def parse_typed_dimension_from_xml(
     From the dimension attribute, we know which dimension we are dealing with.
     From the value of the domain element, we know which member we are dealing with.
     """
-    aspect_repository = filing_context.get_aspect_repository()
     report_element_repository = filing_context.get_report_element_repository()
     characteristic_repository = filing_context.get_characteristic_repository()
     error_repository = filing_context.get_error_repository()
@@ -102,16 +101,12 @@ def parse_typed_dimension_from_xml(
         return None
 
     # prefixes depend on the document, so the characteristic is identified by the names
-    aspect_name = i_report_element.get_name().prefix_local_name_notation()
-    if not aspect_repository.has(aspect_name):
-        aspect_repository.upsert(Aspect(aspect_name, []))
-
-    dimension_aspect = aspect_repository.get(aspect_name)
-
     dimension_id = f"{dimension_qname.clark_notation()} {dimension_value}"
     if not characteristic_repository.has(dimension_id, TypedDimensionCharacteristic):
         dimension_characteristic = TypedDimensionCharacteristic(
-            i_report_element, dimension_value, dimension_aspect
+            i_report_element,
+            dimension_value,
+            get_dimension_aspect(filing_context, i_report_element),
         )
         characteristic_repository.upsert(dimension_id, dimension_characteristic)
 
-- 
2.43.0


From c5631b3048f02251b71cb68e0562e1b290c6ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 097/102] fix: locators referred to any element or fact of that
 id instead of the one in the document they name

---
 brel/data/fact/fact_repository.py             |  6 ++--
 brel/data/fact/in_memory_fact_repository.py   | 22 +++++++++----
 .../in_memory_report_element_repository.py    | 22 ++++++++-----
 .../report_element_repository.py              |  9 ++++--
 .../XML/networks/xml_extended_link_parser.py  | 18 +++++++++--
 brel/parsers/XML/xml_facts_parser.py          |  5 ++-
 brel/parsers/XML/xml_report_element_parser.py |  4 ++-
 brel/services/xml/xml_service.py              | 32 ++++++++++++++++++-
 8 files changed, 91 insertions(+), 27 deletions(-)

diff --git a/brel/data/fact/fact_repository.py b/brel/data/fact/fact_repository.py
index f4e4158..3fbea75 100644
--- a/brel/data/fact/fact_repository.py
+++ b/brel/data/fact/fact_repository.py
@@ -15,7 +15,7 @@ from brel.brel_fact import Fact
 
 class FactRepository(ABC):
     @abstractmethod
-    def get_by_id(self, id: str) -> Fact:
+    def get_by_id(self, id: str, document_uri: Optional[str] = None) -> Fact:
         pass
 
     @abstractmethod
@@ -23,7 +23,7 @@ class FactRepository(ABC):
         pass
 
     @abstractmethod
-    def has_id(self, id: str) -> bool:
+    def has_id(self, id: str, document_uri: Optional[str] = None) -> bool:
         pass
 
     @abstractmethod
@@ -31,5 +31,5 @@ class FactRepository(ABC):
         pass
 
     @abstractmethod
-    def upsert(self, fact: Fact) -> None:
+    def upsert(self, fact: Fact, document_uri: Optional[str] = None) -> None:
         pass
diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 0395f20..1e13e57 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -15,11 +15,17 @@ from brel.brel_fact import Fact
 
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
-        self.__facts_by_id: dict[str, Fact] = {}
+        # ids are only unique within one document. None stands for all documents
+        self.__facts_by_id: dict[tuple[Optional[str], str], Fact] = {}
         self.__facts: list[Fact] = []
 
-    def get_by_id(self, id: str) -> Fact:
-        return self.__facts_by_id[id]
+    def get_by_id(self, id: str, document_uri: Optional[str] = None) -> Fact:
+        """
+        :param id: The id of the fact.
+        :param document_uri: The document that contains the fact. None for any document.
+        :returns: The fact with the id.
+        """
+        return self.__facts_by_id[(document_uri, id)]
 
     def get_by_id_optional(self, id: str) -> Optional[Fact]:
         try:
@@ -27,19 +33,21 @@ class InMemoryFactRepository(FactRepository):
         except KeyError:
             return None
 
-    def has_id(self, id: str) -> bool:
-        return id in self.__facts_by_id
+    def has_id(self, id: str, document_uri: Optional[str] = None) -> bool:
+        return (document_uri, id) in self.__facts_by_id
 
     def get_all(self):
         return list(self.__facts)
 
-    def upsert(self, fact: Fact) -> None:
+    def upsert(self, fact: Fact, document_uri: Optional[str] = None) -> None:
         """
         Add the fact and, if it has an ID, make it available by its ID.
         Facts without an ID and facts of different documents that share an ID are all kept.
         :param fact: The fact to add.
+        :param document_uri: The document that contains the fact.
         """
         self.__facts.append(fact)
         fact_id = fact.get_id()
         if fact_id is not None:
-            self.__facts_by_id[fact_id] = fact
+            self.__facts_by_id[(None, fact_id)] = fact
+            self.__facts_by_id[(document_uri, fact_id)] = fact
diff --git a/brel/data/report_element/in_memory_report_element_repository.py b/brel/data/report_element/in_memory_report_element_repository.py
index b303f4d..28e296a 100644
--- a/brel/data/report_element/in_memory_report_element_repository.py
+++ b/brel/data/report_element/in_memory_report_element_repository.py
@@ -8,6 +8,8 @@
 ====================
 """
 
+from typing import Optional
+
 from brel.data.report_element.report_element_repository import ReportElementRepository
 from brel.reportelements.i_report_element import IReportElement
 from brel.qnames.qname import QName
@@ -16,13 +18,14 @@ from brel.qnames.qname import QName
 class InMemoryReportElementRepository(ReportElementRepository):
     def __init__(self) -> None:
         self.__elements_by_qname: dict[QName, IReportElement] = {}
-        self.__elements_by_id: dict[str, IReportElement] = {}
+        # ids are only unique within one document. None stands for all documents
+        self.__elements_by_id: dict[tuple[Optional[str], str], IReportElement] = {}
 
     def has_qname(self, qname: QName) -> bool:
         return qname in self.__elements_by_qname
 
-    def has_id(self, id: str) -> bool:
-        return id in self.__elements_by_id
+    def has_id(self, id: str, document_uri: Optional[str] = None) -> bool:
+        return (document_uri, id) in self.__elements_by_id
 
     def get_by_qname(self, qname: QName) -> IReportElement:
         if not self.has_qname(qname):
@@ -32,17 +35,20 @@ class InMemoryReportElementRepository(ReportElementRepository):
 
         return self.__elements_by_qname[qname]
 
-    def get_by_id(self, id: str) -> IReportElement:
-        if not self.has_id(id):
+    def get_by_id(self, id: str, document_uri: Optional[str] = None) -> IReportElement:
+        if not self.has_id(id, document_uri):
             raise KeyError(f"Report element with ID {id} not found in repository.")
 
-        return self.__elements_by_id[id]
+        return self.__elements_by_id[(document_uri, id)]
 
-    def upsert(self, report_element: IReportElement) -> None:
+    def upsert(
+        self, report_element: IReportElement, document_uri: Optional[str] = None
+    ) -> None:
         self.__elements_by_qname[report_element.get_name()] = report_element
         report_element_id = report_element.get_id()
         if report_element_id is not None:
-            self.__elements_by_id[report_element_id] = report_element
+            self.__elements_by_id[(None, report_element_id)] = report_element
+            self.__elements_by_id[(document_uri, report_element_id)] = report_element
 
     def get_all(self) -> list[IReportElement]:
         return list(self.__elements_by_qname.values())
diff --git a/brel/data/report_element/report_element_repository.py b/brel/data/report_element/report_element_repository.py
index 736fb87..b23eaf7 100644
--- a/brel/data/report_element/report_element_repository.py
+++ b/brel/data/report_element/report_element_repository.py
@@ -11,6 +11,7 @@
 from brel.reportelements.i_report_element import IReportElement
 from brel.qnames.qname import QName
 from abc import ABC, abstractmethod
+from typing import Optional
 
 
 class ReportElementRepository(ABC):
@@ -19,7 +20,7 @@ class ReportElementRepository(ABC):
         pass
 
     @abstractmethod
-    def has_id(self, id: str) -> bool:
+    def has_id(self, id: str, document_uri: Optional[str] = None) -> bool:
         pass
 
     @abstractmethod
@@ -27,11 +28,13 @@ class ReportElementRepository(ABC):
         pass
 
     @abstractmethod
-    def get_by_id(self, id: str) -> IReportElement:
+    def get_by_id(self, id: str, document_uri: Optional[str] = None) -> IReportElement:
         pass
 
     @abstractmethod
-    def upsert(self, report_element: IReportElement) -> None:
+    def upsert(
+        self, report_element: IReportElement, document_uri: Optional[str] = None
+    ) -> None:
         pass
 
     @abstractmethod
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index e95c81a..430fcb7 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -45,6 +45,7 @@ from brel.contexts.filing_context import FilingContext
 def get_object_from_reference(
     referenced_element: lxml.etree._Element,  # type: ignore
     filing_context: FilingContext,
+    referencing_uri: Optional[str],
 ) -> Optional[IResource | IReportElement | Fact]:
     report_element_repository = filing_context.get_report_element_repository()
     fact_repository = filing_context.get_fact_repository()
@@ -57,9 +58,19 @@ def get_object_from_reference(
 
         href = get_str_attribute(referenced_element, "xlink:href")
 
-        elem_id = href.split("#")[-1]
+        uri, _, elem_id = href.strip().rpartition("#")
+        document_uri = filing_context.get_xml_service().get_referenced_uri(
+            uri, referencing_uri
+        )
 
-        if report_element_repository.has_id(elem_id):
+        # ids are only unique within one document
+        if report_element_repository.has_id(elem_id, document_uri):
+            locator_target_element = report_element_repository.get_by_id(
+                elem_id, document_uri
+            )
+        elif fact_repository.has_id(elem_id, document_uri):
+            locator_target_element = fact_repository.get_by_id(elem_id, document_uri)
+        elif report_element_repository.has_id(elem_id):
             locator_target_element = report_element_repository.get_by_id(elem_id)
         elif fact_repository.has_id(elem_id):
             locator_target_element = fact_repository.get_by_id(elem_id)
@@ -90,6 +101,7 @@ def parse_xml_link(
     xml_link_element: lxml.etree._Element,  # type: ignore
 ) -> Iterable[INetwork]:
     error_repository = context.get_error_repository()
+    link_uri = context.get_xml_service().get_uri(xml_link_element)
     networks: list[INetwork] = []
     network_factories: list[IXMLNetworkFactory] = []
 
@@ -150,7 +162,7 @@ def parse_xml_link(
         ):
             to_object: Optional[
                 IResource | IReportElement | Fact
-            ] = get_object_from_reference(link_element, context)
+            ] = get_object_from_reference(link_element, context, link_uri)
 
             if to_object is not None:
                 objects.append(
diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 676f2e6..e0cd48b 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -118,7 +118,10 @@ def parse_fact_from_xml(
             precision=precision_str,
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
+    fact_repository.upsert(
+        Fact(context, fact_value, fact_id, decimals, precision),
+        filingContext.get_xml_service().get_uri(fact_xml_element),
+    )
 
 
 def parse_facts_xml(
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index b4d5ff0..ce832f0 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -80,7 +80,9 @@ def parse_report_element(
         report_element_xml, qname, [], error_repository
     )
     if report_element and not report_element_repository.has_qname(qname):
-        report_element_repository.upsert(report_element)
+        report_element_repository.upsert(
+            report_element, xml_service.get_uri(report_element_xml)
+        )
 
         if isinstance(report_element, Dimension):
             typed_domain_ref = to_namespace_localname_notation(
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 698b5f7..27403e7 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -11,7 +11,7 @@
 import os
 from typing import IO, Dict, List, Optional, Set
 import urllib.parse
-from lxml.etree import _ElementTree  # type: ignore
+from lxml.etree import _Element, _ElementTree  # type: ignore
 from requests import RequestException
 import urllib
 
@@ -129,6 +129,36 @@ class XMLService:
         uri = self.__resolve_uri(uri, referencing_uri)
         return self.get_etree(uri) if self.__xml_repository.has_etree(uri) else None
 
+    def get_uri(self, element: _Element) -> Optional[str]:
+        """
+        :param element: An element of one of the trees.
+        :returns: The uri of the tree that contains the element. None if there is no such tree.
+        """
+        root = element.getroottree().getroot()
+        return next(
+            (
+                self.__xml_repository.get_uri(etree)
+                for etree in self.get_all_etrees()
+                if etree.getroot() is root
+            ),
+            None,
+        )
+
+    def get_referenced_uri(
+        self, uri: str, referencing_uri: Optional[str]
+    ) -> Optional[str]:
+        """
+        :param uri: The uri as written in the referencing tree.
+        :param referencing_uri: The uri of the referencing tree.
+        :returns: The uri of the referenced tree, whether there is such a tree or not.
+        """
+        if uri in ("", ".") or referencing_uri is None:
+            return referencing_uri
+
+        return self.__xml_repository.normalize_uri(
+            self.__resolve_uri(uri, referencing_uri)
+        )
+
     def get_all_etrees(self) -> list[_ElementTree]:
         return self.__xml_repository.get_all_etrees()
 
-- 
2.43.0


From 2d9fa79ae1fce6933f8920a7b27dc95227d1e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:27 +0000
Subject: [PATCH 098/102] fix: documents with long texts or deep nesting could
 not be opened

---
 brel/services/factory.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 9c5584e..6eadc76 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,7 +8,9 @@
 ====================
 """
 
-from lxml.etree import parse as parse_xml
+from io import BytesIO
+from typing import IO
+from lxml.etree import XMLParser, _ElementTree, parse as parse_xml
 from lxml.html import html5parser
 from requests import Session
 from brel.data.errors.error_repository import ErrorRepository
@@ -50,7 +52,12 @@ def create_xml_service(
 
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
-    return XMLFileParserResolver(
-        lambda content: parse_xml(content),
-        lambda content: parse_xml(content),
-    )
+    return XMLFileParserResolver(parse_document, parse_document)
+
+
+def parse_document(content: IO[bytes]) -> _ElementTree:
+    data = content.read()
+    # Documents can have long texts, long attributes (e.g. images) and deep nesting.
+    # Only entities can make a document expand beyond its own size.
+    has_entities = b"<!ENTITY" in data.replace(b"\0", b"")
+    return parse_xml(BytesIO(data), XMLParser(huge_tree=not has_entities))
-- 
2.43.0


From 924abd5b72f10e830b960aa3759f2a4ea7b6e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 099/102] fix: ids in references can be percent-encoded or
 written as element(id)

---
 .../XML/networks/xml_extended_link_parser.py       |  4 +++-
 brel/parsers/XML/xml_report_element_parser.py      |  4 +++-
 brel/parsers/utils/url_utils.py                    | 14 +++++++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 430fcb7..7233548 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -37,6 +37,7 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute,
     get_clark_notation_tag,
 )
+from brel.parsers.utils.url_utils import get_id_from_fragment
 from brel.reportelements import *
 from brel.resource import *
 from brel.contexts.filing_context import FilingContext
@@ -58,7 +59,8 @@ def get_object_from_reference(
 
         href = get_str_attribute(referenced_element, "xlink:href")
 
-        uri, _, elem_id = href.strip().rpartition("#")
+        uri, _, fragment = href.strip().rpartition("#")
+        elem_id = get_id_from_fragment(fragment)
         document_uri = filing_context.get_xml_service().get_referenced_uri(
             uri, referencing_uri
         )
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index ce832f0..c31b598 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -22,6 +22,7 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
     has_str_attribute,
 )
+from brel.parsers.utils.url_utils import get_id_from_fragment
 from brel.qnames.qname import QName
 from brel.qnames.qname_utils import (
     qname_from_str,
@@ -91,7 +92,8 @@ def parse_report_element(
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
-                ref_schema_name, _, ref_id = ref_full.partition("#")
+                ref_schema_name, _, fragment = ref_full.partition("#")
+                ref_id = get_id_from_fragment(fragment)
                 refschema = xml_service.get_referenced_etree(
                     ref_schema_name, current_etree
                 )
diff --git a/brel/parsers/utils/url_utils.py b/brel/parsers/utils/url_utils.py
index 5834092..0b86ae8 100644
--- a/brel/parsers/utils/url_utils.py
+++ b/brel/parsers/utils/url_utils.py
@@ -1,4 +1,5 @@
-from urllib.parse import urlparse
+import re
+from urllib.parse import unquote, urlparse
 
 
 def is_valid_uri(uri: str) -> bool:
@@ -12,3 +13,14 @@ def is_valid_uri(uri: str) -> bool:
         return result.path != "" or result.scheme != "" and result.netloc != ""
     except Exception:
         return False
+
+
+def get_id_from_fragment(fragment: str) -> str:
+    """
+    Gets the id of the element that the fragment of a URI refers to.
+    :param fragment: an id or an XPointer of the form "element(id)". Special characters can be percent-encoded.
+    :return: the id
+    """
+    fragment = unquote(fragment)
+    element_pointer = re.fullmatch(r"element\((.*)\)", fragment)
+    return element_pointer.group(1) if element_pointer else fragment
-- 
2.43.0


From b59f2f35c3ea6bfc75738ee26483d15428e8b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:00 +0000
Subject: [PATCH 100/102] fix: nested numbers of one format are not reported
 when white space or prefixes differ

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 688a2d2..2d19d9d 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -57,11 +57,11 @@ def validate_descendant_non_fraction_rules(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
         )
 
-    parent_format = get_str_attribute_optional(parent, "format")
+    parent_format = get_transformation_format(parent)
     parent_scale = get_str_attribute_optional(parent, "scale")
     parent_unit = get_str_attribute_optional(parent, "unitRef")
 
-    this_format = get_str_attribute_optional(element, "format")
+    this_format = get_transformation_format(element)
     this_scale = get_str_attribute_optional(element, "scale")
     this_unit = get_str_attribute_optional(element, "unitRef")
 
-- 
2.43.0


From f29c03b2db56079dcdcd2f3e5f905ddadda5f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:15 +0000
Subject: [PATCH 101/102] fix: inline numbers with xsi:nil="0" and no text
 could not be opened, nested ones with xsi:nil="1" were not reported

---
 .../parsers/XHMTL/elements/parse_non_fraction.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 2d19d9d..c42d0a4 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -37,6 +37,14 @@ def parse_decimals_or_precision(
     return value
 
 
+def get_xsi_nil(element: _Element) -> str | None:
+    """
+    :returns: the value of the xsi:nil attribute, "1" is the same as "true". None if there is none.
+    """
+    xsi_nil = get_str_attribute_optional(element, "xsi:nil")
+    return "true" if xsi_nil is not None and xsi_nil.strip() in ("true", "1") else xsi_nil
+
+
 def validate_descendant_non_fraction_rules(
     element: _Element, error_repository: ErrorRepository
 ) -> None:
@@ -51,7 +59,7 @@ def validate_descendant_non_fraction_rules(
     if not parent_is_non_fraction:
         return
 
-    xsi_nil = get_str_attribute_optional(element, "xsi:nil")
+    xsi_nil = get_xsi_nil(element)
     if xsi_nil == "true":
         error_repository.insert(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
@@ -186,9 +194,7 @@ def parse_non_fraction_fact_element(
             fact_element,
             precision=precision_str,
         )
-    xsi_nil = get_str_attribute_optional(fact_element, "xsi:nil")
-    if xsi_nil == "1":
-        xsi_nil = "true"
+    xsi_nil = get_xsi_nil(fact_element)
 
     if (
         decimals != None
@@ -219,7 +225,7 @@ def parse_non_fraction_fact_element(
     if xsi_nil == "true" and (has_text or has_children):
         error_repository.insert(ErrorCode.IXBRL_TEXT_OR_CHILDREN_WITH_NIL, fact_element)
 
-    if (not xsi_nil or xsi_nil == "false") and not has_text and not has_children:
+    if xsi_nil != "true" and not has_text and not has_children:
         error_repository.insert(
             ErrorCode.IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE,
             fact_element,
-- 
2.43.0


From 6e99261c7705eaba36e750d4e8198126a55f5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:10 +0000
Subject: [PATCH 102/102] fix: an interrupted download of the list of filings
 of a company made it unusable for a day

---
 brel/utils/edgar.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 6b37eea..3293d7d 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -6,7 +6,7 @@ The module also provides a function for listing all filings for a given CIK and
 """
 
 from brel import Filing
-import requests, json, os, datetime
+import requests, json, os, datetime, uuid
 
 SUPPORTED_FILING_TYPES = ["10-K", "10-Q", "8-K"]
 
@@ -33,8 +33,18 @@ def __download_metadata_for_cik(cik: str) -> bool:
         return False
 
     response_json = response.json()
-    with open(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"), "w") as f:
-        json.dump(response_json, f)
+    # the file only gets its final name when it is complete, as a partial file
+    # would be taken for the cached metadata by the next call
+    file_name = os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json")
+    temporary_file_name = f"{file_name}.{uuid.uuid4().hex}.part"
+    try:
+        with open(temporary_file_name, "w") as f:
+            json.dump(response_json, f)
+        os.replace(temporary_file_name, file_name)
+    except BaseException:
+        if os.path.exists(temporary_file_name):
+            os.remove(temporary_file_name)
+        raise
 
     return True
 
-- 
2.43.0

