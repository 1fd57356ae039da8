From 06fc908df4644db7a7ab14e3de39da41d01f2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:35 +0000
Subject: [PATCH 01/43] fix: keep opposite flows between two nodes (use a
 directed graph)

With an undirected graph, a flow A->B and a flow B->A share one edge: adding or
importing the second silently replaced the first, and edges could be reported
and drawn reversed.
---
 bpmn_python/bpmn_diagram_rep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index c2a0cfe..7e859e8 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -21,7 +21,7 @@ class BpmnDiagramGraph(object):
 
     Fields:
 
-    * diagram_graph - networkx.Graph object, stores elements of BPMN diagram as nodes. Each edge of graph represents
+    * diagram_graph - networkx.DiGraph object, stores elements of BPMN diagram as nodes. Each edge of graph represents
         sequenceFlow element. Edges are identified by IDs of nodes connected by edge. IDs are passed as edge parameters,
     * sequence_flows - dictionary (associative list) of sequence flows existing in diagram.
         Key attribute is sequenceFlow ID, value is a dictionary consisting three key-value pairs: "name" (sequence flow
@@ -47,7 +47,7 @@ class BpmnDiagramGraph(object):
         """
         Default constructor, initializes object fields with new instances.
         """
-        self.diagram_graph = nx.Graph()
+        self.diagram_graph = nx.DiGraph()
         self.sequence_flows = {}
         self.process_elements = {}
         self.diagram_attributes = {}
-- 
2.43.0


From cbd015f40dc2ed911db19660767088ebf2161917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:13 +0000
Subject: [PATCH 02/43] fix: write the process name to exported XML

---
 bpmn_python/bpmn_diagram_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ad2952a..198c657 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -221,6 +221,7 @@ class BpmnDiagramGraphExport(object):
         """
         process = eTree.SubElement(definitions, consts.Consts.process)
         process.set(consts.Consts.id, process_id)
+        process.set(consts.Consts.name, process_attributes_dictionary[consts.Consts.name])
         process.set(consts.Consts.is_closed, process_attributes_dictionary[consts.Consts.is_closed])
         process.set(consts.Consts.is_executable, process_attributes_dictionary[consts.Consts.is_executable])
         process.set(consts.Consts.process_type, process_attributes_dictionary[consts.Consts.process_type])
-- 
2.43.0


From 43b43ed09e2dd3e6f8592289de68b40f811a5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:18 +0000
Subject: [PATCH 03/43] fix: write lane set ids and use childLaneSet for nested
 lanes in exported XML

Nested lanes were exported under a laneSet element, which import ignores, so
they disappeared after one round trip.
---
 bpmn_python/bpmn_diagram_export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 198c657..cb3c992 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -238,6 +238,7 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
+        lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -250,7 +251,8 @@ class BpmnDiagramGraphExport(object):
         :param child_lane_set: dictionary with exported 'childLaneSet' element attributes and child elements,
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane_set)
+        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
+        lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From f9299322b99683c4014b163083633ac2b1c75e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:23 +0000
Subject: [PATCH 04/43] fix: do not overwrite the name of a conditional
 sequence flow on export

---
 bpmn_python/bpmn_diagram_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index cb3c992..19db92a 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -397,7 +397,8 @@ class BpmnDiagramGraphExport(object):
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
-            output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
+            if params[consts.Consts.name] == "":
+                output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
 
     @staticmethod
     def export_flow_di_data(params, plane):
-- 
2.43.0


From 0856d38d5fcbe8bdf03f5c3e40aed946a68ca74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 05/43] fix: export one BPMNShape/BPMNEdge per participant and
 message flow

---
 bpmn_python/bpmn_diagram_export.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 19db92a..af7d20c 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -501,12 +501,16 @@ class BpmnDiagramGraphExport(object):
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
+            # DI data of participants was already exported with 'collaboration' element
+            if params[consts.Consts.type] != consts.Consts.participant:
+                BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
         flows = bpmn_diagram.get_flows()
         for flow in flows:
             params = flow[2]
-            BpmnDiagramGraphExport.export_flow_di_data(params, plane)
+            # DI data of message flows was already exported with 'collaboration' element
+            if params[consts.Consts.id] not in collaboration.get(consts.Consts.message_flows, {}):
+                BpmnDiagramGraphExport.export_flow_di_data(params, plane)
 
         BpmnDiagramGraphExport.indent(definitions)
         tree = eTree.ElementTree(definitions)
-- 
2.43.0


From a2c113cdc6508fcb1b1f92e6c320e39c365cfe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:33 +0000
Subject: [PATCH 06/43] fix: export_xml_file_no_di puts each element only in
 its own process

---
 bpmn_python/bpmn_diagram_export.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index af7d20c..f11593b 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -530,7 +530,6 @@ class BpmnDiagramGraphExport(object):
         :param filename: string representing output file name,
         :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram.
         """
-        diagram_graph = bpmn_diagram.diagram_graph
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
 
@@ -539,14 +538,14 @@ class BpmnDiagramGraphExport(object):
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
-            nodes = diagram_graph.nodes(data=True)
+            nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
                 BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
-            flows = diagram_graph.edges(data=True)
+            flows = bpmn_diagram.get_flows_list_by_process_id(process_id)
             for flow in flows:
                 params = flow[2]
                 BpmnDiagramGraphExport.export_flow_process_data(params, process)
-- 
2.43.0


From c57cca624076d1da56815210834b53b8b2e2a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:39 +0000
Subject: [PATCH 07/43] fix: export diagrams holding elements without diagram
 interchange data

Data objects usually have no BPMNShape and flows of a diagram imported from CSV
have no waypoints until it is laid out; exporting them raised KeyError.
---
 bpmn_python/bpmn_diagram_export.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index f11593b..6812f36 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -366,6 +366,9 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with node parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for node DI data).
         """
+        if consts.Consts.width not in params:
+            # imported element had no BPMNShape (e.g. data object)
+            return
         output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, node_id + "_gui")
 
@@ -408,6 +411,9 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with edge parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for edge DI data).
         """
+        if consts.Consts.waypoints not in params:
+            # flow had no BPMNEdge in imported diagram or was not laid out yet
+            return
         output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
         output_flow.set(consts.Consts.id, params[consts.Consts.id] + "_gui")
         output_flow.set(consts.Consts.bpmn_element, params[consts.Consts.id])
-- 
2.43.0


From 11c829191a0535b8e53e5b7d3747cf131cfe6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:44 +0000
Subject: [PATCH 08/43] fix: event based gateways created through the API can
 be exported

---
 bpmn_python/bpmn_diagram_rep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 7e859e8..bff6411 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -432,6 +432,9 @@ class BpmnDiagramGraph(object):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
                                                  + gateway_direction)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
+        if gateway_type == consts.Consts.event_based_gateway:
+            self.diagram_graph.node[gateway_id][consts.Consts.instantiate] = "false"
+            self.diagram_graph.node[gateway_id][consts.Consts.event_gateway_type] = "Exclusive"
         return gateway_id, gateway
 
     def add_exclusive_gateway_to_diagram(self, process_id, gateway_name="", gateway_direction="Unspecified",
-- 
2.43.0


From b653b8dac7ad87a9dbfb37dc21b2f96975b7f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:14 +0000
Subject: [PATCH 09/43] fix: export pools, lanes and message flows without
 diagram interchange data

---
 bpmn_python/bpmn_diagram_export.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 6812f36..78dd05a 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -277,6 +277,8 @@ class BpmnDiagramGraphExport(object):
                 flow_node_ref_xml = eTree.SubElement(lane_xml, consts.Consts.flow_node_ref)
                 flow_node_ref_xml.text = flow_node_ref_id
 
+        if consts.Consts.width not in lane_attr:
+            return
         output_element_di = eTree.SubElement(plane_element, BpmnDiagramGraphExport.bpmndi_namespace +
                                              consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, lane_id + "_gui")
@@ -455,14 +457,7 @@ class BpmnDiagramGraphExport(object):
                 message_flow.set(consts.Consts.target_ref, message_flow_attr[consts.Consts.target_ref])
 
                 message_flow_params = bpmn_diagram.get_flow_by_id(message_flow_id)[2]
-                output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
-                output_flow.set(consts.Consts.id, message_flow_id + "_gui")
-                output_flow.set(consts.Consts.bpmn_element, message_flow_id)
-                waypoints = message_flow_params[consts.Consts.waypoints]
-                for waypoint in waypoints:
-                    waypoint_element = eTree.SubElement(output_flow, "omgdi:waypoint")
-                    waypoint_element.set(consts.Consts.x, waypoint[0])
-                    waypoint_element.set(consts.Consts.y, waypoint[1])
+                BpmnDiagramGraphExport.export_flow_di_data(message_flow_params, plane)
 
             for participant_id, participant_attr in participants.items():
                 participant = eTree.SubElement(collaboration_xml, consts.Consts.participant)
@@ -470,6 +465,8 @@ class BpmnDiagramGraphExport(object):
                 participant.set(consts.Consts.name, participant_attr[consts.Consts.name])
                 participant.set(consts.Consts.process_ref, participant_attr[consts.Consts.process_ref])
 
+                if consts.Consts.width not in participant_attr:
+                    continue
                 output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace +
                                                      consts.Consts.bpmn_shape)
                 output_element_di.set(consts.Consts.id, participant_id + "_gui")
-- 
2.43.0


From 0a7d7cfa57c0cf1f6f1a876083d353a59c46a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:19 +0000
Subject: [PATCH 10/43] fix: import XML holding comments, processing
 instructions, CDATA or padded references

A comment inside an imported element raised AttributeError; a reference or
condition split by a comment or written as CDATA was read only up to there.
---
 bpmn_python/bpmn_diagram_import.py |  8 ++++----
 bpmn_python/bpmn_import_utils.py   | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index d5ddcca..823743c 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -276,7 +276,7 @@ class BpmnDiagramGraphImport(object):
                 if tag_name == consts.Consts.child_lane_set:
                     child_lane_set_attr = BpmnDiagramGraphImport.import_child_lane_set_element(element, plane_element)
                 elif tag_name == consts.Consts.flow_node_ref:
-                    flow_node_ref_id = element.firstChild.nodeValue
+                    flow_node_ref_id = utils.BpmnImportUtils.get_text(element).strip()
                     flow_node_refs.append(flow_node_ref_id)
 
         lane_attr = {consts.Consts.id: lane_id, consts.Consts.name: lane_name,
@@ -363,7 +363,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.incoming_flow:
-                    incoming_value = tmp_element.firstChild.nodeValue
+                    incoming_value = utils.BpmnImportUtils.get_text(tmp_element).strip()
                     incoming_list.append(incoming_value)
         bpmn_graph.node[element_id][consts.Consts.incoming_flow] = incoming_list
 
@@ -373,7 +373,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.outgoing_flow:
-                    outgoing_value = tmp_element.firstChild.nodeValue
+                    outgoing_value = utils.BpmnImportUtils.get_text(tmp_element).strip()
                     outgoing_list.append(outgoing_value)
         bpmn_graph.node[element_id][consts.Consts.outgoing_flow] = outgoing_list
 
@@ -738,7 +738,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.condition_expression:
-                    condition_expression = element.firstChild.nodeValue
+                    condition_expression = utils.BpmnImportUtils.get_text(element)
                     diagram_graph[source_ref][target_ref][consts.Consts.condition_expression] = {
                         consts.Consts.id: element.getAttribute(consts.Consts.id),
                         consts.Consts.condition_expression: condition_expression
diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index a0cd3d8..2a65089 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -26,15 +26,27 @@ class BpmnImportUtils(object):
     @staticmethod
     def iterate_elements(parent):
         """
-        Helper function that iterates over child Nodes/Elements of parent Node/Element.
+        Helper function that iterates over child Elements of parent Node/Element (text, comments and processing
+        instructions are skipped).
 
         :param parent: object of Element class, representing parent element.
         """
         element = parent.firstChild
         while element is not None:
-            yield element
+            if element.nodeType == element.ELEMENT_NODE:
+                yield element
             element = element.nextSibling
 
+    @staticmethod
+    def get_text(element):
+        """
+        Helper function that returns the whole text of given Element.
+
+        :param element: object of Element class.
+        """
+        return "".join(node.nodeValue for node in element.childNodes
+                       if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE))
+
     @staticmethod
     def generate_nodes_clasification(bpmn_diagram):
         """
-- 
2.43.0


From f6d11b007f0c544f1cdb6247867513e33a71b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:24 +0000
Subject: [PATCH 11/43] fix: import event definitions in document order

Their order depended on the iteration order of a set of strings, so it changed
from run to run.
---
 bpmn_python/bpmn_diagram_import.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 823743c..a96597a 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -571,11 +571,11 @@ class BpmnDiagramGraphImport(object):
         """
         element_id = element.getAttribute(consts.Consts.id)
         event_def_list = []
-        for definition_type in event_definitions:
-            event_def_xml = element.getElementsByTagNameNS("*", definition_type)
-            for index in range(len(event_def_xml)):
+        for event_def_xml in utils.BpmnImportUtils.iterate_elements(element):
+            definition_type = utils.BpmnImportUtils.remove_namespace_from_tag_name(event_def_xml.tagName)
+            if definition_type in event_definitions:
                 # tuple - definition type, definition id
-                event_def_tmp = {consts.Consts.id: event_def_xml[index].getAttribute(consts.Consts.id),
+                event_def_tmp = {consts.Consts.id: event_def_xml.getAttribute(consts.Consts.id),
                                  consts.Consts.definition_type: definition_type}
                 event_def_list.append(event_def_tmp)
         diagram_graph.node[element_id][consts.Consts.event_definitions] = event_def_list
-- 
2.43.0


From df5a80d7a43efdc3c82729dbbc57f9bb9d14d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:50 +0000
Subject: [PATCH 12/43] fix: layout inserts a row when a grid cell is already
 occupied

The row number was increased by the attribute name 'width' (TypeError).
---
 bpmn_python/bpmn_diagram_layouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b13771b..be0932e 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -369,7 +369,7 @@ def insert_into_grid(grid, row, col, node_id):
     if occupied_cell:
         for grid_cell in grid:
             if grid_cell.row >= row:
-                grid_cell.row += consts.Consts.width
+                grid_cell.row += consts.Consts.grid_column_width
     grid.append(cell_class.GridCell(row, col, node_id))
 
 
-- 
2.43.0


From c94e7df58bc9e3bf6df1864828fc7a87804734a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:55 +0000
Subject: [PATCH 13/43] fix: layout of splits whose successors were already
 placed

A loop back to a placed element, or two branches sharing a successor, raised
IndexError or ValueError or placed an element twice.
---
 bpmn_python/bpmn_diagram_layouter.py | 60 +++++++++-------------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index be0932e..6663e64 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -300,52 +300,28 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         for flow_id in outgoing_flows:
             flow = bpmn_graph.get_flow_by_id(flow_id)
             successors_id_list.append(flow[2][consts.Consts.target_ref])
-        num_of_successors = len(successors_id_list)
+        # successors that were already placed (e.g. reached by another flow or by a loop) keep their position
         successor_node_list = [successor_node for successor_node in nodes_with_classification
-                                      if successor_node[node_param_name][0] in successors_id_list]
-
-        if num_of_successors % 2 != 0:
-            # if number of successors is even, put one half over the split, second half below
-            # proceed with first half
-            centre = (num_of_successors // 2)
-            for index in range(0, centre):
-                # place element above split
-                successor_node = successor_node_list[index]
-                (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                                   bpmn_graph,nodes_with_classification, current_element_row + ((index + 1) * consts.Consts.grid_column_width))
-
-                nodes_with_classification.remove(successor_node)
-
-            successor_node = successor_node_list[centre]
-            (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                               bpmn_graph,nodes_with_classification, current_element_row)
+                               if successor_node[node_param_name][0] in successors_id_list]
+        num_of_successors = len(successor_node_list)
+        centre = (num_of_successors // 2)
+
+        for index, successor_node in enumerate(successor_node_list):
+            if successor_node not in nodes_with_classification:
+                # placed in the meantime, together with one of previous successors
+                continue
             nodes_with_classification.remove(successor_node)
-            for index in range(centre + 1, num_of_successors):
-                # place element below split
-                successor_node = successor_node_list[index]
-                (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                                   bpmn_graph,nodes_with_classification, current_element_row - ((index - centre) * consts.Consts.grid_column_width))
-
-                nodes_with_classification.remove(successor_node)
-        else:
-            centre = (num_of_successors // 2)
-            for index in range(0, centre):
+            if index < centre:
                 # place element above split
-                successor_node = successor_node_list[index]
-                (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                                   bpmn_graph,nodes_with_classification, current_element_row + (index + 1) * consts.Consts.grid_column_width)
-
-                nodes_with_classification.remove(successor_node)
-
-
-            for index in range(centre, num_of_successors):
+                successor_row = current_element_row + (index + 1) * consts.Consts.grid_column_width
+            elif num_of_successors % 2 != 0:
+                # if number of successors is odd, the middle one is placed in the same row as split
+                successor_row = current_element_row - (index - centre) * consts.Consts.grid_column_width
+            else:
                 # place element below split
-                successor_node = successor_node_list[index]
-                (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
-                                                                   bpmn_graph,nodes_with_classification, current_element_row - ((index - centre + 1) * consts.Consts.grid_column_width))
-
-                nodes_with_classification.remove(successor_node)
-
+                successor_row = current_element_row - (index - centre + 1) * consts.Consts.grid_column_width
+            (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col, bpmn_graph,
+                                                               nodes_with_classification, successor_row)
 
     return grid, last_row, last_col
 
-- 
2.43.0


From cf6ae1bb21090608ff09e0abb158ccd065df35b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 14/43] fix: layout of diagrams with user/service/manual tasks,
 boundary events or data objects

They were missing from the classification, so layout raised StopIteration.
---
 bpmn_python/bpmn_diagram_layouter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index 6663e64..a3be19a 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -134,6 +134,16 @@ def generate_elements_clasification(bpmn_graph):
             tmp.append(classification_split)
         nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
 
+    for node_type in (consts.Consts.user_task, consts.Consts.service_task, consts.Consts.manual_task,
+                      consts.Consts.boundary_event, consts.Consts.data_object):
+        for element in bpmn_graph.get_nodes(node_type):
+            tmp = [classification_element]
+            if len(element[1][consts.Consts.incoming_flow]) >= 2:
+                tmp.append(classification_join)
+            if len(element[1][consts.Consts.outgoing_flow]) >= 2:
+                tmp.append(classification_split)
+            nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
+
     flows_classification = []
     flows_list = bpmn_graph.get_flows()
     for flow in flows_list:
-- 
2.43.0


From ea8a8208623be4efd9709596f7b37323b307b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:35 +0000
Subject: [PATCH 15/43] fix: CSV export of user, service and manual tasks

They were missing from the classification, so export raised KeyError.
---
 bpmn_python/bpmn_import_utils.py       |  5 ++++-
 bpmn_python/bpmn_process_csv_export.py | 12 ++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 2a65089..4e4dbdd 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -68,7 +68,10 @@ class BpmnImportUtils(object):
         classification_start_event = "Start Event"
         classification_end_event = "End Event"
 
-        task_list = bpmn_diagram.get_nodes(consts.Consts.task)
+        task_list = []
+        for task_type in (consts.Consts.task, consts.Consts.user_task, consts.Consts.service_task,
+                          consts.Consts.manual_task):
+            task_list.extend(bpmn_diagram.get_nodes(task_type))
         for element in task_list:
             classification_labels = [classification_element]
             BpmnImportUtils.split_join_classification(element, classification_labels, nodes_classification)
diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 47d71f1..5bae136 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -22,7 +22,7 @@ class BpmnDiagramGraphCsvExport(object):
     Class that provides implementation of exporting process to CSV functionality
     """
     gateways_list = ["exclusiveGateway", "inclusiveGateway", "parallelGateway"]
-    tasks_list = ["task", "subProcess"]
+    tasks_list = ["task", "userTask", "serviceTask", "manualTask", "subProcess"]
 
     classification_element = "Element"
     classification_start_event = "Start Event"
@@ -139,7 +139,7 @@ class BpmnDiagramGraphCsvExport(object):
             # If the node is a join, then retract the recursion back to the split.
             # In case of activity - return current node. In case of gateway - return outgoing node
             # (we are making assumption that join has only one outgoing node)
-            if node_type == consts.Consts.task or node_type == consts.Consts.subprocess:
+            if node_type in BpmnDiagramGraphCsvExport.tasks_list:
                 return node
             else:
                 outgoing_flow_id = outgoing_flows[0]
@@ -147,12 +147,12 @@ class BpmnDiagramGraphCsvExport(object):
                 outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
                 return outgoing_node
         else:
-            if node_type == consts.Consts.task:
-                export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
-                                        "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
-            elif node_type == consts.Consts.subprocess:
+            if node_type == consts.Consts.subprocess:
                 export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
                                         "Condition": condition, "Who": who, "Subprocess": "yes", "Terminated": ""})
+            elif node_type in BpmnDiagramGraphCsvExport.tasks_list:
+                export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
+                                        "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
 
         if BpmnDiagramGraphCsvExport.classification_split in node_classification:
             next_node = None
-- 
2.43.0


From c7d2726f12f1047632c549d832e69b9e14b0adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:41 +0000
Subject: [PATCH 16/43] fix: quote CSV fields holding commas, quotes or line
 breaks on export

---
 bpmn_python/bpmn_process_csv_export.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 5bae136..2d3f550 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -6,6 +6,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 from __future__ import print_function
 
 import copy
+import csv
 import errno
 import os
 import string
@@ -292,8 +293,7 @@ class BpmnDiagramGraphCsvExport(object):
         :param export_elements: a dictionary object. The key is a node ID, value is a dictionary of parameters that
                will be used in exported CSV document.
         """
+        writer = csv.writer(file_object, lineterminator="\n")
         for export_element in export_elements:
-            # Order,Activity,Condition,Who,Subprocess,Terminated
-            file_object.write(
-                export_element["Order"] + "," + export_element["Activity"] + "," + export_element["Condition"] + "," +
-                export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
+            writer.writerow([export_element["Order"], export_element["Activity"], export_element["Condition"],
+                             export_element["Who"], export_element["Subprocess"], export_element["Terminated"]])
-- 
2.43.0


From c9c8496163c847e2b7cbbe0a43c26680cd550da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:46 +0000
Subject: [PATCH 17/43] fix: keep the text of CSV cells on import

Cells such as NA, None or 10 became missing values or numbers.
---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 82e3e63..bd710ce 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -609,7 +609,7 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath:
         :return:
         """
-        process_dict = pd.read_csv(filepath, index_col=0).fillna("").to_dict('index')
+        process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).to_dict('index')
         remove_white_spaces_in_orders(process_dict)
         return process_dict
 
-- 
2.43.0


From 9008004d5b05741ce3635ae9ed44271d87c9b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:50 +0000
Subject: [PATCH 18/43] fix: CSV import does not take row 2a11 for the first
 row of a branch

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index bd710ce..cd69a51 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,7 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
-regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z][1]+)$'
+regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
 default_process_id = 'process_1'
 default_plane_id = 'plane_1'
-- 
2.43.0


From 15031613bc50397ae41f6bb426bbb1bc1047c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 19/43] fix: CSV import of nested branches joins them at the
 innermost continuation

The prefix of an enclosing branch was dropped, so 2a2b1 was connected to 3
although 2a3 continues the branch, or import failed.
---
 bpmn_python/bpmn_process_csv_import.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index cd69a51..21abb78 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -16,8 +16,7 @@ import bpmn_python.bpmn_diagram_exception as bpmn_exception
 
 regex_pa_trailing_number = r'^(.*[a-z|A-Z]|[^0-9]?)([0-9]+)$'
 regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
-regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
-regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
+regex_pa_merge_node_finder = r'^(.*?)([0-9]+)([a-z|A-Z])$'
 regex_prefix_split_succ = r'^'
 regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
@@ -141,14 +140,15 @@ def get_possible_merge_continuation_successors(node_id_arg):
 
     result_trailing_letter = re.match(regex_pa_trailing_letter, node_id)
     if result_trailing_letter:
+        # continuations of all enclosing splits, the innermost first
         possible_successors = []
-        for result in re.finditer(regex_pa_merge_node_finder, node_id):
-            num_let_pair = result.group(2)
+        result = re.match(regex_pa_merge_node_finder, node_id)
+        while result:
             prefix = result.group(1)
-            num_let_result = re.match(regex_pa_num_let, num_let_pair)
-            num = num_let_result.group(1)
+            num = result.group(2)
             inc_num = str(int(num) + 1)
             possible_successors.append(prefix + inc_num)
+            result = re.match(regex_pa_merge_node_finder, prefix)
         return possible_successors
     else:
         return []
@@ -485,8 +485,7 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
             pass
         elif is_there_merge_continuation(node_id, nodes_ids):
             possible_merge_successors = get_possible_merge_continuation_successors(node_id)
-            merge_successor_id = get_possible_successor_present_in_node_ids_or_raise_excp(possible_merge_successors,
-                                                                                          nodes_ids)
+            merge_successor_id = next(successor for successor in possible_merge_successors if successor in nodes_ids)
             merge_gateway_id, just_created = add_merge_gateway_if_not_exists(merge_successor_id, bpmn_diagram)
             if just_created:
                 add_connection(merge_gateway_id, merge_successor_id, process_dict, bpmn_diagram, sequence_flows)
-- 
2.43.0


From 92a1a863b90c15d4ce55159a8e9a69e241166fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:02 +0000
Subject: [PATCH 20/43] fix: CSV import keeps the name of end events

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 21abb78..c103045 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -55,7 +55,7 @@ def add_node_info_to_diagram_graph(order, node_type, activity, process_id, bpmn_
     elif node_type == consts.Consts.subprocess:
         bpmn_diagram.add_subprocess_to_diagram(process_id, subprocess_name=activity, node_id=order)
     elif node_type == consts.Consts.end_event:
-        bpmn_diagram.add_end_event_to_diagram(process_id, node_id=order)
+        bpmn_diagram.add_end_event_to_diagram(process_id, end_event_name=activity, node_id=order)
     elif node_type == consts.Consts.inclusive_gateway:
         bpmn_diagram.add_inclusive_gateway_to_diagram(process_id, node_id=order)
     elif node_type == consts.Consts.exclusive_gateway:
-- 
2.43.0


From 7c0ccf2c6f4a1275fb14a401d1328467383de122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 21/43] fix: CSV import keeps the condition of a goto row

---
 bpmn_python/bpmn_process_csv_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index c103045..979ed8b 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -571,7 +571,8 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
         if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
             source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
-            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows)
+            # the flow takes the condition of "goto" row, not the one of its target
+            add_connection(source_node, target_node, {target_node: csv_line_dict}, diagram_graph, sequence_flows)
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From 858b32ec15fde3758c4c2635c19e18d9f9b194f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 22/43] fix: CSV export writes condition expressions of unnamed
 flows

---
 bpmn_python/bpmn_process_csv_export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 2d3f550..275871f 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -170,6 +170,9 @@ class BpmnDiagramGraphCsvExport(object):
                 if node_type != consts.Consts.parallel_gateway and consts.Consts.name in outgoing_flow[2] \
                         and outgoing_flow[2][consts.Consts.name] is not None:
                     condition = outgoing_flow[2][consts.Consts.name]
+                    if condition == "" and consts.Consts.condition_expression in outgoing_flow[2]:
+                        condition = outgoing_flow[2][consts.Consts.condition_expression][
+                            consts.Consts.condition_expression]
                 else:
                     condition = ""
 
-- 
2.43.0


From c3112c02974ac9d9e0778d539f0f74edb6dad1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 23/43] fix: CSV export of a nested block that ends its
 enclosing branch

---
 bpmn_python/bpmn_process_csv_export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 275871f..3cb2ad3 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -194,9 +194,13 @@ class BpmnDiagramGraphCsvExport(object):
                         next_node = tmp_next_node
 
             if next_node is not None:
+                # A gateway that follows this join and is a join itself belongs to the enclosing split
+                is_outer_join = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.gateways_list \
+                    and BpmnDiagramGraphCsvExport.classification_join in nodes_classification[next_node[0]] \
+                    and BpmnDiagramGraphCsvExport.classification_split not in nodes_classification[next_node[0]]
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
                                                              nodes_classification, order=(order + 1), prefix=prefix,
-                                                             who=who, add_join=True)
+                                                             who=who, add_join=not is_outer_join)
 
         elif len(outgoing_flows) == 1:
             outgoing_flow_id = outgoing_flows[0]
-- 
2.43.0


From c26ebc08393149f7c25b8498897d21e41e5b9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:50 +0000
Subject: [PATCH 24/43] fix: CSV export marks a default flow leading straight
 to the join as else

---
 bpmn_python/bpmn_process_csv_export.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 3cb2ad3..4f4dffb 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -175,17 +175,13 @@ class BpmnDiagramGraphCsvExport(object):
                             consts.Consts.condition_expression]
                 else:
                     condition = ""
+                if outgoing_flow_id == default_flow_id:
+                    condition = "else"
 
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
                         {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
                          "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
-                elif outgoing_flow_id == default_flow_id:
-                    tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
-                                                                          nodes_classification, 1, next_prefix, "else",
-                                                                          who)
-                    if tmp_next_node is not None:
-                        next_node = tmp_next_node
                 else:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix,
-- 
2.43.0


From 99193101f8d63bb192d6fa796ee708783217749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:55 +0000
Subject: [PATCH 25/43] fix: get_nodes_count without a type counts all nodes,
 as documented

---
 bpmn_python/bpmn_diagram_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 2d460b8..7b669cc 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -12,7 +12,7 @@ GATEWAY_TYPES = ['inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'eve
 EVENT_TYPES = ['startEvent', 'endEvent', 'intermediateCatchEvent', 'intermediateThrowEvent']
 
 
-def get_nodes_count(bpmn_graph, node_type=None):
+def get_nodes_count(bpmn_graph, node_type=""):
     """
     Gets the count of nodes of the requested type.
     If no type is provided,
-- 
2.43.0


From e3cbb04fa4a4926e445c4bb7cc16c0667c2059c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:00 +0000
Subject: [PATCH 26/43] fix: longest path does not visit a node with a self
 loop twice

---
 bpmn_python/diagram_layout_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index 0b23a0b..f5bd1f7 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -217,7 +217,7 @@ def find_longest_path(previous_nodes, node, bpmn_graph):
         for outgoing_flow_id in outgoing_flows_list:
             flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
             outgoing_node = bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref])
-            if outgoing_node not in previous_nodes:
+            if outgoing_node not in tmp_previous_nodes:
                 (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                 if output_path_len > len(longest_path):
                     longest_path = output_path
@@ -278,7 +278,7 @@ def find_longest_path_tasks(path, qualified_nodes, node, bpmn_graph):
             if node[1]["type"] in node_names:
                 tmp_qualified_nodes.append(node)
 
-            if outgoing_node not in path:
+            if outgoing_node not in tmp_path:
                 (path_all_nodes, path_qualified_nodes) = find_longest_path_tasks(tmp_path, tmp_qualified_nodes,
                                                                                  outgoing_node, bpmn_graph)
                 if len(path_qualified_nodes) > len(longest_qualified_nodes):
-- 
2.43.0


From 6ce606a5719ab0eb6f3af064b13b0fc91a54b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:04 +0000
Subject: [PATCH 27/43] fix: rejected construction calls leave the diagram
 unchanged

An invalid gateway direction left a half-built gateway behind; a sequence flow
to an unknown node left a flow record and nodes without attributes behind.
---
 bpmn_python/bpmn_diagram_rep.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index bff6411..6da3d99 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -427,10 +427,10 @@ class BpmnDiagramGraph(object):
 
         :return: a tuple, where first value is gateway ID, second a reference to created object.
         """
-        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
-                                                 + gateway_direction)
+                                                 + str(gateway_direction))
+        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         if gateway_type == consts.Consts.event_based_gateway:
             self.diagram_graph.node[gateway_id][consts.Consts.instantiate] = "false"
@@ -515,6 +515,9 @@ class BpmnDiagramGraph(object):
         :param sequence_flow_name: string object. Name of sequence flow.
         :return: a tuple, where first value is sequenceFlow ID, second a reference to created object.
         """
+        for node_id in (source_ref_id, target_ref_id):
+            if not self.diagram_graph.has_node(node_id):
+                raise bpmn_exception.BpmnPythonError("Sequence flow refers to unknown node: " + str(node_id))
         sequence_flow_id = BpmnDiagramGraph.id_prefix + str(uuid.uuid4())
         self.sequence_flows[sequence_flow_id] = {consts.Consts.name: sequence_flow_name,
                                                  consts.Consts.source_ref: source_ref_id,
-- 
2.43.0


From 6c7ebb4021d0a4fa9dd0455d1858d5de38661b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 28/43] fix: optional fields of graph classes can be reset to
 None, as documented

---
 bpmn_python/graph/classes/base_element_type.py  | 2 +-
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/participant_type.py   | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/graph/classes/base_element_type.py b/bpmn_python/graph/classes/base_element_type.py
index 55f7e02..e3b8e9f 100644
--- a/bpmn_python/graph/classes/base_element_type.py
+++ b/bpmn_python/graph/classes/base_element_type.py
@@ -32,7 +32,7 @@ class BaseElement(object):
         """
         if value is None:
             self.__id = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("ID must be set to a String")
         else:
             self.__id = value
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 50aee47..5e5e890 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -100,7 +100,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if value is None:
             self.__message_ref = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("MessageRef must be set to a String")
         else:
             self.__message_ref = value
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index a71fd7d..793f1a5 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -55,6 +55,6 @@ class Participant(base_element.BaseElement):
         :param value - a new value of 'process_ref' field. Must be either None (process_ref is optional according to
         BPMN 2.0 XML Schema) or String.
         """
-        if not isinstance(value, str):
+        if value is not None and not isinstance(value, str):
             raise TypeError("ProcessRef must be set to a String")
         self.__process_ref = value
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 1c8fa00..f4588f2 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -100,7 +100,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if value is None:
             self.__condition_expression = value
-        if not isinstance(value, condition_expression.ConditionExpression):
+        elif not isinstance(value, condition_expression.ConditionExpression):
             raise TypeError("ConditionExpression must be set to an instance of class ConditionExpression")
         else:
             self.__condition_expression = value
-- 
2.43.0


From 01cc96f9cd0f18ec8dcc2e37b03650347beaf9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:28 +0000
Subject: [PATCH 29/43] fix: check the type of target_ref in flow constructors

---
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 5e5e890..88ef0bf 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -22,7 +22,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(MessageFlow, self).__init__()
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index f4588f2..f7338e4 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -23,7 +23,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(SequenceFlow, self).__init__()
-- 
2.43.0


From d878fcea950553f6c9b9311211fa9e9fb70ff28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:33 +0000
Subject: [PATCH 30/43] fix: FlowNode derives from the same FlowElement class
 as the other graph classes

It was imported under another package name, so nodes were refused as elements
of a process or subprocess.
---
 bpmn_python/graph/classes/flow_node_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/graph/classes/flow_node_type.py b/bpmn_python/graph/classes/flow_node_type.py
index 83916b7..7b049d2 100644
--- a/bpmn_python/graph/classes/flow_node_type.py
+++ b/bpmn_python/graph/classes/flow_node_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tFlowNode of BPMN 2.0 graph
 """
-import bpmn_python.graph.classes.flow_element_type as flow_element_type
+import graph.classes.flow_element_type as flow_element_type
 
 
 class FlowNode(flow_element_type.FlowElement):
-- 
2.43.0


From 619fca6b0090e8d853471710eaac91ed2a7e6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:38 +0000
Subject: [PATCH 31/43] fix: import message flows connected with a pool that
 has its own process

---
 bpmn_python/bpmn_diagram_import.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index a96597a..f584893 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -91,6 +91,12 @@ class BpmnDiagramGraphImport(object):
                 elif tag_name == consts.Consts.message_flow:
                     BpmnDiagramGraphImport.import_message_flow_to_graph(diagram_graph, message_flows_dict, element)
 
+        # message flow may be connected with a pool that has its own process
+        for message_flow in message_flows_dict.values():
+            for element_id in (message_flow[consts.Consts.source_ref], message_flow[consts.Consts.target_ref]):
+                if element_id in participants_dict:
+                    BpmnDiagramGraphImport.add_participant_node(diagram_graph, element_id)
+
     @staticmethod
     def import_participant_element(diagram_graph, participants_dictionary, participant_element):
         """
@@ -105,11 +111,21 @@ class BpmnDiagramGraphImport(object):
         name = participant_element.getAttribute(consts.Consts.name)
         process_ref = participant_element.getAttribute(consts.Consts.process_ref)
         if participant_element.getAttribute(consts.Consts.process_ref) == '':
-            diagram_graph.add_node(participant_id)
-            diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
-            diagram_graph.node[participant_id][consts.Consts.process] = participant_id
+            BpmnDiagramGraphImport.add_participant_node(diagram_graph, participant_id)
         participants_dictionary[participant_id] = {consts.Consts.name: name, consts.Consts.process_ref: process_ref}
 
+    @staticmethod
+    def add_participant_node(diagram_graph, participant_id):
+        """
+        Adds a graph node that represents a participant, so that it can be connected with message flows.
+
+        :param diagram_graph: NetworkX graph representing a BPMN process diagram,
+        :param participant_id: string object, ID of participant.
+        """
+        diagram_graph.add_node(participant_id)
+        diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
+        diagram_graph.node[participant_id][consts.Consts.process] = participant_id
+
     @staticmethod
     def import_diagram_and_plane_attributes(diagram_attributes, plane_attributes, diagram_element, plane_element):
         """
-- 
2.43.0


From 658c4df08dd61e336b5aa65110f300bea0ea89c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:51 +0000
Subject: [PATCH 32/43] fix: CSV import does not depend on the sequence of rows

---
 bpmn_python/bpmn_process_csv_import.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 979ed8b..7e97fe7 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -6,6 +6,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 from __future__ import print_function
 
 import copy
+from collections import OrderedDict
 
 import pandas as pd
 import re
@@ -93,6 +94,15 @@ def remove_white_spaces_in_orders(process_dict):
             process_dict[str(order)] = csv_line_dict
 
 
+def get_order_sort_key(order):
+    """
+
+    :param order:
+    :return:
+    """
+    return [(0, int(part), "") if part.isdigit() else (1, 0, part) for part in re.findall(r'[0-9]+|[^0-9]+', order)]
+
+
 def get_possible_sequence_continuation_successor(node_id):
     """
 
@@ -611,7 +621,8 @@ class BpmnDiagramGraphCSVImport(object):
         """
         process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).to_dict('index')
         remove_white_spaces_in_orders(process_dict)
-        return process_dict
+        # the process is described by orders, not by the sequence of rows
+        return OrderedDict(sorted(process_dict.items(), key=lambda item: get_order_sort_key(item[0])))
 
     @staticmethod
     def get_given_task_as_dict(csv_df, order_val):
-- 
2.43.0


From c33600aa6e90d7aad27738528ece427bb89cecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:06 +0000
Subject: [PATCH 33/43] fix: CSV import of goto rows without a continuation

---
 bpmn_python/bpmn_process_csv_import.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 7e97fe7..0ed1935 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -264,6 +264,16 @@ def is_node_the_end_event(node_id, process_dict):
     return process_dict[node_id][consts.Consts.csv_terminated] == 'yes'
 
 
+def is_goto_node(node_id, process_dict):
+    """
+
+    :param node_id:
+    :param process_dict:
+    :return:
+    """
+    return process_dict[node_id][consts.Consts.csv_activity].lower().startswith("goto")
+
+
 def add_outgoing_flow(node_id, successor_node_id, bpmn_diagram):
     """
 
@@ -480,7 +490,7 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
     nodes_ids_to_process = copy.deepcopy(nodes_ids)
     while bool(nodes_ids_to_process):
         node_id = str(nodes_ids_to_process.pop(0))
-        if is_node_the_end_event(node_id, process_dict):
+        if is_node_the_end_event(node_id, process_dict) or is_goto_node(node_id, process_dict):
             pass
         elif is_there_sequence_continuation(node_id, nodes_ids):
             possible_sequence_successors = get_possible_sequence_continuation_successor(node_id)
@@ -578,8 +588,11 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
     :param sequence_flows:
     """
     for order, csv_line_dict in copy.deepcopy(process_dict).items():
-        if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
-            source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
+        if is_goto_node(order, process_dict):
+            # "goto" row ends its branch, the only flow it has is the incoming one
+            source_node = remove_incoming_connection(order, diagram_graph, sequence_flows)
+            diagram_graph.diagram_graph.remove_node(order)
+            del process_dict[order]
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
             # the flow takes the condition of "goto" row, not the one of its target
             add_connection(source_node, target_node, {target_node: csv_line_dict}, diagram_graph, sequence_flows)
-- 
2.43.0


From 1f72f40c5e164a086c58d5ebf9d95296947dddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:37 +0000
Subject: [PATCH 34/43] fix: CSV import keeps the condition of a flow when it
 drops a needless gateway

---
 bpmn_python/bpmn_process_csv_import.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 0ed1935..9fb94ee 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -576,8 +576,13 @@ def remove_unnecessary_merge_gateways(process_dict, bpmn_diagram, sequence_flows
                             consts.Consts.parallel_gateway]:
             if len(node[1].get(consts.Consts.incoming_flow)) < 2 \
                     and len(node[1].get(consts.Consts.outgoing_flow)) < 2:
+                outgoing_flow = bpmn_diagram.get_flow_by_id(node[1].get(consts.Consts.outgoing_flow)[0])
+                condition = outgoing_flow[2].get(consts.Consts.condition_expression, {})
                 new_source_node, new_target_node = remove_node(node[0], process_dict, bpmn_diagram, sequence_flows)
-                add_connection(new_source_node, new_target_node, process_dict, bpmn_diagram, sequence_flows)
+                # the new flow replaces the outgoing one and takes its condition
+                csv_line_dict = {consts.Consts.csv_condition: condition.get(consts.Consts.condition_expression, "")}
+                add_connection(new_source_node, new_target_node, {new_target_node: csv_line_dict}, bpmn_diagram,
+                               sequence_flows)
 
 
 def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
-- 
2.43.0


From 1d33a943f6e705f1c0e6a176681fcd45c5e692b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:45 +0000
Subject: [PATCH 35/43] fix: nodes of pools have lists of incoming and outgoing
 flows

---
 bpmn_python/bpmn_diagram_import.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index f584893..580f246 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -125,6 +125,8 @@ class BpmnDiagramGraphImport(object):
         diagram_graph.add_node(participant_id)
         diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
         diagram_graph.node[participant_id][consts.Consts.process] = participant_id
+        diagram_graph.node[participant_id].setdefault(consts.Consts.incoming_flow, [])
+        diagram_graph.node[participant_id].setdefault(consts.Consts.outgoing_flow, [])
 
     @staticmethod
     def import_diagram_and_plane_attributes(diagram_attributes, plane_attributes, diagram_element, plane_element):
-- 
2.43.0


From 92d38831cf86aa90648ce0fd1cf42dd6831707b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:50 +0000
Subject: [PATCH 36/43] fix: nodes of pools carry the name of the pool,
 drawings showed them without label

---
 bpmn_python/bpmn_diagram_import.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 580f246..7f47649 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -95,7 +95,8 @@ class BpmnDiagramGraphImport(object):
         for message_flow in message_flows_dict.values():
             for element_id in (message_flow[consts.Consts.source_ref], message_flow[consts.Consts.target_ref]):
                 if element_id in participants_dict:
-                    BpmnDiagramGraphImport.add_participant_node(diagram_graph, element_id)
+                    BpmnDiagramGraphImport.add_participant_node(diagram_graph, element_id,
+                                                                participants_dict[element_id][consts.Consts.name])
 
     @staticmethod
     def import_participant_element(diagram_graph, participants_dictionary, participant_element):
@@ -111,19 +112,21 @@ class BpmnDiagramGraphImport(object):
         name = participant_element.getAttribute(consts.Consts.name)
         process_ref = participant_element.getAttribute(consts.Consts.process_ref)
         if participant_element.getAttribute(consts.Consts.process_ref) == '':
-            BpmnDiagramGraphImport.add_participant_node(diagram_graph, participant_id)
+            BpmnDiagramGraphImport.add_participant_node(diagram_graph, participant_id, name)
         participants_dictionary[participant_id] = {consts.Consts.name: name, consts.Consts.process_ref: process_ref}
 
     @staticmethod
-    def add_participant_node(diagram_graph, participant_id):
+    def add_participant_node(diagram_graph, participant_id, name):
         """
         Adds a graph node that represents a participant, so that it can be connected with message flows.
 
         :param diagram_graph: NetworkX graph representing a BPMN process diagram,
-        :param participant_id: string object, ID of participant.
+        :param participant_id: string object, ID of participant,
+        :param name: string object, name of participant.
         """
         diagram_graph.add_node(participant_id)
         diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
+        diagram_graph.node[participant_id][consts.Consts.node_name] = name
         diagram_graph.node[participant_id][consts.Consts.process] = participant_id
         diagram_graph.node[participant_id].setdefault(consts.Consts.incoming_flow, [])
         diagram_graph.node[participant_id].setdefault(consts.Consts.outgoing_flow, [])
-- 
2.43.0


From 72db78abcccc1e896d69cc3d659748ddcdad291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:46 +0000
Subject: [PATCH 37/43] fix: CSV export writes UTF-8 whatever the locale, as
 CSV import reads it

---
 bpmn_python/bpmn_process_csv_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 4f4dffb..16c6595 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -5,6 +5,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 """
 from __future__ import print_function
 
+import codecs
 import copy
 import csv
 import errno
@@ -70,7 +71,7 @@ class BpmnDiagramGraphCsvExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        file_object = open(directory + filename, "w")
+        file_object = codecs.open(directory + filename, "w", encoding="utf-8")
         file_object.write("Order,Activity,Condition,Who,Subprocess,Terminated\n")
         BpmnDiagramGraphCsvExport.write_export_node_to_file(file_object, export_elements)
         file_object.close()
-- 
2.43.0


From 700de28167bd98d0677f367086b03f9223c4c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:41 +0000
Subject: [PATCH 38/43] fix: a sequence flow refused because an end is not
 drawn leaves the diagram unchanged

---
 bpmn_python/bpmn_diagram_rep.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index 6da3d99..98ccd91 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -518,6 +518,10 @@ class BpmnDiagramGraph(object):
         for node_id in (source_ref_id, target_ref_id):
             if not self.diagram_graph.has_node(node_id):
                 raise bpmn_exception.BpmnPythonError("Sequence flow refers to unknown node: " + str(node_id))
+        source_node = self.diagram_graph.node[source_ref_id]
+        target_node = self.diagram_graph.node[target_ref_id]
+        waypoints = [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
+                     (target_node[consts.Consts.x], target_node[consts.Consts.y])]
         sequence_flow_id = BpmnDiagramGraph.id_prefix + str(uuid.uuid4())
         self.sequence_flows[sequence_flow_id] = {consts.Consts.name: sequence_flow_name,
                                                  consts.Consts.source_ref: source_ref_id,
@@ -529,11 +533,7 @@ class BpmnDiagramGraph(object):
         flow[consts.Consts.process] = process_id
         flow[consts.Consts.source_ref] = source_ref_id
         flow[consts.Consts.target_ref] = target_ref_id
-        source_node = self.diagram_graph.node[source_ref_id]
-        target_node = self.diagram_graph.node[target_ref_id]
-        flow[consts.Consts.waypoints] = \
-            [(source_node[consts.Consts.x], source_node[consts.Consts.y]),
-             (target_node[consts.Consts.x], target_node[consts.Consts.y])]
+        flow[consts.Consts.waypoints] = waypoints
 
         # add target node (target_ref_id) as outgoing node from source node (source_ref_id)
         source_node[consts.Consts.outgoing_flow].append(sequence_flow_id)
-- 
2.43.0


From 204ea0af07309343ed6f104e4325479d1987257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:00 +0000
Subject: [PATCH 39/43] fix: CSV export of a start event without outgoing flow

---
 bpmn_python/bpmn_process_csv_export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 16c6595..6fe8bff 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -247,6 +247,8 @@ class BpmnDiagramGraphCsvExport(object):
         export_elements.append({"Order": prefix + str(order), "Activity": activity, "Condition": condition,
                                 "Who": who, "Subprocess": "", "Terminated": ""})
 
+        if len(node[1][consts.Consts.outgoing_flow]) == 0:
+            return None
         outgoing_flow_id = node[1][consts.Consts.outgoing_flow][0]
         outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
         outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
-- 
2.43.0


From 34bc6c9aa0fdfe7d6415769b5cb7ea39225109e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:04 +0000
Subject: [PATCH 40/43] fix: the lane set of a sub-process is not imported as
 that of its process

---
 bpmn_python/bpmn_diagram_import.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 7f47649..aa2d6e1 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -176,8 +176,11 @@ class BpmnDiagramGraphImport(object):
             process_id = process_element.getAttribute(consts.Consts.id)
             process_attributes = process_elements_dict[process_id]
 
-            lane_set_list = process_element.getElementsByTagNameNS("*", consts.Consts.lane_set)
-            if lane_set_list is not None and len(lane_set_list) > 0:
+            # lane sets of sub-processes do not belong to the process
+            lane_set_list = [lane_set for lane_set
+                             in process_element.getElementsByTagNameNS("*", consts.Consts.lane_set)
+                             if lane_set.parentNode is process_element]
+            if len(lane_set_list) > 0:
                 # according to BPMN 2.0 XML Schema, there's at most one 'laneSet' element inside 'process'
                 lane_set = lane_set_list[0]
                 BpmnDiagramGraphImport.import_lane_set_element(process_attributes, lane_set, plane_element)
-- 
2.43.0


From 8c31ea7fe10e7d456769817afe31f7975f4c7794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:17 +0000
Subject: [PATCH 41/43] fix: do not export an empty id for elements imported
 without their optional id

---
 bpmn_python/bpmn_diagram_export.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 78dd05a..832026d 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -238,7 +238,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
-        lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
+        if lane_set[consts.Consts.id] != "":
+            lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -252,7 +253,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
-        lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
+        if child_lane_set[consts.Consts.id] != "":
+            lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -302,11 +304,13 @@ class BpmnDiagramGraphExport(object):
         :param plane_attributes: dictionary that holds attribute values for imported 'BPMNPlane' element.
         """
         diagram = eTree.SubElement(root, BpmnDiagramGraphExport.bpmndi_namespace + "BPMNDiagram")
-        diagram.set(consts.Consts.id, diagram_attributes[consts.Consts.id])
+        if diagram_attributes[consts.Consts.id] != "":
+            diagram.set(consts.Consts.id, diagram_attributes[consts.Consts.id])
         diagram.set(consts.Consts.name, diagram_attributes[consts.Consts.name])
 
         plane = eTree.SubElement(diagram, BpmnDiagramGraphExport.bpmndi_namespace + "BPMNPlane")
-        plane.set(consts.Consts.id, plane_attributes[consts.Consts.id])
+        if plane_attributes[consts.Consts.id] != "":
+            plane.set(consts.Consts.id, plane_attributes[consts.Consts.id])
         plane.set(consts.Consts.bpmn_element, plane_attributes[consts.Consts.bpmn_element])
 
         return diagram, plane
@@ -399,8 +403,8 @@ class BpmnDiagramGraphExport(object):
         if consts.Consts.condition_expression in params:
             condition_expression_params = params[consts.Consts.condition_expression]
             condition_expression = eTree.SubElement(output_flow, consts.Consts.condition_expression)
-            condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
-            condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
+            if condition_expression_params[consts.Consts.id] != "":
+                condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
             if params[consts.Consts.name] == "":
                 output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
-- 
2.43.0


From 8358dddb8389dfc1348b693ccc18309667272f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:57 +0000
Subject: [PATCH 42/43] fix: ignore extension elements that reuse BPMN element
 names when importing XML

---
 bpmn_python/bpmn_diagram_import.py | 19 +++++++++----------
 bpmn_python/bpmn_import_utils.py   | 12 ++++++++++++
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index aa2d6e1..cdd1d0c 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -35,15 +35,16 @@ class BpmnDiagramGraphImport(object):
 
         document = BpmnDiagramGraphImport.read_xml_file(filepath)
         # According to BPMN 2.0 XML Schema, there's only one 'BPMNDiagram' and 'BPMNPlane'
-        diagram_element = document.getElementsByTagNameNS("*", "BPMNDiagram")[0]
-        plane_element = diagram_element.getElementsByTagNameNS("*", "BPMNPlane")[0]
+        diagram_element = utils.BpmnImportUtils.get_child_elements(document.documentElement, "BPMNDiagram")[0]
+        plane_element = utils.BpmnImportUtils.get_child_elements(diagram_element, "BPMNPlane")[0]
         BpmnDiagramGraphImport.import_diagram_and_plane_attributes(diagram_attributes, plane_attributes,
                                                                    diagram_element, plane_element)
 
         BpmnDiagramGraphImport.import_process_elements(document, diagram_graph, sequence_flows, process_elements_dict,
                                                        plane_element)
 
-        collaboration_element_list = document.getElementsByTagNameNS("*", consts.Consts.collaboration)
+        collaboration_element_list = utils.BpmnImportUtils.get_child_elements(document.documentElement,
+                                                                              consts.Consts.collaboration)
         if collaboration_element_list is not None and len(collaboration_element_list) > 0:
             # Diagram has multiple pools and lanes
             collaboration_element = collaboration_element_list[0]
@@ -170,16 +171,14 @@ class BpmnDiagramGraphImport(object):
             an ID of process, value - a dictionary of process attributes,
         :param plane_element: object representing a BPMN XML 'plane' element.
         """
-        for process_element in document.getElementsByTagNameNS("*", consts.Consts.process):
+        for process_element in utils.BpmnImportUtils.get_child_elements(document.documentElement, consts.Consts.process):
             BpmnDiagramGraphImport.import_process_element(process_elements_dict, process_element)
 
             process_id = process_element.getAttribute(consts.Consts.id)
             process_attributes = process_elements_dict[process_id]
 
             # lane sets of sub-processes do not belong to the process
-            lane_set_list = [lane_set for lane_set
-                             in process_element.getElementsByTagNameNS("*", consts.Consts.lane_set)
-                             if lane_set.parentNode is process_element]
+            lane_set_list = utils.BpmnImportUtils.get_child_elements(process_element, consts.Consts.lane_set)
             if len(lane_set_list) > 0:
                 # according to BPMN 2.0 XML Schema, there's at most one 'laneSet' element inside 'process'
                 lane_set = lane_set_list[0]
@@ -312,7 +311,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE and element.getAttribute(consts.Consts.bpmn_element) == lane_id:
                 shape_element = element
         if shape_element is not None:
-            bounds = shape_element.getElementsByTagNameNS("*", "Bounds")[0]
+            bounds = utils.BpmnImportUtils.get_child_elements(shape_element, "Bounds")[0]
             lane_attr[consts.Consts.is_horizontal] = shape_element.getAttribute(consts.Consts.is_horizontal)
             lane_attr[consts.Consts.width] = bounds.getAttribute(consts.Consts.width)
             lane_attr[consts.Consts.height] = bounds.getAttribute(consts.Consts.height)
@@ -850,7 +849,7 @@ class BpmnDiagramGraphImport(object):
         :param shape_element: object representing a BPMN XML 'BPMNShape' element.
         """
         element_id = shape_element.getAttribute(consts.Consts.bpmn_element)
-        bounds = shape_element.getElementsByTagNameNS("*", "Bounds")[0]
+        bounds = utils.BpmnImportUtils.get_child_elements(shape_element, "Bounds")[0]
         if diagram_graph.has_node(element_id):
             node = diagram_graph.node[element_id]
             node[consts.Consts.width] = bounds.getAttribute(consts.Consts.width)
@@ -889,7 +888,7 @@ class BpmnDiagramGraphImport(object):
         :param flow_element: object representing a BPMN XML 'BPMNEdge' element.
         """
         flow_id = flow_element.getAttribute(consts.Consts.bpmn_element)
-        waypoints_xml = flow_element.getElementsByTagNameNS("*", consts.Consts.waypoint)
+        waypoints_xml = utils.BpmnImportUtils.get_child_elements(flow_element, consts.Consts.waypoint)
         length = len(waypoints_xml)
 
         waypoints = [None] * length
diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 4e4dbdd..10e616e 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -37,6 +37,18 @@ class BpmnImportUtils(object):
                 yield element
             element = element.nextSibling
 
+    @staticmethod
+    def get_child_elements(parent, tag_name):
+        """
+        Helper function that returns a list of child Elements of parent Node/Element with given tag name (without
+        namespace annotation). Descendants of extension elements that use the same name are not included.
+
+        :param parent: object of Document or Element class,
+        :param tag_name: string with tag name.
+        """
+        return [element for element in BpmnImportUtils.iterate_elements(parent)
+                if BpmnImportUtils.remove_namespace_from_tag_name(element.tagName) == tag_name]
+
     @staticmethod
     def get_text(element):
         """
-- 
2.43.0


From fa48c4c7abbcd25844aa500b682a9cfae2e19195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:15 +0000
Subject: [PATCH 43/43] fix: export into a directory given without a trailing
 separator

---
 bpmn_python/bpmn_diagram_export.py     | 2 ++
 bpmn_python/bpmn_process_csv_export.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 832026d..b225270 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -521,6 +521,7 @@ class BpmnDiagramGraphExport(object):
 
         BpmnDiagramGraphExport.indent(definitions)
         tree = eTree.ElementTree(definitions)
+        directory = os.path.join(directory, "")
         try:
             os.makedirs(directory)
         except OSError as exception:
@@ -559,6 +560,7 @@ class BpmnDiagramGraphExport(object):
 
         BpmnDiagramGraphExport.indent(definitions)
         tree = eTree.ElementTree(definitions)
+        directory = os.path.join(directory, "")
         try:
             os.makedirs(directory)
         except OSError as exception:
diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 6fe8bff..6e7e072 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -66,6 +66,7 @@ class BpmnDiagramGraphCsvExport(object):
         start_node = start_nodes.pop()
         BpmnDiagramGraphCsvExport.export_node(bpmn_diagram, export_elements, start_node, nodes_classification)
 
+        directory = os.path.join(directory, "")
         try:
             os.makedirs(directory)
         except OSError as exception:
-- 
2.43.0

