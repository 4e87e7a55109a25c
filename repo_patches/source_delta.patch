From 7df47448e22aa9a47b424581b8e18b8fb505d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 001/276] fix: PTML import of loops with an explicit exit child
 keeps sibling order and the root

---
 .../process_tree/importer/variants/ptml.py       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/process_tree/importer/variants/ptml.py b/pm4py/objects/process_tree/importer/variants/ptml.py
index e672bed..4941be9 100644
--- a/pm4py/objects/process_tree/importer/variants/ptml.py
+++ b/pm4py/objects/process_tree/importer/variants/ptml.py
@@ -152,6 +152,7 @@ def import_tree_from_xml_object(root, parameters=None):
     # make sure that .PTML files having loops with 3 children are imported
     # into the PM4Py process tree structure
     # we want loops to have two children
+    root_node = nodes[root]
     for node in nodes.values():
         if node.operator == Operator.LOOP and len(node.children) == 3:
             if not (node.children[2].operator is None and node.children[2].label is None):
@@ -163,10 +164,15 @@ def import_tree_from_xml_object(root, parameters=None):
                 new_parent_node.children.append(node.children[2])
                 if parent_node is not None:
                     new_parent_node.parent = parent_node
-                    del parent_node.children[parent_node.children.index(node)]
-                    parent_node.children.append(new_parent_node)
+                    # keep the position of the loop among its siblings
+                    # (compares by identity: equal subtrees may occur several times)
+                    for i in range(len(parent_node.children)):
+                        if parent_node.children[i] is node:
+                            parent_node.children[i] = new_parent_node
+                            break
+                else:
+                    root_node = new_parent_node
             del node.children[2]
 
-    root = nodes[root]
-    tree_sort(root)
-    return root
+    tree_sort(root_node)
+    return root_node
-- 
2.43.0


From 7001fbf5739520867985b2805405c5fec346fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 002/276] fix: data Petri net transitions are enabled only when
 their guard holds

---
 pm4py/objects/petri_net/data_petri_nets/semantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/data_petri_nets/semantics.py b/pm4py/objects/petri_net/data_petri_nets/semantics.py
index f9f8db5..ed5b911 100644
--- a/pm4py/objects/petri_net/data_petri_nets/semantics.py
+++ b/pm4py/objects/petri_net/data_petri_nets/semantics.py
@@ -164,7 +164,8 @@ def is_enabled(t, pn, m, e):
         read_variables = t.properties[petri_properties.READ_VARIABLE] if petri_properties.READ_VARIABLE in t.properties else []
         data = copy.copy(m.data_dict)
         data.update(e)
-        evaluate_guard(guard, read_variables, data)
+        if not evaluate_guard(guard, read_variables, data):
+            return False
 
     return True
 
-- 
2.43.0


From 1dbb2000222b109cdc5d83f633dbfedb7fe74615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 003/276] fix: firing a transition of a data Petri net keeps
 the data recorded so far

---
 pm4py/objects/petri_net/data_petri_nets/semantics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/objects/petri_net/data_petri_nets/semantics.py b/pm4py/objects/petri_net/data_petri_nets/semantics.py
index ed5b911..51cb220 100644
--- a/pm4py/objects/petri_net/data_petri_nets/semantics.py
+++ b/pm4py/objects/petri_net/data_petri_nets/semantics.py
@@ -183,6 +183,8 @@ def execute(t, pn, m, e):
     for a in t.out_arcs:
         m_out[a.target] += a.weight
 
+    # the copy of the counter does not carry the data along
+    m_out.data_dict = copy.copy(m.data_dict)
     m_out.data_dict.update(e)
 
     return m_out
@@ -197,6 +199,8 @@ def weak_execute(t, m, e):
     for a in t.out_arcs:
         m_out[a.target] += a.weight
 
+    # the copy of the counter does not carry the data along
+    m_out.data_dict = copy.copy(m.data_dict)
     m_out.data_dict.update(e)
 
     return m_out
-- 
2.43.0


From 115ee4f89a93f8bd9dbc3e67ef27a7f734b979d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 004/276] fix: check_wfnet follows the direction of the arcs

---
 pm4py/objects/petri_net/utils/check_soundness.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/check_soundness.py b/pm4py/objects/petri_net/utils/check_soundness.py
index 3d41423..147de1c 100644
--- a/pm4py/objects/petri_net/utils/check_soundness.py
+++ b/pm4py/objects/petri_net/utils/check_soundness.py
@@ -14,7 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
-from pm4py.objects.petri_net.utils.networkx_graph import create_networkx_undirected_graph
+from pm4py.objects.petri_net.utils.networkx_graph import create_networkx_directed_graph_ret_dict_both_ways
 from pm4py.objects.petri_net.utils import explore_path
 from pm4py.objects.petri_net import obj
 from pm4py.util import nx_utils
@@ -39,8 +39,9 @@ def check_source_and_sink_reachability(net, unique_source, unique_sink):
     boolean
         Boolean value that is true if each node is in a path from the source place to the sink place
     """
-    graph, unique_source_corr, unique_sink_corr, inv_dictionary = create_networkx_undirected_graph(net, unique_source,
-                                                                                                   unique_sink)
+    graph, dictionary, inv_dictionary = create_networkx_directed_graph_ret_dict_both_ways(net)
+    unique_source_corr = dictionary[unique_source] if unique_source in dictionary else None
+    unique_sink_corr = dictionary[unique_sink] if unique_sink in dictionary else None
     if unique_source_corr is not None and unique_sink_corr is not None:
         nodes_list = list(graph.nodes())
         finish_to_sink = list(nx_utils.ancestors(graph, unique_sink_corr))
-- 
2.43.0


From 10a0f8dc857d6a0303c94e2f577c848d5a93e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 005/276] fix: woflan does not call a net unsound because a
 basis of the invariants leaves places uncovered

---
 pm4py/algo/analysis/woflan/algorithm.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/algorithm.py b/pm4py/algo/analysis/woflan/algorithm.py
index c123334..7d89ddf 100644
--- a/pm4py/algo/analysis/woflan/algorithm.py
+++ b/pm4py/algo/analysis/woflan/algorithm.py
@@ -398,28 +398,24 @@ def step_3(woflan_object, return_asap_when_unsound=False):
         if woflan_object.print_diagnostics:
             print('The following places are not covered by an s-component: {}.'.format(
                 woflan_object.get_uncovered_places_s_component()))
-        if return_asap_when_unsound:
-            return False
         return step_4(woflan_object, return_asap_when_unsound=return_asap_when_unsound)
 
 
 def step_4(woflan_object, return_asap_when_unsound=False):
     woflan_object.set_not_well_handled_pairs(compute_not_well_handled_pairs(woflan_object.get_s_c_net()))
+    # the S-components are computed from a single basis of the place invariants, so that places which are not covered
+    # by them do not prove the net to be unsound: the decision is left to the coverability/reachability graph
+    woflan_object.set_left(True)
     if len(woflan_object.get_not_well_handled_pairs()) == 0:
-        woflan_object.diagnostic_messages.append('Petri Net is unsound.')
+        woflan_object.diagnostic_messages.append('There are no not well-handled pairs.')
         if woflan_object.print_diagnostics:
-            print('Petri Net is unsound.')
-        woflan_object.set_left(False)
-        if return_asap_when_unsound:
-            return False
-        return step_5(woflan_object, return_asap_when_unsound=return_asap_when_unsound)
+            print('There are no not well-handled pairs.')
     else:
         woflan_object.diagnostic_messages.append('Not well-handled pairs are: {}.'.format(
             woflan_object.get_not_well_handled_pairs()))
         if woflan_object.print_diagnostics:
             print('Not well-handled pairs are: {}.'.format(woflan_object.get_not_well_handled_pairs()))
-        woflan_object.set_left(True)
-        return step_5(woflan_object, return_asap_when_unsound=return_asap_when_unsound)
+    return step_5(woflan_object, return_asap_when_unsound=return_asap_when_unsound)
 
 
 def step_5(woflan_object, return_asap_when_unsound=False):
-- 
2.43.0


From 3ac6325eb79aeb80df55f1c32fc132f577a6b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 006/276] fix: Murata place reduction decides every place by
 its own constraints, on the effect of the transitions

---
 pm4py/objects/petri_net/utils/murata.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/murata.py b/pm4py/objects/petri_net/utils/murata.py
index a6ae185..f69f208 100644
--- a/pm4py/objects/petri_net/utils/murata.py
+++ b/pm4py/objects/petri_net/utils/murata.py
@@ -47,13 +47,14 @@ def apply_reduction(net: PetriNet, im: Marking, fm: Marking) -> Tuple[PetriNet,
     fm
         Final marking
     """
-    Aeq = []
-    Aub = []
-    beq = []
-    bub = []
     places = sorted(list(net.places), key=lambda x: x.name)
     redundant = set()
     for place in places:
+        # each place is decided by its own system of constraints
+        Aeq = []
+        Aub = []
+        beq = []
+        bub = []
         # first constraint
         constraint = [0] * (len(net.places) + 1)
         for p2 in im:
@@ -81,7 +82,7 @@ def apply_reduction(net: PetriNet, im: Marking, fm: Marking) -> Tuple[PetriNet,
             Aub.append(constraint)
             bub.append(0)
 
-        # third constraints
+        # third constraints (on the effect of the transition: what it produces minus what it consumes)
         for trans in net.transitions:
             constraint = [0] * (len(net.places) + 1)
 
@@ -89,9 +90,16 @@ def apply_reduction(net: PetriNet, im: Marking, fm: Marking) -> Tuple[PetriNet,
                 p2 = arc.target
                 if p2 not in redundant:
                     if p2 == place:
-                        constraint[places.index(p2)] = -arc.weight
+                        constraint[places.index(p2)] -= arc.weight
                     else:
-                        constraint[places.index(p2)] = arc.weight
+                        constraint[places.index(p2)] += arc.weight
+            for arc in trans.in_arcs:
+                p2 = arc.source
+                if p2 not in redundant:
+                    if p2 == place:
+                        constraint[places.index(p2)] += arc.weight
+                    else:
+                        constraint[places.index(p2)] -= arc.weight
             Aub.append(constraint)
             bub.append(0)
 
-- 
2.43.0


From 2df85f308aeeb62abb2fdee9e073d788246173c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 007/276] fix: converting an event log to a stream/dataframe
 does not write case attributes into the given events

---
 pm4py/objects/conversion/log/variants/to_event_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_stream.py b/pm4py/objects/conversion/log/variants/to_event_stream.py
index ca07578..e9b4702 100644
--- a/pm4py/objects/conversion/log/variants/to_event_stream.py
+++ b/pm4py/objects/conversion/log/variants/to_event_stream.py
@@ -279,7 +279,7 @@ def __transform_event_log_to_event_stream(log, include_case_attributes=True,
                                     omni_present=log.omni_present, extensions=log.extensions, properties=log.properties)
     for index, trace in enumerate(log):
         for event in trace:
-            new_event = deepcopy(event) if enable_deepcopy else event
+            new_event = deepcopy(event) if enable_deepcopy else copy(event)
             if include_case_attributes:
                 for key, value in trace.attributes.items():
                     new_event[case_attribute_prefix + key] = value
-- 
2.43.0


From 05f6eb2c8b262e4ddc6c3d387be640d7034371c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 008/276] fix: only the leading case prefix is stripped from
 the names of case attributes

---
 pm4py/objects/conversion/log/variants/to_event_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_log.py b/pm4py/objects/conversion/log/variants/to_event_log.py
index 8b20170..5e37625 100644
--- a/pm4py/objects/conversion/log/variants/to_event_log.py
+++ b/pm4py/objects/conversion/log/variants/to_event_log.py
@@ -92,7 +92,7 @@ def __transform_event_stream_to_event_log(log, case_glue=Parameters.CASE_ID_KEY.
             if include_case_attributes:
                 for k in event.keys():
                     if k.startswith(case_attribute_prefix):
-                        trace_attr[k.replace(case_attribute_prefix, '')] = event[k]
+                        trace_attr[k[len(case_attribute_prefix):]] = event[k]
                 if xes.DEFAULT_TRACEID_KEY not in trace_attr:
                     trace_attr[xes.DEFAULT_TRACEID_KEY] = glue
             traces[glue] = log_instance.Trace(attributes=trace_attr)
-- 
2.43.0


From 205d35bc3e0e58384734a424877a8e8633e1fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 009/276] fix: timestamps with a UTC offset keep their instant
 when they are read

---
 pm4py/util/dt_parsing/variants/strpfromiso.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/util/dt_parsing/variants/strpfromiso.py b/pm4py/util/dt_parsing/variants/strpfromiso.py
index c3c4e2d..ef575d5 100644
--- a/pm4py/util/dt_parsing/variants/strpfromiso.py
+++ b/pm4py/util/dt_parsing/variants/strpfromiso.py
@@ -34,7 +34,8 @@ def fix_dataframe_column(serie):
 
 def fix_naivety(dt):
     if constants.ENABLE_DATETIME_COLUMNS_AWARE:
-        dt = dt.replace(tzinfo=timezone.utc)
+        # naive datetimes are taken as UTC, the aware ones keep their instant
+        dt = dt.replace(tzinfo=timezone.utc) if dt.tzinfo is None else dt.astimezone(timezone.utc)
     else:
         dt = dt.replace(tzinfo=None)
 
-- 
2.43.0


From 7fa39ffb7336b5380cc361efe765381cdea5bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 010/276] fix: the line-by-line XES exporter escapes
 extensions, classifiers and globals, and always delimits values by double
 quotes

---
 .../log/exporter/xes/variants/line_by_line.py   | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/log/exporter/xes/variants/line_by_line.py b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
index 2c8e2bd..fe7191a 100644
--- a/pm4py/objects/log/exporter/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
@@ -21,7 +21,7 @@ from io import BytesIO
 
 from pm4py.objects.log.util import xes as xes_util
 from pm4py.util import exec_utils, constants
-from xml.sax.saxutils import quoteattr
+from xml.sax.saxutils import escape as xml_escape
 
 
 class Parameters(Enum):
@@ -117,7 +117,8 @@ def escape(stru):
     escaped_stru
         Escaped string
     """
-    return quoteattr(stru)
+    # always delimited by double quotes, also when the string contains some
+    return '"' + xml_escape(stru, {'"': "&quot;", "\n": "&#10;", "\r": "&#13;", "\t": "&#9;"}) + '"'
 
 
 def export_attribute(attr_name, attr_value, indent_level):
@@ -222,15 +223,17 @@ def export_log_line_by_line(log, fp_obj, encoding, parameters=None):
         encoding))
     fp_obj.write(("<log "+xes_util.TAG_VERSION+"=\""+xes_util.VALUE_XES_VERSION+"\" "+xes_util.TAG_FEATURES+"=\""+xes_util.VALUE_XES_FEATURES+"\" "+xes_util.TAG_XMLNS+"=\""+xes_util.VALUE_XMLNS+"\">\n").encode(encoding))
     for ext_name, ext_value in log.extensions.items():
-        fp_obj.write((get_tab_indent(1) + "<extension name=\"%s\" prefix=\"%s\" uri=\"%s\" />\n" % (
-            ext_name, ext_value[xes_util.KEY_PREFIX], ext_value[xes_util.KEY_URI])).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<extension name=%s prefix=%s uri=%s />\n" % (
+            escape(ext_name), escape(ext_value[xes_util.KEY_PREFIX]), escape(ext_value[xes_util.KEY_URI]))).encode(encoding))
     for clas_name, clas_attributes in log.classifiers.items():
-        fp_obj.write((get_tab_indent(1) + "<classifier name=\"%s\" keys=\"%s\" />\n" % (
-            clas_name, " ".join(clas_attributes))).encode(encoding))
+        if any(" " in x for x in clas_attributes):
+            clas_attributes = ["'" + x + "'" for x in clas_attributes]
+        fp_obj.write((get_tab_indent(1) + "<classifier name=%s keys=%s />\n" % (
+            escape(clas_name), escape(" ".join(clas_attributes)))).encode(encoding))
     for attr_name, attr_value in log.attributes.items():
         fp_obj.write(export_attribute(attr_name, attr_value, 1).encode(encoding))
     for scope in log.omni_present:
-        fp_obj.write((get_tab_indent(1) + "<global scope=\"%s\">\n" % (scope)).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<global scope=%s>\n" % (escape(scope))).encode(encoding))
         for attr_name, attr_value in log.omni_present[scope].items():
             fp_obj.write(export_attribute(attr_name, attr_value, 2).encode(encoding))
         fp_obj.write((get_tab_indent(1) + "</global>\n").encode(encoding))
-- 
2.43.0


From 8dfeb5b919632eb7210cba8e216f155bd38cfab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 011/276] fix: the chunk_regex and line_by_line XES importers
 resolve XML entities and characters split between chunks

---
 .../objects/log/importer/xes/variants/chunk_regex.py  | 11 ++++++++---
 .../objects/log/importer/xes/variants/line_by_line.py |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index 8bf8853..5f6736c 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -14,7 +14,9 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+import codecs
 import gzip
+import html
 import os
 import sys
 from enum import Enum
@@ -59,13 +61,15 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
     nb = 2 ** 12 # bytes per chunk
     rex = re.compile(r"(<|>)")
     parser = dt_parser.get()
+    # a character may be split between two chunks
+    decoder = codecs.getincrementaldecoder(encoding)()
     cont = F.read(nb)
     curr_els_attrs = []
     fk_dict = {}
     log = EventLog()
     trace = None
     while cont:
-        lst = deque(rex.split(cont.decode(encoding)))
+        lst = deque(rex.split(decoder.decode(cont)))
         while lst:
             el = lst.popleft()
             if len(el.rstrip()) > 0:
@@ -77,7 +81,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                     # need to read more
                     cont = F.read(nb)
                     if cont:
-                        lst2 = rex.split(cont.decode(encoding))
+                        lst2 = rex.split(decoder.decode(cont))
                         el = el + lst2[0]
                         lst = deque(lst2[1:])
                     else:
@@ -91,7 +95,8 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                 idx = el.find(' ')
                 if idx > -1:
                     tag = el[:idx]
-                    el = el.split('\"')
+                    # the entities are resolved after that the attributes are separated
+                    el = [html.unescape(x) for x in el.split('\"')]
                     el[-1] = el[-1].strip()
                     if tag == "string":
                         curr_els_attrs[-1][el[1]] = el[3]
diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index a8ec29f..831ff92 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import gzip
+import html
 import os
 import sys
 from enum import Enum
@@ -154,7 +155,7 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
     f.seek(skip_bytes)
 
     for line in f:
-        content = line.decode(encoding).split("\"")
+        content = [html.unescape(x) for x in line.decode(encoding).split("\"")]
         if len(content) > 0:
             tag = content[0].split("<")[-1]
             if trace is not None:
-- 
2.43.0


From 8358b3fe0716782f0a1570b5c8efc8600b4042bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 012/276] fix: the line_by_line XES importer reads at most the
 given number of traces

---
 pm4py/objects/log/importer/xes/variants/line_by_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index 831ff92..d343130 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -178,7 +178,7 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
                 elif tag.startswith("/trace"):
                     log.append(trace)
                     tracecount += 1
-                    if tracecount > max_no_traces_to_import:
+                    if tracecount >= max_no_traces_to_import:
                         break
                     trace = None
             elif tag.startswith("trace"):
-- 
2.43.0


From de4e1b106c723a63ee3947fe3c527513a647e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 013/276] fix: sharing equal values does not replace a value by
 an equal one of another type (True, 1, 1.0)

---
 pm4py/objects/conversion/log/variants/to_event_stream.py  | 8 +++++---
 .../log/importer/xes/variants/iterparse_mem_compressed.py | 8 +++++---
 pm4py/objects/log/importer/xes/variants/line_by_line.py   | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_stream.py b/pm4py/objects/conversion/log/variants/to_event_stream.py
index e9b4702..25492fc 100644
--- a/pm4py/objects/conversion/log/variants/to_event_stream.py
+++ b/pm4py/objects/conversion/log/variants/to_event_stream.py
@@ -97,10 +97,12 @@ def __compress(list_events):
                 k = compress_dict[k]
             # check if the value has already been instantiated.
             # in that case, use the current instantiation
-            if v not in compress_dict:
-                compress_dict[v] = v
+            # (the type is considered, as different types may compare equal)
+            v_key = (type(v), v)
+            if v_key not in compress_dict:
+                compress_dict[v_key] = v
             else:
-                v = compress_dict[v]
+                v = compress_dict[v_key]
             # saves the compressed keys and values in the dictionary
             comp_ev[k] = v
         list_events[i] = comp_ev
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index dfb8627..511843a 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -421,12 +421,14 @@ def __parse_attribute(elem, store, key, value, tree, compression_dict):
             # set up a new instantiation
             compression_dict[key] = key
 
-        if value in compression_dict:
+        # (the type is considered, as different types may compare equal)
+        value_key = (type(value), value)
+        if value_key in compression_dict:
             # using existing istantiations of existing objects
-            value = compression_dict[value]
+            value = compression_dict[value_key]
         else:
             # set up a new instantiation
-            compression_dict[value] = value
+            compression_dict[value_key] = value
 
         if type(store) is list:
             # changes to the store of lists: not dictionaries anymore
diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index d343130..b97e0ab 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -95,10 +95,12 @@ def read_attribute_key_value(tag, content, date_parser, values_dict, set_attribu
             values_dict[key] = key
 
         # limits the number of different instantations of the same value
-        if value in values_dict:
-            value = values_dict[value]
+        # (the type is considered, as different types may compare equal)
+        value_key = (type(value), value)
+        if value_key in values_dict:
+            value = values_dict[value_key]
         else:
-            values_dict[value] = value
+            values_dict[value_key] = value
 
     return key, value
 
-- 
2.43.0


From 2619d2cd1c215faac4fb3d03e892583848a381ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 014/276] fix: the chunk_regex XES importer reads attributes of
 type id

---
 pm4py/objects/log/importer/xes/variants/chunk_regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index 5f6736c..c7d8de6 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -98,7 +98,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                     # the entities are resolved after that the attributes are separated
                     el = [html.unescape(x) for x in el.split('\"')]
                     el[-1] = el[-1].strip()
-                    if tag == "string":
+                    if tag == "string" or tag == "id":
                         curr_els_attrs[-1][el[1]] = el[3]
                         if el[-1] != '/':
                             curr_els_attrs.append(fk_dict)
-- 
2.43.0


From 17426d9ac051285b21e6e3787ed187e5a5b51803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 015/276] fix: iterating over the cases of a dataframe sorts
 the dataframe, as the events of a case may not be contiguous

---
 pm4py/streaming/conversion/from_pandas.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pm4py/streaming/conversion/from_pandas.py b/pm4py/streaming/conversion/from_pandas.py
index ecb911e..bfc4c8c 100644
--- a/pm4py/streaming/conversion/from_pandas.py
+++ b/pm4py/streaming/conversion/from_pandas.py
@@ -43,10 +43,9 @@ class PandasDataframeAsIterable(object):
                                                    xes_constants.DEFAULT_TIMESTAMP_KEY)
         index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, constants.DEFAULT_INDEX_KEY)
 
-        if not (hasattr(dataframe, "attrs") and dataframe.attrs):
-            # dataframe has not been initialized through format_dataframe
-            dataframe = pandas_utils.insert_index(dataframe, index_key)
-            dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        # makes the events of the same case contiguous
+        dataframe = pandas_utils.insert_index(dataframe, index_key)
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
         cases = dataframe[case_id_key].to_numpy()
 
-- 
2.43.0


From b7b3d299347d54443fb7ce9b27d40829cb5d13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 016/276] fix: format_dataframe does not convert case
 identifiers and activities to timestamps

---
 pm4py/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index 92f72a1..3f13cee 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -84,7 +84,10 @@ def format_dataframe(df: pd.DataFrame, case_id: str = constants.CASE_CONCEPT_NAM
             del df[xes_constants.DEFAULT_TIMESTAMP_KEY]
         df[xes_constants.DEFAULT_TIMESTAMP_KEY] = df[timestamp_key]
     # makes sure that the timestamps column are of timestamp type
-    df = dataframe_utils.convert_timestamp_columns_in_df(df, timest_format=timest_format)
+    # (the case identifier and the activity are never timestamps, also when they look like some, e.g., "2020")
+    timest_columns = [x for x in df.columns if
+                      x not in {case_id, activity_key, constants.CASE_CONCEPT_NAME, xes_constants.DEFAULT_NAME_KEY}]
+    df = dataframe_utils.convert_timestamp_columns_in_df(df, timest_format=timest_format, timest_columns=timest_columns)
     # drop NaN(s) in the main columns (case ID, activity, timestamp) to ensure functioning of the
     # algorithms
     prev_length = len(df)
-- 
2.43.0


From f9794ad48c76e9d0fe02bb48f6a80c7993f9e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 017/276] fix: the start timestamp attribute defaults to the
 given timestamp attribute

---
 .../temporal_profile/variants/log.py           |  3 +--
 pm4py/algo/discovery/batches/variants/log.py   |  3 +--
 .../correlation_mining/variants/classic.py     |  6 ++----
 .../variants/classic_split.py                  |  3 +--
 .../correlation_mining/variants/trace_based.py |  6 ++----
 .../discovery/temporal_profile/variants/log.py |  3 +--
 .../log_to_features/variants/trace_based.py    | 18 +++++++++---------
 .../variants/open_paths.py                     |  3 +--
 .../concurrent_activities/log/get.py           |  3 +--
 pm4py/statistics/eventually_follows/log/get.py |  3 +--
 pm4py/statistics/overlap/cases/log/get.py      |  3 +--
 pm4py/statistics/overlap/cases/pandas/get.py   |  3 +--
 .../overlap/interval_events/log/get.py         |  3 +--
 .../overlap/interval_events/pandas/get.py      |  3 +--
 pm4py/statistics/service_time/log/get.py       |  3 +--
 pm4py/statistics/service_time/pandas/get.py    |  3 +--
 pm4py/statistics/traces/cycle_time/log/get.py  |  2 +-
 .../conformance/temporal/variants/classic.py   |  3 +--
 18 files changed, 28 insertions(+), 46 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/log.py b/pm4py/algo/conformance/temporal_profile/variants/log.py
index c10224c..284db41 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/log.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/log.py
@@ -89,8 +89,7 @@ def apply(log: EventLog, temporal_profile: typing.TemporalProfile,
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
 
     ret = []
diff --git a/pm4py/algo/discovery/batches/variants/log.py b/pm4py/algo/discovery/batches/variants/log.py
index 84bb801..d5ed97e 100644
--- a/pm4py/algo/discovery/batches/variants/log.py
+++ b/pm4py/algo/discovery/batches/variants/log.py
@@ -79,10 +79,9 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     events = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_STREAM)
diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic.py b/pm4py/algo/discovery/correlation_mining/variants/classic.py
index e69ced5..a971879 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic.py
@@ -124,8 +124,7 @@ def get_PS_dur_matrix(activities_grouped, activities, parameters=None):
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     exact_time_matching = exec_utils.get_param_value(Parameters.EXACT_TIME_MATCHING, parameters, False)
 
     PS_matrix = get_precede_succeed_matrix(activities, activities_grouped, timestamp_key, start_timestamp_key)
@@ -163,8 +162,7 @@ def preprocess_log(log, activities=None, parameters=None):
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, DEFAULT_INDEX_KEY)
 
     if pandas_utils.check_is_pandas_dataframe(log):
diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic_split.py b/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
index 9d3a887..368e0e5 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
@@ -57,8 +57,7 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     sample_size = exec_utils.get_param_value(Parameters.SAMPLE_SIZE, parameters, 100000)
 
     PS_matrixes = []
diff --git a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
index 398f31f..054f443 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
@@ -117,8 +117,7 @@ def get_PS_duration_matrix(activities, trace_grouped_list, parameters=None):
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     PS_matrix = get_precede_succeed_matrix(activities, trace_grouped_list, timestamp_key, start_timestamp_key)
     duration_matrix = get_duration_matrix(activities, trace_grouped_list, timestamp_key, start_timestamp_key)
@@ -158,8 +157,7 @@ def preprocess_log(log, activities=None, activities_counter=None, parameters=Non
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     caseid_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
     index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, DEFAULT_INDEX_KEY)
 
diff --git a/pm4py/algo/discovery/temporal_profile/variants/log.py b/pm4py/algo/discovery/temporal_profile/variants/log.py
index 4bf2524..f4bc824 100644
--- a/pm4py/algo/discovery/temporal_profile/variants/log.py
+++ b/pm4py/algo/discovery/temporal_profile/variants/log.py
@@ -79,8 +79,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Any, Any]] = None) -> typing.
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     diff_time_recordings = {}
 
diff --git a/pm4py/algo/transformation/log_to_features/variants/trace_based.py b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
index 17bc89b..9908b13 100644
--- a/pm4py/algo/transformation/log_to_features/variants/trace_based.py
+++ b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
@@ -81,8 +81,8 @@ def max_concurrent_events(log: EventLog, parameters: Optional[Dict[Union[str, Pa
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     data = []
     feature_names = ["@@max_concurrent_activities_general"]
@@ -130,8 +130,8 @@ def max_concurrent_events_per_activity(log: EventLog, parameters: Optional[Dict[
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
 
     activities = list(set(y[activity_key] for x in log for y in x))
@@ -189,8 +189,8 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
 
     from intervaltree.intervaltree import IntervalTree, Interval
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
     epsilon = exec_utils.get_param_value(Parameters.EPSILON, parameters, 0.000001)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
@@ -249,8 +249,8 @@ def work_in_progress(log: EventLog, parameters: Optional[Dict[Union[str, Paramet
 
     from intervaltree.intervaltree import IntervalTree, Interval
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     epsilon = exec_utils.get_param_value(Parameters.EPSILON, parameters, 0.000001)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
@@ -298,8 +298,8 @@ def indirect_paths_times_last_occ(log: EventLog, parameters: Optional[Dict[Union
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     all_paths = set()
@@ -356,8 +356,8 @@ def direct_paths_times_last_occ(log: EventLog, parameters: Optional[Dict[Union[s
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     all_paths = set()
@@ -412,8 +412,8 @@ def times_from_first_occurrence_activity_case(log: EventLog, parameters: Optiona
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     activities_log = set()
@@ -473,8 +473,8 @@ def times_from_last_occurrence_activity_case(log: EventLog, parameters: Optional
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     activities_log = set()
@@ -589,8 +589,8 @@ def case_duration(log: EventLog, parameters: Optional[Dict[Union[str, Parameters
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     feature_names = ["@@caseDuration"]
     data = []
diff --git a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
index 9a68843..0fb9988 100644
--- a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
+++ b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
@@ -64,10 +64,9 @@ def log_to_intervals(log: Union[EventLog, pd.DataFrame], parameters: Optional[Di
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     filter_activity_couple = exec_utils.get_param_value(Parameters.FILTER_ACTIVITY_COUPLE, parameters, None)
 
     ret_list = []
diff --git a/pm4py/statistics/concurrent_activities/log/get.py b/pm4py/statistics/concurrent_activities/log/get.py
index b1b2386..9f53c3b 100644
--- a/pm4py/statistics/concurrent_activities/log/get.py
+++ b/pm4py/statistics/concurrent_activities/log/get.py
@@ -60,8 +60,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, False)
 
     ret_dict = {}
diff --git a/pm4py/statistics/eventually_follows/log/get.py b/pm4py/statistics/eventually_follows/log/get.py
index 918738b..aa50283 100644
--- a/pm4py/statistics/eventually_follows/log/get.py
+++ b/pm4py/statistics/eventually_follows/log/get.py
@@ -39,8 +39,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     keep_first_following = exec_utils.get_param_value(Parameters.KEEP_FIRST_FOLLOWING, parameters, False)
 
     ret_dict = {}
diff --git a/pm4py/statistics/overlap/cases/log/get.py b/pm4py/statistics/overlap/cases/log/get.py
index b6559d1..c859bea 100644
--- a/pm4py/statistics/overlap/cases/log/get.py
+++ b/pm4py/statistics/overlap/cases/log/get.py
@@ -53,8 +53,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/cases/pandas/get.py b/pm4py/statistics/overlap/cases/pandas/get.py
index 1546bc5..28dec3b 100644
--- a/pm4py/statistics/overlap/cases/pandas/get.py
+++ b/pm4py/statistics/overlap/cases/pandas/get.py
@@ -52,8 +52,7 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     columns = list({timestamp_key, start_timestamp_key, case_id_key})
diff --git a/pm4py/statistics/overlap/interval_events/log/get.py b/pm4py/statistics/overlap/interval_events/log/get.py
index 1c7ddad..a757ced 100644
--- a/pm4py/statistics/overlap/interval_events/log/get.py
+++ b/pm4py/statistics/overlap/interval_events/log/get.py
@@ -52,10 +52,9 @@ def apply(log: Union[EventLog, EventStream], parameters: Optional[Dict[Union[str
         parameters = {}
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/interval_events/pandas/get.py b/pm4py/statistics/overlap/interval_events/pandas/get.py
index cb42670..80aa747 100644
--- a/pm4py/statistics/overlap/interval_events/pandas/get.py
+++ b/pm4py/statistics/overlap/interval_events/pandas/get.py
@@ -51,10 +51,9 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     df = df[list({start_timestamp_key, timestamp_key})].to_dict('records')
     points = []
diff --git a/pm4py/statistics/service_time/log/get.py b/pm4py/statistics/service_time/log/get.py
index f3781a0..cbbe303 100644
--- a/pm4py/statistics/service_time/log/get.py
+++ b/pm4py/statistics/service_time/log/get.py
@@ -79,10 +79,9 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 03ce48e..10a465e 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -75,10 +75,9 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/traces/cycle_time/log/get.py b/pm4py/statistics/traces/cycle_time/log/get.py
index db3e57f..55b0ec3 100644
--- a/pm4py/statistics/traces/cycle_time/log/get.py
+++ b/pm4py/statistics/traces/cycle_time/log/get.py
@@ -59,8 +59,8 @@ def apply(log_or_trace: Union[Trace, EventLog], parameters: Optional[Dict[Union[
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     if type(log_or_trace) is Trace:
         log = EventLog()
diff --git a/pm4py/streaming/algo/conformance/temporal/variants/classic.py b/pm4py/streaming/algo/conformance/temporal/variants/classic.py
index ff29c90..25dae66 100644
--- a/pm4py/streaming/algo/conformance/temporal/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/temporal/variants/classic.py
@@ -71,8 +71,7 @@ class TemporalProfileStreamingConformance(StreamingAlgorithm):
                                                        xes_constants.DEFAULT_NAME_KEY)
         self.timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                         xes_constants.DEFAULT_TIMESTAMP_KEY)
-        self.start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                              xes_constants.DEFAULT_TIMESTAMP_KEY)
+        self.start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, self.timestamp_key)
         self.case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         self.zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
         parameters_gen = copy(parameters)
-- 
2.43.0


From f51dd950418f58c08db1bbb5541682ae9d1303a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 018/276] fix: the prefix tree marks a variant as final also
 when it is a prefix of another variant

---
 pm4py/algo/transformation/log_to_trie/algorithm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_trie/algorithm.py b/pm4py/algo/transformation/log_to_trie/algorithm.py
index 8fd3ce6..bb3c868 100644
--- a/pm4py/algo/transformation/log_to_trie/algorithm.py
+++ b/pm4py/algo/transformation/log_to_trie/algorithm.py
@@ -56,6 +56,5 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
             node = Trie(label=activity, parent=trie, depth=trie.depth + 1)
             trie.children.append(node)
             trie = node
-            if i == len(variant) - 1:
-                trie.final = True
+        trie.final = True
     return root
-- 
2.43.0


From 85035e9ecb7a75719dbff7670950c905e85e23e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 019/276] fix: the variants of a dataframe do not depend on its
 rows being grouped by case

---
 pm4py/objects/log/util/pandas_numpy_variants.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/util/pandas_numpy_variants.py b/pm4py/objects/log/util/pandas_numpy_variants.py
index b0dc973..b288317 100644
--- a/pm4py/objects/log/util/pandas_numpy_variants.py
+++ b/pm4py/objects/log/util/pandas_numpy_variants.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
     if not (hasattr(dataframe, "attrs") and dataframe.attrs):
         # dataframe has not been initialized through format_dataframe
         dataframe = pandas_utils.insert_index(dataframe, index_key)
-        dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
     case_variant = dict()
 
@@ -87,7 +87,10 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
         cases = dataframe[case_id_key].to_numpy()
         activities = dataframe[activity_key].to_numpy()
 
-        c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
+        # the events of a case may not be contiguous in the dataframe
+        c_unq, c_inv, c_counts = np.unique(cases, return_inverse=True, return_counts=True)
+        activities = activities[np.argsort(c_inv, kind="stable")]
+        c_ind = np.cumsum(c_counts) - c_counts
 
         for i in range(len(c_ind)):
             si = c_ind[i]
-- 
2.43.0


From 0db084ecff0924cf867ceca5aa7ba748a5139d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 020/276] fix: the between filter does not depend on the rows
 of the dataframe being grouped by case

---
 pm4py/algo/filtering/pandas/between/between_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/between/between_filter.py b/pm4py/algo/filtering/pandas/between/between_filter.py
index 9ebe41c..51be263 100644
--- a/pm4py/algo/filtering/pandas/between/between_filter.py
+++ b/pm4py/algo/filtering/pandas/between/between_filter.py
@@ -67,7 +67,11 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
     df = df.copy()
     cases = df[case_id_key].to_numpy()
     activities = df[activity_key].to_numpy()
-    c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
+    # the events of a case may not be contiguous in the dataframe
+    c_unq, c_inv, c_counts = np.unique(cases, return_inverse=True, return_counts=True)
+    positions = np.argsort(c_inv, kind="stable")
+    activities = activities[positions]
+    c_ind = np.cumsum(c_counts) - c_counts
     res = [np.nan for i in range(len(df))]
 
     i = 0
@@ -80,7 +84,7 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
                 z = occ_A
                 this_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
                 while z <= j:
-                    res[c_ind[i] + z] = this_case
+                    res[positions[c_ind[i] + z]] = this_case
                     z = z + 1
                 rel_count += 1
                 if act1 != act2:
-- 
2.43.0


From c7a8e79b7295298f3d6c0b057d51105c74090d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 021/276] fix: the minimum self distance witnesses follow the
 given attribute keys

---
 pm4py/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/stats.py b/pm4py/stats.py
index 2644415..fdf550c 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -468,7 +468,8 @@ def get_minimum_self_distance_witnesses(log: Union[EventLog, pd.DataFrame], acti
 
     from pm4py.algo.discovery.minimum_self_distance import algorithm as msd_algo
     from pm4py.algo.discovery.minimum_self_distance import utils as msdw_algo
-    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)))
+    parameters = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=parameters), parameters=parameters)
 
 
 def get_case_arrival_average(log: Union[EventLog, pd.DataFrame], activity_key: str = "concept:name", timestamp_key: str = "time:timestamp", case_id_key: str = "case:concept:name") -> float:
-- 
2.43.0


From 43fa084e5c3716060370327d0853f314fbe4d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 022/276] fix: the description of the cases of a dataframe
 supports a start timestamp attribute

---
 pm4py/statistics/traces/generic/pandas/case_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/traces/generic/pandas/case_statistics.py b/pm4py/statistics/traces/generic/pandas/case_statistics.py
index 62cdde3..79536ca 100644
--- a/pm4py/statistics/traces/generic/pandas/case_statistics.py
+++ b/pm4py/statistics/traces/generic/pandas/case_statistics.py
@@ -172,7 +172,7 @@ def get_cases_description(df: pd.DataFrame, parameters: Optional[Dict[Union[str,
     business_hours_slots = exec_utils.get_param_value(Parameters.BUSINESS_HOUR_SLOTS, parameters, constants.DEFAULT_BUSINESS_HOUR_SLOTS)
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
-    grouped_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue])
+    grouped_df = df[list(dict.fromkeys([case_id_glue, timestamp_key, start_timestamp_key]))].groupby(df[case_id_glue])
     # grouped_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue])
     first_eve_df = grouped_df.first()
     last_eve_df = grouped_df.last()
-- 
2.43.0


From 6d0bdfd6f01addbed3ee694d1ea12d0ea9a4bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 023/276] fix: the working together metric of a dataframe is
 relative to the number of cases, not of events

---
 .../sna/variants/pandas/working_together.py                  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
index cdcccc7..cbfda48 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
@@ -70,6 +70,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
     flat_list = sorted(list(set([item for sublist in resources for item in sublist])))
 
     connections = Counter()
+    num_cases = float(sum(variants_occ.values()))
 
     for idx, rv in enumerate(resources):
         rvj = variants_resources[idx]
@@ -79,7 +80,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             res_i = flat_list.index(ord_res_list[i])
             for j in range(i + 1, len(ord_res_list)):
                 res_j = flat_list.index(ord_res_list[j])
-                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(len(log))
-                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(len(log))
+                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / num_cases
+                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / num_cases
 
     return SNA(dict(connections), False)
-- 
2.43.0


From b98e8665c8b7221e46012051a4cece892ec99e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 024/276] fix: the overlap counts every intersecting point,
 also when several points are equal

---
 pm4py/statistics/overlap/utils/compute.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/statistics/overlap/utils/compute.py b/pm4py/statistics/overlap/utils/compute.py
index 37d57b2..ed6372d 100644
--- a/pm4py/statistics/overlap/utils/compute.py
+++ b/pm4py/statistics/overlap/utils/compute.py
@@ -51,8 +51,9 @@ def apply(points: List[Tuple[float, float]], parameters: Optional[Dict[Union[str
     sorted_points = sorted(points)
     tree = IntervalTree()
 
-    for p in sorted_points:
-        tree.add(Interval(p[0], p[1]))
+    # the position tells equal points apart (the tree is a set of intervals)
+    for i, p in enumerate(sorted_points):
+        tree.add(Interval(p[0], p[1], i))
 
     overlap = []
     for p in points:
-- 
2.43.0


From 6fcfa371ea650a5c9aa9c74b5159b701aa91e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 025/276] fix: the cycle time includes the last production
 period

---
 pm4py/statistics/traces/cycle_time/util/compute.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/statistics/traces/cycle_time/util/compute.py b/pm4py/statistics/traces/cycle_time/util/compute.py
index 22c3156..b9347e1 100644
--- a/pm4py/statistics/traces/cycle_time/util/compute.py
+++ b/pm4py/statistics/traces/cycle_time/util/compute.py
@@ -62,4 +62,6 @@ def cycle_time(events: List[Tuple[float, float]], num_instances: int) -> float:
 
         et = max(et, this_et)
 
+    production_time += (et - st)
+
     return production_time / num_instances
-- 
2.43.0


From 94409566f8282462009463e21e70f2c1f2df6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 026/276] fix: social network analysis of a log without
 connections

---
 pm4py/algo/organizational_mining/sna/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/organizational_mining/sna/algorithm.py b/pm4py/algo/organizational_mining/sna/algorithm.py
index c42847e..c54ee6e 100644
--- a/pm4py/algo/organizational_mining/sna/algorithm.py
+++ b/pm4py/algo/organizational_mining/sna/algorithm.py
@@ -83,7 +83,7 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
                    Variants.SUBCONTRACTING_LOG]:
         log = log_conversion.apply(log, variant=log_conversion.Variants.TO_EVENT_LOG, parameters=parameters)
     sna = exec_utils.get_variant(variant).apply(log, parameters=parameters)
-    abs_max = np.max(np.abs(list(sna.connections.values())))
+    abs_max = np.max(np.abs(list(sna.connections.values()))) if sna.connections else 0
     if enable_metric_normalization and abs_max > 0:
         for key in sna.connections:
             sna.connections[key] = sna.connections[key] / abs_max
-- 
2.43.0


From 23ddec3f4186047ea13979d67d95d7fd378806d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 027/276] fix: DECLARE discovery and conformance follow the
 given timestamp attribute

---
 pm4py/algo/conformance/declare/variants/classic.py | 3 ++-
 pm4py/algo/discovery/declare/variants/classic.py   | 3 ++-
 pm4py/stats.py                                     | 2 +-
 pm4py/utils.py                                     | 5 ++++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index d74d5d9..3f85a39 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -343,10 +343,11 @@ def apply(log: Union[EventLog, pd.DataFrame], model: Dict[str, Dict[Any, Dict[st
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
+    timestamp_key = exec_utils.get_param_value(constants.PARAMETER_CONSTANT_TIMESTAMP_KEY, parameters, None)
 
     import pm4py
 
-    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key)
+    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
 
     ret = apply_list(projected_log, model, parameters=parameters)
 
diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 6c25f7e..ad3b7db 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -470,6 +470,7 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
+    timestamp_key = exec_utils.get_param_value(constants.PARAMETER_CONSTANT_TIMESTAMP_KEY, parameters, None)
 
     allowed_templates = exec_utils.get_param_value(Parameters.ALLOWED_TEMPLATES, parameters, None)
 
@@ -480,7 +481,7 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
 
     import pm4py
 
-    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key)
+    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
     activities = exec_utils.get_param_value(Parameters.CONSIDERED_ACTIVITIES, parameters, None)
 
     if activities is None:
diff --git a/pm4py/stats.py b/pm4py/stats.py
index fdf550c..940b5e0 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -736,7 +736,7 @@ def get_frequent_trace_segments(log: Union[EventLog, pd.DataFrame], min_occ: int
     import pm4py.utils
     from prefixspan import PrefixSpan
 
-    projection = pm4py.utils.project_on_event_attribute(log, attribute_key=activity_key, case_id_key=case_id_key)
+    projection = pm4py.utils.project_on_event_attribute(log, attribute_key=activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
     traces0 = PrefixSpan(projection).frequent(min_occ)
     traces = {}
     for x in traces0:
diff --git a/pm4py/utils.py b/pm4py/utils.py
index 3f13cee..e757727 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -425,7 +425,7 @@ def parse_event_log_string(traces: Collection[str], sep: str = ",",
     return dataframe
 
 
-def project_on_event_attribute(log: Union[EventLog, pd.DataFrame], attribute_key=xes_constants.DEFAULT_NAME_KEY, case_id_key=None) -> \
+def project_on_event_attribute(log: Union[EventLog, pd.DataFrame], attribute_key=xes_constants.DEFAULT_NAME_KEY, case_id_key=None, timestamp_key=None) -> \
 List[List[str]]:
     """
     Project the event log on a specified event attribute. The result is a list, containing a list for each case:
@@ -445,6 +445,7 @@ List[List[str]]:
     :param log: Event log / Pandas dataframe
     :param attribute_key: The attribute to be used
     :param case_id_key: The attribute to be used as case identifier
+    :param timestamp_key: The attribute to be used as timestamp
     :rtype: ``List[List[str]]``
 
     .. code-block:: python3
@@ -462,6 +463,8 @@ List[List[str]]:
         parameters = {from_pandas.Parameters.ACTIVITY_KEY: attribute_key}
         if case_id_key is not None:
             parameters[from_pandas.Parameters.CASE_ID_KEY] = case_id_key
+        if timestamp_key is not None:
+            parameters[from_pandas.Parameters.TIMESTAMP_KEY] = timestamp_key
         it = from_pandas.apply(log, parameters=parameters)
         for trace in it:
             output.append([x[xes_constants.DEFAULT_NAME_KEY] if xes_constants.DEFAULT_NAME_KEY is not None else None for x in trace])
-- 
2.43.0


From 7413039119cd80f48d6f432008470396c2b68db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 028/276] fix: precision of logs with activities containing the
 variant separator

---
 pm4py/algo/evaluation/precision/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/evaluation/precision/utils.py b/pm4py/algo/evaluation/precision/utils.py
index df4c054..736f99d 100644
--- a/pm4py/algo/evaluation/precision/utils.py
+++ b/pm4py/algo/evaluation/precision/utils.py
@@ -124,7 +124,7 @@ def get_log_prefixes(log, activity_key=xes_util.DEFAULT_NAME_KEY, case_id_key=co
 
     for trace in traces:
         for i in range(1, len(trace)):
-            prefix = constants.DEFAULT_VARIANT_SEP.join(trace[0:i])
+            prefix = trace[0:i]
             next_activity = trace[i]
             if prefix not in prefixes:
                 prefixes[prefix] = set()
@@ -148,8 +148,7 @@ def form_fake_log(prefixes_keys, activity_key=xes_util.DEFAULT_NAME_KEY):
     fake_log = EventLog()
     for prefix in prefixes_keys:
         trace = Trace()
-        prefix_activities = prefix.split(constants.DEFAULT_VARIANT_SEP)
-        for activity in prefix_activities:
+        for activity in prefix:
             event = Event()
             event[activity_key] = activity
             trace.append(event)
-- 
2.43.0


From 8103084d9d4ef95c5048cf31c0f4f147ddc193fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 029/276] fix: precision on dataframes weighs the empty prefix
 by the number of cases, not of events

---
 .../evaluation/precision/variants/align_etconformance.py     | 5 +++--
 .../evaluation/precision/variants/etconformance_token.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/evaluation/precision/variants/align_etconformance.py b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
index 074aff5..3c46ba1 100644
--- a/pm4py/algo/evaluation/precision/variants/align_etconformance.py
+++ b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
@@ -125,8 +125,9 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], net: PetriNet, markin
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    num_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += num_cases * len(trans_en_ini_marking)
+    sum_ee += num_cases * len(diff)
     # end fix
 
     if sum_at > 0:
diff --git a/pm4py/algo/evaluation/precision/variants/etconformance_token.py b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
index bee67dc..96575ea 100644
--- a/pm4py/algo/evaluation/precision/variants/etconformance_token.py
+++ b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
@@ -117,8 +117,9 @@ def apply(log: EventLog, net: PetriNet, marking: Marking, final_marking: Marking
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    num_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += num_cases * len(trans_en_ini_marking)
+    sum_ee += num_cases * len(diff)
     # end fix
 
     for i in range(len(aligned_traces)):
-- 
2.43.0


From d64c2e087c0825fd6ab10538a434b08f950da3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 030/276] fix: the paths filters of dataframes compare
 consecutive events of the same case, and paths as couples

---
 pm4py/algo/filtering/pandas/paths/paths_filter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/paths/paths_filter.py b/pm4py/algo/filtering/pandas/paths/paths_filter.py
index b61e0bc..cd60b60 100644
--- a/pm4py/algo/filtering/pandas/paths/paths_filter.py
+++ b/pm4py/algo/filtering/pandas/paths/paths_filter.py
@@ -20,7 +20,6 @@ from pm4py.util.xes_constants import DEFAULT_TIMESTAMP_KEY
 from pm4py.util.constants import PARAMETER_CONSTANT_ATTRIBUTE_KEY
 from pm4py.util.constants import PARAMETER_CONSTANT_CASEID_KEY
 from pm4py.util.constants import PARAMETER_CONSTANT_TIMESTAMP_KEY
-from pm4py.util.constants import DEFAULT_VARIANT_SEP
 from enum import Enum
 from pm4py.util import exec_utils, pandas_utils
 from copy import copy
@@ -69,14 +68,14 @@ def apply(df: pd.DataFrame, paths: List[Tuple[str, str]], parameters: Optional[D
     target_attribute_key = exec_utils.get_param_value(Parameters.TARGET_ATTRIBUTE_KEY, parameters, attribute_key)
 
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    paths = [path[0] + DEFAULT_VARIANT_SEP + path[1] for path in paths]
+    paths = [(path[0], path[1]) for path in paths]
     df = df.sort_values([case_id_glue, timestamp_key])
     filt_df = df[list({case_id_glue, attribute_key, target_attribute_key})]
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
     stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
-    stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[target_attribute_key + "_2"]
+    stacked_df["@@path"] = list(zip(stacked_df[attribute_key], stacked_df[target_attribute_key + "_2"]))
     stacked_df = stacked_df[stacked_df["@@path"].isin(paths)]
     i1 = df.set_index(case_id_glue).index
     i2 = stacked_df.set_index(case_id_glue).index
@@ -121,7 +120,6 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     attribute_key = exec_utils.get_param_value(Parameters.ATTRIBUTE_KEY, parameters, DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    provided_path = provided_path[0] + DEFAULT_VARIANT_SEP + provided_path[1]
     min_performance = exec_utils.get_param_value(Parameters.MIN_PERFORMANCE, parameters, 0)
     max_performance = exec_utils.get_param_value(Parameters.MAX_PERFORMANCE, parameters, sys.maxsize)
     df = df.sort_values([case_id_glue, timestamp_key])
@@ -129,8 +127,8 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
-    stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[attribute_key + "_2"]
-    stacked_df = stacked_df[stacked_df["@@path"] == provided_path]
+    stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
+    stacked_df = stacked_df[(stacked_df[attribute_key] == provided_path[0]) & (stacked_df[attribute_key + "_2"] == provided_path[1])]
     stacked_df["@@timedelta"] = pandas_utils.get_total_seconds(stacked_df[timestamp_key + "_2"] - stacked_df[timestamp_key])
     stacked_df = stacked_df[stacked_df["@@timedelta"] >= min_performance]
     stacked_df = stacked_df[stacked_df["@@timedelta"] <= max_performance]
-- 
2.43.0


From aac08e0bd60520a3e8b32815bd0cb523da0a15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 031/276] fix: the subcontracting metric counts every
 occurrence, not only the first one of each resource

---
 .../sna/variants/log/subcontracting.py                 | 10 +++++-----
 .../sna/variants/pandas/subcontracting.py              | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py b/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
index e222f68..b5fc68f 100644
--- a/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
+++ b/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
@@ -82,11 +82,11 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
             if res_i == res_i_n:
                 if res_i not in sum_i_to_j:
                     sum_i_to_j[res_i] = {}
-                    for j in range(i + 1, i + n):
-                        res_j = flat_list.index(rv[j])
-                        if res_j not in sum_i_to_j[res_i]:
-                            sum_i_to_j[res_i][res_j] = 0
-                        sum_i_to_j[res_i][res_j] += variants_occ[rvj]
+                for j in range(i + 1, i + n):
+                    res_j = flat_list.index(rv[j])
+                    if res_j not in sum_i_to_j[res_i]:
+                        sum_i_to_j[res_i][res_j] = 0
+                    sum_i_to_j[res_i][res_j] += variants_occ[rvj]
 
     connections = {}
     for key1 in sum_i_to_j:
diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py b/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
index b3a1dbe..dcc761d 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
@@ -85,11 +85,11 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             if res_i == res_i_n:
                 if res_i not in sum_i_to_j:
                     sum_i_to_j[res_i] = {}
-                    for j in range(i + 1, i + n):
-                        res_j = flat_list.index(rv[j])
-                        if res_j not in sum_i_to_j[res_i]:
-                            sum_i_to_j[res_i][res_j] = 0
-                        sum_i_to_j[res_i][res_j] += variants_occ[rvj]
+                for j in range(i + 1, i + n):
+                    res_j = flat_list.index(rv[j])
+                    if res_j not in sum_i_to_j[res_i]:
+                        sum_i_to_j[res_i][res_j] = 0
+                    sum_i_to_j[res_i][res_j] += variants_occ[rvj]
 
     connections = {}
     for key1 in sum_i_to_j:
-- 
2.43.0


From 8a6ce7231591d0114d19a0da11af05a7bfd4c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 032/276] fix: the four eyes principle on dataframes considers
 all the occurrences of the second activity

---
 pm4py/algo/filtering/pandas/ltl/ltl_checker.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
index b73fb86..e0cdf09 100644
--- a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
@@ -211,10 +211,7 @@ def four_eyes_principle(df0: pd.DataFrame, A: str, B: str, parameters: Optional[
 
     df_A = df[df[attribute_key] == A].copy()
     df_B = df[df[attribute_key] == B].copy()
-    df_B["@@conceptname"] = df_B[case_id_glue]
-    df_B = df_B.groupby(case_id_glue).last().set_index("@@conceptname")
-
-    df_join = df_A.join(df_B, on=case_id_glue, rsuffix="_2").dropna()
+    df_join = df_A.merge(df_B, on=case_id_glue, suffixes=("", "_2")).dropna()
     df_join_pos = df_join[df_join[resource_key] == df_join[resource_key + "_2"]]
     df_join_neg = df_join[df_join[resource_key] != df_join[resource_key + "_2"]]
 
-- 
2.43.0


From 39ddbf98d1612d99fda4f1a3cc92758f342201ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 033/276] fix: the detection of batches keeps the intervals
 sorted while merging them

---
 pm4py/algo/discovery/batches/utils/detection.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/discovery/batches/utils/detection.py b/pm4py/algo/discovery/batches/utils/detection.py
index ea8d2cf..cce4216 100644
--- a/pm4py/algo/discovery/batches/utils/detection.py
+++ b/pm4py/algo/discovery/batches/utils/detection.py
@@ -18,7 +18,6 @@ from enum import Enum
 from typing import Tuple, List, Any, Set, Optional, Dict, Union
 
 from pm4py.util import exec_utils
-import heapq
 from copy import copy
 
 
@@ -56,7 +55,7 @@ def __merge_overlapping_intervals(intervals: List[Tuple[float, float, Set[Any]]]
                 # remove the i interval
                 del intervals[i]
                 # sort the intervals
-                intervals.sort()
+                intervals.sort(key=lambda x: (x[0], x[1]))
                 # set the variable continue_cycle to True
                 continue_cycle = True
                 # interrupt the current iteration on the intervals
@@ -84,8 +83,8 @@ def __merge_near_intervals(intervals: List[Tuple[float, float, Set[Any]]], max_a
                 del intervals[i + 1]
                 # remove the i interval
                 del intervals[i]
-                # add the new interval to the list
-                heapq.heappush(intervals, new_interval)
+                # add the new interval to the list, in the position of the interval i
+                intervals.insert(i, new_interval)
                 # set the variable continue_cycle to True
                 continue_cycle = True
                 i = i - 1
@@ -153,7 +152,7 @@ def __detect_single(events: List[Tuple[float, float, str]], parameters: Optional
 
     intervals = [(e[0], e[1], {copy(e)}) for e in
                  events]
-    heapq.heapify(intervals)
+    intervals.sort(key=lambda x: (x[0], x[1]))
     intervals = __merge_overlapping_intervals(intervals)
     intervals = __merge_near_intervals(intervals, merge_distance)
     batches = [x for x in intervals if len(x[2]) >= min_batch_size]
-- 
2.43.0


From 996a3b7b3a5e5ca839fc5cc72020bf12aa632869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 034/276] fix: the between filter of dataframes keeps both the
 ends of the subtraces also when they share an event

---
 pm4py/algo/filtering/pandas/between/between_filter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/between/between_filter.py b/pm4py/algo/filtering/pandas/between/between_filter.py
index 51be263..f20ee7a 100644
--- a/pm4py/algo/filtering/pandas/between/between_filter.py
+++ b/pm4py/algo/filtering/pandas/between/between_filter.py
@@ -72,7 +72,7 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
     positions = np.argsort(c_inv, kind="stable")
     activities = activities[positions]
     c_ind = np.cumsum(c_counts) - c_counts
-    res = [np.nan for i in range(len(df))]
+    rows = []
 
     i = 0
     while i < len(c_unq):
@@ -84,7 +84,7 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
                 z = occ_A
                 this_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
                 while z <= j:
-                    res[positions[c_ind[i] + z]] = this_case
+                    rows.append((positions[c_ind[i] + z], this_case))
                     z = z + 1
                 rel_count += 1
                 if act1 != act2:
@@ -99,7 +99,9 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
             j = j + 1
         i = i + 1
 
-    df[case_id_key] = res
-    df = df.dropna(subset=[case_id_key])
+    # if A = B, an event can be the end of a subtrace and the start of the next one
+    rows.sort(key=lambda x: x[0])
+    df = df.iloc[[x[0] for x in rows]].copy()
+    df[case_id_key] = [x[1] for x in rows]
 
     return df
-- 
2.43.0


From d10fb82cc83cda227f98280f824be2c0836fd7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 035/276] fix: a transition system has one state per view also
 when a state is first met in a self loop

---
 pm4py/algo/discovery/transition_system/variants/view_based.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/transition_system/variants/view_based.py b/pm4py/algo/discovery/transition_system/variants/view_based.py
index 406529b..db22625 100644
--- a/pm4py/algo/discovery/transition_system/variants/view_based.py
+++ b/pm4py/algo/discovery/transition_system/variants/view_based.py
@@ -78,6 +78,8 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
     for i in range(0, len(view_sequence) - 1):
         sf = {'state': s for s in transition_system.states if s.name == view_sequence[i][0]}
         sf = sf['state'] if len(sf) > 0 else ts.TransitionSystem.State(view_sequence[i][0])
+        # the next state may be the same one
+        transition_system.states.add(sf)
         st = {'state': s for s in transition_system.states if s.name == view_sequence[i + 1][0]}
         st = st['state'] if len(st) > 0 else ts.TransitionSystem.State(view_sequence[i + 1][0])
         t = {'t': t for t in sf.outgoing if t.name == view_sequence[i][1] and t.from_state == sf and t.to_state == st}
@@ -93,7 +95,6 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
             sf.data[ts_constants.OUTGOING_EVENTS].append(view_sequence[i][2])
             st.data[ts_constants.INGOING_EVENTS].append(view_sequence[i][2])
             t.data[ts_constants.EVENTS].append(view_sequence[i][2])
-        transition_system.states.add(sf)
         transition_system.states.add(st)
         transition_system.transitions.add(t)
 
-- 
2.43.0


From a62a29665c950abc2330b3bfcdd719f70ad9f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 036/276] fix: discovering graphs from a dataframe does not add
 a start timestamp column to it

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 6 +++---
 pm4py/algo/discovery/heuristics/variants/plusplus.py      | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 795370c..ccd43ec 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -70,7 +70,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
         if start_timestamp_key not in df.columns:
-            df[start_timestamp_key] = df[timestamp_key]
+            df = df.assign(**{start_timestamp_key: df[timestamp_key]})
         st_eq_ct = True
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
@@ -210,7 +210,7 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
 
     if start_timestamp_key not in df:
-        df[start_timestamp_key] = df[timestamp_key]
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
     # columns
@@ -293,7 +293,7 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     # to avoid retro-compatibility problems
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
-        df[start_timestamp_key] = df[timestamp_key]
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
 
     # to get rows belonging to same case ID together, we need to sort on case ID
     if sort_caseid_required:
diff --git a/pm4py/algo/discovery/heuristics/variants/plusplus.py b/pm4py/algo/discovery/heuristics/variants/plusplus.py
index a40b5ba..2dc2d78 100644
--- a/pm4py/algo/discovery/heuristics/variants/plusplus.py
+++ b/pm4py/algo/discovery/heuristics/variants/plusplus.py
@@ -313,6 +313,8 @@ def discover_abstraction_dataframe(df: pd.DataFrame, parameters: Optional[Dict[A
         parameters[Parameters.START_TIMESTAMP_KEY] = start_timestamp_key
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes.DEFAULT_TIMESTAMP_KEY)
     case_id_glue = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
+    if start_timestamp_key not in df:
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
     start_activities = pd_sa.get_start_activities(df, parameters=parameters)
     end_activities = pd_ea.get_end_activities(df, parameters=parameters)
     activities_occurrences = pd_attributes.get_attribute_values(df, activity_key, parameters=parameters)
-- 
2.43.0


From 90f0c5e903f8a0c00307bb116b264229494dddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 037/276] fix: the service time does not add a column to the
 given dataframe

---
 pm4py/statistics/service_time/pandas/get.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 10a465e..b467de6 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -81,6 +81,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
+    dataframe = dataframe.copy()
     if business_hours:
         dataframe[DIFF_KEY] = dataframe.apply(
             lambda x: soj_time_business_hours_diff(x[start_timestamp_key], x[timestamp_key], business_hours_slots, workcalendar), axis=1)
-- 
2.43.0


From 39c1df39491c0887ca8da830a882a24c7784080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 038/276] fix: inserting artificial start and end activities
 does not edit the given event log

---
 pm4py/objects/log/util/artificial.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/log/util/artificial.py b/pm4py/objects/log/util/artificial.py
index 3fc19db..09f2c69 100644
--- a/pm4py/objects/log/util/artificial.py
+++ b/pm4py/objects/log/util/artificial.py
@@ -18,7 +18,7 @@ from enum import Enum
 from typing import Optional, Dict, Any
 
 from pm4py.objects.log.obj import Event
-from pm4py.objects.log.obj import EventLog
+from pm4py.objects.log.obj import EventLog, Trace
 from pm4py.util import constants
 from pm4py.util import exec_utils
 from pm4py.util import xes_constants
@@ -61,6 +61,9 @@ def insert_artificial_start_end(log: EventLog, parameters: Optional[Dict[Any, An
     artificial_end_activity = exec_utils.get_param_value(Parameters.PARAM_ARTIFICIAL_END_ACTIVITY, parameters,
                                                          constants.DEFAULT_ARTIFICIAL_END_ACTIVITY)
 
+    enriched_log = EventLog(attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                            omni_present=log.omni_present, properties=log.properties)
+
     for trace in log:
         start_event = Event({activity_key: artificial_start_activity})
         end_event = Event({activity_key: artificial_end_activity})
@@ -69,7 +72,7 @@ def insert_artificial_start_end(log: EventLog, parameters: Optional[Dict[Any, An
                 start_event[timestamp_key] = trace[0][timestamp_key] - datetime.timedelta(seconds=1)
             if timestamp_key in trace[-1]:
                 end_event[timestamp_key] = trace[-1][timestamp_key] + datetime.timedelta(seconds=1)
-        trace.insert(0, start_event)
-        trace.append(end_event)
+        enriched_log.append(Trace([start_event] + list(trace) + [end_event], attributes=trace.attributes,
+                                  properties=trace.properties))
 
-    return log
+    return enriched_log
-- 
2.43.0


From 29444d36379119fda83eb93d0051bf721b0ef594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 039/276] fix: exporting a DFG with start or end activities
 that have no arcs

---
 pm4py/objects/dfg/exporter/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/exporter/variants/classic.py b/pm4py/objects/dfg/exporter/variants/classic.py
index e7bf5f0..91a5475 100644
--- a/pm4py/objects/dfg/exporter/variants/classic.py
+++ b/pm4py/objects/dfg/exporter/variants/classic.py
@@ -60,7 +60,7 @@ def export_line_by_line(dfg, parameters=None):
         raise Exception(
             "error: impossible to determine automatically the end activities from the DFG. Please specify them manually through the END_ACTIVITIES parameter")
 
-    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)))
+    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg), start_activities, end_activities))
 
     yield "%d\n" % (len(activities))
     for act in activities:
-- 
2.43.0


From c047c3b6075b5a1c119cb7fef4436344668a3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 040/276] fix: importing a DFG keeps the leading and trailing
 spaces of the activities

---
 pm4py/objects/dfg/importer/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/importer/variants/classic.py b/pm4py/objects/dfg/importer/variants/classic.py
index e55de1a..03f64d3 100644
--- a/pm4py/objects/dfg/importer/variants/classic.py
+++ b/pm4py/objects/dfg/importer/variants/classic.py
@@ -54,7 +54,7 @@ def import_dfg_from_rows(rows, parameters=None):
     num_activities = int(rows[0])
     i = 1
     while i <= num_activities:
-        activities.append(rows[i].strip())
+        activities.append(rows[i].rstrip("\r\n"))
         i = i + 1
 
     num_sa = int(rows[i])
-- 
2.43.0


From 24b8d5607d9404d63ccf1d01e209900d1d2d44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 041/276] fix: the recomposition of decomposed alignments
 visits every component once

---
 .../alignments/decomposed/variants/recompos_maximal.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index 9b371c6..81117ff 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -350,6 +350,8 @@ def recompose_alignment(cons_nets, cons_nets_result):
     count = 0
     while len(to_visit) > 0:
         curr = to_visit.pop(0)
+        if curr in visited:
+            continue
         output_edges = [e for e in G0.edges if e[0] == curr]
         for edge in output_edges:
             to_visit.append(edge[1])
-- 
2.43.0


From ac1567e324ca06407c41dd60b50ae6449b26ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 042/276] fix: conformance to a temporal profile without
 couples of activities

---
 .../conformance/temporal_profile/variants/dataframe.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/dataframe.py b/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
index bd9afcd..e271a2a 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
@@ -84,12 +84,16 @@ def apply(df: pd.DataFrame, temporal_profile: typing.TemporalProfile,
     business_hours_slots = exec_utils.get_param_value(Parameters.BUSINESS_HOUR_SLOTS, parameters, constants.DEFAULT_BUSINESS_HOUR_SLOTS)
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
+    cases = pandas_utils.format_unique(df[case_id_key].unique())
+    ret = [[] for c in cases]
+    if not temporal_profile:
+        # without couples of activities in the profile, there is no deviation
+        return ret
+
     temporal_profile = pandas_utils.instantiate_dataframe([{activity_key: x[0], activity_key + "_2": x[1], "@@min": y[0] - zeta * y[1],
                                       "@@max": y[0] + zeta * y[1], "@@mean": y[0], "@@std": y[1]} for x, y in
                                      temporal_profile.items()])
 
-    cases = pandas_utils.format_unique(df[case_id_key].unique())
-    ret = [[] for c in cases]
     efg = get_partial_order_dataframe(df, activity_key=activity_key, timestamp_key=timestamp_key,
                                       start_timestamp_key=start_timestamp_key, case_id_glue=case_id_key,
                                       keep_first_following=False, business_hours=business_hours,
-- 
2.43.0


From 3da6752ae42d3f3fe0c620166dc50b95a5ee9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 043/276] fix: concurrent activities of a dataframe in which no
 case has two events

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index ccd43ec..909c6e7 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -315,9 +315,9 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     df = df[df[constants.DEFAULT_INDEX_KEY] < df[constants.DEFAULT_INDEX_KEY + "_2"]]
     df[max_start_column] = df[[start_timestamp_key, start_timestamp_key + '_2']].max(axis=1)
     df[min_complete_column] = df[[timestamp_key, timestamp_key + '_2']].min(axis=1)
+    df[diff_maxs_minc] = pandas_utils.get_total_seconds(df[min_complete_column] - df[max_start_column])
     df[max_start_column] = df[max_start_column].apply(lambda x: x.timestamp())
     df[min_complete_column] = df[min_complete_column].apply(lambda x: x.timestamp())
-    df[diff_maxs_minc] = df[min_complete_column] - df[max_start_column]
     if strict:
         df = df[df[diff_maxs_minc] > 0]
     else:
-- 
2.43.0


From 6ec9034ab1705c7a4b76024a25238eecfb0bf5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 044/276] fix: concurrent activities of a dataframe are counted
 in both orders

---
 pm4py/statistics/concurrent_activities/pandas/get.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/concurrent_activities/pandas/get.py b/pm4py/statistics/concurrent_activities/pandas/get.py
index f464d3f..1c795db 100644
--- a/pm4py/statistics/concurrent_activities/pandas/get.py
+++ b/pm4py/statistics/concurrent_activities/pandas/get.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     for el in ret_dict0:
         # avoid getting two entries for the same set of concurrent activities
         el2 = tuple(sorted(el))
-        ret_dict[el2] = int(ret_dict0[el])
+        ret_dict[el2] = ret_dict.get(el2, 0) + int(ret_dict0[el])
 
     return ret_dict
 
-- 
2.43.0


From 0373e6d5c5d9aeb867ed744fe8a9e6c0e932fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 045/276] fix: the typed DFG contains the arc from the first to
 the second event of each case

---
 pm4py/algo/discovery/dfg/variants/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/variants/clean.py b/pm4py/algo/discovery/dfg/variants/clean.py
index 2c99756..d33d191 100644
--- a/pm4py/algo/discovery/dfg/variants/clean.py
+++ b/pm4py/algo/discovery/dfg/variants/clean.py
@@ -56,7 +56,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[str, Any]] = None) -> DFG
 
     starters = df[(df[aux_act_start] == CONST_PROCESS_START)]
     borders = df[(df[aux_act_end] == CONST_PROCESS_END)]
-    connections = df[((df[aux_act_start] != CONST_PROCESS_START) & (df[aux_act_end] != CONST_PROCESS_END))]
+    connections = df[(df[aux_act_end] != CONST_PROCESS_END)]
 
     dfg = DFG()
 
-- 
2.43.0


From bc174fea77624d7e2b954ecc4309e91fd89f31c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 046/276] fix: prefix and suffix filters of cases compare whole
 activities

---
 .../filtering/pandas/ends_with/ends_with_filter.py    | 11 +++++------
 .../pandas/starts_with/starts_with_filter.py          | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py b/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
index a959e06..43f050a 100644
--- a/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
+++ b/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
@@ -67,12 +67,11 @@ def apply(df: pd.DataFrame, admitted_suffixes: List[str], parameters: Optional[D
     first_case_variant = variants_df["variant"].iloc[0]
     if isinstance(first_case_variant, tuple):
         # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-        admitted_suffixes = [constants.DEFAULT_VARIANT_SEP.join(x) for x in admitted_suffixes]
-    admitted_suffixes = tuple(admitted_suffixes)
-
-    variants_df = variants_df[variants_df["variant"].str.endswith(admitted_suffixes)]
+        admitted_suffixes = [tuple(x) for x in admitted_suffixes]
+        variants_df = variants_df[variants_df["variant"].apply(lambda x: any(len(x) >= len(y) and x[len(x) - len(y):] == y for y in admitted_suffixes))]
+    else:
+        admitted_suffixes = tuple(admitted_suffixes)
+        variants_df = variants_df[variants_df["variant"].str.endswith(admitted_suffixes)]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
diff --git a/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py b/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
index 880aeff..07f9d50 100644
--- a/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
+++ b/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
@@ -67,12 +67,11 @@ def apply(df: pd.DataFrame, admitted_prefixes: List[str], parameters: Optional[D
     first_case_variant = variants_df["variant"].iloc[0]
     if isinstance(first_case_variant, tuple):
         # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-        admitted_prefixes = [constants.DEFAULT_VARIANT_SEP.join(x) for x in admitted_prefixes]
-    admitted_prefixes = tuple(admitted_prefixes)
-
-    variants_df = variants_df[variants_df["variant"].str.startswith(admitted_prefixes)]
+        admitted_prefixes = [tuple(x) for x in admitted_prefixes]
+        variants_df = variants_df[variants_df["variant"].apply(lambda x: any(x[:len(y)] == y for y in admitted_prefixes))]
+    else:
+        admitted_prefixes = tuple(admitted_prefixes)
+        variants_df = variants_df[variants_df["variant"].str.startswith(admitted_prefixes)]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
-- 
2.43.0


From fe20329d914b79e3c7d122089d1d1d52aead5b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 047/276] fix: the filter on trace segments compares whole
 activities

---
 .../filtering/common/traces/infix_to_regex.py | 28 +++++++++++++++++++
 .../algo/filtering/log/traces/trace_filter.py |  8 ++----
 .../filtering/pandas/traces/trace_filter.py   | 13 ++++-----
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/pm4py/algo/filtering/common/traces/infix_to_regex.py b/pm4py/algo/filtering/common/traces/infix_to_regex.py
index f0a53ee..1e061f2 100644
--- a/pm4py/algo/filtering/common/traces/infix_to_regex.py
+++ b/pm4py/algo/filtering/common/traces/infix_to_regex.py
@@ -31,3 +31,31 @@ def translate_infix_to_regex(infix):
 
     regex = f"{regex}$"
     return regex
+
+
+def match_infix(infix, trace):
+    """
+    Checks whether a trace matches an infix (a sequence of activities and "...", the latter standing
+    for any number of activities). The activities are compared as a whole, so their labels could
+    contain the separator of the variants and the special characters of the regular expressions.
+
+    Parameters
+    --------------
+    infix
+        Sequence of activities and "..."
+    trace
+        Sequence of activities
+
+    Returns
+    --------------
+    boolean
+        Boolean value
+    """
+    # positions of the trace at which the part of the infix considered so far may end
+    positions = {0}
+    for act in infix:
+        if act == "...":
+            positions = set(range(min(positions), len(trace) + 1)) if positions else set()
+        else:
+            positions = {i + 1 for i in positions if i < len(trace) and trace[i] == act}
+    return len(trace) in positions
diff --git a/pm4py/algo/filtering/log/traces/trace_filter.py b/pm4py/algo/filtering/log/traces/trace_filter.py
index 982a2fa..7713418 100644
--- a/pm4py/algo/filtering/log/traces/trace_filter.py
+++ b/pm4py/algo/filtering/log/traces/trace_filter.py
@@ -14,12 +14,11 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
-import re
 from enum import Enum
 from pm4py.util import exec_utils, constants, xes_constants
 from typing import Optional, Dict, Any, Union, List
 from pm4py.objects.conversion.log import converter as log_converter
-from pm4py.algo.filtering.common.traces.infix_to_regex import translate_infix_to_regex
+from pm4py.algo.filtering.common.traces.infix_to_regex import match_infix
 from pm4py.objects.log.obj import EventLog, EventStream
 import pandas as pd
 
@@ -63,13 +62,12 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], admitted_traces: List
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
-    filter_regex = "|".join([f"({translate_infix_to_regex(inf)})" for inf in admitted_traces])
     filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
             omni_present=log.omni_present, properties=log.properties)
 
     for case in log:
-        t = constants.DEFAULT_VARIANT_SEP.join([x[activity_key] for x in case])
-        found = bool(re.search(filter_regex, t))
+        t = [x[activity_key] for x in case]
+        found = any(match_infix(inf, t) for inf in admitted_traces)
         if (positive and found) or (not positive and not found):
             filtered_log.append(case)
 
diff --git a/pm4py/algo/filtering/pandas/traces/trace_filter.py b/pm4py/algo/filtering/pandas/traces/trace_filter.py
index b9c410d..ad8d59b 100644
--- a/pm4py/algo/filtering/pandas/traces/trace_filter.py
+++ b/pm4py/algo/filtering/pandas/traces/trace_filter.py
@@ -20,12 +20,11 @@ from pm4py.statistics.traces.generic.pandas.case_statistics import get_variants_
 from pm4py.util.constants import PARAMETER_CONSTANT_CASEID_KEY, PARAMETER_CONSTANT_ACTIVITY_KEY
 from enum import Enum
 from pm4py.util import exec_utils
-from pm4py.algo.filtering.common.traces.infix_to_regex import translate_infix_to_regex
+from pm4py.algo.filtering.common.traces.infix_to_regex import match_infix
 from copy import copy
 from typing import Optional, Dict, Any, Union, List
 import pandas as pd
 from pm4py.util import constants
-import re
 
 
 class Parameters(Enum):
@@ -68,14 +67,12 @@ def apply(df: pd.DataFrame, admitted_traces: List[List[str]],
                                                                                                 parameters=parameters)
 
     first_case_variant = variants_df["variant"].iloc[0]
-    if isinstance(first_case_variant, tuple):
+    variants = variants_df["variant"]
+    if not isinstance(first_case_variant, tuple):
         # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
+        variants = variants.apply(lambda x: tuple(x.split(constants.DEFAULT_VARIANT_SEP)))
 
-    filter_regex = "|".join([f"({translate_infix_to_regex(inf)})" for inf in admitted_traces])
-    variants_df["matches_infix"] = variants_df["variant"].apply(lambda t: bool(re.search(filter_regex, t)))
-    variants_df = variants_df[variants_df["matches_infix"]]
+    variants_df = variants_df[variants.apply(lambda t: any(match_infix(inf, t) for inf in admitted_traces))]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
-- 
2.43.0


From 9c8c4ea5964662a3feb9ad571549510e6580dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 048/276] fix: eventually-follows with time boundaries measures
 the matched events

---
 pm4py/algo/filtering/log/ltl/ltl_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/log/ltl/ltl_checker.py b/pm4py/algo/filtering/log/ltl/ltl_checker.py
index 7aec690..13f7a53 100644
--- a/pm4py/algo/filtering/log/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/log/ltl/ltl_checker.py
@@ -107,8 +107,8 @@ def eventually_follows(log: EventLog, attribute_values: List[str], parameters: O
             if ok:
                 if enable_timestamp and timestamp_diff_boundaries:
                     for i in range(len(c)-1):
-                        timest_i = trace[i][timestamp_key].timestamp()
-                        timest_j = trace[i+1][timestamp_key].timestamp()
+                        timest_i = trace[c[i]][timestamp_key].timestamp()
+                        timest_j = trace[c[i+1]][timestamp_key].timestamp()
                         if timest_j - timest_i < timestamp_diff_boundaries[i][0] or timest_j - timest_i > timestamp_diff_boundaries[i][1]:
                             ok = False
                             break
-- 
2.43.0


From 870a427b210a782ef7ca8569679402b261e87869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 049/276] fix: eventually-follows filter with time boundaries
 on more than two values

---
 pm4py/algo/filtering/pandas/ltl/ltl_checker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
index e0cdf09..e29143a 100644
--- a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
@@ -89,7 +89,8 @@ def eventually_follows(df0: pd.DataFrame, attribute_values: List[str], parameter
     df_join = df_join[df_join["@@diffindex0"] > 0]
 
     for i in range(2, len(df_a)):
-        df_join = df_join.merge(df_a[i], on=case_id_glue, suffixes=('', "_%d" % i)).dropna()
+        df_i = df_a[i].rename(columns={x: x + "_%d" % i for x in df_a[i].columns if x != case_id_glue})
+        df_join = df_join.merge(df_i, on=case_id_glue).dropna()
         df_join["@@diffindex%d" % (i - 1)] = df_join[constants.DEFAULT_INDEX_KEY + "_%d" % i] - df_join[
             constants.DEFAULT_INDEX_KEY + "_%d" % (i - 1)]
         df_join = df_join[df_join["@@diffindex%d" % (i - 1)] > 0]
-- 
2.43.0


From 81decfe5eae132590e2dd53c6412a64a4bc4e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 050/276] fix: A-next-B-next-C considers every occurrence of B
 and C

---
 pm4py/algo/filtering/pandas/ltl/ltl_checker.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
index e29143a..edb1a94 100644
--- a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
@@ -148,20 +148,9 @@ def A_next_B_next_C(df0: pd.DataFrame, A: str, B: str, C: str, parameters: Optio
 
     df = df0.copy()
     df = df[[case_id_glue, attribute_key]]
-    df = pandas_utils.insert_index(df)
-    df_A = df[df[attribute_key] == A].copy()
-    df_B = df[df[attribute_key] == B].copy()
-    df_C = df[df[attribute_key] == C].copy()
-    df_B["@@conceptname"] = df_B[case_id_glue]
-    df_B = df_B.groupby(case_id_glue).last().set_index("@@conceptname")
-    df_C["@@conceptname"] = df_C[case_id_glue]
-    df_C = df_C.groupby(case_id_glue).last().set_index("@@conceptname")
-
-    df_join = df_A.join(df_B, on=case_id_glue, rsuffix="_2").dropna().join(df_C, on=case_id_glue, rsuffix="_3").dropna()
-    df_join["@@diffindex"] = df_join[constants.DEFAULT_INDEX_KEY + "_2"] - df_join[constants.DEFAULT_INDEX_KEY]
-    df_join["@@diffindex2"] = df_join[constants.DEFAULT_INDEX_KEY + "_3"] - df_join[constants.DEFAULT_INDEX_KEY + "_2"]
-    df_join = df_join[df_join["@@diffindex"] == 1]
-    df_join = df_join[df_join["@@diffindex2"] == 1]
+    # attribute values of the next two events of the same case
+    following = df.groupby(case_id_glue, sort=False)[attribute_key]
+    df_join = df[(df[attribute_key] == A) & (following.shift(-1) == B) & (following.shift(-2) == C)]
 
     i1 = df.set_index(case_id_glue).index
     i2 = df_join.set_index(case_id_glue).index
-- 
2.43.0


From fbff4d0ccb428757812403bdb91b94496071e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 051/276] fix: cases spanning exactly the time window intersect
 it

---
 pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py b/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
index 40c4e81..07e94db 100644
--- a/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
+++ b/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
@@ -108,10 +108,10 @@ def filter_traces_intersecting(df: pd.DataFrame, dt1: Union[str, datetime.dateti
     last = grouped_df.last()
     last.columns = [str(col) + '_2' for col in last.columns]
     stacked = pandas_utils.concat([first, last], axis=1)
-    stacked1 = stacked[stacked[timestamp_key] > dt1]
-    stacked1 = stacked1[stacked1[timestamp_key] < dt2]
-    stacked2 = stacked[stacked[timestamp_key + "_2"] > dt1]
-    stacked2 = stacked2[stacked2[timestamp_key + "_2"] < dt2]
+    stacked1 = stacked[stacked[timestamp_key] >= dt1]
+    stacked1 = stacked1[stacked1[timestamp_key] <= dt2]
+    stacked2 = stacked[stacked[timestamp_key + "_2"] >= dt1]
+    stacked2 = stacked2[stacked2[timestamp_key + "_2"] <= dt2]
     stacked3 = stacked[stacked[timestamp_key] < dt1]
     stacked3 = stacked3[stacked3[timestamp_key + "_2"] > dt2]
     stacked = pandas_utils.concat([stacked1, stacked2, stacked3], axis=0)
-- 
2.43.0


From d9de686b2a7725d2db1e95e7adfd0ee9007d655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 052/276] fix: filter_df_keeping_spno_activities returns the
 filtered dataframe

---
 pm4py/algo/filtering/pandas/attributes/attributes_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/filtering/pandas/attributes/attributes_filter.py b/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
index ad24dfe..a5b6337 100644
--- a/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
@@ -305,7 +305,7 @@ def filter_df_keeping_spno_activities(df: pd.DataFrame, activity_key: str = "con
         ret = df
 
     ret.attrs = copy(df.attrs) if hasattr(df, 'attrs') else {}
-    return df
+    return ret
 
 
 def filter_df_relative_occurrence_event_attribute(df: pd.DataFrame, min_relative_stake: float, parameters: Optional[Dict[Any, Any]] = None) -> pd.DataFrame:
-- 
2.43.0


From 021deda05febf928fc732f07b57934b3c51b5338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 053/276] fix: the event filter on attribute values accepts
 events without the attribute

---
 pm4py/algo/filtering/log/attributes/attributes_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index d3916ee..f0d214a 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -198,11 +198,11 @@ def apply_events(log: EventLog, values: List[str], parameters: Optional[Dict[Uni
 
     stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters=conversion_parameters)
     if positive:
-        stream = EventStream(list(filter(lambda x: x[attribute_key] in values, stream)), attributes=log.attributes,
+        stream = EventStream(list(filter(lambda x: attribute_key in x and x[attribute_key] in values, stream)), attributes=log.attributes,
                              extensions=log.extensions, classifiers=log.classifiers,
                              omni_present=log.omni_present, properties=log.properties)
     else:
-        stream = EventStream(list(filter(lambda x: x[attribute_key] not in values, stream)), attributes=log.attributes,
+        stream = EventStream(list(filter(lambda x: attribute_key not in x or x[attribute_key] not in values, stream)), attributes=log.attributes,
                              extensions=log.extensions, classifiers=log.classifiers,
                              omni_present=log.omni_present, properties=log.properties)
 
-- 
2.43.0


From d6ac72ff40f2ec5f1bc7731d5c1348d071801a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 054/276] fix: the numeric attribute filter of cases with
 positive=False removes the matching cases

---
 .../filtering/log/attributes/attributes_filter.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index f0d214a..003f9e7 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -97,15 +97,9 @@ def apply_numeric(log: EventLog, int1: float, int2: float, parameters: Optional[
             attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
             omni_present=log.omni_present, properties=log.properties)
 
-    if positive:
-        stream = EventStream(list(filter(lambda x: attribute_key in x and int1 <= x[attribute_key] <= int2, stream)),
-                             attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
-                             omni_present=log.omni_present, properties=log.properties)
-    else:
-        stream = EventStream(
-            list(filter(lambda x: attribute_key in x and (x[attribute_key] < int1 or x[attribute_key] > int2), stream)),
-            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
-            omni_present=log.omni_present, properties=log.properties)
+    stream = EventStream(list(filter(lambda x: attribute_key in x and int1 <= x[attribute_key] <= int2, stream)),
+                         attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                         omni_present=log.omni_present, properties=log.properties)
 
     all_cases_ids = set(x[case_attribute_prefix + case_key] for x in stream)
 
@@ -113,7 +107,8 @@ def apply_numeric(log: EventLog, int1: float, int2: float, parameters: Optional[
                             omni_present=log.omni_present, properties=log.properties)
 
     for case in log:
-        if case.attributes[case_key] in all_cases_ids:
+        # keep or remove the cases with such events
+        if (case.attributes[case_key] in all_cases_ids) == bool(positive):
             filtered_log.append(case)
 
     return filtered_log
-- 
2.43.0


From 7f35daca2659f3fa15f66aa45aa71c6591e492f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 055/276] fix: filters of event logs keep the attributes,
 extensions, classifiers and globals of the log

---
 pm4py/algo/filtering/log/cases/case_filter.py    | 16 ++++++++++++----
 .../algo/filtering/log/prefixes/prefix_filter.py |  2 +-
 .../algo/filtering/log/suffixes/suffix_filter.py |  2 +-
 .../filtering/log/timestamp/timestamp_filter.py  |  2 +-
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/filtering/log/cases/case_filter.py b/pm4py/algo/filtering/log/cases/case_filter.py
index a10a54b..9d20c16 100644
--- a/pm4py/algo/filtering/log/cases/case_filter.py
+++ b/pm4py/algo/filtering/log/cases/case_filter.py
@@ -54,7 +54,9 @@ def filter_on_case_performance(log: EventLog, inf_perf: float, sup_perf: float,
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
-    filtered_log = EventLog([trace for trace in log if satisfy_perf(trace, inf_perf, sup_perf, timestamp_key)])
+    filtered_log = EventLog([trace for trace in log if satisfy_perf(trace, inf_perf, sup_perf, timestamp_key)],
+                            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                            omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
@@ -76,7 +78,9 @@ def filter_on_ncases(log: EventLog, max_no_cases: int = 1000) -> EventLog:
     """
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
-    filtered_log = EventLog(log[:min(len(log), max_no_cases)])
+    filtered_log = EventLog(log[:min(len(log), max_no_cases)],
+                            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                            omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
@@ -101,9 +105,13 @@ def filter_on_case_size(log: EventLog, min_case_size: int = 2, max_case_size=Non
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
     if max_case_size is not None:
-        filtered_log = EventLog([trace for trace in log if min_case_size <= len(trace) <= max_case_size])
+        filtered_log = EventLog([trace for trace in log if min_case_size <= len(trace) <= max_case_size],
+                                attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                                omni_present=log.omni_present, properties=log.properties)
     else:
-        filtered_log = EventLog([trace for trace in log if len(trace) >= min_case_size])
+        filtered_log = EventLog([trace for trace in log if len(trace) >= min_case_size],
+                                attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                                omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
diff --git a/pm4py/algo/filtering/log/prefixes/prefix_filter.py b/pm4py/algo/filtering/log/prefixes/prefix_filter.py
index ac3f44f..7a2ab2e 100644
--- a/pm4py/algo/filtering/log/prefixes/prefix_filter.py
+++ b/pm4py/algo/filtering/log/prefixes/prefix_filter.py
@@ -58,7 +58,7 @@ def apply(log: Union[EventLog, EventStream], activity: str, parameters: Optional
     first_or_last = exec_utils.get_param_value(Parameters.FIRST_OR_LAST, parameters, "first")
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, True)
 
-    filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, globals=log.omni_present,
+    filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
                        classifiers=log.classifiers, properties=log.properties)
 
     for trace in log:
diff --git a/pm4py/algo/filtering/log/suffixes/suffix_filter.py b/pm4py/algo/filtering/log/suffixes/suffix_filter.py
index eaa1b1a..f39a0e8 100644
--- a/pm4py/algo/filtering/log/suffixes/suffix_filter.py
+++ b/pm4py/algo/filtering/log/suffixes/suffix_filter.py
@@ -58,7 +58,7 @@ def apply(log: Union[EventLog, EventStream], activity: str, parameters: Optional
     first_or_last = exec_utils.get_param_value(Parameters.FIRST_OR_LAST, parameters, "first")
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, True)
 
-    filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, globals=log.omni_present,
+    filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
                        classifiers=log.classifiers, properties=log.properties)
 
     for trace in log:
diff --git a/pm4py/algo/filtering/log/timestamp/timestamp_filter.py b/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
index 9200872..be5e4af 100644
--- a/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
+++ b/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
@@ -305,7 +305,7 @@ def filter_traces_attribute_in_timeframe(log: EventLog, attribute: str, attribut
     filtered_log = EventLog([trace for trace in log if
                              has_attribute_in_timeframe(trace, attribute, attribute_value, dt1, dt2, timestamp_key)],
                             attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
-                            classifiers=log.classifiers)
+                            classifiers=log.classifiers, properties=log.properties)
     return filtered_log
 
 
-- 
2.43.0


From c6e101d86c66364d9fd08ea921f6be5c757bd68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 056/276] fix: the grouping filters keep one whole event of
 each group

---
 .../consecutive_act_case_grouping_filter.py           | 11 +++++------
 .../timestamp_case_grouping_filter.py                 | 10 ++++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
index 4818641..335f3a2 100644
--- a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
+++ b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
@@ -57,17 +57,16 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     filter_type = exec_utils.get_param_value(Parameters.FILTER_TYPE, parameters, "first")
 
     dataframe = log_converter.apply(log_obj, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters).copy()
-    dataframe["@@extra1"] = dataframe[case_id_key] + dataframe[activity_key]
-    utility_df = (dataframe["@@extra1"] != dataframe["@@extra1"].shift())
-    utility_df = utility_df.fillna(False).cumsum()
+    utility_df = (dataframe[case_id_key] != dataframe[case_id_key].shift()).fillna(True) | (
+            dataframe[activity_key] != dataframe[activity_key].shift()).fillna(True)
+    utility_df = utility_df.cumsum()
     gdf = dataframe.groupby(utility_df, sort=False)
 
     if filter_type == "first":
-        dataframe = gdf.first()
+        dataframe = gdf.head(1)
     elif filter_type == "last":
-        dataframe = gdf.last()
+        dataframe = gdf.tail(1)
 
     dataframe = dataframe.reset_index(drop=True)
-    del dataframe["@@extra1"]
 
     return dataframe
diff --git a/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py b/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
index e339617..4571933 100644
--- a/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
+++ b/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
@@ -67,12 +67,14 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
 
     ret = None
     if filter_type == "first":
-        ret = gdf.first()
+        ret = gdf.head(1)
     elif filter_type == "last":
-        ret = gdf.last()
+        ret = gdf.tail(1)
     elif filter_type == "concat":
-        ret = gdf.first()
+        ret = gdf.head(1)
+        ret = ret.set_index([case_id_key, timestamp_key])
         ret[activity_key] = gdf[activity_key].agg(list).apply(lambda x: " & ".join(sorted(list(x))))
+        ret = ret.reset_index()
 
-    ret = ret.reset_index()
+    ret = ret.reset_index(drop=True)
     return ret
-- 
2.43.0


From a8f9f629ef61ad1041351bc4da1bd190dbf124fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 057/276] fix: the activity split filter assigns sub-cases row
 by row

---
 .../activity_split/activity_split_filter.py   | 28 ++++++-------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py b/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
index 9cbd8df..23ceacf 100644
--- a/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
+++ b/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
@@ -17,7 +17,6 @@
 from enum import Enum
 from typing import Optional, Dict, Any, Union, List
 
-import numpy as np
 import pandas as pd
 
 from pm4py.util import exec_utils, constants, xes_constants
@@ -97,28 +96,17 @@ def apply(df: pd.DataFrame, activity: Union[str, List[str]],
     df = df.copy()
     cases = df[case_id_key].to_numpy()
     activities = df[activity_key].to_numpy()
-    c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
+    # number of cuts encountered in every case (the events of a case may not be contiguous in the dataframe)
+    rel_counts = {}
     res = []
 
-    i = 0
-    while i < len(c_unq):
-        rel_count = 0
-        this_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
-
-        j = 0
-        while j < c_counts[i]:
-            if act_equal(activities[c_ind[i] + j]):
+    for case, act in zip(cases, activities):
+        rel_count = rel_counts.get(case, 0)
+        if act_equal(act):
+            rel_counts[case] = rel_count + 1
+            if cut_mode == "this":
                 rel_count += 1
-                next_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
-                if cut_mode == "this":
-                    res.append(next_case)
-                else:
-                    res.append(this_case)
-                this_case = next_case
-            else:
-                res.append(this_case)
-            j = j + 1
-        i = i + 1
+        res.append(str(case) + subcase_concat_str + str(rel_count))
 
     df[case_id_key] = res
 
-- 
2.43.0


From 1b90d6bc465d14b82b25ad073e64533756a9d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 058/276] fix: the sub-cases of the between filter on event
 logs have their own identifier

---
 pm4py/algo/filtering/log/between/between_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/algo/filtering/log/between/between_filter.py b/pm4py/algo/filtering/log/between/between_filter.py
index 046a6ae..15c59a4 100644
--- a/pm4py/algo/filtering/log/between/between_filter.py
+++ b/pm4py/algo/filtering/log/between/between_filter.py
@@ -67,6 +67,9 @@ def apply(log: EventLog, act1: Union[str, List[str]], act2: Union[str, List[str]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes_constants.DEFAULT_TRACEID_KEY)
+    # the case identifier could be given as the column of a dataframe (case:concept:name)
+    if case_id_key.startswith(constants.CASE_ATTRIBUTE_PREFIX):
+        case_id_key = case_id_key[len(constants.CASE_ATTRIBUTE_PREFIX):]
     subcase_concat_str = exec_utils.get_param_value(Parameters.SUBCASE_CONCAT_STR, parameters, "##@@")
 
     act1_comparison = lambda x: (x == act1) if type(act1) is str else (x in act1)
-- 
2.43.0


From e0eaff838fd3d04a02c60055ba8d14bcb632e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 059/276] fix: the rework of the cases of a dataframe uses the
 given case identifier

---
 pm4py/statistics/rework/cases/pandas/get.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/rework/cases/pandas/get.py b/pm4py/statistics/rework/cases/pandas/get.py
index 01bee63..c19acce 100644
--- a/pm4py/statistics/rework/cases/pandas/get.py
+++ b/pm4py/statistics/rework/cases/pandas/get.py
@@ -57,6 +57,6 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     grouped_df = df.groupby(case_id_key)[activity_key].agg(["count", "nunique"]).reset_index().to_dict("records")
     rework_cases = {}
     for el in grouped_df:
-        rework_cases[el["case:concept:name"]] = {"number_activities": el["count"], "rework": el["count"] - el["nunique"]}
+        rework_cases[el[case_id_key]] = {"number_activities": el["count"], "rework": el["count"] - el["nunique"]}
 
     return rework_cases
-- 
2.43.0


From 2bb72ad5575db8f79b1609a4d1a184c66b0cf5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 060/276] fix: trace attribute values of a dataframe count
 cases

---
 pm4py/statistics/attributes/pandas/get.py | 2 +-
 pm4py/stats.py                            | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/statistics/attributes/pandas/get.py b/pm4py/statistics/attributes/pandas/get.py
index 5b15e41..57ceefd 100644
--- a/pm4py/statistics/attributes/pandas/get.py
+++ b/pm4py/statistics/attributes/pandas/get.py
@@ -154,7 +154,7 @@ def get_attribute_values(df: pd.DataFrame, attribute_key: str, parameters: Optio
     keep_once_per_case = exec_utils.get_param_value(Parameters.KEEP_ONCE_PER_CASE, parameters, False)
 
     if keep_once_per_case:
-        df = df.groupby([case_id_glue, attribute_key]).first().reset_index()
+        df = df[list(dict.fromkeys([case_id_glue, attribute_key]))].drop_duplicates()
     attributes_values_dict = df[attribute_key].value_counts().to_dict()
     # print("attributes_values_dict=",attributes_values_dict)
     return attributes_values_dict
diff --git a/pm4py/stats.py b/pm4py/stats.py
index 940b5e0..0e23f60 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -193,6 +193,8 @@ def get_trace_attribute_values(log: Union[EventLog, pd.DataFrame], attribute: st
         if attribute not in log and constants.CASE_ATTRIBUTE_PREFIX + attribute in log:
             # if "attribute" does not exist as column, but "case:attribute" exists, then use that
             attribute = constants.CASE_ATTRIBUTE_PREFIX + attribute
+        # as on event logs, every case counts once
+        parameters["keep_once_per_case"] = True
         ret = get.get_attribute_values(log, attribute, parameters=parameters)
         return ret
     else:
-- 
2.43.0


From 948f12f58d5c5e4956c6e8e8b0445369b94ea0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 061/276] fix: timestamps of any resolution are converted to
 seconds

---
 .../algo/discovery/performance_spectrum/variants/dataframe.py | 2 +-
 .../performance_spectrum/variants/dataframe_disconnected.py   | 2 +-
 pm4py/statistics/traces/generic/pandas/case_statistics.py     | 4 ++--
 pm4py/util/pandas_utils.py                                    | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py b/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
index 2e34419..78b6a57 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
     dataframe = pandas_utils.insert_index(dataframe, constants.DEFAULT_EVENT_INDEX_KEY)
     if sort_log_required:
         dataframe = dataframe.sort_values([case_id_glue, timestamp_key, constants.DEFAULT_EVENT_INDEX_KEY])
-    dataframe[timestamp_key] = dataframe[timestamp_key].astype(np.int64) / 10 ** 9
+    dataframe[timestamp_key] = pandas_utils.convert_to_seconds(dataframe[timestamp_key])
 
     def key(k, n):
         return k + str(n)
diff --git a/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py b/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
index 5fadae3..ef7132e 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
@@ -75,7 +75,7 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
     dataframe = pandas_utils.insert_index(dataframe, constants.DEFAULT_EVENT_INDEX_KEY)
     if sort_log_required:
         dataframe = dataframe.sort_values([case_id_glue, timestamp_key, constants.DEFAULT_EVENT_INDEX_KEY])
-    dataframe[timestamp_key] = dataframe[timestamp_key].astype(np.int64) / 10 ** 9
+    dataframe[timestamp_key] = pandas_utils.convert_to_seconds(dataframe[timestamp_key])
 
     all_patterns = [(len(list_activities) - i, gen_patterns(list_activities, len(list_activities) - i)) for i in
                     range(len(list_activities) - 1)]
diff --git a/pm4py/statistics/traces/generic/pandas/case_statistics.py b/pm4py/statistics/traces/generic/pandas/case_statistics.py
index 79536ca..d2fae79 100644
--- a/pm4py/statistics/traces/generic/pandas/case_statistics.py
+++ b/pm4py/statistics/traces/generic/pandas/case_statistics.py
@@ -191,8 +191,8 @@ def get_cases_description(df: pd.DataFrame, parameters: Optional[Dict[Union[str,
         stacked_df['caseDuration'] = stacked_df[timestamp_key + "_2"] - stacked_df[start_timestamp_key]
         stacked_df['caseDuration'] = pandas_utils.get_total_seconds(stacked_df['caseDuration'])
 
-    stacked_df[timestamp_key + "_2"] = stacked_df[timestamp_key + "_2"].astype('int64') // 10 ** 9
-    stacked_df[start_timestamp_key] = stacked_df[start_timestamp_key].astype('int64') // 10 ** 9
+    stacked_df[timestamp_key + "_2"] = [int(x // 1) for x in pandas_utils.convert_to_seconds(stacked_df[timestamp_key + "_2"])]
+    stacked_df[start_timestamp_key] = [int(x // 1) for x in pandas_utils.convert_to_seconds(stacked_df[start_timestamp_key])]
     stacked_df = stacked_df.rename(columns={start_timestamp_key: 'startTime', timestamp_key + "_2": 'endTime'})
     if enable_sort:
         stacked_df = stacked_df.sort_values(sort_by_column, ascending=sort_ascending)
diff --git a/pm4py/util/pandas_utils.py b/pm4py/util/pandas_utils.py
index 634f9b9..0f12f1e 100644
--- a/pm4py/util/pandas_utils.py
+++ b/pm4py/util/pandas_utils.py
@@ -310,7 +310,8 @@ def get_total_seconds(difference):
 def convert_to_seconds(dt_column):
     try:
         # Pandas
-        return dt_column.values.astype(np.int64) / 10**9
+        # the resolution of the column may differ from the nanoseconds
+        return dt_column.values.astype('datetime64[ns]').astype(np.int64) / 10**9
     except:
         # CUDF
         return [x/10**9 for x in dt_column.to_numpy().tolist()]
-- 
2.43.0


From b0e39f8f674d6fbb7913a5d8769b47354862cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 062/276] fix: the overlap of the events of a dataframe uses
 the given epsilon

---
 pm4py/statistics/overlap/interval_events/pandas/get.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/overlap/interval_events/pandas/get.py b/pm4py/statistics/overlap/interval_events/pandas/get.py
index 80aa747..df06fc3 100644
--- a/pm4py/statistics/overlap/interval_events/pandas/get.py
+++ b/pm4py/statistics/overlap/interval_events/pandas/get.py
@@ -61,4 +61,4 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     for event in df:
         points.append((event[start_timestamp_key].timestamp(), event[timestamp_key].timestamp()))
 
-    return compute.apply(points)
+    return compute.apply(points, parameters=parameters)
-- 
2.43.0


From 7b92c24b41c3af0b991ae9c9f97b4a7bd2e90179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 063/276] fix: the memory-efficient Dijkstra alignments close
 exact states only

---
 .../petri_net/variants/dijkstra_less_memory.py         | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index c457ab3..0a76c37 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -476,9 +476,7 @@ def __check_closed(closed, ns):
     bool
         Boolean (true if the state is closed)
     """
-    if ns[0] in closed and closed[ns[0]] <= ns[1]:
-        return True
-    return False
+    return ns in closed
 
 
 def __add_closed(closed, ns):
@@ -492,7 +490,7 @@ def __add_closed(closed, ns):
     ns
         New state (marking, index)
     """
-    closed[ns[0]] = ns[1]
+    closed.add(ns)
 
 
 def __add_to_open_set(open_set, ns):
@@ -593,7 +591,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
     open_set = [initial_state]
     heapq.heapify(open_set)
 
-    closed = {}
+    closed = set()
     dummy_count = 0
     visited = 0
 
@@ -640,8 +638,6 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
-                # if a sync move reached new_m, do not schedule any model move that reaches new_m
-                this_closed.add(new_m)
                 del en_t[j]
                 continue
             j = j + 1
-- 
2.43.0


From 5ce50c06bea363d718a1449dedd97b4d9da2576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 064/276] fix: the fitness of the memory-efficient Dijkstra
 alignments counts the trace

---
 .../alignments/petri_net/variants/dijkstra_less_memory.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index 0a76c37..75bef43 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -338,6 +338,9 @@ def apply(trace: Trace, net: PetriNet, im: Marking, fm: Marking, parameters: Opt
     if parameters is None:
         parameters = {}
 
+    if exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None) is None:
+        parameters[Parameters.PARAM_TRACE_COST_FUNCTION] = [align_utils.STD_MODEL_LOG_MOVE_COST] * len(trace)
+
     model_struct = __transform_model_to_mem_efficient_structure(net, im, fm, trace, parameters=parameters)
     trace_struct = __transform_trace_to_mem_efficient_structure(trace, model_struct, parameters=parameters)
 
-- 
2.43.0


From c06c6017cf88ba41f3702e671809c2d8e66d9af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 065/276] fix: an empty trace aligned without deviations has
 fitness 1

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 43cb8a9..8a4ca99 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -158,7 +158,11 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
 
             fitness_num = ali['cost'] // align_utils.STD_MODEL_LOG_MOVE_COST
             fitness_den = ltrace_bwc // align_utils.STD_MODEL_LOG_MOVE_COST
-            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else 0
+            if fitness_den > 0:
+                fitness = 1 - fitness_num / fitness_den
+            else:
+                # nothing could deviate (empty trace on a model that can be skipped)
+                fitness = 1 if fitness_num == 0 else 0
 
             ali["fitness"] = fitness
             # returning also the best worst cost, for log fitness computation
-- 
2.43.0


From 7dc8324d5ff014e2388ea7f4373740e6c337cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 066/276] fix: aligning a log does not alter the given
 parameters

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 8a4ca99..f8ffa63 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -199,6 +199,7 @@ def apply_log(log, petri_net, initial_marking, final_marking, parameters=None, v
     """
     if parameters is None:
         parameters = dict()
+    parameters = copy(parameters)
 
     if solver.DEFAULT_LP_SOLVER_VARIANT is not None:
         if not check_soundness.check_easy_soundness_net_in_fin_marking(petri_net, initial_marking, final_marking):
@@ -260,6 +261,7 @@ def apply_multiprocessing(log, petri_net, initial_marking, final_marking, parame
     """
     if parameters is None:
         parameters = {}
+    parameters = copy(parameters)
 
     import multiprocessing
 
-- 
2.43.0


From 706b70c04ede5f28ff53221e250fe3946267e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 067/276] fix: the discounted alignments work with
 multiprocessing

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index f8ffa63..af275ec 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -75,6 +75,8 @@ def __variant_mapper(variant):
             variant = Variants.VERSION_DIJKSTRA_NO_HEURISTICS
         elif variant == "Variants.VERSION_DIJKSTRA_LESS_MEMORY":
             variant = Variants.VERSION_DIJKSTRA_LESS_MEMORY
+        elif variant == "Variants.VERSION_DISCOUNTED_A_STAR":
+            variant = Variants.VERSION_DISCOUNTED_A_STAR
 
     return variant
 
-- 
2.43.0


From 4ca652010a4ba6e9ecb6d5e4beec700a08147898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 068/276] fix: the synchronous product keeps the weights of the
 arcs

---
 .../petri_net/utils/synchronous_product.py    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/synchronous_product.py b/pm4py/objects/petri_net/utils/synchronous_product.py
index 67d3a6f..7de7385 100644
--- a/pm4py/objects/petri_net/utils/synchronous_product.py
+++ b/pm4py/objects/petri_net/utils/synchronous_product.py
@@ -51,13 +51,13 @@ def construct(pn1, im1, fm1, pn2, im2, fm2, skip):
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -119,13 +119,13 @@ def construct_cost_aware(pn1, im1, fm1, pn2, im2, fm2, skip, pn1_costs, pn2_cost
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -166,8 +166,8 @@ def __copy_into(source_net, target_net, upper, skip):
 
     for t in source_net.transitions:
         for a in t.in_arcs:
-            add_arc_from_to(p_map[a.source], t_map[t], target_net)
+            add_arc_from_to(p_map[a.source], t_map[t], target_net, weight=a.weight)
         for a in t.out_arcs:
-            add_arc_from_to(t_map[t], p_map[a.target], target_net)
+            add_arc_from_to(t_map[t], p_map[a.target], target_net, weight=a.weight)
 
     return t_map, p_map
-- 
2.43.0


From ee368c841bbd0d0cafe8f6e3341a272796fd4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 069/276] fix: the incidence and consumption matrices of a
 Petri net count the weights of the arcs

---
 pm4py/objects/petri_net/utils/consumption_matrix.py | 4 ++--
 pm4py/objects/petri_net/utils/incidence_matrix.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/consumption_matrix.py b/pm4py/objects/petri_net/utils/consumption_matrix.py
index 98386d3..517c11f 100644
--- a/pm4py/objects/petri_net/utils/consumption_matrix.py
+++ b/pm4py/objects/petri_net/utils/consumption_matrix.py
@@ -64,8 +64,8 @@ class ConsumptionMatrix(object):
         inv_indices = [inv_indices[i] for i in range(len(inv_indices))]
         self.__C = [[0 for i in range(len(self.__transition_indices))] for j in range(len(self.__place_indices))]
         for p in net.places:
-            outgoing_trans = [a.target for a in p.out_arcs]
-            self.__C[self.__place_indices[p]] = [-1 if inv_indices[i] in outgoing_trans else 0 for i in
+            outgoing_trans = {a.target: a.weight for a in p.out_arcs}
+            self.__C[self.__place_indices[p]] = [-outgoing_trans.get(inv_indices[i], 0) for i in
                                                  range(len(inv_indices))]
 
     def __get_transition_indices(self) -> Dict[PetriNet.Transition, int]:
diff --git a/pm4py/objects/petri_net/utils/incidence_matrix.py b/pm4py/objects/petri_net/utils/incidence_matrix.py
index 746950e..a804b4f 100644
--- a/pm4py/objects/petri_net/utils/incidence_matrix.py
+++ b/pm4py/objects/petri_net/utils/incidence_matrix.py
@@ -47,9 +47,9 @@ class IncidenceMatrix(object):
         a_matrix = [[0 for i in range(len(t_index))] for j in range(len(p_index))]
         for p in net.places:
             for a in p.in_arcs:
-                a_matrix[p_index[p]][t_index[a.source]] += 1
+                a_matrix[p_index[p]][t_index[a.source]] += a.weight
             for a in p.out_arcs:
-                a_matrix[p_index[p]][t_index[a.target]] -= 1
+                a_matrix[p_index[p]][t_index[a.target]] -= a.weight
         return a_matrix, p_index, t_index
 
     a_matrix = property(__get_a_matrix)
-- 
2.43.0


From 2f1981f7c7f511229a303f9a572854898f9792bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 070/276] fix: the tweaked A* alignments reach the final
 marking with minimal cost

---
 .../variants/tweaked_state_equation_a_star.py | 44 +++++++++++++++----
 pm4py/objects/petri_net/utils/align_utils.py  |  9 ++--
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index d9c2804..de1ce10 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -30,6 +30,7 @@ from pm4py.objects.petri_net import semantics
 from pm4py.objects.petri_net.utils.petri_utils import construct_trace_net_cost_aware, decorate_places_preset_trans, \
     decorate_transitions_prepostset
 from pm4py.util import exec_utils
+from pm4py.util.lp import solver as lp_solver
 from pm4py.util.constants import PARAMETER_CONSTANT_ACTIVITY_KEY
 from pm4py.util.xes_constants import DEFAULT_NAME_KEY
 from pm4py.objects.petri_net import properties
@@ -403,13 +404,14 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
     queued = 0
     traversed = 0
     me = marking_equation.build(sync_net, ini, fin, parameters=parameters)
-    h, x = me.solve()
+    h, x = __solve_marking_equation(me)
     lp_solved = 1
 
     # try to see if the firing sequence is already fine
     firing_sequence, reach_fm, explained_events = me.get_firing_sequence(x)
-    if reach_fm:
-        return __reconstruct_alignment(firing_sequence, h, visited, queued, traversed,
+    if reach_fm and __get_cost(firing_sequence, cost_function) <= h:
+        # the firing sequence has the cost of the lower bound, so it is optimal
+        return __reconstruct_alignment(firing_sequence, __get_cost(firing_sequence, cost_function), visited, queued, traversed,
                                        ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
     mm, index = __get_model_marking_and_index(ini)
     __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, h, x, firing_sequence, incidence_matrix, cost_vec)
@@ -461,7 +463,7 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
                 continue
 
             me.change_ini_vec(curr.m)
-            h, x = me.solve()
+            h, x = __solve_marking_equation(me)
 
             __update_heu_dict_specific_point(heu_dict, heu_max_ind_dict, mm, index, h, x)
 
@@ -470,24 +472,30 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             curr = heapq.heappushpop(open_set, tp)
             current_marking = curr.m
 
+        if curr.h > lp_solver.MAX_ALLOWED_HEURISTICS:
+            # the final marking cannot be reached from the current marking
+            continue
+
         already_closed = current_marking in closed
         if already_closed:
             continue
         if curr.h < 0.01:
             if current_marking == fin:
                 trans_list = __transitions_list_from_state(curr)
-                return __reconstruct_alignment(trans_list, curr.f, visited, queued, traversed,
+                return __reconstruct_alignment(trans_list, __get_cost(trans_list, cost_function), visited, queued, traversed,
                                                ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
 
         if curr.virgin:
             # try to see if the firing sequence is already fine
+            # (the last marking for which the equation was solved could be different from the current one)
+            me.change_ini_vec(current_marking)
             firing_sequence, reach_fm, explained_events = me.get_firing_sequence(curr.x)
-            if reach_fm:
+            if reach_fm and __get_cost(firing_sequence, cost_function) <= curr.h:
                 trans_list = __transitions_list_from_state(curr) + list(firing_sequence)
-                return __reconstruct_alignment(trans_list, curr.f, visited, queued, traversed,
+                return __reconstruct_alignment(trans_list, __get_cost(trans_list, cost_function), visited, queued, traversed,
                                                ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
             mm, index = __get_model_marking_and_index(curr.m)
-            __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, h, x, firing_sequence, incidence_matrix, cost_vec)
+            __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, curr.h, curr.x, firing_sequence, incidence_matrix, cost_vec)
 
         closed.add(current_marking)
         visited += 1
@@ -528,6 +536,24 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             heapq.heappush(open_set, tp)
 
 
+def __get_cost(trans_list, cost_function):
+    """
+    Gets the cost of a sequence of transitions of the synchronous product net
+    """
+    return sum(cost_function[t] for t in trans_list)
+
+
+def __solve_marking_equation(mark_eq):
+    """
+    Solves the marking equation. When no solution exists (the final marking cannot be reached),
+    the maximum heuristics is returned
+    """
+    h, x = mark_eq.solve()
+    if h is None:
+        return sys.maxsize, [0] * len(mark_eq.c)
+    return h, x
+
+
 def __min_total_cost_given_trans(mark_eq, ini, incidence_matrix, t):
     """
     Searches the minimum total cost assumed by the marking equation
@@ -559,7 +585,7 @@ def __min_total_cost_given_trans(mark_eq, ini, incidence_matrix, t):
     Aub = np.vstack([Aub, Aub_appendix])
     bub = np.vstack([bub, bub_appendix])
     h, x = mark_eq.solve_given_components(c, Aub, bub, Aeq, beq)
-    return h
+    return h if h is not None else sys.maxsize
 
 
 def __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, h, x, firing_sequence, incidence_matrix, cost_vec):
diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index a3a660f..749e4d0 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -83,16 +83,15 @@ def search_path_among_sol(sync_net: PetriNet, ini: Marking, fin: Marking,
         marking = curr[2]
         if marking in closed:
             continue
-        if index == len_trace_with_index:
+        if index == len_trace_with_index and marking == fin:
             reach_fm = True
-            if curr[0] < best_tuple[0]:
-                best_tuple = curr
+            best_tuple = curr
             break
         if curr[0] < best_tuple[0]:
             best_tuple = curr
         closed.add(marking)
-        corr_trans = trans_with_index[index]
-        if corr_trans.sub_marking <= marking:
+        corr_trans = trans_with_index[index] if index < len_trace_with_index else None
+        if corr_trans is not None and corr_trans.sub_marking <= marking:
             visited += 1
             new_marking = semantics.weak_execute(corr_trans, marking)
             heapq.heappush(open_set, (-index-1, visited, new_marking, curr[3]+[corr_trans]))
-- 
2.43.0


From b90aa6651268d3473fd512aea283444b113bd4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:22 +0000
Subject: [PATCH 071/276] fix: the memory-efficient Dijkstra considers model
 moves of transitions that could be synchronous

---
 .../petri_net/variants/dijkstra_less_memory.py        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index 75bef43..cb6f3a1 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -570,6 +570,11 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
     trans_labels_dict = model_struct[TRANS_LABELS_DICT]
     transf_model_cost_function = model_struct[TRANSF_MODEL_COST_FUNCTION]
 
+    # maximum cost of a model move for each label
+    max_label_cost = {}
+    for t, l in trans_labels_dict.items():
+        max_label_cost[l] = max(max_label_cost.get(l, 0), transf_model_cost_function[t])
+
     transf_trace = trace_struct[TRANSF_TRACE]
     trace_cost_function = trace_struct[TRACE_COST_FUNCTION]
 
@@ -641,8 +646,10 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
-                del en_t[j]
-                continue
+                # the model move can be skipped, unless a cheaper model move with the same label could be saved by it
+                if transf_model_cost_function[t] >= max_label_cost[trans_labels_dict[t]]:
+                    del en_t[j]
+                    continue
             j = j + 1
         en_t.sort(key=lambda t: transf_model_cost_function[t])
         j = 0
-- 
2.43.0


From 57d9db9deea76680acc0c923f8cf6c319bd36012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 072/276] fix: marking equation heuristics from the objective,
 not from rounded points

---
 pm4py/algo/analysis/marking_equation/variants/classic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/analysis/marking_equation/variants/classic.py b/pm4py/algo/analysis/marking_equation/variants/classic.py
index 4c9de98..9973cff 100644
--- a/pm4py/algo/analysis/marking_equation/variants/classic.py
+++ b/pm4py/algo/analysis/marking_equation/variants/classic.py
@@ -254,7 +254,8 @@ class MarkingEquationSolver(object):
         if sol_points is not None:
             x = self.get_x_vector(sol_points)
             x = [int(y) for y in x]
-            h = self.get_h(sol_points)
+            # the points could have been rounded, so the value of the objective is taken from the solution
+            h = int(solver.get_prim_obj_from_sol(sol, variant=solver.DEFAULT_LP_SOLVER_VARIANT))
             return h, x
         return None, None
 
-- 
2.43.0


From 9e5f6615c353f1832c97eb6c154934fece0c75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 073/276] fix: visible transitions eventually enabled by a
 marking: explore every marking

---
 pm4py/objects/petri_net/utils/align_utils.py | 49 ++++++++++----------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index 749e4d0..081bdaf 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -436,34 +436,35 @@ def get_visible_transitions_eventually_enabled_by_marking(net, marking):
     marking
         Current marking
     """
-    all_enabled_transitions = sorted(list(semantics.enabled_transitions(net, marking)),
-                                     key=lambda x: (str(x.name), id(x)))
-    initial_all_enabled_transitions_marking_dictio = {}
-    all_enabled_transitions_marking_dictio = {}
-    for trans in all_enabled_transitions:
-        all_enabled_transitions_marking_dictio[trans] = marking
-        initial_all_enabled_transitions_marking_dictio[trans] = marking
-    visible_transitions = set()
-    visited_transitions = set()
-
-    i = 0
-    while i < len(all_enabled_transitions):
-        t = all_enabled_transitions[i]
-        marking_copy = copy(all_enabled_transitions_marking_dictio[t])
+    # visible transitions which could be enabled if tokens were never consumed (no other one can be eventually enabled)
+    reached_places = set(marking)
+    candidates = set()
+    remaining = set(net.transitions)
+    while True:
+        reached = set(t for t in remaining if all(a.source in reached_places for a in t.in_arcs))
+        if not reached:
+            break
+        remaining.difference_update(reached)
+        for t in reached:
+            if t.label is not None:
+                candidates.add(t)
+            else:
+                reached_places.update(a.target for a in t.out_arcs)
 
-        if repr([t, marking_copy]) not in visited_transitions:
+    # explore the markings reachable through hidden transitions (depth-first, stopping when nothing else can be found)
+    visible_transitions = set()
+    visited_markings = {marking}
+    stack = [marking]
+    while stack and len(visible_transitions) < len(candidates):
+        curr_marking = stack.pop()
+        for t in sorted(list(semantics.enabled_transitions(net, curr_marking)), key=lambda x: (str(x.name), id(x))):
             if t.label is not None:
                 visible_transitions.add(t)
             else:
-                if semantics.is_enabled(t, net, marking_copy):
-                    new_marking = semantics.execute(t, net, marking_copy)
-                    new_enabled_transitions = sorted(list(semantics.enabled_transitions(net, new_marking)),
-                                                     key=lambda x: (str(x.name), id(x)))
-                    for t2 in new_enabled_transitions:
-                        all_enabled_transitions.append(t2)
-                        all_enabled_transitions_marking_dictio[t2] = new_marking
-            visited_transitions.add(repr([t, marking_copy]))
-        i = i + 1
+                new_marking = semantics.execute(t, net, curr_marking)
+                if new_marking not in visited_markings:
+                    visited_markings.add(new_marking)
+                    stack.append(new_marking)
 
     return visible_transitions
 
-- 
2.43.0


From 3f584b5e653dd6ec0436a0cde0e2a2fc242c61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 074/276] fix: add_missing_tokens adds only the missing tokens
 on weighted arcs

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 9fac2b7..0cd102c 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -93,7 +93,7 @@ def add_missing_tokens(t, marking):
         if marking[a.source] < a.weight:
             missing = missing + (a.weight - marking[a.source])
             tokens_added[a.source] = a.weight - marking[a.source]
-            marking[a.source] = marking[a.source] + a.weight
+            marking[a.source] = a.weight
     return [missing, tokens_added]
 
 
-- 
2.43.0


From 1fe7869a8cd872d1c3d7840d2fce12de26f898a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 075/276] fix: activities not in the model make only their own
 trace unfit

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 0cd102c..b3062ba 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -448,6 +448,8 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
     produced = sum_tokens_im
     current_event_map = {}
     current_remaining_map = {}
+    # says if the trace contains activities that are not in the model
+    has_not_existing_activities = False
     for i in range(len(trace)):
         if enable_postfix_cache and (str(trace_activities) in post_fix_caching.cache and
                                      hash(marking) in post_fix_caching.cache[str(trace_activities)]):
@@ -565,6 +567,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                                                                                             place_to_delete[0]] + 1
                         pass
                 else:
+                    has_not_existing_activities = True
                     if not trace[i][activity_key] in notexisting_activities_in_model:
                         notexisting_activities_in_model[trace[i][activity_key]] = {}
                     notexisting_activities_in_model[trace[i][activity_key]][trace] = current_event_map
@@ -685,7 +688,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
     else:
         is_fit = (missing == 0)
 
-    if consider_activities_not_in_model_in_fitness and notexisting_activities_in_model:
+    if consider_activities_not_in_model_in_fitness and has_not_existing_activities:
         is_fit = False
 
     # separate global counts from local statistics in the case these are not enabled by the options
-- 
2.43.0


From 1901db9ee9c48024a9e4407e825c22fe1a8eb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 076/276] fix: missing tokens of a place counted for every
 occurrence of the variant

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index b3062ba..f64cc3a 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -526,7 +526,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                             for place in tokens_added.keys():
                                 if place in place_fitness:
                                     place_fitness[place]["underfed_traces"].add(trace)
-                                place_fitness[place]["m"] += tokens_added[place]
+                                place_fitness[place]["m"] += tokens_added[place] * trace_occurrences
                             if trace not in transition_fitness[t]["underfed_traces"]:
                                 transition_fitness[t]["underfed_traces"][trace] = list()
                             transition_fitness[t]["underfed_traces"][trace].append(current_event_map)
-- 
2.43.0


From 07817bc926571a7cd902eeac0bfd9eecad20668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 077/276] fix: a trace which does not put all the tokens of the
 final marking is not fit

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index f64cc3a..0099492 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -684,7 +684,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
         remaining = remaining + current_remaining_map[p]
 
     if consider_remaining_in_fitness:
-        is_fit = (missing == 0) and (remaining == 0)
+        is_fit = (missing == 0) and (remaining == 0) and not diff_fin_mark_mark
     else:
         is_fit = (missing == 0)
 
-- 
2.43.0


From defed83539f26dcef9477f3bb252e07eaf1de26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 078/276] fix: token flood cleaning counts all the deleted
 tokens

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 0099492..105ef16 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -560,11 +560,12 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                                     if p1 in comp and p2 in comp:
                                         place_to_delete = [place for place in list(marking.keys()) if place.name == p1]
                                         if len(place_to_delete) == 1:
+                                            deleted_tokens = marking[place_to_delete[0]]
                                             del marking[place_to_delete[0]]
                                             if not place_to_delete[0] in current_remaining_map:
                                                 current_remaining_map[place_to_delete[0]] = 0
                                             current_remaining_map[place_to_delete[0]] = current_remaining_map[
-                                                                                            place_to_delete[0]] + 1
+                                                                                            place_to_delete[0]] + deleted_tokens
                         pass
                 else:
                     has_not_existing_activities = True
-- 
2.43.0


From eb89fb85fa4457220f3e658fab7dc13a6569c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 079/276] fix: backwards replay fires one of the transitions
 with the same label

---
 pm4py/algo/conformance/tokenreplay/variants/backwards.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/backwards.py b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
index 84fe0dc..b8b224b 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/backwards.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
@@ -216,7 +216,7 @@ def tr_vlist(vlist, net, im, fm, tmap, bmap, parameters=None):
                     m, tokens_counter = execute_tr(m, t, tokens_counter)
                     visited_transitions.append(t)
                     rep_ok = True
-                    continue
+                    break
                 elif len(tmap[act]) == 1:
                     back_res = explore_backwards([(get_bmap(net, t.in_marking, bmap), copy(t.in_marking), list())],
                                                  set(), net, m, bmap)
@@ -254,7 +254,7 @@ def tr_vlist(vlist, net, im, fm, tmap, bmap, parameters=None):
                 tokens_counter["missing"] += diff2[p]
 
     for p in fm:
-        tokens_counter["consumed"] += m[p]
+        tokens_counter["consumed"] += fm[p]
 
     trace_fitness = 0.5 * (1.0 - float(tokens_counter["missing"]) / float(tokens_counter["consumed"])) + 0.5 * (
             1.0 - float(tokens_counter["remaining"]) / float(tokens_counter["produced"]))
-- 
2.43.0


From f3aef374c8472161dd6bdd5bcb677379bbda56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 080/276] fix: inductive miner accepts variants

---
 pm4py/algo/discovery/inductive/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/algorithm.py b/pm4py/algo/discovery/inductive/algorithm.py
index 71f1c61..e6fbf37 100644
--- a/pm4py/algo/discovery/inductive/algorithm.py
+++ b/pm4py/algo/discovery/inductive/algorithm.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from collections import Counter
 from enum import Enum
 from typing import Optional, Dict, Any, Union
 
@@ -67,7 +68,7 @@ def apply(obj: Union[EventLog, pd.DataFrame, DFG, UVCL], parameters: Optional[Di
         idfg = InductiveDFG(dfg=obj, skip=False)
         process_tree = imd.apply(IMDataStructureDFG(idfg), parameters)
     else:
-        if type(obj) in [UVCL]:
+        if isinstance(obj, Counter):
             uvcl = obj
         else:
             uvcl = comut.get_variants(comut.project_univariate(obj, key=ack, df_glue=cidk, df_sorting_criterion_key=tk))
-- 
2.43.0


From f9e5e310eac6f24f4e2be087d0d59755393ab740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 081/276] fix: directly-follows inductive miner honours
 skippable parts with a single activity or a cut

---
 pm4py/algo/discovery/inductive/variants/imd.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pm4py/algo/discovery/inductive/variants/imd.py b/pm4py/algo/discovery/inductive/variants/imd.py
index b6240fe..4aedc4a 100644
--- a/pm4py/algo/discovery/inductive/variants/imd.py
+++ b/pm4py/algo/discovery/inductive/variants/imd.py
@@ -14,12 +14,22 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from typing import Dict, Any, Optional
+
 from pm4py.algo.discovery.inductive.dtypes.im_ds import IMDataStructureDFG
+from pm4py.algo.discovery.inductive.fall_through.empty_traces import EmptyTracesDFG
 from pm4py.algo.discovery.inductive.variants.abc import InductiveMinerFramework
 from pm4py.algo.discovery.inductive.variants.instances import IMInstance
+from pm4py.objects.process_tree.obj import ProcessTree
 
 
 class IMD(InductiveMinerFramework[IMDataStructureDFG]):
 
+    def apply(self, obj: IMDataStructureDFG, parameters: Optional[Dict[str, Any]] = None) -> ProcessTree:
+        empty_traces = EmptyTracesDFG.apply(obj, parameters=parameters)
+        if empty_traces is not None:
+            return self._recurse(empty_traces[0], empty_traces[1], parameters)
+        return super().apply(obj, parameters)
+
     def instance(self) -> IMInstance:
         return IMInstance.IMd
-- 
2.43.0


From b893eae0597efb57b5dc4e3d0f98a413ef0d6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 082/276] fix: sequence cut on graphs marks the groups jumped
 over as skippable

---
 pm4py/algo/discovery/inductive/cuts/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/sequence.py b/pm4py/algo/discovery/inductive/cuts/sequence.py
index 808b86b..054e39a 100644
--- a/pm4py/algo/discovery/inductive/cuts/sequence.py
+++ b/pm4py/algo/discovery/inductive/cuts/sequence.py
@@ -286,7 +286,7 @@ class SequenceCutDFG(SequenceCut[IMDataStructureDFG]):
             z = activities_idx[b]
             j = activities_idx[a] + 1
             while j < z:
-                skippable[j] = False
+                skippable[j] = True
                 j = j + 1
 
         return [IMDataStructureDFG(InductiveDFG(dfg=dfgs[i], skip=skippable[i])) for i in range(len(dfgs))]
-- 
2.43.0


From ea346aaa59658948665498fe58450feec7c9c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 083/276] fix: sequence cut on graphs considers arcs from/to
 all groups

---
 .../algo/discovery/inductive/cuts/sequence.py | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/sequence.py b/pm4py/algo/discovery/inductive/cuts/sequence.py
index 054e39a..18edf60 100644
--- a/pm4py/algo/discovery/inductive/cuts/sequence.py
+++ b/pm4py/algo/discovery/inductive/cuts/sequence.py
@@ -229,15 +229,19 @@ class SequenceCutDFG(SequenceCut[IMDataStructureDFG]):
         while i < len(groups):
             to_succ_arcs = Counter()
             from_prev_arcs = Counter()
-            if i < len(groups) - 1:
-                for (a, b) in dfg.graph:
-                    if a in groups[i] and b in groups[i + 1]:
-                        to_succ_arcs[a] += dfg.graph[(a, b)]
-
-            if i > 0:
-                for (a, b) in dfg.graph:
-                    if a in groups[i - 1] and b in groups[i]:
-                        from_prev_arcs[b] += dfg.graph[(a, b)]
+            # the groups in between can be skipped, so the arcs from all the previous groups (to all the following groups)
+            # and the start (end) activities of the graph have to be considered
+            for (a, b) in dfg.graph:
+                if activities_idx[a] == i and activities_idx[b] > i:
+                    to_succ_arcs[a] += dfg.graph[(a, b)]
+                if activities_idx[a] < i and activities_idx[b] == i:
+                    from_prev_arcs[b] += dfg.graph[(a, b)]
+            for a in dfg.start_activities:
+                if activities_idx[a] == i:
+                    from_prev_arcs[a] += dfg.start_activities[a]
+            for a in dfg.end_activities:
+                if activities_idx[a] == i:
+                    to_succ_arcs[a] += dfg.end_activities[a]
 
             if i == 0:
                 start_activities.append({})
-- 
2.43.0


From 38759a6579b79e4d0ae1804e4d7b69b46bace3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 084/276] fix: loop cut on graphs supports several redo parts
 with their start/end activities

---
 pm4py/algo/discovery/inductive/cuts/loop.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/loop.py b/pm4py/algo/discovery/inductive/cuts/loop.py
index 6cb178d..7fe9653 100644
--- a/pm4py/algo/discovery/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/inductive/cuts/loop.py
@@ -202,7 +202,7 @@ class LoopCutDFG(LoopCut[IMDataStructureDFG]):
     def project(cls, obj: IMDataStructureUVCL, groups: List[Collection[Any]], parameters: Optional[Dict[str, Any]] = None) -> List[IMDataStructureDFG]:
         dfg = obj.dfg
         dfgs = []
-        skippable = [False, False]
+        skippable = [False] * len(groups)
         for gind, g in enumerate(groups):
             dfn = DFG()
             for (a, b) in dfg.graph:
@@ -221,9 +221,11 @@ class LoopCutDFG(LoopCut[IMDataStructureDFG]):
                         dfn.end_activities[a] = dfg.end_activities[a]
                     else:
                         skippable[1] = True
-            elif gind == 1:
-                for a in g:
-                    dfn.start_activities[a] = 1
-                    dfn.end_activities[a] = 1
+            else:
+                for (a, b) in dfg.graph:
+                    if a in dfg.end_activities and b in g:
+                        dfn.start_activities[b] += dfg.graph[(a, b)]
+                    if a in g and b in dfg.start_activities:
+                        dfn.end_activities[a] += dfg.graph[(a, b)]
             dfgs.append(dfn)
         return [IMDataStructureDFG(InductiveDFG(dfg=dfgs[i], skip=skippable[i])) for i in range(len(dfgs))]
-- 
2.43.0


From dbe5d98973bc40c0446bf5bf0675956a85e552b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 085/276] fix: concurrency cut sums the frequencies of the
 projected variants

---
 pm4py/algo/discovery/inductive/cuts/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/concurrency.py b/pm4py/algo/discovery/inductive/cuts/concurrency.py
index 09f5d53..ba9a437 100644
--- a/pm4py/algo/discovery/inductive/cuts/concurrency.py
+++ b/pm4py/algo/discovery/inductive/cuts/concurrency.py
@@ -92,7 +92,7 @@ class ConcurrencyCutUVCL(ConcurrencyCut[IMDataStructureUVCL]):
         for g in groups:
             c = Counter()
             for t in obj.data_structure:
-                c[tuple(filter(lambda e: e in g, t))] = obj.data_structure[t]
+                c[tuple(filter(lambda e: e in g, t))] += obj.data_structure[t]
             r.append(c)
         return list(map(lambda l: IMDataStructureUVCL(l), r))
 
-- 
2.43.0


From 052d4d23f65a730772fd5684b1e2343ea1635381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 086/276] fix: concurrency cut on graphs keeps activities
 connected only to other groups

---
 pm4py/algo/discovery/inductive/cuts/concurrency.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pm4py/algo/discovery/inductive/cuts/concurrency.py b/pm4py/algo/discovery/inductive/cuts/concurrency.py
index ba9a437..d73d8e5 100644
--- a/pm4py/algo/discovery/inductive/cuts/concurrency.py
+++ b/pm4py/algo/discovery/inductive/cuts/concurrency.py
@@ -114,6 +114,12 @@ class ConcurrencyCutDFG(ConcurrencyCut[IMDataStructureDFG]):
             for (a, b) in obj.dfg.graph:
                 if a in g and b in g:
                     dfn.graph[(a, b)] = obj.dfg.graph[(a, b)]
+            # activities which are preceded (followed) only by activities of the other groups can start (end) the group
+            for a in g:
+                if a not in dfn.start_activities and all(y != a for (x, y) in dfn.graph):
+                    dfn.start_activities[a] = 1
+                if a not in dfn.end_activities and all(x != a for (x, y) in dfn.graph):
+                    dfn.end_activities[a] = 1
             skippable.append(False)
             dfgs.append(dfn)
         r = list()
-- 
2.43.0


From 2608cc66d93ee7059bae1daa0fe99efb9490ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 087/276] fix: alpha+ adds the loops of length one to the
 discovered place

---
 pm4py/algo/discovery/alpha/variants/plus.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 1980c30..38fe21e 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -457,8 +457,7 @@ def postprocessing(net: PetriNet, initial_marking: Marking, final_marking: Marki
                 in_part = pair_try[0]
                 out_part = pair_try[1]
                 if pair[0].issubset(in_part) and pair[1].issubset(out_part):
-                    pair_try_place = PetriNet.Place(str(pair_try))
-                    net.places.add(pair_try_place)
+                    pair_try_place = [p for p in net.places if p.name == str(pair_try)][0]
                     add_arc_from_to(label_transition_dict[key], pair_try_place, net)
                     add_arc_from_to(pair_try_place, label_transition_dict[key], net)
     return net, initial_marking, final_marking
-- 
2.43.0


From 80e50ed1e45aaeec464a0b5367a3225875310ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 088/276] fix: loop cut on graphs: redo part skippable only if
 every end activity is followed by every start activity

---
 pm4py/algo/discovery/inductive/cuts/loop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/loop.py b/pm4py/algo/discovery/inductive/cuts/loop.py
index 7fe9653..0a9a651 100644
--- a/pm4py/algo/discovery/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/inductive/cuts/loop.py
@@ -203,13 +203,15 @@ class LoopCutDFG(LoopCut[IMDataStructureDFG]):
         dfg = obj.dfg
         dfgs = []
         skippable = [False] * len(groups)
+        # the redo part can be skipped when every end activity is followed by every start activity (if only some of them
+        # are, the arcs are part of the do part)
+        if all((a, b) in dfg.graph for a in dfg.end_activities for b in dfg.start_activities):
+            skippable[1] = True
         for gind, g in enumerate(groups):
             dfn = DFG()
             for (a, b) in dfg.graph:
                 if a in g and b in g:
                     dfn.graph[(a, b)] = dfg.graph[(a, b)]
-                if b in dfg.start_activities and a in dfg.end_activities:
-                    skippable[1] = True
             if gind == 0:
                 for a in dfg.start_activities:
                     if a in g:
-- 
2.43.0


From 40b50e013c7587ada0e6fdd4ddc752057266b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 089/276] fix: length-two loops of the heuristics net: input
 edge has the frequency of its own direction

---
 pm4py/algo/discovery/heuristics/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/heuristics/variants/classic.py b/pm4py/algo/discovery/heuristics/variants/classic.py
index abe06cb..9c709bf 100644
--- a/pm4py/algo/discovery/heuristics/variants/classic.py
+++ b/pm4py/algo/discovery/heuristics/variants/classic.py
@@ -511,7 +511,7 @@ def calculate(heu_net, dependency_thresh=defaults.DEFAULT_DEPENDENCY_THRESH,
                         heu_net.nodes[n1].add_output_connection(heu_net.nodes[n2], 0,
                                                                 v_n1_n2, repr_value=repr_value)
                         heu_net.nodes[n2].add_input_connection(heu_net.nodes[n1], 0,
-                                                               v_n2_n1, repr_value=repr_value)
+                                                               v_n1_n2, repr_value=repr_value)
 
                     if (n2, n1) not in added_loops:
                         repr_value = heu_net.performance_matrix[n2][n1] if n2 in heu_net.performance_matrix and n1 in \
@@ -520,7 +520,7 @@ def calculate(heu_net, dependency_thresh=defaults.DEFAULT_DEPENDENCY_THRESH,
                         heu_net.nodes[n2].add_output_connection(heu_net.nodes[n1], 0,
                                                                 v_n2_n1, repr_value=repr_value)
                         heu_net.nodes[n1].add_input_connection(heu_net.nodes[n2], 0,
-                                                               v_n1_n2, repr_value=repr_value)
+                                                               v_n2_n1, repr_value=repr_value)
     if len(heu_net.nodes) == 0:
         for act in heu_net.activities:
             heu_net.nodes[act] = Node(heu_net, act, heu_net.activities_occurrences[act],
-- 
2.43.0


From 6aabbc8a7f675e0004091deca81b074e7db31f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 090/276] fix: remove redundant invisible transitions of
 heuristics nets: no transition is skipped

---
 .../objects/conversion/heuristics_net/variants/to_petri_net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py b/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
index 432ae48..254a94d 100644
--- a/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
+++ b/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
@@ -49,6 +49,9 @@ def remove_rendundant_invisible_transitions(net):
                                 postset_j.intersection(postset_i)) == len(postset_j):
                             remove_transition(net, trans[j])
                             del trans[j]
+                            if j < i:
+                                # the current transition moved back of one position
+                                i = i - 1
                             continue
                 j = j + 1
             i = i + 1
-- 
2.43.0


From f03fbabce1f9f88c00a58e2951f8a93f92327eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 091/276] fix: BPMN import keeps the sequence flows without a
 drawn edge

---
 pm4py/objects/bpmn/importer/variants/lxml.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/bpmn/importer/variants/lxml.py b/pm4py/objects/bpmn/importer/variants/lxml.py
index 8526ea9..1df0d55 100644
--- a/pm4py/objects/bpmn/importer/variants/lxml.py
+++ b/pm4py/objects/bpmn/importer/variants/lxml.py
@@ -231,14 +231,15 @@ def parse_element(bpmn_graph, counts, curr_el, parents, incoming_dict, outgoing_
         for seq_flow_id in outgoing_dict:
             if outgoing_dict[seq_flow_id][0] in nodes_dict:
                 outgoing_dict[seq_flow_id] = (nodes_dict[outgoing_dict[seq_flow_id][0]], outgoing_dict[seq_flow_id][1], outgoing_dict[seq_flow_id][2], outgoing_dict[seq_flow_id][3])
-        for flow_id in flow_info:
-            if flow_id in outgoing_dict and flow_id in incoming_dict:
+        for flow_id in outgoing_dict:
+            if flow_id in incoming_dict:
                 if isinstance(outgoing_dict[flow_id][0], BPMN.BPMNNode) and isinstance(incoming_dict[flow_id][0], BPMN.BPMNNode):
                     flow = BPMN.SequenceFlow(outgoing_dict[flow_id][0], incoming_dict[flow_id][0], id=flow_id, name=outgoing_dict[flow_id][3], process=outgoing_dict[flow_id][1])
                     bpmn_graph.add_flow(flow)
-                    layout.get(flow).del_waypoints()
-                    for waypoint in flow_info[flow_id]:
-                        layout.get(flow).add_waypoint(waypoint)
+                    if flow_id in flow_info:
+                        layout.get(flow).del_waypoints()
+                        for waypoint in flow_info[flow_id]:
+                            layout.get(flow).add_waypoint(waypoint)
         for node_id in nodes_bounds:
             if node_id in nodes_dict:
                 bounds = nodes_bounds[node_id]
-- 
2.43.0


From e65e59fea93291d8b62f42fbf8078801a4f2908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 092/276] fix: BPMN execution semantics passes the diagram to
 weak_execute

---
 pm4py/objects/bpmn/semantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/bpmn/semantics.py b/pm4py/objects/bpmn/semantics.py
index 0a42086..8b91307 100644
--- a/pm4py/objects/bpmn/semantics.py
+++ b/pm4py/objects/bpmn/semantics.py
@@ -39,7 +39,7 @@ def execute(node, bpmn, m):
     if not is_enabled(node, bpmn, m):
         return None
 
-    return weak_execute(node, m)
+    return weak_execute(node, m, bpmn)
 
 
 def try_to_execute(node, bpmn, m):
-- 
2.43.0


From 10659dd6c8b59d7437d7e7a602dd36b16fb4d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 093/276] fix: inclusive gateway marks all the chosen branches

---
 pm4py/objects/bpmn/semantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/bpmn/semantics.py b/pm4py/objects/bpmn/semantics.py
index 8b91307..9758b7d 100644
--- a/pm4py/objects/bpmn/semantics.py
+++ b/pm4py/objects/bpmn/semantics.py
@@ -133,11 +133,11 @@ def weak_execute(node, m, bpmn_graph):
                     m_outs.append(m_out)
             elif isinstance(node, BPMN.InclusiveGateway):
                 for out_flows in power_set(node.get_out_arcs()):
+                    m_out = copy.copy(m)
+                    del m_out[node]
                     for out_flow in out_flows:
-                        m_out = copy.copy(m)
-                        del m_out[node]
                         execute_token_flow(out_flow.target, m_out, bpmn_graph)
-                        m_outs.append(m_out)
+                    m_outs.append(m_out)
         return m_outs
 
 
-- 
2.43.0


From 5e4a820961ffea6e553fa9abd9777f613bcb652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 094/276] fix: BPMN import keeps the name of the flows
 whichever the order of the elements

---
 pm4py/objects/bpmn/importer/variants/lxml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/bpmn/importer/variants/lxml.py b/pm4py/objects/bpmn/importer/variants/lxml.py
index 1df0d55..6bb1e05 100644
--- a/pm4py/objects/bpmn/importer/variants/lxml.py
+++ b/pm4py/objects/bpmn/importer/variants/lxml.py
@@ -186,11 +186,11 @@ def parse_element(bpmn_graph, counts, curr_el, parents, incoming_dict, outgoing_
         nodes_dict[id] = node
     elif tag.endswith("incoming"): # incoming flow of a node
         name = curr_el.get("name").replace("\r", "").replace("\n", "") if "name" in curr_el.attrib else ""
-        if node is not None:
+        if node is not None and curr_el.text.strip() not in incoming_dict:
             incoming_dict[curr_el.text.strip()] = (node, process, tag, name)
     elif tag.endswith("outgoing"): # outgoing flow of a node
         name = curr_el.get("name").replace("\r", "").replace("\n", "") if "name" in curr_el.attrib else ""
-        if node is not None:
+        if node is not None and curr_el.text.strip() not in outgoing_dict:
             outgoing_dict[curr_el.text.strip()] = (node, process, tag, name)
     elif tag.endswith("sequenceflow"): # normal sequence flow between two nodes
         seq_flow_id = curr_el.get("id")
-- 
2.43.0


From 0b20267d1fa1be93028dc92aa3de586e1bd934c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 095/276] fix: BPMN layout of self-loops

---
 pm4py/objects/bpmn/layout/variants/graphviz.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pm4py/objects/bpmn/layout/variants/graphviz.py b/pm4py/objects/bpmn/layout/variants/graphviz.py
index c889a3f..0ee6491 100644
--- a/pm4py/objects/bpmn/layout/variants/graphviz.py
+++ b/pm4py/objects/bpmn/layout/variants/graphviz.py
@@ -195,6 +195,8 @@ def apply(bpmn_graph, parameters=None):
 
         diff_x = abs(x_trg - x_src)
         diff_y = abs(y_src - y_trg)
+        # (avoid a division by zero for the self-loops)
+        diff_sum = max(diff_x + diff_y, 1)
 
         if not (x_src, y_src) in outgoing_edges:
             outgoing_edges[(x_src, y_src)] = {}
@@ -206,18 +208,18 @@ def apply(bpmn_graph, parameters=None):
                                                          EndpointDirection.TOP: 0.0, EndpointDirection.BOTTOM: 0.0}
 
         if x_trg > x_src:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.RIGHT] = diff_x / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.LEFT] = diff_x / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.RIGHT] = diff_x / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.LEFT] = diff_x / diff_sum
         else:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.LEFT] = diff_x / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.RIGHT] = diff_x / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.LEFT] = diff_x / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.RIGHT] = diff_x / diff_sum
 
         if y_src > y_trg:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.TOP] = diff_y / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.BOTTOM] = diff_y / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.TOP] = diff_y / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.BOTTOM] = diff_y / diff_sum
         else:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.BOTTOM] = diff_y / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.TOP] = diff_y / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.BOTTOM] = diff_y / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.TOP] = diff_y / diff_sum
 
     # normalization
     outgoing_edges0 = deepcopy(outgoing_edges)
-- 
2.43.0


From 08912c68e303eb29d815b076546fc227d1ffb42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 096/276] fix: DFG export with encodings having a byte order
 mark

---
 pm4py/objects/dfg/exporter/variants/classic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/objects/dfg/exporter/variants/classic.py b/pm4py/objects/dfg/exporter/variants/classic.py
index 91a5475..a1a754d 100644
--- a/pm4py/objects/dfg/exporter/variants/classic.py
+++ b/pm4py/objects/dfg/exporter/variants/classic.py
@@ -100,8 +100,7 @@ def apply(dfg, output_path, parameters=None):
     encoding = exec_utils.get_param_value(Parameters.ENCODING, parameters, constants.DEFAULT_ENCODING)
 
     F = open(output_path, "wb")
-    for row in export_line_by_line(dfg, parameters=parameters):
-        F.write(row.encode(encoding))
+    F.write("".join(export_line_by_line(dfg, parameters=parameters)).encode(encoding))
     F.close()
 
 
-- 
2.43.0


From 8160b082e4778ed41d9d9399fc4a20866e202553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 097/276] fix: POWL parser: activities starting with X, * or
 tau inside partial orders

---
 pm4py/objects/powl/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/powl/parser.py b/pm4py/objects/powl/parser.py
index 7ad3e34..92e6cdd 100644
--- a/pm4py/objects/powl/parser.py
+++ b/pm4py/objects/powl/parser.py
@@ -88,7 +88,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
 
                 i = i + 1
 
-        elif indented_str_list[0].startswith('X'):
+        elif indented_str_list[0].replace(' ', '') == 'X(':
             i = 1
             while i < len(indented_str_list):
                 if indented_str_list[i] == ')':
@@ -97,7 +97,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
             PO = OperatorPOWL(PTOperator.XOR, nodes)
-        elif indented_str_list[0].startswith('*'):
+        elif indented_str_list[0].replace(' ', '') == '*(':
             i = 1
             while i < len(indented_str_list):
                 if indented_str_list[i] == ')':
@@ -106,7 +106,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
             PO = OperatorPOWL(PTOperator.LOOP, nodes)
-        elif indented_str_list[0].startswith('tau'):
+        elif indented_str_list[0] == 'tau':
             PO = SilentTransition()
         else:
             label = indented_str_list[0]
-- 
2.43.0


From 35f26757a5dcf1fd037eb101074b9f5197fac973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 098/276] fix: POWL parser: edges of nodes whose text is a
 prefix of another node

---
 pm4py/objects/powl/parser.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/powl/parser.py b/pm4py/objects/powl/parser.py
index 92e6cdd..ebaad0f 100644
--- a/pm4py/objects/powl/parser.py
+++ b/pm4py/objects/powl/parser.py
@@ -17,7 +17,6 @@
 from pm4py.objects.powl.obj import POWL, OperatorPOWL, StrictPartialOrder, SilentTransition, Transition
 from pm4py.objects.process_tree.obj import Operator as PTOperator
 from pm4py.util import hie_utils
-import re
 
 
 def parse_powl_model_string(powl_string, level=0) -> POWL:
@@ -71,8 +70,6 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
 
-            pattern = '(' + '|'.join(map(re.escape, list(nodes_dict))) + ')'
-
             PO = StrictPartialOrder(nodes=nodes)
 
             # reads the edges of the POWL
@@ -81,10 +78,12 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 if indented_str_list[i] == '}':
                     break
 
-                split_list = [x for x in re.split(pattern, indented_str_list[i]) if x]
-
-                if len(split_list) == 3:
-                    PO.order.add_edge(nodes_dict[split_list[0]], nodes_dict[split_list[2]])
+                edge = indented_str_list[i]
+                for source in nodes_dict:
+                    remaining = edge[len(source):].strip() if edge.startswith(source) else ""
+                    if remaining.startswith('-->') and remaining[3:].strip() in nodes_dict:
+                        PO.order.add_edge(nodes_dict[source], nodes_dict[remaining[3:].strip()])
+                        break
 
                 i = i + 1
 
-- 
2.43.0


From c681eaa63bcc84d80a9ee03d5364d9b06d935000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 099/276] fix: frequent transitions of POWL models are not
 built on silent activities

---
 pm4py/objects/powl/obj.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/powl/obj.py b/pm4py/objects/powl/obj.py
index b296087..9a419b0 100644
--- a/pm4py/objects/powl/obj.py
+++ b/pm4py/objects/powl/obj.py
@@ -345,17 +345,21 @@ class OperatorPOWL(POWL):
         if self.operator is Operator.XOR and len(self.children) == 2:
             child_0 = self.children[0]
             child_1 = self.children[1]
-            if isinstance(child_0, Transition) and isinstance(child_1, SilentTransition):
+            if isinstance(child_0, Transition) and not isinstance(child_0, SilentTransition) \
+                    and isinstance(child_1, SilentTransition):
                 return FrequentTransition(label=child_0.label, min_freq=0, max_freq=1)
-            elif isinstance(child_1, Transition) and isinstance(child_0, SilentTransition):
+            elif isinstance(child_1, Transition) and not isinstance(child_1, SilentTransition) \
+                    and isinstance(child_0, SilentTransition):
                 return FrequentTransition(label=child_1.label, min_freq=0, max_freq=1)
 
         if self.operator is Operator.LOOP and len(self.children) == 2:
             child_0 = self.children[0]
             child_1 = self.children[1]
-            if isinstance(child_0, Transition) and isinstance(child_1, SilentTransition):
+            if isinstance(child_0, Transition) and not isinstance(child_0, SilentTransition) \
+                    and isinstance(child_1, SilentTransition):
                 return FrequentTransition(label=child_0.label, min_freq=1, max_freq="-")
-            elif isinstance(child_1, Transition) and isinstance(child_0, SilentTransition):
+            elif isinstance(child_1, Transition) and not isinstance(child_1, SilentTransition) \
+                    and isinstance(child_0, SilentTransition):
                 return FrequentTransition(label=child_1.label, min_freq=0, max_freq="-")
 
         return OperatorPOWL(self.operator, [child.simplify_using_frequent_transitions() for child in self.children])
-- 
2.43.0


From 763c8f789870926a5893205ae715cd54eda835f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 100/276] fix: content equality of POWL loops and order of POWL
 transitions

---
 pm4py/objects/powl/obj.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/powl/obj.py b/pm4py/objects/powl/obj.py
index 9a419b0..eb3276d 100644
--- a/pm4py/objects/powl/obj.py
+++ b/pm4py/objects/powl/obj.py
@@ -92,8 +92,8 @@ class Transition(POWL):
 
     def __lt__(self, other: object) -> bool:
         if isinstance(other, Transition):
-            if self.label and other.label and self.label < other.label:
-                return self.label < other.label
+            if self.label != other.label:
+                return (self.label or "") < (other.label or "")
             return self._identifier < other._identifier
         elif isinstance(other, OperatorPOWL):
             return True
@@ -330,8 +330,9 @@ class OperatorPOWL(POWL):
         if self.operator != other.operator:
             return False
 
-        ordered_nodes_1 = sorted(list(self.children))
-        ordered_nodes_2 = sorted(list(other.children))
+        # the children of a choice are interchangeable, the do and redo part of a loop are not
+        ordered_nodes_1 = list(self.children) if self.operator is Operator.LOOP else sorted(list(self.children))
+        ordered_nodes_2 = list(other.children) if self.operator is Operator.LOOP else sorted(list(other.children))
         if len(ordered_nodes_1) != len(ordered_nodes_2):
             return False
         for i in range(len(ordered_nodes_1)):
-- 
2.43.0


From 9c43f7d5aa070238cf48bf6eea0c0a875fbd1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 101/276] fix: simplified POWL models have a transitive order

---
 pm4py/objects/powl/obj.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/objects/powl/obj.py b/pm4py/objects/powl/obj.py
index eb3276d..25fec15 100644
--- a/pm4py/objects/powl/obj.py
+++ b/pm4py/objects/powl/obj.py
@@ -281,6 +281,7 @@ class StrictPartialOrder(POWL):
                 for node_2 in simplified_po.children:
                     if simplified_po.partial_order.is_edge(node_1, node_2):
                         res.partial_order.add_edge(node_1, node_2)
+        res.partial_order.add_transitive_edges()
         return res
 
     def add_edge(self, source, target):
-- 
2.43.0


From 543ff6741acbcf3567c7cc4432c0f0dc61fd1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 102/276] fix: brute force POWL partial order cut keeps the
 frequencies of the projected variants

---
 .../powl/inductive/variants/brute_force/bf_partial_order_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/powl/inductive/variants/brute_force/bf_partial_order_cut.py b/pm4py/algo/discovery/powl/inductive/variants/brute_force/bf_partial_order_cut.py
index bd67602..47c171c 100644
--- a/pm4py/algo/discovery/powl/inductive/variants/brute_force/bf_partial_order_cut.py
+++ b/pm4py/algo/discovery/powl/inductive/variants/brute_force/bf_partial_order_cut.py
@@ -209,6 +209,6 @@ class BruteForcePartialOrderCutUVCL(BruteForcePartialOrderCut[IMDataStructureUVC
         for g in groups:
             c = Counter()
             for t in obj.data_structure:
-                c[tuple(filter(lambda e: e in g, t))] = obj.data_structure[t]
+                c[tuple(filter(lambda e: e in g, t))] += obj.data_structure[t]
             r.append(c)
         return list(map(lambda l: IMDataStructureUVCL(l), r))
-- 
2.43.0


From 56de54b6c0920ae9cf8f93af134f163d0a91b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:30 +0000
Subject: [PATCH 103/276] fix: POWL discovery of loops with several redo parts

---
 pm4py/algo/discovery/powl/inductive/cuts/loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/discovery/powl/inductive/cuts/loop.py b/pm4py/algo/discovery/powl/inductive/cuts/loop.py
index e9c5f6c..dc7062f 100644
--- a/pm4py/algo/discovery/powl/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/powl/inductive/cuts/loop.py
@@ -36,6 +36,8 @@ class POWLLoopCut(LoopCut, ABC, Generic[T]):
         if g is None:
             return g
         else:
+            # the loops of POWL models have exactly one redo part
+            g = [g[0], [a for redo in g[1:] for a in redo]]
             children = cls.project(obj, g, parameters)
             return OperatorPOWL(Operator.LOOP, children), children
 
-- 
2.43.0


From 3403508331b34b8f1263a44c97833521e4aff8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 104/276] fix: process tree semantics: OR operator executes a
 non-empty subset and closes

---
 pm4py/objects/process_tree/semantics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pm4py/objects/process_tree/semantics.py b/pm4py/objects/process_tree/semantics.py
index 3bfa691..d8f5d6d 100644
--- a/pm4py/objects/process_tree/semantics.py
+++ b/pm4py/objects/process_tree/semantics.py
@@ -175,6 +175,11 @@ def execute_enabled(enabled, open, closed, execution_sequence=None):
             execution_sequence.append((c, pt_st.State.ENABLED))
         elif vertex.operator is pt_opt.Operator.OR:
             some_children = [c for c in vertex.children if random.random() < 0.5]
+            if not some_children:
+                # at least one of the children is executed
+                some_children = [random.choice(vertex.children)]
+            # the children that are not executed shall not prevent the vertex from closing
+            closed |= set(vertex.children).difference(some_children)
             enabled |= set(some_children)
             for x in some_children:
                 if x in closed:
-- 
2.43.0


From 677e13816421e7e6662ed6252e47e0c0ef1778d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 105/276] fix: top-bottom playout does not reorder the children
 of interleaving nodes

---
 .../simulation/playout/process_tree/variants/topbottom.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
index 8aeabdf..15578eb 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
@@ -140,9 +140,10 @@ def get_ex_seq(tree):
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.INTERLEAVING:
-        random.shuffle(tree.children)
+        children = list(tree.children)
+        random.shuffle(children)
         ret = []
-        for child in tree.children:
+        for child in children:
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.LOOP:
-- 
2.43.0


From 8f1aaaedde33fce6b68635b587e56f275f9495cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 106/276] fix: extensive process tree playout respects the
 minimum and maximum trace length

---
 .../algo/simulation/playout/process_tree/variants/extensive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
index a47df0b..aa6ae4b 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
@@ -327,7 +327,8 @@ def apply(tree: ProcessTree, parameters : Optional[Dict[Union[str, Parameters],
     for i in range(len(bottomup)):
         get_playout(bottomup[i], playout_dictio, min_trace_length, max_trace_length, max_loop_occ, min_rem_dict,
                     max_rem_dict, max_limit_num_traces)
-    tree_playout_traces = playout_dictio[tree][TRACES]
+    # the bounds used during the visit for the inner nodes are optimistic
+    tree_playout_traces = {x for x in playout_dictio[tree][TRACES] if min_trace_length <= len(x) <= max_trace_length}
 
     if return_set_strings:
         return tree_playout_traces
-- 
2.43.0


From 44a7fdb22d202e4935c689f4f687af8381e1c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 107/276] fix: top-bottom playout supports the OR operator

---
 .../playout/process_tree/variants/topbottom.py           | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
index 15578eb..f3fc2c3 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
@@ -157,11 +157,16 @@ def get_ex_seq(tree):
                 ret = ret + get_ex_seq(tree.children[1])
                 cont = True
         return ret
-    elif tree.operator is Operator.PARALLEL:
+    elif tree.operator is Operator.PARALLEL or tree.operator is Operator.OR:
         ret = []
         children_traces = []
         list_choices = []
-        for index, child in enumerate(tree.children):
+        children = tree.children
+        if tree.operator is Operator.OR:
+            # executes a non-empty subset of the children
+            children = random.sample(children, random.randint(1, len(children)))
+
+        for index, child in enumerate(children):
             trace = get_ex_seq(child)
             children_traces.append(trace)
             list_choices += [index] * len(trace)
-- 
2.43.0


From af32c88c83390df92550dd8396d8643c2ea2c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 108/276] fix: DFG playout of graphs having activities without
 a continuation

---
 pm4py/algo/simulation/playout/dfg/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/simulation/playout/dfg/variants/classic.py b/pm4py/algo/simulation/playout/dfg/variants/classic.py
index 3a445d6..2b238be 100644
--- a/pm4py/algo/simulation/playout/dfg/variants/classic.py
+++ b/pm4py/algo/simulation/playout/dfg/variants/classic.py
@@ -134,7 +134,7 @@ def get_traces(dfg, start_activities, end_activities, parameters=None):
         last_act = trace[1][-1]
         prob = trace[0]
 
-        for new_act in node_transition_probabilities[last_act]:
+        for new_act in node_transition_probabilities.get(last_act, {}):
             if trace_counter[new_act] < max_no_occ_per_activity:
                 prob_new_act = node_transition_probabilities[last_act][new_act]
                 if new_act is None:
-- 
2.43.0


From 991836f851a223568730c051989925e5425757d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 109/276] fix: bottom-up visit of process trees with equal
 nodes

---
 pm4py/objects/process_tree/utils/bottomup.py | 22 +++++---------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index df0b9e1..0868481 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -211,26 +211,14 @@ def get_bottomup_nodes(tree, parameters=None):
         parameters = {}
 
     to_visit = [tree]
-    all_nodes = set()
+    all_nodes = []
     while len(to_visit) > 0:
         n = to_visit.pop(0)
-        all_nodes.add(n)
+        all_nodes.append(n)
         for child in n.children:
             to_visit.append(child)
-    # starts to visit the tree from the leafs
-    bottomup = [x for x in all_nodes if len(x.children) == 0]
-    # then add iteratively the parent
-    i = 0
-    while i < len(bottomup):
-        parent = bottomup[i].parent
-        if parent is not None and parent not in bottomup:
-            is_ok = True
-            for child in parent.children:
-                if not child in bottomup:
-                    is_ok = False
-                    break
-            if is_ok:
-                bottomup.append(parent)
-        i = i + 1
+    # in the inverse order of the visit, the children come always before the parent.
+    # (nodes with the same content are equal, only one of them is kept)
+    bottomup = list(dict.fromkeys(reversed(all_nodes)))
 
     return bottomup
-- 
2.43.0


From 0b61aacf03b75ddee731e64b1b57d57ce791a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 110/276] fix: process tree semantics: silent exits of
 different loops are distinct

---
 pm4py/objects/process_tree/semantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/process_tree/semantics.py b/pm4py/objects/process_tree/semantics.py
index d8f5d6d..62a3813 100644
--- a/pm4py/objects/process_tree/semantics.py
+++ b/pm4py/objects/process_tree/semantics.py
@@ -157,7 +157,7 @@ def execute_enabled(enabled, open, closed, execution_sequence=None):
     if len(vertex.children) > 0:
         if vertex.operator is pt_opt.Operator.LOOP:
             while len(vertex.children) < 3:
-                vertex.children.append(ProcessTree(parent=vertex))
+                vertex.children.append(GenerationTree(ProcessTree(parent=vertex)))
         if vertex.operator is pt_opt.Operator.SEQUENCE or vertex.operator is pt_opt.Operator.LOOP:
             c = vertex.children[0]
             enabled.add(c)
-- 
2.43.0


From 276a69026388a7a38e4d5b7c9afa7d89d0a58d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 111/276] fix: tree generator: duplication of activities
 terminates and does not touch the silent leaves

---
 .../tree_generator/variants/ptandloggenerator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
index 405615b..994ad20 100644
--- a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
+++ b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
@@ -194,15 +194,16 @@ class GeneratedTree(object):
                     leaves_with_label.append(leaf)
             # generate random list of duplicates
             duplicates = []
-            for leaf in leaves:
+            for leaf in leaves_with_label:
                 if random.random() < self.parameters["duplicate"]:
                     duplicates.append(leaf)
-            if len(duplicates) > 0:
-                # select potential leaves to replace them by duplicates
-                possible_replacements = []
-                for leaf in leaves:
-                    if leaf not in duplicates:
-                        possible_replacements.append(leaf)
+            # select potential leaves to replace them by duplicates
+            possible_replacements = []
+            for leaf in leaves_with_label:
+                if leaf not in duplicates:
+                    possible_replacements.append(leaf)
+            if not possible_replacements:
+                return
             for leaf in duplicates:
                 i = 0
                 siblings = []
@@ -217,6 +218,7 @@ class GeneratedTree(object):
                     if replacement not in siblings:
                         replacement._label = leaf._label
                         break
+                    i = i + 1
 
     def add_node(self):
         leaves = self.tree._get_leaves()
-- 
2.43.0


From cd09e05a06d7d7fdc8761c9bc1a8f9013ccb6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 112/276] fix: extended cyclomatic metric considers the edges
 between the states of the reachability graph

---
 .../algo/evaluation/simplicity/variants/extended_cyclomatic.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py b/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
index e42cbf5..5c61ca1 100644
--- a/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
+++ b/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
@@ -56,7 +56,7 @@ def apply(petri_net: PetriNet, im: Optional[Marking] = None, parameters: Optiona
 
     for n in reach_graph.states:
         for n2 in n.outgoing:
-            G.add_edge(n, n2)
+            G.add_edge(n.name, n2.to_state.name)
 
     sg = list(nx_utils.strongly_connected_components(G))
 
-- 
2.43.0


From 4967374124669e5922d7a0aaf05b53449d05c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 113/276] fix: log skeleton: always after/before count the
 occurrences which are followed/preceded, not the pairs

---
 pm4py/algo/discovery/log_skeleton/trace_skel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index f9dd74a..8fbb815 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -55,7 +55,8 @@ def after(trace):
     rel
         After- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j > i)
+    # each occurrence counts once for every activity that follows it
+    return list((trace[i], y) for i in range(len(trace)) for y in set(trace[i+1:]))
 
 
 def before(trace):
@@ -72,7 +73,8 @@ def before(trace):
     rel
         Before- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j < i)
+    # each occurrence counts once for every activity that precedes it
+    return list((trace[i], y) for i in range(len(trace)) for y in set(trace[:i]))
 
 
 def combos(trace):
-- 
2.43.0


From d0100e7593f9eb0f799138f9445bceb135efb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 114/276] fix: log skeleton conformance: always after/before
 and directly follows need to hold for every occurrence

---
 pm4py/algo/discovery/log_skeleton/trace_skel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index 8fbb815..604b157 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -132,4 +132,11 @@ def get_trace_info(trace):
     """
     Technical method for conformance checking
     """
-    return (equivalence(trace), after(trace), before(trace), combos(trace), directly_follows(trace), activ_freq(trace))
+    freq = activ_freq(trace)
+
+    def satisfied(pairs):
+        # keeps the relations that hold for every occurrence of the source activity
+        return set(x for x, y in Counter(pairs).items() if y >= freq[x[0]])
+
+    return (satisfied(equivalence(trace)), satisfied(after(trace)), satisfied(before(trace)), combos(trace),
+            satisfied(directly_follows(trace)), freq)
-- 
2.43.0


From 62747f0589d493da44fd2700164a0eaf153642b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 115/276] fix: log skeleton: never together considers all the
 occurrences of the activity in the trace

---
 pm4py/algo/discovery/log_skeleton/variants/classic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/log_skeleton/variants/classic.py b/pm4py/algo/discovery/log_skeleton/variants/classic.py
index dcaa298..219fdcc 100644
--- a/pm4py/algo/discovery/log_skeleton/variants/classic.py
+++ b/pm4py/algo/discovery/log_skeleton/variants/classic.py
@@ -167,7 +167,8 @@ def never_together(logs_traces, all_activs, len_log, noise_threshold=0):
     for trace in logs_traces:
         rs = Counter(trace_skel.combos(list(trace)))
         for k in rs:
-            rs[k] = rs[k] * logs_traces[trace]
+            # all the occurrences of the activity in the trace happen together with the other activity
+            rs[k] = rs[k] * logs_traces[trace] * trace.count(k[0])
         ret0 -= rs
     ret = set(x for x, y in ret0.items() if y >= all_activs[x[0]] * (1.0 - noise_threshold))
     return ret
-- 
2.43.0


From eba779690a4888d733077aceb86a90dda4b047c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 116/276] fix: log skeleton: activity frequencies of a
 dataframe use the number of cases

---
 pm4py/algo/discovery/log_skeleton/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/log_skeleton/variants/classic.py b/pm4py/algo/discovery/log_skeleton/variants/classic.py
index 219fdcc..f3b9788 100644
--- a/pm4py/algo/discovery/log_skeleton/variants/classic.py
+++ b/pm4py/algo/discovery/log_skeleton/variants/classic.py
@@ -282,10 +282,10 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
     ret[Outputs.EQUIVALENCE.value] = equivalence(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_AFTER.value] = always_after(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_BEFORE.value] = always_before(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, len(log),
+    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, sum(logs_traces.values()),
                                                        noise_threshold=noise_threshold)
     ret[Outputs.DIRECTLY_FOLLOWS.value] = directly_follows(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, len(log), noise_threshold=noise_threshold)
+    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, sum(logs_traces.values()), noise_threshold=noise_threshold)
 
     return ret
 
-- 
2.43.0


From 6940f9dcf57b678e8c4de220b3068f74810eba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 117/276] fix: declare conformance: succession is satisfied by
 traces without both activities

---
 pm4py/algo/conformance/declare/variants/classic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 3f85a39..5f623d5 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -109,6 +109,8 @@ def __check_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, in
                        act_idxs: Dict[str, List[int]], parameters: Optional[Dict[Any, Any]] = None):
     if SUCCESSION in model:
         for act_couple in model[SUCCESSION]:
+            if not act_couple[0] in trace and not act_couple[1] in trace:
+                continue
             if (not act_couple[0] in trace or not act_couple[1] in trace) or min(act_idxs[act_couple[0]]) > min(
                     act_idxs[act_couple[1]]) or max(act_idxs[act_couple[0]]) > max(act_idxs[act_couple[1]]):
                 trace_dict["deviations"].append([SUCCESSION, act_couple])
-- 
2.43.0


From 7f9487553284814d5fbee06eecf45ad5216e9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 118/276] fix: declare conformance: alternate response uses its
 own couples

---
 pm4py/algo/conformance/declare/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 5f623d5..814fbcb 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -120,7 +120,7 @@ def __check_alt_response(trace: List[str], model: Dict[str, Dict[Any, Dict[str,
                          trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
                          parameters: Optional[Dict[Any, Any]] = None):
     if ALTRESPONSE in model:
-        for act_couple in model[RESPONSE]:
+        for act_couple in model[ALTRESPONSE]:
             spec_idxs = []
             if act_couple[0] in trace:
                 spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-- 
2.43.0


From cc8c817d7b3178ffdc5f10c6add15fa52a5492f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 119/276] fix: declare conformance: alternate/chain precedence
 are satisfied when the second activity does not occur

---
 pm4py/algo/conformance/declare/variants/classic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 814fbcb..300be98 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -173,6 +173,8 @@ def __check_alt_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[str
                            parameters: Optional[Dict[Any, Any]] = None):
     if ALTPRECEDENCE in model:
         for act_couple in model[ALTPRECEDENCE]:
+            if act_couple[1] not in trace:
+                continue
             spec_idxs = []
             if act_couple[0] in trace:
                 spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
@@ -199,6 +201,8 @@ def __check_chain_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                              parameters: Optional[Dict[Any, Any]] = None):
     if CHAINPRECEDENCE in model:
         for act_couple in model[CHAINPRECEDENCE]:
+            if act_couple[1] not in trace:
+                continue
             spec_idxs = []
             if act_couple[0] in trace:
                 spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-- 
2.43.0


From 98c38378ec98af90edfad0ff520da821e0403bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 120/276] fix: declare conformance: check non (chain)
 succession and do not report non co-existence twice

---
 .../conformance/declare/variants/classic.py   | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 300be98..8a8b423 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -266,6 +266,26 @@ def __check_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                 trace_dict["deviations"].append([CHAINSUCCESSION, act_couple])
 
 
+def __check_non_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
+                           trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
+                           parameters: Optional[Dict[Any, Any]] = None):
+    if NONSUCCESSION in model:
+        for act_couple in model[NONSUCCESSION]:
+            if act_couple[0] in trace and act_couple[1] in trace:
+                if min(act_idxs[act_couple[0]]) < max(act_idxs[act_couple[1]]):
+                    trace_dict["deviations"].append([NONSUCCESSION, act_couple])
+
+
+def __check_non_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
+                                 trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
+                                 parameters: Optional[Dict[Any, Any]] = None):
+    if NONCHAINSUCCESSION in model:
+        for act_couple in model[NONCHAINSUCCESSION]:
+            if act_couple[0] in trace and act_couple[1] in trace:
+                if any(i + 1 in act_idxs[act_couple[1]] for i in act_idxs[act_couple[0]]):
+                    trace_dict["deviations"].append([NONCHAINSUCCESSION, act_couple])
+
+
 def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[str, int]]],
                parameters: Optional[Dict[Any, Any]] = None) -> List[Dict[str, Any]]:
     if parameters is None:
@@ -304,7 +324,8 @@ def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[s
         __check_alt_succession(trace, model, ret, act_idxs, parameters)
         __check_chain_succession(trace, model, ret, act_idxs, parameters)
         __check_absence(trace, model, ret, parameters)
-        __check_non_coexistence(trace, model, ret, parameters)
+        __check_non_succession(trace, model, ret, act_idxs, parameters)
+        __check_non_chain_succession(trace, model, ret, act_idxs, parameters)
 
         ret["no_dev_total"] = len(ret["deviations"])
         ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"]
-- 
2.43.0


From 43413b5d68b676b8e1a8ea55ca2f7a735248eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 121/276] fix: declare conformance: fitness is 1 for models
 without constraints

---
 pm4py/algo/conformance/declare/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 8a8b423..7c73e04 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -328,7 +328,7 @@ def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[s
         __check_non_chain_succession(trace, model, ret, act_idxs, parameters)
 
         ret["no_dev_total"] = len(ret["deviations"])
-        ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"]
+        ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"] if ret["no_constr_total"] > 0 else 1.0
         ret["is_fit"] = ret["no_dev_total"] == 0
 
         conf_cases.append(ret)
-- 
2.43.0


From 3cd21b2892dcff3eb3277881aff85880cc6cfc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 122/276] fix: declare discovery: (alternate, chain) precedence
 is violated when only the second activity occurs

---
 pm4py/algo/discovery/declare/variants/classic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index ad3b7db..1ee60a9 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -189,7 +189,7 @@ def precedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str,
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_precedence(act2, act)] = -1
                     else:
                         if act_idxs[act2][0] < act_idxs[act][0]:
                             rules[__rule_precedence(act2, act)] = 1
@@ -256,7 +256,7 @@ def altprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_alternate_precedence(act2, act)] = -1
                     else:
                         is_ok_alt_prec = False
                         if len(act_idxs[act]) == len(act_idxs[act2]):
@@ -280,7 +280,7 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_chain_precedence(act2, act)] = -1
                     else:
                         is_ok_chain_prec = False
                         if len(act_idxs[act]) == len(act_idxs[act2]):
-- 
2.43.0


From cf313630e91c424c2f0d6fbc119c52fa579d79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 123/276] fix: declare discovery: support traces without
 considered activities

---
 pm4py/algo/discovery/declare/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 1ee60a9..c6b2531 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -146,7 +146,7 @@ def init_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]]
                         allowed_templates: Collection[str]):
     if INIT in allowed_templates:
         for act in activities:
-            if act == trace[0]:
+            if trace and act == trace[0]:
                 rules[__rule_init_column(act)] = 1
             else:
                 rules[__rule_init_column(act)] = -1
-- 
2.43.0


From f2d8d772b19c1a4aaccd8ddd16e59f6af2e7a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 124/276] fix: declare discovery: templates derived from other
 templates can be discovered alone

---
 .../discovery/declare/variants/classic.py     | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index c6b2531..299f459 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -463,6 +463,18 @@ def nonchainsuccession_template(table, columns: Collection[str], activities: Set
     return table
 
 
+def __add_required_templates(templates: Collection[str]) -> Set[str]:
+    required = {ABSENCE: [EXISTENCE], COEXISTENCE: [RESPONDED_EXISTENCE],
+                NONCOEXISTENCE: [COEXISTENCE, RESPONDED_EXISTENCE], SUCCESSION: [RESPONSE, PRECEDENCE],
+                ALTSUCCESSION: [ALTRESPONSE, ALTPRECEDENCE], CHAINSUCCESSION: [CHAINRESPONSE, CHAINPRECEDENCE],
+                NONSUCCESSION: [SUCCESSION, RESPONSE, PRECEDENCE],
+                NONCHAINSUCCESSION: [CHAINSUCCESSION, CHAINRESPONSE, CHAINPRECEDENCE]}
+    ret = set(templates)
+    for template in templates:
+        ret.update(required.get(template, []))
+    return ret
+
+
 def form_rules_table(log: Union[EventLog, pd.DataFrame],
                          parameters: Optional[Dict[Any, Any]] = None) -> pd.DataFrame:
     if parameters is None:
@@ -487,7 +499,9 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
     if activities is None:
         activities = set(y for x in projected_log for y in x)
 
-    allowed_templates = set(allowed_templates)
+    requested_templates = set(allowed_templates)
+    # some templates are computed starting from other templates
+    allowed_templates = __add_required_templates(requested_templates)
     activities = set(activities)
 
     vars = Counter([tuple([y for y in x if y in activities]) for x in projected_log])
@@ -547,6 +561,8 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
     table2 = nonsuccession_template(table2, columns, activities, allowed_templates)
     table2 = nonchainsuccession_template(table2, columns, activities, allowed_templates)
 
+    table2 = {c: v for c, v in table2.items() if c[0] in requested_templates}
+
     return pandas_utils.instantiate_dataframe(table2)
 
 
@@ -572,6 +588,9 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
                 conf_ratio = float(len(col[col == 1])) / float(supp)
                 prod = supp_ratio * conf_ratio
                 cols_prod.append((col_name, prod))
+        if not cols_prod:
+            return rules
+
         cols_prod = sorted(cols_prod, key=lambda x: (x[1], x[0]), reverse=True)
         col = rules_df[cols_prod[0][0]]
         supp = len(col[col != 0])
-- 
2.43.0


From fc002cfeb1b366fe0bcad54c6b8c260e2a40a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 125/276] fix: declare discovery: non (chain) succession is
 violated exactly when the second activity follows the first

---
 .../discovery/declare/variants/classic.py     | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 299f459..4015cc8 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -298,6 +298,21 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
                         rules[__rule_chain_precedence(act2, act)] = 1 if is_ok_chain_prec else -1
 
 
+def nonsuccession_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
+                                 activities: Set[str], act_counter: TCounter[str], act_idxs: Dict[str, List[int]],
+                                 allowed_templates: Collection[str]):
+    for act in activities:
+        for act2 in activities:
+            if act2 != act and (act in act_counter or act2 in act_counter):
+                both = act in act_counter and act2 in act_counter
+                if NONSUCCESSION in allowed_templates:
+                    follows = both and act_idxs[act][0] < act_idxs[act2][-1]
+                    rules[__rule_non_succession(act, act2)] = -1 if follows else 1
+                if NONCHAINSUCCESSION in allowed_templates:
+                    follows = both and any(i + 1 in act_idxs[act2] for i in act_idxs[act])
+                    rules[__rule_non_chain_succession(act, act2)] = -1 if follows else 1
+
+
 def absence_template(table, columns: Collection[str], activities: Set[str],
                      allowed_templates: Collection[str]) -> pd.DataFrame:
     if ABSENCE in allowed_templates and EXISTENCE in allowed_templates:
@@ -448,7 +463,8 @@ def nonsuccession_template(table, columns: Collection[str], activities: Set[str]
         for act in activities:
             for act2 in activities:
                 if act2 != act:
-                    table[__rule_non_succession(act, act2)] = -1 * table[__rule_succession(act, act2)]
+                    if __rule_non_succession(act, act2) not in columns:
+                        table[__rule_non_succession(act, act2)] = [0] * len(table[list(table.keys())[0]])
     return table
 
 
@@ -458,8 +474,8 @@ def nonchainsuccession_template(table, columns: Collection[str], activities: Set
         for act in activities:
             for act2 in activities:
                 if act2 != act:
-                    table[__rule_non_chain_succession(act, act2)] = -1 * table[
-                        __rule_chain_succession(act, act2)]
+                    if __rule_non_chain_succession(act, act2) not in columns:
+                        table[__rule_non_chain_succession(act, act2)] = [0] * len(table[list(table.keys())[0]])
     return table
 
 
@@ -526,6 +542,7 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
         chainresponse_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
         altprecedence_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
         chainprecedence_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
+        nonsuccession_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
 
         for i in range(occs):
             table.append(rules)
-- 
2.43.0


From cad850545c9b1dcc3b44057297c9786204fa47d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 126/276] fix: declare conformance: alternate/chain precedence
 considers the leading occurrences of the second activity

---
 pm4py/algo/conformance/declare/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 7c73e04..828b81f 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -182,7 +182,7 @@ def __check_alt_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[str
                 spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
             spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
             while len(spec_idxs) > 1:
-                if spec_idxs[1][0] != act_couple[1]:
+                if spec_idxs[0][0] == act_couple[0] and spec_idxs[1][0] != act_couple[1]:
                     del spec_idxs[0]
                 else:
                     break
@@ -210,7 +210,7 @@ def __check_chain_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                 spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
             spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
             while len(spec_idxs) > 1:
-                if spec_idxs[1][0] != act_couple[1]:
+                if spec_idxs[0][0] == act_couple[0] and spec_idxs[1][0] != act_couple[1]:
                     del spec_idxs[0]
                 else:
                     break
-- 
2.43.0


From 5e91b553f6d81df40086bf44cb1dd20c42e71e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 127/276] fix: footprints of a tree: the children of an OR node
 are optional

---
 .../algo/discovery/footprints/tree/variants/bottomup.py  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
index a06ac77..4eb5174 100644
--- a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
+++ b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
@@ -365,8 +365,15 @@ def get_footprints(node, footprints_dictio):
         return get_footprints_leaf(node, footprints_dictio)
     elif node.operator == Operator.XOR:
         return get_footprints_xor(node, footprints_dictio)
-    elif node.operator == Operator.PARALLEL or node.operator == Operator.OR:
+    elif node.operator == Operator.PARALLEL:
         return get_footprints_parallel(node, footprints_dictio)
+    elif node.operator == Operator.OR:
+        footprints = get_footprints_parallel(node, footprints_dictio)
+        # any non-empty selection of the children can be executed
+        footprints[SKIPPABLE] = any(footprints_dictio[n][SKIPPABLE] for n in node.children)
+        footprints[ACTIVITIES_ALWAYS_HAPPENING] = set.intersection(
+            *(footprints_dictio[n][ACTIVITIES_ALWAYS_HAPPENING] for n in node.children))
+        return footprints
     elif node.operator == Operator.SEQUENCE:
         return get_footprints_sequence(node, footprints_dictio)
     elif node.operator == Operator.LOOP:
-- 
2.43.0


From 38ffec932396b46df6515fede3323e250cff3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 128/276] fix: minimum trace length of an OR node is the
 minimum over its children

---
 pm4py/objects/process_tree/utils/bottomup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index 0868481..946ffe5 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -183,9 +183,9 @@ def get_min_length_dict(node, min_length_dict):
             min_length_dict[node] = 0
         else:
             min_length_dict[node] = 1
-    elif node.operator == Operator.XOR:
+    elif node.operator == Operator.XOR or node.operator == Operator.OR:
         min_length_dict[node] = min(min_length_dict[x] for x in node.children)
-    elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE or node.operator == Operator.OR:
+    elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE:
         min_length_dict[node] = sum(min_length_dict[x] for x in node.children)
     elif node.operator == Operator.LOOP:
         min_length_dict[node] = min_length_dict[node.children[0]]
-- 
2.43.0


From 109b03e9785ab7d84b48c5787cd6aa6e38c8f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 129/276] fix: process tree alignments: an empty trace accepted
 by the tree has fitness 1

---
 .../alignments/process_tree/variants/search_graph_pt.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 9614676..5ddea0e 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -221,7 +221,7 @@ def align_variant(variant, tree_leaf_set, pt):
 def _apply_variant(variant, tree, leaves, bwc, parameters=None):
     alignment_obj = align_variant(variant, leaves, tree)
     ltrace_bwc = len(variant) + bwc
-    alignment_obj["fitness"] = 1.0 - alignment_obj["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
+    alignment_obj["fitness"] = 1.0 - alignment_obj["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
     return alignment_obj
 
 
@@ -348,7 +348,7 @@ def apply_multiprocessing(obj: Union[EventLog, Trace, pd.DataFrame], pt: Process
                 if variant not in align_dict:
                     al = futures[variant].result()
                     ltrace_bwc = len(trace) + best_worst_cost
-                    al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
+                    al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
                     align_dict[variant] = al
                 ret.append(align_dict[variant])
             _destroy_progress_bar(progress)
-- 
2.43.0


From d7ea1949fc2abdf2d15a0bf483c9a3c9603aabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 130/276] fix: process tree alignments (multiprocessing):
 fitness is based on the length of the aligned variant

---
 .../alignments/process_tree/variants/search_graph_pt.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 5ddea0e..45c93d2 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -347,7 +347,7 @@ def apply_multiprocessing(obj: Union[EventLog, Trace, pd.DataFrame], pt: Process
             for variant in traces:
                 if variant not in align_dict:
                     al = futures[variant].result()
-                    ltrace_bwc = len(trace) + best_worst_cost
+                    ltrace_bwc = len(variant) + best_worst_cost
                     al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
                     align_dict[variant] = al
                 ret.append(align_dict[variant])
-- 
2.43.0


From 28df12543ba71c365cc207a223ea74f6a499a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 131/276] fix: process tree alignments: an OR node can be
 closed when all its children have been executed

---
 .../process_tree/util/search_graph_pt_replay_semantics.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
index aba4767..41427d1 100644
--- a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
+++ b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
@@ -78,8 +78,10 @@ def can_close(tree: ProcessTree, state: ProcessTreeState) -> bool:
         return frozenset(map(lambda child: state[(id(child), child)], tree.children)) == {
             ProcessTree.OperatorState.CLOSED}
     elif ptu.is_any_operator_of(tree, [Operator.OR]):
-        return frozenset(map(lambda child: state[(id(child), child)], tree.children)) == {
-            ProcessTree.OperatorState.CLOSED, ProcessTree.OperatorState.FUTURE}
+        # at least one of the children has been executed
+        states = frozenset(map(lambda child: state[(id(child), child)], tree.children))
+        return ProcessTree.OperatorState.CLOSED in states and states.issubset(
+            {ProcessTree.OperatorState.CLOSED, ProcessTree.OperatorState.FUTURE})
     elif ptu.is_operator(tree, Operator.LOOP):
         return ptu.is_in_state(tree.children[0], ProcessTree.OperatorState.CLOSED, state) and ptu.is_in_state(
             tree.children[1], ProcessTree.OperatorState.FUTURE, state)
-- 
2.43.0


From fd7f7f0ae0f5db6c53a81443364d9615c4fa4b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 132/276] fix: process tree alignments: build the moves of the
 states explicitly

---
 .../process_tree/variants/search_graph_pt.py  | 40 +++++++------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 45c93d2..9d0201d 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -72,27 +72,15 @@ def _construct_result_dictionary(state: SGASearchState, variant: List[str]):
     current_state = state
     parent_state = state.parent
     while parent_state is not None:
-        if len(current_state.leaves) > 0:
-            if current_state.index == len(variant):
-                leaf_labels = list(reversed(list(map(lambda o: o.label, current_state.leaves))))
-                if variant[-1] in leaf_labels:
-                    i = leaf_labels.index(variant[-1])
-                    leaves_reversed = list(reversed(current_state.leaves))
-                    for j in range(len(leaves_reversed)):
-                        if i == j:
-                            alignment.append((variant[-1], leaves_reversed[j]))
-                        else:
-                            alignment.append((align_utils.SKIP, leaves_reversed[j]))
-                else:
-                    if current_state.costs - len(current_state.leaves) > parent_state.costs:
-                        alignment.append((variant[parent_state.index], align_utils.SKIP))
-                    for leaf in reversed(current_state.leaves):
-                        alignment.append((align_utils.SKIP, leaf))
-            else:
-                alignment.append((variant[parent_state.index], current_state.leaves[len(current_state.leaves) - 1]))
-                leaves_reversed = list(reversed(current_state.leaves))[1:]
-                for n in leaves_reversed:
-                    alignment.append((align_utils.SKIP, n))
+        if current_state.index == parent_state.index:
+            # the model is completed after the last event: only moves on the model
+            for leaf in reversed(current_state.leaves):
+                alignment.append((align_utils.SKIP, leaf))
+        elif len(current_state.leaves) > 0:
+            # the last executed leaf is synchronous with the event
+            alignment.append((variant[parent_state.index], current_state.leaves[-1]))
+            for leaf in reversed(current_state.leaves[:-1]):
+                alignment.append((align_utils.SKIP, leaf))
         else:
             alignment.append((variant[parent_state.index], align_utils.SKIP))
         parent_state = parent_state.parent
@@ -212,10 +200,12 @@ def align_variant(variant, tree_leaf_set, pt):
                 # FINISH
                 path, new_state = pt_sem.shortest_path_to_close(pt, sga_state.state)
                 model_moves = _obtain_leaves_from_state_path(path, include_tau=False)
-                sga_state.state = new_state
-                sga_state.costs = sga_state.costs + len(model_moves)
-                sga_state.leaves.extend(_obtain_leaves_from_state_path(path, include_tau=True))
-                heapq.heappush(open_set, sga_state)
+                final_state = SGASearchState(sga_state.costs + len(model_moves), sga_state.index, new_state,
+                                             leaves=_obtain_leaves_from_state_path(path, include_tau=True),
+                                             parent=sga_state)
+                final_state.path = tuple(path)
+                sga_state.children.add(final_state)
+                heapq.heappush(open_set, final_state)
 
 
 def _apply_variant(variant, tree, leaves, bwc, parameters=None):
-- 
2.43.0


From 03d3e5f3abbcea426b6bcaf6b146daa9484f03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 133/276] fix: process tree alignments: consider a log move for
 every choice the event commits to

---
 .../process_tree/variants/search_graph_pt.py  | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 9d0201d..dbf8bf9 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -135,22 +135,18 @@ def _obtain_leaves_from_state_path(path, include_tau=False):
 def _need_log_move(old_state, new_state, path) -> bool:
     if len(_obtain_leaves_from_state_path(path, include_tau=True)) > 0:
         return True
-    choices = list(filter(lambda o: pt_util.is_any_operator_of(o[1], [Operator.XOR, Operator.LOOP]), old_state.keys()))
-    for choice in choices:
-        choice = choice[1]
-        if pt_util.is_operator(choice, Operator.XOR):
-            if (pt_util.is_in_state(choice, ProcessTree.OperatorState.FUTURE, old_state) or pt_util.is_in_state(choice,
-                                                                                                                ProcessTree.OperatorState.CLOSED,
-                                                                                                                old_state)) and \
-                    old_state[(id(choice), choice)] != new_state[(id(choice), choice)]:
-                return True
-        elif pt_util.is_operator(choice, Operator.LOOP):
-            for loop_child in choice.children:
-                if (pt_util.is_in_state(loop_child, ProcessTree.OperatorState.FUTURE,
-                                        old_state) or pt_util.is_in_state(loop_child,
-                                                                          ProcessTree.OperatorState.CLOSED,
-                                                                          old_state)) and \
-                        old_state[(id(loop_child), loop_child)] != new_state[(id(loop_child), loop_child)]:
+    # executing the event without other moves may still commit to a choice (by opening a vertex of the choice, or
+    # by going further in a loop). In this case, not executing the event in the model shall be considered as well
+    for choice in (x[1] for x in new_state if pt_util.is_any_operator_of(x[1], [Operator.XOR, Operator.OR, Operator.LOOP])):
+        if not pt_util.is_operator(choice, Operator.LOOP) and not pt_util.is_in_state(
+                choice, ProcessTree.OperatorState.OPEN, old_state) and pt_util.is_in_state(
+                choice, ProcessTree.OperatorState.OPEN, new_state):
+            return True
+        if pt_util.is_any_operator_of(choice, [Operator.OR, Operator.LOOP]):
+            for child in choice.children:
+                if old_state.get((id(child), child), ProcessTree.OperatorState.FUTURE) in {
+                    ProcessTree.OperatorState.FUTURE, ProcessTree.OperatorState.CLOSED} and \
+                        old_state.get((id(child), child)) != new_state.get((id(child), child)):
                     return True
     return False
 
-- 
2.43.0


From c1e49fa15fc661d9b1f3caa6baa0ee9572f4fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:57 +0000
Subject: [PATCH 134/276] fix: process tree alignments: identify the children
 of a sequence by identity

---
 .../process_tree/util/search_graph_pt_replay_semantics.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
index 41427d1..871ab4f 100644
--- a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
+++ b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
@@ -58,9 +58,9 @@ def can_enable(tree: ProcessTree, state: ProcessTreeState) -> bool:
                 return frozenset(map(lambda child: state[(id(child), child)], tree.parent.children)) == {
                     ProcessTree.OperatorState.FUTURE}
             elif ptu.is_operator(tree.parent, Operator.SEQUENCE):
-                return True if tree.parent.children.index(tree) == 0 else ptu.is_in_state(
-                    tree.parent.children[tree.parent.children.index(tree) - 1],
-                    ProcessTree.OperatorState.CLOSED, state)
+                index = [id(child) for child in tree.parent.children].index(id(tree))
+                return True if index == 0 else ptu.is_in_state(tree.parent.children[index - 1],
+                                                               ProcessTree.OperatorState.CLOSED, state)
             elif ptu.is_operator(tree.parent, Operator.LOOP):
                 return frozenset(map(lambda child: state[(id(child), child)], tree.parent.children)) == {
                     ProcessTree.OperatorState.FUTURE, ProcessTree.OperatorState.CLOSED}
-- 
2.43.0


From 114d7848dd98edf4ee9fff0ac11f7289a2a3d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 135/276] fix: DFG alignments: report the moves on the model
 before the first event and the moves on the log after the end

---
 .../conformance/alignments/dfg/variants/classic.py   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/dfg/variants/classic.py b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
index a499a86..d0db5a2 100644
--- a/pm4py/algo/conformance/alignments/dfg/variants/classic.py
+++ b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
@@ -487,18 +487,18 @@ def __return_alignment(state, trace, closed):
     visited = state[POSITION_NUM_VISITED]
     moves = []
     while state[POSITION_PREV] is not None:
-        state = state[POSITION_PREV]
-        is_lm = state[POSITION_IS_LM]
+        prev_state = state[POSITION_PREV]
         is_mm = state[POSITION_IS_MM]
-        pl = -state[POSITION_LOG] - 1
-        if pl >= 0:
+        # the transition to the end node is not a move
+        if is_mm or state[POSITION_LOG] != prev_state[POSITION_LOG]:
             lm = ">>"
             mm = ">>"
-            if not is_lm:
+            if not state[POSITION_IS_LM]:
                 mm = state[POSITION_MODEL]
             if not is_mm:
-                lm = trace[pl]
+                lm = trace[-state[POSITION_LOG] - 1]
             moves.append((lm, mm))
+        state = prev_state
     moves.reverse()
 
     return {Outputs.ALIGNMENT.value: moves, Outputs.COST.value: cost, Outputs.VISITED.value: visited,
-- 
2.43.0


From 625b7f8d9d8364ac2fff81fae004957622b1480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 136/276] fix: projection of a log on a DFG/variant: take the
 timestamps of the synchronous events

---
 pm4py/algo/conformance/alignments/dfg/variants/classic.py       | 2 +-
 .../alignments/edit_distance/variants/edit_distance.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/dfg/variants/classic.py b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
index d0db5a2..b9302c0 100644
--- a/pm4py/algo/conformance/alignments/dfg/variants/classic.py
+++ b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
@@ -574,7 +574,7 @@ def project_log_on_dfg(log: Union[EventLog, pd.DataFrame], dfg: Dict[Tuple[str,
             for j in range(len(alignment)):
                 if alignment[j][1] == ">>":
                     # move on log
-                    pass
+                    z = z + 1
                 elif alignment[j][0] == ">>" or alignment[j][0] == alignment[j][1]:
                     is_conforming = False
                     if alignment[j][0] != ">>":
diff --git a/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py b/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
index 62cd819..0fec832 100644
--- a/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
+++ b/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
@@ -252,7 +252,7 @@ def project_log_on_variant(log: Union[EventLog, pd.DataFrame], variant: List[str
             for j in range(len(alignment)):
                 if alignment[j][1] == ">>":
                     # move on log
-                    pass
+                    z = z + 1
                 elif alignment[j][0] == ">>" or alignment[j][0] == alignment[j][1]:
                     is_conforming = False
                     if alignment[j][0] != ">>":
-- 
2.43.0


From bb258b2297cae8caa226473c9884b68592ce401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 137/276] fix: projection of a log on a variant: keep the empty
 traces

---
 .../alignments/edit_distance/variants/edit_distance.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py b/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
index 0fec832..018faf2 100644
--- a/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
+++ b/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
@@ -264,6 +264,6 @@ def project_log_on_variant(log: Union[EventLog, pd.DataFrame], variant: List[str
                                    "@@is_conforming": is_conforming})
                     projected_trace.append(event)
 
-            projected_log.append(projected_trace)
+        projected_log.append(projected_trace)
 
     return projected_log
-- 
2.43.0


From a4227c7273b39372f5d87ad1765096e74359e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 138/276] fix: argmax_levenshtein: return a string also when
 all of them are equal to the given one

---
 pm4py/util/string_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/util/string_distance.py b/pm4py/util/string_distance.py
index 9217e65..51726a9 100644
--- a/pm4py/util/string_distance.py
+++ b/pm4py/util/string_distance.py
@@ -109,7 +109,7 @@ def argmax_levenshtein(stru: str, list_stri: List[str]) -> Union[str, None]:
     if list_stri:
         len_stru = len(stru)
         argmax_dist = None
-        max_edit_dist = 0
+        max_edit_dist = -1
         # sort the strings in the list based on the actual length in comparison
         # to the provided string
         list_stri = sorted(list_stri, key=lambda x: -len(x))
-- 
2.43.0


From 73aaa1414961bd4854f33078e3c8e157ed4bfa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 139/276] fix: temporal profile diagnostics: recognise a
 dataframe

---
 pm4py/algo/conformance/temporal_profile/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/temporal_profile/algorithm.py b/pm4py/algo/conformance/temporal_profile/algorithm.py
index e4ab4b6..cdda936 100644
--- a/pm4py/algo/conformance/temporal_profile/algorithm.py
+++ b/pm4py/algo/conformance/temporal_profile/algorithm.py
@@ -89,7 +89,7 @@ def get_diagnostics_dataframe(elog: Union[EventLog, pd.DataFrame], conf_result:
     if parameters is None:
         parameters = {}
 
-    if pandas_utils.check_is_pandas_dataframe(log):
+    if pandas_utils.check_is_pandas_dataframe(elog):
         case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         cases = pandas_utils.format_unique(elog[case_id_key].unique())
     else:
-- 
2.43.0


From 5115065ff02dc413670fa3166cc67add9be57d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 140/276] fix: business hours of dataframes without any pair of
 events

---
 .../discovery/dfg/adapters/pandas/df_statistics.py     | 10 ++++++----
 .../network_analysis/variants/dataframe.py             |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 909c6e7..cfaa1bd 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -123,8 +123,9 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
         if business_hours:
             if business_hours_slot is None:
                 business_hours_slot = constants.DEFAULT_BUSINESS_HOUR_SLOTS
-            df_successive_rows[constants.DEFAULT_FLOW_TIME] = df_successive_rows.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_key], x[start_timestamp_key + '_2'], business_hours_slot, workcalendar), axis=1)
+            df_successive_rows[constants.DEFAULT_FLOW_TIME] = [
+                soj_time_business_hours_diff(st, et, business_hours_slot, workcalendar) for st, et in
+                zip(df_successive_rows[timestamp_key], df_successive_rows[start_timestamp_key + '_2'])]
         else:
             difference = df_successive_rows[start_timestamp_key + '_2'] - df_successive_rows[timestamp_key]
             df_successive_rows[constants.DEFAULT_FLOW_TIME] = pandas_utils.get_total_seconds(difference)
@@ -243,8 +244,9 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
     if business_hours:
         if business_hours_slot is None:
             business_hours_slot = constants.DEFAULT_BUSINESS_HOUR_SLOTS
-        df[constants.DEFAULT_FLOW_TIME] = df.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_key], x[start_timestamp_key + '_2'], business_hours_slot, workcalendar), axis=1)
+        df[constants.DEFAULT_FLOW_TIME] = [
+            soj_time_business_hours_diff(st, et, business_hours_slot, workcalendar) for st, et in
+            zip(df[timestamp_key], df[start_timestamp_key + '_2'])]
     else:
         df[constants.DEFAULT_FLOW_TIME] = pandas_utils.get_total_seconds(df[start_timestamp_key + "_2"] - df[timestamp_key])
 
diff --git a/pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py b/pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py
index e94bf7f..6bbbec1 100644
--- a/pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py
+++ b/pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py
@@ -94,9 +94,9 @@ Dict[Tuple[str, str], Dict[str, Any]]:
     edges = {}
 
     if business_hours:
-        merged_df[timestamp_diff_column] = merged_df.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_column + "_out"], x[timestamp_column + "_in"],
-                                                   business_hours_slots), axis=1)
+        merged_df[timestamp_diff_column] = [
+            soj_time_business_hours_diff(st, et, business_hours_slots) for st, et in
+            zip(merged_df[timestamp_column + "_out"], merged_df[timestamp_column + "_in"])]
 
     else:
         merged_df[timestamp_diff_column] = pandas_utils.get_total_seconds(merged_df[timestamp_column + "_in"] - merged_df[timestamp_column + "_out"])
-- 
2.43.0


From e7f315f898f2d34acb3fd2bdbf693a9799faf746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 141/276] fix: OCEL 2.0 SQLite importer: object tables without
 time column

---
 pm4py/objects/ocel/importer/sqlite/variants/ocel20.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
index ad84a3a..d819202 100644
--- a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
@@ -132,7 +132,8 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None):
         objects = object_types_coll
         object_changes = None
 
-    del objects[event_timestamp]
+    if event_timestamp in objects:
+        del objects[event_timestamp]
     del objects[cumcount_field]
 
     E2O = pd.read_sql("SELECT * FROM event_object", conn)
-- 
2.43.0


From f3dd980cf83008404c02ed1abe888b08d0b0a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 142/276] fix: OCEL 2.0 JSON exporter: object changes of
 objects without static attributes

---
 .../objects/ocel/exporter/jsonocel/variants/ocel20_standard.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
index 8849068..3e5c1e6 100644
--- a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
@@ -98,7 +98,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
         oid = change["ocel:oid"]
         obj = json_object["objects"][obj_idx[oid]]
 
-        obj["attributes"].append(
+        obj.setdefault("attributes", []).append(
             {"name": change["ocel:field"], "time": change["ocel:timestamp"], "value": change[change["ocel:field"]]})
 
         json_object["objects"][obj_idx[oid]] = obj
-- 
2.43.0


From 06037b22e00020eec6cc926b18dc5765facc8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 143/276] fix: OCEL 2.0 JSON importer: a first attribute value
 with a later time stamp is an object change

---
 .../ocel/importer/jsonocel/variants/ocel20_standard.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
index cd705b2..4e1de69 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
@@ -79,7 +79,9 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         dct["ocel:ovmap"] = {}
         if "attributes" in obj and obj["attributes"]:
             for x in obj["attributes"]:
-                if x["name"] in dct["ocel:ovmap"]:
+                attribute_time = str(x.get("time", "0"))
+                is_initial = attribute_time == "0" or attribute_time.startswith("1970-01-01T00:00:00")
+                if x["name"] in dct["ocel:ovmap"] or not is_initial:
                     legacy_obj["ocel:objectChanges"].append({"ocel:oid": obj["id"], "ocel:type": obj["type"], "ocel:field": x["name"], x["name"]: x["value"], "ocel:timestamp": x["time"]})
                 else:
                     dct["ocel:ovmap"][x["name"]] = x["value"]
-- 
2.43.0


From df336dc706d7716d57d5fd352a4865fe3687bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 144/276] fix: OCEL 2.0 XML: missing qualifiers

---
 .../ocel/exporter/xmlocel/variants/ocel20.py        | 13 ++++++++++---
 .../ocel/importer/xmlocel/variants/ocel20.py        |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
index dda1b26..0752095 100644
--- a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
@@ -41,6 +41,13 @@ class Parameters(Enum):
 RELOBJ_TAG = "relationship"
 
 
+def __get_qualifier(value) -> str:
+    """
+    A missing qualifier is written as an empty string (the attribute is required)
+    """
+    return "" if pd.isna(value) else str(value)
+
+
 def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = None):
     if parameters is None:
         parameters = {}
@@ -154,8 +161,8 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
             object_objects = etree.SubElement(object, "objects")
             for i in range(len(o2o_dict[objid][0])):
                 object_object = etree.SubElement(object_objects, RELOBJ_TAG)
-                object_object.set("object-id", o2o_dict[objid][0][i])
-                object_object.set("qualifier", o2o_dict[objid][1][i])
+                object_object.set("object-id", str(o2o_dict[objid][0][i]))
+                object_object.set("qualifier", __get_qualifier(o2o_dict[objid][1][i]))
 
     events = etree.SubElement(root, "events")
     for evid, eve in events0.items():
@@ -171,7 +178,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
             for i in range(len(this_ids)):
                 event_object = etree.SubElement(event_objects, RELOBJ_TAG)
                 event_object.set("object-id", str(this_ids[i]))
-                event_object.set("qualifier", str(this_qualifiers[i]))
+                event_object.set("qualifier", __get_qualifier(this_qualifiers[i]))
         eve = {x: y for x, y in eve.items() if not x.startswith("ocel:") and y is not None and not pd.isna(y)}
         if len(eve) > 0:
             for k, v in eve.items():
diff --git a/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
index 69208d1..acf3657 100644
--- a/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
@@ -129,7 +129,7 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
                     if child2.tag.endswith("objects"):
                         for target_object in child2:
                             target_object_id = target_object.get("object-id")
-                            qualifier = target_object.get("qualifier")
+                            qualifier = target_object.get("qualifier") or None
 
                             o2o_dict = {object_id_column: object_id, object_id_column+"_2": target_object_id, qualifier_field: qualifier}
                             o2o_list.append(o2o_dict)
@@ -168,7 +168,7 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
                     if child2.tag.endswith("objects"):
                         for target_object in child2:
                             target_object_id = target_object.get("object-id")
-                            qualifier = target_object.get("qualifier")
+                            qualifier = target_object.get("qualifier") or None
 
                             if target_object_id in obj_type_dict:
                                 rel_dict = {event_id_column: event_id, event_activity_column: event_type, event_timestamp_column: event_time, object_id_column: target_object_id, object_type_column: obj_type_dict[target_object_id], qualifier_field: qualifier}
-- 
2.43.0


From 513bc3d3840d6a9825cf86674aebab15c4ff8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 145/276] fix: OCEL exporters keep fractions of seconds and
 time zones

---
 pm4py/objects/ocel/exporter/util/clean_dataframes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/util/clean_dataframes.py b/pm4py/objects/ocel/exporter/util/clean_dataframes.py
index 6365dd5..6ce6daa 100644
--- a/pm4py/objects/ocel/exporter/util/clean_dataframes.py
+++ b/pm4py/objects/ocel/exporter/util/clean_dataframes.py
@@ -31,13 +31,13 @@ def get_dataframes_from_ocel(ocel: OCEL, parameters: Optional[Dict[Any, Any]] =
         if str(events[col].dtype) == "object":
             events[col] = events[col].astype('string')
         elif "date" in str(events[col].dtype):
-            events[col] = events[col].dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+            events[col] = pd.to_datetime(events[col], utc=True).dt.strftime('%Y-%m-%dT%H:%M:%S.%fZ')
 
     objects = ocel.objects.copy()
     for col in objects.columns:
         if str(objects[col].dtype) == "object":
             objects[col] = objects[col].astype('string')
         elif "date" in str(objects[col].dtype):
-            objects[col] = objects[col].dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+            objects[col] = pd.to_datetime(objects[col], utc=True).dt.strftime('%Y-%m-%dT%H:%M:%S.%fZ')
 
     return events, objects
-- 
2.43.0


From 2f19b3b8a85ecb8deaa1265469c97e69c05b6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:02 +0000
Subject: [PATCH 146/276] fix: OCEL 2.0 SQLite exporter: distinct table names

---
 .../ocel/exporter/sqlite/variants/ocel20.py   | 32 ++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
index 79a91a8..3264dea 100644
--- a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
@@ -15,7 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 from pm4py.objects.ocel.obj import OCEL
-from typing import Optional, Dict, Any
+from typing import Optional, Dict, Any, List
 import os
 import pandas as pd
 from datetime import datetime
@@ -29,6 +29,25 @@ class Parameters(Enum):
     ENABLE_NAMES_STRIPPING = "enable_names_stripping"
 
 
+def __get_table_suffixes(types: List[str]) -> List[str]:
+    """
+    Gets the (distinct) suffixes of the names of the tables of the given types.
+    The names of the tables are not case-sensitive, and some of them are reserved.
+    """
+    used = {"object", "map_type"}
+    suffixes = []
+    for typ in types:
+        base = names_stripping.apply(typ)
+        suffix = base
+        count = 1
+        while suffix.lower() in used or not suffix:
+            count = count + 1
+            suffix = base + str(count)
+        used.add(suffix.lower())
+        suffixes.append(suffix)
+    return suffixes
+
+
 def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = None):
     if parameters is None:
         parameters = {}
@@ -67,8 +86,11 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
     OBJECT_CORR_TYPE = pandas_utils.instantiate_dataframe({"ocel_type": object_types, "ocel_type_map": object_types})
 
     if enable_names_stripping:
-        EVENT_CORR_TYPE["ocel_type_map"] = EVENT_CORR_TYPE["ocel_type_map"].apply(lambda x: names_stripping.apply(x))
-        OBJECT_CORR_TYPE["ocel_type_map"] = OBJECT_CORR_TYPE["ocel_type_map"].apply(lambda x: names_stripping.apply(x))
+        EVENT_CORR_TYPE["ocel_type_map"] = __get_table_suffixes(event_types)
+        OBJECT_CORR_TYPE["ocel_type_map"] = __get_table_suffixes(object_types)
+
+    event_type_map = dict(zip(EVENT_CORR_TYPE["ocel_type"], EVENT_CORR_TYPE["ocel_type_map"]))
+    object_type_map = dict(zip(OBJECT_CORR_TYPE["ocel_type"], OBJECT_CORR_TYPE["ocel_type_map"]))
 
     EVENT_CORR_TYPE.to_sql("event_map_type", conn, index=False)
     OBJECT_CORR_TYPE.to_sql("object_map_type", conn, index=False)
@@ -88,7 +110,7 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
         df = df.rename(columns={event_id: "ocel_id", event_timestamp: "ocel_time"})
         df["ocel_id"] = df["ocel_id"].astype("string")
 
-        act_red = names_stripping.apply(act) if enable_names_stripping else act
+        act_red = event_type_map[act]
 
         df = df.drop_duplicates()
         df.to_sql("event_"+act_red, conn, index=False)
@@ -106,7 +128,7 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
 
         df["ocel_id"] = df["ocel_id"].astype("string")
 
-        ot_red = names_stripping.apply(ot) if enable_names_stripping else ot
+        ot_red = object_type_map[ot]
 
         df.to_sql("object_"+ot_red, conn, index=False)
 
-- 
2.43.0


From 6a10582da74ba4173ce6f534902bd2465a9f5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 147/276] fix: JSON-OCEL importer keeps every qualifier of an
 event-object pair

---
 .../ocel/importer/jsonocel/variants/classic.py        | 11 +++++++----
 .../importer/jsonocel/variants/ocel20_standard.py     |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/classic.py b/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
index bc33981..177cd13 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
@@ -80,17 +80,20 @@ def get_base_ocel(json_obj: Any, parameters: Optional[Dict[Any, Any]] = None):
         this_rel = {}
         for obj in ev[constants.OCEL_OMAP_KEY]:
             if obj in types_dict:
-                this_rel[obj] = {event_id: ev_id, event_activity: ev[event_activity],
+                this_rel[obj] = [{event_id: ev_id, event_activity: ev[event_activity],
                                   event_timestamp: parser.apply(ev[event_timestamp]), object_id: obj,
-                                  object_type: types_dict[obj]}
+                                  object_type: types_dict[obj]}]
         if constants.OCEL_TYPED_OMAP_KEY in ev:
             for element in ev[constants.OCEL_TYPED_OMAP_KEY]:
                 if object_id in element:
                     key1 = element[object_id]
                     if key1 in this_rel:
-                        this_rel[key1][constants.DEFAULT_QUALIFIER] = element[constants.DEFAULT_QUALIFIER]
+                        if constants.DEFAULT_QUALIFIER in this_rel[key1][-1]:
+                            # the object is related to the event with more than one qualifier
+                            this_rel[key1].append(dict(this_rel[key1][-1]))
+                        this_rel[key1][-1][constants.DEFAULT_QUALIFIER] = element[constants.DEFAULT_QUALIFIER]
         for obj in this_rel:
-            relations.append(this_rel[obj])
+            relations.extend(this_rel[obj])
         events.append(dct)
 
     if constants.OCEL_OBJCHANGES_KEY in json_obj:
diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
index 4e1de69..828009e 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
@@ -70,7 +70,7 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         dct["ocel:typedOmap"] = []
         if "relationships" in eve and eve["relationships"]:
             dct["ocel:typedOmap"] = [{"ocel:oid": x["objectId"], "ocel:qualifier": x["qualifier"]} for x in eve["relationships"]]
-        dct["ocel:omap"] = list(set(x["ocel:oid"] for x in dct["ocel:typedOmap"]))
+        dct["ocel:omap"] = list(dict.fromkeys(x["ocel:oid"] for x in dct["ocel:typedOmap"]))
         legacy_obj["ocel:events"][eve["id"]] = dct
 
     for obj in json_obj["objects"]:
-- 
2.43.0


From 19352f5e1e9326e8975fdf1adaaaa9110d900b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 148/276] fix: connected components of an OCEL include isolated
 objects

---
 .../ocel/split_ocel/variants/connected_components.py          | 1 +
 pm4py/filtering.py                                            | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
index 22ac53b..0635c45 100644
--- a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
+++ b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
@@ -57,6 +57,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
 
     g0 = object_interaction_graph.apply(ocel, parameters=parameters)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.relations[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index 7b49ce3..efdcc44 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1144,6 +1144,7 @@ def filter_ocel_cc_object(ocel: OCEL, object_id: str, conn_comp: Optional[List[L
 
         g0 = object_interaction_graph.apply(ocel)
         g = nx_utils.Graph()
+        g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
         for edge in g0:
             g.add_edge(edge[0], edge[1])
@@ -1187,6 +1188,7 @@ def filter_ocel_cc_length(ocel: OCEL, min_cc_length: int, max_cc_length: int) ->
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
@@ -1227,6 +1229,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
@@ -1265,6 +1268,7 @@ def filter_ocel_cc_activity(ocel: OCEL, activity: str) -> OCEL:
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
-- 
2.43.0


From 93e7517eec25fb5e7917b4e21f536222884de1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 149/276] fix: filter_ocel_cc_otype: negative filter discards
 the components of the type

---
 pm4py/filtering.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index efdcc44..926dd55 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1220,10 +1220,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
         ocel = pm4py.read_ocel('log.jsonocel')
         filtered_ocel = pm4py.filter_ocel_cc_otype(ocel, 'order')
     """
-    if positive:
-        objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
-    else:
-        objs = set(ocel.objects[~(ocel.objects[ocel.object_type_column] == otype)][ocel.object_id_column])
+    objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
 
     from pm4py.algo.transformation.ocel.graphs import object_interaction_graph
 
@@ -1235,7 +1232,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
         g.add_edge(edge[0], edge[1])
 
     conn_comp = list(nx_utils.connected_components(g))
-    conn_comp = [x for x in conn_comp if len(set(x).intersection(objs)) > 0]
+    conn_comp = [x for x in conn_comp if (len(set(x).intersection(objs)) > 0) == positive]
 
     objs = [y for x in conn_comp for y in x]
 
-- 
2.43.0


From 9d010ddc8070b54ca724a889fe01626c785e128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 150/276] fix: object-centric Petri nets: types without events

---
 pm4py/algo/discovery/ocel/ocpn/variants/classic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/algo/discovery/ocel/ocpn/variants/classic.py b/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
index cbc9163..2d8054a 100644
--- a/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
+++ b/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
@@ -107,6 +107,10 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Dict[str,
     tbr_results = {}
 
     for ot in ocpn["object_types"]:
+        if ot not in ocpn["activities_ot"]["total_objects"]:
+            # no event is related to an object of this type
+            continue
+
         activities_eo = ocpn["activities_ot"]["total_objects"][ot]
 
         start_activities = {x: len(y) for x, y in ocpn["start_activities"]["events"][ot].items()}
-- 
2.43.0


From 32a06cafa83ae6acac76f468c4e4d089c31b3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:55 +0000
Subject: [PATCH 151/276] fix: conversion of traditional dataframes to OCEL

---
 pm4py/objects/ocel/util/log_ocel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/ocel/util/log_ocel.py b/pm4py/objects/ocel/util/log_ocel.py
index 9006bf8..f250a2a 100644
--- a/pm4py/objects/ocel/util/log_ocel.py
+++ b/pm4py/objects/ocel/util/log_ocel.py
@@ -141,7 +141,7 @@ def __get_events_dataframe(df: pd.DataFrame, activity_key: str, timestamp_key: s
     Internal method to get the events dataframe out of a traditional log stored as Pandas dataframe
     """
     columns = {case_id_key}.union(set(x for x in df.columns if not x.startswith(case_attribute_prefix)))
-    df = df[columns]
+    df = df[[x for x in df.columns if x in columns]]
     df = df.rename(columns={activity_key: ocel_constants.DEFAULT_EVENT_ACTIVITY,
                             timestamp_key: ocel_constants.DEFAULT_EVENT_TIMESTAMP,
                             case_id_key: ocel_constants.DEFAULT_OBJECT_ID})
@@ -155,7 +155,7 @@ def __get_objects_dataframe(df: pd.DataFrame, case_id_key: str, case_attribute_p
     Internal method to get the objects dataframe out of a traditional log stored as Pandas dataframe
     """
     columns = {x for x in df.columns if x.startswith(case_attribute_prefix)}
-    df = df[columns]
+    df = df[[x for x in df.columns if x in columns]]
     df = df.rename(columns={case_id_key: ocel_constants.DEFAULT_OBJECT_ID})
     df = df.groupby(ocel_constants.DEFAULT_OBJECT_ID).first().reset_index()
     df[ocel_constants.DEFAULT_OBJECT_TYPE] = target_object_type
@@ -267,14 +267,14 @@ def from_interleavings(df1: pd.DataFrame, df2: pd.DataFrame, interleavings: pd.D
     relations1 = __get_relations_from_events(events1, target_object_type)
 
     relations1_minimal = relations1[
-        {ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE}]
+        [ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE]]
 
     events2 = __get_events_dataframe(df2, activity_key, timestamp_key, case_id_key, case_attribute_prefix,
                                      events_prefix="E2_")
     objects2 = __get_objects_dataframe(df2, case_id_key, case_attribute_prefix, target_object_type_2)
     relations2 = __get_relations_from_events(events2, target_object_type_2)
     relations2_minimal = relations2[
-        {ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE}]
+        [ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE]]
 
     interleavings[left_index] = "E1_" + interleavings[left_index].astype(int).astype(str)
     interleavings[right_index] = "E2_" + interleavings[right_index].astype(int).astype(str)
-- 
2.43.0


From be8856a1d90db13b7867ea1a137d136f96affcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 152/276] fix: lifecycle enrichment of an OCEL leaves its input
 unchanged

---
 pm4py/objects/ocel/util/e2o_qualification.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/objects/ocel/util/e2o_qualification.py b/pm4py/objects/ocel/util/e2o_qualification.py
index fbda6be..dfc509e 100644
--- a/pm4py/objects/ocel/util/e2o_qualification.py
+++ b/pm4py/objects/ocel/util/e2o_qualification.py
@@ -34,6 +34,7 @@ def apply(ocel: OCEL, qualifier_type: str, parameters: Optional[Dict[Any, Any]]
     concat_column = exec_utils.get_param_value(Parameters.CONCAT_COLUMN, parameters, "@@concat")
 
     ocel = copy(ocel)
+    ocel.relations = ocel.relations.copy()
     ocel.relations[concat_column] = ocel.relations[ocel.event_id_column] + concatener + ocel.relations[ocel.object_id_column]
     relations = ocel.relations.groupby(ocel.object_id_column)[ocel.event_id_column]
 
-- 
2.43.0


From 0e8dbcb03bf579fe1cab6112c3c32ca6e58839f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 153/276] fix: link analysis: missing values do not link events

---
 pm4py/algo/discovery/ocel/link_analysis/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py b/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
index ee0ae72..cda66ee 100644
--- a/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
+++ b/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
@@ -117,7 +117,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Any, Any]] = None)
     dataframe = dataframe.sort_values(sorting_column)
     dataframe = pandas_utils.insert_index(dataframe, index_column)
 
-    df_red1 = dataframe[[out_column, index_column]]
+    df_red1 = dataframe[[out_column, index_column]].dropna(subset=[out_column])
     df_red2 = dataframe[[in_column, index_column]]
     df_red = df_red1.merge(df_red2, left_on=out_column, right_on=in_column, suffixes=("_out", "_in"))
 
-- 
2.43.0


From dc87a8b82574645bc20f8d32b0d843a7402951a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 154/276] fix: o2o enrichment: use the inheritance graph

---
 pm4py/algo/transformation/ocel/graphs/ocel20_computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
index b5ac28a..17e3578 100644
--- a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
+++ b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
@@ -66,7 +66,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         for el in graph:
             o2o.add((el[0], el[1], "object_descendants_graph"))
     if "object_inheritance_graph" in included_graphs:
-        graph = object_descendants_graph.apply(ocel, parameters=parameters)
+        graph = object_inheritance_graph.apply(ocel, parameters=parameters)
         for el in graph:
             o2o.add((el[0], el[1], "object_inheritance_graph"))
     if "object_cobirth_graph" in included_graphs:
-- 
2.43.0


From 69ae4beaa72ccaf42626dfba584f0df364d01567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 155/276] fix: object graphs: events without objects

---
 pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py | 2 +-
 pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py | 2 +-
 .../transformation/ocel/graphs/object_descendants_graph.py    | 2 +-
 .../transformation/ocel/graphs/object_inheritance_graph.py    | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py b/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
index 919be94..e7389c1 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
diff --git a/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py b/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
index 198b257..b61b80f 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     ordered_events.reverse()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
diff --git a/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py b/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
index 5a79ce0..cf38ec3 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
         if rel_obj_seen and rel_obj_unseen:
diff --git a/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py b/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
index 08bab77..8c87c32 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
@@ -52,7 +52,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     ordered_events_revert.reverse()
 
     for ev in ordered_events_revert:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
@@ -63,7 +63,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
         rel_obj_last = {x for x in rel_obj if last_event_per_obj[x] == ev}
-- 
2.43.0


From d5a4387365012e6098214318cc6914ec405e4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 156/276] fix: o2o enrichment: import the inheritance graph

---
 pm4py/algo/transformation/ocel/graphs/ocel20_computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
index 17e3578..7b24950 100644
--- a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
+++ b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
@@ -17,7 +17,7 @@
 
 from enum import Enum
 from pm4py.util import exec_utils, pandas_utils
-from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_cobirth_graph, object_codeath_graph
+from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_inheritance_graph, object_cobirth_graph, object_codeath_graph
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
 from copy import copy
-- 
2.43.0


From 873066e916f8210a47675143b66db7d58511f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 157/276] fix: timestamp interleavings: no overflow for
 artificial events

---
 .../ocel/interleavings/variants/timestamp_interleavings.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py b/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
index eba53bc..e17c2c9 100644
--- a/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
+++ b/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
@@ -116,6 +116,8 @@ def apply(left_df: pd.DataFrame, right_df: pd.DataFrame, case_relations: pd.Data
 
     md = pandas_utils.concat([df1, df2])
     md = md.sort_values([index_key+left_suffix, index_key+right_suffix])
-    md[timestamp_diff] = pandas_utils.get_total_seconds(md[target_timestamp] - md[source_timestamp])
+    # the artificial start/end events are placed at the extremes of the representable interval,
+    # so the difference is calculated on the seconds (a timedelta may overflow)
+    md[timestamp_diff] = pandas_utils.convert_to_seconds(md[target_timestamp]) - pandas_utils.convert_to_seconds(md[source_timestamp])
 
     return md
-- 
2.43.0


From 80294f9b2bd3788f4c4579fdb84144288a3c5d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 158/276] fix: XES importers: nested attributes at the chunk
 boundaries of the document

---
 pm4py/objects/log/importer/xes/variants/iterparse.py          | 4 ++--
 pm4py/objects/log/importer/xes/variants/iterparse_20.py       | 4 ++--
 .../log/importer/xes/variants/iterparse_mem_compressed.py     | 4 ++--
 pm4py/streaming/importer/xes/variants/xes_event_stream.py     | 4 ++--
 pm4py/streaming/importer/xes/variants/xes_trace_stream.py     | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse.py b/pm4py/objects/log/importer/xes/variants/iterparse.py
index 28702eb..f2015ad 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse.py
@@ -23,7 +23,7 @@ from io import BytesIO
 
 from pm4py.objects.log.obj import EventLog, Trace, Event
 from pm4py.objects.log.util import sorting
-from pm4py.util import exec_utils, constants
+from pm4py.util import exec_utils, constants, lookahead
 from pm4py.util import xes_constants
 from pm4py.util.dt_parsing import parser as dt_parser
 
@@ -109,7 +109,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     tree = {}
 
-    for tree_event, elem in context:
+    for tree_event, elem in lookahead.apply(context):
         if tree_event == _EVENT_START:  # starting to read
             parent = tree[elem.getparent()] if elem.getparent() in tree else None
 
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_20.py b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
index 585d730..641ba81 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_20.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
@@ -23,7 +23,7 @@ from io import BytesIO
 
 from pm4py.objects.log.obj import EventLog, Trace, Event
 from pm4py.objects.log.util import sorting
-from pm4py.util import exec_utils, constants
+from pm4py.util import exec_utils, constants, lookahead
 from pm4py.util import xes_constants
 from pm4py.util.dt_parsing import parser as dt_parser
 
@@ -109,7 +109,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     tree = {}
 
-    for tree_event, elem in context:
+    for tree_event, elem in lookahead.apply(context):
         if tree_event == _EVENT_START:  # starting to read
             parent = tree[elem.getparent()] if elem.getparent() in tree else None
 
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index 511843a..57b5344 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -23,7 +23,7 @@ from io import BytesIO
 
 from pm4py.objects.log.obj import EventLog, Trace, Event
 from pm4py.objects.log.util import sorting
-from pm4py.util import exec_utils, constants
+from pm4py.util import exec_utils, constants, lookahead
 from pm4py.util import xes_constants
 from pm4py.util.dt_parsing import parser as dt_parser
 
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, log, parameters=None):
     tree = {}
     compression_dictio = {}
 
-    for tree_event, elem in context:
+    for tree_event, elem in lookahead.apply(context):
         if tree_event == _EVENT_START:  # starting to read
             parent = tree[elem.getparent()] if elem.getparent() in tree else None
 
diff --git a/pm4py/streaming/importer/xes/variants/xes_event_stream.py b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
index 1018fc1..bc4330b 100644
--- a/pm4py/streaming/importer/xes/variants/xes_event_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
@@ -18,7 +18,7 @@ import logging
 from enum import Enum
 
 from pm4py.objects.log.obj import Event, Trace
-from pm4py.util import xes_constants, exec_utils, constants
+from pm4py.util import xes_constants, exec_utils, constants, lookahead
 from pm4py.util.dt_parsing import parser as dt_parser
 
 
@@ -106,7 +106,7 @@ class StreamingEventXesReader:
         self.context = None
         self.tree = None
         # initialize the variables
-        self.context = etree.iterparse(self.path, events=[_EVENT_START, _EVENT_END])
+        self.context = lookahead.apply(etree.iterparse(self.path, events=[_EVENT_START, _EVENT_END]))
         self.event = None
         self.reading_log = True
         self.reading_event = False
diff --git a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
index e15b100..587388e 100644
--- a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
@@ -18,7 +18,7 @@ import logging
 from enum import Enum
 
 from pm4py.objects.log.obj import Trace, Event
-from pm4py.util import xes_constants, exec_utils
+from pm4py.util import xes_constants, exec_utils, lookahead
 from pm4py.util.dt_parsing import parser as dt_parser
 
 
@@ -106,7 +106,7 @@ class StreamingTraceXesReader:
         self.context = None
         self.tree = None
         # initialize the variables
-        self.context = etree.iterparse(self.path, events=[_EVENT_START, _EVENT_END])
+        self.context = lookahead.apply(etree.iterparse(self.path, events=[_EVENT_START, _EVENT_END]))
         self.trace = None
         self.event = None
         self.reading_log = True
-- 
2.43.0


From 9a1ffd233d09d9c3e925c3cfb487b0276a12fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 159/276] fix: XES importers: nested attributes inside lists

---
 .../log/importer/xes/variants/iterparse.py       | 12 ++++++++----
 .../log/importer/xes/variants/iterparse_20.py    | 16 ++++++++++------
 .../xes/variants/iterparse_mem_compressed.py     | 12 ++++++++----
 .../importer/xes/variants/xes_event_stream.py    | 12 ++++++++----
 .../importer/xes/variants/xes_trace_stream.py    | 12 ++++++++----
 5 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse.py b/pm4py/objects/log/importer/xes/variants/iterparse.py
index f2015ad..dbcbfb3 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse.py
@@ -422,10 +422,14 @@ def __parse_attribute(elem, store, key, value, tree):
             store[key] = value
     else:
         if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
             tree[elem.getchildren()[0]] = tree[elem]
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
+        if type(store) is list:
+            store.append((key, nested_value))
+        else:
+            store[key] = nested_value
     return tree
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_20.py b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
index 641ba81..7815bdc 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_20.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
@@ -424,12 +424,16 @@ def __parse_attribute(elem, store, key, value, tree):
             store[key] = value
     else:
         if elem.tag.endswith(xes_constants.TAG_LIST):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
         elif elem.tag.endswith(xes_constants.TAG_CONTAINER):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: set()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: set()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
+        if type(store) is list:
+            store.append((key, nested_value))
+        else:
+            store[key] = nested_value
     return tree
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index 57b5344..8aea309 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -438,10 +438,14 @@ def __parse_attribute(elem, store, key, value, tree, compression_dict):
             store[key] = value
     else:
         if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
             tree[elem.getchildren()[0]] = tree[elem]
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
+        if type(store) is list:
+            store.append((key, nested_value))
+        else:
+            store[key] = nested_value
     return tree
diff --git a/pm4py/streaming/importer/xes/variants/xes_event_stream.py b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
index bc4330b..7cf396a 100644
--- a/pm4py/streaming/importer/xes/variants/xes_event_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
@@ -40,12 +40,16 @@ def parse_attribute(elem, store, key, value, tree):
             store[key] = value
     else:
         if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
             tree[elem.getchildren()[0]] = tree[elem]
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
+        if type(store) is list:
+            store.append((key, nested_value))
+        else:
+            store[key] = nested_value
     return tree
 
 
diff --git a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
index 587388e..aefccb6 100644
--- a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
@@ -40,12 +40,16 @@ def parse_attribute(elem, store, key, value, tree):
             store[key] = value
     else:
         if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
             tree[elem.getchildren()[0]] = tree[elem]
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            nested_value = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
+            tree[elem] = nested_value[xes_constants.KEY_CHILDREN]
+        if type(store) is list:
+            store.append((key, nested_value))
+        else:
+            store[key] = nested_value
     return tree
 
 
-- 
2.43.0


From 968546b17c2d729771fca2c614722c6493760dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:51 +0000
Subject: [PATCH 160/276] fix: streaming footprints conformance: keep the
 deviations of a case before its first known activity

---
 pm4py/streaming/algo/conformance/footprints/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/streaming/algo/conformance/footprints/variants/classic.py b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
index 9342c53..4f7948c 100644
--- a/pm4py/streaming/algo/conformance/footprints/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
@@ -116,7 +116,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         activity
             Activity
         """
-        if case not in self.case_dict.keys():
+        if case not in self.dev_dict.keys():
             self.dev_dict[case] = 0
         if activity in self.activities:
             if case not in self.case_dict.keys():
-- 
2.43.0


From 829a9160fbe40b2f3f6cdb76b02eda7427461b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:51 +0000
Subject: [PATCH 161/276] fix: streaming token-based replay: reach the final
 marking through invisible transitions

---
 pm4py/streaming/algo/conformance/tbr/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 1c0b491..39899fa 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -119,7 +119,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
         for el in shortest_path:
             if type(el[0]) is PetriNet.Place:
                 for sel in el[1]:
-                    spath = [x for x in el[1][sel][1:-2] if type(x) is PetriNet.Transition]
+                    spath = [x for x in el[1][sel][1:-1] if type(x) is PetriNet.Transition]
                     if spath:
                         if not el[0] in dictio_spaths:
                             dictio_spaths[el[0]] = {}
@@ -294,7 +294,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
         if case in self.case_dict:
             remaining = 0
             if not self.decode_marking(self.case_dict[case]) == self.fm:
-                new_marking = self.reach_fm_with_invisibles(self.case_dict[case])
+                new_marking = self.reach_fm_with_invisibles(self.decode_marking(self.case_dict[case]))
                 if new_marking is None:
                     new_marking = self.decode_marking(self.case_dict[case])
                 if not new_marking == self.fm:
-- 
2.43.0


From 2df7ef4ec213c0d2bcbb5f657282f61f3c1d0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:51 +0000
Subject: [PATCH 162/276] fix: streaming token-based replay: missing tokens
 when no path of invisible transitions exists

---
 pm4py/streaming/algo/conformance/tbr/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 39899fa..d1a8d3a 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -216,7 +216,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
                 for a in t.in_arcs:
                     pl = a.source
                     mark = a.weight
-                    if pl not in marking or new_marking[pl] < mark:
+                    if marking[pl] < mark:
                         self.missing[case] = int(self.missing[case]) + (mark - marking[pl])
                         marking[pl] = mark
                 new_marking = semantics.weak_execute(t, marking)
-- 
2.43.0


From e2b9ee2bd991fa6e7f9ebc236a5d085d00d8820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:51 +0000
Subject: [PATCH 163/276] fix: streaming token-based replay: missing and
 remaining tokens at the end of a case

---
 pm4py/streaming/algo/conformance/tbr/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index d1a8d3a..c7766df 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -303,11 +303,11 @@ class TbrStreamingConformance(StreamingAlgorithm):
                     for m in fm_copy:
                         if not m in new_marking:
                             new_marking[m] = 0
-                        self.missing[case] = int(self.missing[case]) + (fm_copy[m] - new_marking[m])
+                        self.missing[case] = int(self.missing[case]) + max(0, fm_copy[m] - new_marking[m])
                     for m in new_marking:
                         if not m in fm_copy:
                             fm_copy[m] = 0
-                        remaining += new_marking[m] - fm_copy[m]
+                        remaining += max(0, new_marking[m] - fm_copy[m])
             missing = int(self.missing[case])
             is_fit = missing == 0 and remaining == 0
             ret = {"marking": self.decode_marking(self.case_dict[case]), "missing": missing, "remaining": remaining, "is_fit": is_fit}
-- 
2.43.0


From a3682334d4a1863981833e002a735ce8879e310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:51 +0000
Subject: [PATCH 164/276] fix: live streams: every observer receives the events
 in the order of the stream

---
 pm4py/streaming/stream/live_event_stream.py | 13 ++++++++++++-
 pm4py/streaming/stream/live_trace_stream.py | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/pm4py/streaming/stream/live_event_stream.py b/pm4py/streaming/stream/live_event_stream.py
index 53aec69..dbf5283 100644
--- a/pm4py/streaming/stream/live_event_stream.py
+++ b/pm4py/streaming/stream/live_event_stream.py
@@ -39,6 +39,8 @@ class LiveEventStream:
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
         self._observers = set()
+        # for every observer, the events not yet received (in the order of the stream) and the lock to receive them
+        self._pending = dict()
         self._mail_man = None
         self._tp = ThreadPoolExecutor(exec_utils.get_param_value(Parameters.THREAD_POOL_SIZE, parameters, 6))
 
@@ -49,6 +51,12 @@ class LiveEventStream:
             self._cond.notify()
         self._cond.release()
 
+    def _dispatch(self, algo):
+        # the threads of the pool serve the same observer one at the time, in the order of the stream
+        lock, queue = self._pending[algo]
+        with lock:
+            algo.receive(queue.popleft())
+
     def _deliver(self):
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
@@ -61,7 +69,8 @@ class LiveEventStream:
                     return
             event = self._dq.popleft()
             for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+                self._pending[algo][1].append(event)
+                self._tp.submit(self._dispatch, algo)
             self._cond.release()
 
     def start(self):
@@ -84,6 +93,8 @@ class LiveEventStream:
     def register(self, algo):
         self._cond.acquire()
         self._observers.add(algo)
+        if algo not in self._pending:
+            self._pending[algo] = (threading.Lock(), collections.deque())
         self._cond.release()
 
     async def deregister(self, algo):
diff --git a/pm4py/streaming/stream/live_trace_stream.py b/pm4py/streaming/stream/live_trace_stream.py
index c9e56ec..a8d2f2b 100644
--- a/pm4py/streaming/stream/live_trace_stream.py
+++ b/pm4py/streaming/stream/live_trace_stream.py
@@ -39,6 +39,8 @@ class LiveTraceStream:
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
         self._observers = set()
+        # for every observer, the events not yet received (in the order of the stream) and the lock to receive them
+        self._pending = dict()
         self._mail_man = None
         self._tp = ThreadPoolExecutor(exec_utils.get_param_value(Parameters.THREAD_POOL_SIZE, parameters, 6))
 
@@ -49,6 +51,12 @@ class LiveTraceStream:
             self._cond.notify()
         self._cond.release()
 
+    def _dispatch(self, algo):
+        # the threads of the pool serve the same observer one at the time, in the order of the stream
+        lock, queue = self._pending[algo]
+        with lock:
+            algo.receive(queue.popleft())
+
     def _deliver(self):
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
@@ -61,7 +69,8 @@ class LiveTraceStream:
                     return
             event = self._dq.popleft()
             for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+                self._pending[algo][1].append(event)
+                self._tp.submit(self._dispatch, algo)
             self._cond.release()
 
     def start(self):
@@ -84,6 +93,8 @@ class LiveTraceStream:
     def register(self, algo):
         self._cond.acquire()
         self._observers.add(algo)
+        if algo not in self._pending:
+            self._pending[algo] = (threading.Lock(), collections.deque())
         self._cond.release()
 
     async def deregister(self, algo):
-- 
2.43.0


From 491fe1523cc7015268beaa52b6935ed9ea61ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 165/276] fix: network analysis: keep the order of the events
 having the same timestamp

---
 pm4py/algo/discovery/ocel/link_analysis/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py b/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
index cda66ee..36be17d 100644
--- a/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
+++ b/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
@@ -114,7 +114,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Any, Any]] = None)
     keep_first_occurrence = exec_utils.get_param_value(Parameters.KEEP_FIRST_OCCURRENCE, parameters, False)
     propagate = exec_utils.get_param_value(Parameters.PROPAGATE, parameters, False)
 
-    dataframe = dataframe.sort_values(sorting_column)
+    dataframe = dataframe.sort_values(sorting_column, kind="stable")
     dataframe = pandas_utils.insert_index(dataframe, index_column)
 
     df_red1 = dataframe[[out_column, index_column]].dropna(subset=[out_column])
-- 
2.43.0


From db77acd28dc9f285977e69a7233fa5139753b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 166/276] fix: resource profiles: social position on event logs
 considers the half-open interval

---
 .../resource_profiles/variants/log.py            | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index 4405337..5e07acf 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -616,15 +616,17 @@ def social_position(log: EventLog, t1_0: Union[datetime, str], t2_0: Union[datet
 
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
 
-    from pm4py.algo.filtering.log.timestamp import timestamp_filter
-    log = timestamp_filter.apply_events(log, t1_0, t2_0, parameters=parameters)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
+                                               xes_constants.DEFAULT_TIMESTAMP_KEY)
 
-    from pm4py.algo.filtering.log.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    t1 = get_dt_from_string(t1_0)
+    t2 = get_dt_from_string(t2_0)
 
-    filtered_log = attributes_filter.apply(log, [r], parameters=parameters_filter)
+    # considers the half-open interval, as all the other metrics (and the Pandas variant of this metric)
+    traces = [[x for x in trace if t1 <= x[timestamp_key] < t2] for trace in log]
+    traces = [trace for trace in traces if trace]
 
-    q1 = float(len(filtered_log))
-    q2 = float(len(log))
+    q1 = float(len([trace for trace in traces if any(x.get(resource_key) == r for x in trace)]))
+    q2 = float(len(traces))
 
     return q1/q2 if q2 > 0 else 0.0
-- 
2.43.0


From ebe455b0516edabf5b97f846e5016af7e8332701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 167/276] fix: resource profiles: workload with identical
 intervals of work

---
 .../resource_profiles/variants/log.py                    | 9 +++++----
 .../resource_profiles/variants/pandas.py                 | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index 5e07acf..e9a5b63 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -353,10 +353,11 @@ def __compute_workload(log: EventLog, resource: Optional[str] = None, activity:
     tree = IntervalTree()
     ev_map = {}
     k = 0.000001
-    for ev in events:
-        tree.add(Interval(ev[0], ev[1] + k))
-    for ev in events:
-        ev_map[ev] = len(tree[ev[0]:ev[1] + k])
+    # the position is used to keep distinct the events having the same interval, resource and activity
+    for i, ev in enumerate(events):
+        tree.add(Interval(ev[0], ev[1] + k, i))
+    for i, ev in enumerate(events):
+        ev_map[ev + (i,)] = len(tree[ev[0]:ev[1] + k])
     return ev_map
 
 
diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
index 97addfb..1c0cfe4 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
@@ -366,10 +366,11 @@ def __compute_workload(df: pd.DataFrame, resource: Optional[str] = None, activit
     tree = IntervalTree()
     ev_map = {}
     k = 0.000001
-    for ev in events:
-        tree.add(Interval(ev[0], ev[1] + k))
-    for ev in events:
-        ev_map[ev] = len(tree[ev[0]:ev[1] + k])
+    # the position is used to keep distinct the events having the same interval, resource and activity
+    for i, ev in enumerate(events):
+        tree.add(Interval(ev[0], ev[1] + k, i))
+    for i, ev in enumerate(events):
+        ev_map[ev + (i,)] = len(tree[ev[0]:ev[1] + k])
     return ev_map
 
 
-- 
2.43.0


From 359ab5b5f157b52b02674c6f71815e225e59dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 168/276] fix: resource profiles: do not edit the events of the
 log

---
 .../resource_profiles/variants/log.py              | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index e9a5b63..e083684 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -19,7 +19,7 @@ from enum import Enum
 from typing import Union, Optional, Dict, Any, Tuple
 
 from pm4py.objects.conversion.log import converter
-from pm4py.objects.log.obj import EventLog, Event
+from pm4py.objects.log.obj import EventLog, Event, Trace
 from pm4py.util import exec_utils, constants, xes_constants
 from pm4py.algo.filtering.common.timestamp.timestamp_common import get_dt_from_string
 from statistics import mean
@@ -297,12 +297,16 @@ def __insert_start_from_previous_event(log: EventLog, parameters: Optional[Dict[
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
                                                      xes_constants.DEFAULT_START_TIMESTAMP_KEY)
 
+    ret = EventLog()
+
     for trace in log:
-        for i in range(1, len(trace)):
-            trace[i][start_timestamp_key] = trace[i-1][timestamp_key]
-        trace[0][start_timestamp_key] = trace[0][timestamp_key]
+        # works on a copy of the events, in order not to change the original log
+        new_trace = Trace([Event(x) for x in trace], attributes=trace.attributes)
+        for i in range(len(new_trace)):
+            new_trace[i][start_timestamp_key] = trace[max(i-1, 0)][timestamp_key]
+        ret.append(new_trace)
 
-    return log
+    return ret
 
 
 def __compute_workload(log: EventLog, resource: Optional[str] = None, activity: Optional[str] = None,
-- 
2.43.0


From 51d1ba6b456f87b0d92af78ec75bcd927ac2b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:17 +0000
Subject: [PATCH 169/276] fix: resource profiles: consider the case identifier
 column on dataframes

---
 .../resource_profiles/variants/pandas.py                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
index 1c0cfe4..c2a0de2 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
@@ -538,9 +538,10 @@ def average_case_duration(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[
         parameters = {}
 
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
+    case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key, attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
     from pm4py.algo.filtering.pandas.timestamp import timestamp_filter
@@ -592,7 +593,7 @@ def interaction_two_resources(df: pd.DataFrame, t1: Union[datetime, str], t2: Un
     df = df[[timestamp_key, resource_key, case_id_key, activity_key]]
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key, attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     df = attributes_filter.apply(df, [r1], parameters=parameters_filter)
     df = attributes_filter.apply(df, [r2], parameters=parameters_filter)
     last_df = df.groupby(case_id_key).last().reset_index()
@@ -645,7 +646,7 @@ def social_position(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[dateti
     df = df[df[timestamp_key] < t2]
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key, attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     filt_df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
     q1 = float(filt_df[case_id_key].nunique())
-- 
2.43.0


From 6ac0654cc8443501c6148190b25e6bc6c6b2a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 170/276] fix: features extraction: string columns with missing
 values

---
 pm4py/objects/log/util/dataframe_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/dataframe_utils.py b/pm4py/objects/log/util/dataframe_utils.py
index c4d84ef..44a8ca5 100644
--- a/pm4py/objects/log/util/dataframe_utils.py
+++ b/pm4py/objects/log/util/dataframe_utils.py
@@ -344,7 +344,7 @@ def select_string_column(df: pd.DataFrame, fea_df: pd.DataFrame, col: str,
     fea_df
         Feature dataframe (desidered output)
     """
-    vals = pandas_utils.format_unique(df[col].unique())
+    vals = pandas_utils.format_unique(df[col].dropna().unique())
     for val in vals:
         if val is not None:
             filt_df_cases = pandas_utils.format_unique(df[df[col] == val][case_id_key].unique())
-- 
2.43.0


From d3f091204575fdc8594f79131af32f74e8189720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 171/276] fix: features extraction: do not overwrite the
 features of values having the same ASCII representation

---
 pm4py/objects/log/util/dataframe_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/objects/log/util/dataframe_utils.py b/pm4py/objects/log/util/dataframe_utils.py
index 44a8ca5..4ed5c3c 100644
--- a/pm4py/objects/log/util/dataframe_utils.py
+++ b/pm4py/objects/log/util/dataframe_utils.py
@@ -349,6 +349,9 @@ def select_string_column(df: pd.DataFrame, fea_df: pd.DataFrame, col: str,
         if val is not None:
             filt_df_cases = pandas_utils.format_unique(df[df[col] == val][case_id_key].unique())
             new_col = col + "_" + val.encode('ascii', errors='ignore').decode('ascii').replace(" ", "")
+            # different values could have the same ASCII representation: do not overwrite the existing column
+            while new_col in fea_df.columns:
+                new_col = new_col + "_"
             fea_df[new_col] = fea_df[case_id_key].isin(filt_df_cases)
             fea_df[new_col] = fea_df[new_col].astype(np.float32)
     return fea_df
-- 
2.43.0


From 7f3b1e8f3949f4dc3c8c876a1fbcde42445a7da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:35 +0000
Subject: [PATCH 172/276] fix: temporal features: consider the start timestamp
 for the rates and times

---
 .../algo/transformation/log_to_features/variants/temporal.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_features/variants/temporal.py b/pm4py/algo/transformation/log_to_features/variants/temporal.py
index 98269e1..9ade922 100644
--- a/pm4py/algo/transformation/log_to_features/variants/temporal.py
+++ b/pm4py/algo/transformation/log_to_features/variants/temporal.py
@@ -87,8 +87,8 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     activity_column = exec_utils.get_param_value(Parameters.ACTIVITY_COLUMN, parameters, xes_constants.DEFAULT_NAME_KEY)
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters)
-    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
-    log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
+    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
+    log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
 
     grouped_log = log.groupby(pandas_utils.get_grouper(key=start_timestamp_column, freq=grouper_freq))
 
-- 
2.43.0


From f86b15ba9d19ff734a615cd7917db49a2b088616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:35 +0000
Subject: [PATCH 173/276] fix: temporal features: do not edit the dataframe

---
 pm4py/algo/transformation/log_to_features/variants/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/log_to_features/variants/temporal.py b/pm4py/algo/transformation/log_to_features/variants/temporal.py
index 9ade922..1237fc9 100644
--- a/pm4py/algo/transformation/log_to_features/variants/temporal.py
+++ b/pm4py/algo/transformation/log_to_features/variants/temporal.py
@@ -87,7 +87,7 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     activity_column = exec_utils.get_param_value(Parameters.ACTIVITY_COLUMN, parameters, xes_constants.DEFAULT_NAME_KEY)
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters)
-    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
+    log = pandas_utils.insert_case_arrival_finish_rate(log.copy(), case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
     log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
 
     grouped_log = log.groupby(pandas_utils.get_grouper(key=start_timestamp_column, freq=grouper_freq))
-- 
2.43.0


From a7398251c483ba84ec6a6dc855bdb35dcd1bb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:27 +0000
Subject: [PATCH 174/276] fix: features: work in progress and workload with
 cases having the same interval

---
 .../log_to_features/variants/trace_based.py               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_features/variants/trace_based.py b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
index 9908b13..a6064fe 100644
--- a/pm4py/algo/transformation/log_to_features/variants/trace_based.py
+++ b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
@@ -196,7 +196,7 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     tree_dict = {}
-    for case in log:
+    for idx, case in enumerate(log):
         if case:
             resources = set(x[resource_key] for x in case if resource_key in x)
             st = case[0][start_timestamp_key].timestamp() - epsilon
@@ -204,7 +204,7 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
             for res in resources:
                 if res not in tree_dict:
                     tree_dict[res] = IntervalTree()
-                tree_dict[res].add(Interval(st, ct))
+                tree_dict[res].add(Interval(st, ct, idx))
 
     resources_list = sorted(list(tree_dict))
 
@@ -255,11 +255,11 @@ def work_in_progress(log: EventLog, parameters: Optional[Dict[Union[str, Paramet
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     tree = IntervalTree()
-    for case in log:
+    for idx, case in enumerate(log):
         if case:
             st = case[0][start_timestamp_key].timestamp() - epsilon
             ct = case[-1][timestamp_key].timestamp() + epsilon
-            tree.add(Interval(st, ct))
+            tree.add(Interval(st, ct, idx))
 
     data = []
     feature_names = ["@@work_in_progress"]
-- 
2.43.0


From 8f5ab61775fb79999ffbe57dc10ebaa57104b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 175/276] fix: XES importers: add the module looking at the
 boundaries of the chunks (used by the fix of the nested attributes)

---
 pm4py/util/lookahead.py | 44 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)
 create mode 100644 pm4py/util/lookahead.py

diff --git a/pm4py/util/lookahead.py b/pm4py/util/lookahead.py
new file mode 100644
index 0000000..1746d0b
--- /dev/null
+++ b/pm4py/util/lookahead.py
@@ -0,0 +1,44 @@
+'''
+    This file is part of PM4Py (More Info: https://pm4py.fit.fraunhofer.de).
+
+    PM4Py is free software: you can redistribute it and/or modify
+    it under the terms of the GNU General Public License as published by
+    the Free Software Foundation, either version 3 of the License, or
+    (at your option) any later version.
+
+    PM4Py is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    GNU General Public License for more details.
+
+    You should have received a copy of the GNU General Public License
+    along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
+'''
+
+
+def apply(iterator):
+    """
+    Iterates over an iterator with a delay of one element.
+    This is useful for the iterators over the events of an XML document (iterparse): when the start of an element is
+    read, its children may not be available yet (they could be in the next chunk of the document). When the following
+    event of the document is available, it is known whether the element has children.
+
+    Parameters
+    --------------
+    iterator
+        Iterator
+
+    Returns
+    --------------
+    delayed_iterator
+        Iterator providing the same elements, reading one element ahead
+    """
+    iterator = iter(iterator)
+    for current in iterator:
+        break
+    else:
+        return
+    for following in iterator:
+        yield current
+        current = following
+    yield current
-- 
2.43.0


From dd0a0eaeeb30fde8311615b269831b409e16b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 176/276] fix: transition systems: remove only the arcs between
 the given states

---
 pm4py/objects/transition_system/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/transition_system/utils.py b/pm4py/objects/transition_system/utils.py
index 4873e82..e95f1e8 100644
--- a/pm4py/objects/transition_system/utils.py
+++ b/pm4py/objects/transition_system/utils.py
@@ -56,9 +56,10 @@ def remove_arc_from_to(name, fr, to, ts):
     -------
     None
     """
-    ts.transitions = [t for t in ts.transitions if t.name != name]
-    fr.outgoing = [t for t in fr.outgoing if t.name != name]
-    to.incoming = [t for t in to.incoming if t.name != name]
+    to_delete = set(t for t in ts.transitions if t.name == name and t.from_state is fr and t.to_state is to)
+    ts.transitions = set(t for t in ts.transitions if t not in to_delete)
+    fr.outgoing = set(t for t in fr.outgoing if t not in to_delete)
+    to.incoming = set(t for t in to.incoming if t not in to_delete)
 
 
 def remove_all_arcs_from_to(fr, to, ts):
@@ -76,10 +77,10 @@ def remove_all_arcs_from_to(fr, to, ts):
     -------
     None
     """
-    names_transitions_to_delete = [t.name for t in ts.transitions if t in fr.outgoing and t in to.incoming]
-    ts.transitions = set([t for t in ts.transitions if t.name not in names_transitions_to_delete])
-    fr.outgoing = set([t for t in fr.outgoing if t.name not in names_transitions_to_delete])
-    to.incoming = set([t for t in to.incoming if t.name not in names_transitions_to_delete])
+    to_delete = set(t for t in ts.transitions if t in fr.outgoing and t in to.incoming)
+    ts.transitions = set(t for t in ts.transitions if t not in to_delete)
+    fr.outgoing = set(t for t in fr.outgoing if t not in to_delete)
+    to.incoming = set(t for t in to.incoming if t not in to_delete)
 
 
 def transitive_reduction(ts):
-- 
2.43.0


From b2f372b22711109ec528610efe63052988e478ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 177/276] fix: earth mover distance: languages containing the
 empty trace

---
 pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
index 0d622c9..bc9cafd 100644
--- a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
+++ b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
@@ -42,7 +42,8 @@ def normalized_levensthein(s1, s2):
     dist
         Distance
     """
-    return float(string_distance.levenshtein(s1, s2)) / float(max(len(s1), len(s2)))
+    # the distance between two empty traces is zero
+    return float(string_distance.levenshtein(s1, s2)) / float(max(len(s1), len(s2), 1))
 
 
 def get_act_correspondence(activities, parameters=None):
-- 
2.43.0


From 00ba8e4a180b163948e3d1695b47516e4864804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 178/276] fix: extended marking equation: do not force a firing
 when there are no split points

---
 .../analysis/extended_marking_equation/variants/classic.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/analysis/extended_marking_equation/variants/classic.py b/pm4py/algo/analysis/extended_marking_equation/variants/classic.py
index 564fbc9..cd25f55 100644
--- a/pm4py/algo/analysis/extended_marking_equation/variants/classic.py
+++ b/pm4py/algo/analysis/extended_marking_equation/variants/classic.py
@@ -318,7 +318,8 @@ class ExtendedMarkingEquationSolver(object):
         bub_stack = []
         beq_stack.append(self.fin_vec - self.ini_vec)
         beq_stack.append(np.zeros(((len(self.x) - 1) * len(self.x[0]), 1)))
-        beq_stack.append(np.ones((len(self.y), 1)))
+        # without split points, no transition is forced to fire
+        beq_stack.append(np.ones((len(self.y), 1)) if self.split_idx else np.zeros((len(self.y), 1)))
         beq_stack.append(np.zeros((len(self.null_entries), 1)))
         bub_stack.append(np.zeros((len(self.x) * len(self.x[0]), 1)))
         bub_stack.append(np.zeros((len(self.y) * len(self.y[0]), 1)))
-- 
2.43.0


From a3e5db8a2c42d04d87e0144918b45a9acb795008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 179/276] fix: extended marking equation: solution vector with
 the integer solution of the problem

---
 .../analysis/extended_marking_equation/variants/classic.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/analysis/extended_marking_equation/variants/classic.py b/pm4py/algo/analysis/extended_marking_equation/variants/classic.py
index cd25f55..583c7a5 100644
--- a/pm4py/algo/analysis/extended_marking_equation/variants/classic.py
+++ b/pm4py/algo/analysis/extended_marking_equation/variants/classic.py
@@ -463,11 +463,13 @@ class ExtendedMarkingEquationSolver(object):
         c, Aub, bub, Aeq, beq = self.get_components()
         parameters_solver = {}
         parameters_solver["use_ilp"] = True
+        if variant == solver.SCIPY:
+            parameters_solver["integrality"] = [1] * len(c)
         sol = solver.apply(c, Aub, bub, Aeq, beq, variant=variant, parameters=parameters_solver)
         sol_points = solver.get_points_from_sol(sol, variant=variant)
         if sol_points is not None:
             x = self.get_x_vector(sol_points)
-            x = [int(y) for y in x]
+            x = [int(round(y)) for y in x]
             h = self.get_h(sol_points)
             return h, x
         return None, None
-- 
2.43.0


From 8210e4d8fcee4a99702b3e2be57a70a81db1a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 180/276] fix: decomposition: transitions with the same label
 belong to the same component

---
 pm4py/objects/petri_net/utils/decomposition.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/decomposition.py b/pm4py/objects/petri_net/utils/decomposition.py
index 2b0708f..e865d26 100644
--- a/pm4py/objects/petri_net/utils/decomposition.py
+++ b/pm4py/objects/petri_net/utils/decomposition.py
@@ -30,13 +30,10 @@ def get_graph_components(places, inv_trans, trans_dup_label, tmap):
     for x in trans_dup_label:
         G.add_node(x)
     for x in trans_dup_label:
-        i = 0
-        while i < len(tmap[x]) - 1:
-            j = i + 1
-            while j < len(tmap[x]):
-                G.add_edge(tmap[x][i].label, tmap[x][j].label)
-                j = j + 1
-            i = i + 1
+        # the transitions having the same label belong to the same component
+        for t in tmap[trans_dup_label[x].label]:
+            if t.name != x:
+                G.add_edge(x, t.name)
     all_inserted_val = set(places.values()).union(inv_trans.values()).union(trans_dup_label.values())
     for v1 in all_inserted_val:
         for arc in v1.out_arcs:
@@ -56,7 +53,7 @@ def decompose(net, im, fm):
             if t.label not in tmap:
                 tmap[t.label] = []
             tmap[t.label].append(t)
-    trans_dup_label = {x.label: x for x in net.transitions if x.label is not None and len(tmap[x.label]) > 1}
+    trans_dup_label = {x.name: x for x in net.transitions if x.label is not None and len(tmap[x.label]) > 1}
     trans_labels = {x.name: x.label for x in net.transitions}
     conn_comp = get_graph_components(places, inv_trans, trans_dup_label, tmap)
     list_nets = []
-- 
2.43.0


From 2cc4ebeae76c76afc4ce094d664bfbaba4daf04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 181/276] fix: decomposition: keep the weights of the arcs

---
 pm4py/objects/petri_net/utils/decomposition.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/decomposition.py b/pm4py/objects/petri_net/utils/decomposition.py
index e865d26..6479629 100644
--- a/pm4py/objects/petri_net/utils/decomposition.py
+++ b/pm4py/objects/petri_net/utils/decomposition.py
@@ -80,13 +80,13 @@ def decompose(net, im, fm):
                     if st.name not in lmap:
                         lmap[st.name] = PetriNet.Transition(st.name, trans_labels[st.name])
                         net_new.transitions.add(lmap[st.name])
-                    add_arc_from_to(lmap[st.name], lmap[el], net_new)
+                    add_arc_from_to(lmap[st.name], lmap[el], net_new, weight=arc.weight)
                 for arc in old_place.out_arcs:
                     st = arc.target
                     if st.name not in lmap:
                         lmap[st.name] = PetriNet.Transition(st.name, trans_labels[st.name])
                         net_new.transitions.add(lmap[st.name])
-                    add_arc_from_to(lmap[el], lmap[st.name], net_new)
+                    add_arc_from_to(lmap[el], lmap[st.name], net_new, weight=arc.weight)
                 if old_place in im:
                     im_new[lmap[el]] = im[old_place]
                 if old_place in fm:
@@ -138,15 +138,15 @@ def merge_comp(comp1, comp2):
 
     for arc in comp1[0].arcs:
         if type(arc.source) is PetriNet.Place:
-            add_arc_from_to(places[arc.source.name], trans[arc.target.name], net)
+            add_arc_from_to(places[arc.source.name], trans[arc.target.name], net, weight=arc.weight)
         else:
-            add_arc_from_to(trans[arc.source.name], places[arc.target.name], net)
+            add_arc_from_to(trans[arc.source.name], places[arc.target.name], net, weight=arc.weight)
 
     for arc in comp2[0].arcs:
         if type(arc.source) is PetriNet.Place:
-            add_arc_from_to(places[arc.source.name], trans[arc.target.name], net)
+            add_arc_from_to(places[arc.source.name], trans[arc.target.name], net, weight=arc.weight)
         else:
-            add_arc_from_to(trans[arc.source.name], places[arc.target.name], net)
+            add_arc_from_to(trans[arc.source.name], places[arc.target.name], net, weight=arc.weight)
 
     lvis_labels = sorted([t.label for t in net.transitions if t.label is not None])
     t_tuple = tuple(sorted(
-- 
2.43.0


From c4552f68ba4b7b5f76331923cdffa8ec7a0f3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 182/276] fix: decomposed alignments: do not edit the
 parameters of the caller

---
 .../alignments/decomposed/variants/recompos_maximal.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index 81117ff..185de04 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -108,7 +108,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
         trace = variants_util.variant_to_trace(variant, parameters=parameters)
         log.append(trace)
 
-    alignment = apply(log, petri_net, initial_marking, final_marking)
+    alignment = apply(log, petri_net, initial_marking, final_marking, parameters=parameters)
 
     for index, varitem in enumerate(var_list):
         variant = varitem[0]
@@ -146,6 +146,8 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     best_worst_cost = get_best_worst_cost(net, im, fm, parameters=parameters)
+    # do not edit the dictionary of the caller
+    parameters = copy(parameters)
     parameters[Parameters.BEST_WORST_COST] = best_worst_cost
 
     list_nets = decomp_utils.decompose(net, im, fm)
@@ -179,6 +181,7 @@ def apply_log(log, list_nets, parameters=None):
     icache = exec_utils.get_param_value(Parameters.ICACHE, parameters, dict())
     mcache = exec_utils.get_param_value(Parameters.MCACHE, parameters, dict())
 
+    parameters = copy(parameters)
     parameters[Parameters.ICACHE] = icache
     parameters[Parameters.MCACHE] = mcache
 
-- 
2.43.0


From 32349671a69bdc0a01590efc20b4c4060ba6a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:17 +0000
Subject: [PATCH 183/276] fix: lead and cycle time: events starting at the end
 of the previous ones

---
 pm4py/objects/log/util/interval_lifecycle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/interval_lifecycle.py b/pm4py/objects/log/util/interval_lifecycle.py
index 0e5ea8c..c9ca061 100644
--- a/pm4py/objects/log/util/interval_lifecycle.py
+++ b/pm4py/objects/log/util/interval_lifecycle.py
@@ -237,7 +237,7 @@ def assign_lead_cycle_time(log, parameters=None):
 
                 approx_partial_cycle_time = approx_partial_cycle_time + approx_bh_duration
                 approx_partial_lead_time = approx_partial_lead_time + approx_bh_duration
-            elif st_seconds < max_et_seconds and et_seconds > max_et_seconds:
+            elif st_seconds <= max_et_seconds and et_seconds > max_et_seconds:
                 bh = BusinessHours(max_et, et,
                                                   business_hour_slots=business_hours_slots)
                 approx_bh_duration = bh.get_seconds()
-- 
2.43.0


From 8d6e0f7dd309d0586be2d7536ec12448e7e9873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:25 +0000
Subject: [PATCH 184/276] fix: interval and lifecycle logs: recognise the type
 with the first non-empty case

---
 pm4py/objects/log/util/interval_lifecycle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/log/util/interval_lifecycle.py b/pm4py/objects/log/util/interval_lifecycle.py
index c9ca061..6754349 100644
--- a/pm4py/objects/log/util/interval_lifecycle.py
+++ b/pm4py/objects/log/util/interval_lifecycle.py
@@ -66,8 +66,9 @@ def to_interval(log, parameters=None):
     if log is not None and len(log) > 0:
         if "PM4PY_TYPE" in log.attributes and log.attributes["PM4PY_TYPE"] == "interval":
             return log
-        if log[0] is not None and len(log[0]) > 0:
-            first_event = log[0][0]
+        first_trace = next((trace for trace in log if trace is not None and len(trace) > 0), None)
+        if first_trace is not None:
+            first_event = first_trace[0]
             if start_timestamp_key in first_event:
                 return log
 
@@ -149,8 +150,9 @@ def to_lifecycle(log, parameters=None):
     if log is not None and len(log) > 0:
         if "PM4PY_TYPE" in log.attributes and log.attributes["PM4PY_TYPE"] == "lifecycle":
             return log
-        if log[0] is not None and len(log[0]) > 0:
-            first_event = log[0][0]
+        first_trace = next((trace for trace in log if trace is not None and len(trace) > 0), None)
+        if first_trace is not None:
+            first_event = first_trace[0]
             if transition_key in first_event:
                 return log
 
-- 
2.43.0


From 29d39957f31ea4f81e844e1bb119939fead2ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:25 +0000
Subject: [PATCH 185/276] fix: activity and case tables: select the columns
 with a list

---
 pm4py/objects/log/util/dataframe_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/util/dataframe_utils.py b/pm4py/objects/log/util/dataframe_utils.py
index 4ed5c3c..d1ecf56 100644
--- a/pm4py/objects/log/util/dataframe_utils.py
+++ b/pm4py/objects/log/util/dataframe_utils.py
@@ -529,7 +529,7 @@ def dataframe_to_activity_case_table(df: pd.DataFrame, parameters: Optional[Dict
     case_attributes = exec_utils.get_param_value(Parameters.CASE_ATTRIBUTES, parameters, set([x for x in df.columns if x.startswith(case_id_prefix)]))
     event_attributes = set([x for x in df.columns if x not in case_attributes])
 
-    activity_table = df[event_attributes.union({case_id_key})]
-    case_table = df[case_attributes.union({case_id_key})].groupby(case_id_key).first().reset_index()
+    activity_table = df[[x for x in df.columns if x in event_attributes or x == case_id_key]]
+    case_table = df[[x for x in df.columns if x in case_attributes or x == case_id_key]].groupby(case_id_key).first().reset_index()
 
     return activity_table, case_table
-- 
2.43.0


From f326bc1417bb533751e5a693b5decab59244f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:25 +0000
Subject: [PATCH 186/276] fix: log utilities: insertion of the artificial start
 and end

---
 pm4py/objects/log/util/log.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/util/log.py b/pm4py/objects/log/util/log.py
index cec935f..ca7a7a2 100644
--- a/pm4py/objects/log/util/log.py
+++ b/pm4py/objects/log/util/log.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from pm4py.objects.log.obj import Event
 from pm4py.util import xes_constants as xes_util
 
 
@@ -147,7 +148,7 @@ def derive_and_lift_trace_attributes_from_event_attributes(trlog, ignore=None, r
 
 def add_artficial_start_and_end(event_log, start='[start>', end='[end]', activity_key=xes_util.DEFAULT_NAME_KEY):
     for trace in event_log:
-        trace.insert(0, event_log.Event({activity_key: start}))
-        trace.append(event_log.Event({activity_key: end}))
+        trace.insert(0, Event({activity_key: start}))
+        trace.append(Event({activity_key: end}))
     return event_log
 
-- 
2.43.0


From 4e487a8d8fcadf94c3d2ca7318734bb4c153bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 187/276] fix: performance spectrum: compare the activities one
 by one

---
 .../algo/discovery/performance_spectrum/variants/dataframe.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py b/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
index 78b6a57..3661597 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
@@ -87,10 +87,9 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
         dataframe = dataframe[dataframe[key(case_id_glue, i)] == dataframe[key(case_id_glue, i + 1)]]
 
     column_list = [key(activity_key, i) for i in range(len(list_activities))]
-    pattern = "".join(list_activities)
     # keep only rows that have the desired activities pattern
 
-    matches = dataframe[np.equal(dataframe[column_list].agg(''.join, axis=1), pattern)]
+    matches = dataframe[np.equal(dataframe[column_list].to_numpy(dtype=object), list_activities).astype(bool).all(axis=1)]
     if len(matches) > sample_size:
         matches = matches.sample(n=sample_size)
 
-- 
2.43.0


From 1be31cb1fe5a4e0c964a6802e9b0e859257c2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 188/276] fix: disconnected performance spectrum: no matches
 across removed events

---
 .../variants/dataframe_disconnected.py               | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py b/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
index ef7132e..e9f2eef 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
@@ -34,7 +34,7 @@ class Parameters(Enum):
 
 
 def gen_patterns(pattern, length):
-    return ["".join(pattern[i:i + length]) for i in range(len(pattern) - (length - 1))]
+    return [tuple(pattern[i:i + length]) for i in range(len(pattern) - (length - 1))]
 
 
 def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int, parameters: Optional[Dict[Union[str, Parameters], Any]] = None) -> Dict[str, Any]:
@@ -88,6 +88,8 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
                 'points': [(match[key(activity_key, i)], match[key(timestamp_key, i)]) for i in range(l)]}
 
     points = []
+    # (first) events of the steps that are already covered by a match
+    matched = set()
     for l, patterns in all_patterns:
         # concat shifted and suffixed dataframes to get a dataframe that allows to check for the patterns
         dfs = [dataframe.add_suffix(str(i)).shift(-i) for i in range(l)]
@@ -101,11 +103,11 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
             df_merged = df_merged[df_merged[key(case_id_glue, i)] == df_merged[key(case_id_glue, i + 1)]]
 
         column_list = [key(activity_key, i) for i in range(l)]
-        matches = df_merged[np.isin(df_merged[column_list].sum(axis=1), patterns)]
+        matches = df_merged[[acts in patterns for acts in df_merged[column_list].itertuples(index=False, name=None)]]
+        # do not discover subsets of the longer matches again
+        matches = matches[[indices[0] not in matched for indices in matches.index]]
         points.extend([to_points(m, l) for m in matches.to_dict('records')])
-        # drop rows of this match to not discover subsets of this match again
-        dataframe = dataframe.drop([int(i) for indices in matches.index for i in indices[:-1]])
-        pass
+        matched.update(i for indices in matches.index for i in indices[:-1])
 
     points = sorted(points, key=lambda x: min(x['points'], key=lambda x: x[1])[1])
     if len(points) > sample_size:
-- 
2.43.0


From fc55586d3c4bc048daf3099e9e74780224f49602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 189/276] fix: disconnected performance spectrum: connect
 consecutive matches

---
 .../discovery/performance_spectrum/variants/log_disconnected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py b/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
index 57915f0..cc6de49 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
@@ -82,7 +82,7 @@ def apply(log: EventLog, list_activities: List[str], sample_size: int, parameter
 
         i = 0
         while i < len(matches) - 1:
-            matchAct = (trace[mi][activity_key] for mi in (matches[i] + matches[i + 1][1:]))
+            matchAct = tuple(trace[mi][activity_key] for mi in (matches[i] + matches[i + 1][1:]))
             if matches[i][-1] == matches[i + 1][0] and matchAct in all_acti_combs:
                 matches[i] = matches[i] + matches[i + 1][1:]
                 del matches[i + 1]
-- 
2.43.0


From 3a6ce2787af1e7dc473ade3f4c3bd5c6d3e63c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 190/276] fix: interval tree: sort the intervals by time only

---
 .../transformation/log_to_interval_tree/variants/open_paths.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
index 0fb9988..85b735b 100644
--- a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
+++ b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
@@ -83,7 +83,7 @@ def log_to_intervals(log: Union[EventLog, pd.DataFrame], parameters: Optional[Di
                         ret_list.append([time_i, time_j, trace[i], trace[j], trace.attributes])
                     break
 
-    ret_list.sort(key=lambda x: (x[0], x[1], x[2], x[3]))
+    ret_list.sort(key=lambda x: (x[0], x[1]))
     return ret_list
 
 
-- 
2.43.0


From 4028f4b0c8fdd63694760fd880e96beba19c17da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:35 +0000
Subject: [PATCH 191/276] fix: trace-based correlation mining: pass the
 parameters

---
 .../algo/discovery/correlation_mining/variants/trace_based.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
index 054f443..b5a7bf2 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
@@ -58,7 +58,8 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
         Performance DFG (containing the estimated performance for the arcs)
     """
     traces_list, trace_grouped_list, activities, activities_counter = preprocess_log(log, activities=None,
-                                                                                     activities_counter=None)
+                                                                                     activities_counter=None,
+                                                                                     parameters=parameters)
 
     PS_matrix, duration_matrix = get_PS_duration_matrix(activities, trace_grouped_list, parameters=parameters)
 
-- 
2.43.0


From e8f507b80edd86e22874d09771288eb4f50a069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 192/276] fix: disconnected performance spectrum: logs shorter
 than the list

---
 .../performance_spectrum/variants/dataframe_disconnected.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py b/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
index e9f2eef..eaaa67a 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
@@ -119,5 +119,5 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
 def shift_index(index, n):
     if n == 0:
         return list(index)
-    nones = [None for _ in range(n)]
+    nones = [None for _ in range(min(n, len(index)))]
     return list(index[n:]) + nones
-- 
2.43.0


From 0a8b03b7dec7ffe57f171a3bc2ae28a119d46601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 193/276] fix: label splitting: do not edit the given dataframe

---
 pm4py/algo/label_splitting/variants/contextual.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/algo/label_splitting/variants/contextual.py b/pm4py/algo/label_splitting/variants/contextual.py
index a83bb66..bc21ce0 100644
--- a/pm4py/algo/label_splitting/variants/contextual.py
+++ b/pm4py/algo/label_splitting/variants/contextual.py
@@ -113,6 +113,9 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters)
     if index_key not in log:
         log = pandas_utils.insert_index(log, index_key)
+    else:
+        # the relabeling should not edit the given dataframe
+        log = log.copy()
 
     gdf = log.groupby(case_id_key, sort=False)
     output = gdf[[activity_key, index_key]].agg(list).to_dict()
-- 
2.43.0


From 27305f363057251d3bbf269d6e06f54b2f29143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 194/276] fix: correlation mining: penalty proportional to the
 costs

---
 pm4py/algo/discovery/correlation_mining/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/correlation_mining/util.py b/pm4py/algo/discovery/correlation_mining/util.py
index 6d5401e..0f098a5 100644
--- a/pm4py/algo/discovery/correlation_mining/util.py
+++ b/pm4py/algo/discovery/correlation_mining/util.py
@@ -45,9 +45,11 @@ def get_c_matrix(PS_matrix, duration_matrix, activities, activities_counter):
             val = duration_matrix[i, j] / PS_matrix[i, j] * 1 / (
                 min(activities_counter[activities[i]], activities_counter[activities[j]])) if PS_matrix[
                                                                                                   i, j] > 0 else 0
-            if val == 0:
-                val = 100000000000
             C_matrix[i, j] = val
+    # the missing values are more expensive than any combination of the others
+    # (an excessive value would compromise the precision of the LP solver)
+    big = (1 + np.max(C_matrix, initial=0)) * (1 + sum(activities_counter.values()))
+    C_matrix[C_matrix == 0] = big
     return C_matrix
 
 
-- 
2.43.0


From 713d1811421dcedd45f67b0d770e5ef4c14bffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:01 +0000
Subject: [PATCH 195/276] fix: minimum average matching of times: precise
 weights

---
 pm4py/statistics/util/times_bipartite_matching.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pm4py/statistics/util/times_bipartite_matching.py b/pm4py/statistics/util/times_bipartite_matching.py
index b2abbfb..bfe765c 100644
--- a/pm4py/statistics/util/times_bipartite_matching.py
+++ b/pm4py/statistics/util/times_bipartite_matching.py
@@ -15,7 +15,6 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 from pm4py.util import nx_utils
-import sys
 
 
 def exact_match_minimum_average(l1, l2):
@@ -41,6 +40,10 @@ def exact_match_minimum_average(l1, l2):
         an element of the second list)
     """
     G = nx_utils.Graph()
+
+    # the couples that are not possible are more expensive than any matching of the others
+    # (with an excessive weight, the differences between the other weights would get lost)
+    infeasible = (1 + max(0, max(l2) - min(l1))) * (1 + min(len(l1), len(l2))) if len(l1) > 0 and len(l2) > 0 else 0
     for i in range(len(l1)):
         G.add_node(i)
     for j in range(len(l2)):
@@ -50,7 +53,7 @@ def exact_match_minimum_average(l1, l2):
             if l1[i] <= l2[j]:
                 G.add_edge(i, len(l1) + j, weight=(l2[j] - l1[i]))
             else:
-                G.add_edge(i, len(l1) + j, weight=sys.maxsize)
+                G.add_edge(i, len(l1) + j, weight=infeasible)
     matching0 = {x: y for x, y in nx_utils.minimum_weight_full_matching(G).items() if x < len(l1)}
     matching = []
     for k1, k2 in matching0.items():
-- 
2.43.0


From cbc7d2ad2ce2faae26e07bfb3ff88d992a8674c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 196/276] fix: random variables: read numeric parameters

---
 .../objects/random_variables/deterministic/random_variable.py | 2 +-
 pm4py/objects/random_variables/normal/random_variable.py      | 4 ++--
 pm4py/objects/random_variables/uniform/random_variable.py     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/random_variables/deterministic/random_variable.py b/pm4py/objects/random_variables/deterministic/random_variable.py
index 56478b9..0ca17bd 100644
--- a/pm4py/objects/random_variables/deterministic/random_variable.py
+++ b/pm4py/objects/random_variables/deterministic/random_variable.py
@@ -46,7 +46,7 @@ class Deterministic(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.value = distribution_parameters
+        self.value = float(distribution_parameters)
 
     def get_transition_type(self):
         """
diff --git a/pm4py/objects/random_variables/normal/random_variable.py b/pm4py/objects/random_variables/normal/random_variable.py
index 60f6097..52af9cb 100644
--- a/pm4py/objects/random_variables/normal/random_variable.py
+++ b/pm4py/objects/random_variables/normal/random_variable.py
@@ -51,8 +51,8 @@ class Normal(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.mu = distribution_parameters.split(";")[0]
-        self.sigma = distribution_parameters.split(";")[1]
+        self.mu = float(distribution_parameters.split(";")[0])
+        self.sigma = float(distribution_parameters.split(";")[1])
 
     def get_distribution_type(self):
         """
diff --git a/pm4py/objects/random_variables/uniform/random_variable.py b/pm4py/objects/random_variables/uniform/random_variable.py
index 99cb2fd..4c143fa 100644
--- a/pm4py/objects/random_variables/uniform/random_variable.py
+++ b/pm4py/objects/random_variables/uniform/random_variable.py
@@ -51,8 +51,8 @@ class Uniform(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.loc = distribution_parameters.split(";")[0]
-        self.scale = distribution_parameters.split(";")[1]
+        self.loc = float(distribution_parameters.split(";")[0])
+        self.scale = float(distribution_parameters.split(";")[1])
 
     def get_distribution_type(self):
         """
-- 
2.43.0


From 3948ed55a709e2925474e1ffa6bbdfef6fa2e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 197/276] fix: exponential variables start at zero

---
 pm4py/objects/random_variables/exponential/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/random_variables/exponential/random_variable.py b/pm4py/objects/random_variables/exponential/random_variable.py
index ee03ba2..2dbe65f 100644
--- a/pm4py/objects/random_variables/exponential/random_variable.py
+++ b/pm4py/objects/random_variables/exponential/random_variable.py
@@ -26,7 +26,7 @@ class Exponential(BasicStructureRandomVariable):
     Describes a normal variable
     """
 
-    def __init__(self, loc=1, scale=1):
+    def __init__(self, loc=0, scale=1):
         """
         Constructor
 
-- 
2.43.0


From fe049e18d0ae3e25a99e435dec55abf5727b7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:47 +0000
Subject: [PATCH 198/276] fix: performance of a Petri net: times of silent
 transitions after the first event

---
 pm4py/objects/petri_net/utils/performance_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/performance_map.py b/pm4py/objects/petri_net/utils/performance_map.py
index b00511e..54d32f2 100644
--- a/pm4py/objects/petri_net/utils/performance_map.py
+++ b/pm4py/objects/petri_net/utils/performance_map.py
@@ -125,7 +125,7 @@ def calculate_annotation_for_trace(trace, net, initial_marking, act_trans, activ
                     performance_for_this_trans_execution.append(
                         [[current_trace_index, trace_place_stats[source_place][0]],
                          current_trace_index - trace_place_stats[source_place][0]])
-                elif min_in_arc_indexes:
+                elif min_in_arc_indexes is not None:
                     annotations_arcs[arc]["performance"].append([current_trace_index, current_trace_index])
                     performance_for_this_trans_execution.append([[current_trace_index, current_trace_index], 0])
 
@@ -140,7 +140,7 @@ def calculate_annotation_for_trace(trace, net, initial_marking, act_trans, activ
 
             if trans.label or ht_perf_method == "first":
                 trace_place_stats[target_place].append(current_trace_index)
-            elif max_in_arc_indexes:
+            elif max_in_arc_indexes is not None:
                 trace_place_stats[target_place].append(max_in_arc_indexes)
 
         if performance_for_this_trans_execution:
-- 
2.43.0


From af0c397f3f2487382ee18af8fca65d28eb256a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:47 +0000
Subject: [PATCH 199/276] fix: Monte Carlo simulation: total time from the
 earliest event

---
 .../algo/simulation/montecarlo/variants/petri_semaph_fifo.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py b/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
index 4d8fd64..032e277 100644
--- a/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
+++ b/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
@@ -428,8 +428,8 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
         logger.info(str(time()) + " ended the Monte carlo simulation.")
 
     log = EventLog(list(list_cases.values()))
-    min_timestamp = log[0][0][timestamp_key].timestamp()
-    max_timestamp = max(y[timestamp_key].timestamp() for x in log for y in x)
+    min_timestamp = min((y[timestamp_key].timestamp() for x in log for y in x), default=0)
+    max_timestamp = max((y[timestamp_key].timestamp() for x in log for y in x), default=0)
 
     transitions_interval_trees = {t.name: y for t, y in transitions_interval_trees.items()}
 
-- 
2.43.0


From a144b722ec15a41426f88132eabc7b95086c2b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:47 +0000
Subject: [PATCH 200/276] fix: transient analysis of a net: match transitions
 by name

---
 pm4py/objects/stochastic_petri/ctmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/stochastic_petri/ctmc.py b/pm4py/objects/stochastic_petri/ctmc.py
index 5c406b1..3830748 100644
--- a/pm4py/objects/stochastic_petri/ctmc.py
+++ b/pm4py/objects/stochastic_petri/ctmc.py
@@ -193,7 +193,7 @@ def transient_analysis_from_petri_net_and_smap(net, im, s_map, delay, parameters
     if parameters is None:
         parameters = {}
     # gets the reachability graph from the Petri net
-    reachab_graph = construct_reachability_graph(net, im)
+    reachab_graph = construct_reachability_graph(net, im, use_trans_name=True)
     states_reachable_from_start = set()
     for trans in reachab_graph.transitions:
         if str(trans.from_state) == "start1":
-- 
2.43.0


From 19c8998f77d50275a049c533990747e860ca42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 201/276] fix: steady state analysis: normalize the null vector

---
 pm4py/objects/stochastic_petri/ctmc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pm4py/objects/stochastic_petri/ctmc.py b/pm4py/objects/stochastic_petri/ctmc.py
index 3830748..5530441 100644
--- a/pm4py/objects/stochastic_petri/ctmc.py
+++ b/pm4py/objects/stochastic_petri/ctmc.py
@@ -378,9 +378,7 @@ def perform_steadystate(q_matrix, tangible_reach_graph):
         M = np.matrix.transpose(nullspace(q_matrix_trans))
         vec = np.zeros(M.shape[1])
         for i in range(M.shape[0]):
-            v = np.matmul(M[i], q_matrix_trans)
-            val = np.sum(v) / np.sum(M[i])
-            vec = vec + val * M[i]
+            vec = vec + M[i] / np.sum(M[i])
         vec = vec / np.sum(vec)
         for i in range(len(states)):
             transient_result[states[i]] = vec[i]
-- 
2.43.0


From 7a72186d6553aebdc7531aabbb4a261c9f09f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 202/276] fix: tangible reachability graph: vanishing states
 decided on the entire graph

---
 .../stochastic_petri/tangible_reachability.py | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pm4py/objects/stochastic_petri/tangible_reachability.py b/pm4py/objects/stochastic_petri/tangible_reachability.py
index 5a4662c..f87181e 100644
--- a/pm4py/objects/stochastic_petri/tangible_reachability.py
+++ b/pm4py/objects/stochastic_petri/tangible_reachability.py
@@ -108,21 +108,14 @@ def get_tangible_reachability_from_reachability(reach_graph, stochastic_info):
         transition_type = random_variable.get_transition_type()
         if transition_type == "TIMED":
             timed_transitions.append(trans.name)
-    states_reach = list(reach_graph.states)
-    for s in states_reach:
-        state_outgoing_trans = list(s.outgoing)
-        state_ingoing_trans = list(s.incoming)
-        timed_trans_outgoing = [x for x in state_outgoing_trans if x.name in timed_transitions]
-        if not len(state_outgoing_trans) == len(timed_trans_outgoing):
-            for t in state_outgoing_trans:
-                reach_graph.transitions.remove(t)
-                t.from_state.outgoing.remove(t)
-                t.to_state.incoming.remove(t)
-            for t in state_ingoing_trans:
-                reach_graph.transitions.remove(t)
-                t.from_state.outgoing.remove(t)
-                t.to_state.incoming.remove(t)
-            reach_graph.states.remove(s)
+    # the states to remove are decided on the entire graph, before removing any transition
+    vanishing_states = [s for s in reach_graph.states if any(x.name not in timed_transitions for x in s.outgoing)]
+    for s in vanishing_states:
+        for t in set(s.outgoing).union(s.incoming):
+            reach_graph.transitions.remove(t)
+            t.from_state.outgoing.remove(t)
+            t.to_state.incoming.remove(t)
+        reach_graph.states.remove(s)
     states_reach = list(reach_graph.states)
     for s in states_reach:
         if len(s.incoming) == 0 and len(s.outgoing) == 0:
-- 
2.43.0


From 99329f54fadaed13a4cfa666f674607f90871c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 203/276] fix: decision mining: one replay result for each
 variant

---
 pm4py/algo/decision_mining/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/decision_mining/algorithm.py b/pm4py/algo/decision_mining/algorithm.py
index f5b8155..ffa16c5 100644
--- a/pm4py/algo/decision_mining/algorithm.py
+++ b/pm4py/algo/decision_mining/algorithm.py
@@ -438,7 +438,8 @@ def get_attributes(log, decision_points, attributes, use_trace_attributes, trace
         one_variant.append(variant)
         # TODO: Token based replay code mit paramter für nur varianten einbeziehen ausstatten
     replay_result = token_replay.apply(log, net, initial_marking, final_marking, parameters=parameters)
-    replay_result = simplify_token_replay(replay_result)
+    # one replay result for each variant (different variants may activate the same transitions)
+    replay_result = [replay_result[variants_idxs[variant][0]] for variant in one_variant]
     count = 0
     for variant in replay_result:
         if variant['trace_fitness'] == 1.0:
-- 
2.43.0


From 3f7f6ef660c309127e8a3d5417973f7049c963f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 204/276] fix: decision mining: attributes do not leak between
 the cases

---
 pm4py/algo/decision_mining/algorithm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/algo/decision_mining/algorithm.py b/pm4py/algo/decision_mining/algorithm.py
index ffa16c5..802e4ca 100644
--- a/pm4py/algo/decision_mining/algorithm.py
+++ b/pm4py/algo/decision_mining/algorithm.py
@@ -444,6 +444,8 @@ def get_attributes(log, decision_points, attributes, use_trace_attributes, trace
     for variant in replay_result:
         if variant['trace_fitness'] == 1.0:
             for trace_index in variants_idxs[one_variant[count]]:
+                # the attributes of a case do not depend on the other cases
+                A = {attri: None for attri in attributes}
                 last_k_list = [None] * k
                 trace = log[trace_index]
                 if use_trace_attributes:
@@ -478,6 +480,8 @@ def get_attributes(log, decision_points, attributes, use_trace_attributes, trace
             alignment = ali.apply(example_trace, net, initial_marking, final_marking,
                                   parameters=align_parameters)['alignment']
             for trace_index in variants_idxs[one_variant[count]]:
+                # the attributes of a case do not depend on the other cases
+                A = {attri: None for attri in attributes}
                 last_k_list = [None] * k
                 trace = log[trace_index]
                 if use_trace_attributes:
-- 
2.43.0


From bb2f8216167a1c29d5a2b7e7fcc1ff1047408407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 205/276] fix: decision mining: attribute decisions to their
 place

---
 pm4py/algo/decision_mining/algorithm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/decision_mining/algorithm.py b/pm4py/algo/decision_mining/algorithm.py
index 802e4ca..ffad4b6 100644
--- a/pm4py/algo/decision_mining/algorithm.py
+++ b/pm4py/algo/decision_mining/algorithm.py
@@ -456,8 +456,8 @@ def get_attributes(log, decision_points, attributes, use_trace_attributes, trace
                 # j is a pointer which points to the current event inside a trace
                 for transition in variant['activated_transitions']:
                     for key, value in decision_points_names.items():
-                        tr_to_str = transition.label if labels else transition.name
-                        if tr_to_str in value:
+                        tr_to_str = transition.label if labels and transition.label is not None else transition.name
+                        if any(arc.source.name == key for arc in transition.in_arcs):
                             for element in last_k_list:
                                 if element != None:
                                     I[key].append((element.copy(), tr_to_str))
@@ -497,7 +497,7 @@ def get_attributes(log, decision_points, attributes, use_trace_attributes, trace
                                 for element in last_k_list:
                                     if element != None:
                                         # only add those entries where information is provided
-                                        if el[1][1] == None:
+                                        if el[1][1] == None or not labels:
                                             # for some dt algorithms, the entry None might be a problem, since it is left out later
                                             I[key].append((element.copy(), el[0][1]))
                                         else:
-- 
2.43.0


From 9a0b90fdd41f79dc634a8e7fb5b3fb1423655d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 206/276] fix: decision mining: silent transitions do not read
 the next event

---
 pm4py/algo/decision_mining/algorithm.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/decision_mining/algorithm.py b/pm4py/algo/decision_mining/algorithm.py
index ffad4b6..f247b2e 100644
--- a/pm4py/algo/decision_mining/algorithm.py
+++ b/pm4py/algo/decision_mining/algorithm.py
@@ -461,14 +461,15 @@ def get_attributes(log, decision_points, attributes, use_trace_attributes, trace
                             for element in last_k_list:
                                 if element != None:
                                     I[key].append((element.copy(), tr_to_str))
-                    for attri in attributes:
-                        # print(variant, transition.label, j)
-                        if attri in trace[j]:
-                            # only add the attribute information if it is present in the event
-                            A[attri] = trace[j][attri]
-                    # add A to last_k_list. Using modulo to access correct entry
-                    last_k_list[j % k] = A.copy()
                     if transition.label != None:
+                        # (silent transitions do not read the attributes of the next event)
+                        for attri in attributes:
+                            # print(variant, transition.label, j)
+                            if attri in trace[j]:
+                                # only add the attribute information if it is present in the event
+                                A[attri] = trace[j][attri]
+                        # add A to last_k_list. Using modulo to access correct entry
+                        last_k_list[j % k] = A.copy()
                         if not j + 1 >= len(trace):
                             # Problem otherwise: If there are tau-transition after the last event related transition,
                             # the pointer j which points to the current event in a trace, gets out of range
-- 
2.43.0


From deabad24fdad5b0f69fba47049b6e7652063c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 207/276] fix: decision trees to guards: entire depth

---
 pm4py/visualization/decisiontree/util/dt_to_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/visualization/decisiontree/util/dt_to_string.py b/pm4py/visualization/decisiontree/util/dt_to_string.py
index 0c5613d..0d0b133 100644
--- a/pm4py/visualization/decisiontree/util/dt_to_string.py
+++ b/pm4py/visualization/decisiontree/util/dt_to_string.py
@@ -36,7 +36,7 @@ def apply(clf: DecisionTreeClassifier, columns: List[str]) -> Tuple[Dict[str, st
     dict_classes
         Dictionary associating a set of conditions for each target class
     """
-    tree_string = export_text(clf).split("\n")
+    tree_string = export_text(clf, max_depth=max(clf.get_depth(), 1)).split("\n")
     levels = {}
     target_classes = {}
     variables = {}
-- 
2.43.0


From 3bb46c22e6a8bdfeef811f89656b7c74d67dde53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 208/276] fix: decision trees to guards: variables with spaces
 in the name

---
 pm4py/visualization/decisiontree/util/dt_to_string.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/visualization/decisiontree/util/dt_to_string.py b/pm4py/visualization/decisiontree/util/dt_to_string.py
index 0d0b133..b2721c2 100644
--- a/pm4py/visualization/decisiontree/util/dt_to_string.py
+++ b/pm4py/visualization/decisiontree/util/dt_to_string.py
@@ -38,6 +38,7 @@ def apply(clf: DecisionTreeClassifier, columns: List[str]) -> Tuple[Dict[str, st
     """
     tree_string = export_text(clf, max_depth=max(clf.get_depth(), 1)).split("\n")
     levels = {}
+    levels_variables = {}
     target_classes = {}
     variables = {}
     i = 0
@@ -57,8 +58,9 @@ def apply(clf: DecisionTreeClassifier, columns: List[str]) -> Tuple[Dict[str, st
                 if target_class not in variables:
                     variables[target_class] = set()
                 for j in range(level):
-                    variables[target_class].add(levels[j].split(" ")[0])
+                    variables[target_class].add(levels_variables[j])
             else:
+                levels_variables[level] = columns[int(this_part_0.split("_")[1])]
                 levels[level] = columns[int(this_part_0.split("_")[1])] + " " + this_part_1
         i = i + 1
     for cl in target_classes:
-- 
2.43.0


From be22675980a454c9239395b06b8a0cfc05826bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 209/276] fix: decision mining: a replay that ignores events
 does not attribute them

---
 pm4py/algo/decision_mining/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/decision_mining/algorithm.py b/pm4py/algo/decision_mining/algorithm.py
index f247b2e..59c4510 100644
--- a/pm4py/algo/decision_mining/algorithm.py
+++ b/pm4py/algo/decision_mining/algorithm.py
@@ -442,7 +442,9 @@ def get_attributes(log, decision_points, attributes, use_trace_attributes, trace
     replay_result = [replay_result[variants_idxs[variant][0]] for variant in one_variant]
     count = 0
     for variant in replay_result:
-        if variant['trace_fitness'] == 1.0:
+        # (activities that are not in the model are ignored by the replay)
+        replayed = tuple(x.label for x in variant['activated_transitions'] if x.label is not None)
+        if variant['trace_fitness'] == 1.0 and replayed == tuple(one_variant[count]):
             for trace_index in variants_idxs[one_variant[count]]:
                 # the attributes of a case do not depend on the other cases
                 A = {attri: None for attri in attributes}
-- 
2.43.0


From 38062bef48825682c2a27d2ac3ce8f9a8130977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 210/276] fix: trace attribute clustering: the DFG variant is a
 function

---
 pm4py/algo/clustering/trace_attribute_driven/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/clustering/trace_attribute_driven/algorithm.py b/pm4py/algo/clustering/trace_attribute_driven/algorithm.py
index f299798..c5f297b 100644
--- a/pm4py/algo/clustering/trace_attribute_driven/algorithm.py
+++ b/pm4py/algo/clustering/trace_attribute_driven/algorithm.py
@@ -31,7 +31,7 @@ class Variants(Enum):
     VARIANT_AVG_LEVEN = evaluation.eval_avg_leven
     VARIANT_DMM_VEC = evaluation.eval_DMM_variant
     VARIANT_AVG_VEC = evaluation.eval_avg_variant
-    DFG = evaluation.dfg_dist
+    DFG = evaluation.dfg_dis
 
 
 VARIANT_DMM_LEVEN = Variants.VARIANT_DMM_LEVEN
-- 
2.43.0


From b5d520ef712e80f1b8c5fb434d645c2094e47c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 211/276] fix: laplace variant query: find_loader does not
 exist in Python 3.12

---
 .../algo/anonymization/trace_variant_query/variants/laplace.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py b/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
index 593177c..36f3fda 100644
--- a/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
+++ b/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
@@ -78,7 +78,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     show_progress_bar = exec_utils.get_param_value(Parameters.SHOW_PROGRESS_BAR, parameters, True)
     progress = None
-    if importlib.util.find_loader("tqdm") and show_progress_bar:
+    if importlib.util.find_spec("tqdm") and show_progress_bar:
         from tqdm.auto import tqdm
         progress = tqdm(total=k, desc="prefix tree construction, completed prefixes of length :: ")
 
-- 
2.43.0


From d4272f692e9cecda7a6b3848a1c642f213a1fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 212/276] fix: profile clustering: cases that a clusterer
 leaves outside of the clusters

---
 pm4py/algo/clustering/profiles/variants/sklearn_profiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py b/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
index ac90a07..2ee519f 100644
--- a/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
+++ b/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
@@ -72,7 +72,8 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
 
     clusters = clusterer.fit_predict(data)
     max_clu = max(clusters)
-    clust_idxs = {i: list() for i in range(max_clu+1)}
+    # (some clusterers label the cases outside of every cluster with -1)
+    clust_idxs = {i: list() for i in range(min(0, min(clusters)), max_clu+1)}
 
     for i in range(len(clusters)):
         clust_idxs[clusters[i]].append(i)
-- 
2.43.0


From 18e27d3cf606a9438bc7d456c0d62462f6abe0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 213/276] fix: pripel: the sensitivity of the time shift does
 not exceed its domain

---
 pm4py/algo/anonymization/pripel/util/AttributeAnonymizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pm4py/algo/anonymization/pripel/util/AttributeAnonymizer.py b/pm4py/algo/anonymization/pripel/util/AttributeAnonymizer.py
index e6943f0..52226fb 100644
--- a/pm4py/algo/anonymization/pripel/util/AttributeAnonymizer.py
+++ b/pm4py/algo/anonymization/pripel/util/AttributeAnonymizer.py
@@ -191,8 +191,14 @@ class AttributeAnonymizer:
         upperBound = deltaEndOfLogToTrace - traceDuration
         if deltaBeginOfLogToTrace >= upperBound:
             upperBound = abs((self.__maxAllTimestamp - beginOfTrace).total_seconds())
+        if deltaBeginOfLogToTrace >= upperBound:
+            # there is no room to shift the trace
+            return
+
         mechanism.lower = deltaBeginOfLogToTrace
         mechanism.upper = upperBound
+        # (the noise is not defined for a sensitivity over the size of the domain)
+        mechanism.sensitivity = min(mechanism.sensitivity, upperBound - deltaBeginOfLogToTrace)
         timestampShift = timedelta(seconds=mechanism.randomise(0.0))
         for event in trace:
             event[self.__timestamp] = event[self.__timestamp] + timestampShift
-- 
2.43.0


From 2f58759f29545dcea8d5aeb70986859a51596519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 214/276] fix: pripel: the logs of the caller are not edited

---
 pm4py/algo/anonymization/pripel/algorithm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pm4py/algo/anonymization/pripel/algorithm.py b/pm4py/algo/anonymization/pripel/algorithm.py
index 5abb007..4677623 100644
--- a/pm4py/algo/anonymization/pripel/algorithm.py
+++ b/pm4py/algo/anonymization/pripel/algorithm.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 
+from copy import deepcopy
 from enum import Enum
 from typing import Optional, Dict, Any, Union
 
@@ -70,6 +71,10 @@ def apply(log: Union[EventLog, pd.DataFrame], trace_variant_query: Union[EventLo
         Anonymised event log
     """
 
+    # the cases are edited in place: keep the logs of the caller
+    log = deepcopy(log)
+    trace_variant_query = deepcopy(trace_variant_query)
+
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
     trace_variant_query = log_converter.apply(trace_variant_query, variant=log_converter.Variants.TO_EVENT_LOG)
-- 
2.43.0


From e8186df8d73feb523ccd6e874d9990bfeef8042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:59 +0000
Subject: [PATCH 215/276] fix: extended Cardoso metric: the distinct sets of
 output places are counted, not the places

---
 pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py b/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
index f8dc3fa..e2f5abf 100644
--- a/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
+++ b/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
@@ -44,8 +44,8 @@ def apply(petri_net: PetriNet, parameters: Optional[Dict[Any, Any]] = None) -> f
     for place in petri_net.places:
         targets = set()
         for out_arc in place.out_arcs:
-            for out_arc2 in out_arc.target.out_arcs:
-                targets.add(out_arc2.target)
+            # each of the distinct sets of places that can be marked from the place is counted once
+            targets.add(frozenset(out_arc2.target for out_arc2 in out_arc.target.out_arcs))
         ext_card += len(targets)
 
     return ext_card
-- 
2.43.0


From 1ff1f8109435d4e72aab083e8c31083040637a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:38 +0000
Subject: [PATCH 216/276] fix: OCEL features: the events that start and end the
 objects are recognized

---
 .../transformation/ocel/features/events/event_end_ot.py     | 6 +++---
 .../transformation/ocel/features/events/event_start_ot.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/events/event_end_ot.py b/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
index b4edc68..10066f8 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
@@ -50,10 +50,10 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     map_endpoints = {ot: set() for ot in object_types}
     for ot in object_types:
         for obj in object_types[ot]:
-            for ev in endpoints[obj]:
-                map_endpoints[ot].add(ev)
+            if obj in endpoints:
+                map_endpoints[ot].add(endpoints[obj])
 
-    feature_names = ["@@event_start_"+ot for ot in object_types]
+    feature_names = ["@@event_end_"+ot for ot in object_types]
     data = []
 
     for ev in ordered_events:
diff --git a/pm4py/algo/transformation/ocel/features/events/event_start_ot.py b/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
index 018a071..de7602d 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
@@ -50,8 +50,8 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     map_endpoints = {ot: set() for ot in object_types}
     for ot in object_types:
         for obj in object_types[ot]:
-            for ev in endpoints[obj]:
-                map_endpoints[ot].add(ev)
+            if obj in endpoints:
+                map_endpoints[ot].add(endpoints[obj])
 
     feature_names = ["@@event_start_"+ot for ot in object_types]
     data = []
-- 
2.43.0


From 91f0b139dfa97ca1ce7f1ed0bc15e58e637f8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:38 +0000
Subject: [PATCH 217/276] fix: OCEL features: events without related objects

---
 .../transformation/ocel/features/events/event_num_rel_objs.py   | 2 +-
 .../ocel/features/events/event_num_rel_objs_type.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
index a2ddf4e..e8ef6d4 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
@@ -48,6 +48,6 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     feature_names = ["@@event_num_rel_objs"]
 
     for ev in ordered_events:
-        data.append([float(len(rel_objs[ev]))])
+        data.append([float(len(rel_objs[ev])) if ev in rel_objs else 0.0])
 
     return data, feature_names
diff --git a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
index d4b8636..fc82dea 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
@@ -57,7 +57,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     for ev in ordered_events:
         data.append([])
         for ot in object_types:
-            rel_objs_ot = {x for x in rel_objs[ev] if object_type_association[x] == ot}
+            rel_objs_ot = {x for x in rel_objs.get(ev, []) if object_type_association[x] == ot}
             data[-1].append(float(len(rel_objs_ot)))
 
     return data, feature_names
-- 
2.43.0


From 193470b4b9b4ca0b5fa6a144bd422ddc7c756c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:38 +0000
Subject: [PATCH 218/276] fix: OCEL features: an interaction is new only the
 first time

---
 .../algo/transformation/ocel/features/events/new_interactions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/algo/transformation/ocel/features/events/new_interactions.py b/pm4py/algo/transformation/ocel/features/events/new_interactions.py
index d214296..3354490 100644
--- a/pm4py/algo/transformation/ocel/features/events/new_interactions.py
+++ b/pm4py/algo/transformation/ocel/features/events/new_interactions.py
@@ -57,6 +57,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
                     if o1 < o2:
                         if not (o1, o2) in interactions:
                             n = n + 1
+                            interactions.add((o1, o2))
         data.append([float(n)])
 
     return data, feature_names
-- 
2.43.0


From 101c46399e0b858922d633d34ba7c836b70a243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:56 +0000
Subject: [PATCH 219/276] fix: OCEL features: the work in progress counts the
 objects that are already open

---
 .../objects/object_work_in_progress.py        | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py b/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
index 64cf554..c34c2e6 100644
--- a/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
+++ b/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
@@ -16,9 +16,8 @@
 '''
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
-from pm4py.util import pandas_utils
+from bisect import bisect_left, bisect_right
 from pm4py.algo.transformation.ocel.features.objects import object_lifecycle_duration
-import pandas as pd
 
 
 def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
@@ -45,25 +44,23 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
         parameters = {}
 
     data, feature_names = object_lifecycle_duration.apply(ocel, parameters=parameters)
-    obj_dur = pandas_utils.instantiate_dataframe(data, columns=feature_names)
+    ordered_objects = parameters["ordered_objects"] if "ordered_objects" in parameters else ocel.objects[
+        ocel.object_id_column].to_numpy()
+    related_objects = set(ocel.relations[ocel.object_id_column])
 
-    obj_dur["@@index"] = obj_dur.index
-    obj_dur = obj_dur.to_dict("records")
+    # the objects which do not appear in any event are never open
+    is_related = [obj in related_objects for obj in ordered_objects]
+    start_timestamps = sorted(x[1] for i, x in enumerate(data) if is_related[i])
+    end_timestamps = sorted(x[2] for i, x in enumerate(data) if is_related[i])
 
-    data = []
-    obj_dur.sort(key=lambda x: (x["@@object_lifecycle_start_timestamp"], x["@@object_lifecycle_end_timestamp"]))
-    for i in range(len(obj_dur)):
-        j = i + 1
-        ct = obj_dur[i]["@@object_lifecycle_end_timestamp"]
-        while j < len(obj_dur):
-            st = obj_dur[j]["@@object_lifecycle_start_timestamp"]
-            if st > ct:
-                break
-            j = j + 1
-        data.append([j - i, obj_dur[i]["@@index"]])
+    wip = []
+    for i, (duration, st, ct) in enumerate(data):
+        if is_related[i]:
+            # the objects that start before the end of the current one, without the ones that end before its start
+            wip.append([float(bisect_right(start_timestamps, ct) - bisect_left(end_timestamps, st))])
+        else:
+            wip.append([0.0])
+    data = wip
     feature_names = ["@@object_wip"]
 
-    data.sort(key=lambda x: x[1])
-    data = [[float(x[0])] for x in data]
-
     return data, feature_names
-- 
2.43.0


From ccf3200a9a63fa24a716545c293609c0025ec51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:57 +0000
Subject: [PATCH 220/276] fix: explode OCEL: the attributes of the events are
 kept

---
 pm4py/objects/ocel/util/explode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/explode.py b/pm4py/objects/ocel/util/explode.py
index 842ec69..e994b48 100644
--- a/pm4py/objects/ocel/util/explode.py
+++ b/pm4py/objects/ocel/util/explode.py
@@ -40,8 +40,11 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         parameters = {}
 
     ocel = deepcopy(ocel)
+    event_attributes = [x for x in ocel.events.columns if x == ocel.event_id_column or x not in ocel.relations.columns]
+    original_events = ocel.events[event_attributes]
+    ocel.events = ocel.relations.merge(original_events, on=ocel.event_id_column, how="left")
     ocel.relations[ocel.event_id_column] = ocel.relations[ocel.event_id_column] + "_" + ocel.relations[ocel.object_id_column]
-    ocel.events = ocel.relations.copy()
+    ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column] + "_" + ocel.events[ocel.object_id_column]
     del ocel.events[ocel.object_id_column]
     del ocel.events[ocel.object_type_column]
 
-- 
2.43.0


From 05056cf26c120d52daa78388e5d87072a0df248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 221/276] fix: event attribute to object type: missing values
 are not objects

---
 pm4py/objects/ocel/util/ev_att_to_obj_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/ev_att_to_obj_type.py b/pm4py/objects/ocel/util/ev_att_to_obj_type.py
index 08fd77e..05ae485 100644
--- a/pm4py/objects/ocel/util/ev_att_to_obj_type.py
+++ b/pm4py/objects/ocel/util/ev_att_to_obj_type.py
@@ -68,8 +68,8 @@ def apply(ocel: OCEL, param: str, parameters: Optional[Dict[Any, Any]] = None):
     internal_index = exec_utils.get_param_value(Parameters.INTERNAL_INDEX, parameters, constants.DEFAULT_INTERNAL_INDEX)
 
     new_ocel = deepcopy(ocel)
-    new_ocel.events[param] = new_ocel.events[param].astype(str)
     ev_param = new_ocel.events.dropna(subset=[param])[[event_id, event_activity, event_timestamp, param]]
+    ev_param[param] = ev_param[param].astype(str)
     vals = pandas_utils.format_unique(ev_param[param].unique())
     ev_param = ev_param.rename(columns={param: object_id})
     ev_param[object_type] = param
-- 
2.43.0


From d571fba122d28cb8dc08d46414725ef993c92e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 222/276] fix: process tree visualizer: the interleaving
 operator is drawn

---
 pm4py/visualization/process_tree/variants/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/visualization/process_tree/variants/symbolic.py b/pm4py/visualization/process_tree/variants/symbolic.py
index f1d3805..ed72d85 100644
--- a/pm4py/visualization/process_tree/variants/symbolic.py
+++ b/pm4py/visualization/process_tree/variants/symbolic.py
@@ -66,7 +66,7 @@ def repr_tree(tree, viz, color_map, parameters):
             viz.node(this_node_id, str(tree), color=node_color, fontcolor=node_color, fontsize=font_size, shape='box')
     else:
         node_color = get_color(tree, color_map)
-        viz.node(this_node_id, str(tree.operator), color=node_color, fontcolor=node_color,
+        viz.node(this_node_id, graphviz.escape(str(tree.operator)), color=node_color, fontcolor=node_color,
                  fontsize=font_size, shape='circle')
 
         for child in tree.children:
-- 
2.43.0


From 216b5ee23d0e3d3bd8b22a7e7c84085f95436f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 223/276] fix: footprints visualizer: the names of the
 activities are escaped

---
 pm4py/visualization/footprints/variants/comparison.py        | 5 +++--
 .../footprints/variants/comparison_symmetric.py              | 5 +++--
 pm4py/visualization/footprints/variants/single.py            | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pm4py/visualization/footprints/variants/comparison.py b/pm4py/visualization/footprints/variants/comparison.py
index f0afffc..62b6db6 100644
--- a/pm4py/visualization/footprints/variants/comparison.py
+++ b/pm4py/visualization/footprints/variants/comparison.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from html import escape
 from graphviz import Source
 import tempfile
 from pm4py.util import exec_utils
@@ -89,10 +90,10 @@ def apply(fp1: Dict[str, Any], fp2: Dict[str, Any], parameters: Optional[Dict[Un
 
     footprints_table.append("<tr><td></td>")
     for act in activities:
-        footprints_table.append("<td><b>"+act+"</b></td>")
+        footprints_table.append("<td><b>"+escape(act)+"</b></td>")
     footprints_table.append("</tr>\n")
     for a1 in activities:
-        footprints_table.append("<tr><td><b>"+a1+"</b></td>")
+        footprints_table.append("<tr><td><b>"+escape(a1)+"</b></td>")
         for a2 in activities:
             footprints_table.append("<td><font color=\""+fp_table[a1][a2][0]+"\">"+fp_table[a1][a2][1]+"</font></td>")
         footprints_table.append("</tr>\n")
diff --git a/pm4py/visualization/footprints/variants/comparison_symmetric.py b/pm4py/visualization/footprints/variants/comparison_symmetric.py
index 4391681..aba6318 100644
--- a/pm4py/visualization/footprints/variants/comparison_symmetric.py
+++ b/pm4py/visualization/footprints/variants/comparison_symmetric.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from html import escape
 from graphviz import Source
 import tempfile
 from pm4py.util import exec_utils
@@ -74,11 +75,11 @@ def apply(fp1: Dict[str, Any], fp2: Dict[str, Any], parameters: Optional[Dict[Un
 
     footprints_table.append("<tr><td></td>")
     for act in activities:
-        footprints_table.append("<td><b>"+act+"</b></td>")
+        footprints_table.append("<td><b>"+escape(act)+"</b></td>")
     footprints_table.append("</tr>\n")
 
     for a1 in activities:
-        footprints_table.append("<tr><td><b>"+a1+"</b></td>")
+        footprints_table.append("<tr><td><b>"+escape(a1)+"</b></td>")
         for a2 in activities:
             symb_1 = "?"
             symb_2 = "?"
diff --git a/pm4py/visualization/footprints/variants/single.py b/pm4py/visualization/footprints/variants/single.py
index c7285e2..8465480 100644
--- a/pm4py/visualization/footprints/variants/single.py
+++ b/pm4py/visualization/footprints/variants/single.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from html import escape
 from graphviz import Source
 import tempfile
 from pm4py.util import exec_utils
@@ -80,10 +81,10 @@ def apply(fp: Dict[str, Any], parameters: Optional[Dict[Union[str, Parameters],
     footprints_table.append("<table border='0' cellborder='1' color='blue' cellspacing='0'>\n")
     footprints_table.append("<tr><td></td>")
     for act in activities:
-        footprints_table.append("<td><b>"+act+"</b></td>")
+        footprints_table.append("<td><b>"+escape(act)+"</b></td>")
     footprints_table.append("</tr>\n")
     for a1 in activities:
-        footprints_table.append("<tr><td><b>"+a1+"</b></td>")
+        footprints_table.append("<tr><td><b>"+escape(a1)+"</b></td>")
         for a2 in activities:
             footprints_table.append("<td>"+fp_table[a1][a2]+"</td>")
         footprints_table.append("</tr>\n")
-- 
2.43.0


From 1b61337d09789919330dfec451b6ff42008ab205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:37 +0000
Subject: [PATCH 224/276] fix: durations shorter than a second that are
 provided as text

---
 pm4py/util/vis_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/util/vis_utils.py b/pm4py/util/vis_utils.py
index 8eab41a..df94901 100644
--- a/pm4py/util/vis_utils.py
+++ b/pm4py/util/vis_utils.py
@@ -42,7 +42,9 @@ def human_readable_stat(timedelta, stat_locale: Optional[Dict[str, str]] = None)
     if stat_locale is None:
         stat_locale = {}
 
-    c = int(float(timedelta))
+    # the duration may be provided as text
+    timedelta = float(timedelta)
+    c = int(timedelta)
     years = c // 31104000
     months = c // 2592000
     days = c // 86400
-- 
2.43.0


From 6fcfbf7222bdab3676b0f48d555d3556e495ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:18 +0000
Subject: [PATCH 225/276] fix: performance spectrum visualizer: equal durations

---
 pm4py/visualization/performance_spectrum/variants/neato.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pm4py/visualization/performance_spectrum/variants/neato.py b/pm4py/visualization/performance_spectrum/variants/neato.py
index 5eb74fd..e8a226a 100644
--- a/pm4py/visualization/performance_spectrum/variants/neato.py
+++ b/pm4py/visualization/performance_spectrum/variants/neato.py
@@ -115,6 +115,9 @@ def apply(perf_spectrum: Dict[str, Any], parameters: Optional[Dict[Union[str, Pa
     all_diffs = [x[i + 1] - x[i] for x in perf_spectrum["points"] for i in range(len(x) - 1)]
     min_diff = min(all_diffs)
     max_diff = max(all_diffs)
+    # the points, or the durations, may all be equal
+    range_x = max_x - min_x if max_x > min_x else 1.0
+    range_diff = max_diff - min_diff if max_diff > min_diff else 1.0
 
     points = sorted(perf_spectrum["points"], key=lambda x: x[-1] - x[0], reverse=True)
     points = points[:math.ceil(perc_paths * len(points))]
@@ -123,14 +126,14 @@ def apply(perf_spectrum: Dict[str, Any], parameters: Optional[Dict[Union[str, Pa
         this_pts = []
         for i, p in enumerate(polyline):
             p_id = "n" + str(uuid.uuid4()).replace("-", "") + "e"
-            first_coord = (p - min_x) / (max_x - min_x) * overall_length
+            first_coord = (p - min_x) / range_x * overall_length
             second_coord = act_divider * (len(perf_spectrum["list_activities"]) - i - 1)
             lines.append(
                 "%s [label=\"\", pos=\"%.10f,%.10f!\", shape=none, width=\"0px\", height=\"0px\"];" % (p_id, first_coord*layout_ext_multiplier, second_coord*layout_ext_multiplier))
             this_pts.append(p_id)
         for i in range(len(this_pts) - 1):
             diff = polyline[i + 1] - polyline[i]
-            color = give_color_to_line((diff - min_diff) / (max_diff - min_diff))
+            color = give_color_to_line((diff - min_diff) / range_diff)
             lines.append("%s -- %s [ color=\"%s\" ];" % (this_pts[i], this_pts[i + 1], color))
 
     for i, act in enumerate(perf_spectrum["list_activities"]):
-- 
2.43.0


From e7a1c7f75114055220455e4d22d9a75abd8e7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:27 +0000
Subject: [PATCH 226/276] fix: local semantics of stochastic arc weight nets:
 the bindings of every transition are considered

---
 pm4py/objects/petri_net/saw_net/semantics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/objects/petri_net/saw_net/semantics.py b/pm4py/objects/petri_net/saw_net/semantics.py
index 029fd04..746adf5 100644
--- a/pm4py/objects/petri_net/saw_net/semantics.py
+++ b/pm4py/objects/petri_net/saw_net/semantics.py
@@ -213,10 +213,9 @@ class LocalStochasticArcWeightNetSemantics(StochasticArcWeightNetSemantics[N], G
         s = 0
         for t in pn.transitions:
             if cls.is_enabled(pn,t,marking):
-                for b in cls.all_enabled_bindings(pn,transition,marking):
+                for b in cls.all_enabled_bindings(pn,t,marking):
                     s += t.weight * cls.amortized_priority(b)
         
-        print(cls.amortized_priority(binding))
         return transition.weight * cls.amortized_priority(binding) / s
 
 
-- 
2.43.0


From 4bf59a1e35ec77b58df7355d73e1b4b999adedf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:27 +0000
Subject: [PATCH 227/276] fix: stochastic arc weight nets: places without
 tokens are removed from the marking

---
 pm4py/objects/petri_net/saw_net/semantics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/objects/petri_net/saw_net/semantics.py b/pm4py/objects/petri_net/saw_net/semantics.py
index 746adf5..4280b64 100644
--- a/pm4py/objects/petri_net/saw_net/semantics.py
+++ b/pm4py/objects/petri_net/saw_net/semantics.py
@@ -75,6 +75,8 @@ class StochasticArcWeightNetSemantics(StochasticPetriNetSemantics[N], Generic[N]
         for (a, w) in binding:
             if isinstance(a.source, StochasticArcWeightNet.Place):
                 m_out[a.source] -= w
+                if m_out[a.source] == 0:
+                    del m_out[a.source]
             else:
                 m_out[a.target] += w
         return m_out
-- 
2.43.0


From 0d207f1deecb31af846c39ced9837180243c3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:27 +0000
Subject: [PATCH 228/276] fix: unfolding of stochastic arc weight nets: every
 marking is visited once

---
 pm4py/objects/petri_net/saw_net/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/saw_net/convert.py b/pm4py/objects/petri_net/saw_net/convert.py
index 8e0a0ea..3614bf2 100644
--- a/pm4py/objects/petri_net/saw_net/convert.py
+++ b/pm4py/objects/petri_net/saw_net/convert.py
@@ -66,6 +66,9 @@ def convert_saw_net_to_stochastic_net_local_semantics(saw: StochasticArcWeightNe
     open.append(marking)
     while len(open) > 0:
         m = open.pop()
+        if m in closed:
+            continue
+        closed.add(m)
         for t in saw.transitions:
             if sawsem_local.is_enabled(saw,t,m):
                 for b in sawsem_local.all_enabled_bindings(saw,t,m):
@@ -90,6 +93,6 @@ def convert_saw_net_to_stochastic_net_local_semantics(saw: StochasticArcWeightNe
                             plcs_out[p].in_arcs.add(a)
                             t_new.out_arcs.add(a)
                             sn.arcs.add(a)
-                    if m_out not in closed and m_out is not m:
+                    if m_out not in closed:
                         open.append(m_out)
     return sn, {markings[marking][p]: marking[p] for p in marking}
-- 
2.43.0


From 28b9064d5f82c2bd9ad8e7b5188436c33fa66168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:27 +0000
Subject: [PATCH 229/276] fix: elimination of self-loop places: markings are
 kept consistent

---
 pm4py/objects/petri_net/utils/reduction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index 84a1cea..f6552a7 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -264,7 +264,7 @@ def apply_elt_rule(net):
     return net
 
 
-def apply_elp_rule(net, im=None):
+def apply_elp_rule(net, im=None, fm=None):
     """
     Apply the Elimination of Self-Loop Places (ELP) rule
 
@@ -275,16 +275,19 @@ def apply_elp_rule(net, im=None):
     """
     if im is None:
         im = {}
+    if fm is None:
+        fm = {}
     cont = True
     while cont:
         cont = False
         for p in [place for place in net.places]:
             if (set([arc.target for arc in p.out_arcs]).issubset(set([arc.source for arc in p.in_arcs]))) and \
-                    (p in im and im[p] >= 1) and \
+                    (p in im and im[p] >= 1 and p not in fm) and \
                     (post_set(p, properties.RESET_ARC).union(set([arc.target for arc in p.out_arcs])) == set(
                         [arc.source for arc in p.in_arcs])) and \
                     (len(post_set(p, properties.INHIBITOR_ARC)) == 0):
                 remove_place(net, p)
+                del im[p]
                 cont = True
                 break
 
@@ -383,7 +386,7 @@ def apply_reset_inhibitor_net_reduction(net, im=None, fm=None):
     # (FPP) rule is exponential to model size
     # apply_fpp_rule(net, im)
     apply_elt_rule(net)
-    apply_elp_rule(net, im)
+    apply_elp_rule(net, im, fm)
     # (A) rule is exponential to model size
     # apply_a_rule(net)
     apply_r_rule(net)
-- 
2.43.0


From 28e450f22ea57d85279f457fb7cf9f73f9e38a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:27 +0000
Subject: [PATCH 230/276] fix: reset/inhibitor reduction: type of the arc

---
 pm4py/objects/petri_net/utils/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index f6552a7..16f24a4 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -353,7 +353,7 @@ def apply_r_rule(net):
         for p, t in itertools.product(net.places, net.transitions):
             if p in pre_set(t, properties.RESET_ARC).intersection(pre_set(t, properties.INHIBITOR_ARC)):
                 for arc in [arc for arc in net.arcs]:
-                    if arc.source == p and arc.target == t and arc.arc_type == properties.RESET_ARC:
+                    if arc.source == p and arc.target == t and get_arc_type(arc) == properties.RESET_ARC:
                         remove_arc(net, arc)
                 cont = True
                 break
-- 
2.43.0


From 625517453a62fc9f9b322edfee4874d1d9dfd610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:08 +0000
Subject: [PATCH 231/276] fix: discovery of stochastic arc weight nets: nodes
 are not shared between nets

---
 .../ocel/saw_nets/variants/classic.py         | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pm4py/algo/discovery/ocel/saw_nets/variants/classic.py b/pm4py/algo/discovery/ocel/saw_nets/variants/classic.py
index a357fa7..917ec3d 100644
--- a/pm4py/algo/discovery/ocel/saw_nets/variants/classic.py
+++ b/pm4py/algo/discovery/ocel/saw_nets/variants/classic.py
@@ -92,16 +92,19 @@ def __get_ot_saw_nets(obj_types, ocpn_nets, saw_weights):
     for ot in obj_types:
         net, im, fm = ocpn_nets[ot]
         saw_net = StochasticArcWeightNet(net.name)
+        el_corr = dict()
         for place in net.places:
-            saw_net.places.add(place)
+            el_corr[place] = StochasticArcWeightNet.Place(place.name)
+            saw_net.places.add(el_corr[place])
         for trans in net.transitions:
-            saw_net.transitions.add(trans)
+            el_corr[trans] = StochasticArcWeightNet.Transition(trans.name, trans.label)
+            saw_net.transitions.add(el_corr[trans])
         for arc in net.arcs:
-            new_arc = petri_utils.add_arc_from_to(arc.source, arc.target, saw_net, type="stochastic_arc")
-            if isinstance(new_arc.source, PetriNet.Transition) and new_arc.source in saw_weights[ot]:
-                new_arc.weight = saw_weights[ot][new_arc.source]
-            elif isinstance(new_arc.target, PetriNet.Transition) and new_arc.target in saw_weights[ot]:
-                new_arc.weight = saw_weights[ot][new_arc.target]
+            new_arc = petri_utils.add_arc_from_to(el_corr[arc.source], el_corr[arc.target], saw_net, type="stochastic_arc")
+            if isinstance(arc.source, PetriNet.Transition) and arc.source in saw_weights[ot]:
+                new_arc.weight = saw_weights[ot][arc.source]
+            elif isinstance(arc.target, PetriNet.Transition) and arc.target in saw_weights[ot]:
+                new_arc.weight = saw_weights[ot][arc.target]
         ot_saw_nets[ot] = saw_net
     return ot_saw_nets
 
@@ -120,22 +123,22 @@ def __get_multi_saw_net(ot_saw_nets):
         ot_color = {"color": otc0}
         saw_net = ot_saw_nets[ot]
         for place in saw_net.places:
-            multi_saw_net.places.add(place)
-            el_corr[place] = place
-            decorations_multi_saw_net[place] = ot_color
+            el_corr[place] = StochasticArcWeightNet.Place(place.name)
+            multi_saw_net.places.add(el_corr[place])
+            decorations_multi_saw_net[el_corr[place]] = ot_color
         for trans in saw_net.transitions:
             if trans.label is None:
-                multi_saw_net.transitions.add(trans)
-                el_corr[trans] = trans
-                decorations_multi_saw_net[trans] = ot_color
+                el_corr[trans] = StochasticArcWeightNet.Transition(trans.name, trans.label)
+                multi_saw_net.transitions.add(el_corr[trans])
+                decorations_multi_saw_net[el_corr[trans]] = ot_color
             elif trans.label not in trans_unq_corr:
-                multi_saw_net.transitions.add(trans)
+                el_corr[trans] = StochasticArcWeightNet.Transition(trans.name, trans.label)
+                multi_saw_net.transitions.add(el_corr[trans])
                 trans_unq_corr[trans.label] = trans
-                el_corr[trans] = trans
             else:
                 el_corr[trans] = el_corr[trans_unq_corr[trans.label]]
         for arc in saw_net.arcs:
-            new_arc = petri_utils.add_arc_from_to(el_corr[arc.source], el_corr[arc.target], multi_saw_net, weight=arc.weight)
+            new_arc = petri_utils.add_arc_from_to(el_corr[arc.source], el_corr[arc.target], multi_saw_net, weight=arc.weight, type="stochastic_arc")
             decorations_multi_saw_net[new_arc] = ot_color
 
     return multi_saw_net, decorations_multi_saw_net
-- 
2.43.0


From 648c5c46d5164cb73c3a6b164ef6a0caebfa3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:58 +0000
Subject: [PATCH 232/276] fix: variants abstraction: standard deviation of a
 single case

---
 pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py b/pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py
index 520a61f..da9da1b 100644
--- a/pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py
@@ -208,6 +208,9 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     for k, v in vars_list.items():
         freq = max(1, math.floor((len(v)*100.0)/num_cases)) if relative_frequency else len(v)
         primary_perf = compute_perf_aggregation(v, primary_performance_aggregation)
+        if primary_perf is None:
+            # the standard deviation of a single value
+            primary_perf = 0.0
         secondary_perf = compute_perf_aggregation(v, secondary_performance_aggregation)
         tup = (freq, primary_perf, secondary_perf)
         vars_list[k] = tup
-- 
2.43.0


From 3e2655755bdf719f58a9d17dec546cdf7cc5f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:58 +0000
Subject: [PATCH 233/276] fix: description of object-centric logs: events
 without objects, objects without events

---
 .../algo/transformation/ocel/description/variants/variant1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/description/variants/variant1.py b/pm4py/algo/transformation/ocel/description/variants/variant1.py
index b8552fb..6544970 100644
--- a/pm4py/algo/transformation/ocel/description/variants/variant1.py
+++ b/pm4py/algo/transformation/ocel/description/variants/variant1.py
@@ -62,7 +62,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> str:
     ret = ["\n\nevents:\n"]
 
     for ev in events:
-        stru = ev[ocel.event_activity] + " ( related objects: "+", ".join(relations[ev[ocel.event_id_column]])  + " ) "
+        stru = ev[ocel.event_activity] + " ( related objects: "+", ".join(relations.get(ev[ocel.event_id_column], []))  + " ) "
         if include_timestamps:
             stru = stru + " timestamp: "+str(ev[ocel.event_timestamp])
         ret.append(stru)
@@ -72,7 +72,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> str:
     for obj in objects:
         obj_id = obj[ocel.object_id_column]
         stru = obj_id + " object type: "+object_ots[obj_id]
-        if include_timestamps:
+        if include_timestamps and obj_id in objects_start:
             stru = stru + " ( lifecycle start: "+str(objects_start[obj_id])+" ; lifecycle end: "+str(objects_end[obj_id])+" ; lifecycle duration: "+str(objects_lifecycle[obj_id])+" )"
         ret.append(stru)
 
-- 
2.43.0


From e62f7479f92af257f3f412fb269cfa6a1b86618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:58 +0000
Subject: [PATCH 234/276] fix: object-centric directly-follows graph
 abstraction without header

---
 pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py b/pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py
index 24ab36f..7686a94 100644
--- a/pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py
@@ -92,10 +92,10 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> str:
     if include_header:
         ret.append("If I have an object-centric event log with the following directly follows graph (split between the different object types):\n")
 
-        for ot in ot_edges:
-            ret.append("\nObject type: %s\n" % (ot))
-            for edg in ot_edges[ot]:
-                ret.append(__get_descr(edg, include_performance))
+    for ot in ot_edges:
+        ret.append("\nObject type: %s\n" % (ot))
+        for edg in ot_edges[ot]:
+            ret.append(__get_descr(edg, include_performance))
 
     ret.append("\n")
 
-- 
2.43.0


From 434ee49dc9306473285755a5bde78166bf66ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:58 +0000
Subject: [PATCH 235/276] fix: descriptions of the features of the object
 inheritance graph

---
 pm4py/algo/querying/llm/abstractions/ocel_fea_descr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/querying/llm/abstractions/ocel_fea_descr.py b/pm4py/algo/querying/llm/abstractions/ocel_fea_descr.py
index d9a3cde..1fa210d 100644
--- a/pm4py/algo/querying/llm/abstractions/ocel_fea_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/ocel_fea_descr.py
@@ -50,11 +50,11 @@ def __transform_to_string(stru: str) -> str:
     elif stru.startswith("@@object_general_descendants_graph_descendants"):
         return "Number of objects which follow the current object in the object descendants graph"
     elif stru.startswith("@@object_general_inheritance_graph_ascendants"):
-        return "Number of objects which follow the current object in the object inheritance graph"
+        return "Number of objects which precede the current object in the object inheritance graph"
     elif stru.startswith("@@object_general_descendants_graph_ascendants"):
         return "Number of objects which precede the current object in the object descendants graph"
     elif stru.startswith("@@object_general_inheritance_graph_descendants"):
-        return "Number of objects which precede the current object in the object descendants graph"
+        return "Number of objects which follow the current object in the object inheritance graph"
     elif stru.startswith("@@object_cobirth"):
         return "Number of objects starting their lifecycle together with the current object"
     elif stru.startswith("@@object_codeath"):
-- 
2.43.0


From 48e8e5146dabcd7ea76937239616e3a06858f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:50 +0000
Subject: [PATCH 236/276] fix: index of an element of a log or trace

---
 pm4py/objects/log/obj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/log/obj.py b/pm4py/objects/log/obj.py
index b4914d4..c82eca6 100644
--- a/pm4py/objects/log/obj.py
+++ b/pm4py/objects/log/obj.py
@@ -149,8 +149,8 @@ class EventStream(Sequence):
     def __setitem__(self, key, value):
         self._list[key] = value
 
-    def index(self, x, start: int = ..., end: int = ...):
-        return self._list.index(x, start, end)
+    def index(self, x, *args):
+        return self._list.index(x, *args)
 
     def count(self, x):
         return self._list.count(x)
@@ -251,8 +251,8 @@ class Trace(Sequence):
     def __setitem__(self, key, value):
         self._list[key] = value
 
-    def index(self, x, start: int = ..., end: int = ...):
-        return self._list.index(x, start, end)
+    def index(self, x, *args):
+        return self._list.index(x, *args)
 
     def count(self, x):
         return self._list.count(x)
-- 
2.43.0


From 90d8fd686b621f7fe4f503260aa3d14915ade2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:51 +0000
Subject: [PATCH 237/276] fix: minimum self-distance of compressed logs

---
 pm4py/util/compression/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/util/compression/util.py b/pm4py/util/compression/util.py
index c46c7ad..365a181 100644
--- a/pm4py/util/compression/util.py
+++ b/pm4py/util/compression/util.py
@@ -229,7 +229,7 @@ def msd(ucl: Union[UCL, UVCL]) -> Dict[Any, int]:
             filter(lambda t: len(t) > 1, map(lambda t: [i for i, x in enumerate(t) if x == a], ucl)))
         if len(activity_indices) > 0:
             msd[a] = min([i for l in map(lambda t: [
-                t[i - 1] - t[i] - 1 for i in range(len(t)) if i > 0], activity_indices) for i in l])
+                t[i] - t[i - 1] - 1 for i in range(len(t)) if i > 0], activity_indices) for i in l])
     return msd
 
 
-- 
2.43.0


From 971bee6f1e0be46ca8e9c11a7e3cea0e93926300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:51 +0000
Subject: [PATCH 238/276] fix: attributes of sorted traces

---
 pm4py/hof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/hof.py b/pm4py/hof.py
index 23d2434..d2906d7 100644
--- a/pm4py/hof.py
+++ b/pm4py/hof.py
@@ -105,7 +105,7 @@ def sort_trace(trace: log_inst.Trace, key, reverse: bool = False) -> log_inst.Tr
     __event_log_deprecation_warning(trace)
 
     if isinstance(trace, log_inst.Trace):
-        return log_inst.Trace(sorted(trace, key=key, reverse=reverse))
+        return log_inst.Trace(sorted(trace, key=key, reverse=reverse), attributes=trace.attributes)
     else:
         if constants.SHOW_INTERNAL_WARNINGS:
             warnings.warn('input trace object not of appropriate type, sorted() not applied')
-- 
2.43.0


From 31d61f3fa8d607f458f7975c98c2abd4342efa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:21 +0000
Subject: [PATCH 239/276] fix: properties of copied traces

---
 pm4py/objects/log/obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/obj.py b/pm4py/objects/log/obj.py
index c82eca6..11e69f7 100644
--- a/pm4py/objects/log/obj.py
+++ b/pm4py/objects/log/obj.py
@@ -296,7 +296,7 @@ class Trace(Sequence):
         new_attributes = {}
         for k, v in self.attributes.items():
             new_attributes[k] = v
-        trace = Trace(attributes=new_attributes)
+        trace = Trace(attributes=new_attributes, properties=copy.copy(self._properties))
         for ev in self._list:
             trace.append(ev)
         return trace
@@ -308,7 +308,7 @@ class Trace(Sequence):
                 new_attributes[k] = copy.deepcopy(v)
             else:
                 new_attributes[k] = v
-        trace = Trace(attributes=new_attributes)
+        trace = Trace(attributes=new_attributes, properties=copy.deepcopy(self._properties))
         for ev in self._list:
             trace.append(copy.deepcopy(ev))
         return trace
-- 
2.43.0


From ce3f07bedf1cdbed8a16ad26ddb40d26ddc1b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:57 +0000
Subject: [PATCH 240/276] fix: density of attributes without positive values

---
 pm4py/statistics/attributes/common/get.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/statistics/attributes/common/get.py b/pm4py/statistics/attributes/common/get.py
index d2c3761..0778384 100644
--- a/pm4py/statistics/attributes/common/get.py
+++ b/pm4py/statistics/attributes/common/get.py
@@ -113,7 +113,11 @@ def get_kde_numeric_attribute(values, parameters=None):
         density = gaussian_kde(values)
 
         xs1 = list(np.linspace(min(values), max(values), int(graph_points / 2)))
-        xs2 = list(np.geomspace(max(min(values), 0.000001), max(values), int(graph_points / 2)))
+        if max(values) > 0:
+            xs2 = list(np.geomspace(max(min(values), 0.000001), max(values), int(graph_points / 2)))
+        else:
+            # a geometric progression needs positive values
+            xs2 = list(np.linspace(min(values), max(values), int(graph_points / 2)))
         xs = sorted(xs1 + xs2)
 
         return [xs, list(density(xs))]
-- 
2.43.0


From b48d204052aaa7fb0e6a7a3145a8486889977c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:55 +0000
Subject: [PATCH 241/276] fix: anti- and multi-alignments of event logs

---
 .../conformance/antialignments/variants/discounted_a_star.py    | 2 +-
 .../conformance/multialignments/variants/discounted_a_star.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/antialignments/variants/discounted_a_star.py b/pm4py/algo/conformance/antialignments/variants/discounted_a_star.py
index b83a1dc..c787220 100644
--- a/pm4py/algo/conformance/antialignments/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/antialignments/variants/discounted_a_star.py
@@ -52,7 +52,7 @@ def apply(log, petri_net, ini, fin, parameters=None):
     variants_idxs = variants_module.get_variants_from_log_trace_idx(log, parameters=parameters)
     variants = []
     for index_variant, var in enumerate(variants_idxs):
-        variants.append(var.split(","))
+        variants.append(list(var))
 
     # get the number of times we can reach the same marking, very usefull for choices and loops
     marking_limit =  exec_utils.get_param_value(Parameters.MARKING_LIMIT, parameters, None)
diff --git a/pm4py/algo/conformance/multialignments/variants/discounted_a_star.py b/pm4py/algo/conformance/multialignments/variants/discounted_a_star.py
index 951075a..9f74321 100644
--- a/pm4py/algo/conformance/multialignments/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/multialignments/variants/discounted_a_star.py
@@ -45,7 +45,7 @@ def apply(log, petri_net, ini, fin, parameters=None):
     variants_idxs = variants_module.get_variants_from_log_trace_idx(log, parameters=parameters)
     variants = []
     for index_variant, var in enumerate(variants_idxs):
-        variants.append(var.split(","))
+        variants.append(list(var))
 
     # get the number of times we can reach the same marking, very usefull for concurrency and loops
     marking_limit =  exec_utils.get_param_value(Parameters.MARKING_LIMIT, parameters, None)
-- 
2.43.0


From 15dc7665a3b10fa146e99f5f332f3b5fa673559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:55 +0000
Subject: [PATCH 242/276] fix: parameters of anti- and multi-alignments

---
 pm4py/algo/conformance/antialignments/algorithm.py  | 2 +-
 pm4py/algo/conformance/multialignments/algorithm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/antialignments/algorithm.py b/pm4py/algo/conformance/antialignments/algorithm.py
index cbad9fa..8d5bbda 100644
--- a/pm4py/algo/conformance/antialignments/algorithm.py
+++ b/pm4py/algo/conformance/antialignments/algorithm.py
@@ -75,7 +75,7 @@ def apply_log(log, petri_net, initial_marking, final_marking, parameters=None, v
 
     start_time = time.time()
 
-    antialignments = exec_utils.get_variant(variant).apply(log, petri_net, initial_marking, final_marking, parameters=None)
+    antialignments = exec_utils.get_variant(variant).apply(log, petri_net, initial_marking, final_marking, parameters=parameters)
 
     total_time = start_time - time.time()
 
diff --git a/pm4py/algo/conformance/multialignments/algorithm.py b/pm4py/algo/conformance/multialignments/algorithm.py
index c09344d..84f2849 100644
--- a/pm4py/algo/conformance/multialignments/algorithm.py
+++ b/pm4py/algo/conformance/multialignments/algorithm.py
@@ -74,7 +74,7 @@ def apply_log(log, petri_net, initial_marking, final_marking, parameters=None, v
 
     start_time = time.time()
 
-    multialignments = exec_utils.get_variant(variant).apply(log, petri_net, initial_marking, final_marking, parameters=None)
+    multialignments = exec_utils.get_variant(variant).apply(log, petri_net, initial_marking, final_marking, parameters=parameters)
 
     total_time = start_time - time.time()
 
-- 
2.43.0


From d48715fec8ba6cb9ec3184624d18354dad57e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:55 +0000
Subject: [PATCH 243/276] fix: memory of the distances in anti- and
 multi-alignments

---
 .../antialignments/variants/discounted_a_star.py       | 10 +++++-----
 .../multialignments/variants/discounted_a_star.py      |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pm4py/algo/conformance/antialignments/variants/discounted_a_star.py b/pm4py/algo/conformance/antialignments/variants/discounted_a_star.py
index c787220..7fe7660 100644
--- a/pm4py/algo/conformance/antialignments/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/antialignments/variants/discounted_a_star.py
@@ -113,14 +113,14 @@ def __search(net, ini, fin, variants,  exponent=2, marking_limit=1000, epsilon =
 
         all= []
         for v in variants:
-            if str(v+str_aa) not in mymemory.keys() or not withFrac:
+            if str((v, str_aa)) not in mymemory.keys() or not withFrac:
                 size_of_alignment, distance = discountedEditDistance(str_aa,v, exponent)
                 if withFrac:
-                    mymemory[str(v+str_aa)] = distance + exponent**(-size_of_alignment)/(exponent-1)
+                    mymemory[str((v, str_aa))] = distance + exponent**(-size_of_alignment)/(exponent-1)
                 else :
-                    mymemory[str(v+str_aa)] = distance
-                mymemory[str(v+str_aa)] = mymemory[str(v+str_aa)]/((1+epsilon)**(len(str_aa)))
-            all.append(mymemory[str(v+str_aa)])
+                    mymemory[str((v, str_aa))] = distance
+                mymemory[str((v, str_aa))] = mymemory[str((v, str_aa))]/((1+epsilon)**(len(str_aa)))
+            all.append(mymemory[str((v, str_aa))])
         return -min(all)
 
     # ----------------------------
diff --git a/pm4py/algo/conformance/multialignments/variants/discounted_a_star.py b/pm4py/algo/conformance/multialignments/variants/discounted_a_star.py
index 9f74321..e5462bb 100644
--- a/pm4py/algo/conformance/multialignments/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/multialignments/variants/discounted_a_star.py
@@ -98,13 +98,13 @@ def __search(net, ini, fin, variants, exponent=2, marking_limit=1000):
 
         all= []
         for v in variants:
-            if str(v+str_aa) not in mymemory.keys() or not withFrac:
+            if str((v, str_aa)) not in mymemory.keys() or not withFrac:
                 size_of_alignment, distance = discountedEditDistance(str_aa,v, exponent)
                 if withFrac:
-                    mymemory[str(v+str_aa)] = distance - (exponent**(-len(str_aa)+1)-exponent**(-(len(str_aa)+len(v))))/(exponent-1)
+                    mymemory[str((v, str_aa))] = distance - (exponent**(-len(str_aa)+1)-exponent**(-(len(str_aa)+len(v))))/(exponent-1)
                 else :
-                    mymemory[str(v+str_aa)] = distance
-            all.append(mymemory[str(v+str_aa)])
+                    mymemory[str((v, str_aa))] = distance
+            all.append(mymemory[str((v, str_aa))])
         return max(all)
 
     # ----------------------------
-- 
2.43.0


From 186b12b8b8ff44f42296e13877b9ee1821774f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:55 +0000
Subject: [PATCH 244/276] fix: token replay of a dictionary of variants

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 105ef16..98f29c1 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -1203,7 +1203,7 @@ def apply_variants_dictionary(variants, net, initial_marking, final_marking, par
     if parameters is None:
         parameters = {}
 
-    var_list = {x: len(y) for x, y in variants.items()}
+    var_list = [(x, len(y)) for x, y in variants.items()]
     return apply_variants_list(var_list, net, initial_marking, final_marking, parameters=parameters)
 
 
-- 
2.43.0


From fb234e447d3a4112a8c449491bdbc6f65d8d5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:46 +0000
Subject: [PATCH 245/276] fix: edit distance of runs starting with silent
 transitions

---
 pm4py/objects/petri_net/utils/align_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index 081bdaf..e3a3441 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -518,8 +518,10 @@ def levenshtein(seq1, seq2):
     size_x = len(seq1) + 1
     size_y = len(seq2) + 1
     matrix = np.zeros ((size_x, size_y))
-    for x in range(size_x):
-        matrix [x, 0] = x
+    for x in range(1, size_x):
+        # silent elements have no cost, also when they precede the first element of the second sequence
+        is_silent = seq1[x-1] in [None,"tau"] or seq1[x-1][0]=='n' or "skip" in seq1[x-1] or "tau" in seq1[x-1]
+        matrix [x, 0] = matrix [x-1, 0] + (0 if is_silent else 1)
     for y in range(size_y):
         matrix [0, y] = y
 
-- 
2.43.0


From 0790ae3018d1f3910e7edcc1216957b838042c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 246/276] fix: alignment and replay against a serialized Petri
 net

---
 .../alignments/decomposed/variants/recompos_maximal.py          | 2 +-
 .../alignments/petri_net/variants/dijkstra_less_memory.py       | 2 +-
 .../alignments/petri_net/variants/dijkstra_no_heuristics.py     | 2 +-
 .../alignments/petri_net/variants/discounted_a_star.py          | 2 +-
 .../alignments/petri_net/variants/state_equation_a_star.py      | 2 +-
 .../petri_net/variants/tweaked_state_equation_a_star.py         | 2 +-
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index 185de04..808562d 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -70,7 +70,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index cb6f3a1..e3c52dc 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -106,7 +106,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
index dadf6c3..4b25247 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
@@ -228,7 +228,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
index cc9ddbd..631bfc1 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
@@ -247,7 +247,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
index c33526f..e2b0f0d 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
@@ -289,7 +289,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index de1ce10..3294bec 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -282,7 +282,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 98f29c1..5f1dbf2 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -1213,7 +1213,7 @@ def apply_variants_list_petri_string(variants_list, petri_string, parameters=Non
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    net, im, fm = petri_importer.import_petri_from_string(petri_string, parameters=parameters)
+    net, im, fm = petri_importer.import_net_from_string(petri_string, parameters=parameters)
 
     return apply_variants_list(variants_list, net, im, fm, parameters=parameters)
 
-- 
2.43.0


From cf12b2b41e0b6417c13ce0cbb76706b0ebda4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 247/276] fix: fitness of approximated process tree alignments

---
 .../alignments/process_tree/variants/approximated/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/utilities.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/utilities.py
index 6dbcc03..1ddd551 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/utilities.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/utilities.py
@@ -149,7 +149,8 @@ def add_fitness_and_cost_info_to_alignments(alignment: List, pt: ProcessTree, tr
 
     def calculate_get_best_worst_cost(tree: ProcessTree, conversion_version) -> int:
         net, im, fm = pt_converter.apply(tree, variant=conversion_version)
-        return get_best_worst_cost(net, im, fm)
+        # the cost of the alignments is expressed in number of moves
+        return get_best_worst_cost(net, im, fm) // STD_MODEL_LOG_MOVE_COST
 
     conversion_version = exec_utils.get_param_value(Parameters.CONVERSION_VERSION, parameters,
                                                     pt_converter.Variants.TO_PETRI_NET_TRANSITION_BORDERED)
-- 
2.43.0


From f2e5680be4a65abbd9931c056d6747078934970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:54 +0000
Subject: [PATCH 248/276] fix: approximated alignments leave the process tree
 as it is

---
 .../process_tree/variants/approximated/matrix_lp.py          | 5 +++--
 .../process_tree/variants/approximated/original.py           | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
index e47d94b..cd1feb0 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
@@ -31,7 +31,7 @@ from pm4py.statistics.variants.log.get import get_variants_from_log_trace_idx
 from pm4py.util.lp import solver
 from enum import Enum
 import numpy as np
-from copy import copy
+from copy import copy, deepcopy
 import sys
 import time
 from pm4py.util import variants_util
@@ -162,7 +162,8 @@ def __align(obj: Union[Trace, EventLog], pt: ProcessTree, max_trace_length: int
         e.append(obj)
         obj = e
     assert isinstance(obj, EventLog)
-    pt = process_tree_to_binary_process_tree(pt)
+    # do not edit the tree of the caller
+    pt = process_tree_to_binary_process_tree(deepcopy(pt))
     pt = EfficientTree(pt)
 
     parameters[Parameters.SUBTREE_ALIGN_CACHE] = {}
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
index 03a0189..2630537 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
@@ -31,6 +31,7 @@ from pm4py.statistics.variants.log.get import get_variants_from_log_trace_idx
 from enum import Enum
 import sys
 import time
+from copy import deepcopy
 from pm4py.util import variants_util
 
 
@@ -156,7 +157,8 @@ def __align(obj: Union[Trace, EventLog], pt: ProcessTree, max_trace_length: int
         e.append(obj)
         obj = e
     assert isinstance(obj, EventLog)
-    pt = process_tree_to_binary_process_tree(pt)
+    # do not edit the tree of the caller
+    pt = process_tree_to_binary_process_tree(deepcopy(pt))
     pt = EfficientTree(pt)
     
     return __approximate_alignments_for_log(obj, pt, max_trace_length, max_process_tree_height,
-- 
2.43.0


From b82edbbd75e9568baae24455cb73e3c7efc1e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:55 +0000
Subject: [PATCH 249/276] fix: detect fractional solutions in approximated
 alignments

---
 .../alignments/process_tree/variants/approximated/matrix_lp.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
index cd1feb0..4cdbf21 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
@@ -1290,7 +1290,7 @@ def __ilp_solve(c, Aub, bub, Aeq, beq):
         points = solver.get_points_from_sol(sol, variant="cvxopt_solver_custom_align")
         condition_points = True
         for x in points:
-            if x > TOL or x < 1 - TOL:
+            if x < TOL or x > 1 - TOL:
                 continue
             condition_points = False
             break
-- 
2.43.0


From 51f66acdecde5193c2b76bccc07f00edc70503b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:04 +0000
Subject: [PATCH 250/276] fix: alignment of several variants with the same
 parameters

---
 .../alignments/petri_net/variants/dijkstra_less_memory.py       | 2 ++
 .../alignments/petri_net/variants/dijkstra_no_heuristics.py     | 2 ++
 .../petri_net/variants/generator_dijkstra_no_heuristics.py      | 2 ++
 .../alignments/petri_net/variants/state_equation_a_star.py      | 2 ++
 .../petri_net/variants/tweaked_state_equation_a_star.py         | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index e3c52dc..f602541 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -337,6 +337,8 @@ def apply(trace: Trace, net: PetriNet, im: Marking, fm: Marking, parameters: Opt
     """
     if parameters is None:
         parameters = {}
+    # do not edit the dictionary of the caller (it may be used to align several traces)
+    parameters = copy(parameters)
 
     if exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None) is None:
         parameters[Parameters.PARAM_TRACE_COST_FUNCTION] = [align_utils.STD_MODEL_LOG_MOVE_COST] * len(trace)
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
index 4b25247..6034d04 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
@@ -105,6 +105,8 @@ def apply(trace: Trace, petri_net: PetriNet, initial_marking: Marking, final_mar
     """
     if parameters is None:
         parameters = {}
+    # do not edit the dictionary of the caller (it may be used to align several traces)
+    parameters = copy(parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY)
     trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_no_heuristics.py b/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_no_heuristics.py
index 6de1b2c..01e1ef9 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_no_heuristics.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_no_heuristics.py
@@ -106,6 +106,8 @@ def apply(trace: Trace, petri_net: PetriNet, initial_marking: Marking, final_mar
     """
     if parameters is None:
         parameters = {}
+    # do not edit the dictionary of the caller (it may be used to align several traces)
+    parameters = copy(parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY)
     trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
index e2b0f0d..591f068 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
@@ -129,6 +129,8 @@ def apply(trace: Trace, petri_net: PetriNet, initial_marking: Marking, final_mar
     """
     if parameters is None:
         parameters = {}
+    # do not edit the dictionary of the caller (it may be used to align several traces)
+    parameters = copy(parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY)
     trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index 3294bec..965331a 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -116,6 +116,8 @@ def apply(trace: Trace, petri_net: PetriNet, initial_marking: Marking, final_mar
     """
     if parameters is None:
         parameters = {}
+    # do not edit the dictionary of the caller (it may be used to align several traces)
+    parameters = copy(parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, DEFAULT_NAME_KEY)
     trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
-- 
2.43.0


From 022e5af0f7c2c1cdb07269ebf21d4fdc313a29f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:45 +0000
Subject: [PATCH 251/276] fix: optimality of the memory-efficient generator of
 alignments

---
 .../generator_dijkstra_less_memory.py         | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_less_memory.py
index 92aed45..ff66ce1 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_less_memory.py
@@ -342,9 +342,9 @@ def __decode_marking(m_t):
     return m_d
 
 
-def __check_closed(closed, ns):
+def __check_closed(closed, ns, cost):
     """
-    Checks if the state is closed
+    Checks if the state is closed (the same state has been visited with a lower cost)
 
     Parameters
     -------------
@@ -352,21 +352,18 @@ def __check_closed(closed, ns):
         Closed set
     ns
         New state (marking, index)
+    cost
+        Cost of the new state
 
     Returns
     -------------
     bool
         Boolean (true if the state is closed)
     """
-    if ns[0] in closed:
-        if closed[ns[0]] < ns[1]:
-            return True
-        elif closed[ns[0]] == ns[1]:
-            return False
-    return False
+    return ns in closed and closed[ns] < cost
 
 
-def __add_closed(closed, ns):
+def __add_closed(closed, ns, cost):
     """
     Adds a closed state
 
@@ -376,8 +373,10 @@ def __add_closed(closed, ns):
         Closed set
     ns
         New state (marking, index)
+    cost
+        Cost of the state
     """
-    closed[ns[0]] = ns[1]
+    closed[ns] = cost
 
 
 def __add_to_open_set(open_set, ns):
@@ -493,7 +492,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
         curr_m = __decode_marking(curr_m0)
         # if a situation equivalent to the one of the current state has been
         # visited previously, then discard this
-        if __check_closed(closed, (curr_m0, curr[POSITION_INDEX])):
+        if __check_closed(closed, (curr_m0, curr[POSITION_INDEX]), curr[POSITION_TOTAL_COST]):
             continue
         visited = visited + 1
 
@@ -512,7 +511,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     visited_sequences.add(ali_sequence)
                     yield ali
                 continue
-        __add_closed(closed, (curr_m0, curr[POSITION_INDEX]))
+        __add_closed(closed, (curr_m0, curr[POSITION_INDEX]), curr_cost)
 
         # retrieves the transitions that are enabled in the current marking
         en_t = [t for t in trans_pre_dict if __dict_leq(trans_pre_dict[t], curr_m)]
@@ -532,7 +531,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     curr[POSITION_ALIGN_LENGTH] + 1, dummy_count,
                     curr,
                     new_m, t)
-                if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX])):
+                if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX]), new_state[POSITION_TOTAL_COST]):
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
@@ -551,7 +550,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                 curr[POSITION_TOTAL_COST] + transf_model_cost_function[t], curr[POSITION_INDEX], IS_MODEL_MOVE,
                 curr[POSITION_ALIGN_LENGTH] + 1, dummy_count, curr, new_m, t)
             if not curr_m0 == new_m:
-                if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX])):
+                if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX]), new_state[POSITION_TOTAL_COST]):
                     open_set = __add_to_open_set(open_set, new_state)
             j = j + 1
 
@@ -564,7 +563,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
             new_state = (
                 curr[POSITION_TOTAL_COST] + trace_cost_function[-curr[POSITION_INDEX]], curr[POSITION_INDEX] - 1,
                 IS_LOG_MOVE, curr[POSITION_ALIGN_LENGTH] + 1, dummy_count, curr, curr_m0, None)
-            if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX])):
+            if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX]), new_state[POSITION_TOTAL_COST]):
                 # adds the log move only if it has not been already closed before
                 open_set = __add_to_open_set(open_set, new_state)
 
-- 
2.43.0


From 8789633e3a7218c02ce09a159571065a4042e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:52 +0000
Subject: [PATCH 252/276] fix: regular expressions of loops and silent trees

---
 pm4py/objects/process_tree/utils/regex.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pm4py/objects/process_tree/utils/regex.py b/pm4py/objects/process_tree/utils/regex.py
index df5954e..10c8a35 100644
--- a/pm4py/objects/process_tree/utils/regex.py
+++ b/pm4py/objects/process_tree/utils/regex.py
@@ -60,11 +60,9 @@ def pt_to_regex(tree, rec_depth=0, shared_obj=None, parameters=None):
             if contains_tau:
                 stru = "(" + stru + "?)"
         elif tree.operator == pt_operator.Operator.LOOP:
-            children_rep = [x for x in children_rep if not x is None]
-            if len(children_rep) == 1:
-                stru = "(" + children_rep[0] + ")+"
-            else:
-                stru = "(" + "".join(children_rep) + ")*" + children_rep[0]
+            body = children_rep[0] if children_rep[0] is not None else ""
+            redo = "".join(x for x in children_rep[1:] if x is not None)
+            stru = "((" + body + redo + ")*" + body + ")"
         elif tree.operator == pt_operator.Operator.PARALLEL:
             raise Exception("the conversion is not yet working with trees containing an AND and/or an OR operator!")
         elif tree.operator == pt_operator.Operator.OR:
@@ -75,7 +73,8 @@ def pt_to_regex(tree, rec_depth=0, shared_obj=None, parameters=None):
             get_new_char(tree.label, shared_obj)
         stru = shared_obj.mapping_dictio[tree.label]
     elif tree.label is None:
-        return None, shared_obj
+        if rec_depth > 0:
+            return None, shared_obj
 
     if rec_depth == 0:
         ret = "^" + stru + "$", shared_obj.mapping_dictio
-- 
2.43.0


From aefec32610b56dd330c0f3237b80aac82b1a99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:03 +0000
Subject: [PATCH 253/276] fix: ancestors of the root of a process tree

---
 pm4py/objects/process_tree/utils/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/process_tree/utils/generic.py b/pm4py/objects/process_tree/utils/generic.py
index 66b0193..d1b94db 100644
--- a/pm4py/objects/process_tree/utils/generic.py
+++ b/pm4py/objects/process_tree/utils/generic.py
@@ -418,10 +418,10 @@ def get_ancestors_until(t: ProcessTree, until: ProcessTree, include_until: bool
         return ancestors
     parent = t.parent
     while parent != until:
-        ancestors.append(parent)
-        parent = parent.parent
         if parent is None:
             return None
+        ancestors.append(parent)
+        parent = parent.parent
     if include_until:
         ancestors.append(until)
     return ancestors
-- 
2.43.0


From c299d4345877f06321aed31d3d5e09d4bc9cc2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:03 +0000
Subject: [PATCH 254/276] fix: structural equality of interleaved operators

---
 pm4py/objects/process_tree/utils/generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/process_tree/utils/generic.py b/pm4py/objects/process_tree/utils/generic.py
index d1b94db..6833cd4 100644
--- a/pm4py/objects/process_tree/utils/generic.py
+++ b/pm4py/objects/process_tree/utils/generic.py
@@ -352,7 +352,8 @@ def structurally_language_equal(tree1, tree2):
                     if not structurally_language_equal(tree1.children[i], tree2.children[i]):
                         return False
                 return True
-            elif tree1.operator in [pt_op.Operator.PARALLEL, pt_op.Operator.XOR, pt_op.Operator.OR]:
+            elif tree1.operator in [pt_op.Operator.PARALLEL, pt_op.Operator.XOR, pt_op.Operator.OR,
+                                    pt_op.Operator.INTERLEAVING]:
                 matches = list(range(len(tree1.children)))
                 for i in range(len(tree1.children)):
                     mm = [m for m in matches]
-- 
2.43.0


From b1b20d15eab52487daed62b5612085c9e62ef3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:06 +0000
Subject: [PATCH 255/276] fix: number of visits of the vertices of a DFG

---
 pm4py/objects/dfg/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/util.py b/pm4py/objects/dfg/util.py
index 3fed580..e299b9c 100644
--- a/pm4py/objects/dfg/util.py
+++ b/pm4py/objects/dfg/util.py
@@ -140,7 +140,7 @@ def get_vertex_frequencies(dfg: DFG) -> Dict[Any, int]:
     for v in get_vertices(dfg):
         c[v] = 0
     for (a, b) in dfg.graph:
-        c[a] += dfg.graph[(a, b)]
+        c[b] += dfg.graph[(a, b)]
     for a in dfg.start_activities:
         c[a] += dfg.start_activities[a]
     return c
-- 
2.43.0


From 994e3a50d538cce53471245117906f904a40a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:08 +0000
Subject: [PATCH 256/276] fix: uniform and weighted place invariants without
 PuLP

---
 .../algo/analysis/woflan/place_invariants/utility.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/place_invariants/utility.py b/pm4py/algo/analysis/woflan/place_invariants/utility.py
index 01f4ea9..f0fabc8 100644
--- a/pm4py/algo/analysis/woflan/place_invariants/utility.py
+++ b/pm4py/algo/analysis/woflan/place_invariants/utility.py
@@ -152,8 +152,11 @@ def transform_basis(basis, style=None):
                 if constants.SHOW_INTERNAL_WARNINGS:
                     warnings.warn("solution from scipy may be unstable. Please install PuLP (pip install pulp) for fully reliable results.")
 
-            sol = solver.apply(c, Aub, bub, Aeq, beq, variant=proposed_solver, parameters={"method": "revised simplex", "require_ilp": True})
+            sol = solver.apply(c, Aub, bub, Aeq, beq, variant=proposed_solver, parameters={"require_ilp": True})
             points = solver.get_points_from_sol(sol, variant=proposed_solver)
+            if points is not None and proposed_solver == solver.SCIPY:
+                # the solution of SciPy is not necessarily integer
+                points = list(sol.x)
             val = solver.get_prim_obj_from_sol(sol, variant=proposed_solver)
 
             if points is not None:
@@ -167,8 +170,13 @@ def transform_basis(basis, style=None):
                 elif style == "uniform":
                     for i in range(len(new_vector)):
                         new_vector[i] = points[len(set_B) + 1 + i]
+                    if max(new_vector) > 0:
+                        new_vector = new_vector / max(new_vector)
+                    if any(0.000001 < x < 0.999999 for x in new_vector):
+                        # no uniform invariant has been found
+                        continue
 
-                new_vector = np.array([new_vector]).T
+                new_vector = np.array([np.round(new_vector, 6)]).T
                 modified_base.append(new_vector)
 
     return modified_base
-- 
2.43.0


From dc1c86c85f005560ed73233beb2e5a63950253e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:09 +0000
Subject: [PATCH 257/276] fix: comparison of markings in is_sub_marking

---
 pm4py/objects/petri_net/utils/petri_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/utils/petri_utils.py b/pm4py/objects/petri_net/utils/petri_utils.py
index e9a598b..8a6cbad 100644
--- a/pm4py/objects/petri_net/utils/petri_utils.py
+++ b/pm4py/objects/petri_net/utils/petri_utils.py
@@ -31,7 +31,7 @@ def is_sub_marking(sub_marking: Marking, marking: Marking) -> bool:
     for p in sub_marking:
         if p not in marking:
             return False
-        elif marking[p] > sub_marking[p]:
+        elif marking[p] < sub_marking[p]:
             return False
     return True
 
-- 
2.43.0


From b891f5cb218aa3e6d6706724db79b9dfee4c8735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:09 +0000
Subject: [PATCH 258/276] fix: Petri nets of DFGs whose activities have no arc

---
 .../dfg/variants/to_petri_net_activity_defines_place.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py b/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
index 9b3d699..013b21c 100644
--- a/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
+++ b/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
@@ -50,7 +50,7 @@ def apply(dfg, parameters=None):
                                                       dfg))
     end_activities = exec_utils.get_param_value(Parameters.END_ACTIVITIES, parameters,
                                                 dfg_utils.infer_end_activities(dfg))
-    activities = dfg_utils.get_activities_from_dfg(dfg)
+    activities = sorted(set(dfg_utils.get_activities_from_dfg(dfg)).union(start_activities).union(end_activities))
 
     net = PetriNet("")
     im = Marking()
-- 
2.43.0


From 3c1097037877c891fbf90f217afebaf1b34cd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 259/276] fix: place invariants of nets with arc weights

---
 .../algo/analysis/woflan/place_invariants/place_invariants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py b/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
index d730416..b7abbb7 100644
--- a/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
+++ b/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
@@ -41,10 +41,10 @@ def compute_place_invariants(net):
             t = transition_list[i]
             for in_arc in t.in_arcs:
                 # arcs that go to transition
-                C[place_list.index(in_arc.source), i] -= 1
+                C[place_list.index(in_arc.source), i] -= in_arc.weight
             for out_arc in t.out_arcs:
                 # arcs that lead away from transition
-                C[place_list.index(out_arc.target), i] += 1
+                C[place_list.index(out_arc.target), i] += out_arc.weight
             i += 1
         return C
 
-- 
2.43.0


From 98bce81296362cee4f2b7152811a670a128ccdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:03 +0000
Subject: [PATCH 260/276] fix: guards with decimal numbers

---
 pm4py/objects/petri_net/data_petri_nets/semantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/data_petri_nets/semantics.py b/pm4py/objects/petri_net/data_petri_nets/semantics.py
index 51cb220..1bd3a2c 100644
--- a/pm4py/objects/petri_net/data_petri_nets/semantics.py
+++ b/pm4py/objects/petri_net/data_petri_nets/semantics.py
@@ -20,7 +20,8 @@ from pm4py.objects.petri_net.sem_interface import Semantics
 import re
 
 
-security_pattern = re.compile(r'[.]|\\x[0-9a-fA-F]+')
+# a dot is only accepted inside of a decimal number
+security_pattern = re.compile(r'[.](?![0-9])|\\x[0-9a-fA-F]+')
 
 
 class DataPetriNetSemantics(Semantics):
-- 
2.43.0


From 4d52d8cdc89f928b55eb5dc36c24426e1c5b942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:03 +0000
Subject: [PATCH 261/276] fix: string literals and names containing true or
 false in guards

---
 pm4py/objects/petri_net/data_petri_nets/semantics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/data_petri_nets/semantics.py b/pm4py/objects/petri_net/data_petri_nets/semantics.py
index 1bd3a2c..caa2c9f 100644
--- a/pm4py/objects/petri_net/data_petri_nets/semantics.py
+++ b/pm4py/objects/petri_net/data_petri_nets/semantics.py
@@ -20,6 +20,9 @@ from pm4py.objects.petri_net.sem_interface import Semantics
 import re
 
 
+# operators and constants of the guards, and the string literals (in which they are not replaced)
+token_pattern = re.compile(r'"[^"]*"|\'[^\']*\'|&&|\|\||\btrue\b|\bfalse\b')
+token_map = {"&&": " and ", "||": " or ", "true": "True", "false": "False"}
 # a dot is only accepted inside of a decimal number
 security_pattern = re.compile(r'[.](?![0-9])|\\x[0-9a-fA-F]+')
 
@@ -131,7 +134,7 @@ def evaluate_guard(guard, read_variables, data):
     boolean
         Boolean value
     """
-    guard = guard.replace("&&", " and ").replace("||", " or ").replace("true", "True").replace("false", "False")
+    guard = token_pattern.sub(lambda x: token_map.get(x.group(0), x.group(0)), guard)
     try:
         dct = {}
         for k in read_variables:
-- 
2.43.0


From 9aa64586164a5fbd188dd07778042e79657e16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:04 +0000
Subject: [PATCH 262/276] fix: indices of the timestamp interleavings and their
 object-centric log

---
 .../ocel/interleavings/utils/merge_dataframe_rel_cases.py  | 5 +++++
 pm4py/objects/ocel/util/log_ocel.py                        | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py b/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
index c08e20a..cdd745b 100644
--- a/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
+++ b/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
@@ -52,7 +52,12 @@ def directly_follows_dataframe(dataframe: pd.DataFrame, parameters: Optional[Dic
     insert_parameters = copy(parameters)
     insert_parameters["use_extremes_timestamp"] = True
 
+    original_index = index_key + "_original"
+    dataframe[original_index] = dataframe[index_key]
     dataframe = dataframe_utils.insert_artificial_start_end(dataframe, parameters=insert_parameters)
+    # the index shall refer to the events of the original dataframe (-1 for the artificial events)
+    dataframe[index_key] = dataframe[original_index].fillna(-1).astype(int)
+    del dataframe[original_index]
 
     df_shifted = dataframe.shift(-1)
     df_shifted.columns = [x+"_2" for x in df_shifted.columns]
diff --git a/pm4py/objects/ocel/util/log_ocel.py b/pm4py/objects/ocel/util/log_ocel.py
index f250a2a..dc9a9e0 100644
--- a/pm4py/objects/ocel/util/log_ocel.py
+++ b/pm4py/objects/ocel/util/log_ocel.py
@@ -261,6 +261,10 @@ def from_interleavings(df1: pd.DataFrame, df2: pd.DataFrame, interleavings: pd.D
     right_index = exec_utils.get_param_value(Parameters.RIGHT_INDEX, parameters, "@@right_index")
     direction = exec_utils.get_param_value(Parameters.DIRECTION, parameters, "@@direction")
 
+    # the interleavings refer to the positions of the events in the dataframes
+    df1 = df1.reset_index(drop=True)
+    df2 = df2.reset_index(drop=True)
+
     events1 = __get_events_dataframe(df1, activity_key, timestamp_key, case_id_key, case_attribute_prefix,
                                      events_prefix="E1_")
     objects1 = __get_objects_dataframe(df1, case_id_key, case_attribute_prefix, target_object_type)
@@ -276,6 +280,7 @@ def from_interleavings(df1: pd.DataFrame, df2: pd.DataFrame, interleavings: pd.D
     relations2_minimal = relations2[
         [ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE]]
 
+    interleavings = interleavings.copy()
     interleavings[left_index] = "E1_" + interleavings[left_index].astype(int).astype(str)
     interleavings[right_index] = "E2_" + interleavings[right_index].astype(int).astype(str)
     interleavings_lr = interleavings[interleavings[direction] == "LR"][[left_index, right_index]]
@@ -286,12 +291,14 @@ def from_interleavings(df1: pd.DataFrame, df2: pd.DataFrame, interleavings: pd.D
                                   suffixes=('', '_@#@#RIGHT'))
     relations3[ocel_constants.DEFAULT_OBJECT_ID] = relations3[ocel_constants.DEFAULT_OBJECT_ID + '_@#@#RIGHT']
     relations3[ocel_constants.DEFAULT_OBJECT_TYPE] = target_object_type_2
+    relations3 = relations3[relations1.columns]
 
     relations4 = events2.merge(interleavings_rl, left_on=ocel_constants.DEFAULT_EVENT_ID, right_on=right_index)
     relations4 = relations4.merge(relations1_minimal, left_on=left_index, right_on=ocel_constants.DEFAULT_EVENT_ID,
                                   suffixes=('', '_@#@#LEFT'))
     relations4[ocel_constants.DEFAULT_OBJECT_ID] = relations4[ocel_constants.DEFAULT_OBJECT_ID + '_@#@#LEFT']
     relations4[ocel_constants.DEFAULT_OBJECT_TYPE] = target_object_type
+    relations4 = relations4[relations2.columns]
 
     del events1[ocel_constants.DEFAULT_OBJECT_ID]
     del events2[ocel_constants.DEFAULT_OBJECT_ID]
-- 
2.43.0


From 4791a7ab64c7d64e3d785677e4dc4810f262ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:05 +0000
Subject: [PATCH 263/276] fix: OCEL of an event log keeps the attributes named
 as an activity

---
 pm4py/objects/ocel/util/log_ocel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/log_ocel.py b/pm4py/objects/ocel/util/log_ocel.py
index dc9a9e0..d6275d5 100644
--- a/pm4py/objects/ocel/util/log_ocel.py
+++ b/pm4py/objects/ocel/util/log_ocel.py
@@ -120,7 +120,7 @@ def from_traditional_log(log: EventLog, parameters: Optional[Dict[Any, Any]] = N
             eve = {ocel_constants.DEFAULT_EVENT_ID: str(ev_count), ocel_constants.DEFAULT_EVENT_ACTIVITY: activity,
                    ocel_constants.DEFAULT_EVENT_TIMESTAMP: timestamp}
             for attr in ev:
-                if attr not in [activity, timestamp]:
+                if attr not in [activity_key, timestamp_key]:
                     eve[attr] = ev[attr]
             events.append(eve)
             relations.append(
-- 
2.43.0


From 18370ed1ec1513fc257e317c219125b20d27842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:05 +0000
Subject: [PATCH 264/276] fix: slices of the wrapper of a dataframe as a log

---
 pm4py/objects/log/util/pandas_log_wrapper.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pm4py/objects/log/util/pandas_log_wrapper.py b/pm4py/objects/log/util/pandas_log_wrapper.py
index 0e6355f..d4834c8 100644
--- a/pm4py/objects/log/util/pandas_log_wrapper.py
+++ b/pm4py/objects/log/util/pandas_log_wrapper.py
@@ -42,10 +42,7 @@ class PandasTraceWrapper(Sequence):
 
     def __getitem__(self, key):
         if type(key) is slice:
-            start = key.start % len(self.dataframe)
-            stop = key.stop % len(self.dataframe)
-            sli = slice(start, stop - 1, key.step)
-            return self.dataframe.loc[sli].to_dict("records")
+            return self.dataframe.iloc[key].to_dict("records")
         key = key % len(self.dataframe)
         return self.dataframe.loc[key].to_dict()
 
@@ -82,11 +79,8 @@ class PandasLogWrapper(Sequence):
 
     def __getitem__(self, key):
         if type(key) is slice:
-            start = key.start % len(self.dataframe)
-            stop = key.stop % len(self.dataframe)
-            sli = slice(start, stop, key.step)
             ret = []
-            for x in self.keys[sli]:
+            for x in self.keys[key]:
                 ret.append(PandasTraceWrapper(self.dataframe.loc[self.grouped_dataframe[x]].copy().reset_index(),
                                   parameters=self.parameters))
             return ret
-- 
2.43.0


From 429c1bb416742538e1d5133543a950444729ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:52 +0000
Subject: [PATCH 265/276] fix: best-worst cost of trace alignments without a
 given trace cost function

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index af275ec..44a0bf2 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -147,7 +147,8 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
     ali = exec_utils.get_variant(variant).apply(trace, petri_net, initial_marking, final_marking,
                                                  parameters=parameters)
 
-    trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, [])
+    trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters,
+                                                     [align_utils.STD_MODEL_LOG_MOVE_COST] * len(trace))
     # Instead of using the length of the trace, use the sum of the trace cost function
     trace_cost_function_sum = sum(trace_cost_function)
 
-- 
2.43.0


From 79a2ce1ff2c5abdda3680e62ed5eb250961ae5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:44 +0000
Subject: [PATCH 266/276] fix: attributes recorded by the token replay

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 5f1dbf2..f47e21f 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -529,11 +529,11 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                                 place_fitness[place]["m"] += tokens_added[place] * trace_occurrences
                             if trace not in transition_fitness[t]["underfed_traces"]:
                                 transition_fitness[t]["underfed_traces"][trace] = list()
-                            transition_fitness[t]["underfed_traces"][trace].append(current_event_map)
+                            transition_fitness[t]["underfed_traces"][trace].append(copy(current_event_map))
                     elif enable_pltr_fitness:
                         if trace not in transition_fitness[t]["fit_traces"]:
                             transition_fitness[t]["fit_traces"][trace] = list()
-                        transition_fitness[t]["fit_traces"][trace].append(current_event_map)
+                        transition_fitness[t]["fit_traces"][trace].append(copy(current_event_map))
                     c, cmap = get_consumed_tokens(t)
                     p, pmap = get_produced_tokens(t)
                     consumed = consumed + c
@@ -571,7 +571,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                     has_not_existing_activities = True
                     if not trace[i][activity_key] in notexisting_activities_in_model:
                         notexisting_activities_in_model[trace[i][activity_key]] = {}
-                    notexisting_activities_in_model[trace[i][activity_key]][trace] = current_event_map
+                    notexisting_activities_in_model[trace[i][activity_key]][trace] = copy(current_event_map)
             del trace_activities[0]
             if len(trace_activities) < TechnicalParameters.MAX_POSTFIX_SUFFIX_LENGTH.value:
                 activating_transition_index[str(trace_activities)] = {"index": len(act_trans),
-- 
2.43.0


From d162f7fd7722af1a3c4454fc8ea4714fe09c4015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:18 +0000
Subject: [PATCH 267/276] fix: missing columns of the type tables in the
 validation of OCEL 2.0 databases

---
 pm4py/objects/ocel/validation/ocel20_rel_validation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/ocel/validation/ocel20_rel_validation.py b/pm4py/objects/ocel/validation/ocel20_rel_validation.py
index bf3ba9a..82c5617 100644
--- a/pm4py/objects/ocel/validation/ocel20_rel_validation.py
+++ b/pm4py/objects/ocel/validation/ocel20_rel_validation.py
@@ -98,7 +98,7 @@ def const_9_object_object_fields(curs):
 
 
 def const_10_existence_ocel_id_obj_type_spec_tables(curs):
-    query = """SELECT m.tbl_name, Count(*) FROM sqlite_master m JOIN object_map_type ty on m.tbl_name = "object_" || ty.ocel_type_map JOIN pragma_table_info(m.tbl_name) p WHERE m.type = "table" AND p.name = "ocel_id" GROUP BY m.tbl_name;"""
+    query = """SELECT m.tbl_name, Count(p.name) FROM sqlite_master m JOIN object_map_type ty on m.tbl_name = "object_" || ty.ocel_type_map LEFT OUTER JOIN pragma_table_info(m.tbl_name) p ON p.name = "ocel_id" WHERE m.type = "table" GROUP BY m.tbl_name;"""
     curs.execute(query)
     res = curs.fetchall()
 
@@ -112,7 +112,7 @@ def const_10_existence_ocel_id_obj_type_spec_tables(curs):
 
 
 def const_11_existence_ocel_id_ev_type_spec_tables(curs):
-    query = """SELECT m.tbl_name, Count(*) FROM sqlite_master m JOIN event_map_type ty on m.tbl_name = "event_" || ty.ocel_type_map JOIN pragma_table_info(m.tbl_name) p WHERE m.type = "table" AND p.name = "ocel_id" GROUP BY m.tbl_name;"""
+    query = """SELECT m.tbl_name, Count(p.name) FROM sqlite_master m JOIN event_map_type ty on m.tbl_name = "event_" || ty.ocel_type_map LEFT OUTER JOIN pragma_table_info(m.tbl_name) p ON p.name = "ocel_id" WHERE m.type = "table" GROUP BY m.tbl_name;"""
     curs.execute(query)
     res = curs.fetchall()
 
@@ -126,7 +126,7 @@ def const_11_existence_ocel_id_ev_type_spec_tables(curs):
 
 
 def const_12_existence_type_ocel_time_obj_type_spec_tables(curs):
-    query = """SELECT m.tbl_name, Count(*) FROM sqlite_master m JOIN object_map_type ty on m.tbl_name = "object_" || ty.ocel_type_map JOIN pragma_table_info(m.tbl_name) p WHERE m.type = "table" AND p.name = "ocel_time" AND p.type = "TIMESTAMP" GROUP BY m.tbl_name;"""
+    query = """SELECT m.tbl_name, Count(p.name) FROM sqlite_master m JOIN object_map_type ty on m.tbl_name = "object_" || ty.ocel_type_map LEFT OUTER JOIN pragma_table_info(m.tbl_name) p ON p.name = "ocel_time" AND p.type = "TIMESTAMP" WHERE m.type = "table" GROUP BY m.tbl_name;"""
     curs.execute(query)
     res = curs.fetchall()
 
@@ -140,7 +140,7 @@ def const_12_existence_type_ocel_time_obj_type_spec_tables(curs):
 
 
 def const_13_existence_type_ocel_time_ev_type_spec_tables(curs):
-    query = """SELECT m.tbl_name, Count(*) FROM sqlite_master m JOIN event_map_type ty on m.tbl_name = "event_" || ty.ocel_type_map JOIN pragma_table_info(m.tbl_name) p WHERE m.type = "table" AND p.name = "ocel_time" AND p.type = "TIMESTAMP" GROUP BY m.tbl_name;"""
+    query = """SELECT m.tbl_name, Count(p.name) FROM sqlite_master m JOIN event_map_type ty on m.tbl_name = "event_" || ty.ocel_type_map LEFT OUTER JOIN pragma_table_info(m.tbl_name) p ON p.name = "ocel_time" AND p.type = "TIMESTAMP" WHERE m.type = "table" GROUP BY m.tbl_name;"""
     curs.execute(query)
     res = curs.fetchall()
 
@@ -210,7 +210,7 @@ def const_17_primary_key_object_object_table(curs):
 
 
 def const_18_primary_key_event_type_spec_tables(curs):
-    query = """SELECT m.tbl_name, sum(p.pk) FROM sqlite_master m JOIN event_map_type ty on m.tbl_name = "event_" || ty.ocel_type_map JOIN pragma_table_info(m.tbl_name) p WHERE m.type = "table" AND p.name = "ocel_id" GROUP BY m.tbl_name;"""
+    query = """SELECT m.tbl_name, sum(p.pk) FROM sqlite_master m JOIN event_map_type ty on m.tbl_name = "event_" || ty.ocel_type_map LEFT OUTER JOIN pragma_table_info(m.tbl_name) p ON p.name = "ocel_id" WHERE m.type = "table" GROUP BY m.tbl_name;"""
     curs.execute(query)
     res = curs.fetchall()
 
-- 
2.43.0


From e9cf6cf70abd534fe7b46e3b1e0c7b732c9bac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:18 +0000
Subject: [PATCH 268/276] fix: maximum length of the stripped names of types

---
 pm4py/objects/ocel/util/names_stripping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/names_stripping.py b/pm4py/objects/ocel/util/names_stripping.py
index 3a93fc8..0c1b8e7 100644
--- a/pm4py/objects/ocel/util/names_stripping.py
+++ b/pm4py/objects/ocel/util/names_stripping.py
@@ -30,5 +30,5 @@ def apply(X: str, max_len: int = 100) -> str:
     X = "".join(X)
     stru = match.sub('', X).strip()
     if len(stru) > max_len:
-        stru = stru[:100]
+        stru = stru[:max_len]
     return stru
-- 
2.43.0


From 60930142cb6ba6069a6ec5b2327b427ad407f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:04 +0000
Subject: [PATCH 269/276] fix: types of the attributes in the OCEL 2.0 XML
 format

---
 .../objects/ocel/exporter/xmlocel/variants/ocel20.py | 12 ++++++++++--
 .../objects/ocel/importer/xmlocel/variants/ocel20.py | 10 +++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
index 0752095..05f4496 100644
--- a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
@@ -120,9 +120,13 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
             for k, v in ots[ot].items():
                 this_type = "string"
                 if "date" in v or "time" in v:
-                    this_type = "date"
+                    this_type = "time"
                 elif "float" in v or "double" in v:
                     this_type = "float"
+                elif "int" in v.lower():
+                    this_type = "integer"
+                elif "bool" in v:
+                    this_type = "boolean"
                 object_type_attribute = etree.SubElement(object_type_attributes, "attribute")
                 object_type_attribute.set("name", k)
                 object_type_attribute.set("type", this_type)
@@ -136,9 +140,13 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
             for k, v in ets[et].items():
                 this_type = "string"
                 if "date" in v or "time" in v:
-                    this_type = "date"
+                    this_type = "time"
                 elif "float" in v or "double" in v:
                     this_type = "float"
+                elif "int" in v.lower():
+                    this_type = "integer"
+                elif "bool" in v:
+                    this_type = "boolean"
                 event_type_attribute = etree.SubElement(event_type_attributes, "attribute")
                 event_type_attribute.set("name", k)
                 event_type_attribute.set("type", this_type)
diff --git a/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
index acf3657..2bfac69 100644
--- a/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
@@ -43,8 +43,16 @@ def parse_xml(value, tag_str_lower, parser):
         if value == "null":
             return 0
         return float(value)
-    elif "date" in tag_str_lower:
+    elif "date" in tag_str_lower or "time" in tag_str_lower:
         return embed_date_parser(parser.apply, value)
+    elif "int" in tag_str_lower:
+        try:
+            return int(value)
+        except ValueError:
+            # e.g., the changes of an integer attribute may have a decimal point
+            return float(value)
+    elif "bool" in tag_str_lower:
+        return str(value).lower() == "true"
     return str(value)
 
 
-- 
2.43.0


From d73061ba4d91f07d1d3c72e2507d02e12f738b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:04 +0000
Subject: [PATCH 270/276] fix: empty attributes in the OCEL 2.0 XML importer

---
 pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
index 2bfac69..5419c37 100644
--- a/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py
@@ -39,6 +39,9 @@ class Parameters(Enum):
 
 
 def parse_xml(value, tag_str_lower, parser):
+    if value is None:
+        # empty element
+        return "" if tag_str_lower == "string" else None
     if "float" in tag_str_lower:
         if value == "null":
             return 0
-- 
2.43.0


From 98e6e01af9a9555218080e556d342f39c84c51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:58 +0000
Subject: [PATCH 271/276] fix: validation of OCEL 2.0 databases without one of
 the map tables

---
 pm4py/objects/ocel/validation/ocel20_rel_validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/validation/ocel20_rel_validation.py b/pm4py/objects/ocel/validation/ocel20_rel_validation.py
index 82c5617..28e3024 100644
--- a/pm4py/objects/ocel/validation/ocel20_rel_validation.py
+++ b/pm4py/objects/ocel/validation/ocel20_rel_validation.py
@@ -332,7 +332,11 @@ def apply(file_path: str) -> Tuple[Collection[str], Collection[str]]:
     unsatisfied = []
 
     for c in constraints:
-        res = constraints[c](curs)
+        try:
+            res = constraints[c](curs)
+        except sqlite3.OperationalError:
+            # a table (or column) needed by the constraint does not exist
+            res = False
         if res:
             satisfied.append(c)
         else:
-- 
2.43.0


From ba1f443ccbbe965d1a0fb76fbf1a14554d115a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:21 +0000
Subject: [PATCH 272/276] fix: time of the initial object attributes in OCEL
 2.0 databases

---
 pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
index 3264dea..4a6a625 100644
--- a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
@@ -119,6 +119,8 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
         df = ocel.objects[ocel.objects[object_type] == ot].dropna(how="all", axis="columns")
         df = df.rename(columns={object_id: "ocel_id"})
         del df[object_type]
+        # the initial values of the attributes hold from the beginning of time
+        df["ocel_time"] = pd.Timestamp("1970-01-01T00:00:00Z")
 
         df2 = ocel.object_changes[ocel.object_changes[object_type] == ot].dropna(how="all", axis="columns")
         if len(df2) > 0:
-- 
2.43.0


From 9f5233b1ef96982cc38e027a616bc20b9265df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:16 +0000
Subject: [PATCH 273/276] fix: missing qualifiers in the OCEL 2.0 JSON format

---
 .../ocel/exporter/jsonocel/variants/ocel20_standard.py        | 4 ++--
 .../ocel/importer/jsonocel/variants/ocel20_standard.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
index 3e5c1e6..aa0c612 100644
--- a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
@@ -73,7 +73,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
         if "ocel:o2o" in obj and obj["ocel:o2o"]:
             descr["relationships"] = []
             for v in obj["ocel:o2o"]:
-                descr["relationships"].append({"objectId": v["ocel:oid"], "qualifier": v["ocel:qualifier"]})
+                descr["relationships"].append({"objectId": v["ocel:oid"], "qualifier": v["ocel:qualifier"] or ""})
         json_object["objects"].append(descr)
         obj_idx[objid] = len(obj_idx)
 
@@ -90,7 +90,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
         if "ocel:typedOmap" in eve and eve["ocel:typedOmap"]:
             descr["relationships"] = []
             for v in eve["ocel:typedOmap"]:
-                descr["relationships"].append({"objectId": v["ocel:oid"], "qualifier": v["ocel:qualifier"]})
+                descr["relationships"].append({"objectId": v["ocel:oid"], "qualifier": v["ocel:qualifier"] or ""})
         json_object["events"].append(descr)
         eve_idx[evid] = len(eve_idx)
 
diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
index 828009e..e93d0f9 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
@@ -69,7 +69,7 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
             dct["ocel:vmap"] = {x["name"]: x["value"] for x in eve["attributes"]}
         dct["ocel:typedOmap"] = []
         if "relationships" in eve and eve["relationships"]:
-            dct["ocel:typedOmap"] = [{"ocel:oid": x["objectId"], "ocel:qualifier": x["qualifier"]} for x in eve["relationships"]]
+            dct["ocel:typedOmap"] = [{"ocel:oid": x["objectId"], "ocel:qualifier": x["qualifier"] or None} for x in eve["relationships"]]
         dct["ocel:omap"] = list(dict.fromkeys(x["ocel:oid"] for x in dct["ocel:typedOmap"]))
         legacy_obj["ocel:events"][eve["id"]] = dct
 
@@ -87,7 +87,7 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
                     dct["ocel:ovmap"][x["name"]] = x["value"]
         dct["ocel:o2o"] = []
         if "relationships" in obj and obj["relationships"]:
-            dct["ocel:o2o"] = [{"ocel:oid": x["objectId"], "ocel:qualifier": x["qualifier"]} for x in obj["relationships"]]
+            dct["ocel:o2o"] = [{"ocel:oid": x["objectId"], "ocel:qualifier": x["qualifier"] or None} for x in obj["relationships"]]
         legacy_obj["ocel:objects"][obj["id"]] = dct
 
     legacy_obj["ocel:global-log"] = {}
-- 
2.43.0


From 759fb743f211d155b5d594659b44f6ba67f2d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:39 +0000
Subject: [PATCH 274/276] fix: log skeletons read back from JSON

---
 .../algo/conformance/log_skeleton/variants/classic.py  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/conformance/log_skeleton/variants/classic.py b/pm4py/algo/conformance/log_skeleton/variants/classic.py
index dd3becf..d819dce 100644
--- a/pm4py/algo/conformance/log_skeleton/variants/classic.py
+++ b/pm4py/algo/conformance/log_skeleton/variants/classic.py
@@ -279,11 +279,11 @@ def after_decode(log_skeleton):
     log_skeleton
         Log skeleton (with sets instead of lists)
     """
-    log_skeleton[DiscoveryOutputs.EQUIVALENCE.value] = set(log_skeleton[DiscoveryOutputs.EQUIVALENCE.value])
-    log_skeleton[DiscoveryOutputs.ALWAYS_AFTER.value] = set(log_skeleton[DiscoveryOutputs.ALWAYS_AFTER.value])
-    log_skeleton[DiscoveryOutputs.ALWAYS_BEFORE.value] = set(log_skeleton[DiscoveryOutputs.ALWAYS_BEFORE.value])
-    log_skeleton[DiscoveryOutputs.NEVER_TOGETHER.value] = set(log_skeleton[DiscoveryOutputs.NEVER_TOGETHER.value])
-    log_skeleton[DiscoveryOutputs.DIRECTLY_FOLLOWS.value] = set(log_skeleton[DiscoveryOutputs.DIRECTLY_FOLLOWS.value])
+    log_skeleton[DiscoveryOutputs.EQUIVALENCE.value] = set(tuple(x) for x in log_skeleton[DiscoveryOutputs.EQUIVALENCE.value])
+    log_skeleton[DiscoveryOutputs.ALWAYS_AFTER.value] = set(tuple(x) for x in log_skeleton[DiscoveryOutputs.ALWAYS_AFTER.value])
+    log_skeleton[DiscoveryOutputs.ALWAYS_BEFORE.value] = set(tuple(x) for x in log_skeleton[DiscoveryOutputs.ALWAYS_BEFORE.value])
+    log_skeleton[DiscoveryOutputs.NEVER_TOGETHER.value] = set(tuple(x) for x in log_skeleton[DiscoveryOutputs.NEVER_TOGETHER.value])
+    log_skeleton[DiscoveryOutputs.DIRECTLY_FOLLOWS.value] = set(tuple(x) for x in log_skeleton[DiscoveryOutputs.DIRECTLY_FOLLOWS.value])
     for act in log_skeleton[DiscoveryOutputs.ACTIV_FREQ.value]:
         log_skeleton[DiscoveryOutputs.ACTIV_FREQ.value][act] = set(log_skeleton[DiscoveryOutputs.ACTIV_FREQ.value][act])
     return log_skeleton
-- 
2.43.0


From 8613364486df84f6c329e95e97b9a26890dc7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:58 +0000
Subject: [PATCH 275/276] fix: process trees from Petri nets of a single
 activity, or with quotes in the labels

---
 .../conversion/wf_net/variants/to_process_tree.py        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
index 42f1b61..80298b8 100644
--- a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
+++ b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
@@ -29,6 +29,8 @@ from pm4py.util import exec_utils
 from pm4py.objects.process_tree.utils.generic import parse
 
 TRANSITION_PREFIX = str(uuid.uuid4())
+# stands for the quotes inside the labels in the string representation of the process tree
+QUOTE_PLACEHOLDER = str(uuid.uuid4())
 
 
 class Parameters(Enum):
@@ -37,7 +39,7 @@ class Parameters(Enum):
 
 
 def generate_label_for_transition(t):
-    return 'tau' if t.label is None else '\'' + t.label + '\'' if not t.name.startswith(
+    return 'tau' if t.label is None else '\'' + t.label.replace('\'', QUOTE_PLACEHOLDER) + '\'' if not t.name.startswith(
         TRANSITION_PREFIX) else t.label
 
 
@@ -358,8 +360,11 @@ def apply(net, im, fm, parameters=None):
         return grouped_net
     else:
         if len(grouped_net.transitions) == 1:
-            pt_str = list(grouped_net.transitions)[0].label
+            pt_str = generate_label_for_transition(list(grouped_net.transitions)[0])
             pt = parse(pt_str)
+            for _, leaf in pt_util.get_leaves_as_tuples(pt):
+                if leaf.label is not None:
+                    leaf.label = leaf.label.replace(QUOTE_PLACEHOLDER, '\'')
             ret = pt_util.fold(pt) if fold else pt
             tree_sort(ret)
             return ret
-- 
2.43.0


From 85f0b16b47a7fdb47d7491bdd271a2d453d2f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:07 +0000
Subject: [PATCH 276/276] fix: extension of the event logs played out from
 directly-follows graphs in folders

---
 pm4py/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/cli.py b/pm4py/cli.py
index 1d6b9b1..10b4bfa 100644
--- a/pm4py/cli.py
+++ b/pm4py/cli.py
@@ -119,7 +119,7 @@ methods = {
                     "method": lambda x: pm4py.write_xes(pm4py.play_out(*pm4py.read_pnml(x[0])), x[1])},
     "PTMLplayout": {"inputs": [".ptml"], "output_extension": ".xes",
                     "method": lambda x: pm4py.write_xes(pm4py.play_out(pm4py.read_ptml(x[0])), x[1])},
-    "DFGplayout": {"inputs": [".dfg"], "output_extension": ".dfg",
+    "DFGplayout": {"inputs": [".dfg"], "output_extension": ".xes",
                    "method": lambda x: pm4py.write_xes(pm4py.play_out(*pm4py.read_dfg(x[0])), x[1])},
     "SaveVisSNA": {"inputs": [".xes", None], "output_extension": ".png",
                    "method": lambda x: pm4py.save_vis_sna(__apply_sna(__read_log(x[0]), x[1]), x[2])},
-- 
2.43.0

