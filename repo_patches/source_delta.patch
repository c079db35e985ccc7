From 5322c0287f9e9723b4b19d099573636259105f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:48 +0000
Subject: [PATCH 01/39] fix: load bounding box, clipping, point and explicitly
 typed region attachments, which show no image or one

---
 spine_json_lib/data/data_types/skin.py     | 13 ++++++++++++-
 spine_json_lib/deserializer/spine_nodes.py |  6 +++++-
 spine_json_lib/spine_animation_editor.py   |  4 ++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/data/data_types/skin.py b/spine_json_lib/data/data_types/skin.py
index 0b91870..64606ac 100644
--- a/spine_json_lib/data/data_types/skin.py
+++ b/spine_json_lib/data/data_types/skin.py
@@ -25,6 +25,10 @@ SKIN_ATTACHMENTS_TYPES = [
 ]
 
 
+# Attachment types that show an image ("region" is the type of an attachment without one)
+IMAGE_ATTACHMENTS_TYPES = [None, REGION_TYPE, MESH_TYPE, LINKED_MESH_TYPE]
+
+
 def parse_skin_attachment_data(attachments):
     result = copy.deepcopy(attachments)
 
@@ -44,7 +48,7 @@ def parse_skin_attachment_data(attachments):
                 result[attach_id][slot_id] = SkinClipping(values=skin_data)
             elif skin_data_type == BOUNDING_BOX_TYPE:
                 result[attach_id][slot_id] = SkinBoundingBox(values=skin_data)
-            elif skin_data_type is None:
+            elif skin_data_type is None or skin_data_type == REGION_TYPE:
                 result[attach_id][slot_id] = SkinAttachment(values=skin_data)
             else:
                 raise ValueError(
@@ -95,6 +99,7 @@ class SkinAttachment(SpineData):
         self.height = values.get("height")
         self.scaleX = values.get("scaleX")
         self.scaleY = values.get("scaleY")
+        self.type: str = values.get("type")
         self.name = values.get("name")
         self.path = values.get("path")
         self.color: str = values.get("color")
@@ -181,6 +186,8 @@ class SkinBoundingBox(SpineData):
     def __init__(self, values: Dict[str, Any] = None) -> None:
         values = values or {}
 
+        self.type: str = values.get("type")
+        self.name: str = values.get("name")
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
@@ -199,6 +206,8 @@ class SkinPoint(SpineData):
         self.y = values.get("y")
         self.rotation = values.get("rotation")
         self.color = values.get("color")
+        self.type: str = values.get("type")
+        self.name: str = values.get("name")
 
         super(SkinPoint, self).__init__(values)
 
@@ -210,6 +219,8 @@ class SkinClipping(SpineData):
     def __init__(self, values: Dict[str, Any] = None) -> None:
         values = values or {}
 
+        self.type: str = values.get("type")
+        self.name: str = values.get("name")
         self.end = values.get("end")
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f925f82..42d4300 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -3,6 +3,7 @@ import json
 
 from enum import Enum
 
+from spine_json_lib.data.data_types.skin import IMAGE_ATTACHMENTS_TYPES
 from spine_json_lib.data.constants import SPINE_3_8_VERSION
 from spine_json_lib.data.spine_version_type import SpineVersion
 from spine_json_lib.graph.spamnode import SpamNode, DEFAULT_NODE_TYPE
@@ -236,6 +237,10 @@ class SpineGraphParser(IGraphParser):
                     node_data=attachment_data.node_data,
                 )
 
+            graph.add_edge(slot_parent.node_id, attachment_data.node_id)
+            if _data.get("type") not in IMAGE_ATTACHMENTS_TYPES:
+                continue
+
             image_id = _data.get("path") or _data.get("name") or _id
             image_node_data = SpineNodeData(
                 node_data={},
@@ -251,7 +256,6 @@ class SpineGraphParser(IGraphParser):
                 )
 
             graph.add_edge(attachment_data.node_id, image_node_data.node_id)
-            graph.add_edge(slot_parent.node_id, attachment_data.node_id)
 
     @staticmethod
     def add_ik_to_graph(graph: DAGraph, ik_data: Dict[str, Any], idx: int) -> SpineNodeData:
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8cabeea..a161d65 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -8,7 +8,7 @@ from typing import List, TypeVar
 from spine_json_lib.data.constants import SPINE_3_8_VERSION
 from spine_json_lib.data.data_types.bone import Bone
 from spine_json_lib.data.data_types.ik import Ik
-from spine_json_lib.data.data_types.skin import SkinPath
+from spine_json_lib.data.data_types.skin import IMAGE_ATTACHMENTS_TYPES
 from spine_json_lib.data.data_types.slot import Slot
 from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
 from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
@@ -239,7 +239,7 @@ class SpineAnimationEditor(object):
                 scale = self.spine_anim_data.data.get_slot_custom_scale(slot=slot_data)
                 for sub_part_key in skin_data[part_name]:
                     skin_sub_part_instance = skin_data[part_name][sub_part_key]
-                    if not isinstance(skin_sub_part_instance, SkinPath):
+                    if skin_sub_part_instance.type in IMAGE_ATTACHMENTS_TYPES:
                         relative_path = (
                             skin_sub_part_instance.path
                             or skin_sub_part_instance.name
-- 
2.43.0


From 0db7bccd24dd928ad796dfc34f62dbfa9ca3a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:24 +0000
Subject: [PATCH 02/39] fix: load documents without slots, which the library
 itself writes

---
 spine_json_lib/data/spine_anim_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c192c4c..10c6921 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -62,7 +62,9 @@ class SpineAnimationData(SpineData):
         del _data["skeleton"]
 
         self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
-        self.slots: List[Slot] = [Slot(value) for value in _data["slots"]]
+        self.slots: List[Slot] = [
+            Slot(value) for value in _data.get("slots", [])
+        ]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
             Skin38(value) for value in _data["skins"]
         ]
-- 
2.43.0


From 1b2c7998490bdf3f1313cc28bfd0ac958afb56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:01 +0000
Subject: [PATCH 03/39] fix: keep event keyframe values that override the
 event's own values

---
 spine_json_lib/data/data_types/events.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/data/data_types/events.py b/spine_json_lib/data/data_types/events.py
index 276b60d..19df41d 100644
--- a/spine_json_lib/data/data_types/events.py
+++ b/spine_json_lib/data/data_types/events.py
@@ -18,13 +18,12 @@ class Events(SpineData):
 
 
 class EventTimeline(SpineData):
-    DEFAULT_VALUES = {"name": "", "int": 0, "float": 0, "string": ""}
+    # "int", "float" and "string" have no default here: when a keyframe leaves them
+    # out, the runtime takes the values of the event it refers to
+    DEFAULT_VALUES = {"name": ""}
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
         "name": "",
-        "int": 0,
-        "float": 0,
-        "string": "",
         "audio": "",
         "volume": 1,
         "balance": 0,
-- 
2.43.0


From e2f25e9c1f8229f3f7836b68138fc6faac4f05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:07 +0000
Subject: [PATCH 04/39] fix: default scale offset of a transform constraint is
 0, not 1

---
 spine_json_lib/data/data_types/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index e039d71..a6b4017 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -12,8 +12,8 @@ class Transform(SpineData):
         "rotation": 0,
         "x": 0,
         "y": 0,
-        "scaleX": 1.0,
-        "scaleY": 1.0,
+        "scaleX": 0,
+        "scaleY": 0,
         "shearX": 0,
         "shearY": 0,
     }
-- 
2.43.0


From 3fd55abb32afd6cb3c81b8bd53b757efc23fb46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:11 +0000
Subject: [PATCH 05/39] fix: default spacing of path constraints and their
 keyframes is 0, not 1

---
 spine_json_lib/data/data_types/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index 079e733..e6afc19 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -11,7 +11,7 @@ class Path(SpineData):
         "rotateMode": "",
         "rotation": 0,
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "skin": False,
@@ -39,10 +39,10 @@ class Path(SpineData):
 
 
 class PathTimeline(SpineData):
-    DEFAULT_VALUES = {"position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1}
+    DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "curve": [],
-- 
2.43.0


From 69132000add5703a619578dcaef9ccdf29409335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:43 +0000
Subject: [PATCH 06/39] fix: order versions as major, minor, patch instead of
 component by component

---
 spine_json_lib/data/spine_version_type.py | 32 +++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index 2f707ca..c84d8f6 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -48,40 +48,40 @@ class SpineVersion(object):
         # operator <
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major < _other.major
-            and self.minor < _other.minor
-            and self.patch < _other.patch
+        return (self.major, self.minor, self.patch) < (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __gt__(self, other):
         # operator >
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major > _other.major
-            and self.minor > _other.minor
-            and self.patch > _other.patch
+        return (self.major, self.minor, self.patch) > (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __le__(self, other):
         # operator <=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major <= _other.major
-            and self.minor <= _other.minor
-            and self.patch <= _other.patch
+        return (self.major, self.minor, self.patch) <= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __ge__(self, other):
         # operator >=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major >= _other.major
-            and self.minor >= _other.minor
-            and self.patch >= _other.patch
+        return (self.major, self.minor, self.patch) >= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __cmp__(self, other):
-- 
2.43.0


From 9ca2b07ff5e5e325656208a043b4fcc405e12e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:48 +0000
Subject: [PATCH 07/39] fix: refuse malformed versions such as 3.8.-1, 3_0.8 or
 345.-8

---
 spine_json_lib/data/spine_version_type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index c84d8f6..c8337b2 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -1,7 +1,7 @@
 import re
 from typing import Tuple
 
-REGEX_TO_MATCH = re.compile(r"^\d+.\d+")
+REGEX_TO_MATCH = re.compile(r"\d+\.\d+(\.\d+)?")
 
 
 class SpineVersion(object):
@@ -113,7 +113,7 @@ class SpineVersion(object):
         if not (_split_version_len == 2 or _split_version_len == 3):
             has_correct_size = False
 
-        matched = re.match(REGEX_TO_MATCH, version)
+        matched = re.fullmatch(REGEX_TO_MATCH, version)
         if not matched or not has_correct_size:
             raise ValueError(
                 "{} is not a valid spine version. Needs to be "
-- 
2.43.0


From 9252f57804d2ff40dc74586211316943b709adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:13 +0000
Subject: [PATCH 08/39] fix: make graph nodes hashable

---
 spine_json_lib/graph/spamnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/spamnode.py b/spine_json_lib/graph/spamnode.py
index f287590..f4d205c 100644
--- a/spine_json_lib/graph/spamnode.py
+++ b/spine_json_lib/graph/spamnode.py
@@ -48,7 +48,7 @@ class SpamNode(object):
 
     def __hash__(self):
         """ Used for finding the collision chain for this node."""
-        return self._id
+        return hash(self._id)
 
     @property
     def id(self) -> str:
-- 
2.43.0


From 24835dfd933c4f70f1c1c003802b232b34659e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:17 +0000
Subject: [PATCH 09/39] fix: compare node types by value when looking for
 unconnected nodes

---
 spine_json_lib/graph/graph_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index c90794c..6fd8a5c 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -72,7 +72,7 @@ class GraphValidator(object):
             # Check if there are any head and it is not a root of the UCGraph
             if (
                 graph.get_node(head_id).node_type
-                is not UCNodeType.INPUT_ROOT_NODE_TYPE.name
+                != UCNodeType.INPUT_ROOT_NODE_TYPE.name
             ):
                 unconnected_nodes.append(head_id)
                 continue
-- 
2.43.0


From 4273a908338920d272283228af14a0802f08667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:22 +0000
Subject: [PATCH 10/39] fix: list every node once and after all of its parents,
 also with several heads

---
 spine_json_lib/graph/dagraph.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 040ac62..cb0b2f9 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -210,17 +210,24 @@ class DAGraph(object):
                 dependency between nodes to be able to execute them in this order
         """
         visited = set()
+        executed = set()
 
         result_nodes = []
 
-        def visit(node: SpamNode) -> None:
-            visited.add(node.id)
+        def execute(node: SpamNode) -> None:
+            executed.add(node.id)
 
             for parent in node.parents:
-                if parent not in visited:
-                    visit(self.get_node(parent))
+                if parent not in executed:
+                    execute(self.get_node(parent))
 
             result_nodes.append(node.id)
+
+        def visit(node: SpamNode) -> None:
+            visited.add(node.id)
+
+            if node.id not in executed:
+                execute(node)
             for child in node.children:
                 if child not in visited:
                     visit(self.get_node(child))
-- 
2.43.0


From 226c1e31dd06f32028f5e19bb60597a1f63abf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:26 +0000
Subject: [PATCH 11/39] fix: find heads and tails of graphs deeper than the
 recursion limit

---
 spine_json_lib/graph/dagraph.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index cb0b2f9..161cadc 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -246,27 +246,11 @@ class DAGraph(object):
         return self.__get_nodes("children")
 
     def __get_nodes(self, look_for):
-        result_nodes = []
-        visited = set()
-
-        def visit(node: SpamNode) -> None:
-            if node.id in visited:
-                return
-
-            visited.add(node.id)
-            related_nodes = getattr(node, look_for)
-
-            if not related_nodes:
-                result_nodes.append(node.id)
-                return
-
-            for n_id, n in related_nodes.items():
-                visit(n)
-
-        for node_id, node_data in self._nodes.items():
-            visit(node_data)
-
-        return result_nodes
+        return [
+            node_id
+            for node_id, node in self._nodes.items()
+            if not getattr(node, look_for)
+        ]
 
     def validate(self) -> GraphValidationErrors:
         """Execute the necessary validations over the graph and return the GraphValidationErrors"""
-- 
2.43.0


From 7230d5df82ec0ac7b1a1d2b23ad1277a75739d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:28 +0000
Subject: [PATCH 12/39] fix: clean documents in which no slot is visible or
 animated

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 10c6921..1eab54f 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -297,7 +297,7 @@ class SpineAnimationData(SpineData):
             visible_slots |= anim_visible_slots
 
             l_attachments_used |= functools.reduce(
-                (lambda x, y: x | y), anim_used_attachments.values()
+                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
         invisible_slots = slots_set - visible_slots
-- 
2.43.0


From 60aa1c85cb2840f92bce9870dc71050bc1420164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:22 +0000
Subject: [PATCH 13/39] fix: an empty slot timeline does not hide its slot

---
 spine_json_lib/data/data_types/slot.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/data/data_types/slot.py b/spine_json_lib/data/data_types/slot.py
index 286fffa..e93664d 100644
--- a/spine_json_lib/data/data_types/slot.py
+++ b/spine_json_lib/data/data_types/slot.py
@@ -87,14 +87,9 @@ class SlotTimeline(SpineData):
         return (
             not self.color
             and not self.twoColor
-            and (
-                len(self.attachment) == 0
-                or (
-                    len(self.attachment) == 1
-                    and self.attachment[0].is_empty()
-                    and self.attachment[0].time == 0
-                )
-            )
+            and len(self.attachment) == 1
+            and self.attachment[0].is_empty()
+            and self.attachment[0].time == 0
         )
 
     def get_used_attachments(self):
-- 
2.43.0


From a14b0333f098131cb2dcebc7687a40e70fdaf638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:27 +0000
Subject: [PATCH 14/39] fix: keep draw order offsets of 0 that hold a slot in
 its place

---
 spine_json_lib/data/data_types/draworder.py | 23 +++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index f3aabde..002553f 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -79,11 +79,26 @@ class DrawOrderTimeline(SpineData):
             index_final = clean_reordered_slots.index(name)
             slot_offset.offset = index_final - index_original
 
-        return [
-            offset
-            for offset in adjusted_draw_order_offsets.values()
-            if offset.slot not in slots_to_be_removed and offset.offset != 0
+        offsets = OrderedDict(
+            (name, offset)
+            for name, offset in adjusted_draw_order_offsets.items()
+            if name not in slots_to_be_removed
+        )
+        moved_offsets = OrderedDict(
+            (name, offset) for name, offset in offsets.items() if offset.offset != 0
+        )
+
+        # An offset of 0 keeps its slot in place while others move around it, so it can
+        # only be left out when the remaining offsets lead to the same order without it
+        remaining_slots = [
+            _slot for _slot in original_slots if _slot.name not in slots_to_be_removed
         ]
+        order_without_zeros = DrawOrderTimeline._reorder_slots_with_offset(
+            moved_offsets, remaining_slots
+        )
+        if [_slot.name for _slot in order_without_zeros] == clean_reordered_slots:
+            return list(moved_offsets.values())
+        return list(offsets.values())
 
     def remove_offsets_with_ids(self, slots_ids, original_slots):
         """
-- 
2.43.0


From ce29835529518931d5059d642f41c38a854ad3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:33 +0000
Subject: [PATCH 15/39] fix: strip only the type suffix when converting a graph
 id to a base id

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index 42d4300..9482bf3 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -335,4 +335,4 @@ class SpineGraphParser(IGraphParser):
     @staticmethod
     def _to_base_id(node_type_name, graph_id):
         _suffix = "_{}".format(NodeType[node_type_name].name)
-        return graph_id.replace(_suffix, "")
+        return graph_id[: -len(_suffix)] if graph_id.endswith(_suffix) else graph_id
-- 
2.43.0


From 096e00cbefaaaf4a22c7c2830846bbe8a1d1ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:38 +0000
Subject: [PATCH 16/39] fix: clear the setup attachment of a slot by its name,
 not by its graph id

---
 spine_json_lib/spine_animation_editor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index a161d65..c5b219d 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -327,10 +327,7 @@ class SpineAnimationEditor(object):
         for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
             default_attachment_id = slot_data.get("attachment")
             if default_attachment_id is not None:
-                attachment_graph_id = SpineGraphParser._to_graph_id(
-                    NodeType.ATTACHMENT.name, default_attachment_id
-                )
-                if attachment_graph_id in attachments_ids:
+                if default_attachment_id in attachments_ids:
                     copy_slots_data[slot_idx].attachment = None
 
         self.spine_anim_data.data.slots = copy_slots_data
-- 
2.43.0


From 38288d0769fb98ef465205fdf1fad759c5a36d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 17/39] fix: clean the current bones, slots and constraints
 instead of a stale graph

---
 spine_json_lib/spine_animation_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index c5b219d..de4c1f5 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -141,6 +141,10 @@ class SpineAnimationEditor(object):
         - We cannot remove BONES because it affect the weight on meshes and the vertices
         information saved in the binary.
         """
+        # The data may have changed (scale, erased skins, previous cleanings) since the
+        # graph was built
+        self.spine_graph = SpineGraphContainer(self.spine_anim_data.to_json_data())
+
         # Save slots before removing. Needed to recalculate offsets when removing
         # slots in a drawOrder array.
         slots_before_removing = copy.deepcopy(self.spine_anim_data.data.slots)
-- 
2.43.0


From eab0ed736064dff9e3b3c07ab9c2299c7f1d6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:49 +0000
Subject: [PATCH 18/39] fix: scale a root bone that does not inherit scale only
 once

---
 spine_json_lib/spine_animation_editor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index de4c1f5..16c6e7b 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -208,8 +208,11 @@ class SpineAnimationEditor(object):
         # attributes as these don't inherit scale from parent roots
         spine_data = self.spine_anim_data.data
         for bone in spine_data.bones:
-
-            if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
+            if bone.name != "root" and bone.transform in [
+                "noScale",
+                "noScaleOrReflection",
+                "onlyTranslation",
+            ]:
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
         spine_data.get_bone("root").scale(scaleX=scaleX, scaleY=scaleY)
 
-- 
2.43.0


From bfd2b72a498e5bd2c03dbe4ab085abefd21a1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:56 +0000
Subject: [PATCH 19/39] fix: save to a bare file name

---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 16c6e7b..ae5c563 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -225,7 +225,7 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(output_json, "w") as outfile:
@@ -261,7 +261,7 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(images_json, "w") as outfile:
-- 
2.43.0


From 69fbc48844736c4ce5e3fd94a9cc69bf538c87bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:01 +0000
Subject: [PATCH 20/39] fix: read json files as UTF-8 whatever the locale

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 spine_json_lib/spine_animation_editor.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index 9482bf3..da92e0c 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -126,7 +126,7 @@ class SpineGraphParser(IGraphParser):
         cls, json_file: str, node_factory: SpineNodeFactory
     ) -> DAGraph:
         # Parse json
-        with open(json_file) as f:
+        with open(json_file, encoding="utf-8") as f:
             json_data = json.load(f)
 
         return SpineGraphParser.create_from_json_data(
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index ae5c563..43b7846 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -58,7 +58,7 @@ class SpineAnimationEditor(object):
 
     @staticmethod
     def from_json_file(json_path: str) -> SpineAnimationEditorType:
-        with open(json_path) as f:
+        with open(json_path, encoding="utf-8") as f:
             spine_json_data = json.load(f)
 
         return SpineAnimationEditor(json_data=spine_json_data)
-- 
2.43.0


From fea3c2a100348213f1e883458e5c6c9c83f0a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:08 +0000
Subject: [PATCH 21/39] fix: report removed elements also where stdout cannot
 encode their names

---
 spine_json_lib/spine_animation_editor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 43b7846..6cc5d4d 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -172,7 +172,7 @@ class SpineAnimationEditor(object):
         self.remove_slots(
             slots_ids=slots_to_remove, original_slots=slots_before_removing
         )
-        print("Removed slots {}".format(slots_to_remove))
+        print("Removed slots {!a}".format(slots_to_remove))
 
         self.remove_attachments(attachments_ids=attachments_to_remove)
         detached_attachments = self.spine_graph.remove_heads_of_type(
@@ -182,7 +182,7 @@ class SpineAnimationEditor(object):
             NodeType.ATTACHMENT.name
         )
         print(
-            "Removed attachments {}".format(
+            "Removed attachments {!a}".format(
                 list(attachments_to_remove) + detached_attachments
             )
         )
@@ -294,7 +294,7 @@ class SpineAnimationEditor(object):
                 del copy_json[img_id]
 
         if removed_images:
-            print("Removed images: {}".format(removed_images))
+            print("Removed images: {!a}".format(removed_images))
 
         self.images_references = copy_json
 
-- 
2.43.0


From c02f846f010e9e9fce166de7b5fa77e602c6189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:13 +0000
Subject: [PATCH 22/39] fix: refuse to erase unknown animations before erasing
 any

---
 spine_json_lib/spine_animation_editor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 6cc5d4d..a01285c 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -272,9 +272,10 @@ class SpineAnimationEditor(object):
     ) -> None:
         # Erasing animation from the json
         not_found_animations = []
+        animations = dict(self.spine_anim_data.data.animations)
         for animation_name in animations_to_erase:
-            if animation_name in self.spine_anim_data.data.animations:
-                del self.spine_anim_data.data.animations[animation_name]
+            if animation_name in animations:
+                del animations[animation_name]
             else:
                 not_found_animations.append(animation_name)
 
@@ -285,6 +286,8 @@ class SpineAnimationEditor(object):
                 )
             )
 
+        self.spine_anim_data.data.animations = animations
+
     def _clean_images_references(self, images_ids: List[str]) -> None:
         copy_json = copy.deepcopy(self.images_references)
         removed_images = []
-- 
2.43.0


From 372051e9cb6d46342f1b16b1eada90ca47305daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:53 +0000
Subject: [PATCH 23/39] fix: keep meshes of visible slots also when their name
 is unused elsewhere

---
 spine_json_lib/data/spine_anim_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 1eab54f..03a4cde 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -303,6 +303,7 @@ class SpineAnimationData(SpineData):
         invisible_slots = slots_set - visible_slots
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
+        attachments_to_keep: FrozenSet[Any] = frozenset([])
 
         # Only not visible slots and the ones not being used can be erased
         for skin in self.skins:
@@ -316,7 +317,9 @@ class SpineAnimationData(SpineData):
                             isinstance(attachment_data[attachment_id], SkinMesh)
                             and slot_id not in invisible_slots
                         ):
+                            attachments_to_keep |= frozenset([attachment_id])
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-        return invisible_slots, attachments_to_remove
+        # Attachments are removed by name from every slot and skin
+        return invisible_slots, attachments_to_remove - attachments_to_keep
-- 
2.43.0


From be0511be98c709df4ff311af012e77f1423374de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:58 +0000
Subject: [PATCH 24/39] fix: do not take slots with bounding boxes, paths,
 points or clippings for invisible because of their color

---
 spine_json_lib/data/spine_anim_data.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 03a4cde..9079e11 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -13,6 +13,8 @@ from spine_json_lib.data.data_types.skin import (
     SkinLinkedMesh,
     SkinAttachment,
     SkinMesh,
+    SkinClipping,
+    IMAGE_ATTACHMENTS_TYPES,
 )
 from spine_json_lib.data.data_types.slot import Slot, SlotTimeline
 from spine_json_lib.data.data_types.transform import Transform
@@ -195,10 +197,20 @@ class SpineAnimationData(SpineData):
     def get_slots_with_alpha_zero(self) -> List[str]:
         """
         Return a list of id of slots with alpha set as 0 on color info attrib
+        (attachments that show no image work whatever the color of their slot)
         """
+        no_image_slots = set()
+        for skin in self.skins:
+            for slot_id, attachments in skin.attachments.items():
+                if any(
+                    attachment.type not in IMAGE_ATTACHMENTS_TYPES
+                    for attachment in attachments.values()
+                ):
+                    no_image_slots.add(slot_id)
+
         not_visible_slots = []
         for slot in self.slots:
-            if slot.color is not None:
+            if slot.color is not None and slot.name not in no_image_slots:
                 alpha_value = int("0x{}".format(slot.color), 16) & 0xFF
                 if alpha_value == 0:
                     not_visible_slots.append(slot.name)
-- 
2.43.0


From 5df7ceac286911852c8d1a87c6b6f8131634abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:03 +0000
Subject: [PATCH 25/39] fix: keep the slots that path constraints and clippings
 refer to

---
 spine_json_lib/data/spine_anim_data.py   | 22 ++++++++++++++++++++++
 spine_json_lib/spine_animation_editor.py |  5 ++++-
 spine_json_lib/spine_graph_container.py  | 20 ++++++++++++++++----
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 9079e11..77e790a 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -232,6 +232,21 @@ class SpineAnimationData(SpineData):
 
         return no_attachment_slot
 
+    def get_referenced_slots(self) -> FrozenSet[str]:
+        """
+        Return the ids of the slots that path constraints follow or where clippings end
+        """
+        referenced_slots = {path.target for path in self.path}
+        for skin in self.skins:
+            for attachments in skin.attachments.values():
+                for attachment in attachments.values():
+                    if isinstance(attachment, SkinClipping):
+                        referenced_slots.add(attachment.end)
+
+        return frozenset(
+            [slot.name for slot in self.slots if slot.name in referenced_slots]
+        )
+
     def get_visible_slots_and_attachments(
         self, anim_slots, visible_slots, alpha_zero_slots, no_attachment_slots
     ):
@@ -312,6 +327,13 @@ class SpineAnimationData(SpineData):
                 (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
+        # Slots referred to by other elements stay, with their setup attachments
+        referenced_slots = self.get_referenced_slots()
+        visible_slots |= referenced_slots
+        l_attachments_used |= frozenset(
+            [slot.attachment for slot in self.slots if slot.name in referenced_slots]
+        )
+
         invisible_slots = slots_set - visible_slots
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index a01285c..3e11b8f 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -158,7 +158,10 @@ class SpineAnimationEditor(object):
 
         # Removing leaves that are slots, which means
         # they don't have any attachment as children and can be removed from animation
-        leaf_slots = self.spine_graph.remove_leafs_of_type(NodeType.SLOT.name)
+        leaf_slots = self.spine_graph.remove_leafs_of_type(
+            NodeType.SLOT.name,
+            ids_to_keep=self.spine_anim_data.data.get_referenced_slots(),
+        )
         slots_to_remove = list(slots_to_remove | frozenset(leaf_slots))
 
         # Convert spine graph back to json data
diff --git a/spine_json_lib/spine_graph_container.py b/spine_json_lib/spine_graph_container.py
index e5886cf..735bdad 100644
--- a/spine_json_lib/spine_graph_container.py
+++ b/spine_json_lib/spine_graph_container.py
@@ -56,13 +56,21 @@ class SpineGraphContainer(object):
 
         return leaf_slots
 
-    def remove_leafs_of_type(self, type_name) -> List[str]:
+    def remove_leafs_of_type(self, type_name, ids_to_keep=()) -> List[str]:
         """
         Removing from graph every node leaves of type @type_name recursively
-        and return the list of ids
+        except @ids_to_keep and return the list of ids
         """
+        graph_ids_to_keep = frozenset(
+            SpineGraphParser._to_graph_id(node_type_name=type_name, node_base_id=_id)
+            for _id in ids_to_keep
+        )
         nodes_removed = []
-        leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+        leaf_nodes = [
+            n
+            for n in self.get_leafs_of_type(node_type=type_name)
+            if n not in graph_ids_to_keep
+        ]
         while leaf_nodes:
             nodes_removed += [
                 SpineGraphParser._to_base_id(
@@ -72,7 +80,11 @@ class SpineGraphContainer(object):
                 for s_id in leaf_nodes
             ]
 
-            leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+            leaf_nodes = [
+                n
+                for n in self.get_leafs_of_type(node_type=type_name)
+                if n not in graph_ids_to_keep
+            ]
         return nodes_removed
 
     def remove_attachment(self, attachment_id: str) -> SpamNode:
-- 
2.43.0


From e5199522e4c07976117e28ef0210228f1fd311d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:19 +0000
Subject: [PATCH 26/39] fix: convert linked meshes of an erased skin with the
 parent's geometry and their own color and deformation

---
 spine_json_lib/data/spine_anim_data.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 77e790a..1444943 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -150,23 +150,42 @@ class SpineAnimationData(SpineData):
                 for slot_id, slot_data in attachment_data.items():
                     if (
                         isinstance(slot_data, SkinLinkedMesh)
-                        and slot_data.skin == skin_name
+                        and (slot_data.skin or "default") == skin_name
                     ):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
                         # we need to copy the Mesh information to this LinkedMesh
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_id]
+                        ][slot_data.parent]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
                         copied_mesh.path = slot_data.path
                         copied_mesh.width = slot_data.width
                         copied_mesh.height = slot_data.height
+                        copied_mesh.color = slot_data.color
 
                         attachment[slot_id] = copied_mesh
 
+                        # A linked mesh that shares the deformation of its parent had no
+                        # timelines of its own
+                        if slot_data.deform is not False:
+                            for anim_data in self.animations.values():
+                                parent_deform = (
+                                    anim_data.deform.get(skin_name, {})
+                                    .get(attachment_id, {})
+                                    .get(slot_data.parent)
+                                )
+                                if parent_deform is not None:
+                                    anim_data.deform.setdefault(
+                                        skin.name, {}
+                                    ).setdefault(attachment_id, {})[
+                                        slot_id
+                                    ] = copy.deepcopy(
+                                        parent_deform
+                                    )
+
         # Get images removed from spine
         removed_images = []
         removed_attachments = {}
-- 
2.43.0


From 64e4997f94fbed9ccf9124b16c4653f19c00b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:24 +0000
Subject: [PATCH 27/39] fix: keep images_references in step with the
 attachments

---
 spine_json_lib/data/spine_anim_data.py   |  6 ++++--
 spine_json_lib/spine_animation_editor.py | 17 ++++++-----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 1444943..e9e48e7 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -192,12 +192,14 @@ class SpineAnimationData(SpineData):
         for attachment_id, attachment in skin_to_remove.attachments.items():
             for slot_id, slot_data in attachment.items():
                 if isinstance(slot_data, SkinAttachment):
-                    image_path = slot_data.path or slot_data.name
+                    image_path = slot_data.path or slot_data.name or slot_id
                     if image_path is not None:
                         removed_attachments.setdefault(attachment_id, {})
                         removed_attachments[attachment_id][slot_id] = image_path
                 elif isinstance(slot_data, (SkinMesh, SkinLinkedMesh)):
-                    mesh_image_path = slot_data.path or slot_data.name
+                    mesh_image_path = (
+                        slot_data.path or slot_data.name or slot_id
+                    )
                     removed_images.append(mesh_image_path)
                 elif hasattr(slot_data, "path") and slot_data.path is not None:
                     removed_images.append(slot_data.path)
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 3e11b8f..965be58 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -84,14 +84,8 @@ class SpineAnimationEditor(object):
                     images_skins_refs.append(attachment_path)
 
         # Check which attachments are not being used in the remaining skins
-        images_to_remove = []
-
-        for img in images_skins_refs:
-            image_graph_id = SpineGraphParser._to_graph_id(
-                node_type_name=NodeType.IMAGE.name, node_base_id=img
-            )
-            if not self.spine_graph.graph.get_node(image_graph_id):
-                images_to_remove.append(img)
+        used_images = self.get_images_references()
+        images_to_remove = [img for img in images_skins_refs if img not in used_images]
 
         if is_safe_mode:
             removed_data = [], []
@@ -190,10 +184,11 @@ class SpineAnimationEditor(object):
             )
         )
 
-        images_node = self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
-
         # Remove reference to region attachments in images json file
-        self._clean_images_references(images_ids=images_node)
+        used_images = self.get_images_references()
+        self._clean_images_references(
+            images_ids=[img for img in self.images_references if img not in used_images]
+        )
         return list(slots_to_remove), attachments_to_remove
 
     def remove_slots(self, slots_ids, original_slots):
-- 
2.43.0


From 3b7eb12670b94003547f549478671d15536201ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:29 +0000
Subject: [PATCH 28/39] fix: refuse to erase unknown skins before erasing any

---
 spine_json_lib/spine_animation_editor.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 965be58..f9c1c97 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -66,6 +66,19 @@ class SpineAnimationEditor(object):
     def erase_skins(self, skins_to_erase, is_safe_mode=False):
         images_skins_refs = []
         skin_attachments_removed = {}
+
+        skins_to_erase = list(skins_to_erase)
+        for index, skin_name in enumerate(skins_to_erase):
+            if (
+                self.spine_anim_data.data.get_skin(skin_name) is None
+                or skin_name in skins_to_erase[:index]
+            ):
+                raise SpineJsonEditorError(
+                    message="Trying to remove skin with name {} but was not found".format(
+                        skin_name
+                    )
+                )
+
         for skin_name in skins_to_erase:
             (
                 skin_removed_images,
-- 
2.43.0


From 2218c8507da49ce6b42e545dd4b146b841e19067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 29/39] fix: order graphs deeper than the recursion limit

---
 spine_json_lib/graph/dagraph.py | 36 +++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 161cadc..cdbc534 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -214,23 +214,33 @@ class DAGraph(object):
 
         result_nodes = []
 
+        # Explicit stacks instead of recursion: a graph can be deeper than the
+        # recursion limit of the interpreter
         def execute(node: SpamNode) -> None:
             executed.add(node.id)
-
-            for parent in node.parents:
-                if parent not in executed:
-                    execute(self.get_node(parent))
-
-            result_nodes.append(node.id)
+            stack = [(node, iter(node.parents.values()))]
+            while stack:
+                current, parents = stack[-1]
+                for parent in parents:
+                    if parent.id not in executed:
+                        executed.add(parent.id)
+                        stack.append((parent, iter(parent.parents.values())))
+                        break
+                else:
+                    stack.pop()
+                    result_nodes.append(current.id)
 
         def visit(node: SpamNode) -> None:
-            visited.add(node.id)
-
-            if node.id not in executed:
-                execute(node)
-            for child in node.children:
-                if child not in visited:
-                    visit(self.get_node(child))
+            stack = [iter([node])]
+            while stack:
+                current = next(stack[-1], None)
+                if current is None:
+                    stack.pop()
+                elif current.id not in visited:
+                    visited.add(current.id)
+                    if current.id not in executed:
+                        execute(current)
+                    stack.append(iter(current.children.values()))
 
         for head_id in self.get_heads_id():
             visit(self.get_node(head_id))
-- 
2.43.0


From 4a0649ef3c8bc1d2753a78ea5fdc7b2c3a55b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 30/39] fix: validate graphs deeper than the recursion limit

---
 spine_json_lib/graph/graph_validator.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index 6fd8a5c..8d17b06 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -95,12 +95,24 @@ class GraphValidator(object):
             visited_nodes.add(node.id)
             path.append(node.id)
 
-            for children_id, children in node.children.items():
-                path_to_visit = visit(children)
-                if children_id in path or path_to_visit:
-                    path_to_visit += [children_id]
-                    return path_to_visit
-            path.pop()
+            # An explicit stack instead of recursion: a graph can be deeper than the
+            # recursion limit of the interpreter
+            stack = [(node.id, iter(node.children.items()))]
+            while stack:
+                _, children_items = stack[-1]
+                for children_id, children in children_items:
+                    if children_id in path:
+                        return [children_id] + [
+                            node_id for node_id, _ in reversed(stack[1:])
+                        ]
+                    if children_id not in visited_nodes:
+                        visited_nodes.add(children_id)
+                        path.append(children_id)
+                        stack.append((children_id, iter(children.children.items())))
+                        break
+                else:
+                    stack.pop()
+                    path.pop()
             return []
 
         circle_references: List[Any] = []
-- 
2.43.0


From 505147907b4f17b477553dbb5c9955e47b98a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 31/39] fix: list paths longer than the recursion limit

---
 spine_json_lib/graph/dagraph.py | 43 ++++++++++++++-------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index cdbc534..750fa1a 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -177,31 +177,24 @@ class DAGraph(object):
         paths = list()
         visited = set()
 
-        def _look_for_paths(
-            start: str, end: str, path: List[str], depth: int, graph: DAGraphType
-        ) -> None:
-            if depth > maximum_depth:
-                return
-
-            if start == end:
-                paths.append(path + [start])
-                return
-
-            visited.add(start)
-            path.append(start)
-
-            for child_id in graph._nodes[start].children:
-                if child_id not in visited:
-                    _look_for_paths(
-                        start=child_id, end=end, path=path, depth=depth + 1, graph=graph
-                    )
-
-            visited.remove(start)
-            path.remove(start)
-
-        _look_for_paths(
-            start=node_start, end=node_end, path=list(), depth=1, graph=self
-        )
+        path = list()
+
+        # An explicit stack instead of recursion: a path can be longer than the
+        # recursion limit of the interpreter
+        stack = [iter([node_start])]
+        while stack:
+            node_id = next(stack[-1], None)
+            if node_id is None:
+                stack.pop()
+                if path:
+                    visited.remove(path.pop())
+            elif node_id not in visited and len(path) < maximum_depth:
+                if node_id == node_end:
+                    paths.append(path + [node_id])
+                else:
+                    visited.add(node_id)
+                    path.append(node_id)
+                    stack.append(iter(self._nodes[node_id].children))
         return paths
 
     def sequential_order_of_execution(self) -> List[str]:
-- 
2.43.0


From 2d2420b9e7d8119c9531b98c1145c5786452504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 32/39] fix: create missing folders also for paths that leave
 them again

---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index f9c1c97..550cfe4 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -237,7 +237,7 @@ class SpineAnimationEditor(object):
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
         if base_dir and not os.path.isdir(base_dir):
-            os.makedirs(base_dir)
+            os.makedirs(base_dir, exist_ok=True)
 
         with open(output_json, "w") as outfile:
             json.dump(self.to_json_data(), outfile, indent=4)
@@ -273,7 +273,7 @@ class SpineAnimationEditor(object):
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
         if base_dir and not os.path.isdir(base_dir):
-            os.makedirs(base_dir)
+            os.makedirs(base_dir, exist_ok=True)
 
         with open(images_json, "w") as outfile:
             json.dump(self.images_references, outfile)
-- 
2.43.0


From e4f60d64aa144e4ad9a1e4c84e70c9a8e79f6492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 33/39] fix: the scale of an image shown by several slots does
 not depend on the order of object members

---
 spine_json_lib/spine_animation_editor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 550cfe4..87e211a 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -246,13 +246,19 @@ class SpineAnimationEditor(object):
         paths = {}
 
         images_folder = self.spine_anim_data.skeleton.get("images", "./images/")
+        slots_order = {
+            slot.name: index for index, slot in enumerate(self.spine_anim_data.data.slots)
+        }
         for skin in self.spine_anim_data.data.skins:
             if self.spine_version >= SPINE_3_8_VERSION:
                 skin_data = skin.attachments
             else:
                 skin_data = self.spine_anim_data.data.skins[skin]
 
-            for part_name in skin_data:
+            # When slots with different scales show the same image the last slot decides
+            for part_name in sorted(
+                skin_data, key=lambda name: slots_order.get(name, -1)
+            ):
                 slot_data = self.spine_anim_data.data.get_slot(part_name)
                 scale = self.spine_anim_data.data.get_slot_custom_scale(slot=slot_data)
                 for sub_part_key in skin_data[part_name]:
-- 
2.43.0


From 71b2861357374c5ee05dcdde55bcc29ec680bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 34/39] fix: forget the scale of an image when the slot it came
 from is removed

---
 spine_json_lib/spine_animation_editor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 87e211a..8c536b9 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -316,6 +316,11 @@ class SpineAnimationEditor(object):
         if removed_images:
             print("Removed images: {!a}".format(removed_images))
 
+        # The slot that decided the scale of an image may be gone
+        current_images = self.get_images_references()
+        for img_id in copy_json:
+            copy_json[img_id] = current_images.get(img_id, copy_json[img_id])
+
         self.images_references = copy_json
 
     def _clean_slots_in_skins(self, slots_ids: List[str]) -> None:
-- 
2.43.0


From 48cfcf8e31a617f9c688a5c68897814472fa0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:48 +0000
Subject: [PATCH 35/39] fix: an attachment called "None" is an attachment

---
 spine_json_lib/data/data_types/slot.py | 15 +++++++++------
 spine_json_lib/data/spine_anim_data.py | 10 ++++++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/data/data_types/slot.py b/spine_json_lib/data/data_types/slot.py
index e93664d..8afb3be 100644
--- a/spine_json_lib/data/data_types/slot.py
+++ b/spine_json_lib/data/data_types/slot.py
@@ -54,8 +54,11 @@ class SlotKeyframe(SpineData):
 
         super(SlotKeyframe, self).__init__(values)
 
-    def is_empty(self):
-        return self.name == "None" or self.name is None
+    def is_empty(self, attachments_ids=()):
+        # "None" stands for no attachment, unless there is an attachment with that name
+        return self.name is None or (
+            self.name == "None" and self.name not in attachments_ids
+        )
 
 
 class SlotTimeline(SpineData):
@@ -79,7 +82,7 @@ class SlotTimeline(SpineData):
 
         super(SlotTimeline, self).__init__(values)
 
-    def is_empty(self):
+    def is_empty(self, attachments_ids=()):
         """
         In case of having only 1 attachment of type image ('attachment')
         and this attachment also being empty we can consider this Timeline as empty
@@ -88,14 +91,14 @@ class SlotTimeline(SpineData):
             not self.color
             and not self.twoColor
             and len(self.attachment) == 1
-            and self.attachment[0].is_empty()
+            and self.attachment[0].is_empty(attachments_ids)
             and self.attachment[0].time == 0
         )
 
-    def get_used_attachments(self):
+    def get_used_attachments(self, attachments_ids=()):
         used_attachments = []
         for attachment in self.attachment:
-            if not attachment.is_empty():
+            if not attachment.is_empty(attachments_ids):
                 used_attachments.append(attachment.name)
         return used_attachments
 
diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index e9e48e7..0751e9c 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -282,11 +282,17 @@ class SpineAnimationData(SpineData):
         }
 
         slots_dict = {slot.name: slot for slot in self.slots if slot.name}
+        attachments_ids = frozenset(
+            attachment_id
+            for skin in self.skins
+            for attachments in skin.attachments.values()
+            for attachment_id in attachments
+        )
 
         for slot_id, slot_data in anim_slots.items():
             # By default we have to add the slot attachment base data as they are normally missing
             # in the json info for optimization
-            slot_used_attachments = slot_data.get_used_attachments()
+            slot_used_attachments = slot_data.get_used_attachments(attachments_ids)
             if slots_dict[slot_id].attachment is not None:
                 slot_used_attachments.append(slots_dict[slot_id].attachment)
 
@@ -295,7 +301,7 @@ class SpineAnimationData(SpineData):
             # 2 -) The slot has alpha 0 but has color information
             # 3 -) Has no setup attachments and is not adding any in animation data
             if (
-                slot_data.is_empty()
+                slot_data.is_empty(attachments_ids)
                 or (slot_id in alpha_zero_slots and not slot_data.has_color())
                 or (slot_id in no_attachment_slots and not slot_used_attachments)
             ):
-- 
2.43.0


From 315a5019abfad9da4ed2094d9f39e682232ffd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:52 +0000
Subject: [PATCH 36/39] fix: refuse scale tags that are not finite numbers

---
 spine_json_lib/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spine_json_lib/utils.py b/spine_json_lib/utils.py
index 87170e6..45373b0 100644
--- a/spine_json_lib/utils.py
+++ b/spine_json_lib/utils.py
@@ -1,3 +1,4 @@
+import math
 import re
 from typing import List, Any
 
@@ -19,6 +20,8 @@ def cast_element(value, value_type):
     parsed_value = value
     if value_type == TYPE_NUMBER:
         parsed_value = float(parsed_value)
+        if not math.isfinite(parsed_value):
+            raise ValueError("Wrong value: '{}' is not a number".format(value))
     elif value_type == TYPE_INTEGER:
         parsed_value = int(float(parsed_value))
     elif value_type == TYPE_STRING:
-- 
2.43.0


From 969ca7e73ee941d084b88c181ca0dcf7e805fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 37/39] fix: the default node factory keeps the public id it is
 given

---
 spine_json_lib/graph/factories.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/factories.py b/spine_json_lib/graph/factories.py
index 79de426..cf5ec0e 100644
--- a/spine_json_lib/graph/factories.py
+++ b/spine_json_lib/graph/factories.py
@@ -62,5 +62,9 @@ class DefaultNodeFactory(INodeFactory):
         public_id: Optional[str] = None,
     ) -> SpamNode:
         return SpamNode(
-            id_value=node_id, data=node_data, node_type=node_type, order=order
+            id_value=node_id,
+            data=node_data,
+            node_type=node_type,
+            order=order,
+            public_id=public_id,
         )
-- 
2.43.0


From e1b5bab600731aa55a987aced3b4101faa9af420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:43 +0000
Subject: [PATCH 38/39] fix: handle skins in which slots share one attachments
 object

---
 spine_json_lib/data/data_types/skin.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/data/data_types/skin.py b/spine_json_lib/data/data_types/skin.py
index 64606ac..e644a1a 100644
--- a/spine_json_lib/data/data_types/skin.py
+++ b/spine_json_lib/data/data_types/skin.py
@@ -1,5 +1,3 @@
-import copy
-
 from typing import Dict, Any, List
 
 from spine_json_lib.data.data_types.base_type import SpineData
@@ -30,7 +28,8 @@ IMAGE_ATTACHMENTS_TYPES = [None, REGION_TYPE, MESH_TYPE, LINKED_MESH_TYPE]
 
 
 def parse_skin_attachment_data(attachments):
-    result = copy.deepcopy(attachments)
+    # A new dictionary for each, even when the data holds the same one several times
+    result = {attach_id: {} for attach_id in attachments}
 
     for attach_id in attachments:
         for slot_id in attachments[attach_id]:
-- 
2.43.0


From 60771e6c9e28140a2be960d6de70dc31774a70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:12 +0000
Subject: [PATCH 39/39] fix: serialise graphs whose node types are equal but
 not identical strings

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index da92e0c..7433992 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -143,7 +143,7 @@ class SpineGraphParser(IGraphParser):
 
         for node_id, node in graph._nodes.items():
             # IMPORTANT: We ignore attachments when generating json from graph
-            if node.node_type is NodeType.ATTACHMENT.name or node.node_type is NodeType.IMAGE.name:
+            if node.node_type in (NodeType.ATTACHMENT.name, NodeType.IMAGE.name):
                 continue
 
             node_type_json_key = SPINE_JSON_MAPPED_IDS[str(node.node_type)]
-- 
2.43.0

