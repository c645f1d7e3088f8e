From f211ce13570c3dfcf7216a1f34ccf8b17bcbf761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:11 +0000
Subject: [PATCH 01/25] fix: incremental evaluation no longer reorders the
 caller's instance list

---
 concept_formation/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/evaluation.py b/concept_formation/evaluation.py
index 2445373..f18a3b3 100644
--- a/concept_formation/evaluation.py
+++ b/concept_formation/evaluation.py
@@ -226,6 +226,7 @@ def incremental_evaluation(tree, instances, attr, run_length, runs=1,
         the score for successive instances within a run.
     :rtype: A table of scores.
     """
+    instances = [i for i in instances]
     scores = []
     for r in range(runs):
         # print(r)
-- 
2.43.0


From 31b48ff75f1276f230c8e55db63558c8ba180870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:11 +0000
Subject: [PATCH 02/25] fix: undoing ListsToRelations no longer writes into its
 argument

---
 concept_formation/preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 802cc94..6155126 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1111,7 +1111,7 @@ class ListsToRelations(Preprocessor):
                 originals[lname].append((attr, instance[attr]))
 
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[attr] = deepcopy(instance[attr])
 
         for ele in elements:
             new_list = [elements[ele].pop(0)]
@@ -1155,7 +1155,7 @@ class ListsToRelations(Preprocessor):
                     current = current[path.pop(0)]
                 current[path[0]] = new_list
             else:
-                for attr, val in originals:
+                for attr, val in originals[ele]:
                     new_instance[attr] = val
 
         return new_instance
-- 
2.43.0


From 4d206d67f99174fb214c242cf56128e5dd3e4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:11 +0000
Subject: [PATCH 03/25] fix: undoing Flattener no longer writes into its
 argument

---
 concept_formation/preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 6155126..5fa79a2 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -635,9 +635,9 @@ class Flattener(Preprocessor):
                     if sa not in curr:
                         curr[sa] = {}
                     curr = curr[sa]
-                curr[path[-1]] = instance[attr]
+                curr[path[-1]] = deepcopy(instance[attr])
             else:
-                temp[attr] = instance[attr]
+                temp[attr] = deepcopy(instance[attr])
 
         return temp
 
-- 
2.43.0


From 77448eeafb7f666f7ce1359f50985f1c4841ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 04/25] fix: DummyTree has the scaling state its nodes read

---
 concept_formation/dummy.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9492c81..4cf2d51 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -8,7 +8,6 @@ from __future__ import print_function
 from __future__ import unicode_literals
 from __future__ import absolute_import
 from __future__ import division
-from concept_formation.cobweb3 import Cobweb3Node
 from concept_formation.trestle import TrestleTree
 from concept_formation.structure_mapper import StructureMapper
 from concept_formation.preprocessor import SubComponentProcessor
@@ -27,9 +26,7 @@ class DummyTree(TrestleTree):
     """
 
     def __init__(self):
-        self.root = Cobweb3Node()
-        self.root.tree = self
-        self.gensym_counter = 0
+        super(DummyTree, self).__init__()
         self.structure_map_internally = False
 
     def gensym(self):
@@ -67,6 +64,7 @@ class DummyTree(TrestleTree):
         else:
             pipeline = Pipeline(SubComponentProcessor(), Flattener())
         temp_instance = pipeline.transform(instance)
+        self.update_scales(temp_instance)
         self.root.increment_counts(temp_instance)
         return self.root
 
-- 
2.43.0


From 0b273dd8d29ed740a0a9c32ac89de35e82aae1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 05/25] fix: DummyTree validates an instance before counting it

---
 concept_formation/dummy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 4cf2d51..b4126f8 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -64,6 +64,7 @@ class DummyTree(TrestleTree):
         else:
             pipeline = Pipeline(SubComponentProcessor(), Flattener())
         temp_instance = pipeline.transform(instance)
+        self._sanity_check_instance(temp_instance)
         self.update_scales(temp_instance)
         self.root.increment_counts(temp_instance)
         return self.root
-- 
2.43.0


From b8f140da1c8088ad50effdc2f1ecbbc895a1a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 06/25] fix: TrestleTree.infer_missing validates its instance
 like every other entry point

---
 concept_formation/trestle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index 24e2e80..d31e381 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -194,6 +194,7 @@ class TrestleTree(Cobweb3Tree):
                                  StructureMapper(self.root))
 
         temp_instance = preprocessing.transform(instance)
+        self._sanity_check_instance(temp_instance)
         concept = self._cobweb_categorize(temp_instance)
 
         for attr in concept.attrs('all'):
-- 
2.43.0


From 5524d082069752820912094b1e5aafc0c2f9b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 07/25] fix: k_cluster unpacks the clusterings it compares

---
 concept_formation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index e723d60..c164490 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -80,7 +80,7 @@ def k_cluster(tree, instances, k=3, mod=True):
                          "guaranteed to have at least 2 children.")
 
     clustering = ["Concept" + str(tree.root.concept_id) for i in instances]
-    for c in cluster_iter(tree, instances, mod=mod):
+    for c, _ in cluster_iter(tree, instances, mod=mod):
         if len(set(c)) > k:
             break
         clustering = c
-- 
2.43.0


From a721956b8e3ce3c5b8d3ddc9f37a903cec1fcfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 08/25] fix: cluster_iter keeps splitting while below minsplit

---
 concept_formation/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index c164490..f99bbcf 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -430,19 +430,19 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         cluster_assign = []
         child_cluster_assign = []
+        clusters = []
+        for i, c in enumerate(temp_clusters):
+            child = None
+            while (c.parent and c.parent.parent):
+                child = c
+                c = c.parent
+            if labels:
+                clusters.append("Concept" + str(c.concept_id))
+            else:
+                clusters.append(c)
+            cluster_assign.append(c)
+            child_cluster_assign.append(child)
         if nth_split >= minsplit:
-            clusters = []
-            for i, c in enumerate(temp_clusters):
-                child = None
-                while (c.parent and c.parent.parent):
-                    child = c
-                    c = c.parent
-                if labels:
-                    clusters.append("Concept" + str(c.concept_id))
-                else:
-                    clusters.append(c)
-                cluster_assign.append(c)
-                child_cluster_assign.append(child)
             yield clusters, heuristic(cluster_assign, temp_clusters)
 
         split_cus = []
-- 
2.43.0


From 0695a37aec2f1b5ab3be6a9e449fe56385a04436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 09/25] fix: visualize_clusters names cluster nodes as the
 export does

---
 concept_formation/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 9c0352c..2880b24 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -153,7 +153,7 @@ def visualize_clusters(tree, clusters, dst=None, recreate_html=True):
     :type create_html: bool
     """
     if isinstance(clusters[0], CobwebNode):
-        clusters = {str(c.concept_id) for c in clusters}
+        clusters = {"Concept" + str(c.concept_id) for c in clusters}
     else:
         clusters = set(clusters)
 
-- 
2.43.0


From ee70481ea644dbae192dd2ef714eaef138ef09d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 10/25] fix: a concept without visible attributes scores 0
 instead of dividing by zero

---
 concept_formation/cobweb.py  | 2 ++
 concept_formation/cobweb3.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 4151605..148db4f 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -399,6 +399,8 @@ class CobwebNode(object):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
         return correct_guesses / attr_count
 
     def category_utility(self):
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 1fb2f79..fb9653e 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -284,6 +284,8 @@ class Cobweb3Node(CobwebNode):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
         return correct_guesses / attr_count
 
     def pretty_print(self, depth=0):
-- 
2.43.0


From 1225a19addba968a7c606107efbc8250ab8b4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 11/25] fix: children of a copied concept name the copy as
 their parent

---
 concept_formation/cobweb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 148db4f..243d5a3 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -309,7 +309,9 @@ class CobwebNode(object):
             self.update_counts_from_node(otherNode)
 
             for child in otherNode.children:
-                self.children.append(self.__class__(child))
+                child_copy = self.__class__(child)
+                child_copy.parent = self
+                self.children.append(child_copy)
 
     def shallow_copy(self):
         """
-- 
2.43.0


From 8f1e2b6207bf5b18bd97121c9d52a0caa27473f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:12 +0000
Subject: [PATCH 12/25] fix: loaders return the number of instances asked for

---
 concept_formation/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/datasets.py b/concept_formation/datasets.py
index aaf79f9..3ec3f0e 100644
--- a/concept_formation/datasets.py
+++ b/concept_formation/datasets.py
@@ -23,7 +23,7 @@ def _load_json(filename, num_instances=None):
     output = []
     with open(join(module_path, 'data_files', filename)) as dat:
         for idx, lin in enumerate(dat):
-            if num_instances is not None and idx > num_instances:
+            if num_instances is not None and idx >= num_instances:
                 break
             output.append(json.loads(lin.strip('[],\n')))
     return output
-- 
2.43.0


From 2bb0c7e7ddec15ea02ca4cb5fdefc920882069a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:51 +0000
Subject: [PATCH 13/25] fix: probability of a missing value in an empty concept
 no longer divides by zero

---
 concept_formation/cobweb.py  | 3 +++
 concept_formation/cobweb3.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 243d5a3..f958dff 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -1147,6 +1147,9 @@ class CobwebNode(object):
         :rtype: float
         """
         if val is None:
+            if self.count == 0:
+                # as in get_weighted_values: nothing seen, nothing expected
+                return 1.0
             c = 0.0
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v] for v in
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index fb9653e..22383ae 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -442,6 +442,9 @@ class Cobweb3Node(CobwebNode):
         :rtype: float
         """
         if val is None:
+            if self.count == 0:
+                # as in get_weighted_values: nothing seen, nothing expected
+                return 1.0
             c = 0.0
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v].num if v == cv_key
-- 
2.43.0


From 4046f310e21a1b3582336b75d770cb24f6babea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:52 +0000
Subject: [PATCH 14/25] fix: Tuplizer can undo relations with numbers

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 5fa79a2..ad82ab3 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -295,7 +295,7 @@ class Tuplizer(Preprocessor):
         """
         if isinstance(relation, tuple):
             relation = [self._stringify_relation(ele) if isinstance(ele, tuple)
-                        else ele for ele in relation]
+                        else str(ele) for ele in relation]
             return "(" + " ".join(relation) + ")"
         else:
             return relation
-- 
2.43.0


From 82dcd55ce6a5ee7d3c00f2d951c0d4ae7fd79b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:52 +0000
Subject: [PATCH 15/25] fix: undoing NameStandardizer restores objects with
 plain values

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ad82ab3..73f00f8 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -444,7 +444,7 @@ class NameStandardizer(Preprocessor):
                 temp_rel = rename_relation(attr, self.reverse_mapping)
                 new_instance[temp_rel] = instance[attr]
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[name] = instance[attr]
 
         return new_instance
 
-- 
2.43.0


From c4b446f88d7faf87dd67e2fdc3ed2c29bf27f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:52 +0000
Subject: [PATCH 16/25] fix: random_successor never chooses from an empty list
 of swaps

---
 concept_formation/structure_mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/structure_mapper.py b/concept_formation/structure_mapper.py
index eeaa3f2..9789d1f 100644
--- a/concept_formation/structure_mapper.py
+++ b/concept_formation/structure_mapper.py
@@ -405,7 +405,7 @@ class StructureMappingOptProblem(Problem):
                                                  not (mapping[o1] == o1 or
                                                       mapping[v] == v))]
 
-        if random() <= len(possible_flips) / (len(possible_flips) +
+        if random() < len(possible_flips) / (len(possible_flips) +
                                               len(unmapped_cnames)):
             o2 = choice(possible_flips)
             return self.swap_two(o1, o2, mapping, unmapped_cnames, target,
-- 
2.43.0


From 98b9cdcf2f8327fe912567cb6d3717fe4e2766b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:15 +0000
Subject: [PATCH 17/25] fix: incremental evaluation scores run_length instances
 per run, as documented

---
 concept_formation/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/evaluation.py b/concept_formation/evaluation.py
index f18a3b3..ed313f6 100644
--- a/concept_formation/evaluation.py
+++ b/concept_formation/evaluation.py
@@ -237,7 +237,7 @@ def incremental_evaluation(tree, instances, attr, run_length, runs=1,
 
         row = []
 
-        for i, instance in enumerate(instances[:run_length+2]):
+        for i, instance in enumerate(instances[:run_length]):
             # print(i)
             val = None
             if attr in instance:
-- 
2.43.0


From 17ec2abc20a383d17ba01f4f7a94475542300e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:00 +0000
Subject: [PATCH 18/25] fix: embedding a component twice keeps its first place
 instead of recursing forever

---
 concept_formation/preprocessor.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 73f00f8..ef7e5ad 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1281,14 +1281,29 @@ class SubComponentProcessor(Preprocessor):
         return self._embed_sub_objects(instance)
 
     def _embed_sub_objects(self, instance):
-        so_mapping = {attr[2]: (attr[2], attr[1]) for attr in instance
-                      if (isinstance(attr, tuple) and len(attr) == 3 and
-                          attr[0] == 'has-component')}
+        so_mapping = {}
+        for attr in instance:
+            if (isinstance(attr, tuple) and len(attr) == 3 and
+                    attr[0] == 'has-component'):
+                # a component stays where it was put first, and cannot contain
+                # itself.
+                if (attr[2] not in so_mapping and
+                        not self._is_inside(attr[1], attr[2], so_mapping)):
+                    so_mapping[attr[2]] = (attr[2], attr[1])
 
         return {self._rename_embedding(attr, so_mapping): instance[attr] for
                 attr in instance if not (isinstance(attr, tuple) and len(attr)
                                          == 3 and attr[0] == 'has-component')}
 
+    def _is_inside(self, attr, component, so_mapping):
+        while attr != component:
+            if attr in so_mapping:
+                attr = so_mapping[attr]
+            if not (isinstance(attr, tuple) and len(attr) == 2):
+                return False
+            attr = attr[1]
+        return True
+
     def _rename_embedding(self, attr, so_mapping):
         if attr in so_mapping:
             new_a = so_mapping[attr]
-- 
2.43.0


From de4219671203f88a24f13720a169ad189bd4a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:37 +0000
Subject: [PATCH 19/25] fix: a plain value and a sub-object of the same name no
 longer overwrite each other when unflattening

---
 concept_formation/preprocessor.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ef7e5ad..f33f665 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -630,14 +630,18 @@ class Flattener(Preprocessor):
         for attr in instance:
             if (isinstance(attr, tuple) and len(attr) == 2):
                 path = self._get_path(attr)
-                curr = temp
-                for sa in path[:-1]:
-                    if sa not in curr:
-                        curr[sa] = {}
-                    curr = curr[sa]
-                curr[path[-1]] = deepcopy(instance[attr])
             else:
-                temp[attr] = deepcopy(instance[attr])
+                path = [attr]
+
+            # where a plain value and a sub-object claim the same attribute the
+            # one that comes first stays.
+            curr = temp
+            for sa in path[:-1]:
+                curr = curr.setdefault(sa, {})
+                if not isinstance(curr, dict):
+                    break
+            else:
+                curr.setdefault(path[-1], deepcopy(instance[attr]))
 
         return temp
 
-- 
2.43.0


From d2e4150bb2434d58a21da377c4ae87704749b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:04 +0000
Subject: [PATCH 20/25] fix: undoing NameStandardizer renames added objects
 that bear an original name

---
 concept_formation/preprocessor.py | 43 ++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index f33f665..b866339 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -421,27 +421,56 @@ class NameStandardizer(Preprocessor):
         if self.reverse_mapping is None:
             raise Exception("Must call transform before undo_transform!")
 
-        return self._undo_standardize(instance)
+        # objects added since the transformation may bear the name of an object
+        # of the original instance: they get a new one.
+        mapping = dict(self.reverse_mapping)
+        taken = set(mapping.values())
+        for name in sorted(self._object_names(instance)):
+            if name in taken and name not in mapping:
+                mapping[name] = self.gensym()
+                while mapping[name] in taken:
+                    mapping[name] = self.gensym()
 
-    def _undo_standardize(self, instance):
+        return self._undo_standardize(instance, mapping)
+
+    def _object_names(self, element):
+        names = set()
+        if isinstance(element, dict):
+            for attr in element:
+                names |= self._object_names(attr)
+                if isinstance(element[attr], (dict, list)):
+                    names |= self._object_names(element[attr])
+        elif isinstance(element, tuple):
+            for ele in element:
+                names |= self._object_names(ele)
+        elif isinstance(element, list):
+            for ele in element:
+                if isinstance(ele, dict):
+                    names |= self._object_names(ele)
+        elif isinstance(element, str) and element[:1] == '?':
+            names.add(element)
+        return names
+
+    def _undo_standardize(self, instance, mapping):
         new_instance = {}
 
         for attr in instance:
 
             name = attr
-            if attr in self.reverse_mapping:
-                name = self.reverse_mapping[attr]
+            if attr in mapping:
+                name = mapping[attr]
                 if isinstance(name, tuple):
                     name = name[0]
 
             if isinstance(instance[attr], dict):
-                new_instance[name] = self._undo_standardize(instance[attr])
+                new_instance[name] = self._undo_standardize(instance[attr],
+                                                            mapping)
             elif isinstance(instance[attr], list):
-                new_instance[name] = [self._undo_standardize(ele) if
+                new_instance[name] = [self._undo_standardize(ele, mapping) if
                                       isinstance(ele, dict) else ele for ele in
                                       instance[attr]]
             elif isinstance(attr, tuple):
-                temp_rel = rename_relation(attr, self.reverse_mapping)
+                temp_rel = rename_relation(attr, mapping)
                 new_instance[temp_rel] = instance[attr]
             else:
                 new_instance[name] = instance[attr]
-- 
2.43.0


From b87270d8ce9ec02bcdd68fbf720f26cc6a1af518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:04 +0000
Subject: [PATCH 21/25] fix: NominalToNumeric converts the values inside
 components instead of failing on them

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index b866339..976c5ad 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1644,7 +1644,7 @@ class NominalToNumeric(OneWayPreprocessor):
         new_instance = {}
 
         for a in instance:
-            if a in attrs:
+            if a in attrs and not isinstance(instance[a], dict):
                 try:
                     val = float(instance[a])
                 except ValueError as e:
-- 
2.43.0


From 57f0d11fbf7f728eb5a77e3bef1678cd1639b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:04 +0000
Subject: [PATCH 22/25] fix: Sanitizer accepts its specification in any case,
 not only in its check

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 976c5ad..dc5e70f 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1712,7 +1712,7 @@ class Sanitizer(OneWayPreprocessor):
         if spec.lower() not in ['trestle', 'cobweb', 'cobweb3']:
             raise ValueError(
                 "Invalid Spec: must be one of: 'trestle','cobweb','cobweb3'")
-        self.spec = spec
+        self.spec = spec.lower()
 
     def transform(self, instance):
         return self._sanitize(instance)
-- 
2.43.0


From 8df4f6177f566f0d2deb073d719c5cf8aa7bac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:15 +0000
Subject: [PATCH 23/25] fix: a component is not embedded into an object that
 has a plain value

---
 concept_formation/preprocessor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index dc5e70f..233d1b0 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1315,14 +1315,17 @@ class SubComponentProcessor(Preprocessor):
 
     def _embed_sub_objects(self, instance):
         so_mapping = {}
+        plain = set()
         for attr in instance:
             if (isinstance(attr, tuple) and len(attr) == 3 and
                     attr[0] == 'has-component'):
-                # a component stays where it was put first, and cannot contain
-                # itself.
-                if (attr[2] not in so_mapping and
+                # a component stays where it was put first, and cannot be inside
+                # itself or a plain value.
+                if (attr[2] not in so_mapping and attr[1] not in plain and
                         not self._is_inside(attr[1], attr[2], so_mapping)):
                     so_mapping[attr[2]] = (attr[2], attr[1])
+            else:
+                plain.add(attr)
 
         return {self._rename_embedding(attr, so_mapping): instance[attr] for
                 attr in instance if not (isinstance(attr, tuple) and len(attr)
-- 
2.43.0


From ce3697965098ef9777f070a0c3a9d84e7d101da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:17 +0000
Subject: [PATCH 24/25] fix: NominalToNumeric handles values of other types
 (None, tuples) as on_fail says

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 233d1b0..8ec091d 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1650,7 +1650,7 @@ class NominalToNumeric(OneWayPreprocessor):
             if a in attrs and not isinstance(instance[a], dict):
                 try:
                     val = float(instance[a])
-                except ValueError as e:
+                except (ValueError, TypeError) as e:
                     if self.on_fail == "break":
                         raise e
                         return None
-- 
2.43.0


From 6d5ca4107cb6715fe28eb1d0ceba1e8285ff708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:08 +0000
Subject: [PATCH 25/25] fix: SubComponentProcessor keeps the place of objects
 inside plain components

An object inside a component that is not itself an object, such as
{'o': {'?a': {'x': 'v'}}}, was moved to the top without a has-component
relation, so undo_transform could not put it back. Names of two characters
were also taken apart as if they were pairs.
---
 concept_formation/preprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 8ec091d..af67c50 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1392,7 +1392,7 @@ class SubComponentProcessor(Preprocessor):
         inner = None
         relations = []
 
-        while len(attr) == 2:
+        while isinstance(attr, tuple) and len(attr) == 2:
             a, attr = attr
             if isinstance(a, str) and len(a) > 0 and a[0] == '?':
                 if last_comp is not None:
@@ -1400,8 +1400,7 @@ class SubComponentProcessor(Preprocessor):
                 last_comp = a
                 inner = self._extract_attr(attr)
 
-        if last_comp is not None and (isinstance(attr, str) and len(attr) > 0
-                                      and attr[0] == '?'):
+        if last_comp is not None:
             relations.append(('has-component', inner, last_comp))
 
         return relations
-- 
2.43.0

