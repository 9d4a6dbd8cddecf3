From 5d0d82164663365e02d0f42e939a424e8f36f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:50 +0000
Subject: [PATCH 01/39] fix: expected_correct_guesses divides by zero for
 concepts without visible attributes

---
 concept_formation/cobweb.py  | 4 ++++
 concept_formation/cobweb3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 4151605..5a99a69 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -399,6 +399,10 @@ class CobwebNode(object):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        # a concept without (non-hidden) attributes has nothing to guess
+        if attr_count == 0:
+            return 0.0
+
         return correct_guesses / attr_count
 
     def category_utility(self):
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 1fb2f79..83e2330 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -284,6 +284,10 @@ class Cobweb3Node(CobwebNode):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        # a concept without (non-hidden) attributes has nothing to guess
+        if attr_count == 0:
+            return 0.0
+
         return correct_guesses / attr_count
 
     def pretty_print(self, depth=0):
-- 
2.43.0


From 14c4297fcdf179f881e625556f75ad208629cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 02/39] fix: probability of a missing value divides by zero on
 an empty concept

---
 concept_formation/cobweb.py  | 2 ++
 concept_formation/cobweb3.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 5a99a69..490e338 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -1151,6 +1151,8 @@ class CobwebNode(object):
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v] for v in
                          self.av_counts[attr]])
+            if self.count == 0:
+                return 1.0
             return (self.count - c) / self.count
 
         if attr in self.av_counts and val in self.av_counts[attr]:
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 83e2330..6926c0c 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -449,6 +449,8 @@ class Cobweb3Node(CobwebNode):
                 c = sum([self.av_counts[attr][v].num if v == cv_key
                          else self.av_counts[attr][v] for v in
                          self.av_counts[attr]])
+            if self.count == 0:
+                return 1.0
             return (self.count - c) / self.count
 
         if attr in self.av_counts and isNumber(val):
-- 
2.43.0


From 0d10da321a7e8d7f2f44f5d40a30c54581ae8975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 03/39] fix: combining two empty continuous values divides by
 zero

---
 concept_formation/continuous_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/continuous_value.py b/concept_formation/continuous_value.py
index d465862..39776b7 100644
--- a/concept_formation/continuous_value.py
+++ b/concept_formation/continuous_value.py
@@ -188,6 +188,8 @@ class ContinuousValue():
         """
         if not isinstance(other, ContinuousValue):
             raise ValueError("Can only merge 2 continuous values.")
+        if other.num == 0:
+            return
         delta = other.mean - self.mean
         self.meanSq = (self.meanSq + other.meanSq + delta * delta *
                        ((self.num * other.num) / (self.num + other.num)))
-- 
2.43.0


From 363069fb6eea1d30fbe8b036143b8444e1c1cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 04/39] fix: weighted_choice raises when the draw equals the
 total weight

---
 concept_formation/utils.py | 363 +++++++++++++++++++------------------
 1 file changed, 184 insertions(+), 179 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 65944a9..fc53169 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -1,179 +1,184 @@
-"""
-The utils module contains a number of utility functions used by other modules.
-"""
-
-from __future__ import print_function
-from __future__ import unicode_literals
-from __future__ import absolute_import
-from __future__ import division
-from numbers import Number
-from random import uniform
-from random import random
-from math import sqrt
-from math import isnan
-
-
-# A hashtable of values to use in the c4(n) function to apply corrections to
-# estimates of std.
-c4n_table = {2: 0.7978845608028654,
-             3:  0.886226925452758,
-             4:  0.9213177319235613,
-             5:  0.9399856029866254,
-             6:  0.9515328619481445,
-             7:  0.9593687886998328,
-             8:  0.9650304561473722,
-             9:  0.9693106997139539,
-             10: 0.9726592741215884,
-             11: 0.9753500771452293,
-             12: 0.9775593518547722,
-             13: 0.9794056043142177,
-             14: 0.9809714367555161,
-             15: 0.9823161771626504,
-             16: 0.9834835316158412,
-             17: 0.9845064054718315,
-             18: 0.985410043808079,
-             19: 0.9862141368601935,
-             20: 0.9869342675246552,
-             21: 0.9875829288261562,
-             22: 0.9881702533158311,
-             23: 0.988704545233999,
-             24: 0.9891926749585048,
-             25: 0.9896403755857028,
-             26: 0.9900524688409107,
-             27: 0.990433039209448,
-             28: 0.9907855696217323,
-             29: 0.9911130482419843}
-
-
-def c4(n):
-    """
-    Returns the correction factor to apply to unbias estimates of standard
-    deviation in low sample sizes. This implementation is based on a lookup
-    table for n in [2-29] and returns 1.0 for values >= 30.
-
-    >>> c4(3)
-    0.886226925452758
-    """
-    if n <= 1:
-        raise ValueError("Cannot apply correction for a sample size of 1.")
-    else:
-        return c4n_table[n] if n < 30 else 1.0
-
-
-def isNumber(n):
-    """
-    Check if a value is a number that should be handled differently than
-    nominals.
-    """
-    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
-
-
-def mean(values):
-    """
-    Computes the mean of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the mean of the list of values
-    :rtype: float
-
-    >>> mean([600, 470, 170, 430, 300])
-    394.0
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    return float(sum(values))/len(values)
-
-
-def std(values):
-    """
-    Computes the standard deviation of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the standard deviation of the list of values
-    :rtype: float
-
-    >>> std([600, 470, 170, 430, 300])
-    147.32277488562318
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    meanValue = mean(values)
-    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
-                          values]))/len(values)
-    return sqrt(variance)
-
-
-def weighted_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
-    chosen value where the choice frequency is proportional to the choice
-    weight divided by the sum of all weights. Note, weights must be greater
-    than or equal to 0.
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: A choice sampled from the list according to the weightings
-    :rtype: val
-
-    >>> from random import seed
-    >>> seed(1234)
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> weighted_choice(options)
-    'd'
-    >>> weighted_choice(options)
-    'c'
-    >>> weighted_choice(options)
-    'a'
-
-    .. seealso::
-        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
-    """
-    total = sum(w for c, w in choices)
-    r = uniform(0, total)
-    upto = 0
-    for c, w in choices:
-        if w < 0:
-            raise ValueError('All weights must be greater than or equal to 0.')
-        if upto + w > r:
-            return c
-        upto += w
-    raise ValueError("Choices cannot be an empty list")
-
-
-def most_likely_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], returns the value
-    with the highest weight. Ties are randomly broken.
-
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: the val with the hightest weight
-    :rtype: val
-    """
-    if len(choices) == 0:
-        raise ValueError("Choices cannot be an empty list")
-
-    vals = [w for _, w in choices if w < 0]
-    if len(vals) > 0:
-        raise ValueError('All weights must be greater than or equal to 0')
-
-    updated_choices = [(prob, random(), val) for val, prob in choices]
-    return sorted(updated_choices, reverse=True)[0][2]
+"""
+The utils module contains a number of utility functions used by other modules.
+"""
+
+from __future__ import print_function
+from __future__ import unicode_literals
+from __future__ import absolute_import
+from __future__ import division
+from numbers import Number
+from random import uniform
+from random import random
+from math import sqrt
+from math import isnan
+
+
+# A hashtable of values to use in the c4(n) function to apply corrections to
+# estimates of std.
+c4n_table = {2: 0.7978845608028654,
+             3:  0.886226925452758,
+             4:  0.9213177319235613,
+             5:  0.9399856029866254,
+             6:  0.9515328619481445,
+             7:  0.9593687886998328,
+             8:  0.9650304561473722,
+             9:  0.9693106997139539,
+             10: 0.9726592741215884,
+             11: 0.9753500771452293,
+             12: 0.9775593518547722,
+             13: 0.9794056043142177,
+             14: 0.9809714367555161,
+             15: 0.9823161771626504,
+             16: 0.9834835316158412,
+             17: 0.9845064054718315,
+             18: 0.985410043808079,
+             19: 0.9862141368601935,
+             20: 0.9869342675246552,
+             21: 0.9875829288261562,
+             22: 0.9881702533158311,
+             23: 0.988704545233999,
+             24: 0.9891926749585048,
+             25: 0.9896403755857028,
+             26: 0.9900524688409107,
+             27: 0.990433039209448,
+             28: 0.9907855696217323,
+             29: 0.9911130482419843}
+
+
+def c4(n):
+    """
+    Returns the correction factor to apply to unbias estimates of standard
+    deviation in low sample sizes. This implementation is based on a lookup
+    table for n in [2-29] and returns 1.0 for values >= 30.
+
+    >>> c4(3)
+    0.886226925452758
+    """
+    if n <= 1:
+        raise ValueError("Cannot apply correction for a sample size of 1.")
+    else:
+        return c4n_table[n] if n < 30 else 1.0
+
+
+def isNumber(n):
+    """
+    Check if a value is a number that should be handled differently than
+    nominals.
+    """
+    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
+
+
+def mean(values):
+    """
+    Computes the mean of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the mean of the list of values
+    :rtype: float
+
+    >>> mean([600, 470, 170, 430, 300])
+    394.0
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    return float(sum(values))/len(values)
+
+
+def std(values):
+    """
+    Computes the standard deviation of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the standard deviation of the list of values
+    :rtype: float
+
+    >>> std([600, 470, 170, 430, 300])
+    147.32277488562318
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    meanValue = mean(values)
+    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
+                          values]))/len(values)
+    return sqrt(variance)
+
+
+def weighted_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
+    chosen value where the choice frequency is proportional to the choice
+    weight divided by the sum of all weights. Note, weights must be greater
+    than or equal to 0.
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: A choice sampled from the list according to the weightings
+    :rtype: val
+
+    >>> from random import seed
+    >>> seed(1234)
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> weighted_choice(options)
+    'd'
+    >>> weighted_choice(options)
+    'c'
+    >>> weighted_choice(options)
+    'a'
+
+    .. seealso::
+        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
+    """
+    total = sum(w for c, w in choices)
+    r = uniform(0, total)
+    upto = 0
+    for c, w in choices:
+        if w < 0:
+            raise ValueError('All weights must be greater than or equal to 0.')
+        if upto + w > r:
+            return c
+        upto += w
+
+    # the draw can equal the total (or exceed the running sum by rounding)
+    for c, w in reversed(choices):
+        if w > 0:
+            return c
+    raise ValueError("Choices cannot be an empty list")
+
+
+def most_likely_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], returns the value
+    with the highest weight. Ties are randomly broken.
+
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: the val with the hightest weight
+    :rtype: val
+    """
+    if len(choices) == 0:
+        raise ValueError("Choices cannot be an empty list")
+
+    vals = [w for _, w in choices if w < 0]
+    if len(vals) > 0:
+        raise ValueError('All weights must be greater than or equal to 0')
+
+    updated_choices = [(prob, random(), val) for val, prob in choices]
+    return sorted(updated_choices, reverse=True)[0][2]
-- 
2.43.0


From 78d4200ee96160805dc21b6762f1a6fdbde227be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 05/39] fix: incremental_evaluation evaluates two instances
 more than run_length

---
 concept_formation/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/evaluation.py b/concept_formation/evaluation.py
index 2445373..2356eba 100644
--- a/concept_formation/evaluation.py
+++ b/concept_formation/evaluation.py
@@ -236,7 +236,7 @@ def incremental_evaluation(tree, instances, attr, run_length, runs=1,
 
         row = []
 
-        for i, instance in enumerate(instances[:run_length+2]):
+        for i, instance in enumerate(instances[:run_length]):
             # print(i)
             val = None
             if attr in instance:
-- 
2.43.0


From 634d61de1a1a82d41a3f6b4cc6d40ed12e31fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 06/39] fix: k_cluster fails because cluster_iter yields
 (clustering, heuristic) pairs

---
 concept_formation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index e723d60..c164490 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -80,7 +80,7 @@ def k_cluster(tree, instances, k=3, mod=True):
                          "guaranteed to have at least 2 children.")
 
     clustering = ["Concept" + str(tree.root.concept_id) for i in instances]
-    for c in cluster_iter(tree, instances, mod=mod):
+    for c, _ in cluster_iter(tree, instances, mod=mod):
         if len(set(c)) > k:
             break
         clustering = c
-- 
2.43.0


From 72d175d514fd5deb36397166642204024211307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 07/39] fix: weighted_choice overlooks negative weights behind
 the chosen option

---
 concept_formation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index fc53169..3e59c22 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -138,12 +138,12 @@ def weighted_choice(choices):
     .. seealso::
         :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
     """
+    if any(w < 0 for c, w in choices):
+        raise ValueError('All weights must be greater than or equal to 0.')
     total = sum(w for c, w in choices)
     r = uniform(0, total)
     upto = 0
     for c, w in choices:
-        if w < 0:
-            raise ValueError('All weights must be greater than or equal to 0.')
         if upto + w > r:
             return c
         upto += w
-- 
2.43.0


From 4ca1c45448e4bfb6610d98053a64676d774b701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 08/39] fix: dataset loaders return one instance more than
 requested

---
 concept_formation/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/datasets.py b/concept_formation/datasets.py
index aaf79f9..3ec3f0e 100644
--- a/concept_formation/datasets.py
+++ b/concept_formation/datasets.py
@@ -23,7 +23,7 @@ def _load_json(filename, num_instances=None):
     output = []
     with open(join(module_path, 'data_files', filename)) as dat:
         for idx, lin in enumerate(dat):
-            if num_instances is not None and idx > num_instances:
+            if num_instances is not None and idx >= num_instances:
                 break
             output.append(json.loads(lin.strip('[],\n')))
     return output
-- 
2.43.0


From 39d5b55325aa4565a07a2a4c99d17ef0e92ff9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 09/39] fix: cluster_iter yields nothing when minsplit > 1

---
 concept_formation/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index c164490..f99bbcf 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -430,19 +430,19 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         cluster_assign = []
         child_cluster_assign = []
+        clusters = []
+        for i, c in enumerate(temp_clusters):
+            child = None
+            while (c.parent and c.parent.parent):
+                child = c
+                c = c.parent
+            if labels:
+                clusters.append("Concept" + str(c.concept_id))
+            else:
+                clusters.append(c)
+            cluster_assign.append(c)
+            child_cluster_assign.append(child)
         if nth_split >= minsplit:
-            clusters = []
-            for i, c in enumerate(temp_clusters):
-                child = None
-                while (c.parent and c.parent.parent):
-                    child = c
-                    c = c.parent
-                if labels:
-                    clusters.append("Concept" + str(c.concept_id))
-                else:
-                    clusters.append(c)
-                cluster_assign.append(c)
-                child_cluster_assign.append(child)
             yield clusters, heuristic(cluster_assign, temp_clusters)
 
         split_cus = []
-- 
2.43.0


From 9e22ffa7456dd1eab5935456af624d8fda4e33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 10/39] fix: NameStandardizer does not restore the name of
 variables with plain values

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 802cc94..4eedc26 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -444,7 +444,7 @@ class NameStandardizer(Preprocessor):
                 temp_rel = rename_relation(attr, self.reverse_mapping)
                 new_instance[temp_rel] = instance[attr]
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[name] = instance[attr]
 
         return new_instance
 
-- 
2.43.0


From 303f5e499c58235deee9aea0eae81a20d87288a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 11/39] fix: Trestle checks instances only after preprocessing
 has failed on them

---
 concept_formation/trestle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index 24e2e80..0160f19 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -161,11 +161,11 @@ class TrestleTree(Cobweb3Tree):
         :return: A concept describing the instance
         :rtype: concept
         """
+        self._sanity_check_instance(instance)
         preprocessing = Pipeline(NameStandardizer(self.gensym),
                                  Flattener(), SubComponentProcessor(),
                                  StructureMapper(self.root))
         temp_instance = preprocessing.transform(instance)
-        self._sanity_check_instance(temp_instance)
         return self._cobweb_categorize(temp_instance)
 
     def infer_missing(self, instance, choice_fn="most likely",
@@ -189,6 +189,7 @@ class TrestleTree(Cobweb3Tree):
         :return: A completed instance
         :rtype: instance
         """
+        self._sanity_check_instance(instance)
         preprocessing = Pipeline(NameStandardizer(self.gensym),
                                  Flattener(), SubComponentProcessor(),
                                  StructureMapper(self.root))
@@ -248,9 +249,9 @@ class TrestleTree(Cobweb3Tree):
         :return: A concept describing the instance
         :rtype: CobwebNode
         """
+        self._sanity_check_instance(instance)
         preprocessing = Pipeline(NameStandardizer(self.gensym),
                                  Flattener(), SubComponentProcessor(),
                                  StructureMapper(self.root))
         temp_instance = preprocessing.transform(instance)
-        self._sanity_check_instance(temp_instance)
         return self.cobweb(temp_instance)
-- 
2.43.0


From 131d1aae4d9d65cf917516edc01020832b42f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 12/39] fix: DummyTree lacks the scaling settings its concepts
 rely on

---
 concept_formation/dummy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9492c81..d39b7f2 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -30,6 +30,10 @@ class DummyTree(TrestleTree):
         self.root = Cobweb3Node()
         self.root.tree = self
         self.gensym_counter = 0
+        # probabilities are computed on unscaled values
+        self.scaling = False
+        self.inner_attr_scaling = True
+        self.attr_scales = {}
         self.structure_map_internally = False
 
     def gensym(self):
-- 
2.43.0


From e1a852a32aaef61cf217fdb4816e916f1254de52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 13/39] fix: NominalToNumeric tries to convert component values

---
 concept_formation/preprocessor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 4eedc26..b6b6562 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1596,7 +1596,9 @@ class NominalToNumeric(OneWayPreprocessor):
         new_instance = {}
 
         for a in instance:
-            if a in attrs:
+            if isinstance(instance[a], dict):
+                new_instance[a] = self.transform(instance[a])
+            elif a in attrs:
                 try:
                     val = float(instance[a])
                 except ValueError as e:
@@ -1608,8 +1610,6 @@ class NominalToNumeric(OneWayPreprocessor):
                     elif self.on_fail == "zero":
                         val = 0.0
                 new_instance[a] = val
-            elif isinstance(instance[a], dict):
-                new_instance[a] = self.transform(instance[a])
             else:
                 new_instance[a] = instance[a]
 
-- 
2.43.0


From 27d36017b007c53bb070ad8d36e1c31490954a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 14/39] fix: Sanitizer accepts its spec in any case but ignores
 upper-case ones

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index b6b6562..f9e4e59 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1664,7 +1664,7 @@ class Sanitizer(OneWayPreprocessor):
         if spec.lower() not in ['trestle', 'cobweb', 'cobweb3']:
             raise ValueError(
                 "Invalid Spec: must be one of: 'trestle','cobweb','cobweb3'")
-        self.spec = spec
+        self.spec = spec.lower()
 
     def transform(self, instance):
         return self._sanitize(instance)
-- 
2.43.0


From 6ac0ff66515b6392a8679e0d37a5484c006a5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:53 +0000
Subject: [PATCH 15/39] fix: Tuplizer cannot undo relations containing numbers

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index f9e4e59..65080d4 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -295,7 +295,7 @@ class Tuplizer(Preprocessor):
         """
         if isinstance(relation, tuple):
             relation = [self._stringify_relation(ele) if isinstance(ele, tuple)
-                        else ele for ele in relation]
+                        else str(ele) for ele in relation]
             return "(" + " ".join(relation) + ")"
         else:
             return relation
-- 
2.43.0


From c15b639d919a67a7148b51c6c0d469f2aa8b3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:53 +0000
Subject: [PATCH 16/39] fix: ObjectVariablizer does not rename objects in
 relations

---
 concept_formation/preprocessor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 65080d4..87281a2 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1407,12 +1407,11 @@ class ObjectVariablizer(OneWayPreprocessor):
         """
         Variablize target attributes.
         """
-        return self._variablize(instance)
+        return self._variablize(instance, {})
 
-    def _variablize(self, instance, mapping={}, prefix=None):
+    def _variablize(self, instance, mapping, prefix=None):
         new_instance = {}
 
-        mapping = {}
         relations = []
         if self.targets is None:
             attrs = [k for k in instance.keys()]
@@ -1432,6 +1431,7 @@ class ObjectVariablizer(OneWayPreprocessor):
                 name = attr
                 if attr[0] != '?':
                     name = '?' + attr
+                    mapping[attr] = name
                 new_instance[name] = self._variablize(instance[attr], mapping,
                                                       prefix)
             else:
-- 
2.43.0


From e5894ba707b9e686261a24c16f2f044ef749220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:53 +0000
Subject: [PATCH 17/39] fix: visualize_clusters never matches clusters given as
 concepts

---
 concept_formation/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 9c0352c..2880b24 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -153,7 +153,7 @@ def visualize_clusters(tree, clusters, dst=None, recreate_html=True):
     :type create_html: bool
     """
     if isinstance(clusters[0], CobwebNode):
-        clusters = {str(c.concept_id) for c in clusters}
+        clusters = {"Concept" + str(c.concept_id) for c in clusters}
     else:
         clusters = set(clusters)
 
-- 
2.43.0


From c4671c82c76e108a8fef9c0d90cec0b45085a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:43 +0000
Subject: [PATCH 18/39] fix: ExtractListElements overwrites attributes named
 like its generated objects

---
 concept_formation/preprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 87281a2..b38bc44 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -993,6 +993,8 @@ class ExtractListElements(Preprocessor):
                         new_obj = {"val": el}
 
                     new_att = self.gensym()
+                    while new_att in instance or new_att in new_instance:
+                        new_att = self.gensym()
                     new_instance[new_att] = self._extract(new_obj)
                     new_list.append(new_att)
 
-- 
2.43.0


From 6c6c3047a9cc267c761fd7f57a3cfb202ca5cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:43 +0000
Subject: [PATCH 19/39] fix: ExtractListElements loses attributes of list
 elements that have a 'val'

---
 concept_formation/preprocessor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index b38bc44..3fa1fcc 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -955,10 +955,10 @@ class ExtractListElements(Preprocessor):
                     elements[instance[a][i]] = True
                     obj = self._undo_extract(instance[instance[a][i]])
 
-                    if "val" not in obj:
-                        new_list.append(obj)
-                    else:
+                    if len(obj) == 1 and "val" in obj:
                         new_list.append(obj["val"])
+                    else:
+                        new_list.append(obj)
                 new_instance[a] = new_list
 
         for a in instance:
-- 
2.43.0


From 8cf5ac11e1c7fcf67268624c755e075d0196699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 20/39] fix: ListsToRelations modifies nested components of the
 instance it undoes

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 3fa1fcc..ff656bf 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1113,7 +1113,7 @@ class ListsToRelations(Preprocessor):
                 originals[lname].append((attr, instance[attr]))
 
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[attr] = deepcopy(instance[attr])
 
         for ele in elements:
             new_list = [elements[ele].pop(0)]
-- 
2.43.0


From f9e0be9b468177e3fd955353f2c3535c41162131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 21/39] fix: ListsToRelations fails or loses relations that do
 not form a total order

---
 concept_formation/preprocessor.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ff656bf..561262f 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1115,7 +1115,14 @@ class ListsToRelations(Preprocessor):
             else:
                 new_instance[attr] = deepcopy(instance[attr])
 
-        for ele in elements:
+        for ele in originals:
+            # relations that do not determine a list are left in place
+            if ele not in elements:
+                for attr, val in originals[ele]:
+                    new_instance[attr] = val
+                continue
+
+            order.setdefault(ele, [])
             new_list = [elements[ele].pop(0)]
             change = True
 
@@ -1127,7 +1134,7 @@ class ListsToRelations(Preprocessor):
                 while front is not None:
                     front = None
                     for a, b in order[ele]:
-                        if b == new_list[0]:
+                        if b == new_list[0] and a in elements[ele]:
                             change = True
                             front = (a, b)
                             elements[ele].remove(a)
@@ -1141,7 +1148,7 @@ class ListsToRelations(Preprocessor):
                 while back is not None:
                     back = None
                     for a, b in order[ele]:
-                        if a == new_list[-1]:
+                        if a == new_list[-1] and b in elements[ele]:
                             change = True
                             back = (a, b)
                             elements[ele].remove(b)
@@ -1150,14 +1157,14 @@ class ListsToRelations(Preprocessor):
                     if back is not None:
                         order[ele].remove(back)
 
-            if len(elements[ele]) == 0:
+            if len(elements[ele]) == 0 and len(order[ele]) == 0:
                 path = self._get_path(ele)
                 current = new_instance
                 while len(path) > 1:
                     current = current[path.pop(0)]
                 current[path[0]] = new_list
             else:
-                for attr, val in originals:
+                for attr, val in originals[ele]:
                     new_instance[attr] = val
 
         return new_instance
-- 
2.43.0


From 1fdcad05d5eec81f3101b4e14ef8c5ff095bba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:44 +0000
Subject: [PATCH 22/39] fix: attributes of hidden components are not hidden
 after flattening

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 561262f..aa70dc5 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -706,7 +706,7 @@ class Flattener(Preprocessor):
         for attr in instance:
             original = attr
             if outer_attr is not None:
-                if attr[0] == "_":
+                if attr[0] == "_" or outer_attr[0] == "_":
                     attr = ('_', (attr, outer_attr))
                 else:
                     attr = (attr, outer_attr)
-- 
2.43.0


From 155973bd62baf28a60cfd17909c74c3aa8b76229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:44 +0000
Subject: [PATCH 23/39] fix: SubComponentProcessor loses the container of
 objects in constant components

---
 concept_formation/preprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index aa70dc5..02d16cd 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1350,7 +1350,7 @@ class SubComponentProcessor(Preprocessor):
         inner = None
         relations = []
 
-        while len(attr) == 2:
+        while isinstance(attr, tuple) and len(attr) == 2:
             a, attr = attr
             if isinstance(a, str) and len(a) > 0 and a[0] == '?':
                 if last_comp is not None:
@@ -1358,8 +1358,7 @@ class SubComponentProcessor(Preprocessor):
                 last_comp = a
                 inner = self._extract_attr(attr)
 
-        if last_comp is not None and (isinstance(attr, str) and len(attr) > 0
-                                      and attr[0] == '?'):
+        if last_comp is not None and isinstance(attr, str):
             relations.append(('has-component', inner, last_comp))
 
         return relations
-- 
2.43.0


From f7148c8f89da4da3f984dc5c2caefdf092775a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:32 +0000
Subject: [PATCH 24/39] fix: inferred objects are confused with the instance's
 own objects

---
 concept_formation/trestle.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index 0160f19..cbd4617 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -11,6 +11,8 @@ from __future__ import division
 from concept_formation.cobweb3 import Cobweb3Tree
 from concept_formation.cobweb3 import Cobweb3Node
 from concept_formation.structure_mapper import StructureMapper
+from concept_formation.structure_mapper import get_component_names
+from concept_formation.structure_mapper import rename_flat
 from concept_formation.preprocessor import SubComponentProcessor
 from concept_formation.preprocessor import Flattener
 from concept_formation.preprocessor import Pipeline
@@ -190,11 +192,13 @@ class TrestleTree(Cobweb3Tree):
         :rtype: instance
         """
         self._sanity_check_instance(instance)
-        preprocessing = Pipeline(NameStandardizer(self.gensym),
+        standardizer = NameStandardizer(self.gensym)
+        preprocessing = Pipeline(standardizer,
                                  Flattener(), SubComponentProcessor(),
                                  StructureMapper(self.root))
 
         temp_instance = preprocessing.transform(instance)
+        given_names = get_component_names(temp_instance)
         concept = self._cobweb_categorize(temp_instance)
 
         for attr in concept.attrs('all'):
@@ -204,6 +208,16 @@ class TrestleTree(Cobweb3Tree):
             if val is not None:
                 temp_instance[attr] = val
 
+        # inferred objects must not be confused with the instance's own
+        own_names = set(standardizer.reverse_mapping.values())
+        clashes = {}
+        for name in get_component_names(temp_instance):
+            if name in own_names and name not in given_names:
+                clashes[name] = self.gensym()
+                while clashes[name] in own_names:
+                    clashes[name] = self.gensym()
+        temp_instance = rename_flat(temp_instance, clashes)
+
         temp_instance = preprocessing.undo_transform(temp_instance)
         return temp_instance
 
-- 
2.43.0


From 178c2b59f78c6c1eba47e7e1fbc653a65ebd6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:24 +0000
Subject: [PATCH 25/39] fix: undoing the flattening fails where an attribute
 has a plain value and parts

---
 concept_formation/preprocessor.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 02d16cd..7e393b3 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -627,14 +627,24 @@ class Flattener(Preprocessor):
         {'l1': {'l2': {'l3': {'l4': 1}}}}
         """
         temp = {}
+        unary = []
         for attr in instance:
             if (isinstance(attr, tuple) and len(attr) == 2):
-                path = self._get_path(attr)
-                curr = temp
-                for sa in path[:-1]:
-                    if sa not in curr:
-                        curr[sa] = {}
-                    curr = curr[sa]
+                unary.append((self._get_path(attr), attr))
+            else:
+                temp[attr] = instance[attr]
+
+        # outer attributes first, so that an attribute that has a plain value
+        # is known before anything that would have to be put inside of it
+        for path, attr in sorted(unary, key=lambda x: len(x[0])):
+            curr = temp
+            for sa in path[:-1]:
+                if sa not in curr:
+                    curr[sa] = {}
+                curr = curr[sa]
+                if not isinstance(curr, dict):
+                    break
+            if isinstance(curr, dict):
                 curr[path[-1]] = instance[attr]
             else:
                 temp[attr] = instance[attr]
-- 
2.43.0


From fa7d86112121af3a98e4dac33fa5a70ae06605a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:42 +0000
Subject: [PATCH 26/39] fix: DummyTree generates object names that its unmapped
 instances already use

---
 concept_formation/dummy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index d39b7f2..a8255fb 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -11,6 +11,7 @@ from __future__ import division
 from concept_formation.cobweb3 import Cobweb3Node
 from concept_formation.trestle import TrestleTree
 from concept_formation.structure_mapper import StructureMapper
+from concept_formation.structure_mapper import get_component_names
 from concept_formation.preprocessor import SubComponentProcessor
 from concept_formation.preprocessor import Flattener
 from concept_formation.preprocessor import Pipeline
@@ -43,7 +44,11 @@ class DummyTree(TrestleTree):
         :return: a unique object name
         :rtype: '?o'+counter
         """
+        # without mapping, instances are added under their own object names
+        names = get_component_names(self.root.av_counts)
         self.gensym_counter += 1
+        while '?o' + str(self.gensym_counter) in names:
+            self.gensym_counter += 1
         return '?o' + str(self.gensym_counter)
 
     def ifit(self, instance, do_mapping=False):
-- 
2.43.0


From b31cc1ebac8a465d9693ea9d1a81a317f674c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:13 +0000
Subject: [PATCH 27/39] fix: flat_match does not accept an initial mapping
 given as a dict

---
 concept_formation/structure_mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/concept_formation/structure_mapper.py b/concept_formation/structure_mapper.py
index eeaa3f2..4238727 100644
--- a/concept_formation/structure_mapper.py
+++ b/concept_formation/structure_mapper.py
@@ -207,7 +207,8 @@ def flat_match(target, base, initial_mapping=None):
     if initial_mapping is None:
         initial_mapping = hungarian_mapping(inames, cnames, target, base)
     else:
-        initial_mapping = frozenset([(a, v) for a, v in initial_mapping if a in
+        initial_mapping = frozenset([(a, v) for a, v in
+                                     dict(initial_mapping).items() if a in
                                      inames and v in cnames])
 
     unmapped = cnames - frozenset(dict(initial_mapping).values())
-- 
2.43.0


From f62ad58a82dce5da8f528e14c27c9148a3120cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:37 +0000
Subject: [PATCH 28/39] fix: SubComponentProcessor loses or recurses on objects
 with several containers

---
 concept_formation/preprocessor.py | 32 ++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 7e393b3..98c25a6 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1299,14 +1299,36 @@ class SubComponentProcessor(Preprocessor):
         """
         return self._embed_sub_objects(instance)
 
+    def _is_has_component(self, attr):
+        return (isinstance(attr, tuple) and len(attr) == 3 and
+                attr[0] == 'has-component')
+
+    def _contains_itself(self, obj, so_mapping):
+        seen = set()
+        containers = [so_mapping[obj][1]]
+        while containers:
+            for name in get_attribute_components(containers.pop(), False):
+                if name == obj:
+                    return True
+                if name in so_mapping and name not in seen:
+                    seen.add(name)
+                    containers.append(so_mapping[name][1])
+        return False
+
     def _embed_sub_objects(self, instance):
-        so_mapping = {attr[2]: (attr[2], attr[1]) for attr in instance
-                      if (isinstance(attr, tuple) and len(attr) == 3 and
-                          attr[0] == 'has-component')}
+        containers = {}
+        for attr in instance:
+            if self._is_has_component(attr):
+                containers.setdefault(attr[2], []).append(attr[1])
+
+        so_mapping = {obj: (obj, containers[obj][0]) for obj in containers
+                      if len(containers[obj]) == 1}
+        so_mapping = {obj: so_mapping[obj] for obj in so_mapping
+                      if not self._contains_itself(obj, so_mapping)}
 
         return {self._rename_embedding(attr, so_mapping): instance[attr] for
-                attr in instance if not (isinstance(attr, tuple) and len(attr)
-                                         == 3 and attr[0] == 'has-component')}
+                attr in instance if not (self._is_has_component(attr) and
+                                         attr[2] in so_mapping)}
 
     def _rename_embedding(self, attr, so_mapping):
         if attr in so_mapping:
-- 
2.43.0


From fdea627b159e03a8ce6af5e064ae12f44c698895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 29/39] fix: Tuplizer fails on relations that start with a
 relation

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 98c25a6..6093361 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -260,7 +260,7 @@ class Tuplizer(Preprocessor):
         for val in relation.split(' '):
             end = 0
 
-            if val[0] == '(':
+            while val[0] == '(':
                 stack.append([])
                 val = val[1:]
 
-- 
2.43.0


From 8edada4f5b92c3918fc151e2ca9c3baad3bb45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:09 +0000
Subject: [PATCH 30/39] fix: NominalToNumeric ignores its on_fail policy for
 values that are not strings

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 6093361..ba6f940 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1641,7 +1641,7 @@ class NominalToNumeric(OneWayPreprocessor):
             elif a in attrs:
                 try:
                     val = float(instance[a])
-                except ValueError as e:
+                except (ValueError, TypeError) as e:
                     if self.on_fail == "break":
                         raise e
                         return None
-- 
2.43.0


From 8fecdc70088e0f52824c8d58a65e8eddd9ab5534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:09 +0000
Subject: [PATCH 31/39] fix: ObjectVariablizer overlooks targets inside
 components that are no targets

---
 concept_formation/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ba6f940..6967c30 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1474,6 +1474,9 @@ class ObjectVariablizer(OneWayPreprocessor):
                     mapping[attr] = name
                 new_instance[name] = self._variablize(instance[attr], mapping,
                                                       prefix)
+            elif isinstance(instance[attr], dict):
+                new_instance[attr] = self._variablize(instance[attr], mapping,
+                                                      prefix)
             else:
                 new_instance[attr] = instance[attr]
 
-- 
2.43.0


From d04f98a59367c30b599dd91b696cb7fd18637568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:46 +0000
Subject: [PATCH 32/39] fix: Sanitizer leaves tuple values that cannot be
 hashed

---
 concept_formation/preprocessor.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 6967c30..7bf4a53 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1726,6 +1726,14 @@ class Sanitizer(OneWayPreprocessor):
         else:
             return str(d)
 
+    def _is_hashable(self, val):
+        # tuples are Hashable even if they contain something that is not
+        try:
+            hash(val)
+        except TypeError:
+            return False
+        return True
+
     def _sanitize_tuple(self, tup):
         ret = []
         for v in tup:
@@ -1747,7 +1755,7 @@ class Sanitizer(OneWayPreprocessor):
                           'is clobbering an existing value')
 
                 if self.spec == 'trestle':
-                    if isinstance(val, collectionsAbc.Hashable):
+                    if self._is_hashable(val):
 
                         ret[str(attr)] = val
                     elif isinstance(val, dict):
@@ -1755,11 +1763,11 @@ class Sanitizer(OneWayPreprocessor):
                     else:
                         ret[str(attr)] = self._cob_str(val)
                 else:
-                    ret[str(attr)] = val if isinstance(
-                        val, collectionsAbc.Hashable) else self._cob_str(val)
+                    ret[str(attr)] = (val if self._is_hashable(val) else
+                                      self._cob_str(val))
             if isinstance(attr, str):
                 if self.spec == 'trestle':
-                    if isinstance(val, collectionsAbc.Hashable):
+                    if self._is_hashable(val):
 
                         ret[attr] = val
                     elif isinstance(val, dict):
@@ -1767,9 +1775,8 @@ class Sanitizer(OneWayPreprocessor):
                     else:
                         ret[attr] = self._cob_str(val)
                 else:
-                    ret[attr] = val if isinstance(
-
-                        val, collectionsAbc.Hashable) else self._cob_str(val)
+                    ret[attr] = (val if self._is_hashable(val) else
+                                 self._cob_str(val))
 
             if isinstance(attr, tuple):
                 if self.spec == 'trestle':
@@ -1778,13 +1785,13 @@ class Sanitizer(OneWayPreprocessor):
                         print('Sanitizing', attr,
                               'is clobbering an existing vlaue')
 
-                    if isinstance(val, collectionsAbc.Hashable):
+                    if self._is_hashable(val):
                         ret[san_tup] = val
                     elif isinstance(val, dict):
                         ret[san_tup] = self._sanitize(val)
                     else:
                         ret[san_tup] = self._cob_str(val)
                 else:
-                    ret[attr] = val if isinstance(
-                        val, collectionsAbc.Hashable) else self._cob_str(val)
+                    ret[attr] = (val if self._is_hashable(val) else
+                                 self._cob_str(val))
         return ret
-- 
2.43.0


From 355e520d236e7b461939043a8111eae7158c1650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:56 +0000
Subject: [PATCH 33/39] fix: cluster_split_search returns labels instead of
 concepts when nothing is finite

---
 concept_formation/cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index f99bbcf..96e7890 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -379,6 +379,7 @@ def cluster_split_search(tree, instances, heuristic=CU, minsplit=1, maxsplit=1,
                            minsplit=minsplit, maxsplit=maxsplit, mod=mod,
                            labels=False)
     min_h = (-1, float('inf'), ["Concept" + str(tree.root.concept_id)
+                                if labels else tree.root
                                 for i in range(len(instances))])
     split = minsplit
     if verbose:
-- 
2.43.0


From 817a37f91584e91100e4807f4dcc7817d48400bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:54 +0000
Subject: [PATCH 34/39] fix: category utility of empty concepts divides by
 zero, so untrained trees cannot be clustered

---
 concept_formation/cobweb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 490e338..6c04062 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -435,7 +435,7 @@ class CobwebNode(object):
                  children.
         :rtype: float
         """
-        if len(self.children) == 0:
+        if len(self.children) == 0 or self.count == 0:
             return 0.0
 
         child_correct_guesses = 0.0
-- 
2.43.0


From c32ca3c16aaaffa0bd9b46aa32604232a0ffecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:57 +0000
Subject: [PATCH 35/39] fix: DummyTree lifts sub-components before flattening,
 so inference overwrites given values

---
 concept_formation/dummy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index a8255fb..780d67f 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -74,7 +74,7 @@ class DummyTree(TrestleTree):
                                 Flattener(), SubComponentProcessor(),
                                 StructureMapper(self.root))
         else:
-            pipeline = Pipeline(SubComponentProcessor(), Flattener())
+            pipeline = Pipeline(Flattener(), SubComponentProcessor())
         temp_instance = pipeline.transform(instance)
         self.root.increment_counts(temp_instance)
         return self.root
-- 
2.43.0


From 896bb5ac4228e60f9db7df0a6d575cd729019469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:34 +0000
Subject: [PATCH 36/39] fix: keep the original line endings of utils.py

---
 concept_formation/utils.py | 368 ++++++++++++++++++-------------------
 1 file changed, 184 insertions(+), 184 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 3e59c22..df52c20 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -1,184 +1,184 @@
-"""
-The utils module contains a number of utility functions used by other modules.
-"""
-
-from __future__ import print_function
-from __future__ import unicode_literals
-from __future__ import absolute_import
-from __future__ import division
-from numbers import Number
-from random import uniform
-from random import random
-from math import sqrt
-from math import isnan
-
-
-# A hashtable of values to use in the c4(n) function to apply corrections to
-# estimates of std.
-c4n_table = {2: 0.7978845608028654,
-             3:  0.886226925452758,
-             4:  0.9213177319235613,
-             5:  0.9399856029866254,
-             6:  0.9515328619481445,
-             7:  0.9593687886998328,
-             8:  0.9650304561473722,
-             9:  0.9693106997139539,
-             10: 0.9726592741215884,
-             11: 0.9753500771452293,
-             12: 0.9775593518547722,
-             13: 0.9794056043142177,
-             14: 0.9809714367555161,
-             15: 0.9823161771626504,
-             16: 0.9834835316158412,
-             17: 0.9845064054718315,
-             18: 0.985410043808079,
-             19: 0.9862141368601935,
-             20: 0.9869342675246552,
-             21: 0.9875829288261562,
-             22: 0.9881702533158311,
-             23: 0.988704545233999,
-             24: 0.9891926749585048,
-             25: 0.9896403755857028,
-             26: 0.9900524688409107,
-             27: 0.990433039209448,
-             28: 0.9907855696217323,
-             29: 0.9911130482419843}
-
-
-def c4(n):
-    """
-    Returns the correction factor to apply to unbias estimates of standard
-    deviation in low sample sizes. This implementation is based on a lookup
-    table for n in [2-29] and returns 1.0 for values >= 30.
-
-    >>> c4(3)
-    0.886226925452758
-    """
-    if n <= 1:
-        raise ValueError("Cannot apply correction for a sample size of 1.")
-    else:
-        return c4n_table[n] if n < 30 else 1.0
-
-
-def isNumber(n):
-    """
-    Check if a value is a number that should be handled differently than
-    nominals.
-    """
-    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
-
-
-def mean(values):
-    """
-    Computes the mean of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the mean of the list of values
-    :rtype: float
-
-    >>> mean([600, 470, 170, 430, 300])
-    394.0
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    return float(sum(values))/len(values)
-
-
-def std(values):
-    """
-    Computes the standard deviation of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the standard deviation of the list of values
-    :rtype: float
-
-    >>> std([600, 470, 170, 430, 300])
-    147.32277488562318
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    meanValue = mean(values)
-    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
-                          values]))/len(values)
-    return sqrt(variance)
-
-
-def weighted_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
-    chosen value where the choice frequency is proportional to the choice
-    weight divided by the sum of all weights. Note, weights must be greater
-    than or equal to 0.
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: A choice sampled from the list according to the weightings
-    :rtype: val
-
-    >>> from random import seed
-    >>> seed(1234)
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> weighted_choice(options)
-    'd'
-    >>> weighted_choice(options)
-    'c'
-    >>> weighted_choice(options)
-    'a'
-
-    .. seealso::
-        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
-    """
-    if any(w < 0 for c, w in choices):
-        raise ValueError('All weights must be greater than or equal to 0.')
-    total = sum(w for c, w in choices)
-    r = uniform(0, total)
-    upto = 0
-    for c, w in choices:
-        if upto + w > r:
-            return c
-        upto += w
-
-    # the draw can equal the total (or exceed the running sum by rounding)
-    for c, w in reversed(choices):
-        if w > 0:
-            return c
-    raise ValueError("Choices cannot be an empty list")
-
-
-def most_likely_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], returns the value
-    with the highest weight. Ties are randomly broken.
-
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: the val with the hightest weight
-    :rtype: val
-    """
-    if len(choices) == 0:
-        raise ValueError("Choices cannot be an empty list")
-
-    vals = [w for _, w in choices if w < 0]
-    if len(vals) > 0:
-        raise ValueError('All weights must be greater than or equal to 0')
-
-    updated_choices = [(prob, random(), val) for val, prob in choices]
-    return sorted(updated_choices, reverse=True)[0][2]
+"""
+The utils module contains a number of utility functions used by other modules.
+"""
+
+from __future__ import print_function
+from __future__ import unicode_literals
+from __future__ import absolute_import
+from __future__ import division
+from numbers import Number
+from random import uniform
+from random import random
+from math import sqrt
+from math import isnan
+
+
+# A hashtable of values to use in the c4(n) function to apply corrections to
+# estimates of std.
+c4n_table = {2: 0.7978845608028654,
+             3:  0.886226925452758,
+             4:  0.9213177319235613,
+             5:  0.9399856029866254,
+             6:  0.9515328619481445,
+             7:  0.9593687886998328,
+             8:  0.9650304561473722,
+             9:  0.9693106997139539,
+             10: 0.9726592741215884,
+             11: 0.9753500771452293,
+             12: 0.9775593518547722,
+             13: 0.9794056043142177,
+             14: 0.9809714367555161,
+             15: 0.9823161771626504,
+             16: 0.9834835316158412,
+             17: 0.9845064054718315,
+             18: 0.985410043808079,
+             19: 0.9862141368601935,
+             20: 0.9869342675246552,
+             21: 0.9875829288261562,
+             22: 0.9881702533158311,
+             23: 0.988704545233999,
+             24: 0.9891926749585048,
+             25: 0.9896403755857028,
+             26: 0.9900524688409107,
+             27: 0.990433039209448,
+             28: 0.9907855696217323,
+             29: 0.9911130482419843}
+
+
+def c4(n):
+    """
+    Returns the correction factor to apply to unbias estimates of standard
+    deviation in low sample sizes. This implementation is based on a lookup
+    table for n in [2-29] and returns 1.0 for values >= 30.
+
+    >>> c4(3)
+    0.886226925452758
+    """
+    if n <= 1:
+        raise ValueError("Cannot apply correction for a sample size of 1.")
+    else:
+        return c4n_table[n] if n < 30 else 1.0
+
+
+def isNumber(n):
+    """
+    Check if a value is a number that should be handled differently than
+    nominals.
+    """
+    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
+
+
+def mean(values):
+    """
+    Computes the mean of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the mean of the list of values
+    :rtype: float
+
+    >>> mean([600, 470, 170, 430, 300])
+    394.0
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    return float(sum(values))/len(values)
+
+
+def std(values):
+    """
+    Computes the standard deviation of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the standard deviation of the list of values
+    :rtype: float
+
+    >>> std([600, 470, 170, 430, 300])
+    147.32277488562318
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    meanValue = mean(values)
+    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
+                          values]))/len(values)
+    return sqrt(variance)
+
+
+def weighted_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
+    chosen value where the choice frequency is proportional to the choice
+    weight divided by the sum of all weights. Note, weights must be greater
+    than or equal to 0.
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: A choice sampled from the list according to the weightings
+    :rtype: val
+
+    >>> from random import seed
+    >>> seed(1234)
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> weighted_choice(options)
+    'd'
+    >>> weighted_choice(options)
+    'c'
+    >>> weighted_choice(options)
+    'a'
+
+    .. seealso::
+        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
+    """
+    if any(w < 0 for c, w in choices):
+        raise ValueError('All weights must be greater than or equal to 0.')
+    total = sum(w for c, w in choices)
+    r = uniform(0, total)
+    upto = 0
+    for c, w in choices:
+        if upto + w > r:
+            return c
+        upto += w
+
+    # the draw can equal the total (or exceed the running sum by rounding)
+    for c, w in reversed(choices):
+        if w > 0:
+            return c
+    raise ValueError("Choices cannot be an empty list")
+
+
+def most_likely_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], returns the value
+    with the highest weight. Ties are randomly broken.
+
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: the val with the hightest weight
+    :rtype: val
+    """
+    if len(choices) == 0:
+        raise ValueError("Choices cannot be an empty list")
+
+    vals = [w for _, w in choices if w < 0]
+    if len(vals) > 0:
+        raise ValueError('All weights must be greater than or equal to 0')
+
+    updated_choices = [(prob, random(), val) for val, prob in choices]
+    return sorted(updated_choices, reverse=True)[0][2]
-- 
2.43.0


From 86724ec54cc7ab77c6b343677961b06bce03a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:47 +0000
Subject: [PATCH 37/39] fix: objects inside hidden components get visible
 has-component relations

---
 concept_formation/preprocessor.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 7bf4a53..1b2f114 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1303,6 +1303,12 @@ class SubComponentProcessor(Preprocessor):
         return (isinstance(attr, tuple) and len(attr) == 3 and
                 attr[0] == 'has-component')
 
+    def _unhide_has_component(self, attr):
+        if (isinstance(attr, tuple) and len(attr) == 2 and attr[0] == '_' and
+                self._is_has_component(attr[1])):
+            return attr[1]
+        return attr
+
     def _contains_itself(self, obj, so_mapping):
         seen = set()
         containers = [so_mapping[obj][1]]
@@ -1318,17 +1324,20 @@ class SubComponentProcessor(Preprocessor):
     def _embed_sub_objects(self, instance):
         containers = {}
         for attr in instance:
-            if self._is_has_component(attr):
-                containers.setdefault(attr[2], []).append(attr[1])
+            rel = self._unhide_has_component(attr)
+            if self._is_has_component(rel):
+                if rel[1] not in containers.setdefault(rel[2], []):
+                    containers[rel[2]].append(rel[1])
 
         so_mapping = {obj: (obj, containers[obj][0]) for obj in containers
                       if len(containers[obj]) == 1}
         so_mapping = {obj: so_mapping[obj] for obj in so_mapping
                       if not self._contains_itself(obj, so_mapping)}
 
+        rels = {attr: self._unhide_has_component(attr) for attr in instance}
         return {self._rename_embedding(attr, so_mapping): instance[attr] for
-                attr in instance if not (self._is_has_component(attr) and
-                                         attr[2] in so_mapping)}
+                attr in instance if not (self._is_has_component(rels[attr]) and
+                                         rels[attr][2] in so_mapping)}
 
     def _rename_embedding(self, attr, so_mapping):
         if attr in so_mapping:
@@ -1348,9 +1357,15 @@ class SubComponentProcessor(Preprocessor):
 
     def _extract_sub_objects(self, instance):
         new_instance = {}
+        visible = set(r for a in instance
+                      if isinstance(a, tuple) and a[:1] != ('_',)
+                      for r in self._get_has_components(a))
         for a in instance:
             rels = self._get_has_components(a)
             for r in rels:
+                # components only known from hidden attributes stay hidden
+                if r not in visible:
+                    r = ('_', r)
                 new_instance[r] = True
             new_a = self._extract_attr(a)
             new_instance[new_a] = instance[a]
-- 
2.43.0


From 6fbf6b6cf9dbed5886d1622acef3ac4bc5f62d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:32 +0000
Subject: [PATCH 38/39] fix: concepts of a tree restored in another process get
 duplicate names

---
 concept_formation/cobweb.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 6c04062..77bc492 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -959,6 +959,17 @@ class CobwebNode(object):
         return self.__class__._counter
         # return str(self.__class__._counter)
 
+    def __setstate__(self, state):
+        """
+        Restore a copied or pickled concept.
+
+        A concept that was pickled in another process keeps its id, so the
+        class _counter must not fall behind it.
+        """
+        self.__dict__.update(state)
+        self.__class__._counter = max(self.__class__._counter,
+                                      self.concept_id)
+
     def __str__(self):
         """
         Call :meth:`CobwebNode.pretty_print`
-- 
2.43.0


From 3ef60823900cbb71d6940d5c8577233e5e8be3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:32 +0000
Subject: [PATCH 39/39] fix: log likelihood of a numeric outlier in a large
 concept raises an exception

---
 concept_formation/cobweb3.py          |  5 +++--
 concept_formation/continuous_value.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 6926c0c..93b5079 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -510,9 +510,10 @@ class Cobweb3Node(CobwebNode):
                         n2 = child_leaf.av_counts[attr][cv_key]
                         pn1 = n1.num / self.count
                         pn2 = n2.num / child_leaf.count
-                        p = pn1 * pn2 * n1.integral_of_gaussian_product(n2)
+                        p = pn1 * pn2
                         if p > 0:
-                            ll += log(p)
+                            ll += (log(p) +
+                                   n1.log_integral_of_gaussian_product(n2))
                         else:
                             raise Exception("p should be greater than 0")
                 else:
diff --git a/concept_formation/continuous_value.py b/concept_formation/continuous_value.py
index 39776b7..75d7464 100644
--- a/concept_formation/continuous_value.py
+++ b/concept_formation/continuous_value.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 from __future__ import division
 from math import sqrt
 from math import exp
+from math import log
 from math import pi
 
 from concept_formation.utils import c4
@@ -206,6 +207,14 @@ class ContinuousValue():
         Use formula computed here:
             `<http://www.tina-vision.net/docs/memos/2003-003.pdf>`_
         """
+        return exp(self.log_integral_of_gaussian_product(other))
+
+    def log_integral_of_gaussian_product(self, other):
+        """
+        Computes the logarithm of :meth:`integral_of_gaussian_product`, also
+        when the gaussians are so far apart that the integral itself is too
+        small to be represented.
+        """
         mu1 = self.unbiased_mean()
         mu2 = other.unbiased_mean()
         sd1 = self.unbiased_std()
@@ -214,9 +223,9 @@ class ContinuousValue():
         noisy_sd_squared = 1 / (4 * pi)
         sd1 = sqrt(sd1 * sd1 + noisy_sd_squared)
         sd2 = sqrt(sd2 * sd2 + noisy_sd_squared)
-        return ((1 / sqrt(2 * pi * (sd1 * sd1 + sd2 * sd2))) *
-                exp(-1 * (mu1 - mu2) * (mu1 - mu2) /
-                    (2 * (sd1 * sd1 + sd2 * sd2))))
+        return (-log(sqrt(2 * pi * (sd1 * sd1 + sd2 * sd2))) -
+                (mu1 - mu2) * (mu1 - mu2) /
+                (2 * (sd1 * sd1 + sd2 * sd2)))
 
     def output_json(self):
         return {
-- 
2.43.0

