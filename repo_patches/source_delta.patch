From d3cb927b1291378b9618ca538014c7d5464ec7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 01/38] fix: use the shortened laminations when counting
 intersections with peripheral components

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 439c4d0..1fb9f51 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -326,8 +326,8 @@ class IntegralLamination(Lamination):
         
         # Peripheral components.
         for _, (multiplicity, vertex) in short.peripheral_components().items():
-            for lamination in laminations:
-                intersection += multiplicity * sum(max(-lamination(edge), 0) + max(-lamination.left_weight(edge), 0) for edge in vertex)
+            for short_lamination in short_laminations:
+                intersection += multiplicity * sum(max(-short_lamination(edge), 0) + max(-short_lamination.left_weight(edge), 0) for edge in vertex)
         
         # Parallel components.
         for component, (multiplicity, p) in short.parallel_components().items():
-- 
2.43.0


From ef5eead692c5d898a0022d77c5192aee9d8f757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 02/38] fix: look for the value itself when testing membership
 of a straight line program

---
 curver/kernel/structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/structures.py b/curver/kernel/structures.py
index b8131fa..ea93e95 100644
--- a/curver/kernel/structures.py
+++ b/curver/kernel/structures.py
@@ -63,7 +63,6 @@ class StraightLineProgram:
             raise ValueError('Unknown data')
         
         self.graph = [tuple(children) for children in data]
-        self.sinks = [item.value for lst in self.graph for item in lst if isinstance(item, Terminal)]  # !?!
         
         # If w is a descendant of v then w appears before v in self.indices.
         self.indices = []
@@ -79,6 +78,8 @@ class StraightLineProgram:
             self.indices.append(v)
         dfs(0)
         
+        self.sinks = [item.value for index in self.indices for item in self(index) if isinstance(item, Terminal)]
+        
         self.num_children = [None] * self.size()
         for index in self.indices:
             self.num_children[index] = sum(1 if isinstance(item, Terminal) else self.num_children[item] for item in self(index))
@@ -173,7 +174,7 @@ class StraightLineProgram:
         return self * other
     
     def __contains__(self, value):
-        return Terminal(value) in self.sinks
+        return value in self.sinks
     
     def reverse(self):
         ''' Return the StraightLineProgram that returns self[::-1]. '''
-- 
2.43.0


From a5479872d8607b75ade4facfd806006a46e3d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 03/38] fix: reject mapping class words containing unknown
 characters, stray integers or unbalanced parentheses

---
 curver/kernel/mappingclassgroup.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 780714a..c0d0391 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -12,6 +12,7 @@ IS_NAME = re.compile(r'[a-z]\w*$')
 IS_INT = re.compile(r'[+-]?\d+')
 TOKENS = re.compile(r'[+-]?\d+|\^|\(|\)|[\w_\.]+')
 LEADING_DOTS = re.compile(r'^\.*')
+LIST_PUNCTUATION = re.compile(r"[\[\]',]")  # As in the str of a list of names.
 
 class MappingClassGroup:
     ''' This represents a triangulation along with a collection of named mapping classes on it.
@@ -123,10 +124,15 @@ class MappingClassGroup:
             
             stack = [[]]
             tokens = TOKENS.findall(word)  # Break word into tokens.
+            if sum(len(token) for token in tokens) < len(LIST_PUNCTUATION.sub('', word)):
+                raise ValueError(f'{data} contains unknown characters')
             for index, token in enumerate(tokens):
                 if IS_INT.match(token):
-                    pass
+                    if tokens[index-1] != '^':  # There is always a previous token since the first one is '('.
+                        raise ValueError(f'Integer {token} is not the power of a ^')
                 elif token == '^':
+                    if not stack[-1]:
+                        raise ValueError('^ not preceded by a word')
                     try:
                         power = int(tokens[index+1])
                     except (ValueError, IndexError) as err:
@@ -138,7 +144,7 @@ class MappingClassGroup:
                     stack.append(stack[-1][-1])
                 elif token == ')':
                     stack.pop()
-                    if not stack:
+                    if not stack or (len(stack) == 1 and index != len(tokens) - 1):  # Only the last ) closes the initial (.
                         raise ValueError('Unbalanced parentheses')
                     stack[-1][-1] = SLP.sum(stack[-1][-1])
                 else:
-- 
2.43.0


From 6a09491f6b6f488ad6592b03eb8159c84f398479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 04/38] fix: do not modify the dictionary of mapping classes
 given to MappingClassGroup

---
 curver/kernel/mappingclassgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index c0d0391..362aaea 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -22,7 +22,7 @@ class MappingClassGroup:
     Most importantly this object can construct a mapping class from a string descriptor.
     See self.mapping_class for additional information. '''
     def __init__(self, pos_mapping_classes=None, curves=None, arcs=None):
-        if pos_mapping_classes is None: pos_mapping_classes = dict()
+        pos_mapping_classes = dict() if pos_mapping_classes is None else dict(pos_mapping_classes)  # Copy since we will add to this.
         if curves is None: curves = dict()
         if arcs is None: arcs = dict()
         
-- 
2.43.0


From a3f240288a150403f37c5f8b606d5a998491ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 05/38] fix: use a curve that exists in load('S_1_2p')

---
 curver/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/load.py b/curver/load.py
index 2e3883e..f4fa9c6 100644
--- a/curver/load.py
+++ b/curver/load.py
@@ -273,7 +273,7 @@ def load_old(surface):
         return curver.kernel.MappingClassGroup(curves={
             'a': S.curves['a_0'],
             'b': S.curves['b_0'],
-            'c': S.curves['p_0'],
+            'c': S.curves['p_1'],
             })
     elif surface == 'S_2_1':
         S = load(2, 1)
-- 
2.43.0


From 57a905fb7d78ea9ba103c11aff04197bf139c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 06/38] fix: count repeated laminations, and do not exhaust
 iterators, when summing an iterable of laminations

---
 curver/kernel/triangulation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 8b5f736..d0aeb4f 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -559,16 +559,16 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        # Convert iterable to dictionary of multiplicities.
+        if not isinstance(laminations, dict):
+            laminations = Counter(laminations)
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             return NotImplemented
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
@@ -587,16 +587,16 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        # Convert iterable to dictionary of multiplicities.
+        if not isinstance(laminations, dict):
+            laminations = Counter(laminations)
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             return NotImplemented
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
-- 
2.43.0


From 7662876ecfe68371745837bcf76789c4fee39125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 07/38] fix: integer multiples of integral laminations are
 integral laminations

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 1fb9f51..23f734c 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -285,7 +285,7 @@ class IntegralLamination(Lamination):
         assert other >= 0
         
         if other == 0:
-            new_class = Lamination
+            new_class = IntegralLamination
         elif other == 1:
             new_class = self.__class__
         elif isinstance(self, curver.kernel.MultiArc):  # or Arc.
@@ -293,7 +293,7 @@ class IntegralLamination(Lamination):
         elif isinstance(self, curver.kernel.MultiCurve):  # or Curve.
             new_class = curver.kernel.MultiCurve
         else:
-            new_class = Lamination
+            new_class = IntegralLamination
         
         geometric = [other * x for x in self]
         # TODO: 3) Could save components if they have already been computed.
-- 
2.43.0


From d8dba3949db9f5cb26731d3e8f04377040568859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 08/38] fix: laminations given by tuples and lists of the same
 weights are equal

---
 curver/kernel/triangulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index d0aeb4f..ed66b6e 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -518,6 +518,8 @@ class Triangulation:
         
         if isinstance(weights, dict):
             weights = [weights.get(i, 0) for i in range(self.zeta)]
+        else:
+            weights = list(weights)  # Also takes a copy.
         
         assert len(weights) == self.zeta, f'Expected {self.zeta} weights but got {len(weights)}'
         # Should check all dual weights.
-- 
2.43.0


From 9396766f75ab7654fd1043c353f435c45f7f3650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 09/38] fix: list each sublamination once

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 23f734c..2f168cf 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -2,7 +2,7 @@
 ''' A module for representing laminations on Triangulations. '''
 
 from collections import namedtuple
-from itertools import permutations, groupby, product, chain
+from itertools import combinations, permutations, groupby, product, chain
 from queue import Queue
 
 import curver
@@ -364,7 +364,7 @@ class IntegralLamination(Lamination):
         ''' Return all sublaminations that appear within self. '''
         
         components = self.components()
-        return [self.triangulation.disjoint_sum(sub) for i in range(len(components)) for sub in permutations(components, i+1)]  # Powerset.
+        return [self.triangulation.disjoint_sum(sub) for i in range(len(components)) for sub in combinations(components, i+1)]  # Powerset.
     
     def multiarc(self):
         ''' Return the maximal MultiArc contained within this lamination. '''
-- 
2.43.0


From 482d82b25de9e03db0994cb6e541725184efd5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 10/38] fix: encoding a partial dictionary of labels

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index ed66b6e..817b7fb 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -843,7 +843,7 @@ class Triangulation:
                 if all(i in item or ~i in item for i in self.indices):
                     term = T.encode_relabel_edges(item)
                 else:  # If some edges are missing then we assume that we must be mapping back to this triangulation.
-                    term = T.find_isometry(self, item)
+                    term = T.find_isometry(self, item).encode()
             elif isinstance(item, tuple) and len(item) == 2:  # Twist or HalfTwist.
                 label, power = item
                 edge = Edge(label)
-- 
2.43.0


From d9ac23f6fc71d42594f95dc1e69478db474d9cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 11/38] fix: document that edge_curve returns the curve to the
 left of the edge

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 817b7fb..628c0c5 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -634,7 +634,7 @@ class Triangulation:
         ''' Return the curve \\partial N(edge).
         
         If edge connects a vertex to itself then there are two candidate curves
-        in which case the one to the right of the (oriented) edge is returned. '''
+        in which case the one to the left of the (oriented) edge is returned. '''
         
         if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.
         
-- 
2.43.0


From b7ad0b8c656f3af94d6a57fd30cbeba657542ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 12/38] fix: lifts can be packaged and so pickled

---
 curver/kernel/crush.py         | 3 +++
 curver/kernel/triangulation.py | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/crush.py b/curver/kernel/crush.py
index 941df56..86aa94c 100644
--- a/curver/kernel/crush.py
+++ b/curver/kernel/crush.py
@@ -175,6 +175,9 @@ class Lift(LinearTransformation):
     def __str__(self):
         return f'Lift to {self.target_triangulation}'
     
+    def package(self):
+        return (self.target_triangulation.sig(), self.inverse().curve.parallel().label)
+    
     def apply_lamination(self, lamination):
         assert all(lamination(edge) >= 0 and lamination.left_weight(edge) >= 0 for vertex in self.vertices for edge in vertex)
         
diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 628c0c5..dc08ccd 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -819,6 +819,8 @@ class Triangulation:
          - A dictionary which has i or ~i as a key (for every i) represents a relabelling.
          - A dictionary which is missing i and ~i (for some i) represents an isometry back to this triangulation.
          - A pair (e, p) represents a Twist or HalfTwist to the power p, depending on whether the edge e connects distinct vertices.
+         - A pair (e, 0) represents the Crush along the curve parallel to e.
+         - A pair (sig, e) represents the Lift back to the triangulation with this signature, from crushing along the curve parallel to e on it.
          - None represents the identity isometry.
         
         This sequence is read in reverse in order to respect composition. For example:
@@ -846,9 +848,11 @@ class Triangulation:
                     term = T.find_isometry(self, item).encode()
             elif isinstance(item, tuple) and len(item) == 2:  # Twist or HalfTwist.
                 label, power = item
-                edge = Edge(label)
+                edge = None if isinstance(label, str) else Edge(label)
                 
-                if power == 0:  # Crush:
+                if edge is None:  # Lift.
+                    term = Triangulation.from_sig(label).edge_curve(power).crush().inverse()
+                elif power == 0:  # Crush:
                     curve = T.edge_curve(edge)
                     term = curve.crush()
                 elif T.vertex_lookup[edge] == T.vertex_lookup[~edge]:  # Twist.
-- 
2.43.0


From 198e677701492ae3e1a3d15f426b0de98e1d2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 13/38] fix: reject lists of an odd number of triangles

---
 curver/kernel/triangulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index dc08ccd..42761d8 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -197,6 +197,8 @@ class Triangulation:
         zeta = len(edge_labels) * 3 // 2
         
         # Check that each of 0, ..., zeta-1, ~0, ..., ~(zeta-1) occurs exactly once.
+        if len(edge_labels) % 2 != 0:
+            raise TypeError('There must be an even number of triangles')
         flattened = set(label for labels in edge_labels for label in labels)
         for i in range(zeta):
             if i not in flattened:
-- 
2.43.0


From d24363601b5f86adbb0659efe8753c796fbff4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 14/38] fix: bound the order of mapping classes of surfaces
 with several homeomorphic components

---
 curver/kernel/triangulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 42761d8..6a384b4 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -287,8 +287,8 @@ class Triangulation:
             else:  # g == 0:
                 return v
         
-        # Set of orders that appear.
-        orders = set(order(S.g, S.p) for S in self.surface().values())
+        # The order of each component, homeomorphic components can have classes of different orders.
+        orders = [order(S.g, S.p) for S in self.surface().values()]
         for order in orders:
             prod *= order
         
-- 
2.43.0


From 691bc2276312c88cd434f439ba73fa4072e3e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 15/38] fix: triangulations and homology classes can be
 compared with other objects

---
 curver/kernel/homology.py      | 5 ++++-
 curver/kernel/triangulation.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/homology.py b/curver/kernel/homology.py
index 4cf1e41..a0aa7ea 100644
--- a/curver/kernel/homology.py
+++ b/curver/kernel/homology.py
@@ -25,7 +25,10 @@ class HomologyClass:
         
         return self.algebraic[edge.index] * edge.sign()
     def __eq__(self, other):
-        return self.triangulation == other.triangulation and self.canonical().algebraic == other.canonical().algebraic
+        if isinstance(other, HomologyClass):
+            return self.triangulation == other.triangulation and self.canonical().algebraic == other.canonical().algebraic
+        else:
+            return NotImplemented
     def __hash__(self):
         return hash(tuple(self.canonical().algebraic))
     def __add__(self, other):
diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 6a384b4..af82e45 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -232,7 +232,10 @@ class Triangulation:
         # Triangulations are already pickleable but this results in a much smaller pickle.
         return (create_triangulation, (self.__class__,) + self.package())
     def __eq__(self, other):
-        return self.signature == other.signature
+        if isinstance(other, Triangulation):
+            return self.signature == other.signature
+        else:
+            return NotImplemented
     def __hash__(self):
         return hash(tuple(self.signature))
     def __call__(self, geometric, promote=True):
-- 
2.43.0


From 07aedc750075b4d35f401ea997c50dcd6f2a3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 16/38] fix: compare mappings with encodings that are not
 mappings

---
 curver/kernel/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index 0dc0de7..e2d7b36 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -171,11 +171,13 @@ class Mapping(Encoding):
         return np.array([[sum(x * y for x, y in zip(hc, hc2)) for hc in source_images] for hc2 in target_basis], dtype=object)
     
     def __eq__(self, other):
-        if isinstance(other, Encoding):
+        if isinstance(other, Mapping):
             if self.source_triangulation != other.source_triangulation or self.target_triangulation != other.target_triangulation:
                 return False
             
             return self.self_image() == other.self_image() and np.array_equal(self.homology_matrix(), other.homology_matrix())  # We only really need this for S_{1,1}.
+        elif isinstance(other, Encoding):
+            return False  # Not every move of other is a FlipGraphMove.
         else:
             return NotImplemented
     
-- 
2.43.0


From 101af948988de97ec224cd9c62dc69f08c538096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 17/38] fix: relative twisting of arcs that are disjoint but
 end at the same vertex

---
 curver/kernel/curve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/curve.py b/curver/kernel/curve.py
index 1906dc7..eeb4dfc 100644
--- a/curver/kernel/curve.py
+++ b/curver/kernel/curve.py
@@ -184,8 +184,9 @@ class Curve(MultiCurve):
         if ac == 0: raise ValueError('Relative slope is undefined when self and c are disjoint')
         bc = b.intersection(c)
         
-        f_lower = self.encode_twist(power=-2*bc)(b).intersection(c)  # f(-2*bc).
-        f_upper = self.encode_twist(power=2*bc)(b).intersection(c)  # f(2*bc).
+        power = 2*bc + 4  # Since arcs that end at the same vertex can be disjoint without being untwisted, 2*bc alone is not enough.
+        f_lower = self.encode_twist(power=-power)(b).intersection(c)  # f(-power).
+        f_upper = self.encode_twist(power=power)(b).intersection(c)  # f(power).
         
         return Fraction(f_lower - f_upper, 2*ab*ac)  # No division by zero thanks to our previous checks.
     
-- 
2.43.0


From 0d763a0756556ef7571443572c5b65d200b7217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 18/38] fix: peripheral curves do not fill components of a
 disconnected surface

---
 curver/kernel/lamination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 2f168cf..d8049b4 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -397,10 +397,11 @@ class IntegralLamination(Lamination):
         if any(isinstance(component, curver.kernel.Curve) and not component.is_peripheral() for component in self.components()):
             return False
         
+        multiarc = self.multiarc()  # Peripheral curves do not intersect any curves.
         for component in self.triangulation.components():
             V, E = len([vertex for vertex in self.triangulation.vertices if vertex[0] in component]), len(component) // 2
             if (V, E) != (3, 3):  # component != S_{0, 3}:
-                if all(self(edge) == 0 for edge in component):
+                if all(multiarc(edge) == 0 for edge in component):
                     return False
         
         return self.boundary().is_peripheral()
-- 
2.43.0


From f7d29fa474f51a17f01b02497510f165f8f5db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 19/38] fix: include both sides of disjoint curves in the
 boundary of a union

---
 curver/kernel/curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/curve.py b/curver/kernel/curve.py
index eeb4dfc..855e1b5 100644
--- a/curver/kernel/curve.py
+++ b/curver/kernel/curve.py
@@ -85,7 +85,9 @@ class MultiCurve(IntegralLamination):
         lift = crush.inverse()
         other_prime = crush(other)
         m_prime = other_prime.boundary()
-        return lift(m_prime)  # = m.
+        # The components of self that are disjoint from other were crushed, so each still contributes both of its sides.
+        disjoint = dict((component, 2 * multiplicity) for component, multiplicity in self.components().items() if component.intersection(other) == 0)
+        return self.triangulation.sum([lift(m_prime), self.triangulation.disjoint_sum(disjoint)])  # = m.
     
     def fills_with(self, other):
         ''' Return whether self \\cup other fills. '''
-- 
2.43.0


From 686cb2c72f0ccc9a5c3283ac3d280aaeb716a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 20/38] fix: peripheral curves do not stop a multicurve from
 filling with a lamination

---
 curver/kernel/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/curve.py b/curver/kernel/curve.py
index 855e1b5..e9e2301 100644
--- a/curver/kernel/curve.py
+++ b/curver/kernel/curve.py
@@ -93,7 +93,7 @@ class MultiCurve(IntegralLamination):
         ''' Return whether self \\cup other fills. '''
         assert isinstance(other, IntegralLamination)
         
-        if any(component.intersection(other) == 0 for component in self.components()):
+        if any(not component.is_peripheral() and component.intersection(other) == 0 for component in self.components()):
             return False
         
         crush = self.crush()
-- 
2.43.0


From adb41f3e3429ae931438947f4a2e170e22b48ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 21/38] fix: memoized functions accept unhashable arguments

---
 curver/kernel/decorators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/decorators.py b/curver/kernel/decorators.py
index b71d5d7..529dce8 100644
--- a/curver/kernel/decorators.py
+++ b/curver/kernel/decorators.py
@@ -13,7 +13,11 @@ def memoize(function, *args, **kwargs):
     
     if not hasattr(self, '_cache'):
         self._cache = dict()
-    key = (function.__name__, frozenset(inputs.items()))
+    try:
+        key = (function.__name__, frozenset(inputs.items()))
+    except TypeError:  # Some of the inputs, such as lists, are unhashable and so this cannot be cached.
+        return function(*args, **kwargs)
+    
     if key not in self._cache:
         try:
             self._cache[key] = function(*args, **kwargs)
-- 
2.43.0


From bf5e990de0149bb2380a32423b881b5d6497f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 22/38] fix: actually check that the invariant multiarc is a
 polygonalisation

---
 curver/kernel/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index ce1e905..68a613d 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -70,7 +70,7 @@ class FiniteSubgroup:
     
     @memoize
     @ensure(
-        lambda data: data.result.is_polygonalisation,
+        lambda data: data.result.is_polygonalisation(),
         lambda data: all(data.self[word](data.result) == data.result for word in data.self.generators),
         )
     def invariant_polygonalisation(self):
-- 
2.43.0


From fb05c3f5ba95397e6202b7e380455c05a8e28267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 23/38] fix: compare the topology of surfaces and not their
 edge labels when testing for conjugacy

---
 curver/kernel/encoding.py | 2 +-
 curver/kernel/finite.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index e2d7b36..ab3b48a 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -429,7 +429,7 @@ class MappingClass(Mapping):
         
         assert isinstance(other, curver.kernel.MappingClass)
         
-        if self.source_triangulation.surface() != other.source_triangulation.surface():  # Defined on different surfaces.
+        if sorted(self.source_triangulation.surface().values()) != sorted(other.source_triangulation.surface().values()):  # Defined on different surfaces.
             return False
         
         if not self.vertex_permutation().is_conjugate_to(other.vertex_permutation()):  # Induce non-conjugate permutations of the vertices.
diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index 68a613d..3c38304 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -275,7 +275,7 @@ class FiniteSubgroup:
         
         assert isinstance(other, curver.kernel.FiniteSubgroup)
         
-        if self.triangulation.surface() != other.triangulation.surface():  # Defined on different surfaces.
+        if sorted(self.triangulation.surface().values()) != sorted(other.triangulation.surface().values()):  # Defined on different surfaces.
             return False
         
         if len(self) != len(other):  # Conjugacy invariant.
-- 
2.43.0


From 13f8b583e17b5b887a3d0290736d137d1f672dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 24/38] fix: quotient orbifolds of periodic mapping classes of
 disconnected surfaces

---
 curver/kernel/finite.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index 3c38304..b3a6f16 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -217,10 +217,12 @@ class FiniteSubgroup:
         component_orbit_size = dict()
         for cls in classes:
             for component in cls:
-                component_orbit_size[component] = len(components)
+                component_orbit_size[component] = len(cls)
         
         # D) The (orbifold) Euler characteristic of each components quotient.
-        euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component], order)) for component in components)
+        # Since it fixes an oriented arc, an element of pairs[a][a] acts trivially on the component of a. This can only be non-trivial when there are several components.
+        kernel_size = dict((component_lookup[a], len(pairs[a][a])) for a in oriented_arcs)
+        euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component] * kernel_size[component], order)) for component in components)
         
         # Compute the polygons cut out by short.
         # Remember to walk around their boundary in the correct direction.
@@ -255,7 +257,7 @@ class FiniteSubgroup:
             
             c_order = len(places)
             holonomy = sorted(pairs[start][places[0]])
-            preimages = order // c_order
+            preimages = order // sum(len(pairs[start][a]) for a in places)  # Orbit--Stabiliser.
             
             if punctured or len(places) > 1:  # Real cone point.
                 cone_points[component_lookup[start]].append(ConePoint(punctured, c_order, holonomy, preimages))  # Put it in the correct component.
@@ -265,7 +267,8 @@ class FiniteSubgroup:
         
         # Group.
         signature = [key for key, group in groupby(signature) for _ in range(len(list(group)) // key.preimages)]
-        signature = [Orbifold(orbifold.euler_characteristic, orbifold.preimages, [key for key, group in groupby(orbifold.cone_points) for _ in range(len(list(group)) // key.preimages)]) for orbifold in signature]
+        # Each orbifold only records the cone points coming from one of the components above it.
+        signature = [Orbifold(orbifold.euler_characteristic, orbifold.preimages, [key for key, group in groupby(orbifold.cone_points) for _ in range(len(list(group)) * orbifold.preimages // key.preimages)]) for orbifold in signature]
         return signature
 
     def is_conjugate_to(self, other):
-- 
2.43.0


From 90877102f58b36cac8dafa1f1f0ca5005c5a2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 25/38] fix: piecewise linear action of flipping no edges

---
 curver/kernel/moves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/moves.py b/curver/kernel/moves.py
index af983ce..a8f4e21 100644
--- a/curver/kernel/moves.py
+++ b/curver/kernel/moves.py
@@ -307,5 +307,5 @@ class MultiEdgeFlip(FlipGraphMove):
                 action = action + E(bi, ei) + E(di, ei) - 2*E(ei, ei)
                 conditions.append(V(bi) + V(di) - V(ai) - V(ci))
         
-        return curver.kernel.PartialLinearFunction(action, np.array(conditions))
+        return curver.kernel.PartialLinearFunction(action, np.array(conditions or [[0] * self.zeta], dtype=object))
 
-- 
2.43.0


From fc1a4338a072aa8e612fa52f0577cd1efc660c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 26/38] fix: no generators in a Cayley ball of radius zero

---
 curver/kernel/mappingclassgroup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 362aaea..c974bca 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -185,6 +185,7 @@ class MappingClassGroup:
         yield identity
         while not Q.empty():
             image, word = Q.get()
+            if len(word) >= length: continue
             
             for generator in generators:
                 next_word = (generator,) + word
@@ -200,6 +201,5 @@ class MappingClassGroup:
                     yield next_word
                     good.add(next_word)
                     elements[key] = next_word
-                    if len(next_word) < length:
-                        Q.put((next_image, next_word))
+                    Q.put((next_image, next_word))
 
-- 
2.43.0


From 9d069f6b64195801d7a224766cfbebab1416706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 27/38] fix: arcs disjoint from a filling multiarc with
 complementary regions that are once-punctured discs

---
 curver/kernel/arc.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/curver/kernel/arc.py b/curver/kernel/arc.py
index c11ef7b..62a0011 100644
--- a/curver/kernel/arc.py
+++ b/curver/kernel/arc.py
@@ -126,23 +126,25 @@ class MultiArc(IntegralLamination):
         for arc in short.triangulation.edge_arcs():
             yield conjugator_inv(arc)
         
-        # All arcs that meet 1 edge.
-        for index in short.triangulation.indices:
-            if short(index) == 0:
-                arc = short.triangulation([1 if i == index else 0 for i in range(short.triangulation.zeta)])
-                yield conjugator_inv(arc)
-        
-        # All arcs that meet at least two edges.
-        edges = [(short.triangulation.triangle_lookup[edge], short.triangulation.triangle_lookup[~edge]) for edge in short.triangulation.positive_edges if short(edge) == 0]
-        G = networkx.Graph(edges)
-        for t1, t2 in combinations(G.nodes(), r=2):
-            paths = networkx.all_simple_paths(G, t1, t2)
-            for path in paths:
-                if len(path) > 2:  # Not covered by above case.
-                    # Convert back to a sequence of edges.
-                    cut_sequence = [edge.index for p1, p2 in zip(path, path[1:]) for edge in p1 if ~edge in p2]
-                    arc = short.triangulation.lamination_from_cut_sequence(cut_sequence)
-                    yield conjugator_inv(arc)
+        # All arcs that meet at least one edge.
+        # Since the complementary regions of self are all discs or once-punctured discs, these meet each edge at most twice.
+        found = set()
+        to_extend = [[edge] for edge in short.triangulation.edges if short(edge) == 0]
+        while to_extend:
+            sequence = to_extend.pop()
+            geometric = tuple(short.triangulation.cut_sequence_intersections(sequence))
+            if geometric not in found:
+                found.add(geometric)
+                # Sequences that cannot be drawn without self-intersections might not even give a lamination.
+                if all(2 * max(weights) > sum(weights) or sum(weights) % 2 == 0 for weights in [[geometric[edge.index] for edge in triangle] for triangle in short.triangulation]):
+                    arc = short.triangulation(geometric)
+                    if isinstance(arc, Arc):
+                        yield conjugator_inv(arc)
+            
+            corner = short.triangulation.corner_lookup[~sequence[-1]]
+            for edge in [corner[1], corner[2]]:
+                if short(edge) == 0 and geometric[edge.index] < 2:
+                    to_extend.append(sequence + [edge])
     
     def all_disjoint_multiarcs(self):
         ''' Yield all multiarcs that are disjoint from this one.
-- 
2.43.0


From c905c7719b44bb04adf954a69f7dce46e0a93561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 28/38] fix: flip mapping of flipping no edges

---
 curver/kernel/moves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/moves.py b/curver/kernel/moves.py
index a8f4e21..17b247d 100644
--- a/curver/kernel/moves.py
+++ b/curver/kernel/moves.py
@@ -283,7 +283,7 @@ class MultiEdgeFlip(FlipGraphMove):
         return curver.kernel.HomologyClass(self.target_triangulation, algebraic)
     
     def flip_mapping(self):
-        return self.source_triangulation.encode([edge.label for edge in self.edges])
+        return self.source_triangulation.encode([edge.label for edge in self.edges] or [None])  # There might be no edges to flip.
     
     def pl_action(self, multicurve):
         action = np.identity(self.zeta, dtype=object)
-- 
2.43.0


From 3180915d64ef2f0f9720eeaea2146adce0d4a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:39 +0000
Subject: [PATCH 29/38] fix: closed topological types of curves on tori forgot
 their multiplicity

---
 curver/kernel/lamination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index d8049b4..6764444 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -518,7 +518,8 @@ class IntegralLamination(Lamination):
         
         if closed:
             # Smooth out any degree two vertices whose label is 0.
-            good = [node_labels[node] != 0 or sum(len(link_labels[i][j]) for j in range(len(nodes))) + len(link_labels[i][i]) != 2 for i, node in enumerate(nodes)]
+            # Those with a self loop come from a curve on a torus, where there is nothing to smooth them into.
+            good = [node_labels[node] != 0 or link_labels[i][i] or sum(len(link_labels[i][j]) for j in range(len(nodes))) != 2 for i, node in enumerate(nodes)]
             for i, keep in enumerate(good):
                 if not keep:
                     adjacent = [j for j in range(len(nodes)) if link_labels[i][j]]
-- 
2.43.0


From 9d29cd5ce75ec799c2f862409470f53fd563cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:39 +0000
Subject: [PATCH 30/38] fix: topological types depended on the labelling of the
 triangulation and missed how vertices are connected

---
 curver/kernel/lamination.py | 101 +++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 49 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 6764444..9caafe5 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -485,26 +485,26 @@ class IntegralLamination(Lamination):
         
         # Write down all the links.
         links = []  # List of (vertex1, vertex2, label).
-        vertex_paired_node_map = dict()  # We will build this in a minute.
+        vertex_paired_node_map = dict()  # Maps each vertex to (the node it is paired with, the label of this link). We will build this in a minute.
         short_components = short.components()  # The components of this lamination.
         half_links = dict()
         for vertex in triangulation.vertices:
             curve = lift(triangulation.curve_from_cut_sequence(vertex))
             if curve in duplicated_boundary:
                 links.append((vertex_node_map[vertex], curve, short_components.get(curve, 0)))
-                vertex_paired_node_map[vertex] = curve
+                vertex_paired_node_map[vertex] = (curve, short_components.get(curve, 0))
             elif curve not in half_links:
                 half_links[curve] = vertex
             else:  # Found the other half.
                 vertex2 = half_links[curve]
                 links.append((vertex_node_map[vertex], vertex_node_map[vertex2], short_components.get(curve, 0)))
                 del half_links[curve]
-                vertex_paired_node_map[vertex] = vertex_node_map[vertex2]
-                vertex_paired_node_map[vertex2] = vertex_node_map[vertex]
+                vertex_paired_node_map[vertex] = (vertex_node_map[vertex2], short_components.get(curve, 0))
+                vertex_paired_node_map[vertex2] = (vertex_node_map[vertex], short_components.get(curve, 0))
         if not closed:
             for curve, vertex in half_links.items():  # Add hanging edges to dummy.
                 links.append((vertex_node_map[vertex], dummy, short_components.get(curve, 0)))
-                vertex_paired_node_map[vertex] = dummy
+                vertex_paired_node_map[vertex] = (dummy, short_components.get(curve, 0))
         
         # Another useful lookup.
         node_lookup = dict((node, index) for index, node in enumerate(nodes))
@@ -558,61 +558,64 @@ class IntegralLamination(Lamination):
         disjoint_vertices = [vertex for vertex in triangulation.vertices if all(not image(e) for e in vertex)]
         image_vertex_map = dict((edge, vertex) for vertex in disjoint_vertices for edge in classes_lookup[vertex[0]])
         
+        # Build the possible markings of each (real) node, one for each edge that we could start from.
+        markings = dict((node, []) for node in nodes)
+        for node in real_nodes:
+            for starting_edge in node:
+                if not image(starting_edge): continue
+                
+                marking = []
+                edge_marking = {starting_edge: 0, ~starting_edge: 0}
+                to_do = Queue()
+                to_do.put(starting_edge)
+                to_do.put(~starting_edge)
+                done = set()
+                while not to_do.empty():
+                    current = to_do.get()
+                    if current in done: continue
+                    while current not in done:  # Walk around this polygon.
+                        if current not in edge_marking:
+                            edge_marking[current] = edge_marking[~current] = len(edge_marking) // 2
+                            to_do.put(~current)
+                        marking.append((edge_marking[current], image(current)))
+                        done.add(current)
+                        current = ordering[current]
+                    
+                    # Mark the break between one cycle and the next.
+                    marking.append((-1, vertex_paired_node_map[image_vertex_map[current]] if current in image_vertex_map else None))
+                
+                markings[node].append(marking)
+        
         best_node_labels = [node_labels[node] for node in nodes]  # We know the best node labels right away.
         best_link_labels = None
         best_node_markings = None
-        for X in product(*(permutations(g) for k, g in groupby(range(len(nodes)), key=lambda i: node_labels[nodes[i]]))):  # pylint: disable=too-many-nested-blocks
+        for X in product(*(permutations(g) for k, g in groupby(range(len(nodes)), key=lambda i: node_labels[nodes[i]]))):
             perm = list(chain(*X))
             
-            inverse_perm = [None] * len(perm)
-            for index, i in enumerate(perm):
-                inverse_perm[i] = index
-            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(inverse_perm) for j in inverse_perm[index:]]
-            
-            if best_link_labels is not None and permuted_link_labels >= best_link_labels:
+            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(perm) for j in perm[index:]]
+            if best_link_labels is not None and (permuted_link_labels > best_link_labels or (permuted_link_labels == best_link_labels and not any(best_node_markings))):
                 continue
-            best_link_labels = list(permuted_link_labels)
             
             permuted_nodes = [nodes[i] for i in perm]
             permuted_node_lookup = dict((node, index) for index, node in enumerate(permuted_nodes))
             
-            # Build marking.
-            node_markings = []
-            for node in permuted_nodes:
-                starting_edges = [edge for edge in node if image(edge)]
-                if starting_edges:  # Skip nodes that do not have any markings.
-                    best_node_marking = None
-                    for starting_edge in starting_edges:
-                        node_marking = []
-                        edge_marking = {starting_edge: 0, ~starting_edge: 0}
-                        to_do = Queue()
-                        to_do.put(starting_edge)
-                        to_do.put(~starting_edge)
-                        done = set()
-                        while not to_do.empty():
-                            current = to_do.get()
-                            while current not in done:  # Wall around this polygon.
-                                if current not in edge_marking:
-                                    edge_marking[current] = edge_marking[~current] = len(edge_marking) // 2
-                                    to_do.put(~current)
-                                node_marking.append((edge_marking[current], image(current)))
-                                done.add(current)
-                                current = ordering[current]
-                            
-                            # Mark the break between one cycle and the next.
-                            node_marking.append((-1, permuted_node_lookup[vertex_paired_node_map[image_vertex_map[current]]] if current in image_vertex_map else -1))
-                        
-                        if best_node_marking is not None and node_marking >= best_node_marking:
-                            continue
-                        best_node_marking = node_marking
-                    
-                    node_markings.append(best_node_marking)
-                else:
-                    node_markings.append([])
+            # Record which (permuted) node each cycle surrounds a vertex paired with and the label of that link.
+            node_markings = [
+                min(
+                    (
+                        [
+                            item if item[0] >= 0 else (-1, -1, -1) if item[1] is None else (-1, permuted_node_lookup[item[1][0]], item[1][1])
+                            for item in marking
+                            ]
+                        for marking in markings[node]
+                        ),
+                    default=[])  # Nodes that do not have any markings.
+                for node in permuted_nodes
+                ]
             
-            if best_node_markings is not None and node_markings >= best_node_markings:
-                continue
-            best_node_markings = node_markings
+            if best_link_labels is None or permuted_link_labels < best_link_labels or node_markings < best_node_markings:
+                best_link_labels = permuted_link_labels
+                best_node_markings = node_markings
         
         return TopologicalType(best_node_labels, best_link_labels, best_node_markings)
     
-- 
2.43.0


From 8e337fadebc552bdc7f693386e59ef2bc7bd537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 31/38] fix: distance in the curve graph between a multicurve
 and itself

---
 curver/kernel/curvegraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curver/kernel/curvegraph.py b/curver/kernel/curvegraph.py
index de5d273..a2cee27 100644
--- a/curver/kernel/curvegraph.py
+++ b/curver/kernel/curvegraph.py
@@ -130,6 +130,7 @@ class CurveGraph:
         vertices = list(self.all_tight_geodesic_multicurves(a, b))
         edges = [(u, v) for u, v in combinations(vertices, r=2) if u.intersection(v) == 0 and u.no_common_component(v)]
         G = networkx.Graph(edges)
+        G.add_nodes_from(vertices)  # Even those without edges.
         
         geodesic = networkx.algorithms.shortest_path(G, a, b)  # Find a geodesic from self to other, however this might not be tight.
         
-- 
2.43.0


From 50c3aa9268fb35afa15f0e2b5c7472b826dd28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 32/38] fix: geodesics in the curve graph could go through
 peripheral curves

---
 curver/kernel/curvegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/curvegraph.py b/curver/kernel/curvegraph.py
index a2cee27..ee5c0cb 100644
--- a/curver/kernel/curvegraph.py
+++ b/curver/kernel/curvegraph.py
@@ -150,7 +150,7 @@ class CurveGraph:
         assert a.triangulation == self.triangulation
         assert b.triangulation == self.triangulation
         
-        return tuple(multicurve.peek_component() for multicurve in self.tight_geodesic(a, b))  # pylint: disable=no-member
+        return tuple(multicurve.non_peripheral().peek_component() for multicurve in self.tight_geodesic(a, b))  # pylint: disable=no-member
     
     def distance(self, a, b):
         ''' Return the distance from a to b in the curve complex. '''
-- 
2.43.0


From 1b98494ede2b828188854616832fd51fc933f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 33/38] fix: bands of terminal arcs were drawn in the wrong
 place

---
 curver/application/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 26a67e9..91f6b06 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -269,7 +269,7 @@ class Drawing:
                     elif dual_weights[i] < 0:  # Terminal arc.
                         s_0 = (1 - 2*vb) * weights[i] / master
                         
-                        scale_a = (1 - s_0) / 2 + s_0 * dual_weights[i-2] / weights[i]
+                        scale_a = (1 - s_0) / 2 + s_0 * dual_weights[i-1] / weights[i]
                         scale_a2 = scale_a + s_0 * (-dual_weights[i]) / weights[i]
                         
                         S1, P1, Q1, E1 = curver.application.interpolate(triangle[i-2].vector, triangle[i-1].vector, triangle[i].vector, scale_a, 1.0)
-- 
2.43.0


From 1ba584fb7df8916dd8a7f4fddee6a89bd0f1eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 34/38] fix: orientations of some internal edges were drawn
 backwards

---
 curver/application/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 91f6b06..338a282 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -215,11 +215,11 @@ class Drawing:
                 far_vertex = target_vertex + left + 1
                 corner = triangulation.corner_lookup[label]
                 
-                if corner[2].sign() == +1:
+                if left > 0 or corner[2].sign() == +1:  # Internal edges also have their inverse created.
                     self.create_edge(self.vertices[far_vertex], self.vertices[target_vertex], corner[2].label, colours[corner[2].index], left > 0)
                 else:
                     self.create_edge(self.vertices[target_vertex], self.vertices[far_vertex], corner[2].label, colours[corner[2].index], left > 0)
-                if corner[1].sign() == +1:
+                if right > 0 or corner[1].sign() == +1:
                     self.create_edge(self.vertices[source_vertex], self.vertices[far_vertex], corner[1].label, colours[corner[1].index], right > 0)
                 else:
                     self.create_edge(self.vertices[far_vertex], self.vertices[source_vertex], corner[1].label, colours[corner[1].index], right > 0)
-- 
2.43.0


From 443e6b17010f6521ddb19b916d5113f571638cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 35/38] fix: bands of parallel arcs with small weights were
 drawn outside of their triangle

---
 curver/application/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 338a282..4492250 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -283,7 +283,7 @@ class Drawing:
                         S, O, E = triangle[i-2].vector, triangle[i].vector, triangle[i-1].vector
                         M = (S + E) / 2.0
                         centroid = (S + O + E) / 3.0
-                        P = M + 1.0 * (centroid - M) * (parallel_weights[i]+1) / master
+                        P = M + 1.0 * (centroid - M) * parallel_weights[i] / master
                         self.create_curve_component([S, S, P, E, E, S, S], thin=False)
         else:  # Draw everything. Caution, this is is VERY slow (O(n) not O(log(n))) so we only do it when the weight is low.
             for triangle in self.triangles:
-- 
2.43.0


From dc58489793140d0dcd5b3dab8b2673918b926576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 36/38] fix: trace_curve rejected some curves that close up
 without intersections

---
 curver/kernel/lamination.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 9caafe5..6f60ecc 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -197,8 +197,8 @@ class Lamination:
         
         if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.
         
-        tilde_upper = self(edge) + 1
-        tilde_intersection = self(edge) - intersection
+        tilde_upper = self(edge)
+        tilde_intersection = self(edge) - 1 - intersection
         tilde_lower = -1
         
         #   ~upper ~intersection ~lower
@@ -223,7 +223,7 @@ class Lamination:
                 edge, intersection = z, self(z) - self(x) + intersection
             
             if edge == start_edge:
-                tilde_return = self(edge) - intersection
+                tilde_return = self(edge) - 1 - intersection
                 if tilde_lower < tilde_return < tilde_upper:
                     return self.triangulation.curve_from_cut_sequence(trace)
                 else:
-- 
2.43.0


From 2c44a069bc09da1361c5ceab05536337048c189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 37/38] fix: quotient orbifolds of non-abelian subgroups lost
 their cone points

The preimages of a cone point have conjugate holonomies, so they were not grouped together.
---
 curver/kernel/finite.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index b3a6f16..0eaa367 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -245,18 +245,29 @@ class FiniteSubgroup:
         # 1) at vertices,
         # 2) at the midpoints of edges, and
         # 3) at the centres of polygons (note that these are not once-punctured polygons since we started with an invariant polygonalisation).
-        candidates = [(True, [edge for edge in vertex if short(edge) < 0]) for vertex in triangulation.vertices] + \
-            [(False, [edge, ~edge]) for edge in triangulation.positive_edges if short(edge) < 0] + \
-            [(False, polygon) for polygon in polygons]
+        candidates = [('vertex', [edge for edge in vertex if short(edge) < 0]) for vertex in triangulation.vertices] + \
+            [('midpoint', [edge, ~edge]) for edge in triangulation.positive_edges if short(edge) < 0] + \
+            [('polygon', polygon) for polygon in polygons]
+        
+        # The holonomy of each candidate, that is, the elements that rotate it by one place.
+        holonomies = dict()
+        for kind, edges in candidates:
+            oriented_arcs = [oriented[edge] for edge in edges]
+            start = oriented_arcs[0]
+            places = [a for a in oriented_arcs[1:] + oriented_arcs[:1] if pairs[start][a]]
+            for a in oriented_arcs:
+                holonomies[kind, a] = sorted(pairs[start][places[0]])
         
         cone_points = defaultdict(list)
-        for punctured, edges in candidates:
+        for kind, edges in candidates:
+            punctured = kind == 'vertex'
             oriented_arcs = [oriented[edge] for edge in edges]
             start = oriented_arcs[0]
             places = [a for a in oriented_arcs[1:] + oriented_arcs[:1] if pairs[start][a]]  # ??
             
             c_order = len(places)
-            holonomy = sorted(pairs[start][places[0]])
+            # The holonomies of the preimages of a cone point are conjugate, so use the smallest of these for all of them.
+            holonomy = min(holonomies[kind, a] for a in pairs[start] if pairs[start][a])
             preimages = order // sum(len(pairs[start][a]) for a in places)  # Orbit--Stabiliser.
             
             if punctured or len(places) > 1:  # Real cone point.
-- 
2.43.0


From 6015a3fa3dacfa8d530781a32aae09c70ccc681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 38/38] fix: showing objects that iterate over two things

A triangulation with two triangles, a mapping class of two moves or a mapping class group with two generators was taken to be a (name, item) pair.
---
 curver/application/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 4492250..d9f8752 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -412,9 +412,9 @@ class CurverApplication:
         
         if isinstance(items, dict):  # dict.
             items = [Showable(key, item) for key, item in sorted(dict(items).items(), key=lambda x: x[0])]
-        try:  # list of pairs.
+        if all(isinstance(item, (list, tuple)) and len(item) == 2 for item in items):  # list of pairs.
             items = [Showable(key, item) for key, item in items]
-        except (TypeError, ValueError):  # list.
+        else:  # list.
             items = [Showable(str(index), item) for index, item in enumerate(items)]
         self.items = items
         
-- 
2.43.0

