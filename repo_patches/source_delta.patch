From 229fc1fbea86b6a66a084a9205b9c3fc35bd7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 01/29] fix: skip lazily built rules that do not apply when
 recomputing forest rules

---
 comb_spec_searcher/rule_db/forest.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 9c7b487..8b05612 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -601,13 +601,14 @@ class ForestRuleExtractor:
             else:
                 strats_or_rules = [strat]
             for x in strats_or_rules:
-                if isinstance(x, AbstractStrategy):
-                    try:
-                        yield x(comb_class)
-                    except StrategyDoesNotApply:
-                        continue
-                else:
-                    yield x
+                try:
+                    rule = x(comb_class) if isinstance(x, AbstractStrategy) else x
+                    # The children can be computed lazily, and are what tells if the
+                    # rule applies.
+                    rule.children  # pylint: disable=pointless-statement
+                except StrategyDoesNotApply:
+                    continue
+                yield rule
 
 
 class RuleDBForest(RuleDBAbstract):
-- 
2.43.0


From 183ab6c3daf2c622a527e22ceb0a16a4caa05d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 02/29] fix: recomputing a forgotten strategy skips rules over
 classes that were never labelled

---
 comb_spec_searcher/rule_db/forget.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index bbbe9aa..66bef70 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -100,6 +100,12 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                 else:
                     rule = x
                 try:
+                    if any(
+                        c not in self.classdb
+                        for c in itertools.chain([rule.comb_class], rule.children)
+                    ):
+                        # all the classes of a stored rule have a label
+                        continue
                     start_label = self.classdb.get_label(rule.comb_class)
                     nonempty_children = tuple(
                         c for c in rule.children if not self.classdb.is_empty(c)
-- 
2.43.0


From a025c7277c7f68ba38644d2572a433875d2b08a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 03/29] fix: use the equivalence form of one-way rules whose
 other children are empty

---
 comb_spec_searcher/specification_extrator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification_extrator.py b/comb_spec_searcher/specification_extrator.py
index b8dec2a..4a6c80a 100644
--- a/comb_spec_searcher/specification_extrator.py
+++ b/comb_spec_searcher/specification_extrator.py
@@ -86,7 +86,11 @@ class SpecificationRuleExtractor:
             if len(children) != 1:
                 raise self._missing_rule_error(parent, children) from e
         else:
-            return strategy(self.classdb.get_class(parent))
+            rule = strategy(self.classdb.get_class(parent))
+            if len(children) == 1 and len(rule.children) > 1 and rule.is_equivalence():
+                assert isinstance(rule, Rule)
+                return rule.to_equivalence_rule()
+            return rule
         # From now on we are looking for a two way strategy
         assert len(children) == 1
         try:
-- 
2.43.0


From b819f4a15f869633234332ad00017af6413f7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 04/29] fix: ClassDB membership is total and an unknown label
 is not found

---
 comb_spec_searcher/class_db.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 022775a..8accf54 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -44,10 +44,9 @@ class LabelToInfo(MutableMapping[int, Optional[Info]]):
         self.empty_list = empty_list
 
     def __getitem__(self, label: int) -> Optional[Info]:
-        try:
-            return Info(self.comb_class_list[label], label, self.empty_list[label])
-        except KeyError:
+        if not 0 <= label < len(self.comb_class_list):
             return None
+        return Info(self.comb_class_list[label], label, self.empty_list[label])
 
     def __setitem__(self, key: int, value: Optional[Info]) -> None:
         raise NotImplementedError
@@ -159,7 +158,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         elif isinstance(key, int):
             info = self.label_to_info.get(key)
         else:
-            raise ValueError("Invalid key")
+            info = None
         return info is not None
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From bb64b3beb71931b59d58d5a0605061afe3a6a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 05/29] fix: RuleDB.contains looks up a hashable key

---
 comb_spec_searcher/rule_db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index b646340..96ed6f0 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -157,7 +157,7 @@ class RuleDBBase(RuleDBAbstract):
 
     def contains(self, start: int, ends: Tuple[int, ...]) -> bool:
         """Return true if the rule start -> ends is in the database."""
-        key = (start, sorted(ends))
+        key = (start, tuple(sorted(ends)))
         return key in self.rule_to_strategy or key in self.eqv_rule_to_strategy
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 13930a7bdefce05ebd1f7c05c6e2c1acb27d181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 06/29] fix: reverse of an equivalence rule with merged
 parameters is not an equivalence rule

---
 comb_spec_searcher/strategies/rule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 7195b81..3264b6f 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -781,9 +781,11 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     ) -> bool:
         return True
 
-    def to_reverse_rule(self, idx: int) -> "EquivalenceRule":
+    def to_reverse_rule(self, idx: int) -> "Rule":
         assert idx == 0
-        return self.original_rule.to_reverse_rule(self.child_idx).to_equivalence_rule()
+        rule = self.original_rule.to_reverse_rule(self.child_idx)
+        # The reverse is not an equivalence if parameters were merged
+        return rule.to_equivalence_rule() if rule.is_equivalence() else rule
 
     def to_equivalence_rule(self) -> "EquivalenceRule":
         raise NotImplementedError("You don't want to do that! I promise")
-- 
2.43.0


From dbdf34542080d88ea7a83356173b4c6d8e48e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 07/29] fix: complement subtracts the siblings before mapping
 merged parameters to the flipped child

---
 .../strategies/constructor/disjoint.py        | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index b2c4686..c4ba092 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -360,20 +360,22 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     def get_terms(
         self, parent_terms: Callable[[int], Terms], subterms: SubTerms, n: int
     ) -> Terms:
-        parent_terms_mapped: Terms = Counter()
-        for param, value in subterms[0](n).items():
-            if value:
-                parent_terms_mapped[self._parent_param_map(param)] += value
+        # We first subtract from the total, since a parameter of the parent can only be
+        # mapped to the flipped child for the objects that belong to this child.
+        remaining_terms: Terms = Counter(
+            {param: value for param, value in subterms[0](n).items() if value}
+        )
         children_terms = subterms[1:]
         for child_terms, param_map in zip(children_terms, self._children_param_maps):
-            # we subtract from total
             for param, value in child_terms(n).items():
-                mapped_param = self._parent_param_map(param_map(param))
-                parent_terms_mapped[mapped_param] -= value
-                assert parent_terms_mapped[mapped_param] >= 0
-                if parent_terms_mapped[mapped_param] == 0:
-                    parent_terms_mapped.pop(mapped_param)
-
+                mapped_param = param_map(param)
+                remaining_terms[mapped_param] -= value
+                assert remaining_terms[mapped_param] >= 0
+                if remaining_terms[mapped_param] == 0:
+                    remaining_terms.pop(mapped_param)
+        parent_terms_mapped: Terms = Counter()
+        for param, value in remaining_terms.items():
+            parent_terms_mapped[self._parent_param_map(param)] += value
         return parent_terms_mapped
 
     def get_sub_objects(
-- 
2.43.0


From 4b99b2ca666adc6f96fea3edb6ee265b005d632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 08/29] fix: has_specification merges equivalent labels before
 looking up the root

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index 96ed6f0..910612f 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -220,7 +220,9 @@ class RuleDBBase(RuleDBAbstract):
 
     def has_specification(self) -> bool:
         """Return True if a specification has been found, false otherwise."""
-        return self.equivdb[self.root_label] in self.pruned_dict
+        # Computing the pruned dict can merge the root with other labels.
+        pruned_dict = self.pruned_dict
+        return self.equivdb[self.root_label] in pruned_dict
 
     def rule_from_equivalence_rule(
         self, eqv_start: int, eqv_ends: Iterable[int]
-- 
2.43.0


From e9ad4e9b356ec4330ded45f2c05ffbee05f4fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 09/29] fix: iterative pruning starts from the equivalence
 class of the root

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index 910612f..eaa3a82 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -70,7 +70,9 @@ class RuleDBBase(RuleDBAbstract):
         if self._pruned_dict is None:
             rules_dict = self.rules_up_to_equivalence()
             if self.iterative:
-                rules_dict = iterative_prune(rules_dict, root=self.root_label)
+                rules_dict = iterative_prune(
+                    rules_dict, root=self.equivdb[self.root_label]
+                )
             else:
                 prune(rules_dict)
             self._pruned_dict = rules_dict
-- 
2.43.0


From 2bca7a3c366e4c5e5dc2f42e4eeeb9b30f670bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 10/29] fix: proof_tree_generator_bfs uses a single rule for
 each label of a tree

---
 comb_spec_searcher/tree_searcher.py | 38 +++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index cd8ee67..96f18fe 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -5,7 +5,7 @@ Finds and returns a combinatorial specification, that we call a proof tree.
 import time
 from collections import defaultdict, deque
 from copy import deepcopy
-from itertools import chain, product
+from itertools import chain
 from random import choice, shuffle
 from typing import Dict, FrozenSet, Iterator, List, Optional, Sequence, Set, Tuple
 
@@ -196,25 +196,37 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
     N.B. The rules_dict is assumed to be pruned.
     """
 
-    def _bfs_helper(root_label: int, seen: FrozenSet[int]):
-        if root_label in seen:
-            yield Node(root_label)
+    def _bfs_helper(
+        queue: Tuple[int, ...], chosen: Dict[int, Tuple[int, ...]]
+    ) -> Iterator[Dict[int, Tuple[int, ...]]]:
+        while queue and queue[0] in chosen:
+            queue = queue[1:]
+        if not queue:
+            yield chosen
             return
-        next_seen = seen.union((root_label,))
-        for rule in rules_dict[root_label]:
-            for children in product(
-                *[_bfs_helper(child_label, next_seen) for child_label in rule]
-            ):
-                root_node = Node(root_label)
-                root_node.children = list(children)
-                yield root_node
+        for rule in sorted_rules_dict[queue[0]]:
+            yield from _bfs_helper(queue[1:] + rule, {**chosen, queue[0]: rule})
+
+    def _bfs_tree(chosen: Dict[int, Tuple[int, ...]]) -> Node:
+        root_node = Node(root)
+        seen: Set[int] = set()
+        nodes = deque([root_node])
+        while nodes:
+            node = nodes.popleft()
+            if node.label not in seen:
+                seen.add(node.label)
+                node.children = [Node(label) for label in chosen[node.label]]
+                nodes.extend(node.children)
+        return root_node
 
     sorted_rules_dict = {
         start: tuple(sorted(ends)) for start, ends in rules_dict.items()
     }
 
     if root in sorted_rules_dict:
-        yield from _bfs_helper(root, frozenset())
+        # Every label must use the same rule in the whole tree, so we first choose the
+        # rules and then build the tree.
+        yield from map(_bfs_tree, _bfs_helper((root,), {}))
 
 
 def proof_tree_generator_dfs(
-- 
2.43.0


From 4865213ec54b294ac4754af31eafb34713c4eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 11/29] fix: iterative_proof_tree_bfs does not follow cycles of
 rules

---
 comb_spec_searcher/tree_searcher.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index 96f18fe..d964a5d 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -143,11 +143,24 @@ def all_proof_trees_dfs(
 def iterative_proof_tree_bfs(rules_dict: RulesDict, root: int) -> Node:
     """Takes in a iterative pruned rules_dict and returns iterative proof
     tree."""
+    # Only follow the rules from which the labels can be verified one after the other, as
+    # others can form an infinite cycle.
+    verified_labels = {root}
+    rules: Dict[int, Tuple[int, ...]] = {}
+    changed = True
+    while changed:
+        changed = False
+        for label, rule_set in rules_dict.items():
+            valid = [r for r in rule_set if all(x in verified_labels for x in r)]
+            if label not in rules and valid:
+                rules[label] = min(valid)
+                verified_labels.add(label)
+                changed = True
     root_node = Node(root)
     queue = deque([root_node])
     while queue:
         v = queue.popleft()
-        rule = sorted(rules_dict[v.label])[0]
+        rule = rules[v.label]
         if not rule == ():
             children = [Node(i) for i in rule]
             queue.extend([child for child in children if not child.label == root])
-- 
2.43.0


From 224eb98f9fea37448ae32c7997e259f4a68763c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 12/29] fix: extract two-way rules that are not equivalences
 and whose other children are empty

---
 comb_spec_searcher/specification_extrator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/comb_spec_searcher/specification_extrator.py b/comb_spec_searcher/specification_extrator.py
index 4a6c80a..3eb1d95 100644
--- a/comb_spec_searcher/specification_extrator.py
+++ b/comb_spec_searcher/specification_extrator.py
@@ -100,7 +100,9 @@ class SpecificationRuleExtractor:
         else:
             rule = strategy(self.classdb.get_class(parent))
             assert isinstance(rule, Rule)
-            return rule if len(rule.children) == 1 else rule.to_equivalence_rule()
+            if len(rule.children) == 1 or not rule.is_equivalence():
+                return rule
+            return rule.to_equivalence_rule()
         # Now trying a reverse rule
         try:
             strategy = self.ruledb.eqv_rule_to_strategy[(children[0], (parent,))]
@@ -109,8 +111,10 @@ class SpecificationRuleExtractor:
         else:
             rule = strategy(self.classdb.get_class(children[0]))
             assert isinstance(rule, Rule)
-            rule = rule if len(rule.children) == 1 else rule.to_equivalence_rule()
-            return rule.to_reverse_rule(0)
+            if len(rule.children) > 1 and rule.is_equivalence():
+                return rule.to_equivalence_rule().to_reverse_rule(0)
+            idx = [self.classdb.get_label(c) for c in rule.children].index(parent)
+            return rule.to_reverse_rule(idx)
         raise self._missing_rule_error(parent, children)
 
     def _missing_rule_error(self, parent: int, children: Tuple[int, ...]) -> ValueError:
-- 
2.43.0


From bebf0c03f6e1edfe2a6bfa3bbec0d0b40bf677aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 13/29] fix: map objects when only the domain has an
 equivalence rule before an atom

---
 comb_spec_searcher/isomorphism.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 99a5bf2..21bb6ca 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -348,10 +348,11 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if not rule1.children:
             return ParseTreeMap._min_object(rule2)
 
-        assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
+        assert isinstance(rule1, Rule)
         mapped_obj, idx = rule1.indexed_forward_map(obj)
 
-        if rule2.is_equivalence():
+        # The second rule is not a Rule when rule1 is an equivalence rule to an atom.
+        if isinstance(rule2, Rule) and rule2.is_equivalence():
             if not rule1.is_equivalence():
                 # Backward map the outcome of a recursion when
                 # we move one rule further in spec2 only.
@@ -376,6 +377,7 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         else:
             # Fetch the matching order to know what parts to recurse together.
             order = self.get_order[(rule1.comb_class, rule2.comb_class)]
+        assert isinstance(rule2, Rule)
 
         # Sort rule1's children to match those of rule 2
         _children = self._get_nonempty(rule1, mapped_obj)
-- 
2.43.0


From 51d0fabf3fc0f13657f7c2061f224b437c6f6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 14/29] fix: forget the matches that relied on a failed match
 of their ancestors

---
 comb_spec_searcher/isomorphism.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 21bb6ca..8ef0b4a 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -114,6 +114,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if is_base_case:
             return bool(is_base_case + 1)
 
+        # Matches found from here on may rely on the current nodes being matched
+        known_matches = len(self._order_map)
+
         # Update ancestors for recursion
         self._ancestors.update(product(eq_path1, eq_path2))
 
@@ -178,6 +181,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         self._ancestors.difference_update(product(eq_path1, eq_path2))
         self._failed.add((curr1, curr2))
         self._index_data.pop((curr1, curr2), None)
+        # The matches found below might have assumed that the current nodes match.
+        while len(self._order_map) > known_matches:
+            self._index_data.pop(self._order_map.popitem()[0], None)
         return False
 
     def _get_eq_descendant(
-- 
2.43.0


From cd8b662d667bf30f3b11ae7dbeefd507dfe2af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 15/29] fix: no bijection is constructed from complement and
 quotient rules

---
 comb_spec_searcher/isomorphism.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 8ef0b4a..961720b 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -13,7 +13,7 @@ from typing import (
 )
 
 from .combinatorial_class import CombinatorialClass
-from .strategies.rule import AbstractRule, Rule
+from .strategies.rule import AbstractRule, ReverseRule, Rule
 
 if TYPE_CHECKING:
     from .combinatorial_class import CombinatorialObject
@@ -429,6 +429,8 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         iso = Isomorphism[ClassType1, ObjType1, ClassType2, ObjType2](spec, other)
         if not iso.are_isomorphic():
             return None
+        if not (cls._can_map_objects(spec) and cls._can_map_objects(other)):
+            return None
         return cls(spec, other, iso.get_order(), iso.get_order_data())
 
     def __init__(
@@ -449,6 +451,16 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             (c2, c1): Bijection._perm_inv(lis) for ((c1, c2), lis) in get_order.items()
         }
 
+    @staticmethod
+    def _can_map_objects(spec: "CombinatorialSpecification") -> bool:
+        """Objects can't be mapped by the complement and quotient rules, that is, the
+        reverse of rules with at least two non-empty children."""
+        return all(
+            len(rule.original_rule.non_empty_children()) == 1
+            for rule in spec.rules_dict.values()
+            if isinstance(rule, ReverseRule)
+        )
+
     @property
     def domain(self) -> "CombinatorialSpecification[ClassType1, ObjType1]":
         """The root class of the first specification."""
-- 
2.43.0


From a4ff7ff9a426dc0c4a0733a0e4f4c37c529ec553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 16/29] fix: extract the parallel specifications from the start
 label

---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 283a5a8..d24c782 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -533,7 +533,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
     @staticmethod
     def _create_spec(d: SpecMap, pi: ParallelInfo) -> CombinatorialSpecification:
         rules = SpecificationRuleExtractor(
-            pi.root_eq_label,
+            pi.searcher.start_label,
             ParallelSpecFinder._create_tree(d, pi.root_eq_label),
             pi.ruledb,
             pi.searcher.classdb,
-- 
2.43.0


From 4074a3e315472c4429caa8a92c0da4dfa243e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:17 +0000
Subject: [PATCH 17/29] fix: match the children of every pair of labels of
 parallel specifications

---
 comb_spec_searcher/bijection.py | 59 ++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index d24c782..8983810 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -387,22 +387,26 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             sp2,
         ) = ParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs of labels whose assigned children are, or are being, matched.
+        pairs: Set[Tuple[int, int]] = set()
+
         # Recursive helper function that tries to populate the spec maps in a way
         # that no label appears on the LHS more than one time.
         def _rec(
             id1: int,
             id2: int,
-            id_sets: Tuple[Set[int], Set[int]],
+            id_sets: Tuple[Set[int], Set[int], Set[Tuple[int, int]]],
         ) -> bool:
             # Check base cases (invalid = -1, valid = 1)
             bc = ParallelSpecFinder._search_matching_info_recursion_base_cases(
-                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
+                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2, pairs
             )
             if bc:
                 return bool(bc + 1)
 
             # If ids have appeared before, we don't want to clean them when done
             rec1, rec2 = id1 in sp1, id2 in sp2
+            pairs.add((id1, id2))
 
             # For all children that matches for given parent pair where they are either
             # not in spec maps or they are mapped to the children we are looking at.
@@ -415,7 +419,11 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                 sp1[id1], sp2[id2] = children1, children2
 
                 # Construct cleaning sets that are passed down the recursion
-                to_clean: Tuple[Set[int], Set[int]] = (set(), set())
+                to_clean: Tuple[Set[int], Set[int], Set[Tuple[int, int]]] = (
+                    set(),
+                    set(),
+                    set(),
+                )
 
                 # If all the children are valid, compared one at a time in the order
                 # they were matched in the first search.
@@ -432,17 +440,20 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                     # Update the cleaning set so any failing ancestor can remove.
                     id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                     id_sets[1].update(to_clean[1], () if rec2 else (id2,))
+                    id_sets[2].update(to_clean[2], ((id1, id2),))
                     return True
                 # If failed, remove all descendants that populated the spec maps.
                 ParallelSpecFinder._clean_descendants(
-                    *to_clean, id1, id2, sp1, sp2, rec1, rec2
+                    to_clean[0], to_clean[1], id1, id2, sp1, sp2, rec1, rec2
                 )
+                pairs.difference_update(to_clean[2])
+            pairs.remove((id1, id2))
             return False
 
         if _rec(
             self._pi1.root_eq_label,
             self._pi2.root_eq_label,
-            (set(), set()),
+            (set(), set(), set()),
         ):
             return sp1, sp2
         return None
@@ -471,6 +482,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        pairs: Set[Tuple[int, int]],
     ) -> int:
         if ParallelSpecFinder._inconsistent_with_matching_info(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
@@ -480,8 +492,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if ((), ()) in matching_info[(id1, id2)]:
             sp1[id1], sp2[id2] = (), ()
             return ParallelSpecFinder._VALID
-        # If both are assigned, we are done
-        if id1 in sp1 and id2 in sp2:
+        # If both are assigned and matched to each other, we are done
+        if (id1, id2) in pairs:
             return ParallelSpecFinder._VALID
         return ParallelSpecFinder._UNKNOWN
 
@@ -589,13 +601,16 @@ class EqPathParallelSpecFinder(
             sp2,
         ) = EqPathParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs of labels whose assigned children are, or are being, matched.
+        pairs: Set[Tuple[int, int]] = set()
+
         # For storing results of eq path checking.
         eq_path_tracker: EqPathTracker = defaultdict(lambda: defaultdict(dict))
 
         def _rec(
             id1: int,
             id2: int,
-            id_sets: Tuple[Set[int], Set[int]],
+            id_sets: Tuple[Set[int], Set[int], Set[Tuple[int, int]]],
         ) -> bool:
             bc = self._search_matching_info_recursion_base_cases_eq(
                 id1,
@@ -605,19 +620,25 @@ class EqPathParallelSpecFinder(
                 matching_info2,
                 sp1,
                 sp2,
+                pairs,
                 self._path[-1],
                 eq_path_tracker,
             )
             if bc:
                 return bool(bc + 1)
             rec1, rec2 = id1 in sp1, id2 in sp2
+            pairs.add((id1, id2))
             for children1, children2 in filter(
                 lambda c: (id1 not in sp1 or c[0] == sp1[id1])
                 and (id2 not in sp2 or c[1] == sp2[id2]),
                 matching_info[(id1, id2)],
             ):
                 sp1[id1], sp2[id2] = children1, children2
-                to_clean: Tuple[Set[int], Set[int]] = (set(), set())
+                to_clean: Tuple[Set[int], Set[int], Set[Tuple[int, int]]] = (
+                    set(),
+                    set(),
+                    set(),
+                )
 
                 # Check if the path required for the eq labels actually matches
                 if self._eq_path_matches(
@@ -647,16 +668,19 @@ class EqPathParallelSpecFinder(
                     if valid:
                         id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                         id_sets[1].update(to_clean[1], () if rec2 else (id2,))
+                        id_sets[2].update(to_clean[2], ((id1, id2),))
                         return True
                 EqPathParallelSpecFinder._clean_descendants(
-                    *to_clean, id1, id2, sp1, sp2, rec1, rec2
+                    to_clean[0], to_clean[1], id1, id2, sp1, sp2, rec1, rec2
                 )
+                pairs.difference_update(to_clean[2])
+            pairs.remove((id1, id2))
             return False
 
         if _rec(
             self._pi1.root_eq_label,
             self._pi2.root_eq_label,
-            (set(), set()),
+            (set(), set(), set()),
         ):
             return sp1, sp2
         return None
@@ -670,6 +694,7 @@ class EqPathParallelSpecFinder(
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        pairs: Set[Tuple[int, int]],
         relations: Tuple[int, int, int, int],
         eq_path_tracker: EqPathTracker,
     ) -> int:
@@ -685,9 +710,9 @@ class EqPathParallelSpecFinder(
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
             return EqPathParallelSpecFinder._VALID
-        # If both ids are set we still need to check if they are valid in terms
+        # If the pair is matched we still need to check if they are valid in terms
         # of eq paths since we may have arrived from different parents.
-        if id1 in sp1 and id2 in sp2:
+        if (id1, id2) in pairs:
             if self._eq_path_matches(
                 id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
             ):
@@ -695,7 +720,7 @@ class EqPathParallelSpecFinder(
                 # can still be incompatible due to this current path's atom labels.
                 should_check = (id1, id2) not in self._path_ancestors
                 if should_check and not self._validate_atoms_for_existing_entries(
-                    id1, id2, sp1, sp2, matching_info, set()
+                    id1, id2, sp1, sp2, matching_info, pairs, set()
                 ):
                     return EqPathParallelSpecFinder._INVALID
                 return EqPathParallelSpecFinder._VALID
@@ -709,6 +734,7 @@ class EqPathParallelSpecFinder(
         sp1: SpecMap,
         sp2: SpecMap,
         matching_info: MatchingInfo,
+        pairs: Set[Tuple[int, int]],
         mem: Set[Tuple[int, int]],
     ) -> bool:
         """Check if atoms are valid for a given path, when initial ids have already
@@ -720,6 +746,9 @@ class EqPathParallelSpecFinder(
             return True
         if children1 == () == children2:
             return self._atom_path_match(id1, id2, sp1, sp2)
+        # The labels might be assigned but are yet to be matched with each other.
+        if (id1, id2) not in pairs:
+            return True
         mem.add((id1, id2))
         for j2, ((j1, child1), child2) in enumerate(
             zip(
@@ -732,7 +761,7 @@ class EqPathParallelSpecFinder(
         ):
             self._path.append((id1, id2, j1, j2))
             check_descendant = self._validate_atoms_for_existing_entries(
-                child1, child2, sp1, sp2, matching_info, mem
+                child1, child2, sp1, sp2, matching_info, pairs, mem
             )
             self._path.pop()
             if not check_descendant:
-- 
2.43.0


From f13cccfaab462ad525324db3327be4c4c8d2b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:59 +0000
Subject: [PATCH 18/29] fix: the isomorphism test goes through consecutive
 equivalence rules

---
 comb_spec_searcher/isomorphism.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 961720b..0ad64e5 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -147,8 +147,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             self._path_tracker_push(
                 non_empty_ind1[i1],
                 non_empty_ind2[i2],
-                len(eq_path1) > 1,
-                len(eq_path2) > 1,
+                len(eq_path1) - 1,
+                len(eq_path2) - 1,
             )
 
             # Call _are_isomorphic recursively for current pair
@@ -190,12 +190,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         self, node1: ClassType1, node2: ClassType2
     ) -> Tuple[List[ClassType1], List[ClassType2]]:
         """Get path to nodes that are not on the LHS of equivalence rules."""
-        rule1, rule2 = self._rules1[node1], self._rules2[node2]
         nodes1, nodes2 = [node1], [node2]
-        if rule1.is_equivalence():
-            nodes1.append(rule1.children[0])
-        if rule2.is_equivalence():
-            nodes2.append(rule2.children[0])
+        while self._rules1[nodes1[-1]].is_equivalence():
+            nodes1.append(self._rules1[nodes1[-1]].children[0])
+        while self._rules2[nodes2[-1]].is_equivalence():
+            nodes2.append(self._rules2[nodes2[-1]].children[0])
         return nodes1, nodes2
 
     def _base_cases(
@@ -241,11 +240,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         return Isomorphism._UNKNOWN
 
     def _path_tracker_push(
-        self, c1: int, c2: int, eq_path1: bool, eq_path2: bool
+        self, c1: int, c2: int, eq_path1: int, eq_path2: int
     ) -> None:
         """Store the path being taken."""
-        t1 = (0, c1) if eq_path1 else (c1,)
-        t2 = (0, c2) if eq_path2 else (c2,)
+        t1 = (0,) * eq_path1 + (c1,)
+        t2 = (0,) * eq_path2 + (c2,)
         self._path_tracker.append((t1, t2))
 
     def _path_tracker_pop(self) -> None:
-- 
2.43.0


From 7fabf1a009ea45d4c314fb39c33542de6b1a8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:21 +0000
Subject: [PATCH 19/29] fix: validate the equivalence paths to the atoms of
 parallel specifications

---
 comb_spec_searcher/bijection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 8983810..a1cee6b 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -708,7 +708,16 @@ class EqPathParallelSpecFinder(
         if ((), ()) in matching_info[(id1, id2)]:
             if not self._atom_path_match(id1, id2, sp1, sp2):
                 return EqPathParallelSpecFinder._INVALID
+            rec1, rec2 = id1 in sp1, id2 in sp2
             sp1[id1], sp2[id2] = (), ()
+            # The path to the atoms must match as well
+            if not self._eq_path_matches(
+                id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
+            ):
+                EqPathParallelSpecFinder._clean_descendants(
+                    set(), set(), id1, id2, sp1, sp2, rec1, rec2
+                )
+                return EqPathParallelSpecFinder._INVALID
             return EqPathParallelSpecFinder._VALID
         # If the pair is matched we still need to check if they are valid in terms
         # of eq paths since we may have arrived from different parents.
-- 
2.43.0


From d3c0f0edc88656995ff9aaa4f7ae45612f3f3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 20/29] fix: remember the equivalence path checks per position
 below the parents

---
 comb_spec_searcher/bijection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index a1cee6b..969ec11 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -60,8 +60,8 @@ RuleClassification = DefaultDict[
 EqPathTracker = DefaultDict[
     Tuple[int, int],
     DefaultDict[
-        Tuple[int, int],
-        Dict[Tuple[Tuple[int, ...], Tuple[int, ...]], bool],
+        Tuple[int, int, int, int],
+        Dict[Tuple[Optional[Tuple[int, ...]], ...], bool],
     ],
 ]
 
@@ -799,8 +799,9 @@ class EqPathParallelSpecFinder(
         if the actual rules required (disregarding actual equivalence rules) to traverse
         this path match.
         """
-        children = (sp1[id1], sp2[id2])
-        children_cache = cache[(id1, id2)][(pid1, pid2)]
+        # The path depends on which child of which rule of the grandparents we are at.
+        children = (sp1[id1], sp2[id2], sp1.get(pid1), sp2.get(pid2))
+        children_cache = cache[(id1, id2)][(pid1, pid2, idx1, idx2)]
         if children not in children_cache:
             path1 = EquivalenceRuleExtractor(
                 self._pi1.root_eq_label,
-- 
2.43.0


From d2c4db4b4277e5d2cdc9570af9130770e12b2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:49 +0000
Subject: [PATCH 21/29] fix: equality of strategies does not depend on the
 generic alias they were created with

---
 comb_spec_searcher/strategies/strategy.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/strategy.py b/comb_spec_searcher/strategies/strategy.py
index 03ec634..57a00e9 100644
--- a/comb_spec_searcher/strategies/strategy.py
+++ b/comb_spec_searcher/strategies/strategy.py
@@ -114,6 +114,14 @@ def strategy_from_dict(d) -> CSSstrategy:
     return StratClass.from_dict(d)
 
 
+def _settings(strategy: object) -> Dict[str, Any]:
+    """
+    Return the attributes of the strategy. The one that records the generic alias used
+    to create the strategy, if any, is not a setting.
+    """
+    return {k: v for k, v in vars(strategy).items() if k != "__orig_class__"}
+
+
 class AbstractStrategy(
     abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectType]
 ):
@@ -247,7 +255,9 @@ class AbstractStrategy(
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractStrategy):
             return NotImplemented
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(
+            other
+        )
 
     def __repr__(self):
         return (
@@ -947,7 +957,9 @@ class StrategyFactory(abc.ABC, Generic[CombinatorialClassType]):
         pass
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(
+            other
+        )
 
     def __hash__(self) -> int:
         """
-- 
2.43.0


From 7d77e0abd1fda58c3b7738df40daea1232f068ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:49 +0000
Subject: [PATCH 22/29] fix: forest rule databases compare by what they store

---
 comb_spec_searcher/rule_db/forest.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 8b05612..e644e15 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -177,6 +177,12 @@ class Function:
             raise ValueError("The preimage of 0 is infinite.")
         return (k for k, v in enumerate(self._value) if v == value)
 
+    def __eq__(self, other: object) -> bool:
+        """Check if the functions have the same value everywhere."""
+        if not isinstance(other, Function):
+            return NotImplemented
+        return self.to_dict() == other.to_dict()
+
     def to_dict(self) -> Dict[int, Optional[int]]:
         """
         Return a dictionary view of the function with only the non-zero value.
@@ -240,6 +246,12 @@ class TableMethod:
             self._processing_queue.append(rule_idx)
         self._process_queue()
 
+    def __eq__(self, other: object) -> bool:
+        """Check if the same rules were added, and the same terms are computable."""
+        if not isinstance(other, TableMethod):
+            return NotImplemented
+        return bool(self._rules == other._rules and self._function == other._function)
+
     def is_pumping(self, label: int) -> bool:
         """
         Determine if the comb_class is pumping in the current universe.
@@ -634,6 +646,18 @@ class RuleDBForest(RuleDBAbstract):
         self._already_empty: Set[int] = set()
         self._rule_cache = tuple(rule_cache)
 
+    def __eq__(self, other: object) -> bool:
+        """Check if all stored information is the same."""
+        if not isinstance(other, self.__class__):
+            return NotImplemented
+        return bool(
+            self.reverse == other.reverse
+            and self._num_rules == other._num_rules
+            and self._already_empty == other._already_empty
+            and self._rule_cache == other._rule_cache
+            and self.table_method == other.table_method
+        )
+
     # Implementation of RuleDBAbstract
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 7ae473cf99a680e18035dc2b7c6872192df3fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 23/29] fix: recomputed strategies keep the children that were
 kept when the rule was added

---
 comb_spec_searcher/rule_db/forget.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index 66bef70..fe982c2 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -107,8 +107,11 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                         # all the classes of a stored rule have a label
                         continue
                     start_label = self.classdb.get_label(rule.comb_class)
+                    # the same children are removed as when the rule was added
                     nonempty_children = tuple(
-                        c for c in rule.children if not self.classdb.is_empty(c)
+                        c
+                        for c in rule.children
+                        if not (rule.possibly_empty and self.classdb.is_empty(c))
                     )
                     end_labels = tuple(
                         sorted(map(self.classdb.get_label, nonempty_children))
-- 
2.43.0


From 52b5f7351aefa2fd7a1a3e82dfbb8c8c681a1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 24/29] fix: keep every parent parameter merged into a child
 parameter in the equation of a Cartesian product

---
 .../strategies/constructor/cartesian.py               | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index b259bf0..7a4f811 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -145,10 +145,13 @@ class CartesianProduct(Constructor[CombinatorialClassType, CombinatorialObjectTy
     ) -> sympy.Eq:
         res = 1
         for extra_parameters, rhs_func in zip(self.extra_parameters, rhs_funcs):
-            res *= rhs_func.subs(
-                {child: parent for parent, child in extra_parameters.items()},
-                simultaneous=True,
-            )
+            subs: Dict[str, sympy.Expr] = {}
+            for parent, child in extra_parameters.items():
+                if child in subs:
+                    subs[child] *= sympy.var(parent)
+                else:
+                    subs[child] = sympy.var(parent)
+            res *= rhs_func.subs(subs, simultaneous=True)
         return sympy.Eq(lhs_func, res)
 
     def reliance_profile(self, n: int, **parameters: int) -> RelianceProfile:
-- 
2.43.0


From 6ac846045b21b03a82bf4bb996b21970a7f77926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 25/29] fix: check the initial conditions of every class when
 choosing between several generating functions

---
 comb_spec_searcher/specification.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index ae50999..de47171 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -418,12 +418,37 @@ class CombinatorialSpecification(
                 expansion = taylor_expand(genf, check)
             except TaylorExpansionError:
                 continue
-            if expansion == initial_conditions:
+            if expansion == initial_conditions and (
+                len(solutions) == 1 or self._satisfies_initial_conditions(solution)
+            ):
                 return sympy.simplify(genf)
         raise IncorrectGeneratingFunctionError(
             "Failed to compute the generating function for the specification."
         )
 
+    def _satisfies_initial_conditions(self, solution: Dict[Function, Expr]) -> bool:
+        """
+        Return True if the expansion of each function of the solution agrees with the
+        counts of its class, up to the smallest objects of the class. Together with
+        the equations these coefficients determine the functions, while the first
+        coefficients for the root alone can be the same for different solutions.
+        """
+        for comb_class, rule in self.rules_dict.items():
+            func = self.get_function(comb_class)
+            if func not in solution:
+                continue
+            check = comb_class.minimum_size_of_object()
+            try:
+                counts = [sum(rule.get_terms(n).values()) for n in range(check + 1)]
+            except NotImplementedError:
+                continue
+            try:
+                if taylor_expand(solution[func], check) != counts:
+                    return False
+            except TaylorExpansionError:
+                return False
+        return True
+
     def get_maple_equations(self, check: int = 6) -> str:
         """
         Convert the systems of equations to version that can be copy pasted to maple.
-- 
2.43.0


From 091eeacfe97f7dab90e7abbd50eb204a1d0fe34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 26/29] fix: equivalence and reverse forms of a Cartesian
 product with a single factor

---
 .../strategies/constructor/cartesian.py       |  8 +++++++
 comb_spec_searcher/strategies/rule.py         | 23 ++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index 7a4f811..fa74d46 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -409,6 +409,12 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         self._parent_shift = sum(self._min_sizes) - self._min_sizes[self.idx]
         self._num_parent_params = len(parent.extra_parameters)
 
+    def can_be_equivalent(self) -> bool:
+        return all(
+            len(params.values()) == len(set(params.values()))
+            for params in self.extra_parameters
+        )
+
     @staticmethod
     def param_map(
         child_pos_to_parent_pos: Tuple[Tuple[int, ...], ...],
@@ -512,6 +518,8 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         Dict representing the polynomial that multiply the polynomial of the
         flipped child for length n.
         """
+        if self.number_of_children == 1:
+            return Counter({(0,) * self._num_parent_params: 1})
         min_sizes = self._min_sizes[: self.idx] + self._min_sizes[self.idx + 1 :]
         max_sizes = self._max_sizes[: self.idx] + self._max_sizes[self.idx + 1 :]
         possible_sizes = utils.compositions(
diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 3264b6f..6d38f48 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -43,7 +43,13 @@ from comb_spec_searcher.typing import (
 from ..combinatorial_class import CombinatorialClassType, CombinatorialObjectType
 from ..exception import SanityCheckFailure, SpecificationNotFound, StrategyDoesNotApply
 from ..utils import TermsCache, equal_counters
-from .constructor import Complement, Constructor, DisjointUnion
+from .constructor import (
+    CartesianProduct,
+    Complement,
+    Constructor,
+    DisjointUnion,
+    Quotient,
+)
 
 if TYPE_CHECKING:
     from .strategy import AbstractStrategy, Strategy, VerificationStrategy
@@ -748,20 +754,22 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     def constructor(self) -> Union[DisjointUnion, Complement]:
         if self._constructor is None:
             original_constructor = self.original_rule.constructor
-            if isinstance(original_constructor, DisjointUnion):
+            if isinstance(original_constructor, (DisjointUnion, CartesianProduct)):
                 self._constructor = DisjointUnion(
                     self.comb_class,
                     self.children,
                     (original_constructor.extra_parameters[self.child_idx],),
                 )
-            elif isinstance(original_constructor, Complement):
+            elif isinstance(original_constructor, (Complement, Quotient)):
                 assert isinstance(self.original_rule, ReverseRule)
                 original_original_rule = self.original_rule.original_rule
                 original_original_child_idx = (
                     original_original_rule.to_equivalence_rule().child_idx
                 )
                 original_original_constructor = original_original_rule.constructor
-                assert isinstance(original_original_constructor, DisjointUnion)
+                assert isinstance(
+                    original_original_constructor, (DisjointUnion, CartesianProduct)
+                )
                 self._constructor = Complement(
                     self.children[0],
                     (self.comb_class,),
@@ -858,9 +866,12 @@ class EquivalencePathRule(Rule[CombinatorialClassType, CombinatorialObjectType])
             }
             for rule in self.rules:
                 original_constructor = rule.constructor
-                assert isinstance(original_constructor, (DisjointUnion, Complement))
+                assert isinstance(
+                    original_constructor,
+                    (DisjointUnion, CartesianProduct, Complement, Quotient),
+                )
                 rules_parameters = original_constructor.extra_parameters[0]
-                if isinstance(original_constructor, Complement):
+                if isinstance(original_constructor, (Complement, Quotient)):
                     if len(set(rules_parameters.values())) != len(
                         rules_parameters.values()
                     ):
-- 
2.43.0


From c2335e95e6f6bbdeb183ba12c8af9e439a97c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 27/29] fix: treat atoms that a strategy decomposes as leaves
 in the parallel specification finder

---
 comb_spec_searcher/bijection.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 969ec11..d61df72 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -130,18 +130,20 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
             CombinatorialClassType, CombinatorialObjectType
         ] = defaultdict(lambda: defaultdict(list))
 
+        verified = {eq_par for eq_par, eq_chi in lis if not eq_chi}
         for eq_par, eq_chi in lis:
+            if eq_chi and eq_par in verified:
+                # Atoms are leaves, even if some strategy decomposes them.
+                continue
             parent, rule = self._get_class_and_rule(eq_par, eq_chi, rule_dict)
             assert not parent.is_empty()
-            if parent.is_atom():
+            if not eq_chi:
+                if not parent.is_atom():
+                    raise ValueError("Only atoms can be verified.")
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
                 ).size()
                 self.atom_map[eq_par] = (sz, rule.get_terms(sz))
-            else:
-                if not isinstance(rule, Rule):
-                    raise ValueError("Only atoms can be verified.")
-                assert len(eq_chi) > 0
             eq_label_rules[eq_par][len(eq_chi)].append((eq_chi, rule))
         return eq_label_rules
 
-- 
2.43.0


From e296a579d7470984be363f8626241572d98210fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 28/29] fix: allow the recursion depth that sampling a large
 object needs

Sampling goes through several function calls for each rule used, so that the
recursion limit of one call per rule and size was hit by specifications with
few rules.
---
 comb_spec_searcher/specification.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index de47171..ce8592a 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -505,7 +505,9 @@ class CombinatorialSpecification(
         Return a uniformly random object of the given size. This is done using
         the "recursive" method.
         """
-        limit = n * self.number_of_rules()
+        # Sampling goes through several function calls for each rule that is used,
+        # and each rule can be used once for each size.
+        limit = 10 * (n + 1) * self.number_of_rules()
         with RecursionLimit(limit):
             if self.count_objects_of_size(n, **parameters) > 0:
                 return self.root_rule.random_sample_object_of_size(n, **parameters)
-- 
2.43.0


From 42ff6269e176a139256ff964b7fb8032aa07b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 29/29] fix: sanity check leaves the rule as it was when a
 class can't list its objects

When a class does not implement the listing of its objects, the counting and
generation checks returned without restoring the functions they replaced, so
the rule of the specification kept on calling the brute force functions of the
children.
---
 comb_spec_searcher/strategies/rule.py | 35 ++++++++++++---------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 6d38f48..b5dc668 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -566,7 +566,8 @@ class Rule(AbstractRule[CombinatorialClassType, CombinatorialObjectType]):
         except (NotImplementedError, SpecificationNotFound) as e:
             logger.warning("Skipping sanity checking counts for rule\n%s\n%s", self, e)
             return True
-        self.subterms = temp_subterms
+        finally:
+            self.subterms = temp_subterms
 
         # REMINDER: In python versions 3.9 and older, the counters Counter() and
         # Counter({tuple(): 0}) are considered distinct. We want them to be treated
@@ -597,7 +598,8 @@ class Rule(AbstractRule[CombinatorialClassType, CombinatorialObjectType]):
                 "Skipping sanity checking generation for rule\n%s\n%s", self, e
             )
             return True
-        self.subobjects = tempobjects
+        finally:
+            self.subobjects = tempobjects
         actual_objects = self.comb_class.get_objects(n)
         for obj_list in chain(rule_objects.values(), actual_objects.values()):
             obj_list.sort()
@@ -655,29 +657,22 @@ class Rule(AbstractRule[CombinatorialClassType, CombinatorialObjectType]):
         self.subrecs = tuple(fake_subrec(child) for child in self.children)
         self.subterms = tuple(child.get_terms for child in self.children)
         try:
-            self.random_sample_object_of_size(n, **possible_parameters[0][0])
+            for paramd, paramt in possible_parameters:
+                obj = self.random_sample_object_of_size(n, **paramd)
+                if obj not in actual_objects[paramt]:
+                    raise SanityCheckFailure(
+                        f"The following rule failed sanity check:\n"
+                        f"{self}\n"
+                        f"Failed for size {n}:\n"
+                        f"Sampled the object {obj} for the parameters {paramd}\n"
+                    )
         except NotImplementedError:
             # Skipping testing rules that have not implemented random_sampling.
+            return True
+        finally:
             self.subsamplers = tmpsamplers
             self.subrecs = tmpsubrec
             self.subterms = tmpsubterms
-            return True
-
-        for paramd, paramt in possible_parameters:
-            obj = self.random_sample_object_of_size(n, **paramd)
-            if obj not in actual_objects[paramt]:
-                self.subsamplers = tmpsamplers
-                self.subrecs = tmpsubrec
-                self.subterms = tmpsubterms
-                raise SanityCheckFailure(
-                    f"The following rule failed sanity check:\n"
-                    f"{self}\n"
-                    f"Failed for size {n}:\n"
-                    f"Sampled the object {obj} for the parameters {paramd}\n"
-                )
-        self.subsamplers = tmpsamplers
-        self.subrecs = tmpsubrec
-        self.subterms = tmpsubterms
         return True
 
 
-- 
2.43.0

