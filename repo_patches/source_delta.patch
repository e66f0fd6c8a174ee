From 0e0dde095fdd0539acd2e420ca60ea336f403340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 01/59] fix: empty sets and multisets are right-regular (as
 they are regular)

---
 algebraixlib/mathobjects/multiset.py | 1 +
 algebraixlib/mathobjects/set.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index a68bfe1..0740e1f 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -66,6 +66,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     # These three are defined for multiclans (multisets of relations), where they inherit the
     # definition from (non-multi) relations.
     flags.f.reflexive = CacheStatus.IS
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 95507fb..be3d57f 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -93,6 +93,7 @@ def _init_cache_empty() -> int:
     flags.f.relation = CacheStatus.IS
     flags.f.functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.reflexive = CacheStatus.IS
     flags.f.symmetric = CacheStatus.IS
-- 
2.43.0


From b4b9beaf307c7a524693e4f7e66587df47098204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 02/59] fix: a set that contains an empty set (besides
 couplets) is not a relation

Membership in relations, clans and multiclans was decided by comparing ground sets. The structure of
an empty set is a subset of every structure and vanishes in a union of structures, so an empty set
among couplets (or an empty multiset among relations) went unnoticed and operations failed later.
---
 algebraixlib/algebras/clans.py      | 29 +++++++++--------------------
 algebraixlib/algebras/multiclans.py | 27 +++++++--------------------
 algebraixlib/algebras/relations.py  | 27 +++++++--------------------
 3 files changed, 23 insertions(+), 60 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c273c6c..6c87f07 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -404,7 +404,9 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_clan == CacheStatus.UNKNOWN:
-        is_clan = obj.get_ground_set().is_subset(get_ground_set())
+        # (An empty set as element has an empty ground set, which is a subset of every structure.
+        # This is why the elements need to be looked at, and not only the ground set.)
+        is_clan = obj.is_set and all(_relations.is_member(elem) for elem in obj.data)
         obj.cache_clan(CacheStatus.from_bool(is_clan))
     return obj.cached_is_clan
 
@@ -427,26 +429,13 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_clan:
-        # If known to not be a clan, it's also not an absolute clan. No further caching.
+    if not is_member(obj):
+        # If it is not a clan, it's also not an absolute clan. No further caching.
         return False
-    # The `or` clause in this `if` statement is a safety thing. It should never hit.
-    if obj.cached_absolute == CacheStatus.UNKNOWN or obj.cached_clan == CacheStatus.UNKNOWN:
-        # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
-        is_absolute_clan = obj.get_ground_set().is_subset(get_absolute_ground_set())
-        if obj.cached_clan == CacheStatus.UNKNOWN:
-            if is_absolute_clan:
-                # If it is an absolute clan, it is also a clan.
-                obj.cache_clan(CacheStatus.IS)
-            else:
-                # If it is not an absolute clan, it may still be a clan.
-                is_clan = is_member(obj)
-                if not is_clan:
-                    # If it is neither an absolute clan nor a clan, exit. (That it is not a clan
-                    # has already been cached in is_member().)
-                    return False
-        # At this point, cached_clan == IS. Cache whether this is an absolute clan.
-        assert obj.cached_is_clan
+    if obj.cached_absolute == CacheStatus.UNKNOWN:
+        # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
+        # clan.
+        is_absolute_clan = all(_relations.is_absolute_member(elem) for elem in obj.data)
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_clan))
     # At this point, cached_clan == IS. Return whether it is an absolute clan.
     return obj.cached_is_absolute
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff0539b..3c9939f 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -373,7 +373,9 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_multiclan == CacheStatus.UNKNOWN:
-        is_multiclan = obj.get_ground_set().is_subset(get_ground_set())
+        # (An empty set as element has an empty ground set, which is a subset of every structure.
+        # This is why the elements need to be looked at, and not only the ground set.)
+        is_multiclan = obj.is_multiset and all(_relations.is_member(elem) for elem in obj.data)
         obj.cache_multiclan(CacheStatus.from_bool(is_multiclan))
     return obj.cached_is_multiclan
 
@@ -396,28 +398,13 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_multiclan:
-        # If known to not be a multiclan, it's also not an absolute multiclan. No further caching.
+    if not is_member(obj):
+        # If it is not a multiclan, it's also not an absolute multiclan. No further caching.
         return False
-    # The `or` clause in this `if` statement is a safety thing. It should never hit.
-    if obj.cached_absolute == CacheStatus.UNKNOWN \
-            or obj.cached_multiclan == CacheStatus.UNKNOWN:
+    if obj.cached_absolute == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # multiclan.
-        is_absolute_mclan = obj.get_ground_set().is_subset(get_absolute_ground_set())
-        if obj.cached_multiclan == CacheStatus.UNKNOWN:
-            if is_absolute_mclan:
-                # If it is an absolute multiclan, it is also a multiclan.
-                obj.cache_multiclan(CacheStatus.IS)
-            else:
-                # If it is not an absolute multiclan, it may still be a multiclan.
-                is_mclan = is_member(obj)
-                if not is_mclan:
-                    # If it is neither an absolute multiclan nor a multiclan, exit. (That it is
-                    # not a multiclan has already been cached in is_member().)
-                    return False
-        # At this point, cached_multiclan == IS. Cache whether this is an absolute multiclan.
-        assert obj.cached_is_multiclan
+        is_absolute_mclan = all(_relations.is_absolute_member(elem) for elem in obj.data)
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_mclan))
     # At this point, cached_multiclan == IS. Return whether it is an absolute multiclan.
     return obj.cached_is_absolute
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index bf0181b..fd4449b 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -196,7 +196,9 @@ def is_member(obj: _mo.MathObject) -> bool:
         of this operation is cached.
     """
     if obj.cached_relation == CacheStatus.UNKNOWN:
-        is_relation = obj.get_ground_set().is_subset(get_ground_set())
+        # (An empty set as element has an empty ground set, which is a subset of every structure.
+        # This is why the elements need to be looked at, and not only the ground set.)
+        is_relation = obj.is_set and all(_couplets.is_member(elem) for elem in obj.data)
         obj.cache_relation(CacheStatus.from_bool(is_relation))
     return obj.cached_is_relation
 
@@ -219,28 +221,13 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_relation:
-        # If known to not be a relation, it's also not an absolute relation. No further caching.
+    if not is_member(obj):
+        # If it is not a relation, it's also not an absolute relation. No further caching.
         return False
-    # The `or` clause in this `if` statement is a safety thing. It should never hit.
-    if obj.cached_absolute == CacheStatus.UNKNOWN \
-            or obj.cached_relation == CacheStatus.UNKNOWN:
+    if obj.cached_absolute == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # relation.
-        is_absolute_relation = obj.get_ground_set().is_subset(get_absolute_ground_set())
-        if obj.cached_relation == CacheStatus.UNKNOWN:
-            if is_absolute_relation:
-                # If it is an absolute relation, it is also a relation.
-                obj.cache_relation(CacheStatus.IS)
-            else:
-                # If it is not an absolute relation, it may still be a relation.
-                is_relation = is_member(obj)
-                if not is_relation:
-                    # If it is neither an absolute relation nor a relation, exit. (That it is not a
-                    # relation has already been cached in is_member().)
-                    return False
-        # At this point, cached_relation == IS. Cache whether this is an absolute relation.
-        assert obj.cached_is_relation
+        is_absolute_relation = all(_couplets.is_absolute_member(elem) for elem in obj.data)
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_relation))
     # At this point, cached_relation == IS. Return whether it is an absolute relation.
     return obj.cached_is_absolute
-- 
2.43.0


From c9e27c1b4edbe947f0dfce91fdbc20183e89827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 03/59] fix: a couplet may have an empty set as right component

get_ground_set() failed with an AssertionError for Couplet('a', Set()), and with it every operation
on relations and clans that contain such a couplet. An empty left component was always accepted.
---
 algebraixlib/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index f4a482f..8779897 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -309,9 +309,8 @@ class CartesianProduct(Structure):
         :param right: The ground set of the :term:`right component` of a couplet. Must be an
             instance of `Structure`.
         """
-        right_is_struct = isinstance(right, Structure)
-        right_not_struct = type(right) != Structure
-        assert right_is_struct and right_not_struct
+        assert isinstance(left, Structure)
+        assert isinstance(right, Structure)
         self._left = left
         self._right = right
 
-- 
2.43.0


From 290c7b0dd510059039ae28bc6cdaaf8519d19170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 04/59] fix: is_regular and is_right_regular for sets of clans

Both called methods that don't exist (get_lefts, get_rights) and failed with an AttributeError.
---
 algebraixlib/algebras/properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 271e2d4..1a667ba 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -332,9 +332,9 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_regular(elem1):
             mo.cache_regular(CacheStatus.IS_NOT)
             return False
-        elem1_lefts = elem1.get_lefts()
+        elem1_lefts = elem1.get_left_set()
         regular = all(
-            is_regular(elem, _checked=False) and elem.get_lefts() == elem1_lefts
+            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
             for elem in mo_iter)
         mo.cache_regular(CacheStatus.from_bool(regular))
         return mo.cached_is_regular
@@ -380,9 +380,9 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_right_regular(elem1):
             mo.cache_right_regular(CacheStatus.IS_NOT)
             return False
-        elem1_rights = elem1.get_rights()
+        elem1_rights = elem1.get_right_set()
         right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_rights() == elem1_rights
+            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
             for elem in mo_iter)
         mo.cache_right_regular(CacheStatus.from_bool(right_regular))
         return mo.cached_is_right_regular
-- 
2.43.0


From ba8ef4f42691a87d3a33a2416e2cb2437115d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 05/59] fix: properties of sets that contain empty sets or
 multisets besides clans

For example, is_functional of {[], {{1->1, 1->2}}} (where [] is an empty multiset) was Undef() or
False, depending on the iteration order of the set.
---
 algebraixlib/algebras/properties.py | 57 +++++++++++++++++------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 1a667ba..96b779c 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -62,7 +62,7 @@ def is_functional(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_functional(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    functional = _is_powerset_property(mo, _clans.get_ground_set(), is_functional)
+    functional = _is_powerset_property(mo, is_functional)
     if functional is not _undef.Undef():
         mo.cache_functional(CacheStatus.from_bool(functional))
         return functional
@@ -104,7 +104,7 @@ def is_right_functional(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_right_functional(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    right_functional = _is_powerset_property(mo, _clans.get_ground_set(), is_right_functional)
+    right_functional = _is_powerset_property(mo, is_right_functional)
     if right_functional is not _undef.Undef():
         mo.cache_right_functional(CacheStatus.from_bool(right_functional))
         return right_functional
@@ -173,7 +173,7 @@ def is_reflexive(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_reflexive(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    reflexive = _is_powerset_property(mo, _clans.get_ground_set(), is_reflexive)
+    reflexive = _is_powerset_property(mo, is_reflexive)
     if reflexive is not _undef.Undef():
         mo.cache_reflexive(CacheStatus.from_bool(reflexive))
         return reflexive
@@ -215,7 +215,7 @@ def is_symmetric(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_symmetric(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    symmetric = _is_powerset_property(mo, _relations.get_ground_set(), is_symmetric)
+    symmetric = _is_powerset_property(mo, is_symmetric)
     if symmetric is not _undef.Undef():
         mo.cache_symmetric(CacheStatus.from_bool(symmetric))
         return symmetric
@@ -257,7 +257,7 @@ def is_transitive(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_transitive(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    transitive = _is_powerset_property(mo, _relations.get_ground_set(), is_transitive)
+    transitive = _is_powerset_property(mo, is_transitive)
     if transitive is not _undef.Undef():
         mo.cache_transitive(CacheStatus.from_bool(transitive))
         return transitive
@@ -326,7 +326,7 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_regular(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    if mo.get_ground_set().get_powerset_level(_clans.get_ground_set()) > 0:
+    if _is_set_of_clans(mo):
         mo_iter = iter(mo)
         elem1 = next(mo_iter)
         if not is_regular(elem1):
@@ -374,7 +374,7 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         return _multiclans.is_right_regular(mo, _checked=False)
 
     # Check higher (not yet defined) algebras.
-    if mo.get_ground_set().get_powerset_level(_clans.get_ground_set()) > 0:
+    if _is_set_of_clans(mo):
         mo_iter = iter(mo)
         elem1 = next(mo_iter)
         if not is_right_regular(elem1):
@@ -394,24 +394,35 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
 
 # --------------------------------------------------------------------------------------------------
 
-def _is_powerset_property(mo: _mo.MathObject, ground_set, method) -> bool:
-    """Return ``True`` if ``method`` returns ``True`` for all members of ``mo`` and ``mo`` is an
-    element of an n-th power set of ``ground_set``.
+def _is_set_of_clans(mo: _mo.MathObject) -> bool:
+    r"""Return ``True`` if ``mo`` is a :term:`set` of (sets of ...) :term:`clan`\s, that is, an element
+    of an n-th :term:`power set` (n > 0) of the :term:`ground set` of clans.
 
-    :param mo: The `MathObject` on which to operate. Must be a :term:`set`.
-    :param ground_set: The :term:`ground set` of which the set ``mo`` should be part of (at the
-        n-th :term:`power set` level).
+    (Comparing ground sets does not decide this: the structure of an empty set or multiset is a
+    subset of every structure and doesn't show up among the structures of other elements.)
+    """
+    def nesting(obj):
+        return 1 + max(map(nesting, obj.data)) if obj.is_set and not obj.is_empty else 0
+
+    def is_in_powerset(obj, level):
+        if level == 0:
+            return _clans.is_member(obj)
+        return obj.is_set and all(is_in_powerset(elem, level - 1) for elem in obj.data)
+
+    return any(is_in_powerset(mo, level) for level in range(1, nesting(mo) + 1))
+
+
+def _is_powerset_property(mo: _mo.MathObject, method) -> bool:
+    """Return ``True`` if ``method`` returns ``True`` for all members of ``mo`` and ``mo`` is a set of
+    (sets of ...) clans.
+
+    :param mo: The `MathObject` on which to operate.
     :param method: A property function (must return ``True``, ``False`` or `Undef()`) that should
         be run on all elements of ``mo``. It must be a function in this module.
-    :return: ``True`` if this instance is element of an n-th power set of ``ground_set``
-        and all set elements return ``True`` for ``method``, ``False`` if it is an element
-        of an n-th power set but any element returned ``False`` for ``method``, or `Undef()`
-        if it  isn't an element of an n-th power set.
+    :return: ``True`` if ``mo`` is a set of (sets of ...) clans and all set elements return ``True``
+        for ``method``, ``False`` if any element returned ``False`` for ``method``, or `Undef()`
+        if ``mo`` isn't a set of (sets of ...) clans.
     """
-    if mo.get_ground_set().get_powerset_level(ground_set) > 0:
-        for element in mo:
-            result = method(element)
-            if result is _undef.Undef() or not result:
-                return result
-        return True
+    if _is_set_of_clans(mo):
+        return all(method(element) for element in mo)
     return _undef.Undef()
-- 
2.43.0


From 72578c4acef9988ed958803986d7ac7dd1c42e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 06/59] fix: a relation is reflexive if x->x is in it for every
 x in its left and right set

is_reflexive required (in contrast to the definition in the documentation) that there is nothing
else in the relation, so that for example {1->1, 1->2, 2->2} was not reflexive and equivalence
relations with more than the diagonal were not recognized.
---
 algebraixlib/algebras/relations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index fd4449b..09fa2bb 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -423,7 +423,8 @@ def is_reflexive(rel, _checked=True) -> bool:
         if rel is _undef.Undef():
             return _undef.make_or_raise_undef(2)
     if rel.cached_reflexive == CacheStatus.UNKNOWN:
-        reflexive = all(_couplets.is_reflexive(couplet, _checked=False) for couplet in rel)
+        reflexive = all(rel.has_element(_mo.Couplet(component, component, direct_load=True))
+                        for couplet in rel for component in (couplet.left, couplet.right))
         rel.cache_reflexive(CacheStatus.from_bool(reflexive))
     return rel.cached_reflexive == CacheStatus.IS
 
-- 
2.43.0


From 897cb20e41be31b81fafe917b07523b693013a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 07/59] fix: multiclans.is_right_regular set and returned the
 state of 'regular'

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 3c9939f..dc2bc20 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -596,8 +596,8 @@ def is_right_regular(mclan, _checked=True) -> bool:
         right_set = rel.get_right_set()
         right_regular = all(
             _relations.is_right_functional(rel) and right_set == rel.get_right_set() for rel in itr)
-        mclan.cache_regular(CacheStatus.from_bool(right_regular))
-    return mclan.cached_is_regular
+        mclan.cache_right_regular(CacheStatus.from_bool(right_regular))
+    return mclan.cached_is_right_regular
 
 
 def is_reflexive(mclan, _checked=True) -> bool:
-- 
2.43.0


From 6f7f860ae254c809073cdb3f1f3e34a2b9ee5f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 08/59] fix: multi-cross-superstriction takes the
 multiplicities from the first multiclan

As documented. Relations that are not in the second multiclan ended up with a multiplicity of 0.
---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index dc2bc20..9dd4199 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -299,7 +299,7 @@ class Algebra:
         result = _extension.binary_multi_extend(multiclan1, multiclan2, _functools.partial(
             _sets.superstrict, _checked=False), _checked=False)
         for elem, multi in result.data.items():
-            result.data[elem] = multiclan2.data[elem]
+            result.data[elem] = multiclan1.data[elem]
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             if multiclan1.cached_is_functional:
-- 
2.43.0


From 26173a1c6f0cd2b7d7daa3796585a3f029ec46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 09/59] fix: multiclans.get_rights_for_left failed with a
 StopIteration for an empty multiclan

---
 algebraixlib/algebras/multiclans.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 9dd4199..a929e31 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -487,9 +487,8 @@ def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True)
             return _undef.make_or_raise_undef(2)
         if left is _undef.Undef():
             return _mo.Set()
-    clan_itr = iter(mclan)
-    rights = _sets.multify(_relations.get_rights_for_left(next(clan_itr), left, _checked=False))
-    for rel in clan_itr:
+    rights = _mo.Multiset()
+    for rel in mclan:
         rights = _multisets.add(
             _sets.multify(_relations.get_rights_for_left(rel, left, _checked=False)),
             rights, _checked=False)
-- 
2.43.0


From a14e4a23f398f1cfe7d9f092909e36c4519f7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 10/59] fix: the multiset union/intersection of an empty set is
 an empty multiset (was: an empty set)

---
 algebraixlib/algebras/multisets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algebraixlib/algebras/multisets.py b/algebraixlib/algebras/multisets.py
index 18c534c..ce23717 100755
--- a/algebraixlib/algebras/multisets.py
+++ b/algebraixlib/algebras/multisets.py
@@ -454,6 +454,8 @@ def big_union(set_of_multisets: 'PP( M x N )', _checked=True) -> 'P( M x N )':
         assert _sets.is_member_or_undef(set_of_multisets)
         if set_of_multisets is _undef.Undef():
             return _undef.make_or_raise_undef(2)
+    if set_of_multisets.is_empty:
+        return _mo.Multiset()
     return _sets.chain_binary_operation(
         set_of_multisets, _functools.partial(union, _checked=False), is_member)
 
@@ -475,6 +477,8 @@ def big_intersect(set_of_multisets: 'PP( M x N )', _checked=True) -> 'P( M x N )
         assert _sets.is_member_or_undef(set_of_multisets)
         if set_of_multisets is _undef.Undef():
             return _undef.make_or_raise_undef(2)
+    if set_of_multisets.is_empty:
+        return _mo.Multiset()
     return _sets.chain_binary_operation(
         set_of_multisets, _functools.partial(intersect, _checked=False), is_member)
 
-- 
2.43.0


From ea0291872d107db1c0ef50492a05ef21cde8d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 11/59] fix: order_slice and multiclan_to_listgen with an
 integer as offset used the limit as offset

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index a929e31..8f7beb0 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -684,7 +684,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(offset, _mo.Atom) and isinstance(offset.value, int):
             pass
         elif isinstance(offset, int):
-            offset = _mo.Atom(limit)
+            offset = _mo.Atom(offset)
         elif offset is _undef.Undef():
             return _undef.make_or_raise_undef(2)
         else:
-- 
2.43.0


From d5e7b672b0a4726f3f9fd44cb1fc6a329f0cd39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 12/59] fix: order_slice failed when less_than_f returned (as
 documented) True or False, and not an Atom

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 8f7beb0..ff38e43 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -818,7 +818,7 @@ def order_slice_to_listgen(mclan: 'P(P(M x M) x N)', less_than_f,
         def __lt__(self, other) -> bool:
             assert isinstance(other, Key)
             result = self._lt(self._rel, other._rel)
-            return result.value
+            return result.value if isinstance(result, _mo.Atom) else result
 
     def make_key(multiset_tuple) -> Key:
         result = Key(relation=multiset_tuple[0], less_than=less_than_f)
-- 
2.43.0


From 3a7f1ba945e4234cb6202af4d40aa617c8e0cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 13/59] fix: order_slice and multiclan_to_listgen with a slice
 within one relation or with limit 0

When offset and limit selected only some of the instances of a single relation, the resulting
multiplicity was wrong; a limit of 0 failed with an AssertionError or returned one relation.
---
 algebraixlib/algebras/multiclans.py | 49 +++++++----------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff38e43..4cf0abb 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -717,43 +717,18 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
         # Effectively no offset and limit. Return sorted list as-is.
         return counter_list
 
-    # Find the list indices of the first and last tuple (representing a relation and a multiplicity)
-    # and the resulting multiplicities in these first and last tuples (which may be different from
-    # their original multiplicities).
-    start_index = first_multiple = None
-    end_index = last_multiple = None
-    start_offset_next_tuple = 0
-    for index, counter_entry in enumerate(counter_list):
-        # Calculate the starting offset of the next tuple (by adding the multiplicity of the
-        # current tuple).
-        start_offset_next_tuple += counter_entry[1]
-        if start_index is None and start_offset < start_offset_next_tuple:
-            start_index = index
-            first_multiple = start_offset_next_tuple - start_offset
-            assert first_multiple <= counter_list[start_index][1]
-        if start_index is not None and end_offset <= start_offset_next_tuple:
-            end_index = index
-            last_multiple = counter_list[end_index][1] - (start_offset_next_tuple - end_offset)
-            assert counter_list[end_index][1] > (start_offset_next_tuple - end_offset)
-            break
-    if start_index is None:
-        # No start_index found: start_offset is bigger than all existing offsets. Nothing selected.
-        assert end_index is None
-        return []
-    if end_index is None:
-        # No end_index found: end_offset is bigger than all existing offsets. Put end_index beyond
-        # list bounds.
-        end_index = len(counter_list)
-
-    # If needed, adjust the multiplicities of the first and last tuple in the selected range.
-    if start_index < len(counter_list) and counter_list[start_index][1] != first_multiple:
-        counter_list[start_index] = (counter_list[start_index][0], first_multiple)
-    if end_index < len(counter_list) and counter_list[end_index][1] != last_multiple:
-        counter_list[end_index] = (counter_list[end_index][0], last_multiple)
-
-    # Create and return a generator expression to avoid another copy of the data.
-    limited_list_iter = (counter_tuple for counter_tuple in counter_list[start_index:end_index + 1])
-    return limited_list_iter
+    # Select all tuples (representing a relation and a multiplicity) that have offsets in the selected
+    # range, with the multiplicity that is in this range (which may be less than the original one).
+    limited_list = []
+    first_offset = 0
+    for relation, multiplicity in counter_list:
+        # Calculate the starting offset of the next tuple.
+        next_offset = first_offset + multiplicity
+        selected = min(next_offset, end_offset) - max(first_offset, start_offset)
+        if selected > 0:
+            limited_list.append((relation, selected))
+        first_offset = next_offset
+    return limited_list
 
 
 def multiclan_to_listgen(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '( A )',
-- 
2.43.0


From a2785261cebeb54a880b94361127484b72e3a62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 14/59] fix: multiclan[left] returned a multiset that was
 marked as being empty

The elements were added to an empty multiset, the cached properties of which remained: the result
was always a multiclan, functional and so on.
---
 algebraixlib/mathobjects/multiset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 0740e1f..efddd9a 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -305,12 +305,12 @@ class Multiset(MathObject):
     def _getitem_multiclan(self, left):
         """Return a multiset with the rights of all the couplets in all relations that have a
         left of ``left``."""
-        result = Multiset()
+        result = _collections.Counter()
         for rel in self:
             rel_result = rel[left]
             if rel_result is not _ud.Undef():
-                result.data.update(rel_result)
-        return result
+                result.update(rel_result)
+        return Multiset(result, direct_load=True)
 
     def _getitem_multirelation(self, left):
         """Return a multiset with the rights of all the couplets that have a left of ``left``."""
-- 
2.43.0


From 1d59ecabd2ebc2e2dded7d6ced14fc62d40382aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 15/59] fix: the power set of an empty relation is a regular
 clan

It was marked as not regular and not right-regular, so that is_regular returned the wrong result.
---
 algebraixlib/algebras/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index 48dd7af..be20334 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -569,8 +569,9 @@ def power_set(set_: _mo.Set):
             result.cache_absolute(set_.cached_absolute)
             result.cache_functional(set_.cached_functional)
             result.cache_right_functional(set_.cached_right_functional)
-            result.cache_regular(CacheStatus.IS_NOT)
-            result.cache_right_regular(CacheStatus.IS_NOT)
+            if not set_.is_empty:
+                result.cache_regular(CacheStatus.IS_NOT)
+                result.cache_right_regular(CacheStatus.IS_NOT)
     return result
 
 
-- 
2.43.0


From b49551080383e78aabb81a2937bc9ef8cb89adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 16/59] fix: clans.from_set with more than one value creates a
 clan that is not right-regular

---
 algebraixlib/algebras/clans.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 6c87f07..9466cd2 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -691,7 +691,9 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
         direct_load=True)
     clan.cache_clan(CacheStatus.IS)
     clan.cache_functional(CacheStatus.IS).cache_right_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS).cache_right_regular(CacheStatus.IS)
+    clan.cache_regular(CacheStatus.IS)
+    if clan.cardinality == 1:
+        clan.cache_right_regular(CacheStatus.IS)
     return clan
 
 
-- 
2.43.0


From 1915bbf30d0ce8d17fce06ac03eb33718674df46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 17/59] fix: unions that drop pairs don't inherit the negative
 (right-)functional flags

---
 algebraixlib/algebras/clans.py      | 8 --------
 algebraixlib/algebras/multiclans.py | 4 ----
 2 files changed, 12 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 9466cd2..ca837b1 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -163,8 +163,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if clan1.cached_is_not_right_functional or clan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -198,10 +196,6 @@ class Algebra:
             result.cache_clan(CacheStatus.IS)
             if lhs.cached_is_functional:
                 result.cache_functional(CacheStatus.IS)
-            if lhs.cached_is_not_right_functional or rhs.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
-            if not rhs.is_empty and not lhs_rest.is_empty:
-                result.cache_regular(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -232,8 +226,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if clan1.cached_is_not_functional or clan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 4cf0abb..a4da84a 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -162,8 +162,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if mclan1.cached_is_not_right_functional or mclan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -192,8 +190,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if multiclan1.cached_is_not_functional or multiclan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 6e19085e5e91170e791c0a695234fbd732e26783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 18/59] fix: a partition's components don't inherit 'is not a
 (multi)clan'

---
 algebraixlib/partition.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/partition.py b/algebraixlib/partition.py
index 5499ef8..42e7f8c 100644
--- a/algebraixlib/partition.py
+++ b/algebraixlib/partition.py
@@ -17,6 +17,7 @@ r"""Operations for partitioning :term:`set`\s and :term:`multiset`\s."""
 import collections as _collections
 
 import algebraixlib.mathobjects as _mo
+from algebraixlib.cache_status import CacheStatus
 
 
 def _create_partition_dict_from_set(set_, class_invariant_func):
@@ -70,6 +71,15 @@ def _create_partition_dict_from_multiset(mset, class_invariant_func):
     return partition_dict
 
 
+def _positive(status):
+    """Return ``status`` if it also applies to every component of a partition.
+
+    Every component of a (multi)clan is a (multi)clan, but a component of something that is not a
+    (multi)clan may be one.
+    """
+    return status if status == CacheStatus.IS else CacheStatus.UNKNOWN
+
+
 def partition(set_or_mset, class_invariant_func):
     r"""Return ``set_or_mset`` partitioned according to ``class_invariant_func``.
 
@@ -88,13 +98,13 @@ def partition(set_or_mset, class_invariant_func):
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         # Create the resulting Set of Sets from the partition components.
         return _mo.Set((_mo.Set(components, direct_load=True)
-            .cache_clan(set_or_mset.cached_clan)
+            .cache_clan(_positive(set_or_mset.cached_clan))
             for components in partition_dict.values()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         # Create the resulting Set of Multisets from the partition components.
         return _mo.Set((_mo.Multiset(counter, direct_load=True)
-            .cache_multiclan(set_or_mset.cached_multiclan)
+            .cache_multiclan(_positive(set_or_mset.cached_multiclan))
             for counter in partition_dict.values()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
@@ -119,12 +129,12 @@ def make_labeled_partition(set_or_mset, class_invariant_func):
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Set(components, direct_load=True)
-                .cache_clan(set_or_mset.cached_clan), direct_load=True)
+                .cache_clan(_positive(set_or_mset.cached_clan)), direct_load=True)
             for label, components in partition_dict.items()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Multiset(counter, direct_load=True)
-                .cache_multiclan(set_or_mset.cached_multiclan), direct_load=True)
+                .cache_multiclan(_positive(set_or_mset.cached_multiclan)), direct_load=True)
             for label, counter in partition_dict.items()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
-- 
2.43.0


From f8c23676e0cdca5f7686305e10324615732be25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 19/59] fix: the order of atoms of different types was not
 transitive

Sets like {2, 10, 15.0} therefore had a text representation that depended on the order of insertion.
---
 algebraixlib/mathobjects/atom.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index f83ad58..3c2b61a 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -61,6 +61,10 @@ def _init_cache() -> int:
     return flags.asint
 
 
+def _type_name(type_):
+    return type_.__name__, type_.__module__, type_.__qualname__
+
+
 @_functools.total_ordering
 class Atom(MathObject):
     """Represent a value (of a non-`MathObject`, hashable type) like numbers or strings.
@@ -174,12 +178,13 @@ class Atom(MathObject):
         if not isinstance(other, MathObject):
             return NotImplemented
         if other.is_atom:
+            if self.type != other.type:
+                # Must not depend on the values; otherwise the order would not be transitive.
+                return _type_name(self.type) < _type_name(other.type)
             try:
-                if self.type == other.type:
-                    return self.value < other.value
+                return self.value < other.value
             except TypeError:
-                pass
-            return repr(self.value) < repr(other.value)
+                return repr(self.value) < repr(other.value)
         else:
             return super()._less_than(other)
 
-- 
2.43.0


From cafe7ad1e03140702d5d84235daf612756b530b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:21 +0000
Subject: [PATCH 20/59] fix: Couplet(left, None) created the couplet left->left
 instead of left->None

---
 algebraixlib/mathobjects/couplet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/couplet.py b/algebraixlib/mathobjects/couplet.py
index 77c965d..9cf0574 100755
--- a/algebraixlib/mathobjects/couplet.py
+++ b/algebraixlib/mathobjects/couplet.py
@@ -73,8 +73,9 @@ class Couplet(MathObject):
     """A :term:`couplet` containing a :term:`left component` and a :term:`right component`."""
 
     _INIT_CACHE = _init_cache()
+    _MISSING = object()  # `None` is a valid right component.
 
-    def __init__(self, left, right=None, direct_load=False):
+    def __init__(self, left, right=_MISSING, direct_load=False):
         """
         :param left: The :term:`left component` of the couplet, and the default value for the
             :term:`right component` (see ``right``). If this argument is not a `MathObject`, it is
@@ -90,14 +91,14 @@ class Couplet(MathObject):
         if direct_load:
             assert isinstance(left, MathObject)
             self._left = left
-            if right is None:
+            if right is Couplet._MISSING:
                 self._right = self._left
             else:
                 assert isinstance(right, MathObject)
                 self._right = right
         else:
             self._left = auto_convert(left)
-            if right is None:
+            if right is Couplet._MISSING:
                 self._right = self._left
             else:
                 self._right = auto_convert(right)
-- 
2.43.0


From e6b87846993f6f777209a9255c12b0b06b0c0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 21/59] fix: math objects could not be pickled

Their flags are ctypes objects, Atom.__getnewargs__ returned the text of the atom instead of its
value, and the stored hash is only valid within one process.
---
 algebraixlib/mathobjects/atom.py     | 6 +++---
 algebraixlib/mathobjects/couplet.py  | 4 ++++
 algebraixlib/mathobjects/multiset.py | 4 ++++
 algebraixlib/mathobjects/set.py      | 4 ++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index 3c2b61a..6577a5f 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -200,6 +200,6 @@ class Atom(MathObject):
         """Return the instance's string representation."""
         return repr(self._value)
 
-    def __getnewargs__(self):
-        """Necessary to allow Atom to be pickled"""
-        return Atom.__repr__(self),
+    def __reduce__(self):
+        """Support copying and pickling (hash value and cached flags are not carried over)."""
+        return self.__class__, (self._value,)
diff --git a/algebraixlib/mathobjects/couplet.py b/algebraixlib/mathobjects/couplet.py
index 9cf0574..5137a78 100755
--- a/algebraixlib/mathobjects/couplet.py
+++ b/algebraixlib/mathobjects/couplet.py
@@ -160,6 +160,10 @@ class Couplet(MathObject):
                 'algebraixlib.mathobjects.couplet.Couplet', self.left, self.right)
         return self._hash
 
+    def __reduce__(self):
+        """Support copying and pickling (hash value and cached flags are not carried over)."""
+        return self.__class__, (self._left, self._right)
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Couplet(left={left}, right={right})'.format(
diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index efddd9a..68267b1 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -271,6 +271,10 @@ class Multiset(MathObject):
             self._hash = _misc.get_hash(*multiset_parts)
         return self._hash
 
+    def __reduce__(self):
+        """Support copying and pickling (hash value and cached flags are not carried over)."""
+        return self.__class__, (dict(self._data),)
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Multiset({{{0}}})'.format(', '.join(
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index be3d57f..250b33c 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -272,6 +272,10 @@ class Set(MathObject):
             self._hash = _misc.get_hash('algebraixlib.mathobjects.set.Set', self.data)
         return self._hash
 
+    def __reduce__(self):
+        """Support copying and pickling (hash value and cached flags are not carried over)."""
+        return self.__class__, (list(self._data),)
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Set({0})'.format(', '.join(repr(elem) for elem in sorted(self.data)))
-- 
2.43.0


From 0f581f4fd352c0c9d0fcda4e268491d5bfb1a403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 22/59] fix: {relations,clans,multiclans}.defined_at: an
 undefined left is not an error of level 1, a wrong operand is

---
 algebraixlib/algebras/clans.py      | 4 ++--
 algebraixlib/algebras/multiclans.py | 4 ++--
 algebraixlib/algebras/relations.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index ca837b1..5950b0e 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -722,14 +722,14 @@ def diag(*args, _checked=True) -> 'PP(M x M)':
 def defined_at(clan: 'PP(M x M)', left: '( M )', _checked=True):
     r"""Return the :term:`relation`\s of ``clan`` that are defined for ``left``."""
     if not is_member(clan):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(clan)
     if left is _undef.Undef():
         return _undef.make_or_raise_undef(2)
     result = _extension.unary_extend(
         clan, _functools.partial(_relations.defined_at, left=left, _checked=_checked),
         _checked=_checked)
     if result is _undef.Undef() or not result:
-        return _undef.make_or_raise_undef2(result)
+        return _undef.make_or_raise_undef(2)
     result.cache_clan(CacheStatus.IS)
     if not result.is_empty:
         if clan.cached_is_functional:
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index a4da84a..8e6f263 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -851,14 +851,14 @@ def diag(*args, _checked=True) -> 'P(P(M x M) x N)':
 def defined_at(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True):
     r"""Return the :term:`relation`\s of ``mclan`` that are defined for ``left``."""
     if not is_member(mclan):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(mclan)
     if left is _undef.Undef():
         return _undef.make_or_raise_undef(2)
     result = _extension.unary_multi_extend(
         mclan, _functools.partial(_relations.defined_at, left=left, _checked=_checked),
         _checked=_checked)
     if result is _undef.Undef() or not result:
-        return _undef.make_or_raise_undef2(result)
+        return _undef.make_or_raise_undef(2)
     result.cache_multiclan(CacheStatus.IS)
     if not result.is_empty:
         if mclan.cached_is_functional:
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 09fa2bb..48ccced 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -596,5 +596,5 @@ def defined_at(rel, left, _checked=True):
     """Return ``rel`` if it has a :term:`couplet` with left component ``left`` else `Undef()`."""
     result = get_rights_for_left(rel, left, _checked)
     if result is _undef.Undef() or not result:
-        return _undef.make_or_raise_undef2(result)
+        return _undef.make_or_raise_undef(2)
     return rel
-- 
2.43.0


From d7af4db560d8352bb99e987e5e7942b0afe2a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 23/59] fix: sets.big_union, sets.big_intersect,
 multisets.some: wrong operands are an error of level 1

---
 algebraixlib/algebras/multisets.py | 2 +-
 algebraixlib/algebras/sets.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/algebras/multisets.py b/algebraixlib/algebras/multisets.py
index ce23717..2f94f74 100755
--- a/algebraixlib/algebras/multisets.py
+++ b/algebraixlib/algebras/multisets.py
@@ -515,7 +515,7 @@ def some(mset: _mo.Multiset):
         returned.
     """
     if not is_member(mset):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(mset)
     if mset.cardinality == 0:
         return _undef.make_or_raise_undef(2)
     return next(iter(mset))
diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index be20334..479acb3 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -480,7 +480,7 @@ def big_union(set_: 'PP( M )', _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
         for element in set_:
             if not is_member(element):
-                return _undef.make_or_raise_undef(2)
+                return _undef.make_or_raise_undef2(element)
     else:
         assert is_member_or_undef(set_)
         if set_ is _undef.Undef():
@@ -510,7 +510,7 @@ def big_intersect(set_: 'PP( M )', _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
         for element in set_:
             if not is_member(element):
-                return _undef.make_or_raise_undef(2)
+                return _undef.make_or_raise_undef2(element)
     else:
         assert is_member_or_undef(set_)
         if set_ is _undef.Undef():
-- 
2.43.0


From 7b5e0b53019df4d82338fe90858079f2e824093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:35 +0000
Subject: [PATCH 24/59] fix: extension.unary_extend(Undef(), ...,
 _checked=False) raised a TypeError

---
 algebraixlib/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/extension.py b/algebraixlib/extension.py
index 73729ac..4365216 100644
--- a/algebraixlib/extension.py
+++ b/algebraixlib/extension.py
@@ -111,7 +111,7 @@ def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
     else:
         assert _sets.is_member_or_undef(set_)
-        if set is _undef.Undef():
+        if set_ is _undef.Undef():
             return _undef.make_or_raise_undef(2)
 
     def _get_values(_set):
-- 
2.43.0


From dcb54ceaa2016337dfffc1d316ad1fcef33f20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 25/59] fix: get_left_set and get_right_set of a set of clans
 that differ in their structure

---
 algebraixlib/mathobjects/set.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 250b33c..52e09d4 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -67,6 +67,15 @@ def _clans():
     return _clans.algebra
 
 
+def _properties():
+    """Load :mod:`~.algebras.properties` on demand."""
+    _properties.algebra = getattr(_properties, 'algebra', None)
+    if _properties.algebra is None:
+        import algebraixlib.algebras.properties as properties
+        _properties.algebra = properties
+    return _properties.algebra
+
+
 # --------------------------------------------------------------------------------------------------
 
 def _init_cache_not_empty() -> int:
@@ -200,7 +209,7 @@ class Set(MathObject):
         """Get the :term:`left set` for this :class:`Set`. Return `Undef()` if not applicable."""
         if _relations().is_member(self):
             return _relations().get_lefts(self, _checked=False)
-        if self.get_ground_set().get_powerset_level(_relations().get_ground_set()) > 0:
+        if _clans().is_member(self) or _properties()._is_set_of_clans(self):
             _itr = iter(self)
             left_set = next(_itr).get_left_set()
             for elem in _itr:
@@ -213,7 +222,7 @@ class Set(MathObject):
         """Get the :term:`right set` for this :class:`Set`. Return `Undef()` if not applicable."""
         if _relations().is_member(self):
             return _relations().get_rights(self, _checked=False)
-        if self.get_ground_set().get_powerset_level(_relations().get_ground_set()) > 0:
+        if _clans().is_member(self) or _properties()._is_set_of_clans(self):
             _itr = iter(self)
             left_set = next(_itr).get_right_set()
             for elem in _itr:
-- 
2.43.0


From f42ad6bc6d44156749f94043dffc0f42c8fb442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 26/59] fix: a structure union kept members that are subsets of
 another member

---
 algebraixlib/structure.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 8779897..3cb5aa3 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -413,15 +413,12 @@ class Union(Structure):
             for existing_element in writeable_union:
                 if new_element.is_subset(existing_element):
                     # To be added element is subset of existing element: nothing to add.
-                    break
-                elif existing_element.is_subset(new_element):
-                    # To be added element is (real) superset of existing element: exchange them.
+                    return
+            # Remove all existing elements of which the new element is a (real) superset and add it.
+            for existing_element in list(writeable_union):
+                if existing_element.is_subset(new_element):
                     writeable_union.remove(existing_element)
-                    writeable_union.add(new_element)
-                    break
-            else:
-                # To be added element is neither subset nor superset of existing: add it.
-                writeable_union.add(new_element)
+            writeable_union.add(new_element)
 
         writeable_union = set()
         for new_structure in iterable:
-- 
2.43.0


From e3580e6e79211fe9e7cc75e14b0d969f2c9e20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 27/59] fix: a structure was not recognized as subset of a
 union it is a member of

---
 algebraixlib/structure.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 3cb5aa3..024dd22 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -161,6 +161,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_member_superset_of(self)
         return type(other) == GenesisSetA or type(other) == GenesisSetM
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -215,6 +217,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_member_superset_of(self)
         return type(other) == GenesisSetM
 
     def get_powerset_level(self, other):
@@ -262,6 +266,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_member_superset_of(self)
         return type(other) == GenesisSetN
 
     def get_powerset_level(self, other):
@@ -331,8 +337,7 @@ class CartesianProduct(Structure):
 
         -   A `CartesianProduct` and both left and right components must be subsets of left and
             right components of ``other``, or
-        -   A :class:`~Union` that contains an instance of `CartesianProduct` where both left and
-            right component are subsets of left and right components of ``other``, or
+        -   A :class:`~Union` that contains a member of which ``self`` is a subset, or
         -   `GenesisSetM` (everything in our system is a subset of :math:`M`).
 
         :param other: Must be an instance of `Structure`.
@@ -348,10 +353,7 @@ class CartesianProduct(Structure):
         elif isinstance(other, CartesianProduct):
             return is_subset_of_cart_prod(other)
         elif isinstance(other, Union):
-            for union_elem in other.data:
-                if isinstance(union_elem, CartesianProduct):
-                    if is_subset_of_cart_prod(union_elem):
-                        return True
+            return other.is_member_superset_of(self)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -436,6 +438,10 @@ class Union(Structure):
         """Read-only access to the raw collection (`frozenset`) of the union members."""
         return self._data
 
+    def is_member_superset_of(self, struct: Structure) -> bool:
+        """Return ``True`` if ``struct`` is a subset of a member of this :term:`union`."""
+        return any(struct.is_subset(member) for member in self.data)
+
     def is_subset(self, other: Structure) -> bool:
         """Return ``True`` if ``self`` is a :term:`subset` of ``other``.
 
@@ -545,6 +551,8 @@ class PowerSet(Structure):
             return True
         elif isinstance(other, PowerSet):
             return self._base_set.is_subset(other._base_set)
+        elif isinstance(other, Union):
+            return other.is_member_superset_of(self)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
-- 
2.43.0


From 18b8277e1efc5d3ca9b108af9363b85ae8b8faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 28/59] fix: equality of structures with a one-element union
 was not symmetric

---
 algebraixlib/structure.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 024dd22..67944b6 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -117,7 +117,7 @@ class Structure(object):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == Structure
+        return type(_unwrap_union(other)) == Structure
 
     # ----------------------------------------------------------------------------------------------
 
@@ -151,6 +151,13 @@ class Structure(object):
         return '{}'
 
 
+def _unwrap_union(struct: Structure) -> Structure:
+    """Return the single member of a union of one element, otherwise ``struct`` itself."""
+    if isinstance(struct, Union) and len(struct.data) == 1:
+        return _misc.get_single_iter_elem(struct.data)
+    return struct
+
+
 class GenesisSetA(Structure):
     r"""The set of all :term:`atom`\s. Is functionally a singleton."""
 
@@ -181,7 +188,7 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetA
+        return type(_unwrap_union(other)) == GenesisSetA
 
     # ----------------------------------------------------------------------------------------------
 
@@ -237,7 +244,7 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetM
+        return type(_unwrap_union(other)) == GenesisSetM
 
     # ----------------------------------------------------------------------------------------------
 
@@ -286,7 +293,7 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
-        return type(other) == GenesisSetN
+        return type(_unwrap_union(other)) == GenesisSetN
 
     # ----------------------------------------------------------------------------------------------
 
@@ -372,6 +379,7 @@ class CartesianProduct(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _unwrap_union(other)
         if isinstance(other, CartesianProduct):
             return (self.left == other.left) and (self.right == other.right)
         return False
@@ -508,6 +516,9 @@ class Union(Structure):
         """Return a hash based on the member values. (It must match the implementation of `is_same`,
         to which `Structure.__eq__` redirects equality comparisons.) Is always cached.
         """
+        if len(self.data) == 1:
+            # A union of one element is equal to this element.
+            return hash(_misc.get_single_iter_elem(self.data))
         return _misc.get_hash(_misc.get_full_class_name(self), self.data)
 
     def __repr__(self):
@@ -580,6 +591,7 @@ class PowerSet(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _unwrap_union(other)
         if isinstance(other, PowerSet):
             return self._base_set == other._base_set
         return False
-- 
2.43.0


From 19566542cc5f9271ce832c055d89d1c235caf386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:29 +0000
Subject: [PATCH 29/59] fix: slicing a multiclan with an undefined limit raised
 a TypeError

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 8e6f263..56aa9f9 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -688,10 +688,10 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(limit, _mo.Atom) \
                 and (isinstance(limit.value, int) or limit.value == float('inf')):
             pass
-        elif isinstance(limit, int) or limit == float('inf'):
-            limit = _mo.Atom(limit)
         elif limit is _undef.Undef():
             return _undef.make_or_raise_undef(2)
+        elif isinstance(limit, int) or limit == float('inf'):
+            limit = _mo.Atom(limit)
         else:
             return _undef.make_or_raise_undef()
     else:
-- 
2.43.0


From 7fe56f36825eb30cc3ecd6e4729f869953a9a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 30/59] fix: exporting an empty clan as CSV raised
 StopIteration

---
 algebraixlib/import_export/csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 5017bc9..e32a0d1 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -61,7 +61,8 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
 
     if ordered_lefts is None:
         # Since this clan is regular, get first relation to acquire left set.
-        rel = next(iter(absolute_clan_or_multiclan))
+        # (An empty clan has no lefts.)
+        rel = next(iter(absolute_clan_or_multiclan), _mo.Set())
         # left_set is sorted to guarantee consistent iterations
         ordered_lefts = sorted([left.value for left in rel.get_left_set()])
 
-- 
2.43.0


From 20d2521ae582b6b87e171eb66118378cd8521edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:53 +0000
Subject: [PATCH 31/59] fix: importing a CSV file changed line breaks within
 values

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index e32a0d1..02e82b6 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -190,7 +190,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
                 .cache_regular(CacheStatus.from_bool(import_csv.regular))
     else:
-        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
+        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore', newline='') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-- 
2.43.0


From 58a6c2d08df1e2984c40432bd302d5c767240e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 32/59] fix: import_csv declared clans irregular in which all
 rows miss the same columns

---
 algebraixlib/import_export/csv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 02e82b6..03d8d4f 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -154,7 +154,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row is missing one or more values
+    import_csv.regular = True  # Set to false if any row has other columns with values than another
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
@@ -164,9 +164,12 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         reader = _csv.DictReader(csv_file, fieldnames=columns)
 
         _index = 0
+        first_columns = None
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.regular and len(row) != len(filtered_row):
+            if first_columns is None:
+                first_columns = set(filtered_row)
+            elif import_csv.regular and set(filtered_row) != first_columns:
                 import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
-- 
2.43.0


From 1a0f0c8539c60d99ec56105b897a4866f8710c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:36 +0000
Subject: [PATCH 33/59] fix: files were written in the encoding of the locale
 but are read as UTF-8

---
 algebraixlib/util/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 544d598..1d6c679 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -149,7 +149,7 @@ def write_to_file_or_path(file_or_path, data_functor):
     """
     if isinstance(file_or_path, str):
         # 'with' syntax handles close no matter what.
-        with open(file_or_path, "w+", newline='') as out_file:
+        with open(file_or_path, "w+", newline='', encoding='utf-8') as out_file:
             data_functor(out_file)
     else:
         # Assume 'file_or_path' is a writer-type object.
-- 
2.43.0


From 2fcc0aae79e2a502a71b168a68108716d4f24cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:08 +0000
Subject: [PATCH 34/59] fix: tuples within tuples did not survive the round
 trip through JSON

---
 algebraixlib/import_export/mojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index 5d7c7cb..c43b9b5 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -40,11 +40,11 @@ def encode(obj):
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-        return {'__cls__': 'builtin.list', '__val__': obj}
+        return {'__cls__': 'builtin.list', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, range):
         return {'__cls__': 'builtin.range', '__val__': [obj.start, obj.stop, obj.step]}
     if isinstance(obj, tuple):
-        return {'__cls__': 'builtin.tuple', '__val__': obj}
+        return {'__cls__': 'builtin.tuple', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, _mo.Atom):
         return {'__cls__': 'Atom', '__val__': encode(obj.value)}
     if isinstance(obj, _mo.Couplet):
-- 
2.43.0


From f2dd721c2236331b49b62590e122d379ff93bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:18 +0000
Subject: [PATCH 35/59] fix: import_json read files in the encoding of the
 locale instead of UTF-8

---
 algebraixlib/import_export/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/json.py b/algebraixlib/import_export/json.py
index ec77a51..27fff88 100755
--- a/algebraixlib/import_export/json.py
+++ b/algebraixlib/import_export/json.py
@@ -49,5 +49,5 @@ def import_json(json_file_or_filepath) -> 'P( A x M )':
     if hasattr(json_file_or_filepath, "readlines"):  # support StringIO
         return _import_json(json_file_or_filepath)
     else:
-        with open(json_file_or_filepath) as file:
+        with open(json_file_or_filepath, encoding='utf-8') as file:
             return _import_json(file)
-- 
2.43.0


From d2b1d85e01437a7c07f0467db52e06bc0064667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 36/59] fix: complex numbers lost precision in JSON (str() of
 them is not exact everywhere)

---
 algebraixlib/import_export/mojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index c43b9b5..824a904 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -36,7 +36,7 @@ def encode(obj):
     if isinstance(obj, bytes):
         return {'__cls__': 'builtin.bytes', '__val__': [elem for elem in obj]}
     if isinstance(obj, complex):
-        return {'__cls__': 'builtin.complex', '__val__': str(obj)}
+        return {'__cls__': 'builtin.complex', '__val__': repr(obj)}
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-- 
2.43.0


From a37cfbbb8c4b32c929fa22a242343e61e749100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:23 +0000
Subject: [PATCH 37/59] fix: util core() inserted an ellipsis into strings
 without anything to remove

---
 algebraixlib/util/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 1d6c679..c041c06 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -331,7 +331,7 @@ def core(string: str, begin_len: int=0, end_len: int=0) -> str:
     :param end_len: The length, in characters, of the ending part of the string.
     """
 
-    if begin_len > 0 and end_len > 0 and begin_len - end_len < len(string):
+    if begin_len > 0 and end_len > 0 and begin_len + end_len < len(string):
         string = string[:begin_len] + '\n...\n' + string[-end_len:]
     return string
 
-- 
2.43.0


From b0c1578b35dcf97f82fc1e5796fd29fa9aaefd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 38/59] fix: xml_to_str ignored pre_len and post_len

---
 algebraixlib/import_export/xml.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 89d6f37..61cdd5b 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -141,8 +141,5 @@ def xml_to_str(xml_file_or_filepath, indent_text='   ', truncate=True, max_line_
 
     xml_str = re.sub(r">.*<", _truncator, xml_str)
 
-    if pre_len > 0 > post_len:
-        return xml_str[:pre_len] + '\n...\n' + xml_str[post_len:]
-
-    return xml_str
+    return _misc.core(xml_str, pre_len, post_len)
 
-- 
2.43.0


From 547f26827956613d7112002c729de3a41447bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:34 +0000
Subject: [PATCH 39/59] fix: import_xml failed on comments, processing
 instructions, CDATA sections and document types

---
 algebraixlib/import_export/xml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 61cdd5b..1a03319 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -80,14 +80,15 @@ def import_xml(xml_file_or_filepath, convert_numerics: bool=False) -> 'P( A x M
                         left=_util.get_left_cached(node.tagName),
                         right=_mo.Set(children, direct_load=True),
                         direct_load=True)
-            elif node.nodeType == node.TEXT_NODE:
+            elif node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE):
                 text_node_text = node.data.strip()
                 if len(text_node_text) > 0:
                     yield _mo.Couplet(
                         left=text_left,
                         right=_mo.Atom(_get_atom_value(text_node_text), direct_load=True),
                         direct_load=True)
-            else:
+            elif node.nodeType not in (node.COMMENT_NODE, node.PROCESSING_INSTRUCTION_NODE,
+                    node.DOCUMENT_TYPE_NODE):
                 assert False  # Node type not supported.
 
     def _import_xml(xml_file):
-- 
2.43.0


From 894ce4d17df54c8aa159bfd54a3862a9b3df1ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 40/59] fix: import_graph raised TypeError for file objects
 when no format was given

---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f8a8904..60bf86f 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -48,7 +48,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
     if rdf_format is None:
         try:
             rdf_format = _rdflib.util.guess_format(graph_file_or_filepath) or 'turtle'
-        except AttributeError:
+        except (AttributeError, TypeError):
             rdf_format = 'turtle'
 
     graph = _rdflib.Graph()
-- 
2.43.0


From 90694edf34666b441879c17475ceba9c8a04920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 41/59] fix: import_graph ignored the result of the
 skolemization of blank nodes

---
 algebraixlib/import_export/rdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 60bf86f..8bd47bc 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -53,8 +53,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
 
     graph = _rdflib.Graph()
     graph.parse(source=graph_file_or_filepath, format=rdf_format)
-    graph.skolemize()
-    return _convert_graph_to_mathobjects(graph)
+    return _convert_graph_to_mathobjects(graph.skolemize())
 
 
 class _ExportTable(_abc.ABC):
-- 
2.43.0


From 28c767f0df444ea0783c062d5396003451a21e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 42/59] fix: export_table wrote invalid JSON for quotes,
 backslashes and control characters

---
 algebraixlib/import_export/rdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 8bd47bc..164575e 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -15,6 +15,7 @@
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import abc as _abc
+import json as _json
 import rdflib as _rdflib
 
 import algebraixlib.algebras.clans as _clans
@@ -318,7 +319,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write('"' + str(atom.value) + '"')
+            self._file.write(_json.dumps(str(atom.value), ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
-- 
2.43.0


From aaf13c7a0acaf724e432318a0f711257d32205cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:22 +0000
Subject: [PATCH 43/59] fix: export_table wrote invalid JSON for rows without a
 value in the first column

---
 algebraixlib/import_export/rdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 164575e..8f4437a 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -205,15 +205,16 @@ class _ExportTable(_abc.ABC):
         self._row_start()
         lefts_itr = iter(self._ordered_lefts)
         left = next(lefts_itr)
-        self._write_item_wrapper(relation, left, False)
+        is_written = self._write_item_wrapper(relation, left, False)
         for left in lefts_itr:
             self._item_between_couplets()
-            self._write_item_wrapper(relation, left, True)
+            is_written = self._write_item_wrapper(relation, left, is_written) or is_written
         self._row_end()
 
     def _write_item_wrapper(self, relation: 'P(A x A)', left: '( A )', prefix_separator: bool):
         right = _relations.get_right(relation, left)
         self._write_item(left, right, prefix_separator)
+        return right is not _ud.Undef()
 
 
 def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format: str='csv'):
-- 
2.43.0


From 67e8d075055ce40675f78dac1b165c3995bb6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 44/59] fix: export_table raised StopIteration for an empty
 table

---
 algebraixlib/import_export/rdf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 8f4437a..f4adb84 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -194,10 +194,9 @@ class _ExportTable(_abc.ABC):
 
     def _write_body(self):
         self._body_start()
-        relation_itr = iter(self._clan)
-        self._write_row(next(relation_itr))
-        for relation in relation_itr:
-            self._row_between_relations()
+        for index, relation in enumerate(self._clan):
+            if index > 0:
+                self._row_between_relations()
             self._write_row(relation)
         self._body_end()
 
-- 
2.43.0


From 0e617e7f97413e9ab973c1eb7a4705edfb0f0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 45/59] fix: export_table wrote values that are not lexical
 forms of their types (True, dates)

---
 algebraixlib/import_export/rdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f4adb84..e666a95 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -268,7 +268,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
             if right is not _ud.Undef():
                 self._write_atom(right)
         def _write_atom(self, atom: _mo.Atom):
-            data = str(atom.value).replace('"', '""')
+            data = _get_lexical_form(atom.value).replace('"', '""')
             self._file.write('"' + data + '"')
 
     # noinspection PyPep8
@@ -319,7 +319,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write(_json.dumps(str(atom.value), ensure_ascii=False))
+            self._file.write(_json.dumps(_get_lexical_form(atom.value), ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
@@ -332,6 +332,11 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
     writer.export(file_or_path)
 
 
+def _get_lexical_form(value) -> str:
+    """Return the lexical form of ``value`` (which is not always ``str(value)``, e.g. 'true')."""
+    return str(value if isinstance(value, _rdflib.term.Identifier) else _rdflib.Literal(value))
+
+
 def _convert_graph_to_mathobjects(rdflib_graph: _rdflib.Graph) -> 'PP(A x A)':
     """Return a `graph` from the data in the `~_rdflib.Graph` `rdflib_graph`."""
     return _mo.Set(_make_triple_from_graph(triple_tuple) for triple_tuple in rdflib_graph)
-- 
2.43.0


From 6975997e773c6e061b0e11e42cd3027963a764c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 46/59] fix: triple_match raised IndexError when matching an
 empty string

---
 algebraixlib/util/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index a37f8c5..aa8a769 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -122,7 +122,7 @@ def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=N
 
     def add(rdf_left, value):
         if value is not None:
-            if isinstance(value, str) and value[0] in '?$':
+            if isinstance(value, str) and value[:1] in ('?', '$'):
                 projection[rdf_left] = value
             else:
                 pattern[rdf_left] = value
-- 
2.43.0


From e2d1eee27e3e6d0061119e06e7bf198c34760720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:27 +0000
Subject: [PATCH 47/59] fix: is_graph rejected the empty graph

---
 algebraixlib/util/rdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index aa8a769..cd7f653 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -159,8 +159,8 @@ def _check_graph(obj: _mo.MathObject) -> bool:
 
     ``obj`` is expected to be a :term:`clan`.
     """
-    return obj.is_set and obj.get_left_set() == _mo.Set('s', 'p', 'o') \
-        and _properties.is_regular(obj)
+    return obj.is_set and (obj.is_empty or (
+        obj.get_left_set() == _mo.Set('s', 'p', 'o') and _properties.is_regular(obj)))
 
 
 def match_and_project(graph: 'PP(A x A)', pattern: dict=None, projection: dict=None):
-- 
2.43.0


From d9fa592e89865a24b0061abaf77ddc8dd3d2987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:54 +0000
Subject: [PATCH 48/59] fix: the short LaTeX of equal sets differed in
 parentheses around couplets

---
 algebraixlib/util/latexprinter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 1d3bcb8..2afa85f 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -198,13 +198,14 @@ def set_to_latex(set_: _mo.Set, short: bool=False, _depth: int=0):
         # Use comma delimiters for elements. Print on single line.
 
         # Add sorting to obtain predictable output.
-        elem_itr = iter(sorted(set_.data))
+        elems = sorted(set_.data)
+        elem_itr = iter(elems)
 
         if short and set_.cardinality > Config.short_set_len + 1:
             is_couplet_list = [elem.is_couplet
-                for elem in _itertools.islice(set_, Config.short_set_len)]
+                for elem in _itertools.islice(elems, Config.short_set_len)]
         else:
-            is_couplet_list = [elem.is_couplet for elem in set_]
+            is_couplet_list = [elem.is_couplet for elem in elems]
         parenthesize_couplets = any(is_couplet_list) and not all(is_couplet_list)
 
         def optionally_parenthesize_couplet(element):
-- 
2.43.0


From b89398140689f1a253e06b7a7bb56c997e694432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:59 +0000
Subject: [PATCH 49/59] fix: the short LaTeX of multisets had an ellipsis
 without anything left out, and no number

---
 algebraixlib/util/latexprinter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 2afa85f..f7c8d37 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -266,11 +266,14 @@ def mset_to_latex(mset: _mo.Multiset, short: bool=False, _depth: int=0):
 
     result = _Tokens.left_bracket_dyn + start
 
-    if short and mset.cardinality > Config.short_set_len + 1:
+    if short and len(mset.data) > Config.short_set_len + 1:
+        items = sorted(mset.data.items())
         result += separator.join(
-            [latex_mset(elem_key, multiple) for elem_key, multiple in _itertools.islice(
-                sorted(mset.data.items()), Config.short_set_len)])
+            [latex_mset(elem_key, multiple)
+             for elem_key, multiple in _itertools.islice(items, Config.short_set_len)])
         result += separator + _Tokens.ellipsis
+        result += '({0})'.format(
+            sum(multiple for _, multiple in _itertools.islice(items, Config.short_set_len, None)))
     else:
         result += separator.join([latex_mset(elem_key, multiple)
                                   for elem_key, multiple in sorted(mset.data.items())])
-- 
2.43.0


From 5f954b38c341e3d813c1cbec155bce41f45795a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 50/59] fix: create_simple_web_page always raised KeyError

---
 algebraixlib/util/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 4200cd9..e2f7fc0 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -210,7 +210,7 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
         <h2>Input:</h2>
         <div id="dataAlgebraArea">{data_algebra_in!s}</div>
         <h2>Output:</h2>
-        <div id="latexArea">$$\(\require{color}\){latex_out}$$</div>
+        <div id="latexArea">$$\(\require{{color}}\){latex_out}$$</div>
     </body></html>
     """
     web_out = web_template.format(
-- 
2.43.0


From 8ec1103786bc9e5cae07e610a1c52cc3b25fdb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 51/59] fix: create_simple_web_page did not escape its contents

---
 algebraixlib/util/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index e2f7fc0..7484b4e 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -214,6 +214,7 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
     </body></html>
     """
     web_out = web_template.format(
-        data_algebra_in=mathobj, latex_out=_latexprinter.math_object_to_latex(mathobj))
+        data_algebra_in=_html.escape(str(mathobj)),
+        latex_out=_html.escape(_latexprinter.math_object_to_latex(mathobj)))
     print(web_out)
     return web_out
-- 
2.43.0


From 938653cda215769ec36994a82ca206808142024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 52/59] fix: as_html_handle_data_algebra wrote strings one
 character per line

---
 algebraixlib/util/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 7484b4e..ccf46e4 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -150,7 +150,7 @@ def as_html_handle_data_algebra(mathobj):
     if isinstance(mathobj, _mo.MathObject):
         # print this one math object
         return "$$" + _html.escape(_latexprinter.math_object_to_latex(mathobj)) + "$$"
-    elif isinstance(mathobj, _collections.Iterable):
+    elif isinstance(mathobj, _collections.Iterable) and not isinstance(mathobj, str):
         temp = ""
         for elem in mathobj:
             if isinstance(elem, _mo.MathObject):
-- 
2.43.0


From 8681014372b0031467c0878b6596c2e4c0dc0dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 53/59] fix: print_var formatted the appended string

---
 algebraixlib/util/miscellaneous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index c041c06..672a8fb 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -130,9 +130,9 @@ def print_var(variable_name, frames_up: int=0, skip: bool=False, short: bool=Fal
         except Exception:
             format_str_len = ''
 
-        format_str = '{{variable_name}}{format_str_len} {format_str_val}{append}'.format(
-            format_str_len=format_str_len, format_str_val=format_str_val, append=append)
-        var_str = format_str.format(**format_vals)
+        format_str = '{{variable_name}}{format_str_len} {format_str_val}'.format(
+            format_str_len=format_str_len, format_str_val=format_str_val)
+        var_str = format_str.format(**format_vals) + append
         var_str_ind = _textwrap.indent(var_str, indent)
         if indent_first != indent:
             var_str_ind = indent_first + var_str_ind[len(indent):]
-- 
2.43.0


From 48037b4eab7086a3a917887f33c77a1cbfabecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 54/59] fix: pickling Undef() with protocol 0 or 1 gave another
 instance

---
 algebraixlib/undef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algebraixlib/undef.py b/algebraixlib/undef.py
index c6af9d4..82f69c4 100644
--- a/algebraixlib/undef.py
+++ b/algebraixlib/undef.py
@@ -51,6 +51,10 @@ class Undef:
         """Prevent comparisons on Undef; raise a TypeError."""
         raise TypeError("Boolean conversion is not supported by Undef")
 
+    def __reduce__(self):
+        """Make sure that copying and pickling (with any protocol) give the singleton."""
+        return Undef, ()
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Undef()'
-- 
2.43.0


From 765083d3910061f1dd6d4dd8f1ca8224ea2c6c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 55/59] fix: import_xml and xml_to_str failed for files in
 other encodings than UTF-8

---
 algebraixlib/import_export/xml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 1a03319..62616ec 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -99,7 +99,8 @@ def import_xml(xml_file_or_filepath, convert_numerics: bool=False) -> 'P( A x M
     if hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
         return _import_xml(xml_file_or_filepath)
     else:
-        with open(xml_file_or_filepath, encoding='utf-8') as file:
+        # The parser determines the encoding (from the XML declaration).
+        with open(xml_file_or_filepath, 'rb') as file:
             return _import_xml(file)
 
 
@@ -120,7 +121,7 @@ def xml_to_str(xml_file_or_filepath, indent_text='   ', truncate=True, max_line_
     """
 
     if not hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
-        xml_file_or_filepath = open(xml_file_or_filepath, encoding='utf-8')
+        xml_file_or_filepath = open(xml_file_or_filepath, 'rb')
 
     from xml.dom.minidom import parse
     xml_data = parse(xml_file_or_filepath)
-- 
2.43.0


From 052e980968203219f35bd8cd20d6e33b02cbc8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 56/59] fix: export_csv raised TypeError for columns named by
 values of different types

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 03d8d4f..35e9df0 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -64,7 +64,7 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
         # (An empty clan has no lefts.)
         rel = next(iter(absolute_clan_or_multiclan), _mo.Set())
         # left_set is sorted to guarantee consistent iterations
-        ordered_lefts = sorted([left.value for left in rel.get_left_set()])
+        ordered_lefts = [left.value for left in sorted(rel.get_left_set())]
 
     # Generate dictionaries that associates left components with their right components for each
     # relation.
-- 
2.43.0


From f28e9fdfc41c42bdcdee9b10e273bd2101e6e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 57/59] fix: CSV import keeps what it knows about regularity
 per import

---
 algebraixlib/import_export/csv.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 35e9df0..2a3feff 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -154,11 +154,12 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row has other columns with values than another
+    regular = True  # Set to false if any row has other columns with values than another
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
     def _import_csv(csv_file):
+        nonlocal regular
         for _ in range(0, skip_rows):
             next(csv_file)
         reader = _csv.DictReader(csv_file, fieldnames=columns)
@@ -169,8 +170,8 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             filtered_row = {key: val for key, val in _filter_row(row)}
             if first_columns is None:
                 first_columns = set(filtered_row)
-            elif import_csv.regular and set(filtered_row) != first_columns:
-                import_csv.regular = False
+            elif regular and set(filtered_row) != first_columns:
+                regular = False
             for key, val in types.items():
                 if key in filtered_row:
                     filtered_row[key] = val(filtered_row[key])
@@ -187,18 +188,18 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             return _mo.Multiset(_import_csv(csv_file_or_filepath),
                                 direct_load=True).cache_multiclan(
                 CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-                CacheStatus.from_bool(import_csv.regular))
+                CacheStatus.from_bool(regular))
         else:
             return _mo.Set(_import_csv(csv_file_or_filepath), direct_load=True)\
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
-                .cache_regular(CacheStatus.from_bool(import_csv.regular))
+                .cache_regular(CacheStatus.from_bool(regular))
     else:
         with open(csv_file_or_filepath, encoding='utf-8', errors='ignore', newline='') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-                    CacheStatus.from_bool(import_csv.regular))
+                    CacheStatus.from_bool(regular))
             else:
                 return _mo.Set(_import_csv(file), direct_load=True)\
                     .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
-                    .cache_regular(CacheStatus.from_bool(import_csv.regular))
+                    .cache_regular(CacheStatus.from_bool(regular))
-- 
2.43.0


From 93bbe83d624b522fd142b4a18190152badeb6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 58/59] fix: TPC-H query 5 sums up line items of the same
 nation with the same revenue only once

---
 examples/TPC-H_Query5/TPC-H_Query5.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/examples/TPC-H_Query5/TPC-H_Query5.py b/examples/TPC-H_Query5/TPC-H_Query5.py
index 2fdf308..3438d63 100755
--- a/examples/TPC-H_Query5/TPC-H_Query5.py
+++ b/examples/TPC-H_Query5/TPC-H_Query5.py
@@ -240,12 +240,11 @@ def query5():
         return Couplet('revenue', rel('extendedprice').value * (1 - rel('discount').value))
     result4 = Set(relations.functional_add(rel, calc_revenue(rel)) for rel in result3)
     timer.lap('result4', short=short_prints)
-    # Remove unnecessary columns.
-    revenue_by_nations = clans.project(result4, 'revenue', 'nationname')
 
-    # Partition the result on 'nationname'.
+    # Partition the result on 'nationname'. (Don't project to 'revenue' and 'nationname' first: in a
+    # clan, the line items of a nation that have the same revenue would become one relation.)
     revenue_grouped_by_nations = partition.partition(
-        revenue_by_nations, lambda rel: rel('nationname'))
+        result4, lambda rel: rel('nationname'))
     timer.lap('revenue_grouped_by_nations', short=short_prints)
 
     # Almost generic aggregation function. (Handles 'normal' cases, but not all edge cases.)
-- 
2.43.0


From 6755dd715dc608f830cd61befb902c70c85934ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 59/59] Revert "fix: TPC-H query 5 sums up line items of the
 same nation with the same revenue only once"

This reverts commit 93bbe83d624b522fd142b4a18190152badeb6d43.
---
 examples/TPC-H_Query5/TPC-H_Query5.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/examples/TPC-H_Query5/TPC-H_Query5.py b/examples/TPC-H_Query5/TPC-H_Query5.py
index 3438d63..2fdf308 100755
--- a/examples/TPC-H_Query5/TPC-H_Query5.py
+++ b/examples/TPC-H_Query5/TPC-H_Query5.py
@@ -240,11 +240,12 @@ def query5():
         return Couplet('revenue', rel('extendedprice').value * (1 - rel('discount').value))
     result4 = Set(relations.functional_add(rel, calc_revenue(rel)) for rel in result3)
     timer.lap('result4', short=short_prints)
+    # Remove unnecessary columns.
+    revenue_by_nations = clans.project(result4, 'revenue', 'nationname')
 
-    # Partition the result on 'nationname'. (Don't project to 'revenue' and 'nationname' first: in a
-    # clan, the line items of a nation that have the same revenue would become one relation.)
+    # Partition the result on 'nationname'.
     revenue_grouped_by_nations = partition.partition(
-        result4, lambda rel: rel('nationname'))
+        revenue_by_nations, lambda rel: rel('nationname'))
     timer.lap('revenue_grouped_by_nations', short=short_prints)
 
     # Almost generic aggregation function. (Handles 'normal' cases, but not all edge cases.)
-- 
2.43.0

