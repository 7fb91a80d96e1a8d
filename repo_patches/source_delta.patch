From 4db76c4c38015644f75e94498286657f89ae9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 01/20] fix: a falsy record is a valid post_new replacement and
 parsing result

---
 records/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 75703a0..a0ff20f 100644
--- a/records/record.py
+++ b/records/record.py
@@ -237,10 +237,12 @@ class RecordBase:
             self._hash = None
 
         try:
-            self = self.post_new() or self
+            replacement = self.post_new()
+            if replacement is not None:
+                self = replacement
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing:
+            if parsing is not None:
                 return parsing
             raise
 
-- 
2.43.0


From cf38f99313add38519859f535f0cd5bcf63bac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 02/20] fix: coerced values must pass the type check also where
 it answers False

---
 records/fillers/filler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index b58e816..0219ee3 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -193,7 +193,7 @@ class AnnotatedFiller(Filler, Generic[T]):
                     try:
                         arg = coercer(arg)
                         tc = self.type_check(arg)
-                        if tc is None \
+                        if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                             raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
                     except Exception:
-- 
2.43.0


From 2dea3faed5f81af5981f7d043dbf00ddb80854ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 03/20] fix: every coercer is given the original value

---
 records/fillers/filler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index 0219ee3..d5172d7 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -191,15 +191,16 @@ class AnnotatedFiller(Filler, Generic[T]):
                     raise TypeError(f'failed type checking for value of type {type(arg)}')
                 for i, coercer in enumerate(self.coercers):
                     try:
-                        arg = coercer(arg)
-                        tc = self.type_check(arg)
+                        coerced = coercer(arg)
+                        tc = self.type_check(coerced)
                         if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
-                            raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
+                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
                         if i == len(self.coercers) - 1:
                             raise
                     else:
+                        arg = coerced
                         break
                 tpk = TypePassKind.coerce
 
-- 
2.43.0


From a1bd2e95f5d92c784df048c4bc764847537c5807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 04/20] fix: validating a literal does not extend the table of
 literal types

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a745b51..c599917 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -108,7 +108,7 @@ class LiteralFiller(AnnotatedFiller):
         if not self.is_hollow():
             @self.validators.append
             def inner_validator(v):
-                if v not in self.possible_values[type(v)]:
+                if v not in self.possible_values.get(type(v), ()):
                     raise ValueError
                 return v
 
-- 
2.43.0


From b604bc7d0398601b7a8dec5b526ec99ff241212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 05/20] fix: a Select takes a snapshot of its keys so one-shot
 iterables are not consumed

---
 records/select.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/records/select.py b/records/select.py
index 4b3678d..ba6498d 100644
--- a/records/select.py
+++ b/records/select.py
@@ -44,12 +44,12 @@ class Select:
             keys_to_remove = (keys_to_remove,)
         if isinstance(keys_to_maybe_remove, str):
             keys_to_maybe_remove = (keys_to_maybe_remove,)
-        self.keys_to_add = keys_to_add
-        self.keys_to_maybe_add = keys_to_maybe_add
-        self.keys_to_remove = keys_to_remove
-        self.keys_to_maybe_remove = keys_to_maybe_remove
-        self.keys_to_rename = keys_to_rename
-        self.keys_to_maybe_rename = keys_to_maybe_rename
+        self.keys_to_add = tuple(keys_to_add)
+        self.keys_to_maybe_add = tuple(keys_to_maybe_add)
+        self.keys_to_remove = tuple(keys_to_remove)
+        self.keys_to_maybe_remove = tuple(keys_to_maybe_remove)
+        self.keys_to_rename = tuple(keys_to_rename)
+        self.keys_to_maybe_rename = tuple(keys_to_maybe_rename)
 
         # the Select's truthiness is cached
         self._bool = None
-- 
2.43.0


From 26df89c10ba93abe3445ef1d24fef07e6bef1671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 06/20] fix: fields of a subclass are a FieldDict too

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index a0ff20f..6f938e1 100644
--- a/records/record.py
+++ b/records/record.py
@@ -122,7 +122,7 @@ class RecordBase:
                     raise ValueError(f'cannot override inherited field {k}')
                 parent_fields[k] = field
         if parent_fields:
-            cls._fields = {**parent_fields, **cls._fields}
+            cls._fields = FieldDict({**parent_fields, **cls._fields})
 
         if any(b for b in cls.__bases__ if b.__init__ not in (RecordBase.__init__, object.__init__)):
             warn(f'class {cls} has parents that implement __init__, the initializer will not be called!')
-- 
2.43.0


From 5cf3b0e130424fda3788892bbd734fe2ead626da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 07/20] fix: attributes of frozen records cannot be deleted

---
 records/record.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/records/record.py b/records/record.py
index 6f938e1..82d6db6 100644
--- a/records/record.py
+++ b/records/record.py
@@ -138,9 +138,11 @@ class RecordBase:
         cls._unary_parse = unary_parse
         if frozen:
             cls.__setattr__ = RecordBase.__setattr__
+            cls.__delattr__ = RecordBase.__delattr__
             cls.__hash__ = RecordBase.__hash__
         else:
             cls.__setattr__ = object.__setattr__
+            cls.__delattr__ = object.__delattr__
             cls.__hash__ = None
 
         # all validator tokens go here
@@ -427,6 +429,10 @@ class RecordBase:
             return super().__setattr__(a, value)
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
+    def __delattr__(self, a):
+        # note: if the class is non-frozen, this function will be overridden
+        raise TypeError(f'{type(self).__qualname__} is frozen')
+
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
-- 
2.43.0


From fad77938a13a11c320e33ef159a60bafd74f5adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 08/20] fix: a cached hash is not pickled, hashes differ
 between processes

---
 records/record.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/record.py b/records/record.py
index 82d6db6..fc7f651 100644
--- a/records/record.py
+++ b/records/record.py
@@ -434,6 +434,9 @@ class RecordBase:
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
     def __getnewargs_ex__(self):
+        if self._frozen:
+            # the cached hash is only valid in this process, so it must not be pickled
+            self._hash = None
         return (), self.to_dict()
 
     @parser
-- 
2.43.0


From bb66dd34be53b539db3ee171e11a3c262283cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 09/20] fix: frozen records with unhashable values can be
 compared

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index fc7f651..ef281ee 100644
--- a/records/record.py
+++ b/records/record.py
@@ -285,7 +285,7 @@ class RecordBase:
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        if type(self).is_frozen() and hash(self) != hash(other):
+        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
             return False
         for name in self._fields:
             if getattr(self, name) != getattr(other, name):
-- 
2.43.0


From d6eeddfa1b0ebb2d9d9b3e92537d24b3a5305e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 10/20] fix: from_instance accepts any number of mappings

---
 records/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index ef281ee..b996d34 100644
--- a/records/record.py
+++ b/records/record.py
@@ -484,7 +484,9 @@ class RecordBase:
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(*maps, **kwargs)
+        for m in maps:
+            d.update(m)
+        d.update(kwargs)
         return d
 
     @parser
-- 
2.43.0


From f23b15c58e70c8ad346bb1cede2daea8df41af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 11/20] fix: deepcopy honours its memo

---
 records/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index b996d34..0168c74 100644
--- a/records/record.py
+++ b/records/record.py
@@ -660,7 +660,8 @@ class RecordBase:
         return type(self).from_instance(self)
 
     def __deepcopy__(self, memo=None):
-        memo = memo or {}
+        if memo is None:
+            memo = {}
         d = self.to_dict()
         d = deepcopy(d, memo)
         return self.from_mapping(d)
-- 
2.43.0


From 45b68e34b0ad218eebb0e8b7cd0e3eb3d28b1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 12/20] fix: copies keep the values of the original instead of
 equal defaults

---
 records/record.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/records/record.py b/records/record.py
index 0168c74..3d9bf0a 100644
--- a/records/record.py
+++ b/records/record.py
@@ -657,14 +657,17 @@ class RecordBase:
     def __copy__(self):
         if self.is_frozen():
             return self
-        return type(self).from_instance(self)
+        ret = type(self).from_instance(self)
+        ret.__dict__.update(self.__dict__)
+        return ret
 
     def __deepcopy__(self, memo=None):
         if memo is None:
             memo = {}
-        d = self.to_dict()
-        d = deepcopy(d, memo)
-        return self.from_mapping(d)
+        ret = self.from_mapping(self.to_dict())
+        memo[id(self)] = ret
+        ret.__dict__.update(deepcopy(self.__dict__, memo))
+        return ret
 
     def __ordering_key(self):
         f: RecordField
-- 
2.43.0


From 555a0d5461fdafd881a517f587f2c908bbeae96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 13/20] fix: rebuild strings, namedtuples and bounded deques
 from their processed elements

---
 .../fillers/builtin_fillers/typing_fillers.py | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index c599917..9cd5ba2 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -18,6 +18,22 @@ except ImportError:
     Literal = object()
 
 
+def _rebuild(initial, elements):
+    """
+    A utility function to rebuild a collection from its processed elements
+    :param initial: the original collection. Is not mutated.
+    :param elements: the elements of the new collection.
+    :return: a new collection of the class of `initial`, with the elements `elements`.
+    """
+    cls = type(initial)
+    if isinstance(initial, str):
+        return cls(''.join(elements))
+    if isinstance(initial, deque):
+        return cls(elements, initial.maxlen)
+    # namedtuples take their elements as separate arguments, rather than as an iterable
+    return getattr(cls, '_make', cls)(elements)
+
+
 class UnionFiller(Filler):
     """
     A filler for union types.
@@ -192,7 +208,7 @@ class TupleFiller(WrapperFiller):
                                 [filled],
                                 (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                             )
-                            return type(v)(all_elements)
+                            return _rebuild(v, all_elements)
                     return v
         else:
             if not self.is_hollow():
@@ -222,7 +238,7 @@ class TupleFiller(WrapperFiller):
                                 (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                             self.sub_fillers[hollow_passes + 1:]))
                             )
-                            return type(v)(all_elements)
+                            return _rebuild(v, all_elements)
                     return v
 
     def sub_filler(self, key):
@@ -264,7 +280,7 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
-        return type(initial)(elements)
+        return _rebuild(initial, elements)
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
-- 
2.43.0


From 42b7bd4989f0784be4686c3777239efe33322024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 14/20] fix: rebuild counters, chain maps and default dicts
 from their processed items

---
 records/fillers/builtin_fillers/typing_fillers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 9cd5ba2..9c9c17f 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -340,7 +340,10 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
-        return type(initial)(tuples)
+        if isinstance(initial, defaultdict):
+            return type(initial)(initial.default_factory, tuples)
+        # some mappings (like counters and chain maps) treat an iterable of pairs differently
+        return type(initial)(dict(tuples))
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
-- 
2.43.0


From c97837d0614498c0bdff7ba3c1fc665c36150238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 15/20] fix: a bare ClassVar is not a field

---
 records/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/field.py b/records/field.py
index 31bd34c..bfcccbb 100644
--- a/records/field.py
+++ b/records/field.py
@@ -112,7 +112,7 @@ class RecordField:
             raise TypeError('raw Final cannot be use inside records')
         origin, args = split_annotation(th)
         meta_org = get_origin(origin)
-        if meta_org == ClassVar:
+        if origin is ClassVar or meta_org == ClassVar:
             return SKIP_FIELD
         if meta_org is Final:
             if not owner.is_frozen():
-- 
2.43.0


From b4f311a55b85427d7084701067698a2e55ec026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 16/20] fix: tokens around a Final annotation are applied to
 the field

---
 records/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/records/field.py b/records/field.py
index bfcccbb..f16e4e3 100644
--- a/records/field.py
+++ b/records/field.py
@@ -7,7 +7,7 @@ from records.fillers.filler import Filler
 from records.fillers.get_filler import get_filler
 from records.tags import Tag
 from records.utils.decorators import decorator_kw_method
-from records.utils.typing_compatible import get_args, get_origin, split_annotation
+from records.utils.typing_compatible import Annotated, get_args, get_origin, split_annotation
 
 try:
     from typing import Final
@@ -117,7 +117,10 @@ class RecordField:
         if meta_org is Final:
             if not owner.is_frozen():
                 raise TypeError('cannot declare Final field in non-frozen Record')
-            ret = cls.from_type_hint(get_args(origin)[0], owner=owner, **kwargs)
+            inner = get_args(origin)[0]
+            if args:
+                inner = Annotated.__class_getitem__((inner, *args))
+            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
         else:
             filler = get_filler(th)
             ret = cls(filler=filler, owner=owner, **kwargs)
-- 
2.43.0


From 17a48972260c96fcf885890c9a2baaafd0a13f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 17/20] fix: fields can be blacklisted by any container of tags

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 3d9bf0a..b9b220a 100644
--- a/records/record.py
+++ b/records/record.py
@@ -340,7 +340,7 @@ class RecordBase:
 
         def export_field(f: RecordField):
             # check if we can rule out a field without even knowing its value
-            return f.name in whitelist_keys or not (f.tags & blacklist_tags)
+            return f.name in whitelist_keys or not any(t in blacklist_tags for t in f.tags)
 
         def export_value(f: RecordField, v):
             return f.name in whitelist_keys \
-- 
2.43.0


From 4c5a5054b2b05d8fb37ebf4b4b0c79d9ef36de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 18/20] fix: from_mapping does not subscript a mapping for keys
 it lacks

---
 records/record.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index b9b220a..5d0ad08 100644
--- a/records/record.py
+++ b/records/record.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from collections import ChainMap
 from copy import deepcopy
 from inspect import getattr_static
 from typing import AbstractSet, Any, Callable, ClassVar, Container, Dict, List, Mapping, Optional, TypeVar, Union, \
@@ -457,7 +456,11 @@ class RecordBase:
         .. note::
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
-        return ChainMap(*maps, dict(**kwargs))
+        # subscripting a mapping for a key it lacks is avoided, some mappings (like defaultdict) will add it
+        ret = dict(kwargs)
+        for m in reversed(maps):
+            ret.update((k, m[k]) for k in m)
+        return ret
 
     @SpecializedShortcutFactory
     @classmethod
-- 
2.43.0


From 1f3b04708f744d20529f60b517213109d1648449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 19/20] fix: a hollow union runs the validators of its members

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 9c9c17f..cf04d09 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -63,8 +63,6 @@ class UnionFiller(Filler):
         * Then, all the successful sub-fillers are put through validation.
         * Validation succeeds only if exactly one sub-filler succeeded.
         """
-        if self.is_hollow():
-            return FillingSuccess(arg, TypePassKind.hollow)
         best_results = []
         best_key = float('inf')
         for i, sub_filler in enumerate(self.sub_fillers):
-- 
2.43.0


From 732d6dda474e5f8c2597dabf3f63403ab599b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 20/20] fix: a parsing stands when a default factory fails

---
 records/record.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 5d0ad08..05af559 100644
--- a/records/record.py
+++ b/records/record.py
@@ -229,7 +229,13 @@ class RecordBase:
             required = cls._required_keys.difference(kwargs)
             raise TypeError(f'missing required arguments: {tuple(required)}')
         for k in cls._optional_keys.difference(kwargs):
-            values[k] = cls._fields[k].make_default()
+            try:
+                values[k] = cls._fields[k].make_default()
+            except Exception:
+                # if a default factory failed, check if we have a parsing standing by
+                if parsing is not None:
+                    return parsing
+                raise
 
         self = super().__new__(cls)
         # we set directly into __dict__ because the class may be frozen and setattr would fail us
-- 
2.43.0

