From 58586632f41bf5c90e1d36bdd06615006bfd3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 01/79] fix: ListCollection.insert inserts the item, rather
 than its members

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index feb95fb..efad13b 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -375,7 +375,7 @@ class ListCollection(KeyedCollection):
             i += len(self)
         if i < 0:
             i = 0
-        self[i:i] = x
+        self[i:i] = [x]
 
     def pop(self, i=-1):
         if i < 0:
-- 
2.43.0


From 2bc43b1d87d305bee7ab0e1c1c1e769cbb0fe9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 02/79] fix: ListCollection.pop refuses indexes before the
 start of the list

---
 normalize/coll.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index efad13b..b0c4b17 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -378,10 +378,6 @@ class ListCollection(KeyedCollection):
         self[i:i] = [x]
 
     def pop(self, i=-1):
-        if i < 0:
-            i += len(self)
-            if i < 0:
-                i = 0
         x = self[i]
         del self[i]
         return x
-- 
2.43.0


From 3ad222f2e60b185acc8c7941117e6f31257f642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 03/79] fix: ListCollection.index raises ValueError for any
 absent item

---
 normalize/coll.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index b0c4b17..8b7b67a 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -365,10 +365,10 @@ class ListCollection(KeyedCollection):
             j += len_
             if j < 0:
                 j = 0
-        for k in range(i, j):
+        for k in range(i, min(j, len_)):
             if self[k] == x:
                 return k
-        raise ValueError("%r is not in list" % x)
+        raise ValueError("%r is not in list" % (x,))
 
     def insert(self, i, x):
         if i < 0:
-- 
2.43.0


From c4749670360838988e294e8306d26ddcf51b2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 04/79] fix: ListCollection.extend coerces all items before
 adding any

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 8b7b67a..b68593f 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -348,7 +348,7 @@ class ListCollection(KeyedCollection):
         """Adds new values to the end of the collection, coercing items.
         """
         # perhaps: self[len(self):len(self)] = iterable
-        self._values.extend(self.coerce_value(item) for item in iterable)
+        self._values.extend([self.coerce_value(item) for item in iterable])
 
     def count(self, value):
         return self._values.count(value)
-- 
2.43.0


From 2ceed6211cf5ccf664b57021bcad9ef9d9969b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 05/79] fix: DictCollection keeps the items of another
 DictCollection

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index b68593f..aa12e08 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -221,7 +221,7 @@ class DictCollection(KeyedCollection):
                 passed=coll,
                 colltype=cls,
             )
-        if isinstance(coll, collections.abc.Mapping):
+        if isinstance(coll, (collections.abc.Mapping, DictCollection)):
             for k, v in coll.items():
                 yield k, v
         elif isinstance(coll, collections.abc.Sequence):
-- 
2.43.0


From 9f43b1875262c3e374e195642e53d57c007e8115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 06/79] fix: keep extra properties when pickling generic
 collections

---
 normalize/coll.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index aa12e08..944f43d 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -454,10 +454,10 @@ class _GenericPickler(object):
     def __init__(self, typekey):
         self.typekey = typekey
 
-    def __call__(self, values):
+    def __call__(self, values, props=None):
         if (len(self.typekey) > 1) and (self.typekey[1].startswith('__builtin__')):
             self.typekey = (self.typekey[0], self.typekey[1].replace('__builtin__', 'builtins'))
-        return GENERIC_TYPES[self.typekey](values=values)
+        return GENERIC_TYPES[self.typekey](values=values, **(props or {}))
 
 
 class _Generic(Collection):
@@ -465,7 +465,13 @@ class _Generic(Collection):
     things."""
     def __reduce__(self):
         """helper method for pickling"""
-        return (_GenericPickler(type(self).generic_key), (self._values,))
+        props = dict(
+            (k, v) for k, v in self.__dict__.items() if
+            k in type(self).properties
+        )
+        return (
+            _GenericPickler(type(self).generic_key), (self._values, props),
+        )
 
 
 def _make_generic(of, coll):
-- 
2.43.0


From d3c38be423b5bbc5b7a17fac626d31c04fc91cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 07/79] fix: JsonRecordDict can be printed

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f571c84..2d89f0a 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -497,7 +497,7 @@ class JsonRecordDict(RecordDict, JsonRecord):
         return to_json(self, extraneous)
 
     def __repr__(self):
-        super_repr = super(JsonRecordList, self).__repr__()
+        super_repr = super(JsonRecordDict, self).__repr__()
         return super_repr.replace("{", "values={", 1)
 
 
-- 
2.43.0


From 072b198bd65f7b449caff22394484d2dddbc1036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 08/79] fix: records with unset v1_none properties can be
 marshalled

---
 normalize/property/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 6828f8b..88c9fca 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -454,7 +454,7 @@ class V1Property(SafeProperty):
     def slot_is_empty(self, obj):
         if self.v1_upgraded:
             return False
-        return super(V1Property, obj).slot_is_empty(obj)
+        return super(V1Property, self).slot_is_empty(obj)
 
     def attribute_error_hook(self):
         return self.v1_none
-- 
2.43.0


From 517f61061895bbce5d479315f3bd0d54509f43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 09/79] fix: deleting an unset safe property is an
 AttributeError, or harmless for v1_none

---
 normalize/property/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 88c9fca..a716c11 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -417,6 +417,8 @@ class SafeProperty(Property):
         it is false"""
         if self.required:
             raise exc.PropertyRequired(prop=self)
+        if self.name not in obj.__dict__:
+            return self.attribute_error_hook()
         del obj.__dict__[self.name]
 
 
-- 
2.43.0


From 25fbaf9b11dc5fc582b6a2d137d7d03ac3407102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 10/79] fix: define the exceptions raised for mutable v1_none
 and ambiguous property arguments

---
 normalize/exc.py           | 13 +++++++++++++
 normalize/property/meta.py |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 16a1fa9..c48ad0b 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -132,6 +132,13 @@ class AmbiguousConstruction(UsageException):
     message = "only init_dict or kwargs may be specified"
 
 
+class AmbiguousPropertyTraitArg(PropertyDefinitionError):
+    message = (
+        "'{trait_arg}' could imply any of several property types: {could_be}; "
+        "use one of the types directly"
+    )
+
+
 class BadAssignment(EmptyAttributeError, TypeError):
     message = (
         "Can't assign to the empty placeholder for ({typenames})"
@@ -306,6 +313,12 @@ class NotCallable(EmptyAttributeError, TypeError):
     )
 
 
+class NoneMutable(PropertyDefinitionError):
+    message = (
+        "v1_none must be a hashable (immutable) value; got: {passed!r}"
+    )
+
+
 class NotSubscriptable(EmptyAttributeError, TypeError):
     message = (
         "No types in ({typenames}) support subscripting"
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f424f20..bd283e2 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -72,7 +72,7 @@ def has(selfie, self, args, kwargs):
                 raise exc.AmbiguousPropertyTraitArg(
                     trait_arg=argname,
                     could_be=" ".join(
-                        sorted(x.__name__ for x in implies_traits)
+                        sorted(",".join(x) for x in implies_traits)
                     ),
                     matched_traits=implies_traits,
                 )
-- 
2.43.0


From dbd0ecb47c0fde82db903667a8038352ddb91df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 11/79] fix: FieldSelector.post passes the value through
 wildcards

---
 normalize/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 45d9ae2..98563cf 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -255,7 +255,9 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r) for r in record)
+                return sum(
+                    sub_field_selector.post(r, value) for r in record
+                )
 
             # supports the case where an item is created by setting
             # a single required field value
-- 
2.43.0


From 14c4d38d47d597273bfdfa6c3d3c631cebac57b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 12/79] fix: FieldSelector reports missing dictionary keys and
 items as selector errors

---
 normalize/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 98563cf..04f4970 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -160,7 +160,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -221,7 +221,7 @@ class FieldSelector(object):
                 if _try_index(record, selector):
                     try:
                         sub_record = record[selector]
-                    except IndexError:
+                    except LookupError:
                         raise FieldSelectorException(
                             "Could not find Record specified by index: %s." %
                             selector
@@ -339,7 +339,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -355,7 +355,10 @@ class FieldSelector(object):
                 else:
                     record[:] = ()
             else:
-                del record[to_delete]
+                try:
+                    del record[to_delete]
+                except LookupError:
+                    raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
-- 
2.43.0


From 90210e2be12a42900a4ac06b8127ed871896d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 13/79] fix: FieldSelector.startswith is false for prefixes
 longer than the selector

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 04f4970..c2b6683 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -477,13 +477,13 @@ class FieldSelector(object):
                 that passed.
         """
         if isinstance(key_or_fs, (FieldSelector, list, tuple)):
-            return all(
+            return len(key_or_fs) <= len(self.selectors) and all(
                 key_or_fs[i] == self.selectors[i] for i in range(
                     0, len(key_or_fs),
                 )
             )
         else:
-            return self.selectors[0] == key_or_fs
+            return bool(self.selectors) and self.selectors[0] == key_or_fs
 
     @property
     def path(self):
-- 
2.43.0


From 6c4d0cb4f38676b676a867efca3dbdfd9075d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 14/79] fix: FieldSelector refuses false-like elements of the
 wrong type

---
 normalize/selector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index c2b6683..1a8a474 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -70,10 +70,9 @@ class FieldSelector(object):
                 expr_selectors = list(expr)
 
             # Validate the selector
-            if any(
-                e for e in expr_selectors if not (
-                    isinstance(e, str) or isinstance(e, int) or e is None
-                )
+            if not all(
+                isinstance(e, str) or isinstance(e, int) or e is None
+                for e in expr_selectors
             ):
                 raise ValueError(
                     "FieldSelectors can only contain ints/longs, "
-- 
2.43.0


From 6fae88fb32b300944812dc2fbb589ed9def5af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 15/79] fix: selector path text with quoted keys and negative
 indexes parses back

---
 normalize/selector.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 1a8a474..2384164 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -508,7 +508,7 @@ def _fmt_selector_path(selector):
         return "[%d]" % selector
     elif selector is None:
         return "[*]"
-    elif not re.match(r'^[a-zA-Z_]\w*$', selector):
+    elif not re.match(r'[a-zA-Z_]\w*\Z', selector):
         return u"['%s']" % selector.replace("\\", "\\\\").replace("'", "\\'")
     else:
         return ".%s" % selector
@@ -517,9 +517,9 @@ def _fmt_selector_path(selector):
 _PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]''',
     re.X,
 )
@@ -535,7 +535,7 @@ def _scan_selector_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
@@ -924,9 +924,9 @@ class MultiFieldSelector(object):
 _MFS_PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]|
         (?P<branch>[()|])
         ''',
@@ -962,7 +962,7 @@ def _scan_mfs_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
-- 
2.43.0


From c7f00892d9aa5d834067ab0c17baf6d485115413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 16/79] fix: the path of an empty MultiFieldSelector parses
 back to an empty one

---
 normalize/selector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 2384164..d4a73dc 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -950,7 +950,8 @@ def _scan_mfs_path(path):
                 fs = list(stack[-1])
             else:
                 if not popping:
-                    mfs.append(fs)
+                    if fs:
+                        mfs.append(fs)
                     popping = True
                 fs = stack.pop()
         else:
-- 
2.43.0


From 2ac6cc992d243f7b180d025b2030b598adc7a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 17/79] fix: MultiFieldSelector.delete removes the right items
 when several list indexes are selected

---
 normalize/selector.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index d4a73dc..11df8de 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -785,6 +785,13 @@ class MultiFieldSelector(object):
         """
         return "MultiFieldSelector%r" % (tuple(x.selectors for x in self),)
 
+    def _by_index(self):
+        """All of the FieldSelectors, such that those which refer to items of
+        the same list are in order of the index"""
+        return sorted(self, key=lambda fs: [
+            x if isinstance(x, int) else -1 for x in fs.selectors
+        ])
+
     def _get(self, obj, tail):
         if tail is all:
             return deepcopy(obj)
@@ -865,7 +872,9 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        for fs in self:
+        # go through the indexes of a list from the last to the first, so that
+        # deleting an item does not move another which is yet to be deleted
+        for fs in reversed(self._by_index()):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From 105c7a8cb1cb6dd2f7240087a1233e1b82c41fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 18/79] fix: MultiFieldSelector.patch creates list items in
 order, and ignores fields missing on both sides

---
 normalize/selector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 11df8de..f09b566 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -899,7 +899,7 @@ class MultiFieldSelector(object):
         """
         # TODO: this could also be a whole lot more efficient!
         fs_val = []
-        for fs in self:
+        for fs in self._by_index():
             try:
                 fs_val.append((fs, fs.get(source)))
             except AttributeError:
@@ -912,7 +912,11 @@ class MultiFieldSelector(object):
 
         for fs, val in fs_val:
             if val is _None:
-                fs.delete(target)
+                try:
+                    fs.delete(target)
+                except FieldSelectorException:
+                    # nothing there to delete
+                    pass
             else:
                 fs.post(target, val if not copy else copy(val))
 
-- 
2.43.0


From 4cfe87804d9ffecdb377ddf9477d8611edd8a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 19/79] fix: FieldSelector.post creates missing dictionary
 items on the way to deeper fields

---
 normalize/selector.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index f09b566..eec6c41 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -260,9 +260,15 @@ class FieldSelector(object):
 
             # supports the case where an item is created by setting
             # a single required field value
-            kwarg = {}
-            if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
-                kwarg[self.selectors[-1]] = value
+            final = (
+                self.selectors[-1] if i >= len(self.selectors) - 2 else None
+            )
+
+            def kwarg_for(type_):
+                return (
+                    {final: value} if
+                    final in getattr(type_, "properties", ()) else {}
+                )
 
             if _try_index(record, selector):
                 try:
@@ -274,16 +280,21 @@ class FieldSelector(object):
                                 "FieldSelector set out of order: "
                                 "[%d]" % selector
                             )
-                        record.append(type(record).itemtype(**kwarg))
+                        itemtype = type(record).itemtype
+                        kwarg = kwarg_for(itemtype)
+                        record.append(itemtype(**kwarg))
                         if kwarg:
                             put_final = True
                     else:
                         raise
                     record = record[selector]
                 except KeyError:
-                    record[selector] = type(record).itemtype(**kwarg)
+                    itemtype = type(record).itemtype
+                    kwarg = kwarg_for(itemtype)
+                    record[selector] = itemtype(**kwarg)
                     if kwarg:
                         put_final = True
+                    record = record[selector]
             else:
                 if not hasattr(record, selector):
                     prop = type(record).properties[selector]
@@ -292,6 +303,7 @@ class FieldSelector(object):
                             "Must specify default= or isa= to auto-vivify "
                             "%s" % prop
                         )
+                    kwarg = kwarg_for(prop.valuetype)
                     setattr(record, selector, prop.valuetype(**kwarg))
                     if kwarg:
                         put_final = True
-- 
2.43.0


From cc2064955504979eb9b9b7ded3c1c026f400aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 20/79] fix: FieldSelector can refer to the properties of list
 collections

---
 normalize/selector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index eec6c41..0c29e97 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -34,6 +34,10 @@ def _try_index(instance, selector):
         return False
     if isinstance(selector, int):
         return True
+    if isinstance(selector, str) and \
+            isinstance(instance, (list, ListCollection)):
+        # lists have no string keys; it must be a property of the collection
+        return False
     if getattr(instance, "__getitem__", False):
         return True
     return False
-- 
2.43.0


From 222b108bf415e008fabef82d6716ca2d0c8952a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 21/79] fix: several threads can be the first to marshal a type
 out

---
 normalize/record/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 2d89f0a..16c6be9 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -176,11 +176,13 @@ def _json_data(x, extraneous):
             return x.json_data()
     else:
         htj = hasattr(x, "json_data") and callable(x.json_data)
-        has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
             tjte = 'extraneous' in argspec.args or argspec.kwonlyargs
             json_data_takes_extraneous[type(x)] = tjte
+        # set this last; other threads might check it at any time
+        has_json_data[type(x)] = htj
+        if htj:
             if tjte:
                 return x.json_data(extraneous=extraneous)
             else:
-- 
2.43.0


From e197b2c97cd22b2f676b2e4222cae2def5b0981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 22/79] fix: AutoJsonRecord keeps nested and mixed data, and
 supports attribute assignment and deletion

---
 normalize/record/json.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 16c6be9..8d2a35e 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -529,7 +529,7 @@ class AutoJsonRecord(JsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(AutoJsonRecord)(thing)
         else:
             return thing
@@ -581,26 +581,31 @@ class AutoJsonRecord(JsonRecord):
                 for k, v in self.unknown_json_keys.items():
                     k = type(self).convert_json_key_out(k)
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def __getattr__(self, attr):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
-        else:
+        try:
             return self.unknown_json_keys[attr]
+        except KeyError:
+            raise AttributeError(attr)
 
     def __setattr__(self, attr, value):
         if attr in type(self).properties:
-            return type(self).properties[attr].__set__(self)
+            super(AutoJsonRecord, self).__setattr__(attr, value)
         else:
-            self.unknown_json_keys[attr]
+            self.unknown_json_keys[attr] = value
 
-    def __delattr__(self, attr, value):
+    def __delattr__(self, attr):
         if attr in type(self).properties:
-            return type(self).properties[attr].__del__(self)
+            super(AutoJsonRecord, self).__delattr__(attr)
         else:
-            del self.unknown_json_keys[attr]
+            try:
+                del self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError(attr)
 
 
 class NCAutoJsonRecord(AutoJsonRecord):
@@ -620,7 +625,7 @@ class NCAutoJsonRecord(AutoJsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(NCAutoJsonRecord)(thing)
         else:
             return thing
-- 
2.43.0


From 9912b30ac4124a56cfe4cc1153082d3f0c788c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 23/79] fix: from_json honors the JSON names of records nested
 in plain records and collections

---
 normalize/record/json.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 8d2a35e..8b6f091 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -43,7 +43,19 @@ def _json_to_value_initializer(json_val, proptype):
             return json_val
         elif hasattr(proptype, "from_json"):
             return proptype.from_json(json_val)
-        elif isinstance(proptype, Record) and isinstance(json_val, dict):
+        elif isinstance(proptype, type) and issubclass(proptype, Collection):
+            item_type = proptype.itemtype
+            if isinstance(item_type, type) and issubclass(item_type, Record) \
+                    and isinstance(json_val, (dict, list)):
+                return proptype.tuples_to_coll(
+                    (
+                        (k, _json_to_value_initializer(v, item_type)) for
+                        k, v in proptype.coll_to_tuples(json_val)
+                    ),
+                    coerce=False,
+                )
+        elif isinstance(proptype, type) and issubclass(proptype, Record) and \
+                isinstance(json_val, dict):
             return from_json(proptype, json_val)
 
     return json_val
-- 
2.43.0


From d6a8a24dc974ba0015ae7eb7c750e49f7a584b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 24/79] fix: properties with several options can be composed

The type mixed in is the one found to be the best, not whichever was looked
at last, which made most combinations of options fail to declare (or depend
on which were declared before).
---
 normalize/property/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index bd283e2..64bf7d2 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -198,7 +198,7 @@ def create_property_type_from_traits(trait_set):
 
             if mix_in:
                 base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[other]
+                other_type = PROPERTY_TYPES[mix_in]
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-- 
2.43.0


From 4e0fac2492c4cbe8055402fa6c80a51b6ebe6b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 25/79] fix: placeholders know inherited subscript and call
 support, and refuse slices of types without it

---
 normalize/empty.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index c631ef7..4757ae3 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -32,6 +32,15 @@ def itertypes(iterable):
                 yield entry
 
 
+def implements(type_, method):
+    """Returns whether instances of the type support the special method, be it
+    defined by the type itself or inherited"""
+    for class_ in type_.__mro__:
+        if method in class_.__dict__:
+            return True
+    return False
+
+
 class EmptyVal(object):
     """Empty Value placeholder for a given tuple of types.  This object's
     ``__nonzero__`` always returns ``False``, and it knows how to infer types
@@ -64,7 +73,7 @@ class EmptyVal(object):
             for type_ in self._typetuple:
                 prop = getattr(type_, attr_name, None)
                 if prop is None:
-                    if '__getattr__' in type_.__dict__:
+                    if implements(type_, '__getattr__'):
                         attrs_found.append(None)
                 else:
                     attrs_found.append(prop)
@@ -98,22 +107,20 @@ class EmptyVal(object):
         if self._typetuple is any:
             return self
         for type_ in self._typetuple:
-            if type_.__dict__.get("__call__", False):
+            if implements(type_, '__call__'):
                 return placeholder(any)
         raise self._exc('NotCallable')
 
     def __getitem__(self, item):
         if self._typetuple is any:
             return self
-        if isinstance(item, slice):
-            return self
-        elif self._member_type is None:
+        if self._member_type is None:
             coll_types = []
             for type_ in self._typetuple:
                 is_coll = issubclass(type_, normalize.coll.Collection)
                 if is_coll:
                     coll_types.append(type_.itemtype)
-                elif '__getitem__' in type_.__dict__:
+                elif implements(type_, '__getitem__'):
                     coll_types.append(any)
 
             if not coll_types:
@@ -122,7 +129,7 @@ class EmptyVal(object):
                 self._member_type = placeholder(tuple(itertypes(coll_types)))
             else:
                 self._member_type = placeholder(any)
-        return self._member_type
+        return self if isinstance(item, slice) else self._member_type
 
     def __bool__(self):
         return False
-- 
2.43.0


From b250e932485222e98181cf68a7d974f9399e60ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 26/79] fix: what a combination of property options means does
 not depend on earlier declarations

Property types are composed from the declared types only, in one step; read
only properties with a null value stay read only.
---
 normalize/property/__init__.py |  2 +-
 normalize/property/meta.py     | 80 +++++++++++-----------------------
 2 files changed, 26 insertions(+), 56 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index a716c11..796d486 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -422,7 +422,7 @@ class SafeProperty(Property):
         del obj.__dict__[self.name]
 
 
-class LazySafeProperty(SafeProperty, LazyProperty):
+class LazySafeProperty(LazyProperty, SafeProperty):
     def __get__(self, obj, type_=None):
         """This getter checks to see if the slot is already set in the object
         and if so, returns it."""
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 64bf7d2..a6031ad 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -142,9 +142,11 @@ def create_property_type_from_traits(trait_set):
     the composition order will be the same every time.
     """
     wanted_traits = set(trait_set)
+    # types made here before are not used, so that what is made does not
+    # depend on which combinations were asked for earlier.
     stock_types = dict(
         (k, v) for k, v in list(PROPERTY_TYPES.items()) if
-        set(k).issubset(wanted_traits)
+        set(k).issubset(wanted_traits) and '__composed__' not in v.__dict__
     )
 
     traits_available = set()
@@ -158,62 +160,30 @@ def create_property_type_from_traits(trait_set):
             missing=repr(tuple(sorted(missing_traits))),
         )
 
-    made_types = []
-    # mix together property types, until we have made the right type.
-    while trait_set not in PROPERTY_TYPES:
-
-        # be somewhat deterministic: always start with types which provide the
-        # 'first' trait on the list
-        start_with = set(
-            k for k in list(stock_types.keys()) if k and k[0] == trait_set[0]
+    # mix together the most derived types; the assignment behavior of "ro" (or
+    # any other type which is not "safe") precedes that of "safe" types.
+    mix_in = list(
+        stock_types[k] for k in sorted(
+            stock_types, key=lambda k: ("safe" in k, k),
+        ) if not any(
+            v is not stock_types[k] and issubclass(v, stock_types[k]) for
+            v in stock_types.values()
         )
-
-        # prefer extending already composed trait sets, by only adding to the
-        # longest ones
-        longest = max(len(x) for x in start_with)
-        made_type = False
-
-        for base in sorted(start_with):
-            if len(base) != longest:
-                continue
-
-            # pick a type to join on which reduces the short-fall as much as
-            # possible.
-            shortfall = len(wanted_traits) - len(base)
-            mix_in = None
-            for other in sorted(stock_types.keys()):
-                # skip mixes that will fail; this means that the type on the
-                # list is a trait subset of 'base'
-                mixed_traits = tuple(sorted(set(base) | set(other)))
-                if mixed_traits in PROPERTY_TYPES:
-                    continue
-
-                this_shortfall = len(wanted_traits - (set(base) | set(other)))
-                if this_shortfall < shortfall:
-                    mix_in = other
-                    mixed_in_product = mixed_traits
-                    shortfall = this_shortfall
-                    if shortfall == 0:
-                        break
-
-            if mix_in:
-                base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[mix_in]
-                new_name = _merge_camel_case_names(
-                    base_type.__name__, other_type.__name__,
-                )
-                new_type = type(new_name, (base_type, other_type), {})
-                stock_types[mixed_in_product] = new_type
-                made_types.append(new_type)
-                made_type = True
-
-        if not made_type:
-            raise exc.PropertyTypeMixinFailure(
-                traitlist=repr(trait_set),
-                newtypelist=", ".join(
-                    "%r (%s)" % (x.traits, x.__name__) for x in made_types
-                )
+    )
+    new_name = mix_in[0].__name__
+    for other_type in mix_in[1:]:
+        new_name = _merge_camel_case_names(new_name, other_type.__name__)
+
+    try:
+        type(new_name, tuple(mix_in), {'__composed__': True})
+    except TypeError:
+        # no consistent method resolution order
+        raise exc.PropertyTypeMixinFailure(
+            traitlist=repr(trait_set),
+            newtypelist=", ".join(
+                "%r (%s)" % (x.traits, x.__name__) for x in mix_in
             )
+        )
 
 
 class MetaProperty(type):
-- 
2.43.0


From 3b4a9fb190a9b0eedf0c31f1cc824a3d9072ec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 27/79] fix: subtypes of subtypes of classes with a metaclass
 can be created

---
 normalize/subtype.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/normalize/subtype.py b/normalize/subtype.py
index e09240e..81776dc 100644
--- a/normalize/subtype.py
+++ b/normalize/subtype.py
@@ -45,9 +45,13 @@ class subtype(type):
         # for classes with a custom metaclass, we'll need to whip up a new
         # metaclass for them, then construct that.
         if not issubclass(typcls, type(of)):
-            typcls = type(
-                type(of).__name__ + typcls.__name__.capitalize(),
-                (typcls, type(of)), {})
+            if issubclass(type(of), typcls):
+                # a subtype of a subtype of such a class: it has one already
+                typcls = type(of)
+            else:
+                typcls = type(
+                    type(of).__name__ + typcls.__name__.capitalize(),
+                    (typcls, type(of)), {})
             return typcls(name, of, where, coerce)
 
         cls_a = []
-- 
2.43.0


From 6df7300383c3588cd42545a7c50dfc8f7a1d9662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 28/79] fix: read-only and v1_none collection properties behave
 as such when assigned to

---
 normalize/property/coll.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/normalize/property/coll.py b/normalize/property/coll.py
index 17ab598..711ec10 100644
--- a/normalize/property/coll.py
+++ b/normalize/property/coll.py
@@ -61,10 +61,10 @@ class CollectionProperty(Property):
 
 
 class SafeCollectionProperty(CollectionProperty, SafeProperty):
-    def __set__(self, obj, value):
-        super(SafeCollectionProperty, self).__set__(
-            obj, self.type_safe_value(value),
-        )
+    """A collection property which checks all assignments.  The check is
+    left to ``SafeProperty``, as types like ``ROProperty`` and ``V1Property``
+    that it is composed with decide what may be assigned before that.
+    """
 
 
 class ListProperty(CollectionProperty):
-- 
2.43.0


From ab88bc05b16fb26ff8879974488496feebda434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 29/79] fix: property types with default arguments can be
 derived from, named as traits and composed

---
 normalize/property/__init__.py |  7 ++++---
 normalize/property/meta.py     | 27 ++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 796d486..5f6484e 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -552,9 +552,10 @@ def make_property_type(name, base_type=Property,
         trait_name = "trait%d" % trait_num
 
     def __init__(self, **kwargs):
-        for arg, val in default_kwargs.items():
-            if arg not in kwargs:
-                kwargs[arg] = val
+        if '__composed__' not in type(self).__dict__:
+            for arg, val in default_kwargs.items():
+                if arg not in kwargs:
+                    kwargs[arg] = val
         return super(self_type[0], self).__init__(**kwargs)
 
     attrs['default_kwargs'] = default_kwargs
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index a6031ad..2f4cad4 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -54,6 +54,18 @@ def has(selfie, self, args, kwargs):
         raise exc.PositionalArgumentsProhibited()
     extra_traits = set(kwargs.pop('traits', tuple()))
 
+    if self is selfie:
+        # the types of the traits, including inherited ones, supply default
+        # arguments, too
+        named_traits = extra_traits.union(self.traits)
+        for traits in sorted(PROPERTY_TYPES, key=len, reverse=True):
+            if named_traits.issuperset(traits):
+                for arg, val in PROPERTY_TYPES[traits].__dict__.get(
+                    'default_kwargs', {}
+                ).items():
+                    if arg != 'traits':
+                        kwargs.setdefault(arg, val)
+
     safe_unless_ro = self.__safe_unless_ro__ or any(
         x in kwargs for x in ("required", "isa", "check")
     )
@@ -174,8 +186,21 @@ def create_property_type_from_traits(trait_set):
     for other_type in mix_in[1:]:
         new_name = _merge_camel_case_names(new_name, other_type.__name__)
 
+    def __init__(self, **kwargs):
+        # default arguments are for all of the types, not just those which
+        # happen to come after the one that supplies them.
+        for proptype in new_type.__mro__:
+            for arg, val in proptype.__dict__.get(
+                'default_kwargs', {}
+            ).items():
+                kwargs.setdefault(arg, val)
+        super(new_type, self).__init__(**kwargs)
+
     try:
-        type(new_name, tuple(mix_in), {'__composed__': True})
+        new_type = type(
+            new_name, tuple(mix_in),
+            {'__composed__': True, '__init__': __init__},
+        )
     except TypeError:
         # no consistent method resolution order
         raise exc.PropertyTypeMixinFailure(
-- 
2.43.0


From 2fb8f20cbc03a34cb0a02eb8c25098b15783af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 30/79] fix: records with empty collections have an identity

The identity of a record with an empty list or dictionary in a typed slot
fell back to the (unhashable) collection itself, so that it could not be
hashed, printed with str(), or compared as an item of a collection.
---
 normalize/identity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 759fe23..16fac71 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -85,7 +85,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
-            val_pk = ()
+            val_pk = None
             set_elements = 0
             for value_type in value_type_list:
                 if issubclass(value_type, normalize.record.Record):
@@ -97,7 +97,8 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                         val_pk = pk
                         set_elements = pk_elements
 
-            val_pk = val_pk or val
+            if val_pk is None:
+                val_pk = val
             try:
                 val_pk.__hash__()
             except TypeError:
-- 
2.43.0


From 8a0b8f3f81195c2316a28f279ef8d2f8ccbfaeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 31/79] fix: the identity of dictionary collections does not
 depend on insertion order

Equal records holding equal dictionaries which were filled in a different
order had different hashes.
---
 normalize/diff.py     |  9 +++++++--
 normalize/identity.py | 16 ++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index aa36428..2f6696f 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -530,14 +530,19 @@ def collection_generator(collection):
 
 
 def _nested_falsy(x):
-    if isinstance(x, tuple):
+    if isinstance(x, frozenset):
+        return any(_nested_falsy(y) for y, count in x)
+    elif isinstance(x, tuple):
         return not all(not _nested_falsy(y) for y in x)
     else:
         return x is _nothing or not x
 
 
 def _nested_empty(x):
-    if isinstance(x, tuple):
+    if isinstance(x, frozenset):
+        # unordered item identities; see normalize.identity
+        return all(_nested_empty(y) for y, count in x)
+    elif isinstance(x, tuple):
         return all(_nested_empty(y) for y in x)
     else:
         return x is _nothing or x is None or x == ''
diff --git a/normalize/identity.py b/normalize/identity.py
index 16fac71..f374968 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -14,6 +14,8 @@
 # http://github.com/hearsaycorp/normalize
 #
 
+import collections
+
 from builtins import str
 import normalize.coll
 import normalize.exc as exc
@@ -51,12 +53,11 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     if not pk_cols and issubclass(
         type_, normalize.coll.Collection
     ):
-        # FIXME: unordered collections will rarely match each other
         gen = (
             object_.itertuples() if hasattr(object_, "itertuples") else
             type_.coll_to_tuples(object_)
         )
-        return tuple(
+        item_ids = tuple(
             record_id(
                 v, type_.itemtype, selector[k], normalize_object_slot,
             ) for k, v in gen if selector[(k,)]
@@ -64,6 +65,17 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
             record_id(v, type_.itemtype, None, normalize_object_slot) for
             k, v in gen
         )
+        if len(item_ids) > 1 and issubclass(
+            type_, normalize.coll.DictCollection
+        ):
+            # the items of these have no order; the same ones must give the
+            # same result.
+            try:
+                item_ids = (frozenset(collections.Counter(item_ids).items()),)
+            except TypeError:
+                # there are unhashable values; the caller will find out.
+                pass
+        return item_ids
 
     if not pk_cols:
         all_properties = type_._sorted_properties
-- 
2.43.0


From dd0ff930045696cf8d50297bf293962e691a3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 32/79] fix: collections with items of different types can be
 compared

Items which correspond but differ in type are reported as modified, as it is
documented for the duck_type option and works for record slots, rather than
failing the whole comparison.
---
 normalize/diff.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 2f6696f..296bdda 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -592,6 +592,19 @@ def _fuzzy_match(set_a, set_b):
             break
 
 
+def _item_diff_iter(base, other, fs_a, fs_b, options):
+    """Compare two collection items which were decided to correspond; as with
+    record slots, there is no descent if they are not of the same type."""
+    if not options.duck_type and type(base) != type(other) and not (
+        base is _nothing or other is _nothing
+    ):
+        return iter((DiffInfo(
+            diff_type=DiffTypes.MODIFIED, base=fs_a, other=fs_b,
+        ),))
+    else:
+        return _diff_iter(base, other, fs_a, fs_b, options)
+
+
 # There's a lot of repetition in the following code.  It could be served by one
 # function instead of 3, which would be 3 times fewer places to have bugs, but
 # it would probably also be more than 3 times as difficult to debug.
@@ -681,8 +694,8 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         for key in shared_keys:
             if (isinstance(propval_a, collections.abc.Iterable) and
                isinstance(propval_b, collections.abc.Iterable)):
-                diffs = _diff_iter(propval_a[key], propval_b[key],
-                                   fs_a + [key], fs_b + [key], options)
+                diffs = _item_diff_iter(propval_a[key], propval_b[key],
+                                        fs_a + [key], fs_b + [key], options)
 
                 for diff in diffs:
                     yield diff
@@ -720,7 +733,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                         b_val = _nothing
                 selector_a = fs_a + a_key
                 selector_b = fs_b + b_key
-                for diff in _diff_iter(
+                for diff in _item_diff_iter(
                     a_val, b_val, selector_a, selector_b, options,
                 ):
                     yield diff
@@ -736,7 +749,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                     selector_a = fs_a + a_key
                     selector_b = fs_b + b_key
                     any_diffs = False
-                    for diff in _diff_iter(
+                    for diff in _item_diff_iter(
                         a_val, b_val, selector_a, selector_b, options,
                     ):
                         if diff.diff_type != DiffTypes.NO_CHANGE:
-- 
2.43.0


From 5c1e2bc72122dd2fe3211efcf545e89a7cd6bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 33/79] fix: json_in functions can return values of the
 property's type

A value which is already of the declared type was passed to the type's
from_json method, which refuses JSON records.
---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 8b6f091..6fa167b 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -39,7 +39,7 @@ from normalize.selector import FieldSelector
 
 def _json_to_value_initializer(json_val, proptype):
     if proptype:
-        if isinstance(proptype, JsonRecord):
+        if isinstance(json_val, proptype):
             return json_val
         elif hasattr(proptype, "from_json"):
             return proptype.from_json(json_val)
-- 
2.43.0


From d4d66d136e3a19786ed520d1e58d2386792df07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 34/79] fix: JSON conversion errors tell the member of plain
 collections, too

---
 normalize/record/json.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 6fa167b..ef2c26e 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -37,6 +37,14 @@ from normalize.record import Record
 from normalize.selector import FieldSelector
 
 
+def _json_items(item_type, tuples):
+    for k, v in tuples:
+        try:
+            yield k, _json_to_value_initializer(v, item_type)
+        except Exception as e:
+            raise _box_ingress_error(k, e)
+
+
 def _json_to_value_initializer(json_val, proptype):
     if proptype:
         if isinstance(json_val, proptype):
@@ -48,10 +56,7 @@ def _json_to_value_initializer(json_val, proptype):
             if isinstance(item_type, type) and issubclass(item_type, Record) \
                     and isinstance(json_val, (dict, list)):
                 return proptype.tuples_to_coll(
-                    (
-                        (k, _json_to_value_initializer(v, item_type)) for
-                        k, v in proptype.coll_to_tuples(json_val)
-                    ),
+                    _json_items(item_type, proptype.coll_to_tuples(json_val)),
                     coerce=False,
                 )
         elif isinstance(proptype, type) and issubclass(proptype, Record) and \
-- 
2.43.0


From a9361aa62239e65c0a8f35892f2c8aa22966518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 35/79] fix: several properties can be read from the same JSON
 key

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index ef2c26e..2dfba31 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -116,10 +116,10 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                             )
                         except Exception as e:
                             raise _box_ingress_error(json_name, e)
-                    unknown_keys.remove(json_name)
+                    unknown_keys.discard(json_name)
         elif prop.name in json_struct:
             json_val = json_struct[prop.name]
-            unknown_keys.remove(prop.name)
+            unknown_keys.discard(prop.name)
             if prop.name not in kwargs:
                 proptype = prop.valuetype
                 try:
-- 
2.43.0


From f978c33fa314af277e16324d1479f2cac083372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:22 +0000
Subject: [PATCH 36/79] fix: to_json merges unknown JSON keys back in

As documented for JsonRecord, the unknown keys are included by to_json, too,
not only by the json_data method.
---
 normalize/record/json.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 2dfba31..cc736f7 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -260,6 +260,8 @@ def to_json(record, extraneous=True, prop=None):
                     rv_dict[json_name] = to_json(record, extraneous, prop)
                 except AttributeError:
                     pass
+        if isinstance(record, JsonRecord):
+            record.merge_unknown_json_keys(rv_dict, extraneous)
         return rv_dict
 
     elif isinstance(record, int):
@@ -345,14 +347,17 @@ class JsonRecord(Record):
         2. the ``unknown_json_keys`` property on this class is replaced by one
            not marked as ``extraneous``
         """
-        jd = to_json(self, extraneous)
+        return to_json(self, extraneous)
+
+    def merge_unknown_json_keys(self, jd, extraneous):
+        """Adds the 'unknown' keys to the passed JSON data, as described in
+        :py:meth:`json_data`.  Called by :py:func:`to_json`."""
         if hasattr(self, "unknown_json_keys"):
             prop = type(self).properties['unknown_json_keys']
             if extraneous or not prop.extraneous:
                 for k, v in self.unknown_json_keys.items():
                     if k not in jd:
                         jd[k] = to_json(v, extraneous)
-        return jd
 
     def diff_iter(self, other, **kwargs):
         """Generator method which returns the differences from the invocant to
@@ -590,8 +595,7 @@ class AutoJsonRecord(JsonRecord):
             }
         return kwargs
 
-    def json_data(self, extraneous=False):
-        jd = to_json(self, extraneous)
+    def merge_unknown_json_keys(self, jd, extraneous):
         if hasattr(self, "unknown_json_keys"):
             prop = type(self).properties['unknown_json_keys']
             if extraneous or not prop.extraneous:
@@ -599,7 +603,6 @@ class AutoJsonRecord(JsonRecord):
                     k = type(self).convert_json_key_out(k)
                     if k not in jd:
                         jd[k] = _json_data(v, extraneous)
-        return jd
 
     def __getattr__(self, attr):
         if attr in type(self).properties:
-- 
2.43.0


From e779acfd2bdfdb971023fd870dfd4ad8913a25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 37/79] fix: from_json reads plain collections, alone or inside
 JSON collections

---
 normalize/record/json.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index cc736f7..5224c74 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -167,6 +167,10 @@ def from_json(record_type, json_struct):
     if issubclass(record_type, JsonRecord):
         return record_type(json_struct)
 
+    elif issubclass(record_type, Collection):
+        value = _json_to_value_initializer(json_struct, record_type)
+        return value if isinstance(value, record_type) else record_type(value)
+
     elif issubclass(record_type, Record):
         # do what the default JsonRecord __init__ does
         init_kwargs = json_to_initkwargs(record_type, json_struct)
-- 
2.43.0


From 552d2be8f318c55b130d665a3817c6fef87ccf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 38/79] fix: wildcards in field selectors apply to the items of
 dictionaries

---
 normalize/selector.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 0c29e97..253d5a7 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -43,6 +43,13 @@ def _try_index(instance, selector):
     return False
 
 
+def _all_items(record):
+    # iterating over dictionaries yields their keys
+    if isinstance(record, (dict, DictCollection)):
+        return list(record.values())
+    return record
+
+
 @functools.total_ordering
 class FieldSelector(object):
     """
@@ -147,7 +154,7 @@ class FieldSelector(object):
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 rv = []
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     val = None
                     try:
                         val = sub_field_selector.get(r)
@@ -218,7 +225,7 @@ class FieldSelector(object):
             selector = self.selectors[0]
             sub_selector = type(self)(self.selectors[1:])
             if selector is None:
-                for x in record:
+                for x in _all_items(record):
                     sub_selector.put(x, value)
             else:
                 if _try_index(record, selector):
@@ -259,7 +266,8 @@ class FieldSelector(object):
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 return sum(
-                    sub_field_selector.post(r, value) for r in record
+                    sub_field_selector.post(r, value)
+                    for r in _all_items(record)
                 )
 
             # supports the case where an item is created by setting
@@ -340,7 +348,7 @@ class FieldSelector(object):
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     try:
                         sub_field_selector.delete(r)
                         all_exc = False
-- 
2.43.0


From a618512589c895dd018ca148f404b185a124602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 39/79] fix: FieldSelector.post reports places it cannot create
 as selector errors

---
 normalize/selector.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 253d5a7..1c7cdfe 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -286,7 +286,7 @@ class FieldSelector(object):
                 try:
                     record = record[selector]
                 except IndexError:
-                    if isinstance(selector, int):
+                    if isinstance(record, ListCollection):
                         if len(record) != selector:
                             raise ValueError(
                                 "FieldSelector set out of order: "
@@ -298,9 +298,11 @@ class FieldSelector(object):
                         if kwarg:
                             put_final = True
                     else:
-                        raise
+                        raise FieldSelectorKeyError(key=selector)
                     record = record[selector]
                 except KeyError:
+                    if not isinstance(record, DictCollection):
+                        raise FieldSelectorKeyError(key=selector)
                     itemtype = type(record).itemtype
                     kwarg = kwarg_for(itemtype)
                     record[selector] = itemtype(**kwarg)
@@ -309,7 +311,9 @@ class FieldSelector(object):
                     record = record[selector]
             else:
                 if not hasattr(record, selector):
-                    prop = type(record).properties[selector]
+                    prop = getattr(type(record), "properties", {}).get(selector)
+                    if not prop:
+                        raise FieldSelectorAttributeError(name=selector)
                     if not prop.valuetype:
                         raise FieldSelectorException(
                             "Must specify default= or isa= to auto-vivify "
-- 
2.43.0


From c987c2a610534b6823b1f4f5e574bdb99baef2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 40/79] fix: FieldSelector.post adds the next item of a list

---
 normalize/selector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 1c7cdfe..b733750 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -326,7 +326,13 @@ class FieldSelector(object):
                 record = getattr(record, selector)
             i = i + 1
         if not put_final:
-            type(self)([self.selectors[-1]]).put(record, value)
+            last = self.selectors[-1]
+            if isinstance(last, int) and \
+                    isinstance(record, (list, ListCollection)) and \
+                    last == len(record):
+                record.append(value)
+            else:
+                type(self)([last]).put(record, value)
         return 1
 
     def delete(self, record):
-- 
2.43.0


From ff13fbc672d91a189be243effedb7f9790793a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 41/79] fix: MultiFieldSelector.get skips list items which do
 not exist

---
 normalize/selector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index b733750..bda0312 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -851,6 +851,7 @@ class MultiFieldSelector(object):
                 vals = list(
                     self._get(obj[head], tail) for head, tail in
                     sorted(self.heads.items())
+                    if -len(obj) <= head < len(obj)
                 )
 
             if isinstance(obj, ListCollection):
-- 
2.43.0


From fb076cf58c0e437b2839ce1b4d927338a25bfa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 42/79] fix: MultiFieldSelector.get keeps selected properties
 set to None

---
 normalize/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index bda0312..c57100b 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -882,7 +882,9 @@ class MultiFieldSelector(object):
                 kwargs = dict()
                 for head, tail in self.heads.items():
                     val = getattr(obj, head, None)
-                    if val is not None:
+                    if val is not None or (
+                        tail is all and head in getattr(obj, "__dict__", ())
+                    ):
                         kwargs[head] = self._get(val, tail)
                 return ctor(**kwargs)
 
-- 
2.43.0


From cc345ca5c0ffdc441ffee18c9a8c126c184bd2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 43/79] fix: compare unhashable items of lists and dictionaries
 by value, not by their text

---
 normalize/diff.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 296bdda..a391313 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -807,6 +807,28 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                 )
 
 
+def _hashable(value):
+    """Returns something hashable, which is equal for equal values, for the
+    items of 'simple' lists and dicts"""
+    try:
+        hash(value)
+    except TypeError:
+        if isinstance(value, dict):
+            return (dict, frozenset(
+                (k, _hashable(v)) for k, v in value.items()
+            ))
+        elif isinstance(value, (list, tuple)):
+            return (
+                list if isinstance(value, list) else tuple,
+                tuple(_hashable(v) for v in value),
+            )
+        elif isinstance(value, (set, frozenset)):
+            return (set, frozenset(value))
+        else:
+            return repr(value)
+    return value
+
+
 def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                       options=None):
     """Generator for comparing 'simple' lists when they are encountered.  This
@@ -830,8 +852,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = i
@@ -915,8 +936,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = k
-- 
2.43.0


From f3ad38be4d3900c1e4f5101be253d18c22f17363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 44/79] fix: compare the selected fields of selected collection
 items

---
 normalize/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index a391313..e22cb24 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -669,7 +669,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
         for k, v in collection_generator(propval_x):
             if callable(id_args):
-                if fs_a + [k] not in options.compare_filter:
+                if not options.compare_filter[fs_a + [k]]:
                     continue
             pk = options.record_id(
                 v, **(id_args(k) if callable(id_args) else id_args))
-- 
2.43.0


From 2ae26a9da56cc47dc6e771db92d62ebd0d76bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 45/79] fix: comparison filters apply to the items of lists and
 dictionaries

---
 normalize/diff.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/normalize/diff.py b/normalize/diff.py
index e22cb24..c50860b 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -354,6 +354,9 @@ class DiffOptions(object):
             return True
         return self.compare_filter and not self.compare_filter[fs]
 
+    def is_item_filtered(self, fs, key):
+        return self.compare_filter and not self.compare_filter[fs + [key]]
+
 
 def compare_record_iter(a, b, fs_a=None, fs_b=None, options=None):
     """This generator function compares a record, slot by slot, and yields
@@ -849,6 +852,8 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = indices[x] = dict()
         seen = collections.Counter()
         for i, v in collection_generator(propval_x):
+            if options.is_item_filtered(fs_a, i):
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
@@ -933,6 +938,8 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = rev_keys[x] = dict()
         seen = collections.Counter()
         for k, v in collection_generator(propval_x):
+            if options.is_item_filtered(fs_a, k):
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-- 
2.43.0


From 98b3e74657b69bb1489cb1d4b1ef3cc5ee2247be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 46/79] fix: text clean-ups apply to the items of collections
 inside collection items

---
 normalize/diff.py     | 13 ++++++++++++-
 normalize/identity.py | 20 +++++++++++++-------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index c50860b..beb65e6 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -327,9 +327,20 @@ class DiffOptions(object):
         """Retrieve an object identifier from the given record; if it is an
         alien class, and the type is provided, then use duck typing to get the
         corresponding fields of the alien class."""
-        pk = record_id(record, type_, selector, self.normalize_object_slot)
+        pk = record_id(
+            record, type_, selector, self.normalize_object_slot,
+            self._normalized_items,
+        )
         return pk
 
+    def _normalized_items(self, coll, items):
+        """Cleans up the items of 'simple' collections which are a part of an
+        object identifier, as when comparing them."""
+        for k, v in items:
+            v = self.normalize_item(v, coll, k)
+            if v is not _nothing or not self.ignore_empty_slots:
+                yield k, v
+
     def id_args(self, type_, fs):  # XXX deprecated
         options = dict()
         if self.duck_type:
diff --git a/normalize/identity.py b/normalize/identity.py
index f374968..93b9351 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -22,7 +22,8 @@ import normalize.exc as exc
 import normalize.record
 
 
-def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
+def record_id(object_, type_=None, selector=None, normalize_object_slot=None,
+              normalize_items=None):
     """Implementation of id() which is overridable and knows about record's
     primary_key property.  Returns if the two objects may be the "same";
     returns None for other types, meaning all bets about identity are off.
@@ -57,13 +58,18 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
             object_.itertuples() if hasattr(object_, "itertuples") else
             type_.coll_to_tuples(object_)
         )
+        if selector:
+            gen = ((k, v) for k, v in gen if selector[(k,)])
+        if normalize_items and not (
+            isinstance(type_.itemtype, type) and
+            issubclass(type_.itemtype, normalize.record.Record)
+        ):
+            gen = normalize_items(object_, gen)
         item_ids = tuple(
             record_id(
-                v, type_.itemtype, selector[k], normalize_object_slot,
-            ) for k, v in gen if selector[(k,)]
-        ) if selector else tuple(
-            record_id(v, type_.itemtype, None, normalize_object_slot) for
-            k, v in gen
+                v, type_.itemtype, selector[k] if selector else None,
+                normalize_object_slot, normalize_items,
+            ) for k, v in gen
         )
         if len(item_ids) > 1 and issubclass(
             type_, normalize.coll.DictCollection
@@ -103,7 +109,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 if issubclass(value_type, normalize.record.Record):
                     pk = record_id(val, value_type,
                                    selector[prop.name] if selector else None,
-                                   normalize_object_slot)
+                                   normalize_object_slot, normalize_items)
                     pk_elements = len([x for x in pk if x is not None])
                     if not val_pk or pk_elements > set_elements:
                         val_pk = pk
-- 
2.43.0


From cc01ca27bd88b2b1fd5b309db012cddac7db158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 47/79] fix: comparison clean-up functions in collection items

---
 normalize/diff.py     | 10 +++++++++-
 normalize/identity.py |  8 ++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index beb65e6..38c0705 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -328,11 +328,19 @@ class DiffOptions(object):
         alien class, and the type is provided, then use duck typing to get the
         corresponding fields of the alien class."""
         pk = record_id(
-            record, type_, selector, self.normalize_object_slot,
+            record, type_, selector, self._normalize_id_slot,
             self._normalized_items,
         )
         return pk
 
+    def _normalize_id_slot(self, value, prop, obj):
+        """Cleans up a slot which is a part of an object identifier; slots
+        which are not set are ``None`` there, but there is no value for
+        ``compare_as`` to clean up."""
+        if value is None and not hasattr(obj, prop.name):
+            return self.normalize_slot(value, prop)
+        return self.normalize_object_slot(value, prop, obj)
+
     def _normalized_items(self, coll, items):
         """Cleans up the items of 'simple' collections which are a part of an
         object identifier, as when comparing them."""
diff --git a/normalize/identity.py b/normalize/identity.py
index 93b9351..5889cc8 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -91,14 +91,10 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None,
             )
 
     for prop in pk_cols or all_properties:
-        val = getattr(object_, prop.name, None)
+        raw_val = val = getattr(object_, prop.name, None)
         if normalize_object_slot:
             val = normalize_object_slot(val, prop, object_)
-        _none = (
-            normalize_object_slot(None, prop, object_) if
-            normalize_object_slot else None
-        )
-        if val is not _none and prop.valuetype:
+        if raw_val is not None and val is not None and prop.valuetype:
             value_type_list = (
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
-- 
2.43.0


From fde65577b77871dd41847ca6efaa8aea0ad3a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 48/79] fix: approximate matching of items does not depend on
 hash order

---
 normalize/diff.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 38c0705..79f5324 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -761,7 +761,12 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                     yield diff
 
             if not force_descent and options.fuzzy_match:
-                for a_pk_seq, b_pk_seq in _fuzzy_match(removed, added):
+                # in the order of the collections; ties are not to be decided
+                # by the order of sets
+                for a_pk_seq, b_pk_seq in _fuzzy_match(
+                    [x for x in rev_keys['a'] if x in removed],
+                    [x for x in rev_keys['b'] if x in added],
+                ):
                     removed.remove(a_pk_seq)
                     added.remove(b_pk_seq)
                     a_key = rev_keys['a'][a_pk_seq]
-- 
2.43.0


From 1a19ddf0783a267f2477537b6c7d7ddf69fddd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 49/79] fix: comparing dictionaries does not depend on their
 insertion order

---
 normalize/diff.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 79f5324..e50df7d 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -551,6 +551,24 @@ def collection_generator(collection):
     return generator()
 
 
+def _paired_generator(collection, other):
+    """Like :py:func:`collection_generator`, for comparing with ``other``:
+    keys which both sides have come first, and the order does not depend on
+    the insertion order of dictionaries, as items which have the same identity
+    are paired in this order."""
+    items = list(collection_generator(collection))
+    keys = set(k for k, v in collection_generator(other))
+
+    def pairing_order(item):
+        key = item[0]
+        return (
+            key not in keys, type(key).__name__,
+            key if isinstance(key, (int, str)) else repr(key),
+        )
+
+    return iter(sorted(items, key=pairing_order))
+
+
 def _nested_falsy(x):
     if isinstance(x, frozenset):
         return any(_nested_falsy(y) for y, count in x)
@@ -689,7 +707,9 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
         seen = collections.Counter()
 
-        for k, v in collection_generator(propval_x):
+        for k, v in _paired_generator(
+            propval_x, propvals["b" if x == "a" else "a"],
+        ):
             if callable(id_args):
                 if not options.compare_filter[fs_a + [k]]:
                     continue
@@ -961,7 +981,9 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         vals = values[x] = set()
         rev_key = rev_keys[x] = dict()
         seen = collections.Counter()
-        for k, v in collection_generator(propval_x):
+        for k, v in _paired_generator(
+            propval_x, propvals["b" if x == "a" else "a"],
+        ):
             if options.is_item_filtered(fs_a, k):
                 continue
             v = options.normalize_item(
-- 
2.43.0


From 9758a48db3e212d336c9339f2ae35f152fa53c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 50/79] fix: values compared to a list or record when duck
 typing differ

---
 normalize/diff.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index e50df7d..4f03400 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -449,7 +449,11 @@ def compare_record_iter(a, b, fs_a=None, fs_b=None, options=None):
         prop_fs_b = fs_b + [propname]
 
         if comparable and (
-            types_match or options.duck_type or (
+            types_match or (
+                options.duck_type and (
+                    propval_a is _nothing or isinstance(propval_a, COMPARABLE)
+                )
+            ) or (
                 options.ignore_empty_slots and one_side_nothing
             )
         ):
-- 
2.43.0


From d9db67feb72c6b4766cc8a8737c02d366655e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 51/79] fix: visitors report values which are not collections

---
 normalize/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 2e42d87..87a477a 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -232,7 +232,7 @@ class VisitorPattern(object):
                 else:
                     raise exc.VisitorUnpackError(
                         passed=value,
-                        colltype=value_type.colltype.__name__,
+                        colltype=value_type.colltype,
                         context=visitor,
                     )
         else:
-- 
2.43.0


From 7b491bc1072a0592edc47f82b7be413c77800dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 52/79] fix: visitors do not descend into empty slots and null
 values

---
 normalize/visitor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 87a477a..df0b880 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -696,7 +696,13 @@ class VisitorPattern(object):
         # those who don't declare their isa= for complex object types.
         value_type = prop.valuetype or type(value)
 
-        if isinstance(value_type, tuple):
+        null = getattr(prop, "v1_none", None)
+        if value is None or isinstance(value, (AttributeError, KeyError)) or (
+            type(value) is type(null) and value == null
+        ):
+            # there is nothing to descend into
+            mapped = visitor.apply(value, prop, visitor)
+        elif isinstance(value_type, tuple):
             mapped = cls.map_type_union(
                 visitor, value, value_type, prop,
             )
-- 
2.43.0


From 69e3416f0b0c6e1b3371244dfe685787f5811ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 53/79] fix: visit filters apply to the items of collections

---
 normalize/visitor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index df0b880..1c14f82 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -90,6 +90,13 @@ class Visitor(object):
             self.visit_filter and not self.visit_filter[self.cue + [prop.name]]
         )
 
+    def is_item_filtered(self, key, coll_type):
+        # when reflecting, the key is the item type, not the key of an item.
+        return (
+            self.visit_filter and key is not coll_type.itemtype and
+            not self.visit_filter[self.cue + [key]]
+        )
+
     @property
     def field_selector(self):
         return FieldSelector(self.cue)
@@ -678,6 +685,8 @@ class VisitorPattern(object):
     def map_collection(cls, visitor, coll_generator, coll_type):
         rv = visitor.copy()
         for key, value in coll_generator:
+            if rv.is_item_filtered(key, coll_type):
+                continue
             rv.push(key)
             mapped = cls.map(rv, value, coll_type.itemtype)
             rv.pop(key)
-- 
2.43.0


From 16ee39687791975c10de378a3c24ce19a9ad0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 54/79] fix: casting to a union tries its other types when the
 value is not a record

The grok hook protests about values it cannot unpack, as map_type_union
expects, with a TypeError.
---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index c48ad0b..a32b6e1 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -479,7 +479,7 @@ class VisitorPropError(VisitorException):
     )
 
 
-class VisitorGrokRecordError(VisitorException):
+class VisitorGrokRecordError(VisitorException, TypeError):
     message = (
         u"{val} found where I'm expecting to unpack a "
         u"{record_type_name} record at {field_selector}"
-- 
2.43.0


From cbc6984e6d7ab899b651f23f387ea0b98b380a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 55/79] fix: casting makes records of which no property is
 selected

Only collections reduce to something other than a dictionary when none of
their properties is visited.
---
 normalize/visitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 1c14f82..90326f0 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -414,9 +414,11 @@ class VisitorPattern(object):
         ``value_type`` is not appropriate for ``value``.
         """
         is_coll = issubclass(value_type, Collection)
-        is_record = issubclass(value_type, Record) and any(
-            not visitor.is_filtered(prop) for prop in
-            list(value_type.properties.values())
+        is_record = issubclass(value_type, Record) and (
+            not is_coll or any(
+                not visitor.is_filtered(prop) for prop in
+                list(value_type.properties.values())
+            )
         )
 
         if is_record and not isinstance(value, cls.grok_mapping_types):
-- 
2.43.0


From c4120042e2f2afd3417444e885411e62d1299f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 56/79] fix: subscripting a MultiFieldSelector which starts
 with a wildcard

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index c57100b..f3098ec 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -756,7 +756,7 @@ class MultiFieldSelector(object):
                 return self  # XXX wat
 
         tail = (
-            self.heads[None] if self.complete else
+            self.heads[None] if self.has_none else
             self.heads.get(index, None)
         )
         return type(self).complete_mfs() if tail == all else tail
-- 
2.43.0


From c082180d6810f10eeb66bc8cbb4139c290f8bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 57/79] fix: threads which need the same generic collection
 type get the same one

---
 normalize/coll.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 944f43d..b4972ef 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -490,18 +490,19 @@ def _make_generic(of, coll):
 
     assert(issubclass(coll, Collection))
     key = (coll.__name__, "%s.%s" % (of.__module__, of.__name__))
-    if key in GENERIC_TYPES:
-        if GENERIC_TYPES[key].itemtype != of:
-            raise exc.PropertyNotUnique(key=key)
-    else:
+    if key not in GENERIC_TYPES:
         # oh, we get to name it?  Goodie!
         generic_name = "%s%s" % (of.__name__, coll.suffix)
-        GENERIC_TYPES[key] = type(
+        generic_type = type(
             generic_name, (coll, _Generic), dict(itemtype=of, generic_key=key)
         )
+        # another thread might have made one meanwhile; there can be only one
+        generic_type = GENERIC_TYPES.setdefault(key, generic_type)
         mod = sys.modules[of.__module__]
         if not hasattr(mod, generic_name):
-            setattr(mod, generic_name, GENERIC_TYPES[key])
+            setattr(mod, generic_name, generic_type)
+    if GENERIC_TYPES[key].itemtype != of:
+        raise exc.PropertyNotUnique(key=key)
     return GENERIC_TYPES[key]
 
 
-- 
2.43.0


From 8b77d1af28cdb1913b98aaf7dd0627577d908f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 58/79] fix: threads can compose the same property type at the
 same time

---
 normalize/property/meta.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 2f4cad4..38bf144 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -16,12 +16,17 @@
 
 from collections import defaultdict
 import inspect
+import threading
 
 import normalize.exc as exc
 
 
 PROPERTY_TYPES = dict()
 
+# held while the type for a combination of traits is made, so that threads
+# which need the same one do not both make it
+COMPOSING = threading.RLock()
+
 # Duck typing kwargs... for picking the right Property sub-class to instantiate
 # based on the kwargs used in the Property() constructor
 DUCKWARGS = defaultdict(set)
@@ -113,8 +118,9 @@ def has(selfie, self, args, kwargs):
 
     trait_set_key = tuple(sorted(all_traits))
 
-    if trait_set_key not in PROPERTY_TYPES:
-        create_property_type_from_traits(trait_set_key)
+    with COMPOSING:
+        if trait_set_key not in PROPERTY_TYPES:
+            create_property_type_from_traits(trait_set_key)
     property_type = PROPERTY_TYPES[trait_set_key]
     if not isinstance(property_type, type(self)):
         raise exc.PropertyTypeMismatch(
-- 
2.43.0


From 2ab4afa50539e04e731044ba8b372f832148100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 59/79] fix: field selectors which are equal have equal hashes

---
 normalize/selector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index f3098ec..b814341 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -406,7 +406,8 @@ class FieldSelector(object):
         return self.selectors == other.selectors
 
     def __hash__(self):
-        return super(FieldSelector, self).__hash__()
+        """Implemented; field selectors which compare equal hash the same."""
+        return hash((FieldSelector, tuple(self.selectors)))
 
     def __ne__(self, other):
         """
-- 
2.43.0


From f9089b6b95cc13352b5842bbe826146d70a5c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 60/79] fix: records can be compared when only one of them has
 a value which cannot be compared with anything else

---
 normalize/record/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/normalize/record/__init__.py b/normalize/record/__init__.py
index e317d9b..988f71c 100644
--- a/normalize/record/__init__.py
+++ b/normalize/record/__init__.py
@@ -125,9 +125,10 @@ class Record(metaclass=RecordMeta):
             return False
         for propname, prop in type(self).properties.items():
             if not prop.extraneous:
-                if getattr(self, propname, _Unset) != getattr(
-                    other, propname, _Unset
-                ):
+                mine = getattr(self, propname, _Unset)
+                theirs = getattr(other, propname, _Unset)
+                # never compare a value with _Unset; it might not support it
+                if (mine is _Unset) != (theirs is _Unset) or mine != theirs:
                     return False
         return True
 
-- 
2.43.0


From 7503a853e137ffcd52f5a76cd6dafe8739eba677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 61/79] fix: hooks can tell the place they are at while
 reflecting over collections

---
 normalize/visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 90326f0..fea0035 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -99,7 +99,10 @@ class Visitor(object):
 
     @property
     def field_selector(self):
-        return FieldSelector(self.cue)
+        return FieldSelector(
+            # item types, when reflecting, mean any item of the collection
+            None if isinstance(x, type) else x for x in self.cue
+        )
 
     def push(self, what):
         self.cue.append(what)
-- 
2.43.0


From 138bea3a1a83fd48bef32346f023e1c143b56ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 62/79] fix: json_data methods are passed extraneous only if
 they take it, not any keyword-only argument

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 5224c74..8e2601d 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -199,7 +199,7 @@ def _json_data(x, extraneous):
         htj = hasattr(x, "json_data") and callable(x.json_data)
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
-            tjte = 'extraneous' in argspec.args or argspec.kwonlyargs
+            tjte = 'extraneous' in argspec.args + argspec.kwonlyargs
             json_data_takes_extraneous[type(x)] = tjte
         # set this last; other threads might check it at any time
         has_json_data[type(x)] = htj
-- 
2.43.0


From d7b89c609fdfe93014ac2dc7f38c96246062acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 63/79] fix: unknown names in a primary key are refused with
 PropertiesNotKnown, not KeyError

---
 normalize/record/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 398ba4e..819d16d 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -69,7 +69,7 @@ class RecordMeta(type):
             if proplist:
                 for prop in proplist:
                     if isinstance(prop, str):
-                        prop = properties[prop]
+                        prop = properties.get(prop, prop)
                     if not isinstance(prop, Property) or (
                         prop not in all_properties
                     ):
-- 
2.43.0


From a27ff94022f3a133aa9df4845e2cf3bb0ae6bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 64/79] fix: dictionary collections refuse values which are no
 collections, instead of becoming empty

---
 normalize/coll.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index b4972ef..49a244a 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -238,6 +238,13 @@ class DictCollection(KeyedCollection):
                 else:
                     yield (i, v)
                 i += 1
+        elif not coll:
+            return
+        else:
+            raise exc.CollectionCoerceError(
+                passed=coll,
+                colltype=cls,
+            )
 
     def itertuples(self):
         return iter(self._values.items())
-- 
2.43.0


From 820ed57853f904eeda0026369b10faec3ef44e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 65/79] fix: items refused by a collection of several types are
 reported as such

---
 normalize/coll.py | 6 ++++++
 normalize/exc.py  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 49a244a..7d0ada6 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -143,6 +143,12 @@ class Collection(Record):
             except Exception as e:
                 raise exc.CollectionItemCoerceError(
                     itemtype=cls.itemtype,
+                    itemtype_name=(
+                        "(" + ", ".join(
+                            x.__name__ for x in cls.itemtype
+                        ) + ")" if isinstance(cls.itemtype, tuple) else
+                        cls.itemtype.__name__
+                    ),
                     colltype=cls,
                     passed=v,
                     exc=e,
diff --git a/normalize/exc.py b/normalize/exc.py
index a32b6e1..7318ac6 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -172,7 +172,7 @@ class CollectionCoerceError(CoercionError):
 
 class CollectionItemCoerceError(CoercionError):
     message = (
-        "coerce to {itemtype.__name__} for insertion to "
+        "coerce to {itemtype_name} for insertion to "
         "{colltype.__name__} failed for value {passed!r}: {exc}"
     )
 
-- 
2.43.0


From 1ca163bf6530fc1f62a14ad5e68d7b46dc9b7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 66/79] fix: FieldSelectorAttributeError.name is the name
 passed, not None

---
 normalize/exc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/exc.py b/normalize/exc.py
index 7318ac6..c7d6c4f 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -257,6 +257,11 @@ class EmptySignatureError(PropertyDefinitionError):
 class FieldSelectorAttributeError(FieldSelectorException, AttributeError):
     message = "Could not find property specified by name: {name}"
 
+    def __init__(self, *args, **kwargs):
+        super(FieldSelectorAttributeError, self).__init__(*args, **kwargs)
+        # AttributeError has a 'name', too, which would hide the one passed
+        self.name = self.kwargs['name']
+
 
 class FieldSelectorKeyError(FieldSelectorException, KeyError):
     message = "Could not find Record specified by index: {key}"
-- 
2.43.0


From 3272050123d7377e4b7336fc58aea65a0b39559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 67/79] fix: selectors which cannot be assigned to say why,
 instead of (uncustomized exception!)

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index c7d6c4f..e1dbc19 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -92,7 +92,7 @@ class FeatureNotImplementedException(StringFormatException):
 
 
 class FieldSelectorException(StringFormatException):
-    pass
+    message = "{0}"
 
 
 class PropertyDefinitionError(StringFormatException):
-- 
2.43.0


From 31aec24c969467273ceac7d1f7fdcf7b4e493fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 68/79] fix: values which can't be compared with text can be
 visited

---
 normalize/visitor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index fea0035..3f259f1 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -680,7 +680,8 @@ class VisitorPattern(object):
                 mapped = cls.map_prop(rv, value, prop)
                 if mapped is None and rv.ignore_none:
                     pass
-                elif mapped == "" and rv.ignore_empty_string:
+                elif isinstance(mapped, str) and not mapped and (
+                    rv.ignore_empty_string):
                     pass
                 else:
                     yield prop, mapped
@@ -697,7 +698,8 @@ class VisitorPattern(object):
             rv.pop(key)
             if mapped is None and visitor.ignore_none:
                 pass
-            elif mapped == "" and visitor.ignore_empty_string:
+            elif isinstance(mapped, str) and not mapped and (
+                    visitor.ignore_empty_string):
                 pass
             else:
                 yield key, mapped
-- 
2.43.0


From 847225e3c481132b1580380ad0a2299cfad1fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:56 +0000
Subject: [PATCH 69/79] fix: the JSON form of a difference doesn't share its
 selectors' lists

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 8e2601d..cebc888 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -534,8 +534,8 @@ class JsonDiffInfo(DiffInfo, JsonRecord):
     def json_data(self):
         return dict(
             diff_type=self.diff_type.canonical_name,
-            base=self.base.selectors,
-            other=self.other.selectors,
+            base=list(self.base.selectors),
+            other=list(self.other.selectors),
         )
 
 
-- 
2.43.0


From dbb1dc9c488f6de7d070cd57abd79fd5172f0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 70/79] fix: a report read from JSON can be shown as text

---
 normalize/diff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 4f03400..aefe825 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -1123,10 +1123,12 @@ class Diff(ListCollection):
     itemtype = DiffInfo
 
     def __str__(self):
+        # the names are not part of the JSON form; "?" stands for unknown ones
+        base_type_name = getattr(self, "base_type_name", "?")
+        other_type_name = getattr(self, "other_type_name", "?")
         what = (
-            "%s vs %s" % (self.base_type_name, self.other_type_name) if
-            self.base_type_name != self.other_type_name else
-            self.base_type_name
+            "%s vs %s" % (base_type_name, other_type_name) if
+            base_type_name != other_type_name else base_type_name
         )
         diffstate = collections.defaultdict(list)
         for diff in self:
-- 
2.43.0


From 0a240991cfb9cd5253f128f868e8f60b2e78c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 71/79] fix: collections don't raise when compared with a plain
 list or dict which can't be one

---
 normalize/coll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 7d0ada6..9b86ad6 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -119,7 +119,10 @@ class Collection(Record):
         # coerce collections derived from simple python collection types
         if not isinstance(other, type(self)) and \
                 isinstance(other, self.colltype):
-            other = type(self)(other)
+            try:
+                other = type(self)(other)
+            except exc.NormalizeError:
+                return False
         return self.itemtype == getattr(other, "itemtype", None) and \
             self._values == getattr(other, "_values", None)
 
-- 
2.43.0


From 5ed001bfd00296be743e5573982c05739c92da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:00 +0000
Subject: [PATCH 72/79] fix: ignore_empty_items with keys which can't be
 compared with text

---
 normalize/diff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index aefe825..7ecfbe3 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -589,7 +589,8 @@ def _nested_empty(x):
     elif isinstance(x, tuple):
         return all(_nested_empty(y) for y in x)
     else:
-        return x is _nothing or x is None or x == ''
+        return x is _nothing or x is None or (
+            isinstance(x, str) and not x)
 
 
 def _fuzzy_match(set_a, set_b):
-- 
2.43.0


From 2a13786ee7dd625410c34361ba748ffb75758077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:01 +0000
Subject: [PATCH 73/79] fix: scalars in slots which may also be records, and
 values given by compare_as, are identified by their value

---
 normalize/identity.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/normalize/identity.py b/normalize/identity.py
index 5889cc8..446efda 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -15,6 +15,7 @@
 #
 
 import collections
+import collections.abc
 
 from builtins import str
 import normalize.coll
@@ -99,6 +100,19 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None,
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
+            if len(value_type_list) > 1:
+                # unless it merely resembles one of them, don't mistake it
+                # for a type which it is not
+                value_type_list = tuple(
+                    x for x in value_type_list if isinstance(val, x)
+                ) or value_type_list
+            if val is not raw_val and not (
+                isinstance(val, collections.abc.Iterable) and
+                not isinstance(val, str) and
+                issubclass(value_type_list[0], normalize.coll.Collection)
+            ):
+                # it was cleaned up, and may not be of the declared type
+                value_type_list = (type(val),)
             val_pk = None
             set_elements = 0
             for value_type in value_type_list:
-- 
2.43.0


From 2b66d1ed67d3c5d7bc3a94ef12baba2ff3bc8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 74/79] fix: number the items of a list which is given as a
 mapping

---
 normalize/coll.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 9b86ad6..6ea5730 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -335,8 +335,7 @@ class ListCollection(KeyedCollection):
                 colltype=cls,
             )
         if isinstance(coll, collections.abc.Mapping):
-            i = 0
-            for k in sorted(coll.keys()):
+            for i, k in enumerate(sorted(coll.keys())):
                 yield (i, coll[k])
         elif isinstance(coll, (collections.abc.Sequence, types.GeneratorType)) or (
             hasattr(coll, "next") and callable(coll.next)
-- 
2.43.0


From 3ed5c131462121370642a4d9d7e8884d771a62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 75/79] fix: accessors don't take the place of properties and
 methods of the same name

---
 normalize/record/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 819d16d..71f21c4 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -80,7 +80,10 @@ class RecordMeta(type):
                     good_props.append(prop)
             return tuple(good_props)
 
-        attrs.update(aux_props)
+        for aux_name, aux_prop in aux_props.items():
+            # never instead of a property or method declared by that name
+            if aux_name not in attrs and aux_name not in properties:
+                attrs[aux_name] = aux_prop
         attrs['primary_key'] = coerce_prop_list('primary_key')
         attrs['properties'] = properties
         attrs['_sorted_properties'] = sorted(
-- 
2.43.0


From 0ec7f66bf7487e4d70cc1fb0cc840c6f9c384e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:28 +0000
Subject: [PATCH 76/79] fix: items of lists which are equal, as sets and frozen
 sets, do not differ

---
 normalize/diff.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 7ecfbe3..8303ce2 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -869,13 +869,14 @@ def _hashable(value):
             return (dict, frozenset(
                 (k, _hashable(v)) for k, v in value.items()
             ))
-        elif isinstance(value, (list, tuple)):
-            return (
-                list if isinstance(value, list) else tuple,
-                tuple(_hashable(v) for v in value),
-            )
-        elif isinstance(value, (set, frozenset)):
-            return (set, frozenset(value))
+        elif isinstance(value, tuple):
+            return tuple(_hashable(v) for v in value)
+        elif isinstance(value, list):
+            return (list, tuple(_hashable(v) for v in value))
+        elif isinstance(value, set):
+            return frozenset(value)
+        elif isinstance(value, bytearray):
+            return bytes(value)
         else:
             return repr(value)
     return value
-- 
2.43.0


From c1400758db0d9e71fdb64da1ad5270210d80422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 77/79] fix: give normalize_item the index or key of the item

---
 normalize/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 8303ce2..5563ec0 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -905,7 +905,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             if options.is_item_filtered(fs_a, i):
                 continue
             v = options.normalize_item(
-                v, propval_a if options.duck_type else propval_x
+                v, propval_a if options.duck_type else propval_x, i
             )
             v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
@@ -993,7 +993,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             if options.is_item_filtered(fs_a, k):
                 continue
             v = options.normalize_item(
-                v, propval_a if options.duck_type else propval_x
+                v, propval_a if options.duck_type else propval_x, k
             )
             v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
-- 
2.43.0


From 7ced22b50f0039827a313fd98d5e56e13e0e41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:05 +0000
Subject: [PATCH 78/79] fix: refuse another collection class of the same name
 instead of using the first

---
 normalize/coll.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 6ea5730..7840577 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -516,7 +516,9 @@ def _make_generic(of, coll):
         mod = sys.modules[of.__module__]
         if not hasattr(mod, generic_name):
             setattr(mod, generic_name, generic_type)
-    if GENERIC_TYPES[key].itemtype != of:
+    if GENERIC_TYPES[key].itemtype != of or (
+        coll not in GENERIC_TYPES[key].__bases__
+    ):
         raise exc.PropertyNotUnique(key=key)
     return GENERIC_TYPES[key]
 
-- 
2.43.0


From 7aaace8ab08bc4b0eee47e08a7e47b7ea75dc95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 79/79] fix: threads making property types at the same time
 never get the same trait number

---
 normalize/property/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 5f6484e..211fc95 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -27,6 +27,7 @@ documentation.
 from __future__ import absolute_import
 
 import inspect
+import itertools
 import warnings
 import weakref
 
@@ -494,7 +495,8 @@ class DiffasProperty(Property):
             )
 
 
-trait_num = 0
+# numbers for traits without a name; next() never gives two threads the same
+trait_nums = itertools.count(1)
 
 
 def make_property_type(name, base_type=Property,
@@ -547,9 +549,7 @@ def make_property_type(name, base_type=Property,
     bases = base_type if isinstance(base_type, tuple) else (base_type,)
     self_type = []
     if not trait_name:
-        global trait_num
-        trait_num += 1
-        trait_name = "trait%d" % trait_num
+        trait_name = "trait%d" % next(trait_nums)
 
     def __init__(self, **kwargs):
         if '__composed__' not in type(self).__dict__:
-- 
2.43.0

