From 318df2769c487a471e14e3e1d707c47cf8db1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:02 +0000
Subject: [PATCH 01/50] fix: fire_any/fire_all return False/True, as
 documented, when there are no listeners

---
 nion/utils/Event.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 104f800..21b4639 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -127,6 +127,8 @@ class Event:
                 return False
             except Exception as e:
                 self.__print_event_exception(listener)
+        else:
+            return False
 
     def fire_all(self, *args, **keywords):
         """Calls listeners (in order added) until one returns False or else return True."""
@@ -142,3 +144,5 @@ class Event:
                 return True
             except Exception as e:
                 self.__print_event_exception(listener)
+        else:
+            return True
-- 
2.43.0


From 89034992992dc018388efae5c56d049129986d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:02 +0000
Subject: [PATCH 02/50] fix: clearing a single style selection leaves exactly
 index 0 selected

---
 nion/utils/Selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 7dc5e85..e7ac856 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -77,7 +77,7 @@ class IndexedSelection:
     def clear(self) -> None:
         old_index = copy.copy(self.__indexes)
         if self.selection_style == Style.single:
-            self.__indexes.add(0)
+            self.__indexes = {0}
             self.__anchor_index = 0
         else:
             self.__indexes = set()
-- 
2.43.0


From ad8de9bf9490365c4e45c15994bb6decbcee4096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:04 +0000
Subject: [PATCH 03/50] fix: selection anchor moves to a selected index (or
 none) when the anchor index is removed

---
 nion/utils/Selection.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index e7ac856..a994f57 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -86,9 +86,7 @@ class IndexedSelection:
             self.__changed_event.fire()
 
     def __update_anchor_index(self) -> None:
-        for index in self.__indexes:
-            if self.__anchor_index is None or index < self.__anchor_index:
-                self.__anchor_index = index
+        self.__anchor_index = min(self.__indexes) if self.__indexes else None
 
     def add(self, index: int) -> None:
         assert isinstance(index, numbers.Integral)
@@ -196,10 +194,10 @@ class IndexedSelection:
                     new_indexes.add(index - 1)
                 else:
                     new_indexes.add(index)
+        if self.__indexes != new_indexes:
+            self.__indexes = new_indexes
         if self.__anchor_index is not None:
             if remove_index == self.__anchor_index:
                 self.__update_anchor_index()
             elif remove_index < self.__anchor_index:
                 self.__anchor_index -= 1
-        if self.__indexes != new_indexes:
-            self.__indexes = new_indexes
-- 
2.43.0


From 8ddc808236ac8fc264c6ea15d6654ec5c76e5712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:03 +0000
Subject: [PATCH 04/50] fix: filtered list announces the item actually removed
 at each index when replacing all items

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7ad5f4b..ab555f2 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -533,7 +533,7 @@ class FilteredListModel(Observable.Observable):
                     self.__insert_item(item, sort_key)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
-                for item in old_items:
+                for item in reversed(old_items):
                     # remove all items
                     self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
-- 
2.43.0


From c5327bc9ede79cfe25ae41ec590a6b6c6fde1698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:03 +0000
Subject: [PATCH 05/50] fix: filtered list moves an item whose sort key changed
 to its sorted position

---
 nion/utils/ListModel.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index ab555f2..db7ce05 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -440,19 +440,18 @@ class FilteredListModel(Observable.Observable):
                 if sort_key is not None:
                     # are items sorted?
                     sort_operator = operator.gt if self.sort_reverse else operator.lt
-                    before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                     if item in items:
-                        # item already in list?
+                        # item already in list? move it only if it is out of order with respect to its neighbors.
                         index = items.index(item)
-                        if before_index < index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index, item)
-                        elif before_index > index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index - 1, item)
+                        item_sort_key = sort_key(item)
+                        is_before_previous = index > 0 and sort_operator(item_sort_key, sort_key(items[index - 1]))
+                        is_after_next = index + 1 < len(items) and sort_operator(sort_key(items[index + 1]), item_sort_key)
+                        if is_before_previous or is_after_next:
+                            self.__remove_item(item)
+                            self.__insert_item(item, sort_key)
                     else:
                         # item is not in list, just insert
-                        self.__inserted_master_item(before_index, item)
+                        self.__insert_item(item, sort_key)
                 else:
                     # items are not sorted
                     if not item in items:
-- 
2.43.0


From da63a7a27781406dbce0e2e2d460d7082641bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:24 +0000
Subject: [PATCH 06/50] fix: grouped changes of a filtered list keep the list
 in order when kept items moved or reverse is set without a sort key

---
 nion/utils/ListModel.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index db7ce05..f84a29b 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -391,12 +391,12 @@ class FilteredListModel(Observable.Observable):
             if self.__change_level > 0:
                 return
             if self.filter.matches(item):
-                self.__insert_item(item, self.sort_key)
+                self.__insert_item(item, self.sort_key, self.sort_reverse)
 
-    def __insert_item(self, item, sort_key) -> None:
+    def __insert_item(self, item, sort_key, sort_reverse) -> None:
         items = self.__items
         if sort_key is not None:
-            sort_operator = operator.gt if self.sort_reverse else operator.lt
+            sort_operator = operator.gt if sort_reverse else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
             before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
@@ -448,10 +448,10 @@ class FilteredListModel(Observable.Observable):
                         is_after_next = index + 1 < len(items) and sort_operator(sort_key(items[index + 1]), item_sort_key)
                         if is_before_previous or is_after_next:
                             self.__remove_item(item)
-                            self.__insert_item(item, sort_key)
+                            self.__insert_item(item, sort_key, self.sort_reverse)
                     else:
                         # item is not in list, just insert
-                        self.__insert_item(item, sort_key)
+                        self.__insert_item(item, sort_key, self.sort_reverse)
                 else:
                     # items are not sorted
                     if not item in items:
@@ -510,13 +510,19 @@ class FilteredListModel(Observable.Observable):
             # import time
             # t0 = time.perf_counter()
             self.begin_changes_event.fire(self.__items_key)
-            if self.__items_sorted:
-                sort_key = self.sort_key
-                if not sort_key:
-                    indexes = {item: index for index, item in enumerate(items)}
-                    sort_key = lambda x: indexes[x]
-                old_items_set = set(old_items)
-                new_items_set = set(items)
+            sort_key = self.sort_key
+            sort_reverse = self.sort_reverse
+            if not sort_key:
+                indexes = {item: index for index, item in enumerate(items)}
+                sort_key = lambda x: indexes[x]
+                sort_reverse = False
+            old_items_set = set(old_items)
+            new_items_set = set(items)
+            # inserting into the existing items is only possible if the items to be kept are (still) in order.
+            sort_operator = operator.gt if sort_reverse else operator.lt
+            kept_keys = [sort_key(item) for item in old_items if item in new_items_set]
+            is_kept_sorted = not any(sort_operator(next_key, key) for key, next_key in zip(kept_keys, kept_keys[1:]))
+            if self.__items_sorted and is_kept_sorted:
                 insert_items_set = new_items_set - old_items_set
                 remove_items_set = old_items_set - new_items_set
                 items_removed = 0
@@ -529,7 +535,7 @@ class FilteredListModel(Observable.Observable):
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
-                    self.__insert_item(item, sort_key)
+                    self.__insert_item(item, sort_key, sort_reverse)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
                 for item in reversed(old_items):
-- 
2.43.0


From ca25b7a99850539165d67546ec95d62970784bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:53 +0000
Subject: [PATCH 07/50] fix: flattened list selections shift at the flattened
 index when a child is inserted

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index f84a29b..f11b0ba 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -904,7 +904,7 @@ class FlattenedListModel(Observable.Observable):
             self.__items.insert(master_index, item)
             self.notify_insert_item(self.__items_key, item, master_index)
             for selection in self.__selections:
-                selection.insert_index(before_index)
+                selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-- 
2.43.0


From 0276ebb124712d0da78bb73ce1e2850951af6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:13 +0000
Subject: [PATCH 08/50] fix: a copied text filter can be used for matching

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index f11b0ba..1ea2669 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -177,6 +177,7 @@ class TextFilter(Filter):
         result = super().__deepcopy__(memo)
         result.__key = self.__key
         result.__text = self.__text
+        result.__lower_text = self.__lower_text
         return result
 
     def matches(self, d) -> bool:
-- 
2.43.0


From 06b6093045b92f1b3bd2c96caaf9a83c75dd876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:13 +0000
Subject: [PATCH 09/50] fix: scaled integer converter rounds to the nearest
 integer so that integers survive a round trip

---
 nion/utils/Converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index b5dda3d..8f83e02 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -83,7 +83,7 @@ class FloatToScaledIntegerConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage int """
-        return int(self.n * (value - self.value_min) / (self.value_max - self.value_min))
+        return int(round(self.n * (value - self.value_min) / (self.value_max - self.value_min)))
 
     def convert_back(self, value_int):
         """ Convert int percentage value to float """
-- 
2.43.0


From bb6d87aa79c00f44027abe9e596bd0e470fce3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:13 +0000
Subject: [PATCH 10/50] fix: percent converter rounds to the nearest percent so
 that percentages survive a round trip

---
 nion/utils/Converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 8f83e02..971e5b3 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -95,7 +95,7 @@ class FloatToPercentStringConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage string """
-        return str(int(value * 100)) + "%"
+        return str(int(round(value * 100))) + "%"
 
     def convert_back(self, formatted_value):
         """ Convert percentage string to float between 0, 1 """
-- 
2.43.0


From ed61d4ea25a900c50679578eaa1794453de47ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:13 +0000
Subject: [PATCH 11/50] fix: fuzzy float conversion accepts a comma as decimal
 point instead of raising ValueError

---
 nion/utils/Converter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 971e5b3..21d2bb6 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -62,10 +62,9 @@ class FloatToStringConverter:
             """, re.VERBOSE | re.IGNORECASE).match
             m = _parser(formatted_value.strip())
             if m is not None:
+                # either period or comma is accepted as decimal point
                 decimal_point = locale.localeconv().get("decimal_point", ".")
-                if decimal_point != '.':
-                    return locale.atof(m.group(0).replace(".", decimal_point))
-                return locale.atof(m.group(0))
+                return locale.atof(m.group(0).replace(",", ".").replace(".", decimal_point))
             return 0.0
         else:
             decimal_point = locale.localeconv().get("decimal_point", ".")
-- 
2.43.0


From 6e7d70dc236bdcc9698e62b55aa4db952d3960b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:13 +0000
Subject: [PATCH 12/50] fix: physical value converter with pass_none converts
 missing or empty text back to None

---
 nion/utils/Converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 21d2bb6..8edbd01 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -119,7 +119,8 @@ class PhysicalValueToStringConverter:
 
     def convert_back(self, formatted_value):
         """ Convert string to value using standard float conversion """
-        return FloatToStringConverter().convert_back(formatted_value) / self.__multiplier
+        value = FloatToStringConverter(pass_none=self.__pass_none).convert_back(formatted_value)
+        return value / self.__multiplier if value is not None else None
 
 
 class CheckedToCheckStateConverter:
-- 
2.43.0


From 1c31c985895aa73766df02d6437a9023b2f58d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:08 +0000
Subject: [PATCH 13/50] fix: debounce stream does not lose a value that arrives
 while the previous one is being fired

---
 nion/utils/Stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 1edc69c..eddb26f 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -168,9 +168,10 @@ class DebounceStream(AbstractStream):
     async def debounce_delay(self) -> None:
         try:
             await asyncio.sleep(self.__period)
-            self.value_stream.fire(self.__value)
         finally:
+            # clear the task first so that a value arriving while firing starts a new delay.
             self.__debounce_task = None
+        self.value_stream.fire(self.__value)
 
     def __value_changed(self, value):
         self.__value = value
-- 
2.43.0


From a82d02f3c615a29b6f60d879ad4c4dc73af4fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:08 +0000
Subject: [PATCH 14/50] fix: the first sample of a sample stream is the value
 of its input, not None

---
 nion/utils/Stream.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index eddb26f..e00c5b4 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -194,12 +194,11 @@ class SampleStream(AbstractStream):
         self.__input_stream = input_stream.add_ref()
         self.__period = period
         self.__last_time = 0
-        self.__pending_value = None
-        self.__value = None
-        self.__listener = input_stream.value_stream.listen(self.__value_changed)
+        self.__pending_value = input_stream.value
         self.__value = input_stream.value
         self.__value_dirty = True
         self.__value_dirty_lock = threading.RLock()
+        self.__listener = input_stream.value_stream.listen(self.__value_changed)
         self.__done = False
 
         def next_sample(f):
-- 
2.43.0


From 4f047f3746971a61c430b53c9cd01eccdf5a7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:08 +0000
Subject: [PATCH 15/50] fix: sample stream does not lose a value set on another
 thread while a sample is taken

---
 nion/utils/Stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index e00c5b4..30ab1ac 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -223,14 +223,15 @@ class SampleStream(AbstractStream):
         with self.__value_dirty_lock:
             value_dirty = self.__value_dirty
             self.__value_dirty = False
+            pending_value = self.__pending_value
         if value_dirty:
-            self.__value = self.__pending_value
-            self.value_stream.fire(self.__pending_value)
+            self.__value = pending_value
+            self.value_stream.fire(pending_value)
 
     def __value_changed(self, value):
         with self.__value_dirty_lock:
             self.__value_dirty = True
-        self.__pending_value = value
+            self.__pending_value = value
 
     @property
     def value(self):
-- 
2.43.0


From 36757e5eb8302896190ceba2c697fbeb0649a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:08 +0000
Subject: [PATCH 16/50] fix: a slow evaluation does not overwrite the value of
 a later function in a function stream model

---
 nion/utils/Model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index bd5d120..2b20733 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -62,16 +62,23 @@ class FuncStreamValueModel(PropertyModel):
         self.__value_func_stream = value_func_stream.add_ref()
         self.__event_loop = event_loop
         self.__count = 0
+        self.__request_index = 0
+        self.__result_index = 0
 
         def handle_value_func(value_func):
+            self.__request_index += 1
+            request_index = self.__request_index
+
             async def update_value():
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
                 await event_loop.run_in_executor(None, eval, value_ref)
-                value = value_ref[0]
-                self.value = value
-                self.notify_property_changed("value")
+                # evaluations may finish out of order; ignore one that is older than the current value.
+                if request_index > self.__result_index:
+                    self.__result_index = request_index
+                    self.value = value_ref[0]
+                    self.notify_property_changed("value")
                 self.__count -= 1
             self.__count += 1
             event_loop.create_task(update_value())
-- 
2.43.0


From f8d8f665b66c26e61c76c7f297cbb3dade2444e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:10 +0000
Subject: [PATCH 17/50] fix: structured models accept the type that
 define_float and FLOAT produce

---
 nion/utils/StructuredModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 851f601..f959f82 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -62,10 +62,10 @@ def define_array(items: MDescription) -> MDescription:
 
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
@@ -76,10 +76,10 @@ def build_model(schema: MDescription, *, default_value=None, value=None):
 
 
 def build_value(schema: MDescription, *, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return value
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return value
     elif type == "record":
         return RecordModel(schema, values=value)
-- 
2.43.0


From 5f0ef8dd0f801c562ef2e338310e919b8bfa23c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:10 +0000
Subject: [PATCH 18/50] fix: the value given for a field of a structured model
 takes precedence over its default

---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index f959f82..e8580fc 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -63,10 +63,10 @@ def define_array(items: MDescription) -> MDescription:
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
     if schema in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
     if type in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
         record_values.update(value or dict())
-- 
2.43.0


From fedfae28767eb7b39111b235c62aa94dd6006164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:10 +0000
Subject: [PATCH 19/50] fix: array model keeps observing the right items after
 an insertion before the end

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index e8580fc..56f715c 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -297,7 +297,7 @@ class ArrayModel(ListModelModule.ListModel):
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
-        self.__model_changed_listeners.append(trampoline)
+        self.__model_changed_listeners.insert(before_index, trampoline)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-- 
2.43.0


From 957bc136c1e50487e9987fcd7c502dd5257a6557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:10 +0000
Subject: [PATCH 20/50] fix: closing an array model raises TypeError

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 56f715c..c1ab74c 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -258,7 +258,7 @@ class ArrayModel(ListModelModule.ListModel):
             self.__model_changed_listeners.append(trampoline)
 
     def close(self):
-        for index, item in enumerate(self.items()):
+        for index, item in enumerate(self.items):
             trampoline = self.__model_changed_listeners[index]
             if trampoline:
                 trampoline.close()
-- 
2.43.0


From 5bb4460e0814adc39719de23905d7c469f089f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:10 +0000
Subject: [PATCH 21/50] fix: testing whether an item is in an array field
 raises AttributeError

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index c1ab74c..e69969b 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -226,7 +226,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         self.__list_model.remove_item(key)
 
     def __contains__(self, item):
-        return self.__list_model.items.contains(item)
+        return item in self.__list_model.items
 
     def insert(self, index, value):
         self.__list_model.insert_item(index, value)
-- 
2.43.0


From 1f79267d428ca7af9c772af1fdc8d0983694c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:10 +0000
Subject: [PATCH 22/50] fix: removing from an array field by negative index
 (pop, clear) announces the actual index

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index e69969b..bf45820 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -223,7 +223,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         raise IndexError()
 
     def __delitem__(self, key):
-        self.__list_model.remove_item(key)
+        self.__list_model.remove_item(range(len(self))[key])  # announce a non-negative index
 
     def __contains__(self, item):
         return item in self.__list_model.items
-- 
2.43.0


From 49df1b71b8fe573357fd2476a02032e2fe777c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:10 +0000
Subject: [PATCH 23/50] fix: array models of basic types convert to and from
 plain values, and all changes are announced

---
 nion/utils/StructuredModel.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index bf45820..6a16989 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -273,18 +273,21 @@ class ArrayModel(ListModelModule.ListModel):
         self.from_dict_value(array.to_dict_value())
 
     def from_dict_value(self, values):
-        while len(values) > len(self.items):
-            item_schema = self.schema["items"]
-            self.items.append(build_value(item_schema))
         while len(values) < len(self.items):
-            del self.items[-1]
-        for value, item in zip(values, self.items):
-            item.from_dict_value(value)
+            self.remove_item(len(self.items) - 1)
+        for index, value in enumerate(values):
+            if index == len(self.items):
+                self.append_item(build_value(self.schema["items"], value=value))
+            elif isinstance(self.items[index], (RecordModel, ArrayModel)):
+                self.items[index].from_dict_value(value)
+            elif self.items[index] != value:
+                self.remove_item(index)
+                self.insert_item(index, value)
 
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
         for item in self.items:
-            l.append(item.to_dict_value())
+            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
         return l
 
     @property
-- 
2.43.0


From 0521c8200a37a3aa34ce4ebffc7e8bb199c4deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 24/50] fix: clearing a persistent property with its own
 storage key clears it under that key

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7f76fe1..df59313 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -594,7 +594,7 @@ class PersistentObject:
                 for property_key in properties:
                     self.persistent_object_context.property_changed(self, property_key, properties[property_key])
             else:
-                self.persistent_object_context.clear_property(self, name)
+                self.persistent_object_context.clear_property(self, property.key)
 
     def __update_modified(self, modified):
         self.__modified_count += 1
-- 
2.43.0


From dd1c39c82cc23277227daa7b0ea3be61bd448ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 25/50] fix: copying a persistent object with a hidden item
 raises AttributeError

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index df59313..3268a19 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -393,7 +393,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key)))
+            self.set_item(key, copy.deepcopy(item.get_item(key), memo))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From eccdd9ac1b2aedec42f20130a31264d56ed53699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 26/50] fix: subscribing to a registered object without a
 registered function raises TypeError

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 3268a19..0807bff 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -222,7 +222,7 @@ class PersistentObjectContext:
         self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
         weak_object = self.__objects.get(object_uuid)
         object = weak_object and weak_object()
-        if object is not None:
+        if object is not None and registered:
             registered(object)
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
-- 
2.43.0


From e95b8f807dfdbb3da2dac2812733ea4f593935c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 27/50] fix: a subscription made while its object is being
 registered is called only once

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 0807bff..11746cd 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -184,7 +184,7 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = weakref.ref(object)
         self.__objects[object_uuid] = weak_object
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
+        for registered, unregistered in list(self.__subscriptions.get(object_uuid, list())):
             if registered:
                 registered(object)
         self.registration_event.fire(object, None)
-- 
2.43.0


From e49085cc12a3e0fb823b144493fa81ed6ea8174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 28/50] fix: a replaced or cleared item of a persistent object
 no longer writes to the storage of its successor

---
 nion/utils/Persistence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 11746cd..7db24e8 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -690,6 +690,11 @@ class PersistentObject:
             self.persistent_object_context.item_set(self, name, value)  # this will also update item's persistent_object_context
         if item.item_changed:
             item.item_changed(name, old_value, value)
+        # the old item, unless put somewhere else, is no longer part of this object.
+        old_parent = old_value.persistent_object_parent if old_value else None
+        if old_parent and old_value is not value and old_parent.parent is self and old_parent.item_name == name:
+            old_value.persistent_object_context = None
+            old_value.persistent_object_parent = None
 
     def __insert_item(self, name, before_index, item):
         """ Insert item into relationship storage and notify. Does not insert in persistent storage or update modified. """
-- 
2.43.0


From 52d2898b1a70c1a6d3eb7486f1e123fe43be68e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:22 +0000
Subject: [PATCH 29/50] fix: get_component returns the component with the
 highest priority, as documented

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 79279bf..ccd5a50 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -93,7 +93,7 @@ def get_component(component_type: str) -> typing.Optional[typing.Any]:
     sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)
 
     if len(sorted_components) > 0:
-        return tuple(components)[0]
+        return sorted_components[0]
 
     return None
 
-- 
2.43.0


From 165ef5f74f4469a760d0af813d3de886d0b4cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:22 +0000
Subject: [PATCH 30/50] fix: unregistering a component from all its types
 announces those types, not an empty set

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index ccd5a50..0fc4829 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -60,7 +60,7 @@ class ComponentManager(metaclass=Singleton):
         self.component_registered_event.fire(component, component_types)
 
     def unregister(self, component, component_types: typing.Set[str] = None) -> None:
-        component_types = component_types if component_types is not None else self.__component_types[component]
+        component_types = set(component_types if component_types is not None else self.__component_types[component])
         for component_type in component_types:
             assert component in self.__components_by_type.get(component_type, set())
         for component_type in component_types:
-- 
2.43.0


From 313f97cd1a85e37139175bb039d47cee9b6bb534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:29 +0000
Subject: [PATCH 31/50] fix: recorder records values and inserted items as they
 were when recorded

---
 nion/utils/Recorder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 5ece3c7..b48bd4d 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -68,8 +68,9 @@ class Recorder:
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
+            value = copy.deepcopy(getattr(self.__object, key))
             def property_setter(x):
-                setattr(self.__accessor_fn(x), key, getattr(self.__object, key))
+                setattr(self.__accessor_fn(x), key, copy.deepcopy(value))
             # print("set property {} {}".format(key, value))
             self.__logger.append(property_setter)
 
@@ -92,6 +93,7 @@ class Recorder:
                 relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index + 1]
         self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
         # print("append {} {} {}".format(key, value, before_index))
+        value = copy.deepcopy(value)  # as inserted; later changes are recorded separately
         self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
 
     def __item_removed(self, key, value, item_index):
-- 
2.43.0


From 731590240964d6b9d2347687875a7a06faaf7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:29 +0000
Subject: [PATCH 32/50] fix: recorder applies changes to the right objects
 after insertions and removals

---
 nion/utils/Recorder.py | 53 ++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index b48bd4d..2873478 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -14,6 +14,8 @@ class Recorder:
     def __init__(self, object, accessor_fn: AccessorType=None, logger=None):
         self.__object = object
         self.__accessor_fn = accessor_fn if accessor_fn else lambda x: x  # type: AccessorType
+        self.__parent_recorder = None
+        self.__parent_key = None
         self.__logger = logger if logger is not None else list()
         self.__property_changed_event_listener = object.property_changed_event.listen(self.__property_changed)
         self.__item_set_event_listener = object.item_set_event.listen(self.__item_set)
@@ -25,15 +27,11 @@ class Recorder:
         for key in object.item_names:
             item = getattr(object, key)
             if item:
-                def item_accessor(key, x):
-                    return getattr(self.__accessor_fn(x), key)
-                self.__item_recorders[key] = Recorder(item, functools.partial(item_accessor, key), self.__logger)
+                self.__item_recorders[key] = self.__make_recorder(key, item)
         for key in object.relationship_names:
             items = getattr(object, key)
-            for index, item in enumerate(items):
-                def item_index_accessor(key: str, index: int, x):
-                    return getattr(self.__accessor_fn(x), key)[index]
-                self.__relationship_recorders[key].append(Recorder(item, functools.partial(item_index_accessor, key, index), self.__logger))
+            for item in items:
+                self.__relationship_recorders[key].append(self.__make_recorder(key, item))
 
     def close(self):
         self.__property_changed_event_listener.close()
@@ -58,19 +56,34 @@ class Recorder:
         for logger_item in self.__logger:
             logger_item(object)
 
+    def __make_recorder(self, key, item) -> "Recorder":
+        recorder = Recorder(item, logger=self.__logger)
+        recorder.__parent_recorder = self
+        recorder.__parent_key = key
+        return recorder
+
     @property
     def _accessor_fn(self) -> AccessorType:
-        return self._accessor_fn
-
-    @_accessor_fn.setter
-    def _accessor_fn(self, value: AccessorType) -> None:
-        self._accessor_fn = value
+        # the accessor of the object at its current position. positions may change while recording, but when a recorded
+        # change gets applied, the objects will be where they were when the change was recorded.
+        parent = self.__parent_recorder
+        if not parent:
+            return self.__accessor_fn
+        def item_accessor(parent_accessor_fn: AccessorType, key: str, x):
+            return getattr(parent_accessor_fn(x), key)
+        def item_index_accessor(parent_accessor_fn: AccessorType, key: str, index: int, x):
+            return getattr(parent_accessor_fn(x), key)[index]
+        key = self.__parent_key
+        if parent.__item_recorders.get(key) is self:
+            return functools.partial(item_accessor, parent._accessor_fn, key)
+        return functools.partial(item_index_accessor, parent._accessor_fn, key, parent.__relationship_recorders[key].index(self))
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
+            accessor_fn = self._accessor_fn
             value = copy.deepcopy(getattr(self.__object, key))
             def property_setter(x):
-                setattr(self.__accessor_fn(x), key, copy.deepcopy(value))
+                setattr(accessor_fn(x), key, copy.deepcopy(value))
             # print("set property {} {}".format(key, value))
             self.__logger.append(property_setter)
 
@@ -88,18 +101,14 @@ class Recorder:
         self.__item_set(key, None)
 
     def __item_inserted(self, key, value, before_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index >= before_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index + 1]
-        self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
+        accessor_fn = self._accessor_fn
+        self.__relationship_recorders[key].insert(before_index, self.__make_recorder(key, value))
         # print("append {} {} {}".format(key, value, before_index))
         value = copy.deepcopy(value)  # as inserted; later changes are recorded separately
-        self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
+        self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
 
     def __item_removed(self, key, value, item_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index > item_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index - 1]
+        accessor_fn = self._accessor_fn
         self.__relationship_recorders[key].pop(item_index).close()
         # print("remove {} {} {}".format(key, value, item_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).remove_item(key, getattr(self.__accessor_fn(x), key)[item_index]))
+        self.__logger.append(lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index]))
-- 
2.43.0


From 99594162b2b5ebc7b632d6fde0a660107af4b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:29 +0000
Subject: [PATCH 33/50] fix: recorder records setting and clearing of items

---
 nion/utils/Recorder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 2873478..9a4b051 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -88,14 +88,15 @@ class Recorder:
             self.__logger.append(property_setter)
 
     def __item_set(self, key, item):
-        item_recorder = self.__item_recorders.pop(key)
+        item_recorder = self.__item_recorders.pop(key, None)
         if item_recorder:
             item_recorder.close()
-        item = getattr(self.__accessor_fn(), key)
         if item:
-            self.__item_recorders[key] = Recorder(item, lambda x: getattr(self.__accessor_fn(x), key), self.__logger)
+            self.__item_recorders[key] = self.__make_recorder(key, item)
         # print("set {} {}".format(key, item))
-        self.__logger.append(lambda x: setattr(self.__accessor_fn(x), key, item))
+        accessor_fn = self._accessor_fn
+        item = copy.deepcopy(item)  # as set; later changes are recorded separately
+        self.__logger.append(lambda x: accessor_fn(x).set_item(key, copy.deepcopy(item)))
 
     def __item_cleared(self, key):
         self.__item_set(key, None)
-- 
2.43.0


From 2d596ba5d0af1a8cb161d50f7a4eff29cc958d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 34/50] fix: a trigger waiting for a dispatched function does
 not hang when the function raises an exception

---
 nion/utils/ThreadPool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index afbd87b..cc123b8 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -76,12 +76,12 @@ class ThreadDispatcher(object):
                 break
             try:
                 self.__fn()
-                self.__triggered_event.set()
             except Exception as e:
                 import traceback
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
+            self.__triggered_event.set()
             self.__last_time = time.time()
 
 
-- 
2.43.0


From 44dd02d3f2fed9f04b8e4960152b853becefb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 35/50] fix: a trigger waiting for a dispatched function does
 not hang when the dispatcher is closed

---
 nion/utils/ThreadPool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index cc123b8..8b955f3 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -42,12 +42,15 @@ class ThreadDispatcher(object):
             self.__thread_break = True
             self.__thread_event.set()
         self.__thread.join()
+        self.__triggered_event.set()
         self.__thread = None
         self.__fn = None
 
     def trigger(self, wait=False):
         if wait:
             with self.__thread_lock:
+                if self.__thread_break:
+                    return
                 self.__triggered_event.clear()
                 self.__thread_event.set()
             self.__triggered_event.wait()
-- 
2.43.0


From 1ef03d9342f6ff65661fab0844bf9811d1046460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:10 +0000
Subject: [PATCH 36/50] fix: a closed listener does not veto fire_all

---
 nion/utils/Event.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 21b4639..eae4a15 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -30,6 +30,10 @@ class EventListener:
                 pass
             self.call = void
 
+    @property
+    def closed(self) -> bool:
+        return self.__listener_fn is None
+
     def close(self):
         self.__listener_fn = None
         def void(*args, **kwargs):
@@ -138,7 +142,7 @@ class Event:
                 with self.__weak_listeners_mutex:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
-                    if listener:
+                    if listener and not listener.closed:
                         if not listener.call(*args, **keywords):
                             return False
                 return True
-- 
2.43.0


From c8b9f7b1b7ac894b468b7ed72a3915834c3abcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:10 +0000
Subject: [PATCH 37/50] fix: a listener whose owner is falsy (an empty
 collection) stays registered

---
 nion/utils/Event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index eae4a15..76efba5 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -79,7 +79,7 @@ class Event:
         weak_listener = weakref.ref(listener, remove_listener)
         with self.__weak_listeners_mutex:
             self.__weak_listeners.append(weak_listener)
-        if owner:
+        if owner is not None:
             def owner_gone(weak_owner):
                 listener = self.__listeners[id(weak_owner)][0]
                 listener.close()
-- 
2.43.0


From 9d9435a957e3abbd71c730ca31ff566b72fe05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:10 +0000
Subject: [PATCH 38/50] fix: labels of large negative axis ticks show as many
 digits as those of positive ones

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 90d1ae6..5e0c8ec 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -180,7 +180,7 @@ class LinearTicker(Ticker):
     def __nice_label(self, value: float, precision: int, factor10: float) -> str:
         f10 = int(math.log10(factor10)) if factor10 > 0 else 0
         if abs(f10) > 5:
-            f10x = int(math.log10(value)) if value > 0 else f10
+            f10x = int(math.log10(abs(value))) if value != 0 else f10
             precision = max(0, f10x - f10)
             return (u"{0:0." + u"{0:d}".format(precision) + "e}").format(value)
         else:
-- 
2.43.0


From 7c034e749d172ef18e53c7f583bf52d85e10ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:34 +0000
Subject: [PATCH 39/50] fix: registering or unregistering a component while the
 components of its type are announced or iterated

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 0fc4829..a9b2f86 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -48,7 +48,7 @@ class ComponentManager(metaclass=Singleton):
         return self.__components_by_type
 
     def get_components_by_type(self, component_type:str) -> typing.Set[typing.Any]:
-        return self.__components_by_type.get(component_type, list())
+        return set(self.__components_by_type.get(component_type, set()))
 
     def register(self, component, component_types: typing.Set[str]) -> None:
         for component_type in component_types:
-- 
2.43.0


From 9ce26f60f6046f4f7adc8b12e0b07686991e9f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 40/50] fix: an axis whose range is just below a power of ten
 less than one, such as 0.2 to 0.3, has ticks

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 5e0c8ec..badee2a 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -29,7 +29,7 @@ def make_pretty(val, rounding):
     val_norm = abs(val) / factor10  # between 1 and 10
     if val_norm < 1.0:
         val_norm = val_norm * 10
-        factor10 = factor10 // 10
+        factor10 = factor10 / 10
     if rounding:
         if val_norm < 1.5:
             val_norm = 1.0
-- 
2.43.0


From 981a0ad33ff5f19b62e771dd79392c771712374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:00 +0000
Subject: [PATCH 41/50] fix: a tuple binding shows its fallback when the bound
 element becomes None

---
 nion/utils/Binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Binding.py b/nion/utils/Binding.py
index bb96fe5..5db92ab 100644
--- a/nion/utils/Binding.py
+++ b/nion/utils/Binding.py
@@ -338,7 +338,7 @@ class TuplePropertyBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and self.__tuple_index < len(value):
+                if value is not None and self.__tuple_index < len(value) and value[self.__tuple_index] is not None:
                     self.update_target(value[self.__tuple_index])
                 else:
                     self.update_target_direct(self.fallback)
-- 
2.43.0


From eb5ff71fb16fa6b82cce3141247448a2e1c37823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:02 +0000
Subject: [PATCH 42/50] fix: an attribute binding shows its fallback when the
 bound attribute becomes None

---
 nion/utils/Binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Binding.py b/nion/utils/Binding.py
index 5db92ab..a270449 100644
--- a/nion/utils/Binding.py
+++ b/nion/utils/Binding.py
@@ -282,7 +282,7 @@ class PropertyAttributeBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and hasattr(value, self.__attribute_name):
+                if value is not None and getattr(value, self.__attribute_name, None) is not None:
                     self.update_target(getattr(value, self.__attribute_name))
                 else:
                     self.update_target_direct(self.fallback)
-- 
2.43.0


From 51aa3997581d8915e4c8310374fa38e845ff8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:45 +0000
Subject: [PATCH 43/50] fix: releasing a selection from a list model stops
 exactly that selection from following, not an equal one

---
 nion/utils/ListModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 1ea2669..2d86c32 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -611,7 +611,8 @@ class FilteredListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # compare by identity; selections are equal if they have the same indexes.
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __item_inserted(self, key, item, before_index):
@@ -769,7 +770,8 @@ class MappedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # compare by identity; selections are equal if they have the same indexes.
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __master_item_inserted(self, key, item, before_index):
@@ -861,7 +863,8 @@ class FlattenedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # compare by identity; selections are equal if they have the same indexes.
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # almost thread safe. assumes child items will not change duing this call.
     def __master_item_inserted(self, key, item, before_index):
-- 
2.43.0


From e1cdd39a78c676bac27a23596538a2dea0617292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:02 +0000
Subject: [PATCH 44/50] fix: an integer rectangle of negative odd size, such as
 an empty intersection, keeps its place when moved by zero

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index badee2a..67a6e54 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -494,7 +494,7 @@ class IntRect:
         """ Make an IntRect from a center, size. """
         center = IntPoint.make(center)
         size = IntSize.make(size)
-        origin = center - IntSize(height=size.height * 0.5, width=size.width * 0.5)
+        origin = center - IntSize(height=size.height // 2, width=size.width // 2)
         return IntRect(origin, size)
 
     @classmethod
-- 
2.43.0


From 22bf9d0a2a50ede0666b0cc6cbdbf9573bccf3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:14 +0000
Subject: [PATCH 45/50] fix: announce the actual index when inserting into an
 array at a negative or too large index

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 6a16989..843bbc5 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -229,7 +229,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         return item in self.__list_model.items
 
     def insert(self, index, value):
-        self.__list_model.insert_item(index, value)
+        self.__list_model.insert_item(slice(index, None).indices(len(self))[0], value)  # announce the actual index
 
 
 class ArrayModel(ListModelModule.ListModel):
-- 
2.43.0


From f65dbca13bb5f4f8725dbcfdcf304390e16c4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:48 +0000
Subject: [PATCH 46/50] fix: a listener closed by another thread during
 fire_all does not decide the vote

---
 nion/utils/Event.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 76efba5..e5eccb1 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -142,8 +142,9 @@ class Event:
                 with self.__weak_listeners_mutex:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
-                    if listener and not listener.closed:
-                        if not listener.call(*args, **keywords):
+                    if listener:
+                        call = listener.call  # before checking closed; another thread may be closing the listener
+                        if not listener.closed and not call(*args, **keywords):
                             return False
                 return True
             except Exception as e:
-- 
2.43.0


From 8db11823b169c3b86e4b06d9171d26598c803ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:04 +0000
Subject: [PATCH 47/50] fix: unregister an object's old uuid when it reads
 another one while in a context

---
 nion/utils/Persistence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7db24e8..666ea71 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -502,7 +502,11 @@ class PersistentObject:
         """ Read from a dict. """
         # uuid is handled specially for performance reasons
         if "uuid" in properties:
-            self.uuid = uuid.UUID(properties["uuid"])
+            object_uuid = uuid.UUID(properties["uuid"])
+            # an object in a context is registered by its uuid; do not leave it registered by its old one.
+            if self.persistent_object_context and object_uuid != self.uuid:
+                self.persistent_object_context.unregister(self)
+            self.uuid = object_uuid
             if self.persistent_object_context:
                 self.persistent_object_context.register(self)
         if "modified" in properties:
-- 
2.43.0


From e5e6ee1db0fb1e039e03a69ec68419f953cdf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:35 +0000
Subject: [PATCH 48/50] fix: lock a flattened list while its children change

---
 nion/utils/ListModel.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 2d86c32..7728ec5 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -896,7 +896,17 @@ class FlattenedListModel(Observable.Observable):
                 del self.__child_item_removed_event_listener[item]
                 assert not item in self.__master_items, "master item still in " + str(self.__master_items_key) + " (" + str(self.__items_key) + " / " + str(self.__child_items_key) + ")"
 
+    # thread safe.
     def __child_item_inserted(self, master_item, key, item, before_index):
+        with self._update_mutex:
+            self.__insert_child_item(master_item, key, item, before_index)
+
+    # thread safe.
+    def __child_item_removed(self, master_item, key, item, index):
+        with self._update_mutex:
+            self.__remove_child_item(master_item, key, item, index)
+
+    def __insert_child_item(self, master_item, key, item, before_index):
         if key == self.__child_items_key:
             master_index = 0
             for master_item_ in self.__master_items:
@@ -910,7 +920,7 @@ class FlattenedListModel(Observable.Observable):
             for selection in self.__selections:
                 selection.insert_index(master_index)
 
-    def __child_item_removed(self, master_item, key, item, index):
+    def __remove_child_item(self, master_item, key, item, index):
         if key == self.__child_items_key:
             master_index = 0
             for master_item_ in self.__master_items:
-- 
2.43.0


From 8e09e68fb60e1ba887c7ca0cc6357964404e99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:12 +0000
Subject: [PATCH 49/50] fix: count groups of changes of a list under its lock

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7728ec5..9ef2f0e 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -274,7 +274,8 @@ class FilteredListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        self.__change_level += 1
+        with self._update_mutex:
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
@@ -677,9 +678,10 @@ class MappedListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        if self.__change_level == 0:
-            self.begin_changes_event.fire(self.__items_key)
-        self.__change_level += 1
+        with self._update_mutex:
+            if self.__change_level == 0:
+                self.begin_changes_event.fire(self.__items_key)
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
-- 
2.43.0


From 3fa26920f0cb3e5ddcd4e4fa0b9fda5549982f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:33 +0000
Subject: [PATCH 50/50] fix: store related objects under the storage key of
 their relationship

---
 nion/utils/Persistence.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 666ea71..5a997d0 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -433,7 +433,8 @@ class PersistentObject:
             return lambda storage_dict: storage_dict.get(persistent_object_parent.item_name, dict())
         if persistent_object_parent.relationship_name:
             index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)
-            return lambda storage_dict: storage_dict[persistent_object_parent.relationship_name][index]
+            storage_key = persistent_object_parent.parent.__relationships[persistent_object_parent.relationship_name].storage_key
+            return lambda storage_dict: storage_dict[storage_key][index]
         return None
 
     def define_type(self, type):
@@ -718,7 +719,7 @@ class PersistentObject:
         # the persistent_object_parent and relationship need to be established before
         # calling item_inserted.
         if self.persistent_object_context:
-            self.persistent_object_context.item_inserted(self, name, before_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_inserted(self, relationship.storage_key, before_index, item)  # this will also update item's persistent_object_context
         if relationship.insert:
             relationship.insert(name, before_index, item)
 
@@ -736,7 +737,7 @@ class PersistentObject:
             relationship.remove(name, item_index, item)
         item.persistent_object_context = None
         if self.persistent_object_context:
-            self.persistent_object_context.item_removed(self, name, item_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
         item.persistent_object_parent = None
 
     def extend_items(self, name, items):
-- 
2.43.0

